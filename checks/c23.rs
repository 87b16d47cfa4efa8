//! C23: printed locations tell different locations apart and read back as the same location.
use crate::vp::*;
use crate::System::specifics::SpecialLocation;
use crate::TransitionSystems::LocationID as L;

/// Any location up to the depth, named with one symbolic letter per part.
fn any(depth: usize, leaves: usize) -> L {
    let k = if depth == 0 { 0 } else { choose("form", 4) };
    let sub = |d: usize| Box::new(any(d - 1, leaves));
    match k {
        0 => match choose("leaf", leaves) {
            0 => L::Simple(chr("name", b'a', b'z')),
            1 => L::AnyLocation,
            2 => L::Special(SpecialLocation::Universal),
            _ => L::Special(SpecialLocation::Error),
        },
        1 => L::Conjunction(sub(depth), sub(depth)),
        2 => L::Composition(sub(depth), sub(depth)),
        _ => L::Quotient(sub(depth), sub(depth)),
    }
}
fn parts<'a>(t: &'a L, conj: bool, out: &mut Vec<&'a L>) {
    match t {
        L::Conjunction(l, r) if conj => { parts(l, conj, out); parts(r, conj, out) }
        L::Composition(l, r) if !conj => { parts(l, conj, out); parts(r, conj, out) }
        _ => out.push(t),
    }
}
/// the same location, where nested conjunctions (compositions) are read up to grouping
fn same(a: &L, b: &L) -> bool {
    match (a, b) {
        (L::Simple(x), L::Simple(y)) => x == y,
        (L::AnyLocation, L::AnyLocation) => true,
        (L::Special(SpecialLocation::Universal), L::Special(SpecialLocation::Universal)) | (L::Special(SpecialLocation::Error), L::Special(SpecialLocation::Error)) => true,
        (L::Conjunction(..), L::Conjunction(..)) | (L::Composition(..), L::Composition(..)) => {
            let conj = matches!(a, L::Conjunction(..));
            let (mut x, mut y) = (vec![], vec![]);
            parts(a, conj, &mut x);
            parts(b, conj, &mut y);
            x.len() == y.len() && x.iter().zip(&y).fold(true, |r, (p, q)| and(r, same(p, q)))
        }
        (L::Quotient(a, b), L::Quotient(c, d)) => and(same(a, c), same(b, d)),
        _ => false,
    }
}
fn open(t: &L) -> bool {
    match t {
        L::Conjunction(a, b) | L::Composition(a, b) | L::Quotient(a, b) => open(a) || open(b),
        L::AnyLocation => true,
        _ => false,
    }
}
fn distinct(da: usize, db: usize, leaves: usize) {
    let (a, b) = (any(da, leaves), any(db, leaves));
    let (p, q) = (format!("{}", a), format!("{}", b));
    reach("printed");
    check((p == q) == same(&a, &b), "the printed form tells locations apart");
    check((a == b) <= (p == q), "equal locations print alike");
    check(a.is_partial_location() == open(&a), "a location is partial when some part is left open");
}
fn back(depth: usize) {
    let a = any(depth, 1);
    reach("read");
    check(same(&L::from_string(&format!("{}", a)), &a), "a printed location reads back as the same location");
}
harness! {
    h_c23_flat => distinct(1, 1, 4);
    h_c23_nested => distinct(2, 2, 1);
    h_c23_mixed => distinct(2, 1, 3);
    h_c23_back => back(2);
    h_c23_back_deep => back(3);
}
