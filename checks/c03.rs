//! C03: printed step identifiers tell different steps apart.
use crate::vp::*;
use crate::TransitionSystems::TransitionID as T;

/// Any identifier up to the depth, named with one symbolic letter per edge.
fn any(depth: usize, full: bool) -> T {
    match if depth == 0 && !full { 0 } else if full { choose("form", if depth == 0 { 2 } else { 5 }) } else { [0, 2, 3, 4][choose("form", 4)] } {
        0 => T::Simple(chr("edge", b'a', b'z')),
        1 => T::None,
        2 => T::Conjunction(Box::new(any(depth - 1, full)), Box::new(any(depth - 1, full))),
        3 => T::Composition(Box::new(any(depth - 1, full)), Box::new(any(depth - 1, full))),
        _ => {
            let most = if depth > 1 || !full { 2 } else { 3 };
            let (nl, nr) = (choose("left", most), choose("right", most));
            T::Quotient((0..nl).map(|_| any(depth - 1, full)).collect(), (0..nr).map(|_| any(depth - 1, full)).collect())
        }
    }
}
/// `a && (b && c)` and `(a && b) && c` are the same step: compare the flattened operands.
fn flat<'a>(t: &'a T, conj: bool, out: &mut Vec<&'a T>) {
    match t {
        T::Conjunction(l, r) if conj => { flat(l, conj, out); flat(r, conj, out) }
        T::Composition(l, r) if !conj => { flat(l, conj, out); flat(r, conj, out) }
        _ => out.push(t),
    }
}
fn all(a: &[&T], b: &[&T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).fold(true, |r, (x, y)| and(r, same(x, y)))
}
fn same(a: &T, b: &T) -> bool {
    match (a, b) {
        (T::Simple(x), T::Simple(y)) => x == y,
        (T::None, T::None) => true,
        (T::Conjunction(..), T::Conjunction(..)) | (T::Composition(..), T::Composition(..)) => {
            let conj = matches!(a, T::Conjunction(..));
            let (mut x, mut y) = (vec![], vec![]);
            flat(a, conj, &mut x);
            flat(b, conj, &mut y);
            all(&x, &y)
        }
        (T::Quotient(l, r), T::Quotient(m, s)) => {
            let (l, r, m, s): (Vec<&T>, Vec<&T>, Vec<&T>, Vec<&T>) = (l.iter().collect(), r.iter().collect(), m.iter().collect(), s.iter().collect());
            and(all(&l, &m), all(&r, &s))
        }
        _ => false,
    }
}
/// a chain of operators nesting on one side, ending in names, idle or quotients of names
fn chain(len: usize) -> T {
    let left = split("left");
    let end = |k: usize| {
        let name = || T::Simple(chr("edge", b'a', b'z'));
        match choose("end", k) { 0 => name(), 1 => T::None, _ => T::Quotient(vec![name()], vec![name()]) }
    };
    let mut t = end(3);
    for _ in 1..len {
        let o = end(1);
        let (a, b) = if left { (t, o) } else { (o, t) };
        t = if split("operator") { T::Conjunction(Box::new(a), Box::new(b)) } else { T::Composition(Box::new(a), Box::new(b)) };
    }
    t
}
fn chains(n: usize) {
    let (a, b) = (chain(n), chain(n));
    let (p, q) = (format!("{}", a), format!("{}", b));
    reach("printed");
    check((p == q) == same(&a, &b), "the printed form tells steps apart");
}
/// names of more than one letter are printed whole
fn names() {
    let word = || { let n = 1 + choose("letters", 3); (0..n).map(|_| chr("letter", b'0', b'z')).collect::<String>() };
    let (a, b, c) = (word(), word(), word());
    let s = |x: &String| Box::new(T::Simple(x.clone()));
    reach("printed");
    check(format!("{}", s(&a)) == a, "a single edge is printed by its name");
    check(format!("{}", T::Conjunction(s(&a), Box::new(T::Conjunction(s(&b), s(&c))))) == format!("{}&&{}&&{}", a, b, c), "conjunctions print every edge");
    check(format!("{}", T::Composition(Box::new(T::Composition(s(&a), s(&b))), s(&c))) == format!("{}||{}||{}", a, b, c), "compositions print every edge");
}
fn distinct(da: usize, db: usize, full: bool) {
    let (a, b) = (any(da, full), any(db, full));
    let (p, q) = (format!("{}", a), format!("{}", b));
    reach("printed");
    check((p == q) == same(&a, &b), "the printed form tells steps apart");
}
harness! {
    h_c03_flat => distinct(1, 1, true);
    h_c03_nested => distinct(2, 2, false);
    h_c03_chain => chains(3);
    h_c03_names => names();
    h_c03_deep => distinct(2, 1, true);
}
