//! C02: a path of step identifiers splits into one path per component.
#[path = "ids.rs"]
mod ids;
use crate::vp::*;
use crate::TransitionSystems::TransitionID as T;
use ids::*;

fn equal(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y)
}
fn split_path(depth: usize, steps: usize, idle: bool) {
    split_system(shape(depth), steps, idle, 2)
}
fn split_system(s: Shape, steps: usize, idle: bool, most: usize) {
    let n = width(&s);
    let mut path = vec![];
    let mut want: Vec<Vec<Vec<T>>> = vec![vec![]; n];
    for _ in 0..steps {
        let mut g = vec![vec![]; n];
        path.push(ident_(&s, 0, &mut g, idle, most));
        for (k, ids) in g.into_iter().enumerate() {
            want[k].push(ids.into_iter().filter(|i| *i != T::None).collect());
        }
    }
    let got = T::split_into_component_lists(&path);
    let got = match got {
        Ok(g) => g,
        Err(_) => { check(false, "a path of one system is split"); return }
    };
    reach("split");
    observe(got.len() as u64);
    check(got.len() == n, "one path per component");
    for k in 0..n {
        check(got[k].len() == steps, "every component path has every step");
        for t in 0..steps {
            check(equal(&got[k][t], &want[k][t]), "each step holds the component's edges in order");
        }
    }
}
/// identifiers that differ in their number of components do not form a path
fn mismatch(steps: usize) {
    let mut path = vec![];
    let mut widths = vec![];
    for i in 0..steps {
        let s = if i == 0 { shape(1) } else { small() };
        let mut g = vec![vec![]; width(&s)];
        path.push(ident_(&s, 0, &mut g, false, 1));
        widths.push(width(&s));
    }
    let r = T::split_into_component_lists(&path);
    reach("mismatch");
    check(r.is_err() == widths.iter().any(|w| *w != widths[0]), "a path that mixes systems is rejected");
    check(T::split_into_component_lists(&vec![]) == Ok(vec![]), "an empty path has no components");
}
/// one to three components
fn small() -> Shape {
    let l = || Box::new(Shape::Leaf);
    match choose("shape", 5) {
        0 => Shape::Leaf,
        1 => Shape::Conj(l(), l()),
        2 => Shape::Comp(l(), l()),
        3 => Shape::Quot(l(), l()),
        _ => Shape::Conj(l(), Box::new(Shape::Conj(l(), l()))),
    }
}
harness! {
    h_c02_split => split_path(1, 2, true);
    h_c02_nested => split_path(2, 1, false);
    h_c02_mismatch => mismatch(2);
    h_c02_mismatch3 => mismatch(3);
    h_c02_skewed => split_system(skewed(3, split("left")), 2, false, 1);
    h_c02_steps => split_system(Shape::Conj(Box::new(Shape::Leaf), Box::new(Shape::Leaf)), 4, true, 1);
    h_c02_idle => split_system(skewed(4, split("left")), 1, true, 1);
    h_c02_long => split_path(1, 3, true);
    h_c02_deep => split_path(2, 2, false);
}
