//! C01: step identifiers list every component's edges, in component order.
#[path = "ids.rs"]
mod ids;
use crate::vp::*;
use crate::TransitionSystems::TransitionID as T;
use ids::*;

fn same(a: &Vec<Vec<T>>, b: &Vec<Vec<T>>) -> bool {
    if a.len() != b.len() {
        return false;
    }
    a.iter().zip(b).all(|(x, y)| x == y)
}
fn leaves(depth: usize, idle: bool) {
    list(shape(depth), idle, 2)
}
fn list(s: Shape, idle: bool, most: usize) {
    let mut want = vec![vec![]; width(&s)];
    let id = ident_(&s, 0, &mut want, idle, most);
    let got = id.get_leaves();
    observe(got.len() as u64);
    reach("leaves");
    check(got.len() == want.len(), "one group per component");
    check(same(&got, &want), "each group holds its component's edges in order");
}
harness! {
    h_c01_idle => leaves(1, true);
    h_c01_leaves => leaves(2, false);
    h_c01_left => list(skewed(4, true), true, 1);
    h_c01_right => list(skewed(4, false), true, 1);
    h_c01_many => list(Shape::Quot(Box::new(Shape::Leaf), Box::new(Shape::Leaf)), true, 4);
    h_c01_side => list(Shape::Quot(Box::new(shape(1)), Box::new(shape(1))), false, 2);
    h_c01_long => list(skewed(6, split("left")), false, 1);
    h_c01_deep => leaves(2, true);
}
