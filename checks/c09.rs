//! C09: the valuations from which an edge may be taken are exactly those that satisfy its guard and,
//! after its updates, the target's invariant.
use crate::common::*;
use crate::vp::*;
use crate::TransitionSystems::transition_system::components_to_transition_system;

fn allowed(ups: &[(&'static str, i32)], form: usize) {
    let (g, h, i, j) = (int("g", 0, 9), int("h", 0, 9), int("i", 0, 9), int("j", 0, 9));
    let (px, py) = (range("x*2", 0, 40), range("y*2", 0, 40));
    let d2 = |k: i32| 2 * k as i64;
    let (guard, gholds) = match form {
        0 => (None, true),
        1 => (Some(and_(cmp("x", ">=", g), cmp("y", "<", h))), and(px >= d2(g), py < d2(h))),
        _ => (Some(or_(cmp("x", "<=", g), cmp("y", ">", h))), or(px <= d2(g), py > d2(h))),
    };
    let (mut ax, mut ay) = (px, py);
    for (c, k) in ups { if *c == "x" { ax = d2(*k) } else { ay = d2(*k) } }
    let (inv, iholds) = match choose("invariant", 3) {
        0 => (None, true),
        1 => (Some(and_(cmp("x", "<=", i), cmp("y", "<", j))), and(ax <= d2(i), ay < d2(j))),
        _ => (Some(rel(Box::new(crate::ModelObjects::Expressions::ArithExpression::Difference(v("x"), v("y"))), "<=", n(i))), ax - ay <= d2(i)),
    };
    let updates = ups.iter().map(|(c, k)| set(c, *k)).collect();
    let c = comp("C", &["x", "y"], vec![loc("L", None), loc("M", inv)], vec![edge("E", "L", "M", "a!", guard, updates)]);
    let ts = components_to_transition_system(vec![c], "C");
    let t = &ts.next_transitions(&ts.get_initial_location().unwrap(), "a")[0];
    let f = t.get_allowed_federation();
    reach("allowed");
    check(f.holds_at(&[0, px, py], 2) == and(gholds, iholds), "an edge may be taken exactly when guard and next invariant hold");
}
fn kinds(form: usize) {
    let (k, m) = (int("k", 0, 9), int("m", 0, 9));
    match choose("updates", 5) {
        0 => allowed(&[], form),
        1 => allowed(&[("x", k)], form),
        2 => allowed(&[("y", k)], form),
        3 => allowed(&[("x", k), ("y", m)], form),
        _ => allowed(&[("x", m), ("x", k)], form),
    }
}
harness! {
    h_c09_free => kinds(0);
    h_c09_and => kinds(1);
    h_c09_or => kinds(2);
}
