//! C22: every loaded component accepts every input at every time its invariant allows, once.
use crate::common::*;
use crate::vp::*;
use crate::DataReader::component_loader::ComponentLoader;
use crate::ModelObjects::Component;
use crate::TransitionSystems::transition_system::components_to_transition_system;

/// After loading, at a point of `at`'s invariant exactly one way to take the input exists, and
/// where the written component had none the added one changes nothing.
fn accepts(c: Component, at: &str, input: &str, px: i64, py: i64, written: bool) {
    let name = c.name.clone();
    let mut box_ = container(vec![c], false);
    let comp = box_.get_component(&name).clone();
    let ts = components_to_transition_system(vec![comp], &name);
    let here = ts.get_location(&crate::TransitionSystems::LocationID::Simple(at.to_string())).unwrap();
    let mut open = 0u64;
    let mut stays = true;
    for t in ts.next_transitions(&here, input) {
        let a = t.get_allowed_federation().holds_at(&[0, px, py], 2);
        open += a as u64;
        let added = t.id.to_string().starts_with("input_");
        let same = t.target_locations.id.to_string() == at && t.updates.is_empty();
        if added { stays = and(stays, and(same, or(!a, !written))); }
    }
    reach("accepts");
    check(open == 1, "an input is accepted exactly once at every time");
    check(stays, "an added input changes nothing and is only offered where none was");
}
fn single() {
    let (g, h, i, j, k) = (int("g", 0, 9), int("h", 0, 9), int("i", 0, 9), int("j", 0, 9), int("k", 0, 9));
    let (px, py) = (range("x*2", 0, 40), range("y*2", 0, 40));
    let d = |k: i32| 2 * k as i64;
    let (guard, gh) = match choose("guard", 4) {
        0 => (None, true),
        1 => (Some(and_(cmp("x", ">=", g), cmp("y", "<", h))), and(px >= d(g), py < d(h))),
        2 => (Some(or_(cmp("x", "<", g), cmp("y", ">=", h))), or(px < d(g), py >= d(h))),
        _ => (Some(and_(cmp("x", ">=", g), cmp("x", "<=", h))), and(px >= d(g), px <= d(h))),
    };
    let (ups, ax, ay) = match choose("updates", 5) {
        0 => (vec![], px, py),
        1 => (vec![set("x", k)], d(k), py),
        2 => (vec![set("y", k)], px, d(k)),
        3 => (vec![set("x", 1), set("x", k)], d(k), py),
        _ => (vec![set("x", k), set("y", 0)], d(k), 0),
    };
    let (target, th) = match choose("target", 2) { 0 => (None, true), _ => (Some(and_(cmp("x", "<=", j), cmp("y", "<=", 9))), and(ax <= d(j), ay <= 18)) };
    let (inv, ih) = match choose("here", 2) { 0 => (None, true), _ => (Some(cmp("x", "<=", i)), px <= d(i)) };
    assume(ih);
    let c = comp("C", &["x", "y"], vec![loc("L", inv), loc("M", target)], vec![edge("E0", "L", "M", "a?", guard, ups)]);
    accepts(c, "L", "a", px, py, and(gh, th));
}
/// two written edges for the input, a second input without any edge, and a location without edges
fn double() {
    let (g, i) = (int("g", 0, 9), int("i", 0, 9));
    let (px, py) = (range("x*2", 0, 40), range("y*2", 0, 40));
    let d = |k: i32| 2 * k as i64;
    let gap = split("gap");
    let inv = if split("invariant") { assume(px <= d(i)); Some(cmp("x", "<=", i)) } else { None };
    let c = comp("C", &["x", "y"], vec![loc("L", inv.clone()), loc("M", inv)], vec![
        edge("E0", "L", "M", "a?", Some(cmp("y", "<", g)), vec![]),
        edge("E1", "L", "L", "a?", Some(cmp("y", if gap { ">" } else { ">=" }, g)), vec![]),
        edge("E2", "M", "L", "b?", None, vec![]),
        edge("E3", "M", "L", "o!", Some(cmp("x", ">=", 2)), vec![]),
    ]);
    match choose("ask", 4) {
        0 => accepts(c, "L", "a", px, py, if gap { py != d(g) } else { true }),
        1 => accepts(c, "L", "b", px, py, false),
        2 => accepts(c, "M", "a", px, py, false),
        _ => accepts(c, "M", "b", px, py, true),
    }
}
harness! {
    h_c22_single => single();
    h_c22_double => double();
}
