//! C19: a saved system is interchangeable with the system it was saved from.
use crate::common::*;
use crate::vp::*;
use crate::ModelObjects::Component;
use crate::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B};
use crate::System::query_failures::QueryResult;

fn within(x: &str, y: &str, a: i32, b: i32) -> B { and_(cmp(x, ">=", a), cmp(y, "<=", b)) }
fn diff(x: &str, y: &str) -> Box<A> { Box::new(A::Difference(v(x), v(y))) }
fn save(c: &[Component], system: &str, reduce: bool) -> Component {
    match ask_with(c, &format!("get-component: {} save-as Saved", system), reduce) {
        Ok(QueryResult::GetComponent(s)) => {
            check(s.name == "Saved", "the saved component has the given name");
            let initial = s.locations.iter().filter(|l| l.location_type == crate::ModelObjects::LocationType::Initial).count();
            check(initial == 1, "the saved component has one initial location");
            let ids: Vec<&String> = s.locations.iter().map(|l| &l.id).collect();
            check(ids.iter().enumerate().all(|(i, id)| !ids[..i].contains(id)), "its locations have different names");
            check(s.edges.iter().all(|e| ids.contains(&&e.source_location) && ids.contains(&&e.target_location)), "its edges join its locations");
            s
        }
        _ => { check(false, "the system is saved"); unreachable!() }
    }
}
/// The saved system and the original refine each other.
fn same(mut c: Vec<Component>, system: &str, reduce: bool, name: &'static str) {
    let s = save(&c, system, reduce);
    c.push(s);
    let there = verdict(&ask(&c, &format!("refinement: Saved <= {}", system)));
    let back = verdict(&ask(&c, &format!("refinement: {} <= Saved", system)));
    observe(there + 3 * back);
    reach(name);
    check(there == 1, "the saved system refines the original");
    check(back == 1, "the original refines the saved system");
}
/// Guards, assignments and invariants of one component survive.
fn single(form: usize) {
    let (a, b) = (int("a", 0, 6), int("b", 0, 6));
    let (guard, ups, inv) = match form {
        0 => (Some(within("x", "y", a, b)), vec![], cmp("x", "<=", 5)),
        1 => (Some(or_(cmp("x", "<", a), cmp("x", ">=", b))), vec![set("x", 0)], cmp("x", "<", 4)),
        2 => (Some(rel(diff("x", "y"), "<=", n(a))), vec![], or_(cmp("x", "<=", b), cmp("y", ">", 6))),
        3 => (Some(and_(rel(diff("y", "x"), "<", n(a - 8)), cmp("x", ">", b))), vec![set("x", 3)], cmp("y", "<=", 8)),
        4 => (Some(rel(v("x"), "==", n(a))), vec![set("x", b), set("x", 2)], cmp("x", "<=", 4)),
        _ => (None, vec![set("x", a)], cmp("x", "<=", b)),
    };
    if form == 5 { assume(b >= 1); }
    let c = comp("C", &["x", "y"], vec![loc("L0", None), loc("L1", Some(inv)), loc("L2", None)], vec![
        edge("E0", "L0", "L1", "m?", guard, ups),
        edge("E1", "L1", "L2", "o!", None, vec![]),
        edge("E2", "L0", "L0", "p!", Some(cmp("y", ">=", 5)), if form == 2 || form == 3 { vec![set("y", 0)] } else { vec![set("x", 0), set("y", 0)] })]);
    same(vec![c], "C", split("reduce"), "single");
}
/// Clocks of different parts never get mixed up, whatever their names.
fn names() {
    let (a, c, d) = (int("a", 0, 5), int("c", 0, 6), int("d", 0, 6));
    let (l, r): (&[&str], &[&str]) = match choose("names", 5) {
        0 => (&["x", "y"], &["x", "y"]),
        1 => (&["x", "x1"], &["x", "y"]),
        2 => (&["x1", "x"], &["x", "x1"]),
        3 => (&["x", "x11"], &["x1", "x"]),
        _ => (&["y", "x"], &["z", "y"]),
    };
    let p = comp("A", l, vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "o!", Some(and_(cmp(l[0], ">=", a), cmp(l[1], "<=", 5))), vec![set(l[0], 1)])]);
    let q = comp("B", r, vec![loc("K0", None), loc("K1", None), loc("K2", None)], vec![edge("F0", "K0", "K1", "o?", None, vec![set(r[0], 0)]), edge("F1", "K1", "K2", "p!", Some(and_(cmp(r[0], "<=", c), cmp(r[1], "<", 9))), vec![])]);
    let t = comp("T", &["x"], vec![loc("J0", None), loc("J1", None), loc("J2", None)], vec![edge("G0", "J0", "J1", "o!", Some(cmp("x", "<=", 5)), vec![set("x", 0)]), edge("G1", "J1", "J2", "p!", Some(cmp("x", "<=", d)), vec![])]);
    let reduce = split("reduce");
    let s = save(&[p.clone(), q.clone()], "A || B", reduce);
    if !reduce {
        check(s.declarations.clocks.len() == 4, "every clock is declared");
        let mut at: Vec<usize> = s.declarations.clocks.values().copied().collect();
        at.sort();
        check(at == [1, 2, 3, 4], "the clocks are numbered");
    }
    let cs = [p, q, t, s];
    let one = verdict(&ask(&cs, "refinement: A || B <= T"));
    let two = verdict(&ask(&cs, "refinement: Saved <= T"));
    observe(one);
    reach("names");
    // r[1] is the time since the start, at least a when o comes
    let hi = if c < 9 - a { c } else { 9 - a };
    check(one == or(hi <= d, and(9 - a <= c, 9 - a <= d)) as u64, "p in time");
    check(one == two, "the saved system gets the verdict of the original");
}
/// Combined systems of three parts.
fn three() {
    let (a, b, c) = (int("a", 0, 6), int("b", 0, 6), 3);
    let p = comp("A", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "o!", Some(cmp("x", "<=", a)), vec![set("x", 0)])]);
    let q = comp("B", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "o?", Some(cmp("x", ">=", b)), vec![]), edge("E1", "L1", "L0", "p!", None, vec![set("x", 0)])]);
    let r = comp("D", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "p?", Some(cmp("x", ">", c)), vec![set("x", 0)]), edge("E1", "L1", "L1", "o?", None, vec![])]);
    let sys = ["(A || B) || D", "A || (B || D)", "(A && A) || (B || D)", "(A || B) && (A || B)"][choose("system", 4)];
    same(vec![p, q, r], sys, split("reduce"), "three");
}
/// Conjunctions and their invariants.
fn conjunction() {
    let (a, b, c, i) = (int("a", 0, 9), int("b", 0, 9), int("c", 0, 9), int("i", 0, 9));
    assume(i >= b);
    let l = comp("A", &["x"], vec![loc("L0", Some(cmp("x", "<=", i))), loc("L1", None)], vec![edge("E0", "L0", "L1", "o!", Some(cmp("x", ">=", a)), vec![set("x", 0)]), edge("E2", "L0", "L1", "p!", None, vec![])]);
    let r = comp("B", &["x"], vec![loc("L0", None), loc("L1", Some(cmp("x", "<", c)))], vec![edge("E0", "L0", "L0", "o!", Some(cmp("x", "<=", b)), vec![]), edge("E1", "L0", "L0", "p!", None, vec![])]);
    same(vec![l, r], if split("turned") { "B && A" } else { "A && B" }, split("reduce"), "conjunction");
}
/// Quotients, with their own clock and their own locations.
fn quotient() {
    let (a, b, c, d, e) = (1, 5, int("c", 0, 6), 4, int("e", 0, 6));
    // the known part only sends what the specification allows: no error to run into
    assume(and(c <= d, and(a <= c, d <= b)));
    let t = comp("T", &["x"], vec![loc("J0", None), loc("J1", None), loc("J2", None)], vec![
        edge("G0", "J0", "J1", "m!", Some(within("x", "x", a, b)), vec![set("x", 0)]), edge("G1", "J1", "J2", "o!", Some(cmp("x", "<=", 4)), vec![])]);
    let s = comp("S", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "m!", Some(within("x", "x", c, d)), vec![])]);
    let x = comp("X", &["x"], vec![loc("K0", None), loc("K1", None), loc("K2", None)], vec![edge("F0", "K0", "K1", "m?", None, vec![set("x", 0)]), edge("F1", "K1", "K2", "o!", Some(cmp("x", "<=", e)), vec![])]);
    let saved = save(&[t.clone(), s.clone()], "T // S", split("reduce"));
    let cs = [t, s, x, saved];
    let one = verdict(&ask(&cs, "refinement: X <= T // S"));
    let two = verdict(&ask(&cs, "refinement: X <= Saved"));
    observe(one + 3 * two);
    reach("quotient");
    check(verdict(&ask(&cs, "refinement: Saved <= T // S")) == 1, "the saved quotient refines the original");
    check(one == (e <= 4) as u64, "an answer in time is right");
    check(one == two, "the saved quotient gets the verdict of the original");
}
/// A saved system can take the original's place in other queries.
fn stands_in() {
    let (a, b, c, d) = (int("a", 0, 9), int("b", 0, 9), int("c", 0, 9), int("d", 0, 9));
    let strict = split("strict");
    assume(a <= b); // an action that can never happen is not part of a saved system
    let p = comp("A", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "o!", Some(within("x", "x", a, b)), vec![])]);
    let q = comp("B", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "o?", None, vec![set("x", 0)]), edge("E1", "L1", "L0", "p!", Some(cmp("x", "<=", c)), vec![])]);
    let t = comp("T", &["y"], vec![loc("K0", None), loc("K1", None), loc("K2", None)], vec![edge("F0", "K0", "K1", "o!", Some(cmp("y", "<=", d)), vec![set("y", 0)]), edge("F1", "K1", "K2", "p!", Some(cmp("y", if strict { "<" } else { "<=" }, c)), vec![])]);
    let saved = save(&[p.clone(), q.clone()], "A || B", split("reduce"));
    let cs = [p, q, t, saved];
    let one = verdict(&ask(&cs, "refinement: A || B <= T"));
    let two = verdict(&ask(&cs, "refinement: Saved <= T"));
    observe(one);
    reach("stands_in");
    check(one == two, "the saved system gets the verdict of the original");
    check(one == and(b <= d, !strict) as u64, "o in time, and p at its last moment");
}
/// Clocks that are always equal are saved as one, and the saved system can be used again.
fn merged() {
    let (a, d) = (choose("a", 3) as i32 * 2, int("d", 2, 6));
    let k = choose("k", 2) as i32;
    let company = split("company");
    let p = comp("A", &["x", "y"], vec![loc("L0", None), loc("L1", None)], vec![
        edge("E0", "L0", "L1", "o!", Some(within("x", "y", a, 5)), vec![set("x", k), set("y", k)]), edge("E1", "L1", "L1", "q!", Some(and_(cmp("x", ">=", 2), cmp("y", "<=", d))), vec![])]);
    let q = comp("B", &["x"], vec![loc("K0", None), loc("K1", None)], vec![edge("F0", "K0", "K1", "o?", None, vec![]), edge("F1", "K1", "K0", "p!", Some(cmp("x", ">=", 3)), vec![])]);
    let r = comp("R", &["r"], vec![loc("M0", None), loc("M1", None)], vec![edge("G0", "M0", "M1", "s!", Some(cmp("r", "<=", 3)), vec![])]);
    let sys = ["A", "A || B"][if company { 0 } else { choose("system", 2) }];
    let s = save(&[p.clone(), q.clone()], sys, true);
    let mut at: Vec<usize> = s.declarations.clocks.values().copied().collect();
    at.sort();
    check(at.iter().enumerate().all(|(i, k)| *k == i + 1), "the clocks are numbered");
    let cs = [p, q, r, s];
    reach("merged");
    check(verdict(&ask_with(&cs, "consistency: Saved", true)) == verdict(&ask_with(&cs, &format!("consistency: {}", sys), true)), "the saved system is as consistent as the original");
    let there = verdict(&ask_with(&cs, &if company { "refinement: Saved || R <= A || R".to_string() } else { format!("refinement: Saved <= {}", sys) }, true));
    let back = verdict(&ask_with(&cs, &if company { "refinement: R || A <= R || Saved".to_string() } else { format!("refinement: {} <= Saved", sys) }, true));
    observe(there + 3 * back);
    check(there == 1 && back == 1, "the saved system and the original refine each other");
}
/// Several edges for one action between the same places.
fn branches() {
    let (a, b, c) = (int("a", 0, 9), int("b", 0, 9), int("c", 0, 9));
    assume(a < b);
    let p = comp("A", &["x"], vec![loc("L0", None), loc("L1", None), loc("L2", None)], vec![
        edge("E0", "L0", "L1", "o!", Some(cmp("x", "<=", a)), vec![set("x", 0)]), edge("E1", "L0", "L1", "o!", Some(within("x", "x", b, 9)), vec![]),
        edge("E2", "L1", "L2", "p!", Some(cmp("x", "<=", c)), vec![]), edge("E3", "L2", "L2", "p!", Some(cmp("x", ">", 9)), vec![])]);
    let q = comp("B", &["z"], vec![loc("K0", None)], vec![edge("F0", "K0", "K0", "o?", Some(cmp("z", ">", b)), vec![]), edge("F1", "K0", "K0", "o?", Some(cmp("z", "<=", b)), vec![set("z", 0)])]);
    let sys = ["A", "A || B", "B || A"][choose("system", 3)];
    same(vec![p, q], sys, split("reduce"), "branches");
}
harness! {
    h_c19_single_0 => single(0);
    h_c19_single_1 => single(1);
    h_c19_single_2 => single(2);
    h_c19_single_3 => single(3);
    h_c19_single_4 => single(4);
    h_c19_single_5 => single(5);
    h_c19_names => names();
    h_c19_three => three();
    h_c19_conjunction => conjunction();
    h_c19_quotient => quotient();
    h_c19_stands_in => stands_in();
    h_c19_merged => merged();
    h_c19_branches => branches();
}
