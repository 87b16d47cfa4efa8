//! C10: forgetting large clock values (extrapolation) never changes which states are reachable.
use crate::common::*;
use crate::vp::*;
use crate::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B};

/// `x >= bound` (or `>`) written in one of several ways; returns the formula and the bound.
fn lower(form: usize, x: &str, k: i32, j: i32, strict: bool) -> (B, i32) {
    let (ge, le) = if strict { (">", "<") } else { (">=", "<=") };
    match form {
        0 => (cmp(x, ge, k), k),
        1 => (rel(n(k), le, v(x)), k),
        2 => (rel(v(x), ge, Box::new(A::Addition(n(k), n(j)))), k + j),
        3 => (rel(Box::new(A::Difference(v(x), n(j))), ge, n(k)), k + j),
        4 => (rel(Box::new(A::Addition(n(j), n(k))), le, v(x)), k + j),
        _ => (rel(n(k), le, Box::new(A::Difference(v(x), n(j)))), k + j),
    }
}
fn upper(form: usize, x: &str, k: i32, j: i32) -> (B, i32) {
    match form {
        0 => (cmp(x, "<=", k), k),
        1 => (rel(Box::new(A::Addition(v(x), n(j))), "<=", n(k + j)), k),
        _ => (rel(n(k), ">=", v(x)), k),
    }
}
fn ends() -> Vec<crate::ModelObjects::Location> { vec![loc("L0", None), loc("L1", None), loc("L2", None), loc("L3", None)] }
/// L0 -[x >= k]-> L1 -[x <= m]-> L2
fn chain() {
    let (k, j, m) = (int("k", 0, 9), int("j", 0, 9), int("m", 0, 18));
    let strict = split("strict");
    let (g1, lo) = lower(choose("lower", 6), "x", k, j, strict);
    let (g2, hi) = upper(choose("upper", 3), "x", m, j);
    let c = comp("C", &["x", "y"], ends(), vec![edge("E0", "L0", "L1", "a!", Some(g1), vec![set("y", 0)]), edge("E1", "L1", "L2", "b!", Some(g2), vec![])]);
    let got = verdict(&ask(&[c], "reachability: C @ init -> C.L2"));
    reach("chain");
    observe(got);
    check((got == 1) == if strict { lo < hi } else { lo <= hi }, "a later upper bound still sees an earlier lower bound");
}
/// constants inside disjunctions of conjunctions count as well
fn groups() {
    let (k, m) = (int("k", 0, 9), int("m", 0, 12));
    let in_time = and_(cmp("x", "<=", m), cmp("y", ">=", 0));
    let never = and_(cmp("x", "<", 1), cmp("y", ">", 1));
    let g = match choose("form", 5) {
        0 => or_(in_time, never),
        1 => or_(never, in_time),
        2 => and_(or_(never, cmp("x", "<=", m)), cmp("y", ">=", 0)),
        3 => and_(cmp("y", ">=", 0), or_(cmp("x", "<=", m), never)),
        _ => or_(or_(never.clone(), never), or_(and_(cmp("y", ">=", 0), cmp("x", "<=", m)), B::Bool(false))),
    };
    let (inv, late) = (split("invariant"), split("late"));
    let mut l = ends();
    if inv { l[1].invariant = Some(g.clone()); }
    let c = comp("C", &["x", "y"], l, vec![edge("E0", "L0", "L1", "a!", if late { Some(cmp("x", ">=", k)) } else { None }, if late { vec![set("y", 0)] } else { vec![set("x", k), set("y", 0)] }), edge("E1", "L1", "L2", "b!", if inv { None } else { Some(g) }, vec![])]);
    let got = verdict(&ask(&[c], "reachability: C @ init -> C.L2"));
    reach("groups");
    observe(got);
    check((got == 1) == (k <= m), "a later upper bound still sees an earlier lower bound");
}
/// L0 -{y:=0}-> L1 -[x - y >= k]-> L2 -[x - y <= m]-> L3
fn differences() {
    let (k, m) = (int("k", 0, 9), int("m", 0, 9));
    let d = || Box::new(A::Difference(v("x"), v("y")));
    let c = comp("C", &["x", "y"], ends(), vec![edge("E0", "L0", "L1", "a!", None, vec![set("y", 0)]),
        edge("E1", "L1", "L2", "b!", Some(rel(d(), ">=", n(k))), vec![]), edge("E2", "L2", "L3", "c!", Some(rel(d(), "<=", n(m))), vec![])]);
    let got = verdict(&ask(&[c], "reachability: C @ init -> C.L3"));
    reach("difference");
    observe(got);
    check((got == 1) == (k <= m), "clock differences stay apart");
}
/// the query's own constants count as well
fn target() {
    let (k, m) = (int("k", 0, 9), int("m", 0, 9));
    let ge = split("at least");
    let c = comp("C", &["x", "y"], ends(), vec![edge("E0", "L0", "L1", "a!", Some(cmp("x", "<=", k)), vec![set("y", 0)])]);
    let mut q = crate::DataReader::parse_queries::parse_to_expression_tree(if ge { "reachability: C @ init -> C.L1 && C.x - C.y >= 7" } else { "reachability: C @ init -> C.L1 && C.x - C.y <= 7 && C.x >= 7" }).unwrap();
    put_numbers(&mut q[0], m);
    let got = verdict(&ask_query(&[c], q.remove(0)));
    reach("target");
    observe(got);
    check((got == 1) == (if ge { m <= k } else { true }), "the constants of the target are kept");
}
/// loops until the counter clock passes the bound; any number of rounds
fn rounds() {
    let (p, m) = (int("p", 1, 3), int("m", 0, 6));
    let c = comp("C", &["x", "y"], ends(), vec![
        edge("E0", "L0", "L0", "a!", Some(rel(v("x"), "==", n(p))), vec![set("x", 0)]),
        edge("E1", "L0", "L1", "b!", Some(and_(cmp("x", "<=", 0), cmp("y", "==", m))), vec![])]);
    let got = verdict(&ask(&[c], "reachability: C @ init -> C.L1"));
    reach("rounds");
    observe(got);
    let mult = or(m == 0, or(m == p, or(m == 2 * p, or(m == 3 * p, or(m == 4 * p, or(m == 5 * p, m == 6 * p))))));
    check((got == 1) == mult, "a clock can be compared after any number of rounds");
}
/// every part of a combined system keeps the constants of its own clocks
fn combined() {
    let (k, m, k2, m2) = (int("k", 0, 9), int("m", 0, 9), int("k2", 0, 9), int("m2", 0, 9));
    let mk = |name: &str, a: &str, b: &str, k: i32, m: i32| comp(name, &["x"], ends(), vec![
        edge("E0", "L0", "L1", a, Some(cmp("x", ">=", k)), vec![]), edge("E1", "L1", "L2", b, Some(cmp("x", "<=", m)), vec![])]);
    let (a, b) = (mk("A", "a!", "b!", k, m), mk("B", "c!", "d!", k2, m2));
    let got = verdict(&ask(&[a, b], if split("order") { "reachability: A || B @ init -> A.L2 && B.L2" } else { "reachability: B || A @ init -> A.L2 && B.L2" }));
    reach("combined");
    observe(got);
    check((got == 1) == and(k <= m, k2 <= m2), "parts of a combined system keep their constants");
}
/// both parts' constants are kept while they move together, also where nothing bounds the time spent
fn sides() {
    let (p, k) = (int("p", 0, 9), int("k", 0, 9));
    let least = split("at least");
    let shape = choose("shape", 6);
    let a = comp("A", &["x"], vec![loc("L0", if least { Some(cmp("x", "<=", p)) } else { None }), loc("L1", None), loc("L2", None)], vec![
        edge("E0", "L0", "L1", "m!", if least { None } else { Some(cmp("x", ">=", p)) }, vec![set("x", 0)]), edge("E1", "L1", "L2", "n!", Some(cmp("x", "<=", 0)), vec![])]);
    let (s, t) = if shape < 2 || shape == 4 { ("m!", "n!") } else { ("m?", "n?") };
    let b = comp("B", &["u"], vec![loc("M0", None), loc("M1", None), loc("M2", None)], vec![
        edge("F0", "M0", "M1", s, None, vec![]), edge("F1", "M1", "M2", t, Some(cmp("u", if least { ">=" } else { "<=" }, k)), vec![])]);
    let d = comp("D", &["z"], vec![loc("K0", None)], vec![edge("G0", "K0", "K0", "r!", Some(cmp("z", ">=", 2)), vec![set("z", 0)])]);
    let q = ["A && B", "B && A", "A || B", "B || A", "D || (A && B)", "B || D || A"][shape];
    let got = verdict(&ask(&[a, b, d], &format!("reachability: {} @ init -> A.L2 && B.M2", q)));
    reach("sides");
    observe(got);
    check((got == 1) == if least { k <= p } else { p <= k }, "every part keeps its constants");
}
harness! {
    h_c10_groups => groups();
    h_c10_combined => combined();
    h_c10_chain => chain();
    h_c10_differences => differences();
    h_c10_target => target();
    h_c10_rounds => rounds();
    h_c10_sides => sides();
}
