//! C12: conjunction keeps exactly what both sides allow.
use crate::common::*;
use crate::vp::*;
use crate::ModelObjects::Component;
use crate::ModelObjects::Expressions::BoolExpression as B;

fn min(a: i32, b: i32) -> i32 { if a < b { a } else { b } }
fn max(a: i32, b: i32) -> i32 { if a < b { b } else { a } }
fn within(x: &str, a: i32, b: i32) -> B { and_(cmp(x, ">=", a), cmp(x, "<=", b)) }
fn yes(c: &[Component], q: &str) -> bool {
    let got = verdict(&ask(c, q));
    observe(got);
    check(got != 2, "the query is answered");
    got == 1
}
fn one(name: &str, a: i32, b: i32) -> Component {
    comp(name, &["x"], vec![loc("L", None)], vec![edge("E", "L", "L", "o!", Some(within("x", a, b)), vec![set("x", 0)])])
}
fn inv(name: &str, a: i32, b: i32, i: i32) -> Component {
    comp(name, &["x"], vec![loc("L", Some(cmp("x", "<=", i)))], vec![edge("E", "L", "L", "o!", Some(within("x", a, b)), vec![set("x", 0)])])
}
/// A && B <= T: exactly the common window must be allowed.
fn left() {
    let (a, b, c, d, e, f) = (int("a", 0, 9), int("b", 0, 9), int("c", 0, 9), int("d", 0, 9), int("e", 0, 9), int("f", 0, 9));
    let got = yes(&[one("A", a, b), one("B", c, d), one("T", e, f)], if split("order") { "refinement: A && B <= T" } else { "refinement: B && A <= T" });
    reach("left");
    let (lo, hi) = (max(a, c), min(b, d));
    check(got == or(lo > hi, and(e <= lo, hi <= f)), "a conjunction shows what both sides allow");
}
/// S <= A && B: both must allow it.
fn right() {
    let (a, b, c, d, e, f) = (int("a", 0, 9), int("b", 0, 9), int("c", 0, 9), int("d", 0, 9), int("e", 0, 9), int("f", 0, 9));
    let got = yes(&[one("S", e, f), one("A", a, b), one("B", c, d)], "refinement: S <= A && B");
    reach("right");
    check(got == or(e > f, and(and(a <= e, f <= b), and(c <= e, f <= d))), "what refines a conjunction refines both sides");
}
/// Three parts, in both groupings.
fn three() {
    let (a, b, c, e) = (int("a", 0, 9), int("b", 0, 9), int("c", 0, 9), int("e", 0, 9));
    let q = ["refinement: S <= A && B && C", "refinement: S <= A && (B && C)", "refinement: A && B && C <= S", "refinement: A && (B && C) <= S"][choose("form", 4)];
    let got = yes(&[one("S", 0, e), one("A", 0, a), one("B", 0, b), one("C", 0, c)], q);
    reach("three");
    let m = min(a, min(b, c));
    check(got == if q.starts_with("refinement: S") { e <= m } else { m <= e }, "three parts in any grouping");
}
/// Invariants of both sides count; a side that must act but may not makes the system inconsistent.
fn invariants() {
    let (a, b, i, j, c) = (int("a", 0, 9), int("b", 0, 9), int("i", 0, 9), int("j", 0, 9), int("c", 0, 9));
    let (l, r) = (inv("A", a, 9, i), inv("B", c, b, j));
    let got = verdict(&ask(&[l, r], "consistency: A && B"));
    observe(got);
    reach("invariants");
    let m = min(i, j);
    let both = and(max(a, c) <= m, max(a, c) <= b);
    // each side on its own
    let alone = and(a <= i, and(c <= b, c <= j));
    assume(alone);
    check((got == 1) == both, "a conjunction is consistent when both sides can go on together");
}
/// Both sides move together; afterwards both targets count.
fn together() {
    let (g, h, a, b, m) = (int("g", 0, 9), int("h", 0, 9), int("a", 0, 9), int("b", 0, 9), int("m", 0, 20));
    let mk = |name: &str, g: i32, a: B, s: &str| comp(name, &["x"], vec![loc("L0", None), loc("L1", None), loc("L2", None)], vec![
        edge("E0", "L0", "L1", s, Some(cmp("x", ">=", g)), vec![set("x", 0)]), edge("E1", "L1", "L2", "p!", Some(a), vec![])]);
    let input = split("input");
    let s = if input { "i?" } else { "i!" };
    let c = [mk("A", g, cmp("x", ">=", a), s), mk("B", h, cmp("x", "<=", b), s)];
    let mut q = crate::DataReader::parse_queries::parse_to_expression_tree("reachability: A && B @ init -> A.L2 && B.L2").unwrap();
    put_numbers(&mut q[0], m);
    let got = verdict(&ask_query(&c, q.remove(0)));
    observe(got);
    reach("together");
    // outputs: both step at once. Inputs: a side that is not ready accepts and ignores, so A may step before B is
    // ready and wait until B follows.
    let want = if input { or(a <= b, g < h) } else { a <= b };
    check((got == 1) == want, "both sides move together");
}
/// Actions that only one side has are not part of the conjunction.
fn actions() {
    let (a, b) = (int("a", 0, 9), int("b", 0, 9));
    let mk = |name: &str, own: &str, a: i32| comp(name, &["x"], vec![loc("L0", None), loc("L1", None)], vec![
        edge("E0", "L0", "L0", "o!", Some(cmp("x", "<=", a)), vec![]), edge("E1", "L0", "L1", own, None, vec![])]);
    let form = choose("own", 4);
    let (l, r) = [("p!", "q!"), ("p?", "q?"), ("p!", "q?"), ("p?", "p!")][form];
    let c = [mk("A", l, a), mk("B", r, b)];
    let got = verdict(&ask(&c, "reachability: A && B @ init -> A.L1"));
    observe(got);
    reach("actions");
    check(got == if form == 3 { 2 } else { 0 }, "an action of one side alone is not offered, a clash of input and output is refused");
}
harness! {
    h_c12_left => left();
    h_c12_right => right();
    h_c12_three => three();
    h_c12_invariants => invariants();
    h_c12_together => together();
    h_c12_actions => actions();
}
