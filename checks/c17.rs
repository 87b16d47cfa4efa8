//! C17: determinism verdicts.
use crate::common::*;
use crate::vp::*;
use crate::ModelObjects::Component;
use crate::ModelObjects::Expressions::BoolExpression as B;

fn min(a: i32, b: i32) -> i32 { if a < b { a } else { b } }
fn max(a: i32, b: i32) -> i32 { if a < b { b } else { a } }
fn deterministic(c: &[Component], q: &str) -> bool {
    let got = verdict(&ask(c, q));
    observe(got);
    check(got != 2, "the query is answered");
    got == 1
}
fn window(x: &str, a: i32, sa: bool, b: i32, sb: bool) -> B {
    and_(cmp(x, if sa { ">" } else { ">=" }, a), cmp(x, if sb { "<" } else { "<=" }, b))
}
/// Two edges of one action in one location: their windows, and the invariant, decide.
fn pair() {
    let (a, b, c, d, i) = (int("a", 0, 9), int("b", 0, 9), int("c", 0, 9), int("d", 0, 9), int("i", 0, 9));
    let (sa, sb, sc, sd) = (split("sa"), split("sb"), split("sc"), split("sd"));
    let input = split("input");
    let s = if input { "a?" } else { "a!" };
    let comp = comp("C", &["x"], vec![loc("L0", Some(cmp("x", "<=", i))), loc("L1", None)], vec![
        edge("E0", "L0", "L1", s, Some(window("x", a, sa, b, sb)), vec![]), edge("E1", "L0", "L0", s, Some(window("x", c, sc, d, sd)), vec![set("x", 0)])]);
    let got = deterministic(&[comp], "determinism: C");
    reach("pair");
    // some x with both guards and the invariant
    let mut x = Between::default();
    x.low(a as i64, sa).high(b as i64, sb).low(c as i64, sc).high(d as i64, sd).le(i as i64).ge(0);
    check(got == !x.exists(), "two edges for one action never open at one time");
}
/// The target's invariant keeps an edge from being taken.
fn targets() {
    let (a, b, i, j, k) = (int("a", 0, 9), int("b", 0, 9), int("i", 0, 9), int("j", 0, 9), int("k", 0, 9));
    let reset = split("reset");
    let comp = comp("C", &["x"], vec![loc("L0", None), loc("L1", Some(cmp("x", "<=", i))), loc("L2", Some(cmp("x", ">=", j)))], vec![
        edge("E0", "L0", "L1", "o!", Some(cmp("x", ">=", a)), if reset { vec![set("x", k)] } else { vec![] }), edge("E1", "L0", "L2", "o!", Some(cmp("x", "<=", b)), vec![])]);
    let got = deterministic(&[comp], "determinism: C");
    reach("targets");
    let mut x = Between::default();
    x.ge(a as i64).le(b as i64).ge(j as i64);
    if !reset { x.le(i as i64); }
    check(got == !and(x.exists(), if reset { k <= i } else { true }), "an edge whose target does not allow it is not open");
}
/// Two clocks and disjunctions.
fn clocks() {
    let (a, b, c, d) = (int("a", 0, 9), int("b", 0, 9), int("c", 0, 9), int("d", 0, 9));
    let form = choose("form", 3);
    let (g1, g2) = match form {
        0 => (cmp("x", "<=", a), cmp("y", ">=", b)),
        1 => (or_(cmp("x", "<", a), cmp("y", "<", b)), and_(cmp("x", ">=", c), cmp("y", ">=", d))),
        _ => (rel(Box::new(crate::ModelObjects::Expressions::ArithExpression::Difference(v("x"), v("y"))), ">=", n(a)), rel(Box::new(crate::ModelObjects::Expressions::ArithExpression::Difference(v("y"), v("x"))), ">=", n(-b))),
    };
    let comp = comp("C", &["x", "y"], vec![loc("L0", None), loc("L1", None)], vec![
        edge("E0", "L0", "L1", "o!", Some(g1), vec![set("x", 0)]), edge("E1", "L0", "L0", "o!", Some(g2), vec![set("y", 0)])]);
    let got = deterministic(&[comp], "determinism: C");
    reach("clocks");
    let want = match form {
        0 => false, // x small and y large always meet
        1 => !or(c < a, d < b),
        _ => a > b, // x - y >= a and x - y <= b
    };
    check(got == want, "edges that differ in clocks");
}
/// The clash is in a location further on; it counts when both edges can be taken there.
fn further() {
    let (g, h, a, b, c) = (int("g", 0, 9), int("h", 0, 9), int("a", 0, 9), int("b", 0, 9), int("c", 0, 9));
    let input = split("input");
    let comp = comp("C", &["x"], vec![loc("L0", None), loc("L1", None), loc("L2", None)], vec![
        edge("E0", "L0", "L1", if input { "a?" } else { "p!" }, Some(and_(cmp("x", ">=", g), cmp("x", "<=", h))), vec![]),
        edge("E1", "L1", "L2", "o!", Some(cmp("x", "<=", a)), vec![]),
        edge("E2", "L1", "L0", "o!", Some(and_(cmp("x", ">=", b), cmp("x", "<=", c))), vec![])]);
    let got = deterministic(&[comp], "determinism: C");
    reach("further");
    // L1 is entered at some x in g..h and only left upwards
    check(got == !and(g <= h, max(g, b) <= min(a, c)), "every location that can be reached counts");
}
/// Three edges, and an action of its own for each.
fn three() {
    let (a, b, c) = (int("a", 0, 9), int("b", 0, 9), int("c", 0, 9));
    let other = split("other action");
    let comp = comp("C", &["x"], vec![loc("L0", None), loc("L1", None)], vec![
        edge("E0", "L0", "L1", "o!", Some(cmp("x", "<", a)), vec![]), edge("E1", "L0", "L1", "o!", Some(and_(cmp("x", ">=", a), cmp("x", "<=", b))), vec![]),
        edge("E2", "L0", "L1", if other { "p!" } else { "o!" }, Some(cmp("x", ">", c)), vec![])]);
    let got = deterministic(&[comp], "determinism: C");
    reach("three");
    // x > c meets x < a when some x lies between, and a..b when c < b
    let clash = or(c < a, and(a <= b, c < b));
    check(got == or(other, !clash), "only edges of one action clash");
}
/// A combined system is deterministic when its parts are.
fn combined() {
    let (a, b, c, d) = (int("a", 0, 9), int("b", 0, 9), int("c", 0, 9), int("d", 0, 9));
    let mk = |name: &str, o: &str, a: i32, b: i32| comp(name, &["x"], vec![loc("L0", None), loc("L1", None)], vec![
        edge("E0", "L0", "L1", o, Some(cmp("x", "<=", a)), vec![]), edge("E1", "L0", "L0", o, Some(cmp("x", ">=", b)), vec![])]);
    let form = choose("operator", 5);
    let free = comp("C", &["z"], vec![loc("M", None)], vec![edge("F", "M", "M", "r!", None, vec![])]);
    let r = verdict(&ask(&[mk("A", "o!", a, b), mk("B", if form == 1 || form == 3 { "o!" } else { "p!" }, c, d), free], ["determinism: A || B", "determinism: A && B", "determinism: C || (B || A)", "determinism: A // B", "determinism: C // (A || B)"][form]));
    observe(r);
    // a quotient of a part that is not deterministic is refused
    check(r != 2 || form >= 3, "the query is answered");
    let got = r == 1;
    reach("combined");
    let (l, r) = (a < b, c < d);
    check(got == and(l, r), "every part counts");
}
/// Three windows for one action: any two that meet clash, in whatever order the edges stand.
fn windows() {
    let k: Vec<i32> = ["a", "b", "c", "d", "e", "f"].iter().map(|k| int(k, 0, 9)).collect();
    let strict = choose("strict end", 4);
    let mut comp = comp("C", &["x"], vec![loc("L0", None), loc("L1", None)], vec![]);
    for w in 0..3 {
        comp.edges.push(edge(&format!("E{}", w), "L0", if w == 1 { "L0" } else { "L1" }, "o!", Some(window("x", k[2 * w], strict == 3, k[2 * w + 1], strict == w)), if w == 1 { vec![set("x", 0)] } else { vec![] }));
    }
    let got = deterministic(&[comp], "determinism: C");
    reach("windows");
    let meet = |v: usize, w: usize| {
        let mut x = Between::default();
        for w in [v, w] { x.low(k[2 * w] as i64, strict == 3).high(k[2 * w + 1] as i64, strict == w); }
        x.exists()
    };
    check(got == !or(meet(0, 1), or(meet(0, 2), meet(1, 2))), "any two edges for one action can clash");
}
/// A loop back into the same location opens clock values that no way in has.
fn again() {
    let (h, a, b, c, d) = (int("h", 0, 9), int("a", 1, 9), int("b", 1, 9), int("c", 1, 9), int("d", 1, 9));
    let g = choose("g", 3) as i32;
    let away = split("loop by way of another location");
    let diff = |lo: i32, hi: i32| {
        let d = || Box::new(crate::ModelObjects::Expressions::ArithExpression::Difference(v("x"), v("y")));
        and_(rel(d(), ">=", n(lo)), rel(d(), "<=", n(hi)))
    };
    let mut edges = vec![
        edge("E0", "L0", "L1", "p!", None, vec![set("x", 0)]),
        edge("E1", "L1", "L1", "s?", Some(window("x", g, false, h, false)), vec![set("y", 0)]),
        edge("E2", "L1", "L0", "o!", Some(diff(a, b)), vec![]), edge("E3", "L1", "L2", "o!", Some(diff(c, d)), vec![])];
    if away {
        edges[1].target_location = "L3".to_string();
        edges.push(edge("E4", "L3", "L1", "q!", None, vec![]));
    }
    let comp = comp("C", &["x", "y"], vec![loc("L0", None), loc("L1", None), loc("L2", None), loc("L3", None)], edges);
    let got = deterministic(&[comp], "determinism: C");
    reach("again");
    // L1 is entered with x - y <= 0; the loop leaves x - y within g..h
    let (lo, hi) = (max(a, c), min(b, d));
    check(or(!got, max(lo, g) > min(hi, h)), "a location counts with all the values it is entered with");
    check(or(lo <= hi, got), "windows that never meet do not clash");
}
harness! {
    h_c17_again => again();
    h_c17_pair => pair();
    h_c17_targets => targets();
    h_c17_clocks => clocks();
    h_c17_further => further();
    h_c17_three => three();
    h_c17_combined => combined();
    h_c17_windows => windows();
}
