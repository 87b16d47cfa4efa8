//! C14: refinement verdicts.
use crate::common::*;
use crate::vp::*;
use crate::ModelObjects::Component;

fn min(a: i32, b: i32) -> i32 { if a < b { a } else { b } }
fn within(x: &str, a: i32, b: i32) -> crate::ModelObjects::Expressions::BoolExpression { and_(cmp(x, ">=", a), cmp(x, "<=", b)) }
fn refines(s: Component, t: Component) -> bool {
    let r = ask(&[s, t], "refinement: S <= T");
    let got = verdict(&r);
    observe(got);
    check(got != 2, "the query is answered");
    got == 1
}
/// One location, an output window and an invariant: S <= T iff the windows nest.
fn window() {
    let (a, b, i) = (int("a", 0, 6), int("b", 0, 6), int("i", 0, 6));
    let (c, d, j) = (int("c", 0, 6), int("d", 0, 6), int("j", 0, 6));
    let mk = |name: &str, a: i32, b: i32, i: i32| {
        comp(name, &["x"], vec![loc("L", Some(cmp("x", "<=", i)))], vec![edge("E", "L", "L", "o!", Some(within("x", a, b)), vec![set("x", 0)])])
    };
    // each side must be able to leave before its invariant ends it
    assume(and(a <= b, and(a <= i, c <= d)));
    assume(c <= j);
    let got = refines(mk("S", a, b, i), mk("T", c, d, j));
    reach("window");
    let want = and(and(c <= a, min(b, i) <= min(d, j)), i <= j);
    check(got == want, "refinement of output windows");
}
/// One location without invariants, each bound strict or not.
fn strict() {
    let (a, b, c, d) = (int("a", 0, 9), int("b", 0, 9), int("c", 0, 9), int("d", 0, 9));
    let (sa, sb, sc, sd) = (split("sa"), split("sb"), split("sc"), split("sd"));
    let mk = |name: &str, a: i32, sa: bool, b: i32, sb: bool| {
        comp(name, &["x"], vec![loc("L", None)], vec![edge("E", "L", "L", "o!",
            Some(and_(cmp("x", if sa { ">" } else { ">=" }, a), cmp("x", if sb { "<" } else { "<=" }, b))), vec![set("x", 0)])])
    };
    let got = refines(mk("S", a, sa, b, sb), mk("T", c, sc, d, sd));
    reach("strict");
    let none = if sa || sb { a >= b } else { a > b };
    let low = if sc && !sa { c < a } else { c <= a };
    let high = if sd && !sb { b < d } else { b <= d };
    check(got == or(none, and(low, high)), "refinement of output windows with strict bounds");
}
/// An input moves both sides on; only then may they answer.
fn input() {
    let (a, b, c, d) = (int("a", 0, 9), int("b", 0, 9), int("c", 0, 9), int("d", 0, 9));
    let (e, f) = (int("e", 0, 9), int("f", 0, 9));
    let mk = |name: &str, a: i32, b: i32, e: i32| {
        comp(name, &["x"], vec![loc("L0", None), loc("L1", None)], vec![
            edge("E0", "L0", "L1", "a?", Some(within("x", a, b)), vec![set("x", 0)]),
            edge("E1", "L1", "L1", "o!", Some(cmp("x", ">=", e)), vec![])])
    };
    let got = refines(mk("S", a, b, e), mk("T", c, d, f));
    reach("input");
    check(got == or(a > b, and(and(c <= a, b <= d), f <= e)), "refinement with an input first");
}
/// Two steps: the left side measures them from step to step, the right side from the start.
fn steps() {
    let (a, b, c, d) = (int("a", 0, 6), int("b", 0, 6), int("c", 0, 6), int("d", 0, 6));
    let (p, q, r, s) = (int("p", 0, 6), int("q", 0, 6), int("r", 0, 14), int("s", 0, 14));
    let left = comp("S", &["x"], vec![loc("L0", None), loc("L1", None), loc("L2", None)], vec![
        edge("E0", "L0", "L1", "o!", Some(within("x", a, b)), vec![set("x", 0)]),
        edge("E1", "L1", "L2", "p!", Some(within("x", c, d)), vec![])]);
    let right = comp("T", &["u"], vec![loc("K0", None), loc("K1", None), loc("K2", None)], vec![
        edge("F0", "K0", "K1", "o!", Some(within("u", p, q)), vec![]),
        edge("F1", "K1", "K2", "p!", Some(within("u", r, s)), vec![])]);
    let got = refines(left, right);
    reach("steps");
    let second = or(c > d, and(r <= a + c, b + d <= s));
    check(got == or(a > b, and(and(p <= a, b <= q), second)), "refinement of two steps on different clocks");
}
/// The other way round: the left side measures from the start.
fn absolute() {
    let (a, b, c, d) = (int("a", 0, 6), int("b", 0, 6), int("c", 0, 9), int("d", 0, 9));
    let (r, s) = (int("r", 0, 9), int("s", 0, 9));
    let left = comp("S", &["x"], vec![loc("L0", None), loc("L1", None), loc("L2", None)], vec![
        edge("E0", "L0", "L1", "o!", Some(within("x", a, b)), vec![]),
        edge("E1", "L1", "L2", "p!", Some(within("x", c, d)), vec![])]);
    let right = comp("T", &["u"], vec![loc("K0", None), loc("K1", None), loc("K2", None)], vec![
        edge("F0", "K0", "K1", "o!", None, vec![set("u", 0)]),
        edge("F1", "K1", "K2", "p!", Some(within("u", r, s)), vec![])]);
    let got = refines(left, right);
    reach("steps");
    // the first step at t in a..b, the second at w in max(t, c)..d, u = w - t
    let b2 = min(b, d); // the latest first step that can be followed
    let some = and(a <= b2, c <= d);
    let low = if c > b2 { c - b2 } else { 0 };
    check(got == or(!some, and(r <= low, d - a <= s)), "refinement of two steps measured from the start");
}
/// Invariants after a step: time may stop on the right side only when it does on the left.
fn delays() {
    let (a, b, i, j) = (int("a", 0, 6), int("b", 0, 6), int("i", 0, 9), int("j", 0, 9));
    let (rs, rt) = (split("left resets"), split("right resets"));
    let mk = |name: &str, i: i32, reset: bool| {
        comp(name, &["x"], vec![loc("L0", None), loc("L1", Some(cmp("x", "<=", i)))], vec![
            edge("E0", "L0", "L1", "o!", Some(within("x", a, b)), if reset { vec![set("x", 0)] } else { vec![] }),
            edge("E1", "L1", "L1", "p!", None, vec![set("x", 0)])])
    };
    // the left side must be able to step in time, the right one to stay consistent
    let got = refines(mk("S", i, rs), mk("T", j, rt));
    reach("delays");
    // first stay: from t in a..hi, left until i (or t+i), right until j (or t+j); later stays: i against j
    let hi = if rs { b } else { min(b, i) };
    let want = or(a > hi, and(i <= j, match (rs, rt) {
        (true, true) | (false, false) => true,
        // left may stay until t+i <= j for the latest t
        (true, false) => hi + i <= j,
        // left until i, right until t + j: tightest at t = a
        (false, true) => i <= a + j,
    }));
    check(got == want, "refinement of invariants after a step");
}
/// The right side covers the left one's window by two edges.
fn cover() {
    let (a, b) = (int("a", 0, 9), int("b", 0, 9));
    let (c, d, e, f) = (int("c", 0, 9), int("d", 0, 9), int("e", 0, 9), int("f", 0, 9));
    assume(d < e); // deterministic
    let same = split("same target");
    let left = comp("S", &["x"], vec![loc("L0", None), loc("L1", None)], vec![
        edge("E0", "L0", "L1", "o!", Some(within("x", a, b)), vec![]), edge("E1", "L1", "L1", "p!", None, vec![])]);
    let right = comp("T", &["x"], vec![loc("K0", None), loc("K1", None), loc("K2", None)], vec![
        edge("F0", "K0", "K1", "o!", Some(within("x", c, d)), vec![]),
        edge("F1", "K0", if same { "K1" } else { "K2" }, "o!", Some(within("x", e, f)), vec![]),
        edge("F2", "K1", "K1", "p!", None, vec![]), edge("F3", "K2", "K2", "p!", Some(cmp("x", ">=", f)), vec![])]);
    let got = refines(left, right);
    reach("cover");
    let first = and(c <= a, b <= d);
    let second = and(and(e <= a, b <= f), if same { true } else { a >= f });
    // d < e leaves a gap between the two
    check(got == or(a > b, or(first, second)), "refinement by two edges of one action");
}
/// Two edges that meet without a gap.
fn meet() {
    let (a, b, c, d, e) = (int("a", 0, 9), int("b", 0, 9), int("c", 0, 9), int("d", 0, 9), int("e", 0, 9));
    let left = comp("S", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "o!", Some(within("x", a, b)), vec![])]);
    let closed = split("closed");
    let right = comp("T", &["x"], vec![loc("K0", None), loc("K1", None), loc("K2", None)], vec![
        edge("F0", "K0", "K1", "o!", Some(and_(cmp("x", ">=", c), cmp("x", if closed { "<=" } else { "<" }, d))), vec![]),
        edge("F1", "K0", "K2", "o!", Some(and_(cmp("x", ">", d), cmp("x", "<=", e))), vec![])]);
    let got = refines(left, right);
    reach("meet");
    // covered: [c, d] and (d, e], or [c, d) and (d, e]
    let one = and(c <= a, if closed { b <= d } else { b < d });
    let two = and(d < a, b <= e);
    let both = if closed { and(and(c <= a, a <= d), and(d <= b, b <= e)) } else { false };
    // closed: a in the first part and b in the second
    check(got == or(a > b, or(one, or(two, both))), "refinement by two edges that meet");
}
/// An output only the left side has leaves the right side where it is.
fn extra_output() {
    let (g, a, b, c, d) = (int("g", 0, 9), int("a", 0, 9), int("b", 0, 9), int("c", 0, 9), int("d", 0, 9));
    let reset = split("reset");
    let left = comp("S", &["x"], vec![loc("L0", None), loc("L1", None)], vec![
        edge("E0", "L0", "L1", "q!", Some(cmp("x", "<=", g)), if reset { vec![set("x", 0)] } else { vec![] }),
        edge("E1", "L1", "L1", "o!", Some(within("x", a, b)), vec![])]);
    let right = comp("T", &["x"], vec![loc("K0", None)], vec![edge("F0", "K0", "K0", "o!", Some(within("x", c, d)), vec![])]);
    let got = refines(left, right);
    reach("extra");
    let want = or(a > b, if reset { and(c <= a, g + b <= d) } else { and(c <= a, b <= d) });
    check(got == want, "an output of the left side only moves the left side");
}
/// An input only the right side has leaves the left side where it is.
fn extra_input() {
    let (g, a, b, c, d) = (int("g", 0, 9), int("a", 0, 9), int("b", 0, 9), int("c", 0, 9), int("d", 0, 9));
    let left = comp("S", &["x"], vec![loc("L0", None)], vec![edge("E0", "L0", "L0", "o!", Some(within("x", a, b)), vec![])]);
    let right = comp("T", &["x"], vec![loc("K0", None), loc("K1", None)], vec![
        edge("F0", "K0", "K1", "a?", Some(cmp("x", ">=", g)), vec![]),
        edge("F1", "K0", "K0", "o!", None, vec![]),
        edge("F2", "K1", "K1", "o!", Some(within("x", c, d)), vec![])]);
    let got = refines(left, right);
    reach("extra");
    // after a at any t >= g both may see o at max(a, g)..b
    let lo = if a < g { g } else { a };
    check(got == or(or(a > b, lo > b), and(c <= lo, b <= d)), "an input of the right side only moves the right side");
}
/// A step that needs the target's invariant to hold on arrival.
fn arrival() {
    let (i, g, h, m) = (int("i", 0, 9), int("g", 0, 9), int("h", 0, 9), int("m", 0, 9));
    let left = comp("S", &["x", "y"], vec![loc("L0", None), loc("L1", Some(cmp("x", ">=", i)))], vec![
        edge("E0", "L0", "L1", "o!", Some(cmp("x", "<=", m)), vec![set("y", 0)]),
        edge("E1", "L1", "L1", "p!", Some(and_(cmp("y", ">=", g), cmp("x", "<=", h))), vec![])]);
    let right = comp("T", &["u"], vec![loc("K0", None), loc("K1", None)], vec![
        edge("F0", "K0", "K1", "o!", None, vec![]), edge("F1", "K1", "K1", "p!", Some(cmp("u", "<", 0)), vec![])]);
    let got = refines(left, right);
    reach("arrival");
    // o at t in i..m, then p at w in t+g..h
    check(got == or(i > m, i + g > h), "a step needs the target's invariant on arrival");
}
/// Rounds: the left side loops, the right side counts time from the start.
fn rounds() {
    let (p, k, g) = (2 + choose("p", 2) as i32, int("k", 0, 9), int("g", 0, 6));
    let left = comp("S", &["x"], vec![loc("L0", Some(cmp("x", "<=", p)))], vec![
        edge("E0", "L0", "L0", "o!", Some(cmp("x", "==", p)), vec![set("x", 0)])]);
    let right = comp("T", &["x", "u"], vec![loc("K0", None)], vec![
        edge("F0", "K0", "K0", "o!", Some(or_(cmp("x", "<=", k), cmp("u", ">=", g))), vec![set("x", 0)])]);
    let got = refines(left, right);
    reach("rounds");
    // the first round ends at u = p, later ones further on
    check(got == or(p <= k, g <= p), "refinement over any number of rounds");
}
harness! {
    h_c14_window => window();
    h_c14_strict => strict();
    h_c14_input => input();
    h_c14_steps => steps();
    h_c14_absolute => absolute();
    h_c14_delays => delays();
    h_c14_cover => cover();
    h_c14_meet => meet();
    h_c14_extra_output => extra_output();
    h_c14_extra_input => extra_input();
    h_c14_arrival => arrival();
    h_c14_rounds => rounds();
}
