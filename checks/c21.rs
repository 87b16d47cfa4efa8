//! C21: leaving out redundant clocks never changes a verdict.
use crate::common::*;
use crate::vp::*;
use crate::ModelObjects::Component;
use crate::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B};

fn within(x: &str, y: &str, a: i32, b: i32) -> B { and_(cmp(x, ">=", a), cmp(y, "<=", b)) }
fn yes(c: &[Component], q: &str) -> bool {
    let got = verdict(&ask_with(c, q, true));
    observe(got);
    check(got != 2, "the query is answered");
    got == 1
}
fn spec(c: i32, d: i32) -> Component {
    comp("T", &["u"], vec![loc("K0", None), loc("K1", None)], vec![edge("F0", "K0", "K1", "o!", Some(within("u", "u", c, d)), vec![])])
}
/// Clocks that are never used, used trivially, or always equal to another one.
fn kinds() {
    let (a, b, c, d) = (int("a", 0, 9), int("b", 0, 9), int("c", 0, 9), int("d", 0, 9));
    let form = choose("form", 6);
    let (clocks, guard, ups): (&[&str], B, _) = match form {
        0 => (&["x", "y"], within("x", "x", a, b), vec![set("y", 0)]),                                  // y is never compared
        1 => (&["y", "x"], and_(within("x", "x", a, b), cmp("y", ">=", 0)), vec![set("y", 3)]),          // compared trivially
        2 => (&["x", "y"], within("x", "y", a, b), vec![]),                                             // always equal
        3 => (&["x", "y", "z"], within("z", "x", a, b), vec![set("z", 0), set("x", 0)]),                 // equal, and y unused
        4 => (&["x", "y"], or_(and_(within("x", "x", a, b), cmp("y", "<=", 20)), and_(within("x", "x", a, b), cmp("y", ">", 20))), vec![]),
        _ => (&["y", "x"], and_(within("x", "x", a, b), rel(Box::new(A::Difference(v("y"), v("x"))), "<=", n(0))), vec![]),
    };
    let s = comp("S", clocks, vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "o!", Some(guard), ups)]);
    let got = if split("on the left") { yes(&[s, spec(c, d)], "refinement: S <= T") } else {
        let mut t = spec(c, d);
        t.name = "S".into();
        let mut s = s;
        s.name = "T".into();
        let got = yes(&[t, s], "refinement: S <= T");
        reach("kinds");
        check(got == or(c > d, and(a <= c, d <= b)), "a verdict does not depend on redundant clocks");
        return;
    };
    reach("kinds");
    check(got == or(a > b, and(c <= a, b <= d)), "a verdict does not depend on redundant clocks");
}
/// Clocks that become different on some edge are kept apart.
fn differ() {
    let (a, b, c, d) = (int("a", 0, 6), int("b", 0, 6), int("c", 0, 6), int("d", 0, 6));
    let form = choose("form", 3);
    let (k, m) = (if form == 0 { choose("k", 2) as i32 } else { 0 }, choose("m", 3) as i32);
    let ups = match form { 0 => vec![set("x", k), set("y", m)], 1 => vec![set("y", m)], _ => vec![set("x", m), set("y", m)] };
    let s = comp("S", &["x", "y"], vec![loc("L0", None), loc("L1", None), loc("L2", None)], vec![
        edge("E0", "L0", "L1", "p!", Some(rel(v("x"), "==", n(4))), ups),
        edge("E1", "L1", "L2", "o!", Some(within("x", "y", a, b)), vec![])]);
    let t = comp("T", &["u", "w"], vec![loc("K0", None), loc("K1", None), loc("K2", None)], vec![
        edge("F0", "K0", "K1", "p!", None, vec![set("u", 0)]), edge("F1", "K1", "K2", "o!", Some(within("u", "u", c, d)), vec![])]);
    let got = yes(&[s, t], "refinement: S <= T");
    reach("differ");
    // with u the time since p: x = u + x0, y = u + y0
    let (x0, y0) = match form { 0 => (k, m), 1 => (4, m), _ => (m, m) };
    let lo = if a > x0 { a - x0 } else { 0 };
    let hi = b - y0;
    check(got == or(lo > hi, and(c <= lo, hi <= d)), "clocks that differ are kept apart");
}
/// Consistency, determinism and saved systems.
fn others() {
    let (a, b, i) = (int("a", 0, 9), int("b", 0, 9), int("i", 0, 9));
    let form = choose("form", 3);
    let c = comp("C", &["x", "y", "z"], vec![loc("L0", Some(and_(cmp("x", "<=", i), cmp("z", ">=", 0)))), loc("L1", None)], vec![
        edge("E0", "L0", "L1", "o!", Some(cmp("y", ">=", a)), vec![set("z", 0)]),
        edge("E1", "L0", "L0", if form == 2 { "p!" } else { "o!" }, Some(and_(cmp("x", "<", b), cmp("z", ">=", 0))), vec![set("x", 0), set("y", 0)])]);
    let got = yes(&[c], ["consistency: C", "determinism: C", "consistency: C"][form]);
    reach("others");
    let lo = if a < b { true } else { false };
    // o overlaps itself when some x lies in a.. and below b, within i
    let clash = and(lo, a <= i);
    check(got == match form { 0 => and(!clash, or(a <= i, b > 0)), 1 => !clash, _ => or(a <= i, b > 0) }, "a verdict does not depend on redundant clocks");
}
/// Clocks of different parts that are always equal.
fn parts() {
    let (a, b, c, d) = (int("a", 0, 6), int("b", 0, 6), int("c", 0, 6), int("d", 0, 6));
    let form = choose("form", 3);
    let l = comp("A", &["x", "w"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "o!", Some(cmp("x", ">=", a)), vec![])]);
    let r = comp("B", &["v", "x"], vec![loc("K0", None), loc("K1", None)], vec![edge("F0", "K0", "K1", if form == 0 { "o?" } else { "o!" }, Some(cmp("x", "<=", b)), vec![])]);
    let t = spec(c, d);
    let got = yes(&[l, r, t], ["refinement: A || B <= T", "refinement: A && B <= T", "refinement: T <= A && B"][form]);
    reach("parts");
    check(got == match form {
        0 => false, // A has no upper bound, and the receiver never blocks
        1 => or(a > b, and(c <= a, b <= d)),
        _ => or(c > d, and(a <= c, d <= b)),
    }, "a verdict does not depend on redundant clocks");
}
/// The quotient's own clock is renumbered with the others.
fn quotient() {
    let (a, b, c, d) = (int("a", 0, 6), int("b", 0, 6), int("c", 0, 6), int("d", 0, 6));
    let t = comp("T", &["w", "u"], vec![loc("J0", None), loc("J1", None), loc("J2", None)], vec![
        edge("G0", "J0", "J1", "m!", Some(within("u", "u", a, b)), vec![set("w", 0)]), edge("G1", "J1", "J2", "o!", None, vec![])]);
    let s = comp("S", &["x", "y"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "m!", Some(within("x", "y", c, d)), vec![])]);
    let x = comp("X", &["z"], vec![loc("K0", None), loc("K1", None)], vec![edge("F0", "K0", "K1", "m?", None, vec![]), edge("F1", "K1", "K1", "o!", Some(cmp("z", "<", 0)), vec![])]);
    // alone, or next to a component that allows everything
    let z = comp("Z", &["z"], vec![loc("Z0", None)], vec![edge("H0", "Z0", "Z0", "m?", None, vec![]), edge("H1", "Z0", "Z0", "o!", None, vec![])]);
    let query = choose("query", 3);
    let got = verdict(&ask_with(&[t, s, x, z], ["refinement: X <= T // S", "refinement: X <= Z && (T // S)", "refinement: X <= (T // S) && Z"][query], true));
    observe(got);
    reach("quotient");
    // a conjunction that nothing satisfies is refused where it is built
    check(or(got == 1, got == if query == 0 { 0 } else { 2 }), "the query is answered");
    check((got == 1) == or(c > d, and(a <= c, d <= b)), "a verdict does not depend on redundant clocks");
}
/// Clocks that are always set together, to values of their own.
fn together() {
    let (a, b, i) = (int("a", 0, 9), int("b", 0, 9), int("i", 0, 9));
    let (k, m) = (choose("k", 4) as i32, choose("m", 4) as i32);
    let first = split("x is declared first");
    let c = comp("C", if first { &["x", "y"] } else { &["y", "x"] }, vec![loc("L0", Some(cmp("y", "<=", 2))), loc("L1", Some(cmp("x", "<=", i)))], vec![
        edge("E0", "L0", "L1", "p!", None, vec![set("x", k), set("y", m)]),
        edge("E1", "L1", "L0", "o!", Some(within("y", "y", a, b)), vec![set("x", 0), set("y", 0)])]);
    let form = choose("query", 2);
    let got = if form == 0 { yes(&[c], "consistency: C") } else {
        // the same, saved and asked again
        let s = match ask_with(&[c], "get-component: C save-as S", true) {
            Ok(crate::System::query_failures::QueryResult::GetComponent(s)) => s,
            _ => { check(false, "the query is answered"); return; }
        };
        yes(&[s], "consistency: S")
    };
    reach("together");
    // x = k + t, y = m + t in L1, which must be left by o within t <= i - k
    let t = if a - m > 0 { a - m } else { 0 };
    check(got == and(k <= i, and(t <= i - k, t <= b - m)), "clocks with values of their own are kept apart");
}
/// A clock that is used in a single place, however it is used there.
fn place() {
    let (b, c, d) = (int("b", 0, 6), int("c", 0, 6), int("d", 0, 6));
    let k = [2, 3, 5][choose("k", 3)];
    let form = choose("form", 7);
    let minus = |l: &str, r: &str| Box::new(A::Difference(v(l), v(r)));
    let used = match form {
        0 | 2 => cmp("y", ">=", k),
        3 => cmp("y", "<=", k),
        4 | 1 => rel(minus("y", "x"), ">=", n(k)),
        _ => rel(minus("x", "y"), ">=", n(-k)),
    };
    // in a guard, or in the invariant of the location the edge leads to
    let guard = [2, 3, 4, 5].contains(&form);
    let bound = cmp("x", "<=", b);
    let s = comp("S", if split("y is declared first") { &["y", "x"] } else { &["x", "y"] }, vec![loc("L0", None), loc("L1", None), loc("L2", if guard { None } else { Some(used.clone()) })], vec![
        edge("E0", "L0", "L1", "p!", Some(rel(v("x"), "==", n(3))), vec![set("x", 0)]),
        edge("E1", "L1", "L2", "o!", Some(if guard { and_(bound, used) } else { bound }), vec![])]);
    let t = comp("T", &["u"], vec![loc("K0", None), loc("K1", None), loc("K2", None)], vec![
        edge("F0", "K0", "K1", "p!", Some(rel(v("u"), "==", n(3))), vec![set("u", 0)]), edge("F1", "K1", "K2", "o!", Some(within("u", "u", c, d)), vec![])]);
    let left = split("on the left");
    let got = yes(&[s, t], if left { "refinement: S <= T" } else { "refinement: T <= S" });
    reach("place");
    // y is three ahead of x in L1
    let (lo, hi) = match form {
        0 | 2 => (if k > 3 { k - 3 } else { 0 }, b),
        3 => (0, if k - 3 < b { k - 3 } else { b }),
        4 | 1 => (0, if k <= 3 { b } else { -1 }),
        _ => (0, if k >= 3 { b } else { -1 }),
    };
    check(got == if left { or(lo > hi, and(c <= lo, hi <= d)) } else { or(c > d, and(lo <= c, d <= hi)) }, "a clock used in one place counts");
}
harness! {
    h_c21_place => place();
    h_c21_kinds => kinds();
    h_c21_differ => differ();
    h_c21_others => others();
    h_c21_parts => parts();
    h_c21_quotient => quotient();
    h_c21_together => together();
}
