//! C13: the quotient is the least demanding specification of what is missing.
use crate::common::*;
use crate::vp::*;
use crate::ModelObjects::Component;
use crate::ModelObjects::Expressions::BoolExpression as B;

fn min(a: i32, b: i32) -> i32 { if a < b { a } else { b } }
fn max(a: i32, b: i32) -> i32 { if a < b { b } else { a } }
fn within(x: &str, a: i32, b: i32) -> B { and_(cmp(x, ">=", a), cmp(x, "<=", b)) }
fn yes(c: &[Component], q: &str) -> bool {
    let got = verdict(&ask(c, q));
    observe(got);
    check(got != 2, "the query is answered");
    got == 1
}
fn spec(p: i32, q: i32, r: i32, s: i32) -> Component {
    comp("T", &["u"], vec![loc("J0", None), loc("J1", None), loc("J2", None)], vec![
        edge("G0", "J0", "J1", "m!", Some(within("u", p, q)), vec![set("u", 0)]), edge("G1", "J1", "J2", "o!", Some(within("u", r, s)), vec![])])
}
fn known(a: i32, b: i32) -> Component {
    comp("S", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "m!", Some(within("x", a, b)), vec![])])
}
fn missing(c: i32, d: i32) -> Component {
    comp("X", &["z"], vec![loc("K0", None), loc("K1", None), loc("K2", None)], vec![
        edge("F0", "K0", "K1", "m?", None, vec![set("z", 0)]), edge("F1", "K1", "K2", "o!", Some(within("z", c, d)), vec![])])
}
/// X <= T // S exactly when S || X <= T.
fn adjoint() {
    let (a, b, c, d) = (int("a", 0, 6), int("b", 0, 6), int("c", 0, 6), int("d", 0, 6));
    let (r, s) = (int("r", 0, 6), int("s", 0, 6));
    let (p, q) = (2, 5);
    let cs = [spec(p, q, r, s), known(a, b), missing(c, d)];
    let got = yes(&cs, "refinement: X <= T // S");
    reach("adjoint");
    let want = or(a > b, and(and(p <= a, b <= q), or(c > d, and(r <= c, d <= s))));
    check(got == want, "X refines T // S exactly when S || X refines T");
}
/// The missing part drives the known one.
fn drive() {
    let (a, b, c, d) = (int("a", 0, 6), int("b", 0, 6), int("c", 0, 6), int("d", 0, 6));
    let (p, r, s) = (2, int("r", 0, 6), int("s", 0, 6));
    let t = comp("T", &["u"], vec![loc("J0", None), loc("J1", None), loc("J2", None)], vec![
        edge("G0", "J0", "J1", "g!", Some(cmp("u", ">=", p)), vec![set("u", 0)]), edge("G1", "J1", "J2", "o!", Some(within("u", r, s)), vec![])]);
    let k = comp("S", &["x"], vec![loc("L0", None), loc("L1", None), loc("L2", None)], vec![
        edge("E0", "L0", "L1", "g?", None, vec![set("x", 0)]), edge("E1", "L1", "L2", "o!", Some(within("x", a, b)), vec![])]);
    let x = comp("X", &["z"], vec![loc("K0", None), loc("K1", None)], vec![
        edge("F0", "K0", "K1", "g!", Some(within("z", c, d)), vec![]), edge("F1", "K1", "K1", "o?", None, vec![])]);
    let got = yes(&[t, k, x], "refinement: X <= T // S");
    reach("drive");
    check(got == or(c > d, and(p <= c, or(a > b, and(r <= a, b <= s)))), "X refines T // S exactly when S || X refines T");
}
/// Deadlines: what the specification requires by j must come from the known part or the missing one.
fn deadlines() {
    let (i, j, k) = (int("i", 0, 9), int("j", 0, 9), int("k", 0, 9));
    let form = choose("form", 3);
    let t = comp("T", &["u"], vec![loc("J0", Some(cmp("u", "<=", j))), loc("J1", None)], vec![
        edge("G0", "J0", "J1", "m!", None, vec![]), edge("G1", "J0", "J1", "o!", None, vec![]), edge("G2", "J1", "J1", "m!", None, vec![]), edge("G3", "J1", "J1", "o!", None, vec![])]);
    let s = comp("S", &["x"], vec![loc("L0", if form != 1 { Some(cmp("x", "<=", i)) } else { None }), loc("L1", None)], vec![
        edge("E0", "L0", "L1", "m!", None, vec![]), edge("E1", "L1", "L1", "m!", None, vec![])]);
    let x = comp("X", &["z"], vec![loc("K0", if form != 0 { Some(cmp("z", "<=", k)) } else { None }), loc("K1", None)], vec![
        edge("F0", "K0", "K1", "m?", None, vec![]), edge("F1", "K0", "K1", "o!", None, vec![]), edge("F2", "K1", "K1", "o!", None, vec![])]);
    let got = yes(&[t, s, x], "refinement: X <= T // S");
    reach("deadlines");
    // whoever must act first: without invariant a part may wait for ever
    check(got == match form { 0 => i <= j, 1 => k <= j, _ => or(i <= j, k <= j) }, "a deadline is kept by either part");
}
/// Parts that may wait for ever keep no deadline.
fn waits() {
    let (a, c, i, j, k) = (int("a", 0, 9), int("c", 0, 9), int("i", 0, 9), int("j", 0, 9), int("k", 0, 9));
    let (ti, si, xi) = (split("T has a deadline"), split("S has a deadline"), split("X has a deadline"));
    let by = |on: bool, x: &str, k: i32| if on { Some(cmp(x, "<=", k)) } else { None };
    let t = comp("T", &["u"], vec![loc("J0", by(ti, "u", j)), loc("J1", None)], vec![
        edge("G0", "J0", "J1", "m!", None, vec![]), edge("G1", "J0", "J1", "o!", None, vec![]), edge("G2", "J1", "J1", "m!", None, vec![]), edge("G3", "J1", "J1", "o!", None, vec![])]);
    let s = comp("S", &["x"], vec![loc("L0", by(si, "x", i)), loc("L1", None)], vec![edge("E0", "L0", "L1", "m!", by(!si, "x", a), vec![])]);
    let x = comp("X", &["z"], vec![loc("K0", by(xi, "z", k)), loc("K1", None)], vec![
        edge("F0", "K0", "K1", "m?", None, vec![]), edge("F1", "K0", "K1", "o!", by(!xi, "z", c), vec![])]);
    let got = yes(&[t, s, x], "refinement: X <= T // S");
    reach("waits");
    check(got == or(!ti, or(and(si, i <= j), and(xi, k <= j))), "whoever may wait for ever keeps no deadline");
}
/// Where the known part cannot send, the missing part is free.
fn free() {
    let (a, b, c, d, r, s) = (int("a", 0, 9), int("b", 0, 9), int("c", 0, 9), int("d", 0, 9), int("r", 0, 9), int("s", 0, 9));
    let t = comp("T", &["u"], vec![loc("J0", None), loc("J1", None)], vec![
        edge("G0", "J0", "J1", "m!", None, vec![]), edge("G1", "J1", "J1", "o!", Some(within("u", r, s)), vec![])]);
    let k = comp("S", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "m!", Some(within("x", a, b)), vec![])]);
    // X answers at c..d (from the start) only if m came before the known part can send it, or at any time after
    let early = split("early");
    let x = comp("X", &["z"], vec![loc("K0", None), loc("K1", None), loc("K2", None)], vec![
        edge("F0", "K0", "K1", "m?", Some(if early { cmp("z", "<", a) } else { cmp("z", ">", b) }), vec![]), edge("F1", "K1", "K2", "o!", Some(within("z", c, d)), vec![])]);
    let got = yes(&[t, k, x], "refinement: X <= T // S");
    reach("free");
    check(got, "what the known part never does asks nothing of the missing part");
}
/// A chain of quotients and compositions.
fn parts() {
    let (a, c, e) = (int("a", 0, 9), int("c", 0, 9), int("e", 0, 9));
    let mk = |name: &str, o: &str, k: i32| comp(name, &["x"], vec![loc("L", None)], vec![edge("E", "L", "L", o, Some(cmp("x", ">=", k)), vec![])]);
    let t = comp("T", &["x"], vec![loc("L", None)], vec![edge("E", "L", "L", "m!", Some(cmp("x", ">=", a)), vec![]), edge("F", "L", "L", "o!", Some(cmp("x", ">=", a)), vec![]), edge("G", "L", "L", "p!", Some(cmp("x", ">=", a)), vec![])]);
    let cs = [t, mk("S", "m!", c), mk("R", "o!", e), comp("X", &["x"], vec![loc("L", None)], vec![edge("E", "L", "L", "p!", Some(cmp("x", ">=", 3)), vec![]), edge("F", "L", "L", "m?", None, vec![]), edge("G", "L", "L", "o?", None, vec![])])];
    let form = choose("form", 2);
    let got = yes(&cs, ["refinement: X <= T // (S || R)", "refinement: X <= T // S // R"][form]);
    reach("parts");
    check(got == and(and(a <= c, a <= e), a <= 3), "dividing by two parts is dividing by their composition");
}
/// What the specification's invariants forbid on arrival is for the missing part to prevent.
fn arrivals() {
    let (p, k) = (int("p", 0, 9), int("k", 0, 9));
    // R lets o happen whenever the known part does it (x <= p after m), then time goes on
    let t = comp("T", &["u"], vec![loc("J0", None), loc("J1", None), loc("J2", Some(cmp("u", "<=", k))), loc("J3", None)], vec![
        edge("G0", "J0", "J1", "m!", None, vec![set("u", 0)]), edge("G1", "J1", "J2", "o!", None, vec![]), edge("G2", "J2", "J3", "o!", None, vec![])]);
    let s = comp("S", &["x"], vec![loc("L0", None), loc("L1", None), loc("L2", Some(cmp("x", "<=", 0))), loc("L3", None)], vec![
        edge("E0", "L0", "L1", "m?", None, vec![set("x", 0)]), edge("E1", "L1", "L2", "o!", Some(cmp("x", "<=", p)), vec![set("x", 0)]), edge("E2", "L2", "L3", "o!", None, vec![])]);
    let r = comp("R", &["z"], vec![loc("K0", None), loc("K1", None)], vec![edge("F0", "K0", "K1", "m!", None, vec![])]);
    let got = yes(&[t, s, r], "refinement: R <= T // S");
    reach("arrivals");
    check(got == (p <= k), "arriving where the specification's invariant does not hold is an error");
}
/// Once the known part's deadline has passed, anything goes; before, what follows counts.
fn after() {
    let (i, g, w) = (int("i", 0, 9), int("g", 0, 9), int("w", 0, 9));
    let later = split("later");
    let all = |l: &'static str| ["m!", "o!", "p!"].map(|s| edge("G", l, l, s, None, vec![]));
    let mut et = vec![edge("G0", "J0", "J2", "m!", None, vec![]), edge("G1", "J0", "J1", "o!", None, vec![]), edge("G2", "J1", "J2", "m!", None, vec![]), edge("G3", "J1", "J1", "p!", Some(cmp("u", ">=", w)), vec![])];
    et.extend(all("J2"));
    let t = comp("T", &["u"], vec![loc("J0", None), loc("J1", None), loc("J2", None)], et);
    let s = comp("S", &["x"], vec![loc("L0", Some(cmp("x", "<=", i))), loc("L1", None)], vec![edge("E0", "L0", "L1", "m!", None, vec![])]);
    let k3 = if later { "K3" } else { "K2" };
    let x = comp("X", &["z"], vec![loc("K0", None), loc("K1", None), loc("K2", None), loc("K3", None)], vec![
        edge("F0", "K0", "K1", "m?", None, vec![]), edge("F1", "K0", "K2", "o!", Some(cmp("z", ">=", g)), vec![]), edge("F2", "K1", "K1", "p!", None, vec![]), edge("F3", "K2", "K1", "m?", None, vec![]), edge("F4", k3, "K1", "p!", None, vec![])]);
    let got = yes(&[t, s, x], "refinement: X <= T // S");
    reach("after");
    // without m, which S sends by i, X does o at g or later and then p at once
    check(got == or(later, or(g > i, g >= w)), "X refines T // S exactly when S || X refines T");
}
/// An action the known part waits for and the specification does not know is the missing part's to send.
fn unknown() {
    let (p, q, g) = (int("p", 0, 9), int("q", 0, 9), int("g", 0, 9));
    let twice = split("twice");
    let t = comp("T", &["u"], vec![loc("J0", None), loc("J1", None)], vec![edge("G0", "J0", "J1", "m!", Some(cmp("u", ">=", p)), vec![]), edge("G1", "J1", "J1", "m!", None, vec![])]);
    let s = comp("S", &["x"], vec![loc("L0", None), loc("L1", None), loc("L2", None)], vec![
        edge("E0", "L0", "L1", "a?", None, vec![]), edge("E1", if twice { "L2" } else { "L1" }, "L1", "m!", Some(cmp("x", ">=", q)), vec![]), edge("E2", "L1", if twice { "L2" } else { "L1" }, "a?", None, vec![])]);
    let x = comp("X", &["z"], vec![loc("K0", None), loc("K1", None)], vec![edge("F0", "K0", "K1", "a!", Some(cmp("z", ">=", g)), vec![]), edge("F1", "K1", "K1", "m?", None, vec![])]);
    let got = yes(&[t, s, x], "refinement: X <= T // S");
    reach("unknown");
    check(got == or(twice, p <= max(q, g)), "X refines T // S exactly when S || X refines T");
}
harness! {
    h_c13_after => after();
    h_c13_unknown => unknown();
    h_c13_adjoint => adjoint();
    h_c13_drive => drive();
    h_c13_deadlines => deadlines();
    h_c13_waits => waits();
    h_c13_free => free();
    h_c13_parts => parts();
    h_c13_arrivals => arrivals();
}
