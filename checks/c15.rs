//! C15: the laws every refinement relation obeys.
use crate::common::*;
use crate::vp::*;
use crate::ModelObjects::Component;
use crate::ModelObjects::Expressions::BoolExpression as B;

fn within(x: &str, a: i32, b: i32) -> B { and_(cmp(x, ">=", a), cmp(x, "<=", b)) }
fn ask_(c: &[Component], q: &str) -> u64 {
    let got = verdict(&ask(c, q));
    observe(got);
    got
}
fn named(mut c: Component, name: &str) -> Component {
    c.name = name.to_string();
    c
}
/// A small family of specifications over the outputs o, p and the input i.
fn shape(form: usize, name: &str, a: i32, b: i32, c: i32) -> Component {
    let reset = || vec![set("x", 0)];
    match form {
        0 => comp(name, &["x"], vec![loc("L", Some(cmp("x", "<=", c)))], vec![edge("E", "L", "L", "o!", Some(within("x", a, b)), reset()), edge("F", "L", "L", "i?", None, vec![]), edge("G", "L", "L", "p!", Some(cmp("x", "<", 0)), vec![])]),
        1 => comp(name, &["x"], vec![loc("L", None), loc("M", Some(cmp("x", "<=", c)))], vec![edge("E", "L", "M", "i?", Some(cmp("x", ">=", a)), reset()), edge("F", "M", "L", "o!", Some(cmp("x", ">=", b)), reset()), edge("G", "L", "L", "p!", None, vec![])]),
        2 => comp(name, &["x", "y"], vec![loc("L", None), loc("M", None)], vec![edge("E", "L", "M", "o!", Some(within("x", a, b)), vec![set("y", 0)]), edge("F", "M", "L", "p!", Some(and_(cmp("y", ">=", c), cmp("x", "<=", 9))), vec![]), edge("G", "M", "M", "i?", None, vec![])]),
        _ => comp(name, &["x"], vec![loc("L", None), loc("M", None)], vec![edge("E", "L", "M", "o!", Some(or_(cmp("x", "<", a), and_(cmp("x", ">", b), cmp("x", "<=", c)))), reset()), edge("F", "M", "L", "p!", Some(cmp("x", ">=", c)), vec![]), edge("G", "M", "L", "i?", Some(cmp("x", "<=", b)), vec![])]),
    }
}
/// S <= S, S <= S && S, S && S <= S: for every consistent S
fn reflexive() {
    let (a, b, c) = (int("a", 0, 9), int("b", 0, 9), int("c", 0, 9));
    let form = choose("shape", 4);
    let s = shape(form, "S", a, b, c);
    let sane = ask_(&[s.clone()], "consistency: S");
    let q = ["refinement: S <= S", "refinement: S <= S && S", "refinement: S && S <= S"][if form > 1 { 0 } else { choose("law", 3) }];
    let got = ask_(&[s], q);
    reach("reflexive");
    // an inconsistent specification refines nothing, and cannot be conjoined with itself
    check((got == 1) == (sane == 1), "every specification refines itself");
}
/// Swapping and regrouping the parts of a composition changes nothing.
fn regroup() {
    let (a, b, c, d) = (1, int("b", 0, 6), int("c", 0, 6), int("d", 0, 6));
    let l = comp("A", &["x"], vec![loc("L0", None), loc("L1", Some(cmp("x", "<=", b))), loc("L2", None)], vec![edge("E0", "L0", "L1", "i?", Some(cmp("x", ">=", a)), vec![set("x", 0)]), edge("E1", "L1", "L2", "m!", None, vec![])]);
    let r = comp("B", &["x"], vec![loc("K0", None), loc("K1", None), loc("K2", None)], vec![edge("F0", "K0", "K1", "m?", Some(cmp("x", ">=", c)), vec![]), edge("F1", "K1", "K2", "o!", Some(cmp("x", "<=", d)), vec![])]);
    let t = comp("C", &["x"], vec![loc("J0", None), loc("J1", None)], vec![edge("G0", "J0", "J1", "o?", Some(cmp("x", "<", 3)), vec![])]);
    let q = ["refinement: A || B <= B || A", "refinement: B || A <= A || B", "refinement: (A || B) || C <= A || (B || C)", "refinement: A || (C || B) <= (A || B) || C"][choose("law", 4)];
    let got = ask_(&[l, r, t], q);
    reach("regroup");
    check(got == 1, "order and grouping of a composition do not matter");
}
/// S <= T and T <= U give S <= U
fn transitive() {
    let k: Vec<i32> = ["a", "b", "i", "c", "d", "j", "e", "f", "k"].iter().map(|s| int(s, 0, 4)).collect();
    let mk = |name: &str, a: i32, b: i32, i: i32| comp(name, &["x"], vec![loc("L", None), loc("M", Some(cmp("x", "<=", i)))], vec![
        edge("E", "L", "M", "i?", Some(cmp("x", ">=", a)), vec![set("x", 0)]), edge("F", "M", "L", "o!", Some(cmp("x", ">=", b)), vec![set("x", 0)])]);
    let cs = [mk("S", k[0], k[1], k[2]), mk("T", k[3], k[4], k[5]), mk("U", k[6], k[7], k[8])];
    let st = ask_(&cs, "refinement: S <= T");
    if st != 1 { return; }
    let tu = ask_(&cs, "refinement: T <= U");
    if tu != 1 { return; }
    reach("transitive");
    check(ask_(&cs, "refinement: S <= U") == 1, "refinement is transitive");
}
/// S <= T gives S || E <= T || E, and S && E <= T && E where these are consistent
fn monotone() {
    let (a, b, c, d) = (int("a", 0, 6), int("b", 0, 6), int("c", 0, 6), int("d", 0, 6));
    let (g, h) = (int("g", 0, 6), 3);
    let mk = |name: &str, a: i32, b: i32| comp(name, &["x"], vec![loc("L", None), loc("M", None)], vec![
        edge("E", "L", "M", "o!", Some(within("x", a, b)), vec![set("x", 0)]), edge("F", "M", "L", "i?", Some(cmp("x", "<=", 4)), vec![])]);
    let form = split("conjunction");
    let e = if form { mk("E", g, h) } else {
        comp("E", &["x"], vec![loc("L", None), loc("M", None)], vec![edge("E", "L", "M", "o?", Some(cmp("x", ">=", g)), vec![set("x", 0)]), edge("F", "M", "L", "i!", Some(cmp("x", "<=", h)), vec![])])
    };
    let cs = [mk("S", a, b), mk("T", c, d), e];
    if ask_(&cs, "refinement: S <= T") != 1 { return; }
    reach("monotone");
    check(ask_(&cs, if form { "refinement: S && E <= T && E" } else { "refinement: S || E <= T || E" }) == 1, "refinement is kept when both sides get the same partner");
}
/// A refined environment or specification never gains: E <= F gives S || E <= S || F, in any place.
fn same() {
    let (a, b, c) = (int("a", 0, 9), int("b", 0, 9), int("c", 0, 9));
    let form = choose("shape", 4);
    let s = shape(form, "S", a, b, c);
    let t = named(s.clone(), "T");
    if ask_(&[s.clone()], "consistency: S") != 1 { return; }
    reach("same");
    check(and(ask_(&[s.clone(), t.clone()], "refinement: S <= T") == 1, ask_(&[s, t], "refinement: T <= S") == 1), "names of components and of their owners do not matter");
}
/// Every quotient refines itself, errors and all.
fn quotient() {
    let (a, b, p, q) = (int("a", 0, 6), int("b", 0, 6), int("p", 0, 6), int("q", 0, 6));
    assume(a <= b);
    let t = comp("T", &["u"], vec![loc("J0", None), loc("J1", if split("deadline") { Some(cmp("u", "<=", 7)) } else { None })], vec![
        edge("G0", "J0", "J1", "m!", Some(within("u", p, q)), vec![set("u", 0)]), edge("G1", "J1", "J0", "o!", None, vec![set("u", 0)])]);
    let s = comp("S", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "m!", Some(within("x", a, b)), vec![])]);
    let cs = [t, s];
    let sane = ask_(&cs, "consistency: T // S");
    let got = ask_(&cs, "refinement: T // S <= T // S");
    reach("quotient");
    check(and(sane != 2, got != 2), "the query is answered");
    check((got == 1) == (sane == 1), "every quotient refines itself");
}
harness! {
    h_c15_quotient => quotient();
    h_c15_reflexive => reflexive();
    h_c15_regroup => regroup();
    h_c15_transitive => transitive();
    h_c15_monotone => monotone();
    h_c15_same => same();
}
