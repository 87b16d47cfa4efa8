//! C11: composition synchronises shared actions and interleaves the others.
use crate::common::*;
use crate::vp::*;
use crate::ModelObjects::Component;
use crate::ModelObjects::Expressions::BoolExpression as B;
use crate::TransitionSystems::transition_system::components_to_transition_system;

fn max(a: i32, b: i32) -> i32 { if a < b { b } else { a } }
fn within(x: &str, a: i32, b: i32) -> B { and_(cmp(x, ">=", a), cmp(x, "<=", b)) }
fn yes(c: &[Component], q: &str) -> bool {
    let got = verdict(&ask(c, q));
    observe(got);
    check(got != 2, "the query is answered");
    got == 1
}
/// Which actions the composition has, and as what.
fn actions() {
    // 0: none, 1: input, 2: output
    let (la, ra) = (choose("left a", 3), choose("right a", 3));
    let (lb, rb) = (choose("left b", 3), choose("right b", 3));
    let mk = |name: &str, a: usize, b: usize| {
        let mut e = vec![];
        for (act, k) in [("a", a), ("b", b)] {
            if k > 0 { e.push(edge("E", "L", "L", &format!("{}{}", act, if k == 1 { "?" } else { "!" }), None, vec![])); }
        }
        comp(name, &["x"], vec![loc("L", None)], e)
    };
    let clash = or(and(la == 2, ra == 2), and(lb == 2, rb == 2));
    let cs = vec![mk("A", la, lb), mk("B", ra, rb)];
    if clash {
        let got = verdict(&ask(&cs, "consistency: A || B"));
        reach("clash");
        check(got == 2, "two senders of one action are refused");
        return;
    }
    let ts = components_to_transition_system(cs, "A || B");
    let (i, o) = (ts.get_input_actions(), ts.get_output_actions());
    reach("actions");
    for (act, l, r) in [("a", la, ra), ("b", lb, rb)] {
        check(o.contains(act) == or(l == 2, r == 2), "what one part sends the composition sends");
        check(i.contains(act) == and(!or(l == 2, r == 2), or(l == 1, r == 1)), "what parts only receive the composition receives");
    }
    check(i.len() + o.len() == ((la + ra > 0) as usize + (lb + rb > 0) as usize), "no other actions");
}
/// One part sends, the other answers: together they must fit a specification that counts from the start.
fn relay(full: bool) {
    let (a, b, c, d) = (int("a", 0, 6), int("b", 0, 6), int("c", 0, 6), int("d", 0, 6));
    let (r, s) = (int("r", 0, 14), int("s", 0, 14));
    let (p, q) = if full { (int("p", 0, 6), int("q", 0, 6)) } else { (0, 6) };
    let left = comp("A", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "m!", Some(within("x", a, b)), vec![set("x", 0)])]);
    let right = comp("B", &["z"], vec![loc("K0", None), loc("K1", None), loc("K2", None)], vec![
        edge("F0", "K0", "K1", "m?", None, vec![set("z", 0)]), edge("F1", "K1", "K2", "o!", Some(within("z", c, d)), vec![])]);
    let spec = comp("T", &["u"], vec![loc("J0", None), loc("J1", None), loc("J2", None)], vec![
        edge("G0", "J0", "J1", "m!", Some(within("u", p, q)), vec![]), edge("G1", "J1", "J2", "o!", Some(within("u", r, s)), vec![])]);
    let got = yes(&[left, right, spec], if split("order") { "refinement: A || B <= T" } else { "refinement: B || A <= T" });
    reach("relay");
    let second = or(c > d, and(r <= a + c, b + d <= s));
    check(got == or(a > b, and(and(p <= a, b <= q), second)), "the parts meet on the shared action");
}
/// Actions of one part leave the other one alone; both orders happen.
fn interleave() {
    let (a, b, c, d, m) = (int("a", 0, 9), int("b", 0, 9), int("c", 0, 9), int("d", 0, 9), int("m", 0, 9));
    let left = comp("A", &["x"], vec![loc("L0", None), loc("L1", None), loc("L2", None)], vec![edge("E0", "L0", "L1", "p!", Some(within("x", a, b)), vec![]), edge("E1", "L1", "L2", "s!", Some(cmp("x", ">=", m)), vec![])]);
    let right = comp("B", &["x"], vec![loc("K0", None), loc("K1", None)], vec![edge("F0", "K0", "K1", "q!", Some(within("x", c, d)), vec![])]);
    let form = choose("form", 3);
    let q = ["reachability: A || B @ init -> A.L1 && B.K1", "reachability: A || B @ init -> A.L2 && B.K0", "reachability: B || A @ init -> A.L2 && B.K1"][form];
    let got = yes(&[left, right], q);
    reach("interleave");
    let (l, r) = (a <= b, c <= d);
    check(got == match form { 0 => and(l, r), 1 => l, _ => and(l, r) }, "parts move on their own");
}
/// An invariant of either part stops time for both.
fn invariants() {
    let (i, j, a, c) = (int("i", 0, 9), int("j", 0, 9), int("a", 0, 9), int("c", 0, 9));
    let left = comp("A", &["x"], vec![loc("L0", Some(cmp("x", "<=", i))), loc("L1", None)], vec![edge("E0", "L0", "L1", "p!", Some(cmp("x", ">=", a)), vec![])]);
    let right = comp("B", &["x"], vec![loc("K0", Some(cmp("x", "<=", j))), loc("K1", None)], vec![edge("F0", "K0", "K1", "q!", Some(cmp("x", ">=", c)), vec![])]);
    let goal = split("both");
    let got = yes(&[left, right], if goal { "reachability: A || B @ init -> A.L1 && B.K1" } else { "reachability: A || B @ init -> A.L1 && B.K0" });
    reach("invariants");
    let alone = and(a <= i, a <= j);
    check(got == if goal { and(and(a <= i, c <= j), or(a <= j, c <= i)) } else { alone }, "time passes for all parts alike");
}
/// A receiver in a receiver's place: one sender moves two others at once.
fn broadcast() {
    let (a, h, k, m) = (int("a", 0, 9), int("h", 0, 9), int("k", 0, 9), int("m", 0, 9));
    let mk = |name: &str, g: i32| comp(name, &["z"], vec![loc("K0", None), loc("K1", None)], vec![edge("F0", "K0", "K1", "m?", Some(cmp("z", "<=", g)), vec![])]);
    let left = comp("A", &["x"], vec![loc("L0", Some(cmp("x", "<=", m))), loc("L1", None)], vec![edge("E0", "L0", "L1", "m!", Some(cmp("x", ">=", a)), vec![])]);
    let sys = ["A || B || C", "A || (B || C)", "B || A || C", "B || C || A"][choose("shape", 4)];
    let form = choose("goal", 3);
    let goal = ["B.K1 && C.K1", "B.K1 && C.K0 && A.L1", "B.K0 && C.K0 && A.L1"][form];
    let got = yes(&[left, mk("B", h), mk("C", k)], &format!("reachability: {} @ init -> {}", sys, goal));
    reach("broadcast");
    // sent at some t in a..m; who is ready then moves
    let want = match form {
        0 => and(a <= m, and(a <= h, a <= k)),
        1 => and(and(a <= h, a <= m), and(k < h, k < m)),
        _ => and(a <= m, and(max(h, k) < m, true)),
    };
    check(got == want, "everyone ready receives");
}
harness! {
    h_c11_actions => actions();
    h_c11_relay => relay(false);
    h_c11_relay_full => relay(true);
    h_c11_interleave => interleave();
    h_c11_invariants => invariants();
    h_c11_broadcast => broadcast();
}
