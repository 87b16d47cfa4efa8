//! C32: a state in a reachability query means exactly what it says.
use crate::common::*;
use crate::vp::*;
use crate::ModelObjects::Component;

const D: [&str; 4] = ["d0", "d1", "d2", "d3"];
fn digit(k: usize) -> (i64, String) {
    let s = chr(D[k], b'0', b'9');
    ((s.as_bytes()[0] - b'0') as i64 * 2, s)
}
/// A condition on the clocks: its text, and its truth at doubled clock values.
struct Cond { text: String, at: Box<dyn Fn(i64, i64) -> bool>, points: Vec<i64> }
fn atom(k: usize, clocks: usize) -> Cond {
    let (d, s) = digit(k);
    let what = choose("what", if clocks == 2 { 3 } else { 1 });
    let left = ["C.x", "C.y", "C.x - C.y"][what];
    let value = move |x: i64, y: i64| match what { 0 => x, 1 => y, _ => x - y };
    match choose("compare", 5) {
        0 => Cond { text: format!("{} <= {}", left, s), at: Box::new(move |x, y| value(x, y) <= d), points: vec![d] },
        1 => Cond { text: format!("{} >= {}", left, s), at: Box::new(move |x, y| value(x, y) >= d), points: vec![d] },
        2 => Cond { text: format!("{} == {}", left, s), at: Box::new(move |x, y| value(x, y) == d), points: vec![d] },
        3 => Cond { text: format!("{} < {}", left, s), at: Box::new(move |x, y| value(x, y) < d), points: vec![d] },
        _ => Cond { text: format!("{} > {}", left, s), at: Box::new(move |x, y| value(x, y) > d), points: vec![d] },
    }
}
fn tree(depth: usize, k: &mut usize, clocks: usize) -> Cond {
    let kind = if depth == 0 { 0 } else { choose("kind", 4) };
    match kind {
        0 => { *k += 1; atom(*k - 1, clocks) }
        1 => { let c = tree(depth - 1, k, clocks); let at = c.at; Cond { text: format!("!({})", c.text), at: Box::new(move |x, y| !at(x, y)), points: c.points } }
        _ => {
            let (l, r) = (tree(depth - 1, k, clocks), tree(0, k, clocks));
            let (f, g, conj) = (l.at, r.at, kind == 2);
            let mut points = l.points;
            points.extend(r.points);
            Cond { text: format!("({} {} {})", l.text, if conj { "&&" } else { "||" }, r.text), at: Box::new(move |x, y| if conj { and(f(x, y), g(x, y)) } else { or(f(x, y), g(x, y)) }), points }
        }
    }
}
fn state(c: &Cond, location: usize) -> String {
    match location { 0 => c.text.clone(), 1 => format!("C.L0 && {}", c.text), _ => format!("{} && C.L1", c.text) }
}
/// One clock: L1 is entered at a or later. A target is reached iff some reachable state satisfies it.
fn target(depth: usize) {
    let a = int("a", 0, 9);
    let mut k = 0;
    let c = tree(depth, &mut k, 1);
    let location = choose("location", 3);
    let comp = comp("C", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "o!", Some(cmp("x", ">=", a)), vec![])]);
    let got = verdict(&ask(&[comp], &format!("reachability: C @ init -> {}", state(&c, location))));
    observe(got);
    reach("target");
    let a = 2 * a as i64;
    let mut points = c.points.clone();
    points.extend([0, a]);
    let mut want = false;
    for p in points {
        for q in [p - 1, p, p + 1] {
            want = or(want, and(and(q >= 0, or(location != 2, q >= a)), (c.at)(q, q)));
        }
    }
    check(got == want as u64, "a state is reached iff one that fits the description is");
}
/// The description of the start state is taken as it is.
fn start(depth: usize) {
    let a = int("a", 0, 9);
    let mut k = 0;
    let c = tree(depth, &mut k, 1);
    let comp = comp("C", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "o!", Some(cmp("x", "<=", a)), vec![])]);
    let got = verdict(&ask(&[comp], &format!("reachability: C @ C.L0 && {} -> C.L1", c.text)));
    observe(got);
    reach("start");
    let a = 2 * a as i64;
    let mut points = c.points.clone();
    points.push(0);
    points.push(a);
    let mut want = false;
    let mut any = false;
    for p in points {
        for q in [p - 1, p, p + 1] {
            let here = and(q >= 0, (c.at)(q, q));
            any = or(any, here);
            want = or(want, and(here, q <= a));
        }
    }
    // a description no state fits is refused or leads nowhere
    check(or((got == 1) == want, and(!any, got != 1)), "the way starts at a state that fits the description");
}
/// Two clocks, one of them reset on the way: their values and difference are told apart.
fn clocks() {
    let mut k = 0;
    let c = tree(1, &mut k, 2);
    let (a, b) = (3, 5);
    let comp = comp("C", &["x", "y"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "o!", Some(and_(cmp("x", ">=", a), cmp("x", "<=", b))), vec![set("y", 0)])]);
    let got = verdict(&ask(&[comp], &format!("reachability: C @ init -> C.L1 && {}", c.text)));
    observe(got);
    reach("clocks");
    // y is any time, x - y any value from a to b
    let mut want = false;
    let mut shifts = vec![6, 7, 8, 9, 10];
    shifts.dedup();
    for s in shifts {
        for y in 0..=21 {
            want = or(want, (c.at)(y + s, y));
        }
    }
    check(got == want as u64, "a state is reached iff one that fits the description is");
}
/// Parts are told apart by name and number.
fn parts() {
    let (a, b) = (int("a", 0, 9), int("b", 0, 9));
    let (d, s) = digit(0);
    let c = comp("C", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "o!", Some(cmp("x", ">=", a)), vec![])]);
    let e = comp("E", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "p!", Some(cmp("x", ">=", b)), vec![])]);
    let (a, b) = (2 * a as i64, 2 * b as i64);
    let (sys, to, want) = match choose("question", 7) {
        0 => ("C || E", format!("C.L1 && E.x <= {}", s), a <= d),
        1 => ("C || E", format!("E.L1 && C.L0 && C.x < {}", s), b < d),
        2 => ("C[1] && C[2]", format!("C[1].L1 && C[2].x <= {}", s), a <= d),
        3 => ("E || C", format!("C.L1 && E.L1 && C.x - E.x < {} && C.x <= {}", s, s), and(d > 0, and(a <= d, b <= d))),
        5 => ("C && C[2]", format!("C[2].L0 && C.L1 && C.x <= {}", s), false),
        4 => ("C[1] && C[2]", format!("C[1].L1 && C[2].L0 && C[1].x <= {}", s), false),
        _ => ("E || C", format!("C.L1 && C.L1 && C.x <= {}", s), a <= d),
    };
    let got = verdict(&ask(&[c, e], &format!("reachability: {} @ init -> {}", sys, to)));
    observe(got);
    reach("parts");
    check(got == want as u64, "conditions apply to the part they name");
}
/// In a quotient a location of the parts is not the place where anything is allowed or nothing is.
fn quotient() {
    let (a, b, c, d) = (int("a", 0, 9), int("b", 0, 9), int("c", 0, 9), int("d", 0, 9));
    let t = comp("T", &["u"], vec![loc("J0", None), loc("J1", None)], vec![edge("G0", "J0", "J1", "m!", Some(and_(cmp("u", ">=", a), cmp("u", "<=", b))), vec![]), edge("G1", "J1", "J1", "o!", None, vec![])]);
    let s = comp("S", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "m!", Some(and_(cmp("x", ">=", c), cmp("x", "<=", d))), vec![])]);
    let both = and(and(a <= b, c <= d), and(a <= d, c <= b));
    let (to, want) = match choose("question", 5) {
        0 => ("T.J1", both),
        1 => ("S.L1", both),
        2 => ("T.J1 && S.L0", false),
        3 => ("T.J1 && S.L1 && S.x < 4", and(both, and(a < 4, c < 4))),
        _ => ("T.J0 && S.L1", false),
    };
    let got = verdict(&ask(&[t, s], &format!("reachability: T // S @ init -> {}", to)));
    observe(got);
    reach("quotient");
    check(got == want as u64, "a named location is that location only");
}
/// Descriptions that cannot be right are refused with an error.
fn refused() {
    let c = comp("C", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "o!", None, vec![])]);
    let e = comp("E", if split("clock") { &["x"] } else { &[] }, vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "p!", None, vec![])]);
    let q = [
        "C @ init -> C.L7", "C @ init -> E.L1", "C @ init -> C[1].L1", "C @ init -> C.L1 && C.L0", "C @ init -> C.z <= 3", "C @ init -> E.x <= 3", "C @ init -> C.L0 || C.L1",
        "C @ init -> C.L1 || C.x <= 3", "C @ init -> !C.L1", "C @ init -> C.x <= 3 && !(C.x >= 1 && C.L1)", "C || E @ C.L0 -> E.L1", "C @ C.x <= 3 -> C.L1", "E && E @ init -> E.L1",
        "E[1] && E[1] @ init -> E[1].L1", "C[1] || E @ init -> C.L1", "C || E @ E.L0 && C.L1 && C.L0 -> C.L1",
    ][choose("question", 16)];
    let cs: [Component; 2] = [c, e];
    reach("refused");
    check(verdict(&ask(&cs, &format!("reachability: {}", q))) == 2, "a description that cannot be right is refused");
}
harness! {
    h_c32_quotient => quotient();
    h_c32_target => target(1);
    h_c32_target_deep => target(2);
    h_c32_start => start(1);
    h_c32_clocks => clocks();
    h_c32_parts => parts();
    h_c32_refused => refused();
}
