//! C16: consistency verdicts.
use crate::common::*;
use crate::vp::*;
use crate::ModelObjects::Component;

fn within(x: &str, a: i32, b: i32) -> crate::ModelObjects::Expressions::BoolExpression { and_(cmp(x, ">=", a), cmp(x, "<=", b)) }
fn min(a: i32, b: i32) -> i32 { if a < b { a } else { b } }
fn consistent(c: Component) -> bool {
    let r = ask(&[c], "consistency: C");
    let got = verdict(&r);
    observe(got);
    check(got != 2, "the query is answered");
    got == 1
}
/// One location that must be left in time, over and over.
fn single() {
    let (a, b, i) = (int("a", 0, 9), int("b", 0, 9), int("i", 0, 9));
    let (sa, sb, si) = (split("sa"), split("sb"), split("si"));
    let c = comp("C", &["x"], vec![loc("L", Some(cmp("x", if si { "<" } else { "<=" }, i)))], vec![
        edge("E", "L", "L", "o!", Some(and_(cmp("x", if sa { ">" } else { ">=" }, a), cmp("x", if sb { "<" } else { "<=" }, b))), vec![set("x", 0)])]);
    let got = consistent(c);
    reach("single");
    // the output happens at some x within the guard and the invariant, which holds at 0 after it
    let window = and(if sa || sb { a < b } else { a <= b }, if sa || si { a < i } else { a <= i });
    check(got == and(window, if si { 0 < i } else { true }), "a location that must be left can be left");
}
/// Two locations in a row, clocks reset or not.
fn chain() {
    let (a, b, i, c0, j) = (int("a", 0, 9), int("b", 0, 9), int("i", 0, 9), int("c", 0, 9), int("j", 0, 9));
    let (reset, urgent) = (split("reset"), split("first must be left"));
    let c = comp("C", &["x"], vec![loc("L0", if urgent { Some(cmp("x", "<=", i)) } else { None }), loc("L1", Some(cmp("x", "<=", j))), loc("L2", None)], vec![
        edge("E0", "L0", "L1", "o!", Some(within("x", a, b)), if reset { vec![set("x", 0)] } else { vec![] }),
        edge("E1", "L1", "L2", "p!", Some(cmp("x", ">=", c0)), vec![])]);
    let got = consistent(c);
    reach("chain");
    let step = and(a <= b, if urgent { a <= i } else { true });
    let arrive = if reset { true } else { a <= j };
    check(got == if urgent { and(and(step, arrive), c0 <= j) } else { true }, "a way on is followed to its end");
}
/// The environment may force the component into a location at any time it likes.
fn forced() {
    let (g, c0, d, j) = (int("g", 0, 9), int("c", 0, 9), int("d", 0, 9), int("j", 0, 9));
    let reset = split("reset");
    let c = comp("C", &["x"], vec![loc("L0", None), loc("L1", Some(cmp("x", "<=", j))), loc("L2", None)], vec![
        edge("E0", "L0", "L1", "a?", Some(cmp("x", ">=", g)), if reset { vec![set("x", 0)] } else { vec![] }),
        edge("E1", "L1", "L2", "p!", Some(cmp("x", ">=", c0)), vec![]),
        edge("E2", "L1", "L2", "q!", Some(cmp("x", ">", d)), vec![])]);
    let got = consistent(c);
    reach("forced");
    let entered = if reset { true } else { g <= j };
    check(got == or(!entered, or(c0 <= j, d < j)), "every input leaves a way on");
}
/// Some ways on lead to a location that is stuck.
fn stuck() {
    let (a, b, k, i) = (int("a", 0, 9), int("b", 0, 9), int("k", 0, 9), int("i", 0, 9));
    let form = choose("form", 4);
    // B is stuck: its invariant ends at k and it has no outputs
    let mut edges = vec![
        edge("E0", "L0", "B", "o!", Some(cmp("x", "<=", a)), vec![]),
        edge("E1", "L0", if form == 0 { "B" } else { "M" }, "p!", Some(cmp("x", ">=", b)), vec![])];
    match form {
        1 => edges.push(edge("E2", "M", "B", "a?", None, vec![])),
        2 => edges.push(edge("E2", "M", "B", "q!", None, vec![])),
        _ => {}
    }
    let c = comp("C", &["x"], vec![loc("L0", Some(cmp("x", "<=", i))), loc("B", Some(cmp("x", "<=", k))), loc("M", if form == 2 { Some(cmp("x", "<=", 9)) } else { None })], edges);
    let got = consistent(c);
    reach("stuck");
    let p = b <= i;
    let want = match form {
        0 => false,                         // every output leads to B
        1 => and(p, b > k),                 // in M the input leads to B while x <= k
        2 => false,                         // M must be left, only towards B
        _ => p,                             // M can stay
    };
    check(got == want, "a way on that ends stuck does not count");
}
/// Rounds: a clock that is never reset ends the loop.
fn rounds() {
    let (p, k) = (1 + choose("p", 3) as i32, int("k", 0, 9));
    let c = comp("C", &["x", "y"], vec![loc("L0", Some(cmp("x", "<=", p))), loc("L1", None)], vec![
        edge("E0", "L0", "L0", "o!", Some(and_(cmp("x", ">=", p), cmp("y", "<", k))), vec![set("x", 0)]),
        edge("E1", "L0", "L1", "r!", Some(and_(cmp("x", "<", p), cmp("y", ">", k))), vec![])]);
    let got = consistent(c);
    reach("rounds");
    // after n rounds y - x = n*p; a round more only while (n+1)*p < k; then r needs n*p + x > k with x < p
    let mut want = false;
    for n in 0..10 {
        // n rounds are possible when n = 0 or n*p < k
        let can = if n == 0 { true } else { n * p < k };
        want = or(want, and(can, (n + 1) * p > k));
    }
    check(got == want, "every round leaves a way on");
}
/// A component that is not deterministic is not consistent either.
fn ambiguous() {
    let (a, b, c0, d) = (int("a", 0, 9), int("b", 0, 9), int("c", 0, 9), int("d", 0, 9));
    let c = comp("C", &["x"], vec![loc("L0", None), loc("L1", None)], vec![
        edge("E0", "L0", "L0", "o!", Some(within("x", a, b)), vec![]), edge("E1", "L0", "L1", "o!", Some(within("x", c0, d)), vec![])]);
    let got = consistent(c);
    reach("ambiguous");
    let (lo, hi) = (if a < c0 { c0 } else { a }, min(b, d));
    check(got == (lo > hi), "two edges for one action at one time");
}
/// No initial state: the invariant of the first location never holds.
fn empty() {
    let (i, j) = (int("i", 0, 9), int("j", 0, 9));
    let c = comp("C", &["x"], vec![loc("L0", Some(and_(cmp("x", "<", i), cmp("x", "<=", j))))], vec![edge("E0", "L0", "L0", "o!", None, vec![set("x", 0)])]);
    let got = consistent(c);
    reach("empty");
    check(got == (i > 0), "a component without an initial state is not consistent");
}
/// As `forced`, but the way on closes: whoever comes too late is stuck.
fn late() {
    let (g, d, j) = (int("g", 0, 9), int("d", 0, 9), int("j", 0, 9));
    let c = comp("C", &["x"], vec![loc("L0", None), loc("L1", Some(cmp("x", "<=", j))), loc("L2", None)], vec![
        edge("E0", "L0", "L1", "a?", Some(cmp("x", ">=", g)), vec![]), edge("E1", "L1", "L2", "p!", Some(cmp("x", "<=", d)), vec![])]);
    let got = consistent(c);
    reach("late");
    let want = or(g > j, d >= j);
    // known: an input that comes too late for every output is overlooked when some earlier one is in time
    if and(g <= d, d < j) { check(got == want, "an input that comes too late for the last output"); } else { check(got == want, "every input in time leaves a way on"); }
}
/// A composition is consistent when its parts are, and so is a quotient.
fn combined() {
    let (a, b, i) = (int("a", 0, 9), int("b", 0, 9), int("i", 0, 9));
    let (c, d, j) = (int("c", 0, 9), int("d", 0, 9), int("j", 0, 9));
    let form = choose("system", 5);
    let part = |name: &str, o: &str, a: i32, b: i32, i: i32| comp(name, &["x"], vec![loc("L0", Some(cmp("x", "<=", i))), loc("L1", None)], vec![edge("E", "L0", "L1", o, Some(within("x", a, b)), vec![])]);
    let free = comp("C", &["z"], vec![loc("M", None)], vec![edge("F", "M", "M", "r!", None, vec![])]);
    let cs = [part("A", "o!", a, b, i), part("B", if form == 2 { "o!" } else { "p!" }, c, d, j), free];
    let got = verdict(&ask(&cs, ["consistency: A || B", "consistency: B || C || A", "consistency: A // B", "consistency: (A || B) // C", "consistency: C // (A || B)"][form]));
    observe(got);
    reach("combined");
    check((got == 1) == and(and(a <= b, a <= i), and(c <= d, c <= j)), "a combined system is consistent when every part is");
}
/// One action with a window for each of several edges: every input window must leave a way on, one output window that does is enough.
fn branches() {
    let (a, b, i) = (int("a", 0, 9), int("b", 0, 9), int("i", 0, 9));
    let (input, first, reset) = (split("input"), split("bad one first"), split("reset"));
    let s = if input { "a?" } else { "o!" };
    // B is stuck, G is not
    let mut edges = vec![
        edge("E0", "L0", "B", s, Some(within("x", a, b)), if reset { vec![set("x", 0)] } else { vec![] }),
        edge("E1", "L0", "G", s, Some(cmp("x", ">", b)), vec![])];
    if !first { edges.swap(0, 1); }
    let c = comp("C", &["x"], vec![loc("L0", if input { None } else { Some(cmp("x", "<=", i)) }), loc("B", Some(cmp("x", "<=", 9))), loc("G", None)], edges);
    let got = consistent(c);
    reach("branches");
    check(got == if input { a > b } else { b < i }, "every window of an action counts");
}
/// Two rounds of choices: the good window of the first action leads to a second choice, whose good window may come too late.
fn choices() {
    let (a, b, i, j) = (int("a", 0, 9), int("b", 0, 9), int("i", 0, 9), int("j", 0, 9));
    let (order, input) = (split("order"), split("input"));
    let mut edges = vec![
        edge("E0", "L0", "B", "o!", Some(cmp("x", "<=", a)), vec![]),
        edge("E1", "L0", "L1", "o!", Some(cmp("x", ">", a)), vec![]),
        edge("E2", "L1", "B", "p!", Some(cmp("x", "<", b)), vec![]),
        edge("E3", "L1", if input { "L2" } else { "G" }, "p!", Some(cmp("x", ">=", b)), vec![]),
        edge("E4", "L2", "B", "a?", Some(cmp("x", "<=", 6)), vec![]),
        edge("E5", "L2", "G", "a?", Some(cmp("x", ">", 6)), vec![])];
    if order { edges.reverse(); }
    let c = comp("C", &["x"], vec![loc("L0", Some(cmp("x", "<=", i))), loc("L1", Some(cmp("x", "<=", j))), loc("L2", None), loc("B", Some(cmp("x", "<=", 9))), loc("G", None)], edges);
    let got = consistent(c);
    reach("choices");
    // o at some x in (a, i] with x <= j, then p at some x >= b up to j; L2 is only safe after 6: whole zones count, as in `late`
    let step = and(a < i, and(a < j, b <= j));
    if input {
        // p may be chosen late enough
        check(or(!got, step), "no way on without both steps");
        // in L2 the input comes at once or later: safe only if p can come after 6
        check(or(!and(step, or(b > 6, a >= 6)), got), "choices in a row leave a way on");
    } else {
        check(got == step, "choices in a row leave a way on");
    }
}
harness! {
    h_c16_branches => branches();
    h_c16_choices => choices();
    h_c16_combined => combined();
    h_c16_late => late();
    h_c16_single => single();
    h_c16_chain => chain();
    h_c16_forced => forced();
    h_c16_stuck => stuck();
    h_c16_rounds => rounds();
    h_c16_ambiguous => ambiguous();
    h_c16_empty => empty();
}
