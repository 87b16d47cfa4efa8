//! C20: a pruned system can stand in for the system it was pruned from.
use crate::common::*;
use crate::vp::*;
use crate::ModelObjects::Component;
use crate::ModelObjects::Expressions::BoolExpression as B;
use crate::System::query_failures::QueryResult;

fn within(x: &str, a: i32, b: i32) -> B { and_(cmp(x, ">=", a), cmp(x, "<=", b)) }
fn prune(c: &[Component], system: &str, reduce: bool) -> Component {
    match ask_with(c, &format!("prune: {} save-as Saved", system), reduce) {
        Ok(QueryResult::GetComponent(s)) => {
            let ids: Vec<&String> = s.locations.iter().map(|l| &l.id).collect();
            check(s.edges.iter().all(|e| ids.contains(&&e.source_location) && ids.contains(&&e.target_location)), "its edges join its locations");
            check(s.name == "Saved", "the pruned component has the given name");
            s
        }
        _ => { check(false, "the system is pruned"); unreachable!() }
    }
}
/// The pruned system and the original refine each other.
fn same(mut c: Vec<Component>, system: &str, reduce: bool, name: &'static str) {
    let s = prune(&c, system, reduce);
    c.push(s);
    let there = verdict(&ask(&c, &format!("refinement: Saved <= {}", system)));
    let back = verdict(&ask(&c, &format!("refinement: {} <= Saved", system)));
    observe(there + 3 * back);
    reach(name);
    check(there == 1, "the pruned system refines the original");
    check(back == 1, "the original refines the pruned system");
}
/// A consistent system is as good as its pruned form.
fn single() {
    let a = int("a", 0, 6);
    let b = if split("window") { a } else { 6 };
    let c = comp("C", &["x", "y"], vec![loc("L0", None), loc("L1", Some(cmp("x", "<=", 5))), loc("L2", None)], vec![
        edge("E0", "L0", "L1", "m?", Some(within("x", a, b)), vec![set("x", 0)]),
        edge("E1", "L1", "L2", "o!", Some(cmp("y", ">=", a)), vec![]),
        edge("E2", "L2", "L2", "p!", Some(cmp("x", ">=", 3)), vec![set("x", 0)])]);
    same(vec![c], "C", split("reduce"), "single");
}
fn combined() {
    let (a, b) = (int("a", 0, 6), int("b", 0, 6));
    let p = comp("A", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "o!", Some(cmp("x", "<=", a)), vec![set("x", 0)])]);
    let q = comp("B", &["x"], vec![loc("L0", None), loc("L1", Some(cmp("x", "<=", 7)))], vec![edge("E0", "L0", "L1", "o?", Some(cmp("x", ">=", b)), vec![]), edge("E1", "L1", "L0", "p!", None, vec![set("x", 0)])]);
    let r = comp("D", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "o!", Some(cmp("x", ">=", b)), vec![])]);
    assume(b <= a);
    let sys = ["A || B", "A && D"][choose("system", 2)];
    same(vec![p, q, r], sys, split("reduce"), "combined");
}
/// The quotient's errors are avoided.
fn quotient() {
    let (b, c, d, e) = (int("b", 0, 6), int("c", 0, 6), 4, int("e", 0, 6));
    let t = comp("T", &["x"], vec![loc("J0", None), loc("J1", None), loc("J2", None)], vec![
        edge("G0", "J0", "J1", "m!", None, vec![set("x", 0)]), edge("G1", "J1", "J2", "o!", Some(cmp("x", "<=", b)), vec![])]);
    let s = comp("S", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "m!", Some(within("x", c, d)), vec![])]);
    let x = comp("X", &["x"], vec![loc("K0", None), loc("K1", None), loc("K2", None)], vec![edge("F0", "K0", "K1", "m?", None, vec![set("x", 0)]), edge("F1", "K1", "K2", "o!", Some(cmp("x", "<=", e)), vec![])]);
    let saved = prune(&[t.clone(), s.clone()], "T // S", split("reduce"));
    let cs = [t, s, x, saved];
    let one = verdict(&ask(&cs, "refinement: X <= T // S"));
    let two = verdict(&ask(&cs, "refinement: X <= Saved"));
    observe(one + 3 * two);
    reach("quotient");
    check(one == two, "the pruned quotient gets the verdict of the original");
}
/// What the known part does too early or too late cannot be mended.
fn mistakes() {
    let (p, q, a, b) = (2, 4, int("a", 0, 6), int("b", 0, 6));
    assume(or(a < b, b < a));
    let t = comp("T", &["u"], vec![loc("J0", None), loc("J1", None)], vec![edge("G0", "J0", "J1", "m!", Some(within("u", p, q)), vec![]), edge("G1", "J1", "J1", "o!", None, vec![])]);
    let s = comp("S", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "m!", Some(within("x", a, b)), vec![])]);
    let from = if split("answers") { "K1" } else { "K2" };
    let x = comp("X", &["z"], vec![loc("K0", None), loc("K1", None), loc("K2", None)], vec![edge("F0", "K0", "K1", "m?", None, vec![]), edge("F1", from, "K1", "o!", None, vec![])]);
    let saved = prune(&[t.clone(), s.clone()], "T // S", false);
    let cs = [t, s, x, saved];
    let two = verdict(&ask(&cs, "refinement: X <= Saved"));
    observe(two);
    reach("mistakes");
    check((two == 1) == or(a > b, and(p <= a, b <= q)), "the pruned quotient gets the verdict of the original");
}
/// What the known part may do wrong must be prevented in time.
fn prevented() {
    let (reset, never) = (split("reset"), split("never right"));
    let (p, k) = (if never { 0 } else { int("p", 0, 6) }, int("k", 0, 6));
    let (a, b) = (if never { int("a", 0, 6) } else { 2 }, 4);
    let g = if never { int("g", 0, 6) } else { 0 };
    assume(g <= k);
    let mut et = vec![edge("G1", "J0", "J1", "o!", None, vec![]), edge("G2", "J1", "J1", "m!", None, vec![]), edge("G3", "J2", "J2", "o!", None, vec![]), edge("G4", "J2", "J2", "m!", None, vec![])];
    if !never { et.push(edge("G0", "J0", "J2", "m!", Some(cmp("u", ">=", p)), vec![])); }
    let t = comp("T", &["u"], vec![loc("J0", None), loc("J1", None), loc("J2", None)], et);
    let s = comp("S", &["x"], vec![loc("L0", None), loc("L1", None)], vec![
        edge("E0", "L0", "L1", "m!", Some(if never { cmp("x", ">=", a) } else { within("x", a, b) }), vec![]), edge("E1", "L0", "L1", "o?", None, if reset { vec![set("x", 0)] } else { vec![] }), edge("E2", "L1", "L1", "o?", None, vec![])]);
    let x = comp("X", &["z"], vec![loc("K0", Some(cmp("z", "<=", k))), loc("K1", None)], vec![
        edge("F0", "K0", "K1", "o!", Some(cmp("z", ">=", g)), vec![]), edge("F1", "K0", "K1", "m?", None, vec![])]);
    let saved = prune(&[t.clone(), s.clone()], "T // S", false);
    let cs = [t, s, x, saved];
    let one = verdict(&ask(&cs, "refinement: X <= T // S"));
    let two = verdict(&ask(&cs, "refinement: X <= Saved"));
    observe(one + 3 * two);
    reach("prevented");
    let want = if never { k < a } else { or(a > b, or(p <= a, k < a)) };
    check((one == 1) == want, "the quotient asks to prevent the mistake");
    if !never && two == 1 && !want { check(false, "a mistake in the middle of the time the known part has"); }
    check((two == 1) == want, "the pruned quotient asks to prevent the mistake");
}
/// The same one step later; the step resets other clocks or this one.
fn prevented_later() {
    let reset = split("reset");
    let (a, g) = (if reset { int("a", 0, 5) } else { [0, 3][choose("a", 2)] }, 0);
    let idle = split("idle"); // the missing part does nothing
    let (k, f, h) = if idle && reset { (0, 0, [0, 2][choose("h", 2)]) } else if reset { (int("k", 0, 5), choose("f", 2) as i32, [0, 2][choose("h", 2)]) } else { ([0, 2][choose("k", 2)], 0, int("h", 0, 4)) };
    let t = comp("T", &["u"], vec![loc("J0", None), loc("J1", None), loc("J2", None)], vec![
        edge("G0", "J0", "J1", "n!", None, vec![set("u", 0)]), edge("G1", "J1", "J2", "o!", None, vec![]), edge("G2", "J2", "J2", "m!", None, vec![])]);
    let s = comp("S", &["x", "y"], vec![loc("L0", None), loc("L1", None), loc("L2", None)], vec![
        edge("E0", "L0", "L1", "n!", Some(within("y", f, h)), vec![set(if reset { "x" } else { "y" }, 0)]), edge("E1", "L1", "L2", "m!", Some(cmp("x", ">=", a)), vec![]), edge("E2", "L2", "L2", "m!", None, vec![]), edge("E3", "L1", "L2", "o?", None, vec![])]);
    let x = comp("X", &["z"], vec![loc("K0", None), loc("K1", if idle { None } else { Some(cmp("z", "<=", k)) }), loc("K2", None)], vec![
        edge("F0", "K0", "K1", "n?", None, vec![set("z", 0)]), edge("F1", if idle { "K2" } else { "K1" }, "K2", "o!", Some(cmp("z", ">=", g)), vec![]), edge("F2", "K1", "K2", "m?", None, vec![])]);
    let twice = |ups: Vec<crate::DataReader::parse_edge::Update>| if reset && h == 2 { let mut v = vec![set(&ups[0].variable, 1)]; v.extend(ups); v } else { ups };
    let (mut t, mut s) = (t, s);
    t.edges[0].update = t.edges[0].update.take().map(twice);
    s.edges[0].update = s.edges[0].update.take().map(twice);
    let saved = prune(&[t.clone(), s.clone()], "T // S", false);
    let cs = [t, s, x, saved];
    let one = verdict(&ask(&cs, "refinement: X <= T // S"));
    let two = verdict(&ask(&cs, "refinement: X <= Saved"));
    observe(one + 3 * two);
    reach("later");
    let want = or(f > h, and(!idle, if reset { k < a } else { h + k < a }));
    check((one == 1) == want, "the quotient asks to prevent the mistake");
    check((two == 1) == want, "the pruned quotient asks to prevent the mistake");
}
/// Deadlines that the missing part has to keep.
fn deadlines(form: usize) {
    let (i, j, k) = (int("i", 0, 9), int("j", 0, 9), int("k", 0, 9));
    let t = comp("T", &["u"], vec![loc("J0", Some(cmp("u", "<=", j))), loc("J1", None)], vec![
        edge("G0", "J0", "J1", "m!", None, vec![]), edge("G1", "J0", "J1", "o!", None, vec![]), edge("G2", "J1", "J1", "m!", None, vec![]), edge("G3", "J1", "J1", "o!", None, vec![])]);
    let s = comp("S", &["x"], vec![loc("L0", if form != 1 { Some(cmp("x", "<=", i)) } else { None }), loc("L1", None)], vec![
        edge("E0", "L0", "L1", "m!", None, vec![]), edge("E1", "L1", "L1", "m!", None, vec![])]);
    let x = comp("X", &["z"], vec![loc("K0", if form != 0 { Some(cmp("z", "<=", k)) } else { None }), loc("K1", None)], vec![
        edge("F0", "K0", "K1", "m?", None, vec![]), edge("F1", "K0", "K1", "o!", None, vec![]), edge("F2", "K1", "K1", "o!", None, vec![])]);
    let saved = prune(&[t.clone(), s.clone()], "T // S", split("reduce"));
    let cs = [t, s, x, saved];
    let two = verdict(&ask(&cs, "refinement: X <= Saved"));
    observe(two);
    reach("deadlines");
    let want = match form { 0 => i <= j, 1 => k <= j, _ => or(i <= j, k <= j) };
    if form != 1 && two == 1 && !want { check(false, "a deadline in the middle of the time the known part has"); }
    check((two == 1) == want, "the pruned quotient gets the verdict of the original");
}
/// A place that turns out wrong in two ways, found one after the other, and what leads there.
fn stages() {
    let (r, k, m) = (int("r", 0, 6), [1, 3][choose("k", 2)], [2, 3, 6][choose("m", 3)]);
    assume(and(r <= m, k <= m));
    // the order in which the tool meets the places hangs on their names
    let (a, b) = [("JQ", "J2"), ("J2", "JQ"), ("Bad", "Late"), ("q", "w")][choose("names", 4)];
    let free = |l: &'static str| ["i!", "j!", "e!", "o!", "p!"].map(|s| edge("G", l, l, s, None, vec![]));
    let mut et = vec![
        edge("G0", "J0", "JE", "e!", None, vec![]), edge("G1", "J0", "JP", "f?", Some(cmp("u", ">=", 2)), vec![]), edge("G2", "JP", a, "o!", Some(cmp("u", ">=", r)), vec![]),
        edge("G3", a, "JE", "p!", Some(cmp("u", "<=", 4)), vec![]), edge("G4", a, b, "j!", Some(cmp("u", ">=", 3)), vec![]), edge("G5", a, "JE", "j!", Some(cmp("u", "<", 3)), vec![]), edge("G6", a, "JE", "i!", Some(cmp("u", "<", 5)), vec![])];
    et.extend(free("JE"));
    let t = comp("T", &["u"], vec![loc("J0", None), loc("JP", Some(cmp("u", "<=", 7))), loc(a, None), loc(b, None), loc("JE", None)], et);
    let s = comp("S", &[], vec![loc("L0", None), loc("L1", None)], vec![
        edge("E0", "L0", "L1", "o?", None, vec![]), edge("E1", "L1", "L1", "i!", None, vec![]), edge("E2", "L1", "L1", "j!", None, vec![]), edge("E4", "L1", "L0", "p?", None, vec![])]);
    let x = comp("X", &["z", "y"], vec![loc("K0", Some(cmp("z", "<=", k))), loc("KP", Some(cmp("z", "<=", m))), loc("KQ", Some(cmp("y", "<=", 0))), loc("KE", None)], vec![
        edge("F0", "K0", "KE", "e!", None, vec![]), edge("F1", "K0", "KP", "f?", Some(cmp("z", ">=", 2)), vec![]), edge("F2", "KP", "KQ", "o!", Some(cmp("z", ">=", r)), vec![set("y", 0)]), edge("F3", "KQ", "KE", "p!", None, vec![]),
        edge("F4", "KQ", "KE", "i?", None, vec![]), edge("F5", "KQ", "KE", "j?", None, vec![])]);
    let saved = prune(&[t.clone(), s.clone()], "T // S", false);
    let cs = [t, s, x, saved];
    let sound = verdict(&ask(&cs, "consistency: Saved"));
    let one = verdict(&ask(&cs, "refinement: X <= T // S"));
    let two = verdict(&ask(&cs, "refinement: X <= Saved"));
    observe(one + 3 * two + 9 * sound);
    reach("stages");
    let want = or(k < 2, m < 3);
    check(sound == 1, "the pruned system is consistent");
    check((one == 1) == want, "the quotient asks to prevent the mistake");
    check((two == 1) == want, "the pruned quotient asks to prevent the mistake");
}
harness! {
    h_c20_stages => stages();
    h_c20_single => single();
    h_c20_combined => combined();
    h_c20_quotient => quotient();
    h_c20_mistakes => mistakes();
    h_c20_prevented => prevented();
    h_c20_prevented_later => prevented_later();
    h_c20_deadline => deadlines(1);
    h_c20_deadlines => deadlines(0);
    h_c20_deadlines_both => deadlines(2);
}
