//! C18: reachability verdicts are exact and the reported path can be walked.
use crate::common::*;
use crate::vp::*;
use crate::ModelObjects::{Component, SyncType};
use crate::System::query_failures::QueryResult;
use crate::System::specifics::{SpecificLocation, SpecificPath};

fn here(l: &SpecificLocation, name: &str) -> String {
    match l {
        SpecificLocation::ComponentLocation { comp, location_id } if comp.name == name => location_id.clone(),
        SpecificLocation::BranchLocation(a, b, _) => {
            let x = here(a, name);
            if x.is_empty() { here(b, name) } else { x }
        }
        _ => String::new(),
    }
}
/// The ids of one component's edges along the path; checks that they form a walk from its first location.
fn walk(p: &SpecificPath, c: &Component, from: &str) -> Vec<String> {
    let mut at = from.to_string();
    let mut ids = vec![];
    for d in &p.path {
        check(here(&d.source_state.locations, &c.name) == at, "a step starts where the last one ended");
        check(!d.source_state.constraints.conjunctions.is_empty() && !d.destination_state.constraints.conjunctions.is_empty(), "no state of a path is empty");
        let mut moved = 0;
        for e in &d.edges {
            if e.comp.name != c.name { continue; }
            let edge = c.edges.iter().find(|x| x.id == e.edge_id);
            check(edge.is_some(), "a step names an edge of the component");
            let edge = edge.unwrap();
            moved += 1;
            check(edge.source_location == at && edge.sync == d.action, "the edge leaves the current location on the action");
            at = edge.target_location.clone();
            ids.push(e.edge_id.clone());
        }
        check(moved <= 1, "a component takes one edge per step");
        check(here(&d.destination_state.locations, &c.name) == at, "a step ends where its edge leads");
    }
    ids
}
fn path_of(r: &Result<QueryResult, crate::System::extract_system_rep::ExecutableQueryError>) -> Option<SpecificPath> {
    match r { Ok(QueryResult::Reachability(Ok(p))) => Some(p.clone()), _ => None }
}
/// L0 -[x >= g]{x:=0}-> L1 -[x >= h && y <= m]-> L2, invariants x <= i and x <= j
fn chain() {
    let (g, h, i, j, m, q) = (int("g", 0, 9), int("h", 0, 9), int("i", 0, 9), int("j", 0, 9), int("m", 0, 20), int("q", 0, 20));
    let c = comp("C", &["x", "y"], vec![loc("L0", Some(cmp("x", "<=", i))), loc("L1", Some(cmp("x", "<=", j))), loc("L2", None)],
        vec![edge("E0", "L0", "L1", "a?", Some(cmp("x", ">=", g)), vec![set("x", 0)]),
             edge("E1", "L1", "L2", "b!", Some(and_(cmp("x", ">=", h), cmp("y", "<=", m))), vec![])]);
    let goal = choose("goal", 5);
    let mut query = crate::DataReader::parse_queries::parse_to_expression_tree([
        "reachability: C @ init -> C.L2", "reachability: C @ init -> C.L2 && C.y <= 7", "reachability: C @ init -> C.L2 && C.y < 7",
        "reachability: C @ init -> C.L1 && C.y >= 7", "reachability: C @ init -> C.L1 && C.y - C.x == 7"][goal]).unwrap();
    put_numbers(&mut query[0], q);
    let r = ask_query(std::slice::from_ref(&c), query.remove(0));
    let got = verdict(&r);
    observe(got);
    reach("chain");
    let in1 = g <= i;
    let in2 = and(in1, and(h <= j, g + h <= m));
    let want = match goal {
        0 => in2,
        1 => and(in2, g + h <= q),
        2 => and(in2, g + h < q),
        3 => and(in1, q <= i + j),
        _ => and(in1, and(g <= q, q <= i)),
    };
    check((got == 1) == want, "a state is reachable exactly when some run leads to it");
    if let Some(p) = path_of(&r) {
        let ids = walk(&p, &c, "L0");
        check(ids == if goal < 3 { vec!["E0", "E1"] } else { vec!["E0"] }, "the path leads to the goal");
    }
}
/// two ways to the goal; the path taken must be one that works
fn ways() {
    let (g, h, m, k) = (int("g", 0, 9), int("h", 0, 9), int("m", 0, 9), int("k", 0, 9));
    let swap = split("swap");
    let (a, b) = if swap { ("b!", "a!") } else { ("a!", "b!") };
    let c = comp("C", &["x", "y"], vec![loc("L0", None), loc("L1", None), loc("L2", None), loc("L3", None)], vec![
        edge("E0", "L0", "L1", a, Some(cmp("x", ">=", g)), vec![]),
        edge("E1", "L0", "L2", b, Some(cmp("x", ">=", k)), vec![set("y", 0)]),
        edge("E2", "L1", "L3", "c!", Some(cmp("x", "<=", h)), vec![]),
        edge("E3", "L2", "L3", "c!", Some(and_(cmp("x", "<=", m), cmp("y", ">=", 2))), vec![])]);
    let r = ask(std::slice::from_ref(&c), "reachability: C @ init -> C.L3");
    observe(verdict(&r));
    reach("ways");
    let (left, right) = (g <= h, k + 2 <= m);
    check((verdict(&r) == 1) == or(left, right), "a goal is reachable when one of the ways works");
    if let Some(p) = path_of(&r) {
        let ids = walk(&p, &c, "L0");
        if ids == vec!["E0", "E2"] { check(left, "the path can be walked") } else {
            check(ids == vec!["E1", "E3"], "the path leads to the goal");
            check(right, "the path can be walked");
        }
    }
}
/// the same location is visited twice, with other clock values the second time
fn again() {
    let (g, p, h) = (int("g", 0, 5), int("p", 0, 5), int("h", 0, 9));
    let c = comp("C", &["x", "y"], vec![loc("L0", Some(cmp("x", "<=", p))), loc("L1", None)], vec![
        edge("E0", "L0", "L0", "a!", Some(cmp("x", ">=", g)), vec![set("x", 0)]),
        edge("E1", "L0", "L1", "b!", Some(and_(cmp("x", "<=", 0), cmp("y", ">=", h))), vec![])]);
    let r = ask(std::slice::from_ref(&c), "reachability: C @ init -> C.L1");
    observe(verdict(&r));
    reach("again");
    // rounds of g..p time units each add up to anything from h on, unless no round is possible or none takes time
    let want = or(h == 0, and(g <= p, p > 0));
    check((verdict(&r) == 1) == want, "a goal that needs several rounds is found");
    if let Some(p) = path_of(&r) {
        let ids = walk(&p, &c, "L0");
        check(ids.last().map(|l| l == "E1") == Some(true), "the path leads to the goal");
    }
}
/// from a given location and clock values
fn given() {
    let (s, h, m) = (int("s", 0, 9), int("h", 0, 9), int("m", 0, 9));
    let c = comp("C", &["x"], vec![loc("L0", None), loc("L1", Some(cmp("x", "<=", 6))), loc("L2", None)], vec![
        edge("E0", "L1", "L2", "a!", Some(and_(cmp("x", ">=", h), cmp("x", "<=", m))), vec![])]);
    let form = choose("start", 2);
    let mut query = crate::DataReader::parse_queries::parse_to_expression_tree(["reachability: C @ C.L1 && C.x >= 3 -> C.L2", "reachability: C @ C.L1 -> C.L2"][form]).unwrap();
    put_numbers(&mut query[0], s);
    let r = ask_query(std::slice::from_ref(&c), query.remove(0));
    observe(verdict(&r));
    reach("given");
    let t = if form == 0 { s } else { 0 };
    check((verdict(&r) == 1) == and(and(t <= m, h <= m), and(h <= 6, t <= 6)), "the search starts in the given states");
    if let Some(p) = path_of(&r) { check(walk(&p, &c, "L1") == vec!["E0"], "the path leads to the goal"); }
}
/// two components that meet on a shared action
fn together() {
    let (g, h, m) = (int("g", 0, 9), int("h", 0, 9), int("m", 0, 12));
    let a = comp("A", &["x"], vec![loc("L0", None), loc("L1", None), loc("L2", None)], vec![
        edge("E0", "L0", "L1", "i?", Some(cmp("x", ">=", g)), vec![set("x", 0)]), edge("E1", "L1", "L2", "o!", Some(cmp("x", ">=", h)), vec![])]);
    let b = comp("B", &["z"], vec![loc("K0", None), loc("K1", None)], vec![edge("F0", "K0", "K1", "o?", Some(cmp("z", "<=", m)), vec![])]);
    let meet = split("order");
    let r = ask(&[a.clone(), b.clone()], if meet { "reachability: A || B @ init -> B.K1" } else { "reachability: B || A @ init -> A.L2" });
    observe(verdict(&r));
    reach("together");
    // the receiver accepts every input at all times, so it never blocks the sender
    check((verdict(&r) == 1) == or(!meet, g + h <= m), "both parts must be able to take the shared action");
    if let Some(p) = path_of(&r) {
        check(walk(&p, &a, "L0") == vec!["E0", "E1"], "the path leads to the goal");
        if meet { check(walk(&p, &b, "K0") == vec!["F0"], "the path leads to the goal"); }
    }
}
/// one location entered in two ways: the clock values of both count
fn entered() {
    let (a, b, c, d) = (int("a", 0, 9), int("b", 0, 9), int("c", 0, 9), int("d", 0, 9));
    let (e, f) = (int("e", 0, 9), int("f", 0, 9));
    let swap = split("swap");
    let (s, t) = if swap { ("b!", "a!") } else { ("a!", "b!") };
    let reset = split("reset");
    let form = choose("form", 3);
    // in L1 time passes freely, up to f, or not at all (y is zero on the way in)
    let inv = match form { 0 => None, 1 => Some(cmp("x", "<=", f)), _ => Some(cmp("y", "<=", 0)) };
    let g = |lo: i32, hi: i32| Some(and_(cmp("x", ">=", lo), cmp("x", "<=", hi)));
    let ups = if form == 2 { vec![set("y", 0)] } else { vec![] };
    let comp = comp("C", &["x", "y"], vec![loc("L0", None), loc("L1", inv), loc("L2", None)], vec![
        edge("E0", "L0", "L1", s, g(a, b), [ups.clone(), if reset { vec![set("x", c)] } else { vec![] }].concat()), edge("E1", "L0", "L1", t, g(c, d), ups),
        edge("E2", "L1", "L2", "c!", Some(and_(cmp("x", ">=", e), cmp("x", "<=", f))), vec![])]);
    let r = ask(std::slice::from_ref(&comp), "reachability: C @ init -> C.L2");
    observe(verdict(&r));
    reach("entered");
    let way = |open: bool, lo: i32, hi: i32| and(and(open, lo <= hi), and(lo <= f, and(e <= f, or(form < 2, hi >= e))));
    let (one, two) = (if reset { way(a <= b, c, c) } else { way(true, a, b) }, way(true, c, d));
    check((verdict(&r) == 1) == or(one, two), "every way into a location counts");
    if let Some(p) = path_of(&r) {
        let ids = walk(&p, &comp, "L0");
        check(ids.len() == 2 && ids[1] == "E2", "the path leads to the goal");
        check(if ids[0] == "E0" { one } else { two }, "the path can be walked");
    }
}
/// the goal lies in the location the search starts in, with values that waiting does not give
fn back() {
    let (g, h, k, w) = (int("g", 0, 9), int("h", 0, 9), int("k", 0, 9), int("w", 0, 9));
    let form = choose("form", 4);
    let far = split("far");
    let guard = if form == 2 { cmp("x", "<=", h) } else { cmp("x", ">=", g) };
    let c = comp("C", &["x", "y"], vec![loc("L0", if form < 2 { Some(cmp("x", "<=", h)) } else { None }), loc("L1", None)], if far {
        vec![edge("E0", "L0", "L1", "a?", Some(guard), vec![set("x", 0)]), edge("E1", "L1", "L0", "b!", Some(cmp("x", "<=", 0)), vec![])]
    } else {
        vec![edge("E0", "L0", "L0", "a?", Some(guard), vec![set("x", if form == 2 { w } else { 0 })])]
    });
    let mut query = crate::DataReader::parse_queries::parse_to_expression_tree([
        "reachability: C @ init -> C.L0 && C.y - C.x >= 7", "reachability: C @ init -> C.L0 && C.y - C.x > 7",
        "reachability: C @ C.L0 && C.x >= 7 -> C.L0 && C.x < 7", "reachability: C @ init -> C.L0 && C.y - C.x == 7"][form]).unwrap();
    put_numbers(&mut query[0], k);
    let r = ask_query(std::slice::from_ref(&c), query.remove(0));
    observe(verdict(&r));
    reach("back");
    let want = match form {
        0 => or(k == 0, and(g <= h, h > 0)),
        1 => and(g <= h, h > 0),
        2 => and(k <= h, if far { k > 0 } else { w < k }),
        _ => or(k == 0, g <= k),
    };
    check((verdict(&r) == 1) == want, "the start location counts again when it is entered anew");
    if let Some(p) = path_of(&r) {
        let _ = walk(&p, &c, "L0");
    }
}
/// in a quotient the known part moves along, and so says the path
fn quotient() {
    let (p, q, a, r, h) = (int("p", 0, 9), int("q", 0, 9), int("a", 0, 9), int("r", 0, 9), int("h", 0, 20));
    let t = comp("T", &["u"], vec![loc("J0", None), loc("J1", None), loc("J2", None)], vec![
        edge("G0", "J0", "J1", "m!", Some(and_(cmp("u", ">=", p), cmp("u", "<=", q))), vec![]), edge("G1", "J1", "J2", "o!", Some(cmp("u", ">=", r)), vec![])]);
    let s = comp("S", &["x"], vec![loc("L0", None), loc("L1", None)], vec![edge("E0", "L0", "L1", "m!", Some(cmp("x", ">=", a)), vec![])]);
    let goal = choose("goal", 2);
    let mut query = crate::DataReader::parse_queries::parse_to_expression_tree(["reachability: T // S @ init -> T.J2 && S.L1", "reachability: T // S @ init -> T.J2 && S.x < 7"][goal]).unwrap();
    put_numbers(&mut query[0], h);
    let r_ = ask_query(&[t.clone(), s.clone()], query.remove(0));
    observe(verdict(&r_));
    reach("quotient");
    let meet = and(p <= q, a <= q);
    check((verdict(&r_) == 1) == if goal == 0 { meet } else { and(meet, and(p < h, and(a < h, r < h))) }, "both sides of a quotient take the step");
    if let Some(p) = path_of(&r_) {
        check(walk(&p, &t, "J0") == vec!["G0", "G1"], "the path leads to the goal");
        check(walk(&p, &s, "L0") == vec!["E0"], "the known part moves along");
    }
}
harness! {
    h_c18_quotient => quotient();
    h_c18_back => back();
    h_c18_chain => chain();
    h_c18_ways => ways();
    h_c18_again => again();
    h_c18_given => given();
    h_c18_together => together();
    h_c18_entered => entered();
}
