//! C28: the service answers each query with its verdict for the model sent along, and says why.
#[path = "service.rs"]
mod service;
#[path = "text.rs"]
mod text;
use crate::vp::*;
use crate::DataReader::component_loader::ModelCache;
use crate::ProtobufServer::services::action_failure::ActionSet;
use crate::ProtobufServer::services::query_response::{consistency_failure as cf, model_failure as mf, refinement_failure as rf, Result as Answer};
use service::*;
use text::*;

/// Sends the query; the answer must come, for this query.
fn answer(query: &str, models: &[Model]) -> Answer { answer_with(query, models, true) }
fn answer_with(query: &str, models: &[Model], reduce: bool) -> Answer {
    let form = choose("sent", 3);
    let texts = models.iter().map(|m| if form == 1 { xml(m, false) } else { json(m, form == 2) }).collect();
    let id = range("query", -3, 1000) as i32;
    let settings = [None, Some(false), Some(reduce)][form];
    match ask_service(request(range("user", 0, 9) as i32, id, query, if form == 0 { 0 } else { 77 }, texts, settings), &ModelCache::default()) {
        Ok(r) => {
            check(r.query_id == id, "the answer carries the request's number");
            match r.result { Some(a) => a, None => { check(false, "the answer has a result"); unreachable!() } }
        }
        Err(_) => { check(false, "a good query is answered"); unreachable!() }
    }
}
fn consistency() {
    let ((a, da), (b, db)) = (digit(0), digit(1));
    // on the way to L1 nothing can fail; L1 must be left by o
    let m = Model { name: "C", decl: "clock x;".into(), locs: vec![l("L0", "", "INITIAL"), l("L1", &format!("x<={}", da), "NORMAL")], edges: vec![
        e("E0", "L0", "L1", "i?", "", "x=0"), e("E1", "L1", "L0", "o!", &format!("x>={}", db), "")] };
    let r = answer("consistency: C", &[m]);
    reach("consistency");
    match r {
        Answer::Success(_) => check(b <= a, "an inconsistent system is reported so"),
        Answer::Consistency(f) => {
            check(b > a, "a consistent system is reported so");
            check(f.system == "C", "the failing system is named");
            match f.failure {
                Some(cf::Failure::FailureState(s)) => {
                    let s = Some(s);
                    check(state_where(&s) == "C0.L1", "the failing location is named");
                    check(state_has(&s, &[("C0.x", 2 * a as i64)]), "the failing state has the values that fail");
                }
                _ => check(false, "the failing state is told"),
            }
        }
        _ => check(false, "the answer fits the query"),
    }
}
fn determinism() {
    let ((a, da), (b, db)) = (digit(0), digit(1));
    let m = Model { name: "C", decl: "clock x;".into(), locs: vec![l("L0", "", "INITIAL"), l("L1", "", "NORMAL")], edges: vec![
        e("E0", "L0", "L1", "i?", "", "x=0"), e("E1", "L1", "L0", "o!", &format!("x<={}", da), ""), e("E2", "L1", "L1", "o!", &format!("x>{}", db), "")] };
    let kind = choose("kind", 2);
    let r = answer(["determinism: C", "consistency: C"][kind], &[m]);
    reach("determinism");
    let f = match r {
        Answer::Success(_) => { check(a <= b, "a nondeterministic system is reported so"); return; }
        Answer::Determinism(f) if kind == 0 => f,
        Answer::Consistency(f) if kind == 1 => {
            check(f.system == "C", "the failing system is named");
            match f.failure { Some(cf::Failure::Determinism(f)) => f, _ => { check(false, "the cause is told"); return; } }
        }
        _ => { check(false, "the answer fits the query"); return; }
    };
    check(a > b, "a deterministic system is reported so");
    check(f.system == "C", "the failing system is named");
    let s = f.failure_state.unwrap();
    check(s.action == "o", "the failing action is named");
    check(state_where(&s.state) == "C0.L1", "the failing location is named");
    check(state_has(&s.state, &[("C0.x", 2 * a as i64)]), "the failing state has the values that fail");
}
fn window(name: &'static str, clock: &str, lo: &str, hi: &str) -> Model {
    Model { name, decl: format!("clock {};", clock), locs: vec![l("L0", "", "INITIAL")], edges: vec![e("E0", "L0", "L0", "o!", &format!("{}>={} && {}<={}", clock, lo, clock, hi), "")] }
}
fn refinement() {
    let ((a, da), (b, db), (c, dc), (d, dd)) = (digit(0), digit(1), digit(2), digit(3));
    let side = choose("side", 3);
    let q = ["P <= T", "P <= U && T", "U && P <= T"][side];
    let (p, t, u, at) = [("P0.x", "T1.y", "", "(P0.L0 <= T1.L0)"), ("P0.x", "T2.y", "U1.z", "(P0.L0 <= (U1.L0 && T2.L0))"), ("P1.x", "T2.y", "U0.z", "((U0.L0 && P1.L0) <= T2.L0)")][side];
    let r = answer_with(&format!("refinement: {}", q), &[window("T", "y", &dc, &dd), window("P", "x", &da, &db), window("U", "z", "0", "9")], false);
    reach("refinement");
    let holds = or(a > b, and(c <= a, b <= d));
    match r {
        Answer::Success(_) => check(holds, "a refinement that fails is reported so"),
        Answer::Refinement(f) => {
            check(!holds, "a refinement that holds is reported so");
            check(side > 0 || f.system == "P <= T", "the failing system is named");
            match f.failure {
                Some(rf::Failure::RefinementState(f)) => {
                    check(f.unmatched == 0, "the kind of failure is told");
                    let s = f.state.unwrap();
                    check(s.action == "o", "the failing action is named");
                    check(state_where(&s.state) == at, "the failing locations are named");
                    let fail = 2 * if a < c { a } else { b } as i64;
                    let values = |x, y| if side == 0 { vec![(p, x), (t, y)] } else { vec![(p, x), (t, y), (u, x)] };
                    check(state_has(&s.state, &values(fail, fail)), "the failing state has the values that fail");
                    check(!state_has(&s.state, &values(fail, fail + 1)), "the failing state has no values that never occur");
                }
                _ => check(false, "the failing state is told"),
            }
        }
        _ => check(false, "the answer fits the query"),
    }
}
/// The right side has to leave earlier than the left.
fn delays() {
    let ((a, da), (b, db)) = (digit(0), digit(1));
    let m = |name: &'static str, inv: String| Model { name, decl: "clock x;".into(), locs: vec![l("L0", "", "INITIAL"), l("L1", &inv, "NORMAL")], edges: vec![
        e("E0", "L0", "L1", "i?", "", "x=0"), e("E1", "L1", "L0", "o!", "", "")] };
    let r = answer("refinement: P <= T", &[m("P", format!("x<={}", da)), m("T", format!("x<={}", db))]);
    reach("delays");
    match r {
        Answer::Success(_) => check(a <= b, "a refinement that fails is reported so"),
        Answer::Refinement(f) => {
            check(a > b, "a refinement that holds is reported so");
            match f.failure {
                Some(rf::Failure::RefinementState(f)) => {
                    check(f.unmatched == 1, "the kind of failure is told");
                    let s = f.state.unwrap();
                    check(s.action == "i", "the failing action is named");
                    check(state_where(&s.state) == "(P0.L0 <= T1.L0)", "the failing locations are named");
                }
                _ => check(false, "the failing state is told"),
            }
        }
        _ => check(false, "the answer fits the query"),
    }
}
fn reachability() {
    let ((a, da), (b, db), (c, dc)) = (digit(0), digit(1), digit(2));
    let m = |name: &'static str, sync: [&'static str; 2], g: [String; 2]| Model { name, decl: "clock x;".into(), locs: vec![l("L0", "", "INITIAL"), l("L1", "", "NORMAL"), l("L2", "", "NORMAL")], edges: vec![
        e("E0", "L0", "L1", sync[0], &g[0], ""), e("E1", "L1", "L2", sync[1], &g[1], "")] };
    let p = m("P", ["o!", "p!"], [format!("x<={}", da), String::new()]);
    let q = m("Q", ["i?", "o?"], [String::new(), format!("x>={}", db)]);
    // i, then o with b <= x <= a, then p
    let r = answer(&format!("reachability: P || Q @ init -> P.L2 && Q.L2 && Q.x<{}", dc), &[p, q]);
    reach("reachability");
    let holds = and(b <= a, b < c);
    match r {
        Answer::Reachability(f) => {
            check(!holds, "a state that is reached is reported so");
            check(f.failure == 0, "the state is reported unreachable");
        }
        Answer::ReachabilityPath(p) => {
            check(holds, "a state that is never reached is reported so");
            let path = p.path.unwrap().decisions;
            let steps: Vec<(&str, Vec<String>)> = path.iter().map(|d| (d.action.as_str(), edges(d))).collect();
            check(steps.len() == 3 && steps[0].0 == "i" && steps[1].0 == "o" && steps[2].0 == "p", "the path's actions lead there");
            let xml = steps[1].1 == ["P0.NotImplemented", "Q1.NotImplemented"];
            check(xml || (steps[0].1 == ["Q1.E0"] && steps[1].1 == ["P0.E0", "Q1.E1"] && steps[2].1 == ["P0.E1"]), "the path's edges are named with their parts");
            let at = ["(P0.L0 || Q1.L0)", "(P0.L0 || Q1.L1)", "(P0.L1 || Q1.L2)", "(P0.L2 || Q1.L2)"];
            for (k, d) in path.iter().enumerate() {
                check(state_where(&d.source) == at[k] && state_where(&d.destination) == at[k + 1], "the path's locations follow each other");
            }
            let t = 2 * b as i64;
            for d in &path {
                check(state_has(&d.destination, &[("P0.x", t), ("Q1.x", t)]), "the path's states have the values that lead there");
            }
        }
        _ => check(false, "the answer fits the query"),
    }
}
/// The component handed back stands in for the system.
fn component() {
    let ((a, da), (b, db)) = (digit(0), digit(1));
    assume(a <= b);
    let m = || window("P", "x", &da, &db);
    let text = match answer("get-component: P save-as Kept", &[m()]) {
        Answer::Component(c) => match c.rep {
            Some(crate::ProtobufServer::services::component::Rep::Json(t)) => t,
            _ => { check(false, "a component is handed back"); return; }
        },
        _ => { check(false, "the answer fits the query"); return; }
    };
    reach("component");
    for q in ["refinement: Kept <= P", "refinement: P <= Kept"] {
        let r = ask_service(request(0, 1, q, 0, vec![text.clone(), json(&m(), false)], None), &ModelCache::default());
        check(yes(&r) == 1, "the component handed back stands in for the system");
    }
}
fn sets_are(s: &[ActionSet], want: [(&str, &[&str], bool); 2]) -> bool {
    s.len() == 2 && s.iter().zip(want).all(|(s, w)| {
        let mut have = s.actions.clone();
        have.sort();
        s.system == w.0 && have == w.1 && s.is_input == w.2
    })
}
/// Systems that do not fit together.
fn unfit() {
    let (a, da) = digit(0);
    let m = |name: &'static str, syncs: &[&'static str]| Model { name, decl: "clock x;".into(), locs: vec![l("L0", "", "INITIAL")], edges: syncs.iter().map(|s| e("E0", "L0", "L0", s, &format!("x<={}", da), "")).collect() };
    let models = [m("A", &["i?", "o!"]), m("B", &["o!"]), m("D", &["o?", "p!"]), m("F", &["z!", "z?"]), m("G", &["i?", "k?", "o!"]), m("H", &["i?"])];
    assume(a >= 0);
    let (o, i): (&[&str], &[&str]) = (&["o"], &["i"]);
    reach("unfit");
    let model = |r: Answer, name: &str, kind: i32, sets: [(&str, &[&str], bool); 2]| match r {
        Answer::Model(f) => {
            check(f.system == name, "the failing system is named");
            match f.failure {
                Some(mf::Failure::ActionMismatch(f)) => check(f.failure == kind && sets_are(&f.action_sets, sets), "the actions that do not fit are named"),
                _ => check(false, "the actions that do not fit are told"),
            }
        }
        _ => check(false, "the answer fits the query"),
    };
    let sides = |r: Answer, name: &str, kind: i32, sets: [(&str, &[&str], bool); 2]| match r {
        Answer::Refinement(f) => {
            check(f.system == name, "the failing system is named");
            match f.failure {
                Some(rf::Failure::ActionMismatch(f)) => check(f.failure == kind && sets_are(&f.action_sets, sets), "the actions that do not fit are named"),
                _ => check(false, "the actions that do not fit are told"),
            }
        }
        _ => check(false, "the answer fits the query"),
    };
    match choose("system", 7) {
        0 => model(answer("consistency: A || B", &models), "A || B", 1, [("A", o, false), ("B", o, false)]),
        1 => model(answer("consistency: A && D", &models), "A && D", 1, [("A", o, false), ("D", o, true)]),
        2 => model(answer("reachability: B && D @ init -> B.L0", &models), "B && D", 1, [("B", o, false), ("D", o, true)]),
        3 => model(answer("determinism: F", &models), "F", 1, [("F", &["z"], true), ("F", &["z"], false)]),
        4 => sides(answer("refinement: G <= A", &models), "G <= A", 0, [("G", &["i", "k"], true), ("A", i, true)]),
        5 => sides(answer("refinement: H <= A", &models), "H <= A", 0, [("A", o, false), ("H", &[], false)]),
        _ => sides(answer("refinement: A <= D", &models), "A <= D", 1, [("D", o, true), ("A", o, false)]),
    }
}
/// Sides that are inconsistent, and conjunctions that exclude each other.
fn inconsistent() {
    let ((a, da), (b, db)) = (digit(0), digit(1));
    let m = |name: &'static str, inv: String, g: String| Model { name, decl: "clock x;".into(), locs: vec![l("L0", &inv, "INITIAL")], edges: vec![e("E0", "L0", "L0", "o!", &g, "x=0")] };
    let (p, q) = (m("P", format!("x<={}", da), String::new()), m("Q", String::new(), format!("x>={}", db)));
    match choose("system", 2) {
        0 => {
            let bad = m("R", format!("x<={}", da), format!("x>={}", db));
            let r = answer("refinement: R <= Q", &[p, q, bad]);
            reach("inconsistent");
            match r {
                Answer::Refinement(f) => {
                    check(b > a, "a refinement that holds is reported so");
                    check(f.system == "R <= Q", "the failing system is named");
                    match f.failure {
                        Some(rf::Failure::InconsistentChild(f)) => check(f.system == "R" && matches!(f.failure, Some(cf::Failure::FailureState(_))), "the inconsistent side is named"),
                        _ => check(false, "the inconsistent side is told"),
                    }
                }
                Answer::Success(_) => check(b <= a, "a refinement that fails is reported so"),
                _ => check(false, "the answer fits the query"),
            }
        }
        _ => {
            let r = answer("consistency: P && Q", &[p, q]);
            reach("conjunction");
            match r {
                Answer::Model(f) => {
                    check(b > a, "a consistent conjunction is reported so");
                    check(f.system.trim_matches(&['(', ')'][..]) == "P && Q", "the failing system is named");
                    check(matches!(f.failure, Some(mf::Failure::InconsistentConjunction(_))), "the cause is told");
                }
                Answer::Success(_) => check(b <= a, "an inconsistent conjunction is reported so"),
                _ => check(false, "the answer fits the query"),
            }
        }
    }
}
/// Values can begin just after a number.
fn ends() {
    let ((a, da), (b, db)) = (digit(0), digit(1));
    let t = 2 * a as i64;
    if choose("query", 2) == 0 {
        // L1 is entered at x > a (x < a for the other way) and clashes at any time
        let m = Model { name: "C", decl: "clock x;".into(), locs: vec![l("L0", "", "INITIAL"), l("L1", &format!("x<{}", db), "NORMAL")], edges: vec![
            e("E0", "L0", "L1", "o!", &format!("x>{}", da), ""), e("E1", "L1", "L0", "p!", "", ""), e("E2", "L1", "L0", "p!", "", "x=0")] };
        let r = answer("determinism: C", &[m]);
        reach("open");
        match r {
            Answer::Success(_) => check(b <= a, "a nondeterministic system is reported so"),
            Answer::Determinism(f) => {
                check(a < b, "a deterministic system is reported so");
                let s = f.failure_state.unwrap();
                for (x, inside) in [(t, false), (t + 1, true), (2 * b as i64 - 1, true), (2 * b as i64, false)] {
                    check(state_has(&s.state, &[("C0.x", x)]) == inside, "the failing state has the values that are possible, and no others");
                }
            }
            _ => check(false, "the answer fits the query"),
        }
        return;
    }
    let m = |name: &'static str, g: &str| Model { name, decl: "clock x;".into(), locs: vec![l("L0", "", "INITIAL"), l("L1", "", "NORMAL")], edges: vec![e("E0", "L0", "L1", "o!", &format!("x>{}", da), ""), e("E1", "L1", "L0", "p!", g, "x=0")] };
    let r = answer_with("refinement: P <= T", &[m("T", &format!("x>={}", db)), m("P", "")], false);
    reach("open ends");
    match r {
        Answer::Success(_) => check(b <= a, "a refinement that fails is reported so"),
        Answer::Refinement(f) => {
            check(a < b, "a refinement that holds is reported so");
            match f.failure {
                Some(rf::Failure::RefinementState(f)) => {
                    let s = f.state.unwrap();
                    check(s.action == "p", "the failing action is named");
                    check(state_where(&s.state) == "(P0.L1 <= T1.L1)", "the failing locations are named");
                    check(!state_has(&s.state, &[("P0.x", t), ("T1.x", t)]), "the failing state has no values that are not possible");
                    check(state_has(&s.state, &[("P0.x", t + 1), ("T1.x", t + 1)]), "the failing state has the values that fail");
                }
                _ => check(false, "the failing state is told"),
            }
        }
        _ => check(false, "the answer fits the query"),
    }
}
harness! {
    h_c28_consistency => consistency();
    h_c28_determinism => determinism();
    h_c28_refinement => refinement();
    h_c28_delays => delays();
    h_c28_reachability => reachability();
    h_c28_component => component();
    h_c28_unfit => unfit();
    h_c28_inconsistent => inconsistent();
    h_c28_ends => ends();
}
