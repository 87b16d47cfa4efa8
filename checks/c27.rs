//! C27: the simulator offers exactly the steps that can be taken, and taking one leads where it says.
#[path = "service.rs"]
mod service;
#[path = "text.rs"]
mod text;
use crate::vp::*;
use crate::DataReader::component_loader::ModelCache;
use crate::ProtobufServer::services::*;
use crate::ProtobufServer::ConcreteEcdarBackend;
use service::*;
use text::*;

fn info(models: &[Model], system: &str) -> Option<SimulationInfo> {
    let components = models.iter().map(|m| message(json(m, false))).collect();
    Some(SimulationInfo { user_id: 1, component_composition: system.to_string(), components_info: Some(ComponentsInfo { components, components_hash: 0 }) })
}
fn start(models: &[Model], system: &str) -> SimulationStepResponse {
    match ConcreteEcdarBackend::handle_start_simulation(SimulationStartRequest { simulation_info: info(models, system) }, ModelCache::default()) {
        Ok(r) => r,
        Err(_) => { check(false, "a simulation can be started"); unreachable!() }
    }
}
fn take(models: &[Model], system: &str, d: &Decision) -> SimulationStepResponse {
    match ConcreteEcdarBackend::handle_take_simulation_step(SimulationStepRequest { simulation_info: info(models, system), chosen_decision: Some(d.clone()) }, ModelCache::default()) {
        Ok(r) => {
            check(r.full_state.is_some() && r.full_state == d.destination, "a step leads to its destination");
            r
        }
        Err(_) => { check(false, "an offered step can be taken"); unreachable!() }
    }
}
/// A step that is expected: where it can be taken (some values at all; these values), where it leads.
struct Step<'a> { edges: &'a [&'a str], action: &'a str, to: &'a str, offered: bool, from: bool, into: bool }
/// The decisions are exactly the expected ones. `values` are arbitrary.
fn offers(r: &SimulationStepResponse, at: &str, values: &[(&str, i64)], want: &[Step]) {
    let mut known = 0;
    for w in want {
        let mut ds = r.new_decision_points.iter().filter(|d| d.action == w.action && edges(d) == w.edges);
        match ds.next() {
            None => check(!w.offered, "a step that can be taken is offered"),
            Some(d) => {
                known += 1;
                check(w.offered, "no step is offered that cannot be taken");
                check(state_where(&d.source) == at, "an offered step starts where the simulation is");
                check(state_where(&d.destination) == w.to, "an offered step leads to its edges' targets");
                check(state_has(&d.source, values) == w.from, "an offered step starts from the values that allow it");
                check(state_has(&d.destination, values) == w.into, "an offered step leads to the values it says");
            }
        }
        check(ds.next().is_none(), "no step is offered twice");
    }
    check(known == r.new_decision_points.len(), "no step is offered that the model does not have");
}
fn value(n: &'static str) -> i64 { range(n, 0, 40) }
fn both(a: bool, b: bool, c: bool) -> bool { and(a, and(b, c)) }
fn within(lo: i64, v: i64, hi: i64) -> bool { and(lo <= v, v <= hi) }

/// One component, two clocks: the start, and each way on from it.
fn single(way: usize) {
    let ((a, da), (b, db), (c, dc), (d, dd), (e_, de)) = (digit(0), digit(1), digit(2), digit(3), digit(4));
    let m = [Model { name: "C", decl: "clock x, y;".into(), locs: vec![l("L0", &format!("x<={}", da), "INITIAL"), l("L1", &format!("x<={}", dd), "NORMAL"), l("L2", "", "NORMAL")], edges: vec![
        e("E0", "L0", "L1", "i?", &format!("y>={}", db), "x=0"), e("E1", "L0", "L0", "o!", &format!("x>={}", dc), "y=0"), e("E2", "L1", "L2", "p!", &format!("y>={}", de), "")] }];
    let (a, b, c, d, f) = (2 * a as i64, 2 * b as i64, 2 * c as i64, 2 * d as i64, 2 * e_ as i64);
    let (x, y) = (value("x"), value("y"));
    let vals = [("C0.x", x), ("C0.y", y)];
    let r = start(&m, "C");
    let s = and(x == y, x <= a);
    check(state_where(&r.full_state) == "C0.L0" && state_has(&r.full_state, &vals) == s, "a simulation starts in the initial state");
    offers(&r, "C0.L0", &vals, &[
        Step { edges: &["C0.E0"], action: "i", to: "C0.L1", offered: b <= a, from: and(s, y >= b), into: and(x <= d, within(b, y - x, a)) },
        Step { edges: &["C0.input_L0_i"], action: "i", to: "C0.L0", offered: b > 0, from: and(s, y < b), into: s },
        Step { edges: &["C0.E1"], action: "o", to: "C0.L0", offered: c <= a, from: and(s, x >= c), into: and(x <= a, within(c, x - y, a)) },
    ]);
    let pick = |id: &str| r.new_decision_points.iter().find(|d| edges(d) == [id]);
    match way {
        0 => if let Some(dec) = pick("C0.E0") {
            let r = take(&m, "C", dec);
            reach("input");
            let z = and(x <= d, within(b, y - x, a));
            offers(&r, "C0.L1", &vals, &[
                Step { edges: &["C0.E2"], action: "p", to: "C0.L2", offered: f <= a + d, from: and(z, y >= f), into: both(within(b, y - x, a), y >= f, y - x >= f - d) },
                Step { edges: &["C0.input_L1_i"], action: "i", to: "C0.L1", offered: true, from: z, into: z },
            ]);
            if let Some(dec) = r.new_decision_points.iter().find(|d| d.action == "p") {
                let r = take(&m, "C", dec);
                let z = both(within(b, y - x, a), y >= f, y - x >= f - d);
                offers(&r, "C0.L2", &vals, &[Step { edges: &["C0.input_L2_i"], action: "i", to: "C0.L2", offered: true, from: z, into: z }]);
            }
        },
        1 => if let Some(dec) = pick("C0.E1") {
            let r = take(&m, "C", dec);
            reach("output");
            let z = and(x <= a, within(c, x - y, a));
            offers(&r, "C0.L0", &vals, &[
                // y reaches b while x is at least c later, at most a
                Step { edges: &["C0.E0"], action: "i", to: "C0.L1", offered: b + c <= a, from: and(z, y >= b), into: both(x <= d, b <= y - x, y - x <= a - c) },
                Step { edges: &["C0.input_L0_i"], action: "i", to: "C0.L0", offered: b > 0, from: and(z, y < b), into: z },
                Step { edges: &["C0.E1"], action: "o", to: "C0.L0", offered: true, from: z, into: z },
            ]);
        },
        _ => if let Some(dec) = pick("C0.input_L0_i") {
            let r = take(&m, "C", dec);
            reach("ignored");
            offers(&r, "C0.L0", &vals, &[
                Step { edges: &["C0.E0"], action: "i", to: "C0.L1", offered: b <= a, from: and(s, y >= b), into: and(x <= d, within(b, y - x, a)) },
                Step { edges: &["C0.input_L0_i"], action: "i", to: "C0.L0", offered: true, from: and(s, y < b), into: s },
                Step { edges: &["C0.E1"], action: "o", to: "C0.L0", offered: c <= a, from: and(s, x >= c), into: and(x <= a, within(c, x - y, a)) },
            ]);
        },
    }
}
/// Two parts with a common action, the same part twice, brackets.
fn parts() {
    let ((a, da), (b, db), (c, dc)) = (digit(0), digit(1), digit(2));
    let p = Model { name: "P", decl: "clock x;".into(), locs: vec![l("L0", "", "INITIAL"), l("L1", "", "NORMAL")], edges: vec![e("E0", "L0", "L1", "o!", &format!("x<={}", da), ""), e("E1", "L1", "L0", "q!", "", "x=0")] };
    let q = Model { name: "Q", decl: "clock x;".into(), locs: vec![l("M0", "", "INITIAL"), l("M1", &format!("x<={}", dc), "NORMAL")], edges: vec![e("F0", "M0", "M1", "o?", &format!("x>={}", db), ""), e("F1", "M1", "M0", "p!", "", "")] };
    let (a, b, c) = (2 * a as i64, 2 * b as i64, 2 * c as i64);
    let (x, y) = (value("x"), value("y"));
    let m = [q, p];
    let vals = [("P0.x", x), ("Q1.x", y)];
    let r = start(&m, "P || Q");
    check(state_where(&r.full_state) == "(P0.L0 || Q1.M0)" && state_has(&r.full_state, &vals) == (x == y), "a simulation starts in the initial state");
    // Q takes o from b to c, as it has to arrive in M1 within its invariant; otherwise it ignores o
    let s = x == y;
    offers(&r, "(P0.L0 || Q1.M0)", &vals, &[
        Step { edges: &["P0.E0", "Q1.F0"], action: "o", to: "(P0.L1 || Q1.M1)", offered: and(b <= a, b <= c), from: both(s, within(b, x, a), x <= c), into: both(s, b <= x, x <= c) },
        Step { edges: &["P0.E0", "Q1.input_M0_o"], action: "o", to: "(P0.L1 || Q1.M0)", offered: or(b > 0, c < a), from: both(s, x <= a, or(x < b, x > c)), into: and(s, or(b > 0, x > c)) },
    ]);
    reach("parts");
}
fn parts_wide() {
    let ((a, da), (b, db), (c, dc)) = (digit(0), digit(1), digit(2));
    assume(c >= a);
    let p = Model { name: "P", decl: "clock x;".into(), locs: vec![l("L0", "", "INITIAL"), l("L1", "", "NORMAL")], edges: vec![e("E0", "L0", "L1", "o!", &format!("x<={}", da), ""), e("E1", "L1", "L0", "q!", "", "x=0")] };
    let q = Model { name: "Q", decl: "clock x;".into(), locs: vec![l("M0", "", "INITIAL"), l("M1", &format!("x<={}", dc), "NORMAL")], edges: vec![e("F0", "M0", "M1", "o?", &format!("x>={}", db), ""), e("F1", "M1", "M0", "p!", "", "")] };
    let (a, b, c) = (2 * a as i64, 2 * b as i64, 2 * c as i64);
    let (x, y) = (value("x"), value("y"));
    let m = [q, p];
    let vals = [("P0.x", x), ("Q1.x", y)];
    let r = start(&m, "P || Q");
    if let Some(dec) = r.new_decision_points.iter().find(|d| edges(d) == ["P0.E0", "Q1.F0"]) {
        check(b <= a, "no step is offered that cannot be taken");
        let r = take(&m, "P || Q", dec);
        reach("parts");
        let z = both(x == y, b <= x, x <= c);
        // from (L1, M1): q resets P.x while Q keeps waiting, or p
        offers(&r, "(P0.L1 || Q1.M1)", &vals, &[
            Step { edges: &["P0.E1"], action: "q", to: "(P0.L0 || Q1.M1)", offered: true, from: z, into: both(y <= c, b <= y - x, y - x <= c) },
            Step { edges: &["Q1.F1"], action: "p", to: "(P0.L1 || Q1.M0)", offered: true, from: z, into: and(x == y, b <= x) },
        ]);
    } else {
        check(b > a, "a step that can be taken is offered");
    }
}
fn conjunction() {
    let ((a, da), (b, db)) = (digit(0), digit(1));
    let m = |name: &'static str, g: String, i: String| Model { name, decl: "clock x;".into(), locs: vec![l("L0", "", "INITIAL"), l("L1", &i, "NORMAL")], edges: vec![e(if name == "P" { "E0" } else { "F0" }, "L0", "L1", "o!", &g, ""), e(if name == "P" { "E1" } else { "F1" }, "L1", "L0", "o!", "", "x=0")] };
    let m = [m("P", format!("x<={}", da), String::new()), m("Q", format!("x>={}", db), "x<=20".into())];
    let (a, b) = (2 * a as i64, 2 * b as i64);
    let (x, y) = (value("x"), value("y"));
    let vals = [("P0.x", x), ("Q1.x", y)];
    let r = start(&m, "P && Q");
    check(state_where(&r.full_state) == "(P0.L0 && Q1.L0)" && state_has(&r.full_state, &vals) == (x == y), "a simulation starts in the initial state");
    let s = x == y;
    offers(&r, "(P0.L0 && Q1.L0)", &vals, &[Step { edges: &["P0.E0", "Q1.F0"], action: "o", to: "(P0.L1 && Q1.L1)", offered: b <= a, from: and(s, within(b, x, a)), into: and(s, within(b, x, 40)) }]);
    if let Some(dec) = r.new_decision_points.first() {
        let r = take(&m, "P && Q", dec);
        reach("conjunction");
        let z = and(s, within(b, x, 40));
        offers(&r, "(P0.L1 && Q1.L1)", &vals, &[Step { edges: &["P0.E1", "Q1.F1"], action: "o", to: "(P0.L0 && Q1.L0)", offered: true, from: z, into: s }]);
    }
}
/// Several edges for one action: each way is offered, and taking one leads where it says.
fn ambiguous() {
    let ((a, da), (b, db)) = (digit(0), digit(1));
    let what = choose("same target", 3);
    let m = [Model { name: "P", decl: "clock x;".into(), locs: vec![l("L0", "", "INITIAL"), l("L1", "", "NORMAL"), l("L2", "", "NORMAL")], edges: vec![
        e("E0", "L0", "L1", "o!", &format!("x<={}", da), "x=0"), e("E1", "L0", ["L2", "L1", "L1"][what], "o!", &format!("x>={}", db), ["", "", "x=0"][what]), e("E2", "L1", "L0", "p!", "", ""), e("E3", "L2", "L0", "q!", "", "")] }];
    let (a, b) = (2 * a as i64, 2 * b as i64);
    let x = value("x");
    let vals = [("P0.x", x)];
    let r = start(&m, "P");
    let other = ["P0.L2", "P0.L1", "P0.L1"][what];
    offers(&r, "P0.L0", &vals, &[
        Step { edges: &["P0.E0"], action: "o", to: "P0.L1", offered: true, from: x <= a, into: true },
        Step { edges: &["P0.E1"], action: "o", to: other, offered: true, from: x >= b, into: or(what == 2, x >= b) },
    ]);
    let second = split("second");
    let id = ["P0.E0", "P0.E1"][second as usize];
    let dec = r.new_decision_points.iter().find(|d| edges(d) == [id]).unwrap();
    let r = take(&m, "P", dec);
    reach("ambiguous");
    let z = or(!second, or(what == 2, x >= b));
    if second && what == 0 {
        offers(&r, other, &vals, &[Step { edges: &["P0.E3"], action: "q", to: "P0.L0", offered: true, from: z, into: z }]);
    } else {
        offers(&r, "P0.L1", &vals, &[Step { edges: &["P0.E2"], action: "p", to: "P0.L0", offered: true, from: z, into: z }]);
    }
}
/// Steps that change nothing are steps as well.
fn loops() {
    let ((a, da), (b, db)) = (digit(0), digit(1));
    let m = [Model { name: "P", decl: "clock x;".into(), locs: vec![l("L0", "", "INITIAL"), l("L1", "", "NORMAL")], edges: vec![
        e("E0", "L0", "L0", "o!", "", ""), e("E1", "L0", "L0", "p!", &format!("x>={}", da), ""), e("E2", "L0", "L1", "q!", &format!("x<={}", db), ""), e("E3", "L1", "L1", "i?", "", ""), e("E4", "L1", "L1", "q!", "", "x=0")] }];
    let (a, b) = (2 * a as i64, 2 * b as i64);
    let x = value("x");
    let vals = [("P0.x", x)];
    let r = start(&m, "P");
    offers(&r, "P0.L0", &vals, &[
        Step { edges: &["P0.E0"], action: "o", to: "P0.L0", offered: true, from: true, into: true },
        Step { edges: &["P0.E1"], action: "p", to: "P0.L0", offered: true, from: x >= a, into: x >= a },
        Step { edges: &["P0.E2"], action: "q", to: "P0.L1", offered: true, from: x <= b, into: true },
        Step { edges: &["P0.input_L0_i"], action: "i", to: "P0.L0", offered: true, from: true, into: true },
    ]);
    let dec = r.new_decision_points.iter().find(|d| edges(d)[0] == "P0.E2").unwrap();
    let r = take(&m, "P", dec);
    reach("loops");
    let there = [Step { edges: &["P0.E3"], action: "i", to: "P0.L1", offered: true, from: true, into: true }, Step { edges: &["P0.E4"], action: "q", to: "P0.L1", offered: true, from: true, into: true }];
    offers(&r, "P0.L1", &vals, &there);
    for d in &r.new_decision_points { offers(&take(&m, "P", d), "P0.L1", &vals, &there); }
}
/// The same component twice keeps its instances apart.
fn twice() {
    let ((a, da), (b, db)) = (digit(0), digit(1));
    let m = [Model { name: "P", decl: "clock x;".into(), locs: vec![l("L0", "", "INITIAL"), l("L1", "", "NORMAL")], edges: vec![e("E0", "L0", "L1", "i?", &format!("x<={}", da), "x=0"), e("E1", "L1", "L1", "i?", &format!("x>={}", db), "")] }];
    let (a, b) = (2 * a as i64, 2 * b as i64);
    let (x, y) = (value("x"), value("y"));
    let vals = [("P0.x", x), ("P1.x", y)];
    let op = ["||", "&&"][choose("op", 2)];
    let sys = format!("P {} P", op);
    let at = |k: usize| format!("(P0.L{} {} P1.L{})", k, op, k);
    let r = start(&m, &sys);
    let s = x == y;
    offers(&r, &at(0), &vals, &[
        Step { edges: &["P0.E0", "P1.E0"], action: "i", to: &at(1), offered: true, from: and(s, x <= a), into: s },
        Step { edges: &["P0.input_L0_i", "P1.input_L0_i"], action: "i", to: &at(0), offered: true, from: and(s, x > a), into: and(s, x > a) },
    ]);
    let dec = r.new_decision_points.iter().find(|d| edges(d)[0] == "P0.E0").unwrap();
    let r = take(&m, &sys, dec);
    reach("twice");
    offers(&r, &at(1), &vals, &[
        Step { edges: &["P0.E1", "P1.E1"], action: "i", to: &at(1), offered: true, from: and(s, x >= b), into: and(s, x >= b) },
        Step { edges: &["P0.input_L1_i", "P1.input_L1_i"], action: "i", to: &at(1), offered: b > 0, from: and(s, x < b), into: s },
    ]);
}
/// In a quotient every offered step can be taken, two steps deep.
fn quotient() {
    let ((a, da), (b, db)) = (digit(0), digit(1));
    let t = Model { name: "T", decl: "clock x;".into(), locs: vec![l("L0", "", "INITIAL"), l("L1", "x<=9", "NORMAL")], edges: vec![e("E0", "L0", "L1", "i?", "", "x=0"), e("E1", "L1", "L0", "o!", &format!("x<={}", da), ""), e("E2", "L0", "L0", "p!", "", "")] };
    let s = Model { name: "S", decl: "clock x;".into(), locs: vec![l("M0", "", "INITIAL")], edges: vec![e("F0", "M0", "M0", "p!", &format!("x>={}", db), ""), e("F1", "M0", "M0", "i?", "", "")] };
    let m = [t, s];
    assume(and(a >= 0, b >= 0));
    let r = start(&m, "T // S");
    check(state_where(&r.full_state) == "(T0.L0 // S1.M0)", "a simulation starts in the initial state");
    check(!r.new_decision_points.is_empty(), "a step that can be taken is offered");
    // whatever leads on within both sides names the edges of both
    let named = |d: &Decision| {
        let to = state_where(&d.destination);
        let to = to.trim_start_matches('(').trim_end_matches(')').to_string();
        let inside = to.contains("T0.") && to.contains("S1.");
        if inside {
            let e = edges(d);
            check(match d.action.as_str() {
                "p" => e == ["T0.E2", "S1.F0"],
                "i" => e.len() == 2 && e[0].starts_with("T0.") && e[1] == "S1.F1",
                "o" => e == ["T0.E1"],
                _ => e.is_empty(),
            }, "a step names the edges of every part that moves");
        }
        inside && !edges(d).is_empty()
    };
    let mut seen = 0;
    for d in &r.new_decision_points {
        if named(d) { seen |= match d.action.as_str() { "p" => 1, "i" => 2, _ => 0 }; }
        let r = take(&m, "T // S", d);
        for d in &r.new_decision_points { if named(d) && d.action == "o" { seen |= 4; } take(&m, "T // S", d); }
    }
    check(seen == 7, "a step that can be taken is offered");
    reach("quotient");
}
harness! {
    h_c27_input => single(0);
    h_c27_output => single(1);
    h_c27_ignored => single(2);
    h_c27_parts => parts();
    h_c27_parts_wide => parts_wide();
    h_c27_conjunction => conjunction();
    h_c27_ambiguous => ambiguous();
    h_c27_twice => twice();
    h_c27_quotient => quotient();
    h_c27_loops => loops();
}
