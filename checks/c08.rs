//! C08: taking an edge and delaying leads to exactly the states the semantics allows.
use crate::common::*;
use crate::vp::*;
use crate::ModelObjects::{State, Component};
use crate::TransitionSystems::transition_system::components_to_transition_system;
use edbm::util::constraints::Inequality;
use edbm::zones::OwnedFederation;

/// Constraints of the zone before the edge and of its guard, on doubled values.
struct Before { xl: Vec<(i64, bool)>, xh: Vec<(i64, bool)>, yl: Vec<(i64, bool)>, yh: Vec<(i64, bool)>, d: Option<(i64, bool)> }
impl Before {
    /// Is there a valuation with x and y fixed (or free) that satisfies everything?
    fn exists(&self, x: Option<i64>, y: Option<i64>) -> bool {
        let mut bx = Between { lo: self.xl.clone(), hi: self.xh.clone() };
        let mut by = Between { lo: self.yl.clone(), hi: self.yh.clone() };
        bx.ge(0);
        by.ge(0);
        if let Some(x) = x { bx.ge(x).le(x); }
        if let Some(y) = y { by.ge(y).le(y); }
        let mut r = and(bx.exists(), by.exists());
        if let Some((c, s)) = self.d {
            // x - y <= c: the least x and the greatest y must fit
            for (l, ls) in &bx.lo {
                for (h, hs) in &by.hi {
                    r = and(r, if s || *ls || *hs { l - h < c } else { l - h <= c });
                }
            }
        }
        r
    }
}
fn fire(ups: &[(&'static str, i32)], diff: bool, strict: bool, low: bool) {
    let (a, b, g, h, i) = (int("a", 0, 9), int("b", 0, 9), int("g", 0, 9), int("h", 0, 9), int("i", 0, 9));
    let e = int("e", -9, 9);
    let mut before = Before { xl: vec![(2 * a as i64, false)], xh: vec![], yl: vec![], yh: vec![(2 * h as i64, strict)], d: None };
    let mut guard = if strict { cmp("y", "<", h) } else { cmp("y", "<=", h) };
    if !diff {
        before.xl.push((2 * g as i64, strict));
        before.xh.push((2 * b as i64, false));
        guard = and_(if strict { cmp("x", ">", g) } else { cmp("x", ">=", g) }, guard);
    } else {
        guard = and_(guard, rel(Box::new(crate::ModelObjects::Expressions::ArithExpression::Difference(v("x"), v("y"))), "<=", n(e)));
        before.d = Some((2 * e as i64, false));
    }
    let updates = ups.iter().map(|(c, k)| set(c, *k)).collect();
    let c = comp("C", &["x", "y"], vec![loc("L", None), loc("M", Some(cmp("x", if low { ">=" } else { "<=" }, i)))], vec![edge("E", "L", "M", "a!", Some(guard), updates)]);
    let ts = components_to_transition_system(vec![c], "C");
    let here = ts.get_initial_location().unwrap();
    let mut zone = OwnedFederation::universe(3).constrain(0, 1, Inequality::LE(-a));
    if !diff { zone = zone.constrain(1, 0, Inequality::LE(b)); }
    let all = ts.next_transitions(&here, "a");
    check(all.len() == 1, "the enabled edge is offered once");
    let state = State::new(here, zone);
    let next = all[0].use_transition_alt(&state);
    // the state after: some valuation before, the updates, a delay d >= 0, the invariant of M
    let (px, py) = (range("x*2", 0, 40), range("y*2", 0, 40));
    let get = |c: &str| ups.iter().rev().find(|u| u.0 == c).map(|u| 2 * u.1 as i64);
    let on_arrival = |x: i64| or(!low, x >= 2 * i as i64);
    let ok = match (get("x"), get("y")) {
        (None, None) => {
            // the delay is unknown: x and y before are px-d, py-d
            let mut d = Between::default();
            d.ge(0).le(px).le(py);
            for (l, s) in &before.xl { d.high(px - l, *s); }
            for (u, s) in &before.xh { d.low(px - u, *s); }
            for (u, s) in &before.yh { d.low(py - u, *s); }
            if low { d.le(px - 2 * i as i64); }
            let r = d.exists();
            match before.d { Some((c, _)) => and(r, px - py <= c), None => r }
        }
        (Some(k), None) => { let d = px - k; and(on_arrival(k), and(d >= 0, and(py >= d, before.exists(None, Some(py - d))))) }
        (None, Some(m)) => { let d = py - m; and(on_arrival(px - d), and(d >= 0, and(px >= d, before.exists(Some(px - d), None)))) }
        (Some(k), Some(m)) => { let d = px - k; and(on_arrival(k), and(d >= 0, and(py - m == d, before.exists(None, None)))) }
    };
    let want = and(ok, if low { px >= 2 * i as i64 } else { px <= 2 * i as i64 });
    match next {
        Some(s) => {
            reach("fired");
            check(s.decorated_locations.id.to_string() == "M", "the edge leads to its target");
            check(s.zone_ref().holds_at(&[0, px, py], 2) == want, "exactly the reachable valuations");
        }
        None => { reach("blocked"); check(!want, "an edge that can be taken is taken") }
    }
}
fn kinds(diff: bool, strict: bool, low: bool) {
    let (k, m) = (int("k", 0, 9), int("m", 0, 9));
    match choose("updates", 5) {
        0 => fire(&[], diff, strict, low),
        1 => fire(&[("x", k)], diff, strict, low),
        2 => fire(&[("y", k)], diff, strict, low),
        3 => fire(&[("x", k), ("y", m)], diff, strict, low),
        _ => fire(&[("x", m), ("x", k)], diff, strict, low),
    }
}
harness! {
    h_c08_plain => kinds(false, false, false);
    h_c08_lower => kinds(false, false, true);
    h_c08_strict => kinds(false, true, false);
    h_c08_diff => kinds(true, false, false);
}
