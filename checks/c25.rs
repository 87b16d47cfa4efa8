//! C25: reading a model, and reading back a written one, yields the model that was described.
#[path = "expr.rs"]
mod expr;
#[path = "text.rs"]
mod text;
use crate::common::*;
use crate::vp::*;
use crate::DataReader::component_loader::parse_components_if_some;
use crate::DataReader::json_reader::json_to_component;
use crate::DataReader::json_writer::component_to_json;
use crate::DataReader::parse_edge::Update;
use crate::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B};
use crate::ModelObjects::{Component, LocationType as T, SyncType};
use crate::ProtobufServer::services;
use expr::*;
use text::*;

fn load(rep: services::component::Rep) -> Option<Vec<Component>> {
    parse_components_if_some(&services::Component { rep: Some(rep) }).ok()
}
fn from_json(text: String) -> Component {
    match load(services::component::Rep::Json(text)) {
        Some(mut c) if c.len() == 1 => c.remove(0),
        _ => { check(false, "a model is read"); unreachable!() }
    }
}
fn from_xml(text: String) -> Component {
    match load(services::component::Rep::Xml(text)) {
        Some(mut c) if c.len() == 1 => c.remove(0),
        _ => { check(false, "a model is read"); unreachable!() }
    }
}
fn same_truth(a: &Option<B>, b: &Option<B>, env: &Env) -> bool {
    let t = |g: &Option<B>| g.as_ref().map_or(Some(true), |g| truth(g, env));
    t(a) == t(b)
}
fn same_updates(a: &Option<Vec<Update>>, b: &Option<Vec<Update>>, env: &Env) -> bool {
    let t = |u: &Option<Vec<Update>>| -> Vec<(String, Option<i32>)> { u.iter().flatten().map(|u| (u.variable.clone(), value(&u.expression, env))).collect() };
    t(a) == t(b)
}
fn clock_names(c: &Component) -> Vec<String> {
    let mut v: Vec<String> = c.declarations.clocks.keys().cloned().collect();
    v.sort();
    v
}
fn clocks_numbered(c: &Component) -> bool {
    let mut v: Vec<usize> = c.declarations.clocks.values().cloned().collect();
    v.sort();
    v == (1..=v.len()).collect::<Vec<_>>()
}
/// The component read is the one meant; XML carries neither edge names nor urgency nor special locations.
fn same(read: &Component, want: &Component, env: &Env, whole: bool) {
    check(read.name == want.name, "the name is kept");
    check(clock_names(read) == clock_names(want), "the clocks are kept");
    check(clocks_numbered(read), "the clocks are numbered without gaps");
    check(read.locations.len() == want.locations.len() && read.edges.len() == want.edges.len(), "no location or edge is lost or added");
    for (r, w) in read.locations.iter().zip(&want.locations) {
        check(r.id == w.id, "locations keep name and order");
        check(r.location_type == w.location_type || (!whole && r.location_type != T::Initial && w.location_type != T::Initial), "locations keep their kind");
        check(!whole || r.urgency == w.urgency, "locations keep their urgency");
        check(same_truth(&r.invariant, &w.invariant, env), "invariants keep their meaning");
    }
    for (r, w) in read.edges.iter().zip(&want.edges) {
        check(!whole || r.id == w.id, "edges keep their name");
        check(r.source_location == w.source_location && r.target_location == w.target_location, "edges keep their ends");
        check(r.sync == w.sync && r.sync_type == w.sync_type, "edges keep action and direction");
        check(same_truth(&r.guard, &w.guard, env), "guards keep their meaning");
        check(same_updates(&r.update, &w.update, env), "updates keep their meaning");
    }
}
/// A model text with symbolic digits and the component it describes.
fn described(form: usize) -> (Model, Component) {
    let ((a, da), (b, db), (c, dc)) = (digit(0), digit(1), digit(2));
    let kinds = [("NORMAL", T::Normal), ("UNIVERSAL", T::Universal), ("INCONSISTENT", T::Inconsistent)];
    let (kind, tk) = kinds[choose("kind", 3)];
    let (inv, ti) = match form {
        0 => (format!("x<={}", da), Some(cmp("x", "<=", a))),
        1 => (String::new(), None),
        _ => (format!("x < 1{} && y<={}", da, db), Some(and_(cmp("x", "<", 10 + a), cmp("y", "<=", b)))),
    };
    let (guard, tg) = match form {
        0 => (format!("x>={} || y < {}", db, dc), Some(or_(cmp("x", ">=", b), cmp("y", "<", c)))),
        1 => (format!("x - y > -{}", db), Some(rel(Box::new(A::Difference(v("x"), v("y"))), ">", n(-b)))),
        _ => (String::new(), None),
    };
    let (update, tu) = match form {
        0 => (format!("x={}", dc), vec![set("x", c)]),
        1 => (String::new(), vec![]),
        _ => (format!("x = 0, y={}", dc), vec![set("x", 0), set("y", c)]),
    };
    if form == 1 { assume(b >= 1); }
    let m = Model { name: "C", decl: "clock x, y;".into(), locs: vec![l("L0", "", "NORMAL"), Loc { urgent: if form == 0 { "URGENT" } else { "NORMAL" }, ..l("L1", &inv, "INITIAL") }, l("L2", "", kind)],
        edges: vec![e("E7", "L1", "L2", "m?", &guard, &update), e("E1", "L1", "L0", "o!", "", ""), e("E3", "L2", "L2", "m?", "", &update)] };
    let mut want = comp("C", &["x", "y"], vec![loc("L0", None), loc("L1", ti), loc("L2", None)], vec![
        edge("E7", "L1", "L2", "m?", tg, tu.clone()), edge("E1", "L1", "L0", "o!", None, vec![]), edge("E3", "L2", "L2", "m?", None, tu)]);
    want.locations[0].location_type = T::Normal;
    want.locations[1].location_type = T::Initial;
    want.locations[2].location_type = tk;
    if form == 0 { want.locations[1].urgency = "URGENT".into(); }
    (m, want)
}
fn read_json() {
    let (m, want) = described(choose("form", 3));
    let env = Env::new(0, 9);
    let form = choose("writing", 3);
    let mut text = json(&m, form == 1);
    if form == 2 { text = text.replace('<', "\\u003c").replace('=', "\\u003d").replace('>', "\\u003E").replace('&', "\\u0026"); }
    if form == 0 && split("blank") { for k in ["guard", "update", "invariant"] { text = text.replace(&format!("\"{}\":\"\"", k), &format!("\"{}\":\" \"", k)); } }
    let read = from_json(text);
    reach("json");
    same(&read, &want, &env, true);
}
fn read_xml() {
    let (m, want) = described(choose("form", 3));
    let env = Env::new(0, 9);
    let read = from_xml(xml(&m, split("notes")));
    reach("xml");
    same(&read, &want, &env, false);
}
/// written and read again
fn written() {
    let env = Env::new(0, 9);
    let form = choose("form", 3);
    let (a, b) = (int("a", 0, 12), int("b", -12, 12));
    let (guard, ups, inv) = match form {
        0 => (Some(and_(or_(cmp("x", ">=", a), cmp("y", "<", 3)), rel(Box::new(A::Difference(v("x"), v("y"))), "<=", n(b)))), vec![set("x", a)], None),
        1 => (None, vec![], Some(or_(and_(cmp("x", "<", a), cmp("y", "<=", 4)), cmp("y", ">", 7)))),
        _ => (Some(rel(v("y"), "==", n(a))), vec![set("y", a), set("x", 0)], Some(cmp("x", "<=", 9))),
    };
    let mut c = comp("Some1", if form == 1 { &["y", "x", "z"] } else { &["x", "y"] }, vec![loc("L0", inv), loc("L1", None), loc("L2", Some(B::Bool(true)))], vec![
        edge("E0", "L0", "L1", "m?", guard.clone(), ups.clone()), edge("E1", "L1", "L0", "o!", guard, vec![]), edge("E5", "L1", "L1", "m?", None, ups)]);
    c.locations[1].location_type = [T::Normal, T::Universal, T::Inconsistent][form];
    match json_to_component(&component_to_json(&c)) {
        Ok(read) => { reach("written"); same(&read, &c, &env, true) }
        Err(_) => check(false, "a written component can be read"),
    }
}
/// A saved system, written and read again, still stands in for the system.
fn saved() {
    let (a, b) = (int("a", 0, 9), int("b", 0, 9));
    let p = comp("P", &["x"], vec![loc("L0", Some(cmp("x", "<=", a))), loc("L1", None)], vec![edge("E0", "L0", "L1", "o!", Some(cmp("x", ">=", b)), vec![set("x", 0)]), edge("E1", "L1", "L0", "i?", None, vec![set("x", 0)])]);
    let q = comp("Q", &["x"], vec![loc("M0", None), loc("M1", None)], vec![edge("F0", "M0", "M1", "o?", Some(cmp("x", "<", 5)), vec![]), edge("F1", "M1", "M0", "p!", Some(or_(cmp("x", "<", 2), cmp("x", ">", 4))), vec![set("x", 0)])]);
    assume(b <= a);
    let mut c = vec![p, q];
    let s = match ask(&c, "get-component: P || Q save-as Saved") {
        Ok(crate::System::query_failures::QueryResult::GetComponent(s)) => s,
        _ => { check(false, "the system is saved"); return; }
    };
    c.push(from_json(component_to_json(&s)));
    reach("saved");
    check(verdict(&ask(&c, "refinement: Saved <= P || Q")) == 1, "the saved system refines the original");
    check(verdict(&ask(&c, "refinement: P || Q <= Saved")) == 1, "the original refines the saved system");
}
/// one of three letters, the same on the whole path
fn letter(n: &'static str, first: u8) -> String { ((conc(range(n, first as i64, first as i64 + 2) as u64)) as u8 as char).to_string() }
/// Declarations: statements over lines or on one line, comments, several names each, none lost, none double.
fn declarations() {
    let (p, q) = (letter("p", b'a'), letter("q", b'd'));
    let eol = ["\n", "\r\n", " ", ""][choose("between", 4)];
    let comma = [",", ", ", " , "][choose("comma", 3)];
    let (text, want): (String, Vec<&str>) = match choose("form", 8) {
        0 => (format!("clock {}{}{};", p, comma, q), vec![&p, &q]),
        1 => (format!("clock {};{}clock {};", p, eol, q), vec![&p, &q]),
        2 => (format!("clock {};{}clock {}{}A_1;{}", p, eol, q, comma, eol), vec![&p, &q, "A_1"]),
        3 => (format!("// clock no;\nclock {};\n//clock no;\n  // none\nclock {};", p, q), vec![&p, &q]),
        4 => (format!("int i{}j;{}clock {}{}{};", comma, eol, p, comma, q), vec![&p, &q]),
        5 => (format!("clock {}; // the first\nclock {};\t\n", p, q), vec![&p, &q]),
        6 => (format!("  clock  {};{}\tclock {};{}", p, eol, q, eol), vec![&p, &q]),
        _ => (eol.to_string(), vec![]),
    };
    let mut m = Model { name: "C", decl: text, locs: vec![l("L0", "", "INITIAL")], edges: vec![] };
    let c = if split("xml") { from_xml(xml(&m, false)) } else { m.decl = m.decl.replace('\t', "\\t"); from_json(json(&m, false)) };
    let mut want: Vec<String> = want.iter().map(|s| s.to_string()).collect();
    want.sort();
    reach("declarations");
    check(clock_names(&c) == want, "every declared clock is known under its name");
    check(clocks_numbered(&c), "the clocks are numbered without gaps");
    check(!c.declarations.ints.keys().any(|k| k.is_empty()), "no nameless variable comes up");
}
/// Text that describes no component is refused.
fn refused() {
    let good = || Model { name: "C", decl: "clock x;".into(), locs: vec![l("L0", "x<=5", "INITIAL")], edges: vec![e("E0", "L0", "L0", "m?", "x>=1", "x=0")] };
    let mut m = good();
    let ok = json(&m, false);
    let text = match choose("wrong", 14) {
        0 => { m.locs[0].inv = "x<=".into(); json(&m, false) }
        1 => { m.locs[0].kind = "START"; json(&m, false) }
        2 => ok.replace("INPUT", "IN"),
        3 => { m.edges[0].guard = "x>>1".into(); json(&m, false) }
        4 => { m.edges[0].update = "x".into(); json(&m, false) }
        5 => { m.decl = "clock x; bool y;".into(); json(&m, false) }
        6 => { m.decl = "clocks".into(); json(&m, false) }
        7 => ok[..ok.len() - 1].to_string(),
        8 => String::new(),
        9 => "[]".into(),
        10 => ok.replace("\"guard\"", "\"gard\""),
        11 => ok.replace("\"name\":\"C\",", ""),
        12 => { m.decl = "clock x, x;".into(); json(&m, false) }
        _ => { m.edges[0].update = "x=1-".into(); json(&m, false) }
    };
    reach("refused");
    check(load(services::component::Rep::Json(ok)).is_some(), "a model is read");
    check(load(services::component::Rep::Json(text)).is_none(), "text that is no model is refused with an error");
}
harness! {
    h_c25_json => read_json();
    h_c25_xml => read_xml();
    h_c25_written => written();
    h_c25_declarations => declarations();
    h_c25_saved => saved();
    h_c25_refused => refused();
}
