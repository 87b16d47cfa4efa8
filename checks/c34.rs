//! C34: wrong requests are refused with an error, right ones next to them are not.
#[path = "service.rs"]
mod service;
#[path = "text.rs"]
mod text;
use crate::vp::*;
use crate::DataReader::component_loader::ModelCache;
use crate::ProtobufServer::services::*;
use crate::ProtobufServer::ConcreteEcdarBackend;
use service::*;
use text::*;

fn good() -> (i32, Model) {
    let (a, da) = digit(0);
    (a, Model { name: "C", decl: "clock x;".into(), locs: vec![l("L0", &format!("x<={}", da), "INITIAL")], edges: vec![e("E0", "L0", "L0", "o!", "x>=5", "x=0"), e("E1", "L0", "L0", "i?", "", "")] })
}
/// The good request is still answered, with the same memory of models.
fn still(cache: &ModelCache, a: i32, text: &str, hash: u32) {
    let r = ask_service(request(1, 2, "consistency: C", hash, vec![text.to_string()], None), cache);
    check(yes(&r) == (a >= 5) as u64, "a good request is answered after a wrong one");
}
fn refused(r: Result<QueryResponse, tonic::Status>) {
    check(yes(&r) == 2, "a wrong request is refused");
    if let Err(s) = r {
        check(s.code() != tonic::Code::Internal && s.code() != tonic::Code::Ok, "the fault is the request's");
    }
}
fn query_text() {
    let (a, m) = good();
    let text = json(&m, false);
    let cache = ModelCache::default();
    let hash = [0, 7][choose("hash", 2)];
    let wrong = ["", "consistency", "consistency:", "consistency: C;", "consistency C", "refinement: C", "refinement: C <= ", "consistency: C ||", "consistency: (C", "what: C",
        "consistency: C; consistency: C", "reachability: C -> C.L0", "reachability: C @ init -> C.L0 &&", "reachability: C @ init -> C.x<99999999999", "get-component: C save-as", "\u{fc}",
        "specification: C", "implementation: C", "bisim-minim: C save-as D"];
    refused(ask_service(request(1, 1, wrong[choose("text", wrong.len())], hash, vec![text.clone()], None), &cache));
    reach("query");
    still(&cache, a, &text, hash);
}
fn unknown_names() {
    let (a, m) = good();
    let text = json(&m, false);
    let cache = ModelCache::default();
    let hash = [0, 7][choose("hash", 2)];
    let queries = ["consistency: D", "determinism: C || D", "refinement: C <= D", "refinement: D <= C", "reachability: D @ init -> D.L0", "get-component: C && D save-as E", "consistency: c", "prune: D // C save-as E",
        "reachability: C @ init -> C.L9", "reachability: C @ init -> D.L0", "reachability: C @ C.L9 -> C.L0", "reachability: C @ init -> C.y<5", "consistency: (C || (D && C))", "determinism: D[one]"];
    refused(ask_service(request(1, 1, queries[choose("query", queries.len())], hash, vec![text.clone()], None), &cache));
    reach("names");
    still(&cache, a, &text, hash);
}
/// Models that cannot be read, alone or next to a good one: a query about one that was not sent well is refused.
fn model_text() {
    let (a, m) = good();
    let text = json(&m, false);
    let cache = ModelCache::default();
    let hash = [0, 7][choose("hash", 2)];
    let broken = match choose("wrong", 7) {
        0 => String::new(),
        1 => text[..text.len() - 1].to_string(),
        2 => text.replace("x>=5", "x>>5"),
        3 => text.replace("clock x;", "clocks"),
        4 => text.replace("x=0", "x"),
        5 => text.replace("INITIAL", "FIRST"),
        _ => text.replace("\"name\":\"C\",", ""),
    };
    let with = choose("with", 3);
    let texts = match with { 0 => vec![broken], 1 => vec![broken, text.clone()], _ => vec![text.clone(), broken] };
    if with > 0 {
        // whether the broken one is refused or overlooked: no wrong answer about the other
        let r = yes(&ask_service(request(1, 1, "consistency: C", hash, texts, None), &cache));
        check(r == 2 || r == (a >= 5) as u64, "a broken neighbour changes no answer");
    } else if split("simulate") {
        let info = SimulationInfo { user_id: 1, component_composition: "C".into(), components_info: Some(ComponentsInfo { components: texts.into_iter().map(message).collect(), components_hash: hash }) };
        let r = ConcreteEcdarBackend::handle_start_simulation(SimulationStartRequest { simulation_info: Some(info) }, cache.clone());
        check(r.is_err(), "a wrong request is refused");
    } else {
        refused(ask_service(request(1, 1, "consistency: C", hash, texts, None), &cache));
    }
    reach("model");
    still(&cache, a, &text, if hash == 0 { 0 } else { 8 });
}
/// Requests with parts left out.
fn left_out() {
    let (a, m) = good();
    let text = json(&m, false);
    let cache = ModelCache::default();
    let info = |system: &str| Some(SimulationInfo { user_id: 1, component_composition: system.into(), components_info: Some(ComponentsInfo { components: vec![message(text.clone())], components_hash: 7 }) });
    let started = ConcreteEcdarBackend::handle_start_simulation(SimulationStartRequest { simulation_info: info("C") }, cache.clone());
    check(started.is_ok(), "a good request is answered");
    let dec = match started { Ok(r) => r.new_decision_points, Err(_) => return };
    check(!dec.is_empty(), "a good request is answered");
    let d = dec[0].clone();
    let start = |i| ConcreteEcdarBackend::handle_start_simulation(SimulationStartRequest { simulation_info: i }, cache.clone()).is_err();
    let step = |i, d| ConcreteEcdarBackend::handle_take_simulation_step(SimulationStepRequest { simulation_info: i, chosen_decision: d }, cache.clone()).is_err();
    check(!step(info("C"), Some(d.clone())), "a good request is answered");
    let bad = match choose("wrong", 11) {
        0 => { let mut r = request(1, 1, "consistency: C", 7, vec![], None); r.components_info = None; refused(ask_service(r, &cache)); true }
        1 => { let r = request(1, 1, "consistency: C", 0, vec![], None); refused(ask_service(r, &cache)); true }
        2 => { let mut r = request(1, 1, "consistency: C", 0, vec![], None); r.components_info = Some(ComponentsInfo { components: vec![Component { rep: None }], components_hash: 0 }); refused(ask_service(r, &cache)); true }
        3 => start(None),
        4 => { let mut i = info("C").unwrap(); i.components_info = None; start(Some(i)) }
        5 => start(info("")),
        6 => start(info("C ||")),
        7 => start(info("D")),
        8 => start(info("C || C")),
        9 => step(None, Some(d)),
        _ => step(info("C"), None),
    };
    reach("left_out");
    check(bad, "a wrong request is refused");
    still(&cache, a, &text, 7);
}
harness! {
    h_c34_query_text => query_text();
    h_c34_unknown_names => unknown_names();
    h_c34_model_text => model_text();
    h_c34_left_out => left_out();
}
