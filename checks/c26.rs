//! C26: remembered models never change an answer.
#[path = "service.rs"]
mod service;
#[path = "text.rs"]
mod text;
use crate::vp::*;
use crate::DataReader::component_loader::ModelCache;
use crate::ProtobufServer::services::query_response::Result as Answer;
use crate::ProtobufServer::services::*;
use crate::ProtobufServer::ConcreteEcdarBackend;
use service::*;
use text::*;

/// Version `k` of the model: consistent iff its digit is at least 5; the clock q7 plays no role.
fn version(k: usize) -> (i32, String) {
    let (a, da) = digit(k);
    (a, json(&Model { name: "C", decl: "clock x, q7;".into(), locs: vec![l("L0", &format!("x<={}", da), "INITIAL")], edges: vec![e("E0", "L0", "L0", "o!", "x>=5", "x=0")] }, false))
}
const USER: [&str; 4] = ["user0", "user1", "user2", "user3"];
const HASH: [&str; 4] = ["hash0", "hash1", "hash2", "hash3"];
const WHAT: [&str; 4] = ["model0", "model1", "model2", "model3"];
const HOW: [&str; 4] = ["kind0", "kind1", "kind2", "kind3"];
/// One request; its answer has to be the one for its own model.
fn step(cache: &ModelCache, k: usize, user: i32, hash: u32, a: i32, text: &str, kinds: usize) {
    match choose(HOW[k], kinds) {
        0 => {
            let r = ask_service(request(user, k as i32, "consistency: C", hash, vec![text.to_string()], None), cache);
            check(yes(&r) == (a >= 5) as u64, "the answer is for the model sent");
        }
        1 => {
            // saving: the clocks left out tell whether the settings of this very request are used
            let reduce = k % 2 == 0;
            match ask_service(request(user, k as i32, "get-component: C save-as C", hash, vec![text.to_string()], Some(reduce)), cache) {
                Ok(QueryResponse { result: Some(Answer::Component(Component { rep: Some(component::Rep::Json(t)) })), .. }) => {
                    check(t.contains("q7") != reduce, "the settings of the request are used");
                    let r = ask_service(request(user, k as i32, "consistency: C", 0, vec![t], None), &ModelCache::default());
                    check(yes(&r) == (a >= 5) as u64, "the answer is for the model sent");
                }
                _ => check(false, "the request is answered"),
            }
        }
        _ => {
            let info = SimulationInfo { user_id: user, component_composition: "C".into(), components_info: Some(ComponentsInfo { components: vec![message(text.to_string())], components_hash: hash }) };
            match ConcreteEcdarBackend::handle_start_simulation(SimulationStartRequest { simulation_info: Some(info) }, cache.clone()) {
                Ok(r) => {
                    check(state_has(&r.full_state, &[("C0.x", 2 * a as i64), ("C0.q7", 2 * a as i64)]), "the simulation is of the model sent");
                    check(!state_has(&r.full_state, &[("C0.x", 2 * a as i64 + 1), ("C0.q7", 2 * a as i64 + 1)]), "the simulation is of the model sent");
                }
                Err(_) => check(false, "the request is answered"),
            }
        }
    }
}
fn history(steps: usize, sizes: usize, kinds: usize) {
    let versions = [version(0), version(1)];
    let cache = if sizes == 0 { ModelCache::default() } else { ModelCache::new(1 + choose("size", sizes)) };
    let mut past: Vec<(i32, u32, usize)> = vec![];
    for k in 0..steps {
        let (u, h, m) = (int(USER[k], -5, 1000000), range(HASH[k], 0, u32::MAX as i64) as u32, choose(WHAT[k], 2));
        // what clients promise: under one of its hashes a user sends one model
        for p in &past {
            if p.2 != m { assume(or(h == 0, or(p.0 != u, p.1 != h))); }
        }
        past.push((u, h, m));
        step(&cache, k, u, h, versions[m].0, &versions[m].1, kinds);
    }
    reach("history");
}
/// A query that fails on the way leaves nothing behind that changes later answers.
fn after_failure() {
    let (a, good) = version(0);
    let hash = range("hash", 0, u32::MAX as i64) as u32;
    let cache = ModelCache::new(2);
    let bad = ["determinism: C; determinism: C", "reachability: C @ init -> C.L7", "consistency: C || C"][choose("bad", 3)];
    let r = ask_service(request(1, 1, bad, hash, vec![good.clone()], None), &cache);
    check(yes(&r) == 2, "a wrong query is answered by an error");
    let r = ask_service(request(1, 2, "consistency: C", hash, vec![good], None), &cache);
    reach("after_failure");
    check(yes(&r) == (a >= 5) as u64, "the answer is for the model sent");
}
harness! {
    h_c26_two => history(2, 2, 3);
    h_c26_three => history(3, 2, 1);
    h_c26_unlimited => history(3, 0, 1);
    h_c26_after_failure => after_failure();
    h_c26_four_deep => history(4, 3, 1);
}
