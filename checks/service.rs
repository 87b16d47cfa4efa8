//! Requests to the service, and what its answers say.
#![allow(dead_code)]
use crate::DataReader::component_loader::ModelCache;
use crate::ProtobufServer::services::component::Rep;
use crate::ProtobufServer::services::location_tree::NodeType;
use crate::ProtobufServer::services::query_request::Settings;
use crate::ProtobufServer::services::query_response::Result as Answer;
use crate::ProtobufServer::services::*;
use crate::ProtobufServer::ConcreteEcdarBackend;

pub fn message(text: String) -> Component {
    Component { rep: Some(if text.starts_with('<') { Rep::Xml(text) } else { Rep::Json(text) }) }
}
pub fn request(user: i32, id: i32, query: &str, hash: u32, texts: Vec<String>, reduce: Option<bool>) -> QueryRequest {
    QueryRequest {
        user_id: user,
        query_id: id,
        query: query.to_string(),
        components_info: Some(ComponentsInfo { components: texts.into_iter().map(message).collect(), components_hash: hash }),
        settings: reduce.map(|r| Settings { disable_clock_reduction: !r }),
    }
}
pub fn ask_service(r: QueryRequest, cache: &ModelCache) -> Result<QueryResponse, tonic::Status> {
    ConcreteEcdarBackend::handle_send_query(r, cache.clone())
}
/// 1: holds, 0: does not hold, 2: an error
pub fn yes(r: &Result<QueryResponse, tonic::Status>) -> u64 {
    match r {
        Ok(QueryResponse { result: Some(r), .. }) => match r {
            Answer::Success(_) | Answer::ReachabilityPath(_) | Answer::Component(_) => 1,
            Answer::Refinement(_) | Answer::Consistency(_) | Answer::Determinism(_) | Answer::Reachability(_) => 0,
            _ => 2,
        },
        _ => 2,
    }
}
/// A location tree in writing: `A0.L0`, `(A0.L0 || B1.M0)`, `[Error]`
pub fn where_(t: &LocationTree) -> String {
    match t.node_type.as_ref().unwrap() {
        NodeType::LeafLocation(l) => format!("{}.{}", instance(&l.component_instance), l.id),
        NodeType::SpecialLocation(k) => ["[Universal]", "[Error]"][*k as usize].to_string(),
        NodeType::BinaryLocationOp(b) => format!("({} {} {})", where_(b.left.as_ref().unwrap()), ["&&", "||", "//", "<="][b.operator as usize], where_(b.right.as_ref().unwrap())),
    }
}
pub fn instance(c: &Option<ComponentInstance>) -> String {
    let c = c.as_ref().unwrap();
    format!("{}{}", c.component_name, c.component_index)
}
pub fn state_where(s: &Option<State>) -> String { where_(s.as_ref().unwrap().location_tree.as_ref().unwrap()) }
/// Whether a zone contains a valuation; clocks are named `P0.x`, values doubled. None when the zone speaks of other clocks.
pub fn in_zone(z: &Disjunction, values: &[(&str, i64)]) -> Option<bool> {
    let val = |c: &Option<Clock>| -> Option<i64> {
        match c.as_ref()?.clock.as_ref()? {
            clock::Clock::ZeroClock(_) => Some(0),
            clock::Clock::ComponentClock(c) => {
                let name = format!("{}.{}", instance(&c.component_instance), c.clock_name);
                values.iter().find(|v| v.0 == name).map(|v| v.1)
            }
            clock::Clock::SystemClock(c) => values.iter().find(|v| v.0 == format!("#{}", c.clock_index)).map(|v| v.1),
        }
    };
    let mut any = false;
    for c in &z.conjunctions {
        let mut all = true;
        for k in &c.constraints {
            let (d, b) = (val(&k.x)? - val(&k.y)?, 2 * k.c as i64);
            all = crate::vp::and(all, crate::vp::or(d < b, crate::vp::and(d == b, !k.strict)));
        }
        any = crate::vp::or(any, all);
    }
    Some(any)
}
pub fn state_has(s: &Option<State>, values: &[(&str, i64)]) -> bool {
    in_zone(s.as_ref().unwrap().zone.as_ref().unwrap(), values) == Some(true)
}
pub fn edges(d: &Decision) -> Vec<String> { d.edges.iter().map(|e| format!("{}.{}", instance(&e.component_instance), e.id)).collect() }
