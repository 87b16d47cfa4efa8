//! Builders shared by the harnesses: components with symbolic constants, queries against them.
#![allow(dead_code)]
use crate::vp::*;
use crate::DataReader::component_loader::ComponentContainer;
use crate::DataReader::parse_edge::{parse_guard, Update};
use crate::DataReader::parse_queries::parse_to_expression_tree;
use crate::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B, OperandExpression, QueryExpression, StateExpression};
use crate::ModelObjects::{Component, Declarations, Edge, Location, LocationType, Query, SyncType};
use crate::ProtobufServer::services::query_request::Settings;
use crate::System::extract_system_rep::{create_executable_query, ExecutableQueryError};
use crate::System::query_failures::QueryResult;
use std::collections::HashMap;

pub fn v(n: &str) -> Box<A> {
    Box::new(A::VarName(n.to_string()))
}
pub fn n(i: i32) -> Box<A> {
    Box::new(A::Int(i))
}
/// `x OP k` with k possibly symbolic
pub fn cmp(x: &str, op: &str, k: i32) -> B {
    rel(v(x), op, n(k))
}
pub fn rel(l: Box<A>, op: &str, r: Box<A>) -> B {
    match op {
        "<=" => B::LessEQ(l, r),
        "<" => B::LessT(l, r),
        ">=" => B::GreatEQ(l, r),
        ">" => B::GreatT(l, r),
        _ => B::EQ(l, r),
    }
}
pub fn and_(a: B, b: B) -> B {
    B::AndOp(Box::new(a), Box::new(b))
}
pub fn or_(a: B, b: B) -> B {
    B::OrOp(Box::new(a), Box::new(b))
}
pub fn set(x: &str, k: i32) -> Update {
    Update { variable: x.to_string(), expression: A::Int(k) }
}
pub fn loc(id: &str, inv: Option<B>) -> Location {
    Location { id: id.to_string(), invariant: inv, location_type: LocationType::Normal, urgency: "NORMAL".to_string() }
}
/// `sync` is "a?" or "a!"
pub fn edge(id: &str, from: &str, to: &str, sync: &str, guard: Option<B>, update: Vec<Update>) -> Edge {
    Edge {
        id: id.to_string(),
        source_location: from.to_string(),
        target_location: to.to_string(),
        sync_type: if sync.ends_with('?') { SyncType::Input } else { SyncType::Output },
        guard,
        update: if update.is_empty() { None } else { Some(update) },
        sync: sync[..sync.len() - 1].to_string(),
    }
}
/// A component; its first location is the initial one.
pub fn comp(name: &str, clocks: &[&str], mut locations: Vec<Location>, edges: Vec<Edge>) -> Component {
    locations[0].location_type = LocationType::Initial;
    Component {
        name: name.to_string(),
        declarations: Declarations {
            ints: HashMap::new(),
            clocks: clocks.iter().enumerate().map(|(i, c)| (c.to_string(), i + 1)).collect(),
        },
        locations,
        edges,
        special_id: None,
    }
}
pub fn container(comps: Vec<Component>, reduce: bool) -> ComponentContainer {
    let mut c = ComponentContainer::from(comps);
    c.set_settings(Settings { disable_clock_reduction: !reduce });
    c
}
/// Answers a query the way the backend does.
pub fn ask_with(comps: &[Component], text: &str, reduce: bool) -> Result<QueryResult, ExecutableQueryError> {
    answer(comps, parse_to_expression_tree(text).unwrap().remove(0), reduce)
}
pub fn ask_query(comps: &[Component], q: QueryExpression) -> Result<QueryResult, ExecutableQueryError> {
    answer(comps, q, false)
}
/// Replaces every number in a state expression of a reachability query by `m`.
pub fn put_numbers(q: &mut QueryExpression, m: i32) {
    fn operand(o: &mut OperandExpression, m: i32) {
        match o {
            OperandExpression::Number(k) => *k = m,
            OperandExpression::Difference(l, r) | OperandExpression::Sum(l, r) => { operand(l, m); operand(r, m) }
            _ => {}
        }
    }
    fn state(s: &mut StateExpression, m: i32) {
        match s {
            StateExpression::AND(v) | StateExpression::OR(v) => v.iter_mut().for_each(|s| state(s, m)),
            StateExpression::NOT(s) => state(s, m),
            StateExpression::LEQ(l, r) | StateExpression::GEQ(l, r) | StateExpression::EQ(l, r) | StateExpression::LT(l, r) | StateExpression::GT(l, r) => { operand(l, m); operand(r, m) }
            _ => {}
        }
    }
    if let QueryExpression::Reachability { from, to, .. } = q {
        if let Some(s) = from { state(s, m) }
        state(to, m);
    }
}
fn answer(comps: &[Component], q: QueryExpression, reduce: bool) -> Result<QueryResult, ExecutableQueryError> {
    let mut c = container(comps.to_vec(), reduce);
    let query = Query { query: Some(q), comment: String::new() };
    let q = create_executable_query(&query, &mut c)?;
    Ok(q.execute())
}
pub fn ask(comps: &[Component], text: &str) -> Result<QueryResult, ExecutableQueryError> {
    ask_with(comps, text, false)
}
/// 1: holds, 0: does not hold, 2: the query was rejected
pub fn verdict(r: &Result<QueryResult, ExecutableQueryError>) -> u64 {
    match r {
        Ok(QueryResult::Refinement(r)) => r.is_ok() as u64,
        Ok(QueryResult::Consistency(r)) => r.is_ok() as u64,
        Ok(QueryResult::Determinism(r)) => r.is_ok() as u64,
        Ok(QueryResult::Reachability(r)) => r.is_ok() as u64,
        Ok(QueryResult::GetComponent(_)) => 1,
        Ok(_) => 2,
        Err(_) => 2,
    }
}

/// Bounds on one unknown; `true` marks a strict bound. Decides whether a value exists between them.
#[derive(Default)]
pub struct Between { pub lo: Vec<(i64, bool)>, pub hi: Vec<(i64, bool)> }
impl Between {
    pub fn ge(&mut self, v: i64) -> &mut Self { self.lo.push((v, false)); self }
    pub fn gt(&mut self, v: i64) -> &mut Self { self.lo.push((v, true)); self }
    pub fn le(&mut self, v: i64) -> &mut Self { self.hi.push((v, false)); self }
    pub fn lt(&mut self, v: i64) -> &mut Self { self.hi.push((v, true)); self }
    pub fn low(&mut self, v: i64, strict: bool) -> &mut Self { self.lo.push((v, strict)); self }
    pub fn high(&mut self, v: i64, strict: bool) -> &mut Self { self.hi.push((v, strict)); self }
    pub fn exists(&self) -> bool {
        let mut r = true;
        for (l, ls) in &self.lo {
            for (h, hs) in &self.hi {
                r = and(r, if *ls || *hs { l < h } else { l <= h });
            }
        }
        r
    }
}
