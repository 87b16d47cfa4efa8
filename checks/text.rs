//! Model texts as editors write them.
#![allow(dead_code)]
use crate::vp::*;

pub struct Loc { pub id: &'static str, pub inv: String, pub kind: &'static str, pub urgent: &'static str }
pub struct Edg { pub id: &'static str, pub from: &'static str, pub to: &'static str, pub sync: &'static str, pub guard: String, pub update: String }
pub struct Model { pub name: &'static str, pub decl: String, pub locs: Vec<Loc>, pub edges: Vec<Edg> }
pub fn l(id: &'static str, inv: &str, kind: &'static str) -> Loc { Loc { id, inv: inv.into(), kind, urgent: "NORMAL" } }
pub fn e(id: &'static str, from: &'static str, to: &'static str, sync: &'static str, guard: &str, update: &str) -> Edg {
    Edg { id, from, to, sync, guard: guard.into(), update: update.into() }
}
/// `bare`: the action is written without its mark, as newer editors do.
pub fn json(m: &Model, bare: bool) -> String {
    let locs: Vec<String> = m.locs.iter().map(|l| format!("{{\"id\":\"{}\",\"nickname\":\"n\",\"invariant\":\"{}\",\"type\":\"{}\",\"urgency\":\"{}\",\"x\":1.5,\"color\":\"7\"}}", l.id, l.inv, l.kind, l.urgent)).collect();
    let edges: Vec<String> = m.edges.iter().map(|e| format!("{{\"id\":\"{}\",\"sourceLocation\":\"{}\",\"targetLocation\":\"{}\",\"status\":\"{}\",\"select\":\"\",\"guard\":\"{}\",\"update\":\"{}\",\"sync\":\"{}\",\"nails\":[]}}",
        e.id, e.from, e.to, if e.sync.ends_with('?') { "INPUT" } else { "OUTPUT" }, e.guard, e.update, if bare { &e.sync[..e.sync.len() - 1] } else { e.sync })).collect();
    format!("{{\"name\":\"{}\",\"declarations\":\"{}\",\"locations\":[{}],\"edges\":[{}],\"description\":\"\",\"x\":5.0}}", m.name, m.decl.replace('\n', "\\n").replace('\r', "\\r"), locs.join(","), edges.join(","))
}
pub fn esc(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;") }
/// `notes` puts a comment label before every other label, and writes empty labels, which are otherwise left out.
pub fn xml(m: &Model, notes: bool) -> String {
    let label = |kind: &str, text: &str| if text.is_empty() { if notes { format!("<label kind=\"{}\" x=\"1\"></label>", kind) } else { String::new() } } else { format!("<label kind=\"{}\" x=\"1\">{}</label>", kind, esc(text)) };
    let note = if notes { "<label kind=\"comments\">to do</label>" } else { "" };
    let mut s = format!("<?xml version=\"1.0\"?><nta><declaration>broadcast chan m, o;</declaration><template><name>{}</name>", m.name);
    if !m.decl.is_empty() { s += &format!("<declaration>{}</declaration>", m.decl); }
    for l in &m.locs { s += &format!("<location id=\"{}\">{}{}</location>", l.id, note, label("invariant", &l.inv)); }
    s += &format!("<init ref=\"{}\"/>", m.locs.iter().find(|l| l.kind == "INITIAL").unwrap().id);
    for e in &m.edges {
        s += &format!("<transition><source ref=\"{}\"/><target ref=\"{}\"/>{}{}{}{}</transition>", e.from, e.to, note, label("guard", &e.guard), label("synchronisation", e.sync), label("assignment", &e.update));
    }
    s + "</template><system>system C;\n</system></nta>"
}
pub const D: [&str; 6] = ["d0", "d1", "d2", "d3", "d4", "d5"];
pub fn digit(k: usize) -> (i32, String) {
    let s = chr(D[k], b'0', b'9');
    ((s.as_bytes()[0] - b'0') as i32, s)
}
