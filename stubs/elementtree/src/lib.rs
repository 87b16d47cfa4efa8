//! Stand-in for elementtree: a small non-validating XML reader with the same API subset.
use std::io::Read;
#[derive(Debug, Clone)] pub struct Error(pub String);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
#[derive(Debug, Clone, Default)] pub struct Element { tag: String, attrs: Vec<(String, String)>, text: String, kids: Vec<Element> }
pub struct FindChildren<'a> { tag: String, it: std::slice::Iter<'a, Element> }
impl<'a> Iterator for FindChildren<'a> { type Item = &'a Element; fn next(&mut self) -> Option<&'a Element> { let t = &self.tag; self.it.by_ref().find(|e| &e.tag == t) } }
impl Element {
    pub fn from_reader<R: Read>(mut r: R) -> Result<Element, Error> { let mut s = String::new(); r.read_to_string(&mut s).map_err(|e| Error(e.to_string()))?; parse(&s) }
    pub fn find_all<'a>(&'a self, tag: &str) -> FindChildren<'a> { FindChildren { tag: tag.to_string(), it: self.kids.iter() } }
    pub fn find(&self, tag: &str) -> Option<&Element> { self.kids.iter().find(|e| e.tag == tag) }
    pub fn children(&self) -> std::slice::Iter<'_, Element> { self.kids.iter() }
    pub fn text(&self) -> &str { &self.text }
    pub fn tag(&self) -> &str { &self.tag }
    pub fn get_attr(&self, n: &str) -> Option<&str> { self.attrs.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str()) }
}
fn unesc(s: &str) -> String { s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&apos;", "'").replace("&amp;", "&") }
fn parse(s: &str) -> Result<Element, Error> {
    let b = s.as_bytes(); let mut i = 0; let mut stack: Vec<Element> = vec![Element::default()];
    while i < b.len() {
        if b[i] == b'<' {
            if s[i..].starts_with("<!--") { i += s[i..].find("-->").ok_or(Error("comment".into()))? + 3; continue; }
            let j = i + s[i..].find('>').ok_or(Error("unclosed tag".into()))?;
            let inner = &s[i + 1..j]; i = j + 1;
            if inner.starts_with('?') || inner.starts_with('!') { continue; }
            if let Some(name) = inner.strip_prefix('/') { let e = stack.pop().unwrap(); if e.tag != name.trim() || stack.is_empty() { return Err(Error(format!("mismatched {name}"))); } stack.last_mut().unwrap().kids.push(e); continue; }
            let (inner, selfclose) = match inner.strip_suffix('/') { Some(x) => (x, true), None => (inner, false) };
            let end = inner.find(char::is_whitespace).unwrap_or(inner.len());
            let mut e = Element { tag: inner[..end].to_string(), ..Default::default() };
            let mut rest = inner[end..].trim();
            while let Some(eq) = rest.find('=') {
                let k = rest[..eq].trim().to_string(); let v = rest[eq + 1..].trim_start(); let q = v.chars().next().ok_or(Error("attr".into()))?;
                let close = v[1..].find(q).ok_or(Error("attr".into()))?; e.attrs.push((k, unesc(&v[1..1 + close]))); rest = v[close + 2..].trim_start();
            }
            if selfclose { stack.last_mut().unwrap().kids.push(e); } else { stack.push(e); }
        } else {
            let j = s[i..].find('<').map(|k| i + k).unwrap_or(b.len());
            let top = stack.last_mut().unwrap(); if top.kids.is_empty() { top.text.push_str(&unesc(&s[i..j])); } i = j;
        }
    }
    if stack.len() != 1 { return Err(Error("unclosed element".into())); }
    stack.pop().unwrap().kids.into_iter().next().ok_or(Error("empty".into()))
}
