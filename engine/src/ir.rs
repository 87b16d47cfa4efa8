//! Lazy parser for the textual LLVM IR emitted by rustc (whole program after LTO).
use crate::expr::{mask, Val};
use std::collections::HashMap;
use std::rc::Rc;
#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Struct(Rc<Vec<Ty>>, bool),
    Array(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match (w + 7) / 8 { 0 | 1 => 1, 2 => 2, 3 | 4 => 4, 5..=8 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Array(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            _ => 1,
        }
    }
    /// allocation size (stride)
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, _) => { let n = f.len(); let (o, a) = (self.field_off(n), self.align()); (o + a - 1) / a * a }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() + 7) / 8,
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        if let Ty::Struct(f, p) = self {
            let mut o = 0;
            for (k, t) in f.iter().enumerate() {
                let a = if *p { 1 } else { t.align() };
                o = (o + a - 1) / a * a;
                if k == i { return o; }
                o += t.size();
            }
            return o;
        }
        panic!("field_off")
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Array(..) | Ty::Vec(..))
    }
    pub fn zero(&self) -> Val {
        match self {
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|t| t.zero()).collect())),
            Ty::Array(n, t) | Ty::Vec(n, t) => Val::A(Rc::new(vec![t.zero(); *n as usize])),
            _ => Val::C(0),
        }
    }
}
#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinK { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK { Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, UIToFP, SIToFP, FPToUI, FPToSI, FPExt, FPTrunc, Freeze }
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    Asm(String),
}
#[derive(Clone, Debug)]
pub enum Inst {
    Alloca { d: u32, size: u64 },
    Load { d: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: u64, terms: Vec<(Opd, u32, u64)> },
    Bin { d: u32, k: BinK, ty: Ty, a: Opd, b: Opd },
    ICmp { d: u32, p: Pred, ty: Ty, a: Opd, b: Opd },
    FCmp { d: u32, p: String, ty: Ty, a: Opd, b: Opd },
    FNeg { d: u32, ty: Ty, a: Opd },
    Cast { d: u32, k: CastK, from: Ty, to: Ty, a: Opd },
    Select { d: u32, cty: Ty, ty: Ty, c: Opd, a: Opd, b: Opd },
    Call { d: Option<u32>, ret: Ty, f: Callee, args: Vec<Opd>, atys: Vec<Ty>, next: Option<u32> },
    Br(u32),
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { w: u32, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    Landing,
    ExtractV { d: u32, a: Opd, idx: Vec<u32> },
    InsertV { d: u32, a: Opd, v: Opd, idx: Vec<u32> },
    ExtractE { d: u32, a: Opd, i: Opd },
    InsertE { d: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, m: Opd },
    Rmw { d: u32, op: String, w: u32, p: Opd, v: Opd },
    CmpXchg { d: u32, w: u32, p: Opd, e: Opd, n: Opd },
    Nop,
}
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}
pub struct Func {
    pub id: u32,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}
#[derive(Clone)]
pub struct GlobalInit {
    pub bytes: Rc<Vec<u8>>,
    pub constant: bool,
}
pub const GLOB: u64 = 0x4000_0000;
pub const FUNC: u64 = 0x2000_0000;
pub struct Program {
    text: &'static [u8],
    pub fn_names: Vec<String>,
    fn_idx: HashMap<String, u32>,
    fn_def: Vec<Option<(usize, usize)>>,
    fn_parsed: Vec<Option<Rc<Func>>>,
    types: HashMap<String, (usize, usize)>,
    g_line: HashMap<String, (usize, usize)>,
    g_idx: HashMap<String, u32>,
    pub g_names: Vec<String>,
    g_init: Vec<Option<GlobalInit>>,
    alias: HashMap<String, String>,
}
fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
pub struct Cur<'a> {
    s: &'a [u8],
    p: usize,
}
impl<'a> Cur<'a> {
    fn ws(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t') { self.p += 1; }
    }
    fn wsn(&mut self) {
        while self.p < self.s.len() && self.s[self.p].is_ascii_whitespace() { self.p += 1; }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.s.len() { self.s[self.p] } else { 0 }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c { self.p += 1; true } else { false }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            let e = (self.p + 80).min(self.s.len());
            let b = self.p.saturating_sub(120);
            panic!("IR parse: expected {:?} at {:?} >>> {:?}", c as char, String::from_utf8_lossy(&self.s[b..self.p]), String::from_utf8_lossy(&self.s[self.p..e]));
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let s = self.p;
        while self.p < self.s.len() && is_id(self.s[self.p]) { self.p += 1; }
        std::str::from_utf8(&self.s[s..self.p]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let p = self.p;
        if self.word() == w { true } else { self.p = p; false }
    }
    fn name(&mut self) -> String {
        // after % or @
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            let b = self.quoted();
            return String::from_utf8_lossy(&b).into_owned();
        }
        self.word().to_string()
    }
    fn quoted(&mut self) -> Vec<u8> {
        assert_eq!(self.s[self.p], b'"');
        self.p += 1;
        let mut v = vec![];
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                let h = |c: u8| (c as char).to_digit(16).map(|x| x as u8);
                if let (Some(a), Some(b)) = (h(self.s[self.p + 1]), h(self.s[self.p + 2])) {
                    v.push(a * 16 + b);
                    self.p += 3;
                    continue;
                }
                if self.s[self.p + 1] == b'\\' { v.push(b'\\'); self.p += 2; continue; }
            }
            v.push(self.s[self.p]);
            self.p += 1;
        }
        self.p += 1;
        v
    }
    fn num(&mut self) -> i128 {
        self.ws();
        let s = self.p;
        if self.s[self.p] == b'-' { self.p += 1; }
        while self.p < self.s.len() && self.s[self.p].is_ascii_digit() { self.p += 1; }
        let t = std::str::from_utf8(&self.s[s..self.p]).unwrap();
        t.parse::<i128>().unwrap_or_else(|_| t.parse::<u128>().expect("num") as i128)
    }
    fn eol(&mut self) {
        while self.p < self.s.len() && self.s[self.p] != b'\n' { self.p += 1; }
        self.p += 1;
    }
    fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => { self.quoted(); continue; }
                _ => {}
            }
            self.p += 1;
        }
    }
}
struct FnCtx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn label(&mut self, n: &str) -> u32 {
        let k = self.labels.len() as u32;
        if let Some(x) = self.labels.get(n) { return *x; }
        self.labels.insert(n.to_string(), k);
        k
    }
}
impl Program {
    pub fn load(path: &str) -> Program {
        let text: &'static [u8] = Box::leak(std::fs::read(path).unwrap().into_boxed_slice());
        let mut p = Program { text, fn_names: vec![], fn_idx: HashMap::new(), fn_def: vec![], fn_parsed: vec![], types: HashMap::new(), g_line: HashMap::new(), g_idx: HashMap::new(), g_names: vec![], g_init: vec![], alias: HashMap::new() };
        let mut i = 0;
        while i < text.len() {
            let e = memchr(text, i);
            let l = &text[i..e];
            if l.starts_with(b"define") {
                let n = Self::def_name(l);
                let id = p.fnid(&n);
                let mut j = e + 1;
                let start = i;
                loop {
                    let e2 = memchr(text, j);
                    if &text[j..e2] == b"}" { i = e2 + 1; break; }
                    j = e2 + 1;
                }
                p.fn_def[id as usize] = Some((start, i));
                continue;
            } else if l.starts_with(b"declare") {
                let n = Self::def_name(l);
                p.fnid(&n);
            } else if l.starts_with(b"@") {
                let mut c = Cur { s: l, p: 1 };
                let n = c.name();
                // alias?
                c.expect(b'=');
                let rest = String::from_utf8_lossy(&l[c.p..(c.p + 120).min(l.len())]).into_owned();
                if rest.contains(" alias ") {
                    let full = String::from_utf8_lossy(l).into_owned();
                    if let Some(k) = full.rfind(", ptr @") {
                        let mut c2 = Cur { s: full.as_bytes(), p: k + 7 };
                        let t = c2.name();
                        p.alias.insert(n, t);
                    }
                } else {
                    p.g_line.insert(n, (i, e));
                }
            } else if l.starts_with(b"%") {
                let mut c = Cur { s: l, p: 1 };
                let n = c.name();
                p.types.insert(n, (i, e));
            }
            i = e + 1;
        }
        p
    }
    fn def_name(l: &[u8]) -> String {
        // first '@' outside quotes followed by name then '('
        let mut k = 0;
        while l[k] != b'@' { k += 1; }
        let mut c = Cur { s: l, p: k + 1 };
        c.name()
    }
    pub fn fnid(&mut self, n: &str) -> u32 {
        if let Some(x) = self.fn_idx.get(n) { return *x; }
        let id = self.fn_names.len() as u32;
        self.fn_names.push(n.to_string());
        self.fn_idx.insert(n.to_string(), id);
        self.fn_def.push(None);
        self.fn_parsed.push(None);
        id
    }
    pub fn find_fn(&self, n: &str) -> Option<u32> {
        self.fn_idx.get(n).copied().filter(|i| self.fn_def[*i as usize].is_some())
    }
    pub fn has_body(&self, id: u32) -> bool {
        self.fn_def[id as usize].is_some()
    }
    fn gid(&mut self, n: &str) -> u32 {
        if let Some(x) = self.g_idx.get(n) { return *x; }
        let id = self.g_names.len() as u32;
        self.g_names.push(n.to_string());
        self.g_idx.insert(n.to_string(), id);
        self.g_init.push(None);
        id
    }
    fn sym_addr(&mut self, n: &str) -> u128 {
        let n = self.alias.get(n).cloned().unwrap_or_else(|| n.to_string());
        if self.g_line.contains_key(&n) {
            return ((GLOB | self.gid(&n) as u64) << 32) as u128;
        }
        if !self.fn_idx.contains_key(&n) { panic!("unknown symbol {}", n); }
        // weak externals that do not exist
        ((FUNC | self.fnid(&n) as u64) << 32) as u128
    }
    pub fn global(&mut self, id: u32) -> GlobalInit {
        if let Some(g) = &self.g_init[id as usize] { return g.clone(); }
        let n = self.g_names[id as usize].clone();
        let (a, b) = self.g_line[&n];
        let text = self.text;
        let mut c = Cur { s: &text[a..b], p: 1 };
        c.name();
        c.expect(b'=');
        let mut ext = false;
        let constant;
        loop {
            let w = c.word();
            match w {
                "constant" => { constant = true; break; }
                "global" => { constant = false; break; }
                "external" | "extern_weak" => ext = true,
                "thread_local" | "addrspace" | "section" => { if c.peek() == b'(' { c.skip_parens(); } }
                "" => { panic!("global line {}", n) }
                _ => {}
            }
        }
        let ty = self.ty(&mut c);
        let bytes = if ext { vec![0u8; (ty.size() as usize).max(8)] } else {
            let mut f = FnCtx { regs: HashMap::new(), labels: HashMap::new() };
            let v = self.konst(&mut c, &ty, &mut f);
            let mut out = vec![0u8; ty.size() as usize];
            flatten(&v, &ty, &mut out, 0);
            out
        };
        let g = GlobalInit { bytes: Rc::new(bytes), constant };
        self.g_init[id as usize] = Some(g.clone());
        g
    }
    fn ty(&mut self, c: &mut Cur) -> Ty {
        match c.peek() {
            b'{' => {
                c.p += 1;
                let mut v = vec![];
                while !c.eat(b'}') { v.push(self.ty(c)); c.eat(b','); }
                Ty::Struct(Rc::new(v), false)
            }
            b'[' => {
                c.p += 1;
                let n = c.num() as u64;
                assert_eq!(c.word(), "x");
                let t = self.ty(c);
                c.expect(b']');
                Ty::Array(n, Rc::new(t))
            }
            b'<' => {
                c.p += 1;
                if c.peek() == b'{' {
                    let t = self.ty(c);
                    c.expect(b'>');
                    if let Ty::Struct(f, _) = t { Ty::Struct(f, true) } else { unreachable!() }
                } else {
                    let n = c.num() as u64;
                    assert_eq!(c.word(), "x");
                    let t = self.ty(c);
                    c.expect(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'%' => {
                c.p += 1;
                let n = c.name();
                let (a, b) = self.types[&n];
                let text = self.text;
                let mut c2 = Cur { s: &text[a..b], p: 1 };
                c2.name();
                c2.expect(b'=');
                assert_eq!(c2.word(), "type");
                self.ty(&mut c2)
            }
            _ => {
                let w = c.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => { if c.peek_word() == "addrspace" { c.word(); c.skip_parens(); } Ty::Ptr }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" | "label" | "token" | "half" | "x86_fp80" | "fp128" => Ty::Other,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => {
                        let b = c.p.saturating_sub(100);
                        panic!("type {:?} near {:?}", w, String::from_utf8_lossy(&c.s[b..(c.p + 60).min(c.s.len())]))
                    }
                }
            }
        }
    }
    fn konst(&mut self, c: &mut Cur, ty: &Ty, f: &mut FnCtx) -> Val {
        match self.value(c, ty, f) {
            Opd::K(v) => v,
            o => panic!("constant expected {:?}", o),
        }
    }
    fn value(&mut self, c: &mut Cur, ty: &Ty, f: &mut FnCtx) -> Opd {
        let ch = c.peek();
        match ch {
            b'%' => { c.p += 1; let n = c.name(); return Opd::R(f.reg(n)); }
            b'@' => { c.p += 1; let n = c.name(); return Opd::K(Val::C(self.sym_addr(&n))); }
            b'{' | b'[' => {
                c.p += 1;
                let close = if ch == b'{' { b'}' } else { b']' };
                let mut v = vec![];
                while !c.eat(close) { let t = self.ty(c); v.push(self.konst(c, &t, f)); c.eat(b','); }
                return Opd::K(Val::A(Rc::new(v)));
            }
            b'<' => {
                c.p += 1;
                if c.peek() == b'{' { let r = self.value(c, ty, f); c.expect(b'>'); return r; }
                let mut v = vec![];
                while !c.eat(b'>') { let t = self.ty(c); v.push(self.konst(c, &t, f)); c.eat(b','); }
                return Opd::K(Val::A(Rc::new(v)));
            }
            _ => {}
        }
        if (ch == b'-' || ch == b'+') && matches!(ty, Ty::F32 | Ty::F64) {
            for (name, d) in [("+inf", f64::INFINITY), ("-inf", f64::NEG_INFINITY), ("+nan", f64::NAN), ("-nan", -f64::NAN), ("+qnan", f64::NAN), ("-qnan", -f64::NAN)] {
                if c.s[c.p..].starts_with(name.as_bytes()) {
                    c.p += name.len();
                    return Opd::K(Val::C(if *ty == Ty::F32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 }));
                }
            }
        }
        if ch == b'-' || ch.is_ascii_digit() {
            if matches!(ty, Ty::F32 | Ty::F64) {
                let w = c.word();
                // 0xHEX or decimal with exponent (contains '+')
                if let Some(h) = w.strip_prefix("0x") {
                    let d = u64::from_str_radix(h, 16).unwrap();
                    return Opd::K(Val::C(if *ty == Ty::F32 { (f64::from_bits(d) as f32).to_bits() as u128 } else { d as u128 }));
                }
                let mut s = w.to_string();
                if c.s.get(c.p) == Some(&b'+') { c.p += 1; s.push('+'); s.push_str(c.word()); }
                let d: f64 = s.parse().unwrap();
                return Opd::K(Val::C(if *ty == Ty::F32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 }));
            }
            let n = c.num();
            let w = match ty { Ty::Int(w) => *w, _ => 64 };
            return Opd::K(Val::C(n as u128 & mask(w)));
        }
        if ch == b'c' && c.s.get(c.p + 1) == Some(&b'"') {
            c.p += 1;
            let b = c.quoted();
            return Opd::K(Val::A(Rc::new(b.into_iter().map(|x| Val::C(x as u128)).collect())));
        }
        let w = c.word();
        if let Some(h) = w.strip_prefix("f0x") { return Opd::K(Val::C(u64::from_str_radix(h, 16).unwrap() as u128)); }
        match w {
            "true" => Opd::K(Val::C(1)),
            "false" | "null" => Opd::K(Val::C(0)),
            "zeroinitializer" | "undef" | "poison" | "none" => Opd::K(ty.zero()),
            "splat" => {
                c.expect(b'(');
                let t = self.ty(c);
                let v = self.konst(c, &t, f);
                c.expect(b')');
                if let Ty::Vec(n, _) = ty { Opd::K(Val::A(Rc::new(vec![v; *n as usize]))) } else { panic!("splat") }
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                c.expect(b'(');
                let t = self.ty(c);
                let v = self.konst(c, &t, f);
                assert_eq!(c.word(), "to");
                let t2 = self.ty(c);
                c.expect(b')');
                let v = match (v, &t2) { (Val::C(k), Ty::Int(w)) => Val::C(k & mask(*w)), (v, _) => v };
                Opd::K(v)
            }
            "getelementptr" => {
                loop {
                    let w = c.peek_word();
                    if w == "inbounds" || w == "nuw" || w == "nusw" { c.word(); } else if w == "inrange" { c.word(); c.skip_parens(); } else { break; }
                }
                c.expect(b'(');
                let t = self.ty(c);
                c.expect(b',');
                let (base, off, terms) = self.gep_rest(c, t, f);
                c.expect(b')');
                let b = match base { Opd::K(Val::C(k)) => k, _ => panic!("gep const") };
                let mut a = (b as u64).wrapping_add(off);
                for (o, w, s) in terms { if let Opd::K(Val::C(k)) = o { a = a.wrapping_add((crate::expr::sx(k, w) as u64).wrapping_mul(s)); } else { panic!("gep const idx") } }
                Opd::K(Val::C(a as u128))
            }
            "sub" | "add" => {
                while matches!(c.peek_word(), "nuw" | "nsw") { c.word(); }
                c.expect(b'(');
                let t = self.ty(c);
                let a = self.konst(c, &t, f);
                c.expect(b',');
                let t2 = self.ty(c);
                let b = self.konst(c, &t2, f);
                c.expect(b')');
                if let (Val::C(a), Val::C(b), Ty::Int(wd)) = (a, b, ty) { Opd::K(Val::C((if w == "sub" { a.wrapping_sub(b) } else { a.wrapping_add(b) }) & mask(*wd))) } else { panic!("const {}", w) }
            }
            _ => {
                let b = c.p.saturating_sub(150);
                panic!("value {:?} near {:?}", w, String::from_utf8_lossy(&c.s[b..(c.p + 60).min(c.s.len())]))
            }
        }
    }
    /// after the source element type and a comma: "ptr base, i64 idx, ..."
    fn gep_rest(&mut self, c: &mut Cur, t: Ty, f: &mut FnCtx) -> (Opd, u64, Vec<(Opd, u32, u64)>) {
        let pt = self.ty(c);
        let base = self.value(c, &pt, f);
        let mut off = 0u64;
        let mut terms = vec![];
        let mut cur = t.clone();
        let mut first = true;
        while c.peek() == b',' {
            let save = c.p;
            c.p += 1;
            if c.peek() == b'!' { c.p = save; break; }
            if c.peek_word() == "inrange" { c.word(); c.skip_parens(); }
            let it = self.ty(c);
            let w = if let Ty::Int(w) = it { w } else { panic!("gep index type {:?}", it) };
            let iv = self.value(c, &it, f);
            if first {
                first = false;
                let s = cur.size();
                match &iv { Opd::K(Val::C(k)) => off = off.wrapping_add((crate::expr::sx(*k, w) as u64).wrapping_mul(s)), _ => terms.push((iv, w, s)) }
                continue;
            }
            match cur.clone() {
                Ty::Struct(fs, _) => {
                    let k = if let Opd::K(Val::C(k)) = iv { k as usize } else { panic!("struct idx") };
                    off = off.wrapping_add(cur.field_off(k));
                    cur = fs[k].clone();
                }
                Ty::Array(_, e) | Ty::Vec(_, e) => {
                    let s = e.size();
                    match &iv { Opd::K(Val::C(k)) => off = off.wrapping_add((crate::expr::sx(*k, w) as u64).wrapping_mul(s)), _ => terms.push((iv, w, s)) }
                    cur = (*e).clone();
                }
                o => panic!("gep into {:?}", o),
            }
        }
        (base, off, terms)
    }
    fn skip_attrs(&mut self, c: &mut Cur) {
        loop {
            let p = c.p;
            if c.peek() == b'"' { c.quoted(); if c.peek() == b'=' { c.p += 1; c.quoted(); } continue; }
            let w = c.word();
            match w {
                "align" | "alignstack" => { if c.peek() == b'(' { c.skip_parens(); } else { c.num(); } }
                "noundef" | "zeroext" | "signext" | "noalias" | "nonnull" | "inreg" | "nocapture" | "readonly" | "writeonly" | "readnone" | "returned" | "nofree" | "nest" | "swiftself" | "immarg" | "noext" | "allocptr" | "allocalign" | "writable" | "dead_on_unwind" | "dead_on_return" | "captures" | "range" | "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "initializes" | "nofpclass" | "elementtype" | "fastcc" | "coldcc" | "ccc" | "tailcc" | "preserve_mostcc" | "preserve_allcc" | "fast" | "nnan" | "ninf" | "nsz" | "contract" | "afn" | "reassoc" | "internal" | "private" | "hidden" | "protected" | "dso_local" | "local_unnamed_addr" | "unnamed_addr" | "weak" | "linkonce_odr" | "weak_odr" | "external" | "extern_weak" | "available_externally" | "default" | "linkonce" | "preserve_nonecc" => {
                    if c.s.get(c.p) == Some(&b'(') { c.skip_parens(); }
                }
                _ => { c.p = p; return; }
            }
        }
    }
    pub fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = &self.fn_parsed[id as usize] { return f.clone(); }
        let (a, b) = self.fn_def[id as usize].unwrap_or_else(|| panic!("no body {}", self.fn_names[id as usize]));
        let text = self.text;
        let f = Rc::new(self.parse_fn(&text[a..b], id));
        self.fn_parsed[id as usize] = Some(f.clone());
        f
    }
    fn parse_fn(&mut self, s: &[u8], id: u32) -> Func {
        let mut c = Cur { s, p: 6 };
        let mut f = FnCtx { regs: HashMap::new(), labels: HashMap::new() };
        self.skip_attrs(&mut c);
        self.ty(&mut c);
        self.skip_attrs(&mut c);
        c.expect(b'@');
        c.name();
        c.expect(b'(');
        let mut params = vec![];
        let mut unnamed = 0;
        while !c.eat(b')') {
            if c.peek() == b'.' { c.p += 3; continue; }
            self.ty(&mut c);
            self.skip_attrs(&mut c);
            if c.peek() == b'%' {
                c.p += 1;
                let n = c.name();
                if n.bytes().all(|x| x.is_ascii_digit()) { unnamed += 1; }
                params.push(f.reg(n));
            } else {
                let n = format!("{}", unnamed);
                unnamed += 1;
                params.push(f.reg(n));
            }
            c.eat(b',');
        }
        c.eol();
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur_label: Option<u32> = None;
        let mut cur = Block { phis: vec![], insts: vec![] };
        let put = |blocks: &mut Vec<Option<Block>>, l: u32, b: Block| {
            while blocks.len() <= l as usize { blocks.push(None); }
            blocks[l as usize] = Some(b);
        };
        loop {
            // at line start
            if c.p >= s.len() { break; }
            let ch = s[c.p];
            if ch == b'}' { break; }
            if ch == b'\n' { c.p += 1; continue; }
            if ch == b';' { c.eol(); continue; }
            if ch != b' ' {
                let n = c.name();
                assert_eq!(s[c.p], b':', "label {:?}", n);
                c.eol();
                if let Some(l) = cur_label { put(&mut blocks, l, std::mem::replace(&mut cur, Block { phis: vec![], insts: vec![] })); }
                cur_label = Some(f.label(&n));
                continue;
            }
            if cur_label.is_none() {
                cur_label = Some(f.label(&format!("{}", unnamed)));
            }
            c.ws();
            if c.s[c.p] == b'#' || c.s[c.p] == b';' { c.eol(); continue; }
            self.inst(&mut c, &mut f, &mut cur);
        }
        if let Some(l) = cur_label { put(&mut blocks, l, cur); }
        let blocks = blocks.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], insts: vec![Inst::Unreachable] })).collect();
        Func { id, params, nregs: f.regs.len() as u32, blocks }
    }
    fn inst(&mut self, c: &mut Cur, f: &mut FnCtx, blk: &mut Block) {
        let mut d: Option<u32> = None;
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            d = Some(f.reg(n));
            c.expect(b'=');
        }
        let w = c.word();
        let dd = d.unwrap_or(u32::MAX);
        let binop = |w: &str| -> Option<BinK> {
            Some(match w { "add" => BinK::Add, "sub" => BinK::Sub, "mul" => BinK::Mul, "udiv" => BinK::UDiv, "sdiv" => BinK::SDiv, "urem" => BinK::URem, "srem" => BinK::SRem, "and" => BinK::And, "or" => BinK::Or, "xor" => BinK::Xor, "shl" => BinK::Shl, "lshr" => BinK::LShr, "ashr" => BinK::AShr, "fadd" => BinK::FAdd, "fsub" => BinK::FSub, "fmul" => BinK::FMul, "fdiv" => BinK::FDiv, "frem" => BinK::FRem, _ => return None })
        };
        let castop = |w: &str| -> Option<CastK> {
            Some(match w { "trunc" => CastK::Trunc, "zext" => CastK::ZExt, "sext" => CastK::SExt, "ptrtoint" | "ptrtoaddr" => CastK::PtrToInt, "inttoptr" => CastK::IntToPtr, "bitcast" => CastK::BitCast, "uitofp" => CastK::UIToFP, "sitofp" => CastK::SIToFP, "fptoui" => CastK::FPToUI, "fptosi" => CastK::FPToSI, "fpext" => CastK::FPExt, "fptrunc" => CastK::FPTrunc, _ => return None })
        };
        let flags = |c: &mut Cur| while matches!(c.peek_word(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak") { c.word(); };
        if let Some(k) = binop(w) {
            flags(c);
            let ty = self.ty(c);
            let a = self.value(c, &ty, f);
            c.expect(b',');
            let b = self.value(c, &ty, f);
            c.eol();
            blk.insts.push(Inst::Bin { d: dd, k, ty, a, b });
            return;
        }
        if let Some(k) = castop(w) {
            flags(c);
            let from = self.ty(c);
            let a = self.value(c, &from, f);
            assert_eq!(c.word(), "to");
            let to = self.ty(c);
            c.eol();
            blk.insts.push(Inst::Cast { d: dd, k, from, to, a });
            return;
        }
        match w {
            "alloca" => {
                let ty = self.ty(c);
                let mut size = ty.size();
                if c.eat(b',') {
                    if c.peek_word() != "align" && c.peek() != b'!' {
                        let t = self.ty(c);
                        if let Opd::K(Val::C(k)) = self.value(c, &t, f) { size *= k as u64; } else { panic!("dynamic alloca") }
                    }
                }
                c.eol();
                blk.insts.push(Inst::Alloca { d: dd, size });
            }
            "load" => {
                flags(c);
                let ty = self.ty(c);
                c.expect(b',');
                let pt = self.ty(c);
                let p = self.value(c, &pt, f);
                c.eol();
                blk.insts.push(Inst::Load { d: dd, ty, p });
            }
            "store" => {
                flags(c);
                let ty = self.ty(c);
                let v = self.value(c, &ty, f);
                c.expect(b',');
                let pt = self.ty(c);
                let p = self.value(c, &pt, f);
                c.eol();
                blk.insts.push(Inst::Store { ty, v, p });
            }
            "getelementptr" => {
                flags(c);
                let t = self.ty(c);
                c.expect(b',');
                let (base, off, terms) = self.gep_rest(c, t, f);
                c.eol();
                blk.insts.push(Inst::Gep { d: dd, base, off, terms });
            }
            "icmp" => {
                flags(c);
                let p = match c.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, o => panic!("pred {}", o) };
                let ty = self.ty(c);
                let a = self.value(c, &ty, f);
                c.expect(b',');
                let b = self.value(c, &ty, f);
                c.eol();
                blk.insts.push(Inst::ICmp { d: dd, p, ty, a, b });
            }
            "fcmp" => {
                flags(c);
                let p = c.word().to_string();
                let ty = self.ty(c);
                let a = self.value(c, &ty, f);
                c.expect(b',');
                let b = self.value(c, &ty, f);
                c.eol();
                blk.insts.push(Inst::FCmp { d: dd, p, ty, a, b });
            }
            "fneg" => { flags(c); let ty = self.ty(c); let a = self.value(c, &ty, f); c.eol(); blk.insts.push(Inst::FNeg { d: dd, ty, a }); }
            "freeze" => { let ty = self.ty(c); let a = self.value(c, &ty, f); c.eol(); blk.insts.push(Inst::Cast { d: dd, k: CastK::Freeze, from: ty.clone(), to: ty, a }); }
            "select" => {
                flags(c);
                let cty = self.ty(c);
                let cv = self.value(c, &cty, f);
                c.expect(b',');
                let ty = self.ty(c);
                let a = self.value(c, &ty, f);
                c.expect(b',');
                self.ty(c);
                let b = self.value(c, &ty, f);
                c.eol();
                blk.insts.push(Inst::Select { d: dd, cty, ty, c: cv, a, b });
            }
            "phi" => {
                flags(c);
                let ty = self.ty(c);
                let mut v = vec![];
                loop {
                    c.expect(b'[');
                    let o = self.value(c, &ty, f);
                    c.expect(b',');
                    c.expect(b'%');
                    let n = c.name();
                    let l = f.label(&n);
                    c.expect(b']');
                    v.push((l, o));
                    if c.peek() == b',' { let p = c.p; c.p += 1; if c.peek() == b'[' { continue; } c.p = p; }
                    break;
                }
                c.eol();
                blk.phis.push((dd, v));
            }
            "br" => {
                if c.eat_word("label") {
                    c.expect(b'%');
                    let n = c.name();
                    let l = f.label(&n);
                    blk.insts.push(Inst::Br(l));
                } else {
                    let ty = self.ty(c);
                    let v = self.value(c, &ty, f);
                    c.expect(b',');
                    c.word();
                    c.expect(b'%');
                    let n = c.name();
                    let t = f.label(&n);
                    c.expect(b',');
                    c.word();
                    c.expect(b'%');
                    let n = c.name();
                    let e = f.label(&n);
                    blk.insts.push(Inst::CondBr { c: v, t, f: e });
                }
                c.eol();
            }
            "switch" => {
                let ty = self.ty(c);
                let v = self.value(c, &ty, f);
                c.expect(b',');
                c.word();
                c.expect(b'%');
                let n = c.name();
                let def = f.label(&n);
                c.expect(b'[');
                let mut cases = vec![];
                loop {
                    c.wsn();
                    if c.eat(b']') { break; }
                    let t = self.ty(c);
                    let k = if let Opd::K(Val::C(k)) = self.value(c, &t, f) { k } else { panic!() };
                    c.expect(b',');
                    c.word();
                    c.expect(b'%');
                    let n = c.name();
                    cases.push((k, f.label(&n)));
                }
                c.eol();
                let w = if let Ty::Int(w) = ty { w } else { panic!("switch ty") };
                blk.insts.push(Inst::Switch { w, v, def, cases });
            }
            "ret" => {
                let ty = self.ty(c);
                let v = if ty == Ty::Void { None } else { Some(self.value(c, &ty, f)) };
                c.eol();
                blk.insts.push(Inst::Ret(v));
            }
            "unreachable" | "resume" => { c.eol(); blk.insts.push(Inst::Unreachable); }
            "fence" => { c.eol(); blk.insts.push(Inst::Nop); }
            "landingpad" | "cleanuppad" | "catchpad" | "catchswitch" => {
                c.eol();
                loop {
                    let p = c.p;
                    c.ws();
                    let w = c.peek_word();
                    if matches!(w, "cleanup" | "catch" | "filter") { c.eol(); } else { c.p = p; break; }
                }
                blk.insts.push(Inst::Landing);
            }
            "extractvalue" | "insertvalue" => {
                let ty = self.ty(c);
                let a = self.value(c, &ty, f);
                let mut v = None;
                if w == "insertvalue" {
                    c.expect(b',');
                    let t2 = self.ty(c);
                    v = Some(self.value(c, &t2, f));
                }
                let mut idx = vec![];
                while c.peek() == b',' {
                    let p = c.p;
                    c.p += 1;
                    if c.peek() == b'!' { c.p = p; break; }
                    idx.push(c.num() as u32);
                }
                c.eol();
                blk.insts.push(match v { None => Inst::ExtractV { d: dd, a, idx }, Some(v) => Inst::InsertV { d: dd, a, v, idx } });
            }
            "extractelement" => {
                let ty = self.ty(c);
                let a = self.value(c, &ty, f);
                c.expect(b',');
                let t = self.ty(c);
                let i = self.value(c, &t, f);
                c.eol();
                blk.insts.push(Inst::ExtractE { d: dd, a, i });
            }
            "insertelement" => {
                let ty = self.ty(c);
                let a = self.value(c, &ty, f);
                c.expect(b',');
                let t = self.ty(c);
                let v = self.value(c, &t, f);
                c.expect(b',');
                let t = self.ty(c);
                let i = self.value(c, &t, f);
                c.eol();
                blk.insts.push(Inst::InsertE { d: dd, a, v, i });
            }
            "shufflevector" => {
                let ty = self.ty(c);
                let a = self.value(c, &ty, f);
                c.expect(b',');
                let t = self.ty(c);
                let b = self.value(c, &t, f);
                c.expect(b',');
                let t = self.ty(c);
                let m = self.value(c, &t, f);
                c.eol();
                blk.insts.push(Inst::Shuffle { d: dd, a, b, m });
            }
            "atomicrmw" => {
                flags(c);
                let op = c.word().to_string();
                let pt = self.ty(c);
                let p = self.value(c, &pt, f);
                c.expect(b',');
                let ty = self.ty(c);
                let v = self.value(c, &ty, f);
                c.eol();
                blk.insts.push(Inst::Rmw { d: dd, op, w: ty.bits() as u32, p, v });
            }
            "cmpxchg" => {
                flags(c);
                let pt = self.ty(c);
                let p = self.value(c, &pt, f);
                c.expect(b',');
                let ty = self.ty(c);
                let e = self.value(c, &ty, f);
                c.expect(b',');
                self.ty(c);
                let n = self.value(c, &ty, f);
                c.eol();
                blk.insts.push(Inst::CmpXchg { d: dd, w: ty.bits() as u32, p, e, n });
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if w != "call" && w != "invoke" { assert_eq!(c.word(), "call"); }
                let invoke = w == "invoke";
                self.skip_attrs(c);
                let ret = self.ty(c);
                if c.peek() == b'(' { c.skip_parens(); }
                self.skip_attrs(c);
                let callee = if c.peek_word() == "asm" {
                    c.word();
                    let mut s = String::new();
                    loop {
                        if c.peek() == b'"' { s = String::from_utf8_lossy(&c.quoted()).into_owned(); c.expect(b','); c.ws(); c.quoted(); break; }
                        c.word();
                    }
                    Callee::Asm(s)
                } else {
                    match c.peek() {
                        b'@' => { c.p += 1; let n = c.name(); let n = self.alias.get(&n).cloned().unwrap_or(n); Callee::Fn(self.fnid(&n)) }
                        _ => Callee::Ind(self.value(c, &Ty::Ptr, f)),
                    }
                };
                c.expect(b'(');
                let mut args = vec![];
                let mut atys = vec![];
                while !c.eat(b')') {
                    let t = self.ty(c);
                    if t == Ty::Other {
                        // metadata argument: skip to , or )
                        let mut depth = 0;
                        while !(depth == 0 && (c.s[c.p] == b',' || c.s[c.p] == b')')) { if c.s[c.p] == b'(' { depth += 1 } if c.s[c.p] == b')' { depth -= 1 } c.p += 1; }
                        c.eat(b',');
                        continue;
                    }
                    self.skip_attrs(c);
                    let v = self.value(c, &t, f);
                    args.push(v);
                    atys.push(t);
                    c.eat(b',');
                }
                let mut next = None;
                if invoke {
                    // ... to label %x unwind label %y
                    loop {
                        c.wsn();
                        if c.eat_word("to") { break; }
                        c.p += 1;
                    }
                    c.word();
                    c.expect(b'%');
                    let n = c.name();
                    next = Some(f.label(&n));
                }
                c.eol();
                blk.insts.push(Inst::Call { d, ret, f: callee, args, atys, next });
            }
            o => panic!("unknown instruction {:?} near {:?}", o, String::from_utf8_lossy(&c.s[c.p.saturating_sub(60)..(c.p + 60).min(c.s.len())])),
        }
    }
}
fn memchr(s: &[u8], mut i: usize) -> usize {
    while i < s.len() && s[i] != b'\n' { i += 1; }
    i
}
pub fn flatten(v: &Val, ty: &Ty, out: &mut [u8], off: usize) {
    match ty {
        Ty::Struct(f, _) => if let Val::A(a) = v { for (i, t) in f.iter().enumerate() { flatten(&a[i], t, out, off + ty.field_off(i) as usize); } },
        Ty::Array(_, t) => if let Val::A(a) = v { for (i, x) in a.iter().enumerate() { flatten(x, t, out, off + i * t.size() as usize); } },
        Ty::Vec(_, t) => if let Val::A(a) = v { for (i, x) in a.iter().enumerate() { flatten(x, t, out, off + i * t.size() as usize); } },
        _ => if let Val::C(k) = v { for i in 0..ty.size() as usize { out[off + i] = (k >> (8 * i)) as u8; } },
    }
}
