//! The symbolic executor.
use crate::diff::{Diff, Lins};
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::BuildHasherDefault;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use Val::*;
pub enum Stop {
    Done,
    Assume,
    Panic(String),
    Fail,
    Limit(String),
    Err(String),
    Child,
}
type R<T> = Result<T, Stop>;
#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    regs: Vec<Val>,
    blk: u32,
    ip: u32,
    prev: u32,
    allocas: Vec<u32>,
    dst: Option<u32>,
    next: Option<u32>,
}
pub struct ModelV {
    vals: Vec<u64>,
    memo: RefCell<Memo>,
}
#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Mem,
    gmem: HashMap<u32, Rc<Obj>, BuildHasherDefault<Fx>>,
    pc: Vec<N>,
    model: Rc<ModelV>,
    known: Rc<HashMap<N, u128, BuildHasherDefault<Fx>>>,
    diff: Rc<Diff>,
    syms: Vec<(Rc<str>, N, i64)>,
    obs: Vec<(Val, u32)>,
    reach: Vec<Rc<str>>,
    insts: u64,
    panic_ok: bool,
    stdout: u32,
    errno: u64,
    depth_asserts: u32,
    nsym: usize,
    forced: Option<u64>,
    /// files of the path: name, contents (an object), length; open files: file, position
    files: Rc<Vec<(String, u64, usize)>>,
    fds: Rc<Vec<Option<(usize, usize)>>>,
}
pub struct Shared(pub *mut AtomicU64);
impl Shared {
    pub fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { &*self.0.add(i) }
    }
}
pub const ACTIVE: usize = 0;
pub const PATHS: usize = 1;
pub const VIOL: usize = 2;
pub const STOP: usize = 3;
pub struct Cfg {
    pub jobs: u64,
    pub time: f64,
    pub max_insts: u64,
    pub max_viol: u64,
    pub samples: u64,
    pub known: Vec<String>,
    pub trace: bool,
    pub show_over: f64,
    /// cross-check the entailment shortcut with the solver
    pub check_fast: bool,
    /// fork at data selects instead of building if-then-else terms
    pub split: bool,
    /// debugging aid: an assignment whose path must never be lost
    pub watch: Vec<u64>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    None, Panic, Alloc, AllocZ, Dealloc, Realloc, Nop, Malloc, Calloc, ReallocC, Free, PosixMemalign, Memcmp, Bcmp, Strlen, Getrandom, Getenv, Ret0, RetM1, Write, Writev, Abort, Exit, Errno, VpRange, VpChoose, VpAssume, VpAssert, VpReach, VpObserve, VpPanicOk, VpConcrete, VpSurely, VpIsSym, Intr, Syscall, Memcpy, Memset, Open, Read, Close, Lseek, Statx, VpDir,
}
const FD: usize = 100;
pub struct Engine {
    pub prog: Program,
    pub ex: Exprs,
    pub z3: Z3,
    pub cfg: Cfg,
    pub sh: Shared,
    pub out: std::fs::File,
    pub start: std::time::Instant,
    bi: Vec<Option<Bi>>,
    gobj: HashMap<u32, (Rc<Obj>, bool)>,
    pending: Vec<State>,
    vars: HashMap<(usize, u32, u64), (usize, N)>,
    pub paths: u64,
    pub assumed: u64,
    pub panics_ok: u64,
    pub incomplete: u64,
    pub insts: u64,
    pub decides: u64,
    pub fast: u64,
    lins: Lins,
    pub forks: u64,
    pub asserts: u64,
    pub maxobs: u64,
    pub maxpc: u64,
    pub fns: BTreeSet<u32>,
    pub reach: BTreeMap<String, u64>,
    pub incomplete_why: BTreeMap<String, u64>,
    viol_seen: HashMap<String, u32>,
    pub vcount: u64,
    pub children: Vec<i32>,
    pub root: bool,
}
extern "C" {
    fn fork() -> i32;
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o
}
impl Engine {
    pub fn new(prog: Program, cfg: Cfg, sh: Shared, out: std::fs::File) -> Engine {
        Engine { prog, ex: Exprs::new(), z3: Z3::new(), cfg, sh, out, start: std::time::Instant::now(), bi: vec![], gobj: HashMap::new(), pending: vec![], vars: HashMap::new(), paths: 0, assumed: 0, panics_ok: 0, incomplete: 0, insts: 0, decides: 0, fast: 0, lins: Default::default(), forks: 0, asserts: 0, maxobs: 0, maxpc: 0, fns: BTreeSet::new(), reach: BTreeMap::new(), incomplete_why: BTreeMap::new(), viol_seen: HashMap::new(), vcount: 0, children: vec![], root: true }
    }
    pub fn emit(&mut self, s: String) {
        use std::io::Write;
        let mut b = s.into_bytes();
        b.push(b'\n');
        let _ = self.out.write_all(&b);
    }
    pub fn run_entry(&mut self, entry: &str) {
        let id = self.prog.find_fn(entry).unwrap_or_else(|| { eprintln!("no entry {}", entry); std::process::exit(3) });
        let f = self.prog.func(id);
        let fr = Frame { regs: vec![C(0); f.nregs as usize], f, blk: 0, ip: 0, prev: 0, allocas: vec![], dst: None, next: None };
        let st = State { frames: vec![Rc::new(fr)], mem: Mem::new(), gmem: Default::default(), pc: vec![], model: Rc::new(ModelV { vals: vec![], memo: Default::default() }), known: Default::default(), diff: Default::default(), syms: vec![], obs: vec![], reach: vec![], insts: 0, panic_ok: false, stdout: 0, errno: 0, depth_asserts: 0, nsym: 0, forced: None, files: Default::default(), fds: Default::default() };
        self.fns.insert(id);
        if self.cfg.show_over > 0.0 { self.z3.show_over = Some(self.cfg.show_over / 1e3); }
        self.pending.push(st);
        self.work();
    }
    fn work(&mut self) {
        while let Some(mut st) = self.pending.pop() {
            if self.sh.at(STOP).load(SeqCst) != 0 || self.start.elapsed().as_secs_f64() > self.cfg.time {
                let n = self.pending.len() as u64 + 1;
                self.incomplete += n;
                *self.incomplete_why.entry(if self.sh.at(STOP).load(SeqCst) != 0 { "stopped after violations" } else { "time budget" }.into()).or_insert(0) += n;
                self.pending.clear();
                break;
            }
            let r = match self.exec(&mut st) { Ok(()) => unreachable!(), Err(e) => e };
            if let Stop::Child = r { continue; }
            self.finish(st, r);
            self.offload();
        }
    }
    /// returns true in a freshly forked child
    fn offload(&mut self) -> bool {
        if self.pending.len() < 2 { return false; }
        loop {
            let a = self.sh.at(ACTIVE).load(SeqCst);
            if a >= self.cfg.jobs { return false; }
            if self.sh.at(ACTIVE).compare_exchange(a, a + 1, SeqCst, SeqCst).is_ok() { break; }
        }
        let pid = unsafe { fork() };
        if pid < 0 { self.sh.at(ACTIVE).fetch_sub(1, SeqCst); return false; }
        if pid == 0 {
            // child: every other state
            let all = std::mem::take(&mut self.pending);
            self.pending = all.into_iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|x| x.1).collect();
            self.paths = 0; self.assumed = 0; self.panics_ok = 0; self.incomplete = 0; self.insts = 0; self.decides = 0; self.fast = 0; self.forks = 0; self.asserts = 0; self.maxobs = 0; self.maxpc = 0; self.vcount = 0;
            self.reach.clear();
            self.incomplete_why.clear();
            self.children.clear();
            self.z3.queries = 0; self.z3.sat = 0; self.z3.unsat = 0; self.z3.unknown = 0; self.z3.time = 0.0;
            self.root = false;
            true
        } else {
            self.children.push(pid);
            let all = std::mem::take(&mut self.pending);
            self.pending = all.into_iter().enumerate().filter(|(i, _)| i % 2 == 1).map(|x| x.1).collect();
            false
        }
    }
    fn vals_json(&self, st: &State, m: &ModelV) -> String {
        let mut s = String::from("[");
        for (i, (n, nd, lo)) in st.syms.iter().enumerate() {
            if i > 0 { s.push(','); }
            let v = self.ex.eval(*nd, &m.vals, &mut m.memo.borrow_mut()) as u64 as i64;
            s.push_str(&format!("[\"{}\",{}]", esc(n), lo.wrapping_add(v)));
        }
        s.push(']');
        s
    }
    fn stack(&self, st: &State) -> String {
        let v: Vec<String> = st.frames.iter().rev().take(12).map(|f| format!("\"{}\"", esc(&demangle(&self.prog.fn_names[f.f.id as usize])))).collect();
        format!("[{}]", v.join(","))
    }
    fn violation(&mut self, st: &State, m: &ModelV, kind: &str, msg: &str) {
        let key = format!("{}:{}", kind, msg);
        let c = self.viol_seen.entry(key).or_insert(0);
        *c += 1;
        self.vcount += 1;
        if *c > 2 { return; }
        let s = format!("{{\"t\":\"viol\",\"kind\":\"{}\",\"msg\":\"{}\",\"vals\":{},\"stack\":{}}}", kind, esc(msg), self.vals_json(st, m), self.stack(st));
        self.emit(s);
        if !self.cfg.known.iter().any(|k| msg.starts_with(k.as_str())) {
            let n = self.sh.at(VIOL).fetch_add(1, SeqCst) + 1;
            if n >= self.cfg.max_viol { self.sh.at(STOP).store(1, SeqCst); }
        }
    }
    fn finish(&mut self, st: State, r: Stop) {
        self.insts += st.insts;
        self.maxpc = self.maxpc.max(st.pc.len() as u64);
        let m = st.model.clone();
        if matches!(r, Stop::Done | Stop::Panic(_) | Stop::Fail) {
            for l in &st.reach { *self.reach.entry(l.to_string()).or_insert(0) += 1; }
        }
        match r {
            Stop::Done => {
                self.paths += 1;
                let n = self.sh.at(PATHS).fetch_add(1, SeqCst);
                if n < self.cfg.samples / 2 || (n & (n - 1)) == 0 || n % 997 == 0 && n < 997 * self.cfg.samples / 2 {
                    let mut o = String::from("[");
                    for (i, (v, w)) in st.obs.iter().enumerate() {
                        if i > 0 { o.push(','); }
                        let k = match v { C(k) => *k, S(n) => self.ex.eval(*n, &m.vals, &mut m.memo.borrow_mut()), _ => 0 };
                        let _ = w;
                        o.push_str(&format!("\"{}\"", k as u64));
                    }
                    o.push(']');
                    let s = format!("{{\"t\":\"sample\",\"vals\":{},\"obs\":{}}}", self.vals_json(&st, &m), o);
                    self.emit(s);
                }
            }
            Stop::Child => {}
            Stop::Assume => self.assumed += 1,
            Stop::Fail => { self.paths += 1; }
            Stop::Panic(msg) => {
                self.paths += 1;
                if st.panic_ok { self.panics_ok += 1; } else { self.violation(&st, &m, "panic", &msg); }
            }
            Stop::Limit(msg) => { self.violation(&st, &m, "limit", &msg); self.incomplete += 1; *self.incomplete_why.entry(msg).or_insert(0) += 1; }
            Stop::Err(msg) => {
                let s = format!("{{\"t\":\"err\",\"msg\":\"{}\",\"vals\":{},\"stack\":{}}}", esc(&msg), self.vals_json(&st, &m), self.stack(&st));
                if *self.viol_seen.entry(format!("err{}", msg)).and_modify(|x| *x += 1).or_insert(1) <= 2 { self.emit(s); }
                self.incomplete += 1;
                *self.incomplete_why.entry(format!("engine: {}", msg)).or_insert(0) += 1;
            }
        }
    }
    fn eval(&self, st: &State, n: N) -> u128 {
        self.ex.eval(n, &st.model.vals, &mut st.model.memo.borrow_mut())
    }
    fn learn(&mut self, st: &mut State, n: N, val: bool) {
        let k = Rc::make_mut(&mut st.known);
        let mut todo = vec![(n, val)];
        while let Some((n, v)) = todo.pop() {
            if k.insert(n, v as u128).is_some() { continue; }
            let d = self.ex.node(n);
            match d.op {
                Op::Xor if self.ex.cval(d.b) == Some(1) => todo.push((d.a, !v)),
                Op::And if v => { todo.push((d.a, true)); todo.push((d.b, true)); }
                Op::Or if !v => { todo.push((d.a, false)); todo.push((d.b, false)); }
                Op::Eq if v => {
                    if let Some(c) = self.ex.cval(d.b) { k.insert(d.a, c); }
                }
                _ => {}
            }
        }
        // the negated form, so that both spellings are known
        let nn = self.ex.not(n);
        if self.ex.cval(nn).is_none() { Rc::make_mut(&mut st.known).insert(nn, !val as u128); }
    }
    fn add(&mut self, st: &mut State, n: N) {
        // n must hold from here on
        if self.ex.cval(n) == Some(1) { return; }
        st.pc.push(n);
        Rc::make_mut(&mut st.diff).learn(&self.ex, &mut self.lins, n, true);
        self.learn(st, n, true);
    }
    fn nvars(&self) -> usize { self.ex.var_w.len() }
    fn mk_model(v: Vec<u64>) -> Rc<ModelV> {
        Rc::new(ModelV { vals: v, memo: Default::default() })
    }
    /// Branch on a symbolic condition: follow the current model, queue the other side if feasible.
    fn decide(&mut self, st: &mut State, c: &Val) -> R<bool> {
        let n = match c { C(k) => return Ok(*k & 1 == 1), S(n) => *n, _ => return Err(Stop::Err("branch on aggregate".into())) };
        if let Some(k) = st.known.get(&n) { return Ok(*k == 1); }
        self.decides += 1;
        if let Some(v) = st.diff.entails(&self.ex, &mut self.lins, n, 4) {
            if self.cfg.check_fast {
                let q = if v { self.ex.not(n) } else { n };
                let nv = self.nvars();
                if !matches!(self.z3.check(&self.ex, &st.pc, Some(q), nv), Res::Unsat) { eprintln!("FAST WRONG {} {}", v, self.ex.show(n, 9)); for p in &st.pc { eprintln!("  pc {}", self.ex.show(*p, 9)); } std::process::abort(); }
            }
            self.fast += 1;
            self.learn(st, n, v);
            return Ok(v);
        }
        let v = self.eval(st, n) == 1;
        let pos = if v { n } else { self.ex.not(n) };
        let neg = self.ex.not(pos);
        let nv = self.nvars();
        match self.z3.check(&self.ex, &st.pc, Some(neg), nv) {
            Res::Sat(m) => {
                let mut o = st.clone();
                o.model = Self::mk_model(m);
                self.add(&mut o, neg);
                self.pending.push(o);
                self.forks += 1;
                self.add(st, pos);
            }
            Res::Unsat => {
                if self.cfg.trace { eprintln!("SLOW {}", self.ex.show(pos, 9)); }
                if !self.cfg.watch.is_empty() {
                    let w = self.cfg.watch.clone();
                    let mut memo = Memo::default();
                    if st.pc.iter().all(|p| self.ex.eval(*p, &w, &mut memo) == 1) && self.ex.eval(pos, &w, &mut memo) != 1 {
                        eprintln!("WATCH lost at {} node {} : {}", self.stack(st), pos, self.ex.show(pos, 12));
                        for p in &st.pc { eprintln!("  pc {} {}", p, self.ex.show(*p, 12)); }
                    }
                }
                self.learn(st, pos, true)
            }
            Res::Unknown => {
                self.incomplete += 1;
                *self.incomplete_why.entry("solver timeout".into()).or_insert(0) += 1;
                self.add(st, pos);
            }
        }
        if self.start.elapsed().as_secs_f64() > self.cfg.time || self.sh.at(STOP).load(SeqCst) != 0 {
            return Err(Stop::Err("time budget".into()));
        }
        self.offload_inner()?;
        Ok(v)
    }
    fn offload_inner(&mut self) -> R<()> {
        if self.pending.len() >= 2 && self.sh.at(ACTIVE).load(SeqCst) < self.cfg.jobs && self.offload() {
            // the child leaves the parent's current state alone and works on its share
            return Err(Stop::Child);
        }
        Ok(())
    }
    fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> R<u128> {
        match v {
            C(k) => Ok(*k),
            S(n) => {
                if let Some(k) = st.known.get(n) { return Ok(*k); }
                loop {
                    let k = self.eval(st, *n);
                    let kn = self.ex.konst(k, w);
                    let e = self.ex.bin(Op::Eq, w, *n, kn);
                    let ev = self.ex.v(e);
                    if self.decide(st, &ev)? { return Ok(k); }
                }
            }
            _ => Err(Stop::Err("concretize aggregate".into())),
        }
    }
    // ---------------- memory ---------------------------------------------
    fn gobj(&mut self, id: u32) -> (Rc<Obj>, bool) {
        if let Some(o) = self.gobj.get(&id) { return o.clone(); }
        let g = self.prog.global(id);
        let o = (Rc::new(Obj { b: g.bytes.to_vec(), sym: None }), g.constant);
        self.gobj.insert(id, o.clone());
        o
    }
    fn obj(&mut self, st: &State, addr: u64) -> R<(Rc<Obj>, usize)> {
        let id = (addr >> 32) as u32;
        let off = addr as u32 as usize;
        if id as u64 & GLOB != 0 {
            let g = id & !(GLOB as u32);
            if let Some(o) = st.gmem.get(&g) { return Ok((o.clone(), off)); }
            return Ok((self.gobj(g).0, off));
        }
        match st.mem.get(id) {
            Some(o) => Ok((o.clone(), off)),
            None => Err(Stop::Err(format!("invalid memory access {:#x}", addr))),
        }
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64) -> R<(&'a mut Obj, usize)> {
        let id = (addr >> 32) as u32;
        let off = addr as u32 as usize;
        if id as u64 & GLOB != 0 {
            let g = id & !(GLOB as u32);
            if !st.gmem.contains_key(&g) {
                let (o, c) = self.gobj(g);
                if c { return Err(Stop::Err("write to constant".into())); }
                st.gmem.insert(g, o);
            }
            return Ok((Rc::make_mut(st.gmem.get_mut(&g).unwrap()), off));
        }
        match st.mem.get_mut(id) {
            Some(o) => Ok((o, off)),
            None => Err(Stop::Err(format!("invalid memory write {:#x}", addr))),
        }
    }
    fn read(&mut self, st: &State, addr: u64, n: usize) -> R<Val> {
        let id = (addr >> 32) as u32;
        if id as u64 & GLOB == 0 {
            if let Some(o) = st.mem.get(id) {
                let off = addr as u32 as usize;
                if off + n > o.b.len() { return Err(Stop::Err(format!("out-of-bounds read {:#x}+{} of {}", off, n, o.b.len()))); }
                return Ok(o.read(&mut self.ex, off, n));
            }
        }
        let (o, off) = self.obj(st, addr)?;
        if off + n > o.b.len() { return Err(Stop::Err(format!("out-of-bounds read {:#x}+{} of {}", off, n, o.b.len()))); }
        Ok(o.read(&mut self.ex, off, n))
    }
    fn write(&mut self, st: &mut State, addr: u64, n: usize, v: &Val) -> R<()> {
        let (o, off) = self.obj_mut(st, addr)?;
        if off + n > o.b.len() { return Err(Stop::Err(format!("out-of-bounds write {:#x}+{} of {}", off, n, o.b.len()))); }
        o.write(off, n, v);
        Ok(())
    }
    fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(w) => {
                let n = ((w + 7) / 8) as usize;
                let v = self.read(st, addr, n)?;
                if w % 8 != 0 { Ok(self.ex.vextract(&v, n as u32 * 8, 0, *w)) } else { Ok(v) }
            }
            Ty::Ptr | Ty::F64 => self.read(st, addr, 8),
            Ty::F32 => self.read(st, addr, 4),
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for (i, t) in f.iter().enumerate() { v.push(self.load(st, addr + ty.field_off(i), t)?); }
                Ok(A(Rc::new(v)))
            }
            Ty::Array(n, t) => {
                let mut v = vec![];
                for i in 0..*n { v.push(self.load(st, addr + i * t.size(), t)?); }
                Ok(A(Rc::new(v)))
            }
            Ty::Vec(n, t) => {
                let eb = t.bits();
                if eb % 8 == 0 {
                    let mut v = Vec::with_capacity(*n as usize);
                    for i in 0..*n { v.push(self.read(st, addr + i * eb / 8, eb as usize / 8)?); }
                    Ok(A(Rc::new(v)))
                } else {
                    let nb = (n * eb + 7) / 8;
                    let x = self.read(st, addr, nb as usize)?;
                    let x = self.ex.vextract(&x, nb as u32 * 8, 0, (n * eb) as u32);
                    Ok(self.from_bits(&x, *n, eb as u32))
                }
            }
            _ => Err(Stop::Err(format!("load {:?}", ty))),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> R<()> {
        match ty {
            Ty::Int(w) => {
                let n = ((w + 7) / 8) as usize;
                let v2;
                let v = if w % 8 != 0 { v2 = self.ex.vzext(v, *w, n as u32 * 8); &v2 } else { v };
                self.write(st, addr, n, v)
            }
            Ty::Ptr | Ty::F64 => self.write(st, addr, 8, v),
            Ty::F32 => self.write(st, addr, 4, v),
            Ty::Struct(f, _) => {
                if let A(a) = v { for (i, t) in f.iter().enumerate() { self.store(st, addr + ty.field_off(i), t, &a[i])?; } }
                Ok(())
            }
            Ty::Array(_, t) => {
                if let A(a) = v { for (i, x) in a.iter().enumerate() { self.store(st, addr + i as u64 * t.size(), t, x)?; } }
                Ok(())
            }
            Ty::Vec(n, t) => {
                let eb = t.bits();
                if eb % 8 == 0 {
                    if let A(a) = v { for (i, x) in a.iter().enumerate() { self.write(st, addr + i as u64 * eb / 8, eb as usize / 8, x)?; } }
                    Ok(())
                } else {
                    let x = self.to_bits(v, eb as u32);
                    let nb = (n * eb + 7) / 8;
                    let x = self.ex.vzext(&x, (n * eb) as u32, nb as u32 * 8);
                    self.write(st, addr, nb as usize, &x)
                }
            }
            _ => Err(Stop::Err(format!("store {:?}", ty))),
        }
    }
    fn to_bits(&mut self, v: &Val, eb: u32) -> Val {
        if let A(a) = v {
            if a.iter().all(|x| matches!(x, C(_))) && a.len() as u32 * eb <= 128 {
                let mut k = 0u128;
                for (i, x) in a.iter().enumerate() { if let C(c) = x { k |= c << (i as u32 * eb); } }
                return C(k);
            }
            let mut acc = self.ex.n(&a[0], eb);
            for x in &a[1..] { let h = self.ex.n(x, eb); acc = self.ex.concat(h, acc); }
            return self.ex.v(acc);
        }
        v.clone()
    }
    fn from_bits(&mut self, v: &Val, n: u64, eb: u32) -> Val {
        let mut o = Vec::with_capacity(n as usize);
        for i in 0..n as u32 { o.push(self.ex.vextract(v, n as u32 * eb, i * eb, eb)); }
        A(Rc::new(o))
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: usize) -> R<()> {
        if n == 0 { return Ok(()); }
        let (so, soff) = self.obj(st, src)?;
        if soff + n > so.b.len() { return Err(Stop::Err(format!("out-of-bounds copy from {:#x}+{} of {}", soff, n, so.b.len()))); }
        let bytes = so.b[soff..soff + n].to_vec();
        let mut syms: Vec<(u32, (N, u8))> = vec![];
        if let Some(s) = &so.sym {
            if s.len() <= n { for (k, v) in s.iter() { let k = *k as usize; if k >= soff && k < soff + n { syms.push(((k - soff) as u32, *v)); } } }
            else { for i in 0..n { if let Some(v) = s.get(&((soff + i) as u32)) { syms.push((i as u32, *v)); } } }
        }
        drop(so);
        let (o, off) = self.obj_mut(st, dst)?;
        if off + n > o.b.len() { return Err(Stop::Err(format!("out-of-bounds copy to {:#x}+{} of {}", off, n, o.b.len()))); }
        o.b[off..off + n].copy_from_slice(&bytes);
        if let Some(s) = &mut o.sym {
            if s.len() < n { s.retain(|k, _| !((*k as usize) >= off && (*k as usize) < off + n)); } else { for i in 0..n { s.remove(&((off + i) as u32)); } }
        }
        if !syms.is_empty() {
            let s = o.sym.get_or_insert_with(Default::default);
            for (k, v) in syms { s.insert(off as u32 + k, v); }
        } else if o.sym.as_ref().map_or(false, |s| s.is_empty()) { o.sym = None; }
        Ok(())
    }
    fn string(&mut self, st: &State, p: u64, n: usize) -> R<String> {
        if n == 0 { return Ok(String::new()); }
        let (o, off) = self.obj(st, p)?;
        Ok(String::from_utf8_lossy(&o.b[off..(off + n).min(o.b.len())]).into_owned())
    }
    // ---------------- instructions ---------------------------------------
    #[inline]
    fn op(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::K(v) => v.clone(),
            Opd::R(r) => {
                let fr = unsafe { st.frames.get_unchecked(st.frames.len() - 1) };
                match &fr.regs[*r as usize] {
                    S(n) => match st.known.get(n) { Some(k) => C(*k), None => S(*n) },
                    v => v.clone(),
                }
            }
        }
    }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: Val) {
        let n = st.frames.len() - 1;
        Rc::make_mut(&mut st.frames[n]).regs[d as usize] = v;
    }
    /// number of low bits known to be zero
    fn tz(&self, n: N) -> u32 {
        let d = self.ex.node(n);
        match d.op {
            Op::Const => (d.k.trailing_zeros()).min(d.w as u32),
            Op::Add | Op::Sub | Op::Or | Op::Xor => self.tz(d.a).min(self.tz(d.b)),
            Op::Mul => (self.tz(d.a) + self.tz(d.b)).min(d.w as u32),
            Op::And => self.tz(d.a).max(self.tz(d.b)),
            Op::Shl => match self.ex.cval(d.b) { Some(k) => (self.tz(d.a) + k as u32).min(d.w as u32), None => 0 },
            Op::ZExt | Op::SExt => self.tz(d.a),
            _ => 0,
        }
    }
    /// A read at a symbolic address within one small object becomes a selection between its entries.
    fn table(&mut self, st: &mut State, a: N, w: u32) -> R<Option<Val>> {
        if w % 8 != 0 || w > 64 || st.known.contains_key(&a) { return Ok(None); }
        let r = self.ex.rng(a);
        let (lo, mut hi) = (r.ulo as u64, r.uhi as u64);
        if lo >> 32 != hi >> 32 || lo >> 32 == 0 || hi - lo > 1024 { return Ok(None); }
        let stride = 1u64 << self.tz(a).min(6).min(lo.trailing_zeros());
        let n = (w / 8) as usize;
        let Ok((o, off)) = self.obj(st, lo) else { return Ok(None) };
        if off + n > o.b.len() { return Ok(None); }
        let last = lo + (o.b.len() - n - off) as u64;
        if hi > last {
            let k = self.ex.konst(last as u128, 64);
            let c = self.ex.bin(Op::Ult, 64, k, a);
            let c = self.ex.v(c);
            if self.decide(st, &c)? { return Ok(None); }
            hi = last;
        }
        if (hi - lo) / stride >= 128 { return Ok(None); }
        let vals: Vec<(u64, Val)> = (lo..=hi).step_by(stride as usize).map(|x| (x, o.read(&mut self.ex, off + (x - lo) as usize, n))).collect();
        Ok(Some(self.pick(a, w, &vals)))
    }
    fn pick(&mut self, a: N, w: u32, vals: &[(u64, Val)]) -> Val {
        let same = |x: &Val, y: &Val| match (x, y) { (C(x), C(y)) => x == y, (S(x), S(y)) => x == y, _ => false };
        if vals.iter().all(|v| same(&v.1, &vals[0].1)) { return vals[0].1.clone(); }
        let m = vals.len() / 2;
        let (l, r) = (self.pick(a, w, &vals[..m]), self.pick(a, w, &vals[m..]));
        let k = self.ex.konst(vals[m].0 as u128, 64);
        let c = self.ex.bin(Op::Ult, 64, a, k);
        let c = self.ex.v(c);
        self.ex.vite(&c, &l, &r, w)
    }
    fn addr(&mut self, st: &mut State, o: &Opd) -> R<u64> {
        match self.op(st, o) {
            C(k) => Ok(k as u64),
            v => self.concretize(st, &v, 64).map(|k| k as u64),
        }
    }
    fn jump(&mut self, st: &mut State, f: &Func, to: u32) {
        let n = st.frames.len() - 1;
        let cur = st.frames[n].blk;
        let b = &f.blocks[to as usize];
        if b.phis.is_empty() {
        } else if b.phis.len() == 1 {
            let (d, v) = &b.phis[0];
            let o = &v.iter().find(|x| x.0 == cur).expect("phi pred").1;
            let x = self.op(st, o);
            self.set(st, *d, x);
        } else {
            let vals: Vec<Val> = b.phis.iter().map(|(_, v)| { let o = &v.iter().find(|x| x.0 == cur).expect("phi pred").1; self.op(st, o) }).collect();
            for ((d, _), x) in b.phis.iter().zip(vals) { self.set(st, *d, x); }
        }
        let fr = Rc::make_mut(&mut st.frames[n]);
        fr.prev = cur;
        fr.blk = to;
        fr.ip = 0;
    }
    fn exec(&mut self, st: &mut State) -> R<()> {
        loop {
            let f = st.frames.last().unwrap().f.clone();
            // run inside this frame until the frame changes
            loop {
                let fr = st.frames.last().unwrap();
                let (b, ip) = (fr.blk as usize, fr.ip as usize);
                let inst = &f.blocks[b].insts[ip];
                st.insts += 1;
                if st.insts & 0xfff == 0 {
                    if st.insts > self.cfg.max_insts { return Err(Stop::Limit("instruction limit".into())); }
                    if st.insts & 0xfffff == 0 && (self.start.elapsed().as_secs_f64() > self.cfg.time || self.sh.at(STOP).load(SeqCst) != 0) { return Err(Stop::Err("time budget".into())); }
                }
                match self.step(st, &f, inst)? {
                    Flow::Next => { let n = st.frames.len() - 1; Rc::make_mut(&mut st.frames[n]).ip += 1; }
                    Flow::Stay => {}
                    Flow::Frame => break,
                }
            }
        }
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        match p {
            Pred::Eq => self.ex.vbin(Op::Eq, w, a, b),
            Pred::Ne => { let e = self.ex.vbin(Op::Eq, w, a, b); self.ex.vnot(&e) }
            Pred::Ult => self.ex.vbin(Op::Ult, w, a, b),
            Pred::Ugt => self.ex.vbin(Op::Ult, w, b, a),
            Pred::Ule => { let e = self.ex.vbin(Op::Ult, w, b, a); self.ex.vnot(&e) }
            Pred::Uge => { let e = self.ex.vbin(Op::Ult, w, a, b); self.ex.vnot(&e) }
            Pred::Slt => self.ex.vbin(Op::Slt, w, a, b),
            Pred::Sgt => self.ex.vbin(Op::Slt, w, b, a),
            Pred::Sle => { let e = self.ex.vbin(Op::Slt, w, b, a); self.ex.vnot(&e) }
            Pred::Sge => { let e = self.ex.vbin(Op::Slt, w, a, b); self.ex.vnot(&e) }
        }
    }
    fn bin(&mut self, st: &mut State, k: BinK, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        let o = match k {
            BinK::Add => Op::Add, BinK::Sub => Op::Sub, BinK::Mul => Op::Mul, BinK::UDiv => Op::UDiv, BinK::SDiv => Op::SDiv, BinK::URem => Op::URem, BinK::SRem => Op::SRem, BinK::And => Op::And, BinK::Or => Op::Or, BinK::Xor => Op::Xor, BinK::Shl => Op::Shl, BinK::LShr => Op::LShr, BinK::AShr => Op::AShr,
            _ => {
                let (x, y) = (self.concretize(st, a, ty.bits() as u32)?, self.concretize(st, b, ty.bits() as u32)?);
                return Ok(C(if *ty == Ty::F64 {
                    let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                    match k { BinK::FAdd => x + y, BinK::FSub => x - y, BinK::FMul => x * y, BinK::FDiv => x / y, _ => x % y }.to_bits() as u128
                } else {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    match k { BinK::FAdd => x + y, BinK::FSub => x - y, BinK::FMul => x * y, BinK::FDiv => x / y, _ => x % y }.to_bits() as u128
                }));
            }
        };
        Ok(self.ex.vbin(o, ty.bits() as u32, a, b))
    }
    fn step(&mut self, st: &mut State, f: &Rc<Func>, inst: &Inst) -> R<Flow> {
        match inst {
            Inst::Load { d, ty, p } => {
                if let (S(a), Ty::Int(w)) = (self.op(st, p), ty) {
                    if let Some(v) = self.table(st, a, *w)? { self.set(st, *d, v); return Ok(Flow::Next); }
                }
                let a = self.addr(st, p)?;
                let v = self.load(st, a, ty)?;
                self.set(st, *d, v);
            }
            Inst::Store { ty, v, p } => {
                let a = self.addr(st, p)?;
                let v = self.op(st, v);
                self.store(st, a, ty, &v)?;
            }
            Inst::Gep { d, base, off, terms } => {
                let mut v = self.op(st, base);
                if *off != 0 { v = self.ex.vbin(Op::Add, 64, &v, &C(*off as u128)); }
                for (o, w, s) in terms {
                    let i = self.op(st, o);
                    let i = if *w < 64 { self.ex.vsext(&i, *w, 64) } else { i };
                    let t = self.ex.vbin(Op::Mul, 64, &i, &C(*s as u128));
                    v = self.ex.vbin(Op::Add, 64, &v, &t);
                }
                self.set(st, *d, v);
            }
            Inst::ICmp { d, p, ty, a, b } => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                let v = if let Ty::Vec(_, t) = ty {
                    let w = t.bits() as u32;
                    if let (A(x), A(y)) = (&a, &b) { A(Rc::new(x.iter().zip(y.iter()).map(|(x, y)| self.icmp(*p, w, x, y)).collect())) } else { return Err(Stop::Err("vec icmp".into())) }
                } else { self.icmp(*p, ty.bits() as u32, &a, &b) };
                self.set(st, *d, v);
            }
            Inst::Bin { d, k, ty, a, b } => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                let v = if let Ty::Vec(_, t) = ty {
                    if let (A(x), A(y)) = (&a, &b) {
                        let mut o = vec![];
                        for (x, y) in x.iter().zip(y.iter()) { o.push(self.bin(st, *k, t, x, y)?); }
                        A(Rc::new(o))
                    } else { return Err(Stop::Err("vec bin".into())) }
                } else { self.bin(st, *k, ty, &a, &b)? };
                self.set(st, *d, v);
            }
            Inst::Br(l) => { self.jump(st, f, *l); return Ok(Flow::Stay); }
            Inst::CondBr { c, t, f: e } => {
                let c = self.op(st, c);
                let r = self.decide(st, &c)?;
                self.jump(st, f, if r { *t } else { *e });
                return Ok(Flow::Stay);
            }
            Inst::Switch { w, v, def, cases } => {
                let v = self.op(st, v);
                let k = match v {
                    C(k) => k,
                    S(n) => {
                        // group by target: follow the model
                        let k = self.eval(st, n);
                        let target = cases.iter().find(|c| c.0 == k).map(|c| c.1);
                        let mut cond = None;
                        match target {
                            Some(_) => { let kn = self.ex.konst(k, *w); cond = Some(self.ex.bin(Op::Eq, *w, n, kn)); }
                            None => for (c, _) in cases {
                                let kn = self.ex.konst(*c, *w);
                                let e = self.ex.bin(Op::Eq, *w, n, kn);
                                let ne = self.ex.not(e);
                                cond = Some(match cond { None => ne, Some(x) => self.ex.bin(Op::And, 1, x, ne) });
                            },
                        }
                        if let Some(c) = cond {
                            let cv = self.ex.v(c);
                            self.decide(st, &cv)?;
                        }
                        k
                    }
                    _ => return Err(Stop::Err("switch agg".into())),
                };
                let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                self.jump(st, f, t);
                return Ok(Flow::Stay);
            }
            Inst::Cast { d, k, from, to, a } => {
                let a = self.op(st, a);
                let v = self.cast(st, *k, from, to, &a)?;
                self.set(st, *d, v);
            }
            Inst::Select { d, cty, ty, c, a, b } => {
                let (c, a, b) = (self.op(st, c), self.op(st, a), self.op(st, b));
                let v = if let (Ty::Vec(..), A(cv), A(av), A(bv), Ty::Vec(_, t)) = (cty, &c, &a, &b, ty) {
                    let w = t.bits() as u32;
                    A(Rc::new((0..cv.len()).map(|i| self.ex.vite(&cv[i], &av[i], &bv[i], w)).collect()))
                } else if ty.is_agg() {
                    if self.decide(st, &c)? { a } else { b }
                } else if *ty == Ty::Ptr && !matches!(c, C(_)) {
                    // pointers: fork instead of building symbolic addresses
                    if self.decide(st, &c)? { a } else { b }
                } else if self.cfg.split && ty.bits() >= 32 && (matches!(a, S(_)) || matches!(b, S(_))) {
                    if self.decide(st, &c)? { a } else { b }
                } else { self.ex.vite(&c, &a, &b, ty.bits() as u32) };
                self.set(st, *d, v);
            }
            Inst::Call { .. } => return self.call(st, f, inst),
            Inst::Ret(v) => {
                let v = v.as_ref().map(|o| self.op(st, o));
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas { st.mem.free(*a); }
                if st.frames.is_empty() { return Err(Stop::Done); }
                if let (Some(d), Some(v)) = (fr.dst, v) { self.set(st, d, v); }
                let g = st.frames.last().unwrap().f.clone();
                if let Some(n) = fr.next { self.jump(st, &g, n); } else { let n = st.frames.len() - 1; Rc::make_mut(&mut st.frames[n]).ip += 1; }
                return Ok(Flow::Frame);
            }
            Inst::Alloca { d, size } => {
                let a = st.mem.alloc(*size as usize);
                let n = st.frames.len() - 1;
                Rc::make_mut(&mut st.frames[n]).allocas.push((a >> 32) as u32);
                self.set(st, *d, C(a as u128));
            }
            Inst::ExtractV { d, a, idx } => {
                let mut v = self.op(st, a);
                for i in idx { v = match &v { A(x) => x[*i as usize].clone(), _ => return Err(Stop::Err("extractvalue".into())) }; }
                self.set(st, *d, v);
            }
            Inst::InsertV { d, a, v, idx } => {
                let a = self.op(st, a);
                let v = self.op(st, v);
                fn ins(a: &Val, idx: &[u32], v: Val) -> Val {
                    if idx.is_empty() { return v; }
                    if let A(x) = a { let mut y = (**x).clone(); y[idx[0] as usize] = ins(&x[idx[0] as usize], &idx[1..], v); A(Rc::new(y)) } else { panic!("insertvalue") }
                }
                let r = ins(&a, idx, v);
                self.set(st, *d, r);
            }
            Inst::ExtractE { d, a, i } => {
                let a = self.op(st, a);
                let i = self.op(st, i);
                let i = self.concretize(st, &i, 64)? as usize;
                if let A(x) = a { self.set(st, *d, x[i].clone()); }
            }
            Inst::InsertE { d, a, v, i } => {
                let a = self.op(st, a);
                let v = self.op(st, v);
                let i = self.op(st, i);
                let i = self.concretize(st, &i, 64)? as usize;
                if let A(x) = a { let mut y = (*x).clone(); y[i] = v; self.set(st, *d, A(Rc::new(y))); }
            }
            Inst::Shuffle { d, a, b, m } => {
                let (a, b, m) = (self.op(st, a), self.op(st, b), self.op(st, m));
                if let (A(a), A(b), A(m)) = (a, b, m) {
                    let v = m.iter().map(|i| if let C(i) = i { let i = *i as usize; if i < a.len() { a[i].clone() } else { b[i - a.len()].clone() } } else { C(0) }).collect();
                    self.set(st, *d, A(Rc::new(v)));
                }
            }
            Inst::Rmw { d, op, w, p, v } => {
                let a = self.addr(st, p)?;
                let v = self.op(st, v);
                let n = (*w / 8).max(1) as usize;
                let old = self.read(st, a, n)?;
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.ex.vbin(Op::Add, *w, &old, &v),
                    "sub" => self.ex.vbin(Op::Sub, *w, &old, &v),
                    "and" => self.ex.vbin(Op::And, *w, &old, &v),
                    "or" => self.ex.vbin(Op::Or, *w, &old, &v),
                    "xor" => self.ex.vbin(Op::Xor, *w, &old, &v),
                    o => return Err(Stop::Err(format!("atomicrmw {}", o))),
                };
                self.write(st, a, n, &new)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg { d, w, p, e, n } => {
                let a = self.addr(st, p)?;
                let (e, nw) = (self.op(st, e), self.op(st, n));
                let nb = (*w / 8).max(1) as usize;
                let old = self.read(st, a, nb)?;
                let c = self.ex.vbin(Op::Eq, *w, &old, &e);
                let v = self.ex.vite(&c, &nw, &old, *w);
                self.write(st, a, nb, &v)?;
                self.set(st, *d, A(Rc::new(vec![old, c])));
            }
            Inst::FCmp { d, p, ty, a, b } => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                let w = ty.bits() as u32;
                let (x, y) = (self.concretize(st, &a, w)?, self.concretize(st, &b, w)?);
                let (x, y) = if *ty == Ty::F64 { (f64::from_bits(x as u64), f64::from_bits(y as u64)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() { "oeq" => x == y, "ogt" => x > y, "oge" => x >= y, "olt" => x < y, "ole" => x <= y, "one" => !un && x != y, "ord" => !un, "uno" => un, "ueq" => un || x == y, "ugt" => un || x > y, "uge" => un || x >= y, "ult" => un || x < y, "ule" => un || x <= y, "une" => x != y, _ => false };
                self.set(st, *d, C(r as u128));
            }
            Inst::FNeg { d, ty, a } => {
                let a = self.op(st, a);
                let x = self.concretize(st, &a, ty.bits() as u32)?;
                self.set(st, *d, C(x ^ (1u128 << (ty.bits() - 1))));
            }
            Inst::Nop => {}
            Inst::Unreachable => return Err(Stop::Err("reached unreachable".into())),
            Inst::Landing => return Err(Stop::Err("landing pad".into())),
        }
        Ok(Flow::Next)
    }
    fn cast(&mut self, st: &mut State, k: CastK, from: &Ty, to: &Ty, a: &Val) -> R<Val> {
        if let (Ty::Vec(_, f), Ty::Vec(_, t), A(x)) = (from, to, a) {
            if k != CastK::BitCast {
                let mut o = vec![];
                for v in x.iter() { o.push(self.cast(st, k, f, t, v)?); }
                return Ok(A(Rc::new(o)));
            }
        }
        Ok(match k {
            CastK::Freeze => a.clone(),
            CastK::Trunc => self.ex.vextract(a, from.bits() as u32, 0, to.bits() as u32),
            CastK::ZExt => self.ex.vzext(a, from.bits() as u32, to.bits() as u32),
            CastK::SExt => self.ex.vsext(a, from.bits() as u32, to.bits() as u32),
            CastK::PtrToInt | CastK::IntToPtr => {
                let (f, t) = (from.bits() as u32, to.bits() as u32);
                if t < f { self.ex.vextract(a, f, 0, t) } else { self.ex.vzext(a, f, t) }
            }
            CastK::BitCast => match (from, to) {
                (Ty::Vec(_, f), Ty::Vec(n, t)) => { let x = self.to_bits(a, f.bits() as u32); self.from_bits(&x, *n, t.bits() as u32) }
                (Ty::Vec(_, f), _) => self.to_bits(a, f.bits() as u32),
                (_, Ty::Vec(n, t)) => self.from_bits(a, *n, t.bits() as u32),
                _ => a.clone(),
            },
            _ => {
                let x = self.concretize(st, a, from.bits() as u32)?;
                let fl = |d: f64, t: &Ty| -> u128 { if *t == Ty::F32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 } };
                let fv = if *from == Ty::F32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
                C(match k {
                    CastK::UIToFP => if *to == Ty::F32 { (x as u64 as f32).to_bits() as u128 } else { (x as u64 as f64).to_bits() as u128 },
                    CastK::SIToFP => fl(sx(x, from.bits() as u32) as f64, to),
                    CastK::FPToUI => fv as u128 & mask(to.bits() as u32),
                    CastK::FPToSI => fv as i128 as u128 & mask(to.bits() as u32),
                    _ => fl(fv, to),
                })
            }
        })
    }
    fn builtin(&mut self, id: u32) -> Bi {
        while self.bi.len() <= id as usize { self.bi.push(None); }
        if let Some(b) = self.bi[id as usize] { return b; }
        let n = self.prog.fn_names[id as usize].clone();
        let b = if n.starts_with("llvm.") { Bi::Intr } else {
            match n.as_str() {
                "malloc" => Bi::Malloc, "calloc" => Bi::Calloc, "realloc" => Bi::ReallocC, "free" => Bi::Free, "posix_memalign" => Bi::PosixMemalign,
                "memcmp" => Bi::Memcmp, "bcmp" => Bi::Bcmp, "strlen" => Bi::Strlen, "getrandom" => Bi::Getrandom, "getenv" => Bi::Getenv,
                "memcpy" | "memmove" => Bi::Memcpy, "memset" => Bi::Memset,
                "write" => Bi::Write, "writev" => Bi::Writev, "abort" => Bi::Abort, "exit" => Bi::Exit, "__errno_location" => Bi::Errno,
                "vp_range" => Bi::VpRange, "vp_choose" => Bi::VpChoose, "vp_assume" => Bi::VpAssume, "vp_assert" => Bi::VpAssert, "vp_reach" => Bi::VpReach, "vp_observe" => Bi::VpObserve, "vp_panic_ok" => Bi::VpPanicOk, "vp_concrete" => Bi::VpConcrete, "vp_surely" => Bi::VpSurely, "vp_symbolic" => Bi::VpIsSym,
                "pthread_key_create" | "pthread_setspecific" | "__cxa_thread_atexit_impl" | "pthread_self" | "gettid" | "mkdir" | "munmap" | "pthread_key_delete" => Bi::Ret0,
                "open64" => Bi::Open, "read" => Bi::Read, "close" => Bi::Close, "lseek64" => Bi::Lseek, "statx" => Bi::Statx, "vp_dir" => Bi::VpDir,
                "stat64" | "fstat64" | "readlink" | "realpath" | "getcwd" => Bi::RetM1,
                "syscall" => Bi::Syscall,
                _ => {
                    if n.contains("4core9panicking") || n.contains("panic_const") || n.ends_with("17rust_begin_unwind") || n.contains("9panicking11begin_panic") || n.ends_with("10rust_panic") || n.ends_with("18handle_alloc_error") || n.contains("9panicking15panic_with_hook") { Bi::Panic }
                    else if n.contains("7___rustc") {
                        if n.ends_with("___rust_alloc") || n.ends_with("___rdl_alloc") { Bi::Alloc }
                        else if n.ends_with("___rust_dealloc") || n.ends_with("___rdl_dealloc") { Bi::Dealloc }
                        else if n.ends_with("___rust_realloc") || n.ends_with("___rdl_realloc") { Bi::Realloc }
                        else if n.ends_with("___rust_alloc_zeroed") || n.ends_with("___rdl_alloc_zeroed") { Bi::AllocZ }
                        else if n.contains("no_alloc_shim") { Bi::Nop }
                        else { Bi::None }
                    } else { Bi::None }
                }
            }
        };
        self.bi[id as usize] = Some(b);
        b
    }
    fn call(&mut self, st: &mut State, f: &Rc<Func>, inst: &Inst) -> R<Flow> {
        let (d, ret, callee, args, atys, next) = match inst { Inst::Call { d, ret, f, args, atys, next } => (d, ret, f, args, atys, next), _ => unreachable!() };
        let id = match callee {
            Callee::Fn(id) => *id,
            Callee::Ind(o) => {
                let a = self.addr(st, o)?;
                if (a >> 32) & FUNC == 0 { return Err(Stop::Err(format!("indirect call to {:#x}", a))); }
                ((a >> 32) & !FUNC) as u32
            }
            Callee::Asm(s) => {
                // a comment only hides its operand from the compiler
                if s.starts_with("/*") && s.ends_with("*/") && args.len() == 1 {
                    if let Some(d) = d { let z = self.op(st, &args[0]); self.set(st, *d, z); }
                    return Ok(Flow::Next);
                }
                if let Some(d) = d { let z = ret.zero(); self.set(st, *d, z); }
                if !s.is_empty() && !s.contains("cpuid") { return Err(Stop::Err("inline asm".into())); }
                return Ok(Flow::Next);
            }
        };
        let b = self.builtin(id);
        if b == Bi::None {
            if !self.prog.has_body(id) { return Err(Stop::Err(format!("external {}", self.prog.fn_names[id as usize]))); }
            let g = self.prog.func(id);
            self.fns.insert(id);
            let mut regs = vec![C(0); g.nregs as usize];
            for (i, p) in g.params.iter().enumerate() { if i < args.len() { regs[*p as usize] = self.op(st, &args[i]); } }
            if st.frames.len() > 4000 { return Err(Stop::Limit("recursion limit".into())); }
            st.frames.push(Rc::new(Frame { f: g, regs, blk: 0, ip: 0, prev: 0, allocas: vec![], dst: *d, next: *next }));
            return Ok(Flow::Frame);
        }
        let vals: Vec<Val> = args.iter().map(|a| self.op(st, a)).collect();
        let r = self.builtin_call(st, b, id, &vals, atys, ret)?;
        if let (Some(d), Some(v)) = (d, r) { self.set(st, *d, v); }
        if let Some(n) = next { self.jump(st, f, *n); return Ok(Flow::Stay); }
        Ok(Flow::Next)
    }
    fn open_file(&self, st: &State, fd: u64) -> Option<(usize, usize)> {
        (fd as usize).checked_sub(FD).and_then(|k| st.fds.get(k).copied().flatten())
    }
    fn errno(&mut self, st: &mut State, e: u128) -> R<()> {
        if st.errno == 0 { st.errno = st.mem.alloc(8); }
        let at = st.errno;
        self.write(st, at, 4, &C(e))
    }
    fn path(&mut self, st: &mut State, p: u64) -> R<String> {
        let mut s = String::new();
        for k in 0.. {
            let v = self.read(st, p + k, 1)?;
            match self.concretize(st, &v, 8)? { 0 => break, c => s.push(c as u8 as char) }
        }
        Ok(s)
    }
    fn cu(&mut self, st: &mut State, v: &Val) -> R<u64> {
        Ok(self.concretize(st, v, 64)? as u64)
    }
    fn builtin_call(&mut self, st: &mut State, b: Bi, id: u32, a: &[Val], atys: &[Ty], ret: &Ty) -> R<Option<Val>> {
        Ok(match b {
            Bi::Panic => {
                let n = demangle(&self.prog.fn_names[id as usize]);
                let mut msg = n;
                if self.prog.fn_names[id as usize].ends_with("9panicking5panic") || self.prog.fn_names[id as usize].contains("begin_panic") {
                    if let (C(p), C(l)) = (&a[0], &a[1]) { if *l < 1000 { if let Ok(s) = self.string(st, *p as u64, *l as usize) { msg = s; } } }
                }
                let caller = st.frames.iter().rev().map(|f| demangle(&self.prog.fn_names[f.f.id as usize])).find(|n| !n.starts_with("core::") && !n.contains("panic")).unwrap_or_default();
                return Err(Stop::Panic(format!("panic in {}: {}", caller, msg)));
            }
            Bi::Alloc | Bi::AllocZ | Bi::Malloc => { let n = self.cu(st, &a[0])?; self.chk(n)?; Some(C(st.mem.alloc(n as usize) as u128)) }
            Bi::Calloc => { let n = self.cu(st, &a[0])? * self.cu(st, &a[1])?; self.chk(n)?; Some(C(st.mem.alloc(n as usize) as u128)) }
            Bi::PosixMemalign => { let n = self.cu(st, &a[2])?; let p = self.cu(st, &a[0])?; let o = st.mem.alloc(n as usize); self.write(st, p, 8, &C(o as u128))?; Some(C(0)) }
            Bi::Dealloc | Bi::Free => {
                let p = self.cu(st, &a[0])?;
                if p != 0 && !st.mem.free((p >> 32) as u32) { return Err(Stop::Err(format!("invalid free {:#x}", p))); }
                None
            }
            Bi::Realloc | Bi::ReallocC => {
                let p = self.cu(st, &a[0])?;
                let n = if b == Bi::Realloc { self.cu(st, &a[3])? } else { self.cu(st, &a[1])? };
                self.chk(n)?;
                let o = st.mem.alloc(n as usize);
                if p != 0 {
                    let (old, _) = self.obj(st, p)?;
                    let m = old.b.len().min(n as usize);
                    drop(old);
                    self.copy(st, o, p, m)?;
                    st.mem.free((p >> 32) as u32);
                }
                Some(C(o as u128))
            }
            Bi::Nop => None,
            Bi::Memcmp | Bi::Bcmp => {
                let n = self.cu(st, &a[2])? as usize;
                if n == 0 { return Ok(Some(C(0))); }
                let (p, q) = (self.cu(st, &a[0])?, self.cu(st, &a[1])?);
                Some(self.memcmp(st, p, q, n, b == Bi::Bcmp)?)
            }
            Bi::Memcpy => { let n = self.cu(st, &a[2])? as usize; let (p, q) = (self.cu(st, &a[0])?, self.cu(st, &a[1])?); self.copy(st, p, q, n)?; Some(a[0].clone()) }
            Bi::Memset => { self.memset(st, a)?; Some(a[0].clone()) }
            Bi::Strlen => {
                let p = self.cu(st, &a[0])?;
                let (o, off) = self.obj(st, p)?;
                Some(C(o.b[off..].iter().position(|x| *x == 0).unwrap_or(0) as u128))
            }
            Bi::Getrandom => {
                let p = self.cu(st, &a[0])?;
                let n = self.cu(st, &a[1])?;
                for i in 0..n { self.write(st, p + i, 1, &C(((i * 37 + 11) & 0xff) as u128))?; }
                Some(C(n as u128))
            }
            Bi::Getenv | Bi::Ret0 => Some(C(0)),
            Bi::RetM1 => Some(C(mask(ret.bits() as u32))),
            Bi::Syscall => {
                let nr = self.cu(st, &a[0])?;
                match nr {
                    318 => { let p = self.cu(st, &a[1])?; let n = self.cu(st, &a[2])?; for i in 0..n { self.write(st, p + i, 1, &C(((i * 37 + 11) & 0xff) as u128))?; } Some(C(n as u128)) }
                    202 => Some(C(0)),
                    _ => return Err(Stop::Err(format!("syscall {}", nr))),
                }
            }
            Bi::Write => {
                let (fd, n) = (self.cu(st, &a[0])?, self.cu(st, &a[2])? as usize);
                match self.open_file(st, fd) {
                    None => { st.stdout += 1; Some(a[2].clone()) }
                    Some((i, pos)) => {
                        let src = self.cu(st, &a[1])?;
                        let (_, mut at, len) = st.files[i];
                        let (old, _) = self.obj(st, at)?;
                        let cap = old.b.len();
                        drop(old);
                        if pos + n > cap {
                            let new = st.mem.alloc((pos + n).max(2 * cap));
                            self.copy(st, new, at, len)?;
                            st.mem.free((at >> 32) as u32);
                            at = new;
                        }
                        self.copy(st, at + pos as u64, src, n)?;
                        let f = &mut Rc::make_mut(&mut st.files)[i];
                        f.1 = at;
                        f.2 = len.max(pos + n);
                        Rc::make_mut(&mut st.fds)[fd as usize - FD] = Some((i, pos + n));
                        Some(C(n as u128))
                    }
                }
            }
            Bi::Open => {
                let p = self.cu(st, &a[0])?;
                let flags = self.cu(st, &a[1])?;
                let name = self.path(st, p)?;
                let i = match st.files.iter().position(|f| f.0 == name) {
                    Some(i) => i,
                    None if flags & 0x40 != 0 => {
                        let at = st.mem.alloc(256);
                        Rc::make_mut(&mut st.files).push((name, at, 0));
                        st.files.len() - 1
                    }
                    None => { self.errno(st, 2)?; return Ok(Some(C(mask(ret.bits() as u32)))); }
                };
                if flags & 0x200 != 0 { Rc::make_mut(&mut st.files)[i].2 = 0; }
                Rc::make_mut(&mut st.fds).push(Some((i, 0)));
                Some(C((FD + st.fds.len() - 1) as u128))
            }
            Bi::Read => {
                let (fd, n) = (self.cu(st, &a[0])?, self.cu(st, &a[2])? as usize);
                match self.open_file(st, fd) {
                    None => { self.errno(st, 9)?; Some(C(mask(ret.bits() as u32))) }
                    Some((i, pos)) => {
                        let dst = self.cu(st, &a[1])?;
                        let (_, at, len) = st.files[i];
                        let n = n.min(len.saturating_sub(pos));
                        if n > 0 { self.copy(st, dst, at + pos as u64, n)?; }
                        Rc::make_mut(&mut st.fds)[fd as usize - FD] = Some((i, pos + n));
                        Some(C(n as u128))
                    }
                }
            }
            Bi::Close => {
                let fd = self.cu(st, &a[0])?;
                if self.open_file(st, fd).is_some() { Rc::make_mut(&mut st.fds)[fd as usize - FD] = None; }
                Some(C(0))
            }
            Bi::Lseek => {
                let (fd, off, whence) = (self.cu(st, &a[0])?, self.cu(st, &a[1])? as i64, self.cu(st, &a[2])?);
                match self.open_file(st, fd) {
                    None => { self.errno(st, 9)?; Some(C(mask(ret.bits() as u32))) }
                    Some((i, pos)) => {
                        let to = match whence { 0 => 0, 1 => pos as i64, _ => st.files[i].2 as i64 } + off;
                        Rc::make_mut(&mut st.fds)[fd as usize - FD] = Some((i, to as usize));
                        Some(C(to as u128))
                    }
                }
            }
            Bi::Statx => {
                let (fd, p, buf) = (self.cu(st, &a[0])?, self.cu(st, &a[1])?, self.cu(st, &a[4])?);
                let name = if p == 0 { String::new() } else { self.path(st, p)? };
                let i = if name.is_empty() { self.open_file(st, fd & 0xffff_ffff).map(|x| x.0) } else { st.files.iter().position(|f| f.0 == name) };
                match i {
                    None => { self.errno(st, if p == 0 { 14 } else { 2 })?; Some(C(mask(ret.bits() as u32))) }
                    Some(i) => {
                        let len = st.files[i].2;
                        for k in 0..32 { self.write(st, buf + 8 * k, 8, &C(0))?; }
                        self.write(st, buf, 4, &C(0x7ff))?;
                        self.write(st, buf + 28, 2, &C(0o100644))?;
                        self.write(st, buf + 40, 8, &C(len as u128))?;
                        Some(C(0))
                    }
                }
            }
            Bi::VpDir => {
                let (p, n) = (self.cu(st, &a[0])?, self.cu(st, &a[1])?);
                for (k, c) in b"/tmp/vp.files".iter().enumerate().take(n as usize) { self.write(st, p + k as u64, 1, &C(*c as u128))?; }
                Some(C(13))
            }
            Bi::Writev => {
                let p = self.cu(st, &a[1])?;
                let n = self.cu(st, &a[2])?;
                let mut t = 0u128;
                for i in 0..n { if let C(k) = self.read(st, p + i * 16 + 8, 8)? { t += k; } }
                Some(C(t))
            }
            Bi::Abort => return Err(Stop::Panic("abort".into())),
            Bi::Exit => return Err(Stop::Panic("exit".into())),
            Bi::Errno => { if st.errno == 0 { self.errno(st, 2)?; } Some(C(st.errno as u128)) }
            Bi::VpRange => {
                let (lo, hi) = (self.cu(st, &a[0])? as i64, self.cu(st, &a[1])? as i64);
                let p = self.cu(st, &a[2])?;
                let n = self.cu(st, &a[3])? as usize;
                let name = self.string(st, p, n)?;
                let max = hi.wrapping_sub(lo) as u64;
                if hi < lo { return Err(Stop::Err("vp_range: empty".into())); }
                if max == 0 {
                    let z = self.ex.konst(0, 64);
                    st.syms.push((name.as_str().into(), z, lo));
                    return Ok(Some(C(lo as u64 as u128)));
                }
                let w = 64 - max.leading_zeros();
                let idx = st.nsym;
                let key = (idx, w, max);
                let (_, nd) = match self.vars.get(&key) { Some(x) => *x, None => { let x = self.ex.mkvar(w, max); self.vars.insert(key, x); x } };
                if max != mask(w) as u64 {
                    let c = self.ex.range_constraint(nd, max, w);
                    st.pc.push(c);
                    // the default model value 0 satisfies the range; but a model from an
                    // earlier query may carry an old value for this variable
                    if self.eval(st, nd) > max as u128 {
                        let nv = self.nvars();
                        match self.z3.check(&self.ex, &st.pc, None, nv) { Res::Sat(m) => st.model = Self::mk_model(m), _ => return Err(Stop::Err("range unsat".into())) }
                    }
                }
                st.syms.push((name.as_str().into(), nd, lo));
                st.nsym += 1;
                let z = self.ex.zext(nd, 64);
                let l = self.ex.konst(lo as u64 as u128, 64);
                let r = self.ex.bin(Op::Add, 64, z, l);
                Some(self.ex.v(r))
            }
            Bi::VpChoose => {
                // a free choice: one path per value, no query needed
                let k = self.cu(st, &a[0])?;
                let p = self.cu(st, &a[1])?;
                let n = self.cu(st, &a[2])? as usize;
                let v = match st.forced.take() {
                    Some(v) => v,
                    None => {
                        for i in (1..k).rev() {
                            let mut o = st.clone();
                            o.forced = Some(i);
                            self.pending.push(o);
                            self.forks += 1;
                        }
                        if self.start.elapsed().as_secs_f64() > self.cfg.time || self.sh.at(STOP).load(SeqCst) != 0 {
                            return Err(Stop::Err("time budget".into()));
                        }
                        self.offload_inner()?;
                        0
                    }
                };
                let name = self.string(st, p, n)?;
                let z = self.ex.konst(v as u128, 64);
                st.syms.push((name.as_str().into(), z, 0));
                Some(C(v as u128))
            }
            Bi::VpAssume => {
                match &a[0] {
                    C(k) => if *k & 1 == 0 { return Err(Stop::Assume); },
                    S(n) => {
                        let mut n = *n;
                        if self.ex.w(n) != 1 { n = self.ex.extract(n, 0, 1); }
                        if let Some(k) = self.ex.cval(n) { if k == 0 { return Err(Stop::Assume); } return Ok(None); }
                        if let Some(k) = st.known.get(&n) { if *k == 0 { return Err(Stop::Assume); } return Ok(None); }
                        if self.eval(st, n) == 1 { self.add(st, n); } else {
                            let nv = self.nvars();
                            match self.z3.check(&self.ex, &st.pc, Some(n), nv) {
                                Res::Sat(m) => { st.model = Self::mk_model(m); self.add(st, n); }
                                Res::Unsat => return Err(Stop::Assume),
                                Res::Unknown => return Err(Stop::Err("solver timeout".into())),
                            }
                        }
                    }
                    _ => {}
                }
                None
            }
            Bi::VpAssert => {
                let (p, l) = (self.cu(st, &a[1])?, self.cu(st, &a[2])? as usize);
                self.asserts += 1;
                st.depth_asserts += 1;
                match &a[0] {
                    C(k) => if *k & 1 == 0 {
                        let msg = self.string(st, p, l)?;
                        let m = st.model.clone();
                        self.violation(st, &m, "assert", &msg);
                        return Err(Stop::Fail);
                    },
                    S(n) => {
                        let mut n = *n;
                        if self.ex.w(n) != 1 { n = self.ex.extract(n, 0, 1); }
                        if let Some(k) = st.known.get(&n).copied().or(self.ex.cval(n)) {
                            if k == 1 { return Ok(None); }
                            let msg = self.string(st, p, l)?;
                            let m = st.model.clone();
                            self.violation(st, &m, "assert", &msg);
                            return Err(Stop::Fail);
                        }
                        let neg = self.ex.not(n);
                        let nv = self.nvars();
                        if self.eval(st, n) == 0 {
                            let msg = self.string(st, p, l)?;
                            let m = st.model.clone();
                            self.violation(st, &m, "assert", &msg);
                            match self.z3.check(&self.ex, &st.pc, Some(n), nv) {
                                Res::Sat(m) => { st.model = Self::mk_model(m); self.add(st, n); }
                                _ => return Err(Stop::Fail),
                            }
                        } else {
                            match self.z3.check(&self.ex, &st.pc, Some(neg), nv) {
                                Res::Sat(m) => {
                                    let msg = self.string(st, p, l)?;
                                    let m = Self::mk_model(m);
                                    self.violation(st, &m, "assert", &msg);
                                    self.add(st, n);
                                }
                                Res::Unsat => self.learn(st, n, true),
                                Res::Unknown => { self.incomplete += 1; *self.incomplete_why.entry("solver timeout (assert)".into()).or_insert(0) += 1; }
                            }
                        }
                    }
                    _ => {}
                }
                None
            }
            Bi::VpReach => {
                let (p, l) = (self.cu(st, &a[0])?, self.cu(st, &a[1])? as usize);
                let s = self.string(st, p, l)?;
                if !st.reach.iter().any(|x| **x == *s) { st.reach.push(s.as_str().into()); }
                None
            }
            Bi::VpObserve => { st.obs.push((a[0].clone(), 64)); self.maxobs = self.maxobs.max(st.obs.len() as u64); None }
            Bi::VpPanicOk => { st.panic_ok = matches!(a[0], C(k) if k & 1 == 1); None }
            Bi::VpConcrete => { let k = self.concretize(st, &a[0], 64)?; Some(C(k)) }
            Bi::VpSurely => {
                let n = match &a[0] { C(k) => return Ok(Some(C(*k & 1))), S(n) => *n, _ => return Ok(Some(C(0))) };
                let n = if self.ex.w(n) != 1 { self.ex.extract(n, 0, 1) } else { n };
                let known = match self.ex.cval(n) {
                    Some(k) => k == 1,
                    None => st.known.get(&n) == Some(&1) || st.diff.entails(&self.ex, &mut self.lins, n, 4) == Some(true),
                };
                Some(C(known as u128))
            }
            Bi::VpIsSym => Some(C(1)),
            Bi::Intr => return self.intrinsic(st, id, a, atys, ret),
            Bi::None => unreachable!(),
        })
    }
    fn chk(&self, n: u64) -> R<()> {
        if n > 256 << 20 { Err(Stop::Panic(format!("allocation of {} bytes", n))) } else { Ok(()) }
    }
    fn memcmp(&mut self, st: &State, p: u64, q: u64, n: usize, eqonly: bool) -> R<Val> {
        let (o1, f1) = self.obj(st, p)?;
        let (o2, f2) = self.obj(st, q)?;
        if f1 + n > o1.b.len() || f2 + n > o2.b.len() { return Err(Stop::Err("memcmp out of bounds".into())); }
        if o1.sym.is_none() && o2.sym.is_none() {
            let c = o1.b[f1..f1 + n].cmp(&o2.b[f2..f2 + n]);
            return Ok(C(match c { std::cmp::Ordering::Equal => 0, std::cmp::Ordering::Less => 0xffff_ffff, _ => 1 }));
        }
        let mut r = C(0);
        for i in (0..n).rev() {
            let (x, y) = (o1.read(&mut self.ex, f1 + i, 1), o2.read(&mut self.ex, f2 + i, 1));
            let e = self.ex.vbin(Op::Eq, 8, &x, &y);
            let d = if eqonly { C(1) } else { let l = self.ex.vbin(Op::Ult, 8, &x, &y); self.ex.vite(&l, &C(0xffff_ffff), &C(1), 32) };
            r = self.ex.vite(&e, &r, &d, 32);
        }
        Ok(r)
    }
    fn memset(&mut self, st: &mut State, a: &[Val]) -> R<()> {
        let n = self.cu(st, &a[2])? as usize;
        let p = self.cu(st, &a[0])?;
        if n == 0 { return Ok(()); }
        if let C(k) = a[1] {
            let (o, off) = self.obj_mut(st, p)?;
            if off + n > o.b.len() { return Err(Stop::Err("memset out of bounds".into())); }
            o.b[off..off + n].fill(k as u8);
            if let Some(s) = &mut o.sym { s.retain(|k, _| !((*k as usize) >= off && (*k as usize) < off + n)); if s.is_empty() { o.sym = None; } }
        } else {
            let v = if let S(nd) = a[1] { let w = self.ex.w(nd); if w > 8 { let e = self.ex.extract(nd, 0, 8); self.ex.v(e) } else { a[1].clone() } } else { a[1].clone() };
            for i in 0..n { self.write(st, p + i as u64, 1, &v)?; }
        }
        Ok(())
    }
    fn intrinsic(&mut self, st: &mut State, id: u32, a: &[Val], atys: &[Ty], ret: &Ty) -> R<Option<Val>> {
        let full = self.prog.fn_names[id as usize].clone();
        let n = &full[5..];
        if n.starts_with("lifetime") || n.starts_with("assume") || n.starts_with("experimental") || n.starts_with("x86.sse2.pause") || n.starts_with("donothing") || n.starts_with("dbg") || n.starts_with("prefetch") { return Ok(None); }
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let len = self.cu(st, &a[2])? as usize;
            if len == 0 { return Ok(None); }
            let (p, q) = (self.cu(st, &a[0])?, self.cu(st, &a[1])?);
            self.copy(st, p, q, len)?;
            return Ok(None);
        }
        if n.starts_with("memset") { self.memset(st, a)?; return Ok(None); }
        if n.starts_with("trap") || n.starts_with("ubsantrap") { return Err(Stop::Panic("trap".into())); }
        if n.starts_with("threadlocal.address") { return Ok(Some(a[0].clone())); }
        if n.starts_with("is.constant") { return Ok(Some(C(0))); }
        if n.starts_with("expect") { return Ok(Some(a[0].clone())); }
        if n.starts_with("x86.xgetbv") { return Ok(Some(C(0))); }
        // element-wise on vectors
        if let (Ty::Vec(_, et), Some(A(_))) = (ret, a.first()) {
            let vs: Vec<Rc<Vec<Val>>> = a.iter().filter_map(|x| if let A(v) = x { Some(v.clone()) } else { None }).collect();
            let extra: Vec<Val> = a.iter().filter(|x| !matches!(x, A(_))).cloned().collect();
            let et2 = (**et).clone();
            let aty: Vec<Ty> = atys.iter().map(|t| if let Ty::Vec(_, e) = t { (**e).clone() } else { t.clone() }).collect();
            let mut o = vec![];
            for i in 0..vs[0].len() {
                let mut args: Vec<Val> = vs.iter().map(|v| v[i].clone()).collect();
                args.extend(extra.iter().cloned());
                o.push(self.intrinsic(st, id, &args, &aty, &et2)?.unwrap());
            }
            return Ok(Some(A(Rc::new(o))));
        }
        let w = match &atys[0] { t @ (Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) => t.bits() as u32, Ty::Vec(..) => 0, _ => 0 };
        if n.starts_with("vector.reduce") {
            if let (A(v), Ty::Vec(_, t)) = (&a[0], &atys[0]) {
                let ew = t.bits() as u32;
                let mut r = v[0].clone();
                for x in &v[1..] {
                    r = if n.contains(".add") { self.ex.vbin(Op::Add, ew, &r, x) } else if n.contains(".or.") { self.ex.vbin(Op::Or, ew, &r, x) } else if n.contains(".and.") { self.ex.vbin(Op::And, ew, &r, x) } else if n.contains(".xor") { self.ex.vbin(Op::Xor, ew, &r, x) } else { return Err(Stop::Err(format!("intrinsic {}", n))) };
                }
                return Ok(Some(r));
            }
        }
        let lt = |e: &mut Exprs, s: bool, x: &Val, y: &Val| e.vbin(if s { Op::Slt } else { Op::Ult }, w, x, y);
        if n.starts_with("smax") || n.starts_with("umax") { let c = lt(&mut self.ex, n.starts_with('s'), &a[0], &a[1]); if self.cfg.split && w >= 32 { return Ok(Some(if self.decide(st, &c)? { a[1].clone() } else { a[0].clone() })); } return Ok(Some(self.ex.vite(&c, &a[1], &a[0], w))); }
        if n.starts_with("smin") || n.starts_with("umin") { let c = lt(&mut self.ex, n.starts_with('s'), &a[0], &a[1]); if self.cfg.split && w >= 32 { return Ok(Some(if self.decide(st, &c)? { a[0].clone() } else { a[1].clone() })); } return Ok(Some(self.ex.vite(&c, &a[0], &a[1], w))); }
        if n.starts_with("abs.") { let c = lt(&mut self.ex, true, &a[0], &C(0)); let ng = self.ex.vbin(Op::Sub, w, &C(0), &a[0]); return Ok(Some(self.ex.vite(&c, &ng, &a[0], w))); }
        if n.starts_with("scmp") || n.starts_with("ucmp") {
            let s = n.starts_with('s');
            let rw = ret.bits() as u32;
            let l = lt(&mut self.ex, s, &a[0], &a[1]);
            let g = lt(&mut self.ex, s, &a[1], &a[0]);
            let t = self.ex.vite(&g, &C(1), &C(0), rw);
            return Ok(Some(self.ex.vite(&l, &C(mask(rw)), &t, rw)));
        }
        if n.contains(".with.overflow") {
            let (op, s) = (&n[1..4], n.starts_with('s'));
            let o = match op { "add" => Op::Add, "sub" => Op::Sub, _ => Op::Mul };
            let r = self.ex.vbin(o, w, &a[0], &a[1]);
            let ov = if let (C(x), C(y)) = (&a[0], &a[1]) {
                let bad = if s {
                    let (x, y) = (sx(*x, w), sx(*y, w));
                    let z = match o { Op::Add => x.checked_add(y), Op::Sub => x.checked_sub(y), _ => x.checked_mul(y) };
                    z.map_or(true, |z| sx(z as u128 & mask(w), w) != z)
                } else {
                    let z = match o { Op::Add => x.checked_add(*y), Op::Sub => x.checked_sub(*y), _ => x.checked_mul(*y) };
                    z.map_or(true, |z| z & mask(w) != z)
                };
                C(bad as u128)
            } else {
                // widen
                if o == Op::Mul && w > 64 { return Err(Stop::Err("wide mul overflow".into())); }
                let w2 = if o == Op::Mul { w * 2 } else { w + 1 };
                // interval shortcut
                let (x, y) = (self.ex.n(&a[0], w), self.ex.n(&a[1], w));
                let fits = w <= 64 && {
                    let (i, j) = (self.ex.rng(x), self.ex.rng(y));
                    if s {
                        let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                        let c: Vec<i128> = match o { Op::Add => vec![i.slo + j.slo, i.shi + j.shi], Op::Sub => vec![i.slo - j.shi, i.shi - j.slo], _ => vec![i.slo * j.slo, i.slo * j.shi, i.shi * j.slo, i.shi * j.shi] };
                        c.iter().all(|v| *v >= lo && *v <= hi)
                    } else {
                        match o { Op::Add => i.uhi + j.uhi <= mask(w), Op::Sub => i.ulo >= j.uhi, _ => i.uhi.checked_mul(j.uhi).map_or(false, |z| z <= mask(w)) }
                    }
                };
                if fits { C(0) } else {
                    let (xe, ye) = if s { (self.ex.sext(x, w2), self.ex.sext(y, w2)) } else { (self.ex.zext(x, w2), self.ex.zext(y, w2)) };
                    let z = self.ex.bin(o, w2, xe, ye);
                    let rn = self.ex.n(&r, w);
                    let re = if s { self.ex.sext(rn, w2) } else { self.ex.zext(rn, w2) };
                    let e = self.ex.bin(Op::Eq, w2, z, re);
                    let ne = self.ex.not(e);
                    self.ex.v(ne)
                }
            };
            return Ok(Some(A(Rc::new(vec![r, ov]))));
        }
        if n.contains(".sat.") {
            let s = n.starts_with('s');
            let add = &n[1..4] == "add";
            let w2 = w + 1;
            let (x, y) = if s { (self.ex.vsext(&a[0], w, w2), self.ex.vsext(&a[1], w, w2)) } else { (self.ex.vzext(&a[0], w, w2), self.ex.vzext(&a[1], w, w2)) };
            let z = self.ex.vbin(if add { Op::Add } else { Op::Sub }, w2, &x, &y);
            let r = self.ex.vextract(&z, w2, 0, w);
            if !s {
                let o = self.ex.vextract(&z, w2, w, 1);
                return Ok(Some(self.ex.vite(&o, &C(if add { mask(w) } else { 0 }), &r, w)));
            }
            let hi = C(mask(w - 1));
            let lo = C(1u128 << (w - 1));
            let lo2 = self.ex.vsext(&lo, w, w2);
            let over = self.ex.vbin(Op::Slt, w2, &hi, &z);
            let under = self.ex.vbin(Op::Slt, w2, &z, &lo2);
            let t = self.ex.vite(&under, &lo, &r, w);
            return Ok(Some(self.ex.vite(&over, &hi, &t, w)));
        }
        if n.starts_with("fshl") || n.starts_with("fshr") {
            let c = self.concretize(st, &a[2], w)? as u32 % w;
            if c == 0 { return Ok(Some(if n.starts_with("fshl") { a[0].clone() } else { a[1].clone() })); }
            let c = if n.starts_with("fshl") { c } else { w - c };
            let h = self.ex.vbin(Op::Shl, w, &a[0], &C(c as u128));
            let l = self.ex.vbin(Op::LShr, w, &a[1], &C((w - c) as u128));
            return Ok(Some(self.ex.vbin(Op::Or, w, &h, &l)));
        }
        if n.starts_with("maximum") || n.starts_with("minimum") || n.starts_with("maxnum") || n.starts_with("minnum") {
            let (x, y) = (self.concretize(st, &a[0], w)?, self.concretize(st, &a[1], w)?);
            let f = |x: f64, y: f64| if n.starts_with("max") { x.max(y) } else { x.min(y) };
            return Ok(Some(C(if w == 32 { (f(f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) as f32).to_bits() as u128 } else { f(f64::from_bits(x as u64), f64::from_bits(y as u64)).to_bits() as u128 })));
        }
        if n.starts_with("sqrt") || n.starts_with("floor") || n.starts_with("ceil") {
            let k = self.concretize(st, &a[0], w)?;
            let f = |d: f64| if n.starts_with("sqrt") { d.sqrt() } else if n.starts_with("floor") { d.floor() } else { d.ceil() };
            return Ok(Some(C(if w == 32 { (f(f32::from_bits(k as u32) as f64) as f32).to_bits() as u128 } else { f(f64::from_bits(k as u64)).to_bits() as u128 })));
        }
        if n.starts_with("fabs") { let k = self.concretize(st, &a[0], w)?; return Ok(Some(C(k & mask(w - 1)))); }
        if n.starts_with("ctlz") || n.starts_with("cttz") || n.starts_with("ctpop") || n.starts_with("bswap") || n.starts_with("bitreverse") {
            if let S(nd) = &a[0] {
                let nd = *nd;
                if n.starts_with("cttz") || n.starts_with("ctlz") {
                    let mut r = C(w as u128);
                    let tz = n.starts_with("cttz");
                    for i in 0..w {
                        let bit = if tz { w - 1 - i } else { i };
                        let b = self.ex.extract(nd, bit, 1);
                        let bv = self.ex.v(b);
                        let k = if tz { bit } else { w - 1 - bit };
                        r = self.ex.vite(&bv, &C(k as u128), &r, w);
                    }
                    // a position in a word of bytes: one value on each path
                    if tz && w == 64 { let k = self.concretize(st, &r, w)?; return Ok(Some(C(k))); }
                    return Ok(Some(r));
                }
                if n.starts_with("bswap") {
                    let mut acc: Option<N> = None;
                    for i in 0..w / 8 { let b = self.ex.extract(nd, i * 8, 8); acc = Some(match acc { None => b, Some(x) => self.ex.concat(x, b) }); }
                    return Ok(Some(self.ex.v(acc.unwrap())));
                }
            }
            let k = self.concretize(st, &a[0], w)?;
            let r = if n.starts_with("ctlz") { if k == 0 { w as u128 } else { (k.leading_zeros() - (128 - w)) as u128 } }
                else if n.starts_with("cttz") { if k == 0 { w as u128 } else { k.trailing_zeros() as u128 } }
                else if n.starts_with("ctpop") { k.count_ones() as u128 }
                else if n.starts_with("bswap") { k.swap_bytes() >> (128 - w) }
                else { k.reverse_bits() >> (128 - w) };
            return Ok(Some(C(r)));
        }
        Err(Stop::Err(format!("intrinsic {}", n)))
    }
    pub fn stats(&mut self) {
        let mut w = String::new();
        for (k, v) in &self.incomplete_why { if !w.is_empty() { w.push(','); } w.push_str(&format!("\"{}\":{}", esc(k), v)); }
        let mut r = String::new();
        for (k, v) in &self.reach { if !r.is_empty() { r.push(','); } r.push_str(&format!("\"{}\":{}", esc(k), v)); }
        let s = format!("{{\"t\":\"stats\",\"paths\":{},\"assumed\":{},\"panics_ok\":{},\"incomplete\":{},\"why\":{{{}}},\"insts\":{},\"decides\":{},\"fast\":{},\"forks\":{},\"asserts\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"ztime\":{:.3},\"wall\":{:.3},\"nodes\":{},\"viol\":{},\"maxpc\":{},\"reach\":{{{}}}}}",
            self.paths, self.assumed, self.panics_ok, self.incomplete, w, self.insts, self.decides, self.fast, self.forks, self.asserts, self.z3.queries, self.z3.sat, self.z3.unsat, self.z3.unknown, self.z3.time, self.start.elapsed().as_secs_f64(), self.ex.len(), self.vcount, self.maxpc, r);
        self.emit(s);
        let f: Vec<String> = self.fns.iter().map(|i| format!("\"{}\"", esc(&self.prog.fn_names[*i as usize]))).collect();
        let s = format!("{{\"t\":\"fns\",\"names\":[{}]}}", f.join(","));
        self.emit(s);
    }
}
pub enum Flow {
    Next,
    Stay,
    Frame,
}
/// crude v0 demangling: the identifier path only
pub fn demangle(n: &str) -> String {
    let b = n.as_bytes();
    if !n.starts_with("_R") { return n.to_string(); }
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && i > 0 && !b[i - 1].is_ascii_digit() {
            // the digit may be part of a base-62 number  s..._  or B.._
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() && l < 1000 { l = l * 10 + (b[j] - b'0') as usize; j += 1; }
            if j < b.len() && b[j] == b'_' { j += 1; }
            if l > 0 && j + l <= b.len() && (b[j].is_ascii_alphabetic() || b[j] == b'_') && b[j..j + l].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') && b[i - 1] != b'B' {
                out.push(n[j..j + l].to_string());
                i = j + l;
                continue;
            }
            i = j;
            continue;
        }
        if b[i] == b's' || b[i] == b'B' {
            // disambiguator / backref up to '_'
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() && j < i + 14 { j += 1; }
            if j < b.len() && b[j] == b'_' { i = j + 1; continue; }
        }
        i += 1;
    }
    out.join("::")
}
