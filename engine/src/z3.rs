//! Minimal hand-written FFI to libz3 (no bindings crate is available offline).
#![allow(non_camel_case_types)]
use crate::expr::{Exprs, Op, N};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
pub type Ctx = *mut c_void;
pub type Ast = *mut c_void;
pub type Sort = *mut c_void;
pub type Solver = *mut c_void;
pub type Model = *mut c_void;
pub type Sym = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_ast_to_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_mk_context_rc(c: *mut c_void) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_uint)>);
    fn Z3_get_error_msg(c: Ctx, e: c_uint) -> *const c_char;
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_const(c: Ctx, s: Sym, ty: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, s: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_iff(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, k: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, k: c_uint, a: Ast) -> Ast;
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_mk_solver_for_logic(c: Ctx, s: Sym) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, t: Ast, completion: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, v: Ast, u: *mut u64) -> bool;
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_dec_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: Sym, v: c_uint);
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: *mut c_void);
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}
extern "C" fn on_err(c: Ctx, e: c_uint) {
    unsafe {
        let m = std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error {} {:?}", e, m);
    }
    std::process::abort();
}
pub enum Res {
    Sat(Vec<u64>),
    Unsat,
    Unknown,
}
pub struct Z3 {
    c: Ctx,
    s: Solver,
    stack: Vec<N>,
    bv: HashMap<N, Ast>,
    bo: HashMap<N, Ast>,
    lo: HashMap<(N, u32), Ast>,
    lins: crate::diff::Lins,
    vars: Vec<Ast>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    checks_since_reset: u64,
    pub show_over: Option<f64>,
}
pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{}.{}.{}", a, b, c)
}
impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mut z = Z3 { c, s: std::ptr::null_mut(), stack: vec![], bv: HashMap::new(), bo: HashMap::new(), lo: HashMap::new(), lins: Default::default(), vars: vec![], queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, checks_since_reset: 0, show_over: None };
            z.fresh();
            z
        }
    }
    unsafe fn fresh(&mut self) {
        if !self.s.is_null() {
            Z3_solver_dec_ref(self.c, self.s);
        }
        self.s = Z3_mk_simple_solver(self.c);
        Z3_solver_inc_ref(self.c, self.s);
        self.limit(self.s, "rlimit", 20_000_000);
        self.stack.clear();
        self.checks_since_reset = 0;
    }
    unsafe fn limit(&self, s: Solver, k: &str, v: u32) {
        let k = CString::new(k).unwrap();
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), v);
        Z3_solver_set_params(self.c, s, p);
        Z3_params_dec_ref(self.c, p);
    }
    /// the incremental solver gave up: decide the same query with the bit-vector tactic
    unsafe fn retry(&mut self, ex: &Exprs, pc: &[N], q: Option<N>) -> (Solver, c_int) {
        let l = CString::new("QF_BV").unwrap();
        let s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
        Z3_solver_inc_ref(self.c, s);
        self.limit(s, "timeout", 60_000);
        for n in pc.iter().copied().chain(q) {
            let a = self.tbo(ex, n);
            Z3_solver_assert(self.c, s, a);
        }
        let r = Z3_solver_check(self.c, s);
        (s, r)
    }
    unsafe fn inc(&self, a: Ast) -> Ast {
        Z3_inc_ref(self.c, a);
        a
    }
    unsafe fn num(&self, v: u128, w: u32) -> Ast {
        if w <= 64 {
            self.inc(Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, w)))
        } else {
            let lo = self.num(v & ((1u128 << 64) - 1), 64);
            let hi = self.num(v >> 64, w - 64);
            self.inc(Z3_mk_concat(self.c, hi, lo))
        }
    }
    unsafe fn var(&mut self, ex: &Exprs, i: usize) -> Ast {
        while self.vars.len() <= i {
            let k = self.vars.len();
            let n = CString::new(format!("v{}", k)).unwrap();
            let a = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bv_sort(self.c, ex.var_w[k]));
            let a = self.inc(a);
            self.vars.push(a);
        }
        self.vars[i]
    }
    unsafe fn tbv(&mut self, ex: &Exprs, n: N) -> Ast {
        if let Some(a) = self.bv.get(&n) {
            return *a;
        }
        let d = ex.node(n);
        let c = self.c;
        let a = if d.w == 1 && d.op != Op::Var && d.op != Op::Extract {
            if d.op == Op::Const {
                self.num(d.k, 1)
            } else {
                let b = self.tbo(ex, n);
                let one = self.num(1, 1);
                let z = self.num(0, 1);
                Z3_mk_ite(c, b, one, z)
            }
        } else {
            match d.op {
                Op::Const => self.num(d.k, d.w as u32),
                Op::Var => self.var(ex, d.a as usize),
                Op::Ite => {
                    let x = self.tbo(ex, d.a);
                    let y = self.tbv(ex, d.b);
                    let z = self.tbv(ex, d.c);
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Extract => {
                    let x = self.tbv(ex, d.a);
                    Z3_mk_extract(c, d.b + d.w as u32 - 1, d.b, x)
                }
                Op::ZExt | Op::SExt => {
                    let w0 = ex.node(d.a).w as u32;
                    if w0 == 1 {
                        let b = self.tbo(ex, d.a);
                        let one = if d.op == Op::ZExt { self.num(1, d.w as u32) } else { self.num(crate::expr::mask(d.w as u32), d.w as u32) };
                        let z = self.num(0, d.w as u32);
                        Z3_mk_ite(c, b, one, z)
                    } else {
                        let x = self.tbv(ex, d.a);
                        if d.op == Op::ZExt {
                            Z3_mk_zero_ext(c, d.w as u32 - w0, x)
                        } else {
                            Z3_mk_sign_ext(c, d.w as u32 - w0, x)
                        }
                    }
                }
                _ => {
                    let x = self.tbv(ex, d.a);
                    let y = self.tbv(ex, d.b);
                    match d.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        let a = self.inc(a);
        self.bv.insert(n, a);
        a
    }
    /// bits that hold both values, by their intervals
    fn width(ex: &Exprs, a: N, b: N, signed: bool) -> u32 {
        let w = ex.w(a);
        if w <= 1 || w > 64 { return w; }
        let mut k = 1;
        for n in [a, b] {
            let r = ex.rng(n);
            let need = if signed {
                let f = |v: i128| if v < 0 { 129 - (!v).leading_zeros() } else { 129 - v.leading_zeros() };
                f(r.slo).max(f(r.shi))
            } else {
                128 - r.uhi.leading_zeros()
            };
            k = k.max(need);
        }
        k.min(w)
    }
    /// the low k bits of n: comparisons of values known to be small need no wider circuit
    unsafe fn low(&mut self, ex: &Exprs, n: N, k: u32) -> Ast {
        let d = ex.node(n);
        let w = d.w as u32;
        if k >= w { return self.tbv(ex, n); }
        if let Some(a) = self.lo.get(&(n, k)) { return *a; }
        let c = self.c;
        let cst = |ex: &Exprs, m: N| { let x = ex.node(m); if x.op == Op::Const { Some(x.k) } else { None } };
        let a = match d.op {
            Op::Const => self.num(d.k & crate::expr::mask(k), k),
            Op::Add | Op::Sub | Op::Mul | Op::And | Op::Or | Op::Xor => {
                let x = self.low(ex, d.a, k);
                let y = self.low(ex, d.b, k);
                match d.op { Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y), Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y), _ => Z3_mk_bvxor(c, x, y) }
            }
            Op::Shl if cst(ex, d.b).is_some() => {
                let s = cst(ex, d.b).unwrap();
                if s >= k as u128 { self.num(0, k) } else {
                    let x = self.low(ex, d.a, k);
                    let y = self.num(s, k);
                    Z3_mk_bvshl(c, x, y)
                }
            }
            Op::LShr | Op::AShr if cst(ex, d.b).map_or(false, |s| s + k as u128 <= w as u128) => {
                let s = cst(ex, d.b).unwrap() as u32;
                let x = self.low(ex, d.a, s + k);
                Z3_mk_extract(c, s + k - 1, s, x)
            }
            Op::ZExt | Op::SExt => {
                let w0 = ex.w(d.a);
                if w0 >= k { self.low(ex, d.a, k) } else {
                    let x = self.tbv(ex, d.a);
                    if d.op == Op::ZExt { Z3_mk_zero_ext(c, k - w0, x) } else { Z3_mk_sign_ext(c, k - w0, x) }
                }
            }
            Op::Ite => {
                let x = self.tbo(ex, d.a);
                let y = self.low(ex, d.b, k);
                let z = self.low(ex, d.c, k);
                Z3_mk_ite(c, x, y, z)
            }
            Op::Concat => {
                let wl = ex.w(d.b);
                if wl >= k { self.low(ex, d.b, k) } else {
                    let h = self.low(ex, d.a, k - wl);
                    let l = self.tbv(ex, d.b);
                    Z3_mk_concat(c, h, l)
                }
            }
            Op::Extract if d.b == 0 => self.low(ex, d.a, k),
            Op::UDiv | Op::URem if Self::width(ex, d.a, d.b, false) <= k => {
                let x = self.low(ex, d.a, k);
                let y = self.low(ex, d.b, k);
                if d.op == Op::UDiv { Z3_mk_bvudiv(c, x, y) } else { Z3_mk_bvurem(c, x, y) }
            }
            Op::SDiv | Op::SRem if Self::width(ex, d.a, d.b, true) < k => {
                let x = self.low(ex, d.a, k);
                let y = self.low(ex, d.b, k);
                if d.op == Op::SDiv { Z3_mk_bvsdiv(c, x, y) } else { Z3_mk_bvsrem(c, x, y) }
            }
            _ => {
                let x = self.tbv(ex, n);
                Z3_mk_extract(c, k - 1, 0, x)
            }
        };
        let a = self.inc(a);
        self.lo.insert((n, k), a);
        a
    }
    /// a comparison of affine terms that cannot wrap, as one over plain sums
    unsafe fn affine(&mut self, ex: &Exprs, op: Op, a: N, b: N) -> Option<Ast> {
        if let Op::Var = ex.node(a).op {
            // the declaration of the variable's interval itself
            if ex.cval(b) == Some(ex.var_max[ex.node(a).a as usize] as u128 + 1) { return None; }
        }
        let mut l = match op {
            Op::Slt | Op::Ult => self.lins.cmp(ex, a, b, op == Op::Slt)?,
            _ => self.lins.cmp(ex, a, b, true).or_else(|| self.lins.cmp(ex, a, b, false))?,
        };
        let c = self.c;
        let (lo, hi) = l.range(ex);
        if op == Op::Eq {
            if lo > 0 || hi < 0 { return Some(Z3_mk_false(c)); }
            if lo == 0 && hi == 0 { return Some(Z3_mk_true(c)); }
        } else {
            if hi < 0 { return Some(Z3_mk_true(c)); }
            if lo >= 0 { return Some(Z3_mk_false(c)); }
        }
        let mut g = 0i128;
        for &(_, k) in &l.t { let (mut x, mut y) = (g, k.abs()); while y != 0 { let t = x % y; x = y; y = t; } g = x; }
        if g == 0 || g >= 1 << 40 { return None; }
        // strict: sum + k < 0, i.e. sum <= -k - 1
        if op == Op::Eq {
            if l.k % g != 0 { return Some(Z3_mk_false(c)); }
            l.k /= g;
        } else {
            l.k = -((-l.k - 1).div_euclid(g)); // sum/g <= bound, i.e. sum/g + k <= 0
        }
        for t in &mut l.t { t.1 /= g; }
        // positive part on the left, the rest on the right
        let (mut pl, mut pr) = (l.k.max(0), (-l.k).max(0));
        for &(v, k) in &l.t { let m = ex.var_max[v as usize] as i128; if k > 0 { pl += k * m } else { pr -= k * m } }
        let w = (128 - pl.max(pr).leading_zeros()).max(1);
        if w > 64 { return None; }
        let (mut x, mut y): (Option<Ast>, Option<Ast>) = (None, None);
        if l.k > 0 { x = Some(self.num(l.k as u128, w)); }
        if l.k < 0 { y = Some(self.num((-l.k) as u128, w)); }
        for &(v, k) in &l.t {
            let vw = ex.var_w[v as usize];
            let mut t = self.var(ex, v as usize);
            if vw < w { t = self.inc(Z3_mk_zero_ext(c, w - vw, t)); }
            if vw > w { t = self.inc(Z3_mk_extract(c, w - 1, 0, t)); }
            if k.abs() != 1 { let f = self.num(k.abs() as u128, w); t = self.inc(Z3_mk_bvmul(c, t, f)); }
            let side = if k > 0 { &mut x } else { &mut y };
            *side = Some(match *side { None => t, Some(s) => { let r = Z3_mk_bvadd(c, s, t); Z3_inc_ref(c, r); r } });
        }
        let zero = self.num(0, w);
        let (x, y) = (x.unwrap_or(zero), y.unwrap_or(zero));
        Some(if op == Op::Eq { Z3_mk_eq(c, x, y) } else { let r = self.inc(Z3_mk_bvult(c, y, x)); Z3_mk_not(c, r) })
    }
    unsafe fn tbo(&mut self, ex: &Exprs, n: N) -> Ast {
        if let Some(a) = self.bo.get(&n) {
            return *a;
        }
        let d = ex.node(n);
        debug_assert!(d.w == 1);
        let c = self.c;
        let a = match d.op {
            Op::Const => {
                if d.k == 1 {
                    Z3_mk_true(c)
                } else {
                    Z3_mk_false(c)
                }
            }
            Op::And | Op::Or | Op::Mul => {
                let v = [self.tbo(ex, d.a), self.tbo(ex, d.b)];
                if d.op != Op::Or {
                    Z3_mk_and(c, 2, v.as_ptr())
                } else {
                    Z3_mk_or(c, 2, v.as_ptr())
                }
            }
            Op::Xor | Op::Add | Op::Sub => {
                if ex.node(d.b).op == Op::Const && ex.node(d.b).k == 1 {
                    let x = self.tbo(ex, d.a);
                    Z3_mk_not(c, x)
                } else {
                    let x = self.tbo(ex, d.a);
                    let y = self.tbo(ex, d.b);
                    Z3_mk_xor(c, x, y)
                }
            }
            Op::Ite => {
                let x = self.tbo(ex, d.a);
                let y = self.tbo(ex, d.b);
                let z = self.tbo(ex, d.c);
                Z3_mk_ite(c, x, y, z)
            }
            Op::Eq => {
                if ex.node(d.a).w == 1 {
                    let x = self.tbo(ex, d.a);
                    let y = self.tbo(ex, d.b);
                    Z3_mk_iff(c, x, y)
                } else if let Some(a) = self.affine(ex, d.op, d.a, d.b) {
                    a
                } else {
                    let k = Self::width(ex, d.a, d.b, true).min(Self::width(ex, d.a, d.b, false));
                    let x = self.low(ex, d.a, k);
                    let y = self.low(ex, d.b, k);
                    Z3_mk_eq(c, x, y)
                }
            }
            Op::Ult | Op::Slt => {
                if let Some(a) = self.affine(ex, d.op, d.a, d.b) {
                    let a = self.inc(a);
                    self.bo.insert(n, a);
                    return a;
                }
                let k = Self::width(ex, d.a, d.b, d.op == Op::Slt);
                let x = self.low(ex, d.a, k);
                let y = self.low(ex, d.b, k);
                if d.op == Op::Ult {
                    Z3_mk_bvult(c, x, y)
                } else {
                    Z3_mk_bvslt(c, x, y)
                }
            }
            Op::Var | Op::Extract => {
                let x = self.tbv(ex, n);
                let one = self.num(1, 1);
                Z3_mk_eq(c, x, one)
            }
            o => panic!("bool op {:?}", o),
        };
        let a = self.inc(a);
        self.bo.insert(n, a);
        a
    }
    /// Is pc ∧ q satisfiable? The solver's assertion stack follows the path.
    pub fn check(&mut self, ex: &Exprs, pc: &[N], q: Option<N>, nvars: usize) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let r = unsafe {
            if self.checks_since_reset > 20000 {
                self.fresh();
            }
            self.checks_since_reset += 1;
            let mut k = 0;
            while k < self.stack.len() && k < pc.len() && self.stack[k] == pc[k] {
                k += 1;
            }
            if k < self.stack.len() {
                Z3_solver_pop(self.c, self.s, (self.stack.len() - k) as u32);
                self.stack.truncate(k);
            }
            for &n in &pc[k..] {
                let a = self.tbo(ex, n);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, a);
                self.stack.push(n);
            }
            if let Some(q) = q {
                let a = self.tbo(ex, q);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, a);
            }
            let mut r = Z3_solver_check(self.c, self.s);
            let mut from = self.s;
            if r == 0 {
                let (s2, r2) = self.retry(ex, pc, q);
                from = s2;
                r = r2;
            }
            let out = if r == 1 {
                let m = Z3_solver_get_model(self.c, from);
                Z3_model_inc_ref(self.c, m);
                let mut vs = Vec::with_capacity(nvars);
                for i in 0..nvars {
                    let v = self.var(ex, i);
                    let mut o: Ast = std::ptr::null_mut();
                    let ok = Z3_model_eval(self.c, m, v, true, &mut o);
                    assert!(ok);
                    Z3_inc_ref(self.c, o);
                    let mut u = 0u64;
                    assert!(Z3_get_numeral_uint64(self.c, o, &mut u));
                    vs.push(u);
                }
                Z3_model_dec_ref(self.c, m);
                Res::Sat(vs)
            } else if r == -1 {
                Res::Unsat
            } else {
                Res::Unknown
            };
            if from != self.s {
                Z3_solver_dec_ref(self.c, from);
            }
            if q.is_some() {
                Z3_solver_pop(self.c, self.s, 1);
            }
            out
        };
        match &r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if let Some(f) = self.show_over { if dt > f {
            eprintln!("QUERY {:.1} ms", dt * 1e3);
            for n in pc.iter().copied().chain(q) { eprintln!("   {}", unsafe { let a = self.tbo(ex, n); std::ffi::CStr::from_ptr(Z3_ast_to_string(self.c, a)).to_string_lossy().into_owned() }); }
        } }
        r
    }
}
