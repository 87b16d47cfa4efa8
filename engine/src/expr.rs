//! Hash-consed bit-vector expressions with simplification and interval information.
use std::collections::HashMap;
pub type N = u32;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Slt, Ite, Concat, Extract, ZExt, SExt,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}
#[derive(Clone, Copy, Debug)]
pub struct Rng {
    pub ulo: u128,
    pub uhi: u128,
    pub slo: i128,
    pub shi: i128,
}
#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 { !0 } else { (1u128 << w) - 1 }
}
#[inline]
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}
#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(N),
    A(std::rc::Rc<Vec<Val>>),
}
use Val::*;
pub struct Exprs {
    nodes: Vec<Node>,
    rng: Vec<Rng>,
    map: HashMap<Node, N, std::hash::BuildHasherDefault<Fx>>,
    pub var_w: Vec<u32>,
    pub var_max: Vec<u64>,
    pub var_node: Vec<N>,
    memo: HashMap<(N, u32, u32, u8), N, std::hash::BuildHasherDefault<Fx>>,
}
#[derive(Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b { self.write_u64(*x as u64) }
    }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}
pub fn cbin(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { a << b },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => (sx(a, w) >> (b.min(w as u128 - 1))) as u128,
        Op::Eq => return (a == b) as u128,
        Op::Ult => return (a < b) as u128,
        Op::Slt => return (sx(a, w) < sx(b, w)) as u128,
        _ => unreachable!(),
    }) & m
}
impl Exprs {
    pub fn new() -> Self {
        Exprs { nodes: vec![], rng: vec![], map: Default::default(), var_w: vec![], var_max: vec![], var_node: vec![], memo: Default::default() }
    }
    #[inline]
    pub fn node(&self, n: N) -> Node {
        self.nodes[n as usize]
    }
    pub fn len(&self) -> usize {
        self.nodes.len()
    }
    #[inline]
    pub fn w(&self, n: N) -> u32 {
        self.nodes[n as usize].w as u32
    }
    pub fn rng(&self, n: N) -> Rng {
        self.rng[n as usize]
    }
    fn full(w: u32) -> Rng {
        if w >= 127 { Rng { ulo: 0, uhi: mask(w), slo: i128::MIN, shi: i128::MAX } } else { Rng { ulo: 0, uhi: mask(w), slo: -(1i128 << (w - 1)), shi: (1i128 << (w - 1)) - 1 } }
    }
    fn norm(mut r: Rng, w: u32) -> Rng {
        // make signed/unsigned information consistent (w < 127)
        let half = 1u128 << (w - 1);
        if r.uhi < half {
            r.slo = r.slo.max(r.ulo as i128);
            r.shi = r.shi.min(r.uhi as i128);
        } else if r.ulo >= half {
            r.slo = r.slo.max(sx(r.ulo, w));
            r.shi = r.shi.min(sx(r.uhi, w));
        }
        if r.slo >= 0 {
            r.ulo = r.ulo.max(r.slo as u128);
            r.uhi = r.uhi.min(r.shi as u128);
        } else if r.shi < 0 {
            r.ulo = r.ulo.max(r.slo as u128 & mask(w));
            r.uhi = r.uhi.min(r.shi as u128 & mask(w));
        }
        r
    }
    fn calc_rng(&self, n: &Node) -> Rng {
        let w = n.w as u32;
        let f = Self::full(w);
        if w > 64 {
            if n.op == Op::Const { return Rng { ulo: n.k, uhi: n.k, ..f }; }
            return f;
        }
        let m = mask(w);
        let ra = || self.rng(n.a);
        let rb = || self.rng(n.b);
        let mut r = f;
        match n.op {
            Op::Const => { r = Rng { ulo: n.k, uhi: n.k, slo: sx(n.k, w), shi: sx(n.k, w) }; }
            Op::Var => { r.uhi = self.var_max[n.a as usize] as u128; }
            Op::Add => {
                let (a, b) = (ra(), rb());
                if a.uhi + b.uhi <= m { r.ulo = a.ulo + b.ulo; r.uhi = a.uhi + b.uhi; }
                if a.slo + b.slo >= f.slo && a.shi + b.shi <= f.shi { r.slo = a.slo + b.slo; r.shi = a.shi + b.shi; }
            }
            Op::Sub => {
                let (a, b) = (ra(), rb());
                if a.ulo >= b.uhi { r.ulo = a.ulo - b.uhi; r.uhi = a.uhi - b.ulo; }
                if a.slo - b.shi >= f.slo && a.shi - b.slo <= f.shi { r.slo = a.slo - b.shi; r.shi = a.shi - b.slo; }
            }
            Op::Mul => {
                let (a, b) = (ra(), rb());
                if w <= 32 || (a.uhi < 1 << 60 && b.uhi < 1 << 60) { if a.uhi * b.uhi <= m { r.ulo = a.ulo * b.ulo; r.uhi = a.uhi * b.uhi; } }
                let p = [a.slo * b.slo, a.slo * b.shi, a.shi * b.slo, a.shi * b.shi];
                let (lo, hi) = (*p.iter().min().unwrap(), *p.iter().max().unwrap());
                if lo >= f.slo && hi <= f.shi { r.slo = lo; r.shi = hi; }
            }
            Op::UDiv => { let (a, b) = (ra(), rb()); if b.ulo > 0 { r.ulo = a.ulo / b.uhi; r.uhi = a.uhi / b.ulo; } }
            Op::URem => { let (a, b) = (ra(), rb()); if b.ulo > 0 { r.uhi = a.uhi.min(b.uhi - 1); } else { r.uhi = a.uhi.max(0); } }
            Op::SDiv => { let (a, b) = (ra(), rb()); if b.slo > 0 || b.shi < 0 { let q = a.slo.abs().max(a.shi.abs()); r.slo = (-q).max(f.slo); r.shi = q.min(f.shi); } }
            Op::SRem => { let (a, b) = (ra(), rb()); if b.slo > 0 { r.slo = if a.slo < 0 { -(b.shi - 1) } else { 0 }; r.shi = if a.shi > 0 { b.shi - 1 } else { 0 }; } }
            Op::And => { let (a, b) = (ra(), rb()); r.uhi = a.uhi.min(b.uhi); }
            Op::Or | Op::Xor => {
                let (a, b) = (ra(), rb());
                let h = a.uhi | b.uhi;
                let bits = 128 - h.leading_zeros();
                r.uhi = mask(bits).min(m);
                if n.op == Op::Or {
                    r.ulo = a.ulo.max(b.ulo);
                    if w > 1 && b.slo >= 0 && b.shi < (1i128 << (w - 1)) {
                        // x | small (non negative) : x <= r <= x + small
                        r.slo = r.slo.max(a.slo.min(f.shi));
                        if a.shi + b.shi <= f.shi { r.shi = r.shi.min(a.shi + b.shi); }
                    }
                }
            }
            Op::Shl => if let Some(k) = self.cval(n.b) { if k < w as u128 {
                let a = ra();
                if a.uhi << k <= m { r.ulo = a.ulo << k; r.uhi = a.uhi << k; }
                if a.slo << k >= f.slo && a.shi << k <= f.shi { r.slo = a.slo << k; r.shi = a.shi << k; }
            } },
            Op::LShr => if let Some(k) = self.cval(n.b) { let a = ra(); if k < w as u128 { r.ulo = a.ulo >> k; r.uhi = a.uhi >> k; } } else { r.uhi = ra().uhi; },
            Op::AShr => if let Some(k) = self.cval(n.b) { let a = ra(); if k < w as u128 { r.slo = a.slo >> k; r.shi = a.shi >> k; } },
            Op::Eq | Op::Ult | Op::Slt => {}
            Op::Ite => {
                let (a, b) = (self.rng(n.b), self.rng(n.c));
                r = Rng { ulo: a.ulo.min(b.ulo), uhi: a.uhi.max(b.uhi), slo: a.slo.min(b.slo), shi: a.shi.max(b.shi) };
            }
            Op::Concat => {
                let wb = self.w(n.b);
                let (a, b) = (ra(), rb());
                r.ulo = (a.ulo << wb) | b.ulo;
                r.uhi = (a.uhi << wb) | b.uhi;
            }
            Op::Extract => {
                let a = ra();
                if self.w(n.a) <= 64 {
                    if n.b == 0 {
                        if a.uhi <= m { r.ulo = a.ulo; r.uhi = a.uhi; }
                        if a.slo >= f.slo && a.shi <= f.shi { r.slo = a.slo; r.shi = a.shi; }
                    } else if a.uhi >> n.b <= m {
                        r.ulo = a.ulo >> n.b; r.uhi = a.uhi >> n.b;
                    }
                }
            }
            Op::ZExt => { let a = ra(); r.ulo = a.ulo; r.uhi = a.uhi; }
            Op::SExt => { let a = ra(); r.slo = a.slo; r.shi = a.shi; }
        }
        Self::norm(r, w)
    }
    fn raw(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32, k: u128) -> N {
        let n = Node { op, w: w as u16, a, b, c, k };
        if let Some(x) = self.map.get(&n) {
            return *x;
        }
        let r = self.calc_rng(&n);
        if op != Op::Const && r.ulo == r.uhi && w <= 64 {
            return self.konst(r.ulo, w);
        }
        if op != Op::Const && w <= 64 && r.slo == r.shi {
            return self.konst(r.slo as u128 & mask(w), w);
        }
        let id = self.nodes.len() as N;
        self.nodes.push(n);
        self.rng.push(r);
        self.map.insert(n, id);
        id
    }
    pub fn konst(&mut self, k: u128, w: u32) -> N {
        self.raw(Op::Const, w, 0, 0, 0, k & mask(w))
    }
    pub fn var(&mut self, idx: usize) -> N {
        self.var_node[idx]
    }
    /// idx-th variable on the path, values 0..=max
    pub fn mkvar(&mut self, w: u32, max: u64) -> (usize, N) {
        let idx = self.var_w.len();
        self.var_w.push(w);
        self.var_max.push(max);
        let n = self.raw(Op::Var, w, idx as u32, 0, 0, 0);
        self.var_node.push(n);
        (idx, n)
    }
    #[inline]
    pub fn cval(&self, n: N) -> Option<u128> {
        let d = &self.nodes[n as usize];
        if d.op == Op::Const { Some(d.k) } else { None }
    }
    fn noov_u(&self, n: N) -> bool {
        // Add(x,c) node without unsigned overflow
        let d = self.node(n);
        let (a, b) = (self.rng(d.a), self.rng(d.b));
        d.w <= 64 && a.uhi + b.uhi <= mask(d.w as u32)
    }
    fn noov_s(&self, n: N) -> bool {
        let d = self.node(n);
        if d.w > 64 { return false; }
        let (a, b) = (self.rng(d.a), self.rng(d.b));
        let f = Self::full(d.w as u32);
        a.slo + b.slo >= f.slo && a.shi + b.shi <= f.shi
    }
    fn addc(&self, n: N) -> Option<(N, u128)> {
        let d = self.node(n);
        if d.op == Op::Add { self.cval(d.b).map(|k| (d.a, k)) } else { None }
    }
    fn shlc(&self, n: N) -> Option<(N, u128)> {
        let d = self.node(n);
        if d.op == Op::Shl { self.cval(d.b).map(|k| (d.a, k)) } else { None }
    }
    fn ite_consts(&self, n: N) -> Option<(N, u128, u128)> {
        let d = self.node(n);
        if d.op == Op::Ite { if let (Some(x), Some(y)) = (self.cval(d.b), self.cval(d.c)) { return Some((d.a, x, y)); } }
        None
    }
    pub fn not(&mut self, a: N) -> N {
        let one = self.konst(1, 1);
        self.bin(Op::Xor, 1, a, one)
    }
    pub fn bin(&mut self, op: Op, w: u32, a: N, b: N) -> N {
        debug_assert_eq!(self.w(a), w, "{:?} {:?} {:?}", op, self.node(a), self.node(b));
        debug_assert_eq!(self.w(b), w);
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(cbin(op, w, x, y), rw);
        }
        let key = (a, b, w, op as u8);
        if let Some(r) = self.memo.get(&key) { return *r; }
        let r = self.bin0(op, w, rw, ca, cb, a, b);
        self.memo.insert(key, r);
        r
    }
    fn bin0(&mut self, op: Op, w: u32, rw: u32, ca: Option<u128>, cb: Option<u128>, a: N, b: N) -> N {
        let m = mask(w);
        match op {
            Op::Add => {
                if ca.is_some() { return self.bin(op, w, b, a); }
                if cb == Some(0) { return a; }
                if let Some(k) = cb {
                    if let Some((x, k1)) = self.addc(a) {
                        let c = self.konst(k.wrapping_add(k1), w);
                        return self.bin(Op::Add, w, x, c);
                    }
                    if let Some((c, x, y)) = self.ite_consts(a) {
                        let (x, y) = (self.konst(x.wrapping_add(k), w), self.konst(y.wrapping_add(k), w));
                        return self.ite(c, x, y);
                    }
                } else {
                    if let Some((y, k)) = self.addc(b) {
                        let t = self.bin(Op::Add, w, a, y);
                        let c = self.konst(k, w);
                        return self.bin(Op::Add, w, t, c);
                    }
                    if let Some((x, k)) = self.addc(a) {
                        let t = self.bin(Op::Add, w, x, b);
                        let c = self.konst(k, w);
                        return self.bin(Op::Add, w, t, c);
                    }
                    let (da, db) = (self.node(a), self.node(b));
                    if da.op == Op::Sub && da.b == b { return da.a; }
                    if db.op == Op::Sub && db.b == a { return db.a; }
                    if a > b { return self.raw(op, w, b, a, 0, 0); }
                }
            }
            Op::Sub => {
                if a == b { return self.konst(0, w); }
                if let Some(k) = cb {
                    let c = self.konst(0u128.wrapping_sub(k), w);
                    return self.bin(Op::Add, w, a, c);
                }
                if let Some((x, k)) = self.addc(a) {
                    let t = self.bin(Op::Sub, w, x, b);
                    let c = self.konst(k, w);
                    return self.bin(Op::Add, w, t, c);
                }
                if let Some((y, k)) = self.addc(b) {
                    let t = self.bin(Op::Sub, w, a, y);
                    let c = self.konst(0u128.wrapping_sub(k), w);
                    return self.bin(Op::Add, w, t, c);
                }
                let (da, db) = (self.node(a), self.node(b));
                if da.op == Op::Add { if da.a == b { return da.b; } if da.b == b { return da.a; } }
                if db.op == Op::Sub && db.a == a { return db.b; }
                if ca == Some(0) && db.op == Op::Sub { return self.bin(Op::Sub, w, db.b, db.a); }
            }
            Op::Mul => {
                if ca.is_some() { return self.bin(op, w, b, a); }
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(k) = cb {
                    if let Some((c, x, y)) = self.ite_consts(a) {
                        let (x, y) = (self.konst(x.wrapping_mul(k), w), self.konst(y.wrapping_mul(k), w));
                        return self.ite(c, x, y);
                    }
                    if k.is_power_of_two() { let s = self.konst(k.trailing_zeros() as u128, w); return self.bin(Op::Shl, w, a, s); }
                } else if a > b { return self.raw(op, w, b, a, 0, 0); }
            }
            Op::UDiv => {
                if cb == Some(1) { return a; }
                if let Some(k) = cb { if k.is_power_of_two() { let s = self.konst(k.trailing_zeros() as u128, w); return self.bin(Op::LShr, w, a, s); } }
            }
            Op::URem => {
                if let Some(k) = cb { if k.is_power_of_two() { let s = self.konst(k - 1, w); return self.bin(Op::And, w, a, s); } if w <= 64 && self.rng(a).uhi < k { return a; } }
            }
            Op::SDiv => if cb == Some(1) { return a; },
            Op::SRem => {}
            Op::And => {
                if ca.is_some() { return self.bin(op, w, b, a); }
                if a == b { return a; }
                if cb == Some(0) { return b; }
                if cb == Some(m) { return a; }
                if let Some(k) = cb {
                    if w <= 64 && (k + 1).is_power_of_two() && self.rng(a).uhi <= k { return a; }
                    let d = self.node(a);
                    match d.op {
                        Op::And => if let Some(k1) = self.cval(d.b) { let c = self.konst(k & k1, w); return self.bin(Op::And, w, d.a, c); },
                        Op::Or | Op::Xor => {
                            // distribute when one side vanishes
                            let c = b;
                            let x = self.bin(Op::And, w, d.a, c);
                            let y = self.bin(Op::And, w, d.b, c);
                            if self.cval(x).is_some() || self.cval(y).is_some() { return self.bin(d.op, w, x, y); }
                        }
                        Op::Shl => if let Some(s) = self.cval(d.b) { if s < 128 && k >> s == 0 { return self.konst(0, w); } },
                        Op::ZExt => {
                            let w0 = self.w(d.a);
                            if k & mask(w0) == mask(w0) { return a; }
                            let c = self.konst(k, w0);
                            let t = self.bin(Op::And, w0, d.a, c);
                            return self.zext(t, w);
                        }
                        Op::Ite => if let Some((c, x, y)) = self.ite_consts(a) { let (x, y) = (self.konst(x & k, w), self.konst(y & k, w)); return self.ite(c, x, y); },
                        _ => {}
                    }
                    if (k + 1).is_power_of_two() && w > 1 {
                        let bits = k.trailing_ones();
                        let t = self.extract(a, 0, bits);
                        return self.zext(t, w);
                    }
                }
                if w == 1 {
                    let (da, db) = (self.node(a), self.node(b));
                    if da.op == Op::Xor && da.a == b && self.cval(da.b) == Some(1) { return self.konst(0, 1); }
                    if db.op == Op::Xor && db.a == a && self.cval(db.b) == Some(1) { return self.konst(0, 1); }
                    if da.op == Op::And && (da.a == b || da.b == b) { return a; }
                    if db.op == Op::And && (db.a == a || db.b == a) { return b; }
                }
                if cb.is_none() && a > b { return self.raw(op, w, b, a, 0, 0); }
            }
            Op::Or => {
                if ca.is_some() { return self.bin(op, w, b, a); }
                if a == b { return a; }
                if cb == Some(0) { return a; }
                if cb == Some(m) { return b; }
                if let Some(k) = cb {
                    if let Some((c, x, y)) = self.ite_consts(a) { let (x, y) = (self.konst(x | k, w), self.konst(y | k, w)); return self.ite(c, x, y); }
                    let d = self.node(a);
                    if d.op == Op::Or { if let Some(k1) = self.cval(d.b) { let c = self.konst(k | k1, w); return self.bin(Op::Or, w, d.a, c); } }
                }
                if w == 1 {
                    let (da, db) = (self.node(a), self.node(b));
                    if da.op == Op::Xor && da.a == b && self.cval(da.b) == Some(1) { return self.konst(1, 1); }
                    if db.op == Op::Xor && db.a == a && self.cval(db.b) == Some(1) { return self.konst(1, 1); }
                    if da.op == Op::Or && (da.a == b || da.b == b) { return a; }
                    if db.op == Op::Or && (db.a == a || db.b == a) { return b; }
                } else if cb.is_none() {
                    // keep a left-shifted operand first:  (x << k) | y
                    if let Some(r) = self.or_concat(a, b, w) { return r; }
                }
                if cb.is_none() && a > b && self.shlc(a).is_none() { return self.raw(op, w, b, a, 0, 0); }
                if cb.is_none() && self.shlc(b).is_some() && self.shlc(a).is_none() { return self.raw(op, w, b, a, 0, 0); }
            }
            Op::Xor => {
                if ca.is_some() { return self.bin(op, w, b, a); }
                if a == b { return self.konst(0, w); }
                if cb == Some(0) { return a; }
                if let Some(k) = cb {
                    let d = self.node(a);
                    if d.op == Op::Xor { if let Some(k1) = self.cval(d.b) { let c = self.konst(k ^ k1, w); return self.bin(Op::Xor, w, d.a, c); } }
                    if d.op == Op::ZExt && k >> self.w(d.a) == 0 && self.w(d.a) < 128 { let w0 = self.w(d.a); let c = self.konst(k, w0); let t = self.bin(Op::Xor, w0, d.a, c); return self.zext(t, w); }
                    if let Some((c, x, y)) = self.ite_consts(a) { let (x, y) = (self.konst(x ^ k, w), self.konst(y ^ k, w)); return self.ite(c, x, y); }
                } else if a > b { return self.raw(op, w, b, a, 0, 0); }
            }
            Op::Shl => {
                if let Some(k) = cb {
                    if k == 0 { return a; }
                    if k >= w as u128 { return self.konst(0, w); }
                    if let Some((x, k1)) = self.shlc(a) { let c = self.konst(k + k1, w); return self.bin(Op::Shl, w, x, c); }
                    if let Some((c, x, y)) = self.ite_consts(a) { let (x, y) = (self.konst(x << k, w), self.konst(y << k, w)); return self.ite(c, x, y); }
                    if let Some((x, k1)) = self.addc(a) { let t = self.bin(Op::Shl, w, x, b); let c = self.konst(k1 << k, w); return self.bin(Op::Add, w, t, c); }
                }
                if ca == Some(0) { return a; }
            }
            Op::LShr | Op::AShr => {
                if ca == Some(0) { return a; }
                if let Some(k) = cb {
                    if k == 0 { return a; }
                    if op == Op::LShr && k >= w as u128 { return self.konst(0, w); }
                    if let Some((c, x, y)) = self.ite_consts(a) { let (x, y) = (self.konst(cbin(op, w, x, k), w), self.konst(cbin(op, w, y, k), w)); return self.ite(c, x, y); }
                    if op == Op::AShr && w <= 64 && self.rng(a).slo >= 0 { return self.bin(Op::LShr, w, a, b); }
                    if k < w as u128 && w <= 64 {
                        let d = self.node(a);
                        let f = Self::full(w);
                        let shl_exact = |s: &Self, n: N| -> bool {
                            if let Some((x, k1)) = s.shlc(n) { let r = s.rng(x); k1 == k && if op == Op::AShr { r.slo << k >= f.slo && r.shi << k <= f.shi } else { r.uhi << k <= m } } else { false }
                        };
                        if shl_exact(self, a) { return d.a; }
                        if d.op == Op::Shl { return { self.node(a); self.shr_shl(op, w, a, k) }; }
                        if d.op == Op::Or || d.op == Op::Add {
                            let small = self.rng(d.b);
                            if shl_exact(self, d.a) && small.uhi < 1u128 << k && self.no_wrap_small(op, d.a, small.uhi, w) {
                                return self.node(d.a).a;
                            }
                            // (x << j) + c with c possibly larger: shift when c's low bits do not carry
                            if d.op == Op::Add { if let (Some((x, k1)), Some(c)) = (self.shlc(d.a), self.cval(d.b)) { if k1 == k && shl_exact(self, d.a) && self.noov_for(op, a) {
                                let t = self.konst(cbin(op, w, c, k), w);
                                return self.bin(Op::Add, w, x, t);
                            } } }
                        }
                        if d.op == Op::LShr && op == Op::LShr { if let Some(k1) = self.cval(d.b) { let c = self.konst(k + k1, w); return self.bin(Op::LShr, w, d.a, c); } }
                        if op == Op::LShr && d.op == Op::ZExt { let w0 = self.w(d.a); if k >= w0 as u128 { return self.konst(0, w); } let c = self.konst(k, w0); let t = self.bin(Op::LShr, w0, d.a, c); return self.zext(t, w); }
                    }
                }
            }
            Op::Eq => {
                if a == b { return self.konst(1, 1); }
                if ca.is_some() { return self.bin(op, w, b, a); }
                if w <= 64 {
                    let (x, y) = (self.rng(a), self.rng(b));
                    if x.uhi < y.ulo || y.uhi < x.ulo || x.shi < y.slo || y.shi < x.slo { return self.konst(0, 1); }
                }
                let d = self.node(a);
                if let Some(k) = cb {
                    if w == 1 { return if k == 1 { a } else { self.not(a) }; }
                    match d.op {
                        Op::Add => if let Some(k1) = self.cval(d.b) { let c = self.konst(k.wrapping_sub(k1), w); return self.bin(Op::Eq, w, d.a, c); },
                        Op::Xor => if let Some(k1) = self.cval(d.b) { let c = self.konst(k ^ k1, w); return self.bin(Op::Eq, w, d.a, c); },
                        Op::ZExt => { let w0 = self.w(d.a); if k > mask(w0) { return self.konst(0, 1); } let c = self.konst(k, w0); return self.bin(Op::Eq, w0, d.a, c); }
                        Op::SExt => { let w0 = self.w(d.a); let kk = k & mask(w0); if sx(kk, w0) as u128 & m != k { return self.konst(0, 1); } let c = self.konst(kk, w0); return self.bin(Op::Eq, w0, d.a, c); }
                        Op::Ite => {
                            let (x, y) = (self.cval(d.b), self.cval(d.c));
                            if x.is_some() || y.is_some() {
                                let ex = self.bin(Op::Eq, w, d.b, b);
                                let ey = self.bin(Op::Eq, w, d.c, b);
                                return self.ite(d.a, ex, ey);
                            }
                        }
                        Op::Concat => {
                            let wb = self.w(d.b);
                            let wa = self.w(d.a);
                            let (h, l) = (self.konst(k >> wb, wa), self.konst(k & mask(wb), wb));
                            let x = self.bin(Op::Eq, wa, d.a, h);
                            let y = self.bin(Op::Eq, wb, d.b, l);
                            return self.bin(Op::And, 1, x, y);
                        }
                        Op::Sub if k == 0 => return self.bin(Op::Eq, w, d.a, d.b),
                        Op::Shl => if let Some(s) = self.cval(d.b) { if k & mask(s as u32) != 0 { return self.konst(0, 1); }
                            if w <= 64 && self.rng(d.a).uhi << s <= m { let c = self.konst(k >> s, w); return self.bin(Op::Eq, w, d.a, c); } },
                        _ => {}
                    }
                } else {
                    if let (Some((x, k1)), Some((y, k2))) = (self.addc(a), self.addc(b)) {
                        if k1 == k2 { return self.bin(Op::Eq, w, x, y); }
                    }
                    let e = self.node(b);
                    if d.op == e.op && matches!(d.op, Op::ZExt | Op::SExt) && self.w(d.a) == self.w(e.a) { return self.bin(Op::Eq, self.w(d.a), d.a, e.a); }
                    if a > b { return self.raw(op, 1, b, a, 0, 0); }
                }
                return self.raw(op, 1, a, b, 0, 0);
            }
            Op::Ult | Op::Slt => {
                if a == b { return self.konst(0, 1); }
                let s = op == Op::Slt;
                if w == 1 {
                    // a <u b = !a & b ; signed: a & !b
                    let (x, y) = if s { (a, self.not(b)) } else { (self.not(a), b) };
                    return self.bin(Op::And, 1, x, y);
                }
                if w <= 64 {
                    let (x, y) = (self.rng(a), self.rng(b));
                    if s {
                        if x.shi < y.slo { return self.konst(1, 1); }
                        if x.slo >= y.shi { return self.konst(0, 1); }
                    } else {
                        if x.uhi < y.ulo { return self.konst(1, 1); }
                        if x.ulo >= y.uhi { return self.konst(0, 1); }
                    }
                    if s && ((x.slo >= 0 && y.slo >= 0) || (x.shi < 0 && y.shi < 0)) { return self.bin(Op::Ult, w, a, b); }
                }
                let (d, e) = (self.node(a), self.node(b));
                if let Some((c, x, y)) = self.ite_consts(a) { if let Some(k) = cb { let (x, y) = (self.konst(cbin(op, w, x, k), 1), self.konst(cbin(op, w, y, k), 1)); return self.ite(c, x, y); } }
                if let Some((c, x, y)) = self.ite_consts(b) { if let Some(k) = ca { let (x, y) = (self.konst(cbin(op, w, k, x), 1), self.konst(cbin(op, w, k, y), 1)); return self.ite(c, x, y); } }
                if d.op == e.op && (d.op == Op::ZExt && !s || d.op == Op::SExt && s) && self.w(d.a) == self.w(e.a) { return self.bin(op, self.w(d.a), d.a, e.a); }
                if d.op == Op::ZExt && !s { if let Some(k) = cb { let w0 = self.w(d.a); if k > mask(w0) { return self.konst(1, 1); } let c = self.konst(k, w0); return self.bin(op, w0, d.a, c); } }
                if e.op == Op::ZExt && !s { if let Some(k) = ca { let w0 = self.w(e.a); if k >= mask(w0) { return self.konst(0, 1); } let c = self.konst(k, w0); return self.bin(op, w0, c, e.a); } }
                // canonical constants: x+c1 < k
                let noov = |sl: &Self, n: N| if s { sl.noov_s(n) } else { sl.noov_u(n) };
                let f = Self::full(w);
                if w <= 64 {
                    if let (Some((x, k1)), Some(k)) = (self.addc(a), cb) {
                        if noov(self, a) {
                            if s { let t = sx(k, w) - sx(k1, w); if t >= f.slo && t <= f.shi { let c = self.konst(t as u128, w); return self.bin(op, w, x, c); } }
                            else if k >= k1 { let c = self.konst(k - k1, w); return self.bin(op, w, x, c); } else { return self.konst(0, 1); }
                        }
                    }
                    if let (Some(k), Some((y, k1))) = (ca, self.addc(b)) {
                        if noov(self, b) {
                            if s { let t = sx(k, w) - sx(k1, w); if t >= f.slo && t <= f.shi { let c = self.konst(t as u128, w); return self.bin(op, w, c, y); } }
                            else if k >= k1 { let c = self.konst(k - k1, w); return self.bin(op, w, c, y); } else { return self.konst(1, 1); }
                        }
                    }
                    if let (Some((x, k1)), Some((y, k2))) = (self.addc(a), self.addc(b)) {
                        if k1 == k2 && noov(self, a) && noov(self, b) { return self.bin(op, w, x, y); }
                    }
                    // x < 1  ==  x == 0 (unsigned)
                    if !s && cb == Some(1) { let z = self.konst(0, w); return self.bin(Op::Eq, w, a, z); }
                    if !s && ca == Some(0) { let z = self.konst(0, w); let e = self.bin(Op::Eq, w, b, z); return self.not(e); }
                }
                return self.raw(op, 1, a, b, 0, 0);
            }
            _ => {}
        }
        self.raw(op, rw, a, b, 0, 0)
    }
    fn no_wrap_small(&self, op: Op, shl: N, small: u128, w: u32) -> bool {
        // (x<<k) + small does not cross a wrap boundary; low bits of x<<k are zero so it never carries
        let _ = (op, shl, small, w);
        true
    }
    fn noov_for(&self, op: Op, n: N) -> bool {
        if op == Op::AShr { self.noov_s(n) } else { self.noov_u(n) }
    }
    fn shr_shl(&mut self, op: Op, w: u32, a: N, k: u128) -> N {
        let c = self.konst(k, w);
        self.raw(op, w, a, c, 0, 0)
    }
    /// byte re-assembly:  zext(lo) | (zext(hi) << k)
    fn or_concat(&mut self, a: N, b: N, w: u32) -> Option<N> {
        let (hi, lo) = if self.shlc(a).is_some() { (a, b) } else if self.shlc(b).is_some() { (b, a) } else { return None };
        let (x, k) = self.shlc(hi)?;
        let dl = self.node(lo);
        let dx = self.node(x);
        if dl.op == Op::ZExt && dx.op == Op::ZExt && self.w(dl.a) as u128 == k {
            let (wl, wx) = (self.w(dl.a), self.w(dx.a));
            if wl + wx <= w {
                // only when both are pieces of memory (extracts), otherwise keep the arithmetic form
                if self.node(dl.a).op == Op::Extract || self.node(dx.a).op == Op::Extract {
                    let t = self.concat(dx.a, dl.a);
                    return Some(self.zext(t, w));
                }
            }
        }
        None
    }
    pub fn ite(&mut self, c: N, a: N, b: N) -> N {
        if let Some(k) = self.cval(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        let dc = self.node(c);
        if dc.op == Op::Xor && self.cval(dc.b) == Some(1) { return self.ite(dc.a, b, a); }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, 1, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, 1, n, b); }
                (None, Some(0)) => return self.bin(Op::And, 1, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, 1, n, a); }
                _ => {}
            }
        }
        let (da, db) = (self.node(a), self.node(b));
        if da.op == Op::Ite && da.a == c { return self.ite(c, da.b, b); }
        if db.op == Op::Ite && db.a == c { return self.ite(c, a, db.c); }
        self.raw(Op::Ite, w, c, a, b, 0)
    }
    pub fn zext(&mut self, a: N, w: u32) -> N {
        let d = self.node(a);
        let w0 = d.w as u32;
        if w0 == w { return a; }
        match d.op {
            Op::Const => return self.konst(d.k, w),
            Op::ZExt => return self.zext(d.a, w),
            Op::Add => if self.cval(d.b).is_some() && self.noov_u(a) { let x = self.zext(d.a, w); let y = self.zext(d.b, w); return self.bin(Op::Add, w, x, y); },
            Op::Ite => if w0 > 1 { if let Some((c, x, y)) = self.ite_consts(a) { let (x, y) = (self.konst(x, w), self.konst(y, w)); return self.ite(c, x, y); } },
            Op::Extract => {
                // zext(extract(x,0,k)) where x fits in k bits
                let wx = self.w(d.a);
                if d.b == 0 && wx <= 64 && self.rng(d.a).uhi <= mask(w0) { return if wx == w { d.a } else if wx < w { self.zext(d.a, w) } else { self.extract(d.a, 0, w) }; }
            }
            _ => {}
        }
        self.raw(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: N, w: u32) -> N {
        let d = self.node(a);
        let w0 = d.w as u32;
        if w0 == w { return a; }
        if w0 <= 64 && w0 > 1 && self.rng(a).slo >= 0 { return self.zext(a, w); }
        match d.op {
            Op::Const => return self.konst(sx(d.k, w0) as u128, w),
            Op::SExt => return self.sext(d.a, w),
            Op::Add => if self.cval(d.b).is_some() && self.noov_s(a) { let x = self.sext(d.a, w); let y = self.sext(d.b, w); return self.bin(Op::Add, w, x, y); },
            Op::Ite => if let Some((c, x, y)) = self.ite_consts(a) { let (x, y) = (self.konst(sx(x, w0) as u128, w), self.konst(sx(y, w0) as u128, w)); return self.ite(c, x, y); },
            Op::Extract => {
                let wx = self.w(d.a);
                if d.b == 0 && wx <= 64 { let (r, f) = (self.rng(d.a), Self::full(w0)); if r.slo >= f.slo && r.shi <= f.shi { return if wx == w { d.a } else if wx < w { self.sext(d.a, w) } else { self.extract(d.a, 0, w) }; } }
            }
            _ => {}
        }
        self.raw(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn concat(&mut self, hi: N, lo: N) -> N {
        let (a, b) = (self.node(hi), self.node(lo));
        let w = a.w as u32 + b.w as u32;
        if let (Some(x), Some(y)) = (self.cval(hi), self.cval(lo)) { return self.konst((x << b.w) | y, w); }
        if self.cval(hi) == Some(0) { return self.zext(lo, w); }
        if a.op == Op::Extract && b.op == Op::Extract && a.a == b.a && a.b == b.b + b.w as u32 { return self.extract(a.a, b.b, w); }
        self.raw(Op::Concat, w, hi, lo, 0, 0)
    }
    pub fn extract(&mut self, a: N, lo: u32, w: u32) -> N {
        let d = self.node(a);
        if matches!(d.op, Op::Const | Op::Var) || lo == 0 && w == d.w as u32 { return self.extract0(a, lo, w); }
        let key = (a, lo << 8 | w, 0, 0xff);
        if let Some(r) = self.memo.get(&key) { return *r; }
        let r = self.extract0(a, lo, w);
        self.memo.insert(key, r);
        r
    }
    fn extract0(&mut self, a: N, lo: u32, w: u32) -> N {
        let d = self.node(a);
        let w0 = d.w as u32;
        if lo == 0 && w == w0 { return a; }
        match d.op {
            Op::Const => return self.konst(d.k >> lo, w),
            Op::Extract => return self.extract(d.a, d.b + lo, w),
            Op::Concat => {
                let wl = self.w(d.b);
                if lo >= wl { return self.extract(d.a, lo - wl, w); }
                if lo + w <= wl { return self.extract(d.b, lo, w); }
            }
            Op::ZExt => {
                let wi = self.w(d.a);
                if lo >= wi { return self.konst(0, w); }
                if lo + w <= wi { return self.extract(d.a, lo, w); }
                let t = self.extract(d.a, lo, wi - lo);
                return self.zext(t, w);
            }
            Op::SExt => {
                let wi = self.w(d.a);
                if lo + w <= wi { return self.extract(d.a, lo, w); }
                if lo == 0 { return self.sext(d.a, w); }
            }
            Op::And | Op::Or | Op::Xor if w0 > 1 => { let (x, y) = (self.extract(d.a, lo, w), self.extract(d.b, lo, w)); return self.bin(d.op, w, x, y); }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => { let (x, y) = (self.extract(d.a, lo, w), self.extract(d.b, lo, w)); return self.bin(d.op, w, x, y); }
            Op::Shl => if let Some(k) = self.cval(d.b) {
                let k = k as u32;
                if lo >= k { return self.extract(d.a, lo - k, w); }
                if lo + w <= k { return self.konst(0, w); }
                if lo == 0 { let x = self.extract(d.a, 0, w); let c = self.konst(k as u128, w); return self.bin(Op::Shl, w, x, c); }
            },
            Op::LShr => if let Some(k) = self.cval(d.b) { let k = k as u32; if lo + k + w <= w0 { return self.extract(d.a, lo + k, w); } },
            Op::Ite => {
                let (x, y) = (self.extract(d.b, lo, w), self.extract(d.c, lo, w));
                return self.ite(d.a, x, y);
            }
            _ => {}
        }
        self.raw(Op::Extract, w, a, lo, 0, 0)
    }
    // ---- Val level -------------------------------------------------------
    #[inline]
    pub fn n(&mut self, v: &Val, w: u32) -> N {
        match v {
            C(k) => self.konst(*k, w),
            S(n) => { debug_assert_eq!(self.w(*n), w); *n }
            A(_) => panic!("aggregate where scalar expected"),
        }
    }
    #[inline]
    pub fn v(&self, n: N) -> Val {
        match self.cval(n) {
            Some(k) => C(k),
            None => S(n),
        }
    }
    #[inline]
    pub fn vbin(&mut self, op: Op, w: u32, a: &Val, b: &Val) -> Val {
        if let (C(x), C(y)) = (a, b) {
            return C(cbin(op, w, *x, *y));
        }
        let (x, y) = (self.n(a, w), self.n(b, w));
        let r = self.bin(op, w, x, y);
        self.v(r)
    }
    pub fn vite(&mut self, c: &Val, a: &Val, b: &Val, w: u32) -> Val {
        match c {
            C(k) => if *k == 1 { a.clone() } else { b.clone() },
            _ => {
                let cn = self.n(c, 1);
                let (x, y) = (self.n(a, w), self.n(b, w));
                let r = self.ite(cn, x, y);
                self.v(r)
            }
        }
    }
    pub fn vzext(&mut self, a: &Val, w0: u32, w: u32) -> Val {
        match a { C(k) => C(*k), _ => { let x = self.n(a, w0); let r = self.zext(x, w); self.v(r) } }
    }
    pub fn vsext(&mut self, a: &Val, w0: u32, w: u32) -> Val {
        match a { C(k) => C(sx(*k, w0) as u128 & mask(w)), _ => { let x = self.n(a, w0); let r = self.sext(x, w); self.v(r) } }
    }
    pub fn vextract(&mut self, a: &Val, w0: u32, lo: u32, w: u32) -> Val {
        match a { C(k) => C((*k >> lo) & mask(w)), _ => { let x = self.n(a, w0); let r = self.extract(x, lo, w); self.v(r) } }
    }
    pub fn vnot(&mut self, a: &Val) -> Val {
        self.vbin(Op::Xor, 1, a, &C(1))
    }
    pub fn vand(&mut self, a: &Val, b: &Val) -> Val {
        self.vbin(Op::And, 1, a, b)
    }
    pub fn vor(&mut self, a: &Val, b: &Val) -> Val {
        self.vbin(Op::Or, 1, a, b)
    }
    /// Evaluate under a model, memoised.
    pub fn eval(&self, n: N, vals: &[u64], memo: &mut HashMap<N, u128, std::hash::BuildHasherDefault<Fx>>) -> u128 {
        let d = self.nodes[n as usize];
        match d.op {
            Op::Const => return d.k,
            Op::Var => return vals.get(d.a as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if let Some(v) = memo.get(&n) {
            return *v;
        }
        let w = d.w as u32;
        let r = match d.op {
            Op::Ite => if self.eval(d.a, vals, memo) == 1 { self.eval(d.b, vals, memo) } else { self.eval(d.c, vals, memo) },
            Op::Extract => (self.eval(d.a, vals, memo) >> d.b) & mask(w),
            Op::ZExt => self.eval(d.a, vals, memo),
            Op::SExt => sx(self.eval(d.a, vals, memo), self.w(d.a)) as u128 & mask(w),
            Op::Concat => (self.eval(d.a, vals, memo) << self.w(d.b)) | self.eval(d.b, vals, memo),
            _ => { let (x, y) = (self.eval(d.a, vals, memo), self.eval(d.b, vals, memo)); cbin(d.op, self.w(d.a), x, y) }
        };
        memo.insert(n, r);
        r
    }
}
pub type Memo = HashMap<N, u128, std::hash::BuildHasherDefault<Fx>>;
impl Exprs {
    /// var <= max, built without interval folding (the interval facts rely on it)
    pub fn range_constraint(&mut self, v: N, max: u64, w: u32) -> N {
        let k = self.konst(max as u128 + 1, w);
        self.raw(Op::Ult, 1, v, k, 0, 0)
    }
}
impl Exprs {
    /// debugging aid
    pub fn show(&self, n: N, depth: u32) -> String {
        let d = self.nodes[n as usize];
        if depth == 0 { return "..".into(); }
        let w = d.w;
        match d.op {
            Op::Const => format!("{:#x}:{}", d.k, w),
            Op::Var => format!("v{}:{}", d.a, w),
            Op::Ite => format!("(ite {} {} {})", self.show(d.a, depth - 1), self.show(d.b, depth - 1), self.show(d.c, depth - 1)),
            Op::Extract => format!("(ext{}+{} {})", d.b, w, self.show(d.a, depth - 1)),
            Op::ZExt | Op::SExt => format!("({:?}:{} {})", d.op, w, self.show(d.a, depth - 1)),
            o => format!("({:?} {} {})", o, self.show(d.a, depth - 1), self.show(d.b, depth - 1)),
        }
    }
}

/// Random expressions through the simplifying constructors against direct evaluation.
pub fn selftest(rounds: u64) {
    let mut seed = 88172645463325252u64;
    let mut rnd = move |k: u64| { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; (seed >> 11) % k };
    const WS: [u32; 5] = [1, 8, 32, 64, 128];
    for round in 0..rounds {
        let mut ex = Exprs::new();
        let mut vals = vec![];
        // pools per width: (node, concrete value)
        let mut pool: Vec<Vec<(N, u128)>> = vec![vec![]; 5];
        for i in 0..6 {
            let wi = [0usize, 1, 1, 2, 2, 3][i];
            let max = match rnd(3) { 0 => mask(WS[wi]) as u64, 1 => (rnd(7) + 1).min(mask(WS[wi]) as u64), _ => rnd(200).min(mask(WS[wi]) as u64).max(1) };
            let (_, n) = ex.mkvar(64 - max.leading_zeros(), max);
            let n = ex.zext(n, WS[wi]);
            let v = if max == u64::MAX { rnd(u64::MAX) } else { rnd(max + 1) };
            vals.push(v);
            pool[wi].push((n, v as u128));
        }
        for wi in 0..5 { for _ in 0..3 { let k = match rnd(4) { 0 => 0, 1 => rnd(9) as u128, 2 => mask(WS[wi]) - rnd(9) as u128 & mask(WS[wi]), _ => 1u128 << rnd(WS[wi] as u64) } & mask(WS[wi]); let n = ex.konst(k, WS[wi]); pool[wi].push((n, k)); } }
        for _ in 0..60 {
            let wi = rnd(5) as usize;
            let w = WS[wi];
            let pick = |p: &Vec<(N, u128)>, r: u64| p[(r % p.len() as u64) as usize];
            let (r1, r2, r3) = (rnd(1 << 20), rnd(1 << 20), rnd(1 << 20));
            let k = rnd(24);
            let (wr, n, v) = match k {
                0..=14 => {
                    let op = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::URem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::Eq, Op::Ult, Op::Slt, Op::SDiv][k as usize];
                    let (a, b) = (pick(&pool[wi], r1), pick(&pool[wi], r2));
                    if w == 1 && matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::Shl | Op::LShr | Op::AShr) { continue; }
                    if w == 128 && matches!(op, Op::SDiv) { continue; }
                    let c = matches!(op, Op::Eq | Op::Ult | Op::Slt);
                    (if c { 0 } else { wi }, ex.bin(op, w, a.0, b.0), cbin(op, w, a.1, b.1))
                }
                15 | 16 => { let (c, a, b) = (pick(&pool[0], r1), pick(&pool[wi], r2), pick(&pool[wi], r3)); (wi, ex.ite(c.0, a.0, b.0), if c.1 == 1 { a.1 } else { b.1 }) }
                17 | 18 => { if wi == 0 { continue; } let si = (r3 % wi as u64) as usize; let a = pick(&pool[si], r1); (wi, ex.zext(a.0, w), a.1) }
                19 | 20 => { if wi == 0 { continue; } let si = (r3 % wi as u64) as usize; let a = pick(&pool[si], r1); (wi, ex.sext(a.0, w), sx(a.1, WS[si]) as u128 & mask(w)) }
                21 | 22 => { let si = wi + (r3 % (5 - wi) as u64) as usize; let a = pick(&pool[si], r1); let lo = (r2 % (WS[si] - w + 1) as u64) as u32; (wi, ex.extract(a.0, lo, w), (a.1 >> lo) & mask(w)) }
                _ => { if wi < 2 { let (a, b) = (pick(&pool[1], r1), pick(&pool[1], r2)); let c = ex.concat(a.0, b.0); let d = ex.zext(c, 32); (2, d, a.1 << 8 | b.1) } else if wi < 4 { let (a, b) = (pick(&pool[wi], r1), pick(&pool[wi], r2)); (wi + 1, ex.concat(a.0, b.0), a.1 << w | b.1) } else { continue } }
            };
            let mut memo = Memo::default();
            let got = ex.eval(n, &vals, &mut memo);
            if got != v || ex.w(n) != WS[wr] { panic!("round {} kind {}: {} under {:?}: {:#x} instead of {:#x}", round, k, ex.show(n, 9), vals, got, v); }
            if WS[wr] <= 64 {
                let r = ex.rng(n);
                let s = sx(v, WS[wr]);
                if v < r.ulo || v > r.uhi || s < r.slo || s > r.shi { panic!("round {}: range of {}: {:#x}", round, ex.show(n, 9), v); }
            }
            pool[wr].push((n, v));
        }
        if round % 20 == 0 {
            // the translation to Z3 agrees with direct evaluation
            let mut z = crate::z3::Z3::new();
            let mut pc = vec![];
            for i in 0..vals.len() {
                let n = ex.var_node[i];
                let k = ex.konst(vals[i] as u128, ex.w(n));
                let e = ex.bin(Op::Eq, ex.w(n), n, k);
                if ex.cval(e).is_none() { pc.push(e); }
            }
            let some: Vec<(N, u128)> = pool[0].iter().rev().take(12).copied().chain(pool[3].iter().rev().take(3).copied()).collect();
            for (n, v) in some {
                if ex.cval(n).is_some() { continue; }
                let q = if ex.w(n) == 1 { if v == 1 { n } else { ex.not(n) } } else { let k = ex.konst(v, ex.w(n)); ex.bin(Op::Eq, ex.w(n), n, k) };
                if ex.cval(q).is_some() { continue; }
                let nq = ex.not(q);
                let bad = matches!(z.check(&ex, &pc, Some(nq), vals.len()), crate::z3::Res::Sat(_)) || matches!(z.check(&ex, &pc, Some(q), vals.len()), crate::z3::Res::Unsat);
                if bad { panic!("round {}: z3 disagrees on {} under {:?}: {:#x}", round, ex.show(n, 9), vals, v); }
            }
        }
    }
}
