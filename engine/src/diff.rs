//! A cheap sound entailment test in front of the solver: the path condition's difference
//! constraints in a closed difference bound matrix. It only ever answers "implied"; everything
//! else, and every assertion, goes to Z3.
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;
const INF: i64 = i64::MAX / 4;
/// k + sum of coef*var; congruent to the node's value modulo 2^w
#[derive(Clone, Debug)]
pub struct Lin { pub k: i128, pub t: Vec<(u32, i128)> }
#[derive(Default)]
pub struct Lins { cache: HashMap<N, Option<Rc<Lin>>> }
fn wrap(x: i128, w: u32) -> i128 { sx(x as u128 & mask(w), w) }
impl Lin {
    fn add(&self, o: &Lin, sign: i128, w: u32) -> Lin {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            let (v, c);
            if j >= o.t.len() || i < self.t.len() && self.t[i].0 < o.t[j].0 { v = self.t[i].0; c = self.t[i].1; i += 1; }
            else if i >= self.t.len() || o.t[j].0 < self.t[i].0 { v = o.t[j].0; c = o.t[j].1 * sign; j += 1; }
            else { v = self.t[i].0; c = self.t[i].1 + sign * o.t[j].1; i += 1; j += 1; }
            let c = wrap(c, w);
            if c != 0 { t.push((v, c)); }
        }
        Lin { k: wrap(self.k + sign * o.k, w), t }
    }
    fn scale(&self, f: i128, w: u32) -> Option<Lin> {
        let mut t = vec![];
        for &(v, c) in &self.t { let c = wrap(c.checked_mul(f)?, w); if c != 0 { t.push((v, c)); } }
        Some(Lin { k: wrap(self.k.checked_mul(f)?, w), t })
    }
    pub fn range(&self, ex: &Exprs) -> (i128, i128) {
        let (mut lo, mut hi) = (self.k, self.k);
        for &(v, c) in &self.t { let m = ex.var_max[v as usize] as i128; if c > 0 { hi += c * m } else { lo += c * m } }
        (lo, hi)
    }
    /// the same value as an exact integer in the given interpretation
    fn exact(&self, ex: &Exprs, w: u32, signed: bool) -> Option<Lin> {
        let (lo, hi) = self.range(ex);
        let (a, b) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, (1i128 << w) - 1) };
        let m = 1i128 << w;
        let s = if lo < a { (a - lo + m - 1) / m * m } else if hi > b { -((hi - b + m - 1) / m * m) } else { 0 };
        if lo + s >= a && hi + s <= b { Some(Lin { k: self.k + s, t: self.t.clone() }) } else { None }
    }
    fn reduce(&self, w: u32) -> Lin { Lin { k: wrap(self.k, w), t: self.t.iter().map(|&(v, c)| (v, wrap(c, w))).filter(|x| x.1 != 0).collect() } }
}
impl Lins {
    pub fn lin(&mut self, ex: &Exprs, n: N) -> Option<Rc<Lin>> {
        if let Some(r) = self.cache.get(&n) { return r.clone(); }
        let r = self.lin0(ex, n).filter(|l| l.t.len() <= 6).map(Rc::new);
        self.cache.insert(n, r.clone());
        r
    }
    fn lin0(&mut self, ex: &Exprs, n: N) -> Option<Lin> {
        let d = ex.node(n);
        let w = d.w as u32;
        if w > 64 { return None; }
        match d.op {
            Op::Const => Some(Lin { k: wrap(d.k as i128, w), t: vec![] }),
            Op::Var => if ex.var_max[d.a as usize] < 1 << 40 { Some(Lin { k: 0, t: vec![(d.a, 1)] }).map(|l| l.reduce(w.max(2))) } else { None },
            _ if w == 1 => None,
            Op::Add => { let a = self.lin(ex, d.a)?; let b = self.lin(ex, d.b)?; Some(a.add(&b, 1, w)) }
            Op::Sub => { let a = self.lin(ex, d.a)?; let b = self.lin(ex, d.b)?; Some(a.add(&b, -1, w)) }
            Op::Mul => { let k = ex.cval(d.b)?; self.lin(ex, d.a)?.scale(wrap(k as i128, w), w) }
            Op::Shl => { let k = ex.cval(d.b)?; if k >= 40 { return None; } self.lin(ex, d.a)?.scale(1 << k, w) }
            Op::ZExt | Op::SExt => {
                let w0 = ex.node(d.a).w as u32;
                if w0 == 1 { if let Op::Var = ex.node(d.a).op { return if d.op == Op::ZExt { Some(Lin { k: 0, t: vec![(ex.node(d.a).a, 1)] }) } else { None }; } return None; }
                self.lin(ex, d.a)?.exact(ex, w0, d.op == Op::SExt).map(|l| l.reduce(w))
            }
            Op::Extract if d.b == 0 => Some(self.lin(ex, d.a)?.reduce(w)),
            Op::Or | Op::And | Op::LShr | Op::AShr => {
                let k = ex.cval(d.b)?;
                let a = self.lin(ex, d.a)?;
                let tz = a.t.iter().map(|x| x.1.trailing_zeros()).min().unwrap_or(127).min(60);
                match d.op {
                    Op::Or => { if k >> tz != 0 || tz == 0 { return None; } let low = a.k & ((1 << tz) - 1); Some(Lin { k: wrap(a.k - low + (low | k as i128), w), t: a.t.clone() }) }
                    Op::And => {
                        // keeps or clears low bits only
                        let low = (1u128 << tz) - 1;
                        let lowbits = a.k & low as i128;
                        if k | low == mask(w) { Some(Lin { k: wrap(a.k - lowbits + (lowbits & k as i128), w), t: a.t.clone() }) }
                        else if k & !low == 0 { Some(Lin { k: lowbits & k as i128, t: vec![] }) }
                        else { None }
                    }
                    _ => {
                        if k > tz as u128 { return None; }
                        let e = a.exact(ex, w, d.op == Op::AShr)?;
                        Some(Lin { k: e.k >> k, t: e.t.iter().map(|&(v, c)| (v, c >> k)).collect() })
                    }
                }
            }
            _ => None,
        }
    }
    /// a - b as exact integers
    pub fn cmp(&mut self, ex: &Exprs, a: N, b: N, signed: bool) -> Option<Lin> {
        let w = ex.node(a).w as u32;
        if w < 2 || w > 64 { return None; }
        let x = self.lin(ex, a)?.exact(ex, w, signed)?;
        let y = self.lin(ex, b)?.exact(ex, w, signed)?;
        Some(x.add(&y, -1, 100))
    }
}
/// closed difference bounds: m[i][j] bounds x_i - x_j; index 0 is the constant 0, i is variable i-1
#[derive(Clone, Default)]
pub struct Diff { n: usize, m: Vec<i64> }
impl Diff {
    fn grow(&mut self, ex: &Exprs, v: u32) {
        let need = v as usize + 2;
        if need <= self.n { return; }
        let mut m = vec![INF; need * need];
        for i in 0..need { m[i * need + i] = 0; }
        for i in 0..self.n { for j in 0..self.n { m[i * need + j] = self.m[i * self.n + j]; } }
        for i in self.n.max(1)..need { m[i * need] = ex.var_max[i - 1].min(INF as u64 / 2) as i64; m[i] = 0; }
        let old = self.n.max(1);
        // new variables are unrelated: only bounds through 0
        for i in 1..need { for j in 1..need { if i != j && (i >= old || j >= old) { m[i * need + j] = m[i * need] + m[j]; } } }
        self.n = need;
        self.m = m;
    }
    #[inline] fn g(&self, i: usize, j: usize) -> i64 { self.m[i * self.n + j] }
    fn bound(&self, ex: &Exprs, i: usize, j: usize) -> i128 {
        // variables not yet mentioned have their declared range
        let up = |v: usize| if v < self.n { self.g(v, 0) as i128 } else { ex.var_max[v - 1] as i128 };
        let lo = |v: usize| if v < self.n { -self.g(0, v) as i128 } else { 0 };
        if i == 0 && j == 0 { return 0; }
        if j == 0 { return up(i); }
        if i == 0 { return -lo(j); }
        if i < self.n && j < self.n { self.g(i, j) as i128 } else { up(i) - lo(j) }
    }
    fn max(&self, ex: &Exprs, l: &Lin) -> i128 {
        let mut r = l.k;
        let mut pos: Vec<(usize, i128)> = vec![];
        let mut neg: Vec<(usize, i128)> = vec![];
        for &(v, c) in &l.t { if c > 0 { pos.push((v as usize + 1, c)) } else { neg.push((v as usize + 1, -c)) } }
        // pair positive and negative terms
        let mut i = 0;
        while i < pos.len() {
            let mut j = 0;
            while j < neg.len() && pos[i].1 > 0 {
                let c = pos[i].1.min(neg[j].1);
                if c > 0 {
                    r += c * self.bound(ex, pos[i].0, neg[j].0);
                    pos[i].1 -= c; neg[j].1 -= c;
                }
                j += 1;
            }
            i += 1;
        }
        for (v, c) in pos { if c > 0 { r += c * self.bound(ex, v, 0); } }
        for (v, c) in neg { if c > 0 { r += c * self.bound(ex, 0, v); } }
        r
    }
    fn min(&self, ex: &Exprs, l: &Lin) -> i128 { -self.max(ex, &Lin { k: -l.k, t: l.t.iter().map(|&(v, c)| (v, -c)).collect() }) }
    pub fn entails(&self, ex: &Exprs, ls: &mut Lins, n: N, depth: u32) -> Option<bool> {
        let d = ex.node(n);
        if d.w != 1 || depth == 0 { return None; }
        match d.op {
            Op::Const => Some(d.k == 1),
            Op::Var => { let (lo, hi) = (-self.bound(ex, 0, d.a as usize + 1), self.bound(ex, d.a as usize + 1, 0)); if lo == 1 { Some(true) } else if hi == 0 { Some(false) } else { None } }
            Op::Xor if ex.cval(d.b) == Some(1) => self.entails(ex, ls, d.a, depth).map(|x| !x),
            Op::And => match (self.entails(ex, ls, d.a, depth - 1), self.entails(ex, ls, d.b, depth - 1)) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None },
            Op::Or => match (self.entails(ex, ls, d.a, depth - 1), self.entails(ex, ls, d.b, depth - 1)) { (Some(true), _) | (_, Some(true)) => Some(true), (Some(false), Some(false)) => Some(false), _ => None },
            Op::Slt | Op::Ult => { let l = ls.cmp(ex, d.a, d.b, d.op == Op::Slt)?; if self.max(ex, &l) <= -1 { Some(true) } else if self.min(ex, &l) >= 0 { Some(false) } else { None } }
            Op::Eq => { let l = ls.cmp(ex, d.a, d.b, true).or_else(|| ls.cmp(ex, d.a, d.b, false))?; let (hi, lo) = (self.max(ex, &l), self.min(ex, &l)); if hi < 0 || lo > 0 { Some(false) } else if hi == 0 && lo == 0 { Some(true) } else { None } }
            _ => None,
        }
    }
    fn put(&mut self, i: usize, j: usize, v: i128) {
        if v >= self.g(i, j) as i128 { return; }
        let v = v.max(-(INF as i128)) as i64;
        let n = self.n;
        self.m[i * n + j] = v;
        for p in 0..n {
            let a = self.m[p * n + i];
            if a >= INF { continue; }
            for q in 0..n {
                let b = self.m[j * n + q];
                if b < INF && a + v + b < self.m[p * n + q] { self.m[p * n + q] = a + v + b; }
            }
        }
    }
    /// l <= 0 holds
    fn le0(&mut self, ex: &Exprs, l: &Lin) {
        for &(v, _) in &l.t { self.grow(ex, v); }
        if l.t.len() == 2 && l.t[0].1 == -l.t[1].1 {
            let (p, q) = if l.t[0].1 > 0 { (l.t[0], l.t[1]) } else { (l.t[1], l.t[0]) };
            self.put(p.0 as usize + 1, q.0 as usize + 1, (-l.k).div_euclid(p.1));
            return;
        }
        for x in 0..l.t.len() {
            let (v, c) = l.t[x];
            let rest = Lin { k: l.k, t: l.t.iter().enumerate().filter(|(y, _)| *y != x).map(|z| *z.1).collect() };
            let m = self.min(ex, &rest);
            if c > 0 { self.put(v as usize + 1, 0, (-m).div_euclid(c)); } else { self.put(0, v as usize + 1, (-m).div_euclid(-c)); }
        }
    }
    pub fn learn(&mut self, ex: &Exprs, ls: &mut Lins, n: N, val: bool) {
        let d = ex.node(n);
        if d.w != 1 { return; }
        match d.op {
            Op::Var => { self.grow(ex, d.a); if val { self.put(0, d.a as usize + 1, -1) } else { self.put(d.a as usize + 1, 0, 0) } }
            Op::Xor if ex.cval(d.b) == Some(1) => self.learn(ex, ls, d.a, !val),
            Op::And if val => { self.learn(ex, ls, d.a, true); self.learn(ex, ls, d.b, true); }
            Op::Or if !val => { self.learn(ex, ls, d.a, false); self.learn(ex, ls, d.b, false); }
            Op::Slt | Op::Ult => if let Some(l) = ls.cmp(ex, d.a, d.b, d.op == Op::Slt) {
                if val { self.le0(ex, &Lin { k: l.k + 1, t: l.t }) } else { self.le0(ex, &Lin { k: -l.k, t: l.t.iter().map(|&(v, c)| (v, -c)).collect() }) }
            },
            Op::Eq => if let Some(l) = ls.cmp(ex, d.a, d.b, true).or_else(|| ls.cmp(ex, d.a, d.b, false)) {
                let neg = Lin { k: -l.k, t: l.t.iter().map(|&(v, c)| (v, -c)).collect() };
                if val { self.le0(ex, &l); self.le0(ex, &neg); }
                else if self.max(ex, &l) == 0 { self.le0(ex, &Lin { k: l.k + 1, t: l.t }) }
                else if self.min(ex, &l) == 0 { self.le0(ex, &Lin { k: neg.k + 1, t: neg.t }) }
            },
            _ => {}
        }
    }
}
