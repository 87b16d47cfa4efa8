use crate::util::bounds::Bounds;
use crate::util::constraints::*;
use std::fmt;

#[inline(always)] fn sel(c: bool, a: i32, b: i32) -> i32 { if c { a } else { b } }
// kept out of line: merged into their callers they would be evaluated on infinite bounds too
#[inline(never)] fn mn(a: i32, b: i32) -> i32 { sel(a < b, a, b) }
#[inline(never)] fn add(a: i32, b: i32) -> i32 { let s = a.wrapping_add(b).wrapping_sub((a | b) & 1); sel((a == INF) | (b == INF), INF, s) }
#[inline(always)] fn neg(a: i32) -> i32 { 1i32.wrapping_sub(a) }

/// True when `b` is known to hold without asking the solver (in a replay: never known).
#[cfg(feature = "vp")]
#[inline(always)]
fn surely(b: bool) -> bool {
    extern "C" { fn vp_surely(b: bool) -> bool; }
    unsafe { vp_surely(b) }
}
#[cfg(not(feature = "vp"))]
#[inline(always)]
fn surely(b: bool) -> bool { b }
/// Adds a zone unless one that plainly contains it is there; zones it plainly contains go.
fn put(zones: &mut Vec<Dbm>, d: Dbm) {
    if zones.iter().any(|z| d.surely_within(z)) { return; }
    zones.retain(|z| !z.surely_within(&d));
    zones.push(d);
}

/// A closed, non-empty difference bound matrix.
#[derive(Clone, PartialEq, Eq)]
pub struct Dbm { n: usize, m: Vec<i32> }
impl Dbm {
    #[inline(always)] fn g(&self, i: usize, j: usize) -> i32 { self.m[i * self.n + j] }
    #[inline(always)] fn s(&mut self, i: usize, j: usize, v: i32) { self.m[i * self.n + j] = v }
    fn universe(n: usize) -> Dbm { let mut d = Dbm { n, m: vec![INF; n * n] }; for i in 0..n { d.s(i, i, LE_ZERO); d.s(0, i, LE_ZERO); } d }
    fn init(n: usize) -> Dbm { let mut d = Dbm { n, m: vec![LE_ZERO; n * n] }; for i in 1..n { d.s(i, 0, INF); } d }
    fn zero(n: usize) -> Dbm { Dbm { n, m: vec![LE_ZERO; n * n] } }
    /// false: empty
    fn close(&mut self) -> bool {
        for k in 0..self.n { for i in 0..self.n { for j in 0..self.n {
            if i == k || k == j { continue; }
            let t = mn(self.g(i, j), add(self.g(i, k), self.g(k, j)));
            if i == j && t < LE_ZERO { return false; }
            self.s(i, j, t);
        } } }
        true
    }
    /// Intersect with x_i - x_j <= raw; false: empty afterwards.
    fn constrain(&mut self, i: usize, j: usize, raw: i32) -> bool {
        if i == j { return raw >= LE_ZERO; }
        if raw == INF { return true; }
        if add(raw, self.g(j, i)) < LE_ZERO { return false; }
        for p in 0..self.n { for q in 0..self.n {
            let t = mn(self.g(p, q), add(add(self.g(p, i), raw), self.g(j, q)));
            self.s(p, q, t);
        } }
        true
    }
    fn intersect(&self, o: &Dbm) -> Option<Dbm> {
        let mut d = Dbm { n: self.n, m: self.m.iter().zip(&o.m).map(|(a, b)| mn(*a, *b)).collect() };
        if d.close() { Some(d) } else { None }
    }
    fn subset_of(&self, o: &Dbm) -> bool { let mut ok = true; for k in 0..self.m.len() { ok &= self.m[k] <= o.m[k]; } ok }
    #[inline(never)]
    fn surely_within(&self, o: &Dbm) -> bool { (0..self.m.len()).all(|k| surely(self.m[k] <= o.m[k])) }
    fn subtract(&self, o: &Dbm, out: &mut Vec<Dbm>) {
        let mut a = self.clone();
        for i in 0..a.n { for j in 0..a.n {
            let c = o.g(i, j);
            if i == j || c == INF { continue; }
            if a.g(i, j) > c {
                let mut p = a.clone();
                if p.constrain(j, i, neg(c)) { put(out, p); }
                if !a.constrain(i, j, c) { return; }
            }
        } }
    }
    fn up(&mut self) { for i in 1..self.n { self.s(i, 0, INF) } }
    fn down(&mut self) { for i in 1..self.n { let mut v = LE_ZERO; for j in 1..self.n { v = mn(v, self.g(j, i)); } self.s(0, i, v); } }
    fn free(&mut self, k: usize) { for i in 0..self.n { if i != k { self.s(k, i, INF); let v = self.g(i, 0); self.s(i, k, v); } } self.s(0, k, LE_ZERO); }
    fn assign(&mut self, k: usize, v: i32) {
        let (hi, lo) = (v.wrapping_mul(2) | 1, v.wrapping_neg().wrapping_mul(2) | 1);
        for i in 0..self.n { if i != k { let (a, b) = (add(hi, self.g(0, i)), add(self.g(i, 0), lo)); self.s(k, i, a); self.s(i, k, b); } }
    }
    fn unbounded(&self) -> bool { let mut ok = true; for i in 1..self.n { ok &= self.g(i, 0) == INF; } ok }
    fn extrapolate(&mut self, b: &Bounds) {
        let n = self.n;
        for k in 1..n { if b.max_of(k).is_none() { self.free(k); } }
        let max: Vec<i32> = (0..n).map(|i| if i == 0 { 0 } else { b.max_of(i).unwrap_or(0) }).collect();
        let known: Vec<bool> = (0..n).map(|i| i == 0 || b.max_of(i).is_some()).collect();
        let old = self.m.clone();
        for i in 0..n { for j in 0..n { if i != j && known[i] && known[j] {
            let r = old[i * n + j];
            let floor = max[j].wrapping_neg().wrapping_mul(2);
            let lowered = sel(r < floor, floor, r);
            let v = if i == 0 { lowered } else { sel((r != INF) & (r > (max[i].wrapping_mul(2) | 1)), INF, lowered) };
            self.s(i, j, v);
        } } }
        // x_0 - x_j can never exceed <= 0
        for j in 1..n { let v = mn(self.g(0, j), LE_ZERO); self.s(0, j, v); }
        self.close();
    }
    fn minimal(&self) -> Conjunction {
        let n = self.n;
        // classes of clocks at a fixed distance from each other
        let mut class: Vec<usize> = (0..n).collect();
        for i in 0..n { if class[i] == i { for j in i + 1..n { if class[j] == j && add(self.g(i, j), self.g(j, i)) == LE_ZERO { class[j] = i; } } } }
        let mut out = vec![];
        for r in 0..n { if class[r] != r { continue; }
            let mem: Vec<usize> = (0..n).filter(|&x| class[x] == r).collect();
            if mem.len() > 1 { for t in 0..mem.len() { self.emit(mem[t], mem[(t + 1) % mem.len()], &mut out); } }
        }
        for i in 0..n { for j in 0..n {
            if i == j || class[i] != i || class[j] != j || self.g(i, j) == INF { continue; }
            let mut redundant = false;
            for k in 0..n { if class[k] == k && k != i && k != j { redundant |= add(self.g(i, k), self.g(k, j)) <= self.g(i, j); } }
            if !redundant { self.emit(i, j, &mut out); }
        } }
        Conjunction::new(out)
    }
    fn emit(&self, i: usize, j: usize, out: &mut Vec<Constraint>) {
        let c = self.g(i, j);
        if c == INF || (i == 0 && c == LE_ZERO) { return; }
        out.push(Constraint::new(i, j, RawInequality(c)));
    }
    fn holds_at(&self, v: &[i64], scale: i64) -> bool {
        let mut ok = true;
        for i in 0..self.n { for j in 0..self.n { if i != j {
            let c = self.g(i, j);
            let d = v[i].wrapping_sub(v[j]);
            let b = ((c >> 1) as i64).wrapping_mul(scale);
            ok &= (c == INF) | (d < b) | ((d == b) & (c & 1 == 1));
        } } }
        ok
    }
}
impl fmt::Debug for Dbm { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { for i in 0..self.n { for j in 0..self.n { write!(f, "{} ", RawInequality(self.g(i, j)))?; } writeln!(f)?; } Ok(()) } }

/// A finite union of zones.
#[derive(Clone)]
pub struct OwnedFederation { dim: usize, dbms: Vec<Dbm> }
impl OwnedFederation {
    fn of(dim: usize, dbms: Vec<Dbm>) -> Self { OwnedFederation { dim, dbms } }
    pub fn universe(dim: ClockIndex) -> Self { Self::of(dim, vec![Dbm::universe(dim)]) }
    pub fn empty(dim: ClockIndex) -> Self { Self::of(dim, vec![]) }
    /// All clocks equal: the origin, delayed.
    pub fn init(dim: ClockIndex) -> Self { Self::of(dim, vec![Dbm::init(dim)]) }
    pub fn zero(dim: ClockIndex) -> Self { Self::of(dim, vec![Dbm::zero(dim)]) }
    pub fn dim(&self) -> usize { self.dim }
    pub fn len(&self) -> usize { self.dbms.len() }
    pub fn is_empty(&self) -> bool { self.dbms.is_empty() }
    pub fn set_empty(mut self) -> Self { self.dbms.clear(); self }
    pub fn constrain_raw(self, i: ClockIndex, j: ClockIndex, raw: i32) -> Self {
        assert!(i < self.dim && j < self.dim, "clock out of range");
        Self::of(self.dim, self.dbms.into_iter().filter_map(|mut d| if d.constrain(i, j, raw) { Some(d) } else { None }).collect())
    }
    pub fn constrain(self, i: ClockIndex, j: ClockIndex, ineq: Inequality) -> Self { self.constrain_raw(i, j, RawInequality::from_inequality(&ineq).0) }
    pub fn constrain_eq(self, i: ClockIndex, v: i32) -> Self { self.constrain(i, 0, Inequality::LE(v)).constrain(0, i, Inequality::LE(v.wrapping_neg())) }
    pub fn constrain_many(self, cs: Vec<Constraint>) -> Self { cs.into_iter().fold(self, |f, c| f.constrain_raw(c.i, c.j, c.ineq().0)) }
    fn map(mut self, mut f: impl FnMut(&mut Dbm)) -> Self { for d in &mut self.dbms { f(d) } self }
    pub fn up(self) -> Self { self.map(|d| d.up()) }
    pub fn down(self) -> Self { self.map(|d| d.down()) }
    pub fn free_clock(self, k: ClockIndex) -> Self { assert!(k > 0 && k < self.dim, "clock out of range"); self.map(|d| d.free(k)) }
    pub fn update_clock_val(self, k: ClockIndex, v: i32) -> Self { assert!(k > 0 && k < self.dim, "clock out of range"); self.map(|d| d.assign(k, v)) }
    pub fn extrapolate_max_bounds(self, b: &Bounds) -> Self { assert_eq!(self.dim, b.dim(), "bounds of another dimension"); self.map(|d| d.extrapolate(b)) }
    pub fn intersection(self, o: &Self) -> Self {
        assert_eq!(self.dim, o.dim, "federations of different dimensions");
        let mut r = vec![]; for a in &self.dbms { for b in &o.dbms { if let Some(d) = a.intersect(b) { put(&mut r, d) } } }
        Self::of(self.dim, r)
    }
    pub fn has_intersection(&self, o: &Self) -> bool {
        assert_eq!(self.dim, o.dim, "federations of different dimensions");
        for a in &self.dbms { for b in &o.dbms { if a.intersect(b).is_some() { return true; } } } false
    }
    pub fn union(mut self, o: &Self) -> Self { assert_eq!(self.dim, o.dim, "federations of different dimensions"); for d in &o.dbms { put(&mut self.dbms, d.clone()) } self }
    pub fn subtraction(self, o: &Self) -> Self {
        assert_eq!(self.dim, o.dim, "federations of different dimensions");
        let mut cur = self.dbms;
        for b in &o.dbms { let mut next = vec![]; for a in &cur { a.subtract(b, &mut next); } cur = next; if cur.is_empty() { break; } }
        Self::of(self.dim, cur)
    }
    pub fn inverse(self) -> Self { Self::universe(self.dim).subtraction(&self) }
    pub fn subset_eq(&self, o: &Self) -> bool {
        assert_eq!(self.dim, o.dim, "federations of different dimensions");
        if self.dbms.is_empty() { return true; }
        if o.dbms.is_empty() { return false; }
        if o.dbms.len() == 1 { let mut ok = true; for a in &self.dbms { ok &= a.subset_of(&o.dbms[0]); } return ok; }
        self.clone().subtraction(o).is_empty()
    }
    pub fn equals(&self, o: &Self) -> bool { self.subset_eq(o) && o.subset_eq(self) }
    pub fn is_universe(&self) -> bool { Self::universe(self.dim).subset_eq(self) }
    pub fn can_delay_indefinitely(&self) -> bool { self.dbms.iter().any(|d| d.unbounded()) }
    pub fn expensive_reduce(self) -> Self {
        let mut keep: Vec<Dbm> = vec![];
        for d in self.dbms { if keep.iter().any(|k| d.subset_of(k)) { continue; } keep.retain(|k| !k.subset_of(&d)); keep.push(d); }
        Self::of(self.dim, keep)
    }
    pub fn reduce(self) -> Self { self.expensive_reduce() }
    /// The valuations of `self` and those that reach `self` by delay without meeting `avoid` on the way.
    pub fn predt(&self, avoid: &Self) -> Self {
        assert_eq!(self.dim, avoid.dim, "federations of different dimensions");
        let mut res = Self::empty(self.dim);
        for g in &self.dbms {
            let g = Self::of(self.dim, vec![g.clone()]);
            let mut acc = g.clone().down();
            for b in &avoid.dbms {
                let b = Self::of(self.dim, vec![b.clone()]);
                let bd = b.clone().down();
                let one = g.clone().down().subtraction(&bd).union(&g.clone().intersection(&bd).subtraction(&b).down()).subtraction(&b);
                acc = acc.intersection(&one);
            }
            res = res.union(&acc);
        }
        res
    }
    pub fn get_bounds(&self) -> Bounds {
        let mut b = Bounds::new(self.dim);
        for d in &self.dbms { for i in 0..self.dim { for j in 0..self.dim {
            let c = d.g(i, j); if i == j || c == INF { continue; }
            let v = c >> 1; let v = sel(v < 0, v.wrapping_neg(), v);
            if i > 0 { b.add_upper(i, v) }
            if j > 0 { b.add_lower(j, v) }
        } } }
        b
    }
    pub fn minimal_constraints(&self) -> Disjunction { Disjunction::new(self.dbms.iter().map(|d| d.minimal()).collect()) }
    pub fn from_disjunction(d: &Disjunction, dim: ClockIndex) -> Self {
        let mut r = Self::empty(dim);
        for c in &d.conjunctions { let mut f = Self::universe(dim); for k in &c.constraints { f = f.constrain_raw(k.i, k.j, k.ineq().0); } r = r.union(&f); }
        r
    }
    /// Membership of the valuation v[i]/scale (v[0] must be 0). No branches.
    #[doc(hidden)] pub fn holds_at(&self, v: &[i64], scale: i64) -> bool { let mut r = false; for d in &self.dbms { r |= d.holds_at(v, scale); } r }
}
impl std::ops::Add for OwnedFederation { type Output = Self; fn add(self, o: Self) -> Self { self.union(&o) } }
impl std::ops::Add<&OwnedFederation> for OwnedFederation { type Output = Self; fn add(self, o: &Self) -> Self { self.union(o) } }
impl std::ops::AddAssign for OwnedFederation { fn add_assign(&mut self, o: Self) { assert_eq!(self.dim, o.dim, "federations of different dimensions"); for d in o.dbms { put(&mut self.dbms, d) } } }
impl std::ops::AddAssign<&OwnedFederation> for OwnedFederation { fn add_assign(&mut self, o: &Self) { assert_eq!(self.dim, o.dim, "federations of different dimensions"); for d in &o.dbms { put(&mut self.dbms, d.clone()) } } }
impl std::ops::Sub for OwnedFederation { type Output = Self; fn sub(self, o: Self) -> Self { self.subtraction(&o) } }
impl std::ops::Sub<&OwnedFederation> for OwnedFederation { type Output = Self; fn sub(self, o: &Self) -> Self { self.subtraction(o) } }
impl std::ops::BitAnd for OwnedFederation { type Output = Self; fn bitand(self, o: Self) -> Self { self.intersection(&o) } }
impl std::ops::BitAnd<&OwnedFederation> for OwnedFederation { type Output = Self; fn bitand(self, o: &Self) -> Self { self.intersection(o) } }
impl std::ops::BitOr for OwnedFederation { type Output = Self; fn bitor(self, o: Self) -> Self { self.union(&o) } }
impl std::ops::Not for OwnedFederation { type Output = Self; fn not(self) -> Self { self.inverse() } }
impl fmt::Display for OwnedFederation { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    if self.dbms.is_empty() { return f.write_str("false"); }
    for (a, d) in self.dbms.iter().enumerate() { if a > 0 { f.write_str(" || ")?; } let c = d.minimal(); if c.constraints.is_empty() { f.write_str("true")?; } for (b, k) in c.constraints.iter().enumerate() { if b > 0 { f.write_str(" && ")?; } write!(f, "{k}")?; } }
    Ok(()) } }
impl fmt::Debug for OwnedFederation { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self, f) } }
