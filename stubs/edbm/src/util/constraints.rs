use std::fmt;
pub type ClockIndex = usize;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Inequality { LS(i32), LE(i32) }
use Inequality::*;

/// bound*2 + (1 if non-strict); INF is a value of its own.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct RawInequality(pub(crate) i32);
pub const INF: i32 = i32::MAX;
pub const LE_ZERO: i32 = 1;
impl RawInequality {
    pub const LE_ZERO: RawInequality = RawInequality(LE_ZERO);
    pub const INFINITY: RawInequality = RawInequality(INF);
    pub fn from_inequality(i: &Inequality) -> Self { RawInequality(match *i { LS(b) => b.wrapping_mul(2), LE(b) => b.wrapping_mul(2) | 1 }) }
    pub fn is_inf(&self) -> bool { self.0 == INF }
    pub fn is_strict(&self) -> bool { self.0 & 1 == 0 }
    pub fn bound(&self) -> i32 { self.0 >> 1 }
    pub fn raw(&self) -> i32 { self.0 }
}
impl From<Inequality> for RawInequality { fn from(i: Inequality) -> Self { RawInequality::from_inequality(&i) } }
impl From<&Inequality> for RawInequality { fn from(i: &Inequality) -> Self { RawInequality::from_inequality(i) } }
impl From<RawInequality> for Inequality { fn from(r: RawInequality) -> Self { if r.is_strict() { LS(r.bound()) } else { LE(r.bound()) } } }
impl fmt::Debug for RawInequality { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { if self.is_inf() { f.write_str("INF") } else if self.is_strict() { write!(f, "<{}", self.bound()) } else { write!(f, "<={}", self.bound()) } } }
impl fmt::Display for RawInequality { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self, f) } }

/// x_i - x_j `ineq`
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Constraint { pub i: ClockIndex, pub j: ClockIndex, ineq: RawInequality }
impl Constraint {
    pub fn new(i: ClockIndex, j: ClockIndex, ineq: RawInequality) -> Self { Constraint { i, j, ineq } }
    pub fn ineq(&self) -> RawInequality { self.ineq }
}
impl fmt::Display for Constraint { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "x{}-x{}{}", self.i, self.j, self.ineq) } }

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Conjunction { pub constraints: Vec<Constraint> }
impl Conjunction {
    pub fn new(constraints: Vec<Constraint>) -> Self { Conjunction { constraints } }
    pub fn iter(&self) -> std::slice::Iter<'_, Constraint> { self.constraints.iter() }
    pub fn len(&self) -> usize { self.constraints.len() }
    pub fn is_empty(&self) -> bool { self.constraints.is_empty() }
}
impl IntoIterator for Conjunction { type Item = Constraint; type IntoIter = std::vec::IntoIter<Constraint>; fn into_iter(self) -> Self::IntoIter { self.constraints.into_iter() } }
impl<'a> IntoIterator for &'a Conjunction { type Item = &'a Constraint; type IntoIter = std::slice::Iter<'a, Constraint>; fn into_iter(self) -> Self::IntoIter { self.constraints.iter() } }

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Disjunction { pub conjunctions: Vec<Conjunction> }
impl Disjunction {
    pub fn new(conjunctions: Vec<Conjunction>) -> Self { Disjunction { conjunctions } }
    pub fn iter(&self) -> std::slice::Iter<'_, Conjunction> { self.conjunctions.iter() }
    pub fn len(&self) -> usize { self.conjunctions.len() }
    pub fn is_empty(&self) -> bool { self.conjunctions.is_empty() }
}
impl IntoIterator for Disjunction { type Item = Conjunction; type IntoIter = std::vec::IntoIter<Conjunction>; fn into_iter(self) -> Self::IntoIter { self.conjunctions.into_iter() } }
impl<'a> IntoIterator for &'a Disjunction { type Item = &'a Conjunction; type IntoIter = std::slice::Iter<'a, Conjunction>; fn into_iter(self) -> Self::IntoIter { self.conjunctions.iter() } }
