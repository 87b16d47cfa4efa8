use super::constraints::ClockIndex;
/// Largest constants a clock is compared with from below and from above; `None`: never compared.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Bounds { pub(crate) lower: Vec<Option<i32>>, pub(crate) upper: Vec<Option<i32>> }
fn mx(slot: &mut Option<i32>, v: i32) { *slot = Some(match *slot { None => v, Some(o) => { if o > v { o } else { v } } }); }
impl Bounds {
    pub fn new(dim: ClockIndex) -> Self { Bounds { lower: vec![None; dim], upper: vec![None; dim] } }
    pub fn dim(&self) -> usize { self.lower.len() }
    pub fn add_lower(&mut self, clock: ClockIndex, v: i32) { mx(&mut self.lower[clock], v) }
    pub fn add_upper(&mut self, clock: ClockIndex, v: i32) { mx(&mut self.upper[clock], v) }
    pub fn get_lower(&self, clock: ClockIndex) -> Option<i32> { self.lower[clock] }
    pub fn get_upper(&self, clock: ClockIndex) -> Option<i32> { self.upper[clock] }
    pub fn add_bounds(&mut self, o: &Bounds) {
        assert_eq!(self.dim(), o.dim(), "bounds of different dimensions");
        for i in 0..o.dim() {
            if let Some(v) = o.lower[i] { self.add_lower(i, v) }
            if let Some(v) = o.upper[i] { self.add_upper(i, v) }
        }
    }
    pub fn set(&mut self, clock: ClockIndex, lower: i32, upper: i32) { self.lower[clock] = Some(lower); self.upper[clock] = Some(upper); }
    pub fn clear(&mut self, clock: ClockIndex) { self.lower[clock] = None; self.upper[clock] = None; }
    /// Classical maximal constant of a clock.
    pub(crate) fn max_of(&self, i: usize) -> Option<i32> {
        match (self.lower[i], self.upper[i]) { (None, x) => x, (x, None) => x, (Some(a), Some(b)) => Some(if a > b { a } else { b }) }
    }
}
