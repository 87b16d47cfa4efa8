//! Stand-in for rand: a fixed sequence (only diagram coordinates and colours use it).
use std::ops::{Range, RangeInclusive};
pub struct ThreadRng(u64);
pub mod rngs { pub use super::ThreadRng; }
pub fn thread_rng() -> ThreadRng { ThreadRng(1) }
pub trait RngCore { fn next_u64(&mut self) -> u64; }
impl RngCore for ThreadRng { fn next_u64(&mut self) -> u64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); self.0 >> 11 } }
pub trait SampleUniform: Copy { fn pick(lo: Self, hi: Self, incl: bool, r: u64) -> Self; }
macro_rules! ints { ($($t:ty)*) => { $(impl SampleUniform for $t { fn pick(lo: $t, hi: $t, incl: bool, r: u64) -> $t { let n = (hi as i128 - lo as i128) as u64 + incl as u64; lo.wrapping_add((r % n) as $t) } })* } }
ints!(i8 u8 i16 u16 i32 u32 i64 u64 isize usize);
macro_rules! floats { ($($t:ty)*) => { $(impl SampleUniform for $t { fn pick(lo: $t, hi: $t, _i: bool, r: u64) -> $t { lo + (hi - lo) * ((r % 1024) as $t / 1024.0) } })* } }
floats!(f32 f64);
pub trait SampleRange<T> { fn pick(self, r: u64) -> T; }
impl<T: SampleUniform> SampleRange<T> for Range<T> { fn pick(self, r: u64) -> T { T::pick(self.start, self.end, false, r) } }
impl<T: SampleUniform> SampleRange<T> for RangeInclusive<T> { fn pick(self, r: u64) -> T { T::pick(*self.start(), *self.end(), true, r) } }
pub trait Rng: RngCore { fn gen_range<T, R: SampleRange<T>>(&mut self, r: R) -> T { r.pick(self.next_u64()) } fn gen_bool(&mut self, _p: f64) -> bool { self.next_u64() & 1 == 1 } }
impl<T: RngCore> Rng for T {}
