//! Expression trees with symbolic constants and what they mean (reference evaluation).
#![allow(dead_code)]
use crate::common::*;
use crate::vp::*;
use crate::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B};

/// Variable values; constants are drawn in order so that every path shares the same symbols.
pub struct Env { pub x: i32, pub y: i32, lo: i32, hi: i32, k: usize }
const NAMES: [&str; 8] = ["c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7"];
impl Env {
    pub fn new(lo: i32, hi: i32) -> Env {
        Env { x: int("x", 0, 20), y: int("y", 0, 20), lo, hi, k: 0 }
    }
    pub fn c(&mut self) -> i32 {
        self.k += 1;
        int(NAMES[self.k - 1], self.lo, self.hi)
    }
    pub fn konst(&mut self) -> Box<A> { let c = self.c(); n(c) }
}
/// The value of an expression over constants, x and y; None where a divisor is zero or
/// another name occurs.
pub fn value(e: &A, env: &Env) -> Option<i32> {
    Some(match e {
        A::Int(i) => *i,
        A::VarName(s) => if s == "x" { env.x } else if s == "y" { env.y } else { return None },
        A::Clock(_) => return None,
        A::Addition(l, r) => value(l, env)?.wrapping_add(value(r, env)?),
        A::Difference(l, r) => value(l, env)?.wrapping_sub(value(r, env)?),
        A::Multiplication(l, r) => value(l, env)?.wrapping_mul(value(r, env)?),
        A::Division(l, r) => { let d = value(r, env)?; if d == 0 { return None; } value(l, env)?.wrapping_div(d) }
        A::Modulo(l, r) => { let d = value(r, env)?; if d == 0 { return None; } value(l, env)?.wrapping_rem(d) }
    })
}
pub fn truth(e: &B, env: &Env) -> Option<bool> {
    Some(match e {
        B::Bool(b) => *b,
        B::AndOp(l, r) => and(truth(l, env)?, truth(r, env)?),
        B::OrOp(l, r) => or(truth(l, env)?, truth(r, env)?),
        B::LessEQ(l, r) => value(l, env)? <= value(r, env)?,
        B::LessT(l, r) => value(l, env)? < value(r, env)?,
        B::GreatEQ(l, r) => value(l, env)? >= value(r, env)?,
        B::GreatT(l, r) => value(l, env)? > value(r, env)?,
        B::EQ(l, r) => value(l, env)? == value(r, env)?,
    })
}
pub fn arith(kind: usize, l: Box<A>, r: Box<A>) -> A {
    match kind {
        0 => A::Addition(l, r),
        1 => A::Difference(l, r),
        2 => A::Multiplication(l, r),
        3 => A::Division(l, r),
        _ => A::Modulo(l, r),
    }
}
/// sums and differences of constants and variables
pub fn linear(e: &mut Env, depth: usize) -> A {
    if depth == 0 || split("leaf") {
        return match choose("what", 3) { 0 => *e.konst(), 1 => *v("x"), _ => *v("y") };
    }
    let k = choose("sum", 2);
    let (l, r) = (linear(e, depth - 1), linear(e, depth - 1));
    arith(k, Box::new(l), Box::new(r))
}
/// constants under every operator
pub fn constant(e: &mut Env, depth: usize) -> A {
    if depth == 0 || split("leaf") { return *e.konst(); }
    let k = choose("operator", 5);
    let (l, r) = (constant(e, depth - 1), constant(e, depth - 1));
    arith(k, Box::new(l), Box::new(r))
}
/// the known class of C04: a bracket with a variable in it is subtracted
pub fn subtracted_bracket(t: &A) -> bool {
    match t {
        A::Difference(l, r) => subtracted_bracket(l) || (r.clock_var_count() > 0 && !matches!(**r, A::VarName(_))),
        A::Addition(l, r) => subtracted_bracket(l) || subtracted_bracket(r),
        _ => false,
    }
}
pub fn compare(k: usize, l: A, r: A) -> B {
    let (l, r) = (Box::new(l), Box::new(r));
    match k {
        0 => B::LessEQ(l, r),
        1 => B::LessT(l, r),
        2 => B::GreatEQ(l, r),
        3 => B::GreatT(l, r),
        _ => B::EQ(l, r),
    }
}
/// and/or over truth values and comparisons
pub fn formula(e: &mut Env, depth: usize) -> B {
    if depth == 0 || split("atom") {
        return match choose("what", 4) {
            0 => B::Bool(true),
            1 => B::Bool(false),
            2 => { let c = e.konst(); B::GreatEQ(v("x"), c) }
            _ => { let c = e.konst(); B::LessT(c, v("y")) }
        };
    }
    let both = split("and");
    let (l, r) = (formula(e, depth - 1), formula(e, depth - 1));
    if both { and_(l, r) } else { or_(l, r) }
}
pub fn leaves<'a>(t: &'a A, out: &mut Vec<&'a A>) {
    match t {
        A::Addition(l, r) | A::Difference(l, r) | A::Multiplication(l, r) | A::Division(l, r) | A::Modulo(l, r) => { leaves(l, out); leaves(r, out) }
        _ => out.push(t),
    }
}
/// The operands read back must be the ones written, in order; they are then replaced by them.
pub fn relabel(t: &mut A, want: &[&A], k: &mut usize) -> bool {
    match t {
        A::Addition(l, r) | A::Difference(l, r) | A::Multiplication(l, r) | A::Division(l, r) | A::Modulo(l, r) => relabel(l, want, k) && relabel(r, want, k),
        leaf => {
            if *k >= want.len() { return false; }
            let w = want[*k];
            *k += 1;
            match (&*leaf, w) {
                (A::Int(a), A::Int(b)) => check(a == b, "a written number reads back"),
                (A::VarName(a), A::VarName(b)) => if a != b { return false },
                _ => return false,
            }
            *leaf = w.clone();
            true
        }
    }
}
