//! C04: a guard or invariant keeps exactly the valuations that satisfy it.
use crate::common::*;
use crate::vp::*;
use crate::EdgeEval::constraint_applyer::apply_constraints_to_state;
use crate::ModelObjects::Declarations;
use crate::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B};
use edbm::zones::OwnedFederation;

/// Values are doubled, so that half points between the integers are covered.
struct Env { x: i64, y: i64, k: usize, cs: [i32; 6] }
impl Env {
    fn new(n: usize) -> Env {
        let mut cs = [0; 6];
        let names = ["c0", "c1", "c2", "c3", "c4", "c5"];
        for i in 0..n { cs[i] = int(names[i], 0, 9); }
        Env { x: range("x*2", 0, 60), y: range("y*2", 0, 60), k: 0, cs }
    }
    fn c(&mut self) -> i32 { self.k += 1; self.cs[self.k - 1] }
}
/// A tree and its (doubled) value.
/// does the known defect (known_findings.txt) apply: a bracket with a clock in it is subtracted
fn subtracted_bracket(t: &A) -> bool {
    let has = |t: &A| t.clock_var_count() > 0;
    match t {
        A::Difference(l, r) => subtracted_bracket(l) || (has(r) && !matches!(**r, A::VarName(_))),
        A::Addition(l, r) => subtracted_bracket(l) || subtracted_bracket(r),
        _ => false,
    }
}
fn leaf(e: &mut Env) -> (Box<A>, i64) {
    match choose("leaf", 3) {
        0 => { let c = e.c(); (n(c), 2 * c as i64) }
        1 => (v("x"), e.x),
        _ => (v("y"), e.y),
    }
}
fn tree(e: &mut Env, depth: usize) -> (Box<A>, i64) {
    if depth == 0 { return leaf(e); }
    match choose("node", 3) {
        0 => leaf(e),
        1 => { let (l, a) = tree(e, depth - 1); let (r, b) = tree(e, depth - 1); (Box::new(A::Addition(l, r)), a + b) }
        _ => { let (l, a) = tree(e, depth - 1); let (r, b) = tree(e, depth - 1); (Box::new(A::Difference(l, r)), a - b) }
    }
}
fn op(e: &Env, l: Box<A>, a: i64, r: Box<A>, b: i64) -> (B, bool) {
    match choose("op", 5) {
        0 => (B::LessEQ(l, r), a <= b),
        1 => (B::LessT(l, r), a < b),
        2 => (B::GreatEQ(l, r), a >= b),
        3 => (B::GreatT(l, r), a > b),
        _ => (B::EQ(l, r), a == b),
    }
}
pub fn decls() -> Declarations { comp("D", &["x", "y"], vec![loc("L", None)], vec![]).declarations }
/// A start zone with two symbolic bounds.
fn start(e: &Env) -> (OwnedFederation, bool) {
    let f = OwnedFederation::universe(3);
    if !split("start zone") { return (f, true); }
    let (p, q) = (int("p", 0, 9), int("q", 0, 9));
    let f = f.constrain(0, 1, edbm::util::constraints::Inequality::LE(-p)).constrain(2, 1, edbm::util::constraints::Inequality::LS(q));
    (f, and(e.x >= 2 * p as i64, e.y - e.x < 2 * q as i64))
}
fn decide(e: &Env, g: &B, want: bool, must: bool, zone: bool) {
    let (f, inside) = if zone { start(e) } else { (OwnedFederation::universe(3), true) };
    let r = apply_constraints_to_state(g, &decls(), f);
    if let Ok(r) = r {
        reach("applied");
        check(r.holds_at(&[0, e.x, e.y], 2) == and(inside, want), "guard admits exactly its solutions");
    } else {
        check(!must, "guard over clocks and constants is accepted");
    }
}
fn atom(dl: usize, dr: usize) {
    let mut e = Env::new(6);
    let (l, a) = tree(&mut e, dl);
    let (r, b) = tree(&mut e, dr);
    if subtracted_bracket(&l) || subtracted_bracket(&r) { return; }
    if l.clock_var_count() + r.clock_var_count() == 0 { return; }
    let (g, want) = op(&e, l, a, r, b);
    if let Ok(f) = apply_constraints_to_state(&g, &decls(), OwnedFederation::universe(3)) {
        reach("tree");
        check(f.holds_at(&[0, e.x, e.y], 2) == want, "arithmetic guard admits exactly its solutions");
    }
}
/// x - y + c OP d style guards must be accepted
fn plain() {
    let mut e = Env::new(2);
    let (c, d) = (e.c(), e.c());
    let (l, a): (Box<A>, i64) = match choose("left", 5) {
        0 => (v("x"), e.x),
        1 => (v("y"), e.y),
        2 => (Box::new(A::Difference(v("x"), v("y"))), e.x - e.y),
        3 => (Box::new(A::Addition(v("x"), n(c))), e.x + 2 * c as i64),
        _ => (Box::new(A::Difference(v("y"), n(c))), e.y - 2 * c as i64),
    };
    let (g, want) = if split("flip") { op(&e, n(d), 2 * d as i64, l, a) } else { op(&e, l, a, n(d), 2 * d as i64) };
    decide(&e, &g, want, true, true);
}
/// constants computed with * / %
fn computed() {
    let mut e = Env::new(2);
    let (c, d) = (e.c(), e.c());
    assume(d >= 1);
    let k = match choose("calc", 3) {
        0 => (A::Multiplication(n(c), n(d)), c * d),
        1 => (A::Division(n(c), n(d)), c / d),
        _ => (A::Modulo(n(c), n(d)), c % d),
    };
    let (g, want) = op(&e, v("x"), e.x, Box::new(k.0), 2 * k.1 as i64);
    decide(&e, &g, want, true, true);
}
fn formula(e: &mut Env, depth: usize) -> (B, bool) {
    if depth == 0 || split("atom") {
        return match choose("what", 4) {
            0 => (B::Bool(true), true),
            1 => (B::Bool(false), false),
            2 => { let c = e.c(); (B::GreatEQ(v("x"), n(c)), e.x >= 2 * c as i64) }
            _ => { let c = e.c(); (B::LessT(v("y"), n(c)), e.y < 2 * c as i64) }
        };
    }
    let (l, a) = formula(e, depth - 1);
    let (r, b) = formula(e, depth - 1);
    if split("and") { (B::AndOp(Box::new(l), Box::new(r)), and(a, b)) } else { (B::OrOp(Box::new(l), Box::new(r)), or(a, b)) }
}
fn combos(depth: usize) {
    let mut e = Env::new(4);
    let (g, want) = formula(&mut e, depth);
    decide(&e, &g, want, true, false);
}
/// known_findings.txt: one guard of the class `subtracted_bracket`
fn bracket() {
    let x = range("x*2", 0, 60);
    let sum = Box::new(A::Addition(v("x"), n(3)));
    let g = B::LessEQ(Box::new(A::Difference(n(5), sum)), n(1));
    let f = apply_constraints_to_state(&g, &decls(), OwnedFederation::universe(3)).unwrap();
    check(f.holds_at(&[0, x, 0], 2) == (10 - (x + 6) <= 2), "guard 5-(x+3)<=1");
}
harness! {
    h_c04_plain => plain();
    h_c04_computed => computed();
    h_c04_bracket => bracket();
    h_c04_tree => atom(1, 1);
    h_c04_left => atom(2, 0);
    h_c04_right => atom(0, 2);
    h_c04_formula => combos(2);
}
