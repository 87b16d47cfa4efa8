//! C05: simplifying an expression keeps its meaning.
#[path = "expr.rs"]
mod expr;
use crate::common::*;
use crate::vp::*;
use crate::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B};
use expr::*;

fn same_value(env: &Env, t: A, must: bool) {
    let want = match value(&t, env) { Some(w) => w, None => return };
    match t.simplify() {
        Ok(s) => {
            reach("value");
            let got = value(&s, env);
            check(got.is_some(), "a simplified expression keeps its names");
            check(got == Some(want), "a simplified expression keeps its value");
        }
        Err(_) => check(!must, "sums, differences and constants can be simplified"),
    }
}
fn sums(depth: usize) {
    let mut e = Env::new(-9, 9);
    let t = linear(&mut e, depth);
    if subtracted_bracket(&t) { return; }
    same_value(&e, t, true);
}
/// longer sums: ((a op b) op c) op d with at most two variables
fn chain(len: usize, left: bool) {
    let mut e = Env::new(-9, 9);
    let mut vars = 0;
    let mut part = |e: &mut Env| {
        let k = if vars < 2 { choose("part", 3) } else { 0 };
        if k > 0 { vars += 1; }
        match k { 0 => *e.konst(), 1 => *v("x"), _ => *v("y") }
    };
    let mut t = part(&mut e);
    for _ in 1..len {
        let k = choose("sum", 2);
        let p = part(&mut e);
        t = if left { arith(k, Box::new(t), Box::new(p)) } else { arith(k, Box::new(p), Box::new(t)) };
    }
    if subtracted_bracket(&t) { return; }
    same_value(&e, t, true);
}
fn constants(depth: usize, most: i32) {
    let mut e = Env::new(if depth > 1 { 0 } else { -most }, most);
    let t = constant(&mut e, depth);
    let whole = value(&t, &e);
    assume(whole.is_some());
    reach("constant");
    check(t.simplify().ok() == whole.map(|w| A::Int(w)), "constants are computed");
}
fn formulas(depth: usize) {
    let mut e = Env::new(-9, 9);
    let mut f = formula(&mut e, depth);
    let want = truth(&f, &e);
    f.simplify();
    reach("formula");
    check(truth(&f, &e) == want, "a simplified formula keeps its truth value");
}
fn comparison() {
    let mut e = Env::new(-9, 9);
    let k = choose("compare", 5);
    let (l, r) = (linear(&mut e, 1), linear(&mut e, 1));
    if subtracted_bracket(&l) || subtracted_bracket(&r) { return; }
    let mut f = compare(k, l, r);
    let want = truth(&f, &e);
    f.simplify();
    reach("comparison");
    check(truth(&f, &e) == want, "a simplified comparison keeps its truth value");
}
harness! {
    h_c05_sums => sums(2);
    h_c05_left => chain(4, true);
    h_c05_right => chain(4, false);
    h_c05_constants => constants(1, 9);
    h_c05_nested => constants(2, 3);
    h_c05_formulas => formulas(2);
    h_c05_comparison => comparison();
    h_c05_deep => formulas(3);
    h_c05_deep_sums => sums(3);
}
