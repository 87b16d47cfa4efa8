//! C06: a guard or update that is written out reads back with the same meaning.
#[path = "expr.rs"]
mod expr;
use crate::common::*;
use crate::vp::*;
use crate::DataReader::parse_edge::{parse_guard, parse_updates};
use crate::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B};
use expr::*;

fn back(f: &B, env: &Env) {
    let want = truth(f, env);
    if want.is_none() { return; }
    let text = f.encode_expr();
    match parse_guard(&text) {
        Ok(g) => {
            reach("guard");
            check(truth(&g, env) == want, "a written guard reads back with the same meaning");
        }
        Err(_) => check(false, "a written guard can be read"),
    }
}
fn formulas(depth: usize, lo: i32) {
    let mut e = Env::new(lo, 9);
    let f = formula(&mut e, depth);
    back(&f, &e);
}
fn any_arith(e: &mut Env, depth: usize) -> A {
    if depth == 0 { return if split("variable") { *v("x") } else { *e.konst() }; }
    if split("leaf") { return if split("variable") { *v("y") } else { *e.konst() }; }
    let k = choose("operator", 5);
    let (l, r) = (any_arith(e, depth - 1), any_arith(e, depth - 1));
    arith(k, Box::new(l), Box::new(r))
}
/// the tree against a constant; values are compared where no divisor is zero
fn trees(depth: usize) {
    let mut e = Env::new(1, 3);
    let k = choose("compare", 2) * 4;
    let t = any_arith(&mut e, depth);
    let c = e.konst();
    assume(and(e.x <= 3, e.y <= 3));
    let f = compare(k, t.clone(), *c);
    let text = f.encode_expr();
    match parse_guard(&text) {
        Ok(B::LessEQ(l, _)) | Ok(B::EQ(l, _)) => {
            reach("tree");
            let mut want = vec![];
            leaves(&t, &mut want);
            let mut l = *l;
            let mut k = 0;
            check(relabel(&mut l, &want, &mut k) && k == want.len(), "a written expression keeps its operands");
            let (a, b) = (value(&t, &e), value(&l, &e));
            if a.is_none() { return; }
            check(a == b, "a written expression reads back with the same value");
        }
        _ => check(false, "a written guard can be read"),
    }
}
/// constants of any size the tool writes, including negative bounds
fn bounds() {
    let mut e = Env::new(-1200, 1200);
    let f = {
        let k = choose("compare", 5);
        let c = e.konst();
        match choose("side", 3) {
            0 => compare(k, *v("x"), *c),
            1 => compare(k, *c, *v("y")),
            _ => compare(k, A::Difference(v("x"), v("y")), *c),
        }
    };
    back(&f, &e);
}
fn updates() {
    let (a, b) = (int("a", 0, 120), int("b", 0, 120));
    let mut c = comp("C", &["x", "y"], vec![loc("L", None)], vec![edge("E", "L", "L", "a!", None, vec![set("x", a), set("y", b)])]);
    if split("one") { c.edges[0].update.as_mut().unwrap().pop(); }
    let ups = c.edges[0].update.clone().unwrap();
    let text = serde_json::to_value(&c.edges[0]).unwrap()["update"].as_str().unwrap().to_string();
    match parse_updates(&text) {
        Ok(got) => {
            reach("update");
            check(got.len() == ups.len(), "every assignment reads back");
            for (g, u) in got.iter().zip(&ups) {
                check(and(g.variable == u.variable, g.expression == u.expression), "a written assignment reads back");
            }
        }
        Err(_) => check(false, "a written update can be read"),
    }
}
harness! {
    h_c06_formulas => formulas(2, 1);
    h_c06_trees => trees(2);
    h_c06_bounds => bounds();
    h_c06_updates => updates();
    h_c06_zero => formulas(0, 1);
    h_c06_signed => formulas(1, -20);
}
