//! C07: the text of a guard means what the usual precedence says.
#[path = "expr.rs"]
mod expr;
use crate::common::*;
use crate::vp::*;
use crate::DataReader::parse_edge::{parse_guard, parse_updates};
use crate::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B};
use expr::*;

const D: [&str; 6] = ["d0", "d1", "d2", "d3", "d4", "d5"];
/// a symbolic digit and its text
fn digit(k: usize, lo: u8) -> (i32, String) {
    let s = chr(D[k], lo, b'9');
    ((s.as_bytes()[0] - b'0') as i32, s)
}
/// A list of operands and operators, one contiguous group of which may stand in brackets.
struct List<T> { parts: Vec<T>, ops: Vec<usize>, group: Option<(usize, usize)> }
impl<T: Clone> List<T> {
    fn text(&self, words: &[String], names: &[&str], gap: &str) -> String {
        let mut s = String::new();
        for i in 0..self.parts.len() {
            if i > 0 { s += gap; s += names[self.ops[i - 1]]; s += gap; }
            if let Some((a, _)) = self.group { if a == i { s += "("; } }
            s += &words[i];
            if let Some((_, b)) = self.group { if b == i { s += ")"; } }
        }
        s
    }
    /// The value under the precedence levels, each level applied left to right.
    fn value(&self, levels: &[&[usize]], f: &mut dyn FnMut(usize, T, T) -> T) -> T {
        let (mut p, mut o) = (self.parts.clone(), self.ops.clone());
        if let Some((a, b)) = self.group {
            let inner = List { parts: p[a..=b].to_vec(), ops: o[a..b].to_vec(), group: None };
            let w = inner.value(levels, f);
            p.splice(a..=b, std::iter::once(w));
            o.drain(a..b);
        }
        for level in levels {
            let mut i = 0;
            while i < o.len() {
                if level.contains(&o[i]) {
                    let w = f(o[i], p[i].clone(), p[i + 1].clone());
                    p[i] = w;
                    p.remove(i + 1);
                    o.remove(i);
                } else { i += 1; }
            }
        }
        p[0].clone()
    }
}
fn group(len: usize) -> Option<(usize, usize)> {
    let mut all = vec![None];
    for a in 0..len { for b in a + 1..len { if b - a + 1 < len { all.push(Some((a, b))); } } }
    all.push(Some((0, len - 1)));
    all[choose("group", all.len())]
}
fn gap() -> &'static str { if split("spaces") { " " } else { "" } }

fn bools(len: usize) {
    let e = Env::new(0, 9);
    let (mut parts, mut words) = (vec![], vec![]);
    for k in 0..len {
        match choose("what", 4) {
            0 => { parts.push(true); words.push("true".to_string()) }
            1 => { parts.push(false); words.push("false".to_string()) }
            2 => { let (d, s) = digit(k, b'0'); parts.push(e.x >= d); words.push(format!("x>={}", s)) }
            _ => { let (d, s) = digit(k, b'0'); parts.push(d < e.y); words.push(format!("{}<y", s)) }
        }
    }
    let ops: Vec<usize> = (1..len).map(|_| choose("and/or", 2)).collect();
    let l = List { parts, ops, group: group(len) };
    let text = l.text(&words, &["&&", "||"], gap());
    let want = l.value(&[&[0], &[1]], &mut |o, a, b| if o == 0 { and(a, b) } else { or(a, b) });
    match parse_guard(&text) {
        Ok(g) => { reach("formula"); check(truth(&g, &e) == Some(want), "and binds tighter than or, brackets first") }
        Err(_) => check(false, "a well-formed guard is accepted"),
    }
}
/// None: undefined (division by zero)
fn calc(o: usize, a: Option<i32>, b: Option<i32>) -> Option<i32> {
    let (a, b) = (a?, b?);
    Some(match o { 0 => a.wrapping_add(b), 1 => a.wrapping_sub(b), 2 => a.wrapping_mul(b), 3 => { if b == 0 { return None; } a.wrapping_div(b) } _ => { if b == 0 { return None; } a.wrapping_rem(b) } })
}
fn sums(len: usize, all: bool) {
    let e = Env::new(0, 9);
    assume(and(e.x <= 5, e.y <= 5));
    let (mut words, mut want, mut parts) = (vec![], vec![], vec![]);
    for k in 0..len {
        match choose("operand", 2) {
            0 => { let (d, s) = digit(k, b'1'); parts.push(Some(d)); words.push(s); want.push(A::Int(d)) }
            _ => { let x = k % 2 == 0; parts.push(Some(if x { e.x } else { e.y })); let s = if x { "x" } else { "y" }; words.push(s.to_string()); want.push(*v(s)) }
        }
    }
    let ops: Vec<usize> = (1..len).map(|_| if all { choose("operator", 5) } else { [1, 2, 3][choose("operator", 3)] }).collect();
    let l = List { parts, ops, group: group(len) };
    let text = format!("{}<=y", l.text(&words, &["+", "-", "*", "/", "%"], gap()));
    match parse_guard(&text) {
        Ok(B::LessEQ(t, _)) => {
            let (mut t, mut k) = (*t, 0);
            let refs: Vec<&A> = want.iter().collect();
            check(relabel(&mut t, &refs, &mut k) && k == len, "operands keep their order");
            reach("sum");
            let w = l.value(&[&[2, 3, 4], &[0, 1]], &mut calc);
            if w.is_none() { return; }
            check(value(&t, &e) == w, "products bind tighter than sums, left to right, brackets first");
        }
        _ => check(false, "a well-formed guard is accepted"),
    }
}
fn comparisons() {
    let e = Env::new(0, 9);
    let (d, s) = digit(0, b'0');
    let (op, holds): (&str, fn(i32, i32) -> bool) = match choose("compare", 5) {
        0 => ("<=", |a, b| a <= b),
        1 => ("<", |a, b| a < b),
        2 => (">=", |a, b| a >= b),
        3 => (">", |a, b| a > b),
        _ => ("==", |a, b| a == b),
    };
    let g = gap();
    let (text, want) = match choose("form", 4) {
        0 => (format!("x{}{}{}{}", g, op, g, s), holds(e.x, d)),
        1 => (format!("{}{}{}{}y;", s, g, op, g), holds(d, e.y)),
        2 => (format!("x{}-{}y{}{}-{}", g, g, op, g, s), holds(e.x - e.y, -d)),
        _ => (format!("({}+x){}y", s, op), holds(d + e.x, e.y)),
    };
    match parse_guard(&text) {
        Ok(f) => { reach("comparison"); check(truth(&f, &e) == Some(want), "a comparison means what it says") }
        Err(_) => check(false, "a well-formed guard is accepted"),
    }
}
/// several assignments; the value assigned is the value of the text
fn assignments() {
    let count = choose("count", 4);
    let g = gap();
    let names = ["x", "y", "x"];
    let mut text = String::new();
    let mut want = vec![];
    for k in 0..count {
        let (a, s) = digit(2 * k, b'0');
        if k > 0 { text += ","; text += g; }
        text += names[k];
        text += g;
        text += if split("assign") { "=" } else { ":=" };
        text += g;
        text += &s;
        let mut w = a;
        if k == 0 {
            let (b, s) = digit(2 * k + 1, b'1');
            match choose("rest", 4) {
                0 => {}
                1 => { text += "+"; text += &s; w = a + b }
                2 => { text += "-"; text += &s; w = a - b }
                _ => { text += "*"; text += &s; text += "-1"; w = a * b - 1 }
            }
        }
        want.push((names[k], w));
    }
    if count > 0 && split("trailing comma") { text += ","; }
    match parse_updates(&text) {
        Ok(u) => {
            reach("assignment");
            check(u.len() == want.len(), "every assignment is read");
            for (u, w) in u.iter().zip(&want) {
                check(u.variable == w.0, "assignments keep their order");
                check(u.expression == A::Int(w.1), "an assignment's value is computed");
            }
        }
        Err(_) => check(false, "a well-formed update is accepted"),
    }
}
/// No guard at all always holds, and no update changes anything.
fn blank() {
    let e = Env::new(0, 9);
    let g = ["", " ", "\t", "\n ", ";", " ; "][choose("text", 6)];
    reach("blank");
    match parse_guard(g) {
        Ok(f) => check(truth(&f, &e) == Some(true), "an empty guard always holds"),
        Err(_) => check(false, "an empty guard is accepted"),
    }
    if g.contains(';') { return; }
    match parse_updates(g) {
        Ok(u) => check(u.is_empty(), "an empty update assigns nothing"),
        Err(_) => check(false, "an empty update is accepted"),
    }
}
harness! {
    h_c07_blank => blank();
    h_c07_bools => bools(3);
    h_c07_sums => sums(3, true);
    h_c07_long => sums(4, false);
    h_c07_comparisons => comparisons();
    h_c07_assignments => assignments();
    h_c07_four => bools(4);
}
