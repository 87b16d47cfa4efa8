//! C24: a query's text is read with the usual precedence, brackets first, and wrong text is refused.
use crate::common::*;
use crate::vp::*;
use crate::DataReader::parse_queries::{parse_to_expression_tree, parse_to_state_expr, parse_to_system_expr};
use crate::ModelObjects::Expressions::{ComponentVariable, OperandExpression as O, QueryExpression as Q, StateExpression as S};

const D: [&str; 6] = ["d0", "d1", "d2", "d3", "d4", "d5"];
fn digit(k: usize) -> (i64, String) {
    let s = chr(D[k], b'0', b'9');
    ((s.as_bytes()[0] - b'0') as i64, s)
}
fn gap() -> &'static str { ["", " ", "\n\t"][choose("gap", 3)] }
fn groups(len: usize) -> Vec<Option<(usize, usize)>> {
    let mut all = vec![None, Some((0, len - 1))];
    for a in 0..len { for b in a + 1..len { if b - a + 1 < len { all.push(Some((a, b))); } } }
    all
}
fn text(words: &[String], ops: &[&str], group: Option<(usize, usize)>, gap: &str) -> String {
    let mut s = String::new();
    for i in 0..words.len() {
        if i > 0 { s += gap; s += ops[i - 1]; s += gap; }
        if let Some((a, _)) = group { if a == i { s += "("; s += gap; } }
        s += &words[i];
        if let Some((_, b)) = group { if b == i { s += ")"; } }
    }
    s
}
/// Reduces a list of operands level by level, a bracketed group first.
fn reduce<T: Clone>(parts: &[T], ops: &[usize], group: Option<(usize, usize)>, levels: &[&[usize]], f: &dyn Fn(usize, T, T) -> T) -> T {
    let (mut p, mut o) = (parts.to_vec(), ops.to_vec());
    if let Some((a, b)) = group {
        let w = reduce(&parts[a..=b], &ops[a..b], None, levels, f);
        p.splice(a..=b, std::iter::once(w));
        o.drain(a..b);
    }
    for level in levels {
        let mut i = 0;
        while i < o.len() {
            if level.contains(&o[i]) {
                let w = f(o[i], p[i].clone(), p[i + 1].clone());
                p[i] = w;
                p.remove(i + 1);
                o.remove(i);
            } else { i += 1; }
        }
    }
    p[0].clone()
}
const OPS: [&str; 4] = ["//", "\\\\", "||", "&&"];
const NAMES: [&str; 4] = ["A", "Bc", "D1", "e_f"];
/// Systems: brackets, then conjunction, then composition, then quotient; each from the left.
fn systems(len: usize) {
    let words: Vec<String> = NAMES[..len].iter().map(|s| s.to_string()).collect();
    let ops: Vec<usize> = (1..len).map(|_| choose("operator", 4)).collect();
    let all = groups(len);
    let group = all[choose("group", all.len())];
    let t = text(&words, &ops.iter().map(|o| OPS[*o]).collect::<Vec<_>>(), group, gap());
    let want = reduce(&words, &ops, group, &[&[3], &[2], &[0, 1]], &|o, l, r| format!("({} {} {})", l, ["\\\\", "\\\\", "||", "&&"][o], r));
    match parse_to_system_expr(&t) {
        Ok(s) => { reach("system"); check(format!("{}", s) == want, "a system is read with the usual precedence") }
        Err(_) => check(false, "a system is read"),
    }
}
fn cv(c: &str, id: Option<&str>, x: &str) -> ComponentVariable {
    ComponentVariable { component: c.into(), special_id: id.map(|s| s.into()), variable: x.into() }
}
fn operand(o: &O, x: i64, y: i64) -> i64 {
    match o {
        O::Number(k) => *k as i64,
        O::Clock(v) => if *v == cv("A", None, "x") { x } else { check(*v == cv("B", Some("1"), "y"), "a clock is read"); y },
        O::Difference(l, r) => operand(l, x, y) - operand(r, x, y),
        O::Sum(l, r) => operand(l, x, y) + operand(r, x, y),
    }
}
fn holds(s: &S, x: i64, y: i64, l: [bool; 2]) -> bool {
    match s {
        S::LEQ(a, b) => operand(a, x, y) <= operand(b, x, y),
        S::GEQ(a, b) => operand(a, x, y) >= operand(b, x, y),
        S::EQ(a, b) => operand(a, x, y) == operand(b, x, y),
        S::LT(a, b) => operand(a, x, y) < operand(b, x, y),
        S::GT(a, b) => operand(a, x, y) > operand(b, x, y),
        S::AND(v) => v.iter().fold(true, |r, s| and(r, holds(s, x, y, l))),
        S::OR(v) => v.iter().fold(false, |r, s| or(r, holds(s, x, y, l))),
        S::Location(v) => if *v == cv("A", None, "L1") { l[0] } else { check(*v == cv("B", Some("1"), "K_2"), "a location is read"); l[1] },
        S::NOT(s) => !holds(s, x, y, l),
        S::Bool(b) => *b,
    }
}
/// States: brackets, then not, then and, then or.
fn states(len: usize) {
    let (x, y) = (range("x", 0, 12), range("y", 0, 12));
    let l = [boolean("l0"), boolean("l1")];
    let (mut parts, mut words) = (vec![], vec![]);
    for k in 0..len {
        let (d, t) = match choose("what", 5) {
            0 => (l[0], "A.L1".to_string()),
            1 => (l[1], "B[1].K_2".to_string()),
            2 => { let (d, s) = digit(k); (x <= d, format!("A.x<={}", s)) }
            3 => { let (d, s) = digit(k); (d < y, format!("{} < B[1].y", s)) }
            _ => (k % 2 == 0, if k % 2 == 0 { "true".into() } else { "false".into() }),
        };
        match choose("not", 2) {
            0 => { parts.push(d); words.push(t) }
            _ => { parts.push(!d); words.push(if k % 2 == 0 { format!("!{}", t) } else { format!("not {}", t) }) }
        }
    }
    let ops: Vec<usize> = (1..len).map(|_| choose("and/or", 2)).collect();
    let all = groups(len);
    let group = all[choose("group", all.len())];
    let names = if len == 2 && split("in words") { ["and", "or"] } else { ["&&", "||"] };
    let t = text(&words, &ops.iter().map(|o| names[*o]).collect::<Vec<_>>(), group, " ");
    let want = reduce(&parts, &ops, group, &[&[0], &[1]], &|o, a, b| if o == 0 { and(a, b) } else { or(a, b) });
    match parse_to_state_expr(&t) {
        Ok(s) => { reach("state"); check(holds(&s, x, y, l) == want, "a state is read with the usual precedence") }
        Err(_) => check(false, "a state is read"),
    }
}
/// Comparisons of sums and differences, from left to right.
fn comparisons() {
    let (x, y) = (range("x", 0, 12), range("y", 0, 12));
    let len = 2 + choose("length", 2);
    let (mut parts, mut words) = (vec![], vec![]);
    for k in 0..len {
        match choose("what", 3) {
            0 => { parts.push(x); words.push("A.x".to_string()) }
            1 => { parts.push(y); words.push("B[1].y".to_string()) }
            _ => { let (d, s) = digit(k); parts.push(d); words.push(s) }
        }
    }
    let ops: Vec<usize> = (1..len).map(|_| choose("plus/minus", 2)).collect();
    let left = reduce(&parts, &ops, None, &[&[0, 1]], &|o, a, b| if o == 0 { a + b } else { a - b });
    let cmp = choose("compare", 5);
    let (d, s) = digit(5);
    let gap = gap();
    let mut t = text(&words, &ops.iter().map(|o| ["+", "-"][*o]).collect::<Vec<_>>(), None, gap);
    t = format!("{}{}{}{}{}", t, gap, ["<=", ">=", "==", "<", ">"][cmp], gap, s);
    match parse_to_state_expr(&t) {
        Ok(s) => {
            reach("comparison");
            let want = match cmp { 0 => left <= d, 1 => left >= d, 2 => left == d, 3 => left < d, _ => left > d };
            check(holds(&s, x, y, [false, false]) == want, "a comparison is read from left to right");
        }
        Err(_) => check(false, "a comparison is read"),
    }
}
/// Every kind of query, alone or in a list.
fn kinds() {
    let w = gap();
    let mut want = vec![];
    let mut t = String::new();
    for i in 0..1 + choose("queries", 2) {
        if i > 0 { t += w; t += ";"; t += w; }
        let k = choose("kind", 10);
        want.push(k);
        t += &match k {
            0 => format!("refinement:{w}A{w}<={w}B || C"),
            1 => format!("consistency:{w}A"),
            2 => format!("determinism:{w}A[1]"),
            3 => format!("implementation:{w}A"),
            4 => format!("specification:{w}(A)"),
            5 => format!("get-component:{w}A && B save-as{w} Cd"),
            6 => format!("prune:{w}A save-as Cd"),
            7 => format!("bisim-minim:{w}A"),
            8 => format!("reachability:{w}A{w}@{w}init{w}->{w}A.L2"),
            _ => format!("reachability:{w}A{w}@{w}A.L0{w}->{w}A.L2"),
        };
    }
    match parse_to_expression_tree(&t) {
        Ok(q) => {
            reach("kind");
            check(q.len() == want.len(), "every query of a list is read");
            for (q, k) in q.iter().zip(want) {
                let ok = match (q, k) {
                    (Q::Refinement(l, r), 0) => l.to_string() == "A" && r.to_string() == "(B || C)",
                    (Q::Consistency(s), 1) | (Q::Implementation(s), 3) | (Q::Specification(s), 4) => s.to_string() == "A",
                    (Q::Determinism(s), 2) => s.to_string() == "A[1]",
                    (Q::GetComponent(s), 5) => s.system.to_string() == "(A && B)" && s.name.as_deref() == Some("Cd"),
                    (Q::Prune(s), 6) => s.system.to_string() == "A" && s.name.as_deref() == Some("Cd"),
                    (Q::BisimMinim(s), 7) => s.system.to_string() == "A" && s.name.is_none(),
                    (Q::Reachability { system, from, to }, 8) => system.to_string() == "A" && from.is_none() && matches!(to, S::Location(v) if *v == cv("A", None, "L2")),
                    (Q::Reachability { system, from, to }, 9) => system.to_string() == "A" && matches!(from, Some(S::Location(v)) if *v == cv("A", None, "L0")) && matches!(to, S::Location(v) if *v == cv("A", None, "L2")),
                    _ => false,
                };
                check(ok, "a query is read as what it says");
            }
        }
        Err(_) => check(false, "a query is read"),
    }
}
/// Names: a letter, then letters, digits and underscores; any other character ends them.
fn names() {
    let a = chr("first", b'!', b'~');
    let b = chr("second", b'!', b'~');
    let (c, d) = (a.as_bytes()[0], b.as_bytes()[0]);
    let letter = |c: u8| or(and(c >= b'a', c <= b'z'), and(c >= b'A', c <= b'Z'));
    let more = |c: u8| or(letter(c), or(and(c >= b'0', c <= b'9'), c == b'_'));
    assume(and(c != b'(', d != b';'));
    let t = format!("determinism: {}{}", a, b);
    let got = parse_to_expression_tree(&t);
    reach("name");
    check(got.is_ok() == and(letter(c), more(d)), "exactly well-formed names are accepted");
    if let Ok(q) = got {
        match &q[0] {
            Q::Determinism(s) => check(s.to_string().as_bytes() == [c, d], "a name is kept as it is"),
            _ => check(false, "a query is read as what it says"),
        }
    }
}
/// Text that is no query gives an error, not an answer and not a crash.
fn refused() {
    let t = [
        "", "A <= B", "refinement: A", "refinement: A <= ", "refinement: A <= B <= C", "refinement: A >= B", "consistency: A ||", "consistency: && A", "consistency: A B",
        "consistency: (A", "consistency: A)", "consistency: ()", "consistency: A; ", "; consistency: A", "consistency: A[", "consistency: A[]", "consistency A", "reachability: A",
        "reachability: A -> A.L0", "reachability: A @ init", "reachability: A @ init -> ", "reachability: A @ init -> L0", "reachability: A @ init -> A.x <", "reachability: A @ init -> A.x <= 1 <= 2",
        "reachability: A @ -> A.L0", "get-component: A save-as", "get-component: save-as B", "prune: A save-as B C", "determinism: A <= B", "unknown: A",
        "reachability: A @ init -> A.x <= 99999999999", "reachability: A @ init -> A.x <= 2147483648", "reachability: A @ init -> A.x <= 01",
    ][choose("text", 33)];
    reach("refused");
    check(parse_to_expression_tree(t).is_err(), "text that is no query is refused");
}
/// A query that is printed reads back as the same query.
fn written() {
    let (x, y) = (range("x", 0, 12), range("y", 0, 12));
    let l = [boolean("l0"), boolean("l1")];
    let w0 = condition(0, choose("first", 7));
    let w1 = condition(1, choose("second", 7));
    let state = match choose("join", 5) { 0 => w0, 1 => format!("{} && {}", w0, w1), 2 => format!("{} or !({} and {})", w0, w1, w0), 3 => format!("not ({} || {}) && {}", w0, w1, w0), _ => format!("({} || {}) && {}", w0, w1, w1) };
    let start = choose("start", 2);
    let q = match start { 0 => format!("reachability: A || B[1] @ init -> {}", state), _ => format!("reachability: A || B[1] @ {} -> A.L1", state) };
    let one = match parse_to_expression_tree(&q) { Ok(mut q) => q.remove(0), Err(_) => { check(false, "a query is read"); return } };
    let two = match parse_to_expression_tree(&one.to_string()) { Ok(mut q) => q.remove(0), Err(_) => { check(false, "a printed query reads back"); return } };
    reach("written");
    match (one, two) {
        (Q::Reachability { system: s1, from: f1, to: t1 }, Q::Reachability { system: s2, from: f2, to: t2 }) => {
            check(format!("{:?}", s1) == format!("{:?}", s2), "a printed query reads back as it was");
            check(holds(&t1, x, y, l) == holds(&t2, x, y, l), "a printed query reads back as it was");
            check(f1.is_some() == f2.is_some(), "a printed query reads back as it was");
            if let (Some(f1), Some(f2)) = (f1, f2) { check(holds(&f1, x, y, l) == holds(&f2, x, y, l), "a printed query reads back as it was"); }
        }
        _ => check(false, "a printed query reads back as it was"),
    }
}
fn condition(k: usize, what: usize) -> String {
    let (_, d) = digit(k);
    match what {
        0 => "A.L1".to_string(), 1 => "!B[1].K_2".to_string(), 2 => format!("A.x - B[1].y + {} <= 3", d), 3 => format!("B[1].y > A.x - {}", d),
        4 => format!("A.x == {}", d), 5 => format!("{} >= A.x + B[1].y", d), _ => format!("{} < A.x", d),
    }
}
fn written_kinds() {
    let words: Vec<String> = NAMES[..3].iter().map(|s| format!("{}{}", s, ["", "[1]"][(s.len() == 1) as usize])).collect();
    let ops: Vec<usize> = (1..3).map(|_| choose("operator", 4)).collect();
    let all = groups(3);
    let sys = text(&words, &ops.iter().map(|o| OPS[*o]).collect::<Vec<_>>(), all[choose("group", all.len())], " ");
    let q = match choose("kind", 9) {
        0 => format!("refinement: {} <= B", sys), 1 => format!("refinement: B <= {}", sys), 2 => format!("consistency: {}", sys), 3 => format!("determinism: {}", sys),
        4 => format!("implementation: {}", sys), 5 => format!("specification: {}", sys), 6 => format!("get-component: {} save-as Cd", sys), 7 => format!("prune: {} save-as Cd", sys), _ => format!("bisim-minim: {}", sys),
    };
    let one = match parse_to_expression_tree(&q) { Ok(mut q) => q.remove(0), Err(_) => { check(false, "a query is read"); return } };
    let two = match parse_to_expression_tree(&one.to_string()) { Ok(mut q) => q.remove(0), Err(_) => { check(false, "a printed query reads back"); return } };
    reach("written");
    check(format!("{:?}", one) == format!("{:?}", two), "a printed query reads back as it was");
}
harness! {
    h_c24_systems => systems(3);
    h_c24_systems_long => systems(4);
    h_c24_states => states(3);
    h_c24_states_two => states(2);
    h_c24_comparisons => comparisons();
    h_c24_kinds => kinds();
    h_c24_names => names();
    h_c24_refused => refused();
    h_c24_written => written();
    h_c24_written_kinds => written_kinds();
}
