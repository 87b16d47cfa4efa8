//! C33: system declarations name the parts and the actions that were written, in JSON and XML alike.
use crate::vp::*;
use crate::ModelObjects::SystemDeclarations;
use crate::xml_parser::parse_xml_from_str;

fn read(text: &str, xml: bool) -> Option<SystemDeclarations> {
    if xml {
        Some(parse_xml_from_str(&format!("<nta><declaration></declaration><system>{}</system></nta>", text)).1)
    } else {
        let text = text.replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t");
        serde_json::from_str(&format!("{{\"name\":\"System Declarations\",\"declarations\":\"{}\"}}", text)).ok()
    }
}
fn letter(n: &'static str, first: u8) -> String { (conc(range(n, first as i64, first as i64 + 1) as u64) as u8 as char).to_string() }
/// The parts in order, and the inputs and outputs of each, in any layout.
fn layout() {
    let eol = ["\n", "\r\n", "\n\n", " \t\n"][choose("line end", 4)];
    let comma = [", ", ",", " , "][choose("comma", 3)];
    let brace = [" { ", " {", "{"][choose("brace", 3)];
    let (a, b) = (letter("a", b'A'), letter("b", b'M'));
    let (i, o) = (chr("i", b'a', b'z'), chr("o", b'a', b'z'));
    let head = match choose("system", 5) {
        0 => format!("system {}{}{};{}", a, comma, b, eol),
        1 => format!("system {}{}{}{}", a, comma, b, eol),
        2 => format!("// the parts{}system {}{}{};{}", eol, a, comma, b, eol),
        3 => format!("system {},{} {}; // both{}", a, eol, b, eol),
        _ => format!("{} system {}{}{} ;{}", eol, a, comma, b, eol),
    };
    let (body, ins, outs): (String, [Vec<&str>; 2], [Vec<&str>; 2]) = match choose("actions", 6) {
        0 => (String::new(), [vec![], vec![]], [vec![], vec![]]),
        1 => (format!("IO {}{}{}?{}{}!}}", a, brace, i, comma, o), [vec![&i], vec![]], [vec![&o], vec![]]),
        2 => (format!("IO {}{}{}? }}{}IO {}{}{}!{}k1? }}", b, brace, i, eol, a, brace, o, comma), [vec!["k1"], vec![&i]], [vec![&o], vec![]]),
        3 => (format!(" IO {}{}{}?{}j?{}k?}}{}", a, brace, i, comma, comma, eol), [vec![&i, "j", "k"], vec![]], [vec![], vec![]]),
        4 => (format!("IO {}{}}}{}//IO {} {{ no? }}{}IO {}{}{}! }}", a, brace, eol, a, eol, b, brace, o), [vec![], vec![]], [vec![], vec![&o]]),
        _ => (format!("IO {}{}{}{}?{}{}{}! }} // end", b, brace, eol, i, comma, eol, o), [vec![], vec![&i]], [vec![], vec![&o]]),
    };
    let got = match read(&(head + &body), split("xml")) {
        Some(d) => d,
        None => { check(false, "system declarations are read"); return; }
    };
    reach("layout");
    let d = got.get_declarations();
    check(*d.get_components() == vec![a.clone(), b.clone()], "the parts are named in order");
    for (k, part) in [&a, &b].iter().enumerate() {
        let of = |m: &std::collections::HashMap<String, Vec<String>>| m.get(*part).cloned().unwrap_or_default();
        check(of(d.get_input_actions()) == ins[k], "the inputs are those written");
        check(of(d.get_output_actions()) == outs[k], "the outputs are those written");
        check(got.get_component_inputs(part).cloned().unwrap_or_default() == ins[k], "the inputs of a part are found");
    }
}
/// Wrong declarations are refused.
fn wrong() {
    let text = ["sys A;", "system A;\nIO B { a? }", "system A;\nIO A { a }", "IO A { a? }\nsystem A;", "system A;\nIO A a?", "system A;\nIO A { a?", "system A;\nIO", "system A; B;"][choose("wrong", 8)];
    let xml = split("xml");
    reach("wrong");
    panic_ok(xml); // an XML project that cannot be read stops the program
    check(read(text, xml).is_none(), "wrong system declarations are refused");
}
/// An XML project is told by its file's ending.
fn ending() {
    let (p, q) = (chr("p", b'a', b'z'), chr("q", b'a', b'z'));
    let xml = q == "l";
    let (path, want) = match choose("path", 7) {
        0 => (format!("{}.xm{}", p, q), xml),
        1 => (format!("/some/{}/m.xm{}", p, q), xml),
        2 => (format!("models/{}.b.xm{}", p, q), xml),
        3 => (format!("models.xml/{}{}", p, q), false),
        4 => (format!("models/{}xm{}", p, q), false),
        5 => (format!("models/{}.xm{}s", p, q), false),
        _ => (format!("{}/{}", p, q), false),
    };
    reach("ending");
    check(crate::xml_parser::is_xml_project(&path) == want, "an XML project is told by its file's ending");
}
harness! {
    h_c33_ending => ending();
    h_c33_layout => layout();
    h_c33_wrong => wrong();
}
