//! C35: projects on disk are loaded as they are written, and keep what is saved into them.
#[path = "text.rs"]
mod text;
use crate::common::*;
use crate::extract_system_rep::{create_executable_query, ExecutableQueryError};
use crate::parse_queries::parse_to_query;
use crate::vp::*;
use crate::ModelObjects::Query;
use crate::ProtobufServer::services::query_request::Settings;
use crate::System::query_failures::QueryResult;
use crate::{ComponentLoader, JsonProjectLoader, ProjectLoader, XmlProjectLoader};
use std::fs;
use text::*;

const REDUCE: Settings = Settings { disable_clock_reduction: false };
fn sends(name: &'static str, lo: &str, hi: &str) -> Model {
    Model { name, decl: "clock x;".into(), locs: vec![l("L0", "", "INITIAL"), l("L1", "", "NORMAL")], edges: vec![e("E0", "L0", "L1", "o!", &format!("x>={} && x<={}", lo, hi), "")] }
}
fn write(dir: &str, file: &str, text: &str) {
    fs::write(format!("{}/{}", dir, file), text).unwrap();
}
/// A project with these models and declarations, as a folder of JSON files or as one XML file.
fn project(models: &[Model], decl: &str, queries: &[&str], as_xml: bool, settings: Settings) -> Box<dyn ProjectLoader> {
    let d = dir();
    if as_xml {
        let bodies: Vec<String> = models.iter().map(|m| { let t = xml(m, false); let i = t.find("<template>").unwrap(); t[i..t.find("<system>").unwrap()].to_string() }).collect();
        let asked: Vec<String> = queries.iter().map(|q| format!("<query><formula>{}</formula><comment/></query>", esc(q))).collect();
        write(&d, "model.xml", &format!("<nta><declaration></declaration>{}<system>{}</system><queries>{}</queries></nta>", bodies.concat(), decl, asked.concat()));
        XmlProjectLoader::new_loader(format!("{}/model.xml", d), settings)
    } else {
        fs::create_dir_all(format!("{}/Components", d)).unwrap();
        for m in models { write(&d, &format!("Components/{}.json", m.name), &json(m, false)); }
        write(&d, "SystemDeclarations.json", &format!("{{\"name\":\"System Declarations\",\"declarations\":\"{}\"}}", decl.replace('\n', "\\n")));
        let asked: Vec<String> = queries.iter().map(|q| format!("{{\"query\":\"{}\",\"comment\":\"\",\"isPeriodic\":false,\"ignoredInputs\":{{}},\"ignoredOutputs\":{{}},\"backend\":1}}", q)).collect();
        write(&d, "Queries.json", &format!("[{}]", asked.join(",")));
        JsonProjectLoader::new_loader(d, settings)
    }
}
fn ask_(loader: &mut (dyn ComponentLoader + 'static), query: &Query) -> u64 {
    match create_executable_query(query, loader) {
        Ok(q) => verdict(&Ok::<_, ExecutableQueryError>(q.execute())),
        Err(_) => 2,
    }
}
fn query(text: &str) -> Query { parse_to_query(text).remove(0) }
/// Queries of the project get the verdict of the models in the files.
fn asked() {
    let ((a, da), (b, db), (c, dc), (d, dd)) = (digit(0), digit(1), digit(2), digit(3));
    let decl = "system S, T;\nIO S { o! }\nIO T { o! }";
    let as_xml = split("xml");
    let queries = ["refinement: S <= T", "consistency: T", "refinement: T <= S"];
    let mut loader = project(&[sends("S", &da, &db), sends("T", &dc, &dd)], decl, &queries, as_xml, Settings { disable_clock_reduction: split("keep clocks") });
    let found = loader.get_queries().clone();
    reach("asked");
    check(found.len() == if as_xml { 0 } else { 3 }, "the project's queries are found"); // XML files ask no queries
    check(*loader.get_declarations().get_declarations().get_components() == ["S", "T"], "the project's parts are found");
    let k = choose("query", 3);
    let found = if as_xml { queries.iter().map(|q| query(q)).collect() } else { found };
    check(found[k].query.as_ref().map(|q| q.to_string()) == parse_to_query(queries[k])[0].query.as_ref().map(|q| q.to_string()), "the queries are those written");
    let mut loader = loader.to_comp_loader();
    let got = ask_(&mut *loader, &found[k]);
    observe(got);
    let want = match k { 0 => or(a > b, and(c <= a, b <= d)), 1 => true, _ => or(c > d, and(a <= c, d <= b)) };
    check((got == 1) == want, "the verdict is that of the models in the files");
}
/// Declared inputs are accepted everywhere, in either kind of project.
fn inputs() {
    let ((a, da), (b, db), (c, dc)) = (digit(0), digit(1), digit(2));
    let mut s = sends("S", "0", &da);
    s.edges.push(e("E1", "L0", "L0", "i?", &format!("x<={}", db), ""));
    let declared = split("declared");
    let decl = if declared { "system S, T;\nIO S { i?, o! }\nIO T { i!, q! }" } else { "system S, T;\nIO S { o! }\nIO T { i!, q! }" };
    let t = Model { name: "T", decl: "clock z;".into(), locs: vec![l("K0", "", "INITIAL"), l("K1", "", "NORMAL")], edges: vec![e("F0", "K0", "K1", "i!", &format!("z=={}", dc), ""), e("F1", "K1", "K1", "q!", "", "")] };
    let mut loader = project(&[s, t], decl, &[], split("xml"), REDUCE).to_comp_loader();
    let s = loader.get_component("S").clone();
    reach("inputs");
    check(s.name == "S" && s.edges.iter().filter(|e| e.sync == "o").count() == 1, "the component is the one in its file");
    check(s.edges.iter().any(|e| e.sync == "i" && e.source_location == "L1") == declared, "every declared input is accepted in every location");
    // T sends i at time c; S must be able to take it then
    let late = split("late");
    let got = ask_(&mut *loader, &query(if late { "reachability: S || T @ init -> S.L1 && T.K1" } else { "reachability: S || T @ init -> S.L0 && T.K1" }));
    observe(got);
    let want = or(declared, and(c <= b, or(!late, c <= a)));
    check((got == 1) == want, "declared inputs are accepted, and no others");
}
/// What is saved is there, now and when the project is loaded again.
fn saved() {
    let ((a, da), (b, db), (c, dc)) = (digit(0), digit(1), digit(2));
    let both = split("both");
    let (b, db) = if both { (7, "7".to_string()) } else { (b, db) };
    assume(and(a <= b, 2 <= c)); // actions that can never be taken are left out of a saved component
    let mut s = sends("S", &da, &db);
    s.edges.push(e("E1", "L1", "L1", "i?", "", "x=0"));
    let mut t = sends("T", "2", &dc);
    t.edges[0].sync = "p!";
    let decl = "system S, T;\nIO S { i?, o! }\nIO T { p! }";
    // under a new name, or in place of another component
    let name = if !both && split("replace") { "T" } else { "Kept" };
    let mut loader = project(&[s, t], decl, &[], false, REDUCE).to_comp_loader();
    if name == "T" && split("asked before") {
        let _ = ask_(&mut *loader, &query("consistency: T"));
    }
    let got = ask_(&mut *loader, &query(if both { "get-component: S || T save-as Kept" } else if name == "T" { "get-component: S save-as T" } else { "get-component: S save-as Kept" }));
    reach("saved");
    check(got == 1, "a component is saved");
    // the project as it is on the disk now, or as it was loaded
    let mut again = if split("again") { JsonProjectLoader::new_loader(dir(), REDUCE).to_comp_loader() } else { loader };
    check(again.get_component(name).name == name, "a saved component is loaded again");
    let (left, right) = if both { ("S || T", name) } else { ("S", name) };
    let (left, right) = if split("turned") { (right, left) } else { (left, right) };
    let got = ask_(&mut *again, &query(&format!("refinement: {} <= {}", left, right)));
    observe(got);
    check((got == 1) == true, "a saved component stands in for the original");
}
harness! {
    h_c35_asked => asked();
    h_c35_inputs => inputs();
    h_c35_saved => saved();
}
