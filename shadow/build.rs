// Lists the top-level modules of /repo/src/lib.rs (all but the command line, logging and the tests).
use std::{env, fs, path::Path};
fn main() {
    let src = "/repo/src";
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed={src}/lib.rs");
    let mut out = String::new();
    for line in fs::read_to_string(format!("{src}/lib.rs")).unwrap().lines() {
        let w: Vec<&str> = line.split("//").next().unwrap().trim().trim_end_matches(';').split_whitespace().collect();
        let Some(i) = w.iter().position(|x| *x == "mod") else { continue };
        if w.len() != i + 2 || ["cli", "logging", "tests"].contains(&w[i + 1]) { continue; }
        let dir = format!("{src}/{}/mod.rs", w[i + 1]);
        let file = if Path::new(&dir).exists() { dir } else { format!("{src}/{}.rs", w[i + 1]) };
        out += &format!("#[path = {file:?}] pub mod {};\n", w[i + 1]);
    }
    fs::write(format!("{}/modules.rs", env::var("OUT_DIR").unwrap()), out).unwrap();
}
