// vxtract: mechanical extraction of /repo's current Rust sources into a Verus crate.
//
// Executable text is kept verbatim except for the rewrites listed in DESIGN.md ("Extraction rules");
// contracts come from the .vspec files. Nothing in here knows what the code under test should do.
mod edit;
mod spec;
mod xform;

use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cfg: Value = serde_json::from_str(&fs::read_to_string(&args[1]).expect("unit file")).expect("unit json");
    let out_rs = &args[2];
    let out_map = &args[3];
    let specdir = cfg["specdir"].as_str().unwrap();
    let mut specs = spec::Specs::default();
    for s in cfg["specs"].as_array().unwrap() {
        let p = format!("{}/{}", specdir, s.as_str().unwrap());
        specs.load(&fs::read_to_string(&p).unwrap_or_else(|e| panic!("{p}: {e}")), &p);
    }
    let degrade: BTreeSet<String> = cfg["degrade"].as_array().map(|a| a.iter().map(|v| v.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let known: BTreeSet<String> = cfg["known"].as_array().map(|a| a.iter().map(|v| v.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let externs: BTreeSet<String> = cfg["externs"].as_array().unwrap().iter().map(|v| v.as_str().unwrap().to_string()).collect();

    let mut g = xform::Gen { specs, degrade, remap: cfg["remap"].as_object().cloned().unwrap_or_default(), externs, shadow: BTreeSet::new(), notes: vec![], fns: BTreeMap::new(), used: BTreeSet::new(), cur_mod: String::new(), cur_crate: String::new(), pkg: String::new(), ver: String::new(), derive_out: String::new(), all_fns: BTreeSet::new(), files: vec![], uses: String::new(), auto: String::new(), path: vec![], strs: BTreeMap::new(), keys: vec![] };
    g.uses = cfg["uses"].as_str().unwrap_or("").to_string();
    let mut out = String::new();
    out.push_str("#![allow(unused, non_snake_case, dead_code, deprecated)]\n#![feature(allocator_api)]\n");
    for s in cfg["shims"].as_array().unwrap() {
        let p = s.as_str().unwrap();
        out.push_str(&format!("// ==== shim {p}\n"));
        out.push_str(&fs::read_to_string(p).unwrap_or_else(|e| panic!("{p}: {e}")));
        out.push('\n');
    }
    let mut errs = vec![];
    for c in cfg["crates"].as_array().unwrap() {
        let m = c["mod"].as_str().unwrap().to_string();
        let src = c["src"].as_str().unwrap().to_string();
        let root = c["root"].as_str().unwrap_or("lib.rs");
        g.pkg = c["pkg"].as_str().unwrap_or("").to_string();
        g.ver = c["version"].as_str().unwrap_or("").to_string();
        g.cur_crate = m.clone();
        let skip: BTreeSet<String> = c["skip"].as_array().map(|a| a.iter().map(|v| v.as_str().unwrap().to_string()).collect()).unwrap_or_default();
        g.path = vec![m.clone()];
        let keys = c["keys"].as_bool().unwrap_or(false);
        g.auto = if keys { format!("crate::{m}::vx_keys();") } else { String::new() };
        out.push_str("verus! {\n");
        match g.file(&src, root, &m, "", &skip) {
            Ok(t) => { let kl = if keys { g.key_lemma() } else { String::new() }; out.push_str(&format!("pub mod {m} {{\nuse crate::vx::*;\nuse vstd::prelude::*;\n{}\n{t}\n{kl}\n}}\n", g.uses)); }
            Err(e) => errs.push(e),
        }
        out.push_str("}\n");
    }
    for s in cfg["tail"].as_array().unwrap_or(&vec![]) {
        let p = s.as_str().unwrap();
        out.push_str(&format!("// ==== lemmas {p}\n"));
        out.push_str(&fs::read_to_string(p).unwrap_or_else(|e| panic!("{p}: {e}")));
        out.push('\n');
    }
    out.push_str("fn main() {}\n");
    // missing functions under contract
    let mut missing = vec![];
    for k in g.specs.fns.keys() { if !g.used.contains(k) { missing.push(k.clone()); } }
    let unknown: Vec<String> = g.all_fns.iter().filter(|f| !g.specs.fns.contains_key(*f) && !known.contains(*f)).cloned().collect();
    // markers -> lines
    let mut fnlines = vec![];
    let mut clauses = vec![];
    let mut open: BTreeMap<String, usize> = BTreeMap::new();
    for (i, l) in out.lines().enumerate() {
        let mut rest = l;
        while let Some(p) = rest.find("/*@") {
            let e = rest[p..].find("@*/").map(|x| x + p);
            let Some(e) = e else { break };
            let m = &rest[p + 3..e];
            if let Some(id) = m.strip_prefix("F:") { open.insert(id.into(), i + 1); }
            else if let Some(id) = m.strip_prefix("E:") { fnlines.push(json!({"fn": id, "start": open[id], "end": i + 1})); }
            else if let Some(id) = m.strip_prefix("C:") { let (f, n) = id.rsplit_once(':').unwrap(); clauses.push(json!({"fn": f, "clause": n.parse::<usize>().unwrap(), "line": i + 1})); }
            rest = &rest[e + 3..];
        }
    }
    fs::write(out_rs, &out).unwrap();
    let fns: Value = g.fns.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<serde_json::Map<_, _>>().into();
    fs::write(out_map, serde_json::to_string_pretty(&json!({"fns": fns, "lines": fnlines, "clauses": clauses, "missing": missing, "unknown": unknown, "notes": g.notes, "errors": errs, "all": g.all_fns, "files": g.files})).unwrap()).unwrap();
}
