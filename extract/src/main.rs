//! vx: extracts the functions of a crate, mechanically, into the subset of Rust that Verus accepts.
//!
//! usage: vx SRC_DIR FEATURES(comma separated, may be empty) ANCHORS OUT.rs REPORT.json
//!
//! ANCHORS: lines `FN<TAB>ANCHOR<TAB>HOOK` asking for a hook statement at a place of a function, and
//! lines `@spec<TAB>FN`, `@loops<TAB>FN`, `@closure<TAB>FN`, `@body<TAB>ITEM`, `@ghostparam<TAB>FN<TAB>NAME<TAB>TYPE`,
//! `@ghostarg<TAB>FN<TAB>CALLEE<TAB>EXPR`, `@external<TAB>FN`, `@drop<TAB>ITEM`, `@only<TAB>FILE or ITEM`.
mod anchors;
mod consts;
mod flatten;
mod inline;
mod norm;

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

#[derive(Default)]
pub struct Wants {
    pub hooks: BTreeMap<String, Vec<(String, String, Option<anchors::Place>)>>,
    pub specs: BTreeSet<String>,
    pub closures: BTreeSet<String>,
    pub bodies: BTreeSet<String>,
    pub ghostparams: BTreeMap<String, Vec<(String, String)>>,
    pub ghostargs: BTreeMap<String, Vec<(String, String)>>,
    pub external: BTreeSet<String>,
    pub drop: BTreeSet<String>,
    pub only: BTreeSet<String>,
}

#[derive(Default)]
pub struct Report {
    pub aliases: BTreeSet<String>,
    pub functions: Vec<String>,
    pub dropped: Vec<String>,
    pub rewrites: BTreeMap<String, u32>,
    pub missing: Vec<String>,
    pub inlined: Vec<String>,
    pub places: Vec<String>,
    pub unsupported: Vec<String>,
}

impl Report {
    pub fn rw(&mut self, what: &str) {
        *self.rewrites.entry(what.to_string()).or_default() += 1;
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 6 {
        eprintln!("usage: vx SRC FEATURES ANCHORS OUT REPORT");
        std::process::exit(2);
    }
    let features: BTreeSet<String> =
        args[2].split(',').filter(|s| !s.is_empty()).map(str::to_string).collect();
    let mut wants = Wants::default();
    for line in std::fs::read_to_string(&args[3]).unwrap().lines() {
        let f: Vec<&str> = line.split('\t').collect();
        match f[0] {
            "@spec" => { wants.specs.insert(f[1].into()); }
            "@closure" => { wants.closures.insert(f[1].into()); }
            "@body" => { wants.bodies.insert(f[1].into()); }
            "@external" => { wants.external.insert(f[1].into()); }
            "@drop" => { wants.drop.insert(f[1].into()); }
            "@only" => { wants.only.insert(f[1].into()); }
            "@ghostparam" => wants.ghostparams.entry(f[1].into()).or_default().push((f[2].into(), f[3].into())),
            "@ghostarg" => wants.ghostargs.entry(f[1].into()).or_default().push((f[2].into(), f[3].into())),
            "" => {}
            _ => wants.hooks.entry(f[0].into()).or_default().push((
                f[1].into(),
                f[2].into(),
                f.get(6).map(|_| anchors::Place {
                    text: f[3].into(),
                    ord: f[4].parse().unwrap_or(1),
                    depth: f[5].parse().unwrap_or(1),
                    rank: f[6].parse().unwrap_or(1),
                }),
            )),
        }
    }
    let mut report = Report::default();
    let items = match flatten::load(std::path::Path::new(&args[1]), &features, &mut report) {
        Ok(i) => i,
        Err(e) => {
            eprintln!("vx: {e}");
            std::process::exit(3);
        }
    };
    let items = norm::run(items, &wants, &mut report);
    let mut out = String::new();
    for it in &items {
        let file = syn::File { shebang: None, attrs: vec![], items: vec![it.item.clone()] };
        let text = prettyplease::unparse(&file);
        let _ = writeln!(out, "// @@item {}", it.origin);
        out.push_str(&text);
    }
    std::fs::write(&args[4], out).unwrap();
    let mut j = String::from("{");
    let _ = write!(j, "\"functions\":{},", list(&report.functions));
    let _ = write!(j, "\"dropped\":{},", list(&report.dropped));
    let _ = write!(j, "\"missing\":{},", list(&report.missing));
    let _ = write!(j, "\"inlined\":{},", list(&report.inlined));
    let _ = write!(j, "\"places\":{},", list(&report.places));
    let _ = write!(j, "\"unsupported\":{},", list(&report.unsupported));
    let rw: Vec<String> = report.rewrites.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    let _ = write!(j, "\"rewrites\":{{{}}}}}", rw.join(","));
    std::fs::write(&args[5], j).unwrap();
}
