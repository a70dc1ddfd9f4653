//! vx: extracts functions of /repo mechanically and weaves contracts into them for Verus.
//!
//! usage: vx UNIT.vu --repo /repo --out OUT.rs --report OUT.json
mod passes;
mod spec;

use passes::*;
use spec::*;
use std::collections::BTreeMap;
use std::path::Path;

pub fn die(msg: &str) -> ! {
    eprintln!("vx: {msg}");
    std::process::exit(3)
}

#[derive(Default)]
pub struct Report {
    pub fns: Vec<serde_json::Value>,
    pub edits: BTreeMap<String, usize>,
    pub skipped: Vec<String>,
    pub lost: Vec<String>,
    pub unspecified: Vec<String>,
    pub loops_without_invariant: Vec<String>,
    pub sources: Vec<String>,
    /// items spelled out from derives
    pub generated: String,
}

impl Report {
    pub fn count(&mut self, k: &str, n: usize) {
        if n > 0 {
            *self.edits.entry(k.to_string()).or_default() += n;
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut unit = None;
    let mut repo = "/repo".to_string();
    let mut out = "out.rs".to_string();
    let mut report_path = "out.json".to_string();
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--repo" => {
                i += 1;
                repo = args[i].clone()
            }
            "--out" => {
                i += 1;
                out = args[i].clone()
            }
            "--report" => {
                i += 1;
                report_path = args[i].clone()
            }
            a => unit = Some(a.to_string()),
        }
        i += 1;
    }
    if args.get(1).map(|a| a == "--list").unwrap_or(false) {
        // vx --list --repo R UNIT..: the items of every source of the units
        let mut all = std::collections::BTreeSet::new();
        for u in args[2..].iter().filter(|a| a.ends_with(".vu")) {
            for src in &Spec::load(Path::new(u)).sources {
                let t = std::fs::read_to_string(Path::new(&repo).join(&src.path)).unwrap_or_else(|e| die(&format!("{}: {e}", src.path)));
                let t = expand_macros(&t, &mut Report::default());
                all.extend(list_items(&t).into_iter().map(|n| format!("{}: {n}", src.path)));
            }
        }
        for l in all {
            println!("{l}");
        }
        return;
    }
    let unit = unit.unwrap_or_else(|| die("no unit"));
    let spec = Spec::load(Path::new(&unit));
    let mut rep = Report::default();
    let mut body = String::new();
    // first gather all texts so that type inference sees all sources
    let mut texts = vec![];
    for (si, src) in spec.sources.iter().enumerate() {
        let p = Path::new(&repo).join(&src.path);
        let text = std::fs::read_to_string(&p)
            .unwrap_or_else(|e| die(&format!("LOST source {}: {e}", p.display())));
        let text = expand_macros(&text, &mut rep);
        let text = select_items(&text, &spec, si, &mut rep);
        rep.sources.push(src.path.clone());
        texts.push(text);
    }
    let mut types = TypeInfo::default();
    for t in &texts {
        types.collect(&parse(t));
    }
    for t in &spec.extra_types {
        types.collect(&parse(t));
    }
    let mut all_fns: Vec<String> = vec![];
    for (si, t) in texts.iter().enumerate() {
        let t = run_passes(t.clone(), &spec, &types, &mut rep);
        let (t, names) = weave(&t, &spec, &spec.sources[si].path, &mut rep);
        all_fns.extend(names);
        body.push_str(&format!("\n// ===== extracted from {} =====\n", spec.sources[si].path));
        body.push_str(&t);
    }
    for f in spec.fns.keys() {
        if !all_fns.contains(f) {
            rep.lost.push(format!("fn {f}"));
        }
    }
    for c in spec.consts.keys() {
        if !all_fns.contains(c) {
            rep.lost.push(format!("const {c}"));
        }
    }
    for c in spec.implspec.keys() {
        if !all_fns.contains(c) {
            rep.lost.push(format!("{c}"));
        }
    }
    let mut outtext = String::new();
    outtext.push_str("#![allow(unused_imports, unused_variables, dead_code, unused_mut, unreachable_code, unused_parens, unused_braces, unused_assignments, non_snake_case, unused_must_use, irrefutable_let_patterns)]\n");
    outtext.push_str("use vstd::prelude::*;\n");
    outtext.push_str("verus! {\n");
    if spec.specmod {
        outtext.push_str("pub mod vx_spec {\nuse super::*;\n");
    }
    for s in &spec.preludes {
        outtext.push_str(s);
        outtext.push('\n');
    }
    if spec.specmod {
        outtext.push_str("}\npub use vx_spec::*;\n");
    }
    outtext.push_str(&body);
    if !rep.generated.is_empty() {
        outtext.push_str(&format!("pub mod vx_gen {{\nuse super::*;\n{}}}\n", rep.generated));
    }
    for s in &spec.postludes {
        outtext.push_str(s);
        outtext.push('\n');
    }
    // a module has one `broadcast use`
    let mut groups = vec![];
    let mut lines = vec![];
    for l in outtext.lines() {
        match (l.starts_with("broadcast use ") || l.starts_with("    broadcast use ")).then(|| l.trim().strip_prefix("broadcast use ").and_then(|x| x.strip_suffix(';'))) {
            Some(Some(x)) => groups.push(x.trim_matches(|c| c == '{' || c == '}').to_string()),
            _ => lines.push(l),
        }
    }
    let mut outtext = lines.join("\n");
    if !groups.is_empty() {
        outtext.push_str(&format!("\nbroadcast use {{{}}};\n", groups.join(", ")));
    }
    outtext.push_str("\n} // verus!\nfn main() {}\n");
    std::fs::write(&out, outtext).unwrap_or_else(|e| die(&format!("{e}")));
    // every assumed contract of the shims
    let mut shim_trusted = vec![];
    for s in &spec.preludes {
        let mut ctx = String::new();
        let mut pending = false;
        for l in s.lines() {
            let t = l.trim();
            if t.starts_with("impl") {
                ctx = t.trim_end_matches('{').trim().to_string();
            } else if l.starts_with("pub fn") || l.starts_with('}') {
                ctx.clear();
            }
            if t.contains("external_body") {
                pending = true;
            }
            if pending {
                if let Some(x) = t.find("fn ") {
                    let n: String = t[x + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                    shim_trusted.push(if ctx.is_empty() { n } else { format!("{ctx}: {n}") });
                    pending = false;
                }
            }
        }
    }
    let j = serde_json::json!({
        "shim_trusted": shim_trusted,
        "unit": spec.name, "sources": rep.sources, "functions": rep.fns, "edits": rep.edits,
        "skipped": rep.skipped, "lost": rep.lost, "unspecified": rep.unspecified,
        "loops_without_invariant": rep.loops_without_invariant,
    });
    std::fs::write(&report_path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}
