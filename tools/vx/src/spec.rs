use crate::die;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Default, Debug)]
pub struct Source {
    pub path: String,
    pub only: BTreeSet<String>,
    pub skip: BTreeSet<String>,
    pub keep: BTreeSet<String>,
    /// identifiers renamed in this source only
    pub rename: Vec<(String, String)>,
    /// substitutions in this source only, before the general ones
    pub subst: Vec<(String, String)>,
}

#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub trusted: bool,
    pub text: String,
    pub ret: Option<String>,
    pub sig: Option<String>,
    pub attrs: Vec<String>,
    pub loops: BTreeMap<usize, String>,
    pub hints: Vec<(String, String)>,
    pub params: Vec<String>,
}

#[derive(Default, Debug)]
pub struct Spec {
    pub name: String,
    pub preludes: Vec<String>,
    pub postludes: Vec<String>,
    pub sources: Vec<Source>,
    pub features: BTreeSet<String>,
    pub fns: BTreeMap<String, FnSpec>,
    pub derives: BTreeMap<String, String>,
    pub attrs: BTreeMap<String, Vec<String>>,
    /// struct -> (field decl, init)
    pub fields: BTreeMap<String, (String, String)>,
    /// (impl type, callee name, arg)
    pub addargs: Vec<(String, String, String)>,
    pub extra_types: Vec<String>,
    pub subst: Vec<(String, String)>,
    /// constants: NAME or IMPL::NAME -> ensures clauses
    pub consts: BTreeMap<String, String>,
    /// trait impls kept as inherent impls
    pub inherent: BTreeSet<String>,
    /// impl or trait -> ghost members inserted
    pub implspec: BTreeMap<String, String>,
    /// items of the sources at the time the specifications were written: path -> names
    pub known: BTreeMap<String, BTreeSet<String>>,
    /// extension trait -> type its default methods become inherent methods of
    pub traitimpl: BTreeMap<String, String>,
    /// the specification text goes into a module of its own
    pub specmod: bool,
    /// the conversions num_enum derives are spelled out
    pub numenum: bool,
    /// receivers whose element access becomes vx_at/vx_set
    pub indexed: BTreeSet<String>,
    /// functions that need no contract
    pub plain: BTreeSet<String>,
}

impl Spec {
    pub fn load(path: &Path) -> Spec {
        let mut s = Spec::default();
        s.load_into(path);
        if let Ok(t) = std::fs::read_to_string(path.parent().unwrap().join("known_items.txt")) {
            for l in t.lines() {
                if let Some((p, n)) = l.split_once(": ") {
                    s.known.entry(p.to_string()).or_default().insert(n.to_string());
                }
            }
        }
        s
    }

    fn load_into(&mut self, path: &Path) {
        let dir = path.parent().unwrap().to_path_buf();
        let text = std::fs::read_to_string(path)
            .unwrap_or_else(|e| die(&format!("cannot read {}: {e}", path.display())));
        // group: column-0 directive + indented lines
        let mut groups: Vec<(String, String)> = vec![];
        for line in text.lines() {
            if line.starts_with("//") || line.starts_with('#') && !line.starts_with("#[") {
                continue;
            }
            if line.starts_with(' ') || line.starts_with('\t') || line.is_empty() {
                if let Some(g) = groups.last_mut() {
                    g.1.push_str(line);
                    g.1.push('\n');
                }
            } else {
                groups.push((line.to_string(), String::new()));
            }
        }
        for (d, body) in groups {
            let mut w = d.split_whitespace();
            let key = w.next().unwrap();
            let rest: Vec<&str> = w.collect();
            match key {
                "unit" => self.name = rest[0].to_string(),
                "include" => self.load_into(&dir.join(rest[0])),
                "shim" => {
                    let p = dir.join(rest[0]);
                    let t = std::fs::read_to_string(&p)
                        .unwrap_or_else(|e| die(&format!("cannot read {}: {e}", p.display())));
                    self.preludes.push(t);
                }
                "text" => self.preludes.push(body),
                "post" => self.postludes.push(body),
                "plain" => self.plain.extend(rest.iter().map(|s| s.to_string()).chain(body.split_whitespace().map(|s| s.to_string()))),
                "const" => {
                    self.consts.insert(rest[0].to_string(), body);
                }
                "types" => self.extra_types.push(body),
                "features" => self.features.extend(rest.iter().map(|s| s.to_string())),
                "source" => self.sources.push(Source { path: rest[0].to_string(), ..Default::default() }),
                "only" => {
                    let s = self.sources.last_mut().unwrap();
                    s.only.extend(rest.iter().map(|s| s.to_string()));
                    s.only.extend(body.split_whitespace().map(|s| s.to_string()));
                }
                "skip" => {
                    let s = self.sources.last_mut().unwrap();
                    s.skip.extend(rest.iter().map(|s| s.to_string()));
                    s.skip.extend(body.split_whitespace().map(|s| s.to_string()));
                }
                "keep" => {
                    let s = self.sources.last_mut().unwrap();
                    s.keep.insert(rest.join(" "));
                }
                "inherent" => {
                    self.inherent.insert(rest.join(" "));
                    let s = self.sources.last_mut().unwrap();
                    s.keep.insert(rest.join(" "));
                }
                "traitimpl" => {
                    self.traitimpl.insert(rest[0].to_string(), rest[1..].join(" "));
                    self.sources.last_mut().unwrap().only.insert(format!("={}", rest[0]));
                }
                "specmod" => self.specmod = true,
                "numenum" => self.numenum = true,
                "indexed" => self.indexed.extend(rest.iter().map(|s| s.to_string())),
                "rename" => self.sources.last_mut().unwrap().rename.push((rest[0].to_string(), rest[1].to_string())),
                "implspec" => {
                    self.implspec.insert(rest.join(" "), body);
                }
                "derive" => {
                    self.derives.insert(rest[0].to_string(), rest[1..].join(" "));
                }
                "attr" => self.attrs.entry(rest[0].to_string()).or_default().push(rest[1..].join(" ")),
                "field" => {
                    let d = rest[1..].join(" ");
                    let (decl, init) = d.split_once("=").unwrap_or_else(|| die("field DECL = INIT"));
                    self.fields.insert(rest[0].to_string(), (decl.trim().to_string(), init.trim().to_string()));
                }
                "addarg" => self.addargs.push((rest[0].to_string(), rest[1].to_string(), rest[2..].join(" "))),
                "srcsubst" => {
                    let d = rest.join(" ");
                    let (a, b) = d.split_once("=>").unwrap_or_else(|| die("srcsubst A => B"));
                    self.sources.last_mut().unwrap().subst.push((a.trim().to_string(), b.trim().to_string()));
                }
                "subst" => {
                    let d = rest.join(" ");
                    let (a, b) = d.split_once("=>").unwrap_or_else(|| die("subst A => B"));
                    self.subst.push((a.trim().to_string(), b.trim().to_string()));
                }
                "fn" => {
                    let f = self.fns.entry(rest[0].to_string()).or_default();
                    for r in &rest[1..] {
                        match *r {
                            "trusted" => f.trusted = true,
                            a => f.attrs.push(a.to_string()),
                        }
                    }
                    let mut t = String::new();
                    for l in body.lines() {
                        let lt = l.trim();
                        if let Some(x) = lt.strip_prefix("@ret ") {
                            f.ret = Some(x.to_string())
                        } else if let Some(x) = lt.strip_prefix("@sig ") {
                            f.sig = Some(x.to_string())
                        } else if let Some(x) = lt.strip_prefix("@param ") {
                            f.params.push(x.to_string())
                        } else if let Some(x) = lt.strip_prefix("@attr ") {
                            f.attrs.push(x.to_string())
                        } else {
                            t.push_str(l);
                            t.push('\n');
                        }
                    }
                    f.text.push_str(&t);
                }
                "loop" => {
                    let f = self.fns.entry(rest[0].to_string()).or_default();
                    f.loops.insert(rest[1].parse().unwrap(), body);
                }
                "hint" => {
                    let f = self.fns.entry(rest[0].to_string()).or_default();
                    f.hints.push((rest[1].to_string(), body));
                }
                other => die(&format!("{}: unknown directive {other}", path.display())),
            }
        }
    }
}
