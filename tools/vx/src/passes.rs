use crate::spec::*;
use crate::{die, Report};
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::Parser;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub type Edit = (usize, usize, String);

pub fn parse(text: &str) -> syn::File {
    syn::parse_file(text).unwrap_or_else(|e| {
        let lc = e.span().start();
        let l = text.lines().nth(lc.line.saturating_sub(1)).unwrap_or("");
        die(&format!("UNSUPPORTED parse error: {e} at {}:{}: {l}", lc.line, lc.column))
    })
}

fn rng<T: ToTokens>(t: &T) -> (usize, usize) {
    // span of first..last token
    let ts = t.to_token_stream();
    ts_range(&ts).unwrap_or((0, 0))
}

fn ts_range(ts: &TokenStream) -> Option<(usize, usize)> {
    let mut it = ts.clone().into_iter();
    let first = it.next()?;
    let mut a = tt_range(&first).0;
    let mut b = tt_range(&first).1;
    for t in it {
        let r = tt_range(&t);
        if r.1 > b {
            b = r.1;
        }
        if r.0 < a && r.1 != 0 {
            a = r.0;
        }
    }
    Some((a, b))
}

fn tt_range(t: &TokenTree) -> (usize, usize) {
    let r = match t {
        TokenTree::Group(g) if g.delimiter() == Delimiter::None => {
            return ts_range(&g.stream()).unwrap_or((0, 0))
        }
        TokenTree::Group(g) => {
            let a = g.span_open().byte_range();
            let b = g.span_close().byte_range();
            return (a.start, b.end);
        }
        t => t.span().byte_range(),
    };
    (r.start, r.end)
}

pub fn apply(text: &str, mut edits: Vec<Edit>) -> String {
    edits.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));
    let mut out = String::new();
    let mut pos = 0;
    for (s, e, r) in edits {
        if s < pos {
            continue; // nested in an earlier edit; handled in the next round
        }
        out.push_str(&text[pos..s]);
        out.push_str(&r);
        pos = e;
    }
    out.push_str(&text[pos..]);
    out
}

// ---------------------------------------------------------------- macros

struct Arm {
    pat: Vec<TokenTree>,
    body: proc_macro2::Group,
}

pub fn expand_macros(text: &str, rep: &mut Report) -> String {
    let mut text = text.to_string();
    {
        // pin_project! { struct .. } is the struct itself
        let file = parse(&text);
        let mut edits = vec![];
        for it in &file.items {
            if let syn::Item::Macro(m) = it {
                if m.ident.is_none() && m.mac.path.segments.last().map(|s| s.ident == "pin_project").unwrap_or(false) {
                    if let Some(inner) = ts_range(&m.mac.tokens) {
                        let r = rng(m);
                        edits.push((r.0, r.1, text[inner.0..inner.1].to_string()));
                    }
                }
            }
        }
        rep.count("pin_project! removed", edits.len());
        text = apply(&text, edits);
    }
    for _ in 0..40 {
        let file = parse(&text);
        let mut macros: BTreeMap<String, Vec<Arm>> = BTreeMap::new();
        let mut def_ranges = vec![];
        for it in &file.items {
            if let syn::Item::Macro(m) = it {
                if let Some(id) = &m.ident {
                    macros.insert(id.to_string(), parse_arms(m.mac.tokens.clone()));
                    let mut r = rng(m);
                    // attributes are included in tokens
                    if let Some(s) = &m.semi_token {
                        r.1 = s.span().byte_range().end;
                    }
                    def_ranges.push(r);
                }
            }
        }
        if macros.is_empty() {
            return text;
        }
        let ts: TokenStream = text.parse().unwrap();
        let mut edits = vec![];
        find_invocations(&text, ts, &macros, &def_ranges, &mut edits);
        if edits.is_empty() {
            // drop the definitions
            let ed = def_ranges.iter().map(|r| (r.0, r.1, String::new())).collect();
            return apply(&text, ed);
        }
        rep.count("macro_rules expansion", edits.len());
        text = apply(&text, edits);
    }
    die("UNSUPPORTED macro expansion does not terminate")
}

fn parse_arms(ts: TokenStream) -> Vec<Arm> {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut arms = vec![];
    let mut i = 0;
    while i < toks.len() {
        let TokenTree::Group(p) = &toks[i] else { break };
        // => is two puncts
        let TokenTree::Group(b) = &toks[i + 3] else { break };
        arms.push(Arm { pat: p.stream().into_iter().collect(), body: b.clone() });
        i += 4;
        if i < toks.len() {
            i += 1; // ;
        }
    }
    arms
}

fn find_invocations(
    text: &str,
    ts: TokenStream,
    macros: &BTreeMap<String, Vec<Arm>>,
    defs: &[(usize, usize)],
    edits: &mut Vec<Edit>,
) {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < toks.len() {
        let r = tt_range(&toks[i]);
        if defs.iter().any(|d| d.0 <= r.0 && r.1 <= d.1) {
            i += 1;
            continue;
        }
        if let (TokenTree::Ident(id), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) =
            (&toks[i], toks.get(i + 1), toks.get(i + 2))
        {
            if p.as_char() == '!' {
                if let Some(arms) = macros.get(&id.to_string()) {
                    if let Some(t) = expand_one(text, arms, g) {
                        edits.push((r.0, tt_range(&toks[i + 2]).1, t));
                        i += 3;
                        continue;
                    }
                }
            }
        }
        if let TokenTree::Group(g) = &toks[i] {
            find_invocations(text, g.stream(), macros, defs, edits);
        }
        i += 1;
    }
}

fn expand_one(text: &str, arms: &[Arm], g: &proc_macro2::Group) -> Option<String> {
    let args: Vec<TokenTree> = g.stream().into_iter().collect();
    for arm in arms {
        if let Some(b) = match_arm(text, &arm.pat, &args) {
            let open = arm.body.span_open().byte_range().end;
            let close = arm.body.span_close().byte_range().start;
            let mut edits = vec![];
            subst_body(arm.body.stream(), &b, &mut edits)?;
            let edits = edits.into_iter().map(|(s, e, t)| (s - open, e - open, t)).collect();
            return Some(apply(&text[open..close], edits).trim().to_string());
        }
    }
    None
}

fn subst_body(ts: TokenStream, b: &BTreeMap<String, String>, edits: &mut Vec<Edit>) -> Option<()> {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(id)) = toks.get(i + 1) {
                    let v = b.get(&id.to_string())?;
                    edits.push((tt_range(&toks[i]).0, tt_range(&toks[i + 1]).1, v.clone()));
                    i += 2;
                    continue;
                }
                return None;
            }
            TokenTree::Group(g) => subst_body(g.stream(), b, edits)?,
            _ => {}
        }
        i += 1;
    }
    Some(())
}

fn match_arm(text: &str, pat: &[TokenTree], args: &[TokenTree]) -> Option<BTreeMap<String, String>> {
    let mut b = BTreeMap::new();
    let mut pi = 0;
    let mut ai = 0;
    while pi < pat.len() {
        match &pat[pi] {
            TokenTree::Punct(p) if p.as_char() == '$' => match pat.get(pi + 1)? {
                TokenTree::Ident(name) => {
                    let TokenTree::Ident(frag) = pat.get(pi + 3)? else { return None };
                    let rest: TokenStream = args[ai..].iter().cloned().collect();
                    let n = match frag.to_string().as_str() {
                        "expr" => {
                            let p = |input: syn::parse::ParseStream| -> syn::Result<(syn::Expr, usize)> {
                                let e: syn::Expr = input.parse()?;
                                let r: TokenStream = input.parse()?;
                                Ok((e, r.into_iter().count()))
                            };
                            let (_, rest_n) = Parser::parse2(p, rest).ok()?;
                            args.len() - ai - rest_n
                        }
                        "ident" | "tt" => 1,
                        "ty" => {
                            let p = |input: syn::parse::ParseStream| -> syn::Result<usize> {
                                let _: syn::Type = input.parse()?;
                                let r: TokenStream = input.parse()?;
                                Ok(r.into_iter().count())
                            };
                            args.len() - ai - Parser::parse2(p, rest).ok()?
                        }
                        _ => return None,
                    };
                    if n == 0 || ai + n > args.len() {
                        return None;
                    }
                    let s = tt_range(&args[ai]).0;
                    let e = tt_range(&args[ai + n - 1]).1;
                    b.insert(name.to_string(), text[s..e].to_string());
                    ai += n;
                    pi += 4;
                }
                TokenTree::Group(g) => {
                    // $(,)? only
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if inner.len() != 1 {
                        return None;
                    }
                    if let Some(t) = args.get(ai) {
                        if t.to_string() == inner[0].to_string() {
                            ai += 1;
                        }
                    }
                    pi += 3;
                }
                _ => return None,
            },
            lit => {
                let a = args.get(ai)?;
                if a.to_string() != lit.to_string() {
                    return None;
                }
                ai += 1;
                pi += 1;
            }
        }
    }
    (ai == args.len()).then_some(b)
}

// ---------------------------------------------------------------- item selection, cfg, attributes

fn cfg_eval(m: &syn::Meta, f: &BTreeSet<String>) -> bool {
    match m {
        syn::Meta::Path(p) => {
            let n = p.to_token_stream().to_string();
            f.contains(&format!("cfg:{n}"))
                || (n == "debug_assertions")
        }
        syn::Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                if let syn::Expr::Lit(l) = &nv.value {
                    if let syn::Lit::Str(s) = &l.lit {
                        return f.contains(&s.value());
                    }
                }
            }
            false
        }
        syn::Meta::List(l) => {
            let ms = l
                .parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated)
                .unwrap_or_default();
            if l.path.is_ident("not") {
                !ms.iter().any(|m| cfg_eval(m, f))
            } else if l.path.is_ident("all") {
                ms.iter().all(|m| cfg_eval(m, f))
            } else {
                ms.iter().any(|m| cfg_eval(m, f))
            }
        }
    }
}

fn cfg_off(attrs: &[syn::Attribute], f: &BTreeSet<String>) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg")
            && match a.parse_args::<syn::Meta>() {
                Ok(m) => !cfg_eval(&m, f),
                Err(_) => false,
            }
    })
}

struct CfgV<'a> {
    text: &'a str,
    f: &'a BTreeSet<String>,
    edits: Vec<Edit>,
}

impl CfgV<'_> {
    fn del(&mut self, r: (usize, usize)) {
        let mut e = r.1;
        let rest = &self.text[e..];
        let t = rest.trim_start();
        if t.starts_with(',') {
            e += rest.len() - t.len() + 1;
        }
        self.edits.push((r.0, e, String::new()));
    }
}

impl<'a> Visit<'a> for CfgV<'_> {
    fn visit_attribute(&mut self, a: &'a syn::Attribute) {
        let r = rng(a);
        self.edits.push((r.0, r.1, String::new()));
    }
    fn visit_item(&mut self, i: &'a syn::Item) {
        if cfg_off(item_attrs(i), self.f) {
            self.del(rng(i));
        } else {
            visit::visit_item(self, i)
        }
    }
    fn visit_impl_item_fn(&mut self, i: &'a syn::ImplItemFn) {
        if cfg_off(&i.attrs, self.f) {
            self.del(rng(i));
        } else {
            visit::visit_impl_item_fn(self, i)
        }
    }
    fn visit_field(&mut self, i: &'a syn::Field) {
        if cfg_off(&i.attrs, self.f) {
            self.del(rng(i));
        } else {
            visit::visit_field(self, i)
        }
    }
    fn visit_variant(&mut self, i: &'a syn::Variant) {
        if cfg_off(&i.attrs, self.f) {
            self.del(rng(i));
        } else {
            visit::visit_variant(self, i)
        }
    }
    fn visit_field_value(&mut self, i: &'a syn::FieldValue) {
        if cfg_off(&i.attrs, self.f) {
            self.del(rng(i));
        } else {
            visit::visit_field_value(self, i)
        }
    }
    fn visit_arm(&mut self, i: &'a syn::Arm) {
        if cfg_off(&i.attrs, self.f) {
            self.del(rng(i));
        } else {
            visit::visit_arm(self, i)
        }
    }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        let off = match s {
            syn::Stmt::Local(l) => cfg_off(&l.attrs, self.f),
            syn::Stmt::Expr(e, _) => cfg_off(expr_attrs(e), self.f),
            syn::Stmt::Macro(m) => cfg_off(&m.attrs, self.f),
            syn::Stmt::Item(i) => cfg_off(item_attrs(i), self.f),
        };
        if off {
            self.del(rng(s));
        } else {
            visit::visit_stmt(self, s)
        }
    }
}

fn expr_attrs(e: &syn::Expr) -> &[syn::Attribute] {
    match e {
        syn::Expr::Block(b) => &b.attrs,
        syn::Expr::Call(b) => &b.attrs,
        syn::Expr::MethodCall(b) => &b.attrs,
        syn::Expr::Assign(b) => &b.attrs,
        syn::Expr::If(b) => &b.attrs,
        syn::Expr::Match(b) => &b.attrs,
        syn::Expr::Macro(b) => &b.attrs,
        syn::Expr::ForLoop(b) => &b.attrs,
        syn::Expr::Return(b) => &b.attrs,
        _ => &[],
    }
}

pub fn item_attrs(i: &syn::Item) -> &[syn::Attribute] {
    match i {
        syn::Item::Const(x) => &x.attrs,
        syn::Item::Enum(x) => &x.attrs,
        syn::Item::Fn(x) => &x.attrs,
        syn::Item::Impl(x) => &x.attrs,
        syn::Item::Macro(x) => &x.attrs,
        syn::Item::Mod(x) => &x.attrs,
        syn::Item::Static(x) => &x.attrs,
        syn::Item::Struct(x) => &x.attrs,
        syn::Item::Trait(x) => &x.attrs,
        syn::Item::Type(x) => &x.attrs,
        syn::Item::Use(x) => &x.attrs,
        _ => &[],
    }
}

fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => ty_name(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}

fn full_ty(t: &syn::Type) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

pub fn item_name(i: &syn::Item) -> String {
    match i {
        syn::Item::Const(x) => x.ident.to_string(),
        syn::Item::Enum(x) => x.ident.to_string(),
        syn::Item::Fn(x) => x.sig.ident.to_string(),
        syn::Item::Struct(x) => x.ident.to_string(),
        syn::Item::Type(x) => x.ident.to_string(),
        syn::Item::Static(x) => x.ident.to_string(),
        syn::Item::Trait(x) => x.ident.to_string(),
        syn::Item::Impl(x) => match &x.trait_ {
            Some((_, p, _)) => format!(
                "impl {} for {}",
                p.to_token_stream().to_string().replace(' ', ""),
                full_ty(&x.self_ty)
            ),
            None => ty_name(&x.self_ty),
        },
        _ => String::new(),
    }
}

/// names of all constants, functions, types and methods of a file
pub fn list_items(text: &str) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for it in &parse(text).items {
        match it {
            syn::Item::Impl(x) if x.trait_.is_none() => {
                let n = ty_name(&x.self_ty);
                for ii in &x.items {
                    match ii {
                        syn::ImplItem::Fn(f) => out.insert(format!("{n}::{}", f.sig.ident)),
                        syn::ImplItem::Const(c) => out.insert(format!("{n}::{}", c.ident)),
                        _ => false,
                    };
                }
            }
            _ => {
                let n = item_name(it);
                if !n.is_empty() {
                    out.insert(n);
                }
            }
        }
    }
    out
}

pub fn select_items(text: &str, spec: &Spec, si: usize, rep: &mut Report) -> String {
    let src = &spec.sources[si];
    let file = parse(text);
    let mut out = String::new();
    let ftext = text;
    let mut v = CfgV { text: ftext, f: &spec.features, edits: vec![] };
    v.visit_file(&file);
    // delete unselected items, keep the rest
    let mut dels: Vec<(usize, usize)> = vec![];
    let mut heads: Vec<Edit> = vec![];
    let mut gen = String::new();
    for it in &file.items {
        if cfg_off(item_attrs(it), &spec.features) {
            continue;
        }
        let name = item_name(it);
        let selectable = matches!(
            it,
            syn::Item::Const(_) | syn::Item::Enum(_) | syn::Item::Fn(_) | syn::Item::Struct(_) | syn::Item::Type(_) | syn::Item::Impl(_)
        ) || matches!(it, syn::Item::Trait(_)) && src.only.contains(&format!("={name}"));
        let is_trait_impl = matches!(it, syn::Item::Impl(x) if x.trait_.is_some());
        let key = |n: &str| n.to_string();
        let mut sel = selectable && !src.skip.contains(&name) && (src.only.is_empty() || src.only.contains(&key(&name)) || src.only.contains(&format!("={name}")) || matches!(it, syn::Item::Impl(_)));
        if is_trait_impl {
            let squeeze = |n: &str| n.replace(' ', "");
            sel = src.keep.iter().any(|k| squeeze(k) == squeeze(&name));
        }
        // helpers added since the specification was written
        let fresh = |n: &str| spec.known.get(&src.path).map(|k| !k.contains(n)).unwrap_or(false) && !src.skip.contains(n);
        if selectable && !is_trait_impl && !sel && matches!(it, syn::Item::Const(_) | syn::Item::Fn(_) | syn::Item::Enum(_) | syn::Item::Struct(_)) && fresh(&name) {
            sel = true;
        }
        if sel && spec.numenum {
            if let syn::Item::Enum(e) = it {
                gen.push_str(&numenum(e, rep));
            }
        }
        if let (true, syn::Item::Trait(x)) = (sel, it) {
            if let Some(t) = spec.traitimpl.get(&name) {
                rep.count("extension trait with default methods -> inherent methods", 1);
                let from = rng(it).0.max(item_attrs(it).iter().map(|a| rng(a).1).max().unwrap_or(0));
                heads.push((from, x.brace_token.span.open().byte_range().start, format!("\nimpl {t} ")));
            }
            for ii in &x.items {
                if let syn::TraitItem::Fn(f) = ii {
                    if src.skip.contains(&format!("{name}::{}", f.sig.ident)) {
                        rep.skipped.push(format!("{}: {name}::{}", src.path, f.sig.ident));
                        dels.push(rng(ii));
                    }
                }
            }
        }
        if !sel {
            if selectable {
                rep.skipped.push(format!("{}: {}", src.path, name));
            }
            dels.push(rng(it));
            continue;
        }
        if let syn::Item::Impl(x) = it {
            let iname = ty_name(&x.self_ty);
            let mut kept = 0;
            let mut idels = vec![];
            for ii in &x.items {
                let n = match ii {
                    syn::ImplItem::Fn(f) => {
                        if cfg_off(&f.attrs, &spec.features) {
                            continue;
                        }
                        f.sig.ident.to_string()
                    }
                    syn::ImplItem::Const(c) => c.ident.to_string(),
                    _ => continue,
                };
                let q = format!("{iname}::{n}");
                if is_trait_impl {
                    if src.skip.contains(&q) {
                        rep.skipped.push(format!("{}: {q}", src.path));
                        idels.push(rng(ii));
                    } else {
                        kept += 1;
                    }
                    continue;
                }
                let only_ok = src.only.is_empty()
                    || src.only.contains(&q)
                    || (src.only.contains(&iname) && !src.only.iter().any(|o| o.starts_with(&format!("{iname}::"))))
                    || (src.only.iter().any(|o| o == &iname || o.starts_with(&format!("{iname}::"))) && fresh(&q));
                if src.skip.contains(&q) || src.skip.contains(&iname) || !only_ok {
                    rep.skipped.push(format!("{}: {q}", src.path));
                    idels.push(rng(ii));
                } else {
                    kept += 1;
                }
            }
            if kept == 0 && !(is_trait_impl && !x.items.iter().any(|i| matches!(i, syn::ImplItem::Fn(_)))) {
                dels.push(rng(it));
            } else {
                dels.extend(idels);
            }
        }
    }
    // attributes belonging to kept items are removed by CfgV; doc comments are attributes as well
    let mut edits: Vec<Edit> = dels.iter().map(|d| (d.0, d.1, String::new())).collect();
    for e in v.edits {
        if !dels.iter().any(|d| d.0 <= e.0 && e.1 <= d.1) {
            edits.push(e);
        }
    }
    for h in heads {
        edits.retain(|e| !(h.0 <= e.0 && e.1 <= h.1));
        edits.push(h);
    }
    out.push_str(&apply(ftext, edits));
    for (a, b) in &src.rename {
        let t = rename_ident(&out, a, b);
        rep.count(&format!("identifier {a} -> {b} in {}", src.path), 1);
        out = t;
        gen = rename_ident(&gen, a, b);
    }
    rep.generated.push_str(&gen);
    // uuid literals
    while let Some(i) = out.find("uuid!(\"") {
        let j = i + 7;
        let Some(k) = out[j..].find("\")") else { break };
        let hex: String = out[j..j + k].chars().filter(|c| *c != '-').collect();
        if hex.len() != 32 || !hex.chars().all(|c| c.is_ascii_hexdigit()) {
            break;
        }
        out.replace_range(i..j + k + 2, &format!("Uuid {{ n: 0x{hex}u128 }}"));
        rep.count("uuid literals", 1);
    }
    for (a, b) in src.subst.iter().chain(&spec.subst) {
        let m = find_loose(&out, a);
        rep.count(&format!("textual substitution `{a}` => `{b}`"), m.len());
        out = apply(&out, m.into_iter().map(|(s, e)| (s, e, b.clone())).collect());
    }
    out
}

/// occurrences of `pat` in `text`, however the text is broken into lines
fn find_loose(text: &str, pat: &str) -> Vec<(usize, usize)> {
    let (t, p) = (text.as_bytes(), pat.as_bytes());
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let at = |mut i: usize| -> Option<usize> {
        let mut j = 0;
        while j < p.len() {
            if p[j].is_ascii_whitespace() {
                let both = j > 0 && word(p[j - 1]) && p.get(j + 1).is_some_and(|c| word(*c));
                let i0 = i;
                while i < t.len() && t[i].is_ascii_whitespace() {
                    i += 1;
                }
                if both && i == i0 {
                    return None;
                }
                j += 1;
                continue;
            }
            if j > 0 && !(word(p[j - 1]) && word(p[j])) {
                while i < t.len() && t[i].is_ascii_whitespace() {
                    i += 1;
                }
            }
            if i >= t.len() || t[i] != p[j] {
                return None;
            }
            i += 1;
            j += 1;
        }
        Some(i)
    };
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        match if t[i] == p[0] { at(i) } else { None } {
            Some(e) => {
                out.push((i, e));
                i = e;
            }
            None => i += 1,
        }
    }
    out
}

fn rename_ident(text: &str, a: &str, b: &str) -> String {
    fn walk(ts: TokenStream, a: &str, out: &mut Vec<(usize, usize)>) {
        for t in ts {
            match t {
                TokenTree::Ident(i) if i == a => {
                    let r = i.span().byte_range();
                    out.push((r.start, r.end))
                }
                TokenTree::Group(g) => walk(g.stream(), a, out),
                _ => {}
            }
        }
    }
    let mut v = vec![];
    walk(text.parse().unwrap_or_else(|e| crate::die(&format!("{e}"))), a, &mut v);
    apply(text, v.into_iter().map(|(x, y)| (x, y, b.to_string())).collect())
}

/// the conversions num_enum derives, from the discriminants in the source
fn numenum(e: &syn::ItemEnum, rep: &mut Report) -> String {
    let derives = e.attrs.iter().any(|a| a.path().is_ident("derive") && {
        let t = a.to_token_stream().to_string();
        t.contains("IntoPrimitive") || t.contains("TryFromPrimitive")
    });
    if !derives {
        return String::new();
    }
    if e.variants.iter().any(|v| !v.fields.is_empty() || v.attrs.iter().any(|a| a.path().is_ident("num_enum"))) {
        crate::die(&format!("UNSUPPORTED num_enum enum {}", e.ident));
    }
    rep.count("num_enum conversions spelled out", 1);
    let n = &e.ident;
    let mut next = 0u64;
    let (mut of, mut to, mut ex) = (String::new(), String::new(), String::new());
    for v in &e.variants {
        if let Some((_, syn::Expr::Lit(l))) = &v.discriminant {
            if let syn::Lit::Int(i) = &l.lit {
                next = i.base10_parse().unwrap_or_else(|_| crate::die("UNSUPPORTED discriminant"));
            }
        } else if v.discriminant.is_some() {
            crate::die("UNSUPPORTED discriminant");
        }
        let id = &v.ident;
        of.push_str(&format!("if b == {next} {{ Some({n}::{id}) }} else "));
        ex.push_str(&format!("if b == {next} {{ Ok({n}::{id}) }} else "));
        to.push_str(&format!("{n}::{id} => {next},"));
        next += 1;
    }
    if e.attrs.iter().any(|a| a.path().is_ident("repr") && a.to_token_stream().to_string().contains("u32")) {
        return format!(
            "\nimpl VxInto32 for {n} {{\n    open spec fn vx_id(self) -> u32 {{ match self {{ {to} }} }}\n    fn vx_into32(self) -> (r: u32) {{ match self {{ {to} }} }}\n}}\n"
        );
    }
    format!(
        "\nimpl VxDisc for {n} {{\n    open spec fn vx_of(b: u8) -> Option<Self> {{ {of}{{ None }} }}\n    open spec fn vx_to(self) -> u8 {{ match self {{ {to} }} }}\n    fn vx_disc(self) -> (r: u8) {{ match self {{ {to} }} }}\n    fn vx_try(b: u8) -> (r: Result<Self, VxErr>) {{ {ex}{{ Err(VxErr) }} }}\n    proof fn vx_inv(self) {{ }}\n}}\n"
    )
}

// ---------------------------------------------------------------- type information

#[derive(Default)]
pub struct TypeInfo {
    pub rets: BTreeMap<String, String>,
    pub fields: BTreeMap<String, String>,
    /// self type of the impl being visited
    pub cur: std::cell::RefCell<String>,
    /// parameters of the function being visited
    pub params: std::cell::RefCell<BTreeMap<String, String>>,
}

fn outer(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::ImplTrait(_) => "VxIter".into(),
        syn::Type::Reference(r) => outer(&r.elem),
        _ => String::new(),
    }
}

impl TypeInfo {
    pub fn collect(&mut self, f: &syn::File) {
        struct V<'a>(&'a mut TypeInfo);
        impl<'a> Visit<'a> for V<'_> {
            fn visit_item_impl(&mut self, x: &'a syn::ItemImpl) {
                let n = ty_name(&x.self_ty);
                for ii in &x.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if let syn::ReturnType::Type(_, t) = &f.sig.output {
                            self.0.rets.insert(format!("{n}::{}", f.sig.ident), outer(t));
                        }
                    }
                }
                visit::visit_item_impl(self, x);
            }
            fn visit_signature(&mut self, s: &'a syn::Signature) {
                if let syn::ReturnType::Type(_, t) = &s.output {
                    let o = outer(t);
                    let e = self.0.rets.entry(s.ident.to_string()).or_insert(o.clone());
                    if *e != o {
                        *e = "?".into();
                    }
                }
            }
            fn visit_item_struct(&mut self, x: &'a syn::ItemStruct) {
                for f in &x.fields {
                    if let Some(i) = &f.ident {
                        self.0.fields.insert(format!("{}::{i}", x.ident), outer(&f.ty));
                    }
                }
                visit::visit_item_struct(self, x);
            }
            fn visit_field(&mut self, f: &'a syn::Field) {
                if let Some(i) = &f.ident {
                    let o = outer(&f.ty);
                    let e = self.0.fields.entry(i.to_string()).or_insert(o.clone());
                    if *e != o {
                        *e = "?".into();
                    }
                }
            }
        }
        V(self).visit_file(f);
    }

    /// the outermost type name of an expression, where self, fields and methods give it away
    fn tyname(&self, e: &syn::Expr) -> Option<String> {
        match e {
            syn::Expr::Paren(p) => self.tyname(&p.expr),
            syn::Expr::Path(p) if p.path.is_ident("self") => Some(self.cur.borrow().clone()),
            syn::Expr::Path(p) => p.path.get_ident().and_then(|i| self.params.borrow().get(&i.to_string()).cloned()),
            syn::Expr::Field(f) => match &f.member {
                syn::Member::Named(n) => self.fields.get(&format!("{}::{n}", self.tyname(&f.base)?)).cloned(),
                _ => None,
            },
            syn::Expr::MethodCall(m) => self.rets.get(&format!("{}::{}", self.tyname(&m.receiver)?, m.method)).cloned(),
            _ => None,
        }
    }

    fn kind(&self, e: &syn::Expr) -> Kind {
        fn of(s: &str) -> Kind {
            match s {
                "Option" => Kind::Opt,
                "Result" => Kind::Res,
                "Poll" => Kind::Poll,
                "VxIter" => Kind::Iter,
                _ => Kind::Unknown,
            }
        }
        match self.tyname(e).map(|t| of(&t)) {
            Some(Kind::Unknown) | None => {}
            Some(k) => return k,
        }
        match e {
            syn::Expr::Paren(p) => self.kind(&p.expr),
            syn::Expr::Group(p) => self.kind(&p.expr),
            syn::Expr::Field(f) => match &f.member {
                syn::Member::Named(n) => of(self.fields.get(&n.to_string()).map(|s| s.as_str()).unwrap_or("")),
                _ => Kind::Unknown,
            },
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    return match n.as_str() {
                        "Some" => Kind::Opt,
                        "Ok" | "Err" => Kind::Res,
                        n if p.path.segments.len() >= 2 && self.rets.contains_key(&format!("{}::{n}", p.path.segments[p.path.segments.len() - 2].ident)) => {
                            of(&self.rets[&format!("{}::{n}", p.path.segments[p.path.segments.len() - 2].ident)])
                        }
                        n => of(self.rets.get(n).map(|s| s.as_str()).unwrap_or("")),
                    };
                }
                Kind::Unknown
            }
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "copied" | "cloned" | "map" | "and_then" | "filter" | "as_ref" | "as_mut" => self.kind(&m.receiver),
                    "map_err" => match self.kind(&m.receiver) {
                        Kind::Poll => Kind::Poll,
                        _ => Kind::Res,
                    },
                    "ok" | "checked_add" | "checked_sub" | "checked_mul" | "next" | "first" | "last" => Kind::Opt,
                    "filter_map" | "flat_map" | "iter" | "keys" | "values" | "into_iter" | "values_mut" | "drain" => Kind::Iter,
                    "unbounded_send" => Kind::Res,
                    n => {
                        if let Some(r) = self.rets.get(n) {
                            if r != "?" {
                                return of(r);
                            }
                        }
                        match n {
                            "get" | "get_mut" | "take" | "pop" | "pop_front" | "remove" => Kind::Opt,
                            "try_into" | "deserialize" => Kind::Res,
                            n if n.starts_with("try_") => Kind::Res,
                            _ => Kind::Unknown,
                        }
                    }
                }
            }
            syn::Expr::Match(m) => {
                let a = m.arms.first().map(|a| a.pat.to_token_stream().to_string()).unwrap_or_default();
                let b = m.arms.first().map(|a| a.body.to_token_stream().to_string()).unwrap_or_default();
                if a.starts_with("Some") && (b.starts_with("Some") || b.starts_with("{")) {
                    Kind::Opt
                } else if a.starts_with("Ok") {
                    Kind::Res
                } else {
                    Kind::Unknown
                }
            }
            _ => Kind::Unknown,
        }
    }
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Kind {
    Opt,
    Res,
    Poll,
    Iter,
    Unknown,
}

// ---------------------------------------------------------------- rewriting passes

type Pass = fn(&str, &Spec, &TypeInfo) -> Vec<Edit>;

pub fn run_passes(mut text: String, spec: &Spec, types: &TypeInfo, rep: &mut Report) -> String {
    let passes: [(&str, Pass); 17] = [
        ("mut self -> local variable", pass_mutself),
        ("? in a function returning Poll -> match", pass_polltry),
        ("trait impl kept as inherent impl", pass_inherent),
        ("pin projection inlined", pass_pin),
        ("range index -> vx_to/vx_from", pass_range),
        ("constant inside a function -> let", pass_localconst),
        ("break with value in a tail loop -> return", pass_break),
        ("while let -> loop over match", pass_whilelet),
        ("visibility made pub", pass_vis),
        ("assertion/unreachable macro -> obligation", pass_asserts),
        ("Option/Result/iterator combinator closure -> match/loop", pass_closures),
        ("bool op-assign -> vx_and/vx_or", pass_boolops),
        ("for -> loop over VxIter", pass_for),
        ("reference pattern -> deref binding", pass_refpat),
        ("ghost argument added", pass_addarg),
        ("impl Iterator return -> VxIter", pass_impl_iter),
        ("ghost field added", pass_fields),
    ];
    for (name, p) in passes {
        let mut rounds = 0;
        loop {
            let edits = p(&text, spec, types);
            if edits.is_empty() {
                break;
            }
            rounds += 1;
            if rounds > 60 {
                die(&format!("UNSUPPORTED pass {name} does not terminate"));
            }
            rep.count(name, edits.len());
            text = apply(&text, edits);
            if name == "ghost field added" || name == "ghost argument added" || name == "visibility made pub" || name == "pin projection inlined" {
                break;
            }
        }
    }
    text
}

/// `mut self` by value becomes `self` and a local `vx_self`
fn pass_mutself(text: &str, _s: &Spec, _t: &TypeInfo) -> Vec<Edit> {
    struct V(Vec<Edit>);
    fn selfs(ts: TokenStream, out: &mut Vec<Edit>) {
        for t in ts {
            match t {
                TokenTree::Ident(i) if i == "self" => {
                    let r = i.span().byte_range();
                    out.push((r.start, r.end, "vx_self".into()))
                }
                TokenTree::Group(g) => selfs(g.stream(), out),
                _ => {}
            }
        }
    }
    impl<'a> Visit<'a> for V {
        fn visit_impl_item_fn(&mut self, f: &'a syn::ImplItemFn) {
            if let Some(syn::FnArg::Receiver(r)) = f.sig.inputs.first() {
                if let (None, Some(m)) = (&r.reference, &r.mutability) {
                    let a = m.span().byte_range();
                    self.0.push((a.start, a.end, String::new()));
                    let b = f.block.brace_token.span.open().byte_range().end;
                    self.0.push((b, b, "\n        let mut vx_self = self;".into()));
                    for st in &f.block.stmts {
                        selfs(st.to_token_stream(), &mut self.0);
                    }
                }
            }
        }
    }
    let mut v = V(vec![]);
    v.visit_file(&parse(text));
    v.0
}

/// `while let P = E { B }` becomes `loop { match E { P => { B } _ => break } }`; `while E {}` becomes `loop { if !(E) { break; } }`
fn pass_whilelet(text: &str, _s: &Spec, _t: &TypeInfo) -> Vec<Edit> {
    struct V<'b>(Vec<Edit>, &'b str);
    impl<'a> Visit<'a> for V<'_> {
        fn visit_expr_while(&mut self, w: &'a syn::ExprWhile) {
            if let syn::Expr::Let(l) = &*w.cond {
                let at = w.while_token.span().byte_range();
                let body = w.body.brace_token.span.open().byte_range();
                let end = w.body.brace_token.span.close().byte_range();
                let (p, e) = (rng(&*l.pat), rng(&*l.expr));
                self.0.push((at.start, body.start, format!("loop {{ match {} {{ {} => ", &self.1[e.0..e.1], &self.1[p.0..p.1])));
                self.0.push((end.end, end.end, " _ => break } }".into()));
            } else if w.body.stmts.is_empty() {
                let at = w.while_token.span().byte_range();
                let body = w.body.brace_token.span.open().byte_range();
                let end = w.body.brace_token.span.close().byte_range();
                let e = rng(&*w.cond);
                self.0.push((at.start, body.start, "loop ".into()));
                self.0.push((end.start, end.start, format!(" if !({}) {{ break; }} ", &self.1[e.0..e.1])));
                self.0.push((end.end, end.end, ";".into()));
            }
            visit::visit_block(self, &w.body)
        }
    }
    let mut v = V(vec![], text);
    v.visit_file(&parse(text));
    v.0
}

fn pass_vis(text: &str, _s: &Spec, _t: &TypeInfo) -> Vec<Edit> {
    struct V(Vec<Edit>);
    impl V {
        fn vis(&mut self, v: &syn::Visibility, at: usize) {
            match v {
                syn::Visibility::Public(_) => {}
                syn::Visibility::Restricted(r) => {
                    let r = rng(r);
                    self.0.push((r.0, r.1, "pub".into()));
                }
                syn::Visibility::Inherited => self.0.push((at, at, "pub ".into())),
            }
        }
    }
    impl<'a> Visit<'a> for V {
        fn visit_item_struct(&mut self, i: &'a syn::ItemStruct) {
            self.vis(&i.vis, i.struct_token.span().byte_range().start);
            for f in &i.fields {
                let at = match &f.ident {
                    Some(id) => id.span().byte_range().start,
                    None => rng(&f.ty).0,
                };
                self.vis(&f.vis, at);
            }
        }
        fn visit_item_enum(&mut self, i: &'a syn::ItemEnum) {
            self.vis(&i.vis, i.enum_token.span().byte_range().start);
        }
        fn visit_item_trait(&mut self, i: &'a syn::ItemTrait) {
            self.vis(&i.vis, i.trait_token.span().byte_range().start);
        }
        fn visit_item_const(&mut self, i: &'a syn::ItemConst) {
            self.vis(&i.vis, i.const_token.span().byte_range().start);
        }
        fn visit_item_type(&mut self, i: &'a syn::ItemType) {
            self.vis(&i.vis, i.type_token.span().byte_range().start);
        }
        fn visit_item_fn(&mut self, i: &'a syn::ItemFn) {
            self.vis(&i.vis, rng(&i.sig).0);
        }
        fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) {
            if i.trait_.is_none() {
                for it in &i.items {
                    if let syn::ImplItem::Fn(f) = it {
                        self.vis(&f.vis, rng(&f.sig).0);
                    }
                    if let syn::ImplItem::Const(c) = it {
                        self.vis(&c.vis, c.const_token.span().byte_range().start);
                    }
                }
            }
        }
    }
    let f = parse(text);
    let mut v = V(vec![]);
    v.visit_file(&f);
    v.0
}

fn pass_asserts(text: &str, _s: &Spec, _t: &TypeInfo) -> Vec<Edit> {
    struct V<'b>(Vec<Edit>, &'b str);
    impl V<'_> {
        fn mac(&mut self, m: &syn::Macro) {
            let n = m.path.segments.last().unwrap().ident.to_string();
            let (s, e) = rng(m);
            let inner = match ts_range(&m.tokens) {
                Some((a, b)) => self.1[a..b].trim().trim_end_matches(',').to_string(),
                None => String::new(),
            };
            let args: Vec<(usize, usize)> = {
                let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
                match p.parse2(m.tokens.clone()) {
                    Ok(a) => a.iter().map(|e| rng(e)).collect(),
                    Err(_) => vec![],
                }
            };
            let a = |i: usize| self.1[args[i].0..args[i].1].to_string();
            match n.as_str() {
                "debug_assert" | "assert" if !args.is_empty() => {
                    let t = a(0);
                    self.0.push((s, e, format!("vx_assert({t})")));
                }
                "debug_assert_eq" | "assert_eq" if args.len() >= 2 => {
                    let t = format!("vx_assert(({}) == ({}))", a(0), a(1));
                    self.0.push((s, e, t));
                }
                "debug_assert_ne" | "assert_ne" if args.len() >= 2 => {
                    let t = format!("vx_assert(({}) != ({}))", a(0), a(1));
                    self.0.push((s, e, t));
                }
                "unreachable" | "panic" | "todo" | "unimplemented" => {
                    let _ = inner;
                    self.0.push((s, e, "vx_unreachable()".into()));
                }
                _ => {}
            }
        }
    }
    impl<'a> Visit<'a> for V<'_> {
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            self.mac(m);
        }
    }
    let f = parse(text);
    let mut v = V(vec![], text);
    v.visit_file(&f);
    v.0
}

fn has_control_flow(e: &syn::Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
            self.0 = true
        }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

/// does a pattern in the block bind this name?
fn binds(b: &syn::Block, name: &str) -> bool {
    struct V<'n>(&'n str, bool);
    impl<'a> Visit<'a> for V<'_> {
        fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
            if i.ident == self.0 {
                self.1 = true;
            }
            visit::visit_pat_ident(self, i);
        }
    }
    let mut v = V(name, false);
    v.visit_block(b);
    v.1
}

fn pass_closures(text: &str, _s: &Spec, types: &TypeInfo) -> Vec<Edit> {
    struct V<'b> {
        cands: Vec<Edit>,
        text: &'b str,
        types: &'b TypeInfo,
    }
    impl V<'_> {
        fn t<T: ToTokens>(&self, x: &T) -> String {
            let r = rng(x);
            self.text[r.0..r.1].to_string()
        }
    }
    impl<'a> Visit<'a> for V<'_> {
        fn visit_item_impl(&mut self, x: &'a syn::ItemImpl) {
            *self.types.cur.borrow_mut() = ty_name(&x.self_ty);
            visit::visit_item_impl(self, x);
            self.types.cur.borrow_mut().clear();
        }
        fn visit_impl_item_fn(&mut self, x: &'a syn::ImplItemFn) {
            // a parameter that is shadowed by a binding of the same name is left alone
            *self.types.params.borrow_mut() = x.sig.inputs.iter().filter_map(|a| match a {
                syn::FnArg::Typed(a) => match &*a.pat {
                    syn::Pat::Ident(i) if !binds(&x.block, &i.ident.to_string()) => Some((i.ident.to_string(), outer(&a.ty))),
                    _ => None,
                },
                _ => None,
            }).collect();
            visit::visit_impl_item_fn(self, x);
            self.types.params.borrow_mut().clear();
        }
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            let n = m.method.to_string();
            let before = self.cands.len();
            visit::visit_expr_method_call(self, m);
            if self.cands.len() != before {
                return; // innermost first
            }
            if m.args.len() != 1 || m.turbofish.is_some() {
                return;
            }
            let kind = self.types.kind(&m.receiver);
            let arg = &m.args[0];
            let (pat, body) = match arg {
                syn::Expr::Closure(c) => {
                    if c.inputs.len() != 1 || has_control_flow(&c.body) {
                        return;
                    }
                    let p = match &c.inputs[0] {
                        syn::Pat::Type(t) => self.t(&t.pat),
                        p => self.t(p),
                    };
                    (p, self.t(&*c.body))
                }
                syn::Expr::Path(p) => {
                    if p.path.segments.len() < 2 && !matches!(n.as_str(), "map" | "and_then") {
                        return;
                    }
                    ("vx_c".to_string(), format!("{}(vx_c)", self.t(p)))
                }
                _ => return,
            };
            let r = rng(m);
            let recv = self.t(&*m.receiver);
            let new = match (n.as_str(), kind) {
                ("map", Kind::Opt) => format!("(match {recv} {{ Some({pat}) => Some({{ {body} }}), None => None }})"),
                ("and_then", Kind::Opt) => format!("(match {recv} {{ Some({pat}) => {{ {body} }}, None => None }})"),
                ("map", Kind::Res) => format!("(match {recv} {{ Ok({pat}) => Ok({{ {body} }}), Err(vx_e) => Err(vx_e) }})"),
                ("map_err", Kind::Res | Kind::Unknown) => format!("(match {recv} {{ Ok(vx_v) => Ok(vx_v), Err({pat}) => Err({{ {body} }}) }})"),
                ("and_then", Kind::Res) => format!("(match {recv} {{ Ok({pat}) => {{ {body} }}, Err(vx_e) => Err(vx_e) }})"),
                ("map_err", Kind::Poll) => format!("(match {recv} {{ Poll::Ready(Ok(vx_v)) => Poll::Ready(Ok(vx_v)), Poll::Ready(Err({pat})) => Poll::Ready(Err({{ {body} }})), Poll::Pending => Poll::Pending }})"),
                ("any", Kind::Iter) => format!(
                    "({{ let mut vx_found = false; for {pat} in {recv} {{ if {body} {{ vx_found = true; break; }} }} vx_found }})"
                ),
                ("all", Kind::Iter) => format!(
                    "({{ let mut vx_found = true; for {pat} in {recv} {{ if !({body}) {{ vx_found = false; break; }} }} vx_found }})"
                ),
                ("map", Kind::Iter) => format!(
                    "({{ let mut vx_vec = Vec::new(); for {pat} in {recv} {{ let vx_x = {body}; vx_vec.push(vx_x); }} vx_iter_of(vx_vec) }})"
                ),
                ("filter_map", Kind::Iter) => format!(
                    "({{ let mut vx_vec = Vec::new(); for {pat} in {recv} {{ if let Some(vx_x) = {body} {{ vx_vec.push(vx_x); }} }} vx_iter_of(vx_vec) }})"
                ),
                _ => return,
            };
            self.cands.push((r.0, r.1, new));
        }
    }
    let f = parse(text);
    let mut v = V { cands: vec![], text, types };
    v.visit_file(&f);
    v.cands
}

fn pass_boolops(text: &str, _s: &Spec, types: &TypeInfo) -> Vec<Edit> {
    struct V<'b>(Vec<Edit>, &'b str, &'b TypeInfo);
    impl<'a> Visit<'a> for V<'_> {
        fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
            let f = match &b.op {
                syn::BinOp::BitAndAssign(_) => "vx_and",
                syn::BinOp::BitOrAssign(_) => "vx_or",
                _ => return visit::visit_expr_binary(self, b),
            };
            if let syn::Expr::Field(fl) = &*b.left {
                if let syn::Member::Named(n) = &fl.member {
                    if self.2.fields.get(&n.to_string()).map(|s| s == "bool").unwrap_or(false) {
                        let l = rng(&b.left);
                        let r = rng(&b.right);
                        let lt = &self.1[l.0..l.1];
                        let rt = &self.1[r.0..r.1];
                        self.0.push((l.0, r.1, format!("{lt} = {f}({lt}, {rt})")));
                        return;
                    }
                }
            }
            visit::visit_expr_binary(self, b)
        }
    }
    let f = parse(text);
    let mut v = V(vec![], text, types);
    v.visit_file(&f);
    v.0
}

fn fn_list(f: &syn::File) -> Vec<(String, &syn::Signature, &syn::Block)> {
    let mut out = vec![];
    for it in &f.items {
        match it {
            syn::Item::Fn(x) => out.push((x.sig.ident.to_string(), &x.sig, &*x.block)),
            syn::Item::Impl(x) => {
                let n = ty_name(&x.self_ty);
                let n = match &x.trait_ {
                    Some((_, p, _)) => format!("<{}{}as{}>", if matches!(&*x.self_ty, syn::Type::Reference(_)) { "&" } else { "" }, n, p.to_token_stream().to_string().replace(' ', "")),
                    None => n,
                };
                for ii in &x.items {
                    if let syn::ImplItem::Fn(m) = ii {
                        out.push((format!("{n}::{}", m.sig.ident), &m.sig, &m.block));
                    }
                }
            }
            syn::Item::Trait(x) => {
                for ii in &x.items {
                    if let syn::TraitItem::Fn(syn::TraitItemFn { sig, default: Some(b), .. }) = ii {
                        out.push((format!("{}::{}", x.ident, sig.ident), sig, b));
                    }
                }
            }
            _ => {}
        }
    }
    out
}

fn pass_for(text: &str, _s: &Spec, _t: &TypeInfo) -> Vec<Edit> {
    // one for loop per function and round, outermost first; names follow the number of vx_it already present
    struct V<'b>(Vec<Edit>, &'b str, usize, bool, usize);
    impl<'a> Visit<'a> for V<'_> {
        fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
            if self.3 {
                return;
            }
            if matches!(&*l.expr, syn::Expr::Range(_)) {
                // the counter gets a name, for the invariant
                if let syn::Pat::Wild(w) = &*l.pat {
                    let r = rng(w);
                    self.3 = true;
                    self.0.push((r.0, r.1, format!("vx_k{}", self.4)));
                    return;
                }
                return visit::visit_expr_for_loop(self, l);
            }
            self.3 = true;
            let n = self.2;
            let whole = rng(l);
            let e = rng(&*l.expr);
            let p = rng(&*l.pat);
            let label = l.label.as_ref().map(|x| {
                let r = rng(x);
                self.1[r.0..r.1].to_string() + " "
            });
            let bopen = l.body.brace_token.span.open().byte_range();
            let bclose = l.body.brace_token.span.close().byte_range();
            let et = &self.1[e.0..e.1];
            let pt = &self.1[p.0..p.1];
            let body = &self.1[bopen.end..bclose.start];
            let new = format!(
                "{{ let mut vx_it{n} = ({et}).vx_into_iter(); {}loop {{ let Some({pt}) = vx_it{n}.next() else {{ break; }}; {body} }} }}",
                label.unwrap_or_default()
            );
            self.0.push((whole.0, whole.1, new));
        }
    }
    let f = parse(text);
    let mut edits = vec![];
    for (_, _, b) in fn_list(&f) {
        let (s, e) = rng(b);
        let n = text[s..e].matches("let mut vx_it").count();
        let k = text[s..e].matches("for vx_k").count();
        let mut v = V(vec![], text, n, false, k);
        v.visit_block(b);
        edits.extend(v.0);
    }
    edits
}

fn pass_break(text: &str, _s: &Spec, _t: &TypeInfo) -> Vec<Edit> {
    struct V<'b>(Vec<Edit>, &'b str);
    impl<'a> Visit<'a> for V<'_> {
        fn visit_expr_break(&mut self, b: &'a syn::ExprBreak) {
            if let (None, Some(x)) = (&b.label, &b.expr) {
                let r = rng(b);
                let i = rng(&**x);
                self.0.push((r.0, r.1, format!("return {}", &self.1[i.0..i.1])));
            }
        }
        fn visit_expr_loop(&mut self, _: &'a syn::ExprLoop) {}
        fn visit_expr_while(&mut self, _: &'a syn::ExprWhile) {}
        fn visit_expr_for_loop(&mut self, _: &'a syn::ExprForLoop) {}
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let f = parse(text);
    let mut v = V(vec![], text);
    for (_, _, b) in fn_list(&f) {
        if let Some(syn::Stmt::Expr(syn::Expr::Loop(l), None)) = b.stmts.last() {
            if l.label.is_none() {
                for s in &l.body.stmts {
                    v.visit_stmt(s);
                }
            }
        }
    }
    v.0
}

fn pass_refpat(text: &str, _s: &Spec, _t: &TypeInfo) -> Vec<Edit> {
    struct R(Vec<(usize, usize, usize, usize)>);
    impl<'a> Visit<'a> for R {
        fn visit_pat_reference(&mut self, p: &'a syn::PatReference) {
            let r = rng(p);
            let i = rng(&*p.pat);
            self.0.push((r.0, r.1, i.0, i.1));
        }
    }
    struct V<'b>(Vec<Edit>, &'b str, usize);
    impl V<'_> {
        fn refs(&self, p: &syn::Pat) -> Vec<(usize, usize, usize, usize)> {
            let mut r = R(vec![]);
            r.visit_pat(p);
            r.0
        }
        fn lets(&mut self, rs: &[(usize, usize, usize, usize)]) -> String {
            let mut lets = String::new();
            for r in rs {
                let v = format!("vx_p{}", self.2);
                self.2 += 1;
                lets.push_str(&format!(" let {} = *{v};", &self.1[r.2..r.3]));
                self.0.push((r.0, r.1, v));
            }
            lets
        }
    }
    impl<'a> Visit<'a> for V<'_> {
        fn visit_local(&mut self, l: &'a syn::Local) {
            let rs = self.refs(&l.pat);
            if !rs.is_empty() {
                let t = self.lets(&rs);
                let e = rng(l).1;
                self.0.push((e, e, t));
            }
            visit::visit_local(self, l)
        }
        fn visit_arm(&mut self, a: &'a syn::Arm) {
            let rs = self.refs(&a.pat);
            if !rs.is_empty() && a.guard.is_none() {
                let t = self.lets(&rs);
                let b = rng(&*a.body);
                self.0.push((b.0, b.0, format!("{{{t} ")));
                self.0.push((b.1, b.1, " }".to_string() + if a.comma.is_none() { "" } else { "" }));
            }
            visit::visit_arm(self, a)
        }
        fn visit_expr_if(&mut self, i: &'a syn::ExprIf) {
            if let syn::Expr::Let(l) = &*i.cond {
                let rs = self.refs(&l.pat);
                if !rs.is_empty() {
                    let t = self.lets(&rs);
                    let at = i.then_branch.brace_token.span.open().byte_range().end;
                    self.0.push((at, at, t));
                }
            }
            visit::visit_expr_if(self, i)
        }
        fn visit_expr_while(&mut self, i: &'a syn::ExprWhile) {
            if let syn::Expr::Let(l) = &*i.cond {
                let rs = self.refs(&l.pat);
                if !rs.is_empty() {
                    let t = self.lets(&rs);
                    let at = i.body.brace_token.span.open().byte_range().end;
                    self.0.push((at, at, t));
                }
            }
            visit::visit_expr_while(self, i)
        }
    }
    let f = parse(text);
    let mut edits = vec![];
    for (_, _, b) in fn_list(&f) {
        let (s, e) = rng(b);
        let n = text[s..e].matches("= *vx_p").count();
        let mut v = V(vec![], text, n);
        v.visit_block(b);
        edits.extend(v.0);
    }
    edits
}

fn pass_addarg(text: &str, s: &Spec, _t: &TypeInfo) -> Vec<Edit> {
    struct V<'b>(Vec<Edit>, Vec<&'b (String, String, String)>);
    impl V<'_> {
        fn add(&mut self, args: &syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>, close: usize, a: &str) {
            let t = if args.is_empty() || args.trailing_punct() { a.to_string() } else { format!(", {a}") };
            self.0.push((close, close, t));
        }
    }
    impl<'a> Visit<'a> for V<'_> {
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            let n = m.method.to_string();
            for a in self.1.clone() {
                if a.1 == n {
                    let close = m.paren_token.span.close().byte_range().start;
                    self.add(&m.args, close, &a.2);
                }
            }
            visit::visit_expr_method_call(self, m)
        }
        fn visit_expr_call(&mut self, m: &'a syn::ExprCall) {
            let n = m.func.to_token_stream().to_string().replace(' ', "");
            for a in self.1.clone() {
                let hit = match a.1.strip_prefix("*::") {
                    Some(suffix) => n.ends_with(&format!("::{suffix}")),
                    None => a.1.contains("::") && a.1 == n,
                };
                if hit {
                    let close = m.paren_token.span.close().byte_range().start;
                    self.add(&m.args, close, &a.2);
                }
            }
            visit::visit_expr_call(self, m)
        }
    }
    let f = parse(text);
    let mut edits = vec![];
    for (name, _, b) in fn_list(&f) {
        let im = name.split("::").next().unwrap().to_string();
        let rules: Vec<_> = s.addargs.iter().filter(|a| a.0 == im || a.0 == name || a.0 == "*").collect();
        if rules.is_empty() {
            continue;
        }
        let mut v = V(vec![], rules);
        v.visit_block(b);
        edits.extend(v.0);
    }
    edits
}

fn pass_impl_iter(text: &str, _s: &Spec, _t: &TypeInfo) -> Vec<Edit> {
    struct V<'b>(Vec<Edit>, &'b str);
    impl<'a> Visit<'a> for V<'_> {
        fn visit_type_impl_trait(&mut self, t: &'a syn::TypeImplTrait) {
            for b in &t.bounds {
                if let syn::TypeParamBound::Trait(tb) = b {
                    let seg = tb.path.segments.last().unwrap();
                    if seg.ident == "Iterator" {
                        if let syn::PathArguments::AngleBracketed(ab) = &seg.arguments {
                            for g in &ab.args {
                                if let syn::GenericArgument::AssocType(at) = g {
                                    let r = rng(&at.ty);
                                    let w = rng(t);
                                    self.0.push((w.0, w.1, format!("VxIter<{}>", &self.1[r.0..r.1])));
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    let f = parse(text);
    let mut v = V(vec![], text);
    v.visit_file(&f);
    v.0
}

fn pass_fields(text: &str, s: &Spec, _t: &TypeInfo) -> Vec<Edit> {
    struct V<'b>(Vec<Edit>, &'b Spec, String);
    impl<'a> Visit<'a> for V<'_> {
        fn visit_item_struct(&mut self, i: &'a syn::ItemStruct) {
            if let Some((decl, _)) = self.1.fields.get(&i.ident.to_string()) {
                if let syn::Fields::Named(n) = &i.fields {
                    let at = n.brace_token.span.open().byte_range().end;
                    self.0.push((at, at, format!(" {decl}, ")));
                }
            }
        }
        fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) {
            self.2 = ty_name(&i.self_ty);
            visit::visit_item_impl(self, i);
            self.2 = String::new();
        }
        fn visit_expr_struct(&mut self, e: &'a syn::ExprStruct) {
            let mut n = e.path.segments.last().unwrap().ident.to_string();
            if n == "Self" {
                n = self.2.clone();
            }
            if let Some((_, init)) = self.1.fields.get(&n) {
                let at = e.brace_token.span.open().byte_range().end;
                self.0.push((at, at, format!(" {init}, ")));
            }
            visit::visit_expr_struct(self, e)
        }
    }
    let f = parse(text);
    let mut v = V(vec![], s, String::new());
    v.visit_file(&f);
    v.0
}

// ---------------------------------------------------------------- weaving

trait Pair {
    fn into_pair(self) -> (usize, usize);
}
impl Pair for std::ops::Range<usize> {
    fn into_pair(self) -> (usize, usize) {
        (self.start, self.end)
    }
}

/// constants inside functions become immutable bindings
fn pass_localconst(text: &str, _s: &Spec, _t: &TypeInfo) -> Vec<Edit> {
    struct V<'b>(Vec<Edit>, &'b str);
    impl<'a> Visit<'a> for V<'_> {
        fn visit_stmt(&mut self, s: &'a syn::Stmt) {
            if let syn::Stmt::Item(syn::Item::Const(c)) = s {
                let r = rng(c);
                let (t, e) = (rng(&*c.ty), rng(&*c.expr));
                self.0.push((r.0, r.1, format!("let {}: {} = {};", c.ident, &self.1[t.0..t.1], &self.1[e.0..e.1])));
            }
            visit::visit_stmt(self, s)
        }
    }
    let f = parse(text);
    let mut v = V(vec![], text);
    v.visit_file(&f);
    v.0
}

/// selected trait impls become inherent impls; associated types are written out
fn pass_inherent(text: &str, s: &Spec, _t: &TypeInfo) -> Vec<Edit> {
    let f = parse(text);
    let mut edits = vec![];
    for it in &f.items {
        let syn::Item::Impl(x) = it else { continue };
        let Some((_, p, fortok)) = &x.trait_ else { continue };
        if !s.inherent.contains(&item_name(it)) {
            continue;
        }
        edits.push((rng(p).0, fortok.span().byte_range().end, String::new()));
        let mut assoc = BTreeMap::new();
        for ii in &x.items {
            if let syn::ImplItem::Type(t) = ii {
                let r = rng(&t.ty);
                assoc.insert(t.ident.to_string(), text[r.0..r.1].to_string());
                let r = rng(t);
                edits.push((r.0, r.1, String::new()));
            }
        }
        struct V<'b>(&'b BTreeMap<String, String>, Vec<Edit>);
        impl<'a> Visit<'a> for V<'_> {
            fn visit_path(&mut self, p: &'a syn::Path) {
                if p.segments.len() == 2 && p.segments[0].ident == "Self" {
                    if let Some(t) = self.0.get(&p.segments[1].ident.to_string()) {
                        let r = rng(p);
                        self.1.push((r.0, r.1, t.clone()));
                        return;
                    }
                }
                visit::visit_path(self, p)
            }
        }
        let mut v = V(&assoc, vec![]);
        for ii in &x.items {
            if let syn::ImplItem::Fn(m) = ii {
                v.visit_impl_item_fn(m);
            }
        }
        edits.extend(v.1);
    }
    edits
}

/// `self: Pin<&mut Self>` is `&mut self`: Pin::new, as_mut, get_mut and project() are reborrows
fn pass_pin(text: &str, _s: &Spec, _t: &TypeInfo) -> Vec<Edit> {
    struct V<'b> {
        e: Vec<Edit>,
        text: &'b str,
        proj: BTreeSet<String>,
        renamed: bool,
    }
    impl V<'_> {
        /// self.F or PROJ.F
        fn is_field(&self, e: &syn::Expr) -> bool {
            if let syn::Expr::Field(f) = e {
                if let syn::Expr::Path(p) = &*f.base {
                    if let Some(i) = p.path.get_ident() {
                        return self.proj.contains(&i.to_string());
                    }
                }
            }
            false
        }
        fn is_projection(e: &syn::Expr) -> bool {
            if let syn::Expr::MethodCall(m) = e {
                return m.method == "project" && m.receiver.to_token_stream().to_string() == "self";
            }
            false
        }
    }
    impl<'a> Visit<'a> for V<'_> {
        fn visit_local(&mut self, l: &'a syn::Local) {
            if let (syn::Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                if Self::is_projection(&i.expr) && i.diverge.is_none() {
                    self.proj.insert(p.ident.to_string());
                    let r = rng(l);
                    self.e.push((r.0, r.1, String::new()));
                    self.renamed = true;
                    return;
                }
            }
            visit::visit_local(self, l)
        }
        fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
            if let Some(i) = p.path.get_ident() {
                if self.proj.contains(&i.to_string()) {
                    let r = rng(p);
                    self.e.push((r.0, r.1, "self".into()));
                }
            }
        }
        fn visit_expr_unary(&mut self, u: &'a syn::ExprUnary) {
            if matches!(u.op, syn::UnOp::Deref(_)) && self.is_field(&u.expr) {
                let r = u.op.span().byte_range();
                self.e.push((r.start, r.end, String::new()));
            }
            visit::visit_expr_unary(self, u)
        }
        fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
            let n = c.func.to_token_stream().to_string().replace(' ', "");
            if n == "Pin::new" && c.args.len() == 1 {
                let (w, a) = (rng(c), rng(&c.args[0]));
                self.e.push((w.0, a.0, "(".into()));
                self.e.push((a.1, w.1, ")".into()));
                self.visit_expr(&c.args[0]);
                return;
            }
            visit::visit_expr_call(self, c)
        }
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            if Self::is_projection(&syn::Expr::MethodCall(m.clone())) {
                let r = rng(m);
                self.e.push((r.0, r.1, "self".into()));
                return;
            }
            if m.method == "as_mut" && self.is_field(&m.receiver) {
                let r = m.dot_token.span().byte_range().start;
                self.e.push((r, rng(m).1, String::new()));
            }
            for a in &m.args {
                if self.is_field(a) {
                    let r = rng(a);
                    self.e.push((r.1, r.1, ".vx_arg()".into()));
                }
            }
            visit::visit_expr_method_call(self, m)
        }
    }
    let _ = |v: &V| v.text.len();
    let f = parse(text);
    let mut edits = vec![];
    let mut go = |sig: &syn::Signature, block: Option<&syn::Block>| {
        let Some(syn::FnArg::Receiver(r)) = sig.inputs.first() else { return };
        if r.colon_token.is_none() || r.ty.to_token_stream().to_string().replace(' ', "") != "Pin<&mutSelf>" {
            return;
        }
        let w = rng(r);
        edits.push((w.0, w.1, "&mut self".to_string()));
        if let Some(b) = block {
            let mut v = V { e: vec![], text, proj: BTreeSet::new(), renamed: false };
            v.visit_block(b);
            edits.extend(v.e);
        }
    };
    for it in &f.items {
        match it {
            syn::Item::Impl(x) => {
                for ii in &x.items {
                    if let syn::ImplItem::Fn(m) = ii {
                        go(&m.sig, Some(&m.block));
                    }
                }
            }
            syn::Item::Trait(x) => {
                for ii in &x.items {
                    if let syn::TraitItem::Fn(m) = ii {
                        go(&m.sig, None);
                    }
                }
            }
            _ => {}
        }
    }
    edits
}

/// `E?` of a Result in a function that returns Poll (without an error conversion)
fn pass_polltry(text: &str, _s: &Spec, _t: &TypeInfo) -> Vec<Edit> {
    struct V<'b>(Vec<Edit>, &'b str);
    impl<'a> Visit<'a> for V<'_> {
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
        fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
            let n = self.0.len();
            visit::visit_expr_try(self, t);
            if self.0.len() == n {
                let (w, i) = (rng(t), rng(&*t.expr));
                self.0.push((w.0, w.1, format!("(match {} {{ Ok(vx_v) => vx_v, Err(vx_e) => return Poll::Ready(Err(vx_e)) }})", &self.1[i.0..i.1])));
            }
        }
    }
    let f = parse(text);
    let mut edits = vec![];
    for (_, sig, b) in fn_list(&f) {
        if let syn::ReturnType::Type(_, t) = &sig.output {
            if outer(t) == "Poll" {
                let mut v = V(vec![], text);
                v.visit_block(b);
                edits.extend(v.0);
            }
        }
    }
    edits
}

/// `&X[a..b]` -> `X.vx_range(a, b)`, `&X[..b]` -> `X.vx_to(b)`, `&X[a..]` -> `X.vx_from(a)`
fn pass_range(text: &str, s: &Spec, _t: &TypeInfo) -> Vec<Edit> {
    struct V<'b>(Vec<Edit>, &'b str, &'b Spec);
    impl V<'_> {
        fn t(&self, e: &syn::Expr) -> String {
            let q = rng(e);
            self.1[q.0..q.1].to_string()
        }
        fn slice(&self, i: &syn::ExprIndex, m: &str) -> Option<String> {
            let x = self.t(&i.expr);
            if let syn::Expr::Range(g) = &*i.index {
                if matches!(g.limits, syn::RangeLimits::HalfOpen(_)) {
                    return Some(match (&g.start, &g.end) {
                        (None, None) => format!("{x}.vx_all{m}()"),
                        (Some(a), None) => format!("{x}.vx_from{m}({})", self.t(a)),
                        (None, Some(b)) => format!("{x}.vx_to{m}({})", self.t(b)),
                        (Some(a), Some(b)) => format!("{x}.vx_range{m}({}, {})", self.t(a), self.t(b)),
                    });
                }
            }
            None
        }
        fn indexed(&self, i: &syn::ExprIndex) -> bool {
            let last = match &*i.expr {
                syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
                syn::Expr::Field(f) => match &f.member {
                    syn::Member::Named(n) => Some(n.to_string()),
                    _ => None,
                },
                syn::Expr::MethodCall(m) => Some(m.method.to_string()),
                _ => None,
            };
            !matches!(&*i.index, syn::Expr::Range(_)) && last.map(|l| self.2.indexed.contains(&l)).unwrap_or(false)
        }
    }
    impl<'a> Visit<'a> for V<'_> {
        fn visit_expr_reference(&mut self, r: &'a syn::ExprReference) {
            if let syn::Expr::Index(i) = &*r.expr {
                if let Some(new) = self.slice(i, if r.mutability.is_some() { "_mut" } else { "" }) {
                    let w = rng(r);
                    self.0.push((w.0, w.1, new));
                    return;
                }
            }
            visit::visit_expr_reference(self, r)
        }
        fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
            if let syn::Expr::Index(i) = &*c.receiver {
                let m = matches!(c.method.to_string().as_str(), "copy_from_slice" | "fill");
                if let Some(new) = self.slice(i, if m { "_mut" } else { "" }) {
                    let w = rng(i);
                    self.0.push((w.0, w.1, new));
                    return;
                }
            }
            visit::visit_expr_method_call(self, c)
        }
        fn visit_expr_assign(&mut self, a: &'a syn::ExprAssign) {
            if let syn::Expr::Index(i) = &*a.left {
                if self.indexed(i) {
                    let w = rng(a);
                    self.0.push((w.0, w.1, format!("{}.vx_set({}, {})", self.t(&i.expr), self.t(&i.index), self.t(&a.right))));
                    return;
                }
            }
            visit::visit_expr_assign(self, a)
        }
        fn visit_expr_index(&mut self, i: &'a syn::ExprIndex) {
            if self.indexed(i) {
                let w = rng(i);
                self.0.push((w.0, w.1, format!("{}.vx_at({})", self.t(&i.expr), self.t(&i.index))));
                return;
            }
            visit::visit_expr_index(self, i)
        }
    }
    let f = parse(text);
    let mut v = V(vec![], text, s);
    v.visit_file(&f);
    v.0
}

pub fn weave(text: &str, spec: &Spec, path: &str, rep: &mut Report) -> (String, Vec<String>) {
    let f = parse(text);
    let mut edits: Vec<Edit> = vec![];
    let mut names = vec![];
    for it in &f.items {
        let name = item_name(it);
        let at = rng(it).0;
        if matches!(it, syn::Item::Struct(_) | syn::Item::Enum(_)) {
            let mut t = String::new();
            if let Some(d) = spec.derives.get(&name) {
                if !d.is_empty() {
                    t.push_str(&format!("#[derive({d})]\n"));
                }
            }
            for a in spec.attrs.get(&name).into_iter().flatten() {
                t.push_str(a);
                t.push('\n');
            }
            if !t.is_empty() {
                edits.push((at, at, t));
            }
        }
    }
    {
        let mut con = |name: String, whole: (usize, usize), ident: (usize, usize), ty: (usize, usize), expr: (usize, usize)| {
            if let Some(c) = spec.consts.get(&name) {
                let kw = text[whole.0..ident.0].rfind("const").map(|x| whole.0 + x).unwrap_or(whole.0);
                edits.push((kw, kw, "exec ".into()));
                edits.push((ty.1, whole.1, format!("\n/*@const {name}*/\n{c}/*@endconst*/\n{{ {} }}\n", &text[expr.0..expr.1])));
                names.push(name);
            }
        };
        for it in &f.items {
            match it {
                syn::Item::Const(c) => con(c.ident.to_string(), rng(c), c.ident.span().byte_range().into_pair(), rng(&*c.ty), rng(&*c.expr)),
                syn::Item::Impl(x) => {
                    for ii in &x.items {
                        if let syn::ImplItem::Const(c) = ii {
                            con(format!("{}::{}", ty_name(&x.self_ty), c.ident), rng(c), c.ident.span().byte_range().into_pair(), rng(&c.ty), rng(&c.expr));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    for it in &f.items {
        let (key, at) = match it {
            syn::Item::Impl(x) => (
                match &x.trait_ {
                    Some(_) => item_name(it),
                    None => format!("impl {}", ty_name(&x.self_ty)),
                },
                x.brace_token.span.open().byte_range().end,
            ),
            syn::Item::Trait(x) => {
                for ii in &x.items {
                    let syn::TraitItem::Fn(m) = ii else { continue };
                    if m.default.is_some() {
                        continue;
                    }
                    let name = format!("{}::{}", x.ident, m.sig.ident);
                    if let syn::ReturnType::Type(_, t) = &m.sig.output {
                        let r = rng(&**t);
                        edits.push((r.0, r.0, "(r: ".into()));
                        edits.push((r.1, r.1, ")".into()));
                    }
                    if let Some(fs) = spec.fns.get(&name) {
                        let e = rng(&m.sig).1;
                        edits.push((e, e, format!("\n/*@contract {name}*/\n{}/*@endcontract*/\n", fs.text)));
                    } else {
                        rep.unspecified.push(name.clone());
                    }
                    names.push(name);
                }
                (format!("trait {}", x.ident), x.brace_token.span.open().byte_range().end)
            }
            _ => continue,
        };
        let squeeze = |n: &str| n.replace(' ', "");
        if let Some((k, t)) = spec.implspec.iter().find(|(k, _)| squeeze(k) == squeeze(&key)) {
            edits.push((at, at, format!("\n{t}")));
            names.push(k.clone());
        }
    }
    for (name, sig, block) in fn_list(&f) {
        names.push(name.clone());
        let fs = spec.fns.get(&name);
        // start of fn item: visibility precedes the signature
        let sig_r = rng(sig);
        let start = {
            let before = &text[..sig_r.0];
            let t = before.trim_end();
            if t.ends_with("pub") { t.len() - 3 } else { sig_r.0 }
        };
        let bopen = block.brace_token.span.open().byte_range();
        let bclose = block.brace_token.span.close().byte_range();
        let trusted = fs.map(|f| f.trusted).unwrap_or(false);
        let mut pre = format!("\n/*@fn {name} @src {path}*/\n");
        if let Some(fs) = fs {
            for a in &fs.attrs {
                pre.push_str(&format!("#[{a}]\n"));
            }
        }
        if trusted {
            pre.push_str("#[verifier::external_body]\n");
        }
        edits.push((start, start, pre));
        // whole signature replaced (trusted functions only)
        if let Some(sg) = fs.and_then(|f| f.sig.clone()) {
            let from = if start < sig_r.0 { start } else { sig_r.0 };
            let mut t = String::from("\n");
            t.push_str(&sg);
            t.push('\n');
            edits.push((from, bopen.start, t));
        } else { match (&sig.output, fs.and_then(|f| f.ret.clone())) {
            (_, Some(r)) => {
                let r0 = match &sig.output {
                    syn::ReturnType::Type(..) => rng(&sig.output),
                    _ => (rng(sig).1, rng(sig).1),
                };
                edits.push((r0.0, r0.1, format!("-> (r: {r})")));
            }
            (syn::ReturnType::Type(_, t), None) => {
                let r = rng(&**t);
                if !matches!(&**t, syn::Type::Never(_)) {
                    edits.push((r.0, r.0, "(r: ".into()));
                    edits.push((r.1, r.1, ")".into()));
                }
            }
            _ => {}
        } }
        if let Some(fs) = fs {
            for p in &fs.params {
                let close = sig.paren_token.span.close().byte_range().start;
                let t = if sig.inputs.is_empty() || sig.inputs.trailing_punct() { p.clone() } else { format!(", {p}") };
                edits.push((close, close, t));
            }
        }
        // contract
        let mut loops = vec![];
        collect_loops(block, &mut loops);
        let mut nspec = 0;
        if let Some(fs) = fs {
            edits.push((bopen.start, bopen.start, format!("\n/*@contract {name}*/\n{}/*@endcontract*/\n", fs.text)));
            if trusted {
                edits.push((bopen.end, bclose.start, " unimplemented!() ".into()));
            } else {
                for (n, inv) in &fs.loops {
                    match loops.get(*n) {
                        Some(l) => {
                            nspec += 1;
                            edits.push((l.0, l.0, format!("\n/*@loop {name} {n}*/\n{inv}/*@endloop*/\n")))
                        }
                        None => rep.lost.push(format!("loop {name} {n}")),
                    }
                }
                for (anchor, h) in &fs.hints {
                    if anchor == "ret" {
                        // the tail expression is bound to vx_ret
                        match block.stmts.last() {
                            Some(t @ syn::Stmt::Expr(_, None)) => {
                                let r = rng(t);
                                edits.push((r.0, r.0, "let vx_ret = ".into()));
                                edits.push((r.1, r.1, format!(";\n/*@hint*/ {h}\nvx_ret")));
                            }
                            _ => rep.lost.push(format!("hint {name} ret")),
                        }
                        continue;
                    }
                    let at = match anchor.as_str() {
                        "start" => Some(bopen.end),
                        "end" => {
                            // before the tail expression, or at the end if there is none
                            match block.stmts.last() {
                                Some(s @ syn::Stmt::Expr(_, None)) => Some(rng(s).0),
                                _ => Some(bclose.start),
                            }
                        }
                        a if a.starts_with("loop") && a.ends_with(".start") => {
                            let n: usize = a[4..a.len() - 6].parse().unwrap_or(999);
                            loops.get(n).map(|l| l.1)
                        }
                        a if a.starts_with("loop") && a.ends_with(".bind") => {
                            // after the first statement of the loop body (the element binding)
                            let n: usize = a[4..a.len() - 5].parse().unwrap_or(999);
                            loops.get(n).map(|l| l.3)
                        }
                        a if a.starts_with("loop") && a.ends_with(".end") => {
                            let n: usize = a[4..a.len() - 4].parse().unwrap_or(999);
                            loops.get(n).map(|l| l.2)
                        }
                        a if a.starts_with("loop") && a.ends_with(".after") => {
                            let n: usize = a[4..a.len() - 6].parse().unwrap_or(999);
                            loops.get(n).map(|l| l.2 + 1)
                        }
                        a if a.starts_with("loop") && a.ends_with(".before") => {
                            let n: usize = a[4..a.len() - 7].parse().unwrap_or(999);
                            loops.get(n).map(|l| l.4)
                        }
                        a if a.starts_with("before:") || a.starts_with("after:") => {
                            let (w, rest) = a.split_once(':').unwrap();
                            let (m, k) = rest.split_once('#').unwrap_or((rest, "0"));
                            stmt_of_call(block, m, k.parse().unwrap_or(0)).map(|r| if w == "before" { r.0 } else { r.1 })
                        }
                        _ => None,
                    };
                    match at {
                        Some(at) => edits.push((at, at, format!("\n/*@hint*/ {h}"))),
                        None => rep.lost.push(format!("hint {name} {anchor}")),
                    }
                }
            }
        } else if !spec.plain.contains(&name) && !inherited(&name, spec) {
            rep.unspecified.push(name.clone());
        }
        edits.push((bclose.end, bclose.end, format!("\n/*@endfn {name}*/\n")));
        if !trusted && nspec < loops.len() {
            rep.loops_without_invariant.push(format!("{name}: {} of {}", loops.len() - nspec, loops.len()));
        }
        rep.fns.push(serde_json::json!({
            "name": name, "src": path, "contract": fs.is_some() || inherited(&name, spec), "trusted": trusted,
            "loops": loops.len(), "loops_with_invariant": nspec,
        }));
    }
    (apply2(text, edits), names)
}

/// a trait implementation whose contract is that of the trait: `<T as Trait>::f`
fn inherited(name: &str, spec: &Spec) -> bool {
    let Some((head, f)) = name.rsplit_once("::") else { return false };
    let Some(x) = head.strip_prefix('<').and_then(|h| h.strip_suffix('>')) else { return false };
    // without the arguments of the trait
    let mut t = x;
    if x.ends_with('>') {
        let mut depth = 0;
        for (i, c) in x.char_indices().rev() {
            depth += match c { '>' => 1, '<' => -1, _ => 0 };
            if depth == 0 {
                t = &x[..i];
                break;
            }
        }
    }
    let Some((_, t)) = t.rsplit_once("as") else { return false };
    spec.fns.contains_key(&format!("{t}::{f}"))
}

// stable application that allows several insertions at one point and replacement ranges
fn apply2(text: &str, edits: Vec<Edit>) -> String {
    let mut ix: Vec<(usize, Edit)> = edits.into_iter().enumerate().collect();
    ix.sort_by_key(|(i, e)| (e.0, *i));
    let mut out = String::new();
    let mut pos = 0;
    for (_, (s, e, r)) in ix {
        if s < pos {
            continue;
        }
        out.push_str(&text[pos..s]);
        out.push_str(&r);
        pos = e.max(pos);
    }
    out.push_str(&text[pos..]);
    out
}

/// (body open brace, after open, close brace, after first stmt, stmt start) per loop in source order
fn collect_loops(b: &syn::Block, out: &mut Vec<(usize, usize, usize, usize, usize)>) {
    struct V<'b>(&'b mut Vec<(usize, usize, usize, usize, usize)>);
    impl V<'_> {
        fn add(&mut self, b: &syn::Block, start: usize) {
            let o = b.brace_token.span.open().byte_range();
            let c = b.brace_token.span.close().byte_range();
            let first = b.stmts.first().map(|s| rng(s).1).unwrap_or(o.end);
            self.0.push((o.start, o.end, c.start, first, start));
        }
    }
    impl<'a> Visit<'a> for V<'_> {
        fn visit_expr_loop(&mut self, l: &'a syn::ExprLoop) {
            self.add(&l.body, rng(l).0);
            visit::visit_expr_loop(self, l)
        }
        fn visit_expr_while(&mut self, l: &'a syn::ExprWhile) {
            self.add(&l.body, rng(l).0);
            visit::visit_expr_while(self, l)
        }
        fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
            self.add(&l.body, rng(l).0);
            visit::visit_expr_for_loop(self, l)
        }
    }
    V(out).visit_block(b);
}

/// range of the innermost statement containing the k-th call of `m`
fn stmt_of_call(b: &syn::Block, m: &str, k: usize) -> Option<(usize, usize)> {
    struct C<'b>(&'b str, Vec<usize>);
    impl<'a> Visit<'a> for C<'_> {
        fn visit_expr_method_call(&mut self, e: &'a syn::ExprMethodCall) {
            visit::visit_expr_method_call(self, e);
            if e.method == self.0 {
                self.1.push(e.method.span().byte_range().start);
            }
        }
        fn visit_expr_call(&mut self, e: &'a syn::ExprCall) {
            visit::visit_expr_call(self, e);
            let n = e.func.to_token_stream().to_string().replace(' ', "");
            if n == self.0 || n.ends_with(&format!("::{}", self.0)) {
                self.1.push(rng(&*e.func).0);
            }
        }
    }
    struct S(Vec<(usize, usize)>);
    impl<'a> Visit<'a> for S {
        fn visit_stmt(&mut self, s: &'a syn::Stmt) {
            let mut r = rng(s);
            if let syn::Stmt::Local(l) = s {
                r.1 = l.semi_token.span().byte_range().end;
            }
            self.0.push(r);
            visit::visit_stmt(self, s)
        }
    }
    let mut c = C(m, vec![]);
    c.visit_block(b);
    c.1.sort();
    let pos = *c.1.get(k)?;
    let mut s = S(vec![]);
    s.visit_block(b);
    s.0.into_iter().filter(|r| r.0 <= pos && pos < r.1).min_by_key(|r| r.1 - r.0)
}
