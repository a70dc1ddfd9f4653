//! C20: type ids and introspection records of random layouts, of built-in types and of generated code.
use crate::cases::CASES;
use crate::rng::Rng;
use aldrin_core::introspection::ir::*;
use aldrin_core::introspection::{BuiltInType, DynIntrospectable, Introspectable, Introspection, Layout, LexicalId, References};
use aldrin_core::{SerializedValue, ServiceUuid, TypeId};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

type Res<T> = Result<T, String>;
/// number of table entries, i.e. of different types in one world
const MAX: usize = 128;

#[derive(Clone, Debug, PartialEq)]
struct Member { id: u32, name: String, doc: Option<String>, req: bool, tys: [Option<usize>; 3] }
#[derive(Clone, Debug, PartialEq)]
struct Fb { name: String, doc: Option<String> }
#[derive(Clone, Debug, PartialEq)]
enum Def {
    Prim(usize),
    /// option, box, vec, set, sender, receiver, map, result, array
    Comp(usize, Vec<usize>, u32),
    Struct(Vec<Member>, Option<Fb>),
    Enum(Vec<Member>, Option<Fb>),
    Newtype(usize),
    Service { uuid: u128, version: u32, fns: Vec<Member>, evs: Vec<Member>, ffb: Option<Fb>, efb: Option<Fb> },
}
#[derive(Clone, Debug, PartialEq)]
struct Slot { schema: String, name: String, doc: Option<String>, def: Def }
#[derive(Clone, Debug)]
struct World { slots: Vec<Slot> }

const PRIMS: [(&str, BuiltInTypeIr); 19] = {
    use BuiltInTypeIr::*;
    [("bool", Bool), ("u8", U8), ("i8", I8), ("u16", U16), ("i16", I16), ("u32", U32), ("i32", I32), ("u64", U64), ("i64", I64), ("f32", F32), ("f64", F64),
     ("string", String), ("uuid", Uuid), ("object_id", ObjectId), ("service_id", ServiceId), ("value", Value), ("bytes", Bytes), ("lifetime", Lifetime), ("unit", Unit)]
};
const COMPS: [&str; 9] = ["option", "box", "vec", "set", "sender", "receiver", "map", "result", "array"];

thread_local! {
    static WORLD: RefCell<(World, Rng)> = RefCell::new((World { slots: vec![] }, Rng::new(1)));
    static NOW: RefCell<String> = const { RefCell::new(String::new()) };
}
fn with<T>(f: impl FnOnce(&World, &mut Rng) -> T) -> T {
    WORLD.with(|w| { let w = &mut *w.borrow_mut(); f(&w.0, &mut w.1) })
}
fn shuffled<T: Clone>(r: &mut Rng, xs: &[T]) -> Vec<T> {
    let mut v = xs.to_vec();
    for i in (1..v.len()).rev() { v.swap(i, r.below(i + 1)); }
    v
}

impl World {
    fn lex(&self, i: usize) -> LexicalId {
        let s = &self.slots[i];
        match &s.def {
            Def::Prim(p) => PRIMS[*p].1.lexical_id(),
            Def::Comp(k, c, n) => {
                let a = self.lex(c[0]);
                match k {
                    0 => LexicalId::option(a), 1 => LexicalId::box_ty(a), 2 => LexicalId::vec(a), 3 => LexicalId::set(a), 4 => LexicalId::sender(a), 5 => LexicalId::receiver(a),
                    6 => LexicalId::map(a, self.lex(c[1])), 7 => LexicalId::result(a, self.lex(c[1])), _ => LexicalId::array(a, *n),
                }
            }
            Def::Service { .. } => LexicalId::service(&s.schema, &s.name),
            _ => LexicalId::custom(&s.schema, &s.name),
        }
    }
    /// the referenced types, in order, with repetitions
    fn refs(&self, i: usize) -> Vec<usize> {
        let of = |ms: &[Member]| ms.iter().flat_map(|m| m.tys.iter().flatten().copied()).collect::<Vec<_>>();
        match &self.slots[i].def {
            Def::Prim(_) => vec![],
            Def::Comp(_, c, _) => c.clone(),
            Def::Struct(m, _) | Def::Enum(m, _) => of(m),
            Def::Newtype(t) => vec![*t],
            Def::Service { fns, evs, .. } => [of(fns), of(evs)].concat(),
        }
    }
    fn reach(&self, i: usize) -> BTreeSet<usize> {
        let mut s = BTreeSet::new();
        let mut todo = vec![i];
        while let Some(x) = todo.pop() { if s.insert(x) { todo.extend(self.refs(x)); } }
        s
    }
    /// what a type is called where it is referenced
    fn label(&self, i: usize) -> String {
        let s = &self.slots[i];
        match &s.def {
            Def::Prim(p) => PRIMS[*p].0.into(),
            Def::Comp(k, c, n) => format!("{}<{}{}>", COMPS[*k], c.iter().map(|x| self.label(*x)).collect::<Vec<_>>().join(","), if *k == 8 { format!(";{n}") } else { String::new() }),
            Def::Service { .. } => format!("service {}::{}", s.schema, s.name),
            _ => format!("{}::{}", s.schema, s.name),
        }
    }
    fn layout(&self, i: usize, r: &mut Rng) -> LayoutIr {
        let s = &self.slots[i];
        let ty = |t: usize| self.lex(t);
        match &s.def {
            Def::Prim(p) => PRIMS[*p].1.into(),
            Def::Comp(k, c, n) => {
                let a = ty(c[0]);
                use BuiltInTypeIr::*;
                match k {
                    0 => Option(a), 1 => Box(a), 2 => Vec(a), 3 => Set(a), 4 => Sender(a), 5 => Receiver(a),
                    6 => Map(MapTypeIr::new(a, ty(c[1]))), 7 => Result(ResultTypeIr::new(a, ty(c[1]))), _ => Array(ArrayTypeIr::new(a, *n)),
                }.into()
            }
            Def::Struct(ms, fb) => {
                let mut b = StructIr::builder(&s.schema, &s.name);
                let early = r.chance(1, 2);
                if early { if let Some(d) = &s.doc { b = b.doc(d); } if let Some(f) = fb { b = b.fallback(sfb(f)); } }
                for m in shuffled(r, ms) {
                    let mut f = FieldIr::builder(m.id, &m.name, m.req, ty(m.tys[0].unwrap()));
                    if let Some(d) = &m.doc { f = f.doc(d); }
                    b = b.field(f.finish());
                }
                if !early { if let Some(d) = &s.doc { b = b.doc(d); } if let Some(f) = fb { b = b.fallback(sfb(f)); } }
                b.finish().into()
            }
            Def::Enum(ms, fb) => {
                let mut b = EnumIr::builder(&s.schema, &s.name);
                if let Some(d) = &s.doc { b = b.doc(d); }
                for m in shuffled(r, ms) {
                    let mut f = VariantIr::builder(m.id, &m.name);
                    if let Some(t) = m.tys[0] { f = f.variant_type(ty(t)); }
                    if let Some(d) = &m.doc { f = f.doc(d); }
                    b = b.variant(f.finish());
                }
                if let Some(f) = fb {
                    let mut x = EnumFallbackIr::builder(&f.name);
                    if let Some(d) = &f.doc { x = x.doc(d); }
                    b = b.fallback(x.finish());
                }
                b.finish().into()
            }
            Def::Newtype(t) => {
                let mut b = NewtypeIr::builder(&s.schema, &s.name, ty(*t));
                if let Some(d) = &s.doc { b = b.doc(d); }
                b.finish().into()
            }
            Def::Service { uuid, version, fns, evs, ffb, efb } => {
                let mut b = ServiceIr::builder(&s.schema, &s.name, ServiceUuid(uuid::Uuid::from_u128(*uuid)), *version);
                if let Some(d) = &s.doc { b = b.doc(d); }
                let events_first = r.chance(1, 2);
                for round in 0..2 {
                    if (round == 0) == events_first {
                        for m in shuffled(r, evs) {
                            let mut e = EventIr::builder(m.id, &m.name);
                            if let Some(d) = &m.doc { e = e.doc(d); }
                            if let Some(t) = m.tys[0] { e = e.event_type(ty(t)); }
                            b = b.event(e.finish());
                        }
                        if let Some(f) = efb {
                            let mut x = EventFallbackIr::builder(&f.name);
                            if let Some(d) = &f.doc { x = x.doc(d); }
                            b = b.event_fallback(x.finish());
                        }
                    } else {
                        for m in shuffled(r, fns) {
                            let mut e = FunctionIr::builder(m.id, &m.name);
                            if let Some(t) = m.tys[2] { e = e.err(ty(t)); }
                            if let Some(t) = m.tys[0] { e = e.args(ty(t)); }
                            if let Some(d) = &m.doc { e = e.doc(d); }
                            if let Some(t) = m.tys[1] { e = e.ok(ty(t)); }
                            b = b.function(e.finish());
                        }
                        if let Some(f) = ffb {
                            let mut x = FunctionFallbackIr::builder(&f.name);
                            if let Some(d) = &f.doc { x = x.doc(d); }
                            b = b.function_fallback(x.finish());
                        }
                    }
                }
                b.finish().into()
            }
        }
    }
}
fn sfb(f: &Fb) -> StructFallbackIr {
    let mut x = StructFallbackIr::builder(&f.name);
    if let Some(d) = &f.doc { x = x.doc(d); }
    x.finish()
}

struct N<const I: usize>;
impl<const I: usize> Introspectable for N<I> {
    fn layout() -> LayoutIr { with(|w, r| w.layout(I, r)) }
    fn lexical_id() -> LexicalId { with(|w, _| w.lex(I)) }
    fn add_references(references: &mut References) {
        let l = with(|w, r| {
            let mut l = w.refs(I);
            for _ in 0..r.below(3) { if !l.is_empty() { let x = l[r.below(l.len())]; l.push(x); } }
            shuffled(r, &l)
        });
        for i in l { references.add_dyn(table()[i]); }
    }
}
macro_rules! rows { ($($a:literal)*) => { [$(
    DynIntrospectable::new::<N<{ $a * 8 }>>(), DynIntrospectable::new::<N<{ $a * 8 + 1 }>>(), DynIntrospectable::new::<N<{ $a * 8 + 2 }>>(), DynIntrospectable::new::<N<{ $a * 8 + 3 }>>(),
    DynIntrospectable::new::<N<{ $a * 8 + 4 }>>(), DynIntrospectable::new::<N<{ $a * 8 + 5 }>>(), DynIntrospectable::new::<N<{ $a * 8 + 6 }>>(), DynIntrospectable::new::<N<{ $a * 8 + 7 }>>(),
)*] } }
fn table() -> &'static [DynIntrospectable; MAX] {
    static T: std::sync::OnceLock<[DynIntrospectable; MAX]> = std::sync::OnceLock::new();
    T.get_or_init(|| rows!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15))
}

fn set(w: &World, seed: u64) { WORLD.with(|x| *x.borrow_mut() = (w.clone(), Rng::new(seed))); }
fn ids(w: &World, seed: u64) -> Vec<TypeId> {
    set(w, seed);
    (0..w.slots.len()).map(|i| TypeId::compute_from_dyn(table()[i])).collect()
}

const WORDS: [&str; 12] = ["a", "b", "foo", "bar", "bar_baz", "ä", "x1", "value", "f0", "Foo", "self", "oné"];
fn word(r: &mut Rng) -> String { if r.chance(2, 3) { WORDS[r.below(WORDS.len())].into() } else { format!("{}{}", WORDS[r.below(WORDS.len())], r.below(100)) } }
fn doc(r: &mut Rng) -> Option<String> { if r.chance(1, 2) { None } else { Some(format!(" {} {}", word(r), r.below(1000))) } }
fn id(r: &mut Rng) -> u32 { match r.below(4) { 0 | 1 => r.below(10) as u32, 2 => r.below(70000) as u32, _ => r.next() as u32 } }

impl World {
    fn fb(r: &mut Rng) -> Option<Fb> { if r.chance(1, 2) { None } else { Some(Fb { name: word(r), doc: doc(r) }) } }
    fn members(r: &mut Rng, n: usize, ty: &mut dyn FnMut(&mut Rng) -> usize, kind: u8) -> Vec<Member> {
        let mut v: Vec<Member> = vec![];
        for _ in 0..n {
            let i = id(r);
            if v.iter().any(|m| m.id == i) { continue; }
            let mut tys = [None; 3];
            match kind {
                b's' => tys[0] = Some(ty(r)),
                b'f' => for t in &mut tys { if r.chance(1, 2) { *t = Some(ty(r)); } },
                _ => if r.chance(2, 3) { tys[0] = Some(ty(r)); },
            }
            v.push(Member { id: i, name: word(r), doc: doc(r), req: kind == b's' && r.chance(1, 2), tys });
        }
        v
    }
    fn def(r: &mut Rng, kind: usize, ty: &mut dyn FnMut(&mut Rng) -> usize) -> Def {
        let n = r.below(5);
        match kind {
            0 | 1 => Def::Struct(World::members(r, n, ty, b's'), World::fb(r)),
            2 | 3 => Def::Enum(World::members(r, n, ty, b'v'), World::fb(r)),
            4 => Def::Newtype(ty(r)),
            _ => Def::Service { uuid: r.next() as u128 | ((r.next() as u128) << 64), version: id(r), fns: World::members(r, n, ty, b'f'),
                evs: { let k = r.below(4); World::members(r, k, ty, b'e') }, ffb: World::fb(r), efb: World::fb(r) },
        }
    }
    fn gen(r: &mut Rng) -> World {
        let (np, nc, nk) = (1 + r.below(PRIMS.len()), 1 + r.below(8), r.below(12));
        let mut prims: Vec<usize> = (0..PRIMS.len()).collect();
        prims = shuffled(r, &prims);
        let mut slots: Vec<Slot> = prims[..np].iter().map(|p| Slot { schema: String::new(), name: String::new(), doc: None, def: Def::Prim(*p) }).collect();
        let mut used = HashSet::new();
        let schemas = [word(r), word(r)];
        for _ in 0..nc {
            let kind = r.below(6);
            let (schema, name) = loop {
                let x = (schemas[r.below(2)].clone(), word(r));
                // a service may share its name with a type
                if used.insert((x.clone(), kind == 5)) { break x; }
            };
            slots.push(Slot { schema, name, doc: doc(r), def: Def::Newtype(kind) });
        }
        let all = np + nc + nk;
        for i in 0..nk {
            let k = r.below(9);
            let lim = np + nc + i;
            let c = (0..if k == 6 || k == 7 { 2 } else { 1 }).map(|_| if r.chance(1, 3) { np + r.below(nc) } else { r.below(lim) }).collect();
            slots.push(Slot { schema: String::new(), name: String::new(), doc: None, def: Def::Comp(k, c, if k == 8 { id(r) } else { 0 }) });
        }
        for i in np..np + nc {
            let Def::Newtype(kind) = slots[i].def else { unreachable!() };
            slots[i].def = World::def(r, kind, &mut |r| match r.below(4) { 0 => np + r.below(nc), _ => r.below(all) });
        }
        World { slots }
    }
    /// other documentation and another numbering of the types
    fn same(&self, r: &mut Rng) -> (World, Vec<usize>) {
        let n = self.slots.len();
        let to = shuffled(r, &(0..n).collect::<Vec<_>>());
        let mut w = World { slots: vec![Slot { schema: String::new(), name: String::new(), doc: None, def: Def::Prim(0) }; n] };
        for i in 0..n {
            let mut s = self.slots[i].clone();
            s.doc = doc(r);
            let fix = |ms: &mut Vec<Member>, r: &mut Rng| { for m in ms.iter_mut() { m.doc = doc(r); for t in m.tys.iter_mut().flatten() { *t = to[*t]; } } };
            let fbd = |f: &mut Option<Fb>, r: &mut Rng| if let Some(f) = f { f.doc = doc(r); };
            match &mut s.def {
                Def::Prim(_) => {}
                Def::Comp(_, c, _) => for x in c { *x = to[*x]; },
                Def::Struct(m, f) | Def::Enum(m, f) => { fix(m, r); fbd(f, r); }
                Def::Newtype(t) => *t = to[*t],
                Def::Service { fns, evs, ffb, efb, .. } => { fix(fns, r); fix(evs, r); fbd(ffb, r); fbd(efb, r); }
            }
            w.slots[to[i]] = s;
        }
        (w, to)
    }
    fn below(&self, i: usize, j: usize) -> bool {
        // j occurs in the label of i
        i == j || match &self.slots[i].def { Def::Comp(_, c, _) => c.iter().any(|x| self.below(*x, j)), _ => false }
    }
    /// one change of one type, or nothing if this one has nothing of the kind
    fn edit(&self, r: &mut Rng, k: usize) -> Option<(World, &'static str)> {
        let mut w = self.clone();
        let n = w.slots.len();
        let other = |r: &mut Rng, t: usize| { let x = r.below(n); if self.label(x) == self.label(t) { None } else { Some(x) } };
        let fresh = |r: &mut Rng, old: &str| loop { let x = if r.chance(1, 2) { format!("{old}_") } else { word(r) }; if x != old { return x; } };
        let member = |ms: &mut Vec<Member>, r: &mut Rng, kind: u8| -> Option<&'static str> {
            let what = r.below(6);
            if what == 0 {
                let i = loop { let i = id(r); if ms.iter().all(|m| m.id != i) { break i; } };
                let mut tys = [None; 3];
                if kind == b's' || r.chance(1, 2) { tys[0] = Some(r.below(n)); }
                ms.push(Member { id: i, name: word(r), doc: None, req: false, tys });
                return Some("member added");
            }
            if ms.is_empty() { return None; }
            let j = r.below(ms.len());
            match what {
                1 => { ms.remove(j); Some("member removed") }
                2 => { let i = loop { let i = if r.chance(1, 2) { ms[j].id ^ (1 << r.below(32)) } else { id(r) }; if ms.iter().all(|m| m.id != i) { break i; } }; ms[j].id = i; Some("id") }
                3 => { ms[j].name = fresh(r, &ms[j].name.clone()); Some("member name") }
                4 if kind == b's' => { ms[j].req = !ms[j].req; Some("required") }
                _ => {
                    let s = if kind == b'f' { r.below(3) } else { 0 };
                    ms[j].tys[s] = match ms[j].tys[s] {
                        None => Some(r.below(n)),
                        Some(_) if kind != b's' && r.chance(1, 3) => None,
                        Some(_) if kind == b'f' && r.chance(1, 3) => { let a = ms[j].tys[s]; let o = (s + 1) % 3; let b = ms[j].tys[o];
                            if a.map(|x| self.label(x)) == b.map(|x| self.label(x)) { return None; } ms[j].tys[o] = a; b }
                        Some(t) => Some(other(r, t)?),
                    };
                    Some("member type")
                }
            }
        };
        let fallback = |f: &mut Option<Fb>, r: &mut Rng| {
            *f = match f.take() { None => Some(Fb { name: word(r), doc: None }), Some(_) if r.chance(1, 2) => None, Some(x) => Some(Fb { name: fresh(r, &x.name), doc: x.doc }) };
            Some("fallback")
        };
        let s = &mut w.slots[k];
        let custom = !matches!(s.def, Def::Prim(_) | Def::Comp(..));
        let what = match (r.below(4), &mut s.def) {
            (0, _) if custom => {
                let svc = matches!(s.def, Def::Service { .. });
                let schema = r.chance(1, 2);
                let (a, b) = if schema { (fresh(r, &s.schema), s.name.clone()) } else { (s.schema.clone(), fresh(r, &s.name)) };
                if self.slots.iter().any(|x| !matches!(x.def, Def::Prim(_) | Def::Comp(..)) && (&x.schema, &x.name) == (&a, &b) && matches!(x.def, Def::Service { .. }) == svc) { return None; }
                (s.schema, s.name) = (a, b);
                Some(if schema { "schema" } else { "name" })
            }
            (_, Def::Prim(_)) => None,
            (_, Def::Comp(k2, c, len)) => match r.below(3) {
                0 => { let x = match k2 { 0..=5 => r.below(6), 6 => 7, 7 => 6, _ => return None }; if x == *k2 { return None; } *k2 = x; Some("kind of built-in") }
                1 if *k2 == 8 => { *len ^= 1 << r.below(32); Some("array length") }
                1 if c.len() == 2 && self.label(c[0]) != self.label(c[1]) => { c.swap(0, 1); Some("swapped") }
                _ => { let j = r.below(c.len()); let x = r.below(n); if self.below(x, k) || self.label(x) == self.label(c[j]) { return None; } c[j] = x; Some("element type") }
            },
            (1, Def::Struct(_, f)) | (1, Def::Enum(_, f)) => fallback(f, r),
            (_, Def::Struct(m, _)) => member(m, r, b's'),
            (2, Def::Enum(m, f)) if m.is_empty() => { let f = f.clone(); s.def = Def::Struct(vec![], f); Some("kind of type") }
            (_, Def::Enum(m, _)) => member(m, r, b'v'),
            (_, Def::Newtype(t)) => { *t = other(r, *t)?; Some("target") }
            (1, Def::Service { ffb, efb, .. }) => match (r.below(3), ffb.is_some() != efb.is_some()) { (0, true) => { std::mem::swap(ffb, efb); Some("fallbacks swapped") } (1, _) => fallback(ffb, r), _ => fallback(efb, r) },
            (2, Def::Service { uuid, version, .. }) => if r.chance(1, 2) { *uuid ^= 1 << r.below(128); Some("uuid") } else { *version ^= 1 << r.below(32); Some("version") },
            (_, Def::Service { fns, evs, .. }) => if r.chance(1, 2) { member(fns, r, b'f') } else { member(evs, r, b'e') },
        };
        what.map(|x| (w, x))
    }
}

fn layouts(seed: u64) -> Res<usize> {
    let mut r = Rng::new(seed);
    let w = World::gen(&mut r);
    let a = ids(&w, r.next());
    let mut items = a.len();
    // equal ids only for the same description
    let mut by: HashMap<TypeId, String> = HashMap::new();
    let mut lex: HashMap<LexicalId, String> = HashMap::new();
    for (i, t) in a.iter().enumerate() {
        let l = w.label(i);
        if let Some(o) = by.insert(*t, l.clone()) { if o != l { return Err(format!("{o} and {l} have the type id {t}")); } }
        if let Some(o) = lex.insert(w.lex(i), l.clone()) { if o != l { return Err(format!("{o} and {l} have the same lexical id")); } }
    }
    let (w2, to) = w.same(&mut r);
    let b = ids(&w2, r.next());
    for i in 0..a.len() {
        if a[i] != b[to[i]] { return Err(format!("the type id of {} depends on more than its description: {} and {}; types: {:?}", w.label(i), a[i], b[to[i]], w.slots[i])); }
    }
    for _ in 0..12 {
        let k = r.below(w.slots.len());
        let Some((e, what)) = w.edit(&mut r, k) else { continue };
        let b = ids(&e, r.next());
        items += 1;
        // the label of a built-in type is its description, so a changed one also changes what refers to it
        for i in 0..a.len() {
            let must = w.reach(i).contains(&k);
            if must == (a[i] == b[i]) {
                return Err(format!("{what} of {} changed, the type id of {} {}; before: {:?}; after: {:?}", w.label(k), w.label(i), if must { "did not" } else { "did, without referring to it" }, w.slots[k], e.slots[k]));
            }
        }
    }
    set(&w, r.next());
    let lexs: Vec<LexicalId> = (0..w.slots.len()).map(|i| w.lex(i)).collect();
    for i in 0..a.len() { record(&w, i, &a, &lexs, table()[i])?; }
    Ok(items + a.len())
}

fn built_in(w: &World, d: &Def, ids: &[TypeId]) -> BuiltInType {
    let _ = w;
    match d {
        Def::Prim(p) => { use BuiltInType::*; [Bool, U8, I8, U16, I16, U32, I32, U64, I64, F32, F64, String, Uuid, ObjectId, ServiceId, Value, Bytes, Lifetime, Unit][*p] }
        _ => unreachable!("{ids:?}"),
    }
}

/// what the record of a type says, against the description and the ids of all types
fn record(w: &World, i: usize, ids: &[TypeId], lex: &[LexicalId], d: DynIntrospectable) -> Res<()> {
    let l = w.label(i);
    let bad = |what: &str| Err(format!("the record of {l}: {what}; {:?}", w.slots[i]));
    if d.lexical_id() != lex[i] || d.layout().lexical_id() != lex[i] { return bad("lexical id"); }
    let mut ir = None;
    let rec = crate::exec::caught(|| { let x = IntrospectionIr::from_dyn(d); ir = Some(x.clone()); (Introspection::from_ir(x), Introspection::from_dyn(d)) });
    let (rec, again) = match rec { Ok(x) => x, Err(e) => return bad(&format!("panic: {e}")) };
    let ir = ir.unwrap();
    if rec != again { return bad("differs when built again"); }
    if rec.type_id() != ids[i] || ir.type_id() != ids[i] { return bad("type id"); }
    let refs: HashSet<TypeId> = w.refs(i).iter().map(|x| ids[*x]).collect();
    if *rec.references() != refs || rec.iter_references().collect::<HashSet<_>>() != refs { return bad("references"); }
    for x in w.refs(i) { if ir.resolve(lex[x]) != Some(ids[x]) || lex[x].resolve(&ir) != Some(ids[x]) { return bad("a reference does not resolve"); } }
    let s = &w.slots[i];
    let at = |t: &Option<usize>| t.map(|t| ids[t]);
    let fine = match (&s.def, rec.layout()) {
        (Def::Prim(_), Layout::BuiltIn(b)) => *b == built_in(w, &s.def, ids),
        (Def::Comp(k, c, n), Layout::BuiltIn(b)) => {
            use BuiltInType::*;
            let x = ids[c[0]];
            match (k, b) {
                (0, Option(t)) | (1, Box(t)) | (2, Vec(t)) | (3, Set(t)) | (4, Sender(t)) | (5, Receiver(t)) => *t == x,
                (6, Map(m)) => m.key() == x && m.value() == ids[c[1]],
                (7, Result(m)) => m.ok() == x && m.err() == ids[c[1]],
                (8, Array(m)) => m.elem_type() == x && m.len() == *n,
                _ => false,
            }
        }
        (Def::Struct(ms, f), Layout::Struct(t)) => t.schema() == s.schema && t.name() == s.name && t.doc() == s.doc.as_deref() && t.fields().len() == ms.len()
            && ms.iter().all(|m| t.fields().get(&m.id).map(|x| x.id() == m.id && x.name() == m.name && x.doc() == m.doc.as_deref() && x.is_required() == m.req && Some(x.field_type()) == at(&m.tys[0])).unwrap_or(false))
            && t.fallback().map(|x| (x.name(), x.doc())) == f.as_ref().map(|x| (x.name.as_str(), x.doc.as_deref())),
        (Def::Enum(ms, f), Layout::Enum(t)) => t.schema() == s.schema && t.name() == s.name && t.doc() == s.doc.as_deref() && t.variants().len() == ms.len()
            && ms.iter().all(|m| t.variants().get(&m.id).map(|x| x.id() == m.id && x.name() == m.name && x.doc() == m.doc.as_deref() && x.variant_type() == at(&m.tys[0])).unwrap_or(false))
            && t.fallback().map(|x| (x.name(), x.doc())) == f.as_ref().map(|x| (x.name.as_str(), x.doc.as_deref())),
        (Def::Newtype(x), Layout::Newtype(t)) => t.schema() == s.schema && t.name() == s.name && t.doc() == s.doc.as_deref() && t.target_type() == ids[*x],
        (Def::Service { uuid, version, fns, evs, ffb, efb }, Layout::Service(t)) => t.schema() == s.schema && t.name() == s.name && t.doc() == s.doc.as_deref() && t.uuid().0.as_u128() == *uuid && t.version() == *version
            && t.functions().len() == fns.len() && t.events().len() == evs.len()
            && fns.iter().all(|m| t.functions().get(&m.id).map(|x| x.id() == m.id && x.name() == m.name && x.doc() == m.doc.as_deref() && x.args() == at(&m.tys[0]) && x.ok() == at(&m.tys[1]) && x.err() == at(&m.tys[2])).unwrap_or(false))
            && evs.iter().all(|m| t.events().get(&m.id).map(|x| x.id() == m.id && x.name() == m.name && x.doc() == m.doc.as_deref() && x.event_type() == at(&m.tys[0])).unwrap_or(false))
            && t.function_fallback().map(|x| (x.name(), x.doc())) == ffb.as_ref().map(|x| (x.name.as_str(), x.doc.as_deref()))
            && t.event_fallback().map(|x| (x.name(), x.doc())) == efb.as_ref().map(|x| (x.name.as_str(), x.doc.as_deref())),
        _ => false,
    };
    if !fine { return bad(&format!("says {:?}", rec.layout())); }
    let v = match crate::exec::caught(|| SerializedValue::serialize(&rec)) { Ok(Ok(v)) => v, x => return bad(&format!("does not serialize: {:?}", x.map(|x| x.map(|_| ())))) };
    match crate::exec::caught(|| v.deserialize::<Introspection>()) {
        Ok(Ok(x)) if x == rec => {}
        x => return bad(&format!("deserializes to {x:?}")),
    }
    Ok(())
}

/// reads a description of types, as tools/gen_schemas.py writes it
fn parse(text: &str) -> (World, BTreeMap<(String, String), usize>) {
    let mut w = World { slots: vec![] };
    let mut names = BTreeMap::new();
    let head = ["struct", "enum", "newtype", "service"];
    for l in text.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        if head.contains(&f[0]) {
            names.insert((f[1].to_string(), f[2].to_string()), w.slots.len());
            w.slots.push(Slot { schema: f[1].into(), name: f[2].into(), doc: None, def: Def::Prim(0) });
        }
    }
    let mut cache = HashMap::new();
    let mut cur = 0;
    let fb = |s: &str| if s == "-" { None } else { Some(Fb { name: s.into(), doc: None }) };
    for l in text.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        let mut ty = |w: &mut World, s: &str| if s == "-" { None } else { Some(slot(w, &names, &mut cache, s)) };
        let m = |tys: [Option<usize>; 3], req: bool| Member { id: f[1].parse().unwrap(), name: f[2].into(), doc: None, req, tys };
        match f[0] {
            "struct" => { cur = names[&(f[1].to_string(), f[2].to_string())]; w.slots[cur].def = Def::Struct(vec![], fb(f[3])); }
            "enum" => { cur = names[&(f[1].to_string(), f[2].to_string())]; w.slots[cur].def = Def::Enum(vec![], fb(f[3])); }
            "newtype" => { let i = names[&(f[1].to_string(), f[2].to_string())]; let t = ty(&mut w, f[3]).unwrap(); w.slots[i].def = Def::Newtype(t); }
            "service" => {
                cur = names[&(f[1].to_string(), f[2].to_string())];
                w.slots[cur].def = Def::Service { uuid: f[3].parse::<uuid::Uuid>().unwrap().as_u128(), version: f[4].parse().unwrap(), fns: vec![], evs: vec![], ffb: fb(f[5]), efb: fb(f[6]) };
            }
            k => {
                let x = match k {
                    "field" => m([ty(&mut w, f[4]), None, None], f[3] == "1"),
                    "fn" => { let a = [ty(&mut w, f[3]), ty(&mut w, f[4]), ty(&mut w, f[5])]; m(a, false) }
                    _ => m([ty(&mut w, f[3]), None, None], false),
                };
                match &mut w.slots[cur].def {
                    Def::Struct(ms, _) | Def::Enum(ms, _) => ms.push(x),
                    Def::Service { fns, evs, .. } => if k == "fn" { fns.push(x) } else { evs.push(x) },
                    _ => unreachable!(),
                }
            }
        }
    }
    assert!(w.slots.len() <= MAX, "{} types", w.slots.len());
    (w, names)
}
fn slot(w: &mut World, names: &BTreeMap<(String, String), usize>, cache: &mut HashMap<String, usize>, s: &str) -> usize {
    if let Some(i) = cache.get(s) { return *i; }
    let split = |s: &str| -> Vec<String> {
        let mut d = 0;
        let (mut v, mut cur) = (vec![], String::new());
        let b: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < b.len() {
            match b[i] {
                '-' if b.get(i + 1) == Some(&'>') && d == 0 => { v.push(std::mem::take(&mut cur)); i += 2; continue; }
                '-' if b.get(i + 1) == Some(&'>') => { cur.push_str("->"); i += 2; continue; }
                ',' | ';' if d == 0 => { v.push(std::mem::take(&mut cur)); i += 1; continue; }
                '<' | '[' => d += 1,
                '>' | ']' => d -= 1,
                _ => {}
            }
            cur.push(b[i]);
            i += 1;
        }
        v.push(cur);
        v
    };
    let def = if let Some(p) = PRIMS.iter().position(|p| p.0 == s) { Def::Prim(p) }
    else if let Some((a, b)) = s.split_once("::").filter(|_| !s.contains('<') && !s.contains('[')) { return names[&(a.to_string(), b.to_string())]; }
    else if let Some(x) = s.strip_prefix('[') {
        let p = split(x.strip_suffix(']').unwrap());
        Def::Comp(8, vec![slot(w, names, cache, &p[0])], p[1].parse().unwrap())
    } else {
        let (k, x) = s.split_once('<').unwrap();
        let p = split(x.strip_suffix('>').unwrap());
        Def::Comp(COMPS.iter().position(|c| *c == k).unwrap(), p.iter().map(|x| slot(w, names, cache, x)).collect(), 0)
    };
    w.slots.push(Slot { schema: String::new(), name: String::new(), doc: None, def });
    cache.insert(s.into(), w.slots.len() - 1);
    w.slots.len() - 1
}

/// every type that the generator emits for schema `c`, against the ids of the same types built by hand
fn generated(seed: u64) -> Res<usize> {
    let c = seed as usize % CASES.len();
    let (text, rust) = &CASES[c];
    let (w, names) = parse(text);
    let a = ids(&w, seed);
    let lexs: Vec<LexicalId> = (0..w.slots.len()).map(|i| w.lex(i)).collect();
    for (schema, name, ds) in rust.iter() {
        let i = names[&(schema.to_string(), name.to_string())];
        for (v, d) in ds.iter().enumerate() {
            let d = d();
            let got = TypeId::compute_from_dyn(d);
            let at = format!("schema c{c}{}: {schema}::{name}", ["a", "b"][v]);
            if got != a[i] { return Err(format!("{at}: type id {got}, the description gives {}; {:?}, described as {:?}", a[i], d.layout(), with(|w, r| w.layout(i, r)))); }
            // without documentation the whole record is determined
            if v == 0 { record(&w, i, &a, &lexs, d).map_err(|e| format!("{at}: {e}"))?; }
            else {
                let rec = crate::exec::caught(|| Introspection::from_dyn(d)).map_err(|e| format!("{at}: panic: {e}"))?;
                if rec.type_id() != a[i] || *rec.references() != w.refs(i).iter().map(|x| a[*x]).collect() { return Err(format!("{at}: record")); }
                let v = SerializedValue::serialize(&rec).map_err(|e| format!("{at}: {e:?}"))?;
                if v.deserialize::<Introspection>().as_ref() != Ok(&rec) { return Err(format!("{at}: the record does not round-trip")); }
            }
        }
    }
    // the types of the library that the schemas' types stand for
    derived()?;
    Ok(rust.len())
}

mod dm {
    use std::collections::{BTreeMap, HashMap, HashSet};
    use aldrin::Introspectable;
    #[derive(Debug, Clone, aldrin::Tag, aldrin::PrimaryTag, aldrin::RefType, aldrin::Serialize, aldrin::Deserialize, Introspectable)] #[aldrin(schema = "dm", ref_type)] #[allow(dead_code)]
    pub struct Tuple(pub u8, #[aldrin(optional)] pub Option<Option<String>>, #[aldrin(id = 9)] pub Vec<Named>, pub [Box<i8>; 3]);
    /// doc
    #[derive(Debug, Clone, aldrin::Tag, aldrin::PrimaryTag, aldrin::RefType, aldrin::Serialize, aldrin::Deserialize, Introspectable)] #[aldrin(schema = "dm", doc = "other", ref_type)] #[allow(dead_code)]
    pub struct Named { #[aldrin(id = 4, optional)] pub a: Option<HashMap<u32, Kind>>, /** doc */ pub r#type: (), pub c: HashSet<i64>, #[aldrin(fallback)] pub rest: aldrin_core::UnknownFields, }
    #[derive(Debug, Clone, aldrin::Tag, aldrin::PrimaryTag, aldrin::RefType, aldrin::Serialize, aldrin::Deserialize, Introspectable)] #[aldrin(schema = "dm", ref_type)] #[allow(dead_code)]
    pub enum Kind { A, B(BTreeMap<String, Wrap>), #[aldrin(id = 77)] C, D(bytes::Bytes), E(Result<Tuple, Box<Named>>), #[aldrin(fallback)] Unknown(aldrin_core::UnknownVariant) }
    #[derive(Debug, Clone, aldrin::Tag, aldrin::PrimaryTag, aldrin::RefType, aldrin::Serialize, aldrin::Deserialize, Introspectable)] #[aldrin(schema = "dm", newtype, ref_type)]
    pub struct Wrap(pub HashSet<u16>);
    #[derive(Debug, Clone, aldrin::Tag, aldrin::PrimaryTag, aldrin::RefType, aldrin::Serialize, aldrin::Deserialize, Introspectable)] #[aldrin(schema = "dm", ref_type)]
    pub struct Unit;
    #[derive(Debug, Clone, aldrin::Tag, aldrin::PrimaryTag, aldrin::RefType, aldrin::Serialize, aldrin::Deserialize, Introspectable)] #[aldrin(schema = "dm", ref_type)] #[allow(dead_code)]
    pub struct Gone(pub Unit, #[aldrin(fallback)] pub aldrin_core::UnknownFields);
    aldrin::service! {
        #[aldrin(schema = "dm", introspection)]
        /// doc
        pub service Svc {
            uuid = aldrin_core::ServiceUuid(uuid::uuid!("01234567-89ab-4def-8123-456789abcdef"));
            version = 3;
            /// doc
            fn get @ 7 { args = Tuple; ok = u8; err = Kind; }
            fn simple @ 1 = ();
            fn nothing @ 3;
            event ev @ 2 = Wrap;
            event plain @ 7;
            event other = aldrin::UnknownEvent;
        }
    }
}
const DM: &str = "struct dm Tuple -
field 0 field0 1 u8
field 1 field1 0 option<string>
field 9 field2 1 vec<dm::Named>
field 10 field3 1 [box<i8>;3]
struct dm Named rest
field 4 a 0 map<u32->dm::Kind>
field 5 type 1 unit
field 6 c 1 set<i64>
enum dm Kind Unknown
variant 0 A -
variant 1 B map<string->dm::Wrap>
variant 77 C -
variant 78 D bytes
variant 79 E result<dm::Tuple,box<dm::Named>>
newtype dm Wrap set<u16>
struct dm Unit -
struct dm Gone fallback
field 0 field0 1 dm::Unit
service dm Svc 01234567-89ab-4def-8123-456789abcdef 3 - other
fn 7 get dm::Tuple u8 dm::Kind
fn 1 simple - unit -
fn 3 nothing - - -
event 2 ev dm::Wrap
event 7 plain -
";
fn derived() -> Res<()> {
    let (w, names) = parse(DM);
    let a = ids(&w, 1);
    let all: [(&str, DynIntrospectable); 8] = [("Tuple", DynIntrospectable::new::<dm::Tuple>()), ("Named", DynIntrospectable::new::<dm::Named>()), ("Kind", DynIntrospectable::new::<dm::Kind>()),
        ("Wrap", DynIntrospectable::new::<dm::Wrap>()), ("Unit", DynIntrospectable::new::<dm::Unit>()), ("Gone", DynIntrospectable::new::<dm::Gone>()), ("Svc", DynIntrospectable::new::<dm::Svc>()), ("Svc", DynIntrospectable::new::<dm::SvcProxy>())];
    for (n, d) in all {
        let i = names[&("dm".to_string(), n.to_string())];
        if TypeId::compute_from_dyn(d) != a[i] { return Err(format!("derived dm::{n}: type id {}, the description gives {}; {:?}", TypeId::compute_from_dyn(d), a[i], d.layout())); }
        if d.lexical_id() != w.lex(i) { return Err(format!("derived dm::{n}: lexical id")); }
        let rec = crate::exec::caught(|| Introspection::from_dyn(d)).map_err(|e| format!("derived dm::{n}: panic: {e}"))?;
        if *rec.references() != w.refs(i).iter().map(|x| a[*x]).collect() { return Err(format!("derived dm::{n}: references")); }
    }
    Ok(())
}

macro_rules! lib { ($($t:ty => $s:expr),* $(,)?) => { vec![$((stringify!($t), DynIntrospectable::new::<$t>(), $s)),*] } }
/// the implementations for the types of the library
fn library(seed: u64) -> Res<usize> {
    use aldrin_core::*;
    use std::collections::*;
    let all: Vec<(&str, DynIntrospectable, &str)> = lib![
        bool => "bool", u8 => "u8", i8 => "i8", u16 => "u16", i16 => "i16", u32 => "u32", i32 => "i32", u64 => "u64", i64 => "i64", f32 => "f32", f64 => "f64",
        String => "string", str => "string", uuid::Uuid => "uuid", ObjectUuid => "uuid", ObjectCookie => "uuid", ServiceUuid => "uuid", ServiceCookie => "uuid", TypeId => "uuid",
        ObjectId => "object_id", ServiceId => "service_id", Value => "value", SerializedValue => "value", SerializedValueSlice => "value",
        Bytes => "bytes", ByteSlice => "bytes", bytes::Bytes => "bytes", bytes::BytesMut => "bytes", () => "unit",
        Option<u8> => "option<u8>", Box<u16> => "box<u16>", &u32 => "box<u32>", &mut i32 => "box<i32>", Vec<String> => "vec<string>", VecDeque<()> => "vec<unit>", LinkedList<f32> => "vec<f32>", [i64] => "vec<i64>", [f64; 7] => "[f64;7]", [u8; 0] => "[u8;0]",
        HashMap<u8, String> => "map<u8->string>", BTreeMap<String, u8> => "map<string->u8>", HashSet<i16> => "set<i16>", BTreeSet<u64> => "set<u64>", Result<u8, i8> => "result<u8,i8>",
        Option<Vec<HashMap<u8, Result<Box<bool>, [(); 3]>>>> => "option<vec<map<u8->result<box<bool>,[unit;3]>>>>",
        aldrin::UnboundSender<u8> => "sender<u8>", aldrin::UnboundReceiver<Vec<u8>> => "receiver<vec<u8>>", aldrin::LifetimeId => "lifetime",
    ];
    let mut seen: HashMap<TypeId, &str> = HashMap::new();
    for (n, d, s) in &all {
        let mut w = World { slots: vec![] };
        let i = slot(&mut w, &BTreeMap::new(), &mut HashMap::new(), s);
        let a = ids(&w, seed);
        let lexs: Vec<LexicalId> = (0..w.slots.len()).map(|i| w.lex(i)).collect();
        if TypeId::compute_from_dyn(*d) != a[i] { return Err(format!("{n} is not a {s}: {:?}", d.layout())); }
        if let Some(o) = seen.insert(a[i], s) { if o != *s { return Err(format!("{o} and {s} have the same type id")); } }
        record(&w, i, &a, &lexs, *d).map_err(|e| format!("{n}: {e}"))?;
    }
    Ok(all.len())
}

pub fn one(kind: &str, seed: u64) -> Res<usize> {
    match kind {
        "layouts" => layouts(seed),
        "generated" => generated(seed),
        _ => library(seed),
    }
}
