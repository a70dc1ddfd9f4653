//! Reference model of the broker, written from the properties: sequential, one event at a time.
use crate::wire::{Fr, F, NAMES};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;

pub type C = usize;
/// Symbol: an identifier the broker chooses (cookie or serial); bound when first observed.
pub type Sym = usize;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum X { N(u32), U([u8; 16]), D(u8), Ck(Sym), Sn(Sym) }
impl fmt::Debug for X {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            X::N(n) => write!(f, "{n}"),
            X::D(n) => write!(f, "#{n}"),
            X::U(u) => write!(f, "{:?}", F::U(*u)),
            X::Ck(s) => write!(f, "id{s}"),
            X::Sn(s) => write!(f, "serial{s}"),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum PV {
    /// payload: bytes sent, version of the sender (None: produced by the broker in current encoding)
    Bytes(Vec<u8>, u32),
    Info(Info),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Info { pub version: u32, pub tid: Option<[u8; 16]>, pub all: Option<bool> }

/// A message over symbols.
#[derive(Clone, PartialEq, Eq)]
pub struct M { pub k: u8, pub val: Option<PV>, pub f: Vec<X> }
impl fmt::Debug for M {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}{:?}", NAMES[self.k as usize], self.f)?;
        match &self.val {
            Some(PV::Bytes(b, v)) => write!(f, " value={} (1.{v})", crate::wire::hex(&b[..b.len().min(24)])),
            Some(PV::Info(i)) => write!(f, " {i:?}"),
            None => Ok(()),
        }
    }
}
pub fn m(k: u8, f: Vec<X>) -> M { M { k, val: None, f } }
pub fn mv(k: u8, f: Vec<X>, v: PV) -> M { M { k, val: Some(v), f } }
impl M {
    pub fn frame(&self, ck: &dyn Fn(Sym) -> [u8; 16], sn: &dyn Fn(Sym) -> u32) -> Fr {
        Fr {
            k: self.k,
            val: match &self.val { Some(PV::Bytes(b, _)) => Some(b.clone()), _ => None },
            f: self.f.iter().map(|x| match *x {
                X::N(n) => F::N(n), X::U(u) => F::U(u), X::D(d) => F::D(d), X::Ck(s) => F::U(ck(s)), X::Sn(s) => F::N(sn(s)),
            }).collect(),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Ev {
    Connect(C, u32),
    /// the connection told the broker it is gone (clean, transport error or dropped task)
    Gone(C, Why),
    Force(C),
    Msg(C, M),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Why { Clean, Transport, Dropped }

#[derive(Clone, Debug)]
pub struct Svc {
    pub obj: Sym, pub uuid: [u8; 16], pub info: Info,
    pub ev: BTreeMap<u32, BTreeSet<C>>, pub all: BTreeSet<C>, pub subs: BTreeSet<C>,
}
#[derive(Clone, Debug)]
pub struct Obj { pub uuid: [u8; 16], pub owner: C }
#[derive(Clone, Debug)]
pub struct Call { pub caller: C, pub cser: u32, pub svc: Sym, pub aborted: bool }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End { Un, Cl(C, u32), Closed }
#[derive(Clone, Debug)]
pub struct Chan { pub s: End, pub r: End }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Filt { pub kind: u8, pub a: [u8; 16], pub b: [u8; 16] }
#[derive(Clone, Debug)]
pub struct Lis { pub owner: C, pub filters: BTreeSet<Filt>, pub scope: Option<u8> }
#[derive(Clone, Debug, Default)]
pub struct Intro { pub conns: BTreeSet<C>, pub value: Option<PV>, pub queried: Option<(Sym, Option<C>)>, pub pending: Vec<(C, u32)> }

#[derive(Clone, Default)]
pub struct Model {
    pub conns: BTreeMap<C, u32>,
    pub objs: BTreeMap<Sym, Obj>,
    pub svcs: BTreeMap<Sym, Svc>,
    pub calls: BTreeMap<Sym, Call>,
    pub chans: BTreeMap<Sym, Chan>,
    pub lis: BTreeMap<Sym, Lis>,
    pub intro: BTreeMap<[u8; 16], Intro>,
    pub nsym: usize,
    /// connections whose task was dropped; the broker notices at its next attempt to send to them
    pub zombies: BTreeSet<C>,
}
#[derive(Clone, Default)]
pub struct Exp {
    pub out: Vec<(C, M)>,
    /// messages that go to one connection out of a set, chosen by the broker; with the type queried
    pub any: Vec<(BTreeSet<C>, M, [u8; 16])>,
    pub removed: Vec<C>,
    pub fresh_ck: Vec<Sym>,
    pub fresh_sn: Vec<Sym>,
    pub closing: bool,
    pub gated: bool,
    bus: Vec<(u8, Sym, Option<Sym>, [u8; 16], [u8; 16])>,
}

/// Minor version a message kind first appeared in (kinds not listed exist since 1.14).
pub fn since(k: u8) -> u32 {
    match k { 48 => 16, 49 | 50 | 51 | 52 | 53 | 54 => 17, 55..=61 => 18, 62 => 19, 46 | 47 => 15, _ => 14 }
}
const NOBODY: [u8; 16] = [0; 16];
pub fn filt(f: &[X]) -> Filt {
    let g = |i: usize| match f.get(i) { Some(X::U(u)) => *u, _ => NOBODY };
    let X::D(kind) = f[0] else { panic!() };
    match kind {
        1 | 3 => Filt { kind, a: g(1), b: NOBODY },
        4 => Filt { kind, a: NOBODY, b: g(1) },
        5 => Filt { kind, a: g(1), b: g(2) },
        _ => Filt { kind, a: NOBODY, b: NOBODY },
    }
}
impl Lis {
    fn obj(&self, u: &[u8; 16]) -> bool {
        self.filters.iter().any(|f| match f.kind { 0 => true, 1 => f.a == *u, _ => false })
    }
    fn svc(&self, o: &[u8; 16], s: &[u8; 16]) -> bool {
        self.filters.iter().any(|f| match f.kind { 2 => true, 3 => f.a == *o, 4 => f.b == *s, 5 => f.a == *o && f.b == *s, _ => false })
    }
    fn new_scope(&self) -> bool { matches!(self.scope, Some(1) | Some(2)) }
}

impl Model {
    fn sym(&mut self) -> Sym { self.nsym += 1; self.nsym - 1 }
    pub fn apply(&mut self, ev: &Ev) -> Exp {
        let mut x = Exp::default();
        match ev {
            Ev::Connect(c, v) => { self.conns.insert(*c, *v); }
            Ev::Gone(c, Why::Dropped) => { if self.conns.contains_key(c) { self.zombies.insert(*c); } }
            Ev::Gone(c, _) => self.remove(*c, false, &mut x),
            Ev::Force(c) => self.remove(*c, true, &mut x),
            Ev::Msg(c, msg) => {
                if let Some(&v) = self.conns.get(c) {
                    x.gated = since(msg.k) > v;
                    if self.msg(*c, v, msg, &mut x).is_err() { x.closing = true; self.remove(*c, false, &mut x); }
                }
            }
        }
        self.bus(&mut x);
        // these handlers do not look at the result of telling the owner
        if !x.closing && matches!(ev, Ev::Msg(_, q) if matches!(q.k, 13 | 58 | 60)) {
            x.out.retain(|o| !(self.zombies.contains(&o.0) && matches!(o.1.k, 13 | 58 | 60)));
        }
        while let Some(z) = x.out.iter().map(|o| o.0).find(|c| self.zombies.contains(c)) {
            x.out.retain(|o| o.0 != z);
            self.remove(z, false, &mut x);
            self.bus(&mut x);
        }
        x
    }
    fn owner(&self, s: Sym) -> C { self.objs[&self.svcs[&s].obj].owner }
    fn bus(&self, x: &mut Exp) {
        let order = |e: u8| match e { 0 => 0, 2 => 1, 3 => 2, _ => 3 };
        let mut evs = std::mem::take(&mut x.bus);
        evs.sort_by_key(|e| order(e.0));
        for (kind, o, s, ou, su) in evs {
            let who: BTreeSet<C> = self.lis.values()
                .filter(|l| l.new_scope() && if s.is_some() { l.svc(&ou, &su) } else { l.obj(&ou) })
                .map(|l| l.owner).collect();
            for c in who {
                let mut f = vec![X::D(0), X::D(kind), X::U(ou), X::Ck(o)];
                if let Some(s) = s { f.push(X::U(su)); f.push(X::Ck(s)); }
                x.out.push((c, m(44, f)));
            }
        }
    }
    fn remove(&mut self, c: C, shutdown: bool, x: &mut Exp) {
        if self.conns.remove(&c).is_none() { return; }
        x.removed.push(c);
        let z = self.zombies.remove(&c);
        if shutdown && !z { x.out.push((c, m(2, vec![]))); }
        self.lis.retain(|_, l| l.owner != c);
        let objs: Vec<Sym> = self.objs.iter().filter(|(_, o)| o.owner == c).map(|(s, _)| *s).collect();
        for o in objs { self.rm_obj(o, x); }
        let svcs: Vec<Sym> = self.svcs.keys().copied().collect();
        for s in svcs {
            let owner = self.owner(s);
            let svc = self.svcs.get_mut(&s).unwrap();
            let mut gone = vec![];
            svc.ev.retain(|e, l| { if l.remove(&c) && l.is_empty() { gone.push(*e); } !l.is_empty() });
            for e in gone { x.out.push((owner, m(15, vec![X::Ck(s), X::N(e)]))); }
            if svc.all.remove(&c) && svc.all.is_empty() { x.out.push((owner, m(60, vec![X::D(0), X::Ck(s)]))); }
            svc.subs.remove(&c);
        }
        let chans: Vec<Sym> = self.chans.keys().copied().collect();
        for ch in &chans {
            if matches!(self.chans.get(ch), Some(Chan { s: End::Cl(o, _), .. }) if *o == c) { self.close_end(*ch, 0, x); }
        }
        for ch in &chans {
            if matches!(self.chans.get(ch), Some(Chan { r: End::Cl(o, _), .. }) if *o == c) { self.close_end(*ch, 1, x); }
        }
        let calls: Vec<Sym> = self.calls.iter().filter(|(_, k)| k.caller == c && !k.aborted).map(|(s, _)| *s).collect();
        for s in calls { self.abort(s, x); }
        let types: Vec<[u8; 16]> = self.intro.keys().copied().collect();
        for t in types {
            let e = self.intro.get_mut(&t).unwrap();
            let was = matches!(e.queried, Some((_, Some(q))) if q == c);
            if was { e.queried = None; }
            e.pending.retain(|p| p.0 != c);
            e.conns.remove(&c);
            if e.conns.is_empty() {
                let e = self.intro.remove(&t).unwrap();
                if was { for (p, ser) in e.pending { if self.conns.contains_key(&p) { x.out.push((p, m(51, vec![X::N(ser), X::D(1)]))); } } }
            } else if was {
                self.ask(t, x);
            }
        }
    }
    fn ask(&mut self, t: [u8; 16], x: &mut Exp) {
        let s = self.sym();
        x.fresh_sn.push(s);
        let e = self.intro.get_mut(&t).unwrap();
        e.queried = Some((s, None));
        x.any.push((e.conns.clone(), m(50, vec![X::Sn(s), X::U(t)]), t));
    }
    fn rm_obj(&mut self, o: Sym, x: &mut Exp) {
        let svcs: Vec<Sym> = self.svcs.iter().filter(|(_, s)| s.obj == o).map(|(s, _)| *s).collect();
        for s in svcs { self.rm_svc(s, x); }
        let ob = self.objs.remove(&o).unwrap();
        x.bus.push((1, o, None, ob.uuid, NOBODY));
    }
    fn rm_svc(&mut self, s: Sym, x: &mut Exp) {
        let svc = self.svcs.remove(&s).unwrap();
        let calls: Vec<Sym> = self.calls.iter().filter(|(_, k)| k.svc == s).map(|(s, _)| *s).collect();
        for k in calls {
            let k = self.calls.remove(&k).unwrap();
            if !k.aborted && self.conns.contains_key(&k.caller) { x.out.push((k.caller, m(12, vec![X::N(k.cser), X::D(3)]))); }
        }
        let mut who: BTreeSet<C> = svc.subs.clone();
        for l in svc.ev.values() { who.extend(l.iter().copied()); }
        for c in who { if self.conns.contains_key(&c) { x.out.push((c, m(32, vec![X::Ck(s)]))); } }
        x.bus.push((3, svc.obj, Some(s), self.objs[&svc.obj].uuid, svc.uuid));
    }
    fn abort(&mut self, s: Sym, x: &mut Exp) {
        let k = self.calls.get_mut(&s).unwrap();
        if k.aborted { return; }
        k.aborted = true;
        let (caller, cser, svc) = (k.caller, k.cser, k.svc);
        let callee = self.owner(svc);
        if self.conns[&callee] >= 16 { x.out.push((callee, m(48, vec![X::Sn(s)]))); }
        if self.conns.contains_key(&caller) { x.out.push((caller, m(12, vec![X::N(cser), X::D(2)]))); }
    }
    /// end: 0 sender, 1 receiver
    fn close_end(&mut self, ch: Sym, end: u8, x: &mut Exp) {
        let c = self.chans.get_mut(&ch).unwrap();
        let other = if end == 0 { c.s = End::Closed; c.r } else { c.r = End::Closed; c.s };
        match other {
            End::Cl(o, _) if self.conns.contains_key(&o) => x.out.push((o, m(23, vec![X::Ck(ch), X::D(end)]))),
            _ => { self.chans.remove(&ch); }
        }
    }
    fn ck(x: &X) -> Sym { if let X::Ck(s) = x { *s } else { usize::MAX } }

    fn msg(&mut self, c: C, ver: u32, q: &M, x: &mut Exp) -> Result<(), ()> {
        if since(q.k) > ver { return Err(()); }
        let n = |i: usize| match q.f[i] { X::N(n) => n, X::D(d) => d as u32, _ => panic!("{q:?}") };
        let u = |i: usize| match q.f[i] { X::U(n) => n, _ => panic!("{q:?}") };
        let s = |i: usize| Self::ck(&q.f[i]);
        let mut say = |k: u8, f: Vec<X>| x.out.push((c, m(k, f)));
        match q.k {
            3 => {
                if self.objs.values().any(|o| o.uuid == u(1)) { say(4, vec![q.f[0], X::D(1)]); return Ok(()); }
                let o = self.sym();
                say(4, vec![q.f[0], X::D(0), X::Ck(o)]);
                x.fresh_ck.push(o);
                self.objs.insert(o, Obj { uuid: u(1), owner: c });
                x.bus.push((0, o, None, u(1), NOBODY));
            }
            5 => match self.objs.get(&s(1)) {
                None => say(6, vec![q.f[0], X::D(1)]),
                Some(o) if o.owner != c => say(6, vec![q.f[0], X::D(2)]),
                Some(_) => { say(6, vec![q.f[0], X::D(0)]); self.rm_obj(s(1), x); }
            },
            7 | 52 => {
                let Some(o) = self.objs.get(&s(1)).cloned() else { say(8, vec![q.f[0], X::D(2)]); return Ok(()); };
                if self.svcs.values().any(|v| v.obj == s(1) && v.uuid == u(2)) { say(8, vec![q.f[0], X::D(1)]); return Ok(()); }
                if o.owner != c { say(8, vec![q.f[0], X::D(3)]); return Ok(()); }
                let info = if q.k == 7 { Info { version: n(3), tid: None, all: None } } else {
                    let Some(PV::Bytes(b, _)) = &q.val else { panic!() };
                    let mut i = parse_info(b).ok_or(())?;
                    if ver < 18 { i.all = Some(false); }
                    i
                };
                let v = self.sym();
                say(8, vec![q.f[0], X::D(0), X::Ck(v)]);
                x.fresh_ck.push(v);
                self.svcs.insert(v, Svc { obj: s(1), uuid: u(2), info, ev: BTreeMap::new(), all: BTreeSet::new(), subs: BTreeSet::new() });
                x.bus.push((2, s(1), Some(v), o.uuid, u(2)));
            }
            9 => {
                if !self.svcs.contains_key(&s(1)) { say(10, vec![q.f[0], X::D(1)]); }
                else if self.owner(s(1)) != c { say(10, vec![q.f[0], X::D(2)]); }
                else { say(10, vec![q.f[0], X::D(0)]); self.rm_svc(s(1), x); }
            }
            11 | 62 => {
                if !self.svcs.contains_key(&s(1)) { say(12, vec![q.f[0], X::D(3)]); return Ok(()); }
                if self.calls.values().any(|k| k.caller == c && k.cser == n(0) && !k.aborted) { return Err(()); }
                let callee = self.owner(s(1));
                let k = self.sym();
                x.fresh_sn.push(k);
                self.calls.insert(k, Call { caller: c, cser: n(0), svc: s(1), aborted: false });
                let mut f = vec![X::Sn(k), q.f[1], q.f[2]];
                if self.conns[&callee] >= 19 {
                    if q.k == 62 { f.extend_from_slice(&q.f[3..]); } else { f.push(X::D(0)); }
                    x.out.push((callee, mv(62, f, q.val.clone().unwrap())));
                } else {
                    x.out.push((callee, mv(11, f, q.val.clone().unwrap())));
                }
            }
            12 => {
                let X::Sn(k) = q.f[0] else { return Ok(()) };
                let Some(call) = self.calls.get(&k).cloned() else { return Ok(()) };
                if self.owner(call.svc) != c { return Ok(()); }
                self.calls.remove(&k);
                if !call.aborted && self.conns.contains_key(&call.caller) {
                    x.out.push((call.caller, M { k: 12, val: q.val.clone(), f: vec![X::N(call.cser), q.f[1]] }));
                }
            }
            48 => {
                let k = self.calls.iter().find(|(_, k)| k.caller == c && k.cser == n(0) && !k.aborted).map(|(s, _)| *s);
                if let Some(k) = k { self.abort(k, x); }
            }
            13 => {
                if q.f[0] == X::D(0) { return Err(()); }
                let (ser, e) = (q.f[1], n(3));
                if !self.svcs.contains_key(&s(2)) { say(14, vec![ser, X::D(1)]); return Ok(()); }
                say(14, vec![ser, X::D(0)]);
                let owner = self.owner(s(2));
                let l = self.svcs.get_mut(&s(2)).unwrap().ev.entry(e).or_default();
                let was = l.is_empty();
                l.insert(c);
                if was { x.out.push((owner, m(13, vec![X::D(0), q.f[2], q.f[3]]))); }
            }
            15 => {
                let Some(svc) = self.svcs.get_mut(&s(0)) else { return Ok(()) };
                let mut last = false;
                if let Some(l) = svc.ev.get_mut(&n(1)) {
                    last = l.remove(&c) && l.is_empty();
                    if l.is_empty() { svc.ev.remove(&n(1)); }
                }
                if last { x.out.push((self.owner(s(0)), m(15, q.f.clone()))); }
            }
            16 => {
                if !self.svcs.contains_key(&s(0)) || self.owner(s(0)) != c { return Ok(()); }
                let svc = &self.svcs[&s(0)];
                let mut who = svc.all.clone();
                if let Some(l) = svc.ev.get(&n(1)) { who.extend(l.iter().copied()); }
                for w in who { x.out.push((w, q.clone())); }
            }
            17 => match self.svcs.get(&s(1)) {
                Some(v) => { let i = v.info.version; say(18, vec![q.f[0], X::D(0), X::N(i)]) }
                None => say(18, vec![q.f[0], X::D(1)]),
            },
            53 => match self.svcs.get(&s(1)) {
                Some(v) => x.out.push((c, mv(54, vec![q.f[0], X::D(0)], PV::Info(v.info)))),
                None => say(54, vec![q.f[0], X::D(1)]),
            },
            55 => match self.svcs.get_mut(&s(1)) {
                Some(v) => { v.subs.insert(c); say(56, vec![q.f[0], X::D(0)]) }
                None => say(56, vec![q.f[0], X::D(1)]),
            },
            57 => if let Some(v) = self.svcs.get_mut(&s(0)) { v.subs.remove(&c); },
            58 => {
                if q.f[0] == X::D(0) { return Err(()); }
                let ser = q.f[1];
                if !self.svcs.contains_key(&s(2)) { say(59, vec![ser, X::D(1)]); return Ok(()); }
                let owner = self.owner(s(2));
                if self.svcs[&s(2)].info.all != Some(true) || self.conns[&owner] < 18 { say(59, vec![ser, X::D(2)]); return Ok(()); }
                say(59, vec![ser, X::D(0)]);
                let svc = self.svcs.get_mut(&s(2)).unwrap();
                let was = svc.all.is_empty();
                svc.all.insert(c);
                if was { x.out.push((owner, m(58, vec![X::D(0), q.f[2]]))); }
            }
            60 => {
                let (ser, i) = if q.f[0] == X::D(0) { (None, 1) } else { (Some(q.f[1]), 2) };
                let mut rep = |r: u8| if let Some(ser) = ser { say(61, vec![ser, X::D(r)]) };
                if !self.svcs.contains_key(&s(i)) { rep(1); return Ok(()); }
                let owner = self.owner(s(i));
                if self.conns[&owner] < 18 { rep(2); return Ok(()); }
                rep(0);
                let svc = self.svcs.get_mut(&s(i)).unwrap();
                if svc.all.remove(&c) && svc.all.is_empty() { x.out.push((owner, m(60, vec![X::D(0), q.f[i]]))); }
            }
            19 => {
                let ch = self.sym();
                x.fresh_ck.push(ch);
                let chan = if n(1) == 0 { Chan { s: End::Cl(c, 0), r: End::Un } } else { Chan { s: End::Un, r: End::Cl(c, n(2)) } };
                self.chans.insert(ch, chan);
                say(20, vec![q.f[0], X::Ck(ch)]);
            }
            21 => {
                let Some(ch) = self.chans.get(&s(1)).cloned() else { say(22, vec![q.f[0], X::D(1)]); return Ok(()); };
                match if n(2) == 0 { ch.s } else { ch.r } {
                    End::Closed => say(22, vec![q.f[0], X::D(1)]),
                    End::Cl(o, _) if o != c => say(22, vec![q.f[0], X::D(2)]),
                    _ => { say(22, vec![q.f[0], X::D(0)]); self.close_end(s(1), n(2) as u8, x); }
                }
            }
            24 => {
                let Some(ch) = self.chans.get_mut(&s(1)) else { say(25, vec![q.f[0], X::D(2)]); return Ok(()); };
                match if n(2) == 0 { ch.s } else { ch.r } {
                    End::Closed => say(25, vec![q.f[0], X::D(2)]),
                    End::Cl(..) => say(25, vec![q.f[0], X::D(3)]),
                    End::Un => {
                        let other = if n(2) == 0 {
                            let End::Cl(o, cap) = ch.r else { panic!("model: channel") };
                            ch.s = End::Cl(c, cap);
                            say(25, vec![q.f[0], X::D(0), X::N(cap)]);
                            o
                        } else {
                            let End::Cl(o, _) = ch.s else { panic!("model: channel") };
                            ch.r = End::Cl(c, n(3));
                            ch.s = End::Cl(o, n(3));
                            say(25, vec![q.f[0], X::D(1)]);
                            o
                        };
                        let mut f = vec![q.f[1]];
                        f.extend_from_slice(&q.f[2..]);
                        x.out.push((other, m(26, f)));
                    }
                }
            }
            29 => {
                if n(1) == 0 { return Ok(()); }
                let Some(ch) = self.chans.get_mut(&s(0)) else { return Ok(()) };
                let End::Cl(o, cap) = ch.r else { return Ok(()) };
                if o != c { return Ok(()); }
                let Some(new) = cap.checked_add(n(1)) else { self.close_end(s(0), 1, x); return Ok(()); };
                ch.r = End::Cl(o, new);
                if let End::Cl(so, scap) = ch.s {
                    if scap <= 4 {
                        ch.s = End::Cl(so, new);
                        x.out.push((so, m(29, vec![q.f[0], X::N(new - scap)])));
                    }
                }
            }
            27 => {
                let Some(ch) = self.chans.get_mut(&s(0)) else { return Ok(()) };
                let End::Cl(o, scap) = ch.s else { return Ok(()) };
                if o != c { return Ok(()); }
                match ch.r {
                    End::Closed => {}
                    End::Un => { self.close_end(s(0), 1, x); self.close_end(s(0), 0, x); }
                    End::Cl(..) if scap == 0 => self.close_end(s(0), 0, x),
                    End::Cl(ro, rcap) => {
                        let (mut scap, rcap) = (scap - 1, rcap - 1);
                        ch.r = End::Cl(ro, rcap);
                        x.out.push((ro, mv(28, vec![q.f[0]], q.val.clone().unwrap())));
                        if scap <= 4 && rcap > scap {
                            x.out.push((c, m(29, vec![q.f[0], X::N(rcap - scap)])));
                            scap = rcap;
                        }
                        ch.s = End::Cl(o, scap);
                    }
                }
            }
            30 => say(31, vec![q.f[0]]),
            33 => {
                let l = self.sym();
                x.fresh_ck.push(l);
                say(34, vec![q.f[0], X::Ck(l)]);
                self.lis.insert(l, Lis { owner: c, filters: BTreeSet::new(), scope: None });
            }
            35 => {
                let ok = matches!(self.lis.get(&s(1)), Some(l) if l.owner == c);
                say(36, vec![q.f[0], X::D(!ok as u8)]);
                if ok { self.lis.remove(&s(1)); }
            }
            37 | 38 | 39 => if let Some(l) = self.lis.get_mut(&s(0)) {
                if l.owner == c {
                    match q.k { 37 => { l.filters.insert(filt(&q.f[1..])); } 38 => { l.filters.remove(&filt(&q.f[1..])); } _ => l.filters.clear() }
                }
            },
            40 => {
                let Some(l) = self.lis.get_mut(&s(1)) else { say(41, vec![q.f[0], X::D(1)]); return Ok(()); };
                if l.owner != c { say(41, vec![q.f[0], X::D(1)]); return Ok(()); }
                if l.scope.is_some() { say(41, vec![q.f[0], X::D(2)]); return Ok(()); }
                l.scope = Some(n(2) as u8);
                say(41, vec![q.f[0], X::D(0)]);
                if n(2) != 1 {
                    let l = l.clone();
                    for (o, ob) in &self.objs {
                        if l.obj(&ob.uuid) { say(44, vec![X::D(1), q.f[1], X::D(0), X::U(ob.uuid), X::Ck(*o)]); }
                    }
                    for (sv, v) in &self.svcs {
                        let ou = self.objs[&v.obj].uuid;
                        if l.svc(&ou, &v.uuid) { say(44, vec![X::D(1), q.f[1], X::D(2), X::U(ou), X::Ck(v.obj), X::U(v.uuid), X::Ck(*sv)]); }
                    }
                    say(45, vec![q.f[1]]);
                }
            }
            42 => {
                let Some(l) = self.lis.get_mut(&s(1)) else { say(43, vec![q.f[0], X::D(1)]); return Ok(()); };
                if l.owner != c { say(43, vec![q.f[0], X::D(1)]); return Ok(()); }
                let r = if l.scope.take().is_some() { 0 } else { 2 };
                say(43, vec![q.f[0], X::D(r)]);
            }
            49 => {
                let Some(PV::Bytes(b, _)) = &q.val else { panic!() };
                for t in parse_types(b).ok_or(())? { self.intro.entry(t).or_default().conns.insert(c); }
            }
            50 => {
                let Some(e) = self.intro.get_mut(&u(1)) else { say(51, vec![q.f[0], X::D(1)]); return Ok(()); };
                if let Some(v) = e.value.clone() { x.out.push((c, mv(51, vec![q.f[0], X::D(0)], v))); return Ok(()); }
                e.pending.push((c, n(0)));
                if e.queried.is_none() { self.ask(u(1), x); }
            }
            51 => {
                let X::Sn(k) = q.f[0] else { return Err(()) };
                let Some((&t, _)) = self.intro.iter().find(|(_, e)| matches!(e.queried, Some((s, _)) if s == k)) else { return Err(()) };
                let e = self.intro.get_mut(&t).unwrap();
                if e.queried != Some((k, Some(c))) { return Err(()); }
                e.queried = None;
                if q.f[1] == X::D(0) {
                    // the broker stores it without a version
                    let v = match q.val.clone().unwrap() { PV::Bytes(b, _) => PV::Bytes(b, 20), o => o };
                    e.value = Some(v.clone());
                    for (p, ser) in std::mem::take(&mut e.pending) { x.out.push((p, mv(51, vec![X::N(ser), X::D(0)], v.clone()))); }
                } else {
                    e.pending.retain(|p| p.0 != c);
                    e.conns.remove(&c);
                    if e.conns.is_empty() {
                        let e = self.intro.remove(&t).unwrap();
                        for (p, ser) in e.pending { x.out.push((p, m(51, vec![X::N(ser), X::D(1)]))); }
                    } else { self.ask(t, x); }
                }
            }
            _ => return Err(()),
        }
        Ok(())
    }
}

/// ServiceInfo = struct { 0: u32, 1?: some(uuid), 2?: some(bool) }, unknown fields ignored.
pub fn parse_info(b: &[u8]) -> Option<Info> {
    use crate::oracle::{decode, V};
    let (v, n, _) = decode(b, true).ok()?;
    if n != b.len() { return None; }
    let V::Struct(f) = v else { return None };
    let mut i = Info { version: 0, tid: None, all: None };
    let mut have = false;
    for (id, v) in f {
        match (id, v) {
            (0, V::U32(n)) => { i.version = n; have = true }
            (1, V::None) => i.tid = None,
            (1, V::Some(v)) => match *v { V::Uuid(u) => i.tid = Some(u), _ => return None },
            (2, V::None) => i.all = None,
            (2, V::Some(v)) => match *v { V::Bool(u) => i.all = Some(u), _ => return None },
            (0..=2, _) => return None,
            _ => {}
        }
    }
    have.then_some(i)
}
pub fn parse_types(b: &[u8]) -> Option<Vec<[u8; 16]>> {
    use crate::oracle::{decode, KT, K, V};
    let (v, n, _) = decode(b, true).ok()?;
    if n != b.len() { return None; }
    match v {
        V::Set(KT::Uuid, s) => Some(s.into_iter().map(|k| if let K::U(u) = k { u } else { unreachable!() }).collect()),
        _ => None,
    }
}
