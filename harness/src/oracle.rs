//! Independent codec for aldrin values, written from the wire format: a value tree, an encoder for
//! both container epochs, and a strict decoder.  Nothing in here calls the code under test, except
//! `from_core` / `to_core`, which translate trees to `aldrin_core::Value` and back.
use crate::rng::Rng;
use aldrin_core::{
    Bytes as ABytes, ChannelCookie, Enum as AEnum, ObjectCookie, ObjectId, ObjectUuid, ServiceCookie,
    ServiceId, ServiceUuid, Struct as AStruct, Value,
};
use std::collections::{BTreeMap, HashMap, HashSet};
use uuid::Uuid;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum KT { U8, I8, U16, I16, U32, I32, U64, I64, Str, Uuid }
pub const KTS: [KT; 10] = [KT::U8, KT::I8, KT::U16, KT::I16, KT::U32, KT::I32, KT::U64, KT::I64, KT::Str, KT::Uuid];

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum K { I(i128), S(Vec<u8>), U([u8; 16]) }

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum V {
    None, Some(Box<V>), Bool(bool), U8(u8), I8(i8), U16(u16), I16(i16), U32(u32), I32(i32), U64(u64), I64(i64),
    F32(u32), F64(u64), Str(Vec<u8>), Uuid([u8; 16]), ObjectId(Vec<u8>), ServiceId(Vec<u8>),
    Vec(Vec<V>), Bytes(Vec<u8>), Map(KT, Vec<(K, V)>), Set(KT, Vec<K>), Struct(Vec<(u32, V)>), Enum(u32, Box<V>),
    Sender([u8; 16]), Receiver([u8; 16]),
}

pub const MAX_DEPTH: usize = 32;

impl V {
    /// Number of nesting levels: 1 for a leaf, +1 for every value inside an option, element, field or variant.
    pub fn depth(&self) -> usize {
        1 + match self {
            V::Some(v) | V::Enum(_, v) => v.depth(),
            V::Vec(v) => v.iter().map(V::depth).max().unwrap_or(0),
            V::Map(_, m) => m.iter().map(|(_, v)| v.depth()).max().unwrap_or(0),
            V::Struct(m) => m.iter().map(|(_, v)| v.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    /// Canonical form: map, set and struct entries sorted, later duplicates win.
    pub fn canon(&self) -> V {
        match self {
            V::Some(v) => V::Some(Box::new(v.canon())),
            V::Enum(i, v) => V::Enum(*i, Box::new(v.canon())),
            V::Vec(v) => V::Vec(v.iter().map(V::canon).collect()),
            V::Map(k, m) => {
                let mut b = BTreeMap::new();
                for (k, v) in m { b.insert(k.clone(), v.canon()); }
                V::Map(*k, b.into_iter().collect())
            }
            V::Set(k, m) => {
                let mut m = m.clone();
                m.sort();
                m.dedup();
                V::Set(*k, m)
            }
            V::Struct(m) => {
                let mut b = BTreeMap::new();
                for (k, v) in m { b.insert(*k, v.canon()); }
                V::Struct(b.into_iter().collect())
            }
            o => o.clone(),
        }
    }
}

// ---- varints -------------------------------------------------------------------------------
pub fn put_varint(out: &mut Vec<u8>, n: u64, width: usize) {
    let limit = 255 - width as u64;
    if n <= limit {
        out.push(n as u8);
    } else {
        let mut k = width;
        while k > 1 && (n >> (8 * (k - 1))) & 0xff == 0 { k -= 1; }
        out.push((limit + k as u64) as u8);
        out.extend_from_slice(&n.to_le_bytes()[..k]);
    }
}
fn zz(n: i64) -> u64 { ((n << 1) ^ (n >> 63)) as u64 }
fn unzz(n: u64) -> i64 { ((n >> 1) as i64) ^ -((n & 1) as i64) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ep { V1, V2, Mix(u64) }
struct Enc { out: Vec<u8>, ep: Ep, rng: Rng }
pub fn encode(v: &V, ep: Ep) -> Vec<u8> {
    let seed = if let Ep::Mix(s) = ep { s } else { 0 };
    let mut e = Enc { out: vec![], ep, rng: Rng::new(seed) };
    e.val(v);
    e.out
}
fn kt_idx(k: KT) -> u8 { KTS.iter().position(|x| *x == k).unwrap() as u8 }
impl Enc {
    fn two(&mut self) -> bool {
        match self.ep { Ep::V1 => false, Ep::V2 => true, Ep::Mix(_) => self.rng.chance(1, 2) }
    }
    fn var(&mut self, n: u64, w: usize) {
        // Mixed encodings also use over-long (non-canonical) varints now and then.
        if let Ep::Mix(_) = self.ep {
            if self.rng.chance(1, 8) {
                let mut need = 1;
                while need < w && n >> (8 * need) != 0 { need += 1; }
                let k = need + self.rng.below(w - need + 1);
                self.out.push((255 - w + k) as u8);
                self.out.extend_from_slice(&n.to_le_bytes()[..k]);
                return;
            }
        }
        put_varint(&mut self.out, n, w)
    }
    fn key(&mut self, t: KT, k: &K) {
        match (t, k) {
            (KT::U8, K::I(i)) => self.out.push(*i as u8),
            (KT::I8, K::I(i)) => self.out.push(*i as i8 as u8),
            (KT::U16, K::I(i)) => self.var(*i as u64, 2),
            (KT::I16, K::I(i)) => self.var(zz(*i as i64), 2),
            (KT::U32, K::I(i)) => self.var(*i as u64, 4),
            (KT::I32, K::I(i)) => self.var(zz(*i as i64), 4),
            (KT::U64, K::I(i)) => self.var(*i as u64, 8),
            (KT::I64, K::I(i)) => self.var(zz(*i as i64), 8),
            (KT::Str, K::S(s)) => { self.var(s.len() as u64, 4); self.out.extend_from_slice(s) }
            (KT::Uuid, K::U(u)) => self.out.extend_from_slice(u),
            _ => unreachable!(),
        }
    }
    fn val(&mut self, v: &V) {
        match v {
            V::None => self.out.push(0),
            V::Some(v) => { self.out.push(1); self.val(v) }
            V::Bool(b) => self.out.extend_from_slice(&[2, *b as u8]),
            V::U8(n) => self.out.extend_from_slice(&[3, *n]),
            V::I8(n) => self.out.extend_from_slice(&[4, *n as u8]),
            V::U16(n) => { self.out.push(5); self.var(*n as u64, 2) }
            V::I16(n) => { self.out.push(6); self.var(zz(*n as i64), 2) }
            V::U32(n) => { self.out.push(7); self.var(*n as u64, 4) }
            V::I32(n) => { self.out.push(8); self.var(zz(*n as i64), 4) }
            V::U64(n) => { self.out.push(9); self.var(*n, 8) }
            V::I64(n) => { self.out.push(10); self.var(zz(*n), 8) }
            V::F32(n) => { self.out.push(11); self.out.extend_from_slice(&n.to_le_bytes()) }
            V::F64(n) => { self.out.push(12); self.out.extend_from_slice(&n.to_le_bytes()) }
            V::Str(s) => { self.out.push(13); self.var(s.len() as u64, 4); self.out.extend_from_slice(s) }
            V::Uuid(u) => { self.out.push(14); self.out.extend_from_slice(u) }
            V::ObjectId(u) => { self.out.push(15); self.out.extend_from_slice(u) }
            V::ServiceId(u) => { self.out.push(16); self.out.extend_from_slice(u) }
            V::Vec(e) => {
                if self.two() {
                    self.out.push(43);
                    for v in e { self.out.push(1); self.val(v) }
                    self.out.push(0);
                } else {
                    self.out.push(17);
                    self.var(e.len() as u64, 4);
                    for v in e { self.val(v) }
                }
            }
            V::Bytes(b) => {
                if self.two() {
                    self.out.push(44);
                    let mut rest = &b[..];
                    while !rest.is_empty() {
                        let n = if let Ep::Mix(_) = self.ep { 1 + self.rng.below(rest.len()) } else { rest.len() };
                        self.var(n as u64, 4);
                        self.out.extend_from_slice(&rest[..n]);
                        rest = &rest[n..];
                    }
                    self.out.push(0);
                } else {
                    self.out.push(18);
                    self.var(b.len() as u64, 4);
                    self.out.extend_from_slice(b)
                }
            }
            V::Map(t, m) => {
                if self.two() {
                    self.out.push(45 + kt_idx(*t));
                    for (k, v) in m { self.out.push(1); self.key(*t, k); self.val(v) }
                    self.out.push(0);
                } else {
                    self.out.push(19 + kt_idx(*t));
                    self.var(m.len() as u64, 4);
                    for (k, v) in m { self.key(*t, k); self.val(v) }
                }
            }
            V::Set(t, m) => {
                if self.two() {
                    self.out.push(55 + kt_idx(*t));
                    for k in m { self.out.push(1); self.key(*t, k) }
                    self.out.push(0);
                } else {
                    self.out.push(29 + kt_idx(*t));
                    self.var(m.len() as u64, 4);
                    for k in m { self.key(*t, k) }
                }
            }
            V::Struct(m) => {
                if self.two() {
                    self.out.push(65);
                    for (k, v) in m { self.out.push(1); self.var(*k as u64, 4); self.val(v) }
                    self.out.push(0);
                } else {
                    self.out.push(39);
                    self.var(m.len() as u64, 4);
                    for (k, v) in m { self.var(*k as u64, 4); self.val(v) }
                }
            }
            V::Enum(i, v) => { self.out.push(40); self.var(*i as u64, 4); self.val(v) }
            V::Sender(u) => { self.out.push(41); self.out.extend_from_slice(u) }
            V::Receiver(u) => { self.out.push(42); self.out.extend_from_slice(u) }
        }
    }
}

// ---- decoder -------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DErr { Bad, TooDeep, Utf8 }
pub struct Dec<'a> { pub b: &'a [u8], pub pos: usize, pub utf8: bool, pub has_v2: bool, pub allow_big: bool, pub budget: usize }
type R<T> = Result<T, DErr>;
/// Decodes one value; returns it with the number of bytes consumed and whether a 1.20 container occurs.
pub fn decode(b: &[u8], utf8: bool) -> R<(V, usize, bool)> {
    let mut d = Dec { b, pos: 0, utf8, has_v2: false, allow_big: false, budget: usize::MAX };
    let v = d.val(1)?;
    Ok((v, d.pos, d.has_v2))
}
impl<'a> Dec<'a> {
    fn u8(&mut self) -> R<u8> { let r = *self.b.get(self.pos).ok_or(DErr::Bad)?; self.pos += 1; Ok(r) }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        let r = self.b.get(self.pos..).and_then(|b| b.get(..n)).ok_or(DErr::Bad)?;
        self.pos += n;
        Ok(r)
    }
    fn var(&mut self, w: usize) -> R<u64> {
        let f = self.u8()? as usize;
        if f <= 255 - w { return Ok(f as u64); }
        let k = f - (255 - w);
        let mut a = [0u8; 8];
        a[..k].copy_from_slice(self.take(k)?);
        Ok(u64::from_le_bytes(a))
    }
    fn arr(&mut self) -> R<[u8; 16]> { Ok(self.take(16)?.try_into().unwrap()) }
    fn str(&mut self) -> R<Vec<u8>> {
        let n = self.var(4)? as usize;
        let s = self.take(n)?.to_vec();
        if self.utf8 && std::str::from_utf8(&s).is_err() { return Err(DErr::Utf8); }
        Ok(s)
    }
    fn key(&mut self, t: KT) -> R<K> {
        Ok(match t {
            KT::U8 => K::I(self.u8()? as i128),
            KT::I8 => K::I(self.u8()? as i8 as i128),
            KT::U16 => K::I(self.var(2)? as i128),
            KT::I16 => K::I(unzz(self.var(2)?) as i128),
            KT::U32 => K::I(self.var(4)? as i128),
            KT::I32 => K::I(unzz(self.var(4)?) as i128),
            KT::U64 => K::I(self.var(8)? as i128),
            KT::I64 => K::I(unzz(self.var(8)?) as i128),
            KT::Str => K::S(self.str()?),
            KT::Uuid => K::U(self.arr()?),
        })
    }
    fn more(&mut self) -> R<bool> {
        match self.u8()? { 0 => Ok(false), 1 => Ok(true), _ => Err(DErr::Bad) }
    }
    pub fn val(&mut self, depth: usize) -> R<V> {
        if depth > MAX_DEPTH { return Err(DErr::TooDeep); }
        let k = self.u8()?;
        if k >= 43 { self.has_v2 = true; }
        Ok(match k {
            0 => V::None,
            1 => V::Some(Box::new(self.val(depth + 1)?)),
            2 => V::Bool(self.u8()? != 0),
            3 => V::U8(self.u8()?),
            4 => V::I8(self.u8()? as i8),
            5 => V::U16(self.var(2)? as u16),
            6 => V::I16(unzz(self.var(2)?) as i16),
            7 => V::U32(self.var(4)? as u32),
            8 => V::I32(unzz(self.var(4)?) as i32),
            9 => V::U64(self.var(8)?),
            10 => V::I64(unzz(self.var(8)?)),
            11 => V::F32(u32::from_le_bytes(self.take(4)?.try_into().unwrap())),
            12 => V::F64(u64::from_le_bytes(self.take(8)?.try_into().unwrap())),
            13 => V::Str(self.str()?),
            14 => V::Uuid(self.arr()?),
            15 => V::ObjectId(self.take(32)?.to_vec()),
            16 => V::ServiceId(self.take(64)?.to_vec()),
            17 => { let n = self.var(4)?; let mut o = vec![]; for _ in 0..n { o.push(self.val(depth + 1)?) } V::Vec(o) }
            18 => { let n = self.var(4)? as usize; V::Bytes(self.take(n)?.to_vec()) }
            19..=28 => {
                let t = KTS[(k - 19) as usize];
                let n = self.var(4)?;
                let mut o = vec![];
                for _ in 0..n { let k = self.key(t)?; o.push((k, self.val(depth + 1)?)) }
                V::Map(t, o)
            }
            29..=38 => {
                let t = KTS[(k - 29) as usize];
                let n = self.var(4)?;
                let mut o = vec![];
                for _ in 0..n { o.push(self.key(t)?) }
                V::Set(t, o)
            }
            39 => {
                let n = self.var(4)?;
                let mut o = vec![];
                for _ in 0..n { let k = self.var(4)? as u32; o.push((k, self.val(depth + 1)?)) }
                V::Struct(o)
            }
            40 => { let i = self.var(4)? as u32; V::Enum(i, Box::new(self.val(depth + 1)?)) }
            41 => V::Sender(self.arr()?),
            42 => V::Receiver(self.arr()?),
            43 => { let mut o = vec![]; while self.more()? { o.push(self.val(depth + 1)?) } V::Vec(o) }
            44 => {
                let mut o = vec![];
                loop { let n = self.var(4)? as usize; if n == 0 { break; } o.extend_from_slice(self.take(n)?) }
                V::Bytes(o)
            }
            45..=54 => {
                let t = KTS[(k - 45) as usize];
                let mut o = vec![];
                while self.more()? { let k = self.key(t)?; o.push((k, self.val(depth + 1)?)) }
                V::Map(t, o)
            }
            55..=64 => {
                let t = KTS[(k - 55) as usize];
                let mut o = vec![];
                while self.more()? { o.push(self.key(t)?) }
                V::Set(t, o)
            }
            65 => {
                let mut o = vec![];
                while self.more()? { let k = self.var(4)? as u32; o.push((k, self.val(depth + 1)?)) }
                V::Struct(o)
            }
            _ => return Err(DErr::Bad),
        })
    }
}

// ---- translation to and from the library's dynamic value -------------------------------------
fn uu(b: &[u8]) -> Uuid { Uuid::from_bytes(b.try_into().unwrap()) }
fn st(b: &[u8]) -> String { String::from_utf8(b.to_vec()).unwrap() }
macro_rules! to_map { ($m:expr, $var:ident, $t:ty) => {
    Value::$var($m.iter().map(|(k, v)| (if let K::I(i) = k { *i as $t } else { unreachable!() }, to_core(v))).collect()) } }
macro_rules! to_set { ($m:expr, $var:ident, $t:ty) => {
    Value::$var($m.iter().map(|k| if let K::I(i) = k { *i as $t } else { unreachable!() }).collect()) } }
pub fn to_core(v: &V) -> Value {
    match v {
        V::None => Value::None,
        V::Some(v) => Value::Some(Box::new(to_core(v))),
        V::Bool(b) => Value::Bool(*b),
        V::U8(n) => Value::U8(*n), V::I8(n) => Value::I8(*n), V::U16(n) => Value::U16(*n), V::I16(n) => Value::I16(*n),
        V::U32(n) => Value::U32(*n), V::I32(n) => Value::I32(*n), V::U64(n) => Value::U64(*n), V::I64(n) => Value::I64(*n),
        V::F32(n) => Value::F32(f32::from_bits(*n)), V::F64(n) => Value::F64(f64::from_bits(*n)),
        V::Str(s) => Value::String(st(s)),
        V::Uuid(u) => Value::Uuid(uu(u)),
        V::ObjectId(u) => Value::ObjectId(ObjectId::new(ObjectUuid(uu(&u[..16])), ObjectCookie(uu(&u[16..])))),
        V::ServiceId(u) => Value::ServiceId(ServiceId::new(
            ObjectId::new(ObjectUuid(uu(&u[..16])), ObjectCookie(uu(&u[16..32]))), ServiceUuid(uu(&u[32..48])), ServiceCookie(uu(&u[48..])))),
        V::Vec(v) => Value::Vec(v.iter().map(to_core).collect()),
        V::Bytes(b) => Value::Bytes(ABytes::from(b.clone())),
        V::Map(t, m) => match t {
            KT::U8 => to_map!(m, U8Map, u8), KT::I8 => to_map!(m, I8Map, i8),
            KT::U16 => to_map!(m, U16Map, u16), KT::I16 => to_map!(m, I16Map, i16),
            KT::U32 => to_map!(m, U32Map, u32), KT::I32 => to_map!(m, I32Map, i32),
            KT::U64 => to_map!(m, U64Map, u64), KT::I64 => to_map!(m, I64Map, i64),
            KT::Str => Value::StringMap(m.iter().map(|(k, v)| (if let K::S(s) = k { st(s) } else { unreachable!() }, to_core(v))).collect()),
            KT::Uuid => Value::UuidMap(m.iter().map(|(k, v)| (if let K::U(s) = k { uu(s) } else { unreachable!() }, to_core(v))).collect()),
        },
        V::Set(t, m) => match t {
            KT::U8 => to_set!(m, U8Set, u8), KT::I8 => to_set!(m, I8Set, i8),
            KT::U16 => to_set!(m, U16Set, u16), KT::I16 => to_set!(m, I16Set, i16),
            KT::U32 => to_set!(m, U32Set, u32), KT::I32 => to_set!(m, I32Set, i32),
            KT::U64 => to_set!(m, U64Set, u64), KT::I64 => to_set!(m, I64Set, i64),
            KT::Str => Value::StringSet(m.iter().map(|k| if let K::S(s) = k { st(s) } else { unreachable!() }).collect()),
            KT::Uuid => Value::UuidSet(m.iter().map(|k| if let K::U(s) = k { uu(s) } else { unreachable!() }).collect()),
        },
        V::Struct(m) => Value::Struct(AStruct(m.iter().map(|(k, v)| (*k, to_core(v))).collect())),
        V::Enum(i, v) => Value::Enum(Box::new(AEnum::new(*i, to_core(v)))),
        V::Sender(u) => Value::Sender(ChannelCookie(uu(u))),
        V::Receiver(u) => Value::Receiver(ChannelCookie(uu(u))),
    }
}
fn fm<T: Clone, F: Fn(&T) -> K>(t: KT, m: &HashMap<T, Value>, f: F) -> V { V::Map(t, m.iter().map(|(k, v)| (f(k), from_core(v))).collect()) }
fn fs<T: Clone, F: Fn(&T) -> K>(t: KT, m: &HashSet<T>, f: F) -> V { V::Set(t, m.iter().map(f).collect()) }
pub fn from_core(v: &Value) -> V {
    match v {
        Value::None => V::None,
        Value::Some(v) => V::Some(Box::new(from_core(v))),
        Value::Bool(b) => V::Bool(*b),
        Value::U8(n) => V::U8(*n), Value::I8(n) => V::I8(*n), Value::U16(n) => V::U16(*n), Value::I16(n) => V::I16(*n),
        Value::U32(n) => V::U32(*n), Value::I32(n) => V::I32(*n), Value::U64(n) => V::U64(*n), Value::I64(n) => V::I64(*n),
        Value::F32(n) => V::F32(n.to_bits()), Value::F64(n) => V::F64(n.to_bits()),
        Value::String(s) => V::Str(s.as_bytes().to_vec()),
        Value::Uuid(u) => V::Uuid(*u.as_bytes()),
        Value::ObjectId(i) => V::ObjectId([i.uuid.0.as_bytes().to_vec(), i.cookie.0.as_bytes().to_vec()].concat()),
        Value::ServiceId(i) => V::ServiceId([i.object_id.uuid.0.as_bytes().to_vec(), i.object_id.cookie.0.as_bytes().to_vec(),
            i.uuid.0.as_bytes().to_vec(), i.cookie.0.as_bytes().to_vec()].concat()),
        Value::Vec(v) => V::Vec(v.iter().map(from_core).collect()),
        Value::Bytes(b) => V::Bytes(b.to_vec()),
        Value::U8Map(m) => fm(KT::U8, m, |k| K::I(*k as i128)), Value::I8Map(m) => fm(KT::I8, m, |k| K::I(*k as i128)),
        Value::U16Map(m) => fm(KT::U16, m, |k| K::I(*k as i128)), Value::I16Map(m) => fm(KT::I16, m, |k| K::I(*k as i128)),
        Value::U32Map(m) => fm(KT::U32, m, |k| K::I(*k as i128)), Value::I32Map(m) => fm(KT::I32, m, |k| K::I(*k as i128)),
        Value::U64Map(m) => fm(KT::U64, m, |k| K::I(*k as i128)), Value::I64Map(m) => fm(KT::I64, m, |k| K::I(*k as i128)),
        Value::StringMap(m) => fm(KT::Str, m, |k| K::S(k.as_bytes().to_vec())), Value::UuidMap(m) => fm(KT::Uuid, m, |k| K::U(*k.as_bytes())),
        Value::U8Set(m) => fs(KT::U8, m, |k| K::I(*k as i128)), Value::I8Set(m) => fs(KT::I8, m, |k| K::I(*k as i128)),
        Value::U16Set(m) => fs(KT::U16, m, |k| K::I(*k as i128)), Value::I16Set(m) => fs(KT::I16, m, |k| K::I(*k as i128)),
        Value::U32Set(m) => fs(KT::U32, m, |k| K::I(*k as i128)), Value::I32Set(m) => fs(KT::I32, m, |k| K::I(*k as i128)),
        Value::U64Set(m) => fs(KT::U64, m, |k| K::I(*k as i128)), Value::I64Set(m) => fs(KT::I64, m, |k| K::I(*k as i128)),
        Value::StringSet(m) => fs(KT::Str, m, |k| K::S(k.as_bytes().to_vec())), Value::UuidSet(m) => fs(KT::Uuid, m, |k| K::U(*k.as_bytes())),
        Value::Struct(m) => V::Struct(m.0.iter().map(|(k, v)| (*k, from_core(v))).collect()),
        Value::Enum(e) => V::Enum(e.id, Box::new(from_core(&e.value))),
        Value::Sender(u) => V::Sender(*u.0.as_bytes()),
        Value::Receiver(u) => V::Receiver(*u.0.as_bytes()),
    }
}

// ---- generation ------------------------------------------------------------------------------
fn edgy(r: &mut Rng, w: usize) -> u64 {
    let m = if w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
    let lim = 255 - w as u64;
    (match r.below(12) {
        0 => 0, 1 => 1, 2 => lim, 3 => lim + 1, 4 => 254, 5 => 255, 6 => 256, 7 => m, 8 => m - 1,
        9 => 1u64 << r.below(8 * w), 10 => (1u64 << r.below(8 * w)).wrapping_sub(1),
        _ => r.next(),
    }) & m
}
fn arr16(r: &mut Rng) -> [u8; 16] { let mut a = [0; 16]; if r.chance(3, 4) { for x in a.iter_mut() { *x = r.byte() } } a }
fn gstr(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(10) { 0 => 0, 1..=6 => r.below(6), 7 => 250 + r.below(8), 8 => 1 + r.below(300), _ => r.below(20) };
    let mut s = String::new();
    while s.len() < n { s.push(*['a', 'ä', '€', '\u{10ffff}', '\0', 'z'].get(r.below(6)).unwrap()); }
    s.into_bytes()
}
pub fn gkey(r: &mut Rng, t: KT) -> K {
    match t {
        KT::U8 => K::I(r.byte() as i128), KT::I8 => K::I(r.byte() as i8 as i128),
        KT::U16 => K::I(edgy(r, 2) as u16 as i128), KT::I16 => K::I(unzz(edgy(r, 2)) as i16 as i128),
        KT::U32 => K::I(edgy(r, 4) as u32 as i128), KT::I32 => K::I(unzz(edgy(r, 4)) as i32 as i128),
        KT::U64 => K::I(edgy(r, 8) as i128), KT::I64 => K::I(unzz(edgy(r, 8)) as i128),
        KT::Str => K::S(gstr(r)), KT::Uuid => K::U(arr16(r)),
    }
}
fn gkeys(r: &mut Rng, t: KT, n: usize) -> Vec<K> {
    let mut o: Vec<K> = vec![];
    for _ in 0..n { let k = gkey(r, t); if !o.contains(&k) { o.push(k) } }
    o
}
fn count(r: &mut Rng) -> usize { match r.below(20) { 0..=3 => 0, 4..=9 => 1, 10..=14 => 2, 15..=18 => r.below(5), _ => 248 + r.below(12) } }
pub fn gleaf(r: &mut Rng, kind: usize) -> V {
    match kind % 24 {
        0 => V::None, 1 => V::Bool(r.chance(1, 2)), 2 => V::U8(r.byte()), 3 => V::I8(r.byte() as i8),
        4 => V::U16(edgy(r, 2) as u16), 5 => V::I16(unzz(edgy(r, 2)) as i16), 6 => V::U32(edgy(r, 4) as u32), 7 => V::I32(unzz(edgy(r, 4)) as i32),
        8 => V::U64(edgy(r, 8)), 9 => V::I64(unzz(edgy(r, 8))),
        10 => V::F32(match r.below(5) { 0 => 0x7fc0_0001, 1 => 0xff80_0001, 2 => 0x8000_0000, 3 => 0x7f80_0000, _ => r.next() as u32 }),
        11 => V::F64(match r.below(5) { 0 => 0x7ff8_0000_0000_0001, 1 => 0xfff0_0000_0000_0001, 2 => 1 << 63, _ => r.next() }),
        12 => V::Str(gstr(r)), 13 => V::Uuid(arr16(r)),
        14 => V::ObjectId((0..2).flat_map(|_| arr16(r)).collect()), 15 => V::ServiceId((0..4).flat_map(|_| arr16(r)).collect()),
        16 => { let n = match r.below(6) { 0 => 0, 1 => 249 + r.below(9), 2 => 65530 + r.below(12), _ => r.below(10) }; V::Bytes((0..n).map(|_| r.byte()).collect()) }
        17 => V::Sender(arr16(r)), 18 => V::Receiver(arr16(r)),
        19 => V::Vec(vec![]), 20 => V::Struct(vec![]), 21 => V::Map(KTS[r.below(10)], vec![]),
        _ => { let t = KTS[r.below(10)]; let n = count(r); V::Set(t, gkeys(r, t, n)) }
    }
}
/// Random tree with at most `depth` levels and roughly `size` nodes.
pub fn gval(r: &mut Rng, depth: usize, size: &mut isize) -> V {
    *size -= 1;
    if depth <= 1 || *size <= 0 || r.chance(1, 4) { let k = r.below(24); return gleaf(r, k); }
    let n = if *size > 300 { count(r) } else { r.below(4) };
    match r.below(6) {
        0 => V::Some(Box::new(gval(r, depth - 1, size))),
        1 => V::Enum(edgy(r, 4) as u32, Box::new(gval(r, depth - 1, size))),
        2 => V::Vec((0..n).map(|_| gval(r, depth - 1, size)).collect()),
        3 => { let t = KTS[r.below(10)]; let ks = gkeys(r, t, n); V::Map(t, ks.into_iter().map(|k| (k, gval(r, depth - 1, size))).collect()) }
        4 => {
            let mut ids: Vec<u32> = (0..n).map(|_| edgy(r, 4) as u32).collect();
            ids.sort(); ids.dedup();
            V::Struct(ids.into_iter().map(|k| (k, gval(r, depth - 1, size))).collect())
        }
        _ => { let k = r.below(24); gleaf(r, k) }
    }
}
/// A chain of exactly `depth` levels, every step of a random kind.
pub fn gchain(r: &mut Rng, depth: usize) -> V {
    if depth <= 1 { let k = r.below(24); return gleaf(r, k); }
    let inner = gchain(r, depth - 1);
    match r.below(5) {
        0 => V::Some(Box::new(inner)),
        1 => V::Enum(edgy(r, 4) as u32, Box::new(inner)),
        2 => { let mut v = vec![]; if r.chance(1, 3) { v.push(V::U8(1)) } v.push(inner); if r.chance(1, 3) { v.push(V::None) } V::Vec(v) }
        3 => { let t = KTS[r.below(10)]; V::Map(t, vec![(gkey(r, t), inner)]) }
        _ => V::Struct(vec![(edgy(r, 4) as u32, inner)]),
    }
}
