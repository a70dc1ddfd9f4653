//! Value codec cases: round trip (C01), decoding of arbitrary bytes and skipping (C07), epoch
//! conversion (C13).  Oracle: the independent codec in oracle.rs.
use crate::exec::caught;
use crate::oracle::*;
use crate::rng::Rng;
use aldrin_core::message::{Message, MessageOps};
use aldrin_core::tags::{self, PrimaryTag};
use aldrin_core::{
    Deserialize, DeserializeError, Deserializer, ProtocolVersion, Serialize, SerializeError, SerializedValue, Serializer,
    Value, ValueConversionError, ValueKind,
};
use bytes::BytesMut;
use std::cell::RefCell;

macro_rules! fail { ($($t:tt)*) => { return Err(format!($($t)*)) } }
fn hx(b: &[u8]) -> String { let n = b.len().min(120); format!("{}{} ({} bytes)", crate::wire::hex(&b[..n]), if n < b.len() { ".." } else { "" }, b.len()) }

/// An opaque value holding exactly these bytes (at least one), taken from a parsed item message.
pub fn sv(b: &[u8]) -> SerializedValue {
    let mut f = vec![0, 0, 0, 0, 27];
    f.extend_from_slice(&(b.len() as u32).to_le_bytes());
    f.extend_from_slice(b);
    f.extend_from_slice(&[7; 16]);
    let n = (f.len() as u32).to_le_bytes();
    f[..4].copy_from_slice(&n);
    match Message::deserialize_message(BytesMut::from(&f[..])) {
        Ok(Message::SendItem(m)) => m.value,
        o => panic!("cannot build an opaque value: {o:?}"),
    }
}

// ---- probes: decode through one particular entry point of the deserializer ---------------------
macro_rules! probe { ($n:ident) => { impl PrimaryTag for $n { type Tag = tags::Value; } } }
struct Skip;
probe!(Skip);
impl Deserialize<tags::Value> for Skip { fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> { d.skip()?; Ok(Skip) } }
struct Len(usize);
probe!(Len);
impl Deserialize<tags::Value> for Len { fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> { let n = d.len()?; d.skip()?; Ok(Len(n)) } }
struct Len0(usize);
probe!(Len0);
thread_local! { static LEN: RefCell<Option<Result<usize, DeserializeError>>> = const { RefCell::new(None) }; }
impl Deserialize<tags::Value> for Len0 {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        let n = d.len();
        LEN.with(|l| *l.borrow_mut() = Some(n));
        Ok(Len0(n?))
    }
}
struct Kind(ValueKind);
probe!(Kind);
impl Deserialize<tags::Value> for Kind { fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> { let k = d.peek_value_kind()?; d.skip()?; Ok(Kind(k)) } }
struct Off(SerializedValue);
probe!(Off);
impl Deserialize<tags::Value> for Off { fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> { d.split_off_serialized_value().map(|s| Off(s.to_owned())) } }

/// Decodes into the oracle's tree, choosing among the deserializer's interfaces at random.
struct Walk(V);
probe!(Walk);
/// Walks over a value skipping parts of it, choosing among the skipping interfaces at random.
struct Part;
probe!(Part);
thread_local! { static RNG: RefCell<Rng> = const { RefCell::new(Rng(1)) }; }
fn coin(n: usize) -> usize { RNG.with(|r| r.borrow_mut().below(n)) }
fn kind_no(k: ValueKind) -> u8 { k.into() }

macro_rules! by_key { ($i:expr, $m:ident $(, $a:tt)*) => { match $i {
    0 => $m!(tags::U8, u8, |k: &u8| K::I(*k as i128) $(, $a)*), 1 => $m!(tags::I8, i8, |k: &i8| K::I(*k as i128) $(, $a)*),
    2 => $m!(tags::U16, u16, |k: &u16| K::I(*k as i128) $(, $a)*), 3 => $m!(tags::I16, i16, |k: &i16| K::I(*k as i128) $(, $a)*),
    4 => $m!(tags::U32, u32, |k: &u32| K::I(*k as i128) $(, $a)*), 5 => $m!(tags::I32, i32, |k: &i32| K::I(*k as i128) $(, $a)*),
    6 => $m!(tags::U64, u64, |k: &u64| K::I(*k as i128) $(, $a)*), 7 => $m!(tags::I64, i64, |k: &i64| K::I(*k as i128) $(, $a)*),
    8 => $m!(tags::String, String, |k: &String| K::S(k.as_bytes().to_vec()) $(, $a)*),
    _ => $m!(tags::Uuid, uuid::Uuid, |k: &uuid::Uuid| K::U(*k.as_bytes()) $(, $a)*),
} } }

impl Deserialize<tags::Value> for Walk {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        let k = d.peek_value_kind()?;
        if coin(8) == 0 {
            // opaque first, decoded later
            let o: Off = d.deserialize::<tags::Value, Off>()?;
            // The nesting of an opaque part starts over; the case only compares what decodes.
            return o.0.deserialize_as::<tags::Value, Walk>();
        }
        let n = kind_no(k);
        macro_rules! list { ($d:expr, $o:ident) => {{
            let mut d = $d;
            while let Some(Walk(v)) = d.deserialize::<tags::Value, Walk>()? { $o.push(v); }
            d.finish(())?;
        }} }
        macro_rules! map { ($t:ty, $k:ty, $f:expr, $o:ident, $d:expr) => {{
            let mut x = match $d { 0 => d.deserialize_map::<$t>()?, 1 => aldrin_core::deserializer::MapDeserializer::V1(d.deserialize_map1::<$t>()?), _ => aldrin_core::deserializer::MapDeserializer::V2(d.deserialize_map2::<$t>()?) };
            let f = $f;
            loop {
                if coin(2) == 0 {
                    match x.deserialize_element::<$k, tags::Value, Walk>()? { Some((k, Walk(v))) => $o.push((f(&k), v)), None => break }
                } else {
                    match x.deserialize::<$k>()? { Some(e) => { let (k, Walk(v)) = e.deserialize::<tags::Value, Walk>()?; $o.push((f(&k), v)) } None => break }
                }
            }
            x.finish(())?;
        }} }
        macro_rules! set { ($t:ty, $k:ty, $f:expr, $o:ident, $d:expr) => {{
            let mut x = match $d { 0 => d.deserialize_set::<$t>()?, 1 => aldrin_core::deserializer::SetDeserializer::V1(d.deserialize_set1::<$t>()?), _ => aldrin_core::deserializer::SetDeserializer::V2(d.deserialize_set2::<$t>()?) };
            let f = $f;
            while let Some(k) = x.deserialize::<$k>()? { $o.push(f(&k)); }
            x.finish(())?;
        }} }
        // 0: the deserializer picks the encoding; 1 / 2: ask for the one that is there
        let two = |one: bool| if coin(2) == 0 { 0 } else if one { 1 } else { 2 };
        Ok(Walk(match n {
            1 => if coin(2) == 0 { V::Some(Box::new(d.deserialize_some::<tags::Value, Walk>()?.0)) } else { match d.deserialize_option::<tags::Value, Walk>()? { Some(Walk(v)) => V::Some(Box::new(v)), None => V::None } },
            0 if coin(2) == 0 => { d.deserialize_none()?; V::None }
            17 | 43 => {
                let mut out = vec![];
                match two(n == 17) {
                    0 => if coin(2) == 0 { list!(d.deserialize_vec()?, out); } else { for Walk(v) in d.deserialize_vec_extend_new::<tags::Value, Walk, Vec<Walk>>()? { out.push(v) } },
                    1 => { list!(d.deserialize_vec1()?, out); }
                    _ => { list!(d.deserialize_vec2()?, out); }
                }
                V::Vec(out)
            }
            18 | 44 => {
                let mut x = match two(n == 18) { 0 => d.deserialize_bytes()?, 1 => aldrin_core::deserializer::BytesDeserializer::V1(d.deserialize_bytes1()?), _ => aldrin_core::deserializer::BytesDeserializer::V2(d.deserialize_bytes2()?) };
                let mut out = vec![];
                if coin(2) == 0 { x.deserialize_extend(&mut out)?; } else {
                    loop {
                        let s = x.as_slice()?;
                        if s.is_empty() { break; }
                        let m = if coin(2) == 0 { s.len() } else { 1 + coin(s.len()) };
                        out.extend_from_slice(&s[..m]);
                        x.advance(m)?;
                    }
                    x.finish(())?;
                }
                V::Bytes(out)
            }
            19..=28 | 45..=54 => {
                let (i, one) = if n < 45 { (n - 19, true) } else { (n - 45, false) };
                let mut o = vec![];
                let how = two(one);
                by_key!(i, map, o, how);
                V::Map(KTS[i as usize], o)
            }
            29..=38 | 55..=64 => {
                let (i, one) = if n < 55 { (n - 29, true) } else { (n - 55, false) };
                let mut o = vec![];
                let how = two(one);
                by_key!(i, set, o, how);
                V::Set(KTS[i as usize], o)
            }
            39 | 65 => {
                let mut x = match two(n == 39) { 0 => d.deserialize_struct()?, 1 => aldrin_core::deserializer::StructDeserializer::V1(d.deserialize_struct1()?), _ => aldrin_core::deserializer::StructDeserializer::V2(d.deserialize_struct2()?) };
                let mut seen: Vec<(u32, Option<V>)> = vec![];
                while let Some(f) = x.deserialize()? {
                    let id = f.id();
                    seen.retain(|(k, _)| *k != id);
                    if coin(4) == 0 { f.add_to_unknown_fields()?; seen.push((id, None)); continue; }
                    seen.push((id, Some(f.deserialize::<tags::Value, Walk>()?.0)));
                }
                let extra = x.finish_with(Ok)?;
                let mut o = vec![];
                for (id, v) in seen {
                    o.push((id, match v { Some(v) => v, None => match extra.get(&id) { Some(v) => v.deserialize_as::<tags::Value, Walk>()?.0, None => V::Enum(id, Box::new(V::None)) } }));
                }
                V::Struct(o)
            }
            40 => {
                let x = d.deserialize_enum()?;
                if coin(3) == 0 {
                    let u = x.into_unknown_variant()?;
                    if coin(2) == 0 { let e = u.deserialize_as_value()?; V::Enum(e.id, Box::new(from_core(&e.value))) } else { V::Enum(u.id(), Box::new(walk_variant(&u)?)) }
                } else { V::Enum(x.id(), Box::new(x.deserialize::<tags::Value, Walk>()?.0)) }
            }
            _ => from_core(&d.deserialize::<tags::Value, Value>()?),
        }))
    }
}
fn walk_variant(u: &aldrin_core::UnknownVariant) -> Result<V, DeserializeError> { u.value().deserialize_as::<tags::Value, Walk>().map(|w| w.0) }

impl Deserialize<tags::Value> for Part {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        let k = d.peek_value_kind()?;
        let n = kind_no(k);
        if coin(4) == 0 { d.skip()?; return Ok(Part); }
        macro_rules! end { ($x:expr) => {{ let x = $x; match coin(4) { 0 => x.skip()?, 1 => x.skip_and_finish(())?, 2 => x.skip_and_finish_with(|| Ok(()))?, _ => x.skip()? } }} }
        macro_rules! map { ($t:ty, $k:ty, $f:expr) => {{
            let mut x = d.deserialize_map::<$t>()?;
            for _ in 0..coin(4) {
                match coin(3) {
                    0 => x.skip_element()?,
                    1 => if let Some(e) = x.deserialize::<$k>()? { e.skip()? },
                    _ => { x.deserialize_element::<$k, tags::Value, Part>()?; }
                }
            }
            end!(x)
        }} }
        macro_rules! set { ($t:ty, $k:ty, $f:expr) => {{
            let mut x = d.deserialize_set::<$t>()?;
            for _ in 0..coin(4) { if coin(2) == 0 { x.skip_element()? } else { x.deserialize::<$k>()?; } }
            end!(x)
        }} }
        match n {
            1 => { d.deserialize_some::<tags::Value, Part>()?; }
            17 | 43 => {
                let mut x = d.deserialize_vec()?;
                for _ in 0..coin(4) { if coin(2) == 0 { x.skip_element()? } else { x.deserialize::<tags::Value, Part>()?; } }
                end!(x)
            }
            18 | 44 => {
                let mut x = d.deserialize_bytes()?;
                for _ in 0..coin(3) { let s = x.as_slice()?.len(); let m = coin(s + 1); x.advance(m)?; }
                end!(x)
            }
            19..=28 => by_key!(n - 19, map),
            45..=54 => by_key!(n - 45, map),
            29..=38 => by_key!(n - 29, set),
            55..=64 => by_key!(n - 55, set),
            39 | 65 => {
                let mut x = d.deserialize_struct()?;
                for _ in 0..coin(4) { if let Some(f) = x.deserialize()? { match coin(3) { 0 => f.skip()?, 1 => { f.deserialize::<tags::Value, Part>()?; } _ => f.add_to_unknown_fields()? } } }
                match coin(3) { 0 => x.skip()?, 1 => x.skip_and_finish(())?, _ => { x.skip_and_finish_with(|_| Ok(()))?; } }
            }
            40 => { let x = d.deserialize_enum()?; if coin(2) == 0 { x.skip()? } else { x.deserialize::<tags::Value, Part>()?; } }
            _ => d.skip()?,
        }
        Ok(Part)
    }
}

// ---- legacy serialization through the serializer's interfaces ----------------------------------
struct Old<'a>(&'a V, bool);
impl Serialize<tags::Value> for Old<'_> {
    fn serialize(self, s: Serializer) -> Result<(), SerializeError> {
        let one = self.1;
        let sub = |v| Old(v, one);
        macro_rules! go { ($m:expr, $t:ty, $get:expr) => {{
            let get = $get;
            if one { let mut x = s.serialize_map1::<$t>($m.len())?; for (k, v) in $m { x.serialize(&get(k), sub(v))?; } x.finish() }
            else { let mut x = s.serialize_map2::<$t>()?; for (k, v) in $m { x.serialize(&get(k), sub(v))?; } x.finish() }
        }} }
        macro_rules! gs { ($m:expr, $t:ty, $get:expr) => {{
            let get = $get;
            if one { let mut x = s.serialize_set1::<$t>($m.len())?; for k in $m { x.serialize(&get(k))?; } x.finish() }
            else { let mut x = s.serialize_set2::<$t>()?; for k in $m { x.serialize(&get(k))?; } x.finish() }
        }} }
        fn int(k: &K) -> i128 { if let K::I(i) = k { *i } else { unreachable!() } }
        fn txt(k: &K) -> String { if let K::S(i) = k { String::from_utf8(i.clone()).unwrap() } else { unreachable!() } }
        fn uid(k: &K) -> uuid::Uuid { if let K::U(i) = k { uuid::Uuid::from_bytes(*i) } else { unreachable!() } }
        macro_rules! all { ($g:ident, $t:expr, $m:expr) => { match $t {
            KT::U8 => $g!($m, tags::U8, |k: &K| int(k) as u8), KT::I8 => $g!($m, tags::I8, |k: &K| int(k) as i8),
            KT::U16 => $g!($m, tags::U16, |k: &K| int(k) as u16), KT::I16 => $g!($m, tags::I16, |k: &K| int(k) as i16),
            KT::U32 => $g!($m, tags::U32, |k: &K| int(k) as u32), KT::I32 => $g!($m, tags::I32, |k: &K| int(k) as i32),
            KT::U64 => $g!($m, tags::U64, |k: &K| int(k) as u64), KT::I64 => $g!($m, tags::I64, |k: &K| int(k) as i64),
            KT::Str => $g!($m, tags::String, txt), KT::Uuid => $g!($m, tags::Uuid, uid),
        } } }
        match self.0 {
            V::Some(v) => s.serialize_some::<tags::Value>(sub(v)),
            V::Enum(i, v) => s.serialize_enum::<tags::Value>(*i, sub(v)),
            V::Vec(m) => if one { let mut x = s.serialize_vec1(m.len())?; for v in m { x.serialize::<tags::Value>(sub(v))?; } x.finish() } else { let mut x = s.serialize_vec2()?; for v in m { x.serialize::<tags::Value>(sub(v))?; } x.finish() },
            V::Bytes(b) => if one { s.serialize_byte_slice1(b) } else { s.serialize_byte_slice2(b) },
            V::Struct(m) => if one { let mut x = s.serialize_struct1(m.len())?; for (k, v) in m { x.serialize::<tags::Value>(*k, sub(v))?; } x.finish() } else { let mut x = s.serialize_struct2()?; for (k, v) in m { x.serialize::<tags::Value>(*k, sub(v))?; } x.finish() },
            V::Map(t, m) => all!(go, *t, m),
            V::Set(t, m) => all!(gs, *t, m),
            leaf => s.serialize::<tags::Value>(&to_core(leaf)),
        }
    }
}

// ---- allocation accounting ----------------------------------------------------------------------
pub struct Counting;
thread_local! {
    static LIVE: std::cell::Cell<isize> = const { std::cell::Cell::new(0) };
    static PEAK: std::cell::Cell<isize> = const { std::cell::Cell::new(0) };
}
fn account(n: isize) {
    let _ = LIVE.try_with(|l| { l.set(l.get() + n); let _ = PEAK.try_with(|p| if l.get() > p.get() { p.set(l.get()) }); });
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { account(l.size() as isize); std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { account(-(l.size() as isize)); std::alloc::System.dealloc(p, l) }
}
/// Runs f; returns the most memory it held at once beyond what was held before.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    (r, (PEAK.with(|p| p.get()) - base).max(0) as usize)
}
/// What decoding n bytes may hold at once.
fn memory_bound(n: usize) -> usize { 8192 + 512 * n }

// ---- cases ----------------------------------------------------------------------------------------
fn tree(r: &mut Rng) -> V {
    match r.below(8) {
        0 => { let d = 1 + r.below(32); gchain(r, d) }
        1 => gchain(r, 32),
        2 => { let k = r.below(24); gleaf(r, k) }
        3 => { let mut s = 600; let d = 1 + r.below(6); gval(r, d, &mut s) }
        _ => { let mut s = 30; let d = 1 + r.below(32); gval(r, d, &mut s) }
    }
}
fn roundtrip(seed: u64) -> Result<usize, String> {
    let mut r = Rng::new(seed);
    RNG.with(|x| *x.borrow_mut() = Rng::new(seed ^ 77));
    let deep = r.chance(1, 6);
    let v = if deep { let d = [33, 33, 34, 35, 40, 64, 65, 255, 256, 257, 300][r.below(11)]; gchain(&mut r, d) } else { tree(&mut r) };
    if v.depth() > MAX_DEPTH {
        let val = to_core(&v);
        for (what, res) in [("the current", caught(|| SerializedValue::serialize(&val))), ("the legacy", caught(|| SerializedValue::serialize_as::<tags::Value>(Old(&v, true)))), ("the container-wise", caught(|| SerializedValue::serialize_as::<tags::Value>(Old(&v, false))))] {
            match res {
                Err(e) => fail!("{what} encoding of a value with {} levels panics: {e}", v.depth()),
                Ok(Ok(_)) => fail!("a value with {} levels is serialized in {what} encoding", v.depth()),
                Ok(Err(SerializeError::TooDeeplyNested)) => {}
                Ok(Err(e)) => fail!("a value with {} levels is rejected with {e:?} in {what} encoding", v.depth()),
            }
        }
        for ep in [Ep::V1, Ep::V2, Ep::Mix(r.next())] {
            let b = encode(&v, ep);
            match caught(|| sv(&b).deserialize_as_value()) {
                Err(e) => fail!("decoding a value with {} levels panics: {e}; {}", v.depth(), hx(&b)),
                Ok(Ok(_)) => fail!("a value with {} levels is decoded; {}", v.depth(), hx(&b)),
                Ok(Err(DeserializeError::TooDeeplyNested)) => {}
                Ok(Err(e)) => fail!("a value with {} levels is rejected with {e:?} when decoding; {}", v.depth(), hx(&b)),
            }
        }
        return Ok(1);
    }
    let val = to_core(&v);
    let want = v.canon();
    let check = |what: &str, b: &[u8]| -> Result<(), String> {
        match caught(|| sv(b).deserialize_as_value()) {
            Err(e) => fail!("decoding {what} panics: {e}; {}", hx(b)),
            Ok(Err(e)) => fail!("decoding {what} fails with {e:?}; {}", hx(b)),
            Ok(Ok(x)) => { if from_core(&x).canon() != want { fail!("{what} decodes to a different value; {}", hx(b)); } }
        }
        // exactly all bytes: anything added is left over
        let mut longer = b.to_vec();
        longer.push(r_byte(b));
        match caught(|| sv(&longer).deserialize_as_value()) {
            Ok(Err(DeserializeError::TrailingData)) => {}
            o => fail!("one byte added to {what} gives {:?}; {}", o.map(|x| x.map(|_| ())), hx(&longer)),
        }
        Ok(())
    };
    for (what, res) in [("the current encoding", caught(|| SerializedValue::serialize(&val))), ("the current encoding (owned)", caught(|| SerializedValue::serialize(val.clone()))),
        ("the legacy encoding", caught(|| SerializedValue::serialize_as::<tags::Value>(Old(&v, true)))), ("the container-wise encoding", caught(|| SerializedValue::serialize_as::<tags::Value>(Old(&v, false))))] {
        match res {
            Err(e) => fail!("{what} panics: {e}"),
            Ok(Err(e)) => fail!("{what} of a value with {} levels fails with {e:?}", v.depth()),
            Ok(Ok(s)) => {
                let b: Vec<u8> = s.to_vec();
                match decode(&b, true) {
                    Ok((x, n, v2)) => {
                        if n != b.len() { fail!("{what} has {} bytes too many; {}", b.len() - n, hx(&b)); }
                        if x.canon() != want { fail!("{what} does not denote the value; {}", hx(&b)); }
                        if what.contains("legacy") && v2 { fail!("{what} uses containers of 1.20; {}", hx(&b)); }
                    }
                    Err(e) => fail!("{what} is ill-formed ({e:?}); {}", hx(&b)),
                }
                check(what, &b)?;
            }
        }
    }
    for ep in [Ep::V1, Ep::V2, Ep::Mix(r.next()), Ep::Mix(r.next())] {
        let b = encode(&v, ep);
        check(&format!("an encoding ({ep:?})"), &b)?;
    }
    Ok(1)
}
fn r_byte(b: &[u8]) -> u8 { b[b.len() / 2] }

/// Bytes for the decoding cases: well-formed, damaged, or arbitrary.
fn junk(r: &mut Rng) -> Vec<u8> {
    let mut b = match r.below(10) {
        0 => { let n = 1 + r.below(40); (0..n).map(|_| r.byte()).collect() }
        1 => { let n = 1 + r.below(24); (0..n).map(|_| [0, 1, 2, 17, 18, 39, 40, 43, 44, 65, 250, 251, 252, 253, 254, 255][r.below(16)]).collect() }
        2 => { let mut b = vec![r.below(67) as u8]; for _ in 0..r.below(20) { b.push([0, 1, r.byte(), 252, 255][r.below(5)]) } b }
        3 => { let d = 28 + r.below(9); encode(&gchain(r, d), Ep::Mix(r.next())) }
        _ => { let v = tree(r); let e = if r.chance(1, 4) { Ep::V1 } else { Ep::Mix(r.next()) }; encode(&v, e) }
    };
    if r.chance(2, 3) {
        for _ in 0..1 + r.below(3) {
            if b.is_empty() { b.push(r.byte()); }
            let p = r.below(b.len());
            match r.below(7) {
                0 => b[p] = r.byte(),
                1 => b[p] = r.below(67) as u8,
                2 => b[p] = [0, 1, 250, 251, 252, 253, 254, 255][r.below(8)],
                3 => b.truncate(p.max(1)),
                4 => { b.remove(p); }
                5 => b.insert(p, r.byte()),
                _ => { let q = p + r.below(b.len() - p) + 1; let c = b[p..q].to_vec(); if b.len() < 10_000 { for x in c.into_iter().rev() { b.insert(p, x) } } }
            }
        }
    } else if r.chance(1, 3) { let n = r.below(4); for _ in 0..n { b.push(r.byte()) } }
    if b.is_empty() { b.push(0) }
    b
}
fn arbitrary(seed: u64) -> Result<usize, String> {
    let mut r = Rng::new(seed);
    let b = if r.chance(1, 40) { deep_bytes(&mut r) } else { junk(&mut r) };
    total(&b, seed)
}
/// Long chains, far beyond the nesting limit.
fn deep_bytes(r: &mut Rng) -> Vec<u8> {
    let n = [100, 1000, 200_000][r.below(3)];
    let unit: &[u8] = [&[1u8][..], &[40, 0], &[17, 1], &[43, 1], &[39, 1, 0], &[65, 1, 0], &[19, 1, 0], &[45, 1, 0], &[27, 1, 0], &[53, 1, 0]][r.below(10)];
    let mut b: Vec<u8> = unit.iter().copied().cycle().take(n * unit.len()).collect();
    b.push(0);
    b
}
fn total(b: &[u8], seed: u64) -> Result<usize, String> {
    let strict = decode(b, true);
    let loose = decode(b, false);
    let s = sv(b);
    macro_rules! probe { ($what:expr, $t:ty) => {{
        RNG.with(|x| *x.borrow_mut() = Rng::new(seed ^ 5));
        let (res, mem) = peak(|| caught(|| s.deserialize_as::<tags::Value, $t>()));
        if mem > memory_bound(b.len()) { fail!("{} holds {mem} bytes for {} bytes of input; {}", $what, b.len(), hx(b)); }
        match res { Ok(x) => x, Err(e) => fail!("{} panics: {e}; {}", $what, hx(b)) }
    }} }
    // the kind
    match (caught(|| s.kind()), b[0]) {
        (Err(e), _) => fail!("reading the kind panics: {e}; {}", hx(b)),
        (Ok(Ok(k)), n) => if n > 65 || kind_no(k) != n { fail!("kind {n} is read as {k:?}"); },
        (Ok(Err(_)), n) => if n <= 65 { fail!("kind {n} is not recognized"); },
    }
    // full decoding
    let dec = probe!("decoding", Value);
    match (&dec, &strict) {
        (Ok(x), Ok((v, n, _))) => {
            if *n != b.len() { fail!("decoding ignores {} trailing bytes; {}", b.len() - n, hx(b)); }
            if from_core(x).canon() != v.canon() { fail!("decodes to a different value; {}", hx(b)); }
        }
        (Err(DeserializeError::TrailingData), Ok((_, n, _))) if *n < b.len() => {}
        (Err(e), Ok((_, n, _))) => fail!("decoding a well-formed value ({n} bytes) fails with {e:?}; {}", hx(b)),
        (Ok(_), Err(e)) => fail!("decoding accepts an ill-formed value ({e:?}); {}", hx(b)),
        (Err(_), Err(_)) => {}
    }
    // measuring
    LEN.with(|l| *l.borrow_mut() = None);
    let _ = probe!("measuring", Len0);
    let len = LEN.with(|l| l.borrow_mut().take());
    match (len, &loose) {
        (Some(Ok(n)), Ok((_, m, _))) => if n != *m { fail!("measured {n} bytes, the value has {m}; {}", hx(b)); },
        (Some(Ok(n)), Err(e)) => fail!("measured {n} bytes of an ill-formed value ({e:?}); {}", hx(b)),
        (o, Ok((_, m, _))) => fail!("measuring a value of {m} bytes gives {o:?}; {}", hx(b)),
        _ => {}
    }
    // skipping
    let full = loose.as_ref().ok().map(|(_, m, _)| *m);
    macro_rules! skip_like { ($what:expr, $res:expr) => {
        match (&$res, full) {
            (Ok(_), Some(m)) => if m != b.len() { fail!("{} goes past the value ({m} of {} bytes); {}", $what, b.len(), hx(b)); },
            (Err(DeserializeError::TrailingData), Some(m)) => if m == b.len() { fail!("{} stops short of the {m} bytes of the value; {}", $what, hx(b)); },
            (Err(e), Some(m)) => fail!("{} a value of {m} bytes fails with {e:?}; {}", $what, hx(b)),
            (Ok(_), None) | (Err(DeserializeError::TrailingData), None) => fail!("{} accepts an ill-formed value ({:?}); {}", $what, loose.as_ref().err(), hx(b)),
            (Err(_), None) => {}
        }
    } }
    skip_like!("skipping", probe!("skipping", Skip));
    skip_like!("measuring and skipping", probe!("measuring and skipping", Len));
    skip_like!("reading the kind and skipping", probe!("reading the kind and skipping", Kind));
    // splitting off
    let off = probe!("splitting off", Off);
    skip_like!("splitting off", off);
    if let Ok(Off(o)) = &off {
        if o[..] != *b { fail!("the value split off has other bytes; {} / {}", hx(o), hx(b)); }
        // re-embedding in an array and re-decoding
        let w: Result<Vec<SerializedValue>, _> = SerializedValue::serialize(vec![o.clone(), o.clone()]).and_then(|x| Ok(x.deserialize::<Vec<SerializedValue>>().unwrap_or_default()));
        match w { Ok(w) => if loose.as_ref().map(|(v, _, _)| v.depth() < MAX_DEPTH).unwrap_or(false) && (w.len() != 2 || w.iter().any(|x| x[..] != *b)) { fail!("an opaque value does not survive being carried in a vector; {}", hx(b)); }, Err(e) => fail!("an opaque value is not serialized: {e:?}; {}", hx(b)) }
    }
    // element-wise decoding and skipping through the container interfaces
    let w = probe!("element-wise decoding", Walk);
    match (&w, &strict) {
        (Ok(Walk(x)), Ok((v, n, _))) => if *n == b.len() && x.canon() != v.canon() { fail!("element-wise decoding gives a different value; {}", hx(b)); } else if *n != b.len() { fail!("element-wise decoding ignores trailing bytes; {}", hx(b)); },
        (Err(DeserializeError::TrailingData), Ok((_, n, _))) if *n < b.len() => {}
        (Err(e), Ok(_)) => fail!("element-wise decoding fails with {e:?}; {}", hx(b)),
        // (opaque fields replaced by later ones of the same id are never decoded, so their text is not looked at)
        (Ok(_), Err(DErr::Bad)) => fail!("element-wise decoding accepts an ill-formed value; {}", hx(b)),
        _ => {}
    }
    let p = probe!("partial decoding", Part);
    match (&p, full) {
        (Ok(_), Some(m)) if m == b.len() => {}
        (Err(DeserializeError::TrailingData), Some(m)) if m < b.len() => {}
        (Ok(_), None) => fail!("partial decoding accepts an ill-formed value; {}", hx(b)),
        (Err(e), Some(_)) if strict.is_ok() => fail!("partial decoding fails with {e:?}; {}", hx(b)),
        (Ok(_), Some(m)) => fail!("partial decoding goes past the value ({m} of {} bytes); {}", b.len(), hx(b)),
        _ => {}
    }
    Ok(1)
}

const VERSIONS: [(u32, u32); 13] = [(1, 14), (1, 15), (1, 16), (1, 17), (1, 18), (1, 19), (1, 20), (1, 13), (1, 21), (0, 20), (2, 0), (2, 15), (1, 0)];
fn epoch(v: ProtocolVersion) -> Option<u8> {
    if v.major() != 1 { return None; }
    match v.minor() { 14..=19 => Some(1), 20 => Some(2), _ => None }
}
fn conversion(seed: u64) -> Result<usize, String> {
    let mut r = Rng::new(seed);
    let b = if r.chance(1, 60) { deep_bytes(&mut r) } else { junk(&mut r) };
    let pick = |r: &mut Rng| { let (a, b) = VERSIONS[if r.chance(3, 4) { r.below(7) } else { r.below(13) }]; ProtocolVersion::new(a, b) };
    let from = if r.chance(1, 2) { if r.chance(1, 2) { None } else { Some(ProtocolVersion::V1_20) } } else { Some(pick(&mut r)) };
    let to = pick(&mut r);
    let s = sv(&b);
    let head = format!("from {} to {}.{}", from.map(|f| format!("{}.{}", f.major(), f.minor())).unwrap_or("-".into()), to.major(), to.minor());
    let (res, mem) = peak(|| caught(|| s.convert_slice(from, to)));
    if mem > memory_bound(b.len()) { fail!("conversion {head} holds {mem} bytes; {}", hx(&b)); }
    let res = match res { Ok(x) => x, Err(e) => fail!("conversion {head} panics: {e}; {}", hx(&b)) };
    // the other interfaces give the same
    let mut owned = sv(&b);
    let r2 = caught(|| owned.convert(from, to));
    let mut item = Message::SendItem(aldrin_core::message::SendItem { cookie: aldrin_core::ChannelCookie(uuid::Uuid::from_u128(7)), value: sv(&b) });
    let r3 = caught(|| item.convert_value(from, to));
    match (&res, &r2, &r3) {
        (Ok(x), Ok(Ok(())), Ok(Ok(()))) => {
            let Some(v) = item.value() else { fail!("conversion in a message loses the value") };
            if owned[..] != x[..] || v[..] != x[..] { fail!("the conversion interfaces disagree, {head}; {}", hx(&b)); }
        }
        (Err(a), Ok(Err(b2)), Ok(Err(c))) => if a != b2 || a != c { fail!("the conversion interfaces disagree on the error, {head}; {}", hx(&b)); },
        _ => fail!("the conversion interfaces disagree, {head}: {r2:?} {r3:?}; {}", hx(&b)),
    }
    let (ef, et) = (match from { None => Some(2), Some(f) => epoch(f) }, epoch(to));
    let (Some(ef), Some(et)) = (ef, et) else {
        return match res { Err(ValueConversionError::InvalidVersion) => Ok(1), o => Err(format!("conversion {head} gives {:?}", o.map(|x| hx(&x)))) };
    };
    if et >= ef {
        return match res { Ok(x) if x == b => Ok(1), o => Err(format!("conversion {head} does not return the input unchanged: {:?}; {}", o.map(|x| hx(&x)), hx(&b))) };
    }
    let good = decode(&b, false).ok().filter(|x| x.1 == b.len());
    match (res, good) {
        (Err(_), None) => Ok(1),
        (Err(e), Some(_)) => Err(format!("conversion {head} of a well-formed value fails with {e:?}; {}", hx(&b))),
        (Ok(x), None) => Err(format!("conversion {head} accepts an ill-formed value; {} to {}", hx(&b), hx(&x))),
        (Ok(x), Some((v, _, _))) => {
            match decode(&x, false) {
                Ok((w, n, v2)) => {
                    if n != x.len() { fail!("conversion {head} leaves {} extra bytes; {}", x.len() - n, hx(&b)); }
                    if v2 { fail!("conversion {head} leaves a container of 1.20; {} to {}", hx(&b), hx(&x)); }
                    if w.canon() != v.canon() { fail!("conversion {head} changes the value; {} to {}", hx(&b), hx(&x)); }
                }
                Err(e) => fail!("conversion {head} gives an ill-formed value ({e:?}); {} to {}", hx(&b), hx(&x)),
            }
            let twice = caught(|| sv(&x).convert_slice(from, to));
            match twice { Ok(Ok(y)) if y == x => {} o => fail!("converting twice ({head}) differs: {:?}; {}", o.map(|y| y.map(|y| hx(&y))), hx(&b)) }
            // the library's own decoder agrees as far as text is well-formed
            if decode(&b, true).is_ok() {
                match caught(|| (sv(&b).deserialize_as_value(), sv(&x).deserialize_as_value())) {
                    Ok((Ok(p), Ok(q))) => if from_core(&p).canon() != from_core(&q).canon() { fail!("conversion {head} changes the decoded value; {}", hx(&b)); },
                    o => fail!("after conversion {head}: {o:?}; {}", hx(&b)),
                }
            }
            Ok(1)
        }
    }
}
trait ConvertSlice { fn convert_slice(&self, from: Option<ProtocolVersion>, to: ProtocolVersion) -> Result<Vec<u8>, ValueConversionError>; }
impl ConvertSlice for SerializedValue {
    fn convert_slice(&self, from: Option<ProtocolVersion>, to: ProtocolVersion) -> Result<Vec<u8>, ValueConversionError> {
        let s: &aldrin_core::SerializedValueSlice = self;
        s.convert(from, to).map(|c| c.to_vec())
    }
}

pub fn one(kind: &str, seed: u64) -> Result<usize, String> {
    match kind { "roundtrip" => roundtrip(seed), "bytes" => arbitrary(seed), _ => conversion(seed) }
}
