// ---- values and their encodings, written from the format description
pub open spec fn le2(n: u16) -> Seq<u8> { seq![n as u8, (n >> 8) as u8] }
pub open spec fn un2(s: Seq<u8>) -> u16 { (s[0] as u16) | ((s[1] as u16) << 8) }
pub proof fn le2_un2(n: u16) ensures un2(le2(n)) == n, le2(n).len() == 2
{ assert(((n as u8) as u16) | ((((n >> 8) as u8) as u16) << 8) == n) by(bit_vector); }
pub open spec fn le8(n: u64) -> Seq<u8> { seq![n as u8, (n >> 8) as u8, (n >> 16) as u8, (n >> 24) as u8, (n >> 32) as u8, (n >> 40) as u8, (n >> 48) as u8, (n >> 56) as u8] }
pub open spec fn un8(s: Seq<u8>) -> u64 {
    (s[0] as u64) | ((s[1] as u64) << 8) | ((s[2] as u64) << 16) | ((s[3] as u64) << 24) | ((s[4] as u64) << 32) | ((s[5] as u64) << 40) | ((s[6] as u64) << 48) | ((s[7] as u64) << 56)
}
pub broadcast proof fn le8_un8(n: u64) ensures un8(#[trigger] le8(n)) == n, le8(n).len() == 8
{
    assert(((n as u8) as u64) | ((((n >> 8) as u8) as u64) << 8) | ((((n >> 16) as u8) as u64) << 16) | ((((n >> 24) as u8) as u64) << 24)
        | ((((n >> 32) as u8) as u64) << 32) | ((((n >> 40) as u8) as u64) << 40) | ((((n >> 48) as u8) as u64) << 48) | ((((n >> 56) as u8) as u64) << 56) == n) by(bit_vector);
}
#[verifier::opaque]
pub open spec fn pn2(n: u16) -> Seq<u8> { pv(le2(n)) }
#[verifier::opaque]
pub open spec fn gn2(s: Seq<u8>) -> Option<(u16, Seq<u8>)> { match gv(2, s) { None => None, Some((b, t)) => Some((un2(b), t)) } }
#[verifier::opaque]
pub open spec fn pn8(n: u64) -> Seq<u8> { pv(le8(n)) }
#[verifier::opaque]
pub open spec fn gn8(s: Seq<u8>) -> Option<(u64, Seq<u8>)> { match gv(8, s) { None => None, Some((b, t)) => Some((un8(b), t)) } }
pub broadcast proof fn gn2_pn2(n: u16, t: Seq<u8>) ensures #[trigger] gn2(pn2(n) + t) == Some((n, t))
{ reveal(pn2); reveal(gn2); gv_pv(le2(n), t); le2_un2(n); }
pub broadcast proof fn gn8_pn8(n: u64, t: Seq<u8>) ensures #[trigger] gn8(pn8(n) + t) == Some((n, t))
{ reveal(pn8); reveal(gn8); gv_pv(le8(n), t); le8_un8(n); }
pub open spec fn g1(s: Seq<u8>) -> Option<(u8, Seq<u8>)> { if s.len() == 0 { None } else { Some((s[0], s.skip(1))) } }
/// a block of n bytes
#[verifier::opaque]
pub open spec fn gb(n: int, s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> { if n < 0 || s.len() < n { None } else { Some((s.take(n), s.skip(n))) } }
pub proof fn gb_pb(x: Seq<u8>, t: Seq<u8>) ensures gb(x.len() as int, x + t) == Some((x, t))
{ reveal(gb); assert((x + t).take(x.len() as int) =~= x); assert((x + t).skip(x.len() as int) =~= t); }
/// a counted block
pub open spec fn gs(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> { match gn(s) { None => None, Some((n, t)) => gb(n as int, t) } }
// zigzag
pub open spec fn zz(n: int) -> int { if n % 2 == 0 { n / 2 } else { -(n / 2) - 1 } }
pub open spec fn zn(i: int) -> int { if i >= 0 { 2 * i } else { -2 * i - 1 } }

pub enum Key { U8(u8), I8(i8), U16(u16), I16(i16), U32(u32), I32(i32), U64(u64), I64(i64), Str(Seq<u8>), Uuid(Uuid) }
/// containers of values
pub enum Shape { Vec, Struct, Map(KT), Set(KT) }
pub enum Head { Unit, Id(u32), Key(Key) }
pub struct Ent { pub h: Head, pub v: V }
/// the values (floats by their bits, strings by their bytes)
pub enum V {
    None, Some(Box<V>), Bool(bool), U8(u8), I8(i8), U16(u16), I16(i16), U32(u32), I32(i32), U64(u64), I64(i64), F32(u32), F64(u64),
    Str(Seq<u8>), Uuid(Uuid), ObjectId(ObjectId), ServiceId(ServiceId), Bytes(Seq<u8>), Enum(u32, Box<V>), Sender(ChannelCookie), Receiver(ChannelCookie),
    List(Shape, Seq<Ent>),
}
/// container kind -> (shape, terminated encoding of 1.20)
pub open spec fn shape_of(k: ValueKind) -> Option<(Shape, bool)> { match k {
    ValueKind::Vec1 => Some((Shape::Vec, false)), ValueKind::Vec2 => Some((Shape::Vec, true)),
    ValueKind::Struct1 => Some((Shape::Struct, false)), ValueKind::Struct2 => Some((Shape::Struct, true)),
    ValueKind::U8Map1 => Some((Shape::Map(KT::U8), false)), ValueKind::U8Map2 => Some((Shape::Map(KT::U8), true)),
    ValueKind::I8Map1 => Some((Shape::Map(KT::I8), false)), ValueKind::I8Map2 => Some((Shape::Map(KT::I8), true)),
    ValueKind::U16Map1 => Some((Shape::Map(KT::U16), false)), ValueKind::U16Map2 => Some((Shape::Map(KT::U16), true)),
    ValueKind::I16Map1 => Some((Shape::Map(KT::I16), false)), ValueKind::I16Map2 => Some((Shape::Map(KT::I16), true)),
    ValueKind::U32Map1 => Some((Shape::Map(KT::U32), false)), ValueKind::U32Map2 => Some((Shape::Map(KT::U32), true)),
    ValueKind::I32Map1 => Some((Shape::Map(KT::I32), false)), ValueKind::I32Map2 => Some((Shape::Map(KT::I32), true)),
    ValueKind::U64Map1 => Some((Shape::Map(KT::U64), false)), ValueKind::U64Map2 => Some((Shape::Map(KT::U64), true)),
    ValueKind::I64Map1 => Some((Shape::Map(KT::I64), false)), ValueKind::I64Map2 => Some((Shape::Map(KT::I64), true)),
    ValueKind::StringMap1 => Some((Shape::Map(KT::Str), false)), ValueKind::StringMap2 => Some((Shape::Map(KT::Str), true)),
    ValueKind::UuidMap1 => Some((Shape::Map(KT::Uuid), false)), ValueKind::UuidMap2 => Some((Shape::Map(KT::Uuid), true)),
    ValueKind::U8Set1 => Some((Shape::Set(KT::U8), false)), ValueKind::U8Set2 => Some((Shape::Set(KT::U8), true)),
    ValueKind::I8Set1 => Some((Shape::Set(KT::I8), false)), ValueKind::I8Set2 => Some((Shape::Set(KT::I8), true)),
    ValueKind::U16Set1 => Some((Shape::Set(KT::U16), false)), ValueKind::U16Set2 => Some((Shape::Set(KT::U16), true)),
    ValueKind::I16Set1 => Some((Shape::Set(KT::I16), false)), ValueKind::I16Set2 => Some((Shape::Set(KT::I16), true)),
    ValueKind::U32Set1 => Some((Shape::Set(KT::U32), false)), ValueKind::U32Set2 => Some((Shape::Set(KT::U32), true)),
    ValueKind::I32Set1 => Some((Shape::Set(KT::I32), false)), ValueKind::I32Set2 => Some((Shape::Set(KT::I32), true)),
    ValueKind::U64Set1 => Some((Shape::Set(KT::U64), false)), ValueKind::U64Set2 => Some((Shape::Set(KT::U64), true)),
    ValueKind::I64Set1 => Some((Shape::Set(KT::I64), false)), ValueKind::I64Set2 => Some((Shape::Set(KT::I64), true)),
    ValueKind::StringSet1 => Some((Shape::Set(KT::Str), false)), ValueKind::StringSet2 => Some((Shape::Set(KT::Str), true)),
    ValueKind::UuidSet1 => Some((Shape::Set(KT::Uuid), false)), ValueKind::UuidSet2 => Some((Shape::Set(KT::Uuid), true)),
    _ => None,
} }
pub open spec fn map_kind(kt: KT, e: bool) -> ValueKind { match kt {
    KT::U8 => if e { ValueKind::U8Map2 } else { ValueKind::U8Map1 }, KT::I8 => if e { ValueKind::I8Map2 } else { ValueKind::I8Map1 },
    KT::U16 => if e { ValueKind::U16Map2 } else { ValueKind::U16Map1 }, KT::I16 => if e { ValueKind::I16Map2 } else { ValueKind::I16Map1 },
    KT::U32 => if e { ValueKind::U32Map2 } else { ValueKind::U32Map1 }, KT::I32 => if e { ValueKind::I32Map2 } else { ValueKind::I32Map1 },
    KT::U64 => if e { ValueKind::U64Map2 } else { ValueKind::U64Map1 }, KT::I64 => if e { ValueKind::I64Map2 } else { ValueKind::I64Map1 },
    KT::Str => if e { ValueKind::StringMap2 } else { ValueKind::StringMap1 }, KT::Uuid => if e { ValueKind::UuidMap2 } else { ValueKind::UuidMap1 } } }
pub open spec fn set_kind(kt: KT, e: bool) -> ValueKind { match kt {
    KT::U8 => if e { ValueKind::U8Set2 } else { ValueKind::U8Set1 }, KT::I8 => if e { ValueKind::I8Set2 } else { ValueKind::I8Set1 },
    KT::U16 => if e { ValueKind::U16Set2 } else { ValueKind::U16Set1 }, KT::I16 => if e { ValueKind::I16Set2 } else { ValueKind::I16Set1 },
    KT::U32 => if e { ValueKind::U32Set2 } else { ValueKind::U32Set1 }, KT::I32 => if e { ValueKind::I32Set2 } else { ValueKind::I32Set1 },
    KT::U64 => if e { ValueKind::U64Set2 } else { ValueKind::U64Set1 }, KT::I64 => if e { ValueKind::I64Set2 } else { ValueKind::I64Set1 },
    KT::Str => if e { ValueKind::StringSet2 } else { ValueKind::StringSet1 }, KT::Uuid => if e { ValueKind::UuidSet2 } else { ValueKind::UuidSet1 } } }
pub open spec fn kind_of(sh: Shape, e: bool) -> ValueKind { match sh {
    Shape::Vec => if e { ValueKind::Vec2 } else { ValueKind::Vec1 }, Shape::Struct => if e { ValueKind::Struct2 } else { ValueKind::Struct1 },
    Shape::Map(kt) => map_kind(kt, e), Shape::Set(kt) => set_kind(kt, e) } }
pub open spec fn has_elem(sh: Shape) -> bool { !(sh is Set) }
/// deepest nesting of a value
pub open spec fn max_depth() -> int { 32 }

// ---- decoding; `e` tells whether the encodings of 1.20 are understood; strings are not checked for UTF-8
pub open spec fn gkey(kt: KT, s: Seq<u8>) -> Option<(Key, Seq<u8>)> { match kt {
    KT::U8 => match g1(s) { None => None, Some((b, t)) => Some((Key::U8(b), t)) },
    KT::I8 => match g1(s) { None => None, Some((b, t)) => Some((Key::I8(b as i8), t)) },
    KT::U16 => match gn2(s) { None => None, Some((b, t)) => Some((Key::U16(b), t)) },
    KT::I16 => match gn2(s) { None => None, Some((b, t)) => Some((Key::I16(zz(b as int) as i16), t)) },
    KT::U32 => match gn(s) { None => None, Some((b, t)) => Some((Key::U32(b), t)) },
    KT::I32 => match gn(s) { None => None, Some((b, t)) => Some((Key::I32(zz(b as int) as i32), t)) },
    KT::U64 => match gn8(s) { None => None, Some((b, t)) => Some((Key::U64(b), t)) },
    KT::I64 => match gn8(s) { None => None, Some((b, t)) => Some((Key::I64(zz(b as int) as i64), t)) },
    KT::Str => match gs(s) { None => None, Some((b, t)) => Some((Key::Str(b), t)) },
    KT::Uuid => match gu(s) { None => None, Some((b, t)) => Some((Key::Uuid(b), t)) } } }
pub open spec fn ghead(sh: Shape, s: Seq<u8>) -> Option<(Head, Seq<u8>)> { match sh {
    Shape::Vec => Some((Head::Unit, s)),
    Shape::Struct => match gn(s) { None => None, Some((n, t)) => Some((Head::Id(n), t)) },
    Shape::Map(kt) => match gkey(kt, s) { None => None, Some((k, t)) => Some((Head::Key(k), t)) },
    Shape::Set(kt) => match gkey(kt, s) { None => None, Some((k, t)) => Some((Head::Key(k), t)) } } }
pub open spec fn pkey(k: Key) -> Seq<u8> { match k {
    Key::U8(b) => seq![b], Key::I8(b) => seq![b as u8], Key::U16(b) => pn2(b), Key::I16(b) => pn2(zn(b as int) as u16), Key::U32(b) => pn(b), Key::I32(b) => pn(zn(b as int) as u32),
    Key::U64(b) => pn8(b), Key::I64(b) => pn8(zn(b as int) as u64), Key::Str(b) => pn(b.len() as u32) + b, Key::Uuid(u) => u@ } }
pub open spec fn kt_of(k: Key) -> KT { match k { Key::U8(_) => KT::U8, Key::I8(_) => KT::I8, Key::U16(_) => KT::U16, Key::I16(_) => KT::I16, Key::U32(_) => KT::U32, Key::I32(_) => KT::I32, Key::U64(_) => KT::U64, Key::I64(_) => KT::I64, Key::Str(_) => KT::Str, Key::Uuid(_) => KT::Uuid } }
/// a key that can be encoded
pub open spec fn fits_key(k: Key) -> bool { k is Str ==> k->Str_0.len() <= u32::MAX }
/// a key that decodes to a string
pub open spec fn utf8_key(k: Key) -> bool { k is Str ==> utf8(k->Str_0) }
pub open spec fn gchunks(s: Seq<u8>, acc: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)>
    decreases s.len()
{ match gn(s) { None => None, Some((n, t)) => if n == 0 { Some((acc, t)) } else { match gb(n as int, t) { None => None, Some((x, u)) => if u.len() < s.len() { gchunks(u, acc + x) } else { None } } } } }
pub open spec fn dec(e: bool, s: Seq<u8>, d: int) -> Option<(V, Seq<u8>)>
    decreases 64 - d, 3nat, 0nat
{ if d > max_depth() { None } else { match gd::<ValueKind>(s) { None => None, Some((k, t)) => dec_k(e, k, t, d) } } }
/// the value behind its kind
pub open spec fn dec_k(e: bool, k: ValueKind, t: Seq<u8>, d: int) -> Option<(V, Seq<u8>)>
    decreases 64 - d, 2nat, 0nat
{
    if d > max_depth() { None } else { match k {
        ValueKind::None => Some((V::None, t)),
        ValueKind::Some => match dec(e, t, d + 1) { None => None, Some((v, u)) => Some((V::Some(Box::new(v)), u)) },
        ValueKind::Bool => match g1(t) { None => None, Some((b, u)) => Some((V::Bool(b != 0), u)) },
        ValueKind::U8 => match g1(t) { None => None, Some((b, u)) => Some((V::U8(b), u)) },
        ValueKind::I8 => match g1(t) { None => None, Some((b, u)) => Some((V::I8(b as i8), u)) },
        ValueKind::U16 => match gn2(t) { None => None, Some((b, u)) => Some((V::U16(b), u)) },
        ValueKind::I16 => match gn2(t) { None => None, Some((b, u)) => Some((V::I16(zz(b as int) as i16), u)) },
        ValueKind::U32 => match gn(t) { None => None, Some((b, u)) => Some((V::U32(b), u)) },
        ValueKind::I32 => match gn(t) { None => None, Some((b, u)) => Some((V::I32(zz(b as int) as i32), u)) },
        ValueKind::U64 => match gn8(t) { None => None, Some((b, u)) => Some((V::U64(b), u)) },
        ValueKind::I64 => match gn8(t) { None => None, Some((b, u)) => Some((V::I64(zz(b as int) as i64), u)) },
        ValueKind::F32 => match gb(4, t) { None => None, Some((b, u)) => Some((V::F32(un4(b)), u)) },
        ValueKind::F64 => match gb(8, t) { None => None, Some((b, u)) => Some((V::F64(un8(b)), u)) },
        ValueKind::String => match gs(t) { None => None, Some((b, u)) => Some((V::Str(b), u)) },
        ValueKind::Uuid => match gu(t) { None => None, Some((b, u)) => Some((V::Uuid(b), u)) },
        ValueKind::ObjectId => match gobj(t) { None => None, Some((b, u)) => Some((V::ObjectId(b), u)) },
        ValueKind::ServiceId => match gsvc(t) { None => None, Some((b, u)) => Some((V::ServiceId(b), u)) },
        ValueKind::Bytes1 => match gs(t) { None => None, Some((b, u)) => Some((V::Bytes(b), u)) },
        ValueKind::Bytes2 => if !e { None } else { match gchunks(t, Seq::empty()) { None => None, Some((b, u)) => Some((V::Bytes(b), u)) } },
        ValueKind::Enum => match gn(t) { None => None, Some((n, u)) => match dec(e, u, d + 1) { None => None, Some((v, w)) => Some((V::Enum(n, Box::new(v)), w)) } },
        ValueKind::Sender => match gu(t) { None => None, Some((b, u)) => Some((V::Sender(ChannelCookie(b)), u)) },
        ValueKind::Receiver => match gu(t) { None => None, Some((b, u)) => Some((V::Receiver(ChannelCookie(b)), u)) },
        _ => match shape_of(k) { None => None, Some((sh, e2)) =>
            if e2 { if !e { None } else { match dec2(e, sh, t, d, Seq::empty()) { None => None, Some((l, u)) => Some((V::List(sh, l), u)) } } }
            else { match gn(t) { None => None, Some((n, u)) => match dec1(e, sh, u, n as nat, d, Seq::empty()) { None => None, Some((l, w)) => Some((V::List(sh, l), w)) } } } },
    } }
}
/// one entry of a container
pub open spec fn dec_e(e: bool, sh: Shape, s: Seq<u8>, d: int) -> Option<(Ent, Seq<u8>)>
    decreases 64 - d, 0nat, 0nat
{
    if d > max_depth() { None } else { match ghead(sh, s) { None => None, Some((h, t)) =>
        if has_elem(sh) { match dec(e, t, d + 1) { None => None, Some((v, u)) => Some((Ent { h, v }, u)) } } else { Some((Ent { h, v: V::None }, t)) } } }
}
/// n entries behind those in `acc`
pub open spec fn dec1(e: bool, sh: Shape, s: Seq<u8>, n: nat, d: int, acc: Seq<Ent>) -> Option<(Seq<Ent>, Seq<u8>)>
    decreases 64 - d, 1nat, n
{ if d > max_depth() { None } else if n == 0 { Some((acc, s)) } else { match dec_e(e, sh, s, d) { None => None, Some((x, t)) => dec1(e, sh, t, (n - 1) as nat, d, acc.push(x)) } } }
/// entries up to the terminator
pub open spec fn dec2(e: bool, sh: Shape, s: Seq<u8>, d: int, acc: Seq<Ent>) -> Option<(Seq<Ent>, Seq<u8>)>
    decreases 64 - d, 1nat, s.len()
{
    if d > max_depth() { None } else { match gd::<ValueKind>(s) {
        Some((ValueKind::None, t)) => Some((acc, t)),
        Some((ValueKind::Some, t)) => match dec_e(e, sh, t, d) { None => None, Some((x, u)) => if u.len() < s.len() { dec2(e, sh, u, d, acc.push(x)) } else { None } },
        _ => None } }
}
pub proof fn dec_deep(e: bool, s: Seq<u8>, d: int) requires d > max_depth() ensures #[trigger] dec(e, s, d) == None::<(V, Seq<u8>)> { }

// ---- decoding consumes a prefix, whatever follows, at any smaller depth
pub open spec fn pre(s: Seq<u8>, t: Seq<u8>) -> Seq<u8> { s.take(s.len() - t.len()) }
/// t is what remains of s
pub open spec fn suf(s: Seq<u8>, t: Seq<u8>) -> bool { t.len() <= s.len() && s == pre(s, t) + t }
