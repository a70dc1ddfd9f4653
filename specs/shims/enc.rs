// ---- encoding; `e` selects the encodings of 1.20, the older ones otherwise
pub open spec fn phead(h: Head) -> Seq<u8> { match h { Head::Unit => Seq::empty(), Head::Id(n) => pn(n), Head::Key(k) => pkey(k) } }
pub open spec fn bit(b: bool) -> u8 { if b { 1 } else { 0 } }
pub open spec fn enc(e: bool, v: V) -> Seq<u8>
    decreases v, 0nat
{ match v {
    V::None => pd(ValueKind::None),
    V::Some(b) => pd(ValueKind::Some) + enc(e, *b),
    V::Bool(b) => pd(ValueKind::Bool) + seq![bit(b)],
    V::U8(n) => pd(ValueKind::U8) + seq![n],
    V::I8(n) => pd(ValueKind::I8) + seq![n as u8],
    V::U16(n) => pd(ValueKind::U16) + pn2(n),
    V::I16(n) => pd(ValueKind::I16) + pn2(zn(n as int) as u16),
    V::U32(n) => pd(ValueKind::U32) + pn(n),
    V::I32(n) => pd(ValueKind::I32) + pn(zn(n as int) as u32),
    V::U64(n) => pd(ValueKind::U64) + pn8(n),
    V::I64(n) => pd(ValueKind::I64) + pn8(zn(n as int) as u64),
    V::F32(n) => pd(ValueKind::F32) + le4(n),
    V::F64(n) => pd(ValueKind::F64) + le8(n),
    V::Str(b) => pd(ValueKind::String) + pn(b.len() as u32) + b,
    V::Uuid(u) => pd(ValueKind::Uuid) + u@,
    V::ObjectId(o) => pd(ValueKind::ObjectId) + o.uuid.0@ + o.cookie.0@,
    V::ServiceId(s) => pd(ValueKind::ServiceId) + s.object_id.uuid.0@ + s.object_id.cookie.0@ + s.uuid.0@ + s.cookie.0@,
    V::Bytes(b) => if e { pd(ValueKind::Bytes2) + pchunk(b) + pn(0) } else { pd(ValueKind::Bytes1) + pn(b.len() as u32) + b },
    V::Enum(n, b) => pd(ValueKind::Enum) + pn(n) + enc(e, *b),
    V::Sender(c) => pd(ValueKind::Sender) + c.0@,
    V::Receiver(c) => pd(ValueKind::Receiver) + c.0@,
    V::List(sh, l) => if e { pd(kind_of(sh, true)) + encs(true, sh, l) + pd(ValueKind::None) } else { pd(kind_of(sh, false)) + pn(l.len() as u32) + encs(false, sh, l) },
} }
pub open spec fn pchunk(b: Seq<u8>) -> Seq<u8> { if b.len() == 0 { Seq::empty() } else { pn(b.len() as u32) + b } }
/// the entries of a container
pub open spec fn encs(e: bool, sh: Shape, l: Seq<Ent>) -> Seq<u8>
    decreases l, l.len()
{ if l.len() == 0 { Seq::empty() } else { (if e { pd(ValueKind::Some) } else { Seq::empty() }) + phead(l[0].h) + (if has_elem(sh) { enc(e, l[0].v) } else { Seq::empty() }) + encs(e, sh, l.skip(1)) } }
pub open spec fn enc_x(e: bool, sh: Shape, x: Ent) -> Seq<u8> { phead(x.h) + (if has_elem(sh) { enc(e, x.v) } else { Seq::empty() }) }
pub proof fn encs_push(e: bool, sh: Shape, l: Seq<Ent>, x: Ent)
    ensures encs(e, sh, l.push(x)) == encs(e, sh, l) + (if e { pd(ValueKind::Some) } else { Seq::empty() }) + enc_x(e, sh, x),
    decreases l.len(),
{
    let m = l.push(x); let p = if e { pd(ValueKind::Some) } else { Seq::empty() };
    if l.len() == 0 { assert(m.skip(1) =~= Seq::empty()); assert(encs(e, sh, m.skip(1)) =~= Seq::empty()); assert(encs(e, sh, m) =~= p + enc_x(e, sh, x)); assert(encs(e, sh, l) + p + enc_x(e, sh, x) =~= p + enc_x(e, sh, x)); }
    else { encs_push(e, sh, l.skip(1), x); assert(m.skip(1) =~= l.skip(1).push(x)); assert(encs(e, sh, m) =~= encs(e, sh, l) + p + enc_x(e, sh, x)); }
}
// ---- well-formed values at a depth
pub open spec fn head_ok(sh: Shape, h: Head) -> bool { match sh { Shape::Vec => h is Unit, Shape::Struct => h is Id, Shape::Map(kt) => h is Key && kt_of(h->Key_0) == kt && fits_key(h->Key_0), Shape::Set(kt) => h is Key && kt_of(h->Key_0) == kt && fits_key(h->Key_0) } }
/// v may appear at depth d, and its strings can be counted
pub open spec fn ok(v: V, d: int) -> bool
    decreases v
{ d <= max_depth() && match v {
    V::Some(b) => ok(*b, d + 1),
    V::Enum(n, b) => ok(*b, d + 1),
    V::Str(b) => b.len() <= u32::MAX,
    V::List(sh, l) => forall|i: int| 0 <= i < l.len() ==> head_ok(sh, (#[trigger] l[i]).h) && (if has_elem(sh) { ok(l[i].v, d + 1) } else { l[i].v is None }),
    _ => true } }
pub open spec fn ok_x(sh: Shape, x: Ent, d: int) -> bool { head_ok(sh, x.h) && (if has_elem(sh) { ok(x.v, d + 1) } else { x.v is None }) }
/// the elements and bytes of v can be counted
pub open spec fn fits(v: V) -> bool
    decreases v
{ match v {
    V::Some(b) => fits(*b),
    V::Enum(n, b) => fits(*b),
    V::Bytes(b) => b.len() <= u32::MAX,
    V::List(sh, l) => l.len() <= u32::MAX && forall|i: int| 0 <= i < l.len() ==> fits((#[trigger] l[i]).v),
    _ => true } }
// ---- what is decoded is well-formed
pub proof fn gb_len(n: int, s: Seq<u8>) ensures gb(n, s) is Some ==> gb(n, s)->Some_0.0.len() == n
{ reveal(gb); }
pub proof fn gkey_ok(kt: KT, s: Seq<u8>) requires gkey(kt, s) is Some ensures kt_of(gkey(kt, s)->Some_0.0) == kt, fits_key(gkey(kt, s)->Some_0.0)
{ if kt is Str { let (n, t) = gn(s)->Some_0; gb_len(n as int, t); } }
pub proof fn dec_ok(e: bool, s: Seq<u8>, d: int)
    requires dec(e, s, d) is Some,
    ensures ok(dec(e, s, d)->Some_0.0, d),
    decreases 64 - d, 3nat, 0nat,
{ let (k, t) = gd::<ValueKind>(s)->Some_0; dec_k_ok(e, k, t, d); }
pub proof fn dec_k_ok(e: bool, k: ValueKind, t: Seq<u8>, d: int)
    requires dec_k(e, k, t, d) is Some,
    ensures ok(dec_k(e, k, t, d)->Some_0.0, d),
    decreases 64 - d, 2nat, 0nat,
{
    match k {
        ValueKind::Some => dec_ok(e, t, d + 1),
        ValueKind::Enum => { let w = gn(t)->Some_0.1; dec_ok(e, w, d + 1); },
        ValueKind::String => { let (n, u) = gn(t)->Some_0; gb_len(n as int, u); },
        _ => if shape_of(k) is Some {
            let (sh, e2) = shape_of(k)->Some_0;
            if e2 { dec2_ok(e, sh, t, d, Seq::empty()); } else { let (n, w) = gn(t)->Some_0; dec1_ok(e, sh, w, n as nat, d, Seq::empty()); }
        },
    }
}
pub proof fn dec_e_ok(e: bool, sh: Shape, s: Seq<u8>, d: int)
    requires dec_e(e, sh, s, d) is Some,
    ensures ok_x(sh, dec_e(e, sh, s, d)->Some_0.0, d),
    decreases 64 - d, 0nat, 0nat,
{
    match sh { Shape::Map(kt) => gkey_ok(kt, s), Shape::Set(kt) => gkey_ok(kt, s), _ => {} }
    if has_elem(sh) { dec_ok(e, ghead(sh, s)->Some_0.1, d + 1); }
}
pub open spec fn ok_l(sh: Shape, l: Seq<Ent>, d: int) -> bool { forall|i: int| 0 <= i < l.len() ==> ok_x(sh, #[trigger] l[i], d) }
/// the entries read behind `acc`
pub proof fn dec1_ok(e: bool, sh: Shape, s: Seq<u8>, n: nat, d: int, acc: Seq<Ent>)
    requires dec1(e, sh, s, n, d, acc) is Some,
    ensures
        ok_l(sh, acc, d) ==> ok_l(sh, dec1(e, sh, s, n, d, acc)->Some_0.0, d),
        dec1(e, sh, s, n, d, acc)->Some_0.0.len() == acc.len() + n,
        forall|i: int| 0 <= i < acc.len() ==> dec1(e, sh, s, n, d, acc)->Some_0.0[i] == acc[i],
    decreases 64 - d, 1nat, n,
{
    if n > 0 {
        let (x, t) = dec_e(e, sh, s, d)->Some_0;
        dec_e_ok(e, sh, s, d); dec1_ok(e, sh, t, (n - 1) as nat, d, acc.push(x));
        assert forall|i: int| 0 <= i < acc.len() implies dec1(e, sh, s, n, d, acc)->Some_0.0[i] == acc[i] by { assert(acc.push(x)[i] == acc[i]); }
    }
}
pub proof fn dec2_ok(e: bool, sh: Shape, s: Seq<u8>, d: int, acc: Seq<Ent>)
    requires dec2(e, sh, s, d, acc) is Some,
    ensures
        ok_l(sh, acc, d) ==> ok_l(sh, dec2(e, sh, s, d, acc)->Some_0.0, d),
        dec2(e, sh, s, d, acc)->Some_0.0.len() >= acc.len(),
        forall|i: int| 0 <= i < acc.len() ==> dec2(e, sh, s, d, acc)->Some_0.0[i] == acc[i],
    decreases 64 - d, 1nat, s.len(),
{
    match gd::<ValueKind>(s) { Some((ValueKind::Some, t)) => {
        let (x, u) = dec_e(e, sh, t, d)->Some_0;
        dec_e_ok(e, sh, t, d); dec2_ok(e, sh, u, d, acc.push(x));
        assert forall|i: int| 0 <= i < acc.len() implies dec2(e, sh, s, d, acc)->Some_0.0[i] == acc[i] by { assert(acc.push(x)[i] == acc[i]); }
    }, _ => {} }
}
// ---- decoding an encoding gives the value back, whatever follows
pub broadcast proof fn vx_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] (a + b + c) == a + (b + c) { assert(a + b + c =~= a + (b + c)); }
pub proof fn zz_zn(i: int) ensures zz(zn(i)) == i { }
pub proof fn gn_pn_at(n: u32, t: Seq<u8>) ensures gn(pn(n) + t) == Some((n, t)) { gn_pn(n, t); }
pub proof fn key_rt(k: Key, t: Seq<u8>)
    requires fits_key(k),
    ensures gkey(kt_of(k), pkey(k) + t) == Some((k, t)),
{
    match k {
        Key::U8(b) => { assert((seq![b] + t).skip(1) =~= t); },
        Key::I8(b) => { assert((seq![b as u8] + t).skip(1) =~= t); assert(((b as u8) as i8) == b) by(bit_vector); },
        Key::U16(b) => gn2_pn2(b, t), Key::I16(b) => { gn2_pn2(zn(b as int) as u16, t); },
        Key::U32(b) => gn_pn(b, t), Key::I32(b) => gn_pn(zn(b as int) as u32, t),
        Key::U64(b) => gn8_pn8(b, t), Key::I64(b) => gn8_pn8(zn(b as int) as u64, t),
        Key::Str(b) => { assert(pn(b.len() as u32) + b + t =~= pn(b.len() as u32) + (b + t)); gn_pn(b.len() as u32, b + t); gb_pb(b, t); },
        Key::Uuid(u) => gu_pu(u, t),
    }
}
pub proof fn head_rt(sh: Shape, h: Head, t: Seq<u8>)
    requires head_ok(sh, h),
    ensures ghead(sh, phead(h) + t) == Some((h, t)),
{ match h { Head::Unit => { assert(phead(h) + t =~= t); }, Head::Id(n) => gn_pn(n, t), Head::Key(k) => key_rt(k, t) } }
pub proof fn f4_rt(n: u32, t: Seq<u8>) ensures gb(4, le4(n) + t) == Some((le4(n), t)), un4(le4(n)) == n { gb_pb(le4(n), t); le4_un4(n); }
pub proof fn f8_rt(n: u64, t: Seq<u8>) ensures gb(8, le8(n) + t) == Some((le8(n), t)), un8(le8(n)) == n { gb_pb(le8(n), t); le8_un8(n); }
pub proof fn kind_shape(sh: Shape, e: bool) ensures shape_of(kind_of(sh, e)) == Some((sh, e)) { }
proof fn val_rt_bool(e1: bool, e: bool, b: bool, d: int, t: Seq<u8>)
    requires ok(V::Bool(b), d), e ==> e1,
    ensures dec(e1, enc(e, V::Bool(b)) + t, d) == Some((V::Bool(b), t)),
{ let u = seq![bit(b)]; assert((u + t).skip(1) =~= t); assert((u + t)[0] == bit(b)); assert(enc(e, V::Bool(b)) + t =~= pd(ValueKind::Bool) + (u + t)); gd_pd(ValueKind::Bool, u + t); rt_k(e1, ValueKind::Bool, u + t, d); }
proof fn val_rt_u8(e1: bool, e: bool, n: u8, d: int, t: Seq<u8>)
    requires ok(V::U8(n), d), e ==> e1,
    ensures dec(e1, enc(e, V::U8(n)) + t, d) == Some((V::U8(n), t)),
{ let u = seq![n]; assert((u + t).skip(1) =~= t); assert((u + t)[0] == n); assert(enc(e, V::U8(n)) + t =~= pd(ValueKind::U8) + (u + t)); gd_pd(ValueKind::U8, u + t); rt_k(e1, ValueKind::U8, u + t, d); }
proof fn val_rt_i8(e1: bool, e: bool, n: i8, d: int, t: Seq<u8>)
    requires ok(V::I8(n), d), e ==> e1,
    ensures dec(e1, enc(e, V::I8(n)) + t, d) == Some((V::I8(n), t)),
{ let m = n as u8; assert(((n as u8) as i8) == n) by(bit_vector); let u = seq![m]; assert((u + t).skip(1) =~= t); assert((u + t)[0] == m); assert(enc(e, V::I8(n)) + t =~= pd(ValueKind::I8) + (u + t)); gd_pd(ValueKind::I8, u + t); rt_k(e1, ValueKind::I8, u + t, d); }
proof fn val_rt_byte(e1: bool, e: bool, v: V, d: int, t: Seq<u8>)
    requires ok(v, d), fits(v), e ==> e1, v is Bool || v is U8 || v is I8,
    ensures dec(e1, enc(e, v) + t, d) == Some((v, t)),
{ match v { V::Bool(b) => val_rt_bool(e1, e, b, d, t), V::U8(n) => val_rt_u8(e1, e, n, d, t), V::I8(n) => val_rt_i8(e1, e, n, d, t), _ => {} } }
proof fn val_rt_short(e1: bool, e: bool, v: V, d: int, t: Seq<u8>)
    requires ok(v, d), fits(v), e ==> e1, v is U16 || v is I16,
    ensures dec(e1, enc(e, v) + t, d) == Some((v, t)),
{
    match v {
        V::U16(n) => { let u = pn2(n); gn2_pn2(n, t); assert(enc(e, v) + t =~= pd(ValueKind::U16) + (u + t)); gd_pd(ValueKind::U16, u + t); rt_k(e1, ValueKind::U16, u + t, d); },
        V::I16(n) => { let u = pn2(zn(n as int) as u16); gn2_pn2(zn(n as int) as u16, t); assert(enc(e, v) + t =~= pd(ValueKind::I16) + (u + t)); gd_pd(ValueKind::I16, u + t); rt_k(e1, ValueKind::I16, u + t, d); },
        _ => {},
    }
}
proof fn val_rt_long(e1: bool, e: bool, v: V, d: int, t: Seq<u8>)
    requires ok(v, d), fits(v), e ==> e1, v is U32 || v is I32 || v is U64 || v is I64,
    ensures dec(e1, enc(e, v) + t, d) == Some((v, t)),
{
    match v {
        V::U32(n) => { let u = pn(n); gn_pn(n, t); assert(enc(e, v) + t =~= pd(ValueKind::U32) + (u + t)); gd_pd(ValueKind::U32, u + t); rt_k(e1, ValueKind::U32, u + t, d); },
        V::I32(n) => { let u = pn(zn(n as int) as u32); gn_pn(zn(n as int) as u32, t); assert(enc(e, v) + t =~= pd(ValueKind::I32) + (u + t)); gd_pd(ValueKind::I32, u + t); rt_k(e1, ValueKind::I32, u + t, d); },
        V::U64(n) => { let u = pn8(n); gn8_pn8(n, t); assert(enc(e, v) + t =~= pd(ValueKind::U64) + (u + t)); gd_pd(ValueKind::U64, u + t); rt_k(e1, ValueKind::U64, u + t, d); },
        V::I64(n) => { let u = pn8(zn(n as int) as u64); gn8_pn8(zn(n as int) as u64, t); assert(enc(e, v) + t =~= pd(ValueKind::I64) + (u + t)); gd_pd(ValueKind::I64, u + t); rt_k(e1, ValueKind::I64, u + t, d); },
        _ => {},
    }
}
proof fn val_rt_flt(e1: bool, e: bool, v: V, d: int, t: Seq<u8>)
    requires ok(v, d), fits(v), e ==> e1, v is F32 || v is F64 || v is Str,
    ensures dec(e1, enc(e, v) + t, d) == Some((v, t)),
{
    match v {
        V::F32(n) => { f4_rt(n, t); assert(enc(e, v) + t =~= pd(ValueKind::F32) + (le4(n) + t)); gd_pd(ValueKind::F32, le4(n) + t); rt_k(e1, ValueKind::F32, le4(n) + t, d); },
        V::F64(n) => { f8_rt(n, t); assert(enc(e, v) + t =~= pd(ValueKind::F64) + (le8(n) + t)); gd_pd(ValueKind::F64, le8(n) + t); rt_k(e1, ValueKind::F64, le8(n) + t, d); },
        V::Str(b) => { let u = pn(b.len() as u32) + (b + t); gn_pn(b.len() as u32, b + t); gb_pb(b, t); assert(enc(e, v) + t =~= pd(ValueKind::String) + (u)); gd_pd(ValueKind::String, u); rt_k(e1, ValueKind::String, u, d); },
        _ => {},
    }
}
proof fn val_rt_id(e1: bool, e: bool, v: V, d: int, t: Seq<u8>)
    requires ok(v, d), fits(v), e ==> e1, v is Uuid || v is Sender || v is Receiver,
    ensures dec(e1, enc(e, v) + t, d) == Some((v, t)),
{
    match v {
        V::Uuid(u) => { gu_pu(u, t); assert(enc(e, v) + t =~= pd(ValueKind::Uuid) + (u@ + t)); gd_pd(ValueKind::Uuid, u@ + t); rt_k(e1, ValueKind::Uuid, u@ + t, d); },
        V::Sender(c) => { gu_pu(c.0, t); assert(enc(e, v) + t =~= pd(ValueKind::Sender) + (c.0@ + t)); gd_pd(ValueKind::Sender, c.0@ + t); rt_k(e1, ValueKind::Sender, c.0@ + t, d); },
        V::Receiver(c) => { gu_pu(c.0, t); assert(enc(e, v) + t =~= pd(ValueKind::Receiver) + (c.0@ + t)); gd_pd(ValueKind::Receiver, c.0@ + t); rt_k(e1, ValueKind::Receiver, c.0@ + t, d); },
        _ => {},
    }
}
proof fn val_rt_obj(e1: bool, e: bool, v: V, d: int, t: Seq<u8>)
    requires ok(v, d), fits(v), e ==> e1, v is ObjectId || v is ServiceId,
    ensures dec(e1, enc(e, v) + t, d) == Some((v, t)),
{
    match v {
        V::ObjectId(o) => { let u = o.uuid.0@ + (o.cookie.0@ + t); gu_pu(o.uuid.0, o.cookie.0@ + t); gu_pu(o.cookie.0, t); assert(enc(e, v) + t =~= pd(ValueKind::ObjectId) + (u)); gd_pd(ValueKind::ObjectId, u); rt_k(e1, ValueKind::ObjectId, u, d); },
        V::ServiceId(s) => {
            let u3 = s.cookie.0@ + t; let u2 = s.uuid.0@ + u3; let u1 = s.object_id.cookie.0@ + u2; let u = s.object_id.uuid.0@ + u1;
            gu_pu(s.cookie.0, t); gu_pu(s.uuid.0, u3); gu_pu(s.object_id.cookie.0, u2); gu_pu(s.object_id.uuid.0, u1); assert(enc(e, v) + t =~= pd(ValueKind::ServiceId) + (u)); gd_pd(ValueKind::ServiceId, u); rt_k(e1, ValueKind::ServiceId, u, d);
            assert(enc(e, v) + t =~= pd(ValueKind::ServiceId) + u);
        },
        _ => {},
    }
}
proof fn val_rt_bytes(e1: bool, e: bool, v: V, d: int, t: Seq<u8>)
    requires ok(v, d), fits(v), e ==> e1, v is Bytes,
    ensures dec(e1, enc(e, v) + t, d) == Some((v, t)),
{
    match v {
        V::Bytes(b) => {
            if e {
                let u = pchunk(b) + (pn(0) + t);
                assert(enc(e, v) + t =~= pd(ValueKind::Bytes2) + u);
                gn_pn(0, t);
                if b.len() == 0 { assert(u =~= pn(0) + t); assert(b =~= Seq::empty()); }
                else { let w = b + (pn(0) + t); assert(u =~= pn(b.len() as u32) + w); gn_pn(b.len() as u32, w); gb_pb(b, pn(0) + t); pn_len(b.len() as u32); assert(Seq::empty() + b =~= b); assert(gchunks(pn(0) + t, b) == Some((b, t))); }
                assert(enc(e, v) + t =~= pd(ValueKind::Bytes2) + (u)); gd_pd(ValueKind::Bytes2, u); rt_k(e1, ValueKind::Bytes2, u, d);
            } else { let u = pn(b.len() as u32) + (b + t); gn_pn(b.len() as u32, b + t); gb_pb(b, t); assert(enc(e, v) + t =~= pd(ValueKind::Bytes1) + (u)); gd_pd(ValueKind::Bytes1, u); rt_k(e1, ValueKind::Bytes1, u, d); }
        },
        _ => {},
    }
}
pub proof fn val_rt(e1: bool, e: bool, v: V, d: int, t: Seq<u8>)
    requires ok(v, d), fits(v), e ==> e1,
    ensures dec(e1, enc(e, v) + t, d) == Some((v, t)),
    decreases v, 1nat,
{
    hide(ok); hide(fits); hide(enc); hide(dec);
    match v {
        V::None | V::Some(_) | V::Enum(_, _) => val_rt_in(e1, e, v, d, t),
        V::List(_, _) => val_rt_list(e1, e, v, d, t),
        V::Bool(_) | V::U8(_) | V::I8(_) => val_rt_byte(e1, e, v, d, t),
        V::U16(_) | V::I16(_) => val_rt_short(e1, e, v, d, t),
        V::U32(_) | V::I32(_) | V::U64(_) | V::I64(_) => val_rt_long(e1, e, v, d, t),
        V::F32(_) | V::F64(_) | V::Str(_) => val_rt_flt(e1, e, v, d, t),
        V::Uuid(_) | V::Sender(_) | V::Receiver(_) => val_rt_id(e1, e, v, d, t),
        V::ObjectId(_) | V::ServiceId(_) => val_rt_obj(e1, e, v, d, t),
        V::Bytes(_) => val_rt_bytes(e1, e, v, d, t),
    }
}
proof fn val_rt_in(e1: bool, e: bool, v: V, d: int, t: Seq<u8>)
    requires ok(v, d), fits(v), e ==> e1, v is None || v is Some || v is Enum,
    ensures dec(e1, enc(e, v) + t, d) == Some((v, t)),
    decreases v, 0nat,
{
    match v {
        V::None => { gd_pd(ValueKind::None, t); },
        V::Some(b) => { val_rt(e1, e, *b, d + 1, t); assert(enc(e, v) + t =~= pd(ValueKind::Some) + (enc(e, *b) + t)); gd_pd(ValueKind::Some, enc(e, *b) + t); rt_k(e1, ValueKind::Some, enc(e, *b) + t, d); },
        V::Enum(n, b) => { val_rt(e1, e, *b, d + 1, t); let w = enc(e, *b) + t; let u = pn(n) + w; gn_pn(n, w); assert(enc(e, v) + t =~= pd(ValueKind::Enum) + (u)); gd_pd(ValueKind::Enum, u); rt_k(e1, ValueKind::Enum, u, d); },
        _ => {},
    }
}
proof fn val_rt_list(e1: bool, e: bool, v: V, d: int, t: Seq<u8>)
    requires ok(v, d), fits(v), e ==> e1, v is List,
    ensures dec(e1, enc(e, v) + t, d) == Some((v, t)),
    decreases v, 0nat,
{
    match v {
        V::List(sh, l) => {
            kind_shape(sh, e); let k = kind_of(sh, e);
            assert(l.skip(0) =~= l); assert(l.take(0) =~= Seq::empty());
            assert(ok_l(sh, l, d)) by { assert forall|i: int| 0 <= i < l.len() implies ok_x(sh, #[trigger] l[i], d) by { } }
            if e {
                let u = encs(true, sh, l) + (pd(ValueKind::None) + t);
                assert(enc(e, v) + t =~= pd(k) + u);
                rt2(sh, l, l, d, t); gd_pd(k, u); rt_k(e1, k, u, d);
            } else {
                let w = encs(false, sh, l) + t; let u = pn(l.len() as u32) + w;
                assert(enc(e, v) + t =~= pd(k) + u);
                rt1(e1, sh, l, l, d, t); gn_pn(l.len() as u32, w); gd_pd(k, u); rt_k(e1, k, u, d);
            }
        },
        _ => {},
    }
}
/// unfolds one level of decoding
pub proof fn rt_k(e1: bool, k: ValueKind, u: Seq<u8>, d: int)
    requires d <= max_depth(), gd::<ValueKind>(pd(k) + u) == Some((k, u)),
    ensures dec(e1, pd(k) + u, d) == dec_k(e1, k, u, d),
{ }
/// the remaining entries r of l, in the older encoding
pub proof fn rt1(e1: bool, sh: Shape, l: Seq<Ent>, r: Seq<Ent>, d: int, t: Seq<u8>)
    requires d <= max_depth(), r.len() <= l.len(), r == l.skip(l.len() - r.len()), forall|i: int| 0 <= i < r.len() ==> ok_x(sh, #[trigger] r[i], d) && fits(r[i].v),
    ensures dec1(e1, sh, encs(false, sh, r) + t, r.len(), d, l.take(l.len() - r.len())) == Some((l, t)),
    decreases r, r.len(),
{
    let acc = l.take(l.len() - r.len());
    if r.len() == 0 { assert(acc =~= l); assert(encs(false, sh, r) + t =~= t); } else {
        let q = r.skip(1); let x = r[0]; let w = encs(false, sh, q) + t;
        assert forall|i: int| 0 <= i < q.len() implies ok_x(sh, #[trigger] q[i], d) && fits(q[i].v) by { assert(q[i] == r[i + 1]); }
        assert(q =~= l.skip(l.len() - q.len()));
        rt1(e1, sh, l, q, d, t);
        assert(x == l[l.len() - r.len()]);
        assert(l.take(l.len() - q.len()) =~= acc.push(x));
        assert(encs(false, sh, r) =~= enc_x(false, sh, x) + encs(false, sh, q));
        assert(encs(false, sh, r) + t =~= enc_x(false, sh, x) + w);
        if has_elem(sh) { val_rt(e1, false, x.v, d + 1, w); }
        rt_x(e1, false, sh, x, d, w);
    }
}
pub proof fn rt2(sh: Shape, l: Seq<Ent>, r: Seq<Ent>, d: int, t: Seq<u8>)
    requires d <= max_depth(), r.len() <= l.len(), r == l.skip(l.len() - r.len()), forall|i: int| 0 <= i < r.len() ==> ok_x(sh, #[trigger] r[i], d) && fits(r[i].v),
    ensures dec2(true, sh, encs(true, sh, r) + (pd(ValueKind::None) + t), d, l.take(l.len() - r.len())) == Some((l, t)),
    decreases r, r.len(),
{
    let acc = l.take(l.len() - r.len()); let z = pd(ValueKind::None) + t;
    if r.len() == 0 { assert(acc =~= l); assert(encs(true, sh, r) + z =~= z); gd_pd(ValueKind::None, t); } else {
        let q = r.skip(1); let x = r[0]; let w = encs(true, sh, q) + z;
        assert forall|i: int| 0 <= i < q.len() implies ok_x(sh, #[trigger] q[i], d) && fits(q[i].v) by { assert(q[i] == r[i + 1]); }
        assert(q =~= l.skip(l.len() - q.len()));
        rt2(sh, l, q, d, t);
        assert(x == l[l.len() - r.len()]);
        assert(l.take(l.len() - q.len()) =~= acc.push(x));
        assert(encs(true, sh, r) =~= pd(ValueKind::Some) + enc_x(true, sh, x) + encs(true, sh, q));
        assert(encs(true, sh, r) + z =~= pd(ValueKind::Some) + (enc_x(true, sh, x) + w));
        gd_pd(ValueKind::Some, enc_x(true, sh, x) + w); pd_len(ValueKind::Some);
        if has_elem(sh) { val_rt(true, true, x.v, d + 1, w); }
        rt_x(true, true, sh, x, d, w);
    }
}
pub proof fn rt_x(e1: bool, e: bool, sh: Shape, x: Ent, d: int, w: Seq<u8>)
    requires d <= max_depth(), ok_x(sh, x, d), has_elem(sh) ==> dec(e1, enc(e, x.v) + w, d + 1) == Some((x.v, w)),
    ensures dec_e(e1, sh, enc_x(e, sh, x) + w, d) == Some((x, w)),
{
    let y = if has_elem(sh) { enc(e, x.v) + w } else { w };
    assert(enc_x(e, sh, x) + w =~= phead(x.h) + y);
    head_rt(sh, x.h, y);
    assert(x == Ent { h: x.h, v: x.v });
}
