// ---- decoding reads a prefix: it gives the same result whatever follows, at any smaller depth
/// what was read from s until t remained, followed by x
pub open spec fn rep(s: Seq<u8>, t: Seq<u8>, x: Seq<u8>) -> Seq<u8> { pre(s, t) + x }
pub proof fn rep_comp(s: Seq<u8>, t: Seq<u8>, u: Seq<u8>, x: Seq<u8>)
    requires suf(s, t), suf(t, u),
    ensures suf(s, u), rep(s, u, x) == rep(s, t, rep(t, u, x)), pre(s, u) == pre(s, t) + pre(t, u),
{
    assert(pre(s, u) =~= pre(s, t) + pre(t, u)) by {
        assert(s =~= pre(s, t) + (pre(t, u) + u));
    }
    assert(s =~= pre(s, u) + u) by { assert(s =~= pre(s, t) + (pre(t, u) + u)); }
    assert(rep(s, u, x) =~= rep(s, t, rep(t, u, x)));
}
pub proof fn suf_skip(s: Seq<u8>, n: int, x: Seq<u8>)
    requires 0 <= n <= s.len(),
    ensures suf(s, s.skip(n)), pre(s, s.skip(n)) == s.take(n), rep(s, s.skip(n), x) == s.take(n) + x, rep(s, s.skip(n), x).skip(n) == x, rep(s, s.skip(n), x).take(n) == s.take(n),
{ assert(s =~= s.take(n) + s.skip(n)); assert((s.take(n) + x).skip(n) =~= x); assert((s.take(n) + x).take(n) =~= s.take(n)); }
pub proof fn g1_fr(s: Seq<u8>, x: Seq<u8>)
    requires g1(s) is Some,
    ensures suf(s, g1(s)->Some_0.1), g1(s)->Some_0.1.len() < s.len(), g1(rep(s, g1(s)->Some_0.1, x)) == Some((g1(s)->Some_0.0, x)),
{ suf_skip(s, 1, x); assert((s.take(1) + x)[0] == s[0]); }
pub proof fn gd_fr<E: VxDisc>(s: Seq<u8>, x: Seq<u8>)
    requires gd::<E>(s) is Some,
    ensures suf(s, gd::<E>(s)->Some_0.1), gd::<E>(s)->Some_0.1.len() < s.len(), gd::<E>(rep(s, gd::<E>(s)->Some_0.1, x)) == Some((gd::<E>(s)->Some_0.0, x)),
{ reveal(gd); suf_skip(s, 1, x); assert((s.take(1) + x)[0] == s[0]); }
pub proof fn gv_fr(n: int, s: Seq<u8>, x: Seq<u8>)
    requires gv(n, s) is Some, 1 <= n <= 8,
    ensures suf(s, gv(n, s)->Some_0.1), gv(n, s)->Some_0.1.len() < s.len(), gv(n, rep(s, gv(n, s)->Some_0.1, x)) == Some((gv(n, s)->Some_0.0, x)),
{
    let m = if s[0] <= 255 - n { 1 } else { 1 + s[0] + n - 255 };
    suf_skip(s, m, x);
    let w = s.take(m) + x;
    assert(w[0] == s[0]);
    if s[0] > 255 - n { assert(w.subrange(1, m) =~= s.subrange(1, m)); }
}
pub proof fn gn_fr(s: Seq<u8>, x: Seq<u8>)
    requires gn(s) is Some,
    ensures suf(s, gn(s)->Some_0.1), gn(s)->Some_0.1.len() < s.len(), gn(rep(s, gn(s)->Some_0.1, x)) == Some((gn(s)->Some_0.0, x)),
{ reveal(gn); gv_fr(4, s, x); }
pub proof fn gn2_fr(s: Seq<u8>, x: Seq<u8>)
    requires gn2(s) is Some,
    ensures suf(s, gn2(s)->Some_0.1), gn2(s)->Some_0.1.len() < s.len(), gn2(rep(s, gn2(s)->Some_0.1, x)) == Some((gn2(s)->Some_0.0, x)),
{ reveal(gn2); gv_fr(2, s, x); }
pub proof fn gn8_fr(s: Seq<u8>, x: Seq<u8>)
    requires gn8(s) is Some,
    ensures suf(s, gn8(s)->Some_0.1), gn8(s)->Some_0.1.len() < s.len(), gn8(rep(s, gn8(s)->Some_0.1, x)) == Some((gn8(s)->Some_0.0, x)),
{ reveal(gn8); gv_fr(8, s, x); }
pub proof fn gb_fr(n: int, s: Seq<u8>, x: Seq<u8>)
    requires gb(n, s) is Some,
    ensures suf(s, gb(n, s)->Some_0.1), gb(n, s)->Some_0.1.len() + n == s.len(), gb(n, rep(s, gb(n, s)->Some_0.1, x)) == Some((gb(n, s)->Some_0.0, x)),
{ reveal(gb); suf_skip(s, n, x); }
pub proof fn gu_fr(s: Seq<u8>, x: Seq<u8>)
    requires gu(s) is Some,
    ensures suf(s, gu(s)->Some_0.1), gu(s)->Some_0.1.len() < s.len(), gu(rep(s, gu(s)->Some_0.1, x)) == Some((gu(s)->Some_0.0, x)),
{ reveal(gu); suf_skip(s, 16, x); }
pub proof fn gs_fr(s: Seq<u8>, x: Seq<u8>)
    requires gs(s) is Some,
    ensures suf(s, gs(s)->Some_0.1), gs(s)->Some_0.1.len() < s.len(), gs(rep(s, gs(s)->Some_0.1, x)) == Some((gs(s)->Some_0.0, x)),
{
    let (n, t) = gn(s)->Some_0; let u = gb(n as int, t)->Some_0.1;
    gb_fr(n as int, t, x); gn_fr(s, rep(t, u, x)); rep_comp(s, t, u, x);
}
pub proof fn gobj_fr(s: Seq<u8>, x: Seq<u8>)
    requires gobj(s) is Some,
    ensures suf(s, gobj(s)->Some_0.1), gobj(s)->Some_0.1.len() < s.len(), gobj(rep(s, gobj(s)->Some_0.1, x)) == Some((gobj(s)->Some_0.0, x)),
{
    let t = gu(s)->Some_0.1; let u = gu(t)->Some_0.1;
    gu_fr(t, x); gu_fr(s, rep(t, u, x)); rep_comp(s, t, u, x);
}
pub proof fn gsvc_fr(s: Seq<u8>, x: Seq<u8>)
    requires gsvc(s) is Some,
    ensures suf(s, gsvc(s)->Some_0.1), gsvc(s)->Some_0.1.len() < s.len(), gsvc(rep(s, gsvc(s)->Some_0.1, x)) == Some((gsvc(s)->Some_0.0, x)),
{
    let t = gobj(s)->Some_0.1; let u = gu(t)->Some_0.1; let w = gu(u)->Some_0.1;
    gu_fr(u, x); gu_fr(t, rep(u, w, x)); rep_comp(t, u, w, x); gobj_fr(s, rep(t, w, x)); rep_comp(s, t, w, x);
}
pub proof fn gkey_fr(kt: KT, s: Seq<u8>, x: Seq<u8>)
    requires gkey(kt, s) is Some,
    ensures suf(s, gkey(kt, s)->Some_0.1), gkey(kt, s)->Some_0.1.len() < s.len(), gkey(kt, rep(s, gkey(kt, s)->Some_0.1, x)) == Some((gkey(kt, s)->Some_0.0, x)),
{
    match kt { KT::U8 | KT::I8 => g1_fr(s, x), KT::U16 | KT::I16 => gn2_fr(s, x), KT::U32 | KT::I32 => gn_fr(s, x), KT::U64 | KT::I64 => gn8_fr(s, x), KT::Str => gs_fr(s, x), KT::Uuid => gu_fr(s, x) }
}
pub proof fn ghead_fr(sh: Shape, s: Seq<u8>, x: Seq<u8>)
    requires ghead(sh, s) is Some,
    ensures suf(s, ghead(sh, s)->Some_0.1), sh is Set ==> ghead(sh, s)->Some_0.1.len() < s.len(), ghead(sh, rep(s, ghead(sh, s)->Some_0.1, x)) == Some((ghead(sh, s)->Some_0.0, x)),
{
    match sh { Shape::Vec => { suf_skip(s, 0, x); assert(s.skip(0) =~= s); assert(s.take(0) + x =~= x); }, Shape::Struct => gn_fr(s, x), Shape::Map(kt) => gkey_fr(kt, s, x), Shape::Set(kt) => gkey_fr(kt, s, x) }
}
pub proof fn gchunks_fr(s: Seq<u8>, acc: Seq<u8>, x: Seq<u8>)
    requires gchunks(s, acc) is Some,
    ensures suf(s, gchunks(s, acc)->Some_0.1), gchunks(s, acc)->Some_0.1.len() < s.len(), gchunks(rep(s, gchunks(s, acc)->Some_0.1, x), acc) == Some((gchunks(s, acc)->Some_0.0, x)),
    decreases s.len(),
{
    let (n, t) = gn(s)->Some_0;
    if n == 0 { gn_fr(s, x); } else {
        let (y, u) = gb(n as int, t)->Some_0; let w = gchunks(u, acc + y)->Some_0.1;
        gchunks_fr(u, acc + y, x); gb_fr(n as int, t, rep(u, w, x)); rep_comp(t, u, w, x); gn_fr(s, rep(t, w, x)); rep_comp(s, t, w, x);
    }
}
pub proof fn dec_fr(e: bool, s: Seq<u8>, d: int, d2: int, x: Seq<u8>)
    requires dec(e, s, d) is Some, d2 <= d,
    ensures suf(s, dec(e, s, d)->Some_0.1), dec(e, s, d)->Some_0.1.len() < s.len(), dec(e, rep(s, dec(e, s, d)->Some_0.1, x), d2) == Some((dec(e, s, d)->Some_0.0, x)),
    decreases 64 - d, 3nat, 0nat,
{
    let (k, t) = gd::<ValueKind>(s)->Some_0; let u = dec_k(e, k, t, d)->Some_0.1;
    dec_k_fr(e, k, t, d, d2, x); gd_fr::<ValueKind>(s, rep(t, u, x)); rep_comp(s, t, u, x);
}
pub proof fn dec_k_fr(e: bool, k: ValueKind, t: Seq<u8>, d: int, d2: int, x: Seq<u8>)
    requires dec_k(e, k, t, d) is Some, d2 <= d,
    ensures suf(t, dec_k(e, k, t, d)->Some_0.1), dec_k(e, k, rep(t, dec_k(e, k, t, d)->Some_0.1, x), d2) == Some((dec_k(e, k, t, d)->Some_0.0, x)),
    decreases 64 - d, 2nat, 0nat,
{
    let u = dec_k(e, k, t, d)->Some_0.1;
    match k {
        ValueKind::None => { suf_skip(t, 0, x); assert(t.skip(0) =~= t); assert(t.take(0) + x =~= x); },
        ValueKind::Some => dec_fr(e, t, d + 1, d2 + 1, x),
        ValueKind::Bool | ValueKind::U8 | ValueKind::I8 => g1_fr(t, x),
        ValueKind::U16 | ValueKind::I16 => gn2_fr(t, x),
        ValueKind::U32 | ValueKind::I32 => gn_fr(t, x),
        ValueKind::U64 | ValueKind::I64 => gn8_fr(t, x),
        ValueKind::F32 => gb_fr(4, t, x),
        ValueKind::F64 => gb_fr(8, t, x),
        ValueKind::String | ValueKind::Bytes1 => gs_fr(t, x),
        ValueKind::Uuid | ValueKind::Sender | ValueKind::Receiver => gu_fr(t, x),
        ValueKind::ObjectId => gobj_fr(t, x),
        ValueKind::ServiceId => gsvc_fr(t, x),
        ValueKind::Bytes2 => gchunks_fr(t, Seq::empty(), x),
        ValueKind::Enum => { let w = gn(t)->Some_0.1; dec_fr(e, w, d + 1, d2 + 1, x); gn_fr(t, rep(w, u, x)); rep_comp(t, w, u, x); },
        _ => {
            let (sh, e2) = shape_of(k)->Some_0;
            if e2 { dec2_fr(e, sh, t, d, d2, Seq::empty(), x); }
            else { let (n, w) = gn(t)->Some_0; dec1_fr(e, sh, w, n as nat, d, d2, Seq::empty(), x); gn_fr(t, rep(w, u, x)); rep_comp(t, w, u, x); }
        },
    }
}
pub proof fn dec_e_fr(e: bool, sh: Shape, s: Seq<u8>, d: int, d2: int, x: Seq<u8>)
    requires dec_e(e, sh, s, d) is Some, d2 <= d,
    ensures suf(s, dec_e(e, sh, s, d)->Some_0.1), dec_e(e, sh, s, d)->Some_0.1.len() < s.len(), dec_e(e, sh, rep(s, dec_e(e, sh, s, d)->Some_0.1, x), d2) == Some((dec_e(e, sh, s, d)->Some_0.0, x)),
    decreases 64 - d, 0nat, 0nat,
{
    let t = ghead(sh, s)->Some_0.1;
    if has_elem(sh) { let u = dec(e, t, d + 1)->Some_0.1; dec_fr(e, t, d + 1, d2 + 1, x); ghead_fr(sh, s, rep(t, u, x)); rep_comp(s, t, u, x); } else { ghead_fr(sh, s, x); }
}
pub proof fn dec1_fr(e: bool, sh: Shape, s: Seq<u8>, n: nat, d: int, d2: int, acc: Seq<Ent>, x: Seq<u8>)
    requires dec1(e, sh, s, n, d, acc) is Some, d2 <= d,
    ensures suf(s, dec1(e, sh, s, n, d, acc)->Some_0.1), dec1(e, sh, rep(s, dec1(e, sh, s, n, d, acc)->Some_0.1, x), n, d2, acc) == Some((dec1(e, sh, s, n, d, acc)->Some_0.0, x)),
    decreases 64 - d, 1nat, n,
{
    if n == 0 { suf_skip(s, 0, x); assert(s.skip(0) =~= s); assert(s.take(0) + x =~= x); } else {
        let (y, t) = dec_e(e, sh, s, d)->Some_0; let u = dec1(e, sh, t, (n - 1) as nat, d, acc.push(y))->Some_0.1;
        dec1_fr(e, sh, t, (n - 1) as nat, d, d2, acc.push(y), x); dec_e_fr(e, sh, s, d, d2, rep(t, u, x)); rep_comp(s, t, u, x);
    }
}
pub proof fn dec2_fr(e: bool, sh: Shape, s: Seq<u8>, d: int, d2: int, acc: Seq<Ent>, x: Seq<u8>)
    requires dec2(e, sh, s, d, acc) is Some, d2 <= d,
    ensures suf(s, dec2(e, sh, s, d, acc)->Some_0.1), dec2(e, sh, rep(s, dec2(e, sh, s, d, acc)->Some_0.1, x), d2, acc) == Some((dec2(e, sh, s, d, acc)->Some_0.0, x)),
    decreases 64 - d, 1nat, s.len(),
{
    let (k, t) = gd::<ValueKind>(s)->Some_0;
    if k is None { gd_fr::<ValueKind>(s, x); } else {
        let (y, u) = dec_e(e, sh, t, d)->Some_0; let w = dec2(e, sh, u, d, acc.push(y))->Some_0.1;
        dec2_fr(e, sh, u, d, d2, acc.push(y), x); dec_e_fr(e, sh, t, d, d2, rep(u, w, x)); rep_comp(t, u, w, x);
        gd_fr::<ValueKind>(s, rep(t, w, x)); rep_comp(s, t, w, x);
    }
}
/// n bytes, then chunks
pub open spec fn chunks_from(n: int, s: Seq<u8>, acc: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    if n == 0 { Some((acc, s)) } else { match gb(n, s) { None => None, Some((x, t)) => gchunks(t, acc + x) } }
}
pub proof fn gchunks_from(s: Seq<u8>, acc: Seq<u8>)
    ensures gchunks(s, acc) == match gn(s) { None => None, Some((n, t)) => chunks_from(n as int, t, acc) },
{ if gn(s) is Some { gn_fr(s, Seq::empty()); let (n, t) = gn(s)->Some_0; if gb(n as int, t) is Some { gb_fr(n as int, t, Seq::empty()); } } }
/// a terminated entry gets shorter
pub proof fn step2(sh: Shape, s: Seq<u8>, d: int)
    ensures gd::<ValueKind>(s) is Some ==> gd::<ValueKind>(s)->Some_0.1.len() < s.len() && (dec_e(true, sh, gd::<ValueKind>(s)->Some_0.1, d) is Some ==> dec_e(true, sh, gd::<ValueKind>(s)->Some_0.1, d)->Some_0.1.len() < s.len()),
{ if gd::<ValueKind>(s) is Some { gd_fr::<ValueKind>(s, Seq::empty()); let t = gd::<ValueKind>(s)->Some_0.1; if dec_e(true, sh, t, d) is Some { dec_e_fr(true, sh, t, d, d, Seq::empty()); } } }
/// a primitive is skipped by its width
pub proof fn prim_skip(t: Seq<u8>)
    ensures
        gb(1, t) is Some <==> g1(t) is Some, gb(1, t) is Some ==> gb(1, t)->Some_0.1 == g1(t)->Some_0.1,
        gv(2, t) is Some <==> gn2(t) is Some, gv(2, t) is Some ==> gv(2, t)->Some_0.1 == gn2(t)->Some_0.1,
        gv(4, t) is Some <==> gn(t) is Some, gv(4, t) is Some ==> gv(4, t)->Some_0.1 == gn(t)->Some_0.1,
        gv(8, t) is Some <==> gn8(t) is Some, gv(8, t) is Some ==> gv(8, t)->Some_0.1 == gn8(t)->Some_0.1,
        gb(16, t) is Some <==> gu(t) is Some, gb(16, t) is Some ==> gb(16, t)->Some_0.1 == gu(t)->Some_0.1,
        gb(32, t) is Some <==> gobj(t) is Some, gb(32, t) is Some ==> gb(32, t)->Some_0.1 == gobj(t)->Some_0.1,
        gb(64, t) is Some <==> gsvc(t) is Some, gb(64, t) is Some ==> gb(64, t)->Some_0.1 == gsvc(t)->Some_0.1,
{
    reveal(gb); reveal(gu); reveal(gn); reveal(gn2); reveal(gn8);
    if t.len() >= 32 { assert(t.skip(16).skip(16) =~= t.skip(32)); }
    if t.len() >= 64 { assert(t.skip(32).skip(16) =~= t.skip(48)); assert(t.skip(48).skip(16) =~= t.skip(64)); }
}
/// the elements of a set are keys
pub proof fn set_flat1(e: bool, kt: KT, s: Seq<u8>, n: nat, d: int, acc: Seq<Ent>)
    requires d <= 32,
    ensures dec1(e, Shape::Set(kt), s, n, d, acc) == dec1(e, Shape::Set(kt), s, n, 1, acc),
    decreases n,
{ assert(dec_e(e, Shape::Set(kt), s, d) == dec_e(e, Shape::Set(kt), s, 1)); if n > 0 && dec_e(e, Shape::Set(kt), s, d) is Some { let (x, t) = dec_e(e, Shape::Set(kt), s, d)->Some_0; set_flat1(e, kt, t, (n - 1) as nat, d, acc.push(x)); } }
pub proof fn set_flat2(e: bool, kt: KT, s: Seq<u8>, d: int, acc: Seq<Ent>)
    requires d <= 32,
    ensures dec2(e, Shape::Set(kt), s, d, acc) == dec2(e, Shape::Set(kt), s, 1, acc),
    decreases s.len(),
{
    match gd::<ValueKind>(s) { Some((ValueKind::Some, t)) => { assert(dec_e(e, Shape::Set(kt), t, d) == dec_e(e, Shape::Set(kt), t, 1)); if dec_e(e, Shape::Set(kt), t, d) is Some { let (x, u) = dec_e(e, Shape::Set(kt), t, d)->Some_0; if u.len() < s.len() { set_flat2(e, kt, u, d, acc.push(x)); } } }, _ => {} }
}
