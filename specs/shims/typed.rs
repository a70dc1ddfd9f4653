// ---- writing values: the bytes added are one value
pub open spec fn ext(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { b.skip(a.len() as int) }
/// b is a with the encoding of one value at level d behind it, which means x
#[verifier::opaque]
pub open spec fn wrote(a: Seq<u8>, b: Seq<u8>, x: D, d: int) -> bool {
    a.len() <= b.len() && b == a + ext(a, b) && match dec(true, ext(a, b), d) { None => false, Some((v, t)) => t.len() == 0 && den(v) == x && utf8_v(v) }
}
/// b is a with one entry of a container at level d behind it
#[verifier::opaque]
pub open spec fn entry(e: bool, sh: Shape, a: Seq<u8>, b: Seq<u8>, d: int, h: Head, x: D) -> bool {
    let p = if e { pd(ValueKind::Some) } else { Seq::empty() };
    a.len() + p.len() <= b.len() && b == a + p + ext(a + p, b) && utf8_h(h)
    && match dec_e(true, sh, ext(a + p, b), d) { None => false, Some((y, t)) => t.len() == 0 && y.h == h && den(y.v) == x && utf8_v(y.v) }
}
/// b is a with the entries l of a container at level d behind it
#[verifier::opaque]
pub open spec fn body(e: bool, sh: Shape, a: Seq<u8>, b: Seq<u8>, d: int, l: Seq<Ent>) -> bool {
    a.len() <= b.len() && b == a + ext(a, b)
    && (e ==> forall|t: Seq<u8>, acc: Seq<Ent>| #[trigger] dec2(true, sh, ext(a, b) + t, d, acc) == dec2(true, sh, t, d, acc + l))
    && (!e ==> forall|t: Seq<u8>, n: nat, acc: Seq<Ent>| #[trigger] dec1(true, sh, ext(a, b) + t, n + l.len(), d, acc) == dec1(true, sh, t, n, d, acc + l))
    && forall|i: int| 0 <= i < l.len() ==> utf8_h((#[trigger] l[i]).h) && utf8_v(l[i].v)
}
pub proof fn ext_app(a: Seq<u8>, w: Seq<u8>) ensures ext(a, a + w) == w { assert((a + w).skip(a.len() as int) =~= w); }
pub proof fn rep_end(s: Seq<u8>, t: Seq<u8>, x: Seq<u8>) requires t.len() == 0 ensures rep(s, t, x) == s + x { assert(s.take(s.len() as int) =~= s); }
/// a value without parts
pub proof fn wrote_leaf(a: Seq<u8>, e: bool, v: V, d: int)
    requires ok(v, d), fits(v), utf8_v(v),
    ensures wrote(a, a + enc(e, v), den(v), d),
{ reveal(wrote); ext_app(a, enc(e, v)); val_rt(true, e, v, d, Seq::empty()); assert(enc(e, v) + Seq::empty() =~= enc(e, v)); }
/// some, or an enum: the kind (and id) of one level and the value of the next
pub proof fn wrote_some(a: Seq<u8>, b: Seq<u8>, x: D, d: int)
    requires d + 1 <= max_depth(), wrote(a + pd(ValueKind::Some), b, x, d + 1),
    ensures wrote(a, b, D::Some(Box::new(x)), d),
{
    reveal(wrote); let p = pd(ValueKind::Some); let w = ext(a + p, b); let v = dec(true, w, d + 1)->Some_0.0;
    assert(b =~= a + (p + w)); ext_app(a, p + w); gd_pd(ValueKind::Some, w); rt_k(true, ValueKind::Some, w, d);
    assert(dec(true, p + w, d) == Some((V::Some(Box::new(v)), dec(true, w, d + 1)->Some_0.1)));
}
pub proof fn wrote_enum(a: Seq<u8>, b: Seq<u8>, n: u32, x: D, d: int)
    requires d + 1 <= max_depth(), wrote(a + pd(ValueKind::Enum) + pn(n), b, x, d + 1),
    ensures wrote(a, b, D::Enum(n, Box::new(x)), d),
{
    reveal(wrote); let p = pd(ValueKind::Enum); let w = ext(a + p + pn(n), b); let v = dec(true, w, d + 1)->Some_0.0; let u = pn(n) + w;
    assert(b =~= a + (p + u)); ext_app(a, p + u); gn_pn(n, w); gd_pd(ValueKind::Enum, u); rt_k(true, ValueKind::Enum, u, d);
    assert(dec(true, p + u, d) == Some((V::Enum(n, Box::new(v)), dec(true, w, d + 1)->Some_0.1)));
}
pub open spec fn mark(e: bool) -> Seq<u8> { if e { pd(ValueKind::Some) } else { Seq::empty() } }
/// an entry with a value
pub proof fn entry_val(e: bool, sh: Shape, a: Seq<u8>, b: Seq<u8>, d: int, h: Head, x: D)
    requires d + 1 <= max_depth(), has_elem(sh), head_ok(sh, h), utf8_h(h), wrote(a + mark(e) + phead(h), b, x, d + 1),
    ensures entry(e, sh, a, b, d, h, x),
{
    reveal(wrote); reveal(entry);
    let p = mark(e); let w = ext(a + p + phead(h), b); let y = phead(h) + w;
    assert(b =~= a + p + y); ext_app(a + p, y); head_rt(sh, h, w);
}
/// an entry of a set
pub proof fn entry_key(e: bool, sh: Shape, a: Seq<u8>, d: int, h: Head)
    requires d <= max_depth(), !has_elem(sh), head_ok(sh, h), utf8_h(h),
    ensures entry(e, sh, a, a + mark(e) + phead(h), d, h, D::Prim(V::None)),
{
    reveal(entry);
    let p = mark(e); let y = phead(h); ext_app(a + p, y); head_rt(sh, h, Seq::empty()); assert(y + Seq::empty() =~= y);
}
pub proof fn body_new(e: bool, sh: Shape, a: Seq<u8>, d: int)
    ensures body(e, sh, a, a, d, Seq::empty()),
{
    reveal(body); let z = Seq::<Ent>::empty();
    assert(ext(a, a) =~= Seq::empty()); assert(a + ext(a, a) =~= a);
    assert forall|t: Seq<u8>, acc: Seq<Ent>| #[trigger] dec2(true, sh, ext(a, a) + t, d, acc) == dec2(true, sh, t, d, acc + z) by { assert(ext(a, a) + t =~= t); assert(acc + z =~= acc); }
    assert forall|t: Seq<u8>, n: nat, acc: Seq<Ent>| #[trigger] dec1(true, sh, ext(a, a) + t, n + z.len(), d, acc) == dec1(true, sh, t, n, d, acc + z) by { assert(ext(a, a) + t =~= t); assert(acc + z =~= acc); }
}
pub proof fn body_push(e: bool, sh: Shape, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: int, l: Seq<Ent>, h: Head, x: D) -> (r: Ent)
    requires d <= max_depth(), body(e, sh, a, b, d, l), entry(e, sh, b, c, d, h, x),
    ensures body(e, sh, a, c, d, l.push(r)), r.h == h, den(r.v) == x,
{
    reveal(body); reveal(entry);
    let p = mark(e); let y = ext(b + p, c); let r = dec_e(true, sh, y, d)->Some_0.0; let u = dec_e(true, sh, y, d)->Some_0.1; let w = ext(a, b); let m = l.push(r);
    assert(c =~= a + (w + (p + y))); ext_app(a, w + (p + y));
    assert forall|t: Seq<u8>| #[trigger] dec_e(true, sh, y + t, d) == Some((r, t)) by { dec_e_fr(true, sh, y, d, d, t); rep_end(y, u, t); }
    if e {
        assert forall|t: Seq<u8>, acc: Seq<Ent>| #[trigger] dec2(true, sh, ext(a, c) + t, d, acc) == dec2(true, sh, t, d, acc + m) by {
            let t2 = p + (y + t); assert(ext(a, c) + t =~= w + t2); gd_pd(ValueKind::Some, y + t);
            assert(dec2(true, sh, w + t2, d, acc) == dec2(true, sh, t2, d, acc + l));
            assert(dec_e(true, sh, y + t, d) == Some((r, t))); pd_len(ValueKind::Some);
            assert((acc + l).push(r) =~= acc + m);
        }
    } else {
        assert forall|t: Seq<u8>, n: nat, acc: Seq<Ent>| #[trigger] dec1(true, sh, ext(a, c) + t, n + m.len(), d, acc) == dec1(true, sh, t, n, d, acc + m) by {
            let t2 = y + t; assert(ext(a, c) + t =~= w + t2);
            assert(n + m.len() == (n + 1) + l.len());
            assert(dec1(true, sh, w + t2, ((n + 1) as nat) + l.len(), d, acc) == dec1(true, sh, t2, (n + 1) as nat, d, acc + l));
            assert(dec_e(true, sh, y + t, d) == Some((r, t)));
            assert((acc + l).push(r) =~= acc + m);
        }
    }
    r
}
/// the header of a container
pub open spec fn header(e: bool, sh: Shape, n: int) -> Seq<u8> { if e { pd(kind_of(sh, true)) } else { pd(kind_of(sh, false)) + pn(n as u32) } }
pub open spec fn footer(e: bool) -> Seq<u8> { if e { pd(ValueKind::None) } else { Seq::empty() } }
pub proof fn list_done(e: bool, sh: Shape, s: Seq<u8>, b: Seq<u8>, d: int, l: Seq<Ent>)
    requires d <= max_depth(), body(e, sh, s + header(e, sh, l.len() as int), b, d, l), !e ==> l.len() <= u32::MAX,
    ensures wrote(s, b + footer(e), den(V::List(sh, l)), d),
{
    reveal(wrote); reveal(body);
    let k = kind_of(sh, e); let a = s + header(e, sh, l.len() as int); let w = ext(a, b); let z = Seq::<u8>::empty();
    kind_shape(sh, e); assert(Seq::<Ent>::empty() + l =~= l);
    if e {
        let f = pd(ValueKind::None); let u = w + f;
        gd_pd0(ValueKind::None);
        assert(dec2(true, sh, f, d, l) == Some((l, z)));
        assert(dec2(true, sh, w + f, d, Seq::empty()) == dec2(true, sh, f, d, Seq::<Ent>::empty() + l));
        assert(b + f =~= s + (pd(k) + u)); ext_app(s, pd(k) + u); gd_pd(k, u); rt_k(true, k, u, d);
    } else {
        let u = pn(l.len() as u32) + w;
        assert(w + z =~= w); assert(0 + l.len() == l.len());
        assert(dec1(true, sh, w + z, 0nat + l.len(), d, Seq::empty()) == dec1(true, sh, z, 0nat, d, Seq::<Ent>::empty() + l));
        gn_pn(l.len() as u32, w);
        assert(b + footer(e) =~= s + (pd(k) + u)); ext_app(s, pd(k) + u); gd_pd(k, u); rt_k(true, k, u, d);
    }
}
pub proof fn wrote_somes(a: Seq<u8>, d: int)
    requires d <= max_depth(),
    ensures d + 1 <= max_depth() ==> forall|b: Seq<u8>, x: D| #[trigger] wrote(a + pd(ValueKind::Some), b, x, d + 1) ==> wrote(a, b, D::Some(Box::new(x)), d),
{ if d + 1 <= max_depth() { assert forall|b: Seq<u8>, x: D| #[trigger] wrote(a + pd(ValueKind::Some), b, x, d + 1) implies wrote(a, b, D::Some(Box::new(x)), d) by { wrote_some(a, b, x, d); } } }
pub proof fn wrote_enums(a: Seq<u8>, n: u32, d: int)
    requires d <= max_depth(),
    ensures d + 1 <= max_depth() ==> forall|b: Seq<u8>, x: D| #[trigger] wrote(a + (pd(ValueKind::Enum) + pn(n)), b, x, d + 1) ==> wrote(a, b, D::Enum(n, Box::new(x)), d),
{ if d + 1 <= max_depth() { assert forall|b: Seq<u8>, x: D| #[trigger] wrote(a + (pd(ValueKind::Enum) + pn(n)), b, x, d + 1) implies wrote(a, b, D::Enum(n, Box::new(x)), d) by { assert(a + (pd(ValueKind::Enum) + pn(n)) =~= a + pd(ValueKind::Enum) + pn(n)); wrote_enum(a, b, n, x, d); } } }
