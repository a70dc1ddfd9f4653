// ---- the wire primitives
/// significant bytes of a little-endian integer (at least one)
pub open spec fn sig(s: Seq<u8>) -> int
    decreases s.len()
{ if s.len() <= 1 { 1 } else if s.last() != 0 { s.len() as int } else { sig(s.drop_last()) } }
/// a varint of width s.len()
pub open spec fn pv(s: Seq<u8>) -> Seq<u8> {
    if sig(s) > 1 || s[0] > 255 - s.len() { seq![(255 - s.len() + sig(s)) as u8] + s.take(sig(s)) } else { seq![s[0]] }
}
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
pub open spec fn gv(n: int, s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    if s.len() == 0 { None }
    else if s[0] <= 255 - n { Some((seq![s[0]] + zeros(n - 1), s.skip(1))) }
    else {
        let k = s[0] + n - 255;
        if s.len() < 1 + k { None } else { Some((s.subrange(1, 1 + k) + zeros(n - k), s.skip(1 + k))) }
    }
}
pub proof fn sig_bound(s: Seq<u8>)
    requires s.len() >= 1,
    ensures 1 <= sig(s) <= s.len(), forall|i: int| sig(s) <= i < s.len() ==> s[i] == 0, sig(s) > 1 ==> s[sig(s) - 1] != 0,
    decreases s.len()
{ if s.len() > 1 && s.last() == 0 { sig_bound(s.drop_last()); let t = s.drop_last(); assert forall|i: int| sig(s) <= i < s.len() implies s[i] == 0 by { if i < t.len() { assert(t[i] == s[i]); } } } }
pub proof fn sig_is(s: Seq<u8>, k: int)
    requires 1 <= k <= s.len(), forall|i: int| k <= i < s.len() ==> s[i] == 0, k > 1 ==> s[k - 1] != 0,
    ensures sig(s) == k,
{ sig_bound(s); }
pub proof fn gv_pv(s: Seq<u8>, rest: Seq<u8>)
    requires 1 <= s.len() <= 8,
    ensures gv(s.len() as int, pv(s) + rest) == Some((s, rest)), 1 <= pv(s).len() <= s.len() + 1,
{
    sig_bound(s);
    let n = s.len() as int; let k = sig(s); let w = pv(s) + rest;
    if k > 1 || s[0] > 255 - n {
        assert(w.subrange(1, 1 + k) + zeros(n - k) =~= s);
        assert(w.skip(1 + k) =~= rest);
    } else {
        assert(seq![s[0]] + zeros(n - 1) =~= s);
        assert(w.skip(1) =~= rest);
    }
}
#[verifier::opaque]
pub open spec fn pn(n: u32) -> Seq<u8> { pv(le4(n)) }
#[verifier::opaque]
pub open spec fn gn(s: Seq<u8>) -> Option<(u32, Seq<u8>)> { match gv(4, s) { None => None, Some((b, t)) => Some((un4(b), t)) } }
pub broadcast proof fn gn_pn(n: u32, t: Seq<u8>) ensures #[trigger] gn(pn(n) + t) == Some((n, t))
{ reveal(pn); reveal(gn); gv_pv(le4(n), t); le4_un4(n); }
pub broadcast proof fn gn_pn0(n: u32) ensures #[trigger] gn(pn(n)) == Some((n, Seq::<u8>::empty()))
{ gn_pn(n, Seq::empty()); assert(pn(n) + Seq::empty() =~= pn(n)); }
pub broadcast proof fn pn_len(n: u32) ensures 1 <= #[trigger] pn(n).len() <= 5
{ reveal(pn); gv_pv(le4(n), Seq::empty()); }
#[verifier::opaque]
pub open spec fn gu(s: Seq<u8>) -> Option<(Uuid, Seq<u8>)> { if s.len() < 16 { None } else { Some((Uuid::of(s.take(16)), s.skip(16))) } }
pub broadcast proof fn gu_pu(u: Uuid, t: Seq<u8>) ensures #[trigger] gu(u@ + t) == Some((u, t))
{ reveal(gu); u.vx_len(); assert((u@ + t).take(16) =~= u@); assert((u@ + t).skip(16) =~= t); }
pub broadcast proof fn gu_pu0(u: Uuid) ensures #[trigger] gu(u@) == Some((u, Seq::<u8>::empty()))
{ gu_pu(u, Seq::empty()); assert(u@ + Seq::empty() =~= u@); }
#[verifier::opaque]
pub open spec fn pd<E: VxDisc>(e: E) -> Seq<u8> { seq![e.vx_to()] }
#[verifier::opaque]
pub open spec fn gd<E: VxDisc>(s: Seq<u8>) -> Option<(E, Seq<u8>)> {
    if s.len() == 0 { None } else { match E::vx_of(s[0]) { None => None, Some(e) => Some((e, s.skip(1))) } }
}
pub broadcast proof fn gd_pd<E: VxDisc>(e: E, t: Seq<u8>) ensures #[trigger] gd::<E>(pd(e) + t) == Some((e, t))
{ reveal(pd); reveal(gd); e.vx_inv(); assert((pd(e) + t).skip(1) =~= t); }
pub broadcast proof fn gd_pd0<E: VxDisc>(e: E) ensures #[trigger] gd::<E>(pd(e)) == Some((e, Seq::<u8>::empty()))
{ gd_pd(e, Seq::empty()); assert(pd(e) + Seq::empty() =~= pd(e)); }
pub broadcast proof fn pd_len<E: VxDisc>(e: E) ensures #[trigger] pd(e).len() == 1
{ reveal(pd); }
pub open spec fn gobj(s: Seq<u8>) -> Option<(ObjectId, Seq<u8>)> { match gu(s) { None => None, Some((u, t)) => match gu(t) { None => None, Some((c, w)) => Some((ObjectId { uuid: ObjectUuid(u), cookie: ObjectCookie(c) }, w)) } } }
pub open spec fn gsvc(s: Seq<u8>) -> Option<(ServiceId, Seq<u8>)> { match gobj(s) { None => None, Some((o, s2)) => match gu(s2) { None => None, Some((u, t)) => match gu(t) { None => None, Some((c, w)) => Some((ServiceId { object_id: o, uuid: ServiceUuid(u), cookie: ServiceCookie(c) }, w)) } } } }
broadcast use {gn_pn, gn_pn0, pn_len, gu_pu, gu_pu0, gd_pd, gd_pd0, pd_len};
