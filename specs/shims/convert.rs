// ---- converting between epochs
/// the epoch a version belongs to: containers of 1.20 are unknown before
pub open spec fn epoch_of(v: ProtocolVersion) -> Option<Epoch> {
    if v.major == 1 && 14 <= v.minor <= 19 { Some(Epoch::V1) } else if v.major == 1 && v.minor == 20 { Some(Epoch::V2) } else { None }
}
pub open spec fn from_of(v: Option<ProtocolVersion>) -> ProtocolVersion { match v { Some(x) => x, None => ProtocolVersion { major: 1, minor: 20 } } }
/// o was to be converted: s2 remains, d0 was written before, d2 now
pub open spec fn conv_post(o: Option<(V, Seq<u8>)>, ok: bool, s2: Seq<u8>, d0: Seq<u8>, d2: Seq<u8>) -> bool {
    match o { None => !ok, Some((v, t)) => if fits(v) { ok && s2 == t && d2 == d0 + enc(false, v) } else { !ok } }
}
/// converting b from one version to another leaves r in its place
pub open spec fn conv_rel(b: Seq<u8>, from: Option<ProtocolVersion>, to: ProtocolVersion, ok: bool, r: Seq<u8>) -> bool {
    &&& !ok ==> r == b
    &&& match (epoch_of(from_of(from)), epoch_of(to)) {
        (Some(f), Some(t)) => if f is V2 && t is V1 {
            match dec(true, b, 1) { None => !ok, Some((v, x)) => if x.len() == 0 && fits(v) { ok && r == enc(false, v) } else { !ok } }
        } else { ok && r == b },
        _ => !ok,
    }
}
pub proof fn un8_le8(s: Seq<u8>) requires s.len() == 8 ensures le8(un8(s)) == s
{
    let (a, b, c, d, e, f, g, h) = (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
    assert(({let n = (a as u64) | ((b as u64) << 8) | ((c as u64) << 16) | ((d as u64) << 24) | ((e as u64) << 32) | ((f as u64) << 40) | ((g as u64) << 48) | ((h as u64) << 56);
        n as u8 == a && (n >> 8) as u8 == b && (n >> 16) as u8 == c && (n >> 24) as u8 == d && (n >> 32) as u8 == e && (n >> 40) as u8 == f && (n >> 48) as u8 == g && (n >> 56) as u8 == h})) by(bit_vector);
    assert(le8(un8(s)) =~= s);
}
pub proof fn conv1_step(sh: Shape, s: Seq<u8>, n: nat, d: int, acc: Seq<Ent>)
    requires n > 0, d <= 32,
    ensures match dec_e(true, sh, s, d) {
        None => dec1(true, sh, s, n, d, acc) is None,
        Some((x, t)) => dec1(true, sh, s, n, d, acc) == dec1(true, sh, t, (n - 1) as nat, d, acc.push(x))
            && (dec1(true, sh, s, n, d, acc) is Some && !fits(x.v) ==> !fits(V::List(sh, dec1(true, sh, s, n, d, acc)->Some_0.0)))
            && encs(false, sh, acc.push(x)) == encs(false, sh, acc) + enc_x(false, sh, x),
    },
{
    if dec_e(true, sh, s, d) is Some {
        let (x, t) = dec_e(true, sh, s, d)->Some_0;
        encs_push(false, sh, acc, x);
        if dec1(true, sh, s, n, d, acc) is Some { dec1_ok(true, sh, t, (n - 1) as nat, d, acc.push(x)); let l = dec1(true, sh, s, n, d, acc)->Some_0.0; assert(l[acc.len() as int] == acc.push(x)[acc.len() as int]); }
    }
}
pub proof fn conv2_step(sh: Shape, s: Seq<u8>, d: int, acc: Seq<Ent>)
    requires d <= 32,
    ensures match gd::<ValueKind>(s) {
        Some((ValueKind::None, t)) => dec2(true, sh, s, d, acc) == Some((acc, t)) && t.len() < s.len(),
        Some((ValueKind::Some, t)) => t.len() < s.len() && match dec_e(true, sh, t, d) {
            None => dec2(true, sh, s, d, acc) is None,
            Some((x, u)) => u.len() < s.len() && dec2(true, sh, s, d, acc) == dec2(true, sh, u, d, acc.push(x))
                && (dec2(true, sh, s, d, acc) is Some && !fits(x.v) ==> !fits(V::List(sh, dec2(true, sh, s, d, acc)->Some_0.0)))
                && encs(false, sh, acc.push(x)) == encs(false, sh, acc) + enc_x(false, sh, x),
        },
        _ => dec2(true, sh, s, d, acc) is None,
    },
{
    step2(sh, s, d);
    match gd::<ValueKind>(s) { Some((ValueKind::Some, t)) => { if dec_e(true, sh, t, d) is Some {
        let (x, u) = dec_e(true, sh, t, d)->Some_0;
        encs_push(false, sh, acc, x);
        if dec2(true, sh, s, d, acc) is Some { dec2_ok(true, sh, u, d, acc.push(x)); let l = dec2(true, sh, s, d, acc)->Some_0.0; assert(l[acc.len() as int] == acc.push(x)[acc.len() as int]); }
    } }, _ => {} }
}
