//! Independent description of the message frames: a layout per message kind, an encoder and a
//! strict decoder.  Written from the protocol description; does not call the code under test.
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum F {
    /// varint encoded u32
    N(u32),
    /// 16 raw bytes
    U([u8; 16]),
    /// one-byte discriminant
    D(u8),
}
impl fmt::Debug for F {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            F::N(n) => write!(f, "{n}"),
            F::D(n) => write!(f, "#{n}"),
            F::U(u) => write!(f, "{:02x}{:02x}{:02x}..{:02x}", u[0], u[1], u[2], u[15]),
        }
    }
}

/// A frame: kind, opaque value bytes (for kinds that carry one), remaining fields in wire order.
#[derive(Clone, PartialEq, Eq)]
pub struct Fr { pub k: u8, pub val: Option<Vec<u8>>, pub f: Vec<F> }
impl fmt::Debug for Fr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}{:?}", NAMES.get(self.k as usize).unwrap_or(&"?"), self.f)?;
        if let Some(v) = &self.val {
            write!(f, " value={}", hex(&v[..v.len().min(24)]))?;
            if v.len() > 24 { write!(f, "..({} bytes)", v.len())?; }
        }
        Ok(())
    }
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|c| c.is_ascii_hexdigit()).collect();
    s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}

pub const NAMES: [&str; 63] = [
    "Connect", "ConnectReply", "Shutdown", "CreateObject", "CreateObjectReply", "DestroyObject", "DestroyObjectReply",
    "CreateService", "CreateServiceReply", "DestroyService", "DestroyServiceReply", "CallFunction", "CallFunctionReply",
    "SubscribeEvent", "SubscribeEventReply", "UnsubscribeEvent", "EmitEvent", "QueryServiceVersion",
    "QueryServiceVersionReply", "CreateChannel", "CreateChannelReply", "CloseChannelEnd", "CloseChannelEndReply",
    "ChannelEndClosed", "ClaimChannelEnd", "ClaimChannelEndReply", "ChannelEndClaimed", "SendItem", "ItemReceived",
    "AddChannelCapacity", "Sync", "SyncReply", "ServiceDestroyed", "CreateBusListener", "CreateBusListenerReply",
    "DestroyBusListener", "DestroyBusListenerReply", "AddBusListenerFilter", "RemoveBusListenerFilter",
    "ClearBusListenerFilters", "StartBusListener", "StartBusListenerReply", "StopBusListener", "StopBusListenerReply",
    "EmitBusEvent", "BusListenerCurrentFinished", "Connect2", "ConnectReply2", "AbortFunctionCall",
    "RegisterIntrospection", "QueryIntrospection", "QueryIntrospectionReply", "CreateService2", "QueryServiceInfo",
    "QueryServiceInfoReply", "SubscribeService", "SubscribeServiceReply", "UnsubscribeService", "SubscribeAllEvents",
    "SubscribeAllEventsReply", "UnsubscribeAllEvents", "UnsubscribeAllEventsReply", "CallFunction2",
];

#[derive(Clone, Debug)]
pub enum L { N, U, Alt(Vec<Vec<L>>) }

fn alts(n: usize) -> L { L::Alt(vec![vec![]; n]) }
fn opt(x: Vec<L>) -> L { L::Alt(vec![vec![], x]) }
fn filt() -> L {
    L::Alt(vec![vec![], vec![L::U], vec![], vec![L::U], vec![L::U], vec![L::U, L::U]])
}
fn end_cap() -> L { L::Alt(vec![vec![], vec![L::N]]) }

/// (carries a value, fields after it)
pub fn layout(k: u8) -> Option<(bool, Vec<L>)> {
    use L::*;
    Some(match k {
        0 => (true, vec![N]),
        1 => (true, vec![Alt(vec![vec![], vec![N], vec![]])]),
        2 => (false, vec![]),
        3 => (false, vec![N, U]),
        4 => (false, vec![N, Alt(vec![vec![U], vec![]])]),
        5 => (false, vec![N, U]),
        6 => (false, vec![N, alts(3)]),
        7 => (false, vec![N, U, U, N]),
        8 => (false, vec![N, Alt(vec![vec![U], vec![], vec![], vec![]])]),
        9 => (false, vec![N, U]),
        10 => (false, vec![N, alts(3)]),
        11 => (true, vec![N, U, N]),
        12 => (true, vec![N, alts(6)]),
        13 => (false, vec![opt(vec![N]), U, N]),
        14 => (false, vec![N, alts(2)]),
        15 => (false, vec![U, N]),
        16 => (true, vec![U, N]),
        17 => (false, vec![N, U]),
        18 => (false, vec![N, Alt(vec![vec![N], vec![]])]),
        19 => (false, vec![N, end_cap()]),
        20 => (false, vec![N, U]),
        21 => (false, vec![N, U, alts(2)]),
        22 => (false, vec![N, alts(3)]),
        23 => (false, vec![U, alts(2)]),
        24 => (false, vec![N, U, end_cap()]),
        25 => (false, vec![N, Alt(vec![vec![N], vec![], vec![], vec![]])]),
        26 => (false, vec![U, end_cap()]),
        27 => (true, vec![U]),
        28 => (true, vec![U]),
        29 => (false, vec![U, N]),
        30 => (false, vec![N]),
        31 => (false, vec![N]),
        32 => (false, vec![U]),
        33 => (false, vec![N]),
        34 => (false, vec![N, U]),
        35 => (false, vec![N, U]),
        36 => (false, vec![N, alts(2)]),
        37 => (false, vec![U, filt()]),
        38 => (false, vec![U, filt()]),
        39 => (false, vec![U]),
        40 => (false, vec![N, U, alts(3)]),
        41 => (false, vec![N, alts(3)]),
        42 => (false, vec![N, U]),
        43 => (false, vec![N, alts(3)]),
        44 => (false, vec![opt(vec![U]), Alt(vec![vec![U, U], vec![U, U], vec![U, U, U, U], vec![U, U, U, U]])]),
        45 => (false, vec![U]),
        46 => (true, vec![N, N]),
        47 => (true, vec![Alt(vec![vec![N], vec![], vec![]])]),
        48 => (false, vec![N]),
        49 => (true, vec![]),
        50 => (false, vec![N, U]),
        51 => (true, vec![N, alts(2)]),
        52 => (true, vec![N, U, U]),
        53 => (false, vec![N, U]),
        54 => (true, vec![N, alts(2)]),
        55 => (false, vec![N, U]),
        56 => (false, vec![N, alts(2)]),
        57 => (false, vec![U]),
        58 => (false, vec![opt(vec![N]), U]),
        59 => (false, vec![N, alts(3)]),
        60 => (false, vec![opt(vec![N]), U]),
        61 => (false, vec![N, alts(3)]),
        62 => (true, vec![N, U, N, opt(vec![N])]),
        _ => return None,
    })
}

/// Kinds whose value is meaningful only for some alternatives: returns whether the value counts.
pub fn value_counts(k: u8, f: &[F]) -> bool {
    match k {
        1 => !matches!(f[0], F::D(1)),
        12 => matches!(f[1], F::D(0) | F::D(1)),
        51 | 54 => matches!(f[1], F::D(0)),
        _ => layout(k).map(|l| l.0).unwrap_or(false),
    }
}

pub fn enc(fr: &Fr) -> Vec<u8> {
    let mut o = vec![0, 0, 0, 0, fr.k];
    if let Some(v) = &fr.val {
        o.extend_from_slice(&(v.len() as u32).to_le_bytes());
        o.extend_from_slice(v);
    }
    for f in &fr.f {
        match f {
            F::N(n) => crate::oracle::put_varint(&mut o, *n as u64, 4),
            F::U(u) => o.extend_from_slice(u),
            F::D(d) => o.push(*d),
        }
    }
    let n = (o.len() as u32).to_le_bytes();
    o[..4].copy_from_slice(&n);
    o
}

/// Strict reference parser of one frame. For alternatives without a value the value is dropped.
pub fn dec(b: &[u8]) -> Option<Fr> {
    if b.len() < 5 || u32::from_le_bytes(b[..4].try_into().unwrap()) as usize != b.len() { return None; }
    let k = b[4];
    let (hv, lay) = layout(k)?;
    let mut p = 5;
    let mut val = None;
    if hv {
        if b.len() < 10 { return None; }
        let n = u32::from_le_bytes(b[5..9].try_into().unwrap()) as usize;
        if n < 1 || n > b.len() - 9 { return None; }
        val = Some(b[9..9 + n].to_vec());
        p = 9 + n;
    }
    let mut f = vec![];
    fn walk(b: &[u8], p: &mut usize, lay: &[L], f: &mut Vec<F>) -> Option<()> {
        for l in lay {
            match l {
                L::N => {
                    let x = *b.get(*p)?;
                    *p += 1;
                    if x <= 251 { f.push(F::N(x as u32)); continue; }
                    let n = (x - 251) as usize;
                    if b.len() - *p < n { return None; }
                    let mut a = [0u8; 4];
                    a[..n].copy_from_slice(&b[*p..*p + n]);
                    *p += n;
                    f.push(F::N(u32::from_le_bytes(a)));
                }
                L::U => {
                    if b.len() - *p < 16 { return None; }
                    f.push(F::U(b[*p..*p + 16].try_into().unwrap()));
                    *p += 16;
                }
                L::Alt(a) => {
                    let x = *b.get(*p)?;
                    *p += 1;
                    let sub = a.get(x as usize)?;
                    f.push(F::D(x));
                    walk(b, p, sub, f)?;
                }
            }
        }
        Some(())
    }
    walk(b, &mut p, &lay, &mut f)?;
    if p != b.len() { return None; }
    if !value_counts(k, &f) { val = None; }
    Some(Fr { k, val, f })
}
/// Puts the canonical placeholder value (None) where the kind demands one but the alternative has none.
pub fn complete(mut fr: Fr) -> Fr {
    if fr.val.is_none() && layout(fr.k).unwrap().0 { fr.val = Some(vec![0]); }
    fr
}
