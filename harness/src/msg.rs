//! Message codec cases (C08): random messages of every kind, damaged frames, arbitrary bytes, all
//! against the independent frame codec in wire.rs.
use crate::exec::caught;
use crate::oracle;
use crate::rng::Rng;
use crate::wire::*;
use aldrin_core::message::{Message, MessageOps};
use bytes::BytesMut;

macro_rules! fail { ($($t:tt)*) => { return Err(format!($($t)*)) } }
fn hx(b: &[u8]) -> String { let n = b.len().min(120); format!("{}{} ({} bytes)", hex(&b[..n]), if n < b.len() { ".." } else { "" }, b.len()) }

fn num(r: &mut Rng) -> u32 {
    match r.below(10) { 0 => 0, 1 => 1, 2 => 251, 3 => 252, 4 => 255, 5 => 256, 6 => u32::MAX, 7 => 1u32 << r.below(32), 8 => (1u32 << r.below(32)).wrapping_sub(1), _ => r.next() as u32 }
}
fn fields(r: &mut Rng, lay: &[L], o: &mut Vec<F>) {
    for l in lay {
        match l {
            L::N => o.push(F::N(num(r))),
            L::U => { let mut a = [0; 16]; if r.chance(9, 10) { for x in a.iter_mut() { *x = r.byte() } } o.push(F::U(a)) }
            L::Alt(a) => { let i = r.below(a.len()); o.push(F::D(i as u8)); fields(r, &a[i], o) }
        }
    }
}
/// A random frame of the kind; the value is any non-empty run of bytes.
pub fn frame(r: &mut Rng, k: u8) -> Fr {
    let (hv, lay) = layout(k).unwrap();
    let mut f = vec![];
    fields(r, &lay, &mut f);
    let val = hv.then(|| match r.below(6) {
        0 => vec![0],
        1 => { let n = 1 + r.below(20); (0..n).map(|_| r.byte()).collect() }
        2 => { let n = [255, 256, 65535, 65536, 70000][r.below(5)]; (0..n).map(|_| r.byte()).collect() }
        _ => { let mut s = 12; oracle::encode(&oracle::gval(r, 4, &mut s), oracle::Ep::V2) }
    });
    let val = if value_counts(k, &f) { val } else { None };
    Fr { k, val, f }
}
fn parse(b: &[u8]) -> Result<Option<Message>, String> {
    // one buffer with room to spare and bytes behind it, one exactly as long as the frame
    let exact = caught(|| Message::deserialize_message(BytesMut::from(b)))?;
    let mut roomy = BytesMut::with_capacity(b.len() + 64);
    roomy.extend_from_slice(b);
    roomy.extend_from_slice(&[0xaa; 20]);
    let part = roomy.split_to(b.len());
    let other = caught(|| Message::deserialize_message(part))?;
    match (exact, other) {
        (Ok(a), Ok(b)) if a == b => Ok(Some(a)),
        (Err(a), Err(b)) if a == b => Ok(None),
        (a, b) => Err(format!("the result depends on the buffer: {a:?} / {b:?}")),
    }
}
/// Checks one accepted message against the frame it denotes.
fn accepted(m: &Message, fr: &Fr, b: &[u8]) -> Result<(), String> {
    if u8::from(m.kind()) != fr.k { fail!("a frame of kind {} gives a {:?}", fr.k, m.kind()); }
    match (m.value(), &fr.val) {
        (None, None) => {}
        (Some(v), Some(w)) => if v[..] != w[..] { fail!("the payload differs from the frame's; {}", hx(b)); },
        (v, w) => fail!("{:?}: payload present {}, in the frame {}", m.kind(), v.is_some(), w.is_some()),
    }
    let out = match caught(|| m.clone().serialize_message()) {
        Err(e) => fail!("serializing {m:?} panics: {e}"),
        Ok(Err(e)) => fail!("serializing {m:?} fails: {e:?}"),
        Ok(Ok(o)) => o,
    };
    if out.len() < 4 || u32::from_le_bytes(out[..4].try_into().unwrap()) as usize != out.len() { fail!("{m:?}: length prefix and length differ; {}", hx(&out)); }
    match dec(&out) {
        None => fail!("{m:?} serializes to an ill-formed frame; {}", hx(&out)),
        Some(f2) => if f2 != *fr { fail!("{m:?} serializes to the frame of another message: {f2:?}; {}", hx(&out)); },
    }
    match parse(&out) {
        Err(e) => fail!("parsing {m:?} panics: {e}; {}", hx(&out)),
        Ok(None) => fail!("{m:?} serializes to a frame that is not accepted; {}", hx(&out)),
        Ok(Some(m2)) => if m2 != *m { fail!("{m:?} comes back as {m2:?}; {}", hx(&out)); },
    }
    // serializing a parsed message a second time gives the same bytes
    let again = caught(|| Message::deserialize_message(out.clone()).unwrap().serialize_message()).map_err(|e| format!("panics: {e}"))?;
    if again.as_deref() != Ok(&out[..]) { fail!("{m:?}: serializing again gives other bytes"); }
    Ok(())
}
fn judge(b: &[u8]) -> Result<(), String> {
    let want = dec(b);
    match (parse(b), want) {
        (Err(e), _) => fail!("parsing panics or is not deterministic: {e}; {}", hx(b)),
        (Ok(None), None) => Ok(()),
        (Ok(Some(m)), None) => fail!("an ill-formed frame is accepted as {m:?}; {}", hx(b)),
        (Ok(None), Some(f)) => fail!("the frame of {f:?} is rejected; {}", hx(b)),
        (Ok(Some(m)), Some(f)) => accepted(&m, &f, b),
    }
}
pub fn one(kind: &str, seed: u64) -> Result<usize, String> {
    let mut r = Rng::new(seed);
    match kind {
        "frames" => {
            for k in 0..63u8 { let b = enc(&complete(frame(&mut r, k))); if dec(&b).is_none() { fail!("harness: {}", hx(&b)); } judge(&b)?; }
            Ok(63)
        }
        "damaged" => {
            let mut n = 0;
            for k in 0..63u8 {
                let good = enc(&complete(frame(&mut r, k)));
                if good.len() > 2000 { continue; }
                for _ in 0..6 {
                    let mut b = good.clone();
                    let fix = r.chance(5, 6);
                    for _ in 0..1 + r.below(2) {
                        let p = if b.len() > 4 && r.chance(5, 6) { 4 + r.below(b.len() - 4) } else { r.below(b.len()) };
                        match r.below(8) {
                            0 => b[p] = r.byte(),
                            1 => b[p] = r.below(8) as u8,
                            2 => b[p] = [250, 251, 252, 253, 254, 255][r.below(6)],
                            3 => b.truncate(p.max(1)),
                            4 => { if b.len() > 1 { b.remove(p); } }
                            5 => b.insert(p, r.byte()),
                            6 => { let n = 1 + r.below(17); for _ in 0..n { b.push(r.byte()) } }
                            _ => if b.len() > 4 { b[4] = r.below(66) as u8 },
                        }
                    }
                    if fix && b.len() >= 4 { let n = (b.len() as u32).to_le_bytes(); b[..4].copy_from_slice(&n); }
                    judge(&b)?;
                    n += 1;
                }
            }
            Ok(n)
        }
        _ => {
            // every kind with few bytes behind it, and arbitrary bytes
            for k in 0..=255u8 {
                let n = r.below(24);
                let mut b = vec![0, 0, 0, 0, k];
                for _ in 0..n { b.push(match r.below(3) { 0 => r.byte(), 1 => r.below(4) as u8, _ => 0 }) }
                if r.chance(1, 2) && b.len() >= 9 { let v = (r.below(b.len()) as u32).to_le_bytes(); b[5..9].copy_from_slice(&v); }
                let l = match r.below(8) { 0 => r.next() as u32, 1 => b.len() as u32 + 1, 2 => b.len() as u32 - 1, _ => b.len() as u32 }.to_le_bytes();
                b[..4].copy_from_slice(&l);
                if r.chance(1, 8) { let n = r.below(b.len() + 1); b.truncate(n); }
                judge(&b)?;
            }
            Ok(256)
        }
    }
}
