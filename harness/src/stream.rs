//! C14: the packetizer and the stream transports against scripted input and output.
use crate::exec::{caught, Flag};
use crate::rng::Rng;
use aldrin_core::message::{Message, MessageOps, Packetizer};
use aldrin_core::tokio::{TokioTransport, TokioTransportError};
use aldrin_core::transport::{AsyncTransport, AsyncTransportExt, Buffered};
use bytes::BytesMut;
use std::collections::VecDeque;
use std::future::Future;
use std::io::{Error as IoError, ErrorKind};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

fn frame(r: &mut Rng, big: bool) -> Vec<u8> {
    let k = [2u8, 3, 3, 11, 11, 11][r.below(6)];
    let mut b = vec![0; 4];
    b.push(k);
    match k {
        2 => {}
        3 => {
            b.push(r.below(248) as u8);
            b.extend((0..16).map(|_| r.byte()));
        }
        _ => {
            let n = match r.below(if big { 8 } else { 6 }) {
                0 => 1,
                1..=3 => 1 + r.below(40),
                4 => 1 + r.below(3000),
                5 => [8191, 8192, 8193, 4096, 16384][r.below(5)] - r.below(30),
                6 => 65_536 - r.below(64) + r.below(64),
                _ => [300_000, 1_500_000, 4_194_304, 5_000_000][r.below(4)] - r.below(40) + r.below(40),
            };
            b.extend((n as u32).to_le_bytes());
            let x = r.byte();
            b.extend((0..n).map(|i| x.wrapping_add(i as u8).wrapping_mul(31)));
            b.push(r.below(248) as u8);
            b.extend((0..16).map(|_| r.byte()));
            b.push(r.below(248) as u8);
        }
    }
    let n = b.len() as u32;
    b[..4].copy_from_slice(&n.to_le_bytes());
    b
}
fn show(b: &[u8]) -> String { format!("{} bytes {}", b.len(), crate::wire::hex(&b[..b.len().min(24)])) }

/// Splits a stream of frames into pieces, feeds them through either interface.
fn packetizer(seed: u64) -> Result<usize, String> {
    let mut r = Rng::new(seed);
    let big = r.chance(1, 12);
    let n = 1 + r.below(if big { 4 } else { 12 });
    let opaque = r.chance(1, 4);
    let frames: Vec<Vec<u8>> = (0..n).map(|_| {
        if opaque {
            // a frame is whatever its length prefix says, down to the bare prefix
            let n = 4 + if r.chance(1, 2) { r.below(4) } else { r.below(300) };
            let mut f = (n as u32).to_le_bytes().to_vec();
            f.extend((4..n).map(|_| r.byte()));
            f
        } else { frame(&mut r, big) }
    }).collect();
    let all: Vec<u8> = frames.concat();
    let cut: Vec<usize> = frames.iter().scan(0, |a, f| { *a += f.len(); Some(*a) }).collect();
    if r.chance(1, 1500) {
        // a single very long frame
        let n = [(1usize << 24) - 1, 1 << 24, (1 << 24) + 1, 40_000_000][r.below(4)];
        let mut f = vec![7; n];
        f[..4].copy_from_slice(&(n as u32).to_le_bytes());
        let mut p = Packetizer::new();
        for c in f.chunks(3_000_000) { if caught(|| p.next_message())?.is_some() { return Err(format!("a frame of {n} bytes is returned before it is complete")); } p.extend_from_slice(c); }
        return match caught(|| p.next_message())? { Some(m) if m[..] == f[..] => Ok(1), m => Err(format!("a frame of {n} bytes comes out as {:?} bytes", m.map(|m| m.len()))) };
    }
    let mut p = Packetizer::new();
    let (mut pos, mut out) = (0, 0);
    let piece_max = [1, 3, 5, 9, 40, 700, 9000, 70_000, usize::MAX][r.below(9)].max(all.len() / 5000);
    let interface = r.below(3);
    let lazy = r.chance(1, 3);
    let take = |p: &mut Packetizer, out: &mut usize, pos: usize, once: bool| -> Result<(), String> {
        loop {
            let m = caught(|| p.next_message()).map_err(|e| format!("next_message panics: {e}"))?;
            let due = *out < cut.len() && cut[*out] <= pos;
            match m {
                Some(m) if due => {
                    if m[..] != frames[*out][..] { return Err(format!("frame {} is {} instead of {}", *out, show(&m), show(&frames[*out]))); }
                    *out += 1;
                }
                Some(m) => return Err(format!("frame {} returned after {pos} bytes, before it is complete: {}", *out, show(&m))),
                None if due => return Err(format!("frame {} is complete after {pos} bytes but not returned", *out)),
                None => return Ok(()),
            }
            if once { return Ok(()); }
        }
    };
    while pos < all.len() {
        let k = (1 + r.below(piece_max)).min(all.len() - pos);
        let k = if r.chance(1, 6) {
            // up to just before, at or after the end of a frame
            let c = *cut.iter().find(|c| **c > pos).unwrap();
            (c - pos + r.below(3)).saturating_sub(1).clamp(1, all.len() - pos)
        } else { k };
        if interface == 0 || interface == 2 && r.chance(1, 2) {
            caught(|| p.extend_from_slice(&all[pos..pos + k])).map_err(|e| format!("extend_from_slice panics: {e}"))?;
            pos += k;
        } else {
            let n = caught(|| {
                let s = p.spare_capacity_mut();
                let n = k.min(s.len());
                for i in 0..n { s[i].write(all[pos + i]); }
                n
            }).map_err(|e| format!("spare_capacity_mut panics: {e}"))?;
            if n == 0 { return Err(format!("spare_capacity_mut is empty after {pos} bytes")); }
            caught(|| unsafe { p.bytes_written(n) }).map_err(|e| format!("bytes_written panics: {e}"))?;
            pos += n;
        }
        match r.below(if lazy { 8 } else { 2 }) {
            0 => take(&mut p, &mut out, pos, false)?,
            1 => take(&mut p, &mut out, pos, true)?,
            _ => {}
        }
    }
    take(&mut p, &mut out, pos, false)?;
    if out != frames.len() { return Err(format!("{out} of {} frames", frames.len())); }
    match caught(|| p.next_message()) { Ok(None) => Ok(frames.len()), x => Err(format!("more than what was fed: {x:?}")) }
}

#[derive(Default)]
struct Io {
    r: Option<Rng>,
    input: Vec<u8>, pos: usize, read_max: usize, read_pend: usize, eof_seen: bool, read_err: bool,
    out: Vec<u8>, write_max: usize, write_pend: usize, zero_at: usize, zero_seen: bool, err_at: usize, err_seen: bool, flushed: usize, flush_pend: usize,
    pending: bool, wake: Option<Waker>,
}
#[derive(Clone)]
struct Sio(Arc<Mutex<Io>>);
impl AsyncRead for Sio {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let mut g = self.0.lock().unwrap();
        let s = &mut *g;
        let r = s.r.as_mut().unwrap();
        s.pending = false;
        if r.below(100) < s.read_pend { s.pending = true; s.wake = Some(cx.waker().clone()); return Poll::Pending; }
        if b.remaining() == 0 { return Poll::Ready(Ok(())); }
        let left = s.input.len() - s.pos;
        if left == 0 {
            s.eof_seen = true;
            if s.read_err { return Poll::Ready(Err(IoError::new(ErrorKind::ConnectionReset, "x"))); }
            return Poll::Ready(Ok(()));
        }
        let n = (1 + r.below(s.read_max)).min(left).min(b.remaining());
        b.put_slice(&s.input[s.pos..s.pos + n]);
        s.pos += n;
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for Sio {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        let mut g = self.0.lock().unwrap();
        let s = &mut *g;
        let r = s.r.as_mut().unwrap();
        s.pending = false;
        if r.below(100) < s.write_pend { s.pending = true; s.wake = Some(cx.waker().clone()); return Poll::Pending; }
        if s.out.len() >= s.zero_at { s.zero_seen = true; return Poll::Ready(Ok(0)); }
        if s.out.len() >= s.err_at { s.err_seen = true; return Poll::Ready(Err(IoError::new(ErrorKind::BrokenPipe, "x"))); }
        let n = (1 + r.below(s.write_max)).min(b.len());
        s.out.extend(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let mut g = self.0.lock().unwrap();
        let s = &mut *g;
        s.pending = false;
        if s.r.as_mut().unwrap().below(100) < s.flush_pend { s.pending = true; s.wake = Some(cx.waker().clone()); return Poll::Pending; }
        s.flushed = s.out.len();
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
}

type E = TokioTransportError;
type Tr = Pin<Box<dyn AsyncTransport<Error = E>>>;
fn stack(t: TokioTransport<Sio>, r: &mut Rng, leak: &mut *mut TokioTransport<Sio>) -> (Tr, String) {
    let (mut t, mut name): (Tr, String) = match r.below(7) {
        0 => (Box::pin(t), "Pin<Box<TokioTransport>>".into()),
        1 => (Box::pin(Box::new(t)), "Box<TokioTransport>".into()),
        2 => (Box::pin(Buffered::new(t)), "Buffered<TokioTransport>".into()),
        3 => (Box::pin(t.buffered().buffered()), "Buffered<Buffered<TokioTransport>>".into()),
        4 => (Box::pin(t.map_err(|e: E| e)), "MapError<TokioTransport>".into()),
        5 => {
            let p = Box::into_raw(Box::new(t));
            *leak = p;
            (Box::pin(unsafe { &mut *p }), "&mut TokioTransport".into())
        }
        _ => (Box::pin(Buffered::new(Box::new(t).map_err(|e: E| e))), "Buffered<MapError<Box<TokioTransport>>>".into()),
    };
    if r.chance(1, 4) { t = Box::pin(Box::pin(t) as Pin<Box<Tr>>); name = format!("Pin<Box<{name}>>"); }
    if r.chance(1, 5) { t = Box::pin(t.buffered()); name = format!("Buffered<{name}>"); }
    (t, name)
}

fn transport(seed: u64) -> Result<usize, String> {
    let mut leak = std::ptr::null_mut();
    let r = transport1(seed, &mut leak);
    // nothing borrows it any more
    if !leak.is_null() { drop(unsafe { Box::from_raw(leak) }); }
    r
}
fn transport1(seed: u64, leak: &mut *mut TokioTransport<Sio>) -> Result<usize, String> {
    let mut r = Rng::new(seed ^ 0xABCD);
    let big = r.chance(1, 25);
    let n = r.below(if big { 4 } else { 10 });
    let mut frames: Vec<Vec<u8>> = (0..n).map(|_| frame(&mut r, big)).collect();
    let bad = if n > 0 && r.chance(1, 6) { Some(r.below(n)) } else { None };
    if let Some(b) = bad { frames[b][4] = 200; }
    let mut input = frames.concat();
    let whole = input.len();
    if r.chance(1, 4) && whole > 0 { input.truncate(r.below(whole)); }
    let deliverable = { let mut a = 0; frames.iter().take_while(|f| { a += f.len(); a <= input.len() }).count() };
    let sizes = [1, 2, 5, 30, 500, 8192, 100_000];
    let io = Sio(Arc::new(Mutex::new(Io {
        read_max: sizes[r.below(7)].max(whole / 3000), read_pend: [0, 10, 60][r.below(3)], read_err: r.chance(1, 4), input,
        write_max: sizes[r.below(7)].max(if big { 4000 } else { 1 }), write_pend: [0, 10, 60][r.below(3)], flush_pend: [0, 10, 60][r.below(3)],
        zero_at: if r.chance(1, 6) { r.below(20_000) } else { usize::MAX },
        err_at: if r.chance(1, 8) { r.below(20_000) } else { usize::MAX },
        r: Some(Rng::new(seed ^ 0x77)),
        ..Io::default()
    })));
    let (mut t, name) = stack(TokioTransport::new(io.clone()), &mut r, leak);
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    let mut accepted: Vec<u8> = vec![];
    let mut got = 0;
    let mut steps = 0;
    let mut todo: VecDeque<Vec<u8>> = (0..r.below(if big { 3 } else { 14 })).map(|_| frame(&mut r, big)).collect();
    let (mut rx_done, mut tx_done) = (false, false);
    let style = r.below(3);
    macro_rules! fail { ($($a:tt)*) => { return Err(format!("{name}: {}", format!($($a)*))) } }
    let fail_io = |e: &E, want: ErrorKind| match e { TokioTransportError::Io(e) => e.kind() == want, _ => false };
    // an error of the write side must be the one the io object produced
    let tx_err = |e: &E, io: &Io| {
        if io.err_seen { fail_io(e, ErrorKind::BrokenPipe) } else if io.zero_seen { fail_io(e, ErrorKind::WriteZero) } else { false }
    };
    while (!rx_done || !tx_done) && steps < 200_000 {
        steps += 1;
        let before = io.0.lock().unwrap().out.len();
        io.0.lock().unwrap().pending = false;
        if !rx_done && (tx_done || r.chance(1, 2)) {
            let p = caught(|| if style == 2 { let mut f = t.receive(); Pin::new(&mut f).poll(&mut cx) } else { t.as_mut().receive_poll(&mut cx) });
            let p = match p { Ok(p) => p, Err(e) => fail!("receive panics: {e}") };
            let g = io.0.lock().unwrap();
            match p {
                Poll::Ready(Ok(m)) => {
                    if got >= deliverable || Some(got) == bad { fail!("message {got} received but only {deliverable} were sent: {m:?}"); }
                    let want = Message::deserialize_message(BytesMut::from(&frames[got][..]));
                    if want.as_ref().ok() != Some(&m) { fail!("message {got} is {m:?}"); }
                    got += 1;
                }
                Poll::Ready(Err(TokioTransportError::Deserialize(_))) if Some(got) == bad && got < deliverable => rx_done = true,
                Poll::Ready(Err(e)) => {
                    if got < deliverable { fail!("error {e:?} instead of message {got}"); }
                    if !g.eof_seen || !fail_io(&e, if g.read_err { ErrorKind::ConnectionReset } else { ErrorKind::UnexpectedEof }) { fail!("unexpected error {e:?}"); }
                    rx_done = true;
                }
                Poll::Pending => if !g.pending { fail!("receive is pending although the stream is not"); },
            }
            if g.out.len() != before { fail!("receiving writes"); }
            continue;
        }
        if tx_done { continue; }
        if !todo.is_empty() && r.chance(3, 4) {
            let m = Message::deserialize_message(BytesMut::from(&todo[0][..])).unwrap();
            let p = caught(|| match style {
                0 => match t.as_mut().send_poll_ready(&mut cx) {
                    Poll::Ready(Ok(())) => Poll::Ready(t.as_mut().send_start(m)),
                    p => p,
                },
                1 => match t.send_poll_ready_unpin(&mut cx) {
                    Poll::Ready(Ok(())) => Poll::Ready(t.send_start_unpin(m)),
                    p => p,
                },
                _ => { let mut f = t.send(m); Pin::new(&mut f).poll(&mut cx) }
            });
            let p = match p { Ok(p) => p, Err(e) => fail!("send panics: {e}") };
            let g = io.0.lock().unwrap();
            match p {
                Poll::Ready(Ok(())) => accepted.extend(todo.pop_front().unwrap()),
                Poll::Ready(Err(e)) => { if !tx_err(&e, &g) { fail!("send fails with {e:?}"); } tx_done = true; }
                Poll::Pending => if !g.pending { fail!("send is pending although the stream is not"); },
            }
        } else if style == 2 && !todo.is_empty() && r.chance(1, 2) {
            // send and flush as one future, driven to its end
            let m = todo.pop_front().unwrap();
            accepted.extend(&m);
            let m = Message::deserialize_message(BytesMut::from(&m[..])).unwrap();
            let mut f = t.send_and_flush(m);
            loop {
                io.0.lock().unwrap().pending = false;
                let p = match caught(|| Pin::new(&mut f).poll(&mut cx)) { Ok(p) => p, Err(e) => fail!("send_and_flush panics: {e}") };
                let g = io.0.lock().unwrap();
                steps += 1;
                match p {
                    Poll::Ready(Ok(())) => { if g.out != accepted || g.flushed != g.out.len() { fail!("send_and_flush returned with {} of {} bytes written, {} flushed", g.out.len(), accepted.len(), g.flushed); } break; }
                    Poll::Ready(Err(e)) => { if !tx_err(&e, &g) { fail!("send_and_flush fails with {e:?}"); } tx_done = true; break; }
                    Poll::Pending => if !g.pending { fail!("send_and_flush is pending although the stream is not"); },
                }
            }
        } else {
            let p = caught(|| if style == 2 { let mut f = t.flush(); Pin::new(&mut f).poll(&mut cx) } else { t.as_mut().send_poll_flush(&mut cx) });
            let p = match p { Ok(p) => p, Err(e) => fail!("flush panics: {e}") };
            let g = io.0.lock().unwrap();
            match p {
                Poll::Ready(Ok(())) => {
                    if g.out != accepted { fail!("flush returned with {} of {} bytes written", g.out.len(), accepted.len()); }
                    if g.flushed != g.out.len() { fail!("flush returned without flushing the stream"); }
                    if todo.is_empty() { tx_done = true; }
                }
                Poll::Ready(Err(e)) => { if !tx_err(&e, &g) { fail!("flush fails with {e:?}"); } tx_done = true; }
                Poll::Pending => if !g.pending { fail!("flush is pending although the stream is not"); },
            }
        }
        let g = io.0.lock().unwrap();
        if !accepted.starts_with(&g.out) { fail!("{} bytes written do not match what was sent", g.out.len()); }
        if (g.zero_seen || g.err_seen) && !tx_done { fail!("an error of the stream is not reported"); }
    }
    let _ = flag.0.load(Ordering::SeqCst);
    if steps >= 200_000 { fail!("no progress"); }
    Ok(got)
}

pub fn one(kind: &str, seed: u64) -> Result<usize, String> {
    if kind == "packetizer" { packetizer(seed) } else { transport(seed) }
}
