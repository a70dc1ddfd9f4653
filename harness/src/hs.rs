//! Exhaustive handshakes (C12) and demonstrations of the recorded findings.
use crate::bsim::{frame_of, msg_of};
use crate::exec::{caught, now, Task};
use crate::oracle::{self, Ep, V};
use crate::wire::{Fr, F};
use aldrin_broker::{AcceptError, Broker, BrokerHandle};
use aldrin_core::channel::{unbounded, Unbounded};
use aldrin_core::transport::AsyncTransport;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

fn send(c: &mut Unbounded, fr: &Fr) {
    let mut cx = Context::from_waker(Waker::noop());
    let _ = Pin::new(&mut *c).send_poll_ready(&mut cx);
    let _ = Pin::new(c).send_start(msg_of(fr));
}
fn recv(c: &mut Unbounded) -> Vec<Result<Fr, String>> {
    let mut cx = Context::from_waker(Waker::noop());
    let mut out = vec![];
    while let Poll::Ready(r) = Pin::new(&mut *c).receive_poll(&mut cx) {
        match r { Ok(m) => out.push(frame_of(m)), Err(_) => { out.push(Err("closed".into())); break } }
    }
    out
}

/// One handshake request against the real acceptor; Err = how it deviates.
pub fn handshake(h: &BrokerHandle, legacy: bool, major: u32, minor: u32) -> Result<(), String> {
    let (mut client, server) = unbounded();
    let fr = if legacy { Fr { k: 0, val: Some(vec![0]), f: vec![F::N(minor)] } }
        else { Fr { k: 46, val: Some(oracle::encode(&V::Struct(vec![]), Ep::V1)), f: vec![F::N(major), F::N(minor)] } };
    send(&mut client, &fr);
    let mut h = h.clone();
    let r = now(h.connect(server)).map_err(|e| format!("panic: {e}"))?.ok_or("does not finish")?;
    let rep = recv(&mut client);
    let rep: Vec<Fr> = rep.into_iter().filter(|r| !matches!(r, Err(e) if e == "closed")).collect::<Result<_, _>>()?;
    let ok = if legacy { minor == 14 } else { major == 1 && minor >= 14 };
    let good = match (&r, ok, legacy) {
        (Ok(_), true, true) => rep.len() == 1 && rep[0].k == 1 && rep[0].f == [F::D(0)],
        (Ok(_), true, false) => rep.len() == 1 && rep[0].k == 47 && rep[0].f == [F::D(0), F::N(minor.min(20))],
        (Err(AcceptError::IncompatibleVersion(_)), false, true) => rep.len() == 1 && rep[0].k == 1 && rep[0].f.first() == Some(&F::D(1)),
        (Err(AcceptError::IncompatibleVersion(_)), false, false) => rep.len() == 1 && rep[0].k == 47 && rep[0].f == [F::D(2)],
        _ => false,
    };
    if good { Ok(()) } else { Err(format!("accepted: {}, reply {rep:?}", r.is_ok())) }
}
pub fn all_handshakes() -> (usize, Option<(String, String)>) {
    let broker = Broker::new();
    let h = broker.handle().clone();
    let mut b = Task::new(broker.run());
    let mut minors: Vec<u32> = (0..64).collect();
    minors.extend([127, 128, 251, 252, 255, 256, 270, 1 << 16, (1 << 16) + 14, 1 << 31, u32::MAX - 1, u32::MAX]);
    let mut n = 0;
    for legacy in [true, false] {
        for major in [1, 0, 2, 3, 14, 20, 257, u32::MAX] {
            if legacy && major != 1 { continue; }
            for &minor in &minors {
                n += 1;
                if let Err(e) = handshake(&h, legacy, major, minor) {
                    return (n, Some((format!("handshake {} {major} {minor}", legacy as u8), e)));
                }
                let _ = b.poll();
            }
        }
    }
    (n, None)
}
pub fn replay(w: &[&str]) -> Result<(), String> {
    let broker = Broker::new();
    let h = broker.handle().clone();
    let _b = Task::new(broker.run());
    handshake(&h, w[1] == "1", w[2].parse().unwrap(), w[3].parse().unwrap())
}

struct W { b: Task<()>, h: BrokerHandle, c: Vec<(Unbounded, Option<Task<()>>, Vec<Result<Fr, String>>)>, done: bool }
impl W {
    fn new() -> Self { let b = Broker::new(); let h = b.handle().clone(); W { b: Task::new(b.run()), h, c: vec![], done: false } }
    fn add(&mut self, minor: u32) {
        let (mut client, server) = unbounded();
        send(&mut client, &Fr { k: 46, val: Some(oracle::encode(&V::Struct(vec![]), Ep::V1)), f: vec![F::N(1), F::N(minor)] });
        let mut h = self.h.clone();
        let conn = now(h.connect(server)).unwrap().unwrap().unwrap();
        recv(&mut client);
        self.c.push((client, Some(Task::new(async move { let _ = conn.run().await; })), vec![]));
        self.settle();
    }
    fn settle(&mut self) {
        for _ in 0..100 {
            if !self.done && self.b.ready() { if let Ok(Poll::Ready(())) = self.b.poll() { self.done = true; } }
            for (cl, t, got) in &mut self.c {
                if let Some(k) = t { if k.ready() { if let Ok(Poll::Ready(())) = k.poll() { *t = None; } } }
                got.extend(recv(cl));
            }
        }
    }
    fn tx(&mut self, i: usize, fr: Fr) -> Vec<Result<Fr, String>> {
        send(&mut self.c[i].0, &fr);
        self.c.iter_mut().for_each(|c| c.2.clear());
        self.settle();
        self.c[i].2.clone()
    }
}
/// C09: the task of a connection is dropped and nothing is sent to that connection afterwards.
pub fn known_dropped_task() -> bool {
    let mut w = W::new();
    w.add(20);
    w.tx(0, Fr { k: 3, val: None, f: vec![F::N(0), F::U([1; 16])] });
    w.c[0].1 = None;
    let mut h = w.h.clone();
    let _ = now(async move { h.shutdown_idle().await });
    w.settle();
    let _ = caught(|| ());
    !w.done
}
/// C11: a payload that is not a value, sent by a 1.20 peer to a 1.19 peer, closes the receiver.
pub fn known_garbage_payload() -> bool {
    let mut w = W::new();
    w.add(20);
    w.add(19);
    let o = w.tx(1, Fr { k: 3, val: None, f: vec![F::N(0), F::U([1; 16])] });
    let Some(Ok(o)) = o.first() else { return false };
    let s = w.tx(1, Fr { k: 7, val: None, f: vec![F::N(1), o.f[2], F::U([2; 16]), F::N(0)] });
    let Some(Ok(s)) = s.first() else { return false };
    let svc = s.f[2];
    w.tx(0, Fr { k: 62, val: Some(vec![255]), f: vec![F::N(2), svc, F::N(0), F::D(0)] });
    w.c[1].1.is_none()
}
