// Small deterministic world: the real broker and scripted clients on unbounded channels.
#![allow(dead_code, unused_imports)]
pub use aldrin_broker::{Broker, BrokerHandle, ConnectionHandle};
pub use aldrin_core::channel::{unbounded, Unbounded};
pub use aldrin_core::message::*;
pub use aldrin_core::transport::AsyncTransport;
pub use aldrin_core::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) }
}
struct Task { fut: Pin<Box<dyn Future<Output = ()>>>, flag: Arc<Flag>, done: bool }
impl Task {
    fn new(f: impl Future<Output = ()> + 'static) -> Self { Task { fut: Box::pin(f), flag: Arc::new(Flag(AtomicBool::new(true))), done: false } }
    fn run(&mut self) -> bool {
        if self.done || !self.flag.0.swap(false, Ordering::SeqCst) { return false; }
        let w = Waker::from(self.flag.clone());
        if self.fut.as_mut().poll(&mut Context::from_waker(&w)).is_ready() { self.done = true; }
        true
    }
}
pub fn now<T>(f: impl Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    for _ in 0..100 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(Waker::noop())) { return x; }
    }
    panic!("future does not finish")
}
pub struct Client { pub t: Option<Unbounded>, task: Option<Task>, pub handle: ConnectionHandle, pub got: Vec<Message>, pub closed: bool }
pub struct World { broker: Task, pub h: BrokerHandle, pub c: Vec<Client> }
impl World {
    pub fn new() -> Self { let b = Broker::new(); let h = b.handle().clone(); World { broker: Task::new(b.run()), h, c: vec![] } }
    /// Connects a client that speaks protocol version 1.`minor`.
    pub fn add(&mut self, minor: u32) -> usize {
        let (mut t, s) = unbounded();
        raw_send(&mut t, Connect2 { major_version: 1, minor_version: minor, value: SerializedValue::serialize(ConnectData::new()).unwrap() }.into());
        let mut h = self.h.clone();
        let conn = now(h.connect(s)).unwrap();
        let handle = conn.handle().clone();
        let task = Task::new(async move { let _ = conn.run().await; });
        self.c.push(Client { t: Some(t), task: Some(task), handle, got: vec![], closed: false });
        self.settle();
        self.c.last_mut().unwrap().got.clear();
        self.c.len() - 1
    }
    pub fn settle(&mut self) {
        for _ in 0..1000 {
            let mut any = self.broker.run();
            for c in &mut self.c {
                if let Some(t) = &mut c.task { any |= t.run(); if t.done { c.task = None; } }
                if let Some(t) = &mut c.t {
                    while let Poll::Ready(r) = Pin::new(&mut *t).receive_poll(&mut Context::from_waker(Waker::noop())) {
                        match r { Ok(m) => { any = true; c.got.push(m) } Err(_) => { c.closed = true; break; } }
                    }
                }
                if c.closed { c.t = None; }
            }
            if !any { return; }
        }
        panic!("the broker does not become idle");
    }
    /// Queues a message without letting the broker run.
    pub fn queue(&mut self, i: usize, m: impl Into<Message>) {
        raw_send(self.c[i].t.as_mut().expect("connection is closed"), m.into());
        if let Some(t) = &mut self.c[i].task { while t.run() {} }
    }
    /// Sends a message and returns what this client received since the last take.
    pub fn tx(&mut self, i: usize, m: impl Into<Message>) -> Vec<Message> { self.queue(i, m); self.settle(); self.take(i) }
    pub fn take(&mut self, i: usize) -> Vec<Message> { std::mem::take(&mut self.c[i].got) }
    /// The client closes its transport.
    pub fn hang_up(&mut self, i: usize) { self.c[i].t = None; if let Some(t) = &mut self.c[i].task { while t.run() {} } }
    /// The task of the connection is dropped.
    pub fn drop_task(&mut self, i: usize) { self.c[i].task = None; self.c[i].t = None; }
    pub fn broker_done(&mut self) -> bool { self.settle(); self.broker.done }
    pub fn stats(&mut self) -> aldrin_broker::BrokerStatistics {
        let mut h = self.h.clone();
        let mut f = Box::pin(async move { h.take_statistics().await });
        for _ in 0..10 {
            if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(Waker::noop())) { return x.unwrap(); }
            self.settle();
        }
        panic!("no statistics")
    }
    pub fn object(&mut self, i: usize, n: u128) -> ObjectCookie {
        match &self.tx(i, CreateObject { serial: 9000, uuid: ObjectUuid(uuid(n)) })[..] {
            [Message::CreateObjectReply(CreateObjectReply { result: CreateObjectResult::Ok(c), .. })] => *c,
            e => panic!("create object: {e:?}"),
        }
    }
    pub fn service(&mut self, i: usize, o: ObjectCookie, n: u128) -> ServiceCookie {
        match &self.tx(i, CreateService { serial: 9001, object_cookie: o, uuid: ServiceUuid(uuid(n)), version: 1 })[..] {
            [Message::CreateServiceReply(CreateServiceReply { result: CreateServiceResult::Ok(c), .. })] => *c,
            e => panic!("create service: {e:?}"),
        }
    }
    pub fn service2(&mut self, i: usize, o: ObjectCookie, n: u128, all: bool) -> ServiceCookie {
        let info = ServiceInfo::new(1).set_subscribe_all(all);
        match &self.tx(i, CreateService2 { serial: 9001, object_cookie: o, uuid: ServiceUuid(uuid(n)), value: SerializedValue::serialize(info).unwrap() })[..] {
            [Message::CreateServiceReply(CreateServiceReply { result: CreateServiceResult::Ok(c), .. })] => *c,
            e => panic!("create service: {e:?}"),
        }
    }
    pub fn channel(&mut self, i: usize, end: ChannelEndWithCapacity) -> ChannelCookie {
        match &self.tx(i, CreateChannel { serial: 9002, end })[..] {
            [Message::CreateChannelReply(CreateChannelReply { cookie, .. })] => *cookie,
            e => panic!("create channel: {e:?}"),
        }
    }
    pub fn listener(&mut self, i: usize) -> BusListenerCookie {
        match &self.tx(i, CreateBusListener { serial: 9003 })[..] {
            [Message::CreateBusListenerReply(CreateBusListenerReply { cookie, .. })] => *cookie,
            e => panic!("create bus listener: {e:?}"),
        }
    }
}
fn raw_send(t: &mut Unbounded, m: Message) {
    let mut cx = Context::from_waker(Waker::noop());
    let _ = Pin::new(&mut *t).send_poll_ready(&mut cx);
    let _ = Pin::new(t).send_start(m);
}
pub fn uuid(n: u128) -> uuid::Uuid { uuid::Uuid::from_u128(n) }
pub fn val(n: u32) -> SerializedValue { SerializedValue::serialize(n).unwrap() }
pub fn check(what: &str, ok: bool) { if !ok { println!("FAIL: {what}"); std::process::exit(1); } }
