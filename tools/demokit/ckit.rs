// Small deterministic world: the real broker and real clients on unbounded channels, polled in turn.
#![allow(dead_code, unused_imports)]
pub use aldrin::low_level::{Service, ServiceInfo};
pub use aldrin::*;
pub use aldrin_broker::{Broker, BrokerHandle};
pub use aldrin_core::transport::AsyncTransportExt;
pub use aldrin_core::{BusEvent, BusListenerFilter, BusListenerScope, ObjectCookie, ObjectId, ObjectUuid, ServiceCookie, ServiceId, ServiceUuid};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) }
}
struct Task { fut: Pin<Box<dyn Future<Output = ()>>>, flag: Arc<Flag>, done: bool }
impl Task {
    fn run(&mut self) -> bool {
        if self.done || !self.flag.0.swap(false, Ordering::SeqCst) { return false; }
        let w = Waker::from(self.flag.clone());
        if self.fut.as_mut().poll(&mut Context::from_waker(&w)).is_ready() { self.done = true; }
        true
    }
}
pub struct World { tasks: Vec<Task>, pub bh: BrokerHandle }
impl World {
    pub fn new() -> Self {
        let b = Broker::new();
        let mut w = World { tasks: vec![], bh: b.handle().clone() };
        w.spawn(b.run());
        w
    }
    pub fn spawn(&mut self, f: impl Future<Output = ()> + 'static) {
        self.tasks.push(Task { fut: Box::pin(f), flag: Arc::new(Flag(AtomicBool::new(true))), done: false });
    }
    /// Lets the broker and all clients run until nothing is left to do.
    pub fn settle(&mut self) {
        for _ in 0..100_000 {
            let mut any = false;
            for t in &mut self.tasks { any |= t.run(); }
            if !any { return; }
        }
        panic!("no end of steps");
    }
    /// Runs `f` to its end.
    pub fn run<T>(&mut self, f: impl Future<Output = T>) -> T {
        let mut f = Box::pin(f);
        for _ in 0..1000 {
            if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(Waker::noop())) { return x; }
            self.settle();
        }
        panic!("an operation does not complete")
    }
    pub fn client(&mut self) -> Handle {
        let (t1, t2) = aldrin_core::channel::unbounded();
        let mut bh = self.bh.clone();
        self.spawn(async move { let conn = bh.connect(t2.boxed()).await.expect("accepted"); let _ = conn.run().await; });
        let client = self.run(Client::connect(t1.boxed())).expect("connected");
        let h = client.handle().clone();
        self.spawn(async move { let _ = client.run().await; });
        h
    }
}
/// One poll.
pub fn poll<T>(f: impl Future<Output = T>) -> Option<T> {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) { Poll::Ready(x) => Some(x), Poll::Pending => None }
}
