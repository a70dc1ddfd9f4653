//! Minimal deterministic executor: tasks with a wake flag, polled until quiescent; panics caught.
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

pub struct Flag(pub AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) }
}
pub struct Task<T> { fut: Pin<Box<dyn Future<Output = T>>>, flag: Arc<Flag>, waker: Waker }
impl<T> Task<T> {
    pub fn new(f: impl Future<Output = T> + 'static) -> Self {
        let flag = Arc::new(Flag(AtomicBool::new(true)));
        Task { fut: Box::pin(f), waker: Waker::from(flag.clone()), flag }
    }
    pub fn ready(&self) -> bool { self.flag.0.load(Ordering::SeqCst) }
    /// Polls once if woken. Err = panic message.
    pub fn poll(&mut self) -> Result<Poll<T>, String> {
        if !self.flag.0.swap(false, Ordering::SeqCst) { return Ok(Poll::Pending); }
        let mut cx = Context::from_waker(&self.waker);
        let fut = &mut self.fut;
        caught(|| fut.as_mut().poll(&mut cx))
    }
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| { *LAST_PANIC.lock().unwrap() = i.to_string().replace('\n', " "); }));
}
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.lock().unwrap().clone())
}
/// Drives a future that must complete without waiting on anything else.
pub fn now<T>(f: impl Future<Output = T>) -> Result<Option<T>, String> {
    let mut f = Box::pin(f);
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let w = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&w);
    for _ in 0..64 {
        match caught(|| f.as_mut().poll(&mut cx))? {
            Poll::Ready(x) => return Ok(Some(x)),
            Poll::Pending => if !flag.0.swap(false, Ordering::SeqCst) { return Ok(None) },
        }
    }
    Ok(None)
}
