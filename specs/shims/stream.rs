// ---- assumed: core::task, tokio::io, std::io
pub enum Poll<T> { Ready(T), Pending }
pub struct Context { pub x: u8 }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum IoErrorKind { NotFound, ConnectionReset, ConnectionAborted, BrokenPipe, UnexpectedEof, WriteZero, InvalidData, Interrupted, Other }
#[verifier::external_body]
pub struct IoError { x: u8 }
impl IoError { pub uninterp spec fn kind_spec(&self) -> IoErrorKind; }
impl IoErrorKind {
    #[verifier::external_body]
    pub fn into(self) -> (r: IoError) ensures r.kind_spec() == self { unimplemented!() }
}
impl IoError {
    #[verifier::external_body]
    pub fn from(k: IoErrorKind) -> (r: IoError) ensures r.kind_spec() == k { unimplemented!() }
}
pub struct ReadBuf<'a> { pub buf: &'a mut VxSpare, pub n: usize }
impl<'a> ReadBuf<'a> {
    #[verifier::external_body]
    pub fn uninit(buf: &'a mut VxSpare) -> (r: ReadBuf<'a>) ensures *r.buf == *old(buf), *final(r.buf) == *final(buf), r.n == 0 { unimplemented!() }
    pub open spec fn got(self) -> Seq<u8> { vx_vals((*self.buf)@, self.n as int) }
    pub open spec fn cap(self) -> int { (*self.buf)@.len() as int }
    #[verifier::external_body]
    pub fn filled(&self) -> (r: &[u8]) ensures r@ == self.got() { unimplemented!() }
    #[verifier::external_body]
    pub fn remaining(&self) -> (r: usize) ensures r == self.cap() - self.n { unimplemented!() }
}
/// ghost view of a byte stream
pub trait VxIo {
    /// all bytes handed out so far, all bytes accepted so far, how many of them were flushed
    spec fn rx(&self) -> Seq<u8>;
    spec fn tx(&self) -> Seq<u8>;
    spec fn flushed(&self) -> int;
    /// the end of the stream has been reported / a write was accepted with length zero
    spec fn eof(&self) -> bool;
    spec fn stuck(&self) -> bool;
    /// the last operation was pending, i.e. the task will be woken up
    spec fn waiting(&self) -> bool;
}
pub trait AsyncRead: VxIo {
    fn poll_read<'a>(&mut self, cx: &mut Context, rb: &mut ReadBuf<'a>) -> (r: Poll<Result<(), IoError>>)
        requires
            // the end of the stream could not be told from a full buffer
            old(rb).n < old(rb).cap(), //@C14
        ensures
            *final(final(rb).buf) == *final(old(rb).buf),
            final(rb).cap() == old(rb).cap(),
            old(rb).n <= final(rb).n <= final(rb).cap(),
            vx_init((*old(rb).buf)@, old(rb).n as int) ==> vx_init((*final(rb).buf)@, final(rb).n as int),
            final(rb).got().take(old(rb).n as int) == old(rb).got(),
            final(self).rx() == old(self).rx() + final(rb).got().skip(old(rb).n as int),
            !(r matches Poll::Ready(Ok(_))) ==> final(rb).n == old(rb).n,
            final(self).tx() == old(self).tx(), final(self).flushed() == old(self).flushed(), final(self).stuck() == old(self).stuck(),
            final(self).eof() == (old(self).eof() || ((r matches Poll::Ready(Ok(_))) && final(rb).n == old(rb).n)),
            final(self).waiting() == (r is Pending);
}
pub trait AsyncWrite: VxIo {
    fn poll_write(&mut self, cx: &mut Context, b: &[u8]) -> (r: Poll<Result<usize, IoError>>)
        requires b@.len() > 0, //@C14
        ensures
            r matches Poll::Ready(Ok(n)) ==> n <= b@.len() && final(self).tx() == old(self).tx() + b@.take(n as int),
            !(r matches Poll::Ready(Ok(_))) ==> final(self).tx() == old(self).tx(),
            final(self).rx() == old(self).rx(), final(self).flushed() == old(self).flushed(), final(self).eof() == old(self).eof(),
            final(self).stuck() == (old(self).stuck() || (r matches Poll::Ready(Ok(n)) && n == 0)),
            final(self).waiting() == (r is Pending);
    fn poll_flush(&mut self, cx: &mut Context) -> (r: Poll<Result<(), IoError>>)
        ensures
            final(self).tx() == old(self).tx(), final(self).rx() == old(self).rx(),
            final(self).eof() == old(self).eof(), final(self).stuck() == old(self).stuck(),
            final(self).flushed() == (if r matches Poll::Ready(Ok(_)) { old(self).tx().len() as int } else { old(self).flushed() }),
            final(self).waiting() == (r is Pending);
}
// ---- assumed: message (de)serialization as functions of the bytes (decided by C01 and C08)
pub struct MessageDeserializeError { pub x: u8 }
pub struct MessageSerializeError { pub x: u8 }
#[verifier::external_body]
pub struct Message { x: u8 }
pub uninterp spec fn vx_de(s: Seq<u8>) -> Result<Message, MessageDeserializeError>;
pub uninterp spec fn vx_ser(m: Message) -> Result<Seq<u8>, MessageSerializeError>;
impl Message {
    #[verifier::external_body]
    pub fn deserialize_message(b: BytesMut) -> (r: Result<Message, MessageDeserializeError>) ensures r == vx_de(b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_message(self) -> (r: Result<BytesMut, MessageSerializeError>)
        ensures r is Ok <==> vx_ser(self) is Ok, r is Ok ==> r->Ok_0@ == vx_ser(self)->Ok_0, r is Err ==> r->Err_0 == vx_ser(self)->Err_0 { unimplemented!() }
}
// ---- assumed: std::collections::VecDeque
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecDeque<T> { x: core::marker::PhantomData<T> }
impl<T> View for VecDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VecDeque<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, v: T) ensures final(self)@ == old(self)@.push(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, v: T) ensures final(self)@ == seq![v] + old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures r is Some <==> old(self)@.len() > 0, r is Some ==> r->0 == old(self)@[0] && final(self)@ == old(self)@.skip(1), r is None ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures r is Some <==> old(self)@.len() > 0, r is Some ==> r->0 == old(self)@.last() && final(self)@ == old(self)@.drop_last(), r is None ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn front(&self) -> (r: Option<&T>) ensures r is Some <==> self@.len() > 0, r is Some ==> *r->0 == self@[0] { unimplemented!() }
}
