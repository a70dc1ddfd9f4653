// Contracts of the packetizer, the stream transport and the buffering transport (C14)
subst &mut [MaybeUninit<u8>] => &mut VxSpare
subst bytes.as_ref() => bytes
subst  + Unpin + ?Sized => 
subst  + Unpin => 
post
    /// a complete frame lies at the front of `s`
    pub open spec fn complete(s: Seq<u8>) -> bool { s.len() >= 4 && s.len() >= le32(s) }
    pub open spec fn frame(s: Seq<u8>) -> Seq<u8> { s.take(le32(s)) }
    /// how many bytes the frame at the front occupies (never less than its length prefix)
    pub open spec fn flen(s: Seq<u8>) -> int { if le32(s) > 4 { le32(s) } else { 4 } }
    pub open spec fn rest(s: Seq<u8>) -> Seq<u8> { s.skip(flen(s)) }
    pub open spec fn frames(s: Seq<u8>) -> Seq<Seq<u8>>
        decreases s.len() via frames_dec
    { if complete(s) { seq![frame(s)] + frames(rest(s)) } else { Seq::empty() } }
    #[via_fn]
    proof fn frames_dec(s: Seq<u8>) { }
    pub open spec fn tail(s: Seq<u8>) -> Seq<u8>
        decreases s.len() via tail_dec
    { if complete(s) { tail(rest(s)) } else { s } }
    #[via_fn]
    proof fn tail_dec(s: Seq<u8>) { }
    impl Packetizer {
        pub open spec fn wf(self) -> bool {
            self.len is Some ==> self.buf@.len() >= 4 && self.len->0 == le32(self.buf@)
        }
    }
source core/src/message/packetizer.rs
only Packetizer MIN_RESERVE_CAPACITY MAX_RESERVE_CAPACITY
fn Packetizer::new
    ensures
        r.buf@.len() == 0, r.wf(), //@C14
fn Packetizer::extend_from_slice
    requires old(self).wf(),
    ensures
        final(self).wf(), //@C14
        final(self).buf@ == old(self).buf@ + bytes@, //@C14
fn Packetizer::spare_capacity_mut
    requires old(self).wf(),
    ensures
        final(self).wf(), //@C14
        (*r)@.len() > 0, //@C14
        final(self).buf@ == old(self).buf@, //@C14
        final(self).buf.spare() == (*final(r))@, //@C14
fn Packetizer::bytes_written
    requires
        old(self).wf(),
        len <= old(self).buf.spare().len(), //@C14
        vx_init(old(self).buf.spare(), len as int), //@C14
    ensures
        final(self).wf(), //@C14
        final(self).buf@ == old(self).buf@ + vx_vals(old(self).buf.spare(), len as int), //@C14
fn Packetizer::next_message
    requires old(self).wf(),
    ensures
        final(self).wf(), //@C14
        // a frame is returned if and only if it is complete
        r is Some <==> complete(old(self).buf@), //@C14
        r is Some ==> r->0@ == frame(old(self).buf@) && final(self).buf@ == rest(old(self).buf@), //@C14
        r is None ==> final(self).buf@ == old(self).buf@, //@C14

post
    // ---- what the contracts of the packetizer amount to: whatever the pieces, the frames are those of the whole
    pub proof fn frames_append(a: Seq<u8>, b: Seq<u8>)
        ensures
            frames(a + b) == frames(a) + frames(tail(a) + b), //@C14
            tail(a + b) == tail(tail(a) + b), //@C14
        decreases a.len()
    {
        if complete(a) {
            assert((a + b).take(4) =~= a.take(4));
            assert(le32(a + b) == le32(a));
            assert(complete(a + b));
            assert(frame(a + b) =~= frame(a));
            assert(rest(a + b) =~= rest(a) + b);
            frames_append(rest(a), b);
            assert(frames(a + b) =~= seq![frame(a)] + (frames(rest(a)) + frames(tail(rest(a)) + b)));
            assert(frames(a + b) =~= frames(a) + frames(tail(a) + b));
        } else {
            assert(frames(a) + frames(a + b) =~= frames(a + b));
        }
    }
    /// a byte string as the serializer produces it: prefixed with its own length
    pub open spec fn is_frame(f: Seq<u8>) -> bool { f.len() >= 4 && le32(f) == f.len() }
    pub open spec fn concat(fs: Seq<Seq<u8>>) -> Seq<u8>
        decreases fs.len()
    { if fs.len() == 0 { Seq::empty() } else { fs[0] + concat(fs.skip(1)) } }
    pub proof fn frames_concat(fs: Seq<Seq<u8>>)
        requires forall|i: int| 0 <= i < fs.len() ==> is_frame(#[trigger] fs[i])
        ensures
            frames(concat(fs)) == fs, //@C14
            tail(concat(fs)) == Seq::<u8>::empty(), //@C14
        decreases fs.len()
    {
        if fs.len() > 0 {
            let f = fs[0];
            let r = concat(fs.skip(1));
            assert forall|i: int| 0 <= i < fs.skip(1).len() implies is_frame(#[trigger] fs.skip(1)[i]) by { assert(fs.skip(1)[i] == fs[i + 1]); }
            frames_concat(fs.skip(1));
            assert(le32(f + r) == le32(f));
            assert(frame(f + r) =~= f);
            assert(rest(f + r) =~= r);
            assert(frames(f + r) =~= fs);
        } else {
            assert(fs =~= Seq::empty());
        }
    }
    /// an incomplete frame stays incomplete when nothing completes it: no frame is returned early
    pub proof fn frames_prefix(f: Seq<u8>, n: int)
        requires is_frame(f), 0 <= n < f.len()
        ensures frames(f.take(n)) == Seq::<Seq<u8>>::empty(), tail(f.take(n)) == f.take(n), //@C14
    {
        let s = f.take(n);
        if n >= 4 { assert(le32(s) == le32(f)); }
    }
    /// executable driver over the real functions: any pieces, polled or not in between
    pub fn vx_feed(pieces: Vec<Vec<u8>>, poll: Vec<bool>, all: Ghost<Seq<Seq<u8>>>) -> (out: Vec<BytesMut>)
        requires
            poll.len() == pieces.len(),
            forall|i: int| 0 <= i < all@.len() ==> is_frame(#[trigger] all@[i]),
            concat(pieces@.map_values(|v: Vec<u8>| v@)) == concat(all@),
        ensures
            out@.map_values(|b: BytesMut| b@) == all@, //@C14
    {
        let mut p = Packetizer::new();
        let mut out: Vec<BytesMut> = Vec::new();
        let ghost mut fed = Seq::<u8>::empty();
        let ghost ps = pieces@.map_values(|v: Vec<u8>| v@);
        let mut i = 0;
        proof {
            assert(ps.skip(0) =~= ps);
            assert(fed + concat(ps) =~= concat(ps));
            assert(frames(fed) =~= Seq::empty());
            assert(p.buf@ =~= fed);
            assert(out@.map_values(|b: BytesMut| b@) + frames(p.buf@) =~= frames(fed));
        }
        while i < pieces.len()
            invariant
                p.wf(), i <= pieces.len(), poll.len() == pieces.len(), ps == pieces@.map_values(|v: Vec<u8>| v@),
                fed + concat(ps.skip(i as int)) == concat(ps),
                out@.map_values(|b: BytesMut| b@) + frames(p.buf@) == frames(fed),
                tail(p.buf@) == tail(fed),
            decreases pieces.len() - i
        {
            let ghost b0 = p.buf@;
            proof {
                let d = ps[i as int];
                assert(ps.skip(i as int)[0] == d);
                assert(ps.skip(i as int).skip(1) =~= ps.skip(i + 1));
                assert(fed + (d + concat(ps.skip(i + 1))) =~= (fed + d) + concat(ps.skip(i + 1)));
                frames_append(fed, d);
                frames_append(p.buf@, d);
                assert(out@.map_values(|b: BytesMut| b@) + frames(b0 + d) =~= (out@.map_values(|b: BytesMut| b@) + frames(b0)) + frames(tail(b0) + d));
                fed = fed + d;
            }
            p.extend_from_slice(pieces[i].as_slice());
            if poll[i] {
                vx_drain(&mut p, &mut out, Ghost(fed));
            }
            i = i + 1;
        }
        proof { assert(ps.skip(i as int) =~= Seq::empty()); assert(fed =~= concat(ps)); }
        vx_drain(&mut p, &mut out, Ghost(fed));
        proof {
            frames_concat(all@);
            assert(out@.map_values(|b: BytesMut| b@) + frames(p.buf@) =~= out@.map_values(|b: BytesMut| b@));
        }
        out
    }
    fn vx_drain(p: &mut Packetizer, out: &mut Vec<BytesMut>, fed: Ghost<Seq<u8>>)
        requires
            old(p).wf(), tail(old(p).buf@) == tail(fed@),
            old(out)@.map_values(|b: BytesMut| b@) + frames(old(p).buf@) == frames(fed@),
        ensures
            final(p).wf(), tail(final(p).buf@) == tail(fed@), frames(final(p).buf@) == Seq::<Seq<u8>>::empty(),
            final(out)@.map_values(|b: BytesMut| b@) + frames(final(p).buf@) == frames(fed@),
    {
        loop
            invariant
                p.wf(), tail(p.buf@) == tail(fed@),
                out@.map_values(|b: BytesMut| b@) + frames(p.buf@) == frames(fed@),
            ensures frames(p.buf@) == Seq::<Seq<u8>>::empty(),
            decreases p.buf@.len()
        {
            let ghost b0 = p.buf@;
            let ghost o0 = out@.map_values(|b: BytesMut| b@);
            match p.next_message() {
                Some(m) => {
                    out.push(m);
                    proof {
                        assert(out@.map_values(|b: BytesMut| b@) =~= o0.push(frame(b0)));
                        assert(o0.push(frame(b0)) + frames(rest(b0)) =~= o0 + frames(b0));
                    }
                }
                None => break,
            }
        }
    }
source core/src/tokio.rs
only TokioTransport TokioTransportError INITIAL_CAPACITY BACKPRESSURE_BOUNDARY
inherent impl AsyncTransport for TokioTransport<T>
types
    fn poll_flush() -> Poll<()> {}
    fn poll_write() -> Poll<()> {}
    fn poll_read() -> Poll<()> {}
post
    impl<T: AsyncRead + AsyncWrite> TokioTransport<T> {
        /// every byte of every accepted message, written or still to be written
        pub open spec fn sent(self) -> Seq<u8> { self.io.tx() + self.write_buf@ }
        pub open spec fn wf(self) -> bool { self.packetizer.wf() }
        /// bytes received since `o`
        pub open spec fn news(self, o: Self) -> Seq<u8> { self.io.rx().skip(o.io.rx().len() as int) }
        pub open spec fn rx_grew(self, o: Self) -> bool { self.io.rx().len() >= o.io.rx().len() && self.io.rx().take(o.io.rx().len() as int) == o.io.rx() }
        pub open spec fn tx_same(self, o: Self) -> bool { self.io.tx() == o.io.tx() && self.write_buf@ == o.write_buf@ && self.io.flushed() == o.io.flushed() && self.io.stuck() == o.io.stuck() }
        pub open spec fn rx_same(self, o: Self) -> bool { self.io.rx() == o.io.rx() && self.packetizer == o.packetizer && self.io.eof() == o.io.eof() }
    }
fn TokioTransport::new
    ensures
        r.io == io, r.packetizer.buf@.len() == 0, r.packetizer.wf(), r.write_buf@.len() == 0, //@C14
fn TokioTransport::receive_poll
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).tx_same(*old(self)), final(self).rx_grew(*old(self)), //@C14
        // a result comes from the first frame of what was buffered and read, and nothing else is consumed
        (r matches Poll::Ready(x) && !(x matches Err(TokioTransportError::Io(_)))) ==> ({
            let s = old(self).packetizer.buf@ + final(self).news(*old(self));
            &&& complete(s)
            &&& final(self).packetizer.buf@ == rest(s)
            &&& (r->Ready_0 is Ok <==> vx_de(frame(s)) is Ok)
            &&& (r->Ready_0 is Ok ==> r->Ready_0->Ok_0 == vx_de(frame(s))->Ok_0)
            &&& (r->Ready_0 is Err ==> r->Ready_0->Err_0 == TokioTransportError::Deserialize(vx_de(frame(s))->Err_0))
        }), //@C14
        // otherwise no frame was complete and nothing is lost
        (r is Pending || (r matches Poll::Ready(Err(TokioTransportError::Io(_))))) ==> ({
            let s = old(self).packetizer.buf@ + final(self).news(*old(self));
            !complete(s) && final(self).packetizer.buf@ == s
        }), //@C14
        // a frame that is already there is returned without further input
        complete(old(self).packetizer.buf@) ==> final(self).io.rx() == old(self).io.rx() && r is Ready, //@C14
        // the end of the stream is an error
        final(self).io.eof() && !old(self).io.eof() ==> (r matches Poll::Ready(Err(TokioTransportError::Io(e))) && e.kind_spec() == IoErrorKind::UnexpectedEof), //@C14
        r is Pending ==> final(self).io.waiting(), //@C14
fn TokioTransport::send_poll_ready
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).rx_same(*old(self)), //@C14
        final(self).sent() == old(self).sent(), final(self).io.tx().len() >= old(self).io.tx().len(), //@C14
        final(self).io.stuck() && !old(self).io.stuck() ==> (r matches Poll::Ready(Err(TokioTransportError::Io(e))) && e.kind_spec() == IoErrorKind::WriteZero), //@C14
        r is Pending ==> final(self).io.waiting(), //@C14
fn TokioTransport::send_start
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).rx_same(*old(self)), final(self).io == old(self).io, //@C14
        (r is Ok) <==> vx_ser(msg) is Ok, //@C14
        r is Ok ==> final(self).sent() == old(self).sent() + vx_ser(msg)->Ok_0, //@C14
        r is Err ==> final(self).sent() == old(self).sent() && r->Err_0 == TokioTransportError::Serialize(vx_ser(msg)->Err_0), //@C14
fn TokioTransport::send_poll_flush
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).rx_same(*old(self)), //@C14
        final(self).sent() == old(self).sent(), final(self).io.tx().len() >= old(self).io.tx().len(), //@C14
        // a flush only returns once everything has been written and flushed
        (r matches Poll::Ready(Ok(_))) ==> final(self).write_buf@.len() == 0 && final(self).io.flushed() == final(self).io.tx().len(), //@C14
        final(self).io.stuck() && !old(self).io.stuck() ==> (r matches Poll::Ready(Err(TokioTransportError::Io(e))) && e.kind_spec() == IoErrorKind::WriteZero), //@C14
        r is Pending ==> final(self).io.waiting(), //@C14
loop TokioTransport::receive_poll 0
    invariant
        self.wf(), self.tx_same(*old(self)), self.rx_grew(*old(self)),
        self.packetizer.buf@ == old(self).packetizer.buf@ + self.news(*old(self)),
        self.io.eof() == old(self).io.eof(),
        complete(old(self).packetizer.buf@) ==> self.io.rx() == old(self).io.rx(),
    decreases (if complete(self.packetizer.buf@) { 0int } else { 0x1_0000_0000 - self.packetizer.buf@.len() })
loop TokioTransport::send_poll_flush 0
    invariant
        self.wf(), self.rx_same(*old(self)), self.sent() == old(self).sent(), self.io.tx().len() >= old(self).io.tx().len(),
        self.io.stuck() == old(self).io.stuck(),
    decreases self.write_buf@.len()
source core/src/transport.rs
only =AsyncTransport Receive Send Flush SendFlush SendFlushInner
keep impl AsyncTransport for Box<T>
keep impl AsyncTransport for &mutT
inherent impl Future for Receive<'_,T>
inherent impl Future for Send<'_,T>
inherent impl Future for Flush<'_,T>
inherent impl Future for SendFlush<'_,T>
subst receive_poll_unpin( => receive_poll(
subst send_poll_ready_unpin( => send_poll_ready(
subst send_start_unpin( => send_start(
subst send_poll_flush_unpin( => send_poll_flush(
implspec trait AsyncTransport
    /// messages accepted so far, how many of them were flushed, results handed out so far
    spec fn sent(&self) -> Seq<Message>;
    spec fn flushed(&self) -> int;
    spec fn received(&self) -> int;
    spec fn ready(&self) -> bool;
    spec fn waiting(&self) -> bool;
fn AsyncTransport::receive_poll
    ensures
        final(self).sent() == old(self).sent(), final(self).flushed() == old(self).flushed(), final(self).ready() == old(self).ready(), //@C14
        final(self).received() == old(self).received() + (if r matches Poll::Ready(Ok(_)) { 1int } else { 0int }), //@C14
        r is Pending ==> final(self).waiting(), //@C14
fn AsyncTransport::send_poll_ready
    ensures
        final(self).sent() == old(self).sent(), final(self).received() == old(self).received(), //@C14
        final(self).flushed() >= old(self).flushed(), //@C14
        (r matches Poll::Ready(Ok(_))) ==> final(self).ready(), //@C14
        r is Pending ==> final(self).waiting(), //@C14
fn AsyncTransport::send_start
    requires
        old(self).ready(), //@C14
    ensures
        final(self).received() == old(self).received(), final(self).flushed() >= old(self).flushed(), //@C14
        r is Ok ==> final(self).sent() == old(self).sent().push(msg), //@C14
fn AsyncTransport::send_poll_flush
    ensures
        final(self).sent() == old(self).sent(), final(self).received() == old(self).received(), //@C14
        final(self).flushed() >= old(self).flushed(), //@C14
        (r matches Poll::Ready(Ok(_))) ==> final(self).flushed() == final(self).sent().len(), //@C14
        r is Pending ==> final(self).waiting(), //@C14
implspec impl AsyncTransport for Box<T>
    open spec fn sent(&self) -> Seq<Message> { (**self).sent() }
    open spec fn flushed(&self) -> int { (**self).flushed() }
    open spec fn received(&self) -> int { (**self).received() }
    open spec fn ready(&self) -> bool { (**self).ready() }
    open spec fn waiting(&self) -> bool { (**self).waiting() }
implspec impl AsyncTransport for &mutT
    open spec fn sent(&self) -> Seq<Message> { (**self).sent() }
    open spec fn flushed(&self) -> int { (**self).flushed() }
    open spec fn received(&self) -> int { (**self).received() }
    open spec fn ready(&self) -> bool { (**self).ready() }
    open spec fn waiting(&self) -> bool { (**self).waiting() }
source core/src/transport/buffered.rs
only Buffered
inherent impl AsyncTransport for Buffered<T>
plain
    <BoxasAsyncTransport>::receive_poll <BoxasAsyncTransport>::send_poll_ready <BoxasAsyncTransport>::send_start <BoxasAsyncTransport>::send_poll_flush
    <&TasAsyncTransport>::receive_poll <&TasAsyncTransport>::send_poll_ready <&TasAsyncTransport>::send_start <&TasAsyncTransport>::send_poll_flush
fn Receive::poll
    ensures
        final(self).0.sent() == old(self).0.sent(), final(self).0.received() == old(self).0.received() + (if r matches Poll::Ready(Ok(_)) { 1int } else { 0int }), //@C14
        r is Pending ==> final(self).0.waiting(), //@C14
fn Send::poll
    requires old(self).msg is Some,
    ensures
        // accepted once, or kept until it can be
        (r matches Poll::Ready(Ok(_))) ==> final(self).t.sent() == old(self).t.sent().push(old(self).msg->0), //@C14
        r is Pending ==> final(self).t.sent() == old(self).t.sent() && final(self).msg == old(self).msg && final(self).t.waiting(), //@C14
        final(self).t.received() == old(self).t.received(), //@C14
fn Flush::poll
    ensures
        final(self).0.sent() == old(self).0.sent(), //@C14
        (r matches Poll::Ready(Ok(_))) ==> final(self).0.flushed() == final(self).0.sent().len(), //@C14
        r is Pending ==> final(self).0.waiting(), //@C14
post
    impl<'a, T: AsyncTransport> SendFlush<'a, T> {
        pub open spec fn tr(self) -> T { match self.0 { SendFlushInner::Send(s) => *s.t, SendFlushInner::Flush(f) => *f.0, SendFlushInner::None => arbitrary() } }
        /// what still has to be accepted
        pub open spec fn todo(self) -> Seq<Message> { match self.0 { SendFlushInner::Send(s) => seq![s.msg->0], _ => Seq::empty() } }
        pub open spec fn wf(self) -> bool { match self.0 { SendFlushInner::Send(s) => s.msg is Some, SendFlushInner::Flush(_) => true, SendFlushInner::None => false } }
    }
fn SendFlush::poll
    requires old(self).wf(),
    ensures
        (r matches Poll::Ready(Ok(_))) ==> final(self).wf() && final(self).tr().sent() == old(self).tr().sent() + old(self).todo() && final(self).tr().flushed() == final(self).tr().sent().len(), //@C14
        r is Pending ==> final(self).wf() && final(self).tr().sent() + final(self).todo() == old(self).tr().sent() + old(self).todo() && final(self).tr().waiting(), //@C14
fn Buffered::new
    ensures r.inner == inner, r.buffer@ == Seq::<Message>::empty(), //@C14
post
    impl<T: AsyncTransport> Buffered<T> {
        /// every accepted message, whether handed to the inner transport or not
        pub open spec fn sent(self) -> Seq<Message> { self.inner.sent() + self.buffer@ }
    }
fn Buffered::receive_poll
    ensures
        final(self).sent() == old(self).sent(), final(self).buffer@ == old(self).buffer@, //@C14
        final(self).inner.received() == old(self).inner.received() + (if r matches Poll::Ready(Ok(_)) { 1int } else { 0int }), //@C14
        r is Pending ==> final(self).inner.waiting(), //@C14
fn Buffered::send_poll_ready
    ensures
        final(self).sent() == old(self).sent(), final(self).inner.received() == old(self).inner.received(), //@C14
        r is Pending ==> final(self).inner.waiting(), //@C14
fn Buffered::send_start
    ensures
        r is Ok ==> final(self).sent() == old(self).sent().push(msg), //@C14
        final(self).inner.received() == old(self).inner.received(), //@C14
fn Buffered::send_poll_flush
    ensures
        (r matches Poll::Ready(Err(_))) || final(self).sent() == old(self).sent(), //@C14
        // a flush only returns once everything has been handed on and flushed
        (r matches Poll::Ready(Ok(_))) ==> final(self).buffer@.len() == 0 && final(self).inner.flushed() == final(self).sent().len(), //@C14
        final(self).inner.received() == old(self).inner.received(), //@C14
        r is Pending ==> final(self).inner.waiting(), //@C14
loop Buffered::send_poll_flush 0
    invariant
        self.sent() == old(self).sent(), self.inner.received() == old(self).inner.received(),
    decreases self.buffer@.len()
