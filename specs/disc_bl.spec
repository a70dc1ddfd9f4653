// Contracts of aldrin/src/bus_listener.rs (C19): which events a listener hands out
text
    #[derive(Clone, Copy, PartialEq, Eq, Structural)]
    pub enum Error { Shutdown, InvalidBusListener, BusListenerAlreadyStarted, BusListenerNotStarted, Other }
    // ---- assumed: what a listener has received so far is a sequence; what is still to come is counted
    pub struct UnboundedReceiver<T> { pub x: Ghost<Seq<T>> }
    pub uninterp spec fn vx_recv(r: UnboundedReceiver<BusListenerEvent>) -> Seq<BusListenerEvent>;
    /// the filters the current run of the listener was started with
    pub uninterp spec fn vx_filt(r: UnboundedReceiver<BusListenerEvent>) -> Set<BusListenerFilter>;
    /// started with the current objects and services included, and the filters have not been changed since
    pub uninterp spec fn vx_pure(r: UnboundedReceiver<BusListenerEvent>) -> bool;
    /// a listener has received this, while it ran with these filters
    pub uninterp spec fn vx_got(fs: Set<BusListenerFilter>, h: Seq<BusListenerEvent>) -> bool;
    /// the filters the broker has been told
    pub uninterp spec fn vx_reg(r: UnboundedReceiver<BusListenerEvent>) -> Set<BusListenerFilter>;
    pub uninterp spec fn vx_n_started(r: UnboundedReceiver<BusListenerEvent>) -> nat;
    pub uninterp spec fn vx_n_stopped(r: UnboundedReceiver<BusListenerEvent>) -> nat;
    pub uninterp spec fn vx_n_current(r: UnboundedReceiver<BusListenerEvent>) -> nat;
    /// the end of the stream was returned
    pub uninterp spec fn vx_over(r: UnboundedReceiver<BusListenerEvent>) -> bool;
post
    /// one poll of the stream
    pub open spec fn vx_polled(a: UnboundedReceiver<BusListenerEvent>, b: UnboundedReceiver<BusListenerEvent>, r: Poll<Option<BusListenerEvent>>) -> bool {
                        &&& vx_filt(b) == vx_filt(a) && vx_pure(b) == vx_pure(a) && vx_reg(b) == vx_reg(a)
        &&& match r {
                    Poll::Ready(Some(e)) => {
                        &&& vx_recv(b) == vx_recv(a).push(e) && vx_hist(vx_recv(b)) && !vx_over(b) && vx_got(vx_filt(b), vx_recv(b))
                        // C10: the events are those of the bus that match the filters
                        &&& vx_pure(a) ==> vx_deliverable(vx_filt(a), vx_recv(b))
                        &&& vx_n_started(a) == vx_n_started(b) + (if e is Started { 1nat } else { 0 })
                        &&& vx_n_stopped(a) == vx_n_stopped(b) + (if e is Stopped { 1nat } else { 0 })
                        &&& vx_n_current(a) == vx_n_current(b) + (if e is CurrentFinished { 1nat } else { 0 })
                    },
                    Poll::Ready(None) => vx_over(b) && vx_same_counts(a, b),
                    Poll::Pending => b == a,
                }
    }
    impl UnboundedReceiver<BusListenerEvent> {
        #[verifier::external_body]
        pub fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<BusListenerEvent>>)
            ensures vx_polled(*old(self), *final(self), r) { unimplemented!() }
        #[verifier::external_body]
        pub fn is_terminated(&self) -> (r: bool) ensures r == vx_over(*self) { unimplemented!() }
        #[verifier::external_body]
        pub fn close(&mut self)
            ensures vx_recv(*final(self)) == vx_recv(*old(self)), vx_n_started(*final(self)) == 0, vx_n_stopped(*final(self)) == 0, vx_n_current(*final(self)) == 0, vx_reg(*final(self)) == vx_reg(*old(self)) { unimplemented!() }
    }
    /// receiving goes from one phase to the next: a run that is stopped ends, and nothing follows it; e: an event of the run is received last
    pub open spec fn vx_phase(a: UnboundedReceiver<BusListenerEvent>, b: UnboundedReceiver<BusListenerEvent>, e: bool) -> bool {
        &&& vx_recv(b) == vx_recv(a) || vx_got(vx_filt(b), vx_recv(b))
        &&& vx_over(a) ==> !e && b == a
        &&& vx_drained(a) ==> !e && vx_drained(b) && vx_recv(b) == vx_recv(a)
        &&& vx_started(a) ==> vx_started(b) && (e ==> vx_quiet(vx_recv(a), vx_recv(b).drop_last(), false)) && (!e ==> vx_quiet(vx_recv(a), vx_recv(b), false))
        &&& vx_stopping(a) ==> vx_stopping(b) && (e ==> vx_quiet(vx_recv(a), vx_recv(b).drop_last(), false)) && (!e ==> vx_quiet(vx_recv(a), vx_recv(b), false))
            || !e && vx_drained(b)
    }
    pub open spec fn vx_same_counts(a: UnboundedReceiver<BusListenerEvent>, b: UnboundedReceiver<BusListenerEvent>) -> bool {
        vx_recv(a) == vx_recv(b) && vx_n_started(a) == vx_n_started(b) && vx_n_stopped(a) == vx_n_stopped(b) && vx_n_current(a) == vx_n_current(b)
    }
    /// no run of the listener has anything left to deliver
    pub open spec fn vx_drained(r: UnboundedReceiver<BusListenerEvent>) -> bool { vx_n_started(r) == 0 && vx_n_stopped(r) == 0 && vx_idle(vx_recv(r)) }
    /// a run is in progress or requested
    pub open spec fn vx_started(r: UnboundedReceiver<BusListenerEvent>) -> bool { vx_n_stopped(r) == 0 && vx_n_started(r) == (if vx_running(vx_recv(r)) { 0nat } else { 1 }) }
    /// the end of the run was requested or is already received
    pub open spec fn vx_stopping(r: UnboundedReceiver<BusListenerEvent>) -> bool { vx_n_stopped(r) == 1 && vx_n_started(r) == (if vx_running(vx_recv(r)) { 0nat } else { 1 }) }
    pub open spec fn vx_idle(h: Seq<BusListenerEvent>) -> bool { h.len() == 0 || h.last() is Stopped }
    pub open spec fn vx_running(h: Seq<BusListenerEvent>) -> bool decreases h.len() {
        if h.len() == 0 { false } else { match h.last() { BusListenerEvent::Started(_) => true, BusListenerEvent::Stopped => false, _ => vx_running(h.drop_last()) } }
    }
    /// a listener is started before it delivers anything, and again only after it was stopped
    pub open spec fn vx_hist(h: Seq<BusListenerEvent>) -> bool decreases h.len() {
        h.len() > 0 ==> vx_hist(h.drop_last()) && (vx_running(h.drop_last()) == !(h.last() is Started))
    }
    pub open spec fn vx_last_scope(h: Seq<BusListenerEvent>) -> Option<BusListenerScope> decreases h.len() {
        if h.len() == 0 { None } else { match h.last() { BusListenerEvent::Started(s) => Some(s), BusListenerEvent::Stopped => None, _ => vx_last_scope(h.drop_last()) } }
    }
    // ---- the bus as far as the filters can see it
    pub open spec fn vx_sees_o(fs: Set<BusListenerFilter>, u: ObjectUuid) -> bool { exists|f: BusListenerFilter| #[trigger] fs.contains(f) && f is Object && (f->Object_0 is None || f->Object_0 == Some(u)) }
    pub open spec fn vx_sees_s(fs: Set<BusListenerFilter>, u: ObjectUuid, s: ServiceUuid) -> bool {
        exists|f: BusListenerFilter| #[trigger] fs.contains(f) && f is Service && (f->Service_0.object is None || f->Service_0.object == Some(u)) && (f->Service_0.service is None || f->Service_0.service == Some(s))
    }
    pub open spec fn vx_matches(fs: Set<BusListenerFilter>, e: BusEvent) -> bool { exists|f: BusListenerFilter| #[trigger] fs.contains(f) && vx_filter_event(f, e) }
    pub open spec fn vx_agree(fs: Set<BusListenerFilter>, a: VxBus, b: VxBus) -> bool {
        &&& forall|u: ObjectUuid| #[trigger] vx_sees_o(fs, u) ==> a.has_obj(u) == b.has_obj(u) && (a.has_obj(u) ==> a.obj[u] == b.obj[u])
        &&& forall|u: ObjectUuid, s: ServiceUuid| #[trigger] vx_sees_s(fs, u, s) ==> a.has_svc(u, s) == b.has_svc(u, s) && (a.has_svc(u, s) ==> a.svc[(u, s)] == b.svc[(u, s)])
    }
    /// b is a bus that a listener with these filters can be looking at after it has received h: the current run starts from nothing, every event is a step of the bus,
    /// and in between the bus does whatever the filters do not see
    pub open spec fn vx_seen(fs: Set<BusListenerFilter>, h: Seq<BusListenerEvent>, b: VxBus) -> bool decreases h.len() {
        if h.len() == 0 { b.wf() && vx_agree(fs, VxBus::empty(), b) }
        else {
            match h.last() {
                BusListenerEvent::Started(_) => b.wf() && vx_agree(fs, VxBus::empty(), b),
                BusListenerEvent::Stopped => b.wf() && vx_agree(fs, VxBus::empty(), b),
                BusListenerEvent::CurrentFinished => vx_seen(fs, h.drop_last(), b),
                BusListenerEvent::Event(e) => vx_matches(fs, e) && b.wf() && exists|a: VxBus| vx_seen(fs, h.drop_last(), a) && #[trigger] a.legal(e) && vx_agree(fs, a.step(e), b),
            }
        }
    }
    pub open spec fn vx_deliverable(fs: Set<BusListenerFilter>, h: Seq<BusListenerEvent>) -> bool { exists|b: VxBus| vx_seen(fs, h, b) }
    /// h extended by anything but events; if stops is false, also not by a stop
    pub open spec fn vx_quiet(h: Seq<BusListenerEvent>, k: Seq<BusListenerEvent>, stops: bool) -> bool decreases k.len() {
        k == h || (k.len() > h.len() && !(k.last() is Event) && (stops || !(k.last() is Stopped)) && vx_quiet(h, k.drop_last(), stops))
    }
    pub proof fn seen_wf(fs: Set<BusListenerFilter>, h: Seq<BusListenerEvent>, b: VxBus)
        requires vx_seen(fs, h, b)
        ensures b.wf()
        decreases h.len()
    { if h.len() > 0 && h.last() is CurrentFinished { seen_wf(fs, h.drop_last(), b); } }
    pub proof fn idle_hist(h: Seq<BusListenerEvent>)
        requires vx_hist(h), !vx_running(h)
        ensures vx_idle(h)
    { }
    /// starting and finishing the current objects does not change what can be seen
    pub proof fn quiet_seen(fs: Set<BusListenerFilter>, h: Seq<BusListenerEvent>, k: Seq<BusListenerEvent>, b: VxBus)
        requires vx_quiet(h, k, false), vx_hist(k) || k == h
        ensures vx_seen(fs, k, b) == vx_seen(fs, h, b) //@C19
        decreases k.len()
    {
        if k != h {
            quiet_seen(fs, h, k.drop_last(), b);
            if k.last() is Started { idle_hist(k.drop_last()); }
        }
    }
    pub proof fn quiet_trans(h: Seq<BusListenerEvent>, k: Seq<BusListenerEvent>, e: BusListenerEvent, stops: bool)
        requires vx_quiet(h, k, stops), !(e is Event), stops || !(e is Stopped)
        ensures vx_quiet(h, k.push(e), stops)
    { assert(k.push(e).drop_last() =~= k); quiet_len(h, k, stops); }
    pub proof fn quiet_len(h: Seq<BusListenerEvent>, k: Seq<BusListenerEvent>, stops: bool)
        requires vx_quiet(h, k, stops) ensures k.len() >= h.len() decreases k.len()
    { if k != h { quiet_len(h, k.drop_last(), stops); } }
    pub proof fn quiet_chain(h: Seq<BusListenerEvent>, k: Seq<BusListenerEvent>, m: Seq<BusListenerEvent>, a: bool, b: bool)
        requires vx_quiet(h, k, a), vx_quiet(k, m, b), b ==> a
        ensures vx_quiet(h, m, a)
        decreases m.len()
    { if m != k { quiet_chain(h, k, m.drop_last(), a, b); quiet_len(h, k, a); quiet_len(k, m, b); } }
    /// what was received up to the last event, or all of it
    pub open spec fn vx_upto(r: UnboundedReceiver<BusListenerEvent>, e: bool) -> Seq<BusListenerEvent> { if e { vx_recv(r).drop_last() } else { vx_recv(r) } }
    pub proof fn phase_chain(a: UnboundedReceiver<BusListenerEvent>, b: UnboundedReceiver<BusListenerEvent>, c: UnboundedReceiver<BusListenerEvent>, e: bool)
        requires vx_phase(a, b, false), vx_quiet(vx_recv(a), vx_recv(b), vx_n_stopped(a) > 0), vx_n_stopped(b) <= vx_n_stopped(a), vx_filt(c) == vx_filt(b), vx_pure(b) == vx_pure(a),
            vx_phase(b, c, e), vx_quiet(vx_recv(b), vx_upto(c, e), vx_n_stopped(b) > 0)
        ensures vx_phase(a, c, e), vx_quiet(vx_recv(a), vx_upto(c, e), vx_n_stopped(a) > 0)
    {
        quiet_chain(vx_recv(a), vx_recv(b), vx_upto(c, e), vx_n_stopped(a) > 0, vx_n_stopped(b) > 0);
        if vx_quiet(vx_recv(a), vx_recv(b), false) && vx_quiet(vx_recv(b), vx_upto(c, e), false) { quiet_chain(vx_recv(a), vx_recv(b), vx_upto(c, e), false, false); }
    }
    // ---- assumed: what the client's requests do to the listener's stream (client.rs, broker)
    pub struct Handle { pub x: u8 }
    impl Handle {
        #[verifier::external_body]
        pub fn add_bus_listener_filter(&self, cookie: BusListenerCookie, filter: BusListenerFilter, ev: &mut UnboundedReceiver<BusListenerEvent>) -> (r: Result<(), Error>)
            ensures vx_same_counts(*old(ev), *final(ev)), vx_reg(*final(ev)) == vx_reg(*old(ev)).insert(filter), vx_over(*final(ev)) == vx_over(*old(ev)) { unimplemented!() }
        #[verifier::external_body]
        pub fn remove_bus_listener_filter(&self, cookie: BusListenerCookie, filter: BusListenerFilter, ev: &mut UnboundedReceiver<BusListenerEvent>) -> (r: Result<(), Error>)
            ensures vx_same_counts(*old(ev), *final(ev)), vx_reg(*final(ev)) == vx_reg(*old(ev)).remove(filter), vx_over(*final(ev)) == vx_over(*old(ev)) { unimplemented!() }
        #[verifier::external_body]
        pub fn clear_bus_listener_filters(&self, cookie: BusListenerCookie, ev: &mut UnboundedReceiver<BusListenerEvent>) -> (r: Result<(), Error>)
            ensures vx_same_counts(*old(ev), *final(ev)), vx_reg(*final(ev)) == Set::<BusListenerFilter>::empty(), vx_over(*final(ev)) == vx_over(*old(ev)) { unimplemented!() }
        #[verifier::external_body]
        pub fn start_bus_listener(&self, cookie: BusListenerCookie, scope: BusListenerScope, ev: &mut UnboundedReceiver<BusListenerEvent>) -> (r: Result<(), Error>)
            ensures
                r is Err ==> *final(ev) == *old(ev), vx_reg(*final(ev)) == vx_reg(*old(ev)),
                r is Ok ==> {
                    &&& vx_recv(*final(ev)) == vx_recv(*old(ev)) && vx_over(*final(ev)) == vx_over(*old(ev)) && vx_n_stopped(*final(ev)) == vx_n_stopped(*old(ev))
                    &&& vx_n_started(*final(ev)) == vx_n_started(*old(ev)) + 1 && vx_n_started(*final(ev)) < usize::MAX
                    &&& vx_n_current(*final(ev)) == vx_n_current(*old(ev)) + (if scope is New { 0nat } else { 1 }) && vx_n_current(*final(ev)) < usize::MAX
                    &&& vx_drained(*old(ev)) && !(scope is New) ==> vx_pure(*final(ev)) && vx_filt(*final(ev)) == vx_reg(*old(ev))
                    // C10: a listener that runs is not started again
                    &&& !vx_started(*old(ev)) && !vx_over(*old(ev))
                } { unimplemented!() }
        #[verifier::external_body]
        pub fn stop_bus_listener(&self, cookie: BusListenerCookie, ev: &mut UnboundedReceiver<BusListenerEvent>) -> (r: Result<(), Error>)
            ensures
                r is Err ==> *final(ev) == *old(ev), vx_reg(*final(ev)) == vx_reg(*old(ev)),
                r is Ok ==> {
                    &&& vx_recv(*final(ev)) == vx_recv(*old(ev)) && vx_over(*final(ev)) == vx_over(*old(ev)) && vx_n_started(*final(ev)) == vx_n_started(*old(ev))
                    &&& vx_n_stopped(*final(ev)) == vx_n_stopped(*old(ev)) + 1 && vx_n_stopped(*final(ev)) < usize::MAX
                    // C10: a listener that does not run is not stopped
                    &&& !vx_drained(*old(ev)) && !vx_stopping(*old(ev)) && !vx_over(*old(ev))
                    &&& vx_n_current(*final(ev)) == vx_n_current(*old(ev)) && vx_pure(*final(ev)) == vx_pure(*old(ev)) && vx_filt(*final(ev)) == vx_filt(*old(ev))
                } { unimplemented!() }
        #[verifier::external_body]
        pub fn create_bus_listener(&self) -> (r: Result<BusListener, Error>)
            ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.filters@ == Set::<BusListenerFilter>::empty() && vx_recv(r->Ok_0.events).len() == 0 && vx_drained(r->Ok_0.events) && vx_n_current(r->Ok_0.events) == 0 && !vx_over(r->Ok_0.events) && vx_reg(r->Ok_0.events) == Set::<BusListenerFilter>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn destroy_bus_listener(&self, cookie: BusListenerCookie) -> (r: Result<(), Error>) { unimplemented!() }
    }
    impl BusListener {
        pub open spec fn wf(self) -> bool {
            &&& self.pending_started == vx_n_started(self.events) && self.pending_stopped == vx_n_stopped(self.events) && self.pending_current_finished == vx_n_current(self.events)
            &&& self.scope == vx_last_scope(vx_recv(self.events)) && vx_hist(vx_recv(self.events))
            // the broker knows the filters
            &&& self.filters@ =~= vx_reg(self.events)
        }
        /// nothing more will come from what was started
        pub open spec fn done(self) -> bool {
            vx_over(self.events) || (!(self.scope is Some && !(self.scope->0 is Current)) && vx_n_started(self.events) == 0 && vx_n_stopped(self.events) == 0 && vx_n_current(self.events) == 0)
        }
        /// same run, same filters
        pub open spec fn same_run(self, o: Self) -> bool {
            self.filters == o.filters && vx_filt(self.events) == vx_filt(o.events) && vx_pure(self.events) == vx_pure(o.events) && vx_n_stopped(self.events) <= vx_n_stopped(o.events) && vx_n_started(self.events) <= vx_n_started(o.events)
        }
    }
addarg BusListener::add_filter add_bus_listener_filter &mut self.events
addarg BusListener::remove_filter remove_bus_listener_filter &mut self.events
addarg BusListener::clear_filters clear_bus_listener_filters &mut self.events
addarg BusListener::start start_bus_listener &mut self.events
addarg BusListener::stop stop_bus_listener &mut self.events
source aldrin/src/bus_listener.rs
srcsubst future::poll_fn(|cx| self.poll_next_event(cx)).await => { let mut vx_cx = vx_context(); let cx = &mut vx_cx; let vx_v: Option<BusEvent>; loop { if let Poll::Ready(vx_r) = self.poll_next_event(cx) { vx_v = vx_r; break; } } vx_v }
only =BusListener BusListener BusListenerEvent
skip BusListener::new BusListener::filters BusListenerHandle
derive BusListenerEvent Clone, Copy
fn BusListener::new_impl
    requires vx_recv(events).len() == 0, vx_n_started(events) == 0, vx_n_stopped(events) == 0, vx_n_current(events) == 0, vx_reg(events) == Set::<BusListenerFilter>::empty(), //@C19
    ensures r.wf(), r.events == events, r.filters@ == Set::<BusListenerFilter>::empty(), //@C19
fn BusListener::client
    ensures *r == self.client, //@C19
fn BusListener::destroy
    requires old(self).wf(), //@C19
    ensures final(self).wf(), r is Err ==> *final(self) == *old(self), //@C19
fn BusListener::add_filter
    requires old(self).wf(), //@C19
    ensures final(self).wf(), vx_same_counts(old(self).events, final(self).events), vx_over(final(self).events) == vx_over(old(self).events), final(self).filters@ == old(self).filters@.insert(filter), //@C19
fn BusListener::remove_filter
    requires old(self).wf(), //@C19
    ensures final(self).wf(), vx_same_counts(old(self).events, final(self).events), final(self).filters@ == old(self).filters@.remove(filter), //@C19
fn BusListener::clear_filters
    requires old(self).wf(), //@C19
    ensures final(self).wf(), vx_same_counts(old(self).events, final(self).events), final(self).filters@ =~= Set::<BusListenerFilter>::empty(), //@C19
fn BusListener::has_filter
    ensures r == self.filters@.contains(filter), //@C19
fn BusListener::has_any_filters
    ensures r == !(self.filters@ =~= Set::<BusListenerFilter>::empty()), //@C19
fn BusListener::has_no_filters
    ensures r == (self.filters@ =~= Set::<BusListenerFilter>::empty()), //@C19
fn BusListener::num_filters
    ensures r == self.filters@.len(), //@C19
fn BusListener::start
    requires old(self).wf(), //@C19
    ensures final(self).wf(), final(self).filters == old(self).filters, r is Err ==> *final(self) == *old(self), //@C19
        r is Ok ==> vx_recv(final(self).events) == vx_recv(old(self).events) && vx_n_stopped(final(self).events) == vx_n_stopped(old(self).events) && vx_over(final(self).events) == vx_over(old(self).events), //@C19
        r is Ok ==> vx_n_started(final(self).events) == vx_n_started(old(self).events) + 1 && !vx_over(old(self).events) && !vx_started(old(self).events), //@C19
        // from here on the events are those of the bus that match the filters
        r is Ok && vx_drained(old(self).events) && !(scope is New) ==> vx_pure(final(self).events) && vx_filt(final(self).events) == old(self).filters@, //@C19
fn BusListener::stop
    requires old(self).wf(), //@C19
    ensures final(self).wf(), final(self).filters == old(self).filters, r is Err ==> *final(self) == *old(self), //@C19
        r is Ok ==> vx_recv(final(self).events) == vx_recv(old(self).events) && vx_n_stopped(final(self).events) == vx_n_stopped(old(self).events) + 1 && vx_n_started(final(self).events) == vx_n_started(old(self).events), //@C19
        r is Ok ==> !vx_over(old(self).events) && !vx_drained(old(self).events) && !vx_stopping(old(self).events), //@C19
        r is Ok ==> vx_pure(final(self).events) == vx_pure(old(self).events) && vx_filt(final(self).events) == vx_filt(old(self).events) && vx_over(final(self).events) == vx_over(old(self).events), //@C19
fn BusListener::scope
    ensures r == self.scope, //@C19
fn BusListener::is_finished
    requires self.wf(), //@C19
    ensures r == self.done(), //@C19
fn BusListener::includes_new
    ensures r == (self.scope is Some && !(self.scope->0 is Current)), //@C19
fn BusListener::poll_next_event verifier::exec_allows_no_decreases_clause
    requires old(self).wf(), //@C19
    ensures final(self).wf(), final(self).same_run(*old(self)), vx_phase(old(self).events, final(self).events, r is Ready && r->Ready_0 is Some), //@C19
        // every event is handed out exactly once and in order; the end only when nothing is left
        match r { //@C19
            Poll::Ready(Some(e)) => {
                &&& vx_recv(final(self).events).len() > 0 && vx_recv(final(self).events).last() == BusListenerEvent::Event(e)
                &&& vx_quiet(vx_recv(old(self).events), vx_recv(final(self).events).drop_last(), vx_n_stopped(old(self).events) > 0)
                &&& vx_pure(old(self).events) ==> vx_deliverable(vx_filt(old(self).events), vx_recv(final(self).events))
            },
            Poll::Ready(None) => final(self).done() && vx_quiet(vx_recv(old(self).events), vx_recv(final(self).events), vx_n_stopped(old(self).events) > 0),
            Poll::Pending => !final(self).done() && vx_quiet(vx_recv(old(self).events), vx_recv(final(self).events), vx_n_stopped(old(self).events) > 0),
        },
loop BusListener::poll_next_event 0
    invariant self.wf(), self.same_run(*old(self)), vx_phase(old(self).events, self.events, false), vx_quiet(vx_recv(old(self).events), vx_recv(self.events), vx_n_stopped(old(self).events) > 0),
hint BusListener::poll_next_event loop0.start
    let ghost vx_h = vx_recv(self.events);
    proof { assert forall|e: BusListenerEvent| #[trigger] vx_h.push(e).drop_last() =~= vx_h by {}
        assert forall|e: BusListenerEvent| !(e is Event) && (vx_n_stopped(old(self).events) > 0 || !(e is Stopped)) implies vx_quiet(vx_recv(old(self).events), #[trigger] vx_h.push(e), vx_n_stopped(old(self).events) > 0) by { quiet_trans(vx_recv(old(self).events), vx_h, e, vx_n_stopped(old(self).events) > 0); } }
fn BusListener::next_event verifier::exec_allows_no_decreases_clause
    requires old(self).wf(), //@C19
    ensures final(self).wf(), final(self).same_run(*old(self)), vx_phase(old(self).events, final(self).events, r is Some), //@C19
        match r { //@C19
            Some(e) => {
                &&& vx_recv(final(self).events).len() > 0 && vx_recv(final(self).events).last() == BusListenerEvent::Event(e)
                &&& vx_quiet(vx_recv(old(self).events), vx_recv(final(self).events).drop_last(), vx_n_stopped(old(self).events) > 0)
                &&& vx_pure(old(self).events) ==> vx_deliverable(vx_filt(old(self).events), vx_recv(final(self).events))
            },
            None => final(self).done() && vx_quiet(vx_recv(old(self).events), vx_recv(final(self).events), vx_n_stopped(old(self).events) > 0),
        },
loop BusListener::next_event 0
    invariant_except_break vx_phase(old(self).events, self.events, false), vx_quiet(vx_recv(old(self).events), vx_recv(self.events), vx_n_stopped(old(self).events) > 0),
    invariant self.wf(), self.same_run(*old(self)),
    ensures
        vx_phase(old(self).events, self.events, vx_v is Some),
        match vx_v {
            Some(e) => {
                &&& vx_recv(self.events).len() > 0 && vx_recv(self.events).last() == BusListenerEvent::Event(e)
                &&& vx_quiet(vx_recv(old(self).events), vx_recv(self.events).drop_last(), vx_n_stopped(old(self).events) > 0)
                &&& vx_pure(old(self).events) ==> vx_deliverable(vx_filt(old(self).events), vx_recv(self.events))
            },
            None => self.done() && vx_quiet(vx_recv(old(self).events), vx_recv(self.events), vx_n_stopped(old(self).events) > 0),
        },
hint BusListener::next_event loop0.start
    let ghost vx_s = self.events;
    proof { assert forall|c: UnboundedReceiver<BusListenerEvent>, e: bool| vx_filt(c) == vx_filt(vx_s) && #[trigger] vx_phase(vx_s, c, e) && vx_quiet(vx_recv(vx_s), vx_upto(c, e), vx_n_stopped(vx_s) > 0) implies vx_phase(old(self).events, c, e) && vx_quiet(vx_recv(old(self).events), vx_upto(c, e), vx_n_stopped(old(self).events) > 0) by { phase_chain(old(self).events, vx_s, c, e); } }
