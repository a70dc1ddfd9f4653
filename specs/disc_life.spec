// Contracts of aldrin/src/lifetime.rs (C19): a lifetime ends when the object with its id is no longer there
post
    pub open spec fn vx_watched(uuid: ObjectUuid) -> Set<BusListenerFilter> { Set::<BusListenerFilter>::empty().insert(BusListenerFilter::Object(Some(uuid))) }
    /// the objects that existed when the run was started have all been received
    pub open spec fn vx_counted(h: Seq<BusListenerEvent>) -> bool decreases h.len() {
        h.len() > 0 && match h.last() { BusListenerEvent::CurrentFinished => true, BusListenerEvent::Event(_) => vx_counted(h.drop_last()), _ => false }
    }
    pub open spec fn vx_alive(b: VxBus, id: LifetimeId) -> bool { b.has_obj(id.0.uuid) && b.obj[id.0.uuid] == id.0.cookie }
    /// what was received says that the object is not there: it does not exist (any more), or another one has its uuid
    pub open spec fn vx_says_gone(h: Seq<BusListenerEvent>, id: LifetimeId) -> bool {
        &&& vx_got(vx_watched(id.0.uuid), h) && (h.last() is Event || vx_counted(h))
        &&& vx_deliverable(vx_watched(id.0.uuid), h) && forall|b: VxBus| #[trigger] vx_seen(vx_watched(id.0.uuid), h, b) ==> !vx_alive(b, id)
    }
    pub open spec fn vx_end_of(fs: Set<BusListenerFilter>, l: UnboundedReceiver<BusListenerEvent>) -> bool { vx_filt(l) == fs && vx_over(l) }
    impl LifetimeListener {
        pub open spec fn watches(self, uuid: ObjectUuid) -> bool {
            &&& vx_hist(vx_recv(self.events)) && vx_started(self.events) && vx_n_stopped(self.events) == 0 && vx_pure(self.events) && vx_filt(self.events) == vx_watched(uuid)
            &&& vx_idle(vx_recv(self.events)) || vx_deliverable(vx_watched(uuid), vx_recv(self.events))
        }
    }
    impl Lifetime {
        pub open spec fn wf(self) -> bool {
            self.listener is Some ==> self.listener->0.watches(self.id.0.uuid) && vx_tells(self.id, self.found, vx_recv(self.listener->0.events))
        }
    }
    /// found says whether the object is there; once all current objects are known it is
    pub open spec fn vx_tells(id: LifetimeId, found: bool, h: Seq<BusListenerEvent>) -> bool {
        &&& forall|b: VxBus| #[trigger] vx_seen(vx_watched(id.0.uuid), h, b) ==> found == vx_alive(b, id)
        &&& vx_counted(h) ==> found
    }
    impl Handle {
        #[verifier::external_body]
        pub fn create_lifetime_listener(&self) -> (r: Result<LifetimeListener, Error>)
            ensures r is Ok ==> vx_recv(r->Ok_0.events).len() == 0 && vx_drained(r->Ok_0.events) && !vx_over(r->Ok_0.events) && vx_reg(r->Ok_0.events) == Set::<BusListenerFilter>::empty() { unimplemented!() }
    }
    pub proof fn watched_agree(uuid: ObjectUuid, a: VxBus, b: VxBus)
        requires vx_agree(vx_watched(uuid), a, b)
        ensures a.has_obj(uuid) == b.has_obj(uuid), a.has_obj(uuid) ==> a.obj[uuid] == b.obj[uuid] //@C19
    { let f = BusListenerFilter::Object(Some(uuid)); assert(vx_watched(uuid).contains(f)); assert(vx_sees_o(vx_watched(uuid), uuid)); }
    /// what an event tells about the watched object
    pub proof fn watched_event(uuid: ObjectUuid, h: Seq<BusListenerEvent>, e: BusEvent)
        requires h.len() > 0, h.last() == BusListenerEvent::Event(e), vx_deliverable(vx_watched(uuid), h)
        ensures
            match e { //@C19
                BusEvent::ObjectCreated(i) => i.uuid == uuid && forall|b: VxBus| #[trigger] vx_seen(vx_watched(uuid), h, b) ==> b.has_obj(uuid) && b.obj[uuid] == i.cookie,
                BusEvent::ObjectDestroyed(i) => i.uuid == uuid && forall|b: VxBus| #[trigger] vx_seen(vx_watched(uuid), h, b) ==> !b.has_obj(uuid),
                _ => false,
            },
    {
        let fs = vx_watched(uuid);
        let b0 = choose|b: VxBus| vx_seen(fs, h, b);
        let f0 = choose|f: BusListenerFilter| #[trigger] fs.contains(f) && vx_filter_event(f, e);
        assert(f0 == BusListenerFilter::Object(Some(uuid)));
        assert forall|b: VxBus| #[trigger] vx_seen(fs, h, b) implies (match e { BusEvent::ObjectCreated(i) => b.has_obj(uuid) && b.obj[uuid] == i.cookie, BusEvent::ObjectDestroyed(i) => !b.has_obj(uuid), _ => false }) by {
            let a = seen_event(fs, h, e, b); watched_agree(uuid, a.step(e), b);
        }
    }
subst let Some(ref mut listener) = self.listener else => let Some(listener) = &mut self.listener else
subst let listener = client.create_lifetime_listener => let mut listener = client.create_lifetime_listener
source aldrin/src/lifetime.rs
only =LifetimeId LifetimeId::bind =Lifetime Lifetime =LifetimeListener LifetimeListener
derive LifetimeId Clone, Copy, PartialEq, Eq, Structural
addarg LifetimeListener::start add_bus_listener_filter &mut self.events
addarg LifetimeListener::start start_bus_listener &mut self.events
fn LifetimeListener::new
    ensures r.cookie == cookie, r.events == events, //@C19
fn LifetimeListener::client
    ensures *r == self.client, //@C19
fn LifetimeListener::start
    @sig fn start(&mut self, uuid: ObjectUuid) -> (r: Result<(), Error>)
    requires vx_recv(old(self).events).len() == 0, vx_drained(old(self).events), vx_reg(old(self).events) == Set::<BusListenerFilter>::empty(), //@C19
    ensures r is Ok ==> final(self).watches(uuid) && vx_recv(final(self).events).len() == 0, //@C19
fn LifetimeListener::poll_next_event
    ensures vx_polled(old(self).events, final(self).events, r), //@C19
fn Lifetime::new
    ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.listener is Some && r->Ok_0.id == id, //@C19
hint Lifetime::new end
    proof { assert forall|b: VxBus| vx_agree(vx_watched(id.0.uuid), VxBus::empty(), b) implies !(#[trigger] b.has_obj(id.0.uuid)) by { watched_agree(id.0.uuid, VxBus::empty(), b); } }
fn LifetimeId::bind
    ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.listener is Some && r->Ok_0.id == self, //@C19
fn Lifetime::id
    ensures r == self.id, //@C19
fn Lifetime::has_ended
    ensures r == (self.listener is None), //@C19
fn Lifetime::poll_ended verifier::exec_allows_no_decreases_clause verifier::loop_isolation(false) verifier::allow_complex_invariants
    requires old(self).wf(), //@C19
    ensures final(self).wf(), final(self).id == old(self).id, r is Ready <==> final(self).listener is None, //@C19
        // it has ended only if the object is not there, or if the client is no longer connected
        r is Ready && old(self).listener is Some ==> (exists|h: Seq<BusListenerEvent>| #[trigger] vx_says_gone(h, old(self).id)) || (exists|l: UnboundedReceiver<BusListenerEvent>| #[trigger] vx_end_of(vx_watched(old(self).id.0.uuid), l)), //@C19
        // it has not ended: the object is there, or that is not known yet
        r is Pending ==> forall|b: VxBus| vx_counted(vx_recv(final(self).listener->0.events)) && #[trigger] vx_seen(vx_watched(old(self).id.0.uuid), vx_recv(final(self).listener->0.events), b) ==> vx_alive(b, old(self).id), //@C19
loop Lifetime::poll_ended 0
    invariant_except_break listener.watches(vx_id.0.uuid), vx_tells(vx_id, self.found, vx_recv(listener.events)),
    invariant vx_id == old(self).id, self.id == vx_id,
    ensures vx_says_gone(vx_recv(listener.events), vx_id) || vx_end_of(vx_watched(vx_id.0.uuid), listener.events),
hint Lifetime::poll_ended loop0.before
    let ghost vx_id = self.id;
hint Lifetime::poll_ended loop0.start
    let ghost vx_h0 = vx_recv(listener.events);
    proof {
        if !vx_running(vx_h0) { idle_hist(vx_h0); }
        assert(VxBus::empty().wf()); if vx_idle(vx_h0) { assert(vx_seen(vx_watched(vx_id.0.uuid), vx_h0, VxBus::empty())); }
        assert(vx_h0.push(BusListenerEvent::CurrentFinished).drop_last() =~= vx_h0);
        assert forall|b: VxBus| #[trigger] vx_seen(vx_watched(vx_id.0.uuid), vx_h0.push(BusListenerEvent::CurrentFinished), b) == vx_seen(vx_watched(vx_id.0.uuid), vx_h0, b) by {}
        assert forall|e: BusListenerEvent| #[trigger] vx_h0.push(e).drop_last() =~= vx_h0 by {}
        assert forall|e: BusEvent| vx_deliverable(vx_watched(vx_id.0.uuid), #[trigger] vx_h0.push(BusListenerEvent::Event(e))) implies
            (match e { BusEvent::ObjectCreated(i) => i.uuid == vx_id.0.uuid && forall|b: VxBus| #[trigger] vx_seen(vx_watched(vx_id.0.uuid), vx_h0.push(BusListenerEvent::Event(e)), b) ==> b.has_obj(vx_id.0.uuid) && b.obj[vx_id.0.uuid] == i.cookie,
                BusEvent::ObjectDestroyed(i) => i.uuid == vx_id.0.uuid && forall|b: VxBus| #[trigger] vx_seen(vx_watched(vx_id.0.uuid), vx_h0.push(BusListenerEvent::Event(e)), b) ==> !b.has_obj(vx_id.0.uuid), _ => false })
            by { watched_event(vx_id.0.uuid, vx_h0.push(BusListenerEvent::Event(e)), e); }
        assert forall|b: VxBus| vx_agree(vx_watched(vx_id.0.uuid), VxBus::empty(), b) implies !(#[trigger] b.has_obj(vx_id.0.uuid)) by { watched_agree(vx_id.0.uuid, VxBus::empty(), b); }
    }
hint Lifetime::poll_ended loop0.after
    proof { assert(vx_says_gone(vx_recv(listener.events), vx_id) || vx_end_of(vx_watched(vx_id.0.uuid), listener.events)); }
fn Lifetime::ended verifier::exec_allows_no_decreases_clause
    requires old(self).wf(), //@C19
    ensures final(self).wf(), final(self).listener is None, //@C19
loop Lifetime::ended 0
    invariant self.wf(),
    ensures self.listener is None,
