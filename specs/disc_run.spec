// Contracts of aldrin/src/discoverer.rs (C19)
post
    // ---- two buses that the filters cannot tell apart look the same to an entry
    impl VxWant {
        pub open spec fn within(self, fs: Set<BusListenerFilter>) -> bool { forall|f: BusListenerFilter| #[trigger] self.filter(f) ==> fs.contains(f) }
    }
    pub proof fn want_svc(w: VxWant, fs: Set<BusListenerFilter>, a: VxBus, b: VxBus, u: ObjectUuid, s: ServiceUuid)
        requires w.within(fs), vx_agree(fs, a, b), w.hit(u), w.services.contains(s)
        ensures a.has_svc(u, s) == b.has_svc(u, s), a.has_svc(u, s) ==> a.svc[(u, s)] == b.svc[(u, s)] //@C19
    {
        let f = BusListenerFilter::Service(BusListenerServiceFilter { object: w.obj, service: Some(s) });
        assert(w.filter(f)); assert(fs.contains(f)); assert(vx_sees_s(fs, u, s));
    }
    pub proof fn want_agree(w: VxWant, v: Map<ObjectUuid, ObjectCookie>, fs: Set<BusListenerFilter>, a: VxBus, b: VxBus)
        requires w.within(fs), vx_agree(fs, a, b), a.wf(), b.wf(), w.shows(v, a)
        ensures w.shows(v, b) //@C19
    {
        assert forall|u: ObjectUuid| #[trigger] v.dom().contains(u) <==> w.on(b, u) by {
            if w.services =~= Set::<ServiceUuid>::empty() {
                if w.hit(u) { let f = BusListenerFilter::Object(w.obj); assert(w.filter(f)); assert(fs.contains(f)); assert(vx_sees_o(fs, u)); }
            } else {
                let s0 = choose|s: ServiceUuid| w.services.contains(s);
                assert(w.services.contains(s0));
                if w.hit(u) {
                    assert forall|s: ServiceUuid| #[trigger] w.services.contains(s) implies a.has_svc(u, s) == b.has_svc(u, s) by { want_svc(w, fs, a, b, u, s); }
                }
            }
        }
        assert forall|u: ObjectUuid| #[trigger] v.dom().contains(u) implies v[u] == b.obj[u] by {
            assert(w.on(a, u)); assert(w.on(b, u));
            if w.services =~= Set::<ServiceUuid>::empty() {
                let f = BusListenerFilter::Object(w.obj); assert(w.filter(f)); assert(fs.contains(f)); assert(vx_sees_o(fs, u));
            } else {
                let s0 = choose|s: ServiceUuid| w.services.contains(s);
                assert(w.services.contains(s0)); want_svc(w, fs, a, b, u, s0); assert(a.has_svc(u, s0)); assert(b.has_svc(u, s0));
            }
        }
    }
    pub proof fn entry_agree<Key: Copy>(n: DiscovererEntry<Key>, fs: Set<BusListenerFilter>, a: VxBus, b: VxBus)
        requires n.want().within(fs), vx_agree(fs, a, b), a.wf(), b.wf(), n.rep(a)
        ensures n.rep(b) //@C19
    {
        want_agree(n.want(), n.vx_view(), fs, a, b);
        match n.inner {
            EntryInner::Specific(x) => { match x {
                SpecificObject::WithServices(y) => {
                    assert forall|s: ServiceUuid| #[trigger] y.services@.dom().contains(s) implies y.services@[s] == (if b.has_svc(y.object, s) { Some(b.svc[(y.object, s)].cookie) } else { None }) by { assert(y.want().services.contains(s)); want_svc(y.want(), fs, a, b, y.object, s); }
                }
                SpecificObject::WithoutServices(y) => { }
            } }
            EntryInner::Any(y) => {
                assert forall|s: ServiceUuid, u: ObjectUuid| y.services@.dom().contains(s) implies a.has_svc(u, s) == b.has_svc(u, s) && (a.has_svc(u, s) ==> a.svc[(u, s)] == b.svc[(u, s)]) by { assert(y.want().services.contains(s)); want_svc(y.want(), fs, a, b, u, s); }
                assert(y.svc_rep(b));
            }
        }
    }
    /// where an object is reported its services are known, and their ids are the current ones
    pub proof fn entry_full<Key: Copy>(n: DiscovererEntry<Key>, b: VxBus)
        requires n.rep(b), b.wf()
        ensures n.full(), //@C19
            forall|u: ObjectUuid, s: ServiceUuid| #![trigger n.sid(u, s)] n.vx_view().dom().contains(u) && n.want().services.contains(s) ==> n.sid(u, s) == b.svc[(u, s)], //@C19
    {
        assert forall|u: ObjectUuid, s: ServiceUuid| #[trigger] n.vx_view().dom().contains(u) && #[trigger] n.want().services.contains(s) implies b.has_svc(u, s) by { assert(n.want().on(b, u)); }
        match n.inner {
            EntryInner::Specific(x) => { match x {
                SpecificObject::WithServices(y) => { if y.cookie is Some { assert(n.vx_view().dom().contains(y.object)); assert forall|s: ServiceUuid| #[trigger] y.services@.dom().contains(s) implies y.services@[s] is Some by { assert(n.want().services.contains(s)); } } }
                SpecificObject::WithoutServices(y) => { }
            } }
            EntryInner::Any(y) => {
                assert forall|u: ObjectUuid| #[trigger] y.created@.dom().contains(u) implies y.has_all(u) by {
                    assert(n.vx_view().dom().contains(u));
                    assert forall|s: ServiceUuid| #[trigger] y.services@.dom().contains(s) implies y.services@[s]@.dom().contains(u) by { assert(n.want().services.contains(s)); assert(b.has_svc(u, s)); }
                }
            }
        }
        assert forall|u: ObjectUuid, s: ServiceUuid| #![trigger n.sid(u, s)] n.vx_view().dom().contains(u) && n.want().services.contains(s) implies n.sid(u, s) == b.svc[(u, s)] by { assert(b.has_svc(u, s)); assert(n.want().on(b, u)); match n.inner { EntryInner::Any(y) => { assert(y.services@[s]@.dom().contains(u)); } _ => { } } }
    }
    // ---- what the events handed out, and those still queued, tell about an entry
    pub open spec fn vx_play<Key>(k: Key, v: Map<ObjectUuid, ObjectCookie>, q: Seq<DiscovererEvent<Key>>) -> Option<Map<ObjectUuid, ObjectCookie>> decreases q.len() {
        if q.len() == 0 { Some(v) } else {
            match vx_play(k, v, q.drop_last()) { None => None, Some(w) => if q.last().key == k { if vx_ev_ok(w, q.last()) { Some(vx_ev_apply(w, q.last())) } else { None } } else { Some(w) } }
        }
    }
    pub proof fn play_front<Key>(k: Key, v: Map<ObjectUuid, ObjectCookie>, q: Seq<DiscovererEvent<Key>>)
        requires q.len() > 0
        ensures vx_play(k, v, q) == (if q[0].key == k { if vx_ev_ok(v, q[0]) { vx_play(k, vx_ev_apply(v, q[0]), q.skip(1)) } else { None } } else { vx_play(k, v, q.skip(1)) }) //@C19
        decreases q.len()
    {
        if q.len() == 1 { assert(q.drop_last() =~= Seq::empty()); assert(q.skip(1) =~= Seq::empty()); assert(vx_play(k, v, q.drop_last()) == Some(v)); }
        else {
            play_front(k, v, q.drop_last());
            assert(q.drop_last().skip(1) =~= q.skip(1).drop_last()); assert(q.skip(1).last() == q.last()); assert(q.drop_last()[0] == q[0]);
        }
    }
    pub proof fn play_none<Key>(k: Key, v: Map<ObjectUuid, ObjectCookie>, q: Seq<DiscovererEvent<Key>>)
        requires forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).key != k
        ensures vx_play(k, v, q) == Some(v) //@C19
        decreases q.len()
    { if q.len() > 0 { assert(q.last().key != k); assert forall|i: int| 0 <= i < q.drop_last().len() implies (#[trigger] q.drop_last()[i]).key != k by { assert(q[i].key != k); } play_none(k, v, q.drop_last()); } }
    pub proof fn play_push<Key>(k: Key, v: Map<ObjectUuid, ObjectCookie>, q: Seq<DiscovererEvent<Key>>, e: DiscovererEvent<Key>)
        ensures vx_play(k, v, q.push(e)) == (match vx_play(k, v, q) { None => None, Some(w) => if e.key == k { if vx_ev_ok(w, e) { Some(vx_ev_apply(w, e)) } else { None } } else { Some(w) } }) //@C19
    { assert(q.push(e).drop_last() =~= q); }
    pub proof fn seen_event(fs: Set<BusListenerFilter>, h: Seq<BusListenerEvent>, e: BusEvent, b: VxBus) -> (a: VxBus)
        requires vx_seen(fs, h, b), h.len() > 0, h.last() == BusListenerEvent::Event(e)
        ensures vx_seen(fs, h.drop_last(), a), a.wf(), a.legal(e), vx_agree(fs, a.step(e), b), b.wf() //@C19
    {
        let a = choose|a: VxBus| vx_seen(fs, h.drop_last(), a) && #[trigger] a.legal(e) && vx_agree(fs, a.step(e), b);
        seen_wf(fs, h.drop_last(), a);
        a
    }
    impl<Key: Copy> DiscovererEntry<Key> {
        pub open spec fn handled(self, o: Self, e: BusEvent) -> bool {
            &&& self.vx_key() == o.vx_key() && self.want() =~= o.want() && self.ok() == o.ok()
            &&& forall|b: VxBus| #[trigger] o.rep(b) && b.wf() && b.legal(e) ==> self.rep(b.step(e))
        }
    }
    impl<Key: Copy> Discoverer<Key> {
        /// the entries are set up and the listener has their filters
        pub open spec fn set_up(self) -> bool {
            &&& self.listener.wf()
            &&& forall|k: Key| #[trigger] self.entries@.dom().contains(k) ==> self.entries@[k].vx_key() == k && self.entries@[k].ok() && self.entries@[k].want().within(self.listener.filters@)
            &&& forall|i: int| 0 <= i < self.events@.len() ==> self.entries@.dom().contains((#[trigger] self.events@[i]).key)
        }
        /// whatever the bus is, as far as the listener can know it, every entry reports exactly the objects on it
        pub open spec fn tracks(self) -> bool {
            &&& vx_pure(self.listener.events) && (vx_idle(vx_recv(self.listener.events)) || (vx_got(vx_filt(self.listener.events), vx_recv(self.listener.events)) && vx_deliverable(vx_filt(self.listener.events), vx_recv(self.listener.events))))
            &&& forall|k: Key| #[trigger] self.entries@.dom().contains(k) ==> self.entries@[k].want().within(vx_filt(self.listener.events))
            &&& forall|k: Key, b: VxBus| #![trigger self.entries@[k].rep(b)] #![trigger self.entries@.dom().contains(k), vx_seen(vx_filt(self.listener.events), vx_recv(self.listener.events), b)]
                self.entries@.dom().contains(k) && vx_seen(vx_filt(self.listener.events), vx_recv(self.listener.events), b) ==> self.entries@[k].rep(b)
        }
        /// a single entry
        pub open spec fn lone(self) -> bool { forall|k: Key, l: Key| #[trigger] self.entries@.dom().contains(k) && #[trigger] self.entries@.dom().contains(l) ==> k == l }
        pub open spec fn fits(self) -> bool { vx_pure(self.listener.events) && forall|k: Key| #[trigger] self.entries@.dom().contains(k) ==> self.entries@[k].want().within(vx_filt(self.listener.events)) }
        /// a run has begun
        pub open spec fn fresh(self) -> bool { !vx_over(self.listener.events) && vx_started(self.listener.events) && self.tracks() && vx_idle(vx_recv(self.listener.events)) }
        pub open spec fn bare(self) -> bool { self.entries@.dom() =~= Set::<Key>::empty() }
        /// between the calls of the user
        pub open spec fn live(self) -> bool { self.set_up() && (vx_over(self.listener.events) || self.bare() || ((vx_started(self.listener.events) || vx_drained(self.listener.events)) && self.tracks())) }
        /// also while it is being stopped
        pub open spec fn sound(self) -> bool { self.set_up() && (vx_over(self.listener.events) || self.bare() || vx_drained(self.listener.events) || ((vx_started(self.listener.events) || vx_stopping(self.listener.events)) && self.tracks())) }
        /// someone who applied the events handed out so far has u; the queued ones lead to what the entries report
        pub open spec fn behind(self, u: Map<Key, Map<ObjectUuid, ObjectCookie>>) -> bool {
            forall|k: Key| #[trigger] self.entries@.dom().contains(k) ==> vx_play(k, u[k], self.events@) == Some(self.entries@[k].vx_view())
        }
        /// the same entries, further on
        pub open spec fn same(self, o: Self) -> bool {
            &&& self.entries@.dom() == o.entries@.dom() && self.listener.filters == o.listener.filters && vx_filt(self.listener.events) == vx_filt(o.listener.events) && vx_pure(self.listener.events) == vx_pure(o.listener.events)
            &&& forall|k: Key| #[trigger] o.entries@.dom().contains(k) ==> self.entries@[k].want() == o.entries@[k].want()
            &&& vx_over(o.listener.events) ==> vx_over(self.listener.events)
            &&& o.bare() ==> self == o
            &&& !o.bare() ==> (vx_drained(o.listener.events) ==> vx_drained(self.listener.events) && vx_recv(self.listener.events) == vx_recv(o.listener.events) && self.entries@ == o.entries@)
            &&& !o.bare() ==> (vx_started(o.listener.events) ==> vx_started(self.listener.events)) && (vx_stopping(o.listener.events) ==> vx_stopping(self.listener.events) || vx_drained(self.listener.events))
            &&& !o.bare() && o.tracks() && (vx_started(o.listener.events) || vx_drained(o.listener.events)) ==> self.tracks()
        }
    }
source aldrin/src/discoverer.rs
srcsubst future::poll_fn(|cx| self.poll_next_event(cx)).await => { let mut vx_cx = vx_context(); let cx = &mut vx_cx; let vx_v: Option<DiscovererEvent<Key>>; loop { if let Poll::Ready(vx_r) = self.poll_next_event(cx) { vx_v = vx_r; break; } } vx_v }
only =Discoverer Discoverer
attr Discoverer #[verifier::reject_recursive_types(Key)]
skip Discoverer::service_ids_n Discoverer::entries Discoverer::iter
fn Discoverer::poll_next_event verifier::exec_allows_no_decreases_clause
    requires old(self).sound(), //@C19
    ensures final(self).sound(), final(self).same(*old(self)), //@C19
        match r { //@C19
            // the next transition of an entry
            Poll::Ready(Some(e)) => old(self).entries@.dom().contains(e.key) && forall|u: Map<Key, Map<ObjectUuid, ObjectCookie>>| #[trigger] old(self).behind(u) ==> vx_ev_ok(u[e.key], e) && final(self).behind(u.insert(e.key, vx_ev_apply(u[e.key], e))),
            // nothing is queued, the entries are up to date
            _ => (!final(self).bare() ==> final(self).events@.len() == 0) && forall|u: Map<Key, Map<ObjectUuid, ObjectCookie>>| #[trigger] old(self).behind(u) ==> final(self).behind(u),
        },
        r is Ready && r->Ready_0 is None && !old(self).bare() ==> final(self).listener.done(), //@C19
        old(self).lone() && old(self).events@.len() == 0 ==> final(self).events@.len() == 0, //@C19
loop Discoverer::poll_next_event 0
    invariant self.sound(), self.same(*old(self)), !old(self).bare(), !self.bare(), old(self).lone() && old(self).events@.len() == 0 ==> self.events@.len() <= 1, forall|u: Map<Key, Map<ObjectUuid, ObjectCookie>>| #[trigger] old(self).behind(u) ==> self.behind(u),
hint Discoverer::poll_next_event loop0.start
    let ghost vx_d0 = *self;
    proof {
        let f0 = vx_filt(self.listener.events); let h0 = vx_recv(self.listener.events);
        assert forall|h: Seq<BusListenerEvent>, b: VxBus| vx_quiet(h0, h, false) && (vx_hist(h) || h == h0) implies #[trigger] vx_seen(f0, h, b) == vx_seen(f0, h0, b) by { quiet_seen(f0, h0, h, b); }
        assert(VxBus::empty().wf()); if vx_idle(h0) { assert(vx_seen(f0, h0, VxBus::empty())); }
        assert forall|h: Seq<BusListenerEvent>| #[trigger] vx_quiet(h0, h, false) && (vx_hist(h) || h == h0) && (vx_idle(h0) || vx_deliverable(f0, h0)) implies vx_deliverable(f0, h) by { let b = choose|b: VxBus| vx_seen(f0, h0, b); quiet_seen(f0, h0, h, b); assert(vx_seen(f0, h, b)); }
        if self.events@.len() > 0 { let e = self.events@[0]; assert(self.entries@.dom().contains(e.key));
            assert forall|u: Map<Key, Map<ObjectUuid, ObjectCookie>>, k: Key| #[trigger] self.behind(u) && #[trigger] self.entries@.dom().contains(k) implies vx_play(k, u[k], self.events@) == (if e.key == k { if vx_ev_ok(u[k], e) { vx_play(k, vx_ev_apply(u[k], e), self.events@.skip(1)) } else { None } } else { vx_play(k, u[k], self.events@.skip(1)) }) by { play_front(k, u[k], self.events@); }
            assert forall|u: Map<Key, Map<ObjectUuid, ObjectCookie>>| #[trigger] self.behind(u) implies vx_ev_ok(u[e.key], e) by { assert(vx_play(e.key, u[e.key], self.events@) is Some); }
        }
    }
loop Discoverer::poll_next_event 1
    invariant
        vx_it0.wf(), vx_it0.all() == vx_i0.all(), vx_d0.sound(), vx_d0.tracks(), vx_d0.events@.len() == 0,
        self.listener == vx_l1, self.events@.len() <= vx_it0.pos(),
        forall|j: int| #![trigger vx_i0.all()[j]] #![trigger vx_mkey::<Key, DiscovererEntry<Key>>(vx_i0, j)] 0 <= j < vx_i0.all().len() ==> vx_e0.dom().contains(vx_mkey::<Key, DiscovererEntry<Key>>(vx_i0, j)) && *vx_i0.all()[j] == vx_e0[vx_mkey::<Key, DiscovererEntry<Key>>(vx_i0, j)] && vx_midx::<Key, DiscovererEntry<Key>>(vx_i0, vx_mkey::<Key, DiscovererEntry<Key>>(vx_i0, j)) == j,
        forall|k: Key| #[trigger] vx_e0.dom().contains(k) ==> 0 <= vx_midx::<Key, DiscovererEntry<Key>>(vx_i0, k) < vx_i0.all().len() && vx_mkey::<Key, DiscovererEntry<Key>>(vx_i0, vx_midx::<Key, DiscovererEntry<Key>>(vx_i0, k)) == k && vx_e0[k].vx_key() == k,
        vx_b.wf(), vx_b.legal(event), forall|k: Key| #[trigger] vx_e0.dom().contains(k) ==> vx_e0[k].rep(vx_b),
        forall|j: int| 0 <= j < vx_it0.pos() ==> (*final(#[trigger] vx_i0.all()[j])).handled(*vx_i0.all()[j], event),
        forall|i: int| 0 <= i < self.events@.len() ==> vx_e0.dom().contains((#[trigger] self.events@[i]).key) && vx_midx::<Key, DiscovererEntry<Key>>(vx_i0, self.events@[i].key) < vx_it0.pos(),
        forall|k: Key| #[trigger] vx_e0.dom().contains(k) && vx_midx::<Key, DiscovererEntry<Key>>(vx_i0, k) < vx_it0.pos() ==> vx_play(k, vx_e0[k].vx_view(), self.events@) == Some((*final(vx_i0.all()[vx_midx::<Key, DiscovererEntry<Key>>(vx_i0, k)])).vx_view()),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.left(),
hint Discoverer::poll_next_event loop1.before
    let ghost vx_i0 = vx_it0; let ghost vx_e0 = vx_d0.entries@; let ghost vx_l1 = self.listener;
    let ghost vx_f = vx_filt(vx_l1.events); let ghost vx_h = vx_recv(vx_l1.events);
    proof { assert(vx_deliverable(vx_f, vx_h)); assert(vx_hist(vx_h.drop_last())); }
    let ghost vx_b = seen_event(vx_f, vx_h, event, choose|b: VxBus| vx_seen(vx_f, vx_h, b));
hint Discoverer::poll_next_event loop1.start
    let ghost vx_p = vx_it0.pos(); let ghost vx_q = self.events@; let ghost vx_k = vx_mkey::<Key, DiscovererEntry<Key>>(vx_i0, vx_p as int);
    proof { if vx_p < vx_i0.all().len() { let _ = vx_i0.all()[vx_p as int]; assert(vx_e0[vx_k].rep(vx_b)); play_none(vx_k, vx_e0[vx_k].vx_view(), vx_q);
        assert forall|k: Key, e: DiscovererEvent<Key>| #[trigger] vx_e0.dom().contains(k) implies #[trigger] vx_play(k, vx_e0[k].vx_view(), vx_q.push(e)) == (match vx_play(k, vx_e0[k].vx_view(), vx_q) { None => None, Some(w) => if e.key == k { if vx_ev_ok(w, e) { Some(vx_ev_apply(w, e)) } else { None } } else { Some(w) } }) by { play_push(k, vx_e0[k].vx_view(), vx_q, e); } } }
hint Discoverer::poll_next_event loop1.after
    proof {
        if vx_d0.lone() && vx_i0.all().len() > 1 { let _ = vx_i0.all()[0]; let _ = vx_i0.all()[1]; assert(vx_e0.dom().contains(vx_mkey::<Key, DiscovererEntry<Key>>(vx_i0, 0)) && vx_e0.dom().contains(vx_mkey::<Key, DiscovererEntry<Key>>(vx_i0, 1))); assert(false); }
        assert(vx_it0.pos() == vx_i0.all().len());
        assert forall|k: Key, b: VxBus| #![trigger self.entries@[k].rep(b)] self.entries@.dom().contains(k) && vx_seen(vx_f, vx_h, b) implies self.entries@[k].rep(b) by {
            let a = seen_event(vx_f, vx_h, event, b);
            assert(vx_e0[k].rep(a)); step_wf(a, event);
            entry_agree(self.entries@[k], vx_f, a.step(event), b);
        }
        assert forall|u: Map<Key, Map<ObjectUuid, ObjectCookie>>| #[trigger] vx_d0.behind(u) implies self.behind(u) by {
            assert forall|k: Key| #[trigger] self.entries@.dom().contains(k) implies vx_play(k, u[k], self.events@) == Some(self.entries@[k].vx_view()) by { assert(vx_d0.entries@.dom().contains(k)); assert(vx_play(k, u[k], vx_d0.events@) == Some(u[k])); }
        }
    }
fn Discoverer::new
    requires forall|k: Key| #[trigger] entries@.dom().contains(k) ==> entries@[k].vx_key() == k && entries@[k].ok() && entries@[k].rep(VxBus::empty()), //@C19
    ensures r is Ok ==> r->Ok_0.live() && r->Ok_0.entries == entries && r->Ok_0.events@.len() == 0 && (r->Ok_0.bare() || r->Ok_0.fresh()), //@C19
loop Discoverer::new 0
    invariant
        vx_it0.wf(), listener.wf(), vx_same_counts(vx_l0.events, listener.events), vx_over(listener.events) == vx_over(vx_l0.events),
        vx_it0.all() == vx_i0.all(),
        forall|j: int| #![trigger vx_i0.all()[j]] #![trigger vx_key_at::<Key, DiscovererEntry<Key>>(vx_i0, j)] 0 <= j < vx_i0.all().len() ==> entries@.dom().contains(vx_key_at::<Key, DiscovererEntry<Key>>(vx_i0, j)) && entries@[vx_key_at::<Key, DiscovererEntry<Key>>(vx_i0, j)] == *vx_i0.all()[j],
        forall|k: Key| #[trigger] entries@.dom().contains(k) ==> 0 <= vx_idx_of::<Key, DiscovererEntry<Key>>(vx_i0, k) < vx_i0.all().len() && vx_key_at::<Key, DiscovererEntry<Key>>(vx_i0, vx_idx_of::<Key, DiscovererEntry<Key>>(vx_i0, k)) == k,
        forall|k: Key| #[trigger] entries@.dom().contains(k) ==> entries@[k].vx_key() == k && entries@[k].ok() && entries@[k].rep(VxBus::empty()),
        forall|j: int| #![trigger vx_i0.all()[j]] 0 <= j < vx_it0.pos() ==> vx_i0.all()[j].want().within(listener.filters@),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.left(),
hint Discoverer::new loop0.before
    let ghost vx_i0 = vx_it0; let ghost vx_l0 = listener;
hint Discoverer::new loop0.after
    proof {
        assert forall|k: Key| #[trigger] entries@.dom().contains(k) implies entries@[k].want().within(listener.filters@) by { let j = vx_idx_of::<Key, DiscovererEntry<Key>>(vx_i0, k); let _ = vx_i0.all()[j]; assert(vx_i0.all()[j].want().within(listener.filters@)); }
        assert forall|k: Key, b: VxBus| #![trigger entries@[k].rep(b)] entries@.dom().contains(k) && b.wf() && vx_agree(listener.filters@, VxBus::empty(), b) implies entries@[k].rep(b) by { entry_agree(entries@[k], listener.filters@, VxBus::empty(), b); }
    }
fn Discoverer::stop verifier::exec_allows_no_decreases_clause
    requires old(self).live(), //@C19
    ensures final(self).live(), final(self).entries@.dom() == old(self).entries@.dom(), final(self).listener.filters == old(self).listener.filters, //@C19
        forall|k: Key| #[trigger] old(self).entries@.dom().contains(k) ==> final(self).entries@[k].want() == old(self).entries@[k].want(), //@C19
        // nothing of the run is left
        r is Ok ==> final(self).events@.len() == 0 && (vx_over(final(self).listener.events) || final(self).bare() || vx_drained(final(self).listener.events)) && forall|k: Key| #[trigger] final(self).entries@.dom().contains(k) ==> final(self).entries@[k].rep(VxBus::empty()), //@C19
loop Discoverer::stop 0
    invariant_except_break
        vx_over(self.listener.events) || self.bare() || vx_drained(self.listener.events) || (vx_stopping(self.listener.events) && self.tracks()),
    invariant
        self.sound(), self.entries@.dom() == old(self).entries@.dom(), self.listener.filters == old(self).listener.filters,
        forall|k: Key| #[trigger] old(self).entries@.dom().contains(k) ==> self.entries@[k].want() == old(self).entries@[k].want(),
        vx_over(self.listener.events) || self.bare() || self.fits(),
    ensures vx_over(self.listener.events) || self.bare() || vx_drained(self.listener.events),
loop Discoverer::stop 1
    invariant
        vx_it0.wf(), vx_it0.all() == vx_m0, self.listener == vx_d0.listener,
        forall|i: int| 0 <= i < vx_m0.len() ==> (*(#[trigger] vx_m0[i])).ok(),
        forall|i: int| #![trigger vx_m0[i]] 0 <= i < vx_it0.pos() ==> (*final(vx_m0[i])).rep(VxBus::empty()) && (*final(vx_m0[i])).ok() && (*final(vx_m0[i])).vx_key() == vx_m0[i].vx_key() && (*final(vx_m0[i])).want() == vx_m0[i].want(),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.left(),
hint Discoverer::stop loop1.before
    let ghost vx_m0 = vx_it0.all();
hint Discoverer::stop loop0.after
    let ghost vx_d0 = *self;
hint Discoverer::stop end
    proof {
        let f = vx_filt(self.listener.events); let h = vx_recv(self.listener.events);
        assert forall|k: Key, b: VxBus| #![trigger self.entries@[k].rep(b)] self.entries@.dom().contains(k) && vx_drained(self.listener.events) && vx_seen(f, h, b) && self.entries@[k].want().within(f) implies self.entries@[k].rep(b) by { entry_agree(self.entries@[k], f, VxBus::empty(), b); }
    }
hint Discoverer::restart end
    proof {
        let f = vx_filt(self.listener.events); let h = vx_recv(self.listener.events);
        assert forall|k: Key, b: VxBus| #![trigger self.entries@[k].rep(b)] self.entries@.dom().contains(k) && vx_idle(h) && vx_seen(f, h, b) && self.entries@[k].want().within(f) && self.entries@[k].rep(VxBus::empty()) implies self.entries@[k].rep(b) by { entry_agree(self.entries@[k], f, VxBus::empty(), b); }
    }
hint Discoverer::restart_current_only end
    proof {
        let f = vx_filt(self.listener.events); let h = vx_recv(self.listener.events);
        assert forall|k: Key, b: VxBus| #![trigger self.entries@[k].rep(b)] self.entries@.dom().contains(k) && vx_idle(h) && vx_seen(f, h, b) && self.entries@[k].want().within(f) && self.entries@[k].rep(VxBus::empty()) implies self.entries@[k].rep(b) by { entry_agree(self.entries@[k], f, VxBus::empty(), b); }
    }
fn Discoverer::restart
    requires old(self).live(), //@C19
    ensures final(self).live(), final(self).entries@.dom() == old(self).entries@.dom(), //@C19
        forall|k: Key| #[trigger] old(self).entries@.dom().contains(k) ==> final(self).entries@[k].want() == old(self).entries@[k].want(), //@C19
        r is Ok ==> final(self).events@.len() == 0, //@C19
fn Discoverer::restart_current_only
    requires old(self).live(), //@C19
    ensures final(self).live(), final(self).entries@.dom() == old(self).entries@.dom(), //@C19
        forall|k: Key| #[trigger] old(self).entries@.dom().contains(k) ==> final(self).entries@[k].want() == old(self).entries@[k].want(), //@C19
        r is Ok ==> final(self).events@.len() == 0, //@C19
fn Discoverer::restart_current_only_and_wait
    requires old(self).live(), //@C19
    ensures final(self).live(), final(self).entries@.dom() == old(self).entries@.dom(), //@C19
        forall|k: Key| #[trigger] old(self).entries@.dom().contains(k) ==> final(self).entries@[k].want() == old(self).entries@[k].want(), //@C19
        r is Ok && !old(self).bare() ==> final(self).events@.len() == 0 && final(self).listener.done(), //@C19
fn Discoverer::is_finished
    requires self.set_up(), //@C19
    ensures r == (self.bare() || self.listener.done()), //@C19
fn Discoverer::poll_finished verifier::exec_allows_no_decreases_clause
    requires old(self).live(), //@C19
    ensures final(self).live(), final(self).same(*old(self)), !final(self).bare() ==> final(self).events@.len() == 0, //@C19
        r is Ready && !old(self).bare() ==> final(self).listener.done(), //@C19
loop Discoverer::poll_finished 0
    invariant self.live(), self.same(*old(self)),
    ensures !self.bare() ==> self.events@.len() == 0,
fn Discoverer::wait_finished verifier::exec_allows_no_decreases_clause
    requires old(self).live(), //@C19
    ensures final(self).live(), final(self).same(*old(self)), !old(self).bare() ==> final(self).events@.len() == 0 && final(self).listener.done(), //@C19
loop Discoverer::wait_finished 0
    invariant self.live(), self.same(*old(self)),
    ensures !old(self).bare() ==> self.events@.len() == 0 && self.listener.done(),
fn Discoverer::next_event verifier::exec_allows_no_decreases_clause
    requires old(self).sound(), //@C19
    ensures final(self).sound(), final(self).same(*old(self)), old(self).lone() && old(self).events@.len() == 0 ==> final(self).events@.len() == 0, //@C19
        match r { //@C19
            Some(e) => old(self).entries@.dom().contains(e.key) && forall|u: Map<Key, Map<ObjectUuid, ObjectCookie>>| #[trigger] old(self).behind(u) ==> vx_ev_ok(u[e.key], e) && final(self).behind(u.insert(e.key, vx_ev_apply(u[e.key], e))),
            None => (!final(self).bare() ==> final(self).events@.len() == 0 && final(self).listener.done()) && forall|u: Map<Key, Map<ObjectUuid, ObjectCookie>>| #[trigger] old(self).behind(u) ==> final(self).behind(u),
        },
loop Discoverer::next_event 0
    invariant_except_break forall|u: Map<Key, Map<ObjectUuid, ObjectCookie>>| #[trigger] old(self).behind(u) ==> self.behind(u),
    invariant self.sound(), self.same(*old(self)), old(self).lone() && old(self).events@.len() == 0 ==> self.events@.len() == 0,
    ensures
        match vx_v {
            Some(e) => old(self).entries@.dom().contains(e.key) && forall|u: Map<Key, Map<ObjectUuid, ObjectCookie>>| #[trigger] old(self).behind(u) ==> vx_ev_ok(u[e.key], e) && self.behind(u.insert(e.key, vx_ev_apply(u[e.key], e))),
            None => (!self.bare() ==> self.events@.len() == 0 && self.listener.done()) && forall|u: Map<Key, Map<ObjectUuid, ObjectCookie>>| #[trigger] old(self).behind(u) ==> self.behind(u),
        },
fn Discoverer::entry
    requires self.entries@.dom().contains(key), //@C19
    ensures *r == self.entries@[key], //@C19
fn Discoverer::object_id
    requires self.entries@.dom().contains(key), self.entries@[key].want().hit(object), //@C19
    // the id under which the object exists now, if the entry reports it
    ensures r is Some <==> self.entries@[key].vx_view().dom().contains(object), r is Some ==> r->0 == (ObjectId { uuid: object, cookie: self.entries@[key].vx_view()[object] }), //@C19
fn Discoverer::service_id
    requires self.entries@.dom().contains(key), self.entries@[key].want().hit(object), self.entries@[key].want().services.contains(service), self.entries@[key].full(), //@C19
    ensures r is Some <==> self.entries@[key].vx_view().dom().contains(object), r is Some ==> r->0 == self.entries@[key].sid(object, service), //@C19
fn Discoverer::contains
    requires self.entries@.dom().contains(key), //@C19
    ensures r == self.entries@[key].vx_view().dom().contains(object), //@C19
fn Discoverer::contains_any
    requires self.entries@.dom().contains(key), //@C19
    ensures r == exists|u: ObjectUuid| self.entries@[key].vx_view().dom().contains(u), //@C19
post
    // ---- the statement: with nothing queued the reported objects are those that someone who applied every event has, and they are the ones on the bus
    pub proof fn converges<Key: Copy>(d: Discoverer<Key>, u: Map<Key, Map<ObjectUuid, ObjectCookie>>, b: VxBus, k: Key)
        requires d.tracks(), d.behind(u), d.events@.len() == 0, d.entries@.dom().contains(k), vx_seen(vx_filt(d.listener.events), vx_recv(d.listener.events), b)
        ensures u[k] == d.entries@[k].vx_view(), d.entries@[k].want().shows(u[k], b), d.entries@[k].full(), //@C19
            forall|o: ObjectUuid, s: ServiceUuid| #![trigger d.entries@[k].sid(o, s)] d.entries@[k].vx_view().dom().contains(o) && d.entries@[k].want().services.contains(s) ==> d.entries@[k].sid(o, s) == b.svc[(o, s)], //@C19
    { assert(d.entries@[k].rep(b)); assert(vx_play(k, u[k], d.events@) == Some(u[k])); seen_wf(vx_filt(d.listener.events), vx_recv(d.listener.events), b); entry_full(d.entries@[k], b); }
fn Discoverer::client
    ensures *r == self.listener.client, //@C19
fn Discoverer::service_ids
    requires self.entries@.dom().contains(key), self.entries@[key].want().hit(object), self.entries@[key].full(), services.wf(), services.pos() == 0, forall|i: int| 0 <= i < services.all().len() ==> self.entries@[key].want().services.contains(#[trigger] services.all()[i]), //@C19
    ensures services.all().len() > 0 ==> (r is Some <==> self.entries@[key].vx_view().dom().contains(object)), self.entries@[key].vx_view().dom().contains(object) ==> r is Some, //@C19
        r is Some ==> r->0@.len() == services.all().len() && forall|i: int| 0 <= i < r->0@.len() ==> (#[trigger] r->0@[i]) == self.entries@[key].sid(object, services.all()[i]), //@C19
fn Discoverer::entry_iter
    requires self.entries@.dom().contains(key), self.entries@[key].full(), //@C19
    ensures r.ok(), vx_lists(r.rest(), self.entries@[key].vx_view()), //@C19
source aldrin/src/discoverer/event.rs
only DiscovererEvent::service_id DiscovererEvent::service_ids
fn DiscovererEvent::service_id
    requires self.kind is Created, discoverer.entries@.dom().contains(self.key), discoverer.entries@[self.key].full(), discoverer.entries@[self.key].want().hit(self.object.uuid), //@C19
        discoverer.entries@[self.key].want().services.contains(service), discoverer.entries@[self.key].vx_view().dom().contains(self.object.uuid), //@C19
    ensures r == discoverer.entries@[self.key].sid(self.object.uuid, service), //@C19
fn DiscovererEvent::service_ids
    requires self.kind is Created, discoverer.entries@.dom().contains(self.key), discoverer.entries@[self.key].full(), discoverer.entries@[self.key].want().hit(self.object.uuid), //@C19
        discoverer.entries@[self.key].vx_view().dom().contains(self.object.uuid), //@C19
        services.wf(), services.pos() == 0, forall|i: int| 0 <= i < services.all().len() ==> discoverer.entries@[self.key].want().services.contains(#[trigger] services.all()[i]), //@C19
    ensures r@.len() == services.all().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == discoverer.entries@[self.key].sid(self.object.uuid, services.all()[i]), //@C19
source aldrin/src/discoverer/builder.rs
attr DiscovererBuilder #[verifier::reject_recursive_types(Key)]
post
    impl<'a, Key: Copy> DiscovererBuilder<'a, Key> {
        /// every entry is set up under its own key and knows nothing yet
        pub open spec fn ok(self) -> bool { forall|k: Key| #[trigger] self.entries@.dom().contains(k) ==> self.entries@[k].vx_key() == k && self.entries@[k].ok() && self.entries@[k].rep(VxBus::empty()) }
    }
    /// this entry asks for that object and these services
    pub open spec fn vx_asks(w: VxWant, object: Option<ObjectUuid>, s: Seq<ServiceUuid>) -> bool {
        w.obj == object && forall|x: ServiceUuid| #[trigger] w.services.contains(x) <==> exists|i: int| 0 <= i < s.len() && s[i] == x
    }
fn Discoverer::builder
    ensures r.ok(), r.entries@ == Map::<Key, DiscovererEntry<Key>>::empty(), //@C19
fn DiscovererBuilder::new
    ensures r.ok(), r.entries@ == Map::<Key, DiscovererEntry<Key>>::empty(), //@C19
fn DiscovererBuilder::build
    requires self.ok(), //@C19
    ensures r is Ok ==> r->Ok_0.live() && r->Ok_0.entries == self.entries && r->Ok_0.events@.len() == 0 && (r->Ok_0.bare() || r->Ok_0.fresh()) && forall|k: Key| #[trigger] self.entries@.dom().contains(k) ==> self.entries@[k].rep(VxBus::empty()), //@C19
fn DiscovererBuilder::build_current_only
    requires self.ok(), //@C19
    ensures r is Ok ==> r->Ok_0.live() && r->Ok_0.entries == self.entries && r->Ok_0.events@.len() == 0 && (r->Ok_0.bare() || r->Ok_0.fresh()) && forall|k: Key| #[trigger] self.entries@.dom().contains(k) ==> self.entries@[k].rep(VxBus::empty()), //@C19
fn DiscovererBuilder::build_current_only_and_wait
    requires self.ok(), //@C19
    ensures r is Ok ==> r->Ok_0.live() && r->Ok_0.entries@.dom() == self.entries@.dom() && (r->Ok_0.bare() || (r->Ok_0.events@.len() == 0 && r->Ok_0.listener.done())), //@C19
        r is Ok ==> forall|k: Key| #[trigger] self.entries@.dom().contains(k) ==> r->Ok_0.entries@[k].want() == self.entries@[k].want(), //@C19
fn DiscovererBuilder::add
    requires self.ok(), services.wf(), services.pos() == 0, //@C19
    ensures r.ok(), r.entries@.dom() == self.entries@.dom().insert(key), vx_asks(r.entries@[key].want(), object, services.all()), //@C19
        forall|k: Key| k != key && #[trigger] self.entries@.dom().contains(k) ==> r.entries@[k] == self.entries@[k], //@C19
fn DiscovererBuilder::object_with_services
    requires self.ok(), services.wf(), services.pos() == 0, //@C19
    ensures r.ok(), r.entries@.dom() == self.entries@.dom().insert(key), vx_asks(r.entries@[key].want(), Some(object), services.all()), //@C19
        forall|k: Key| k != key && #[trigger] self.entries@.dom().contains(k) ==> r.entries@[k] == self.entries@[k], //@C19
fn DiscovererBuilder::any_object_with_services
    requires self.ok(), services.wf(), services.pos() == 0, //@C19
    ensures r.ok(), r.entries@.dom() == self.entries@.dom().insert(key), vx_asks(r.entries@[key].want(), None, services.all()), //@C19
        forall|k: Key| k != key && #[trigger] self.entries@.dom().contains(k) ==> r.entries@[k] == self.entries@[k], //@C19
fn DiscovererBuilder::bare_object
    requires self.ok(), //@C19
    ensures r.ok(), r.entries@.dom() == self.entries@.dom().insert(key), vx_asks(r.entries@[key].want(), Some(object), Seq::empty()), //@C19
        forall|k: Key| k != key && #[trigger] self.entries@.dom().contains(k) ==> r.entries@[k] == self.entries@[k], //@C19
