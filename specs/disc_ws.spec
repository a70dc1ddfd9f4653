source aldrin/src/discoverer/specific_with_services.rs
only =SpecificObjectWithServices SpecificObjectWithServices SpecificObjectWithServicesIter SpecificObjectWithServicesIterEntry
skip SpecificObjectWithServices::service_ids_n_unchecked SpecificObjectWithServices::service_ids_n SpecificObjectWithServicesIter::size_hint SpecificObjectWithServicesIterEntry::service_ids_n
derive SpecificObjectWithServicesIterEntry Clone, Copy
attr SpecificObjectWithServicesIter #[verifier::reject_recursive_types(Key)]
keep impl Iterator for SpecificObjectWithServicesIter<'a,Key>
inherent impl Iterator for SpecificObjectWithServicesIter<'a,Key>
post
    impl<Key: Copy> SpecificObjectWithServices<Key> {
        pub open spec fn want(self) -> VxWant { VxWant { obj: Some(self.object), services: self.services@.dom() } }
        pub open spec fn vx_view(self) -> Map<ObjectUuid, ObjectCookie> { match self.cookie { Some(c) => Map::empty().insert(self.object, c), None => Map::empty() } }
        pub open spec fn svc_rep(self, b: VxBus) -> bool {
            forall|s: ServiceUuid| #[trigger] self.services@.dom().contains(s) ==> self.services@[s] == (if b.has_svc(self.object, s) { Some(b.svc[(self.object, s)].cookie) } else { None })
        }
        pub open spec fn some_svc(self) -> bool { exists|s: ServiceUuid| #[trigger] self.services@.dom().contains(s) }
        pub open spec fn rep(self, b: VxBus) -> bool { self.want().shows(self.vx_view(), b) && self.svc_rep(b) && self.some_svc() }
        /// where the entry reports an object it knows the services
        pub open spec fn full(self) -> bool { self.cookie is Some ==> forall|s: ServiceUuid| #[trigger] self.services@.dom().contains(s) ==> self.services@[s] is Some }
        pub open spec fn sid(self, s: ServiceUuid) -> ServiceId { ServiceId { object_id: ObjectId { uuid: self.object, cookie: self.cookie->0 }, uuid: s, cookie: self.services@[s]->0 } }
    }
post
    impl<Key: Copy> SpecificObjectWithServices<Key> {
        /// what a service event does to the entry
        pub open spec fn nextst(self, o: Self, e: BusEvent) -> bool {
            let all = forall|s: ServiceUuid| #[trigger] self.services@.dom().contains(s) ==> self.services@[s] is Some;
            &&& self.object == o.object && self.key == o.key
            &&& match e {
                BusEvent::ServiceCreated(id) => if id.object_id.uuid == o.object && o.services@.dom().contains(id.uuid) {
                    self.services@ == o.services@.insert(id.uuid, Some(id.cookie)) && self.cookie == (if all { Some(id.object_id.cookie) } else { o.cookie })
                } else { self == o },
                BusEvent::ServiceDestroyed(id) => if id.object_id.uuid == o.object && o.services@.dom().contains(id.uuid) {
                    self.services@ == o.services@.insert(id.uuid, None) && self.cookie is None
                } else { self == o },
                _ => self == o,
            }
        }
    }
    pub proof fn ws_next<Key: Copy>(o: SpecificObjectWithServices<Key>, n: SpecificObjectWithServices<Key>, b: VxBus, e: BusEvent)
        requires o.rep(b), b.wf(), b.legal(e), n.nextst(o, e)
        ensures n.rep(b.step(e)) //@C19
    {
        let c = b.step(e);
        let w = o.want();
        let s0 = choose|s: ServiceUuid| #[trigger] o.services@.dom().contains(s);
        assert(n.services@.dom() =~= o.services@.dom());
        assert(n.services@.dom().contains(s0));
        assert(o.vx_view().dom().contains(o.object) <==> w.on(b, o.object));
        assert forall|u: ObjectUuid, s: ServiceUuid| c.has_svc(u, s) == (match e {
            BusEvent::ServiceCreated(id) => b.has_svc(u, s) || (u == id.object_id.uuid && s == id.uuid),
            BusEvent::ServiceDestroyed(id) => b.has_svc(u, s) && !(u == id.object_id.uuid && s == id.uuid),
            _ => b.has_svc(u, s) }) by {}
        assert forall|s: ServiceUuid| #[trigger] n.services@.dom().contains(s) implies n.services@[s] == (if c.has_svc(n.object, s) { Some(c.svc[(n.object, s)].cookie) } else { None }) by {
            assert(o.services@.dom().contains(s));
        }
        assert(c.has_obj(o.object) ==> c.has_svc(o.object, s0) ==> b.has_obj(o.object));
        assert forall|u: ObjectUuid| #[trigger] n.vx_view().dom().contains(u) <==> n.want().on(c, u) by {
            if u == o.object {
                assert(w.services.contains(s0));
                if n.want().on(c, u) { assert(c.has_svc(u, s0)); }
                match e {
                    BusEvent::ServiceCreated(id) => {
                        if id.object_id.uuid == u && o.services@.dom().contains(id.uuid) {
                            assert(n.services@.dom().contains(id.uuid)); assert(w.services.contains(id.uuid)); assert(!b.has_svc(u, id.uuid));
                            if n.vx_view().dom().contains(u) { assert forall|s: ServiceUuid| #[trigger] n.want().services.contains(s) implies c.has_svc(u, s) by { assert(n.services@.dom().contains(s)); } }
                            if n.want().on(c, u) { assert forall|s: ServiceUuid| #[trigger] n.services@.dom().contains(s) implies n.services@[s] is Some by { assert(n.want().services.contains(s)); } }
                        } else { assert forall|s: ServiceUuid| #[trigger] w.services.contains(s) implies c.has_svc(u, s) == b.has_svc(u, s) by {} }
                    }
                    BusEvent::ServiceDestroyed(id) => {
                        if id.object_id.uuid == u && o.services@.dom().contains(id.uuid) {
                            assert(n.want().services.contains(id.uuid)); assert(!c.has_svc(u, id.uuid));
                        } else { assert forall|s: ServiceUuid| #[trigger] w.services.contains(s) implies c.has_svc(u, s) == b.has_svc(u, s) by {} }
                    }
                    _ => { assert forall|s: ServiceUuid| #[trigger] w.services.contains(s) implies c.has_svc(u, s) == b.has_svc(u, s) by {} }
                }
            }
        }
    }
fn SpecificObjectWithServices::new
    requires forall|s: ServiceUuid| #[trigger] services@.dom().contains(s) ==> services@[s] is None, exists|s: ServiceUuid| #[trigger] services@.dom().contains(s), //@C19
    ensures r.key == key, r.want() == (VxWant { obj: Some(object), services: services@.dom() }), r.rep(VxBus::empty()), //@C19
fn SpecificObjectWithServices::reset
    ensures final(self).key == old(self).key, final(self).want() =~= old(self).want(), old(self).some_svc() ==> final(self).rep(VxBus::empty()), //@C19
loop SpecificObjectWithServices::reset 0
    invariant
        vx_it0.wf(), self.key == old(self).key, self.object == old(self).object, self.cookie is None,
        vx_it0.all() == vx_m0,
        forall|i: int| 0 <= i < vx_it0.pos() ==> *final(#[trigger] vx_m0[i]) is None,
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.left(),
hint SpecificObjectWithServices::reset loop0.before
    let ghost vx_m0 = vx_it0.all();
fn SpecificObjectWithServices::key
    ensures r == self.key, //@C19
fn SpecificObjectWithServices::object_id_unchecked
    requires self.cookie is Some, //@C19
    ensures r == (ObjectId { uuid: self.object, cookie: self.cookie->0 }), //@C19
fn SpecificObjectWithServices::object_id
    requires object == self.object, //@C19
    ensures r is Some <==> self.vx_view().dom().contains(object), r is Some ==> r->0 == (ObjectId { uuid: object, cookie: self.vx_view()[object] }), //@C19
fn SpecificObjectWithServices::service_cookie_unchecked
    requires self.services@.dom().contains(service), self.services@[service] is Some, //@C19
    ensures r == self.services@[service]->0, //@C19
fn SpecificObjectWithServices::service_id_unchecked
    requires self.services@.dom().contains(service), self.services@[service] is Some, self.cookie is Some, //@C19
    ensures r == self.sid(service), //@C19
fn SpecificObjectWithServices::service_id
    requires object == self.object, self.services@.dom().contains(service), self.full(), //@C19
    ensures r is Some <==> self.vx_view().dom().contains(object), r is Some ==> r->0 == self.sid(service), //@C19
fn SpecificObjectWithServices::service_ids_unchecked
    requires self.cookie is Some, self.full(), services.wf(), services.pos() == 0, forall|i: int| 0 <= i < services.all().len() ==> self.services@.dom().contains(#[trigger] services.all()[i]), //@C19
    ensures r@.len() == services.all().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == self.sid(services.all()[i]), //@C19
loop SpecificObjectWithServices::service_ids_unchecked 0
    invariant
        vx_it0.wf(), vx_it0.all() == services.all(), vx_vec@.len() == vx_it0.pos(), self.cookie is Some, self.full(),
        object_id == (ObjectId { uuid: self.object, cookie: self.cookie->0 }),
        forall|i: int| 0 <= i < services.all().len() ==> self.services@.dom().contains(#[trigger] services.all()[i]),
        forall|i: int| 0 <= i < vx_vec@.len() ==> (#[trigger] vx_vec@[i]) == self.sid(services.all()[i]),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.left(),
fn SpecificObjectWithServices::service_ids
    requires object == self.object, self.full(), services.wf(), services.pos() == 0, forall|i: int| 0 <= i < services.all().len() ==> self.services@.dom().contains(#[trigger] services.all()[i]), //@C19
    ensures r is Some <==> self.vx_view().dom().contains(object), r is Some ==> r->0@.len() == services.all().len() && forall|i: int| 0 <= i < r->0@.len() ==> (#[trigger] r->0@[i]) == self.sid(services.all()[i]), //@C19
loop SpecificObjectWithServices::service_ids 0
    invariant
        vx_it0.wf(), vx_it0.all() == services.all(), vx_vec@.len() == vx_it0.pos(), self.cookie is Some, self.full(),
        object_id == (ObjectId { uuid: self.object, cookie: self.cookie->0 }),
        forall|i: int| 0 <= i < services.all().len() ==> self.services@.dom().contains(#[trigger] services.all()[i]),
        forall|i: int| 0 <= i < vx_vec@.len() ==> (#[trigger] vx_vec@[i]) == self.sid(services.all()[i]),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.left(),
fn SpecificObjectWithServices::contains
    ensures r == self.vx_view().dom().contains(object), //@C19
fn SpecificObjectWithServices::contains_any
    ensures r == exists|u: ObjectUuid| self.vx_view().dom().contains(u), //@C19
hint SpecificObjectWithServices::contains_any start
    proof { if self.cookie is Some { assert(self.vx_view().dom().contains(self.object)); } }
fn SpecificObjectWithServices::iter
    // the object, exactly if it is reported
    ensures r.next.wf(), r.next.pos() == 0, r.next.all().len() == (if self.cookie is Some { 1nat } else { 0 }), //@C19
        self.cookie is Some ==> *r.next.all()[0].object == *self, //@C19
fn SpecificObjectWithServices::handle_event
    requires exists|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(event), //@C19
    ensures forall|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(event) ==> final(self).rep(b.step(event)), //@C19
        final(self).key == old(self).key, final(self).want() =~= old(self).want(), vx_ev(old(self).key, old(self).vx_view(), final(self).vx_view(), r), //@C19
fn SpecificObjectWithServices::service_created
    requires exists|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(BusEvent::ServiceCreated(id)), //@C19
    ensures forall|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(BusEvent::ServiceCreated(id)) ==> final(self).rep(b.step(BusEvent::ServiceCreated(id))), //@C19
        final(self).key == old(self).key, final(self).want() =~= old(self).want(), vx_ev(old(self).key, old(self).vx_view(), final(self).vx_view(), r), //@C19
hint SpecificObjectWithServices::service_created start
    proof { assert forall|b: VxBus, n: SpecificObjectWithServices<Key>| self.rep(b) && b.wf() && b.legal(BusEvent::ServiceCreated(id)) && n.nextst(*self, BusEvent::ServiceCreated(id)) implies #[trigger] n.rep(b.step(BusEvent::ServiceCreated(id))) by { ws_next(*self, n, b, BusEvent::ServiceCreated(id)); } }
    let ghost vx_b = choose|b: VxBus| #[trigger] self.rep(b) && b.wf() && b.legal(BusEvent::ServiceCreated(id));
    proof { assert(self.vx_view().dom().contains(self.object) <==> self.want().on(vx_b, self.object)); assert(self.want().services == self.services@.dom()); }
fn SpecificObjectWithServices::service_destroyed
    requires exists|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(BusEvent::ServiceDestroyed(id)), //@C19
    ensures forall|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(BusEvent::ServiceDestroyed(id)) ==> final(self).rep(b.step(BusEvent::ServiceDestroyed(id))), //@C19
        final(self).key == old(self).key, final(self).want() =~= old(self).want(), vx_ev(old(self).key, old(self).vx_view(), final(self).vx_view(), r), //@C19
hint SpecificObjectWithServices::service_destroyed start
    proof { assert forall|b: VxBus, n: SpecificObjectWithServices<Key>| self.rep(b) && b.wf() && b.legal(BusEvent::ServiceDestroyed(id)) && n.nextst(*self, BusEvent::ServiceDestroyed(id)) implies #[trigger] n.rep(b.step(BusEvent::ServiceDestroyed(id))) by { ws_next(*self, n, b, BusEvent::ServiceDestroyed(id)); } }
    let ghost vx_b = choose|b: VxBus| #[trigger] self.rep(b) && b.wf() && b.legal(BusEvent::ServiceDestroyed(id));
    proof { assert(self.vx_view().dom().contains(self.object) <==> self.want().on(vx_b, self.object)); assert(self.want().services == self.services@.dom()); }
loop SpecificObjectWithServices::service_created 0
    invariant_except_break
        vx_found, forall|i: int| #![trigger vx_it0.all()[i]] 0 <= i < vx_it0.pos() ==> *vx_it0.all()[i] is Some,
    invariant vx_it0.wf(), vx_it0.all() == vx_i0.all(),
        forall|i: int| #![trigger vx_i0.all()[i]] #![trigger vx_key_at::<ServiceUuid, Option<ServiceCookie>>(vx_i0, i)] 0 <= i < vx_i0.all().len() ==> vx_s@.dom().contains(vx_key_at::<ServiceUuid, Option<ServiceCookie>>(vx_i0, i)) && vx_s@[vx_key_at::<ServiceUuid, Option<ServiceCookie>>(vx_i0, i)] == *vx_i0.all()[i],
        forall|k: ServiceUuid| #![trigger vx_s@.dom().contains(k)] vx_s@.dom().contains(k) ==> 0 <= vx_idx_of::<ServiceUuid, Option<ServiceCookie>>(vx_i0, k) < vx_i0.all().len() && vx_key_at::<ServiceUuid, Option<ServiceCookie>>(vx_i0, vx_idx_of::<ServiceUuid, Option<ServiceCookie>>(vx_i0, k)) == k,
    ensures vx_found == (forall|s: ServiceUuid| #[trigger] vx_s@.dom().contains(s) ==> vx_s@[s] is Some),
    decreases vx_it0.left(),
hint SpecificObjectWithServices::service_created loop0.before
    let ghost vx_s = self.services; let ghost vx_i0 = vx_it0;
fn SpecificObjectWithServicesIter::new
    ensures r.next.wf(), r.next.pos() == 0, r.next.all() == (match next { Some(x) => seq![x], None => Seq::empty() }), //@C19
fn SpecificObjectWithServicesIter::next
    requires old(self).next.wf(), //@C19
    ensures final(self).next.wf(), final(self).next.all() == old(self).next.all(), //@C19
        r is Some <==> old(self).next.pos() < old(self).next.all().len(), r is Some ==> r->0 == old(self).next.all()[old(self).next.pos()] && final(self).next.pos() == old(self).next.pos() + 1, //@C19
fn SpecificObjectWithServicesIterEntry::new
    ensures r.object == object, //@C19
fn SpecificObjectWithServicesIterEntry::key
    ensures r == self.object.key, //@C19
fn SpecificObjectWithServicesIterEntry::object_id
    requires self.object.cookie is Some, //@C19
    ensures r == (ObjectId { uuid: self.object.object, cookie: self.object.cookie->0 }), //@C19
fn SpecificObjectWithServicesIterEntry::service_id
    requires self.object.services@.dom().contains(service), self.object.services@[service] is Some, self.object.cookie is Some, //@C19
    ensures r == self.object.sid(service), //@C19
fn SpecificObjectWithServicesIterEntry::service_ids
    requires self.object.cookie is Some, self.object.full(), services.wf(), services.pos() == 0, forall|i: int| 0 <= i < services.all().len() ==> self.object.services@.dom().contains(#[trigger] services.all()[i]), //@C19
    ensures r@.len() == services.all().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == self.object.sid(services.all()[i]), //@C19
fn SpecificObjectWithServices::add_filter
    requires old(listener).wf(), //@C19
    ensures final(listener).wf(), vx_same_counts(old(listener).events, final(listener).events), vx_over(final(listener).events) == vx_over(old(listener).events), //@C19
        // the filters of the entry and nothing else
        r is Ok && self.some_svc() ==> forall|f: BusListenerFilter| #[trigger] final(listener).filters@.contains(f) <==> old(listener).filters@.contains(f) || self.want().filter(f), //@C19
loop SpecificObjectWithServices::add_filter 0
    invariant
        vx_it0.wf(), listener.wf(), vx_same_counts(old(listener).events, listener.events), vx_over(listener.events) == vx_over(old(listener).events),
        forall|i: int| #![trigger vx_it0.all()[i]] 0 <= i < vx_it0.all().len() ==> self.services@.dom().contains(*vx_it0.all()[i]),
        forall|k: ServiceUuid| #![trigger self.services@.dom().contains(k)] self.services@.dom().contains(k) ==> exists|i: int| 0 <= i < vx_it0.all().len() && *(#[trigger] vx_it0.all()[i]) == k,
        forall|f: BusListenerFilter| #[trigger] listener.filters@.contains(f) <==> old(listener).filters@.contains(f) || vx_part_of(f, Some(self.object), vx_it0),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.left(),
post
    /// the filter of one of the services listed so far
    pub open spec fn vx_part_of(f: BusListenerFilter, o: Option<ObjectUuid>, it: VxIter<&ServiceUuid>) -> bool {
        f is Service && f->Service_0.object == o && f->Service_0.service is Some && exists|i: int| 0 <= i < it.pos() && *(#[trigger] it.all()[i]) == f->Service_0.service->0
    }
hint SpecificObjectWithServices::handle_event start
    proof { assert forall|b: VxBus, n: SpecificObjectWithServices<Key>| self.rep(b) && b.wf() && b.legal(event) && n.nextst(*self, event) implies #[trigger] n.rep(b.step(event)) by { ws_next(*self, n, b, event); } }
