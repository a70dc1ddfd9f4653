source aldrin/src/discoverer/any.rs
only =AnyObject AnyObject AnyObjectIter AnyObjectIterEntry
skip AnyObject::service_ids_n AnyObjectIter::size_hint AnyObjectIterEntry::service_ids_n
derive AnyObjectIterEntry Clone, Copy
attr AnyObjectIter #[verifier::reject_recursive_types(Key)]
keep impl Iterator for AnyObjectIter<'a,Key>
inherent impl Iterator for AnyObjectIter<'a,Key>
post
    impl<Key: Copy> AnyObject<Key> {
        pub open spec fn want(self) -> VxWant { VxWant { obj: None, services: self.services@.dom() } }
        pub open spec fn vx_view(self) -> Map<ObjectUuid, ObjectCookie> { self.created@ }
        pub open spec fn svc_rep(self, b: VxBus) -> bool {
            &&& forall|s: ServiceUuid, u: ObjectUuid| #![trigger self.services@[s]@.dom().contains(u)] #![trigger b.has_svc(u, s)] self.services@.dom().contains(s) ==> self.services@[s]@.dom().contains(u) == b.has_svc(u, s)
            &&& forall|s: ServiceUuid, u: ObjectUuid| #![trigger self.services@[s]@.dom().contains(u)] #![trigger self.services@[s]@[u]] self.services@.dom().contains(s) && self.services@[s]@.dom().contains(u) ==> self.services@[s]@[u] == b.svc[(u, s)].cookie
        }
        pub open spec fn rep(self, b: VxBus) -> bool { self.want().shows(self.vx_view(), b) && self.svc_rep(b) }
        pub open spec fn has_all(self, u: ObjectUuid) -> bool { forall|s: ServiceUuid| #[trigger] self.services@.dom().contains(s) ==> self.services@[s]@.dom().contains(u) }
        /// where the entry reports an object it knows the services
        pub open spec fn full(self) -> bool { forall|u: ObjectUuid| #[trigger] self.created@.dom().contains(u) ==> self.has_all(u) }
        pub open spec fn sid(self, u: ObjectUuid, s: ServiceUuid) -> ServiceId { ServiceId { object_id: ObjectId { uuid: u, cookie: self.created@[u] }, uuid: s, cookie: self.services@[s]@[u] } }
        /// what an event does to the entry
        pub open spec fn nextst(self, o: Self, e: BusEvent) -> bool {
            &&& self.key == o.key && self.services@.dom() =~= o.services@.dom()
            &&& match e {
                BusEvent::ObjectCreated(id) => self.services == o.services && self.created@ == (if o.services@.dom() =~= Set::<ServiceUuid>::empty() { o.created@.insert(id.uuid, id.cookie) } else { o.created@ }),
                BusEvent::ObjectDestroyed(id) => self.services == o.services && self.created@ =~= o.created@.remove(id.uuid),
                BusEvent::ServiceCreated(id) => if o.services@.dom().contains(id.uuid) {
                    &&& forall|s: ServiceUuid| #[trigger] o.services@.dom().contains(s) ==> self.services@[s]@ == (if s == id.uuid { o.services@[s]@.insert(id.object_id.uuid, id.cookie) } else { o.services@[s]@ })
                    &&& self.created@ == (if self.has_all(id.object_id.uuid) { o.created@.insert(id.object_id.uuid, id.object_id.cookie) } else { o.created@ })
                } else { self == o },
                BusEvent::ServiceDestroyed(id) => if o.services@.dom().contains(id.uuid) {
                    &&& forall|s: ServiceUuid| #[trigger] o.services@.dom().contains(s) ==> self.services@[s]@ == (if s == id.uuid { o.services@[s]@.remove(id.object_id.uuid) } else { o.services@[s]@ })
                    &&& self.created@ =~= o.created@.remove(id.object_id.uuid)
                } else { self == o },
            }
        }
    }
    pub proof fn any_next<Key: Copy>(o: AnyObject<Key>, n: AnyObject<Key>, b: VxBus, e: BusEvent)
        requires o.rep(b), b.wf(), b.legal(e), n.nextst(o, e)
        ensures n.rep(b.step(e)) //@C19
    {
        let c = b.step(e);
        let w = o.want();
        let none = o.services@.dom() =~= Set::<ServiceUuid>::empty();
        let s0 = choose|s: ServiceUuid| #[trigger] o.services@.dom().contains(s);
        assert(!none ==> o.services@.dom().contains(s0)) by { if !none && !o.services@.dom().contains(s0) { assert forall|s: ServiceUuid| !o.services@.dom().contains(s) by {} } }
        assert forall|u: ObjectUuid, s: ServiceUuid| #[trigger] c.has_svc(u, s) == (match e {
            BusEvent::ServiceCreated(id) => b.has_svc(u, s) || (u == id.object_id.uuid && s == id.uuid),
            BusEvent::ServiceDestroyed(id) => b.has_svc(u, s) && !(u == id.object_id.uuid && s == id.uuid),
            _ => b.has_svc(u, s) }) by {}
        assert forall|s: ServiceUuid, u: ObjectUuid| n.services@.dom().contains(s) implies #[trigger] n.services@[s]@.dom().contains(u) == c.has_svc(u, s) by { assert(o.services@.dom().contains(s)); assert(o.services@[s]@.dom().contains(u) == b.has_svc(u, s)); }
        assert forall|s: ServiceUuid, u: ObjectUuid| n.services@.dom().contains(s) && n.services@[s]@.dom().contains(u) implies #[trigger] n.services@[s]@[u] == c.svc[(u, s)].cookie by {
            assert(o.services@.dom().contains(s)); assert(o.services@[s]@.dom().contains(u) == b.has_svc(u, s)); assert(c.has_svc(u, s)); }
        assert forall|u: ObjectUuid| w.on(c, u) == #[trigger] n.want().on(c, u) by { assert(n.want().services =~= w.services); }
        assert forall|u: ObjectUuid| #[trigger] n.vx_view().dom().contains(u) == n.want().on(c, u) by {
            assert(o.vx_view().dom().contains(u) == w.on(b, u));
            if !none { assert(w.services.contains(s0)); if w.on(c, u) { assert(c.has_svc(u, s0)); } }
            match e {
                BusEvent::ServiceCreated(id) => {
                    if id.object_id.uuid == u && o.services@.dom().contains(id.uuid) {
                        assert(w.services.contains(id.uuid)); assert(!b.has_svc(u, id.uuid));
                        if n.has_all(u) { assert forall|s: ServiceUuid| #[trigger] w.services.contains(s) implies c.has_svc(u, s) by { assert(n.services@.dom().contains(s)); assert(n.services@[s]@.dom().contains(u)); } }
                        if w.on(c, u) { assert forall|s: ServiceUuid| #[trigger] n.services@.dom().contains(s) implies n.services@[s]@.dom().contains(u) by { assert(w.services.contains(s)); } }
                    } else { assert forall|s: ServiceUuid| #[trigger] w.services.contains(s) implies c.has_svc(u, s) == b.has_svc(u, s) by {} }
                }
                BusEvent::ServiceDestroyed(id) => {
                    if id.object_id.uuid == u && o.services@.dom().contains(id.uuid) { assert(w.services.contains(id.uuid)); assert(!c.has_svc(u, id.uuid)); }
                    else { assert forall|s: ServiceUuid| #[trigger] w.services.contains(s) implies c.has_svc(u, s) == b.has_svc(u, s) by {} }
                }
                BusEvent::ObjectCreated(id) => { assert forall|s: ServiceUuid| #[trigger] w.services.contains(s) implies c.has_svc(u, s) == b.has_svc(u, s) by {} if none { assert(forall|s: ServiceUuid| !w.services.contains(s)); } }
                BusEvent::ObjectDestroyed(id) => { assert forall|s: ServiceUuid| #[trigger] w.services.contains(s) implies c.has_svc(u, s) == b.has_svc(u, s) by {} }
            }
        }
        assert forall|u: ObjectUuid| #[trigger] n.vx_view().dom().contains(u) implies n.vx_view()[u] == c.obj[u] by {
            assert(w.on(c, u)); assert(o.vx_view().dom().contains(u) == w.on(b, u));
            if !none { assert(w.services.contains(s0)); assert(c.has_svc(u, s0)); }
        }
    }
post
    /// these are the reported objects, each once
    pub open spec fn vx_lists(s: Seq<ObjectId>, v: Map<ObjectUuid, ObjectCookie>) -> bool {
        &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].uuid != s[j].uuid
        &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> v.dom().contains(s[i].uuid) && v[s[i].uuid] == s[i].cookie
        &&& forall|u: ObjectUuid| #[trigger] v.dom().contains(u) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).uuid == u
    }
    impl<'a, Key: Copy> AnyObjectIterEntry<'a, Key> {
        pub open spec fn ok(self) -> bool { self.object.full() && self.object.created@.dom().contains(self.object_id.uuid) }
    }
    impl<'a, Key: Copy> AnyObjectIter<'a, Key> {
        pub open spec fn ok(self) -> bool { self.inner.wf() && self.object.full() && forall|i: int| #![trigger self.inner.all()[i]] 0 <= i < self.inner.all().len() ==> self.object.created@.dom().contains(*self.inner.all()[i].0) }
        pub open spec fn rest(self) -> Seq<ObjectId> { Seq::new(self.inner.left(), |i: int| ObjectId { uuid: *self.inner.all()[self.inner.pos() + i].0, cookie: *self.inner.all()[self.inner.pos() + i].1 }) }
    }
fn AnyObject::new
    requires services.wf(), services.pos() == 0, //@C19
    ensures r.key == key, r.want().obj is None, r.rep(VxBus::empty()), //@C19
        forall|s: ServiceUuid| #[trigger] r.want().services.contains(s) <==> exists|i: int| 0 <= i < services.all().len() && services.all()[i] == s, //@C19
loop AnyObject::new 0
    invariant vx_it0.wf(), vx_it0.all() == services.all(), vx_vec@.len() == vx_it0.pos(), forall|i: int| #![trigger vx_vec@[i]] #![trigger services.all()[i]] 0 <= i < vx_vec@.len() ==> vx_vec@[i].0 == services.all()[i] && vx_vec@[i].1@ == Map::<ObjectUuid, ServiceCookie>::empty(),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.left(),
hint AnyObject::new loop0.before
    let ghost vx_t: Seq<(ServiceUuid, HashMap<ObjectUuid, ServiceCookie>)> = vx_vec@;
fn AnyObject::add_filter
    requires old(listener).wf(), //@C19
    ensures final(listener).wf(), vx_same_counts(old(listener).events, final(listener).events), vx_over(final(listener).events) == vx_over(old(listener).events), //@C19
        // the filters of the entry and nothing else
        r is Ok ==> forall|f: BusListenerFilter| #[trigger] final(listener).filters@.contains(f) <==> old(listener).filters@.contains(f) || self.want().filter(f), //@C19
loop AnyObject::add_filter 0
    invariant
        vx_it0.wf(), listener.wf(), vx_same_counts(old(listener).events, listener.events), vx_over(listener.events) == vx_over(old(listener).events),
        forall|i: int| #![trigger vx_it0.all()[i]] 0 <= i < vx_it0.all().len() ==> self.services@.dom().contains(*vx_it0.all()[i]),
        forall|k: ServiceUuid| #![trigger self.services@.dom().contains(k)] self.services@.dom().contains(k) ==> exists|i: int| 0 <= i < vx_it0.all().len() && *(#[trigger] vx_it0.all()[i]) == k,
        forall|f: BusListenerFilter| #[trigger] listener.filters@.contains(f) <==> old(listener).filters@.contains(f) || vx_part_of(f, None, vx_it0),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.left(),
fn AnyObject::reset
    ensures final(self).key == old(self).key, final(self).want() =~= old(self).want(), final(self).rep(VxBus::empty()), //@C19
loop AnyObject::reset 0
    invariant
        vx_it0.wf(), self.key == old(self).key, self.created@ == Map::<ObjectUuid, ObjectCookie>::empty(),
        vx_it0.all() == vx_m0,
        forall|i: int| 0 <= i < vx_it0.pos() ==> (*final(#[trigger] vx_m0[i]))@ == Map::<ObjectUuid, ServiceCookie>::empty(),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.left(),
hint AnyObject::reset loop0.before
    let ghost vx_m0 = vx_it0.all();
fn AnyObject::key
    ensures r == self.key, //@C19
fn AnyObject::object_id
    ensures r is Some <==> self.vx_view().dom().contains(object), r is Some ==> r->0 == (ObjectId { uuid: object, cookie: self.vx_view()[object] }), //@C19
fn AnyObject::service_cookie_unchecked
    requires self.services@.dom().contains(service), self.services@[service]@.dom().contains(object), //@C19
    ensures r == self.services@[service]@[object], //@C19
fn AnyObject::service_id
    requires self.services@.dom().contains(service), self.full(), //@C19
    ensures r is Some <==> self.vx_view().dom().contains(object), r is Some ==> r->0 == self.sid(object, service), //@C19
fn AnyObject::service_ids
    requires self.full(), services.wf(), services.pos() == 0, forall|i: int| 0 <= i < services.all().len() ==> self.services@.dom().contains(#[trigger] services.all()[i]), //@C19
    ensures r is Some <==> self.vx_view().dom().contains(object), r is Some ==> r->0@.len() == services.all().len() && forall|i: int| 0 <= i < r->0@.len() ==> (#[trigger] r->0@[i]) == self.sid(object, services.all()[i]), //@C19
loop AnyObject::service_ids 0
    invariant
        vx_it0.wf(), vx_it0.all() == services.all(), vx_vec@.len() == vx_it0.pos(), self.created@.dom().contains(object), self.full(),
        object_id == (ObjectId { uuid: object, cookie: self.created@[object] }),
        forall|i: int| 0 <= i < services.all().len() ==> self.services@.dom().contains(#[trigger] services.all()[i]),
        forall|i: int| 0 <= i < vx_vec@.len() ==> (#[trigger] vx_vec@[i]) == self.sid(object, services.all()[i]),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.left(),
fn AnyObject::contains
    ensures r == self.vx_view().dom().contains(object), //@C19
fn AnyObject::contains_any
    ensures r == exists|u: ObjectUuid| self.vx_view().dom().contains(u), //@C19
hint AnyObject::contains_any start
    proof { if exists|u: ObjectUuid| self.created@.dom().contains(u) { let u = choose|u: ObjectUuid| self.created@.dom().contains(u); assert(self.vx_view().dom().contains(u)); } if forall|u: ObjectUuid| !self.created@.dom().contains(u) { assert(self.created@.dom() =~= Set::<ObjectUuid>::empty()); } }
fn AnyObject::iter
    // exactly the reported objects, each once
    ensures r.inner.wf(), r.inner.pos() == 0, r.object == self, //@C19
        forall|i: int, j: int| #![trigger r.inner.all()[i], r.inner.all()[j]] 0 <= i < j < r.inner.all().len() ==> *r.inner.all()[i].0 != *r.inner.all()[j].0, //@C19
        forall|i: int| #![trigger r.inner.all()[i]] 0 <= i < r.inner.all().len() ==> self.vx_view().dom().contains(*r.inner.all()[i].0) && self.vx_view()[*r.inner.all()[i].0] == *r.inner.all()[i].1, //@C19
        forall|u: ObjectUuid| #![trigger self.vx_view().dom().contains(u)] self.vx_view().dom().contains(u) ==> exists|i: int| 0 <= i < r.inner.all().len() && *(#[trigger] r.inner.all()[i]).0 == u, //@C19
        self.full() ==> r.ok(), //@C19
        vx_lists(r.rest(), self.vx_view()), //@C19
hint AnyObject::iter ret
    proof {
        let a = vx_ret.inner.all(); let s = vx_ret.rest(); let v = self.vx_view();
        assert(s.len() == a.len()); assert forall|i: int| #![trigger s[i]] #![trigger a[i]] 0 <= i < s.len() implies s[i].uuid == *a[i].0 && s[i].cookie == *a[i].1 by { assert(vx_ret.inner.pos() + i == i); }
        assert forall|u: ObjectUuid| #[trigger] v.dom().contains(u) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).uuid == u by { let i = choose|i: int| 0 <= i < a.len() && *(#[trigger] a[i]).0 == u; assert(s[i].uuid == u); }
    }
fn AnyObjectIter::new
    ensures r.object == object, r.inner == inner, //@C19
fn AnyObjectIter::next
    requires old(self).inner.wf(), //@C19
    ensures final(self).inner.wf(), final(self).inner.all() == old(self).inner.all(), final(self).object == old(self).object, //@C19
        r is Some <==> old(self).inner.pos() < old(self).inner.all().len(), //@C19
        r is Some ==> final(self).inner.pos() == old(self).inner.pos() + 1 && r->0.object == old(self).object && r->0.object_id.uuid == *old(self).inner.all()[old(self).inner.pos()].0 && r->0.object_id.cookie == *old(self).inner.all()[old(self).inner.pos()].1, //@C19
fn AnyObjectIterEntry::new
    ensures r.object == object, r.object_id == (ObjectId { uuid, cookie }), //@C19
fn AnyObjectIterEntry::key
    ensures r == self.object.key, //@C19
fn AnyObjectIterEntry::object_id
    ensures r == self.object_id, //@C19
fn AnyObjectIterEntry::service_id
    requires self.object.services@.dom().contains(service), self.object.full(), self.object.created@.dom().contains(self.object_id.uuid), //@C19
    ensures r == self.object.sid(self.object_id.uuid, service), //@C19
fn AnyObjectIterEntry::service_ids
    requires self.object.full(), self.object.created@.dom().contains(self.object_id.uuid), services.wf(), services.pos() == 0, forall|i: int| 0 <= i < services.all().len() ==> self.object.services@.dom().contains(#[trigger] services.all()[i]), //@C19
    ensures r@.len() == services.all().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == self.object.sid(self.object_id.uuid, services.all()[i]), //@C19
fn AnyObject::handle_event
    requires exists|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(event), //@C19
    ensures forall|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(event) ==> final(self).rep(b.step(event)), //@C19
        final(self).key == old(self).key, final(self).want() =~= old(self).want(), vx_ev(old(self).key, old(self).vx_view(), final(self).vx_view(), r), //@C19
fn AnyObject::object_created
    requires exists|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(BusEvent::ObjectCreated(id)), //@C19
    ensures forall|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(BusEvent::ObjectCreated(id)) ==> final(self).rep(b.step(BusEvent::ObjectCreated(id))), //@C19
        final(self).key == old(self).key, final(self).want() =~= old(self).want(), vx_ev(old(self).key, old(self).vx_view(), final(self).vx_view(), r), //@C19
hint AnyObject::object_created start
    let ghost vx_o = *self;
    let ghost vx_b = choose|b: VxBus| #[trigger] self.rep(b) && b.wf() && b.legal(BusEvent::ObjectCreated(id));
    proof { assert forall|b: VxBus, n: AnyObject<Key>| self.rep(b) && b.wf() && b.legal(BusEvent::ObjectCreated(id)) && n.nextst(*self, BusEvent::ObjectCreated(id)) implies #[trigger] n.rep(b.step(BusEvent::ObjectCreated(id))) by { any_next(*self, n, b, BusEvent::ObjectCreated(id)); }
        assert(self.vx_view().dom().contains(id.uuid) <==> self.want().on(vx_b, id.uuid)); assert(self.want().services == self.services@.dom()); }
fn AnyObject::object_destroyed
    requires exists|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(BusEvent::ObjectDestroyed(id)), //@C19
    ensures forall|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(BusEvent::ObjectDestroyed(id)) ==> final(self).rep(b.step(BusEvent::ObjectDestroyed(id))), //@C19
        final(self).key == old(self).key, final(self).want() =~= old(self).want(), vx_ev(old(self).key, old(self).vx_view(), final(self).vx_view(), r), //@C19
hint AnyObject::object_destroyed start
    let ghost vx_o = *self;
    let ghost vx_b = choose|b: VxBus| #[trigger] self.rep(b) && b.wf() && b.legal(BusEvent::ObjectDestroyed(id));
    proof { assert forall|b: VxBus, n: AnyObject<Key>| self.rep(b) && b.wf() && b.legal(BusEvent::ObjectDestroyed(id)) && n.nextst(*self, BusEvent::ObjectDestroyed(id)) implies #[trigger] n.rep(b.step(BusEvent::ObjectDestroyed(id))) by { any_next(*self, n, b, BusEvent::ObjectDestroyed(id)); }
        assert(self.vx_view().dom().contains(id.uuid) <==> self.want().on(vx_b, id.uuid)); assert(self.want().services == self.services@.dom()); }
fn AnyObject::service_created
    requires exists|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(BusEvent::ServiceCreated(id)), //@C19
    ensures forall|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(BusEvent::ServiceCreated(id)) ==> final(self).rep(b.step(BusEvent::ServiceCreated(id))), //@C19
        final(self).key == old(self).key, final(self).want() =~= old(self).want(), vx_ev(old(self).key, old(self).vx_view(), final(self).vx_view(), r), //@C19
hint AnyObject::service_created start
    let ghost vx_o = *self;
    let ghost vx_b = choose|b: VxBus| #[trigger] self.rep(b) && b.wf() && b.legal(BusEvent::ServiceCreated(id));
    proof { assert forall|b: VxBus, n: AnyObject<Key>| self.rep(b) && b.wf() && b.legal(BusEvent::ServiceCreated(id)) && n.nextst(*self, BusEvent::ServiceCreated(id)) implies #[trigger] n.rep(b.step(BusEvent::ServiceCreated(id))) by { any_next(*self, n, b, BusEvent::ServiceCreated(id)); }
        assert(self.vx_view().dom().contains(id.object_id.uuid) <==> self.want().on(vx_b, id.object_id.uuid)); assert(self.want().services == self.services@.dom()); assert(self.services@.dom().contains(id.uuid) ==> self.services@[id.uuid]@.dom().contains(id.object_id.uuid) == vx_b.has_svc(id.object_id.uuid, id.uuid)); }
fn AnyObject::service_destroyed
    requires exists|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(BusEvent::ServiceDestroyed(id)), //@C19
    ensures forall|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(BusEvent::ServiceDestroyed(id)) ==> final(self).rep(b.step(BusEvent::ServiceDestroyed(id))), //@C19
        final(self).key == old(self).key, final(self).want() =~= old(self).want(), vx_ev(old(self).key, old(self).vx_view(), final(self).vx_view(), r), //@C19
hint AnyObject::service_destroyed start
    let ghost vx_o = *self;
    let ghost vx_b = choose|b: VxBus| #[trigger] self.rep(b) && b.wf() && b.legal(BusEvent::ServiceDestroyed(id));
    proof { assert forall|b: VxBus, n: AnyObject<Key>| self.rep(b) && b.wf() && b.legal(BusEvent::ServiceDestroyed(id)) && n.nextst(*self, BusEvent::ServiceDestroyed(id)) implies #[trigger] n.rep(b.step(BusEvent::ServiceDestroyed(id))) by { any_next(*self, n, b, BusEvent::ServiceDestroyed(id)); }
        assert(self.vx_view().dom().contains(id.object_id.uuid) <==> self.want().on(vx_b, id.object_id.uuid)); assert(self.want().services == self.services@.dom()); assert(self.services@.dom().contains(id.uuid) ==> self.services@[id.uuid]@.dom().contains(id.object_id.uuid) == vx_b.has_svc(id.object_id.uuid, id.uuid)); }
loop AnyObject::service_created 0
    invariant_except_break
        vx_found, forall|i: int| #![trigger vx_it0.all()[i]] 0 <= i < vx_it0.pos() ==> vx_it0.all()[i]@.dom().contains(id.object_id.uuid),
    invariant vx_it0.wf(), vx_it0.all() == vx_i0.all(),
        forall|i: int| #![trigger vx_i0.all()[i]] #![trigger vx_key_at::<ServiceUuid, HashMap<ObjectUuid, ServiceCookie>>(vx_i0, i)] 0 <= i < vx_i0.all().len() ==> vx_s@.dom().contains(vx_key_at::<ServiceUuid, HashMap<ObjectUuid, ServiceCookie>>(vx_i0, i)) && vx_s@[vx_key_at::<ServiceUuid, HashMap<ObjectUuid, ServiceCookie>>(vx_i0, i)] == *vx_i0.all()[i],
        forall|k: ServiceUuid| #![trigger vx_s@.dom().contains(k)] vx_s@.dom().contains(k) ==> 0 <= vx_idx_of::<ServiceUuid, HashMap<ObjectUuid, ServiceCookie>>(vx_i0, k) < vx_i0.all().len() && vx_key_at::<ServiceUuid, HashMap<ObjectUuid, ServiceCookie>>(vx_i0, vx_idx_of::<ServiceUuid, HashMap<ObjectUuid, ServiceCookie>>(vx_i0, k)) == k,
    ensures vx_found == (forall|s: ServiceUuid| #[trigger] vx_s@.dom().contains(s) ==> vx_s@[s]@.dom().contains(id.object_id.uuid)),
    decreases vx_it0.left(),
hint AnyObject::service_created loop0.before
    let ghost vx_s = self.services; let ghost vx_i0 = vx_it0;
