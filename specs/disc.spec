// Contracts of aldrin/src/discoverer (C19)
text
    // ---- the bus as the statement sees it: the objects that exist and the services they carry
    pub struct VxBus { pub obj: Map<ObjectUuid, ObjectCookie>, pub svc: Map<(ObjectUuid, ServiceUuid), ServiceId> }
post
    impl VxBus {
        pub open spec fn empty() -> VxBus { VxBus { obj: Map::empty(), svc: Map::empty() } }
        pub open spec fn has_obj(self, u: ObjectUuid) -> bool { self.obj.dom().contains(u) }
        pub open spec fn has_svc(self, u: ObjectUuid, s: ServiceUuid) -> bool { self.svc.dom().contains((u, s)) }
        /// services belong to the current incarnation of an existing object
        pub open spec fn wf(self) -> bool {
            forall|u: ObjectUuid, s: ServiceUuid| #[trigger] self.has_svc(u, s) ==> self.has_obj(u) && self.svc[(u, s)].object_id.uuid == u && self.svc[(u, s)].uuid == s && self.svc[(u, s)].object_id.cookie == self.obj[u]
        }
        /// what can happen next
        pub open spec fn legal(self, e: BusEvent) -> bool {
            match e {
                BusEvent::ObjectCreated(o) => !self.has_obj(o.uuid),
                BusEvent::ObjectDestroyed(o) => self.has_obj(o.uuid) && self.obj[o.uuid] == o.cookie && (forall|s: ServiceUuid| !self.has_svc(o.uuid, s)),
                BusEvent::ServiceCreated(s) => self.has_obj(s.object_id.uuid) && self.obj[s.object_id.uuid] == s.object_id.cookie && !self.has_svc(s.object_id.uuid, s.uuid),
                BusEvent::ServiceDestroyed(s) => self.has_svc(s.object_id.uuid, s.uuid) && self.svc[(s.object_id.uuid, s.uuid)] == s,
            }
        }
        pub open spec fn step(self, e: BusEvent) -> VxBus {
            match e {
                BusEvent::ObjectCreated(o) => VxBus { obj: self.obj.insert(o.uuid, o.cookie), svc: self.svc },
                BusEvent::ObjectDestroyed(o) => VxBus { obj: self.obj.remove(o.uuid), svc: self.svc },
                BusEvent::ServiceCreated(s) => VxBus { obj: self.obj, svc: self.svc.insert((s.object_id.uuid, s.uuid), s) },
                BusEvent::ServiceDestroyed(s) => VxBus { obj: self.obj, svc: self.svc.remove((s.object_id.uuid, s.uuid)) },
            }
        }
    }
    pub proof fn step_wf(b: VxBus, e: BusEvent)
        requires b.wf(), b.legal(e)
        ensures b.step(e).wf() //@C19
    {
        let n = b.step(e);
        assert forall|u: ObjectUuid, s: ServiceUuid| #[trigger] n.has_svc(u, s) implies n.has_obj(u) && n.svc[(u, s)].object_id.uuid == u && n.svc[(u, s)].uuid == s && n.svc[(u, s)].object_id.cookie == n.obj[u] by {
            if let BusEvent::ServiceCreated(x) = e { if (u, s) != (x.object_id.uuid, x.uuid) { assert(b.has_svc(u, s)); } } else { assert(b.has_svc(u, s)); }
        }
    }
    // ---- what an entry asks for: an object (any, or with this uuid) that carries all of these services
    #[verifier::ext_equal]
    pub struct VxWant { pub obj: Option<ObjectUuid>, pub services: Set<ServiceUuid> }
    impl VxWant {
        pub open spec fn hit(self, u: ObjectUuid) -> bool { self.obj is None || self.obj == Some(u) }
        /// the object exists, matches the entry and carries all services
        pub open spec fn on(self, b: VxBus, u: ObjectUuid) -> bool { self.hit(u) && b.has_obj(u) && (forall|s: ServiceUuid| #[trigger] self.services.contains(s) ==> b.has_svc(u, s)) }
        /// exactly these objects, with their current ids
        pub open spec fn shows(self, v: Map<ObjectUuid, ObjectCookie>, b: VxBus) -> bool {
            &&& forall|u: ObjectUuid| #[trigger] v.dom().contains(u) <==> self.on(b, u)
            &&& forall|u: ObjectUuid| #[trigger] v.dom().contains(u) ==> v[u] == b.obj[u]
        }
        /// the filters an entry needs
        pub open spec fn filter(self, f: BusListenerFilter) -> bool {
            if self.services =~= Set::<ServiceUuid>::empty() { f == BusListenerFilter::Object(self.obj) }
            else { f is Service && f->Service_0.object == self.obj && f->Service_0.service is Some && self.services.contains(f->Service_0.service->0) }
        }
    }
    // ---- a created or destroyed event is a transition of the reported objects
    pub open spec fn vx_ev_ok<Key>(v: Map<ObjectUuid, ObjectCookie>, e: DiscovererEvent<Key>) -> bool {
        if e.kind is Created { !v.dom().contains(e.object.uuid) } else { v.dom().contains(e.object.uuid) && v[e.object.uuid] == e.object.cookie }
    }
    pub open spec fn vx_ev_apply<Key>(v: Map<ObjectUuid, ObjectCookie>, e: DiscovererEvent<Key>) -> Map<ObjectUuid, ObjectCookie> {
        if e.kind is Created { v.insert(e.object.uuid, e.object.cookie) } else { v.remove(e.object.uuid) }
    }
    pub open spec fn vx_ev<Key>(key: Key, v: Map<ObjectUuid, ObjectCookie>, w: Map<ObjectUuid, ObjectCookie>, r: Option<DiscovererEvent<Key>>) -> bool {
        match r { None => v =~= w, Some(e) => e.key == key && vx_ev_ok(v, e) && w =~= vx_ev_apply(v, e) }
    }
source aldrin/src/discoverer/event.rs
only =DiscovererEvent DiscovererEventKind DiscovererEvent::new DiscovererEvent::key DiscovererEvent::kind DiscovererEvent::is_created DiscovererEvent::is_destroyed DiscovererEvent::object_id
derive DiscovererEventKind Clone, Copy, PartialEq, Eq, Structural
derive DiscovererEvent Clone, Copy
fn DiscovererEvent::new
    ensures r.key == key, r.kind == kind, r.object == object, //@C19
fn DiscovererEvent::key
    ensures r == self.key, //@C19
fn DiscovererEvent::kind
    ensures r == self.kind, //@C19
fn DiscovererEvent::is_created
    ensures r == (self.kind is Created), //@C19
fn DiscovererEvent::is_destroyed
    ensures r == (self.kind is Destroyed), //@C19
fn DiscovererEvent::object_id
    ensures r == self.object, //@C19
source aldrin/src/discoverer/specific_without_services.rs
only =SpecificObjectWithoutServices SpecificObjectWithoutServices SpecificObjectWithoutServicesIter SpecificObjectWithoutServicesIterEntry
skip SpecificObjectWithoutServices::service_ids_n SpecificObjectWithoutServicesIter::size_hint
derive SpecificObjectWithoutServicesIterEntry Clone, Copy
post
    impl<Key: Copy> SpecificObjectWithoutServices<Key> {
        pub open spec fn want(self) -> VxWant { VxWant { obj: Some(self.object), services: Set::empty() } }
        pub open spec fn vx_view(self) -> Map<ObjectUuid, ObjectCookie> { match self.cookie { Some(c) => Map::empty().insert(self.object, c), None => Map::empty() } }
        pub open spec fn rep(self, b: VxBus) -> bool { self.want().shows(self.vx_view(), b) }
    }
fn SpecificObjectWithoutServices::new
    ensures r.key == key, r.want() == (VxWant { obj: Some(object), services: Set::empty() }), r.rep(VxBus::empty()), //@C19
fn SpecificObjectWithoutServices::reset
    ensures final(self).key == old(self).key, final(self).want() == old(self).want(), final(self).rep(VxBus::empty()), //@C19
fn SpecificObjectWithoutServices::key
    ensures r == self.key, //@C19
fn SpecificObjectWithoutServices::object_id_unchecked
    requires self.cookie is Some, //@C19
    ensures r == (ObjectId { uuid: self.object, cookie: self.cookie->0 }), //@C19
fn SpecificObjectWithoutServices::object_id
    requires object == self.object, //@C19
    ensures r is Some <==> self.vx_view().dom().contains(object), r is Some ==> r->0 == (ObjectId { uuid: object, cookie: self.vx_view()[object] }), //@C19
fn SpecificObjectWithoutServices::contains
    ensures r == self.vx_view().dom().contains(object), //@C19
fn SpecificObjectWithoutServices::contains_any
    ensures r == exists|u: ObjectUuid| self.vx_view().dom().contains(u), //@C19
hint SpecificObjectWithoutServices::contains_any start
    proof { if self.cookie is Some { assert(self.vx_view().dom().contains(self.object)); } }
fn SpecificObjectWithoutServices::handle_event
    requires exists|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(event), //@C19
    ensures forall|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(event) ==> final(self).rep(b.step(event)), //@C19
        final(self).key == old(self).key, final(self).want() == old(self).want(), vx_ev(old(self).key, old(self).vx_view(), final(self).vx_view(), r), //@C19
fn SpecificObjectWithoutServices::object_created
    requires exists|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(BusEvent::ObjectCreated(id)), //@C19
    ensures forall|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(BusEvent::ObjectCreated(id)) ==> final(self).rep(b.step(BusEvent::ObjectCreated(id))), //@C19
        final(self).key == old(self).key, final(self).want() == old(self).want(), vx_ev(old(self).key, old(self).vx_view(), final(self).vx_view(), r), //@C19
fn SpecificObjectWithoutServices::object_destroyed
    requires exists|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(BusEvent::ObjectDestroyed(id)), //@C19
    ensures forall|b: VxBus| #[trigger] old(self).rep(b) && b.wf() && b.legal(BusEvent::ObjectDestroyed(id)) ==> final(self).rep(b.step(BusEvent::ObjectDestroyed(id))), //@C19
        final(self).key == old(self).key, final(self).want() == old(self).want(), vx_ev(old(self).key, old(self).vx_view(), final(self).vx_view(), r), //@C19
attr SpecificObjectWithoutServicesIter #[verifier::reject_recursive_types(Key)]
keep impl Iterator for SpecificObjectWithoutServicesIter<'a,Key>
inherent impl Iterator for SpecificObjectWithoutServicesIter<'a,Key>
fn SpecificObjectWithoutServicesIter::new
    ensures r.next.wf(), r.next.pos() == 0, r.next.all() == (match next { Some(x) => seq![x], None => Seq::empty() }), //@C19
fn SpecificObjectWithoutServicesIter::next
    requires old(self).next.wf(), //@C19
    ensures final(self).next.wf(), final(self).next.all() == old(self).next.all(), //@C19
        r is Some <==> old(self).next.pos() < old(self).next.all().len(), r is Some ==> r->0 == old(self).next.all()[old(self).next.pos()] && final(self).next.pos() == old(self).next.pos() + 1, //@C19
fn SpecificObjectWithoutServices::iter
    // the object, exactly if it is reported
    ensures r.next.wf(), r.next.pos() == 0, r.next.all().len() == (if self.cookie is Some { 1nat } else { 0 }), //@C19
        self.cookie is Some ==> *r.next.all()[0].object == *self, //@C19
fn SpecificObjectWithoutServicesIterEntry::new
    ensures r.object == object, //@C19
fn SpecificObjectWithoutServicesIterEntry::key
    ensures r == self.object.key, //@C19
fn SpecificObjectWithoutServicesIterEntry::object_id
    requires self.object.cookie is Some, //@C19
    ensures r == (ObjectId { uuid: self.object.object, cookie: self.object.cookie->0 }), //@C19
hint SpecificObjectWithoutServices::object_created start
    proof { let b = choose|b: VxBus| #[trigger] self.rep(b) && b.wf() && b.legal(BusEvent::ObjectCreated(id)); assert(self.vx_view().dom().contains(self.object) <==> self.want().on(b, self.object)); }
hint SpecificObjectWithoutServices::object_destroyed start
    proof { let b = choose|b: VxBus| #[trigger] self.rep(b) && b.wf() && b.legal(BusEvent::ObjectDestroyed(id)); assert(self.vx_view().dom().contains(self.object) <==> self.want().on(b, self.object)); }
fn SpecificObjectWithoutServices::add_filter
    requires old(listener).wf(), //@C19
    ensures final(listener).wf(), vx_same_counts(old(listener).events, final(listener).events), vx_over(final(listener).events) == vx_over(old(listener).events), //@C19
        // the filters of the entry and nothing else
        r is Ok ==> forall|f: BusListenerFilter| #[trigger] final(listener).filters@.contains(f) <==> old(listener).filters@.contains(f) || self.want().filter(f), //@C19
fn SpecificObjectWithoutServices::service_ids
    requires object == self.object, services.wf(), services.pos() == 0, services.all().len() == 0, //@C19
    ensures r is Some, r->0@.len() == 0, //@C19
