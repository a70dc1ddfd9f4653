// Contracts of broker/src/bus_listener.rs (C10)
include busevent.spec
source broker/src/bus_listener.rs
post
    impl BusListener {
        /// the cached flags describe the filters
        pub open spec fn wf(self) -> bool {
            &&& self.matches_all_objects == self.filters@.contains(BusListenerFilter::Object(None))
            &&& self.matches_specific_services == (forall|f: BusListenerFilter| #![trigger self.filters@.contains(f)] self.filters@.contains(f) ==> vx_specific(f))
        }
        pub open spec fn m_object(self, o: ObjectId) -> bool { exists|f: BusListenerFilter| #![trigger self.filters@.contains(f)] self.filters@.contains(f) && vx_filter_object(f, o) }
        pub open spec fn m_service(self, s: ServiceId) -> bool { exists|f: BusListenerFilter| #![trigger self.filters@.contains(f)] self.filters@.contains(f) && vx_filter_service(f, s) }
        pub open spec fn m_event(self, e: BusEvent) -> bool { exists|f: BusListenerFilter| #![trigger self.filters@.contains(f)] self.filters@.contains(f) && vx_filter_event(f, e) }
    }
fn BusListener::new
    ensures r.conn_id == conn_id, r.filters@ == Set::<BusListenerFilter>::empty(), r.scope is None, r.wf(), //@C10
fn BusListener::conn_id
    ensures *r == self.conn_id, //@C10
fn BusListener::add_filter
    requires old(self).wf(), //@C10
    ensures final(self).wf(), //@C10
        final(self).filters@ == old(self).filters@.insert(filter), final(self).scope == old(self).scope, final(self).conn_id == old(self).conn_id, //@C10
fn BusListener::remove_filter
    requires old(self).wf(), //@C10
    ensures final(self).wf(), //@C10
        final(self).filters@ == old(self).filters@.remove(filter), final(self).scope == old(self).scope, final(self).conn_id == old(self).conn_id, //@C10
loop BusListener::remove_filter 0
    invariant_except_break
        !vx_found, forall|i: int| #![trigger vx_it0.all()[i]] 0 <= i < vx_it0.pos() ==> *vx_it0.all()[i] != BusListenerFilter::Object(None),
    invariant
        vx_it0.wf(), self.filters@ == old(self).filters@.remove(filter), self.scope == old(self).scope, self.conn_id == old(self).conn_id, 
        forall|i: int| #![trigger vx_it0.all()[i]] 0 <= i < vx_it0.all().len() ==> self.filters@.contains(*vx_it0.all()[i]),
        forall|f: BusListenerFilter| #![trigger self.filters@.contains(f)] self.filters@.contains(f) ==> exists|i: int| 0 <= i < vx_it0.all().len() && *(#[trigger] vx_it0.all()[i]) == f,
    ensures vx_found == self.filters@.contains(BusListenerFilter::Object(None)),
    decreases vx_it0.left(),
loop BusListener::remove_filter 1
    invariant_except_break
        vx_found, forall|i: int| #![trigger vx_it1.all()[i]] 0 <= i < vx_it1.pos() ==> vx_specific(*vx_it1.all()[i]),
    invariant
        vx_it1.wf(), self.filters@ == old(self).filters@.remove(filter), self.scope == old(self).scope, self.conn_id == old(self).conn_id,
        self.matches_all_objects == self.filters@.contains(BusListenerFilter::Object(None)), 
        forall|i: int| #![trigger vx_it1.all()[i]] 0 <= i < vx_it1.all().len() ==> self.filters@.contains(*vx_it1.all()[i]),
        forall|f: BusListenerFilter| #![trigger self.filters@.contains(f)] self.filters@.contains(f) ==> exists|i: int| 0 <= i < vx_it1.all().len() && *(#[trigger] vx_it1.all()[i]) == f,
    ensures vx_found == (forall|f: BusListenerFilter| #![trigger self.filters@.contains(f)] self.filters@.contains(f) ==> vx_specific(f)),
    decreases vx_it1.left(),
fn BusListener::clear_filters
    ensures final(self).wf(), //@C10
        final(self).filters@ == Set::<BusListenerFilter>::empty(), final(self).scope == old(self).scope, final(self).conn_id == old(self).conn_id, //@C10
fn BusListener::start
    ensures r == (old(self).scope is None), //@C10
        final(self).scope == (if r { Some(scope) } else { old(self).scope }), //@C10
        final(self).filters == old(self).filters, final(self).conn_id == old(self).conn_id, final(self).matches_all_objects == old(self).matches_all_objects, final(self).matches_specific_services == old(self).matches_specific_services, //@C10
fn BusListener::stop
    ensures r == (old(self).scope is Some), final(self).scope is None, //@C10
        final(self).filters == old(self).filters, final(self).conn_id == old(self).conn_id, final(self).matches_all_objects == old(self).matches_all_objects, final(self).matches_specific_services == old(self).matches_specific_services, //@C10
fn BusListener::matches_object
    requires self.wf(), //@C10
    ensures r == self.m_object(object), //@C10
loop BusListener::matches_object 0
    invariant_except_break
        !vx_found, forall|i: int| #![trigger vx_it0.all()[i]] 0 <= i < vx_it0.pos() ==> !vx_filter_object(vx_it0.all()[i], object),
    invariant vx_it0.wf(), 
        forall|i: int| #![trigger vx_it0.all()[i]] 0 <= i < vx_it0.all().len() ==> self.filters@.contains(vx_it0.all()[i]),
        forall|f: BusListenerFilter| #![trigger self.filters@.contains(f)] self.filters@.contains(f) ==> exists|i: int| 0 <= i < vx_it0.all().len() && (#[trigger] vx_it0.all()[i]) == f,
    ensures vx_found == self.m_object(object),
    decreases vx_it0.left(),
fn BusListener::matches_service
    ensures r == self.m_service(service), //@C10
loop BusListener::matches_service 0
    invariant_except_break
        !vx_found, forall|i: int| #![trigger vx_it0.all()[i]] 0 <= i < vx_it0.pos() ==> !vx_filter_service(vx_it0.all()[i], service),
    invariant vx_it0.wf(), 
        forall|i: int| #![trigger vx_it0.all()[i]] 0 <= i < vx_it0.all().len() ==> self.filters@.contains(vx_it0.all()[i]),
        forall|f: BusListenerFilter| #![trigger self.filters@.contains(f)] self.filters@.contains(f) ==> exists|i: int| 0 <= i < vx_it0.all().len() && (#[trigger] vx_it0.all()[i]) == f,
    ensures vx_found == self.m_service(service),
    decreases vx_it0.left(),
fn BusListener::matches_new_event
    // only started listeners whose scope includes new events and with a matching filter
    ensures r == (self.scope is Some && (self.scope->0 is New || self.scope->0 is All) && self.m_event(event)), //@C10
loop BusListener::matches_new_event 0
    invariant_except_break
        !vx_found, forall|i: int| #![trigger vx_it0.all()[i]] 0 <= i < vx_it0.pos() ==> !vx_filter_event(vx_it0.all()[i], event),
    invariant vx_it0.wf(), 
        forall|i: int| #![trigger vx_it0.all()[i]] 0 <= i < vx_it0.all().len() ==> self.filters@.contains(vx_it0.all()[i]),
        forall|f: BusListenerFilter| #![trigger self.filters@.contains(f)] self.filters@.contains(f) ==> exists|i: int| 0 <= i < vx_it0.all().len() && (#[trigger] vx_it0.all()[i]) == f,
    ensures vx_found == self.m_event(event),
    decreases vx_it0.left(),
fn BusListener::specific_objects
    requires self.wf(), //@C10
    ensures r is None <==> self.filters@.contains(BusListenerFilter::Object(None)), //@C10
        r is Some ==> (r->0).wf() && (r->0).pos() == 0
            && (forall|i: int, j: int| #![trigger (r->0).all()[i], (r->0).all()[j]] 0 <= i < j < (r->0).all().len() ==> (r->0).all()[i] != (r->0).all()[j])
            && (forall|o: ObjectUuid| #![trigger self.filters@.contains(BusListenerFilter::Object(Some(o)))] self.filters@.contains(BusListenerFilter::Object(Some(o))) <==> (r->0).all().contains(o)), //@C10
fn BusListener::specific_services
    requires self.wf(), //@C10
    ensures r is None <==> !(forall|f: BusListenerFilter| #![trigger self.filters@.contains(f)] self.filters@.contains(f) ==> vx_specific(f)), //@C10
        r is Some ==> (r->0).wf() && (r->0).pos() == 0
            && (forall|i: int, j: int| #![trigger (r->0).all()[i], (r->0).all()[j]] 0 <= i < j < (r->0).all().len() ==> (r->0).all()[i] != (r->0).all()[j])
            && (forall|o: ObjectUuid, s: ServiceUuid| #![trigger self.filters@.contains(BusListenerFilter::Service(BusListenerServiceFilter { object: Some(o), service: Some(s) }))] self.filters@.contains(BusListenerFilter::Service(BusListenerServiceFilter { object: Some(o), service: Some(s) })) <==> (r->0).all().contains((o, s))), //@C10
post
    pub open spec fn vx_listed_specific_objects(f: BusListenerFilter, v: Seq<ObjectUuid>) -> bool { f is Object && f->Object_0 is Some ==> v.contains(f->Object_0->0) }
    pub open spec fn vx_listed_specific_services(f: BusListenerFilter, v: Seq<(ObjectUuid, ServiceUuid)>) -> bool { vx_specific(f) ==> v.contains((f->Service_0.object->0, f->Service_0.service->0)) }
loop BusListener::specific_objects 0
    invariant vx_it0.wf(), self.wf(), !self.matches_all_objects,
        forall|i: int, j: int| #![trigger vx_it0.all()[i], vx_it0.all()[j]] 0 <= i < j < vx_it0.all().len() ==> *vx_it0.all()[i] != *vx_it0.all()[j],
        forall|i: int| #![trigger vx_it0.all()[i]] 0 <= i < vx_it0.all().len() ==> self.filters@.contains(*vx_it0.all()[i]),
        forall|f: BusListenerFilter| #![trigger self.filters@.contains(f)] self.filters@.contains(f) ==> exists|i: int| 0 <= i < vx_it0.all().len() && *(#[trigger] vx_it0.all()[i]) == f,
        // src[k] is the position of the filter the k-th result came from
        vx_from_specific_objects(vx_vec@, vx_src, vx_it0.all(), vx_it0.pos()),
        forall|k: int, l: int| #![trigger vx_src[k], vx_src[l]] 0 <= k < l < vx_src.len() ==> vx_src[k] < vx_src[l],
        forall|i: int| #![trigger vx_it0.all()[i]] 0 <= i < vx_it0.pos() ==> vx_listed_specific_objects(*vx_it0.all()[i], vx_vec@),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.left(),
hint BusListener::specific_objects loop0.before
    let ghost mut vx_src: Seq<int> = Seq::empty();
hint BusListener::specific_objects loop0.bind
    let ghost vx_v0 = vx_vec@;
hint BusListener::specific_objects loop0.end
    proof { if vx_vec@.len() > vx_v0.len() { vx_src = vx_src.push(vx_it0.pos() - 1); } vx_grow::<ObjectUuid>(vx_v0, vx_vec@); assert forall|x: BusListenerFilter| #![trigger vx_listed_specific_objects(x, vx_v0)] vx_listed_specific_objects(x, vx_v0) implies vx_listed_specific_objects(x, vx_vec@) by { } }
hint BusListener::specific_objects loop0.after
    assert forall|i: int, j: int| #![trigger vx_vec@[i], vx_vec@[j]] 0 <= i < j < vx_vec@.len() implies vx_vec@[i] != vx_vec@[j] by { assert(vx_src[i] < vx_src[j]); }
loop BusListener::specific_services 0
    invariant vx_it0.wf(), self.wf(), self.matches_specific_services,
        forall|i: int, j: int| #![trigger vx_it0.all()[i], vx_it0.all()[j]] 0 <= i < j < vx_it0.all().len() ==> *vx_it0.all()[i] != *vx_it0.all()[j],
        forall|i: int| #![trigger vx_it0.all()[i]] 0 <= i < vx_it0.all().len() ==> self.filters@.contains(*vx_it0.all()[i]),
        forall|f: BusListenerFilter| #![trigger self.filters@.contains(f)] self.filters@.contains(f) ==> exists|i: int| 0 <= i < vx_it0.all().len() && *(#[trigger] vx_it0.all()[i]) == f,
        // src[k] is the position of the filter the k-th result came from
        vx_from_specific_services(vx_vec@, vx_src, vx_it0.all(), vx_it0.pos()),
        forall|k: int, l: int| #![trigger vx_src[k], vx_src[l]] 0 <= k < l < vx_src.len() ==> vx_src[k] < vx_src[l],
        forall|i: int| #![trigger vx_it0.all()[i]] 0 <= i < vx_it0.pos() ==> vx_listed_specific_services(*vx_it0.all()[i], vx_vec@),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.left(),
hint BusListener::specific_services loop0.before
    let ghost mut vx_src: Seq<int> = Seq::empty();
hint BusListener::specific_services loop0.bind
    let ghost vx_v0 = vx_vec@;
hint BusListener::specific_services loop0.end
    proof { if vx_vec@.len() > vx_v0.len() { vx_src = vx_src.push(vx_it0.pos() - 1); } vx_grow::<(ObjectUuid, ServiceUuid)>(vx_v0, vx_vec@); assert forall|x: BusListenerFilter| #![trigger vx_listed_specific_services(x, vx_v0)] vx_listed_specific_services(x, vx_v0) implies vx_listed_specific_services(x, vx_vec@) by { } }
hint BusListener::specific_services loop0.after
    assert forall|i: int, j: int| #![trigger vx_vec@[i], vx_vec@[j]] 0 <= i < j < vx_vec@.len() implies vx_vec@[i] != vx_vec@[j] by { assert(vx_src[i] < vx_src[j]); }
post
    pub open spec fn vx_from_specific_objects(v: Seq<ObjectUuid>, src: Seq<int>, a: Seq<&BusListenerFilter>, p: int) -> bool {
        &&& src.len() == v.len()
        &&& forall|k: int| #![trigger v[k]] #![trigger src[k]] 0 <= k < v.len() ==> 0 <= src[k] < p && *a[src[k]] == BusListenerFilter::Object(Some(v[k]))
    }
post
    pub open spec fn vx_from_specific_services(v: Seq<(ObjectUuid, ServiceUuid)>, src: Seq<int>, a: Seq<&BusListenerFilter>, p: int) -> bool {
        &&& src.len() == v.len()
        &&& forall|k: int| #![trigger v[k]] #![trigger src[k]] 0 <= k < v.len() ==> 0 <= src[k] < p && *a[src[k]] == BusListenerFilter::Service(BusListenerServiceFilter { object: Some(v[k].0), service: Some(v[k].1) })
    }
hint BusListener::add_filter end
    proof { assert forall|f: BusListenerFilter| #![trigger old(self).filters@.contains(f)] old(self).filters@.contains(f) implies self.filters@.contains(f) by {}; assert(self.filters@.contains(filter)); }
post
    proof fn vx_grow<T>(a: Seq<T>, b: Seq<T>)
        requires a == b || (b.len() == a.len() + 1 && b.drop_last() =~= a)
        ensures forall|x: T| #![trigger a.contains(x)] a.contains(x) ==> b.contains(x), b.len() > a.len() ==> b.contains(b.last())
    {
        assert forall|x: T| #![trigger a.contains(x)] a.contains(x) implies b.contains(x) by {
            let k = choose|k: int| 0 <= k < a.len() && a[k] == x;
            if a != b { assert(b.drop_last()[k] == x); }
            assert(b[k] == x);
        }
        if b.len() > a.len() { assert(b[b.len() - 1] == b.last()); }
    }
