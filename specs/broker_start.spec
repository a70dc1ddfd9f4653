// Contract of Broker::start_bus_listener: the replay of what is on the bus (C10)
fn Broker::start_bus_listener verifier::spinoff_prover verifier::rlimit(30) verifier::loop_isolation(false)
    @sig pub fn start_bus_listener(&mut self, id: &ConnectionId, req: StartBusListener, vx_st: Ghost<State>) -> (r: Result<(), ()>)
    requires old(self).w(vx_st@), //@C10,C11
    ensures final(self).w(vx_st@), final(self).only_lists(*old(self)), //@C10,C11
        !old(self).conns@.dom().contains(*id) ==> r is Ok && final(self).same_listeners(*old(self)) && final(self).quiet(*old(self)), //@C10
        old(self).conns@.dom().contains(*id) && !old(self).listens(*id, req.cookie) ==> final(self).same_listeners(*old(self)) && final(self).sent(*old(self), *id, Message::StartBusListenerReply(StartBusListenerReply { serial: req.serial, result: StartBusListenerResult::InvalidBusListener })), //@C10
        old(self).conns@.dom().contains(*id) && old(self).listens(*id, req.cookie) && old(self).bus_listeners@[req.cookie].scope is Some ==> final(self).same_listeners(*old(self)) && final(self).sent(*old(self), *id, Message::StartBusListenerReply(StartBusListenerReply { serial: req.serial, result: StartBusListenerResult::AlreadyStarted })), //@C10
        old(self).conns@.dom().contains(*id) && old(self).listens(*id, req.cookie) && old(self).bus_listeners@[req.cookie].scope is None ==> final(self).rescoped(*old(self), req.cookie, Some(req.scope)) && final(self).same_lists_of(*old(self)), //@C10
        old(self).conns@.dom().contains(*id) && old(self).listens(*id, req.cookie) && old(self).bus_listeners@[req.cookie].scope is None && req.scope is New ==> final(self).sent(*old(self), *id, Message::StartBusListenerReply(StartBusListenerReply { serial: req.serial, result: StartBusListenerResult::Ok })), //@C10
        // everything on the bus that matches, once
        old(self).conns@.dom().contains(*id) && old(self).listens(*id, req.cookie) && old(self).bus_listeners@[req.cookie].scope is None && !(req.scope is New) && r is Ok ==> final(self).replayed(*old(self), *id, req.cookie, req.serial), //@C10
        old(self).log().is_prefix_of(final(self).log()), //@C10
hint Broker::start_bus_listener start
    let ghost vx_b = *self; let ghost mut vx_os = Seq::<ObjectId>::empty(); let ghost mut vx_ss = Seq::<ServiceId>::empty(); let ghost mut vx_l0 = self.vx_out.log@; let ghost mut vx_l1 = self.vx_out.log@; let ghost mut vx_lf = self.vx_out.log@;
    proof { if self.bus_listeners@.dom().contains(req.cookie) { assert(self.bus_listeners@.insert(req.cookie, self.bus_listeners@[req.cookie]) =~= self.bus_listeners@); } }
hint Broker::start_bus_listener loop0.before
    let ghost vx_i0 = vx_it0;
loop Broker::start_bus_listener 0
    invariant self.objs == vx_b.objs, self.obj_uuids == vx_b.obj_uuids, self.svcs == vx_b.svcs, self.svc_uuids == vx_b.svc_uuids, self.conns == vx_b.conns, self.channels == vx_b.channels, self.function_calls == vx_b.function_calls,
        vx_it0.wf(), vx_it0.all() == vx_i0.all(), vx_os.no_duplicates(),
        self.vx_out.log@ =~= vx_l0 + vx_obj_events(*id, req.cookie, vx_os),
        forall|j: int| #![trigger vx_os[j]] 0 <= j < vx_os.len() ==> vx_b.on_bus(vx_os[j]) && vx_in(vx_it0.all(), vx_it0.pos(), vx_os[j].uuid),
        forall|j: int| #![trigger vx_it0.all()[j]] 0 <= j < vx_it0.pos() && vx_b.objs@.dom().contains(vx_it0.all()[j]) ==> vx_os.contains(ObjectId { uuid: vx_it0.all()[j], cookie: vx_b.objs@[vx_it0.all()[j]].cookie }),
    decreases vx_it0.left(),
hint Broker::start_bus_listener loop1.before
    let ghost vx_i1 = vx_it1;
loop Broker::start_bus_listener 1
    invariant self.objs == vx_b.objs, self.obj_uuids == vx_b.obj_uuids, self.svcs == vx_b.svcs, self.svc_uuids == vx_b.svc_uuids, self.conns == vx_b.conns, self.channels == vx_b.channels, self.function_calls == vx_b.function_calls,
        vx_it1.wf(), vx_it1.all() == vx_i1.all(), vx_os.no_duplicates(),
        self.vx_out.log@ =~= vx_l0 + vx_obj_events(*id, req.cookie, vx_os),
        forall|j: int| #![trigger vx_os[j]] 0 <= j < vx_os.len() ==> vx_b.on_bus(vx_os[j]) && vx_lst.m_object(vx_os[j]) && vx_in(vx_it1.all(), vx_it1.pos(), (&vx_os[j].cookie, &vx_os[j].uuid)),
        forall|j: int| #![trigger vx_it1.all()[j]] 0 <= j < vx_it1.pos() && vx_lst.m_object(ObjectId { uuid: *vx_it1.all()[j].1, cookie: *vx_it1.all()[j].0 }) ==> vx_os.contains(ObjectId { uuid: *vx_it1.all()[j].1, cookie: *vx_it1.all()[j].0 }),
    decreases vx_it1.left(),
hint Broker::start_bus_listener loop2.before
    let ghost vx_i2 = vx_it2;
loop Broker::start_bus_listener 2
    invariant self.objs == vx_b.objs, self.obj_uuids == vx_b.obj_uuids, self.svcs == vx_b.svcs, self.svc_uuids == vx_b.svc_uuids, self.conns == vx_b.conns, self.channels == vx_b.channels, self.function_calls == vx_b.function_calls,
        vx_it2.wf(), vx_it2.all() == vx_i2.all(), vx_ss.no_duplicates(),
        self.vx_out.log@ =~= vx_l1 + vx_svc_events(*id, req.cookie, vx_ss),
        forall|j: int| #![trigger vx_ss[j]] 0 <= j < vx_ss.len() ==> vx_b.svc_on_bus(vx_ss[j]) && vx_in(vx_it2.all(), vx_it2.pos(), (vx_ss[j].object_id.uuid, vx_ss[j].uuid)),
        forall|j: int| #![trigger vx_it2.all()[j]] 0 <= j < vx_it2.pos() && vx_b.svcs@.dom().contains(vx_it2.all()[j]) ==> vx_ss.contains(vx_b.sid(vx_it2.all()[j])),
    decreases vx_it2.left(),
hint Broker::start_bus_listener loop3.before
    let ghost vx_i3 = vx_it3;
loop Broker::start_bus_listener 3
    invariant self.objs == vx_b.objs, self.obj_uuids == vx_b.obj_uuids, self.svcs == vx_b.svcs, self.svc_uuids == vx_b.svc_uuids, self.conns == vx_b.conns, self.channels == vx_b.channels, self.function_calls == vx_b.function_calls,
        vx_it3.wf(), vx_it3.all() == vx_i3.all(), vx_ss.no_duplicates(),
        self.vx_out.log@ =~= vx_l1 + vx_svc_events(*id, req.cookie, vx_ss),
        forall|j: int| #![trigger vx_ss[j]] 0 <= j < vx_ss.len() ==> vx_b.svc_on_bus(vx_ss[j]) && vx_lst.m_service(vx_ss[j]) && vx_seen(vx_it3.all(), vx_it3.pos(), vx_ss[j].cookie),
        forall|j: int| #![trigger vx_it3.all()[j]] 0 <= j < vx_it3.pos() && vx_lst.m_service(vx_sid(vx_it3.all()[j])) ==> vx_ss.contains(vx_sid(vx_it3.all()[j])),
    decreases vx_it3.left(),
text
    impl Broker {
        pub open spec fn same_lists_of(self, o: Self) -> bool { self.conns@ =~= o.conns@ }
        pub open spec fn sid(self, k: (ObjectUuid, ServiceUuid)) -> ServiceId { ServiceId { object_id: ObjectId { uuid: k.0, cookie: self.svcs@[k].object_cookie }, uuid: k.1, cookie: self.svcs@[k].cookie } }
    }
    pub open spec fn vx_sid(e: (&ServiceCookie, &(ObjectId, ServiceUuid, ServiceInfo))) -> ServiceId { ServiceId { object_id: e.1.0, uuid: e.1.1, cookie: *e.0 } }
    pub open spec fn vx_seen<V>(s: Seq<(&ServiceCookie, &V)>, p: int, k: ServiceCookie) -> bool { exists|i: int| 0 <= i < p && *(#[trigger] s[i]).0 == k }
hint Broker::start_bus_listener before:specific_objects#0
    let ghost vx_lst = *bus_listener; proof { vx_l0 = self.vx_out.log@; }
hint Broker::start_bus_listener before:specific_services#0
    proof { vx_l1 = self.vx_out.log@; assert(vx_b.objs_told(vx_lst, vx_os)); }
hint Broker::start_bus_listener before:send#4
    proof {
        let o = vx_os; vx_os = o.push(object); lemma_pushed(o, object);
        assert(vx_obj_events(*id, req.cookie, vx_os) =~= vx_obj_events(*id, req.cookie, o).push((*id, Message::EmitBusEvent(EmitBusEvent { cookie: Some(req.cookie), event: BusEvent::ObjectCreated(object) }), None)));
    }
hint Broker::start_bus_listener before:send#5
    proof {
        let o = vx_os; vx_os = o.push(object); lemma_pushed(o, object);
        assert(vx_obj_events(*id, req.cookie, vx_os) =~= vx_obj_events(*id, req.cookie, o).push((*id, Message::EmitBusEvent(EmitBusEvent { cookie: Some(req.cookie), event: BusEvent::ObjectCreated(object) }), None)));
    }
hint Broker::start_bus_listener before:send#6
    proof {
        let o = vx_ss; vx_ss = o.push(service); lemma_pushed(o, service);
        assert(vx_svc_events(*id, req.cookie, vx_ss) =~= vx_svc_events(*id, req.cookie, o).push((*id, Message::EmitBusEvent(EmitBusEvent { cookie: Some(req.cookie), event: BusEvent::ServiceCreated(service) }), None)));
    }
hint Broker::start_bus_listener before:send#7
    proof {
        let o = vx_ss; vx_ss = o.push(service); lemma_pushed(o, service);
        assert(vx_svc_events(*id, req.cookie, vx_ss) =~= vx_svc_events(*id, req.cookie, o).push((*id, Message::EmitBusEvent(EmitBusEvent { cookie: Some(req.cookie), event: BusEvent::ServiceCreated(service) }), None)));
    }
hint Broker::start_bus_listener loop0.after
    proof {
        assert forall|o: ObjectId| #![trigger vx_os.contains(o)] #![trigger vx_lst.m_object(o)] vx_os.contains(o) <==> vx_b.on_bus(o) && vx_lst.m_object(o) by {
            if vx_os.contains(o) { let j = choose|j: int| 0 <= j < vx_os.len() && vx_os[j] == o; assert(vx_i0.all().contains(o.uuid)); assert(vx_lst.filters@.contains(BusListenerFilter::Object(Some(o.uuid)))); assert(vx_filter_object(BusListenerFilter::Object(Some(o.uuid)), o)); }
            if vx_b.on_bus(o) && vx_lst.m_object(o) { let f = choose|f: BusListenerFilter| #![trigger vx_lst.filters@.contains(f)] vx_lst.filters@.contains(f) && vx_filter_object(f, o); assert(f == BusListenerFilter::Object(Some(o.uuid))); assert(vx_i0.all().contains(o.uuid)); let j = choose|j: int| 0 <= j < vx_i0.all().len() && vx_i0.all()[j] == o.uuid; assert(vx_b.objs@.dom().contains(vx_i0.all()[j])); }
        }
    }
hint Broker::start_bus_listener loop1.after
    proof {
        assert forall|o: ObjectId| #![trigger vx_os.contains(o)] #![trigger vx_lst.m_object(o)] vx_os.contains(o) <==> vx_b.on_bus(o) && vx_lst.m_object(o) by {
            if vx_b.on_bus(o) && vx_lst.m_object(o) { let j = choose|j: int| 0 <= j < vx_i1.all().len() && *(#[trigger] vx_i1.all()[j]).0 == o.cookie; assert(*vx_i1.all()[j].1 == o.uuid); }
        }
    }
hint Broker::start_bus_listener loop2.after
    proof {
        assert forall|s: ServiceId| #![trigger vx_ss.contains(s)] #![trigger vx_lst.m_service(s)] vx_ss.contains(s) <==> vx_b.svc_on_bus(s) && vx_lst.m_service(s) by {
            let f = BusListenerFilter::Service(BusListenerServiceFilter { object: Some(s.object_id.uuid), service: Some(s.uuid) });
            if vx_ss.contains(s) { let j = choose|j: int| 0 <= j < vx_ss.len() && vx_ss[j] == s; assert(vx_i2.all().contains((s.object_id.uuid, s.uuid))); assert(vx_lst.filters@.contains(f)); assert(vx_filter_service(f, s)); }
            if vx_b.svc_on_bus(s) && vx_lst.m_service(s) {
                let g = choose|g: BusListenerFilter| #![trigger vx_lst.filters@.contains(g)] vx_lst.filters@.contains(g) && vx_filter_service(g, s); assert(vx_specific(g)); assert(g == f);
                assert(vx_i2.all().contains((s.object_id.uuid, s.uuid))); let j = choose|j: int| 0 <= j < vx_i2.all().len() && vx_i2.all()[j] == (s.object_id.uuid, s.uuid);
                assert(vx_b.key(s.cookie) == vx_i2.all()[j]); assert(vx_b.svcs@.dom().contains(vx_i2.all()[j])); assert(vx_b.sid(vx_i2.all()[j]) == s);
            }
        }
    }
hint Broker::start_bus_listener loop3.after
    proof {
        assert forall|s: ServiceId| #![trigger vx_ss.contains(s)] #![trigger vx_lst.m_service(s)] vx_ss.contains(s) <==> vx_b.svc_on_bus(s) && vx_lst.m_service(s) by {
            if vx_b.svc_on_bus(s) && vx_lst.m_service(s) { let j = choose|j: int| 0 <= j < vx_i3.all().len() && *(#[trigger] vx_i3.all()[j]).0 == s.cookie; assert(vx_sid(vx_i3.all()[j]) == s); }
        }
    }
hint Broker::start_bus_listener before:send#8
    proof { assert(vx_b.svcs_told(vx_lst, vx_ss)); vx_lf = self.vx_out.log@; }
text
    pub proof fn lemma_pushed<T>(o: Seq<T>, t: T)
        ensures o.push(t).contains(t), forall|x: T| #![trigger o.push(t).contains(x)] #![trigger o.contains(x)] o.push(t).contains(x) <==> o.contains(x) || x == t, o.no_duplicates() && !o.contains(t) ==> o.push(t).no_duplicates()
    {
        let n = o.push(t); assert(n[o.len() as int] == t);
        assert forall|x: T| #![trigger o.push(t).contains(x)] #![trigger o.contains(x)] o.push(t).contains(x) <==> o.contains(x) || x == t by { if o.contains(x) { let i = choose|i: int| 0 <= i < o.len() && o[i] == x; assert(n[i] == x); } }
    }
