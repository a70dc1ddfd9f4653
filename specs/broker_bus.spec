// Bus listeners (C10)
text
    impl Broker {
        /// nothing changed but bus listeners and who holds them
        pub open spec fn only_lists(self, o: Self) -> bool {
            &&& self.obj_uuids == o.obj_uuids && self.objs == o.objs && self.svc_uuids == o.svc_uuids && self.svcs == o.svcs && self.function_calls == o.function_calls && self.channels == o.channels
            &&& vx_same_conns(self.conns@, o.conns@)
            &&& forall|c: ConnectionId| #![trigger self.conns@[c]] #![trigger o.conns@[c]] self.conns@.dom().contains(c) ==> self.conns@[c].same_objects(o.conns@[c]) && self.conns@[c].same_chans(o.conns@[c]) && self.conns@[c].same_calls(o.conns@[c]) && self.conns@[c].events@ == o.conns@[c].events@ && self.conns@[c].all_events@ == o.conns@[c].all_events@ && self.conns@[c].subscriptions@ == o.conns@[c].subscriptions@
        }
        pub open spec fn same_listeners(self, o: Self) -> bool { self.bus_listeners@ =~= o.bus_listeners@ && forall|c: ConnectionId| #![trigger self.conns@[c]] self.conns@.dom().contains(c) ==> self.conns@[c].same_lists(o.conns@[c]) }
        pub open spec fn one_listener(self, o: Self, c: ConnectionId, k: BusListenerCookie, add: bool) -> bool {
            &&& forall|d: ConnectionId| #![trigger self.conns@[d]] self.conns@.dom().contains(d) && d != c ==> self.conns@[d].same_lists(o.conns@[d])
            &&& self.conns@.dom().contains(c) ==> self.conns@[c].bus_listeners@ =~= if add { o.conns@[c].bus_listeners@.insert(k) } else { o.conns@[c].bus_listeners@.remove(k) }
        }
        /// the connection has a listener with this cookie
        pub open spec fn listens(self, c: ConnectionId, k: BusListenerCookie) -> bool { self.bus_listeners@.dom().contains(k) && self.bus_listeners@[k].conn_id == c }
        pub open spec fn on_bus(self, o: ObjectId) -> bool { self.obj_uuids@.dom().contains(o.cookie) && self.obj_uuids@[o.cookie] == o.uuid }
        pub open spec fn svc_on_bus(self, s: ServiceId) -> bool { self.svc_uuids@.dom().contains(s.cookie) && self.svc_uuids@[s.cookie].0 == s.object_id && self.svc_uuids@[s.cookie].1 == s.uuid }
        /// a listener is the same but for its filters
        pub open spec fn refiltered(self, o: Self, k: BusListenerCookie, f: Set<BusListenerFilter>) -> bool {
            let n = self.bus_listeners@[k];
            self.bus_listeners@ =~= o.bus_listeners@.insert(k, n) && n.filters@ == f && n.scope == o.bus_listeners@[k].scope && n.conn_id == o.bus_listeners@[k].conn_id
        }
        pub open spec fn rescoped(self, o: Self, k: BusListenerCookie, s: Option<BusListenerScope>) -> bool {
            let n = self.bus_listeners@[k];
            self.bus_listeners@ =~= o.bus_listeners@.insert(k, n) && n.scope == s && n.filters == o.bus_listeners@[k].filters && n.conn_id == o.bus_listeners@[k].conn_id
        }
        /// the messages of the current objects and services that match, each once
        pub open spec fn replayed(self, o: Self, c: ConnectionId, k: BusListenerCookie, serial: u32) -> bool {
            exists|os: Seq<ObjectId>, ss: Seq<ServiceId>| #![trigger vx_obj_events(c, k, os), vx_svc_events(c, k, ss)] o.objs_told(o.bus_listeners@[k], os) && o.svcs_told(o.bus_listeners@[k], ss)
                && self.log() =~= o.log() + vx_msg(c, Message::StartBusListenerReply(StartBusListenerReply { serial, result: StartBusListenerResult::Ok })) + vx_obj_events(c, k, os) + vx_svc_events(c, k, ss) + vx_msg(c, Message::BusListenerCurrentFinished(BusListenerCurrentFinished { cookie: k }))
        }
        pub open spec fn objs_told(self, l: BusListener, os: Seq<ObjectId>) -> bool { os.no_duplicates() && forall|o: ObjectId| #![trigger os.contains(o)] #![trigger l.m_object(o)] os.contains(o) <==> self.on_bus(o) && l.m_object(o) }
        pub open spec fn svcs_told(self, l: BusListener, ss: Seq<ServiceId>) -> bool { ss.no_duplicates() && forall|s: ServiceId| #![trigger ss.contains(s)] #![trigger l.m_service(s)] ss.contains(s) <==> self.svc_on_bus(s) && l.m_service(s) }
    }
    pub open spec fn vx_obj_events(c: ConnectionId, k: BusListenerCookie, os: Seq<ObjectId>) -> Seq<(ConnectionId, Message, Option<ProtocolVersion>)> { Seq::new(os.len(), |i: int| (c, Message::EmitBusEvent(EmitBusEvent { cookie: Some(k), event: BusEvent::ObjectCreated(os[i]) }), None)) }
    pub open spec fn vx_svc_events(c: ConnectionId, k: BusListenerCookie, ss: Seq<ServiceId>) -> Seq<(ConnectionId, Message, Option<ProtocolVersion>)> { Seq::new(ss.len(), |i: int| (c, Message::EmitBusEvent(EmitBusEvent { cookie: Some(k), event: BusEvent::ServiceCreated(ss[i]) }), None)) }
    pub open spec fn vx_lc(m: HashMap<BusListenerCookie, BusListener>) -> Set<BusListenerCookie> { m@.dom() }
    impl BusListenerCookie {
        #[verifier::external_body]
        pub fn new_v4(used: Ghost<Set<BusListenerCookie>>) -> (r: Self) ensures !used@.contains(r) { unimplemented!() }
    }
fn Broker::create_bus_listener verifier::spinoff_prover
    @sig pub fn create_bus_listener(&mut self, id: &ConnectionId, req: CreateBusListener, vx_st: Ghost<State>) -> (r: Result<(), ()>)
    requires old(self).w(vx_st@), //@C10,C11
    ensures final(self).w(vx_st@), final(self).only_lists(*old(self)), //@C10,C11
        !old(self).conns@.dom().contains(*id) ==> r is Ok && final(self).same_listeners(*old(self)) && final(self).quiet(*old(self)), //@C10
        old(self).conns@.dom().contains(*id) ==> ({
            let o = *old(self); let n = *final(self); let k = n.log().last().1->CreateBusListenerReply_0.cookie;
            &&& n.sent(o, *id, Message::CreateBusListenerReply(CreateBusListenerReply { serial: req.serial, cookie: k }))
            &&& !o.bus_listeners@.dom().contains(k)
            &&& (r is Err ==> n.same_listeners(o))
            &&& (r is Ok ==> n.one_listener(o, *id, k, true) && n.bus_listeners@ =~= o.bus_listeners@.insert(k, n.bus_listeners@[k]) && n.bus_listeners@[k].conn_id == *id && n.bus_listeners@[k].filters@ == Set::<BusListenerFilter>::empty() && n.bus_listeners@[k].scope is None)
        }), //@C10
fn Broker::destroy_bus_listener verifier::spinoff_prover
    @sig pub fn destroy_bus_listener(&mut self, id: &ConnectionId, req: DestroyBusListener, vx_st: Ghost<State>) -> (r: Result<(), ()>)
    requires old(self).w(vx_st@), //@C10,C11
    ensures final(self).w(vx_st@), final(self).only_lists(*old(self)), //@C10,C11
        !old(self).conns@.dom().contains(*id) ==> r is Ok && final(self).same_listeners(*old(self)) && final(self).quiet(*old(self)), //@C10
        old(self).conns@.dom().contains(*id) ==> final(self).sent(*old(self), *id, Message::DestroyBusListenerReply(DestroyBusListenerReply { serial: req.serial, result: if old(self).listens(*id, req.cookie) { DestroyBusListenerResult::Ok } else { DestroyBusListenerResult::InvalidBusListener } })), //@C10
        old(self).conns@.dom().contains(*id) && (r is Err || !old(self).listens(*id, req.cookie)) ==> final(self).same_listeners(*old(self)), //@C10
        old(self).conns@.dom().contains(*id) && r is Ok && old(self).listens(*id, req.cookie) ==> final(self).bus_listeners@ =~= old(self).bus_listeners@.remove(req.cookie) && final(self).one_listener(*old(self), *id, req.cookie, false), //@C10
fn Broker::remove_bus_listener verifier::spinoff_prover
    @sig pub fn remove_bus_listener(&mut self, cookie: BusListenerCookie, vx_st: Ghost<State>, vx_gone: Ghost<Option<ConnectionId>>)
    requires old(self).wx(vx_st@, vx_gone@, None), //@C10,C11
    ensures final(self).wx(vx_st@, vx_gone@, None), final(self).only_lists(*old(self)), final(self).quiet(*old(self)), //@C10,C11
        final(self).bus_listeners@ =~= old(self).bus_listeners@.remove(cookie), //@C10
        !old(self).bus_listeners@.dom().contains(cookie) ==> final(self).same_listeners(*old(self)), //@C10
        old(self).bus_listeners@.dom().contains(cookie) ==> final(self).one_listener(*old(self), old(self).bus_listeners@[cookie].conn_id, cookie, false), //@C10
fn Broker::add_bus_listener_filter verifier::spinoff_prover
    @sig pub fn add_bus_listener_filter(&mut self, id: &ConnectionId, req: AddBusListenerFilter, vx_st: Ghost<State>)
    requires old(self).w(vx_st@), //@C10,C11
    ensures final(self).w(vx_st@), final(self).only_lists(*old(self)), final(self).quiet(*old(self)), //@C10,C11
        if old(self).listens(*id, req.cookie) { final(self).refiltered(*old(self), req.cookie, old(self).bus_listeners@[req.cookie].filters@.insert(req.filter)) } else { final(self).same_listeners(*old(self)) }, //@C10
fn Broker::remove_bus_listener_filter verifier::spinoff_prover
    @sig pub fn remove_bus_listener_filter(&mut self, id: &ConnectionId, req: RemoveBusListenerFilter, vx_st: Ghost<State>)
    requires old(self).w(vx_st@), //@C10,C11
    ensures final(self).w(vx_st@), final(self).only_lists(*old(self)), final(self).quiet(*old(self)), //@C10,C11
        if old(self).listens(*id, req.cookie) { final(self).refiltered(*old(self), req.cookie, old(self).bus_listeners@[req.cookie].filters@.remove(req.filter)) } else { final(self).same_listeners(*old(self)) }, //@C10
fn Broker::clear_bus_listener_filters verifier::spinoff_prover
    @sig pub fn clear_bus_listener_filters(&mut self, id: &ConnectionId, req: ClearBusListenerFilters, vx_st: Ghost<State>)
    requires old(self).w(vx_st@), //@C10,C11
    ensures final(self).w(vx_st@), final(self).only_lists(*old(self)), final(self).quiet(*old(self)), //@C10,C11
        if old(self).listens(*id, req.cookie) { final(self).refiltered(*old(self), req.cookie, Set::empty()) } else { final(self).same_listeners(*old(self)) }, //@C10
fn Broker::stop_bus_listener verifier::spinoff_prover
    @sig pub fn stop_bus_listener(&mut self, id: &ConnectionId, req: StopBusListener, vx_st: Ghost<State>) -> (r: Result<(), ()>)
    requires old(self).w(vx_st@), //@C10,C11
    ensures final(self).w(vx_st@), final(self).only_lists(*old(self)), //@C10,C11
        !old(self).conns@.dom().contains(*id) ==> r is Ok && final(self).same_listeners(*old(self)) && final(self).quiet(*old(self)), //@C10
        old(self).conns@.dom().contains(*id) ==> final(self).sent(*old(self), *id, Message::StopBusListenerReply(StopBusListenerReply { serial: req.serial, result: if !old(self).listens(*id, req.cookie) { StopBusListenerResult::InvalidBusListener } else if old(self).bus_listeners@[req.cookie].scope is Some { StopBusListenerResult::Ok } else { StopBusListenerResult::NotStarted } })), //@C10
        old(self).conns@.dom().contains(*id) ==> if old(self).listens(*id, req.cookie) { final(self).rescoped(*old(self), req.cookie, None) } else { final(self).same_listeners(*old(self)) }, //@C10
fn Broker::emit_bus_event verifier::spinoff_prover verifier::loop_isolation(false)
    requires old(self).w(*old(state)), //@C10,C11
    ensures final(self).w(*final(state)), final(self).same_reg(*old(self)), final(self).same_other(*old(self)), //@C10,C11
        vx_only_removed(*final(state), *old(state)), //@C09
        // every connection with a matching listener gets the event once
        vx_announced(old(self).log(), final(self).log(), event, *old(self)), //@C10
hint Broker::emit_bus_event loop0.before
    let ghost vx_b = *self; let ghost vx_i0 = vx_it0; let ghost mut vx_to = Seq::<ConnectionId>::empty();
loop Broker::emit_bus_event 0
    invariant
        *self == (Broker { vx_out: self.vx_out, statistics: self.statistics, ..vx_b }),
        vx_it0.wf(), vx_it0.all() == vx_i0.all(),
        vx_to.no_duplicates(), self.log() =~= vx_b.log() + vx_bus_copies(vx_to, event),
        forall|j: int| #![trigger vx_to[j]] 0 <= j < vx_to.len() ==> dups@.contains(&vx_to[j]) && vx_b.conns@.dom().contains(vx_to[j]),
        forall|c: &ConnectionId| #![trigger dups@.contains(c)] dups@.contains(c) ==> vx_hears_bus(vx_b.bus_listeners@, *c, event) && (vx_b.conns@.dom().contains(*c) ==> vx_to.contains(*c)),
        forall|j: int| #![trigger vx_it0.all()[j]] 0 <= j < vx_it0.pos() && vx_it0.all()[j].news(event) ==> dups@.contains(&vx_it0.all()[j].conn_id),
    decreases vx_it0.left(),
hint Broker::emit_bus_event loop0.bind
    proof { let i = vx_it0.pos() - 1; let k = vx_key_at::<BusListenerCookie, BusListener>(vx_i0, i); assert(vx_b.bus_listeners@[k] == *vx_it0.all()[i]); }
hint Broker::emit_bus_event before:is_err#0
    proof {
        let o = vx_to; vx_to = vx_to.push(*conn_id);
        assert(vx_to[o.len() as int] == *conn_id);
        assert forall|c: ConnectionId| o.contains(c) implies vx_to.contains(c) by { let i = choose|i: int| 0 <= i < o.len() && o[i] == c; assert(vx_to[i] == c); }
        assert(self.log() =~= vx_b.log() + vx_bus_copies(vx_to, event));
    }
hint Broker::emit_bus_event loop0.after
    proof {
        assert(vx_announced(vx_b.log(), self.log(), event, vx_b)) by {
            assert forall|c: ConnectionId| vx_to.contains(c) <==> vx_b.conns@.dom().contains(c) && vx_hears_bus(vx_b.bus_listeners@, c, event) by {
                if vx_hears_bus(vx_b.bus_listeners@, c, event) {
                    let k = choose|k: BusListenerCookie| vx_b.bus_listeners@.dom().contains(k) && (#[trigger] vx_b.bus_listeners@[k]).conn_id == c && vx_b.bus_listeners@[k].news(event);
                    let i = vx_idx_of::<BusListenerCookie, BusListener>(vx_i0, k); assert(vx_it0.all()[i].news(event)); assert(dups@.contains(&vx_it0.all()[i].conn_id));
                }
            }
        }
    }
hint Broker::emit_bus_event loop1.before
    let ghost vx_i1 = vx_it1;
loop Broker::emit_bus_event 1
    invariant vx_it1.wf(), vx_it1.all() == vx_i1.all(),
        vx_all_false(vx_vec@),
    decreases vx_it1.left(),
text
    impl BusListener { pub open spec fn news(self, e: BusEvent) -> bool { self.scope is Some && (self.scope->0 is New || self.scope->0 is All) && self.m_event(e) } }
    pub open spec fn vx_hears_bus(m: Map<BusListenerCookie, BusListener>, c: ConnectionId, e: BusEvent) -> bool { exists|k: BusListenerCookie| m.dom().contains(k) && (#[trigger] m[k]).conn_id == c && m[k].news(e) }
    pub open spec fn vx_bus_copies(to: Seq<ConnectionId>, e: BusEvent) -> Seq<(ConnectionId, Message, Option<ProtocolVersion>)> { Seq::new(to.len(), |i: int| (to[i], Message::EmitBusEvent(EmitBusEvent { cookie: None, event: e }), None)) }
    pub open spec fn vx_announced(o: Seq<(ConnectionId, Message, Option<ProtocolVersion>)>, n: Seq<(ConnectionId, Message, Option<ProtocolVersion>)>, e: BusEvent, b: Broker) -> bool {
        exists|to: Seq<ConnectionId>| #![trigger vx_bus_copies(to, e)] to.no_duplicates() && (forall|c: ConnectionId| to.contains(c) <==> b.conns@.dom().contains(c) && vx_hears_bus(b.bus_listeners@, c, e)) && n =~= o + vx_bus_copies(to, e)
    }
    pub open spec fn vx_all_false(v: Seq<(ConnectionId, bool)>) -> bool { forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> !v[i].1 }
