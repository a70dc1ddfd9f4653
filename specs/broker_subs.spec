// Events and subscriptions (C04)
text
    impl Service { pub open spec fn same_subs(self, o: Self) -> bool { (forall|e: u32| #[trigger] self.subs(e) == o.subs(e)) && self.all_events@ == o.all_events@ && self.subscriptions@ == o.subscriptions@ } }
    impl Broker {
        /// nothing changed but who is subscribed to what
        pub open spec fn only_subs(self, o: Self) -> bool {
            &&& self.obj_uuids@ == o.obj_uuids@ && self.objs@ =~= o.objs@ && self.svc_uuids@ == o.svc_uuids@ && self.function_calls.m() == o.function_calls.m()
            &&& self.svcs@.dom() =~= o.svcs@.dom()
            &&& forall|k: (ObjectUuid, ServiceUuid)| #![trigger self.svcs@[k]] #![trigger o.svcs@[k]] self.svcs@.dom().contains(k) ==> self.svcs@[k].same_ids(o.svcs@[k]) && self.svcs@[k].function_calls@ == o.svcs@[k].function_calls@
            &&& vx_same_conns(self.conns@, o.conns@)
            &&& forall|c: ConnectionId| #![trigger self.conns@[c]] #![trigger o.conns@[c]] self.conns@.dom().contains(c) ==> self.conns@[c].same_objects(o.conns@[c]) && self.conns@[c].same_chans(o.conns@[c]) && self.conns@[c].same_lists(o.conns@[c]) && self.conns@[c].same_calls(o.conns@[c])
        }
        /// and only of this connection at this service
        pub open spec fn only_at(self, o: Self, c: ConnectionId, k: (ObjectUuid, ServiceUuid)) -> bool {
            &&& forall|d: ConnectionId| #![trigger self.conns@[d]] self.conns@.dom().contains(d) && d != c ==> self.conns@[d] == o.conns@[d]
            &&& forall|l: (ObjectUuid, ServiceUuid)| #![trigger self.svcs@[l]] self.svcs@.dom().contains(l) && l != k ==> self.svcs@[l] == o.svcs@[l]
        }
        pub open spec fn owner(self, s: ServiceCookie) -> ConnectionId { self.objs@[self.svc_uuids@[s].0.uuid].conn_id }
        pub open spec fn svc(self, s: ServiceCookie) -> Service { self.svcs@[self.key(s)] }
        pub open spec fn understands_all(self, s: ServiceCookie) -> bool { self.svc_uuids@[s].2.subscribe_all == Some(true) && self.speaks(self.owner(s), 18) }
    }
    pub open spec fn vx_msg(c: ConnectionId, m: Message) -> Seq<(ConnectionId, Message, Option<ProtocolVersion>)> { seq![(c, m, None::<ProtocolVersion>)] }
    pub open spec fn vx_none() -> Seq<(ConnectionId, Message, Option<ProtocolVersion>)> { seq![] }
fn Broker::subscribe_event verifier::spinoff_prover
    @sig pub fn subscribe_event(&mut self, id: &ConnectionId, req: SubscribeEvent, vx_st: Ghost<State>) -> (r: Result<(), ()>)
    requires old(self).w(vx_st@), //@C04,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w_obj(), //@C04,C11
        final(self).w_svc(), //@C04,C11
        final(self).w_os(None), //@C04,C11
        final(self).w_conn(None), //@C04,C11
        final(self).w_calls(), //@C04,C11
        final(self).w_callers(vx_st@.remove_function_calls@), //@C04,C11
        final(self).w_subs(None), //@C04,C11
        final(self).w_all(vx_st@.unsubscribe_all_events@), //@C04,C11
        final(self).w_chan(None), //@C04,C11
        final(self).w(vx_st@), final(self).same_other(*old(self)), final(self).only_subs(*old(self)), //@C04,C11
        req.serial is None ==> r is Err, //@C04
        req.serial is None || !old(self).conns@.dom().contains(*id) ==> final(self).same_reg(*old(self)) && final(self).quiet(*old(self)), //@C04
        req.serial is Some && old(self).conns@.dom().contains(*id) && !old(self).svc_uuids@.dom().contains(req.service_cookie) ==> final(self).same_reg(*old(self)) && final(self).sent(*old(self), *id, Message::SubscribeEventReply(SubscribeEventReply { serial: req.serial->0, result: SubscribeEventResult::InvalidService })), //@C04
        req.serial is Some && old(self).conns@.dom().contains(*id) && old(self).svc_uuids@.dom().contains(req.service_cookie) ==> ({
            let s = req.service_cookie; let o = *old(self); let n = *final(self);
            &&& (r is Err ==> n.same_reg(o) && n.sent(o, *id, Message::SubscribeEventReply(SubscribeEventReply { serial: req.serial->0, result: SubscribeEventResult::Ok })))
            &&& (r is Ok ==> n.only_at(o, *id, o.key(s)) && n.conns@[*id].subs(s) =~= o.conns@[*id].subs(s).insert(req.event) && n.svc(s).subs(req.event) =~= o.svc(s).subs(req.event).insert(*id)
                // the owner is told about the first subscriber
                && n.log() =~= o.log() + vx_msg(*id, Message::SubscribeEventReply(SubscribeEventReply { serial: req.serial->0, result: SubscribeEventResult::Ok }))
                    + (if o.svc(s).subs(req.event) =~= Set::empty() { vx_msg(o.owner(s), Message::SubscribeEvent(SubscribeEvent { serial: None, service_cookie: s, event: req.event })) } else { vx_none() }))
        }), //@C04
fn Broker::unsubscribe_event verifier::spinoff_prover
    requires old(self).w(*old(state)), //@C04,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w(*final(state)), final(self).same_other(*old(self)), final(self).only_subs(*old(self)), //@C04,C11
        !old(self).conns@.dom().contains(*id) || !old(self).svc_uuids@.dom().contains(req.service_cookie) ==> final(self).same_reg(*old(self)) && final(self).quiet(*old(self)) && *final(state) == *old(state), //@C04
        old(self).conns@.dom().contains(*id) && old(self).svc_uuids@.dom().contains(req.service_cookie) ==> ({
            let s = req.service_cookie; let o = *old(self); let n = *final(self);
            &&& n.only_at(o, *id, o.key(s)) && n.conns@[*id].subs(s) =~= o.conns@[*id].subs(s).remove(req.event) && n.svc(s).subs(req.event) =~= o.svc(s).subs(req.event).remove(*id)
            // the owner is told that the last subscriber is gone
            &&& n.log() =~= o.log() + (if !(o.svc(s).subs(req.event) =~= Set::empty()) && n.svc(s).subs(req.event) =~= Set::empty() { vx_msg(o.owner(s), Message::UnsubscribeEvent(req)) } else { vx_none() })
            &&& vx_maybe_removed(*final(state), *old(state), o.owner(s))
        }), //@C04
fn Broker::query_service_version verifier::spinoff_prover
    @sig pub fn query_service_version(&mut self, id: &ConnectionId, req: QueryServiceVersion, vx_st: Ghost<State>) -> (r: Result<(), ()>)
    requires old(self).w(vx_st@), //@C03,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w(vx_st@), final(self).same_other(*old(self)), final(self).same_reg(*old(self)), //@C03,C11
        !old(self).conns@.dom().contains(*id) ==> final(self).quiet(*old(self)), //@C03
        old(self).conns@.dom().contains(*id) ==> final(self).sent(*old(self), *id, Message::QueryServiceVersionReply(QueryServiceVersionReply { serial: req.serial, result: if old(self).svc_uuids@.dom().contains(req.cookie) { QueryServiceVersionResult::Ok(old(self).svc_uuids@[req.cookie].2.version) } else { QueryServiceVersionResult::InvalidService } })), //@C03
fn Broker::query_service_info verifier::spinoff_prover
    @sig pub fn query_service_info(&mut self, id: &ConnectionId, req: QueryServiceInfo, vx_st: Ghost<State>) -> (r: Result<(), ()>)
    requires old(self).w(vx_st@), //@C03,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w(vx_st@), final(self).same_other(*old(self)), final(self).same_reg(*old(self)), //@C03,C11
        !old(self).conns@.dom().contains(*id) ==> final(self).quiet(*old(self)), //@C03
        old(self).conns@.dom().contains(*id) && !old(self).speaks(*id, 17) ==> r is Err && final(self).quiet(*old(self)), //@C12
        old(self).conns@.dom().contains(*id) && old(self).speaks(*id, 17) ==> final(self).sent(*old(self), *id, Message::QueryServiceInfoReply(QueryServiceInfoReply { serial: req.serial, result: if old(self).svc_uuids@.dom().contains(req.cookie) { QueryServiceInfoResult::Ok(vx_encoded(old(self).svc_uuids@[req.cookie].2)) } else { QueryServiceInfoResult::InvalidService } })), //@C03
fn Broker::sync verifier::spinoff_prover
    @sig pub fn sync(&mut self, id: &ConnectionId, req: Sync, vx_st: Ghost<State>) -> (r: Result<(), ()>)
    requires old(self).w(vx_st@), //@C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w(vx_st@), final(self).same_other(*old(self)), final(self).same_reg(*old(self)), //@C11
        !old(self).conns@.dom().contains(*id) ==> final(self).quiet(*old(self)), //@C11
        old(self).conns@.dom().contains(*id) ==> final(self).sent(*old(self), *id, Message::SyncReply(SyncReply { serial: req.serial })), //@C11
fn Broker::subscribe_service verifier::spinoff_prover
    @sig pub fn subscribe_service(&mut self, id: &ConnectionId, req: SubscribeService, vx_st: Ghost<State>) -> (r: Result<(), ()>)
    requires old(self).w(vx_st@), //@C04,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w(vx_st@), final(self).same_other(*old(self)), final(self).only_subs(*old(self)), //@C04,C11
        !old(self).conns@.dom().contains(*id) ==> r is Ok && final(self).same_reg(*old(self)) && final(self).quiet(*old(self)), //@C04
        old(self).conns@.dom().contains(*id) && !old(self).speaks(*id, 18) ==> r is Err && final(self).same_reg(*old(self)) && final(self).quiet(*old(self)), //@C12
        old(self).conns@.dom().contains(*id) && old(self).speaks(*id, 18) ==> ({
            let s = req.service_cookie; let o = *old(self); let n = *final(self); let known = o.svc_uuids@.dom().contains(s);
            &&& n.sent(o, *id, Message::SubscribeServiceReply(SubscribeServiceReply { serial: req.serial, result: if known { SubscribeServiceResult::Ok } else { SubscribeServiceResult::InvalidService } }))
            &&& (r is Err || !known ==> n.same_reg(o))
            &&& (r is Ok && known ==> n.only_at(o, *id, o.key(s)) && n.conns@[*id].subscriptions@ =~= o.conns@[*id].subscriptions@.insert(s) && n.svc(s).subscriptions@ =~= o.svc(s).subscriptions@.insert(*id))
        }), //@C04
fn Broker::unsubscribe_service verifier::spinoff_prover
    @sig pub fn unsubscribe_service(&mut self, id: &ConnectionId, req: UnsubscribeService, vx_st: Ghost<State>) -> (r: Result<(), ()>)
    requires old(self).w(vx_st@), //@C04,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w(vx_st@), final(self).same_other(*old(self)), final(self).only_subs(*old(self)), final(self).quiet(*old(self)), //@C04,C11
        !old(self).conns@.dom().contains(*id) ==> r is Ok, //@C04
        old(self).conns@.dom().contains(*id) ==> (r is Err <==> !old(self).speaks(*id, 18)), //@C12
        old(self).conns@.dom().contains(*id) && old(self).speaks(*id, 18) && old(self).svc_uuids@.dom().contains(req.service_cookie) ==> final(self).only_at(*old(self), *id, old(self).key(req.service_cookie)) && final(self).conns@[*id].subscriptions@ =~= old(self).conns@[*id].subscriptions@.remove(req.service_cookie) && final(self).svc(req.service_cookie).subscriptions@ =~= old(self).svc(req.service_cookie).subscriptions@.remove(*id), //@C04
        !(old(self).conns@.dom().contains(*id) && old(self).speaks(*id, 18) && old(self).svc_uuids@.dom().contains(req.service_cookie)) ==> final(self).same_reg(*old(self)), //@C04
fn Broker::subscribe_all_events verifier::spinoff_prover
    @sig pub fn subscribe_all_events(&mut self, id: &ConnectionId, req: SubscribeAllEvents, vx_st: Ghost<State>) -> (r: Result<(), ()>)
    requires old(self).w(vx_st@), //@C04,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w(vx_st@), final(self).same_other(*old(self)), final(self).only_subs(*old(self)), //@C04,C11
        !old(self).conns@.dom().contains(*id) ==> r is Ok && final(self).same_reg(*old(self)) && final(self).quiet(*old(self)), //@C04
        old(self).conns@.dom().contains(*id) && (!old(self).speaks(*id, 18) || req.serial is None) ==> r is Err && final(self).same_reg(*old(self)) && final(self).quiet(*old(self)), //@C12
        old(self).conns@.dom().contains(*id) && old(self).speaks(*id, 18) && req.serial is Some ==> ({
            let s = req.service_cookie; let o = *old(self); let n = *final(self); let known = o.svc_uuids@.dom().contains(s);
            let res = if !known { SubscribeAllEventsResult::InvalidService } else if !o.understands_all(s) { SubscribeAllEventsResult::NotSupported } else { SubscribeAllEventsResult::Ok };
            let reply = vx_msg(*id, Message::SubscribeAllEventsReply(SubscribeAllEventsReply { serial: req.serial->0, result: res }));
            &&& (r is Err || !(known && o.understands_all(s)) ==> n.same_reg(o) && n.log() =~= o.log() + reply)
            &&& (r is Ok && known && o.understands_all(s) ==> n.only_at(o, *id, o.key(s)) && n.conns@[*id].all_events@ =~= o.conns@[*id].all_events@.insert(s) && n.svc(s).all_events@ =~= o.svc(s).all_events@.insert(*id)
                && n.log() =~= o.log() + reply + (if o.svc(s).all_events@ =~= Set::empty() { vx_msg(o.owner(s), Message::SubscribeAllEvents(SubscribeAllEvents { serial: None, service_cookie: s })) } else { vx_none() }))
        }), //@C04
fn Broker::unsubscribe_all_events verifier::spinoff_prover
    @sig pub fn unsubscribe_all_events(&mut self, id: &ConnectionId, req: UnsubscribeAllEvents, vx_st: Ghost<State>) -> (r: Result<(), ()>)
    requires old(self).w(vx_st@), //@C04,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w(vx_st@), final(self).same_other(*old(self)), final(self).only_subs(*old(self)), //@C04,C11
        !old(self).conns@.dom().contains(*id) ==> r is Ok && final(self).same_reg(*old(self)) && final(self).quiet(*old(self)), //@C04
        old(self).conns@.dom().contains(*id) && !old(self).speaks(*id, 18) ==> r is Err && final(self).same_reg(*old(self)) && final(self).quiet(*old(self)), //@C12
        old(self).conns@.dom().contains(*id) && old(self).speaks(*id, 18) ==> ({
            let s = req.service_cookie; let o = *old(self); let n = *final(self); let known = o.svc_uuids@.dom().contains(s); let ok = known && o.speaks(o.owner(s), 18);
            let res = if !known { UnsubscribeAllEventsResult::InvalidService } else if !ok { UnsubscribeAllEventsResult::NotSupported } else { UnsubscribeAllEventsResult::Ok };
            let reply = if req.serial is Some { vx_msg(*id, Message::UnsubscribeAllEventsReply(UnsubscribeAllEventsReply { serial: req.serial->0, result: res })) } else { vx_none() };
            &&& (r is Err || !ok ==> n.same_reg(o) && n.log() =~= o.log() + reply)
            &&& (r is Ok && ok ==> n.only_at(o, *id, o.key(s)) && n.conns@[*id].all_events@ =~= o.conns@[*id].all_events@.remove(s) && n.svc(s).all_events@ =~= o.svc(s).all_events@.remove(*id)
                && n.log() =~= o.log() + reply + (if !(o.svc(s).all_events@ =~= Set::empty()) && n.svc(s).all_events@ =~= Set::empty() { vx_msg(o.owner(s), Message::UnsubscribeAllEvents(UnsubscribeAllEvents { serial: None, service_cookie: s })) } else { vx_none() }))
        }), //@C04
text
    pub uninterp spec fn vx_encoded(i: ServiceInfo) -> SerializedValue;
    impl VxSer for ServiceInfo { open spec fn vx_enc(self) -> SerializedValue { vx_encoded(self) } }
fn Broker::emit_event verifier::spinoff_prover verifier::loop_isolation(false)
    requires old(self).w(*old(state)), //@C04,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w(*final(state)), final(self).same_other(*old(self)), final(self).same_reg(*old(self)), //@C04,C11
        vx_only_removed(*final(state), *old(state)), //@C09
        // only the owner emits
        !(old(self).conns@.dom().contains(*id) && old(self).svc_uuids@.dom().contains(req.service_cookie) && old(self).owner(req.service_cookie) == *id) ==> final(self).quiet(*old(self)) && *final(state) == *old(state), //@C04
        // every subscriber gets the event once, no one else does
        old(self).conns@.dom().contains(*id) && old(self).svc_uuids@.dom().contains(req.service_cookie) && old(self).owner(req.service_cookie) == *id
            ==> vx_emitted(old(self).log(), final(self).log(), req, old(self).conns@[*id].version, old(self).conns@), //@C04
hint Broker::emit_event loop0.before
    let ghost vx_b = *self; let ghost vx_s = *state; let ghost vx_i0 = vx_it0; let ghost mut vx_to = Seq::<ConnectionId>::empty();
loop Broker::emit_event 0
    invariant
        *self == (Broker { vx_out: self.vx_out, statistics: self.statistics, ..vx_b }),
        vx_only_removed(*state, vx_s),
        vx_it0.wf(), vx_it0.all() == vx_i0.all(),
        vx_to.no_duplicates(), self.log() =~= vx_b.log() + vx_copies(vx_to, req, emitter_conn.version),
        forall|j: int| #![trigger vx_to[j]] 0 <= j < vx_to.len() ==> vx_before(vx_it0.all(), vx_it0.pos(), vx_to[j]) && vx_hears(vx_b.conns@, vx_to[j], req),
        forall|j: int| #![trigger vx_it0.all()[j]] 0 <= j < vx_it0.pos() && vx_hears(vx_b.conns@, *vx_it0.all()[j].0, req) ==> vx_to.contains(*vx_it0.all()[j].0),
    decreases vx_it0.left(),
hint Broker::emit_event loop0.start
    let ghost vx_c = *self; let ghost vx_o = vx_to;
hint Broker::emit_event loop0.end
    proof {
        let e = vx_it0.all()[vx_it0.pos() - 1];
        if vx_hears(vx_b.conns@, *e.0, req) {
            vx_to = vx_to.push(*e.0);
            assert(vx_to[vx_o.len() as int] == *e.0);
            assert forall|j: int| 0 <= j < vx_o.len() implies vx_to.contains(#[trigger] vx_o[j]) by { assert(vx_to[j] == vx_o[j]); }
        }
        assert(self.log() =~= vx_b.log() + vx_copies(vx_to, req, emitter_conn.version));
    }
hint Broker::emit_event loop0.after
    proof {
        assert(vx_emitted(vx_b.log(), self.log(), req, emitter_conn.version, vx_b.conns@)) by {
            assert forall|c: ConnectionId| vx_to.contains(c) <==> vx_hears(vx_b.conns@, c, req) by { }
        }
    }
text
    /// the connection is to receive the event
    pub open spec fn vx_hears(m: Map<ConnectionId, ConnectionState>, c: ConnectionId, req: EmitEvent) -> bool { m.dom().contains(c) && (m[c].all_events@.contains(req.service_cookie) || m[c].subs(req.service_cookie).contains(req.event)) }
    pub open spec fn vx_copies(to: Seq<ConnectionId>, req: EmitEvent, v: ProtocolVersion) -> Seq<(ConnectionId, Message, Option<ProtocolVersion>)> { Seq::new(to.len(), |i: int| (to[i], Message::EmitEvent(req), Some(v))) }
    pub open spec fn vx_before<'a>(s: Seq<(&'a ConnectionId, &'a ConnectionState)>, n: int, c: ConnectionId) -> bool { exists|i: int| 0 <= i < n && *(#[trigger] s[i]).0 == c }
    pub open spec fn vx_emitted(o: Seq<(ConnectionId, Message, Option<ProtocolVersion>)>, n: Seq<(ConnectionId, Message, Option<ProtocolVersion>)>, req: EmitEvent, v: ProtocolVersion, m: Map<ConnectionId, ConnectionState>) -> bool {
        exists|to: Seq<ConnectionId>| #![trigger vx_copies(to, req, v)] to.no_duplicates() && (forall|c: ConnectionId| to.contains(c) <==> vx_hears(m, c, req)) && n =~= o + vx_copies(to, req, v)
    }
    /// some connections were queued for removal, nothing else
    pub open spec fn vx_only_removed(n: State, o: State) -> bool { n == (State { remove_conns: n.remove_conns, ..o }) && o.remove_conns@.is_prefix_of(n.remove_conns@) && forall|i: int| #![trigger n.remove_conns@[i]] o.remove_conns@.len() <= i < n.remove_conns@.len() ==> !n.remove_conns@[i].1 }
fn Broker::remove_event_subscription verifier::spinoff_prover
    @sig pub fn remove_event_subscription(&mut self, state: &mut State, conn_id: &ConnectionId, svc_cookie: ServiceCookie, event: u32, vx_gone: Ghost<Option<ConnectionId>>)
    requires old(self).wx(*old(state), vx_gone@, None), //@C04,C11
    ensures final(self).wx(*final(state), vx_gone@, None), final(self).same_other(*old(self)), final(self).quiet(*old(self)), final(self).only_subs(*old(self)), //@C04,C11
        !old(self).svc_uuids@.dom().contains(svc_cookie) ==> final(self).same_reg(*old(self)) && *final(state) == *old(state), //@C04
        old(self).svc_uuids@.dom().contains(svc_cookie) ==> ({
            let o = *old(self); let n = *final(self);
            &&& n.only_at(o, *conn_id, o.key(svc_cookie)) && n.svc(svc_cookie).subs(event) =~= o.svc(svc_cookie).subs(event).remove(*conn_id)
            &&& (forall|e: u32| #![trigger n.svc(svc_cookie).subs(e)] e != event ==> n.svc(svc_cookie).subs(e) == o.svc(svc_cookie).subs(e))
            &&& n.svc(svc_cookie).all_events@ == o.svc(svc_cookie).all_events@ && n.svc(svc_cookie).subscriptions@ == o.svc(svc_cookie).subscriptions@
            &&& *final(state) == (State { unsubscribe_event: final(state).unsubscribe_event, ..*old(state) })
            // the owner will be told that the last subscriber is gone
            &&& final(state).unsubscribe_event@ == (if !(o.svc(svc_cookie).subs(event) =~= Set::empty()) && n.svc(svc_cookie).subs(event) =~= Set::empty() { old(state).unsubscribe_event@.push((o.owner(svc_cookie), svc_cookie, event)) } else { old(state).unsubscribe_event@ })
        }), //@C04,C09
fn Broker::remove_all_events_subscription verifier::spinoff_prover
    @sig pub fn remove_all_events_subscription(&mut self, state: &mut State, conn_id: &ConnectionId, svc_cookie: ServiceCookie, vx_gone: Ghost<Option<ConnectionId>>)
    requires old(self).wx(*old(state), vx_gone@, None), //@C04,C11
    ensures final(self).w_obj() && final(self).w_svc() && final(self).w_os(None) && final(self).w_conn(vx_gone@) && final(self).w_calls() && final(self).w_callers(final(state).remove_function_calls@), final(self).w_subs(vx_gone@), final(self).w_all(final(state).unsubscribe_all_events@), //@C04,C11
        final(self).wx(*final(state), vx_gone@, None), final(self).same_other(*old(self)), final(self).quiet(*old(self)), final(self).only_subs(*old(self)), //@C04,C11
        !old(self).svc_uuids@.dom().contains(svc_cookie) ==> final(self).same_reg(*old(self)) && *final(state) == *old(state), //@C04
        old(self).svc_uuids@.dom().contains(svc_cookie) ==> ({
            let o = *old(self); let n = *final(self);
            &&& n.only_at(o, *conn_id, o.key(svc_cookie)) && n.svc(svc_cookie).all_events@ =~= o.svc(svc_cookie).all_events@.remove(*conn_id)
            &&& n.svc(svc_cookie).events@ == o.svc(svc_cookie).events@ && n.svc(svc_cookie).subscriptions@ == o.svc(svc_cookie).subscriptions@
            &&& *final(state) == (State { unsubscribe_all_events: final(state).unsubscribe_all_events, ..*old(state) })
            &&& final(state).unsubscribe_all_events@ == (if !(o.svc(svc_cookie).all_events@ =~= Set::empty()) && n.svc(svc_cookie).all_events@ =~= Set::empty() { old(state).unsubscribe_all_events@.push((o.owner(svc_cookie), svc_cookie)) } else { old(state).unsubscribe_all_events@ })
        }), //@C04,C09
fn Broker::remove_subscription verifier::spinoff_prover
    @sig pub fn remove_subscription(&mut self, conn_id: &ConnectionId, svc_cookie: ServiceCookie, vx_st: Ghost<State>, vx_gone: Ghost<Option<ConnectionId>>)
    requires old(self).wx(vx_st@, vx_gone@, None), vx_gone@ == Some(*conn_id), //@C04,C11
    ensures final(self).wx(vx_st@, vx_gone@, None), final(self).same_other(*old(self)), final(self).quiet(*old(self)), final(self).only_subs(*old(self)), final(self).conns@ == old(self).conns@, //@C04,C11
        !old(self).svc_uuids@.dom().contains(svc_cookie) ==> final(self).same_reg(*old(self)), //@C04
        old(self).svc_uuids@.dom().contains(svc_cookie) ==> final(self).only_at(*old(self), *conn_id, old(self).key(svc_cookie)) && final(self).svc(svc_cookie).subscriptions@ =~= old(self).svc(svc_cookie).subscriptions@.remove(*conn_id) && final(self).svc(svc_cookie).events@ == old(self).svc(svc_cookie).events@ && final(self).svc(svc_cookie).all_events@ == old(self).svc(svc_cookie).all_events@, //@C04
