// Objects and services (C03)
fn Broker::create_object verifier::spinoff_prover
    requires old(self).w(*old(state)), //@C03,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w(*final(state)), //@C03,C11
        final(self).same_other(*old(self)), //@C03
        !old(self).conns@.dom().contains(*id) ==> r is Ok && final(self).same_reg(*old(self)) && final(self).quiet(*old(self)), //@C03
        // a uuid that is in use is refused
        old(self).conns@.dom().contains(*id) && old(self).objs@.dom().contains(req.uuid) ==> final(self).same_reg(*old(self)) && final(self).sent(*old(self), *id, Message::CreateObjectReply(CreateObjectReply { serial: req.serial, result: CreateObjectResult::DuplicateObject })), //@C03
        // otherwise the object is created with a new cookie
        old(self).conns@.dom().contains(*id) && !old(self).objs@.dom().contains(req.uuid) ==> ({
            let c = final(self).log().last().1->CreateObjectReply_0.result->Ok_0;
            &&& !old(self).obj_uuids@.dom().contains(c)
            &&& final(self).sent(*old(self), *id, Message::CreateObjectReply(CreateObjectReply { serial: req.serial, result: CreateObjectResult::Ok(c) }))
            &&& (r is Err ==> final(self).same_reg(*old(self)) && *final(state) == *old(state))
            &&& (r is Ok ==> final(self).obj_uuids@ == old(self).obj_uuids@.insert(c, req.uuid) && final(self).objs@ == old(self).objs@.insert(req.uuid, final(self).objs@[req.uuid]) && final(self).owns(*id, c)
                && final(state).create_object@ == old(state).create_object@.push(ObjectId { uuid: req.uuid, cookie: c }))
        }), //@C03,C10
fn Broker::create_service verifier::spinoff_prover
    requires old(self).w(*old(state)), //@C03,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w(*final(state)), //@C03,C11
        final(self).same_other(*old(self)), //@C03
        !old(self).conns@.dom().contains(*id) ==> r is Ok && final(self).same_reg(*old(self)) && final(self).quiet(*old(self)), //@C03
        old(self).conns@.dom().contains(*id) && !(old(self).svc_refused(*id, req.object_cookie, req.uuid) is None) ==> final(self).same_reg(*old(self)) && *final(state) == *old(state)
            && final(self).sent(*old(self), *id, Message::CreateServiceReply(CreateServiceReply { serial: req.serial, result: old(self).svc_refused(*id, req.object_cookie, req.uuid)->0 })), //@C03
        old(self).conns@.dom().contains(*id) && old(self).svc_refused(*id, req.object_cookie, req.uuid) is None ==> ({
            let c = final(self).log().last().1->CreateServiceReply_0.result->Ok_0;
            let u = old(self).obj_uuids@[req.object_cookie];
            &&& !old(self).svc_uuids@.dom().contains(c)
            &&& final(self).sent(*old(self), *id, Message::CreateServiceReply(CreateServiceReply { serial: req.serial, result: CreateServiceResult::Ok(c) }))
            &&& (r is Err ==> final(self).same_reg(*old(self)) && *final(state) == *old(state))
            &&& (r is Ok ==> final(self).svc_uuids@ == old(self).svc_uuids@.insert(c, (ObjectId { uuid: u, cookie: req.object_cookie }, req.uuid, ServiceInfo { version: req.version, type_id: None, subscribe_all: None }))
                && final(self).svcs@ == old(self).svcs@.insert((u, req.uuid), final(self).svcs@[(u, req.uuid)])
                && final(state).create_service@ == old(state).create_service@.push(ServiceId { object_id: ObjectId { uuid: u, cookie: req.object_cookie }, uuid: req.uuid, cookie: c }))
        }), //@C03,C10
fn Broker::create_service2 verifier::spinoff_prover
    requires old(self).w(*old(state)), //@C03,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w(*final(state)), //@C03,C11
        final(self).same_other(*old(self)), //@C03
        !old(self).conns@.dom().contains(*id) ==> r is Ok && final(self).same_reg(*old(self)) && final(self).quiet(*old(self)), //@C03
        old(self).conns@.dom().contains(*id) && !old(self).speaks(*id, 17) ==> r is Err && final(self).same_reg(*old(self)) && final(self).quiet(*old(self)) && *final(state) == *old(state), //@C12
        old(self).conns@.dom().contains(*id) && old(self).speaks(*id, 17) && old(self).svc_refused(*id, req.object_cookie, req.uuid) is None && vx_decoded::<ServiceInfo>(req.value) is None ==> r is Err && final(self).same_reg(*old(self)) && final(self).quiet(*old(self)) && *final(state) == *old(state), //@C03
        old(self).conns@.dom().contains(*id) && old(self).speaks(*id, 17) && !(old(self).svc_refused(*id, req.object_cookie, req.uuid) is None) ==> final(self).same_reg(*old(self)) && *final(state) == *old(state)
            && final(self).sent(*old(self), *id, Message::CreateServiceReply(CreateServiceReply { serial: req.serial, result: old(self).svc_refused(*id, req.object_cookie, req.uuid)->0 })), //@C03
        old(self).conns@.dom().contains(*id) && old(self).speaks(*id, 17) && vx_decoded::<ServiceInfo>(req.value) is Some && old(self).svc_refused(*id, req.object_cookie, req.uuid) is None ==> ({
            let c = final(self).log().last().1->CreateServiceReply_0.result->Ok_0;
            let u = old(self).obj_uuids@[req.object_cookie];
            &&& !old(self).svc_uuids@.dom().contains(c)
            &&& final(self).sent(*old(self), *id, Message::CreateServiceReply(CreateServiceReply { serial: req.serial, result: CreateServiceResult::Ok(c) }))
            &&& (r is Err ==> final(self).same_reg(*old(self)) && *final(state) == *old(state))
            &&& (r is Ok ==> final(self).svc_uuids@ == old(self).svc_uuids@.insert(c, (ObjectId { uuid: u, cookie: req.object_cookie }, req.uuid, if old(self).speaks(*id, 18) { vx_decoded::<ServiceInfo>(req.value)->0 } else { ServiceInfo { subscribe_all: Some(false), ..vx_decoded::<ServiceInfo>(req.value)->0 } }))
                && final(self).svcs@ == old(self).svcs@.insert((u, req.uuid), final(self).svcs@[(u, req.uuid)])
                && final(state).create_service@ == old(state).create_service@.push(ServiceId { object_id: ObjectId { uuid: u, cookie: req.object_cookie }, uuid: req.uuid, cookie: c }))
        }), //@C03,C10
fn Broker::remove_service verifier::spinoff_prover verifier::loop_isolation(false)
    @sig pub fn remove_service(&mut self, state: &mut State, svc_cookie: ServiceCookie, vx_gone: Ghost<Option<ConnectionId>>, vx_dead: Ghost<Option<ObjectUuid>>)
    requires old(self).wx(*old(state), vx_gone@, vx_dead@), //@C03,C11
    ensures final(self).wx(*final(state), vx_gone@, vx_dead@), //@C03,C02,C11
        final(self).same_other(*old(self)), final(self).quiet(*old(self)), final(self).obj_uuids@ == old(self).obj_uuids@, vx_same_conns(final(self).conns@, old(self).conns@), final(state).same_flags(*old(state)), //@C03
        !old(self).svc_uuids@.dom().contains(svc_cookie) ==> final(self).same_reg(*old(self)) && *final(state) == *old(state), //@C03
        old(self).svc_uuids@.dom().contains(svc_cookie) ==> {
            &&& final(self).svc_uuids@ == old(self).svc_uuids@.remove(svc_cookie)
            &&& final(self).svcs@ == old(self).svcs@.remove(old(self).key(svc_cookie))
            &&& final(state).destroy_service@ == old(state).destroy_service@.push(ServiceId { object_id: old(self).svc_uuids@[svc_cookie].0, uuid: old(self).svc_uuids@[svc_cookie].1, cookie: svc_cookie })
        }, //@C03,C10
        vx_fewer_svcs(final(self).objs@, old(self).objs@, svc_cookie), //@C03
        // its calls are gone, all others stay
        forall|n: u32| #![trigger final(self).function_calls.m().dom().contains(n)] final(self).function_calls.m().dom().contains(n) <==> old(self).function_calls.m().dom().contains(n) && !(old(self).svc_uuids@.dom().contains(svc_cookie) && old(self).svcs@[old(self).key(svc_cookie)].function_calls@.contains(n)), //@C02
        forall|n: u32| #![trigger final(self).function_calls.m()[n]] final(self).function_calls.m().dom().contains(n) ==> final(self).function_calls.m()[n] == old(self).function_calls.m()[n], //@C02
        // each caller that still waits gets a reply
        old(state).remove_function_calls@.is_prefix_of(final(state).remove_function_calls@), //@C02
        forall|n: u32| #![trigger old(self).function_calls.m()[n]] old(self).function_calls.m().dom().contains(n) && !final(self).function_calls.m().dom().contains(n) && !old(self).function_calls.m()[n].aborted
            ==> vx_answered(old(state).remove_function_calls@, final(state).remove_function_calls@, old(self).function_calls.m()[n], CallFunctionResult::InvalidService), //@C02
        final(state).create_object == old(state).create_object, final(state).create_service == old(state).create_service, final(state).destroy_object == old(state).destroy_object, final(state).abort_function_calls == old(state).abort_function_calls, //@C10
        forall|c: ConnectionId| #![trigger final(self).conns@[c]] final(self).conns@.dom().contains(c) ==> final(self).conns@[c].same_objects(old(self).conns@[c]) && final(self).conns@[c].same_chans(old(self).conns@[c]) && final(self).conns@[c].same_lists(old(self).conns@[c]) && final(self).conns@[c].same_calls(old(self).conns@[c]), //@C09
hint Broker::remove_service start
    let ghost vx_a = *self;
    proof { if self.svc_uuids@.dom().contains(svc_cookie) { let k = self.key(svc_cookie); let u = self.svc_uuids@[svc_cookie].0.uuid; assert(self.svcs@.dom().contains(k)); } }
hint Broker::remove_service loop0.before
    let ghost vx_b = *self; let ghost vx_s = *state; let ghost vx_i0 = vx_it0;
loop Broker::remove_service 0
    invariant
        *self == (Broker { function_calls: self.function_calls, ..vx_b }), *state == (State { remove_function_calls: state.remove_function_calls, ..vx_s }),
        vx_it0.wf(), vx_it0.all() == vx_i0.all(),
        self.w_callers(state.remove_function_calls@),
        forall|n: u32| #![trigger self.function_calls.m().dom().contains(n)] #![trigger vx_b.function_calls.m().dom().contains(n)] self.function_calls.m().dom().contains(n) <==> vx_b.function_calls.m().dom().contains(n) && !vx_in(vx_it0.all(), vx_it0.pos(), n),
        forall|n: u32| #![trigger self.function_calls.m()[n]] #![trigger vx_b.function_calls.m()[n]] self.function_calls.m().dom().contains(n) ==> self.function_calls.m()[n] == vx_b.function_calls.m()[n],
        vx_s.remove_function_calls@.is_prefix_of(state.remove_function_calls@),
        forall|j: int| #![trigger vx_it0.all()[j]] 0 <= j < vx_it0.pos() && !vx_b.function_calls.m()[vx_it0.all()[j]].aborted ==> vx_answered(vx_s.remove_function_calls@, state.remove_function_calls@, vx_b.function_calls.m()[vx_it0.all()[j]], CallFunctionResult::InvalidService),
    decreases vx_it0.left(),
hint Broker::remove_service loop0.start
    let ghost vx_c = *self; let ghost vx_q = state.remove_function_calls@;
hint Broker::remove_service loop0.end
    proof {
        let n = vx_it0.all()[vx_it0.pos() - 1];
        let p = vx_c.function_calls.m()[n];
        let q = state.remove_function_calls@;
        if !p.aborted {
            lemma_push(vx_s.remove_function_calls@, vx_q, (p.caller_serial, p.caller_conn_id, CallFunctionResult::InvalidService));
        }
        assert(q.len() >= vx_q.len());
        assert forall|j: int| 0 <= j < vx_it0.pos() && !vx_b.function_calls.m()[#[trigger] vx_it0.all()[j]].aborted implies vx_answered(vx_s.remove_function_calls@, q, vx_b.function_calls.m()[vx_it0.all()[j]], CallFunctionResult::InvalidService) by {
            if j == vx_it0.pos() - 1 { assert(q[vx_q.len() as int] == (p.caller_serial, p.caller_conn_id, CallFunctionResult::InvalidService)); }
        }
    }
hint Broker::remove_service loop1.before
    let ghost vx_b1 = *self; let ghost vx_s1 = *state; let ghost vx_i1 = vx_it1;
loop Broker::remove_service 1
    invariant
        *self == (Broker { conns: self.conns, ..vx_b1 }), *state == (State { services_destroyed: state.services_destroyed, ..vx_s1 }),
        vx_it1.wf(), vx_it1.all() == vx_i1.all(),
        self.conns@.dom() == vx_b1.conns@.dom(),
        forall|c: ConnectionId| #![trigger self.conns@[c]] #![trigger vx_b1.conns@[c]] self.conns@.dom().contains(c) ==> self.conns@[c].wf() && self.conns@[c].same_base(vx_b1.conns@[c]) && self.conns@[c].same_objects(vx_b1.conns@[c]) && self.conns@[c].same_chans(vx_b1.conns@[c]) && self.conns@[c].same_lists(vx_b1.conns@[c]) && self.conns@[c].same_calls(vx_b1.conns@[c]),
        forall|c: ConnectionId| #![trigger self.conns@[c]] #![trigger vx_b1.conns@[c]] self.conns@.dom().contains(c) ==> self.conns@[c].less_subs(vx_b1.conns@[c], svc_cookie),
        forall|j: int| #![trigger vx_it1.all()[j]] 0 <= j < vx_it1.pos() && self.conns@.dom().contains(*vx_it1.all()[j]) ==> self.conns@[*vx_it1.all()[j]].no_subs(svc_cookie),
    decreases vx_it1.left(),
text
    pub open spec fn vx_in<T>(s: Seq<T>, n: int, t: T) -> bool { exists|i: int| 0 <= i < n && #[trigger] s[i] == t }
text
    pub open spec fn vx_fewer_svcs(n: Map<ObjectUuid, Object>, o: Map<ObjectUuid, Object>, s: ServiceCookie) -> bool {
        &&& n.dom() =~= o.dom()
        &&& forall|u: ObjectUuid| #![trigger n[u]] o.dom().contains(u) ==> n[u].conn_id == o[u].conn_id && n[u].cookie == o[u].cookie && n[u].svcs@ =~= o[u].svcs@.remove(s)
    }
    pub open spec fn vx_answered(o: Seq<(u32, ConnectionId, CallFunctionResult)>, n: Seq<(u32, ConnectionId, CallFunctionResult)>, p: PendingFunctionCall, r: CallFunctionResult) -> bool {
        exists|i: int| o.len() <= i < n.len() && #[trigger] n[i] == (p.caller_serial, p.caller_conn_id, r)
    }
fn Broker::remove_object verifier::spinoff_prover verifier::loop_isolation(false)
    @sig pub fn remove_object(&mut self, state: &mut State, obj_cookie: ObjectCookie, vx_gone: Ghost<Option<ConnectionId>>)
    requires old(self).wx(*old(state), vx_gone@, None), //@C03,C11
    ensures final(self).wx(*final(state), vx_gone@, None), //@C03,C02,C11
        final(self).same_other(*old(self)), final(self).quiet(*old(self)), vx_same_conns(final(self).conns@, old(self).conns@), final(state).same_flags(*old(state)), //@C03
        !old(self).obj_uuids@.dom().contains(obj_cookie) ==> final(self).same_reg(*old(self)) && *final(state) == *old(state), //@C03
        old(self).obj_uuids@.dom().contains(obj_cookie) ==> final(self).without_object(*old(self), obj_cookie, old(self).obj_uuids@[obj_cookie]), //@C03,C02
        old(self).obj_uuids@.dom().contains(obj_cookie) ==> final(state).destroy_object@ == old(state).destroy_object@.push(ObjectId { uuid: old(self).obj_uuids@[obj_cookie], cookie: obj_cookie }), //@C03,C10
        // each caller of one of its services that still waits gets a reply
        old(state).remove_function_calls@.is_prefix_of(final(state).remove_function_calls@), //@C02
        forall|n: u32| #![trigger old(self).function_calls.m()[n]] old(self).function_calls.m().dom().contains(n) && !final(self).function_calls.m().dom().contains(n) && !old(self).function_calls.m()[n].aborted
            ==> vx_answered(old(state).remove_function_calls@, final(state).remove_function_calls@, old(self).function_calls.m()[n], CallFunctionResult::InvalidService), //@C02
        final(state).create_object == old(state).create_object, final(state).create_service == old(state).create_service, final(state).abort_function_calls == old(state).abort_function_calls, //@C10
        // its services are announced as destroyed
        old(state).destroy_service@.is_prefix_of(final(state).destroy_service@), //@C10
        forall|s: ServiceCookie| #![trigger old(self).svc_uuids@[s]] old(self).svc_uuids@.dom().contains(s) && !final(self).svc_uuids@.dom().contains(s) ==> vx_told(old(state).destroy_service@, final(state).destroy_service@, ServiceId { object_id: old(self).svc_uuids@[s].0, uuid: old(self).svc_uuids@[s].1, cookie: s }), //@C03,C10
        forall|c: ConnectionId| #![trigger final(self).conns@[c]] final(self).conns@.dom().contains(c) ==> final(self).conns@[c].objects@ =~= old(self).conns@[c].objects@.remove(obj_cookie) && final(self).conns@[c].same_chans(old(self).conns@[c]) && final(self).conns@[c].same_lists(old(self).conns@[c]) && final(self).conns@[c].same_calls(old(self).conns@[c]), //@C09
hint Broker::remove_object start
    let ghost vx_a = *self; let ghost vx_as = *state;
    proof { if self.obj_uuids@.dom().contains(obj_cookie) { assert(self.objs@.dom().contains(self.obj_uuids@[obj_cookie])); } }
hint Broker::remove_object loop0.before
    let ghost vx_b = *self; let ghost vx_s = *state; let ghost vx_i0 = vx_it0;
loop Broker::remove_object 0
    invariant
        self.wx(*state, vx_gone@, Some(obj_uuid)),
        self.same_other(vx_b), self.quiet(vx_b), self.obj_uuids@ == vx_b.obj_uuids@, vx_same_conns(self.conns@, vx_b.conns@), state.same_flags(vx_s),
        vx_it0.wf(), vx_it0.all() == vx_i0.all(),
        self.objs@.dom() =~= vx_b.objs@.dom(),
        forall|u: ObjectUuid| #![trigger self.objs@[u]] vx_b.objs@.dom().contains(u) ==> self.objs@[u].conn_id == vx_b.objs@[u].conn_id && self.objs@[u].cookie == vx_b.objs@[u].cookie && self.objs@[u].svcs@ =~= vx_b.objs@[u].svcs@,
        forall|s: ServiceCookie| #![trigger self.svc_uuids@.dom().contains(s)] #![trigger vx_b.svc_uuids@.dom().contains(s)] self.svc_uuids@.dom().contains(s) <==> vx_b.svc_uuids@.dom().contains(s) && !vx_in(vx_it0.all(), vx_it0.pos(), s),
        forall|s: ServiceCookie| #![trigger self.svc_uuids@[s]] #![trigger vx_b.svc_uuids@[s]] self.svc_uuids@.dom().contains(s) ==> self.svc_uuids@[s] == vx_b.svc_uuids@[s],
        forall|k: (ObjectUuid, ServiceUuid)| #![trigger self.svcs@.dom().contains(k)] #![trigger vx_b.svcs@.dom().contains(k)] self.svcs@.dom().contains(k) <==> vx_b.svcs@.dom().contains(k) && !vx_in(vx_it0.all(), vx_it0.pos(), vx_b.svcs@[k].cookie),
        forall|k: (ObjectUuid, ServiceUuid)| #![trigger self.svcs@[k]] #![trigger vx_b.svcs@[k]] self.svcs@.dom().contains(k) ==> self.svcs@[k] == vx_b.svcs@[k],
        forall|n: u32| #![trigger self.function_calls.m().dom().contains(n)] self.function_calls.m().dom().contains(n) ==> vx_b.function_calls.m().dom().contains(n),
        forall|n: u32| #![trigger self.function_calls.m().dom().contains(n)] #![trigger vx_b.function_calls.m().dom().contains(n)] vx_b.function_calls.m().dom().contains(n) && vx_b.function_calls.m()[n].callee_obj != obj_uuid ==> self.function_calls.m().dom().contains(n),
        forall|n: u32| #![trigger self.function_calls.m()[n]] #![trigger vx_b.function_calls.m()[n]] self.function_calls.m().dom().contains(n) ==> self.function_calls.m()[n] == vx_b.function_calls.m()[n],
        vx_s.remove_function_calls@.is_prefix_of(state.remove_function_calls@),
        vx_s.destroy_service@.is_prefix_of(state.destroy_service@),
        state.destroy_object == vx_s.destroy_object, state.create_object == vx_s.create_object, state.create_service == vx_s.create_service, state.abort_function_calls == vx_s.abort_function_calls,
        forall|n: u32| #![trigger vx_b.function_calls.m()[n]] vx_b.function_calls.m().dom().contains(n) && !self.function_calls.m().dom().contains(n) && !vx_b.function_calls.m()[n].aborted
            ==> vx_answered(vx_s.remove_function_calls@, state.remove_function_calls@, vx_b.function_calls.m()[n], CallFunctionResult::InvalidService),
        forall|s: ServiceCookie| #![trigger vx_b.svc_uuids@[s]] vx_b.svc_uuids@.dom().contains(s) && !self.svc_uuids@.dom().contains(s) ==> vx_told(vx_s.destroy_service@, state.destroy_service@, ServiceId { object_id: vx_b.svc_uuids@[s].0, uuid: vx_b.svc_uuids@[s].1, cookie: s }),
        forall|c: ConnectionId| #![trigger self.conns@[c]] self.conns@.dom().contains(c) ==> self.conns@[c].same_objects(vx_b.conns@[c]) && self.conns@[c].same_chans(vx_b.conns@[c]) && self.conns@[c].same_lists(vx_b.conns@[c]) && self.conns@[c].same_calls(vx_b.conns@[c]),
    decreases vx_it0.left(),
hint Broker::remove_object loop0.start
    let ghost vx_c = *self; let ghost vx_cs = *state;
hint Broker::remove_object loop0.end
    proof {
        lemma_answered_mono(vx_s.remove_function_calls@, vx_cs.remove_function_calls@, state.remove_function_calls@);
        lemma_told_mono(vx_s.destroy_service@, vx_cs.destroy_service@, state.destroy_service@);
        let s = vx_it0.all()[vx_it0.pos() - 1];
        assert(vx_c.svc_uuids@.dom().contains(s) ==> vx_told(vx_s.destroy_service@, state.destroy_service@, state.destroy_service@[vx_cs.destroy_service@.len() as int]));
        assert forall|t: ServiceCookie| #![trigger vx_b.svc_uuids@[t]] vx_c.svc_uuids@.dom().contains(t) && !self.svc_uuids@.dom().contains(t) implies t == s by {}
    }
fn Broker::destroy_object verifier::spinoff_prover
    requires old(self).w(*old(state)), //@C03,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w(*final(state)), //@C03,C02,C11
        final(self).same_other(*old(self)), //@C03
        !old(self).conns@.dom().contains(*id) ==> r is Ok && final(self).same_reg(*old(self)) && final(self).quiet(*old(self)) && *final(state) == *old(state), //@C03
        old(self).conns@.dom().contains(*id) && !old(self).owns(*id, req.cookie) ==> final(self).same_reg(*old(self)) && *final(state) == *old(state)
            && final(self).sent(*old(self), *id, Message::DestroyObjectReply(DestroyObjectReply { serial: req.serial, result: if old(self).obj_uuids@.dom().contains(req.cookie) { DestroyObjectResult::ForeignObject } else { DestroyObjectResult::InvalidObject } })), //@C03
        old(self).conns@.dom().contains(*id) && old(self).owns(*id, req.cookie) ==> final(self).sent(*old(self), *id, Message::DestroyObjectReply(DestroyObjectReply { serial: req.serial, result: DestroyObjectResult::Ok }))
            && (r is Err ==> final(self).same_reg(*old(self)) && *final(state) == *old(state))
            && (r is Ok ==> final(self).without_object(*old(self), req.cookie, old(self).obj_uuids@[req.cookie]) && final(state).destroy_object@ == old(state).destroy_object@.push(ObjectId { uuid: old(self).obj_uuids@[req.cookie], cookie: req.cookie })), //@C03,C02,C10
fn Broker::destroy_service verifier::spinoff_prover
    requires old(self).w(*old(state)), //@C03,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w(*final(state)), //@C03,C02,C11
        final(self).same_other(*old(self)), //@C03
        !old(self).conns@.dom().contains(*id) ==> r is Ok && final(self).same_reg(*old(self)) && final(self).quiet(*old(self)) && *final(state) == *old(state), //@C03
        old(self).conns@.dom().contains(*id) && !old(self).owns_svc(*id, req.cookie) ==> final(self).same_reg(*old(self)) && *final(state) == *old(state)
            && final(self).sent(*old(self), *id, Message::DestroyServiceReply(DestroyServiceReply { serial: req.serial, result: if old(self).svc_uuids@.dom().contains(req.cookie) { DestroyServiceResult::ForeignObject } else { DestroyServiceResult::InvalidService } })), //@C03
        old(self).conns@.dom().contains(*id) && old(self).owns_svc(*id, req.cookie) ==> final(self).sent(*old(self), *id, Message::DestroyServiceReply(DestroyServiceReply { serial: req.serial, result: DestroyServiceResult::Ok }))
            && (r is Err ==> final(self).same_reg(*old(self)) && *final(state) == *old(state))
            && (r is Ok ==> final(self).svc_uuids@ == old(self).svc_uuids@.remove(req.cookie) && final(self).svcs@ == old(self).svcs@.remove(old(self).key(req.cookie)) && final(self).obj_uuids@ == old(self).obj_uuids@), //@C03,C02
text
    pub open spec fn vx_told(o: Seq<ServiceId>, n: Seq<ServiceId>, s: ServiceId) -> bool { exists|i: int| o.len() <= i < n.len() && #[trigger] n[i] == s }
    pub proof fn lemma_told_mono(o: Seq<ServiceId>, q: Seq<ServiceId>, n: Seq<ServiceId>)
        requires q.is_prefix_of(n)
        ensures forall|s: ServiceId| #![trigger vx_told(o, n, s)] vx_told(o, q, s) ==> vx_told(o, n, s)
    {
        assert forall|s: ServiceId| #![trigger vx_told(o, n, s)] vx_told(o, q, s) implies vx_told(o, n, s) by { let i = choose|i: int| o.len() <= i < q.len() && #[trigger] q[i] == s; assert(n[i] == s); }
    }
    pub proof fn lemma_answered_mono(o: Seq<(u32, ConnectionId, CallFunctionResult)>, q: Seq<(u32, ConnectionId, CallFunctionResult)>, n: Seq<(u32, ConnectionId, CallFunctionResult)>)
        requires q.is_prefix_of(n)
        ensures forall|p: PendingFunctionCall, r: CallFunctionResult| #![trigger vx_answered(o, n, p, r)] vx_answered(o, q, p, r) ==> vx_answered(o, n, p, r)
    {
        assert forall|p: PendingFunctionCall, r: CallFunctionResult| #![trigger vx_answered(o, n, p, r)] vx_answered(o, q, p, r) implies vx_answered(o, n, p, r) by {
            let i = choose|i: int| o.len() <= i < q.len() && #[trigger] q[i] == (p.caller_serial, p.caller_conn_id, r); assert(n[i] == q[i]);
        }
    }
    impl Broker {
        pub open spec fn owns_svc(self, c: ConnectionId, s: ServiceCookie) -> bool { self.svc_uuids@.dom().contains(s) && self.objs@[self.svc_uuids@[s].0.uuid].conn_id == c }
        /// the object, its services and their calls are gone, everything else stays
        pub open spec fn without_object(self, o: Self, c: ObjectCookie, u: ObjectUuid) -> bool {
            &&& self.obj_uuids@ =~= o.obj_uuids@.remove(c)
            &&& self.objs@.dom() =~= o.objs@.dom().remove(u)
            &&& forall|v: ObjectUuid| #![trigger self.objs@[v]] self.objs@.dom().contains(v) ==> self.objs@[v].conn_id == o.objs@[v].conn_id && self.objs@[v].cookie == o.objs@[v].cookie && self.objs@[v].svcs@ =~= o.objs@[v].svcs@
            &&& forall|s: ServiceCookie| #![trigger self.svc_uuids@.dom().contains(s)] #![trigger o.svc_uuids@.dom().contains(s)] self.svc_uuids@.dom().contains(s) <==> o.svc_uuids@.dom().contains(s) && o.svc_uuids@[s].0.uuid != u
            &&& forall|s: ServiceCookie| #![trigger self.svc_uuids@[s]] self.svc_uuids@.dom().contains(s) ==> self.svc_uuids@[s] == o.svc_uuids@[s]
            &&& forall|k: (ObjectUuid, ServiceUuid)| #![trigger self.svcs@.dom().contains(k)] #![trigger o.svcs@.dom().contains(k)] self.svcs@.dom().contains(k) <==> o.svcs@.dom().contains(k) && k.0 != u
            &&& forall|k: (ObjectUuid, ServiceUuid)| #![trigger self.svcs@[k]] self.svcs@.dom().contains(k) ==> self.svcs@[k] == o.svcs@[k]
            &&& forall|n: u32| #![trigger self.function_calls.m().dom().contains(n)] #![trigger o.function_calls.m().dom().contains(n)] self.function_calls.m().dom().contains(n) <==> o.function_calls.m().dom().contains(n) && o.function_calls.m()[n].callee_obj != u
            &&& forall|n: u32| #![trigger self.function_calls.m()[n]] self.function_calls.m().dom().contains(n) ==> self.function_calls.m()[n] == o.function_calls.m()[n]
        }
    }
text
    impl Broker {
        pub open spec fn speaks(self, c: ConnectionId, minor: u32) -> bool { vx_ge(self.conns@[c].version, minor) }
        /// why a service is not created, in the order of precedence
        pub open spec fn svc_refused(self, c: ConnectionId, o: ObjectCookie, u: ServiceUuid) -> Option<CreateServiceResult> {
            if !self.obj_uuids@.dom().contains(o) { Some(CreateServiceResult::InvalidObject) }
            else if self.svcs@.dom().contains((self.obj_uuids@[o], u)) { Some(CreateServiceResult::DuplicateService) }
            else if self.objs@[self.obj_uuids@[o]].conn_id != c { Some(CreateServiceResult::ForeignObject) }
            else { None }
        }
    }
text
    pub proof fn lemma_push(o: Seq<(u32, ConnectionId, CallFunctionResult)>, q: Seq<(u32, ConnectionId, CallFunctionResult)>, e: (u32, ConnectionId, CallFunctionResult))
        requires o.len() <= q.len()
        ensures
            forall|s: u32, c: ConnectionId| #![trigger vx_queued(q.push(e), s, c)] #![trigger vx_queued(q, s, c)] vx_queued(q.push(e), s, c) <==> (vx_queued(q, s, c) || (e.0 == s && e.1 == c)),
            forall|p: PendingFunctionCall, r: CallFunctionResult| #![trigger vx_answered(o, q.push(e), p, r)] #![trigger vx_answered(o, q, p, r)] vx_answered(o, q, p, r) ==> vx_answered(o, q.push(e), p, r),
    {
        let n = q.push(e);
        assert forall|s: u32, c: ConnectionId| #![trigger vx_queued(q, s, c)] vx_queued(n, s, c) <==> (vx_queued(q, s, c) || (e.0 == s && e.1 == c)) by {
            if vx_queued(q, s, c) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == s && q[i].1 == c; assert(n[i] == q[i]); }
            if e.0 == s && e.1 == c { assert(n[q.len() as int] == e); }
            if vx_queued(n, s, c) { let i = choose|i: int| 0 <= i < n.len() && (#[trigger] n[i]).0 == s && n[i].1 == c; if i < q.len() { assert(n[i] == q[i]); } }
        }
        assert forall|p: PendingFunctionCall, r: CallFunctionResult| #![trigger vx_answered(o, q, p, r)] vx_answered(o, q, p, r) implies vx_answered(o, n, p, r) by {
            let i = choose|i: int| o.len() <= i < q.len() && #[trigger] q[i] == (p.caller_serial, p.caller_conn_id, r); assert(n[i] == q[i]);
        }
    }
