// Contracts of broker/src/broker.rs: the end of a connection (C09)
text
    pub open spec fn vx_later<T>(s: Seq<T>, p: int, t: T) -> bool { exists|i: int| p <= i < s.len() && #[trigger] s[i] == t }
    pub open spec fn vx_has<T>(s: Seq<T>, t: T) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == t }
    impl Broker {
        // what is left of a connection: nothing, what `c` still lists, or what is still to come
        pub open spec fn no_lists(self, g: ConnectionId) -> bool { forall|k: BusListenerCookie| #![trigger self.bus_listeners@[k]] self.bus_listeners@.dom().contains(k) ==> self.bus_listeners@[k].conn_id != g }
        pub open spec fn no_objs(self, g: ConnectionId) -> bool { forall|u: ObjectUuid| #![trigger self.objs@[u]] self.objs@.dom().contains(u) ==> self.objs@[u].conn_id != g }
        pub open spec fn no_evs(self, g: ConnectionId) -> bool { forall|k: (ObjectUuid, ServiceUuid), e: u32| #![trigger vx_ssubs(self.svcs@[k].events@, e)] self.svcs@.dom().contains(k) ==> !vx_ssubs(self.svcs@[k].events@, e).contains(g) }
        pub open spec fn no_all(self, g: ConnectionId) -> bool { forall|k: (ObjectUuid, ServiceUuid)| #![trigger self.svcs@[k]] self.svcs@.dom().contains(k) ==> !self.svcs@[k].all_events@.contains(g) }
        pub open spec fn no_sub(self, g: ConnectionId) -> bool { forall|k: (ObjectUuid, ServiceUuid)| #![trigger self.svcs@[k]] self.svcs@.dom().contains(k) ==> !self.svcs@[k].subscriptions@.contains(g) }
        pub open spec fn no_snd(self, g: ConnectionId) -> bool { forall|k: ChannelCookie| #![trigger self.channels@[k]] self.channels@.dom().contains(k) ==> !self.channels@[k].sender.owned_by(g) }
        pub open spec fn no_rcv(self, g: ConnectionId) -> bool { forall|k: ChannelCookie| #![trigger self.channels@[k]] self.channels@.dom().contains(k) ==> !self.channels@[k].receiver.owned_by(g) }
        pub open spec fn lists_in(self, g: ConnectionId, c: ConnectionState) -> bool { forall|k: BusListenerCookie| #![trigger self.bus_listeners@[k]] self.bus_listeners@.dom().contains(k) && self.bus_listeners@[k].conn_id == g ==> c.bus_listeners@.contains(k) }
        pub open spec fn objs_in(self, g: ConnectionId, c: ConnectionState) -> bool { forall|u: ObjectUuid| #![trigger self.objs@[u]] self.objs@.dom().contains(u) && self.objs@[u].conn_id == g ==> c.objects@.contains(self.objs@[u].cookie) }
        /// an object the connection lists is its own, if it is still there
        pub open spec fn objs_back(self, g: ConnectionId, c: ConnectionState) -> bool { forall|o: ObjectCookie| #![trigger c.objects@.contains(o)] c.objects@.contains(o) && self.obj_uuids@.dom().contains(o) ==> self.objs@[self.obj_uuids@[o]].conn_id == g }
        pub open spec fn evs_in(self, g: ConnectionId, c: ConnectionState) -> bool { forall|k: (ObjectUuid, ServiceUuid), e: u32| #![trigger vx_ssubs(self.svcs@[k].events@, e)] self.svcs@.dom().contains(k) && vx_ssubs(self.svcs@[k].events@, e).contains(g) ==> c.subs(self.svcs@[k].cookie).contains(e) }
        pub open spec fn all_in(self, g: ConnectionId, c: ConnectionState) -> bool { forall|k: (ObjectUuid, ServiceUuid)| #![trigger self.svcs@[k]] self.svcs@.dom().contains(k) && self.svcs@[k].all_events@.contains(g) ==> c.all_events@.contains(self.svcs@[k].cookie) }
        pub open spec fn sub_in(self, g: ConnectionId, c: ConnectionState) -> bool { forall|k: (ObjectUuid, ServiceUuid)| #![trigger self.svcs@[k]] self.svcs@.dom().contains(k) && self.svcs@[k].subscriptions@.contains(g) ==> c.subscriptions@.contains(self.svcs@[k].cookie) }
        pub open spec fn snd_in(self, g: ConnectionId, c: ConnectionState) -> bool { forall|k: ChannelCookie| #![trigger self.channels@[k]] self.channels@.dom().contains(k) && self.channels@[k].sender.owned_by(g) ==> c.senders@.contains(k) }
        pub open spec fn rcv_in(self, g: ConnectionId, c: ConnectionState) -> bool { forall|k: ChannelCookie| #![trigger self.channels@[k]] self.channels@.dom().contains(k) && self.channels@[k].receiver.owned_by(g) ==> c.receivers@.contains(k) }
        pub open spec fn snd_back(self, g: ConnectionId, s: Seq<ChannelCookie>, p: int) -> bool { forall|i: int| #![trigger s[i]] p <= i < s.len() && self.channels@.dom().contains(s[i]) ==> self.channels@[s[i]].sender.owned_by(g) }
        pub open spec fn rcv_back(self, g: ConnectionId, s: Seq<ChannelCookie>, p: int) -> bool { forall|i: int| #![trigger s[i]] p <= i < s.len() && self.channels@.dom().contains(s[i]) ==> self.channels@[s[i]].receiver.owned_by(g) }
        pub open spec fn ends_back(self, g: ConnectionId, c: ConnectionState) -> bool { forall|k: ChannelCookie| #![trigger self.channels@[k]] self.channels@.dom().contains(k) ==> (c.senders@.contains(k) ==> self.channels@[k].sender.owned_by(g)) && (c.receivers@.contains(k) ==> self.channels@[k].receiver.owned_by(g)) }
        pub open spec fn rcvs_back(self, g: ConnectionId, c: ConnectionState) -> bool { forall|k: ChannelCookie| #![trigger self.channels@[k]] self.channels@.dom().contains(k) && c.receivers@.contains(k) ==> self.channels@[k].receiver.owned_by(g) }
        pub open spec fn lists_left(self, g: ConnectionId, s: Seq<BusListenerCookie>, p: int) -> bool { forall|k: BusListenerCookie| #![trigger self.bus_listeners@[k]] self.bus_listeners@.dom().contains(k) && self.bus_listeners@[k].conn_id == g ==> vx_later(s, p, k) }
        pub open spec fn objs_left(self, g: ConnectionId, s: Seq<ObjectCookie>, p: int) -> bool { forall|u: ObjectUuid| #![trigger self.objs@[u]] self.objs@.dom().contains(u) && self.objs@[u].conn_id == g ==> vx_later(s, p, self.objs@[u].cookie) }
        pub open spec fn evs_left(self, g: ConnectionId, s: Seq<(ServiceCookie, u32)>, p: int) -> bool { forall|k: (ObjectUuid, ServiceUuid), e: u32| #![trigger vx_ssubs(self.svcs@[k].events@, e)] self.svcs@.dom().contains(k) && vx_ssubs(self.svcs@[k].events@, e).contains(g) ==> vx_later(s, p, (self.svcs@[k].cookie, e)) }
        pub open spec fn all_left(self, g: ConnectionId, s: Seq<ServiceCookie>, p: int) -> bool { forall|k: (ObjectUuid, ServiceUuid)| #![trigger self.svcs@[k]] self.svcs@.dom().contains(k) && self.svcs@[k].all_events@.contains(g) ==> vx_later(s, p, self.svcs@[k].cookie) }
        pub open spec fn sub_left(self, g: ConnectionId, s: Seq<ServiceCookie>, p: int) -> bool { forall|k: (ObjectUuid, ServiceUuid)| #![trigger self.svcs@[k]] self.svcs@.dom().contains(k) && self.svcs@[k].subscriptions@.contains(g) ==> vx_later(s, p, self.svcs@[k].cookie) }
        pub open spec fn snd_left(self, g: ConnectionId, s: Seq<ChannelCookie>, p: int) -> bool { forall|k: ChannelCookie| #![trigger self.channels@[k]] self.channels@.dom().contains(k) && self.channels@[k].sender.owned_by(g) ==> vx_later(s, p, k) }
        pub open spec fn rcv_left(self, g: ConnectionId, s: Seq<ChannelCookie>, p: int) -> bool { forall|k: ChannelCookie| #![trigger self.channels@[k]] self.channels@.dom().contains(k) && self.channels@[k].receiver.owned_by(g) ==> vx_later(s, p, k) }
        /// nothing refers to this connection any more
        pub open spec fn forgot(self, g: ConnectionId) -> bool { !self.conns@.dom().contains(g) && self.no_lists(g) && self.no_objs(g) && self.no_evs(g) && self.no_all(g) && self.no_sub(g) && self.no_snd(g) && self.no_rcv(g) }
        /// what holds while the traces of a connection are removed
        pub open spec fn ending(self, b: Self, st: State, st0: State, g: ConnectionId) -> bool {
            &&& self.wx(st, Some(g), None) && vx_same_conns(self.conns@, b.conns@)
            &&& st.shutdown_now == st0.shutdown_now && st.shutdown_idle == st0.shutdown_idle && st0.remove_conns@.is_prefix_of(st.remove_conns@)
            &&& b.log().is_prefix_of(self.log())
        }
        /// objects and services disappear with announcements, calls with replies
        pub open spec fn fewer(self, b: Self, st: State, st0: State) -> bool {
            &&& forall|u: ObjectUuid| #![trigger self.objs@.dom().contains(u)] self.objs@.dom().contains(u) ==> b.objs@.dom().contains(u)
            &&& forall|u: ObjectUuid| #![trigger self.objs@[u]] #![trigger b.objs@[u]] self.objs@.dom().contains(u) ==> b.objs@[u].conn_id == self.objs@[u].conn_id && b.objs@[u].cookie == self.objs@[u].cookie
            &&& forall|u: ObjectUuid| #![trigger b.objs@[u]] b.objs@.dom().contains(u) && !self.objs@.dom().contains(u) ==> vx_has(st.destroy_object@, ObjectId { uuid: u, cookie: b.objs@[u].cookie })
            &&& forall|n: u32| #![trigger self.function_calls.m().dom().contains(n)] self.function_calls.m().dom().contains(n) ==> b.function_calls.m().dom().contains(n) && self.function_calls.m()[n] == b.function_calls.m()[n]
            &&& st0.remove_function_calls@.is_prefix_of(st.remove_function_calls@)
            &&& forall|n: u32| #![trigger b.function_calls.m()[n]] b.function_calls.m().dom().contains(n) && !self.function_calls.m().dom().contains(n) && !b.function_calls.m()[n].aborted
                ==> vx_answered(st0.remove_function_calls@, st.remove_function_calls@, b.function_calls.m()[n], CallFunctionResult::InvalidService)
            &&& forall|s: ServiceCookie| #![trigger self.svc_uuids@.dom().contains(s)] self.svc_uuids@.dom().contains(s) ==> b.svc_uuids@.dom().contains(s) && self.svc_uuids@[s] == b.svc_uuids@[s]
            &&& st0.destroy_service@.is_prefix_of(st.destroy_service@)
            &&& forall|s: ServiceCookie| #![trigger b.svc_uuids@[s]] b.svc_uuids@.dom().contains(s) && !self.svc_uuids@.dom().contains(s)
                ==> vx_told(st0.destroy_service@, st.destroy_service@, ServiceId { object_id: b.svc_uuids@[s].0, uuid: b.svc_uuids@[s].1, cookie: s })
        }
    }
fn Broker::remove_introspection_conn trusted
    ensures final(self).same_reg(*old(self)), final(self).same_other(*old(self)), vx_only_removed(*final(state), *old(state)), old(self).log().is_prefix_of(final(self).log()),
fn Broker::shutdown_connection verifier::spinoff_prover verifier::rlimit(20)
    requires old(self).w(*old(state)), //@C09,C11
    ensures final(self).w(*final(state)), //@C09,C11
        !old(self).conns@.dom().contains(*id) ==> final(self).same_reg(*old(self)) && final(self).same_other(*old(self)) && *final(state) == *old(state) && final(self).quiet(*old(self)), //@C09
        old(self).conns@.dom().contains(*id) ==> final(self).forgot(*id) && final(self).conns@.dom() =~= old(self).conns@.dom().remove(*id), //@C09,C03,C04,C05,C10
        // objects and services are announced as destroyed, calls of its services are answered
        old(self).conns@.dom().contains(*id) ==> final(self).fewer(*old(self), *final(state), *old(state)), //@C09,C02,C03,C10
        // objects of others stay
        forall|u: ObjectUuid| #![trigger old(self).objs@[u]] old(self).objs@.dom().contains(u) && old(self).objs@[u].conn_id != *id ==> final(self).objs@.dom().contains(u), //@C09,C03
        // its own calls will be aborted
        old(self).conns@.dom().contains(*id) ==> forall|s: u32| #![trigger old(self).conns@[*id].calls@[s]] old(self).conns@[*id].calls@.dom().contains(s) ==> vx_has(final(state).abort_function_calls@, old(self).conns@[*id].calls@[s]), //@C09,C02
        final(state).shutdown_now == old(state).shutdown_now, final(state).shutdown_idle == old(state).shutdown_idle, old(state).remove_conns@.is_prefix_of(final(state).remove_conns@), //@C09
        old(self).conns@.dom().contains(*id) && send_shutdown ==> old(self).log().push((*id, Message::Shutdown(Shutdown), None)).is_prefix_of(final(self).log()), //@C09
        old(self).log().is_prefix_of(final(self).log()), //@C09
hint Broker::shutdown_connection start
    let ghost vx_a = *self; let ghost vx_s = *state; let ghost vx_g = *id; let ghost mut vx_b = *self; let ghost mut vx_d = *self; let ghost mut vx_e = *self; let ghost mut vx_f = *self; let ghost mut vx_s5 = *state;
hint Broker::shutdown_connection loop0.before
    let ghost vx_i0 = vx_it0;
    proof { vx_b = *self;
        assert(self.lists_in(vx_g, conn)); assert(self.objs_in(vx_g, conn)); assert(self.objs_back(vx_g, conn)); assert(self.evs_in(vx_g, conn)); assert(self.all_in(vx_g, conn)); assert(self.sub_in(vx_g, conn)); assert(self.snd_in(vx_g, conn)); assert(self.rcv_in(vx_g, conn)); assert(self.ends_back(vx_g, conn));
        assert(self.ending(vx_b, *state, vx_s, vx_g));
    }
loop Broker::shutdown_connection 0
    invariant vx_g == *id, self.ending(vx_b, *state, vx_s, vx_g), self.only_lists(vx_b), *state == vx_s, self.quiet(vx_b),
        vx_it0.wf(), vx_it0.all() == vx_i0.all(), self.lists_left(vx_g, vx_it0.all(), vx_it0.pos()),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.left(),
hint Broker::shutdown_connection loop1.before
    let ghost vx_c = *self; let ghost vx_i1 = vx_it1;
    proof {
        assert(self.no_lists(vx_g));
    }
loop Broker::shutdown_connection 1
    invariant vx_g == *id, self.ending(vx_b, *state, vx_s, vx_g), self.same_other(vx_c), self.no_lists(vx_g), self.quiet(vx_c),
        self.fewer(vx_b, *state, vx_s), self.evs_in(vx_g, conn), self.all_in(vx_g, conn), self.sub_in(vx_g, conn), self.objs_back(vx_g, conn),
        state.abort_function_calls == vx_s.abort_function_calls, state.same_flags(vx_s),
        forall|u: ObjectUuid| #![trigger vx_b.objs@[u]] vx_b.objs@.dom().contains(u) && vx_b.objs@[u].conn_id != vx_g ==> self.objs@.dom().contains(u),
        vx_it1.wf(), vx_it1.all() == vx_i1.all(), self.objs_left(vx_g, vx_it1.all(), vx_it1.pos()),
        vx_lists_copied(vx_i1, conn.objects@),
    ensures vx_it1.pos() == vx_it1.all().len(),
    decreases vx_it1.left(),
hint Broker::shutdown_connection loop1.bind
    let ghost vx_c1 = *self; let ghost vx_s1 = *state;
hint Broker::shutdown_connection after:remove_object#0
    proof {
        let q = vx_s1.destroy_object@; let r = state.destroy_object@;
        if vx_c1.obj_uuids@.dom().contains(obj_cookie) { assert(r[q.len() as int] == ObjectId { uuid: vx_c1.obj_uuids@[obj_cookie], cookie: obj_cookie }); }
        assert forall|t: ObjectId| #![trigger vx_has(r, t)] vx_has(q, t) implies vx_has(r, t) by { let i = choose|i: int| 0 <= i < q.len() && #[trigger] q[i] == t; assert(r[i] == t); }
        assert forall|u: ObjectUuid| #![trigger vx_b.objs@[u]] vx_b.objs@.dom().contains(u) && !self.objs@.dom().contains(u) implies vx_has(r, ObjectId { uuid: u, cookie: vx_b.objs@[u].cookie }) by {
            if vx_c1.objs@.dom().contains(u) { assert(vx_c1.objs@[u].cookie == vx_b.objs@[u].cookie); assert(u == vx_c1.obj_uuids@[obj_cookie]); }
        }
        lemma_answered_mono(vx_s.remove_function_calls@, vx_s1.remove_function_calls@, state.remove_function_calls@); lemma_told_mono(vx_s.destroy_service@, vx_s1.destroy_service@, state.destroy_service@); }
hint Broker::shutdown_connection loop2.before
    let ghost vx_i2 = vx_it2; let ghost vx_s2 = *state;
    proof { vx_d = *self; assert(self.no_objs(vx_g)); assert(self.evs_left(vx_g, vx_it2.all(), 0)); }
hint Broker::shutdown_connection loop2.bind
    let ghost vx_d1 = *self;
hint Broker::shutdown_connection after:remove_event_subscription#0
    proof {
        let l = vx_it2.all(); let p = vx_it2.pos();
        assert forall|k: (ObjectUuid, ServiceUuid), e: u32| #![trigger vx_ssubs(self.svcs@[k].events@, e)] self.svcs@.dom().contains(k) && vx_ssubs(self.svcs@[k].events@, e).contains(vx_g) implies vx_later(l, p, (self.svcs@[k].cookie, e)) by {
            if vx_d1.svc_uuids@.dom().contains(svc_cookie) {
                if k == vx_d1.key(svc_cookie) { assert(self.svc(svc_cookie).subs(e) == vx_ssubs(self.svcs@[k].events@, e)); assert(vx_d1.svc(svc_cookie).subs(e) == vx_ssubs(vx_d1.svcs@[k].events@, e)); assert(e != event); } else { assert(vx_d1.svcs@[k] == self.svcs@[k]); }
            }
            assert(vx_ssubs(vx_d1.svcs@[k].events@, e).contains(vx_g));
            let i = choose|i: int| p - 1 <= i < l.len() && #[trigger] l[i] == (vx_d1.svcs@[k].cookie, e);
            if i == p - 1 { assert(vx_d1.svcs@[k].cookie == svc_cookie); assert(vx_d1.svc_uuids@.dom().contains(svc_cookie)); assert(k == vx_d1.key(svc_cookie)); }
        }
    }
loop Broker::shutdown_connection 2
    invariant vx_g == *id, self.ending(vx_b, *state, vx_s, vx_g), self.same_other(vx_d), self.quiet(vx_d), self.only_subs(vx_d),
        *state == (State { unsubscribe_event: state.unsubscribe_event, ..vx_s2 }),
        self.all_in(vx_g, conn), self.sub_in(vx_g, conn),
        vx_it2.wf(), vx_it2.all() == vx_i2.all(), self.evs_left(vx_g, vx_it2.all(), vx_it2.pos()),
    ensures vx_it2.pos() == vx_it2.all().len(),
    decreases vx_it2.left(),
hint Broker::shutdown_connection loop3.before
    let ghost vx_i3 = vx_it3; let ghost vx_s3 = *state;
    proof { assert(self.no_evs(vx_g)); assert(self.all_left(vx_g, vx_it3.all(), 0)); }
loop Broker::shutdown_connection 3
    invariant vx_g == *id, self.ending(vx_b, *state, vx_s, vx_g), self.same_other(vx_d), self.quiet(vx_d), self.only_subs(vx_d),
        *state == (State { unsubscribe_all_events: state.unsubscribe_all_events, ..vx_s3 }),
        self.no_evs(vx_g), self.sub_in(vx_g, conn),
        vx_it3.wf(), vx_it3.all() == vx_i3.all(), self.all_left(vx_g, vx_it3.all(), vx_it3.pos()),
    ensures vx_it3.pos() == vx_it3.all().len(),
    decreases vx_it3.left(),
hint Broker::shutdown_connection loop4.before
    let ghost vx_i4 = vx_it4; let ghost vx_s4 = *state;
    proof { assert(self.no_all(vx_g)); assert(self.sub_left(vx_g, vx_it4.all(), 0)); }
loop Broker::shutdown_connection 4
    invariant vx_g == *id, self.ending(vx_b, *state, vx_s, vx_g), self.same_other(vx_d), self.quiet(vx_d), self.only_subs(vx_d),
        *state == vx_s4, self.no_evs(vx_g), self.no_all(vx_g),
        vx_it4.wf(), vx_it4.all() == vx_i4.all(), self.sub_left(vx_g, vx_it4.all(), vx_it4.pos()),
    ensures vx_it4.pos() == vx_it4.all().len(),
    decreases vx_it4.left(),
hint Broker::shutdown_connection loop5.before
    let ghost vx_i5 = vx_it5;
    proof { vx_e = *self; vx_s5 = *state; assert(self.no_sub(vx_g)); assert(self.snd_left(vx_g, vx_it5.all(), 0)); assert(self.rcvs_back(vx_g, conn)); }
loop Broker::shutdown_connection 5
    invariant vx_g == *id, self.ending(vx_b, *state, vx_s, vx_g), self.only_chans(vx_e), *state == (State { remove_conns: state.remove_conns, ..vx_s5 }),
        self.rcv_in(vx_g, conn), self.rcvs_back(vx_g, conn), vx_e.log().is_prefix_of(self.log()),
        vx_it5.wf(), vx_it5.all() == vx_i5.all(), self.snd_left(vx_g, vx_it5.all(), vx_it5.pos()), self.snd_back(vx_g, vx_it5.all(), vx_it5.pos()),
        vx_lists_copied(vx_i5, conn.senders@),
    ensures vx_it5.pos() == vx_it5.all().len(),
    decreases vx_it5.left(),
hint Broker::shutdown_connection loop6.before
    let ghost vx_i6 = vx_it6;
    proof { assert(self.no_snd(vx_g)); assert(self.rcv_left(vx_g, vx_it6.all(), 0)); }
loop Broker::shutdown_connection 6
    invariant vx_g == *id, self.ending(vx_b, *state, vx_s, vx_g), self.only_chans(vx_e), *state == (State { remove_conns: state.remove_conns, ..vx_s5 }),
        self.no_snd(vx_g), vx_e.log().is_prefix_of(self.log()),
        vx_it6.wf(), vx_it6.all() == vx_i6.all(), self.rcv_left(vx_g, vx_it6.all(), vx_it6.pos()), self.rcv_back(vx_g, vx_it6.all(), vx_it6.pos()),
        vx_lists_copied(vx_i6, conn.receivers@),
    ensures vx_it6.pos() == vx_it6.all().len(),
    decreases vx_it6.left(),
hint Broker::shutdown_connection loop7.before
    let ghost vx_i7 = vx_it7; let ghost vx_s7 = *state;
    proof { vx_f = *self; assert(self.no_rcv(vx_g)); assert(self.forgot(vx_g)); assert(self.w(*state)); }
loop Broker::shutdown_connection 7
    invariant *self == vx_f, *state == (State { abort_function_calls: state.abort_function_calls, ..vx_s7 }),
        vx_it7.wf(), vx_it7.all() == vx_i7.all(),
        forall|j: int| #![trigger vx_it7.all()[j]] 0 <= j < vx_it7.pos() ==> vx_has(state.abort_function_calls@, (vx_it7.all()[j].0, *vx_it7.all()[j].1)),
    ensures vx_it7.pos() == vx_it7.all().len(),
    decreases vx_it7.left(),
hint Broker::shutdown_connection loop7.bind
    let ghost vx_q7 = state.abort_function_calls@;
hint Broker::shutdown_connection after:push_abort_function_call#0
    proof {
        let r = state.abort_function_calls@;
        assert forall|t: (u32, ConnectionId)| #![trigger vx_has(r, t)] vx_has(vx_q7, t) implies vx_has(r, t) by { let i = choose|i: int| 0 <= i < vx_q7.len() && #[trigger] vx_q7[i] == t; assert(r[i] == t); }
        assert(r[vx_q7.len() as int] == (callee_serial, *callee_id));
    }
hint Broker::shutdown_connection loop0.before
    proof { assert(vx_a.log().is_prefix_of(vx_b.log())); }
hint Broker::shutdown_connection end
    proof { vx_prefix(vx_b.log(), vx_f.log(), self.log()); vx_prefix(vx_a.log(), vx_b.log(), self.log()); if send_shutdown { vx_prefix(vx_a.log().push((vx_g, Message::Shutdown(Shutdown), None)), vx_b.log(), self.log()); } }
text
    pub proof fn vx_prefix<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>) requires a.is_prefix_of(b), b.is_prefix_of(c) ensures a.is_prefix_of(c) { assert(a =~= c.subrange(0, a.len() as int)); }
