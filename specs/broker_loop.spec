// Contracts of broker/src/broker.rs: deferred work and dispatch (C09, C10, C11)
text
    impl State {
        /// what is left to do but for removing connections
        pub open spec fn todo(self) -> nat {
            self.remove_function_calls@.len() + self.services_destroyed@.len() + self.unsubscribe_event@.len() + self.unsubscribe_all_events@.len() + self.create_object@.len()
            + self.destroy_object@.len() + self.create_service@.len() + self.destroy_service@.len() + self.abort_function_calls@.len()
        }
        pub open spec fn removing(self, c: ConnectionId) -> bool { exists|i: int| 0 <= i < self.remove_conns@.len() && (#[trigger] self.remove_conns@[i]).0 == c }
    }
    impl Broker {
        /// a connection that was to be removed is gone, or will be
        pub open spec fn leaving(self, st: State, st0: State) -> bool { forall|i: int| #![trigger st0.remove_conns@[i]] 0 <= i < st0.remove_conns@.len() && self.conns@.dom().contains(st0.remove_conns@[i].0) ==> st.removing(st0.remove_conns@[i].0) }
        pub open spec fn told_one(self, b: Self, c: ConnectionId, m: Message) -> bool { if b.conns@.dom().contains(c) { self.log() == b.log().push((c, m, None)) } else { self.log() == b.log() } }
    }
    pub proof fn lemma_removing(n: State, o: State)
        requires o.remove_conns@.is_prefix_of(n.remove_conns@)
        ensures forall|c: ConnectionId| #![trigger n.removing(c)] o.removing(c) ==> n.removing(c)
    {
        assert forall|c: ConnectionId| #![trigger n.removing(c)] o.removing(c) implies n.removing(c) by { let i = choose|i: int| 0 <= i < o.remove_conns@.len() && (#[trigger] o.remove_conns@[i]).0 == c; assert(n.remove_conns@[i].0 == c); }
    }
    pub proof fn lemma_removed_last(n: State, o: State)
        requires o.remove_conns@.len() > 0, n.remove_conns@ == o.remove_conns@.drop_last()
        ensures forall|c: ConnectionId| #![trigger n.removing(c)] o.removing(c) && c != o.remove_conns@.last().0 ==> n.removing(c)
    {
        assert forall|c: ConnectionId| #![trigger n.removing(c)] o.removing(c) && c != o.remove_conns@.last().0 implies n.removing(c) by { let i = choose|i: int| 0 <= i < o.remove_conns@.len() && (#[trigger] o.remove_conns@[i]).0 == c; assert(n.remove_conns@[i].0 == c); }
    }
    impl Broker {
        /// the reply to a connection that is gone need not be kept
        pub proof fn lemma_pop_gone(self, q: Seq<(u32, ConnectionId, CallFunctionResult)>)
            requires self.w_callers(q), q.len() > 0, !self.conns@.dom().contains(q.last().1)
            ensures self.w_callers(q.drop_last())
        {
            let p = q.drop_last();
            assert forall|c: ConnectionId, s: u32| #![trigger self.conns@[c].calls@.dom().contains(s)] #![trigger self.conns@[c].calls@[s]] self.conns@.dom().contains(c) && self.conns@[c].calls@.dom().contains(s) implies self.awaits(c, s, self.conns@[c].calls@[s].0) || vx_queued(p, s, c) by {
                if vx_queued(q, s, c) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == s && q[i].1 == c; assert(p[i] == q[i]); }
            }
            assert forall|s: u32, c: ConnectionId| #![trigger vx_queued(p, s, c)] vx_queued(p, s, c) implies vx_queued(q, s, c) by { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == s && p[i].1 == c; assert(p[i] == q[i]); }
            assert forall|i: int| #![trigger p[i]] 0 <= i < p.len() implies p[i] == q[i] by {}
        }
        /// the reply is sent, the connection waits no longer
        pub proof fn lemma_pop_call(self, n: Self, q: Seq<(u32, ConnectionId, CallFunctionResult)>)
            requires self.w_callers(q), q.len() > 0, self.conns@.dom().contains(q.last().1),
                n.conns@.dom() =~= self.conns@.dom(), n.function_calls == self.function_calls, n.objs == self.objs,
                forall|c: ConnectionId| #![trigger n.conns@[c]] c != q.last().1 && self.conns@.dom().contains(c) ==> n.conns@[c] == self.conns@[c],
                n.conns@[q.last().1].calls@ == self.conns@[q.last().1].calls@.remove(q.last().0)
            ensures n.w_callers(q.drop_last())
        {
            let p = q.drop_last(); let g = q.last().1;
            assert forall|i: int| #![trigger p[i]] 0 <= i < p.len() implies p[i] == q[i] by {}
            assert(q[q.len() - 1] == q.last());
            assert forall|s: u32, c: ConnectionId| #![trigger vx_queued(p, s, c)] vx_queued(p, s, c) implies vx_queued(q, s, c) by { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == s && p[i].1 == c; assert(p[i] == q[i]); }
            assert(vx_queued(q, q.last().0, g));
            assert forall|c: ConnectionId, s: u32| #![trigger n.conns@[c].calls@.dom().contains(s)] #![trigger n.conns@[c].calls@[s]] n.conns@.dom().contains(c) && n.conns@[c].calls@.dom().contains(s) implies n.awaits(c, s, n.conns@[c].calls@[s].0) || vx_queued(p, s, c) by {
                assert(self.conns@[c].calls@.dom().contains(s)); assert(n.conns@[c].calls@[s] == self.conns@[c].calls@[s]);
                if vx_queued(q, s, c) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == s && q[i].1 == c; if i < p.len() { assert(p[i] == q[i]); } }
            }
            assert forall|m: u32| #![trigger n.function_calls.m().dom().contains(m)] #![trigger n.function_calls.m()[m]] n.function_calls.m().dom().contains(m) implies n.caller_ok(n.function_calls.m()[m], m, p) by {
                assert(self.caller_ok(self.function_calls.m()[m], m, q));
            }
            assert forall|i: int| #![trigger p[i]] 0 <= i < p.len() && n.conns@.dom().contains(p[i].1) implies n.conns@[p[i].1].calls@.dom().contains(p[i].0) by { assert(q[i] == p[i]); assert(self.conns@[q[i].1].calls@.dom().contains(q[i].0)); }
            assert forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < p.len() && n.conns@.dom().contains(p[i].1) implies !(p[i].0 == p[j].0 && p[i].1 == p[j].1) by { assert(q[i] == p[i] && q[j] == p[j]); }
        }
    }
fn Broker::process_loop_result verifier::spinoff_prover verifier::rlimit(20)
    requires old(self).w(*old(state)), //@C09,C11
    ensures final(self).w(*final(state)), //@C09,C11
        // nothing is left to do, and this ends
        final(state).idle(), //@C09,C10,C02,C04
        final(self).conns@.dom().subset_of(old(self).conns@.dom()), //@C09
        forall|i: int| #![trigger old(state).remove_conns@[i]] 0 <= i < old(state).remove_conns@.len() ==> !final(self).conns@.dom().contains(old(state).remove_conns@[i].0), //@C09
        final(state).shutdown_now == old(state).shutdown_now, final(state).shutdown_idle == old(state).shutdown_idle, //@C09
        old(self).log().is_prefix_of(final(self).log()), //@C09
hint Broker::process_loop_result start
    let ghost vx_a = *self; let ghost vx_s = *state;
    proof { assert forall|i: int| #![trigger vx_s.remove_conns@[i]] 0 <= i < vx_s.remove_conns@.len() implies state.removing(vx_s.remove_conns@[i].0) by {} }
loop Broker::process_loop_result 0
    invariant self.w(*state), self.leaving(*state, vx_s), self.conns@.dom().subset_of(vx_a.conns@.dom()), //@C09,C11
        state.shutdown_now == vx_s.shutdown_now, state.shutdown_idle == vx_s.shutdown_idle, vx_a.log().is_prefix_of(self.log()), //@C09
    ensures state.idle(), //@C09,C10,C02,C04
    decreases self.conns@.dom().len(), state.todo(), state.remove_conns@.len(), //@C11
hint Broker::process_loop_result loop0.start
    let ghost vx_b = *self; let ghost vx_t = *state;
hint Broker::process_loop_result loop0.start
    proof { if state.remove_conns@.len() > 0 { assert(state.remove_conns@.drop_last().push(state.remove_conns@.last()) =~= state.remove_conns@); } }
hint Broker::process_loop_result loop0.start
    proof { let q = state.remove_function_calls@; if q.len() > 0 && !self.conns@.dom().contains(q.last().1) { self.lemma_pop_gone(q); } }
hint Broker::process_loop_result after:is_err#3
    proof { vx_b.lemma_pop_call(*self, vx_t.remove_function_calls@); }
hint Broker::process_loop_result after:is_err#0
    assert(self.told_one(vx_b, vx_t.unsubscribe_event@.last().0, Message::UnsubscribeEvent(UnsubscribeEvent { service_cookie: vx_t.unsubscribe_event@.last().1, event: vx_t.unsubscribe_event@.last().2 }))); //@C04
hint Broker::process_loop_result after:is_err#1
    assert(self.told_one(vx_b, vx_t.unsubscribe_all_events@.last().0, Message::UnsubscribeAllEvents(UnsubscribeAllEvents { serial: None, service_cookie: vx_t.unsubscribe_all_events@.last().1 }))); //@C04
hint Broker::process_loop_result after:is_err#2
    assert(self.told_one(vx_b, vx_t.services_destroyed@.last().0, Message::ServiceDestroyed(ServiceDestroyed { service_cookie: vx_t.services_destroyed@.last().1 }))); //@C04
hint Broker::process_loop_result after:is_err#3
    assert(self.told_one(vx_b, vx_t.remove_function_calls@.last().1, Message::CallFunctionReply(CallFunctionReply { serial: vx_t.remove_function_calls@.last().0, result: vx_t.remove_function_calls@.last().2 }))); //@C02
hint Broker::process_loop_result after:emit_bus_event#0
    assert(vx_announced(vx_b.log(), self.log(), BusEvent::ObjectCreated(vx_t.create_object@.last()), vx_b)); //@C10
hint Broker::process_loop_result after:emit_bus_event#1
    assert(vx_announced(vx_b.log(), self.log(), BusEvent::ServiceCreated(vx_t.create_service@.last()), vx_b)); //@C10
hint Broker::process_loop_result before:emit_bus_event#2
    assert(state.create_object@.len() == 0 && state.create_service@.len() == 0); //@C10
hint Broker::process_loop_result after:emit_bus_event#2
    assert(vx_announced(vx_b.log(), self.log(), BusEvent::ServiceDestroyed(vx_t.destroy_service@.last()), vx_b)); //@C10
hint Broker::process_loop_result before:emit_bus_event#3
    assert(state.create_object@.len() == 0 && state.create_service@.len() == 0); //@C10
hint Broker::process_loop_result after:emit_bus_event#3
    assert(vx_announced(vx_b.log(), self.log(), BusEvent::ObjectDestroyed(vx_t.destroy_object@.last()), vx_b)); //@C10
fn Broker::register_introspection trusted
    ensures final(self).same_reg(*old(self)), final(self).same_other(*old(self)), final(self).quiet(*old(self)),
fn Broker::query_introspection trusted
    ensures final(self).same_reg(*old(self)), final(self).same_other(*old(self)), vx_only_removed(*final(state), *old(state)), old(self).log().is_prefix_of(final(self).log()),
fn Broker::query_introspection_reply trusted
    ensures final(self).same_reg(*old(self)), final(self).same_other(*old(self)), vx_only_removed(*final(state), *old(state)), old(self).log().is_prefix_of(final(self).log()),
fn Broker::handle_message verifier::spinoff_prover
    requires old(self).w(*old(state)), //@C11
        !(msg is Shutdown), //@C11
    ensures final(self).w(*final(state)), //@C11
        // a message that only the broker sends is an error and changes nothing
        vx_from_broker(msg) ==> r is Err && *final(self) == *old(self) && *final(state) == *old(state), //@C11
        // no other connection is removed on the way
        final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
text
    pub open spec fn vx_from_broker(m: Message) -> bool {
        m is Connect || m is ConnectReply || m is CreateObjectReply || m is DestroyObjectReply || m is CreateServiceReply || m is DestroyServiceReply || m is SubscribeEventReply || m is QueryServiceVersionReply
        || m is CreateChannelReply || m is CloseChannelEndReply || m is ChannelEndClosed || m is ClaimChannelEndReply || m is ChannelEndClaimed || m is ItemReceived || m is SyncReply || m is ServiceDestroyed
        || m is CreateBusListenerReply || m is DestroyBusListenerReply || m is StartBusListenerReply || m is StopBusListenerReply || m is EmitBusEvent || m is BusListenerCurrentFinished || m is Connect2 || m is ConnectReply2
        || m is QueryServiceInfoReply || m is SubscribeServiceReply || m is SubscribeAllEventsReply || m is UnsubscribeAllEventsReply
    }
