// Function calls (C02)
fn Broker::call_function verifier::spinoff_prover
    requires old(self).w(*old(state)), //@C02,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w(*final(state)), final(self).same_other(*old(self)), //@C02,C11
        final(self).called(*old(self), *final(state), *old(state), *id, CallFunction2 { serial: req.serial, service_cookie: req.service_cookie, function: req.function, version: None, value: req.value }, r), //@C02
fn Broker::call_function2 verifier::spinoff_prover
    requires old(self).w(*old(state)), //@C02,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w(*final(state)), final(self).same_other(*old(self)), //@C02,C11
        old(self).conns@.dom().contains(*id) && !old(self).speaks(*id, 19) ==> r is Err && final(self).same_reg(*old(self)) && final(self).quiet(*old(self)) && *final(state) == *old(state), //@C12
        !old(self).conns@.dom().contains(*id) || old(self).speaks(*id, 19) ==> final(self).called(*old(self), *final(state), *old(state), *id, req, r), //@C02
fn Broker::call_function_impl verifier::spinoff_prover
    requires old(self).w(*old(state)), //@C02,C11
    ensures final(self).w_obj(), final(self).w_svc(), final(self).w_os(None), final(self).w_conn(None), final(self).w_calls(), final(self).w_callers(final(state).remove_function_calls@), final(self).w_subs(None), final(self).w_all(final(state).unsubscribe_all_events@), final(self).w_chan(None), final(self).w_list(None), //@C02,C11
        final(self).w(*final(state)), final(self).same_other(*old(self)), //@C02,C11
        final(self).called(*old(self), *final(state), *old(state), *id, req, r), //@C02
hint Broker::call_function_impl start
    proof {
        if self.conns@.dom().contains(*id) { assert(self.conns@.insert(*id, self.conns@[*id]) =~= self.conns@); }
        if self.svc_uuids@.dom().contains(req.service_cookie) { let u = self.svc_uuids@[req.service_cookie].0.uuid; assert(self.svcs@.dom().contains(self.key(req.service_cookie))); assert(self.objs@.dom().contains(u)); assert(self.conns@.dom().contains(self.objs@[u].conn_id)); }
    }
hint Broker::call_function_impl after:is_err#0
    proof { Self::lemma_chan_frame(*old(self), *self, None); Self::lemma_list_frame(*old(self), *self, None); Self::lemma_subs_frame(*old(self), *self, None); }
fn Broker::call_function_reply verifier::spinoff_prover
    requires old(self).w(*old(state)), //@C02,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w_obj(), //@C02,C11
        final(self).w_svc(), //@C02,C11
        final(self).w_os(None), //@C02,C11
        final(self).w_conn(None), //@C02,C11
        final(self).w_calls(), //@C02,C11
        final(self).w_callers(final(state).remove_function_calls@), //@C02,C11
        final(self).w_subs(None), //@C02,C11
        final(self).w_all(final(state).unsubscribe_all_events@), //@C02,C11
        final(self).w_chan(None), //@C02,C11
        final(self).w(*final(state)), final(self).same_other(*old(self)), //@C02,C11
        // only the owner of the called service can answer
        !old(self).may_answer(*id, req.serial) ==> final(self).same_reg(*old(self)) && final(self).quiet(*old(self)) && *final(state) == *old(state), //@C02
        old(self).may_answer(*id, req.serial) ==> final(self).function_calls.m() == old(self).function_calls.m().remove(req.serial) && ({
            let p = old(self).function_calls.m()[req.serial];
            if p.aborted || !old(self).conns@.dom().contains(p.caller_conn_id) { final(self).quiet(*old(self)) && final(self).conns@ =~= old(self).conns@ && *final(state) == *old(state) }
            else {
                &&& final(self).log() == old(self).log().push((p.caller_conn_id, Message::CallFunctionReply(CallFunctionReply { serial: p.caller_serial, result: req.result }), Some(old(self).conns@[*id].version)))
                &&& final(self).conns@[p.caller_conn_id].calls@ == old(self).conns@[p.caller_conn_id].calls@.remove(p.caller_serial)
                &&& vx_maybe_removed(*final(state), *old(state), p.caller_conn_id)
            }
        }), //@C02
        final(self).same_objects(*old(self)), //@C02
fn Broker::abort_function_call verifier::spinoff_prover
    requires old(self).w(*old(state)), //@C02,C11
    ensures *final(self) == *old(self), final(self).w(*final(state)), //@C02,C11
        !old(self).conns@.dom().contains(*id) ==> r is Ok && *final(state) == *old(state), //@C02
        old(self).conns@.dom().contains(*id) ==> (r is Err <==> !old(self).speaks(*id, 16)), //@C12
        old(self).conns@.dom().contains(*id) ==> *final(state) == (State { abort_function_calls: final(state).abort_function_calls, ..*old(state) }), //@C02
        old(self).conns@.dom().contains(*id) ==> final(state).abort_function_calls@ == if old(self).speaks(*id, 16) && old(self).conns@[*id].calls@.dom().contains(req.serial) { old(state).abort_function_calls@.push(old(self).conns@[*id].calls@[req.serial]) } else { old(state).abort_function_calls@ }, //@C02
fn Broker::abort_call verifier::spinoff_prover
    requires old(self).w(*old(state)), //@C02,C11
    ensures final(self).w_obj(), final(self).w_svc(), final(self).w_os(None), final(self).w_conn(None), final(self).w_calls(), final(self).w_callers(final(state).remove_function_calls@), final(self).w_subs(None), final(self).w_all(final(state).unsubscribe_all_events@), final(self).w_chan(None), final(self).w_list(None), //@C02,C11
        final(self).w(*final(state)), final(self).same_other(*old(self)), final(self).same_objects(*old(self)), //@C02,C11
        vx_only_removed(*final(state), *old(state)), final(self).conns@.dom() =~= old(self).conns@.dom(), //@C02,C09
        !old(self).pending(callee_serial) ==> final(self).same_reg(*old(self)) && final(self).quiet(*old(self)) && *final(state) == *old(state), //@C02
        old(self).pending(callee_serial) ==> ({
            let p = old(self).function_calls.m()[callee_serial];
            &&& final(self).function_calls.m() == old(self).function_calls.m().insert(callee_serial, PendingFunctionCall { aborted: true, ..p })
            // the callee is told, the caller gets its one reply
            &&& final(self).log() == old(self).log()
                + (if old(self).conns@.dom().contains(callee_id) && old(self).speaks(callee_id, 16) { seq![(callee_id, Message::AbortFunctionCall(AbortFunctionCall { serial: callee_serial }), None::<ProtocolVersion>)] } else { seq![] })
                + (if old(self).conns@.dom().contains(p.caller_conn_id) { seq![(p.caller_conn_id, Message::CallFunctionReply(CallFunctionReply { serial: p.caller_serial, result: CallFunctionResult::Aborted }), None::<ProtocolVersion>)] } else { seq![] })
            &&& (old(self).conns@.dom().contains(p.caller_conn_id) ==> final(self).conns@[p.caller_conn_id].calls@ == old(self).conns@[p.caller_conn_id].calls@.remove(p.caller_serial))
        }), //@C02
text
    pub open spec fn vx_maybe_removed(n: State, o: State, c: ConnectionId) -> bool {
        n == o || (n == (State { remove_conns: n.remove_conns, ..o }) && n.remove_conns@ == o.remove_conns@.push((c, false)))
    }
    impl Broker {
        pub open spec fn pending(self, n: u32) -> bool { self.function_calls.m().dom().contains(n) && !self.function_calls.m()[n].aborted }
        pub open spec fn may_answer(self, c: ConnectionId, n: u32) -> bool {
            self.conns@.dom().contains(c) && self.function_calls.m().dom().contains(n) && self.objs@[self.function_calls.m()[n].callee_obj].conn_id == c
        }
        pub open spec fn same_objects(self, o: Self) -> bool {
            self.obj_uuids@ == o.obj_uuids@ && self.objs@ == o.objs@ && self.svc_uuids@ == o.svc_uuids@ && self.svcs@.dom() =~= o.svcs@.dom() && vx_same_conns(self.conns@, o.conns@)
        }
        /// the effect of a call: refused, or recorded and forwarded to the owner of the service
        pub open spec fn called(self, o: Self, st: State, ost: State, id: ConnectionId, req: CallFunction2, r: Result<(), ()>) -> bool {
            let u = o.svc_uuids@[req.service_cookie].0.uuid;
            let callee = o.objs@[u].conn_id;
            if !o.conns@.dom().contains(id) { r is Ok && self.same_reg(o) && self.quiet(o) && st == ost }
            else if !o.svc_uuids@.dom().contains(req.service_cookie) {
                self.same_reg(o) && st == ost && self.sent(o, id, Message::CallFunctionReply(CallFunctionReply { serial: req.serial, result: CallFunctionResult::InvalidService }))
            } else if o.conns@[id].calls@.dom().contains(req.serial) { r is Err && self.same_reg(o) && self.quiet(o) && st == ost }
            else {
                let m = self.log().last().1;
                let n = if m is CallFunction2 { m->CallFunction2_0.serial } else { m->CallFunction_0.serial };
                &&& r is Ok
                &&& !o.function_calls.m().dom().contains(n)
                &&& self.function_calls.m() == o.function_calls.m().insert(n, PendingFunctionCall { caller_serial: req.serial, caller_conn_id: id, callee_obj: u, callee_svc: o.svc_uuids@[req.service_cookie].1, aborted: false })
                &&& self.conns@[id].calls@ == o.conns@[id].calls@.insert(req.serial, (n, callee))
                &&& self.log() == o.log().push((callee, if o.speaks(callee, 19) { Message::CallFunction2(CallFunction2 { serial: n, ..req }) } else { Message::CallFunction(CallFunction { serial: n, service_cookie: req.service_cookie, function: req.function, value: req.value }) }, Some(o.conns@[id].version)))
                &&& vx_maybe_removed(st, ost, callee)
                &&& self.same_objects(o)
            }
        }
    }
