// Channels (C05)
text
    pub open spec fn vx_closed_end(c: Channel, n: Channel, e: ChannelEnd) -> bool { n.end(e) is Closed && n.other_end(e) == c.other_end(e) }
    impl Broker {
        /// nothing changed but channels and who holds their ends
        pub open spec fn only_chans(self, o: Self) -> bool {
            &&& self.obj_uuids == o.obj_uuids && self.objs == o.objs && self.svc_uuids == o.svc_uuids && self.svcs == o.svcs && self.function_calls == o.function_calls && self.bus_listeners == o.bus_listeners
            &&& vx_same_conns(self.conns@, o.conns@)
            &&& forall|c: ConnectionId| #![trigger self.conns@[c]] #![trigger o.conns@[c]] self.conns@.dom().contains(c) ==> self.conns@[c].same_objects(o.conns@[c]) && self.conns@[c].same_lists(o.conns@[c]) && self.conns@[c].same_calls(o.conns@[c]) && self.conns@[c].events@ == o.conns@[c].events@ && self.conns@[c].all_events@ == o.conns@[c].all_events@ && self.conns@[c].subscriptions@ == o.conns@[c].subscriptions@
        }
        pub open spec fn same_ends(self, o: Self) -> bool { self.channels@ =~= o.channels@ && forall|c: ConnectionId| #![trigger self.conns@[c]] self.conns@.dom().contains(c) ==> self.conns@[c].same_chans(o.conns@[c]) }
        /// `c` takes or gives up one end of a channel
        pub open spec fn one_end(self, o: Self, c: ConnectionId, k: ChannelCookie, e: ChannelEnd, add: bool) -> bool {
            &&& forall|d: ConnectionId| #![trigger self.conns@[d]] self.conns@.dom().contains(d) && d != c ==> self.conns@[d].same_chans(o.conns@[d])
            &&& self.conns@.dom().contains(c) ==> self.conns@[c].senders@ =~= vx_with(o.conns@[c].senders@, k, e is Sender, add) && self.conns@[c].receivers@ =~= vx_with(o.conns@[c].receivers@, k, e is Receiver, add)
        }
        /// the other end is held by a connection
        pub open spec fn peer(self, k: ChannelCookie, e: ChannelEnd) -> bool { self.channels@[k].other_end(e) is Claimed && self.conns@.dom().contains(self.channels@[k].other_end(e)->owner) }
        /// the end is closed: whoever holds the other end is told, without one the channel is gone
        pub open spec fn end_closed(self, o: Self, k: ChannelCookie, e: ChannelEnd) -> bool {
            if o.peer(k, e) {
                &&& self.channels@ =~= o.channels@.insert(k, self.channels@[k]) && vx_closed_end(o.channels@[k], self.channels@[k], e)
                &&& self.sent(o, o.channels@[k].other_end(e)->owner, Message::ChannelEndClosed(ChannelEndClosed { cookie: k, end: e }))
            } else { self.channels@ =~= o.channels@.remove(k) && self.quiet(o) }
        }
    }
    pub open spec fn vx_with(s: Set<ChannelCookie>, k: ChannelCookie, this: bool, add: bool) -> Set<ChannelCookie> { if !this { s } else if add { s.insert(k) } else { s.remove(k) } }
    pub open spec fn vx_cc(m: HashMap<ChannelCookie, Channel>) -> Set<ChannelCookie> { m@.dom() }
    impl ChannelCookie {
        #[verifier::external_body]
        pub fn new_v4(used: Ghost<Set<ChannelCookie>>) -> (r: Self) ensures !used@.contains(r) { unimplemented!() }
    }
fn Broker::create_channel verifier::spinoff_prover
    @sig pub fn create_channel(&mut self, id: &ConnectionId, req: CreateChannel, vx_st: Ghost<State>) -> (r: Result<(), ()>)
    requires old(self).w(vx_st@), //@C05,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w(vx_st@), final(self).only_chans(*old(self)), //@C05,C11
        !old(self).conns@.dom().contains(*id) ==> r is Ok && final(self).same_ends(*old(self)) && final(self).quiet(*old(self)), //@C05
        old(self).conns@.dom().contains(*id) ==> ({
            let o = *old(self); let n = *final(self); let k = n.log().last().1->CreateChannelReply_0.cookie;
            &&& n.sent(o, *id, Message::CreateChannelReply(CreateChannelReply { serial: req.serial, cookie: k }))
            &&& !o.channels@.dom().contains(k)
            &&& n.channels@ =~= o.channels@.insert(k, n.channels@[k])
            // one end is held by its creator, the other one is up for grabs
            &&& (match req.end {
                ChannelEndWithCapacity::Sender => n.channels@[k].sender == (ChannelEndState::Claimed { owner: *id, capacity: 0 }) && n.channels@[k].receiver is Unclaimed && n.one_end(o, *id, k, ChannelEnd::Sender, true),
                ChannelEndWithCapacity::Receiver(capacity) => n.channels@[k].receiver == (ChannelEndState::Claimed { owner: *id, capacity }) && n.channels@[k].sender is Unclaimed && n.one_end(o, *id, k, ChannelEnd::Receiver, true),
            })
        }), //@C05
fn Broker::close_channel_end verifier::spinoff_prover
    requires old(self).w(*old(state)), //@C05,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w(*final(state)), final(self).only_chans(*old(self)), //@C05,C11
        !old(self).conns@.dom().contains(*id) ==> r is Ok && final(self).same_ends(*old(self)) && final(self).quiet(*old(self)) && *final(state) == *old(state), //@C05
        old(self).conns@.dom().contains(*id) ==> ({
            let o = *old(self); let n = *final(self); let c = o.channels@[req.cookie];
            let res = if !o.channels@.dom().contains(req.cookie) || c.end(req.end) is Closed { CloseChannelEndResult::InvalidChannel } else if c.end(req.end) is Unclaimed || c.end(req.end).owned_by(*id) { CloseChannelEndResult::Ok } else { CloseChannelEndResult::ForeignChannel };
            let m = Message::CloseChannelEndReply(CloseChannelEndReply { serial: req.serial, result: res });
            // an end that is held by someone else or closed stays as it is
            &&& (res != CloseChannelEndResult::Ok || r is Err ==> n.same_ends(o) && n.sent(o, *id, m) && *final(state) == *old(state))
            &&& (res == CloseChannelEndResult::Ok && r is Ok ==> n.end_closed(o.said(*id, m), req.cookie, req.end) && vx_maybe_removed(*final(state), *old(state), c.other_end(req.end)->owner)
                && (if c.end(req.end) is Claimed { n.one_end(o, *id, req.cookie, req.end, false) } else { n.only_chans(o) }))
        }), //@C05
fn Broker::claim_channel_end verifier::spinoff_prover
    requires old(self).w(*old(state)), //@C05,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w_obj(), //@C05,C11
        final(self).w_svc(), //@C05,C11
        final(self).w_os(None), //@C05,C11
        final(self).w_conn(None), //@C05,C11
        final(self).w_calls(), //@C05,C11
        final(self).w_callers(final(state).remove_function_calls@), //@C05,C11
        final(self).w_subs(None), //@C05,C11
        final(self).w_all(final(state).unsubscribe_all_events@), //@C05,C11
        final(self).w_chan(None), //@C05,C11
        final(self).w(*final(state)), final(self).only_chans(*old(self)), //@C05,C11
        !old(self).conns@.dom().contains(*id) ==> r is Ok && final(self).same_ends(*old(self)) && final(self).quiet(*old(self)) && *final(state) == *old(state), //@C05
        old(self).conns@.dom().contains(*id) ==> ({
            let o = *old(self); let n = *final(self); let c = o.channels@[req.cookie]; let e = vx_end(req.end);
            // an end is given to at most one connection
            &&& (!o.channels@.dom().contains(req.cookie) || !(c.end(e) is Unclaimed) ==> n.same_ends(o) && *final(state) == *old(state)
                && n.sent(o, *id, Message::ClaimChannelEndReply(ClaimChannelEndReply { serial: req.serial, result: if o.channels@.dom().contains(req.cookie) && c.end(e) is Claimed { ClaimChannelEndResult::AlreadyClaimed } else { ClaimChannelEndResult::InvalidChannel } })))
            &&& (o.channels@.dom().contains(req.cookie) && c.end(e) is Unclaimed ==> {
                let res = match req.end { ChannelEndWithCapacity::Sender => ClaimChannelEndResult::SenderClaimed(c.receiver->capacity), ChannelEndWithCapacity::Receiver(_) => ClaimChannelEndResult::ReceiverClaimed };
                &&& n.channels@ =~= o.channels@.insert(req.cookie, n.channels@[req.cookie])
                &&& n.one_end(o, *id, req.cookie, e, true)
                &&& (match req.end {
                    ChannelEndWithCapacity::Sender => n.channels@[req.cookie].receiver == c.receiver && n.channels@[req.cookie].sender == (ChannelEndState::Claimed { owner: *id, capacity: c.receiver->capacity }),
                    ChannelEndWithCapacity::Receiver(capacity) => n.channels@[req.cookie].receiver == (ChannelEndState::Claimed { owner: *id, capacity }) && n.channels@[req.cookie].sender == (ChannelEndState::Claimed { owner: c.sender->owner, capacity }),
                })
                // the claimer learns about it, and so does the holder of the other end
                &&& n.log() =~= o.log() + vx_msg(*id, Message::ClaimChannelEndReply(ClaimChannelEndReply { serial: req.serial, result: res })) + vx_msg(c.other_end(e)->owner, Message::ChannelEndClaimed(ChannelEndClaimed { cookie: req.cookie, end: req.end }))
                &&& vx_maybe_removed(*final(state), *old(state), c.other_end(e)->owner)
            })
        }), //@C05
fn Broker::add_channel_capacity verifier::spinoff_prover
    requires old(self).w(*old(state)), //@C05,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w(*final(state)), final(self).only_chans(*old(self)), //@C05,C11
        ({
            let o = *old(self); let n = *final(self); let k = req.cookie; let c = o.channels@[k];
            // only the holder of the receiver grants credit
            &&& (!(o.channels@.dom().contains(k) && req.capacity > 0 && c.receiver.owned_by(*id)) ==> n.same_ends(o) && n.quiet(o) && *final(state) == *old(state))
            &&& (o.channels@.dom().contains(k) && req.capacity > 0 && c.receiver.owned_by(*id) ==> {
                if c.receiver->capacity + req.capacity > u32::MAX { n.end_closed(o, k, ChannelEnd::Receiver) && n.one_end(o, *id, k, ChannelEnd::Receiver, false) }
                else {
                    &&& n.channels@ =~= o.channels@.insert(k, n.channels@[k])
                    &&& (forall|d: ConnectionId| #![trigger n.conns@[d]] n.conns@.dom().contains(d) ==> n.conns@[d].same_chans(o.conns@[d]))
                    &&& n.channels@[k].receiver == (ChannelEndState::Claimed { owner: *id, capacity: (c.receiver->capacity + req.capacity) as u32 })
                    // what the sender is told is what it may send in addition
                    &&& (n.channels@[k].sender == c.sender && n.quiet(o) || (c.sender is Claimed && n.channels@[k].sender is Claimed && n.channels@[k].sender->owner == c.sender->owner && n.channels@[k].sender->capacity > c.sender->capacity
                        && n.sent(o, c.sender->owner, Message::AddChannelCapacity(AddChannelCapacity { cookie: k, capacity: (n.channels@[k].sender->capacity - c.sender->capacity) as u32 }))))
                    &&& vx_maybe_removed(*final(state), *old(state), c.sender->owner)
                }
            })
        }), //@C05
fn Broker::send_item verifier::spinoff_prover
    requires old(self).w(*old(state)), //@C05,C11
    ensures final(self).conns@.dom() =~= old(self).conns@.dom(), //@C11
        final(self).w(*final(state)), final(self).only_chans(*old(self)), //@C05,C11
        ({
            let o = *old(self); let n = *final(self); let k = req.cookie; let c = o.channels@[k];
            // items of anyone but the holder of the sender are dropped, and so are those behind a closed receiver
            &&& (!(o.conns@.dom().contains(*id) && o.channels@.dom().contains(k) && c.sender.owned_by(*id)) || c.receiver is Closed ==> r is Ok && n.same_ends(o) && n.quiet(o) && *final(state) == *old(state))
            &&& (o.conns@.dom().contains(*id) && o.channels@.dom().contains(k) && c.sender.owned_by(*id) && c.receiver is Unclaimed ==> r is Ok && n.channels@ =~= o.channels@.remove(k) && n.one_end(o, *id, k, ChannelEnd::Sender, false)
                && n.sent(o, *id, Message::ChannelEndClosed(ChannelEndClosed { cookie: k, end: ChannelEnd::Receiver })))
            &&& (o.conns@.dom().contains(*id) && o.channels@.dom().contains(k) && c.sender.owned_by(*id) && c.receiver is Claimed ==> {
                // beyond the announced capacity: the sender is cut off
                if c.sender->capacity == 0 { r is Ok && n.end_closed(o, k, ChannelEnd::Sender) && n.one_end(o, *id, k, ChannelEnd::Sender, false) }
                else {
                    let d = n.channels@[k].sender->capacity - (c.sender->capacity - 1);
                    &&& n.channels@ =~= o.channels@.insert(k, n.channels@[k])
                    &&& (forall|d: ConnectionId| #![trigger n.conns@[d]] n.conns@.dom().contains(d) ==> n.conns@[d].same_chans(o.conns@[d]))
                    &&& n.channels@[k].receiver == (ChannelEndState::Claimed { owner: c.receiver->owner, capacity: (c.receiver->capacity - 1) as u32 })
                    &&& n.channels@[k].sender.owned_by(*id) && d >= 0
                    // the item goes to the receiver, new credit to the sender
                    &&& n.log() =~= o.log().push((c.receiver->owner, Message::ItemReceived(ItemReceived { cookie: k, value: req.value }), Some(o.conns@[*id].version)))
                        + (if d > 0 { vx_msg(*id, Message::AddChannelCapacity(AddChannelCapacity { cookie: k, capacity: d as u32 })) } else { vx_none() })
                    &&& vx_maybe_removed(*final(state), *old(state), c.receiver->owner)
                }
            })
        }), //@C05
fn Broker::remove_channel_end verifier::spinoff_prover
    @sig pub fn remove_channel_end(&mut self, state: &mut State, cookie: ChannelCookie, end: ChannelEnd, owner: Option<&ConnectionId>, vx_gone: Ghost<Option<ConnectionId>>)
    requires old(self).wx(*old(state), vx_gone@, None), //@C05,C11
        // an end is closed once, by whoever holds it
        old(self).channels@.dom().contains(cookie) ==> !(old(self).channels@[cookie].end(end) is Closed), //@C05,C11
        old(self).channels@.dom().contains(cookie) ==> (owner is Some <==> old(self).channels@[cookie].end(end) is Claimed), //@C05,C11
        old(self).channels@.dom().contains(cookie) && owner is Some ==> *owner->0 == old(self).channels@[cookie].end(end)->owner, //@C05,C11
    ensures final(self).wx(*final(state), vx_gone@, None), final(self).only_chans(*old(self)), //@C05,C11
        !old(self).channels@.dom().contains(cookie) ==> final(self).same_ends(*old(self)) && final(self).quiet(*old(self)) && *final(state) == *old(state), //@C05
        old(self).channels@.dom().contains(cookie) ==> final(self).end_closed(*old(self), cookie, end) && vx_maybe_removed(*final(state), *old(state), old(self).channels@[cookie].other_end(end)->owner), //@C05
        old(self).channels@.dom().contains(cookie) && owner is Some ==> final(self).one_end(*old(self), *owner->0, cookie, end, false), //@C05
        owner is None ==> final(self).conns@ == old(self).conns@, //@C05
text
    pub open spec fn vx_end(e: ChannelEndWithCapacity) -> ChannelEnd { match e { ChannelEndWithCapacity::Sender => ChannelEnd::Sender, ChannelEndWithCapacity::Receiver(_) => ChannelEnd::Receiver } }
    impl Broker {
        /// this state, had the message been sent
        pub open spec fn said(self, c: ConnectionId, m: Message) -> Self { Broker { vx_out: VxOut { log: Ghost(self.log().push((c, m, None))) }, ..self } }
    }
text
    impl Broker {
        pub proof fn lemma_list_frame(o: Self, n: Self, gone: Option<ConnectionId>)
            requires o.w_list(gone), n.bus_listeners@ == o.bus_listeners@, n.conns@.dom() =~= o.conns@.dom(), forall|c: ConnectionId| #![trigger n.conns@[c]] o.conns@.dom().contains(c) ==> n.conns@[c].bus_listeners@ == o.conns@[c].bus_listeners@
            ensures n.w_list(gone)
        {}
        pub proof fn lemma_subs_frame(o: Self, n: Self, gone: Option<ConnectionId>)
            requires o.w_subs(gone), o.w_obj(), o.w_svc(), n.svc_uuids@ == o.svc_uuids@, n.svcs@.dom() =~= o.svcs@.dom(), n.conns@.dom() =~= o.conns@.dom(),
                forall|k: (ObjectUuid, ServiceUuid)| #![trigger n.svcs@[k]] o.svcs@.dom().contains(k) ==> n.svcs@[k].cookie == o.svcs@[k].cookie && n.svcs@[k].events == o.svcs@[k].events && n.svcs@[k].all_events == o.svcs@[k].all_events && n.svcs@[k].subscriptions == o.svcs@[k].subscriptions,
                forall|c: ConnectionId| #![trigger n.conns@[c]] o.conns@.dom().contains(c) ==> n.conns@[c].events@ == o.conns@[c].events@ && n.conns@[c].all_events@ == o.conns@[c].all_events@ && n.conns@[c].subscriptions@ == o.conns@[c].subscriptions@
            ensures n.w_subs(gone)
        {
            assert forall|c: ConnectionId, s: ServiceCookie| #![trigger n.conns@[c].subscriptions@.contains(s)] n.conns@.dom().contains(c) && n.conns@[c].subscriptions@.contains(s) implies n.svc_uuids@.dom().contains(s) && n.svcs@[n.key(s)].subscriptions@.contains(c) by { assert(o.conns@[c].subscriptions@.contains(s)); assert(o.svcs@.dom().contains(o.key(s))); }
            assert forall|c: ConnectionId, s: ServiceCookie, e: u32| #![trigger vx_csubs(n.conns@[c].events@, s).contains(e)] n.conns@.dom().contains(c) && vx_csubs(n.conns@[c].events@, s).contains(e) implies n.svc_uuids@.dom().contains(s) && vx_ssubs(n.svcs@[n.key(s)].events@, e).contains(c) by { assert(vx_csubs(o.conns@[c].events@, s).contains(e)); assert(o.svcs@.dom().contains(o.key(s))); }
            assert forall|c: ConnectionId, s: ServiceCookie| #![trigger n.conns@[c].all_events@.contains(s)] n.conns@.dom().contains(c) && n.conns@[c].all_events@.contains(s) && n.svc_uuids@.dom().contains(s) implies n.svcs@[n.key(s)].all_events@.contains(c) by { assert(o.conns@[c].all_events@.contains(s)); assert(o.svcs@.dom().contains(o.key(s))); }
        }
        pub proof fn lemma_chan_frame(o: Self, n: Self, gone: Option<ConnectionId>)
            requires o.w_chan(gone), n.channels@ == o.channels@, n.conns@.dom() =~= o.conns@.dom(), forall|c: ConnectionId| #![trigger n.conns@[c]] n.conns@.dom().contains(c) ==> n.conns@[c].same_chans(o.conns@[c])
            ensures n.w_chan(gone)
        {}
        pub proof fn lemma_callers_frame(o: Self, n: Self, q: Seq<(u32, ConnectionId, CallFunctionResult)>)
            requires o.w_callers(q), n.function_calls.m() == o.function_calls.m(), n.objs@ == o.objs@, n.conns@.dom() =~= o.conns@.dom(), forall|c: ConnectionId| #![trigger n.conns@[c]] n.conns@.dom().contains(c) ==> n.conns@[c].same_calls(o.conns@[c])
            ensures n.w_callers(q)
        {}
    }
hint Broker::claim_channel_end start
    proof { if self.conns@.dom().contains(*id) { assert(self.conns@.insert(*id, self.conns@[*id]) =~= self.conns@); } }
hint Broker::claim_channel_end after:is_err#0
    proof { Self::lemma_callers_frame(*old(self), *self, state.remove_function_calls@); }
hint Broker::call_function_reply end
    proof { Self::lemma_chan_frame(*old(self), *self, None); }
hint Broker::remove_all_events_subscription start
    proof { if self.conns@.dom().contains(*conn_id) { assert(self.conns@.insert(*conn_id, self.conns@[*conn_id]) =~= self.conns@); } }
hint Broker::remove_all_events_subscription after:unsubscribe_all_events#0
    proof { Self::lemma_list_frame(*old(self), *self, vx_gone@); Self::lemma_chan_frame(*old(self), *self, vx_gone@); }
hint Broker::abort_call after:is_err#1
    proof { Self::lemma_subs_frame(*old(self), *self, None); Self::lemma_chan_frame(*old(self), *self, None); Self::lemma_list_frame(*old(self), *self, None); }
hint Broker::subscribe_event start
    proof { if self.conns@.dom().contains(*id) { assert(self.conns@.insert(*id, self.conns@[*id]) =~= self.conns@); } }
hint Broker::subscribe_all_events start
    proof { if self.conns@.dom().contains(*id) { assert(self.conns@.insert(*id, self.conns@[*id]) =~= self.conns@); } }
hint Broker::subscribe_service start
    proof { if self.conns@.dom().contains(*id) { assert(self.conns@.insert(*id, self.conns@[*id]) =~= self.conns@); } }
hint Broker::unsubscribe_event start
    proof { if self.conns@.dom().contains(*id) { assert(self.conns@.insert(*id, self.conns@[*id]) =~= self.conns@); } }
