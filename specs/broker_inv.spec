// The consistency of the broker's maps: what every handler relies on and keeps (C02, C03, C04, C09, C11)
// `gone`: a connection that has just been removed; `dead`: an object that has just been removed
text
    pub open spec fn vx_val<T>(g: Ghost<T>) -> T { g@ }
    impl ConnectionState {
        pub open spec fn id(self) -> ConnectionId { self.send.owner@ }
        pub open spec fn same_base(self, o: Self) -> bool { self.version == o.version && self.send == o.send }
        pub open spec fn same_objects(self, o: Self) -> bool { self.objects@ == o.objects@ }
        pub open spec fn same_chans(self, o: Self) -> bool { self.senders@ == o.senders@ && self.receivers@ == o.receivers@ }
        pub open spec fn same_lists(self, o: Self) -> bool { self.bus_listeners@ == o.bus_listeners@ }
        pub open spec fn same_calls(self, o: Self) -> bool { self.calls@ == o.calls@ }
        /// nothing changed but subscriptions of this service, which became fewer
        pub open spec fn less_subs(self, o: Self, s: ServiceCookie) -> bool {
            &&& self.all_events@ == o.all_events@
            &&& forall|t: ServiceCookie| #![trigger self.subs(t)] #![trigger vx_csubs(self.events@, t)] t != s ==> self.subs(t) == o.subs(t)
            &&& self.subs(s).subset_of(o.subs(s))
            &&& self.subscriptions@.subset_of(o.subscriptions@)
            &&& forall|t: ServiceCookie| #![trigger self.subscriptions@.contains(t)] t != s && o.subscriptions@.contains(t) ==> self.subscriptions@.contains(t)
        }
        pub open spec fn no_subs(self, s: ServiceCookie) -> bool { self.subs(s) =~= Set::<u32>::empty() && !self.subscriptions@.contains(s) }
        pub open spec fn same_subs(self, o: Self) -> bool { (forall|s: ServiceCookie| #[trigger] self.subs(s) == o.subs(s)) && self.all_events@ == o.all_events@ && self.subscriptions@ == o.subscriptions@ }
    }
    pub open spec fn vx_same_conns(a: Map<ConnectionId, ConnectionState>, b: Map<ConnectionId, ConnectionState>) -> bool {
        &&& a.dom() =~= b.dom()
        &&& forall|c: ConnectionId| #![trigger a[c]] #![trigger b[c]] a.dom().contains(c) ==> a[c].same_base(b[c])
    }
    impl Broker {
        pub open spec fn log(self) -> Seq<(ConnectionId, Message, Option<ProtocolVersion>)> { self.vx_out.log@ }
        pub open spec fn key(self, s: ServiceCookie) -> (ObjectUuid, ServiceUuid) { (self.svc_uuids@[s].0.uuid, self.svc_uuids@[s].1) }
        /// objects by cookie and by uuid are the same objects
        pub open spec fn w_obj(self) -> bool {
            &&& forall|c: ObjectCookie| #![trigger self.obj_uuids@.dom().contains(c)] #![trigger self.obj_uuids@[c]] self.obj_uuids@.dom().contains(c) ==> self.objs@.dom().contains(self.obj_uuids@[c]) && self.objs@[self.obj_uuids@[c]].cookie == c
            &&& forall|u: ObjectUuid| #![trigger self.objs@.dom().contains(u)] #![trigger self.objs@[u]] self.objs@.dom().contains(u) ==> self.obj_uuids@.dom().contains(self.objs@[u].cookie) && self.obj_uuids@[self.objs@[u].cookie] == u
        }
        /// services by cookie and by uuids are the same services
        pub open spec fn w_svc(self) -> bool {
            &&& forall|s: ServiceCookie| #![trigger self.svc_uuids@.dom().contains(s)] #![trigger self.svc_uuids@[s]] self.svc_uuids@.dom().contains(s) ==> self.svcs@.dom().contains(self.key(s)) && self.svcs@[self.key(s)].cookie == s && self.svcs@[self.key(s)].object_cookie == self.svc_uuids@[s].0.cookie
            &&& forall|k: (ObjectUuid, ServiceUuid)| #![trigger self.svcs@.dom().contains(k)] #![trigger self.svcs@[k]] self.svcs@.dom().contains(k) ==> self.svc_uuids@.dom().contains(self.svcs@[k].cookie) && self.key(self.svcs@[k].cookie) == k && self.svcs@[k].wf()
        }
        /// a service belongs to an object, an object knows its services
        pub open spec fn w_os(self, dead: Option<ObjectUuid>) -> bool {
            &&& forall|s: ServiceCookie| #![trigger self.svc_uuids@.dom().contains(s)] #![trigger self.svc_uuids@[s]] self.svc_uuids@.dom().contains(s) ==> dead == Some(self.svc_uuids@[s].0.uuid)
                || (self.objs@.dom().contains(self.svc_uuids@[s].0.uuid) && self.objs@[self.svc_uuids@[s].0.uuid].cookie == self.svc_uuids@[s].0.cookie && self.objs@[self.svc_uuids@[s].0.uuid].svcs@.contains(s))
            &&& forall|u: ObjectUuid, s: ServiceCookie| #![trigger self.objs@[u].svcs@.contains(s)] self.objs@.dom().contains(u) && self.objs@[u].svcs@.contains(s) ==> self.svc_uuids@.dom().contains(s) && self.svc_uuids@[s].0.uuid == u
            &&& (dead is Some ==> !self.objs@.dom().contains(dead->0))
        }
        /// an object belongs to a connection, a connection knows its objects
        pub open spec fn w_conn(self, gone: Option<ConnectionId>) -> bool {
            &&& forall|c: ConnectionId| #![trigger self.conns@.dom().contains(c)] #![trigger self.conns@[c]] self.conns@.dom().contains(c) ==> self.conns@[c].wf() && self.conns@[c].id() == c && vx_ge(self.conns@[c].version, 14)
            &&& forall|u: ObjectUuid| #![trigger self.objs@.dom().contains(u)] #![trigger self.objs@[u]] self.objs@.dom().contains(u) ==> gone == Some(self.objs@[u].conn_id)
                || (self.conns@.dom().contains(self.objs@[u].conn_id) && self.conns@[self.objs@[u].conn_id].objects@.contains(self.objs@[u].cookie))
            &&& forall|c: ConnectionId, o: ObjectCookie| #![trigger self.conns@[c].objects@.contains(o)] self.conns@.dom().contains(c) && self.conns@[c].objects@.contains(o) ==> self.obj_uuids@.dom().contains(o) && self.objs@[self.obj_uuids@[o]].conn_id == c
            &&& (gone is Some ==> !self.conns@.dom().contains(gone->0))
        }
        /// a pending call is known to its service and the other way around
        pub open spec fn w_calls(self) -> bool {
            &&& forall|n: u32| #![trigger self.function_calls.m().dom().contains(n)] #![trigger self.function_calls.m()[n]] self.function_calls.m().dom().contains(n) ==>
                self.svcs@.dom().contains((self.function_calls.m()[n].callee_obj, self.function_calls.m()[n].callee_svc)) && self.svcs@[(self.function_calls.m()[n].callee_obj, self.function_calls.m()[n].callee_svc)].function_calls@.contains(n)
            &&& forall|k: (ObjectUuid, ServiceUuid), n: u32| #![trigger self.svcs@[k].function_calls@.contains(n)] self.svcs@.dom().contains(k) && self.svcs@[k].function_calls@.contains(n) ==>
                self.function_calls.m().dom().contains(n) && self.function_calls.m()[n].callee_obj == k.0 && self.function_calls.m()[n].callee_svc == k.1
        }
        /// a connection waits for exactly the pending calls it made, and for the replies in the queue
        pub open spec fn w_callers(self, q: Seq<(u32, ConnectionId, CallFunctionResult)>) -> bool {
            &&& forall|c: ConnectionId, s: u32| #![trigger self.conns@[c].calls@.dom().contains(s)] #![trigger self.conns@[c].calls@[s]] self.conns@.dom().contains(c) && self.conns@[c].calls@.dom().contains(s) ==>
                self.awaits(c, s, self.conns@[c].calls@[s].0) || vx_queued(q, s, c)
            &&& forall|n: u32| #![trigger self.function_calls.m().dom().contains(n)] #![trigger self.function_calls.m()[n]] self.function_calls.m().dom().contains(n) ==> self.caller_ok(self.function_calls.m()[n], n, q)
            &&& forall|i: int| #![trigger q[i]] 0 <= i < q.len() && self.conns@.dom().contains(q[i].1) ==> self.conns@[q[i].1].calls@.dom().contains(q[i].0)
            &&& forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < q.len() && self.conns@.dom().contains(q[i].1) ==> !(q[i].0 == q[j].0 && q[i].1 == q[j].1)
        }
        pub open spec fn awaits(self, c: ConnectionId, s: u32, n: u32) -> bool {
            self.function_calls.m().dom().contains(n) && !self.function_calls.m()[n].aborted && self.function_calls.m()[n].caller_serial == s && self.function_calls.m()[n].caller_conn_id == c
        }
        pub open spec fn caller_ok(self, p: PendingFunctionCall, n: u32, q: Seq<(u32, ConnectionId, CallFunctionResult)>) -> bool {
            !p.aborted && self.conns@.dom().contains(p.caller_conn_id) ==> {
                &&& self.conns@[p.caller_conn_id].calls@.dom().contains(p.caller_serial)
                &&& self.conns@[p.caller_conn_id].calls@[p.caller_serial].0 == n
                &&& (self.objs@.dom().contains(p.callee_obj) ==> self.conns@[p.caller_conn_id].calls@[p.caller_serial].1 == self.objs@[p.callee_obj].conn_id)
                &&& !vx_queued(q, p.caller_serial, p.caller_conn_id)
            }
        }
        /// a subscription is known to the service and to the subscriber
        pub open spec fn w_subs(self, gone: Option<ConnectionId>) -> bool {
            &&& forall|k: (ObjectUuid, ServiceUuid), e: u32, c: ConnectionId| #![trigger vx_ssubs(self.svcs@[k].events@, e).contains(c)] self.svcs@.dom().contains(k) && vx_ssubs(self.svcs@[k].events@, e).contains(c) ==> gone == Some(c) || (self.conns@.dom().contains(c) && vx_csubs(self.conns@[c].events@, self.svcs@[k].cookie).contains(e))
            &&& forall|k: (ObjectUuid, ServiceUuid), c: ConnectionId| #![trigger self.svcs@[k].all_events@.contains(c)] self.svcs@.dom().contains(k) && self.svcs@[k].all_events@.contains(c) ==> gone == Some(c) || (self.conns@.dom().contains(c) && self.conns@[c].all_events@.contains(self.svcs@[k].cookie))
            &&& forall|k: (ObjectUuid, ServiceUuid), c: ConnectionId| #![trigger self.svcs@[k].subscriptions@.contains(c)] self.svcs@.dom().contains(k) && self.svcs@[k].subscriptions@.contains(c) ==> gone == Some(c) || (self.conns@.dom().contains(c) && self.conns@[c].subscriptions@.contains(self.svcs@[k].cookie))
            &&& forall|c: ConnectionId, s: ServiceCookie, e: u32| #![trigger vx_csubs(self.conns@[c].events@, s).contains(e)] self.conns@.dom().contains(c) && vx_csubs(self.conns@[c].events@, s).contains(e) ==> self.svc_uuids@.dom().contains(s) && vx_ssubs(self.svcs@[self.key(s)].events@, e).contains(c)
            &&& forall|c: ConnectionId, s: ServiceCookie| #![trigger self.conns@[c].all_events@.contains(s)] self.conns@.dom().contains(c) && self.conns@[c].all_events@.contains(s) && self.svc_uuids@.dom().contains(s) ==> self.svcs@[self.key(s)].all_events@.contains(c)
            &&& forall|c: ConnectionId, s: ServiceCookie| #![trigger self.conns@[c].subscriptions@.contains(s)] self.conns@.dom().contains(c) && self.conns@[c].subscriptions@.contains(s) ==> self.svc_uuids@.dom().contains(s) && self.svcs@[self.key(s)].subscriptions@.contains(c)
        }
        /// all events can only be subscribed if the owner understands it
        pub open spec fn w_all(self, q: Seq<(ConnectionId, ServiceCookie)>) -> bool {
            &&& forall|k: (ObjectUuid, ServiceUuid), c: ConnectionId| #![trigger self.svcs@[k].all_events@.contains(c)] self.svcs@.dom().contains(k) && self.svcs@[k].all_events@.contains(c) && self.objs@.dom().contains(k.0) && self.conns@.dom().contains(self.objs@[k.0].conn_id) ==> vx_ge(self.conns@[self.objs@[k.0].conn_id].version, 18)
            &&& forall|i: int| #![trigger q[i]] 0 <= i < q.len() && self.conns@.dom().contains(q[i].0) ==> vx_ge(self.conns@[q[i].0].version, 18)
        }
        /// the ends of a channel are held by connections that know about it
        pub open spec fn w_chan(self, gone: Option<ConnectionId>) -> bool {
            &&& forall|k: ChannelCookie| #![trigger self.channels@.dom().contains(k)] #![trigger self.channels@[k]] self.channels@.dom().contains(k) ==> self.channels@[k].wf()
                && (self.channels@[k].sender is Claimed ==> gone == Some(self.channels@[k].sender->owner) || (self.conns@.dom().contains(self.channels@[k].sender->owner) && self.conns@[self.channels@[k].sender->owner].senders@.contains(k)))
                && (self.channels@[k].receiver is Claimed ==> gone == Some(self.channels@[k].receiver->owner) || (self.conns@.dom().contains(self.channels@[k].receiver->owner) && self.conns@[self.channels@[k].receiver->owner].receivers@.contains(k)))
            &&& forall|c: ConnectionId, k: ChannelCookie| #![trigger self.conns@[c].senders@.contains(k)] self.conns@.dom().contains(c) && self.conns@[c].senders@.contains(k) ==> self.channels@.dom().contains(k) && self.channels@[k].sender.owned_by(c)
            &&& forall|c: ConnectionId, k: ChannelCookie| #![trigger self.conns@[c].receivers@.contains(k)] self.conns@.dom().contains(c) && self.conns@[c].receivers@.contains(k) ==> self.channels@.dom().contains(k) && self.channels@[k].receiver.owned_by(c)
        }
        /// a bus listener belongs to a connection that knows about it
        pub open spec fn w_list(self, gone: Option<ConnectionId>) -> bool {
            &&& forall|k: BusListenerCookie| #![trigger self.bus_listeners@.dom().contains(k)] #![trigger self.bus_listeners@[k]] self.bus_listeners@.dom().contains(k) ==> self.bus_listeners@[k].wf()
                && (gone == Some(self.bus_listeners@[k].conn_id) || (self.conns@.dom().contains(self.bus_listeners@[k].conn_id) && self.conns@[self.bus_listeners@[k].conn_id].bus_listeners@.contains(k)))
            &&& forall|c: ConnectionId, k: BusListenerCookie| #![trigger self.conns@[c].bus_listeners@.contains(k)] self.conns@.dom().contains(c) && self.conns@[c].bus_listeners@.contains(k) ==> self.bus_listeners@.dom().contains(k) && self.bus_listeners@[k].conn_id == c
        }
        pub open spec fn w_stats(self) -> bool {
            &&& self.statistics.num_objects == self.objs@.dom().len()
            &&& self.statistics.num_services == self.svcs@.dom().len()
        }
        pub open spec fn wx(self, st: State, gone: Option<ConnectionId>, dead: Option<ObjectUuid>) -> bool {
            self.w_obj() && self.w_svc() && self.w_os(dead) && self.w_conn(gone) && self.w_calls() && self.w_callers(st.remove_function_calls@) && self.w_subs(gone) && self.w_all(st.unsubscribe_all_events@) && self.w_chan(gone) && self.w_list(gone)
        }
        pub open spec fn w(self, st: State) -> bool { self.wx(st, None, None) }
        /// nothing but the statistics of messages changed
        pub open spec fn same_reg(self, o: Self) -> bool {
            self.conns@ =~= o.conns@ && self.obj_uuids@ =~= o.obj_uuids@ && self.objs@ =~= o.objs@ && self.svc_uuids@ =~= o.svc_uuids@ && self.svcs@ =~= o.svcs@ && self.function_calls.m() =~= o.function_calls.m()
        }
        pub open spec fn same_other(self, o: Self) -> bool { self.channels == o.channels && self.bus_listeners == o.bus_listeners }
        pub open spec fn same_calls(self, o: Self) -> bool { self.function_calls.m() == o.function_calls.m() }
        /// exactly one message, to `c`
        pub open spec fn sent(self, o: Self, c: ConnectionId, m: Message) -> bool { self.log() == o.log().push((c, m, None)) }
        pub open spec fn quiet(self, o: Self) -> bool { self.log() == o.log() }
        pub open spec fn owns(self, c: ConnectionId, o: ObjectCookie) -> bool { self.obj_uuids@.dom().contains(o) && self.objs@[self.obj_uuids@[o]].conn_id == c }
    }
    pub open spec fn vx_queued(q: Seq<(u32, ConnectionId, CallFunctionResult)>, s: u32, c: ConnectionId) -> bool { exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == s && q[i].1 == c }
    impl State {
        /// every queue but those that an operation on objects, services and calls may extend
        pub open spec fn same_flags(self, o: Self) -> bool { self.shutdown_now == o.shutdown_now && self.shutdown_idle == o.shutdown_idle && self.remove_conns == o.remove_conns }
    }
text
    pub open spec fn vx_ge(v: ProtocolVersion, minor: u32) -> bool { v.major > 1 || (v.major == 1 && v.minor >= minor) }
    /// the minor version that introduced a message
    pub open spec fn vx_since(m: Message) -> u32 {
        match m {
            Message::AbortFunctionCall(_) => 16,
            Message::RegisterIntrospection(_) | Message::QueryIntrospection(_) | Message::QueryIntrospectionReply(_) | Message::CreateService2(_) | Message::QueryServiceInfo(_) | Message::QueryServiceInfoReply(_) => 17,
            Message::SubscribeService(_) | Message::SubscribeServiceReply(_) | Message::UnsubscribeService(_) | Message::SubscribeAllEvents(_) | Message::SubscribeAllEventsReply(_) | Message::UnsubscribeAllEvents(_) | Message::UnsubscribeAllEventsReply(_) => 18,
            Message::CallFunction2(_) => 19,
            _ => 14,
        }
    }
