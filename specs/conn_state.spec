// Contracts of broker/src/broker/conn_state.rs (C02-C05, C09, C10)
source broker/src/broker/conn_state.rs
post
    pub open spec fn vx_csubs(m: Map<ServiceCookie, HashSet<u32>>, s: ServiceCookie) -> Set<u32> { if m.dom().contains(s) { m[s]@ } else { Set::empty() } }
    impl ConnectionState {
        pub open spec fn subs(self, s: ServiceCookie) -> Set<u32> { vx_csubs(self.events@, s) }
        pub open spec fn wf(self) -> bool { forall|s: ServiceCookie| #![trigger self.events@[s]] self.events@.dom().contains(s) ==> !(self.events@[s]@ =~= Set::<u32>::empty()) }
    }
fn ConnectionState::new
    ensures r.version == version, r.wf(), //@C12
        r.objects@ == Set::empty(), r.events@ == Map::empty(), r.all_events@ == Set::empty(), r.subscriptions@ == Set::empty(), r.senders@ == Set::empty(), r.receivers@ == Set::empty(), r.bus_listeners@ == Set::empty(), r.calls@ == Map::empty(), //@C09
fn ConnectionState::version
    ensures r == self.version, //@C12
fn ConnectionState::add_object
    requires !old(self).objects@.contains(cookie), //@C03,C11
    ensures final(self).objects@ == old(self).objects@.insert(cookie), //@C03
        final(self).version == old(self).version, final(self).send == old(self).send, final(self).events@ == old(self).events@, final(self).all_events@ == old(self).all_events@, final(self).subscriptions@ == old(self).subscriptions@, final(self).senders@ == old(self).senders@, final(self).receivers@ == old(self).receivers@, final(self).bus_listeners@ == old(self).bus_listeners@, final(self).calls@ == old(self).calls@, //@C03
fn ConnectionState::remove_object
    requires old(self).objects@.contains(cookie), //@C03,C11
    ensures final(self).objects@ == old(self).objects@.remove(cookie), //@C03
        final(self).version == old(self).version, final(self).send == old(self).send, final(self).events@ == old(self).events@, final(self).all_events@ == old(self).all_events@, final(self).subscriptions@ == old(self).subscriptions@, final(self).senders@ == old(self).senders@, final(self).receivers@ == old(self).receivers@, final(self).bus_listeners@ == old(self).bus_listeners@, final(self).calls@ == old(self).calls@, //@C03
fn ConnectionState::objects
    ensures vx_lists_copied(r, self.objects@), //@C03,C09
fn ConnectionState::add_sender
    requires !old(self).senders@.contains(cookie), //@C05,C11
    ensures final(self).senders@ == old(self).senders@.insert(cookie), //@C05
        final(self).version == old(self).version, final(self).send == old(self).send, final(self).objects@ == old(self).objects@, final(self).events@ == old(self).events@, final(self).all_events@ == old(self).all_events@, final(self).subscriptions@ == old(self).subscriptions@, final(self).receivers@ == old(self).receivers@, final(self).bus_listeners@ == old(self).bus_listeners@, final(self).calls@ == old(self).calls@, //@C05
fn ConnectionState::remove_sender
    requires old(self).senders@.contains(cookie), //@C05,C11
    ensures final(self).senders@ == old(self).senders@.remove(cookie), //@C05
        final(self).version == old(self).version, final(self).send == old(self).send, final(self).objects@ == old(self).objects@, final(self).events@ == old(self).events@, final(self).all_events@ == old(self).all_events@, final(self).subscriptions@ == old(self).subscriptions@, final(self).receivers@ == old(self).receivers@, final(self).bus_listeners@ == old(self).bus_listeners@, final(self).calls@ == old(self).calls@, //@C05
fn ConnectionState::senders
    ensures vx_lists_copied(r, self.senders@), //@C05,C09
fn ConnectionState::add_receiver
    requires !old(self).receivers@.contains(cookie), //@C05,C11
    ensures final(self).receivers@ == old(self).receivers@.insert(cookie), //@C05
        final(self).version == old(self).version, final(self).send == old(self).send, final(self).objects@ == old(self).objects@, final(self).events@ == old(self).events@, final(self).all_events@ == old(self).all_events@, final(self).subscriptions@ == old(self).subscriptions@, final(self).senders@ == old(self).senders@, final(self).bus_listeners@ == old(self).bus_listeners@, final(self).calls@ == old(self).calls@, //@C05
fn ConnectionState::remove_receiver
    requires old(self).receivers@.contains(cookie), //@C05,C11
    ensures final(self).receivers@ == old(self).receivers@.remove(cookie), //@C05
        final(self).version == old(self).version, final(self).send == old(self).send, final(self).objects@ == old(self).objects@, final(self).events@ == old(self).events@, final(self).all_events@ == old(self).all_events@, final(self).subscriptions@ == old(self).subscriptions@, final(self).senders@ == old(self).senders@, final(self).bus_listeners@ == old(self).bus_listeners@, final(self).calls@ == old(self).calls@, //@C05
fn ConnectionState::receivers
    ensures vx_lists_copied(r, self.receivers@), //@C05,C09
fn ConnectionState::add_bus_listener
    requires !old(self).bus_listeners@.contains(cookie), //@C10,C11
    ensures final(self).bus_listeners@ == old(self).bus_listeners@.insert(cookie), //@C10
        final(self).version == old(self).version, final(self).send == old(self).send, final(self).objects@ == old(self).objects@, final(self).events@ == old(self).events@, final(self).all_events@ == old(self).all_events@, final(self).subscriptions@ == old(self).subscriptions@, final(self).senders@ == old(self).senders@, final(self).receivers@ == old(self).receivers@, final(self).calls@ == old(self).calls@, //@C10
fn ConnectionState::remove_bus_listener
    requires old(self).bus_listeners@.contains(cookie), //@C10,C11
    ensures final(self).bus_listeners@ == old(self).bus_listeners@.remove(cookie), //@C10
        final(self).version == old(self).version, final(self).send == old(self).send, final(self).objects@ == old(self).objects@, final(self).events@ == old(self).events@, final(self).all_events@ == old(self).all_events@, final(self).subscriptions@ == old(self).subscriptions@, final(self).senders@ == old(self).senders@, final(self).receivers@ == old(self).receivers@, final(self).calls@ == old(self).calls@, //@C10
fn ConnectionState::bus_listeners
    ensures vx_lists_copied(r, self.bus_listeners@), //@C10,C09
fn ConnectionState::subscribe_all_events
    ensures final(self).all_events@ == old(self).all_events@.insert(svc_cookie), //@C04
        final(self).version == old(self).version, final(self).send == old(self).send, final(self).objects@ == old(self).objects@, final(self).events@ == old(self).events@, final(self).subscriptions@ == old(self).subscriptions@, final(self).senders@ == old(self).senders@, final(self).receivers@ == old(self).receivers@, final(self).bus_listeners@ == old(self).bus_listeners@, final(self).calls@ == old(self).calls@, //@C04
fn ConnectionState::unsubscribe_all_events
    ensures final(self).all_events@ == old(self).all_events@.remove(svc_cookie), //@C04
        final(self).version == old(self).version, final(self).send == old(self).send, final(self).objects@ == old(self).objects@, final(self).events@ == old(self).events@, final(self).subscriptions@ == old(self).subscriptions@, final(self).senders@ == old(self).senders@, final(self).receivers@ == old(self).receivers@, final(self).bus_listeners@ == old(self).bus_listeners@, final(self).calls@ == old(self).calls@, //@C04
fn ConnectionState::all_event_subscriptions
    ensures vx_lists_copied(r, self.all_events@), //@C04,C09
fn ConnectionState::subscribe
    ensures final(self).subscriptions@ == old(self).subscriptions@.insert(svc_cookie), //@C04
        final(self).version == old(self).version, final(self).send == old(self).send, final(self).objects@ == old(self).objects@, final(self).events@ == old(self).events@, final(self).all_events@ == old(self).all_events@, final(self).senders@ == old(self).senders@, final(self).receivers@ == old(self).receivers@, final(self).bus_listeners@ == old(self).bus_listeners@, final(self).calls@ == old(self).calls@, //@C04
fn ConnectionState::unsubscribe
    ensures final(self).subscriptions@ == old(self).subscriptions@.remove(svc_cookie), //@C04
        final(self).version == old(self).version, final(self).send == old(self).send, final(self).objects@ == old(self).objects@, final(self).events@ == old(self).events@, final(self).all_events@ == old(self).all_events@, final(self).senders@ == old(self).senders@, final(self).receivers@ == old(self).receivers@, final(self).bus_listeners@ == old(self).bus_listeners@, final(self).calls@ == old(self).calls@, //@C04
fn ConnectionState::subscriptions
    ensures vx_lists_copied(r, self.subscriptions@), //@C04,C09
fn ConnectionState::subscribe_event
    requires old(self).wf(), //@C04
    ensures final(self).wf(), //@C04
        final(self).subs(svc_cookie) =~= old(self).subs(svc_cookie).insert(event), //@C04
        forall|s: ServiceCookie| #![trigger final(self).subs(s)] #![trigger vx_csubs(final(self).events@, s)] #![trigger vx_csubs(old(self).events@, s)] s != svc_cookie ==> final(self).subs(s) == old(self).subs(s), //@C04
        final(self).version == old(self).version, final(self).send == old(self).send, final(self).objects@ == old(self).objects@, final(self).all_events@ == old(self).all_events@, final(self).subscriptions@ == old(self).subscriptions@, final(self).senders@ == old(self).senders@, final(self).receivers@ == old(self).receivers@, final(self).bus_listeners@ == old(self).bus_listeners@, final(self).calls@ == old(self).calls@, //@C04
fn ConnectionState::unsubscribe_event
    requires old(self).wf(), //@C04
    ensures final(self).wf(), //@C04
        final(self).subs(svc_cookie) =~= old(self).subs(svc_cookie).remove(event), //@C04
        forall|s: ServiceCookie| #![trigger final(self).subs(s)] #![trigger vx_csubs(final(self).events@, s)] #![trigger vx_csubs(old(self).events@, s)] s != svc_cookie ==> final(self).subs(s) == old(self).subs(s), //@C04
        final(self).version == old(self).version, final(self).send == old(self).send, final(self).objects@ == old(self).objects@, final(self).all_events@ == old(self).all_events@, final(self).subscriptions@ == old(self).subscriptions@, final(self).senders@ == old(self).senders@, final(self).receivers@ == old(self).receivers@, final(self).bus_listeners@ == old(self).bus_listeners@, final(self).calls@ == old(self).calls@, //@C04
fn ConnectionState::event_subscriptions trusted
    ensures r.wf(), r.pos() == 0,
        forall|i: int, j: int| #![trigger r.all()[i], r.all()[j]] 0 <= i < j < r.all().len() ==> r.all()[i] != r.all()[j],
        forall|i: int| #![trigger r.all()[i]] 0 <= i < r.all().len() ==> self.subs(r.all()[i].0).contains(r.all()[i].1),
        forall|s: ServiceCookie, e: u32| #![trigger self.subs(s).contains(e)] self.subs(s).contains(e) ==> exists|i: int| 0 <= i < r.all().len() && (#[trigger] r.all()[i]) == (s, e),
fn ConnectionState::is_subscribed_to_event
    // delivered to a connection iff it is subscribed to the event or to all events of the service
    ensures r == (self.all_events@.contains(svc_cookie) || self.subs(svc_cookie).contains(event)), //@C04
fn ConnectionState::unsubscribe_all
    requires old(self).wf(), //@C04
    ensures final(self).wf(), //@C04
        final(self).subs(svc_cookie) =~= Set::<u32>::empty(), //@C04
        forall|s: ServiceCookie| #![trigger final(self).subs(s)] #![trigger vx_csubs(final(self).events@, s)] #![trigger vx_csubs(old(self).events@, s)] s != svc_cookie ==> final(self).subs(s) == old(self).subs(s), //@C04
        final(self).subscriptions@ == old(self).subscriptions@.remove(svc_cookie), //@C04
        final(self).version == old(self).version, final(self).send == old(self).send, final(self).objects@ == old(self).objects@, final(self).all_events@ == old(self).all_events@, final(self).senders@ == old(self).senders@, final(self).receivers@ == old(self).receivers@, final(self).bus_listeners@ == old(self).bus_listeners@, final(self).calls@ == old(self).calls@, //@C04
fn ConnectionState::add_call
    ensures r == !old(self).calls@.dom().contains(caller_serial), //@C02
        r ==> final(self).calls@ == old(self).calls@.insert(caller_serial, (callee_serial, callee_id)), //@C02
        !r ==> final(self).calls@ == old(self).calls@, //@C02
        final(self).version == old(self).version, final(self).send == old(self).send, final(self).objects@ == old(self).objects@, final(self).events@ == old(self).events@, final(self).all_events@ == old(self).all_events@, final(self).subscriptions@ == old(self).subscriptions@, final(self).senders@ == old(self).senders@, final(self).receivers@ == old(self).receivers@, final(self).bus_listeners@ == old(self).bus_listeners@, //@C02
fn ConnectionState::remove_call
    requires old(self).calls@.dom().contains(caller_serial), //@C02,C11
    ensures final(self).calls@ == old(self).calls@.remove(caller_serial), //@C02
        final(self).version == old(self).version, final(self).send == old(self).send, final(self).objects@ == old(self).objects@, final(self).events@ == old(self).events@, final(self).all_events@ == old(self).all_events@, final(self).subscriptions@ == old(self).subscriptions@, final(self).senders@ == old(self).senders@, final(self).receivers@ == old(self).receivers@, final(self).bus_listeners@ == old(self).bus_listeners@, //@C02
fn ConnectionState::call_data
    ensures r is Some <==> self.calls@.dom().contains(caller_serial), //@C02
        r is Some ==> (r->0).0 == self.calls@[caller_serial].0 && *(r->0).1 == self.calls@[caller_serial].1, //@C02
fn ConnectionState::calls
    ensures r.wf(), r.pos() == 0,
        exists|ks: Seq<u32>| #[trigger] vx_calls_of(self.calls@, ks, r.all()), //@C02
text
    pub open spec fn vx_calls_of(m: Map<u32, (u32, ConnectionId)>, ks: Seq<u32>, vs: Seq<(u32, &ConnectionId)>) -> bool {
        &&& ks.len() == vs.len()
        &&& ks.no_duplicates()
        &&& forall|i: int| #![trigger ks[i]] #![trigger vs[i]] 0 <= i < ks.len() ==> m.dom().contains(ks[i]) && m[ks[i]].0 == vs[i].0 && m[ks[i]].1 == *vs[i].1
        &&& forall|k: u32| #![trigger m.dom().contains(k)] m.dom().contains(k) ==> ks.contains(k)
    }
loop ConnectionState::calls 0
    invariant
        vx_it0.wf(), vx_vec@.len() == vx_it0.pos(),
        vx_it0.all() == vx_i0.all(), vx_calls_iter(self.calls@, vx_i0),
        vx_calls_prefix(vx_vec@, vx_it0.all()),
    ensures vx_vec@.len() == vx_it0.all().len(),
    decreases vx_it0.left(),
hint ConnectionState::calls loop0.before
    let ghost vx_i0 = vx_it0;
hint ConnectionState::calls loop0.after
    proof { let ks = Seq::new(vx_i0.all().len(), |i: int| vx_key_at::<u32, (u32, ConnectionId)>(vx_i0, i));
        assert forall|k: u32| #![trigger self.calls@.dom().contains(k)] self.calls@.dom().contains(k) implies ks.contains(k) by { let i = vx_idx_of::<u32, (u32, ConnectionId)>(vx_i0, k); assert(ks[i] == k); }
        assert(vx_calls_of(self.calls@, ks, vx_vec@)); }
text
    pub open spec fn vx_calls_iter(m: Map<u32, (u32, ConnectionId)>, r: VxIter<&(u32, ConnectionId)>) -> bool {
        &&& forall|i: int| #![trigger r.all()[i]] #![trigger vx_key_at::<u32, (u32, ConnectionId)>(r, i)] 0 <= i < r.all().len() ==> m.dom().contains(vx_key_at::<u32, (u32, ConnectionId)>(r, i)) && m[vx_key_at::<u32, (u32, ConnectionId)>(r, i)] == *r.all()[i] && vx_idx_of::<u32, (u32, ConnectionId)>(r, vx_key_at::<u32, (u32, ConnectionId)>(r, i)) == i
        &&& forall|k: u32| #![trigger m.dom().contains(k)] m.dom().contains(k) ==> 0 <= vx_idx_of::<u32, (u32, ConnectionId)>(r, k) < r.all().len() && vx_key_at::<u32, (u32, ConnectionId)>(r, vx_idx_of::<u32, (u32, ConnectionId)>(r, k)) == k
    }
text
    pub open spec fn vx_calls_prefix(v: Seq<(u32, &ConnectionId)>, a: Seq<&(u32, ConnectionId)>) -> bool {
        v.len() <= a.len() && forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i].0 == a[i].0 && *v[i].1 == a[i].1
    }
