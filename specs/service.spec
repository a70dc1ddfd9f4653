// Contracts of broker/src/broker/service.rs and object.rs (C02, C03, C04)
source broker/src/broker/service.rs
post
    pub open spec fn vx_ssubs(m: Map<u32, HashSet<ConnectionId>>, e: u32) -> Set<ConnectionId> { if m.dom().contains(e) { m[e]@ } else { Set::empty() } }
    impl Service {
        pub open spec fn subs(self, e: u32) -> Set<ConnectionId> { vx_ssubs(self.events@, e) }
        /// an event without subscribers is not in the map
        pub open spec fn wf(self) -> bool { forall|e: u32| #![trigger self.events@[e]] self.events@.dom().contains(e) ==> !(self.events@[e]@ =~= Set::<ConnectionId>::empty()) }
        pub open spec fn same_ids(self, o: Self) -> bool { self.cookie == o.cookie && self.object_cookie == o.object_cookie }
        /// everything but the per-event subscriptions
        pub open spec fn same_but_events(self, o: Self) -> bool { self.same_ids(o) && self.function_calls@ == o.function_calls@ && self.all_events@ == o.all_events@ && self.subscriptions@ == o.subscriptions@ }
    }
fn Service::new
    ensures r.cookie == cookie, r.object_cookie == object_cookie, r.wf(), //@C03
        r.function_calls@ == Set::<u32>::empty(), //@C02
        r.events@ == Map::<u32, HashSet<ConnectionId>>::empty(), r.all_events@ == Set::<ConnectionId>::empty(), r.subscriptions@ == Set::<ConnectionId>::empty(), //@C04
fn Service::cookie
    ensures r == self.cookie, //@C03
fn Service::object_cookie
    ensures r == self.object_cookie, //@C03
fn Service::add_function_call
    requires !old(self).function_calls@.contains(serial), //@C02,C11
    ensures final(self).function_calls@ == old(self).function_calls@.insert(serial), //@C02
        final(self).same_ids(*old(self)), final(self).events@ == old(self).events@, final(self).all_events@ == old(self).all_events@, final(self).subscriptions@ == old(self).subscriptions@, //@C02
fn Service::remove_function_call
    requires old(self).function_calls@.contains(serial), //@C02,C11
    ensures final(self).function_calls@ == old(self).function_calls@.remove(serial), //@C02
        final(self).same_ids(*old(self)), final(self).events@ == old(self).events@, final(self).all_events@ == old(self).all_events@, final(self).subscriptions@ == old(self).subscriptions@, //@C02
fn Service::function_calls
    ensures vx_lists_copied(r, self.function_calls@), //@C02,C03
fn Service::subscribe_event
    requires old(self).wf(), //@C04
    ensures final(self).wf(), //@C04
        // the owner is told exactly when the event had no subscriber
        r == (old(self).subs(event) =~= Set::<ConnectionId>::empty()), //@C04
        final(self).subs(event) =~= old(self).subs(event).insert(conn_id), //@C04
        forall|e: u32| #![trigger final(self).subs(e)] #![trigger vx_ssubs(final(self).events@, e)] #![trigger vx_ssubs(old(self).events@, e)] e != event ==> final(self).subs(e) == old(self).subs(e), //@C04
        final(self).same_but_events(*old(self)), //@C04
        final(self).events@.dom() =~= old(self).events@.dom().insert(event), //@C04
fn Service::unsubscribe_event
    requires old(self).wf(), //@C04
    ensures final(self).wf(), //@C04
        r == (!(old(self).subs(event) =~= Set::<ConnectionId>::empty()) && final(self).subs(event) =~= Set::<ConnectionId>::empty()), //@C04
        final(self).subs(event) =~= old(self).subs(event).remove(*conn_id), //@C04
        forall|e: u32| #![trigger final(self).subs(e)] #![trigger vx_ssubs(final(self).events@, e)] #![trigger vx_ssubs(old(self).events@, e)] e != event ==> final(self).subs(e) == old(self).subs(e), //@C04
        final(self).same_but_events(*old(self)), //@C04
fn Service::subscribe_all_events
    ensures r == (old(self).all_events@ =~= Set::<ConnectionId>::empty()), //@C04
        final(self).all_events@ == old(self).all_events@.insert(conn_id), //@C04
        final(self).same_ids(*old(self)), final(self).events@ == old(self).events@, final(self).subscriptions@ == old(self).subscriptions@, final(self).function_calls@ == old(self).function_calls@, //@C04
fn Service::unsubscribe_all_events
    ensures r == (!(old(self).all_events@ =~= Set::<ConnectionId>::empty()) && final(self).all_events@ =~= Set::<ConnectionId>::empty()), //@C04
        final(self).all_events@ == old(self).all_events@.remove(*conn_id), //@C04
        final(self).same_ids(*old(self)), final(self).events@ == old(self).events@, final(self).subscriptions@ == old(self).subscriptions@, final(self).function_calls@ == old(self).function_calls@, //@C04
fn Service::subscribe
    ensures final(self).subscriptions@ == old(self).subscriptions@.insert(conn_id), //@C04
        final(self).same_ids(*old(self)), final(self).events@ == old(self).events@, final(self).all_events@ == old(self).all_events@, final(self).function_calls@ == old(self).function_calls@, //@C04
fn Service::unsubscribe
    ensures final(self).subscriptions@ == old(self).subscriptions@.remove(*conn_id), //@C04
        final(self).same_ids(*old(self)), final(self).events@ == old(self).events@, final(self).all_events@ == old(self).all_events@, final(self).function_calls@ == old(self).function_calls@, //@C04
fn Service::subscribed_conn_ids
    ensures r.wf(), r.pos() == 0,
        // each connection once
        forall|i: int, j: int| #![trigger r.all()[i], r.all()[j]] 0 <= i < j < r.all().len() ==> *r.all()[i] != *r.all()[j], //@C04
        forall|i: int| #![trigger r.all()[i]] 0 <= i < r.all().len() ==> (self.subscriptions@.contains(*r.all()[i]) || exists|e: u32| #![trigger self.events@[e]] self.events@.dom().contains(e) && self.events@[e]@.contains(*r.all()[i])), //@C04
        forall|c: ConnectionId| #![trigger self.subscriptions@.contains(c)] self.subscriptions@.contains(c) ==> exists|i: int| 0 <= i < r.all().len() && *(#[trigger] r.all()[i]) == c, //@C04
        forall|c: ConnectionId, e: u32| #![trigger self.events@[e]@.contains(c)] self.events@.dom().contains(e) && self.events@[e]@.contains(c) ==> exists|i: int| 0 <= i < r.all().len() && *(#[trigger] r.all()[i]) == c, //@C04
source broker/src/broker/object.rs
fn Object::new
    ensures r.conn_id == conn_id, r.cookie == cookie, r.svcs@ == Set::<ServiceCookie>::empty(), //@C03
fn Object::conn_id
    ensures *r == self.conn_id, //@C03
fn Object::cookie
    ensures r == self.cookie, //@C03
fn Object::add_service
    requires !old(self).svcs@.contains(cookie), //@C03,C11
    ensures final(self).svcs@ == old(self).svcs@.insert(cookie), final(self).conn_id == old(self).conn_id, final(self).cookie == old(self).cookie, //@C03
fn Object::remove_service
    requires old(self).svcs@.contains(cookie), //@C03,C11
    ensures final(self).svcs@ == old(self).svcs@.remove(cookie), final(self).conn_id == old(self).conn_id, final(self).cookie == old(self).cookie, //@C03
fn Object::services
    ensures vx_lists_copied(r, self.svcs@), //@C03
