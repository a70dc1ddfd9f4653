// Contracts of broker/src/broker/state.rs: the queues of deferred work (C09)
source broker/src/broker/state.rs
fn State::new
    ensures !r.shutdown_now, !r.shutdown_idle, r.idle(), //@C09
post
    impl State { pub open spec fn idle(self) -> bool { self.remove_conns@.len() == 0 && self.remove_function_calls@.len() == 0 && self.services_destroyed@.len() == 0 && self.unsubscribe_event@.len() == 0 && self.unsubscribe_all_events@.len() == 0 && self.create_object@.len() == 0 && self.destroy_object@.len() == 0 && self.create_service@.len() == 0 && self.destroy_service@.len() == 0 && self.abort_function_calls@.len() == 0 } }
fn State::has_work_left
    // no queue is forgotten
    ensures r == !self.idle(), //@C09,C02,C04,C10
fn State::shutdown_now
    ensures r == self.shutdown_now, //@C09
fn State::set_shutdown_now
    ensures final(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_conns == old(self).remove_conns, final(self).remove_function_calls == old(self).remove_function_calls, final(self).services_destroyed == old(self).services_destroyed, final(self).unsubscribe_event == old(self).unsubscribe_event, final(self).unsubscribe_all_events == old(self).unsubscribe_all_events, final(self).create_object == old(self).create_object, final(self).destroy_object == old(self).destroy_object, final(self).create_service == old(self).create_service, final(self).destroy_service == old(self).destroy_service, final(self).abort_function_calls == old(self).abort_function_calls, //@C09
fn State::shutdown_idle
    ensures r == self.shutdown_idle, //@C09
fn State::set_shutdown_idle
    ensures final(self).shutdown_idle, final(self).shutdown_now == old(self).shutdown_now, final(self).remove_conns == old(self).remove_conns, final(self).remove_function_calls == old(self).remove_function_calls, final(self).services_destroyed == old(self).services_destroyed, final(self).unsubscribe_event == old(self).unsubscribe_event, final(self).unsubscribe_all_events == old(self).unsubscribe_all_events, final(self).create_object == old(self).create_object, final(self).destroy_object == old(self).destroy_object, final(self).create_service == old(self).create_service, final(self).destroy_service == old(self).destroy_service, final(self).abort_function_calls == old(self).abort_function_calls, //@C09
fn State::push_remove_conn
    ensures final(self).remove_conns@ == old(self).remove_conns@.push((id, send_shutdown)), final(self).shutdown_now == old(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_function_calls == old(self).remove_function_calls, final(self).services_destroyed == old(self).services_destroyed, final(self).unsubscribe_event == old(self).unsubscribe_event, final(self).unsubscribe_all_events == old(self).unsubscribe_all_events, final(self).create_object == old(self).create_object, final(self).destroy_object == old(self).destroy_object, final(self).create_service == old(self).create_service, final(self).destroy_service == old(self).destroy_service, final(self).abort_function_calls == old(self).abort_function_calls, //@C09
fn State::pop_remove_conn
    ensures r is None <==> old(self).remove_conns@.len() == 0, //@C09
        r is None ==> final(self).remove_conns@ == old(self).remove_conns@, //@C09
        r is Some ==> r->0 == old(self).remove_conns@.last() && final(self).remove_conns@ == old(self).remove_conns@.drop_last(), //@C09
        final(self).shutdown_now == old(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_function_calls == old(self).remove_function_calls, final(self).services_destroyed == old(self).services_destroyed, final(self).unsubscribe_event == old(self).unsubscribe_event, final(self).unsubscribe_all_events == old(self).unsubscribe_all_events, final(self).create_object == old(self).create_object, final(self).destroy_object == old(self).destroy_object, final(self).create_service == old(self).create_service, final(self).destroy_service == old(self).destroy_service, final(self).abort_function_calls == old(self).abort_function_calls, //@C09
fn State::push_remove_function_call
    ensures final(self).remove_function_calls@ == old(self).remove_function_calls@.push((serial, conn_id, res)), final(self).shutdown_now == old(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_conns == old(self).remove_conns, final(self).services_destroyed == old(self).services_destroyed, final(self).unsubscribe_event == old(self).unsubscribe_event, final(self).unsubscribe_all_events == old(self).unsubscribe_all_events, final(self).create_object == old(self).create_object, final(self).destroy_object == old(self).destroy_object, final(self).create_service == old(self).create_service, final(self).destroy_service == old(self).destroy_service, final(self).abort_function_calls == old(self).abort_function_calls, //@C02,C09
fn State::pop_remove_function_call
    ensures r is None <==> old(self).remove_function_calls@.len() == 0, //@C02,C09
        r is None ==> final(self).remove_function_calls@ == old(self).remove_function_calls@, //@C02,C09
        r is Some ==> r->0 == old(self).remove_function_calls@.last() && final(self).remove_function_calls@ == old(self).remove_function_calls@.drop_last(), //@C02,C09
        final(self).shutdown_now == old(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_conns == old(self).remove_conns, final(self).services_destroyed == old(self).services_destroyed, final(self).unsubscribe_event == old(self).unsubscribe_event, final(self).unsubscribe_all_events == old(self).unsubscribe_all_events, final(self).create_object == old(self).create_object, final(self).destroy_object == old(self).destroy_object, final(self).create_service == old(self).create_service, final(self).destroy_service == old(self).destroy_service, final(self).abort_function_calls == old(self).abort_function_calls, //@C02,C09
fn State::push_services_destroyed
    ensures final(self).services_destroyed@ == old(self).services_destroyed@.push((conn_id, svc_cookie)), final(self).shutdown_now == old(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_conns == old(self).remove_conns, final(self).remove_function_calls == old(self).remove_function_calls, final(self).unsubscribe_event == old(self).unsubscribe_event, final(self).unsubscribe_all_events == old(self).unsubscribe_all_events, final(self).create_object == old(self).create_object, final(self).destroy_object == old(self).destroy_object, final(self).create_service == old(self).create_service, final(self).destroy_service == old(self).destroy_service, final(self).abort_function_calls == old(self).abort_function_calls, //@C04,C09
fn State::pop_services_destroyed
    ensures r is None <==> old(self).services_destroyed@.len() == 0, //@C04,C09
        r is None ==> final(self).services_destroyed@ == old(self).services_destroyed@, //@C04,C09
        r is Some ==> r->0 == old(self).services_destroyed@.last() && final(self).services_destroyed@ == old(self).services_destroyed@.drop_last(), //@C04,C09
        final(self).shutdown_now == old(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_conns == old(self).remove_conns, final(self).remove_function_calls == old(self).remove_function_calls, final(self).unsubscribe_event == old(self).unsubscribe_event, final(self).unsubscribe_all_events == old(self).unsubscribe_all_events, final(self).create_object == old(self).create_object, final(self).destroy_object == old(self).destroy_object, final(self).create_service == old(self).create_service, final(self).destroy_service == old(self).destroy_service, final(self).abort_function_calls == old(self).abort_function_calls, //@C04,C09
fn State::push_unsubscribe_event
    ensures final(self).unsubscribe_event@ == old(self).unsubscribe_event@.push((conn_id, svc_cookie, event)), final(self).shutdown_now == old(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_conns == old(self).remove_conns, final(self).remove_function_calls == old(self).remove_function_calls, final(self).services_destroyed == old(self).services_destroyed, final(self).unsubscribe_all_events == old(self).unsubscribe_all_events, final(self).create_object == old(self).create_object, final(self).destroy_object == old(self).destroy_object, final(self).create_service == old(self).create_service, final(self).destroy_service == old(self).destroy_service, final(self).abort_function_calls == old(self).abort_function_calls, //@C04,C09
fn State::pop_unsubscribe_event
    ensures r is None <==> old(self).unsubscribe_event@.len() == 0, //@C04,C09
        r is None ==> final(self).unsubscribe_event@ == old(self).unsubscribe_event@, //@C04,C09
        r is Some ==> r->0 == old(self).unsubscribe_event@.last() && final(self).unsubscribe_event@ == old(self).unsubscribe_event@.drop_last(), //@C04,C09
        final(self).shutdown_now == old(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_conns == old(self).remove_conns, final(self).remove_function_calls == old(self).remove_function_calls, final(self).services_destroyed == old(self).services_destroyed, final(self).unsubscribe_all_events == old(self).unsubscribe_all_events, final(self).create_object == old(self).create_object, final(self).destroy_object == old(self).destroy_object, final(self).create_service == old(self).create_service, final(self).destroy_service == old(self).destroy_service, final(self).abort_function_calls == old(self).abort_function_calls, //@C04,C09
fn State::push_unsubscribe_all_events
    ensures final(self).unsubscribe_all_events@ == old(self).unsubscribe_all_events@.push((conn_id, svc_cookie)), final(self).shutdown_now == old(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_conns == old(self).remove_conns, final(self).remove_function_calls == old(self).remove_function_calls, final(self).services_destroyed == old(self).services_destroyed, final(self).unsubscribe_event == old(self).unsubscribe_event, final(self).create_object == old(self).create_object, final(self).destroy_object == old(self).destroy_object, final(self).create_service == old(self).create_service, final(self).destroy_service == old(self).destroy_service, final(self).abort_function_calls == old(self).abort_function_calls, //@C04,C09
fn State::pop_unsubscribe_all_events
    ensures r is None <==> old(self).unsubscribe_all_events@.len() == 0, //@C04,C09
        r is None ==> final(self).unsubscribe_all_events@ == old(self).unsubscribe_all_events@, //@C04,C09
        r is Some ==> r->0 == old(self).unsubscribe_all_events@.last() && final(self).unsubscribe_all_events@ == old(self).unsubscribe_all_events@.drop_last(), //@C04,C09
        final(self).shutdown_now == old(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_conns == old(self).remove_conns, final(self).remove_function_calls == old(self).remove_function_calls, final(self).services_destroyed == old(self).services_destroyed, final(self).unsubscribe_event == old(self).unsubscribe_event, final(self).create_object == old(self).create_object, final(self).destroy_object == old(self).destroy_object, final(self).create_service == old(self).create_service, final(self).destroy_service == old(self).destroy_service, final(self).abort_function_calls == old(self).abort_function_calls, //@C04,C09
fn State::push_create_object
    ensures final(self).create_object@ == old(self).create_object@.push(object), final(self).shutdown_now == old(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_conns == old(self).remove_conns, final(self).remove_function_calls == old(self).remove_function_calls, final(self).services_destroyed == old(self).services_destroyed, final(self).unsubscribe_event == old(self).unsubscribe_event, final(self).unsubscribe_all_events == old(self).unsubscribe_all_events, final(self).destroy_object == old(self).destroy_object, final(self).create_service == old(self).create_service, final(self).destroy_service == old(self).destroy_service, final(self).abort_function_calls == old(self).abort_function_calls, //@C10
fn State::pop_create_object
    ensures r is None <==> old(self).create_object@.len() == 0, //@C10
        r is None ==> final(self).create_object@ == old(self).create_object@, //@C10
        r is Some ==> r->0 == old(self).create_object@.last() && final(self).create_object@ == old(self).create_object@.drop_last(), //@C10
        final(self).shutdown_now == old(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_conns == old(self).remove_conns, final(self).remove_function_calls == old(self).remove_function_calls, final(self).services_destroyed == old(self).services_destroyed, final(self).unsubscribe_event == old(self).unsubscribe_event, final(self).unsubscribe_all_events == old(self).unsubscribe_all_events, final(self).destroy_object == old(self).destroy_object, final(self).create_service == old(self).create_service, final(self).destroy_service == old(self).destroy_service, final(self).abort_function_calls == old(self).abort_function_calls, //@C10
fn State::push_destroy_object
    ensures final(self).destroy_object@ == old(self).destroy_object@.push(object), final(self).shutdown_now == old(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_conns == old(self).remove_conns, final(self).remove_function_calls == old(self).remove_function_calls, final(self).services_destroyed == old(self).services_destroyed, final(self).unsubscribe_event == old(self).unsubscribe_event, final(self).unsubscribe_all_events == old(self).unsubscribe_all_events, final(self).create_object == old(self).create_object, final(self).create_service == old(self).create_service, final(self).destroy_service == old(self).destroy_service, final(self).abort_function_calls == old(self).abort_function_calls, //@C10
fn State::pop_destroy_object
    ensures r is None <==> old(self).destroy_object@.len() == 0, //@C10
        r is None ==> final(self).destroy_object@ == old(self).destroy_object@, //@C10
        r is Some ==> r->0 == old(self).destroy_object@.last() && final(self).destroy_object@ == old(self).destroy_object@.drop_last(), //@C10
        final(self).shutdown_now == old(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_conns == old(self).remove_conns, final(self).remove_function_calls == old(self).remove_function_calls, final(self).services_destroyed == old(self).services_destroyed, final(self).unsubscribe_event == old(self).unsubscribe_event, final(self).unsubscribe_all_events == old(self).unsubscribe_all_events, final(self).create_object == old(self).create_object, final(self).create_service == old(self).create_service, final(self).destroy_service == old(self).destroy_service, final(self).abort_function_calls == old(self).abort_function_calls, //@C10
fn State::push_create_service
    ensures final(self).create_service@ == old(self).create_service@.push(service), final(self).shutdown_now == old(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_conns == old(self).remove_conns, final(self).remove_function_calls == old(self).remove_function_calls, final(self).services_destroyed == old(self).services_destroyed, final(self).unsubscribe_event == old(self).unsubscribe_event, final(self).unsubscribe_all_events == old(self).unsubscribe_all_events, final(self).create_object == old(self).create_object, final(self).destroy_object == old(self).destroy_object, final(self).destroy_service == old(self).destroy_service, final(self).abort_function_calls == old(self).abort_function_calls, //@C10
fn State::pop_create_service
    ensures r is None <==> old(self).create_service@.len() == 0, //@C10
        r is None ==> final(self).create_service@ == old(self).create_service@, //@C10
        r is Some ==> r->0 == old(self).create_service@.last() && final(self).create_service@ == old(self).create_service@.drop_last(), //@C10
        final(self).shutdown_now == old(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_conns == old(self).remove_conns, final(self).remove_function_calls == old(self).remove_function_calls, final(self).services_destroyed == old(self).services_destroyed, final(self).unsubscribe_event == old(self).unsubscribe_event, final(self).unsubscribe_all_events == old(self).unsubscribe_all_events, final(self).create_object == old(self).create_object, final(self).destroy_object == old(self).destroy_object, final(self).destroy_service == old(self).destroy_service, final(self).abort_function_calls == old(self).abort_function_calls, //@C10
fn State::push_destroy_service
    ensures final(self).destroy_service@ == old(self).destroy_service@.push(service), final(self).shutdown_now == old(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_conns == old(self).remove_conns, final(self).remove_function_calls == old(self).remove_function_calls, final(self).services_destroyed == old(self).services_destroyed, final(self).unsubscribe_event == old(self).unsubscribe_event, final(self).unsubscribe_all_events == old(self).unsubscribe_all_events, final(self).create_object == old(self).create_object, final(self).destroy_object == old(self).destroy_object, final(self).create_service == old(self).create_service, final(self).abort_function_calls == old(self).abort_function_calls, //@C10
fn State::pop_destroy_service
    ensures r is None <==> old(self).destroy_service@.len() == 0, //@C10
        r is None ==> final(self).destroy_service@ == old(self).destroy_service@, //@C10
        r is Some ==> r->0 == old(self).destroy_service@.last() && final(self).destroy_service@ == old(self).destroy_service@.drop_last(), //@C10
        final(self).shutdown_now == old(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_conns == old(self).remove_conns, final(self).remove_function_calls == old(self).remove_function_calls, final(self).services_destroyed == old(self).services_destroyed, final(self).unsubscribe_event == old(self).unsubscribe_event, final(self).unsubscribe_all_events == old(self).unsubscribe_all_events, final(self).create_object == old(self).create_object, final(self).destroy_object == old(self).destroy_object, final(self).create_service == old(self).create_service, final(self).abort_function_calls == old(self).abort_function_calls, //@C10
fn State::push_abort_function_call
    ensures final(self).abort_function_calls@ == old(self).abort_function_calls@.push((callee_serial, callee_id)), final(self).shutdown_now == old(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_conns == old(self).remove_conns, final(self).remove_function_calls == old(self).remove_function_calls, final(self).services_destroyed == old(self).services_destroyed, final(self).unsubscribe_event == old(self).unsubscribe_event, final(self).unsubscribe_all_events == old(self).unsubscribe_all_events, final(self).create_object == old(self).create_object, final(self).destroy_object == old(self).destroy_object, final(self).create_service == old(self).create_service, final(self).destroy_service == old(self).destroy_service, //@C02,C09
fn State::pop_abort_function_call
    ensures r is None <==> old(self).abort_function_calls@.len() == 0, //@C02,C09
        r is None ==> final(self).abort_function_calls@ == old(self).abort_function_calls@, //@C02,C09
        r is Some ==> r->0 == old(self).abort_function_calls@.last() && final(self).abort_function_calls@ == old(self).abort_function_calls@.drop_last(), //@C02,C09
        final(self).shutdown_now == old(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_conns == old(self).remove_conns, final(self).remove_function_calls == old(self).remove_function_calls, final(self).services_destroyed == old(self).services_destroyed, final(self).unsubscribe_event == old(self).unsubscribe_event, final(self).unsubscribe_all_events == old(self).unsubscribe_all_events, final(self).create_object == old(self).create_object, final(self).destroy_object == old(self).destroy_object, final(self).create_service == old(self).create_service, final(self).destroy_service == old(self).destroy_service, //@C02,C09
fn State::push_remove_conns trusted
    @sig pub fn push_remove_conns(&mut self, ids: VxIter<(ConnectionId, bool)>)
    ensures final(self).remove_conns@ == old(self).remove_conns@ + ids.all().skip(ids.pos()), final(self).shutdown_now == old(self).shutdown_now, final(self).shutdown_idle == old(self).shutdown_idle, final(self).remove_function_calls == old(self).remove_function_calls, final(self).services_destroyed == old(self).services_destroyed, final(self).unsubscribe_event == old(self).unsubscribe_event, final(self).unsubscribe_all_events == old(self).unsubscribe_all_events, final(self).create_object == old(self).create_object, final(self).destroy_object == old(self).destroy_object, final(self).create_service == old(self).create_service, final(self).destroy_service == old(self).destroy_service, final(self).abort_function_calls == old(self).abort_function_calls,
