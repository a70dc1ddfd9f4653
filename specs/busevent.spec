// Contracts of the filter predicates of core/src/bus_listener.rs (C10, C19)
source core/src/bus_listener.rs
only BusEvent BusListenerScope BusListenerFilter BusListenerServiceFilter
skip BusListenerFilter::serialize_into_message BusListenerFilter::deserialize_from_message
derive BusEvent Clone, Copy, PartialEq, Eq, Structural
derive BusListenerScope Clone, Copy, PartialEq, Eq, Structural
derive BusListenerFilter Clone, Copy, PartialEq, Eq, Structural
derive BusListenerServiceFilter Clone, Copy, PartialEq, Eq, Structural
post
    pub open spec fn vx_filter_object(f: BusListenerFilter, o: ObjectId) -> bool { f is Object && (f->Object_0 is None || f->Object_0 == Some(o.uuid)) }
    pub open spec fn vx_filter_service(f: BusListenerFilter, s: ServiceId) -> bool {
        f is Service && (f->Service_0.object is None || f->Service_0.object == Some(s.object_id.uuid)) && (f->Service_0.service is None || f->Service_0.service == Some(s.uuid))
    }
    pub open spec fn vx_filter_event(f: BusListenerFilter, e: BusEvent) -> bool {
        match e {
            BusEvent::ObjectCreated(o) => vx_filter_object(f, o), BusEvent::ObjectDestroyed(o) => vx_filter_object(f, o),
            BusEvent::ServiceCreated(s) => vx_filter_service(f, s), BusEvent::ServiceDestroyed(s) => vx_filter_service(f, s),
        }
    }
    pub open spec fn vx_specific(f: BusListenerFilter) -> bool { f is Service && f->Service_0.object is Some && f->Service_0.service is Some }
fn BusListenerScope::includes_current
    ensures r == (self is Current || self is All), //@C10,C19
fn BusListenerScope::includes_new
    ensures r == (self is New || self is All), //@C10,C19
fn BusListenerFilter::matches_object
    ensures r == vx_filter_object(self, object), //@C10,C19
fn BusListenerFilter::matches_service
    ensures r == vx_filter_service(self, service), //@C10,C19
fn BusListenerFilter::matches_event
    ensures r == vx_filter_event(self, event), //@C10,C19
fn BusListenerServiceFilter::matches
    ensures r == vx_filter_service(BusListenerFilter::Service(self), id), //@C10,C19
fn BusListenerFilter::any_object
    ensures r == BusListenerFilter::Object(None), //@C10,C19
fn BusListenerFilter::object
    ensures r == BusListenerFilter::Object(Some(object)), //@C10,C19
fn BusListenerFilter::service
    ensures r == BusListenerFilter::Service(filter), //@C10,C19
fn BusListenerFilter::any_object_any_service
    ensures r is Service, r->Service_0.object is None, r->Service_0.service is None, //@C10,C19
fn BusListenerFilter::specific_object_any_service
    ensures r is Service, r->Service_0.object == Some(object), r->Service_0.service is None, //@C10,C19
fn BusListenerFilter::any_object_specific_service
    ensures r is Service, r->Service_0.object is None, r->Service_0.service == Some(service), //@C10,C19
fn BusListenerFilter::specific_object_and_service
    ensures r is Service, r->Service_0.object == Some(object), r->Service_0.service == Some(service), //@C10,C19
fn BusListenerServiceFilter::any
    ensures r.object is None, r.service is None, //@C10,C19
fn BusListenerServiceFilter::with_object
    ensures r.object == Some(object), r.service is None, //@C10,C19
fn BusListenerServiceFilter::with_service
    ensures r.object is None, r.service == Some(service), //@C10,C19
fn BusListenerServiceFilter::with_object_and_service
    ensures r.object == Some(object), r.service == Some(service), //@C10,C19
