// Contracts of broker/src/broker.rs
include channel.spec
include bus_listener.spec
source broker/src/versioned_message.rs
only =VersionedMessage VersionedMessage::new VersionedMessage::with_version
source core/src/service_info.rs
only =ServiceInfo ServiceInfo::new ServiceInfo::set_subscribe_all ServiceInfo::subscribe_all ServiceInfo::version
derive ServiceInfo Clone, Copy, PartialEq, Eq, Structural
source broker/src/broker/statistics.rs
only =BrokerStatistics
source broker/src/broker.rs
only =Broker =PendingFunctionCall Broker::create_object Broker::create_service Broker::create_service2 Broker::remove_service Broker::remove_object Broker::destroy_object Broker::destroy_service Broker::call_function Broker::call_function2 Broker::call_function_impl Broker::call_function_reply Broker::abort_function_call Broker::abort_call Broker::subscribe_event Broker::unsubscribe_event Broker::emit_event Broker::query_service_version Broker::query_service_info Broker::sync Broker::subscribe_service Broker::unsubscribe_service Broker::subscribe_all_events Broker::unsubscribe_all_events Broker::remove_event_subscription Broker::remove_all_events_subscription Broker::remove_subscription Broker::create_channel Broker::close_channel_end Broker::claim_channel_end Broker::add_channel_capacity Broker::send_item Broker::remove_channel_end Broker::create_bus_listener Broker::destroy_bus_listener Broker::remove_bus_listener Broker::add_bus_listener_filter Broker::remove_bus_listener_filter Broker::clear_bus_listener_filters Broker::stop_bus_listener Broker::emit_bus_event Broker::shutdown_connection Broker::remove_introspection_conn Broker::process_loop_result Broker::start_bus_listener Broker::handle_message Broker::register_introspection Broker::query_introspection Broker::query_introspection_reply
fn VersionedMessage::new trusted
    @sig pub fn new<T: VxMsg>(msg: T, version: Option<ProtocolVersion>) -> (r: Self)
    ensures r.msg == msg.vx_m(), r.version == version,
fn VersionedMessage::with_version
    @sig pub fn with_version<T: VxMsg>(msg: T, version: ProtocolVersion) -> (r: Self)
    ensures r.msg == msg.vx_m(), r.version == Some(version),
fn ServiceInfo::new
    ensures r.version == version, r.type_id is None, r.subscribe_all is None,
fn ServiceInfo::set_subscribe_all
    ensures r.version == self.version, r.type_id == self.type_id, r.subscribe_all == Some(subscribe_all),
fn ServiceInfo::version
    ensures r == self.version,
fn ServiceInfo::subscribe_all
    ensures r == self.subscribe_all,
fn ConnectionState::send trusted
    @sig pub fn send(&self, msg: VersionedMessage, vx_out: &mut VxOut) -> (r: Result<(), ()>)
    // a message is only sent to a connection that speaks a version that has it
    requires vx_ge(self.version, vx_since(msg.msg)), //@C12
    ensures final(vx_out).log@ == old(vx_out).log@.push((self.send.owner@, msg.msg, msg.version)),
text
    pub open spec fn vx_oc(m: HashMap<ObjectCookie, ObjectUuid>) -> Set<ObjectCookie> { m@.dom() }
    pub open spec fn vx_sc(m: HashMap<ServiceCookie, (ObjectId, ServiceUuid, ServiceInfo)>, c: HashMap<ConnectionId, ConnectionState>) -> (Set<ServiceCookie>, Map<ConnectionId, ConnectionState>) { (m@.dom(), c@) }
    impl ObjectCookie {
        // a random id has never been used before
        #[verifier::external_body]
        pub fn new_v4(used: Ghost<Set<ObjectCookie>>) -> (r: Self) ensures !used@.contains(r) { unimplemented!() }
    }
    impl ServiceCookie {
        #[verifier::external_body]
        pub fn new_v4(used: Ghost<(Set<ServiceCookie>, Map<ConnectionId, ConnectionState>)>) -> (r: Self)
            ensures !used@.0.contains(r),
                forall|c: ConnectionId| #![trigger used@.1[c]] used@.1.dom().contains(c) ==> !used@.1[c].events@.dom().contains(r) && !used@.1[c].all_events@.contains(r) && !used@.1[c].subscriptions@.contains(r) { unimplemented!() }
    }
include broker_inv.spec
include broker_reg.spec
include broker_call.spec
include broker_subs.spec
include broker_chan.spec
include broker_bus.spec
include broker_end.spec
include broker_loop.spec
include broker_start.spec
