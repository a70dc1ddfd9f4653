// Message kinds of core/src/message (only the fields); From wraps a message as the variant of its name
source core/src/message/connect.rs
only =Connect
derive Connect PartialEq, Eq, Structural
source core/src/message/connect_reply.rs
only =ConnectReply
derive ConnectReply PartialEq, Eq, Structural
source core/src/message/shutdown.rs
only =Shutdown
derive Shutdown Clone, Copy, PartialEq, Eq, Structural
source core/src/message/create_object.rs
only =CreateObject
derive CreateObject Clone, Copy, PartialEq, Eq, Structural
source core/src/message/create_object_reply.rs
only =CreateObjectResult =CreateObjectReply
derive CreateObjectResult Clone, Copy, PartialEq, Eq, Structural
derive CreateObjectReply Clone, Copy, PartialEq, Eq, Structural
source core/src/message/destroy_object.rs
only =DestroyObject
derive DestroyObject Clone, Copy, PartialEq, Eq, Structural
source core/src/message/destroy_object_reply.rs
only =DestroyObjectResult =DestroyObjectReply
derive DestroyObjectResult Clone, Copy, PartialEq, Eq, Structural
derive DestroyObjectReply Clone, Copy, PartialEq, Eq, Structural
source core/src/message/create_service.rs
only =CreateService
derive CreateService Clone, Copy, PartialEq, Eq, Structural
source core/src/message/create_service_reply.rs
only =CreateServiceResult =CreateServiceReply
derive CreateServiceResult Clone, Copy, PartialEq, Eq, Structural
derive CreateServiceReply Clone, Copy, PartialEq, Eq, Structural
source core/src/message/destroy_service.rs
only =DestroyService
derive DestroyService Clone, Copy, PartialEq, Eq, Structural
source core/src/message/destroy_service_reply.rs
only =DestroyServiceResult =DestroyServiceReply
derive DestroyServiceResult Clone, Copy, PartialEq, Eq, Structural
derive DestroyServiceReply Clone, Copy, PartialEq, Eq, Structural
source core/src/message/call_function.rs
only =CallFunction
derive CallFunction PartialEq, Eq, Structural
source core/src/message/call_function_reply.rs
only =CallFunctionResult =CallFunctionReply
derive CallFunctionResult PartialEq, Eq, Structural
derive CallFunctionReply PartialEq, Eq, Structural
source core/src/message/subscribe_event.rs
only =SubscribeEvent
derive SubscribeEvent Clone, Copy, PartialEq, Eq, Structural
source core/src/message/subscribe_event_reply.rs
only =SubscribeEventResult =SubscribeEventReply
derive SubscribeEventResult Clone, Copy, PartialEq, Eq, Structural
derive SubscribeEventReply Clone, Copy, PartialEq, Eq, Structural
source core/src/message/unsubscribe_event.rs
only =UnsubscribeEvent
derive UnsubscribeEvent Clone, Copy, PartialEq, Eq, Structural
source core/src/message/emit_event.rs
only =EmitEvent
derive EmitEvent PartialEq, Eq, Structural
source core/src/message/query_service_version.rs
only =QueryServiceVersion
derive QueryServiceVersion Clone, Copy, PartialEq, Eq, Structural
source core/src/message/query_service_version_reply.rs
only =QueryServiceVersionResult =QueryServiceVersionReply
derive QueryServiceVersionResult Clone, Copy, PartialEq, Eq, Structural
derive QueryServiceVersionReply Clone, Copy, PartialEq, Eq, Structural
source core/src/message/create_channel.rs
only =CreateChannel
derive CreateChannel Clone, Copy, PartialEq, Eq, Structural
source core/src/message/create_channel_reply.rs
only =CreateChannelReply
derive CreateChannelReply Clone, Copy, PartialEq, Eq, Structural
source core/src/message/close_channel_end.rs
only =CloseChannelEnd
derive CloseChannelEnd Clone, Copy, PartialEq, Eq, Structural
source core/src/message/close_channel_end_reply.rs
only =CloseChannelEndResult =CloseChannelEndReply
derive CloseChannelEndResult Clone, Copy, PartialEq, Eq, Structural
derive CloseChannelEndReply Clone, Copy, PartialEq, Eq, Structural
source core/src/message/channel_end_closed.rs
only =ChannelEndClosed
derive ChannelEndClosed Clone, Copy, PartialEq, Eq, Structural
source core/src/message/claim_channel_end.rs
only =ClaimChannelEnd
derive ClaimChannelEnd Clone, Copy, PartialEq, Eq, Structural
source core/src/message/claim_channel_end_reply.rs
only =ClaimChannelEndResult =ClaimChannelEndReply
derive ClaimChannelEndResult Clone, Copy, PartialEq, Eq, Structural
derive ClaimChannelEndReply Clone, Copy, PartialEq, Eq, Structural
source core/src/message/channel_end_claimed.rs
only =ChannelEndClaimed
derive ChannelEndClaimed Clone, Copy, PartialEq, Eq, Structural
source core/src/message/send_item.rs
only =SendItem
derive SendItem PartialEq, Eq, Structural
source core/src/message/item_received.rs
only =ItemReceived
derive ItemReceived PartialEq, Eq, Structural
source core/src/message/add_channel_capacity.rs
only =AddChannelCapacity
derive AddChannelCapacity Clone, Copy, PartialEq, Eq, Structural
source core/src/message/sync.rs
only =Sync
derive Sync Clone, Copy, PartialEq, Eq, Structural
source core/src/message/sync_reply.rs
only =SyncReply
derive SyncReply Clone, Copy, PartialEq, Eq, Structural
source core/src/message/service_destroyed.rs
only =ServiceDestroyed
derive ServiceDestroyed Clone, Copy, PartialEq, Eq, Structural
source core/src/message/create_bus_listener.rs
only =CreateBusListener
derive CreateBusListener Clone, Copy, PartialEq, Eq, Structural
source core/src/message/create_bus_listener_reply.rs
only =CreateBusListenerReply
derive CreateBusListenerReply Clone, Copy, PartialEq, Eq, Structural
source core/src/message/destroy_bus_listener.rs
only =DestroyBusListener
derive DestroyBusListener Clone, Copy, PartialEq, Eq, Structural
source core/src/message/destroy_bus_listener_reply.rs
only =DestroyBusListenerResult =DestroyBusListenerReply
derive DestroyBusListenerResult Clone, Copy, PartialEq, Eq, Structural
derive DestroyBusListenerReply Clone, Copy, PartialEq, Eq, Structural
source core/src/message/add_bus_listener_filter.rs
only =AddBusListenerFilter
derive AddBusListenerFilter Clone, Copy, PartialEq, Eq, Structural
source core/src/message/remove_bus_listener_filter.rs
only =RemoveBusListenerFilter
derive RemoveBusListenerFilter Clone, Copy, PartialEq, Eq, Structural
source core/src/message/clear_bus_listener_filters.rs
only =ClearBusListenerFilters
derive ClearBusListenerFilters Clone, Copy, PartialEq, Eq, Structural
source core/src/message/start_bus_listener.rs
only =StartBusListener
derive StartBusListener Clone, Copy, PartialEq, Eq, Structural
source core/src/message/start_bus_listener_reply.rs
only =StartBusListenerResult =StartBusListenerReply
derive StartBusListenerResult Clone, Copy, PartialEq, Eq, Structural
derive StartBusListenerReply Clone, Copy, PartialEq, Eq, Structural
source core/src/message/stop_bus_listener.rs
only =StopBusListener
derive StopBusListener Clone, Copy, PartialEq, Eq, Structural
source core/src/message/stop_bus_listener_reply.rs
only =StopBusListenerResult =StopBusListenerReply
derive StopBusListenerResult Clone, Copy, PartialEq, Eq, Structural
derive StopBusListenerReply Clone, Copy, PartialEq, Eq, Structural
source core/src/message/emit_bus_event.rs
only =EmitBusEvent
derive EmitBusEvent Clone, Copy, PartialEq, Eq, Structural
source core/src/message/bus_listener_current_finished.rs
only =BusListenerCurrentFinished
derive BusListenerCurrentFinished Clone, Copy, PartialEq, Eq, Structural
source core/src/message/connect2.rs
only =ConnectData =Connect2
derive ConnectData PartialEq, Eq, Structural
derive Connect2 PartialEq, Eq, Structural
source core/src/message/connect_reply2.rs
only =ConnectReplyData =ConnectResult =ConnectReply2
derive ConnectReplyData PartialEq, Eq, Structural
derive ConnectResult Clone, Copy, PartialEq, Eq, Structural
derive ConnectReply2 PartialEq, Eq, Structural
source core/src/message/abort_function_call.rs
only =AbortFunctionCall
derive AbortFunctionCall Clone, Copy, PartialEq, Eq, Structural
source core/src/message/register_introspection.rs
only =RegisterIntrospection
derive RegisterIntrospection PartialEq, Eq, Structural
source core/src/message/query_introspection.rs
only =QueryIntrospection
derive QueryIntrospection Clone, Copy, PartialEq, Eq, Structural
source core/src/message/query_introspection_reply.rs
only =QueryIntrospectionResult =QueryIntrospectionReply
derive QueryIntrospectionResult PartialEq, Eq, Structural
derive QueryIntrospectionReply PartialEq, Eq, Structural
source core/src/message/create_service2.rs
only =CreateService2
derive CreateService2 PartialEq, Eq, Structural
source core/src/message/query_service_info.rs
only =QueryServiceInfo
derive QueryServiceInfo Clone, Copy, PartialEq, Eq, Structural
source core/src/message/query_service_info_reply.rs
only =QueryServiceInfoResult =QueryServiceInfoReply
derive QueryServiceInfoResult PartialEq, Eq, Structural
derive QueryServiceInfoReply PartialEq, Eq, Structural
source core/src/message/subscribe_service.rs
only =SubscribeService
derive SubscribeService Clone, Copy, PartialEq, Eq, Structural
source core/src/message/subscribe_service_reply.rs
only =SubscribeServiceResult =SubscribeServiceReply
derive SubscribeServiceResult Clone, Copy, PartialEq, Eq, Structural
derive SubscribeServiceReply Clone, Copy, PartialEq, Eq, Structural
source core/src/message/unsubscribe_service.rs
only =UnsubscribeService
derive UnsubscribeService Clone, Copy, PartialEq, Eq, Structural
source core/src/message/subscribe_all_events.rs
only =SubscribeAllEvents
derive SubscribeAllEvents Clone, Copy, PartialEq, Eq, Structural
source core/src/message/subscribe_all_events_reply.rs
only =SubscribeAllEventsResult =SubscribeAllEventsReply
derive SubscribeAllEventsResult Clone, Copy, PartialEq, Eq, Structural
derive SubscribeAllEventsReply Clone, Copy, PartialEq, Eq, Structural
source core/src/message/unsubscribe_all_events.rs
only =UnsubscribeAllEvents
derive UnsubscribeAllEvents Clone, Copy, PartialEq, Eq, Structural
source core/src/message/unsubscribe_all_events_reply.rs
only =UnsubscribeAllEventsResult =UnsubscribeAllEventsReply
derive UnsubscribeAllEventsResult Clone, Copy, PartialEq, Eq, Structural
derive UnsubscribeAllEventsReply Clone, Copy, PartialEq, Eq, Structural
source core/src/message/call_function2.rs
only =CallFunction2
derive CallFunction2 PartialEq, Eq, Structural
source core/src/message.rs
only =Message
derive Message PartialEq, Eq, Structural
text
    pub trait VxMsg: Sized { spec fn vx_m(self) -> Message; }
    impl VxMsg for Connect { open spec fn vx_m(self) -> Message { Message::Connect(self) } }
    impl VxMsg for ConnectReply { open spec fn vx_m(self) -> Message { Message::ConnectReply(self) } }
    impl VxMsg for Shutdown { open spec fn vx_m(self) -> Message { Message::Shutdown(self) } }
    impl VxMsg for CreateObject { open spec fn vx_m(self) -> Message { Message::CreateObject(self) } }
    impl VxMsg for CreateObjectReply { open spec fn vx_m(self) -> Message { Message::CreateObjectReply(self) } }
    impl VxMsg for DestroyObject { open spec fn vx_m(self) -> Message { Message::DestroyObject(self) } }
    impl VxMsg for DestroyObjectReply { open spec fn vx_m(self) -> Message { Message::DestroyObjectReply(self) } }
    impl VxMsg for CreateService { open spec fn vx_m(self) -> Message { Message::CreateService(self) } }
    impl VxMsg for CreateServiceReply { open spec fn vx_m(self) -> Message { Message::CreateServiceReply(self) } }
    impl VxMsg for DestroyService { open spec fn vx_m(self) -> Message { Message::DestroyService(self) } }
    impl VxMsg for DestroyServiceReply { open spec fn vx_m(self) -> Message { Message::DestroyServiceReply(self) } }
    impl VxMsg for CallFunction { open spec fn vx_m(self) -> Message { Message::CallFunction(self) } }
    impl VxMsg for CallFunctionReply { open spec fn vx_m(self) -> Message { Message::CallFunctionReply(self) } }
    impl VxMsg for SubscribeEvent { open spec fn vx_m(self) -> Message { Message::SubscribeEvent(self) } }
    impl VxMsg for SubscribeEventReply { open spec fn vx_m(self) -> Message { Message::SubscribeEventReply(self) } }
    impl VxMsg for UnsubscribeEvent { open spec fn vx_m(self) -> Message { Message::UnsubscribeEvent(self) } }
    impl VxMsg for EmitEvent { open spec fn vx_m(self) -> Message { Message::EmitEvent(self) } }
    impl VxMsg for QueryServiceVersion { open spec fn vx_m(self) -> Message { Message::QueryServiceVersion(self) } }
    impl VxMsg for QueryServiceVersionReply { open spec fn vx_m(self) -> Message { Message::QueryServiceVersionReply(self) } }
    impl VxMsg for CreateChannel { open spec fn vx_m(self) -> Message { Message::CreateChannel(self) } }
    impl VxMsg for CreateChannelReply { open spec fn vx_m(self) -> Message { Message::CreateChannelReply(self) } }
    impl VxMsg for CloseChannelEnd { open spec fn vx_m(self) -> Message { Message::CloseChannelEnd(self) } }
    impl VxMsg for CloseChannelEndReply { open spec fn vx_m(self) -> Message { Message::CloseChannelEndReply(self) } }
    impl VxMsg for ChannelEndClosed { open spec fn vx_m(self) -> Message { Message::ChannelEndClosed(self) } }
    impl VxMsg for ClaimChannelEnd { open spec fn vx_m(self) -> Message { Message::ClaimChannelEnd(self) } }
    impl VxMsg for ClaimChannelEndReply { open spec fn vx_m(self) -> Message { Message::ClaimChannelEndReply(self) } }
    impl VxMsg for ChannelEndClaimed { open spec fn vx_m(self) -> Message { Message::ChannelEndClaimed(self) } }
    impl VxMsg for SendItem { open spec fn vx_m(self) -> Message { Message::SendItem(self) } }
    impl VxMsg for ItemReceived { open spec fn vx_m(self) -> Message { Message::ItemReceived(self) } }
    impl VxMsg for AddChannelCapacity { open spec fn vx_m(self) -> Message { Message::AddChannelCapacity(self) } }
    impl VxMsg for Sync { open spec fn vx_m(self) -> Message { Message::Sync(self) } }
    impl VxMsg for SyncReply { open spec fn vx_m(self) -> Message { Message::SyncReply(self) } }
    impl VxMsg for ServiceDestroyed { open spec fn vx_m(self) -> Message { Message::ServiceDestroyed(self) } }
    impl VxMsg for CreateBusListener { open spec fn vx_m(self) -> Message { Message::CreateBusListener(self) } }
    impl VxMsg for CreateBusListenerReply { open spec fn vx_m(self) -> Message { Message::CreateBusListenerReply(self) } }
    impl VxMsg for DestroyBusListener { open spec fn vx_m(self) -> Message { Message::DestroyBusListener(self) } }
    impl VxMsg for DestroyBusListenerReply { open spec fn vx_m(self) -> Message { Message::DestroyBusListenerReply(self) } }
    impl VxMsg for AddBusListenerFilter { open spec fn vx_m(self) -> Message { Message::AddBusListenerFilter(self) } }
    impl VxMsg for RemoveBusListenerFilter { open spec fn vx_m(self) -> Message { Message::RemoveBusListenerFilter(self) } }
    impl VxMsg for ClearBusListenerFilters { open spec fn vx_m(self) -> Message { Message::ClearBusListenerFilters(self) } }
    impl VxMsg for StartBusListener { open spec fn vx_m(self) -> Message { Message::StartBusListener(self) } }
    impl VxMsg for StartBusListenerReply { open spec fn vx_m(self) -> Message { Message::StartBusListenerReply(self) } }
    impl VxMsg for StopBusListener { open spec fn vx_m(self) -> Message { Message::StopBusListener(self) } }
    impl VxMsg for StopBusListenerReply { open spec fn vx_m(self) -> Message { Message::StopBusListenerReply(self) } }
    impl VxMsg for EmitBusEvent { open spec fn vx_m(self) -> Message { Message::EmitBusEvent(self) } }
    impl VxMsg for BusListenerCurrentFinished { open spec fn vx_m(self) -> Message { Message::BusListenerCurrentFinished(self) } }
    impl VxMsg for Connect2 { open spec fn vx_m(self) -> Message { Message::Connect2(self) } }
    impl VxMsg for ConnectReply2 { open spec fn vx_m(self) -> Message { Message::ConnectReply2(self) } }
    impl VxMsg for AbortFunctionCall { open spec fn vx_m(self) -> Message { Message::AbortFunctionCall(self) } }
    impl VxMsg for RegisterIntrospection { open spec fn vx_m(self) -> Message { Message::RegisterIntrospection(self) } }
    impl VxMsg for QueryIntrospection { open spec fn vx_m(self) -> Message { Message::QueryIntrospection(self) } }
    impl VxMsg for QueryIntrospectionReply { open spec fn vx_m(self) -> Message { Message::QueryIntrospectionReply(self) } }
    impl VxMsg for CreateService2 { open spec fn vx_m(self) -> Message { Message::CreateService2(self) } }
    impl VxMsg for QueryServiceInfo { open spec fn vx_m(self) -> Message { Message::QueryServiceInfo(self) } }
    impl VxMsg for QueryServiceInfoReply { open spec fn vx_m(self) -> Message { Message::QueryServiceInfoReply(self) } }
    impl VxMsg for SubscribeService { open spec fn vx_m(self) -> Message { Message::SubscribeService(self) } }
    impl VxMsg for SubscribeServiceReply { open spec fn vx_m(self) -> Message { Message::SubscribeServiceReply(self) } }
    impl VxMsg for UnsubscribeService { open spec fn vx_m(self) -> Message { Message::UnsubscribeService(self) } }
    impl VxMsg for SubscribeAllEvents { open spec fn vx_m(self) -> Message { Message::SubscribeAllEvents(self) } }
    impl VxMsg for SubscribeAllEventsReply { open spec fn vx_m(self) -> Message { Message::SubscribeAllEventsReply(self) } }
    impl VxMsg for UnsubscribeAllEvents { open spec fn vx_m(self) -> Message { Message::UnsubscribeAllEvents(self) } }
    impl VxMsg for UnsubscribeAllEventsReply { open spec fn vx_m(self) -> Message { Message::UnsubscribeAllEventsReply(self) } }
    impl VxMsg for CallFunction2 { open spec fn vx_m(self) -> Message { Message::CallFunction2(self) } }
text
    // derived Clone
    impl Clone for Connect { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for ConnectReply { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for CallFunction { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for CallFunctionResult { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for CallFunctionReply { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for EmitEvent { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for SendItem { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for ItemReceived { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for ConnectData { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for Connect2 { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for ConnectReplyData { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for ConnectReply2 { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for RegisterIntrospection { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for QueryIntrospectionResult { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for QueryIntrospectionReply { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for CreateService2 { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for QueryServiceInfoResult { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for QueryServiceInfoReply { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for CallFunction2 { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Clone for Message { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
