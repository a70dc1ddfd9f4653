// generated by tools/gen_msgspec.py: contracts of the message kinds (C08)
source core/src/message/connect.rs
only =Connect
inherent impl MessageOps for Connect
skip Connect::value Connect::value_mut
fn Connect::kind
    ensures r == MessageKind::Connect, //@C08
fn Connect::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> Connect::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::Connect.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint Connect::serialize_message start
    proof { reveal(Connect::parse); reveal(Connect::canon); reveal(Connect::okay); }
hint Connect::deserialize_message start
    proof { reveal(Connect::parse); reveal(Connect::canon); reveal(Connect::okay); reveal(body_val); }
fn Connect::deserialize_message
    ensures
        r is Ok <==> Connect::parse(buf@) is Some, //@C08
        r is Ok ==> Connect::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/connect_reply.rs
only =ConnectReply =ConnectReplyKind
inherent impl MessageOps for ConnectReply
skip ConnectReply::value ConnectReply::value_mut
fn ConnectReply::kind
    ensures r == MessageKind::ConnectReply, //@C08
fn ConnectReply::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> ConnectReply::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::ConnectReply.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint ConnectReply::serialize_message start
    proof { reveal(ConnectReply::parse); reveal(ConnectReply::canon); reveal(ConnectReply::okay); }
hint ConnectReply::deserialize_message start
    proof { reveal(ConnectReply::parse); reveal(ConnectReply::canon); reveal(ConnectReply::okay); reveal(body_val); }
fn ConnectReply::deserialize_message
    ensures
        r is Ok <==> ConnectReply::parse(buf@) is Some, //@C08
        r is Ok ==> ConnectReply::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/shutdown.rs
only =Shutdown
inherent impl MessageOps for Shutdown
skip Shutdown::value Shutdown::value_mut
fn Shutdown::kind
    ensures r == MessageKind::Shutdown, //@C08
fn Shutdown::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> Shutdown::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::Shutdown.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint Shutdown::serialize_message start
    proof { reveal(Shutdown::parse); reveal(Shutdown::canon); reveal(Shutdown::okay); }
hint Shutdown::deserialize_message start
    proof { reveal(Shutdown::parse); reveal(Shutdown::canon); reveal(Shutdown::okay); }
fn Shutdown::deserialize_message
    ensures
        r is Ok <==> Shutdown::parse(buf@) is Some, //@C08
        r is Ok ==> Shutdown::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/create_object.rs
only =CreateObject
inherent impl MessageOps for CreateObject
skip CreateObject::value CreateObject::value_mut
fn CreateObject::kind
    ensures r == MessageKind::CreateObject, //@C08
fn CreateObject::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> CreateObject::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::CreateObject.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint CreateObject::serialize_message start
    proof { reveal(CreateObject::parse); reveal(CreateObject::canon); reveal(CreateObject::okay); }
hint CreateObject::deserialize_message start
    proof { reveal(CreateObject::parse); reveal(CreateObject::canon); reveal(CreateObject::okay); }
fn CreateObject::deserialize_message
    ensures
        r is Ok <==> CreateObject::parse(buf@) is Some, //@C08
        r is Ok ==> CreateObject::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/create_object_reply.rs
only =CreateObjectReply =CreateObjectReplyKind =CreateObjectResult
inherent impl MessageOps for CreateObjectReply
skip CreateObjectReply::value CreateObjectReply::value_mut
fn CreateObjectReply::kind
    ensures r == MessageKind::CreateObjectReply, //@C08
fn CreateObjectReply::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> CreateObjectReply::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::CreateObjectReply.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint CreateObjectReply::serialize_message start
    proof { reveal(CreateObjectReply::parse); reveal(CreateObjectReply::canon); reveal(CreateObjectReply::okay); }
hint CreateObjectReply::deserialize_message start
    proof { reveal(CreateObjectReply::parse); reveal(CreateObjectReply::canon); reveal(CreateObjectReply::okay); }
fn CreateObjectReply::deserialize_message
    ensures
        r is Ok <==> CreateObjectReply::parse(buf@) is Some, //@C08
        r is Ok ==> CreateObjectReply::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/destroy_object.rs
only =DestroyObject
inherent impl MessageOps for DestroyObject
skip DestroyObject::value DestroyObject::value_mut
fn DestroyObject::kind
    ensures r == MessageKind::DestroyObject, //@C08
fn DestroyObject::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> DestroyObject::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::DestroyObject.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint DestroyObject::serialize_message start
    proof { reveal(DestroyObject::parse); reveal(DestroyObject::canon); reveal(DestroyObject::okay); }
hint DestroyObject::deserialize_message start
    proof { reveal(DestroyObject::parse); reveal(DestroyObject::canon); reveal(DestroyObject::okay); }
fn DestroyObject::deserialize_message
    ensures
        r is Ok <==> DestroyObject::parse(buf@) is Some, //@C08
        r is Ok ==> DestroyObject::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/destroy_object_reply.rs
only =DestroyObjectReply =DestroyObjectResult
inherent impl MessageOps for DestroyObjectReply
skip DestroyObjectReply::value DestroyObjectReply::value_mut
fn DestroyObjectReply::kind
    ensures r == MessageKind::DestroyObjectReply, //@C08
fn DestroyObjectReply::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> DestroyObjectReply::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::DestroyObjectReply.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint DestroyObjectReply::serialize_message start
    proof { reveal(DestroyObjectReply::parse); reveal(DestroyObjectReply::canon); reveal(DestroyObjectReply::okay); }
hint DestroyObjectReply::deserialize_message start
    proof { reveal(DestroyObjectReply::parse); reveal(DestroyObjectReply::canon); reveal(DestroyObjectReply::okay); }
fn DestroyObjectReply::deserialize_message
    ensures
        r is Ok <==> DestroyObjectReply::parse(buf@) is Some, //@C08
        r is Ok ==> DestroyObjectReply::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/create_service.rs
only =CreateService
inherent impl MessageOps for CreateService
skip CreateService::value CreateService::value_mut
fn CreateService::kind
    ensures r == MessageKind::CreateService, //@C08
fn CreateService::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> CreateService::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::CreateService.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint CreateService::serialize_message start
    proof { reveal(CreateService::parse); reveal(CreateService::canon); reveal(CreateService::okay); }
hint CreateService::deserialize_message start
    proof { reveal(CreateService::parse); reveal(CreateService::canon); reveal(CreateService::okay); }
fn CreateService::deserialize_message
    ensures
        r is Ok <==> CreateService::parse(buf@) is Some, //@C08
        r is Ok ==> CreateService::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/create_service_reply.rs
only =CreateServiceReply =CreateServiceReplyKind =CreateServiceResult
inherent impl MessageOps for CreateServiceReply
skip CreateServiceReply::value CreateServiceReply::value_mut
fn CreateServiceReply::kind
    ensures r == MessageKind::CreateServiceReply, //@C08
fn CreateServiceReply::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> CreateServiceReply::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::CreateServiceReply.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint CreateServiceReply::serialize_message start
    proof { reveal(CreateServiceReply::parse); reveal(CreateServiceReply::canon); reveal(CreateServiceReply::okay); }
hint CreateServiceReply::deserialize_message start
    proof { reveal(CreateServiceReply::parse); reveal(CreateServiceReply::canon); reveal(CreateServiceReply::okay); }
fn CreateServiceReply::deserialize_message
    ensures
        r is Ok <==> CreateServiceReply::parse(buf@) is Some, //@C08
        r is Ok ==> CreateServiceReply::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/destroy_service.rs
only =DestroyService
inherent impl MessageOps for DestroyService
skip DestroyService::value DestroyService::value_mut
fn DestroyService::kind
    ensures r == MessageKind::DestroyService, //@C08
fn DestroyService::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> DestroyService::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::DestroyService.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint DestroyService::serialize_message start
    proof { reveal(DestroyService::parse); reveal(DestroyService::canon); reveal(DestroyService::okay); }
hint DestroyService::deserialize_message start
    proof { reveal(DestroyService::parse); reveal(DestroyService::canon); reveal(DestroyService::okay); }
fn DestroyService::deserialize_message
    ensures
        r is Ok <==> DestroyService::parse(buf@) is Some, //@C08
        r is Ok ==> DestroyService::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/destroy_service_reply.rs
only =DestroyServiceReply =DestroyServiceResult
inherent impl MessageOps for DestroyServiceReply
skip DestroyServiceReply::value DestroyServiceReply::value_mut
fn DestroyServiceReply::kind
    ensures r == MessageKind::DestroyServiceReply, //@C08
fn DestroyServiceReply::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> DestroyServiceReply::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::DestroyServiceReply.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint DestroyServiceReply::serialize_message start
    proof { reveal(DestroyServiceReply::parse); reveal(DestroyServiceReply::canon); reveal(DestroyServiceReply::okay); }
hint DestroyServiceReply::deserialize_message start
    proof { reveal(DestroyServiceReply::parse); reveal(DestroyServiceReply::canon); reveal(DestroyServiceReply::okay); }
fn DestroyServiceReply::deserialize_message
    ensures
        r is Ok <==> DestroyServiceReply::parse(buf@) is Some, //@C08
        r is Ok ==> DestroyServiceReply::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/call_function.rs
only =CallFunction
inherent impl MessageOps for CallFunction
skip CallFunction::value CallFunction::value_mut
fn CallFunction::kind
    ensures r == MessageKind::CallFunction, //@C08
fn CallFunction::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> CallFunction::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::CallFunction.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint CallFunction::serialize_message start
    proof { reveal(CallFunction::parse); reveal(CallFunction::canon); reveal(CallFunction::okay); }
hint CallFunction::deserialize_message start
    proof { reveal(CallFunction::parse); reveal(CallFunction::canon); reveal(CallFunction::okay); reveal(body_val); }
fn CallFunction::deserialize_message
    ensures
        r is Ok <==> CallFunction::parse(buf@) is Some, //@C08
        r is Ok ==> CallFunction::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/call_function_reply.rs
only =CallFunctionReply =CallFunctionReplyKind =CallFunctionResult
inherent impl MessageOps for CallFunctionReply
skip CallFunctionReply::value CallFunctionReply::value_mut
fn CallFunctionReply::kind
    ensures r == MessageKind::CallFunctionReply, //@C08
fn CallFunctionReply::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> CallFunctionReply::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::CallFunctionReply.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint CallFunctionReply::serialize_message start
    proof { reveal(CallFunctionReply::parse); reveal(CallFunctionReply::canon); reveal(CallFunctionReply::okay); }
hint CallFunctionReply::deserialize_message start
    proof { reveal(CallFunctionReply::parse); reveal(CallFunctionReply::canon); reveal(CallFunctionReply::okay); reveal(body_val); }
fn CallFunctionReply::deserialize_message
    ensures
        r is Ok <==> CallFunctionReply::parse(buf@) is Some, //@C08
        r is Ok ==> CallFunctionReply::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/subscribe_event.rs
only =SubscribeEvent
inherent impl MessageOps for SubscribeEvent
skip SubscribeEvent::value SubscribeEvent::value_mut
fn SubscribeEvent::kind
    ensures r == MessageKind::SubscribeEvent, //@C08
fn SubscribeEvent::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> SubscribeEvent::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::SubscribeEvent.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint SubscribeEvent::serialize_message start
    proof { reveal(SubscribeEvent::parse); reveal(SubscribeEvent::canon); reveal(SubscribeEvent::okay); }
hint SubscribeEvent::deserialize_message start
    proof { reveal(SubscribeEvent::parse); reveal(SubscribeEvent::canon); reveal(SubscribeEvent::okay); }
fn SubscribeEvent::deserialize_message
    ensures
        r is Ok <==> SubscribeEvent::parse(buf@) is Some, //@C08
        r is Ok ==> SubscribeEvent::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/subscribe_event_reply.rs
only =SubscribeEventReply =SubscribeEventResult
inherent impl MessageOps for SubscribeEventReply
skip SubscribeEventReply::value SubscribeEventReply::value_mut
fn SubscribeEventReply::kind
    ensures r == MessageKind::SubscribeEventReply, //@C08
fn SubscribeEventReply::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> SubscribeEventReply::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::SubscribeEventReply.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint SubscribeEventReply::serialize_message start
    proof { reveal(SubscribeEventReply::parse); reveal(SubscribeEventReply::canon); reveal(SubscribeEventReply::okay); }
hint SubscribeEventReply::deserialize_message start
    proof { reveal(SubscribeEventReply::parse); reveal(SubscribeEventReply::canon); reveal(SubscribeEventReply::okay); }
fn SubscribeEventReply::deserialize_message
    ensures
        r is Ok <==> SubscribeEventReply::parse(buf@) is Some, //@C08
        r is Ok ==> SubscribeEventReply::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/unsubscribe_event.rs
only =UnsubscribeEvent
inherent impl MessageOps for UnsubscribeEvent
skip UnsubscribeEvent::value UnsubscribeEvent::value_mut
fn UnsubscribeEvent::kind
    ensures r == MessageKind::UnsubscribeEvent, //@C08
fn UnsubscribeEvent::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> UnsubscribeEvent::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::UnsubscribeEvent.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint UnsubscribeEvent::serialize_message start
    proof { reveal(UnsubscribeEvent::parse); reveal(UnsubscribeEvent::canon); reveal(UnsubscribeEvent::okay); }
hint UnsubscribeEvent::deserialize_message start
    proof { reveal(UnsubscribeEvent::parse); reveal(UnsubscribeEvent::canon); reveal(UnsubscribeEvent::okay); }
fn UnsubscribeEvent::deserialize_message
    ensures
        r is Ok <==> UnsubscribeEvent::parse(buf@) is Some, //@C08
        r is Ok ==> UnsubscribeEvent::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/emit_event.rs
only =EmitEvent
inherent impl MessageOps for EmitEvent
skip EmitEvent::value EmitEvent::value_mut
fn EmitEvent::kind
    ensures r == MessageKind::EmitEvent, //@C08
fn EmitEvent::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> EmitEvent::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::EmitEvent.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint EmitEvent::serialize_message start
    proof { reveal(EmitEvent::parse); reveal(EmitEvent::canon); reveal(EmitEvent::okay); }
hint EmitEvent::deserialize_message start
    proof { reveal(EmitEvent::parse); reveal(EmitEvent::canon); reveal(EmitEvent::okay); reveal(body_val); }
fn EmitEvent::deserialize_message
    ensures
        r is Ok <==> EmitEvent::parse(buf@) is Some, //@C08
        r is Ok ==> EmitEvent::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/query_service_version.rs
only =QueryServiceVersion
inherent impl MessageOps for QueryServiceVersion
skip QueryServiceVersion::value QueryServiceVersion::value_mut
fn QueryServiceVersion::kind
    ensures r == MessageKind::QueryServiceVersion, //@C08
fn QueryServiceVersion::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> QueryServiceVersion::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::QueryServiceVersion.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint QueryServiceVersion::serialize_message start
    proof { reveal(QueryServiceVersion::parse); reveal(QueryServiceVersion::canon); reveal(QueryServiceVersion::okay); }
hint QueryServiceVersion::deserialize_message start
    proof { reveal(QueryServiceVersion::parse); reveal(QueryServiceVersion::canon); reveal(QueryServiceVersion::okay); }
fn QueryServiceVersion::deserialize_message
    ensures
        r is Ok <==> QueryServiceVersion::parse(buf@) is Some, //@C08
        r is Ok ==> QueryServiceVersion::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/query_service_version_reply.rs
only =QueryServiceVersionReply =QueryServiceVersionReplyKind =QueryServiceVersionResult
inherent impl MessageOps for QueryServiceVersionReply
skip QueryServiceVersionReply::value QueryServiceVersionReply::value_mut
fn QueryServiceVersionReply::kind
    ensures r == MessageKind::QueryServiceVersionReply, //@C08
fn QueryServiceVersionReply::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> QueryServiceVersionReply::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::QueryServiceVersionReply.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint QueryServiceVersionReply::serialize_message start
    proof { reveal(QueryServiceVersionReply::parse); reveal(QueryServiceVersionReply::canon); reveal(QueryServiceVersionReply::okay); }
hint QueryServiceVersionReply::deserialize_message start
    proof { reveal(QueryServiceVersionReply::parse); reveal(QueryServiceVersionReply::canon); reveal(QueryServiceVersionReply::okay); }
fn QueryServiceVersionReply::deserialize_message
    ensures
        r is Ok <==> QueryServiceVersionReply::parse(buf@) is Some, //@C08
        r is Ok ==> QueryServiceVersionReply::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/create_channel.rs
only =CreateChannel
inherent impl MessageOps for CreateChannel
skip CreateChannel::value CreateChannel::value_mut
fn CreateChannel::kind
    ensures r == MessageKind::CreateChannel, //@C08
fn CreateChannel::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> CreateChannel::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::CreateChannel.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint CreateChannel::serialize_message start
    proof { reveal(CreateChannel::parse); reveal(CreateChannel::canon); reveal(CreateChannel::okay); }
hint CreateChannel::deserialize_message start
    proof { reveal(CreateChannel::parse); reveal(CreateChannel::canon); reveal(CreateChannel::okay); }
fn CreateChannel::deserialize_message
    ensures
        r is Ok <==> CreateChannel::parse(buf@) is Some, //@C08
        r is Ok ==> CreateChannel::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/create_channel_reply.rs
only =CreateChannelReply
inherent impl MessageOps for CreateChannelReply
skip CreateChannelReply::value CreateChannelReply::value_mut
fn CreateChannelReply::kind
    ensures r == MessageKind::CreateChannelReply, //@C08
fn CreateChannelReply::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> CreateChannelReply::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::CreateChannelReply.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint CreateChannelReply::serialize_message start
    proof { reveal(CreateChannelReply::parse); reveal(CreateChannelReply::canon); reveal(CreateChannelReply::okay); }
hint CreateChannelReply::deserialize_message start
    proof { reveal(CreateChannelReply::parse); reveal(CreateChannelReply::canon); reveal(CreateChannelReply::okay); }
fn CreateChannelReply::deserialize_message
    ensures
        r is Ok <==> CreateChannelReply::parse(buf@) is Some, //@C08
        r is Ok ==> CreateChannelReply::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/close_channel_end.rs
only =CloseChannelEnd
inherent impl MessageOps for CloseChannelEnd
skip CloseChannelEnd::value CloseChannelEnd::value_mut
fn CloseChannelEnd::kind
    ensures r == MessageKind::CloseChannelEnd, //@C08
fn CloseChannelEnd::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> CloseChannelEnd::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::CloseChannelEnd.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint CloseChannelEnd::serialize_message start
    proof { reveal(CloseChannelEnd::parse); reveal(CloseChannelEnd::canon); reveal(CloseChannelEnd::okay); }
hint CloseChannelEnd::deserialize_message start
    proof { reveal(CloseChannelEnd::parse); reveal(CloseChannelEnd::canon); reveal(CloseChannelEnd::okay); }
fn CloseChannelEnd::deserialize_message
    ensures
        r is Ok <==> CloseChannelEnd::parse(buf@) is Some, //@C08
        r is Ok ==> CloseChannelEnd::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/close_channel_end_reply.rs
only =CloseChannelEndReply =CloseChannelEndResult
inherent impl MessageOps for CloseChannelEndReply
skip CloseChannelEndReply::value CloseChannelEndReply::value_mut
fn CloseChannelEndReply::kind
    ensures r == MessageKind::CloseChannelEndReply, //@C08
fn CloseChannelEndReply::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> CloseChannelEndReply::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::CloseChannelEndReply.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint CloseChannelEndReply::serialize_message start
    proof { reveal(CloseChannelEndReply::parse); reveal(CloseChannelEndReply::canon); reveal(CloseChannelEndReply::okay); }
hint CloseChannelEndReply::deserialize_message start
    proof { reveal(CloseChannelEndReply::parse); reveal(CloseChannelEndReply::canon); reveal(CloseChannelEndReply::okay); }
fn CloseChannelEndReply::deserialize_message
    ensures
        r is Ok <==> CloseChannelEndReply::parse(buf@) is Some, //@C08
        r is Ok ==> CloseChannelEndReply::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/channel_end_closed.rs
only =ChannelEndClosed
inherent impl MessageOps for ChannelEndClosed
skip ChannelEndClosed::value ChannelEndClosed::value_mut
fn ChannelEndClosed::kind
    ensures r == MessageKind::ChannelEndClosed, //@C08
fn ChannelEndClosed::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> ChannelEndClosed::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::ChannelEndClosed.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint ChannelEndClosed::serialize_message start
    proof { reveal(ChannelEndClosed::parse); reveal(ChannelEndClosed::canon); reveal(ChannelEndClosed::okay); }
hint ChannelEndClosed::deserialize_message start
    proof { reveal(ChannelEndClosed::parse); reveal(ChannelEndClosed::canon); reveal(ChannelEndClosed::okay); }
fn ChannelEndClosed::deserialize_message
    ensures
        r is Ok <==> ChannelEndClosed::parse(buf@) is Some, //@C08
        r is Ok ==> ChannelEndClosed::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/claim_channel_end.rs
only =ClaimChannelEnd
inherent impl MessageOps for ClaimChannelEnd
skip ClaimChannelEnd::value ClaimChannelEnd::value_mut
fn ClaimChannelEnd::kind
    ensures r == MessageKind::ClaimChannelEnd, //@C08
fn ClaimChannelEnd::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> ClaimChannelEnd::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::ClaimChannelEnd.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint ClaimChannelEnd::serialize_message start
    proof { reveal(ClaimChannelEnd::parse); reveal(ClaimChannelEnd::canon); reveal(ClaimChannelEnd::okay); }
hint ClaimChannelEnd::deserialize_message start
    proof { reveal(ClaimChannelEnd::parse); reveal(ClaimChannelEnd::canon); reveal(ClaimChannelEnd::okay); }
fn ClaimChannelEnd::deserialize_message
    ensures
        r is Ok <==> ClaimChannelEnd::parse(buf@) is Some, //@C08
        r is Ok ==> ClaimChannelEnd::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/claim_channel_end_reply.rs
only =ClaimChannelEndReply =ClaimChannelEndReplyKind =ClaimChannelEndResult
inherent impl MessageOps for ClaimChannelEndReply
skip ClaimChannelEndReply::value ClaimChannelEndReply::value_mut
fn ClaimChannelEndReply::kind
    ensures r == MessageKind::ClaimChannelEndReply, //@C08
fn ClaimChannelEndReply::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> ClaimChannelEndReply::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::ClaimChannelEndReply.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint ClaimChannelEndReply::serialize_message start
    proof { reveal(ClaimChannelEndReply::parse); reveal(ClaimChannelEndReply::canon); reveal(ClaimChannelEndReply::okay); }
hint ClaimChannelEndReply::deserialize_message start
    proof { reveal(ClaimChannelEndReply::parse); reveal(ClaimChannelEndReply::canon); reveal(ClaimChannelEndReply::okay); }
fn ClaimChannelEndReply::deserialize_message
    ensures
        r is Ok <==> ClaimChannelEndReply::parse(buf@) is Some, //@C08
        r is Ok ==> ClaimChannelEndReply::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/channel_end_claimed.rs
only =ChannelEndClaimed
inherent impl MessageOps for ChannelEndClaimed
skip ChannelEndClaimed::value ChannelEndClaimed::value_mut
fn ChannelEndClaimed::kind
    ensures r == MessageKind::ChannelEndClaimed, //@C08
fn ChannelEndClaimed::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> ChannelEndClaimed::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::ChannelEndClaimed.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint ChannelEndClaimed::serialize_message start
    proof { reveal(ChannelEndClaimed::parse); reveal(ChannelEndClaimed::canon); reveal(ChannelEndClaimed::okay); }
hint ChannelEndClaimed::deserialize_message start
    proof { reveal(ChannelEndClaimed::parse); reveal(ChannelEndClaimed::canon); reveal(ChannelEndClaimed::okay); }
fn ChannelEndClaimed::deserialize_message
    ensures
        r is Ok <==> ChannelEndClaimed::parse(buf@) is Some, //@C08
        r is Ok ==> ChannelEndClaimed::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/send_item.rs
only =SendItem
inherent impl MessageOps for SendItem
skip SendItem::value SendItem::value_mut
fn SendItem::kind
    ensures r == MessageKind::SendItem, //@C08
fn SendItem::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> SendItem::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::SendItem.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint SendItem::serialize_message start
    proof { reveal(SendItem::parse); reveal(SendItem::canon); reveal(SendItem::okay); }
hint SendItem::deserialize_message start
    proof { reveal(SendItem::parse); reveal(SendItem::canon); reveal(SendItem::okay); reveal(body_val); }
fn SendItem::deserialize_message
    ensures
        r is Ok <==> SendItem::parse(buf@) is Some, //@C08
        r is Ok ==> SendItem::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/item_received.rs
only =ItemReceived
inherent impl MessageOps for ItemReceived
skip ItemReceived::value ItemReceived::value_mut
fn ItemReceived::kind
    ensures r == MessageKind::ItemReceived, //@C08
fn ItemReceived::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> ItemReceived::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::ItemReceived.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint ItemReceived::serialize_message start
    proof { reveal(ItemReceived::parse); reveal(ItemReceived::canon); reveal(ItemReceived::okay); }
hint ItemReceived::deserialize_message start
    proof { reveal(ItemReceived::parse); reveal(ItemReceived::canon); reveal(ItemReceived::okay); reveal(body_val); }
fn ItemReceived::deserialize_message
    ensures
        r is Ok <==> ItemReceived::parse(buf@) is Some, //@C08
        r is Ok ==> ItemReceived::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/add_channel_capacity.rs
only =AddChannelCapacity
inherent impl MessageOps for AddChannelCapacity
skip AddChannelCapacity::value AddChannelCapacity::value_mut
fn AddChannelCapacity::kind
    ensures r == MessageKind::AddChannelCapacity, //@C08
fn AddChannelCapacity::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> AddChannelCapacity::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::AddChannelCapacity.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint AddChannelCapacity::serialize_message start
    proof { reveal(AddChannelCapacity::parse); reveal(AddChannelCapacity::canon); reveal(AddChannelCapacity::okay); }
hint AddChannelCapacity::deserialize_message start
    proof { reveal(AddChannelCapacity::parse); reveal(AddChannelCapacity::canon); reveal(AddChannelCapacity::okay); }
fn AddChannelCapacity::deserialize_message
    ensures
        r is Ok <==> AddChannelCapacity::parse(buf@) is Some, //@C08
        r is Ok ==> AddChannelCapacity::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/sync.rs
only =Sync
inherent impl MessageOps for Sync
skip Sync::value Sync::value_mut
fn Sync::kind
    ensures r == MessageKind::Sync, //@C08
fn Sync::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> Sync::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::Sync.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint Sync::serialize_message start
    proof { reveal(Sync::parse); reveal(Sync::canon); reveal(Sync::okay); }
hint Sync::deserialize_message start
    proof { reveal(Sync::parse); reveal(Sync::canon); reveal(Sync::okay); }
fn Sync::deserialize_message
    ensures
        r is Ok <==> Sync::parse(buf@) is Some, //@C08
        r is Ok ==> Sync::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/sync_reply.rs
only =SyncReply
inherent impl MessageOps for SyncReply
skip SyncReply::value SyncReply::value_mut
fn SyncReply::kind
    ensures r == MessageKind::SyncReply, //@C08
fn SyncReply::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> SyncReply::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::SyncReply.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint SyncReply::serialize_message start
    proof { reveal(SyncReply::parse); reveal(SyncReply::canon); reveal(SyncReply::okay); }
hint SyncReply::deserialize_message start
    proof { reveal(SyncReply::parse); reveal(SyncReply::canon); reveal(SyncReply::okay); }
fn SyncReply::deserialize_message
    ensures
        r is Ok <==> SyncReply::parse(buf@) is Some, //@C08
        r is Ok ==> SyncReply::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/service_destroyed.rs
only =ServiceDestroyed
inherent impl MessageOps for ServiceDestroyed
skip ServiceDestroyed::value ServiceDestroyed::value_mut
fn ServiceDestroyed::kind
    ensures r == MessageKind::ServiceDestroyed, //@C08
fn ServiceDestroyed::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> ServiceDestroyed::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::ServiceDestroyed.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint ServiceDestroyed::serialize_message start
    proof { reveal(ServiceDestroyed::parse); reveal(ServiceDestroyed::canon); reveal(ServiceDestroyed::okay); }
hint ServiceDestroyed::deserialize_message start
    proof { reveal(ServiceDestroyed::parse); reveal(ServiceDestroyed::canon); reveal(ServiceDestroyed::okay); }
fn ServiceDestroyed::deserialize_message
    ensures
        r is Ok <==> ServiceDestroyed::parse(buf@) is Some, //@C08
        r is Ok ==> ServiceDestroyed::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/create_bus_listener.rs
only =CreateBusListener
inherent impl MessageOps for CreateBusListener
skip CreateBusListener::value CreateBusListener::value_mut
fn CreateBusListener::kind
    ensures r == MessageKind::CreateBusListener, //@C08
fn CreateBusListener::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> CreateBusListener::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::CreateBusListener.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint CreateBusListener::serialize_message start
    proof { reveal(CreateBusListener::parse); reveal(CreateBusListener::canon); reveal(CreateBusListener::okay); }
hint CreateBusListener::deserialize_message start
    proof { reveal(CreateBusListener::parse); reveal(CreateBusListener::canon); reveal(CreateBusListener::okay); }
fn CreateBusListener::deserialize_message
    ensures
        r is Ok <==> CreateBusListener::parse(buf@) is Some, //@C08
        r is Ok ==> CreateBusListener::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/create_bus_listener_reply.rs
only =CreateBusListenerReply
inherent impl MessageOps for CreateBusListenerReply
skip CreateBusListenerReply::value CreateBusListenerReply::value_mut
fn CreateBusListenerReply::kind
    ensures r == MessageKind::CreateBusListenerReply, //@C08
fn CreateBusListenerReply::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> CreateBusListenerReply::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::CreateBusListenerReply.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint CreateBusListenerReply::serialize_message start
    proof { reveal(CreateBusListenerReply::parse); reveal(CreateBusListenerReply::canon); reveal(CreateBusListenerReply::okay); }
hint CreateBusListenerReply::deserialize_message start
    proof { reveal(CreateBusListenerReply::parse); reveal(CreateBusListenerReply::canon); reveal(CreateBusListenerReply::okay); }
fn CreateBusListenerReply::deserialize_message
    ensures
        r is Ok <==> CreateBusListenerReply::parse(buf@) is Some, //@C08
        r is Ok ==> CreateBusListenerReply::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/destroy_bus_listener.rs
only =DestroyBusListener
inherent impl MessageOps for DestroyBusListener
skip DestroyBusListener::value DestroyBusListener::value_mut
fn DestroyBusListener::kind
    ensures r == MessageKind::DestroyBusListener, //@C08
fn DestroyBusListener::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> DestroyBusListener::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::DestroyBusListener.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint DestroyBusListener::serialize_message start
    proof { reveal(DestroyBusListener::parse); reveal(DestroyBusListener::canon); reveal(DestroyBusListener::okay); }
hint DestroyBusListener::deserialize_message start
    proof { reveal(DestroyBusListener::parse); reveal(DestroyBusListener::canon); reveal(DestroyBusListener::okay); }
fn DestroyBusListener::deserialize_message
    ensures
        r is Ok <==> DestroyBusListener::parse(buf@) is Some, //@C08
        r is Ok ==> DestroyBusListener::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/destroy_bus_listener_reply.rs
only =DestroyBusListenerReply =DestroyBusListenerResult
inherent impl MessageOps for DestroyBusListenerReply
skip DestroyBusListenerReply::value DestroyBusListenerReply::value_mut
fn DestroyBusListenerReply::kind
    ensures r == MessageKind::DestroyBusListenerReply, //@C08
fn DestroyBusListenerReply::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> DestroyBusListenerReply::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::DestroyBusListenerReply.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint DestroyBusListenerReply::serialize_message start
    proof { reveal(DestroyBusListenerReply::parse); reveal(DestroyBusListenerReply::canon); reveal(DestroyBusListenerReply::okay); }
hint DestroyBusListenerReply::deserialize_message start
    proof { reveal(DestroyBusListenerReply::parse); reveal(DestroyBusListenerReply::canon); reveal(DestroyBusListenerReply::okay); }
fn DestroyBusListenerReply::deserialize_message
    ensures
        r is Ok <==> DestroyBusListenerReply::parse(buf@) is Some, //@C08
        r is Ok ==> DestroyBusListenerReply::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/add_bus_listener_filter.rs
only =AddBusListenerFilter
inherent impl MessageOps for AddBusListenerFilter
skip AddBusListenerFilter::value AddBusListenerFilter::value_mut
fn AddBusListenerFilter::kind
    ensures r == MessageKind::AddBusListenerFilter, //@C08
fn AddBusListenerFilter::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> AddBusListenerFilter::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::AddBusListenerFilter.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint AddBusListenerFilter::serialize_message start
    proof { reveal(AddBusListenerFilter::parse); reveal(AddBusListenerFilter::canon); reveal(AddBusListenerFilter::okay); }
hint AddBusListenerFilter::deserialize_message start
    proof { reveal(AddBusListenerFilter::parse); reveal(AddBusListenerFilter::canon); reveal(AddBusListenerFilter::okay); }
fn AddBusListenerFilter::deserialize_message
    ensures
        r is Ok <==> AddBusListenerFilter::parse(buf@) is Some, //@C08
        r is Ok ==> AddBusListenerFilter::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/remove_bus_listener_filter.rs
only =RemoveBusListenerFilter
inherent impl MessageOps for RemoveBusListenerFilter
skip RemoveBusListenerFilter::value RemoveBusListenerFilter::value_mut
fn RemoveBusListenerFilter::kind
    ensures r == MessageKind::RemoveBusListenerFilter, //@C08
fn RemoveBusListenerFilter::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> RemoveBusListenerFilter::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::RemoveBusListenerFilter.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint RemoveBusListenerFilter::serialize_message start
    proof { reveal(RemoveBusListenerFilter::parse); reveal(RemoveBusListenerFilter::canon); reveal(RemoveBusListenerFilter::okay); }
hint RemoveBusListenerFilter::deserialize_message start
    proof { reveal(RemoveBusListenerFilter::parse); reveal(RemoveBusListenerFilter::canon); reveal(RemoveBusListenerFilter::okay); }
fn RemoveBusListenerFilter::deserialize_message
    ensures
        r is Ok <==> RemoveBusListenerFilter::parse(buf@) is Some, //@C08
        r is Ok ==> RemoveBusListenerFilter::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/clear_bus_listener_filters.rs
only =ClearBusListenerFilters
inherent impl MessageOps for ClearBusListenerFilters
skip ClearBusListenerFilters::value ClearBusListenerFilters::value_mut
fn ClearBusListenerFilters::kind
    ensures r == MessageKind::ClearBusListenerFilters, //@C08
fn ClearBusListenerFilters::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> ClearBusListenerFilters::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::ClearBusListenerFilters.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint ClearBusListenerFilters::serialize_message start
    proof { reveal(ClearBusListenerFilters::parse); reveal(ClearBusListenerFilters::canon); reveal(ClearBusListenerFilters::okay); }
hint ClearBusListenerFilters::deserialize_message start
    proof { reveal(ClearBusListenerFilters::parse); reveal(ClearBusListenerFilters::canon); reveal(ClearBusListenerFilters::okay); }
fn ClearBusListenerFilters::deserialize_message
    ensures
        r is Ok <==> ClearBusListenerFilters::parse(buf@) is Some, //@C08
        r is Ok ==> ClearBusListenerFilters::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/start_bus_listener.rs
only =StartBusListener
inherent impl MessageOps for StartBusListener
skip StartBusListener::value StartBusListener::value_mut
fn StartBusListener::kind
    ensures r == MessageKind::StartBusListener, //@C08
fn StartBusListener::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> StartBusListener::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::StartBusListener.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint StartBusListener::serialize_message start
    proof { reveal(StartBusListener::parse); reveal(StartBusListener::canon); reveal(StartBusListener::okay); }
hint StartBusListener::deserialize_message start
    proof { reveal(StartBusListener::parse); reveal(StartBusListener::canon); reveal(StartBusListener::okay); }
fn StartBusListener::deserialize_message
    ensures
        r is Ok <==> StartBusListener::parse(buf@) is Some, //@C08
        r is Ok ==> StartBusListener::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/start_bus_listener_reply.rs
only =StartBusListenerReply =StartBusListenerResult
inherent impl MessageOps for StartBusListenerReply
skip StartBusListenerReply::value StartBusListenerReply::value_mut
fn StartBusListenerReply::kind
    ensures r == MessageKind::StartBusListenerReply, //@C08
fn StartBusListenerReply::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> StartBusListenerReply::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::StartBusListenerReply.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint StartBusListenerReply::serialize_message start
    proof { reveal(StartBusListenerReply::parse); reveal(StartBusListenerReply::canon); reveal(StartBusListenerReply::okay); }
hint StartBusListenerReply::deserialize_message start
    proof { reveal(StartBusListenerReply::parse); reveal(StartBusListenerReply::canon); reveal(StartBusListenerReply::okay); }
fn StartBusListenerReply::deserialize_message
    ensures
        r is Ok <==> StartBusListenerReply::parse(buf@) is Some, //@C08
        r is Ok ==> StartBusListenerReply::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/stop_bus_listener.rs
only =StopBusListener
inherent impl MessageOps for StopBusListener
skip StopBusListener::value StopBusListener::value_mut
fn StopBusListener::kind
    ensures r == MessageKind::StopBusListener, //@C08
fn StopBusListener::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> StopBusListener::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::StopBusListener.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint StopBusListener::serialize_message start
    proof { reveal(StopBusListener::parse); reveal(StopBusListener::canon); reveal(StopBusListener::okay); }
hint StopBusListener::deserialize_message start
    proof { reveal(StopBusListener::parse); reveal(StopBusListener::canon); reveal(StopBusListener::okay); }
fn StopBusListener::deserialize_message
    ensures
        r is Ok <==> StopBusListener::parse(buf@) is Some, //@C08
        r is Ok ==> StopBusListener::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/stop_bus_listener_reply.rs
only =StopBusListenerReply =StopBusListenerResult
inherent impl MessageOps for StopBusListenerReply
skip StopBusListenerReply::value StopBusListenerReply::value_mut
fn StopBusListenerReply::kind
    ensures r == MessageKind::StopBusListenerReply, //@C08
fn StopBusListenerReply::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> StopBusListenerReply::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::StopBusListenerReply.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint StopBusListenerReply::serialize_message start
    proof { reveal(StopBusListenerReply::parse); reveal(StopBusListenerReply::canon); reveal(StopBusListenerReply::okay); }
hint StopBusListenerReply::deserialize_message start
    proof { reveal(StopBusListenerReply::parse); reveal(StopBusListenerReply::canon); reveal(StopBusListenerReply::okay); }
fn StopBusListenerReply::deserialize_message
    ensures
        r is Ok <==> StopBusListenerReply::parse(buf@) is Some, //@C08
        r is Ok ==> StopBusListenerReply::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/emit_bus_event.rs
only =EmitBusEvent =BusEventKind
inherent impl MessageOps for EmitBusEvent
skip EmitBusEvent::value EmitBusEvent::value_mut
fn EmitBusEvent::kind
    ensures r == MessageKind::EmitBusEvent, //@C08
fn EmitBusEvent::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> EmitBusEvent::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::EmitBusEvent.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint EmitBusEvent::serialize_message start
    proof { reveal(EmitBusEvent::parse); reveal(EmitBusEvent::canon); reveal(EmitBusEvent::okay); }
hint EmitBusEvent::deserialize_message start
    proof { reveal(EmitBusEvent::parse); reveal(EmitBusEvent::canon); reveal(EmitBusEvent::okay); }
fn EmitBusEvent::deserialize_message
    ensures
        r is Ok <==> EmitBusEvent::parse(buf@) is Some, //@C08
        r is Ok ==> EmitBusEvent::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/bus_listener_current_finished.rs
only =BusListenerCurrentFinished
inherent impl MessageOps for BusListenerCurrentFinished
skip BusListenerCurrentFinished::value BusListenerCurrentFinished::value_mut
fn BusListenerCurrentFinished::kind
    ensures r == MessageKind::BusListenerCurrentFinished, //@C08
fn BusListenerCurrentFinished::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> BusListenerCurrentFinished::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::BusListenerCurrentFinished.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint BusListenerCurrentFinished::serialize_message start
    proof { reveal(BusListenerCurrentFinished::parse); reveal(BusListenerCurrentFinished::canon); reveal(BusListenerCurrentFinished::okay); }
hint BusListenerCurrentFinished::deserialize_message start
    proof { reveal(BusListenerCurrentFinished::parse); reveal(BusListenerCurrentFinished::canon); reveal(BusListenerCurrentFinished::okay); }
fn BusListenerCurrentFinished::deserialize_message
    ensures
        r is Ok <==> BusListenerCurrentFinished::parse(buf@) is Some, //@C08
        r is Ok ==> BusListenerCurrentFinished::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/connect2.rs
only =Connect2
inherent impl MessageOps for Connect2
skip Connect2::value Connect2::value_mut
fn Connect2::kind
    ensures r == MessageKind::Connect2, //@C08
fn Connect2::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> Connect2::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::Connect2.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint Connect2::serialize_message start
    proof { reveal(Connect2::parse); reveal(Connect2::canon); reveal(Connect2::okay); }
hint Connect2::deserialize_message start
    proof { reveal(Connect2::parse); reveal(Connect2::canon); reveal(Connect2::okay); reveal(body_val); }
fn Connect2::deserialize_message
    ensures
        r is Ok <==> Connect2::parse(buf@) is Some, //@C08
        r is Ok ==> Connect2::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/connect_reply2.rs
rename ConnectReplyKind ConnectReply2Kind
only =ConnectReply2 =ConnectReplyKind =ConnectResult
inherent impl MessageOps for ConnectReply2
skip ConnectReply2::value ConnectReply2::value_mut
fn ConnectReply2::kind
    ensures r == MessageKind::ConnectReply2, //@C08
fn ConnectReply2::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> ConnectReply2::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::ConnectReply2.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint ConnectReply2::serialize_message start
    proof { reveal(ConnectReply2::parse); reveal(ConnectReply2::canon); reveal(ConnectReply2::okay); }
hint ConnectReply2::deserialize_message start
    proof { reveal(ConnectReply2::parse); reveal(ConnectReply2::canon); reveal(ConnectReply2::okay); reveal(body_val); }
fn ConnectReply2::deserialize_message
    ensures
        r is Ok <==> ConnectReply2::parse(buf@) is Some, //@C08
        r is Ok ==> ConnectReply2::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/abort_function_call.rs
only =AbortFunctionCall
inherent impl MessageOps for AbortFunctionCall
skip AbortFunctionCall::value AbortFunctionCall::value_mut
fn AbortFunctionCall::kind
    ensures r == MessageKind::AbortFunctionCall, //@C08
fn AbortFunctionCall::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> AbortFunctionCall::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::AbortFunctionCall.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint AbortFunctionCall::serialize_message start
    proof { reveal(AbortFunctionCall::parse); reveal(AbortFunctionCall::canon); reveal(AbortFunctionCall::okay); }
hint AbortFunctionCall::deserialize_message start
    proof { reveal(AbortFunctionCall::parse); reveal(AbortFunctionCall::canon); reveal(AbortFunctionCall::okay); }
fn AbortFunctionCall::deserialize_message
    ensures
        r is Ok <==> AbortFunctionCall::parse(buf@) is Some, //@C08
        r is Ok ==> AbortFunctionCall::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/register_introspection.rs
only =RegisterIntrospection
inherent impl MessageOps for RegisterIntrospection
skip RegisterIntrospection::value RegisterIntrospection::value_mut
fn RegisterIntrospection::kind
    ensures r == MessageKind::RegisterIntrospection, //@C08
fn RegisterIntrospection::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> RegisterIntrospection::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::RegisterIntrospection.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint RegisterIntrospection::serialize_message start
    proof { reveal(RegisterIntrospection::parse); reveal(RegisterIntrospection::canon); reveal(RegisterIntrospection::okay); }
hint RegisterIntrospection::deserialize_message start
    proof { reveal(RegisterIntrospection::parse); reveal(RegisterIntrospection::canon); reveal(RegisterIntrospection::okay); reveal(body_val); }
fn RegisterIntrospection::deserialize_message
    ensures
        r is Ok <==> RegisterIntrospection::parse(buf@) is Some, //@C08
        r is Ok ==> RegisterIntrospection::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/query_introspection.rs
only =QueryIntrospection
inherent impl MessageOps for QueryIntrospection
skip QueryIntrospection::value QueryIntrospection::value_mut
fn QueryIntrospection::kind
    ensures r == MessageKind::QueryIntrospection, //@C08
fn QueryIntrospection::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> QueryIntrospection::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::QueryIntrospection.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint QueryIntrospection::serialize_message start
    proof { reveal(QueryIntrospection::parse); reveal(QueryIntrospection::canon); reveal(QueryIntrospection::okay); }
hint QueryIntrospection::deserialize_message start
    proof { reveal(QueryIntrospection::parse); reveal(QueryIntrospection::canon); reveal(QueryIntrospection::okay); }
fn QueryIntrospection::deserialize_message
    ensures
        r is Ok <==> QueryIntrospection::parse(buf@) is Some, //@C08
        r is Ok ==> QueryIntrospection::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/query_introspection_reply.rs
only =QueryIntrospectionReply =QueryIntrospectionReplyKind =QueryIntrospectionResult
inherent impl MessageOps for QueryIntrospectionReply
skip QueryIntrospectionReply::value QueryIntrospectionReply::value_mut
fn QueryIntrospectionReply::kind
    ensures r == MessageKind::QueryIntrospectionReply, //@C08
fn QueryIntrospectionReply::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> QueryIntrospectionReply::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::QueryIntrospectionReply.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint QueryIntrospectionReply::serialize_message start
    proof { reveal(QueryIntrospectionReply::parse); reveal(QueryIntrospectionReply::canon); reveal(QueryIntrospectionReply::okay); }
hint QueryIntrospectionReply::deserialize_message start
    proof { reveal(QueryIntrospectionReply::parse); reveal(QueryIntrospectionReply::canon); reveal(QueryIntrospectionReply::okay); reveal(body_val); }
fn QueryIntrospectionReply::deserialize_message
    ensures
        r is Ok <==> QueryIntrospectionReply::parse(buf@) is Some, //@C08
        r is Ok ==> QueryIntrospectionReply::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/create_service2.rs
only =CreateService2
inherent impl MessageOps for CreateService2
skip CreateService2::value CreateService2::value_mut
fn CreateService2::kind
    ensures r == MessageKind::CreateService2, //@C08
fn CreateService2::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> CreateService2::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::CreateService2.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint CreateService2::serialize_message start
    proof { reveal(CreateService2::parse); reveal(CreateService2::canon); reveal(CreateService2::okay); }
hint CreateService2::deserialize_message start
    proof { reveal(CreateService2::parse); reveal(CreateService2::canon); reveal(CreateService2::okay); reveal(body_val); }
fn CreateService2::deserialize_message
    ensures
        r is Ok <==> CreateService2::parse(buf@) is Some, //@C08
        r is Ok ==> CreateService2::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/query_service_info.rs
only =QueryServiceInfo
inherent impl MessageOps for QueryServiceInfo
skip QueryServiceInfo::value QueryServiceInfo::value_mut
fn QueryServiceInfo::kind
    ensures r == MessageKind::QueryServiceInfo, //@C08
fn QueryServiceInfo::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> QueryServiceInfo::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::QueryServiceInfo.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint QueryServiceInfo::serialize_message start
    proof { reveal(QueryServiceInfo::parse); reveal(QueryServiceInfo::canon); reveal(QueryServiceInfo::okay); }
hint QueryServiceInfo::deserialize_message start
    proof { reveal(QueryServiceInfo::parse); reveal(QueryServiceInfo::canon); reveal(QueryServiceInfo::okay); }
fn QueryServiceInfo::deserialize_message
    ensures
        r is Ok <==> QueryServiceInfo::parse(buf@) is Some, //@C08
        r is Ok ==> QueryServiceInfo::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/query_service_info_reply.rs
only =QueryServiceInfoReply =QueryServiceInfoReplyKind =QueryServiceInfoResult
inherent impl MessageOps for QueryServiceInfoReply
skip QueryServiceInfoReply::value QueryServiceInfoReply::value_mut
fn QueryServiceInfoReply::kind
    ensures r == MessageKind::QueryServiceInfoReply, //@C08
fn QueryServiceInfoReply::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> QueryServiceInfoReply::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::QueryServiceInfoReply.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint QueryServiceInfoReply::serialize_message start
    proof { reveal(QueryServiceInfoReply::parse); reveal(QueryServiceInfoReply::canon); reveal(QueryServiceInfoReply::okay); }
hint QueryServiceInfoReply::deserialize_message start
    proof { reveal(QueryServiceInfoReply::parse); reveal(QueryServiceInfoReply::canon); reveal(QueryServiceInfoReply::okay); reveal(body_val); }
fn QueryServiceInfoReply::deserialize_message
    ensures
        r is Ok <==> QueryServiceInfoReply::parse(buf@) is Some, //@C08
        r is Ok ==> QueryServiceInfoReply::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/subscribe_service.rs
only =SubscribeService
inherent impl MessageOps for SubscribeService
skip SubscribeService::value SubscribeService::value_mut
fn SubscribeService::kind
    ensures r == MessageKind::SubscribeService, //@C08
fn SubscribeService::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> SubscribeService::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::SubscribeService.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint SubscribeService::serialize_message start
    proof { reveal(SubscribeService::parse); reveal(SubscribeService::canon); reveal(SubscribeService::okay); }
hint SubscribeService::deserialize_message start
    proof { reveal(SubscribeService::parse); reveal(SubscribeService::canon); reveal(SubscribeService::okay); }
fn SubscribeService::deserialize_message
    ensures
        r is Ok <==> SubscribeService::parse(buf@) is Some, //@C08
        r is Ok ==> SubscribeService::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/subscribe_service_reply.rs
only =SubscribeServiceReply =SubscribeServiceResult
inherent impl MessageOps for SubscribeServiceReply
skip SubscribeServiceReply::value SubscribeServiceReply::value_mut
fn SubscribeServiceReply::kind
    ensures r == MessageKind::SubscribeServiceReply, //@C08
fn SubscribeServiceReply::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> SubscribeServiceReply::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::SubscribeServiceReply.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint SubscribeServiceReply::serialize_message start
    proof { reveal(SubscribeServiceReply::parse); reveal(SubscribeServiceReply::canon); reveal(SubscribeServiceReply::okay); }
hint SubscribeServiceReply::deserialize_message start
    proof { reveal(SubscribeServiceReply::parse); reveal(SubscribeServiceReply::canon); reveal(SubscribeServiceReply::okay); }
fn SubscribeServiceReply::deserialize_message
    ensures
        r is Ok <==> SubscribeServiceReply::parse(buf@) is Some, //@C08
        r is Ok ==> SubscribeServiceReply::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/unsubscribe_service.rs
only =UnsubscribeService
inherent impl MessageOps for UnsubscribeService
skip UnsubscribeService::value UnsubscribeService::value_mut
fn UnsubscribeService::kind
    ensures r == MessageKind::UnsubscribeService, //@C08
fn UnsubscribeService::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> UnsubscribeService::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::UnsubscribeService.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint UnsubscribeService::serialize_message start
    proof { reveal(UnsubscribeService::parse); reveal(UnsubscribeService::canon); reveal(UnsubscribeService::okay); }
hint UnsubscribeService::deserialize_message start
    proof { reveal(UnsubscribeService::parse); reveal(UnsubscribeService::canon); reveal(UnsubscribeService::okay); }
fn UnsubscribeService::deserialize_message
    ensures
        r is Ok <==> UnsubscribeService::parse(buf@) is Some, //@C08
        r is Ok ==> UnsubscribeService::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/subscribe_all_events.rs
only =SubscribeAllEvents
inherent impl MessageOps for SubscribeAllEvents
skip SubscribeAllEvents::value SubscribeAllEvents::value_mut
fn SubscribeAllEvents::kind
    ensures r == MessageKind::SubscribeAllEvents, //@C08
fn SubscribeAllEvents::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> SubscribeAllEvents::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::SubscribeAllEvents.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint SubscribeAllEvents::serialize_message start
    proof { reveal(SubscribeAllEvents::parse); reveal(SubscribeAllEvents::canon); reveal(SubscribeAllEvents::okay); }
hint SubscribeAllEvents::deserialize_message start
    proof { reveal(SubscribeAllEvents::parse); reveal(SubscribeAllEvents::canon); reveal(SubscribeAllEvents::okay); }
fn SubscribeAllEvents::deserialize_message
    ensures
        r is Ok <==> SubscribeAllEvents::parse(buf@) is Some, //@C08
        r is Ok ==> SubscribeAllEvents::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/subscribe_all_events_reply.rs
only =SubscribeAllEventsReply =SubscribeAllEventsResult
inherent impl MessageOps for SubscribeAllEventsReply
skip SubscribeAllEventsReply::value SubscribeAllEventsReply::value_mut
fn SubscribeAllEventsReply::kind
    ensures r == MessageKind::SubscribeAllEventsReply, //@C08
fn SubscribeAllEventsReply::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> SubscribeAllEventsReply::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::SubscribeAllEventsReply.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint SubscribeAllEventsReply::serialize_message start
    proof { reveal(SubscribeAllEventsReply::parse); reveal(SubscribeAllEventsReply::canon); reveal(SubscribeAllEventsReply::okay); }
hint SubscribeAllEventsReply::deserialize_message start
    proof { reveal(SubscribeAllEventsReply::parse); reveal(SubscribeAllEventsReply::canon); reveal(SubscribeAllEventsReply::okay); }
fn SubscribeAllEventsReply::deserialize_message
    ensures
        r is Ok <==> SubscribeAllEventsReply::parse(buf@) is Some, //@C08
        r is Ok ==> SubscribeAllEventsReply::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/unsubscribe_all_events.rs
only =UnsubscribeAllEvents
inherent impl MessageOps for UnsubscribeAllEvents
skip UnsubscribeAllEvents::value UnsubscribeAllEvents::value_mut
fn UnsubscribeAllEvents::kind
    ensures r == MessageKind::UnsubscribeAllEvents, //@C08
fn UnsubscribeAllEvents::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> UnsubscribeAllEvents::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::UnsubscribeAllEvents.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint UnsubscribeAllEvents::serialize_message start
    proof { reveal(UnsubscribeAllEvents::parse); reveal(UnsubscribeAllEvents::canon); reveal(UnsubscribeAllEvents::okay); }
hint UnsubscribeAllEvents::deserialize_message start
    proof { reveal(UnsubscribeAllEvents::parse); reveal(UnsubscribeAllEvents::canon); reveal(UnsubscribeAllEvents::okay); }
fn UnsubscribeAllEvents::deserialize_message
    ensures
        r is Ok <==> UnsubscribeAllEvents::parse(buf@) is Some, //@C08
        r is Ok ==> UnsubscribeAllEvents::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/unsubscribe_all_events_reply.rs
only =UnsubscribeAllEventsReply =UnsubscribeAllEventsResult
inherent impl MessageOps for UnsubscribeAllEventsReply
skip UnsubscribeAllEventsReply::value UnsubscribeAllEventsReply::value_mut
fn UnsubscribeAllEventsReply::kind
    ensures r == MessageKind::UnsubscribeAllEventsReply, //@C08
fn UnsubscribeAllEventsReply::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> UnsubscribeAllEventsReply::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::UnsubscribeAllEventsReply.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint UnsubscribeAllEventsReply::serialize_message start
    proof { reveal(UnsubscribeAllEventsReply::parse); reveal(UnsubscribeAllEventsReply::canon); reveal(UnsubscribeAllEventsReply::okay); }
hint UnsubscribeAllEventsReply::deserialize_message start
    proof { reveal(UnsubscribeAllEventsReply::parse); reveal(UnsubscribeAllEventsReply::canon); reveal(UnsubscribeAllEventsReply::okay); }
fn UnsubscribeAllEventsReply::deserialize_message
    ensures
        r is Ok <==> UnsubscribeAllEventsReply::parse(buf@) is Some, //@C08
        r is Ok ==> UnsubscribeAllEventsReply::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

source core/src/message/call_function2.rs
only =CallFunction2
inherent impl MessageOps for CallFunction2
skip CallFunction2::value CallFunction2::value_mut
fn CallFunction2::kind
    ensures r == MessageKind::CallFunction2, //@C08
fn CallFunction2::serialize_message
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> CallFunction2::parse(r->Ok_0@) == Some(self.canon()), //@C08
        r is Ok ==> r->Ok_0@.len() >= 5 && r->Ok_0@[4] == MessageKind::CallFunction2.vx_to(), //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
hint CallFunction2::serialize_message start
    proof { reveal(CallFunction2::parse); reveal(CallFunction2::canon); reveal(CallFunction2::okay); }
hint CallFunction2::deserialize_message start
    proof { reveal(CallFunction2::parse); reveal(CallFunction2::canon); reveal(CallFunction2::okay); reveal(body_val); }
fn CallFunction2::deserialize_message
    ensures
        r is Ok <==> CallFunction2::parse(buf@) is Some, //@C08
        r is Ok ==> CallFunction2::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08

text
    impl Connect {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<Connect> { match body_val(f, MessageKind::Connect) { None => None, Some((v, s0)) => match gn(s0) { None => None, Some((version, s1)) => if s1.len() == 0 { Some(Connect { version: version, value: sv(v) }) } else { None } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> Connect { Connect { value: sv(self.value@), ..self } }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { vok(self.value@) }
    }
    impl ConnectReply {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<ConnectReply> { match body_val(f, MessageKind::ConnectReply) { None => None, Some((v, s0)) => match gd::<ConnectReplyKind>(s0) { None => None, Some((ConnectReplyKind::Ok, s1)) => if s1.len() == 0 { Some(ConnectReply::Ok(sv(v))) } else { None }, Some((ConnectReplyKind::IncompatibleVersion, s1)) => match gn(s1) { None => None, Some((w, t)) => if t.len() == 0 { Some(ConnectReply::IncompatibleVersion(w)) } else { None } }, Some((ConnectReplyKind::Rejected, s1)) => if s1.len() == 0 { Some(ConnectReply::Rejected(sv(v))) } else { None } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> ConnectReply { match self { ConnectReply::Ok(v) => ConnectReply::Ok(sv(v@)), ConnectReply::Rejected(v) => ConnectReply::Rejected(sv(v@)), x => x } }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { match self { ConnectReply::Ok(v) => vok(v@), ConnectReply::Rejected(v) => vok(v@), x => true } }
    }
    impl Shutdown {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<Shutdown> { match body_plain(f, MessageKind::Shutdown) { None => None, Some(s0) => if s0.len() == 0 { Some(Shutdown) } else { None } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> Shutdown { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl CreateObject {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<CreateObject> { match body_plain(f, MessageKind::CreateObject) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gu(s1) { None => None, Some((uuid, s2)) => if s2.len() == 0 { Some(CreateObject { serial: serial, uuid: ObjectUuid(uuid) }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> CreateObject { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl CreateObjectReply {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<CreateObjectReply> { match body_plain(f, MessageKind::CreateObjectReply) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gd::<CreateObjectReplyKind>(s1) { None => None, Some((CreateObjectReplyKind::Ok, s2)) => match gu(s2) { None => None, Some((w, t)) => if t.len() == 0 { Some(CreateObjectReply { serial: serial, result: CreateObjectResult::Ok(ObjectCookie(w)) }) } else { None } }, Some((CreateObjectReplyKind::DuplicateObject, s2)) => if s2.len() == 0 { Some(CreateObjectReply { serial: serial, result: CreateObjectResult::DuplicateObject }) } else { None }, } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> CreateObjectReply { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl DestroyObject {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<DestroyObject> { match body_plain(f, MessageKind::DestroyObject) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gu(s1) { None => None, Some((cookie, s2)) => if s2.len() == 0 { Some(DestroyObject { serial: serial, cookie: ObjectCookie(cookie) }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> DestroyObject { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl DestroyObjectReply {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<DestroyObjectReply> { match body_plain(f, MessageKind::DestroyObjectReply) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gd::<DestroyObjectResult>(s1) { None => None, Some((result, s2)) => if s2.len() == 0 { Some(DestroyObjectReply { serial: serial, result: result }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> DestroyObjectReply { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl CreateService {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<CreateService> { match body_plain(f, MessageKind::CreateService) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gu(s1) { None => None, Some((object_cookie, s2)) => match gu(s2) { None => None, Some((uuid, s3)) => match gn(s3) { None => None, Some((version, s4)) => if s4.len() == 0 { Some(CreateService { serial: serial, object_cookie: ObjectCookie(object_cookie), uuid: ServiceUuid(uuid), version: version }) } else { None } } } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> CreateService { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl CreateServiceReply {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<CreateServiceReply> { match body_plain(f, MessageKind::CreateServiceReply) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gd::<CreateServiceReplyKind>(s1) { None => None, Some((CreateServiceReplyKind::Ok, s2)) => match gu(s2) { None => None, Some((w, t)) => if t.len() == 0 { Some(CreateServiceReply { serial: serial, result: CreateServiceResult::Ok(ServiceCookie(w)) }) } else { None } }, Some((CreateServiceReplyKind::DuplicateService, s2)) => if s2.len() == 0 { Some(CreateServiceReply { serial: serial, result: CreateServiceResult::DuplicateService }) } else { None }, Some((CreateServiceReplyKind::InvalidObject, s2)) => if s2.len() == 0 { Some(CreateServiceReply { serial: serial, result: CreateServiceResult::InvalidObject }) } else { None }, Some((CreateServiceReplyKind::ForeignObject, s2)) => if s2.len() == 0 { Some(CreateServiceReply { serial: serial, result: CreateServiceResult::ForeignObject }) } else { None }, } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> CreateServiceReply { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl DestroyService {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<DestroyService> { match body_plain(f, MessageKind::DestroyService) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gu(s1) { None => None, Some((cookie, s2)) => if s2.len() == 0 { Some(DestroyService { serial: serial, cookie: ServiceCookie(cookie) }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> DestroyService { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl DestroyServiceReply {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<DestroyServiceReply> { match body_plain(f, MessageKind::DestroyServiceReply) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gd::<DestroyServiceResult>(s1) { None => None, Some((result, s2)) => if s2.len() == 0 { Some(DestroyServiceReply { serial: serial, result: result }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> DestroyServiceReply { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl CallFunction {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<CallFunction> { match body_val(f, MessageKind::CallFunction) { None => None, Some((v, s0)) => match gn(s0) { None => None, Some((serial, s1)) => match gu(s1) { None => None, Some((service_cookie, s2)) => match gn(s2) { None => None, Some((function, s3)) => if s3.len() == 0 { Some(CallFunction { serial: serial, service_cookie: ServiceCookie(service_cookie), function: function, value: sv(v) }) } else { None } } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> CallFunction { CallFunction { value: sv(self.value@), ..self } }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { vok(self.value@) }
    }
    impl CallFunctionReply {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<CallFunctionReply> { match body_val(f, MessageKind::CallFunctionReply) { None => None, Some((v, s0)) => match gn(s0) { None => None, Some((serial, s1)) => match gd::<CallFunctionReplyKind>(s1) { None => None, Some((CallFunctionReplyKind::Ok, s2)) => if s2.len() == 0 { Some(CallFunctionReply { serial: serial, result: CallFunctionResult::Ok(sv(v)) }) } else { None }, Some((CallFunctionReplyKind::Err, s2)) => if s2.len() == 0 { Some(CallFunctionReply { serial: serial, result: CallFunctionResult::Err(sv(v)) }) } else { None }, Some((CallFunctionReplyKind::Aborted, s2)) => if s2.len() == 0 { Some(CallFunctionReply { serial: serial, result: CallFunctionResult::Aborted }) } else { None }, Some((CallFunctionReplyKind::InvalidService, s2)) => if s2.len() == 0 { Some(CallFunctionReply { serial: serial, result: CallFunctionResult::InvalidService }) } else { None }, Some((CallFunctionReplyKind::InvalidFunction, s2)) => if s2.len() == 0 { Some(CallFunctionReply { serial: serial, result: CallFunctionResult::InvalidFunction }) } else { None }, Some((CallFunctionReplyKind::InvalidArgs, s2)) => if s2.len() == 0 { Some(CallFunctionReply { serial: serial, result: CallFunctionResult::InvalidArgs }) } else { None }, } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> CallFunctionReply { CallFunctionReply { result: match self.result { CallFunctionResult::Ok(v) => CallFunctionResult::Ok(sv(v@)), CallFunctionResult::Err(v) => CallFunctionResult::Err(sv(v@)), x => x }, ..self } }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { match self.result { CallFunctionResult::Ok(v) => vok(v@), CallFunctionResult::Err(v) => vok(v@), x => true } }
    }
    impl SubscribeEvent {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<SubscribeEvent> { match body_plain(f, MessageKind::SubscribeEvent) { None => None, Some(s0) => match gon(s0) { None => None, Some((serial, s1)) => match gu(s1) { None => None, Some((service_cookie, s2)) => match gn(s2) { None => None, Some((event, s3)) => if s3.len() == 0 { Some(SubscribeEvent { serial: serial, service_cookie: ServiceCookie(service_cookie), event: event }) } else { None } } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> SubscribeEvent { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl SubscribeEventReply {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<SubscribeEventReply> { match body_plain(f, MessageKind::SubscribeEventReply) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gd::<SubscribeEventResult>(s1) { None => None, Some((result, s2)) => if s2.len() == 0 { Some(SubscribeEventReply { serial: serial, result: result }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> SubscribeEventReply { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl UnsubscribeEvent {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<UnsubscribeEvent> { match body_plain(f, MessageKind::UnsubscribeEvent) { None => None, Some(s0) => match gu(s0) { None => None, Some((service_cookie, s1)) => match gn(s1) { None => None, Some((event, s2)) => if s2.len() == 0 { Some(UnsubscribeEvent { service_cookie: ServiceCookie(service_cookie), event: event }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> UnsubscribeEvent { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl EmitEvent {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<EmitEvent> { match body_val(f, MessageKind::EmitEvent) { None => None, Some((v, s0)) => match gu(s0) { None => None, Some((service_cookie, s1)) => match gn(s1) { None => None, Some((event, s2)) => if s2.len() == 0 { Some(EmitEvent { service_cookie: ServiceCookie(service_cookie), event: event, value: sv(v) }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> EmitEvent { EmitEvent { value: sv(self.value@), ..self } }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { vok(self.value@) }
    }
    impl QueryServiceVersion {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<QueryServiceVersion> { match body_plain(f, MessageKind::QueryServiceVersion) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gu(s1) { None => None, Some((cookie, s2)) => if s2.len() == 0 { Some(QueryServiceVersion { serial: serial, cookie: ServiceCookie(cookie) }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> QueryServiceVersion { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl QueryServiceVersionReply {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<QueryServiceVersionReply> { match body_plain(f, MessageKind::QueryServiceVersionReply) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gd::<QueryServiceVersionReplyKind>(s1) { None => None, Some((QueryServiceVersionReplyKind::Ok, s2)) => match gn(s2) { None => None, Some((w, t)) => if t.len() == 0 { Some(QueryServiceVersionReply { serial: serial, result: QueryServiceVersionResult::Ok(w) }) } else { None } }, Some((QueryServiceVersionReplyKind::InvalidService, s2)) => if s2.len() == 0 { Some(QueryServiceVersionReply { serial: serial, result: QueryServiceVersionResult::InvalidService }) } else { None }, } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> QueryServiceVersionReply { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl CreateChannel {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<CreateChannel> { match body_plain(f, MessageKind::CreateChannel) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gcap(s1) { None => None, Some((end, s2)) => if s2.len() == 0 { Some(CreateChannel { serial: serial, end: end }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> CreateChannel { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl CreateChannelReply {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<CreateChannelReply> { match body_plain(f, MessageKind::CreateChannelReply) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gu(s1) { None => None, Some((cookie, s2)) => if s2.len() == 0 { Some(CreateChannelReply { serial: serial, cookie: ChannelCookie(cookie) }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> CreateChannelReply { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl CloseChannelEnd {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<CloseChannelEnd> { match body_plain(f, MessageKind::CloseChannelEnd) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gu(s1) { None => None, Some((cookie, s2)) => match gd::<ChannelEnd>(s2) { None => None, Some((end, s3)) => if s3.len() == 0 { Some(CloseChannelEnd { serial: serial, cookie: ChannelCookie(cookie), end: end }) } else { None } } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> CloseChannelEnd { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl CloseChannelEndReply {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<CloseChannelEndReply> { match body_plain(f, MessageKind::CloseChannelEndReply) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gd::<CloseChannelEndResult>(s1) { None => None, Some((result, s2)) => if s2.len() == 0 { Some(CloseChannelEndReply { serial: serial, result: result }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> CloseChannelEndReply { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl ChannelEndClosed {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<ChannelEndClosed> { match body_plain(f, MessageKind::ChannelEndClosed) { None => None, Some(s0) => match gu(s0) { None => None, Some((cookie, s1)) => match gd::<ChannelEnd>(s1) { None => None, Some((end, s2)) => if s2.len() == 0 { Some(ChannelEndClosed { cookie: ChannelCookie(cookie), end: end }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> ChannelEndClosed { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl ClaimChannelEnd {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<ClaimChannelEnd> { match body_plain(f, MessageKind::ClaimChannelEnd) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gu(s1) { None => None, Some((cookie, s2)) => match gcap(s2) { None => None, Some((end, s3)) => if s3.len() == 0 { Some(ClaimChannelEnd { serial: serial, cookie: ChannelCookie(cookie), end: end }) } else { None } } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> ClaimChannelEnd { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl ClaimChannelEndReply {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<ClaimChannelEndReply> { match body_plain(f, MessageKind::ClaimChannelEndReply) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gd::<ClaimChannelEndReplyKind>(s1) { None => None, Some((ClaimChannelEndReplyKind::SenderClaimed, s2)) => match gn(s2) { None => None, Some((w, t)) => if t.len() == 0 { Some(ClaimChannelEndReply { serial: serial, result: ClaimChannelEndResult::SenderClaimed(w) }) } else { None } }, Some((ClaimChannelEndReplyKind::ReceiverClaimed, s2)) => if s2.len() == 0 { Some(ClaimChannelEndReply { serial: serial, result: ClaimChannelEndResult::ReceiverClaimed }) } else { None }, Some((ClaimChannelEndReplyKind::InvalidChannel, s2)) => if s2.len() == 0 { Some(ClaimChannelEndReply { serial: serial, result: ClaimChannelEndResult::InvalidChannel }) } else { None }, Some((ClaimChannelEndReplyKind::AlreadyClaimed, s2)) => if s2.len() == 0 { Some(ClaimChannelEndReply { serial: serial, result: ClaimChannelEndResult::AlreadyClaimed }) } else { None }, } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> ClaimChannelEndReply { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl ChannelEndClaimed {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<ChannelEndClaimed> { match body_plain(f, MessageKind::ChannelEndClaimed) { None => None, Some(s0) => match gu(s0) { None => None, Some((cookie, s1)) => match gcap(s1) { None => None, Some((end, s2)) => if s2.len() == 0 { Some(ChannelEndClaimed { cookie: ChannelCookie(cookie), end: end }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> ChannelEndClaimed { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl SendItem {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<SendItem> { match body_val(f, MessageKind::SendItem) { None => None, Some((v, s0)) => match gu(s0) { None => None, Some((cookie, s1)) => if s1.len() == 0 { Some(SendItem { cookie: ChannelCookie(cookie), value: sv(v) }) } else { None } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> SendItem { SendItem { value: sv(self.value@), ..self } }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { vok(self.value@) }
    }
    impl ItemReceived {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<ItemReceived> { match body_val(f, MessageKind::ItemReceived) { None => None, Some((v, s0)) => match gu(s0) { None => None, Some((cookie, s1)) => if s1.len() == 0 { Some(ItemReceived { cookie: ChannelCookie(cookie), value: sv(v) }) } else { None } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> ItemReceived { ItemReceived { value: sv(self.value@), ..self } }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { vok(self.value@) }
    }
    impl AddChannelCapacity {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<AddChannelCapacity> { match body_plain(f, MessageKind::AddChannelCapacity) { None => None, Some(s0) => match gu(s0) { None => None, Some((cookie, s1)) => match gn(s1) { None => None, Some((capacity, s2)) => if s2.len() == 0 { Some(AddChannelCapacity { cookie: ChannelCookie(cookie), capacity: capacity }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> AddChannelCapacity { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl Sync {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<Sync> { match body_plain(f, MessageKind::Sync) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => if s1.len() == 0 { Some(Sync { serial: serial }) } else { None } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> Sync { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl SyncReply {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<SyncReply> { match body_plain(f, MessageKind::SyncReply) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => if s1.len() == 0 { Some(SyncReply { serial: serial }) } else { None } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> SyncReply { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl ServiceDestroyed {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<ServiceDestroyed> { match body_plain(f, MessageKind::ServiceDestroyed) { None => None, Some(s0) => match gu(s0) { None => None, Some((service_cookie, s1)) => if s1.len() == 0 { Some(ServiceDestroyed { service_cookie: ServiceCookie(service_cookie) }) } else { None } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> ServiceDestroyed { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl CreateBusListener {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<CreateBusListener> { match body_plain(f, MessageKind::CreateBusListener) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => if s1.len() == 0 { Some(CreateBusListener { serial: serial }) } else { None } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> CreateBusListener { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl CreateBusListenerReply {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<CreateBusListenerReply> { match body_plain(f, MessageKind::CreateBusListenerReply) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gu(s1) { None => None, Some((cookie, s2)) => if s2.len() == 0 { Some(CreateBusListenerReply { serial: serial, cookie: BusListenerCookie(cookie) }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> CreateBusListenerReply { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl DestroyBusListener {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<DestroyBusListener> { match body_plain(f, MessageKind::DestroyBusListener) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gu(s1) { None => None, Some((cookie, s2)) => if s2.len() == 0 { Some(DestroyBusListener { serial: serial, cookie: BusListenerCookie(cookie) }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> DestroyBusListener { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl DestroyBusListenerReply {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<DestroyBusListenerReply> { match body_plain(f, MessageKind::DestroyBusListenerReply) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gd::<DestroyBusListenerResult>(s1) { None => None, Some((result, s2)) => if s2.len() == 0 { Some(DestroyBusListenerReply { serial: serial, result: result }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> DestroyBusListenerReply { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl AddBusListenerFilter {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<AddBusListenerFilter> { match body_plain(f, MessageKind::AddBusListenerFilter) { None => None, Some(s0) => match gu(s0) { None => None, Some((cookie, s1)) => match gfilter(s1) { None => None, Some((filter, s2)) => if s2.len() == 0 { Some(AddBusListenerFilter { cookie: BusListenerCookie(cookie), filter: filter }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> AddBusListenerFilter { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl RemoveBusListenerFilter {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<RemoveBusListenerFilter> { match body_plain(f, MessageKind::RemoveBusListenerFilter) { None => None, Some(s0) => match gu(s0) { None => None, Some((cookie, s1)) => match gfilter(s1) { None => None, Some((filter, s2)) => if s2.len() == 0 { Some(RemoveBusListenerFilter { cookie: BusListenerCookie(cookie), filter: filter }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> RemoveBusListenerFilter { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl ClearBusListenerFilters {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<ClearBusListenerFilters> { match body_plain(f, MessageKind::ClearBusListenerFilters) { None => None, Some(s0) => match gu(s0) { None => None, Some((cookie, s1)) => if s1.len() == 0 { Some(ClearBusListenerFilters { cookie: BusListenerCookie(cookie) }) } else { None } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> ClearBusListenerFilters { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl StartBusListener {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<StartBusListener> { match body_plain(f, MessageKind::StartBusListener) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gu(s1) { None => None, Some((cookie, s2)) => match gd::<BusListenerScope>(s2) { None => None, Some((scope, s3)) => if s3.len() == 0 { Some(StartBusListener { serial: serial, cookie: BusListenerCookie(cookie), scope: scope }) } else { None } } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> StartBusListener { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl StartBusListenerReply {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<StartBusListenerReply> { match body_plain(f, MessageKind::StartBusListenerReply) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gd::<StartBusListenerResult>(s1) { None => None, Some((result, s2)) => if s2.len() == 0 { Some(StartBusListenerReply { serial: serial, result: result }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> StartBusListenerReply { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl StopBusListener {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<StopBusListener> { match body_plain(f, MessageKind::StopBusListener) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gu(s1) { None => None, Some((cookie, s2)) => if s2.len() == 0 { Some(StopBusListener { serial: serial, cookie: BusListenerCookie(cookie) }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> StopBusListener { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl StopBusListenerReply {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<StopBusListenerReply> { match body_plain(f, MessageKind::StopBusListenerReply) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gd::<StopBusListenerResult>(s1) { None => None, Some((result, s2)) => if s2.len() == 0 { Some(StopBusListenerReply { serial: serial, result: result }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> StopBusListenerReply { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl EmitBusEvent {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<EmitBusEvent> { match body_plain(f, MessageKind::EmitBusEvent) { None => None, Some(s0) => match gou(s0) { None => None, Some((cookie, s1)) => match gevent(s1) { None => None, Some((event, s2)) => if s2.len() == 0 { Some(EmitBusEvent { cookie: (match cookie { None => None::<BusListenerCookie>, Some(w) => Some(BusListenerCookie(w)) }), event: event }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> EmitBusEvent { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl BusListenerCurrentFinished {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<BusListenerCurrentFinished> { match body_plain(f, MessageKind::BusListenerCurrentFinished) { None => None, Some(s0) => match gu(s0) { None => None, Some((cookie, s1)) => if s1.len() == 0 { Some(BusListenerCurrentFinished { cookie: BusListenerCookie(cookie) }) } else { None } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> BusListenerCurrentFinished { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl Connect2 {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<Connect2> { match body_val(f, MessageKind::Connect2) { None => None, Some((v, s0)) => match gn(s0) { None => None, Some((major_version, s1)) => match gn(s1) { None => None, Some((minor_version, s2)) => if s2.len() == 0 { Some(Connect2 { major_version: major_version, minor_version: minor_version, value: sv(v) }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> Connect2 { Connect2 { value: sv(self.value@), ..self } }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { vok(self.value@) }
    }
    impl ConnectReply2 {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<ConnectReply2> { match body_val(f, MessageKind::ConnectReply2) { None => None, Some((v, s0)) => match gd::<ConnectReply2Kind>(s0) { None => None, Some((ConnectReply2Kind::Ok, s1)) => match gn(s1) { None => None, Some((w, t)) => if t.len() == 0 { Some(ConnectReply2 { result: ConnectResult::Ok(w), value: sv(v) }) } else { None } }, Some((ConnectReply2Kind::Rejected, s1)) => if s1.len() == 0 { Some(ConnectReply2 { result: ConnectResult::Rejected, value: sv(v) }) } else { None }, Some((ConnectReply2Kind::IncompatibleVersion, s1)) => if s1.len() == 0 { Some(ConnectReply2 { result: ConnectResult::IncompatibleVersion, value: sv(v) }) } else { None }, } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> ConnectReply2 { ConnectReply2 { value: sv(self.value@), ..self } }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { vok(self.value@) }
    }
    impl AbortFunctionCall {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<AbortFunctionCall> { match body_plain(f, MessageKind::AbortFunctionCall) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => if s1.len() == 0 { Some(AbortFunctionCall { serial: serial }) } else { None } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> AbortFunctionCall { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl RegisterIntrospection {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<RegisterIntrospection> { match body_val(f, MessageKind::RegisterIntrospection) { None => None, Some((v, s0)) => if s0.len() == 0 { Some(RegisterIntrospection { value: sv(v) }) } else { None } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> RegisterIntrospection { RegisterIntrospection { value: sv(self.value@), ..self } }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { vok(self.value@) }
    }
    impl QueryIntrospection {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<QueryIntrospection> { match body_plain(f, MessageKind::QueryIntrospection) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gu(s1) { None => None, Some((type_id, s2)) => if s2.len() == 0 { Some(QueryIntrospection { serial: serial, type_id: TypeId(type_id) }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> QueryIntrospection { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl QueryIntrospectionReply {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<QueryIntrospectionReply> { match body_val(f, MessageKind::QueryIntrospectionReply) { None => None, Some((v, s0)) => match gn(s0) { None => None, Some((serial, s1)) => match gd::<QueryIntrospectionReplyKind>(s1) { None => None, Some((QueryIntrospectionReplyKind::Ok, s2)) => if s2.len() == 0 { Some(QueryIntrospectionReply { serial: serial, result: QueryIntrospectionResult::Ok(sv(v)) }) } else { None }, Some((QueryIntrospectionReplyKind::Unavailable, s2)) => if s2.len() == 0 { Some(QueryIntrospectionReply { serial: serial, result: QueryIntrospectionResult::Unavailable }) } else { None }, } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> QueryIntrospectionReply { QueryIntrospectionReply { result: match self.result { QueryIntrospectionResult::Ok(v) => QueryIntrospectionResult::Ok(sv(v@)), x => x }, ..self } }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { match self.result { QueryIntrospectionResult::Ok(v) => vok(v@), x => true } }
    }
    impl CreateService2 {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<CreateService2> { match body_val(f, MessageKind::CreateService2) { None => None, Some((v, s0)) => match gn(s0) { None => None, Some((serial, s1)) => match gu(s1) { None => None, Some((object_cookie, s2)) => match gu(s2) { None => None, Some((uuid, s3)) => if s3.len() == 0 { Some(CreateService2 { serial: serial, object_cookie: ObjectCookie(object_cookie), uuid: ServiceUuid(uuid), value: sv(v) }) } else { None } } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> CreateService2 { CreateService2 { value: sv(self.value@), ..self } }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { vok(self.value@) }
    }
    impl QueryServiceInfo {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<QueryServiceInfo> { match body_plain(f, MessageKind::QueryServiceInfo) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gu(s1) { None => None, Some((cookie, s2)) => if s2.len() == 0 { Some(QueryServiceInfo { serial: serial, cookie: ServiceCookie(cookie) }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> QueryServiceInfo { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl QueryServiceInfoReply {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<QueryServiceInfoReply> { match body_val(f, MessageKind::QueryServiceInfoReply) { None => None, Some((v, s0)) => match gn(s0) { None => None, Some((serial, s1)) => match gd::<QueryServiceInfoReplyKind>(s1) { None => None, Some((QueryServiceInfoReplyKind::Ok, s2)) => if s2.len() == 0 { Some(QueryServiceInfoReply { serial: serial, result: QueryServiceInfoResult::Ok(sv(v)) }) } else { None }, Some((QueryServiceInfoReplyKind::InvalidService, s2)) => if s2.len() == 0 { Some(QueryServiceInfoReply { serial: serial, result: QueryServiceInfoResult::InvalidService }) } else { None }, } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> QueryServiceInfoReply { QueryServiceInfoReply { result: match self.result { QueryServiceInfoResult::Ok(v) => QueryServiceInfoResult::Ok(sv(v@)), x => x }, ..self } }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { match self.result { QueryServiceInfoResult::Ok(v) => vok(v@), x => true } }
    }
    impl SubscribeService {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<SubscribeService> { match body_plain(f, MessageKind::SubscribeService) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gu(s1) { None => None, Some((service_cookie, s2)) => if s2.len() == 0 { Some(SubscribeService { serial: serial, service_cookie: ServiceCookie(service_cookie) }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> SubscribeService { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl SubscribeServiceReply {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<SubscribeServiceReply> { match body_plain(f, MessageKind::SubscribeServiceReply) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gd::<SubscribeServiceResult>(s1) { None => None, Some((result, s2)) => if s2.len() == 0 { Some(SubscribeServiceReply { serial: serial, result: result }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> SubscribeServiceReply { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl UnsubscribeService {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<UnsubscribeService> { match body_plain(f, MessageKind::UnsubscribeService) { None => None, Some(s0) => match gu(s0) { None => None, Some((service_cookie, s1)) => if s1.len() == 0 { Some(UnsubscribeService { service_cookie: ServiceCookie(service_cookie) }) } else { None } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> UnsubscribeService { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl SubscribeAllEvents {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<SubscribeAllEvents> { match body_plain(f, MessageKind::SubscribeAllEvents) { None => None, Some(s0) => match gon(s0) { None => None, Some((serial, s1)) => match gu(s1) { None => None, Some((service_cookie, s2)) => if s2.len() == 0 { Some(SubscribeAllEvents { serial: serial, service_cookie: ServiceCookie(service_cookie) }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> SubscribeAllEvents { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl SubscribeAllEventsReply {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<SubscribeAllEventsReply> { match body_plain(f, MessageKind::SubscribeAllEventsReply) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gd::<SubscribeAllEventsResult>(s1) { None => None, Some((result, s2)) => if s2.len() == 0 { Some(SubscribeAllEventsReply { serial: serial, result: result }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> SubscribeAllEventsReply { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl UnsubscribeAllEvents {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<UnsubscribeAllEvents> { match body_plain(f, MessageKind::UnsubscribeAllEvents) { None => None, Some(s0) => match gon(s0) { None => None, Some((serial, s1)) => match gu(s1) { None => None, Some((service_cookie, s2)) => if s2.len() == 0 { Some(UnsubscribeAllEvents { serial: serial, service_cookie: ServiceCookie(service_cookie) }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> UnsubscribeAllEvents { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl UnsubscribeAllEventsReply {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<UnsubscribeAllEventsReply> { match body_plain(f, MessageKind::UnsubscribeAllEventsReply) { None => None, Some(s0) => match gn(s0) { None => None, Some((serial, s1)) => match gd::<UnsubscribeAllEventsResult>(s1) { None => None, Some((result, s2)) => if s2.len() == 0 { Some(UnsubscribeAllEventsReply { serial: serial, result: result }) } else { None } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> UnsubscribeAllEventsReply { self }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { true }
    }
    impl CallFunction2 {
        #[verifier::opaque]
        pub open spec fn parse(f: Seq<u8>) -> Option<CallFunction2> { match body_val(f, MessageKind::CallFunction2) { None => None, Some((v, s0)) => match gn(s0) { None => None, Some((serial, s1)) => match gu(s1) { None => None, Some((service_cookie, s2)) => match gn(s2) { None => None, Some((function, s3)) => match gon(s3) { None => None, Some((version, s4)) => if s4.len() == 0 { Some(CallFunction2 { serial: serial, service_cookie: ServiceCookie(service_cookie), function: function, version: version, value: sv(v) }) } else { None } } } } } } }
        #[verifier::opaque]
        pub open spec fn canon(self) -> CallFunction2 { CallFunction2 { value: sv(self.value@), ..self } }
        #[verifier::opaque]
        pub open spec fn okay(self) -> bool { vok(self.value@) }
    }
    pub open spec fn hasv(k: MessageKind) -> bool { k == MessageKind::Connect || k == MessageKind::ConnectReply || k == MessageKind::CallFunction || k == MessageKind::CallFunctionReply || k == MessageKind::EmitEvent || k == MessageKind::SendItem || k == MessageKind::ItemReceived || k == MessageKind::Connect2 || k == MessageKind::ConnectReply2 || k == MessageKind::RegisterIntrospection || k == MessageKind::QueryIntrospectionReply || k == MessageKind::CreateService2 || k == MessageKind::QueryServiceInfoReply || k == MessageKind::CallFunction2 }
    impl Message {
        pub open spec fn canon(self) -> Message { match self { Message::Connect(m) => Message::Connect(m.canon()), Message::ConnectReply(m) => Message::ConnectReply(m.canon()), Message::Shutdown(m) => Message::Shutdown(m.canon()), Message::CreateObject(m) => Message::CreateObject(m.canon()), Message::CreateObjectReply(m) => Message::CreateObjectReply(m.canon()), Message::DestroyObject(m) => Message::DestroyObject(m.canon()), Message::DestroyObjectReply(m) => Message::DestroyObjectReply(m.canon()), Message::CreateService(m) => Message::CreateService(m.canon()), Message::CreateServiceReply(m) => Message::CreateServiceReply(m.canon()), Message::DestroyService(m) => Message::DestroyService(m.canon()), Message::DestroyServiceReply(m) => Message::DestroyServiceReply(m.canon()), Message::CallFunction(m) => Message::CallFunction(m.canon()), Message::CallFunctionReply(m) => Message::CallFunctionReply(m.canon()), Message::SubscribeEvent(m) => Message::SubscribeEvent(m.canon()), Message::SubscribeEventReply(m) => Message::SubscribeEventReply(m.canon()), Message::UnsubscribeEvent(m) => Message::UnsubscribeEvent(m.canon()), Message::EmitEvent(m) => Message::EmitEvent(m.canon()), Message::QueryServiceVersion(m) => Message::QueryServiceVersion(m.canon()), Message::QueryServiceVersionReply(m) => Message::QueryServiceVersionReply(m.canon()), Message::CreateChannel(m) => Message::CreateChannel(m.canon()), Message::CreateChannelReply(m) => Message::CreateChannelReply(m.canon()), Message::CloseChannelEnd(m) => Message::CloseChannelEnd(m.canon()), Message::CloseChannelEndReply(m) => Message::CloseChannelEndReply(m.canon()), Message::ChannelEndClosed(m) => Message::ChannelEndClosed(m.canon()), Message::ClaimChannelEnd(m) => Message::ClaimChannelEnd(m.canon()), Message::ClaimChannelEndReply(m) => Message::ClaimChannelEndReply(m.canon()), Message::ChannelEndClaimed(m) => Message::ChannelEndClaimed(m.canon()), Message::SendItem(m) => Message::SendItem(m.canon()), Message::ItemReceived(m) => Message::ItemReceived(m.canon()), Message::AddChannelCapacity(m) => Message::AddChannelCapacity(m.canon()), Message::Sync(m) => Message::Sync(m.canon()), Message::SyncReply(m) => Message::SyncReply(m.canon()), Message::ServiceDestroyed(m) => Message::ServiceDestroyed(m.canon()), Message::CreateBusListener(m) => Message::CreateBusListener(m.canon()), Message::CreateBusListenerReply(m) => Message::CreateBusListenerReply(m.canon()), Message::DestroyBusListener(m) => Message::DestroyBusListener(m.canon()), Message::DestroyBusListenerReply(m) => Message::DestroyBusListenerReply(m.canon()), Message::AddBusListenerFilter(m) => Message::AddBusListenerFilter(m.canon()), Message::RemoveBusListenerFilter(m) => Message::RemoveBusListenerFilter(m.canon()), Message::ClearBusListenerFilters(m) => Message::ClearBusListenerFilters(m.canon()), Message::StartBusListener(m) => Message::StartBusListener(m.canon()), Message::StartBusListenerReply(m) => Message::StartBusListenerReply(m.canon()), Message::StopBusListener(m) => Message::StopBusListener(m.canon()), Message::StopBusListenerReply(m) => Message::StopBusListenerReply(m.canon()), Message::EmitBusEvent(m) => Message::EmitBusEvent(m.canon()), Message::BusListenerCurrentFinished(m) => Message::BusListenerCurrentFinished(m.canon()), Message::Connect2(m) => Message::Connect2(m.canon()), Message::ConnectReply2(m) => Message::ConnectReply2(m.canon()), Message::AbortFunctionCall(m) => Message::AbortFunctionCall(m.canon()), Message::RegisterIntrospection(m) => Message::RegisterIntrospection(m.canon()), Message::QueryIntrospection(m) => Message::QueryIntrospection(m.canon()), Message::QueryIntrospectionReply(m) => Message::QueryIntrospectionReply(m.canon()), Message::CreateService2(m) => Message::CreateService2(m.canon()), Message::QueryServiceInfo(m) => Message::QueryServiceInfo(m.canon()), Message::QueryServiceInfoReply(m) => Message::QueryServiceInfoReply(m.canon()), Message::SubscribeService(m) => Message::SubscribeService(m.canon()), Message::SubscribeServiceReply(m) => Message::SubscribeServiceReply(m.canon()), Message::UnsubscribeService(m) => Message::UnsubscribeService(m.canon()), Message::SubscribeAllEvents(m) => Message::SubscribeAllEvents(m.canon()), Message::SubscribeAllEventsReply(m) => Message::SubscribeAllEventsReply(m.canon()), Message::UnsubscribeAllEvents(m) => Message::UnsubscribeAllEvents(m.canon()), Message::UnsubscribeAllEventsReply(m) => Message::UnsubscribeAllEventsReply(m.canon()), Message::CallFunction2(m) => Message::CallFunction2(m.canon()), } }
        pub open spec fn okay(self) -> bool { match self { Message::Connect(m) => m.okay(), Message::ConnectReply(m) => m.okay(), Message::Shutdown(m) => m.okay(), Message::CreateObject(m) => m.okay(), Message::CreateObjectReply(m) => m.okay(), Message::DestroyObject(m) => m.okay(), Message::DestroyObjectReply(m) => m.okay(), Message::CreateService(m) => m.okay(), Message::CreateServiceReply(m) => m.okay(), Message::DestroyService(m) => m.okay(), Message::DestroyServiceReply(m) => m.okay(), Message::CallFunction(m) => m.okay(), Message::CallFunctionReply(m) => m.okay(), Message::SubscribeEvent(m) => m.okay(), Message::SubscribeEventReply(m) => m.okay(), Message::UnsubscribeEvent(m) => m.okay(), Message::EmitEvent(m) => m.okay(), Message::QueryServiceVersion(m) => m.okay(), Message::QueryServiceVersionReply(m) => m.okay(), Message::CreateChannel(m) => m.okay(), Message::CreateChannelReply(m) => m.okay(), Message::CloseChannelEnd(m) => m.okay(), Message::CloseChannelEndReply(m) => m.okay(), Message::ChannelEndClosed(m) => m.okay(), Message::ClaimChannelEnd(m) => m.okay(), Message::ClaimChannelEndReply(m) => m.okay(), Message::ChannelEndClaimed(m) => m.okay(), Message::SendItem(m) => m.okay(), Message::ItemReceived(m) => m.okay(), Message::AddChannelCapacity(m) => m.okay(), Message::Sync(m) => m.okay(), Message::SyncReply(m) => m.okay(), Message::ServiceDestroyed(m) => m.okay(), Message::CreateBusListener(m) => m.okay(), Message::CreateBusListenerReply(m) => m.okay(), Message::DestroyBusListener(m) => m.okay(), Message::DestroyBusListenerReply(m) => m.okay(), Message::AddBusListenerFilter(m) => m.okay(), Message::RemoveBusListenerFilter(m) => m.okay(), Message::ClearBusListenerFilters(m) => m.okay(), Message::StartBusListener(m) => m.okay(), Message::StartBusListenerReply(m) => m.okay(), Message::StopBusListener(m) => m.okay(), Message::StopBusListenerReply(m) => m.okay(), Message::EmitBusEvent(m) => m.okay(), Message::BusListenerCurrentFinished(m) => m.okay(), Message::Connect2(m) => m.okay(), Message::ConnectReply2(m) => m.okay(), Message::AbortFunctionCall(m) => m.okay(), Message::RegisterIntrospection(m) => m.okay(), Message::QueryIntrospection(m) => m.okay(), Message::QueryIntrospectionReply(m) => m.okay(), Message::CreateService2(m) => m.okay(), Message::QueryServiceInfo(m) => m.okay(), Message::QueryServiceInfoReply(m) => m.okay(), Message::SubscribeService(m) => m.okay(), Message::SubscribeServiceReply(m) => m.okay(), Message::UnsubscribeService(m) => m.okay(), Message::SubscribeAllEvents(m) => m.okay(), Message::SubscribeAllEventsReply(m) => m.okay(), Message::UnsubscribeAllEvents(m) => m.okay(), Message::UnsubscribeAllEventsReply(m) => m.okay(), Message::CallFunction2(m) => m.okay(), } }
        pub open spec fn vkind(self) -> MessageKind { match self { Message::Connect(m) => MessageKind::Connect, Message::ConnectReply(m) => MessageKind::ConnectReply, Message::Shutdown(m) => MessageKind::Shutdown, Message::CreateObject(m) => MessageKind::CreateObject, Message::CreateObjectReply(m) => MessageKind::CreateObjectReply, Message::DestroyObject(m) => MessageKind::DestroyObject, Message::DestroyObjectReply(m) => MessageKind::DestroyObjectReply, Message::CreateService(m) => MessageKind::CreateService, Message::CreateServiceReply(m) => MessageKind::CreateServiceReply, Message::DestroyService(m) => MessageKind::DestroyService, Message::DestroyServiceReply(m) => MessageKind::DestroyServiceReply, Message::CallFunction(m) => MessageKind::CallFunction, Message::CallFunctionReply(m) => MessageKind::CallFunctionReply, Message::SubscribeEvent(m) => MessageKind::SubscribeEvent, Message::SubscribeEventReply(m) => MessageKind::SubscribeEventReply, Message::UnsubscribeEvent(m) => MessageKind::UnsubscribeEvent, Message::EmitEvent(m) => MessageKind::EmitEvent, Message::QueryServiceVersion(m) => MessageKind::QueryServiceVersion, Message::QueryServiceVersionReply(m) => MessageKind::QueryServiceVersionReply, Message::CreateChannel(m) => MessageKind::CreateChannel, Message::CreateChannelReply(m) => MessageKind::CreateChannelReply, Message::CloseChannelEnd(m) => MessageKind::CloseChannelEnd, Message::CloseChannelEndReply(m) => MessageKind::CloseChannelEndReply, Message::ChannelEndClosed(m) => MessageKind::ChannelEndClosed, Message::ClaimChannelEnd(m) => MessageKind::ClaimChannelEnd, Message::ClaimChannelEndReply(m) => MessageKind::ClaimChannelEndReply, Message::ChannelEndClaimed(m) => MessageKind::ChannelEndClaimed, Message::SendItem(m) => MessageKind::SendItem, Message::ItemReceived(m) => MessageKind::ItemReceived, Message::AddChannelCapacity(m) => MessageKind::AddChannelCapacity, Message::Sync(m) => MessageKind::Sync, Message::SyncReply(m) => MessageKind::SyncReply, Message::ServiceDestroyed(m) => MessageKind::ServiceDestroyed, Message::CreateBusListener(m) => MessageKind::CreateBusListener, Message::CreateBusListenerReply(m) => MessageKind::CreateBusListenerReply, Message::DestroyBusListener(m) => MessageKind::DestroyBusListener, Message::DestroyBusListenerReply(m) => MessageKind::DestroyBusListenerReply, Message::AddBusListenerFilter(m) => MessageKind::AddBusListenerFilter, Message::RemoveBusListenerFilter(m) => MessageKind::RemoveBusListenerFilter, Message::ClearBusListenerFilters(m) => MessageKind::ClearBusListenerFilters, Message::StartBusListener(m) => MessageKind::StartBusListener, Message::StartBusListenerReply(m) => MessageKind::StartBusListenerReply, Message::StopBusListener(m) => MessageKind::StopBusListener, Message::StopBusListenerReply(m) => MessageKind::StopBusListenerReply, Message::EmitBusEvent(m) => MessageKind::EmitBusEvent, Message::BusListenerCurrentFinished(m) => MessageKind::BusListenerCurrentFinished, Message::Connect2(m) => MessageKind::Connect2, Message::ConnectReply2(m) => MessageKind::ConnectReply2, Message::AbortFunctionCall(m) => MessageKind::AbortFunctionCall, Message::RegisterIntrospection(m) => MessageKind::RegisterIntrospection, Message::QueryIntrospection(m) => MessageKind::QueryIntrospection, Message::QueryIntrospectionReply(m) => MessageKind::QueryIntrospectionReply, Message::CreateService2(m) => MessageKind::CreateService2, Message::QueryServiceInfo(m) => MessageKind::QueryServiceInfo, Message::QueryServiceInfoReply(m) => MessageKind::QueryServiceInfoReply, Message::SubscribeService(m) => MessageKind::SubscribeService, Message::SubscribeServiceReply(m) => MessageKind::SubscribeServiceReply, Message::UnsubscribeService(m) => MessageKind::UnsubscribeService, Message::SubscribeAllEvents(m) => MessageKind::SubscribeAllEvents, Message::SubscribeAllEventsReply(m) => MessageKind::SubscribeAllEventsReply, Message::UnsubscribeAllEvents(m) => MessageKind::UnsubscribeAllEvents, Message::UnsubscribeAllEventsReply(m) => MessageKind::UnsubscribeAllEventsReply, Message::CallFunction2(m) => MessageKind::CallFunction2, } }
        pub open spec fn parse(f: Seq<u8>) -> Option<Message> { if f.len() < 5 { None } else { match MessageKind::vx_of(f[4]) { None => None, Some(MessageKind::Connect) => (match Connect::parse(f) { None => None, Some(m) => Some(Message::Connect(m)) }), Some(MessageKind::ConnectReply) => (match ConnectReply::parse(f) { None => None, Some(m) => Some(Message::ConnectReply(m)) }), Some(MessageKind::Shutdown) => (match Shutdown::parse(f) { None => None, Some(m) => Some(Message::Shutdown(m)) }), Some(MessageKind::CreateObject) => (match CreateObject::parse(f) { None => None, Some(m) => Some(Message::CreateObject(m)) }), Some(MessageKind::CreateObjectReply) => (match CreateObjectReply::parse(f) { None => None, Some(m) => Some(Message::CreateObjectReply(m)) }), Some(MessageKind::DestroyObject) => (match DestroyObject::parse(f) { None => None, Some(m) => Some(Message::DestroyObject(m)) }), Some(MessageKind::DestroyObjectReply) => (match DestroyObjectReply::parse(f) { None => None, Some(m) => Some(Message::DestroyObjectReply(m)) }), Some(MessageKind::CreateService) => (match CreateService::parse(f) { None => None, Some(m) => Some(Message::CreateService(m)) }), Some(MessageKind::CreateServiceReply) => (match CreateServiceReply::parse(f) { None => None, Some(m) => Some(Message::CreateServiceReply(m)) }), Some(MessageKind::DestroyService) => (match DestroyService::parse(f) { None => None, Some(m) => Some(Message::DestroyService(m)) }), Some(MessageKind::DestroyServiceReply) => (match DestroyServiceReply::parse(f) { None => None, Some(m) => Some(Message::DestroyServiceReply(m)) }), Some(MessageKind::CallFunction) => (match CallFunction::parse(f) { None => None, Some(m) => Some(Message::CallFunction(m)) }), Some(MessageKind::CallFunctionReply) => (match CallFunctionReply::parse(f) { None => None, Some(m) => Some(Message::CallFunctionReply(m)) }), Some(MessageKind::SubscribeEvent) => (match SubscribeEvent::parse(f) { None => None, Some(m) => Some(Message::SubscribeEvent(m)) }), Some(MessageKind::SubscribeEventReply) => (match SubscribeEventReply::parse(f) { None => None, Some(m) => Some(Message::SubscribeEventReply(m)) }), Some(MessageKind::UnsubscribeEvent) => (match UnsubscribeEvent::parse(f) { None => None, Some(m) => Some(Message::UnsubscribeEvent(m)) }), Some(MessageKind::EmitEvent) => (match EmitEvent::parse(f) { None => None, Some(m) => Some(Message::EmitEvent(m)) }), Some(MessageKind::QueryServiceVersion) => (match QueryServiceVersion::parse(f) { None => None, Some(m) => Some(Message::QueryServiceVersion(m)) }), Some(MessageKind::QueryServiceVersionReply) => (match QueryServiceVersionReply::parse(f) { None => None, Some(m) => Some(Message::QueryServiceVersionReply(m)) }), Some(MessageKind::CreateChannel) => (match CreateChannel::parse(f) { None => None, Some(m) => Some(Message::CreateChannel(m)) }), Some(MessageKind::CreateChannelReply) => (match CreateChannelReply::parse(f) { None => None, Some(m) => Some(Message::CreateChannelReply(m)) }), Some(MessageKind::CloseChannelEnd) => (match CloseChannelEnd::parse(f) { None => None, Some(m) => Some(Message::CloseChannelEnd(m)) }), Some(MessageKind::CloseChannelEndReply) => (match CloseChannelEndReply::parse(f) { None => None, Some(m) => Some(Message::CloseChannelEndReply(m)) }), Some(MessageKind::ChannelEndClosed) => (match ChannelEndClosed::parse(f) { None => None, Some(m) => Some(Message::ChannelEndClosed(m)) }), Some(MessageKind::ClaimChannelEnd) => (match ClaimChannelEnd::parse(f) { None => None, Some(m) => Some(Message::ClaimChannelEnd(m)) }), Some(MessageKind::ClaimChannelEndReply) => (match ClaimChannelEndReply::parse(f) { None => None, Some(m) => Some(Message::ClaimChannelEndReply(m)) }), Some(MessageKind::ChannelEndClaimed) => (match ChannelEndClaimed::parse(f) { None => None, Some(m) => Some(Message::ChannelEndClaimed(m)) }), Some(MessageKind::SendItem) => (match SendItem::parse(f) { None => None, Some(m) => Some(Message::SendItem(m)) }), Some(MessageKind::ItemReceived) => (match ItemReceived::parse(f) { None => None, Some(m) => Some(Message::ItemReceived(m)) }), Some(MessageKind::AddChannelCapacity) => (match AddChannelCapacity::parse(f) { None => None, Some(m) => Some(Message::AddChannelCapacity(m)) }), Some(MessageKind::Sync) => (match Sync::parse(f) { None => None, Some(m) => Some(Message::Sync(m)) }), Some(MessageKind::SyncReply) => (match SyncReply::parse(f) { None => None, Some(m) => Some(Message::SyncReply(m)) }), Some(MessageKind::ServiceDestroyed) => (match ServiceDestroyed::parse(f) { None => None, Some(m) => Some(Message::ServiceDestroyed(m)) }), Some(MessageKind::CreateBusListener) => (match CreateBusListener::parse(f) { None => None, Some(m) => Some(Message::CreateBusListener(m)) }), Some(MessageKind::CreateBusListenerReply) => (match CreateBusListenerReply::parse(f) { None => None, Some(m) => Some(Message::CreateBusListenerReply(m)) }), Some(MessageKind::DestroyBusListener) => (match DestroyBusListener::parse(f) { None => None, Some(m) => Some(Message::DestroyBusListener(m)) }), Some(MessageKind::DestroyBusListenerReply) => (match DestroyBusListenerReply::parse(f) { None => None, Some(m) => Some(Message::DestroyBusListenerReply(m)) }), Some(MessageKind::AddBusListenerFilter) => (match AddBusListenerFilter::parse(f) { None => None, Some(m) => Some(Message::AddBusListenerFilter(m)) }), Some(MessageKind::RemoveBusListenerFilter) => (match RemoveBusListenerFilter::parse(f) { None => None, Some(m) => Some(Message::RemoveBusListenerFilter(m)) }), Some(MessageKind::ClearBusListenerFilters) => (match ClearBusListenerFilters::parse(f) { None => None, Some(m) => Some(Message::ClearBusListenerFilters(m)) }), Some(MessageKind::StartBusListener) => (match StartBusListener::parse(f) { None => None, Some(m) => Some(Message::StartBusListener(m)) }), Some(MessageKind::StartBusListenerReply) => (match StartBusListenerReply::parse(f) { None => None, Some(m) => Some(Message::StartBusListenerReply(m)) }), Some(MessageKind::StopBusListener) => (match StopBusListener::parse(f) { None => None, Some(m) => Some(Message::StopBusListener(m)) }), Some(MessageKind::StopBusListenerReply) => (match StopBusListenerReply::parse(f) { None => None, Some(m) => Some(Message::StopBusListenerReply(m)) }), Some(MessageKind::EmitBusEvent) => (match EmitBusEvent::parse(f) { None => None, Some(m) => Some(Message::EmitBusEvent(m)) }), Some(MessageKind::BusListenerCurrentFinished) => (match BusListenerCurrentFinished::parse(f) { None => None, Some(m) => Some(Message::BusListenerCurrentFinished(m)) }), Some(MessageKind::Connect2) => (match Connect2::parse(f) { None => None, Some(m) => Some(Message::Connect2(m)) }), Some(MessageKind::ConnectReply2) => (match ConnectReply2::parse(f) { None => None, Some(m) => Some(Message::ConnectReply2(m)) }), Some(MessageKind::AbortFunctionCall) => (match AbortFunctionCall::parse(f) { None => None, Some(m) => Some(Message::AbortFunctionCall(m)) }), Some(MessageKind::RegisterIntrospection) => (match RegisterIntrospection::parse(f) { None => None, Some(m) => Some(Message::RegisterIntrospection(m)) }), Some(MessageKind::QueryIntrospection) => (match QueryIntrospection::parse(f) { None => None, Some(m) => Some(Message::QueryIntrospection(m)) }), Some(MessageKind::QueryIntrospectionReply) => (match QueryIntrospectionReply::parse(f) { None => None, Some(m) => Some(Message::QueryIntrospectionReply(m)) }), Some(MessageKind::CreateService2) => (match CreateService2::parse(f) { None => None, Some(m) => Some(Message::CreateService2(m)) }), Some(MessageKind::QueryServiceInfo) => (match QueryServiceInfo::parse(f) { None => None, Some(m) => Some(Message::QueryServiceInfo(m)) }), Some(MessageKind::QueryServiceInfoReply) => (match QueryServiceInfoReply::parse(f) { None => None, Some(m) => Some(Message::QueryServiceInfoReply(m)) }), Some(MessageKind::SubscribeService) => (match SubscribeService::parse(f) { None => None, Some(m) => Some(Message::SubscribeService(m)) }), Some(MessageKind::SubscribeServiceReply) => (match SubscribeServiceReply::parse(f) { None => None, Some(m) => Some(Message::SubscribeServiceReply(m)) }), Some(MessageKind::UnsubscribeService) => (match UnsubscribeService::parse(f) { None => None, Some(m) => Some(Message::UnsubscribeService(m)) }), Some(MessageKind::SubscribeAllEvents) => (match SubscribeAllEvents::parse(f) { None => None, Some(m) => Some(Message::SubscribeAllEvents(m)) }), Some(MessageKind::SubscribeAllEventsReply) => (match SubscribeAllEventsReply::parse(f) { None => None, Some(m) => Some(Message::SubscribeAllEventsReply(m)) }), Some(MessageKind::UnsubscribeAllEvents) => (match UnsubscribeAllEvents::parse(f) { None => None, Some(m) => Some(Message::UnsubscribeAllEvents(m)) }), Some(MessageKind::UnsubscribeAllEventsReply) => (match UnsubscribeAllEventsReply::parse(f) { None => None, Some(m) => Some(Message::UnsubscribeAllEventsReply(m)) }), Some(MessageKind::CallFunction2) => (match CallFunction2::parse(f) { None => None, Some(m) => Some(Message::CallFunction2(m)) }), } } }
    }
