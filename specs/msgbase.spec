// Wire primitives, frame header and value handling (C08)
subst bytes.into_iter() => vx_arr_iter(bytes)
subst T: TryFrom<u8> + PartialEq => T: VxDisc
subst T: TryFrom<u8> => T: VxDisc
subst impl Into<u8> => impl VxDisc
subst .into() => .vx_into()
subst .try_into() => .vx_try_into()
subst .to_le_bytes() => .vx_le()
subst u32::from_le_bytes => vx_u32_from_le
subst uuid::Bytes::default() => [0u8; 16]
subst (&mut bytes) => (bytes.vx_all_mut())
subst self.try_get_discriminant_u8::<T>()? == discriminant => vx_same(self.try_get_discriminant_u8::<T>()?, discriminant)
subst SerializedValue::serialize(()).unwrap() => vx_none_value()
text
    // ---- compound fields
    pub open spec fn gon(s: Seq<u8>) -> Option<(Option<u32>, Seq<u8>)> { match gd::<OptionKind>(s) { None => None, Some((OptionKind::None, t)) => Some((None, t)),
        Some((OptionKind::Some, t)) => match gn(t) { None => None, Some((n, w)) => Some((Some(n), w)) } } }
    pub open spec fn gou(s: Seq<u8>) -> Option<(Option<Uuid>, Seq<u8>)> { match gd::<OptionKind>(s) { None => None, Some((OptionKind::None, t)) => Some((None, t)),
        Some((OptionKind::Some, t)) => match gu(t) { None => None, Some((n, w)) => Some((Some(n), w)) } } }
    pub open spec fn gcap(s: Seq<u8>) -> Option<(ChannelEndWithCapacity, Seq<u8>)> { match gd::<ChannelEnd>(s) { None => None, Some((ChannelEnd::Sender, t)) => Some((ChannelEndWithCapacity::Sender, t)),
        Some((ChannelEnd::Receiver, t)) => match gn(t) { None => None, Some((n, w)) => Some((ChannelEndWithCapacity::Receiver(n), w)) } } }
    pub open spec fn gevent(s: Seq<u8>) -> Option<(BusEvent, Seq<u8>)> { match gd::<BusEventKind>(s) { None => None,
        Some((BusEventKind::ObjectCreated, t)) => match gobj(t) { None => None, Some((o, w)) => Some((BusEvent::ObjectCreated(o), w)) },
        Some((BusEventKind::ObjectDestroyed, t)) => match gobj(t) { None => None, Some((o, w)) => Some((BusEvent::ObjectDestroyed(o), w)) },
        Some((BusEventKind::ServiceCreated, t)) => match gsvc(t) { None => None, Some((o, w)) => Some((BusEvent::ServiceCreated(o), w)) },
        Some((BusEventKind::ServiceDestroyed, t)) => match gsvc(t) { None => None, Some((o, w)) => Some((BusEvent::ServiceDestroyed(o), w)) } } }
    pub open spec fn gfilter(s: Seq<u8>) -> Option<(BusListenerFilter, Seq<u8>)> { match gd::<BusListenerFilterKind>(s) { None => None,
        Some((BusListenerFilterKind::AnyObject, t)) => Some((BusListenerFilter::Object(None), t)),
        Some((BusListenerFilterKind::SpecificObject, t)) => match gu(t) { None => None, Some((u, w)) => Some((BusListenerFilter::Object(Some(ObjectUuid(u))), w)) },
        Some((BusListenerFilterKind::AnyObjectAnyService, t)) => Some((BusListenerFilter::Service(BusListenerServiceFilter { object: None, service: None }), t)),
        Some((BusListenerFilterKind::SpecificObjectAnyService, t)) => match gu(t) { None => None, Some((u, w)) => Some((BusListenerFilter::Service(BusListenerServiceFilter { object: Some(ObjectUuid(u)), service: None }), w)) },
        Some((BusListenerFilterKind::AnyObjectSpecificService, t)) => match gu(t) { None => None, Some((u, w)) => Some((BusListenerFilter::Service(BusListenerServiceFilter { object: None, service: Some(ServiceUuid(u)) }), w)) },
        Some((BusListenerFilterKind::SpecificObjectSpecificService, t)) => match gu(t) { None => None, Some((u, x)) => match gu(x) { None => None, Some((v, w)) => Some((BusListenerFilter::Service(BusListenerServiceFilter { object: Some(ObjectUuid(u)), service: Some(ServiceUuid(v)) }), w)) } } } }
    pub open spec fn pfilter(f: BusListenerFilter) -> Seq<u8> { match f {
        BusListenerFilter::Object(None) => pd(BusListenerFilterKind::AnyObject),
        BusListenerFilter::Object(Some(u)) => pd(BusListenerFilterKind::SpecificObject) + u.0@,
        BusListenerFilter::Service(x) => match (x.object, x.service) {
            (None, None) => pd(BusListenerFilterKind::AnyObjectAnyService),
            (Some(u), None) => pd(BusListenerFilterKind::SpecificObjectAnyService) + u.0@,
            (None, Some(v)) => pd(BusListenerFilterKind::AnyObjectSpecificService) + v.0@,
            (Some(u), Some(v)) => pd(BusListenerFilterKind::SpecificObjectSpecificService) + (u.0@ + v.0@) } } }
    // ---- frames: length prefix, kind, value
    #[verifier::opaque]
    pub open spec fn body_plain(f: Seq<u8>, k: MessageKind) -> Option<Seq<u8>> {
        if f.len() >= 5 && un4(f.take(4)) == f.len() && f[4] == k.vx_to() { Some(f.skip(5)) } else { None }
    }
    pub open spec fn vlen(f: Seq<u8>) -> int { un4(f.subrange(5, 9)) as int }
    #[verifier::opaque]
    pub open spec fn body_val(f: Seq<u8>, k: MessageKind) -> Option<(Seq<u8>, Seq<u8>)> {
        if f.len() >= 10 && un4(f.take(4)) == f.len() && f[4] == k.vx_to() && 1 <= vlen(f) <= f.len() - 9
        { Some((f.subrange(9, 9 + vlen(f)), f.skip(9 + vlen(f)))) } else { None }
    }
    /// the serialized value with this content
    pub open spec fn sv(c: Seq<u8>) -> SerializedValue { SerializedValue { buf: BytesMut::of(zeros(9) + c) } }
    pub open spec fn vok(v: Seq<u8>) -> bool { 1 <= v.len() <= 0xffff_ff00 }
    impl View for SerializedValue { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { if self.buf@.len() >= 9 { self.buf@.skip(9) } else { Seq::empty() } } }
    #[verifier::external_body]
    pub fn vx_none_value() -> (r: SerializedValue) ensures r.buf@ == zeros(9) + seq![0u8] { unimplemented!() }
    impl MessageSerializer {
        pub open spec fn kindb(self) -> u8 { self.buf@[4] }
        pub open spec fn f5(self) -> Seq<u8> { self.buf@.skip(5) }
        pub open spec fn hasval(self) -> bool { self.buf@.len() >= 10 && 1 <= vlen(self.buf@) <= self.buf@.len() - 9 }
        pub open spec fn val(self) -> Seq<u8> { self.buf@.subrange(9, 9 + vlen(self.buf@)) }
        pub open spec fn f9(self) -> Seq<u8> { self.buf@.skip(9 + vlen(self.buf@)) }
        pub open spec fn put(self, o: Self, x: Seq<u8>) -> bool {
            &&& self.buf@.len() == o.buf@.len() + x.len()
            &&& o.buf@.len() >= 5 ==> self.kindb() == o.kindb() && self.f5() == o.f5() + x
            &&& o.hasval() ==> self.hasval() && self.val() == o.val() && self.f9() == o.f9() + x
        }
    }
    pub proof fn put_app(n: MessageSerializer, o: MessageSerializer, x: Seq<u8>)
        requires n.buf@ == o.buf@ + x,
        ensures n.put(o, x),
    {
        if o.buf@.len() >= 5 { assert(n.f5() =~= o.f5() + x); }
        if o.hasval() {
            assert(n.buf@.subrange(5, 9) =~= o.buf@.subrange(5, 9));
            assert(n.val() =~= o.val()); assert(n.f9() =~= o.f9() + x);
        }
    }
source core/src/ids/object_uuid.rs
only =ObjectUuid
derive ObjectUuid Clone, Copy
text
    impl VxInto<ObjectUuid> for Uuid { open spec fn vx_conv(self) -> ObjectUuid { ObjectUuid(self) } fn vx_into(self) -> (r: ObjectUuid) { ObjectUuid::from(self) } }
inherent impl From<Uuid> for ObjectUuid
fn ObjectUuid::from
    ensures r == ObjectUuid(uuid), //@C08
source core/src/ids/object_cookie.rs
only =ObjectCookie
derive ObjectCookie Clone, Copy
text
    impl VxInto<ObjectCookie> for Uuid { open spec fn vx_conv(self) -> ObjectCookie { ObjectCookie(self) } fn vx_into(self) -> (r: ObjectCookie) { ObjectCookie::from(self) } }
inherent impl From<Uuid> for ObjectCookie
fn ObjectCookie::from
    ensures r == ObjectCookie(cookie), //@C08
source core/src/ids/service_uuid.rs
only =ServiceUuid
derive ServiceUuid Clone, Copy
text
    impl VxInto<ServiceUuid> for Uuid { open spec fn vx_conv(self) -> ServiceUuid { ServiceUuid(self) } fn vx_into(self) -> (r: ServiceUuid) { ServiceUuid::from(self) } }
inherent impl From<Uuid> for ServiceUuid
fn ServiceUuid::from
    ensures r == ServiceUuid(uuid), //@C08
source core/src/ids/service_cookie.rs
only =ServiceCookie
derive ServiceCookie Clone, Copy
text
    impl VxInto<ServiceCookie> for Uuid { open spec fn vx_conv(self) -> ServiceCookie { ServiceCookie(self) } fn vx_into(self) -> (r: ServiceCookie) { ServiceCookie::from(self) } }
inherent impl From<Uuid> for ServiceCookie
fn ServiceCookie::from
    ensures r == ServiceCookie(cookie), //@C08
source core/src/ids/channel_cookie.rs
only =ChannelCookie
derive ChannelCookie Clone, Copy
source core/src/ids/bus_listener_cookie.rs
only =BusListenerCookie
derive BusListenerCookie Clone, Copy
inherent impl From<Uuid> for BusListenerCookie
fn BusListenerCookie::from
    ensures r == BusListenerCookie(cookie), //@C08
source core/src/ids/type_id.rs
only =TypeId
derive TypeId Clone, Copy
source core/src/ids/object_id.rs
only =ObjectId ObjectId::new
derive ObjectId Clone, Copy
fn ObjectId::new
    ensures r.uuid == uuid, r.cookie == cookie, //@C08
source core/src/ids/service_id.rs
only =ServiceId ServiceId::new
derive ServiceId Clone, Copy
fn ServiceId::new
    ensures r.object_id == object_id, r.uuid == uuid, r.cookie == cookie, //@C08
source core/src/channel_end.rs
only =ChannelEnd =ChannelEndWithCapacity
derive ChannelEnd Clone, Copy
derive ChannelEndWithCapacity Clone, Copy
source core/src/bus_listener.rs
only BusListenerFilter::service =BusListenerScope =BusListenerFilter =BusListenerFilterKind =BusListenerServiceFilter =BusEvent BusListenerFilter::any_object BusListenerFilter::object BusListenerFilter::any_object_any_service BusListenerFilter::specific_object_any_service BusListenerFilter::any_object_specific_service BusListenerFilter::specific_object_and_service BusListenerFilter::serialize_into_message BusListenerFilter::deserialize_from_message BusListenerServiceFilter::any BusListenerServiceFilter::with_object BusListenerServiceFilter::with_service BusListenerServiceFilter::with_object_and_service
fn BusListenerFilter::service
    ensures r == BusListenerFilter::Service(filter), //@C08
fn BusListenerServiceFilter::any
    ensures r == (BusListenerServiceFilter { object: None, service: None }), //@C08
fn BusListenerServiceFilter::with_object
    ensures r == (BusListenerServiceFilter { object: Some(object), service: None }), //@C08
fn BusListenerServiceFilter::with_service
    ensures r == (BusListenerServiceFilter { object: None, service: Some(service) }), //@C08
fn BusListenerServiceFilter::with_object_and_service
    ensures r == (BusListenerServiceFilter { object: Some(object), service: Some(service) }), //@C08
fn BusListenerFilter::any_object
    ensures r == BusListenerFilter::Object(None), //@C08
fn BusListenerFilter::object
    ensures r == BusListenerFilter::Object(Some(object)), //@C08
fn BusListenerFilter::any_object_any_service
    ensures r == BusListenerFilter::Service(BusListenerServiceFilter { object: None, service: None }), //@C08
fn BusListenerFilter::specific_object_any_service
    ensures r == BusListenerFilter::Service(BusListenerServiceFilter { object: Some(object), service: None }), //@C08
fn BusListenerFilter::any_object_specific_service
    ensures r == BusListenerFilter::Service(BusListenerServiceFilter { object: None, service: Some(service) }), //@C08
fn BusListenerFilter::specific_object_and_service
    ensures r == BusListenerFilter::Service(BusListenerServiceFilter { object: Some(object), service: Some(service) }), //@C08
fn BusListenerFilter::serialize_into_message
    ensures final(serializer).put(*old(serializer), pfilter(self)), //@C08
fn BusListenerFilter::deserialize_from_message
    ensures
        r is Ok <==> gfilter(old(deserializer).buf@) is Some, //@C08
        r is Ok ==> gfilter(old(deserializer).buf@) == Some((r->Ok_0, final(deserializer).buf@)), //@C08
source core/src/buf_ext.rs
only BufMutExt MessageBufExt
traitimpl BufMutExt BytesMut
traitimpl MessageBufExt BytesMut
skip BufMutExt::put_varint_u16_le BufMutExt::put_varint_i16_le BufMutExt::put_varint_i32_le BufMutExt::put_varint_u64_le BufMutExt::put_varint_i64_le
fn BytesMut::put_discriminant_u8
    ensures final(self)@ == old(self)@ + pd(discriminant), //@C08
hint BytesMut::put_discriminant_u8 start
    proof { reveal(pd); }
fn BytesMut::put_varint_u32_le
    ensures final(self)@ == old(self)@ + pn(n), //@C08
hint BytesMut::put_varint_u32_le start
    proof { reveal(pn); }
fn BytesMut::put_varint_le
    requires 1 <= N <= 8, //@C08
    ensures final(self)@ == old(self)@ + pv(bytes@), //@C08
loop BytesMut::put_varint_le 0
    invariant
        *self == *old(self), 1 <= N <= 8, bytes@.len() == N, vx_it0.wf(), vx_it0.all().len() == N - 1,
        forall|i: int| #![trigger vx_it0.all()[i]] 0 <= i < N - 1 ==> vx_it0.all()[i].0 == i && vx_it0.all()[i].1 == bytes@[N - 1 - i],
        forall|j: int| N - vx_it0.pos() <= j < N ==> bytes@[j] == 0,
    ensures
        *self == *old(self), forall|j: int| 1 <= j < N ==> bytes@[j] == 0,
    decreases vx_it0.left(),
hint BytesMut::put_varint_le loop0.bind
    proof { if n != 0 { sig_is(bytes@, N - i); } }
hint BytesMut::put_varint_le loop0.after
    proof { sig_is(bytes@, 1); }
hint BytesMut::put_varint_le start
    assert(bytes@.len() == N);
fn BytesMut::try_get_discriminant_u8
    ensures
        r is Ok <==> gd::<T>(old(self)@) is Some, //@C08
        r is Ok ==> gd::<T>(old(self)@) == Some((r->Ok_0, final(self)@)), //@C08
hint BytesMut::try_get_discriminant_u8 start
    proof { reveal(gd); }
fn BytesMut::ensure_discriminant_u8
    ensures
        r is Ok <==> gd::<T>(old(self)@) is Some && gd::<T>(old(self)@) == Some((discriminant, old(self)@.skip(1))), //@C08
        r is Ok ==> final(self)@ == old(self)@.skip(1), //@C08
hint BytesMut::ensure_discriminant_u8 start
    proof { reveal(gd); }
fn BytesMut::try_get_varint_u32_le
    ensures
        r is Ok <==> gn(old(self)@) is Some, //@C08
        r is Ok ==> gn(old(self)@) == Some((r->Ok_0, final(self)@)), //@C08
hint BytesMut::try_get_varint_u32_le start
    proof { reveal(gn); }
fn BytesMut::try_get_varint_le
    requires 1 <= N <= 8, //@C08
    ensures
        r is Ok <==> gv(N as int, old(self)@) is Some, //@C08
        r is Ok ==> gv(N as int, old(self)@) == Some((r->Ok_0@, final(self)@)), //@C08
source core/src/serialized_value.rs
only =SerializedValue MSG_HEADER_LEN SerializedValue::new SerializedValue::empty SerializedValue::from_bytes_mut SerializedValue::into_bytes_mut
fn SerializedValue::empty
    ensures r.buf@.len() == 0, //@C08
fn SerializedValue::new
    ensures r.buf@ == zeros(9), //@C08
fn SerializedValue::from_bytes_mut
    requires buf@.len() > 9, //@C08
    ensures r.buf == buf, //@C08
fn SerializedValue::into_bytes_mut
    ensures r == self.buf, //@C08
source core/src/message/kind.rs
derive MessageKind Clone, Copy
fn MessageKind::has_value
    ensures r == hasv(self), //@C08
source core/src/message/error.rs
derive MessageSerializeError Debug
source core/src/message/serializer.rs
fn MessageSerializer::without_value
    requires !hasv(kind), //@C08
    ensures r.buf@.len() == 5, r.kindb() == kind.vx_to(), r.f5() == Seq::<u8>::empty(), //@C08
fn MessageSerializer::with_value
    requires hasv(kind), //@C08
    ensures
        r is Ok <==> 1 <= value@.len() <= 0xffff_ffff, //@C08
        r is Ok ==> r->Ok_0.buf@.len() == 9 + value@.len() && r->Ok_0.kindb() == kind.vx_to() && r->Ok_0.hasval() && r->Ok_0.val() == value@ && r->Ok_0.f9() == Seq::<u8>::empty(), //@C08
fn MessageSerializer::with_none_value
    requires hasv(kind), //@C08
    ensures
        r.buf@.len() == 10, r.kindb() == kind.vx_to(), r.hasval(), r.f9() == Seq::<u8>::empty(), //@C08
fn MessageSerializer::put_discriminant_u8
    ensures final(self).put(*old(self), pd(discriminant)), //@C08
hint MessageSerializer::put_discriminant_u8 end
    proof { put_app(*final(self), *old(self), pd(discriminant)); }
fn MessageSerializer::put_varint_u32_le
    ensures final(self).put(*old(self), pn(n)), //@C08
hint MessageSerializer::put_varint_u32_le end
    proof { put_app(*final(self), *old(self), pn(n)); }
fn MessageSerializer::put_uuid
    ensures final(self).put(*old(self), uuid@), //@C08
hint MessageSerializer::put_uuid end
    proof { put_app(*final(self), *old(self), uuid@); }
fn MessageSerializer::finish
    requires self.buf@.len() >= 5, //@C08
    ensures
        r is Ok <==> self.buf@.len() <= 0xffff_ffff, //@C08
        r is Ok ==> r->Ok_0@.len() == self.buf@.len() && un4(r->Ok_0@.take(4)) == r->Ok_0@.len(), //@C08
        r is Ok ==> r->Ok_0@[4] == self.kindb(), //@C08
        r is Ok ==> forall|k: MessageKind| #[trigger] k.vx_to() == self.kindb() ==> body_plain(r->Ok_0@, k) == Some(self.f5()), //@C08
        r is Ok && self.hasval() ==> forall|k: MessageKind| #[trigger] k.vx_to() == self.kindb() ==> body_val(r->Ok_0@, k) == Some((self.val(), self.f9())), //@C08
hint MessageSerializer::with_value end
    proof { le4_un4(value_len as u32); assert(buf@.subrange(5, 9) =~= le4(value_len as u32)); assert(buf@.subrange(9, 9 + vlen(buf@)) =~= value@); }
hint MessageSerializer::finish start
    proof { reveal(body_plain); reveal(body_val); le4_un4(self.buf@.len() as u32); }
source core/src/message/deserializer.rs
hint MessageWithoutValueDeserializer::new start
    proof { reveal(body_plain); reveal(gd); }
hint MessageWithValueDeserializer::new start
    proof { reveal(body_val); }
fn MessageWithoutValueDeserializer::new
    ensures
        r is Ok <==> body_plain(buf@, kind) is Some, //@C08
        r is Ok ==> body_plain(buf@, kind) == Some(r->Ok_0.buf@), //@C08
fn MessageWithoutValueDeserializer::try_get_discriminant_u8
    ensures
        r is Ok <==> gd::<T>(old(self).buf@) is Some, //@C08
        r is Ok ==> gd::<T>(old(self).buf@) == Some((r->Ok_0, final(self).buf@)), //@C08
fn MessageWithoutValueDeserializer::try_get_varint_u32_le
    ensures
        r is Ok <==> gn(old(self).buf@) is Some, //@C08
        r is Ok ==> gn(old(self).buf@) == Some((r->Ok_0, final(self).buf@)), //@C08
fn MessageWithoutValueDeserializer::try_get_uuid
    ensures
        r is Ok <==> gu(old(self).buf@) is Some, //@C08
        r is Ok ==> gu(old(self).buf@) == Some((r->Ok_0, final(self).buf@)), //@C08
hint MessageWithoutValueDeserializer::try_get_uuid start
    proof { reveal(gu); }
fn MessageWithoutValueDeserializer::finish
    ensures r is Ok <==> self.buf@.len() == 0, //@C08
fn MessageWithValueDeserializer::new
    requires hasv(kind), //@C08
    ensures
        r is Ok <==> body_val(buf@, kind) is Some, //@C08
        r is Ok ==> body_val(buf@, kind) == Some((r->Ok_0.header_and_value@.skip(9), r->Ok_0.msg@)) && r->Ok_0.header_and_value@.len() >= 10, //@C08
fn MessageWithValueDeserializer::try_get_discriminant_u8
    ensures
        final(self).header_and_value == old(self).header_and_value, //@C08
        r is Ok <==> gd::<T>(old(self).msg@) is Some, //@C08
        r is Ok ==> gd::<T>(old(self).msg@) == Some((r->Ok_0, final(self).msg@)), //@C08
fn MessageWithValueDeserializer::try_get_varint_u32_le
    ensures
        final(self).header_and_value == old(self).header_and_value, //@C08
        r is Ok <==> gn(old(self).msg@) is Some, //@C08
        r is Ok ==> gn(old(self).msg@) == Some((r->Ok_0, final(self).msg@)), //@C08
fn MessageWithValueDeserializer::try_get_uuid
    ensures
        final(self).header_and_value == old(self).header_and_value, //@C08
        r is Ok <==> gu(old(self).msg@) is Some, //@C08
        r is Ok ==> gu(old(self).msg@) == Some((r->Ok_0, final(self).msg@)), //@C08
hint MessageWithValueDeserializer::try_get_uuid start
    proof { reveal(gu); }
fn MessageWithValueDeserializer::finish
    requires self.header_and_value@.len() >= 10, //@C08
    ensures
        r is Ok <==> self.msg@.len() == 0, //@C08
        r is Ok ==> r->Ok_0@ == self.header_and_value@.skip(9) && r->Ok_0.buf@.len() == self.header_and_value@.len(), //@C08
fn MessageWithValueDeserializer::finish_discard_value
    ensures r is Ok <==> self.msg@.len() == 0, //@C08
source core/src/message.rs
only =Message =OptionKind
inherent impl MessageOps for Message
skip Message::value Message::value_mut Message::convert_value
fn Message::kind
    ensures r == self.vkind(), //@C08
fn Message::serialize_message verifier::rlimit(40) verifier::spinoff_prover
    ensures
        self.okay() ==> r is Ok, //@C08
        r is Ok ==> r->Ok_0@.len() == un4(r->Ok_0@.take(4)), //@C08
        r is Ok ==> Message::parse(r->Ok_0@) == Some(self.canon()), //@C08
fn Message::deserialize_message verifier::rlimit(60) verifier::spinoff_prover
    ensures
        r is Ok <==> Message::parse(buf@) is Some, //@C08
        r is Ok ==> Message::parse(buf@) == Some(r->Ok_0.canon()), //@C08
        r is Ok && buf@.len() <= 0xffff_ff00 ==> r->Ok_0.okay(), //@C08
post
    /// a serialized message parses to an equal message (values compare by content), and the length prefix is the length
    pub fn vx_roundtrip(m: Message)
        requires m.okay()
    {
        let r = m.serialize_message();
        assert(r is Ok); //@C08
        let b = match r { Ok(b) => b, Err(_) => { return; } };
        assert(b@.len() == un4(b@.take(4))); //@C08
        let p = Message::deserialize_message(b);
        assert(p is Ok); //@C08
        let ghost q = p->Ok_0;
        assert(q.canon() == m.canon()); //@C08
    }
    /// what is accepted serializes again, to a frame that parses to the same message
    pub fn vx_again(f: BytesMut)
        requires f@.len() <= 0xffff_ff00
    {
        let p = Message::deserialize_message(f);
        let m = match p { Ok(m) => m, Err(_) => { return; } };
        let ghost g = m;
        let r = m.serialize_message();
        assert(r is Ok); //@C08
        let b = match r { Ok(b) => b, Err(_) => { return; } };
        let p = Message::deserialize_message(b);
        assert(p is Ok && (p->Ok_0).canon() == g.canon()); //@C08
    }
