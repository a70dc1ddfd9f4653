// Values: buffers, integers and keys (C01, C07, C13)
subst bytes.into_iter() => vx_arr_iter(bytes)
subst T: TryFrom<u8> + PartialEq => T: VxDisc
subst T: TryFrom<u8> => T: VxDisc
subst impl Into<u8> => impl VxDisc
subst discriminant.into() => discriminant.vx_disc()
subst .try_into() => .vx_try_into()
subst .to_le_bytes() => .vx_le()
subst u16::from_le_bytes => vx_u16_from_le
subst u32::from_le_bytes => vx_u32_from_le
subst u64::from_le_bytes => vx_u64_from_le
subst uuid::Bytes::default() => [0u8; 16]
subst [0; N] => vx_zeros::<N>()
subst (&mut bytes) => (bytes.vx_all_mut())
subst self.try_get_discriminant_u8::<T>()? == discriminant => vx_same(self.try_get_discriminant_u8::<T>()?, discriminant)
subst type Key<'a> => type Key
subst Cow<'a, str> => VxStr
subst Self::Key<'_> => Self::Key
subst std::string::TagString::from_utf8 => vx_from_utf8
subst .map(Cow::Owned) => 
subst { mem::size_of::<u8>() } => 1
subst { mem::size_of::<i8>() } => 1
subst { mem::size_of::<u16>() } => 2
subst { mem::size_of::<i16>() } => 2
subst { mem::size_of::<u32>() } => 4
subst { mem::size_of::<i32>() } => 4
subst { mem::size_of::<u64>() } => 8
subst { mem::size_of::<i64>() } => 8
subst uuid::TagUuid => Uuid
subst uuid::Uuid => Uuid
subst Result<Bytes, DeserializeError> => Result<RawBytes, DeserializeError>
subst Sized + Sealed => Sized
subst tags::U8> => TagU8>
subst tags::I8> => TagI8>
subst tags::U16> => TagU16>
subst tags::I16> => TagI16>
subst tags::U32> => TagU32>
subst tags::I32> => TagI32>
subst tags::U64> => TagU64>
subst tags::I64> => TagI64>
subst tags::String> => TagString>
subst tags::Uuid> => TagUuid>
source core/src/ids/object_uuid.rs
only =ObjectUuid
derive ObjectUuid Clone, Copy
source core/src/ids/object_cookie.rs
only =ObjectCookie
derive ObjectCookie Clone, Copy
source core/src/ids/service_uuid.rs
only =ServiceUuid
derive ServiceUuid Clone, Copy
source core/src/ids/service_cookie.rs
only =ServiceCookie
derive ServiceCookie Clone, Copy
source core/src/ids/channel_cookie.rs
only =ChannelCookie
derive ChannelCookie Clone, Copy
source core/src/ids/object_id.rs
only =ObjectId ObjectId::new
derive ObjectId Clone, Copy
fn ObjectId::new
    ensures r.uuid == uuid, r.cookie == cookie, //@C01
source core/src/ids/service_id.rs
only =ServiceId ServiceId::new
derive ServiceId Clone, Copy
fn ServiceId::new
    ensures r.object_id == object_id, r.uuid == uuid, r.cookie == cookie, //@C01
source core/src/lib.rs
only MAX_VALUE_DEPTH
source core/src/value_kind.rs
derive ValueKind Clone, Copy, PartialEq, Eq, Structural
source core/src/serialize.rs
only =SerializeError
derive SerializeError Clone, Copy
source core/src/deserialize.rs
only =DeserializeError
derive DeserializeError Clone, Copy
source core/src/convert_value.rs
only =ValueConversionError
derive ValueConversionError Clone, Copy
text
    // derived by thiserror
    impl vstd::std_specs::convert::FromSpecImpl<DeserializeError> for ValueConversionError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: DeserializeError) -> Self { ValueConversionError::Deserialize(e) } }
    impl vstd::std_specs::convert::FromSpecImpl<SerializeError> for ValueConversionError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: SerializeError) -> Self { ValueConversionError::Serialize(e) } }
    impl From<DeserializeError> for ValueConversionError { fn from(e: DeserializeError) -> (r: Self) { ValueConversionError::Deserialize(e) } }
    impl From<SerializeError> for ValueConversionError { fn from(e: SerializeError) -> (r: Self) { ValueConversionError::Serialize(e) } }
source core/src/buf_ext.rs
only =BufMutExt =ValueBufExt zigzag_encode_i16 zigzag_decode_i16 zigzag_encode_i32 zigzag_decode_i32 zigzag_encode_i64 zigzag_decode_i64
keep impl BufMutExt for T
keep impl ValueBufExt for T
fn zigzag_encode_i16
    ensures r as int == zn(n as int), //@C01,C13
hint zigzag_encode_i16 start
    proof { assert(((n >> 15) as u16 ^ (n << 1) as u16) == (if n >= 0 { 2 * n } else { -2 * n - 1 }) as u16) by(bit_vector); }
fn zigzag_decode_i16
    ensures r as int == zz(n as int), //@C01,C13
hint zigzag_decode_i16 start
    proof {
        assert((n & 1) <= 1) by(bit_vector);
        assert(n % 2 == n & 1) by(bit_vector);
        let m = (n & 1) as i16;
        assert((n >> 1) == n / 2) by(bit_vector);
        assert(forall|a: i16| (a ^ 0i16) == a) by(bit_vector);
        assert(forall|a: i16| #[trigger] (a ^ -1i16) == -1i16 - a) by(bit_vector);
    }
fn zigzag_encode_i32
    ensures r as int == zn(n as int), //@C01,C13
hint zigzag_encode_i32 start
    proof { assert(((n >> 31) as u32 ^ (n << 1) as u32) == (if n >= 0 { 2 * n } else { -2 * n - 1 }) as u32) by(bit_vector); }
fn zigzag_decode_i32
    ensures r as int == zz(n as int), //@C01,C13
hint zigzag_decode_i32 start
    proof {
        assert((n & 1) <= 1) by(bit_vector);
        assert(n % 2 == n & 1) by(bit_vector);
        assert((n >> 1) == n / 2) by(bit_vector);
        assert(forall|a: i32| (a ^ 0i32) == a) by(bit_vector);
        assert(forall|a: i32| #[trigger] (a ^ -1i32) == -1i32 - a) by(bit_vector);
    }
fn zigzag_encode_i64
    ensures r as int == zn(n as int), //@C01,C13
hint zigzag_encode_i64 start
    proof { assert(((n >> 63) as u64 ^ (n << 1) as u64) == (if n >= 0 { 2 * n } else { -2 * n - 1 }) as u64) by(bit_vector); }
fn zigzag_decode_i64
    ensures r as int == zz(n as int), //@C01,C13
hint zigzag_decode_i64 start
    proof {
        assert((n & 1) <= 1) by(bit_vector);
        assert(n % 2 == n & 1) by(bit_vector);
        assert((n >> 1) == n / 2) by(bit_vector);
        assert(forall|a: i64| (a ^ 0i64) == a) by(bit_vector);
        assert(forall|a: i64| #[trigger] (a ^ -1i64) == -1i64 - a) by(bit_vector);
    }
fn BufMutExt::put_discriminant_u8
    ensures final(self).out() == old(self).out() + pd(discriminant), //@C01,C13
hint BufMutExt::put_discriminant_u8 start
    proof { reveal(pd); }
fn BufMutExt::put_varint_u16_le
    ensures final(self).out() == old(self).out() + pn2(n), //@C01,C13
hint BufMutExt::put_varint_u16_le start
    proof { reveal(pn2); }
fn BufMutExt::put_varint_i16_le
    ensures final(self).out() == old(self).out() + pn2(zn(n as int) as u16), //@C01,C13
fn BufMutExt::put_varint_u32_le
    ensures final(self).out() == old(self).out() + pn(n), //@C01,C13
hint BufMutExt::put_varint_u32_le start
    proof { reveal(pn); }
fn BufMutExt::put_varint_i32_le
    ensures final(self).out() == old(self).out() + pn(zn(n as int) as u32), //@C01,C13
fn BufMutExt::put_varint_u64_le
    ensures final(self).out() == old(self).out() + pn8(n), //@C01,C13
hint BufMutExt::put_varint_u64_le start
    proof { reveal(pn8); }
fn BufMutExt::put_varint_i64_le
    ensures final(self).out() == old(self).out() + pn8(zn(n as int) as u64), //@C01,C13
fn BufMutExt::put_varint_le
    requires 1 <= N <= 8, //@C01,C13
    ensures final(self).out() == old(self).out() + pv(bytes@), //@C01,C13
loop BufMutExt::put_varint_le 0
    invariant
        self.out() == old(self).out(), 1 <= N <= 8, bytes@.len() == N, vx_it0.wf(), vx_it0.all().len() == N - 1,
        forall|i: int| #![trigger vx_it0.all()[i]] 0 <= i < N - 1 ==> vx_it0.all()[i].0 == i && vx_it0.all()[i].1 == bytes@[N - 1 - i],
        forall|j: int| N - vx_it0.pos() <= j < N ==> bytes@[j] == 0,
    ensures
        self.out() == old(self).out(), forall|j: int| 1 <= j < N ==> bytes@[j] == 0,
    decreases vx_it0.left(),
hint BufMutExt::put_varint_le loop0.bind
    proof { if n != 0 { sig_is(bytes@, N - i); } }
hint BufMutExt::put_varint_le loop0.after
    proof { sig_is(bytes@, 1); }
hint BufMutExt::put_varint_le start
    assert(bytes@.len() == N);
fn ValueBufExt::try_get_discriminant_u8
    ensures
        r is Ok <==> gd::<T>(old(self).rest()) is Some, //@C07,C01,C13
        r is Ok ==> gd::<T>(old(self).rest()) == Some((r->Ok_0, final(self).rest())), //@C07,C01,C13
hint ValueBufExt::try_get_discriminant_u8 start
    proof { reveal(gd); }
fn ValueBufExt::try_peek_discriminant_u8
    ensures
        r is Ok <==> gd::<T>(self.rest()) is Some, //@C07,C01
        r is Ok ==> gd::<T>(self.rest())->Some_0.0 == r->Ok_0, //@C07,C01
hint ValueBufExt::try_peek_discriminant_u8 start
    proof { reveal(gd); }
fn ValueBufExt::ensure_discriminant_u8
    ensures
        r is Ok <==> gd::<T>(old(self).rest()) is Some && gd::<T>(old(self).rest())->Some_0.0 == discriminant, //@C07,C01
        r is Ok ==> gd::<T>(old(self).rest()) == Some((discriminant, final(self).rest())), //@C07,C01
hint ValueBufExt::ensure_discriminant_u8 start
    proof { reveal(gd); }
fn ValueBufExt::try_get_varint_u16_le
    ensures
        r is Ok <==> gn2(old(self).rest()) is Some, //@C07,C01,C13
        r is Ok ==> gn2(old(self).rest()) == Some((r->Ok_0, final(self).rest())), //@C07,C01,C13
hint ValueBufExt::try_get_varint_u16_le start
    proof { reveal(gn2); }
fn ValueBufExt::try_get_varint_i16_le
    ensures
        r is Ok <==> gn2(old(self).rest()) is Some, //@C07,C01,C13
        r is Ok ==> zz(gn2(old(self).rest())->Some_0.0 as int) == r->Ok_0 && gn2(old(self).rest())->Some_0.1 == final(self).rest(), //@C07,C01,C13
fn ValueBufExt::try_get_varint_u32_le
    ensures
        r is Ok <==> gn(old(self).rest()) is Some, //@C07,C01,C13
        r is Ok ==> gn(old(self).rest()) == Some((r->Ok_0, final(self).rest())), //@C07,C01,C13
hint ValueBufExt::try_get_varint_u32_le start
    proof { reveal(gn); }
fn ValueBufExt::try_get_varint_i32_le
    ensures
        r is Ok <==> gn(old(self).rest()) is Some, //@C07,C01,C13
        r is Ok ==> zz(gn(old(self).rest())->Some_0.0 as int) == r->Ok_0 && gn(old(self).rest())->Some_0.1 == final(self).rest(), //@C07,C01,C13
fn ValueBufExt::try_get_varint_u64_le
    ensures
        r is Ok <==> gn8(old(self).rest()) is Some, //@C07,C01,C13
        r is Ok ==> gn8(old(self).rest()) == Some((r->Ok_0, final(self).rest())), //@C07,C01,C13
hint ValueBufExt::try_get_varint_u64_le start
    proof { reveal(gn8); }
fn ValueBufExt::try_get_varint_i64_le
    ensures
        r is Ok <==> gn8(old(self).rest()) is Some, //@C07,C01,C13
        r is Ok ==> zz(gn8(old(self).rest())->Some_0.0 as int) == r->Ok_0 && gn8(old(self).rest())->Some_0.1 == final(self).rest(), //@C07,C01,C13
fn ValueBufExt::try_get_varint_le
    requires 1 <= N <= 8, //@C07,C01,C13
    ensures
        r is Ok <==> gv(N as int, old(self).rest()) is Some, //@C07,C01,C13
        r is Ok ==> gv(N as int, old(self).rest()) == Some((r->Ok_0@, final(self).rest())), //@C07,C01,C13
hint ValueBufExt::try_get_varint_le end
    proof { let s = old(self).rest(); assert(bytes@ =~= gv(N as int, s)->Some_0.0); assert(self.rest() =~= gv(N as int, s)->Some_0.1); }
fn ValueBufExt::try_copy_to_bytes
    ensures
        r is Ok <==> gb(len as int, old(self).rest()) is Some, //@C07,C01
        r is Ok ==> gb(len as int, old(self).rest()) == Some((r->Ok_0@, final(self).rest())), //@C07,C01
hint ValueBufExt::try_copy_to_bytes start
    proof { reveal(gb); }
fn ValueBufExt::try_skip
    ensures
        r is Ok <==> gb(len as int, old(self).rest()) is Some, //@C07
        r is Ok ==> final(self).rest() == gb(len as int, old(self).rest())->Some_0.1, //@C07
hint ValueBufExt::try_skip start
    proof { reveal(gb); }
fn ValueBufExt::try_skip_varint_le
    requires 1 <= N <= 8, //@C07
    ensures
        r is Ok <==> gv(N as int, old(self).rest()) is Some, //@C07
        r is Ok ==> final(self).rest() == gv(N as int, old(self).rest())->Some_0.1, //@C07
hint ValueBufExt::try_skip_varint_le start
    proof { reveal(gb); }
source core/src/tags.rs
only U8 I8 U16 I16 U32 I32 U64 I64 String Uuid
rename U8 TagU8
rename I8 TagI8
rename U16 TagU16
rename I16 TagI16
rename U32 TagU32
rename I32 TagI32
rename U64 TagU64
rename I64 TagI64
rename String TagString
rename Uuid TagUuid
source core/src/tags/key.rs
only =KeyTag
rename U8 TagU8
rename I8 TagI8
rename U16 TagU16
rename I16 TagI16
rename U32 TagU32
rename I32 TagI32
rename U64 TagU64
rename I64 TagI64
rename String TagString
rename Uuid TagUuid
keep impl KeyTag for U8
keep impl KeyTag for I8
keep impl KeyTag for U16
keep impl KeyTag for I16
keep impl KeyTag for U32
keep impl KeyTag for I32
keep impl KeyTag for U64
keep impl KeyTag for I64
keep impl KeyTag for String
keep impl KeyTag for Uuid
source core/src/tags/key_impl.rs
only =KeyTagImpl
rename U8 TagU8
rename I8 TagI8
rename U16 TagU16
rename I16 TagI16
rename U32 TagU32
rename I32 TagI32
rename U64 TagU64
rename I64 TagI64
rename String TagString
rename Uuid TagUuid
keep impl KeyTagImpl for U8
keep impl KeyTagImpl for I8
keep impl KeyTagImpl for U16
keep impl KeyTagImpl for I16
keep impl KeyTagImpl for U32
keep impl KeyTagImpl for I32
keep impl KeyTagImpl for U64
keep impl KeyTagImpl for I64
keep impl KeyTagImpl for String
keep impl KeyTagImpl for Uuid
implspec trait KeyTagImpl
    spec fn kt() -> KT;
    spec fn vkey(k: Self::Key) -> Key;
    proof fn vx_kinds() ensures
        Self::VALUE_KIND_MAP1 == map_kind(Self::kt(), false), //@C01,C07,C13
        Self::VALUE_KIND_MAP2 == map_kind(Self::kt(), true), //@C01,C07,C13
        Self::VALUE_KIND_SET1 == set_kind(Self::kt(), false), //@C01,C07,C13
        Self::VALUE_KIND_SET2 == set_kind(Self::kt(), true); //@C01,C07,C13
    proof fn vx_key(k: Self::Key) ensures utf8_key(Self::vkey(k)), kt_of(Self::vkey(k)) == Self::kt();
implspec impl KeyTagImpl for TagU8
    open spec fn kt() -> KT { KT::U8 }
    open spec fn vkey(k: u8) -> Key { Key::U8(k) }
    proof fn vx_kinds() { }
    proof fn vx_key(k: u8) { }
implspec impl KeyTagImpl for TagI8
    open spec fn kt() -> KT { KT::I8 }
    open spec fn vkey(k: i8) -> Key { Key::I8(k) }
    proof fn vx_kinds() { }
    proof fn vx_key(k: i8) { }
implspec impl KeyTagImpl for TagU16
    open spec fn kt() -> KT { KT::U16 }
    open spec fn vkey(k: u16) -> Key { Key::U16(k) }
    proof fn vx_kinds() { }
    proof fn vx_key(k: u16) { }
implspec impl KeyTagImpl for TagI16
    open spec fn kt() -> KT { KT::I16 }
    open spec fn vkey(k: i16) -> Key { Key::I16(k) }
    proof fn vx_kinds() { }
    proof fn vx_key(k: i16) { }
implspec impl KeyTagImpl for TagU32
    open spec fn kt() -> KT { KT::U32 }
    open spec fn vkey(k: u32) -> Key { Key::U32(k) }
    proof fn vx_kinds() { }
    proof fn vx_key(k: u32) { }
implspec impl KeyTagImpl for TagI32
    open spec fn kt() -> KT { KT::I32 }
    open spec fn vkey(k: i32) -> Key { Key::I32(k) }
    proof fn vx_kinds() { }
    proof fn vx_key(k: i32) { }
implspec impl KeyTagImpl for TagU64
    open spec fn kt() -> KT { KT::U64 }
    open spec fn vkey(k: u64) -> Key { Key::U64(k) }
    proof fn vx_kinds() { }
    proof fn vx_key(k: u64) { }
implspec impl KeyTagImpl for TagI64
    open spec fn kt() -> KT { KT::I64 }
    open spec fn vkey(k: i64) -> Key { Key::I64(k) }
    proof fn vx_kinds() { }
    proof fn vx_key(k: i64) { }
implspec impl KeyTagImpl for TagString
    open spec fn kt() -> KT { KT::Str }
    open spec fn vkey(k: VxStr) -> Key { Key::Str(k@) }
    proof fn vx_kinds() { }
    proof fn vx_key(k: VxStr) { }
implspec impl KeyTagImpl for TagUuid
    open spec fn kt() -> KT { KT::Uuid }
    open spec fn vkey(k: Uuid) -> Key { Key::Uuid(k) }
    proof fn vx_kinds() { }
    proof fn vx_key(k: Uuid) { }
fn KeyTagImpl::serialize_key
    ensures
        r is Ok <==> fits_key(Self::vkey(key)), //@C01
        r is Ok ==> final(buf).out() == old(buf).out() + pkey(Self::vkey(key)), //@C01
fn KeyTagImpl::deserialize_key
    ensures
        r is Ok <==> gkey(Self::kt(), old(buf).rest()) is Some && utf8_key(gkey(Self::kt(), old(buf).rest())->Some_0.0), //@C07,C01
        r is Ok ==> gkey(Self::kt(), old(buf).rest()) == Some((Self::vkey(r->Ok_0), final(buf).rest())), //@C07,C01
fn KeyTagImpl::skip
    ensures
        r is Ok <==> gkey(Self::kt(), old(buf).rest()) is Some, //@C07
        r is Ok ==> final(buf).rest() == gkey(Self::kt(), old(buf).rest())->Some_0.1, //@C07
fn KeyTagImpl::convert
    ensures
        r is Ok <==> gkey(Self::kt(), old(src)@) is Some, //@C13
        r is Ok ==> final(src)@ == gkey(Self::kt(), old(src)@)->Some_0.1 && final(dst)@ == old(dst)@ + pkey(gkey(Self::kt(), old(src)@)->Some_0.0), //@C13
hint <TagU8asKeyTagImpl>::skip start
    proof { reveal(gb); }
hint <TagI8asKeyTagImpl>::skip start
    proof { reveal(gb); }
hint <TagU16asKeyTagImpl>::skip start
    proof { reveal(gn2); }
hint <TagI16asKeyTagImpl>::skip start
    proof { reveal(gn2); }
hint <TagU32asKeyTagImpl>::skip start
    proof { reveal(gn); }
hint <TagI32asKeyTagImpl>::skip start
    proof { reveal(gn); }
hint <TagU64asKeyTagImpl>::skip start
    proof { reveal(gn8); }
hint <TagI64asKeyTagImpl>::skip start
    proof { reveal(gn8); }
hint <TagUuidasKeyTagImpl>::skip start
    proof { reveal(gb); reveal(gu); }
hint <TagUuidasKeyTagImpl>::deserialize_key start
    proof { reveal(gu); }
hint <TagUuidasKeyTagImpl>::convert start
    proof { reveal(gu); }
hint <TagStringasKeyTagImpl>::convert start
    proof { reveal(gb); }
