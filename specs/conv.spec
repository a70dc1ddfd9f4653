// Converting values between epochs (C13)
source core/src/convert_value.rs
only =Epoch =Convert Convert::new Convert::increment_depth Convert::convert Convert::convert_next Convert::convert_none Convert::convert_some Convert::convert_bool Convert::convert_u8 Convert::convert_i8 Convert::convert_u16 Convert::convert_i16 Convert::convert_u32 Convert::convert_i32 Convert::convert_u64 Convert::convert_i64 Convert::convert_f32 Convert::convert_f64 Convert::convert_string Convert::convert_uuid Convert::convert_object_id Convert::convert_service_id Convert::convert_sender Convert::convert_receiver Convert::convert_bytes1 Convert::convert_enum Convert::convert_vec1 Convert::convert_vec2 Convert::convert_vec2_to_vec1 Convert::convert_struct1 Convert::convert_struct2 Convert::convert_struct2_to_struct1 Convert::convert_map1 Convert::convert_map2 Convert::convert_map2_to_map1 Convert::convert_set1 Convert::convert_set2 Convert::convert_set2_to_set1 Convert::convert_bytes2 Convert::convert_bytes2_to_bytes1 convert convert_mut convert_in_message
derive Epoch Clone, Copy, PartialEq, Eq, Structural
inherent impl TryFrom<ProtocolVersion> for Epoch
fn Epoch::try_from
    ensures
        epoch_of(version) is Some ==> r == Ok::<Epoch, ValueConversionError>(epoch_of(version)->Some_0), //@C13
        epoch_of(version) is None ==> r == Err::<Epoch, ValueConversionError>(ValueConversionError::InvalidVersion), //@C13
fn convert
    ensures match (epoch_of(from_of(from)), epoch_of(to)) {
        (Some(f), Some(t)) => if f is V2 && t is V1 {
            match dec(true, value@, 1) { None => r is Err, Some((v, x)) => if x.len() == 0 && fits(v) { r is Ok && r->Ok_0@ == enc(false, v) && dec(false, r->Ok_0@, 1) == Some((v, Seq::<u8>::empty())) && dec(true, r->Ok_0@, 1) == Some((v, Seq::<u8>::empty())) } else { r is Err } } //@C13
        } else { r is Ok && r->Ok_0@ == value@ }, //@C13
        _ => r is Err }, //@C13
        r is Ok && r->Ok_0 is Borrowed ==> r->Ok_0@ == value@, //@C13
hint convert start
    proof { let s = value@; if dec(true, s, 1) is Some { let v = dec(true, s, 1)->Some_0.0; dec_ok(true, s, 1); if fits(v) { val_rt(false, false, v, 1, Seq::empty()); val_rt(true, false, v, 1, Seq::empty()); assert(enc(false, v) + Seq::empty() =~= enc(false, v)); reveal(gd); assert(dec(true, Seq::<u8>::empty(), 1) is None); assert(enc(false, v).len() > 0); } } }
fn convert_mut
    ensures conv_rel(old(value)@, from, to, r is Ok, final(value)@), //@C13
fn convert_in_message
    ensures
        old(msg).vx_value() is None ==> r is Ok && final(msg).vx_value() is None, //@C13
        old(msg).vx_value() is Some ==> final(msg).vx_value() is Some && conv_rel(old(msg).vx_value()->Some_0@, from, to, r is Ok, final(msg).vx_value()->Some_0@), //@C13
fn Convert::new
    requires depth <= 32, epoch is V1, //@C13
    ensures
        r is Ok <==> depth < 32, //@C13
        r is Ok ==> r->Ok_0.depth == depth + 1 && r->Ok_0.epoch == epoch && *r->Ok_0.src == *old(src) && *final(r->Ok_0.src) == *final(src) && *r->Ok_0.dst == *old(dst) && *final(r->Ok_0.dst) == *final(dst), //@C13
fn Convert::increment_depth
    requires old(self).depth <= 32, //@C13
    ensures
        r is Ok <==> old(self).depth < 32, //@C13
        final(self).depth == old(self).depth + 1, final(self).epoch == old(self).epoch, //@C13
        *final(self).src == *old(self).src, *final(final(self).src) == *final(old(self).src), *final(self).dst == *old(self).dst, *final(final(self).dst) == *final(old(self).dst), //@C13
fn Convert::convert verifier::rlimit(60)
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec(true, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 3nat,
hint Convert::convert start
    proof { let s = (*old(self.src))@; let d = self.depth as int; if gd::<ValueKind>(s) is Some { let (k, t) = gd::<ValueKind>(s)->Some_0; assert(dec(true, s, d) == dec_k(true, k, t, d)); } }
fn Convert::convert_next
    requires 1 <= old(self).depth <= 32, old(self).epoch is V1, //@C13
    ensures
        final(self).depth == old(self).depth, final(self).epoch == old(self).epoch, *final(final(self).src) == *final(old(self).src), *final(final(self).dst) == *final(old(self).dst), //@C13
        conv_post(dec(true, (*old(self).src)@, old(self).depth + 1), r is Ok, (*final(self).src)@, (*old(self).dst)@, (*final(self).dst)@), //@C13
    decreases 64 - old(self).depth, 1nat,
hint Convert::convert_next start
    proof { dec_deep(true, (*old(self).src)@, 33); }
fn Convert::convert_none
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::None, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
fn Convert::convert_some
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::Some, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
fn Convert::convert_bool
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::Bool, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
fn Convert::convert_u8
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::U8, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
fn Convert::convert_i8
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::I8, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
fn Convert::convert_u16
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::U16, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
fn Convert::convert_i16
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::I16, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
fn Convert::convert_u32
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::U32, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
fn Convert::convert_i32
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::I32, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
fn Convert::convert_u64
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::U64, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
fn Convert::convert_i64
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::I64, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
fn Convert::convert_f32
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::F32, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
hint Convert::convert_f32 start
    proof { let s = (*old(self.src))@; gb_len(4, s); if gb(4, s) is Some { un4_le4(gb(4, s)->Some_0.0); } }
fn Convert::convert_f64
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::F64, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
hint Convert::convert_f64 start
    proof { let s = (*old(self.src))@; gb_len(8, s); if gb(8, s) is Some { un8_le8(gb(8, s)->Some_0.0); } }
fn Convert::convert_string
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::String, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
hint Convert::convert_string start
    proof { reveal(gb); }
fn Convert::convert_uuid
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::Uuid, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
hint Convert::convert_uuid start
    proof { reveal(gu); }
fn Convert::convert_object_id
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::ObjectId, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
hint Convert::convert_object_id start
    proof { reveal(gu); }
fn Convert::convert_service_id
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::ServiceId, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
hint Convert::convert_service_id start
    proof { reveal(gu); }
fn Convert::convert_sender
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::Sender, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
hint Convert::convert_sender start
    proof { reveal(gu); }
fn Convert::convert_receiver
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::Receiver, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
hint Convert::convert_receiver start
    proof { reveal(gu); }
fn Convert::convert_bytes1
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::Bytes1, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
hint Convert::convert_bytes1 start
    proof { reveal(gb); }
fn Convert::convert_enum
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::Enum, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
fn Convert::convert_vec1
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::Vec1, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
hint Convert::convert_vec1 start
    let ghost mut vx_acc = Seq::<Ent>::empty(); let ghost vx_d = self.depth as int; let ghost vx_d0 = (*old(self.dst))@; let ghost vx_o = dec_k(true, ValueKind::Vec1, (*old(self.src))@, self.depth as int); proof { kind_shape(Shape::Vec, false); }
loop Convert::convert_vec1 0
    invariant
        vx_o == dec_k(true, ValueKind::Vec1, (*old(self.src))@, self.depth as int),
        *final(vx_self.src) == *final(self.src), *final(vx_self.dst) == *final(self.dst), vx_self.depth == vx_d, vx_self.epoch is V1, 1 <= vx_d <= 32, vx_d == self.depth, vx_acc.len() == vx_k0, vx_d0 == (*old(self.dst))@,
        vx_o == (match dec1(true, Shape::Vec, (*vx_self.src)@, (len - vx_k0) as nat, vx_d, vx_acc) { None => None, Some((l, w)) => Some((V::List(Shape::Vec, l), w)) }),
        (*vx_self.dst)@ == vx_d0 + pd(ValueKind::Vec1) + pn(len) + encs(false, Shape::Vec, vx_acc),
        forall|i: int| 0 <= i < vx_acc.len() ==> fits((#[trigger] vx_acc[i]).v),
hint Convert::convert_vec1 loop0.start
    let ghost vx_s = (*vx_self.src)@;
    proof { conv1_step(Shape::Vec, vx_s, (len - vx_k0) as nat, vx_d, vx_acc); }
hint Convert::convert_vec1 loop0.end
    proof { vx_acc = vx_acc.push(dec_e(true, Shape::Vec, vx_s, vx_d)->Some_0.0); }
hint Convert::convert_vec1 loop0.after
    proof { assert(enc(false, V::List(Shape::Vec, vx_acc)) =~= pd(ValueKind::Vec1) + pn(len) + encs(false, Shape::Vec, vx_acc)); }
fn Convert::convert_vec2
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::Vec2, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
fn Convert::convert_vec2_to_vec1
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::Vec2, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 1nat,
hint Convert::convert_vec2_to_vec1 start
    let ghost mut vx_acc = Seq::<Ent>::empty(); let ghost vx_d = self.depth as int; let ghost vx_d0 = (*old(self.dst))@; let ghost vx_s0 = (*old(self.src))@; let ghost vx_o = dec_k(true, ValueKind::Vec2, vx_s0, self.depth as int); proof { kind_shape(Shape::Vec, true); assert(vstd::slice::spec_slice_len(*self.src) == vx_s0.len()); }
loop Convert::convert_vec2_to_vec1 0
    invariant
        vx_o == dec_k(true, ValueKind::Vec2, (*old(self.src))@, self.depth as int),
        1 <= vx_d <= 32, vx_d == self.depth, self.epoch is V1, vx_acc.len() == len, vx_d0 == (*old(self.dst))@, (*self.dst)@ == vx_d0,
        len + (*self.src)@.len() <= vx_s0.len() <= usize::MAX,
        vx_o == (match dec2(true, Shape::Vec, (*self.src)@, vx_d, vx_acc) { None => None, Some((l, w)) => Some((V::List(Shape::Vec, l), w)) }),
        tmp@ == encs(false, Shape::Vec, vx_acc),
        forall|i: int| 0 <= i < vx_acc.len() ==> fits((#[trigger] vx_acc[i]).v),
    decreases (*self.src)@.len(),
hint Convert::convert_vec2_to_vec1 loop0.start
    let ghost vx_s = (*self.src)@;
    proof { conv2_step(Shape::Vec, vx_s, vx_d, vx_acc); }
hint Convert::convert_vec2_to_vec1 loop0.end
    proof { vx_acc = vx_acc.push(dec_e(true, Shape::Vec, gd::<ValueKind>(vx_s)->Some_0.1, vx_d)->Some_0.0); }
fn Convert::convert_struct1
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::Struct1, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
hint Convert::convert_struct1 start
    let ghost mut vx_acc = Seq::<Ent>::empty(); let ghost vx_d = self.depth as int; let ghost vx_d0 = (*old(self.dst))@; let ghost vx_o = dec_k(true, ValueKind::Struct1, (*old(self.src))@, self.depth as int); proof { kind_shape(Shape::Struct, false); }
loop Convert::convert_struct1 0
    invariant
        vx_o == dec_k(true, ValueKind::Struct1, (*old(self.src))@, self.depth as int),
        *final(vx_self.src) == *final(self.src), *final(vx_self.dst) == *final(self.dst), vx_self.depth == vx_d, vx_self.epoch is V1, 1 <= vx_d <= 32, vx_d == self.depth, vx_acc.len() == vx_k0, vx_d0 == (*old(self.dst))@,
        vx_o == (match dec1(true, Shape::Struct, (*vx_self.src)@, (len - vx_k0) as nat, vx_d, vx_acc) { None => None, Some((l, w)) => Some((V::List(Shape::Struct, l), w)) }),
        (*vx_self.dst)@ == vx_d0 + pd(ValueKind::Struct1) + pn(len) + encs(false, Shape::Struct, vx_acc),
        forall|i: int| 0 <= i < vx_acc.len() ==> fits((#[trigger] vx_acc[i]).v),
hint Convert::convert_struct1 loop0.start
    let ghost vx_s = (*vx_self.src)@;
    proof { conv1_step(Shape::Struct, vx_s, (len - vx_k0) as nat, vx_d, vx_acc); }
hint Convert::convert_struct1 loop0.end
    proof { vx_acc = vx_acc.push(dec_e(true, Shape::Struct, vx_s, vx_d)->Some_0.0); }
hint Convert::convert_struct1 loop0.after
    proof { assert(enc(false, V::List(Shape::Struct, vx_acc)) =~= pd(ValueKind::Struct1) + pn(len) + encs(false, Shape::Struct, vx_acc)); }
fn Convert::convert_struct2
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::Struct2, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
fn Convert::convert_struct2_to_struct1
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::Struct2, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 1nat,
hint Convert::convert_struct2_to_struct1 start
    let ghost mut vx_acc = Seq::<Ent>::empty(); let ghost vx_d = self.depth as int; let ghost vx_d0 = (*old(self.dst))@; let ghost vx_s0 = (*old(self.src))@; let ghost vx_o = dec_k(true, ValueKind::Struct2, vx_s0, self.depth as int); proof { kind_shape(Shape::Struct, true); assert(vstd::slice::spec_slice_len(*self.src) == vx_s0.len()); }
loop Convert::convert_struct2_to_struct1 0
    invariant
        vx_o == dec_k(true, ValueKind::Struct2, (*old(self.src))@, self.depth as int),
        1 <= vx_d <= 32, vx_d == self.depth, self.epoch is V1, vx_acc.len() == len, vx_d0 == (*old(self.dst))@, (*self.dst)@ == vx_d0,
        len + (*self.src)@.len() <= vx_s0.len() <= usize::MAX,
        vx_o == (match dec2(true, Shape::Struct, (*self.src)@, vx_d, vx_acc) { None => None, Some((l, w)) => Some((V::List(Shape::Struct, l), w)) }),
        tmp@ == encs(false, Shape::Struct, vx_acc),
        forall|i: int| 0 <= i < vx_acc.len() ==> fits((#[trigger] vx_acc[i]).v),
    decreases (*self.src)@.len(),
hint Convert::convert_struct2_to_struct1 loop0.start
    let ghost vx_s = (*self.src)@;
    proof { conv2_step(Shape::Struct, vx_s, vx_d, vx_acc); }
hint Convert::convert_struct2_to_struct1 loop0.end
    proof { vx_acc = vx_acc.push(dec_e(true, Shape::Struct, gd::<ValueKind>(vx_s)->Some_0.1, vx_d)->Some_0.0); }
fn Convert::convert_map1
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, map_kind(<K as KeyTagImpl>::kt(), false), (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
hint Convert::convert_map1 start
    let ghost mut vx_acc = Seq::<Ent>::empty(); let ghost vx_d = self.depth as int; let ghost vx_d0 = (*old(self.dst))@; let ghost vx_o = dec_k(true, map_kind(<K as KeyTagImpl>::kt(), false), (*old(self.src))@, self.depth as int); proof { K::vx_kinds(); kind_shape(Shape::Map(<K as KeyTagImpl>::kt()), false); }
loop Convert::convert_map1 0
    invariant
        vx_o == dec_k(true, map_kind(<K as KeyTagImpl>::kt(), false), (*old(self.src))@, self.depth as int),
        *final(vx_self.src) == *final(self.src), *final(vx_self.dst) == *final(self.dst), vx_self.depth == vx_d, vx_self.epoch is V1, 1 <= vx_d <= 32, vx_d == self.depth, vx_acc.len() == vx_k0, vx_d0 == (*old(self.dst))@,
        vx_o == (match dec1(true, Shape::Map(<K as KeyTagImpl>::kt()), (*vx_self.src)@, (len - vx_k0) as nat, vx_d, vx_acc) { None => None, Some((l, w)) => Some((V::List(Shape::Map(<K as KeyTagImpl>::kt()), l), w)) }),
        (*vx_self.dst)@ == vx_d0 + pd(map_kind(<K as KeyTagImpl>::kt(), false)) + pn(len) + encs(false, Shape::Map(<K as KeyTagImpl>::kt()), vx_acc),
        forall|i: int| 0 <= i < vx_acc.len() ==> fits((#[trigger] vx_acc[i]).v),
hint Convert::convert_map1 loop0.start
    let ghost vx_s = (*vx_self.src)@;
    proof { conv1_step(Shape::Map(<K as KeyTagImpl>::kt()), vx_s, (len - vx_k0) as nat, vx_d, vx_acc); }
hint Convert::convert_map1 loop0.end
    proof { vx_acc = vx_acc.push(dec_e(true, Shape::Map(<K as KeyTagImpl>::kt()), vx_s, vx_d)->Some_0.0); }
hint Convert::convert_map1 loop0.after
    proof { assert(enc(false, V::List(Shape::Map(<K as KeyTagImpl>::kt()), vx_acc)) =~= pd(map_kind(<K as KeyTagImpl>::kt(), false)) + pn(len) + encs(false, Shape::Map(<K as KeyTagImpl>::kt()), vx_acc)); }
fn Convert::convert_map2
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, map_kind(<K as KeyTagImpl>::kt(), true), (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
fn Convert::convert_map2_to_map1
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, map_kind(<K as KeyTagImpl>::kt(), true), (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 1nat,
hint Convert::convert_map2_to_map1 start
    let ghost mut vx_acc = Seq::<Ent>::empty(); let ghost vx_d = self.depth as int; let ghost vx_d0 = (*old(self.dst))@; let ghost vx_s0 = (*old(self.src))@; let ghost vx_o = dec_k(true, map_kind(<K as KeyTagImpl>::kt(), true), vx_s0, self.depth as int); proof { K::vx_kinds(); kind_shape(Shape::Map(<K as KeyTagImpl>::kt()), true); assert(vstd::slice::spec_slice_len(*self.src) == vx_s0.len()); }
loop Convert::convert_map2_to_map1 0
    invariant
        vx_o == dec_k(true, map_kind(<K as KeyTagImpl>::kt(), true), (*old(self.src))@, self.depth as int),
        1 <= vx_d <= 32, vx_d == self.depth, self.epoch is V1, vx_acc.len() == len, vx_d0 == (*old(self.dst))@, (*self.dst)@ == vx_d0,
        len + (*self.src)@.len() <= vx_s0.len() <= usize::MAX,
        vx_o == (match dec2(true, Shape::Map(<K as KeyTagImpl>::kt()), (*self.src)@, vx_d, vx_acc) { None => None, Some((l, w)) => Some((V::List(Shape::Map(<K as KeyTagImpl>::kt()), l), w)) }),
        tmp@ == encs(false, Shape::Map(<K as KeyTagImpl>::kt()), vx_acc),
        forall|i: int| 0 <= i < vx_acc.len() ==> fits((#[trigger] vx_acc[i]).v),
    decreases (*self.src)@.len(),
hint Convert::convert_map2_to_map1 loop0.start
    let ghost vx_s = (*self.src)@;
    proof { K::vx_kinds(); kind_shape(Shape::Map(<K as KeyTagImpl>::kt()), true); conv2_step(Shape::Map(<K as KeyTagImpl>::kt()), vx_s, vx_d, vx_acc); }
hint Convert::convert_map2_to_map1 loop0.end
    proof { vx_acc = vx_acc.push(dec_e(true, Shape::Map(<K as KeyTagImpl>::kt()), gd::<ValueKind>(vx_s)->Some_0.1, vx_d)->Some_0.0); }
fn Convert::convert_set1
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, set_kind(<K as KeyTagImpl>::kt(), false), (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
hint Convert::convert_set1 start
    let ghost mut vx_acc = Seq::<Ent>::empty(); let ghost vx_d = self.depth as int; let ghost vx_d0 = (*old(self.dst))@; let ghost vx_o = dec_k(true, set_kind(<K as KeyTagImpl>::kt(), false), (*old(self.src))@, self.depth as int); proof { K::vx_kinds(); kind_shape(Shape::Set(<K as KeyTagImpl>::kt()), false); }
loop Convert::convert_set1 0
    invariant
        vx_o == dec_k(true, set_kind(<K as KeyTagImpl>::kt(), false), (*old(self.src))@, self.depth as int),
        1 <= vx_d <= 32, vx_d == self.depth, vx_acc.len() == vx_k0, vx_d0 == (*old(self.dst))@,
        vx_o == (match dec1(true, Shape::Set(<K as KeyTagImpl>::kt()), (*self.src)@, (len - vx_k0) as nat, vx_d, vx_acc) { None => None, Some((l, w)) => Some((V::List(Shape::Set(<K as KeyTagImpl>::kt()), l), w)) }),
        (*self.dst)@ == vx_d0 + pd(set_kind(<K as KeyTagImpl>::kt(), false)) + pn(len) + encs(false, Shape::Set(<K as KeyTagImpl>::kt()), vx_acc),
        forall|i: int| 0 <= i < vx_acc.len() ==> fits((#[trigger] vx_acc[i]).v),
hint Convert::convert_set1 loop0.start
    let ghost vx_s = (*self.src)@;
    proof { conv1_step(Shape::Set(<K as KeyTagImpl>::kt()), vx_s, (len - vx_k0) as nat, vx_d, vx_acc); }
hint Convert::convert_set1 loop0.end
    proof { vx_acc = vx_acc.push(dec_e(true, Shape::Set(<K as KeyTagImpl>::kt()), vx_s, vx_d)->Some_0.0); }
hint Convert::convert_set1 loop0.after
    proof { assert(enc(false, V::List(Shape::Set(<K as KeyTagImpl>::kt()), vx_acc)) =~= pd(set_kind(<K as KeyTagImpl>::kt(), false)) + pn(len) + encs(false, Shape::Set(<K as KeyTagImpl>::kt()), vx_acc)); }
fn Convert::convert_set2
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, set_kind(<K as KeyTagImpl>::kt(), true), (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
fn Convert::convert_set2_to_set1
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, set_kind(<K as KeyTagImpl>::kt(), true), (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 1nat,
hint Convert::convert_set2_to_set1 start
    let ghost mut vx_acc = Seq::<Ent>::empty(); let ghost vx_d = self.depth as int; let ghost vx_d0 = (*old(self.dst))@; let ghost vx_s0 = (*old(self.src))@; let ghost vx_o = dec_k(true, set_kind(<K as KeyTagImpl>::kt(), true), vx_s0, self.depth as int); proof { K::vx_kinds(); kind_shape(Shape::Set(<K as KeyTagImpl>::kt()), true); assert(vstd::slice::spec_slice_len(*self.src) == vx_s0.len()); }
loop Convert::convert_set2_to_set1 0
    invariant
        vx_o == dec_k(true, set_kind(<K as KeyTagImpl>::kt(), true), (*old(self.src))@, self.depth as int),
        1 <= vx_d <= 32, vx_d == self.depth, self.epoch is V1, vx_acc.len() == len, vx_d0 == (*old(self.dst))@, (*self.dst)@ == vx_d0,
        len + (*self.src)@.len() <= vx_s0.len() <= usize::MAX,
        vx_o == (match dec2(true, Shape::Set(<K as KeyTagImpl>::kt()), (*self.src)@, vx_d, vx_acc) { None => None, Some((l, w)) => Some((V::List(Shape::Set(<K as KeyTagImpl>::kt()), l), w)) }),
        tmp@ == encs(false, Shape::Set(<K as KeyTagImpl>::kt()), vx_acc),
        forall|i: int| 0 <= i < vx_acc.len() ==> fits((#[trigger] vx_acc[i]).v),
    decreases (*self.src)@.len(),
hint Convert::convert_set2_to_set1 loop0.start
    let ghost vx_s = (*self.src)@;
    proof { K::vx_kinds(); kind_shape(Shape::Set(<K as KeyTagImpl>::kt()), true); conv2_step(Shape::Set(<K as KeyTagImpl>::kt()), vx_s, vx_d, vx_acc); }
hint Convert::convert_set2_to_set1 loop0.end
    proof { vx_acc = vx_acc.push(dec_e(true, Shape::Set(<K as KeyTagImpl>::kt()), gd::<ValueKind>(vx_s)->Some_0.1, vx_d)->Some_0.0); }
fn Convert::convert_bytes2
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::Bytes2, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 2nat,
fn Convert::convert_bytes2_to_bytes1
    requires 1 <= self.depth <= 32, self.epoch is V1, //@C13
    ensures conv_post(dec_k(true, ValueKind::Bytes2, (*old(self.src))@, self.depth as int), r is Ok, (*final(self.src))@, (*old(self.dst))@, (*final(self.dst))@), //@C13
    decreases 64 - self.depth, 1nat,
hint Convert::convert_bytes2_to_bytes1 start
    let ghost vx_o = dec_k(true, ValueKind::Bytes2, (*old(self.src))@, self.depth as int); proof { reveal(gb); }
loop Convert::convert_bytes2_to_bytes1 0
    invariant
        (*self.dst)@ == (*old(self.dst))@, vx_o == dec_k(true, ValueKind::Bytes2, (*old(self.src))@, self.depth as int),
        vx_o == (match gchunks((*self.src)@, tmp@) { None => None, Some((b, w)) => Some((V::Bytes(b), w)) }),
    decreases (*self.src)@.len(),
hint Convert::convert_bytes2_to_bytes1 loop0.start
    let ghost vx_s = (*self.src)@; let ghost vx_t = tmp@; proof { reveal(gb); gchunks_from(vx_s, tmp@); if gn(vx_s) is Some { gn_fr(vx_s, Seq::empty()); } }
hint Convert::convert_bytes2_to_bytes1 loop0.end
    proof { assert(tmp@ =~= vx_t + gb(len as int, gn(vx_s)->Some_0.1)->Some_0.0); }
