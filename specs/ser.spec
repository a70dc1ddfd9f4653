// Writing values (C01)
source core/src/serialize.rs
only =Serialize
implspec trait Serialize
    spec fn vx_d(self) -> D;
    spec fn vx_fits(self, d: int) -> bool;
    spec fn vx_cnt(self) -> bool;
fn Serialize::serialize
    requires 1 <= serializer.depth <= 32, //@C01
    ensures
        r is Ok <==> self.vx_fits(serializer.depth as int), //@C01
        r is Ok ==> wrote((*old(serializer.buf))@, (*final(serializer.buf))@, self.vx_d(), serializer.depth as int), //@C01
        r is Err && self.vx_cnt() ==> r == Err::<(), SerializeError>(SerializeError::TooDeeplyNested), //@C01
fn Serialize::serializes_as_some
source core/src/serialize_key.rs
only =SerializeKey
implspec trait SerializeKey
    spec fn vx_skey(&self) -> Option<Key>;
    proof fn vx_skey_ok(&self) ensures self.vx_skey() is Some ==> kt_of(self.vx_skey()->Some_0) == <T::Impl as KeyTagImpl>::kt() && utf8_key(self.vx_skey()->Some_0);
fn SerializeKey::try_as_key
    ensures
        r is Ok <==> self.vx_skey() is Some, //@C01
        r is Ok ==> <T::Impl as KeyTagImpl>::vkey(r->Ok_0) == self.vx_skey()->Some_0, //@C01
source core/src/serializer.rs
only =Serializer Serializer::new Serializer::increment_depth Serializer::serialize Serializer::serialize_none Serializer::serialize_some Serializer::serialize_bool Serializer::serialize_u8 Serializer::serialize_i8 Serializer::serialize_u16 Serializer::serialize_i16 Serializer::serialize_u32 Serializer::serialize_i32 Serializer::serialize_u64 Serializer::serialize_i64 Serializer::serialize_f32 Serializer::serialize_f64 Serializer::serialize_string Serializer::serialize_uuid Serializer::serialize_object_id Serializer::serialize_service_id Serializer::serialize_vec1 Serializer::serialize_vec1_iter Serializer::serialize_vec2 Serializer::serialize_vec2_iter Serializer::serialize_bytes1 Serializer::serialize_byte_slice1 Serializer::serialize_bytes2 Serializer::serialize_byte_slice2 Serializer::serialize_map1 Serializer::serialize_map1_iter Serializer::serialize_map2 Serializer::serialize_map2_iter Serializer::serialize_set1 Serializer::serialize_set1_iter Serializer::serialize_set2 Serializer::serialize_set2_iter Serializer::serialize_struct1 Serializer::serialize_struct2 Serializer::serialize_enum Serializer::serialize_sender Serializer::serialize_receiver
fn Serializer::new
    requires depth <= 32, //@C01
    ensures
        r is Ok <==> depth < 32, //@C01
        r is Ok ==> r->Ok_0.depth == depth + 1 && *r->Ok_0.buf == *old(buf) && *final(r->Ok_0.buf) == *final(buf), //@C01
        r is Err ==> r->Err_0 is TooDeeplyNested, //@C01
fn Serializer::increment_depth
    requires old(self).depth <= 32, //@C01
    ensures
        r is Ok <==> old(self).depth < 32, //@C01
        final(self).depth == old(self).depth + 1, *final(self).buf == *old(self).buf, *final(final(self).buf) == *final(old(self).buf), //@C01
        r is Err ==> r->Err_0 is TooDeeplyNested, //@C01
fn Serializer::serialize
    requires 1 <= self.depth <= 32, //@C01
    ensures
        r is Ok <==> value.vx_fits(self.depth as int), //@C01
        r is Ok ==> wrote((*old(self.buf))@, (*final(self.buf))@, value.vx_d(), self.depth as int), //@C01
        r is Err && value.vx_cnt() ==> r == Err::<(), SerializeError>(SerializeError::TooDeeplyNested), //@C01
fn Serializer::serialize_some
    requires 1 <= self.depth <= 32, //@C01
    ensures
        r is Ok <==> self.depth < 32 && value.vx_fits(self.depth + 1), //@C01
        r is Ok ==> wrote((*old(self.buf))@, (*final(self.buf))@, D::Some(Box::new(value.vx_d())), self.depth as int), //@C01
        r is Err && value.vx_cnt() ==> r == Err::<(), SerializeError>(SerializeError::TooDeeplyNested), //@C01
fn Serializer::serialize_enum
    requires 1 <= self.depth <= 32, //@C01
    ensures
        r is Ok <==> self.depth < 32 && value.vx_fits(self.depth + 1), //@C01
        r is Ok ==> wrote((*old(self.buf))@, (*final(self.buf))@, D::Enum(id.vx_id(), Box::new(value.vx_d())), self.depth as int), //@C01
        r is Err && value.vx_cnt() ==> r == Err::<(), SerializeError>(SerializeError::TooDeeplyNested), //@C01
fn Serializer::serialize_none
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::None), //@C01
fn Serializer::serialize_bool
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::Bool(value)), //@C01
fn Serializer::serialize_u8
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::U8(value)), //@C01
fn Serializer::serialize_i8
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::I8(value)), //@C01
fn Serializer::serialize_u16
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::U16(value)), //@C01
fn Serializer::serialize_i16
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::I16(value)), //@C01
fn Serializer::serialize_u32
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::U32(value)), //@C01
fn Serializer::serialize_i32
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::I32(value)), //@C01
fn Serializer::serialize_u64
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::U64(value)), //@C01
fn Serializer::serialize_i64
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::I64(value)), //@C01
fn Serializer::serialize_f32
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::F32(vx_bits4(value))), //@C01
fn Serializer::serialize_f64
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::F64(vx_bits8(value))), //@C01
fn Serializer::serialize_uuid
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::Uuid(value)), //@C01
fn Serializer::serialize_object_id
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::ObjectId(value)), //@C01
fn Serializer::serialize_service_id
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::ServiceId(value)), //@C01
fn Serializer::serialize_sender
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::Sender(value)), //@C01
fn Serializer::serialize_receiver
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::Receiver(value)), //@C01
fn Serializer::serialize_string
    ensures
        r is Ok <==> value@.len() <= u32::MAX, //@C01
        r is Ok ==> (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::Str(value@)), //@C01
fn Serializer::serialize_byte_slice1
    ensures
        r is Ok <==> bytes@.len() <= u32::MAX, //@C01
        r is Ok ==> (*final(self.buf))@ == (*old(self.buf))@ + enc(false, V::Bytes(bytes@)), //@C01
fn Serializer::serialize_byte_slice2
    ensures
        r is Ok <==> bytes@.len() <= u32::MAX, //@C01
        r is Ok ==> (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::Bytes(bytes@)), //@C01
fn Serializer::serialize_vec1
    ensures
        r is Ok <==> num_elems <= u32::MAX, //@C01
        r is Ok ==> *final(r->Ok_0.buf) == *final(self.buf) && (*r->Ok_0.buf)@ == (*old(self.buf))@ + header(false, Shape::Vec, num_elems as int) && r->Ok_0.num_elems == num_elems && r->Ok_0.depth == self.depth, //@C01
        r is Err ==> r->Err_0 is Overflow, //@C01
fn Serializer::serialize_vec2
    ensures r is Ok, *final(r->Ok_0.buf) == *final(self.buf), (*r->Ok_0.buf)@ == (*old(self.buf))@ + header(true, Shape::Vec, 0), r->Ok_0.depth == self.depth, //@C01
fn Serializer::serialize_map1
    ensures
        r is Ok <==> num_elems <= u32::MAX, //@C01
        r is Ok ==> *final(r->Ok_0.buf) == *final(self.buf) && (*r->Ok_0.buf)@ == (*old(self.buf))@ + header(false, Shape::Map(<K::Impl as KeyTagImpl>::kt()), num_elems as int) && r->Ok_0.num_elems == num_elems && r->Ok_0.depth == self.depth, //@C01
        r is Err ==> r->Err_0 is Overflow, //@C01
fn Serializer::serialize_map2
    ensures r is Ok, *final(r->Ok_0.buf) == *final(self.buf), (*r->Ok_0.buf)@ == (*old(self.buf))@ + header(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), 0), r->Ok_0.depth == self.depth, //@C01
fn Serializer::serialize_set1
    ensures
        r is Ok <==> num_elems <= u32::MAX, //@C01
        r is Ok ==> *final(r->Ok_0.buf) == *final(self.buf) && (*r->Ok_0.buf)@ == (*old(self.buf))@ + header(false, Shape::Set(<K::Impl as KeyTagImpl>::kt()), num_elems as int) && r->Ok_0.num_elems == num_elems, //@C01
        r is Err ==> r->Err_0 is Overflow, //@C01
fn Serializer::serialize_set2
    ensures r is Ok, *final(r->Ok_0.buf) == *final(self.buf), (*r->Ok_0.buf)@ == (*old(self.buf))@ + header(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), 0), //@C01
fn Serializer::serialize_struct1
    ensures
        r is Ok <==> num_fields <= u32::MAX, //@C01
        r is Ok ==> *final(r->Ok_0.buf) == *final(self.buf) && (*r->Ok_0.buf)@ == (*old(self.buf))@ + header(false, Shape::Struct, num_fields as int) && r->Ok_0.num_fields == num_fields && r->Ok_0.depth == self.depth, //@C01
        r is Err ==> r->Err_0 is Overflow, //@C01
fn Serializer::serialize_struct2
    ensures r is Ok, *final(r->Ok_0.buf) == *final(self.buf), (*r->Ok_0.buf)@ == (*old(self.buf))@ + header(true, Shape::Struct, 0), r->Ok_0.depth == self.depth, //@C01
fn Serializer::serialize_bytes1
    ensures
        r is Ok <==> num_elems <= u32::MAX, //@C01
        r is Ok ==> *final(r->Ok_0.buf) == *final(self.buf) && (*r->Ok_0.buf)@ == (*old(self.buf))@ + pd(ValueKind::Bytes1) + pn(num_elems as u32) && r->Ok_0.num_elems == num_elems, //@C01
        r is Err ==> r->Err_0 is Overflow, //@C01
fn Serializer::serialize_bytes2
    ensures r is Ok, *final(r->Ok_0.buf) == *final(self.buf), (*r->Ok_0.buf)@ == (*old(self.buf))@ + pd(ValueKind::Bytes2), //@C01
fn Serializer::serialize_vec1_iter verifier::loop_isolation(false)
    requires 1 <= self.depth <= 32, //@C01
    ensures
        r is Ok <==> fits_s::<T, U::Item>(vec.vx_items(), self.depth as int) && vec.vx_items().len() <= u32::MAX, //@C01
        r is Ok ==> wrote((*old(self.buf))@, (*final(self.buf))@, D::Vec(all_s::<T, U::Item>(vec.vx_items())), self.depth as int), //@C01
        r is Err && cnt_s::<T, U::Item>(vec.vx_items()) && vec.vx_items().len() <= u32::MAX ==> r == Err::<(), SerializeError>(SerializeError::TooDeeplyNested), //@C01
fn Serializer::serialize_map1_iter verifier::loop_isolation(false)
    requires 1 <= self.depth <= 32, //@C01
    ensures
        r is Ok <==> fits_m::<K, L, T, U>(map.vx_items(), self.depth as int) && map.vx_items().len() <= u32::MAX, //@C01
        r is Ok ==> wrote((*old(self.buf))@, (*final(self.buf))@, D::Map(Shape::Map(<K::Impl as KeyTagImpl>::kt()), all_m::<K, L, T, U>(map.vx_items())), self.depth as int), //@C01
        r is Err && cnt_m::<K, L, T, U>(map.vx_items()) && map.vx_items().len() <= u32::MAX ==> r == Err::<(), SerializeError>(SerializeError::TooDeeplyNested), //@C01
fn Serializer::serialize_set1_iter verifier::loop_isolation(false)
    requires 1 <= self.depth <= 32, //@C01
    ensures
        r is Ok <==> fits_k::<K, T::Item>(set.vx_items(), self.depth as int) && set.vx_items().len() <= u32::MAX, //@C01
        r is Ok ==> wrote((*old(self.buf))@, (*final(self.buf))@, D::Set(<K::Impl as KeyTagImpl>::kt(), all_k::<K, T::Item>(set.vx_items())), self.depth as int), //@C01
        r is Err && cnt_k::<K, T::Item>(set.vx_items()) && set.vx_items().len() <= u32::MAX ==> r == Err::<(), SerializeError>(SerializeError::TooDeeplyNested), //@C01
fn Serializer::serialize_vec2_iter verifier::loop_isolation(false)
    requires 1 <= self.depth <= 32, //@C01
    ensures
        r is Ok <==> fits_s::<T, U::Item>(vec.vx_items(), self.depth as int), //@C01
        r is Ok ==> wrote((*old(self.buf))@, (*final(self.buf))@, D::Vec(all_s::<T, U::Item>(vec.vx_items())), self.depth as int), //@C01
        r is Err && cnt_s::<T, U::Item>(vec.vx_items()) ==> r == Err::<(), SerializeError>(SerializeError::TooDeeplyNested), //@C01
fn Serializer::serialize_map2_iter verifier::loop_isolation(false)
    requires 1 <= self.depth <= 32, //@C01
    ensures
        r is Ok <==> fits_m::<K, L, T, U>(map.vx_items(), self.depth as int), //@C01
        r is Ok ==> wrote((*old(self.buf))@, (*final(self.buf))@, D::Map(Shape::Map(<K::Impl as KeyTagImpl>::kt()), all_m::<K, L, T, U>(map.vx_items())), self.depth as int), //@C01
        r is Err && cnt_m::<K, L, T, U>(map.vx_items()) ==> r == Err::<(), SerializeError>(SerializeError::TooDeeplyNested), //@C01
fn Serializer::serialize_set2_iter verifier::loop_isolation(false)
    requires 1 <= self.depth <= 32, //@C01
    ensures
        r is Ok <==> fits_k::<K, T::Item>(set.vx_items(), self.depth as int), //@C01
        r is Ok ==> wrote((*old(self.buf))@, (*final(self.buf))@, D::Set(<K::Impl as KeyTagImpl>::kt(), all_k::<K, T::Item>(set.vx_items())), self.depth as int), //@C01
        r is Err && cnt_k::<K, T::Item>(set.vx_items()) ==> r == Err::<(), SerializeError>(SerializeError::TooDeeplyNested), //@C01
hint Serializer::serialize_vec1_iter start
    let ghost vx_items = vec.vx_items();
    let ghost mut vx_l = Seq::<Ent>::empty();
hint Serializer::serialize_vec1_iter loop0.before
    proof { body_new(false, Shape::Vec, (*serializer.buf)@, self.depth as int); }
loop Serializer::serialize_vec1_iter 0
    invariant
        1 <= self.depth <= 32, *final(serializer.buf) == *final(self.buf), vx_it0.wf(), vx_it0.all() == vx_items, serializer.depth == self.depth, serializer.num_elems == vx_it0.left(), vx_items.len() <= u32::MAX,
        fits_s::<T, U::Item>(vx_items.take(vx_it0.pos()), self.depth as int), vx_l.len() == vx_it0.pos(), den_s(vx_l) =~= all_s::<T, U::Item>(vx_items.take(vx_it0.pos())),
        body(false, Shape::Vec, (*old(self.buf))@ + header(false, Shape::Vec, vx_items.len() as int), (*serializer.buf)@, self.depth as int, vx_l),
    decreases vx_it0.left(),
hint Serializer::serialize_vec1_iter loop0.bind
    let ghost vx_b = (*serializer.buf)@;
    let ghost vx_j = vx_it0.pos() - 1;
    let ghost vx_d = elem.vx_d();
    let ghost vx_h = Head::Unit;
    proof { assert(vx_items.take(vx_j + 1).take(vx_j) =~= vx_items.take(vx_j)); assert(vx_items.take(vx_j + 1)[vx_j] == vx_items[vx_j]); }
hint Serializer::serialize_vec1_iter loop0.end
    proof { let x = body_push(false, Shape::Vec, (*old(self.buf))@ + header(false, Shape::Vec, vx_items.len() as int), vx_b, (*serializer.buf)@, self.depth as int, vx_l, vx_h, vx_d); den_push(vx_l, x); vx_l = vx_l.push(x); }
hint Serializer::serialize_vec1_iter loop0.after
    proof { assert(vx_items.take(vx_items.len() as int) =~= vx_items); list_done(false, Shape::Vec, (*old(self.buf))@, (*serializer.buf)@, self.depth as int, vx_l); }
hint Serializer::serialize_map1_iter start
    let ghost vx_items = map.vx_items();
    let ghost mut vx_l = Seq::<Ent>::empty();
hint Serializer::serialize_map1_iter loop0.before
    proof { body_new(false, Shape::Map(<K::Impl as KeyTagImpl>::kt()), (*serializer.buf)@, self.depth as int); }
loop Serializer::serialize_map1_iter 0
    invariant
        1 <= self.depth <= 32, *final(serializer.buf) == *final(self.buf), vx_it0.wf(), vx_it0.all() == vx_items, serializer.depth == self.depth, serializer.num_elems == vx_it0.left(), vx_items.len() <= u32::MAX,
        fits_m::<K, L, T, U>(vx_items.take(vx_it0.pos()), self.depth as int), vx_l.len() == vx_it0.pos(), den_m(vx_l) == all_m::<K, L, T, U>(vx_items.take(vx_it0.pos())),
        body(false, Shape::Map(<K::Impl as KeyTagImpl>::kt()), (*old(self.buf))@ + header(false, Shape::Map(<K::Impl as KeyTagImpl>::kt()), vx_items.len() as int), (*serializer.buf)@, self.depth as int, vx_l),
    decreases vx_it0.left(),
hint Serializer::serialize_map1_iter loop0.bind
    let ghost vx_b = (*serializer.buf)@;
    let ghost vx_j = vx_it0.pos() - 1;
    let ghost vx_d = value.vx_d();
    let ghost vx_h = Head::Key(key.vx_skey()->Some_0);
    proof { assert(vx_items.take(vx_j + 1).take(vx_j) =~= vx_items.take(vx_j)); assert(vx_items.take(vx_j + 1)[vx_j] == vx_items[vx_j]); }
hint Serializer::serialize_map1_iter loop0.end
    proof { let x = body_push(false, Shape::Map(<K::Impl as KeyTagImpl>::kt()), (*old(self.buf))@ + header(false, Shape::Map(<K::Impl as KeyTagImpl>::kt()), vx_items.len() as int), vx_b, (*serializer.buf)@, self.depth as int, vx_l, vx_h, vx_d); den_push(vx_l, x); vx_l = vx_l.push(x); }
hint Serializer::serialize_map1_iter loop0.after
    proof { assert(vx_items.take(vx_items.len() as int) =~= vx_items); list_done(false, Shape::Map(<K::Impl as KeyTagImpl>::kt()), (*old(self.buf))@, (*serializer.buf)@, self.depth as int, vx_l); }
hint Serializer::serialize_set1_iter start
    let ghost vx_items = set.vx_items();
    let ghost mut vx_l = Seq::<Ent>::empty();
hint Serializer::serialize_set1_iter loop0.before
    proof { body_new(false, Shape::Set(<K::Impl as KeyTagImpl>::kt()), (*serializer.buf)@, self.depth as int); }
loop Serializer::serialize_set1_iter 0
    invariant
        1 <= self.depth <= 32, *final(serializer.buf) == *final(self.buf), vx_it0.wf(), vx_it0.all() == vx_items, serializer.num_elems == vx_it0.left(), vx_items.len() <= u32::MAX,
        fits_k::<K, T::Item>(vx_items.take(vx_it0.pos()), self.depth as int), vx_l.len() == vx_it0.pos(), den_k(vx_l) == all_k::<K, T::Item>(vx_items.take(vx_it0.pos())),
        body(false, Shape::Set(<K::Impl as KeyTagImpl>::kt()), (*old(self.buf))@ + header(false, Shape::Set(<K::Impl as KeyTagImpl>::kt()), vx_items.len() as int), (*serializer.buf)@, self.depth as int, vx_l),
    decreases vx_it0.left(),
hint Serializer::serialize_set1_iter loop0.bind
    let ghost vx_b = (*serializer.buf)@;
    let ghost vx_j = vx_it0.pos() - 1;
    let ghost vx_d = D::Prim(V::None);
    let ghost vx_h = Head::Key(value.vx_skey()->Some_0);
    proof { assert(vx_items.take(vx_j + 1).take(vx_j) =~= vx_items.take(vx_j)); assert(vx_items.take(vx_j + 1)[vx_j] == vx_items[vx_j]); }
hint Serializer::serialize_set1_iter loop0.end
    proof { let x = body_push(false, Shape::Set(<K::Impl as KeyTagImpl>::kt()), (*old(self.buf))@ + header(false, Shape::Set(<K::Impl as KeyTagImpl>::kt()), vx_items.len() as int), vx_b, (*serializer.buf)@, self.depth as int, vx_l, vx_h, vx_d); den_push(vx_l, x); vx_l = vx_l.push(x); }
hint Serializer::serialize_set1_iter loop0.after
    proof { assert(vx_items.take(vx_items.len() as int) =~= vx_items); list_done(false, Shape::Set(<K::Impl as KeyTagImpl>::kt()), (*old(self.buf))@, (*serializer.buf)@, self.depth as int, vx_l); }
hint Serializer::serialize_vec2_iter start
    let ghost vx_items = vec.vx_items();
    let ghost mut vx_l = Seq::<Ent>::empty();
hint Serializer::serialize_vec2_iter loop0.before
    proof { body_new(true, Shape::Vec, (*serializer.buf)@, self.depth as int); }
loop Serializer::serialize_vec2_iter 0
    invariant
        1 <= self.depth <= 32, *final(serializer.buf) == *final(self.buf), vx_it0.wf(), vx_it0.all() == vx_items, serializer.depth == self.depth,
        fits_s::<T, U::Item>(vx_items.take(vx_it0.pos()), self.depth as int), vx_l.len() == vx_it0.pos(), den_s(vx_l) =~= all_s::<T, U::Item>(vx_items.take(vx_it0.pos())),
        body(true, Shape::Vec, (*old(self.buf))@ + header(true, Shape::Vec, vx_items.len() as int), (*serializer.buf)@, self.depth as int, vx_l),
    decreases vx_it0.left(),
hint Serializer::serialize_vec2_iter loop0.bind
    let ghost vx_b = (*serializer.buf)@;
    let ghost vx_j = vx_it0.pos() - 1;
    let ghost vx_d = elem.vx_d();
    let ghost vx_h = Head::Unit;
    proof { assert(vx_items.take(vx_j + 1).take(vx_j) =~= vx_items.take(vx_j)); assert(vx_items.take(vx_j + 1)[vx_j] == vx_items[vx_j]); }
hint Serializer::serialize_vec2_iter loop0.end
    proof { let x = body_push(true, Shape::Vec, (*old(self.buf))@ + header(true, Shape::Vec, vx_items.len() as int), vx_b, (*serializer.buf)@, self.depth as int, vx_l, vx_h, vx_d); den_push(vx_l, x); vx_l = vx_l.push(x); }
hint Serializer::serialize_vec2_iter loop0.after
    proof { assert(vx_items.take(vx_items.len() as int) =~= vx_items); list_done(true, Shape::Vec, (*old(self.buf))@, (*serializer.buf)@, self.depth as int, vx_l); }
hint Serializer::serialize_map2_iter start
    let ghost vx_items = map.vx_items();
    let ghost mut vx_l = Seq::<Ent>::empty();
hint Serializer::serialize_map2_iter loop0.before
    proof { body_new(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), (*serializer.buf)@, self.depth as int); }
loop Serializer::serialize_map2_iter 0
    invariant
        1 <= self.depth <= 32, *final(serializer.buf) == *final(self.buf), vx_it0.wf(), vx_it0.all() == vx_items, serializer.depth == self.depth,
        fits_m::<K, L, T, U>(vx_items.take(vx_it0.pos()), self.depth as int), vx_l.len() == vx_it0.pos(), den_m(vx_l) == all_m::<K, L, T, U>(vx_items.take(vx_it0.pos())),
        body(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), (*old(self.buf))@ + header(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), vx_items.len() as int), (*serializer.buf)@, self.depth as int, vx_l),
    decreases vx_it0.left(),
hint Serializer::serialize_map2_iter loop0.bind
    let ghost vx_b = (*serializer.buf)@;
    let ghost vx_j = vx_it0.pos() - 1;
    let ghost vx_d = value.vx_d();
    let ghost vx_h = Head::Key(key.vx_skey()->Some_0);
    proof { assert(vx_items.take(vx_j + 1).take(vx_j) =~= vx_items.take(vx_j)); assert(vx_items.take(vx_j + 1)[vx_j] == vx_items[vx_j]); }
hint Serializer::serialize_map2_iter loop0.end
    proof { let x = body_push(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), (*old(self.buf))@ + header(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), vx_items.len() as int), vx_b, (*serializer.buf)@, self.depth as int, vx_l, vx_h, vx_d); den_push(vx_l, x); vx_l = vx_l.push(x); }
hint Serializer::serialize_map2_iter loop0.after
    proof { assert(vx_items.take(vx_items.len() as int) =~= vx_items); list_done(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), (*old(self.buf))@, (*serializer.buf)@, self.depth as int, vx_l); }
hint Serializer::serialize_set2_iter start
    let ghost vx_items = set.vx_items();
    let ghost mut vx_l = Seq::<Ent>::empty();
hint Serializer::serialize_set2_iter loop0.before
    proof { body_new(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), (*serializer.buf)@, self.depth as int); }
loop Serializer::serialize_set2_iter 0
    invariant
        1 <= self.depth <= 32, *final(serializer.buf) == *final(self.buf), vx_it0.wf(), vx_it0.all() == vx_items,
        fits_k::<K, T::Item>(vx_items.take(vx_it0.pos()), self.depth as int), vx_l.len() == vx_it0.pos(), den_k(vx_l) == all_k::<K, T::Item>(vx_items.take(vx_it0.pos())),
        body(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), (*old(self.buf))@ + header(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), vx_items.len() as int), (*serializer.buf)@, self.depth as int, vx_l),
    decreases vx_it0.left(),
hint Serializer::serialize_set2_iter loop0.bind
    let ghost vx_b = (*serializer.buf)@;
    let ghost vx_j = vx_it0.pos() - 1;
    let ghost vx_d = D::Prim(V::None);
    let ghost vx_h = Head::Key(value.vx_skey()->Some_0);
    proof { assert(vx_items.take(vx_j + 1).take(vx_j) =~= vx_items.take(vx_j)); assert(vx_items.take(vx_j + 1)[vx_j] == vx_items[vx_j]); }
hint Serializer::serialize_set2_iter loop0.end
    proof { let x = body_push(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), (*old(self.buf))@ + header(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), vx_items.len() as int), vx_b, (*serializer.buf)@, self.depth as int, vx_l, vx_h, vx_d); den_push(vx_l, x); vx_l = vx_l.push(x); }
hint Serializer::serialize_set2_iter loop0.after
    proof { assert(vx_items.take(vx_items.len() as int) =~= vx_items); list_done(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), (*old(self.buf))@, (*serializer.buf)@, self.depth as int, vx_l); }
source core/src/serializer/vec.rs
only =Vec1Serializer Vec1Serializer::new Vec1Serializer::remaining_elements Vec1Serializer::requires_additional_elements Vec1Serializer::serialize Vec1Serializer::finish =Vec2Serializer Vec2Serializer::new Vec2Serializer::serialize Vec2Serializer::finish
fn Vec1Serializer::new
    ensures
        r is Ok <==> num_elems <= u32::MAX, //@C01
        r is Ok ==> *final(r->Ok_0.buf) == *final(buf) && (*r->Ok_0.buf)@ == (*old(buf))@ + header(false, Shape::Vec, num_elems as int) && r->Ok_0.num_elems == num_elems && r->Ok_0.depth == depth, //@C01
        r is Err ==> r->Err_0 is Overflow, //@C01
fn Vec1Serializer::remaining_elements
    ensures r == self.num_elems, //@C01
fn Vec1Serializer::requires_additional_elements
    ensures r == (self.num_elems > 0), //@C01
fn Vec1Serializer::serialize
    requires 1 <= old(self).depth <= 32, //@C01
    ensures
        r is Ok <==> old(self).num_elems > 0 && old(self).depth < 32 && value.vx_fits(old(self).depth + 1), //@C01
        r is Ok ==> *final(self) == *final(r->Ok_0) && *final(r->Ok_0.buf) == *final(old(self).buf) && r->Ok_0.num_elems == old(self).num_elems - 1 && r->Ok_0.depth == old(self).depth, //@C01
        r is Ok ==> entry(false, Shape::Vec, (*old(self).buf)@, (*r->Ok_0.buf)@, old(self).depth as int, Head::Unit, value.vx_d()), //@C01
        r is Err && old(self).num_elems > 0 && value.vx_cnt() ==> r->Err_0 is TooDeeplyNested, //@C01
fn Vec1Serializer::finish
    ensures r is Ok <==> self.num_elems == 0, (*final(self.buf))@ == (*old(self.buf))@, //@C01
fn Vec2Serializer::new
    ensures r is Ok, *final(r->Ok_0.buf) == *final(buf), (*r->Ok_0.buf)@ == (*old(buf))@ + header(true, Shape::Vec, 0), r->Ok_0.depth == depth, //@C01
fn Vec2Serializer::serialize
    requires 1 <= old(self).depth <= 32, //@C01
    ensures
        r is Ok <==> old(self).depth < 32 && value.vx_fits(old(self).depth + 1), //@C01
        r is Ok ==> *final(self) == *final(r->Ok_0) && *final(r->Ok_0.buf) == *final(old(self).buf) && r->Ok_0.depth == old(self).depth, //@C01
        r is Ok ==> entry(true, Shape::Vec, (*old(self).buf)@, (*r->Ok_0.buf)@, old(self).depth as int, Head::Unit, value.vx_d()), //@C01
        r is Err && value.vx_cnt() ==> r->Err_0 is TooDeeplyNested, //@C01
fn Vec2Serializer::finish
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + footer(true), //@C01
source core/src/serializer/map.rs
only =Map1Serializer Map1Serializer::new Map1Serializer::remaining_elements Map1Serializer::requires_additional_elements Map1Serializer::serialize Map1Serializer::finish =Map2Serializer Map2Serializer::new Map2Serializer::serialize Map2Serializer::finish
fn Map1Serializer::new
    ensures
        r is Ok <==> num_elems <= u32::MAX, //@C01
        r is Ok ==> *final(r->Ok_0.buf) == *final(buf) && (*r->Ok_0.buf)@ == (*old(buf))@ + header(false, Shape::Map(<K::Impl as KeyTagImpl>::kt()), num_elems as int) && r->Ok_0.num_elems == num_elems && r->Ok_0.depth == depth, //@C01
        r is Err ==> r->Err_0 is Overflow, //@C01
fn Map1Serializer::remaining_elements
    ensures r == self.num_elems, //@C01
fn Map1Serializer::requires_additional_elements
    ensures r == (self.num_elems > 0), //@C01
fn Map1Serializer::serialize
    requires 1 <= old(self).depth <= 32, //@C01
    ensures
        r is Ok <==> old(self).num_elems > 0 && key.vx_skey() is Some && fits_key(key.vx_skey()->Some_0) && old(self).depth < 32 && value.vx_fits(old(self).depth + 1), //@C01
        r is Ok ==> *final(self) == *final(r->Ok_0) && *final(r->Ok_0.buf) == *final(old(self).buf) && r->Ok_0.num_elems == old(self).num_elems - 1 && r->Ok_0.depth == old(self).depth, //@C01
        r is Ok ==> entry(false, Shape::Map(<K::Impl as KeyTagImpl>::kt()), (*old(self).buf)@, (*r->Ok_0.buf)@, old(self).depth as int, Head::Key(key.vx_skey()->Some_0), value.vx_d()), //@C01
        r is Err && old(self).num_elems > 0 && key.vx_skey() is Some && fits_key(key.vx_skey()->Some_0) && value.vx_cnt() ==> r->Err_0 is TooDeeplyNested, //@C01
fn Map1Serializer::finish
    ensures r is Ok <==> self.num_elems == 0, (*final(self.buf))@ == (*old(self.buf))@, //@C01
fn Map2Serializer::new
    ensures r is Ok, *final(r->Ok_0.buf) == *final(buf), (*r->Ok_0.buf)@ == (*old(buf))@ + header(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), 0), r->Ok_0.depth == depth, //@C01
fn Map2Serializer::serialize
    requires 1 <= old(self).depth <= 32, //@C01
    ensures
        r is Ok <==> key.vx_skey() is Some && fits_key(key.vx_skey()->Some_0) && old(self).depth < 32 && value.vx_fits(old(self).depth + 1), //@C01
        r is Ok ==> *final(self) == *final(r->Ok_0) && *final(r->Ok_0.buf) == *final(old(self).buf) && r->Ok_0.depth == old(self).depth, //@C01
        r is Ok ==> entry(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), (*old(self).buf)@, (*r->Ok_0.buf)@, old(self).depth as int, Head::Key(key.vx_skey()->Some_0), value.vx_d()), //@C01
        r is Err && key.vx_skey() is Some && fits_key(key.vx_skey()->Some_0) && value.vx_cnt() ==> r->Err_0 is TooDeeplyNested, //@C01
fn Map2Serializer::finish
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + footer(true), //@C01
source core/src/serializer/set.rs
only =Set1Serializer Set1Serializer::new Set1Serializer::remaining_elements Set1Serializer::requires_additional_elements Set1Serializer::serialize Set1Serializer::finish =Set2Serializer Set2Serializer::new Set2Serializer::serialize Set2Serializer::finish
fn Set1Serializer::new
    ensures
        r is Ok <==> num_elems <= u32::MAX, //@C01
        r is Ok ==> *final(r->Ok_0.buf) == *final(buf) && (*r->Ok_0.buf)@ == (*old(buf))@ + header(false, Shape::Set(<K::Impl as KeyTagImpl>::kt()), num_elems as int) && r->Ok_0.num_elems == num_elems, //@C01
        r is Err ==> r->Err_0 is Overflow, //@C01
fn Set1Serializer::remaining_elements
    ensures r == self.num_elems, //@C01
fn Set1Serializer::requires_additional_elements
    ensures r == (self.num_elems > 0), //@C01
fn Set1Serializer::serialize
    ensures
        r is Ok <==> old(self).num_elems > 0 && value.vx_skey() is Some && fits_key(value.vx_skey()->Some_0), //@C01
        r is Ok ==> *final(self) == *final(r->Ok_0) && *final(r->Ok_0.buf) == *final(old(self).buf) && r->Ok_0.num_elems == old(self).num_elems - 1, //@C01
        r is Ok ==> forall|d: int| d <= max_depth() ==> #[trigger] entry(false, Shape::Set(<K::Impl as KeyTagImpl>::kt()), (*old(self).buf)@, (*r->Ok_0.buf)@, d, Head::Key(value.vx_skey()->Some_0), D::Prim(V::None)), //@C01
fn Set1Serializer::finish
    ensures r is Ok <==> self.num_elems == 0, (*final(self.buf))@ == (*old(self.buf))@, //@C01
fn Set2Serializer::new
    ensures r is Ok, *final(r->Ok_0.buf) == *final(buf), (*r->Ok_0.buf)@ == (*old(buf))@ + header(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), 0), //@C01
fn Set2Serializer::serialize
    ensures
        r is Ok <==> value.vx_skey() is Some && fits_key(value.vx_skey()->Some_0), //@C01
        r is Ok ==> *final(self) == *final(r->Ok_0) && *final(r->Ok_0.buf) == *final(old(self).buf), //@C01
        r is Ok ==> forall|d: int| d <= max_depth() ==> #[trigger] entry(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), (*old(self).buf)@, (*r->Ok_0.buf)@, d, Head::Key(value.vx_skey()->Some_0), D::Prim(V::None)), //@C01
fn Set2Serializer::finish
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + footer(true), //@C01
source core/src/serializer/struct_.rs
only =Struct1Serializer Struct1Serializer::new Struct1Serializer::remaining_fields Struct1Serializer::requires_additional_fields Struct1Serializer::serialize Struct1Serializer::finish =Struct2Serializer Struct2Serializer::new Struct2Serializer::serialize Struct2Serializer::finish
fn Struct1Serializer::new
    ensures
        r is Ok <==> num_fields <= u32::MAX, //@C01
        r is Ok ==> *final(r->Ok_0.buf) == *final(buf) && (*r->Ok_0.buf)@ == (*old(buf))@ + header(false, Shape::Struct, num_fields as int) && r->Ok_0.num_fields == num_fields && r->Ok_0.depth == depth, //@C01
        r is Err ==> r->Err_0 is Overflow, //@C01
fn Struct1Serializer::remaining_fields
    ensures r == self.num_fields, //@C01
fn Struct1Serializer::requires_additional_fields
    ensures r == (self.num_fields > 0), //@C01
fn Struct1Serializer::serialize
    requires 1 <= old(self).depth <= 32, //@C01
    ensures
        r is Ok <==> old(self).num_fields > 0 && old(self).depth < 32 && value.vx_fits(old(self).depth + 1), //@C01
        r is Ok ==> *final(self) == *final(r->Ok_0) && *final(r->Ok_0.buf) == *final(old(self).buf) && r->Ok_0.num_fields == old(self).num_fields - 1 && r->Ok_0.depth == old(self).depth, //@C01
        r is Ok ==> entry(false, Shape::Struct, (*old(self).buf)@, (*r->Ok_0.buf)@, old(self).depth as int, Head::Id(id.vx_id()), value.vx_d()), //@C01
        r is Err && old(self).num_fields > 0 && value.vx_cnt() ==> r->Err_0 is TooDeeplyNested, //@C01
fn Struct1Serializer::finish
    ensures r is Ok <==> self.num_fields == 0, (*final(self.buf))@ == (*old(self.buf))@, //@C01
fn Struct2Serializer::new
    ensures r is Ok, *final(r->Ok_0.buf) == *final(buf), (*r->Ok_0.buf)@ == (*old(buf))@ + header(true, Shape::Struct, 0), r->Ok_0.depth == depth, //@C01
fn Struct2Serializer::serialize
    requires 1 <= old(self).depth <= 32, //@C01
    ensures
        r is Ok <==> old(self).depth < 32 && value.vx_fits(old(self).depth + 1), //@C01
        r is Ok ==> *final(self) == *final(r->Ok_0) && *final(r->Ok_0.buf) == *final(old(self).buf) && r->Ok_0.depth == old(self).depth, //@C01
        r is Ok ==> entry(true, Shape::Struct, (*old(self).buf)@, (*r->Ok_0.buf)@, old(self).depth as int, Head::Id(id.vx_id()), value.vx_d()), //@C01
        r is Err && value.vx_cnt() ==> r->Err_0 is TooDeeplyNested, //@C01
fn Struct2Serializer::finish
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + footer(true), //@C01
source core/src/serializer/bytes.rs
only =Bytes1Serializer Bytes1Serializer::new Bytes1Serializer::remaining_elements Bytes1Serializer::requires_additional_elements Bytes1Serializer::serialize Bytes1Serializer::finish =Bytes2Serializer Bytes2Serializer::new Bytes2Serializer::serialize Bytes2Serializer::finish
fn Bytes1Serializer::new
    ensures
        r is Ok <==> num_elems <= u32::MAX, //@C01
        r is Ok ==> *final(r->Ok_0.buf) == *final(buf) && (*r->Ok_0.buf)@ == (*old(buf))@ + pd(ValueKind::Bytes1) + pn(num_elems as u32) && r->Ok_0.num_elems == num_elems, //@C01
        r is Err ==> r->Err_0 is Overflow, //@C01
fn Bytes1Serializer::remaining_elements
    ensures r == self.num_elems, //@C01
fn Bytes1Serializer::requires_additional_elements
    ensures r == (self.num_elems > 0), //@C01
fn Bytes1Serializer::serialize
    ensures
        r is Ok <==> bytes@.len() <= old(self).num_elems, //@C01
        r is Ok ==> *final(self) == *final(r->Ok_0) && *final(r->Ok_0.buf) == *final(old(self).buf) && r->Ok_0.num_elems == old(self).num_elems - bytes@.len() && (*r->Ok_0.buf)@ == (*old(self).buf)@ + bytes@, //@C01
fn Bytes1Serializer::finish
    ensures r is Ok <==> self.num_elems == 0, (*final(self.buf))@ == (*old(self.buf))@, //@C01
fn Bytes2Serializer::new
    ensures r is Ok, *final(r->Ok_0.buf) == *final(buf), (*r->Ok_0.buf)@ == (*old(buf))@ + pd(ValueKind::Bytes2), //@C01
fn Bytes2Serializer::serialize
    ensures
        r is Ok <==> bytes@.len() <= u32::MAX, //@C01
        r is Ok ==> *final(self) == *final(r->Ok_0) && *final(r->Ok_0.buf) == *final(old(self).buf) && (*r->Ok_0.buf)@ == (*old(self).buf)@ + pchunk(bytes@), //@C01
fn Bytes2Serializer::finish
    ensures r is Ok, (*final(self.buf))@ == (*old(self.buf))@ + pn(0), //@C01
hint Vec1Serializer::serialize start
    let ghost vx_a = (*self.buf)@;
    let ghost vx_x = value.vx_d();
hint Vec1Serializer::serialize after:serialize#0
    proof { entry_val(false, Shape::Vec, vx_a, (*self.buf)@, old(self).depth as int, Head::Unit, vx_x); }
hint Vec2Serializer::serialize start
    let ghost vx_a = (*self.buf)@;
    let ghost vx_x = value.vx_d();
hint Vec2Serializer::serialize after:serialize#0
    proof { entry_val(true, Shape::Vec, vx_a, (*self.buf)@, old(self).depth as int, Head::Unit, vx_x); }
hint Map1Serializer::new start
    proof { <K::Impl as KeyTagImpl>::vx_kinds(); }
hint Map1Serializer::serialize start
    let ghost vx_a = (*self.buf)@;
    let ghost vx_x = value.vx_d();
    proof { key.vx_skey_ok(); }
hint Map1Serializer::serialize after:serialize#0
    proof { entry_val(false, Shape::Map(<K::Impl as KeyTagImpl>::kt()), vx_a, (*self.buf)@, old(self).depth as int, Head::Key(key.vx_skey()->Some_0), vx_x); }
hint Map2Serializer::new start
    proof { <K::Impl as KeyTagImpl>::vx_kinds(); }
hint Map2Serializer::serialize start
    let ghost vx_a = (*self.buf)@;
    let ghost vx_x = value.vx_d();
    proof { key.vx_skey_ok(); }
hint Map2Serializer::serialize after:serialize#0
    proof { entry_val(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), vx_a, (*self.buf)@, old(self).depth as int, Head::Key(key.vx_skey()->Some_0), vx_x); }
hint Set1Serializer::new start
    proof { <K::Impl as KeyTagImpl>::vx_kinds(); }
hint Set1Serializer::serialize start
    let ghost vx_a = (*self.buf)@;
    proof { value.vx_skey_ok(); }
hint Set1Serializer::serialize after:serialize_key#0
    proof { assert forall|d: int| d <= max_depth() implies #[trigger] entry(false, Shape::Set(<K::Impl as KeyTagImpl>::kt()), vx_a, (*self.buf)@, d, Head::Key(value.vx_skey()->Some_0), D::Prim(V::None)) by { entry_key(false, Shape::Set(<K::Impl as KeyTagImpl>::kt()), vx_a, d, Head::Key(value.vx_skey()->Some_0)); } }
hint Set2Serializer::new start
    proof { <K::Impl as KeyTagImpl>::vx_kinds(); }
hint Set2Serializer::serialize start
    let ghost vx_a = (*self.buf)@;
    proof { value.vx_skey_ok(); }
hint Set2Serializer::serialize after:serialize_key#0
    proof { assert forall|d: int| d <= max_depth() implies #[trigger] entry(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), vx_a, (*self.buf)@, d, Head::Key(value.vx_skey()->Some_0), D::Prim(V::None)) by { entry_key(true, Shape::Set(<K::Impl as KeyTagImpl>::kt()), vx_a, d, Head::Key(value.vx_skey()->Some_0)); } }
hint Struct1Serializer::serialize start
    let ghost vx_a = (*self.buf)@;
    let ghost vx_x = value.vx_d();
    let ghost vx_n = id.vx_id();
hint Struct1Serializer::serialize after:serialize#0
    proof { entry_val(false, Shape::Struct, vx_a, (*self.buf)@, old(self).depth as int, Head::Id(vx_n), vx_x); }
hint Struct2Serializer::serialize start
    let ghost vx_a = (*self.buf)@;
    let ghost vx_x = value.vx_d();
    let ghost vx_n = id.vx_id();
hint Struct2Serializer::serialize after:serialize#0
    proof { entry_val(true, Shape::Struct, vx_a, (*self.buf)@, old(self).depth as int, Head::Id(vx_n), vx_x); }
hint Serializer::serialize_some start
    proof { wrote_somes((*self.buf)@, self.depth as int); }
hint Serializer::serialize_enum start
    proof { wrote_enums((*self.buf)@, id.vx_id(), self.depth as int); }
