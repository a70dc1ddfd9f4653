// Writing an introspection layout, byte by byte (C20)
subst tags::Map<TagU32, => TagMap<TagU32,
subst tags::Map<tags::U32, => TagMap<TagU32,
subst tags::Option<tags::String> => TagOption<TagString>
subst tags::Vec<tags::Value> => TagVec<TagValue>
subst tags::Option< => TagOption<
subst tags::Vec< => TagVec<
subst tags::Unit> => TagUnit>
subst tags::Bool> => TagBool>
subst Serialize<Map<K, T>> => Serialize<TagMap<K, T>>
subst fn serializes_as_some(&self) -> bool { true } => fn serializes_as_some(&self) -> bool;
source core/src/serialize.rs
only =Serialize
implspec trait Serialize
    /// the value that is written
    spec fn vx_v(self) -> V;
    spec fn vx_some(&self) -> bool;
fn Serialize::serialize
    requires 1 <= serializer.depth <= 32, //@C20
    ensures r is Ok ==> (*final(serializer.buf))@ == (*old(serializer.buf))@ + enc(true, self.vx_v()), //@C20
fn Serialize::serializes_as_some
    ensures r == self.vx_some(), //@C20
source core/src/serialize_key.rs
only =SerializeKey
implspec trait SerializeKey
    spec fn vx_skey(&self) -> Option<Key>;
    proof fn vx_skey_ok(&self) ensures self.vx_skey() is Some ==> kt_of(self.vx_skey()->Some_0) == <T::Impl as KeyTagImpl>::kt() && utf8_key(self.vx_skey()->Some_0);
fn SerializeKey::try_as_key
    ensures
        r is Ok <==> self.vx_skey() is Some, //@C20
        r is Ok ==> <T::Impl as KeyTagImpl>::vkey(r->Ok_0) == self.vx_skey()->Some_0, //@C20
source core/src/serializer.rs
only =Serializer Serializer::new Serializer::increment_depth Serializer::serialize Serializer::serialize_none Serializer::serialize_some Serializer::serialize_bool Serializer::serialize_u32 Serializer::serialize_string Serializer::serialize_uuid Serializer::serialize_vec2 Serializer::serialize_vec2_iter Serializer::serialize_map2 Serializer::serialize_map2_iter Serializer::serialize_struct1 Serializer::serialize_struct2 Serializer::serialize_enum Serializer::serialize_unit_enum
fn Serializer::new
    requires depth <= 32, //@C20
    ensures
        r is Ok ==> depth < 32 && r->Ok_0.depth == depth + 1 && *r->Ok_0.buf == *old(buf) && *final(r->Ok_0.buf) == *final(buf), //@C20
fn Serializer::increment_depth
    requires old(self).depth <= 32, //@C20
    ensures
        r is Ok ==> old(self).depth < 32, final(self).depth == old(self).depth + 1, *final(self).buf == *old(self).buf, *final(final(self).buf) == *final(old(self).buf), //@C20
fn Serializer::serialize
    requires 1 <= self.depth <= 32, //@C20
    ensures r is Ok ==> (*final(self.buf))@ == (*old(self.buf))@ + enc(true, value.vx_v()), //@C20
fn Serializer::serialize_none
    ensures r is Ok ==> (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::None), //@C20
fn Serializer::serialize_some
    requires 1 <= self.depth <= 32, //@C20
    ensures r is Ok ==> (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::Some(Box::new(value.vx_v()))), //@C20
fn Serializer::serialize_enum
    requires 1 <= self.depth <= 32, //@C20
    ensures r is Ok ==> (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::Enum(id.vx_id(), Box::new(value.vx_v()))), //@C20
fn Serializer::serialize_unit_enum
    requires 1 <= self.depth <= 32, //@C20
    ensures r is Ok ==> (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::Enum(id.vx_id(), Box::new(V::None))), //@C20
fn Serializer::serialize_bool
    ensures r is Ok ==> (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::Bool(value)), //@C20
fn Serializer::serialize_u32
    ensures r is Ok ==> (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::U32(value)), //@C20
fn Serializer::serialize_uuid
    ensures r is Ok ==> (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::Uuid(value)), //@C20
fn Serializer::serialize_string
    ensures r is Ok ==> (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::Str(value@)), //@C20
fn Serializer::serialize_vec2
    ensures r is Ok ==> *final(r->Ok_0.buf) == *final(self.buf) && (*r->Ok_0.buf)@ == (*old(self.buf))@ + pd(ValueKind::Vec2) && r->Ok_0.depth == self.depth, //@C20
fn Serializer::serialize_map2
    ensures r is Ok ==> *final(r->Ok_0.buf) == *final(self.buf) && (*r->Ok_0.buf)@ == (*old(self.buf))@ + pd(map_kind(<K::Impl as KeyTagImpl>::kt(), true)) && r->Ok_0.depth == self.depth, //@C20
fn Serializer::serialize_struct1
    ensures r is Ok ==> *final(r->Ok_0.buf) == *final(self.buf) && (*r->Ok_0.buf)@ == (*old(self.buf))@ + (pd(ValueKind::Struct1) + pn(num_fields as u32)) && r->Ok_0.num_fields == num_fields && r->Ok_0.depth == self.depth, //@C20
fn Serializer::serialize_struct2
    ensures r is Ok ==> *final(r->Ok_0.buf) == *final(self.buf) && (*r->Ok_0.buf)@ == sx((*old(self.buf))@, Seq::empty()) && r->Ok_0.depth == self.depth, //@C20
fn Serializer::serialize_vec2_iter verifier::loop_isolation(false)
    requires 1 <= self.depth <= 32, //@C20
    ensures r is Ok ==> (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::List(Shape::Vec, all_s::<T, U::Item>(vec.vx_items()))), //@C20
fn Serializer::serialize_map2_iter verifier::loop_isolation(false)
    requires 1 <= self.depth <= 32, //@C20
    ensures r is Ok ==> (*final(self.buf))@ == (*old(self.buf))@ + enc(true, V::List(Shape::Map(<K::Impl as KeyTagImpl>::kt()), all_m::<K, L, T, U>(map.vx_items()))), //@C20
hint Serializer::serialize_vec2_iter start
    let ghost vx_items = vec.vx_items();
    proof { assert(all_s::<T, U::Item>(vx_items.take(0)) =~= Seq::empty()); }
loop Serializer::serialize_vec2_iter 0
    invariant
        1 <= self.depth <= 32, *final(serializer.buf) == *final(self.buf), vx_it0.wf(), vx_it0.all() == vx_items, serializer.depth == self.depth,
        (*serializer.buf)@ == (*old(self.buf))@ + (pd(ValueKind::Vec2) + encs(true, Shape::Vec, all_s::<T, U::Item>(vx_items.take(vx_it0.pos())))),
    decreases vx_it0.left(),
hint Serializer::serialize_vec2_iter loop0.bind
    let ghost vx_j = vx_it0.pos() - 1;
    proof {
        let x = Ent { h: Head::Unit, v: elem.vx_v() };
        encs_push(true, Shape::Vec, all_s::<T, U::Item>(vx_items.take(vx_j)), x);
        assert(all_s::<T, U::Item>(vx_items.take(vx_j + 1)) =~= all_s::<T, U::Item>(vx_items.take(vx_j)).push(x));
    }
hint Serializer::serialize_vec2_iter loop0.after
    proof { assert(vx_items.take(vx_items.len() as int) =~= vx_items); }
hint Serializer::serialize_map2_iter start
    let ghost vx_items = map.vx_items();
    proof { assert(all_m::<K, L, T, U>(vx_items.take(0)) =~= Seq::empty()); }
loop Serializer::serialize_map2_iter 0
    invariant
        1 <= self.depth <= 32, *final(serializer.buf) == *final(self.buf), vx_it0.wf(), vx_it0.all() == vx_items, serializer.depth == self.depth,
        (*serializer.buf)@ == (*old(self.buf))@ + (pd(map_kind(<K::Impl as KeyTagImpl>::kt(), true)) + encs(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), all_m::<K, L, T, U>(vx_items.take(vx_it0.pos())))),
    decreases vx_it0.left(),
hint Serializer::serialize_map2_iter loop0.bind
    let ghost vx_j = vx_it0.pos() - 1;
    proof {
        let x = Ent { h: Head::Key(key.vx_skey()->Some_0), v: value.vx_v() };
        encs_push(true, Shape::Map(<K::Impl as KeyTagImpl>::kt()), all_m::<K, L, T, U>(vx_items.take(vx_j)), x);
        assert(all_m::<K, L, T, U>(vx_items.take(vx_j + 1)) =~= all_m::<K, L, T, U>(vx_items.take(vx_j)).push(x));
    }
hint Serializer::serialize_map2_iter loop0.after
    proof { assert(vx_items.take(vx_items.len() as int) =~= vx_items); }
source core/src/serializer/vec.rs
only =Vec2Serializer Vec2Serializer::new Vec2Serializer::serialize Vec2Serializer::finish
fn Vec2Serializer::new
    ensures r is Ok ==> *final(r->Ok_0.buf) == *final(buf) && (*r->Ok_0.buf)@ == (*old(buf))@ + pd(ValueKind::Vec2) && r->Ok_0.depth == depth, //@C20
fn Vec2Serializer::serialize
    requires 1 <= old(self).depth <= 32, //@C20
    ensures
        r is Ok ==> *final(self) == *final(r->Ok_0) && *final(r->Ok_0.buf) == *final(old(self).buf) && r->Ok_0.depth == old(self).depth, //@C20
        r is Ok ==> (*r->Ok_0.buf)@ == (*old(self).buf)@ + (pd(ValueKind::Some) + enc(true, value.vx_v())), //@C20
fn Vec2Serializer::finish
    ensures r is Ok ==> (*final(self.buf))@ == (*old(self.buf))@ + pd(ValueKind::None), //@C20
source core/src/serializer/map.rs
only =Map2Serializer Map2Serializer::new Map2Serializer::serialize Map2Serializer::finish
fn Map2Serializer::new
    ensures r is Ok ==> *final(r->Ok_0.buf) == *final(buf) && (*r->Ok_0.buf)@ == (*old(buf))@ + pd(map_kind(<K::Impl as KeyTagImpl>::kt(), true)) && r->Ok_0.depth == depth, //@C20
hint Map2Serializer::new start
    proof { <K::Impl as KeyTagImpl>::vx_kinds(); }
fn Map2Serializer::serialize
    requires 1 <= old(self).depth <= 32, //@C20
    ensures
        r is Ok ==> *final(self) == *final(r->Ok_0) && *final(r->Ok_0.buf) == *final(old(self).buf) && r->Ok_0.depth == old(self).depth, //@C20
        r is Ok ==> key.vx_skey() is Some && (*r->Ok_0.buf)@ == (*old(self).buf)@ + (pd(ValueKind::Some) + pkey(key.vx_skey()->Some_0) + enc(true, value.vx_v())), //@C20
source core/src/serializer/struct_.rs
only =Struct1Serializer Struct1Serializer::new Struct1Serializer::remaining_fields Struct1Serializer::requires_additional_fields Struct1Serializer::serialize Struct1Serializer::finish =Struct2Serializer Struct2Serializer::new Struct2Serializer::serialize Struct2Serializer::serialize_if_some Struct2Serializer::finish
fn Map2Serializer::finish
    ensures r is Ok ==> (*final(self.buf))@ == (*old(self.buf))@ + pd(ValueKind::None), //@C20
fn Struct1Serializer::new
    ensures r is Ok ==> *final(r->Ok_0.buf) == *final(buf) && (*r->Ok_0.buf)@ == (*old(buf))@ + (pd(ValueKind::Struct1) + pn(num_fields as u32)) && r->Ok_0.num_fields == num_fields && r->Ok_0.depth == depth, //@C20
fn Struct1Serializer::remaining_fields
    ensures r == self.num_fields, //@C20
fn Struct1Serializer::requires_additional_fields
    ensures r == (self.num_fields > 0), //@C20
fn Struct1Serializer::serialize
    requires 1 <= old(self).depth <= 32, //@C20
    ensures
        r is Ok ==> old(self).num_fields > 0 && *final(self) == *final(r->Ok_0) && *final(r->Ok_0.buf) == *final(old(self).buf) && r->Ok_0.num_fields == old(self).num_fields - 1 && r->Ok_0.depth == old(self).depth, //@C20
        r is Ok ==> (*r->Ok_0.buf)@ == (*old(self).buf)@ + (pn(id.vx_id()) + enc(true, value.vx_v())), //@C20
fn Struct1Serializer::finish
    ensures r is Ok ==> (*final(self.buf))@ == (*old(self.buf))@, //@C20
fn Struct2Serializer::new
    ensures r is Ok ==> *final(r->Ok_0.buf) == *final(buf) && (*r->Ok_0.buf)@ == sx((*old(buf))@, Seq::empty()) && r->Ok_0.depth == depth, //@C20
hint Struct2Serializer::new start
    proof { reveal(sx); }
fn Struct2Serializer::serialize
    requires 1 <= old(self).depth <= 32, //@C20
    ensures
        r is Ok ==> *final(self) == *final(r->Ok_0) && *final(r->Ok_0.buf) == *final(old(self).buf) && r->Ok_0.depth == old(self).depth, //@C20
        r is Ok ==> forall|a: Seq<u8>, l: Seq<Ent>| (*old(self).buf)@ == #[trigger] sx(a, l) ==> (*r->Ok_0.buf)@ == sx(a, fld(l, id.vx_id(), value.vx_v())), //@C20
hint Struct2Serializer::serialize start
    proof {
        assert forall|a: Seq<u8>, l: Seq<Ent>| #[trigger] sx(a, fld(l, id.vx_id(), value.vx_v())) == sx(a, l) + (pd(ValueKind::Some) + pn(id.vx_id()) + enc(true, value.vx_v())) by {
            reveal(sx); encs_push(true, Shape::Struct, l, Ent { h: Head::Id(id.vx_id()), v: value.vx_v() });
        }
    }
fn Struct2Serializer::serialize_if_some
    requires 1 <= old(self).depth <= 32, //@C20
    ensures
        r is Ok ==> *final(self) == *final(r->Ok_0) && *final(r->Ok_0.buf) == *final(old(self).buf) && r->Ok_0.depth == old(self).depth, //@C20
        r is Ok ==> forall|a: Seq<u8>, l: Seq<Ent>| (*old(self).buf)@ == #[trigger] sx(a, l) ==> (*r->Ok_0.buf)@ == sx(a, if value.vx_some() { fld(l, id.vx_id(), value.vx_v()) } else { l }), //@C20
fn Struct2Serializer::finish
    ensures r is Ok ==> forall|a: Seq<u8>, l: Seq<Ent>| (*old(self.buf))@ == #[trigger] sx(a, l) ==> (*final(self.buf))@ == a + enc(true, V::List(Shape::Struct, l)), //@C20
hint Struct2Serializer::finish start
    proof { reveal(sx); }
