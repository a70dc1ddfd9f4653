// The dynamic value (C01): its nested values are the opaque Child
source core/src/tags.rs
only =Value
rename Value TagValue
source core/src/bytes.rs
only =Bytes
text
    // core: &Bytes dereferences to its bytes
    impl Bytes {
        #[verifier::external_body]
        pub fn vx_slice(&self) -> (r: &[u8]) ensures r@ == self.0@ { unimplemented!() }
    }
source core/src/impls.rs
only
keep impl Serialize<T> for &'aBox<U>
source core/src/key_impls.rs
only
keep impl SerializeKey<tags::String> for String
keep impl SerializeKey<tags::Uuid> for Uuid
keep impl SerializeKey<T> for &U
source core/src/value.rs
only =Value =Struct =Enum
keep impl Serialize<tags::Value> for Value
keep impl Serialize<tags::Value> for &Value
keep impl Tag for Struct
keep impl Serialize<Self> for Struct
keep impl Serialize<Struct> for &Struct
keep impl Tag for Enum
keep impl Serialize<Self> for Enum
keep impl Serialize<Enum> for &Enum
implspec impl Serialize<T> for &'aBox<U>
    open spec fn vx_d(self) -> D { (&**self).vx_d() }
    open spec fn vx_fits(self, d: int) -> bool { (&**self).vx_fits(d) }
    open spec fn vx_cnt(self) -> bool { (&**self).vx_cnt() }
implspec impl Serialize<TagValue> for Value
    open spec fn vx_d(self) -> D { value_d(self) }
    open spec fn vx_fits(self, d: int) -> bool { value_fits(self, d) }
    open spec fn vx_cnt(self) -> bool { value_cnt(self) }
implspec impl Serialize<TagValue> for &Value
    open spec fn vx_d(self) -> D { value_d(*self) }
    open spec fn vx_fits(self, d: int) -> bool { value_fits(*self, d) }
    open spec fn vx_cnt(self) -> bool { value_cnt(*self) }
implspec impl Serialize<Struct> for Struct
    open spec fn vx_d(self) -> D { struct_d(self) }
    open spec fn vx_fits(self, d: int) -> bool { struct_fits(self, d) }
    open spec fn vx_cnt(self) -> bool { struct_cnt(self) }
implspec impl Serialize<Struct> for &Struct
    open spec fn vx_d(self) -> D { struct_d(*self) }
    open spec fn vx_fits(self, d: int) -> bool { struct_fits(*self, d) }
    open spec fn vx_cnt(self) -> bool { struct_cnt(*self) }
implspec impl Serialize<Enum> for Enum
    open spec fn vx_d(self) -> D { enum_d(self) }
    open spec fn vx_fits(self, d: int) -> bool { enum_fits(self, d) }
    open spec fn vx_cnt(self) -> bool { enum_cnt(self) }
implspec impl Serialize<Enum> for &Enum
    open spec fn vx_d(self) -> D { enum_d(*self) }
    open spec fn vx_fits(self, d: int) -> bool { enum_fits(*self, d) }
    open spec fn vx_cnt(self) -> bool { enum_cnt(*self) }
implspec impl SerializeKey<TagString> for String
    open spec fn vx_skey(&self) -> Option<Key> { Some(Key::Str(self@)) }
    proof fn vx_skey_ok(&self) {  }
implspec impl SerializeKey<TagUuid> for Uuid
    open spec fn vx_skey(&self) -> Option<Key> { Some(Key::Uuid(*self)) }
    proof fn vx_skey_ok(&self) {  }
implspec impl SerializeKey<T> for &U
    open spec fn vx_skey(&self) -> Option<Key> { (**self).vx_skey() }
    proof fn vx_skey_ok(&self) { (**self).vx_skey_ok(); }
hint <&ValueasSerialize<TagValue>>::serialize start
    proof { let vx_n = serializer.depth as int; let vx_a = (*serializer.buf)@; match value_d(*self) { D::Prim(v) => { if value_fits(*self, vx_n) { wrote_leaf(vx_a, true, v, vx_n); } } _ => { } }
        match self {
            Value::U8Map(m) => { map_all::<TagU8, _>(m, vx_n); } Value::U8Set(m) => { set_all::<TagU8, _>(m, vx_n); }
            Value::I8Map(m) => { map_all::<TagI8, _>(m, vx_n); } Value::I8Set(m) => { set_all::<TagI8, _>(m, vx_n); }
            Value::U16Map(m) => { map_all::<TagU16, _>(m, vx_n); } Value::U16Set(m) => { set_all::<TagU16, _>(m, vx_n); }
            Value::I16Map(m) => { map_all::<TagI16, _>(m, vx_n); } Value::I16Set(m) => { set_all::<TagI16, _>(m, vx_n); }
            Value::U32Map(m) => { map_all::<TagU32, _>(m, vx_n); } Value::U32Set(m) => { set_all::<TagU32, _>(m, vx_n); }
            Value::I32Map(m) => { map_all::<TagI32, _>(m, vx_n); } Value::I32Set(m) => { set_all::<TagI32, _>(m, vx_n); }
            Value::U64Map(m) => { map_all::<TagU64, _>(m, vx_n); } Value::U64Set(m) => { set_all::<TagU64, _>(m, vx_n); }
            Value::I64Map(m) => { map_all::<TagI64, _>(m, vx_n); } Value::I64Set(m) => { set_all::<TagI64, _>(m, vx_n); }
            Value::StringMap(m) => { map_all::<TagString, _>(m, vx_n); } Value::StringSet(m) => { set_all::<TagString, _>(m, vx_n); }
            Value::UuidMap(m) => { map_all::<TagUuid, _>(m, vx_n); } Value::UuidSet(m) => { set_all::<TagUuid, _>(m, vx_n); }
            Value::Vec(l) => { assert(all_s::<TagValue, &Child>(l.vx_items()) =~= l@.map_values(|x: Child| x.den())); vec_all(l, vx_n); }
            Value::None | Value::Some(_) | Value::Struct(_) | Value::Enum(_) => { }
            _ => { } } }
fn <&StructasSerialize<Struct>>::serialize verifier::loop_isolation(false)
hint <&StructasSerialize<Struct>>::serialize start
    let ghost vx_a = (*serializer.buf)@;
    let ghost vx_n = serializer.depth as int;
    let ghost vx_fin = *final(serializer.buf);
    let ghost vx_items = (&self.0).vx_items();
    let ghost mut vx_l = Seq::<Ent>::empty();
    proof { map_all::<TagU32, u32>(&self.0, vx_n); }
hint <&StructasSerialize<Struct>>::serialize loop0.before
    proof { body_new(true, Shape::Struct, (*serializer.buf)@, vx_n); }
loop <&StructasSerialize<Struct>>::serialize 0
    invariant
        1 <= vx_n <= 32, *final(serializer.buf) == vx_fin, vx_it0.wf(), vx_it0.all() == vx_items, serializer.depth == vx_n,
        fits_m::<TagU32, &u32, TagValue, &Child>(vx_items.take(vx_it0.pos()), vx_n), vx_l.len() == vx_it0.pos(), den_m(vx_l) == all_m::<TagU32, &u32, TagValue, &Child>(vx_items.take(vx_it0.pos())),
        body(true, Shape::Struct, vx_a + header(true, Shape::Struct, 0), (*serializer.buf)@, vx_n, vx_l),
    decreases vx_it0.left(),
hint <&StructasSerialize<Struct>>::serialize loop0.bind
    let ghost vx_b = (*serializer.buf)@;
    let ghost vx_j = vx_it0.pos() - 1;
    let ghost vx_d = field.vx_d();
    let ghost vx_h = Head::Id(*vx_items[vx_j].0);
    proof { assert(vx_items.take(vx_j + 1).take(vx_j) =~= vx_items.take(vx_j)); assert(vx_items.take(vx_j + 1)[vx_j] == vx_items[vx_j]); assert(vx_items[vx_j].0.vx_skey() == Some(Key::U32(*vx_items[vx_j].0))); }
hint <&StructasSerialize<Struct>>::serialize loop0.end
    proof { let x = body_push(true, Shape::Struct, vx_a + header(true, Shape::Struct, 0), vx_b, (*serializer.buf)@, vx_n, vx_l, vx_h, vx_d); den_push(vx_l, x); vx_l = vx_l.push(x); }
hint <&StructasSerialize<Struct>>::serialize loop0.after
    proof { assert(vx_items.take(vx_items.len() as int) =~= vx_items); list_done(true, Shape::Struct, vx_a, (*serializer.buf)@, vx_n, vx_l); }
post
    // ---- the meaning of the dynamic value, and when it can be written
    pub trait VxKey: Sized { spec fn vx_k(self) -> Key; }
    impl VxKey for u8 { open spec fn vx_k(self) -> Key { Key::U8(self) } }
    impl VxKey for i8 { open spec fn vx_k(self) -> Key { Key::I8(self) } }
    impl VxKey for u16 { open spec fn vx_k(self) -> Key { Key::U16(self) } }
    impl VxKey for i16 { open spec fn vx_k(self) -> Key { Key::I16(self) } }
    impl VxKey for u32 { open spec fn vx_k(self) -> Key { Key::U32(self) } }
    impl VxKey for i32 { open spec fn vx_k(self) -> Key { Key::I32(self) } }
    impl VxKey for u64 { open spec fn vx_k(self) -> Key { Key::U64(self) } }
    impl VxKey for i64 { open spec fn vx_k(self) -> Key { Key::I64(self) } }
    impl VxKey for VxStr { open spec fn vx_k(self) -> Key { Key::Str(self@) } }
    impl VxKey for Uuid { open spec fn vx_k(self) -> Key { Key::Uuid(self) } }
    // key_impls.rs (generated by impl_primitive!)
    impl SerializeKey<TagU8> for u8 {
        open spec fn vx_skey(&self) -> Option<Key> { Some(Key::U8(*self)) }
        proof fn vx_skey_ok(&self) { }
        fn try_as_key(&self) -> (r: Result<<<TagU8 as KeyTag>::Impl as KeyTagImpl>::Key, SerializeError>) { Ok(*self) }
    }
    // key_impls.rs (generated by impl_primitive!)
    impl SerializeKey<TagI8> for i8 {
        open spec fn vx_skey(&self) -> Option<Key> { Some(Key::I8(*self)) }
        proof fn vx_skey_ok(&self) { }
        fn try_as_key(&self) -> (r: Result<<<TagI8 as KeyTag>::Impl as KeyTagImpl>::Key, SerializeError>) { Ok(*self) }
    }
    // key_impls.rs (generated by impl_primitive!)
    impl SerializeKey<TagU16> for u16 {
        open spec fn vx_skey(&self) -> Option<Key> { Some(Key::U16(*self)) }
        proof fn vx_skey_ok(&self) { }
        fn try_as_key(&self) -> (r: Result<<<TagU16 as KeyTag>::Impl as KeyTagImpl>::Key, SerializeError>) { Ok(*self) }
    }
    // key_impls.rs (generated by impl_primitive!)
    impl SerializeKey<TagI16> for i16 {
        open spec fn vx_skey(&self) -> Option<Key> { Some(Key::I16(*self)) }
        proof fn vx_skey_ok(&self) { }
        fn try_as_key(&self) -> (r: Result<<<TagI16 as KeyTag>::Impl as KeyTagImpl>::Key, SerializeError>) { Ok(*self) }
    }
    // key_impls.rs (generated by impl_primitive!)
    impl SerializeKey<TagU32> for u32 {
        open spec fn vx_skey(&self) -> Option<Key> { Some(Key::U32(*self)) }
        proof fn vx_skey_ok(&self) { }
        fn try_as_key(&self) -> (r: Result<<<TagU32 as KeyTag>::Impl as KeyTagImpl>::Key, SerializeError>) { Ok(*self) }
    }
    // key_impls.rs (generated by impl_primitive!)
    impl SerializeKey<TagI32> for i32 {
        open spec fn vx_skey(&self) -> Option<Key> { Some(Key::I32(*self)) }
        proof fn vx_skey_ok(&self) { }
        fn try_as_key(&self) -> (r: Result<<<TagI32 as KeyTag>::Impl as KeyTagImpl>::Key, SerializeError>) { Ok(*self) }
    }
    // key_impls.rs (generated by impl_primitive!)
    impl SerializeKey<TagU64> for u64 {
        open spec fn vx_skey(&self) -> Option<Key> { Some(Key::U64(*self)) }
        proof fn vx_skey_ok(&self) { }
        fn try_as_key(&self) -> (r: Result<<<TagU64 as KeyTag>::Impl as KeyTagImpl>::Key, SerializeError>) { Ok(*self) }
    }
    // key_impls.rs (generated by impl_primitive!)
    impl SerializeKey<TagI64> for i64 {
        open spec fn vx_skey(&self) -> Option<Key> { Some(Key::I64(*self)) }
        proof fn vx_skey_ok(&self) { }
        fn try_as_key(&self) -> (r: Result<<<TagI64 as KeyTag>::Impl as KeyTagImpl>::Key, SerializeError>) { Ok(*self) }
    }
    pub open spec fn map_d(m: Map<Key, Child>) -> Map<Key, D> { m.map_values(|c: Child| c.den()) }
    pub open spec fn map_fits(m: Map<Key, Child>, d: int) -> bool { forall|k: Key| #[trigger] m.dom().contains(k) ==> fits_key(k) && d < 32 && m[k].fits(d + 1) }
    pub open spec fn map_cnt(m: Map<Key, Child>) -> bool { forall|k: Key| #[trigger] m.dom().contains(k) ==> fits_key(k) && m[k].cnt() }
    pub open spec fn set_fits(s: Set<Key>) -> bool { forall|k: Key| #[trigger] s.contains(k) ==> fits_key(k) }
    pub open spec fn struct_d(s: Struct) -> D { D::Map(Shape::Struct, map_d(s.0@)) }
    pub open spec fn struct_fits(s: Struct, d: int) -> bool { map_fits(s.0@, d) }
    pub open spec fn struct_cnt(s: Struct) -> bool { map_cnt(s.0@) }
    pub open spec fn enum_d(e: Enum) -> D { D::Enum(e.id, Box::new(e.value.den())) }
    pub open spec fn enum_fits(e: Enum, d: int) -> bool { d < 32 && e.value.fits(d + 1) }
    pub open spec fn enum_cnt(e: Enum) -> bool { e.value.cnt() }
    pub open spec fn value_d(v: Value) -> D { match v {
        Value::None => D::Prim(V::None),
        Value::Bool(b) => D::Prim(V::Bool(b)),
        Value::U8(n) => D::Prim(V::U8(n)),
        Value::I8(n) => D::Prim(V::I8(n)),
        Value::U16(n) => D::Prim(V::U16(n)),
        Value::I16(n) => D::Prim(V::I16(n)),
        Value::U32(n) => D::Prim(V::U32(n)),
        Value::I32(n) => D::Prim(V::I32(n)),
        Value::U64(n) => D::Prim(V::U64(n)),
        Value::I64(n) => D::Prim(V::I64(n)),
        Value::F32(x) => D::Prim(V::F32(vx_bits4(x))),
        Value::F64(x) => D::Prim(V::F64(vx_bits8(x))),
        Value::String(s) => D::Prim(V::Str(s@)),
        Value::Uuid(u) => D::Prim(V::Uuid(u)),
        Value::ObjectId(i) => D::Prim(V::ObjectId(i)),
        Value::ServiceId(i) => D::Prim(V::ServiceId(i)),
        Value::Bytes(b) => D::Prim(V::Bytes(b.0@)),
        Value::Sender(c) => D::Prim(V::Sender(c)),
        Value::Receiver(c) => D::Prim(V::Receiver(c)),
        Value::Some(b) => D::Some(Box::new(b.den())),
        Value::Vec(l) => D::Vec(l@.map_values(|x: Child| x.den())),
        Value::U8Map(m) => D::Map(Shape::Map(KT::U8), map_d(m@)), Value::U8Set(m) => D::Set(KT::U8, m@),
        Value::I8Map(m) => D::Map(Shape::Map(KT::I8), map_d(m@)), Value::I8Set(m) => D::Set(KT::I8, m@),
        Value::U16Map(m) => D::Map(Shape::Map(KT::U16), map_d(m@)), Value::U16Set(m) => D::Set(KT::U16, m@),
        Value::I16Map(m) => D::Map(Shape::Map(KT::I16), map_d(m@)), Value::I16Set(m) => D::Set(KT::I16, m@),
        Value::U32Map(m) => D::Map(Shape::Map(KT::U32), map_d(m@)), Value::U32Set(m) => D::Set(KT::U32, m@),
        Value::I32Map(m) => D::Map(Shape::Map(KT::I32), map_d(m@)), Value::I32Set(m) => D::Set(KT::I32, m@),
        Value::U64Map(m) => D::Map(Shape::Map(KT::U64), map_d(m@)), Value::U64Set(m) => D::Set(KT::U64, m@),
        Value::I64Map(m) => D::Map(Shape::Map(KT::I64), map_d(m@)), Value::I64Set(m) => D::Set(KT::I64, m@),
        Value::StringMap(m) => D::Map(Shape::Map(KT::Str), map_d(m@)), Value::StringSet(m) => D::Set(KT::Str, m@),
        Value::UuidMap(m) => D::Map(Shape::Map(KT::Uuid), map_d(m@)), Value::UuidSet(m) => D::Set(KT::Uuid, m@),
        Value::Struct(s) => struct_d(s), Value::Enum(e) => enum_d(*e), } }
    pub open spec fn value_fits(v: Value, d: int) -> bool { match v {
        Value::String(s) => s@.len() <= u32::MAX, Value::Bytes(b) => b.0@.len() <= u32::MAX,
        Value::Some(b) => d < 32 && b.fits(d + 1),
        Value::Vec(l) => vec_fits(l@, d),
        Value::U8Map(m) => map_fits(m@, d), Value::U8Set(m) => set_fits(m@),
        Value::I8Map(m) => map_fits(m@, d), Value::I8Set(m) => set_fits(m@),
        Value::U16Map(m) => map_fits(m@, d), Value::U16Set(m) => set_fits(m@),
        Value::I16Map(m) => map_fits(m@, d), Value::I16Set(m) => set_fits(m@),
        Value::U32Map(m) => map_fits(m@, d), Value::U32Set(m) => set_fits(m@),
        Value::I32Map(m) => map_fits(m@, d), Value::I32Set(m) => set_fits(m@),
        Value::U64Map(m) => map_fits(m@, d), Value::U64Set(m) => set_fits(m@),
        Value::I64Map(m) => map_fits(m@, d), Value::I64Set(m) => set_fits(m@),
        Value::StringMap(m) => map_fits(m@, d), Value::StringSet(m) => set_fits(m@),
        Value::UuidMap(m) => map_fits(m@, d), Value::UuidSet(m) => set_fits(m@),
        Value::Struct(s) => struct_fits(s, d), Value::Enum(e) => enum_fits(*e, d),
        _ => true } }
    /// what a value has to satisfy at any level
    pub open spec fn value_cnt(v: Value) -> bool { match v {
        Value::String(s) => s@.len() <= u32::MAX, Value::Bytes(b) => b.0@.len() <= u32::MAX,
        Value::Some(b) => b.cnt(),
        Value::Vec(l) => vec_cnt(l@),
        Value::U8Map(m) => map_cnt(m@), Value::U8Set(m) => set_fits(m@),
        Value::I8Map(m) => map_cnt(m@), Value::I8Set(m) => set_fits(m@),
        Value::U16Map(m) => map_cnt(m@), Value::U16Set(m) => set_fits(m@),
        Value::I16Map(m) => map_cnt(m@), Value::I16Set(m) => set_fits(m@),
        Value::U32Map(m) => map_cnt(m@), Value::U32Set(m) => set_fits(m@),
        Value::I32Map(m) => map_cnt(m@), Value::I32Set(m) => set_fits(m@),
        Value::U64Map(m) => map_cnt(m@), Value::U64Set(m) => set_fits(m@),
        Value::I64Map(m) => map_cnt(m@), Value::I64Set(m) => set_fits(m@),
        Value::StringMap(m) => map_cnt(m@), Value::StringSet(m) => set_fits(m@),
        Value::UuidMap(m) => map_cnt(m@), Value::UuidSet(m) => set_fits(m@),
        Value::Struct(s) => struct_cnt(s), Value::Enum(e) => enum_cnt(*e),
        _ => true } }
    // ---- assumed: std's collections
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::reject_recursive_types(T)]
    pub struct HashMap<K, T> { x: (K, T) }
    impl<K: VxKey, T> HashMap<K, T> { pub uninterp spec fn items(&self) -> Seq<(K, T)>; }
    impl<K: VxKey, T> View for HashMap<K, T> { type V = Map<Key, T>; uninterp spec fn view(&self) -> Map<Key, T>; }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    pub struct HashSet<K> { x: K }
    impl<K: VxKey> HashSet<K> { pub uninterp spec fn items(&self) -> Seq<K>; }
    impl<K: VxKey> View for HashSet<K> { type V = Set<Key>; uninterp spec fn view(&self) -> Set<Key>; }
    /// iterating visits exactly the entries
    pub axiom fn map_items<K: VxKey, T>(m: &HashMap<K, T>)
        ensures
            forall|i: int| 0 <= i < m.items().len() ==> m@.dom().contains((#[trigger] m.items()[i]).0.vx_k()) && m@[m.items()[i].0.vx_k()] == m.items()[i].1,
            forall|k: Key| #[trigger] m@.dom().contains(k) ==> exists|i: int| 0 <= i < m.items().len() && (#[trigger] m.items()[i]).0.vx_k() == k;
    pub axiom fn set_items<K: VxKey>(m: &HashSet<K>)
        ensures
            forall|i: int| 0 <= i < m.items().len() ==> m@.contains((#[trigger] m.items()[i]).vx_k()),
            forall|k: Key| #[trigger] m@.contains(k) ==> exists|i: int| 0 <= i < m.items().len() && (#[trigger] m.items()[i]).vx_k() == k;
    impl<'a, T> IntoIterator for &'a Vec<T> {
        type Item = &'a T;
        open spec fn vx_items(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
        #[verifier::external_body]
        fn vx_into_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() }
        #[verifier::external_body]
        fn into_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() }
    }
    impl<'a, K: VxKey, T> IntoIterator for &'a HashMap<K, T> {
        type Item = (&'a K, &'a T);
        open spec fn vx_items(self) -> Seq<(&'a K, &'a T)> { Seq::new(self.items().len(), |i: int| (&self.items()[i].0, &self.items()[i].1)) }
        #[verifier::external_body]
        fn vx_into_iter(self) -> (r: VxIter<(&'a K, &'a T)>) { unimplemented!() }
        #[verifier::external_body]
        fn into_iter(self) -> (r: VxIter<(&'a K, &'a T)>) { unimplemented!() }
    }
    impl<'a, K: VxKey> IntoIterator for &'a HashSet<K> {
        type Item = &'a K;
        open spec fn vx_items(self) -> Seq<&'a K> { Seq::new(self.items().len(), |i: int| &self.items()[i]) }
        #[verifier::external_body]
        fn vx_into_iter(self) -> (r: VxIter<&'a K>) { unimplemented!() }
        #[verifier::external_body]
        fn into_iter(self) -> (r: VxIter<&'a K>) { unimplemented!() }
    }
    impl VxStr { #[verifier::external_body] pub fn vx_borrow(&self) -> (r: VxStr) ensures r@ == self@ { unimplemented!() } }
    // ---- what the serializers are given is what the collection holds
    pub open spec fn self_key<K: KeyTag, L: VxKey + SerializeKey<K>>() -> bool { forall|l: L| #[trigger] l.vx_skey() == Some(l.vx_k()) }
    pub proof fn all_m_part<'a, K: KeyTag, L: VxKey + SerializeKey<K>>(m: &'a HashMap<L, Child>, n: int)
        requires 0 <= n <= m.items().len(), self_key::<K, L>(),
        ensures
            forall|i: int| 0 <= i < n ==> all_m::<K, &'a L, TagValue, &'a Child>(m.vx_items().take(n)).dom().contains((#[trigger] m.items()[i]).0.vx_k()),
            forall|k: Key| all_m::<K, &'a L, TagValue, &'a Child>(m.vx_items().take(n)).dom().contains(k) ==> m@.dom().contains(k) && #[trigger] all_m::<K, &'a L, TagValue, &'a Child>(m.vx_items().take(n))[k] == m@[k].den(),
        decreases n,
    {
        map_items(m);
        if n > 0 {
            all_m_part::<K, L>(m, n - 1);
            let s = m.vx_items().take(n);
            assert(s.take(n - 1) =~= m.vx_items().take(n - 1));
            assert(s[n - 1] == (&m.items()[n - 1].0, &m.items()[n - 1].1));
            assert(s[n - 1].0.vx_skey() == Some(m.items()[n - 1].0.vx_k()));
        }
    }
    pub proof fn map_all<'a, K: KeyTag, L: VxKey + SerializeKey<K>>(m: &'a HashMap<L, Child>, d: int)
        requires self_key::<K, L>(),
        ensures
            all_m::<K, &'a L, TagValue, &'a Child>(m.vx_items()) == map_d(m@),
            fits_m::<K, &'a L, TagValue, &'a Child>(m.vx_items(), d) <==> map_fits(m@, d),
            cnt_m::<K, &'a L, TagValue, &'a Child>(m.vx_items()) <==> map_cnt(m@),
    {
        map_items(m);
        let s = m.vx_items(); let n = s.len() as int;
        all_m_part::<K, L>(m, n);
        assert(s.take(n) =~= s);
        let a = all_m::<K, &'a L, TagValue, &'a Child>(s);
        assert forall|k: Key| a.dom().contains(k) <==> m@.dom().contains(k) by {
            if m@.dom().contains(k) { let i = choose|i: int| 0 <= i < m.items().len() && (#[trigger] m.items()[i]).0.vx_k() == k; assert(a.dom().contains(m.items()[i].0.vx_k())); }
            if a.dom().contains(k) { assert(a[k] == m@[k].den()); }
        }
        assert forall|k: Key| a.dom().contains(k) implies a[k] == map_d(m@)[k] by { assert(a[k] == m@[k].den()); }
        assert(a =~= map_d(m@));
        assert forall|i: int| 0 <= i < n implies key_ok::<K, &'a L>((#[trigger] s[i]).0) == fits_key(m.items()[i].0.vx_k()) && s[i].1 == &m@[m.items()[i].0.vx_k()] by { assert(s[i].0.vx_skey() == Some(m.items()[i].0.vx_k())); }
        if fits_m::<K, &'a L, TagValue, &'a Child>(s, d) { assert forall|k: Key| #[trigger] m@.dom().contains(k) implies fits_key(k) && d < 32 && m@[k].fits(d + 1) by { let i = choose|i: int| 0 <= i < m.items().len() && (#[trigger] m.items()[i]).0.vx_k() == k; assert(s[i].1.vx_fits(d + 1)); } }
        if cnt_m::<K, &'a L, TagValue, &'a Child>(s) { assert forall|k: Key| #[trigger] m@.dom().contains(k) implies fits_key(k) && m@[k].cnt() by { let i = choose|i: int| 0 <= i < m.items().len() && (#[trigger] m.items()[i]).0.vx_k() == k; assert(s[i].1.vx_cnt()); } }
        if map_fits(m@, d) { assert forall|i: int| 0 <= i < n implies key_ok::<K, &'a L>((#[trigger] s[i]).0) && d < 32 && s[i].1.vx_fits(d + 1) by { assert(m@.dom().contains(m.items()[i].0.vx_k())); } }
        if map_cnt(m@) { assert forall|i: int| 0 <= i < n implies key_ok::<K, &'a L>((#[trigger] s[i]).0) && s[i].1.vx_cnt() by { assert(m@.dom().contains(m.items()[i].0.vx_k())); } }
    }
    pub proof fn all_k_part<'a, K: KeyTag, L: VxKey + SerializeKey<K>>(m: &'a HashSet<L>, n: int)
        requires 0 <= n <= m.items().len(), self_key::<K, L>(),
        ensures
            forall|i: int| 0 <= i < n ==> all_k::<K, &'a L>(m.vx_items().take(n)).contains((#[trigger] m.items()[i]).vx_k()),
            forall|k: Key| #[trigger] all_k::<K, &'a L>(m.vx_items().take(n)).contains(k) ==> m@.contains(k),
        decreases n,
    {
        set_items(m);
        if n > 0 {
            all_k_part::<K, L>(m, n - 1);
            let s = m.vx_items().take(n);
            assert(s.take(n - 1) =~= m.vx_items().take(n - 1));
            assert(s[n - 1] == &m.items()[n - 1]);
            assert(s[n - 1].vx_skey() == Some(m.items()[n - 1].vx_k()));
            assert(all_k::<K, &'a L>(s) == all_k::<K, &'a L>(s.take(n - 1)).insert(m.items()[n - 1].vx_k()));
            assert forall|k: Key| #[trigger] all_k::<K, &'a L>(s).contains(k) implies m@.contains(k) by { if k != m.items()[n - 1].vx_k() { assert(all_k::<K, &'a L>(m.vx_items().take(n - 1)).contains(k)); } else { assert(m@.contains(m.items()[n - 1].vx_k())); } }
        }
    }
    pub proof fn set_all<'a, K: KeyTag, L: VxKey + SerializeKey<K>>(m: &'a HashSet<L>, d: int)
        requires self_key::<K, L>(),
        ensures
            all_k::<K, &'a L>(m.vx_items()) == m@,
            fits_k::<K, &'a L>(m.vx_items(), d) <==> set_fits(m@),
    {
        set_items(m);
        let s = m.vx_items(); let n = s.len() as int;
        all_k_part::<K, L>(m, n);
        assert(s.take(n) =~= s);
        assert(all_k::<K, &'a L>(s) =~= m@);
        assert forall|i: int| 0 <= i < n implies key_ok::<K, &'a L>(#[trigger] s[i]) == fits_key(m.items()[i].vx_k()) by { assert(s[i].vx_skey() == Some(m.items()[i].vx_k())); }
        if fits_k::<K, &'a L>(s, d) { assert forall|k: Key| #[trigger] m@.contains(k) implies fits_key(k) by { let i = choose|i: int| 0 <= i < m.items().len() && (#[trigger] m.items()[i]).vx_k() == k; assert(key_ok::<K, &'a L>(s[i])); } }
        if set_fits(m@) { assert forall|i: int| 0 <= i < n implies key_ok::<K, &'a L>(#[trigger] s[i]) by { assert(m@.contains(m.items()[i].vx_k())); } }
    }
    pub proof fn vec_all(l: &Vec<Child>, d: int)
        ensures
            fits_s::<TagValue, &Child>(l.vx_items(), d) ==> vec_fits(l@, d),
            vec_fits(l@, d) ==> fits_s::<TagValue, &Child>(l.vx_items(), d),
            cnt_s::<TagValue, &Child>(l.vx_items()) <==> vec_cnt(l@),
    {
        let s = l.vx_items();
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).vx_fits(d + 1) == l@[i].fits(d + 1) && s[i].vx_cnt() == l@[i].cnt() by { }
        if vec_fits(l@, d) { assert forall|i: int| 0 <= i < s.len() implies d < 32 && (#[trigger] s[i]).vx_fits(d + 1) by { assert(l@[i].fits(d + 1)); } assert(fits_s::<TagValue, &Child>(s, d)); }
        if vec_cnt(l@) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).vx_cnt() by { assert(l@[i].cnt()); } }
        if fits_s::<TagValue, &Child>(s, d) { let w = l@; let m = d + 1; assert forall|i: int| 0 <= i < w.len() implies d < 32 && (#[trigger] w[i]).fits(d + 1) by { let x = s[i]; assert(x.vx_fits(m)); assert(x == &w[i]); assert(w[i].fits(m)); } assert(forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).fits(d + 1)); assert(w.len() > 0 ==> d < 32) by { if w.len() > 0 { assert(s[0].vx_fits(d + 1)); } } assert(vec_fits(w, d)); }
        if cnt_s::<TagValue, &Child>(s) { assert forall|i: int| 0 <= i < l@.len() implies (#[trigger] l@[i]).cnt() by { assert(s[i].vx_cnt()); } }
    }
    pub open spec fn vec_fits(s: Seq<Child>, d: int) -> bool { forall|i: int| 0 <= i < s.len() ==> d < 32 && (#[trigger] s[i]).fits(d + 1) }
    pub open spec fn vec_cnt(s: Seq<Child>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).cnt() }
