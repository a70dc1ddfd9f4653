// Lexical ids, layouts and the computation of a type id (C20)
subst impl AsRef<str> => &VxStr
subst format!("{}::{}", schema.as_ref(), name.as_ref()) => vx_path(schema, name)
subst types.iter().enumerate() => vx_enumerate(types)
subst ty.to_string() => vx_uuid_text(ty.0)
subst name[..16].copy_from_slice(a.as_bytes()); => vx_fill_to(&mut name, 16, a.as_bytes());
subst name[16..].copy_from_slice(b.as_bytes()); => vx_fill_from(&mut name, 16, b.as_bytes());
subst name[..16].copy_from_slice(ty.0.as_bytes()); => vx_fill_to(&mut name, 16, ty.0.as_bytes());
subst name[16..].copy_from_slice(&len.vx_le()); => vx_fill_from(&mut name, 16, &len.vx_le());
subst name[16..].copy_from_slice(&len.to_le_bytes()); => vx_fill_from(&mut name, 16, &len.vx_le());
source core/src/introspection/lexical_id.rs
only =LexicalId LexicalId
derive LexicalId Clone, Copy
skip LexicalId::resolve LexicalId::is_nil LexicalId::NIL
keep impl Tag for LexicalId
keep impl Serialize<Self> for LexicalId
keep impl Serialize<LexicalId> for &LexicalId
implspec impl Serialize<Self> for LexicalId
    open spec fn vx_v(self) -> V { V::Uuid(self.0) }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
implspec impl Serialize<LexicalId> for &LexicalId
    open spec fn vx_v(self) -> V { V::Uuid(self.0) }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
text
    // ---- what a lexical id is
    pub open spec fn lex1(ns: Uuid, a: LexicalId) -> LexicalId { LexicalId(v5(ns, a.0@)) }
    pub open spec fn lex2(ns: Uuid, a: LexicalId, b: LexicalId) -> LexicalId { LexicalId(v5(ns, a.0@ + b.0@)) }
    pub open spec fn lex_args(l: Seq<LexicalId>) -> Seq<u8> decreases l.len()
    { if l.len() == 0 { Seq::empty() } else if l.len() == 1 { uuid_text(l[0].0) } else { lex_args(l.drop_last()).push(0x2c) + uuid_text(l.last().0) } }
    pub open spec fn lex_name(schema: Seq<u8>, name: Seq<u8>, l: Seq<LexicalId>) -> Seq<u8> { path_text(schema, name) + if l.len() > 0 { seq![0x3cu8] + lex_args(l) + seq![0x3eu8] } else { Seq::empty() } }
    pub open spec fn lex_custom(schema: Seq<u8>, name: Seq<u8>) -> LexicalId { LexicalId(v5(LexicalId::NAMESPACE_CUSTOM, path_text(schema, name))) }
    pub open spec fn lex_service(schema: Seq<u8>, name: Seq<u8>) -> LexicalId { LexicalId(v5(LexicalId::NAMESPACE_SERVICE, path_text(schema, name))) }
fn LexicalId::option
    ensures r == lex1(LexicalId::NAMESPACE_OPTION, ty), //@C20
fn LexicalId::box_ty
    ensures r == lex1(LexicalId::NAMESPACE_BOX, ty), //@C20
fn LexicalId::vec
    ensures r == lex1(LexicalId::NAMESPACE_VEC, ty), //@C20
fn LexicalId::set
    ensures r == lex1(LexicalId::NAMESPACE_SET, ty), //@C20
fn LexicalId::sender
    ensures r == lex1(LexicalId::NAMESPACE_SENDER, ty), //@C20
fn LexicalId::receiver
    ensures r == lex1(LexicalId::NAMESPACE_RECEIVER, ty), //@C20
fn LexicalId::map
    ensures r == lex2(LexicalId::NAMESPACE_MAP, key, ty), //@C20
fn LexicalId::result
    ensures r == lex2(LexicalId::NAMESPACE_RESULT, ok, err), //@C20
fn LexicalId::array
    ensures r == LexicalId(v5(LexicalId::NAMESPACE_ARRAY, ty.0@ + le4(len))), //@C20
fn LexicalId::custom
    ensures r == lex_custom(schema@, name@), //@C20
fn LexicalId::custom_generic
    ensures r == LexicalId(v5(LexicalId::NAMESPACE_CUSTOM, lex_name(schema@, name@, types@))), //@C20
fn LexicalId::service
    ensures r == lex_service(schema@, name@), //@C20
fn LexicalId::new_v5
    ensures r == LexicalId(v5(ns, ty@)), //@C20
fn LexicalId::new_v5_2
    ensures r == LexicalId(v5(ns, a@ + b@)), //@C20
fn LexicalId::fully_qualified verifier::loop_isolation(false)
    ensures r == LexicalId(v5(ns, lex_name(schema@, name@, types@))), //@C20
loop LexicalId::fully_qualified 0
    invariant
        vx_it0.wf(), vx_it0.all().len() == N, forall|i: int| 0 <= i < N ==> (#[trigger] vx_it0.all()[i]).0 == i && *vx_it0.all()[i].1 == types@[i],
        fully_qualified@ == path_text(schema@, name@) + (if N > 0 { seq![0x3cu8] } else { Seq::empty() }) + lex_args(types@.take(vx_it0.pos())),
    decreases vx_it0.left(),
hint LexicalId::fully_qualified loop0.before
    proof { assert(types@.take(0) =~= Seq::empty()); assert(lex_args(types@.take(0)) =~= Seq::empty()); }
hint LexicalId::fully_qualified loop0.bind
    proof {
        let j = vx_it0.pos();
        assert(types@.take(j).drop_last() =~= types@.take(j - 1));
        assert(types@.take(j).last() == *ty);
        if j == 1 { assert(types@.take(1).len() == 1); assert(types@.take(0) =~= Seq::empty()); assert(lex_args(types@.take(0)) =~= Seq::empty()); }
    }
hint LexicalId::fully_qualified loop0.after
    proof { assert(types@.take(N as int) =~= types@); if N == 0 { assert(lex_args(types@) =~= Seq::empty()); } }
hint LexicalId::fully_qualified end
    proof { assert(fully_qualified@ =~= lex_name(schema@, name@, types@)); }
source core/src/introspection/ir/built_in_type.rs
only =BuiltInTypeIr =BuiltInTypeVariant BuiltInTypeIr::NAMESPACE BuiltInTypeIr::lexical_id
derive BuiltInTypeIr Clone, Copy
keep impl Tag for BuiltInTypeIr
keep impl Serialize<BuiltInTypeIr> for &BuiltInTypeIr
implspec impl Serialize<BuiltInTypeIr> for &BuiltInTypeIr
    open spec fn vx_v(self) -> V { self.v() }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
fn BuiltInTypeIr::lexical_id
    ensures r == self.lex(), //@C20
source core/src/introspection/ir/layout.rs
only =LayoutIr =LayoutVariant LayoutIr::namespace LayoutIr::lexical_id
keep impl Tag for LayoutIr
keep impl Serialize<LayoutIr> for &LayoutIr
implspec impl Serialize<LayoutIr> for &LayoutIr
    open spec fn vx_v(self) -> V { self.v() }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
fn LayoutIr::namespace
    ensures r == self.ns(), //@C20
fn LayoutIr::lexical_id
    ensures r == self.lex(), //@C20
text
    pub open spec fn ev(n: u32, v: V) -> V { V::Enum(n, Box::new(v)) }
    impl BuiltInTypeIr {
        /// a built-in type is its number and what it is applied to
        pub open spec fn v(&self) -> V { match *self {
            BuiltInTypeIr::Bool => ev(0, V::None), BuiltInTypeIr::U8 => ev(1, V::None), BuiltInTypeIr::I8 => ev(2, V::None), BuiltInTypeIr::U16 => ev(3, V::None), BuiltInTypeIr::I16 => ev(4, V::None),
            BuiltInTypeIr::U32 => ev(5, V::None), BuiltInTypeIr::I32 => ev(6, V::None), BuiltInTypeIr::U64 => ev(7, V::None), BuiltInTypeIr::I64 => ev(8, V::None), BuiltInTypeIr::F32 => ev(9, V::None),
            BuiltInTypeIr::F64 => ev(10, V::None), BuiltInTypeIr::String => ev(11, V::None), BuiltInTypeIr::Uuid => ev(12, V::None), BuiltInTypeIr::ObjectId => ev(13, V::None), BuiltInTypeIr::ServiceId => ev(14, V::None),
            BuiltInTypeIr::Value => ev(15, V::None), BuiltInTypeIr::Option(t) => ev(16, V::Uuid(t.0)), BuiltInTypeIr::Box(t) => ev(17, V::Uuid(t.0)), BuiltInTypeIr::Vec(t) => ev(18, V::Uuid(t.0)), BuiltInTypeIr::Bytes => ev(19, V::None),
            BuiltInTypeIr::Map(t) => ev(20, t.v()), BuiltInTypeIr::Set(t) => ev(21, V::Uuid(t.0)), BuiltInTypeIr::Sender(t) => ev(22, V::Uuid(t.0)), BuiltInTypeIr::Receiver(t) => ev(23, V::Uuid(t.0)), BuiltInTypeIr::Lifetime => ev(24, V::None),
            BuiltInTypeIr::Unit => ev(25, V::None), BuiltInTypeIr::Result(t) => ev(26, t.v()), BuiltInTypeIr::Array(t) => ev(27, t.v()),
        } }
        pub open spec fn lex(&self) -> LexicalId { match *self {
            BuiltInTypeIr::Bool => LexicalId::BOOL, BuiltInTypeIr::U8 => LexicalId::U8, BuiltInTypeIr::I8 => LexicalId::I8, BuiltInTypeIr::U16 => LexicalId::U16, BuiltInTypeIr::I16 => LexicalId::I16,
            BuiltInTypeIr::U32 => LexicalId::U32, BuiltInTypeIr::I32 => LexicalId::I32, BuiltInTypeIr::U64 => LexicalId::U64, BuiltInTypeIr::I64 => LexicalId::I64, BuiltInTypeIr::F32 => LexicalId::F32,
            BuiltInTypeIr::F64 => LexicalId::F64, BuiltInTypeIr::String => LexicalId::STRING, BuiltInTypeIr::Uuid => LexicalId::UUID, BuiltInTypeIr::ObjectId => LexicalId::OBJECT_ID, BuiltInTypeIr::ServiceId => LexicalId::SERVICE_ID,
            BuiltInTypeIr::Value => LexicalId::VALUE, BuiltInTypeIr::Option(t) => lex1(LexicalId::NAMESPACE_OPTION, t), BuiltInTypeIr::Box(t) => lex1(LexicalId::NAMESPACE_BOX, t), BuiltInTypeIr::Vec(t) => lex1(LexicalId::NAMESPACE_VEC, t), BuiltInTypeIr::Bytes => LexicalId::BYTES,
            BuiltInTypeIr::Map(t) => lex2(LexicalId::NAMESPACE_MAP, t.key, t.value), BuiltInTypeIr::Set(t) => lex1(LexicalId::NAMESPACE_SET, t), BuiltInTypeIr::Sender(t) => lex1(LexicalId::NAMESPACE_SENDER, t), BuiltInTypeIr::Receiver(t) => lex1(LexicalId::NAMESPACE_RECEIVER, t), BuiltInTypeIr::Lifetime => LexicalId::LIFETIME,
            BuiltInTypeIr::Unit => LexicalId::UNIT, BuiltInTypeIr::Result(t) => lex2(LexicalId::NAMESPACE_RESULT, t.ok, t.err), BuiltInTypeIr::Array(t) => LexicalId(v5(LexicalId::NAMESPACE_ARRAY, t.elem_type.0@ + le4(t.len))),
        } }
        pub open spec fn same(&self, o: &Self) -> bool { match (*self, *o) {
            (BuiltInTypeIr::Map(a), BuiltInTypeIr::Map(b)) => a.same(&b),
            (BuiltInTypeIr::Result(a), BuiltInTypeIr::Result(b)) => a.same(&b),
            (BuiltInTypeIr::Array(a), BuiltInTypeIr::Array(b)) => a.same(&b),
            (a, b) => a == b,
        } }
        pub proof fn said(&self, o: &Self)
            ensures (self.v() == o.v()) == self.same(o) //@C20
        {
            match (*self, *o) {
                (BuiltInTypeIr::Map(a), BuiltInTypeIr::Map(b)) => a.said(&b),
                (BuiltInTypeIr::Result(a), BuiltInTypeIr::Result(b)) => a.said(&b),
                (BuiltInTypeIr::Array(a), BuiltInTypeIr::Array(b)) => a.said(&b),
                _ => {},
            }
        }
    }
    impl LayoutIr {
        pub open spec fn v(&self) -> V { match *self { LayoutIr::BuiltIn(x) => ev(0, x.v()), LayoutIr::Struct(x) => ev(1, x.v()), LayoutIr::Enum(x) => ev(2, x.v()), LayoutIr::Service(x) => ev(3, x.v()), LayoutIr::Newtype(x) => ev(4, x.v()) } }
        pub open spec fn ns(&self) -> Uuid { match *self { LayoutIr::BuiltIn(x) => BuiltInTypeIr::NAMESPACE, LayoutIr::Struct(x) => StructIr::NAMESPACE, LayoutIr::Enum(x) => EnumIr::NAMESPACE, LayoutIr::Service(x) => ServiceIr::NAMESPACE, LayoutIr::Newtype(x) => NewtypeIr::NAMESPACE } }
        pub open spec fn lex(&self) -> LexicalId { match *self { LayoutIr::BuiltIn(x) => x.lex(), LayoutIr::Struct(x) => lex_custom(x.schema@, x.name@), LayoutIr::Enum(x) => lex_custom(x.schema@, x.name@), LayoutIr::Service(x) => lex_service(x.schema@, x.name@), LayoutIr::Newtype(x) => lex_custom(x.schema@, x.name@) } }
        /// every aspect but the documentation
        pub open spec fn same(&self, o: &Self) -> bool { match (*self, *o) {
            (LayoutIr::BuiltIn(a), LayoutIr::BuiltIn(b)) => a.same(&b),
            (LayoutIr::Struct(a), LayoutIr::Struct(b)) => a.same(&b),
            (LayoutIr::Enum(a), LayoutIr::Enum(b)) => a.same(&b),
            (LayoutIr::Service(a), LayoutIr::Service(b)) => a.same(&b),
            (LayoutIr::Newtype(a), LayoutIr::Newtype(b)) => a.same(&b),
            _ => false,
        } }
        pub proof fn said(&self, o: &Self)
            ensures (self.v() == o.v()) == self.same(o) //@C20
        {
            match (*self, *o) {
                (LayoutIr::BuiltIn(a), LayoutIr::BuiltIn(b)) => a.said(&b),
                (LayoutIr::Struct(a), LayoutIr::Struct(b)) => a.said(&b),
                (LayoutIr::Enum(a), LayoutIr::Enum(b)) => a.said(&b),
                (LayoutIr::Service(a), LayoutIr::Service(b)) => a.said(&b),
                (LayoutIr::Newtype(a), LayoutIr::Newtype(b)) => a.said(&b),
                _ => {},
            }
        }
    }
source core/src/ids/service_uuid.rs
only =None_
keep impl Tag for ServiceUuid
keep impl Serialize<Self> for ServiceUuid
keep impl Serialize<ServiceUuid> for &ServiceUuid
implspec impl Serialize<Self> for ServiceUuid
    open spec fn vx_v(self) -> V { V::Uuid(self.0) }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
implspec impl Serialize<ServiceUuid> for &ServiceUuid
    open spec fn vx_v(self) -> V { V::Uuid(self.0) }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
source core/src/impls/option.rs
keep impl Serialize<tags::Option<T>> for &'a Option<U>
only =None_
implspec impl Serialize<TagOption<T>> for &'a Option<U>
    open spec fn vx_v(self) -> V { match *self { Some(x) => V::Some(Box::new((&x).vx_v())), None => V::None } }
    open spec fn vx_some(&self) -> bool { **self is Some }
source core/src/impls/map.rs
keep impl Serialize<Map<K, T>> for &'a BTreeMap<L, U>
only =None_
implspec impl Serialize<TagMap<K, T>> for &'a BTreeMap<L, U>
    open spec fn vx_v(self) -> V { V::List(Shape::Map(<K::Impl as KeyTagImpl>::kt()), all_m::<K, &'a L, T, &'a U>(vx_entries(self@))) }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
source core/src/impls/string.rs
keep impl Serialize<tags::String> for &String
only =None_
implspec impl Serialize<TagString> for &String
    open spec fn vx_v(self) -> V { V::Str(self@) }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
source core/src/key_impls.rs
keep impl SerializeKey<T> for &U
only =None_
implspec impl SerializeKey<T> for &U
    open spec fn vx_skey(&self) -> Option<Key> { (**self).vx_skey() }
    proof fn vx_skey_ok(&self) { (**self).vx_skey_ok(); }
