// The description of a type and how it is written (C20): the documentation is not part of it
text
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(T)]
    pub struct BTreeMap<K, T> { x: Option<(K, T)> }
    // ---- assumed: ordered maps and sets
    impl<K, T> View for BTreeMap<K, T> { type V = Map<K, T>; uninterp spec fn view(&self) -> Map<K, T>; }
    impl<K, T> BTreeMap<K, T> {
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Map::<K, T>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: K, v: T) -> (r: Option<T>)
            ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None::<T> }) { unimplemented!() }
    }
    /// the elements in their order
    pub uninterp spec fn vx_sorted<K>(s: Set<K>) -> Seq<K>;
    #[verifier::external_body]
    pub broadcast proof fn vx_sorted_all<K>(s: Set<K>) ensures (#[trigger] vx_sorted(s)).no_duplicates(), vx_sorted(s).to_set() == s { }
    pub open spec fn vx_entries<'a, K, T>(m: Map<K, T>) -> Seq<(&'a K, &'a T)> { Seq::new(vx_sorted(m.dom()).len(), |i: int| (&vx_sorted(m.dom())[i], &m[vx_sorted(m.dom())[i]])) }
    impl<'a, K, T> IntoIterator for &'a BTreeMap<K, T> {
        type Item = (&'a K, &'a T);
        open spec fn vx_items(self) -> Seq<(&'a K, &'a T)> { vx_entries(self@) }
        #[verifier::external_body]
        fn vx_into_iter(self) -> (r: VxIter<(&'a K, &'a T)>) { unimplemented!() }
    }
    // ---- what a description says, as a value
    pub open spec fn st(l: Seq<Ent>) -> V { V::List(Shape::Struct, l) }
    pub open spec fn fldo(l: Seq<Ent>, id: u32, o: Option<V>) -> Seq<Ent> { match o { Some(v) => fld(l, id, V::Some(Box::new(v))), None => l } }
    pub open spec fn lexo(o: Option<LexicalId>) -> Option<V> { match o { Some(x) => Some(V::Uuid(x.0)), None => None } }
    pub open spec fn mapv<X>(m: Map<u32, X>, f: spec_fn(X) -> V) -> V { V::List(Shape::Map(KT::U32), Seq::new(vx_sorted(m.dom()).len(), |i: int| Ent { h: Head::Key(Key::U32(vx_sorted(m.dom())[i])), v: f(m[vx_sorted(m.dom())[i]]) })) }
    pub proof fn fld_inj(l: Seq<Ent>, i: u32, v: V, m: Seq<Ent>, j: u32, w: V)
        ensures (fld(l, i, v) == fld(m, j, w)) == (l == m && i == j && v == w)
    {
        if fld(l, i, v) == fld(m, j, w) {
            assert(fld(l, i, v).last() == fld(m, j, w).last());
            assert(fld(l, i, v).drop_last() =~= l); assert(fld(m, j, w).drop_last() =~= m);
        }
    }
    pub broadcast proof fn fld_inj_b(l: Seq<Ent>, i: u32, v: V, m: Seq<Ent>, j: u32, w: V)
        ensures (#[trigger] fld(l, i, v) == #[trigger] fld(m, j, w)) == (l == m && i == j && v == w)
    { fld_inj(l, i, v, m, j, w); }
    pub broadcast proof fn fld_len(l: Seq<Ent>, i: u32, v: V) ensures #[trigger] fld(l, i, v).len() == l.len() + 1 { }
    pub proof fn mapv_inj<X>(a: Map<u32, X>, b: Map<u32, X>, f: spec_fn(X) -> V)
        ensures (mapv(a, f) == mapv(b, f)) == (a.dom() =~= b.dom() && forall|k: u32| #[trigger] a.dom().contains(k) ==> f(a[k]) == f(b[k]))
    {
        broadcast use vx_sorted_all;
        let s = vx_sorted(a.dom()); let t = vx_sorted(b.dom());
        if mapv(a, f) == mapv(b, f) {
            let p = mapv(a, f)->List_1; let q = mapv(b, f)->List_1;
            assert(mapv(a, f) == V::List(Shape::Map(KT::U32), p)); assert(mapv(b, f) == V::List(Shape::Map(KT::U32), q));
            assert(p == q); assert(p.len() == s.len() && q.len() == t.len());
            assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] && f(a[s[i]]) == f(b[s[i]]) by { assert(p[i] == Ent { h: Head::Key(Key::U32(s[i])), v: f(a[s[i]]) }); assert(q[i] == Ent { h: Head::Key(Key::U32(t[i])), v: f(b[t[i]]) }); }
            assert(s =~= t);
            assert(s.to_set() == a.dom() && t.to_set() == b.dom());
            assert forall|k: u32| #[trigger] a.dom().contains(k) implies f(a[k]) == f(b[k]) by { assert(s.to_set().contains(k)); let i = choose|i: int| 0 <= i < s.len() && s[i] == k; assert(f(a[s[i]]) == f(b[s[i]])); }
        }
        if a.dom() =~= b.dom() && forall|k: u32| #[trigger] a.dom().contains(k) ==> f(a[k]) == f(b[k]) {
            assert forall|i: int| 0 <= i < s.len() implies f(#[trigger] a[s[i]]) == f(b[s[i]]) by { assert(s.to_set().contains(s[i])); }
            assert(mapv(a, f)->List_1 =~= mapv(b, f)->List_1);
        }
    }
    impl FieldIr {
        pub open spec fn v(&self) -> V { st(fld(fld(fld(fld(Seq::<Ent>::empty(), 0, V::U32(self.id)), 1, V::Str(self.name@)), 2, V::Bool(self.is_required)), 3, V::Uuid(self.field_type.0))) }
        pub open spec fn same(&self, o: &Self) -> bool { self.id == o.id && self.name@ == o.name@ && self.is_required == o.is_required && self.field_type == o.field_type }
        /// the same description is the same value, and only then
        pub proof fn said(&self, o: &Self)
            ensures (self.v() == o.v()) == self.same(o) //@C20
        {
            broadcast use {fld_inj_b, fld_len};
        }
    }
    impl VariantIr {
        pub open spec fn v(&self) -> V { st(fldo(fld(fld(Seq::<Ent>::empty(), 0, V::U32(self.id)), 1, V::Str(self.name@)), 2, lexo(self.variant_type))) }
        pub open spec fn same(&self, o: &Self) -> bool { self.id == o.id && self.name@ == o.name@ && self.variant_type == o.variant_type }
        /// the same description is the same value, and only then
        pub proof fn said(&self, o: &Self)
            ensures (self.v() == o.v()) == self.same(o) //@C20
        {
            broadcast use {fld_inj_b, fld_len};
        }
    }
    impl FunctionIr {
        pub open spec fn v(&self) -> V { st(fldo(fldo(fldo(fld(fld(Seq::<Ent>::empty(), 0, V::U32(self.id)), 1, V::Str(self.name@)), 2, lexo(self.args)), 3, lexo(self.ok)), 4, lexo(self.err))) }
        pub open spec fn same(&self, o: &Self) -> bool { self.id == o.id && self.name@ == o.name@ && self.args == o.args && self.ok == o.ok && self.err == o.err }
        /// the same description is the same value, and only then
        pub proof fn said(&self, o: &Self)
            ensures (self.v() == o.v()) == self.same(o) //@C20
        {
            broadcast use {fld_inj_b, fld_len};
        }
    }
    impl EventIr {
        pub open spec fn v(&self) -> V { st(fldo(fld(fld(Seq::<Ent>::empty(), 0, V::U32(self.id)), 1, V::Str(self.name@)), 2, lexo(self.event_type))) }
        pub open spec fn same(&self, o: &Self) -> bool { self.id == o.id && self.name@ == o.name@ && self.event_type == o.event_type }
        /// the same description is the same value, and only then
        pub proof fn said(&self, o: &Self)
            ensures (self.v() == o.v()) == self.same(o) //@C20
        {
            broadcast use {fld_inj_b, fld_len};
        }
    }
    impl StructFallbackIr {
        pub open spec fn v(&self) -> V { st(fld(Seq::<Ent>::empty(), 0, V::Str(self.name@))) }
        pub open spec fn same(&self, o: &Self) -> bool { self.name@ == o.name@ }
        /// the same description is the same value, and only then
        pub proof fn said(&self, o: &Self)
            ensures (self.v() == o.v()) == self.same(o) //@C20
        {
            broadcast use {fld_inj_b, fld_len};
        }
    }
    impl EnumFallbackIr {
        pub open spec fn v(&self) -> V { st(fld(Seq::<Ent>::empty(), 0, V::Str(self.name@))) }
        pub open spec fn same(&self, o: &Self) -> bool { self.name@ == o.name@ }
        /// the same description is the same value, and only then
        pub proof fn said(&self, o: &Self)
            ensures (self.v() == o.v()) == self.same(o) //@C20
        {
            broadcast use {fld_inj_b, fld_len};
        }
    }
    impl FunctionFallbackIr {
        pub open spec fn v(&self) -> V { st(fld(Seq::<Ent>::empty(), 0, V::Str(self.name@))) }
        pub open spec fn same(&self, o: &Self) -> bool { self.name@ == o.name@ }
        /// the same description is the same value, and only then
        pub proof fn said(&self, o: &Self)
            ensures (self.v() == o.v()) == self.same(o) //@C20
        {
            broadcast use {fld_inj_b, fld_len};
        }
    }
    impl EventFallbackIr {
        pub open spec fn v(&self) -> V { st(fld(Seq::<Ent>::empty(), 0, V::Str(self.name@))) }
        pub open spec fn same(&self, o: &Self) -> bool { self.name@ == o.name@ }
        /// the same description is the same value, and only then
        pub proof fn said(&self, o: &Self)
            ensures (self.v() == o.v()) == self.same(o) //@C20
        {
            broadcast use {fld_inj_b, fld_len};
        }
    }
    impl StructIr {
        pub open spec fn v(&self) -> V { st(fldo(fld(fld(fld(Seq::<Ent>::empty(), 0, V::Str(self.schema@)), 1, V::Str(self.name@)), 2, mapv(self.fields@, |x: FieldIr| x.v())), 3, match self.fallback { Some(x) => Some(x.v()), None => None })) }
        pub open spec fn same(&self, o: &Self) -> bool { self.schema@ == o.schema@ && self.name@ == o.name@ && (self.fields@.dom() =~= o.fields@.dom() && (forall|k: u32| #[trigger] self.fields@.dom().contains(k) ==> self.fields@[k].same(&o.fields@[k]))) && ((self.fallback is Some) == (o.fallback is Some) && (self.fallback is Some ==> self.fallback->0.same(&o.fallback->0))) }
        /// the same description is the same value, and only then
        pub proof fn said(&self, o: &Self)
            ensures (self.v() == o.v()) == self.same(o) //@C20
        {
            broadcast use {fld_inj_b, fld_len};
            let f = |x: FieldIr| x.v(); mapv_inj(self.fields@, o.fields@, f);
            assert forall|k: u32| #[trigger] self.fields@.dom().contains(k) implies (self.fields@[k].v() == o.fields@[k].v()) == self.fields@[k].same(&o.fields@[k]) by { self.fields@[k].said(&o.fields@[k]); }
            if self.fallback is Some && o.fallback is Some { self.fallback->0.said(&o.fallback->0); }
        }
    }
    impl EnumIr {
        pub open spec fn v(&self) -> V { st(fldo(fld(fld(fld(Seq::<Ent>::empty(), 0, V::Str(self.schema@)), 1, V::Str(self.name@)), 2, mapv(self.variants@, |x: VariantIr| x.v())), 3, match self.fallback { Some(x) => Some(x.v()), None => None })) }
        pub open spec fn same(&self, o: &Self) -> bool { self.schema@ == o.schema@ && self.name@ == o.name@ && (self.variants@.dom() =~= o.variants@.dom() && (forall|k: u32| #[trigger] self.variants@.dom().contains(k) ==> self.variants@[k].same(&o.variants@[k]))) && ((self.fallback is Some) == (o.fallback is Some) && (self.fallback is Some ==> self.fallback->0.same(&o.fallback->0))) }
        /// the same description is the same value, and only then
        pub proof fn said(&self, o: &Self)
            ensures (self.v() == o.v()) == self.same(o) //@C20
        {
            broadcast use {fld_inj_b, fld_len};
            let f = |x: VariantIr| x.v(); mapv_inj(self.variants@, o.variants@, f);
            assert forall|k: u32| #[trigger] self.variants@.dom().contains(k) implies (self.variants@[k].v() == o.variants@[k].v()) == self.variants@[k].same(&o.variants@[k]) by { self.variants@[k].said(&o.variants@[k]); }
            if self.fallback is Some && o.fallback is Some { self.fallback->0.said(&o.fallback->0); }
        }
    }
    impl ServiceIr {
        pub open spec fn v(&self) -> V { st(fldo(fldo(fld(fld(fld(fld(fld(fld(Seq::<Ent>::empty(), 0, V::Str(self.schema@)), 1, V::Str(self.name@)), 2, V::Uuid(self.uuid.0)), 3, V::U32(self.version)), 4, mapv(self.functions@, |x: FunctionIr| x.v())), 5, mapv(self.events@, |x: EventIr| x.v())), 6, match self.function_fallback { Some(x) => Some(x.v()), None => None }), 7, match self.event_fallback { Some(x) => Some(x.v()), None => None })) }
        pub open spec fn same(&self, o: &Self) -> bool { self.schema@ == o.schema@ && self.name@ == o.name@ && self.uuid == o.uuid && self.version == o.version && (self.functions@.dom() =~= o.functions@.dom() && (forall|k: u32| #[trigger] self.functions@.dom().contains(k) ==> self.functions@[k].same(&o.functions@[k]))) && (self.events@.dom() =~= o.events@.dom() && (forall|k: u32| #[trigger] self.events@.dom().contains(k) ==> self.events@[k].same(&o.events@[k]))) && ((self.function_fallback is Some) == (o.function_fallback is Some) && (self.function_fallback is Some ==> self.function_fallback->0.same(&o.function_fallback->0))) && ((self.event_fallback is Some) == (o.event_fallback is Some) && (self.event_fallback is Some ==> self.event_fallback->0.same(&o.event_fallback->0))) }
        /// the same description is the same value, and only then
        pub proof fn said(&self, o: &Self)
            ensures (self.v() == o.v()) == self.same(o) //@C20
        {
            broadcast use {fld_inj_b, fld_len};
            let f = |x: FunctionIr| x.v(); mapv_inj(self.functions@, o.functions@, f);
            assert forall|k: u32| #[trigger] self.functions@.dom().contains(k) implies (self.functions@[k].v() == o.functions@[k].v()) == self.functions@[k].same(&o.functions@[k]) by { self.functions@[k].said(&o.functions@[k]); }
            let f = |x: EventIr| x.v(); mapv_inj(self.events@, o.events@, f);
            assert forall|k: u32| #[trigger] self.events@.dom().contains(k) implies (self.events@[k].v() == o.events@[k].v()) == self.events@[k].same(&o.events@[k]) by { self.events@[k].said(&o.events@[k]); }
            if self.function_fallback is Some && o.function_fallback is Some { self.function_fallback->0.said(&o.function_fallback->0); }
            if self.event_fallback is Some && o.event_fallback is Some { self.event_fallback->0.said(&o.event_fallback->0); }
        }
    }
    impl NewtypeIr {
        pub open spec fn v(&self) -> V { st(fld(fld(fld(Seq::<Ent>::empty(), 0, V::Str(self.schema@)), 1, V::Str(self.name@)), 2, V::Uuid(self.target_type.0))) }
        pub open spec fn same(&self, o: &Self) -> bool { self.schema@ == o.schema@ && self.name@ == o.name@ && self.target_type == o.target_type }
        /// the same description is the same value, and only then
        pub proof fn said(&self, o: &Self)
            ensures (self.v() == o.v()) == self.same(o) //@C20
        {
            broadcast use {fld_inj_b, fld_len};
        }
    }
    impl ArrayTypeIr {
        pub open spec fn v(&self) -> V { st(fld(fld(Seq::<Ent>::empty(), 0, V::Uuid(self.elem_type.0)), 1, V::U32(self.len))) }
        pub open spec fn same(&self, o: &Self) -> bool { self.elem_type == o.elem_type && self.len == o.len }
        /// the same description is the same value, and only then
        pub proof fn said(&self, o: &Self)
            ensures (self.v() == o.v()) == self.same(o) //@C20
        {
            broadcast use {fld_inj_b, fld_len};
        }
    }
    impl MapTypeIr {
        pub open spec fn v(&self) -> V { st(fld(fld(Seq::<Ent>::empty(), 0, V::Uuid(self.key.0)), 1, V::Uuid(self.value.0))) }
        pub open spec fn same(&self, o: &Self) -> bool { self.key == o.key && self.value == o.value }
        /// the same description is the same value, and only then
        pub proof fn said(&self, o: &Self)
            ensures (self.v() == o.v()) == self.same(o) //@C20
        {
            broadcast use {fld_inj_b, fld_len};
        }
    }
    impl ResultTypeIr {
        pub open spec fn v(&self) -> V { st(fld(fld(Seq::<Ent>::empty(), 0, V::Uuid(self.ok.0)), 1, V::Uuid(self.err.0))) }
        pub open spec fn same(&self, o: &Self) -> bool { self.ok == o.ok && self.err == o.err }
        /// the same description is the same value, and only then
        pub proof fn said(&self, o: &Self)
            ensures (self.v() == o.v()) == self.same(o) //@C20
        {
            broadcast use {fld_inj_b, fld_len};
        }
    }
source core/src/introspection/ir/field.rs
only =FieldIr =FieldField FieldIr::id
keep impl Tag for FieldIr
keep impl Serialize<FieldIr> for &FieldIr
implspec impl Serialize<FieldIr> for &FieldIr
    open spec fn vx_v(self) -> V { self.v() }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
source core/src/introspection/ir/variant.rs
only =VariantIr =VariantField VariantIr::id
keep impl Tag for VariantIr
keep impl Serialize<VariantIr> for &VariantIr
implspec impl Serialize<VariantIr> for &VariantIr
    open spec fn vx_v(self) -> V { self.v() }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
source core/src/introspection/ir/function.rs
only =FunctionIr =FunctionField FunctionIr::id
keep impl Tag for FunctionIr
keep impl Serialize<FunctionIr> for &FunctionIr
implspec impl Serialize<FunctionIr> for &FunctionIr
    open spec fn vx_v(self) -> V { self.v() }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
source core/src/introspection/ir/event.rs
only =EventIr =EventField EventIr::id
keep impl Tag for EventIr
keep impl Serialize<EventIr> for &EventIr
implspec impl Serialize<EventIr> for &EventIr
    open spec fn vx_v(self) -> V { self.v() }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
source core/src/introspection/ir/struct_fallback.rs
only =StructFallbackIr =StructFallbackField
keep impl Tag for StructFallbackIr
keep impl Serialize<StructFallbackIr> for &StructFallbackIr
implspec impl Serialize<StructFallbackIr> for &StructFallbackIr
    open spec fn vx_v(self) -> V { self.v() }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
source core/src/introspection/ir/enum_fallback.rs
only =EnumFallbackIr =EnumFallbackField
keep impl Tag for EnumFallbackIr
keep impl Serialize<EnumFallbackIr> for &EnumFallbackIr
implspec impl Serialize<EnumFallbackIr> for &EnumFallbackIr
    open spec fn vx_v(self) -> V { self.v() }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
source core/src/introspection/ir/function_fallback.rs
only =FunctionFallbackIr =FunctionFallbackField
keep impl Tag for FunctionFallbackIr
keep impl Serialize<FunctionFallbackIr> for &FunctionFallbackIr
implspec impl Serialize<FunctionFallbackIr> for &FunctionFallbackIr
    open spec fn vx_v(self) -> V { self.v() }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
source core/src/introspection/ir/event_fallback.rs
only =EventFallbackIr =EventFallbackField
keep impl Tag for EventFallbackIr
keep impl Serialize<EventFallbackIr> for &EventFallbackIr
implspec impl Serialize<EventFallbackIr> for &EventFallbackIr
    open spec fn vx_v(self) -> V { self.v() }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
source core/src/introspection/ir/struct_ty.rs
only =StructIr =StructField StructIr::NAMESPACE StructIr::lexical_id
keep impl Tag for StructIr
keep impl Serialize<StructIr> for &StructIr
implspec impl Serialize<StructIr> for &StructIr
    open spec fn vx_v(self) -> V { self.v() }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
hint <&StructIrasSerialize<StructIr>>::serialize start
    proof {
        assert(all_m::<TagU32, &u32, FieldIr, &FieldIr>(vx_entries(self.fields@)) =~= mapv(self.fields@, |x: FieldIr| x.v())->List_1);
    }
source core/src/introspection/ir/enum_ty.rs
only =EnumIr =EnumField EnumIr::NAMESPACE EnumIr::lexical_id
keep impl Tag for EnumIr
keep impl Serialize<EnumIr> for &EnumIr
implspec impl Serialize<EnumIr> for &EnumIr
    open spec fn vx_v(self) -> V { self.v() }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
hint <&EnumIrasSerialize<EnumIr>>::serialize start
    proof {
        assert(all_m::<TagU32, &u32, VariantIr, &VariantIr>(vx_entries(self.variants@)) =~= mapv(self.variants@, |x: VariantIr| x.v())->List_1);
    }
source core/src/introspection/ir/service.rs
only =ServiceIr =ServiceField ServiceIr::NAMESPACE ServiceIr::lexical_id
keep impl Tag for ServiceIr
keep impl Serialize<ServiceIr> for &ServiceIr
implspec impl Serialize<ServiceIr> for &ServiceIr
    open spec fn vx_v(self) -> V { self.v() }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
hint <&ServiceIrasSerialize<ServiceIr>>::serialize start
    proof {
        assert(all_m::<TagU32, &u32, FunctionIr, &FunctionIr>(vx_entries(self.functions@)) =~= mapv(self.functions@, |x: FunctionIr| x.v())->List_1);
        assert(all_m::<TagU32, &u32, EventIr, &EventIr>(vx_entries(self.events@)) =~= mapv(self.events@, |x: EventIr| x.v())->List_1);
    }
source core/src/introspection/ir/newtype.rs
only =NewtypeIr =NewtypeField NewtypeIr::NAMESPACE NewtypeIr::lexical_id
keep impl Tag for NewtypeIr
keep impl Serialize<NewtypeIr> for &NewtypeIr
implspec impl Serialize<NewtypeIr> for &NewtypeIr
    open spec fn vx_v(self) -> V { self.v() }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
source core/src/introspection/ir/array_type.rs
only =ArrayTypeIr =ArrayTypeField ArrayTypeIr::new ArrayTypeIr::elem_type ArrayTypeIr::len
derive ArrayTypeIr Clone, Copy
keep impl Tag for ArrayTypeIr
keep impl Serialize<ArrayTypeIr> for &ArrayTypeIr
implspec impl Serialize<ArrayTypeIr> for &ArrayTypeIr
    open spec fn vx_v(self) -> V { self.v() }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
source core/src/introspection/ir/map_type.rs
only =MapTypeIr =MapTypeField MapTypeIr::new MapTypeIr::key MapTypeIr::value
derive MapTypeIr Clone, Copy
keep impl Tag for MapTypeIr
keep impl Serialize<MapTypeIr> for &MapTypeIr
implspec impl Serialize<MapTypeIr> for &MapTypeIr
    open spec fn vx_v(self) -> V { self.v() }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
source core/src/introspection/ir/result_type.rs
only =ResultTypeIr =ResultTypeField ResultTypeIr::new ResultTypeIr::ok ResultTypeIr::err
derive ResultTypeIr Clone, Copy
keep impl Tag for ResultTypeIr
keep impl Serialize<ResultTypeIr> for &ResultTypeIr
implspec impl Serialize<ResultTypeIr> for &ResultTypeIr
    open spec fn vx_v(self) -> V { self.v() }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
fn StructIr::lexical_id
    ensures r == lex_custom(self.schema@, self.name@), //@C20
fn EnumIr::lexical_id
    ensures r == lex_custom(self.schema@, self.name@), //@C20
fn NewtypeIr::lexical_id
    ensures r == lex_custom(self.schema@, self.name@), //@C20
fn ServiceIr::lexical_id
    ensures r == lex_service(self.schema@, self.name@), //@C20
fn FieldIr::id
    ensures r == self.id, //@C20
fn VariantIr::id
    ensures r == self.id, //@C20
fn FunctionIr::id
    ensures r == self.id, //@C20
fn EventIr::id
    ensures r == self.id, //@C20
fn ArrayTypeIr::new
    ensures r.elem_type == elem_type, r.len == len, //@C20
fn ArrayTypeIr::elem_type
    ensures r == self.elem_type, //@C20
fn ArrayTypeIr::len
    ensures r == self.len, //@C20
fn MapTypeIr::new
    ensures r.key == key, r.value == value, //@C20
fn MapTypeIr::key
    ensures r == self.key, //@C20
fn MapTypeIr::value
    ensures r == self.value, //@C20
fn ResultTypeIr::new
    ensures r.ok == ok, r.err == err, //@C20
fn ResultTypeIr::ok
    ensures r == self.ok, //@C20
fn ResultTypeIr::err
    ensures r == self.err, //@C20
