// The type id of a layout and all it refers to (C20)
subst impl Serialize<Compute> for &Compute => impl SerializeTop<Compute> for &Compute
subst BTreeSet<SerializedValue> => VxSvSet
subst ir::LayoutIr => LayoutIr
subst BTreeSet::new() => VxSvSet::new()
text
    // ---- assumed: serialized values
    #[verifier::external_body]
    pub struct SerializedValue { x: Vec<u8> }
    impl SerializedValue {
        pub uninterp spec fn val(&self) -> V;
        pub uninterp spec fn of(v: V) -> SerializedValue;
        #[verifier::external_body]
        pub proof fn vx_of(v: V) ensures (#[trigger] SerializedValue::of(v)).val() == v { }
        /// (that a value cannot be serialized at all is a panic)
        #[verifier::external_body]
        pub fn serialize<X: VxWhole>(x: X) -> (r: VxSer<X::Out>) ensures x.vx_good(r.get()) { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct VxSer<T> { x: T }
    impl<T> VxSer<T> {
        pub uninterp spec fn get(&self) -> T;
        #[verifier::external_body]
        pub fn unwrap(self) -> (r: T) ensures r == self.get() { unimplemented!() }
    }
    pub trait VxWhole: Sized { type Out; spec fn vx_good(self, o: Self::Out) -> bool; }
    impl<'a> VxWhole for &'a LayoutIr { type Out = SerializedValue; open spec fn vx_good(self, o: SerializedValue) -> bool { o.val() == self.v() } }
    #[verifier::external_body]
    pub struct VxBlob { x: Vec<u8> }
    impl VxName for VxBlob { uninterp spec fn vx_nm(&self) -> Seq<u8>; }
    impl<'a> VxWhole for &'a Compute { type Out = VxBlob; open spec fn vx_good(self, o: VxBlob) -> bool { o.vx_nm() == self.vx_top() } }
    pub trait SerializeTop<T>: Sized {
        /// the bytes that are written
        spec fn vx_top(self) -> Seq<u8>;
        fn serialize(self, serializer: Serializer) -> (r: Result<(), SerializeError>)
            requires 1 <= serializer.depth <= 32
            ensures r is Ok ==> (*final(serializer.buf))@ == (*old(serializer.buf))@ + self.vx_top(); //@C20
    }
    impl<'a> Serialize<TagValue> for &'a SerializedValue {
        open spec fn vx_v(self) -> V { self.val() }
        open spec fn vx_some(&self) -> bool { true }
        #[verifier::external_body]
        fn serialize(self, serializer: Serializer) -> (r: Result<(), SerializeError>) { unimplemented!() }
        fn serializes_as_some(&self) -> (r: bool) { true }
    }
    // ---- assumed: a sorted set of serialized values, equal if their bytes are
    #[verifier::external_body]
    pub struct VxSvSet { x: Vec<SerializedValue> }
    impl View for VxSvSet { type V = Set<V>; uninterp spec fn view(&self) -> Set<V>; }
    impl VxSvSet {
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Set::<V>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, x: SerializedValue) -> (r: bool) ensures final(self)@ == old(self)@.insert(x.val()), r == !old(self)@.contains(x.val()) { unimplemented!() }
    }
    pub open spec fn sv_items<'a>(s: Seq<V>) -> Seq<&'a SerializedValue> { Seq::new(s.len(), |i: int| &SerializedValue::of(s[i])) }
    impl<'a> IntoIterator for &'a VxSvSet {
        type Item = &'a SerializedValue;
        open spec fn vx_items(self) -> Seq<&'a SerializedValue> { sv_items(vx_sorted(self@)) }
        #[verifier::external_body]
        fn vx_into_iter(self) -> (r: VxIter<&'a SerializedValue>) { unimplemented!() }
    }
    // ---- assumed: a type is described by functions of its own; what it refers to, in any order and number, is a function of its layout
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct DynIntrospectable { x: u8 }
    impl DynIntrospectable {
        pub uninterp spec fn lay(self) -> LayoutIr;
        #[verifier::external_body]
        pub fn layout(self) -> (r: LayoutIr) ensures r == self.lay() { unimplemented!() }
        #[verifier::external_body]
        pub fn lexical_id(self) -> (r: LexicalId) { unimplemented!() }
        #[verifier::external_body]
        pub fn add_references(self, references: &mut References)
            ensures
                *final(final(references).inner) == *final(old(references).inner),
                exists|p: Seq<DynIntrospectable>| (*final(references).inner)@ == (*old(references).inner)@ + p && #[trigger] vals(p) == refv(self.lay().v()) { unimplemented!() }
    }
    /// the layouts of what a type with this layout refers to
    pub uninterp spec fn refv(v: V) -> Set<V>;
    pub open spec fn vals(p: Seq<DynIntrospectable>) -> Set<V> { p.map_values(|t: DynIntrospectable| t.lay().v()).to_set() }
    pub proof fn vals_add(a: Seq<DynIntrospectable>, b: Seq<DynIntrospectable>) ensures vals(a + b) == vals(a).union(vals(b))
    {
        let f = |t: DynIntrospectable| t.lay().v(); let x = a.map_values(f); let y = b.map_values(f); let z = (a + b).map_values(f);
        assert(z =~= x + y);
        assert forall|v: V| #[trigger] z.to_set().contains(v) == x.to_set().union(y.to_set()).contains(v) by {
            if x.contains(v) { let i = x.index_of(v); assert(z[i] == v); }
            if y.contains(v) { let i = y.index_of(v); assert(z[x.len() + i] == v); }
            if z.contains(v) { let i = z.index_of(v); if i < x.len() { assert(x[i] == v); } else { assert(y[i - x.len()] == v); } }
        }
        assert(z.to_set() =~= x.to_set().union(y.to_set()));
    }
    pub proof fn vals_none() ensures vals(Seq::empty()) == Set::<V>::empty()
    { let z = Seq::<DynIntrospectable>::empty().map_values(|t: DynIntrospectable| t.lay().v()); assert(z =~= Seq::empty()); assert(z.to_set() =~= Set::empty()); }
    pub proof fn vals_one(t: DynIntrospectable) ensures vals(seq![t]) == Set::<V>::empty().insert(t.lay().v())
    {
        let z = seq![t].map_values(|t: DynIntrospectable| t.lay().v());
        assert(z =~= seq![t.lay().v()]); assert(z[0] == t.lay().v());
        assert(z.to_set() =~= Set::<V>::empty().insert(t.lay().v()));
    }
    /// s has all that v refers to, and all those refer to
    pub open spec fn closed(v: V, s: Set<V>) -> bool { refv(v).subset_of(s) && forall|x: V| #[trigger] s.contains(x) ==> refv(x).subset_of(s) }
    pub open spec fn least(v: V, s: Set<V>) -> bool { closed(v, s) && forall|t: Set<V>| #[trigger] closed(v, t) ==> s.subset_of(t) }
    /// all that v refers to, directly or indirectly
    pub open spec fn reach(v: V) -> Set<V> { choose|s: Set<V>| least(v, s) }
    pub proof fn least_one(v: V, s: Set<V>)
        requires least(v, s)
        ensures s == reach(v) //@C20
    { assert(least(v, reach(v))); assert(closed(v, s) && closed(v, reach(v))); assert(s =~= reach(v)); }
    /// while s has been collected and w is yet to be visited
    #[verifier::opaque]
    pub open spec fn going(v: V, s: Set<V>, w: Set<V>) -> bool {
        refv(v).subset_of(s.union(w)) && (forall|x: V| #[trigger] s.contains(x) ==> refv(x).subset_of(s.union(w))) && forall|t: Set<V>| #[trigger] closed(v, t) ==> s.subset_of(t) && w.subset_of(t)
    }
    pub proof fn going_first(v: V, p: Seq<DynIntrospectable>)
        requires vals(p) == refv(v)
        ensures going(v, Set::empty(), vals(Seq::empty() + p))
    { reveal(going); assert(Seq::<DynIntrospectable>::empty() + p =~= p); }
    /// t is taken off the list
    pub proof fn going_next(v: V, s: Set<V>, w: Seq<DynIntrospectable>, t: DynIntrospectable, w1: Seq<DynIntrospectable>)
        requires going(v, s, vals(w)), w.len() > 0, t == w.last(), w1 == w.subrange(0, w.len() - 1)
        ensures
            s.contains(t.lay().v()) ==> going(v, s.insert(t.lay().v()), vals(w1)),
            forall|p: Seq<DynIntrospectable>| #[trigger] vals(p) == refv(t.lay().v()) ==> going(v, s.insert(t.lay().v()), vals(w1 + p)),
    {
        reveal(going);
        let x = t.lay().v();
        assert(w =~= w1 + seq![t]); vals_add(w1, seq![t]); vals_one(t);
        assert forall|p: Seq<DynIntrospectable>| #[trigger] vals(p) == refv(x) implies going(v, s.insert(x), vals(w1 + p)) by {
            vals_add(w1, p);
            let s2 = s.insert(x); let u = s2.union(vals(w1 + p));
            assert(s.union(vals(w)).subset_of(u));
            assert forall|y: V| #[trigger] s2.contains(y) implies refv(y).subset_of(u) by { if y != x { assert(s.contains(y)); } }
            assert forall|c: Set<V>| #[trigger] closed(v, c) implies s2.subset_of(c) && vals(w1 + p).subset_of(c) by { assert(vals(w).contains(x)); assert(c.contains(x)); }
        }
        if s.contains(x) { assert(s.insert(x) =~= s); assert(s.union(vals(w)) =~= s.union(vals(w1))); assert(vals(w1).subset_of(vals(w))); }
    }
    pub proof fn going_done(v: V, s: Set<V>)
        requires going(v, s, vals(Seq::empty()))
        ensures s == reach(v)
    { reveal(going); vals_none(); assert(s.union(Set::empty()) =~= s); least_one(v, s); }
    pub open spec fn ents(s: Seq<V>) -> Seq<Ent> { Seq::new(s.len(), |i: int| Ent { h: Head::Unit, v: s[i] }) }
    /// what is hashed for layout v that refers to s
    pub open spec fn top(v: V, s: Set<V>) -> Seq<u8> {
        pd(ValueKind::Struct1) + pn(3) + (pn(0) + enc(true, V::U32(VERSION))) + (pn(1) + enc(true, v)) + (pn(2) + enc(true, V::List(Shape::Vec, ents(vx_sorted(s)))))
    }
    pub open spec fn tid(l: LayoutIr) -> Uuid { v5(l.ns(), top(l.v(), reach(l.v()))) }
    /// kinds of types are told apart
    pub proof fn ns_distinct()
        ensures
            ({ let s = seq![BuiltInTypeIr::NAMESPACE, StructIr::NAMESPACE, EnumIr::NAMESPACE, ServiceIr::NAMESPACE, NewtypeIr::NAMESPACE]; s.no_duplicates() }), //@C20
            ({ let s = seq![LexicalId::NAMESPACE_OPTION, LexicalId::NAMESPACE_BOX, LexicalId::NAMESPACE_VEC, LexicalId::NAMESPACE_MAP, LexicalId::NAMESPACE_SET, LexicalId::NAMESPACE_SENDER, LexicalId::NAMESPACE_RECEIVER, LexicalId::NAMESPACE_RESULT, LexicalId::NAMESPACE_ARRAY, LexicalId::NAMESPACE_CUSTOM, LexicalId::NAMESPACE_SERVICE]; s.no_duplicates() }), //@C20
            ({ let s = seq![LexicalId::BOOL, LexicalId::U8, LexicalId::I8, LexicalId::U16, LexicalId::I16, LexicalId::U32, LexicalId::I32, LexicalId::U64, LexicalId::I64, LexicalId::F32, LexicalId::F64, LexicalId::STRING, LexicalId::UUID, LexicalId::OBJECT_ID, LexicalId::SERVICE_ID, LexicalId::VALUE, LexicalId::BYTES, LexicalId::LIFETIME, LexicalId::UNIT]; s.no_duplicates() }), //@C20
    {
    }
    /// the documentation is not part of the id
    pub proof fn tid_doc(a: LayoutIr, b: LayoutIr)
        requires a.same(&b)
        ensures tid(a) == tid(b) //@C20
    { a.said(&b); }
    /// equal ids are equal layouts and equal layouts of all they refer to, or two names with the same hash
    pub proof fn tid_inj(a: LayoutIr, b: LayoutIr)
        requires
            tid(a) == tid(b),
            ok(a.v(), 1), ok(b.v(), 1), fits(a.v()), fits(b.v()),
            ok(V::List(Shape::Vec, ents(vx_sorted(reach(a.v())))), 1), ok(V::List(Shape::Vec, ents(vx_sorted(reach(b.v())))), 1),
            fits(V::List(Shape::Vec, ents(vx_sorted(reach(a.v()))))), fits(V::List(Shape::Vec, ents(vx_sorted(reach(b.v()))))),
        ensures
            a.same(&b) && reach(a.v()) == reach(b.v()) //@C20
            || {
                let m = top(a.v(), reach(a.v())); let n = top(b.v(), reach(b.v()));
                (a.ns() != b.ns() || m != n) && v5(a.ns(), m) == v5(b.ns(), n)
            },
    {
        let m = top(a.v(), reach(a.v())); let n = top(b.v(), reach(b.v()));
        if a.ns() == b.ns() && m == n {
            let h = pd(ValueKind::Struct1) + pn(3) + (pn(0) + enc(true, V::U32(VERSION))) + pn(1);
            let la = V::List(Shape::Vec, ents(vx_sorted(reach(a.v())))); let lb = V::List(Shape::Vec, ents(vx_sorted(reach(b.v()))));
            let ta = pn(2) + enc(true, la); let tb = pn(2) + enc(true, lb);
            assert(m =~= h + (enc(true, a.v()) + ta)); assert(n =~= h + (enc(true, b.v()) + tb));
            assert(m.skip(h.len() as int) =~= enc(true, a.v()) + ta); assert(n.skip(h.len() as int) =~= enc(true, b.v()) + tb);
            val_rt(true, true, a.v(), 1, ta); val_rt(true, true, b.v(), 1, tb);
            assert(a.v() == b.v() && ta == tb);
            a.said(&b);
        }
    }
source core/src/introspection.rs
only VERSION =References References::new
fn References::new
    ensures *r.inner == *old(inner), *final(r.inner) == *final(inner),
source core/src/adapters/vec.rs
only =IterAsVec
keep impl Serialize<tags::Vec<T>> for IterAsVec<U>
implspec impl Serialize<TagVec<T>> for IterAsVec<U>
    open spec fn vx_v(self) -> V { V::List(Shape::Vec, all_s::<T, U::Item>(self.0.vx_items())) }
    open spec fn vx_some(&self) -> bool { true }
    fn serializes_as_some(&self) -> (r: bool) { true }
source core/src/ids/type_id.rs
only =TypeId
source core/src/introspection/type_id.rs
only =Compute Compute::new Compute::namespace Compute::add =ComputeField TypeId::compute_from_dyn
skip TypeId::compute
keep impl Serialize<Compute> for &Compute
implspec impl SerializeTop<Compute> for &Compute
    open spec fn vx_top(self) -> Seq<u8> { top(self.layout.val(), self.referenced@) }
fn Compute::new
    ensures r.namespace == layout.ns(), r.layout.val() == layout.v(), r.referenced@ == Set::<V>::empty(), //@C20
fn Compute::namespace
    ensures r == self.namespace, //@C20
fn Compute::add
    ensures final(self).namespace == old(self).namespace, final(self).layout == old(self).layout, final(self).referenced@ == old(self).referenced@.insert(layout.v()), r == !old(self).referenced@.contains(layout.v()), //@C20
fn <&ComputeasSerializeTop<Compute>>::serialize
hint <&ComputeasSerializeTop<Compute>>::serialize start
    proof {
        let s = vx_sorted(self.referenced@);
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] sv_items(s)[i]).vx_v() == s[i] by { SerializedValue::vx_of(s[i]); }
        assert(all_s::<TagValue, &SerializedValue>(sv_items(s)) =~= ents(s));
    }
fn TypeId::compute_from_dyn verifier::exec_allows_no_decreases_clause verifier::loop_isolation(false) verifier::allow_complex_invariants
    ensures r.0 == tid(ty.lay()), //@C20
loop TypeId::compute_from_dyn 0
    invariant
        compute.namespace == vx_ty.lay().ns(), compute.layout.val() == vx_ty.lay().v(), going(vx_ty.lay().v(), compute.referenced@, vals(references@)),
    ensures
        references@ == Seq::<DynIntrospectable>::empty(),
hint TypeId::compute_from_dyn start
    let ghost vx_ty = ty;
hint TypeId::compute_from_dyn loop0.before
    proof {
        let p = choose|p: Seq<DynIntrospectable>| references@ == Seq::<DynIntrospectable>::empty() + p && #[trigger] vals(p) == refv(vx_ty.lay().v());
        going_first(vx_ty.lay().v(), p);
    }
hint TypeId::compute_from_dyn loop0.start
    proof { if references@.len() > 0 { going_next(vx_ty.lay().v(), compute.referenced@, references@, references@.last(), references@.subrange(0, references@.len() - 1)); } }
hint TypeId::compute_from_dyn loop0.after
    proof { assert(references@ =~= Seq::<DynIntrospectable>::empty()); going_done(vx_ty.lay().v(), compute.referenced@); }
