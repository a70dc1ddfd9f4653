// ---- assumed: core::task (only the two variants of Poll matter here)
pub enum Poll<T> { Ready(T), Pending }
pub struct Context { pub x: u8 }
#[verifier::external_body]
pub fn vx_context() -> (r: Context) { unimplemented!() }
// ---- assumed: std::option::IntoIter yields at most one element
impl<T> VxIter<T> {
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn collect<C: VxCollect<T>>(self) -> (r: C)
        requires self.pos() == 0
        ensures C::vx_from(self.all(), r) { unimplemented!() }
}
pub trait VxCollect<T>: Sized { spec fn vx_from(s: Seq<T>, r: Self) -> bool; }
impl<T> VxCollect<T> for Vec<T> { open spec fn vx_from(s: Seq<T>, r: Self) -> bool { r@ == s } }
// the last pair with a key wins
impl<K, V> VxCollect<(K, V)> for HashMap<K, V> {
    open spec fn vx_from(s: Seq<(K, V)>, r: Self) -> bool {
        &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> r@.dom().contains(s[i].0)
        &&& forall|k: K| #![trigger r@.dom().contains(k)] #![trigger r@[k]] r@.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k && s[i].1 == r@[k]
    }
}
#[verifier::external_body]
pub fn vx_opt_iter<T>(o: Option<T>) -> (r: VxIter<T>)
    ensures r.wf(), r.pos() == 0, r.all() == (match o { Some(x) => seq![x], None => Seq::<T>::empty() }) { unimplemented!() }
// ---- assumed: HashMap::values_mut yields every value once
pub uninterp spec fn vx_mkey<K, V>(it: VxIter<&mut V>, i: int) -> K;
pub uninterp spec fn vx_midx<K, V>(it: VxIter<&mut V>, k: K) -> int;
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn values_mut(&mut self) -> (r: VxIter<&mut V>)
        ensures r.wf(), r.pos() == 0, final(self)@.dom() == old(self)@.dom(),
            forall|i: int| #![trigger r.all()[i]] #![trigger vx_mkey::<K, V>(r, i)] 0 <= i < r.all().len() ==>
                old(self)@.dom().contains(vx_mkey::<K, V>(r, i)) && *r.all()[i] == old(self)@[vx_mkey::<K, V>(r, i)]
                && final(self)@[vx_mkey::<K, V>(r, i)] == *final(r.all()[i]) && vx_midx::<K, V>(r, vx_mkey::<K, V>(r, i)) == i,
            forall|k: K| #![trigger final(self)@[k]] #![trigger old(self)@.dom().contains(k)] old(self)@.dom().contains(k) ==>
                0 <= vx_midx::<K, V>(r, k) < r.all().len() && vx_mkey::<K, V>(r, vx_midx::<K, V>(r, k)) == k { unimplemented!() }
}
// ---- assumed: VecDeque is a sequence
#[verifier::reject_recursive_types(T)]
pub struct VecDeque<T> { pub vx: Ghost<Seq<T>> }
impl<T> View for VecDeque<T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.vx@ } }
impl<T> VecDeque<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures r is Some <==> old(self)@.len() > 0, r is Some ==> r->0 == old(self)@[0] && final(self)@ == old(self)@.skip(1),
            r is None ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
// ---- assumed: From and Into (the same with a contract)
pub trait VxFrom<T>: Sized {
    spec fn vx_made(t: T, r: Self) -> bool;
    fn from(t: T) -> (r: Self) ensures Self::vx_made(t, r);
}
pub trait VxInto<U: VxFrom<Self>>: Sized {
    fn vx_into(self) -> (r: U) ensures U::vx_made(self, r);
}
impl<T, U: VxFrom<T>> VxInto<U> for T {
    fn vx_into(self) -> (r: U) { U::from(self) }
}
pub fn vx_copied(v: &Vec<ServiceUuid>) -> (r: VxIter<ServiceUuid>) ensures r.wf(), r.pos() == 0, r.all() == v@ { vx_copied_(v) }
#[verifier::external_body]
pub fn vx_copied_<T: Copy>(v: &Vec<T>) -> (r: VxIter<T>) ensures r.wf(), r.pos() == 0, r.all() == v@ { unimplemented!() }
