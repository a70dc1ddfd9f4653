// ---- assumed: std::collections::{HashMap, HashSet} and their iterators (views are mathematical maps and sets)
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { pub vx: Ghost<Map<K, V>> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<'a, K, V> { pub m: &'a mut HashMap<K, V>, pub k: K }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VacantEntry<'a, K, V> { pub m: &'a mut HashMap<K, V>, pub k: K }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; closed spec fn view(&self) -> Map<K, V> { self.vx@ } }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is Some <==> self@.dom().contains(*k), r is Some ==> *r->0 == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures
            r is Some <==> old(self)@.dom().contains(*k),
            r is Some ==> *r->0 == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)),
            r is None ==> *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r is Some <==> old(self)@.dom().contains(k), r is Some ==> r->0 == old(self)@[k] { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k), r is Some <==> old(self)@.dom().contains(*k), r is Some ==> r->0 == old(self)@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V>)
        ensures
            r is Occupied <==> old(self)@.dom().contains(k),
            r is Occupied ==> r->Occupied_0.k == k && *r->Occupied_0.m == *old(self) && *final(self) == *final(r->Occupied_0.m),
            r is Vacant ==> r->Vacant_0.k == k && *r->Vacant_0.m == *old(self) && *final(self) == *final(r->Vacant_0.m) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: VxIter<(&K, &V)>)
        ensures r.wf(), r.pos() == 0,
            forall|i: int, j: int| #![trigger r.all()[i], r.all()[j]] 0 <= i < j < r.all().len() ==> *r.all()[i].0 != *r.all()[j].0,
            forall|i: int| #![trigger r.all()[i]] 0 <= i < r.all().len() ==> self@.dom().contains(*r.all()[i].0) && self@[*r.all()[i].0] == *r.all()[i].1,
            forall|k: K| #![trigger self@.dom().contains(k)] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r.all().len() && *(#[trigger] r.all()[i]).0 == k { unimplemented!() }
    pub fn vx_into_iter(&self) -> (r: VxIter<(&K, &V)>)
        ensures r.wf(), r.pos() == 0,
            forall|i: int, j: int| #![trigger r.all()[i], r.all()[j]] 0 <= i < j < r.all().len() ==> *r.all()[i].0 != *r.all()[j].0,
            forall|i: int| #![trigger r.all()[i]] 0 <= i < r.all().len() ==> self@.dom().contains(*r.all()[i].0) && self@[*r.all()[i].0] == *r.all()[i].1,
            forall|k: K| #![trigger self@.dom().contains(k)] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r.all().len() && *(#[trigger] r.all()[i]).0 == k { self.iter() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: VxIter<&K>)
        ensures r.wf(), r.pos() == 0,
            forall|i: int, j: int| #![trigger r.all()[i], r.all()[j]] 0 <= i < j < r.all().len() ==> *r.all()[i] != *r.all()[j],
            forall|i: int| #![trigger r.all()[i]] 0 <= i < r.all().len() ==> self@.dom().contains(*r.all()[i]),
            forall|k: K| #![trigger self@.dom().contains(k)] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r.all().len() && *(#[trigger] r.all()[i]) == k { unimplemented!() }
    /// `k` is the ghost sequence of keys the values belong to
    #[verifier::external_body]
    pub fn values(&self) -> (r: VxIter<&V>)
        ensures r.wf(), r.pos() == 0,
            forall|i: int| #![trigger r.all()[i]] #![trigger vx_key_at::<K, V>(r, i)] 0 <= i < r.all().len() ==> self@.dom().contains(vx_key_at::<K, V>(r, i)) && self@[vx_key_at::<K, V>(r, i)] == *r.all()[i] && vx_idx_of::<K, V>(r, vx_key_at::<K, V>(r, i)) == i,
            forall|k: K| #![trigger self@.dom().contains(k)] self@.dom().contains(k) ==> 0 <= vx_idx_of::<K, V>(r, k) < r.all().len() && vx_key_at::<K, V>(r, vx_idx_of::<K, V>(r, k)) == k { unimplemented!() }
}
/// the key the i-th of the values belongs to, and back
pub uninterp spec fn vx_key_at<K, V>(it: VxIter<&V>, i: int) -> K;
pub uninterp spec fn vx_idx_of<K, V>(it: VxIter<&V>, k: K) -> int;
impl<'a, K, V: VxDefault> Entry<'a, K, V> {
    #[verifier::external_body]
    pub fn or_default(self) -> (r: &'a mut V)
        ensures
            self is Occupied ==> *r == (*old(self->Occupied_0.m))@[self->Occupied_0.k] && (*final(self->Occupied_0.m))@ == (*old(self->Occupied_0.m))@.insert(self->Occupied_0.k, *final(r)),
            self is Vacant ==> V::is_default(*r) && (*final(self->Vacant_0.m))@ == (*old(self->Vacant_0.m))@.insert(self->Vacant_0.k, *final(r)) { unimplemented!() }
}
pub trait VxDefault: Sized { spec fn is_default(v: Self) -> bool; }
impl<T> VxDefault for HashSet<T> { open spec fn is_default(v: Self) -> bool { v@ == Set::<T>::empty() } }
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn get(&self) -> (r: &V) requires (*old(self.m))@.dom().contains(self.k) ensures *r == (*old(self.m))@[self.k] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: &mut V)
        requires (*old(self).m)@.dom().contains(old(self).k)
        ensures *r == (*old(self).m)@[old(self).k], final(self).k == old(self).k,
            (*final(self).m)@ == (*old(self).m)@.insert(old(self).k, *final(r)),
            *final(final(self).m) == *final(old(self).m) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(self) -> (r: V)
        requires (*old(self.m))@.dom().contains(self.k)
        ensures r == (*old(self.m))@[self.k], (*final(self.m))@ == (*old(self.m))@.remove(self.k) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_mut(self) -> (r: &'a mut V)
        requires (*old(self.m))@.dom().contains(self.k)
        ensures *r == (*old(self.m))@[self.k], (*final(self.m))@ == (*old(self.m))@.insert(self.k, *final(r)) { unimplemented!() }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'a mut V)
        ensures *r == v, (*final(self.m))@ == (*old(self.m))@.insert(self.k, *final(r)) { unimplemented!() }
}
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { pub vx: Ghost<Set<T>> }
impl<T> View for HashSet<T> { type V = Set<T>; closed spec fn view(&self) -> Set<T> { self.vx@ } }
impl<T> HashSet<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, t: &T) -> (r: bool) ensures r == self@.contains(*t) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, t: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(t), r == !old(self)@.contains(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, t: &T) -> (r: bool) ensures final(self)@ == old(self)@.remove(*t), r == old(self)@.contains(*t) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: VxIter<&T>)
        ensures r.wf(), r.pos() == 0,
            forall|i: int, j: int| #![trigger r.all()[i], r.all()[j]] 0 <= i < j < r.all().len() ==> *r.all()[i] != *r.all()[j],
            forall|i: int| #![trigger r.all()[i]] 0 <= i < r.all().len() ==> self@.contains(*r.all()[i]),
            forall|t: T| #![trigger self@.contains(t)] self@.contains(t) ==> exists|i: int| 0 <= i < r.all().len() && *(#[trigger] r.all()[i]) == t { unimplemented!() }
    pub fn vx_into_iter(&self) -> (r: VxIter<&T>)
        ensures r.wf(), r.pos() == 0,
            forall|i: int, j: int| #![trigger r.all()[i], r.all()[j]] 0 <= i < j < r.all().len() ==> *r.all()[i] != *r.all()[j],
            forall|i: int| #![trigger r.all()[i]] 0 <= i < r.all().len() ==> self@.contains(*r.all()[i]),
            forall|t: T| #![trigger self@.contains(t)] self@.contains(t) ==> exists|i: int| 0 <= i < r.all().len() && *(#[trigger] r.all()[i]) == t { self.iter() }
}
// ---- assumed: iterators yield the elements of a fixed sequence in order
impl<'a, T> VxIter<&'a HashSet<T>> {
    #[verifier::external_body]
    pub fn flatten(self) -> (r: VxIter<&'a T>)
        requires self.pos() == 0
        ensures r.wf(), r.pos() == 0,
            forall|i: int| #![trigger r.all()[i]] 0 <= i < r.all().len() ==> exists|j: int| 0 <= j < self.all().len() && (*#[trigger] self.all()[j])@.contains(*r.all()[i]),
            forall|j: int, t: T| #![trigger (*self.all()[j])@.contains(t)] 0 <= j < self.all().len() && (*self.all()[j])@.contains(t) ==> exists|i: int| 0 <= i < r.all().len() && *(#[trigger] r.all()[i]) == t { unimplemented!() }
}
impl<T> HashSet<T> {
    #[verifier::external_body]
    pub fn extend(&mut self, it: VxIter<T>)
        requires it.pos() == 0
        ensures forall|t: T| #![trigger final(self)@.contains(t)] #![trigger old(self)@.contains(t)] final(self)@.contains(t) <==> (old(self)@.contains(t) || exists|i: int| 0 <= i < it.all().len() && (#[trigger] it.all()[i]) == t),
            forall|i: int| #![trigger it.all()[i]] 0 <= i < it.all().len() ==> final(self)@.contains(it.all()[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: VxIter<T>)
        ensures r.wf(), r.pos() == 0,
            forall|i: int, j: int| #![trigger r.all()[i], r.all()[j]] 0 <= i < j < r.all().len() ==> r.all()[i] != r.all()[j],
            forall|i: int| #![trigger r.all()[i]] 0 <= i < r.all().len() ==> self@.contains(r.all()[i]),
            forall|t: T| #![trigger self@.contains(t)] self@.contains(t) ==> exists|i: int| 0 <= i < r.all().len() && (#[trigger] r.all()[i]) == t { unimplemented!() }
}
