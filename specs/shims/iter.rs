// ---- assumed: iterators are a position in a sequence
#[verifier::reject_recursive_types(T)]
pub struct VxIter<T> { pub s: Ghost<Seq<T>>, pub p: Ghost<int> }
impl<T> VxIter<T> {
    pub closed spec fn all(&self) -> Seq<T> { self.s@ }
    pub closed spec fn pos(&self) -> int { self.p@ }
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.all().len() }
    pub open spec fn left(&self) -> nat { (self.all().len() - self.pos()) as nat }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).all() == old(self).all(),
            r is Some <==> old(self).pos() < old(self).all().len(),
            r is Some ==> r->0 == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
            r is None ==> final(self).pos() == old(self).pos() { unimplemented!() }
    pub fn vx_into_iter(self) -> (r: Self) ensures r == self { self }
}
impl<'a, T: Copy> VxIter<&'a T> {
    #[verifier::external_body]
    pub fn copied(self) -> (r: VxIter<T>)
        ensures r.pos() == self.pos(), r.all().len() == self.all().len(),
            forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] 0 <= i < r.all().len() ==> r.all()[i] == *self.all()[i] { unimplemented!() }
}
impl<'a, T: Clone> VxIter<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: VxIter<T>)
        ensures r.pos() == self.pos(), r.all().len() == self.all().len(),
            forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] 0 <= i < r.all().len() ==> r.all()[i] == *self.all()[i] { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_iter_of<T>(v: Vec<T>) -> (r: VxIter<T>) ensures r.wf(), r.pos() == 0, r.all() == v@ { unimplemented!() }
impl<T> VxIter<T> {
    #[verifier::external_body]
    pub fn rev(self) -> (r: VxIter<T>)
        requires self.pos() == 0
        ensures r.wf(), r.pos() == 0, r.all().len() == self.all().len(),
            forall|i: int| #![trigger r.all()[i]] 0 <= i < r.all().len() ==> r.all()[i] == self.all()[self.all().len() - 1 - i] { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VxIter<(usize, T)>)
        requires self.pos() == 0
        ensures r.wf(), r.pos() == 0, r.all().len() == self.all().len(),
            forall|i: int| #![trigger r.all()[i]] 0 <= i < r.all().len() ==> r.all()[i].0 == i && r.all()[i].1 == self.all()[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VxIter<T>)
        requires self.pos() == 0
        ensures r.wf(), r.pos() == 0, r.all() == (if n < self.all().len() { self.all().take(n as int) } else { self.all() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VxIter<T>)
        requires self.pos() == 0
        ensures r.wf(), r.pos() == 0, r.all() == (if n < self.all().len() { self.all().skip(n as int) } else { Seq::empty() }) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_arr_iter<T, const N: usize>(a: [T; N]) -> (r: VxIter<T>) ensures r.wf(), r.pos() == 0, r.all() == a@ { unimplemented!() }
