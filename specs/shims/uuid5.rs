// ---- assumed: the name-based ids of RFC 4122
impl Uuid {
    #[verifier::external_body]
    pub fn new_v5<X: VxName + ?Sized>(ns: &Uuid, name: &X) -> (r: Uuid) ensures r == v5(*ns, name.vx_nm()) { unimplemented!() }
}
pub uninterp spec fn v5(ns: Uuid, name: Seq<u8>) -> Uuid;
// ---- assumed: filling a part of an array
#[verifier::external_body]
pub fn vx_fill_to<const N: usize>(a: &mut [u8; N], n: usize, s: &[u8])
    requires n <= N, s@.len() == n
    ensures final(a)@ == s@ + old(a)@.skip(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fill_from<const N: usize>(a: &mut [u8; N], n: usize, s: &[u8])
    requires n <= N, s@.len() == N - n
    ensures final(a)@ == old(a)@.take(n as int) + s@ { unimplemented!() }
// ---- assumed: text
pub uninterp spec fn uuid_text(u: Uuid) -> Seq<u8>;
pub open spec fn path_text(schema: Seq<u8>, name: Seq<u8>) -> Seq<u8> { schema + seq![0x3au8, 0x3au8] + name }
#[verifier::external_body]
pub fn vx_path(schema: &VxStr, name: &VxStr) -> (r: VxStr) ensures r@ == path_text(schema@, name@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_uuid_text(u: Uuid) -> (r: VxStr) ensures r@ == uuid_text(u) { unimplemented!() }
#[verifier::external_body]
pub fn vx_enumerate<'a, T, const N: usize>(a: &'a [T; N]) -> (r: VxIter<(usize, &'a T)>)
    ensures r.wf(), r.pos() == 0, r.all().len() == N, forall|i: int| 0 <= i < N ==> (#[trigger] r.all()[i]).0 == i && *r.all()[i].1 == a@[i] { unimplemented!() }
impl VxStr {
    pub fn into(self) -> (r: VxStr) ensures r == self { self }
    #[verifier::external_body]
    pub fn push(&mut self, c: char) requires (c as u32) < 0x80 ensures final(self)@ == old(self)@.push((c as u32) as u8) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_str(&mut self, s: &VxStr) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
}
pub trait VxName { spec fn vx_nm(&self) -> Seq<u8>; }
impl VxName for [u8] { open spec fn vx_nm(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VxName for [u8; N] { open spec fn vx_nm(&self) -> Seq<u8> { self@ } }
