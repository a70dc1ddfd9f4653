// ---- assumed: bytes::BytesMut (content only; allocation never fails, lengths stay below isize::MAX)
pub open spec fn vx_max_len() -> int { 0x7fff_ffff_ffff_ffff }
pub struct VxErr;
pub open spec fn le4(n: u32) -> Seq<u8> { seq![n as u8, (n >> 8) as u8, (n >> 16) as u8, (n >> 24) as u8] }
pub open spec fn un4(s: Seq<u8>) -> u32 { (s[0] as u32) | ((s[1] as u32) << 8) | ((s[2] as u32) << 16) | ((s[3] as u32) << 24) }
pub broadcast proof fn le4_un4(n: u32) ensures un4(#[trigger] le4(n)) == n, le4(n).len() == 4
{
    assert(((n as u8) as u32) | ((((n >> 8) as u8) as u32) << 8) | ((((n >> 16) as u8) as u32) << 16) | ((((n >> 24) as u8) as u32) << 24) == n) by(bit_vector);
}
pub broadcast proof fn un4_le4(s: Seq<u8>) requires s.len() == 4 ensures le4(#[trigger] un4(s)) == s
{
    let (a, b, c, d) = (s[0], s[1], s[2], s[3]);
    assert(({let n = (a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24); n as u8 == a && (n >> 8) as u8 == b && (n >> 16) as u8 == c && (n >> 24) as u8 == d})) by(bit_vector);
    assert(le4(un4(s)) =~= s);
}
/// dereferences to bytes
pub trait VxBytes { spec fn vx_b(&self) -> Seq<u8>; }
impl VxBytes for [u8] { open spec fn vx_b(&self) -> Seq<u8> { self@ } }
impl VxBytes for BytesMut { open spec fn vx_b(&self) -> Seq<u8> { self@ } }
impl VxBytes for Vec<u8> { open spec fn vx_b(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub struct BytesMut { x: Vec<u8> }
impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl BytesMut {
    /// there is one buffer for every content: equality (PartialEq) is equality of the content
    pub uninterp spec fn of(s: Seq<u8>) -> BytesMut;
    #[verifier::external_body]
    pub broadcast proof fn vx_of(s: Seq<u8>) requires s.len() <= vx_max_len() ensures #[trigger] BytesMut::of(s)@ == s { }
    #[verifier::external_body]
    pub broadcast proof fn vx_ext(&self) ensures #[trigger] self@.len() <= vx_max_len() { }
    #[verifier::external_body]
    pub fn zeroed(n: usize) -> (r: Self) ensures r@ == Seq::new(n as nat, |i: int| 0u8) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn remaining(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u8(&mut self, b: u8) ensures final(self)@ == old(self)@ + seq![b] { unimplemented!() }
    #[verifier::external_body]
    pub fn put_slice(&mut self, s: &[u8]) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn try_get_u8(&mut self) -> (r: Result<u8, VxErr>)
        ensures r is Ok <==> old(self)@.len() > 0,
            r is Ok ==> r->Ok_0 == old(self)@[0] && final(self)@ == old(self)@.skip(1),
            r is Err ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn try_copy_to_slice(&mut self, d: &mut [u8]) -> (r: Result<(), VxErr>)
        ensures r is Ok <==> old(self)@.len() >= old(d)@.len(),
            r is Ok ==> final(d)@ == old(self)@.take(old(d)@.len() as int) && final(self)@ == old(self)@.skip(old(d)@.len() as int),
            r is Err ==> final(self)@ == old(self)@ && final(d)@ == old(d)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn get_u32_le(&mut self) -> (r: u32)
        requires old(self)@.len() >= 4, //@C08,C07,C13,C01
        ensures r == un4(old(self)@.take(4)), final(self)@ == old(self)@.skip(4) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_off(&mut self, n: usize) -> (r: BytesMut)
        requires n <= old(self)@.len(), //@C08,C07,C13,C01
        ensures final(self)@ == old(self)@.take(n as int), r@ == old(self)@.skip(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn unsplit(&mut self, o: BytesMut) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn extend_from_slice<S: VxBytes + ?Sized>(&mut self, s: &S) ensures final(self)@ == old(self)@ + s.vx_b() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    // element and slice access (panics out of bounds)
    #[verifier::external_body]
    pub fn vx_at(&self, i: usize) -> (r: u8)
        requires i < self@.len(), //@C08,C07,C13,C01
        ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_set(&mut self, i: usize, b: u8)
        requires i < old(self)@.len(), //@C08,C07,C13,C01
        ensures final(self)@ == old(self)@.update(i as int, b) { unimplemented!() }
}
pub trait VxSlice {
    spec fn vx_seq(&self) -> Seq<u8>;
    fn vx_to(&self, n: usize) -> (r: &[u8])
        requires n <= self.vx_seq().len(), //@C08,C07,C13,C01
        ensures r@ == self.vx_seq().take(n as int);
    fn vx_from(&self, n: usize) -> (r: &[u8])
        requires n <= self.vx_seq().len(), //@C08,C07,C13,C01
        ensures r@ == self.vx_seq().skip(n as int);
    fn vx_range(&self, a: usize, b: usize) -> (r: &[u8])
        requires a <= b <= self.vx_seq().len(), //@C08,C07,C13,C01
        ensures r@ == self.vx_seq().subrange(a as int, b as int);
    fn vx_all_mut(&mut self) -> (r: &mut [u8])
        ensures r@ == old(self).vx_seq(), final(self).vx_seq() == final(r)@;
    fn vx_to_mut(&mut self, n: usize) -> (r: &mut [u8])
        requires n <= old(self).vx_seq().len(), //@C08,C07,C13,C01
        ensures r@ == old(self).vx_seq().take(n as int), final(self).vx_seq() == final(r)@ + old(self).vx_seq().skip(n as int);
    fn vx_range_mut(&mut self, a: usize, b: usize) -> (r: &mut [u8])
        requires a <= b <= old(self).vx_seq().len(), //@C08,C07,C13,C01
        ensures r@ == old(self).vx_seq().subrange(a as int, b as int),
            final(self).vx_seq() == old(self).vx_seq().take(a as int) + final(r)@ + old(self).vx_seq().skip(b as int);
}
impl VxSlice for BytesMut {
    open spec fn vx_seq(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_to(&self, n: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_from(&self, n: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_all_mut(&mut self) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_mut(&mut self, n: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_range_mut(&mut self, a: usize, b: usize) -> (r: &mut [u8]) { unimplemented!() }
}
impl<const N: usize> VxSlice for [u8; N] {
    open spec fn vx_seq(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_to(&self, n: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_from(&self, n: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_all_mut(&mut self) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_mut(&mut self, n: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_range_mut(&mut self, a: usize, b: usize) -> (r: &mut [u8]) { unimplemented!() }
}
pub assume_specification<T: Clone> [<[T]>::fill](d: &mut [T], v: T) ensures final(d)@ == Seq::new(old(d)@.len(), |i: int| v);
pub trait VxRead { spec fn rest(&self) -> Seq<u8>;
    fn get_u32_le(&mut self) -> (r: u32)
        requires old(self).rest().len() >= 4, //@C08,C07,C13,C01
        ensures r == un4(old(self).rest().take(4)), final(self).rest() == old(self).rest().skip(4);
}
impl VxRead for &[u8] {
    open spec fn rest(&self) -> Seq<u8> { (*self)@ }
    #[verifier::external_body]
    fn get_u32_le(&mut self) -> (r: u32) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_same<T>(a: T, b: T) -> (r: bool) ensures r == (a == b) { unimplemented!() }
// ---- assumed: core array and integer methods
pub trait VxLe4 { fn vx_le(&self) -> (r: [u8; 4]) ensures r@ == le4(self.vx_n()); spec fn vx_n(&self) -> u32; }
impl VxLe4 for u32 {
    open spec fn vx_n(&self) -> u32 { *self }
    #[verifier::external_body]
    fn vx_le(&self) -> (r: [u8; 4]) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_u32_from_le(b: [u8; 4]) -> (r: u32) ensures r == un4(b@) { unimplemented!() }
// ---- assumed: uuid::Uuid is 16 bytes
#[derive(Clone, Copy)]
pub struct Uuid { pub n: u128 }
impl View for Uuid { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Uuid {
    pub uninterp spec fn of(s: Seq<u8>) -> Uuid;
    #[verifier::external_body]
    pub broadcast proof fn vx_len(self) ensures (#[trigger] self@).len() == 16, Uuid::of(self@) == self { }
    #[verifier::external_body]
    pub broadcast proof fn vx_of(s: Seq<u8>) requires s.len() == 16 ensures (#[trigger] Uuid::of(s))@ == s { }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_bytes(b: [u8; 16]) -> (r: Uuid) ensures r == Uuid::of(b@) { unimplemented!() }
}
broadcast use {BytesMut::vx_of, BytesMut::vx_ext, Uuid::vx_len, Uuid::vx_of};
