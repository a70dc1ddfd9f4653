// ---- assumed: bytes::BytesMut / bytes::Buf. Allocation never fails and lengths stay below
// isize::MAX (both panic/abort in the real crate).
pub open spec fn le16(s: Seq<u8>) -> int { s[0] as int + 0x100 * s[1] as int }
pub open spec fn le32(s: Seq<u8>) -> int { s[0] as int + 0x100 * s[1] as int + 0x1_0000 * s[2] as int + 0x100_0000 * s[3] as int }
#[verifier::external_body]
pub struct VxSpare { x: u8 }
impl View for VxSpare { type V = Seq<Option<u8>>; uninterp spec fn view(&self) -> Seq<Option<u8>>; }
impl VxSpare {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
#[verifier::external_body]
pub struct BytesMut { x: u8 }
impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub open spec fn vx_init(s: Seq<Option<u8>>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] s[i]) is Some }
pub open spec fn vx_vals(s: Seq<Option<u8>>, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| s[i]->0) }
impl BytesMut {
    /// the allocated but unused tail of the buffer
    pub uninterp spec fn spare(&self) -> Seq<Option<u8>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), self@.len() + self.spare().len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) ensures r == self@.len() + self.spare().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@, final(self).spare().len() >= n { unimplemented!() }
    #[verifier::external_body]
    pub fn spare_capacity_mut(&mut self) -> (r: &mut VxSpare)
        ensures (*r)@ == old(self).spare(), final(self)@ == old(self)@, final(self).spare() == (*final(r))@ { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn set_len(&mut self, n: usize)
        requires
            n <= old(self)@.len() + old(self).spare().len(), //@C14
            vx_init(old(self).spare(), n - old(self)@.len()), //@C14
        ensures
            n >= old(self)@.len() ==> final(self)@ == old(self)@ + vx_vals(old(self).spare(), n - old(self)@.len()),
            n < old(self)@.len() ==> final(self)@ == old(self)@.take(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend_from_slice<S: VxBytes>(&mut self, s: S) ensures final(self)@ == old(self)@ + s.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn split_to(&mut self, n: usize) -> (r: BytesMut)
        requires n <= old(self)@.len(), //@C11
        ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_off(&mut self, n: usize) -> (r: BytesMut)
        requires n <= old(self)@.len(), //@C11
        ensures final(self)@ == old(self)@.take(n as int), r@ == old(self)@.skip(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn split(&mut self) -> (r: BytesMut) ensures r@ == old(self)@, final(self)@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize)
        ensures final(self)@ == (if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn advance(&mut self, n: usize)
        requires n <= old(self)@.len(), //@C11
        ensures final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
    // deref to a slice
    #[verifier::external_body]
    pub fn vx_arg(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_all(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_to(&self, n: usize) -> (r: &[u8])
        requires n <= self@.len(), //@C11
        ensures r@ == self@.take(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_from(&self, n: usize) -> (r: &[u8])
        requires n <= self@.len(), //@C11
        ensures r@ == self@.skip(n as int) { unimplemented!() }
}
pub trait VxBuf {
    spec fn rest(&self) -> Seq<u8>;
    fn get_u32_le(&mut self) -> (r: u32)
        requires old(self).rest().len() >= 4, //@C11
        ensures r == le32(old(self).rest()), final(self).rest() == old(self).rest().skip(4);
}
impl VxBuf for &[u8] {
    open spec fn rest(&self) -> Seq<u8> { (*self)@ }
    #[verifier::external_body]
    fn get_u32_le(&mut self) -> (r: u32) { unimplemented!() }
}
impl VxBuf for BytesMut {
    open spec fn rest(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn get_u32_le(&mut self) -> (r: u32) { unimplemented!() }
}
/// deref coercion to a byte slice
pub trait VxBytes: Sized { spec fn bytes(&self) -> Seq<u8>; }
impl VxBytes for &[u8] { open spec fn bytes(&self) -> Seq<u8> { (*self)@ } }
impl VxBytes for &BytesMut { open spec fn bytes(&self) -> Seq<u8> { (*self)@ } }
