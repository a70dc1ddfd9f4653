// ---- assumed: bytes::{Buf, BufMut} (a failing try_* leaves the buffer alone)
pub trait BufMut {
    /// what has been written
    spec fn out(&self) -> Seq<u8>;
    fn put_u8(&mut self, b: u8) ensures final(self).out() == old(self).out() + seq![b];
    fn put_i8(&mut self, b: i8) ensures final(self).out() == old(self).out() + seq![b as u8];
    fn put_slice(&mut self, s: &[u8]) ensures final(self).out() == old(self).out() + s@;
    fn put_u32_le(&mut self, n: u32) ensures final(self).out() == old(self).out() + le4(n);
    fn put_u64_le(&mut self, n: u64) ensures final(self).out() == old(self).out() + le8(n);
}
impl BufMut for BytesMut {
    open spec fn out(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn put_u8(&mut self, b: u8) { unimplemented!() }
    #[verifier::external_body]
    fn put_i8(&mut self, b: i8) { unimplemented!() }
    #[verifier::external_body]
    fn put_slice(&mut self, s: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn put_u32_le(&mut self, n: u32) { unimplemented!() }
    #[verifier::external_body]
    fn put_u64_le(&mut self, n: u64) { unimplemented!() }
}
pub trait Buf {
    /// what is left to read
    spec fn rest(&self) -> Seq<u8>;
    fn remaining(&self) -> (r: usize) ensures r == self.rest().len();
    fn chunk(&self) -> (r: &[u8]) ensures r@ == self.rest();
    fn advance(&mut self, n: usize)
        requires n <= old(self).rest().len(), //@C07,C13,C01
        ensures final(self).rest() == old(self).rest().skip(n as int);
    fn copy_to_bytes(&mut self, n: usize) -> (r: RawBytes)
        requires n <= old(self).rest().len(), //@C07,C13,C01
        ensures r@ == old(self).rest().take(n as int), final(self).rest() == old(self).rest().skip(n as int);
    fn try_copy_to_slice(&mut self, d: &mut [u8]) -> (r: Result<(), VxErr>)
        ensures r is Ok <==> old(self).rest().len() >= old(d)@.len(),
            r is Ok ==> final(d)@ == old(self).rest().take(old(d)@.len() as int) && final(self).rest() == old(self).rest().skip(old(d)@.len() as int),
            r is Err ==> final(self).rest() == old(self).rest() && final(d)@ == old(d)@;
    fn try_get_u8(&mut self) -> (r: Result<u8, VxErr>)
        ensures r is Ok <==> old(self).rest().len() > 0,
            r is Ok ==> r->Ok_0 == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            r is Err ==> final(self).rest() == old(self).rest();
    fn try_get_i8(&mut self) -> (r: Result<i8, VxErr>)
        ensures r is Ok <==> old(self).rest().len() > 0,
            r is Ok ==> r->Ok_0 == old(self).rest()[0] as i8 && final(self).rest() == old(self).rest().skip(1),
            r is Err ==> final(self).rest() == old(self).rest();
    fn try_get_f32_le(&mut self) -> (r: Result<f32, VxErr>)
        ensures r is Ok <==> gb(4, old(self).rest()) is Some,
            r is Ok ==> vx_bits4(r->Ok_0) == un4(gb(4, old(self).rest())->Some_0.0) && final(self).rest() == gb(4, old(self).rest())->Some_0.1,
            r is Err ==> final(self).rest() == old(self).rest();
    fn try_get_f64_le(&mut self) -> (r: Result<f64, VxErr>)
        ensures r is Ok <==> gb(8, old(self).rest()) is Some,
            r is Ok ==> vx_bits8(r->Ok_0) == un8(gb(8, old(self).rest())->Some_0.0) && final(self).rest() == gb(8, old(self).rest())->Some_0.1,
            r is Err ==> final(self).rest() == old(self).rest();
}
impl Buf for &[u8] {
    open spec fn rest(&self) -> Seq<u8> { (*self)@ }
    #[verifier::external_body]
    fn remaining(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn chunk(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn advance(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body]
    fn copy_to_bytes(&mut self, n: usize) -> (r: RawBytes) { unimplemented!() }
    #[verifier::external_body]
    fn try_copy_to_slice(&mut self, d: &mut [u8]) -> (r: Result<(), VxErr>) { unimplemented!() }
    #[verifier::external_body]
    fn try_get_u8(&mut self) -> (r: Result<u8, VxErr>) { unimplemented!() }
    #[verifier::external_body]
    fn try_get_i8(&mut self) -> (r: Result<i8, VxErr>) { unimplemented!() }
    #[verifier::external_body]
    fn try_get_f32_le(&mut self) -> (r: Result<f32, VxErr>) { unimplemented!() }
    #[verifier::external_body]
    fn try_get_f64_le(&mut self) -> (r: Result<f64, VxErr>) { unimplemented!() }
}
/// bytes::Bytes
#[verifier::external_body]
pub struct RawBytes { x: Vec<u8> }
impl View for RawBytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
// ---- assumed: the bits of floating point numbers
pub uninterp spec fn vx_bits4(f: f32) -> u32;
pub uninterp spec fn vx_bits8(f: f64) -> u64;
pub assume_specification [f32::to_bits] (x: f32) -> (r: u32) ensures r == vx_bits4(x);
pub assume_specification [f64::to_bits] (x: f64) -> (r: u64) ensures r == vx_bits8(x);
// ---- assumed: core array and integer methods
pub trait VxLe2 { fn vx_le(&self) -> (r: [u8; 2]) ensures r@ == le2(self.vx_n()); spec fn vx_n(&self) -> u16; }
impl VxLe2 for u16 {
    open spec fn vx_n(&self) -> u16 { *self }
    #[verifier::external_body]
    fn vx_le(&self) -> (r: [u8; 2]) { unimplemented!() }
}
pub trait VxLe8 { fn vx_le(&self) -> (r: [u8; 8]) ensures r@ == le8(self.vx_n()); spec fn vx_n(&self) -> u64; }
impl VxLe8 for u64 {
    open spec fn vx_n(&self) -> u64 { *self }
    #[verifier::external_body]
    fn vx_le(&self) -> (r: [u8; 8]) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_u16_from_le(b: [u8; 2]) -> (r: u16) ensures r == un2(b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_u64_from_le(b: [u8; 8]) -> (r: u64) ensures r == un8(b@) { unimplemented!() }
impl VxSlice for [u8] {
    open spec fn vx_seq(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_to(&self, n: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_from(&self, n: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_range(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_all_mut(&mut self) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_mut(&mut self, n: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn vx_range_mut(&mut self, a: usize, b: usize) -> (r: &mut [u8]) { unimplemented!() }
}

// ---- assumed: strings are their UTF-8 bytes
pub uninterp spec fn utf8(s: Seq<u8>) -> bool;
#[verifier::external_body]
pub struct VxStr { x: std::string::String }
impl View for VxStr { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl VxStr {
    #[verifier::external_body]
    pub broadcast proof fn vx_valid(&self) ensures utf8(#[trigger] self@), self@.len() <= vx_max_len() { }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
broadcast use VxStr::vx_valid;
impl RawBytes { pub fn into(self) -> (r: RawBytes) ensures r == self { self } }
#[verifier::external_body]
pub fn vx_from_utf8(b: RawBytes) -> (r: Result<VxStr, VxErr>) ensures r is Ok <==> utf8(b@), r is Ok ==> r->Ok_0@ == b@ { unimplemented!() }
impl Uuid {
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
// (the value of a fill expression is unknown inside default methods of traits)
#[verifier::external_body] pub fn vx_zeros<const N: usize>() -> (r: [u8; N]) ensures r@ == zeros(N as int) { [0u8; N] }
