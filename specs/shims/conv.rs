// ---- assumed: num_enum's derived conversions (spelled out from the discriminants by the extraction)
pub mod vx_conv {
use vstd::prelude::*; use super::VxErr;
pub trait VxDisc: Sized {
    spec fn vx_of(b: u8) -> Option<Self>;
    spec fn vx_to(self) -> u8;
    fn vx_disc(self) -> (r: u8) ensures r == self.vx_to();
    fn vx_try(b: u8) -> (r: Result<Self, VxErr>) ensures r is Ok <==> Self::vx_of(b) is Some, r is Ok ==> Self::vx_of(b) == Some(r->Ok_0);
    proof fn vx_inv(self) ensures Self::vx_of(self.vx_to()) == Some(self);
}
/// `Into` for the conversions used here
pub trait VxInto<T>: Sized { spec fn vx_conv(self) -> T; fn vx_into(self) -> (r: T) ensures r == self.vx_conv(); }
impl<E: VxDisc> VxInto<u8> for E { open spec fn vx_conv(self) -> u8 { self.vx_to() } fn vx_into(self) -> (r: u8) { self.vx_disc() } }
pub trait VxTryInto { spec fn vx_byte(self) -> u8; fn vx_try_into<T: VxDisc>(self) -> (r: Result<T, VxErr>)
    ensures r is Ok <==> T::vx_of(self.vx_byte()) is Some, r is Ok ==> T::vx_of(self.vx_byte()) == Some(r->Ok_0); }
impl VxTryInto for u8 { open spec fn vx_byte(self) -> u8 { self } fn vx_try_into<T: VxDisc>(self) -> (r: Result<T, VxErr>) { T::vx_try(self) } }
}
pub use vx_conv::*;
