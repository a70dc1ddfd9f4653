// ---- assumed: num_enum's derived conversions (spelled out from the discriminants by the extraction)
pub mod vx_conv {
use vstd::prelude::*; use super::VxErr;
pub trait VxDisc: Sized {
    spec fn vx_of(b: u8) -> Option<Self>;
    spec fn vx_to(self) -> u8;
    fn vx_disc(self) -> (r: u8) ensures r == self.vx_to();
    fn vx_try(b: u8) -> (r: Result<Self, VxErr>) ensures r is Ok <==> Self::vx_of(b) is Some, r is Ok ==> Self::vx_of(b) == Some(r->Ok_0);
    proof fn vx_inv(self) ensures Self::vx_of(self.vx_to()) == Some(self);
}
pub trait VxTryInto<T>: Sized { spec fn vx_conv(self) -> Option<T>; fn vx_try_into(self) -> (r: Result<T, VxErr>)
    ensures r is Ok <==> self.vx_conv() is Some, r is Ok ==> self.vx_conv() == Some(r->Ok_0); }
impl<T: VxDisc> VxTryInto<T> for u8 { open spec fn vx_conv(self) -> Option<T> { T::vx_of(self) }
    // is T::vx_try (a call of it from the default method of an extracted trait is beyond the verifier)
    #[verifier::external_body]
    fn vx_try_into(self) -> (r: Result<T, VxErr>) { T::vx_try(self) } }
impl VxTryInto<u32> for usize { open spec fn vx_conv(self) -> Option<u32> { if self <= u32::MAX { Some(self as u32) } else { None } }
    fn vx_try_into(self) -> (r: Result<u32, VxErr>) { if self <= 0xffff_ffff { Ok(self as u32) } else { Err(VxErr) } } }
}
pub use vx_conv::*;
