// ---- assumed: panics become obligations
#[verifier::external_body]
pub fn vx_unreachable() -> ! requires false { unimplemented!() }
pub fn vx_assert(b: bool) requires b { }
pub fn vx_and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
pub fn vx_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
// ---- assumed: core::mem
pub mod mem {
    use super::*;
    #[verifier::external_body]
    pub fn replace<T>(d: &mut T, s: T) -> (r: T) ensures *final(d) == s, r == *old(d) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { unimplemented!() }
    #[verifier::external_body]
    pub fn take<T>(d: &mut Option<T>) -> (r: Option<T>) ensures *final(d) == None::<T>, r == *old(d) { unimplemented!() }
}
