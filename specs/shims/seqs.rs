// proved facts about sequences
pub mod vx_seqs {
use vstd::prelude::*;
pub broadcast proof fn vx_s1<T>(s: Seq<T>, n: int) requires n == s.len() ensures #[trigger] s.take(n) == s { assert(s.take(n) =~= s); }
pub broadcast proof fn vx_s2<T>(a: Seq<T>, b: Seq<T>, n: int) requires 0 <= n <= a.len() ensures #[trigger] (a + b).take(n) == a.take(n) { assert((a + b).take(n) =~= a.take(n)); }
pub broadcast proof fn vx_s3<T>(a: Seq<T>, b: Seq<T>, n: int) requires 0 <= n <= a.len() ensures #[trigger] (a + b).skip(n) == a.skip(n) + b { assert((a + b).skip(n) =~= a.skip(n) + b); }
pub broadcast proof fn vx_s4<T>(s: Seq<T>, n: int) requires n == s.len() ensures #[trigger] s.skip(n) == Seq::<T>::empty() { assert(s.skip(n) =~= Seq::empty()); }
pub broadcast proof fn vx_s5<T>(s: Seq<T>) ensures #[trigger] s.skip(0) == s { assert(s.skip(0) =~= s); }
pub broadcast proof fn vx_s6<T>(a: Seq<T>, b: Seq<T>) requires b.len() == 0 ensures #[trigger] (a + b) == a { assert(a + b =~= a); }
pub broadcast proof fn vx_s7<T>(a: Seq<T>, b: Seq<T>) requires a.len() == 0 ensures #[trigger] (a + b) == b { assert(a + b =~= b); }
pub broadcast proof fn vx_s8<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn vx_s9<T>(s: Seq<T>, n: int) requires 0 <= n <= s.len() ensures #![trigger s.take(n), s.skip(n)] s.take(n) + s.skip(n) == s { assert(s.take(n) + s.skip(n) =~= s); }
pub broadcast group vx_seq { vx_s1, vx_s2, vx_s3, vx_s4, vx_s5, vx_s6, vx_s7, vx_s8, vx_s9 }
}
broadcast use vx_seqs::vx_seq;
