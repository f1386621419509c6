// Sums and means of scalars (exact arithmetic).

spec fn rsum(f: spec_fn(int) -> real, n: int) -> real
    decreases n,
{
    if n <= 0 { 0real } else { rsum(f, n - 1) + f(n - 1) }
}
spec fn vat(s: Seq<S>, i: int) -> real { s[i].v() }
spec fn gsum(s: Seq<S>) -> real { rsum(|i: int| vat(s, i), s.len() as int) }
proof fn lemma_rsum_eq(f: spec_fn(int) -> real, g: spec_fn(int) -> real, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i),
    ensures rsum(f, n) == rsum(g, n),
    decreases n,
{
    if n > 0 { lemma_rsum_eq(f, g, n - 1); }
}
proof fn lemma_gsum_step(s: Seq<S>, k: int)
    requires 0 <= k < s.len(),
    ensures gsum(s.take(k + 1)) == gsum(s.take(k)) + s[k].v(),
{
    let a = s.take(k); let b = s.take(k + 1);
    lemma_rsum_eq(|i: int| vat(a, i), |i: int| vat(b, i), k);
    assert(vat(b, k) == s[k].v());
}
//@types S=S; S::ZERO=S::zero(); Self=S; Self::Item=S; Scalar=S; Self::S=S
//@fn src/math/scalar.rs free :: neumaier_summation
//@generics
//@param iter: GIter<S>
//@retty (S, usize)
//@ret r
    requires iter.rest().len() <= usize::MAX,
    ensures r.0.v() == gsum(iter.rest()), r.1 == iter.rest().len(),
//@pre
    let ghost vx_all = iter.rest(); let ghost mut vx_k = 0int;
//@loop 0
        invariant vx_all.len() <= usize::MAX, 0 <= vx_k <= vx_all.len(), it_0.rest() == vx_all.skip(vx_k), count == vx_k, sum.v() + c.v() == gsum(vx_all.take(vx_k)),
        ensures vx_k == vx_all.len(),
        decreases it_0.rest().len(),
//@lstart 0
        proof { if vx_k < vx_all.len() { assert(vx_all.skip(vx_k)[0] == vx_all[vx_k]); assert(vx_all.skip(vx_k).drop_first() =~= vx_all.skip(vx_k + 1)); lemma_gsum_step(vx_all, vx_k); } }
//@lend 0
        proof { vx_k = vx_k + 1; }
//@post
    proof { assert(vx_all.take(vx_k) =~= vx_all); }
//@endfn
impl S {
//@fn src/math/scalar.rs trait Scalar :: stable_sum
//@generics
//@param values: GIter<S>
//@retty S
//@ret r
    requires values.rest().len() <= usize::MAX,
    ensures r.v() == gsum(values.rest()),
//@endfn
//@fn src/math/scalar.rs trait Scalar :: stable_mean
//@generics
//@param values: GIter<S>
//@retty S
//@ret r
    requires values.rest().len() <= usize::MAX,
    ensures values.rest().len() > 0 ==> r.v() == gsum(values.rest()) / (values.rest().len() as real),
//@endfn
}
impl GIter<S> {
//@fn src/math/scalar.rs trait ScalarIteratorExt :: stable_sum
//@retty S
//@where
//@ret r
    requires self.rest().len() <= usize::MAX,
    ensures r.v() == gsum(self.rest()),
//@endfn
//@fn src/math/scalar.rs trait ScalarIteratorExt :: stable_mean
//@retty S
//@where
//@ret r
    requires self.rest().len() <= usize::MAX,
    ensures self.rest().len() > 0 ==> r.v() == gsum(self.rest()) / (self.rest().len() as real),
//@endfn
}
