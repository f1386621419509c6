// Sums and means of vectors of any dimension: an abstract vector is known by its coordinates.

pub struct XV { x: f64 }
impl Copy for XV {}
impl Clone for XV {
    #[verifier::external_body]
    fn clone(&self) -> (r: XV)
        ensures r == *self,
    { unimplemented!() }
}
impl AddSpecImpl for XV { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: XV) -> bool { true } open spec fn add_spec(self, o: XV) -> XV { arbitrary() } }
impl core::ops::Add for XV { type Output = XV;
    #[verifier::external_body]
    fn add(self, o: XV) -> (r: XV) ensures forall|k: int| #[trigger] r.c(k) == self.c(k) + o.c(k), { unimplemented!() } }
impl SubSpecImpl for XV { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: XV) -> bool { true } open spec fn sub_spec(self, o: XV) -> XV { arbitrary() } }
impl core::ops::Sub for XV { type Output = XV;
    #[verifier::external_body]
    fn sub(self, o: XV) -> (r: XV) ensures forall|k: int| #[trigger] r.c(k) == self.c(k) - o.c(k), { unimplemented!() } }
impl DivSpecImpl<S> for XV { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: S) -> bool { true } open spec fn div_spec(self, o: S) -> XV { arbitrary() } }
impl core::ops::Div<S> for XV { type Output = XV;
    #[verifier::external_body]
    fn div(self, o: S) -> (r: XV) ensures o.v() != 0real ==> forall|k: int| #[trigger] r.c(k) == self.c(k) / o.v(), { unimplemented!() } }
impl XV {
    /// the k-th coordinate
    pub uninterp spec fn c(self, k: int) -> real;
    #[verifier::external_body]
    fn zero() -> (r: XV)
        ensures forall|k: int| #[trigger] r.c(k) == 0real,
    { unimplemented!() }
}
spec fn xat(s: Seq<XV>, k: int, i: int) -> real { s[i].c(k) }
spec fn xsum(s: Seq<XV>, k: int) -> real { rsum(|i: int| xat(s, k, i), s.len() as int) }
proof fn lemma_xsum_step(s: Seq<XV>, n: int, k: int)
    requires 0 <= n < s.len(),
    ensures xsum(s.take(n + 1), k) == xsum(s.take(n), k) + s[n].c(k),
{
    let a = s.take(n); let b = s.take(n + 1);
    lemma_rsum_eq(|i: int| xat(a, k, i), |i: int| xat(b, k, i), n);
    assert(xat(b, k, n) == s[n].c(k));
}
//@types X=XV; S=S; Self=XV; Self::Item=XV; V=XV
//@fn src/math/scalar.rs free :: kahan_summation
//@generics
//@param iter: GIter<XV>
//@retty (XV, usize)
//@ret r
    requires iter.rest().len() <= usize::MAX,
    ensures forall|k: int| #[trigger] r.0.c(k) == xsum(iter.rest(), k), r.1 == iter.rest().len(),
//@pre
    let ghost vx_all = iter.rest(); let ghost mut vx_k = 0int;
//@loop 0
        invariant vx_all.len() <= usize::MAX, 0 <= vx_k <= vx_all.len(), it_0.rest() == vx_all.skip(vx_k), count == vx_k,
            forall|k: int| #[trigger] sum.c(k) - c.c(k) == xsum(vx_all.take(vx_k), k), forall|k: int| #[trigger] c.c(k) == 0real,
        ensures vx_k == vx_all.len(),
        decreases it_0.rest().len(),
//@lstart 0
        proof { if vx_k < vx_all.len() { assert(vx_all.skip(vx_k)[0] == vx_all[vx_k]); assert(vx_all.skip(vx_k).drop_first() =~= vx_all.skip(vx_k + 1));
            assert forall|k: int| #[trigger] xsum(vx_all.take(vx_k + 1), k) == xsum(vx_all.take(vx_k), k) + vx_all[vx_k].c(k) by { lemma_xsum_step(vx_all, vx_k, k); } } }
//@lend 0
        proof { vx_k = vx_k + 1; }
//@after 0
    proof { assert(vx_all.take(vx_k) =~= vx_all); assert forall|k: int| #[trigger] sum.c(k) == xsum(vx_all, k) by { assert(c.c(k) == 0real); assert(sum.c(k) - c.c(k) == xsum(vx_all.take(vx_k), k)); } }
//@endfn
impl XV {
//@fn src/math/vector.rs trait Vector :: stable_sum
//@generics
//@param iter: GIter<XV>
//@retty XV
//@ret r
    requires iter.rest().len() <= usize::MAX,
    ensures forall|k: int| #[trigger] r.c(k) == xsum(iter.rest(), k),
//@endfn
//@fn src/math/vector.rs trait Vector :: stable_mean
//@generics
//@param iter: GIter<XV>
//@retty XV
//@ret r
    requires iter.rest().len() <= usize::MAX,
    ensures iter.rest().len() > 0 ==> forall|k: int| #[trigger] r.c(k) == xsum(iter.rest(), k) / (iter.rest().len() as real),
//@endfn
}
impl GIter<XV> {
//@fn src/math/vector.rs trait VectorIteratorExt :: stable_sum
//@retty XV
//@where
//@ret r
    requires self.rest().len() <= usize::MAX,
    ensures forall|k: int| #[trigger] r.c(k) == xsum(self.rest(), k),
//@endfn
//@fn src/math/vector.rs trait VectorIteratorExt :: stable_mean
//@retty XV
//@where
//@ret r
    requires self.rest().len() <= usize::MAX,
    ensures self.rest().len() > 0 ==> forall|k: int| #[trigger] r.c(k) == xsum(self.rest(), k) / (self.rest().len() as real),
//@endfn
}
