fn rt_vec<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k] == x,
{
    let mut r = Vec::new();
    let mut k: usize = 0;
    while k < n
        invariant k <= n, r@.len() == k, forall|j: int| 0 <= j < k ==> #[trigger] r@[j] == x,
        decreases n - k,
    {
        r.push(x);
        k = k + 1;
    }
    r
}
// ------------------------------------------------------------ triangular tables

/// position of the pair (i, j), i < j
spec fn tix(i: int, j: int) -> int { (j * (j - 1)) / 2 + i }
proof fn lemma_tix(i: int, j: int, n: int)
    requires 0 <= i < j < n,
    ensures 0 <= j * (j - 1), 0 <= tix(i, j) < (n * (n - 1)) / 2, j * (j - 1) <= n * (n - 1), (j * (j - 1)) / 2 + j == ((j + 1) * j) / 2,
{
    assert(j * (j - 1) >= 0) by(nonlinear_arith) requires j >= 1;
    assert((j + 1) * j == j * (j - 1) + 2 * j) by(nonlinear_arith);
    assert((j + 1) * j <= n * (n - 1)) by(nonlinear_arith) requires 0 < j, j + 1 <= n;
}
proof fn lemma_tix_inj(i: int, j: int, p: int, q: int)
    requires 0 <= i < j, 0 <= p < q,
    ensures tix(i, j) == tix(p, q) <==> (i == p && j == q),
{
    if j < q { lemma_tix(i, j, j + 1); lemma_tix(0, q, q + 1); lemma_tix_mono(j + 1, q); }
    if q < j { lemma_tix(p, q, q + 1); lemma_tix(0, j, j + 1); lemma_tix_mono(q + 1, j); }
}
proof fn lemma_tix_mono(a: int, b: int)
    requires 1 <= a <= b,
    ensures (a * (a - 1)) / 2 <= (b * (b - 1)) / 2,
{
    assert(a * (a - 1) <= b * (b - 1)) by(nonlinear_arith) requires 1 <= a <= b;
}
struct TriangularStoreIndex(usize);
impl Copy for TriangularStoreIndex {}
impl Clone for TriangularStoreIndex {
    fn clone(&self) -> (r: TriangularStoreIndex)
        ensures r == *self,
    { TriangularStoreIndex(self.0) }
}
//@types Self=Self; V=I; Vec2=V2
//@struct src/tesselate/min_weight_dynamic.rs TriangularStore
impl<T: Copy> TriangularStore<T> {
    spec fn ok(self) -> bool { self.n >= 2 && self.n * (self.n - 1) <= usize::MAX && self.data@.len() == (self.n * (self.n - 1)) / 2 }
    spec fn sp(self, i: int, j: int) -> T { self.data@[tix(i, j)] }
//@fn src/tesselate/min_weight_dynamic.rs impl TriangularStore :: new
//@retty TriangularStore<T>
//@ret r
    requires 2 <= n, n * (n - 1) <= usize::MAX,
    ensures r.ok(), r.n == n, forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] r.sp(i, j) == default,
//@post
        proof { assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] vx_ret.sp(i, j) == default by { lemma_tix(i, j, n as int); } }
//@endfn
//@fn src/tesselate/min_weight_dynamic.rs impl TriangularStore :: index
//@name index
//@ret r
    requires self.ok(), i < j < self.n,
    ensures r.0 == tix(i as int, j as int),
//@pre
        proof { lemma_tix(i as int, j as int, self.n as int); }
//@endfn
//@fn src/tesselate/min_weight_dynamic.rs impl Index<(usize,usize)> for TriangularStore :: index
//@name at2
//@retty &T
//@ret r
//@generics
//@recv &self
//@indexed self
    requires self.ok(), p0.0 < p0.1 < self.n,
    ensures *r == self.sp(p0.0 as int, p0.1 as int),
//@pre
        proof { lemma_tix(p0.0 as int, p0.1 as int, self.n as int); }
//@endfn
//@fn src/tesselate/min_weight_dynamic.rs impl Index<TriangularStoreIndex> for TriangularStore :: index
//@name at1
//@retty &T
//@ret r
//@generics
//@recv &self
    requires i.0 < self.data@.len(),
    ensures *r == self.data@[i.0 as int],
//@endfn
//@fn src/tesselate/min_weight_dynamic.rs impl IndexMut<(usize,usize)> for TriangularStore :: index_mut
//@name at2_mut
//@retty &mut T
//@ret r
//@generics
//@recv &mut self
//@indexed self
    requires old(self).ok(), p0.0 < p0.1 < old(self).n,
    ensures final(self).ok(), final(self).n == old(self).n, *r == old(self).sp(p0.0 as int, p0.1 as int),
        forall|i: int, j: int| 0 <= i < j < old(self).n ==> #[trigger] final(self).sp(i, j) == if (i, j) == (p0.0 as int, p0.1 as int) { *final(r) } else { old(self).sp(i, j) },
//@pre
        proof {
            lemma_tix(p0.0 as int, p0.1 as int, self.n as int);
            assert forall|i: int, j: int| 0 <= i < j < self.n implies 0 <= #[trigger] tix(i, j) < self.data@.len() && (tix(i, j) == tix(p0.0 as int, p0.1 as int) <==> (i == p0.0 && j == p0.1)) by {
                lemma_tix(i, j, self.n as int); lemma_tix_inj(i, j, p0.0 as int, p0.1 as int); }
        }
//@endfn
//@fn src/tesselate/min_weight_dynamic.rs impl IndexMut<TriangularStoreIndex> for TriangularStore :: index_mut
//@name at1_mut
//@retty &mut T
//@ret r
//@generics
//@recv &mut self
    requires i.0 < old(self).data@.len(),
    ensures final(self).n == old(self).n, *r == old(self).data@[i.0 as int], final(self).data@ == old(self).data@.update(i.0 as int, *final(r)),
//@endfn
}
