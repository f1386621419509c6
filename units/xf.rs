// extensions::nalgebra: NdAffine and the default vertex payload, over exact real matrices of any size.
// D is the dimension; the unit is checked for several.

const D: usize = $DIM$;

/// nalgebra's matrices, seen through their entries
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SMatrix<T, const R: usize, const C: usize> { t: core::marker::PhantomData<T> }
type VecN<T, const N: usize> = SMatrix<T, N, 1>;
type SVector<T, const N: usize> = SMatrix<T, N, 1>;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct DMatrix<T> { t: core::marker::PhantomData<T> }

pub open spec fn dot(a: spec_fn(int) -> real, b: spec_fn(int) -> real, n: int) -> real
    decreases n,
{
    if n <= 0 { 0real } else { dot(a, b, n - 1) + a(n - 1) * b(n - 1) }
}
spec fn delta(i: int, j: int) -> real { if i == j { 1real } else { 0real } }

impl<const R: usize, const C: usize> Copy for SMatrix<S, R, C> {}
impl<const R: usize, const C: usize> Clone for SMatrix<S, R, C> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
impl<const R: usize, const C: usize> SMatrix<S, R, C> {
    pub uninterp spec fn at(self, i: int, j: int) -> real;
    #[verifier::external_body]
    fn identity() -> (r: Self) ensures forall|i: int, j: int| #[trigger] r.at(i, j) == delta(i, j), { unimplemented!() }
    #[verifier::external_body]
    fn zeros() -> (r: Self) ensures forall|i: int, j: int| #[trigger] r.at(i, j) == 0real, { unimplemented!() }
    #[verifier::external_body]
    fn from_diagonal(v: &SMatrix<S, R, 1>) -> (r: Self) ensures is_diag(r, *v), { unimplemented!() }
    #[verifier::external_body]
    fn component_mul(&self, o: &Self) -> (r: Self) ensures forall|i: int, j: int| #[trigger] r.at(i, j) == self.at(i, j) * o.at(i, j), { unimplemented!() }
    #[verifier::external_body]
    fn into_owned(self) -> (r: Self) ensures r == self, { unimplemented!() }
    #[verifier::external_body]
    fn lerp(&self, o: &Self, t: S) -> (r: Self) ensures forall|i: int, j: int| #[trigger] r.at(i, j) == self.at(i, j) * (1real - t.v()) + o.at(i, j) * t.v(), { unimplemented!() }
    // entries column by column
    fn iter(&self) -> (r: &Self) ensures r == self, { self }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == R * C, { unimplemented!() }
    #[verifier::external_body]
    fn at1_mut(&mut self, k: usize) -> (r: &mut S)
        requires k < R * C,
        ensures (*r).v() == old(self).at(k as int % R as int, k as int / R as int), final(self).at(k as int % R as int, k as int / R as int) == (*final(r)).v(),
            forall|i: int, j: int| (i, j) != (k as int % R as int, k as int / R as int) ==> #[trigger] final(self).at(i, j) == old(self).at(i, j),
    { unimplemented!() }
    #[verifier::external_body]
    fn at1(&self, k: usize) -> (r: &S) requires k < R * C, ensures r.v() == self.at(k as int % R as int, k as int / R as int), { unimplemented!() }
}
spec fn is_diag<const R: usize, const C: usize>(r: SMatrix<S, R, C>, v: SMatrix<S, R, 1>) -> bool {
    forall|i: int, j: int| #[trigger] r.at(i, j) == (if i == j { v.at(i, 0) } else { 0real })
}
pub open spec fn mprod<const R: usize, const K: usize, const C: usize>(a: SMatrix<S, R, K>, b: SMatrix<S, K, C>, r: SMatrix<S, R, C>) -> bool {
    forall|i: int, j: int| #[trigger] r.at(i, j) == dot(|k: int| a.at(i, k), |k: int| b.at(k, j), K as int)
}
impl<const R: usize, const K: usize, const C: usize> MulSpecImpl<SMatrix<S, K, C>> for SMatrix<S, R, K> { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: SMatrix<S, K, C>) -> bool { true } open spec fn mul_spec(self, o: SMatrix<S, K, C>) -> SMatrix<S, R, C> { arbitrary() } }
impl<const R: usize, const K: usize, const C: usize> core::ops::Mul<SMatrix<S, K, C>> for SMatrix<S, R, K> { type Output = SMatrix<S, R, C>;
    #[verifier::external_body]
    fn mul(self, o: SMatrix<S, K, C>) -> (r: SMatrix<S, R, C>) ensures mprod(self, o, r), { unimplemented!() } }
impl<const R: usize, const C: usize> AddSpecImpl for SMatrix<S, R, C> { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: Self) -> bool { true } open spec fn add_spec(self, o: Self) -> Self { arbitrary() } }
impl<const R: usize, const C: usize> core::ops::Add for SMatrix<S, R, C> { type Output = Self;
    #[verifier::external_body]
    fn add(self, o: Self) -> (r: Self) ensures forall|i: int, j: int| #[trigger] r.at(i, j) == self.at(i, j) + o.at(i, j), { unimplemented!() } }
impl<const R: usize, const C: usize> AddAssignSpecImpl for SMatrix<S, R, C> { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, o: Self) -> bool { true } open spec fn add_assign_spec(&self, o: Self) -> &Self { arbitrary() } }
impl<const R: usize, const C: usize> core::ops::AddAssign for SMatrix<S, R, C> {
    #[verifier::external_body]
    fn add_assign(&mut self, o: Self) ensures forall|i: int, j: int| #[trigger] final(self).at(i, j) == old(self).at(i, j) + o.at(i, j), { unimplemented!() } }

/// a writable block of a matrix
#[verifier::external_body]
struct ViewMut<'a> { m: &'a mut DMatrix<S> }
impl<'a> ViewMut<'a> {
    uninterp spec fn of(self) -> &'a mut DMatrix<S>;
    uninterp spec fn pos(self) -> (int, int);
    pub uninterp spec fn shape(self) -> (int, int);
    #[verifier::external_body]
    fn copy_from<const R: usize, const C: usize>(self, o: &SMatrix<S, R, C>)
        requires self.shape() == (R as int, C as int),
        ensures
            final(self.of()).shape() == self.of().shape(),
            forall|i: int, j: int| #[trigger] final(self.of()).at(i, j) == (if self.pos().0 <= i < self.pos().0 + R && self.pos().1 <= j < self.pos().1 + C { o.at(i - self.pos().0, j - self.pos().1) } else { self.of().at(i, j) }),
    { unimplemented!() }
}
impl DMatrix<S> {
    pub uninterp spec fn at(self, i: int, j: int) -> real;
    pub uninterp spec fn shape(self) -> (int, int);
    #[verifier::external_body]
    fn identity(r: usize, c: usize) -> (m: Self) ensures m.shape() == (r as int, c as int), forall|i: int, j: int| #[trigger] m.at(i, j) == delta(i, j), { unimplemented!() }
    #[verifier::external_body]
    fn nrows(&self) -> (r: usize) ensures r == self.shape().0, { unimplemented!() }
    #[verifier::external_body]
    fn ncols(&self) -> (r: usize) ensures r == self.shape().1, { unimplemented!() }
    #[verifier::external_body]
    fn view_mut<'a>(&'a mut self, p: (usize, usize), s: (usize, usize)) -> (r: ViewMut<'a>)
        requires p.0 + s.0 <= old(self).shape().0, p.1 + s.1 <= old(self).shape().1,
        ensures *r.of() == *old(self), *final(r.of()) == *final(self), r.pos() == (p.0 as int, p.1 as int), r.shape() == (s.0 as int, s.1 as int),
    { unimplemented!() }
    #[verifier::external_body]
    fn fixed_view<const R: usize, const C: usize>(&self, i: usize, j: usize) -> (r: SMatrix<S, R, C>)
        requires i + R <= self.shape().0, j + C <= self.shape().1,
        ensures forall|a: int, b: int| 0 <= a < R && 0 <= b < C ==> #[trigger] r.at(a, b) == self.at(i + a, j + b),
    { unimplemented!() }
}
impl MulSpecImpl<DMatrix<S>> for DMatrix<S> { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: DMatrix<S>) -> bool { true } open spec fn mul_spec(self, o: DMatrix<S>) -> DMatrix<S> { arbitrary() } }
impl core::ops::Mul<DMatrix<S>> for DMatrix<S> { type Output = DMatrix<S>;
    #[verifier::external_body]
    fn mul(self, o: DMatrix<S>) -> (r: DMatrix<S>)
        ensures self.shape().1 == o.shape().0 ==> product(self, o, r),
    { unimplemented!() } }
pub open spec fn product(a: DMatrix<S>, b: DMatrix<S>, r: DMatrix<S>) -> bool {
    &&& r.shape() == (a.shape().0, b.shape().1)
    &&& forall|i: int, j: int| #[trigger] r.at(i, j) == dot(|k: int| a.at(i, k), |k: int| b.at(k, j), a.shape().1)
}

#[verifier::external_body]
struct NdRotate { p: u8 }
impl Clone for NdRotate {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
impl NdRotate {
    uninterp spec fn m(self) -> SMatrix<S, D, D>;
    #[verifier::external_body]
    fn to_matrix(&self) -> (r: SMatrix<S, D, D>) ensures r == self.m(), { unimplemented!() }
}

//@types S=S; D=D; Self::Vec=VecN<S,D>; Self::Rot=NdRotate; NdRotate<S,D>=NdRotate; Self=NdAffine
//@struct src/extensions/nalgebra/math/transform_n.rs NdAffine

type V = SMatrix<S, D, 1>;
/// what the transformation does to a point / to a direction, entry by entry
spec fn lin(m: SMatrix<S, D, D>, v: V, i: int) -> real { dot(|k: int| m.at(i, k), |k: int| v.at(k, 0), D as int) }
spec fn pt(a: NdAffine, v: V, i: int) -> real { lin(a.matrix, v, i) + a.translation.at(i, 0) }

impl NdAffine {
//@fn src/extensions/nalgebra/math/transform_n.rs impl NdAffine :: new
//@ret r
        ensures r.matrix == matrix, r.translation == translation,
//@endfn
//@fn src/extensions/nalgebra/math/transform_n.rs impl NdAffine :: as_matrix
//@ret r
        ensures augmented(r, *self),
//@endfn
//@fn src/extensions/nalgebra/math/transform_n.rs impl NdAffine :: from_matrix
//@ret r
//@indexed v_0
        requires m.shape() == (D + 1, D + 1), forall|j: int| 0 <= j < D ==> #[trigger] m.at(D as int, j) == 0real,
        ensures from_mat(m, r),
//@loop 0
            invariant i_0 <= D, res_0, forall|j: int| 0 <= j < D ==> #[trigger] v_0.at(0, j) == 0real,
            decreases D - i_0,
//@endfn
}
spec fn from_mat(m: DMatrix<S>, r: NdAffine) -> bool {
    &&& forall|i: int, j: int| 0 <= i < D && 0 <= j < D ==> #[trigger] r.matrix.at(i, j) == m.at(i, j)
    &&& forall|i: int| 0 <= i < D ==> #[trigger] r.translation.at(i, 0) == m.at(i, D as int)
}
spec fn augmented(m: DMatrix<S>, a: NdAffine) -> bool {
    &&& m.shape() == (D + 1, D + 1)
    &&& forall|i: int, j: int| 0 <= i < D && 0 <= j < D ==> #[trigger] m.at(i, j) == a.matrix.at(i, j)
    &&& forall|i: int| 0 <= i < D ==> #[trigger] m.at(i, D as int) == a.translation.at(i, 0)
    &&& forall|j: int| 0 <= j <= D ==> #[trigger] m.at(D as int, j) == delta(D as int, j)
}

proof fn lemma_dot_ext(a: spec_fn(int) -> real, b: spec_fn(int) -> real, c: spec_fn(int) -> real, d: spec_fn(int) -> real, n: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] a(k) == c(k), forall|k: int| 0 <= k < n ==> #[trigger] b(k) == d(k),
    ensures dot(a, b, n) == dot(c, d, n),
    decreases n,
{
    if n > 0 { lemma_dot_ext(a, b, c, d, n - 1); assert(a(n - 1) == c(n - 1)); assert(b(n - 1) == d(n - 1)); }
}
/// a row of the identity picks one entry; a multiple of it scales that entry
proof fn lemma_dot_delta(i: int, s: real, b: spec_fn(int) -> real, n: int)
    ensures dot(|k: int| if i == k { s } else { 0real }, b, n) == (if 0 <= i < n { s * b(i) } else { 0real }),
    decreases n,
{
    if n > 0 { lemma_dot_delta(i, s, b, n - 1); assert(0real * b(n - 1) == 0real) by (nonlinear_arith); }
}
proof fn lemma_dot_scale(a: spec_fn(int) -> real, b: spec_fn(int) -> real, s: real, n: int)
    ensures dot(|k: int| s * a(k), b, n) == s * dot(a, b, n),
    decreases n,
{
    if n > 0 {
        lemma_dot_scale(a, b, s, n - 1);
        let (x, y, z) = (a(n - 1), b(n - 1), dot(a, b, n - 1));
        assert((s * x) * y + s * z == s * (z + x * y)) by (nonlinear_arith);
    } else { assert(s * 0real == 0real) by (nonlinear_arith); }
}
/// sum of x_k (P_k + Q_k)
proof fn lemma_dot_add(x: spec_fn(int) -> real, p: spec_fn(int) -> real, q: spec_fn(int) -> real, n: int)
    ensures dot(x, |k: int| p(k) + q(k), n) == dot(x, p, n) + dot(x, q, n),
    decreases n,
{
    if n > 0 {
        lemma_dot_add(x, p, q, n - 1);
        let (a, b, c) = (x(n - 1), p(n - 1), q(n - 1));
        assert(a * (b + c) == a * b + a * c) by (nonlinear_arith);
    }
}
/// (row times matrix) times vector = row times (matrix times vector)
proof fn lemma_dot_assoc(b: spec_fn(int) -> real, a: spec_fn(int, int) -> real, v: spec_fn(int) -> real, n: int, m: int)
    ensures dot(|j: int| dot(b, |k: int| a(k, j), n), v, m) == dot(b, |k: int| dot(|j: int| a(k, j), v, m), n),
    decreases n,
{
    if n > 0 {
        lemma_dot_assoc(b, a, v, n - 1, m);
        let bn = b(n - 1);
        let f = |j: int| dot(b, |k: int| a(k, j), n);
        let g = |j: int| dot(b, |k: int| a(k, j), n - 1);
        let h = |j: int| bn * a(n - 1, j);
        lemma_dot_addl(g, h, v, m);
        lemma_dot_ext(f, v, |j: int| g(j) + h(j), v, m);
        lemma_dot_scale(|j: int| a(n - 1, j), v, bn, m);
        lemma_dot_ext(h, v, |j: int| bn * (|j: int| a(n - 1, j))(j), v, m);
    } else {
        lemma_dot_zero(|j: int| dot(b, |k: int| a(k, j), n), v, m);
    }
}
proof fn lemma_dot_zero(z: spec_fn(int) -> real, v: spec_fn(int) -> real, m: int)
    requires forall|j: int| #[trigger] z(j) == 0real,
    ensures dot(z, v, m) == 0real,
    decreases m,
{
    if m > 0 { lemma_dot_zero(z, v, m - 1); assert(0real * v(m - 1) == 0real) by (nonlinear_arith); }
}
proof fn lemma_dot_addl(p: spec_fn(int) -> real, q: spec_fn(int) -> real, x: spec_fn(int) -> real, n: int)
    ensures dot(|k: int| p(k) + q(k), x, n) == dot(p, x, n) + dot(q, x, n),
    decreases n,
{
    if n > 0 {
        lemma_dot_addl(p, q, x, n - 1);
        let (a, b, c) = (x(n - 1), p(n - 1), q(n - 1));
        assert((b + c) * a == b * a + c * a) by (nonlinear_arith);
    }
}
/// the vector with the given entries
spec fn is_vec(w: V, f: spec_fn(int) -> real) -> bool { forall|i: int| 0 <= i < D ==> #[trigger] w.at(i, 0) == f(i) }
proof fn lemma_chain(a: NdAffine, b: NdAffine, c: NdAffine, ma: DMatrix<S>, mb: DMatrix<S>, mc: DMatrix<S>)
    requires augmented(ma, a), augmented(mb, b),
        product(mb, ma, mc), from_mat(mc, c),
    ensures composed(a, b, c),
{
    let d = D as int;
    assert forall|v: V, i: int| 0 <= i < D implies #[trigger] pt(c, v, i) == dot(|k: int| b.matrix.at(i, k), |k: int| pt(a, v, k), d) + b.translation.at(i, 0)
        && lin(c.matrix, v, i) == dot(|k: int| b.matrix.at(i, k), |k: int| lin(a.matrix, v, k), d) by {
        let bi = |k: int| b.matrix.at(i, k);
        let vv = |k: int| v.at(k, 0);
        // entries of the product
        assert forall|j: int| 0 <= j < d implies #[trigger] c.matrix.at(i, j) == dot(bi, |k: int| a.matrix.at(k, j), d) by {
            assert(c.matrix.at(i, j) == mc.at(i, j));
            let (p, q) = (|k: int| mb.at(i, k), |k: int| ma.at(k, j));
            lemma_dot_ext(p, q, bi, |k: int| a.matrix.at(k, j), d);
            assert(ma.at(d, j) == 0real);
            assert(mb.at(i, d) * 0real == 0real) by (nonlinear_arith);
            assert(dot(p, q, d + 1) == dot(p, q, d) + p(d) * q(d));
        }
        assert(c.translation.at(i, 0) == dot(bi, |k: int| a.translation.at(k, 0), d) + b.translation.at(i, 0)) by {
            assert(c.translation.at(i, 0) == mc.at(i, d));
            let (p, q) = (|k: int| mb.at(i, k), |k: int| ma.at(k, d));
            lemma_dot_ext(p, q, bi, |k: int| a.translation.at(k, 0), d);
            assert(ma.at(d, d) == 1real); assert(mb.at(i, d) == b.translation.at(i, 0));
            assert(dot(p, q, d + 1) == dot(p, q, d) + p(d) * q(d));
        }
        let am = |k: int, j: int| a.matrix.at(k, j);
        let rows = |j: int| c.matrix.at(i, j);
        let prod = |j: int| dot(bi, |k: int| am(k, j), d);
        assert forall|j: int| 0 <= j < d implies #[trigger] rows(j) == prod(j) by {
            lemma_dot_ext(bi, |k: int| a.matrix.at(k, j), bi, |k: int| am(k, j), d);
            assert(c.matrix.at(i, j) == dot(bi, |k: int| a.matrix.at(k, j), d));
        }
        lemma_dot_ext(rows, vv, prod, vv, d);
        lemma_dot_assoc(bi, am, vv, d, d);
        lemma_dot_ext(prod, vv, |j: int| dot(bi, |k: int| am(k, j), d), vv, d);
        let lk = |k: int| lin(a.matrix, v, k);
        let lj = |k: int| dot(|j: int| am(k, j), vv, d);
        let tk = |k: int| a.translation.at(k, 0);
        assert forall|k: int| 0 <= k < d implies #[trigger] lj(k) == lk(k) by {
            lemma_dot_ext(|j: int| am(k, j), vv, |j: int| a.matrix.at(k, j), |j: int| v.at(j, 0), d);
        }
        lemma_dot_ext(bi, lj, bi, lk, d);
        lemma_dot_ext(bi, |k: int| dot(|j: int| am(k, j), vv, d), bi, lj, d);
        lemma_dot_ext(rows, vv, |k: int| c.matrix.at(i, k), |k: int| v.at(k, 0), d);
        lemma_dot_add(bi, lk, tk, d);
        lemma_dot_ext(bi, |k: int| lk(k) + tk(k), |k: int| b.matrix.at(i, k), |k: int| pt(a, v, k), d);
        lemma_dot_ext(bi, lk, |k: int| b.matrix.at(i, k), |k: int| lin(a.matrix, v, k), d);
        lemma_dot_ext(bi, tk, bi, |k: int| a.translation.at(k, 0), d);
    }
}
spec fn composed(a: NdAffine, b: NdAffine, c: NdAffine) -> bool {
    forall|v: V, i: int| 0 <= i < D ==>
        #[trigger] pt(c, v, i) == dot(|k: int| b.matrix.at(i, k), |k: int| pt(a, v, k), D as int) + b.translation.at(i, 0)
        && lin(c.matrix, v, i) == dot(|k: int| b.matrix.at(i, k), |k: int| lin(a.matrix, v, k), D as int)
}

impl NdAffine {
//@fn src/extensions/nalgebra/math/transform_n.rs impl Default for NdAffine :: default
//@ret r
        ensures forall|v: V, i: int| 0 <= i < D ==> #[trigger] pt(r, v, i) == v.at(i, 0), forall|v: V, i: int| 0 <= i < D ==> #[trigger] lin(r.matrix, v, i) == v.at(i, 0),
//@post
        proof { assert forall|v: V, i: int| 0 <= i < D implies #[trigger] pt(vx_ret, v, i) == v.at(i, 0) by { lemma_diag(vx_ret.matrix, v, i, 1real); }
            assert forall|v: V, i: int| 0 <= i < D implies #[trigger] lin(vx_ret.matrix, v, i) == v.at(i, 0) by { lemma_diag(vx_ret.matrix, v, i, 1real); } }
//@endfn
//@fn src/extensions/nalgebra/math/transform_n.rs impl TransformTrait for NdAffine :: identity
//@ret r
        ensures forall|v: V, i: int| 0 <= i < D ==> #[trigger] pt(r, v, i) == v.at(i, 0), forall|v: V, i: int| 0 <= i < D ==> #[trigger] lin(r.matrix, v, i) == v.at(i, 0),
//@endfn
//@fn src/extensions/nalgebra/math/transform_n.rs impl TransformTrait for NdAffine :: apply
//@ret r
        ensures forall|i: int| 0 <= i < D ==> #[trigger] r.at(i, 0) == pt(*self, v, i),
//@endfn
//@fn src/extensions/nalgebra/math/transform_n.rs impl TransformTrait for NdAffine :: apply_vec
//@ret r
        // directions: no translation
        ensures forall|i: int| 0 <= i < D ==> #[trigger] r.at(i, 0) == lin(self.matrix, v, i),
//@endfn
//@fn src/extensions/nalgebra/math/transform_n.rs impl TransformTrait for NdAffine :: from_rotation
//@name from_rotation
//@ret res
        ensures forall|v: V, i: int| 0 <= i < D ==> #[trigger] pt(res, v, i) == lin(r.m(), v, i), forall|v: V, i: int| 0 <= i < D ==> #[trigger] lin(res.matrix, v, i) == lin(r.m(), v, i),
//@endfn
//@fn src/extensions/nalgebra/math/transform_n.rs impl TransformTrait for NdAffine :: from_scale
//@param v: VecN<S,D>
//@ret r
        ensures forall|w: V, i: int| 0 <= i < D ==> #[trigger] pt(r, w, i) == v.at(i, 0) * w.at(i, 0), forall|w: V, i: int| 0 <= i < D ==> #[trigger] lin(r.matrix, w, i) == v.at(i, 0) * w.at(i, 0),
//@post
        proof { assert forall|w: V, i: int| 0 <= i < D implies #[trigger] pt(vx_ret, w, i) == v.at(i, 0) * w.at(i, 0) by { lemma_diag(vx_ret.matrix, w, i, v.at(i, 0)); }
            assert forall|w: V, i: int| 0 <= i < D implies #[trigger] lin(vx_ret.matrix, w, i) == v.at(i, 0) * w.at(i, 0) by { lemma_diag(vx_ret.matrix, w, i, v.at(i, 0)); } }
//@endfn
//@fn src/extensions/nalgebra/math/transform_n.rs impl TransformTrait for NdAffine :: from_translation
//@ret r
        ensures forall|w: V, i: int| 0 <= i < D ==> #[trigger] pt(r, w, i) == w.at(i, 0) + v.at(i, 0), forall|w: V, i: int| 0 <= i < D ==> #[trigger] lin(r.matrix, w, i) == w.at(i, 0),
//@post
        proof { assert forall|w: V, i: int| 0 <= i < D implies #[trigger] pt(vx_ret, w, i) == w.at(i, 0) + v.at(i, 0) by { lemma_diag(vx_ret.matrix, w, i, 1real); }
            assert forall|w: V, i: int| 0 <= i < D implies #[trigger] lin(vx_ret.matrix, w, i) == w.at(i, 0) by { lemma_diag(vx_ret.matrix, w, i, 1real); } }
//@endfn
//@fn src/extensions/nalgebra/math/transform_n.rs impl TransformTrait for NdAffine :: with_scale
//@ret r
        // everything is scaled, also what was there before
        ensures forall|w: V, i: int| 0 <= i < D ==> #[trigger] pt(r, w, i) == v.at(i, 0) * pt(*self, w, i), forall|w: V, i: int| 0 <= i < D ==> #[trigger] lin(r.matrix, w, i) == v.at(i, 0) * lin(self.matrix, w, i),
//@post
        proof { assert forall|w: V, i: int| 0 <= i < D implies #[trigger] pt(vx_ret, w, i) == v.at(i, 0) * pt(*self, w, i) by { lemma_entries(*self, vx_ret, v); lemma_with_scale(*self, vx_ret, v, w, i); }
            assert forall|w: V, i: int| 0 <= i < D implies #[trigger] lin(vx_ret.matrix, w, i) == v.at(i, 0) * lin(self.matrix, w, i) by { lemma_entries(*self, vx_ret, v); lemma_with_scale(*self, vx_ret, v, w, i); } }
//@endfn
//@fn src/extensions/nalgebra/math/transform_n.rs impl TransformTrait for NdAffine :: with_translation
//@ret r
        ensures forall|w: V, i: int| 0 <= i < D ==> #[trigger] pt(r, w, i) == pt(*self, w, i) + v.at(i, 0), forall|w: V, i: int| 0 <= i < D ==> #[trigger] lin(r.matrix, w, i) == lin(self.matrix, w, i),
//@endfn
//@fn src/extensions/nalgebra/math/transform_n.rs impl TransformTrait for NdAffine :: chain
//@ret r
        // first self, then other
        ensures composed(*self, *other, r),
//@pre
        proof { lemma_chain_all(*self, *other); }
//@endfn
}
proof fn lemma_diag(m: SMatrix<S, D, D>, v: V, i: int, s: real)
    requires 0 <= i < D, forall|j: int| #[trigger] m.at(i, j) == (if i == j { s } else { 0real }),
    ensures lin(m, v, i) == s * v.at(i, 0), s == 1real ==> lin(m, v, i) == v.at(i, 0),
{
    lemma_dot_delta(i, s, |k: int| v.at(k, 0), D as int);
    lemma_dot_ext(|k: int| m.at(i, k), |k: int| v.at(k, 0), |k: int| if i == k { s } else { 0real }, |k: int| v.at(k, 0), D as int);
}
/// entries of diagonal matrix times matrix
proof fn lemma_entries(a: NdAffine, r: NdAffine, v: V)
    requires exists|m: SMatrix<S, D, D>| #[trigger] is_diag(m, v) && mprod(m, a.matrix, r.matrix),
    ensures forall|i: int, j: int| 0 <= i < D && 0 <= j < D ==> #[trigger] r.matrix.at(i, j) == v.at(i, 0) * a.matrix.at(i, j),
{
    let m = choose|m: SMatrix<S, D, D>| #[trigger] is_diag(m, v) && mprod(m, a.matrix, r.matrix);
    assert forall|i: int, j: int| 0 <= i < D && 0 <= j < D implies #[trigger] r.matrix.at(i, j) == v.at(i, 0) * a.matrix.at(i, j) by {
        lemma_entry(m, a.matrix, r.matrix, v.at(i, 0), i, j);
    }
}
proof fn lemma_entry(m: SMatrix<S, D, D>, a: SMatrix<S, D, D>, r: SMatrix<S, D, D>, s: real, i: int, j: int)
    requires 0 <= i < D, mprod(m, a, r), forall|k: int| #[trigger] m.at(i, k) == (if i == k { s } else { 0real }),
    ensures r.at(i, j) == s * a.at(i, j),
{
    let q = |k: int| a.at(k, j);
    lemma_dot_ext(|k: int| m.at(i, k), |k: int| a.at(k, j), |k: int| if i == k { s } else { 0real }, q, D as int);
    lemma_dot_delta(i, s, q, D as int);
}
proof fn lemma_with_scale(a: NdAffine, r: NdAffine, v: V, w: V, i: int)
    requires 0 <= i < D,
        forall|i: int, j: int| #[trigger] r.translation.at(i, j) == a.translation.at(i, j) * v.at(i, j),
        forall|i: int, j: int| 0 <= i < D && 0 <= j < D ==> #[trigger] r.matrix.at(i, j) == v.at(i, 0) * a.matrix.at(i, j),
    ensures pt(r, w, i) == v.at(i, 0) * pt(a, w, i), lin(r.matrix, w, i) == v.at(i, 0) * lin(a.matrix, w, i),
{
    let s = v.at(i, 0);
    let row = |k: int| a.matrix.at(i, k);
    let x = |k: int| w.at(k, 0);
    lemma_dot_scale(row, x, s, D as int);
    lemma_dot_ext(|k: int| r.matrix.at(i, k), x, |k: int| s * row(k), x, D as int);
    lemma_dot_ext(|k: int| r.matrix.at(i, k), |k: int| w.at(k, 0), |k: int| r.matrix.at(i, k), x, D as int);
    lemma_dot_ext(row, x, |k: int| a.matrix.at(i, k), |k: int| w.at(k, 0), D as int);
    let (l, t) = (lin(a.matrix, w, i), a.translation.at(i, 0));
    assert(s * l + t * s == s * (l + t)) by (nonlinear_arith);
}

/// what is known about any product of the two augmented matrices
proof fn lemma_chain_all(a: NdAffine, b: NdAffine)
    ensures
        forall|ma: DMatrix<S>, mb: DMatrix<S>, mc: DMatrix<S>, j: int| augmented(ma, a) && augmented(mb, b) && #[trigger] product(mb, ma, mc) && 0 <= j < D ==>
            #[trigger] mc.at(D as int, j) == 0real,
        forall|ma: DMatrix<S>, mb: DMatrix<S>, mc: DMatrix<S>, c: NdAffine| augmented(ma, a) && augmented(mb, b) && #[trigger] product(mb, ma, mc) && #[trigger] from_mat(mc, c)
            ==> composed(a, b, c),
{
    assert forall|ma: DMatrix<S>, mb: DMatrix<S>, mc: DMatrix<S>, j: int| augmented(ma, a) && augmented(mb, b) && #[trigger] product(mb, ma, mc) && 0 <= j < D implies
            #[trigger] mc.at(D as int, j) == 0real by {
        let d = D as int;
        let (p, q) = (|k: int| mb.at(d, k), |k: int| ma.at(k, j));
        lemma_dot_ext(p, q, |k: int| if d == k { 1real } else { 0real }, q, d + 1);
        lemma_dot_delta(d, 1real, q, d + 1);
    }
    assert forall|ma: DMatrix<S>, mb: DMatrix<S>, mc: DMatrix<S>, c: NdAffine| augmented(ma, a) && augmented(mb, b) && #[trigger] product(mb, ma, mc) && #[trigger] from_mat(mc, c)
        implies composed(a, b, c) by { lemma_chain(a, b, c, ma, mb, mc); }
}

// ---- vectors, vertex payloads and curved edges under transformations
type E2 = SMatrix<S, 2, 1>;
spec fn moved(t: NdAffine, a: V, b: V) -> bool { forall|i: int| 0 <= i < D ==> #[trigger] b.at(i, 0) == pt(t, a, i) }
spec fn turned(t: NdAffine, a: V, b: V) -> bool { forall|i: int| 0 <= i < D ==> #[trigger] b.at(i, 0) == lin(t.matrix, a, i) }
spec fn shifted(d: V, a: V, b: V) -> bool { forall|i: int| 0 <= i < D ==> #[trigger] b.at(i, 0) == a.at(i, 0) + d.at(i, 0) }
spec fn stretched(d: V, a: V, b: V) -> bool { forall|i: int| 0 <= i < D ==> #[trigger] b.at(i, 0) == a.at(i, 0) * d.at(i, 0) }
spec fn between(a: V, b: V, t: real, r: V) -> bool { forall|i: int| 0 <= i < D ==> #[trigger] r.at(i, 0) == a.at(i, 0) * (1real - t) + b.at(i, 0) * t }

//@struct src/extensions/nalgebra/default_vertex_payload.rs VertexPayloadPNU
impl Copy for VertexPayloadPNU {}
impl Clone for VertexPayloadPNU {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
type P = VertexPayloadPNU;
//@types Self::Trans=NdAffine; Self::S=S; VertexPayloadPNU<S,D>=VertexPayloadPNU; NdAffine<S,D>=NdAffine; Self=VertexPayloadPNU; VecN=_
spec fn p_move(t: NdAffine, a: P, b: P) -> bool { moved(t, a.position, b.position) && turned(t, a.normal, b.normal) && b.uv == a.uv }
spec fn p_shift(d: V, a: P, b: P) -> bool { shifted(d, a.position, b.position) && b.normal == a.normal && b.uv == a.uv }
spec fn p_stretch(d: V, a: P, b: P) -> bool { stretched(d, a.position, b.position) && stretched(d, a.normal, b.normal) && b.uv == a.uv }
spec fn p_rot(q: NdRotate, a: P, b: P) -> bool {
    &&& forall|i: int| 0 <= i < D ==> #[trigger] b.position.at(i, 0) == lin(q.m(), a.position, i)
    &&& forall|i: int| 0 <= i < D ==> #[trigger] b.normal.at(i, 0) == lin(q.m(), a.normal, i)
    &&& b.uv == a.uv
}
spec fn p_lerp(a: P, o: P, t: real, b: P) -> bool {
    &&& between(a.position, o.position, t, b.position) && between(a.normal, o.normal, t, b.normal)
    &&& forall|i: int| 0 <= i < 2 ==> #[trigger] b.uv.at(i, 0) == a.uv.at(i, 0) * (1real - t) + o.uv.at(i, 0) * t
}
impl VertexPayloadPNU {
//@fn src/extensions/nalgebra/default_vertex_payload.rs impl VertexPayload for VertexPayloadPNU :: allocate
//@ret r
        ensures forall|i: int, j: int| #[trigger] r.position.at(i, j) == 0real, forall|i: int, j: int| #[trigger] r.normal.at(i, j) == 0real, forall|i: int, j: int| #[trigger] r.uv.at(i, j) == 0real,
//@endfn
//@fn src/extensions/nalgebra/default_vertex_payload.rs impl Transformable for VertexPayloadPNU :: translate
//@ret r
        ensures p_shift(*v, *old(self), *r), *final(self) == *final(r),
//@endfn
//@fn src/extensions/nalgebra/default_vertex_payload.rs impl Transformable for VertexPayloadPNU :: transform
//@ret r
        ensures p_move(*t, *old(self), *r), *final(self) == *final(r),
//@endfn
//@fn src/extensions/nalgebra/default_vertex_payload.rs impl Transformable for VertexPayloadPNU :: lerp
//@ret r
        ensures p_lerp(*old(self), *_other, t.v(), *r), *final(self) == *final(r),
//@endfn
//@fn src/math/transformable.rs trait Transformable :: scale
//@ret r
        ensures p_stretch(*s, *old(self), *r), *final(self) == *final(r),
//@endfn
//@fn src/math/transformable.rs trait Transformable :: rotate
//@ret res
        ensures p_rot(*r, *old(self), *res), *final(self) == *final(res),
//@endfn
//@fn src/math/transformable.rs trait Transformable :: transformed
//@ret c
        ensures p_move(*t, *self, c),
//@endfn
//@fn src/math/transformable.rs trait Transformable :: translated
//@ret c
        ensures p_shift(*v, *self, c),
//@endfn
//@fn src/math/transformable.rs trait Transformable :: scaled
//@ret c
        ensures p_stretch(*s, *self, c),
//@endfn
//@fn src/math/transformable.rs trait Transformable :: rotated
//@ret c
        ensures p_rot(*r, *self, c),
//@endfn
//@fn src/math/transformable.rs trait Transformable :: lerped
//@ret c
        ensures p_lerp(*self, *other, t.v(), c),
//@endfn
//@fn src/extensions/nalgebra/default_vertex_payload.rs impl HasPosition for VertexPayloadPNU :: from_pos
//@ret r
        ensures r.position == v, forall|i: int, j: int| #[trigger] r.normal.at(i, j) == 0real, forall|i: int, j: int| #[trigger] r.uv.at(i, j) == 0real,
//@endfn
//@fn src/extensions/nalgebra/default_vertex_payload.rs impl HasPosition for VertexPayloadPNU :: pos
//@ret r
        ensures *r == self.position,
//@endfn
//@fn src/extensions/nalgebra/default_vertex_payload.rs impl HasPosition for VertexPayloadPNU :: set_pos
        ensures final(self).position == v, final(self).normal == old(self).normal, final(self).uv == old(self).uv,
//@endfn
//@fn src/extensions/nalgebra/default_vertex_payload.rs impl HasNormal for VertexPayloadPNU :: normal
//@ret r
        ensures *r == self.normal,
//@endfn
//@fn src/extensions/nalgebra/default_vertex_payload.rs impl HasNormal for VertexPayloadPNU :: set_normal
        ensures final(self).normal == normal, final(self).position == old(self).position, final(self).uv == old(self).uv,
//@endfn
//@fn src/extensions/nalgebra/default_vertex_payload.rs impl HasUV for VertexPayloadPNU :: uv
//@ret r
        ensures *r == self.uv,
//@endfn
//@fn src/extensions/nalgebra/default_vertex_payload.rs impl HasUV for VertexPayloadPNU :: set_uv
        ensures final(self).uv == uv, final(self).position == old(self).position, final(self).normal == old(self).normal,
//@endfn
}

//@types Self=_; Self=V; VecN<S,D>=V
impl SMatrix<S, D, 1> {
//@fn src/extensions/nalgebra/math/vec_n.rs impl Transformable for VecN :: transform
//@ret r
        ensures moved(*t, *old(self), *r), *final(self) == *final(r),
//@endfn
//@fn src/extensions/nalgebra/math/vec_n.rs impl Transformable for VecN :: translate
//@ret r
        ensures shifted(*v, *old(self), *r), *final(self) == *final(r),
//@endfn
//@fn src/extensions/nalgebra/math/vec_n.rs impl Transformable for VecN :: scale
//@indexed self s
//@ret r
        ensures stretched(*s, *old(self), *r), *final(self) == *final(r),
//@pre
        let ghost vx_a = *self;
//@loop 0
            invariant forall|i: int| 0 <= i < D ==> #[trigger] self.at(i, 0) == (if i < i_0 { vx_a.at(i, 0) * s.at(i, 0) } else { vx_a.at(i, 0) }),
                end_0 == D,
            decreases end_0 - i_0,
//@lstart 0
                proof { lemma_col(i_0 as int);  }
//@endfn
//@fn src/extensions/nalgebra/math/vec_n.rs impl Transformable for VecN :: lerp
//@name lerp_in_place
//@indexed self other
//@ret r
        ensures between(*old(self), *other, t.v(), *r), *final(self) == *final(r),
//@pre
        let ghost vx_a = *self;
//@loop 0
            invariant forall|i: int| 0 <= i < D ==> #[trigger] self.at(i, 0) == (if i < i_0 { vx_a.at(i, 0) * (1real - t.v()) + other.at(i, 0) * t.v() } else { vx_a.at(i, 0) }),
                end_0 == D,
            decreases end_0 - i_0,
//@lstart 0
                proof { lemma_col(i_0 as int); lemma_lerp(vx_a.at(i_0 as int, 0), other.at(i_0 as int, 0), t.v()); }
//@endfn
}
proof fn lemma_col(k: int)
    requires 0 <= k < D,
    ensures k % (D as int) == k, k / (D as int) == 0, D * 1 == D,
{ assert(k % (D as int) == k && k / (D as int) == 0) by (nonlinear_arith) requires 0 <= k < D; }
proof fn lemma_lerp(a: real, b: real, t: real)
    ensures a + (b - a) * t == a * (1real - t) + b * t,
{ assert(a + (b - a) * t == a * (1real - t) + b * t) by (nonlinear_arith); }

// curved edges: the control points move with the mesh
//@types T::Vec=V; CurvedEdgeType<D,T>=CurvedEdgeType; Self::Trans=NdAffine; Self=CurvedEdgePayload
//@enum src/mesh/edge/curved.rs CurvedEdgeType
//@types T=_; D=_
//@struct src/mesh/edge/payload.rs CurvedEdgePayload
spec fn c_move(t: NdAffine, a: CurvedEdgeType, b: CurvedEdgeType) -> bool {
    match (a, b) {
        (CurvedEdgeType::Linear, CurvedEdgeType::Linear) => true,
        (CurvedEdgeType::QuadraticBezier(p), CurvedEdgeType::QuadraticBezier(q)) => moved(t, p, q),
        (CurvedEdgeType::CubicBezier(p, p2), CurvedEdgeType::CubicBezier(q, q2)) => moved(t, p, q) && moved(t, p2, q2),
        _ => false,
    }
}
impl CurvedEdgePayload {
//@fn src/mesh/edge/payload.rs impl Transformable for CurvedEdgePayload :: transform
//@ret r
        ensures c_move(*t, old(self).curve, r.curve), *final(self) == *final(r),
//@endfn
//@fn src/math/transformable.rs trait Transformable :: translate
//@ret r
        ensures exists|t: NdAffine| #[trigger] c_move(t, old(self).curve, r.curve) && (forall|w: V, i: int| 0 <= i < D ==> #[trigger] pt(t, w, i) == w.at(i, 0) + v.at(i, 0)), *final(self) == *final(r),
//@endfn
//@fn src/math/transformable.rs trait Transformable :: scale
//@ret r
        ensures exists|t: NdAffine| #[trigger] c_move(t, old(self).curve, r.curve) && (forall|w: V, i: int| 0 <= i < D ==> #[trigger] pt(t, w, i) == s.at(i, 0) * w.at(i, 0)), *final(self) == *final(r),
//@endfn
//@fn src/math/transformable.rs trait Transformable :: rotate
//@ret res
        ensures exists|t: NdAffine| #[trigger] c_move(t, old(self).curve, res.curve) && (forall|w: V, i: int| 0 <= i < D ==> #[trigger] pt(t, w, i) == lin(r.m(), w, i)), *final(self) == *final(res),
//@endfn
}
