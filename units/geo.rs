// Scalars and plane vectors.  Machine arithmetic is read as exact real arithmetic; `v` is the value.

pub struct S { x: f64 }
impl Copy for S {}
impl Clone for S {
    #[verifier::external_body]
    fn clone(&self) -> (r: S)
        ensures r == *self,
    { unimplemented!() }
}
impl S {
    pub uninterp spec fn v(self) -> real;
    #[verifier::external_body]
    proof fn ext(a: S, b: S)
        ensures a.v() == b.v() ==> a == b,
    {}
    uninterp spec fn mk(x: real) -> S;
    #[verifier::external_body]
    broadcast proof fn mk_v(x: real)
        ensures #[trigger] S::mk(x).v() == x,
    {}
}
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
impl AddSpecImpl for S { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: S) -> bool { true } open spec fn add_spec(self, o: S) -> S { arbitrary() } }
impl core::ops::Add for S { type Output = S;
    #[verifier::external_body]
    fn add(self, o: S) -> (r: S) ensures r.v() == self.v() + o.v(), { unimplemented!() } }
impl SubSpecImpl for S { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: S) -> bool { true } open spec fn sub_spec(self, o: S) -> S { arbitrary() } }
impl core::ops::Sub for S { type Output = S;
    #[verifier::external_body]
    fn sub(self, o: S) -> (r: S) ensures r.v() == self.v() - o.v(), { unimplemented!() } }
impl MulSpecImpl for S { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: S) -> bool { true } open spec fn mul_spec(self, o: S) -> S { arbitrary() } }
impl core::ops::Mul for S { type Output = S;
    #[verifier::external_body]
    fn mul(self, o: S) -> (r: S) ensures r.v() == self.v() * o.v(), { unimplemented!() } }
impl DivSpecImpl for S { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: S) -> bool { true } open spec fn div_spec(self, o: S) -> S { arbitrary() } }
impl core::ops::Div for S { type Output = S;
    #[verifier::external_body]
    fn div(self, o: S) -> (r: S) ensures o.v() != 0real ==> r.v() == self.v() / o.v(), { unimplemented!() } }
impl NegSpecImpl for S { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> S { arbitrary() } }
impl core::ops::Neg for S { type Output = S;
    #[verifier::external_body]
    fn neg(self) -> (r: S) ensures r.v() == 0real - self.v(), { unimplemented!() } }
impl AddAssignSpecImpl for S { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, o: S) -> bool { true } open spec fn add_assign_spec(&self, o: S) -> &S { arbitrary() } }
impl core::ops::AddAssign for S {
    #[verifier::external_body]
    fn add_assign(&mut self, o: S) ensures final(self).v() == old(self).v() + o.v(), { unimplemented!() } }
impl SubAssignSpecImpl for S { open spec fn obeys_sub_assign_spec() -> bool { false } open spec fn sub_assign_req(&self, o: S) -> bool { true } open spec fn sub_assign_spec(&self, o: S) -> &S { arbitrary() } }
impl core::ops::SubAssign for S {
    #[verifier::external_body]
    fn sub_assign(&mut self, o: S) ensures final(self).v() == old(self).v() - o.v(), { unimplemented!() } }
impl MulAssignSpecImpl for S { open spec fn obeys_mul_assign_spec() -> bool { false } open spec fn mul_assign_req(&self, o: S) -> bool { true } open spec fn mul_assign_spec(&self, o: S) -> &S { arbitrary() } }
impl core::ops::MulAssign for S {
    #[verifier::external_body]
    fn mul_assign(&mut self, o: S) ensures final(self).v() == old(self).v() * o.v(), { unimplemented!() } }
impl PartialEqSpecImpl for S { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &S) -> bool { self.v() == o.v() } }
impl core::cmp::PartialEq for S { #[verifier::external_body] fn eq(&self, o: &S) -> (r: bool) { unimplemented!() } }
impl PartialOrdSpecImpl for S {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &S) -> Option<core::cmp::Ordering> {
        if self.v() < o.v() { Some(core::cmp::Ordering::Less) } else if self.v() > o.v() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) }
    }
}
impl core::cmp::PartialOrd for S { #[verifier::external_body] fn partial_cmp(&self, o: &S) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }

spec fn rabs(x: real) -> real { if x < 0real { 0real - x } else { x } }
/// the square root as an uninterpreted function with its defining property
uninterp spec fn rsqrt(x: real) -> real;

impl S {
    // sign of zero is left open: the crate asks for the sign bit
    #[verifier::external_body]
    fn is_positive(self) -> (r: bool)
        ensures self.v() > 0real ==> r, self.v() < 0real ==> !r,
    { unimplemented!() }
    #[verifier::external_body]
    fn is_negative(self) -> (r: bool)
        ensures self.v() < 0real ==> r, self.v() > 0real ==> !r,
    { unimplemented!() }
    #[verifier::external_body]
    fn zero() -> (r: S)
        ensures r.v() == 0real,
    { unimplemented!() }
    #[verifier::external_body]
    fn one() -> (r: S)
        ensures r.v() == 1real,
    { unimplemented!() }
    #[verifier::external_body]
    fn two() -> (r: S)
        ensures r.v() == 2real,
    { unimplemented!() }
    #[verifier::external_body]
    fn half() -> (r: S)
        ensures r.v() == 0.5real,
    { unimplemented!() }
    #[verifier::external_body]
    fn eps() -> (r: S)
        ensures r.v() > 0real,
    { unimplemented!() }
    #[verifier::external_body]
    fn sqrt(self) -> (r: S)
        ensures r.v() == rsqrt(self.v()),
    { unimplemented!() }
    #[verifier::external_body]
    fn from_usize(n: usize) -> (r: S)
        ensures r.v() == n as real,
    { unimplemented!() }
//@types Self=S; S::ZERO=S::zero(); S::ONE=S::one(); S::HALF=S::half(); S::TWO=S::two(); S::EPS=S::eps()
//@fn src/math/scalar.rs trait Scalar :: abs
//@ret r
    ensures r.v() == rabs(self.v()),
//@endfn
//@fn src/math/scalar.rs trait Scalar :: lerp
//@ret r
    ensures r.v() == self.v() + (other.v() - self.v()) * t.v(),
//@endfn
//@fn src/math/scalar.rs trait Scalar :: clamp
//@ret r
    requires min.v() <= max.v(),
    ensures r.v() == (if self.v() < min.v() { min.v() } else if max.v() < self.v() { max.v() } else { self.v() }),
//@endfn
//@fn src/math/scalar.rs trait Scalar :: is_about
//@ret r
    ensures r == (rabs(self.v() - other.v()) < epsilon.v()),
//@endfn
//@fn src/math/scalar.rs trait Scalar :: det3
//@ret r
    ensures r.v() == a.v() * (e.v() * i.v() - f.v() * h.v()) - b.v() * (d.v() * i.v() - f.v() * g.v()) + c.v() * (d.v() * h.v() - e.v() * g.v()),
//@endfn
}
