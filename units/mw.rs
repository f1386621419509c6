// Minimum-weight triangulation by dynamic programming. Weights are exact reals extended by the two
// infinities the code uses as markers.

pub struct X { x: f64 }
impl Copy for X {}
impl Clone for X {
    #[verifier::external_body]
    fn clone(&self) -> (r: X)
        ensures r == *self,
    { unimplemented!() }
}
/// value of a weight
pub enum W { Neg, Fin(real), Inf }
pub open spec fn wadd(a: W, b: W) -> W {
    match (a, b) { (W::Fin(x), W::Fin(y)) => W::Fin(x + y), (W::Inf, _) => W::Inf, (_, W::Inf) => W::Inf, _ => W::Neg }
}
pub open spec fn wlt(a: W, b: W) -> bool {
    match (a, b) { (W::Fin(x), W::Fin(y)) => x < y, (W::Neg, W::Neg) => false, (W::Neg, _) => true, (W::Fin(_), W::Inf) => true, _ => false }
}
impl X {
    pub uninterp spec fn w(self) -> W;
    #[verifier::external_body]
    fn inf() -> (r: X) ensures r.w() == W::Inf, { unimplemented!() }
    #[verifier::external_body]
    fn neg_inf() -> (r: X) ensures r.w() == W::Neg, { unimplemented!() }
    #[verifier::external_body]
    fn zero() -> (r: X) ensures r.w() == W::Fin(0real), { unimplemented!() }
}
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
impl AddSpecImpl for X { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: X) -> bool { true } open spec fn add_spec(self, o: X) -> X { arbitrary() } }
impl core::ops::Add for X { type Output = X;
    // the sum of the two infinities is not used
    #[verifier::external_body]
    fn add(self, o: X) -> (r: X) ensures r.w() == wadd(self.w(), o.w()) || (self.w() is Inf && o.w() is Neg) || (self.w() is Neg && o.w() is Inf), { unimplemented!() } }
impl PartialEqSpecImpl for X { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &X) -> bool { self.w() == o.w() } }
impl core::cmp::PartialEq for X { #[verifier::external_body] fn eq(&self, o: &X) -> (r: bool) { unimplemented!() } }
impl PartialOrdSpecImpl for X {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &X) -> Option<core::cmp::Ordering> {
        if wlt(self.w(), o.w()) { Some(core::cmp::Ordering::Less) } else if wlt(o.w(), self.w()) { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) }
    }
}
impl core::cmp::PartialOrd for X { #[verifier::external_body] fn partial_cmp(&self, o: &X) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }

pub struct V2 { x: f64, y: f64 }
impl Copy for V2 {}
impl Clone for V2 {
    #[verifier::external_body]
    fn clone(&self) -> (r: V2)
        ensures r == *self,
    { unimplemented!() }
}
/// distance of two points: symmetric and finite
uninterp spec fn dist(a: V2, b: V2) -> real;
impl V2 {
    #[verifier::external_body]
    fn distance(&self, o: &V2) -> (r: X)
        ensures r.w() == W::Fin(dist(*self, *o)), dist(*self, *o) == dist(*o, *self),
    { unimplemented!() }
}
/// which chords of a polygon lie inside it, as the crate's predicate decides it
uninterp spec fn chord_ok(ps: Seq<V2>, i: int, j: int) -> bool;
struct Poly { ps: Vec<V2> }
impl Poly {
    spec fn pts(self) -> Seq<V2> { self.ps@ }
    fn from_iter(it: GIter<V2>) -> (r: Poly)
        ensures r.pts() == it.rest(),
    { Poly { ps: it.v } }
    #[verifier::external_body]
    fn valid_diagonal(&self, i: usize, j: usize) -> (r: bool)
        requires i < self.pts().len(), j < self.pts().len(),
        ensures r == chord_ok(self.pts(), i as int, j as int),
    { unimplemented!() }
}
