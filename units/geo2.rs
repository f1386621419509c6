// Plane vectors: the trait's provided methods under contract, the required ones by their definition.

pub struct V2 { x: S, y: S }
impl Copy for V2 {}
impl Clone for V2 {
    #[verifier::external_body]
    fn clone(&self) -> (r: V2)
        ensures r == *self,
    { unimplemented!() }
}
impl AddSpecImpl for V2 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: V2) -> bool { true } open spec fn add_spec(self, o: V2) -> V2 { arbitrary() } }
impl core::ops::Add for V2 { type Output = V2;
    #[verifier::external_body]
    fn add(self, o: V2) -> (r: V2) ensures r.vx() == self.vx() + o.vx(), r.vy() == self.vy() + o.vy(), { unimplemented!() } }
impl SubSpecImpl for V2 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: V2) -> bool { true } open spec fn sub_spec(self, o: V2) -> V2 { arbitrary() } }
impl core::ops::Sub for V2 { type Output = V2;
    #[verifier::external_body]
    fn sub(self, o: V2) -> (r: V2) ensures r.vx() == self.vx() - o.vx(), r.vy() == self.vy() - o.vy(), { unimplemented!() } }
spec fn det2(ax: real, ay: real, bx: real, by: real) -> real { ax * by - ay * bx }
/// twice the signed area of the triangle a b c
spec fn area2(a: V2, b: V2, c: V2) -> real {
    det2(b.vx() - a.vx(), b.vy() - a.vy(), c.vx() - a.vx(), c.vy() - a.vy())
}
spec fn dist2(a: V2, b: V2) -> real {
    (a.vx() - b.vx()) * (a.vx() - b.vx()) + (a.vy() - b.vy()) * (a.vy() - b.vy())
}
proof fn lemma_r1(ax: real, ay: real, bx: real, by_: real, cx: real, cy: real)
    ensures (bx - ax) * (cy - by_) - (by_ - ay) * (cx - bx) == (bx - ax) * (cy - ay) - (by_ - ay) * (cx - ax),
{
    assert((bx - ax) * (cy - by_) - (by_ - ay) * (cx - bx) == (bx - ax) * (cy - ay) - (by_ - ay) * (cx - ax)) by(nonlinear_arith);
}
proof fn lemma_r2(ax: real, ay: real, bx: real, by_: real, cx: real, cy: real)
    ensures (bx - ax) * (cy - ay) - (by_ - ay) * (cx - ax) == (cx - bx) * (ay - by_) - (cy - by_) * (ax - bx),
{
    lemma_r1(ax, ay, bx, by_, cx, cy);
    let (px, py, qx, qy) = (bx - ax, by_ - ay, cx - bx, cy - by_);
    assert(px * qy - py * qx == qx * (0real - py) - qy * (0real - px)) by(nonlinear_arith);
    assert(ay - by_ == 0real - py && ax - bx == 0real - px);
}
proof fn lemma_r3(ax: real, ay: real, bx: real, by_: real)
    ensures bx * ay - by_ * ax == 0real - (ax * by_ - ay * bx),
{
    assert(bx * ay - by_ * ax == 0real - (ax * by_ - ay * bx)) by(nonlinear_arith);
}
proof fn lemma_convex_is_area(a: V2, b: V2, c: V2)
    ensures det2(b.vx() - a.vx(), b.vy() - a.vy(), c.vx() - b.vx(), c.vy() - b.vy()) == area2(a, b, c),
{
    lemma_r1(a.vx(), a.vy(), b.vx(), b.vy(), c.vx(), c.vy());
}
proof fn lemma_area_rot(a: V2, b: V2, c: V2)
    ensures area2(a, b, c) == area2(b, c, a), area2(a, b, c) == area2(c, a, b), area2(a, c, b) == 0real - area2(a, b, c),
{
    lemma_r2(a.vx(), a.vy(), b.vx(), b.vy(), c.vx(), c.vy());
    lemma_r2(c.vx(), c.vy(), a.vx(), a.vy(), b.vx(), b.vy());
    lemma_r3(b.vx() - a.vx(), b.vy() - a.vy(), c.vx() - a.vx(), c.vy() - a.vy());
}
impl V2 {
    pub closed spec fn vx(self) -> real { self.x.v() }
    pub closed spec fn vy(self) -> real { self.y.v() }
    fn x(&self) -> (r: S)
        ensures r.v() == self.vx(),
    { self.x }
    fn y(&self) -> (r: S)
        ensures r.v() == self.vy(),
    { self.y }
    #[verifier::external_body]
    fn distance_squared(&self, o: &V2) -> (r: S)
        ensures r.v() == dist2(*self, *o),
    { unimplemented!() }
    #[verifier::external_body]
    fn distance(&self, o: &V2) -> (r: S)
        ensures r.v() == rsqrt(dist2(*self, *o)),
    { unimplemented!() }
    /// the signed angle at `self` from `a` to `b` is not interpreted further
    #[verifier::external_body]
    fn angle_tri(&self, a: V2, b: V2) -> (r: S)
    { unimplemented!() }
//@types Self=V2; Vec2=V2; Self::S=S; Vec2::S=S
//@fn src/math/vector2d.rs trait Vector2D :: perp_dot
//@ret r
    ensures r.v() == det2(self.vx(), self.vy(), other.vx(), other.vy()),
//@endfn
//@fn src/math/vector2d.rs trait Vector2D :: convex
//@ret r
    ensures area2(prev, *self, next) > 0real ==> r, area2(prev, *self, next) < 0real ==> !r,
//@pre
        proof { lemma_convex_is_area(prev, *self, next); }
//@endfn
//@fn src/math/vector2d.rs trait Vector2D :: collinear
//@ret r
    ensures r == (rabs(area2(a, b, *self)) <= eps.v()),
//@endfn
//@fn src/math/vector2d.rs trait Vector2D :: barycentric_sign
//@ret r
    ensures r.v() == area2(a, b, c),
//@pre
        proof { lemma_area_rot(c, a, b); }
//@endfn
//@fn src/math/vector2d.rs trait Vector2D :: is_inside_triangle
//@ret r
    ensures
        area2(*self, a, b) > 0real && area2(*self, b, c) > 0real && area2(*self, c, a) > 0real ==> r,
        area2(*self, a, b) < 0real && area2(*self, b, c) < 0real && area2(*self, c, a) < 0real ==> r,
        area2(*self, a, b) > 0real && (area2(*self, b, c) < 0real || area2(*self, c, a) < 0real) ==> !r,
        area2(*self, a, b) < 0real && (area2(*self, b, c) > 0real || area2(*self, c, a) > 0real) ==> !r,
        area2(*self, b, c) < 0real && area2(*self, c, a) > 0real ==> !r,
        area2(*self, b, c) > 0real && area2(*self, c, a) < 0real ==> !r,
//@endfn
}
