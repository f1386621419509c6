// mesh::vertex::interpolator: what the interpolators make of the positions of three vertices.

/// positions, seen through their coordinates
pub struct PV { x: f64 }
impl Copy for PV {}
impl Clone for PV { #[verifier::external_body] fn clone(&self) -> (r: PV) ensures r == *self, { unimplemented!() } }
impl PV {
    /// the k-th coordinate
    pub uninterp spec fn c(self, k: int) -> real;
    /// the squared length
    pub uninterp spec fn len2(self) -> real;
    #[verifier::external_body]
    fn normalize(self) -> (r: PV) ensures r == unit(self), { unimplemented!() }
    #[verifier::external_body]
    fn slerp(self, o: &PV, t: S) -> (r: PV) ensures r == arc(self, *o, t.v()), { unimplemented!() }
}
/// the vector of length one in this direction
pub uninterp spec fn unit(a: PV) -> PV;
/// the point of the great circle arc
pub uninterp spec fn arc(a: PV, b: PV, t: real) -> PV;
/// the length is a function of the coordinates, and what normalize returns has length one
#[verifier::external_body]
proof fn ax_len2(a: PV, b: PV, s: real)
    ensures (forall|k: int| #[trigger] a.c(k) == b.c(k) * s) ==> a.len2() == b.len2() * s * s,
{}
#[verifier::external_body]
proof fn ax_unit(a: PV)
    ensures a.len2() != 0real ==> unit(a).len2() == 1real,
{}
impl AddSpecImpl for PV { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: PV) -> bool { true } open spec fn add_spec(self, o: PV) -> PV { arbitrary() } }
impl core::ops::Add for PV { type Output = PV;
    #[verifier::external_body]
    fn add(self, o: PV) -> (r: PV) ensures forall|k: int| #[trigger] r.c(k) == self.c(k) + o.c(k), { unimplemented!() } }
impl SubSpecImpl for PV { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: PV) -> bool { true } open spec fn sub_spec(self, o: PV) -> PV { arbitrary() } }
impl core::ops::Sub for PV { type Output = PV;
    #[verifier::external_body]
    fn sub(self, o: PV) -> (r: PV) ensures r == minus(self, o), { unimplemented!() } }
pub uninterp spec fn minus(a: PV, b: PV) -> PV;
#[verifier::external_body]
broadcast proof fn minus_c(a: PV, b: PV, k: int)
    ensures #[trigger] minus(a, b).c(k) == a.c(k) - b.c(k),
{}
impl MulSpecImpl<S> for PV { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: S) -> bool { true } open spec fn mul_spec(self, o: S) -> PV { arbitrary() } }
impl core::ops::Mul<S> for PV { type Output = PV;
    #[verifier::external_body]
    fn mul(self, o: S) -> (r: PV) ensures forall|k: int| #[trigger] r.c(k) == self.c(k) * o.v(), { unimplemented!() } }
impl DivSpecImpl<S> for PV { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: S) -> bool { true } open spec fn div_spec(self, o: S) -> PV { arbitrary() } }
impl core::ops::Div<S> for PV { type Output = PV;
    #[verifier::external_body]
    fn div(self, o: S) -> (r: PV) ensures o.v() != 0real ==> forall|k: int| #[trigger] r.c(k) == self.c(k) / o.v(), { unimplemented!() } }

/// a mesh that gives every vertex a position
pub struct GMesh { x: f64 }
pub struct GVertex { p: PV }
pub struct GPay { p: PV }
impl GMesh {
    pub uninterp spec fn p(self, v: usize) -> PV;
    #[verifier::external_body]
    fn vertex(&self, v: usize) -> (r: &GVertex) ensures r.p == self.p(v), { unimplemented!() }
}
impl GVertex { fn pos(&self) -> (r: PV) ensures r == self.p, { self.p } }
impl GPay { fn from_pos(p: PV) -> (r: GPay) ensures r.p == p, { GPay { p } } }

pub struct LinearVertexInterpolator {}
impl LinearVertexInterpolator {
//@types T::Mesh=GMesh; T::V=usize; T::S=S; T::Vec=PV; T::VP=GPay; S=S; T::S::HALF=S::half()
//@fn src/mesh/vertex/interpolator.rs impl VertexInterpolator for LinearVertexInterpolator :: call
//@generics
//@where
//@ret r
    requires p1@[0].0 + p1@[1].0 + p1@[2].0 <= usize::MAX, p1@[0].0 + p1@[1].0 + p1@[2].0 > 0,
    ensures forall|k: int| #[trigger] r.p.c(k) == (mesh.p(p1@[0].1).c(k) * (p1@[0].0 as real) + mesh.p(p1@[1].1).c(k) * (p1@[1].0 as real) + mesh.p(p1@[2].1).c(k) * (p1@[2].0 as real)) / ((p1@[0].0 + p1@[1].0 + p1@[2].0) as real),
//@endfn
}
/// with weights one and one and zero that is the middle of the two
proof fn lemma_middle(a: PV, b: PV, c: PV, k: int)
    ensures (a.c(k) * 1real + b.c(k) * 1real + c.c(k) * 0real) / 2real == (a.c(k) + b.c(k)) / 2real,
{}

pub struct SlerpVertexInterpolator { center: PV, radius: S }
spec fn dir(s: SlerpVertexInterpolator, m: GMesh, v: usize) -> PV { unit(minus(m.p(v), s.center)) }
/// the middle of the arc between the two corners whose weight is not zero, in the order of the triangle
spec fn half_way(s: SlerpVertexInterpolator, m: GMesh, w: [(usize, usize); 3]) -> PV {
    let h = 1real / 2real;
    if w@[0].0 == 0 { arc(dir(s, m, w@[1].1), dir(s, m, w@[2].1), h) } else if w@[1].0 == 0 { arc(dir(s, m, w@[2].1), dir(s, m, w@[0].1), h) } else { arc(dir(s, m, w@[0].1), dir(s, m, w@[1].1), h) }
}
impl SlerpVertexInterpolator {
//@types Self=SlerpVertexInterpolator
//@fn src/mesh/vertex/interpolator.rs impl SlerpVertexInterpolator :: new
//@ret r
    ensures r.center == center, r.radius == radius,
//@endfn
//@fn src/mesh/vertex/interpolator.rs impl VertexInterpolator for SlerpVertexInterpolator :: call
//@generics
//@where
//@ret r
    requires p1@[0].0 == 0 || p1@[1].0 == 0 || p1@[2].0 == 0,
    ensures
        forall|k: int| #[trigger] r.p.c(k) == self.center.c(k) + unit(half_way(*self, *mesh, p1)).c(k) * self.radius.v(),
        // on the sphere, unless the two are opposite of each other
        half_way(*self, *mesh, p1).len2() != 0real ==> minus(r.p, self.center).len2() == self.radius.v() * self.radius.v(),
//@pre
    broadcast use minus_c;
//@post
    proof {
        ax_len2(minus(vx_ret.p, self.center), unit(half_way(*self, *mesh, p1)), self.radius.v()); ax_unit(half_way(*self, *mesh, p1));
    }
//@endfn
}
