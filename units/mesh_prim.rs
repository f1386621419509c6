// The primitives built from polygons and hems: closed surfaces with the stated numbers of vertices, half-edges and faces.

//@known iterarg:insert_pyramid:0 iterarg:insert_frustum:0 iterarg:insert_frustum:1 iterarg:insert_prism:0 iterarg:pyramid:0 iterarg:frustum:0 iterarg:frustum:1 iterarg:prism:0 iterarg:loft_polygon_back:3 iterarg:loft_polygon:3 iterarg:loft_tri:2 iterarg:loft_tri_closed:1 iterarg:insert_polygon:0 iterarg:insert_loop:0
//@known from_translation circle_iter
//@types T::Trans=TTrans; T::Vec=TVec; T::S=TS; T::VP=VP; T::Mesh=HalfEdgeMeshImpl; Face3d=HalfEdgeFaceImpl; T::S::HALF=TS::half(); T::S::TWO=TS::two(); T::S::ZERO=TS::zero(); T::S::ONE=TS::one(); T::S::THREE=TS::three(); T::S::PI=TS::pi()
/// scalars and vectors are opaque here: where the vertices end up is not what these contracts are about
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct TS { p: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct TVec { p: u8 }
impl TS {
    #[verifier::external_body] fn zero() -> TS { unimplemented!() }
    #[verifier::external_body] fn one() -> TS { unimplemented!() }
    #[verifier::external_body] fn two() -> TS { unimplemented!() }
    #[verifier::external_body] fn three() -> TS { unimplemented!() }
    #[verifier::external_body] fn half() -> TS { unimplemented!() }
    #[verifier::external_body] fn sqrt(self) -> TS { unimplemented!() }
}
impl TVec {
    #[verifier::external_body] fn x(&self) -> TS { unimplemented!() }
    #[verifier::external_body] fn y(&self) -> TS { unimplemented!() }
    #[verifier::external_body] fn z(&self) -> TS { unimplemented!() }
    #[verifier::external_body] fn from_xyz(x: TS, y: TS, z: TS) -> TVec { unimplemented!() }
    #[verifier::external_body] fn splat(x: TS) -> TVec { unimplemented!() }
    #[verifier::external_body] fn normalize(&self) -> TVec { unimplemented!() }
}
impl VP {
    #[verifier::external_body] fn from_pos(v: TVec) -> VP { unimplemented!() }
}
impl TTrans {
    #[verifier::external_body] fn from_translation(v: TVec) -> TTrans { unimplemented!() }
}
impl HalfEdgeFaceImpl {
    #[verifier::external_body] fn normal(&self, mesh: &HalfEdgeMeshImpl) -> TVec { unimplemented!() }
}
use vstd::std_specs::ops::*;
impl MulSpecImpl for TS { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: TS) -> bool { true } open spec fn mul_spec(self, o: TS) -> TS { arbitrary() } }
impl core::ops::Mul for TS { type Output = TS; #[verifier::external_body] fn mul(self, o: TS) -> TS { unimplemented!() } }
impl DivSpecImpl for TS { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: TS) -> bool { true } open spec fn div_spec(self, o: TS) -> TS { arbitrary() } }
impl core::ops::Div for TS { type Output = TS; #[verifier::external_body] fn div(self, o: TS) -> TS { unimplemented!() } }
impl NegSpecImpl for TS { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> TS { arbitrary() } }
impl core::ops::Neg for TS { type Output = TS; #[verifier::external_body] fn neg(self) -> TS { unimplemented!() } }
impl NegSpecImpl for TVec { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> TVec { arbitrary() } }
impl core::ops::Neg for TVec { type Output = TVec; #[verifier::external_body] fn neg(self) -> TVec { unimplemented!() } }
impl MulSpecImpl<TS> for TVec { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: TS) -> bool { true } open spec fn mul_spec(self, o: TS) -> TVec { arbitrary() } }
impl core::ops::Mul<TS> for TVec { type Output = TVec; #[verifier::external_body] fn mul(self, o: TS) -> TVec { unimplemented!() } }
/// the iterator over n points of a circle
#[verifier::external_body]
fn circle_iter(r: TS, n: usize, shift: TS, y: TS) -> (c: GIter<VP>)
    ensures c.rest().len() == n,
{ unimplemented!() }
fn regular_polygon_sidelength(r: TS, n: usize) -> TS { side_length(r, n) }
#[verifier::external_body]
fn side_length(r: TS, n: usize) -> TS { unimplemented!() }
/// face f is gone, its inside is free
spec fn face_gone(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, f: I) -> bool {
    m.vertices == o.vertices && m.payload == o.payload && m.f() == o.f().remove(f) && m.h() == faces_set(o.h(), loop_ids(o.h(), o.f()[f]), NONE)
}
proof fn lemma_gone(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, f: I)
    requires o.valid(), m.valid(), o.f().contains_key(f), face_gone(o, m, f),
    ensures ({ let e = o.f()[f].edge; m.h().contains_key(e) && m.h()[e].face == NONE && m.h()[e].next == o.h()[e].next && hole_at(m, m.h()[e].next) == hole_at(o, o.h()[e].next) }),
{
    let e = o.f()[f].edge;
    assert(face_ok(o.h(), o.f(), f));
    lemma_loop(o, e); lemma_nperm(o); lemma_orbit(nmap(o.h()), pmap(o.h()), hsize(o), e);
    lemma_faces_set(o.h(), loop_ids(o.h(), o.f()[f]), NONE);
    assert(loop_ids(o.h(), o.f()[f])[0] == e);
    assert(loop_ids(o.h(), o.f()[f]).contains(e));
}
/// a closed walk without repetitions is the orbit of its first member
proof fn lemma_walk_orbit(m: HalfEdgeMeshImpl, q: Seq<I>)
    requires m.valid(), q.len() >= 1, m.h().contains_key(q[0]), forall|i: int| 0 <= i < q.len() ==> nmap(m.h())[#[trigger] q[i]] == q[pn(i, q.len() as int)], forall|i: int| 0 < i < q.len() ==> #[trigger] q[i] != q[0],
    ensures orbit(nmap(m.h()), q[0]) =~= q,
{
    let h = m.h(); let p = nmap(h); let n = q.len() as int;
    lemma_nperm(m);
    lemma_cycle(p, pmap(h), hsize(m), q);
    lemma_orbit(p, pmap(h), hsize(m), q[0]);
    let o = orbit(p, q[0]);
    assert forall|i: int| 0 <= i < n && i < o.len() implies o[i] == q[i] by { lemma_prefix(o, q, p, i); }
    if o.len() < n { assert(o[o.len() - 1] == q[o.len() - 1]); assert(p[o[o.len() - 1]] == o[0]); assert(q[o.len() as int] == q[0]); }
    if n < o.len() { assert(o[n - 1] == q[n - 1]); assert(p[q[n - 1]] == q[0]); assert(o[n] == o[0]); }
}
/// the bottom of a pyramid
proof fn lemma_bottom(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, base: Seq<VP>, F: I, x: I, apex: VP)
    requires o.valid(), n.valid(), pyramid_on(o, m, n, vs, es, ts, base, F, x, apex),
    ensures n.h().contains_key(ts[0]), n.h()[ts[0]].face == F, n.f().contains_key(F), n.f()[F].edge == ts[0], orbit(nmap(n.h()), ts[0]) =~= turned(ts), simple(n.h(), turned(ts)), ts.len() == base.len(), ts.len() >= 2,
        forall|e: I| #[trigger] n.h().contains_key(e) && n.h()[e].face == NONE ==> o.h().contains_key(e),
        forall|e: I| #[trigger] turned(ts).contains(e) ==> n.h().contains_key(e),
{
    reveal(swapped);
    lemma_based(o, m, vs, es, ts, base, F);
    lemma_sealed(o, m, n, vs, es, ts, base, F, es);
    let k = ts.len() as int; let q = turned(ts); let h = n.h();
    assert forall|i: int| 0 <= i < k implies m.h().contains_key(#[trigger] ts[i]) && !es.contains(ts[i]) && h.contains_key(ts[i]) && h[ts[i]] == m.h()[ts[i]] by {
        assert(ts.contains(ts[i])); if es.contains(ts[i]) { let j = choose|j: int| 0 <= j < es.len() && es[j] == ts[i]; assert(m.h()[es[j]].face == NONE); assert(m.h()[ts[i]].face == F); } }
    assert forall|i: int| 0 <= i < k implies nmap(h)[#[trigger] q[i]] == q[pn(i, k)] by {
        let j = if i == 0 { 0 } else { k - i }; assert(q[i] == ts[j]); assert(q[pn(i, k)] == ts[pp(j, k)]); assert(h[ts[j]] == m.h()[ts[j]]); }
    assert forall|i: int, j: int| 0 <= i < j < k implies h[#[trigger] ts[i]].origin_id != h[#[trigger] ts[j]].origin_id by { assert(vs[pn(i, k)] != vs[pn(j, k)]); }
    assert forall|i: int, j: int| 0 <= i < j < k implies h[#[trigger] q[i]].origin_id != h[#[trigger] q[j]].origin_id by {
        let a = if i == 0 { 0 } else { k - i }; let b = k - j; assert(q[i] == ts[a] && q[j] == ts[b]); if a < b { assert(h[ts[a]].origin_id != h[ts[b]].origin_id); } else { assert(h[ts[b]].origin_id != h[ts[a]].origin_id); } }
    assert(q[0] == ts[0]);
    lemma_walk_orbit(n, q);
}
proof fn lemma_simple_same(a: HMap, b: HMap, s: Seq<I>)
    requires simple(a, s), forall|e: I| #[trigger] s.contains(e) ==> b[e].origin_id == a[e].origin_id,
    ensures simple(b, s),
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies b[#[trigger] s[i]].origin_id != b[#[trigger] s[j]].origin_id by { assert(s.contains(s[i]) && s.contains(s[j])); assert(b[s[i]].origin_id == a[s[i]].origin_id && b[s[j]].origin_id == a[s[j]].origin_id); }
}
/// filling the only hole leaves none
proof fn lemma_filled(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, s: Seq<I>)
    requires swapped(a, b, s, Seq::empty()), forall|e: I| #[trigger] a.h().contains_key(e) && a.h()[e].face == NONE ==> s.contains(e),
    ensures closed_mesh(b),
{
    reveal(swapped);
    assert forall|e: I| #[trigger] b.h().contains_key(e) implies b.h()[e].face != NONE by { if b.h()[e].face == NONE { assert(!Seq::<I>::empty().contains(e)); assert(a.h().contains_key(e) && !s.contains(e)); assert(b.h()[e] == a.h()[e]); } }
}
/// what extruding a new polygon starts from
proof fn lemma_prism_start(m: HalfEdgeMeshImpl, o: HalfEdgeMeshImpl, ps: Seq<VP>, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, F: I)
    requires m.valid(), based(o, m, vs, es, ts, ps, F),
    ensures m.h()[es[0]].next == es[1], hole_at(m, es[1]) =~= rot(es, 1), same_members(es, rot(es, 1)), m.h()[es[0]].twin == ts[0], m.h().contains_key(ts[0]), m.h()[ts[0]].face == F, F != NONE, m.f().contains_key(F),
{
    lemma_based(o, m, vs, es, ts, ps, F);
    lemma_rot(m.h(), es, 1);
    assert(rot(es, 1)[0] == es[1]);
    lemma_ring_orbit(m, rot(es, 1));
}
proof fn lemma_prism_end(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, ps: Seq<VP>, F: I, ys: Seq<I>, t: Seq<I>, G: I, tr: TTrans)
    requires m.valid(), based(o, m, vs, es, ts, ps, F), same_members(es, rot(es, 1)), boxed(m, n, rot(es, 1), ys, t, G, moved_vs(m, rot(es, 1), tr)),
    ensures sealed(o, n), prism_on(o, m, n, vs, es, ts, ps, F, ys, t, G, tr),
{
    lemma_sealed(o, m, n, vs, es, ts, ps, F, rot(es, 1));
}
impl HalfEdgeMeshImpl {
//@fn src/operations/extrude.rs trait MeshExtrude :: extrude_face
//@ret r
        requires old(self).valid(), old(self).f().contains_key(f), ({ let k = hole_at(*old(self), old(self).h()[old(self).f()[f].edge].next).len() as int; k >= 2 && room_e(*old(self), 4 * k) && room_v(*old(self), k) && room_f(*old(self), k) }),
        ensures final(self).valid(), ({ let k = hole_at(*old(self), old(self).h()[old(self).f()[f].edge].next).len() as int; grown(*old(self), *final(self), 4 * k, k, k) }),
            exists|m: HalfEdgeMeshImpl| #[trigger] face_gone(*old(self), m, f)
                && (exists|ys: Seq<I>, t: Seq<I>| #[trigger] boxed(m, *final(self), hole_at(m, old(self).h()[old(self).f()[f].edge].next), ys, t, final(self).h()[r].face, moved_vs(m, hole_at(m, old(self).h()[old(self).f()[f].edge].next), transform)) && t.contains(r)),
//@pre
        let ghost o = *self;
        proof { assert(face_ok(o.h(), o.f(), f)); }
//@aftercall remove_face 0
        proof { assert(face_gone(o, *self, f)); lemma_gone(o, *self, f); }
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: insert_prism
//@param vp: GIter<VP>
//@ret r
        requires old(self).valid(), vp.rest().len() >= 2, room_e(*old(self), 6 * (vp.rest().len() as int)), room_v(*old(self), 2 * (vp.rest().len() as int)), room_f(*old(self), vp.rest().len() as int + 2),
        ensures final(self).valid(), grown(*old(self), *final(self), 6 * (vp.rest().len() as int), 2 * (vp.rest().len() as int), vp.rest().len() as int + 2), sealed(*old(self), *final(self)),
            exists|m: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, F: I, ys: Seq<I>, t: Seq<I>, tr: TTrans| #[trigger] prism_on(*old(self), m, *final(self), vs, es, ts, vp.rest(), F, ys, t, final(self).h()[r].face, tr) && t.contains(r),
//@pre
        hide(based); hide(boxed); hide(sealed); hide(prism_on); hide(simple);
        let ghost o = *self; let ghost ps = vp.rest(); let ghost mut m = *self; let ghost mut vs = Seq::<I>::empty(); let ghost mut es = Seq::<I>::empty(); let ghost mut ts = Seq::<I>::empty(); let ghost mut F = NONE;
//@aftercall insert_polygon 0
        proof { m = *self; let r = lemma_base(o, m, ps, first); vs = r.0; es = r.1; ts = r.2; F = r.3; lemma_prism_start(m, o, ps, vs, es, ts, F); }
//@aftercall extrude 0
        proof {
            let (tr, ys, t) = choose|tr: TTrans, ys: Seq<I>, t: Seq<I>| #[trigger] boxed(m, *self, rot(es, 1), ys, t, self.h()[e].face, moved_vs(m, rot(es, 1), tr)) && t.contains(e);
            lemma_prism_end(o, m, *self, vs, es, ts, ps, F, ys, t, self.h()[e].face, tr);
        }
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: prism
//@param vp: GIter<VP>
//@ret r
        requires vp.rest().len() >= 2, roomy(2 * (vp.rest().len() as int), 6 * (vp.rest().len() as int), vp.rest().len() as int + 2),
        ensures r.valid(), closed_mesh(r), sized(r, 2 * (vp.rest().len() as int), 6 * (vp.rest().len() as int), vp.rest().len() as int + 2),
            exists|o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, F: I, ys: Seq<I>, t: Seq<I>, G: I, tr: TTrans| #[trigger] prism_on(o, m, r, vs, es, ts, vp.rest(), F, ys, t, G, tr),
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: cuboid
//@ret r
        requires roomy(8, 24, 6),
        ensures r.valid(), closed_mesh(r), sized(r, 8, 24, 6),
//@pre
        hide(based); hide(boxed); hide(hem4); hide(frustum_on); hide(simple); hide(ring);
        let ghost mut o = arbitrary::<HalfEdgeMeshImpl>(); let ghost mut m = o; let ghost mut a = o; let ghost mut ps = Seq::<VP>::empty(); let ghost mut qs = ps;
        let ghost mut ys = Seq::<I>::empty(); let ghost mut t = Seq::<I>::empty(); let ghost mut vs = Seq::<I>::empty(); let ghost mut es = Seq::<I>::empty(); let ghost mut ts = Seq::<I>::empty(); let ghost mut F = NONE;
//@aftercall default 0
        proof { o = mesh; }
//@aftercall insert_polygon 0
        proof { m = mesh; 
            let (p1, v1, e1, t1, F1) = choose|ps: Seq<VP>, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, F: I| ps.len() == 4 && #[trigger] loop_with(o, m, vs, es, ts, ps, NONE, F) && bottom_edge == es[0] && fresh1(o.f(), F) && m.f() == o.f().insert(F, mkf(F, ts[0], false, fp_default()));
            ps = p1; let r = lemma_base(o, m, ps, bottom_edge); vs = r.0; es = r.1; ts = r.2; F = r.3; }
//@aftercall loft_polygon 0
        proof { a = mesh; 
            let (q1, y1, t1) = choose|qs: Seq<VP>, ys: Seq<I>, t: Seq<I>| #[trigger] hem4(m, a, es, ys, t, qs) && t[0] == top_edge;
            qs = q1; let r = lemma_lid(m, a, es, qs, top_edge); ys = r.0; t = r.1; }
//@aftercall close_hole_default 0
        proof {
            let G = choose|F: I| fresh1(a.f(), F) && mesh.f() =~= a.f().insert(F, mkf(F, top_edge, false, fp_default())) && mesh.h() =~= #[trigger] faces_set(a.h(), orbit(nmap(a.h()), top_edge), F);
            lemma_frustum(o, m, a, mesh, vs, es, ts, ps, F, ys, t, qs, top_edge, G);
        }
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: cube
//@ret r
        requires roomy(8, 24, 6),
        ensures r.valid(), closed_mesh(r), sized(r, 8, 24, 6),
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: regular_hexahedron
//@ret r
        requires roomy(8, 24, 6),
        ensures r.valid(), closed_mesh(r), sized(r, 8, 24, 6),
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: regular_pyramid
//@ret r
        requires n >= 2, roomy(n + 1, 4 * n, n + 1),
        ensures r.valid(), closed_mesh(r), sized(r, n + 1, 4 * n, n + 1),
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: cone
//@ret r
        requires n >= 2, roomy(n + 1, 4 * n, n + 1),
        ensures r.valid(), closed_mesh(r), sized(r, n + 1, 4 * n, n + 1),
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: regular_tetrahedron
//@ret r
        requires roomy(4, 12, 4),
        ensures r.valid(), closed_mesh(r), sized(r, 4, 12, 4),
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: regular_octahedron
//@ret r
        requires roomy(6, 24, 8),
        ensures r.valid(), closed_mesh(r), sized(r, 6, 24, 8),
//@pre
        hide(based); hide(simple); hide(sealed);
        let ghost mut o = arbitrary::<HalfEdgeMeshImpl>(); let ghost mut n = o; let ghost mut g = o; let ghost mut ts = Seq::<I>::empty(); let ghost mut F = NONE;
//@aftercall default 0
        proof { o = mesh; }
//@aftercall insert_pyramid 0
        proof { n = mesh;
            let (m, vs, es, t0, F0, x, base, apex) = choose|m: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, F: I, x: I, base: Seq<VP>, apex: VP| #[trigger] pyramid_on(o, m, n, vs, es, ts, base, F, x, apex) && base.len() == 4 && e == ts[0];
            ts = t0; F = F0;
            lemma_bottom(o, m, n, vs, es, ts, base, F, x, apex); }
//@aftercall remove_face 0
        proof { g = mesh; assert(face_gone(n, g, F)); lemma_faces_set(n.h(), loop_ids(n.h(), n.f()[F]), NONE); assert(turned(ts)[0] == e); assert(turned(ts).contains(e)); lemma_simple_same(n.h(), g.h(), turned(ts)); }
//@aftercall fill_hole_apex 0
        proof { lemma_filled(g, mesh, turned(ts)); }
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: regular_frustum
//@ret r
        requires n >= 2, !smooth, roomy(2 * n, 6 * n, n + 2),
        ensures r.valid(), closed_mesh(r), sized(r, 2 * n, 6 * n, n + 2),
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: cylinder
//@ret r
        requires n >= 2, roomy(2 * n, 6 * n, n + 2),
        ensures r.valid(), closed_mesh(r), sized(r, 2 * n, 6 * n, n + 2),
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: regular_prism
//@ret m
        requires n >= 2, roomy(2 * n, 6 * n, n + 2),
        ensures m.valid(), closed_mesh(m), sized(m, 2 * n, 6 * n, n + 2),
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: uniform_prism
//@ret m
        requires n >= 2, roomy(2 * n, 6 * n, n + 2),
        ensures m.valid(), closed_mesh(m), sized(m, 2 * n, 6 * n, n + 2),
//@endfn
}
