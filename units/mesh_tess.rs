// Triangulating the faces of a mesh.

/// positions, normals and rotations are opaque: nothing below depends on them
pub struct V3 { x: f64 }
impl V3 {
    #[verifier::external_body]
    fn new(x: S, y: S, z: S) -> V3 { unimplemented!() }
    #[verifier::external_body]
    fn normalize(&self) -> V3 { unimplemented!() }
    #[verifier::external_body]
    fn vec2(&self) -> V2 { unimplemented!() }
}
pub struct Rot { x: f64 }
impl Rot {
    #[verifier::external_body]
    fn from_rotation_arc(a: V3, b: V3) -> Rot { unimplemented!() }
    #[verifier::external_body]
    fn apply(&self, v: V3) -> V3 { unimplemented!() }
}
impl HalfEdgeVertexImpl {
    #[verifier::external_body]
    fn pos(&self) -> V3 { unimplemented!() }
}
impl HalfEdgeFaceImpl {
    #[verifier::external_body]
    fn normal(&self, mesh: &HalfEdgeMeshImpl) -> V3
        requires mesh.valid(), self.own(*mesh),
    { unimplemented!() }
}
/// corners of a face, starting with the target of its representative edge
//@traits TransformTrait
spec fn corner_ids(m: HalfEdgeMeshImpl, f: HalfEdgeFaceImpl) -> Seq<I> { loop_ids(m.h(), f).map_values(|e: I| tgt(m.h(), e)) }
//@types Self=Self; T=_; T::E=I; T::V=I; T::F=I; T::EP=EP; T::VP=VP; T::FP=FP; T::MP=MP; T::Vec=V3; T::Vec2=V2; T::Trans=Rot; T::S=S; T::Poly=_; T::Mesh=HalfEdgeMeshImpl; T::Face=HalfEdgeFaceImpl; T::Vertex=HalfEdgeVertexImpl; Face3d=HalfEdgeFaceImpl; FaceBasics=HalfEdgeFaceImpl; IndexedVertex2D<T::V,T::Vec2>=IndexedVertex2D; IndexedVertex2D::<T::V,T::Vec2>=IndexedVertex2D; Triangulation<T::V>=Triangulation; IndexType=<I as IndexType>
impl<T> GIter<T> {
    #[verifier::external_body]
    fn tuple_windows(self) -> (r: GIter<(T, T)>)
        ensures r.rest() == windows2(self.rest()),
    { unimplemented!() }
}
spec fn windows2<T>(s: Seq<T>) -> Seq<(T, T)> { Seq::new(if s.len() == 0 { 0 } else { (s.len() - 1) as nat }, |k: int| (s[k], s[k + 1])) }
/// the corner records in order
spec fn corners(m: HalfEdgeMeshImpl, f: HalfEdgeFaceImpl) -> Seq<HalfEdgeVertexImpl> { loop_ids(m.h(), f).map_values(|e: I| m.v()[tgt(m.h(), e)]) }
proof fn lemma_corners(m: HalfEdgeMeshImpl, f: HalfEdgeFaceImpl)
    requires m.valid(), f.own(m),
    ensures corners(m, f).len() == corner_ids(m, f).len(),
        corner_ids(m, f).len() == loop_ids(m.h(), f).len(),
        forall|k: int| 0 <= k < corners(m, f).len() ==> (#[trigger] corners(m, f)[k]).id == corner_ids(m, f)[k] && m.v().contains_key(corner_ids(m, f)[k]),
        forall|k: int| 0 <= k < corners(m, f).len() ==> m.v().contains_key(#[trigger] corner_ids(m, f)[k]),
{
    let h = m.h(); let all = loop_ids(h, f);
    assert(face_ok(m.h(), m.f(), f.id)); lemma_loop(m, f.edge);
    assert forall|k: int| 0 <= k < all.len() implies m.v().contains_key(tgt(h, all[k])) && m.v()[tgt(h, all[k])].id == tgt(h, all[k]) by {
        assert(h.contains_key(all[k]));
        assert(link_ok(h, all[k])); assert(edge_ok(h, m.v(), m.f(), h[all[k]].next)); assert(vert_ok(h, m.v(), tgt(h, all[k])));
    }
}
spec fn same_ids(r: Seq<(V2, I)>, vs: Seq<HalfEdgeVertexImpl>, n: int) -> bool { r.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] r[j]).1 == vs[j].id }
spec fn same_ids2(r: Seq<IndexedVertex2D>, vs: Seq<(V2, I)>, n: int) -> bool { r.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] r[j]).index == vs[j].1 }
spec fn ids_upto(r: Seq<I>, vs: Seq<HalfEdgeVertexImpl>, n: int) -> bool { r.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] r[j]) == vs[j].id }
impl HalfEdgeFaceImpl {
//@fn src/mesh/face/face3d.rs trait Face3d :: vertices_2d
//@ret r
    requires mesh.valid(), self.own(*mesh),
    ensures r.rest().len() == corner_ids(*mesh, *self).len(), forall|k: int| 0 <= k < r.rest().len() ==> (#[trigger] r.rest()[k]).1 == corner_ids(*mesh, *self)[k],
//@pre
        let ghost vs = corners(*mesh, *self); let ghost mut gk = 0int;
        proof { lemma_corners(*mesh, *self); }
//@loop 0
            invariant 0 <= gk <= vs.len(), it_0.rest() == vs.skip(gk), vs == corners(*mesh, *self), same_ids(res_0@, vs, gk),
            ensures gk == vs.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof { if gk < vs.len() { assert(vs.skip(gk)[0] == vs[gk]); assert(vs.skip(gk).drop_first() =~= vs.skip(gk + 1)); } }
//@lend 0
            proof { gk = gk + 1; }
//@endfn
//@fn src/mesh/face/face3d.rs trait Face3d :: vec2s
//@ret r
    requires mesh.valid(), self.own(*mesh),
    ensures ids_of(r@) == corner_ids(*mesh, *self),
//@pre
        let ghost mut vs: Seq<(V2, I)> = Seq::empty(); let ghost mut gk = 0int;
//@aftercall vertices_2d 0
        proof { vs = it_0.rest(); }
//@loop 0
            invariant 0 <= gk <= vs.len(), it_0.rest() == vs.skip(gk), same_ids2(res_0@, vs, gk),
            ensures gk == vs.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof { if gk < vs.len() { assert(vs.skip(gk)[0] == vs[gk]); assert(vs.skip(gk).drop_first() =~= vs.skip(gk + 1)); } }
//@lend 0
            proof { gk = gk + 1; }
//@post
        proof { assert(ids_of(vx_ret@) =~= corner_ids(*mesh, *self)); }
//@endfn
}
impl IndexedVertex2D {
//@fn src/mesh/triangulation.rs impl IndexedVertex2D :: new
//@param vec: V2
//@param index: I
//@ret r
    ensures r.vec == vec, r.index == index,
//@endfn
}
/// the first k triangles of a fan around corner 0
spec fn fan(k: int) -> Seq<T3> { Seq::new(if k < 0 { 0 } else { k as nat }, |q: int| (0int, q + 1, q + 2)) }
proof fn lemma_fan(k: int)
    requires k >= 0,
    ensures polytri(fan(k), 0, k + 1),
    decreases k,
{
    if k == 0 { assert(fan(0) =~= Seq::empty()); lemma_polytri_empty(0); } else {
        lemma_fan(k - 1);
        lemma_fan_step(fan(k - 1), 0, k + 1);
        assert(fan(k) =~= fan(k - 1).push((0, k, k + 1)));
    }
}
proof fn lemma_fan_flat(a: Seq<I>, k: int, ids: Seq<I>)
    requires k >= 0,
    ensures (a + flat(fan(k), ids)).push(ids[0]).push(ids[k + 1]).push(ids[k + 2]) =~= a + flat(fan(k + 1), ids),
{
    assert(fan(k + 1) =~= fan(k).push((0, k + 1, k + 2)));
    lemma_flat_push(fan(k), (0, k + 1, k + 2), ids);
}
//@fn src/tesselate/convex.rs free :: fan_triangulation
    requires mesh.valid(), face.own(*mesh), old(indices).ok(), old(indices).all().len() + 3 * corner_ids(*mesh, *face).len() <= usize::MAX,
        corner_ids(*mesh, *face).len() >= 3,
    ensures final(indices).ok(), final(indices).same_buf(*old(indices)),
        tri_added(old(indices).all(), final(indices).all(), corner_ids(*mesh, *face)),
//@pre
    let ghost vs = corners(*mesh, *face); let ghost ids = corner_ids(*mesh, *face); let ghost mut g1 = 0int; let ghost mut g0 = 0int; let ghost a0 = old(indices).all();
    proof { lemma_corners(*mesh, *face); assert(a0 + flat(fan(0), ids) =~= a0) by { assert(fan(0) =~= Seq::empty()); } }
//@loop 0
        invariant 0 <= g1 <= vs.len(), it_1.rest() == vs.skip(g1), n0_1 == if g1 == 0 { 1int } else { 0int },
            res_1@ =~= if g1 == 0 { Seq::empty() } else { vs.subrange(1, g1) },
        ensures g1 == vs.len(),
        decreases it_1.rest().len(),
//@lstart 0
        proof { if g1 < vs.len() { assert(vs.skip(g1)[0] == vs[g1]); assert(vs.skip(g1).drop_first() =~= vs.skip(g1 + 1)); g1 = g1 + 1; } }
//@loop 1
        invariant 0 <= g0 <= vs.len() - 2, vs.len() == ids.len(), vs.len() >= 3, it_0.rest() == windows2(vs.skip(1)).skip(g0), indices.all() == a0 + flat(fan(g0), ids), indices.same_buf(*old(indices)), indices.ok(),
            center == vs[0], a0.len() + 3 * ids.len() <= usize::MAX, forall|k: int| 0 <= k < vs.len() ==> (#[trigger] vs[k]).id == ids[k],
        ensures g0 == vs.len() - 2,
        decreases it_0.rest().len(),
//@lstart 1
        proof { let w = windows2(vs.skip(1)); assert(w.len() == vs.len() - 2); lemma_flat_len(fan(g0), ids);
            if g0 < w.len() { assert(w.skip(g0)[0] == w[g0]); assert(w.skip(g0).drop_first() =~= w.skip(g0 + 1)); assert(w[g0] == (vs[g0 + 1], vs[g0 + 2])); lemma_fan_flat(a0, g0, ids); } }
//@lend 1
        proof { g0 = g0 + 1; }
//@post
    proof { lemma_fan(ids.len() - 2); }
//@endfn
//@fn src/tesselate/fixed_n.rs free :: try_min_weight_small
//@ret r
    requires mesh.valid(), face.own(*mesh), old(indices).ok(), old(indices).all().len() + 6 <= usize::MAX,
    ensures final(indices).ok(), final(indices).same_buf(*old(indices)),
        r == (corner_ids(*mesh, *face).len() == 3 || corner_ids(*mesh, *face).len() == 4),
        r ==> tri_added(old(indices).all(), final(indices).all(), corner_ids(*mesh, *face)),
        !r ==> final(indices).all() == old(indices).all(),
//@pre
        let ghost vs0 = corners(*mesh, *face); let ghost ids = corner_ids(*mesh, *face); let ghost mut gk = 0int; let ghost mut gl = 0int; let ghost mut vs1: Seq<(V2, I)> = Seq::empty();
        proof { lemma_corners(*mesh, *face); }
//@loop 0
            invariant 0 <= gk <= vs0.len(), it_0.rest() == vs0.skip(gk), vs0 == corners(*mesh, *face), ids_upto(res_0@, vs0, gk),
            ensures gk == vs0.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof { if gk < vs0.len() { assert(vs0.skip(gk)[0] == vs0[gk]); assert(vs0.skip(gk).drop_first() =~= vs0.skip(gk + 1)); } }
//@lend 0
            proof { gk = gk + 1; }
//@beforecall insert_triangle 0
        proof { lemma_tri1(); lemma_flat1((0, 1, 2), ids); assert(a == ids[0] && b == ids[1] && c == ids[2]); assert(ids.len() - 1 == 2);
            assert(polytri(seq![(0int, 1int, 2int)], 0, ids.len() - 1));
            assert(indices.all().push(a).push(b).push(c) =~= indices.all() + flat(seq![(0int, 1int, 2int)], ids)); }
//@aftercall vertices_2d 0
        proof { vs1 = it_1.rest(); }
//@loop 1
            invariant 0 <= gl <= vs1.len(), it_1.rest() == vs1.skip(gl), same_ids2(res_1@, vs1, gl),
            ensures gl == vs1.len(),
            decreases it_1.rest().len(),
//@lstart 1
            proof { if gl < vs1.len() { assert(vs1.skip(gl)[0] == vs1[gl]); assert(vs1.skip(gl).drop_first() =~= vs1.skip(gl + 1)); } }
//@lend 1
            proof { gl = gl + 1; }
//@beforecall try_min_weight_small_direct 0
        proof { assert(ids_of(vs@) =~= ids); }
//@endfn
//@fn src/tesselate/ear_clipping.rs free :: ear_clipping
    requires mesh.valid(), face.own(*mesh), old(indices).ok(), old(indices).all().len() + 3 * corner_ids(*mesh, *face).len() <= usize::MAX,
        3 <= corner_ids(*mesh, *face).len() <= i32::MAX,
    ensures final(indices).ok(), final(indices).same_buf(*old(indices)),
        tri_added_rev(old(indices).all(), final(indices).all(), corner_ids(*mesh, *face)),
//@pre
        let ghost mut vs1: Seq<(V2, I)> = Seq::empty(); let ghost mut gk = 0int;
//@aftercall vertices_2d 0
        proof { vs1 = it_0.rest(); }
//@loop 0
            invariant 0 <= gk <= vs1.len(), it_0.rest() == vs1.skip(gk), res_0@ =~= vs1.take(gk),
            ensures gk == vs1.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof { if gk < vs1.len() { assert(vs1.skip(gk)[0] == vs1[gk]); assert(vs1.skip(gk).drop_first() =~= vs1.skip(gk + 1)); gk = gk + 1; } }
//@beforecall ear_clipping_direct 0
        proof { assert(vs1.take(gk) =~= vs1); assert(ids_of2(vs@) =~= corner_ids(*mesh, *face)); }
//@endfn
/// proved in unit mw_t for polygons with a triangulation by inner chords; for the others the call
/// ends in an out-of-range index and does not return
#[verifier::external_body]
fn minweight_dynamic_direct(vs: &Vec<IndexedVertex2D>, indices: &mut Triangulation)
    requires 4 <= vs@.len(), vs@.len() * (vs@.len() - 1) <= usize::MAX, old(indices).ok(), old(indices).all().len() + 3 * vs@.len() <= usize::MAX,
    ensures final(indices).ok(), final(indices).same_buf(*old(indices)), tri_added(old(indices).all(), final(indices).all(), ids_of(vs@)),
{ unimplemented!() }
spec fn size_ok(n: int) -> bool { 3 <= n <= i32::MAX && n * (n - 1) <= usize::MAX }
//@fn src/tesselate/min_weight_dynamic.rs free :: minweight_dynamic
    requires mesh.valid(), face.own(*mesh), old(indices).ok(), old(indices).all().len() + 3 * corner_ids(*mesh, *face).len() <= usize::MAX,
        size_ok(corner_ids(*mesh, *face).len() as int),
    ensures final(indices).ok(), final(indices).same_buf(*old(indices)),
        tri_added(old(indices).all(), final(indices).all(), corner_ids(*mesh, *face)),
//@pre
        let ghost mut vs1: Seq<(V2, I)> = Seq::empty(); let ghost mut gk = 0int;
        proof { lemma_corners(*mesh, *face); }
//@aftercall vertices_2d 0
        proof { vs1 = it_0.rest(); }
//@loop 0
            invariant 0 <= gk <= vs1.len(), it_0.rest() == vs1.skip(gk), same_ids2(res_0@, vs1, gk),
            ensures gk == vs1.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof { if gk < vs1.len() { assert(vs1.skip(gk)[0] == vs1[gk]); assert(vs1.skip(gk).drop_first() =~= vs1.skip(gk + 1)); } }
//@lend 0
            proof { gk = gk + 1; }
//@beforecall minweight_dynamic_direct 0
        proof { assert(ids_of(vec2s@) =~= corner_ids(*mesh, *face)); assert(vec2s@.len() == ids_of(vec2s@).len()); }
//@endfn
/// the algorithms built on external code, and the sweep: assumed here, compared with the definition by the harness
pub struct Meta { x: u8 }
spec fn added_by(a: Seq<I>, b: Seq<I>, ids: Seq<I>, alg: TriangulationAlgorithm) -> bool {
    if alg is EarClipping && ids.len() > 4 { tri_added_rev(a, b, ids) } else { tri_added(a, b, ids) }
}
#[verifier::external_body]
fn delaunay_triangulation(face: &HalfEdgeFaceImpl, mesh: &HalfEdgeMeshImpl, tri: &mut Triangulation)
    requires mesh.valid(), face.own(*mesh), old(tri).ok(), old(tri).all().len() + 3 * corner_ids(*mesh, *face).len() <= usize::MAX,
    ensures final(tri).ok(), final(tri).same_buf(*old(tri)), tri_added(old(tri).all(), final(tri).all(), corner_ids(*mesh, *face)),
{ unimplemented!() }
#[verifier::external_body]
fn sweep_line(face: &HalfEdgeFaceImpl, mesh: &HalfEdgeMeshImpl, tri: &mut Triangulation, meta: &mut Meta)
    requires mesh.valid(), face.own(*mesh), old(tri).ok(), old(tri).all().len() + 3 * corner_ids(*mesh, *face).len() <= usize::MAX,
    ensures final(tri).ok(), final(tri).same_buf(*old(tri)), tri_added(old(tri).all(), final(tri).all(), corner_ids(*mesh, *face)),
{ unimplemented!() }
#[derive(Copy, Clone)]
enum TriangulationAlgorithm { Fan, EarClipping, Sweep, SweepDynamic, SweepDelaunay, Delaunay, EdgeFlip, MinWeight, Heuristic, Auto }
//@fn src/tesselate/mod.rs free :: triangulate_face
//@mayfail
//@param algorithm: TriangulationAlgorithm
//@param meta: &mut Meta
    requires mesh.valid(), face.own(*mesh), old(tri).ok(), old(tri).all().len() + 3 * corner_ids(*mesh, *face).len() + 6 <= usize::MAX,
        size_ok(corner_ids(*mesh, *face).len() as int),
    ensures final(tri).ok(), final(tri).same_buf(*old(tri)),
        added_by(old(tri).all(), final(tri).all(), corner_ids(*mesh, *face), algorithm),
//@pre
        proof { lemma_corners(*mesh, *face); }
//@endfn
