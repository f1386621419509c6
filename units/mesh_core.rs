// The mesh struct, its structural predicate, and contracts of every accessor.

#[verifier::external_body]
struct MP { p: u8 }
impl MP { #[verifier::external_body] fn default() -> MP { unimplemented!() } }
pub uninterp spec fn ep_default() -> EP;
pub uninterp spec fn fp_default() -> FP;
impl EP { #[verifier::external_body] fn clone(&self) -> (r: EP) ensures r == *self { unimplemented!() } }
impl Default for EP { #[verifier::external_body] fn default() -> (r: EP) ensures r == ep_default() { unimplemented!() } }
impl VP { #[verifier::external_body] fn clone(&self) -> (r: VP) ensures r == *self { unimplemented!() } }
impl FP { #[verifier::external_body] fn clone(&self) -> (r: FP) ensures r == *self { unimplemented!() } }
impl Default for FP { #[verifier::external_body] fn default() -> (r: FP) ensures r == fp_default() { unimplemented!() } }
impl HalfEdgeImpl { #[verifier::external_body] fn clone(&self) -> (r: HalfEdgeImpl) ensures r == *self { unimplemented!() } }
impl HalfEdgeVertexImpl { #[verifier::external_body] fn clone(&self) -> (r: HalfEdgeVertexImpl) ensures r == *self { unimplemented!() } }
impl HalfEdgeFaceImpl { #[verifier::external_body] fn clone(&self) -> (r: HalfEdgeFaceImpl) ensures r == *self { unimplemented!() } }

//@types T=_; T::E=I; T::V=I; T::F=I; T::EP=EP; T::VP=VP; T::FP=FP; T::MP=MP; Self::Item=HalfEdgeImpl; FaceBasics=HalfEdgeFaceImpl; MeshBasics=HalfEdgeMeshImpl; HalfEdge=HalfEdgeImpl; VertexBasics=HalfEdgeVertexImpl; EdgeBasics=HalfEdgeImpl; T::Vertex=HalfEdgeVertexImpl; T::Edge=HalfEdgeImpl; T::Face=HalfEdgeFaceImpl; T::Mesh=HalfEdgeMeshImpl; IndexType=<I as IndexType>
//@known vertex edge face vertex_mut edge_mut face_mut has_vertex next twin prev next_id twin_id prev_id origin_id target_id face_id id origin target is_boundary is_boundary_self edges_face edges_face_back edges_from edges_back_from edges_out edges_in vertices faces edges edge_id has_only_one_edge num_edges num_vertices num_triangles shared_edge shared_edge_id shared_face other_face same_face same_face_back payload set_face delete_face set_next set_prev set_twin set_origin set_edge vertex_ids edge_ids neighbor_ids degree outgoing_boundary_edge ingoing_boundary_edge face_ids twin_edges is_open new allocate set push delete_internal get get_mut has live_iter len capacity clear empty

//@struct src/halfedge/mesh/mod.rs HalfEdgeMeshImpl

type HMap = IMap<I, HalfEdgeImpl>;
type VMap = IMap<I, HalfEdgeVertexImpl>;
type FMap = IMap<I, HalfEdgeFaceImpl>;

spec fn nmap(h: HMap) -> IMap<I, I> { IMap::new(|e: I| h.contains_key(e), |e: I| h[e].next) }
spec fn pmap(h: HMap) -> IMap<I, I> { IMap::new(|e: I| h.contains_key(e), |e: I| h[e].prev) }
/// clockwise around the origin: the successor of the twin
spec fn wmap(h: HMap) -> IMap<I, I> { IMap::new(|e: I| h.contains_key(e), |e: I| h[h[e].twin].next) }
spec fn vmap(h: HMap) -> IMap<I, I> { IMap::new(|e: I| h.contains_key(e), |e: I| h[h[e].prev].twin) }

/// successor and predecessor are mutually inverse
spec fn link_ok(h: HMap, e: I) -> bool {
    &&& h[e].id == e && e != NONE
    &&& h.contains_key(h[e].next) && h[h[e].next].prev == e
    &&& h.contains_key(h[e].prev) && h[h[e].prev].next == e
}
spec fn links(h: HMap) -> bool { forall|e: I| h.contains_key(e) ==> #[trigger] link_ok(h, e) }
/// twins pair up
spec fn twin_ok(h: HMap, e: I) -> bool {
    h.contains_key(h[e].twin) && h[h[e].twin].twin == e && h[e].twin != e
}
spec fn twins(h: HMap) -> bool { forall|e: I| h.contains_key(e) ==> #[trigger] twin_ok(h, e) }
/// an edge ends where its successor starts (and where its twin starts); one face per loop; live references
spec fn edge_ok(h: HMap, v: VMap, f: FMap, e: I) -> bool {
    &&& h[h[e].next].origin_id == h[h[e].twin].origin_id
    &&& h[e].origin_id != h[h[e].twin].origin_id
    &&& v.contains_key(h[e].origin_id) && v[h[e].origin_id].edge != NONE
    &&& h[h[e].next].face == h[e].face
    &&& (h[e].face != NONE ==> f.contains_key(h[e].face))
}
spec fn edges_ok(h: HMap, v: VMap, f: FMap) -> bool { forall|e: I| h.contains_key(e) ==> #[trigger] edge_ok(h, v, f, e) }
/// a vertex names one of its own outgoing edges, or none if it is isolated
spec fn vert_ok(h: HMap, v: VMap, x: I) -> bool {
    &&& v[x].id == x && x != NONE
    &&& v[x].edge == NONE || (h.contains_key(v[x].edge) && h[v[x].edge].origin_id == x)
}
spec fn verts_ok(h: HMap, v: VMap) -> bool { forall|x: I| v.contains_key(x) ==> #[trigger] vert_ok(h, v, x) }
/// a face names one of its own edges
spec fn face_ok(h: HMap, f: FMap, x: I) -> bool {
    f[x].id == x && x != NONE && h.contains_key(f[x].edge) && h[f[x].edge].face == x
}
spec fn faces_ok(h: HMap, f: FMap) -> bool { forall|x: I| f.contains_key(x) ==> #[trigger] face_ok(h, f, x) }
/// all edges of a face are on the loop of its representative edge
spec fn reach(p: IMap<I, I>, x: I, y: I) -> bool { exists|k: nat| #[trigger] it(p, x, k) == y }
spec fn loop_ok(h: HMap, f: FMap, e: I) -> bool {
    h[e].face != NONE ==> reach(nmap(h), f[h[e].face].edge, e)
}
spec fn one_loop(h: HMap, f: FMap) -> bool { forall|e: I| h.contains_key(e) ==> #[trigger] loop_ok(h, f, e) }

spec fn wf(h: HMap, v: VMap, f: FMap) -> bool {
    links(h) && twins(h) && edges_ok(h, v, f) && verts_ok(h, v) && faces_ok(h, f) && one_loop(h, f)
}

impl HalfEdgeMeshImpl {
    spec fn h(self) -> HMap { self.halfedges@ }
    spec fn v(self) -> VMap { self.vertices@ }
    spec fn f(self) -> FMap { self.faces@ }
    /// the three handle tables are consistent
    spec fn inv(self) -> bool { self.vertices.inv() && self.halfedges.inv() && self.faces.inv() }
    /// no slot is handed out but unfilled
    spec fn clean(self) -> bool {
        (forall|i: I| !self.vertices.reserved(i)) && (forall|i: I| !self.halfedges.reserved(i)) && (forall|i: I| !self.faces.reserved(i))
    }
    /// structurally valid mesh
    spec fn valid(self) -> bool { self.inv() && self.clean() && wf(self.h(), self.v(), self.f()) }

//@fn src/halfedge/mesh/mod.rs impl HalfEdgeMeshImpl :: new
//@ret r
        ensures r.valid(), r.h() == HMap::empty(), r.v() == VMap::empty(), r.f() == FMap::empty(),
            r.vertices.in_use() == 0, r.halfedges.in_use() == 0, r.faces.in_use() == 0,
            r.vertices.packed(0), r.halfedges.packed(0), r.faces.packed(0),
//@endfn
//@fn src/halfedge/mesh/mod.rs impl Default for HalfEdgeMeshImpl :: default
//@ret r
        ensures r.valid(), r.h() == HMap::empty(), r.v() == VMap::empty(), r.f() == FMap::empty(),
            r.vertices.packed(0), r.halfedges.packed(0), r.faces.packed(0),
//@endfn
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: has_vertex
//@ret r
        ensures r == self.v().contains_key(index),
//@endfn
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: vertex
//@ret r
        requires self.v().contains_key(index),
        ensures *r == self.v()[index],
//@endfn
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: edge
//@ret r
        requires self.h().contains_key(index),
        ensures *r == self.h()[index],
//@endfn
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: face
//@ret r
        requires self.f().contains_key(index),
        ensures *r == self.f()[index],
//@endfn
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: vertex_mut
//@ret r
        requires old(self).v().contains_key(index), old(self).vertices.inv(),
        ensures *r == old(self).v()[index],
            final(self).halfedges == old(self).halfedges, final(self).faces == old(self).faces, final(self).payload == old(self).payload,
            final(r).id == index ==> tab_upd(old(self).vertices, final(self).vertices, index, *final(r)),
//@endfn
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: edge_mut
//@ret r
        requires old(self).h().contains_key(index), old(self).halfedges.inv(),
        ensures *r == old(self).h()[index],
            final(self).vertices == old(self).vertices, final(self).faces == old(self).faces, final(self).payload == old(self).payload,
            final(r).id == index ==> tab_upd(old(self).halfedges, final(self).halfedges, index, *final(r)),
//@endfn
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: face_mut
//@ret r
        requires old(self).f().contains_key(index), old(self).faces.inv(),
        ensures *r == old(self).f()[index],
            final(self).vertices == old(self).vertices, final(self).halfedges == old(self).halfedges, final(self).payload == old(self).payload,
            final(r).id == index ==> tab_upd(old(self).faces, final(self).faces, index, *final(r)),
//@endfn
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: num_vertices
//@ret r
        requires self.vertices.inv(),
        ensures r == self.vertices.in_use(),
//@endfn
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: num_edges
//@ret r
        requires self.halfedges.inv(),
        ensures r == self.halfedges.in_use(),
//@endfn
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: num_faces
//@ret r
        requires self.faces.inv(),
        ensures r == self.faces.in_use(),
//@endfn
}
/// one element of a table is overwritten, everything else about the table stays
spec fn tab_upd<T: Deletable<I>>(o: DeletableVector<T, I>, n: DeletableVector<T, I>, i: I, t: T) -> bool {
    &&& n.inv() && n@ == o@.insert(i, t) && n.in_use() == o.in_use() && n.data@.len() == o.data@.len()
    &&& forall|i: I| #[trigger] n.reserved(i) == o.reserved(i)
}
