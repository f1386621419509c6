
impl HalfEdgeFaceImpl {
    spec fn own(self, m: HalfEdgeMeshImpl) -> bool { m.f().contains_key(self.id) && m.f()[self.id] == self }
//@fn src/halfedge/face/mod.rs impl FaceBasics for HalfEdgeFaceImpl :: edges
//@retty ForwardEdgeIterator<'a>
//@ret r
        requires links(mesh.h()), mesh.h().contains_key(self.edge),
        ensures r.inv(), *r.mesh == *mesh, r.todo() == loop_ids(mesh.h(), *self), r.rest() == elems(mesh.h(), loop_ids(mesh.h(), *self)), r.todo().len() > 0,
//@pre
        proof { assert(link_ok(mesh.h(), self.edge)); }
//@endfn
//@fn src/halfedge/face/mod.rs impl FaceBasics for HalfEdgeFaceImpl :: num_edges
//@ret r
        requires mesh.valid(), self.own(*mesh),
        ensures r == loop_ids(mesh.h(), *self).len(),
//@pre
        proof { assert(face_ok(mesh.h(), mesh.f(), self.id)); lemma_loop(*mesh, self.edge); I::ix_inj(NONE, NONE); }
//@endfn
//@fn src/halfedge/face/mod.rs impl FaceBasics for HalfEdgeFaceImpl :: num_vertices
//@ret r
        requires mesh.valid(), self.own(*mesh),
        ensures r == loop_ids(mesh.h(), *self).len(),
//@endfn
//@fn src/halfedge/face/mod.rs impl FaceBasics for HalfEdgeFaceImpl :: num_triangles
//@ret r
        requires mesh.valid(), self.own(*mesh), loop_ids(mesh.h(), *self).len() >= 2, loop_ids(mesh.h(), *self).len() * 3 <= usize::MAX,
        ensures r == (loop_ids(mesh.h(), *self).len() - 2) * 3,
//@endfn
//@fn src/halfedge/face/mod.rs impl FaceBasics for HalfEdgeFaceImpl :: vertices
//@ret r
        requires mesh.valid(), self.own(*mesh),
        ensures r.rest() == loop_ids(mesh.h(), *self).map_values(|e: I| mesh.v()[tgt(mesh.h(), e)]),
//@pre
        let ghost h = mesh.h(); let ghost all = loop_ids(h, *self); let ghost mut gk = 0int;
        proof { assert(face_ok(mesh.h(), mesh.f(), self.id)); lemma_loop(*mesh, self.edge); }
//@loop 0
            invariant 0 <= gk <= all.len(), it_0.inv(), *it_0.mesh == *mesh, it_0.todo() == all.skip(gk), h == mesh.h(), mesh.valid(),
                forall|j: int| 0 <= j < all.len() ==> h.contains_key(#[trigger] all[j]),
                res_0@.len() == gk, forall|j: int| 0 <= j < gk ==> res_0@[j] == mesh.v()[tgt(h, #[trigger] all[j])],
            ensures gk == all.len(),
            decreases it_0.todo().len(),
//@lstart 0
            proof { if gk < all.len() { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1));
                assert(link_ok(h, all[gk])); assert(edge_ok(h, mesh.v(), mesh.f(), h[all[gk]].next)); } }
//@lend 0
            proof { gk = gk + 1; }
//@post
        proof { assert(vx_ret.rest() =~= all.map_values(|e: I| mesh.v()[tgt(h, e)])); }
//@endfn
//@fn src/mesh/face/basics.rs trait FaceBasics :: vertex_ids
//@ret r
        requires mesh.valid(), self.own(*mesh),
        ensures r.rest() == loop_ids(mesh.h(), *self).map_values(|e: I| tgt(mesh.h(), e)),
//@pre
        let ghost h = mesh.h(); let ghost all = loop_ids(h, *self); let ghost mut gk = 0int;
        let ghost vs = all.map_values(|e: I| mesh.v()[tgt(mesh.h(), e)]);
        proof { assert(face_ok(mesh.h(), mesh.f(), self.id)); lemma_loop(*mesh, self.edge); }
//@loop 0
            invariant 0 <= gk <= vs.len(), it_0.rest() == vs.skip(gk), h == mesh.h(), mesh.valid(), vs == all.map_values(|e: I| mesh.v()[tgt(mesh.h(), e)]),
                forall|j: int| 0 <= j < all.len() ==> h.contains_key(#[trigger] all[j]),
                res_0@.len() == gk, forall|j: int| 0 <= j < gk ==> res_0@[j] == tgt(h, #[trigger] all[j]),
            ensures gk == vs.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof { if gk < vs.len() { assert(vs.skip(gk)[0] == vs[gk]); assert(vs.skip(gk).drop_first() =~= vs.skip(gk + 1));
                assert(link_ok(h, all[gk])); assert(edge_ok(h, mesh.v(), mesh.f(), h[all[gk]].next)); assert(vert_ok(h, mesh.v(), tgt(h, all[gk]))); } }
//@lend 0
            proof { gk = gk + 1; }
//@post
        proof { assert(vx_ret.rest() =~= all.map_values(|e: I| tgt(mesh.h(), e))); }
//@endfn
//@fn src/mesh/face/basics.rs trait FaceBasics :: edge_ids
//@ret r
        requires mesh.valid(), self.own(*mesh),
        ensures r.rest() == loop_ids(mesh.h(), *self),
//@pre
        let ghost h = mesh.h(); let ghost all = loop_ids(h, *self); let ghost mut gk = 0int;
        proof { assert(face_ok(mesh.h(), mesh.f(), self.id)); lemma_loop(*mesh, self.edge); }
//@loop 0
            invariant 0 <= gk <= all.len(), it_0.inv(), *it_0.mesh == *mesh, it_0.todo() == all.skip(gk), h == mesh.h(), mesh.valid(),
                forall|j: int| 0 <= j < all.len() ==> h.contains_key(#[trigger] all[j]),
                res_0@ == all.take(gk),
            ensures gk == all.len(),
            decreases it_0.todo().len(),
//@lstart 0
            proof { if gk < all.len() { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1));
                assert(link_ok(h, all[gk])); assert(all.take(gk + 1) =~= all.take(gk).push(all[gk])); } }
//@lend 0
            proof { gk = gk + 1; }
//@post
        proof { assert(vx_ret.rest() =~= all); }
//@endfn
}
impl HalfEdgeImpl {
    spec fn own(self, m: HalfEdgeMeshImpl) -> bool { m.h().contains_key(self.id) && m.h()[self.id] == self }
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: same_face
//@ret r
        requires mesh.valid(), self.own(*mesh),
        ensures r == exists|j: int| 0 <= j < orbit(nmap(mesh.h()), self.id).len() && mesh.h()[#[trigger] orbit(nmap(mesh.h()), self.id)[j]].origin_id == v,
//@pre
        let ghost h = mesh.h(); let ghost all = orbit(nmap(h), self.id); let ghost mut gk = 0int;
        proof { lemma_nperm(*mesh); lemma_orbit(nmap(h), pmap(h), hsize(*mesh), self.id); }
//@loop 0
            invariant_except_break it_0.inv(), *it_0.mesh == *mesh, it_0.todo() == all.skip(gk), res_0.is_none(),
            invariant 0 <= gk <= all.len(), h == mesh.h(),
                forall|j: int| 0 <= j < all.len() ==> h.contains_key(#[trigger] all[j]),
                res_0.is_none() ==> forall|j: int| 0 <= j < gk ==> h[#[trigger] all[j]].origin_id != v,
                res_0.is_some() ==> gk < all.len() && h[all[gk]].origin_id == v,
            ensures res_0.is_none() ==> gk == all.len(),
            decreases it_0.todo().len(),
//@lstart 0
            proof { if gk < all.len() { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1)); } }
//@lend 0
            proof { gk = gk + 1; }
//@endfn
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: same_face_back
//@ret r
        requires mesh.valid(), self.own(*mesh),
        ensures r == exists|j: int| 0 <= j < orbit(pmap(mesh.h()), self.id).len() && mesh.h()[#[trigger] orbit(pmap(mesh.h()), self.id)[j]].origin_id == v,
//@pre
        let ghost h = mesh.h(); let ghost all = orbit(pmap(h), self.id); let ghost mut gk = 0int;
        proof { lemma_nperm(*mesh); lemma_orbit(pmap(h), nmap(h), hsize(*mesh), self.id); }
//@loop 0
            invariant_except_break it_0.inv(), *it_0.mesh == *mesh, it_0.todo() == all.skip(gk), res_0.is_none(),
            invariant 0 <= gk <= all.len(), h == mesh.h(),
                forall|j: int| 0 <= j < all.len() ==> h.contains_key(#[trigger] all[j]),
                res_0.is_none() ==> forall|j: int| 0 <= j < gk ==> h[#[trigger] all[j]].origin_id != v,
                res_0.is_some() ==> gk < all.len() && h[all[gk]].origin_id == v,
            ensures res_0.is_none() ==> gk == all.len(),
            decreases it_0.todo().len(),
//@lstart 0
            proof { if gk < all.len() { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1)); } }
//@lend 0
            proof { gk = gk + 1; }
//@endfn
}
/// r is the first element of s whose target is w
spec fn first_to(h: HMap, s: Seq<I>, w: I, r: Option<HalfEdgeImpl>) -> bool {
    match r {
        Some(e) => exists|j: int| 0 <= j < s.len() && e == h[#[trigger] s[j]] && tgt(h, s[j]) == w && forall|i: int| 0 <= i < j ==> tgt(h, #[trigger] s[i]) != w,
        None => forall|i: int| 0 <= i < s.len() ==> tgt(h, #[trigger] s[i]) != w,
    }
}
spec fn id_of(r: Option<HalfEdgeImpl>) -> Option<I> { match r { Some(e) => Some(e.id), None => None } }
/// r is the first face of a that also occurs in b
spec fn common_face(a: Seq<HalfEdgeFaceImpl>, b: Seq<HalfEdgeFaceImpl>, r: Option<I>) -> bool {
    match r {
        Some(x) => exists|j: int| 0 <= j < a.len() && (#[trigger] a[j]).id == x && has_face(b, x) && forall|i: int| 0 <= i < j ==> !has_face(b, (#[trigger] a[i]).id),
        None => forall|i: int| 0 <= i < a.len() ==> !has_face(b, (#[trigger] a[i]).id),
    }
}
spec fn has_face(b: Seq<HalfEdgeFaceImpl>, x: I) -> bool { exists|j: int| 0 <= j < b.len() && (#[trigger] b[j]).id == x }

/// the items of a table listing: every live element exactly once, in slot order
spec fn listing<T: Deletable<I>>(s: Seq<T>, m: IMap<I, T>) -> bool {
    &&& forall|j: int| 0 <= j < s.len() ==> m.contains_key((#[trigger] s[j]).key()) && m[s[j].key()] == s[j]
    &&& forall|j: int, k: int| 0 <= j < k < s.len() ==> (#[trigger] s[j]).key().ix() < (#[trigger] s[k]).key().ix()
    &&& forall|i: I| #[trigger] m.contains_key(i) ==> exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).key() == i
}
proof fn lemma_live_upto<T: Deletable<I>>(d: DeletableVector<T, I>, n: int)
    requires d.inv(), 0 <= n <= d.data@.len(),
    ensures ({ let s = live_seq::<T, I>(d.data@.take(n));
        &&& forall|j: int| 0 <= j < s.len() ==> 0 <= (#[trigger] s[j]).key().ix() < n && d@.contains_key(s[j].key()) && d@[s[j].key()] == s[j]
        &&& forall|j: int, k: int| 0 <= j < k < s.len() ==> (#[trigger] s[j]).key().ix() < (#[trigger] s[k]).key().ix()
        &&& forall|i: I| #[trigger] d@.contains_key(i) && i.ix() < n ==> exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).key() == i }),
    decreases n,
{
    if n > 0 {
        lemma_live_upto(d, n - 1);
        lemma_live_step::<T, I>(d.data@, n - 1);
        let s0 = live_seq::<T, I>(d.data@.take(n - 1));
        let s = live_seq::<T, I>(d.data@.take(n));
        I::ix_inj(NONE, NONE);
        if d.data@[n - 1].sdel() {
        } else {
            assert(d.live(n - 1));
            let x = d.data@[n - 1].key();
            assert(s[s0.len() as int].key() == x);
            assert forall|i: I| #[trigger] d@.contains_key(i) && i.ix() < n implies exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).key() == i by {
                I::ix_inj(i, x);
                if i.ix() < n - 1 {
                    let j = choose|j: int| 0 <= j < s0.len() && (#[trigger] s0[j]).key() == i;
                    assert(s[j].key() == i);
                }
            }
        }
    }
}
proof fn lemma_listing<T: Deletable<I>>(d: DeletableVector<T, I>)
    requires d.inv(),
    ensures listing(live_seq::<T, I>(d.data@), d@),
{
    lemma_live_upto(d, d.data@.len() as int);
    assert(d.data@.take(d.data@.len() as int) =~= d.data@);
    assert forall|i: I| #[trigger] d@.contains_key(i) implies exists|j: int| 0 <= j < live_seq::<T, I>(d.data@).len() && (#[trigger] live_seq::<T, I>(d.data@)[j]).key() == i by { I::ix_inj(i, i); }
}

impl HalfEdgeMeshImpl {
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: vertices
//@ret r
        requires self.vertices.inv(),
        ensures listing(refs(r.rest()), self.vertices@), refs(r.rest()) == live_seq(self.vertices.data@),
//@post
        proof { lemma_listing(self.vertices); }
//@endfn
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: edges
//@ret r
        requires self.halfedges.inv(),
        ensures listing(refs(r.rest()), self.halfedges@), refs(r.rest()) == live_seq(self.halfedges.data@),
//@post
        proof { lemma_listing(self.halfedges); }
//@endfn
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: faces
//@ret r
        requires self.faces.inv(),
        ensures listing(refs(r.rest()), self.faces@), refs(r.rest()) == live_seq(self.faces.data@),
//@post
        proof { lemma_listing(self.faces); }
//@endfn
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: shared_edge
//@ret r
        requires self.valid(), self.v().contains_key(v),
        ensures first_to(self.h(), out_ids(self.h(), self.v()[v]), w, r),
//@pre
        let ghost h = self.h(); let ghost all = out_ids(h, self.v()[v]); let ghost mut gk = 0int;
        proof { lemma_out(*self, v); assert(vert_ok(h, self.v(), v)); }
//@loop 0
            invariant_except_break it_0.inv(), *it_0.mesh == *self, it_0.todo() == all.skip(gk), res_0.is_none(),
            invariant 0 <= gk <= all.len(), h == self.h(), self.valid(),
                forall|j: int| 0 <= j < all.len() ==> h.contains_key(#[trigger] all[j]),
                res_0.is_none() ==> forall|j: int| 0 <= j < gk ==> tgt(h, #[trigger] all[j]) != w,
                res_0.is_some() ==> first_to(h, all, w, res_0),
            ensures res_0.is_none() ==> gk == all.len(),
            decreases it_0.todo().len(),
//@lstart 0
            proof { if gk < all.len() { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1)); assert(link_ok(h, all[gk])); } }
//@lend 0
            proof { gk = gk + 1; }
//@endfn
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: shared_edge_id
//@ret r
        requires self.valid(), self.v().contains_key(v),
        ensures exists|o: Option<HalfEdgeImpl>| #[trigger] first_to(self.h(), out_ids(self.h(), self.v()[v]), w, o) && r == id_of(o),
//@endfn
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: shared_face
//@ret r
        requires self.valid(), self.v().contains_key(v0), self.v().contains_key(v1),
        ensures common_face(face_seq(self.h(), self.f(), out_ids(self.h(), self.v()[v0])), face_seq(self.h(), self.f(), out_ids(self.h(), self.v()[v1])), r),
//@pre
        let ghost h = self.h();
        let ghost a = face_seq(h, self.f(), out_ids(h, self.v()[v0])); let ghost b = face_seq(h, self.f(), out_ids(h, self.v()[v1]));
        let ghost mut gk = 0int; let ghost mut gl = 0int;
        proof { assert(vert_ok(h, self.v(), v0)); assert(vert_ok(h, self.v(), v1)); }
//@loop 0
            invariant_except_break it_0.rest() == a.skip(gk), res_0.is_none(),
            invariant 0 <= gk <= a.len(), h == self.h(), self.valid(), *w1 == self.v()[v1], self.v().contains_key(v1), vert_ok(h, self.v(), v1),
                b == face_seq(h, self.f(), out_ids(h, self.v()[v1])),
                res_0.is_none() ==> forall|j: int| 0 <= j < gk ==> !has_face(b, (#[trigger] a[j]).id),
                res_0.is_some() ==> common_face(a, b, res_0),
            ensures res_0.is_none() ==> gk == a.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof { gl = 0; if gk < a.len() { assert(a.skip(gk)[0] == a[gk]); assert(a.skip(gk).drop_first() =~= a.skip(gk + 1)); } }
//@lend 0
            proof { gk = gk + 1; }
//@loop 1
            invariant_except_break it_1.rest() == b.skip(gl), res_1.is_none(),
            invariant 0 <= gl <= b.len(), 0 <= gk < a.len(), f0 == a[gk],
                res_1.is_none() ==> forall|j: int| 0 <= j < gl ==> (#[trigger] b[j]).id != a[gk].id,
                res_1.is_some() ==> res_1 == Some(a[gk].id) && has_face(b, a[gk].id),
            ensures res_1.is_none() ==> gl == b.len(),
            decreases it_1.rest().len(),
//@lstart 1
            proof { if gl < b.len() { assert(b.skip(gl)[0] == b[gl]); assert(b.skip(gl).drop_first() =~= b.skip(gl + 1)); } }
//@lend 1
            proof { gl = gl + 1; }
//@endfn
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: is_open
//@ret r
        requires self.halfedges.inv(),
        ensures r == exists|e: I| #[trigger] self.h().contains_key(e) && self.h()[e].face == NONE,
//@pre
        let ghost all = live_seq(self.halfedges.data@); let ghost mut gk = 0int;
        proof { lemma_listing(self.halfedges); }
//@loop 0
            invariant_except_break refs(it_0.rest()) == all.skip(gk), !res_0,
            invariant 0 <= gk <= all.len(), listing(all, self.h()),
                !res_0 ==> forall|j: int| 0 <= j < gk ==> (#[trigger] all[j]).face != NONE,
                res_0 ==> exists|e: I| #[trigger] self.h().contains_key(e) && self.h()[e].face == NONE,
            ensures !res_0 ==> gk == all.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof { assert(refs(it_0.rest()).len() == it_0.rest().len());
                if gk < all.len() { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1));
                assert(refs(it_0.rest())[0] == all[gk]); assert(refs(it_0.rest().drop_first()) =~= refs(it_0.rest()).drop_first());
                assert(self.h().contains_key(all[gk].key())); } }
//@lend 0
            proof { gk = gk + 1; }
//@endfn
//@fn src/halfedge/mesh/halfedge.rs impl HalfEdgeMesh for HalfEdgeMeshImpl :: edges_from
//@ret r
        requires links(self.h()), self.h().contains_key(e),
        ensures r.inv(), *r.mesh == *self, r.todo() == orbit(nmap(self.h()), e),
//@pre
        proof { assert(link_ok(self.h(), e)); }
//@endfn
//@fn src/halfedge/mesh/halfedge.rs impl HalfEdgeMesh for HalfEdgeMeshImpl :: edges_back_from
//@ret r
        requires links(self.h()), self.h().contains_key(e),
        ensures r.inv(), *r.mesh == *self, r.todo() == orbit(pmap(self.h()), e),
//@pre
        proof { assert(link_ok(self.h(), e)); }
//@endfn
}
