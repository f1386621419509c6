// mesh::mesh::transform: every live payload once, nothing else.
// The payload types are opaque; what one payload operation does is an arbitrary function.

#[verifier::external_body]
pub struct TTrans { p: u8 }
#[verifier::external_body]
pub struct TVec { p: u8 }
#[verifier::external_body]
pub struct TRot { p: u8 }

/// which of the four operations, with its argument
pub ghost enum Op { Transform(TTrans), Translate(TVec), Rotate(TRot), Scale(TVec) }
pub uninterp spec fn vp_op(p: VP, o: Op) -> VP;
pub uninterp spec fn ep_op(p: EP, o: Op) -> EP;
pub uninterp spec fn fp_op(p: FP, o: Op) -> FP;
pub uninterp spec fn mp_op(p: MP, o: Op) -> MP;
//@include mesh_xf_vp.rs

spec fn v_op(o: Op) -> spec_fn(HalfEdgeVertexImpl) -> HalfEdgeVertexImpl { |x: HalfEdgeVertexImpl| HalfEdgeVertexImpl { payload: vp_op(x.payload, o), ..x } }
spec fn e_op(o: Op) -> spec_fn(HalfEdgeImpl) -> HalfEdgeImpl { |x: HalfEdgeImpl| HalfEdgeImpl { payload: ep_op(x.payload, o), ..x } }
spec fn f_op(o: Op) -> spec_fn(HalfEdgeFaceImpl) -> HalfEdgeFaceImpl { |x: HalfEdgeFaceImpl| HalfEdgeFaceImpl { payload: fp_op(x.payload, o), ..x } }

/// the whole mesh with the operation applied to every live payload once
spec fn mesh_op(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, op: Op) -> bool {
    &&& mapped(o.vertices, n.vertices, v_op(op))
    &&& mapped(o.halfedges, n.halfedges, e_op(op))
    &&& mapped(o.faces, n.faces, f_op(op))
    &&& n.payload == mp_op(o.payload, op)
}
/// connectivity, handles and counts stay; a valid mesh stays valid
spec fn only_payload(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, op: Op) -> bool {
    &&& forall|i: I| #[trigger] n.v().contains_key(i) == o.v().contains_key(i)
    &&& forall|i: I| #[trigger] n.h().contains_key(i) == o.h().contains_key(i)
    &&& forall|i: I| #[trigger] n.f().contains_key(i) == o.f().contains_key(i)
    &&& forall|i: I| #[trigger] o.v().contains_key(i) ==> n.v()[i] == (HalfEdgeVertexImpl { payload: vp_op(o.v()[i].payload, op), ..o.v()[i] })
    &&& forall|i: I| #[trigger] o.h().contains_key(i) ==> n.h()[i] == (HalfEdgeImpl { payload: ep_op(o.h()[i].payload, op), ..o.h()[i] })
    &&& forall|i: I| #[trigger] o.f().contains_key(i) ==> n.f()[i] == (HalfEdgeFaceImpl { payload: fp_op(o.f()[i].payload, op), ..o.f()[i] })
    &&& n.vertices.in_use() == o.vertices.in_use() && n.halfedges.in_use() == o.halfedges.in_use() && n.faces.in_use() == o.faces.in_use()
    &&& n.payload == mp_op(o.payload, op)
    &&& o.inv() ==> n.inv()
    &&& o.valid() ==> n.valid()
}
proof fn lemma_mesh_op(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, op: Op)
    requires o.inv(), mesh_op(o, n, op),
    ensures only_payload(o, n, op),
{
    lemma_mapped(o.vertices, n.vertices, v_op(op));
    lemma_mapped(o.halfedges, n.halfedges, e_op(op));
    lemma_mapped(o.faces, n.faces, f_op(op));
    if o.valid() {
        let (h, v, f, h2, v2, f2) = (o.h(), o.v(), o.f(), n.h(), n.v(), n.f());
        assert forall|e: I| h2.contains_key(e) implies #[trigger] link_ok(h2, e) by { assert(link_ok(h, e)); }
        assert forall|e: I| h2.contains_key(e) implies #[trigger] twin_ok(h2, e) by { assert(twin_ok(h, e)); }
        assert forall|e: I| h2.contains_key(e) implies #[trigger] edge_ok(h2, v2, f2, e) by { assert(edge_ok(h, v, f, e)); assert(link_ok(h, e)); assert(twin_ok(h, e)); }
        assert forall|x: I| v2.contains_key(x) implies #[trigger] vert_ok(h2, v2, x) by { assert(vert_ok(h, v, x)); }
        assert forall|x: I| f2.contains_key(x) implies #[trigger] face_ok(h2, f2, x) by { assert(face_ok(h, f, x)); }
        assert(nmap(h2) =~= nmap(h));
        assert forall|e: I| h2.contains_key(e) implies #[trigger] loop_ok(h2, f2, e) by { assert(loop_ok(h, f, e)); assert(edge_ok(h, v, f, e)); }
    }
}

//@known live_iter_mut vertices_mut edges_mut faces_mut payload_mut transform translate rotate scale
//@types T::Trans=TTrans; T::Vec=TVec; T::Rot=TRot
impl HalfEdgeVertexImpl {
//@fn src/halfedge/vertex/basics.rs impl VertexBasics for HalfEdgeVertexImpl :: payload_mut
//@ret r
        ensures *r == old(self).payload, *final(self) == (HalfEdgeVertexImpl { payload: *final(r), ..*old(self) }),
//@endfn
}
impl HalfEdgeImpl {
//@fn src/halfedge/edge/basics.rs impl EdgeBasics for HalfEdgeImpl :: payload_mut
//@ret r
        ensures *r == old(self).payload, *final(self) == (HalfEdgeImpl { payload: *final(r), ..*old(self) }),
//@endfn
}
impl HalfEdgeFaceImpl {
//@fn src/halfedge/face/mod.rs impl FaceBasics for HalfEdgeFaceImpl :: payload_mut
//@ret r
        ensures *r == old(self).payload, *final(self) == (HalfEdgeFaceImpl { payload: *final(r), ..*old(self) }),
//@endfn
}
impl HalfEdgeMeshImpl {
    // derived; a field-wise copy
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: vertices_mut
//@ret r
//@retty GIter<&mut HalfEdgeVertexImpl>
        ensures lent(old(self).vertices, final(self).vertices, r.rest()),
            final(self).halfedges == old(self).halfedges, final(self).faces == old(self).faces, final(self).payload == old(self).payload,
//@endfn
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: edges_mut
//@ret r
//@retty GIter<&mut HalfEdgeImpl>
        ensures lent(old(self).halfedges, final(self).halfedges, r.rest()),
            final(self).vertices == old(self).vertices, final(self).faces == old(self).faces, final(self).payload == old(self).payload,
//@endfn
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: faces_mut
//@ret r
//@retty GIter<&mut HalfEdgeFaceImpl>
        ensures lent(old(self).faces, final(self).faces, r.rest()),
            final(self).halfedges == old(self).halfedges, final(self).vertices == old(self).vertices, final(self).payload == old(self).payload,
//@endfn
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: payload_mut
//@ret r
        ensures *r == old(self).payload, *final(self) == (HalfEdgeMeshImpl { payload: *final(r), ..*old(self) }),
//@endfn
//@fn src/mesh/mesh/transform.rs trait TransformableMesh :: transform
//@ret r
        requires old(self).inv(),
        ensures only_payload(*old(self), *r, Op::Transform(*t)), mesh_op(*old(self), *r, Op::Transform(*t)), *final(self) == *final(r),
//@aftercall vertices_mut 0
        let ghost all_0 = it_0.rest();
        let ghost mut g_0 = 0int;
        proof { assert(all_0.skip(0) =~= all_0); }
//@loop 0
            invariant 0 <= g_0 <= all_0.len(), it_0.rest() == all_0.skip(g_0),
                forall|i: int| 0 <= i < g_0 ==> #[trigger] fin(all_0, i) == v_op(Op::Transform(*t))(cur(all_0, i)),
            ensures g_0 == all_0.len(),
            decreases all_0.len() - g_0,
//@lend 0
            proof { assert(fin(all_0, g_0) == v_op(Op::Transform(*t))(cur(all_0, g_0))); g_0 = g_0 + 1; assert(it_0.rest() =~= all_0.skip(g_0)); }
//@after 0
        proof { lemma_lent(old(self).vertices, self.vertices, all_0, v_op(Op::Transform(*t))); }
//@aftercall edges_mut 0
        let ghost all_1 = it_1.rest();
        let ghost mut g_1 = 0int;
        proof { assert(all_1.skip(0) =~= all_1); }
//@loop 1
            invariant 0 <= g_1 <= all_1.len(), it_1.rest() == all_1.skip(g_1),
                forall|i: int| 0 <= i < g_1 ==> #[trigger] fin(all_1, i) == e_op(Op::Transform(*t))(cur(all_1, i)),
            ensures g_1 == all_1.len(),
            decreases all_1.len() - g_1,
//@lend 1
            proof { assert(fin(all_1, g_1) == e_op(Op::Transform(*t))(cur(all_1, g_1))); g_1 = g_1 + 1; assert(it_1.rest() =~= all_1.skip(g_1)); }
//@after 1
        proof { lemma_lent(old(self).halfedges, self.halfedges, all_1, e_op(Op::Transform(*t))); }
//@aftercall faces_mut 0
        let ghost all_2 = it_2.rest();
        let ghost mut g_2 = 0int;
        proof { assert(all_2.skip(0) =~= all_2); }
//@loop 2
            invariant 0 <= g_2 <= all_2.len(), it_2.rest() == all_2.skip(g_2),
                forall|i: int| 0 <= i < g_2 ==> #[trigger] fin(all_2, i) == f_op(Op::Transform(*t))(cur(all_2, i)),
            ensures g_2 == all_2.len(),
            decreases all_2.len() - g_2,
//@lend 2
            proof { assert(fin(all_2, g_2) == f_op(Op::Transform(*t))(cur(all_2, g_2))); g_2 = g_2 + 1; assert(it_2.rest() =~= all_2.skip(g_2)); }
//@after 2
        proof { lemma_lent(old(self).faces, self.faces, all_2, f_op(Op::Transform(*t))); }
//@post
        proof { lemma_mesh_op(*old(self), *self, Op::Transform(*t)); }
//@endfn
//@fn src/mesh/mesh/transform.rs trait TransformableMesh :: translate
//@ret r
        requires old(self).inv(),
        ensures only_payload(*old(self), *r, Op::Translate(*t)), mesh_op(*old(self), *r, Op::Translate(*t)), *final(self) == *final(r),
//@aftercall vertices_mut 0
        let ghost all_0 = it_0.rest();
        let ghost mut g_0 = 0int;
        proof { assert(all_0.skip(0) =~= all_0); }
//@loop 0
            invariant 0 <= g_0 <= all_0.len(), it_0.rest() == all_0.skip(g_0),
                forall|i: int| 0 <= i < g_0 ==> #[trigger] fin(all_0, i) == v_op(Op::Translate(*t))(cur(all_0, i)),
            ensures g_0 == all_0.len(),
            decreases all_0.len() - g_0,
//@lend 0
            proof { assert(fin(all_0, g_0) == v_op(Op::Translate(*t))(cur(all_0, g_0))); g_0 = g_0 + 1; assert(it_0.rest() =~= all_0.skip(g_0)); }
//@after 0
        proof { lemma_lent(old(self).vertices, self.vertices, all_0, v_op(Op::Translate(*t))); }
//@aftercall edges_mut 0
        let ghost all_1 = it_1.rest();
        let ghost mut g_1 = 0int;
        proof { assert(all_1.skip(0) =~= all_1); }
//@loop 1
            invariant 0 <= g_1 <= all_1.len(), it_1.rest() == all_1.skip(g_1),
                forall|i: int| 0 <= i < g_1 ==> #[trigger] fin(all_1, i) == e_op(Op::Translate(*t))(cur(all_1, i)),
            ensures g_1 == all_1.len(),
            decreases all_1.len() - g_1,
//@lend 1
            proof { assert(fin(all_1, g_1) == e_op(Op::Translate(*t))(cur(all_1, g_1))); g_1 = g_1 + 1; assert(it_1.rest() =~= all_1.skip(g_1)); }
//@after 1
        proof { lemma_lent(old(self).halfedges, self.halfedges, all_1, e_op(Op::Translate(*t))); }
//@aftercall faces_mut 0
        let ghost all_2 = it_2.rest();
        let ghost mut g_2 = 0int;
        proof { assert(all_2.skip(0) =~= all_2); }
//@loop 2
            invariant 0 <= g_2 <= all_2.len(), it_2.rest() == all_2.skip(g_2),
                forall|i: int| 0 <= i < g_2 ==> #[trigger] fin(all_2, i) == f_op(Op::Translate(*t))(cur(all_2, i)),
            ensures g_2 == all_2.len(),
            decreases all_2.len() - g_2,
//@lend 2
            proof { assert(fin(all_2, g_2) == f_op(Op::Translate(*t))(cur(all_2, g_2))); g_2 = g_2 + 1; assert(it_2.rest() =~= all_2.skip(g_2)); }
//@after 2
        proof { lemma_lent(old(self).faces, self.faces, all_2, f_op(Op::Translate(*t))); }
//@post
        proof { lemma_mesh_op(*old(self), *self, Op::Translate(*t)); }
//@endfn
//@fn src/mesh/mesh/transform.rs trait TransformableMesh :: rotate
//@ret r
        requires old(self).inv(),
        ensures only_payload(*old(self), *r, Op::Rotate(*rotation)), mesh_op(*old(self), *r, Op::Rotate(*rotation)), *final(self) == *final(r),
//@aftercall vertices_mut 0
        let ghost all_0 = it_0.rest();
        let ghost mut g_0 = 0int;
        proof { assert(all_0.skip(0) =~= all_0); }
//@loop 0
            invariant 0 <= g_0 <= all_0.len(), it_0.rest() == all_0.skip(g_0),
                forall|i: int| 0 <= i < g_0 ==> #[trigger] fin(all_0, i) == v_op(Op::Rotate(*rotation))(cur(all_0, i)),
            ensures g_0 == all_0.len(),
            decreases all_0.len() - g_0,
//@lend 0
            proof { assert(fin(all_0, g_0) == v_op(Op::Rotate(*rotation))(cur(all_0, g_0))); g_0 = g_0 + 1; assert(it_0.rest() =~= all_0.skip(g_0)); }
//@after 0
        proof { lemma_lent(old(self).vertices, self.vertices, all_0, v_op(Op::Rotate(*rotation))); }
//@aftercall edges_mut 0
        let ghost all_1 = it_1.rest();
        let ghost mut g_1 = 0int;
        proof { assert(all_1.skip(0) =~= all_1); }
//@loop 1
            invariant 0 <= g_1 <= all_1.len(), it_1.rest() == all_1.skip(g_1),
                forall|i: int| 0 <= i < g_1 ==> #[trigger] fin(all_1, i) == e_op(Op::Rotate(*rotation))(cur(all_1, i)),
            ensures g_1 == all_1.len(),
            decreases all_1.len() - g_1,
//@lend 1
            proof { assert(fin(all_1, g_1) == e_op(Op::Rotate(*rotation))(cur(all_1, g_1))); g_1 = g_1 + 1; assert(it_1.rest() =~= all_1.skip(g_1)); }
//@after 1
        proof { lemma_lent(old(self).halfedges, self.halfedges, all_1, e_op(Op::Rotate(*rotation))); }
//@aftercall faces_mut 0
        let ghost all_2 = it_2.rest();
        let ghost mut g_2 = 0int;
        proof { assert(all_2.skip(0) =~= all_2); }
//@loop 2
            invariant 0 <= g_2 <= all_2.len(), it_2.rest() == all_2.skip(g_2),
                forall|i: int| 0 <= i < g_2 ==> #[trigger] fin(all_2, i) == f_op(Op::Rotate(*rotation))(cur(all_2, i)),
            ensures g_2 == all_2.len(),
            decreases all_2.len() - g_2,
//@lend 2
            proof { assert(fin(all_2, g_2) == f_op(Op::Rotate(*rotation))(cur(all_2, g_2))); g_2 = g_2 + 1; assert(it_2.rest() =~= all_2.skip(g_2)); }
//@after 2
        proof { lemma_lent(old(self).faces, self.faces, all_2, f_op(Op::Rotate(*rotation))); }
//@post
        proof { lemma_mesh_op(*old(self), *self, Op::Rotate(*rotation)); }
//@endfn
//@fn src/mesh/mesh/transform.rs trait TransformableMesh :: scale
//@ret r
        requires old(self).inv(),
        ensures only_payload(*old(self), *r, Op::Scale(*scale)), mesh_op(*old(self), *r, Op::Scale(*scale)), *final(self) == *final(r),
//@aftercall vertices_mut 0
        let ghost all_0 = it_0.rest();
        let ghost mut g_0 = 0int;
        proof { assert(all_0.skip(0) =~= all_0); }
//@loop 0
            invariant 0 <= g_0 <= all_0.len(), it_0.rest() == all_0.skip(g_0),
                forall|i: int| 0 <= i < g_0 ==> #[trigger] fin(all_0, i) == v_op(Op::Scale(*scale))(cur(all_0, i)),
            ensures g_0 == all_0.len(),
            decreases all_0.len() - g_0,
//@lend 0
            proof { assert(fin(all_0, g_0) == v_op(Op::Scale(*scale))(cur(all_0, g_0))); g_0 = g_0 + 1; assert(it_0.rest() =~= all_0.skip(g_0)); }
//@after 0
        proof { lemma_lent(old(self).vertices, self.vertices, all_0, v_op(Op::Scale(*scale))); }
//@aftercall edges_mut 0
        let ghost all_1 = it_1.rest();
        let ghost mut g_1 = 0int;
        proof { assert(all_1.skip(0) =~= all_1); }
//@loop 1
            invariant 0 <= g_1 <= all_1.len(), it_1.rest() == all_1.skip(g_1),
                forall|i: int| 0 <= i < g_1 ==> #[trigger] fin(all_1, i) == e_op(Op::Scale(*scale))(cur(all_1, i)),
            ensures g_1 == all_1.len(),
            decreases all_1.len() - g_1,
//@lend 1
            proof { assert(fin(all_1, g_1) == e_op(Op::Scale(*scale))(cur(all_1, g_1))); g_1 = g_1 + 1; assert(it_1.rest() =~= all_1.skip(g_1)); }
//@after 1
        proof { lemma_lent(old(self).halfedges, self.halfedges, all_1, e_op(Op::Scale(*scale))); }
//@aftercall faces_mut 0
        let ghost all_2 = it_2.rest();
        let ghost mut g_2 = 0int;
        proof { assert(all_2.skip(0) =~= all_2); }
//@loop 2
            invariant 0 <= g_2 <= all_2.len(), it_2.rest() == all_2.skip(g_2),
                forall|i: int| 0 <= i < g_2 ==> #[trigger] fin(all_2, i) == f_op(Op::Scale(*scale))(cur(all_2, i)),
            ensures g_2 == all_2.len(),
            decreases all_2.len() - g_2,
//@lend 2
            proof { assert(fin(all_2, g_2) == f_op(Op::Scale(*scale))(cur(all_2, g_2))); g_2 = g_2 + 1; assert(it_2.rest() =~= all_2.skip(g_2)); }
//@after 2
        proof { lemma_lent(old(self).faces, self.faces, all_2, f_op(Op::Scale(*scale))); }
//@post
        proof { lemma_mesh_op(*old(self), *self, Op::Scale(*scale)); }
//@endfn
//@fn src/mesh/mesh/transform.rs trait TransformableMesh :: transformed
//@ret r
        requires self.inv(),
        ensures only_payload(*self, r, Op::Transform(*t)), mesh_op(*self, r, Op::Transform(*t)),
//@endfn
//@fn src/mesh/mesh/transform.rs trait TransformableMesh :: translated
//@ret r
        requires self.inv(),
        ensures only_payload(*self, r, Op::Translate(*t)), mesh_op(*self, r, Op::Translate(*t)),
//@endfn
//@fn src/mesh/mesh/transform.rs trait TransformableMesh :: rotated
//@ret r
        requires self.inv(),
        ensures only_payload(*self, r, Op::Rotate(*rotation)), mesh_op(*self, r, Op::Rotate(*rotation)),
//@endfn
//@fn src/mesh/mesh/transform.rs trait TransformableMesh :: scaled
//@ret r
        requires self.inv(),
        ensures only_payload(*self, r, Op::Scale(*scale)), mesh_op(*self, r, Op::Scale(*scale)),
//@endfn
}
