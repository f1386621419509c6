// Element accessors: every getter/setter of edges, vertices and faces.
impl HalfEdgeImpl {
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: new
//@ret r
        requires next != NONE, prev != NONE, twin != NONE,
        ensures r.id == NONE, r.next == next, r.twin == twin, r.prev == prev, r.origin_id == origin, r.face == face, r.payload == payload,
//@endfn
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: set_face
        ensures *final(self) == (HalfEdgeImpl { face, ..*old(self) }),
//@endfn
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: delete_face
        ensures *final(self) == (HalfEdgeImpl { face: NONE, ..*old(self) }),
//@endfn
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: set_next
        ensures *final(self) == (HalfEdgeImpl { next, ..*old(self) }),
//@endfn
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: set_prev
        ensures *final(self) == (HalfEdgeImpl { prev, ..*old(self) }),
//@endfn
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: set_twin
        ensures *final(self) == (HalfEdgeImpl { twin, ..*old(self) }),
//@endfn
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: set_origin
        ensures *final(self) == (HalfEdgeImpl { origin_id: origin, ..*old(self) }),
//@endfn
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: next
//@ret r
        requires mesh.h().contains_key(self.next),
        ensures r == mesh.h()[self.next],
//@endfn
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: next_id
//@ret r
        ensures r == self.next,
//@endfn
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: twin
//@ret r
        requires mesh.h().contains_key(self.twin),
        ensures r == mesh.h()[self.twin],
//@endfn
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: twin_id
//@ret r
        ensures r == self.twin,
//@endfn
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: prev
//@ret r
        requires mesh.h().contains_key(self.prev),
        ensures r == mesh.h()[self.prev],
//@endfn
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: prev_id
//@ret r
        ensures r == self.prev,
//@endfn
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: origin_id
//@ret r
        ensures r == self.origin_id,
//@endfn
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: target_id
//@ret r
        requires mesh.h().contains_key(self.next),
        ensures r == mesh.h()[self.next].origin_id,
//@endfn
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: face
//@ret r
        requires self.face != NONE ==> mesh.f().contains_key(self.face),
        ensures self.face == NONE ==> r.is_none(),
            self.face != NONE ==> r.is_some() && *r.unwrap() == mesh.f()[self.face],
//@endfn
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: face_id
//@ret r
        ensures r == self.face,
//@endfn
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: other_face
//@ret r
        requires mesh.h().contains_key(self.twin),
            mesh.h()[self.twin].face != NONE ==> mesh.f().contains_key(mesh.h()[self.twin].face),
        ensures mesh.h()[self.twin].face == NONE ==> r.is_none(),
            mesh.h()[self.twin].face != NONE ==> r.is_some() && *r.unwrap() == mesh.f()[mesh.h()[self.twin].face],
//@endfn
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: is_boundary_self
//@ret r
        ensures r == (self.face == NONE),
//@endfn
//@fn src/halfedge/edge/basics.rs impl EdgeBasics for HalfEdgeImpl :: id
//@ret r
        ensures r == self.id,
//@endfn
//@fn src/halfedge/edge/basics.rs impl EdgeBasics for HalfEdgeImpl :: origin
//@ret r
        requires mesh.v().contains_key(self.origin_id),
        ensures *r == mesh.v()[self.origin_id],
//@endfn
//@fn src/halfedge/edge/basics.rs impl EdgeBasics for HalfEdgeImpl :: target
//@ret r
        requires mesh.h().contains_key(self.next), mesh.v().contains_key(mesh.h()[self.next].origin_id),
        ensures *r == mesh.v()[mesh.h()[self.next].origin_id],
//@endfn
//@fn src/halfedge/edge/basics.rs impl EdgeBasics for HalfEdgeImpl :: is_boundary
//@ret r
        requires mesh.h().contains_key(self.twin),
        ensures r == (self.face == NONE || mesh.h()[self.twin].face == NONE),
//@endfn
//@fn src/halfedge/edge/basics.rs impl EdgeBasics for HalfEdgeImpl :: payload
//@ret r
        ensures *r == self.payload,
//@endfn
//@fn src/halfedge/edge/basics.rs impl EdgeBasics for HalfEdgeImpl :: payload_mut
//@ret r
        ensures *r == old(self).payload, *final(self) == (HalfEdgeImpl { payload: *final(r), ..*old(self) }),
//@endfn
//@fn src/halfedge/edge/basics.rs impl EdgeBasics for HalfEdgeImpl :: face_ids
//@ret r
        requires mesh.h().contains_key(self.twin),
        ensures r.rest() == (if self.face != NONE { seq![self.face] } else { Seq::empty() })
            + (if mesh.h()[self.twin].face != NONE { seq![mesh.h()[self.twin].face] } else { Seq::empty() }),
//@post
        proof { assert(vx_ret.rest() =~= (if self.face != NONE { seq![self.face] } else { Seq::empty() })
            + (if mesh.h()[self.twin].face != NONE { seq![mesh.h()[self.twin].face] } else { Seq::empty() })); }
//@endfn
//@fn src/halfedge/edge/basics.rs impl EdgeBasics for HalfEdgeImpl :: edges_face
//@ret r
        ensures r.fresh(*self, *mesh),
//@endfn
//@fn src/halfedge/edge/basics.rs impl EdgeBasics for HalfEdgeImpl :: edges_face_back
//@ret r
        ensures r.fresh(*self, *mesh),
//@endfn
}
impl HalfEdgeVertexImpl {
//@fn src/halfedge/vertex/mod.rs impl HalfEdgeVertexImpl :: new
//@ret r
        ensures r.id == NONE, r.edge == edge, r.payload == payload,
//@endfn
//@fn src/halfedge/vertex/mod.rs impl HalfEdgeVertex for HalfEdgeVertexImpl :: set_edge
        ensures *final(self) == (HalfEdgeVertexImpl { edge, ..*old(self) }),
//@endfn
//@fn src/halfedge/vertex/basics.rs impl VertexBasics for HalfEdgeVertexImpl :: id
//@ret r
        ensures r == self.id,
//@endfn
//@fn src/halfedge/vertex/basics.rs impl VertexBasics for HalfEdgeVertexImpl :: payload
//@ret r
        ensures *r == self.payload,
//@endfn
//@fn src/halfedge/vertex/basics.rs impl VertexBasics for HalfEdgeVertexImpl :: payload_mut
//@ret r
        ensures *r == old(self).payload, *final(self) == (HalfEdgeVertexImpl { payload: *final(r), ..*old(self) }),
//@endfn
//@fn src/halfedge/vertex/basics.rs impl VertexBasics for HalfEdgeVertexImpl :: edge_id
//@ret r
        ensures r == self.edge,
//@endfn
//@fn src/halfedge/vertex/basics.rs impl VertexBasics for HalfEdgeVertexImpl :: edge
//@ret r
        requires self.edge != NONE ==> mesh.h().contains_key(self.edge),
        ensures r == (if self.edge == NONE { None } else { Some(mesh.h()[self.edge]) }),
//@endfn
//@fn src/halfedge/vertex/basics.rs impl VertexBasics for HalfEdgeVertexImpl :: has_only_one_edge
//@ret r
        requires self.edge != NONE ==> mesh.h().contains_key(self.edge),
        ensures r == (self.edge != NONE && mesh.h()[self.edge].prev == mesh.h()[self.edge].twin),
//@endfn
}
impl HalfEdgeFaceImpl {
//@fn src/halfedge/face/mod.rs impl HalfEdgeFaceImpl :: new
//@ret r
        requires edge != NONE,
        ensures r.id == NONE, r.edge == edge, r.payload == payload, r.curved == curved,
//@endfn
//@fn src/halfedge/face/mod.rs impl FaceBasics for HalfEdgeFaceImpl :: edge
//@ret r
        requires mesh.h().contains_key(self.edge),
        ensures r == mesh.h()[self.edge],
//@endfn
//@fn src/halfedge/face/mod.rs impl FaceBasics for HalfEdgeFaceImpl :: edge_id
//@ret r
        ensures r == self.edge,
//@endfn
//@fn src/halfedge/face/mod.rs impl FaceBasics for HalfEdgeFaceImpl :: set_edge
        ensures *final(self) == (HalfEdgeFaceImpl { edge, ..*old(self) }),
//@endfn
//@fn src/halfedge/face/mod.rs impl FaceBasics for HalfEdgeFaceImpl :: id
//@ret r
        ensures r == self.id,
//@endfn
//@fn src/halfedge/face/mod.rs impl FaceBasics for HalfEdgeFaceImpl :: may_be_curved
//@ret r
        ensures r == self.curved,
//@endfn
//@fn src/halfedge/face/mod.rs impl FaceBasics for HalfEdgeFaceImpl :: payload
//@ret r
        ensures *r == self.payload,
//@endfn
//@fn src/halfedge/face/mod.rs impl FaceBasics for HalfEdgeFaceImpl :: payload_mut
//@ret r
        ensures *r == old(self).payload, *final(self) == (HalfEdgeFaceImpl { payload: *final(r), ..*old(self) }),
//@endfn
}
