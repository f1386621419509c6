// The three element structs of the half-edge mesh, generated from the current struct declarations.
// Payload types are opaque (no axioms): everything proved holds for every payload type.

#[verifier::external_body]
pub struct VP { p: u8 }
#[verifier::external_body]
pub struct EP { p: u8 }
#[verifier::external_body]
pub struct FP { p: u8 }
impl VP { #[verifier::external_body] fn allocate() -> VP { unimplemented!() } }
impl EP { #[verifier::external_body] fn allocate() -> EP { unimplemented!() } }
impl FP { #[verifier::external_body] fn allocate() -> FP { unimplemented!() } }

type I = $IDX$;
//@types T=_; T::E=I; T::V=I; T::F=I; T::EP=EP; T::VP=VP; T::FP=FP; IndexType=<I as IndexType>
spec const NONE: I = $IDX$::MAX;
//@struct src/halfedge/edge/mod.rs HalfEdgeImpl
//@struct src/halfedge/vertex/mod.rs HalfEdgeVertexImpl
//@struct src/halfedge/face/mod.rs HalfEdgeFaceImpl

impl Deletable<I> for HalfEdgeImpl {
    spec fn sdel(self) -> bool { self.id == NONE }
    spec fn key(self) -> I { self.id }
    spec fn id_ok(self, id: I) -> bool { id != NONE && self.next != id && self.prev != id }
    spec fn with_id(self, id: I) -> Self { HalfEdgeImpl { id, ..self } }
    spec fn erased(self) -> Self { HalfEdgeImpl { id: NONE, ..self } }
//@fn src/halfedge/edge/mod.rs impl Deletable for HalfEdgeImpl :: delete
//@endfn
//@fn src/halfedge/edge/mod.rs impl Deletable for HalfEdgeImpl :: is_deleted
//@ret r
//@endfn
//@fn src/halfedge/edge/mod.rs impl Deletable for HalfEdgeImpl :: set_id
//@endfn
//@fn src/halfedge/edge/mod.rs impl Deletable for HalfEdgeImpl :: allocate
//@ret r
//@endfn
}
impl Deletable<I> for HalfEdgeVertexImpl {
    spec fn sdel(self) -> bool { self.id == NONE }
    spec fn key(self) -> I { self.id }
    spec fn id_ok(self, id: I) -> bool { id != NONE }
    spec fn with_id(self, id: I) -> Self { HalfEdgeVertexImpl { id, ..self } }
    spec fn erased(self) -> Self { HalfEdgeVertexImpl { id: NONE, ..self } }
//@fn src/halfedge/vertex/mod.rs impl Deletable for HalfEdgeVertexImpl :: delete
//@endfn
//@fn src/halfedge/vertex/mod.rs impl Deletable for HalfEdgeVertexImpl :: is_deleted
//@ret r
//@endfn
//@fn src/halfedge/vertex/mod.rs impl Deletable for HalfEdgeVertexImpl :: set_id
//@endfn
//@fn src/halfedge/vertex/mod.rs impl Deletable for HalfEdgeVertexImpl :: allocate
//@ret r
//@endfn
}
impl Deletable<I> for HalfEdgeFaceImpl {
    spec fn sdel(self) -> bool { self.id == NONE }
    spec fn key(self) -> I { self.id }
    spec fn id_ok(self, id: I) -> bool { id != NONE }
    spec fn with_id(self, id: I) -> Self { HalfEdgeFaceImpl { id, ..self } }
    spec fn erased(self) -> Self { HalfEdgeFaceImpl { id: NONE, ..self } }
//@fn src/halfedge/face/mod.rs impl Deletable for HalfEdgeFaceImpl :: delete
//@endfn
//@fn src/halfedge/face/mod.rs impl Deletable for HalfEdgeFaceImpl :: is_deleted
//@ret r
//@endfn
//@fn src/halfedge/face/mod.rs impl Deletable for HalfEdgeFaceImpl :: set_id
//@endfn
//@fn src/halfedge/face/mod.rs impl Deletable for HalfEdgeFaceImpl :: allocate
//@ret r
//@endfn
}
