// Queries built on the traversals.
//@known vertex edge face vertex_mut edge_mut face_mut has_vertex next twin prev next_id twin_id prev_id origin_id target_id face_id id origin target is_boundary is_boundary_self edges_face edges_face_back edges_from edges_back_from edges_out edges_in vertices faces edges edge_id has_only_one_edge num_edges num_vertices num_triangles shared_edge shared_edge_id shared_face other_face same_face same_face_back payload set_face delete_face set_next set_prev set_twin set_origin set_edge vertex_ids edge_ids neighbor_ids degree outgoing_boundary_edge ingoing_boundary_edge face_ids twin_edges is_open new allocate set push delete_internal get get_mut has live_iter len capacity clear empty flip_edge

/// outgoing edges of a vertex, clockwise from its representative edge
spec fn out_ids(h: HMap, x: HalfEdgeVertexImpl) -> Seq<I> {
    if x.edge == NONE { Seq::empty() } else { orbit(wmap(h), x.edge) }
}
spec fn in_ids(h: HMap, x: HalfEdgeVertexImpl) -> Seq<I> { out_ids(h, x).map_values(|e: I| h[e].twin) }
/// edges of a face, counter-clockwise from its representative edge
spec fn loop_ids(h: HMap, x: HalfEdgeFaceImpl) -> Seq<I> { orbit(nmap(h), x.edge) }
spec fn tgt(h: HMap, e: I) -> I { h[h[e].next].origin_id }

proof fn lemma_out(m: HalfEdgeMeshImpl, x: I)
    requires links(m.h()), twins(m.h()), edges_ok(m.h(), m.v(), m.f()), verts_ok(m.h(), m.v()), m.v().contains_key(x),
    ensures
        forall|j: int| 0 <= j < out_ids(m.h(), m.v()[x]).len() ==> m.h().contains_key(#[trigger] out_ids(m.h(), m.v()[x])[j])
            && m.h()[out_ids(m.h(), m.v()[x])[j]].origin_id == x,
        out_ids(m.h(), m.v()[x]).no_duplicates(),
        out_ids(m.h(), m.v()[x]).len() <= hsize(m),
        m.v()[x].edge != NONE ==> m.h().contains_key(m.v()[x].edge) && out_ids(m.h(), m.v()[x]).len() > 0 && out_ids(m.h(), m.v()[x])[0] == m.v()[x].edge,
{
    let h = m.h();
    assert(vert_ok(h, m.v(), x));
    let e = m.v()[x].edge;
    if e != NONE {
        lemma_wperm(m);
        let p = wmap(h);
        lemma_orbit(p, vmap(h), hsize(m), e);
        let s = |y: I| h.contains_key(y) && h[y].origin_id == x;
        assert forall|y: I| s(y) implies s(#[trigger] p[y]) by {
            assert(twin_ok(h, y)); assert(link_ok(h, h[y].twin)); assert(edge_ok(h, m.v(), m.f(), h[y].twin));
        }
        let o = orbit(p, e);
        assert forall|j: int| 0 <= j < o.len() implies h.contains_key(#[trigger] o[j]) && h[o[j]].origin_id == x by {
            lemma_closed(p, e, s, j as nat);
        }
    }
}
proof fn lemma_loop(m: HalfEdgeMeshImpl, e: I)
    requires links(m.h()), edges_ok(m.h(), m.v(), m.f()), m.h().contains_key(e),
    ensures
        forall|j: int| 0 <= j < orbit(nmap(m.h()), e).len() ==> m.h().contains_key(#[trigger] orbit(nmap(m.h()), e)[j])
            && m.h()[orbit(nmap(m.h()), e)[j]].face == m.h()[e].face,
        orbit(nmap(m.h()), e).no_duplicates(), 0 < orbit(nmap(m.h()), e).len() <= hsize(m), orbit(nmap(m.h()), e)[0] == e,
{
    let h = m.h();
    lemma_nperm(m);
    let p = nmap(h);
    lemma_orbit(p, pmap(h), hsize(m), e);
    let s = |y: I| h.contains_key(y) && h[y].face == h[e].face;
    assert forall|y: I| s(y) implies s(#[trigger] p[y]) by { assert(link_ok(h, y)); assert(edge_ok(h, m.v(), m.f(), y)); }
    let o = orbit(p, e);
    assert forall|j: int| 0 <= j < o.len() implies h.contains_key(#[trigger] o[j]) && h[o[j]].face == h[e].face by {
        lemma_closed(p, e, s, j as nat);
    }
}

impl HalfEdgeVertexImpl {
    spec fn own(self, m: HalfEdgeMeshImpl) -> bool { m.v().contains_key(self.id) && m.v()[self.id] == self }
//@fn src/halfedge/vertex/basics.rs impl VertexBasics for HalfEdgeVertexImpl :: edges_out
//@retty IncidentToVertexIterator<'a>
//@ret r
        requires self.edge != NONE ==> links(mesh.h()) && twins(mesh.h()) && mesh.h().contains_key(self.edge),
        ensures r.inv(), *r.mesh == *mesh, r.todo() == out_ids(mesh.h(), *self), r.rest() == elems(mesh.h(), out_ids(mesh.h(), *self)),
//@pre
        proof { if self.edge != NONE { assert(link_ok(mesh.h(), self.edge)); } }
//@post
        proof { vx_ret.start(); }
//@endfn
//@fn src/halfedge/vertex/basics.rs impl VertexBasics for HalfEdgeVertexImpl :: edges_in
//@ret r
        requires mesh.valid(), self.own(*mesh),
        ensures r.rest() == elems(mesh.h(), in_ids(mesh.h(), *self)),
//@pre
        let ghost h = mesh.h(); let ghost all = out_ids(h, *self); let ghost mut gk = 0int;
        proof { lemma_out(*mesh, self.id); }
//@loop 0
            invariant
                0 <= gk <= all.len(), it_0.inv(), *it_0.mesh == *mesh, it_0.todo() == all.skip(gk), h == mesh.h(), mesh.valid(),
                forall|j: int| 0 <= j < all.len() ==> h.contains_key(#[trigger] all[j]),
                res_0@.len() == gk, forall|j: int| 0 <= j < gk ==> res_0@[j] == h[h[#[trigger] all[j]].twin],
            ensures gk == all.len(),
            decreases it_0.todo().len(),
//@lstart 0
            proof { if gk < all.len() { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1));
                assert(link_ok(h, all[gk])); assert(twin_ok(h, all[gk])); assert(edge_ok(h, mesh.v(), mesh.f(), all[gk])); assert(edge_ok(h, mesh.v(), mesh.f(), h[all[gk]].next)); } }
//@lend 0
            proof { gk = gk + 1; }
//@post
        proof { assert(vx_ret.rest() =~= elems(h, in_ids(h, *self))); }
//@endfn
//@fn src/halfedge/vertex/basics.rs impl VertexBasics for HalfEdgeVertexImpl :: vertices
//@ret r
        requires mesh.valid(), self.own(*mesh),
        ensures r.rest() == out_ids(mesh.h(), *self).map_values(|e: I| mesh.v()[tgt(mesh.h(), e)]),
//@pre
        let ghost h = mesh.h(); let ghost all = out_ids(h, *self); let ghost mut gk = 0int;
        proof { lemma_out(*mesh, self.id); }
//@loop 0
            invariant
                0 <= gk <= all.len(), it_0.inv(), *it_0.mesh == *mesh, it_0.todo() == all.skip(gk), h == mesh.h(), mesh.valid(),
                forall|j: int| 0 <= j < all.len() ==> h.contains_key(#[trigger] all[j]),
                res_0@.len() == gk, forall|j: int| 0 <= j < gk ==> res_0@[j] == mesh.v()[tgt(h, #[trigger] all[j])],
            ensures gk == all.len(),
            decreases it_0.todo().len(),
//@lstart 0
            proof { if gk < all.len() { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1));
                assert(link_ok(h, all[gk])); assert(twin_ok(h, all[gk])); assert(edge_ok(h, mesh.v(), mesh.f(), all[gk])); assert(edge_ok(h, mesh.v(), mesh.f(), h[all[gk]].next)); } }
//@lend 0
            proof { gk = gk + 1; }
//@post
        proof { assert(vx_ret.rest() =~= all.map_values(|e: I| mesh.v()[tgt(h, e)])); }
//@endfn
//@fn src/halfedge/vertex/basics.rs impl VertexBasics for HalfEdgeVertexImpl :: faces
//@ret r
        requires mesh.valid(), self.own(*mesh),
        ensures r.rest() == face_seq(mesh.h(), mesh.f(), out_ids(mesh.h(), *self)),
//@pre
        let ghost h = mesh.h(); let ghost all = out_ids(h, *self); let ghost mut gk = 0int;
        proof { lemma_out(*mesh, self.id); }
//@loop 0
            invariant
                0 <= gk <= all.len(), it_0.inv(), *it_0.mesh == *mesh, it_0.todo() == all.skip(gk), h == mesh.h(), mesh.valid(),
                forall|j: int| 0 <= j < all.len() ==> h.contains_key(#[trigger] all[j]),
                res_0@ == face_seq(h, mesh.f(), all.take(gk)),
            ensures gk == all.len(),
            decreases it_0.todo().len(),
//@lstart 0
            proof { if gk < all.len() { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1));
                assert(link_ok(h, all[gk])); assert(twin_ok(h, all[gk])); assert(edge_ok(h, mesh.v(), mesh.f(), all[gk])); assert(edge_ok(h, mesh.v(), mesh.f(), h[all[gk]].next)); } }
//@lend 0
            proof { assert(all.take(gk + 1).drop_last() =~= all.take(gk)); gk = gk + 1; }
//@post
        proof { assert(all.take(gk) =~= all); }
//@endfn
//@fn src/halfedge/vertex/basics.rs impl VertexBasics for HalfEdgeVertexImpl :: is_boundary
//@ret r
        requires mesh.valid(), self.own(*mesh),
        ensures r == exists|j: int| 0 <= j < out_ids(mesh.h(), *self).len() && on_boundary(mesh.h(), #[trigger] out_ids(mesh.h(), *self)[j]),
//@pre
        let ghost h = mesh.h(); let ghost all = out_ids(h, *self); let ghost mut gk = 0int;
        proof { lemma_out(*mesh, self.id); }
//@loop 0
            invariant_except_break it_0.inv(), *it_0.mesh == *mesh, it_0.todo() == all.skip(gk), !res_0,
            invariant 0 <= gk <= all.len(), h == mesh.h(), mesh.valid(),
                forall|j: int| 0 <= j < all.len() ==> h.contains_key(#[trigger] all[j]),
                !res_0 ==> forall|j: int| 0 <= j < gk ==> !on_boundary(h, #[trigger] all[j]), res_0 ==> gk < all.len() && on_boundary(h, all[gk]),
            ensures !res_0 ==> gk == all.len(),
            decreases it_0.todo().len(),
//@lstart 0
            proof { if gk < all.len() { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1));
                assert(link_ok(h, all[gk])); assert(twin_ok(h, all[gk])); assert(edge_ok(h, mesh.v(), mesh.f(), all[gk])); assert(edge_ok(h, mesh.v(), mesh.f(), h[all[gk]].next)); } }
//@lend 0
            proof { gk = gk + 1; }
//@endfn
//@fn src/mesh/vertex/basics.rs trait VertexBasics :: degree
//@ret r
        requires mesh.valid(), self.own(*mesh),
        ensures r == out_ids(mesh.h(), *self).len(),
//@pre
        let ghost h = mesh.h(); let ghost all = out_ids(h, *self); let ghost mut gk = 0int;
        proof { lemma_out(*mesh, self.id); }
//@loop 0
            invariant
                0 <= gk <= all.len(), it_0.inv(), *it_0.mesh == *mesh, it_0.todo() == all.skip(gk), h == mesh.h(), mesh.valid(),
                forall|j: int| 0 <= j < all.len() ==> h.contains_key(#[trigger] all[j]),
                res_0 == gk, all.len() <= usize::MAX,
            ensures gk == all.len(),
            decreases it_0.todo().len(),
//@lstart 0
            proof { if gk < all.len() { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1));
                assert(link_ok(h, all[gk])); assert(twin_ok(h, all[gk])); assert(edge_ok(h, mesh.v(), mesh.f(), all[gk])); assert(edge_ok(h, mesh.v(), mesh.f(), h[all[gk]].next)); } }
//@lend 0
            proof { gk = gk + 1; }
//@endfn
//@fn src/mesh/vertex/basics.rs trait VertexBasics :: neighbor_ids
//@ret r
        requires mesh.valid(), self.own(*mesh),
        ensures r.rest() == out_ids(mesh.h(), *self).map_values(|e: I| tgt(mesh.h(), e)),
//@pre
        let ghost h = mesh.h(); let ghost all = out_ids(h, *self); let ghost mut gk = 0int;
        proof { lemma_out(*mesh, self.id); }
        let ghost vs = all.map_values(|e: I| mesh.v()[tgt(mesh.h(), e)]);
//@loop 0
            invariant 0 <= gk <= vs.len(), it_0.rest() == vs.skip(gk), h == mesh.h(), mesh.valid(), vs == all.map_values(|e: I| mesh.v()[tgt(mesh.h(), e)]),
                forall|j: int| 0 <= j < all.len() ==> h.contains_key(#[trigger] all[j]),
                res_0@.len() == gk, forall|j: int| 0 <= j < gk ==> res_0@[j] == tgt(h, #[trigger] all[j]),
            ensures gk == vs.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof { if gk < vs.len() { assert(vs.skip(gk)[0] == vs[gk]); assert(vs.skip(gk).drop_first() =~= vs.skip(gk + 1));
                assert(link_ok(h, all[gk])); assert(edge_ok(h, mesh.v(), mesh.f(), h[all[gk]].next)); assert(vert_ok(h, mesh.v(), tgt(h, all[gk]))); } }
//@lend 0
            proof { gk = gk + 1; }
//@post
        proof { assert(vx_ret.rest() =~= all.map_values(|e: I| tgt(mesh.h(), e))); }
//@endfn
//@fn src/mesh/vertex/halfedge.rs trait HalfEdgeVertex :: outgoing_boundary_edge
//@ret r
        requires mesh.valid(), self.own(*mesh),
        ensures first_free(mesh.h(), out_ids(mesh.h(), *self), r),
//@pre
        let ghost h = mesh.h(); let ghost all = out_ids(h, *self); let ghost mut gk = 0int;
        proof { lemma_out(*mesh, self.id); }
//@loop 0
            invariant_except_break it_0.inv(), *it_0.mesh == *mesh, it_0.todo() == all.skip(gk), res_0.is_none(),
            invariant 0 <= gk <= all.len(), h == mesh.h(), mesh.valid(),
                forall|j: int| 0 <= j < all.len() ==> h.contains_key(#[trigger] all[j]),
                res_0.is_none() ==> forall|j: int| 0 <= j < gk ==> h[#[trigger] all[j]].face != NONE, res_0.is_some() ==> gk < all.len() && first_free(h, all, res_0),
            ensures res_0.is_none() ==> gk == all.len(),
            decreases it_0.todo().len(),
//@lstart 0
            proof { if gk < all.len() { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1));
                assert(link_ok(h, all[gk])); assert(twin_ok(h, all[gk])); assert(edge_ok(h, mesh.v(), mesh.f(), all[gk])); assert(edge_ok(h, mesh.v(), mesh.f(), h[all[gk]].next)); } }
//@lend 0
            proof { gk = gk + 1; }
//@endfn
//@fn src/mesh/vertex/halfedge.rs trait HalfEdgeVertex :: ingoing_boundary_edge
//@ret r
        requires mesh.valid(), self.own(*mesh),
        ensures first_free(mesh.h(), in_ids(mesh.h(), *self), r),
//@pre
        let ghost h = mesh.h(); let ghost all = out_ids(h, *self); let ghost ins = in_ids(h, *self); let ghost es = elems(h, ins); let ghost mut gk = 0int;
        proof { lemma_out(*mesh, self.id); }
//@loop 0
            invariant_except_break it_0.rest() == es.skip(gk), res_0.is_none(),
            invariant 0 <= gk <= es.len(), h == mesh.h(), mesh.valid(), es == elems(h, ins), ins == all.map_values(|e: I| h[e].twin),
                forall|j: int| 0 <= j < all.len() ==> h.contains_key(#[trigger] all[j]),
                res_0.is_none() ==> forall|j: int| 0 <= j < gk ==> h[#[trigger] ins[j]].face != NONE, res_0.is_some() ==> first_free(h, ins, res_0),
            ensures res_0.is_none() ==> gk == es.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof { if gk < es.len() { assert(es.skip(gk)[0] == es[gk]); assert(es.skip(gk).drop_first() =~= es.skip(gk + 1));
                assert(ins[gk] == h[all[gk]].twin); assert(twin_ok(h, all[gk])); assert(link_ok(h, ins[gk])); } }
//@lend 0
            proof { gk = gk + 1; }
//@endfn
}
/// faces incident to the given edges, in that order
spec fn face_seq(h: HMap, f: FMap, s: Seq<I>) -> Seq<HalfEdgeFaceImpl>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() }
    else if h[s.last()].face == NONE { face_seq(h, f, s.drop_last()) }
    else { face_seq(h, f, s.drop_last()).push(f[h[s.last()].face]) }
}
spec fn on_boundary(h: HMap, e: I) -> bool { h[e].face == NONE || h[h[e].twin].face == NONE }
/// r is the first half-edge of s without a face (None if there is none)
spec fn first_free(h: HMap, s: Seq<I>, r: Option<I>) -> bool {
    match r {
        Some(e) => exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == e && h[e].face == NONE && forall|i: int| 0 <= i < j ==> h[#[trigger] s[i]].face != NONE,
        None => forall|i: int| 0 <= i < s.len() ==> h[#[trigger] s[i]].face != NONE,
    }
}
