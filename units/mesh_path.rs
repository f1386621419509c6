// Vertices hung off vertices, paths, loops, vertices inserted into an edge.

/// the corner used by add_vertex_via_vertex: both half-edges of a lone edge, or a free outgoing edge with its predecessor
spec fn via_corner(m: HalfEdgeMeshImpl, x: I, i: I, o: I) -> bool {
    let h = m.h();
    h.contains_key(i) && h.contains_key(o) && h[i].next == o && h[i].face == NONE && h[o].origin_id == x
}
spec fn lone(m: HalfEdgeMeshImpl, x: I) -> bool { m.h()[m.v()[x].edge].prev == m.h()[m.v()[x].edge].twin }
/// edges ending in `to` that bound a hole which also visits `prev`
spec fn closing(m: HalfEdgeMeshImpl, prev: I, to: I, e: I) -> bool {
    in_ids(m.h(), m.v()[to]).contains(e) && m.h()[e].face == NONE && visits(m.h(), e, prev)
}
spec fn visits(h: HMap, e: I, x: I) -> bool { exists|j: int| 0 <= j < orbit(nmap(h), e).len() && h[#[trigger] orbit(nmap(h), e)[j]].origin_id == x }
spec fn free_from(h: HMap, v: I, r: Option<HalfEdgeImpl>) -> bool {
    match r { Some(x) => h.contains_key(x.id) && x == h[x.id] && x.face == NONE && x.origin_id == v, None => true }
}
spec fn closing_to(m: HalfEdgeMeshImpl, prev: I, to: I, r: Option<HalfEdgeImpl>) -> bool {
    match r { Some(x) => m.h().contains_key(x.id) && x == m.h()[x.id] && closing(m, prev, to, x.id) && tgt(m.h(), x.id) == to, None => true }
}

impl HalfEdgeMeshImpl {
//@fn src/halfedge/mesh/builder/halfedge.rs impl MeshHalfEdgeBuilder for HalfEdgeMeshImpl :: add_vertex_via_vertex
//@ret r
        requires old(self).valid(), old(self).v().contains_key(v), old(self).v()[v].edge != NONE, room_e(*old(self), 2), room_v(*old(self), 1),
            lone(*old(self), v) ==> old(self).h()[old(self).v()[v].edge].face == NONE,
            !lone(*old(self), v) ==> !first_free(old(self).h(), out_ids(old(self).h(), old(self).v()[v]), None),
        ensures final(self).valid(), grown(*old(self), *final(self), 2, 1, 0), final(self).faces == old(self).faces, final(self).payload == old(self).payload,
            fresh1(old(self).v(), r.0), fresh2(old(self).h(), r.1, r.2),
            final(self).v() =~= old(self).v().insert(r.0, mkv(r.0, r.2, vp)),
            exists|i: I, o: I| #[trigger] via_corner(*old(self), v, i, o) && final(self).h() =~= pendant(old(self).h(), old(self).v(), i, o, r.0, r.1, r.2, vp, ep1, ep2),
//@pre
        let ghost m0 = *self; let ghost h = self.h(); let ghost all = out_ids(h, self.v()[v]); let ghost mut gk = 0int;
        proof { assert(vert_ok(h, self.v(), v)); let e = self.v()[v].edge; assert(link_ok(h, e)); assert(twin_ok(h, e)); assert(link_ok(h, h[e].twin)); assert(edge_ok(h, self.v(), self.f(), e));
            assert(edge_ok(h, self.v(), self.f(), h[e].prev)); lemma_out(*self, v); assert(all.skip(0) =~= all); }
//@loop 0
            invariant_except_break it_0.inv(), *it_0.mesh == *self, it_0.todo() == all.skip(gk), res_0.is_none(),
            invariant 0 <= gk <= all.len(), h == self.h(), self.valid(), *self == m0,
                forall|j: int| 0 <= j < all.len() ==> h.contains_key(#[trigger] all[j]) && h[all[j]].origin_id == v,
                res_0.is_none() ==> forall|j: int| 0 <= j < gk ==> h[#[trigger] all[j]].face != NONE,
                free_from(h, v, res_0),
            ensures res_0.is_none() ==> gk == all.len(),
            decreases it_0.todo().len(),
//@lstart 0
            proof { if gk < all.len() { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1)); assert(link_ok(h, all[gk])); } }
//@lend 0
            proof { gk = gk + 1; }
//@beforecall add_vertex_via_edge 0
        proof { assert(link_ok(h, output)); assert(link_ok(h, input)); assert(edge_ok(h, m0.v(), m0.f(), input)); assert(via_corner(m0, v, input, output)); }
//@endfn
//@fn src/halfedge/mesh/builder/builder.rs impl MeshBuilder for HalfEdgeMeshImpl :: add_vertex_via_vertex_default
//@ret r
        requires old(self).valid(), old(self).v().contains_key(v), old(self).v()[v].edge != NONE, room_e(*old(self), 2), room_v(*old(self), 1),
            lone(*old(self), v) ==> old(self).h()[old(self).v()[v].edge].face == NONE,
            !lone(*old(self), v) ==> !first_free(old(self).h(), out_ids(old(self).h(), old(self).v()[v]), None),
        ensures final(self).valid(), grown(*old(self), *final(self), 2, 1, 0), final(self).faces == old(self).faces, final(self).payload == old(self).payload,
            fresh1(old(self).v(), r.0), fresh2(old(self).h(), r.1, r.2),
            final(self).v() =~= old(self).v().insert(r.0, mkv(r.0, r.2, vp)),
            exists|i: I, o: I| #[trigger] via_corner(*old(self), v, i, o) && final(self).h() =~= pendant(old(self).h(), old(self).v(), i, o, r.0, r.1, r.2, vp, ep_default(), ep_default()),
//@endfn
//@fn src/halfedge/mesh/builder/halfedge.rs impl MeshHalfEdgeBuilder for HalfEdgeMeshImpl :: close_face_vertices
//@ret r
        requires old(self).valid(), room_e(*old(self), 2), room_f(*old(self), 1), old(self).v().contains_key(prev), old(self).v().contains_key(to), from != to,
            !first_to(old(self).h(), out_ids(old(self).h(), old(self).v()[prev]), from, None),
            forall|j: int| 0 <= j < out_ids(old(self).h(), old(self).v()[prev]).len() && tgt(old(self).h(), #[trigger] out_ids(old(self).h(), old(self).v()[prev])[j]) == from
                ==> old(self).h()[out_ids(old(self).h(), old(self).v()[prev])[j]].face == NONE,
            exists|e: I| #[trigger] closing(*old(self), prev, to, e),
        ensures final(self).valid(), grown(*old(self), *final(self), 2, 0, 1), final(self).vertices == old(self).vertices, final(self).payload == old(self).payload,
            exists|i: I, o: I| old(self).h().contains_key(i) && old(self).h()[i].origin_id == prev && tgt(old(self).h(), i) == from && #[trigger] closing(*old(self), prev, to, o)
                && #[trigger] face_closed(*old(self), *final(self), i, o, ep1, ep2, fp, curved, r),
//@pre
        let ghost m0 = *self; let ghost h = self.h(); let ghost all = out_ids(h, self.v()[to]); let ghost ins = in_ids(h, self.v()[to]); let ghost es = elems(h, ins); let ghost mut gk = 0int;
        proof { assert(vert_ok(h, self.v(), prev)); assert(vert_ok(h, self.v(), to)); lemma_out(*self, to); lemma_out(*self, prev);
            let p = out_ids(h, self.v()[prev]);
            assert forall|r: Option<HalfEdgeImpl>| #[trigger] first_to(h, p, from, r) implies r.is_some() && h.contains_key(r.unwrap().id) && r.unwrap() == h[r.unwrap().id]
                && r.unwrap().origin_id == prev && tgt(h, r.unwrap().id) == from && r.unwrap().face == NONE by {
                let j = choose|j: int| 0 <= j < p.len() && r.unwrap() == h[#[trigger] p[j]] && tgt(h, p[j]) == from && forall|i: int| 0 <= i < j ==> tgt(h, #[trigger] p[i]) != from;
                assert(link_ok(h, p[j]));
            }
            assert forall|e: I| #[trigger] closing(m0, prev, to, e) implies exists|j: int| 0 <= j < ins.len() && #[trigger] ins[j] == e && h[e].face == NONE && visits(h, e, prev) by {
                let j = choose|j: int| 0 <= j < ins.len() && ins[j] == e; assert(ins[j] == e);
            }
        }
//@loop 0
            invariant_except_break it_0.rest() == es.skip(gk), res_0.is_none(),
            invariant 0 <= gk <= es.len(), h == self.h(), self.valid(), *self == m0, es == elems(h, ins), ins == all.map_values(|e: I| h[e].twin), ins == in_ids(h, m0.v()[to]),
                forall|j: int| 0 <= j < all.len() ==> h.contains_key(#[trigger] all[j]) && h[all[j]].origin_id == to,
                h.contains_key(inside), h[inside].origin_id == prev,
                res_0.is_none() ==> forall|j: int| 0 <= j < gk ==> !(h[#[trigger] ins[j]].face == NONE && visits(h, ins[j], prev)),
                closing_to(m0, prev, to, res_0),
            ensures res_0.is_none() ==> gk == es.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof { if gk < es.len() { assert(es.skip(gk)[0] == es[gk]); assert(es.skip(gk).drop_first() =~= es.skip(gk + 1));
                assert(ins[gk] == h[all[gk]].twin); assert(twin_ok(h, all[gk])); assert(link_ok(h, ins[gk])); assert(edge_ok(h, m0.v(), m0.f(), ins[gk])); assert(ins.contains(ins[gk])); } }
//@lend 0
            proof { gk = gk + 1; }
//@beforecall close_face 0
        proof { assert(bridgeable(h, inside, outside)); }
//@endfn
//@fn src/halfedge/mesh/builder/builder.rs impl MeshBuilder for HalfEdgeMeshImpl :: close_face_vertices_default
//@ret r
        requires old(self).valid(), room_e(*old(self), 2), room_f(*old(self), 1), old(self).v().contains_key(prev), old(self).v().contains_key(to), from != to,
            !first_to(old(self).h(), out_ids(old(self).h(), old(self).v()[prev]), from, None),
            forall|j: int| 0 <= j < out_ids(old(self).h(), old(self).v()[prev]).len() && tgt(old(self).h(), #[trigger] out_ids(old(self).h(), old(self).v()[prev])[j]) == from
                ==> old(self).h()[out_ids(old(self).h(), old(self).v()[prev])[j]].face == NONE,
            exists|e: I| #[trigger] closing(*old(self), prev, to, e),
        ensures final(self).valid(), grown(*old(self), *final(self), 2, 0, 1), final(self).vertices == old(self).vertices, final(self).payload == old(self).payload,
            exists|i: I, o: I| old(self).h().contains_key(i) && old(self).h()[i].origin_id == prev && tgt(old(self).h(), i) == from && #[trigger] closing(*old(self), prev, to, o)
                && #[trigger] face_closed(*old(self), *final(self), i, o, ep_default(), ep_default(), fp_default(), curved, r),
//@endfn
}
