// Topology building operations: exact effect on the three tables, plus preservation of `wf`.

spec fn mk(id: I, next: I, twin: I, prev: I, origin_id: I, face: I, payload: EP) -> HalfEdgeImpl {
    HalfEdgeImpl { id, next, twin, prev, origin_id, face, payload }
}
spec fn w_next(h: HMap, e: I, n: I) -> HMap { h.insert(e, HalfEdgeImpl { next: n, ..h[e] }) }
spec fn w_prev(h: HMap, e: I, n: I) -> HMap { h.insert(e, HalfEdgeImpl { prev: n, ..h[e] }) }
spec fn w_twin(h: HMap, e: I, n: I) -> HMap { h.insert(e, HalfEdgeImpl { twin: n, ..h[e] }) }
spec fn or_else(x: I, y: I) -> I { if x == NONE { y } else { x } }
/// nothing but the half-edge table changed
spec fn frame_h(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl) -> bool { n.vertices == o.vertices && n.faces == o.faces && n.payload == o.payload }

impl HalfEdgeMeshImpl {
//@fn src/halfedge/mesh/builder/halfedge.rs impl MeshHalfEdgeBuilder for HalfEdgeMeshImpl :: insert_halfedge_no_update_no_check
        requires old(self).halfedges.inv(), old(self).halfedges.reserved(e), e != NONE, twin != NONE, twin != e, next != e, prev != e,
        ensures frame_h(*old(self), *final(self)), final(self).halfedges.inv(), final(self).halfedges.in_use() == old(self).halfedges.in_use(),
            final(self).h() == old(self).h().insert(e, mk(e, or_else(next, twin), twin, or_else(prev, twin), origin, face, payload)),
            forall|i: I| #[trigger] final(self).halfedges.reserved(i) == (old(self).halfedges.reserved(i) && i != e),
            forall|n: int| #[trigger] old(self).halfedges.packed(n) ==> final(self).halfedges.packed(n),
//@pre
        proof { I::ix_inj(e, NONE); }
//@endfn
//@fn src/halfedge/mesh/builder/semi.rs impl HalfEdgeSemiBuilder for HalfEdgeMeshImpl :: insert_edge_no_update_no_check
//@ret r
        requires old(self).halfedges.inv(), old(self).halfedges.in_use() + 2 <= I::maxv(),
            p0.0 == NONE || old(self).h().contains_key(p0.0), p0.1 == NONE || old(self).h().contains_key(p0.1),
            p1.0 == NONE || old(self).h().contains_key(p1.0), p1.1 == NONE || old(self).h().contains_key(p1.1),
        ensures frame_h(*old(self), *final(self)), pair_added(*old(self), *final(self), r, p0, p1),
//@endfn
}
/// two fresh half-edges r.0/r.1 were added, twins of each other; NONE as neighbour stands for the twin
spec fn pair_added(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, r: (I, I), a: (I, I, I, I, EP), b: (I, I, I, I, EP)) -> bool {
    &&& n.halfedges.inv() && n.halfedges.in_use() == o.halfedges.in_use() + 2
    &&& !o.h().contains_key(r.0) && !o.h().contains_key(r.1) && r.0 != r.1 && r.0 != NONE && r.1 != NONE
    &&& forall|i: I| #[trigger] n.halfedges.reserved(i) == o.halfedges.reserved(i)
    &&& n.h() =~= o.h().insert(r.0, mk(r.0, or_else(a.0, r.1), r.1, or_else(a.1, r.1), a.2, a.3, a.4))
                    .insert(r.1, mk(r.1, or_else(b.0, r.0), r.0, or_else(b.1, r.0), b.2, b.3, b.4))
}
spec fn mkv(id: I, edge: I, payload: VP) -> HalfEdgeVertexImpl { HalfEdgeVertexImpl { id, edge, payload } }
spec fn mkf(id: I, edge: I, curved: bool, payload: FP) -> HalfEdgeFaceImpl { HalfEdgeFaceImpl { id, edge, curved, payload } }
/// room for n more half-edges / vertices / faces
spec fn room_e(m: HalfEdgeMeshImpl, n: int) -> bool { m.halfedges.in_use() + n <= I::maxv() }
spec fn room_v(m: HalfEdgeMeshImpl, n: int) -> bool { m.vertices.in_use() + n <= I::maxv() }
spec fn room_f(m: HalfEdgeMeshImpl, n: int) -> bool { m.faces.in_use() + n <= I::maxv() }
spec fn grown(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, e: int, v: int, f: int) -> bool {
    n.halfedges.in_use() == o.halfedges.in_use() + e && n.vertices.in_use() == o.vertices.in_use() + v && n.faces.in_use() == o.faces.in_use() + f
}
/// two new handles of half-edges
spec fn fresh2(h: HMap, a: I, b: I) -> bool { !h.contains_key(a) && !h.contains_key(b) && a != b && a != NONE && b != NONE }
spec fn fresh1<T>(v: IMap<I, T>, a: I) -> bool { !v.contains_key(a) && a != NONE }

/// walking along the edges of face F is not affected by changes elsewhere
proof fn lemma_reach_keep(h: HMap, v: VMap, f: FMap, g: HMap, s: I, F: I, k: nat)
    requires links(h), edges_ok(h, v, f), h.contains_key(s), h[s].face == F,
        forall|z: I| h.contains_key(z) && (#[trigger] h[z]).face == F ==> g.contains_key(z) && g[z].next == h[z].next,
    ensures it(nmap(h), s, k) == it(nmap(g), s, k), h.contains_key(it(nmap(h), s, k)), h[it(nmap(h), s, k)].face == F,
    decreases k,
{
    if k > 0 {
        lemma_reach_keep(h, v, f, g, s, F, (k - 1) as nat);
        let z = it(nmap(h), s, (k - 1) as nat);
        assert(link_ok(h, z)); assert(edge_ok(h, v, f, z));
    }
}
/// faces whose edges keep their successors keep their loop
proof fn lemma_one_loop_keep(h: HMap, v: VMap, f: FMap, g: HMap, f2: FMap)
    requires wf(h, v, f),
        forall|e: I| g.contains_key(e) && (#[trigger] g[e]).face != NONE ==> h.contains_key(e) && h[e].face == g[e].face && f2[g[e].face].edge == f[g[e].face].edge,
        forall|e: I| h.contains_key(e) && (#[trigger] h[e]).face != NONE ==> g.contains_key(e) && g[e].next == h[e].next,
    ensures one_loop(g, f2),
{
    assert forall|e: I| g.contains_key(e) implies #[trigger] loop_ok(g, f2, e) by {
        let F = g[e].face;
        if F != NONE {
            assert(loop_ok(h, f, e));
            let s = f[F].edge;
            let k = choose|k: nat| #[trigger] it(nmap(h), s, k) == e;
            assert(edge_ok(h, v, f, e));
            assert(face_ok(h, f, F));
            lemma_reach_keep(h, v, f, g, s, F, k);
            assert(it(nmap(g), s, k) == e);
        }
    }
}
/// a new pair of face-less half-edges hangs off the free corner input/output
spec fn pendant(h: HMap, v: VMap, input: I, output: I, x: I, e1: I, e2: I, vp: VP, ep1: EP, ep2: EP) -> HMap {
    w_prev(w_next(
        h.insert(e1, mk(e1, e2, e2, input, h[output].origin_id, NONE, ep1)).insert(e2, mk(e2, output, e1, e1, x, NONE, ep2)),
        input, e1), output, e2)
}
proof fn lemma_pendant(h: HMap, v: VMap, f: FMap, input: I, output: I, x: I, e1: I, e2: I, vp: VP, ep1: EP, ep2: EP)
    requires wf(h, v, f), h.contains_key(input), h.contains_key(output), h[input].next == output, h[input].face == NONE,
        fresh2(h, e1, e2), fresh1(v, x),
    ensures wf(pendant(h, v, input, output, x, e1, e2, vp, ep1, ep2), v.insert(x, mkv(x, e2, vp)), f),
{
    let g = pendant(h, v, input, output, x, e1, e2, vp, ep1, ep2);
    let w = v.insert(x, mkv(x, e2, vp));
    assert(link_ok(h, input)); assert(link_ok(h, output)); assert(edge_ok(h, v, f, input)); assert(edge_ok(h, v, f, output));
    assert(twin_ok(h, input)); assert(edge_ok(h, v, f, h[input].twin));
    assert forall|e: I| g.contains_key(e) implies #[trigger] link_ok(g, e) by {
        if e != e1 && e != e2 { assert(link_ok(h, e)); assert(link_ok(h, h[e].next)); assert(link_ok(h, h[e].prev)); }
    }
    assert forall|e: I| g.contains_key(e) implies #[trigger] twin_ok(g, e) by { if e != e1 && e != e2 { assert(twin_ok(h, e)); } }
    assert forall|e: I| g.contains_key(e) implies #[trigger] edge_ok(g, w, f, e) by {
        if e != e1 && e != e2 { assert(edge_ok(h, v, f, e)); assert(link_ok(h, e)); assert(twin_ok(h, e)); assert(edge_ok(h, v, f, h[e].next)); }
        else { assert(g[e1].origin_id == h[output].origin_id); assert(edge_ok(h, v, f, output)); }
    }
    assert forall|y: I| w.contains_key(y) implies #[trigger] vert_ok(g, w, y) by { if y != x { assert(vert_ok(h, v, y)); } }
    assert forall|y: I| f.contains_key(y) implies #[trigger] face_ok(g, f, y) by { assert(face_ok(h, f, y)); }
    lemma_one_loop_keep(h, v, f, g, f);
}
proof fn lemma_isolated(h: HMap, v: VMap, f: FMap, x: I, y: I, e1: I, e2: I, a: VP, b: VP, ep1: EP, ep2: EP)
    requires wf(h, v, f), fresh2(h, e1, e2), fresh1(v, x), fresh1(v, y), x != y,
    ensures wf(h.insert(e1, mk(e1, e2, e2, e2, x, NONE, ep1)).insert(e2, mk(e2, e1, e1, e1, y, NONE, ep2)), v.insert(x, mkv(x, e1, a)).insert(y, mkv(y, e2, b)), f),
{
    let g = h.insert(e1, mk(e1, e2, e2, e2, x, NONE, ep1)).insert(e2, mk(e2, e1, e1, e1, y, NONE, ep2));
    let w = v.insert(x, mkv(x, e1, a)).insert(y, mkv(y, e2, b));
    assert forall|e: I| g.contains_key(e) implies #[trigger] link_ok(g, e) by { if e != e1 && e != e2 { assert(link_ok(h, e)); } }
    assert forall|e: I| g.contains_key(e) implies #[trigger] twin_ok(g, e) by { if e != e1 && e != e2 { assert(twin_ok(h, e)); } }
    assert forall|e: I| g.contains_key(e) implies #[trigger] edge_ok(g, w, f, e) by {
        if e != e1 && e != e2 { assert(edge_ok(h, v, f, e)); assert(link_ok(h, e)); assert(twin_ok(h, e)); }
    }
    assert forall|z: I| w.contains_key(z) implies #[trigger] vert_ok(g, w, z) by { if z != x && z != y { assert(vert_ok(h, v, z)); } }
    assert forall|z: I| f.contains_key(z) implies #[trigger] face_ok(g, f, z) by { assert(face_ok(h, f, z)); }
    lemma_one_loop_keep(h, v, f, g, f);
}

impl HalfEdgeMeshImpl {
//@fn src/halfedge/mesh/builder/builder.rs impl MeshBuilder for HalfEdgeMeshImpl :: add_vertex
//@ret r
        requires old(self).valid(), room_v(*old(self), 1),
        ensures fresh1(old(self).v(), r), final(self).v() =~= old(self).v().insert(r, mkv(r, NONE, vp)),
            final(self).halfedges == old(self).halfedges, final(self).faces == old(self).faces, final(self).payload == old(self).payload,
            grown(*old(self), *final(self), 0, 1, 0), final(self).valid(),
//@pre
        let ghost o = *self;
//@post
        proof {
            I::ix_inj(vx_ret, NONE);
            assert forall|y: I| self.v().contains_key(y) implies #[trigger] vert_ok(self.h(), self.v(), y) by { if y != vx_ret { assert(vert_ok(o.h(), o.v(), y)); } }
            assert forall|e: I| self.h().contains_key(e) implies #[trigger] edge_ok(self.h(), self.v(), self.f(), e) by { assert(edge_ok(o.h(), o.v(), o.f(), e)); }
        }
//@endfn
//@fn src/halfedge/mesh/builder/halfedge.rs impl MeshHalfEdgeBuilder for HalfEdgeMeshImpl :: add_vertex_via_edge
//@ret r
        requires old(self).inv(), old(self).clean(), old(self).h().contains_key(input), old(self).h().contains_key(output), room_e(*old(self), 2), room_v(*old(self), 1),
        ensures final(self).inv(), final(self).clean(), grown(*old(self), *final(self), 2, 1, 0),
            final(self).faces == old(self).faces, final(self).payload == old(self).payload,
            fresh1(old(self).v(), r.0), fresh2(old(self).h(), r.1, r.2),
            final(self).v() =~= old(self).v().insert(r.0, mkv(r.0, r.2, vp)),
            final(self).h() =~= pendant(old(self).h(), old(self).v(), input, output, r.0, r.1, r.2, vp, ep1, ep2),
            old(self).valid() && old(self).h()[input].next == output && old(self).h()[input].face == NONE ==> final(self).valid(),
//@pre
        let ghost o = *self;
//@post
        proof {
            I::ix_inj(vx_ret.0, NONE);
            if o.valid() && o.h()[input].next == output && o.h()[input].face == NONE {
                lemma_pendant(o.h(), o.v(), o.f(), input, output, vx_ret.0, vx_ret.1, vx_ret.2, vp, ep1, ep2);
                assert(self.h() =~= pendant(o.h(), o.v(), input, output, vx_ret.0, vx_ret.1, vx_ret.2, vp, ep1, ep2));
                assert(self.v() =~= o.v().insert(vx_ret.0, mkv(vx_ret.0, vx_ret.2, vp)));
            }
        }
//@endfn
//@fn src/halfedge/mesh/builder/builder.rs impl MeshBuilder for HalfEdgeMeshImpl :: add_vertex_via_edge_default
//@ret r
        requires old(self).inv(), old(self).clean(), old(self).h().contains_key(input), old(self).h().contains_key(output), room_e(*old(self), 2), room_v(*old(self), 1),
        ensures final(self).inv(), final(self).clean(), grown(*old(self), *final(self), 2, 1, 0),
            final(self).faces == old(self).faces, final(self).payload == old(self).payload,
            fresh1(old(self).v(), r.0), fresh2(old(self).h(), r.1, r.2),
            final(self).v() =~= old(self).v().insert(r.0, mkv(r.0, r.2, vp)),
            final(self).h() =~= pendant(old(self).h(), old(self).v(), input, output, r.0, r.1, r.2, vp, ep_default(), ep_default()),
            old(self).valid() && old(self).h()[input].next == output && old(self).h()[input].face == NONE ==> final(self).valid(),
//@endfn
//@fn src/halfedge/mesh/builder/halfedge.rs impl MeshHalfEdgeBuilder for HalfEdgeMeshImpl :: add_isolated_edge
//@ret r
        requires old(self).valid(), room_e(*old(self), 2), room_v(*old(self), 2),
        ensures final(self).valid(), grown(*old(self), *final(self), 2, 2, 0),
            final(self).faces == old(self).faces, final(self).payload == old(self).payload,
            isolated_added(*old(self), *final(self), r, a, epa, b, epb),
//@pre
        let ghost o = *self;
//@post
        proof {
            I::ix_inj(vx_ret.0, NONE); I::ix_inj(vx_ret.1, NONE);
            let e0 = self.v()[vx_ret.0].edge; let e1 = self.v()[vx_ret.1].edge;
            lemma_isolated(o.h(), o.v(), o.f(), vx_ret.0, vx_ret.1, e0, e1, a, b, epa, epb);
            assert(self.h() =~= o.h().insert(e0, mk(e0, e1, e1, e1, vx_ret.0, NONE, epa)).insert(e1, mk(e1, e0, e0, e0, vx_ret.1, NONE, epb)));
            assert(self.v() =~= o.v().insert(vx_ret.0, mkv(vx_ret.0, e0, a)).insert(vx_ret.1, mkv(vx_ret.1, e1, b)));
        }
//@endfn
//@fn src/halfedge/mesh/builder/builder.rs impl MeshBuilder for HalfEdgeMeshImpl :: add_isolated_edge_default
//@ret r
        requires old(self).valid(), room_e(*old(self), 2), room_v(*old(self), 2),
        ensures final(self).valid(), grown(*old(self), *final(self), 2, 2, 0),
            final(self).faces == old(self).faces, final(self).payload == old(self).payload,
            isolated_added(*old(self), *final(self), r, a, ep_default(), b, ep_default()),
//@endfn
}
spec fn isolated_added(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, r: (I, I), a: VP, epa: EP, b: VP, epb: EP) -> bool {
    let e0 = n.v()[r.0].edge; let e1 = n.v()[r.1].edge;
    &&& fresh1(o.v(), r.0) && fresh1(o.v(), r.1) && r.0 != r.1 && fresh2(o.h(), e0, e1)
    &&& n.h() =~= o.h().insert(e0, mk(e0, e1, e1, e1, r.0, NONE, epa)).insert(e1, mk(e1, e0, e0, e0, r.1, NONE, epb))
    &&& n.v() =~= o.v().insert(r.0, mkv(r.0, e0, a)).insert(r.1, mkv(r.1, e1, b))
}
