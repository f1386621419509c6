// Inserting edges between existing vertices, closing faces, paths and loops.

/// a new pair of face-less half-edges joins the free corner after i to the free corner after o
spec fn bridged(h: HMap, i: I, o: I, e1: I, e2: I, ep1: EP, ep2: EP) -> HMap {
    w_next(w_next(w_prev(w_prev(
        h.insert(e1, mk(e1, h[o].next, e2, i, tgt(h, i), NONE, ep1)).insert(e2, mk(e2, h[i].next, e1, o, tgt(h, o), NONE, ep2)),
        h[o].next, e1), h[i].next, e2), i, e1), o, e2)
}
/// two different half-edges on the boundary whose targets can be joined
spec fn bridgeable(h: HMap, i: I, o: I) -> bool {
    h.contains_key(i) && h.contains_key(o) && h[i].face == NONE && h[o].face == NONE && tgt(h, i) != tgt(h, o)
}
/// the target of e is a vertex of the mesh
spec fn corner_ok(h: HMap, v: VMap, e: I) -> bool { v.contains_key(tgt(h, e)) && v[tgt(h, e)].id == tgt(h, e) && h[h[e].next].origin_id == tgt(h, e) }
proof fn lemma_bridge_at(h: HMap, v: VMap, f: FMap, i: I, o: I, e1: I, e2: I, ep1: EP, ep2: EP)
    requires wf(h, v, f), bridgeable(h, i, o), fresh2(h, e1, e2),
    ensures ({ let g = bridged(h, i, o, e1, e2, ep1, ep2); let oi = h[o].next; let oo = h[i].next;
        &&& g[e1] == mk(e1, oi, e2, i, tgt(h, i), NONE, ep1) && g[e2] == mk(e2, oo, e1, o, tgt(h, o), NONE, ep2)
        &&& i != o && oi != oo && h.contains_key(oi) && h.contains_key(oo) && h[oi].prev == o && h[oo].prev == i && h[oi].face == NONE && h[oo].face == NONE
        &&& h[oo].origin_id == tgt(h, i) && h[oi].origin_id == tgt(h, o)
        &&& forall|e: I| #[trigger] g.contains_key(e) <==> h.contains_key(e) || e == e1 || e == e2
        &&& forall|e: I| #[trigger] h.contains_key(e) ==> e != e1 && e != e2 && g[e] == mk(e, if e == i { e1 } else if e == o { e2 } else { h[e].next }, h[e].twin,
                if e == oi { e1 } else if e == oo { e2 } else { h[e].prev }, h[e].origin_id, h[e].face, h[e].payload)
    }),
{
    assert(link_ok(h, i)); assert(link_ok(h, o));
    assert(twin_ok(h, i)); assert(twin_ok(h, o));
    assert(edge_ok(h, v, f, i)); assert(edge_ok(h, v, f, o));
    let g = bridged(h, i, o, e1, e2, ep1, ep2); let oi = h[o].next; let oo = h[i].next;
    assert forall|e: I| #[trigger] h.contains_key(e) implies e != e1 && e != e2 && g[e] == mk(e, if e == i { e1 } else if e == o { e2 } else { h[e].next }, h[e].twin,
                if e == oi { e1 } else if e == oo { e2 } else { h[e].prev }, h[e].origin_id, h[e].face, h[e].payload) by { assert(link_ok(h, e)); }
}
proof fn lemma_bridge(h: HMap, v: VMap, f: FMap, i: I, o: I, e1: I, e2: I, ep1: EP, ep2: EP)
    requires wf(h, v, f), bridgeable(h, i, o), fresh2(h, e1, e2),
    ensures wf(bridged(h, i, o, e1, e2, ep1, ep2), v, f),
{
    hide(bridged);
    let g = bridged(h, i, o, e1, e2, ep1, ep2);
    let oi = h[o].next; let oo = h[i].next;
    lemma_bridge_at(h, v, f, i, o, e1, e2, ep1, ep2);
    assert(link_ok(h, i)); assert(link_ok(h, o)); assert(link_ok(h, oi)); assert(link_ok(h, oo));
    assert(edge_ok(h, v, f, i)); assert(edge_ok(h, v, f, o)); assert(edge_ok(h, v, f, oi)); assert(edge_ok(h, v, f, oo));
    assert(twin_ok(h, i)); assert(twin_ok(h, o));
    assert forall|e: I| g.contains_key(e) implies #[trigger] link_ok(g, e) by {
        if e != e1 && e != e2 { assert(link_ok(h, e)); assert(link_ok(h, h[e].next)); assert(link_ok(h, h[e].prev)); }
    }
    assert forall|e: I| g.contains_key(e) implies #[trigger] twin_ok(g, e) by { if e != e1 && e != e2 { assert(twin_ok(h, e)); } }
    assert forall|e: I| g.contains_key(e) implies #[trigger] edge_ok(g, v, f, e) by {
        if e != e1 && e != e2 { assert(edge_ok(h, v, f, e)); assert(link_ok(h, e)); assert(twin_ok(h, e)); assert(edge_ok(h, v, f, h[e].next)); }
    }
    assert forall|y: I| v.contains_key(y) implies #[trigger] vert_ok(g, v, y) by { assert(vert_ok(h, v, y)); }
    assert forall|y: I| f.contains_key(y) implies #[trigger] face_ok(g, f, y) by { assert(face_ok(h, f, y)); }
    lemma_one_loop_keep(h, v, f, g, f);
}
/// e is the only edge of s without a face
spec fn only_free(h: HMap, s: Seq<I>, e: I) -> bool {
    s.contains(e) && h[e].face == NONE && forall|j: int| 0 <= j < s.len() && h[#[trigger] s[j]].face == NONE ==> s[j] == e
}
/// vertex x is isolated or has exactly one free corner
spec fn one_corner(m: HalfEdgeMeshImpl, x: I) -> bool {
    m.v().contains_key(x) && (m.v()[x].edge == NONE || exists|e: I| #[trigger] only_free(m.h(), out_ids(m.h(), m.v()[x]), e))
}
/// the free in- and outgoing edges that the traversals find belong to the same corner
proof fn lemma_corner(m: HalfEdgeMeshImpl, x: I, a: Option<I>, b: Option<I>, e: I)
    requires m.valid(), m.v().contains_key(x), m.v()[x].edge != NONE, only_free(m.h(), out_ids(m.h(), m.v()[x]), e),
        first_free(m.h(), out_ids(m.h(), m.v()[x]), a), first_free(m.h(), in_ids(m.h(), m.v()[x]), b),
    ensures a == Some(e), b == Some(m.h()[e].prev), m.h().contains_key(e), m.h().contains_key(m.h()[e].prev), m.h()[m.h()[e].prev].face == NONE, m.h()[m.h()[e].prev].next == e,
        m.h()[e].origin_id == x,
{
    let h = m.h();
    let s = out_ids(h, m.v()[x]);
    let ins = in_ids(h, m.v()[x]);
    lemma_out(m, x);
    lemma_wperm(m);
    lemma_orbit_contains(wmap(h), vmap(h), hsize(m), m.v()[x].edge);
    let i = choose|i: int| 0 <= i < s.len() && s[i] == e;
    assert(s[i] == e);
    // the corner before e
    let p = h[e].prev;
    assert(link_ok(h, e)); assert(link_ok(h, p)); assert(twin_ok(h, p)); assert(edge_ok(h, m.v(), m.f(), p));
    let t = h[p].twin;
    assert(wmap(h)[t] == e);
    lemma_oclosed(wmap(h), vmap(h), hsize(m), m.v()[x].edge, t);
    assert(s.contains(e)); assert(s.contains(t));
    let j = choose|j: int| 0 <= j < s.len() && s[j] == t;
    assert(ins[j] == p);
    assert(b.is_some());
    let q = b.unwrap();
    let k = choose|k: int| 0 <= k < ins.len() && #[trigger] ins[k] == q && h[q].face == NONE;
    assert(h.contains_key(s[k])); assert(twin_ok(h, s[k])); assert(link_ok(h, q)); assert(edge_ok(h, m.v(), m.f(), q));
    lemma_oclosed(wmap(h), vmap(h), hsize(m), m.v()[x].edge, s[k]);
    assert(s.contains(s[k]));
    assert(wmap(h)[s[k]] == h[q].next);
    assert(s.contains(h[q].next));
    let l = choose|l: int| 0 <= l < s.len() && s[l] == h[q].next;
    assert(s[l] == e);
}
spec fn pair_iso(h: HMap, v: VMap, x: I, y: I, e0: I, e1: I, a: EP, b: EP) -> HMap {
    h.insert(e0, mk(e0, e1, e1, e1, x, NONE, a)).insert(e1, mk(e1, e0, e0, e0, y, NONE, b))
}
/// a pair from the free corner in front of `out` (origin x) to the isolated vertex y
spec fn pair_pend(h: HMap, out: I, x: I, y: I, e0: I, e1: I, a: EP, b: EP) -> HMap {
    w_prev(w_next(h.insert(e0, mk(e0, e1, e1, h[out].prev, x, NONE, a)).insert(e1, mk(e1, out, e0, e0, y, NONE, b)), h[out].prev, e0), out, e1)
}
/// what insert_edge_between does to the edge table
spec fn joined(m: HalfEdgeMeshImpl, x: I, y: I, e0: I, e1: I, a: EP, b: EP, g: HMap) -> bool {
    let (h, v) = (m.h(), m.v());
    if v[x].edge == NONE && v[y].edge == NONE { g =~= pair_iso(h, v, x, y, e0, e1, a, b) }
    else if v[y].edge == NONE { forall|o: I| #[trigger] only_free(h, out_ids(h, v[x]), o) ==> g =~= pair_pend(h, o, x, y, e0, e1, a, b) }
    else if v[x].edge == NONE { forall|o: I| #[trigger] only_free(h, out_ids(h, v[y]), o) ==> g =~= pair_pend(h, o, y, x, e1, e0, b, a) }
    else { forall|o: I, p: I| #[trigger] only_free(h, out_ids(h, v[x]), o) && #[trigger] only_free(h, out_ids(h, v[y]), p) ==> g =~= bridged(h, h[o].prev, h[p].prev, e0, e1, a, b) }
}
spec fn set_rep(v: VMap, x: I, e: I) -> VMap { if v[x].edge == NONE { v.insert(x, mkv(x, e, v[x].payload)) } else { v } }
proof fn lemma_pair_iso(h: HMap, v: VMap, f: FMap, x: I, y: I, e0: I, e1: I, a: EP, b: EP)
    requires wf(h, v, f), fresh2(h, e0, e1), v.contains_key(x), v.contains_key(y), x != y, v[x].edge == NONE, v[y].edge == NONE,
    ensures wf(pair_iso(h, v, x, y, e0, e1, a, b), set_rep(set_rep(v, x, e0), y, e1), f),
{
    let g = pair_iso(h, v, x, y, e0, e1, a, b); let w = set_rep(set_rep(v, x, e0), y, e1);
    assert(vert_ok(h, v, x)); assert(vert_ok(h, v, y));
    assert forall|e: I| g.contains_key(e) implies #[trigger] link_ok(g, e) by { if e != e0 && e != e1 { assert(link_ok(h, e)); } }
    assert forall|e: I| g.contains_key(e) implies #[trigger] twin_ok(g, e) by { if e != e0 && e != e1 { assert(twin_ok(h, e)); } }
    assert forall|e: I| g.contains_key(e) implies #[trigger] edge_ok(g, w, f, e) by { if e != e0 && e != e1 { assert(edge_ok(h, v, f, e)); assert(link_ok(h, e)); assert(twin_ok(h, e)); } }
    assert forall|z: I| w.contains_key(z) implies #[trigger] vert_ok(g, w, z) by { assert(vert_ok(h, v, z)); }
    assert forall|z: I| f.contains_key(z) implies #[trigger] face_ok(g, f, z) by { assert(face_ok(h, f, z)); }
    lemma_one_loop_keep(h, v, f, g, f);
}
proof fn lemma_pair_pend(h: HMap, v: VMap, f: FMap, out: I, x: I, y: I, e0: I, e1: I, a: EP, b: EP)
    requires wf(h, v, f), fresh2(h, e0, e1), h.contains_key(out), h[out].face == NONE, h[out].origin_id == x, v.contains_key(y), x != y, v[y].edge == NONE,
    ensures wf(pair_pend(h, out, x, y, e0, e1, a, b), set_rep(v, y, e1), f),
{
    let g = pair_pend(h, out, x, y, e0, e1, a, b); let w = set_rep(v, y, e1);
    let p = h[out].prev;
    assert(link_ok(h, out)); assert(link_ok(h, p)); assert(edge_ok(h, v, f, out)); assert(edge_ok(h, v, f, p)); assert(twin_ok(h, p)); assert(edge_ok(h, v, f, h[p].twin));
    assert(vert_ok(h, v, y));
    assert forall|e: I| g.contains_key(e) implies #[trigger] link_ok(g, e) by { if e != e0 && e != e1 { assert(link_ok(h, e)); assert(link_ok(h, h[e].next)); assert(link_ok(h, h[e].prev)); } }
    assert forall|e: I| g.contains_key(e) implies #[trigger] twin_ok(g, e) by { if e != e0 && e != e1 { assert(twin_ok(h, e)); } }
    assert forall|e: I| g.contains_key(e) implies #[trigger] edge_ok(g, w, f, e) by {
        if e != e0 && e != e1 { assert(edge_ok(h, v, f, e)); assert(link_ok(h, e)); assert(twin_ok(h, e)); assert(edge_ok(h, v, f, h[e].next)); }
    }
    assert forall|z: I| w.contains_key(z) implies #[trigger] vert_ok(g, w, z) by { assert(vert_ok(h, v, z)); }
    assert forall|z: I| f.contains_key(z) implies #[trigger] face_ok(g, f, z) by { assert(face_ok(h, f, z)); }
    lemma_one_loop_keep(h, v, f, g, f);
}

impl HalfEdgeMeshImpl {
//@fn src/halfedge/mesh/builder/semi.rs impl HalfEdgeSemiBuilder for HalfEdgeMeshImpl :: insert_edge_no_update
//@ret r
        requires old(self).halfedges.inv(), old(self).halfedges.in_use() + 2 <= I::maxv(),
            p0.0 == NONE || old(self).h().contains_key(p0.0), p0.1 == NONE || old(self).h().contains_key(p0.1),
            p1.0 == NONE || old(self).h().contains_key(p1.0), p1.1 == NONE || old(self).h().contains_key(p1.1),
        ensures frame_h(*old(self), *final(self)), pair_added(*old(self), *final(self), r, p0, p1),
//@endfn
//@fn src/halfedge/mesh/builder/halfedge.rs impl MeshHalfEdgeBuilder for HalfEdgeMeshImpl :: insert_edge
//@ret r
        requires old(self).valid(), bridgeable(old(self).h(), inside, outside), room_e(*old(self), 2),
        ensures final(self).valid(), frame_h(*old(self), *final(self)), grown(*old(self), *final(self), 2, 0, 0), fresh2(old(self).h(), r.0, r.1),
            final(self).h() =~= bridged(old(self).h(), inside, outside, r.0, r.1, ep1, ep2),
//@pre
        let ghost o = *self;
        proof { let h = o.h(); assert(link_ok(h, inside)); assert(link_ok(h, outside)); assert(edge_ok(h, o.v(), o.f(), h[inside].next)); assert(edge_ok(h, o.v(), o.f(), h[outside].next));
            assert(vert_ok(h, o.v(), tgt(h, inside))); assert(vert_ok(h, o.v(), tgt(h, outside))); assert(link_ok(h, h[inside].next)); assert(link_ok(h, h[outside].next)); }
//@post
        proof {
            lemma_bridge(o.h(), o.v(), o.f(), inside, outside, vx_ret.0, vx_ret.1, ep1, ep2);
            assert(self.h() =~= bridged(o.h(), inside, outside, vx_ret.0, vx_ret.1, ep1, ep2));
        }
//@endfn
//@fn src/halfedge/mesh/builder/semi.rs impl HalfEdgeSemiBuilder for HalfEdgeMeshImpl :: insert_edge_no_check
//@ret r
        requires old(self).inv(), old(self).clean(), links(old(self).h()), inside != outside, old(self).h().contains_key(inside), old(self).h().contains_key(outside),
            old(self).valid() || corner_ok(old(self).h(), old(self).v(), inside) && corner_ok(old(self).h(), old(self).v(), outside), room_e(*old(self), 2),
        ensures old(self).valid() && bridgeable(old(self).h(), inside, outside) ==> final(self).valid(), final(self).inv(), final(self).clean(), frame_h(*old(self), *final(self)), grown(*old(self), *final(self), 2, 0, 0), fresh2(old(self).h(), r.0, r.1),
            final(self).h() =~= bridged(old(self).h(), inside, outside, r.0, r.1, ep1, ep2),
//@pre
        let ghost o = *self;
        proof { let h = o.h(); assert(link_ok(h, inside)); assert(link_ok(h, outside)); assert(link_ok(h, h[inside].next)); assert(link_ok(h, h[outside].next));
            if o.valid() { assert(edge_ok(h, o.v(), o.f(), h[inside].next)); assert(edge_ok(h, o.v(), o.f(), h[outside].next));
                assert(vert_ok(h, o.v(), tgt(h, inside))); assert(vert_ok(h, o.v(), tgt(h, outside))); } }
//@post
        proof {
            if o.valid() && bridgeable(o.h(), inside, outside) { lemma_bridge(o.h(), o.v(), o.f(), inside, outside, vx_ret.0, vx_ret.1, ep1, ep2); }
            assert(self.h() =~= bridged(o.h(), inside, outside, vx_ret.0, vx_ret.1, ep1, ep2));
        }
//@endfn
//@fn src/halfedge/mesh/builder/halfedge.rs impl MeshHalfEdgeBuilder for HalfEdgeMeshImpl :: insert_edge_between
//@ret r
        requires old(self).valid(), one_corner(*old(self), origin0), one_corner(*old(self), origin1), origin0 != origin1, room_e(*old(self), 2),
        ensures final(self).valid(), final(self).faces == old(self).faces, final(self).payload == old(self).payload, grown(*old(self), *final(self), 2, 0, 0),
            fresh2(old(self).h(), r.0, r.1), joined(*old(self), origin0, origin1, r.0, r.1, ep0, ep1, final(self).h()),
            final(self).v() =~= set_rep(set_rep(old(self).v(), origin0, r.0), origin1, r.1),
//@pre
        let ghost o = *self; let ghost (h, v, f) = (self.h(), self.v(), self.f());
        let ghost a = choose|e: I| #[trigger] only_free(h, out_ids(h, v[origin0]), e);
        let ghost b = choose|e: I| #[trigger] only_free(h, out_ids(h, v[origin1]), e);
        proof {
            assert(vert_ok(h, v, origin0)); assert(vert_ok(h, v, origin1));
            assert forall|r: Option<I>, q: Option<I>| v[origin0].edge != NONE && #[trigger] first_free(h, out_ids(h, v[origin0]), r) && #[trigger] first_free(h, in_ids(h, v[origin0]), q)
                implies r == Some(a) && q == Some(h[a].prev) by { lemma_corner(o, origin0, r, q, a); }
            assert forall|r: Option<I>, q: Option<I>| v[origin1].edge != NONE && #[trigger] first_free(h, out_ids(h, v[origin1]), r) && #[trigger] first_free(h, in_ids(h, v[origin1]), q)
                implies r == Some(b) && q == Some(h[b].prev) by { lemma_corner(o, origin1, r, q, b); }
            if v[origin0].edge != NONE { lemma_free_some(o, origin0, a); }
            if v[origin1].edge != NONE { lemma_free_some(o, origin1, b); }
        }
//@post
        proof {
            let (e0, e1) = vx_ret;
            let w = set_rep(set_rep(v, origin0, e0), origin1, e1);
            if v[origin0].edge == NONE && v[origin1].edge == NONE { lemma_pair_iso(h, v, f, origin0, origin1, e0, e1, ep0, ep1); assert(self.h() =~= pair_iso(h, v, origin0, origin1, e0, e1, ep0, ep1)); }
            else if v[origin1].edge == NONE { lemma_pair_pend(h, v, f, a, origin0, origin1, e0, e1, ep0, ep1); assert(self.h() =~= pair_pend(h, a, origin0, origin1, e0, e1, ep0, ep1)); }
            else if v[origin0].edge == NONE { lemma_pair_pend(h, v, f, b, origin1, origin0, e1, e0, ep1, ep0); assert(self.h() =~= pair_pend(h, b, origin1, origin0, e1, e0, ep1, ep0)); }
            else { assert(link_ok(h, h[a].prev)); assert(link_ok(h, h[b].prev)); lemma_bridge(h, v, f, h[a].prev, h[b].prev, e0, e1, ep0, ep1); assert(self.h() =~= bridged(h, h[a].prev, h[b].prev, e0, e1, ep0, ep1)); }
            assert(self.v() =~= w);
            assert forall|x: I| x != a && v[origin0].edge != NONE implies !#[trigger] only_free(h, out_ids(h, v[origin0]), x) by {
                if only_free(h, out_ids(h, v[origin0]), x) { let s = out_ids(h, v[origin0]); let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(s[j] == a); } }
            assert forall|x: I| x != b && v[origin1].edge != NONE implies !#[trigger] only_free(h, out_ids(h, v[origin1]), x) by {
                if only_free(h, out_ids(h, v[origin1]), x) { let s = out_ids(h, v[origin1]); let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(s[j] == b); } }
        }
//@endfn
//@fn src/halfedge/mesh/builder/halfedge.rs impl MeshHalfEdgeBuilder for HalfEdgeMeshImpl :: close_face
//@ret r
        requires old(self).valid(), bridgeable(old(self).h(), inside, outside), room_e(*old(self), 2), room_f(*old(self), 1),
        ensures final(self).valid(), grown(*old(self), *final(self), 2, 0, 1), final(self).vertices == old(self).vertices, final(self).payload == old(self).payload,
            face_closed(*old(self), *final(self), inside, outside, ep1, ep2, fp, curved, r),
//@pre
        let ghost mut o = *self; let ghost mut all = Seq::<I>::empty(); let ghost mut gk = 0int;
//@aftercall insert_edge 0
        proof { o = *self; all = orbit(nmap(o.h()), inside); I::ix_inj(NONE, NONE); assert(link_ok(o.h(), inside)); lemma_loop(o, inside); lemma_nperm(o); lemma_fresh(nmap(o.h()), pmap(o.h()), hsize(o), inside);
            lemma_faces_set(o.h(), Seq::<I>::empty(), NONE); assert(all.skip(0) =~= all); assert(all.take(0) =~= Seq::<I>::empty()); }
//@loop 0
            invariant 0 <= gk <= all.len(), it_0.inv(self.h()), it_0.todo(self.h()) == all.skip(gk), all == orbit(nmap(o.h()), inside), links(o.h()),
                self.halfedges.inv(), self.halfedges.in_use() == o.halfedges.in_use(), forall|i: I| #[trigger] self.halfedges.reserved(i) == o.halfedges.reserved(i),
                self.vertices == o.vertices, self.payload == o.payload, self.faces.inv(), forall|i: I| #[trigger] self.faces.reserved(i) == o.faces.reserved(i), self.faces.in_use() == o.faces.in_use() + 1,
                self.f() == o.f().insert(f, mkf(f, inside, curved, fp)),
                self.h() =~= faces_set(o.h(), all.take(gk), f),
                forall|j: int| 0 <= j < all.len() ==> o.h().contains_key(#[trigger] all[j]),
            ensures gk == all.len(),
            decreases all.len() - gk,
//@lstart 0
            let ghost h0 = self.h();
            proof { if gk < all.len() { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1)); assert(link_ok(o.h(), all[gk]));
                assert(all.take(gk + 1) =~= all.take(gk).push(all[gk])); lemma_take_push(all, gk); } }
//@lend 0
            proof { lemma_faces_set(o.h(), all.take(gk), f); lemma_faces_set(o.h(), all.take(gk + 1), f);
                assert(self.h() =~= faces_set(o.h(), all.take(gk + 1), f)); gk = gk + 1; }
//@post
        proof {
            I::ix_inj(vx_ret.0, NONE);
            assert(all.take(gk) =~= all);
            lemma_close(o, inside, vx_ret.0, curved, fp);
            assert(self.h() =~= faces_set(o.h(), all, vx_ret.0));
            assert(self.f() =~= o.f().insert(vx_ret.0, mkf(vx_ret.0, inside, curved, fp)));
        }
//@endfn
//@fn src/halfedge/mesh/builder/halfedge.rs impl MeshHalfEdgeBuilder for HalfEdgeMeshImpl :: close_face_default
//@ret r
        requires old(self).valid(), bridgeable(old(self).h(), inside, outside), room_e(*old(self), 2), room_f(*old(self), 1),
        ensures final(self).valid(), grown(*old(self), *final(self), 2, 0, 1), final(self).vertices == old(self).vertices, final(self).payload == old(self).payload,
            face_closed(*old(self), *final(self), inside, outside, ep_default(), ep_default(), fp_default(), curved, r),
//@endfn
}
/// a pair r.1/r.2 was inserted between the targets of inside and outside, and the loop through inside became face r.0
spec fn face_closed(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, inside: I, outside: I, ep1: EP, ep2: EP, fp: FP, curved: bool, r: (I, I, I)) -> bool {
    let g = bridged(o.h(), inside, outside, r.1, r.2, ep1, ep2);
    &&& fresh2(o.h(), r.1, r.2) && fresh1(o.f(), r.0)
    &&& n.f() =~= o.f().insert(r.0, mkf(r.0, inside, curved, fp))
    &&& n.h() =~= faces_set(g, orbit(nmap(g), inside), r.0)
}
/// a vertex with a free corner has both a free outgoing and a free ingoing edge
proof fn lemma_free_some(m: HalfEdgeMeshImpl, x: I, e: I)
    requires m.valid(), m.v().contains_key(x), m.v()[x].edge != NONE, only_free(m.h(), out_ids(m.h(), m.v()[x]), e),
    ensures !first_free(m.h(), out_ids(m.h(), m.v()[x]), None), !first_free(m.h(), in_ids(m.h(), m.v()[x]), None), m.h().contains_key(e), m.h()[e].origin_id == x,
        m.h().contains_key(m.h()[e].prev), m.h()[m.h()[e].prev].face == NONE, m.h()[m.h()[e].prev].next == e,
{
    let h = m.h();
    let s = out_ids(h, m.v()[x]);
    let ins = in_ids(h, m.v()[x]);
    lemma_out(m, x);
    lemma_wperm(m);
    lemma_orbit_contains(wmap(h), vmap(h), hsize(m), m.v()[x].edge);
    let i = choose|i: int| 0 <= i < s.len() && s[i] == e;
    assert(s[i] == e);
    let p = h[e].prev;
    assert(link_ok(h, e)); assert(link_ok(h, p)); assert(twin_ok(h, p)); assert(edge_ok(h, m.v(), m.f(), p));
    let t = h[p].twin;
    assert(wmap(h)[t] == e);
    lemma_oclosed(wmap(h), vmap(h), hsize(m), m.v()[x].edge, t);
    assert(s.contains(e)); assert(s.contains(t));
    let j = choose|j: int| 0 <= j < s.len() && s[j] == t;
    assert(ins[j] == p);
}
