// Flipping one edge or all edges: the half-edges of a pair exchange their roles.

/// exchange of two handles
spec fn sw(e: I, t: I, z: I) -> I { if z == e { t } else if z == t { e } else { z } }
/// the half-edges e and its twin exchange their places; handles and payloads stay
spec fn flip_h(h: HMap, e: I) -> HMap {
    let t = h[e].twin;
    IMap::new(|z: I| h.contains_key(z), |z: I| mk(z, sw(e, t, h[sw(e, t, z)].next), h[z].twin, sw(e, t, h[sw(e, t, z)].prev), h[sw(e, t, z)].origin_id, h[sw(e, t, z)].face, h[z].payload))
}
spec fn flip_v(h: HMap, v: VMap, e: I) -> VMap {
    let t = h[e].twin; let (x, y) = (h[e].origin_id, h[t].origin_id);
    v.insert(x, mkv(x, t, v[x].payload)).insert(y, mkv(y, e, v[y].payload))
}
spec fn rep(f: FMap, x: I, e: I) -> FMap { if x == NONE { f } else { f.insert(x, mkf(x, e, f[x].curved, f[x].payload)) } }
spec fn flip_f(h: HMap, f: FMap, e: I) -> FMap { rep(rep(f, h[e].face, h[e].twin), h[h[e].twin].face, e) }

proof fn lemma_flip_it(h: HMap, e: I, x: I, k: nat)
    requires links(h), twins(h), h.contains_key(e), h.contains_key(x),
    ensures it(nmap(flip_h(h, e)), sw(e, h[e].twin, x), k) == sw(e, h[e].twin, it(nmap(h), x, k)), h.contains_key(it(nmap(h), x, k)),
    decreases k,
{
    assert(twin_ok(h, e));
    if k > 0 {
        lemma_flip_it(h, e, x, (k - 1) as nat);
        let z = it(nmap(h), x, (k - 1) as nat);
        assert(link_ok(h, z));
    }
}
proof fn lemma_flip_reach(h: HMap, e: I, x: I, y: I)
    requires links(h), twins(h), h.contains_key(e), h.contains_key(x), reach(nmap(h), x, y),
    ensures reach(nmap(flip_h(h, e)), sw(e, h[e].twin, x), sw(e, h[e].twin, y)),
{
    let k = choose|k: nat| #[trigger] it(nmap(h), x, k) == y;
    lemma_flip_it(h, e, x, k);
    assert(it(nmap(flip_h(h, e)), sw(e, h[e].twin, x), k) == sw(e, h[e].twin, y));
}
proof fn lemma_flip_wf(m: HalfEdgeMeshImpl, e: I)
    requires m.valid(), m.h().contains_key(e),
    ensures wf(flip_h(m.h(), e), flip_v(m.h(), m.v(), e), flip_f(m.h(), m.f(), e)),
{
    let (h, v, f) = (m.h(), m.v(), m.f());
    let (g, w, d) = (flip_h(h, e), flip_v(h, v, e), flip_f(h, f, e));
    let t = h[e].twin;
    assert(twin_ok(h, e)); assert(twin_ok(h, t)); assert(edge_ok(h, v, f, e)); assert(edge_ok(h, v, f, t)); assert(link_ok(h, e)); assert(link_ok(h, t));
    assert forall|z: I| g.contains_key(z) implies #[trigger] link_ok(g, z) by { assert(link_ok(h, z)); assert(link_ok(h, sw(e, t, z))); assert(link_ok(h, h[sw(e, t, z)].next)); }
    assert forall|z: I| g.contains_key(z) implies #[trigger] twin_ok(g, z) by { assert(twin_ok(h, z)); }
    assert forall|z: I| g.contains_key(z) implies #[trigger] edge_ok(g, w, d, z) by {
        let y = sw(e, t, z);
        assert(twin_ok(h, z)); assert(twin_ok(h, y)); assert(edge_ok(h, v, f, y)); assert(edge_ok(h, v, f, z)); assert(link_ok(h, y));
        assert(sw(e, t, h[z].twin) == h[y].twin);
        assert(g[g[z].next].origin_id == h[h[y].next].origin_id);
    }
    assert forall|x: I| w.contains_key(x) implies #[trigger] vert_ok(g, w, x) by { assert(vert_ok(h, v, x)); assert(vert_ok(h, v, h[e].origin_id)); assert(vert_ok(h, v, h[t].origin_id)); }
    assert forall|x: I| d.contains_key(x) implies #[trigger] face_ok(g, d, x) by {
        if h[e].face != NONE { assert(face_ok(h, f, h[e].face)); } if h[t].face != NONE { assert(face_ok(h, f, h[t].face)); }
        assert(f.contains_key(x)); assert(face_ok(h, f, x)); }
    lemma_nperm(m);
    assert forall|z: I| g.contains_key(z) implies #[trigger] loop_ok(g, d, z) by {
        let F = g[z].face; let y = sw(e, t, z);
        if F != NONE {
            assert(loop_ok(h, f, y)); assert(edge_ok(h, v, f, y)); assert(face_ok(h, f, F));
            let s = f[F].edge;
            if h[t].face == F {
                assert(d[F].edge == e); assert(loop_ok(h, f, t));
                lemma_reach_sym(nmap(h), pmap(h), hsize(m), s, t); lemma_reach_trans(nmap(h), t, s, y); lemma_flip_reach(h, e, t, y);
            } else if h[e].face == F {
                assert(d[F].edge == t); assert(loop_ok(h, f, e));
                lemma_reach_sym(nmap(h), pmap(h), hsize(m), s, e); lemma_reach_trans(nmap(h), e, s, y); lemma_flip_reach(h, e, e, y);
            } else { assert(d[F].edge == s); lemma_flip_reach(h, e, s, y); }
        }
    }
}
/// flipping the same edge twice restores every half-edge
proof fn lemma_flip_twice(h: HMap, e: I)
    requires links(h), twins(h), h.contains_key(e),
    ensures flip_h(flip_h(h, e), e) =~= h,
{
    assert(twin_ok(h, e));
    let t = h[e].twin; let g = flip_h(h, e); let k = flip_h(g, e);
    assert(g[e].twin == t);
    assert forall|z: I| h.contains_key(z) implies #[trigger] k[z] == h[z] by { assert(link_ok(h, z)); assert(twin_ok(h, z)); assert(sw(e, t, sw(e, t, z)) == z); assert(h.contains_key(sw(e, t, z))); }
}
/// directed connections (origin, target, face to the left) as a whole stay the same: z takes the place of its partner
proof fn lemma_flip_surface(h: HMap, v: VMap, f: FMap, e: I, z: I)
    requires wf(h, v, f), h.contains_key(e), h.contains_key(z),
    ensures ({ let g = flip_h(h, e); let y = sw(e, h[e].twin, z);
        g[z].origin_id == h[y].origin_id && tgt(g, z) == tgt(h, y) && g[z].face == h[y].face && g[z].twin == h[z].twin
        && g[e].origin_id == tgt(h, e) && tgt(g, e) == h[e].origin_id }),
{
    let t = h[e].twin; let y = sw(e, t, z);
    assert(twin_ok(h, e)); assert(link_ok(h, z)); assert(link_ok(h, y)); assert(link_ok(h, e)); assert(link_ok(h, t)); assert(edge_ok(h, v, f, e)); assert(edge_ok(h, v, f, t));
}
impl HalfEdgeImpl {
//@fn src/halfedge/edge/halfedge.rs impl HalfEdge for HalfEdgeImpl :: flip
        requires old(mesh).valid(), old(mesh).h().contains_key(e),
        ensures final(mesh).valid(), final(mesh).h() =~= flip_h(old(mesh).h(), e), final(mesh).v() =~= flip_v(old(mesh).h(), old(mesh).v(), e), final(mesh).f() =~= flip_f(old(mesh).h(), old(mesh).f(), e),
            grown(*old(mesh), *final(mesh), 0, 0, 0), final(mesh).payload == old(mesh).payload,
//@pre
        let ghost o = *mesh; let ghost (gh, gv, gf) = (mesh.h(), mesh.v(), mesh.f());
        proof { let t = gh[e].twin; assert(link_ok(gh, e)); assert(twin_ok(gh, e)); assert(link_ok(gh, t)); assert(edge_ok(gh, gv, gf, e)); assert(edge_ok(gh, gv, gf, t));
            assert(vert_ok(gh, gv, gh[e].origin_id)); assert(vert_ok(gh, gv, gh[t].origin_id));
            if gh[e].face != NONE { assert(face_ok(gh, gf, gh[e].face)); } if gh[t].face != NONE { assert(face_ok(gh, gf, gh[t].face)); }
            assert(link_ok(gh, gh[e].next)); assert(link_ok(gh, gh[e].prev)); assert(link_ok(gh, gh[t].next)); assert(link_ok(gh, gh[t].prev)); }
//@post
        proof {
            lemma_flip_wf(o, e);
            let t = gh[e].twin; let g = flip_h(gh, e);
            assert forall|z: I| gh.contains_key(z) implies #[trigger] mesh.h()[z] == g[z] by { assert(link_ok(gh, z)); assert(twin_ok(gh, z)); }
            assert(mesh.h() =~= flip_h(gh, e)); assert(mesh.v() =~= flip_v(gh, gv, e)); assert(mesh.f() =~= flip_f(gh, gf, e));
        }
//@endfn
}

/// every pair with a handle in s has exchanged its roles
spec fn swp(h: HMap, s: ISet<I>, z: I) -> I { if s.contains(z) || s.contains(h[z].twin) { h[z].twin } else { z } }
spec fn flip_some(h: HMap, s: ISet<I>) -> HMap {
    IMap::new(|z: I| h.contains_key(z), |z: I| mk(z, swp(h, s, h[swp(h, s, z)].next), h[z].twin, swp(h, s, h[swp(h, s, z)].prev), h[swp(h, s, z)].origin_id, h[swp(h, s, z)].face, h[z].payload))
}
/// every half-edge takes over the role of its twin
spec fn flip_all(h: HMap) -> HMap {
    IMap::new(|z: I| h.contains_key(z), |z: I| mk(z, h[h[h[z].twin].next].twin, h[z].twin, h[h[h[z].twin].prev].twin, h[h[z].twin].origin_id, h[h[z].twin].face, h[z].payload))
}
/// vertices and faces keep handle and payload; only the representative edge may differ
spec fn same_elems(v: VMap, w: VMap, f: FMap, d: FMap) -> bool {
    &&& forall|x: I| #[trigger] w.contains_key(x) <==> v.contains_key(x)
    &&& forall|x: I| #[trigger] v.contains_key(x) ==> w[x].id == x && w[x].payload == v[x].payload && (w[x].edge == NONE <==> v[x].edge == NONE)
    &&& forall|x: I| #[trigger] d.contains_key(x) <==> f.contains_key(x)
    &&& forall|x: I| #[trigger] f.contains_key(x) ==> d[x].id == x && d[x].payload == f[x].payload && d[x].curved == f[x].curved
}
proof fn lemma_flip_more(h: HMap, s: ISet<I>, e: I)
    requires links(h), twins(h), h.contains_key(e), !s.contains(e), !s.contains(h[e].twin),
    ensures flip_h(flip_some(h, s), e) =~= flip_some(h, s.insert(e)),
{
    let k = flip_some(h, s); let t = h[e].twin; let s2 = s.insert(e);
    assert(twin_ok(h, e)); assert(k[e].twin == t);
    assert forall|z: I| h.contains_key(z) implies sw(e, t, #[trigger] swp(h, s, z)) == swp(h, s2, z) && swp(h, s, sw(e, t, z)) == swp(h, s2, z) && h.contains_key(swp(h, s, z)) && h.contains_key(swp(h, s2, z)) by { assert(twin_ok(h, z)); }
    let g = flip_h(k, e); let r = flip_some(h, s2);
    assert forall|z: I| h.contains_key(z) implies #[trigger] g[z] == r[z] by {
        let y = sw(e, t, z); let x = swp(h, s2, z);
        assert(h.contains_key(y)) by { assert(twin_ok(h, e)); }
        let q = swp(h, s, z); assert(h.contains_key(q)); assert(sw(e, t, q) == x); assert(swp(h, s, y) == x);
        assert(h.contains_key(x)); assert(link_ok(h, x));
        assert(sw(e, t, swp(h, s, h[x].next)) == swp(h, s2, h[x].next)); assert(sw(e, t, swp(h, s, h[x].prev)) == swp(h, s2, h[x].prev));
        assert(k[y].next == swp(h, s, h[x].next));
    }
}
proof fn lemma_flip_done(h: HMap, s: ISet<I>)
    requires links(h), twins(h), forall|z: I| #[trigger] h.contains_key(z) ==> s.contains(z) || s.contains(h[z].twin),
    ensures flip_some(h, s) =~= flip_all(h),
{
    assert forall|z: I| h.contains_key(z) implies #[trigger] swp(h, s, z) == h[z].twin by { }
    let g = flip_some(h, s); let r = flip_all(h);
    assert forall|z: I| h.contains_key(z) implies #[trigger] g[z] == r[z] by { assert(twin_ok(h, z)); assert(link_ok(h, h[z].twin)); assert(swp(h, s, z) == h[z].twin);
        assert(swp(h, s, h[h[z].twin].next) == h[h[h[z].twin].next].twin); assert(swp(h, s, h[h[z].twin].prev) == h[h[h[z].twin].prev].twin); }
}
spec fn pairs_ok(h: HMap, s: Seq<(&HalfEdgeImpl, &HalfEdgeImpl)>) -> bool {
    &&& forall|j: int| 0 <= j < s.len() ==> h.contains_key((#[trigger] s[j]).0.id) && *s[j].0 == h[s[j].0.id] && *s[j].1 == h[s[j].0.twin] && !(s[j].0.twin < s[j].0.id)
    &&& forall|j: int, k: int| 0 <= j < k < s.len() ==> (#[trigger] s[j]).0.id.ix() < (#[trigger] s[k]).0.id.ix()
}
spec fn pairs_below(s: Seq<(&HalfEdgeImpl, &HalfEdgeImpl)>, b: int) -> bool { forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).0.id.ix() < b }
spec fn pair_at(s: Seq<(&HalfEdgeImpl, &HalfEdgeImpl)>, e: I) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0.id == e }
spec fn pairs_have(s: Seq<(&HalfEdgeImpl, &HalfEdgeImpl)>, all: Seq<HalfEdgeImpl>, n: int) -> bool { forall|i: int| 0 <= i < n && !((#[trigger] all[i]).twin < all[i].id) ==> pair_at(s, all[i].id) }
spec fn ids_of(s: Seq<I>, gp: Seq<(&HalfEdgeImpl, &HalfEdgeImpl)>, n: int) -> bool { s.len() == n && forall|j: int| 0 <= j < n ==> #[trigger] s[j] == gp[j].0.id }
proof fn lemma_flip_elems(m: HalfEdgeMeshImpl, e: I)
    requires m.valid(), m.h().contains_key(e),
    ensures same_elems(m.v(), flip_v(m.h(), m.v(), e), m.f(), flip_f(m.h(), m.f(), e)),
{
    let (h, v, f) = (m.h(), m.v(), m.f()); let t = h[e].twin;
    assert(twin_ok(h, e)); assert(edge_ok(h, v, f, e)); assert(edge_ok(h, v, f, t)); assert(vert_ok(h, v, h[e].origin_id)); assert(vert_ok(h, v, h[t].origin_id));
    assert forall|x: I| #[trigger] v.contains_key(x) implies v[x].id == x by { assert(vert_ok(h, v, x)); }
    assert forall|x: I| #[trigger] f.contains_key(x) implies f[x].id == x by { assert(face_ok(h, f, x)); }
}
/// every pair exactly once, named by its half-edge with the smaller handle
spec fn pair_listing(h: HMap, s: Seq<(&HalfEdgeImpl, &HalfEdgeImpl)>) -> bool {
    &&& pairs_ok(h, s)
    &&& forall|e: I| #[trigger] h.contains_key(e) && !(h[e].twin < e) ==> pair_at(s, e)
}
impl HalfEdgeMeshImpl {
//@fn src/mesh/mesh/halfedge.rs trait HalfEdgeMesh :: twin_edges
//@ret r
        requires self.valid(),
        ensures pair_listing(self.h(), r.rest()),
//@pre
        let ghost all = live_seq(self.halfedges.data@); let ghost mut gk = 0int; let ghost h = self.h();
        proof { lemma_listing(self.halfedges); }
//@loop 0
            invariant refs(it_0.rest()) == all.skip(gk), 0 <= gk <= all.len(), listing(all, h), h == self.h(), self.valid(),
                pairs_ok(h, res_0@), gk < all.len() ==> pairs_below(res_0@, all[gk].id.ix()), pairs_have(res_0@, all, gk),
            ensures gk == all.len(),
            decreases it_0.rest().len(),
//@lstart 0
            let ghost r0 = res_0@;
            proof { assert(refs(it_0.rest()).len() == it_0.rest().len());
                if gk < all.len() { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1));
                assert(refs(it_0.rest())[0] == all[gk]); assert(refs(it_0.rest().drop_first()) =~= refs(it_0.rest()).drop_first());
                assert(h.contains_key(all[gk].key())); assert(twin_ok(h, all[gk].id)); assert(link_ok(h, all[gk].id)); assert(all[gk].key() == all[gk].id);
                if gk + 1 < all.len() { assert(all[gk].key().ix() < all[gk + 1].key().ix()); } } }
//@lend 0
            proof {
                assert forall|i: int| 0 <= i < gk + 1 && !((#[trigger] all[i]).twin < all[i].id) implies pair_at(res_0@, all[i].id) by {
                    if i < gk { let j = choose|j: int| 0 <= j < r0.len() && (#[trigger] r0[j]).0.id == all[i].id; assert(res_0@[j] == r0[j]); }
                    else { assert(res_0@[r0.len() as int].0.id == all[i].id); }
                }
                gk = gk + 1;
            }
//@post
        proof {
            assert forall|e: I| #[trigger] h.contains_key(e) && !(h[e].twin < e) implies pair_at(vx_ret.rest(), e) by {
                let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).key() == e; assert(all[i].id == e); assert(h[e] == all[i]);
            }
        }
//@endfn
//@fn src/mesh/mesh/halfedge.rs trait HalfEdgeMesh :: flip_edge
//@retty &mut HalfEdgeMeshImpl
//@ret r
        requires old(self).valid(), old(self).h().contains_key(e),
        ensures r.valid(), r.h() =~= flip_h(old(self).h(), e), r.v() =~= flip_v(old(self).h(), old(self).v(), e), r.f() =~= flip_f(old(self).h(), old(self).f(), e),
            grown(*old(self), *r, 0, 0, 0), r.payload == old(self).payload, *final(self) == *final(r),
//@endfn
//@fn src/mesh/mesh/halfedge.rs trait HalfEdgeMesh :: flip
//@retty &mut HalfEdgeMeshImpl
//@ret r
        requires old(self).valid(),
        ensures r.valid(), r.h() =~= flip_all(old(self).h()), same_elems(old(self).v(), r.v(), old(self).f(), r.f()),
            grown(*old(self), *r, 0, 0, 0), r.payload == old(self).payload, *final(self) == *final(r),
//@pre
        let ghost o = *self; let ghost (gh, gv, gf) = (self.h(), self.v(), self.f());
        let ghost mut gp = Seq::<(&HalfEdgeImpl, &HalfEdgeImpl)>::empty(); let ghost mut gk = 0int; let ghost mut done = ISet::<I>::empty(); let ghost mut gids = Seq::<I>::empty();
        proof { assert(flip_some(gh, done) =~= gh) by {
            assert forall|z: I| gh.contains_key(z) implies #[trigger] flip_some(gh, done)[z] == gh[z] by { assert(link_ok(gh, z)); } } }
//@loop 0
            invariant pair_listing(gh, gp), it_0.rest() == gp.skip(gk), 0 <= gk <= gp.len(), ids_of(res_0@, gp, gk),
            ensures gk == gp.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof { if gk < gp.len() { assert(gp.skip(gk)[0] == gp[gk]); assert(gp.skip(gk).drop_first() =~= gp.skip(gk + 1)); } }
//@lend 0
            proof { gk = gk + 1; }
//@aftercall twin_edges 0
            proof { gp = it_0.rest(); assert(gp.skip(0) =~= gp); }
//@after 0
            proof { gids = res_0@; }
//@loop 1
            invariant v_1@ == gids, ids_of(gids, gp, gp.len() as int), pair_listing(gh, gp), o.valid(), gh == o.h(), gv == o.v(), gf == o.f(),
                0 <= i_1 <= gids.len(), self.valid(), grown(o, *self, 0, 0, 0), self.payload == o.payload,
                self.h() == flip_some(gh, done), same_elems(gv, self.v(), gf, self.f()),
                forall|z: I| #[trigger] done.contains(z) <==> exists|j: int| 0 <= j < i_1 && (#[trigger] gids[j]) == z,
            decreases gids.len() - i_1,
//@lstart 1
            let ghost s0 = *self; let ghost d0 = done;
            proof {
                let e0 = gids[i_1 as int]; let n = i_1 as int;
                assert(gp[n].0.id == e0); assert(twin_ok(gh, e0));
                assert(!d0.contains(e0)) by { if d0.contains(e0) { let j = choose|j: int| 0 <= j < n && (#[trigger] gids[j]) == e0; assert(gp[j].0.id == e0); } }
                let t0 = gh[e0].twin;
                assert(!d0.contains(t0)) by { if d0.contains(t0) { let j = choose|j: int| 0 <= j < n && (#[trigger] gids[j]) == t0; assert(gp[j].0.id == t0); assert(twin_ok(gh, t0)); } }
                lemma_flip_more(gh, d0, e0);
                let (ch, cv, cf) = (self.h(), self.v(), self.f());
                assert(ch.contains_key(e0)); assert(twin_ok(ch, e0)); let t1 = ch[e0].twin;
                assert(edge_ok(ch, cv, cf, e0)); assert(edge_ok(ch, cv, cf, t1)); assert(vert_ok(ch, cv, ch[e0].origin_id)); assert(vert_ok(ch, cv, ch[t1].origin_id));
                if ch[e0].face != NONE { assert(face_ok(ch, cf, ch[e0].face)); } if ch[t1].face != NONE { assert(face_ok(ch, cf, ch[t1].face)); }
                lemma_flip_elems(*self, e0);
                done = done.insert(e0);
            }
//@lend 1
            proof {
                assert forall|z: I| #[trigger] done.contains(z) <==> exists|j: int| 0 <= j < i_1 && (#[trigger] gids[j]) == z by {
                    if d0.contains(z) { let j = choose|j: int| 0 <= j < i_1 - 1 && (#[trigger] gids[j]) == z; assert(gids[j] == z); }
                    if z == gids[i_1 - 1] { assert(done.contains(z)); }
                }
            }
//@post
        proof {
            assert forall|z: I| #[trigger] gh.contains_key(z) implies done.contains(z) || done.contains(gh[z].twin) by {
                assert(twin_ok(gh, z));
                let e = if gh[z].twin < z { gh[z].twin } else { z };
                assert(!(gh[e].twin < e));
                let j = choose|j: int| 0 <= j < gp.len() && (#[trigger] gp[j]).0.id == e; assert(gids[j] == e);
            }
            lemma_flip_done(gh, done);
        }
//@endfn
}
