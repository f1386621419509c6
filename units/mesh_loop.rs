// Paths and loops of new vertices.

proof fn lemma_fixpoint_orbit(p: IMap<I, I>, x: I)
    requires p[x] == x,
    ensures orbit(p, x) =~= seq![x],
{
    assert(it(p, x, 1) == x) by { assert(it(p, x, 0) == x); reveal_with_fuel(it, 3); }
    assert(is_period(p, x, 1));
    let n = period(p, x);
    assert(is_period(p, x, n));
    if n > 1 { assert(it(p, x, 1) != x); }
    assert(n == 1);
}
spec fn disjoint_new(o: HMap, es: Seq<I>, ts: Seq<I>) -> bool {
    &&& es.no_duplicates() && ts.no_duplicates()
    &&& forall|i: int| 0 <= i < es.len() ==> !o.contains_key(#[trigger] es[i]) && es[i] != NONE
    &&& forall|i: int| 0 <= i < ts.len() ==> !o.contains_key(#[trigger] ts[i]) && ts[i] != NONE
    &&& forall|i: int, j: int| 0 <= i < es.len() && 0 <= j < ts.len() ==> #[trigger] es[i] != #[trigger] ts[j]
}
spec fn path_vs(ov: VMap, nv: VMap, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, ps: Seq<VP>) -> bool {
    &&& vs.no_duplicates() && vs.len() == ps.len()
    &&& forall|x: I| #[trigger] nv.contains_key(x) <==> (ov.contains_key(x) || vs.contains(x))
    &&& forall|x: I| #[trigger] ov.contains_key(x) ==> nv[x] == ov[x]
    &&& forall|i: int| 0 <= i < vs.len() ==> !ov.contains_key(#[trigger] vs[i]) && vs[i] != NONE && nv[vs[i]] == mkv(vs[i], if i == 0 { es[0] } else { ts[i - 1] }, ps[i])
}
/// a path of new vertices: es leads from the first to the last vertex, ts back
spec fn path_new(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, ps: Seq<VP>) -> bool {
    let m = es.len() as int;
    &&& vs.len() == m + 1 && ts.len() == m && m >= 1 && disjoint_new(o.h(), es, ts)
    &&& path_vs(o.v(), n.v(), vs, es, ts, ps)
    &&& forall|e: I| #[trigger] n.h().contains_key(e) <==> (o.h().contains_key(e) || es.contains(e) || ts.contains(e))
    &&& forall|e: I| #[trigger] o.h().contains_key(e) ==> n.h()[e] == o.h()[e]
    &&& forall|i: int| 0 <= i < m ==> n.h()[#[trigger] es[i]] == mk(es[i], if i + 1 == m { ts[i] } else { es[i + 1] }, ts[i], if i == 0 { ts[0] } else { es[i - 1] }, vs[i], NONE, ep_default())
    &&& forall|i: int| 0 <= i < m ==> n.h()[#[trigger] ts[i]] == mk(ts[i], if i == 0 { es[0] } else { ts[i - 1] }, es[i], if i + 1 == m { es[i] } else { ts[i + 1] }, vs[i + 1], NONE, ep_default())
}
spec fn pn(i: int, n: int) -> int { if i + 1 == n { 0 } else { i + 1 } }
spec fn pp(i: int, n: int) -> int { if i == 0 { n - 1 } else { i - 1 } }
/// a closed loop of new vertices: es runs around it in the order of the vertices, ts in the opposite direction
spec fn loop_new(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, ps: Seq<VP>) -> bool { loop_with(o, n, vs, es, ts, ps, NONE, NONE) }
/// a closed loop of new vertices with face fe along es and face ft along ts
spec fn loop_with(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, ps: Seq<VP>, fe: I, ft: I) -> bool {
    let m = es.len() as int;
    &&& vs.len() == m && ts.len() == m && m >= 2 && disjoint_new(o.h(), es, ts)
    &&& path_vs(o.v(), n.v(), vs, es, ts, ps)
    &&& forall|e: I| #[trigger] n.h().contains_key(e) <==> (o.h().contains_key(e) || es.contains(e) || ts.contains(e))
    &&& forall|e: I| #[trigger] o.h().contains_key(e) ==> n.h()[e] == o.h()[e]
    &&& forall|i: int| 0 <= i < m ==> n.h()[#[trigger] es[i]] == mk(es[i], es[pn(i, m)], ts[i], es[pp(i, m)], vs[i], fe, ep_default())
    &&& forall|i: int| 0 <= i < m ==> n.h()[#[trigger] ts[i]] == mk(ts[i], ts[pp(i, m)], es[i], ts[pn(i, m)], vs[pn(i, m)], ft, ep_default())
}
proof fn lemma_path_start(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, r: (I, I), a: VP, b: VP)
    requires isolated_added(o, n, r, a, ep_default(), b, ep_default()),
    ensures path_new(o, n, seq![r.0, r.1], seq![n.v()[r.0].edge], seq![n.v()[r.1].edge], seq![a, b]), orbit(wmap(n.h()), n.v()[r.0].edge) == seq![n.v()[r.0].edge],
{
    let e0 = n.v()[r.0].edge; let e1 = n.v()[r.1].edge;
    let vs = seq![r.0, r.1]; let es = seq![e0]; let ts = seq![e1];
    assert forall|x: I| vs.contains(x) <==> (x == r.0 || x == r.1) by { assert(vs[0] == r.0 && vs[1] == r.1); }
    assert forall|x: I| es.contains(x) <==> (x == e0) by { assert(es[0] == e0); }
    assert forall|x: I| ts.contains(x) <==> (x == e1) by { assert(ts[0] == e1); }
    lemma_fixpoint_orbit(wmap(n.h()), e0);
    assert(orbit(wmap(n.h()), e0) =~= seq![e0]);
}
proof fn lemma_push_contains(s: Seq<I>, x: I)
    ensures forall|y: I| #[trigger] s.push(x).contains(y) <==> (s.contains(y) || y == x),
{
    assert forall|y: I| #[trigger] s.push(x).contains(y) <==> (s.contains(y) || y == x) by {
        let t = s.push(x);
        if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(t[i] == y); }
        if y == x { assert(t[s.len() as int] == y); }
        if t.contains(y) { let i = choose|i: int| 0 <= i < t.len() && t[i] == y; if i < s.len() { assert(s[i] == y); } }
    }
}
/// the edge table after hanging a pair off the end of a path, point by point
spec fn hung(h: HMap, g: HMap, i: I, o: I, e1: I, e2: I, a: HalfEdgeImpl, b: HalfEdgeImpl) -> bool {
    &&& forall|e: I| #[trigger] g.contains_key(e) <==> (h.contains_key(e) || e == e1 || e == e2)
    &&& g[e1] == a && g[e2] == b
    &&& forall|e: I| e != e1 && e != e2 ==> #[trigger] g[e] == (HalfEdgeImpl { next: if e == i { e1 } else { h[e].next }, prev: if e == o { e2 } else { h[e].prev }, ..h[e] })
}
proof fn lemma_path_edges(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, g: HMap, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, ps: Seq<VP>, x: I, e1: I, e2: I)
    requires path_new(o, m, vs, es, ts, ps), fresh2(m.h(), e1, e2),
        hung(m.h(), g, es.last(), ts.last(), e1, e2, mk(e1, e2, e2, es.last(), vs.last(), NONE, ep_default()), mk(e2, ts.last(), e1, e1, x, NONE, ep_default())),
    ensures ({ let es2 = es.push(e1); let ts2 = ts.push(e2); let vs2 = vs.push(x); let m = es2.len() as int;
        &&& disjoint_new(o.h(), es2, ts2)
        &&& forall|e: I| #[trigger] g.contains_key(e) <==> (o.h().contains_key(e) || es2.contains(e) || ts2.contains(e))
        &&& forall|e: I| #[trigger] o.h().contains_key(e) ==> g[e] == o.h()[e]
        &&& forall|i: int| 0 <= i < m ==> g[#[trigger] es2[i]] == mk(es2[i], if i + 1 == m { ts2[i] } else { es2[i + 1] }, ts2[i], if i == 0 { ts2[0] } else { es2[i - 1] }, vs2[i], NONE, ep_default())
        &&& forall|i: int| 0 <= i < m ==> g[#[trigger] ts2[i]] == mk(ts2[i], if i == 0 { es2[0] } else { ts2[i - 1] }, es2[i], if i + 1 == m { es2[i] } else { ts2[i + 1] }, vs2[i + 1], NONE, ep_default()) }),
{
    let k = es.len() as int;
    let h = m.h();
    lemma_push_contains(es, e1); lemma_push_contains(ts, e2);
    let es2 = es.push(e1); let ts2 = ts.push(e2); let vs2 = vs.push(x);
    assert forall|i: int| 0 <= i < k implies #[trigger] es[i] != e1 && es[i] != e2 && h.contains_key(es[i]) by { assert(es.contains(es[i])); }
    assert forall|i: int| 0 <= i < k implies #[trigger] ts[i] != e1 && ts[i] != e2 && h.contains_key(ts[i]) by { assert(ts.contains(ts[i])); }
    assert forall|e: I| #[trigger] o.h().contains_key(e) implies g[e] == o.h()[e] && e != e1 && e != e2 by {
        assert(h.contains_key(e)); assert(e != es[k - 1]); assert(e != ts[k - 1]);
    }
    assert forall|i: int| 0 <= i < k + 1 implies g[#[trigger] es2[i]] == mk(es2[i], if i + 1 == k + 1 { ts2[i] } else { es2[i + 1] }, ts2[i], if i == 0 { ts2[0] } else { es2[i - 1] }, vs2[i], NONE, ep_default()) by {
        if i < k { assert(es2[i] == es[i]); assert(es[i] != ts[k - 1]); if i < k - 1 { assert(es[i] != es[k - 1]); assert(es2[i + 1] == es[i + 1]); } }
    }
    assert forall|i: int| 0 <= i < k + 1 implies g[#[trigger] ts2[i]] == mk(ts2[i], if i == 0 { es2[0] } else { ts2[i - 1] }, es2[i], if i + 1 == k + 1 { es2[i] } else { ts2[i + 1] }, vs2[i + 1], NONE, ep_default()) by {
        if i < k { assert(ts2[i] == ts[i]); assert(es[k - 1] != ts[i]); if i < k - 1 { assert(ts[i] != ts[k - 1]); assert(ts2[i + 1] == ts[i + 1]); } }
    }
}
proof fn lemma_path_step(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, ps: Seq<VP>, x: I, e1: I, e2: I, vp: VP)
    requires path_new(o, m, vs, es, ts, ps), fresh1(m.v(), x), fresh2(m.h(), e1, e2),
        n.v() =~= m.v().insert(x, mkv(x, e2, vp)),
        n.h() =~= pendant(m.h(), m.v(), es.last(), ts.last(), x, e1, e2, vp, ep_default(), ep_default()),
    ensures path_new(o, n, vs.push(x), es.push(e1), ts.push(e2), ps.push(vp)),
{
    let k = es.len() as int;
    assert(es.contains(es[k - 1])); assert(ts.contains(ts[k - 1])); assert(m.h()[ts[k - 1]].origin_id == vs[k]);
    assert(hung(m.h(), n.h(), es.last(), ts.last(), e1, e2, mk(e1, e2, e2, es.last(), vs.last(), NONE, ep_default()), mk(e2, ts.last(), e1, e1, x, NONE, ep_default())));
    lemma_path_edges(o, m, n.h(), vs, es, ts, ps, x, e1, e2);
    lemma_push_contains(vs, x);
    let es2 = es.push(e1); let ts2 = ts.push(e2); let vs2 = vs.push(x);
    assert forall|i: int| 0 <= i < vs.len() implies #[trigger] vs[i] != x by { assert(vs.contains(vs[i])); assert(m.v().contains_key(vs[i])); }
    assert(!o.v().contains_key(x)) by { if o.v().contains_key(x) { assert(m.v().contains_key(x)); } }
    assert forall|i: int| 0 <= i < vs2.len() implies !o.v().contains_key(#[trigger] vs2[i]) && vs2[i] != NONE && n.v()[vs2[i]] == mkv(vs2[i], if i == 0 { es2[0] } else { ts2[i - 1] }, ps.push(vp)[i]) by {
        if i < vs.len() { assert(vs2[i] == vs[i]); }
    }
}
proof fn lemma_path_close(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, ps: Seq<VP>, e1: I, e2: I)
    requires path_new(o, m, vs, es, ts, ps), fresh2(m.h(), e1, e2), n.v() == m.v(),
        n.h() =~= bridged(m.h(), ts[0], es.last(), e1, e2, ep_default(), ep_default()),
    ensures loop_new(o, n, vs, es.push(e2), ts.push(e1), ps),
{
    let k = es.len() as int;
    lemma_push_contains(es, e2); lemma_push_contains(ts, e1);
    let es2 = es.push(e2); let ts2 = ts.push(e1);
    assert(es.contains(es[k - 1])); assert(ts.contains(ts[k - 1])); assert(es.contains(es[0])); assert(ts.contains(ts[0]));
    assert forall|i: int| 0 <= i < k implies #[trigger] es[i] != e1 && es[i] != e2 by { assert(es.contains(es[i])); assert(m.h().contains_key(es[i])); }
    assert forall|i: int| 0 <= i < k implies #[trigger] ts[i] != e1 && ts[i] != e2 by { assert(ts.contains(ts[i])); assert(m.h().contains_key(ts[i])); }
    assert(!o.h().contains_key(e1)) by { if o.h().contains_key(e1) { assert(m.h().contains_key(e1)); } }
    assert(!o.h().contains_key(e2)) by { if o.h().contains_key(e2) { assert(m.h().contains_key(e2)); } }
    let h = m.h(); let g = n.h();
    assert(h[ts[0]].next == es[0]); assert(h[es[k - 1]].next == ts[k - 1]);
    assert(tgt(h, ts[0]) == vs[0]); assert(tgt(h, es[k - 1]) == vs[k]);
    let q = k + 1;
    assert forall|i: int| 0 <= i < q implies g[#[trigger] es2[i]] == mk(es2[i], es2[pn(i, q)], ts2[i], es2[pp(i, q)], vs[i], NONE, ep_default()) by {
        if i < k { assert(es2[i] == es[i]); assert(forall|j: int| 0 <= j < k ==> es[i] != #[trigger] ts[j]); if 0 < i { assert(es[i] != es[0]); } if i < k - 1 { assert(es[i] != es[k - 1]); } }
    }
    assert forall|i: int| 0 <= i < q implies g[#[trigger] ts2[i]] == mk(ts2[i], ts2[pp(i, q)], es2[i], ts2[pn(i, q)], vs[pn(i, q)], NONE, ep_default()) by {
        if i < k { assert(ts2[i] == ts[i]); assert(forall|j: int| 0 <= j < k ==> #[trigger] es[j] != ts[i]); if 0 < i { assert(ts[i] != ts[0]); } if i < k - 1 { assert(ts[i] != ts[k - 1]); } }
    }
    assert forall|e: I| #[trigger] o.h().contains_key(e) implies g[e] == o.h()[e] by {
        assert(h.contains_key(e)); assert(e != es[k - 1] && e != es[0]); assert(e != ts[k - 1] && e != ts[0]);
    }
    assert forall|i: int| 0 <= i < vs.len() implies !o.v().contains_key(#[trigger] vs[i]) && vs[i] != NONE && n.v()[vs[i]] == mkv(vs[i], if i == 0 { es2[0] } else { ts2[i - 1] }, ps[i]) by { }
}

impl HalfEdgeMeshImpl {
//@fn src/halfedge/mesh/builder/builder.rs impl MeshBuilder for HalfEdgeMeshImpl :: insert_path
//@param vp: GIter<VP>
//@ret r
        requires old(self).valid(), vp.rest().len() >= 2, room_e(*old(self), 2 * (vp.rest().len() - 1)), room_v(*old(self), vp.rest().len() as int),
        ensures final(self).valid(), final(self).faces == old(self).faces, final(self).payload == old(self).payload,
            grown(*old(self), *final(self), 2 * (vp.rest().len() - 1), vp.rest().len() as int, 0),
            exists|vs: Seq<I>, es: Seq<I>, ts: Seq<I>| #[trigger] path_new(*old(self), *final(self), vs, es, ts, vp.rest()) && r == (ts[0], es.last()),
//@pre
        let ghost o = *self; let ghost ps = vp.rest(); let ghost mut k = 0int;
        let ghost mut vs = Seq::<I>::empty(); let ghost mut es = Seq::<I>::empty(); let ghost mut ts = Seq::<I>::empty();
        let ghost mut m = *self;
//@aftercall add_isolated_edge_default 0
        proof {
            lemma_path_start(o, *self, (v0, v), p0, p1);
            vs = seq![v0, v]; es = seq![self.v()[v0].edge]; ts = seq![self.v()[v].edge]; k = 2;
            assert(ps.take(2) =~= seq![p0, p1]);
            let h = self.h();
            assert(out_ids(h, self.v()[v0]) == seq![es[0]]);
            assert(tgt(h, es[0]) == v);
            assert forall|r: Option<HalfEdgeImpl>| #[trigger] first_to(h, out_ids(h, self.v()[v0]), v, r) implies r == Some(h[es[0]]) by {
                if r.is_none() { assert(tgt(h, seq![es[0]][0]) != v); }
            }
        }
//@loop 0
            invariant self.valid(), self.faces == o.faces, self.payload == o.payload, grown(o, *self, 2 * (k - 1), k, 0), 2 <= k <= ps.len(), it_0.rest() == ps.skip(k),
                room_e(o, 2 * (ps.len() - 1)), room_v(o, ps.len() as int),
                path_new(o, *self, vs, es, ts, ps.take(k)), input == es.last(), output == ts.last(), first.twin == ts[0], es.len() == k - 1,
            ensures k == ps.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof {
                m = *self;
                assert(es.contains(es.last())); assert(ts.contains(ts.last()));
                if k < ps.len() { assert(ps.skip(k)[0] == ps[k]); assert(ps.skip(k).drop_first() =~= ps.skip(k + 1)); assert(ps.take(k + 1) =~= ps.take(k).push(ps[k])); }
            }
//@aftercall add_vertex_via_edge_default 0
            proof {
                let e1 = self.h()[input].next; let e2 = self.h()[e1].twin; let x = self.h()[e2].origin_id;
                lemma_path_step(o, m, *self, vs, es, ts, ps.take(k), x, e1, e2, pos);
                vs = vs.push(x); es = es.push(e1); ts = ts.push(e2); k = k + 1;
                assert(es[es.len() - 1] == e1); assert(es.contains(es.last()));
            }
//@post
        proof { assert(ps.take(k) =~= ps); assert(path_new(o, *self, vs, es, ts, ps)); }
//@endfn
//@fn src/halfedge/mesh/builder/builder.rs impl MeshBuilder for HalfEdgeMeshImpl :: insert_loop
//@param vp: GIter<VP>
//@ret r
        requires old(self).valid(), vp.rest().len() >= 2, room_e(*old(self), 2 * (vp.rest().len() as int)), room_v(*old(self), vp.rest().len() as int),
        ensures final(self).valid(), final(self).faces == old(self).faces, final(self).payload == old(self).payload,
            grown(*old(self), *final(self), 2 * (vp.rest().len() as int), vp.rest().len() as int, 0),
            exists|vs: Seq<I>, es: Seq<I>, ts: Seq<I>| #[trigger] loop_new(*old(self), *final(self), vs, es, ts, vp.rest()) && r == ts[0],
//@pre
        let ghost o = *self; let ghost ps = vp.rest(); let ghost mut m = *self;
        let ghost mut vs = Seq::<I>::empty(); let ghost mut es = Seq::<I>::empty(); let ghost mut ts = Seq::<I>::empty();
//@aftercall insert_path 0
        proof {
            m = *self;
            let (a, b, c) = choose|vs: Seq<I>, es: Seq<I>, ts: Seq<I>| #[trigger] path_new(o, m, vs, es, ts, ps) && (first, last) == (ts[0], es.last());
            vs = a; es = b; ts = c;
            let k = es.len() as int;
            assert(ts.contains(ts[0])); assert(es.contains(es[k - 1])); assert(m.h()[es[0]].origin_id == vs[0]); assert(m.h()[ts[k - 1]].origin_id == vs[k]);
            assert(m.h()[ts[0]].next == es[0]); assert(m.h()[es[k - 1]].next == ts[k - 1]);
            assert(bridgeable(m.h(), first, last));
        }
//@post
        proof {
            let k = es.len() as int;
            let e1 = self.h()[ts[0]].next; let e2 = self.h()[e1].twin;
            lemma_path_close(o, m, *self, vs, es, ts, ps, e1, e2);
            assert(ts.push(e1)[0] == ts[0]);
            assert(loop_new(o, *self, vs, es.push(e2), ts.push(e1), ps));
        }
//@endfn
}
