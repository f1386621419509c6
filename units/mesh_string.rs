// insert_vertices_into_edge: a chain of new vertices between the origin of an edge and its target.

/// the corner around e in which the chain is inserted
struct Gap { e: I, t: I, p: I, q: I, x: I, f1: I, f2: I }
spec fn gap(h: HMap, e: I) -> Gap {
    let t = h[e].twin;
    Gap { e, t, p: h[e].prev, q: h[t].next, x: h[e].origin_id, f1: h[e].face, f2: h[t].face }
}
spec fn at_tip(g: Gap) -> bool { g.p == g.t }
/// links of the i-th pair of n, when the last pair is followed by `an`/preceded by `bp`
spec fn chain_a(g: Gap, vs: Seq<I>, aa: Seq<I>, bb: Seq<I>, i: int, n: int, an: I, pay: EP) -> HalfEdgeImpl {
    mk(aa[i], if i + 1 == n { an } else { aa[i + 1] }, bb[i], if i == 0 { if at_tip(g) { bb[0] } else { g.p } } else { aa[i - 1] }, if i == 0 { g.x } else { vs[i - 1] }, g.f1, pay)
}
spec fn chain_b(g: Gap, vs: Seq<I>, aa: Seq<I>, bb: Seq<I>, i: int, n: int, bp: I, pay: EP) -> HalfEdgeImpl {
    mk(bb[i], if i == 0 { if at_tip(g) { aa[0] } else { g.q } } else { bb[i - 1] }, aa[i], if i + 1 == n { bp } else { bb[i + 1] }, vs[i], g.f2, pay)
}
spec fn chain_ids(h: HMap, v: VMap, vs: Seq<I>, aa: Seq<I>, bb: Seq<I>) -> bool {
    &&& vs.len() == aa.len() && vs.len() == bb.len() && disjoint_new(h, aa, bb) && vs.no_duplicates()
    &&& forall|i: int| 0 <= i < vs.len() ==> !v.contains_key(#[trigger] vs[i]) && vs[i] != NONE
}
spec fn chain_v(v: VMap, w: VMap, x: I, vs: Seq<I>, aa: Seq<I>, bb: Seq<I>, ps: Seq<(EP, EP, VP)>) -> bool {
    &&& forall|y: I| #[trigger] w.contains_key(y) <==> (v.contains_key(y) || vs.contains(y))
    &&& forall|y: I| #[trigger] v.contains_key(y) ==> w[y] == (if y == x { mkv(x, aa[0], v[x].payload) } else { v[y] })
    &&& forall|i: int| 0 <= i < vs.len() ==> w[#[trigger] vs[i]] == mkv(vs[i], bb[i], ps[i].2)
}
/// state while the chain is being built: its end is still open
spec fn stringing(h: HMap, v: VMap, k: HMap, w: VMap, g: Gap, vs: Seq<I>, aa: Seq<I>, bb: Seq<I>, ps: Seq<(EP, EP, VP)>) -> bool {
    let n = vs.len() as int;
    &&& chain_ids(h, v, vs, aa, bb) && ps.len() == n
    &&& n == 0 ==> k == h && w == v
    &&& n > 0 ==> {
        &&& chain_v(v, w, g.x, vs, aa, bb, ps)
        &&& forall|z: I| #[trigger] k.contains_key(z) <==> (h.contains_key(z) || aa.contains(z) || bb.contains(z))
        &&& forall|i: int| 0 <= i < n ==> k[#[trigger] aa[i]] == chain_a(g, vs, aa, bb, i, n, bb[n - 1], ps[i].0)
        &&& forall|i: int| 0 <= i < n ==> k[#[trigger] bb[i]] == chain_b(g, vs, aa, bb, i, n, aa[n - 1], ps[i].1)
        &&& forall|z: I| #[trigger] h.contains_key(z) ==> k[z] == (HalfEdgeImpl { next: if z == g.p { aa[0] } else { h[z].next }, prev: if z == g.q { bb[0] } else { h[z].prev }, ..h[z] })
    }
}
/// the finished chain: x - vs[0] - .. - vs[n-1] = new origin of e
spec fn strung(h: HMap, v: VMap, k: HMap, w: VMap, g: Gap, vs: Seq<I>, aa: Seq<I>, bb: Seq<I>, ps: Seq<(EP, EP, VP)>) -> bool {
    let n = vs.len() as int;
    &&& chain_ids(h, v, vs, aa, bb) && ps.len() == n
    &&& n == 0 ==> k =~= h && w == v
    &&& n > 0 ==> {
        &&& chain_v(v, w, g.x, vs, aa, bb, ps)
        &&& forall|z: I| #[trigger] k.contains_key(z) <==> (h.contains_key(z) || aa.contains(z) || bb.contains(z))
        &&& forall|i: int| 0 <= i < n ==> k[#[trigger] aa[i]] == chain_a(g, vs, aa, bb, i, n, g.e, ps[i].0)
        &&& forall|i: int| 0 <= i < n ==> k[#[trigger] bb[i]] == chain_b(g, vs, aa, bb, i, n, g.t, ps[i].1)
        &&& forall|z: I| #[trigger] h.contains_key(z) ==> k[z] == (HalfEdgeImpl {
                next: if z == g.t { bb[n - 1] } else if z == g.p { aa[0] } else { h[z].next },
                prev: if z == g.e { aa[n - 1] } else if z == g.q { bb[0] } else { h[z].prev },
                origin_id: if z == g.e { vs[n - 1] } else { h[z].origin_id }, ..h[z] })
    }
}
proof fn lemma_chain_fwd(k: HMap, aa: Seq<I>, i: int)
    requires 0 <= i < aa.len(), forall|j: int| 0 <= j < aa.len() ==> k.contains_key(#[trigger] aa[j]), forall|j: int| 0 <= j < aa.len() - 1 ==> k[#[trigger] aa[j]].next == aa[j + 1],
    ensures reach(nmap(k), aa[0], aa[i]),
    decreases i,
{
    if i == 0 { lemma_reach_refl(nmap(k), aa[0]); } else { lemma_chain_fwd(k, aa, i - 1); lemma_reach_next(nmap(k), aa[0], aa[i - 1]); assert(nmap(k)[aa[i - 1]] == aa[i]); }
}
proof fn lemma_chain_bwd(k: HMap, bb: Seq<I>, i: int)
    requires 0 <= i < bb.len(), forall|j: int| 0 <= j < bb.len() ==> k.contains_key(#[trigger] bb[j]), forall|j: int| 0 < j < bb.len() ==> k[#[trigger] bb[j]].next == bb[j - 1],
    ensures reach(nmap(k), bb[bb.len() - 1], bb[i]),
    decreases bb.len() - i,
{
    let n = bb.len() as int;
    if i == n - 1 { lemma_reach_refl(nmap(k), bb[n - 1]); } else { lemma_chain_bwd(k, bb, i + 1); lemma_reach_next(nmap(k), bb[n - 1], bb[i + 1]); assert(nmap(k)[bb[i + 1]] == bb[i]); }
}
/// one old step is a path in the new table; the chain itself is on that path
proof fn lemma_string_step(h: HMap, v: VMap, f: FMap, k: HMap, w: VMap, e: I, vs: Seq<I>, aa: Seq<I>, bb: Seq<I>, ps: Seq<(EP, EP, VP)>, z: I)
    requires wf(h, v, f), h.contains_key(e), strung(h, v, k, w, gap(h, e), vs, aa, bb, ps), vs.len() > 0, h.contains_key(z),
    ensures reach(nmap(k), z, h[z].next),
        z == gap(h, e).p ==> forall|i: int| 0 <= i < aa.len() ==> reach(nmap(k), z, #[trigger] aa[i]),
        z == gap(h, e).t ==> forall|i: int| 0 <= i < bb.len() ==> reach(nmap(k), z, #[trigger] bb[i]),
{
    let g = gap(h, e); let n = vs.len() as int; let q = nmap(k);
    assert(link_ok(h, e)); assert(twin_ok(h, e)); assert(link_ok(h, g.t)); assert(link_ok(h, z));
    assert forall|i: int| 0 <= i < n implies k.contains_key(#[trigger] aa[i]) && k.contains_key(bb[i]) by { assert(aa.contains(aa[i])); assert(bb.contains(bb[i])); }
    assert forall|i: int| 0 <= i < n implies k.contains_key(#[trigger] bb[i]) by { assert(bb.contains(bb[i])); }
    assert(forall|j: int| 0 <= j < n - 1 ==> k[#[trigger] aa[j]].next == aa[j + 1]);
    assert(forall|j: int| 0 < j < n ==> k[#[trigger] bb[j]].next == bb[j - 1]);
    lemma_reach_refl(q, z);
    lemma_reach_next(q, z, z);
    assert(q[z] == k[z].next);
    lemma_chain_fwd(k, aa, n - 1); lemma_chain_bwd(k, bb, 0);
    lemma_reach_next(q, aa[0], aa[n - 1]); assert(q[aa[n - 1]] == e);
    lemma_reach_next(q, bb[n - 1], bb[0]); assert(q[bb[0]] == (if at_tip(g) { aa[0] } else { g.q }));
    if z == g.t {
        assert(reach(q, z, bb[n - 1]));
        lemma_reach_trans(q, z, bb[n - 1], q[bb[0]]);
        assert forall|i: int| 0 <= i < n implies reach(q, z, #[trigger] bb[i]) by { lemma_chain_bwd(k, bb, i); lemma_reach_trans(q, z, bb[n - 1], bb[i]); }
        if at_tip(g) {
            assert(reach(q, z, aa[0]));
            lemma_reach_trans(q, z, aa[0], e);
            assert forall|i: int| 0 <= i < n implies reach(q, z, #[trigger] aa[i]) by { lemma_chain_fwd(k, aa, i); lemma_reach_trans(q, z, aa[0], aa[i]); }
        }
    } else if z == g.p {
        assert(reach(q, z, aa[0]));
        lemma_reach_trans(q, z, aa[0], e);
        assert forall|i: int| 0 <= i < n implies reach(q, z, #[trigger] aa[i]) by { lemma_chain_fwd(k, aa, i); lemma_reach_trans(q, z, aa[0], aa[i]); }
    }
}
proof fn lemma_string_reach(h: HMap, v: VMap, f: FMap, k: HMap, w: VMap, e: I, vs: Seq<I>, aa: Seq<I>, bb: Seq<I>, ps: Seq<(EP, EP, VP)>, s: I, m: nat)
    requires wf(h, v, f), h.contains_key(e), strung(h, v, k, w, gap(h, e), vs, aa, bb, ps), vs.len() > 0, h.contains_key(s),
    ensures reach(nmap(k), s, it(nmap(h), s, m)), h.contains_key(it(nmap(h), s, m)),
    decreases m,
{
    if m == 0 { lemma_reach_refl(nmap(k), s); } else {
        let z = it(nmap(h), s, (m - 1) as nat);
        lemma_string_reach(h, v, f, k, w, e, vs, aa, bb, ps, s, (m - 1) as nat);
        lemma_string_step(h, v, f, k, w, e, vs, aa, bb, ps, z);
        lemma_reach_trans(nmap(k), s, z, h[z].next);
        assert(link_ok(h, z));
        assert(it(nmap(h), s, m) == h[z].next);
    }
}
proof fn lemma_strung_loops(h: HMap, v: VMap, f: FMap, k: HMap, w: VMap, e: I, vs: Seq<I>, aa: Seq<I>, bb: Seq<I>, ps: Seq<(EP, EP, VP)>)
    requires wf(h, v, f), h.contains_key(e), strung(h, v, k, w, gap(h, e), vs, aa, bb, ps), vs.len() > 0,
    ensures one_loop(k, f),
{
    let g = gap(h, e); let n = vs.len() as int; let q = nmap(k);
    assert(link_ok(h, e)); assert(twin_ok(h, e)); assert(link_ok(h, g.t)); assert(link_ok(h, g.p)); assert(edge_ok(h, v, f, g.p));
    assert forall|z: I| k.contains_key(z) implies #[trigger] loop_ok(k, f, z) by {
        let F = k[z].face;
        if F != NONE {
            let y = if h.contains_key(z) { z } else if aa.contains(z) { g.p } else { g.t };
            if aa.contains(z) { let i = choose|i: int| 0 <= i < n && aa[i] == z; assert(k[aa[i]].face == g.f1); }
            else if bb.contains(z) { let i = choose|i: int| 0 <= i < n && bb[i] == z; assert(k[bb[i]].face == g.f2); }
            assert(h.contains_key(y) && h[y].face == F);
            assert(edge_ok(h, v, f, y)); assert(loop_ok(h, f, y)); assert(face_ok(h, f, F));
            let s = f[F].edge;
            let m = choose|m: nat| #[trigger] it(nmap(h), s, m) == y;
            lemma_string_reach(h, v, f, k, w, e, vs, aa, bb, ps, s, m);
            lemma_string_step(h, v, f, k, w, e, vs, aa, bb, ps, y);
            if y != z { assert(reach(q, y, z)); lemma_reach_trans(q, s, y, z); }
        }
    }
}
proof fn lemma_strung_wf(h: HMap, v: VMap, f: FMap, k: HMap, w: VMap, e: I, vs: Seq<I>, aa: Seq<I>, bb: Seq<I>, ps: Seq<(EP, EP, VP)>)
    requires wf(h, v, f), h.contains_key(e), strung(h, v, k, w, gap(h, e), vs, aa, bb, ps),
    ensures wf(k, w, f),
{
    let g = gap(h, e); let n = vs.len() as int;
    if n == 0 { assert(k == h); return; }
    assert(link_ok(h, e)); assert(twin_ok(h, e)); assert(twin_ok(h, g.t)); assert(link_ok(h, g.t)); assert(link_ok(h, g.p)); assert(link_ok(h, g.q));
    assert(edge_ok(h, v, f, e)); assert(edge_ok(h, v, f, g.t)); assert(edge_ok(h, v, f, g.p)); assert(twin_ok(h, g.p));
    assert forall|i: int| 0 <= i < n implies k.contains_key(#[trigger] aa[i]) && !h.contains_key(aa[i]) by { assert(aa.contains(aa[i])); }
    assert forall|i: int| 0 <= i < n implies k.contains_key(#[trigger] bb[i]) && !h.contains_key(bb[i]) by { assert(bb.contains(bb[i])); }
    assert forall|i: int| 0 <= i < n implies w.contains_key(#[trigger] vs[i]) && !v.contains_key(vs[i]) by { assert(vs.contains(vs[i])); }
    assert(g.p != g.e && g.q != g.t);
    lemma_string_links(h, v, f, k, w, e, vs, aa, bb, ps);
    lemma_string_edges(h, v, f, k, w, e, vs, aa, bb, ps);
    assert forall|y: I| w.contains_key(y) implies #[trigger] vert_ok(k, w, y) by {
        if v.contains_key(y) { assert(vert_ok(h, v, y)); if y == g.x { assert(k[aa[0]].origin_id == g.x); } else { assert(v[y].edge != e); if v[y].edge != NONE { assert(h.contains_key(v[y].edge)); } } }
        else { let i = choose|i: int| 0 <= i < n && vs[i] == y; assert(vs[i] == y); assert(k[bb[i]].origin_id == vs[i]); }
    }
    assert forall|y: I| f.contains_key(y) implies #[trigger] face_ok(k, f, y) by { assert(face_ok(h, f, y)); assert(h.contains_key(f[y].edge)); }
    lemma_strung_loops(h, v, f, k, w, e, vs, aa, bb, ps);
}
proof fn lemma_string_links(h: HMap, v: VMap, f: FMap, k: HMap, w: VMap, e: I, vs: Seq<I>, aa: Seq<I>, bb: Seq<I>, ps: Seq<(EP, EP, VP)>)
    requires wf(h, v, f), h.contains_key(e), strung(h, v, k, w, gap(h, e), vs, aa, bb, ps), vs.len() > 0,
        forall|i: int| 0 <= i < vs.len() ==> k.contains_key(#[trigger] aa[i]) && !h.contains_key(aa[i]),
        forall|i: int| 0 <= i < vs.len() ==> k.contains_key(#[trigger] bb[i]) && !h.contains_key(bb[i]),
    ensures links(k), twins(k),
{
    let g = gap(h, e); let n = vs.len() as int;
    assert(link_ok(h, e)); assert(twin_ok(h, e)); assert(twin_ok(h, g.t)); assert(link_ok(h, g.t)); assert(link_ok(h, g.p)); assert(link_ok(h, g.q));
    assert(edge_ok(h, v, f, e)); assert(edge_ok(h, v, f, g.t)); assert(edge_ok(h, v, f, g.p)); assert(twin_ok(h, g.p));
    assert(g.p != g.e && g.q != g.t);
    assert forall|z: I| k.contains_key(z) implies #[trigger] link_ok(k, z) by {
        if h.contains_key(z) {
            assert(link_ok(h, z)); assert(link_ok(h, h[z].next)); assert(link_ok(h, h[z].prev));
            assert(k[aa[0]].prev == (if at_tip(g) { bb[0] } else { g.p }));
            assert(k[aa[n - 1]].next == e); assert(k[bb[n - 1]].prev == g.t); assert(k[bb[0]].next == (if at_tip(g) { aa[0] } else { g.q }));
        } else if aa.contains(z) {
            let i = choose|i: int| 0 <= i < n && aa[i] == z; assert(aa[i] == z);
            if i > 0 { assert(k[aa[i - 1]].next == aa[i]); } else { assert(k[bb[0]].next == (if at_tip(g) { aa[0] } else { g.q })); }
            if i < n - 1 { assert(k[aa[i + 1]].prev == aa[i]); }
        } else {
            let i = choose|i: int| 0 <= i < n && bb[i] == z; assert(bb[i] == z);
            if i > 0 { assert(k[bb[i - 1]].prev == bb[i]); } else { assert(k[aa[0]].prev == (if at_tip(g) { bb[0] } else { g.p })); }
            if i < n - 1 { assert(k[bb[i + 1]].next == bb[i]); }
        }
    }
    assert forall|z: I| k.contains_key(z) implies #[trigger] twin_ok(k, z) by {
        if h.contains_key(z) { assert(twin_ok(h, z)); }
        else if aa.contains(z) { let i = choose|i: int| 0 <= i < n && aa[i] == z; assert(aa[i] == z); assert(k[bb[i]].twin == aa[i]); }
        else { let i = choose|i: int| 0 <= i < n && bb[i] == z; assert(bb[i] == z); assert(k[aa[i]].twin == bb[i]); }
    }
}
proof fn lemma_string_edges(h: HMap, v: VMap, f: FMap, k: HMap, w: VMap, e: I, vs: Seq<I>, aa: Seq<I>, bb: Seq<I>, ps: Seq<(EP, EP, VP)>)
    requires wf(h, v, f), h.contains_key(e), strung(h, v, k, w, gap(h, e), vs, aa, bb, ps), vs.len() > 0,
        forall|i: int| 0 <= i < vs.len() ==> k.contains_key(#[trigger] aa[i]) && !h.contains_key(aa[i]),
        forall|i: int| 0 <= i < vs.len() ==> k.contains_key(#[trigger] bb[i]) && !h.contains_key(bb[i]),
        forall|i: int| 0 <= i < vs.len() ==> w.contains_key(#[trigger] vs[i]) && !v.contains_key(vs[i]),
    ensures edges_ok(k, w, f),
{
    let g = gap(h, e); let n = vs.len() as int;
    assert(link_ok(h, e)); assert(twin_ok(h, e)); assert(twin_ok(h, g.t)); assert(link_ok(h, g.t)); assert(link_ok(h, g.p)); assert(link_ok(h, g.q));
    assert(edge_ok(h, v, f, e)); assert(edge_ok(h, v, f, g.t)); assert(edge_ok(h, v, f, g.p)); assert(twin_ok(h, g.p));
    assert(g.p != g.e && g.q != g.t);
    assert(k[aa[0]].origin_id == g.x && k[aa[0]].face == g.f1); assert(k[bb[n - 1]].origin_id == vs[n - 1] && k[bb[n - 1]].face == g.f2);
    assert forall|z: I| k.contains_key(z) implies #[trigger] edge_ok(k, w, f, z) by {
        if h.contains_key(z) {
            assert(edge_ok(h, v, f, z)); assert(link_ok(h, z)); assert(twin_ok(h, z)); assert(vert_ok(h, v, h[z].origin_id));
            assert(v.contains_key(h[z].origin_id)); assert(h.contains_key(h[z].next)); assert(h.contains_key(h[z].twin));
        } else if aa.contains(z) {
            let i = choose|i: int| 0 <= i < n && aa[i] == z; assert(aa[i] == z); assert(k[bb[i]].origin_id == vs[i]); assert(v.contains_key(g.x));
            if i < n - 1 { assert(k[aa[i + 1]].origin_id == vs[i] && k[aa[i + 1]].face == g.f1); }
            if i > 0 { assert(w[vs[i - 1]].edge == bb[i - 1]); assert(vs[i - 1] != vs[i]); }
        } else {
            let i = choose|i: int| 0 <= i < n && bb[i] == z; assert(bb[i] == z); assert(k[aa[i]].origin_id == (if i == 0 { g.x } else { vs[i - 1] }));
            assert(w[vs[i]].edge == bb[i]); assert(v.contains_key(g.x)); assert(edge_ok(h, v, f, g.t)); assert(h.contains_key(g.q)); assert(k[g.q].origin_id == g.x || g.q == e);
            if i > 0 { assert(k[bb[i - 1]].origin_id == vs[i - 1] && k[bb[i - 1]].face == g.f2); assert(vs[i - 1] != vs[i]); }
        }
    }
}
/// one more pair at the open end
proof fn lemma_string_push(h: HMap, v: VMap, f: FMap, k: HMap, w: VMap, k2: HMap, w2: VMap, e: I, vs: Seq<I>, aa: Seq<I>, bb: Seq<I>, ps: Seq<(EP, EP, VP)>, x: I, e1: I, e2: I, item: (EP, EP, VP))
    requires wf(h, v, f), h.contains_key(e), stringing(h, v, k, w, gap(h, e), vs, aa, bb, ps), fresh1(w, x), fresh2(k, e1, e2),
        ({ let g = gap(h, e); let n = vs.len() as int; let cur = if n == 0 { g.p } else { aa[n - 1] }; let cut = if n == 0 { g.q } else { bb[n - 1] };
           let first = n == 0 && at_tip(g);
           &&& hung(k, k2, cur, cut, e1, e2,
                mk(e1, e2, e2, if first { e2 } else { cur }, if n == 0 { g.x } else { vs[n - 1] }, g.f1, item.0),
                mk(e2, if first { e1 } else { cut }, e1, e1, x, g.f2, item.1))
           &&& w2 =~= (if n == 0 { w.insert(x, mkv(x, e2, item.2)).insert(g.x, mkv(g.x, e1, v[g.x].payload)) } else { w.insert(x, mkv(x, e2, item.2)) }) }),
    ensures stringing(h, v, k2, w2, gap(h, e), vs.push(x), aa.push(e1), bb.push(e2), ps.push(item)),
{
    let g = gap(h, e); let n = vs.len() as int;
    let (vs2, aa2, bb2, ps2) = (vs.push(x), aa.push(e1), bb.push(e2), ps.push(item));
    lemma_push_contains(vs, x); lemma_push_contains(aa, e1); lemma_push_contains(bb, e2);
    assert(link_ok(h, e)); assert(twin_ok(h, e)); assert(link_ok(h, g.t)); assert(edge_ok(h, v, f, e)); assert(vert_ok(h, v, g.x));
    assert forall|i: int| 0 <= i < n implies #[trigger] aa[i] != e1 && aa[i] != e2 && k.contains_key(aa[i]) by { assert(aa.contains(aa[i])); }
    assert forall|i: int| 0 <= i < n implies #[trigger] bb[i] != e1 && bb[i] != e2 && k.contains_key(bb[i]) by { assert(bb.contains(bb[i])); }
    assert forall|i: int| 0 <= i < n implies #[trigger] vs[i] != x && w.contains_key(vs[i]) by { assert(vs.contains(vs[i])); }
    assert(!h.contains_key(e1) && !h.contains_key(e2)) by { if h.contains_key(e1) { assert(k.contains_key(e1)); } if h.contains_key(e2) { assert(k.contains_key(e2)); } }
    assert(!v.contains_key(x)) by { if v.contains_key(x) { assert(w.contains_key(x)); } }
    assert forall|i: int| 0 <= i < n + 1 implies k2[#[trigger] aa2[i]] == chain_a(g, vs2, aa2, bb2, i, n + 1, bb2[n], ps2[i].0) by {
        if i < n { assert(aa2[i] == aa[i]); assert(aa[i] != bb[n - 1]); if i < n - 1 { assert(aa[i] != aa[n - 1]); assert(aa2[i + 1] == aa[i + 1]); } }
    }
    assert forall|i: int| 0 <= i < n + 1 implies k2[#[trigger] bb2[i]] == chain_b(g, vs2, aa2, bb2, i, n + 1, aa2[n], ps2[i].1) by {
        if i < n { assert(bb2[i] == bb[i]); assert(aa[n - 1] != bb[i]); if i < n - 1 { assert(bb[i] != bb[n - 1]); assert(bb2[i + 1] == bb[i + 1]); } }
    }
    assert forall|z: I| #[trigger] h.contains_key(z) implies k2[z] == (HalfEdgeImpl { next: if z == g.p { aa2[0] } else { h[z].next }, prev: if z == g.q { bb2[0] } else { h[z].prev }, ..h[z] }) by {
        if n > 0 { assert(z != aa[n - 1] && z != bb[n - 1]); assert(k.contains_key(z)); }
    }
    assert forall|i: int| 0 <= i < n + 1 implies w2[#[trigger] vs2[i]] == mkv(vs2[i], bb2[i], ps2[i].2) by { if i < n { assert(vs2[i] == vs[i]); assert(vs[i] != g.x); } }
    assert forall|y: I| #[trigger] v.contains_key(y) implies w2[y] == (if y == g.x { mkv(g.x, aa2[0], v[g.x].payload) } else { v[y] }) by { if n > 0 { assert(w.contains_key(y)); } }
}
impl HalfEdgeMeshImpl {
//@fn src/halfedge/mesh/builder/builder.rs impl MeshBuilder for HalfEdgeMeshImpl :: insert_vertices_into_edge
//@param ps: GIter<(EP, EP, VP)>
//@generics
//@ret r
        requires old(self).valid(), old(self).h().contains_key(e), room_e(*old(self), 2 * (ps.rest().len() as int)), room_v(*old(self), ps.rest().len() as int),
        ensures final(self).valid(), final(self).faces == old(self).faces, final(self).payload == old(self).payload,
            grown(*old(self), *final(self), 2 * (ps.rest().len() as int), ps.rest().len() as int, 0),
            exists|vs: Seq<I>, aa: Seq<I>, bb: Seq<I>| #[trigger] strung(old(self).h(), old(self).v(), final(self).h(), final(self).v(), gap(old(self).h(), e), vs, aa, bb, ps.rest())
                && r == (if ps.rest().len() == 0 { e } else { aa[0] }),
//@pre
        let ghost o = *self; let ghost (hh, vv, ff) = (self.h(), self.v(), self.f()); let ghost items = ps.rest(); let ghost mut n = 0int; let ghost g = gap(hh, e);
        let ghost mut vs = Seq::<I>::empty(); let ghost mut aa = Seq::<I>::empty(); let ghost mut bb = Seq::<I>::empty();
        let ghost mut m = *self; let ghost mut ge1 = e; let ghost mut ge2 = e; let ghost mut gv = e; let ghost (gh, gw) = (hh, vv);
        proof { assert(link_ok(hh, e)); assert(twin_ok(hh, e)); assert(link_ok(hh, g.t)); assert(link_ok(hh, g.p)); assert(link_ok(hh, g.q)); assert(edge_ok(hh, vv, ff, e)); assert(edge_ok(hh, vv, ff, g.t)); assert(edge_ok(hh, vv, ff, g.p)); assert(vert_ok(hh, vv, g.x));
            assert(items.take(0) =~= Seq::<(EP, EP, VP)>::empty()); assert(items.skip(0) =~= items); }
//@loop 0
            invariant o.valid(), hh == o.h(), vv == o.v(), ff == o.f(), g == gap(hh, e), hh.contains_key(e), hh.contains_key(g.t), hh.contains_key(g.p), hh.contains_key(g.q), vv.contains_key(g.x), vv[g.x].id == g.x,
                hh[g.q].origin_id == g.x, hh[e].id == e, hh[g.p].id == g.p, hh[g.q].id == g.q, hh[g.p].face == g.f1, hh[g.q].face == g.f2,
                self.inv(), self.clean(), self.faces == o.faces, self.payload == o.payload, grown(o, *self, 2 * n, n, 0), 0 <= n <= items.len(), it_0.rest() == items.skip(n),
                room_e(o, 2 * (items.len() as int)), room_v(o, items.len() as int),
                stringing(hh, vv, self.h(), self.v(), g, vs, aa, bb, items.take(n)), vs.len() == n,
                current == (if n == 0 { g.p } else { aa[n - 1] }), current_twin == (if n == 0 { g.q } else { bb[n - 1] }), last_v == (if n == 0 { g.x } else { vs[n - 1] }),
                first == (n == 0), first_edge == (if n == 0 { e } else { aa[0] }), dangling == at_tip(g), f1 == g.f1, f2 == g.f2,
            ensures n == items.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof {
                m = *self;
                if n > 0 { assert(aa.contains(aa[n - 1])); assert(bb.contains(bb[n - 1])); assert(m.h()[bb[n - 1]].origin_id == vs[n - 1]); assert(m.h()[aa[n - 1]].id == aa[n - 1]); }
                if n < items.len() { assert(items.skip(n)[0] == items[n]); assert(items.skip(n).drop_first() =~= items.skip(n + 1)); assert(items.take(n + 1) =~= items.take(n).push(items[n])); }
            }
//@aftercall add_vertex_via_edge 0
            proof { gv = v; ge1 = e1; ge2 = e2; }
//@lend 0
            proof {
                let cur = if n == 0 { g.p } else { aa[n - 1] }; let cut = if n == 0 { g.q } else { bb[n - 1] };
                let first = n == 0 && at_tip(g);
                let k = m.h(); let k2 = self.h();
                assert(k.contains_key(cur) && k.contains_key(cut));
                assert(k2[ge1] == mk(ge1, ge2, ge2, if first { ge2 } else { cur }, if n == 0 { g.x } else { vs[n - 1] }, g.f1, items[n].0));
                assert(k2[ge2] == mk(ge2, if first { ge1 } else { cut }, ge1, ge1, gv, g.f2, items[n].1));
                assert(forall|z: I| #[trigger] k2.contains_key(z) <==> (k.contains_key(z) || z == ge1 || z == ge2));
                assert(forall|z: I| z != ge1 && z != ge2 ==> #[trigger] k2[z] == (HalfEdgeImpl { next: if z == cur { ge1 } else { k[z].next }, prev: if z == cut { ge2 } else { k[z].prev }, ..k[z] }));
                lemma_string_push(hh, vv, ff, m.h(), m.v(), self.h(), self.v(), e, vs, aa, bb, items.take(n), gv, ge1, ge2, items[n]);
                vs = vs.push(gv); aa = aa.push(ge1); bb = bb.push(ge2); n = n + 1;
            }
//@post
        proof {
            assert(items.take(n) =~= items);
            if n == 0 { assert(self.h() =~= hh); } else { assert(aa.contains(aa[n - 1])); assert(bb.contains(bb[n - 1])); }
            assert(strung(hh, vv, self.h(), self.v(), g, vs, aa, bb, items));
            lemma_strung_wf(hh, vv, ff, self.h(), self.v(), e, vs, aa, bb, items);
        }
//@endfn
}
