// Loop subdivision: every triangle of a closed mesh becomes four.

spec fn tri0(h: HMap, e: I) -> bool { h[e].face != NONE && h[h[h[e].next].next].next == e }
/// every half-edge bounds a triangle
spec fn triangles(h: HMap) -> bool { forall|e: I| h.contains_key(e) ==> #[trigger] tri0(h, e) }
proof fn lemma_tri(h: HMap, v: VMap, f: FMap, e: I)
    requires wf(h, v, f), triangles(h), h.contains_key(e),
    ensures ({ let n = h[e].next; let p = h[e].prev; let t = h[e].twin;
        &&& h.contains_key(n) && h.contains_key(p) && h.contains_key(t) && h[n].next == p && h[p].next == e && h[n].prev == e && h[p].prev == n
        &&& e != n && e != p && n != p && t != e && t != n && t != p && h[t].twin == e && h[e].id == e && h[e].face != NONE && h[n].face == h[e].face && h[p].face == h[e].face
        &&& h[t].origin_id == h[n].origin_id && h[h[t].next].origin_id == h[e].origin_id && h[e].origin_id != h[n].origin_id && v.contains_key(h[e].origin_id) && f.contains_key(h[e].face)
        &&& h[n].origin_id != h[p].origin_id && h[p].origin_id != h[e].origin_id
        &&& rep(h, f, e) == e || rep(h, f, e) == n || rep(h, f, e) == p }),
{
    let n = h[e].next; let p = h[n].next; let t = h[e].twin;
    assert(tri0(h, e)); assert(link_ok(h, e)); assert(link_ok(h, n)); assert(link_ok(h, p));
    assert(twin_ok(h, e)); assert(twin_ok(h, n)); assert(twin_ok(h, p)); assert(twin_ok(h, t));
    assert(edge_ok(h, v, f, e)); assert(edge_ok(h, v, f, n)); assert(edge_ok(h, v, f, p)); assert(edge_ok(h, v, f, t));
    let r = rep(h, f, e);
    assert(loop_ok(h, f, e));
    let k = choose|k: nat| #[trigger] it(nmap(h), r, k) == e;
    assert(face_ok(h, f, h[e].face));
    lemma_tri_back(h, v, f, r, e, k);
}
spec fn rep(h: HMap, f: FMap, e: I) -> I { f[h[e].face].edge }
/// a walk that ends in a triangle started in it
proof fn lemma_tri_back(h: HMap, v: VMap, f: FMap, r: I, e: I, k: nat)
    requires wf(h, v, f), triangles(h), h.contains_key(e), h.contains_key(r), it(nmap(h), r, k) == e,
    ensures r == e || r == h[e].next || r == h[h[e].next].next,
    decreases k,
{
    if k > 0 {
        let m = it(nmap(h), r, (k - 1) as nat);
        lemma_fwd_dom(h, r, (k - 1) as nat);
        assert(h[m].next == e);
        assert(tri0(h, m)); assert(link_ok(h, e)); assert(link_ok(h, m));
        lemma_tri_back(h, v, f, r, m, (k - 1) as nat);
        assert(h[h[m].next].next == h[e].next);
    }
}
proof fn lemma_fwd_dom(h: HMap, r: I, k: nat)
    requires links(h), h.contains_key(r),
    ensures h.contains_key(it(nmap(h), r, k)),
    decreases k,
{ if k > 0 { lemma_fwd_dom(h, r, (k - 1) as nat); assert(link_ok(h, it(nmap(h), r, (k - 1) as nat))); } }

/// which parts belong to which half-edge of the mesh there was: its second half, its middle, the half-edge cutting off its first corner and that one's twin,
/// the faces at its corner and in the middle; and back
pub struct Sub { sec: IMap<I, I>, mid: IMap<I, I>, i1: IMap<I, I>, i2: IMap<I, I>, fo: IMap<I, I>, fc: IMap<I, I>, own: IMap<I, (I, int)>, vown: IMap<I, I>, fown: IMap<I, (I, int)> }
spec fn sp(g: Sub, x: I) -> bool { g.sec.contains_key(x) }
spec fn dn(g: Sub, x: I) -> bool { g.i1.contains_key(x) }
spec fn tw(h0: HMap, g: Sub, x: I) -> I { let t = h0[x].twin; if sp(g, x) && sp(g, t) { g.sec[t] } else { t } }
spec fn bk(h0: HMap, g: Sub, x: I) -> I { let p = h0[x].prev; if sp(g, p) { g.sec[p] } else { p } }
/// what became of half-edge x
spec fn at(h0: HMap, h: HMap, g: Sub, x: I) -> bool {
    let e = h0[x]; let n = e.next; let p = e.prev; let t = e.twin; let d = ep_default();
    &&& h.contains_key(x)
    &&& sp(g, x) ==> g.own.contains_key(g.sec[x]) && g.own[g.sec[x]] == (x, 1int) && h.contains_key(g.sec[x])
    &&& dn(g, x) ==> {
        &&& sp(g, x) && sp(g, p) && dn(g, n) && dn(g, p) && g.i2.contains_key(x) && h.contains_key(g.i1[x]) && h.contains_key(g.i2[x])
        &&& g.own.contains_key(g.i1[x]) && g.own[g.i1[x]] == (x, 2int) && g.own.contains_key(g.i2[x]) && g.own[g.i2[x]] == (x, 3int)
        &&& h[x] == mk(x, g.i1[x], tw(h0, g, x), g.sec[p], e.origin_id, g.fo[x], e.payload)
        &&& h[g.sec[x]] == mk(g.sec[x], n, t, g.i1[n], g.mid[x], g.fo[n], d)
        &&& h[g.i1[x]] == mk(g.i1[x], g.sec[p], g.i2[x], x, g.mid[x], g.fo[x], d)
        &&& h[g.i2[x]] == mk(g.i2[x], g.i2[n], g.i1[x], g.i2[p], g.mid[p], g.fc[x], d)
    }
    &&& !dn(g, x) ==> {
        &&& !dn(g, n) && !dn(g, p)
        &&& h[x] == mk(x, if sp(g, x) { g.sec[x] } else { n }, tw(h0, g, x), bk(h0, g, x), e.origin_id, e.face, e.payload)
        &&& sp(g, x) ==> h[g.sec[x]] == mk(g.sec[x], n, t, x, g.mid[x], e.face, d)
    }
}
spec fn owned(h0: HMap, g: Sub, y: I) -> bool {
    let (x, k) = g.own[y];
    &&& !h0.contains_key(y) && y != NONE && h0.contains_key(x)
    &&& k == 1 && sp(g, x) && g.sec[x] == y || k == 2 && dn(g, x) && g.i1[x] == y || k == 3 && dn(g, x) && g.i2[x] == y
}
spec fn st_e(h0: HMap, h: HMap, g: Sub) -> bool {
    &&& forall|x: I| h0.contains_key(x) ==> #[trigger] at(h0, h, g, x)
    &&& forall|y: I| g.own.contains_key(y) ==> #[trigger] owned(h0, g, y)
    &&& forall|y: I| #[trigger] h.contains_key(y) <==> h0.contains_key(y) || g.own.contains_key(y)
    &&& forall|x: I| #[trigger] g.sec.contains_key(x) ==> h0.contains_key(x)
    &&& forall|x: I| #[trigger] g.i1.contains_key(x) ==> h0.contains_key(x)
}
proof fn lemma_sub_links(h0: HMap, v0: VMap, f0: FMap, h: HMap, g: Sub)
    requires wf(h0, v0, f0), triangles(h0), st_e(h0, h, g),
    ensures links(h),
{
    assert forall|y: I| h.contains_key(y) implies #[trigger] link_ok(h, y) by {
        let x = if h0.contains_key(y) { y } else { assert(owned(h0, g, y)); g.own[y].0 };
        lemma_tri(h0, v0, f0, x);
        let n = h0[x].next; let p = h0[x].prev;
        assert(link_ok(h0, x)); assert(link_ok(h0, n)); assert(link_ok(h0, p));
        assert(at(h0, h, g, x)); assert(at(h0, h, g, n)); assert(at(h0, h, g, p));
    }
}
/// half-edge e is divided, its twin is not
spec fn split_new(h0: HMap, g: Sub, e: I, ne: I, y: I) -> Sub {
    Sub { sec: g.sec.insert(e, ne), mid: g.mid.insert(e, y).insert(h0[e].twin, y), own: g.own.insert(ne, (e, 1int)), vown: g.vown.insert(y, e), ..g }
}
/// half-edge e is divided like its twin was before
spec fn split_fix(g: Sub, e: I, ne: I) -> Sub { Sub { sec: g.sec.insert(e, ne), own: g.own.insert(ne, (e, 1int)), ..g } }

proof fn lemma_split_new(h0: HMap, v0: VMap, f0: FMap, h: HMap, g: Sub, e: I, ne: I, y: I)
    requires wf(h0, v0, f0), triangles(h0), st_e(h0, h, g), h0.contains_key(e), !sp(g, e), !dn(g, e), !sp(g, h0[e].twin), fresh1(h, ne),
    ensures st_e(h0, split_h(h, e, ne, h[e].twin, y, ep_default()), split_new(h0, g, e, ne, y)), h[e].twin == h0[e].twin,
{
    let g2 = split_new(h0, g, e, ne, y); let h2 = split_h(h, e, ne, h[e].twin, y, ep_default());
    let n = h0[e].next; let t = h0[e].twin;
    lemma_tri(h0, v0, f0, e);
    assert(at(h0, h, g, e)); assert(at(h0, h, g, n));
    assert(h[e].next == n);
    assert forall|x: I| h0.contains_key(x) implies #[trigger] at(h0, h2, g2, x) by {
        lemma_tri(h0, v0, f0, x); let (xn, xp, xt) = (h0[x].next, h0[x].prev, h0[x].twin);
        lemma_tri(h0, v0, f0, xt);
        assert(at(h0, h, g, x)); assert(at(h0, h, g, xt)); assert(at(h0, h, g, xn)); assert(at(h0, h, g, xp));
        if sp(g, x) { assert(owned(h0, g, g.sec[x])); }
        if dn(g, x) { assert(owned(h0, g, g.i1[x])); assert(owned(h0, g, g.i2[x])); }
    }
    assert forall|z: I| g2.own.contains_key(z) implies #[trigger] owned(h0, g2, z) by { if z != ne { assert(owned(h0, g, z)); } }
}
proof fn lemma_split_fix(h0: HMap, v0: VMap, f0: FMap, h: HMap, g: Sub, e: I, ne: I)
    requires wf(h0, v0, f0), triangles(h0), st_e(h0, h, g), h0.contains_key(e), !sp(g, e), !dn(g, e), dn(g, h0[e].twin), fresh1(h, ne), g.mid.contains_key(e), g.mid[e] == g.mid[h0[e].twin],
    ensures st_e(h0, fixed_h(h, e, ne, g.sec[h0[e].twin], ep_default()), split_fix(g, e, ne)),
{
    let t = h0[e].twin; let g2 = split_fix(g, e, ne); let h2 = fixed_h(h, e, ne, g.sec[t], ep_default());
    let n = h0[e].next;
    lemma_tri(h0, v0, f0, e); lemma_tri(h0, v0, f0, t);
    assert(at(h0, h, g, e)); assert(at(h0, h, g, n)); assert(at(h0, h, g, t));
    assert(h[e].next == n);
    assert forall|x: I| h0.contains_key(x) implies #[trigger] at(h0, h2, g2, x) by {
        lemma_tri(h0, v0, f0, x); let (xn, xp, xt) = (h0[x].next, h0[x].prev, h0[x].twin);
        lemma_tri(h0, v0, f0, xt);
        assert(at(h0, h, g, x)); assert(at(h0, h, g, xt)); assert(at(h0, h, g, xn)); assert(at(h0, h, g, xp));
        if sp(g, x) { assert(owned(h0, g, g.sec[x])); }
        if dn(g, x) { assert(owned(h0, g, g.i1[x])); assert(owned(h0, g, g.i2[x])); }
    }
    assert forall|z: I| g2.own.contains_key(z) implies #[trigger] owned(h0, g2, z) by { if z != ne { assert(owned(h0, g, z)); } }
}
/// the twin was divided and its face is done: three steps around the middle lead to the other half
proof fn lemma_walk_fix(h0: HMap, v0: VMap, f0: FMap, h: HMap, g: Sub, e: I)
    requires wf(h0, v0, f0), triangles(h0), st_e(h0, h, g), h0.contains_key(e), !sp(g, e), !dn(g, e), dn(g, h0[e].twin),
    ensures halved_at(h, e, 2), walk_ends(h, e, 2), spoke(h, e, 2) == g.sec[h0[e].twin], h[e].twin == h0[e].twin, h.contains_key(h0[e].twin), h[e].twin != e,
{
    let t = h0[e].twin; let n = h0[t].next;
    lemma_tri(h0, v0, f0, e); lemma_tri(h0, v0, f0, t); lemma_tri(h0, v0, f0, n);
    assert(at(h0, h, g, e)); assert(at(h0, h, g, t)); assert(at(h0, h, g, n)); assert(at(h0, h, g, h0[t].prev));
    lemma_sub_links(h0, v0, f0, h, g);
    assert(owned(h0, g, g.i1[t])); assert(owned(h0, g, g.i2[t])); assert(owned(h0, g, g.i1[n])); assert(owned(h0, g, g.i2[n])); assert(owned(h0, g, g.sec[t]));
    let w = wmap(h);
    assert(spoke(h, e, 0) == g.i1[t]);
    assert(spoke(h, e, 1) == w[spoke(h, e, 0)]);
    assert(spoke(h, e, 1) == g.i2[n]);
    assert(spoke(h, e, 2) == w[spoke(h, e, 1)]);
    assert(spoke(h, e, 2) == g.sec[t]);
    assert(on_spoke(h, e, 0)); assert(on_spoke(h, e, 1)); 
    assert(link_ok(h, t)); assert(on_spoke(h, e, 2));
    assert(passes(h, e, 0)); assert(passes(h, e, 1));
    assert forall|j: nat| j < 2 implies #[trigger] passes(h, e, j) by { if j == 0 {} else { assert(j == 1); } }
}
/// the twin was not divided: the walk leaves the vertex or comes back
proof fn lemma_walk_new(o: HalfEdgeMeshImpl, h: HMap, g: Sub, e: I)
    requires wf(o.h(), o.v(), o.f()), triangles(o.h()), st_e(o.h(), h, g), o.h().contains_key(e), !sp(g, e), !dn(g, e), !sp(g, o.h()[e].twin), !dn(g, o.h()[e].twin),
        forall|x: I| #[trigger] at(o.h(), h, g, x) && sp(g, x) && o.h().contains_key(x) ==> !o.v().contains_key(g.mid[x]),
    ensures exists|k: nat| #[trigger] walk_ends(h, e, k) && whole_at(h, e, k), h[e].twin == o.h()[e].twin, h.contains_key(o.h()[e].twin), h[e].twin != e,
{
    let h0 = o.h(); let t = h0[e].twin;
    lemma_tri(h0, o.v(), o.f(), e); lemma_tri(h0, o.v(), o.f(), t);
    assert(at(h0, h, g, e)); assert(at(h0, h, g, t));
    lemma_wperm(o);
    lemma_period(wmap(h0), vmap(h0), hsize(o), h0[t].next);
    assert(it(wmap(h0), h0[t].next, 0) == h0[t].next);
    assert(spoke(h, e, 0) == h0[t].next);
    lemma_walk_on(o, h, g, e, 0);
}
proof fn lemma_walk_on(o: HalfEdgeMeshImpl, h: HMap, g: Sub, e: I, j: nat)
    requires wf(o.h(), o.v(), o.f()), triangles(o.h()), st_e(o.h(), h, g), o.h().contains_key(e), !sp(g, e), !dn(g, e), !sp(g, o.h()[e].twin), !dn(g, o.h()[e].twin),
        forall|x: I| #[trigger] at(o.h(), h, g, x) && sp(g, x) && o.h().contains_key(x) ==> !o.v().contains_key(g.mid[x]),
        forall|i: nat| i < j ==> #[trigger] passes(h, e, i),
        ({ let n = o.h()[o.h()[e].twin].next; let x = spoke(h, e, j);
            j < period(wmap(o.h()), n) && x == it(wmap(o.h()), n, j) && o.h().contains_key(x) && o.h()[x].origin_id == o.h()[e].origin_id }),
    ensures exists|k: nat| #[trigger] walk_ends(h, e, k) && whole_at(h, e, k),
    decreases period(wmap(o.h()), o.h()[o.h()[e].twin].next) - j,
{
    let h0 = o.h(); let (v0, f0) = (o.v(), o.f()); let t = h0[e].twin; let n = h0[t].next; let x = spoke(h, e, j); let u = h0[x].twin;
    lemma_tri(h0, v0, f0, e); lemma_tri(h0, v0, f0, t); lemma_tri(h0, v0, f0, n); lemma_tri(h0, v0, f0, x); lemma_tri(h0, v0, f0, u);
    assert(at(h0, h, g, e)); assert(at(h0, h, g, t)); assert(at(h0, h, g, n)); assert(at(h0, h, g, x)); assert(at(h0, h, g, u));
    let y = h0[u].next;
    lemma_tri(h0, v0, f0, y);
    assert(at(h0, h, g, y));
    if sp(g, u) { assert(owned(h0, g, g.sec[u])); }
    if sp(g, x) { assert(owned(h0, g, g.sec[x])); }
    if dn(g, u) { assert(owned(h0, g, g.i1[u])); }
    lemma_sub_links(h0, v0, f0, h, g);
    let z = spoke(h, e, j + 1);
    assert(z == wmap(h)[x]);
    assert(link_ok(h, h[x].twin));
    assert(on_spoke(h, e, j));
    assert(h[x].twin != e);
    assert(spoke(h, e, 0) == n);
    assert(h[spoke(h, e, 0)].origin_id == h0[e].origin_id);
    if passes(h, e, j) {
        assert(z == y);
        assert(it(wmap(h0), n, j + 1) == wmap(h0)[x]);
        lemma_wperm(o);
        lemma_period(wmap(h0), vmap(h0), hsize(o), n);
        if j + 1 == period(wmap(h0), n) {
            assert(z == n);
            assert(h[n].prev == t);
            assert(false);
        }
        lemma_walk_on(o, h, g, e, j + 1);
    } else {
        assert(whole_at(h, e, j)); assert(walk_ends(h, e, j));
    }
}
#[verifier::external_body]
pub struct Interp { p: u8 }
/// what the interpolator makes of the payloads of three vertices and their weights
pub uninterp spec fn mix(ip: Interp, s: Seq<(usize, VP)>) -> VP;
spec fn weight(h0: HMap, x: I, y: I) -> usize { if y == h0[x].origin_id || y == tgt(h0, x) { 1 } else { 0 } }
spec fn weighed(h0: HMap, v0: VMap, x: I, y: I) -> (usize, VP) { (weight(h0, x, y), v0[y].payload) }
/// the payload of the vertex that divides half-edge x: the corners of its face, those that x joins with weight one
spec fn blend(h0: HMap, v0: VMap, f0: FMap, ip: Interp, x: I) -> VP {
    let r = rep(h0, f0, x);
    mix(ip, seq![weighed(h0, v0, x, h0[r].origin_id), weighed(h0, v0, x, h0[h0[r].next].origin_id), weighed(h0, v0, x, h0[h0[h0[r].next].next].origin_id)])
}
spec fn vat(h0: HMap, g: Sub, x: I) -> bool {
    let t = h0[x].twin;
    sp(g, x) || sp(g, t) ==> g.mid.contains_key(x) && g.mid.contains_key(t) && g.mid[x] == g.mid[t] && g.vown.contains_key(g.mid[x]) && (g.vown[g.mid[x]] == x || g.vown[g.mid[x]] == t)
}
spec fn vowned(h0: HMap, v0: VMap, f0: FMap, v: VMap, g: Sub, ip: Interp, y: I) -> bool {
    let x = g.vown[y];
    &&& !v0.contains_key(y) && y != NONE && v.contains_key(y) && h0.contains_key(x) && sp(g, x) && g.mid[x] == y
    &&& v[y] == mkv(y, g.sec[x], blend(h0, v0, f0, ip, x))
}
spec fn st_v(h0: HMap, v0: VMap, f0: FMap, v: VMap, g: Sub, ip: Interp) -> bool {
    &&& forall|x: I| h0.contains_key(x) ==> #[trigger] vat(h0, g, x)
    &&& forall|y: I| g.vown.contains_key(y) ==> #[trigger] vowned(h0, v0, f0, v, g, ip, y)
    &&& forall|y: I| #[trigger] v.contains_key(y) <==> v0.contains_key(y) || g.vown.contains_key(y)
    &&& forall|y: I| v0.contains_key(y) ==> #[trigger] v[y] == v0[y]
}
spec fn fat(h0: HMap, f0: FMap, f: FMap, g: Sub, x: I) -> bool {
    dn(g, x) ==> {
        let pay = f0[h0[x].face].payload; let n = h0[x].next; let r = rep(h0, f0, x);
        &&& g.fown.contains_key(g.fo[x]) && g.fown[g.fo[x]] == (x, 1int) && f[g.fo[x]] == mkf(g.fo[x], x, false, pay)
        &&& g.fc[n] == g.fc[x] && g.fown.contains_key(g.fc[x]) && g.fown[g.fc[x]] == (r, 2int) && f[g.fc[x]] == mkf(g.fc[x], g.i2[r], false, pay)
    }
}
spec fn fowned(h0: HMap, f0: FMap, g: Sub, F: I) -> bool {
    let (x, k) = g.fown[F];
    F != NONE && h0.contains_key(x) && dn(g, x) && (k == 1 && g.fo[x] == F || k == 2 && g.fc[x] == F && rep(h0, f0, x) == x)
}
spec fn f_kept(f0: FMap, f: FMap, g: Sub, F: I) -> bool { f0.contains_key(F) && !dn(g, f0[F].edge) ==> !g.fown.contains_key(F) && f[F] == f0[F] }
spec fn st_f(h0: HMap, f0: FMap, f: FMap, g: Sub) -> bool {
    &&& forall|x: I| h0.contains_key(x) ==> #[trigger] fat(h0, f0, f, g, x)
    &&& forall|F: I| g.fown.contains_key(F) ==> #[trigger] fowned(h0, f0, g, F)
    &&& forall|F: I| #[trigger] f.contains_key(F) <==> g.fown.contains_key(F) || f0.contains_key(F) && !dn(g, f0[F].edge)
    &&& forall|F: I| f0.contains_key(F) ==> #[trigger] f_kept(f0, f, g, F)
}
proof fn lemma_splits_v(h0: HMap, v0: VMap, f0: FMap, v: VMap, f: FMap, g: Sub, ip: Interp, e: I, ne: I, y: I)
    requires wf(h0, v0, f0), triangles(h0), st_v(h0, v0, f0, v, g, ip), st_f(h0, f0, f, g), h0.contains_key(e), !sp(g, e), !sp(g, h0[e].twin), fresh1(v, y),
    ensures st_v(h0, v0, f0, v.insert(y, mkv(y, ne, blend(h0, v0, f0, ip, e))), split_new(h0, g, e, ne, y), ip), st_f(h0, f0, f, split_new(h0, g, e, ne, y)),
{
    let g2 = split_new(h0, g, e, ne, y); let w = v.insert(y, mkv(y, ne, blend(h0, v0, f0, ip, e))); let t = h0[e].twin;
    lemma_tri(h0, v0, f0, e);
    assert forall|x: I| h0.contains_key(x) implies #[trigger] vat(h0, g2, x) by {
        lemma_tri(h0, v0, f0, x); assert(vat(h0, g, x)); assert(twin_ok(h0, x));
        if sp(g, x) || sp(g, h0[x].twin) { assert(vowned(h0, v0, f0, v, g, ip, g.mid[x])); }
    }
    assert forall|z: I| g2.vown.contains_key(z) implies #[trigger] vowned(h0, v0, f0, w, g2, ip, z) by { if z != y { assert(vowned(h0, v0, f0, v, g, ip, z)); } }
    assert forall|x: I| h0.contains_key(x) implies #[trigger] fat(h0, f0, f, g2, x) by { assert(fat(h0, f0, f, g, x)); }
    assert forall|z: I| g2.fown.contains_key(z) implies #[trigger] fowned(h0, f0, g2, z) by { assert(fowned(h0, f0, g, z)); }
    assert forall|F: I| f0.contains_key(F) implies #[trigger] f_kept(f0, f, g2, F) by { assert(f_kept(f0, f, g, F)); }
}
proof fn lemma_fixed_v(h0: HMap, v0: VMap, f0: FMap, v: VMap, f: FMap, g: Sub, ip: Interp, e: I, ne: I)
    requires wf(h0, v0, f0), triangles(h0), st_v(h0, v0, f0, v, g, ip), st_f(h0, f0, f, g), h0.contains_key(e), !sp(g, e), sp(g, h0[e].twin),
    ensures st_v(h0, v0, f0, v, split_fix(g, e, ne), ip), st_f(h0, f0, f, split_fix(g, e, ne)), g.mid.contains_key(e), g.mid[e] == g.mid[h0[e].twin],
{
    let g2 = split_fix(g, e, ne);
    lemma_tri(h0, v0, f0, e); assert(vat(h0, g, e));
    assert forall|x: I| h0.contains_key(x) implies #[trigger] vat(h0, g2, x) by {
        lemma_tri(h0, v0, f0, x); assert(vat(h0, g, x)); assert(vat(h0, g, h0[x].twin)); assert(twin_ok(h0, x)); }
    assert forall|z: I| g2.vown.contains_key(z) implies #[trigger] vowned(h0, v0, f0, v, g2, ip, z) by { assert(vowned(h0, v0, f0, v, g, ip, z)); }
    assert forall|x: I| h0.contains_key(x) implies #[trigger] fat(h0, f0, f, g2, x) by { assert(fat(h0, f0, f, g, x)); }
    assert forall|z: I| g2.fown.contains_key(z) implies #[trigger] fowned(h0, f0, g2, z) by { assert(fowned(h0, f0, g, z)); }
    assert forall|F: I| f0.contains_key(F) implies #[trigger] f_kept(f0, f, g2, F) by { assert(f_kept(f0, f, g, F)); }
}
spec fn all_done(h0: HMap, g: Sub) -> bool { forall|x: I| h0.contains_key(x) ==> #[trigger] dn(g, x) }
/// everything that is known about an element of the finished mesh
proof fn lemma_done_at(h0: HMap, v0: VMap, f0: FMap, h: HMap, v: VMap, f: FMap, g: Sub, ip: Interp, x: I)
    requires wf(h0, v0, f0), triangles(h0), st_e(h0, h, g), st_v(h0, v0, f0, v, g, ip), st_f(h0, f0, f, g), all_done(h0, g), h0.contains_key(x),
    ensures ({ let n = h0[x].next; let p = h0[x].prev; let t = h0[x].twin; let d = ep_default();
        &&& h[x] == mk(x, g.i1[x], g.sec[t], g.sec[p], h0[x].origin_id, g.fo[x], h0[x].payload)
        &&& h[g.sec[x]] == mk(g.sec[x], n, t, g.i1[n], g.mid[x], g.fo[n], d)
        &&& h[g.i1[x]] == mk(g.i1[x], g.sec[p], g.i2[x], x, g.mid[x], g.fo[x], d)
        &&& h[g.i2[x]] == mk(g.i2[x], g.i2[n], g.i1[x], g.i2[p], g.mid[p], g.fc[x], d)
        &&& h.contains_key(x) && h.contains_key(g.sec[x]) && h.contains_key(g.i1[x]) && h.contains_key(g.i2[x]) && g.sec[x] != x && g.i1[x] != g.i2[x] && g.sec[t] != x && g.sec[x] != t
        &&& g.sec[x] != NONE && f.contains_key(g.fo[x]) && f.contains_key(g.fc[x]) && g.fo[x] != NONE && g.fc[x] != NONE
        &&& g.mid[t] == g.mid[x] && !v0.contains_key(g.mid[x]) && v.contains_key(g.mid[x]) && v[g.mid[x]].edge != NONE && g.mid[x] != g.mid[p]
        &&& v.contains_key(h0[x].origin_id) && v[h0[x].origin_id].edge != NONE && v0.contains_key(h0[x].origin_id)
        &&& f[g.fo[x]] == mkf(g.fo[x], x, false, f0[h0[x].face].payload) && f[g.fc[x]].edge == g.i2[rep(h0, f0, x)] && f[g.fc[x]].id == g.fc[x] && g.fc[n] == g.fc[x] }),
{
    let n = h0[x].next; let p = h0[x].prev; let t = h0[x].twin;
    lemma_tri(h0, v0, f0, x); lemma_tri(h0, v0, f0, n); lemma_tri(h0, v0, f0, p); lemma_tri(h0, v0, f0, t);
    assert(dn(g, x)); assert(dn(g, t)); assert(dn(g, n)); assert(dn(g, p));
    assert(at(h0, h, g, x)); assert(at(h0, h, g, t)); assert(at(h0, h, g, n)); assert(at(h0, h, g, p));
    assert(vat(h0, g, x)); assert(vat(h0, g, p)); assert(vat(h0, g, t)); assert(fat(h0, f0, f, g, x));
    assert(vowned(h0, v0, f0, v, g, ip, g.mid[x])); assert(vowned(h0, v0, f0, v, g, ip, g.mid[p]));
    let (vx, vp) = (g.vown[g.mid[x]], g.vown[g.mid[p]]);
    assert(twin_ok(h0, p)); assert(twin_ok(h0, x));
    assert(owned(h0, g, g.sec[vx])) by { assert(at(h0, h, g, vx)); }
    assert(owned(h0, g, g.sec[x])); assert(owned(h0, g, g.sec[t])); assert(owned(h0, g, g.i1[x])); assert(owned(h0, g, g.i2[x]));
    assert(fowned(h0, f0, g, g.fo[x])); assert(fowned(h0, f0, g, g.fc[x]));
    assert(edge_ok(h0, v0, f0, x));
}
proof fn lemma_reach2(p: IMap<I, I>, a: I, k: nat)
    requires k <= 2,
    ensures reach(p, a, if k == 0 { a } else if k == 1 { p[a] } else { p[p[a]] }),
{
    assert(it(p, a, 0) == a); assert(it(p, a, 1) == p[it(p, a, 0)]); assert(it(p, a, 2) == p[it(p, a, 1)]);
}
proof fn lemma_sub_wf(h0: HMap, v0: VMap, f0: FMap, h: HMap, v: VMap, f: FMap, g: Sub, ip: Interp)
    requires wf(h0, v0, f0), triangles(h0), st_e(h0, h, g), st_v(h0, v0, f0, v, g, ip), st_f(h0, f0, f, g), all_done(h0, g),
    ensures wf(h, v, f), triangles(h),
{
    lemma_sub_links(h0, v0, f0, h, g);
    assert forall|y: I| h.contains_key(y) implies #[trigger] twin_ok(h, y) && edge_ok(h, v, f, y) && loop_ok(h, f, y) && tri0(h, y) by {
        let x = if h0.contains_key(y) { y } else { assert(owned(h0, g, y)); g.own[y].0 };
        lemma_tri(h0, v0, f0, x); let (n, p, t) = (h0[x].next, h0[x].prev, h0[x].twin);
        lemma_tri(h0, v0, f0, t); lemma_tri(h0, v0, f0, n); lemma_tri(h0, v0, f0, p);
        lemma_done_at(h0, v0, f0, h, v, f, g, ip, x); lemma_done_at(h0, v0, f0, h, v, f, g, ip, n); lemma_done_at(h0, v0, f0, h, v, f, g, ip, p); lemma_done_at(h0, v0, f0, h, v, f, g, ip, t);
        let a = f[h[y].face].edge; let m = nmap(h);
        lemma_reach2(m, a, 0); lemma_reach2(m, a, 1); lemma_reach2(m, a, 2);
        assert(y == x || y == g.sec[x] || y == g.i1[x] || y == g.i2[x]);
        if y == x { assert(a == y); }
        else if y == g.sec[x] { assert(m[m[a]] == y); }
        else if y == g.i1[x] { assert(m[a] == y); }
        else { let r = rep(h0, f0, x); if r == p { assert(m[a] == y); } else if r == n { assert(m[m[a]] == y); } }
        assert(reach(m, a, y));
    }
    assert forall|y: I| h.contains_key(y) implies #[trigger] edge_ok(h, v, f, y) by { assert(twin_ok(h, y)); }
    assert forall|y: I| h.contains_key(y) implies #[trigger] loop_ok(h, f, y) by { assert(twin_ok(h, y)); }
    assert forall|y: I| h.contains_key(y) implies #[trigger] tri0(h, y) by { assert(twin_ok(h, y)); }
    assert forall|z: I| v.contains_key(z) implies #[trigger] vert_ok(h, v, z) by {
        if v0.contains_key(z) { assert(vert_ok(h0, v0, z)); assert(v[z] == v0[z]); if v0[z].edge != NONE { lemma_done_at(h0, v0, f0, h, v, f, g, ip, v0[z].edge); } }
        else { assert(vowned(h0, v0, f0, v, g, ip, z)); lemma_done_at(h0, v0, f0, h, v, f, g, ip, g.vown[z]); }
    }
    assert forall|F: I| f.contains_key(F) implies #[trigger] face_ok(h, f, F) by {
        if g.fown.contains_key(F) { assert(fowned(h0, f0, g, F)); let x = g.fown[F].0; lemma_done_at(h0, v0, f0, h, v, f, g, ip, x); }
        else { assert(face_ok(h0, f0, F)); assert(dn(g, f0[F].edge)); }
    }
}
/// corner x of a hole is cut off: o and the half-edge after x are joined by e2, x, e1 and the half-edge before x bound face F
spec fn cut(h: HMap, x: I, e1: I, e2: I, F: I) -> HMap {
    let b = h[x].prev; let o = h[b].prev; let n = h[x].next; let d = ep_default();
    h.insert(e1, mk(e1, b, e2, x, h[n].origin_id, F, d)).insert(e2, mk(e2, n, e1, o, h[b].origin_id, NONE, d))
        .insert(x, HalfEdgeImpl { next: e1, face: F, ..h[x] }).insert(b, HalfEdgeImpl { prev: e1, face: F, ..h[b] })
        .insert(o, HalfEdgeImpl { next: e2, ..h[o] }).insert(n, HalfEdgeImpl { prev: e2, ..h[n] })
}
spec fn hsmall(h: HMap, n: int) -> bool { n >= 0 && forall|x: I| #[trigger] h.contains_key(x) ==> 0 <= x.ix() < n }
proof fn lemma_lperm(h: HMap, n: int)
    requires links(h), hsmall(h, n),
    ensures perm(nmap(h), pmap(h), n),
{
    assert forall|x: I| #[trigger] nmap(h).contains_key(x) implies nmap(h).contains_key(nmap(h)[x]) && pmap(h)[nmap(h)[x]] == x && 0 <= x.ix() < n
            && nmap(h).contains_key(pmap(h)[x]) && nmap(h)[pmap(h)[x]] == x by { assert(link_ok(h, x)); assert(h.contains_key(x)); }
}
proof fn lemma_cycle3(h: HMap, n: int, a: I, b: I, c: I)
    requires links(h), hsmall(h, n), h.contains_key(a), h[a].next == b, h[b].next == c, h[c].next == a,
    ensures forall|x: I| #[trigger] orbit(nmap(h), a).contains(x) <==> x == a || x == b || x == c,
{
    let s = seq![a, b, c]; lemma_lperm(h, n);
    assert(link_ok(h, a)); assert(link_ok(h, b));
    assert forall|i: int| 0 <= i < s.len() implies nmap(h)[#[trigger] s[i]] == s[pn(i, s.len() as int)] by { assert(i == 0 || i == 1 || i == 2); }
    lemma_cycle(nmap(h), pmap(h), n, s);
    assert forall|x: I| #[trigger] orbit(nmap(h), a).contains(x) <==> x == a || x == b || x == c by {
        if x == a { assert(s[0] == x); } if x == b { assert(s[1] == x); } if x == c { assert(s[2] == x); }
        assert(orbit(nmap(h), s[0]).contains(x) <==> s.contains(x));
    }
}
proof fn lemma_cycle6(h: HMap, n: int, a: I, b: I, c: I, d: I, e: I, f: I)
    requires links(h), hsmall(h, n), h.contains_key(a), h[a].next == b, h[b].next == c, h[c].next == d, h[d].next == e, h[e].next == f, h[f].next == a,
    ensures forall|x: I| #[trigger] orbit(nmap(h), a).contains(x) <==> x == a || x == b || x == c || x == d || x == e || x == f,
{
    let s = seq![a, b, c, d, e, f]; lemma_lperm(h, n);
    assert(link_ok(h, a)); assert(link_ok(h, b)); assert(link_ok(h, c)); assert(link_ok(h, d)); assert(link_ok(h, e));
    assert forall|i: int| 0 <= i < s.len() implies nmap(h)[#[trigger] s[i]] == s[pn(i, s.len() as int)] by { assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5); }
    lemma_cycle(nmap(h), pmap(h), n, s);
    assert forall|x: I| #[trigger] orbit(nmap(h), a).contains(x) <==> x == a || x == b || x == c || x == d || x == e || x == f by {
        if x == a { assert(s[0] == x); } if x == b { assert(s[1] == x); } if x == c { assert(s[2] == x); } if x == d { assert(s[3] == x); } if x == e { assert(s[4] == x); } if x == f { assert(s[5] == x); }
        assert(orbit(nmap(h), s[0]).contains(x) <==> s.contains(x));
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5); }
    }
}
/// four different half-edges around corner x
spec fn cuttable(h: HMap, x: I) -> bool {
    let b = h[x].prev; let o = h[b].prev; let n = h[x].next;
    h.contains_key(x) && h.contains_key(b) && h.contains_key(o) && h.contains_key(n) && x != b && x != o && x != n && b != o && b != n && o != n
}
proof fn lemma_bridge_links(h: HMap, x: I, e1: I, e2: I)
    requires links(h), cuttable(h, x), fresh2(h, e1, e2),
    ensures ({ let b = h[x].prev; let o = h[b].prev; let n = h[x].next; let g = bridged(h, x, o, e1, e2, ep_default(), ep_default());
        &&& links(g) && h[o].next == b && tgt(h, o) == h[b].origin_id && tgt(h, x) == h[n].origin_id
        &&& g.contains_key(x) && g.contains_key(e1) && g[x].next == e1 && g[e1].next == b && g[b].next == x }),
{
    let b = h[x].prev; let o = h[b].prev; let n = h[x].next; let g = bridged(h, x, o, e1, e2, ep_default(), ep_default());
    assert(link_ok(h, x)); assert(link_ok(h, b)); assert(link_ok(h, o)); assert(link_ok(h, n));
    assert forall|y: I| g.contains_key(y) implies #[trigger] link_ok(g, y) by { if y != e1 && y != e2 { assert(link_ok(h, y)); assert(link_ok(h, h[y].next)); assert(link_ok(h, h[y].prev)); } }
}
proof fn lemma_cut(h: HMap, size: int, x: I, e1: I, e2: I, F: I)
    requires links(h), cuttable(h, x), fresh2(h, e1, e2),
        hsmall(bridged(h, x, h[h[x].prev].prev, e1, e2, ep_default(), ep_default()), size),
    ensures ({ let o = h[h[x].prev].prev; let g = bridged(h, x, o, e1, e2, ep_default(), ep_default()); faces_set(g, orbit(nmap(g), x), F) =~= cut(h, x, e1, e2, F) }),
{
    let b = h[x].prev; let o = h[b].prev; let n = h[x].next; let g = bridged(h, x, o, e1, e2, ep_default(), ep_default());
    lemma_bridge_links(h, x, e1, e2);
    lemma_cycle3(g, size, x, e1, b);
    assert(link_ok(h, x)); assert(link_ok(h, b)); assert(link_ok(h, o)); assert(link_ok(h, n));
}
/// the first k corners of the triangle a, b, c are cut off
spec fn cuts(h: HMap, s: Seq<I>, P: Seq<I>, Q: Seq<I>, F: Seq<I>, k: int) -> HMap
    decreases k,
{ if k <= 0 { h } else { cut(cuts(h, s, P, Q, F, k - 1), s[k - 1], P[k - 1], Q[k - 1], F[k - 1]) } }
spec fn nx(h: HMap, x: I, n: I, p: I) -> bool { h.contains_key(x) && h[x].next == n && h[x].prev == p }
/// a hole of six half-edges
spec fn hexa(h: HMap, s: Seq<I>, S: Seq<I>) -> bool {
    &&& s.len() == 3 && S.len() == 3 && nx(h, s[0], S[0], S[2]) && nx(h, S[0], s[1], s[0]) && nx(h, s[1], S[1], S[0]) && nx(h, S[1], s[2], s[1]) && nx(h, s[2], S[2], S[1]) && nx(h, S[2], s[0], s[2])
    &&& s[0] != s[1] && s[0] != s[2] && s[1] != s[2] && S[0] != S[1] && S[0] != S[2] && S[1] != S[2]
    &&& forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] s[i] != #[trigger] S[j]
}
spec fn fresh_cut(h: HMap, s: Seq<I>, P: Seq<I>, Q: Seq<I>, F: Seq<I>, j: int) -> bool { fresh2(cuts(h, s, P, Q, F, j), P[j], Q[j]) }
/// the hole that is left after k cuts
spec fn left(h: HMap, s: Seq<I>, S: Seq<I>, Q: Seq<I>, k: int) -> bool {
    if k == 0 { hexa(h, s, S) }
    else if k == 1 { nx(h, s[2], Q[0], S[1]) && nx(h, Q[0], S[0], s[2]) && nx(h, S[0], s[1], Q[0]) && nx(h, s[1], S[1], S[0]) && nx(h, S[1], s[2], s[1]) }
    else if k == 2 { nx(h, s[2], Q[0], S[1]) && nx(h, Q[0], Q[1], s[2]) && nx(h, Q[1], S[1], Q[0]) && nx(h, S[1], s[2], Q[1]) }
    else { nx(h, Q[0], Q[1], Q[2]) && nx(h, Q[1], Q[2], Q[0]) && nx(h, Q[2], Q[0], Q[1]) }
}
proof fn lemma_cut_links(h: HMap, size: int, x: I, e1: I, e2: I, F: I)
    requires links(h), cuttable(h, x), fresh2(h, e1, e2),
    ensures links(cut(h, x, e1, e2, F)),
{
    let b = h[x].prev; let o = h[b].prev; let n = h[x].next; let g = cut(h, x, e1, e2, F);
    assert(link_ok(h, x)); assert(link_ok(h, b)); assert(link_ok(h, o)); assert(link_ok(h, n));
    assert forall|y: I| g.contains_key(y) implies #[trigger] link_ok(g, y) by { if y != e1 && y != e2 { assert(link_ok(h, y)); assert(link_ok(h, h[y].next)); assert(link_ok(h, h[y].prev)); } }
}
proof fn lemma_left(h: HMap, s: Seq<I>, S: Seq<I>, P: Seq<I>, Q: Seq<I>, F: Seq<I>, k: int)
    requires links(h), hexa(h, s, S), 0 <= k <= 3, forall|j: int| 0 <= j < k ==> #[trigger] fresh_cut(h, s, P, Q, F, j),
    ensures links(cuts(h, s, P, Q, F, k)), left(cuts(h, s, P, Q, F, k), s, S, Q, k),
        grew(h, cuts(h, s, P, Q, F, k)),
        forall|j: int| 0 <= j < k ==> #[trigger] added(h, cuts(h, s, P, Q, F, k), P, Q, j),
        k < 3 ==> cuttable(cuts(h, s, P, Q, F, k), s[k]),
    decreases k,
{
    if k > 0 {
        lemma_left(h, s, S, P, Q, F, k - 1);
        let g = cuts(h, s, P, Q, F, k - 1);
        assert(fresh_cut(h, s, P, Q, F, k - 1));
        lemma_cut_links(g, 0, s[k - 1], P[k - 1], Q[k - 1], F[k - 1]);
        assert(kept(h, g, s[0]) && kept(h, g, s[1]) && kept(h, g, s[2]) && kept(h, g, S[0]) && kept(h, g, S[1]) && kept(h, g, S[2]));
        assert(h.contains_key(s[0]) && h.contains_key(s[1]) && h.contains_key(s[2]) && h.contains_key(S[0]) && h.contains_key(S[1]) && h.contains_key(S[2]));
        assert(g.contains_key(s[0]) && g.contains_key(s[1]) && g.contains_key(s[2]) && g.contains_key(S[0]) && g.contains_key(S[1]) && g.contains_key(S[2]));
        if k > 1 { assert(added(h, g, P, Q, 0)); }
        if k > 2 { assert(added(h, g, P, Q, 1)); }
        let x = s[k - 1]; let b = g[x].prev; let o = g[b].prev; let n = g[x].next; let gg = cut(g, x, P[k - 1], Q[k - 1], F[k - 1]);
        assert(gg == cuts(h, s, P, Q, F, k));
        assert forall|y: I| #[trigger] kept(h, gg, y) by { if h.contains_key(y) { assert(kept(h, g, y)); } }
        assert forall|j: int| 0 <= j < k implies #[trigger] added(h, gg, P, Q, j) by {
            if j < k - 1 { assert(added(h, g, P, Q, j)); } else { assert(kept(h, g, P[j])); assert(kept(h, g, Q[j])); } }
    } else {
        assert forall|y: I| #[trigger] kept(h, h, y) by { }
    }
}
spec fn added(h: HMap, g: HMap, P: Seq<I>, Q: Seq<I>, j: int) -> bool { g.contains_key(P[j]) && g.contains_key(Q[j]) && !h.contains_key(P[j]) && !h.contains_key(Q[j]) }
spec fn kept(h: HMap, g: HMap, y: I) -> bool { h.contains_key(y) ==> g.contains_key(y) && same_but(h[y], g[y]) }
spec fn grew(h: HMap, g: HMap) -> bool { forall|y: I| #[trigger] kept(h, g, y) }
spec fn same_but(a: HalfEdgeImpl, b: HalfEdgeImpl) -> bool { b.id == a.id && b.twin == a.twin && b.origin_id == a.origin_id && b.payload == a.payload }
/// the three corners of the triangle are cut off
spec fn three(h: HMap, g: HMap, s: Seq<I>, S: Seq<I>, P: Seq<I>, Q: Seq<I>, F: Seq<I>) -> bool {
    let d = ep_default();
    &&& g[s[0]] == HalfEdgeImpl { next: P[0], face: F[0], ..h[s[0]] } && g[s[1]] == HalfEdgeImpl { next: P[1], face: F[1], ..h[s[1]] } && g[s[2]] == HalfEdgeImpl { next: P[2], face: F[2], ..h[s[2]] }
    &&& g[S[2]] == HalfEdgeImpl { prev: P[0], face: F[0], ..h[S[2]] } && g[S[0]] == HalfEdgeImpl { prev: P[1], face: F[1], ..h[S[0]] } && g[S[1]] == HalfEdgeImpl { prev: P[2], face: F[2], ..h[S[1]] }
    &&& g[P[0]] == mk(P[0], S[2], Q[0], s[0], h[S[0]].origin_id, F[0], d) && g[P[1]] == mk(P[1], S[0], Q[1], s[1], h[S[1]].origin_id, F[1], d) && g[P[2]] == mk(P[2], S[1], Q[2], s[2], h[S[2]].origin_id, F[2], d)
    &&& g[Q[0]] == mk(Q[0], Q[1], P[0], Q[2], h[S[2]].origin_id, NONE, d) && g[Q[1]] == mk(Q[1], Q[2], P[1], Q[0], h[S[0]].origin_id, NONE, d) && g[Q[2]] == mk(Q[2], Q[0], P[2], Q[1], h[S[1]].origin_id, NONE, d)
    &&& forall|y: I| #[trigger] g.contains_key(y) <==> h.contains_key(y) || y == P[0] || y == P[1] || y == P[2] || y == Q[0] || y == Q[1] || y == Q[2]
    &&& forall|y: I| h.contains_key(y) && y != s[0] && y != s[1] && y != s[2] && y != S[0] && y != S[1] && y != S[2] ==> #[trigger] g[y] == h[y]
    &&& P[0] != P[1] && P[0] != P[2] && P[1] != P[2] && Q[0] != Q[1] && Q[0] != Q[2] && Q[1] != Q[2] && P[0] != NONE && P[1] != NONE && P[2] != NONE && Q[0] != NONE && Q[1] != NONE && Q[2] != NONE
    &&& forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] P[i] != #[trigger] Q[j]
    &&& forall|j: int| 0 <= j < 3 ==> #[trigger] added(h, g, P, Q, j)
}
proof fn lemma_cuts3(h: HMap, s: Seq<I>, S: Seq<I>, P: Seq<I>, Q: Seq<I>, F: Seq<I>)
    requires links(h), hexa(h, s, S), forall|j: int| 0 <= j < 3 ==> #[trigger] fresh_cut(h, s, P, Q, F, j),
    ensures three(h, cuts(h, s, P, Q, F, 3), s, S, P, Q, F), links(cuts(h, s, P, Q, F, 3)),
{
    lemma_left(h, s, S, P, Q, F, 0); lemma_left(h, s, S, P, Q, F, 1); lemma_left(h, s, S, P, Q, F, 2); lemma_left(h, s, S, P, Q, F, 3);
    let g1 = cuts(h, s, P, Q, F, 1); let g2 = cuts(h, s, P, Q, F, 2); let g3 = cuts(h, s, P, Q, F, 3);
    assert(g1 == cut(h, s[0], P[0], Q[0], F[0])); assert(g2 == cut(g1, s[1], P[1], Q[1], F[1])); assert(g3 == cut(g2, s[2], P[2], Q[2], F[2]));
    assert(fresh_cut(h, s, P, Q, F, 0)); assert(fresh_cut(h, s, P, Q, F, 1)); assert(fresh_cut(h, s, P, Q, F, 2));
    assert(added(h, g1, P, Q, 0)); assert(added(h, g2, P, Q, 0)); assert(added(h, g2, P, Q, 1)); assert(added(h, g3, P, Q, 0)); assert(added(h, g3, P, Q, 1)); assert(added(h, g3, P, Q, 2));
    let (b0, b1, b2) = (S[2], S[0], S[1]);
    assert(h[s[0]].prev == b0 && h[b0].prev == s[2] && h[s[0]].next == S[0]);
    assert(g1[s[1]].prev == b1 && g1[b1].prev == Q[0] && g1[s[1]].next == S[1]);
    assert(g2[s[2]].prev == b2 && g2[b2].prev == Q[1] && g2[s[2]].next == Q[0]);
    assert(s[0] != S[0] && s[0] != S[1] && s[0] != S[2] && s[1] != S[0] && s[1] != S[1] && s[1] != S[2] && s[2] != S[0] && s[2] != S[1] && s[2] != S[2]);
    assert(kept(h, g1, s[0])); assert(kept(h, g2, s[0]));
    assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies #[trigger] P[i] != #[trigger] Q[j] by {
        assert(i == 0 || i == 1 || i == 2); assert(j == 0 || j == 1 || j == 2); }
}
/// triangle a is divided into four
spec fn sub_done(h0: HMap, g: Sub, a: I, P: Seq<I>, Q: Seq<I>, F: Seq<I>, C: I) -> Sub {
    let b = h0[a].next; let c = h0[a].prev;
    Sub { i1: g.i1.insert(a, P[0]).insert(b, P[1]).insert(c, P[2]), i2: g.i2.insert(a, Q[0]).insert(b, Q[1]).insert(c, Q[2]),
        fo: g.fo.insert(a, F[0]).insert(b, F[1]).insert(c, F[2]), fc: g.fc.insert(a, C).insert(b, C).insert(c, C),
        own: g.own.insert(P[0], (a, 2int)).insert(P[1], (b, 2int)).insert(P[2], (c, 2int)).insert(Q[0], (a, 3int)).insert(Q[1], (b, 3int)).insert(Q[2], (c, 3int)),
        fown: g.fown.insert(F[0], (a, 1int)).insert(F[1], (b, 1int)).insert(F[2], (c, 1int)).insert(C, (a, 2int)), ..g }
}
spec fn sides(h0: HMap, a: I) -> Seq<I> { seq![a, h0[a].next, h0[a].prev] }
spec fn halves(h0: HMap, g: Sub, a: I) -> Seq<I> { seq![g.sec[a], g.sec[h0[a].next], g.sec[h0[a].prev]] }
/// a divided but otherwise untouched triangle
spec fn ready(h0: HMap, g: Sub, a: I) -> bool { h0.contains_key(a) && !dn(g, a) && sp(g, a) && sp(g, h0[a].next) && sp(g, h0[a].prev) }
proof fn lemma_hexa(h0: HMap, v0: VMap, f0: FMap, h: HMap, g: Sub, a: I, size: int)
    requires wf(h0, v0, f0), triangles(h0), st_e(h0, h, g), ready(h0, g, a), hsmall(h, size),
    ensures ({ let h1 = faces_set(h, orbit(nmap(h), a), NONE); let s = sides(h0, a); let S = halves(h0, g, a);
        &&& links(h1) && hexa(h1, s, S)
        &&& forall|x: I| #[trigger] orbit(nmap(h), a).contains(x) <==> s.contains(x) || S.contains(x)
        &&& forall|x: I| #[trigger] h1.contains_key(x) <==> h.contains_key(x)
        &&& forall|x: I| h.contains_key(x) && !s.contains(x) && !S.contains(x) ==> #[trigger] h1[x] == h[x]
        &&& forall|j: int| 0 <= j < 3 ==> h1[#[trigger] s[j]] == (HalfEdgeImpl { face: NONE, ..h[s[j]] }) && h1[S[j]] == (HalfEdgeImpl { face: NONE, ..h[S[j]] }) }),
{
    let b = h0[a].next; let c = h0[a].prev; let h1 = faces_set(h, orbit(nmap(h), a), NONE); let s = sides(h0, a); let S = halves(h0, g, a);
    lemma_tri(h0, v0, f0, a); lemma_tri(h0, v0, f0, b); lemma_tri(h0, v0, f0, c);
    assert(at(h0, h, g, a)); assert(at(h0, h, g, b)); assert(at(h0, h, g, c));
    assert(owned(h0, g, g.sec[a])); assert(owned(h0, g, g.sec[b])); assert(owned(h0, g, g.sec[c]));
    lemma_sub_links(h0, v0, f0, h, g);
    lemma_cycle6(h, size, a, g.sec[a], b, g.sec[b], c, g.sec[c]);
    assert(s[0] == a && s[1] == b && s[2] == c && S[0] == g.sec[a] && S[1] == g.sec[b] && S[2] == g.sec[c]);
    assert forall|x: I| h1.contains_key(x) implies #[trigger] link_ok(h1, x) by { assert(link_ok(h, x)); }
    assert forall|x: I| #[trigger] orbit(nmap(h), a).contains(x) <==> s.contains(x) || S.contains(x) by {
        if s.contains(x) { let i = choose|i: int| 0 <= i < 3 && s[i] == x; assert(i == 0 || i == 1 || i == 2); }
        if S.contains(x) { let i = choose|i: int| 0 <= i < 3 && S[i] == x; assert(i == 0 || i == 1 || i == 2); }
    }
    assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies #[trigger] s[i] != #[trigger] S[j] by { assert(i == 0 || i == 1 || i == 2); assert(j == 0 || j == 1 || j == 2); }
    assert forall|j: int| 0 <= j < 3 implies h1[#[trigger] s[j]] == (HalfEdgeImpl { face: NONE, ..h[s[j]] }) && h1[S[j]] == (HalfEdgeImpl { face: NONE, ..h[S[j]] }) by { assert(s.contains(s[j]) && S.contains(S[j])); }
}
/// what the half-edges of the divided triangle are in the end
spec fn tri_done(h0: HMap, h: HMap, h4: HMap, g: Sub, a: I, P: Seq<I>, Q: Seq<I>, F: Seq<I>, C: I) -> bool {
    let s = sides(h0, a); let S = halves(h0, g, a); let d = ep_default();
    &&& h4[s[0]] == HalfEdgeImpl { next: P[0], face: F[0], ..h[s[0]] } && h4[s[1]] == HalfEdgeImpl { next: P[1], face: F[1], ..h[s[1]] } && h4[s[2]] == HalfEdgeImpl { next: P[2], face: F[2], ..h[s[2]] }
    &&& h4[S[2]] == HalfEdgeImpl { prev: P[0], face: F[0], ..h[S[2]] } && h4[S[0]] == HalfEdgeImpl { prev: P[1], face: F[1], ..h[S[0]] } && h4[S[1]] == HalfEdgeImpl { prev: P[2], face: F[2], ..h[S[1]] }
    &&& h4[P[0]] == mk(P[0], S[2], Q[0], s[0], h[S[0]].origin_id, F[0], d) && h4[P[1]] == mk(P[1], S[0], Q[1], s[1], h[S[1]].origin_id, F[1], d) && h4[P[2]] == mk(P[2], S[1], Q[2], s[2], h[S[2]].origin_id, F[2], d)
    &&& h4[Q[0]] == mk(Q[0], Q[1], P[0], Q[2], h[S[2]].origin_id, C, d) && h4[Q[1]] == mk(Q[1], Q[2], P[1], Q[0], h[S[0]].origin_id, C, d) && h4[Q[2]] == mk(Q[2], Q[0], P[2], Q[1], h[S[1]].origin_id, C, d)
    &&& forall|y: I| #[trigger] h4.contains_key(y) <==> h.contains_key(y) || y == P[0] || y == P[1] || y == P[2] || y == Q[0] || y == Q[1] || y == Q[2]
    &&& forall|y: I| h.contains_key(y) && y != s[0] && y != s[1] && y != s[2] && y != S[0] && y != S[1] && y != S[2] ==> #[trigger] h4[y] == h[y]
    &&& P[0] != P[1] && P[0] != P[2] && P[1] != P[2] && Q[0] != Q[1] && Q[0] != Q[2] && Q[1] != Q[2] && P[0] != NONE && P[1] != NONE && P[2] != NONE && Q[0] != NONE && Q[1] != NONE && Q[2] != NONE
    &&& forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] P[i] != #[trigger] Q[j]
    &&& forall|j: int| 0 <= j < 3 ==> #[trigger] added(h, h4, P, Q, j)
}
proof fn lemma_tri_done(h0: HMap, v0: VMap, f0: FMap, h: HMap, g: Sub, a: I, P: Seq<I>, Q: Seq<I>, F: Seq<I>, C: I, size: int)
    requires wf(h0, v0, f0), triangles(h0), st_e(h0, h, g), ready(h0, g, a), hsmall(h, size),
        ({ let h1 = faces_set(h, orbit(nmap(h), a), NONE); let s = sides(h0, a); let h3 = cuts(h1, s, P, Q, F, 3);
            hsmall(h3, size) && forall|j: int| 0 <= j < 3 ==> #[trigger] fresh_cut(h1, s, P, Q, F, j) }),
    ensures ({ let h1 = faces_set(h, orbit(nmap(h), a), NONE); let s = sides(h0, a); let h3 = cuts(h1, s, P, Q, F, 3);
            tri_done(h0, h, faces_set(h3, orbit(nmap(h3), Q[0]), C), g, a, P, Q, F, C) && h3.contains_key(a) && h3[a].next == P[0] && h3.contains_key(P[0]) && h3[P[0]].twin == Q[0] && h3.contains_key(Q[0]) && h3[Q[0]].face == NONE && links(h3) }),
{
    let h1 = faces_set(h, orbit(nmap(h), a), NONE); let s = sides(h0, a); let S = halves(h0, g, a); let h3 = cuts(h1, s, P, Q, F, 3);
    lemma_hexa(h0, v0, f0, h, g, a, size);
    lemma_cuts3(h1, s, S, P, Q, F);
    assert(added(h1, h3, P, Q, 0)); assert(added(h1, h3, P, Q, 1)); assert(added(h1, h3, P, Q, 2));
    lemma_cycle3(h3, size, Q[0], Q[1], Q[2]);
    let h4 = faces_set(h3, orbit(nmap(h3), Q[0]), C);
    assert(s[0] == a);
    assert(S[0] == S[0] && h.contains_key(S[0]) && h.contains_key(S[1]) && h.contains_key(S[2]));
    assert forall|j: int| 0 <= j < 3 implies #[trigger] added(h, h4, P, Q, j) by { assert(added(h1, h3, P, Q, j)); }
    assert(h1[s[0]] == (HalfEdgeImpl { face: NONE, ..h[s[0]] })); assert(h1[s[1]] == (HalfEdgeImpl { face: NONE, ..h[s[1]] })); assert(h1[s[2]] == (HalfEdgeImpl { face: NONE, ..h[s[2]] }));
    assert(P[0] != Q[0] && P[0] != Q[1] && P[0] != Q[2] && P[1] != Q[0] && P[1] != Q[1] && P[1] != Q[2] && P[2] != Q[0] && P[2] != Q[1] && P[2] != Q[2]);
    assert forall|y: I| h.contains_key(y) && y != s[0] && y != s[1] && y != s[2] && y != S[0] && y != S[1] && y != S[2] implies #[trigger] h4[y] == h[y] by {
        if s.contains(y) { let i = choose|i: int| 0 <= i < 3 && s[i] == y; assert(i == 0 || i == 1 || i == 2); }
        if S.contains(y) { let i = choose|i: int| 0 <= i < 3 && S[i] == y; assert(i == 0 || i == 1 || i == 2); }
        assert(h1.contains_key(y)); assert(h3[y] == h1[y]);
    }
}
proof fn lemma_face_done(h0: HMap, v0: VMap, f0: FMap, h: HMap, h4: HMap, g: Sub, a: I, P: Seq<I>, Q: Seq<I>, F: Seq<I>, C: I)
    requires wf(h0, v0, f0), triangles(h0), st_e(h0, h, g), ready(h0, g, a), tri_done(h0, h, h4, g, a, P, Q, F, C),
    ensures st_e(h0, h4, sub_done(h0, g, a, P, Q, F, C)),
{
    let b = h0[a].next; let c = h0[a].prev; let g3 = sub_done(h0, g, a, P, Q, F, C); let s = sides(h0, a); let S = halves(h0, g, a);
    lemma_tri(h0, v0, f0, a); lemma_tri(h0, v0, f0, b); lemma_tri(h0, v0, f0, c);
    assert(at(h0, h, g, a)); assert(at(h0, h, g, b)); assert(at(h0, h, g, c));
    assert(owned(h0, g, g.sec[a])); assert(owned(h0, g, g.sec[b])); assert(owned(h0, g, g.sec[c]));
    assert(s[0] == a && s[1] == b && s[2] == c && S[0] == g.sec[a] && S[1] == g.sec[b] && S[2] == g.sec[c]);
    assert(P[0] != Q[0] && P[0] != Q[1] && P[0] != Q[2] && P[1] != Q[0] && P[1] != Q[1] && P[1] != Q[2] && P[2] != Q[0] && P[2] != Q[1] && P[2] != Q[2]);
    assert(added(h, h4, P, Q, 0)); assert(added(h, h4, P, Q, 1)); assert(added(h, h4, P, Q, 2));
    assert forall|x: I| h0.contains_key(x) implies #[trigger] at(h0, h4, g3, x) by {
        lemma_tri(h0, v0, f0, x); let (xn, xp) = (h0[x].next, h0[x].prev);
        assert(at(h0, h, g, x)); assert(at(h0, h, g, xn)); assert(at(h0, h, g, xp));
        if sp(g, x) { assert(owned(h0, g, g.sec[x])); }
        if dn(g, x) { assert(owned(h0, g, g.i1[x])); assert(owned(h0, g, g.i2[x])); }
    }
    assert forall|z: I| g3.own.contains_key(z) implies #[trigger] owned(h0, g3, z) by {
        if z == P[0] || z == P[1] || z == P[2] || z == Q[0] || z == Q[1] || z == Q[2] {} else { assert(owned(h0, g, z)); } }
}
spec fn new_faces(f1: FMap, s: Seq<I>, Q: Seq<I>, F: Seq<I>, C: I, pay: FP) -> FMap {
    f1.insert(F[0], mkf(F[0], s[0], false, pay)).insert(F[1], mkf(F[1], s[1], false, pay)).insert(F[2], mkf(F[2], s[2], false, pay)).insert(C, mkf(C, Q[0], false, pay))
}
spec fn new4(f1: FMap, F: Seq<I>, C: I) -> bool {
    fresh1(f1, F[0]) && fresh1(f1, F[1]) && fresh1(f1, F[2]) && fresh1(f1, C) && F[0] != F[1] && F[0] != F[2] && F[1] != F[2] && C != F[0] && C != F[1] && C != F[2]
}
spec fn dn_tri(h0: HMap, g: Sub, x: I) -> bool { dn(g, x) ==> dn(g, h0[x].next) && dn(g, h0[x].prev) }
proof fn lemma_face_done_f(h0: HMap, v0: VMap, f0: FMap, f: FMap, g: Sub, a: I, P: Seq<I>, Q: Seq<I>, F: Seq<I>, C: I)
    requires wf(h0, v0, f0), triangles(h0), st_f(h0, f0, f, g), ready(h0, g, a), rep(h0, f0, a) == a, new4(f.remove(h0[a].face), F, C),
        forall|x: I| h0.contains_key(x) ==> #[trigger] dn_tri(h0, g, x),
    ensures st_f(h0, f0, new_faces(f.remove(h0[a].face), sides(h0, a), Q, F, C, f0[h0[a].face].payload), sub_done(h0, g, a, P, Q, F, C)),
{
    let b = h0[a].next; let c = h0[a].prev; let g3 = sub_done(h0, g, a, P, Q, F, C); let s = sides(h0, a); let F0 = h0[a].face;
    let f4 = new_faces(f.remove(F0), s, Q, F, C, f0[F0].payload);
    lemma_tri(h0, v0, f0, a); lemma_tri(h0, v0, f0, b); lemma_tri(h0, v0, f0, c);
    assert(f_kept(f0, f, g, F0)); assert(f.contains_key(F0)); assert(!g.fown.contains_key(F0));
    assert(s[0] == a && s[1] == b && s[2] == c);
    assert(dn_tri(h0, g, a)); assert(dn_tri(h0, g, b)); assert(dn_tri(h0, g, c));
    assert forall|x: I| h0.contains_key(x) implies #[trigger] fat(h0, f0, f4, g3, x) by { lemma_fat_done(h0, v0, f0, f, g, a, P, Q, F, C, x); }
    assert forall|z: I| g3.fown.contains_key(z) implies #[trigger] fowned(h0, f0, g3, z) by {
        if z == F[0] || z == F[1] || z == F[2] || z == C {} else { assert(fowned(h0, f0, g, z)); } }
    assert forall|z: I| f0.contains_key(z) implies #[trigger] f_kept(f0, f4, g3, z) by { assert(f_kept(f0, f, g, z)); assert(face_ok(h0, f0, z)); }
    assert forall|z: I| #[trigger] f4.contains_key(z) <==> g3.fown.contains_key(z) || f0.contains_key(z) && !dn(g3, f0[z].edge) by {
        assert(f.contains_key(z) <==> g.fown.contains_key(z) || f0.contains_key(z) && !dn(g, f0[z].edge));
        if f0.contains_key(z) { assert(face_ok(h0, f0, z)); assert(f_kept(f0, f, g, z)); let e = f0[z].edge; if e == a || e == b || e == c { assert(h0[e].face == z); } }
    }
}
proof fn lemma_fat_done(h0: HMap, v0: VMap, f0: FMap, f: FMap, g: Sub, a: I, P: Seq<I>, Q: Seq<I>, F: Seq<I>, C: I, x: I)
    requires wf(h0, v0, f0), triangles(h0), st_f(h0, f0, f, g), ready(h0, g, a), rep(h0, f0, a) == a, new4(f.remove(h0[a].face), F, C), h0.contains_key(x),
        forall|x: I| h0.contains_key(x) ==> #[trigger] dn_tri(h0, g, x),
    ensures fat(h0, f0, new_faces(f.remove(h0[a].face), sides(h0, a), Q, F, C, f0[h0[a].face].payload), sub_done(h0, g, a, P, Q, F, C), x),
{
    let b = h0[a].next; let c = h0[a].prev; let s = sides(h0, a); let F0 = h0[a].face;
    lemma_tri(h0, v0, f0, a); lemma_tri(h0, v0, f0, b); lemma_tri(h0, v0, f0, c); lemma_tri(h0, v0, f0, x);
    assert(s[0] == a && s[1] == b && s[2] == c);
    assert(dn_tri(h0, g, a)); assert(dn_tri(h0, g, b)); assert(dn_tri(h0, g, c)); assert(dn_tri(h0, g, x));
    if dn(g, x) {
        let r = rep(h0, f0, x); let n = h0[x].next;
        assert(fat(h0, f0, f, g, x)); assert(f_kept(f0, f, g, F0));
        assert(dn(g, r)); assert(r != a && r != b && r != c && n != a && n != b && n != c && x != a && x != b && x != c);
        assert(f.contains_key(g.fo[x]) && f.contains_key(g.fc[x]));
    } else if x == a || x == b || x == c { assert(rep(h0, f0, x) == a); }
}
spec fn cov(h0: HMap, fs: Seq<I>, k: int, x: I) -> bool { fs.take(k).contains(h0[x].face) }
spec fn first(h0: HMap, a: I, i: int, x: I) -> bool { i >= 1 && x == a || i >= 2 && x == h0[a].next || i >= 3 && x == h0[a].prev }
/// the faces fs[..k] are done, and the first i sides of triangle a are divided
spec fn mark(h0: HMap, g: Sub, fs: Seq<I>, k: int, a: I, i: int, x: I) -> bool { (dn(g, x) <==> cov(h0, fs, k, x)) && (sp(g, x) <==> dn(g, x) || first(h0, a, i, x)) }
spec fn marks(h0: HMap, g: Sub, fs: Seq<I>, k: int, a: I, i: int) -> bool { forall|x: I| h0.contains_key(x) ==> #[trigger] mark(h0, g, fs, k, a, i, x) }
/// O holds the divided half-edges whose twins are not divided
spec fn open_at(h0: HMap, g: Sub, O: Set<I>, x: I) -> bool { O.contains(x) <==> h0.contains_key(x) && sp(g, x) && !sp(g, h0[x].twin) }
spec fn opens(h0: HMap, g: Sub, O: Set<I>) -> bool { forall|x: I| #[trigger] open_at(h0, g, O, x) }
spec fn mid_inv(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, ip: Interp, fs: Seq<I>, k: int, a: I, i: int, g: Sub, O: Set<I>) -> bool {
    &&& m.inv() && m.clean() && m.payload == o.payload
    &&& st_e(o.h(), m.h(), g) && st_v(o.h(), o.v(), o.f(), m.v(), g, ip) && st_f(o.h(), o.f(), m.f(), g)
    &&& marks(o.h(), g, fs, k, a, i) && opens(o.h(), g, O)
    &&& m.halfedges.in_use() == o.halfedges.in_use() + 9 * k + i && m.faces.in_use() == o.faces.in_use() + 3 * k
    &&& 2 * (m.vertices.in_use() - o.vertices.in_use()) == 3 * k + i + O.len() && m.vertices.in_use() - o.vertices.in_use() <= 3 * k + i
}
spec fn mid_state(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, ip: Interp, fs: Seq<I>, k: int, a: I, i: int) -> bool {
    exists|g: Sub, O: Set<I>| #[trigger] mid_inv(o, m, ip, fs, k, a, i, g, O)
}
/// fs lists the faces of o
spec fn all_faces(o: HalfEdgeMeshImpl, fs: Seq<I>) -> bool {
    &&& fs.len() == o.faces.in_use() && fs.no_duplicates()
    &&& forall|j: int| 0 <= j < fs.len() ==> o.f().contains_key(#[trigger] fs[j])
    &&& forall|F: I| #[trigger] o.f().contains_key(F) ==> fs.contains(F)
}
spec fn side(h0: HMap, a: I, i: int) -> I { if i == 0 { a } else if i == 1 { h0[a].next } else { h0[a].prev } }
/// side i of triangle a = fs[k] is neither divided nor done
proof fn lemma_next_side(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, ip: Interp, fs: Seq<I>, k: int, a: I, i: int, g: Sub, O: Set<I>)
    requires wf(o.h(), o.v(), o.f()), triangles(o.h()), mid_inv(o, m, ip, fs, k, a, i, g, O), all_faces(o, fs), 0 <= k < fs.len(), 0 <= i < 3, a == o.f()[fs[k]].edge,
    ensures ({ let e = side(o.h(), a, i); let t = o.h()[e].twin;
        &&& o.h().contains_key(e) && !sp(g, e) && !dn(g, e) && (sp(g, t) <==> dn(g, t)) && o.h().contains_key(t) && o.h()[t].twin == e && t != e
        &&& o.h()[e].face == fs[k] && rep(o.h(), o.f(), e) == a && o.h().contains_key(a) && o.h()[a].face == fs[k] }),
{
    let h0 = o.h(); let e = side(h0, a, i); let t = h0[e].twin;
    assert(face_ok(h0, o.f(), fs[k]));
    lemma_tri(h0, o.v(), o.f(), a); lemma_tri(h0, o.v(), o.f(), e);
    assert(mark(h0, g, fs, k, a, i, e)); assert(mark(h0, g, fs, k, a, i, t));
    assert(!cov(h0, fs, k, e)) by { if cov(h0, fs, k, e) { let j = choose|j: int| 0 <= j < fs.take(k).len() && fs.take(k)[j] == fs[k]; assert(fs[j] == fs[k]); } }
    if first(h0, a, i, t) { let n = h0[a].next; let p = h0[a].prev; lemma_tri(h0, o.v(), o.f(), n); lemma_tri(h0, o.v(), o.f(), p); }
}
proof fn lemma_marks_step(h0: HMap, v0: VMap, f0: FMap, g: Sub, g2: Sub, fs: Seq<I>, k: int, a: I, i: int)
    requires wf(h0, v0, f0), triangles(h0), h0.contains_key(a), marks(h0, g, fs, k, a, i), 0 <= i < 3, g2.i1 == g.i1, forall|x: I| #[trigger] sp(g2, x) <==> sp(g, x) || x == side(h0, a, i),
    ensures marks(h0, g2, fs, k, a, i + 1),
{
    lemma_tri(h0, v0, f0, a);
    assert forall|x: I| h0.contains_key(x) implies #[trigger] mark(h0, g2, fs, k, a, i + 1, x) by { assert(mark(h0, g, fs, k, a, i, x)); assert(sp(g2, x) <==> sp(g, x) || x == side(h0, a, i)); }
}
/// the side is divided like its twin was
proof fn lemma_mid_fix(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, ip: Interp, fs: Seq<I>, k: int, a: I, i: int, g: Sub, O: Set<I>, ne: I)
    requires wf(o.h(), o.v(), o.f()), triangles(o.h()), mid_inv(o, m, ip, fs, k, a, i, g, O), all_faces(o, fs), 0 <= k < fs.len(), 0 <= i < 3, a == o.f()[fs[k]].edge,
        n.inv(), n.clean(), n.vertices == m.vertices, n.faces == m.faces, n.payload == m.payload, grown(m, n, 1, 0, 0), fresh1(m.h(), ne),
        ({ let e = side(o.h(), a, i); dn(g, o.h()[e].twin) && n.h() =~= fixed_h(m.h(), e, ne, spoke(m.h(), e, 2), ep_default()) }),
    ensures mid_state(o, n, ip, fs, k, a, i + 1),
{
    let h0 = o.h(); let e = side(h0, a, i); let t = h0[e].twin; let g2 = split_fix(g, e, ne); let O2 = O.remove(t);
    lemma_next_side(o, m, ip, fs, k, a, i, g, O);
    lemma_walk_fix(h0, o.v(), o.f(), m.h(), g, e);
    lemma_fixed_v(h0, o.v(), o.f(), m.v(), m.f(), g, ip, e, ne);
    lemma_split_fix(h0, o.v(), o.f(), m.h(), g, e, ne);
    lemma_marks_step(h0, o.v(), o.f(), g, g2, fs, k, a, i);
    assert(open_at(h0, g, O, t));
    assert forall|x: I| #[trigger] open_at(h0, g2, O2, x) by {
        assert(open_at(h0, g, O, x)); if h0.contains_key(x) { lemma_tri(h0, o.v(), o.f(), x); assert(twin_ok(h0, x)); if h0[x].twin == e { assert(x == t); } } }
    assert(mid_inv(o, n, ip, fs, k, a, i + 1, g2, O2));
}
/// the side is divided by a new vertex
proof fn lemma_mid_new(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, ip: Interp, fs: Seq<I>, k: int, a: I, i: int, g: Sub, O: Set<I>, ne: I, y: I)
    requires wf(o.h(), o.v(), o.f()), triangles(o.h()), mid_inv(o, m, ip, fs, k, a, i, g, O), all_faces(o, fs), 0 <= k < fs.len(), 0 <= i < 3, a == o.f()[fs[k]].edge,
        n.inv(), n.clean(), n.faces == m.faces, n.payload == m.payload, grown(m, n, 1, 1, 0), fresh1(m.h(), ne), fresh1(m.v(), y),
        ({ let e = side(o.h(), a, i); !dn(g, o.h()[e].twin) && n.h() =~= split_h(m.h(), e, ne, m.h()[e].twin, y, ep_default())
            && n.v() =~= m.v().insert(y, mkv(y, ne, blend(o.h(), o.v(), o.f(), ip, e))) }),
    ensures mid_state(o, n, ip, fs, k, a, i + 1),
{
    let h0 = o.h(); let e = side(h0, a, i); let t = h0[e].twin; let g2 = split_new(h0, g, e, ne, y); let O2 = O.insert(e);
    lemma_next_side(o, m, ip, fs, k, a, i, g, O);
    lemma_splits_v(h0, o.v(), o.f(), m.v(), m.f(), g, ip, e, ne, y);
    lemma_split_new(h0, o.v(), o.f(), m.h(), g, e, ne, y);
    lemma_marks_step(h0, o.v(), o.f(), g, g2, fs, k, a, i);
    assert(open_at(h0, g, O, e)); assert(open_at(h0, g, O, t));
    assert forall|x: I| #[trigger] open_at(h0, g2, O2, x) by {
        assert(open_at(h0, g, O, x)); if h0.contains_key(x) { lemma_tri(h0, o.v(), o.f(), x); assert(twin_ok(h0, x)); if h0[x].twin == e { assert(x == t); } } }
    assert(mid_inv(o, n, ip, fs, k, a, i + 1, g2, O2));
}
spec fn cut_f(f: FMap, s: Seq<I>, F: Seq<I>, pay: FP, k: int) -> FMap
    decreases k,
{ if k <= 0 { f } else { cut_f(f, s, F, pay, k - 1).insert(F[k - 1], mkf(F[k - 1], s[k - 1], false, pay)) } }
spec fn fresh_f(f: FMap, s: Seq<I>, F: Seq<I>, pay: FP, j: int) -> bool { fresh1(cut_f(f, s, F, pay, j), F[j]) }
proof fn lemma_cuts_same(h: HMap, f: FMap, s: Seq<I>, P: Seq<I>, Q: Seq<I>, F: Seq<I>, p: I, q: I, c: I, pay: FP, k: int)
    requires 0 <= k <= P.len(), P.len() == Q.len(), P.len() == F.len(),
    ensures cuts(h, s, P.push(p), Q.push(q), F.push(c), k) == cuts(h, s, P, Q, F, k), cut_f(f, s, F.push(c), pay, k) == cut_f(f, s, F, pay, k),
    decreases k,
{ if k > 0 { lemma_cuts_same(h, f, s, P, Q, F, p, q, c, pay, k - 1); } }
/// k corners of the hole h1 are cut off
spec fn cut_inv(h1: HMap, f1: FMap, s: Seq<I>, P: Seq<I>, Q: Seq<I>, F: Seq<I>, pay: FP, k: int, h: HMap, f: FMap) -> bool {
    &&& 0 <= k <= 3 && P.len() == k && Q.len() == k && F.len() == k && h == cuts(h1, s, P, Q, F, k) && f == cut_f(f1, s, F, pay, k)
    &&& forall|j: int| 0 <= j < k ==> #[trigger] fresh_cut(h1, s, P, Q, F, j)
    &&& forall|j: int| 0 <= j < k ==> #[trigger] fresh_f(f1, s, F, pay, j)
}
proof fn lemma_cut_step(h1: HMap, f1: FMap, s: Seq<I>, P: Seq<I>, Q: Seq<I>, F: Seq<I>, pay: FP, k: int, h: HMap, f: FMap, p: I, q: I, c: I)
    requires cut_inv(h1, f1, s, P, Q, F, pay, k, h, f), k < 3, fresh2(h, p, q), fresh1(f, c),
    ensures cut_inv(h1, f1, s, P.push(p), Q.push(q), F.push(c), pay, k + 1, cut(h, s[k], p, q, c), f.insert(c, mkf(c, s[k], false, pay))),
{
    let (P2, Q2, F2) = (P.push(p), Q.push(q), F.push(c));
    lemma_cuts_same(h1, f1, s, P, Q, F, p, q, c, pay, k);
    assert forall|j: int| 0 <= j < k + 1 implies #[trigger] fresh_cut(h1, s, P2, Q2, F2, j) by { lemma_cuts_same(h1, f1, s, P, Q, F, p, q, c, pay, j); if j < k { assert(fresh_cut(h1, s, P, Q, F, j)); } }
    assert forall|j: int| 0 <= j < k + 1 implies #[trigger] fresh_f(f1, s, F2, pay, j) by { lemma_cuts_same(h1, f1, s, P, Q, F, p, q, c, pay, j); if j < k { assert(fresh_f(f1, s, F, pay, j)); } }
}
proof fn lemma_new4(f1: FMap, s: Seq<I>, Q: Seq<I>, F: Seq<I>, C: I, pay: FP)
    requires forall|j: int| 0 <= j < 3 ==> #[trigger] fresh_f(f1, s, F, pay, j), fresh1(cut_f(f1, s, F, pay, 3), C),
    ensures new4(f1, F, C), cut_f(f1, s, F, pay, 3).insert(C, mkf(C, Q[0], false, pay)) =~= new_faces(f1, s, Q, F, C, pay),
{
    reveal_with_fuel(cut_f, 4);
    assert(fresh_f(f1, s, F, pay, 0)); assert(fresh_f(f1, s, F, pay, 1)); assert(fresh_f(f1, s, F, pay, 2));
}
/// every half-edge starts at a vertex
spec fn org(h: HMap, v: VMap, y: I) -> bool { h.contains_key(y) ==> v.contains_key(h[y].origin_id) && v[h[y].origin_id].id == h[y].origin_id }
spec fn orgs(h: HMap, v: VMap) -> bool { forall|y: I| #[trigger] org(h, v, y) }
proof fn lemma_orgs(h0: HMap, v0: VMap, f0: FMap, h: HMap, v: VMap, g: Sub, ip: Interp)
    requires wf(h0, v0, f0), triangles(h0), st_e(h0, h, g), st_v(h0, v0, f0, v, g, ip),
    ensures orgs(h, v),
{
    assert forall|y: I| #[trigger] org(h, v, y) by {
        if h.contains_key(y) {
            let x = if h0.contains_key(y) { y } else { assert(owned(h0, g, y)); g.own[y].0 };
            lemma_tri(h0, v0, f0, x); let p = h0[x].prev;
            assert(at(h0, h, g, x)); assert(edge_ok(h0, v0, f0, x)); assert(vert_ok(h0, v0, h0[x].origin_id));
            assert(vat(h0, g, x)); assert(vat(h0, g, p));
            if sp(g, x) { assert(vowned(h0, v0, f0, v, g, ip, g.mid[x])); }
            if sp(g, p) { assert(vowned(h0, v0, f0, v, g, ip, g.mid[p])); }
            assert(v[h0[x].origin_id] == v0[h0[x].origin_id]);
        }
    }
}
proof fn lemma_orgs_set(h: HMap, v: VMap, s: Seq<I>, F: I)
    requires orgs(h, v),
    ensures orgs(faces_set(h, s, F), v),
{ let g = faces_set(h, s, F); assert forall|y: I| #[trigger] org(g, v, y) by { assert(org(h, v, y)); } }
proof fn lemma_orgs_cut(h: HMap, v: VMap, x: I, p: I, q: I, c: I)
    requires orgs(h, v), links(h), cuttable(h, x),
    ensures orgs(cut(h, x, p, q, c), v),
{
    let g = cut(h, x, p, q, c); let b = h[x].prev; let o = h[b].prev; let n = h[x].next;
    assert(org(h, v, x)); assert(org(h, v, b)); assert(org(h, v, o)); assert(org(h, v, n));
    assert forall|y: I| #[trigger] org(g, v, y) by { assert(org(h, v, y)); }
}
proof fn lemma_hsmall(m: HalfEdgeMeshImpl)
    ensures hsmall(m.h(), hsize(m)),
{ assert forall|x: I| #[trigger] m.h().contains_key(x) implies 0 <= x.ix() < hsize(m) by { I::ix_inj(x, x); } }
/// the edge chain of a face that was not touched
proof fn lemma_tri_orbit(h0: HMap, v0: VMap, f0: FMap, h: HMap, g: Sub, a: I, size: int)
    requires wf(h0, v0, f0), triangles(h0), st_e(h0, h, g), hsmall(h, size), h0.contains_key(a), !dn(g, a), !sp(g, a), !sp(g, h0[a].next), !sp(g, h0[a].prev),
    ensures orbit(nmap(h), a) =~= sides(h0, a),
        forall|j: int| 0 <= j < 3 ==> h.contains_key(#[trigger] sides(h0, a)[j]) && h[sides(h0, a)[j]].next == sides(h0, a)[pn(j, 3)] && h[sides(h0, a)[j]].origin_id == h0[sides(h0, a)[j]].origin_id && h[sides(h0, a)[j]].id == sides(h0, a)[j],
{
    let b = h0[a].next; let c = h0[a].prev; let s = sides(h0, a);
    lemma_tri(h0, v0, f0, a); lemma_tri(h0, v0, f0, b); lemma_tri(h0, v0, f0, c);
    assert(at(h0, h, g, a)); assert(at(h0, h, g, b)); assert(at(h0, h, g, c));
    lemma_sub_links(h0, v0, f0, h, g);
    lemma_cycle3(h, size, a, b, c); lemma_lperm(h, size); lemma_orbit(nmap(h), pmap(h), size, a);
    let o = orbit(nmap(h), a);
    assert(o[0] == a);
    if o.len() == 1 { assert(o.contains(b)); let j = choose|j: int| 0 <= j < o.len() && o[j] == b; assert(j == 0); assert(false); }
    assert(nmap(h)[o[0]] == o[1]);
    if o.len() == 2 { assert(o.contains(c)); let j = choose|j: int| 0 <= j < o.len() && o[j] == c; assert(j == 0 || j == 1); assert(false); }
    assert(nmap(h)[o[1]] == o[2]);
    if o.len() > 3 { assert(nmap(h)[o[2]] == o[3]); assert(o[3] == o[0]); assert(false); }
    assert forall|j: int| 0 <= j < 3 implies h.contains_key(#[trigger] s[j]) && h[s[j]].next == s[pn(j, 3)] && h[s[j]].origin_id == h0[s[j]].origin_id && h[s[j]].id == s[j] by { assert(j == 0 || j == 1 || j == 2); }
}
proof fn lemma_cov(h0: HMap, fs: Seq<I>, k: int, x: I)
    requires 0 <= k < fs.len(),
    ensures cov(h0, fs, k + 1, x) <==> cov(h0, fs, k, x) || h0[x].face == fs[k],
{
    let (s, t) = (fs.take(k), fs.take(k + 1)); let F = h0[x].face;
    assert(t =~= s.push(fs[k]));
    if s.contains(F) { let j = choose|j: int| 0 <= j < s.len() && s[j] == F; assert(t[j] == F); }
    if t.contains(F) && F != fs[k] { let j = choose|j: int| 0 <= j < t.len() && t[j] == F; assert(s[j] == F); }
    assert(t[k] == fs[k]);
}
proof fn lemma_face_end(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, ip: Interp, fs: Seq<I>, k: int, a: I, g: Sub, O: Set<I>, P: Seq<I>, Q: Seq<I>, F: Seq<I>, C: I, h3: HMap, f3: FMap, size: int)
    requires wf(o.h(), o.v(), o.f()), triangles(o.h()), mid_inv(o, m, ip, fs, k, a, 3, g, O), all_faces(o, fs), 0 <= k < fs.len(), a == o.f()[fs[k]].edge,
        ({ let h1 = faces_set(m.h(), orbit(nmap(m.h()), a), NONE); let pay = o.f()[fs[k]].payload;
            &&& cut_inv(h1, m.f().remove(fs[k]), sides(o.h(), a), P, Q, F, pay, 3, h3, f3) && fresh1(f3, C)
            &&& n.h() =~= faces_set(h3, orbit(nmap(h3), Q[0]), C) && n.f() =~= f3.insert(C, mkf(C, Q[0], false, pay)) }),
        n.vertices == m.vertices, n.payload == m.payload, n.inv(), n.clean(), grown(m, n, 6, 0, 3), hsmall(m.h(), size), hsmall(h3, size),
    ensures mid_state(o, n, ip, fs, k + 1, NONE, 0),
{
    let h0 = o.h(); let (v0, f0) = (o.v(), o.f()); let h = m.h(); let h1 = faces_set(h, orbit(nmap(h), a), NONE); let s = sides(h0, a); let f1 = m.f().remove(fs[k]); let pay = f0[fs[k]].payload;
    let g3 = sub_done(h0, g, a, P, Q, F, C);
    lemma_side_facts(o, m, ip, fs, k, a, g, O);
    lemma_tri_done(h0, v0, f0, h, g, a, P, Q, F, C, size);
    lemma_face_done(h0, v0, f0, h, n.h(), g, a, P, Q, F, C);
    assert forall|x: I| h0.contains_key(x) implies #[trigger] dn_tri(h0, g, x) by { assert(at(h0, h, g, x)); }
    lemma_new4(f1, s, Q, F, C, pay);
    lemma_face_done_f(h0, v0, f0, m.f(), g, a, P, Q, F, C);
    assert(n.f() == new_faces(f1, s, Q, F, C, pay));
    assert forall|x: I| h0.contains_key(x) implies #[trigger] vat(h0, g3, x) by { assert(vat(h0, g, x)); }
    assert forall|y: I| g3.vown.contains_key(y) implies #[trigger] vowned(h0, v0, f0, n.v(), g3, ip, y) by { assert(vowned(h0, v0, f0, m.v(), g, ip, y)); }
    assert forall|y: I| #[trigger] open_at(h0, g3, Set::<I>::empty(), y) || true by {}
    assert forall|x: I| #[trigger] open_at(h0, g3, O, x) by { assert(open_at(h0, g, O, x)); }
    lemma_tri(h0, v0, f0, a);
    assert forall|x: I| h0.contains_key(x) implies #[trigger] mark(h0, g3, fs, k + 1, NONE, 0, x) by {
        assert(mark(h0, g, fs, k, a, 3, x)); lemma_cov(h0, fs, k, x);
        if h0[x].face == fs[k] { lemma_tri(h0, v0, f0, x); assert(rep(h0, f0, x) == a); lemma_in_face(h0, v0, f0, x, a); }
        if first(h0, a, 3, x) { lemma_tri(h0, v0, f0, a); }
        if x == NONE { assert(link_ok(h0, x)); }
    }
    assert(mid_inv(o, n, ip, fs, k + 1, NONE, 0, g3, O));
}
proof fn lemma_in_face(h0: HMap, v0: VMap, f0: FMap, x: I, a: I)
    requires wf(h0, v0, f0), triangles(h0), h0.contains_key(x), h0.contains_key(a), rep(h0, f0, x) == a,
    ensures x == a || x == h0[a].next || x == h0[a].prev,
{ lemma_tri(h0, v0, f0, x); lemma_tri(h0, v0, f0, a); }
/// all three sides are divided
proof fn lemma_side_facts(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, ip: Interp, fs: Seq<I>, k: int, a: I, g: Sub, O: Set<I>)
    requires wf(o.h(), o.v(), o.f()), triangles(o.h()), mid_inv(o, m, ip, fs, k, a, 3, g, O), all_faces(o, fs), 0 <= k < fs.len(), a == o.f()[fs[k]].edge,
    ensures ready(o.h(), g, a), o.h()[a].face == fs[k], rep(o.h(), o.f(), a) == a, m.f().contains_key(fs[k]), m.f()[fs[k]] == o.f()[fs[k]], o.f()[fs[k]].id == fs[k], m.h().contains_key(a),
{
    let h0 = o.h();
    assert(face_ok(h0, o.f(), fs[k]));
    lemma_tri(h0, o.v(), o.f(), a); let b = h0[a].next; let c = h0[a].prev;
    assert(mark(h0, g, fs, k, a, 3, a)); assert(mark(h0, g, fs, k, a, 3, b)); assert(mark(h0, g, fs, k, a, 3, c));
    assert(!cov(h0, fs, k, a)) by { if cov(h0, fs, k, a) { let j = choose|j: int| 0 <= j < fs.take(k).len() && fs.take(k)[j] == fs[k]; assert(fs[j] == fs[k]); } }
    assert(at(h0, m.h(), g, a)); assert(f_kept(o.f(), m.f(), g, fs[k])); assert(m.f().contains_key(fs[k]));
}
/// the next triangle has not been touched
proof fn lemma_face_start(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, ip: Interp, fs: Seq<I>, k: int, size: int)
    requires wf(o.h(), o.v(), o.f()), triangles(o.h()), mid_state(o, m, ip, fs, k, NONE, 0), all_faces(o, fs), 0 <= k < fs.len(), hsmall(m.h(), size),
    ensures ({ let a = o.f()[fs[k]].edge; let s = sides(o.h(), a); let h = m.h();
        &&& mid_state(o, m, ip, fs, k, a, 0) && links(h) && m.f().contains_key(fs[k]) && m.f()[fs[k]] == o.f()[fs[k]] && h.contains_key(a) && o.h().contains_key(a)
        &&& orbit(nmap(h), a) =~= s
        &&& forall|j: int| 0 <= j < 3 ==> h.contains_key(#[trigger] s[j]) && h[s[j]].next == s[pn(j, 3)] && h[s[j]].origin_id == o.h()[s[j]].origin_id && h[s[j]].id == s[j] }),
{
    let (g, O) = choose|g: Sub, O: Set<I>| #[trigger] mid_inv(o, m, ip, fs, k, NONE, 0, g, O);
    let h0 = o.h(); let a = o.f()[fs[k]].edge;
    assert(face_ok(h0, o.f(), fs[k]));
    lemma_tri(h0, o.v(), o.f(), a); let b = h0[a].next; let c = h0[a].prev;
    assert forall|x: I| h0.contains_key(x) implies #[trigger] mark(h0, g, fs, k, a, 0, x) by { assert(mark(h0, g, fs, k, NONE, 0, x)); }
    assert(mark(h0, g, fs, k, a, 0, a)); assert(mark(h0, g, fs, k, a, 0, b)); assert(mark(h0, g, fs, k, a, 0, c));
    assert(!cov(h0, fs, k, a)) by { if cov(h0, fs, k, a) { let j = choose|j: int| 0 <= j < fs.take(k).len() && fs.take(k)[j] == fs[k]; assert(fs[j] == fs[k]); } }
    assert(at(h0, m.h(), g, a)); assert(f_kept(o.f(), m.f(), g, fs[k])); assert(m.f().contains_key(fs[k]));
    lemma_sub_links(h0, o.v(), o.f(), m.h(), g);
    assert(mid_inv(o, m, ip, fs, k, a, 0, g, O));
    lemma_tri_orbit(h0, o.v(), o.f(), m.h(), g, a, size);
}
spec fn face_ids(m: HalfEdgeMeshImpl) -> Seq<I> { live_seq::<HalfEdgeFaceImpl, I>(m.faces.data@).map_values(|x: HalfEdgeFaceImpl| x.id) }
proof fn lemma_all_faces(m: HalfEdgeMeshImpl)
    requires m.inv(), m.clean(),
    ensures all_faces(m, face_ids(m)), listing(live_seq::<HalfEdgeFaceImpl, I>(m.faces.data@), m.faces@),
{
    lemma_listed::<HalfEdgeFaceImpl>(m.faces);
    let all = live_seq::<HalfEdgeFaceImpl, I>(m.faces.data@); let fs = face_ids(m);
    assert forall|F: I| #[trigger] m.f().contains_key(F) implies fs.contains(F) by { let j = choose|j: int| 0 <= j < all.len() && (#[trigger] all[j]).key() == F; assert(fs[j] == F); }
    assert forall|i: int, j: int| 0 <= i < fs.len() && 0 <= j < fs.len() && i != j implies fs[i] != fs[j] by { if i < j { assert(all[i].key().ix() < all[j].key().ix()); } else { assert(all[j].key().ix() < all[i].key().ix()); } }
    assert forall|j: int| 0 <= j < fs.len() implies m.f().contains_key(#[trigger] fs[j]) by { assert(m.faces@.contains_key(all[j].key())); }
}
proof fn lemma_sub_start(o: HalfEdgeMeshImpl, ip: Interp, fs: Seq<I>)
    requires o.valid(), triangles(o.h()), all_faces(o, fs),
    ensures mid_state(o, o, ip, fs, 0, NONE, 0),
{
    let e = IMap::<I, I>::empty();
    let g = Sub { sec: e, mid: e, i1: e, i2: e, fo: e, fc: e, own: IMap::<I, (I, int)>::empty(), vown: e, fown: IMap::<I, (I, int)>::empty() };
    let h0 = o.h();
    assert forall|x: I| h0.contains_key(x) implies #[trigger] at(h0, h0, g, x) by { lemma_tri(h0, o.v(), o.f(), x); }
    assert forall|x: I| h0.contains_key(x) implies #[trigger] mark(h0, g, fs, 0, NONE, 0, x) by { }
    assert forall|x: I| #[trigger] open_at(h0, g, Set::<I>::empty(), x) by { }
    assert(mid_inv(o, o, ip, fs, 0, NONE, 0, g, Set::<I>::empty()));
}
/// what the subdivision made of the mesh o
spec fn subdivided(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, ip: Interp, g: Sub) -> bool {
    st_e(o.h(), m.h(), g) && st_v(o.h(), o.v(), o.f(), m.v(), g, ip) && st_f(o.h(), o.f(), m.f(), g) && all_done(o.h(), g)
}
spec fn sub_of(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, ip: Interp) -> bool { exists|g: Sub| #[trigger] subdivided(o, m, ip, g) }
proof fn lemma_sub_end(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, ip: Interp, fs: Seq<I>)
    requires o.valid(), triangles(o.h()), all_faces(o, fs), mid_state(o, m, ip, fs, fs.len() as int, NONE, 0),
    ensures sub_of(o, m, ip), m.valid(), triangles(m.h()), m.payload == o.payload, m.halfedges.in_use() == o.halfedges.in_use() + 9 * o.faces.in_use(), m.faces.in_use() == 4 * o.faces.in_use(),
        2 * (m.vertices.in_use() - o.vertices.in_use()) == 3 * o.faces.in_use(),
{
    let (g, O) = choose|g: Sub, O: Set<I>| #[trigger] mid_inv(o, m, ip, fs, fs.len() as int, NONE, 0, g, O);
    let h0 = o.h();
    assert(fs.take(fs.len() as int) =~= fs);
    assert forall|x: I| h0.contains_key(x) implies #[trigger] dn(g, x) && sp(g, x) by { assert(mark(h0, g, fs, fs.len() as int, NONE, 0, x)); lemma_tri(h0, o.v(), o.f(), x); }
    assert forall|x: I| h0.contains_key(x) implies #[trigger] dn(g, x) by { assert(sp(g, x) || !sp(g, x)); }
    assert(O =~= Set::<I>::empty()) by { assert forall|x: I| !O.contains(x) by { assert(open_at(h0, g, O, x)); if O.contains(x) { lemma_tri(h0, o.v(), o.f(), x); assert(dn(g, h0[x].twin)); } } }
    lemma_sub_wf(h0, o.v(), o.f(), m.h(), m.v(), m.f(), g, ip);
    assert(subdivided(o, m, ip, g));
}
/// the half-edges that start in a vertex
spec fn starts(h: HMap, z: I, y: I) -> bool { h.contains_key(y) && h[y].origin_id == z }
/// every vertex there was keeps its payload and exactly the half-edges that started in it, so its valency
proof fn lemma_valency(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, ip: Interp, z: I, y: I)
    requires o.valid(), triangles(o.h()), sub_of(o, m, ip), o.v().contains_key(z),
    ensures starts(m.h(), z, y) <==> starts(o.h(), z, y), m.v().contains_key(z), m.v()[z] == o.v()[z],
{
    let g = choose|g: Sub| #[trigger] subdivided(o, m, ip, g);
    let h0 = o.h();
    if h0.contains_key(y) { lemma_done_at(h0, o.v(), o.f(), m.h(), m.v(), m.f(), g, ip, y); }
    if g.own.contains_key(y) {
        assert(owned(h0, g, y));
        let (x, k) = g.own[y];
        lemma_tri(h0, o.v(), o.f(), x);
        lemma_done_at(h0, o.v(), o.f(), m.h(), m.v(), m.f(), g, ip, x);
        lemma_done_at(h0, o.v(), o.f(), m.h(), m.v(), m.f(), g, ip, h0[x].prev);
    }
    assert(m.v()[z] == o.v()[z]);
}
/// different edges have different middles
proof fn lemma_mid_inj(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, ip: Interp, g: Sub, x: I, b: I)
    requires o.valid(), triangles(o.h()), subdivided(o, m, ip, g), o.h().contains_key(x), o.h().contains_key(b), g.mid[x] == g.mid[b],
    ensures b == x || b == o.h()[x].twin,
{
    let h0 = o.h();
    lemma_tri(h0, o.v(), o.f(), x); lemma_tri(h0, o.v(), o.f(), b);
    assert(dn(g, x)); assert(dn(g, b));
    assert(at(h0, m.h(), g, x)); assert(at(h0, m.h(), g, b));
    assert(vat(h0, g, b)); assert(vat(h0, g, x));
}
/// and every vertex added has six half-edges, the four halves and cuts at the middle of an edge and two more: those of the two triangles at the edge
proof fn lemma_six(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, ip: Interp, g: Sub, x: I, y: I)
    requires o.valid(), triangles(o.h()), subdivided(o, m, ip, g), o.h().contains_key(x),
    ensures ({ let t = o.h()[x].twin; let n = o.h()[x].next; let tn = o.h()[t].next;
        starts(m.h(), g.mid[x], y) <==> y == g.sec[x] || y == g.sec[t] || y == g.i1[x] || y == g.i1[t] || y == g.i2[n] || y == g.i2[tn] }),
        !o.v().contains_key(g.mid[x]) && m.v().contains_key(g.mid[x]) && g.mid[o.h()[x].twin] == g.mid[x],
{
    let h0 = o.h(); let t = h0[x].twin; let n = h0[x].next; let tn = h0[t].next;
    lemma_tri(h0, o.v(), o.f(), x); lemma_tri(h0, o.v(), o.f(), t); lemma_tri(h0, o.v(), o.f(), n); lemma_tri(h0, o.v(), o.f(), tn);
    lemma_done_at(h0, o.v(), o.f(), m.h(), m.v(), m.f(), g, ip, x); lemma_done_at(h0, o.v(), o.f(), m.h(), m.v(), m.f(), g, ip, t);
    lemma_done_at(h0, o.v(), o.f(), m.h(), m.v(), m.f(), g, ip, n); lemma_done_at(h0, o.v(), o.f(), m.h(), m.v(), m.f(), g, ip, tn);
    assert(m.h().contains_key(y) ==> h0.contains_key(y) || g.own.contains_key(y));
    if h0.contains_key(y) { lemma_done_at(h0, o.v(), o.f(), m.h(), m.v(), m.f(), g, ip, y); }
    if g.own.contains_key(y) {
        assert(owned(h0, g, y));
        let (b, k) = g.own[y];
        lemma_tri(h0, o.v(), o.f(), b);
        let c = h0[b].prev;
        lemma_done_at(h0, o.v(), o.f(), m.h(), m.v(), m.f(), g, ip, b);
        lemma_tri(h0, o.v(), o.f(), c);
        lemma_done_at(h0, o.v(), o.f(), m.h(), m.v(), m.f(), g, ip, c);
        if k == 3 { if g.mid[c] == g.mid[x] { lemma_mid_inj(o, m, ip, g, x, c); assert(y == g.i2[b] && h0[c].next == b); } }
        else if g.mid[b] == g.mid[x] { lemma_mid_inj(o, m, ip, g, x, b); }
    }
}
impl Interp {
    #[verifier::external_body]
    fn call(&self, mesh: &HalfEdgeMeshImpl, vertices: [(usize, I); 3]) -> (r: VP)
        requires forall|j: int| 0 <= j < 3 ==> mesh.v().contains_key((#[trigger] vertices@[j]).1),
        ensures r == mix(*self, seq![(vertices@[0].0, mesh.v()[vertices@[0].1].payload), (vertices@[1].0, mesh.v()[vertices@[1].1].payload), (vertices@[2].0, mesh.v()[vertices@[2].1].payload)]),
    { unimplemented!() }
}
impl Copy for FP {}
impl Clone for FP { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// the half-edges and corners that were noted down before triangle a was changed
spec fn noted(h0: HMap, a: I, es: Seq<HalfEdgeImpl>, vs: Seq<I>) -> bool {
    let b = h0[a].next; let c = h0[a].prev;
    &&& es.len() == 3 && vs.len() == 3 && es[0].id == a && es[1].id == b && es[2].id == c && es[0].next == b && es[1].next == c && es[2].next == a
    &&& es[0].origin_id == h0[a].origin_id && es[1].origin_id == h0[b].origin_id && es[2].origin_id == h0[c].origin_id
    &&& vs[0] == h0[a].origin_id && vs[1] == h0[b].origin_id && vs[2] == h0[c].origin_id
}
/// a closed mesh of triangles, with room for what is added
spec fn sub_ok(o: HalfEdgeMeshImpl) -> bool {
    &&& o.valid() && triangles(o.h())
    &&& room_e(o, 9 * o.faces.in_use()) && room_v(o, 3 * o.faces.in_use()) && room_f(o, 3 * o.faces.in_use())
}
spec fn sub_pre(o: HalfEdgeMeshImpl, fs: Seq<I>) -> bool { sub_ok(o) && all_faces(o, fs) }
/// what a fixed half-edge leaves behind
spec fn fix_post(m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, e: I, ne: I) -> bool {
    n.inv() && n.clean() && n.vertices == m.vertices && n.faces == m.faces && n.payload == m.payload && n.h() =~= fixed_h(m.h(), e, ne, spoke(m.h(), e, 2), ep_default())
}
proof fn lemma_try(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, ip: Interp, fs: Seq<I>, k: int, a: I, i: int)
    requires sub_pre(o, fs), mid_state(o, m, ip, fs, k, a, i), 0 <= k < fs.len(), 0 <= i < 3, a == o.f()[fs[k]].edge,
    ensures ({ let h = m.h(); let e = side(o.h(), a, i); let t = h[e].twin;
        &&& m.inv() && m.clean() && links(h) && h.contains_key(e) && h.contains_key(t) && t != e && t != NONE && room_e(m, 1) && room_v(m, 1)
        &&& (exists|j: nat| #[trigger] walk_ends(h, e, j))
        &&& halved_at(h, e, 2) || exists|j: nat| #[trigger] whole_at(h, e, j)
        &&& halved_at(h, e, 2) ==> forall|n: HalfEdgeMeshImpl, ne: I| #[trigger] grown(m, n, 1, 0, 0) && #[trigger] fresh1(h, ne) && fix_post(m, n, e, ne) ==> mid_state(o, n, ip, fs, k, a, i + 1)
        &&& o.h().contains_key(a) && rep(o.h(), o.f(), a) == a && tri_kept(o, m, a) }),
        forall|j: nat| #[trigger] whole_at(m.h(), side(o.h(), a, i), j) ==> untwinned(o, m, ip, fs, k, a, i),
{
    let (g, O) = choose|g: Sub, O: Set<I>| #[trigger] mid_inv(o, m, ip, fs, k, a, i, g, O);
    let h0 = o.h(); let h = m.h(); let e = side(h0, a, i); let t = h0[e].twin;
    lemma_next_side(o, m, ip, fs, k, a, i, g, O);
    lemma_sub_links(h0, o.v(), o.f(), h, g);
    lemma_one_walk(h, e);
    lemma_tri(h0, o.v(), o.f(), a);
    let b = h0[a].next; let c = h0[a].prev;
    assert(at(h0, h, g, a)); assert(at(h0, h, g, b)); assert(at(h0, h, g, c)); assert(at(h0, h, g, t)); assert(link_ok(h0, e));
    lemma_tri(h0, o.v(), o.f(), b); lemma_tri(h0, o.v(), o.f(), c); lemma_tri(h0, o.v(), o.f(), t); lemma_tri(h0, o.v(), o.f(), e);
    assert(edge_ok(h0, o.v(), o.f(), t));
    if dn(g, t) {
        lemma_walk_fix(h0, o.v(), o.f(), h, g, e);
        assert forall|n: HalfEdgeMeshImpl, ne: I| #[trigger] grown(m, n, 1, 0, 0) && #[trigger] fresh1(h, ne) && fix_post(m, n, e, ne) implies mid_state(o, n, ip, fs, k, a, i + 1) by {
            lemma_mid_fix(o, m, n, ip, fs, k, a, i, g, O, ne); }
    } else {
        assert forall|x: I| #[trigger] at(h0, h, g, x) && sp(g, x) && h0.contains_key(x) implies !o.v().contains_key(g.mid[x]) by { assert(vat(h0, g, x)); assert(vowned(h0, o.v(), o.f(), m.v(), g, ip, g.mid[x])); }
        lemma_walk_new(o, h, g, e);
        assert(untw(o, m, ip, fs, k, a, i, g, O));
    }
}
spec fn untw(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, ip: Interp, fs: Seq<I>, k: int, a: I, i: int, g: Sub, O: Set<I>) -> bool {
    mid_inv(o, m, ip, fs, k, a, i, g, O) && !dn(g, o.h()[side(o.h(), a, i)].twin)
}
spec fn untwinned(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, ip: Interp, fs: Seq<I>, k: int, a: I, i: int) -> bool { exists|g: Sub, O: Set<I>| #[trigger] untw(o, m, ip, fs, k, a, i, g, O) }
/// the corners of triangle a are where they were
spec fn tri_kept(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, a: I) -> bool {
    let h0 = o.h(); let b = h0[a].next; let c = h0[a].prev; let h = m.h(); let (x, y, z) = (h0[a].origin_id, h0[b].origin_id, h0[c].origin_id);
    &&& h.contains_key(a) && h.contains_key(b) && h.contains_key(c) && h[a].origin_id == x && h[b].origin_id == y && h[c].origin_id == z
    &&& m.v().contains_key(x) && m.v().contains_key(y) && m.v().contains_key(z) && m.v()[x] == o.v()[x] && m.v()[y] == o.v()[y] && m.v()[z] == o.v()[z]
}
proof fn lemma_untwinned(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, ip: Interp, fs: Seq<I>, k: int, a: I, i: int, ne: I, y: I)
    requires sub_pre(o, fs), untwinned(o, m, ip, fs, k, a, i), 0 <= k < fs.len(), 0 <= i < 3, a == o.f()[fs[k]].edge,
        n.inv(), n.clean(), n.faces == m.faces, n.payload == m.payload, grown(m, n, 1, 1, 0), fresh1(m.h(), ne), fresh1(m.v(), y),
        ({ let e = side(o.h(), a, i); n.h() =~= split_h(m.h(), e, ne, m.h()[e].twin, y, ep_default()) && n.v() =~= m.v().insert(y, mkv(y, ne, blend(o.h(), o.v(), o.f(), ip, e))) }),
    ensures mid_state(o, n, ip, fs, k, a, i + 1),
{
    let (g, O) = choose|g: Sub, O: Set<I>| #[trigger] untw(o, m, ip, fs, k, a, i, g, O);
    lemma_mid_new(o, m, n, ip, fs, k, a, i, g, O, ne, y);
}
impl HalfEdgeMeshImpl {
//@fn src/operations/subdivision.rs trait MeshSubdivision :: loop_subdivision
//@recv &mut self
//@param vp_builder: &Interp
//@ret r
        requires sub_ok(*old(self)),
        ensures *final(r) == *final(self), sub_of(*old(self), *r, *vp_builder), r.valid(), triangles(r.h()), r.payload == old(self).payload,
            r.halfedges.in_use() == old(self).halfedges.in_use() + 9 * old(self).faces.in_use(), r.faces.in_use() == 4 * old(self).faces.in_use(),
            2 * (r.vertices.in_use() - old(self).vertices.in_use()) == 3 * old(self).faces.in_use(),
//@pre
        let ghost o = *self; let ghost h0 = o.h(); let ghost ip = *vp_builder; let ghost fs0 = face_ids(o); let ghost all = live_seq::<HalfEdgeFaceImpl, I>(o.faces.data@);
        let ghost mut gj = 0int; let ghost mut k = 0int; let ghost mut a: I = NONE; let ghost mut sd = Seq::<I>::empty(); let ghost mut S = Seq::<I>::empty(); let ghost mut g2 = 0int;
        let ghost mut P = Seq::<I>::empty(); let ghost mut Q = Seq::<I>::empty(); let ghost mut F = Seq::<I>::empty();
        let ghost mut m1 = *self; let ghost mut m2 = *self; let ghost mut m4 = *self; let ghost mut m5 = *self; let ghost mut h1 = self.h(); let ghost mut f1 = self.f(); let ghost mut g: Sub = arbitrary(); let ghost mut O = Set::<I>::empty(); let ghost mut p: I = NONE; let ghost mut q: I = NONE; let ghost mut h7 = self.h(); let ghost mut x: I = NONE;
        proof { lemma_all_faces(o); lemma_sub_start(o, ip, fs0); }
//@loop 0
            invariant 0 <= gj <= all.len(), refs(it_0.rest()) == all.skip(gj), res_0@ == fs0.take(gj), all == live_seq::<HalfEdgeFaceImpl, I>(o.faces.data@), fs0 == face_ids(o), all.len() == fs0.len(),
            ensures gj == all.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof { if gj < all.len() { assert(all.skip(gj)[0] == all[gj]); assert(refs(it_0.rest()).len() == all.len() - gj); assert(it_0.rest().len() == all.len() - gj); assert(refs(it_0.rest())[0] == *it_0.rest()[0]); assert(refs(it_0.rest()).drop_first() =~= refs(it_0.rest().drop_first())); assert(all.skip(gj).drop_first() =~= all.skip(gj + 1));
                assert(fs0.take(gj + 1) =~= fs0.take(gj).push(fs0[gj])); assert(fs0[gj] == all[gj].id); } else { assert(refs(it_0.rest()).len() == 0); } }
//@lend 0
            proof { gj = gj + 1; }
//@loop 1
            invariant v_1@ == fs0, 0 <= i_1 <= fs0.len(), mid_state(o, *self, ip, fs0, i_1 as int, NONE, 0), o == *old(self), h0 == o.h(), ip == *vp_builder, sub_pre(o, fs0), fs0 == face_ids(o),
            ensures i_1 == fs0.len(),
            decreases fs0.len() - i_1,
//@lstart 1
            proof {
                k = i_1 as int; a = o.f()[fs0[k]].edge; sd = sides(h0, a); g2 = 0; m1 = *self;
                lemma_hsmall(*self); lemma_face_start(o, *self, ip, fs0, k, hsize(*self));
                assert(self.inv() && self.clean()) by { let (gg, OO) = choose|gg: Sub, OO: Set<I>| #[trigger] mid_inv(o, *self, ip, fs0, k, a, 0, gg, OO); }
                assert(sd.skip(0) =~= sd); assert(elems(self.h(), sd).skip(0) =~= elems(self.h(), sd));
            }
//@loop 2
            invariant 0 <= g2 <= 3, it_2.inv(), *it_2.mesh == *self, it_2.todo() == sd.skip(g2), it_2.rest() == elems(self.h(), sd).skip(g2), res_2@ == elems(self.h(), sd).take(g2), sd == sides(h0, a), *self == m1, links(self.h()),
                forall|j: int| 0 <= j < 3 ==> self.h().contains_key(#[trigger] sd[j]),
            ensures g2 == 3,
            decreases it_2.todo().len(),
//@lstart 2
            proof { let es = elems(self.h(), sd); if g2 < 3 { assert(sd.skip(g2)[0] == sd[g2]); assert(sd.skip(g2).drop_first() =~= sd.skip(g2 + 1)); assert(es.skip(g2)[0] == es[g2]); assert(es.skip(g2).drop_first() =~= es.skip(g2 + 1));
                assert(es.take(g2 + 1) =~= es.take(g2).push(es[g2])); } }
//@lend 2
            proof { g2 = g2 + 1; }
//@loop 3
            invariant 0 <= i_3 <= v_3@.len(), res_3@.len() == i_3, forall|j: int| 0 <= j < i_3 ==> res_3@[j] == (#[trigger] v_3@[j]).origin_id,
            decreases v_3@.len() - i_3,
//@beforecall rt_assert 0
            proof { assert(edges@ =~= elems(m1.h(), sd)); assert(edges@[0] == m1.h()[sd[0]] && edges@[1] == m1.h()[sd[1]] && edges@[2] == m1.h()[sd[2]]); assert(vs@[0] == edges@[0].origin_id && vs@[1] == edges@[1].origin_id && vs@[2] == edges@[2].origin_id);
                assert(pn(0, 3) == 1 && pn(1, 3) == 2 && pn(2, 3) == 0); assert(noted(h0, a, edges@, vs@)); }
//@loop 4
            invariant 0 <= i_4 <= 3, end_4 == 3, mid_state(o, *self, ip, fs0, k, a, i_4 as int), noted(h0, a, edges@, vs@), h0 == o.h(), ip == *vp_builder, sub_pre(o, fs0), 0 <= k < fs0.len(), a == o.f()[fs0[k]].edge,
            ensures i_4 == 3,
            decreases 3 - i_4,
//@lstart 4
            let ghost i0 = i_4 as int; let ghost e0 = side(h0, a, i0);
            proof { m1 = *self; lemma_try(o, m1, ip, fs0, k, a, i0); lemma_one_walk(m1.h(), e0); }
//@beforecall call 0
            proof { assert(*self == m1); assert(untwinned(o, m1, ip, fs0, k, a, i0)); }
//@aftercall call 0
            proof { lemma_blend(o, a, i0); assert(vp == blend(h0, o.v(), o.f(), ip, e0)); }
//@aftercall subdivide_unsafe 0
            proof {
                let ne = choose|ne: I| #[trigger] fresh1(m1.h(), ne) && fresh1(m1.v(), self.h()[ne].origin_id) && self.h() =~= split_h(m1.h(), e0, ne, m1.h()[e0].twin, self.h()[ne].origin_id, ep_default())
                    && self.v() =~= m1.v().insert(self.h()[ne].origin_id, mkv(self.h()[ne].origin_id, ne, vp));
                lemma_untwinned(o, m1, *self, ip, fs0, k, a, i0, ne, self.h()[ne].origin_id);
            }
//@beforecall remove_face 0
            proof {
                m2 = *self;
                let (gg, OO) = choose|gg: Sub, OO: Set<I>| #[trigger] mid_inv(o, *self, ip, fs0, k, a, 3, gg, OO);
                g = gg; O = OO;
                lemma_side_facts(o, m2, ip, fs0, k, a, g, O); lemma_sub_links(h0, o.v(), o.f(), m2.h(), g); lemma_orgs(h0, o.v(), o.f(), m2.h(), m2.v(), g, ip);
                lemma_hsmall(m2); lemma_hexa(h0, o.v(), o.f(), m2.h(), g, a, hsize(m2));
            }
//@aftercall remove_face 0
            proof {
                h1 = self.h(); f1 = self.f(); P = Seq::empty(); Q = Seq::empty(); F = Seq::empty(); S = halves(h0, g, a);
                lemma_orgs_set(m2.h(), m2.v(), orbit(nmap(m2.h()), a), NONE);
            }
//@loop 5
            invariant 0 <= i_5 <= 3, v_5@ == edges@, noted(h0, a, edges@, vs@), cut_inv(h1, f1, sd, P, Q, F, fp, i_5 as int, self.h(), self.f()), self.inv(), self.clean(), self.vertices == m2.vertices, self.payload == m2.payload, orgs(self.h(), self.v()),
                grown(m2, *self, 2 * i_5, 0, i_5 - 1), links(h1), hexa(h1, sd, S), sd == sides(h0, a), h0 == o.h(), sub_pre(o, fs0), 0 <= k < fs0.len(), mid_inv(o, m2, ip, fs0, k, a, 3, g, O),
            ensures i_5 == 3,
            decreases 3 - i_5,
//@lstart 5
            proof {
                h7 = self.h(); x = sd[i_5 as int]; m4 = *self; lemma_left(h1, sd, S, P, Q, F, i_5 as int);
                let b = h7[x].prev; let oo = h7[b].prev; assert(link_ok(h7, x)); assert(link_ok(h7, oo)); assert(org(h7, self.v(), h7[x].next)); assert(org(h7, self.v(), h7[oo].next));
            }
//@aftercall insert_edge_no_check 0
            proof {
                let oo = h7[h7[x].prev].prev;
                let (pp, qq) = choose|pp: I, qq: I| #[trigger] fresh2(h7, pp, qq) && self.h() =~= bridged(h7, x, oo, pp, qq, ep_default(), ep_default());
                p = pp; q = qq; m5 = *self; lemma_bridge_links(h7, x, p, q);
            }
//@aftercall close_hole 0
            proof {
                let c = choose|c: I| #[trigger] fresh1(m5.f(), c) && self.f() =~= m5.f().insert(c, mkf(c, x, false, fp)) && self.h() =~= faces_set(m5.h(), orbit(nmap(m5.h()), x), c);
                lemma_hsmall(m5); lemma_cut(h7, hsize(m5), x, p, q, c); lemma_cut_step(h1, f1, sd, P, Q, F, fp, i_5 - 1, h7, m4.f(), p, q, c); lemma_orgs_cut(h7, self.v(), x, p, q, c);
                P = P.push(p); Q = Q.push(q); F = F.push(c);
            }
//@beforecall close_hole 1
            let ghost size = if hsize(m2) < hsize(*self) { hsize(*self) } else { hsize(m2) };
            proof { m4 = *self; lemma_hsmall(m2); lemma_hsmall(m4); lemma_side_facts(o, m2, ip, fs0, k, a, g, O); lemma_tri_done(h0, o.v(), o.f(), m2.h(), g, a, P, Q, F, NONE, size); }
//@aftercall close_hole 1
            proof {
                let c = choose|c: I| #[trigger] fresh1(m4.f(), c) && self.f() =~= m4.f().insert(c, mkf(c, Q[0], false, fp)) && self.h() =~= faces_set(m4.h(), orbit(nmap(m4.h()), Q[0]), c);
                lemma_face_end(o, m2, *self, ip, fs0, k, a, g, O, P, Q, F, c, m4.h(), m4.f(), size);
            }
//@after 1
        proof { lemma_sub_end(o, *self, ip, fs0); }
//@endfn
}
proof fn lemma_blend(o: HalfEdgeMeshImpl, a: I, i: int)
    requires wf(o.h(), o.v(), o.f()), triangles(o.h()), o.h().contains_key(a), rep(o.h(), o.f(), a) == a, 0 <= i < 3,
    ensures rep(o.h(), o.f(), side(o.h(), a, i)) == a, tgt(o.h(), side(o.h(), a, i)) == o.h()[o.h()[side(o.h(), a, i)].next].origin_id,
        o.h()[o.h()[a].next].next == o.h()[a].prev, o.h()[o.h()[a].prev].next == a,
{ lemma_tri(o.h(), o.v(), o.f(), a); }
/// m is o divided k times
spec fn sub_times(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, ip: Interp, k: nat) -> bool
    decreases k,
{ if k == 0 { m == o } else { exists|x: HalfEdgeMeshImpl| #[trigger] sub_of(x, m, ip) && sub_times(o, x, ip, (k - 1) as nat) } }
spec fn two(k: nat) -> nat
    decreases k,
{ if k == 0 { 1 } else { 2 * two((k - 1) as nat) } }
spec fn four(k: nat) -> nat
    decreases k,
{ if k == 0 { 1 } else { 4 * four((k - 1) as nat) } }
proof fn lemma_two_four(k: nat)
    ensures two(k) >= 1, four(k) >= 1, two(k) * two(k) == four(k), forall|j: nat| j <= k ==> #[trigger] four(j) <= four(k),
    decreases k,
{
    if k > 0 { lemma_two_four((k - 1) as nat); let t = two((k - 1) as nat); assert((2 * t) * (2 * t) == 4 * (t * t)) by (nonlinear_arith);
        assert forall|j: nat| j <= k implies #[trigger] four(j) <= four(k) by { if j < k { assert(four(j) <= four((k - 1) as nat)); } } }
}
/// a power of two shares no bit with its predecessor
proof fn lemma_bits(k: nat, b: usize)
    requires b == two(k),
    ensures b >= 1, b & sub(b, 1) == 0,
    decreases k,
{
    if k == 0 { assert(1usize & 0usize == 0) by (bit_vector); }
    else {
        lemma_two_four((k - 1) as nat);
        let c = (b / 2) as usize;
        assert(c == two((k - 1) as nat));
        lemma_bits((k - 1) as nat, c);
        assert(b == c + c);
        assert(b & sub(b, 1) == 0) by (bit_vector) requires c >= 1, c & sub(c, 1) == 0, b == add(c, c), b >= c;
    }
}
/// room for n faces becoming n * f
spec fn freq_ok(o: HalfEdgeMeshImpl, f: int) -> bool {
    let n = o.faces.in_use() as int;
    &&& o.valid() && triangles(o.h())
    &&& o.halfedges.in_use() + 3 * (n * f) <= I::maxv() && o.vertices.in_use() + 3 * (n * f) <= I::maxv() && n * f <= I::maxv()
}
spec fn freq_at(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, ip: Interp, j: nat) -> bool {
    let n = o.faces.in_use() as int;
    &&& sub_times(o, m, ip, j) && m.valid() && triangles(m.h()) && m.payload == o.payload
    &&& m.faces.in_use() == n * four(j) && m.halfedges.in_use() == o.halfedges.in_use() + 3 * (n * four(j)) - 3 * n && 2 * (m.vertices.in_use() - o.vertices.in_use()) == n * four(j) - n
}
proof fn lemma_freq_room(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, ip: Interp, j: nat, k: nat)
    requires freq_at(o, m, ip, j), j < k, freq_ok(o, four(k) as int),
    ensures sub_ok(m),
{
    lemma_two_four(k); let n = o.faces.in_use() as int; lemma_all_faces(o); lemma_two_four(j);
    assert(n * four(j) >= 0) by (nonlinear_arith) requires n >= 0, four(j) >= 0;
    assert(four(j + 1) == 4 * four(j));
    assert(four(j + 1) <= four(k));
    assert(n * four(j + 1) <= n * four(k)) by (nonlinear_arith) requires four(j + 1) <= four(k), n >= 0;
    assert(n * four(j + 1) == 4 * (n * four(j))) by (nonlinear_arith) requires four(j + 1) == 4 * four(j);
}
proof fn lemma_freq_step(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, m2: HalfEdgeMeshImpl, ip: Interp, j: nat)
    requires freq_at(o, m, ip, j), sub_of(m, m2, ip), m2.valid(), triangles(m2.h()), m2.payload == m.payload,
        m2.halfedges.in_use() == m.halfedges.in_use() + 9 * m.faces.in_use(), m2.faces.in_use() == 4 * m.faces.in_use(), 2 * (m2.vertices.in_use() - m.vertices.in_use()) == 3 * m.faces.in_use(),
    ensures freq_at(o, m2, ip, j + 1),
{
    let n = o.faces.in_use() as int;
    assert(four(j + 1) == 4 * four(j));
    assert(n * four(j + 1) == 4 * (n * four(j))) by (nonlinear_arith) requires four(j + 1) == 4 * four(j);
    assert(sub_times(o, m, ip, ((j + 1) - 1) as nat) && sub_of(m, m2, ip));
    assert(sub_times(o, m2, ip, j + 1));
    assert(m2.faces.in_use() == n * four(j + 1)); assert(m2.halfedges.in_use() == o.halfedges.in_use() + 3 * (n * four(j + 1)) - 3 * n); assert(2 * (m2.vertices.in_use() - o.vertices.in_use()) == n * four(j + 1) - n);
}
impl HalfEdgeMeshImpl {
//@fn src/operations/subdivision.rs trait MeshSubdivision :: subdivision_frequency
//@recv &mut self
//@param vp_builder: Interp
//@ret r
        requires des.c == 0, exists|k: nat| des.b == #[trigger] two(k), freq_ok(*old(self), des.b * des.b),
        ensures *final(r) == *final(self), forall|k: nat| des.b == #[trigger] two(k) ==> freq_at(*old(self), *r, vp_builder, k),
//@pre
        let ghost o = *self; let ghost K = choose|k: nat| des.b == #[trigger] two(k); let ghost mut j = 0nat; let ghost mut m = *self;
        proof { lemma_two_four(K); lemma_bits(K, des.b); lemma_two_inj(K, des.b as int); assert(four(0) == 1); assert(freq_at(o, o, vp_builder, 0)); }
//@loop 0
            invariant o == *old(self), freq_at(o, *self, vp_builder, j), j <= K, b == two((K - j) as nat), freq_ok(o, four(K) as int), des.b == two(K),
            ensures b <= 1,
            decreases b,
//@lstart 0
            proof { m = *self; lemma_two_four((K - j) as nat); lemma_freq_room(o, m, vp_builder, j, K); }
//@aftercall loop_subdivision 0
            proof { lemma_freq_step(o, m, *self, vp_builder, j); }
//@lend 0
            proof { j = j + 1; }
//@after 0
        proof { lemma_two_four((K - j) as nat); if j < K { lemma_two_four((K - j - 1) as nat); } assert(j == K); lemma_two_inj(K, des.b as int); }
//@endfn
}
proof fn lemma_two_inj(k: nat, b: int)
    requires b == two(k),
    ensures forall|l: nat| b == #[trigger] two(l) ==> l == k,
    decreases k,
{
    assert forall|l: nat| b == #[trigger] two(l) implies l == k by {
        if l > 0 && k > 0 { lemma_two_four((k - 1) as nat); lemma_two_inj((k - 1) as nat, b / 2); assert(b / 2 == two((l - 1) as nat)); }
        else { if l > 0 { lemma_two_four((l - 1) as nat); } if k > 0 { lemma_two_four((k - 1) as nat); } }
    }
}
