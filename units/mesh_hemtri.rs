// Lofting a hole with one new vertex per vertex of the hole: a hem of triangles.

/// on half-edge s[i] stands a new triangle with its tip at x
spec fn tri_at(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, s: Seq<I>, i: int, x: I) -> bool {
    let e = s[i]; let a = n.h()[e].next; let p = n.h()[e].prev; let F = n.h()[e].face;
    &&& n.h().contains_key(e) && n.h().contains_key(a) && n.h().contains_key(p) && n.h()[a].next == p && n.h()[p].next == e
    &&& n.h()[p].origin_id == x && !o.h().contains_key(a) && !o.h().contains_key(p)
    &&& n.h()[a].face == F && n.h()[p].face == F && fresh1(o.f(), F) && n.f().contains_key(F)
}
/// on the other side of t hangs a new triangle, from y and x down to the vertex v
spec fn tip_at(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, t: I, x: I, y: I, v: I) -> bool {
    let e = n.h()[t].twin; let a = n.h()[e].next; let p = n.h()[e].prev; let F = n.h()[e].face;
    &&& n.h().contains_key(t) && n.h().contains_key(e) && n.h().contains_key(a) && n.h().contains_key(p) && n.h()[a].next == p && n.h()[p].next == e
    &&& n.h()[e].origin_id == y && n.h()[a].origin_id == x && n.h()[p].origin_id == v && !o.h().contains_key(e) && !o.h().contains_key(a) && !o.h().contains_key(p)
    &&& n.h()[a].face == F && n.h()[p].face == F && fresh1(o.f(), F) && n.f().contains_key(F)
}
/// the tip between the i-th and the next new vertex
spec fn tips_at(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, s: Seq<I>, T: Seq<I>, xs: Seq<I>, i: int) -> bool {
    tip_at(o, n, T[i], xs[i], xs[wrap(i + 1, s.len() as int)], o.h()[s[wrap(i + 1, s.len() as int)]].origin_id)
}
/// the hole s is surrounded by new triangles: one standing on each half-edge with the tip ys[i], and one hanging from each half-edge of the new hole t
spec fn hem3(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, s: Seq<I>, ys: Seq<I>, t: Seq<I>, ps: Seq<VP>) -> bool {
    &&& swapped(o, n, s, t) && ring(n.h(), t) && t.len() == s.len() && ys.len() == s.len() && new_vs(o, n, ys, ps)
    &&& forall|i: int| 0 <= i < t.len() ==> n.h()[#[trigger] t[i]].origin_id == ys[i]
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] tri_at(o, n, s, i, ys[i])
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] tips_at(o, n, s, t, ys, i)
}
/// the first c + 1 new vertices are there, with c triangles standing and c hanging: the hole is [way down, rest of b, way up] + top
#[verifier::opaque]
spec fn half_state(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, b: Seq<I>, c: int, xs: Seq<I>, q: I, T: Seq<I>, w: I, z: I, ps: Seq<VP>) -> bool {
    let k = b.len() as int; let g = hring(b, c, q, T, w);
    &&& 0 <= c < k && m.valid() && ring(m.h(), g) && swapped(o, m, b, g) && grown(o, m, 6 * c + 2, c + 1, 2 * c)
    &&& xs.len() == c + 1 && T.len() == c && new_vs(o, m, xs, ps.take(c + 1))
    &&& m.h()[w].origin_id == xs[c] && m.h()[q].origin_id == o.h()[b[0]].origin_id && m.h().contains_key(z) && m.h()[z].twin == q && m.h()[q].twin == z && !o.h().contains_key(q) && !o.h().contains_key(w)
    &&& c > 0 ==> m.h()[T[0]].origin_id == xs[0]
    &&& forall|i: int| 0 <= i < c ==> m.h()[#[trigger] T[i]].origin_id == xs[i]
    &&& forall|i: int| 0 <= i < c ==> #[trigger] tri_at(o, m, b, i, xs[i])
    &&& forall|i: int| 0 <= i < c ==> #[trigger] tips_at(o, m, b, T, xs, i)
}
spec fn hring(b: Seq<I>, c: int, q: I, T: Seq<I>, w: I) -> Seq<I> { seq![w] + b.skip(c) + seq![q] + T }
/// one more triangle stands than hangs
#[verifier::opaque]
spec fn full_state(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, b: Seq<I>, c: int, xs: Seq<I>, q: I, T: Seq<I>, w: I, z: I, ps: Seq<VP>) -> bool {
    let k = b.len() as int; let g = fring(b, c, q, T, w);
    &&& 1 <= c <= k && m.valid() && ring(m.h(), g) && swapped(o, m, b, g) && grown(o, m, 6 * c - 2, c, 2 * c - 1)
    &&& xs.len() == c && T.len() == c - 1 && new_vs(o, m, xs, ps.take(c))
    &&& m.h()[w].origin_id == xs[c - 1] && m.h()[q].origin_id == o.h()[b[0]].origin_id && m.h().contains_key(z) && m.h()[z].twin == q && m.h()[q].twin == z && !o.h().contains_key(q) && !o.h().contains_key(w)
    &&& c > 1 ==> m.h()[T[0]].origin_id == xs[0]
    &&& forall|i: int| 0 <= i < c - 1 ==> m.h()[#[trigger] T[i]].origin_id == xs[i]
    &&& forall|i: int| 0 <= i < c ==> #[trigger] tri_at(o, m, b, i, xs[i])
    &&& forall|i: int| 0 <= i < c - 1 ==> #[trigger] tips_at(o, m, b, T, xs, i)
}
proof fn lemma_half_start(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, b: Seq<I>, r: (I, I, I), ps: Seq<VP>)
    requires o.valid(), m.valid(), ring(o.h(), b), hung(o, m, b, r, ps[0]), grown(o, m, 2, 1, 0), ps.len() == b.len(),
    ensures half_state(o, m, b, 0, seq![r.0], r.1, Seq::empty(), r.2, r.2, ps),
{
    reveal(half_state);
    let u = b.push(r.1).push(r.2); let g = hring(b, 0, r.1, Seq::empty(), r.2);
    lemma_rot(m.h(), u, u.len() - 1);
    assert(g =~= rot(u, u.len() - 1));
    lemma_swapped_members(o, m, b, u, b, g);
    assert(new_vs(o, o, Seq::<I>::empty(), Seq::<VP>::empty()));
    lemma_new_vs_push(o, o, m, Seq::<I>::empty(), Seq::<VP>::empty(), r.0, r.2, ps[0]);
    assert(Seq::<I>::empty().push(r.0) =~= seq![r.0]);
    assert(Seq::<VP>::empty().push(ps[0]) =~= ps.take(1));
    assert(ring_at(m.h(), g, 0)); assert(g[0] == r.2);
}
/// the end of the top when looked at from below
spec fn top_end(q: I, T: Seq<I>) -> I { if T.len() > 0 { T.last() } else { q } }
spec fn low_rest(b: Seq<I>, c: int, q: I, T: Seq<I>) -> Seq<I> { b.skip(c + 1) + seq![q] + T }
proof fn lemma_half_head(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, b: Seq<I>, c: int, xs: Seq<I>, q: I, T: Seq<I>, w: I, z: I, ps: Seq<VP>)
    requires half_state(o, m, b, c, xs, q, T, w, z, ps), o.valid(), ring(o.h(), b), b.len() >= 2,
    ensures ({ let rest = low_rest(b, c, q, T); let seg = seq![w, b[c]];
        &&& 0 <= c < b.len() && m.valid() && grown(o, m, 6 * c + 2, c + 1, 2 * c) && T.len() == c && xs.len() == c + 1
        &&& m.h().contains_key(b[c]) && m.h().contains_key(w) && m.h().contains_key(q) && m.h()[b[c]].prev == w && m.h()[b[c]].next == rest[0] && m.h()[w].prev == top_end(q, T) && m.h()[w].next == b[c]
        &&& m.h()[q].prev == b[b.len() - 1] && m.h().contains_key(b[b.len() - 1]) && m.h().contains_key(top_end(q, T))
        &&& seg + rest =~= hring(b, c, q, T, w) && ring(m.h(), seg + rest) && cappable(m.h(), seg, rest) && bridgeable(m.h(), b[c], top_end(q, T)) && rest.last() == top_end(q, T) && seg.last() == b[c]
        &&& rest[0] == (if c + 1 < b.len() { b[c + 1] } else { q }) && m.h().contains_key(z) && m.h()[z].twin == q
        &&& c + 1 == b.len() ==> b[b.len() - 1] == b[c] && m.h()[m.h()[b[b.len() - 1]].prev].prev == top_end(q, T)
    }),
{
    reveal(half_state);
    let k = b.len() as int; let g = hring(b, c, q, T, w); let n = g.len() as int; let rest = low_rest(b, c, q, T); let seg = seq![w, b[c]];
    assert(seg + rest =~= g); assert(seg + rest == g);
    lemma_swapped_keep(o, m, b, g);
    assert(g[0] == w && g[1] == b[c] && g[2] == rest[0] && g[n - 1] == top_end(q, T) && g[1 + (k - c)] == q && g[k - c] == b[k - 1]);
    assert(ring_at(m.h(), g, 0)); assert(ring_at(m.h(), g, 1)); assert(ring_at(m.h(), g, 2)); assert(ring_at(m.h(), g, n - 1)); assert(ring_at(m.h(), g, k - c)); assert(ring_at(m.h(), g, 1 + (k - c)));
    assert(ring_at(o.h(), b, 0));
    if c + 1 < k { assert(ring_at(o.h(), b, c + 1)); assert(edge_ok(o.h(), o.v(), o.f(), b[c + 1])); assert(m.h()[b[c + 1]].origin_id == o.h()[b[c + 1]].origin_id); } else { assert(edge_ok(o.h(), o.v(), o.f(), b[0])); }
    assert(o.v().contains_key(m.h()[rest[0]].origin_id));
    assert(fresh1(o.v(), xs[c]));
    lemma_cappable(m.h(), seg, rest);
}
proof fn lemma_tri_keep(o: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, s: Seq<I>, t: Seq<I>, u: Seq<I>, i: int, x: I)
    requires swapped(a, b, t, u), ring(a.h(), t), tri_at(o, a, s, i, x),
    ensures tri_at(o, b, s, i, x),
{
    lemma_swapped_keep(a, b, t, u);
}
proof fn lemma_tip_keep(o: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, t: Seq<I>, u: Seq<I>, e: I, x: I, y: I, v: I)
    requires swapped(a, b, t, u), ring(a.h(), t), tip_at(o, a, e, x, y, v),
    ensures tip_at(o, b, e, x, y, v),
{
    lemma_swapped_keep(a, b, t, u);
}
/// a triangle is closed on b[c]
proof fn lemma_low(o: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, b: Seq<I>, c: int, xs: Seq<I>, q: I, T: Seq<I>, w: I, z: I, ps: Seq<VP>, r: (I, I, I))
    requires half_state(o, a, b, c, xs, q, T, w, z, ps), o.valid(), ring(o.h(), b), b.len() >= 2, ps.len() == b.len(),
        n.valid(), n.vertices == a.vertices, n.payload == a.payload, grown(a, n, 2, 0, 1), face_closed(a, n, b[c], top_end(q, T), ep_default(), ep_default(), fp_default(), false, r),
    ensures full_state(o, n, b, c + 1, xs, q, T, r.2, z, ps), n.h().contains_key(top_end(q, T)), n.h()[top_end(q, T)].next == r.2,
{
    lemma_half_head(o, a, b, c, xs, q, T, w, z, ps);
    reveal(half_state); reveal(full_state);
    let k = b.len() as int; let g = hring(b, c, q, T, w); let rest = low_rest(b, c, q, T); let seg = seq![w, b[c]];
    assert(seg + rest == g);
    lemma_cap(a, n, seg, rest, r, fp_default(), false);
    let d = fring(b, c + 1, q, T, r.2);
    assert(d =~= rest.push(r.2));
    lemma_swapped_trans(o, a, n, b, g, d);
    lemma_swapped_keep(a, n, g, d);
    lemma_swapped_keep(o, a, b, g);
    let y = seg.push(r.1);
    assert(face_at(n.h(), y, r.0, 0)); assert(face_at(n.h(), y, r.0, 1)); assert(face_at(n.h(), y, r.0, 2));
    assert(y[0] == w && y[1] == b[c] && y[2] == r.1);
    assert(n.h()[w].origin_id == xs[c]);
    assert(tri_at(o, n, b, c, xs[c]));
    assert forall|i: int| 0 <= i < c + 1 implies #[trigger] tri_at(o, n, b, i, xs[i]) by { if i < c { assert(tri_at(o, a, b, i, xs[i])); lemma_tri_keep(o, a, n, b, g, d, i, xs[i]); } }
    assert forall|i: int| 0 <= i < c implies #[trigger] tips_at(o, n, b, T, xs, i) by { assert(tips_at(o, a, b, T, xs, i)); lemma_tip_keep(o, a, n, g, d, T[i], xs[i], xs[wrap(i + 1, k)], o.h()[b[wrap(i + 1, k)]].origin_id); }
    assert forall|i: int| 0 <= i < c implies n.h()[#[trigger] T[i]].origin_id == xs[i] by { assert(a.h().contains_key(T[i])) by { assert(ring_at(a.h(), g, 2 + (k - c) + i)); assert(g[2 + (k - c) + i] == T[i]); } }
    assert(new_vs(o, n, xs, ps.take(c + 1)));
    assert(n.h()[r.2].origin_id == a.h()[w].origin_id);
    assert(ring_at(n.h(), d, d.len() - 2)); assert(d[d.len() - 2] == top_end(q, T));
}
proof fn lemma_full_head(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, b: Seq<I>, c: int, xs: Seq<I>, q: I, T: Seq<I>, w: I, z: I, ps: Seq<VP>)
    requires full_state(o, m, b, c, xs, q, T, w, z, ps), o.valid(), ring(o.h(), b), b.len() >= 2,
    ensures ({ let g = fring(b, c, q, T, w);
        &&& 1 <= c <= b.len() && m.valid() && grown(o, m, 6 * c - 2, c, 2 * c - 1) && T.len() == c - 1 && xs.len() == c && ring(m.h(), g)
        &&& m.h().contains_key(w) && m.h().contains_key(q) && m.h()[w].prev == top_end(q, T) && m.h().contains_key(g[0]) && m.h()[g[0]].prev == w && g.last() == w && m.h()[w].next == g[0] && m.h()[g[0]].face == NONE && m.h()[w].face == NONE
        &&& g[0] == (if c < b.len() { b[c] } else { q }) && m.h().contains_key(z) && m.h()[z].twin == q && m.h().contains_key(top_end(q, T)) && m.h()[top_end(q, T)].next == w
        &&& c == b.len() ==> cappable(m.h(), seq![w, q], T) && bridgeable(m.h(), q, top_end(q, T)) && T.len() >= 1 && seq![w, q] + T =~= rot(g, g.len() - 1)
    }),
{
    reveal(full_state);
    let k = b.len() as int; let g = fring(b, c, q, T, w); let n = g.len() as int;
    assert(g[n - 1] == w && g[n - 2] == top_end(q, T) && g[k - c] == q);
    assert(ring_at(m.h(), g, 0)); assert(ring_at(m.h(), g, n - 1)); assert(ring_at(m.h(), g, n - 2)); assert(ring_at(m.h(), g, k - c));
    if c == k {
        lemma_rot(m.h(), g, n - 1);
        let seg = seq![w, q];
        assert(seg + T =~= rot(g, n - 1)); assert(seg + T == rot(g, n - 1));
        assert(m.h()[T[0]].origin_id == xs[0]);
        lemma_cappable(m.h(), seg, T);
    }
}
proof fn lemma_up_head(o: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, b: Seq<I>, c: int, xs: Seq<I>, q: I, T: Seq<I>, w: I, z: I, ps: Seq<VP>, p: (I, I, I))
    requires full_state(o, a, b, c, xs, q, T, w, z, ps), o.valid(), ring(o.h(), b), b.len() >= 2, c < b.len(), ps.len() == b.len(),
        hung(a, m, fring(b, c, q, T, w), p, ps[c]),
    ensures ({ let seg = seq![w, p.1]; let rest = seq![p.2] + b.skip(c) + seq![q] + T;
        &&& cappable(m.h(), seg, rest) && bridgeable(m.h(), p.1, top_end(q, T)) && rest.last() == top_end(q, T) && seg.last() == p.1 && rest[0] == p.2 && seg + rest =~= rot(fring(b, c, q, T, w).push(p.1).push(p.2), fring(b, c, q, T, w).len() - 1)
        &&& m.h().contains_key(w) && m.h()[w].next == p.1 && m.h()[w].prev == top_end(q, T) && m.h().contains_key(b[c]) && m.h()[b[c]].prev == p.2 && m.h().contains_key(p.2) && m.h().contains_key(top_end(q, T)) }),
{
    lemma_full_head(o, a, b, c, xs, q, T, w, z, ps);
    reveal(full_state);
    let k = b.len() as int; let g = fring(b, c, q, T, w); let (x, f1, f2) = p; let u = g.push(f1).push(f2); let seg = seq![w, f1]; let rest = seq![f2] + b.skip(c) + seq![q] + T;
    lemma_rot(m.h(), u, g.len() - 1);
    assert(seg + rest =~= rot(u, g.len() - 1)); assert(seg + rest == rot(u, g.len() - 1));
    lemma_swapped_keep(a, m, g, u);
    assert(a.v().contains_key(xs[c - 1]));
    assert(m.h()[w].origin_id == xs[c - 1] && m.h()[f2].origin_id == x);
    lemma_cappable(m.h(), seg, rest);
    let y = seg + rest; let n = y.len() as int;
    assert(ring_at(m.h(), y, 0)); assert(ring_at(m.h(), y, 2)); assert(ring_at(m.h(), y, 3)); assert(ring_at(m.h(), y, n - 1));
    assert(y[0] == w && y[1] == f1 && y[2] == f2 && y[3] == b[c] && y[n - 1] == top_end(q, T));
}
/// a triangle is hung between the last two new vertices
proof fn lemma_up(o: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, b: Seq<I>, c: int, xs: Seq<I>, q: I, T: Seq<I>, w: I, z: I, ps: Seq<VP>, p: (I, I, I), r: (I, I, I))
    requires full_state(o, a, b, c, xs, q, T, w, z, ps), o.valid(), ring(o.h(), b), b.len() >= 2, c < b.len(), ps.len() == b.len(),
        m.valid(), hung(a, m, fring(b, c, q, T, w), p, ps[c]), grown(a, m, 2, 1, 0),
        n.valid(), n.vertices == m.vertices, n.payload == m.payload, grown(m, n, 2, 0, 1), face_closed(m, n, p.1, top_end(q, T), ep_default(), ep_default(), fp_default(), false, r),
    ensures half_state(o, n, b, c, xs.push(p.0), q, T.push(r.2), p.2, z, ps),
{
    lemma_up_head(o, a, m, b, c, xs, q, T, w, z, ps, p);
    lemma_full_head(o, a, b, c, xs, q, T, w, z, ps);
    reveal(half_state); reveal(full_state);
    let k = b.len() as int; let g = fring(b, c, q, T, w); let (x, f1, f2) = p; let u = g.push(f1).push(f2); let seg = seq![w, f1]; let rest = seq![f2] + b.skip(c) + seq![q] + T;
    lemma_rot(m.h(), u, g.len() - 1);
    assert(seg + rest == rot(u, g.len() - 1));
    lemma_swapped_keep(a, m, g, u);
    lemma_cap(m, n, seg, rest, r, fp_default(), false);
    let T2 = T.push(r.2); let xs2 = xs.push(x); let d = hring(b, c, q, T2, f2);
    assert(d =~= rest.push(r.2));
    lemma_swapped_members(a, m, g, u, g, seg + rest);
    lemma_swapped_trans(o, a, m, b, g, seg + rest);
    lemma_swapped_trans(o, m, n, b, seg + rest, d);
    lemma_swapped_keep(m, n, seg + rest, d);
    lemma_swapped_keep(o, a, b, g);
    lemma_new_vs_push(o, a, m, xs, ps.take(c), x, f2, ps[c]);
    assert(ps.take(c).push(ps[c]) =~= ps.take(c + 1));
    assert(new_vs(o, n, xs2, ps.take(c + 1)));
    let y = seg.push(r.1);
    assert(face_at(n.h(), y, r.0, 0)); assert(face_at(n.h(), y, r.0, 1)); assert(face_at(n.h(), y, r.0, 2));
    assert(y[0] == w && y[1] == f1 && y[2] == r.1);
    assert(a.f() == m.f()); assert(fresh1(o.f(), r.0));
    assert(g[0] == b[c]); assert(ring_at(o.h(), b, c));
    assert(m.h()[f1].origin_id == o.h()[b[c]].origin_id);
    assert(n.h()[f1].origin_id == o.h()[b[c]].origin_id); assert(n.h()[w].origin_id == xs[c - 1]); assert(n.h()[r.1].origin_id == x);
    assert(!o.h().contains_key(r.1) && !o.h().contains_key(f1));
    assert(tip_at(o, n, r.2, xs2[c - 1], xs2[c], o.h()[b[c]].origin_id));
    assert(tips_at(o, n, b, T2, xs2, c - 1));
    assert forall|i: int| 0 <= i < c implies #[trigger] tri_at(o, n, b, i, xs2[i]) by { assert(tri_at(o, a, b, i, xs[i])); lemma_tri_keep(o, a, m, b, g, u, i, xs[i]); lemma_tri_keep(o, m, n, b, seg + rest, d, i, xs[i]); }
    assert forall|i: int| 0 <= i < c implies #[trigger] tips_at(o, n, b, T2, xs2, i) by { if i < c - 1 { assert(tips_at(o, a, b, T, xs, i)); let v = o.h()[b[wrap(i + 1, k)]].origin_id;
        lemma_tip_keep(o, a, m, g, u, T[i], xs[i], xs[i + 1], v); lemma_tip_keep(o, m, n, seg + rest, d, T[i], xs[i], xs[i + 1], v); assert(T2[i] == T[i]); } }
    assert(a.h().contains_key(q) && a.h().contains_key(z));
    assert forall|i: int| 0 <= i < c implies n.h()[#[trigger] T2[i]].origin_id == xs2[i] by { if i < c - 1 { assert(T2[i] == T[i]); assert(a.h().contains_key(T[i])) by { assert(ring_at(a.h(), g, (k - c) + 1 + i)); assert(g[(k - c) + 1 + i] == T[i]); } } }
    assert(T2[0] == if c == 1 { r.2 } else { T[0] });
}
/// the last triangle hangs from the last to the first new vertex
proof fn lemma_tri_end(o: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, b: Seq<I>, xs: Seq<I>, q: I, T: Seq<I>, w: I, z: I, ps: Seq<VP>, r: (I, I, I))
    requires full_state(o, a, b, b.len() as int, xs, q, T, w, z, ps), o.valid(), ring(o.h(), b), b.len() >= 2, ps.len() == b.len(),
        n.valid(), n.vertices == a.vertices, n.payload == a.payload, grown(a, n, 2, 0, 1), face_closed(a, n, q, top_end(q, T), ep_default(), ep_default(), fp_default(), false, r),
    ensures hem3(o, n, b, xs, T.push(r.2), ps), grown(o, n, 6 * (b.len() as int), b.len() as int, 2 * (b.len() as int)), n.h().contains_key(top_end(q, T)), n.h()[top_end(q, T)].next == r.2, n.h()[r.2].next == T[0], n.h().contains_key(r.2), T.push(r.2)[0] == T[0],
{
    let k = b.len() as int;
    lemma_full_head(o, a, b, k, xs, q, T, w, z, ps);
    reveal(full_state);
    let g = fring(b, k, q, T, w); let seg = seq![w, q]; let t = T.push(r.2);
    lemma_rot(a.h(), g, g.len() - 1);
    assert(seg + T == rot(g, g.len() - 1));
    lemma_cap(a, n, seg, T, r, fp_default(), false);
    lemma_swapped_members(a, n, seg + T, t, g, t);
    lemma_swapped_trans(o, a, n, b, g, t);
    lemma_swapped_keep(a, n, g, t);
    lemma_swapped_keep(o, a, b, g);
    assert(ps.take(k) =~= ps);
    assert(new_vs(o, n, xs, ps));
    let y = seg.push(r.1);
    assert(face_at(n.h(), y, r.0, 0)); assert(face_at(n.h(), y, r.0, 1)); assert(face_at(n.h(), y, r.0, 2));
    assert(y[0] == w && y[1] == q && y[2] == r.1);
    assert(a.h()[T[0]].origin_id == xs[0]);
    assert(n.h()[w].origin_id == xs[k - 1]);
    assert(tip_at(o, n, r.2, xs[k - 1], xs[0], o.h()[b[0]].origin_id));
    assert(tips_at(o, n, b, t, xs, k - 1));
    assert forall|i: int| 0 <= i < k implies n.h()[#[trigger] t[i]].origin_id == xs[i] by {
        if i < k - 1 { assert(t[i] == T[i]); assert(a.h().contains_key(T[i])) by { assert(ring_at(a.h(), g, 1 + i)); assert(g[1 + i] == T[i]); } } }
    assert forall|i: int| 0 <= i < k implies #[trigger] tri_at(o, n, b, i, xs[i]) by { assert(tri_at(o, a, b, i, xs[i])); lemma_tri_keep(o, a, n, b, g, t, i, xs[i]); }
    assert forall|i: int| 0 <= i < k implies #[trigger] tips_at(o, n, b, t, xs, i) by { if i < k - 1 { assert(tips_at(o, a, b, T, xs, i)); lemma_tip_keep(o, a, n, g, t, T[i], xs[i], xs[i + 1], o.h()[b[i + 1]].origin_id); assert(t[i] == T[i]); } }
    assert(ring_at(n.h(), t, k - 2)); assert(ring_at(n.h(), t, k - 1)); assert(t[k - 2] == top_end(q, T) && t[k - 1] == r.2);
}
impl HalfEdgeMeshImpl {
//@fn src/operations/loft.rs trait MeshLoft :: loft_tri
//@param vp: GIter<VP>
//@ret r
        requires old(self).valid(), old(self).h().contains_key(start), old(self).h()[start].face == NONE, !shift,
            vp.rest().len() == orbit(nmap(old(self).h()), start).len(), vp.rest().len() >= 2,
            room_e(*old(self), 6 * (vp.rest().len() as int)), room_v(*old(self), vp.rest().len() as int), room_f(*old(self), 2 * (vp.rest().len() as int)),
        ensures final(self).valid(),
            exists|xs: Seq<I>, q: I, T: Seq<I>, w: I| #[trigger] half_state(*old(self), *final(self), orbit(nmap(old(self).h()), start), vp.rest().len() - 1, xs, q, T, w, r, vp.rest()),
//@pre
        let ghost o = *self; let ghost b = orbit(nmap(self.h()), start); let ghost k = b.len() as int; let ghost ps = vp.rest();
        let ghost mut a = *self; let ghost mut g = *self; let ghost mut c = 0int; let ghost mut q = NONE; let ghost mut w = NONE; let ghost mut z = NONE; let ghost mut T = Seq::<I>::empty(); let ghost mut xs = Seq::<I>::empty(); let ghost mut p = (NONE, NONE, NONE);
        proof { lemma_orbit_ring(o, start); assert(ring_at(o.h(), b, 0)); assert(ring_at(o.h(), b, k - 1)); }
//@loop 0
            invariant o == *old(self), 0 <= c <= k, k == b.len(), k >= 2, ps.len() == k, !shift, b[0] == start, o.valid(), ring(o.h(), b), o.h().contains_key(start), o.h()[start].prev == b[k - 1], o.h()[b[k - 1]].next == start, o.h().contains_key(b[k - 1]), o.h()[start].face == NONE, o.h()[b[k - 1]].face == NONE,
                room_e(o, 6 * k), room_v(o, k), room_f(o, 2 * k), b == orbit(nmap(o.h()), start), ps == vp.rest(), first == (c == 0), self.valid(),
                c < k ==> pos == Some(ps[c]) && iter.rest() == ps.skip(c + 1), c == k ==> pos.is_none(),
                c == 0 ==> *self == o && output == b[0],
                0 < c < k ==> output == b[c] && full_state(o, *self, b, c, xs, q, T, w, z, ps),
                c == k ==> half_state(o, *self, b, k - 1, xs, q, T, w, z, ps),
                c > 0 ==> ret == z,
            decreases k - c,
//@lstart 0
            proof { a = *self; if c > 0 { lemma_full_head(o, *self, b, c, xs, q, T, w, z, ps); } }
//@aftercall add_vertex_via_edge_default 1
            proof {
                let s = if c == 0 { b } else { fring(b, c, q, T, w) };
                let (x, e1, e2) = choose|x: I, e1: I, e2: I| fresh1(a.v(), x) && fresh2(a.h(), e1, e2) && self.v() =~= a.v().insert(x, mkv(x, e2, ps[c])) && self.h() =~= #[trigger] pendant(a.h(), a.v(), a.h()[output].prev, output, x, e1, e2, ps[c], ep_default(), ep_default());
                lemma_hang(a, *self, s, (x, e1, e2), ps[c]);
                p = (x, e1, e2); g = *self;
                if c == 0 {
                    lemma_half_start(o, g, b, p, ps);
                    xs = seq![x]; q = e1; w = e2; z = e2; T = Seq::empty();
                    lemma_half_head(o, g, b, c, xs, q, T, w, z, ps);
                } else {
                    lemma_up_head(o, a, g, b, c, xs, q, T, w, z, ps, p);
                }
            }
//@aftercall close_face_default 0
                proof {
                    let r = choose|r: (I, I, I)| #[trigger] face_closed(g, *self, p.1, top_end(q, T), ep_default(), ep_default(), fp_default(), false, r);
                    lemma_up(o, a, g, *self, b, c, xs, q, T, w, z, ps, p, r);
                    xs = xs.push(p.0); T = T.push(r.2); w = p.2; g = *self;
                    lemma_half_head(o, g, b, c, xs, q, T, w, z, ps);
                }
//@aftercall close_face_default 1
                proof {
                    let r = choose|r: (I, I, I)| #[trigger] face_closed(g, *self, b[c], top_end(q, T), ep_default(), ep_default(), fp_default(), false, r);
                    lemma_low(o, g, *self, b, c, xs, q, T, w, z, ps, r);
                    w = r.2;
                }
//@lend 0
            proof { c = c + 1; if c < k { assert(ps.skip(c).drop_first() =~= ps.skip(c + 1)); } }
//@endfn
//@fn src/operations/loft.rs trait MeshLoft :: loft_tri_closed
//@param vp: GIter<VP>
//@ret r
        requires old(self).valid(), old(self).h().contains_key(start), old(self).h()[start].face == NONE,
            vp.rest().len() == orbit(nmap(old(self).h()), start).len(), vp.rest().len() >= 2,
            room_e(*old(self), 6 * (vp.rest().len() as int)), room_v(*old(self), vp.rest().len() as int), room_f(*old(self), 2 * (vp.rest().len() as int)),
        ensures final(self).valid(), grown(*old(self), *final(self), 6 * (vp.rest().len() as int), vp.rest().len() as int, 2 * (vp.rest().len() as int)),
            exists|ys: Seq<I>, t: Seq<I>| #[trigger] hem3(*old(self), *final(self), orbit(nmap(old(self).h()), start), ys, t, vp.rest()) && t[0] == r,
//@pre
        let ghost o = *self; let ghost b = orbit(nmap(self.h()), start); let ghost k = b.len() as int; let ghost ps = vp.rest();
        let ghost mut a = *self; let ghost mut g = *self; let ghost mut q = NONE; let ghost mut w = NONE; let ghost mut T = Seq::<I>::empty(); let ghost mut xs = Seq::<I>::empty();
        proof { lemma_orbit_ring(o, start); }
//@aftercall loft_tri 0
        proof {
            a = *self;
            let (x1, q1, T1, w1) = choose|xs: Seq<I>, q: I, T: Seq<I>, w: I| #[trigger] half_state(o, a, b, k - 1, xs, q, T, w, e, ps);
            xs = x1; q = q1; T = T1; w = w1;
            lemma_half_head(o, a, b, k - 1, xs, q, T, w, e, ps);
        }
//@aftercall close_face_default 0
        proof {
            let r = choose|r: (I, I, I)| #[trigger] face_closed(a, *self, b[k - 1], top_end(q, T), ep_default(), ep_default(), fp_default(), false, r);
            lemma_low(o, a, *self, b, k - 1, xs, q, T, w, e, ps, r);
            w = r.2; g = *self;
            lemma_full_head(o, g, b, k, xs, q, T, w, e, ps);
        }
//@aftercall close_face_default 1
        proof {
            let r = choose|r: (I, I, I)| #[trigger] face_closed(g, *self, q, top_end(q, T), ep_default(), ep_default(), fp_default(), false, r);
            lemma_tri_end(o, g, *self, b, xs, q, T, w, e, ps, r);
        }
//@endfn
}
