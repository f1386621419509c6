// Lofting a hole with one new vertex per vertex of the hole: a hem of quads.

spec fn wrap(i: int, k: int) -> int { if i >= k { i - k } else { i } }
/// xs are new vertices with payloads ps, and there are no others
spec fn new_vs(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, xs: Seq<I>, ps: Seq<VP>) -> bool {
    &&& xs.len() == ps.len() && xs.no_duplicates()
    &&& forall|i: int| 0 <= i < xs.len() ==> fresh1(o.v(), #[trigger] xs[i]) && m.v().contains_key(xs[i]) && m.v()[xs[i]].payload == ps[i]
    &&& forall|x: I| #[trigger] m.v().contains_key(x) <==> o.v().contains_key(x) || xs.contains(x)
}
/// on half-edge s[i] stands a new quad whose other two corners are x (above the target) and y (above the origin)
spec fn quad_at(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, s: Seq<I>, i: int, x: I, y: I) -> bool {
    let e = s[i]; let a = n.h()[e].next; let b = n.h()[a].next; let p = n.h()[e].prev; let F = n.h()[e].face;
    &&& n.h().contains_key(e) && n.h().contains_key(a) && n.h().contains_key(b) && n.h().contains_key(p) && n.h()[b].next == p && n.h()[p].next == e
    &&& n.h()[b].origin_id == x && n.h()[p].origin_id == y
    &&& n.h()[a].face == F && n.h()[b].face == F && n.h()[p].face == F && fresh1(o.f(), F) && n.f().contains_key(F)
}
/// the hole s is surrounded by new quads, one per half-edge; ys[i] is the new vertex above the origin of s[i]; t is the new hole
spec fn hem4(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, s: Seq<I>, ys: Seq<I>, t: Seq<I>, ps: Seq<VP>) -> bool {
    &&& swapped(o, n, s, t) && ring(n.h(), t) && t.len() == s.len() && ys.len() == s.len() && new_vs(o, n, ys, ps)
    &&& forall|i: int| 0 <= i < t.len() ==> n.h()[#[trigger] t[i]].origin_id == ys[i]
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] quad_at(o, n, s, i, ys[wrap(i + 1, s.len() as int)], ys[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] faces_differ(n, s, i, j)
}
proof fn lemma_new_vs_push(o: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, xs: Seq<I>, ps: Seq<VP>, x: I, e: I, vp: VP)
    requires new_vs(o, a, xs, ps), fresh1(a.v(), x), b.v() =~= a.v().insert(x, mkv(x, e, vp)),
    ensures new_vs(o, b, xs.push(x), ps.push(vp)),
{
    let ys = xs.push(x); let qs = ps.push(vp);
    lemma_push_contains(xs, x);
    assert forall|i: int| 0 <= i < ys.len() implies fresh1(o.v(), #[trigger] ys[i]) && b.v().contains_key(ys[i]) && b.v()[ys[i]].payload == qs[i] by {
        if i < xs.len() { assert(ys[i] == xs[i]); assert(xs.contains(xs[i])); assert(a.v().contains_key(xs[i])); } }
    assert forall|i: int, j: int| 0 <= i < ys.len() && 0 <= j < ys.len() && i != j implies ys[i] != ys[j] by {
        if i < xs.len() { assert(ys[i] == xs[i]); assert(a.v().contains_key(xs[i])); } if j < xs.len() { assert(ys[j] == xs[j]); assert(a.v().contains_key(xs[j])); } }
}
/// the hole while walking backwards: not yet lofted part, way up, top in reverse order, way down
spec fn bring(b: Seq<I>, j: int, q: I, T: Seq<I>, w: I) -> Seq<I> { b.take(j + 1) + seq![q] + T + seq![w] }
#[verifier::opaque]
spec fn back_state(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, b: Seq<I>, c: int, xs: Seq<I>, q: I, T: Seq<I>, w: I, ps: Seq<VP>) -> bool {
    let k = b.len() as int; let j = k - 1 - c; let g = bring(b, j, q, T, w);
    &&& 0 <= c < k && m.valid() && ring(m.h(), g) && swapped(o, m, b, g) && grown(o, m, 2 + 4 * c, c + 1, c)
    &&& xs.len() == c + 1 && T.len() == c && new_vs(o, m, xs, ps.take(c + 1))
    &&& m.h()[w].origin_id == xs[0]
    &&& forall|i: int| 0 <= i < c ==> m.h()[#[trigger] T[i]].origin_id == xs[c - i]
    &&& forall|i: int| j < i < k ==> #[trigger] quad_at(o, m, b, i, xs[k - 1 - i], xs[k - i])
    &&& forall|i: int, l: int| j < i < l < k ==> #[trigger] faces_differ(m, b, i, l)
    &&& c > 0 ==> !o.h().contains_key(T[c - 1])
}
proof fn lemma_back_start(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, b: Seq<I>, r: (I, I, I), ps: Seq<VP>)
    requires o.valid(), m.valid(), ring(o.h(), b), hung(o, m, b, r, ps[0]), grown(o, m, 2, 1, 0), ps.len() == b.len(),
    ensures back_state(o, m, b, 0, seq![r.0], r.1, Seq::empty(), r.2, ps),
{
    reveal(back_state);
    assert(bring(b, b.len() - 1, r.1, Seq::empty(), r.2) =~= b.push(r.1).push(r.2));
    assert(new_vs(o, o, Seq::<I>::empty(), Seq::<VP>::empty()));
    lemma_new_vs_push(o, o, m, Seq::<I>::empty(), Seq::<VP>::empty(), r.0, r.2, ps[0]);
    assert(Seq::<I>::empty().push(r.0) =~= seq![r.0]);
    assert(Seq::<VP>::empty().push(ps[0]) =~= ps.take(1));
}
/// what the code sees at the head of the loop
proof fn lemma_back_head(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, b: Seq<I>, c: int, xs: Seq<I>, q: I, T: Seq<I>, w: I, ps: Seq<VP>)
    requires back_state(o, m, b, c, xs, q, T, w, ps), o.valid(), ring(o.h(), b), b.len() >= 2,
    ensures ({ let k = b.len() as int; let j = k - 1 - c; let s = seq![b[j], q] + T + seq![w] + b.take(j);
        &&& 0 <= c < k && m.valid() && grown(o, m, 2 + 4 * c, c + 1, c) && T.len() == c && xs.len() == c + 1
        &&& m.h().contains_key(b[j]) && m.h()[b[j]].next == q && m.h().contains_key(q) && ring(m.h(), s) && same_members(s, bring(b, j, q, T, w)) && s == rot(bring(b, j, q, T, w), j)
        &&& m.h()[b[j]].prev == (if j > 0 { b[j - 1] } else { w }) && m.h()[m.h()[b[j]].prev].next == b[j] && m.h().contains_key(m.h()[b[j]].prev) && m.h()[m.h()[b[j]].prev].face == NONE && s.last() == m.h()[b[j]].prev
        &&& m.h()[b[j]].origin_id == o.h()[b[j]].origin_id
        &&& j == 0 ==> m.h().contains_key(w) && m.h()[w].prev == T.last() && T.len() >= 1 && cappable(m.h(), seq![w, b[0], q], T) && bridgeable(m.h(), q, T.last())
        &&& c > 0 ==> T.last() == T[c - 1] && !o.h().contains_key(T[c - 1])
    }),
{
    reveal(back_state);
    let k = b.len() as int; let j = k - 1 - c; let g = bring(b, j, q, T, w); let s = seq![b[j], q] + T + seq![w] + b.take(j);
    lemma_swapped_keep(o, m, b, g);
    lemma_rot(m.h(), g, j);
    assert(s =~= rot(g, j));
    assert(ring_at(m.h(), s, 0)); assert(ring_at(m.h(), s, 1)); assert(ring_at(m.h(), s, s.len() - 1));
    assert(s[0] == b[j] && s[1] == q);
    assert(s.last() == (if j > 0 { b[j - 1] } else { w }));
    assert(ring_at(o.h(), b, j));
    if j == 0 {
        lemma_rot(m.h(), g, g.len() - 1);
        let seg = seq![w, b[0], q];
        assert(seg + T =~= rot(g, g.len() - 1));
        assert(seg + T == rot(g, g.len() - 1));
        assert(m.h()[T[0]].origin_id == xs[c]);
        lemma_cappable(m.h(), seg, T);
        let u = seg + T;
        assert(ring_at(m.h(), u, u.len() - 1));
        assert(u[u.len() - 1] == T[c - 1]); assert(u[0] == w);
    }
}
proof fn lemma_quads_keep(o: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, s: Seq<I>, t: Seq<I>, u: Seq<I>, i: int, x: I, y: I)
    requires swapped(a, b, t, u), ring(a.h(), t), quad_at(o, a, s, i, x, y),
    ensures quad_at(o, b, s, i, x, y), b.h()[s[i]] == a.h()[s[i]],
{
    lemma_swapped_keep(a, b, t, u);
}
proof fn lemma_back_cap(o: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, b: Seq<I>, c: int, xs: Seq<I>, q: I, T: Seq<I>, w: I, ps: Seq<VP>, p: (I, I, I))
    requires back_state(o, a, b, c, xs, q, T, w, ps), o.valid(), ring(o.h(), b), b.len() >= 2, c + 1 < b.len(), ps.len() == b.len(),
        hung(a, m, seq![b[b.len() - 1 - c], q] + T + seq![w] + b.take(b.len() - 1 - c), p, ps[c + 1]),
    ensures ({ let j = b.len() - 1 - c; cappable(m.h(), seq![p.2, b[j], q], T + seq![w] + b.take(j) + seq![p.1]) && bridgeable(m.h(), q, p.1) }),
{
    lemma_back_head(o, a, b, c, xs, q, T, w, ps);
    reveal(back_state);
    let k = b.len() as int; let j = k - 1 - c; let s = seq![b[j], q] + T + seq![w] + b.take(j); let (x, f1, f2) = p;
    let u = s.push(f1).push(f2); let seg = seq![f2, b[j], q]; let rest = T + seq![w] + b.take(j) + seq![f1];
    lemma_rot(m.h(), u, u.len() - 1);
    assert(seg + rest =~= rot(u, u.len() - 1));
    lemma_swapped_keep(a, m, s, u);
    assert(rest[0] == if c == 0 { w } else { T[0] });
    assert(a.h().contains_key(rest[0])) by { assert(ring_at(a.h(), s, 2)); assert(s[2] == rest[0]); }
    assert(a.h()[rest[0]].origin_id == xs[c]);
    assert(a.v().contains_key(xs[c]));
    lemma_cappable(m.h(), seg, rest);
}
proof fn lemma_back_step(o: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, b: Seq<I>, c: int, xs: Seq<I>, q: I, T: Seq<I>, w: I, ps: Seq<VP>, p: (I, I, I), r: (I, I, I))
    requires back_state(o, a, b, c, xs, q, T, w, ps), o.valid(), ring(o.h(), b), b.len() >= 2, c + 1 < b.len(), ps.len() == b.len(),
        m.valid(), hung(a, m, seq![b[b.len() - 1 - c], q] + T + seq![w] + b.take(b.len() - 1 - c), p, ps[c + 1]), grown(a, m, 2, 1, 0),
        n.valid(), n.vertices == m.vertices, n.payload == m.payload, grown(m, n, 2, 0, 1), face_closed(m, n, q, p.1, ep_default(), ep_default(), fp_default(), false, r),
    ensures back_state(o, n, b, c + 1, xs.push(p.0), p.1, seq![r.2] + T, w, ps), n.h()[q].next == r.1, n.h()[r.1].twin == r.2, n.h().contains_key(q), n.h().contains_key(r.1),
{
    lemma_back_head(o, a, b, c, xs, q, T, w, ps);
    reveal(back_state);
    let k = b.len() as int; let j = k - 1 - c; let g = bring(b, j, q, T, w); let s = seq![b[j], q] + T + seq![w] + b.take(j); let (x, f1, f2) = p;
    let u = s.push(f1).push(f2); let seg = seq![f2, b[j], q]; let rest = T + seq![w] + b.take(j) + seq![f1];
    lemma_rot(m.h(), u, u.len() - 1);
    assert(seg + rest =~= rot(u, u.len() - 1));
    lemma_swapped_keep(a, m, s, u);
    assert(rest[0] == if c == 0 { w } else { T[0] });
    assert(a.h().contains_key(rest[0])) by { assert(ring_at(a.h(), s, 2)); assert(s[2] == rest[0]); }
    lemma_back_cap(o, a, m, b, c, xs, q, T, w, ps, p);
    lemma_cap(m, n, seg, rest, r, fp_default(), false);
    let t = rest.push(r.2);
    let T2 = seq![r.2] + T; let xs2 = xs.push(x); let d = bring(b, j - 1, f1, T2, w);
    lemma_rot(n.h(), t, c + 1);
    assert(d =~= rot(t, c + 1));
    lemma_swapped_members(a, m, s, u, g, seg + rest);
    lemma_swapped_trans(o, a, m, b, g, seg + rest);
    lemma_swapped_members(m, n, seg + rest, t, seg + rest, d);
    lemma_swapped_trans(o, m, n, b, seg + rest, d);
    lemma_swapped_keep(m, n, seg + rest, d);
    lemma_new_vs_push(o, a, m, xs, ps.take(c + 1), x, f2, ps[c + 1]);
    assert(ps.take(c + 1).push(ps[c + 1]) =~= ps.take(c + 2));
    assert(new_vs(o, n, xs2, ps.take(c + 2)));
    // origins
    assert(ring_at(a.h(), g, g.len() - 1)); assert(g[g.len() - 1] == w);
    assert(n.h()[w].origin_id == xs2[0]);
    assert forall|i: int| 0 <= i < c + 1 implies n.h()[#[trigger] T2[i]].origin_id == xs2[c + 1 - i] by {
        if i > 0 { assert(T2[i] == T[i - 1]); assert(a.h().contains_key(T[i - 1])) by { assert(ring_at(a.h(), s, 2 + i - 1)); assert(s[2 + i - 1] == T[i - 1]); } } }
    // faces
    let y = seg.push(r.1);
    assert(face_at(n.h(), y, r.0, 0)); assert(face_at(n.h(), y, r.0, 1)); assert(face_at(n.h(), y, r.0, 2)); assert(face_at(n.h(), y, r.0, 3));
    assert(y[0] == f2 && y[1] == b[j] && y[2] == q && y[3] == r.1);
    assert(ring_at(m.h(), u, u.len() - 1)); assert(u[u.len() - 1] == f2); assert(n.h()[f2].origin_id == x);
    assert(a.f() == m.f());
    lemma_swapped_keep(o, a, b, g);
    assert(fresh1(o.f(), r.0));
    assert(quad_at(o, n, b, j, xs2[c], xs2[c + 1]));
    assert forall|i: int| j < i < k implies #[trigger] quad_at(o, n, b, i, xs2[k - 1 - i], xs2[k - i]) && n.h()[b[i]] == a.h()[b[i]] && a.f().contains_key(a.h()[b[i]].face) by {
        assert(quad_at(o, a, b, i, xs[k - 1 - i], xs[k - i]));
        lemma_quads_keep(o, a, m, b, s, u, i, xs[k - 1 - i], xs[k - i]);
        lemma_quads_keep(o, m, n, b, seg + rest, d, i, xs[k - 1 - i], xs[k - i]); }
    assert forall|i: int| j - 1 < i < k implies #[trigger] quad_at(o, n, b, i, xs2[k - 1 - i], xs2[k - i]) by { if i > j { assert(quad_at(o, n, b, i, xs2[k - 1 - i], xs2[k - i])); } }
    assert forall|i: int, l: int| j - 1 < i < l < k implies #[trigger] faces_differ(n, b, i, l) by {
        assert(quad_at(o, n, b, l, xs2[k - 1 - l], xs2[k - l]));
        if i > j { assert(quad_at(o, n, b, i, xs2[k - 1 - i], xs2[k - i])); assert(faces_differ(a, b, i, l)); } }
    assert(T2[c] == if c == 0 { r.2 } else { T[c - 1] });
}
/// the hole while walking forwards: not yet lofted part, way up, top, way down
spec fn fring(b: Seq<I>, c: int, q: I, T: Seq<I>, w: I) -> Seq<I> { b.skip(c) + seq![q] + T + seq![w] }
#[verifier::opaque]
spec fn fwd_state(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, b: Seq<I>, c: int, xs: Seq<I>, q: I, T: Seq<I>, w: I, ps: Seq<VP>) -> bool {
    let k = b.len() as int; let g = fring(b, c, q, T, w);
    &&& 0 <= c < k && m.valid() && ring(m.h(), g) && swapped(o, m, b, g) && grown(o, m, 2 + 4 * c, c + 1, c)
    &&& xs.len() == c + 1 && T.len() == c && new_vs(o, m, xs, ps.take(c + 1))
    &&& m.h()[w].origin_id == xs[c] && m.h()[q].origin_id == o.h()[b[0]].origin_id
    &&& forall|i: int| 0 <= i < c ==> m.h()[#[trigger] T[i]].origin_id == xs[i]
    &&& forall|i: int| 0 <= i < c ==> #[trigger] quad_at(o, m, b, i, xs[i + 1], xs[i])
    &&& forall|i: int, l: int| 0 <= i < l < c ==> #[trigger] faces_differ(m, b, i, l)
    &&& c > 0 ==> !o.h().contains_key(T[0])
}
proof fn lemma_fwd_start(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, b: Seq<I>, r: (I, I, I), ps: Seq<VP>)
    requires o.valid(), m.valid(), ring(o.h(), b), hung(o, m, b, r, ps[0]), grown(o, m, 2, 1, 0), ps.len() == b.len(),
    ensures fwd_state(o, m, b, 0, seq![r.0], r.1, Seq::empty(), r.2, ps),
{
    reveal(fwd_state);
    assert(fring(b, 0, r.1, Seq::empty(), r.2) =~= b.push(r.1).push(r.2));
    assert(new_vs(o, o, Seq::<I>::empty(), Seq::<VP>::empty()));
    lemma_new_vs_push(o, o, m, Seq::<I>::empty(), Seq::<VP>::empty(), r.0, r.2, ps[0]);
    assert(Seq::<I>::empty().push(r.0) =~= seq![r.0]);
    assert(Seq::<VP>::empty().push(ps[0]) =~= ps.take(1));
}
/// the same cycle, ending with the half-edge that is lofted next
spec fn fturn(b: Seq<I>, c: int, q: I, T: Seq<I>, w: I) -> Seq<I> { b.skip(c + 1) + seq![q] + T + seq![w, b[c]] }
proof fn lemma_fwd_head(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, b: Seq<I>, c: int, xs: Seq<I>, q: I, T: Seq<I>, w: I, ps: Seq<VP>)
    requires fwd_state(o, m, b, c, xs, q, T, w, ps), o.valid(), ring(o.h(), b), b.len() >= 2,
    ensures ({ let k = b.len() as int; let s = fturn(b, c, q, T, w);
        &&& 0 <= c < k && m.valid() && grown(o, m, 2 + 4 * c, c + 1, c) && T.len() == c && xs.len() == c + 1
        &&& m.h().contains_key(b[c]) && m.h().contains_key(w) && m.h()[w].next == b[c] && ring(m.h(), s) && same_members(s, fring(b, c, q, T, w)) && s == rot(fring(b, c, q, T, w), 1)
        &&& m.h()[b[c]].face == NONE && m.h()[b[c]].prev == w && m.h()[b[c]].next == s[0] && m.h().contains_key(s[0]) && m.h()[s[0]].prev == b[c] && m.h()[s[0]].face == NONE
        &&& s[0] == (if c < k - 1 { b[c + 1] } else { q }) && s.last() == b[c]
        &&& c == k - 1 ==> m.h()[q].origin_id == o.h()[b[0]].origin_id && m.h()[w].prev == T.last() && T.len() >= 1 && cappable(m.h(), seq![w, b[c], q], T) && bridgeable(m.h(), q, T.last())
        &&& c > 0 ==> m.h()[w].prev == T.last() && !o.h().contains_key(T[0])
        &&& c == 0 ==> m.h()[w].prev == q
    }),
{
    reveal(fwd_state);
    let k = b.len() as int; let g = fring(b, c, q, T, w); let s = fturn(b, c, q, T, w);
    lemma_swapped_keep(o, m, b, g);
    lemma_rot(m.h(), g, 1);
    assert(s =~= rot(g, 1));
    let n = g.len() as int;
    assert(ring_at(m.h(), g, 0)); assert(ring_at(m.h(), g, 1)); assert(ring_at(m.h(), g, n - 1)); assert(ring_at(m.h(), g, n - 2));
    assert(g[0] == b[c] && g[n - 1] == w && g[1] == s[0] && g[n - 2] == (if c > 0 { T[c - 1] } else { q }));
    if c == k - 1 {
        lemma_rot(m.h(), g, n - 1);
        let seg = seq![w, b[c], q];
        assert(seg + T =~= rot(g, n - 1));
        assert(m.h()[T[0]].origin_id == xs[0]);
        lemma_cappable(m.h(), seg, T);
    }
}
proof fn lemma_fwd_cap(o: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, b: Seq<I>, c: int, xs: Seq<I>, q: I, T: Seq<I>, w: I, ps: Seq<VP>, p: (I, I, I))
    requires fwd_state(o, a, b, c, xs, q, T, w, ps), o.valid(), ring(o.h(), b), b.len() >= 2, c + 1 < b.len(), ps.len() == b.len(),
        hung(a, m, fturn(b, c, q, T, w), p, ps[c + 1]),
    ensures ({ let rest = seq![p.2] + b.skip(c + 1) + seq![q] + T;
        &&& cappable(m.h(), seq![w, b[c], p.1], rest) && bridgeable(m.h(), p.1, rest.last())
        &&& rest.last() == (if c > 0 { T.last() } else { q }) && m.h()[w].prev == rest.last() && m.h().contains_key(w)
        &&& m.h()[b[c + 1]].prev == p.2 && m.h().contains_key(b[c + 1]) && m.h().contains_key(p.2) && m.h()[p.2].twin == p.1 }),
{
    lemma_fwd_head(o, a, b, c, xs, q, T, w, ps);
    reveal(fwd_state);
    let k = b.len() as int; let s = fturn(b, c, q, T, w); let (x, f1, f2) = p;
    let u = s.push(f1).push(f2); let seg = seq![w, b[c], f1]; let rest = seq![f2] + b.skip(c + 1) + seq![q] + T;
    lemma_rot(m.h(), u, k);
    assert(seg + rest =~= rot(u, k));
    lemma_swapped_keep(a, m, s, u);
    assert(a.v().contains_key(xs[c]));
    assert(rest[0] == f2);
    lemma_cappable(m.h(), seg, rest);
    let z = seg + rest;
    assert(ring_at(m.h(), z, z.len() - 1)); assert(z[z.len() - 1] == rest.last()); assert(z[0] == w); assert(ring_at(m.h(), z, 3)); assert(z[3] == f2); assert(z[4] == b[c + 1]); assert(ring_at(m.h(), z, 4)); assert(ring_at(m.h(), z, 0));
}
proof fn lemma_fwd_step(o: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, b: Seq<I>, c: int, xs: Seq<I>, q: I, T: Seq<I>, w: I, ps: Seq<VP>, p: (I, I, I), r: (I, I, I))
    requires fwd_state(o, a, b, c, xs, q, T, w, ps), o.valid(), ring(o.h(), b), b.len() >= 2, c + 1 < b.len(), ps.len() == b.len(),
        m.valid(), hung(a, m, fturn(b, c, q, T, w), p, ps[c + 1]), grown(a, m, 2, 1, 0),
        n.valid(), n.vertices == m.vertices, n.payload == m.payload, grown(m, n, 2, 0, 1), face_closed(m, n, p.1, if c > 0 { T.last() } else { q }, ep_default(), ep_default(), fp_default(), false, r),
    ensures fwd_state(o, n, b, c + 1, xs.push(p.0), q, T.push(r.2), p.2, ps), n.h()[w].prev == r.1, n.h()[r.1].twin == r.2, n.h().contains_key(w), n.h().contains_key(r.1),
{
    lemma_fwd_cap(o, a, m, b, c, xs, q, T, w, ps, p);
    lemma_fwd_head(o, a, b, c, xs, q, T, w, ps);
    reveal(fwd_state);
    let k = b.len() as int; let g = fring(b, c, q, T, w); let s = fturn(b, c, q, T, w); let (x, f1, f2) = p;
    let u = s.push(f1).push(f2); let seg = seq![w, b[c], f1]; let rest = seq![f2] + b.skip(c + 1) + seq![q] + T;
    lemma_rot(m.h(), u, k);
    assert(seg + rest =~= rot(u, k));
    lemma_swapped_keep(a, m, s, u);
    lemma_cap(m, n, seg, rest, r, fp_default(), false);
    let t = rest.push(r.2);
    let T2 = T.push(r.2); let xs2 = xs.push(x); let d = fring(b, c + 1, q, T2, f2);
    lemma_rot(n.h(), t, 1);
    assert(d =~= rot(t, 1));
    lemma_swapped_members(a, m, s, u, g, seg + rest);
    lemma_swapped_trans(o, a, m, b, g, seg + rest);
    lemma_swapped_members(m, n, seg + rest, t, seg + rest, d);
    lemma_swapped_trans(o, m, n, b, seg + rest, d);
    lemma_swapped_keep(m, n, seg + rest, d);
    lemma_new_vs_push(o, a, m, xs, ps.take(c + 1), x, f2, ps[c + 1]);
    assert(ps.take(c + 1).push(ps[c + 1]) =~= ps.take(c + 2));
    assert(new_vs(o, n, xs2, ps.take(c + 2)));
    // origins
    assert(ring_at(a.h(), g, g.len() - 1)); assert(g[g.len() - 1] == w);
    assert(a.h().contains_key(q)) by { assert(ring_at(a.h(), g, k - c)); assert(g[k - c] == q); }
    assert forall|i: int| 0 <= i < c + 1 implies n.h()[#[trigger] T2[i]].origin_id == xs2[i] by {
        if i < c { assert(T2[i] == T[i]); assert(a.h().contains_key(T[i])) by { assert(ring_at(a.h(), g, k - c + 1 + i)); assert(g[k - c + 1 + i] == T[i]); } } }
    // faces
    let y = seg.push(r.1);
    assert(face_at(n.h(), y, r.0, 0)); assert(face_at(n.h(), y, r.0, 1)); assert(face_at(n.h(), y, r.0, 2)); assert(face_at(n.h(), y, r.0, 3));
    assert(y[0] == w && y[1] == b[c] && y[2] == f1 && y[3] == r.1);
    assert(rest[0] == f2);
    assert(m.h()[f2].origin_id == x); assert(n.h()[r.1].origin_id == x); assert(n.h()[w].origin_id == xs[c]);
    assert(a.f() == m.f());
    lemma_swapped_keep(o, a, b, g);
    assert(fresh1(o.f(), r.0));
    assert(quad_at(o, n, b, c, xs2[c + 1], xs2[c]));
    assert forall|i: int| 0 <= i < c implies #[trigger] quad_at(o, n, b, i, xs2[i + 1], xs2[i]) && n.h()[b[i]] == a.h()[b[i]] && a.f().contains_key(a.h()[b[i]].face) by {
        assert(quad_at(o, a, b, i, xs[i + 1], xs[i]));
        lemma_quads_keep(o, a, m, b, s, u, i, xs[i + 1], xs[i]);
        lemma_quads_keep(o, m, n, b, seg + rest, d, i, xs[i + 1], xs[i]); }
    assert forall|i: int| 0 <= i < c + 1 implies #[trigger] quad_at(o, n, b, i, xs2[i + 1], xs2[i]) by { if i < c { assert(quad_at(o, n, b, i, xs2[i + 1], xs2[i])); } }
    assert forall|i: int, l: int| 0 <= i < l < c + 1 implies #[trigger] faces_differ(n, b, i, l) by {
        assert(quad_at(o, n, b, i, xs2[i + 1], xs2[i]));
        if l < c { assert(quad_at(o, n, b, l, xs2[l + 1], xs2[l])); assert(faces_differ(a, b, i, l)); } }
    assert(T2[0] == if c == 0 { r.2 } else { T[0] });
}
proof fn lemma_fwd_end(o: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, b: Seq<I>, xs: Seq<I>, q: I, T: Seq<I>, w: I, ps: Seq<VP>, r: (I, I, I))
    requires fwd_state(o, a, b, b.len() - 1, xs, q, T, w, ps), o.valid(), ring(o.h(), b), b.len() >= 2, ps.len() == b.len(),
        n.valid(), n.vertices == a.vertices, n.payload == a.payload, grown(a, n, 2, 0, 1), face_closed(a, n, q, T.last(), ep_default(), ep_default(), fp_default(), false, r),
    ensures hem4(o, n, b, xs, T.push(r.2), ps), grown(o, n, 4 * (b.len() as int), b.len() as int, b.len() as int), T.push(r.2)[0] == T[0],
{
    lemma_fwd_head(o, a, b, b.len() - 1, xs, q, T, w, ps);
    reveal(fwd_state);
    let k = b.len() as int; let c = k - 1; let g = fring(b, c, q, T, w); let seg = seq![w, b[c], q];
    lemma_rot(a.h(), g, g.len() - 1);
    assert(seg + T =~= rot(g, g.len() - 1));
    lemma_cap(a, n, seg, T, r, fp_default(), false);
    let t = T.push(r.2);
    lemma_swapped_members(a, n, seg + T, t, g, t);
    lemma_swapped_trans(o, a, n, b, g, t);
    lemma_swapped_keep(a, n, g, t);
    lemma_swapped_keep(o, a, b, g);
    assert(ps.take(k) =~= ps);
    assert(new_vs(o, n, xs, ps));
    assert(a.h().contains_key(w));
    assert forall|i: int| 0 <= i < k implies n.h()[#[trigger] t[i]].origin_id == xs[i] by {
        if i < c { assert(t[i] == T[i]); assert(a.h().contains_key(T[i])) by { assert(ring_at(a.h(), seg + T, 3 + i)); assert((seg + T)[3 + i] == T[i]); } } }
    let y = seg.push(r.1);
    assert(face_at(n.h(), y, r.0, 0)); assert(face_at(n.h(), y, r.0, 1)); assert(face_at(n.h(), y, r.0, 2)); assert(face_at(n.h(), y, r.0, 3));
    assert(y[0] == w && y[1] == b[c] && y[2] == q && y[3] == r.1);
    assert(a.h()[T[0]].origin_id == xs[0]);
    assert(quad_at(o, n, b, c, xs[0], xs[c]));
    assert forall|i: int| 0 <= i < c implies #[trigger] quad_at(o, n, b, i, xs[i + 1], xs[i]) && n.h()[b[i]] == a.h()[b[i]] && a.f().contains_key(a.h()[b[i]].face) by {
        assert(quad_at(o, a, b, i, xs[i + 1], xs[i]));
        lemma_quads_keep(o, a, n, b, g, t, i, xs[i + 1], xs[i]); }
    assert forall|i: int| 0 <= i < k implies #[trigger] quad_at(o, n, b, i, xs[wrap(i + 1, k)], xs[i]) by {
        if i < c { assert(quad_at(o, n, b, i, xs[i + 1], xs[i])); } }
    assert forall|i: int, l: int| 0 <= i < l < k implies #[trigger] faces_differ(n, b, i, l) by {
        assert(quad_at(o, n, b, i, xs[i + 1], xs[i]));
        if l < c { assert(quad_at(o, n, b, l, xs[l + 1], xs[l])); assert(faces_differ(a, b, i, l)); } }
}
/// the payloads in the order of the hole when they were given backwards
spec fn turned_p(ps: Seq<VP>) -> Seq<VP> { Seq::new(ps.len(), |i: int| if i == 0 { ps[0] } else { ps[ps.len() - i] }) }
proof fn lemma_turned_vs(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, xs: Seq<I>, ps: Seq<VP>)
    requires new_vs(o, m, xs, ps), xs.len() >= 1,
    ensures new_vs(o, m, turned(xs), turned_p(ps)),
{
    let ys = turned(xs); let k = xs.len() as int;
    assert forall|i: int| 0 <= i < k implies fresh1(o.v(), #[trigger] ys[i]) && m.v().contains_key(ys[i]) && m.v()[ys[i]].payload == turned_p(ps)[i] by { assert(ys[i] == xs[if i == 0 { 0 } else { k - i }]); }
    assert forall|x: I| #[trigger] m.v().contains_key(x) <==> o.v().contains_key(x) || ys.contains(x) by {
        if xs.contains(x) { let i = choose|i: int| 0 <= i < k && xs[i] == x; assert(ys[if i == 0 { 0 } else { k - i }] == x); }
        if ys.contains(x) { let i = choose|i: int| 0 <= i < k && ys[i] == x; assert(xs[if i == 0 { 0 } else { k - i }] == x); } }
    assert forall|i: int, j: int| 0 <= i < k && 0 <= j < k && i != j implies ys[i] != ys[j] by { assert(ys[i] == xs[if i == 0 { 0 } else { k - i }]); assert(ys[j] == xs[if j == 0 { 0 } else { k - j }]); }
}
proof fn lemma_back_end(o: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, b: Seq<I>, xs: Seq<I>, q: I, T: Seq<I>, w: I, ps: Seq<VP>, r: (I, I, I))
    requires back_state(o, a, b, b.len() - 1, xs, q, T, w, ps), o.valid(), ring(o.h(), b), b.len() >= 2, ps.len() == b.len(),
        n.valid(), n.vertices == a.vertices, n.payload == a.payload, grown(a, n, 2, 0, 1), face_closed(a, n, q, T.last(), ep_default(), ep_default(), fp_default(), false, r),
    ensures ({ let t = T.push(r.2); let t2 = rot(t, t.len() - 1); hem4(o, n, b, turned(xs), t2, turned_p(ps)) && t2[b.len() - 1] == T.last() && t2.contains(T.last()) }), grown(o, n, 4 * (b.len() as int), b.len() as int, b.len() as int),
{
    lemma_back_head(o, a, b, b.len() - 1, xs, q, T, w, ps);
    reveal(back_state);
    let k = b.len() as int; let g = bring(b, 0, q, T, w); let seg = seq![w, b[0], q];
    lemma_rot(a.h(), g, g.len() - 1);
    assert(seg + T =~= rot(g, g.len() - 1));
    lemma_cap(a, n, seg, T, r, fp_default(), false);
    let t = T.push(r.2); let t2 = rot(t, k - 1); let ys = turned(xs);
    lemma_rot(n.h(), t, k - 1);
    lemma_swapped_members(a, n, seg + T, t, g, t2);
    lemma_swapped_trans(o, a, n, b, g, t2);
    lemma_swapped_keep(a, n, g, t2);
    lemma_swapped_keep(o, a, b, g);
    assert(ps.take(k) =~= ps);
    assert(new_vs(o, n, xs, ps));
    lemma_turned_vs(o, n, xs, ps);
    assert forall|i: int| 0 <= i < k implies n.h()[#[trigger] t2[i]].origin_id == ys[i] by {
        let l = wrap(i + k - 1, k); assert(t2[i] == t[l]);
        if l < k - 1 { assert(t[l] == T[l]); assert(a.h().contains_key(T[l])) by { assert(ring_at(a.h(), seg + T, 3 + l)); assert((seg + T)[3 + l] == T[l]); } assert(a.h()[T[l]].origin_id == xs[k - 1 - l]); }
        else { assert(t[l] == r.2); }
    }
    let y = seg.push(r.1);
    assert(face_at(n.h(), y, r.0, 0)); assert(face_at(n.h(), y, r.0, 1)); assert(face_at(n.h(), y, r.0, 2)); assert(face_at(n.h(), y, r.0, 3));
    assert(y[0] == w && y[1] == b[0] && y[2] == q && y[3] == r.1);
    assert(a.h()[T[0]].origin_id == xs[k - 1]);
    assert(quad_at(o, n, b, 0, xs[k - 1], xs[0]));
    assert forall|i: int| 0 < i < k implies #[trigger] quad_at(o, n, b, i, xs[k - 1 - i], xs[k - i]) && n.h()[b[i]] == a.h()[b[i]] && a.f().contains_key(a.h()[b[i]].face) by {
        assert(quad_at(o, a, b, i, xs[k - 1 - i], xs[k - i]));
        lemma_quads_keep(o, a, n, b, g, t2, i, xs[k - 1 - i], xs[k - i]); }
    assert forall|i: int| 0 <= i < k implies #[trigger] quad_at(o, n, b, i, ys[wrap(i + 1, k)], ys[i]) by {
        if i > 0 { assert(quad_at(o, n, b, i, xs[k - 1 - i], xs[k - i])); assert(ys[i] == xs[k - i]); assert(ys[wrap(i + 1, k)] == xs[k - 1 - i]); } else { assert(ys[1] == xs[k - 1]); } }
    assert forall|i: int, l: int| 0 <= i < l < k implies #[trigger] faces_differ(n, b, i, l) by {
        assert(quad_at(o, n, b, l, xs[k - 1 - l], xs[k - l]));
        if i > 0 { assert(quad_at(o, n, b, i, xs[k - 1 - i], xs[k - i])); assert(faces_differ(a, b, i, l)); } }
    assert(t2[k - 1] == t[k - 2]);
}
impl HalfEdgeMeshImpl {
//@fn src/operations/loft.rs trait MeshLoft :: loft_polygon_back
//@param vp: GIter<VP>
//@ret r
        requires old(self).valid(), old(self).h().contains_key(start), old(self).h()[start].face == NONE, n == 2, m == 2,
            vp.rest().len() == orbit(nmap(old(self).h()), old(self).h()[start].next).len(), vp.rest().len() >= 2,
            room_e(*old(self), 4 * (vp.rest().len() as int)), room_v(*old(self), vp.rest().len() as int), room_f(*old(self), vp.rest().len() as int),
        ensures final(self).valid(), grown(*old(self), *final(self), 4 * (vp.rest().len() as int), vp.rest().len() as int, vp.rest().len() as int),
            exists|ys: Seq<I>, t: Seq<I>| #[trigger] hem4(*old(self), *final(self), orbit(nmap(old(self).h()), old(self).h()[start].next), ys, t, turned_p(vp.rest())) && t.last() == r,
//@pre
        let ghost o = *self; let ghost b = orbit(nmap(self.h()), self.h()[start].next); let ghost k = b.len() as int; let ghost ps = vp.rest();
        let ghost mut a = *self; let ghost mut g = *self; let ghost mut c = 0int; let ghost mut q = NONE; let ghost mut w = NONE; let ghost mut T = Seq::<I>::empty(); let ghost mut xs = Seq::<I>::empty(); let ghost mut p = (NONE, NONE, NONE);
        proof { assert(link_ok(o.h(), start)); assert(edge_ok(o.h(), o.v(), o.f(), start)); lemma_orbit_ring(o, o.h()[start].next); assert(ring_at(o.h(), b, 0)); assert(ring_at(o.h(), b, k - 1)); }
//@aftercall add_vertex_via_edge_default 0
        proof {
            let (x, e1, e2) = choose|x: I, e1: I, e2: I| fresh1(o.v(), x) && fresh2(o.h(), e1, e2) && self.v() =~= o.v().insert(x, mkv(x, e2, ps[0])) && self.h() =~= #[trigger] pendant(o.h(), o.v(), start, o.h()[start].next, x, e1, e2, ps[0], ep_default(), ep_default());
            lemma_hang(o, *self, b, (x, e1, e2), ps[0]);
            lemma_back_start(o, *self, b, (x, e1, e2), ps);
            q = e1; w = e2; xs = seq![x];
        }
//@loop 0
            invariant o == *old(self), T.len() == c, o.h().contains_key(b[0]), 0 <= c < k, k == b.len(), k >= 2, ps.len() == k, iter.rest() == ps.skip(c + 1), back_state(o, *self, b, c, xs, q, T, w, ps), input == b[k - 1 - c], o.valid(), ring(o.h(), b),
                start_vertex == o.h()[b[0]].origin_id, o.h().contains_key(start), n == 2, m == 2, ret == (if c == 0 { start } else { T[c - 1] }),
                room_e(o, 4 * k), room_v(o, k), room_f(o, k), b == orbit(nmap(o.h()), o.h()[start].next), ps == vp.rest(),
            decreases k - c,
//@lstart 0
            proof {
                lemma_back_head(o, *self, b, c, xs, q, T, w, ps); a = *self;
                assert(ps.skip(c + 1).len() == k - c - 1); assert(o.h().contains_key(b[0])) by { assert(ring_at(o.h(), b, 0)); }
                if c == k - 1 { assert(a.h()[b[0]].prev == w); assert(tgt(a.h(), w) == o.h()[b[0]].origin_id); }
            }
//@loop 1
                invariant i_0 == 2, end_0 == 2, n == 2, *self == a, inside == q, input == a.h()[b[k - 1 - c]].prev, ret == (if c == 0 { start } else { T[c - 1] }), iter.rest() == ps.skip(c + 1),
                decreases end_0 - i_0,
//@loop 2
                invariant i_1 == 2, end_1 == 2, m == 2, *self == a, inside == q, input == a.h()[b[k - 1 - c]].prev, ret == (if c == 0 { start } else { T[c - 1] }), iter.rest() == ps.skip(c + 1),
                decreases end_1 - i_1,
//@beforecall target_id 1
            proof { assert(c == k - 1); assert(input == w); assert(start_vertex == tgt(self.h(), input)); }
//@beforecall close_face_default 0
                proof { assert(inside == q); assert(self.h()[input].prev == T.last()); }
//@aftercall close_face_default 0
                proof {
                    let r = choose|r: (I, I, I)| #[trigger] face_closed(a, *self, q, T.last(), ep_default(), ep_default(), fp_default(), false, r);
                    lemma_back_end(o, a, *self, b, xs, q, T, w, ps, r);
                    let t = T.push(r.2); let t2 = rot(t, t.len() - 1);
                    assert(hem4(o, *self, b, turned(xs), t2, turned_p(ps)) && t2.last() == ret);
                }
//@aftercall add_vertex_via_edge_default 2
            proof {
                let s = seq![b[k - 1 - c], q] + T + seq![w] + b.take(k - 1 - c);
                let (x, e1, e2) = choose|x: I, e1: I, e2: I| fresh1(a.v(), x) && fresh2(a.h(), e1, e2) && self.v() =~= a.v().insert(x, mkv(x, e2, vp)) && self.h() =~= #[trigger] pendant(a.h(), a.v(), input, a.h()[input].next, x, e1, e2, vp, ep_default(), ep_default());
                assert(s[0] == b[k - 1 - c]);
                assert(vp == ps[c + 1]);
                lemma_hang(a, *self, s, (x, e1, e2), vp);
                let u = s.push(e1).push(e2);
                assert(u[s.len() - 1] == s.last()); assert(ring_at(self.h(), u, s.len() - 1)); assert(ring_at(self.h(), u, 1)); assert(u[1] == q); assert(ring_at(self.h(), u, s.len() as int)); assert(u[s.len() as int] == e1);
                lemma_rot(self.h(), u, u.len() - 1);
                p = (x, e1, e2); g = *self;
                lemma_back_cap(o, a, g, b, c, xs, q, T, w, ps, p);
            }
//@aftercall close_face_default 1
            proof {
                let r = choose|r: (I, I, I)| #[trigger] face_closed(g, *self, q, p.1, ep_default(), ep_default(), fp_default(), false, r);
                lemma_back_step(o, a, g, *self, b, c, xs, q, T, w, ps, p, r);
                assert(ps.skip(c + 1).drop_first() =~= ps.skip(c + 2));
                T = seq![r.2] + T; xs = xs.push(p.0); q = p.1; c = c + 1;
                assert(T[c - 1] == (if c == 1 { r.2 } else { T[c - 1] }));
            }
//@endfn
//@fn src/operations/loft.rs trait MeshLoft :: loft_polygon
//@param vp: GIter<VP>
//@ret r
        requires old(self).valid(), old(self).h().contains_key(start), old(self).h()[start].face == NONE, n == 2, m == 2,
            vp.rest().len() == orbit(nmap(old(self).h()), start).len(), vp.rest().len() >= 2,
            room_e(*old(self), 4 * (vp.rest().len() as int)), room_v(*old(self), vp.rest().len() as int), room_f(*old(self), vp.rest().len() as int),
        ensures final(self).valid(), grown(*old(self), *final(self), 4 * (vp.rest().len() as int), vp.rest().len() as int, vp.rest().len() as int),
            exists|ys: Seq<I>, t: Seq<I>| #[trigger] hem4(*old(self), *final(self), orbit(nmap(old(self).h()), start), ys, t, vp.rest()) && t[0] == r,
//@pre
        let ghost o = *self; let ghost b = orbit(nmap(self.h()), start); let ghost k = b.len() as int; let ghost ps = vp.rest();
        let ghost mut a = *self; let ghost mut g = *self; let ghost mut c = 0int; let ghost mut q = NONE; let ghost mut w = NONE; let ghost mut T = Seq::<I>::empty(); let ghost mut xs = Seq::<I>::empty(); let ghost mut p = (NONE, NONE, NONE);
        proof { lemma_orbit_ring(o, start); assert(ring_at(o.h(), b, 0)); assert(ring_at(o.h(), b, k - 1)); }
//@aftercall add_vertex_via_edge_default 0
        proof {
            let (x, e1, e2) = choose|x: I, e1: I, e2: I| fresh1(o.v(), x) && fresh2(o.h(), e1, e2) && self.v() =~= o.v().insert(x, mkv(x, e2, ps[0])) && self.h() =~= #[trigger] pendant(o.h(), o.v(), o.h()[start].prev, start, x, e1, e2, ps[0], ep_default(), ep_default());
            lemma_hang(o, *self, b, (x, e1, e2), ps[0]);
            lemma_fwd_start(o, *self, b, (x, e1, e2), ps);
            q = e1; w = e2; xs = seq![x];
        }
//@loop 0
            invariant o == *old(self), T.len() == c, o.h().contains_key(b[0]), 0 <= c < k, k == b.len(), k >= 2, ps.len() == k, iter.rest() == ps.skip(c + 1), fwd_state(o, *self, b, c, xs, q, T, w, ps), input == b[c], b[0] == start, o.valid(), ring(o.h(), b),
                start_vertex == o.h()[b[0]].origin_id, o.h().contains_key(start), n == 2, m == 2, ret == (if c == 0 { start } else { T[0] }),
                room_e(o, 4 * k), room_v(o, k), room_f(o, k), b == orbit(nmap(o.h()), start), ps == vp.rest(),
            decreases k - c,
//@lstart 0
            proof {
                lemma_fwd_head(o, *self, b, c, xs, q, T, w, ps); a = *self;
                assert(ps.skip(c + 1).len() == k - c - 1);
            }
//@loop 1
                invariant i_0 == 2, end_0 == 2, n == 2, *self == a, inside == w, input == a.h()[b[c]].next, ret == (if c == 0 { start } else { T[0] }), iter.rest() == ps.skip(c + 1),
                decreases end_0 - i_0,
//@loop 2
                invariant i_1 == 2, end_1 == 2, m == 2, *self == a, inside == w, input == a.h()[b[c]].next, ret == (if c == 0 { start } else { T[0] }), iter.rest() == ps.skip(c + 1),
                decreases end_1 - i_1,
//@aftercall close_face_default 0
                proof {
                    let r = choose|r: (I, I, I)| #[trigger] face_closed(a, *self, q, T.last(), ep_default(), ep_default(), fp_default(), false, r);
                    lemma_fwd_end(o, a, *self, b, xs, q, T, w, ps, r);
                    let t = T.push(r.2);
                    assert(hem4(o, *self, b, xs, t, ps) && t[0] == ret);
                }
//@aftercall add_vertex_via_edge_default 2
            proof {
                let s = fturn(b, c, q, T, w);
                let (x, e1, e2) = choose|x: I, e1: I, e2: I| fresh1(a.v(), x) && fresh2(a.h(), e1, e2) && self.v() =~= a.v().insert(x, mkv(x, e2, vp)) && self.h() =~= #[trigger] pendant(a.h(), a.v(), a.h()[input].prev, input, x, e1, e2, vp, ep_default(), ep_default());
                assert(vp == ps[c + 1]);
                lemma_hang(a, *self, s, (x, e1, e2), vp);
                p = (x, e1, e2); g = *self;
                lemma_fwd_cap(o, a, g, b, c, xs, q, T, w, ps, p);
            }
//@aftercall close_face_default 1
            proof {
                let z = if c > 0 { T.last() } else { q };
                let r = choose|r: (I, I, I)| #[trigger] face_closed(g, *self, p.1, z, ep_default(), ep_default(), fp_default(), false, r);
                lemma_fwd_step(o, a, g, *self, b, c, xs, q, T, w, ps, p, r);
                assert(ps.skip(c + 1).drop_first() =~= ps.skip(c + 2));
                T = T.push(r.2); xs = xs.push(p.0); w = p.2; c = c + 1;
            }
//@endfn
}
