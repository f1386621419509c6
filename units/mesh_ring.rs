// Holes as rings of face-less half-edges, and what the building operations do to them.

/// position i of the ring: a face-less half-edge followed by the next position
spec fn ring_at(h: HMap, s: Seq<I>, i: int) -> bool {
    h.contains_key(s[i]) && h[s[i]].face == NONE && h[s[i]].next == s[pn(i, s.len() as int)] && h[s[pn(i, s.len() as int)]].prev == s[i]
}
/// s is a whole hole of the mesh
spec fn ring(h: HMap, s: Seq<I>) -> bool {
    s.len() >= 1 && s.no_duplicates() && forall|i: int| 0 <= i < s.len() ==> #[trigger] ring_at(h, s, i)
}
/// the same cycle starting k positions later
spec fn rot(s: Seq<I>, k: int) -> Seq<I> { s.skip(k) + s.take(k) }
/// t is the whole loop of face F
spec fn face_at(h: HMap, t: Seq<I>, F: I, i: int) -> bool {
    h.contains_key(t[i]) && h[t[i]].face == F && h[t[i]].next == t[pn(i, t.len() as int)] && h[t[pn(i, t.len() as int)]].prev == t[i]
}
spec fn face_loop(h: HMap, t: Seq<I>, F: I) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] face_at(h, t, F, i) }
spec fn same_skel(a: HalfEdgeImpl, b: HalfEdgeImpl) -> bool { a.id == b.id && a.twin == b.twin && a.origin_id == b.origin_id && a.payload == b.payload }
/// the free half-edges s of a were worked on and t is free in their place; nothing else of a changed
#[verifier::opaque]
spec fn swapped(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, s: Seq<I>, t: Seq<I>) -> bool {
    &&& b.payload == a.payload
    &&& forall|e: I| #[trigger] a.h().contains_key(e) ==> b.h().contains_key(e) && same_skel(a.h()[e], b.h()[e])
    &&& forall|e: I| #[trigger] a.h().contains_key(e) && !s.contains(e) ==> b.h()[e] == a.h()[e]
    &&& forall|e: I| #[trigger] b.h().contains_key(e) && b.h()[e].face == NONE ==> t.contains(e) || (a.h().contains_key(e) && !s.contains(e))
    &&& forall|e: I| #[trigger] t.contains(e) ==> b.h().contains_key(e) && b.h()[e].face == NONE && (a.h().contains_key(e) ==> s.contains(e))
    &&& forall|x: I| #[trigger] a.v().contains_key(x) ==> b.v().contains_key(x) && b.v()[x] == a.v()[x]
    &&& forall|x: I| #[trigger] a.f().contains_key(x) ==> b.f().contains_key(x) && b.f()[x] == a.f()[x]
}
proof fn lemma_swapped_refl(a: HalfEdgeMeshImpl, s: Seq<I>)
    requires ring(a.h(), s),
    ensures swapped(a, a, s, s),
{
    reveal(swapped);
    assert forall|e: I| #[trigger] s.contains(e) implies a.h().contains_key(e) && a.h()[e].face == NONE by { let i = choose|i: int| 0 <= i < s.len() && s[i] == e; assert(ring_at(a.h(), s, i)); }
}
proof fn lemma_swapped_trans(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, c: HalfEdgeMeshImpl, s: Seq<I>, t: Seq<I>, u: Seq<I>)
    requires swapped(a, b, s, t), swapped(b, c, t, u),
    ensures swapped(a, c, s, u),
{
    reveal(swapped);
    assert forall|e: I| #[trigger] a.h().contains_key(e) implies c.h().contains_key(e) && same_skel(a.h()[e], c.h()[e]) by { assert(b.h().contains_key(e)); }
    assert forall|e: I| #[trigger] a.h().contains_key(e) && !s.contains(e) implies c.h()[e] == a.h()[e] by { assert(b.h().contains_key(e)); assert(!t.contains(e)); }
    assert forall|e: I| #[trigger] c.h().contains_key(e) && c.h()[e].face == NONE implies u.contains(e) || (a.h().contains_key(e) && !s.contains(e)) by {
        if !u.contains(e) { assert(b.h().contains_key(e) && !t.contains(e)); assert(c.h()[e] == b.h()[e]); } }
    assert forall|e: I| #[trigger] u.contains(e) implies c.h().contains_key(e) && c.h()[e].face == NONE && (a.h().contains_key(e) ==> s.contains(e)) by {
        if a.h().contains_key(e) { assert(b.h().contains_key(e)); assert(t.contains(e)); } }
    assert forall|x: I| #[trigger] a.v().contains_key(x) implies c.v().contains_key(x) && c.v()[x] == a.v()[x] by { assert(b.v().contains_key(x)); }
    assert forall|x: I| #[trigger] a.f().contains_key(x) implies c.f().contains_key(x) && c.f()[x] == a.f()[x] by { assert(b.f().contains_key(x)); }
}
spec fn same_members(s: Seq<I>, t: Seq<I>) -> bool { forall|e: I| #[trigger] s.contains(e) <==> t.contains(e) }
proof fn lemma_swapped_members(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, s: Seq<I>, t: Seq<I>, s2: Seq<I>, t2: Seq<I>)
    requires swapped(a, b, s, t), same_members(s, s2), same_members(t, t2),
    ensures swapped(a, b, s2, t2),
{
    reveal(swapped);
    assert forall|e: I| #[trigger] t2.contains(e) implies t.contains(e) by { assert(t.contains(e) <==> t2.contains(e)); }
}
/// what keeps: half-edges outside the ring, in particular all that belong to faces, and the origins and twins of all
proof fn lemma_swapped_keep(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, s: Seq<I>, t: Seq<I>)
    requires swapped(a, b, s, t), ring(a.h(), s),
    ensures
        forall|e: I| #[trigger] a.h().contains_key(e) ==> b.h().contains_key(e) && same_skel(a.h()[e], b.h()[e]),
        forall|e: I| #[trigger] a.h().contains_key(e) && a.h()[e].face != NONE ==> b.h()[e] == a.h()[e],
        forall|x: I| #[trigger] a.v().contains_key(x) ==> b.v().contains_key(x) && b.v()[x] == a.v()[x],
        forall|x: I| #[trigger] a.f().contains_key(x) ==> b.f().contains_key(x) && b.f()[x] == a.f()[x],
{
    reveal(swapped);
    assert forall|e: I| #[trigger] a.h().contains_key(e) && a.h()[e].face != NONE implies b.h()[e] == a.h()[e] by {
        if s.contains(e) { let i = choose|i: int| 0 <= i < s.len() && s[i] == e; assert(ring_at(a.h(), s, i)); } }
}
proof fn lemma_face_loop_keep(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, s: Seq<I>, t: Seq<I>, q: Seq<I>, F: I)
    requires swapped(a, b, s, t), ring(a.h(), s), face_loop(a.h(), q, F), F != NONE,
    ensures face_loop(b.h(), q, F),
{
    lemma_swapped_keep(a, b, s, t);
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] face_at(b.h(), q, F, i) by { assert(face_at(a.h(), q, F, i)); assert(face_at(a.h(), q, F, pn(i, q.len() as int))); }
}
proof fn lemma_rot(h: HMap, s: Seq<I>, k: int)
    requires 0 <= k <= s.len(), ring(h, s),
    ensures ring(h, rot(s, k)), same_members(s, rot(s, k)), rot(s, k).len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] rot(s, k)[i] == (if i + k < s.len() { s[i + k] } else { s[i + k - s.len()] }),
{
    let r = rot(s, k); let n = s.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] r[i] == (if i + k < n { s[i + k] } else { s[i + k - n] }) by { }
    assert forall|e: I| #[trigger] s.contains(e) <==> r.contains(e) by {
        if s.contains(e) { let i = choose|i: int| 0 <= i < n && s[i] == e; let j = if i >= k { i - k } else { i - k + n }; assert(r[j] == e); }
        if r.contains(e) { let i = choose|i: int| 0 <= i < n && r[i] == e; let j = if i + k < n { i + k } else { i + k - n }; assert(s[j] == e); }
    }
    assert forall|i: int| 0 <= i < n implies #[trigger] ring_at(h, r, i) by {
        let j = if i + k < n { i + k } else { i + k - n };
        assert(ring_at(h, s, j)); assert(r[pn(i, n)] == s[pn(j, n)]);
    }
}
/// the ring contains exactly the loop of each of its members
proof fn lemma_ring_orbit(m: HalfEdgeMeshImpl, s: Seq<I>)
    requires m.valid(), ring(m.h(), s),
    ensures same_members(orbit(nmap(m.h()), s[0]), s), orbit(nmap(m.h()), s[0]) =~= s,
{
    let h = m.h(); let p = nmap(h); let n = s.len() as int;
    lemma_nperm(m);
    assert(ring_at(h, s, 0));
    assert forall|i: int| 0 <= i < n implies p[#[trigger] s[i]] == s[pn(i, n)] by { assert(ring_at(h, s, i)); }
    lemma_cycle(p, pmap(h), hsize(m), s);
    assert(same_members(orbit(p, s[0]), s));
    lemma_orbit(p, pmap(h), hsize(m), s[0]);
    let o = orbit(p, s[0]);
    assert forall|i: int| 0 <= i < n && i < o.len() implies o[i] == s[i] by { lemma_prefix(o, s, p, i); }
    if o.len() < n { assert(o[o.len() - 1] == s[o.len() - 1]); assert(p[o[o.len() - 1]] == o[0]); assert(s[o.len() as int] == s[0]); }
    if n < o.len() { assert(o[n - 1] == s[n - 1]); assert(p[s[n - 1]] == s[0]); assert(o[n] == o[0]); }
}
proof fn lemma_prefix(o: Seq<I>, s: Seq<I>, p: IMap<I, I>, i: int)
    requires 0 <= i < o.len(), i < s.len(), o[0] == s[0],
        forall|j: int| 0 <= j < o.len() ==> p[#[trigger] o[j]] == o[if j + 1 < o.len() { j + 1 } else { 0 }],
        forall|j: int| 0 <= j < s.len() ==> p[#[trigger] s[j]] == s[pn(j, s.len() as int)],
    ensures o[i] == s[i],
    decreases i,
{
    if i > 0 { lemma_prefix(o, s, p, i - 1); assert(p[o[i - 1]] == o[i]); assert(p[s[i - 1]] == s[i]); }
}
/// the loop of a face-less half-edge is a ring
proof fn lemma_orbit_ring(m: HalfEdgeMeshImpl, e: I)
    requires m.valid(), m.h().contains_key(e), m.h()[e].face == NONE,
    ensures ring(m.h(), orbit(nmap(m.h()), e)), orbit(nmap(m.h()), e)[0] == e, orbit(nmap(m.h()), e).len() <= hsize(m),
        orbit(nmap(m.h()), e).last() == m.h()[e].prev,
{
    let h = m.h(); let s = orbit(nmap(h), e);
    lemma_loop(m, e); lemma_nperm(m); lemma_orbit(nmap(h), pmap(h), hsize(m), e);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] ring_at(h, s, i) by {
        assert(h.contains_key(s[i])); assert(nmap(h)[s[i]] == h[s[i]].next); assert(link_ok(h, s[i])); }
    assert(ring_at(h, s, s.len() - 1));
}
proof fn lemma_ring_member(h: HMap, s: Seq<I>, e: I)
    requires ring(h, s), s.contains(e),
    ensures h.contains_key(e), h[e].face == NONE,
{ let i = choose|i: int| 0 <= i < s.len() && s[i] == e; assert(ring_at(h, s, i)); }

/// a new vertex hangs off the ring between its last and its first half-edge
spec fn hung(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, s: Seq<I>, r: (I, I, I), vp: VP) -> bool {
    &&& ring(b.h(), s.push(r.1).push(r.2)) && swapped(a, b, s, s.push(r.1).push(r.2))
    &&& b.f() == a.f() && fresh1(a.v(), r.0) && fresh2(a.h(), r.1, r.2) && b.v() =~= a.v().insert(r.0, mkv(r.0, r.2, vp))
    &&& b.h()[r.1].origin_id == a.h()[s[0]].origin_id && b.h()[r.2].origin_id == r.0 && b.h()[r.1].twin == r.2 && b.h()[r.2].twin == r.1
    &&& forall|e: I| #[trigger] b.h().contains_key(e) <==> a.h().contains_key(e) || e == r.1 || e == r.2
}
proof fn lemma_hang(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, s: Seq<I>, r: (I, I, I), vp: VP)
    requires a.valid(), ring(a.h(), s), fresh2(a.h(), r.1, r.2), fresh1(a.v(), r.0), b.f() == a.f(), b.payload == a.payload,
        b.v() =~= a.v().insert(r.0, mkv(r.0, r.2, vp)), b.h() =~= pendant(a.h(), a.v(), s.last(), s[0], r.0, r.1, r.2, vp, ep_default(), ep_default()),
    ensures hung(a, b, s, r, vp),
{
    reveal(swapped);
    let (x, e1, e2) = r; let h = a.h(); let g = b.h(); let n = s.len() as int; let t = s.push(e1).push(e2);
    assert(ring_at(h, s, n - 1)); assert(ring_at(h, s, 0));
    assert forall|i: int| 0 <= i < n implies h.contains_key(#[trigger] s[i]) && s[i] != e1 && s[i] != e2 by { assert(ring_at(h, s, i)); }
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] ring_at(g, t, i) by {
        if i < n { assert(ring_at(h, s, i)); if i + 1 < n { assert(ring_at(h, s, i + 1)); assert(s[i + 1] != s[0]); assert(s[i] != s[n - 1]); } } }
    assert forall|e: I| #[trigger] t.contains(e) <==> s.contains(e) || e == e1 || e == e2 by {
        if s.contains(e) { let i = choose|i: int| 0 <= i < n && s[i] == e; assert(t[i] == e); }
        if t.contains(e) { let i = choose|i: int| 0 <= i < t.len() && t[i] == e; if i < n { assert(s[i] == e); } }
        assert(t[n] == e1); assert(t[n + 1] == e2);
    }
    assert(s.contains(s[0])); assert(s.contains(s[n - 1]));
    assert forall|e: I| #[trigger] s.contains(e) implies h.contains_key(e) && h[e].face == NONE by { lemma_ring_member(h, s, e); }
}
/// the stretch seg of the ring seg + rest was closed by the half-edge r.1 into face r.0; r.2 takes its place
spec fn capped(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, seg: Seq<I>, rest: Seq<I>, r: (I, I, I)) -> bool {
    &&& ring(b.h(), rest.push(r.2)) && swapped(a, b, seg + rest, rest.push(r.2))
    &&& face_loop(b.h(), seg.push(r.1), r.0) && fresh1(a.f(), r.0) && fresh2(a.h(), r.1, r.2) && b.v() == a.v()
    &&& b.h()[r.1].origin_id == a.h()[rest[0]].origin_id && b.h()[r.2].origin_id == a.h()[seg[0]].origin_id && b.h()[r.1].twin == r.2 && b.h()[r.2].twin == r.1
    &&& b.f().contains_key(r.0) && forall|F: I| #[trigger] b.f().contains_key(F) <==> a.f().contains_key(F) || F == r.0
    &&& forall|e: I| #[trigger] b.h().contains_key(e) <==> a.h().contains_key(e) || e == r.1 || e == r.2
}
/// the place where seg may be closed
spec fn cappable(h: HMap, seg: Seq<I>, rest: Seq<I>) -> bool {
    seg.len() >= 1 && rest.len() >= 1 && ring(h, seg + rest) && h[seg[0]].origin_id != h[rest[0]].origin_id
}
proof fn lemma_cappable(h: HMap, seg: Seq<I>, rest: Seq<I>)
    requires cappable(h, seg, rest),
    ensures bridgeable(h, seg.last(), rest.last()), tgt(h, seg.last()) == h[rest[0]].origin_id, tgt(h, rest.last()) == h[seg[0]].origin_id,
{
    let s = seg + rest;
    assert(ring_at(h, s, seg.len() - 1)); assert(ring_at(h, s, s.len() - 1));
    assert(s[seg.len() - 1] == seg.last()); assert(s[s.len() - 1] == rest.last()); assert(s[0] == seg[0]); assert(s[seg.len() as int] == rest[0]);
}
/// the half-edge table after capping, element by element
spec fn cap_edge(h: HMap, m: HMap, seg: Seq<I>, rest: Seq<I>, r: (I, I, I), e: I) -> bool {
    m.contains_key(e) && same_skel(h[e], m[e]) && e != r.1 && e != r.2
    && m[e].face == (if seg.contains(e) { r.0 } else { h[e].face })
    && m[e].next == (if e == seg.last() { r.1 } else if e == rest.last() { r.2 } else { h[e].next })
    && m[e].prev == (if e == seg[0] { r.1 } else if e == rest[0] { r.2 } else { h[e].prev })
}
spec fn cap_table(h: HMap, m: HMap, seg: Seq<I>, rest: Seq<I>, r: (I, I, I)) -> bool {
    &&& forall|e: I| #[trigger] h.contains_key(e) ==> cap_edge(h, m, seg, rest, r, e)
    &&& forall|e: I| #[trigger] m.contains_key(e) <==> h.contains_key(e) || e == r.1 || e == r.2
    &&& m[r.1] == mk(r.1, seg[0], r.2, seg.last(), h[rest[0]].origin_id, r.0, ep_default())
    &&& m[r.2] == mk(r.2, rest[0], r.1, rest.last(), h[seg[0]].origin_id, NONE, ep_default())
}
spec fn step_at(g: HMap, q: Seq<I>, j: int) -> bool { g.contains_key(q[j]) && g[q[j]].next == q[pn(j, q.len() as int)] }
/// the loop of any member of a cycle is the cycle
proof fn lemma_cycle_at(g: HMap, P: IMap<I, I>, N: int, q: Seq<I>, e: I)
    requires perm(nmap(g), P, N), q.len() >= 1, forall|j: int| 0 <= j < q.len() ==> #[trigger] step_at(g, q, j), q.contains(e),
    ensures forall|x: I| #[trigger] orbit(nmap(g), e).contains(x) <==> q.contains(x),
{
    let p = nmap(g);
    assert(step_at(g, q, 0));
    assert forall|j: int| 0 <= j < q.len() implies p[#[trigger] q[j]] == q[pn(j, q.len() as int)] by { assert(step_at(g, q, j)); }
    lemma_cycle(p, P, N, q);
    let a = q[0];
    lemma_orbit_contains(p, P, N, a);
    assert(orbit(p, a).contains(e));
    lemma_reach_sym(p, P, N, a, e);
    lemma_orbit_contains(p, P, N, e);
    assert forall|x: I| #[trigger] orbit(p, e).contains(x) <==> q.contains(x) by {
        assert(orbit(p, e).contains(x) <==> reach(p, e, x));
        assert(orbit(p, a).contains(x) <==> reach(p, a, x));
        if reach(p, e, x) { lemma_reach_trans(p, a, e, x); }
        if reach(p, a, x) { lemma_reach_trans(p, e, a, x); }
    }
}
proof fn lemma_push_contains(s: Seq<I>, x: I)
    ensures forall|e: I| #[trigger] s.push(x).contains(e) <==> s.contains(e) || e == x,
{
    let t = s.push(x);
    assert forall|e: I| #[trigger] t.contains(e) <==> s.contains(e) || e == x by {
        if t.contains(e) { let j = choose|j: int| 0 <= j < t.len() && t[j] == e; if j < s.len() { assert(s[j] == e); } }
        if s.contains(e) { let j = choose|j: int| 0 <= j < s.len() && s[j] == e; assert(t[j] == e); }
        assert(t[s.len() as int] == x);
    }
}
proof fn lemma_cap_links(h: HMap, v: VMap, f: FMap, g: HMap, seg: Seq<I>, rest: Seq<I>, e1: I, e2: I, ep1: EP, ep2: EP)
    requires wf(h, v, f), cappable(h, seg, rest), fresh2(h, e1, e2), g == bridged(h, seg.last(), rest.last(), e1, e2, ep1, ep2),
    ensures forall|j: int| 0 <= j < seg.len() + 1 ==> #[trigger] step_at(g, seg.push(e1), j), !seg.contains(e2), h[rest.last()].next == seg[0], h[seg.last()].next == rest[0],
{
    hide(bridged);
    let s = seg + rest; let (i, o) = (seg.last(), rest.last()); let n = s.len() as int; let k = seg.len() as int; let q = seg.push(e1);
    lemma_cappable(h, seg, rest);
    lemma_bridge_at(h, v, f, i, o, e1, e2, ep1, ep2);
    assert(s[0] == seg[0] && s[k - 1] == i && s[k] == rest[0] && s[n - 1] == o);
    assert(ring_at(h, s, k - 1)); assert(ring_at(h, s, n - 1));
    assert(g.contains_key(e1));
    assert forall|j: int| 0 <= j < k + 1 implies #[trigger] step_at(g, q, j) by {
        if j < k { assert(q[j] == s[j]); assert(ring_at(h, s, j)); assert(h.contains_key(s[j]));
            if j + 1 < k { assert(q[j + 1] == s[j + 1]); assert(s[j] != s[k - 1]); assert(s[j] != s[n - 1]); } } }
    assert(!seg.contains(e2)) by { if seg.contains(e2) { let l = choose|l: int| 0 <= l < k && seg[l] == e2; assert(s[l] == e2); assert(ring_at(h, s, l)); } }
}
proof fn lemma_cap_members(b: HalfEdgeMeshImpl, g: HMap, seg: Seq<I>, e1: I, F: I)
    requires b.valid(), seg.len() >= 1, b.h() =~= faces_set(g, orbit(nmap(g), seg.last()), F), forall|j: int| 0 <= j < seg.len() + 1 ==> #[trigger] step_at(g, seg.push(e1), j),
    ensures forall|e: I| #[trigger] orbit(nmap(g), seg.last()).contains(e) <==> seg.contains(e) || e == e1,
{
    let q = seg.push(e1); let i = seg.last(); let O = orbit(nmap(g), i);
    lemma_faces_set(g, O, F);
    lemma_nperm(b);
    lemma_push_contains(seg, e1);
    assert(q[seg.len() - 1] == i);
    assert(q.contains(i));
    assert(b.h() == faces_set(g, O, F));
    lemma_cycle_at(g, pmap(b.h()), hsize(b), q, i);
    assert forall|e: I| #[trigger] O.contains(e) <==> seg.contains(e) || e == e1 by { assert(q.contains(e) <==> seg.contains(e) || e == e1); }
}
proof fn lemma_cap_table(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, seg: Seq<I>, rest: Seq<I>, r: (I, I, I), fp: FP, curved: bool)
    requires a.valid(), b.valid(), cappable(a.h(), seg, rest), face_closed(a, b, seg.last(), rest.last(), ep_default(), ep_default(), fp, curved, r),
    ensures cap_table(a.h(), b.h(), seg, rest, r),
{
    hide(bridged); hide(wf); hide(ring); hide(orbit); hide(nmap);
    let (F, e1, e2) = r; let h = a.h(); let (i, o) = (seg.last(), rest.last());
    let g = bridged(h, i, o, e1, e2, ep_default(), ep_default()); let m = b.h(); let O = orbit(nmap(g), i);
    lemma_cappable(h, seg, rest);
    lemma_bridge_at(h, a.v(), a.f(), i, o, e1, e2, ep_default(), ep_default());
    lemma_cap_links(h, a.v(), a.f(), g, seg, rest, e1, e2, ep_default(), ep_default());
    lemma_cap_members(b, g, seg, e1, F);
    assert(m == faces_set(g, O, F));
    assert forall|e: I| #[trigger] m.contains_key(e) <==> h.contains_key(e) || e == e1 || e == e2 by { assert(m.contains_key(e) <==> g.contains_key(e)); }
    assert(g.contains_key(e1) && g.contains_key(e2));
    assert(O.contains(e1) && !O.contains(e2));
    assert forall|e: I| #[trigger] h.contains_key(e) implies cap_edge(h, m, seg, rest, r, e) by { assert(g.contains_key(e)); assert(O.contains(e) <==> seg.contains(e)); }
}
proof fn lemma_cap_face(h: HMap, m: HMap, seg: Seq<I>, rest: Seq<I>, r: (I, I, I))
    requires cappable(h, seg, rest), cap_table(h, m, seg, rest, r),
    ensures face_loop(m, seg.push(r.1), r.0),
{
    let s = seg + rest; let n = s.len() as int; let k = seg.len() as int; let q = seg.push(r.1);
    assert(s[0] == seg[0] && s[k - 1] == seg.last() && s[k] == rest[0] && s[n - 1] == rest.last());
    assert forall|j: int| 0 <= j < q.len() implies #[trigger] face_at(m, q, r.0, j) by {
        if j < k { assert(seg.contains(seg[j])); assert(q[j] == s[j]); assert(ring_at(h, s, j)); assert(cap_edge(h, m, seg, rest, r, s[j])); }
        if j + 1 < k { assert(q[j + 1] == s[j + 1]); assert(s[j] != s[k - 1]); assert(s[j] != s[n - 1]); assert(s[j + 1] != s[k]); assert(s[j + 1] != s[0]); assert(ring_at(h, s, j + 1)); assert(cap_edge(h, m, seg, rest, r, s[j + 1])); }
        if j == k { assert(ring_at(h, s, 0)); assert(cap_edge(h, m, seg, rest, r, s[0])); }
    }
}
proof fn lemma_cap_ring(h: HMap, m: HMap, seg: Seq<I>, rest: Seq<I>, r: (I, I, I))
    requires cappable(h, seg, rest), cap_table(h, m, seg, rest, r),
    ensures ring(m, rest.push(r.2)), forall|j: int| 0 <= j < rest.len() ==> !seg.contains(#[trigger] rest[j]),
{
    let s = seg + rest; let n = s.len() as int; let k = seg.len() as int; let t = rest.push(r.2); let nt = t.len() as int;
    assert(s[0] == seg[0] && s[k - 1] == seg.last() && s[k] == rest[0] && s[n - 1] == rest.last());
    assert forall|j: int| 0 <= j < rest.len() implies !seg.contains(#[trigger] rest[j]) by {
        assert(s[k + j] == rest[j]); if seg.contains(rest[j]) { let l = choose|l: int| 0 <= l < k && seg[l] == rest[j]; assert(s[l] == rest[j]); } }
    assert forall|j: int| 0 <= j < nt implies #[trigger] ring_at(m, t, j) by {
        if j < nt - 1 { assert(t[j] == s[k + j]); assert(ring_at(h, s, k + j)); assert(cap_edge(h, m, seg, rest, r, s[k + j])); assert(!seg.contains(rest[j])); assert(s[k + j] != s[k - 1]);
            if j + 1 < nt - 1 { assert(t[j + 1] == s[k + j + 1]); assert(s[k + j] != s[n - 1]); assert(s[k + j + 1] != s[k]); assert(s[k + j + 1] != s[0]); assert(ring_at(h, s, k + j + 1)); assert(cap_edge(h, m, seg, rest, r, s[k + j + 1])); }
        } else { assert(ring_at(h, s, k)); assert(cap_edge(h, m, seg, rest, r, s[k])); assert(s[k] != s[0]); }
    }
    assert(t.no_duplicates()) by {
        assert forall|x: int, y: int| 0 <= x < nt && 0 <= y < nt && x != y implies t[x] != t[y] by {
            if x < nt - 1 { assert(t[x] == s[k + x]); assert(ring_at(h, s, k + x)); assert(cap_edge(h, m, seg, rest, r, s[k + x])); }
            if y < nt - 1 { assert(t[y] == s[k + y]); assert(ring_at(h, s, k + y)); assert(cap_edge(h, m, seg, rest, r, s[k + y])); } } }
}
proof fn lemma_cap(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, seg: Seq<I>, rest: Seq<I>, r: (I, I, I), fp: FP, curved: bool)
    requires a.valid(), b.valid(), cappable(a.h(), seg, rest), b.vertices == a.vertices, b.payload == a.payload,
        face_closed(a, b, seg.last(), rest.last(), ep_default(), ep_default(), fp, curved, r),
    ensures capped(a, b, seg, rest, r),
{
    lemma_cap_table(a, b, seg, rest, r, fp, curved);
    lemma_cap_face(a.h(), b.h(), seg, rest, r);
    lemma_cap_ring(a.h(), b.h(), seg, rest, r);
    lemma_cap_swap(a, b, seg, rest, r, fp, curved);
}
proof fn lemma_cap_swap(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, seg: Seq<I>, rest: Seq<I>, r: (I, I, I), fp: FP, curved: bool)
    requires cappable(a.h(), seg, rest), cap_table(a.h(), b.h(), seg, rest, r), ring(b.h(), rest.push(r.2)), forall|j: int| 0 <= j < rest.len() ==> !seg.contains(#[trigger] rest[j]),
        b.v() == a.v(), b.payload == a.payload, fresh1(a.f(), r.0), fresh2(a.h(), r.1, r.2), b.f() =~= a.f().insert(r.0, mkf(r.0, seg.last(), curved, fp)),
    ensures swapped(a, b, seg + rest, rest.push(r.2)),
{
    reveal(swapped);
    let s = seg + rest; let n = s.len() as int; let k = seg.len() as int; let t = rest.push(r.2); let nt = t.len() as int; let (h, m) = (a.h(), b.h());
    assert(s[0] == seg[0] && s[k - 1] == seg.last() && s[k] == rest[0] && s[n - 1] == rest.last());
    assert forall|e: I| #[trigger] t.contains(e) <==> rest.contains(e) || e == r.2 by {
        if t.contains(e) { let j = choose|j: int| 0 <= j < nt && t[j] == e; if j < nt - 1 { assert(rest[j] == e); } }
        if rest.contains(e) { let j = choose|j: int| 0 <= j < nt - 1 && rest[j] == e; assert(t[j] == e); }
        assert(t[nt - 1] == r.2);
    }
    assert forall|e: I| #[trigger] s.contains(e) <==> seg.contains(e) || rest.contains(e) by {
        if s.contains(e) { let j = choose|j: int| 0 <= j < n && s[j] == e; if j < k { assert(seg[j] == e); } else { assert(rest[j - k] == e); } }
        if seg.contains(e) { let j = choose|j: int| 0 <= j < k && seg[j] == e; assert(s[j] == e); }
        if rest.contains(e) { let j = choose|j: int| 0 <= j < nt - 1 && rest[j] == e; assert(s[k + j] == e); }
    }
    assert(s.contains(s[0])); assert(s.contains(s[k - 1])); assert(s.contains(s[k])); assert(s.contains(s[n - 1]));
    assert forall|e: I| #[trigger] h.contains_key(e) && !s.contains(e) implies m[e] == h[e] by { assert(cap_edge(h, m, seg, rest, r, e)); }
    assert forall|e: I| #[trigger] m.contains_key(e) && m[e].face == NONE implies t.contains(e) || (h.contains_key(e) && !s.contains(e)) by {
        if h.contains_key(e) { assert(cap_edge(h, m, seg, rest, r, e)); } }
    assert forall|e: I| #[trigger] t.contains(e) implies m.contains_key(e) && m[e].face == NONE && (h.contains_key(e) ==> s.contains(e)) by {
        lemma_ring_member(m, t, e); }
    assert forall|e: I| #[trigger] h.contains_key(e) implies m.contains_key(e) && same_skel(h[e], m[e]) by { assert(cap_edge(h, m, seg, rest, r, e)); }
}
/// the ring s was closed into face F
spec fn plugged(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, s: Seq<I>, F: I) -> bool {
    &&& swapped(a, b, s, Seq::empty()) && face_loop(b.h(), s, F) && fresh1(a.f(), F) && b.v() == a.v()
    &&& forall|G: I| #[trigger] b.f().contains_key(G) <==> a.f().contains_key(G) || G == F
    &&& forall|e: I| #[trigger] b.h().contains_key(e) <==> a.h().contains_key(e)
}
proof fn lemma_plug(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, s: Seq<I>, e: I, F: I, curved: bool, fp: FP)
    requires a.valid(), ring(a.h(), s), s.contains(e), b.vertices == a.vertices, b.payload == a.payload, fresh1(a.f(), F), b.f() =~= a.f().insert(F, mkf(F, e, curved, fp)),
        b.h() =~= faces_set(a.h(), orbit(nmap(a.h()), e), F),
    ensures plugged(a, b, s, F),
{
    reveal(swapped);
    let h = a.h(); let g = b.h(); let n = s.len() as int;
    let k = choose|k: int| 0 <= k < n && s[k] == e;
    lemma_rot(h, s, k);
    let t = rot(s, k);
    assert(t[0] == e);
    lemma_ring_orbit(a, t);
    assert forall|i: int| 0 <= i < n implies #[trigger] face_at(g, s, F, i) by { assert(ring_at(h, s, i)); assert(ring_at(h, s, pn(i, n))); assert(s.contains(s[i])); assert(t.contains(s[i])); assert(s.contains(s[pn(i, n)])); assert(t.contains(s[pn(i, n)])); }
    assert forall|x: I| #[trigger] s.contains(x) implies h.contains_key(x) by { lemma_ring_member(h, s, x); }
    assert forall|x: I| orbit(nmap(h), e).contains(x) implies s.contains(x) by { assert(t.contains(x)); }
    assert forall|x: I| #[trigger] g.contains_key(x) && g[x].face == NONE implies (h.contains_key(x) && !s.contains(x)) by { if s.contains(x) { assert(t.contains(x)); } }
    assert forall|x: I| !(#[trigger] Seq::<I>::empty().contains(x)) by { }
}
