// Extruding every hole of a mesh.

spec fn count(s: Seq<I>, p: spec_fn(I) -> bool) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { count(s.drop_last(), p) + (if p(s.last()) { 1nat } else { 0nat }) }
}
proof fn lemma_count_none(s: Seq<I>, p: spec_fn(I) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> !p(#[trigger] s[i]),
    ensures count(s, p) == 0,
    decreases s.len(),
{
    if s.len() > 0 { assert forall|i: int| 0 <= i < s.len() - 1 implies !p(#[trigger] s.drop_last()[i]) by { assert(!p(s[i])); } lemma_count_none(s.drop_last(), p); assert(!p(s[s.len() - 1])); }
}
proof fn lemma_count_split(s: Seq<I>, p: spec_fn(I) -> bool, q: spec_fn(I) -> bool, r: spec_fn(I) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> (p(#[trigger] s[i]) <==> q(s[i]) || r(s[i])) && !(q(s[i]) && r(s[i])),
    ensures count(s, p) == count(s, q) + count(s, r),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (p(#[trigger] s.drop_last()[i]) <==> q(s.drop_last()[i]) || r(s.drop_last()[i])) && !(q(s.drop_last()[i]) && r(s.drop_last()[i])) by { assert(s[i] == s.drop_last()[i]); }
        lemma_count_split(s.drop_last(), p, q, r);
        assert(s[s.len() - 1] == s.last());
    }
}
proof fn lemma_count_one(s: Seq<I>, x: I)
    requires s.no_duplicates(),
    ensures count(s, |y: I| y == x) == (if s.contains(x) { 1nat } else { 0nat }),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert(d.no_duplicates());
        lemma_count_one(d, x);
        if s.last() == x {
            if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == s[s.len() - 1]); }
            assert(s.contains(s[s.len() - 1]));
        } else if s.contains(x) {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(d[i] == x);
        } else if d.contains(x) {
            let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x);
        }
    }
}
proof fn lemma_count_in(s: Seq<I>, t: Seq<I>)
    requires s.no_duplicates(), t.no_duplicates(), forall|i: int| 0 <= i < t.len() ==> s.contains(#[trigger] t[i]),
    ensures count(s, |y: I| t.contains(y)) == t.len(),
    decreases t.len(),
{
    if t.len() == 0 { lemma_count_none(s, |y: I| t.contains(y)); }
    else {
        let d = t.drop_last(); let x = t.last();
        assert forall|i: int| 0 <= i < d.len() implies s.contains(#[trigger] d[i]) by { assert(s.contains(t[i])); }
        lemma_count_in(s, d);
        lemma_count_one(s, x);
        assert forall|i: int| 0 <= i < s.len() implies (t.contains(#[trigger] s[i]) <==> d.contains(s[i]) || s[i] == x) && !(d.contains(s[i]) && s[i] == x) by {
            if t.contains(s[i]) { let j = choose|j: int| 0 <= j < t.len() && t[j] == s[i]; if j < t.len() - 1 { assert(d[j] == s[i]); } }
            if d.contains(s[i]) { let j = choose|j: int| 0 <= j < d.len() && d[j] == s[i]; assert(t[j] == s[i]); assert(t[t.len() - 1] == x); }
            assert(t.contains(t[t.len() - 1]));
        }
        lemma_count_split(s, |y: I| t.contains(y), |y: I| d.contains(y), |y: I| y == x);
        assert(s.contains(t[t.len() - 1]));
    }
}
/// the handles of all half-edges
spec fn edge_list(m: HalfEdgeMeshImpl) -> Seq<I> { live_seq::<HalfEdgeImpl, I>(m.halfedges.data@).map_values(|e: HalfEdgeImpl| e.id) }
spec fn free_in(m: HalfEdgeMeshImpl, s: Seq<I>) -> nat { count(s, |e: I| m.h()[e].face == NONE) }
/// the number of half-edges without a face
spec fn free(m: HalfEdgeMeshImpl) -> nat { free_in(m, edge_list(m)) }
spec fn all_free_in(m: HalfEdgeMeshImpl, s: Seq<I>) -> bool { forall|e: I| #[trigger] m.h().contains_key(e) && m.h()[e].face == NONE ==> s.contains(e) }
/// nothing that was there changed, apart from half-edges of holes that joined faces
#[verifier::opaque]
spec fn walled(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl) -> bool {
    &&& n.payload == o.payload
    &&& forall|e: I| #[trigger] o.h().contains_key(e) ==> n.h().contains_key(e) && same_skel(o.h()[e], n.h()[e])
    &&& forall|e: I| #[trigger] o.h().contains_key(e) && o.h()[e].face != NONE ==> n.h()[e] == o.h()[e]
    &&& forall|x: I| #[trigger] o.v().contains_key(x) ==> n.v().contains_key(x) && n.v()[x] == o.v()[x]
    &&& forall|x: I| #[trigger] o.f().contains_key(x) ==> n.f().contains_key(x) && n.f()[x] == o.f()[x]
}
/// on the half-edge e of a hole of o stands a new quad of n; its other two corners are new vertices, made from the corners of e by t
#[verifier::opaque]
spec fn wall_at(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, e: I, t: TTrans) -> bool {
    let a = n.h()[e].next; let b = n.h()[a].next; let p = n.h()[e].prev; let F = n.h()[e].face;
    let x = n.h()[b].origin_id; let y = n.h()[p].origin_id;
    &&& n.h().contains_key(e) && n.h().contains_key(a) && n.h().contains_key(b) && n.h().contains_key(p) && n.h()[b].next == p && n.h()[p].next == e
    &&& n.h()[a].face == F && n.h()[b].face == F && n.h()[p].face == F && fresh1(o.f(), F) && n.f().contains_key(F)
    &&& !o.v().contains_key(x) && n.v().contains_key(x) && n.v()[x].payload == moved(o.v()[tgt(o.h(), e)].payload, t)
    &&& !o.v().contains_key(y) && n.v().contains_key(y) && n.v()[y].payload == moved(o.v()[o.h()[e].origin_id].payload, t)
}
/// the half-edges without a face of m are those of o, with their holes
#[verifier::opaque]
spec fn left_over(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl) -> bool {
    forall|e: I| #[trigger] m.h().contains_key(e) && m.h()[e].face == NONE ==> o.h().contains_key(e) && m.h()[e] == o.h()[e]
}
proof fn lemma_border_start(o: HalfEdgeMeshImpl)
    ensures walled(o, o), left_over(o, o),
{
    reveal(walled); reveal(left_over);
}
proof fn lemma_border_end(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, s: Seq<I>, t: TTrans)
    requires walled(o, m), left_over(o, m), all_free_in(o, s), forall|i: int| 0 <= i < s.len() ==> o.h().contains_key(#[trigger] s[i]) && m.h()[s[i]].face != NONE,
        forall|e: I| #[trigger] o.h().contains_key(e) && o.h()[e].face == NONE && m.h()[e].face != NONE ==> wall_at(o, m, e, t),
    ensures closed_mesh(m), forall|e: I| #[trigger] o.h().contains_key(e) && o.h()[e].face == NONE ==> wall_at(o, m, e, t),
{
    reveal(left_over);
    assert forall|e: I| #[trigger] m.h().contains_key(e) implies m.h()[e].face != NONE by {
        if m.h()[e].face == NONE { assert(o.h().contains_key(e)); assert(s.contains(e)); let i = choose|i: int| 0 <= i < s.len() && s[i] == e; assert(m.h()[s[i]].face != NONE); }
    }
    assert forall|e: I| #[trigger] o.h().contains_key(e) && o.h()[e].face == NONE implies wall_at(o, m, e, t) by {
        assert(s.contains(e)); let i = choose|i: int| 0 <= i < s.len() && s[i] == e; assert(m.h()[s[i]].face != NONE);
    }
}
/// the hole at e of m is still the one of o
proof fn lemma_same_hole(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, e: I)
    requires o.valid(), m.valid(), left_over(o, m), m.h().contains_key(e), m.h()[e].face == NONE,
    ensures ({ let s = hole_at(m, m.h()[e].next); o.h().contains_key(e) && o.h()[e] == m.h()[e] && ring(m.h(), s) && ring(o.h(), s) && s == hole_at(o, o.h()[e].next)
        && s.contains(e) && forall|i: int| 0 <= i < s.len() ==> m.h()[#[trigger] s[i]] == o.h()[s[i]] && m.h().contains_key(s[i]) && m.h()[s[i]].face == NONE && o.h().contains_key(s[i]) }),
{
    reveal(left_over);
    assert(link_ok(m.h(), e)); assert(edge_ok(m.h(), m.v(), m.f(), e));
    let e1 = m.h()[e].next; let s = hole_at(m, e1);
    lemma_orbit_ring(m, e1);
    assert forall|i: int| 0 <= i < s.len() implies m.h()[#[trigger] s[i]] == o.h()[s[i]] && m.h().contains_key(s[i]) && m.h()[s[i]].face == NONE && o.h().contains_key(s[i]) by { assert(ring_at(m.h(), s, i)); }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] ring_at(o.h(), s, i) by { assert(ring_at(m.h(), s, i)); assert(ring_at(m.h(), s, pn(i, s.len() as int))); }
    lemma_ring_orbit(o, s);
    assert(s.last() == e);
    assert(s.contains(s[s.len() - 1]));
}
proof fn lemma_border_step(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, L: Seq<I>, s: Seq<I>, ys: Seq<I>, t: Seq<I>, F: I, tr: TTrans)
    requires o.valid(), m.valid(), n.valid(), walled(o, m), left_over(o, m), all_free_in(o, L), L.no_duplicates(), ring(m.h(), s), ring(o.h(), s),
        forall|i: int| 0 <= i < s.len() ==> m.h()[#[trigger] s[i]] == o.h()[s[i]] && m.h().contains_key(s[i]) && m.h()[s[i]].face == NONE && o.h().contains_key(s[i]),
        forall|i: int| 0 <= i < L.len() ==> o.h().contains_key(#[trigger] L[i]),
        boxed(m, n, s, ys, t, F, moved_vs(m, s, tr)),
        forall|e: I| #[trigger] o.h().contains_key(e) && o.h()[e].face == NONE && m.h()[e].face != NONE ==> wall_at(o, m, e, tr),
    ensures walled(o, n), left_over(o, n), free_in(n, L) + s.len() == free_in(m, L),
        forall|e: I| #[trigger] o.h().contains_key(e) && o.h()[e].face == NONE && n.h()[e].face != NONE ==> wall_at(o, n, e, tr),
        forall|i: int| 0 <= i < L.len() && m.h()[#[trigger] L[i]].face != NONE ==> n.h()[L[i]].face != NONE,
        forall|i: int| 0 <= i < s.len() ==> n.h()[#[trigger] s[i]].face != NONE,
{
    reveal(swapped); reveal(walled); reveal(left_over);
    let k = s.len() as int; let ps = moved_vs(m, s, tr);
    assert forall|e: I| #[trigger] o.h().contains_key(e) && o.h()[e].face != NONE implies n.h()[e] == o.h()[e] by {
        assert(m.h()[e] == o.h()[e]); if s.contains(e) { let i = choose|i: int| 0 <= i < k && s[i] == e; assert(m.h()[s[i]].face == NONE); } }
    assert forall|e: I| #[trigger] o.h().contains_key(e) implies n.h().contains_key(e) && same_skel(o.h()[e], n.h()[e]) by { assert(m.h().contains_key(e)); }
    assert forall|e: I| #[trigger] n.h().contains_key(e) && n.h()[e].face == NONE implies o.h().contains_key(e) && n.h()[e] == o.h()[e] by { assert(m.h().contains_key(e) && !s.contains(e)); }
    assert forall|i: int| 0 <= i < k implies n.h()[#[trigger] s[i]].face != NONE by { assert(quad_at(m, n, s, i, ys[wrap(i + 1, k)], ys[i])); }
    // the walls
    assert forall|e: I| #[trigger] o.h().contains_key(e) && o.h()[e].face == NONE && n.h()[e].face != NONE implies wall_at(o, n, e, tr) by {
        assert(m.h().contains_key(e));
        if s.contains(e) {
            let i = choose|i: int| 0 <= i < k && s[i] == e;
            let j = wrap(i + 1, k);
            assert(quad_at(m, n, s, i, ys[j], ys[i]));
            assert(ring_at(o.h(), s, i)); assert(j == pn(i, k));
            assert(o.h()[e].next == s[j]);
            assert(tgt(o.h(), e) == o.h()[s[j]].origin_id);
            assert(m.h()[s[j]] == o.h()[s[j]]);
            lemma_wall_new(o, m, n, s, ys, i, tr);
            lemma_wall_new(o, m, n, s, ys, j, tr);
            assert(fresh1(o.f(), n.h()[e].face)) by { if o.f().contains_key(n.h()[e].face) { assert(m.f().contains_key(n.h()[e].face)); } }
            reveal(wall_at);
        } else {
            assert(m.h()[e] == n.h()[e]);
            assert(wall_at(o, m, e, tr));
            reveal(wall_at);
            let a = m.h()[e].next; let b = m.h()[a].next; let p = m.h()[e].prev;
            assert(m.h()[e].face != NONE);
            assert(n.h()[a] == m.h()[a] && n.h()[b] == m.h()[b] && n.h()[p] == m.h()[p]) by {
                if s.contains(a) { let i = choose|i: int| 0 <= i < k && s[i] == a; assert(m.h()[s[i]].face == NONE); }
                if s.contains(b) { let i = choose|i: int| 0 <= i < k && s[i] == b; assert(m.h()[s[i]].face == NONE); }
                if s.contains(p) { let i = choose|i: int| 0 <= i < k && s[i] == p; assert(m.h()[s[i]].face == NONE); }
            }
            let x = m.h()[b].origin_id; let y = m.h()[p].origin_id;
            assert(m.v().contains_key(x) && m.v().contains_key(y));
            assert(m.f().contains_key(m.h()[e].face));
        }
    }
    // counting
    let fm = |e: I| m.h()[e].face == NONE; let fnn = |e: I| n.h()[e].face == NONE; let fs = |e: I| s.contains(e);
    assert forall|i: int| 0 <= i < L.len() implies (fm(#[trigger] L[i]) <==> fnn(L[i]) || fs(L[i])) && !(fnn(L[i]) && fs(L[i])) by {
        let e = L[i]; assert(o.h().contains_key(e)); assert(m.h().contains_key(e)); assert(n.h().contains_key(e));
        if s.contains(e) { let j = choose|j: int| 0 <= j < k && s[j] == e; assert(n.h()[s[j]].face != NONE); assert(m.h()[s[j]].face == NONE); } else { assert(n.h()[e] == m.h()[e]); }
    }
    lemma_count_split(L, fm, fnn, fs);
    assert forall|i: int| 0 <= i < s.len() implies L.contains(#[trigger] s[i]) by { }
    lemma_count_in(L, s);
    assert(fs =~= (|y: I| s.contains(y)));
    assert forall|i: int| 0 <= i < L.len() && m.h()[#[trigger] L[i]].face != NONE implies n.h()[L[i]].face != NONE by { assert(fm(L[i]) <==> fnn(L[i]) || fs(L[i])); }
}
proof fn lemma_wall_new(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, s: Seq<I>, ys: Seq<I>, i: int, tr: TTrans)
    requires m.valid(), o.valid(), walled(o, m), new_vs(m, n, ys, moved_vs(m, s, tr)), 0 <= i < s.len(), o.h().contains_key(s[i]), m.h().contains_key(s[i]), m.h()[s[i]] == o.h()[s[i]],
    ensures !o.v().contains_key(ys[i]), n.v().contains_key(ys[i]), n.v()[ys[i]].payload == moved(o.v()[o.h()[s[i]].origin_id].payload, tr),
{
    reveal(walled);
    assert(edge_ok(o.h(), o.v(), o.f(), s[i]));
    assert(o.v().contains_key(o.h()[s[i]].origin_id));
    assert(moved_vs(m, s, tr)[i] == moved(m.v()[m.h()[s[i]].origin_id].payload, tr));
    assert(ys.len() == s.len());
}
proof fn lemma_edge_list(m: HalfEdgeMeshImpl, r: Seq<I>)
    requires m.valid(), r == edge_list(m), listing(live_seq::<HalfEdgeImpl, I>(m.halfedges.data@), m.halfedges@),
    ensures r.no_duplicates(), forall|i: int| 0 <= i < r.len() ==> m.h().contains_key(#[trigger] r[i]), all_free_in(m, r),
        forall|e: I| #[trigger] m.h().contains_key(e) ==> r.contains(e),
{
    let l = live_seq::<HalfEdgeImpl, I>(m.halfedges.data@);
    assert forall|i: int| 0 <= i < r.len() implies m.h().contains_key(#[trigger] r[i]) && r[i] == l[i].key() by { }
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by {
        assert(r[i] == l[i].key() && r[j] == l[j].key());
        if i < j { assert(l[i].key().ix() < l[j].key().ix()); } else { assert(l[j].key().ix() < l[i].key().ix()); }
    }
    assert forall|e: I| #[trigger] m.h().contains_key(e) implies r.contains(e) by { let j = choose|j: int| 0 <= j < l.len() && (#[trigger] l[j]).key() == e; assert(r[j] == e); }
}
proof fn lemma_free_none(m: HalfEdgeMeshImpl, L: Seq<I>)
    requires forall|i: int| 0 <= i < L.len() ==> m.h()[#[trigger] L[i]].face != NONE,
    ensures free_in(m, L) == 0,
{
    lemma_count_none(L, |e: I| m.h()[e].face == NONE);
}
proof fn lemma_free_hole(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, L: Seq<I>, s: Seq<I>)
    requires L.no_duplicates(), ring(m.h(), s), all_free_in(o, L), left_over(o, m), forall|i: int| 0 <= i < s.len() ==> m.h().contains_key(#[trigger] s[i]) && m.h()[s[i]].face == NONE && o.h().contains_key(s[i]) && o.h()[s[i]] == m.h()[s[i]],
    ensures s.len() <= free_in(m, L), s.len() >= 1,
{
    let fm = |e: I| m.h()[e].face == NONE; let fs = |y: I| s.contains(y); let fr = |e: I| m.h()[e].face == NONE && !s.contains(e);
    assert forall|i: int| 0 <= i < s.len() implies L.contains(#[trigger] s[i]) by { }
    assert forall|i: int| 0 <= i < L.len() implies (fm(#[trigger] L[i]) <==> fs(L[i]) || fr(L[i])) && !(fs(L[i]) && fr(L[i])) by {
        if s.contains(L[i]) { let j = choose|j: int| 0 <= j < s.len() && s[j] == L[i]; assert(m.h()[s[j]].face == NONE); } }
    lemma_count_in(L, s);
    lemma_count_split(L, fm, fs, fr);
}
impl HalfEdgeMeshImpl {
//@fn src/mesh/mesh/basics.rs trait MeshBasics :: edge_ids
//@ret r
        requires self.halfedges.inv(),
        ensures r.rest() == edge_list(*self), listing(live_seq::<HalfEdgeImpl, I>(self.halfedges.data@), self.halfedges@),
//@pre
        let ghost all = live_seq::<HalfEdgeImpl, I>(self.halfedges.data@); let ghost mut gk = 0int;
//@loop 0
            invariant 0 <= gk <= all.len(), refs(it_0.rest()) == all.skip(gk), res_0@ == edge_list(*self).take(gk), all == live_seq::<HalfEdgeImpl, I>(self.halfedges.data@), listing(all, self.halfedges@),
            ensures gk == all.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof { if gk < all.len() { assert(all.skip(gk)[0] == all[gk]); assert(refs(it_0.rest())[0] == *it_0.rest()[0]); assert(refs(it_0.rest()).drop_first() =~= refs(it_0.rest().drop_first())); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1));
                assert(edge_list(*self).take(gk + 1) =~= edge_list(*self).take(gk).push(edge_list(*self)[gk])); }
                assert(refs(it_0.rest()).len() == it_0.rest().len()); }
//@lend 0
            proof { gk = gk + 1; }
//@post
        proof { assert(edge_list(*self).take(all.len() as int) =~= edge_list(*self)); }
//@endfn
//@fn src/operations/extrude.rs trait MeshExtrude :: extrude_boundary
        requires old(self).valid(), room_e(*old(self), 4 * (free(*old(self)) as int)), room_v(*old(self), free(*old(self)) as int), room_f(*old(self), 2 * (free(*old(self)) as int)),
            forall|e: I| #[trigger] old(self).h().contains_key(e) && old(self).h()[e].face == NONE ==> hole_at(*old(self), old(self).h()[e].next).len() >= 2,
        ensures final(self).valid(), closed_mesh(*final(self)), walled(*old(self), *final(self)),
            final(self).vertices.in_use() == old(self).vertices.in_use() + free(*old(self)), final(self).halfedges.in_use() == old(self).halfedges.in_use() + 4 * free(*old(self)),
            forall|e: I| #[trigger] old(self).h().contains_key(e) && old(self).h()[e].face == NONE ==> wall_at(*old(self), *final(self), e, transform),
//@pre
        hide(boxed); hide(closed_mesh); hide(live_seq); hide(listing); hide(free_in); hide(ring);
        let ghost o = *self; let ghost L = edge_list(o); let ghost B = free(o) as int; let ghost mut gk = 0int; let ghost mut gj = 0int; let ghost mut m = *self;
        proof { lemma_border_start(o); }
//@loop 0
            invariant 0 <= gk <= L.len(), it_0.rest() == L.skip(gk), res_0@ == L.take(gk),
            ensures gk == L.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof { if gk < L.len() { assert(L.skip(gk)[0] == L[gk]); assert(L.skip(gk).drop_first() =~= L.skip(gk + 1)); assert(L.take(gk + 1) =~= L.take(gk).push(L[gk])); } }
//@lend 0
            proof { gk = gk + 1; }
//@after 0
        proof { assert(L.take(L.len() as int) =~= L); lemma_edge_list(o, L); assert(L.skip(0) =~= L); }
//@loop 1
            invariant 0 <= gj <= L.len(), it_1.rest() == L.skip(gj), o.valid(), self.valid(), L.no_duplicates(), all_free_in(o, L), walled(o, *self), left_over(o, *self), forall|i: int| 0 <= i < L.len() ==> o.h().contains_key(#[trigger] L[i]),
                forall|i: int| 0 <= i < gj ==> self.h()[#[trigger] L[i]].face != NONE,
                forall|e: I| #[trigger] o.h().contains_key(e) && o.h()[e].face == NONE ==> hole_at(o, o.h()[e].next).len() >= 2,
                forall|e: I| #[trigger] o.h().contains_key(e) && o.h()[e].face == NONE && self.h()[e].face != NONE ==> wall_at(o, *self, e, transform),
                room_e(*self, 4 * (free_in(*self, L) as int)), room_v(*self, free_in(*self, L) as int), room_f(*self, 2 * (free_in(*self, L) as int)), B == free(o),
                self.vertices.in_use() + free_in(*self, L) == o.vertices.in_use() + B, self.halfedges.in_use() + 4 * free_in(*self, L) == o.halfedges.in_use() + 4 * B,
            ensures gj == L.len(),
            decreases it_1.rest().len(),
//@lstart 1
            proof { m = *self; if gj < L.len() { assert(L.skip(gj)[0] == L[gj]); assert(L.skip(gj).drop_first() =~= L.skip(gj + 1)); assert(o.h().contains_key(L[gj])); reveal(walled); } }
//@beforecall extrude 0
            proof { lemma_same_hole(o, m, e); lemma_free_hole(o, m, L, hole_at(m, m.h()[e].next)); }
//@aftercall extrude 0
            proof {
                let s = hole_at(m, m.h()[e].next);
                let (F, ys, t) = choose|F: I, ys: Seq<I>, t: Seq<I>| #[trigger] boxed(m, *self, s, ys, t, F, moved_vs(m, s, transform));
                lemma_border_step(o, m, *self, L, s, ys, t, F, transform);
            }
//@lend 1
            proof { gj = gj + 1; }
//@post
        proof { lemma_border_end(o, *self, L, transform); lemma_free_none(*self, L); }
//@endfn
}
