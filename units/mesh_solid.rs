// Extrusion and the solids made of a polygon and a hem.

//@known iterarg:insert_pyramid:0 iterarg:insert_frustum:0 iterarg:insert_frustum:1 iterarg:insert_prism:0 iterarg:pyramid:0 iterarg:frustum:0 iterarg:frustum:1 iterarg:prism:0 iterarg:loft_polygon_back:3 iterarg:loft_polygon:3 iterarg:loft_tri:2 iterarg:loft_tri_closed:1 iterarg:insert_polygon:0 iterarg:insert_loop:0
//@known from_translation
//@types T::Trans=TTrans; T::Vec=TVec; Face3d=HalfEdgeFaceImpl
spec fn hole_at(m: HalfEdgeMeshImpl, e: I) -> Seq<I> { orbit(nmap(m.h()), e) }
/// the payload is opaque, and so is what a transformation does to it
#[verifier::external_body]
pub struct TTrans { p: u8 }
impl Clone for TTrans {
    #[verifier::external_body]
    fn clone(&self) -> Self { unimplemented!() }
}
impl Copy for TTrans {}
uninterp spec fn moved(p: VP, t: TTrans) -> VP;
impl VP {
    #[verifier::external_body]
    fn transformed(&self, t: &TTrans) -> (r: VP)
        ensures r == moved(*self, *t),
    { unimplemented!() }
}
/// the payloads of the origins of s, transformed
spec fn moved_vs(m: HalfEdgeMeshImpl, s: Seq<I>, t: TTrans) -> Seq<VP> { Seq::new(s.len(), |i: int| moved(m.v()[m.h()[s[i]].origin_id].payload, t)) }
/// the prism over the hole s: quads all around and the lid t
spec fn boxed(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, s: Seq<I>, ys: Seq<I>, t: Seq<I>, F: I, ps: Seq<VP>) -> bool {
    &&& swapped(o, n, s, Seq::empty()) && face_loop(n.h(), t, F) && fresh1(o.f(), F) && n.f().contains_key(F)
    &&& t.len() == s.len() && ys.len() == s.len() && new_vs(o, n, ys, ps)
    &&& forall|i: int| 0 <= i < t.len() ==> n.h()[#[trigger] t[i]].origin_id == ys[i]
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] quad_at(o, n, s, i, ys[wrap(i + 1, s.len() as int)], ys[i])
    &&& forall|i: int| 0 <= i < s.len() ==> n.h()[#[trigger] s[i]].face != F
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] faces_differ(n, s, i, j)
}
proof fn lemma_boxed(o: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, s: Seq<I>, ys: Seq<I>, t: Seq<I>, ps: Seq<VP>, e: I, F: I)
    requires o.valid(), a.valid(), b.valid(), ring(o.h(), s), hem4(o, a, s, ys, t, ps), t.contains(e), b.vertices == a.vertices, b.payload == a.payload, fresh1(a.f(), F), b.f() =~= a.f().insert(F, mkf(F, e, false, fp_default())),
        b.h() =~= faces_set(a.h(), orbit(nmap(a.h()), e), F),
    ensures boxed(o, b, s, ys, t, F, ps),
{
    lemma_plug(a, b, t, e, F, false, fp_default());
    lemma_swapped_trans(o, a, b, s, t, Seq::empty());
    lemma_swapped_keep(a, b, t, Seq::empty());
    lemma_swapped_keep(o, a, s, t);
    let k = s.len() as int;
    assert forall|i: int| 0 <= i < t.len() implies b.h()[#[trigger] t[i]].origin_id == ys[i] by { assert(ring_at(a.h(), t, i)); }
    assert forall|i: int| 0 <= i < k implies #[trigger] quad_at(o, b, s, i, ys[wrap(i + 1, k)], ys[i]) && b.h()[s[i]] == a.h()[s[i]] && a.f().contains_key(a.h()[s[i]].face) by {
        assert(quad_at(o, a, s, i, ys[wrap(i + 1, k)], ys[i]));
        lemma_quads_keep(o, a, b, s, t, Seq::empty(), i, ys[wrap(i + 1, k)], ys[i]); }
    assert forall|i: int| 0 <= i < k implies #[trigger] quad_at(o, b, s, i, ys[wrap(i + 1, k)], ys[i]) by { }
    assert forall|i: int| 0 <= i < k implies b.h()[#[trigger] s[i]].face != F by { assert(quad_at(o, b, s, i, ys[wrap(i + 1, k)], ys[i])); }
    assert forall|i: int, j: int| 0 <= i < j < k implies #[trigger] faces_differ(b, s, i, j) by {
        assert(quad_at(o, b, s, i, ys[wrap(i + 1, k)], ys[i])); assert(quad_at(o, b, s, j, ys[wrap(j + 1, k)], ys[j])); assert(faces_differ(a, s, i, j)); }
}
/// the ring backwards
proof fn lemma_ring_back(m: HalfEdgeMeshImpl, s: Seq<I>)
    requires m.valid(), ring(m.h(), s),
    ensures orbit(pmap(m.h()), s[0]) =~= turned(s),
{
    let h = m.h(); let p = pmap(h); let n = s.len() as int; let t = turned(s);
    lemma_nperm(m);
    assert(ring_at(h, s, 0));
    assert(perm(p, nmap(h), hsize(m)));
    assert forall|i: int| 0 <= i < n implies p[#[trigger] t[i]] == t[pn(i, n)] by {
        let j = if i == 0 { n - 1 } else { n - i - 1 };
        assert(ring_at(h, s, j)); assert(t[i] == s[pn(j, n)]); assert(t[pn(i, n)] == s[j]); assert(h.contains_key(s[pn(j, n)])) by { assert(ring_at(h, s, pn(j, n))); } }
    lemma_cycle(p, nmap(h), hsize(m), t);
    lemma_orbit(p, nmap(h), hsize(m), t[0]);
    let o = orbit(p, t[0]);
    assert forall|i: int| 0 <= i < n && i < o.len() implies o[i] == t[i] by { lemma_prefix(o, t, p, i); }
    if o.len() < n { assert(o[o.len() - 1] == t[o.len() - 1]); assert(p[o[o.len() - 1]] == o[0]); assert(t[o.len() as int] == t[0]);
        assert(s[if o.len() == 0 { 0 } else { n - o.len() }] == s[0]); }
    if n < o.len() { assert(o[n - 1] == t[n - 1]); assert(p[t[n - 1]] == t[0]); assert(o[n] == o[0]); }
}
/// nothing of o changed, and what was added has faces on both sides
spec fn sealed(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl) -> bool {
    &&& forall|e: I| #[trigger] o.h().contains_key(e) ==> n.h().contains_key(e) && n.h()[e] == o.h()[e]
    &&& forall|x: I| #[trigger] o.v().contains_key(x) ==> n.v().contains_key(x) && n.v()[x] == o.v()[x]
    &&& forall|x: I| #[trigger] o.f().contains_key(x) ==> n.f().contains_key(x) && n.f()[x] == o.f()[x]
    &&& forall|e: I| #[trigger] n.h().contains_key(e) && n.h()[e].face == NONE ==> o.h().contains_key(e)
}
/// a new polygon: its inside is face F, its outside is the hole es
spec fn based(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, ps: Seq<VP>, F: I) -> bool {
    m.valid() && loop_with(o, m, vs, es, ts, ps, NONE, F) && fresh1(o.f(), F) && m.f() == o.f().insert(F, mkf(F, ts[0], false, fp_default()))
}
proof fn lemma_based(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, ps: Seq<VP>, F: I)
    requires based(o, m, vs, es, ts, ps, F), m.valid(),
    ensures ring(m.h(), es), simple(m.h(), es), hole_at(m, es[0]) =~= es, m.h().contains_key(es[0]), m.h()[es[0]].face == NONE, es.len() == ps.len(), es.len() >= 2, m.h()[es[0]].twin == ts[0], m.h()[es[0]].next == es[1],
        m.h().contains_key(ts[0]), m.h()[ts[0]].face == F, m.f().contains_key(F),
{
    let k = es.len() as int;
    assert forall|i: int| 0 <= i < k implies #[trigger] ring_at(m.h(), es, i) by { assert(es.contains(es[i])); assert(m.h()[es[pn(i, k)]].prev == es[pp(pn(i, k), k)]); }
    lemma_ring_orbit(m, es);
    assert forall|i: int, j: int| 0 <= i < j < k implies m.h()[#[trigger] es[i]].origin_id != m.h()[#[trigger] es[j]].origin_id by { assert(vs[i] != vs[j]); }
    assert(ring_at(m.h(), es, 0)); assert(ts.contains(ts[0]));
}
proof fn lemma_base(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, ps: Seq<VP>, first: I) -> (r: (Seq<I>, Seq<I>, Seq<I>, I))
    requires m.valid(), exists|vs: Seq<I>, es: Seq<I>, ts: Seq<I>, F: I| #[trigger] loop_with(o, m, vs, es, ts, ps, NONE, F) && first == es[0] && fresh1(o.f(), F) && m.f() == o.f().insert(F, mkf(F, ts[0], false, fp_default())),
    ensures based(o, m, r.0, r.1, r.2, ps, r.3), r.1[0] == first,
        ring(m.h(), r.1), simple(m.h(), r.1), hole_at(m, first) =~= r.1, m.h().contains_key(first), m.h()[first].face == NONE, r.1.len() == ps.len(), r.1.len() >= 2,
{
    let (vs, es, ts, F) = choose|vs: Seq<I>, es: Seq<I>, ts: Seq<I>, F: I| #[trigger] loop_with(o, m, vs, es, ts, ps, NONE, F) && first == es[0] && fresh1(o.f(), F) && m.f() == o.f().insert(F, mkf(F, ts[0], false, fp_default()));
    lemma_based(o, m, vs, es, ts, ps, F);
    (vs, es, ts, F)
}
proof fn lemma_lid(o: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, s: Seq<I>, qs: Seq<VP>, e: I) -> (r: (Seq<I>, Seq<I>))
    requires exists|ys: Seq<I>, t: Seq<I>| #[trigger] hem4(o, a, s, ys, t, qs) && t[0] == e, s.len() >= 2,
    ensures hem4(o, a, s, r.0, r.1, qs), r.1[0] == e, r.1.contains(e), a.h().contains_key(e), a.h()[e].face == NONE,
{
    let (ys, t) = choose|ys: Seq<I>, t: Seq<I>| #[trigger] hem4(o, a, s, ys, t, qs) && t[0] == e;
    assert(ring_at(a.h(), t, 0)); assert(t.contains(t[0]));
    (ys, t)
}
proof fn lemma_sealed(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, ps: Seq<VP>, F: I, s: Seq<I>)
    requires based(o, m, vs, es, ts, ps, F), m.valid(), swapped(m, n, s, Seq::empty()), same_members(es, s),
    ensures sealed(o, n),
{
    reveal(swapped);
    lemma_based(o, m, vs, es, ts, ps, F);
    assert forall|e: I| #[trigger] o.h().contains_key(e) implies n.h().contains_key(e) && n.h()[e] == o.h()[e] by { assert(m.h().contains_key(e)); assert(!es.contains(e)); assert(es.contains(e) <==> s.contains(e)); }
    assert forall|x: I| #[trigger] o.v().contains_key(x) implies n.v().contains_key(x) && n.v()[x] == o.v()[x] by { assert(m.v().contains_key(x)); }
    assert forall|x: I| #[trigger] o.f().contains_key(x) implies n.f().contains_key(x) && n.f()[x] == o.f()[x] by { assert(m.f().contains_key(x)); }
    assert forall|e: I| #[trigger] n.h().contains_key(e) && n.h()[e].face == NONE implies o.h().contains_key(e) by {
        assert(!Seq::<I>::empty().contains(e)); assert(m.h().contains_key(e) && !s.contains(e)); assert(es.contains(e) <==> s.contains(e));
        if ts.contains(e) { let i = choose|i: int| 0 <= i < ts.len() && ts[i] == e; assert(m.h()[ts[i]].face == F); } }
}
proof fn lemma_frustum(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, ps: Seq<VP>, F: I, ys: Seq<I>, t: Seq<I>, qs: Seq<VP>, e: I, G: I)
    requires o.valid(), m.valid(), a.valid(), n.valid(), based(o, m, vs, es, ts, ps, F), hem4(m, a, es, ys, t, qs), t.contains(e), n.vertices == a.vertices, n.payload == a.payload, fresh1(a.f(), G), n.f() =~= a.f().insert(G, mkf(G, e, false, fp_default())),
        n.h() =~= faces_set(a.h(), orbit(nmap(a.h()), e), G),
    ensures sealed(o, n), frustum_on(o, m, n, vs, es, ts, ps, F, ys, t, G, qs), n.h()[e].face == G,
{
    lemma_based(o, m, vs, es, ts, ps, F);
    lemma_boxed(m, a, n, es, ys, t, qs, e, G);
    let i = choose|i: int| 0 <= i < t.len() && t[i] == e;
    assert(face_at(n.h(), t, G, i));
    lemma_sealed(o, m, n, vs, es, ts, ps, F, es);
}
/// no boundary at all
spec fn closed_mesh(m: HalfEdgeMeshImpl) -> bool { forall|e: I| #[trigger] m.h().contains_key(e) ==> m.h()[e].face != NONE }
/// numbers of vertices, half-edges and faces
spec fn sized(m: HalfEdgeMeshImpl, v: int, e: int, f: int) -> bool { m.vertices.in_use() == v && m.halfedges.in_use() == e && m.faces.in_use() == f }
spec fn roomy(v: int, e: int, f: int) -> bool { v <= I::maxv() && e <= I::maxv() && f <= I::maxv() }
spec fn pyramid_on(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, base: Seq<VP>, F: I, x: I, apex: VP) -> bool { based(o, m, vs, es, ts, base, F) && fan(m, n, es, x, apex) }
spec fn frustum_on(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, base: Seq<VP>, F: I, ys: Seq<I>, t: Seq<I>, G: I, top: Seq<VP>) -> bool { based(o, m, vs, es, ts, base, F) && boxed(m, n, es, ys, t, G, top) }
/// the top is a transformed copy of the base
spec fn prism_on(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, base: Seq<VP>, F: I, ys: Seq<I>, t: Seq<I>, G: I, tr: TTrans) -> bool {
    based(o, m, vs, es, ts, base, F) && boxed(m, n, rot(es, 1), ys, t, G, moved_vs(m, rot(es, 1), tr))
}
impl HalfEdgeMeshImpl {
//@fn src/operations/extrude.rs trait MeshExtrude :: extrude
//@ret r
        requires old(self).valid(), old(self).h().contains_key(e), old(self).h()[e].face == NONE, hole_at(*old(self), old(self).h()[e].next).len() >= 2,
            room_e(*old(self), 4 * (hole_at(*old(self), old(self).h()[e].next).len() as int)), room_v(*old(self), hole_at(*old(self), old(self).h()[e].next).len() as int),
            room_f(*old(self), hole_at(*old(self), old(self).h()[e].next).len() as int + 1),
        ensures final(self).valid(), grown(*old(self), *final(self), 4 * (hole_at(*old(self), old(self).h()[e].next).len() as int), hole_at(*old(self), old(self).h()[e].next).len() as int, hole_at(*old(self), old(self).h()[e].next).len() as int + 1),
            exists|ys: Seq<I>, t: Seq<I>| #[trigger] boxed(*old(self), *final(self), hole_at(*old(self), old(self).h()[e].next), ys, t, final(self).h()[r].face, moved_vs(*old(self), hole_at(*old(self), old(self).h()[e].next), transform)) && t.contains(r),
//@pre
        let ghost o = *self; let ghost s = orbit(nmap(self.h()), self.h()[e].next); let ghost k = s.len() as int; let ghost all = turned(s); let ghost mut gk = 0int; let ghost mut a = *self;
        proof { assert(link_ok(o.h(), e)); assert(edge_ok(o.h(), o.v(), o.f(), e)); lemma_orbit_ring(o, o.h()[e].next); lemma_ring_back(o, s); assert(all.skip(0) =~= all); }
//@loop 0
            invariant 0 <= gk <= k, k == s.len(), all == turned(s), all.len() == k, *self == o, o.valid(), ring(o.h(), s), it_0.inv(), *it_0.mesh == o, it_0.todo() == all.skip(gk), res_0@ == turned_p(moved_vs(o, s, transform)).take(gk),
            ensures gk == k,
            decreases it_0.todo().len(),
//@lstart 0
            proof { if gk < k { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1));
                let j = if gk == 0 { 0 } else { k - gk }; assert(all[gk] == s[j]); assert(ring_at(o.h(), s, j)); assert(edge_ok(o.h(), o.v(), o.f(), s[j]));
                assert(turned_p(moved_vs(o, s, transform)).take(gk + 1) =~= turned_p(moved_vs(o, s, transform)).take(gk).push(moved_vs(o, s, transform)[j])); } }
//@lend 0
            proof { gk = gk + 1; }
//@aftercall loft_polygon_back 0
        proof { a = *self; assert(vps@ =~= turned_p(moved_vs(o, s, transform))); assert(turned_p(vps@) =~= moved_vs(o, s, transform)); 
            let (ys, t) = choose|ys: Seq<I>, t: Seq<I>| #[trigger] hem4(o, a, s, ys, t, turned_p(vps@)) && t.last() == start;
            assert(ring_at(a.h(), t, k - 1)); assert(t[k - 1] == start); }
//@aftercall close_hole 0
        proof { let (ys, t) = choose|ys: Seq<I>, t: Seq<I>| #[trigger] hem4(o, a, s, ys, t, turned_p(vps@)) && t.last() == start;
            assert(t[k - 1] == start); let F = choose|F: I| fresh1(a.f(), F) && self.f() =~= a.f().insert(F, mkf(F, start, false, fp_default())) && self.h() =~= #[trigger] faces_set(a.h(), orbit(nmap(a.h()), start), F);
            lemma_boxed(o, a, *self, s, ys, t, moved_vs(o, s, transform), start, F);
            assert(face_at(self.h(), t, F, k - 1)); }
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: insert_pyramid
//@param base: GIter<VP>
//@ret r
        requires old(self).valid(), base.rest().len() >= 2, room_e(*old(self), 4 * (base.rest().len() as int)), room_v(*old(self), base.rest().len() as int + 1), room_f(*old(self), base.rest().len() as int + 1),
        ensures final(self).valid(), grown(*old(self), *final(self), 4 * (base.rest().len() as int), base.rest().len() as int + 1, base.rest().len() as int + 1), sealed(*old(self), *final(self)),
            exists|m: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, F: I, x: I| #[trigger] pyramid_on(*old(self), m, *final(self), vs, es, ts, base.rest(), F, x, apex) && r == ts[0],
//@pre
        let ghost o = *self; let ghost ps = base.rest(); let ghost mut m = *self; let ghost mut vs = Seq::<I>::empty(); let ghost mut es = Seq::<I>::empty(); let ghost mut ts = Seq::<I>::empty(); let ghost mut F = NONE;
//@aftercall insert_polygon 0
        proof {
            m = *self;
            let (a, b, c, d) = choose|vs: Seq<I>, es: Seq<I>, ts: Seq<I>, F: I| #[trigger] loop_with(o, m, vs, es, ts, ps, NONE, F) && first == es[0]
                && fresh1(o.f(), F) && m.f() == o.f().insert(F, mkf(F, ts[0], false, fp_default()));
            vs = a; es = b; ts = c; F = d;
            lemma_based(o, m, vs, es, ts, ps, F);
        }
//@aftercall fill_hole_apex 0
        proof {
            let x = choose|x: I| #[trigger] fan(m, *self, es, x, apex);
            lemma_sealed(o, m, *self, vs, es, ts, ps, F, es);
            assert(pyramid_on(o, m, *self, vs, es, ts, ps, F, x, apex));
            lemma_swapped_keep(m, *self, es, Seq::empty());
        }
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: pyramid
//@param base: GIter<VP>
//@ret r
        requires base.rest().len() >= 2, roomy(base.rest().len() as int + 1, 4 * (base.rest().len() as int), base.rest().len() as int + 1),
        ensures r.valid(), closed_mesh(r), sized(r, base.rest().len() as int + 1, 4 * (base.rest().len() as int), base.rest().len() as int + 1),
            exists|o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, F: I, x: I| #[trigger] pyramid_on(o, m, r, vs, es, ts, base.rest(), F, x, apex),
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: insert_frustum
//@param base: GIter<VP>
//@param top: GIter<VP>
//@ret r
        requires old(self).valid(), base.rest().len() >= 2, top.rest().len() == base.rest().len(), !smooth, room_e(*old(self), 6 * (base.rest().len() as int)), room_v(*old(self), 2 * (base.rest().len() as int)), room_f(*old(self), base.rest().len() as int + 2),
        ensures final(self).valid(), grown(*old(self), *final(self), 6 * (base.rest().len() as int), 2 * (base.rest().len() as int), base.rest().len() as int + 2), sealed(*old(self), *final(self)),
            exists|m: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, F: I, ys: Seq<I>, t: Seq<I>| #[trigger] frustum_on(*old(self), m, *final(self), vs, es, ts, base.rest(), F, ys, t, final(self).h()[r].face, top.rest()) && t.contains(r),
//@pre
        hide(hem4); hide(based); hide(boxed); hide(sealed); hide(frustum_on); hide(ring); hide(simple);
        let ghost o = *self; let ghost ps = base.rest(); let ghost qs = top.rest(); let ghost k = ps.len() as int; let ghost mut m = *self; let ghost mut a = *self;
        let ghost mut ys = Seq::<I>::empty(); let ghost mut t = Seq::<I>::empty(); let ghost mut vs = Seq::<I>::empty(); let ghost mut es = Seq::<I>::empty(); let ghost mut ts = Seq::<I>::empty(); let ghost mut F = NONE;
//@aftercall insert_polygon 0
        proof { m = *self; let r = lemma_base(o, m, ps, first); vs = r.0; es = r.1; ts = r.2; F = r.3; }
//@aftercall loft_polygon 0
        proof { a = *self; let r = lemma_lid(m, a, es, qs, top_edge); ys = r.0; t = r.1; }
//@aftercall close_hole 0
        proof {
            let G = choose|F: I| fresh1(a.f(), F) && self.f() =~= a.f().insert(F, mkf(F, top_edge, false, fp_default())) && self.h() =~= #[trigger] faces_set(a.h(), orbit(nmap(a.h()), top_edge), F);
            lemma_frustum(o, m, a, *self, vs, es, ts, ps, F, ys, t, qs, top_edge, G);
        }
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: frustum
//@param base: GIter<VP>
//@param top: GIter<VP>
//@ret r
        requires base.rest().len() >= 2, top.rest().len() == base.rest().len(), !smooth, roomy(2 * (base.rest().len() as int), 6 * (base.rest().len() as int), base.rest().len() as int + 2),
        ensures r.valid(), closed_mesh(r), sized(r, 2 * (base.rest().len() as int), 6 * (base.rest().len() as int), base.rest().len() as int + 2),
            exists|o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, F: I, ys: Seq<I>, t: Seq<I>, G: I| #[trigger] frustum_on(o, m, r, vs, es, ts, base.rest(), F, ys, t, G, top.rest()),
//@endfn
}
