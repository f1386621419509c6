// Polygons and dihedra: a closed loop of new vertices with a face on one or on both sides.

/// the orbit of the first element of a cycle is the cycle
proof fn lemma_cycle(p: IMap<I, I>, q: IMap<I, I>, n: int, s: Seq<I>)
    requires perm(p, q, n), s.len() >= 1, p.contains_key(s[0]), forall|i: int| 0 <= i < s.len() ==> p[#[trigger] s[i]] == s[pn(i, s.len() as int)],
    ensures forall|x: I| #[trigger] orbit(p, s[0]).contains(x) <==> s.contains(x),
{
    lemma_orbit_contains(p, q, n, s[0]);
    assert forall|x: I| #[trigger] orbit(p, s[0]).contains(x) <==> s.contains(x) by {
        if reach(p, s[0], x) { let k = choose|k: nat| #[trigger] it(p, s[0], k) == x; lemma_cycle_closed(p, s, k); }
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; lemma_cycle_reach(p, s, i); }
    }
}
proof fn lemma_cycle_closed(p: IMap<I, I>, s: Seq<I>, k: nat)
    requires s.len() >= 1, forall|i: int| 0 <= i < s.len() ==> p[#[trigger] s[i]] == s[pn(i, s.len() as int)],
    ensures s.contains(it(p, s[0], k)),
    decreases k,
{
    if k == 0 { assert(s[0] == it(p, s[0], 0)); } else {
        lemma_cycle_closed(p, s, (k - 1) as nat);
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == it(p, s[0], (k - 1) as nat);
        assert(s[pn(i, s.len() as int)] == it(p, s[0], k));
    }
}
proof fn lemma_cycle_reach(p: IMap<I, I>, s: Seq<I>, i: int)
    requires 0 <= i < s.len(), forall|i: int| 0 <= i < s.len() ==> p[#[trigger] s[i]] == s[pn(i, s.len() as int)],
    ensures reach(p, s[0], s[i]),
    decreases i,
{
    if i == 0 { lemma_reach_refl(p, s[0]); } else { lemma_cycle_reach(p, s, i - 1); lemma_reach_next(p, s[0], s[i - 1]); assert(pn(i - 1, s.len() as int) == i); }
}
/// ts backwards, starting with its first element
spec fn turned(ts: Seq<I>) -> Seq<I> { Seq::new(ts.len(), |i: int| if i == 0 { ts[0] } else { ts[ts.len() - i] }) }
proof fn lemma_loop_orbits(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, ps: Seq<VP>, fe: I, ft: I)
    requires loop_with(o, m, vs, es, ts, ps, fe, ft), m.valid(),
    ensures forall|x: I| #[trigger] orbit(nmap(m.h()), es[0]).contains(x) <==> es.contains(x),
        forall|x: I| #[trigger] orbit(nmap(m.h()), ts[0]).contains(x) <==> ts.contains(x),
{
    let h = m.h(); let p = nmap(h); let k = es.len() as int;
    lemma_nperm(m);
    assert forall|i: int| 0 <= i < k implies p[#[trigger] es[i]] == es[pn(i, k)] && h.contains_key(es[i]) by { assert(es.contains(es[i])); assert(h.contains_key(es[i])); }
    assert forall|i: int| 0 <= i < k implies p[#[trigger] ts[i]] == ts[pp(i, k)] && h.contains_key(ts[i]) by { assert(ts.contains(ts[i])); assert(h.contains_key(ts[i])); }
    let rs = turned(ts);
    assert(rs[0] == ts[0]);
    assert forall|i: int| 0 <= i < k implies p[#[trigger] rs[i]] == rs[pn(i, k)] by {
        let j = if i == 0 { 0 } else { k - i };
        assert(rs[i] == ts[j]); assert(p[ts[j]] == ts[pp(j, k)]); assert(rs[pn(i, k)] == ts[pp(j, k)]);
    }
    lemma_cycle(p, pmap(h), hsize(m), es);
    lemma_cycle(p, pmap(h), hsize(m), rs);
    assert forall|x: I| #[trigger] rs.contains(x) <==> ts.contains(x) by {
        if rs.contains(x) { let i = choose|i: int| 0 <= i < k && rs[i] == x; assert(ts[if i == 0 { 0 } else { k - i }] == x); }
        if ts.contains(x) { let i = choose|i: int| 0 <= i < k && ts[i] == x; assert(rs[if i == 0 { 0 } else { k - i }] == x); }
    }
    assert forall|x: I| #[trigger] orbit(p, ts[0]).contains(x) <==> ts.contains(x) by { assert(orbit(p, rs[0]).contains(x) <==> rs.contains(x)); }
}
impl HalfEdgeMeshImpl {
//@fn src/halfedge/primitives/mod.rs impl Make2dShape for HalfEdgeMeshImpl :: insert_polygon
//@param vp: GIter<VP>
//@ret r
        requires old(self).valid(), vp.rest().len() >= 2, room_e(*old(self), 2 * (vp.rest().len() as int)), room_v(*old(self), vp.rest().len() as int), room_f(*old(self), 1),
        ensures final(self).valid(), final(self).payload == old(self).payload, grown(*old(self), *final(self), 2 * (vp.rest().len() as int), vp.rest().len() as int, 1),
            exists|vs: Seq<I>, es: Seq<I>, ts: Seq<I>, F: I| #[trigger] loop_with(*old(self), *final(self), vs, es, ts, vp.rest(), NONE, F) && r == es[0]
                && fresh1(old(self).f(), F) && final(self).f() == old(self).f().insert(F, mkf(F, ts[0], false, fp_default())),
//@pre
        let ghost o = *self; let ghost ps = vp.rest(); let ghost mut m = *self; let ghost mut F = NONE;
        let ghost mut vs = Seq::<I>::empty(); let ghost mut es = Seq::<I>::empty(); let ghost mut ts = Seq::<I>::empty();
//@aftercall insert_loop 0
        proof {
            m = *self;
            let (a, b, c) = choose|vs: Seq<I>, es: Seq<I>, ts: Seq<I>| #[trigger] loop_new(o, m, vs, es, ts, ps) && first == ts[0];
            vs = a; es = b; ts = c;
            lemma_loop_orbits(o, m, vs, es, ts, ps, NONE, NONE);
            assert(ts.contains(ts[0])); assert(m.h()[ts[0]].face == NONE);
        }
//@aftercall close_hole 0
        proof {
            F = self.h()[first].face;
            let s = orbit(nmap(m.h()), ts[0]);
            assert(s.contains(ts[0]));
            let g = self.h();
            assert forall|i: int| 0 <= i < es.len() implies g[#[trigger] es[i]] == m.h()[es[i]] by { assert(es.contains(es[i])); assert(m.h().contains_key(es[i])); if s.contains(es[i]) { assert(ts.contains(es[i])); } }
            assert forall|i: int| 0 <= i < ts.len() implies g[#[trigger] ts[i]] == (HalfEdgeImpl { face: F, ..m.h()[ts[i]] }) by { assert(ts.contains(ts[i])); assert(m.h().contains_key(ts[i])); assert(s.contains(ts[i])); }
            assert forall|e: I| #[trigger] o.h().contains_key(e) implies g[e] == o.h()[e] by { assert(m.h().contains_key(e)); if s.contains(e) { assert(ts.contains(e)); } }
            assert(loop_with(o, *self, vs, es, ts, ps, NONE, F));
        }
//@endfn
//@fn src/halfedge/primitives/mod.rs impl Make2dShape for HalfEdgeMeshImpl :: insert_dihedron
//@param vp: GIter<VP>
//@ret r
        requires old(self).valid(), vp.rest().len() >= 2, room_e(*old(self), 2 * (vp.rest().len() as int)), room_v(*old(self), vp.rest().len() as int), room_f(*old(self), 2),
        ensures final(self).valid(), final(self).payload == old(self).payload, grown(*old(self), *final(self), 2 * (vp.rest().len() as int), vp.rest().len() as int, 2),
            exists|vs: Seq<I>, es: Seq<I>, ts: Seq<I>, F: I, G: I| #[trigger] loop_two(*old(self), *final(self), vs, es, ts, vp.rest(), F, G) && r == es[0],
//@pre
        let ghost o = *self; let ghost ps = vp.rest(); let ghost mut m = *self; let ghost mut F = NONE; let ghost mut G = NONE;
        let ghost mut vs = Seq::<I>::empty(); let ghost mut es = Seq::<I>::empty(); let ghost mut ts = Seq::<I>::empty();
//@aftercall insert_polygon 0
        proof {
            m = *self;
            let (a, b, c, d) = choose|vs: Seq<I>, es: Seq<I>, ts: Seq<I>, F: I| #[trigger] loop_with(o, m, vs, es, ts, ps, NONE, F) && first == es[0]
                && fresh1(o.f(), F) && m.f() == o.f().insert(F, mkf(F, ts[0], false, fp_default()));
            vs = a; es = b; ts = c; F = d;
            lemma_loop_orbits(o, m, vs, es, ts, ps, NONE, F);
            assert(es.contains(es[0])); assert(m.h()[es[0]].face == NONE);
        }
//@aftercall close_hole 0
        proof {
            G = self.h()[first].face;
            let s = orbit(nmap(m.h()), es[0]);
            assert(s.contains(es[0]));
            let g = self.h();
            assert forall|i: int| 0 <= i < ts.len() implies g[#[trigger] ts[i]] == m.h()[ts[i]] by { assert(ts.contains(ts[i])); assert(m.h().contains_key(ts[i])); if s.contains(ts[i]) { assert(es.contains(ts[i])); } }
            assert forall|i: int| 0 <= i < es.len() implies g[#[trigger] es[i]] == (HalfEdgeImpl { face: G, ..m.h()[es[i]] }) by { assert(es.contains(es[i])); assert(m.h().contains_key(es[i])); assert(s.contains(es[i])); }
            assert forall|e: I| #[trigger] o.h().contains_key(e) implies g[e] == o.h()[e] by { assert(m.h().contains_key(e)); if s.contains(e) { assert(es.contains(e)); } }
            assert(loop_with(o, *self, vs, es, ts, ps, G, F));
            assert(loop_two(o, *self, vs, es, ts, ps, F, G));
        }
//@endfn
}
/// a loop of new vertices with one new face on each side
spec fn loop_two(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, ps: Seq<VP>, F: I, G: I) -> bool {
    &&& loop_with(o, n, vs, es, ts, ps, G, F) && fresh1(o.f(), F) && fresh1(o.f(), G) && F != G
    &&& n.f() == o.f().insert(F, mkf(F, ts[0], false, fp_default())).insert(G, mkf(G, es[0], false, fp_default()))
}
