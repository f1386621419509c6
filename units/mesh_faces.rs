// Closing holes, removing faces, inserting edges on a boundary.

proof fn lemma_reach_orbit(p: IMap<I, I>, q: IMap<I, I>, n: int, x: I, k: nat)
    requires perm(p, q, n), p.contains_key(x),
    ensures in_orbit(p, x, it(p, x, k)),
    decreases k,
{
    lemma_ostart(p, q, n, x);
    if k > 0 {
        lemma_reach_orbit(p, q, n, x, (k - 1) as nat);
        lemma_it_dom(p, q, n, x, (k - 1) as nat);
        lemma_oclosed(p, q, n, x, it(p, x, (k - 1) as nat));
    }
}
proof fn lemma_orbit_contains(p: IMap<I, I>, q: IMap<I, I>, n: int, x: I)
    requires perm(p, q, n), p.contains_key(x),
    ensures forall|y: I| #[trigger] orbit(p, x).contains(y) <==> in_orbit(p, x, y), forall|y: I| #[trigger] reach(p, x, y) <==> in_orbit(p, x, y),
{
    let o = orbit(p, x);
    assert forall|y: I| #[trigger] o.contains(y) <==> in_orbit(p, x, y) by {
        if o.contains(y) { let i = choose|i: int| 0 <= i < o.len() && o[i] == y; assert(at(p, x, y, i as nat)); }
        if in_orbit(p, x, y) { let i = choose|i: nat| at(p, x, y, i); assert(o[i as int] == y); }
    }
    assert forall|y: I| #[trigger] reach(p, x, y) <==> in_orbit(p, x, y) by {
        if reach(p, x, y) { let k = choose|k: nat| #[trigger] it(p, x, k) == y; lemma_reach_orbit(p, q, n, x, k); }
        if in_orbit(p, x, y) { let i = choose|i: nat| at(p, x, y, i); assert(it(p, x, i) == y); }
    }
}
proof fn lemma_reach_sym(p: IMap<I, I>, q: IMap<I, I>, n: int, a: I, b: I)
    requires perm(p, q, n), p.contains_key(a), reach(p, a, b),
    ensures reach(p, b, a), p.contains_key(b),
{
    let k = choose|k: nat| #[trigger] it(p, a, k) == b;
    lemma_it_dom(p, q, n, a, k);
    lemma_ostart(p, q, n, b);
    lemma_back(p, q, n, a, b, k);
    lemma_orbit_contains(p, q, n, b);
}
proof fn lemma_back(p: IMap<I, I>, q: IMap<I, I>, n: int, a: I, b: I, k: nat)
    requires perm(p, q, n), p.contains_key(a), p.contains_key(b), in_orbit(p, b, it(p, a, k)),
    ensures in_orbit(p, b, a),
    decreases k,
{
    if k > 0 {
        lemma_it_dom(p, q, n, a, (k - 1) as nat);
        lemma_oclosed(p, q, n, b, it(p, a, (k - 1) as nat));
        lemma_back(p, q, n, a, b, (k - 1) as nat);
    }
}
/// the edges in s get face F
spec fn faces_set(h: HMap, s: Seq<I>, F: I) -> HMap {
    IMap::new(|e: I| h.contains_key(e), |e: I| if s.contains(e) { HalfEdgeImpl { face: F, ..h[e] } } else { h[e] })
}
proof fn lemma_faces_set(h: HMap, s: Seq<I>, F: I)
    ensures nmap(faces_set(h, s, F)) == nmap(h), pmap(faces_set(h, s, F)) == pmap(h), links(h) ==> links(faces_set(h, s, F)), twins(h) ==> twins(faces_set(h, s, F)),
{
    let g = faces_set(h, s, F);
    assert(nmap(g) =~= nmap(h)); assert(pmap(g) =~= pmap(h));
    if links(h) { assert forall|e: I| g.contains_key(e) implies #[trigger] link_ok(g, e) by { assert(link_ok(h, e)); } }
    if twins(h) { assert forall|e: I| g.contains_key(e) implies #[trigger] twin_ok(g, e) by { assert(twin_ok(h, e)); } }
}
/// the edges on the loop through e: closed under succession, all with the face of e, reachable from e
proof fn lemma_loop_set(m: HalfEdgeMeshImpl, e: I)
    requires m.valid(), m.h().contains_key(e),
    ensures orbit(nmap(m.h()), e).contains(e),
        forall|x: I| #[trigger] orbit(nmap(m.h()), e).contains(x) ==> m.h().contains_key(x) && m.h()[x].face == m.h()[e].face && reach(nmap(m.h()), e, x),
        forall|x: I| m.h().contains_key(x) ==> #[trigger] step_in(m.h(), orbit(nmap(m.h()), e), x),
{
    let h = m.h();
    let s = orbit(nmap(h), e);
    lemma_loop(m, e);
    lemma_nperm(m);
    lemma_orbit_contains(nmap(h), pmap(h), hsize(m), e);
    assert(s.contains(e)) by { assert(s[0] == e); }
    assert forall|x: I| #[trigger] s.contains(x) implies h.contains_key(x) && h[x].face == h[e].face && reach(nmap(h), e, x) by {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(h.contains_key(s[i])); assert(in_orbit(nmap(h), e, x)); }
    assert forall|x: I| h.contains_key(x) implies #[trigger] step_in(h, s, x) by { lemma_oclosed(nmap(h), pmap(h), hsize(m), e, x); assert(nmap(h)[x] == h[x].next); }
}
spec fn step_in(h: HMap, s: Seq<I>, x: I) -> bool { s.contains(h[x].next) == s.contains(x) }
proof fn lemma_close(m: HalfEdgeMeshImpl, e: I, F: I, curved: bool, fp: FP)
    requires m.valid(), m.h().contains_key(e), m.h()[e].face == NONE, fresh1(m.f(), F),
    ensures wf(faces_set(m.h(), orbit(nmap(m.h()), e), F), m.v(), m.f().insert(F, mkf(F, e, curved, fp))),
{
    let (h, v, f) = (m.h(), m.v(), m.f());
    lemma_loop_set(m, e);
    lemma_faces_set(h, orbit(nmap(h), e), F);
    lemma_close_aux(h, v, f, orbit(nmap(h), e), e, F, curved, fp);
}
proof fn lemma_close_aux(h: HMap, v: VMap, f: FMap, s: Seq<I>, e: I, F: I, curved: bool, fp: FP)
    requires wf(h, v, f), h.contains_key(e), h[e].face == NONE, fresh1(f, F), s.contains(e),
        nmap(faces_set(h, s, F)) == nmap(h), links(faces_set(h, s, F)), twins(faces_set(h, s, F)),
        forall|x: I| #[trigger] s.contains(x) ==> h.contains_key(x) && h[x].face == NONE && reach(nmap(h), e, x),
        forall|x: I| h.contains_key(x) ==> #[trigger] step_in(h, s, x),
    ensures wf(faces_set(h, s, F), v, f.insert(F, mkf(F, e, curved, fp))),
{
    let g = faces_set(h, s, F);
    let f2 = f.insert(F, mkf(F, e, curved, fp));
    assert forall|x: I| g.contains_key(x) implies #[trigger] edge_ok(g, v, f2, x) by { assert(edge_ok(h, v, f, x)); assert(link_ok(h, x)); assert(twin_ok(h, x)); assert(step_in(h, s, x)); }
    assert forall|y: I| v.contains_key(y) implies #[trigger] vert_ok(g, v, y) by { assert(vert_ok(h, v, y)); }
    assert forall|y: I| f2.contains_key(y) implies #[trigger] face_ok(g, f2, y) by { if y != F { assert(face_ok(h, f, y)); } }
    assert forall|x: I| g.contains_key(x) implies #[trigger] loop_ok(g, f2, x) by {
        if s.contains(x) { assert(reach(nmap(h), e, x)); assert(f2[F].edge == e); }
        else if g[x].face != NONE { assert(loop_ok(h, f, x)); assert(edge_ok(h, v, f, x)); }
    }
}
/// the loop of a face is exactly the set of edges naming it
proof fn lemma_face_members(m: HalfEdgeMeshImpl, F: I)
    requires m.valid(), m.f().contains_key(F),
    ensures forall|x: I| m.h().contains_key(x) ==> (m.h()[x].face == F <==> #[trigger] loop_ids(m.h(), m.f()[F]).contains(x)),
        forall|i: int| 0 <= i < loop_ids(m.h(), m.f()[F]).len() ==> m.h().contains_key(#[trigger] loop_ids(m.h(), m.f()[F])[i]),
{
    let (h, v, f) = (m.h(), m.v(), m.f());
    assert(face_ok(h, f, F));
    let s = loop_ids(h, f[F]);
    lemma_loop(m, f[F].edge);
    lemma_nperm(m);
    lemma_orbit_contains(nmap(h), pmap(h), hsize(m), f[F].edge);
    assert forall|x: I| h.contains_key(x) implies (h[x].face == F <==> #[trigger] s.contains(x)) by {
        if h[x].face == F { assert(loop_ok(h, f, x)); }
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(h[s[i]].face == F); }
    }
}
proof fn lemma_open(m: HalfEdgeMeshImpl, F: I)
    requires m.valid(), m.f().contains_key(F),
    ensures wf(faces_set(m.h(), loop_ids(m.h(), m.f()[F]), NONE), m.v(), m.f().remove(F)),
{
    let (h, v, f) = (m.h(), m.v(), m.f());
    let s = loop_ids(h, f[F]);
    let g = faces_set(h, s, NONE);
    let f2 = f.remove(F);
    lemma_faces_set(h, s, NONE);
    lemma_face_members(m, F);
    assert forall|x: I| h.contains_key(x) implies g[x].face == (if h[x].face == F { NONE } else { h[x].face }) by { assert(h[x].face == F <==> s.contains(x)); }
    assert forall|x: I| g.contains_key(x) implies #[trigger] edge_ok(g, v, f2, x) by { assert(edge_ok(h, v, f, x)); assert(link_ok(h, x)); assert(twin_ok(h, x)); assert(face_ok(h, f, F)); }
    assert forall|y: I| v.contains_key(y) implies #[trigger] vert_ok(g, v, y) by { assert(vert_ok(h, v, y)); }
    assert forall|y: I| f2.contains_key(y) implies #[trigger] face_ok(g, f2, y) by { assert(face_ok(h, f, y)); }
    assert forall|x: I| g.contains_key(x) implies #[trigger] loop_ok(g, f2, x) by { assert(loop_ok(h, f, x)); assert(edge_ok(h, v, f, x)); }
}

impl HalfEdgeMeshImpl {
//@fn src/halfedge/mesh/builder/builder.rs impl MeshBuilder for HalfEdgeMeshImpl :: close_hole
//@ret r
        requires old(self).inv(), old(self).clean(), links(old(self).h()), old(self).h().contains_key(e), room_f(*old(self), 1),
        ensures old(self).valid() && old(self).h()[e].face == NONE ==> final(self).valid(), final(self).inv(), final(self).clean(),
            grown(*old(self), *final(self), 0, 0, 1), final(self).vertices == old(self).vertices, final(self).payload == old(self).payload,
            fresh1(old(self).f(), r), final(self).f() =~= old(self).f().insert(r, mkf(r, e, curved, fp)),
            final(self).h() =~= faces_set(old(self).h(), orbit(nmap(old(self).h()), e), r),
//@pre
        let ghost o = *self; let ghost all = orbit(nmap(self.h()), e); let ghost mut gk = 0int;
        proof { I::ix_inj(NONE, NONE); assert(link_ok(o.h(), e)); lemma_nperm(*self); lemma_orbit(nmap(o.h()), pmap(o.h()), hsize(o), e); lemma_fresh(nmap(o.h()), pmap(o.h()), hsize(o), e);
            lemma_faces_set(o.h(), Seq::<I>::empty(), NONE); }
//@loop 0
            invariant 0 <= gk <= all.len(), it_0.inv(self.h()), it_0.todo(self.h()) == all.skip(gk), all == orbit(nmap(o.h()), e), links(o.h()),
                self.halfedges.inv(), self.halfedges.in_use() == o.halfedges.in_use(), forall|i: I| #[trigger] self.halfedges.reserved(i) == o.halfedges.reserved(i),
                self.vertices == o.vertices, self.payload == o.payload, self.faces.inv(), forall|i: I| #[trigger] self.faces.reserved(i) == o.faces.reserved(i), self.faces.in_use() == o.faces.in_use() + 1,
                self.f() == o.f().insert(f, mkf(f, e, curved, fp)),
                self.h() =~= faces_set(o.h(), all.take(gk), f),
                forall|j: int| 0 <= j < all.len() ==> o.h().contains_key(#[trigger] all[j]),
            ensures gk == all.len(),
            decreases all.len() - gk,
//@lstart 0
            let ghost h0 = self.h();
            proof { if gk < all.len() { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1)); assert(link_ok(o.h(), all[gk]));
                assert(all.take(gk + 1) =~= all.take(gk).push(all[gk])); lemma_take_push(all, gk); } }
//@lend 0
            proof { lemma_faces_set(o.h(), all.take(gk), f); lemma_faces_set(o.h(), all.take(gk + 1), f);
                assert(self.h() =~= faces_set(o.h(), all.take(gk + 1), f)); gk = gk + 1; }
//@post
        proof {
            I::ix_inj(vx_ret, NONE);
            assert(all.take(gk) =~= all);
            if o.valid() && o.h()[e].face == NONE { lemma_close(o, e, vx_ret, curved, fp); }
            assert(self.h() =~= faces_set(o.h(), all, vx_ret));
        }
//@endfn
//@fn src/mesh/mesh/builder.rs trait MeshBuilder :: close_hole_default
//@ret r
        requires old(self).valid(), old(self).h().contains_key(e), old(self).h()[e].face == NONE, room_f(*old(self), 1),
        ensures final(self).valid(), grown(*old(self), *final(self), 0, 0, 1), final(self).vertices == old(self).vertices, final(self).payload == old(self).payload,
            fresh1(old(self).f(), r), final(self).f() =~= old(self).f().insert(r, mkf(r, e, false, fp_default())),
            final(self).h() =~= faces_set(old(self).h(), orbit(nmap(old(self).h()), e), r),
//@endfn
//@fn src/halfedge/mesh/builder/builder.rs impl MeshBuilder for HalfEdgeMeshImpl :: remove_face
//@ret r
        requires old(self).inv(), old(self).clean(), links(old(self).h()), old(self).f().contains_key(f), old(self).f()[f].id == f, old(self).h().contains_key(old(self).f()[f].edge),
        ensures old(self).valid() ==> final(self).valid(), final(self).inv(), final(self).clean(), grown(*old(self), *final(self), 0, 0, -1), final(self).vertices == old(self).vertices, final(self).payload == old(self).payload,
            r == old(self).f()[f].payload, final(self).f() =~= old(self).f().remove(f),
            final(self).h() =~= faces_set(old(self).h(), loop_ids(old(self).h(), old(self).f()[f]), NONE),
//@pre
        let ghost o = *self; let ghost h = self.h(); let ghost all = loop_ids(h, self.f()[f]); let ghost mut gk = 0int; let ghost mut gl = 0int;
        proof { if o.valid() { assert(face_ok(h, self.f(), f)); lemma_open(*self, f); } lemma_nperm(*self); lemma_orbit(nmap(h), pmap(h), hsize(o), self.f()[f].edge); }
//@loop 0
            invariant 0 <= gk <= all.len(), it_0.inv(), *it_0.mesh == *self, it_0.todo() == all.skip(gk), h == self.h(), links(h), *self == o,
                forall|j: int| 0 <= j < all.len() ==> h.contains_key(#[trigger] all[j]),
                res_0@ == all.take(gk),
            ensures gk == all.len(),
            decreases it_0.todo().len(),
//@lstart 0
            proof { if gk < all.len() { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1));
                assert(link_ok(h, all[gk])); assert(all.take(gk + 1) =~= all.take(gk).push(all[gk])); } }
//@lend 0
            proof { gk = gk + 1; }
//@loop 1
            invariant 0 <= gl <= all.len(), it_1.rest() == all.skip(gl), links(o.h()),
                self.halfedges.inv(), self.halfedges.in_use() == o.halfedges.in_use(), forall|i: I| #[trigger] self.halfedges.reserved(i) == o.halfedges.reserved(i),
                self.vertices == o.vertices, self.payload == o.payload, self.faces == o.faces,
                self.h() =~= faces_set(o.h(), all.take(gl), NONE),
                forall|j: int| 0 <= j < all.len() ==> o.h().contains_key(#[trigger] all[j]),
            ensures gl == all.len(),
            decreases all.len() - gl,
//@lstart 1
            proof { if gl < all.len() { assert(all.skip(gl)[0] == all[gl]); assert(all.skip(gl).drop_first() =~= all.skip(gl + 1)); assert(link_ok(o.h(), all[gl]));
                lemma_take_push(all, gl); } }
//@lend 1
            proof { assert(self.h() =~= faces_set(o.h(), all.take(gl + 1), NONE)); gl = gl + 1; }
//@post
        proof { assert(all.take(gl) =~= all); assert(self.h() =~= faces_set(o.h(), all, NONE)); assert(self.f() =~= o.f().remove(f)); }
//@endfn
}
proof fn lemma_take_push(s: Seq<I>, k: int)
    requires 0 <= k < s.len(),
    ensures s.take(k + 1) == s.take(k).push(s[k]), forall|x: I| #[trigger] s.take(k + 1).contains(x) <==> (s.take(k).contains(x) || x == s[k]),
{
    assert(s.take(k + 1) =~= s.take(k).push(s[k]));
    assert forall|x: I| #[trigger] s.take(k + 1).contains(x) <==> (s.take(k).contains(x) || x == s[k]) by {
        if s.take(k).contains(x) { let i = choose|i: int| 0 <= i < k && s.take(k)[i] == x; assert(s.take(k + 1)[i] == x); }
        if x == s[k] { assert(s.take(k + 1)[k] == x); }
        if s.take(k + 1).contains(x) { let i = choose|i: int| 0 <= i < k + 1 && #[trigger] s.take(k + 1)[i] == x; if i < k { assert(s.take(k)[i] == x); } }
    }
}
