// Closing after removing and removing after closing restore the mesh up to the face handle.

/// all half-edges of face F belong to face G instead
spec fn renamed(h: HMap, F: I, G: I) -> HMap {
    IMap::new(|z: I| h.contains_key(z), |z: I| HalfEdgeImpl { face: if h[z].face == F { G } else { h[z].face }, ..h[z] })
}
proof fn lemma_same_orbit(p: IMap<I, I>, q: IMap<I, I>, n: int, a: I, b: I)
    requires perm(p, q, n), p.contains_key(a), orbit(p, a).contains(b),
    ensures forall|x: I| #[trigger] orbit(p, b).contains(x) <==> orbit(p, a).contains(x),
{
    lemma_orbit_contains(p, q, n, a);
    lemma_reach_sym(p, q, n, a, b);
    lemma_orbit_contains(p, q, n, b);
    assert forall|x: I| #[trigger] orbit(p, b).contains(x) <==> orbit(p, a).contains(x) by {
        assert(orbit(p, b).contains(x) <==> reach(p, b, x));
        assert(orbit(p, a).contains(x) <==> reach(p, a, x));
        if reach(p, b, x) { lemma_reach_trans(p, a, b, x); }
        if reach(p, a, x) { lemma_reach_trans(p, b, a, x); }
    }
}
/// removing face F and closing the hole again at any edge e of it: only the face handle may differ
proof fn lemma_remove_then_close(m: HalfEdgeMeshImpl, F: I, e: I, G: I)
    requires m.valid(), m.f().contains_key(F), m.h().contains_key(e), m.h()[e].face == F,
    ensures ({ let h1 = faces_set(m.h(), loop_ids(m.h(), m.f()[F]), NONE);
        h1.contains_key(e) && h1[e].face == NONE && faces_set(h1, orbit(nmap(h1), e), G) =~= renamed(m.h(), F, G) }),
        renamed(m.h(), F, F) =~= m.h(),
{
    let h = m.h(); let s = loop_ids(h, m.f()[F]); let h1 = faces_set(h, s, NONE); let a = m.f()[F].edge;
    lemma_face_members(m, F); lemma_faces_set(h, s, NONE); lemma_nperm(m);
    assert(face_ok(h, m.f(), F));
    assert(s.contains(e));
    lemma_same_orbit(nmap(h), pmap(h), hsize(m), a, e);
    let h2 = faces_set(h1, orbit(nmap(h1), e), G); let r = renamed(h, F, G);
    assert forall|x: I| h.contains_key(x) implies #[trigger] h2[x] == r[x] by { assert(h[x].face == F <==> s.contains(x)); assert(orbit(nmap(h1), e).contains(x) <==> s.contains(x)); }
}
/// closing the hole of e and removing the new face restores every half-edge
proof fn lemma_close_then_remove(m: HalfEdgeMeshImpl, e: I, G: I, curved: bool, fp: FP)
    requires m.valid(), m.h().contains_key(e), m.h()[e].face == NONE, fresh1(m.f(), G),
    ensures ({ let h1 = faces_set(m.h(), orbit(nmap(m.h()), e), G); let f1 = m.f().insert(G, mkf(G, e, curved, fp));
        faces_set(h1, loop_ids(h1, f1[G]), NONE) =~= m.h() && f1.remove(G) =~= m.f() }),
{
    let h = m.h(); let s = orbit(nmap(h), e); let h1 = faces_set(h, s, G);
    lemma_faces_set(h, s, G); lemma_loop_set(m, e);
    let h2 = faces_set(h1, s, NONE);
    assert forall|x: I| h.contains_key(x) implies #[trigger] h2[x] == h[x] by { assert(link_ok(h, x)); }
}
