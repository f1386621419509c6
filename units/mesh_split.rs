// Dividing a half-edge in two, and the frequencies of a subdivision.

//@struct src/operations/subdivision.rs SubdivisionDescription
/// half-edge e ends at the new vertex y where its second half n starts; the twin still spans both
spec fn split_h(h: HMap, e: I, n: I, t: I, y: I, ep: EP) -> HMap {
    w_next(w_prev(h.insert(n, mk(n, h[e].next, t, e, y, h[e].face, ep)), h[e].next, n), e, n)
}
/// the same where the twin was divided before: the halves become each other's twins
spec fn fixed_h(h: HMap, e: I, n: I, w: I, ep: EP) -> HMap {
    let t = h[e].twin;
    w_next(w_prev(w_twin(w_twin(h.insert(n, mk(n, h[e].next, t, e, h[w].origin_id, h[e].face, ep)), e, w), t, n), h[e].next, n), e, n)
}
/// the half-edges leaving the end of e's twin, k steps on
spec fn spoke(h: HMap, e: I, k: nat) -> I { it(wmap(h), h[h[e].twin].next, k) }
spec fn on_spoke(h: HMap, e: I, k: nat) -> bool { h.contains_key(spoke(h, e, k)) && h.contains_key(h[spoke(h, e, k)].twin) && h.contains_key(h[h[spoke(h, e, k)].twin].next) }
spec fn passes(h: HMap, e: I, k: nat) -> bool {
    &&& on_spoke(h, e, k) && h[spoke(h, e, k)].twin != e
    &&& h[spoke(h, e, k + 1)].origin_id == h[spoke(h, e, 0)].origin_id && h[spoke(h, e, k + 1)].prev != h[e].twin
}
/// the k-th half-edge has e as its twin
spec fn halved_at(h: HMap, e: I, k: nat) -> bool {
    on_spoke(h, e, k) && h[spoke(h, e, k)].twin == e && forall|j: nat| j < k ==> #[trigger] passes(h, e, j)
}
/// no half-edge there has e as its twin: after k steps the walk leaves the vertex or is back
spec fn whole_at(h: HMap, e: I, k: nat) -> bool {
    &&& on_spoke(h, e, k) && h[spoke(h, e, k)].twin != e && forall|j: nat| j < k ==> #[trigger] passes(h, e, j)
    &&& h[spoke(h, e, k + 1)].origin_id != h[spoke(h, e, 0)].origin_id || h[spoke(h, e, k + 1)].prev == h[e].twin
}
spec fn walk_ends(h: HMap, e: I, k: nat) -> bool { halved_at(h, e, k) || whole_at(h, e, k) }
proof fn lemma_one_walk(h: HMap, e: I)
    ensures forall|k: nat, l: nat| #[trigger] halved_at(h, e, k) && #[trigger] halved_at(h, e, l) ==> k == l,
        forall|k: nat, l: nat| !(#[trigger] halved_at(h, e, k) && #[trigger] whole_at(h, e, l)),
        forall|k: nat, l: nat| #[trigger] whole_at(h, e, k) && #[trigger] whole_at(h, e, l) ==> k == l,
{
    assert forall|k: nat, l: nat| #[trigger] halved_at(h, e, k) && #[trigger] halved_at(h, e, l) implies k == l by { if k < l { assert(passes(h, e, k)); } if l < k { assert(passes(h, e, l)); } }
    assert forall|k: nat, l: nat| !(#[trigger] halved_at(h, e, k) && #[trigger] whole_at(h, e, l)) by {
        if halved_at(h, e, k) && whole_at(h, e, l) { if k < l { assert(passes(h, e, k)); } if l < k { assert(passes(h, e, l)); } } }
    assert forall|k: nat, l: nat| #[trigger] whole_at(h, e, k) && #[trigger] whole_at(h, e, l) implies k == l by { if k < l { assert(passes(h, e, k)); } if l < k { assert(passes(h, e, l)); } }
}
impl SubdivisionDescription {
//@fn src/operations/subdivision.rs impl SubdivisionDescription :: new
//@ret r
        requires b >= 1,
        ensures r.b == b, r.c == c,
//@endfn
//@fn src/operations/subdivision.rs impl SubdivisionDescription :: b
//@ret r
        ensures r == self.b,
//@endfn
//@fn src/operations/subdivision.rs impl SubdivisionDescription :: c
//@ret r
        ensures r == self.c,
//@endfn
//@fn src/operations/subdivision.rs impl SubdivisionDescription :: frequency
//@ret r
        requires self.b + self.c <= usize::MAX,
        ensures r == self.b + self.c,
//@endfn
//@fn src/operations/subdivision.rs impl SubdivisionDescription :: triangulation_number
//@ret r
        requires (self.b as int) * (self.b as int) + (self.b as int) * (self.c as int) + (self.c as int) * (self.c as int) <= usize::MAX,
        ensures r == (self.b as int) * (self.b as int) + (self.b as int) * (self.c as int) + (self.c as int) * (self.c as int),
//@pre
        proof { let (b, c) = (self.b as int, self.c as int); lemma_prod(b, b); lemma_prod(b, c); lemma_prod(c, c); }
//@endfn
}
proof fn lemma_prod(a: int, b: int)
    requires a >= 0, b >= 0,
    ensures a * b >= 0,
{ assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0; }
impl HalfEdgeMeshImpl {
//@fn src/halfedge/mesh/builder/semi.rs impl HalfEdgeSemiBuilder for HalfEdgeMeshImpl :: subdivide_unsafe
//@ret r
        requires old(self).inv(), old(self).clean(), links(old(self).h()), old(self).h().contains_key(e), old(self).h()[e].twin != NONE, room_e(*old(self), 1), room_v(*old(self), 1),
        ensures final(self).inv(), final(self).clean(), grown(*old(self), *final(self), 1, 1, 0), final(self).faces == old(self).faces, final(self).payload == old(self).payload,
            fresh1(old(self).h(), r), fresh1(old(self).v(), final(self).h()[r].origin_id),
            final(self).h() =~= split_h(old(self).h(), e, r, old(self).h()[e].twin, final(self).h()[r].origin_id, ep),
            final(self).v() =~= old(self).v().insert(final(self).h()[r].origin_id, mkv(final(self).h()[r].origin_id, r, vp)),
//@pre
        let ghost o = *self;
        proof { I::ix_inj(NONE, NONE); assert(link_ok(o.h(), e)); assert(link_ok(o.h(), o.h()[e].next)); }
//@endfn
//@fn src/halfedge/mesh/builder/semi.rs impl HalfEdgeSemiBuilder for HalfEdgeMeshImpl :: subdivide_unsafe_try_fixup
//@ret r
        requires old(self).inv(), old(self).clean(), links(old(self).h()), old(self).h().contains_key(e), old(self).h().contains_key(old(self).h()[e].twin), old(self).h()[e].twin != e, room_e(*old(self), 1),
            exists|k: nat| #[trigger] walk_ends(old(self).h(), e, k),
        ensures final(self).inv(), final(self).clean(), final(self).vertices == old(self).vertices, final(self).faces == old(self).faces, final(self).payload == old(self).payload,
            forall|k: nat| #[trigger] whole_at(old(self).h(), e, k) ==> r is None && *final(self) == *old(self),
            forall|k: nat| #[trigger] halved_at(old(self).h(), e, k) ==> r is Some && grown(*old(self), *final(self), 1, 0, 0) && fresh1(old(self).h(), r.unwrap())
                && final(self).h() =~= fixed_h(old(self).h(), e, r.unwrap(), spoke(old(self).h(), e, k), ep),
//@pre
        let ghost o = *self; let ghost h = self.h(); let ghost mut gk = 0nat;
        let ghost K = choose|k: nat| #[trigger] walk_ends(h, e, k);
        proof { I::ix_inj(NONE, NONE); lemma_one_walk(h, e); if K > 0 { assert(passes(h, e, 0)); } assert(link_ok(h, e)); assert(link_ok(h, h[e].twin)); assert(link_ok(h, h[e].next)); }
//@loop 0
            invariant
                o == *self, o == *old(self), o.inv(), o.clean(), h == o.h(), links(h), 0 <= gk <= K, halved_at(h, e, K) || whole_at(h, e, K), other_new == h[spoke(h, e, gk)], other_old == h[h[e].twin], other_old.id == h[e].twin,
                old_edge == h[e], first_other_new_origin == h[spoke(h, e, 0)].origin_id, on_spoke(h, e, gk),
                forall|j: nat| j < gk ==> #[trigger] passes(h, e, j),
                forall|k: nat, l: nat| #[trigger] halved_at(h, e, k) && #[trigger] halved_at(h, e, l) ==> k == l,
                forall|k: nat, l: nat| !(#[trigger] halved_at(h, e, k) && #[trigger] whole_at(h, e, l)),
            ensures other_new.twin == e, halved_at(h, e, gk), gk == K,
            decreases K - gk,
//@lstart 0
            proof { if gk < K { assert(passes(h, e, gk)); if gk + 1 < K { assert(passes(h, e, gk + 1)); } } assert(spoke(h, e, gk + 1) == wmap(h)[spoke(h, e, gk)]); }
//@lend 0
            proof { gk = gk + 1; }
//@endfn
}
