// Filling a hole with an apex.

/// the origins of the ring are different vertices
spec fn simple(h: HMap, s: Seq<I>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> h[#[trigger] s[i]].origin_id != h[#[trigger] s[j]].origin_id }
/// on half-edge s[i] stands a new triangle with tip x
spec fn fan_at(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, s: Seq<I>, i: int, x: I) -> bool {
    let e = s[i]; let a = n.h()[e].next; let p = n.h()[e].prev; let F = n.h()[e].face;
    &&& n.h().contains_key(e) && n.h().contains_key(a) && n.h().contains_key(p) && n.h()[a].next == p && n.h()[p].next == e && n.h()[p].origin_id == x
    &&& n.h()[a].face == F && n.h()[p].face == F && fresh1(o.f(), F) && n.f().contains_key(F)
}
spec fn faces_differ(n: HalfEdgeMeshImpl, s: Seq<I>, i: int, j: int) -> bool { n.h()[s[i]].face != n.h()[s[j]].face }
/// every half-edge of the hole s got its own triangle with tip x, a new vertex with payload vp; nothing else changed
spec fn fan(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, s: Seq<I>, x: I, vp: VP) -> bool {
    &&& swapped(o, n, s, Seq::empty()) && fresh1(o.v(), x) && n.v().contains_key(x) && n.v() =~= o.v().insert(x, n.v()[x]) && n.v()[x].payload == vp
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] fan_at(o, n, s, i, x)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] faces_differ(n, s, i, j)
}
spec fn fan_ring(s: Seq<I>, j: int, q: I, w: I) -> Seq<I> { s.take(j + 1).push(q).push(w) }
#[verifier::opaque]
spec fn fan_state(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, s: Seq<I>, j: int, q: I, w: I, x: I, vp: VP) -> bool {
    &&& m.valid() && ring(m.h(), fan_ring(s, j, q, w)) && swapped(o, m, s, fan_ring(s, j, q, w))
    &&& grown(o, m, 2 * (s.len() - j), 1, s.len() - 1 - j)
    &&& fresh1(o.v(), x) && m.v().contains_key(x) && m.v() =~= o.v().insert(x, m.v()[x]) && m.v()[x].payload == vp && m.h()[w].origin_id == x
    &&& forall|i: int| j < i < s.len() ==> #[trigger] fan_at(o, m, s, i, x)
    &&& forall|i: int, l: int| j < i < l < s.len() ==> #[trigger] faces_differ(m, s, i, l)
}
proof fn lemma_fan_start(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, s: Seq<I>, r: (I, I, I), vp: VP)
    requires o.valid(), m.valid(), ring(o.h(), s), hung(o, m, s, r, vp), grown(o, m, 2, 1, 0),
    ensures fan_state(o, m, s, s.len() - 1, r.1, r.2, r.0, vp),
{
    reveal(fan_state);
    assert(s.take(s.len() as int) =~= s);
}
/// the state as seen by the code at the head of the loop
proof fn lemma_fan_head(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, s: Seq<I>, j: int, q: I, w: I, x: I, vp: VP)
    requires fan_state(o, m, s, j, q, w, x, vp), o.valid(), ring(o.h(), s), simple(o.h(), s), 0 <= j < s.len(),
    ensures m.valid(), grown(o, m, 2 * (s.len() - j), 1, s.len() - 1 - j), m.h().contains_key(s[j]), m.h()[s[j]].face == NONE, m.h()[s[j]].origin_id == o.h()[s[j]].origin_id,
        j > 0 ==> m.h()[s[j]].origin_id != o.h()[s[0]].origin_id && m.h().contains_key(s[j - 1]) && m.h()[s[j]].prev == s[j - 1] && m.h()[s[j - 1]].next == s[j] && m.h()[s[j]].next == q
            && cappable(m.h(), seq![s[j], q], seq![w] + s.take(j)) && (seq![w] + s.take(j)).last() == s[j - 1] && bridgeable(m.h(), q, s[j - 1]),
        j == 0 ==> ring(m.h(), fan_ring(s, j, q, w)) && fan_ring(s, j, q, w).contains(s[0]),
{
    reveal(fan_state);
    let c = fan_ring(s, j, q, w);
    lemma_swapped_keep(o, m, s, c);
    assert(ring_at(o.h(), s, j)); assert(edge_ok(o.h(), o.v(), o.f(), s[j]));
    assert(c[j] == s[j]); assert(ring_at(m.h(), c, j));
    if j > 0 {
        assert(ring_at(o.h(), s, 0)); assert(o.h()[s[0]].origin_id != o.h()[s[j]].origin_id);
        assert(c[j - 1] == s[j - 1]); assert(ring_at(m.h(), c, j - 1)); assert(c[j + 1] == q);
        lemma_rot(m.h(), c, j);
        let seg = seq![s[j], q]; let rest = seq![w] + s.take(j);
        assert(seg + rest =~= rot(c, j));
        lemma_cappable(m.h(), seg, rest);
    } else { assert(c[0] == s[0]); }
}
proof fn lemma_fan_keep(o: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, s: Seq<I>, t: Seq<I>, u: Seq<I>, j: int, x: I)
    requires swapped(a, b, t, u), ring(a.h(), t), forall|i: int| j < i < s.len() ==> #[trigger] fan_at(o, a, s, i, x), forall|i: int, l: int| j < i < l < s.len() ==> #[trigger] faces_differ(a, s, i, l),
    ensures forall|i: int| j < i < s.len() ==> #[trigger] fan_at(o, b, s, i, x) && b.h()[s[i]].face == a.h()[s[i]].face, forall|i: int, l: int| j < i < l < s.len() ==> #[trigger] faces_differ(b, s, i, l),
{
    lemma_swapped_keep(a, b, t, u);
    assert forall|i: int| j < i < s.len() implies #[trigger] fan_at(o, b, s, i, x) && b.h()[s[i]].face == a.h()[s[i]].face by { assert(fan_at(o, a, s, i, x)); }
    assert forall|i: int, l: int| j < i < l < s.len() implies #[trigger] faces_differ(b, s, i, l) by { assert(faces_differ(a, s, i, l)); assert(fan_at(o, b, s, i, x)); assert(fan_at(o, b, s, l, x)); }
}
proof fn lemma_fan_step(o: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, s: Seq<I>, j: int, q: I, w: I, x: I, vp: VP, r: (I, I, I))
    requires fan_state(o, a, s, j, q, w, x, vp), o.valid(), ring(o.h(), s), simple(o.h(), s), 0 < j < s.len(), b.valid(), b.vertices == a.vertices, b.payload == a.payload, grown(a, b, 2, 0, 1),
        face_closed(a, b, q, s[j - 1], ep_default(), ep_default(), fp_default(), false, r),
    ensures fan_state(o, b, s, j - 1, r.2, w, x, vp),
{
    lemma_fan_head(o, a, s, j, q, w, x, vp);
    reveal(fan_state);
    let c = fan_ring(s, j, q, w); let seg = seq![s[j], q]; let rest = seq![w] + s.take(j); let d = fan_ring(s, j - 1, r.2, w);
    lemma_cap(a, b, seg, rest, r, fp_default(), false);
    lemma_rot(a.h(), c, j);
    assert(seg + rest =~= rot(c, j));
    let u = rest.push(r.2);
    lemma_rot(b.h(), u, 1);
    assert(rot(u, 1) =~= d);
    lemma_swapped_members(a, b, seg + rest, u, c, d);
    lemma_swapped_trans(o, a, b, s, c, d);
    lemma_fan_keep(o, a, b, s, c, d, j, x);
    let t = seg.push(r.1);
    assert(face_at(b.h(), t, r.0, 0)); assert(face_at(b.h(), t, r.0, 1)); assert(face_at(b.h(), t, r.0, 2));
    assert(t[0] == s[j] && t[1] == q && t[2] == r.1); assert(rest[0] == w);
    assert(b.h()[r.1].origin_id == x);
    assert(d[j + 1] == w); assert(ring_at(a.h(), c, j + 2)); assert(c[j + 2] == w);
    lemma_swapped_keep(a, b, c, d);
    lemma_swapped_keep(o, a, s, c);
    assert(fan_at(o, b, s, j, x));
    assert forall|l: int| j < l < s.len() implies #[trigger] faces_differ(b, s, j, l) by { assert(fan_at(o, a, s, l, x)); assert(fan_at(o, b, s, l, x)); }
    assert forall|i: int| j - 1 < i < s.len() implies #[trigger] fan_at(o, b, s, i, x) by { if i > j { assert(fan_at(o, b, s, i, x)); } }
    assert forall|i: int, l: int| j - 1 < i < l < s.len() implies #[trigger] faces_differ(b, s, i, l) by { if i > j { assert(faces_differ(b, s, i, l)); } }
}
proof fn lemma_fan_end(o: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, s: Seq<I>, q: I, w: I, x: I, vp: VP, F: I)
    requires fan_state(o, a, s, 0, q, w, x, vp), o.valid(), ring(o.h(), s), simple(o.h(), s), b.valid(), b.vertices == a.vertices, b.payload == a.payload, grown(a, b, 0, 0, 1),
        fresh1(a.f(), F), b.f() =~= a.f().insert(F, mkf(F, s[0], false, fp_default())), b.h() =~= faces_set(a.h(), orbit(nmap(a.h()), s[0]), F),
    ensures fan(o, b, s, x, vp), grown(o, b, 2 * (s.len() as int), 1, s.len() as int),
{
    lemma_fan_head(o, a, s, 0, q, w, x, vp);
    reveal(fan_state);
    let c = fan_ring(s, 0, q, w);
    lemma_plug(a, b, c, s[0], F, false, fp_default());
    lemma_swapped_trans(o, a, b, s, c, Seq::empty());
    lemma_fan_keep(o, a, b, s, c, Seq::empty(), 0, x);
    lemma_swapped_keep(a, b, c, Seq::empty());
    lemma_swapped_keep(o, a, s, c);
    assert(c[0] == s[0] && c[1] == q && c[2] == w && c.len() == 3);
    assert(face_at(b.h(), c, F, 0)); assert(face_at(b.h(), c, F, 1)); assert(face_at(b.h(), c, F, 2)); assert(ring_at(a.h(), c, 2));
    assert(fan_at(o, b, s, 0, x));
    assert forall|l: int| 0 < l < s.len() implies #[trigger] faces_differ(b, s, 0, l) by { assert(fan_at(o, a, s, l, x)); assert(fan_at(o, b, s, l, x)); }
    assert forall|i: int, l: int| 0 <= i < l < s.len() implies #[trigger] faces_differ(b, s, i, l) by { if i > 0 { assert(faces_differ(b, s, i, l)); } }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] fan_at(o, b, s, i, x) by { if i > 0 { assert(fan_at(o, b, s, i, x)); } }
}
impl HalfEdgeMeshImpl {
//@fn src/operations/extrude.rs trait MeshExtrude :: fill_hole_apex
//@ret r
        requires old(self).valid(), old(self).h().contains_key(start), old(self).h()[start].face == NONE, simple(old(self).h(), orbit(nmap(old(self).h()), start)),
            room_e(*old(self), 2 * (orbit(nmap(old(self).h()), start).len() as int)), room_v(*old(self), 1), room_f(*old(self), orbit(nmap(old(self).h()), start).len() as int),
        ensures final(self).valid(), fan(*old(self), *final(self), orbit(nmap(old(self).h()), start), r, apex),
            grown(*old(self), *final(self), 2 * (orbit(nmap(old(self).h()), start).len() as int), 1, orbit(nmap(old(self).h()), start).len() as int),
//@pre
        let ghost o = *self; let ghost s = orbit(nmap(self.h()), start); let ghost k = s.len() as int; let ghost mut m = *self; let ghost mut j = k - 1; let ghost mut q = NONE; let ghost mut w = NONE;
        proof { lemma_orbit_ring(o, start); assert(ring_at(o.h(), s, 0)); assert(ring_at(o.h(), s, k - 1)); }
//@aftercall add_vertex_via_edge_default 0
        proof {
            let (e1, e2) = choose|e1: I, e2: I| fresh2(o.h(), e1, e2) && self.v() =~= o.v().insert(v, mkv(v, e2, apex)) && self.h() =~= #[trigger] pendant(o.h(), o.v(), input, start, v, e1, e2, apex, ep_default(), ep_default());
            lemma_hang(o, *self, s, (v, e1, e2), apex);
            lemma_fan_start(o, *self, s, (v, e1, e2), apex);
            q = e1; w = e2; m = *self;
        }
//@loop 0
            invariant 0 <= j < k, k == s.len(), fan_state(o, *self, s, j, q, w, v, apex), input == s[j], o.h().contains_key(s[0]), origin == o.h()[s[0]].origin_id, o.valid(), ring(o.h(), s), simple(o.h(), s),
                room_e(o, 2 * k), room_f(o, k),
            ensures j == 0,
            decreases j,
//@lstart 0
            proof { lemma_fan_head(o, *self, s, j, q, w, v, apex); m = *self; }
//@aftercall close_face_default 0
            proof {
                let r = choose|r: (I, I, I)| #[trigger] face_closed(m, *self, q, s[j - 1], ep_default(), ep_default(), fp_default(), false, r);
                lemma_fan_step(o, m, *self, s, j, q, w, v, apex, r);
                j = j - 1; q = r.2;
            }
//@beforecall close_hole 0
        proof { lemma_fan_head(o, *self, s, j, q, w, v, apex); m = *self; }
//@aftercall close_hole 0
        proof { lemma_loop_set(m, s[0]); lemma_fan_end(o, m, *self, s, q, w, v, apex, self.h()[s[0]].face); }
//@endfn
}
