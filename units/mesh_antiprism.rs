// Solids whose sides are triangles.

//@known iterarg:insert_antiprism_iter:0 iterarg:insert_antiprism_iter:1 iterarg:antiprism_iter:0 iterarg:antiprism_iter:1 iterarg:insert_antiprism:0 iterarg:antiprism:0 iterarg:insert_loop:0 iterarg:loft_tri_closed:1 iterarg:insert_polygon:0 iterarg:loft_polygon_back:3
//@known from_translation circle_iter
//@types T::Trans=TTrans; T::Vec=TVec; T::S=TS; T::VP=VP; T::Mesh=HalfEdgeMeshImpl; Face3d=HalfEdgeFaceImpl; T::S::HALF=TS::half(); T::S::TWO=TS::two(); T::S::ZERO=TS::zero(); T::S::ONE=TS::one(); T::S::THREE=TS::three(); T::S::PI=TS::pi(); T::S::PHI=TS::phi()
/// the antiprism over the hole s: triangles all around and the lid t
spec fn tboxed(o: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, s: Seq<I>, ys: Seq<I>, t: Seq<I>, F: I, ps: Seq<VP>) -> bool {
    &&& swapped(o, n, s, Seq::empty()) && face_loop(n.h(), t, F) && fresh1(o.f(), F) && n.f().contains_key(F)
    &&& t.len() == s.len() && ys.len() == s.len() && new_vs(o, n, ys, ps)
    &&& forall|i: int| 0 <= i < t.len() ==> n.h()[#[trigger] t[i]].origin_id == ys[i]
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] tri_at(o, n, s, i, ys[i])
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] tips_at(o, n, s, t, ys, i)
    &&& forall|i: int| 0 <= i < s.len() ==> n.h()[#[trigger] s[i]].face != F && n.h()[n.h()[t[i]].twin].face != F
}
proof fn lemma_tboxed(o: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, s: Seq<I>, ys: Seq<I>, t: Seq<I>, ps: Seq<VP>, e: I, F: I)
    requires o.valid(), a.valid(), b.valid(), ring(o.h(), s), hem3(o, a, s, ys, t, ps), t.contains(e), b.vertices == a.vertices, b.payload == a.payload, fresh1(a.f(), F), b.f() =~= a.f().insert(F, mkf(F, e, false, fp_default())),
        b.h() =~= faces_set(a.h(), orbit(nmap(a.h()), e), F),
    ensures tboxed(o, b, s, ys, t, F, ps), b.h()[e].face == F,
{
    lemma_plug(a, b, t, e, F, false, fp_default());
    lemma_swapped_trans(o, a, b, s, t, Seq::empty());
    lemma_swapped_keep(a, b, t, Seq::empty());
    lemma_swapped_keep(o, a, s, t);
    let k = s.len() as int;
    assert forall|i: int| 0 <= i < t.len() implies b.h()[#[trigger] t[i]].origin_id == ys[i] && a.h().contains_key(t[i]) by { assert(ring_at(a.h(), t, i)); }
    assert forall|i: int| 0 <= i < k implies #[trigger] tri_at(o, b, s, i, ys[i]) && b.h()[s[i]] == a.h()[s[i]] && a.f().contains_key(a.h()[s[i]].face) by {
        assert(tri_at(o, a, s, i, ys[i])); lemma_tri_keep(o, a, b, s, t, Seq::empty(), i, ys[i]); }
    assert forall|i: int| 0 <= i < k implies #[trigger] tips_at(o, b, s, t, ys, i) && a.f().contains_key(b.h()[b.h()[t[i]].twin].face) by {
        assert(tips_at(o, a, s, t, ys, i)); lemma_tip_keep(o, a, b, t, Seq::empty(), t[i], ys[i], ys[wrap(i + 1, k)], o.h()[s[wrap(i + 1, k)]].origin_id); }
    assert forall|i: int| 0 <= i < k implies b.h()[#[trigger] s[i]].face != F && b.h()[b.h()[t[i]].twin].face != F by { assert(tri_at(o, b, s, i, ys[i])); assert(tips_at(o, b, s, t, ys, i)); }
    assert forall|i: int| 0 <= i < k implies #[trigger] tri_at(o, b, s, i, ys[i]) by { }
    assert forall|i: int| 0 <= i < k implies #[trigger] tips_at(o, b, s, t, ys, i) by { }
    let i = choose|i: int| 0 <= i < t.len() && t[i] == e;
    assert(face_at(b.h(), t, F, i));
}
proof fn lemma_lid3(o: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, s: Seq<I>, qs: Seq<VP>, e: I) -> (r: (Seq<I>, Seq<I>))
    requires exists|ys: Seq<I>, t: Seq<I>| #[trigger] hem3(o, a, s, ys, t, qs) && t[0] == e, s.len() >= 2,
    ensures hem3(o, a, s, r.0, r.1, qs), r.1[0] == e, r.1.contains(e), a.h().contains_key(e), a.h()[e].face == NONE,
{
    let (ys, t) = choose|ys: Seq<I>, t: Seq<I>| #[trigger] hem3(o, a, s, ys, t, qs) && t[0] == e;
    assert(ring_at(a.h(), t, 0)); assert(t.contains(t[0]));
    (ys, t)
}
spec fn antiprism_on(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, base: Seq<VP>, F: I, ys: Seq<I>, t: Seq<I>, G: I, top: Seq<VP>) -> bool { based(o, m, vs, es, ts, base, F) && tboxed(m, n, es, ys, t, G, top) }
proof fn lemma_antiprism(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, a: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, ps: Seq<VP>, F: I, ys: Seq<I>, t: Seq<I>, qs: Seq<VP>, e: I, G: I)
    requires o.valid(), m.valid(), a.valid(), n.valid(), based(o, m, vs, es, ts, ps, F), hem3(m, a, es, ys, t, qs), t.contains(e), n.vertices == a.vertices, n.payload == a.payload, fresh1(a.f(), G), n.f() =~= a.f().insert(G, mkf(G, e, false, fp_default())),
        n.h() =~= faces_set(a.h(), orbit(nmap(a.h()), e), G),
    ensures sealed(o, n), antiprism_on(o, m, n, vs, es, ts, ps, F, ys, t, G, qs), n.h()[e].face == G,
{
    lemma_based(o, m, vs, es, ts, ps, F);
    lemma_tboxed(m, a, n, es, ys, t, qs, e, G);
    lemma_sealed(o, m, n, vs, es, ts, ps, F, es);
}
proof fn lemma_es_orbit(m: HalfEdgeMeshImpl, o: HalfEdgeMeshImpl, ps: Seq<VP>, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, F: I)
    requires m.valid(), based(o, m, vs, es, ts, ps, F),
    ensures hole_at(m, es[0]) =~= es, m.h().contains_key(es[0]), m.h()[es[0]].face == NONE, es.len() == ps.len(), es.len() >= 1,
{
    lemma_based(o, m, vs, es, ts, ps, F);
    assert(ring_at(m.h(), es, 0));
    lemma_ring_orbit(m, es);
}
proof fn lemma_antiprism_end(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, ps: Seq<VP>, F: I, ys: Seq<I>, t: Seq<I>, G: I, top: Seq<VP>)
    requires m.valid(), based(o, m, vs, es, ts, ps, F), tboxed(m, n, es, ys, t, G, top),
    ensures sealed(o, n), antiprism_on(o, m, n, vs, es, ts, ps, F, ys, t, G, top),
{
    lemma_based(o, m, vs, es, ts, ps, F);
    lemma_sealed(o, m, n, vs, es, ts, ps, F, es);
}
uninterp spec fn between(a: VP, b: VP) -> VP;
impl VP {
    #[verifier::external_body]
    fn lerped(&self, o: &VP, t: TS) -> (r: VP)
        ensures r == between(*self, *o),
    { unimplemented!() }
}
trait VxRotate { fn rotate_right(&mut self, n: usize); }
impl VxRotate for Vec<VP> {
    #[verifier::external_body]
    fn rotate_right(&mut self, n: usize)
        ensures n <= old(self)@.len() ==> final(self)@ == old(self)@.skip(old(self)@.len() - n) + old(self)@.take(old(self)@.len() - n),
    { unimplemented!() }
}
spec fn ring_pairs<T>(s: Seq<T>) -> Seq<(T, T)> { Seq::new(s.len(), |i: int| (s[i], s[wrap(i + 1, s.len() as int)])) }
impl<T> GIter<T> {
    /// itertools: all neighbours, the last followed by the first
    #[verifier::external_body]
    fn circular_tuple_windows(self) -> (r: GIter<(T, T)>)
        ensures r.rest() == ring_pairs(self.rest()),
    { unimplemented!() }
}
spec fn listed_vps(r: Seq<&VP>, q: Seq<VP>) -> bool { r.len() == q.len() && forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == q[i] }
spec fn mids(q: Seq<VP>) -> Seq<VP> { Seq::new(q.len(), |i: int| between(q[i], q[wrap(i + 1, q.len() as int)])) }
/// above the middle of each half-edge of s
spec fn between_vs(m: HalfEdgeMeshImpl, s: Seq<I>, t: TTrans) -> Seq<VP> { Seq::new(s.len(), |i: int| between(moved_vs(m, s, t)[i], moved_vs(m, s, t)[wrap(i + 1, s.len() as int)])) }
proof fn lemma_mids(o: HalfEdgeMeshImpl, s: Seq<I>, t: TTrans, r: Seq<VP>)
    requires s.len() >= 2, ({ let m = mids(moved_vs(o, rot(s, 1), t)); r == m.skip(m.len() - 1) + m.take(m.len() - 1) }),
    ensures r == between_vs(o, s, t),
{
    let all = rot(s, 1); let k = s.len() as int; let q = moved_vs(o, all, t); let p = moved_vs(o, s, t); let m = mids(q);
    assert(all.len() == k && m.len() == k);
    assert forall|i: int| 0 <= i < k implies q[i] == #[trigger] p[wrap(i + 1, k)] by { assert(all[i] == s[wrap(i + 1, k)]); }
    assert forall|i: int| 0 <= i < k implies #[trigger] r[i] == between_vs(o, s, t)[i] by {
        let j = if i == 0 { k - 1 } else { i - 1 };
        assert(r[i] == m[j]);
        assert(q[j] == p[wrap(j + 1, k)] && wrap(j + 1, k) == i);
        assert(wrap(j + 1, k) == i); assert(q[i] == p[wrap(i + 1, k)]);
    }
    assert(r =~= between_vs(o, s, t));
}
impl HalfEdgeMeshImpl {
//@fn src/operations/extrude.rs trait MeshExtrude :: extrude_tri2
//@ret r
        requires old(self).valid(), old(self).h().contains_key(e), old(self).h()[e].face == NONE, hole_at(*old(self), e).len() >= 2,
            room_e(*old(self), 6 * (hole_at(*old(self), e).len() as int)), room_v(*old(self), hole_at(*old(self), e).len() as int), room_f(*old(self), 2 * (hole_at(*old(self), e).len() as int) + 1),
        ensures final(self).valid(), grown(*old(self), *final(self), 6 * (hole_at(*old(self), e).len() as int), hole_at(*old(self), e).len() as int, 2 * (hole_at(*old(self), e).len() as int) + 1),
            exists|ys: Seq<I>, t: Seq<I>| #[trigger] tboxed(*old(self), *final(self), hole_at(*old(self), e), ys, t, final(self).h()[r].face, between_vs(*old(self), hole_at(*old(self), e), transform)) && t.contains(r),
//@pre
        hide(hem3); hide(tboxed);
        let ghost o = *self; let ghost s = hole_at(o, e); let ghost k = s.len() as int; let ghost all = rot(s, 1); let ghost mut gk = 0int; let ghost mut gj = 0int; let ghost mut a = *self; let ghost mut ys = Seq::<I>::empty(); let ghost mut t = Seq::<I>::empty();
        let ghost q = moved_vs(o, all, transform);
        proof { assert(link_ok(o.h(), e)); lemma_orbit_ring(o, e); lemma_rot(o.h(), s, 1); assert(ring_at(o.h(), s, 0)); assert(all[0] == o.h()[e].next); lemma_ring_orbit(o, all); assert(all.skip(0) =~= all); }
//@loop 0
            invariant 0 <= gk <= k, k == s.len(), all.len() == k, *self == o, o.valid(), ring(o.h(), all), it_1.inv(), *it_1.mesh == o, it_1.todo() == all.skip(gk), q == moved_vs(o, all, transform), res_1@ == q.take(gk),
            ensures gk == k,
            decreases it_1.todo().len(),
//@lstart 0
            proof { if gk < k { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1));
                assert(ring_at(o.h(), all, gk)); assert(edge_ok(o.h(), o.v(), o.f(), all[gk]));
                assert(q.take(gk + 1) =~= q.take(gk).push(q[gk])); } }
//@lend 0
            proof { gk = gk + 1; }
//@loop 1
            invariant 0 <= i_2 <= v_2@.len(), v_2@ == q, listed_vps(res_2@, q.take(i_2 as int)),
            decreases v_2@.len() - i_2,
//@loop 2
            invariant 0 <= gj <= k, q.len() == k, it_0.rest().len() == k - gj, forall|i: int| 0 <= i < k - gj ==> *(#[trigger] it_0.rest()[i]).0 == q[gj + i] && *it_0.rest()[i].1 == q[wrap(gj + i + 1, k)], res_0@ == mids(q).take(gj),
            ensures gj == k,
            decreases it_0.rest().len(),
//@lstart 2
            proof { if gj < k { assert(it_0.rest()[0] == it_0.rest()[0]); assert(mids(q).take(gj + 1) =~= mids(q).take(gj).push(mids(q)[gj])); } }
//@lend 2
            proof { gj = gj + 1; }
//@beforecall rotate_right 0
        proof { assert(mids(q).take(k) =~= mids(q)); assert(vps@ == mids(q)); }
//@aftercall rotate_right 0
        proof { lemma_mids(o, s, transform, vps@); }
//@aftercall loft_tri_closed 0
        proof { a = *self; let r = lemma_lid3(o, a, s, between_vs(o, s, transform), start); ys = r.0; t = r.1; }
//@aftercall close_hole 0
        proof {
            let F = choose|F: I| fresh1(a.f(), F) && self.f() =~= a.f().insert(F, mkf(F, start, false, fp_default())) && self.h() =~= #[trigger] faces_set(a.h(), orbit(nmap(a.h()), start), F);
            lemma_tboxed(o, a, *self, s, ys, t, between_vs(o, s, transform), start, F); }
//@endfn
//@fn src/operations/extrude.rs trait MeshExtrude :: extrude_tri
//@ret r
        requires old(self).valid(), old(self).h().contains_key(e), old(self).h()[e].face == NONE, hole_at(*old(self), e).len() >= 2,
            room_e(*old(self), 6 * (hole_at(*old(self), e).len() as int)), room_v(*old(self), hole_at(*old(self), e).len() as int), room_f(*old(self), 2 * (hole_at(*old(self), e).len() as int) + 1),
        ensures final(self).valid(), grown(*old(self), *final(self), 6 * (hole_at(*old(self), e).len() as int), hole_at(*old(self), e).len() as int, 2 * (hole_at(*old(self), e).len() as int) + 1),
            exists|ys: Seq<I>, t: Seq<I>| #[trigger] tboxed(*old(self), *final(self), hole_at(*old(self), e), ys, t, final(self).h()[r].face, moved_vs(*old(self), rot(hole_at(*old(self), e), 1), transform)) && t.contains(r),
//@pre
        hide(hem3); hide(tboxed);
        let ghost o = *self; let ghost s = hole_at(o, e); let ghost k = s.len() as int; let ghost all = rot(s, 1); let ghost mut gk = 0int; let ghost mut a = *self; let ghost mut ys = Seq::<I>::empty(); let ghost mut t = Seq::<I>::empty();
        proof { assert(link_ok(o.h(), e)); lemma_orbit_ring(o, e); lemma_rot(o.h(), s, 1); assert(ring_at(o.h(), s, 0)); assert(all[0] == o.h()[e].next); lemma_ring_orbit(o, all); assert(all.skip(0) =~= all); }
//@loop 0
            invariant 0 <= gk <= k, k == s.len(), all.len() == k, *self == o, o.valid(), ring(o.h(), all), it_0.inv(), *it_0.mesh == o, it_0.todo() == all.skip(gk), res_0@ == moved_vs(o, all, transform).take(gk),
            ensures gk == k,
            decreases it_0.todo().len(),
//@lstart 0
            proof { if gk < k { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1));
                assert(ring_at(o.h(), all, gk)); assert(edge_ok(o.h(), o.v(), o.f(), all[gk]));
                assert(moved_vs(o, all, transform).take(gk + 1) =~= moved_vs(o, all, transform).take(gk).push(moved_vs(o, all, transform)[gk])); } }
//@lend 0
            proof { gk = gk + 1; }
//@beforecall loft_tri_closed 0
        proof { assert(vps@ =~= moved_vs(o, all, transform)); }
//@aftercall loft_tri_closed 0
        proof { a = *self; let r = lemma_lid3(o, a, s, moved_vs(o, all, transform), start); ys = r.0; t = r.1; }
//@aftercall close_hole 0
        proof {
            let F = choose|F: I| fresh1(a.f(), F) && self.f() =~= a.f().insert(F, mkf(F, start, false, fp_default())) && self.h() =~= #[trigger] faces_set(a.h(), orbit(nmap(a.h()), start), F);
            lemma_tboxed(o, a, *self, s, ys, t, moved_vs(o, all, transform), start, F); }
//@endfn
//@fn src/operations/extrude.rs trait MeshExtrude :: extrude_tri_face
//@ret r
        requires old(self).valid(), old(self).f().contains_key(f), ({ let k = hole_at(*old(self), old(self).f()[f].edge).len() as int; k >= 2 && room_e(*old(self), 6 * k) && room_v(*old(self), k) && room_f(*old(self), 2 * k) }),
        ensures final(self).valid(), ({ let k = hole_at(*old(self), old(self).f()[f].edge).len() as int; grown(*old(self), *final(self), 6 * k, k, 2 * k) }),
            exists|m: HalfEdgeMeshImpl| #[trigger] face_gone(*old(self), m, f)
                && (exists|ys: Seq<I>, t: Seq<I>| #[trigger] tboxed(m, *final(self), hole_at(m, old(self).f()[f].edge), ys, t, final(self).h()[r].face, moved_vs(m, rot(hole_at(m, old(self).f()[f].edge), 1), transform)) && t.contains(r)),
//@pre
        let ghost o = *self;
        proof { assert(face_ok(o.h(), o.f(), f)); }
//@aftercall remove_face 0
        proof { assert(face_gone(o, *self, f)); lemma_gone(o, *self, f); lemma_faces_set(o.h(), loop_ids(o.h(), o.f()[f]), NONE); }
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: insert_antiprism_iter
//@param vp: GIter<VP>
//@param vp2: GIter<VP>
//@ret r
        requires old(self).valid(), vp.rest().len() >= 2, vp2.rest().len() == vp.rest().len(), room_e(*old(self), 8 * (vp.rest().len() as int)), room_v(*old(self), 2 * (vp.rest().len() as int)), room_f(*old(self), 2 * (vp.rest().len() as int) + 2),
        ensures final(self).valid(), grown(*old(self), *final(self), 8 * (vp.rest().len() as int), 2 * (vp.rest().len() as int), 2 * (vp.rest().len() as int) + 2), sealed(*old(self), *final(self)),
            exists|m: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, F: I, ys: Seq<I>, t: Seq<I>| #[trigger] antiprism_on(*old(self), m, *final(self), vs, es, ts, vp.rest(), F, ys, t, final(self).h()[r].face, vp2.rest()) && t.contains(r),
//@pre
        hide(hem3); hide(based); hide(tboxed); hide(sealed); hide(antiprism_on); hide(ring); hide(simple);
        let ghost o = *self; let ghost ps = vp.rest(); let ghost qs = vp2.rest(); let ghost k = ps.len() as int; let ghost mut m = *self; let ghost mut a = *self;
        let ghost mut ys = Seq::<I>::empty(); let ghost mut t = Seq::<I>::empty(); let ghost mut vs = Seq::<I>::empty(); let ghost mut es = Seq::<I>::empty(); let ghost mut ts = Seq::<I>::empty(); let ghost mut F = NONE;
//@aftercall insert_polygon 0
        proof { m = *self; let r = lemma_base(o, m, ps, first); vs = r.0; es = r.1; ts = r.2; F = r.3; }
//@aftercall loft_tri_closed 0
        proof { a = *self; let r = lemma_lid3(m, a, es, qs, e); ys = r.0; t = r.1; }
//@aftercall close_hole 0
        proof {
            let G = choose|F: I| fresh1(a.f(), F) && self.f() =~= a.f().insert(F, mkf(F, e, false, fp_default())) && self.h() =~= #[trigger] faces_set(a.h(), orbit(nmap(a.h()), e), F);
            lemma_antiprism(o, m, a, *self, vs, es, ts, ps, F, ys, t, qs, e, G);
        }
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: antiprism_iter
//@param vp: GIter<VP>
//@param vp2: GIter<VP>
//@ret r
        requires vp.rest().len() >= 2, vp2.rest().len() == vp.rest().len(), roomy(2 * (vp.rest().len() as int), 8 * (vp.rest().len() as int), 2 * (vp.rest().len() as int) + 2),
        ensures r.valid(), closed_mesh(r), sized(r, 2 * (vp.rest().len() as int), 8 * (vp.rest().len() as int), 2 * (vp.rest().len() as int) + 2),
            exists|o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, F: I, ys: Seq<I>, t: Seq<I>, G: I| #[trigger] antiprism_on(o, m, r, vs, es, ts, vp.rest(), F, ys, t, G, vp2.rest()),
//@pre
        hide(antiprism_on);
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: insert_antiprism
//@param vp: GIter<VP>
//@ret r
        requires old(self).valid(), vp.rest().len() >= 2, room_e(*old(self), 8 * (vp.rest().len() as int)), room_v(*old(self), 2 * (vp.rest().len() as int)), room_f(*old(self), 2 * (vp.rest().len() as int) + 2),
        ensures final(self).valid(), grown(*old(self), *final(self), 8 * (vp.rest().len() as int), 2 * (vp.rest().len() as int), 2 * (vp.rest().len() as int) + 2), sealed(*old(self), *final(self)),
            exists|m: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, F: I, ys: Seq<I>, t: Seq<I>, tr: TTrans| #[trigger] antiprism_on(*old(self), m, *final(self), vs, es, ts, vp.rest(), F, ys, t, final(self).h()[r].face, between_vs(m, es, tr)) && t.contains(r),
//@pre
        hide(based); hide(tboxed); hide(sealed); hide(antiprism_on); hide(ring); hide(simple);
        let ghost o = *self; let ghost ps = vp.rest(); let ghost k = ps.len() as int; let ghost mut m = *self;
        let ghost mut vs = Seq::<I>::empty(); let ghost mut es = Seq::<I>::empty(); let ghost mut ts = Seq::<I>::empty(); let ghost mut F = NONE;
//@aftercall insert_polygon 0
        proof { m = *self; let r = lemma_base(o, m, ps, first); vs = r.0; es = r.1; ts = r.2; F = r.3; lemma_prism_start(m, o, ps, vs, es, ts, F); lemma_es_orbit(m, o, ps, vs, es, ts, F); }
//@aftercall extrude_tri2 0
        proof {
            let (tr, ys, t) = choose|tr: TTrans, ys: Seq<I>, t: Seq<I>| #[trigger] tboxed(m, *self, es, ys, t, self.h()[e].face, between_vs(m, es, tr)) && t.contains(e);
            lemma_antiprism_end(o, m, *self, vs, es, ts, ps, F, ys, t, self.h()[e].face, between_vs(m, es, tr));
        }
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: antiprism
//@param vp: GIter<VP>
//@ret r
        requires vp.rest().len() >= 2, roomy(2 * (vp.rest().len() as int), 8 * (vp.rest().len() as int), 2 * (vp.rest().len() as int) + 2),
        ensures r.valid(), closed_mesh(r), sized(r, 2 * (vp.rest().len() as int), 8 * (vp.rest().len() as int), 2 * (vp.rest().len() as int) + 2),
            exists|o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, F: I, ys: Seq<I>, t: Seq<I>, G: I, tr: TTrans| #[trigger] antiprism_on(o, m, r, vs, es, ts, vp.rest(), F, ys, t, G, between_vs(m, es, tr)),
//@pre
        hide(antiprism_on);
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: regular_antiprism
//@ret m
        requires n >= 2, roomy(2 * n, 8 * n, 2 * n + 2),
        ensures m.valid(), closed_mesh(m), sized(m, 2 * n, 8 * n, 2 * n + 2),
//@endfn
//@fn src/primitives/prismatoid.rs trait MakePrismatoid :: uniform_antiprism
//@ret m
        requires n >= 2, roomy(2 * n, 8 * n, 2 * n + 2),
        ensures m.valid(), closed_mesh(m), sized(m, 2 * n, 8 * n, 2 * n + 2),
//@endfn
}
