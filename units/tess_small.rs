// Fixed-size polygons and fans, on corner lists.

/// abort of the program (`panic!`, `todo!`): nothing is claimed about a call that does not return
#[verifier::external_body]
fn rt_abort() -> !
    ensures false,
{ panic!() }
impl<T> GIter<T> {
    fn collect_tuple(self) -> (r: Option<(T, T, T)>)
        ensures r.is_some() == (self.rest().len() == 3),
            r.is_some() ==> r.unwrap() == (self.rest()[0], self.rest()[1], self.rest()[2]),
    {
        let mut v = self.v;
        if v.len() != 3 { return None; }
        let a = v.remove(0);
        let b = v.remove(0);
        let c = v.remove(0);
        Some((a, b, c))
    }
}
proof fn lemma_tri1()
    ensures polytri(seq![(0int, 1int, 2int)], 0, 2),
{
    lemma_polytri_empty(0);
    lemma_fan_step(Seq::empty(), 0, 2);
    assert(Seq::<T3>::empty().push((0, 1, 2)) =~= seq![(0int, 1int, 2int)]);
}
proof fn lemma_quad02()
    ensures polytri(seq![(0int, 1int, 2int), (0int, 2int, 3int)], 0, 3),
{
    lemma_tri1();
    lemma_fan_step(seq![(0int, 1int, 2int)], 0, 3);
    assert(seq![(0int, 1int, 2int)].push((0, 2, 3)) =~= seq![(0int, 1int, 2int), (0int, 2int, 3int)]);
}
proof fn lemma_quad13()
    ensures polytri(seq![(1int, 2int, 3int), (1int, 3int, 0int)], 0, 3),
{
    let l = seq![(1int, 2int, 3int), (1int, 3int, 0int)];
    assert(l =~= Seq::<T3>::empty().push((1, 2, 3)).push((1, 3, 0)));
    let e = Seq::<T3>::empty();
    assert forall|a: int, b: int| #[trigger] dcnt(l, a, b) == de((1, 2, 3), a, b) + de((1, 3, 0), a, b) by {
        lemma_dcnt_push(e.push((1, 2, 3)), (1, 3, 0), a, b);
        lemma_dcnt_push(e, (1, 2, 3), a, b);
    }
    assert forall|a: int, b: int| #[trigger] dcnt(l, a, b) - dcnt(l, b, a) == side(0, 3, a, b) - side(0, 3, b, a) by {
        assert(dcnt(l, b, a) == de((1, 2, 3), b, a) + de((1, 3, 0), b, a));
    }
}
proof fn lemma_flat2(s: T3, t: T3, ids: Seq<I>)
    ensures flat(seq![s, t], ids) =~= seq![ids[s.0], ids[s.1], ids[s.2], ids[t.0], ids[t.1], ids[t.2]],
{
    assert(seq![s, t] =~= seq![s].push(t));
    lemma_flat_push(seq![s], t, ids);
    lemma_flat1(s, ids);
}
spec fn q02() -> Seq<T3> { seq![(0int, 1int, 2int), (0int, 2int, 3int)] }
spec fn q13() -> Seq<T3> { seq![(1int, 2int, 3int), (1int, 3int, 0int)] }
/// the diagonal a c of the quadrilateral a b c d has b strictly on its right and d strictly on its left
spec fn diag_in(a: V2, b: V2, c: V2, d: V2) -> bool { area2(a, b, c) > 0real && area2(c, d, a) > 0real }
spec fn diag_out(a: V2, b: V2, c: V2, d: V2) -> bool { area2(a, b, c) < 0real || area2(c, d, a) < 0real }
/// an inside diagonal is used, and the shorter one when both are inside
spec fn quad_best(a: Seq<I>, b: Seq<I>, vs: Seq<IndexedVertex2D>) -> bool {
    let (p0, p1, p2, p3) = (vs[0].vec, vs[1].vec, vs[2].vec, vs[3].vec);
    let u02 = b == a + flat(q02(), ids_of(vs));
    let u13 = b == a + flat(q13(), ids_of(vs));
    &&& u02 || u13
    &&& diag_in(p0, p1, p2, p3) && diag_out(p1, p2, p3, p0) ==> u02
    &&& diag_out(p0, p1, p2, p3) && diag_in(p1, p2, p3, p0) ==> u13
    &&& diag_in(p0, p1, p2, p3) && diag_in(p1, p2, p3, p0) && dist2(p0, p2) < dist2(p1, p3) ==> u02
    &&& diag_in(p0, p1, p2, p3) && diag_in(p1, p2, p3, p0) && dist2(p0, p2) > dist2(p1, p3) ==> u13
}
proof fn lemma_quad_added(a: Seq<I>, b: Seq<I>, vs: Seq<IndexedVertex2D>)
    requires vs.len() == 4, quad_best(a, b, vs),
    ensures tri_added(a, b, ids_of(vs)),
{
    lemma_quad02();
    lemma_quad13();
    assert(ids_of(vs).len() - 1 == 3);
    if b == a + flat(q02(), ids_of(vs)) { assert(polytri(q02(), 0, 3)); } else { assert(polytri(q13(), 0, 3)); }
}
proof fn lemma_push6(a: Seq<I>, s: T3, t: T3, ids: Seq<I>)
    ensures a.push(ids[s.0]).push(ids[s.1]).push(ids[s.2]).push(ids[t.0]).push(ids[t.1]).push(ids[t.2]) =~= a + flat(seq![s, t], ids),
{
    lemma_flat2(s, t, ids);
}
//@types Self=Self
//@fn src/tesselate/fixed_n.rs free :: min_weight_quad
    requires vs@.len() == 4, old(indices).ok(), old(indices).all().len() + 6 <= usize::MAX,
    ensures final(indices).ok(), final(indices).same_buf(*old(indices)),
        quad_best(old(indices).all(), final(indices).all(), vs@),
        tri_added(old(indices).all(), final(indices).all(), ids_of(vs@)),
//@post
    proof {
        let a = old(indices).all();
        lemma_push6(a, (0, 1, 2), (0, 2, 3), ids_of(vs@));
        lemma_push6(a, (1, 2, 3), (1, 3, 0), ids_of(vs@));
        lemma_convex_is_area(vs@[0].vec, vs@[1].vec, vs@[2].vec);
        lemma_area_rot(vs@[1].vec, vs@[2].vec, vs@[3].vec);
        lemma_area_rot(vs@[3].vec, vs@[0].vec, vs@[1].vec);
        assert(quad_best(a, indices.all(), vs@));
        lemma_quad_added(a, indices.all(), vs@);
    }
//@endfn
//@fn src/tesselate/fixed_n.rs free :: try_min_weight_small_direct
//@ret r
    requires old(indices).ok(), old(indices).all().len() + 6 <= usize::MAX,
    ensures final(indices).ok(), final(indices).same_buf(*old(indices)),
        r == (vs@.len() == 3 || vs@.len() == 4),
        r ==> tri_added(old(indices).all(), final(indices).all(), ids_of(vs@)),
        !r ==> final(indices).all() == old(indices).all(),
        vs@.len() == 4 ==> quad_best(old(indices).all(), final(indices).all(), vs@),
//@loop 0
        invariant i_0 <= vs@.len(), v_0@ == vs@, res_0@.len() == i_0, forall|j: int| 0 <= j < i_0 ==> #[trigger] res_0@[j] == vs@[j].index,
        decreases vs@.len() - i_0,
//@beforecall insert_triangle 0
        proof { lemma_tri1(); lemma_flat1((0, 1, 2), ids_of(vs@)); assert(ids_of(vs@).len() - 1 == 2); assert(a == vs@[0].index && b == vs@[1].index && c == vs@[2].index);
            assert(polytri(seq![(0int, 1int, 2int)], 0, ids_of(vs@).len() - 1));
            assert(indices.all().push(a).push(b).push(c) =~= indices.all() + flat(seq![(0int, 1int, 2int)], ids_of(vs@))); }
//@endfn
