// What it means that triangles (triples of corner positions) cover the polygon with corners i..j.

type T3 = (int, int, int);
spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
/// number of directed edges a -> b of a triangle / a list of triangles
spec fn de(t: T3, a: int, b: int) -> int { b2i(t.0 == a && t.1 == b) + b2i(t.1 == a && t.2 == b) + b2i(t.2 == a && t.0 == b) }
spec fn dcnt(l: Seq<T3>, a: int, b: int) -> int
    decreases l.len(),
{
    if l.len() == 0 { 0 } else { dcnt(l.drop_last(), a, b) + de(l.last(), a, b) }
}
/// the sides of the polygon with the corners i, i+1, .., j: each corner to its successor, and j back to i
spec fn side(i: int, j: int, a: int, b: int) -> int { b2i(i <= a < j && b == a + 1) + b2i(a == j && b == i) }
spec fn corner_ok(t: T3, i: int, j: int) -> bool {
    i <= t.0 <= j && i <= t.1 <= j && i <= t.2 <= j && t.0 != t.1 && t.1 != t.2 && t.2 != t.0
}
spec fn corners_ok(l: Seq<T3>, i: int, j: int) -> bool { forall|k: int| 0 <= k < l.len() ==> corner_ok(#[trigger] l[k], i, j) }
/// n-2 triangles over the corners; every side is an edge of exactly one triangle (in the direction of
/// the polygon), and every other edge is met exactly once from each of its two sides
spec fn polytri(l: Seq<T3>, i: int, j: int) -> bool {
    &&& l.len() == j - i - 1
    &&& corners_ok(l, i, j)
    &&& forall|a: int, b: int| 0 <= #[trigger] dcnt(l, a, b) <= 1
    &&& forall|a: int, b: int| #[trigger] dcnt(l, a, b) - dcnt(l, b, a) == side(i, j, a, b) - side(i, j, b, a)
}
/// spelled out: sides are used once, inner edges twice (for polygons with at least three corners)
proof fn lemma_polytri_meaning(l: Seq<T3>, n: int)
    requires n >= 3, polytri(l, 0, n - 1),
    ensures l.len() == n - 2,
        forall|a: int, b: int| side(0, n - 1, a, b) == 1 ==> #[trigger] dcnt(l, a, b) == 1 && dcnt(l, b, a) == 0,
        forall|a: int, b: int| side(0, n - 1, a, b) == 0 && side(0, n - 1, b, a) == 0 ==> #[trigger] dcnt(l, a, b) == dcnt(l, b, a) && dcnt(l, a, b) <= 1,
{
    assert forall|a: int, b: int| side(0, n - 1, a, b) == 1 implies #[trigger] dcnt(l, a, b) == 1 && dcnt(l, b, a) == 0 by {
        assert(dcnt(l, a, b) - dcnt(l, b, a) == side(0, n - 1, a, b) - side(0, n - 1, b, a));
        assert(0 <= dcnt(l, b, a) <= 1);
    }
}
proof fn lemma_dcnt_push(l: Seq<T3>, t: T3, a: int, b: int)
    ensures dcnt(l.push(t), a, b) == dcnt(l, a, b) + de(t, a, b),
{
    assert(l.push(t).drop_last() =~= l);
}
proof fn lemma_dcnt_add(l: Seq<T3>, m: Seq<T3>, a: int, b: int)
    ensures dcnt(l + m, a, b) == dcnt(l, a, b) + dcnt(m, a, b),
    decreases m.len(),
{
    if m.len() == 0 { assert(l + m =~= l); } else {
        assert((l + m).drop_last() =~= l + m.drop_last());
        assert((l + m).last() == m.last());
        lemma_dcnt_add(l, m.drop_last(), a, b);
    }
}
proof fn lemma_dcnt_range(l: Seq<T3>, i: int, j: int, a: int, b: int)
    requires corners_ok(l, i, j),
    ensures dcnt(l, a, b) >= 0, dcnt(l, a, b) > 0 ==> i <= a <= j && i <= b <= j && a != b,
    decreases l.len(),
{
    if l.len() > 0 {
        assert(corner_ok(l[l.len() - 1], i, j));
        assert forall|k: int| 0 <= k < l.drop_last().len() implies corner_ok(#[trigger] l.drop_last()[k], i, j) by { assert(l.drop_last()[k] == l[k]); }
        lemma_dcnt_range(l.drop_last(), i, j, a, b);
    }
}
proof fn lemma_polytri_empty(i: int)
    ensures polytri(Seq::<T3>::empty(), i, i + 1),
{
    let l = Seq::<T3>::empty();
    assert forall|a: int, b: int| #[trigger] dcnt(l, a, b) - dcnt(l, b, a) == side(i, i + 1, a, b) - side(i, i + 1, b, a) by {}
}
/// one triangle on the side j -> i and triangulations of the two remaining parts
proof fn lemma_compose(l: Seq<T3>, l1: Seq<T3>, l2: Seq<T3>, i: int, k: int, j: int)
    requires i < k < j, polytri(l1, i, k), polytri(l2, k, j), l.len() == l1.len() + l2.len() + 1, corners_ok(l, i, j),
        forall|a: int, b: int| #[trigger] dcnt(l, a, b) == de((i, k, j), a, b) + dcnt(l1, a, b) + dcnt(l2, a, b),
    ensures polytri(l, i, j),
{
    assert forall|a: int, b: int| 0 <= #[trigger] dcnt(l, a, b) <= 1 by {
        lemma_dcnt_range(l1, i, k, a, b);
        lemma_dcnt_range(l2, k, j, a, b);
        assert(0 <= dcnt(l1, a, b) <= 1 && 0 <= dcnt(l2, a, b) <= 1);
        assert(dcnt(l1, a, b) - dcnt(l1, b, a) == side(i, k, a, b) - side(i, k, b, a));
        assert(dcnt(l2, a, b) - dcnt(l2, b, a) == side(k, j, a, b) - side(k, j, b, a));
        assert(0 <= dcnt(l1, b, a) <= 1 && 0 <= dcnt(l2, b, a) <= 1);
        assert(dcnt(l, a, b) == de((i, k, j), a, b) + dcnt(l1, a, b) + dcnt(l2, a, b));
    }
    assert forall|a: int, b: int| #[trigger] dcnt(l, a, b) - dcnt(l, b, a) == side(i, j, a, b) - side(i, j, b, a) by {
        assert(dcnt(l1, a, b) - dcnt(l1, b, a) == side(i, k, a, b) - side(i, k, b, a));
        assert(dcnt(l2, a, b) - dcnt(l2, b, a) == side(k, j, a, b) - side(k, j, b, a));
        assert(dcnt(l, a, b) == de((i, k, j), a, b) + dcnt(l1, a, b) + dcnt(l2, a, b));
        assert(dcnt(l, b, a) == de((i, k, j), b, a) + dcnt(l1, b, a) + dcnt(l2, b, a));
    }
}
proof fn lemma_join(l1: Seq<T3>, l2: Seq<T3>, i: int, k: int, j: int)
    requires i < k < j, polytri(l1, i, k), polytri(l2, k, j),
    ensures polytri(seq![(i, k, j)] + l1 + l2, i, j),
{
    let t = seq![(i, k, j)];
    let l = t + l1 + l2;
    assert(l.len() == l1.len() + l2.len() + 1);
    assert forall|q: int| 0 <= q < l.len() implies corner_ok(#[trigger] l[q], i, j) by {
        if 1 <= q < 1 + l1.len() { assert(corner_ok(l1[q - 1], i, k)); }
        if q >= 1 + l1.len() { assert(corner_ok(l2[q - 1 - l1.len()], k, j)); }
    }
    assert forall|a: int, b: int| #[trigger] dcnt(l, a, b) == de((i, k, j), a, b) + dcnt(l1, a, b) + dcnt(l2, a, b) by {
        lemma_dcnt_add(t + l1, l2, a, b);
        lemma_dcnt_add(t, l1, a, b);
        assert(t.drop_last() =~= Seq::<T3>::empty());
        assert(dcnt(t.drop_last(), a, b) == 0);
    }
    lemma_compose(l, l1, l2, i, k, j);
}
/// fan: one more triangle (i, j-1, j)
proof fn lemma_fan_step(l1: Seq<T3>, i: int, j: int)
    requires i + 1 < j, polytri(l1, i, j - 1),
    ensures polytri(l1.push((i, j - 1, j)), i, j),
{
    let l = l1.push((i, j - 1, j));
    let e = Seq::<T3>::empty();
    lemma_polytri_empty(j - 1);
    assert forall|q: int| 0 <= q < l.len() implies corner_ok(#[trigger] l[q], i, j) by {
        if q < l1.len() { assert(corner_ok(l1[q], i, j - 1)); }
    }
    assert forall|a: int, b: int| #[trigger] dcnt(l, a, b) == de((i, j - 1, j), a, b) + dcnt(l1, a, b) + dcnt(e, a, b) by {
        lemma_dcnt_push(l1, (i, j - 1, j), a, b);
    }
    lemma_compose(l, l1, e, i, j - 1, j);
}

/// the indices written for a list of triangles
spec fn flat(l: Seq<T3>, ids: Seq<I>) -> Seq<I>
    decreases l.len(),
{
    if l.len() == 0 { Seq::empty() } else { flat(l.drop_last(), ids).push(ids[l.last().0]).push(ids[l.last().1]).push(ids[l.last().2]) }
}
proof fn lemma_flat_push(l: Seq<T3>, t: T3, ids: Seq<I>)
    ensures flat(l.push(t), ids) == flat(l, ids).push(ids[t.0]).push(ids[t.1]).push(ids[t.2]),
{
    assert(l.push(t).drop_last() =~= l);
}
proof fn lemma_flat_add(l: Seq<T3>, m: Seq<T3>, ids: Seq<I>)
    ensures flat(l + m, ids) =~= flat(l, ids) + flat(m, ids),
    decreases m.len(),
{
    if m.len() == 0 { assert(l + m =~= l); } else {
        assert((l + m).drop_last() =~= l + m.drop_last());
        assert((l + m).last() == m.last());
        lemma_flat_add(l, m.drop_last(), ids);
    }
}
proof fn lemma_flat_len(l: Seq<T3>, ids: Seq<I>)
    ensures flat(l, ids).len() == 3 * l.len(),
    decreases l.len(),
{
    if l.len() > 0 { lemma_flat_len(l.drop_last(), ids); }
}
proof fn lemma_flat1(t: T3, ids: Seq<I>)
    ensures flat(seq![t], ids) =~= seq![ids[t.0], ids[t.1], ids[t.2]],
{
    lemma_flat_push(Seq::empty(), t, ids);
    assert(Seq::<T3>::empty().push(t) =~= seq![t]);
}
spec fn ids_of(vs: Seq<IndexedVertex2D>) -> Seq<I> { vs.map_values(|v: IndexedVertex2D| v.index) }
/// `b` extends `a` by a triangulation of the polygon with these corners
spec fn tri_added(a: Seq<I>, b: Seq<I>, ids: Seq<I>) -> bool {
    exists|l: Seq<T3>| #[trigger] polytri(l, 0, ids.len() - 1) && b == a + flat(l, ids)
}
/// the same with every triangle turned round
spec fn rev3(l: Seq<T3>) -> Seq<T3> { l.map_values(|t: T3| (t.0, t.2, t.1)) }
spec fn tri_added_rev(a: Seq<I>, b: Seq<I>, ids: Seq<I>) -> bool {
    exists|l: Seq<T3>| #[trigger] polytri(l, 0, ids.len() - 1) && b == a + flat(rev3(l), ids)
}
