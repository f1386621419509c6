// Ear clipping.

/// `a`, `x`, `b` are met in this order when going round the corners, x strictly between
spec fn betw(a: int, x: int, b: int) -> bool { if a < b { a < x < b } else { x > a || x < b } }
/// b follows a on what is left of the polygon
spec fn adj(c: Seq<bool>, a: int, b: int) -> bool {
    &&& 0 <= a < c.len() && 0 <= b < c.len() && a != b && !c[a] && !c[b]
    &&& forall|x: int| 0 <= x < c.len() && betw(a, x, b) ==> #[trigger] c[x]
}
/// number of corners left among the first k
spec fn left(c: Seq<bool>, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { left(c, k - 1) + b2i(!c[k - 1]) }
}
proof fn lemma_left_bound(c: Seq<bool>, k: int, p: int, q: int)
    requires 0 <= k <= c.len(), forall|x: int| 0 <= x < k && x != p && x != q ==> #[trigger] c[x],
    ensures left(c, k) <= b2i(0 <= p < k) + b2i(0 <= q < k && p != q),
    decreases k,
{
    if k > 0 { lemma_left_bound(c, k - 1, p, q); }
}
proof fn lemma_left_clip(c: Seq<bool>, k: int, p: int)
    requires 0 <= k <= c.len(), 0 <= p < c.len(), !c[p],
    ensures left(c.update(p, true), k) == left(c, k) - b2i(p < k), 0 <= left(c, k) <= k,
    decreases k,
{
    if k > 0 { lemma_left_clip(c, k - 1, p); }
}
proof fn lemma_left_all(c: Seq<bool>, k: int)
    requires 0 <= k <= c.len(), forall|x: int| 0 <= x < k ==> !#[trigger] c[x],
    ensures left(c, k) == k,
    decreases k,
{
    if k > 0 { lemma_left_all(c, k - 1); }
}
proof fn lemma_adj_unique(c: Seq<bool>, a: int, b: int, d: int)
    ensures adj(c, a, b) && adj(c, a, d) ==> b == d, adj(c, b, a) && adj(c, d, a) ==> b == d,
{
    if adj(c, a, b) && adj(c, a, d) && b != d { assert(betw(a, b, d) || betw(a, d, b)); }
    if adj(c, b, a) && adj(c, d, a) && b != d { assert(betw(b, d, a) || betw(d, b, a)); }
}
/// with three corners left, the successor of the successor is not the corner itself
proof fn lemma_three(c: Seq<bool>, a: int, b: int)
    requires adj(c, a, b), adj(c, b, a),
    ensures left(c, c.len() as int) <= 2,
{
    assert forall|x: int| 0 <= x < c.len() && x != a && x != b implies #[trigger] c[x] by { assert(betw(a, x, b) || betw(b, x, a)); }
    lemma_left_bound(c, c.len() as int, a, b);
}
/// what has been cut off and what is left make up the polygon
spec fn ear_inv(l: Seq<T3>, c: Seq<bool>) -> bool {
    let n = c.len() as int;
    &&& corners_ok(l, 0, n - 1)
    &&& l.len() == n - left(c, n)
    &&& forall|a: int, b: int| 0 <= #[trigger] dcnt(l, a, b) <= 1
    &&& forall|a: int, b: int| #[trigger] dcnt(l, a, b) + b2i(adj(c, a, b)) - dcnt(l, b, a) - b2i(adj(c, b, a)) == side(0, n - 1, a, b) - side(0, n - 1, b, a)
    &&& forall|a: int, b: int| 0 <= a < n && 0 <= b < n && !c[a] && !c[b] && #[trigger] dcnt(l, a, b) > 0 ==> adj(c, b, a)
}
proof fn lemma_ear_start(c: Seq<bool>)
    requires c.len() >= 3, forall|x: int| 0 <= x < c.len() ==> !#[trigger] c[x],
    ensures ear_inv(Seq::empty(), c),
{
    let n = c.len() as int;
    let l = Seq::<T3>::empty();
    lemma_left_all(c, n);
    assert forall|a: int, b: int| #[trigger] adj(c, a, b) == (side(0, n - 1, a, b) == 1) by {
        if adj(c, a, b) {
            if a < b { assert(b == a + 1) by { if b > a + 1 { assert(betw(a, a + 1, b)); assert(c[a + 1]); } } }
            else {
                if a < n - 1 { assert(betw(a, a + 1, b)); assert(c[a + 1]); }
                if 0 < b { assert(betw(a, 0, b)); assert(c[0]); }
            }
        }
    }
    assert forall|a: int, b: int| #[trigger] dcnt(l, a, b) + b2i(adj(c, a, b)) - dcnt(l, b, a) - b2i(adj(c, b, a)) == side(0, n - 1, a, b) - side(0, n - 1, b, a) by {
        assert(adj(c, a, b) == (side(0, n - 1, a, b) == 1));
        assert(adj(c, b, a) == (side(0, n - 1, b, a) == 1));
    }
}
proof fn lemma_adj_clip(c: Seq<bool>, p: int, q: int, r: int, a: int, b: int)
    requires adj(c, p, q), adj(c, q, r), p != r,
    ensures adj(c.update(q, true), a, b) == ((a == p && b == r) || (adj(c, a, b) && a != q && b != q)),
{
    let d = c.update(q, true);
    lemma_adj_unique(c, p, q, b);
    lemma_adj_unique(c, q, r, a);
    if adj(c, a, b) && a != q && b != q {
        assert forall|x: int| 0 <= x < d.len() && betw(a, x, b) implies #[trigger] d[x] by { if x != q { assert(c[x]); } }
        assert(adj(d, a, b));
    }
    assert(adj(d, p, r)) by {
        assert forall|x: int| 0 <= x < d.len() && betw(p, x, r) implies #[trigger] d[x] by {
            if x != q { assert(betw(p, x, q) || betw(q, x, r)); assert(c[x]); }
        }
    }
    if adj(d, a, b) && !(a == p && b == r) {
        assert(a != q && b != q);
        lemma_adj_unique(d, p, r, b);
        lemma_adj_unique(d, r, p, a);
        lemma_adj_unique(d, a, b, r);
        lemma_adj_unique(d, b, a, p);
        assert(a != p && b != r);
        // q lies between p and r, so it is not between a and b
        assert forall|x: int| 0 <= x < c.len() && betw(a, x, b) implies #[trigger] c[x] by {
            assert(d[x]);
            if x == q {
                assert(!d[p] && !d[r]);
                assert(betw(a, q, b));
                assert(!betw(a, p, b));
                assert(!betw(a, r, b));
                assert(betw(p, q, r));
            }
        }
        assert(!c[a] && !c[b]);
    }
}
proof fn lemma_ear_step(l: Seq<T3>, c: Seq<bool>, p: int, q: int, r: int)
    requires ear_inv(l, c), adj(c, p, q), adj(c, q, r), left(c, c.len() as int) >= 3,
    ensures ear_inv(l.push((p, q, r)), c.update(q, true)), left(c.update(q, true), c.len() as int) == left(c, c.len() as int) - 1,
{
    let n = c.len() as int;
    let d = c.update(q, true);
    let t = (p, q, r);
    let l2 = l.push(t);
    if p == r { lemma_three(c, p, q); }
    if adj(c, q, p) { lemma_three(c, p, q); }
    if adj(c, r, q) { lemma_three(c, q, r); }
    lemma_left_clip(c, n, q);
    assert forall|k: int| 0 <= k < l2.len() implies corner_ok(#[trigger] l2[k], 0, n - 1) by { if k < l.len() { assert(corner_ok(l[k], 0, n - 1)); } }
    assert(dcnt(l, p, q) == 0 && dcnt(l, q, r) == 0 && dcnt(l, r, p) == 0) by {
        assert(0 <= dcnt(l, p, q) <= 1 && 0 <= dcnt(l, q, r) <= 1 && 0 <= dcnt(l, r, p) <= 1);
        lemma_adj_unique(c, p, q, r);
    }
    assert forall|a: int, b: int| 0 <= #[trigger] dcnt(l2, a, b) <= 1 by {
        lemma_dcnt_push(l, t, a, b);
        assert(0 <= dcnt(l, a, b) <= 1);
    }
    assert forall|a: int, b: int| #[trigger] dcnt(l2, a, b) + b2i(adj(d, a, b)) - dcnt(l2, b, a) - b2i(adj(d, b, a)) == side(0, n - 1, a, b) - side(0, n - 1, b, a) by {
        lemma_dcnt_push(l, t, a, b);
        lemma_dcnt_push(l, t, b, a);
        lemma_adj_clip(c, p, q, r, a, b);
        lemma_adj_clip(c, p, q, r, b, a);
        assert(dcnt(l, a, b) + b2i(adj(c, a, b)) - dcnt(l, b, a) - b2i(adj(c, b, a)) == side(0, n - 1, a, b) - side(0, n - 1, b, a));
        lemma_adj_unique(c, p, q, r);
        lemma_adj_unique(c, p, q, b);
        lemma_adj_unique(c, p, q, a);
        lemma_adj_unique(c, q, r, b);
        lemma_adj_unique(c, q, r, a);
        lemma_adj_unique(c, q, p, a);
        lemma_adj_unique(c, q, p, b);
        lemma_adj_unique(c, r, q, a);
        lemma_adj_unique(c, r, q, b);
    }
    assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n && !d[a] && !d[b] && #[trigger] dcnt(l2, a, b) > 0 implies adj(d, b, a) by {
        lemma_dcnt_push(l, t, a, b);
        lemma_adj_clip(c, p, q, r, b, a);
        assert(0 <= dcnt(l, a, b) <= 1);
    }
}
/// when two corners are left, the cut off triangles cover the polygon
proof fn lemma_ear_end(l: Seq<T3>, c: Seq<bool>)
    requires ear_inv(l, c), left(c, c.len() as int) == 2,
    ensures polytri(l, 0, c.len() - 1),
{
    let n = c.len() as int;
    assert forall|a: int, b: int| #[trigger] dcnt(l, a, b) - dcnt(l, b, a) == side(0, n - 1, a, b) - side(0, n - 1, b, a) by {
        assert(dcnt(l, a, b) + b2i(adj(c, a, b)) - dcnt(l, b, a) - b2i(adj(c, b, a)) == side(0, n - 1, a, b) - side(0, n - 1, b, a));
        lemma_two(c, a, b);
        lemma_two(c, b, a);
    }
}
proof fn lemma_left_pick(c: Seq<bool>, k: int, p: int, q: int, r: int)
    requires 0 <= k <= c.len(), 0 <= p < k, 0 <= q < k, 0 <= r < k, p != q, q != r, p != r, !c[p], !c[q], !c[r],
    ensures left(c, k) >= 3,
{
    lemma_left_clip(c, k, p);
    lemma_left_clip(c.update(p, true), k, q);
    lemma_left_clip(c.update(p, true).update(q, true), k, r);
    lemma_left_nonneg(c.update(p, true).update(q, true).update(r, true), k);
}
proof fn lemma_left_nonneg(c: Seq<bool>, k: int)
    requires 0 <= k <= c.len(),
    ensures 0 <= left(c, k) <= k,
    decreases k,
{
    if k > 0 { lemma_left_nonneg(c, k - 1); }
}
proof fn lemma_two(c: Seq<bool>, a: int, b: int)
    requires left(c, c.len() as int) == 2,
    ensures adj(c, a, b) ==> adj(c, b, a),
{
    if !adj(c, a, b) { return; }
    assert forall|x: int| 0 <= x < c.len() && betw(b, x, a) implies #[trigger] c[x] by {
        if !c[x] && x != a && x != b { lemma_left_pick(c, c.len() as int, a, b, x); }
    }
}
spec fn ids_of2(vs: Seq<(V2, I)>) -> Seq<I> { vs.map_values(|v: (V2, I)| v.1) }
#[verifier::external_body]
fn rt_random_range(r: core::ops::Range<usize>) -> (k: usize)
    requires r.start < r.end,
    ensures r.start <= k < r.end,
{ unimplemented!() }
fn rt_vec<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k] == x,
{
    let mut r = Vec::new();
    let mut k: usize = 0;
    while k < n
        invariant k <= n, r@.len() == k, forall|j: int| 0 <= j < k ==> #[trigger] r@[j] == x,
        decreases n - k,
    {
        r.push(x);
        k = k + 1;
    }
    r
}

/// cyclic distance from b forward to a
spec fn cdist(n: int, b: int, a: int) -> int { if b <= a { a - b } else { a - b + n } }
/// the search for the next corner reaches one before coming round
proof fn lemma_not_round(c: Seq<bool>, a: int)
    requires 0 <= a < c.len(), forall|x: int| 0 <= x < c.len() && x != a ==> #[trigger] c[x],
    ensures left(c, c.len() as int) <= 1,
{
    lemma_left_bound(c, c.len() as int, a, a);
}
proof fn lemma_not_round2(c: Seq<bool>, a: int, b: int)
    requires 0 <= a < c.len(), 0 <= b < c.len(), forall|x: int| 0 <= x < c.len() && x != a && x != b ==> #[trigger] c[x],
    ensures left(c, c.len() as int) <= 2,
{
    lemma_left_bound(c, c.len() as int, a, b);
}
/// the next corner, cyclically
spec fn succ(n: int, x: int) -> int { if x + 1 == n { 0 } else { x + 1 } }
proof fn lemma_succ(n: int)
    requires n > 0,
    ensures forall|x: int| 0 <= x < n ==> #[trigger] ((x + 1) % n) == succ(n, x),
{
    assert forall|x: int| 0 <= x < n implies #[trigger] ((x + 1) % n) == succ(n, x) by {
        if x + 1 == n { vstd::arithmetic::div_mod::lemma_mod_self_0(n); } else { vstd::arithmetic::div_mod::lemma_small_mod((x + 1) as nat, n as nat); }
    }
}
proof fn lemma_some_left(c: Seq<bool>) -> (u: int)
    requires left(c, c.len() as int) > 0,
    ensures 0 <= u < c.len(), !c[u],
{
    if forall|x: int| 0 <= x < c.len() ==> #[trigger] c[x] { lemma_left_bound(c, c.len() as int, -1, -1); }
    choose|x: int| 0 <= x < c.len() && !c[x]
}
proof fn lemma_flat_rev_push(l: Seq<T3>, t: T3, ids: Seq<I>)
    ensures flat(rev3(l.push(t)), ids) == flat(rev3(l), ids).push(ids[t.0]).push(ids[t.2]).push(ids[t.1]),
{
    assert(rev3(l.push(t)) =~= rev3(l).push((t.0, t.2, t.1)));
    lemma_flat_push(rev3(l), (t.0, t.2, t.1), ids);
}
//@types Scalar::EPS=S::eps(); rand::random_range=rt_random_range
//@fn src/tesselate/ear_clipping.rs free :: ear_clipping_direct
//@mayfail
    requires old(indices).ok(), old(indices).all().len() + 3 * vs@.len() <= usize::MAX, vs@.len() <= i32::MAX,
    ensures final(indices).ok(), final(indices).same_buf(*old(indices)),
        vs@.len() < 3 ==> final(indices).all() == old(indices).all(),
        vs@.len() >= 3 ==> tri_added_rev(old(indices).all(), final(indices).all(), ids_of2(vs@)),
//@beforecall rt_vec 0
    let ghost mut l: Seq<T3> = Seq::empty();
//@aftercall rt_vec 0
    proof { lemma_ear_start(clipped@); lemma_left_all(clipped@, n0 as int); assert(rev3(l) =~= Seq::<T3>::empty()); assert(old(indices).all() + flat(rev3(l), ids_of2(vs@)) =~= old(indices).all()); }
//@loop 0
        invariant n0 == vs@.len(), n0 >= 3, clipped@.len() == n0, i_a < n0, !clipped@[i_a as int], n == left(clipped@, n0 as int), n >= 2, n <= n0,
            indices.ok(), indices.same_buf(*old(indices)), old(indices).all().len() + 3 * n0 <= usize::MAX, n0 <= i32::MAX,
            ear_inv(l, clipped@), indices.all() == old(indices).all() + flat(rev3(l), ids_of2(vs@)),
            fails_since_advance <= n, success_since_fail <= n0 - n,
        decreases n, n0 + 1 - fails_since_advance,
//@lstart 0
        proof { lemma_succ(n0 as int); }
//@lstart 1
            proof { lemma_succ(n0 as int); }
//@lstart 2
            proof { lemma_succ(n0 as int); }
//@lstart 4
                proof { lemma_succ(n0 as int); }
//@loop 1
            invariant n0 == vs@.len(), n0 >= 3, clipped@.len() == n0, i_a < n0, i_b < n0, !clipped@[i_a as int], n > 2, n == left(clipped@, n0 as int),
                i_b != i_a, forall|x: int| 0 <= x < n0 && betw(i_a as int, x, i_b as int) ==> #[trigger] clipped@[x],
            decreases cdist(n0 as int, i_b as int, i_a as int),
//@lend 1
            proof { if i_b == i_a { lemma_not_round(clipped@, i_a as int); } }
//@after 1
        proof { assert(adj(clipped@, i_a as int, i_b as int)); }
//@loop 2
            invariant n0 == vs@.len(), n0 >= 3, clipped@.len() == n0, i_a < n0, i_b < n0, i_c < n0, !clipped@[i_a as int], n > 2, n == left(clipped@, n0 as int),
                adj(clipped@, i_a as int, i_b as int), i_c != i_b, forall|x: int| 0 <= x < n0 && betw(i_b as int, x, i_c as int) ==> #[trigger] clipped@[x],
            decreases cdist(n0 as int, i_c as int, i_b as int),
//@lend 2
            proof { if i_c == i_b { lemma_not_round(clipped@, i_b as int); } }
//@after 2
        proof { assert(adj(clipped@, i_b as int, i_c as int)); if i_c == i_a { lemma_three(clipped@, i_a as int, i_b as int); } }
//@loop 3
                invariant i_0 <= vs@.len(), v_0@ == vs@, n0_0 == i_0,
                decreases vs@.len() - i_0,
//@beforecall insert_triangle 0
        proof { lemma_flat_len(rev3(l), ids_of2(vs@)); lemma_left_nonneg(clipped@, n0 as int);
            lemma_flat_rev_push(l, (i_a as int, i_b as int, i_c as int), ids_of2(vs@));
            lemma_ear_step(l, clipped@, i_a as int, i_b as int, i_c as int); l = l.push((i_a as int, i_b as int, i_c as int)); }
//@aftercall insert_triangle 0
        assert(indices.all() =~= old(indices).all() + flat(rev3(l), ids_of2(vs@)));
//@beforecall rt_random_range 1
            let ghost mut u: int = 0;
            proof { u = lemma_some_left(clipped@); }
//@loop 4
                invariant clipped@.len() == n0, i_a < n0, 0 <= u < n0, !clipped@[u],
                decreases cdist(n0 as int, i_a as int, u),
//@after 0
    proof { lemma_ear_end(l, clipped@); assert(polytri(l, 0, ids_of2(vs@).len() - 1)); }
//@endfn
