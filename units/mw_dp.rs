// The dynamic program: cheapest triangulation of every sub-polygon i..j, and its reconstruction.

//@types Self=Self; V=I; Vec2=V2; S=X; S::NEG_INFINITY=X::neg_inf(); S::INFINITY=X::inf(); S::ZERO=X::zero(); Vec2::S=X; Vec2::S::INFINITY=X::inf(); Vec2::S::NEG_INFINITY=X::neg_inf(); TriangularStore<S>=TriangularStore<X>; TriangularStore<Vec2::S>=TriangularStore<X>; Poly=Poly; IndexedVertex2D<V,Vec2>=IndexedVertex2D; Triangulation<V>=Triangulation; IndexType=<usize as IndexType>
spec fn pts_of(vs: Seq<IndexedVertex2D>) -> Seq<V2> { vs.map_values(|v: IndexedVertex2D| v.vec) }
/// weight of a triangle: its circumference
spec fn tw(ps: Seq<V2>, i: int, k: int, j: int) -> real { dist(ps[i], ps[j]) + dist(ps[j], ps[k]) + dist(ps[k], ps[i]) }
/// i < j are neighbours or joined by a chord inside the polygon
spec fn vd(ps: Seq<V2>, i: int, j: int) -> bool { j == i + 1 || chord_ok(ps, i, j) }
/// cost of the cheapest triangulation of the sub-polygon i, i+1, .., j (Inf: there is none)
spec fn best(ps: Seq<V2>, i: int, j: int) -> W
    decreases j - i, j - i + 1,
{
    if j <= i + 1 { W::Fin(0real) } else { bestk(ps, i, j, j) }
}
/// the same with the third corner of the triangle on i j restricted to corners before k
spec fn bestk(ps: Seq<V2>, i: int, j: int, k: int) -> W
    decreases j - i, k - i,
{
    if k <= i + 1 || k > j { W::Inf } else {
        let p = bestk(ps, i, j, k - 1);
        let c = if vd(ps, i, k - 1) && vd(ps, k - 1, j) { wadd(wadd(best(ps, i, k - 1), best(ps, k - 1, j)), W::Fin(tw(ps, i, k - 1, j))) } else { W::Inf };
        if wlt(c, p) { c } else { p }
    }
}
spec fn cand(ps: Seq<V2>, i: int, j: int, k: int) -> W {
    if vd(ps, i, k) && vd(ps, k, j) { wadd(wadd(best(ps, i, k), best(ps, k, j)), W::Fin(tw(ps, i, k, j))) } else { W::Inf }
}
proof fn lemma_best_notneg(ps: Seq<V2>, i: int, j: int, k: int)
    ensures bestk(ps, i, j, k) != W::Neg, best(ps, i, j) != W::Neg,
    decreases j - i, k - i, 0int,
{
    if k > i + 1 && k <= j {
        lemma_best_notneg(ps, i, j, k - 1);
        if k - 1 < j { lemma_best_notneg(ps, i, k - 1, i); lemma_best_notneg(ps, k - 1, j, k - 1); }
    }
    if j > i + 1 && k != j { lemma_best_notneg2(ps, i, j); }
}
proof fn lemma_best_notneg2(ps: Seq<V2>, i: int, j: int)
    ensures best(ps, i, j) != W::Neg,
    decreases j - i, j - i + 1, 1int,
{
    if j > i + 1 { lemma_best_notneg3(ps, i, j, j); }
}
proof fn lemma_best_notneg3(ps: Seq<V2>, i: int, j: int, k: int)
    ensures bestk(ps, i, j, k) != W::Neg,
    decreases j - i, k - i, 0int,
{
    if k > i + 1 && k <= j {
        lemma_best_notneg3(ps, i, j, k - 1);
        lemma_best_notneg2(ps, i, k - 1);
        lemma_best_notneg2(ps, k - 1, j);
    }
}
/// no split is cheaper than `best`
proof fn lemma_best_le(ps: Seq<V2>, i: int, j: int, k: int, q: int)
    requires i < k < q <= j,
    ensures !wlt(cand(ps, i, j, k), bestk(ps, i, j, q)),
    decreases q - k,
{
    lemma_best_notneg3(ps, i, j, q - 1);
    if k < q - 1 { lemma_best_le(ps, i, j, k, q - 1); }
}

// ---- every triangulation by inner chords costs at least `best`

/// a triangulation of the sub-polygon i..j: the third corner of the triangle on i j, and the two rest polygons
enum Tree { Edge, Node(int, Box<Tree>, Box<Tree>) }
spec fn tree_ok(t: Tree, ps: Seq<V2>, i: int, j: int) -> bool
    decreases t,
{
    match t {
        Tree::Edge => j == i + 1,
        Tree::Node(k, a, b) => i < k < j && vd(ps, i, k) && vd(ps, k, j) && tree_ok(*a, ps, i, k) && tree_ok(*b, ps, k, j),
    }
}
spec fn tree_weight(t: Tree, ps: Seq<V2>, i: int, j: int) -> real
    decreases t,
{
    match t {
        Tree::Edge => 0real,
        Tree::Node(k, a, b) => tree_weight(*a, ps, i, k) + tree_weight(*b, ps, k, j) + tw(ps, i, k, j),
    }
}
proof fn lemma_best_optimal(t: Tree, ps: Seq<V2>, i: int, j: int)
    requires tree_ok(t, ps, i, j),
    ensures best(ps, i, j) is Fin, best(ps, i, j)->Fin_0 <= tree_weight(t, ps, i, j),
    decreases t,
{
    match t {
        Tree::Edge => {},
        Tree::Node(k, a, b) => {
            lemma_best_optimal(*a, ps, i, k);
            lemma_best_optimal(*b, ps, k, j);
            lemma_best_le(ps, i, j, k, j);
            lemma_best_notneg2(ps, i, j);
        },
    }
}
/// total weight of a list of triangles
spec fn weight(l: Seq<T3>, ps: Seq<V2>) -> real
    decreases l.len(),
{
    if l.len() == 0 { 0real } else { weight(l.drop_last(), ps) + tw(ps, l.last().0, l.last().1, l.last().2) }
}
proof fn lemma_weight_add(l: Seq<T3>, m: Seq<T3>, ps: Seq<V2>)
    ensures weight(l + m, ps) == weight(l, ps) + weight(m, ps),
    decreases m.len(),
{
    if m.len() == 0 { assert(l + m =~= l); } else {
        assert((l + m).drop_last() =~= l + m.drop_last());
        assert((l + m).last() == m.last());
        lemma_weight_add(l, m.drop_last(), ps);
    }
}
/// `l` is a triangulation of i..j by inner chords at the minimal cost
spec fn optimal(l: Seq<T3>, ps: Seq<V2>, i: int, j: int) -> bool {
    &&& polytri(l, i, j)
    &&& best(ps, i, j) == W::Fin(weight(l, ps))
    &&& forall|t: Tree| #[trigger] tree_ok(t, ps, i, j) ==> weight(l, ps) <= tree_weight(t, ps, i, j)
}

// ---- the tables

spec fn split_ok(ps: Seq<V2>, i: int, j: int, k: int) -> bool {
    i < k < j && vd(ps, i, k) && vd(ps, k, j) && best(ps, i, j) == cand(ps, i, j, k)
}
/// tabulated: all sub-polygons with fewer than l sides, and those with l sides that start before i
spec fn upto(m: TriangularStore<X>, s: TriangularStore<usize>, ps: Seq<V2>, l: int, i: int) -> bool {
    &&& forall|a: int, b: int| 0 <= a < b < m.n && (b - a < l || b - a == l && a < i) ==> (#[trigger] m.sp(a, b)).w() == best(ps, a, b)
    &&& forall|a: int, b: int| 0 <= a < b < m.n && 2 <= b - a && (b - a < l || b - a == l && a < i) && best(ps, a, b) is Fin ==> split_ok(ps, a, b, #[trigger] s.sp(a, b) as int)
}
spec fn filled(m: TriangularStore<X>, s: TriangularStore<usize>, ps: Seq<V2>, d: int) -> bool { upto(m, s, ps, d + 1, 0) }
proof fn lemma_upd<T: Copy>(t: TriangularStore<T>, u: TriangularStore<T>, i: int, j: int, x: T)
    requires t.ok(), u.n == t.n, 0 <= i < j < t.n, u.data@ == t.data@.update(tix(i, j), x),
    ensures u.ok(), u.sp(i, j) == x, forall|a: int, b: int| 0 <= a < b < t.n && (a != i || b != j) ==> #[trigger] u.sp(a, b) == t.sp(a, b),
{
    lemma_tix(i, j, t.n as int);
    assert forall|a: int, b: int| 0 <= a < b < t.n && (a != i || b != j) implies #[trigger] u.sp(a, b) == t.sp(a, b) by {
        lemma_tix(a, b, t.n as int);
        lemma_tix_inj(a, b, i, j);
    }
}
spec fn tables(m: TriangularStore<X>, s: TriangularStore<usize>, v: TriangularStore<bool>, ps: Seq<V2>, n: int) -> bool {
    &&& m.ok() && s.ok() && v.ok() && m.n == n && s.n == n && v.n == n && ps.len() == n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] v.sp(i, j) == vd(ps, i, j)
}

//@fn src/tesselate/min_weight_dynamic.rs free :: initialize_m
//@generics
//@retty TriangularStore<X>
//@ret r
//@indexed m
    requires 2 <= n, n * (n - 1) <= usize::MAX,
    ensures r.ok(), r.n == n, forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] r.sp(i, j)).w() == if j == i + 1 { W::Fin(0real) } else { W::Neg },
//@loop 0
        invariant m.ok(), m.n == n, n >= 2, 0 <= i_0 <= end_0, end_0 == n - 1,
            forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] m.sp(i, j)).w() == if j == i + 1 && i < i_0 { W::Fin(0real) } else { W::Neg },
        decreases end_0 - i_0,
//@endfn
//@fn src/tesselate/min_weight_dynamic.rs free :: triangle_weight
//@generics
//@param a: &V2
//@param b: &V2
//@param c: &V2
//@retty X
//@ret r
    ensures r.w() == W::Fin(dist(*a, *b) + dist(*b, *c) + dist(*c, *a)),
//@endfn
proof fn lemma_room(n: int)
    requires n >= 2, n * (n - 1) <= usize::MAX,
    ensures n + 2 <= usize::MAX,
{
    if n >= 4 { assert(n * (n - 1) >= n + 2) by(nonlinear_arith) requires n >= 4; }
}
//@fn src/tesselate/min_weight_dynamic.rs free :: find_valid_diagonals
//@generics
//@param vs: &Vec<IndexedVertex2D>
//@retty TriangularStore<bool>
//@ret r
//@indexed valid_diagonal
    requires 2 <= n, n * (n - 1) <= usize::MAX, vs@.len() == n,
    ensures r.ok(), r.n == n, forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] r.sp(i, j) == vd(pts_of(vs@), i, j),
//@pre
    proof { lemma_room(n as int); }
//@loop 0
        invariant i_0 <= vs@.len(), res_0@.len() == i_0, forall|q: int| 0 <= q < i_0 ==> #[trigger] res_0@[q] == vs@[q].vec,
            v_0 == vs,
        decreases vs@.len() - i_0,
//@beforecall from_vec 0
        proof { assert(res_0@ =~= pts_of(vs@)); }
//@loop 1
        invariant valid_diagonal.ok(), valid_diagonal.n == n, n >= 2, n + 2 <= usize::MAX, vs@.len() == n, 0 <= i_1 <= end_1, end_1 == n, poly.pts() == pts_of(vs@),
            forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] valid_diagonal.sp(i, j) == if i < i_1 { vd(pts_of(vs@), i, j) } else { true },
        decreases end_1 - i_1,
//@loop 2
        invariant valid_diagonal.ok(), valid_diagonal.n == n, n >= 2, n + 2 <= usize::MAX, vs@.len() == n, i < n, i_1 == i + 1, i + 2 <= i_2, i_2 <= end_2 || i_2 == i + 2, end_2 == n, poly.pts() == pts_of(vs@),
            forall|a: int, j: int| 0 <= a < j < n ==> #[trigger] valid_diagonal.sp(a, j) == if a < i || a == i && j < i_2 { vd(pts_of(vs@), a, j) } else { true },
        decreases end_2 - i_2,
//@endfn

//@fn src/tesselate/min_weight_dynamic.rs free :: fill_m
//@generics
//@param m: &mut TriangularStore<X>
//@param s: &mut TriangularStore<usize>
//@param valid_diagonal: &TriangularStore<bool>
//@param vs: &Vec<IndexedVertex2D>
//@indexed m s valid_diagonal
    requires 2 <= from, to < n, n * (n - 1) <= usize::MAX, tables(*old(m), *old(s), *valid_diagonal, pts_of(vs@), n as int),
        filled(*old(m), *old(s), pts_of(vs@), from - 1),
    ensures tables(*final(m), *final(s), *valid_diagonal, pts_of(vs@), n as int),
        filled(*final(m), *final(s), pts_of(vs@), if from <= to { to as int } else { from - 1 }),
//@pre
    proof { lemma_room(n as int); }
    let ghost ps = pts_of(vs@);
//@loop 0
        invariant ps == pts_of(vs@), vs@.len() == n, 2 <= from, to < n, end_0 == to + 1, from <= i_0, i_0 <= end_0 || i_0 == from,
            tables(*m, *s, *valid_diagonal, ps, n as int), upto(*m, *s, ps, i_0 as int, 0),
        decreases end_0 - i_0,
//@loop 1
            invariant ps == pts_of(vs@), vs@.len() == n, 2 <= l < n, end_1 == n - l, 0 <= i_1 <= end_1,
                tables(*m, *s, *valid_diagonal, ps, n as int), upto(*m, *s, ps, l as int, i_1 as int),
            decreases end_1 - i_1,
//@lstart 1
                let ghost m0 = *m; let ghost s0 = *s;
//@loop 2
                    invariant *m == m0, *s == s0, ps == pts_of(vs@), vs@.len() == n, 2 <= l < n, i < n - l, j == i + l, end_2 == j, i < i_2 <= end_2,
                        tables(*m, *s, *valid_diagonal, ps, n as int), upto(*m, *s, ps, l as int, i as int),
                        mij.w() == bestk(ps, i as int, j as int, i_2 as int),
                        mij.w() is Fin ==> i < sij < i_2 && vd(ps, i as int, sij as int) && vd(ps, sij as int, j as int) && mij.w() == cand(ps, i as int, j as int, sij as int),
                    decreases end_2 - i_2,
//@lstart 2
                    proof { lemma_best_notneg2(ps, i as int, i_2 as int); lemma_best_notneg2(ps, i_2 as int, j as int); lemma_best_notneg3(ps, i as int, j as int, i_2 as int);
                        lemma_tix(i as int, i_2 as int, n as int); lemma_tix(i_2 as int, j as int, n as int);
                        assert(m.sp(i as int, i_2 as int).w() == best(ps, i as int, i_2 as int)); assert(m.sp(i_2 as int, j as int).w() == best(ps, i_2 as int, j as int));
                        assert(valid_diagonal.sp(i as int, i_2 as int) == vd(ps, i as int, i_2 as int)); assert(valid_diagonal.sp(i_2 as int, j as int) == vd(ps, i_2 as int, j as int));
                        assert(vs@[i as int].vec == ps[i as int]); assert(vs@[j as int].vec == ps[j as int]); assert(vs@[i_2 as int].vec == ps[i_2 as int]);
                    }
//@after 2
                proof { lemma_tix(i as int, j as int, n as int); assert(mij.w() == best(ps, i as int, j as int)); }
//@lend 1
                proof { lemma_upd(m0, *m, i as int, j as int, mij); lemma_upd(s0, *s, i as int, j as int, sij); }
//@endfn
spec fn s_ok(s: TriangularStore<usize>, ps: Seq<V2>) -> bool {
    forall|a: int, b: int| 0 <= a < b < s.n && 2 <= b - a && best(ps, a, b) is Fin ==> split_ok(ps, a, b, #[trigger] s.sp(a, b) as int)
}
proof fn lemma_flat_join(a: Seq<I>, t: T3, l1: Seq<T3>, l2: Seq<T3>, ids: Seq<I>, ps: Seq<V2>)
    ensures a.push(ids[t.0]).push(ids[t.1]).push(ids[t.2]) + flat(l1, ids) + flat(l2, ids) =~= a + flat(seq![t] + l1 + l2, ids),
        weight(seq![t] + l1 + l2, ps) == tw(ps, t.0, t.1, t.2) + weight(l1, ps) + weight(l2, ps),
{
    lemma_flat_add(seq![t] + l1, l2, ids);
    lemma_flat_add(seq![t], l1, ids);
    lemma_flat1(t, ids);
    lemma_weight_add(seq![t] + l1, l2, ps);
    lemma_weight_add(seq![t], l1, ps);
    assert(seq![t].drop_last() =~= Seq::<T3>::empty());
    assert(weight(seq![t].drop_last(), ps) == 0real);
}
/// the buffer `b` is `a` with a cheapest triangulation of i..j appended
spec fn opt_added(a: Seq<I>, b: Seq<I>, vs: Seq<IndexedVertex2D>, i: int, j: int) -> bool {
    exists|l: Seq<T3>| #[trigger] polytri(l, i, j) && best(pts_of(vs), i, j) == W::Fin(weight(l, pts_of(vs))) && b == a + flat(l, ids_of(vs))
}
proof fn lemma_opt_join(a: Seq<I>, b: Seq<I>, c: Seq<I>, d: Seq<I>, vs: Seq<IndexedVertex2D>, i: int, k: int, j: int)
    requires 0 <= i, j < vs.len(), split_ok(pts_of(vs), i, j, k), best(pts_of(vs), i, j) is Fin,
        b == a.push(vs[i].index).push(vs[k].index).push(vs[j].index), opt_added(b, c, vs, i, k), opt_added(c, d, vs, k, j),
    ensures opt_added(a, d, vs, i, j),
{
    let ps = pts_of(vs);
    let ids = ids_of(vs);
    let l1 = choose|l: Seq<T3>| #[trigger] polytri(l, i, k) && best(ps, i, k) == W::Fin(weight(l, ps)) && c == b + flat(l, ids);
    let l2 = choose|l: Seq<T3>| #[trigger] polytri(l, k, j) && best(ps, k, j) == W::Fin(weight(l, ps)) && d == c + flat(l, ids);
    lemma_join(l1, l2, i, k, j);
    lemma_flat_join(a, (i, k, j), l1, l2, ids, ps);
    let l = seq![(i, k, j)] + l1 + l2;
    assert(d == a + flat(l, ids));
    assert(polytri(l, i, j));
}
proof fn lemma_opt_empty(a: Seq<I>, vs: Seq<IndexedVertex2D>, i: int)
    ensures opt_added(a, a, vs, i, i + 1),
{
    lemma_polytri_empty(i);
    assert(a + flat(Seq::<T3>::empty(), ids_of(vs)) =~= a);
}
proof fn lemma_opt_len(a: Seq<I>, b: Seq<I>, vs: Seq<IndexedVertex2D>, i: int, j: int)
    requires opt_added(a, b, vs, i, j),
    ensures b.len() == a.len() + 3 * (j - i - 1),
{
    let l = choose|l: Seq<T3>| #[trigger] polytri(l, i, j) && b == a + flat(l, ids_of(vs));
    lemma_flat_len(l, ids_of(vs));
}
//@fn src/tesselate/min_weight_dynamic.rs free :: traceback
//@generics
//@param s: &TriangularStore<usize>
//@param indices: &mut Triangulation
//@param vs: &Vec<IndexedVertex2D>
//@indexed s
    requires s.ok(), s.n == n, vs@.len() == n, i < j < n, best(pts_of(vs@), i as int, j as int) is Fin, s_ok(*s, pts_of(vs@)),
        old(indices).ok(), old(indices).all().len() + 3 * (j - i - 1) <= usize::MAX,
    ensures final(indices).same_buf(*old(indices)), final(indices).ok(), opt_added(old(indices).all(), final(indices).all(), vs@, i as int, j as int),
    decreases j - i,
//@pre
    proof { lemma_opt_empty(old(indices).all(), vs@, i as int); }
    let ghost mut g1: Seq<I> = Seq::empty();
    let ghost mut g2: Seq<I> = Seq::empty();
    proof { if j - i >= 2 { assert(split_ok(pts_of(vs@), i as int, j as int, s.sp(i as int, j as int) as int)); } }
//@aftercall insert_triangle_local 0
    proof { g1 = indices.all(); }
//@aftercall traceback 0
    proof { g2 = indices.all(); lemma_opt_len(g1, g2, vs@, i as int, k as int); }
//@aftercall traceback 1
    proof { lemma_opt_join(old(indices).all(), g1, g2, indices.all(), vs@, i as int, k as int, j as int); }
//@endfn
//@fn src/tesselate/min_weight_dynamic.rs free :: minweight_dynamic_direct
//@generics
//@param vs: &Vec<IndexedVertex2D>
//@param indices: &mut Triangulation
    requires 4 <= vs@.len(), vs@.len() * (vs@.len() - 1) <= usize::MAX, best(pts_of(vs@), 0, vs@.len() - 1) is Fin,
        old(indices).ok(), old(indices).all().len() + 3 * (vs@.len() - 2) <= usize::MAX,
    ensures final(indices).same_buf(*old(indices)), final(indices).ok(),
        tri_added(old(indices).all(), final(indices).all(), ids_of(vs@)),
        exists|l: Seq<T3>| #[trigger] optimal(l, pts_of(vs@), 0, vs@.len() - 1) && final(indices).all() == old(indices).all() + flat(l, ids_of(vs@)),
//@beforecall traceback 0
    proof { assert(tables(m, s, valid_diagonal, pts_of(vs@), n as int)); assert(filled(m, s, pts_of(vs@), n - 1)); }
//@post
    proof {
        let ps = pts_of(vs@);
        let l = choose|l: Seq<T3>| #[trigger] polytri(l, 0, vs@.len() - 1) && best(ps, 0, vs@.len() - 1) == W::Fin(weight(l, ps)) && indices.all() == old(indices).all() + flat(l, ids_of(vs@));
        assert forall|t: Tree| #[trigger] tree_ok(t, ps, 0, vs@.len() - 1) implies weight(l, ps) <= tree_weight(t, ps, 0, vs@.len() - 1) by { lemma_best_optimal(t, ps, 0, vs@.len() - 1); }
        assert(optimal(l, ps, 0, vs@.len() - 1));
        assert(ids_of(vs@).len() == vs@.len());
    }
//@endfn
