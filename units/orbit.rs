// Permutations of handles and their orbits (face loops, vertex wheels).

spec fn it(p: IMap<I, I>, x: I, k: nat) -> I
    decreases k,
{
    if k == 0 { x } else { p[it(p, x, (k - 1) as nat)] }
}
/// p is a permutation of handles below n with inverse q
spec fn perm(p: IMap<I, I>, q: IMap<I, I>, n: int) -> bool {
    &&& n >= 0
    &&& forall|x: I| #[trigger] p.contains_key(x) ==> p.contains_key(p[x]) && q[p[x]] == x && 0 <= x.ix() < n
            && p.contains_key(q[x]) && p[q[x]] == x
}
spec fn is_period(p: IMap<I, I>, x: I, k: nat) -> bool {
    k > 0 && it(p, x, k) == x && forall|j: nat| 0 < j < k ==> #[trigger] it(p, x, j) != x
}
spec fn period(p: IMap<I, I>, x: I) -> nat {
    choose|k: nat| is_period(p, x, k)
}
/// the cycle of x, starting at x
spec fn orbit(p: IMap<I, I>, x: I) -> Seq<I> {
    Seq::new(period(p, x), |i: int| it(p, x, i as nat))
}
spec fn at(p: IMap<I, I>, x: I, y: I, i: nat) -> bool {
    i < period(p, x) && it(p, x, i) == y
}
spec fn in_orbit(p: IMap<I, I>, x: I, y: I) -> bool {
    exists|i: nat| at(p, x, y, i)
}
/// position of y in the orbit of x
spec fn opos(p: IMap<I, I>, x: I, y: I) -> nat {
    choose|i: nat| at(p, x, y, i)
}

proof fn lemma_it_dom(p: IMap<I, I>, q: IMap<I, I>, n: int, x: I, k: nat)
    requires perm(p, q, n), p.contains_key(x),
    ensures p.contains_key(it(p, x, k)),
    decreases k,
{
    if k > 0 { lemma_it_dom(p, q, n, x, (k - 1) as nat); }
}
proof fn lemma_it_add(p: IMap<I, I>, x: I, a: nat, b: nat)
    ensures it(p, x, a + b) == it(p, it(p, x, a), b),
    decreases b,
{
    if b > 0 { lemma_it_add(p, x, a, (b - 1) as nat); }
}
proof fn lemma_it_cancel(p: IMap<I, I>, q: IMap<I, I>, n: int, x: I, y: I, k: nat)
    requires perm(p, q, n), p.contains_key(x), p.contains_key(y), it(p, x, k) == it(p, y, k),
    ensures x == y,
    decreases k,
{
    if k > 0 {
        lemma_it_dom(p, q, n, x, (k - 1) as nat);
        lemma_it_dom(p, q, n, y, (k - 1) as nat);
        lemma_it_cancel(p, q, n, x, y, (k - 1) as nat);
    }
}
/// some positive iterate returns to x within n steps
proof fn lemma_return(p: IMap<I, I>, q: IMap<I, I>, n: int, x: I) -> (k: nat)
    requires perm(p, q, n), p.contains_key(x),
    ensures 0 < k <= n, it(p, x, k) == x,
{
    let s = Seq::new((n + 1) as nat, |i: int| it(p, x, i as nat).ix());
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] < n by { lemma_it_dom(p, q, n, x, i as nat); }
    if s.no_duplicates() { lemma_pigeon(s, n); }
    let (i, j) = choose|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j && s[i] == s[j];
    let (a, b) = if i < j { (i, j) } else { (j, i) };
    let (ia, ib) = (it(p, x, a as nat), it(p, x, b as nat));
    assert(s[a] == ia.ix() && s[b] == ib.ix());
    I::ix_inj(ia, ib);
    let k = (b - a) as nat;
    lemma_it_add(p, x, k, a as nat);
    lemma_it_dom(p, q, n, x, k);
    lemma_it_cancel(p, q, n, it(p, x, k), x, a as nat);
    k
}
proof fn lemma_least(p: IMap<I, I>, x: I, k: nat) -> (m: nat)
    requires 0 < k, it(p, x, k) == x,
    ensures is_period(p, x, m), m <= k,
    decreases k,
{
    if exists|j: nat| 0 < j < k && #[trigger] it(p, x, j) == x {
        let j = choose|j: nat| 0 < j < k && #[trigger] it(p, x, j) == x;
        lemma_least(p, x, j)
    } else { k }
}
proof fn lemma_period(p: IMap<I, I>, q: IMap<I, I>, n: int, x: I)
    requires perm(p, q, n), p.contains_key(x),
    ensures is_period(p, x, period(p, x)), 0 < period(p, x) <= n,
{
    let k = lemma_return(p, q, n, x);
    let m = lemma_least(p, x, k);
    let r = period(p, x);
    assert(is_period(p, x, r));
    // the least period is unique
    if r < m { assert(it(p, x, r) != x); }
    if m < r { assert(it(p, x, m) != x); }
}
proof fn lemma_distinct(p: IMap<I, I>, q: IMap<I, I>, n: int, x: I, i: nat, j: nat)
    requires perm(p, q, n), p.contains_key(x), i < period(p, x), j < period(p, x), it(p, x, i) == it(p, x, j),
    ensures i == j,
{
    lemma_period(p, q, n, x);
    if i != j {
        let (a, b) = if i < j { (i, j) } else { (j, i) };
        let k = (b - a) as nat;
        lemma_it_add(p, x, k, a);
        lemma_it_dom(p, q, n, x, k);
        lemma_it_cancel(p, q, n, it(p, x, k), x, a);
        assert(it(p, x, k) != x);
    }
}
/// every visited handle exactly once, all of them handles of the mesh
proof fn lemma_orbit(p: IMap<I, I>, q: IMap<I, I>, n: int, x: I)
    requires perm(p, q, n), p.contains_key(x),
    ensures
        0 < orbit(p, x).len() <= n, orbit(p, x).len() == period(p, x), orbit(p, x)[0] == x, orbit(p, x).no_duplicates(),
        forall|i: int| 0 <= i < orbit(p, x).len() ==> p.contains_key(#[trigger] orbit(p, x)[i]),
        forall|i: int| 0 <= i < orbit(p, x).len() ==> p[#[trigger] orbit(p, x)[i]] == orbit(p, x)[if i + 1 < orbit(p, x).len() { i + 1 } else { 0 }],
{
    lemma_period(p, q, n, x);
    let o = orbit(p, x);
    assert forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < o.len() && i != j implies o[i] != o[j] by {
        if o[i] == o[j] { lemma_distinct(p, q, n, x, i as nat, j as nat); }
    }
    assert forall|i: int| 0 <= i < o.len() implies p.contains_key(#[trigger] o[i]) by { lemma_it_dom(p, q, n, x, i as nat); }
    assert forall|i: int| 0 <= i < o.len() implies p[#[trigger] o[i]] == o[if i + 1 < o.len() { i + 1 } else { 0 }] by {
        assert(it(p, x, (i + 1) as nat) == p[it(p, x, i as nat)]);
    }
}
proof fn lemma_opos(p: IMap<I, I>, q: IMap<I, I>, n: int, x: I, y: I)
    requires perm(p, q, n), p.contains_key(x), in_orbit(p, x, y),
    ensures at(p, x, y, opos(p, x, y)), p.contains_key(y),
        forall|i: nat| at(p, x, y, i) ==> i == opos(p, x, y),
{
    let o = opos(p, x, y);
    assert(at(p, x, y, o));
    lemma_it_dom(p, q, n, x, o);
    assert forall|i: nat| at(p, x, y, i) implies i == o by { lemma_distinct(p, q, n, x, i, o); }
}
/// one step forward
proof fn lemma_ostep(p: IMap<I, I>, q: IMap<I, I>, n: int, x: I, y: I)
    requires perm(p, q, n), p.contains_key(x), in_orbit(p, x, y),
    ensures
        p.contains_key(y), p.contains_key(p[y]), opos(p, x, y) < period(p, x),
        opos(p, x, y) + 1 == period(p, x) ==> p[y] == x,
        opos(p, x, y) + 1 < period(p, x) ==> p[y] != x && in_orbit(p, x, p[y]) && opos(p, x, p[y]) == opos(p, x, y) + 1,
        orbit(p, x)[opos(p, x, y) as int] == y,
{
    lemma_opos(p, q, n, x, y);
    lemma_period(p, q, n, x);
    let o = opos(p, x, y);
    assert(it(p, x, o + 1) == p[y]);
    if o + 1 < period(p, x) {
        assert(at(p, x, p[y], o + 1));
        lemma_opos(p, q, n, x, p[y]);
    }
}
proof fn lemma_ostart(p: IMap<I, I>, q: IMap<I, I>, n: int, x: I)
    requires perm(p, q, n), p.contains_key(x),
    ensures in_orbit(p, x, x), opos(p, x, x) == 0,
{
    lemma_period(p, q, n, x);
    assert(it(p, x, 0) == x);
    assert(at(p, x, x, 0));
    lemma_opos(p, q, n, x, x);
}
/// a set of handles closed under p contains the orbits of its members
proof fn lemma_closed(p: IMap<I, I>, x: I, s: spec_fn(I) -> bool, k: nat)
    requires s(x), forall|y: I| s(y) ==> s(#[trigger] p[y]),
    ensures s(it(p, x, k)),
    decreases k,
{
    if k > 0 { lemma_closed(p, x, s, (k - 1) as nat); }
}
/// membership is symmetric under one step (orbits are closed in both directions)
proof fn lemma_oclosed(p: IMap<I, I>, q: IMap<I, I>, n: int, x: I, y: I)
    requires perm(p, q, n), p.contains_key(x), p.contains_key(y),
    ensures in_orbit(p, x, y) == in_orbit(p, x, p[y]),
{
    lemma_period(p, q, n, x);
    lemma_ostart(p, q, n, x);
    if in_orbit(p, x, y) { lemma_ostep(p, q, n, x, y); }
    if in_orbit(p, x, p[y]) {
        let i = opos(p, x, p[y]);
        lemma_opos(p, q, n, x, p[y]);
        if i > 0 {
            let z = it(p, x, (i - 1) as nat);
            lemma_it_dom(p, q, n, x, (i - 1) as nat);
            assert(p[z] == p[y]);
            assert(z == y);
            assert(at(p, x, y, (i - 1) as nat));
        } else {
            let k = (period(p, x) - 1) as nat;
            let z = it(p, x, k);
            lemma_it_dom(p, q, n, x, k);
            assert(it(p, x, (k + 1) as nat) == p[z]);
            assert(z == y);
            assert(at(p, x, y, k));
        }
    }
}
proof fn lemma_reach_refl(p: IMap<I, I>, a: I)
    ensures reach(p, a, a),
{ assert(it(p, a, 0) == a); }
proof fn lemma_reach_next(p: IMap<I, I>, a: I, b: I)
    requires reach(p, a, b),
    ensures reach(p, a, p[b]),
{
    let k = choose|k: nat| #[trigger] it(p, a, k) == b;
    assert(it(p, a, k + 1) == p[b]) by { assert(it(p, a, (k + 1) as nat) == p[it(p, a, k)]); }
    assert(it(p, a, (k + 1) as nat) == p[b]);
}
proof fn lemma_reach_trans(p: IMap<I, I>, a: I, b: I, c: I)
    requires reach(p, a, b), reach(p, b, c),
    ensures reach(p, a, c),
{
    let k = choose|k: nat| #[trigger] it(p, a, k) == b;
    let l = choose|l: nat| #[trigger] it(p, b, l) == c;
    lemma_it_add(p, a, k, l);
    assert(it(p, a, k + l) == c);
}
