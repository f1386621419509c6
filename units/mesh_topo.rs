// MeshTopology::shortest_path (breadth-first search)
use std::collections::{HashMap, HashSet, VecDeque};
//@known hm_at shortest_path
fn hm_at<'a, X>(m: &'a HashMap<I, X>, k: &I) -> (r: &'a X)
    requires m@.contains_key(*k),
    ensures *r == m@[*k],
{
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    m.get(k).unwrap()
}
/// some half-edge leads from x to y
spec fn linked(m: HalfEdgeMeshImpl, x: I, y: I) -> bool { exists|e: I| #[trigger] m.h().contains_key(e) && m.h()[e].origin_id == x && tgt(m.h(), e) == y }
/// manifold: the edges at a vertex form a single fan
spec fn fans(m: HalfEdgeMeshImpl) -> bool { forall|e: I| #[trigger] m.h().contains_key(e) ==> out_ids(m.h(), m.v()[m.h()[e].origin_id]).contains(e) }
spec fn walk(m: HalfEdgeMeshImpl, p: Seq<I>) -> bool {
    &&& p.len() > 0
    &&& forall|i: int| 0 <= i < p.len() ==> m.v().contains_key(#[trigger] p[i])
    &&& forall|i: int| 0 < i < p.len() ==> linked(m, p[i - 1], #[trigger] p[i])
}
/// a walk from x to y
spec fn leads(m: HalfEdgeMeshImpl, p: Seq<I>, x: I, y: I) -> bool { walk(m, p) && p[0] == x && p.last() == y }
proof fn lemma_linked(m: HalfEdgeMeshImpl, x: I, y: I)
    requires m.valid(), linked(m, x, y),
    ensures linked(m, y, x), m.v().contains_key(x), m.v().contains_key(y),
{
    let h = m.h();
    let e = choose|e: I| #[trigger] h.contains_key(e) && h[e].origin_id == x && tgt(h, e) == y;
    assert(link_ok(h, e)); assert(twin_ok(h, e)); assert(edge_ok(h, m.v(), m.f(), e));
    let t = h[e].twin;
    assert(link_ok(h, t)); assert(twin_ok(h, t)); assert(edge_ok(h, m.v(), m.f(), t)); assert(edge_ok(h, m.v(), m.f(), h[e].next));
    assert(h.contains_key(t) && h[t].origin_id == y && tgt(h, t) == x);
}
type Dist = Map<I, int>;
/// what the search has established: everything within distance l of s has been visited, and the visited vertices know
/// their distance to s and the next vertex towards it
spec fn known_to(m: HalfEdgeMeshImpl, s: I, u: Set<I>, p: Map<I, Option<I>>, d: Dist, l: int) -> bool {
    &&& u.contains(s)
    &&& forall|x: I| #[trigger] u.contains(x) == p.contains_key(x)
    &&& forall|x: I| #[trigger] u.contains(x) ==> m.v().contains_key(x) && d[x] >= 0 && toward(m, s, u, p, d, x)
    &&& forall|x: I, q: Seq<I>| #[trigger] u.contains(x) && #[trigger] leads(m, q, x, s) ==> q.len() > d[x]
    &&& forall|x: I, q: Seq<I>| !#[trigger] u.contains(x) && #[trigger] leads(m, q, x, s) ==> q.len() > l + 1
}
spec fn toward(m: HalfEdgeMeshImpl, s: I, u: Set<I>, p: Map<I, Option<I>>, d: Dist, x: I) -> bool {
    match p[x] { None => x == s && d[x] == 0, Some(y) => u.contains(y) && linked(m, x, y) && d[x] == d[y] + 1 }
}
/// all neighbours have been visited
spec fn finished(m: HalfEdgeMeshImpl, u: Set<I>, x: I) -> bool { forall|y: I| #[trigger] linked(m, x, y) ==> u.contains(y) }
spec fn pending(u: Set<I>, d: Dist, q: Seq<I>, l: int) -> bool {
    &&& forall|i: int| 0 <= i < q.len() ==> u.contains(#[trigger] q[i]) && l <= d[q[i]] <= l + 1
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> d[#[trigger] q[i]] <= d[#[trigger] q[j]]
}
proof fn lemma_step(m: HalfEdgeMeshImpl, q: Seq<I>, x: I, s: I)
    requires leads(m, q, x, s), q.len() > 1,
    ensures leads(m, q.drop_first(), q[1], s), linked(m, x, q[1]),
{
    let r = q.drop_first();
    assert forall|i: int| 0 < i < r.len() implies linked(m, r[i - 1], #[trigger] r[i]) by { assert(r[i] == q[i + 1] && r[i - 1] == q[i]); }
    assert forall|i: int| 0 <= i < r.len() implies m.v().contains_key(#[trigger] r[i]) by { assert(r[i] == q[i + 1]); }
}
/// once every vertex at distance l is finished, everything within distance l + 1 has been visited
proof fn lemma_level(m: HalfEdgeMeshImpl, s: I, u: Set<I>, p: Map<I, Option<I>>, d: Dist, q: Seq<I>, l: int)
    requires m.valid(), known_to(m, s, u, p, d, l), forall|x: I| #[trigger] u.contains(x) && !q.contains(x) ==> finished(m, u, x), forall|i: int| 0 <= i < q.len() ==> d[#[trigger] q[i]] > l, l >= 0,
    ensures known_to(m, s, u, p, d, l + 1),
{
    assert forall|x: I, w: Seq<I>| !#[trigger] u.contains(x) && #[trigger] leads(m, w, x, s) implies w.len() > l + 2 by {
        if w.len() <= l + 2 {
            lemma_step(m, w, x, s);
            let y = w[1];
            let r = w.drop_first();
            assert(leads(m, r, y, s));
            if !u.contains(y) { assert(r.len() > l + 1); }
            assert(r.len() > d[y]);
            if q.contains(y) { let i = choose|i: int| 0 <= i < q.len() && q[i] == y; assert(d[q[i]] > l); }
            assert(finished(m, u, y));
            lemma_linked(m, x, y);
        }
    }
}
/// a set of finished vertices contains everything connected to it
proof fn lemma_closed_set(m: HalfEdgeMeshImpl, s: I, u: Set<I>, w: Seq<I>, x: I)
    requires m.valid(), u.contains(s), forall|y: I| #[trigger] u.contains(y) ==> finished(m, u, y), leads(m, w, x, s),
    ensures u.contains(x),
    decreases w.len(),
{
    if w.len() > 1 {
        lemma_step(m, w, x, s);
        lemma_closed_set(m, s, u, w.drop_first(), w[1]);
        lemma_linked(m, x, w[1]);
        assert(finished(m, u, w[1]));
    }
}
proof fn lemma_visit(m: HalfEdgeMeshImpl, s: I, u: Set<I>, p: Map<I, Option<I>>, d: Dist, l: int, x: I, y: I)
    requires m.valid(), known_to(m, s, u, p, d, l), !u.contains(y), u.contains(x), d[x] == l, linked(m, x, y),
    ensures known_to(m, s, u.insert(y), p.insert(y, Some(x)), d.insert(y, l + 1), l),
{
    lemma_linked(m, x, y);
    let (u1, p1, d1) = (u.insert(y), p.insert(y, Some(x)), d.insert(y, l + 1));
    assert forall|z: I| #[trigger] u1.contains(z) implies m.v().contains_key(z) && d1[z] >= 0 && toward(m, s, u1, p1, d1, z) by {
        if z != y { assert(u.contains(z)); assert(toward(m, s, u, p, d, z)); }
    }
}
/// at most as many visited vertices as slots
proof fn lemma_few(m: HalfEdgeMeshImpl, u: Set<I>)
    requires m.valid(), forall|x: I| #[trigger] u.contains(x) ==> m.v().contains_key(x),
    ensures u.len() <= m.vertices.data@.len(),
{
    broadcast use vstd::set::group_set_lemmas;
    let n = m.vertices.data@.len() as int;
    let t = u.map(|x: I| x.ix());
    let full = vstd::set_lib::set_int_range(0, n);
    vstd::set_lib::lemma_int_range(0, n);
    assert(t.subset_of(full)) by {
        assert forall|i: int| t.contains(i) implies full.contains(i) by {
            let x = choose|x: I| u.contains(x) && x.ix() == i;
            assert(m.v().contains_key(x));
        }
    }
    assert forall|x: I, y: I| x.ix() == y.ix() implies x == y by { I::ix_inj(x, y); }
    vstd::set_lib::lemma_map_size(u, t, |x: I| x.ix());
    vstd::set_lib::lemma_len_subset(t, full);
}
/// the state of the search from s while the neighbours of cur are looked at
#[verifier::opaque]
spec fn search(m: HalfEdgeMeshImpl, s: I, u: Set<I>, p: Map<I, Option<I>>, d: Dist, q: Seq<I>, l: int, cur: Option<I>) -> bool {
    &&& m.valid() && l >= 0
    &&& known_to(m, s, u, p, d, l)
    &&& pending(u, d, q, l)
    &&& forall|x: I| #[trigger] u.contains(x) && !q.contains(x) && cur != Some(x) ==> finished(m, u, x)
    &&& match cur { Some(c) => u.contains(c) && d[c] == l, None => true }
}
proof fn lemma_init(m: HalfEdgeMeshImpl, s: I, u: Set<I>, p: Map<I, Option<I>>, q: Seq<I>)
    requires m.valid(), m.v().contains_key(s), u =~= Set::empty().insert(s), p =~= Map::empty().insert(s, None), q =~= seq![s],
    ensures search(m, s, u, p, Map::empty().insert(s, 0int), q, 0, None),
{
    reveal(search);
    assert(q[0] == s);
    assert(u.contains(s));
    assert forall|x: I| #[trigger] u.contains(x) && !q.contains(x) implies finished(m, u, x) by { assert(q.contains(s)); }
}
proof fn lemma_pop(m: HalfEdgeMeshImpl, s: I, u: Set<I>, p: Map<I, Option<I>>, d: Dist, c: I, q: Seq<I>, l: int)
    requires search(m, s, u, p, d, seq![c] + q, l, None),
    ensures search(m, s, u, p, d, q, d[c], Some(c)), m.v().contains_key(c), u.contains(c),
{
    reveal(search);
    let q0 = seq![c] + q;
    assert(q =~= q0.drop_first());
    assert(q0[0] == c);
    assert(q0.contains(c));
    if d[c] > l { lemma_level(m, s, u, p, d, q0, l); }
    assert forall|i: int| 0 <= i < q.len() implies u.contains(#[trigger] q[i]) && d[c] <= d[q[i]] <= d[c] + 1 by { assert(q0[i + 1] == q[i]); }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies d[#[trigger] q[i]] <= d[#[trigger] q[j]] by { assert(q0[i + 1] == q[i] && q0[j + 1] == q[j]); }
    assert forall|x: I| #[trigger] u.contains(x) && !q.contains(x) && Some(c) != Some(x) implies finished(m, u, x) by {
        assert(!q0.contains(x)) by { if q0.contains(x) { let i = choose|i: int| 0 <= i < q0.len() && q0[i] == x; assert(q[i - 1] == x); } }
    }
}
proof fn lemma_found(m: HalfEdgeMeshImpl, s: I, u: Set<I>, p: Map<I, Option<I>>, d: Dist, q: Seq<I>, l: int, c: I, y: I)
    requires search(m, s, u, p, d, q, l, Some(c)), linked(m, c, y), !u.contains(y),
    ensures search(m, s, u.insert(y), p.insert(y, Some(c)), d.insert(y, l + 1), q.push(y), l, Some(c)), u.insert(y).len() == u.len() + 1,
        u.insert(y).len() <= m.vertices.data@.len(), m.v().contains_key(y),
{
    broadcast use vstd::set::group_set_lemmas;
    reveal(search);
    lemma_visit(m, s, u, p, d, l, c, y);
    let (u1, d1, q1) = (u.insert(y), d.insert(y, l + 1), q.push(y));
    assert forall|i: int| 0 <= i < q1.len() implies u1.contains(#[trigger] q1[i]) && l <= d1[q1[i]] <= l + 1 by { if i < q.len() { assert(q1[i] == q[i]); assert(q[i] != y); } }
    assert forall|i: int, j: int| 0 <= i < j < q1.len() implies d1[#[trigger] q1[i]] <= d1[#[trigger] q1[j]] by {
        assert(q1[i] == q[i]); assert(q[i] != y); assert(d[q[i]] <= l + 1);
        if j < q.len() { assert(q1[j] == q[j]); assert(q[j] != y); }
    }
    assert forall|x: I| #[trigger] u1.contains(x) && !q1.contains(x) && Some(c) != Some(x) implies finished(m, u1, x) by {
        assert(q1[q.len() as int] == y);
        assert(x != y);
        assert(!q.contains(x)) by { if q.contains(x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(q1[i] == x); } }
        assert(u.contains(x));
        assert(finished(m, u, x));
    }
    assert forall|x: I| #[trigger] u1.contains(x) implies m.v().contains_key(x) by {}
    lemma_few(m, u1);
}
/// all edges at c have been looked at
proof fn lemma_next(m: HalfEdgeMeshImpl, s: I, u: Set<I>, p: Map<I, Option<I>>, d: Dist, q: Seq<I>, l: int, c: I, os: Seq<I>)
    requires search(m, s, u, p, d, q, l, Some(c)), fans(m), os == out_ids(m.h(), m.v()[c]), forall|j: int| 0 <= j < os.len() ==> u.contains(tgt(m.h(), #[trigger] os[j])),
    ensures search(m, s, u, p, d, q, l, None),
{
    reveal(search);
    assert forall|y: I| #[trigger] linked(m, c, y) implies u.contains(y) by {
        let e = choose|e: I| #[trigger] m.h().contains_key(e) && m.h()[e].origin_id == c && tgt(m.h(), e) == y;
        assert(os.contains(e));
        let j = choose|j: int| 0 <= j < os.len() && os[j] == e;
        assert(tgt(m.h(), os[j]) == y);
    }
}
proof fn lemma_at(m: HalfEdgeMeshImpl, s: I, u: Set<I>, p: Map<I, Option<I>>, d: Dist, q: Seq<I>, l: int, cur: Option<I>, x: I)
    requires search(m, s, u, p, d, q, l, cur), u.contains(x),
    ensures p.contains_key(x), m.v().contains_key(x), d[x] >= 0, toward(m, s, u, p, d, x), forall|w: Seq<I>| #[trigger] leads(m, w, x, s) ==> w.len() > d[x],
{
    reveal(search);
}
proof fn lemma_end(m: HalfEdgeMeshImpl, s: I, u: Set<I>, p: Map<I, Option<I>>, d: Dist, l: int, x: I)
    requires search(m, s, u, p, d, Seq::empty(), l, None), !u.contains(x),
    ensures forall|w: Seq<I>| !#[trigger] leads(m, w, x, s),
{
    reveal(search);
    assert forall|w: Seq<I>| !#[trigger] leads(m, w, x, s) by { if leads(m, w, x, s) { lemma_closed_set(m, s, u, w, x); } }
}
/// the path found so far, and where it continues
spec fn chain(m: HalfEdgeMeshImpl, s: I, t: I, u: Set<I>, d: Dist, path: Seq<I>, step: Option<I>) -> bool {
    &&& path.len() > 0 ==> walk(m, path) && path[0] == t
    &&& match step {
        Some(x) => u.contains(x) && path.len() + d[x] == d[t] && (path.len() == 0 ==> x == t) && (path.len() > 0 ==> linked(m, path.last(), x)),
        None => path.len() == d[t] + 1 && path.len() > 0 && path.last() == s,
    }
}
impl HalfEdgeMeshImpl {
//@fn src/mesh/mesh/topology.rs trait MeshTopology :: shortest_path
//@ret r
        requires self.valid(), fans(*self), self.v().contains_key(v0), self.v().contains_key(v1),
        ensures
            r is Some ==> leads(*self, r->Some_0@, v0, v1),
            r is Some ==> forall|q: Seq<I>| #[trigger] leads(*self, q, v0, v1) ==> q.len() >= r->Some_0@.len(),
            r is None ==> forall|q: Seq<I>| !#[trigger] leads(*self, q, v0, v1),
//@pre
        broadcast use vstd::std_specs::hash::group_hash_axioms, vstd::set::group_set_lemmas;
        let ghost mut d: Dist = Map::empty().insert(v1, 0int);
        let ghost mut l = 0int;
        let ghost m = *self;
        proof {
            lemma_init(m, v1, Set::empty().insert(v1), Map::empty().insert(v1, None), Seq::empty().push(v1));
            lemma_few(m, Set::empty().insert(v1));
            assert forall|u: Set<I>, p: Map<I, Option<I>>, e: Dist, q: Seq<I>, k: int| #[trigger] search(m, v1, u, p, e, q, k, None) && q.len() == 0 && !u.contains(v0)
                implies forall|w: Seq<I>| !#[trigger] leads(m, w, v0, v1) by { assert(q =~= Seq::empty()); lemma_end(m, v1, u, p, e, k, v0); }
        }
//@loop 0
            invariant
                self.valid(), fans(*self), m == *self, self.v().contains_key(v0), self.v().contains_key(v1), v0 != v1,
                search(m, v1, visited@, predecessor@, d, queue@, l, None), !visited@.contains(v0),
                visited@.len() <= m.vertices.data@.len(),
                forall|u: Set<I>, p: Map<I, Option<I>>, e: Dist, q: Seq<I>, k: int| #[trigger] search(m, v1, u, p, e, q, k, None) && q.len() == 0 && !u.contains(v0) ==> forall|w: Seq<I>| !#[trigger] leads(m, w, v0, v1),
            ensures forall|w: Seq<I>| !#[trigger] leads(m, w, v0, v1),
            decreases m.vertices.data@.len() - visited@.len(), queue@.len(),
//@lstart 0
            let ghost u0 = visited@.len();
            let ghost n0 = queue@.len();
            proof {
                assert forall|q0: Seq<I>| #[trigger] search(m, v1, visited@, predecessor@, d, q0, l, None) && q0.len() > 0 && q0[0] == current && q0.drop_first() =~= queue@
                    implies search(m, v1, visited@, predecessor@, d, seq![current] + queue@, l, None) by { assert(q0 =~= seq![current] + queue@); }
                lemma_pop(m, v1, visited@, predecessor@, d, current, queue@, l);
                l = d[current];
            }
            let ghost h = m.h(); let ghost os = out_ids(h, m.v()[current]); let ghost all = os.map_values(|e: I| tgt(h, e)); let ghost mut gk = 0int;
            proof { lemma_out(m, current); assert(vert_ok(h, m.v(), current)); }
//@lend 0
            proof { lemma_next(m, v1, visited@, predecessor@, d, queue@, l, current, os); }
//@loop 1
            invariant
                m.valid(), m == *self, self.v().contains_key(v0), v0 != v1, h == m.h(), os == out_ids(h, m.v()[current]), all == os.map_values(|e: I| tgt(h, e)),
                forall|j: int| 0 <= j < os.len() ==> h.contains_key(#[trigger] os[j]) && h[os[j]].origin_id == current,
                search(m, v1, visited@, predecessor@, d, queue@, l, Some(current)), !visited@.contains(v0),
                visited@.len() <= m.vertices.data@.len(),
                0 <= gk <= all.len(), it_0.rest() == all.skip(gk), forall|j: int| 0 <= j < gk ==> visited@.contains(tgt(h, #[trigger] os[j])),
                visited@.len() >= u0, visited@.len() == u0 ==> queue@.len() == n0,
            ensures gk == all.len(),
            decreases it_0.rest().len(),
//@lstart 1
            let ghost (ub, pb, qb, db) = (visited@, predecessor@, queue@, d);
            proof {
                if gk < all.len() {
                    let y = all[gk];
                    assert(all.skip(gk)[0] == y); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1));
                    assert(h.contains_key(os[gk]) && tgt(h, os[gk]) == y);
                    assert(linked(m, current, y));
                    gk = gk + 1;
                }
            }
//@aftercall push_back 1
            proof {
                lemma_found(m, v1, ub, pb, db, qb, l, current, neighbor);
                d = db.insert(neighbor, l + 1);
                assert(visited@ =~= ub.insert(neighbor));
                assert(predecessor@ =~= pb.insert(neighbor, Some(current)));
                assert(queue@ =~= qb.push(neighbor));
                lemma_at(m, v1, visited@, predecessor@, d, queue@, l, Some(current), neighbor);
            }
//@loop 2
            invariant
                search(m, v1, visited@, predecessor@, d, queue@, l, Some(current)), visited@.contains(v0), m == *self,
                chain(m, v1, v0, visited@, d, path@, step), forall|w: Seq<I>| #[trigger] leads(m, w, v0, v1) ==> w.len() > d[v0],
            ensures step is None,
            decreases (match step { Some(x) => d[x] + 1, None => 0 }),
//@lstart 2
            proof { lemma_at(m, v1, visited@, predecessor@, d, queue@, l, Some(current), vertex); }
//@endfn
}
