// MeshBasics comparisons and IndexIsomorphism.
//@types T2::Mesh=HalfEdgeMeshImpl; T2::Vertex=HalfEdgeVertexImpl; T2::Edge=HalfEdgeImpl; T2::Face=HalfEdgeFaceImpl; T2::V=I; T2::E=I; T2::F=I; T1::V=I; T1::E=I; T1::F=I; T1=_; T2=_; V1=I; V2=I; IndexIsomorphism<T::V,T2::V>=IndexIsomorphism; IndexIsomorphism<T::E,T2::E>=IndexIsomorphism; IndexIsomorphism<T::F,T2::F>=IndexIsomorphism; IndexIsomorphism<V1,V2>=IndexIsomorphism; IndexIsomorphism<I,I>=IndexIsomorphism; IndexIsomorphism::<T::E,T2::E>=IndexIsomorphism; IndexIsomorphism::<T::F,T2::F>=IndexIsomorphism; IndexIsomorphism::<T::V,T2::V>=IndexIsomorphism
use std::collections::{HashMap, HashSet};
//@known zip eq ne is_trivially_isomorphic_ex is_isomorphic find_payload_isomorphism
#[verifier::external_body]
fn vx_string() -> String { String::new() }

/// `iter().cycle()` of a vector
struct GCycle<'a> { v: &'a Vec<I>, at: usize }
impl<'a> GCycle<'a> {
    spec fn inv(self) -> bool { self.v@.len() > 0 ==> self.at < self.v@.len() }
    fn next(&mut self) -> (r: Option<&'a I>)
        requires old(self).inv(),
        ensures final(self).inv(), final(self).v == old(self).v,
            old(self).v@.len() == 0 ==> r.is_none() && final(self).at == old(self).at,
            old(self).v@.len() > 0 ==> r == Some(&old(self).v@[old(self).at as int])
                && final(self).at == (if old(self).at + 1 < old(self).v@.len() { old(self).at + 1 } else { 0 }),
    {
        if self.v.len() == 0 { return None; }
        let x = &self.v[self.at];
        self.at = if self.at + 1 < self.v.len() { self.at + 1 } else { 0 };
        Some(x)
    }
}
trait VecX {
    fn vx_cycle<'a>(&'a self) -> GCycle<'a>;
    fn vx_ref<'a>(&'a self) -> GIter<&'a I>;
}
impl VecX for Vec<I> {
    fn vx_cycle<'a>(&'a self) -> (r: GCycle<'a>)
        ensures r.v == self, r.at == 0,
    { GCycle { v: self, at: 0 } }
    fn vx_ref<'a>(&'a self) -> (r: GIter<&'a I>)
        ensures refs(r.rest()) == self@,
    {
        let mut o: Vec<&'a I> = Vec::new(); let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), refs(o@) == self@.take(i as int),
            decreases self@.len() - i,
        {
            proof { lemma_refs_push(o@, &self@[i as int]); assert(self@.take(i + 1) =~= self@.take(i as int).push(self@[i as int])); }
            o.push(&self[i]); i = i + 1;
        }
        proof { assert(self@.take(i as int) =~= self@); }
        GIter::from_vec(o)
    }
}
impl<'a> GIter<&'a I> {
    /// `Iterator::eq`
    fn vx_eq(self, o: GIter<&'a I>) -> (r: bool)
        ensures r == (refs(self.rest()) == refs(o.rest())),
    {
        let a = self.v; let b = o.v;
        if a.len() != b.len() { proof { assert(refs(a@).len() != refs(b@).len()); } return false; }
        let mut i: usize = 0;
        while i < a.len()
            invariant i <= a@.len(), a@.len() == b@.len(), a@ == self.rest(), b@ == o.rest(), forall|j: int| 0 <= j < i ==> refs(a@)[j] == #[trigger] refs(b@)[j],
            decreases a@.len() - i,
        {
            let (x, y): (I, I) = (*a[i], *b[i]);
            if x != y { proof { assert(refs(a@)[i as int] != refs(b@)[i as int]); } return false; }
            i = i + 1;
        }
        proof { assert(refs(a@) =~= refs(b@)); }
        true
    }
}
impl<T> GIter<T> {
    /// `Iterator::zip`
    fn zip<U>(self, o: GIter<U>) -> (r: GIter<(T, U)>)
        ensures r.rest().len() == (if self.rest().len() <= o.rest().len() { self.rest().len() } else { o.rest().len() }),
            forall|j: int| 0 <= j < r.rest().len() ==> #[trigger] r.rest()[j] == (self.rest()[j], o.rest()[j]),
    {
        let ghost (sa, so) = (self.rest(), o.rest());
        let mut a = self; let mut b = o; let mut c: Vec<(T, U)> = Vec::new();
        loop
            invariant_except_break a.rest() == sa.skip(c@.len() as int), b.rest() == so.skip(c@.len() as int),
            invariant c@.len() <= sa.len(), c@.len() <= so.len(),
                forall|j: int| 0 <= j < c@.len() ==> #[trigger] c@[j] == (sa[j], so[j]),
            ensures c@.len() == sa.len() || c@.len() == so.len(),
            decreases a.rest().len(),
        {
            match a.next() {
                None => { break; }
                Some(x) => { match b.next() {
                    None => { break; }
                    Some(y) => { c.push((x, y)); }
                } }
            }
        }
        GIter::from_vec(c)
    }
}

/// the list b is the list a started somewhere else
spec fn rot(a: Seq<I>, k: int) -> Seq<I> { a.skip(k) + a.take(k) }
spec fn rotated(a: Seq<I>, b: Seq<I>) -> bool { exists|k: int| 0 <= k < a.len() && b == #[trigger] rot(a, k) }

//@include mesh_listed.rs
//@enum src/mesh/mesh/iso.rs MeshEquivalenceDifference
impl MeshEquivalenceDifference {
//@fn src/mesh/mesh/iso.rs impl MeshEquivalenceDifference :: eq
//@ret r
        ensures r == (*self is Equivalent),
//@endfn
//@fn src/mesh/mesh/iso.rs impl MeshEquivalenceDifference :: ne
//@ret r
        ensures r == !(*self is Equivalent),
//@endfn
}
//@struct src/mesh/mesh/iso.rs IndexIsomorphism
impl IndexIsomorphism {
    spec fn m(self) -> Map<I, I> { self.map@ }
//@fn src/mesh/mesh/iso.rs impl IndexIsomorphism :: has
//@ret r
        ensures r == self.m().contains_key(v1),
//@pre
        broadcast use vstd::std_specs::hash::group_hash_axioms;
//@endfn
//@fn src/mesh/mesh/iso.rs impl IndexIsomorphism :: insert
        ensures final(self).m() == old(self).m().insert(v1, v2),
//@pre
        broadcast use vstd::std_specs::hash::group_hash_axioms;
//@endfn
//@fn src/mesh/mesh/iso.rs impl IndexIsomorphism :: get
//@ret r
        ensures r == (if self.m().contains_key(v1) { Some(&self.m()[v1]) } else { None }),
//@pre
        broadcast use vstd::std_specs::hash::group_hash_axioms;
//@endfn
//@fn src/mesh/mesh/iso.rs impl IndexIsomorphism :: new
//@ret r
        ensures r.m() == Map::<I, I>::empty(),
//@pre
        broadcast use vstd::std_specs::hash::group_hash_axioms;
//@endfn
}
//@fn src/mesh/mesh/basics.rs free :: equal_up_to_rotation
//@generics
//@where
//@type T=I
//@ret r
    ensures r == rotated(a@, b@),
//@pre
    let ghost n = a@.len() as int;
//@loop 0
        invariant end_0 == a@.len(), i_0 <= end_0, a@.len() == b@.len(), n == a@.len(),
            forall|k: int| 0 <= k < i_0 ==> b@ != #[trigger] rot(a@, k),
        decreases end_0 - i_0,
//@lstart 0
        proof { let k = i_0 as int; if a@[k] != b@[0] { assert(rot(a@, k)[0] == a@[k]); } }
//@loop 1
        invariant_except_break n0_1 > 0 ==> n1_1 == n && it_1.at == i - n0_1,
            n0_1 == 0 ==> it_1.at == (if i + (n - n1_1) < n { i + (n - n1_1) } else { i + (n - n1_1) - n }),
        invariant n == a@.len(), 0 <= i < n, n0_1 <= i, n1_1 <= n, it_1.inv(), it_1.v == a,
            refs(res_1@) == rot(a@, i as int).take(n - n1_1),
        ensures refs(res_1@) == rot(a@, i as int),
        decreases n0_1 + n1_1,
//@lstart 1
        let ghost g0 = res_1@; let ghost g1 = n - n1_1;
        proof {
            if n1_1 == 0 { assert(rot(a@, i as int).take(n) =~= rot(a@, i as int)); }
            else if n0_1 == 0 {
                let c = it_1.at as int;
                assert(a@[c] == rot(a@, i as int)[g1]);
                lemma_refs_push(res_1@, &a@[c]);
                assert(rot(a@, i as int).take(g1 + 1) =~= rot(a@, i as int).take(g1).push(a@[c]));
            }
        }
//@endfn

/// the two meshes have the same handles, with the same connectivity, and the given comparisons hold
spec fn trivially<F1: Fn(&HalfEdgeVertexImpl, &HalfEdgeVertexImpl) -> bool, F2: Fn(&HalfEdgeImpl, &HalfEdgeImpl) -> bool, F3: Fn(&HalfEdgeFaceImpl, &HalfEdgeFaceImpl) -> bool>(
    a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, f1: F1, f2: F2, f3: F3) -> bool {
    &&& forall|x: I| #[trigger] a.v().contains_key(x) == b.v().contains_key(x)
    &&& forall|x: I| #[trigger] a.h().contains_key(x) == b.h().contains_key(x)
    &&& forall|x: I| #[trigger] a.f().contains_key(x) == b.f().contains_key(x)
    &&& forall|x: I| #[trigger] a.v().contains_key(x) ==> f1.ensures((&a.v()[x], &b.v()[x]), true)
    &&& forall|x: I| #[trigger] a.h().contains_key(x) ==> ends_same(a.h(), b.h(), x) && f2.ensures((&a.h()[x], &b.h()[x]), true)
    &&& forall|x: I| #[trigger] a.f().contains_key(x) ==> rotated(loop_ids(a.h(), a.f()[x]), loop_ids(b.h(), b.f()[x])) && f3.ensures((&a.f()[x], &b.f()[x]), true)
}
spec fn ends_same(a: HMap, b: HMap, x: I) -> bool { a[x].origin_id == b[x].origin_id && tgt(a, x) == tgt(b, x) }
/// the handle p of a has no counterpart in b, or q of b none in a
spec fn unpaired<T>(a: IMap<I, T>, b: IMap<I, T>, p: I, q: I) -> bool { p != q && (!b.contains_key(p) || !a.contains_key(q)) }
/// the reported difference exists
spec fn triv_differs<F1: Fn(&HalfEdgeVertexImpl, &HalfEdgeVertexImpl) -> bool, F2: Fn(&HalfEdgeImpl, &HalfEdgeImpl) -> bool, F3: Fn(&HalfEdgeFaceImpl, &HalfEdgeFaceImpl) -> bool>(
    a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, f1: F1, f2: F2, f3: F3, r: MeshEquivalenceDifference) -> bool {
    match r {
        MeshEquivalenceDifference::Equivalent => false,
        MeshEquivalenceDifference::DifferentNumberOfVertices => a.vertices.in_use() != b.vertices.in_use(),
        MeshEquivalenceDifference::DifferentNumberOfEdges => a.halfedges.in_use() != b.halfedges.in_use(),
        MeshEquivalenceDifference::DifferentNumberOfFaces => a.faces.in_use() != b.faces.in_use(),
        MeshEquivalenceDifference::DifferentVertices(p, q) => a.v().contains_key(p) && b.v().contains_key(q)
            && (unpaired(a.v(), b.v(), p, q) || (p == q && f1.ensures((&a.v()[p], &b.v()[p]), false))),
        MeshEquivalenceDifference::DifferentEdges(p, q) => a.h().contains_key(p) && b.h().contains_key(q)
            && (unpaired(a.h(), b.h(), p, q) || (p == q && (!ends_same(a.h(), b.h(), p) || f2.ensures((&a.h()[p], &b.h()[p]), false)))),
        MeshEquivalenceDifference::DifferentFaces(p, q) => a.f().contains_key(p) && b.f().contains_key(q)
            && (unpaired(a.f(), b.f(), p, q) || (p == q && (!rotated(loop_ids(a.h(), a.f()[p]), loop_ids(b.h(), b.f()[p])) || f3.ensures((&a.f()[p], &b.f()[p]), false)))),
        _ => false,
    }
}
/// the first n listed handles agree
spec fn agree<T: Deletable<I>>(s: Seq<T>, t: Seq<T>, n: int) -> bool { forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).key() == t[j].key() }
proof fn lemma_agree_all<T: Deletable<I>>(s: Seq<T>, t: Seq<T>, a: IMap<I, T>, b: IMap<I, T>)
    requires listing(s, a), listing(t, b), s.len() == t.len(), agree(s, t, s.len() as int),
    ensures forall|x: I| #[trigger] a.contains_key(x) == b.contains_key(x),
        forall|x: I| #[trigger] a.contains_key(x) ==> exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == a[x] && t[j] == b[x] && s[j].key() == x,
{
    assert forall|x: I| #[trigger] a.contains_key(x) == b.contains_key(x) by {
        if a.contains_key(x) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).key() == x; assert(t[j].key() == x); }
        if b.contains_key(x) { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).key() == x; assert(s[j].key() == x); }
    }
    assert forall|x: I| #[trigger] a.contains_key(x) implies exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == a[x] && t[j] == b[x] && s[j].key() == x by {
        let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).key() == x;
        assert(t[j].key() == x);
        assert(s[j] == a[x]);
    }
}
proof fn lemma_agree_stop<T: Deletable<I>>(s: Seq<T>, t: Seq<T>, a: IMap<I, T>, b: IMap<I, T>, n: int)
    requires listing(s, a), listing(t, b), 0 <= n < s.len(), n < t.len(), agree(s, t, n), s[n].key() != t[n].key(),
    ensures unpaired(a, b, s[n].key(), t[n].key()),
{
    let (p, q) = (s[n].key(), t[n].key());
    I::ix_inj(p, q);
    if b.contains_key(p) && a.contains_key(q) {
        let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).key() == p;
        let l = choose|l: int| 0 <= l < s.len() && (#[trigger] s[l]).key() == q;
        if k < n { assert(s[k].key() == p); } 
        if l < n { assert(s[l].key() == t[l].key()); }
        if k > n && l > n { assert(t[n].key().ix() < t[k].key().ix()); assert(s[n].key().ix() < s[l].key().ix()); }
        assert(false);
    }
}
/// what is left of walking two lists together, from position n
spec fn zipped<T>(z: Seq<(&T, &T)>, s: Seq<T>, t: Seq<T>, n: int) -> bool {
    z.len() == s.len() - n && forall|j: int| 0 <= j < z.len() ==> *(#[trigger] z[j]).0 == s[n + j] && *z[j].1 == t[n + j]
}
proof fn lemma_zip<T>(z: Seq<(&T, &T)>, s: Seq<T>, t: Seq<T>, n: int)
    requires zipped(z, s, t, n), 0 <= n < s.len(), s.len() == t.len(),
    ensures *z[0].0 == s[n], *z[0].1 == t[n], zipped(z.drop_first(), s, t, n + 1),
{
    assert forall|j: int| 0 <= j < z.drop_first().len() implies *(#[trigger] z.drop_first()[j]).0 == s[n + 1 + j] && *z.drop_first()[j].1 == t[n + 1 + j] by { assert(z.drop_first()[j] == z[j + 1]); }
}
proof fn lemma_drain<T>(a: Seq<T>, b: Seq<T>)
    ensures b.len() > 0 ==> a.push(b[0]) + b.drop_first() == a + b, b.len() == 0 ==> a + b == a,
{
    if b.len() > 0 { assert(a.push(b[0]) + b.drop_first() =~= a + b); } else { assert(a + b =~= a); }
}
proof fn lemma_rot_len(a: Seq<I>, b: Seq<I>)
    ensures rotated(a, b) ==> a.len() == b.len(),
{
}
proof fn lemma_at(m: HalfEdgeMeshImpl, e: HalfEdgeImpl)
    requires m.valid(), m.h().contains_key(e.id), m.h()[e.id] == e,
    ensures m.h().contains_key(e.next), m.v().contains_key(e.origin_id), m.v().contains_key(m.h()[e.next].origin_id),
        m.v()[e.origin_id].id == e.origin_id, m.v()[m.h()[e.next].origin_id].id == m.h()[e.next].origin_id,
{
    assert(link_ok(m.h(), e.id)); assert(edge_ok(m.h(), m.v(), m.f(), e.id)); assert(edge_ok(m.h(), m.v(), m.f(), e.next));
    assert(vert_ok(m.h(), m.v(), e.origin_id)); assert(vert_ok(m.h(), m.v(), m.h()[e.next].origin_id));
}
/// same handles and connectivity
spec fn same_graph(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl) -> bool {
    &&& forall|x: I| #[trigger] a.v().contains_key(x) == b.v().contains_key(x)
    &&& forall|x: I| #[trigger] a.h().contains_key(x) == b.h().contains_key(x)
    &&& forall|x: I| #[trigger] a.f().contains_key(x) == b.f().contains_key(x)
    &&& forall|x: I| #[trigger] a.h().contains_key(x) ==> ends_same(a.h(), b.h(), x)
    &&& forall|x: I| #[trigger] a.f().contains_key(x) ==> rotated(loop_ids(a.h(), a.f()[x]), loop_ids(b.h(), b.f()[x]))
}
spec fn graph_differs(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, r: MeshEquivalenceDifference) -> bool {
    match r {
        MeshEquivalenceDifference::DifferentNumberOfVertices => a.vertices.in_use() != b.vertices.in_use(),
        MeshEquivalenceDifference::DifferentNumberOfEdges => a.halfedges.in_use() != b.halfedges.in_use(),
        MeshEquivalenceDifference::DifferentNumberOfFaces => a.faces.in_use() != b.faces.in_use(),
        MeshEquivalenceDifference::DifferentVertices(p, q) => unpaired(a.v(), b.v(), p, q),
        MeshEquivalenceDifference::DifferentEdges(p, q) => unpaired(a.h(), b.h(), p, q) || (p == q && !ends_same(a.h(), b.h(), p)),
        MeshEquivalenceDifference::DifferentFaces(p, q) => unpaired(a.f(), b.f(), p, q) || (p == q && !rotated(loop_ids(a.h(), a.f()[p]), loop_ids(b.h(), b.f()[p]))),
        _ => false,
    }
}
/// m pairs every vertex of a with a vertex of b of its own for which the comparison holds
spec fn matching<F: Fn(&HalfEdgeVertexImpl, &HalfEdgeVertexImpl) -> bool>(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, f: F, m: Map<I, I>) -> bool {
    &&& forall|x: I| #[trigger] m.contains_key(x) == a.v().contains_key(x)
    &&& forall|x: I| #[trigger] a.v().contains_key(x) ==> b.v().contains_key(m[x]) && f.ensures((&a.v()[x], &b.v()[m[x]]), true)
    &&& forall|x: I, y: I| #[trigger] a.v().contains_key(x) && #[trigger] a.v().contains_key(y) && x != y ==> m[x] != m[y]
}
/// some vertex has no counterpart, or two share one
spec fn no_matching<F: Fn(&HalfEdgeVertexImpl, &HalfEdgeVertexImpl) -> bool>(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, f: F) -> bool {
    ||| exists|x: I| #[trigger] a.v().contains_key(x) && forall|y: I| #[trigger] b.v().contains_key(y) ==> f.ensures((&a.v()[x], &b.v()[y]), false)
    ||| exists|x: I, y: I, z: I| #[trigger] shares(a, b, f, x, y, z)
}
spec fn shares<F: Fn(&HalfEdgeVertexImpl, &HalfEdgeVertexImpl) -> bool>(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, f: F, x: I, y: I, z: I) -> bool {
    x != y && a.v().contains_key(x) && a.v().contains_key(y) && b.v().contains_key(z) && f.ensures((&a.v()[x], &b.v()[z]), true) && f.ensures((&a.v()[y], &b.v()[z]), true)
}
/// the first n listed vertices are paired
spec fn matched<F: Fn(&HalfEdgeVertexImpl, &HalfEdgeVertexImpl) -> bool>(va: Seq<HalfEdgeVertexImpl>, n: int, b: HalfEdgeMeshImpl, f: F, m: Map<I, I>, u: Set<I>) -> bool {
    &&& forall|j: int| 0 <= j < n ==> m.contains_key((#[trigger] va[j]).id) && b.v().contains_key(m[va[j].id]) && f.ensures((&va[j], &b.v()[m[va[j].id]]), true)
    &&& forall|x: I| #[trigger] m.contains_key(x) ==> exists|j: int| 0 <= j < n && (#[trigger] va[j]).id == x
    &&& forall|y: I| #[trigger] u.contains(y) ==> exists|j: int| 0 <= j < n && m[(#[trigger] va[j]).id] == y
    &&& forall|j: int| 0 <= j < n ==> u.contains(m[(#[trigger] va[j]).id])
    &&& forall|j: int, k: int| 0 <= j < k < n ==> m[(#[trigger] va[j]).id] != m[(#[trigger] va[k]).id]
}
proof fn lemma_matched<F: Fn(&HalfEdgeVertexImpl, &HalfEdgeVertexImpl) -> bool>(va: Seq<HalfEdgeVertexImpl>, n: int, b: HalfEdgeMeshImpl, f: F, m: Map<I, I>, u: Set<I>, w: HalfEdgeVertexImpl)
    requires matched(va, n, b, f, m, u), 0 <= n < va.len(), b.v().contains_key(w.id), b.v()[w.id] == w, f.ensures((&va[n], &w), true),
        forall|j: int, k: int| 0 <= j < k < va.len() ==> (#[trigger] va[j]).id != (#[trigger] va[k]).id, !u.contains(w.id),
    ensures matched(va, n + 1, b, f, m.insert(va[n].id, w.id), u.insert(w.id)),
{
    let (m1, u1) = (m.insert(va[n].id, w.id), u.insert(w.id));
    assert forall|x: I| #[trigger] m1.contains_key(x) implies exists|j: int| 0 <= j < n + 1 && (#[trigger] va[j]).id == x by {
        if x == va[n].id { assert(va[n].id == x); } else { let j = choose|j: int| 0 <= j < n && (#[trigger] va[j]).id == x; assert(va[j].id == x); }
    }
    assert forall|y: I| #[trigger] u1.contains(y) implies exists|j: int| 0 <= j < n + 1 && m1[(#[trigger] va[j]).id] == y by {
        if y == w.id { assert(m1[va[n].id] == y); } else { let j = choose|j: int| 0 <= j < n && m[(#[trigger] va[j]).id] == y; assert(m1[va[j].id] == y); }
    }
}
/// the candidate (if any) is a vertex of b for which the comparison holds
spec fn hit<F: Fn(&HalfEdgeVertexImpl, &HalfEdgeVertexImpl) -> bool>(b: HalfEdgeMeshImpl, f: F, v: &HalfEdgeVertexImpl, r: Option<&HalfEdgeVertexImpl>) -> bool {
    match r { Some(w) => b.v().contains_key(w.id) && b.v()[w.id] == *w && f.ensures((v, w), true), None => true }
}
proof fn lemma_matching<F: Fn(&HalfEdgeVertexImpl, &HalfEdgeVertexImpl) -> bool>(va: Seq<HalfEdgeVertexImpl>, a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, f: F, m: Map<I, I>, u: Set<I>)
    requires matched(va, va.len() as int, b, f, m, u), listing(va, a.v()),
    ensures matching(a, b, f, m),
{
    assert forall|x: I| #[trigger] m.contains_key(x) == a.v().contains_key(x) by {
        if m.contains_key(x) { let j = choose|j: int| 0 <= j < va.len() && (#[trigger] va[j]).id == x; assert(a.v().contains_key(va[j].key())); }
        if a.v().contains_key(x) { let j = choose|j: int| 0 <= j < va.len() && (#[trigger] va[j]).key() == x; assert(va[j].id == x); }
    }
    assert forall|x: I| #[trigger] a.v().contains_key(x) implies b.v().contains_key(m[x]) && f.ensures((&a.v()[x], &b.v()[m[x]]), true) by {
        let j = choose|j: int| 0 <= j < va.len() && (#[trigger] va[j]).key() == x; assert(va[j].id == x); assert(a.v()[va[j].key()] == va[j]);
    }
    assert forall|x: I, y: I| #[trigger] a.v().contains_key(x) && #[trigger] a.v().contains_key(y) && x != y implies m[x] != m[y] by {
        let j = choose|j: int| 0 <= j < va.len() && (#[trigger] va[j]).key() == x; let k = choose|k: int| 0 <= k < va.len() && (#[trigger] va[k]).key() == y;
        assert(va[j].id == x && va[k].id == y); if j < k { assert(m[va[j].id] != m[va[k].id]); } else { assert(m[va[k].id] != m[va[j].id]); }
    }
}
/// the vertices of a face, from its representative edge
spec fn face_vs(m: HalfEdgeMeshImpl, g: I) -> Seq<I> { loop_ids(m.h(), m.f()[g]).map_values(|e: I| tgt(m.h(), e)) }
spec fn through(s: Seq<I>, im: Map<I, I>) -> Seq<I> { s.map_values(|x: I| im[x]) }
spec fn face_list(h: HMap, e: HalfEdgeImpl) -> Seq<I> {
    (if e.face != NONE { seq![e.face] } else { Seq::empty() }) + (if h[e.twin].face != NONE { seq![h[e.twin].face] } else { Seq::empty() })
}
spec fn on_edge(h: HMap, e: HalfEdgeImpl, g: I) -> bool { g != NONE && (e.face == g || h[e.twin].face == g) }
/// the face g2 of b has the images of the vertices of g, in the same cyclic order
spec fn face_like(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, im: Map<I, I>, g: I, g2: I) -> bool { b.f().contains_key(g2) && rotated(through(face_vs(a, g), im), face_vs(b, g2)) }
spec fn face_matched<F3: Fn(&HalfEdgeFaceImpl, &HalfEdgeFaceImpl) -> bool>(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, im: Map<I, I>, f3: F3, g: I) -> bool {
    exists|g2: I| #[trigger] face_like(a, b, im, g, g2) && f3.ensures((&a.f()[g], &b.f()[g2]), true)
}
/// o is the edge of b between the images of the ends of the edge e of a (None: there is none)
spec fn edge_like(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, im: Map<I, I>, e: I, o: Option<HalfEdgeImpl>) -> bool {
    first_to(b.h(), out_ids(b.h(), b.v()[im[a.h()[e].origin_id]]), im[tgt(a.h(), e)], o)
}
spec fn edge_done<F2: Fn(&HalfEdgeImpl, &HalfEdgeImpl) -> bool, F3: Fn(&HalfEdgeFaceImpl, &HalfEdgeFaceImpl) -> bool>(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, im: Map<I, I>, f2: F2, f3: F3, e: I) -> bool {
    &&& exists|o: HalfEdgeImpl| #[trigger] edge_like(a, b, im, e, Some(o)) && f2.ensures((&a.h()[e], &o), true)
    &&& forall|g: I| #[trigger] on_edge(a.h(), a.h()[e], g) ==> face_matched(a, b, im, f3, g)
}
spec fn vert_done<F1: Fn(&HalfEdgeVertexImpl, &HalfEdgeVertexImpl) -> bool, F2: Fn(&HalfEdgeImpl, &HalfEdgeImpl) -> bool, F3: Fn(&HalfEdgeFaceImpl, &HalfEdgeFaceImpl) -> bool>(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, im: Map<I, I>, f1: F1, f2: F2, f3: F3, x: I) -> bool {
    &&& f1.ensures((&a.v()[x], &b.v()[im[x]]), true)
    &&& forall|j: int| 0 <= j < out_ids(a.h(), a.v()[x]).len() ==> edge_done(a, b, im, f2, f3, #[trigger] out_ids(a.h(), a.v()[x])[j])
}
/// im carries the vertices, edges (in the vertex wheels) and faces (at those edges) of a to ones of b
spec fn isomorphic<F1: Fn(&HalfEdgeVertexImpl, &HalfEdgeVertexImpl) -> bool, F2: Fn(&HalfEdgeImpl, &HalfEdgeImpl) -> bool, F3: Fn(&HalfEdgeFaceImpl, &HalfEdgeFaceImpl) -> bool>(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, im: Map<I, I>, f1: F1, f2: F2, f3: F3) -> bool {
    &&& a.vertices.in_use() == b.vertices.in_use() && a.halfedges.in_use() == b.halfedges.in_use() && a.faces.in_use() == b.faces.in_use()
    &&& forall|x: I| #[trigger] a.v().contains_key(x) ==> vert_done(a, b, im, f1, f2, f3, x)
}
/// the reported difference exists
spec fn iso_differs<F1: Fn(&HalfEdgeVertexImpl, &HalfEdgeVertexImpl) -> bool, F2: Fn(&HalfEdgeImpl, &HalfEdgeImpl) -> bool, F3: Fn(&HalfEdgeFaceImpl, &HalfEdgeFaceImpl) -> bool>(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, im: Map<I, I>, f1: F1, f2: F2, f3: F3, r: MeshEquivalenceDifference) -> bool {
    match r {
        MeshEquivalenceDifference::Equivalent => false,
        MeshEquivalenceDifference::NoCorrespondingVertex => false,
        MeshEquivalenceDifference::DifferentNumberOfVertices => a.vertices.in_use() != b.vertices.in_use(),
        MeshEquivalenceDifference::DifferentNumberOfEdges => a.halfedges.in_use() != b.halfedges.in_use(),
        MeshEquivalenceDifference::DifferentNumberOfFaces => a.faces.in_use() != b.faces.in_use(),
        MeshEquivalenceDifference::DifferentVertices(p, q) => a.v().contains_key(p) && q == im[p] && f1.ensures((&a.v()[p], &b.v()[q]), false),
        MeshEquivalenceDifference::NoCorrespondingEdge(p) => a.h().contains_key(p) && edge_like(a, b, im, p, None),
        MeshEquivalenceDifference::DifferentEdges(p, q) => a.h().contains_key(p) && b.h().contains_key(q) && edge_like(a, b, im, p, Some(b.h()[q])) && f2.ensures((&a.h()[p], &b.h()[q]), false),
        MeshEquivalenceDifference::NoCorrespondingFace(p) => a.f().contains_key(p) && exists|e: I, o: HalfEdgeImpl| #[trigger] edge_like(a, b, im, e, Some(o)) && a.h().contains_key(e) && face_lost(a, b, im, e, o, p),
        MeshEquivalenceDifference::DifferentFaces(p, q) => a.f().contains_key(p) && face_like(a, b, im, p, q) && f3.ensures((&a.f()[p], &b.f()[q]), false),
    }
}
/// p is a face at the edge e, and neither face at the corresponding edge o has its vertices
spec fn face_lost(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, im: Map<I, I>, e: I, o: HalfEdgeImpl, p: I) -> bool {
    on_edge(a.h(), a.h()[e], p) && forall|g2: I| #[trigger] on_edge(b.h(), o, g2) ==> !face_like(a, b, im, p, g2)
}
/// each entry is a face of the list with its vertices
spec fn listed(b: HalfEdgeMeshImpl, l: Seq<I>, r: Seq<(I, Vec<I>)>) -> bool {
    forall|j: int| 0 <= j < r.len() ==> (#[trigger] r[j]).0 == l[j] && r[j].1@ == face_vs(b, l[j])
}
spec fn live_opt(b: HalfEdgeMeshImpl, r: Option<HalfEdgeImpl>) -> bool {
    match r { Some(o) => b.h().contains_key(o.id) && b.h()[o.id] == o && b.h().contains_key(o.twin)
        && all_live(b, face_list(b.h(), o))
        && forall|g: I| #[trigger] on_edge(b.h(), o, g) ==> b.f().contains_key(g) && b.f()[g].id == g, None => true }
}
spec fn all_live(b: HalfEdgeMeshImpl, l: Seq<I>) -> bool { forall|j: int| 0 <= j < l.len() ==> b.f().contains_key(#[trigger] l[j]) }
spec fn total(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, im: Map<I, I>) -> bool { forall|x: I| #[trigger] a.v().contains_key(x) ==> im.contains_key(x) && b.v().contains_key(im[x]) }
spec fn edges_done<F2: Fn(&HalfEdgeImpl, &HalfEdgeImpl) -> bool, F3: Fn(&HalfEdgeFaceImpl, &HalfEdgeFaceImpl) -> bool>(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, im: Map<I, I>, f2: F2, f3: F3, em: Map<I, I>, cur: I) -> bool {
    forall|e: I| #[trigger] em.contains_key(e) && e != cur ==> edge_done(a, b, im, f2, f3, e)
}
spec fn faces_done<F3: Fn(&HalfEdgeFaceImpl, &HalfEdgeFaceImpl) -> bool>(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, im: Map<I, I>, f3: F3, fm: Map<I, I>) -> bool {
    forall|g: I| #[trigger] fm.contains_key(g) ==> face_matched(a, b, im, f3, g)
}
proof fn lemma_first_live(m: HalfEdgeMeshImpl, x: I, w: I, o: HalfEdgeImpl)
    requires m.valid(), m.v().contains_key(x), first_to(m.h(), out_ids(m.h(), m.v()[x]), w, Some(o)),
    ensures m.h().contains_key(o.id), m.h()[o.id] == o, m.h().contains_key(o.twin), all_live(m, face_list(m.h(), o)),
        forall|g: I| #[trigger] on_edge(m.h(), o, g) ==> m.f().contains_key(g) && m.f()[g].id == g,
{
    lemma_out(m, x);
    let s = out_ids(m.h(), m.v()[x]);
    let j = choose|j: int| 0 <= j < s.len() && o == m.h()[#[trigger] s[j]] && tgt(m.h(), s[j]) == w && forall|i: int| 0 <= i < j ==> tgt(m.h(), #[trigger] s[i]) != w;
    assert(link_ok(m.h(), s[j]));
    lemma_faces_at(m, o);
}
proof fn lemma_faces_at(m: HalfEdgeMeshImpl, o: HalfEdgeImpl)
    requires m.valid(), m.h().contains_key(o.id), m.h()[o.id] == o,
    ensures m.h().contains_key(o.twin), forall|g: I| #[trigger] on_edge(m.h(), o, g) ==> m.f().contains_key(g) && m.f()[g].id == g,
        forall|j: int| 0 <= j < face_list(m.h(), o).len() ==> on_edge(m.h(), o, #[trigger] face_list(m.h(), o)[j]),
        forall|g: I| #[trigger] on_edge(m.h(), o, g) ==> exists|j: int| 0 <= j < face_list(m.h(), o).len() && #[trigger] face_list(m.h(), o)[j] == g,
{
    assert(twin_ok(m.h(), o.id)); assert(edge_ok(m.h(), m.v(), m.f(), o.id)); assert(edge_ok(m.h(), m.v(), m.f(), o.twin));
    assert forall|g: I| #[trigger] on_edge(m.h(), o, g) implies m.f().contains_key(g) && m.f()[g].id == g by { assert(face_ok(m.h(), m.f(), g)); }
    let l = face_list(m.h(), o);
    assert forall|g: I| #[trigger] on_edge(m.h(), o, g) implies exists|j: int| 0 <= j < l.len() && #[trigger] l[j] == g by {
        if o.face == g { assert(l[0] == g); } else { assert(l[l.len() - 1] == g); }
    }
}
proof fn lemma_face_vs(m: HalfEdgeMeshImpl, g: I)
    requires m.valid(), m.f().contains_key(g),
    ensures forall|j: int| 0 <= j < face_vs(m, g).len() ==> m.v().contains_key(#[trigger] face_vs(m, g)[j]),
{
    assert(face_ok(m.h(), m.f(), g));
    lemma_loop(m, m.f()[g].edge);
    let s = loop_ids(m.h(), m.f()[g]);
    assert forall|j: int| 0 <= j < face_vs(m, g).len() implies m.v().contains_key(#[trigger] face_vs(m, g)[j]) by {
        assert(m.h().contains_key(s[j])); assert(link_ok(m.h(), s[j])); assert(edge_ok(m.h(), m.v(), m.f(), m.h()[s[j]].next));
    }
}
/// im carries the edges (in the vertex wheels) and faces (at those edges) of a to ones of b
spec fn alike(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, im: Map<I, I>) -> bool {
    &&& a.vertices.in_use() == b.vertices.in_use() && a.halfedges.in_use() == b.halfedges.in_use() && a.faces.in_use() == b.faces.in_use()
    &&& forall|x: I, j: int| #[trigger] a.v().contains_key(x) && 0 <= j < out_ids(a.h(), a.v()[x]).len() ==> edge_alike(a, b, im, #[trigger] out_ids(a.h(), a.v()[x])[j])
}
spec fn edge_alike(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, im: Map<I, I>, e: I) -> bool {
    &&& exists|o: HalfEdgeImpl| #[trigger] edge_like(a, b, im, e, Some(o))
    &&& forall|g: I| #[trigger] on_edge(a.h(), a.h()[e], g) ==> exists|g2: I| #[trigger] face_like(a, b, im, g, g2)
}
spec fn unlike(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, im: Map<I, I>, r: MeshEquivalenceDifference) -> bool {
    match r {
        MeshEquivalenceDifference::DifferentNumberOfVertices => a.vertices.in_use() != b.vertices.in_use(),
        MeshEquivalenceDifference::DifferentNumberOfEdges => a.halfedges.in_use() != b.halfedges.in_use(),
        MeshEquivalenceDifference::DifferentNumberOfFaces => a.faces.in_use() != b.faces.in_use(),
        MeshEquivalenceDifference::NoCorrespondingEdge(p) => a.h().contains_key(p) && edge_like(a, b, im, p, None),
        MeshEquivalenceDifference::NoCorrespondingFace(p) => a.f().contains_key(p) && exists|e: I, o: HalfEdgeImpl| #[trigger] edge_like(a, b, im, e, Some(o)) && a.h().contains_key(e) && face_lost(a, b, im, e, o, p),
        _ => false,
    }
}
impl HalfEdgeMeshImpl {
//@fn src/mesh/mesh/basics.rs trait MeshBasics :: is_trivially_isomorphic_ex
//@generics <F1: Fn(&HalfEdgeVertexImpl, &HalfEdgeVertexImpl) -> bool, F2: Fn(&HalfEdgeImpl, &HalfEdgeImpl) -> bool, F3: Fn(&HalfEdgeFaceImpl, &HalfEdgeFaceImpl) -> bool>
//@where
//@ret r
        requires self.valid(), other.valid(),
            forall|x: &HalfEdgeVertexImpl, y: &HalfEdgeVertexImpl| #[trigger] compare_vertex.requires((x, y)),
            forall|x: &HalfEdgeImpl, y: &HalfEdgeImpl| #[trigger] compare_edge.requires((x, y)),
            forall|x: &HalfEdgeFaceImpl, y: &HalfEdgeFaceImpl| #[trigger] compare_face.requires((x, y)),
        ensures r is Equivalent ==> trivially(*self, *other, compare_vertex, compare_edge, compare_face),
            !(r is Equivalent) ==> triv_differs(*self, *other, compare_vertex, compare_edge, compare_face, r),
//@pre
        let ghost (va, vb) = (live_seq::<HalfEdgeVertexImpl, I>(self.vertices.data@), live_seq::<HalfEdgeVertexImpl, I>(other.vertices.data@));
        let ghost (ea, eb) = (live_seq::<HalfEdgeImpl, I>(self.halfedges.data@), live_seq::<HalfEdgeImpl, I>(other.halfedges.data@));
        let ghost (fa, fb) = (live_seq::<HalfEdgeFaceImpl, I>(self.faces.data@), live_seq::<HalfEdgeFaceImpl, I>(other.faces.data@));
        proof { lemma_listed(self.vertices); lemma_listed(other.vertices); lemma_listed(self.halfedges); lemma_listed(other.halfedges); lemma_listed(self.faces); lemma_listed(other.faces); }
        let ghost mut gk = 0int;
//@loop 0
            invariant 0 <= gk <= va.len(), va.len() == vb.len(), zipped(it_0.rest(), va, vb, gk), agree(va, vb, gk),
                self.valid(), other.valid(), listing(va, self.v()), listing(vb, other.v()),
                forall|x: &HalfEdgeVertexImpl, y: &HalfEdgeVertexImpl| #[trigger] compare_vertex.requires((x, y)),
                forall|j: int| 0 <= j < gk ==> compare_vertex.ensures((& #[trigger] va[j], &vb[j]), true),
            ensures gk == va.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof { if gk < va.len() { lemma_zip(it_0.rest(), va, vb, gk);
                if va[gk].key() != vb[gk].key() { lemma_agree_stop(va, vb, self.v(), other.v(), gk); } } }
//@lend 0
            proof { gk = gk + 1; }
//@after 0
        proof { gk = 0; lemma_agree_all(va, vb, self.v(), other.v()); }
//@loop 1
            invariant 0 <= gk <= ea.len(), ea.len() == eb.len(), zipped(it_1.rest(), ea, eb, gk), agree(ea, eb, gk),
                self.valid(), other.valid(), listing(ea, self.h()), listing(eb, other.h()),
                forall|x: &HalfEdgeImpl, y: &HalfEdgeImpl| #[trigger] compare_edge.requires((x, y)),
                forall|j: int| 0 <= j < gk ==> ends_same(self.h(), other.h(), (#[trigger] ea[j]).id) && compare_edge.ensures((&ea[j], &eb[j]), true),
            ensures gk == ea.len(),
            decreases it_1.rest().len(),
//@lstart 1
            proof { if gk < ea.len() { lemma_zip(it_1.rest(), ea, eb, gk);
                lemma_at(*self, ea[gk]); lemma_at(*other, eb[gk]);
                if ea[gk].key() != eb[gk].key() { lemma_agree_stop(ea, eb, self.h(), other.h(), gk); } } }
//@lend 1
            proof { gk = gk + 1; }
//@after 1
        proof { gk = 0; lemma_agree_all(ea, eb, self.h(), other.h()); }
//@loop 2
            invariant 0 <= gk <= fa.len(), fa.len() == fb.len(), zipped(it_2.rest(), fa, fb, gk), agree(fa, fb, gk),
                self.valid(), other.valid(), listing(fa, self.f()), listing(fb, other.f()),
                forall|x: &HalfEdgeFaceImpl, y: &HalfEdgeFaceImpl| #[trigger] compare_face.requires((x, y)),
                forall|j: int| 0 <= j < gk ==> rotated(loop_ids(self.h(), #[trigger] fa[j]), loop_ids(other.h(), fb[j])) && compare_face.ensures((&fa[j], &fb[j]), true),
            ensures gk == fa.len(),
            decreases it_2.rest().len(),
//@lstart 2
            proof { if gk < fa.len() { lemma_zip(it_2.rest(), fa, fb, gk);
                assert(face_ok(self.h(), self.f(), fa[gk].id)); assert(face_ok(other.h(), other.f(), fb[gk].id));
                lemma_rot_len(loop_ids(self.h(), fa[gk]), loop_ids(other.h(), fb[gk]));
                if fa[gk].key() != fb[gk].key() { lemma_agree_stop(fa, fb, self.f(), other.f(), gk); } } }
//@lend 2
            proof { gk = gk + 1; }
//@loop 3
            invariant res_3@ + it_3.rest() == loop_ids(self.h(), *f),
            ensures res_3@ == loop_ids(self.h(), *f),
            decreases it_3.rest().len(),
//@lstart 3
            proof { lemma_drain(res_3@, it_3.rest()); }
//@loop 4
            invariant res_4@ + it_4.rest() == loop_ids(other.h(), *other_f),
            ensures res_4@ == loop_ids(other.h(), *other_f),
            decreases it_4.rest().len(),
//@lstart 4
            proof { lemma_drain(res_4@, it_4.rest()); }
//@post
        proof { if vx_ret is Equivalent { lemma_agree_all(va, vb, self.v(), other.v()); lemma_agree_all(ea, eb, self.h(), other.h()); lemma_agree_all(fa, fb, self.f(), other.f()); } }
//@endfn
//@fn src/mesh/mesh/basics.rs trait MeshBasics :: is_trivially_isomorphic
//@ret r
        requires self.valid(), other.valid(),
        ensures r is Equivalent ==> same_graph(*self, *other),
            !(r is Equivalent) ==> graph_differs(*self, *other, r),
//@endfn
//@fn src/mesh/mesh/basics.rs trait MeshBasics :: find_payload_isomorphism
//@generics <F: Fn(&HalfEdgeVertexImpl, &HalfEdgeVertexImpl) -> bool>
//@where
//@ret r
        requires self.valid(), other.valid(),
            forall|x: &HalfEdgeVertexImpl, y: &HalfEdgeVertexImpl| #[trigger] are_the_same.requires((x, y)),
        ensures r is Ok ==> matching(*self, *other, are_the_same, r->Ok_0.m()),
            r is Err ==> no_matching(*self, *other, are_the_same),
//@pre
        broadcast use vstd::std_specs::hash::group_hash_axioms;
        let ghost (va, vb) = (live_seq::<HalfEdgeVertexImpl, I>(self.vertices.data@), live_seq::<HalfEdgeVertexImpl, I>(other.vertices.data@));
        let ghost mut gk = 0int; let ghost mut gl = 0int;
        proof { lemma_listed(self.vertices); lemma_listed(other.vertices); }
//@loop 0
            invariant 0 <= gk <= va.len(), refs(it_0.rest()) == va.skip(gk), listing(va, self.v()), listing(vb, other.v()), self.valid(), other.valid(),
                vb == live_seq::<HalfEdgeVertexImpl, I>(other.vertices.data@),
                forall|x: &HalfEdgeVertexImpl, y: &HalfEdgeVertexImpl| #[trigger] are_the_same.requires((x, y)),
                matched(va, gk, *other, are_the_same, res.m(), used@),
            ensures gk == va.len(),
            decreases it_0.rest().len(),
//@lstart 0
            let ghost m0 = res.m(); let ghost u0 = used@;
            proof { assert(refs(it_0.rest()).len() == it_0.rest().len());
                if gk < va.len() { assert(va.skip(gk)[0] == va[gk]); assert(va.skip(gk).drop_first() =~= va.skip(gk + 1));
                    assert(refs(it_0.rest())[0] == va[gk]); assert(refs(it_0.rest().drop_first()) =~= refs(it_0.rest()).drop_first()); }
                gl = 0;
                if gk < va.len() {
                assert forall|w: I| #[trigger] other.v().contains_key(w) && are_the_same.ensures((&va[gk], &other.v()[w]), true) && u0.contains(w) implies no_matching(*self, *other, are_the_same) by {
                    let j = choose|j: int| 0 <= j < gk && m0[(#[trigger] va[j]).id] == w;
                    assert(va[j].key().ix() < va[gk].key().ix()); assert(self.v().contains_key(va[j].key()) && self.v().contains_key(va[gk].key()));
                    assert(shares(*self, *other, are_the_same, va[j].id, va[gk].id, w)); } } }
//@lend 0
            proof { lemma_matched(va, gk, *other, are_the_same, m0, u0, other.v()[res.m()[va[gk].id]]); gk = gk + 1; }
//@after 0
        proof { lemma_matching(va, *self, *other, are_the_same, res.m(), used@); }
//@loop 1
            invariant_except_break refs(it_1.rest()) == vb.skip(gl), res_1.is_none(),
            invariant 0 <= gl <= vb.len(), listing(vb, other.v()), 0 <= gk < va.len(), *v == va[gk],
                forall|x: &HalfEdgeVertexImpl, y: &HalfEdgeVertexImpl| #[trigger] are_the_same.requires((x, y)),
                res_1.is_none() ==> forall|j: int| 0 <= j < gl ==> are_the_same.ensures((v, & #[trigger] vb[j]), false),
                hit(*other, are_the_same, v, res_1),
            ensures res_1.is_none() ==> gl == vb.len(),
            decreases it_1.rest().len(),
//@lstart 1
            proof { assert(refs(it_1.rest()).len() == it_1.rest().len());
                if gl < vb.len() { assert(vb.skip(gl)[0] == vb[gl]); assert(vb.skip(gl).drop_first() =~= vb.skip(gl + 1));
                    assert(refs(it_1.rest())[0] == vb[gl]); assert(refs(it_1.rest().drop_first()) =~= refs(it_1.rest()).drop_first()); } }
//@lend 1
            proof { gl = gl + 1; }
//@endfn
//@fn src/mesh/mesh/basics.rs trait MeshBasics :: is_isomorphic
//@generics <F1: Fn(&HalfEdgeVertexImpl, &HalfEdgeVertexImpl) -> bool, F2: Fn(&HalfEdgeImpl, &HalfEdgeImpl) -> bool, F3: Fn(&HalfEdgeFaceImpl, &HalfEdgeFaceImpl) -> bool>
//@where
//@ret r
        requires self.valid(), other.valid(), total(*self, *other, iso.m()),
            forall|x: &HalfEdgeVertexImpl, y: &HalfEdgeVertexImpl| #[trigger] compare_vertex.requires((x, y)),
            forall|x: &HalfEdgeImpl, y: &HalfEdgeImpl| #[trigger] compare_edge.requires((x, y)),
            forall|x: &HalfEdgeFaceImpl, y: &HalfEdgeFaceImpl| #[trigger] compare_face.requires((x, y)),
        ensures r is Equivalent ==> isomorphic(*self, *other, iso.m(), compare_vertex, compare_edge, compare_face),
            !(r is Equivalent) ==> iso_differs(*self, *other, iso.m(), compare_vertex, compare_edge, compare_face, r),
//@pre
        let ghost (a, b, im) = (*self, *other, iso.m());
        let ghost va = live_seq::<HalfEdgeVertexImpl, I>(self.vertices.data@);
        let ghost mut gk = 0int; let ghost mut ge = 0int; let ghost mut gf = 0int;
        let ghost mut all: Seq<I> = Seq::empty(); let ghost mut cur: I = NONE; let ghost mut afs: Seq<I> = Seq::empty();
        let ghost mut gface: I = NONE; let ghost mut of: Seq<(I, Vec<I>)> = Seq::empty(); let ghost mut oe: HalfEdgeImpl = arbitrary();
        proof { lemma_listed(self.vertices); }
//@loop 0
            invariant self.valid(), other.valid(), total(*self, *other, im), im == iso.m(), a == *self, b == *other,
            forall|x: &HalfEdgeVertexImpl, y: &HalfEdgeVertexImpl| #[trigger] compare_vertex.requires((x, y)),
            forall|x: &HalfEdgeImpl, y: &HalfEdgeImpl| #[trigger] compare_edge.requires((x, y)),
            forall|x: &HalfEdgeFaceImpl, y: &HalfEdgeFaceImpl| #[trigger] compare_face.requires((x, y)),

                0 <= gk <= va.len(), refs(it_0.rest()) == va.skip(gk), listing(va, self.v()),
                forall|j: int| 0 <= j < gk ==> vert_done(a, b, im, compare_vertex, compare_edge, compare_face, (#[trigger] va[j]).id),
                edges_done(a, b, im, compare_edge, compare_face, edge_iso.m(), NONE), faces_done(a, b, im, compare_face, face_iso.m()),
                !edge_iso.m().contains_key(NONE),
            ensures gk == va.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof { assert(refs(it_0.rest()).len() == it_0.rest().len());
                if gk < va.len() { assert(va.skip(gk)[0] == va[gk]); assert(va.skip(gk).drop_first() =~= va.skip(gk + 1));
                    assert(refs(it_0.rest())[0] == va[gk]); assert(refs(it_0.rest().drop_first()) =~= refs(it_0.rest()).drop_first());
                    assert(self.v().contains_key(va[gk].key())); lemma_out(a, va[gk].id); assert(vert_ok(a.h(), a.v(), va[gk].id)); assert(vert_ok(b.h(), b.v(), im[va[gk].id]));
                    all = out_ids(a.h(), va[gk]); ge = 0;
                    gk = gk + 1; } }
//@loop 1
            invariant self.valid(), other.valid(), total(*self, *other, im), im == iso.m(), a == *self, b == *other,
            forall|x: &HalfEdgeVertexImpl, y: &HalfEdgeVertexImpl| #[trigger] compare_vertex.requires((x, y)),
            forall|x: &HalfEdgeImpl, y: &HalfEdgeImpl| #[trigger] compare_edge.requires((x, y)),
            forall|x: &HalfEdgeFaceImpl, y: &HalfEdgeFaceImpl| #[trigger] compare_face.requires((x, y)),

                1 <= gk <= va.len(), *v == va[gk - 1], v.own(a), im.contains_key(v.id), other_v == b.v()[im[v.id]], other_v.id == im[v.id], b.v().contains_key(im[v.id]),
                all == out_ids(a.h(), *v), forall|j: int| 0 <= j < all.len() ==> a.h().contains_key(#[trigger] all[j]) && a.h()[all[j]].origin_id == v.id,
                0 <= ge <= all.len(), it_1.inv(), *it_1.mesh == *self, it_1.todo() == all.skip(ge),
                forall|j: int| 0 <= j < ge ==> edge_done(a, b, im, compare_edge, compare_face, #[trigger] all[j]),
                edges_done(a, b, im, compare_edge, compare_face, edge_iso.m(), NONE), faces_done(a, b, im, compare_face, face_iso.m()),
                !edge_iso.m().contains_key(NONE),
            ensures ge == all.len(),
            decreases it_1.todo().len(),
//@lstart 1
            proof { if ge < all.len() { assert(all.skip(ge)[0] == all[ge]); assert(all.skip(ge).drop_first() =~= all.skip(ge + 1));
                cur = all[ge]; assert(link_ok(a.h(), cur)); lemma_at(a, a.h()[cur]); lemma_faces_at(a, a.h()[cur]); afs = face_list(a.h(), a.h()[cur]); gf = 0;
                ge = ge + 1;
                assert forall|r: Option<HalfEdgeImpl>| #[trigger] first_to(b.h(), out_ids(b.h(), b.v()[im[v.id]]), im[tgt(a.h(), cur)], r) implies edge_like(a, b, im, cur, r) && live_opt(b, r) by {
                    if let Some(o) = r { lemma_first_live(b, im[v.id], im[tgt(a.h(), cur)], o); } } } }
//@loop 2
            invariant other.valid(), b == *other, res_2@.len() <= face_list(b.h(), other_e).len(), it_2.rest() == face_list(b.h(), other_e).skip(res_2@.len() as int),
                all_live(b, face_list(b.h(), other_e)),
                listed(b, face_list(b.h(), other_e), res_2@),
            ensures res_2@.len() == face_list(b.h(), other_e).len(),
            decreases it_2.rest().len(),
//@lstart 2
            proof { let k = res_2@.len() as int; if k < face_list(b.h(), other_e).len() { assert(face_list(b.h(), other_e).skip(k)[0] == face_list(b.h(), other_e)[k]); assert(face_list(b.h(), other_e).skip(k).drop_first() =~= face_list(b.h(), other_e).skip(k + 1)); assert(b.f().contains_key(face_list(b.h(), other_e)[k])); assert(face_ok(b.h(), b.f(), face_list(b.h(), other_e)[k])); } }
//@loop 3
            invariant res_3@ + it_3.rest() == face_vs(b, f),
            ensures res_3@ == face_vs(b, f),
            decreases it_3.rest().len(),
//@lstart 3
            proof { lemma_drain(res_3@, it_3.rest()); }
//@loop 4
            invariant self.valid(), other.valid(), total(*self, *other, im), im == iso.m(), a == *self, b == *other,
            forall|x: &HalfEdgeVertexImpl, y: &HalfEdgeVertexImpl| #[trigger] compare_vertex.requires((x, y)),
            forall|x: &HalfEdgeImpl, y: &HalfEdgeImpl| #[trigger] compare_edge.requires((x, y)),
            forall|x: &HalfEdgeFaceImpl, y: &HalfEdgeFaceImpl| #[trigger] compare_face.requires((x, y)),

                0 <= gf <= afs.len(), it_4.rest() == afs.skip(gf), afs == face_list(a.h(), a.h()[cur]), a.h().contains_key(cur), e == a.h()[cur], e.id == cur,
                edge_like(a, b, im, cur, Some(other_e)), b.h().contains_key(other_e.id), b.h()[other_e.id] == other_e,
                forall|j: int| 0 <= j < gf ==> face_matched(a, b, im, compare_face, #[trigger] afs[j]),
                edges_done(a, b, im, compare_edge, compare_face, edge_iso.m(), cur), faces_done(a, b, im, compare_face, face_iso.m()),
                other_faces@.len() == face_list(b.h(), other_e).len(),
                all_live(b, face_list(b.h(), other_e)),
                listed(b, face_list(b.h(), other_e), other_faces@),
            ensures gf == afs.len(),
            decreases it_4.rest().len(),
//@lstart 4
            proof { if gf < afs.len() { assert(afs.skip(gf)[0] == afs[gf]); assert(afs.skip(gf).drop_first() =~= afs.skip(gf + 1));
                lemma_faces_at(a, a.h()[cur]); lemma_faces_at(b, other_e); gface = afs[gf]; assert(on_edge(a.h(), a.h()[cur], gface)); lemma_face_vs(a, gface); gf = gf + 1; } }
//@loop 5
            invariant res_5@.len() <= face_vs(a, face).len(), it_5.rest() == face_vs(a, face).skip(res_5@.len() as int), im == iso.m(),
                res_5@ == through(face_vs(a, face).take(res_5@.len() as int), im),
                forall|j: int| 0 <= j < face_vs(a, face).len() ==> im.contains_key(#[trigger] face_vs(a, face)[j]),
            ensures res_5@ == through(face_vs(a, face), im),
            decreases it_5.rest().len(),
//@lstart 5
            proof { let k = res_5@.len() as int; let w = face_vs(a, face); if k < w.len() { assert(w.skip(k)[0] == w[k]); assert(w.skip(k).drop_first() =~= w.skip(k + 1));
                assert(through(w.take(k + 1), im) =~= through(w.take(k), im).push(im[w[k]])); } else { assert(w.take(k) =~= w); } }
//@loop 6
            invariant_except_break !face_iso.m().contains_key(face),
                forall|j: int| 0 <= j < i_6 ==> !face_like(a, b, im, face, #[trigger] face_list(b.h(), other_e)[j]),
            invariant i_6 <= v_6@.len(), v_6@ == other_faces@, other_faces@.len() == face_list(b.h(), other_e).len(), self.valid(), other.valid(), a == *self, b == *other, im == iso.m(), a.f().contains_key(face),
                forall|x: &HalfEdgeFaceImpl, y: &HalfEdgeFaceImpl| #[trigger] compare_face.requires((x, y)),
                all_live(b, face_list(b.h(), other_e)),
                listed(b, face_list(b.h(), other_e), other_faces@),
                vs@ == through(face_vs(a, face), im), faces_done(a, b, im, compare_face, face_iso.m()),
            ensures !face_iso.m().contains_key(face) ==> forall|j: int| 0 <= j < face_list(b.h(), other_e).len() ==> !face_like(a, b, im, face, #[trigger] face_list(b.h(), other_e)[j]),
            decreases v_6@.len() - i_6,
//@lstart 6
            proof { assert(b.f().contains_key(face_list(b.h(), other_e)[i_6 as int])); assert(face_like(a, b, im, face, face_list(b.h(), other_e)[i_6 as int]) == rotated(vs@, other_faces@[i_6 as int].1@)); }
//@endfn
//@fn src/mesh/mesh/basics.rs trait MeshBasics :: is_isomorphic_by
//@generics <F: Fn(&HalfEdgeVertexImpl, &HalfEdgeVertexImpl) -> bool>
//@where
//@ret r
        requires self.valid(), other.valid(),
            forall|x: &HalfEdgeVertexImpl, y: &HalfEdgeVertexImpl| #[trigger] f.requires((x, y)),
        ensures r is Equivalent ==> exists|im: Map<I, I>| #[trigger] matching(*self, *other, f, im) && alike(*self, *other, im),
            r is NoCorrespondingVertex ==> no_matching(*self, *other, f),
            !(r is Equivalent) && !(r is NoCorrespondingVertex) ==> exists|im: Map<I, I>| #[trigger] matching(*self, *other, f, im) && unlike(*self, *other, im, r),
//@endfn
}
