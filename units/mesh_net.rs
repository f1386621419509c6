// NetworkScience: adjacency, degree and Laplacian matrices
//@types Self=Self; T=_; S=S; T::S=S; S::ZERO=S::zero(); S::ONE=S::one(); Scalar::ZERO=S::zero(); IndexType=<I as IndexType>; nalgebra::DMatrix=DMatrix; nalgebra::DMatrix<S>=DMatrix; nalgebra::DMatrix<T::S>=DMatrix
use std::collections::HashMap;
//@known vx_pairs adjacency_matrix adjacency_matrix_euclidean degrees degree_matrix laplacian has_consecutive_vertex_ids pos distance

trait MapX { spec fn pairs(self) -> Map<I, usize>; fn vx_pairs(self) -> GIter<(I, usize)>; }
impl MapX for HashMap<I, usize> {
    spec fn pairs(self) -> Map<I, usize> { self@ }
    /// the entries of the map as a list (in some order)
    #[verifier::external_body]
    fn vx_pairs(self) -> (r: GIter<(I, usize)>)
        ensures entries(r.rest(), self@),
    { unimplemented!() }
}
/// every entry of the map once
spec fn entries(r: Seq<(I, usize)>, m: Map<I, usize>) -> bool {
    &&& forall|k: int| 0 <= k < r.len() ==> m.contains_key((#[trigger] r[k]).0) && m[r[k].0] == r[k].1
    &&& forall|x: I| #[trigger] m.contains_key(x) ==> exists|k: int| 0 <= k < r.len() && (#[trigger] r[k]).0 == x
    &&& forall|k: int, l: int| 0 <= k < l < r.len() ==> (#[trigger] r[k]).0 != (#[trigger] r[l]).0
}
/// nalgebra's matrix
pub struct DMatrix { x: f64 }
impl DMatrix {
    pub uninterp spec fn rows(self) -> int;
    pub uninterp spec fn cols(self) -> int;
    pub uninterp spec fn at(self, i: int, j: int) -> real;
    #[verifier::external_body]
    fn from_element(r: usize, c: usize, x: S) -> (m: DMatrix)
        ensures m.rows() == r, m.cols() == c, forall|i: int, j: int| #[trigger] m.at(i, j) == x.v(),
    { unimplemented!() }
    #[verifier::external_body]
    fn at2_mut(&mut self, k: (usize, usize)) -> (r: &mut S)
        requires k.0 < old(self).rows(), k.1 < old(self).cols(),
        ensures (*r).v() == old(self).at(k.0 as int, k.1 as int), final(self).rows() == old(self).rows(), final(self).cols() == old(self).cols(),
            forall|i: int, j: int| #[trigger] final(self).at(i, j) == (if i == k.0 && j == k.1 { (*final(r)).v() } else { old(self).at(i, j) }),
    { unimplemented!() }
    pub open spec fn minus(self, a: DMatrix, b: DMatrix) -> bool {
        self.rows() == a.rows() && self.cols() == a.cols() && forall|i: int, j: int| #[trigger] self.at(i, j) == a.at(i, j) - b.at(i, j)
    }
}
impl SubSpecImpl for DMatrix { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: DMatrix) -> bool { self.rows() == o.rows() && self.cols() == o.cols() } open spec fn sub_spec(self, o: DMatrix) -> DMatrix { arbitrary() } }
impl core::ops::Sub for DMatrix { type Output = DMatrix;
    #[verifier::external_body]
    fn sub(self, o: DMatrix) -> (r: DMatrix) ensures r.minus(self, o), { unimplemented!() } }
/// positions: opaque points with a symmetric distance
pub struct Pt { x: f64 }
pub uninterp spec fn dist(a: Pt, b: Pt) -> real;
#[verifier::external_body]
broadcast proof fn dist_sym(a: Pt, b: Pt)
    ensures #[trigger] dist(a, b) == dist(b, a),
{}
impl Pt {
    #[verifier::external_body]
    fn distance(&self, o: &Pt) -> (r: S)
        ensures r.v() == dist(*self, *o),
    { unimplemented!() }
}
impl HalfEdgeVertexImpl {
    pub uninterp spec fn spos(self) -> Pt;
    #[verifier::external_body]
    fn pos(&self) -> (r: &Pt)
        ensures *r == self.spos(),
    { unimplemented!() }
}
//@include mesh_listed.rs
/// some half-edge leads from x to y
spec fn linked(m: HalfEdgeMeshImpl, x: int, y: int) -> bool { exists|e: I| #[trigger] m.h().contains_key(e) && joins(m.h(), e, x, y) }
spec fn joins(h: HMap, e: I, x: int, y: int) -> bool { h[e].origin_id.ix() == x && tgt(h, e).ix() == y }
/// the first n edges of the list contain one between x and y
spec fn linked_in(h: HMap, es: Seq<HalfEdgeImpl>, n: int, x: int, y: int) -> bool { exists|k: int| 0 <= k < n && joins(h, (#[trigger] es[k]).id, x, y) }
/// vertex handles are 0, 1, 2, ...
spec fn consecutive(m: HalfEdgeMeshImpl) -> bool { forall|x: I| #[trigger] m.v().contains_key(x) == (0 <= x.ix() < m.vertices.in_use()) }
spec fn far(m: HalfEdgeMeshImpl, x: int, y: int) -> real { dist(m.v()[x as I].spos(), m.v()[y as I].spos()) }
spec fn vseq(m: HalfEdgeMeshImpl) -> Seq<HalfEdgeVertexImpl> { live_seq::<HalfEdgeVertexImpl, I>(m.vertices.data@) }
spec fn eseq(m: HalfEdgeMeshImpl) -> Seq<HalfEdgeImpl> { live_seq::<HalfEdgeImpl, I>(m.halfedges.data@) }
spec fn vdeg(m: HalfEdgeMeshImpl, x: I) -> int { out_ids(m.h(), m.v()[x]).len() as int }
spec fn square(r: DMatrix, n: int) -> bool { r.rows() == n && r.cols() == n }
proof fn lemma_numbered(m: HalfEdgeMeshImpl, k: int)
    requires m.valid(), 0 <= k < vseq(m).len(), consecutive(m), forall|j: int| 0 <= j < k ==> (#[trigger] vseq(m)[j]).id.ix() == j,
    ensures vseq(m)[k].id.ix() == k,
{
    let s = vseq(m);
    lemma_listed::<HalfEdgeVertexImpl>(m.vertices);
    let x = s[k].key();
    assert(m.v().contains_key(x));
    I::ix_inj(x, x);
    if x.ix() < k { assert(s[x.ix()].id.ix() == x.ix()); assert(s[x.ix()].key().ix() < s[k].key().ix()); }
    if x.ix() > k {
        let y = k as I;
        I::ix_inj(y, y);
        assert(y.ix() == k);
        assert(m.v().contains_key(y));
        let p = choose|p: int| 0 <= p < s.len() && (#[trigger] s[p]).key() == y;
        if p < k { assert(s[p].id.ix() == p); } else if p > k { assert(s[k].key().ix() < s[p].key().ix()); }
    }
}
proof fn lemma_linked_in(h: HMap, es: Seq<HalfEdgeImpl>, n: int)
    requires 0 <= n < es.len(),
    ensures forall|x: int, y: int| #[trigger] linked_in(h, es, n + 1, x, y) == (linked_in(h, es, n, x, y) || joins(h, es[n].id, x, y)),
{
    assert forall|x: int, y: int| #[trigger] linked_in(h, es, n + 1, x, y) == (linked_in(h, es, n, x, y) || joins(h, es[n].id, x, y)) by {
        if linked_in(h, es, n, x, y) { let k = choose|k: int| 0 <= k < n && joins(h, (#[trigger] es[k]).id, x, y); assert(joins(h, es[k].id, x, y)); }
        if joins(h, es[n].id, x, y) { assert(joins(h, es[n].id, x, y)); }
    }
}
proof fn lemma_linked_all(m: HalfEdgeMeshImpl)
    requires m.valid(),
    ensures forall|x: int, y: int| #[trigger] linked_in(m.h(), eseq(m), eseq(m).len() as int, x, y) == linked(m, x, y),
        forall|x: int, y: int| #[trigger] linked(m, x, y) == linked(m, y, x),
{
    let (h, es) = (m.h(), eseq(m));
    lemma_listed::<HalfEdgeImpl>(m.halfedges);
    assert forall|x: int, y: int| #[trigger] linked_in(h, es, es.len() as int, x, y) == linked(m, x, y) by {
        if linked_in(h, es, es.len() as int, x, y) { let k = choose|k: int| 0 <= k < es.len() && joins(h, (#[trigger] es[k]).id, x, y); assert(h.contains_key(es[k].key())); }
        if linked(m, x, y) { let e = choose|e: I| #[trigger] h.contains_key(e) && joins(h, e, x, y); let k = choose|k: int| 0 <= k < es.len() && (#[trigger] es[k]).key() == e; assert(joins(h, es[k].id, x, y)); }
    }
    assert forall|x: int, y: int| linked(m, x, y) implies linked(m, y, x) by { lemma_turn(m, x, y); }
    assert forall|x: int, y: int| #[trigger] linked(m, x, y) == linked(m, y, x) by { if linked(m, x, y) { lemma_turn(m, x, y); } else if linked(m, y, x) { lemma_turn(m, y, x); } }
}
proof fn lemma_turn(m: HalfEdgeMeshImpl, x: int, y: int)
    requires m.valid(), linked(m, x, y),
    ensures linked(m, y, x),
{
    let h = m.h();
    let e = choose|e: I| #[trigger] h.contains_key(e) && joins(h, e, x, y);
    assert(link_ok(h, e)); assert(twin_ok(h, e)); assert(edge_ok(h, m.v(), m.f(), e));
    let t = h[e].twin;
    assert(link_ok(h, t)); assert(twin_ok(h, t)); assert(edge_ok(h, m.v(), m.f(), t)); assert(edge_ok(h, m.v(), m.f(), h[e].next));
    assert(h.contains_key(t) && joins(h, t, y, x));
}
/// manifold: the edges at a vertex form a single fan; simple: no two of them lead to the same vertex
spec fn fans(m: HalfEdgeMeshImpl) -> bool { forall|e: I| #[trigger] m.h().contains_key(e) ==> out_ids(m.h(), m.v()[m.h()[e].origin_id]).contains(e) }
spec fn simple(m: HalfEdgeMeshImpl) -> bool { forall|x: I| #[trigger] m.v().contains_key(x) ==> ends(m, x).no_duplicates() }
spec fn ends(m: HalfEdgeMeshImpl, x: I) -> Seq<int> { out_ids(m.h(), m.v()[x]).map_values(|e: I| tgt(m.h(), e).ix()) }
/// the degree of every vertex once
spec fn degree_list(r: Seq<(I, usize)>, m: HalfEdgeMeshImpl) -> bool {
    &&& forall|k: int| 0 <= k < r.len() ==> m.v().contains_key((#[trigger] r[k]).0) && r[k].1 == vdeg(m, r[k].0)
    &&& forall|x: I| #[trigger] m.v().contains_key(x) ==> exists|k: int| 0 <= k < r.len() && (#[trigger] r[k]).0 == x
    &&& forall|k: int, l: int| 0 <= k < l < r.len() ==> (#[trigger] r[k]).0 != (#[trigger] r[l]).0
}
spec fn degree_map(d: Map<I, usize>, vs: Seq<HalfEdgeVertexImpl>, n: int, m: HalfEdgeMeshImpl) -> bool {
    &&& forall|x: I| #[trigger] d.contains_key(x) ==> m.v().contains_key(x) && d[x] == vdeg(m, x)
    &&& forall|j: int| 0 <= j < n ==> d.contains_key((#[trigger] vs[j]).id)
}
spec fn seen(r: Seq<(I, usize)>, n: int, x: int) -> bool { exists|k: int| 0 <= k < n && (#[trigger] r[k]).0.ix() == x }
spec fn row_sum(r: DMatrix, i: int, n: int) -> real
    decreases n,
{
    if n <= 0 { 0real } else { row_sum(r, i, n - 1) + r.at(i, n - 1) }
}
spec fn deg_at(m: HalfEdgeMeshImpl, x: int, y: int) -> real { if x == y && 0 <= x < m.vertices.in_use() { vdeg(m, x as I) as real } else { 0real } }
spec fn link_at(m: HalfEdgeMeshImpl, x: int, y: int) -> real { if linked(m, x, y) { 1real } else { 0real } }
/// how many of the numbers below n are in u
spec fn below(u: Set<int>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { below(u, n - 1) + (if u.contains(n - 1) { 1int } else { 0int }) }
}
proof fn lemma_below(u: Set<int>, n: int)
    requires n >= 0, forall|i: int| #[trigger] u.contains(i) ==> 0 <= i < n,
    ensures below(u, n) == u.len(),
    decreases n,
{
    broadcast use vstd::set::group_set_lemmas;
    if n == 0 { assert(u =~= Set::<int>::empty()); } else {
        let w = u.remove(n - 1);
        lemma_below(w, n - 1);
        lemma_below_same(u, w, n - 1);
    }
}
proof fn lemma_below_same(u: Set<int>, w: Set<int>, n: int)
    requires forall|i: int| 0 <= i < n ==> u.contains(i) == w.contains(i),
    ensures below(u, n) == below(w, n),
    decreases n,
{
    if n > 0 { lemma_below_same(u, w, n - 1); }
}
/// what the first n entries of a row of the Laplacian add up to
proof fn lemma_row(m: HalfEdgeMeshImpl, r: DMatrix, x: I, u: Set<int>, n: int)
    requires forall|y: int| #[trigger] r.at(x.ix(), y) == deg_at(m, x.ix(), y) - link_at(m, x.ix(), y), forall|y: int| #[trigger] linked(m, x.ix(), y) == u.contains(y),
        0 <= n <= m.vertices.in_use(), x.ix() as I == x,
    ensures row_sum(r, x.ix(), n) == (if x.ix() < n && 0 <= x.ix() { vdeg(m, x) as real } else { 0real }) - below(u, n) as real,
    decreases n,
{
    if n > 0 {
        lemma_row(m, r, x, u, n - 1);
        assert(r.at(x.ix(), n - 1) == deg_at(m, x.ix(), n - 1) - link_at(m, x.ix(), n - 1));
        assert(linked(m, x.ix(), n - 1) == u.contains(n - 1));
    }
}
spec fn is_laplacian(m: HalfEdgeMeshImpl, r: DMatrix) -> bool {
    square(r, m.vertices.in_use() as int) && forall|x: int, y: int| #[trigger] r.at(x, y) == deg_at(m, x, y) - link_at(m, x, y)
}
proof fn lemma_zero(m: HalfEdgeMeshImpl, r: DMatrix)
    requires m.valid(), consecutive(m), fans(m), simple(m), is_laplacian(m, r),
    ensures forall|x: int| 0 <= x < m.vertices.in_use() ==> #[trigger] row_sum(r, x, m.vertices.in_use() as int) == 0real,
{
    broadcast use vstd::set::group_set_lemmas;
    let n = m.vertices.in_use() as int;
    let h = m.h();
    assert forall|x: int| 0 <= x < n implies #[trigger] row_sum(r, x, n) == 0real by {
        let v = x as I;
        lemma_index(m, x);
        lemma_out(m, v);
        let es = out_ids(h, m.v()[v]);
        let s = ends(m, v);
        let u = s.to_set();
        s.unique_seq_to_set();
        assert forall|y: int| #[trigger] linked(m, x, y) == u.contains(y) by {
            if linked(m, x, y) {
                let e = choose|e: I| #[trigger] h.contains_key(e) && joins(h, e, x, y);
                I::ix_inj(h[e].origin_id, v);
                assert(out_ids(h, m.v()[h[e].origin_id]).contains(e));
                let k = choose|k: int| 0 <= k < es.len() && es[k] == e;
                assert(s[k] == y);
                assert(s.contains(y));
            }
            if u.contains(y) {
                assert(s.contains(y));
                let k = choose|k: int| 0 <= k < s.len() && s[k] == y;
                assert(h.contains_key(es[k]) && joins(h, es[k], x, y));
            }
        }
        assert forall|i: int| #[trigger] u.contains(i) implies 0 <= i < n by {
            assert(linked(m, x, i) == u.contains(i));
            let e = choose|e: I| #[trigger] h.contains_key(e) && joins(h, e, x, i);
            assert(link_ok(h, e)); assert(edge_ok(h, m.v(), m.f(), h[e].next));
            assert(m.v().contains_key(tgt(h, e)));
        }
        lemma_below(u, n);
        lemma_row(m, r, v, u, n);
    }
}
proof fn lemma_index(m: HalfEdgeMeshImpl, x: int)
    requires m.valid(), consecutive(m), 0 <= x < m.vertices.in_use(),
    ensures (x as I).ix() == x, m.v().contains_key(x as I),
{
    let n = m.vertices.in_use() as int;
    lemma_listed::<HalfEdgeVertexImpl>(m.vertices);
    let y = x as I;
    I::ix_inj(y, y);
}
impl HalfEdgeMeshImpl {
//@fn src/mesh/mesh/basics.rs trait MeshBasics :: has_consecutive_vertex_ids
//@ret r
        requires self.valid(),
        ensures r == consecutive(*self),
//@pre
        let ghost m = *self; let ghost vs = vseq(m); let ghost mut gk = 0int;
        proof { lemma_listed::<HalfEdgeVertexImpl>(m.vertices); }
//@loop 0
            invariant
                m.valid(), m == *self, vs == vseq(m), 0 <= gk <= vs.len(), refs(it_0.rest()) == vs.skip(gk), last_id == gk, listing(vs, m.v()),
                vs.len() == m.vertices.in_use(),
                forall|j: int| 0 <= j < gk ==> (#[trigger] vs[j]).id.ix() == j,
            ensures gk == vs.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof { assert(refs(it_0.rest()).len() == it_0.rest().len());
                if gk < vs.len() {
                    assert(vs.skip(gk)[0] == vs[gk]); assert(vs.skip(gk).drop_first() =~= vs.skip(gk + 1));
                    assert(refs(it_0.rest())[0] == vs[gk]); assert(refs(it_0.rest().drop_first()) =~= refs(it_0.rest()).drop_first());
                    if consecutive(m) { lemma_numbered(m, gk); }
                    gk = gk + 1;
                }
            }
//@after 0
        proof {
            assert forall|x: I| #[trigger] m.v().contains_key(x) == (0 <= x.ix() < m.vertices.in_use()) by {
                if m.v().contains_key(x) { let j = choose|j: int| 0 <= j < vs.len() && (#[trigger] vs[j]).key() == x; assert(vs[j].id.ix() == j); }
                if 0 <= x.ix() < vs.len() { let j = x.ix(); assert(vs[j].id.ix() == j); I::ix_inj(x, vs[j].id); assert(m.v().contains_key(vs[j].key())); }
            }
        }
//@endfn
//@fn src/mesh/mesh/netsci.rs trait NetworkScience :: adjacency_matrix
//@generics
//@indexed adj
//@ret r
        requires self.valid(), consecutive(*self),
        ensures square(r, self.vertices.in_use() as int),
            forall|x: int, y: int| #[trigger] r.at(x, y) == (if linked(*self, x, y) { 1real } else { 0real }),
//@pre
        let ghost m = *self; let ghost h = m.h(); let ghost es = eseq(m); let ghost nn = m.vertices.in_use() as int; let ghost mut gk = 0int;
        proof { lemma_listed::<HalfEdgeImpl>(m.halfedges); lemma_linked_all(m); }
//@loop 0
            invariant
                m.valid(), m == *self, h == m.h(), es == eseq(m), nn == m.vertices.in_use(), consecutive(m), listing(es, h),
                0 <= gk <= es.len(), refs(it_0.rest()) == es.skip(gk), square(adj, nn),
                forall|x: int, y: int| #[trigger] adj.at(x, y) == (if linked_in(h, es, gk, x, y) || linked_in(h, es, gk, y, x) { 1real } else { 0real }),
            ensures gk == es.len(),
            decreases it_0.rest().len(),
//@lstart 0
            let ghost a0 = adj;
            proof { assert(refs(it_0.rest()).len() == it_0.rest().len());
                if gk < es.len() {
                    assert(es.skip(gk)[0] == es[gk]); assert(es.skip(gk).drop_first() =~= es.skip(gk + 1));
                    assert(refs(it_0.rest())[0] == es[gk]); assert(refs(it_0.rest().drop_first()) =~= refs(it_0.rest()).drop_first());
                    lemma_linked_in(h, es, gk);
                    assert(h.contains_key(es[gk].key()) && h[es[gk].key()] == es[gk]);
                    let e = es[gk].id;
                    assert(link_ok(h, e)); assert(edge_ok(h, m.v(), m.f(), e)); assert(edge_ok(h, m.v(), m.f(), h[e].next));
                    assert(vert_ok(h, m.v(), h[e].origin_id)); assert(vert_ok(h, m.v(), tgt(h, e)));
                    gk = gk + 1;
                }
            }
//@endfn
//@fn src/mesh/mesh/netsci.rs trait NetworkScience :: adjacency_matrix_euclidean
//@generics
//@where
//@indexed adj
//@ret r
        requires self.valid(), consecutive(*self),
        ensures square(r, self.vertices.in_use() as int),
            forall|x: int, y: int| #[trigger] r.at(x, y) == (if linked(*self, x, y) { far(*self, x, y) } else { 0real }),
//@pre
        let ghost m = *self; let ghost h = m.h(); let ghost es = eseq(m); let ghost nn = m.vertices.in_use() as int; let ghost mut gk = 0int;
        broadcast use dist_sym;
        proof { lemma_listed::<HalfEdgeImpl>(m.halfedges); lemma_linked_all(m); }
//@loop 0
            invariant
                m.valid(), m == *self, h == m.h(), es == eseq(m), nn == m.vertices.in_use(), consecutive(m), listing(es, h),
                0 <= gk <= es.len(), refs(it_0.rest()) == es.skip(gk), square(adj, nn),
                forall|x: int, y: int| #[trigger] adj.at(x, y) == (if linked_in(h, es, gk, x, y) || linked_in(h, es, gk, y, x) { far(m, x, y) } else { 0real }),
            ensures gk == es.len(),
            decreases it_0.rest().len(),
//@lstart 0
            let ghost a0 = adj; let ghost g0 = gk;
            proof { assert(refs(it_0.rest()).len() == it_0.rest().len());
                if gk < es.len() {
                    assert(es.skip(gk)[0] == es[gk]); assert(es.skip(gk).drop_first() =~= es.skip(gk + 1));
                    assert(refs(it_0.rest())[0] == es[gk]); assert(refs(it_0.rest().drop_first()) =~= refs(it_0.rest()).drop_first());
                    lemma_linked_in(h, es, gk);
                    assert(h.contains_key(es[gk].key()) && h[es[gk].key()] == es[gk]);
                    let e = es[gk].id;
                    assert(link_ok(h, e)); assert(edge_ok(h, m.v(), m.f(), e)); assert(edge_ok(h, m.v(), m.f(), h[e].next));
                    assert(vert_ok(h, m.v(), h[e].origin_id)); assert(vert_ok(h, m.v(), tgt(h, e)));
                    I::ix_inj(h[e].origin_id, h[e].origin_id.ix() as I); I::ix_inj(tgt(h, e), tgt(h, e).ix() as I); I::ix_inj(h[e].origin_id, h[e].origin_id); I::ix_inj(tgt(h, e), tgt(h, e));
                    gk = gk + 1;
                }
            }
//@lend 0
            proof {
                let e = es[g0].id; let (i, j) = (h[e].origin_id.ix(), tgt(h, e).ix());
                assert(h.contains_key(es[g0].key()));
                dist_sym(m.v()[h[e].origin_id].spos(), m.v()[tgt(h, e)].spos());
                assert(far(m, i, j) == dist(m.v()[h[e].origin_id].spos(), m.v()[tgt(h, e)].spos()));
                assert(far(m, j, i) == dist(m.v()[tgt(h, e)].spos(), m.v()[h[e].origin_id].spos()));
                assert forall|x: int, y: int| #[trigger] adj.at(x, y) == (if linked_in(h, es, gk, x, y) || linked_in(h, es, gk, y, x) { far(m, x, y) } else { 0real }) by {
                    assert(a0.at(x, y) == (if linked_in(h, es, g0, x, y) || linked_in(h, es, g0, y, x) { far(m, x, y) } else { 0real }));
                    assert(linked_in(h, es, g0 + 1, x, y) == (linked_in(h, es, g0, x, y) || joins(h, e, x, y)));
                    assert(linked_in(h, es, g0 + 1, y, x) == (linked_in(h, es, g0, y, x) || joins(h, e, y, x)));
                    if x == i && y == j { assert(adj.at(x, y) == far(m, x, y)); }
                    else if x == j && y == i { assert(adj.at(x, y) == far(m, x, y)); }
                    else { assert(adj.at(x, y) == a0.at(x, y)); }
                }
            }
//@endfn
//@fn src/mesh/mesh/netsci.rs trait NetworkScience :: degrees
//@ret r
        requires self.valid(),
        ensures degree_list(r.rest(), *self),
//@pre
        broadcast use vstd::std_specs::hash::group_hash_axioms;
        let ghost m = *self; let ghost vs = vseq(m); let ghost mut gk = 0int;
        proof { lemma_listed::<HalfEdgeVertexImpl>(m.vertices); }
//@loop 0
            invariant
                m.valid(), m == *self, vs == vseq(m), listing(vs, m.v()), 0 <= gk <= vs.len(), refs(it_0.rest()) == vs.skip(gk), degree_map(degrees@, vs, gk, m),
            ensures gk == vs.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof { assert(refs(it_0.rest()).len() == it_0.rest().len());
                if gk < vs.len() {
                    assert(vs.skip(gk)[0] == vs[gk]); assert(vs.skip(gk).drop_first() =~= vs.skip(gk + 1));
                    assert(refs(it_0.rest())[0] == vs[gk]); assert(refs(it_0.rest().drop_first()) =~= refs(it_0.rest()).drop_first());
                    assert(m.v().contains_key(vs[gk].key()) && m.v()[vs[gk].key()] == vs[gk]);
                    gk = gk + 1;
                }
            }
//@post
        proof {
            assert forall|x: I| #[trigger] m.v().contains_key(x) implies exists|k: int| 0 <= k < vx_ret.rest().len() && (#[trigger] vx_ret.rest()[k]).0 == x by {
                let j = choose|j: int| 0 <= j < vs.len() && (#[trigger] vs[j]).key() == x;
                assert(vs[j].id == x);
            }
        }
//@endfn
//@fn src/mesh/mesh/netsci.rs trait NetworkScience :: degree_matrix
//@generics
//@indexed deg
//@ret r
        requires self.valid(), consecutive(*self),
        ensures square(r, self.vertices.in_use() as int),
            forall|x: int, y: int| #[trigger] r.at(x, y) == deg_at(*self, x, y),
//@pre
        let ghost m = *self; let ghost nn = m.vertices.in_use() as int; let ghost mut gk = 0int; let ghost mut all: Seq<(I, usize)> = Seq::empty();
//@aftercall degrees 0
        proof { all = it_0.rest(); }
//@loop 0
            invariant
                m.valid(), m == *self, nn == m.vertices.in_use(), consecutive(m), degree_list(all, m), 0 <= gk <= all.len(), it_0.rest() == all.skip(gk), square(deg, nn),
                forall|x: int, y: int| #[trigger] deg.at(x, y) == (if x == y && seen(all, gk, x) { vdeg(m, x as I) as real } else { 0real }),
            ensures gk == all.len(),
            decreases it_0.rest().len(),
//@lstart 0
            proof {
                if gk < all.len() {
                    assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1));
                    let v = all[gk].0;
                    assert(m.v().contains_key(v));
                    lemma_index(m, v.ix());
                    I::ix_inj(v, v.ix() as I);
                    assert forall|x: int| #[trigger] seen(all, gk + 1, x) == (seen(all, gk, x) || x == v.ix()) by {
                        if seen(all, gk, x) { let k = choose|k: int| 0 <= k < gk && (#[trigger] all[k]).0.ix() == x; assert(all[k].0.ix() == x); }
                    }
                    gk = gk + 1;
                }
            }
//@after 0
        proof {
            assert forall|x: int, y: int| #[trigger] deg.at(x, y) == deg_at(m, x, y) by {
                if seen(all, all.len() as int, x) { let k = choose|k: int| 0 <= k < all.len() && (#[trigger] all[k]).0.ix() == x; assert(m.v().contains_key(all[k].0)); }
                if 0 <= x < nn { lemma_index(m, x); let k = choose|k: int| 0 <= k < all.len() && (#[trigger] all[k]).0 == x as I; assert(all[k].0.ix() == x); assert(seen(all, all.len() as int, x)); }
            }
        }
//@endfn
//@fn src/mesh/mesh/netsci.rs trait NetworkScience :: laplacian
//@generics
//@ret r
        requires self.valid(), consecutive(*self),
        ensures is_laplacian(*self, r),
            fans(*self) && simple(*self) ==> forall|x: int| 0 <= x < self.vertices.in_use() ==> #[trigger] row_sum(r, x, self.vertices.in_use() as int) == 0real,
//@post
        proof { if fans(*self) && simple(*self) { lemma_zero(*self, vx_ret); } }
//@endfn
//@fn src/mesh/mesh/netsci.rs trait NetworkScience :: laplacian_euclidean
//@generics
//@where
//@ret r
        requires self.valid(), consecutive(*self),
        ensures square(r, self.vertices.in_use() as int),
            forall|x: int, y: int| #[trigger] r.at(x, y) == deg_at(*self, x, y) - (if linked(*self, x, y) { far(*self, x, y) } else { 0real }),
//@endfn
}
