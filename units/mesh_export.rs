// Exporting the buffers of a mesh.

impl Clone for VP {
    #[verifier::external_body]
    fn clone(&self) -> (r: VP)
        ensures r == *self,
    { unimplemented!() }
}
/// a payload without its normal
uninterp spec fn sans_normal(p: VP) -> int;
uninterp spec fn normal_of(p: VP) -> V3;
impl Copy for V3 {}
impl Clone for V3 {
    #[verifier::external_body]
    fn clone(&self) -> (r: V3)
        ensures r == *self,
    { unimplemented!() }
}
impl VP {
    #[verifier::external_body]
    fn set_normal(&mut self, n: V3)
        ensures sans_normal(*final(self)) == sans_normal(*old(self)), normal_of(*final(self)) == n,
    { unimplemented!() }
}
impl HalfEdgeMeshImpl {
    /// no gaps in the vertex table
    spec fn dense(self) -> bool { self.vertices.deleted@.len() == 0 }
    spec fn face_seq(self) -> Seq<HalfEdgeFaceImpl> { live_seq::<HalfEdgeFaceImpl, I>(self.faces.data@) }
}
/// number of corners of the first k faces
spec fn corner_count(m: HalfEdgeMeshImpl, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { corner_count(m, k - 1) + corner_ids(m, m.face_seq()[k - 1]).len() }
}
/// n - 2 triangles for each of the first k faces
spec fn tri_count(m: HalfEdgeMeshImpl, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { tri_count(m, k - 1) + corner_ids(m, m.face_seq()[k - 1]).len() - 2 }
}
/// `b` lists, face by face, a triangulation of each of the first k faces over its own corners
spec fn exported(m: HalfEdgeMeshImpl, k: int, b: Seq<I>, alg: TriangulationAlgorithm) -> bool
    decreases k,
{
    if k <= 0 { b.len() == 0 } else {
        exists|a: Seq<I>| exported(m, k - 1, a, alg) && #[trigger] added_by(a, b, corner_ids(m, m.face_seq()[k - 1]), alg)
    }
}
/// all faces have a size the algorithms take, and the buffers fit into memory
spec fn sizes_ok(m: HalfEdgeMeshImpl) -> bool {
    &&& forall|k: int| 0 <= k < m.face_seq().len() ==> size_ok(corner_ids(m, #[trigger] m.face_seq()[k]).len() as int)
    &&& 3 * corner_count(m, m.face_seq().len() as int) + 6 <= usize::MAX
}
proof fn lemma_flat_member(l: Seq<T3>, ids: Seq<I>, q: int)
    requires corners_ok(l, 0, ids.len() - 1), 0 <= q < flat(l, ids).len(),
    ensures ids.contains(flat(l, ids)[q]),
    decreases l.len(),
{
    if l.len() > 0 {
        let t = l[l.len() - 1];
        assert(corner_ok(t, 0, ids.len() - 1));
        let f = flat(l.drop_last(), ids);
        if q < f.len() {
            assert forall|x: int| 0 <= x < l.drop_last().len() implies corner_ok(#[trigger] l.drop_last()[x], 0, ids.len() - 1) by { assert(l.drop_last()[x] == l[x]); }
            lemma_flat_member(l.drop_last(), ids, q);
        } else {
            assert(ids.contains(ids[t.0]) && ids.contains(ids[t.1]) && ids.contains(ids[t.2]));
        }
    }
}
proof fn lemma_rev_ok(l: Seq<T3>, i: int, j: int)
    requires corners_ok(l, i, j),
    ensures corners_ok(rev3(l), i, j), rev3(l).len() == l.len(),
{
    assert forall|k: int| 0 <= k < rev3(l).len() implies corner_ok(#[trigger] rev3(l)[k], i, j) by { assert(corner_ok(l[k], i, j)); }
}
/// what one face adds: three indices per triangle, all of them corners of the face
proof fn lemma_added(a: Seq<I>, b: Seq<I>, ids: Seq<I>, alg: TriangulationAlgorithm)
    requires added_by(a, b, ids, alg),
    ensures b.len() == a.len() + 3 * (ids.len() - 2), forall|q: int| 0 <= q < a.len() ==> #[trigger] b[q] == a[q], forall|q: int| a.len() <= q < b.len() ==> ids.contains(#[trigger] b[q]),
{
    let r = alg is EarClipping && ids.len() > 4;
    let l0 = if r { choose|l: Seq<T3>| #[trigger] polytri(l, 0, ids.len() - 1) && b == a + flat(rev3(l), ids) } else { choose|l: Seq<T3>| #[trigger] polytri(l, 0, ids.len() - 1) && b == a + flat(l, ids) };
    if r { lemma_rev_ok(l0, 0, ids.len() - 1); }
    let l = if r { rev3(l0) } else { l0 };
    lemma_flat_len(l, ids);
    assert forall|q: int| a.len() <= q < b.len() implies ids.contains(#[trigger] b[q]) by { lemma_flat_member(l, ids, q - a.len()); assert(b[q] == flat(l, ids)[q - a.len()]); }
}
/// the index buffer: three indices per triangle, n - 2 triangles per face, all indices live vertices
proof fn lemma_exported(m: HalfEdgeMeshImpl, k: int, b: Seq<I>, alg: TriangulationAlgorithm)
    requires m.valid(), 0 <= k <= m.face_seq().len(), exported(m, k, b, alg),
    ensures b.len() == 3 * tri_count(m, k), forall|q: int| 0 <= q < b.len() ==> m.v().contains_key(#[trigger] b[q]),
    decreases k,
{
    if k > 0 {
        let f = m.face_seq()[k - 1];
        let ids = corner_ids(m, f);
        let a = choose|a: Seq<I>| exported(m, k - 1, a, alg) && #[trigger] added_by(a, b, ids, alg);
        lemma_exported(m, k - 1, a, alg);
        lemma_listing(m.faces);
        assert(m.f().contains_key(f.id) && m.f()[f.id] == f);
        lemma_corners(m, f);
        lemma_added(a, b, ids, alg);
        assert forall|q: int| 0 <= q < b.len() implies m.v().contains_key(#[trigger] b[q]) by {
            if q < a.len() { assert(b[q] == a[q]); } else { assert(ids.contains(b[q])); let x = choose|x: int| 0 <= x < ids.len() && ids[x] == b[q]; assert(m.v().contains_key(ids[x])); }
        }
    }
}
proof fn lemma_counts(m: HalfEdgeMeshImpl, k: int, n: int)
    requires 0 <= k <= n <= m.face_seq().len(), forall|k: int| 0 <= k < m.face_seq().len() ==> size_ok(corner_ids(m, #[trigger] m.face_seq()[k]).len() as int),
    ensures 0 <= tri_count(m, k) <= corner_count(m, k) <= corner_count(m, n), k < n ==> corner_count(m, k) + corner_ids(m, m.face_seq()[k]).len() <= corner_count(m, n),
    decreases n, k,
{
    if k > 0 && k == n { lemma_counts(m, k - 1, n - 1); assert(size_ok(corner_ids(m, m.face_seq()[k - 1]).len() as int)); }
    else if k < n { lemma_counts(m, k, n - 1); if k > 0 { lemma_counts(m, k - 1, k - 1); assert(size_ok(corner_ids(m, m.face_seq()[k - 1]).len() as int)); } assert(size_ok(corner_ids(m, m.face_seq()[n - 1]).len() as int)); }
}
/// the corners of one face, in order, with the payloads of their vertices up to the normal, which is the same for all of them
spec fn face_verts(m: HalfEdgeMeshImpl, ids: Seq<I>, vs: Seq<VP>) -> bool {
    exists|n: V3| #[trigger] face_verts_n(m, ids, vs, n)
}
spec fn face_verts_n(m: HalfEdgeMeshImpl, ids: Seq<I>, vs: Seq<VP>, n: V3) -> bool {
    &&& vs.len() == ids.len()
    &&& forall|x: int| 0 <= x < ids.len() ==> sans_normal(#[trigger] vs[x]) == sans_normal(m.v()[ids[x]].payload) && normal_of(vs[x]) == n
}
/// `b` continues `a` by a triangulation of the face, written with the positions base, base+1, .. of its corners
spec fn face_tris(a: Seq<I>, b: Seq<I>, base: int, ids: Seq<I>, alg: TriangulationAlgorithm) -> bool {
    exists|t: Seq<I>| #[trigger] added_by(a, t, ids, alg) && b.len() == t.len() && renamed(a, t, b, base, ids)
}
spec fn renamed(a: Seq<I>, t: Seq<I>, b: Seq<I>, base: int, ids: Seq<I>) -> bool {
    &&& forall|q: int| 0 <= q < a.len() ==> #[trigger] b[q] == a[q]
    &&& forall|q: int| a.len() <= q < b.len() ==> base <= (#[trigger] b[q]).ix() < base + ids.len() && ids[b[q].ix() - base] == t[q]
}
spec fn face_added(m: HalfEdgeMeshImpl, a: Seq<I>, b: Seq<I>, p: Seq<VP>, q: Seq<VP>, ids: Seq<I>, alg: TriangulationAlgorithm) -> bool {
    face_tris(a, b, p.len() as int, ids, alg) && p.len() <= q.len() && q.take(p.len() as int) == p && face_verts(m, ids, q.skip(p.len() as int))
}
spec fn flat_exported(m: HalfEdgeMeshImpl, k: int, b: Seq<I>, q: Seq<VP>, alg: TriangulationAlgorithm) -> bool
    decreases k,
{
    if k <= 0 { b.len() == 0 && q.len() == 0 } else {
        exists|a: Seq<I>, p: Seq<VP>| flat_exported(m, k - 1, a, p, alg) && #[trigger] face_added(m, a, b, p, q, corner_ids(m, m.face_seq()[k - 1]), alg)
    }
}
/// one entry per face corner, three indices per triangle, and the indices of a face point at its own entries
proof fn lemma_flat_exported(m: HalfEdgeMeshImpl, k: int, b: Seq<I>, q: Seq<VP>, alg: TriangulationAlgorithm)
    requires flat_exported(m, k, b, q, alg),
    ensures b.len() == 3 * tri_count(m, k), q.len() == corner_count(m, k), forall|x: int| 0 <= x < b.len() ==> (#[trigger] b[x]).ix() < q.len(),
    decreases k,
{
    if k > 0 {
        let ids = corner_ids(m, m.face_seq()[k - 1]);
        let (a, p) = choose|a: Seq<I>, p: Seq<VP>| flat_exported(m, k - 1, a, p, alg) && #[trigger] face_added(m, a, b, p, q, ids, alg);
        lemma_flat_exported(m, k - 1, a, p, alg);
        let t = choose|t: Seq<I>| #[trigger] added_by(a, t, ids, alg) && b.len() == t.len() && renamed(a, t, b, p.len() as int, ids);
        lemma_added(a, t, ids, alg);
        assert forall|x: int| 0 <= x < b.len() implies (#[trigger] b[x]).ix() < q.len() by { if x < a.len() { assert(b[x] == a[x]); } }
    }
}
spec fn verts_upto(m: HalfEdgeMeshImpl, p: Seq<VP>, q: Seq<VP>, ids: Seq<I>, n: int, nrm: V3) -> bool {
    &&& q.len() == p.len() + n
    &&& forall|x: int| 0 <= x < p.len() ==> #[trigger] q[x] == p[x]
    &&& forall|x: int| p.len() <= x < q.len() ==> sans_normal(#[trigger] q[x]) == sans_normal(m.v()[ids[x - p.len()]].payload) && normal_of(q[x]) == nrm
}
spec fn map_upto(m: Map<I, I>, base: int, ids: Seq<I>, n: int) -> bool {
    &&& forall|x: int| 0 <= x < n ==> m.contains_key(#[trigger] ids[x])
    &&& forall|k: I| #[trigger] m.contains_key(k) ==> base <= m[k].ix() < base + n && ids[m[k].ix() - base] == k
}
proof fn lemma_map_step(m: Map<I, I>, m1: Map<I, I>, base: int, ids: Seq<I>, n: int)
    requires 0 <= n < ids.len(), map_upto(m, base, ids, n), m1.contains_key(ids[n]), m1[ids[n]].ix() == base + n, m1 == m.insert(ids[n], m1[ids[n]]),
    ensures map_upto(m1, base, ids, n + 1),
{
    assert forall|k: I| #[trigger] m1.contains_key(k) implies base <= m1[k].ix() < base + n + 1 && ids[m1[k].ix() - base] == k by {
        if k != ids[n] { assert(m.contains_key(k)); }
    }
}
proof fn lemma_verts_step(m: HalfEdgeMeshImpl, p: Seq<VP>, q: Seq<VP>, q1: Seq<VP>, ids: Seq<I>, n: int, nrm: V3)
    requires 0 <= n < ids.len(), verts_upto(m, p, q, ids, n, nrm), q1.len() == q.len() + 1, q1.drop_last() == q,
        sans_normal(q1.last()) == sans_normal(m.v()[ids[n]].payload), normal_of(q1.last()) == nrm,
    ensures verts_upto(m, p, q1, ids, n + 1, nrm),
{
    assert forall|x: int| 0 <= x < q.len() implies #[trigger] q1[x] == q[x] by { assert(q1.drop_last()[x] == q1[x]); }
}
impl HalfEdgeMeshImpl {
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: dense_vertices
//@ret r
    requires self.valid(), self.dense(),
    ensures final(indices)@ == old(indices)@,
        r@.len() == self.vertices.data@.len(),
        forall|i: I| self.v().contains_key(i) <==> 0 <= #[trigger] i.ix() < r@.len(),
        forall|i: I| #[trigger] self.v().contains_key(i) ==> r@[i.ix()] == self.v()[i].payload,
//@pre
    let ghost mut all: Seq<&HalfEdgeVertexImpl> = Seq::empty(); let ghost mut gk = 0int; let ghost n = self.vertices.data@.len();
    proof {
        assert forall|i: I| self.v().contains_key(i) <==> 0 <= #[trigger] i.ix() < n by {
            I::ix_inj(i, i); assert(!self.vertices.reserved(i)); assert(!self.vertices.in_free(i.ix()));
        }
    }
//@loop 0
        invariant i_0 <= end_0, end_0 == n, vertices@.len() == i_0,
        decreases end_0 - i_0,
//@aftercall vertices 0
        proof { all = it_1.rest(); }
//@loop 1
        invariant 0 <= gk <= all.len(), it_1.rest() == all.skip(gk), listing(refs(all), self.vertices@), vertices@.len() == n,
            forall|i: I| self.v().contains_key(i) <==> 0 <= #[trigger] i.ix() < n,
            forall|j: int| 0 <= j < gk ==> vertices@[(#[trigger] refs(all)[j]).key().ix()] == refs(all)[j].payload,
        ensures gk == all.len(),
        decreases it_1.rest().len(),
//@lstart 1
        proof { if gk < all.len() { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1));
            let x = refs(all)[gk]; assert(x == *all[gk]); assert(self.vertices@.contains_key(x.key())); assert(self.v().contains_key(x.key())); assert(x.key().ix() < n); assert(x.key() == x.id);
            assert forall|j: int| 0 <= j < gk implies (#[trigger] refs(all)[j]).key().ix() != x.key().ix() by { } } }
//@lend 1
        proof { gk = gk + 1; }
//@loop 2
        invariant false,
        decreases it_2.rest().len(),
//@post
    proof {
        assert forall|i: I| #[trigger] self.v().contains_key(i) implies vx_ret@[i.ix()] == self.v()[i].payload by {
            let j = choose|j: int| 0 <= j < refs(all).len() && (#[trigger] refs(all)[j]).key() == i;
            assert(refs(all)[j].key() == i);
        }
    }
//@endfn
//@fn src/mesh/mesh/triangulate.rs trait Triangulateable :: triangulate
//@mayfail
//@param algorithm: TriangulationAlgorithm
//@param meta: &mut Meta
//@retty (Vec<I>, Vec<VP>)
//@ret r
    requires self.valid(), self.dense(), sizes_ok(*self),
    ensures exported(*self, self.face_seq().len() as int, r.0@, algorithm),
        r.0@.len() == 3 * tri_count(*self, self.face_seq().len() as int),
        forall|q: int| 0 <= q < r.0@.len() ==> (#[trigger] r.0@[q]).ix() < r.1@.len(),
        forall|i: I| self.v().contains_key(i) <==> 0 <= #[trigger] i.ix() < r.1@.len(),
        forall|i: I| #[trigger] self.v().contains_key(i) ==> r.1@[i.ix()] == self.v()[i].payload,
//@pre
    let ghost mut all: Seq<&HalfEdgeFaceImpl> = Seq::empty(); let ghost mut gk = 0int; let ghost fs = self.face_seq();
//@aftercall faces 0
        proof { all = it_0.rest(); }
//@loop 0
        invariant 0 <= gk <= fs.len(), fs == self.face_seq(), it_0.rest() == all.skip(gk), refs(all) == fs, listing(fs, self.f()), self.valid(), sizes_ok(*self),
            exported(*self, gk, indices@, algorithm), indices@.len() == 3 * tri_count(*self, gk),
        ensures gk == fs.len(),
        decreases it_0.rest().len(),
//@lstart 0
        let ghost before = indices@;
        proof { lemma_counts(*self, gk, fs.len() as int);
            if gk < all.len() { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1)); assert(refs(all)[gk] == *all[gk]);
            assert(size_ok(corner_ids(*self, fs[gk]).len() as int)); assert(self.f().contains_key(fs[gk].key())); assert(fs[gk].own(*self)); } }
//@lend 0
        proof { gk = gk + 1; assert(exported(*self, gk - 1, before, algorithm)); assert(exported(*self, gk, indices@, algorithm)); lemma_added(before, indices@, corner_ids(*self, fs[gk - 1]), algorithm); }
//@post
    proof { lemma_exported(*self, fs.len() as int, vx_ret.0@, algorithm);
        assert forall|q: int| 0 <= q < vx_ret.0@.len() implies (#[trigger] vx_ret.0@[q]).ix() < vx_ret.1@.len() by { assert(self.v().contains_key(vx_ret.0@[q])); } }
//@endfn
//@fn src/mesh/mesh/triangulate.rs trait Triangulateable :: triangulate_and_generate_flat_normals_post
//@mayfail
//@param algorithm: TriangulationAlgorithm
//@param meta: &mut Meta
//@retty (Vec<I>, Vec<VP>)
//@where
//@ret r
    requires self.valid(), sizes_ok(*self), corner_count(*self, self.face_seq().len() as int) <= I::maxv(),
    ensures flat_exported(*self, self.face_seq().len() as int, r.0@, r.1@, algorithm),
        r.0@.len() == 3 * tri_count(*self, self.face_seq().len() as int),
        r.1@.len() == corner_count(*self, self.face_seq().len() as int),
        forall|q: int| 0 <= q < r.0@.len() ==> (#[trigger] r.0@[q]).ix() < r.1@.len(),
//@pre
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost mut all: Seq<&HalfEdgeFaceImpl> = Seq::empty(); let ghost mut gk = 0int; let ghost fs = self.face_seq();
//@aftercall faces 0
        proof { all = it_0.rest(); }
//@loop 0
        invariant 0 <= gk <= fs.len(), fs == self.face_seq(), it_0.rest() == all.skip(gk), refs(all) == fs, listing(fs, self.f()), self.valid(), sizes_ok(*self), corner_count(*self, fs.len() as int) <= I::maxv(),
            flat_exported(*self, gk, indices@, vertices@, algorithm), indices@.len() == 3 * tri_count(*self, gk), vertices@.len() == corner_count(*self, gk),
        ensures gk == fs.len(),
        decreases it_0.rest().len(),
//@lstart 0
        let ghost before = indices@; let ghost p0 = vertices@; let ghost ids = corner_ids(*self, fs[gk]); let ghost vs0 = corners(*self, fs[gk]); let ghost mut gj = 0int;
        let ghost mut t: Seq<I> = Seq::empty(); let ghost mut gm: Map<I, I> = Map::empty(); let ghost mut gn: V3 = arbitrary();
        proof { lemma_counts(*self, gk, fs.len() as int);
            if gk < all.len() { assert(all.skip(gk)[0] == all[gk]); assert(all.skip(gk).drop_first() =~= all.skip(gk + 1)); assert(refs(all)[gk] == *all[gk]);
            assert(size_ok(ids.len() as int)); assert(self.f().contains_key(fs[gk].key())); assert(fs[gk].own(*self)); lemma_corners(*self, fs[gk]); } }
//@loop 1
            invariant 0 <= gj <= vs0.len(), it_1.rest() == vs0.skip(gj), vs0.len() == ids.len(), p0.len() + ids.len() <= I::maxv(),
                forall|k: int| 0 <= k < vs0.len() ==> (#[trigger] vs0[k]).id == ids[k] && vs0[k] == self.v()[ids[k]],
                verts_upto(*self, p0, vertices@, ids, gj, face_normal), map_upto(id_map@, p0.len() as int, ids, gj),
            ensures gj == vs0.len(),
            decreases it_1.rest().len(),
//@lstart 1
            proof { if gj < vs0.len() { assert(vs0.skip(gj)[0] == vs0[gj]); assert(vs0.skip(gj).drop_first() =~= vs0.skip(gj + 1)); } }
            let ghost m0 = id_map@; let ghost q0 = vertices@;
//@lend 1
            proof { assert(vertices@.drop_last() =~= q0); lemma_map_step(m0, id_map@, p0.len() as int, ids, gj); lemma_verts_step(*self, p0, q0, vertices@, ids, gj, face_normal); gj = gj + 1; }
//@aftercall triangulate_face 0
        proof {
            t = tri.all(); gm = id_map@; gn = face_normal;
            lemma_added(before, t, ids, algorithm);
            assert forall|j: int| before.len() <= j < t.len() implies id_map@.contains_key(#[trigger] t[j]) by { assert(ids.contains(t[j])); let x = choose|x: int| 0 <= x < ids.len() && ids[x] == t[j]; assert(id_map@.contains_key(ids[x])); }
        }
//@lend 0
        proof {
            let b = indices@; let q = vertices@; let base = p0.len() as int;
            assert(renamed(before, t, b, base, ids)) by {
                assert forall|j: int| before.len() <= j < b.len() implies base <= (#[trigger] b[j]).ix() < base + ids.len() && ids[b[j].ix() - base] == t[j] by { assert(gm.contains_key(t[j])); }
                assert forall|j: int| 0 <= j < before.len() implies #[trigger] b[j] == before[j] by { assert(t[j] == before[j]); }
            }
            assert(face_tris(before, b, base, ids, algorithm));
            assert(q.take(base) =~= p0);
            assert(face_verts_n(*self, ids, q.skip(base), gn)) by {
                assert forall|x: int| 0 <= x < ids.len() implies sans_normal(#[trigger] q.skip(base)[x]) == sans_normal(self.v()[ids[x]].payload) && normal_of(q.skip(base)[x]) == gn by { assert(q.skip(base)[x] == q[base + x]); }
            }
            assert(face_added(*self, before, b, p0, q, ids, algorithm));
            gk = gk + 1;
            assert(flat_exported(*self, gk - 1, before, p0, algorithm));
            assert(flat_exported(*self, gk, b, q, algorithm));
        }
//@post
    proof { lemma_flat_exported(*self, fs.len() as int, vx_ret.0@, vx_ret.1@, algorithm); }
//@endfn
}
