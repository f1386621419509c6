// halfedge::mesh::builder::import_mesh: the imported mesh is the given one, renumbered in iteration order.
// The source mesh type enters as the same half-edge struct (payload types are opaque on both sides).
use std::collections::HashMap;
//@known hm_at insert_halfedge_no_update_no_check set_payload
fn hm_at<'a, X>(m: &'a HashMap<I, X>, k: &I) -> (r: &'a X)
    requires m@.contains_key(*k),
    ensures *r == m@[*k],
{
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    m.get(k).unwrap()
}
/// the first n listed elements are numbered from 0 (and possibly "none" stays "none")
spec fn numbered<T: Deletable<I>>(s: Seq<T>, n: int, m: Map<I, I>, none: bool) -> bool {
    &&& forall|j: int| 0 <= j < n ==> m.contains_key((#[trigger] s[j]).key()) && m[s[j].key()] == j as I
    &&& none ==> m.contains_key(NONE) && m[NONE] == NONE
}
/// n fresh slots have been handed out, in order
spec fn fresh_upto<T: Deletable<I>>(d: DeletableVector<T, I>, n: int) -> bool {
    &&& d.inv() && d.packed(n) && d@ == IMap::<I, T>::empty()
    &&& forall|i: I| #[trigger] d.reserved(i) == (i < n)
}
/// the first n of `all` slots have been filled
spec fn filled_upto<T: Deletable<I>>(d: DeletableVector<T, I>, n: int, all: int) -> bool {
    &&& d.inv() && d.packed(all)
    &&& forall|i: I| #[trigger] d@.contains_key(i) == (i < n)
    &&& forall|i: I| #[trigger] d.reserved(i) == (n <= i < all)
}
type Src = HalfEdgeMeshImpl;
spec fn vs(m: Src) -> Seq<HalfEdgeVertexImpl> { live_seq(m.vertices.data@) }
spec fn es(m: Src) -> Seq<HalfEdgeImpl> { live_seq(m.halfedges.data@) }
spec fn fs(m: Src) -> Seq<HalfEdgeFaceImpl> { live_seq(m.faces.data@) }

/// element j of the result corresponds to the j-th element of the source
spec fn v_same<FV: Fn(&VP) -> VP>(m: Src, r: VMap, em: Map<I, I>, fv: FV, j: int) -> bool {
    let (a, b) = (vs(m)[j], r[j as I]);
    b.id == j as I && b.edge == em[a.edge] && fv.ensures((&a.payload,), b.payload)
}
spec fn f_same<FF: Fn(&FP) -> FP>(m: Src, r: FMap, em: Map<I, I>, ff: FF, j: int) -> bool {
    let (a, b) = (fs(m)[j], r[j as I]);
    b.id == j as I && b.edge == em[a.edge] && ff.ensures((&a.payload,), b.payload)
}
spec fn e_same<FE: Fn(&EP) -> EP>(m: Src, r: HMap, vm: Map<I, I>, em: Map<I, I>, fm: Map<I, I>, fe: FE, j: int) -> bool {
    let (a, b) = (es(m)[j], r[j as I]);
    &&& b.id == j as I && b.next == em[a.next] && b.prev == em[a.prev] && b.twin == em[a.twin]
    &&& b.origin_id == vm[a.origin_id] && b.face == fm[a.face] && fe.ensures((&a.payload,), b.payload)
}
spec fn maps_ok(m: Src, vm: Map<I, I>, em: Map<I, I>, fm: Map<I, I>) -> bool {
    &&& numbered(vs(m), vs(m).len() as int, vm, false) && numbered(es(m), es(m).len() as int, em, true) && numbered(fs(m), fs(m).len() as int, fm, true)
    &&& listing(vs(m), m.v()) && listing(es(m), m.h()) && listing(fs(m), m.f())
    &&& vs(m).len() <= I::maxv() && es(m).len() <= I::maxv() && fs(m).len() <= I::maxv()
}
spec fn dom_ok(m: Src, r: Src) -> bool {
    &&& forall|i: I| #[trigger] r.v().contains_key(i) == (i < vs(m).len())
    &&& forall|i: I| #[trigger] r.h().contains_key(i) == (i < es(m).len())
    &&& forall|i: I| #[trigger] r.f().contains_key(i) == (i < fs(m).len())
}
/// the two meshes have the same elements and relations under the numbering
spec fn imported<FE: Fn(&EP) -> EP, FV: Fn(&VP) -> VP, FF: Fn(&FP) -> FP>(m: Src, r: Src, vm: Map<I, I>, em: Map<I, I>, fm: Map<I, I>, fv: FV, fe: FE, ff: FF) -> bool {
    &&& maps_ok(m, vm, em, fm) && dom_ok(m, r)
    &&& forall|j: int| 0 <= j < vs(m).len() ==> #[trigger] v_same(m, r.v(), em, fv, j)
    &&& forall|j: int| 0 <= j < fs(m).len() ==> #[trigger] f_same(m, r.f(), em, ff, j)
    &&& forall|j: int| 0 <= j < es(m).len() ==> #[trigger] e_same(m, r.h(), vm, em, fm, fe, j)
}
spec fn isomorphic_by<FE: Fn(&EP) -> EP, FV: Fn(&VP) -> VP, FF: Fn(&FP) -> FP>(m: Src, r: Src, fv: FV, fe: FE, ff: FF) -> bool {
    exists|vm: Map<I, I>, em: Map<I, I>, fm: Map<I, I>| #[trigger] imported(m, r, vm, em, fm, fv, fe, ff)
}
proof fn lemma_live_len<T: Deletable<I>>(s: Seq<T>)
    ensures live_seq::<T, I>(s).len() <= s.len(),
    decreases s.len(),
{ if s.len() > 0 { lemma_live_len::<T>(s.drop_last()); } }
proof fn lemma_src(m: Src)
    requires m.valid(),
    ensures listing(vs(m), m.v()), listing(es(m), m.h()), listing(fs(m), m.f()),
        vs(m).len() <= I::maxv(), es(m).len() <= I::maxv(), fs(m).len() <= I::maxv(),
        forall|j: int| 0 <= j < vs(m).len() ==> (#[trigger] vs(m)[j]).key() != NONE,
        forall|j: int| 0 <= j < es(m).len() ==> (#[trigger] es(m)[j]).key() != NONE,
        forall|j: int| 0 <= j < fs(m).len() ==> (#[trigger] fs(m)[j]).key() != NONE,
{
    lemma_listing(m.vertices); lemma_listing(m.halfedges); lemma_listing(m.faces);
    lemma_live_len::<HalfEdgeVertexImpl>(m.vertices.data@); lemma_live_len::<HalfEdgeImpl>(m.halfedges.data@); lemma_live_len::<HalfEdgeFaceImpl>(m.faces.data@);
    assert forall|j: int| 0 <= j < vs(m).len() implies (#[trigger] vs(m)[j]).key() != NONE by { assert(vert_ok(m.h(), m.v(), vs(m)[j].key())); }
    assert forall|j: int| 0 <= j < es(m).len() implies (#[trigger] es(m)[j]).key() != NONE by { assert(link_ok(m.h(), es(m)[j].key())); }
    assert forall|j: int| 0 <= j < fs(m).len() implies (#[trigger] fs(m)[j]).key() != NONE by { assert(face_ok(m.h(), m.f(), fs(m)[j].key())); }
}
proof fn lemma_number<T: Deletable<I>>(s: Seq<T>, n: int, m: Map<I, I>, none: bool, d: IMap<I, T>)
    requires numbered(s, n, m, none), listing(s, d), 0 <= n < s.len(), s[n].key() != NONE,
    ensures numbered(s, n + 1, m.insert(s[n].key(), n as I), none),
{
    let m2 = m.insert(s[n].key(), n as I);
    assert forall|j: int| 0 <= j < n + 1 implies m2.contains_key((#[trigger] s[j]).key()) && m2[s[j].key()] == j as I by {
        if j < n { assert(s[j].key().ix() < s[n].key().ix()); }
    }
}
proof fn lemma_skip<T>(s: Seq<T>, n: int)
    requires 0 <= n < s.len(),
    ensures s.skip(n).len() > 0, s.skip(n)[0] == s[n], s.skip(n).drop_first() =~= s.skip(n + 1),
{}
proof fn lemma_refs_at<T>(s: Seq<&T>, n: int)
    requires 0 <= n < s.len(),
    ensures refs(s)[n] == *s[n],
{}

/// where a live handle went
spec fn went<T: Deletable<I>>(s: Seq<T>, m: Map<I, I>, x: I) -> bool {
    m.contains_key(x) && 0 <= m[x] < s.len() && s[m[x] as int].key() == x
}
proof fn lemma_at<T: Deletable<I>>(s: Seq<T>, d: IMap<I, T>, m: Map<I, I>, none: bool)
    requires listing(s, d), numbered(s, s.len() as int, m, none), s.len() <= I::maxv(),
    ensures forall|x: I| d.contains_key(x) ==> #[trigger] went(s, m, x), forall|x: I| d.contains_key(x) ==> s[#[trigger] m[x] as int] == d[x],
{
    assert forall|x: I| d.contains_key(x) implies #[trigger] went(s, m, x) by {
        let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).key() == x;
        assert(m[s[j].key()] == j as I);
    }
    assert forall|x: I| d.contains_key(x) implies s[#[trigger] m[x] as int] == d[x] by { assert(went(s, m, x)); }
}
proof fn lemma_refs_v(m: Src, vm: Map<I, I>, em: Map<I, I>, fm: Map<I, I>, j: int)
    requires m.valid(), maps_ok(m, vm, em, fm), 0 <= j < vs(m).len(),
    ensures vm.contains_key(vs(m)[j].id), vm[vs(m)[j].id] == j as I, em.contains_key(vs(m)[j].edge),
{
    let a = vs(m)[j];
    assert(a.key() == a.id); assert(vert_ok(m.h(), m.v(), a.id));
    lemma_at(es(m), m.h(), em, true);
    if a.edge != NONE { assert(went(es(m), em, a.edge)); }
}
proof fn lemma_refs_f(m: Src, vm: Map<I, I>, em: Map<I, I>, fm: Map<I, I>, j: int)
    requires m.valid(), maps_ok(m, vm, em, fm), 0 <= j < fs(m).len(),
    ensures fm.contains_key(fs(m)[j].id), fm[fs(m)[j].id] == j as I, em.contains_key(fs(m)[j].edge), em[fs(m)[j].edge] < es(m).len(), em[fs(m)[j].edge] != NONE,
{
    let a = fs(m)[j];
    assert(a.key() == a.id); assert(face_ok(m.h(), m.f(), a.id));
    lemma_at(es(m), m.h(), em, true);
    assert(went(es(m), em, a.edge));
}
proof fn lemma_refs_e(m: Src, vm: Map<I, I>, em: Map<I, I>, fm: Map<I, I>, j: int)
    requires m.valid(), maps_ok(m, vm, em, fm), 0 <= j < es(m).len(),
    ensures ({ let a = es(m)[j];
        &&& em.contains_key(a.id) && em[a.id] == j as I && a.id == a.key()
        &&& em.contains_key(a.next) && em[a.next] < es(m).len() && em[a.next] != j as I
        &&& em.contains_key(a.prev) && em[a.prev] < es(m).len() && em[a.prev] != j as I
        &&& em.contains_key(a.twin) && em[a.twin] < es(m).len() && em[a.twin] != j as I
        &&& vm.contains_key(a.origin_id) && fm.contains_key(a.face) }),
{
    let a = es(m)[j]; let e = a.key(); let h = m.h();
    assert(h.contains_key(e) && h[e] == a);
    assert(link_ok(h, e)); assert(twin_ok(h, e)); assert(edge_ok(h, m.v(), m.f(), e));
    assert(link_ok(h, a.prev)); assert(edge_ok(h, m.v(), m.f(), a.prev));
    assert(a.next != e && a.prev != e);
    lemma_at(es(m), m.h(), em, true); lemma_at(vs(m), m.v(), vm, false); lemma_at(fs(m), m.f(), fm, true);
    assert(went(es(m), em, e)); assert(went(es(m), em, a.next)); assert(went(es(m), em, a.prev)); assert(went(es(m), em, a.twin));
    assert(went(vs(m), vm, a.origin_id));
    if a.face != NONE { assert(went(fs(m), fm, a.face)); }
}
/// walking commutes with the numbering
proof fn lemma_walk<FE: Fn(&EP) -> EP, FV: Fn(&VP) -> VP, FF: Fn(&FP) -> FP>(m: Src, r: Src, vm: Map<I, I>, em: Map<I, I>, fm: Map<I, I>, fv: FV, fe: FE, ff: FF, x: I, k: nat)
    requires m.valid(), imported(m, r, vm, em, fm, fv, fe, ff), m.h().contains_key(x),
    ensures m.h().contains_key(it(nmap(m.h()), x, k)), it(nmap(r.h()), em[x], k) == em[it(nmap(m.h()), x, k)],
    decreases k,
{
    lemma_at(es(m), m.h(), em, true);
    if k > 0 {
        lemma_walk(m, r, vm, em, fm, fv, fe, ff, x, (k - 1) as nat);
        let z = it(nmap(m.h()), x, (k - 1) as nat);
        assert(link_ok(m.h(), z));
        assert(went(es(m), em, z));
        assert(e_same(m, r.h(), vm, em, fm, fe, em[z] as int));
    }
}
proof fn lemma_imported<FE: Fn(&EP) -> EP, FV: Fn(&VP) -> VP, FF: Fn(&FP) -> FP>(m: Src, r: Src, vm: Map<I, I>, em: Map<I, I>, fm: Map<I, I>, fv: FV, fe: FE, ff: FF)
    requires m.valid(), imported(m, r, vm, em, fm, fv, fe, ff),
    ensures wf(r.h(), r.v(), r.f()),
{
    let (h, v, f) = (m.h(), m.v(), m.f()); let (h2, v2, f2) = (r.h(), r.v(), r.f());
    lemma_at(es(m), h, em, true); lemma_at(vs(m), v, vm, false); lemma_at(fs(m), f, fm, true);
    lemma_src(m);
    // every edge of the result is the image of one
    assert forall|i: I| h2.contains_key(i) implies #[trigger] link_ok(h2, i) && twin_ok(h2, i) && edge_ok(h2, v2, f2, i) && loop_ok(h2, f2, i) by {
        let a = es(m)[i as int]; let e = a.key();
        assert(h.contains_key(e) && h[e] == a && em[e] == i);
        lemma_edge_im(m, r, vm, em, fm, fv, fe, ff, e);
    }
    assert forall|i: I| h2.contains_key(i) implies #[trigger] twin_ok(h2, i) by { assert(link_ok(h2, i)); }
    assert forall|i: I| h2.contains_key(i) implies #[trigger] edge_ok(h2, v2, f2, i) by { assert(link_ok(h2, i)); }
    assert forall|i: I| h2.contains_key(i) implies #[trigger] loop_ok(h2, f2, i) by { assert(link_ok(h2, i)); }
    assert forall|i: I| v2.contains_key(i) implies #[trigger] vert_ok(h2, v2, i) by {
        let a = vs(m)[i as int]; let x = a.key();
        assert(v.contains_key(x) && v[x] == a && vm[x] == i);
        assert(vert_ok(h, v, x)); assert(v_same(m, v2, em, fv, i as int));
        if a.edge != NONE { assert(went(es(m), em, a.edge)); assert(e_same(m, h2, vm, em, fm, fe, em[a.edge] as int)); }
    }
    assert forall|i: I| f2.contains_key(i) implies #[trigger] face_ok(h2, f2, i) by {
        let a = fs(m)[i as int]; let x = a.key();
        assert(f.contains_key(x) && f[x] == a && fm[x] == i);
        assert(face_ok(h, f, x)); assert(f_same(m, f2, em, ff, i as int));
        assert(went(es(m), em, a.edge)); assert(e_same(m, h2, vm, em, fm, fe, em[a.edge] as int));
    }
}
proof fn lemma_edge_im<FE: Fn(&EP) -> EP, FV: Fn(&VP) -> VP, FF: Fn(&FP) -> FP>(m: Src, r: Src, vm: Map<I, I>, em: Map<I, I>, fm: Map<I, I>, fv: FV, fe: FE, ff: FF, e: I)
    requires m.valid(), imported(m, r, vm, em, fm, fv, fe, ff), m.h().contains_key(e),
    ensures link_ok(r.h(), em[e]), twin_ok(r.h(), em[e]), edge_ok(r.h(), r.v(), r.f(), em[e]), loop_ok(r.h(), r.f(), em[e]),
{
    let (h, v, f) = (m.h(), m.v(), m.f()); let (h2, v2, f2) = (r.h(), r.v(), r.f());
    lemma_at(es(m), h, em, true); lemma_at(vs(m), v, vm, false); lemma_at(fs(m), f, fm, true);
    lemma_src(m);
    let a = h[e];
    assert(link_ok(h, e)); assert(twin_ok(h, e)); assert(edge_ok(h, v, f, e)); assert(loop_ok(h, f, e));
    assert(link_ok(h, a.next)); assert(link_ok(h, a.prev)); assert(twin_ok(h, a.twin)); assert(edge_ok(h, v, f, a.twin));
    assert(went(es(m), em, e)); assert(went(es(m), em, a.next)); assert(went(es(m), em, a.prev)); assert(went(es(m), em, a.twin));
    assert(e_same(m, h2, vm, em, fm, fe, em[e] as int)); assert(e_same(m, h2, vm, em, fm, fe, em[a.next] as int));
    assert(e_same(m, h2, vm, em, fm, fe, em[a.prev] as int)); assert(e_same(m, h2, vm, em, fm, fe, em[a.twin] as int));
    let (o, t) = (a.origin_id, h[a.twin].origin_id);
    assert(v.contains_key(t)) by { assert(edge_ok(h, v, f, a.twin)); }
    assert(went(vs(m), vm, o)); assert(went(vs(m), vm, t));
    assert(v_same(m, v2, em, fv, vm[o] as int));
    assert(vert_ok(h, v, o)); assert(went(es(m), em, v[o].edge));
    if a.face != NONE {
        assert(went(fs(m), fm, a.face)); assert(f_same(m, f2, em, ff, fm[a.face] as int));
        assert(face_ok(h, f, a.face));
        let s = f[a.face].edge;
        let k = choose|k: nat| #[trigger] it(nmap(h), s, k) == e;
        lemma_walk(m, r, vm, em, fm, fv, fe, ff, s, k);
        assert(it(nmap(h2), em[s], k) == em[e]);
    }
}

proof fn lemma_imported_ext<FE: Fn(&EP) -> EP, FV: Fn(&VP) -> VP, FF: Fn(&FP) -> FP>(m: Src, r: Src, q: Src, vm: Map<I, I>, em: Map<I, I>, fm: Map<I, I>, fv: FV, fe: FE, ff: FF)
    requires imported(m, r, vm, em, fm, fv, fe, ff), r.v() == q.v(), r.h() == q.h(), r.f() == q.f(),
    ensures imported(m, q, vm, em, fm, fv, fe, ff),
{
    assert forall|j: int| 0 <= j < vs(m).len() implies #[trigger] v_same(m, q.v(), em, fv, j) by { assert(v_same(m, r.v(), em, fv, j)); }
    assert forall|j: int| 0 <= j < fs(m).len() implies #[trigger] f_same(m, q.f(), em, ff, j) by { assert(f_same(m, r.f(), em, ff, j)); }
    assert forall|j: int| 0 <= j < es(m).len() implies #[trigger] e_same(m, q.h(), vm, em, fm, fe, j) by { assert(e_same(m, r.h(), vm, em, fm, fe, j)); }
}
impl HalfEdgeMeshImpl {
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: payload
//@ret r
        ensures *r == self.payload,
//@endfn
//@fn src/halfedge/mesh/basics.rs impl MeshBasics for HalfEdgeMeshImpl :: set_payload
//@ret r
        ensures *r == (HalfEdgeMeshImpl { payload, ..*old(self) }), *final(self) == *final(r),
//@endfn
//@types T2::Mesh=HalfEdgeMeshImpl; T2::EP=EP; T2::VP=VP; T2::FP=FP; T2::MP=MP; T2=_
//@fn src/halfedge/mesh/builder/halfedge.rs impl HalfEdgeMeshImpl :: import_mesh
//@generics <FE: Fn(&EP) -> EP, FV: Fn(&VP) -> VP, FF: Fn(&FP) -> FP, FM: Fn(&MP) -> MP>
//@where
//@ret r
    requires mesh.valid(),
        forall|p: &VP| #[trigger] fv.requires((p,)), forall|p: &EP| #[trigger] fe.requires((p,)), forall|p: &FP| #[trigger] ff.requires((p,)), forall|p: &MP| #[trigger] fm.requires((p,)),
    ensures isomorphic_by(*mesh, r, fv, fe, ff), fm.ensures((&mesh.payload,), r.payload), r.valid(),
//@pre
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost m = *mesh;
    let ghost mut va: Seq<&HalfEdgeVertexImpl> = Seq::empty(); let ghost mut ea: Seq<&HalfEdgeImpl> = Seq::empty(); let ghost mut fa: Seq<&HalfEdgeFaceImpl> = Seq::empty();
    let ghost mut vb: Seq<&HalfEdgeVertexImpl> = Seq::empty(); let ghost mut eb: Seq<&HalfEdgeImpl> = Seq::empty(); let ghost mut fb: Seq<&HalfEdgeFaceImpl> = Seq::empty();
    let ghost mut vm: Map<I, I> = Map::empty(); let ghost mut em: Map<I, I> = Map::empty(); let ghost mut fm_: Map<I, I> = Map::empty();
    let ghost mut g0 = 0int; let ghost mut g1 = 0int; let ghost mut g2 = 0int; let ghost mut g3 = 0int; let ghost mut g4 = 0int; let ghost mut g5 = 0int;
    let ghost mut r9 = m;
    let ghost (nv, ne, nf) = (vs(m).len() as int, es(m).len() as int, fs(m).len() as int);
    proof { lemma_src(m); }
//@aftercall vertices 0
    proof { va = it_0.rest(); assert(va.skip(0) =~= va); }
//@loop 0
        invariant 0 <= g0 <= nv, va.len() == nv, refs(va) == vs(m), it_0.rest() == va.skip(g0), m == *mesh, listing(vs(m), m.v()), nv == vs(m).len(), nv <= I::maxv(),
            forall|j: int| 0 <= j < nv ==> (#[trigger] vs(m)[j]).key() != NONE,
            fresh_upto(res.vertices, g0), fresh_upto(res.faces, 0), fresh_upto(res.halfedges, 0), numbered(vs(m), g0, vertex_map@, false),
        ensures g0 == nv,
        decreases it_0.rest().len(),
//@lstart 0
        let ghost m0 = vertex_map@;
        proof { if g0 < nv { lemma_skip(va, g0); lemma_refs_at(va, g0); } }
//@lend 0
        proof { lemma_number(vs(m), g0, m0, false, m.v()); g0 = g0 + 1; }
//@aftercall faces 0
    proof { fa = it_1.rest(); assert(fa.skip(0) =~= fa); }
//@loop 1
        invariant 0 <= g1 <= nf, fa.len() == nf, refs(fa) == fs(m), it_1.rest() == fa.skip(g1), m == *mesh, listing(fs(m), m.f()), nf == fs(m).len(), nf <= I::maxv(),
            forall|j: int| 0 <= j < nf ==> (#[trigger] fs(m)[j]).key() != NONE,
            fresh_upto(res.vertices, nv), fresh_upto(res.faces, g1), fresh_upto(res.halfedges, 0), numbered(fs(m), g1, face_map@, true),
        ensures g1 == nf,
        decreases it_1.rest().len(),
//@lstart 1
        let ghost m0 = face_map@;
        proof { if g1 < nf { lemma_skip(fa, g1); lemma_refs_at(fa, g1); } }
//@lend 1
        proof { lemma_number(fs(m), g1, m0, true, m.f()); g1 = g1 + 1; }
//@aftercall edges 0
    proof { ea = it_2.rest(); assert(ea.skip(0) =~= ea); }
//@loop 2
        invariant 0 <= g2 <= ne, ea.len() == ne, refs(ea) == es(m), it_2.rest() == ea.skip(g2), m == *mesh, listing(es(m), m.h()), ne == es(m).len(), ne <= I::maxv(),
            forall|j: int| 0 <= j < ne ==> (#[trigger] es(m)[j]).key() != NONE,
            fresh_upto(res.vertices, nv), fresh_upto(res.faces, nf), fresh_upto(res.halfedges, g2), numbered(es(m), g2, edge_map@, true),
        ensures g2 == ne,
        decreases it_2.rest().len(),
//@lstart 2
        let ghost m0 = edge_map@;
        proof { if g2 < ne { lemma_skip(ea, g2); lemma_refs_at(ea, g2); } }
//@lend 2
        proof { lemma_number(es(m), g2, m0, true, m.h()); g2 = g2 + 1; }
//@aftercall vertices 1
    proof { vm = vertex_map@; em = edge_map@; fm_ = face_map@; vb = it_3.rest(); assert(vb.skip(0) =~= vb); assert(filled_upto(res.vertices, 0, nv)); assert(filled_upto(res.faces, 0, nf)); assert(filled_upto(res.halfedges, 0, ne)); assert(maps_ok(m, vm, em, fm_)); }
//@loop 3
        invariant 0 <= g3 <= nv, vb.len() == nv, refs(vb) == vs(m), it_3.rest() == vb.skip(g3), m == *mesh, m.valid(), maps_ok(m, vm, em, fm_), nv == vs(m).len(),
            vm == vertex_map@, em == edge_map@, fm_ == face_map@,
            filled_upto(res.vertices, g3, nv), filled_upto(res.faces, 0, nf), filled_upto(res.halfedges, 0, ne),
            forall|p: &VP| #[trigger] fv.requires((p,)),
            forall|j: int| 0 <= j < g3 ==> #[trigger] v_same(m, res.v(), em, fv, j),
        ensures g3 == nv,
        decreases it_3.rest().len(),
//@lstart 3
        let ghost r0 = res.v();
        proof { if g3 < nv { lemma_skip(vb, g3); lemma_refs_at(vb, g3); lemma_refs_v(m, vm, em, fm_, g3); } }
//@lend 3
        proof {
            assert forall|j: int| 0 <= j < g3 + 1 implies #[trigger] v_same(m, res.v(), em, fv, j) by { if j < g3 { assert(v_same(m, r0, em, fv, j)); assert(j as I != g3 as I); assert(res.v()[j as I] == r0[j as I]); } }
            g3 = g3 + 1;
        }
//@aftercall faces 1
    proof { fb = it_4.rest(); assert(fb.skip(0) =~= fb); }
//@loop 4
        invariant 0 <= g4 <= nf, fb.len() == nf, refs(fb) == fs(m), it_4.rest() == fb.skip(g4), m == *mesh, m.valid(), maps_ok(m, vm, em, fm_), nf == fs(m).len(), nv == vs(m).len(),
            vm == vertex_map@, em == edge_map@, fm_ == face_map@,
            filled_upto(res.vertices, nv, nv), filled_upto(res.faces, g4, nf), filled_upto(res.halfedges, 0, ne),
            forall|p: &FP| #[trigger] ff.requires((p,)),
            forall|j: int| 0 <= j < nv ==> #[trigger] v_same(m, res.v(), em, fv, j),
            forall|j: int| 0 <= j < g4 ==> #[trigger] f_same(m, res.f(), em, ff, j),
        ensures g4 == nf,
        decreases it_4.rest().len(),
//@lstart 4
        let ghost r0 = res.f(); let ghost rv = res.v();
        proof { if g4 < nf { lemma_skip(fb, g4); lemma_refs_at(fb, g4); lemma_refs_f(m, vm, em, fm_, g4); } }
//@lend 4
        proof {
            assert(res.v() == rv);
            assert forall|j: int| 0 <= j < nv implies #[trigger] v_same(m, res.v(), em, fv, j) by { assert(v_same(m, rv, em, fv, j)); }
            assert forall|j: int| 0 <= j < g4 + 1 implies #[trigger] f_same(m, res.f(), em, ff, j) by { if j < g4 { assert(f_same(m, r0, em, ff, j)); } }
            g4 = g4 + 1;
        }
//@aftercall edges 1
    proof { eb = it_5.rest(); assert(eb.skip(0) =~= eb); }
//@loop 5
        invariant 0 <= g5 <= ne, eb.len() == ne, refs(eb) == es(m), it_5.rest() == eb.skip(g5), m == *mesh, m.valid(), maps_ok(m, vm, em, fm_), ne == es(m).len(), nf == fs(m).len(), nv == vs(m).len(),
            vm == vertex_map@, em == edge_map@, fm_ == face_map@,
            filled_upto(res.vertices, nv, nv), filled_upto(res.faces, nf, nf), filled_upto(res.halfedges, g5, ne),
            forall|p: &EP| #[trigger] fe.requires((p,)),
            forall|j: int| 0 <= j < nv ==> #[trigger] v_same(m, res.v(), em, fv, j),
            forall|j: int| 0 <= j < nf ==> #[trigger] f_same(m, res.f(), em, ff, j),
            forall|j: int| 0 <= j < g5 ==> #[trigger] e_same(m, res.h(), vm, em, fm_, fe, j),
        ensures g5 == ne,
        decreases it_5.rest().len(),
//@lstart 5
        let ghost r0 = res.h(); let ghost (rv, rf) = (res.v(), res.f());
        proof { if g5 < ne { lemma_skip(eb, g5); lemma_refs_at(eb, g5); lemma_refs_e(m, vm, em, fm_, g5); } }
//@lend 5
        proof {
            assert(res.v() == rv); assert(res.f() == rf);
            assert forall|j: int| 0 <= j < nv implies #[trigger] v_same(m, res.v(), em, fv, j) by { assert(v_same(m, rv, em, fv, j)); }
            assert forall|j: int| 0 <= j < nf implies #[trigger] f_same(m, res.f(), em, ff, j) by { assert(f_same(m, rf, em, ff, j)); }
            assert forall|j: int| 0 <= j < g5 + 1 implies #[trigger] e_same(m, res.h(), vm, em, fm_, fe, j) by { if j < g5 { assert(e_same(m, r0, vm, em, fm_, fe, j)); assert(j as I != g5 as I); assert(res.h()[j as I] == r0[j as I]); } }
            g5 = g5 + 1;
        }
//@after 5
    proof { assert(imported(m, res, vm, em, fm_, fv, fe, ff)); lemma_imported(m, res, vm, em, fm_, fv, fe, ff); r9 = res; }
//@post
    proof { assert(vx_ret.v() == r9.v() && vx_ret.h() == r9.h() && vx_ret.f() == r9.f()); lemma_imported_ext(m, r9, vx_ret, vm, em, fm_, fv, fe, ff); }
//@endfn
}
