// Spheres: rings of faces between two fans.

//@known iterarg:insert_loop:0 iterarg:loft_tri_closed:1 iterarg:loft_polygon_back:3
//@types T::S=TS; T::Vec=TVec; T::VP=VP; T::S::HALF=TS::half(); T::S::TWO=TS::two(); T::S::ZERO=TS::zero(); T::S::ONE=TS::one(); T::S::THREE=TS::three(); T::S::PI=TS::pi(); T::S::PHI=TS::phi()
impl TS {
    #[verifier::external_body] fn phi() -> TS { unimplemented!() }
    #[verifier::external_body] fn pi() -> TS { unimplemented!() }
    #[verifier::external_body] fn from_usize(n: usize) -> TS { unimplemented!() }
    #[verifier::external_body] fn sin(self) -> TS { unimplemented!() }
    #[verifier::external_body] fn cos(self) -> TS { unimplemented!() }
}
/// the only hole is t, and it does not touch itself
#[verifier::opaque]
spec fn open_at(m: HalfEdgeMeshImpl, t: Seq<I>) -> bool {
    ring(m.h(), t) && simple(m.h(), t) && forall|e: I| #[trigger] m.h().contains_key(e) && m.h()[e].face == NONE ==> t.contains(e)
}
/// the only holes are s and t
#[verifier::opaque]
spec fn open_two(m: HalfEdgeMeshImpl, s: Seq<I>, t: Seq<I>) -> bool {
    &&& ring(m.h(), t) && simple(m.h(), t) && ring(m.h(), s) && simple(m.h(), s) && s.len() == t.len()
    &&& forall|e: I| #[trigger] m.h().contains_key(e) && m.h()[e].face == NONE ==> s.contains(e) || t.contains(e)
    &&& forall|i: int| 0 <= i < t.len() ==> !s.contains(#[trigger] t[i])
}
proof fn lemma_spool(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, ps: Seq<VP>)
    requires o.h() == HMap::empty(), m.valid(), loop_new(o, m, vs, es, ts, ps),
    ensures open_two(m, es, turned(ts)), open_two(m, turned(ts), es), m.h().contains_key(ts[0]), m.h().contains_key(es[0]), m.h()[ts[0]].twin == es[0], m.h()[es[0]].twin == ts[0],
        hole_at(m, ts[0]) =~= turned(ts), hole_at(m, es[0]) =~= es, m.h()[ts[0]].face == NONE, m.h()[es[0]].face == NONE, es.len() == ps.len(), turned(ts).len() == ps.len(), turned(ts)[0] == ts[0], ps.len() >= 2, simple(m.h(), es), simple(m.h(), turned(ts)),
{
    let tt = turned(ts);
    lemma_spool_in(o, m, vs, es, ts, ps);
    lemma_spool_out(o, m, vs, es, ts, ps);
    lemma_spool_all(o, m, vs, es, ts, ps);
    assert(m.h().contains_key(es[0]) && m.h().contains_key(ts[0])) by { assert(es.contains(es[0]) && ts.contains(ts[0])); }
    assert(m.h()[es[0]].twin == ts[0] && m.h()[ts[0]].twin == es[0] && m.h()[es[0]].face == NONE && m.h()[ts[0]].face == NONE);
    lemma_spool_fin(m, es, tt);
    lemma_ring_orbit(m, es); lemma_ring_orbit(m, tt);
}
proof fn lemma_spool_fin(m: HalfEdgeMeshImpl, es: Seq<I>, tt: Seq<I>)
    requires ring(m.h(), es), simple(m.h(), es), ring(m.h(), tt), simple(m.h(), tt), es.len() == tt.len(), forall|e: I| #[trigger] m.h().contains_key(e) && m.h()[e].face == NONE ==> es.contains(e) || tt.contains(e),
        forall|i: int| 0 <= i < es.len() ==> !es.contains(#[trigger] tt[i]), forall|i: int| 0 <= i < es.len() ==> !tt.contains(#[trigger] es[i]),
    ensures open_two(m, es, tt), open_two(m, tt, es),
{
    hide(ring); hide(simple);
    reveal(open_two);
}
proof fn lemma_spool_in(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, ps: Seq<VP>)
    requires o.h() == HMap::empty(), loop_new(o, m, vs, es, ts, ps),
    ensures ring(m.h(), es), simple(m.h(), es), es.len() == ps.len(), ps.len() >= 2,
{
    let k = es.len() as int;
    assert forall|i: int| 0 <= i < k implies #[trigger] ring_at(m.h(), es, i) by { assert(es.contains(es[i])); let j = pn(i, k); assert(0 <= j < k); assert(es.contains(es[j])); assert(m.h()[es[j]].prev == es[pp(j, k)]); }
    assert(simple(m.h(), es)) by { assert forall|i: int, j: int| 0 <= i < j < k implies m.h()[#[trigger] es[i]].origin_id != m.h()[#[trigger] es[j]].origin_id by { } }
}
proof fn lemma_spool_out(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, ps: Seq<VP>)
    requires o.h() == HMap::empty(), loop_new(o, m, vs, es, ts, ps),
    ensures ring(m.h(), turned(ts)), simple(m.h(), turned(ts)), turned(ts)[0] == ts[0], turned(ts).len() == ts.len(), ts.len() == es.len(),
{
    let k = ts.len() as int; let tt = turned(ts);
    assert forall|i: int| 0 <= i < k implies m.h().contains_key(#[trigger] ts[i]) && m.h()[ts[i]].face == NONE && m.h()[ts[i]].next == ts[pp(i, k)] && m.h()[ts[i]].prev == ts[pn(i, k)] && m.h()[ts[i]].origin_id == vs[pn(i, k)] by { assert(ts.contains(ts[i])); }
    lemma_turned_ring(m, ts);
    assert forall|i: int, j: int| 0 <= i < j < k implies m.h()[#[trigger] tt[i]].origin_id != m.h()[#[trigger] tt[j]].origin_id by {
        let a = if i == 0 { 0 } else { k - i }; let b = if j == 0 { 0 } else { k - j }; assert(tt[i] == ts[a] && tt[j] == ts[b]); assert(a != b); assert(pn(a, k) != pn(b, k));
        assert(vs[pn(a, k)] != vs[pn(b, k)]); }
}
proof fn lemma_spool_all(o: HalfEdgeMeshImpl, m: HalfEdgeMeshImpl, vs: Seq<I>, es: Seq<I>, ts: Seq<I>, ps: Seq<VP>)
    requires o.h() == HMap::empty(), loop_new(o, m, vs, es, ts, ps),
    ensures forall|e: I| #[trigger] m.h().contains_key(e) && m.h()[e].face == NONE ==> es.contains(e) || turned(ts).contains(e),
        forall|i: int| 0 <= i < es.len() ==> !es.contains(#[trigger] turned(ts)[i]), forall|i: int| 0 <= i < es.len() ==> !turned(ts).contains(#[trigger] es[i]),
{
    let k = ts.len() as int; let tt = turned(ts);
    assert forall|i: int| 0 <= i < k implies !es.contains(#[trigger] tt[i]) by {
        let a = if i == 0 { 0 } else { k - i }; assert(tt[i] == ts[a]);
        if es.contains(ts[a]) { let j = choose|j: int| 0 <= j < k && es[j] == ts[a]; assert(es[j] != ts[a]); } }
    assert forall|i: int| 0 <= i < k implies !tt.contains(#[trigger] es[i]) by {
        if tt.contains(es[i]) { let j = choose|j: int| 0 <= j < k && tt[j] == es[i]; let b = if j == 0 { 0 } else { k - j }; assert(tt[j] == ts[b]); assert(es[i] != ts[b]); } }
    assert forall|e: I| #[trigger] m.h().contains_key(e) && m.h()[e].face == NONE implies es.contains(e) || tt.contains(e) by {
        if ts.contains(e) { let i = choose|i: int| 0 <= i < k && ts[i] == e; let a = if i == 0 { 0 } else { k - i }; assert(tt[a] == e); }
    }
}
proof fn lemma_turned_ring(m: HalfEdgeMeshImpl, ts: Seq<I>)
    requires ts.len() >= 2, ts.no_duplicates(), forall|i: int| 0 <= i < ts.len() ==> m.h().contains_key(#[trigger] ts[i]) && m.h()[ts[i]].face == NONE && m.h()[ts[i]].next == ts[pp(i, ts.len() as int)] && m.h()[ts[i]].prev == ts[pn(i, ts.len() as int)],
    ensures ring(m.h(), turned(ts)),
{
    let k = ts.len() as int; let tt = turned(ts);
    assert forall|i: int| 0 <= i < k implies #[trigger] ring_at(m.h(), tt, i) by {
        let a = if i == 0 { 0 } else { k - i }; assert(tt[i] == ts[a]); let j = pn(i, k); let b = if j == 0 { 0 } else { k - j }; assert(tt[j] == ts[b]); assert(b == pp(a, k)); assert(pn(b, k) == a);
    }
    assert forall|i: int, j: int| 0 <= i < k && 0 <= j < k && i != j implies tt[i] != tt[j] by { let a = if i == 0 { 0 } else { k - i }; let b = if j == 0 { 0 } else { k - j }; assert(tt[i] == ts[a] && tt[j] == ts[b]); }
}
/// one of two holes is filled
proof fn lemma_half_open(m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, s: Seq<I>, t: Seq<I>, x: I, vp: VP)
    requires open_two(m, s, t), fan(m, n, s, x, vp),
    ensures open_at(n, t),
{
    reveal(open_two); reveal(open_at); reveal(swapped);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] ring_at(n.h(), t, i) by { assert(ring_at(m.h(), t, i)); assert(n.h()[t[i]] == m.h()[t[i]]); assert(!s.contains(t[pn(i, t.len() as int)])); assert(ring_at(m.h(), t, pn(i, t.len() as int))); }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies n.h()[#[trigger] t[i]].origin_id != n.h()[#[trigger] t[j]].origin_id by { assert(ring_at(m.h(), t, i)); assert(ring_at(m.h(), t, j)); assert(!s.contains(t[i]) && !s.contains(t[j])); }
    assert forall|e: I| #[trigger] n.h().contains_key(e) && n.h()[e].face == NONE implies t.contains(e) by { assert(m.h().contains_key(e) && !s.contains(e)); }
}
proof fn lemma_open_hem(m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, s: Seq<I>, ys: Seq<I>, t: Seq<I>, ps: Seq<VP>)
    requires open_at(m, s), hem3(m, n, s, ys, t, ps) || hem4(m, n, s, ys, t, ps),
    ensures open_at(n, t), t.len() == s.len(),
{
    reveal(open_at); reveal(swapped);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies n.h()[#[trigger] t[i]].origin_id != n.h()[#[trigger] t[j]].origin_id by { assert(ys[i] != ys[j]); }
    assert forall|e: I| #[trigger] n.h().contains_key(e) && n.h()[e].face == NONE implies t.contains(e) by { }
}
proof fn lemma_open_fan(m: HalfEdgeMeshImpl, n: HalfEdgeMeshImpl, s: Seq<I>, x: I, vp: VP)
    requires open_at(m, s), fan(m, n, s, x, vp),
    ensures closed_mesh(n),
{
    reveal(open_at); reveal(swapped);
}
proof fn lemma_open_turn(m: HalfEdgeMeshImpl, s: Seq<I>, e: I)
    requires m.valid(), open_at(m, s), s.contains(e),
    ensures open_at(m, hole_at(m, e)), hole_at(m, e).len() == s.len(), hole_at(m, e).contains(e), m.h().contains_key(e), m.h()[e].face == NONE, simple(m.h(), hole_at(m, e)), s.contains(m.h()[e].next),
        m.h().contains_key(m.h()[e].next),
{
    reveal(open_at);
    let k = s.len() as int; let j = choose|j: int| 0 <= j < k && s[j] == e;
    assert(ring_at(m.h(), s, j));
    assert(ring_at(m.h(), s, pn(j, k)));
    assert(s.contains(s[pn(j, k)]));
    let r = rot(s, j);
    lemma_rot(m.h(), s, j);
    assert(r[0] == e);
    lemma_ring_orbit(m, r);
    assert forall|i: int| 0 <= i < k implies #[trigger] r[i] == s[wrap(i + j, k)] by { }
    assert forall|a: int, b: int| 0 <= a < b < k implies m.h()[#[trigger] r[a]].origin_id != m.h()[#[trigger] r[b]].origin_id by {
        let x = wrap(a + j, k); let y = wrap(b + j, k); assert(r[a] == s[x] && r[b] == s[y] && x != y);
        if x < y { assert(m.h()[s[x]].origin_id != m.h()[s[y]].origin_id); } else { assert(m.h()[s[y]].origin_id != m.h()[s[x]].origin_id); } }
    assert forall|f: I| #[trigger] m.h().contains_key(f) && m.h()[f].face == NONE implies r.contains(f) by {
        let i = choose|i: int| 0 <= i < k && s[i] == f; let q = if i >= j { i - j } else { i - j + k }; assert(r[q] == s[wrap(q + j, k)]); }
    assert(r.contains(r[0]));
}
/// one of the two holes of a new loop, and its first edge, after a fan in the other
proof fn lemma_spooled(a: HalfEdgeMeshImpl, b: HalfEdgeMeshImpl, s: Seq<I>, t: Seq<I>, x: I, vp: VP, e: I)
    requires b.valid(), open_two(a, s, t), fan(a, b, s, x, vp), a.h().contains_key(e), t.len() >= 1,
    ensures open_at(b, t), b.h().contains_key(e), b.h()[e].twin == a.h()[e].twin, hole_at(b, t[0]) =~= t, b.h().contains_key(t[0]), b.h()[t[0]].face == NONE, simple(b.h(), t), t.contains(t[0]),
{
    lemma_half_open(a, b, s, t, x, vp);
    lemma_open_first(b, t);
    reveal(swapped);
}
proof fn lemma_open_first(m: HalfEdgeMeshImpl, t: Seq<I>)
    requires m.valid(), open_at(m, t), t.len() >= 1,
    ensures hole_at(m, t[0]) =~= t, m.h().contains_key(t[0]), m.h()[t[0]].face == NONE, simple(m.h(), t), t.contains(t[0]), t.contains(t.last()),
{
    reveal(open_at);
    assert(ring_at(m.h(), t, 0));
    lemma_ring_orbit(m, t);
}
proof fn lemma_uv(m: int, n: int, i: int)
    requires m >= 3, n >= 2, 1 <= i <= n - 1,
    ensures m * (i + 1) == m * i + m, m * i <= m * (n - 1), m * (n - 1) == m * (n - 2) + m, m * n == m * (n - 1) + m, m * (n - 2) >= 0, i < n - 1 ==> m * i <= m * (n - 2), m * (i - 1) == m * i - m, m * 0 == 0, m * 1 == m,
{
    assert(m * (i + 1) == m * i + m) by (nonlinear_arith);
    assert(m * (i - 1) == m * i - m) by (nonlinear_arith);
    assert(m * (n - 1) == m * (n - 2) + m) by (nonlinear_arith);
    assert(m * n == m * (n - 1) + m) by (nonlinear_arith);
    assert(m * i <= m * (n - 1)) by (nonlinear_arith) requires m >= 3, i <= n - 1;
    assert(m * (n - 2) >= 0) by (nonlinear_arith) requires m >= 3, n >= 2;
    if i < n - 1 { assert(m * i <= m * (n - 2)) by (nonlinear_arith) requires m >= 3, i <= n - 2; }
}
impl HalfEdgeMeshImpl {
//@fn src/primitives/sphere.rs trait MakeSphere :: regular_icosahedron
//@ret r
        requires roomy(12, 60, 20),
        ensures r.valid(), closed_mesh(r), sized(r, 12, 60, 20),
//@pre
        hide(loop_new); hide(hem3); hide(fan); hide(simple); hide(ring); hide(closed_mesh);
        let ghost mut o = arbitrary::<HalfEdgeMeshImpl>(); let ghost mut a = o; let ghost mut b = o; let ghost mut c = o; let ghost mut es = Seq::<I>::empty(); let ghost mut ts = es; let ghost mut t = es; let ghost mut ys = es; let ghost mut qs = Seq::<VP>::empty();
//@aftercall default 0
        proof { o = mesh; assert(o.h() =~= HMap::empty()); }
//@aftercall insert_loop 0
        proof { a = mesh;
            let (ps, vs, e0, t0) = choose|ps: Seq<VP>, vs: Seq<I>, es: Seq<I>, ts: Seq<I>| #[trigger] loop_new(o, a, vs, es, ts, ps) && ps.len() == 5 && start == ts[0];
            es = e0; ts = t0; lemma_spool(o, a, vs, es, ts, ps); }
//@aftercall fill_hole_apex 0
        proof { b = mesh;
            let (x, vp) = choose|x: I, vp: VP| #[trigger] fan(a, b, turned(ts), x, vp);
            lemma_spooled(a, b, turned(ts), es, x, vp, ts[0]); }
//@aftercall loft_tri_closed 0
        proof { c = mesh;
            let (q0, y0, t0) = choose|qs: Seq<VP>, ys: Seq<I>, t: Seq<I>| #[trigger] hem3(b, c, es, ys, t, qs) && t[0] == end;
            t = t0; lemma_open_hem(b, c, es, y0, t, q0); lemma_open_first(c, t); }
//@aftercall fill_hole_apex 1
        proof { let (x, vp) = choose|x: I, vp: VP| #[trigger] fan(c, mesh, t, x, vp); lemma_open_fan(c, mesh, t, x, vp); }
//@endfn
//@fn src/primitives/sphere.rs trait MakeSphere :: uv_sphere
//@ret r
        requires n >= 2, m >= 3, roomy(m * (n - 1) + 2, 4 * (m * (n - 2)) + 6 * m, m * n),
        ensures r.valid(), closed_mesh(r), sized(r, m * (n - 1) + 2, 4 * (m * (n - 2)) + 6 * m, m * n),
//@pre
        hide(loop_new); hide(hem4); hide(fan); hide(simple); hide(ring); hide(closed_mesh);
        let ghost mut o = arbitrary::<HalfEdgeMeshImpl>(); let ghost mut a = o; let ghost mut b = o; let ghost mut es = Seq::<I>::empty(); let ghost mut ts = es; let ghost mut t = es; let ghost mut k = 1int;
        proof { lemma_uv(m as int, n as int, 1); }
//@loop 0
            invariant 0 <= i_0 <= end_0, end_0 == m, res_0@.len() == i_0, 6 * m <= I::maxv(),
            decreases end_0 - i_0,
//@aftercall default 0
        proof { o = mesh; assert(o.h() =~= HMap::empty()); }
//@aftercall insert_loop 0
        proof { a = mesh;
            let (ps, vs, e0, t0) = choose|ps: Seq<VP>, vs: Seq<I>, es: Seq<I>, ts: Seq<I>| #[trigger] loop_new(o, a, vs, es, ts, ps) && ps.len() == m && prev == ts[0];
            es = e0; ts = t0; lemma_spool(o, a, vs, es, ts, ps); }
//@aftercall fill_hole_apex 0
        proof { b = mesh;
            let (x, vp) = choose|x: I, vp: VP| #[trigger] fan(a, b, es, x, vp);
            lemma_spooled(a, b, es, turned(ts), x, vp, ts[0]); t = turned(ts);
            reveal(closed_mesh); }
//@loop 1
            invariant 1 <= i_1 <= end_1 || (i_1 == 1 && end_1 == 1), end_1 == n - 1, n >= 2, m >= 3, k == i_1, mesh.valid(), open_at(mesh, t), t.len() == m, t.contains(prev), sized(mesh, m * k + 1, 4 * (m * (k - 1)) + 4 * m, m * k),
                roomy(m * (n - 1) + 2, 4 * (m * (n - 2)) + 6 * m, m * n), 6 * m <= I::maxv(),
            decreases end_1 - i_1,
//@lstart 1
            proof { lemma_uv(m as int, n as int, k); lemma_uv(m as int, n as int, k + 1); lemma_open_turn(mesh, t, prev); lemma_open_turn(mesh, t, mesh.h()[prev].next); b = mesh; es = hole_at(mesh, mesh.h()[prev].next); k = k + 1; }
//@loop 2
            invariant 0 <= i_2 <= end_2, end_2 == m, res_2@.len() == i_2, 6 * m <= I::maxv(), i < n,
            decreases end_2 - i_2,
//@aftercall loft_polygon_back 0
            proof {
                let (q0, y0, t0) = choose|qs: Seq<VP>, ys: Seq<I>, t: Seq<I>| #[trigger] hem4(b, mesh, es, ys, t, qs) && t.last() == prev;
                t = t0; lemma_open_hem(b, mesh, es, y0, t, q0); lemma_open_first(mesh, t); }
//@beforecall fill_hole_apex 1
        proof { lemma_uv(m as int, n as int, k); lemma_open_turn(mesh, t, prev); b = mesh; }
//@aftercall fill_hole_apex 1
        proof { let (x, vp) = choose|x: I, vp: VP| #[trigger] fan(b, mesh, hole_at(b, prev), x, vp); lemma_open_fan(b, mesh, hole_at(b, prev), x, vp); }
//@endfn
}
