// The three traversals as the crate implements them.
//@struct src/halfedge/edge/iterator.rs ForwardEdgeIterator
//@struct src/halfedge/edge/iterator.rs BackwardEdgeIterator
//@struct src/halfedge/edge/iterator.rs ForwardEdgeIteratorMut mesh
//@struct src/halfedge/vertex/iterator.rs IncidentToVertexIterator

/// the elements of the cycle of x not yet visited when `cur` was visited last
spec fn todo_ids(p: IMap<I, I>, first: I, cur: I, is_first: bool) -> Seq<I> {
    if is_first { orbit(p, first) } else { orbit(p, first).skip(opos(p, first, cur) as int + 1) }
}
spec fn elems(h: HMap, s: Seq<I>) -> Seq<HalfEdgeImpl> { s.map_values(|e: I| h[e]) }
spec fn hsize(m: HalfEdgeMeshImpl) -> int { m.halfedges.data@.len() as int }

proof fn lemma_nperm(m: HalfEdgeMeshImpl)
    requires links(m.h()),
    ensures perm(nmap(m.h()), pmap(m.h()), hsize(m)), perm(pmap(m.h()), nmap(m.h()), hsize(m)),
{
    let h = m.h();
    assert forall|x: I| #[trigger] nmap(h).contains_key(x) implies nmap(h).contains_key(nmap(h)[x]) && pmap(h)[nmap(h)[x]] == x && 0 <= x.ix() < hsize(m)
            && nmap(h).contains_key(pmap(h)[x]) && nmap(h)[pmap(h)[x]] == x by { assert(link_ok(h, x)); I::ix_inj(x, x); }
    assert forall|x: I| #[trigger] pmap(h).contains_key(x) implies pmap(h).contains_key(pmap(h)[x]) && nmap(h)[pmap(h)[x]] == x && 0 <= x.ix() < hsize(m)
            && pmap(h).contains_key(nmap(h)[x]) && pmap(h)[nmap(h)[x]] == x by { assert(link_ok(h, x)); I::ix_inj(x, x); }
}
proof fn lemma_wperm(m: HalfEdgeMeshImpl)
    requires links(m.h()), twins(m.h()),
    ensures perm(wmap(m.h()), vmap(m.h()), hsize(m)),
{
    let h = m.h();
    assert forall|x: I| #[trigger] wmap(h).contains_key(x) implies wmap(h).contains_key(wmap(h)[x]) && vmap(h)[wmap(h)[x]] == x && 0 <= x.ix() < hsize(m)
            && wmap(h).contains_key(vmap(h)[x]) && wmap(h)[vmap(h)[x]] == x by {
        assert(link_ok(h, x)); assert(twin_ok(h, x)); assert(link_ok(h, h[x].twin)); assert(twin_ok(h, h[x].prev)); I::ix_inj(x, x);
    }
}
/// one step of any of the traversals
proof fn lemma_todo(p: IMap<I, I>, q: IMap<I, I>, n: int, first: I, cur: I, b: bool)
    requires perm(p, q, n), p.contains_key(first), in_orbit(p, first, cur), b ==> cur == first,
    ensures
        ({ let t = todo_ids(p, first, cur, b);
           let nx = p[cur];
           &&& p.contains_key(cur) && p.contains_key(nx)
           &&& t.len() <= n
           &&& b ==> t.len() > 0 && t[0] == cur && t.drop_first() == todo_ids(p, first, cur, false)
           &&& !b && nx == first ==> t.len() == 0
           &&& !b && nx != first ==> t.len() > 0 && t[0] == nx && in_orbit(p, first, nx)
                    && t.drop_first() == todo_ids(p, first, nx, false) }),
{
    lemma_orbit(p, q, n, first);
    lemma_ostep(p, q, n, first, cur);
    lemma_ostart(p, q, n, first);
    let o = orbit(p, first);
    let t = todo_ids(p, first, cur, b);
    let nx = p[cur];
    if b {
        assert(t.drop_first() =~= todo_ids(p, first, cur, false));
    } else if nx != first {
        lemma_ostep(p, q, n, first, nx);
        assert(t.drop_first() =~= todo_ids(p, first, nx, false));
    } else {
        if opos(p, first, cur) + 1 < period(p, first) { assert(false); }
    }
}
proof fn lemma_fresh(p: IMap<I, I>, q: IMap<I, I>, n: int, first: I)
    requires perm(p, q, n), p.contains_key(first),
    ensures in_orbit(p, first, first), 0 < orbit(p, first).len() <= n,
{
    lemma_orbit(p, q, n, first);
    lemma_ostart(p, q, n, first);
}
proof fn lemma_elems(h: HMap, s: Seq<I>)
    ensures elems(h, s).len() == s.len(), s.len() > 0 ==> elems(h, s)[0] == h[s[0]] && elems(h, s).drop_first() == elems(h, s.drop_first()),
{
    if s.len() > 0 { assert(elems(h, s).drop_first() =~= elems(h, s.drop_first())); }
}

impl<'a> ForwardEdgeIterator<'a> {
    spec fn inv(self) -> bool {
        let h = self.mesh.h();
        links(h) && h.contains_key(self.first) && h.contains_key(self.current.id) && self.current == h[self.current.id]
        && in_orbit(nmap(h), self.first, self.current.id) && (self.is_first ==> self.current.id == self.first)
    }
    spec fn todo(self) -> Seq<I> { todo_ids(nmap(self.mesh.h()), self.first, self.current.id, self.is_first) }
    spec fn rest(self) -> Seq<HalfEdgeImpl> { elems(self.mesh.h(), self.todo()) }
    spec fn fresh(self, e: HalfEdgeImpl, m: HalfEdgeMeshImpl) -> bool {
        *self.mesh == m && self.is_first && self.first == e.id && self.current == e &&
        (links(m.h()) && m.h().contains_key(e.id) && e == m.h()[e.id]
            ==> self.inv() && self.todo() == orbit(nmap(m.h()), e.id) && self.todo().len() > 0)
    }
    spec fn moved(self, e: HalfEdgeImpl) -> Self { ForwardEdgeIterator { is_first: false, first: self.first, current: e, mesh: self.mesh } }
    proof fn start(self)
        requires self.is_first, self.current.id == self.first, links(self.mesh.h()), self.mesh.h().contains_key(self.first), self.current == self.mesh.h()[self.first],
        ensures self.inv(), self.todo() == orbit(nmap(self.mesh.h()), self.first), self.todo().len() > 0,
    {
        lemma_nperm(*self.mesh);
        lemma_fresh(nmap(self.mesh.h()), pmap(self.mesh.h()), hsize(*self.mesh), self.first);
    }
    proof fn step(self)
        requires self.inv(),
        ensures ({
            let h = self.mesh.h(); let nx = self.current.next; let c = self.current.id;
            &&& h.contains_key(nx) && h[nx].id == nx && nmap(h)[c] == nx && self.todo().len() <= hsize(*self.mesh)
            &&& self.is_first ==> self.todo().len() > 0 && self.todo()[0] == c && self.todo().drop_first() == todo_ids(nmap(h), self.first, c, false)
            &&& !self.is_first && nx == self.first ==> self.todo().len() == 0
            &&& !self.is_first && nx != self.first ==> self.todo().len() > 0 && self.todo()[0] == nx && in_orbit(nmap(h), self.first, nx)
                    && self.todo().drop_first() == todo_ids(nmap(h), self.first, nx, false)
            &&& self.rest().len() == self.todo().len()
            &&& self.todo().len() > 0 ==> self.rest()[0] == h[self.todo()[0]] && self.rest().drop_first() == elems(h, self.todo().drop_first())
        }),
    {
        let h = self.mesh.h(); let c = self.current.id;
        lemma_nperm(*self.mesh);
        assert(link_ok(h, c)); assert(link_ok(h, h[c].next));
        lemma_todo(nmap(h), pmap(h), hsize(*self.mesh), self.first, c, self.is_first);
        lemma_elems(h, self.todo());
    }
//@fn src/halfedge/edge/iterator.rs impl ForwardEdgeIterator :: new
//@ret r
        ensures r.fresh(first, *mesh),
//@post
        proof { if links(mesh.h()) && mesh.h().contains_key(first.id) && first == mesh.h()[first.id] { vx_ret.start(); } }
//@endfn
//@fn src/halfedge/edge/iterator.rs impl Iterator for ForwardEdgeIterator :: next
//@ret r
        requires old(self).inv(),
        ensures final(self).inv(), final(self).mesh == old(self).mesh, final(self).first == old(self).first,
            old(self).todo().len() == old(self).rest().len(),
            old(self).rest().len() == 0 ==> r.is_none() && final(self).todo() == old(self).todo(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && r.unwrap() == old(self).mesh.h()[old(self).todo()[0]]
                && final(self).todo() == old(self).todo().drop_first() && final(self).rest() == old(self).rest().drop_first(),
//@pre
        proof { self.step(); }
//@endfn
//@fn src/halfedge/edge/iterator.rs impl Iterator for ForwardEdgeIterator :: size_hint
//@ret r
        requires self.inv(), hsize(*self.mesh) <= usize::MAX,
        ensures r.0 == self.rest().len(), r.1 == Some(r.0),
//@pre
        proof { self.step(); self.moved(self.current).step(); }
//@loop 0
            invariant self.inv(), hsize(*self.mesh) <= usize::MAX, self.moved(curr).inv(),
                len + self.moved(curr).todo().len() == self.todo().len(),
                self.todo().len() <= hsize(*self.mesh), self.rest().len() == self.todo().len(),
                self.mesh.h().contains_key(curr.next), self.mesh.h()[curr.next].id == curr.next,
                curr.next == self.first ==> self.moved(curr).todo().len() == 0,
            decreases self.moved(curr).todo().len(),
//@lstart 0
            proof { self.moved(curr).step(); }
//@lend 0
            proof { self.moved(curr).step(); }
//@endfn
}
impl<'a> BackwardEdgeIterator<'a> {
    spec fn inv(self) -> bool {
        let h = self.mesh.h();
        links(h) && h.contains_key(self.first) && h.contains_key(self.current.id) && self.current == h[self.current.id]
        && in_orbit(pmap(h), self.first, self.current.id) && (self.is_first ==> self.current.id == self.first)
    }
    spec fn todo(self) -> Seq<I> { todo_ids(pmap(self.mesh.h()), self.first, self.current.id, self.is_first) }
    spec fn rest(self) -> Seq<HalfEdgeImpl> { elems(self.mesh.h(), self.todo()) }
    spec fn fresh(self, e: HalfEdgeImpl, m: HalfEdgeMeshImpl) -> bool {
        *self.mesh == m && self.is_first && self.first == e.id && self.current == e &&
        (links(m.h()) && m.h().contains_key(e.id) && e == m.h()[e.id]
            ==> self.inv() && self.todo() == orbit(pmap(m.h()), e.id) && self.todo().len() > 0)
    }
    proof fn start(self)
        requires self.is_first, self.current.id == self.first, links(self.mesh.h()), self.mesh.h().contains_key(self.first), self.current == self.mesh.h()[self.first],
        ensures self.inv(), self.todo() == orbit(pmap(self.mesh.h()), self.first), self.todo().len() > 0,
    {
        lemma_nperm(*self.mesh);
        lemma_fresh(pmap(self.mesh.h()), nmap(self.mesh.h()), hsize(*self.mesh), self.first);
    }
    proof fn step(self)
        requires self.inv(),
        ensures ({
            let h = self.mesh.h(); let nx = self.current.prev; let c = self.current.id;
            &&& h.contains_key(nx) && h[nx].id == nx && pmap(h)[c] == nx && self.todo().len() <= hsize(*self.mesh)
            &&& self.is_first ==> self.todo().len() > 0 && self.todo()[0] == c && self.todo().drop_first() == todo_ids(pmap(h), self.first, c, false)
            &&& !self.is_first && nx == self.first ==> self.todo().len() == 0
            &&& !self.is_first && nx != self.first ==> self.todo().len() > 0 && self.todo()[0] == nx && in_orbit(pmap(h), self.first, nx)
                    && self.todo().drop_first() == todo_ids(pmap(h), self.first, nx, false)
            &&& self.rest().len() == self.todo().len()
            &&& self.todo().len() > 0 ==> self.rest()[0] == h[self.todo()[0]] && self.rest().drop_first() == elems(h, self.todo().drop_first())
        }),
    {
        let h = self.mesh.h(); let c = self.current.id;
        lemma_nperm(*self.mesh);
        assert(link_ok(h, c)); assert(link_ok(h, h[c].prev));
        lemma_todo(pmap(h), nmap(h), hsize(*self.mesh), self.first, c, self.is_first);
        lemma_elems(h, self.todo());
    }
//@fn src/halfedge/edge/iterator.rs impl BackwardEdgeIterator :: new
//@ret r
        ensures r.fresh(first, *mesh),
//@post
        proof { if links(mesh.h()) && mesh.h().contains_key(first.id) && first == mesh.h()[first.id] { vx_ret.start(); } }
//@endfn
//@fn src/halfedge/edge/iterator.rs impl Iterator for BackwardEdgeIterator :: next
//@ret r
        requires old(self).inv(),
        ensures final(self).inv(), final(self).mesh == old(self).mesh, final(self).first == old(self).first,
            old(self).todo().len() == old(self).rest().len(),
            old(self).rest().len() == 0 ==> r.is_none() && final(self).todo() == old(self).todo(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && r.unwrap() == old(self).mesh.h()[old(self).todo()[0]]
                && final(self).todo() == old(self).todo().drop_first() && final(self).rest() == old(self).rest().drop_first(),
//@pre
        proof { self.step(); }
//@endfn
}
impl ForwardEdgeIteratorMut {
    spec fn inv(self, h: HMap) -> bool {
        links(h) && h.contains_key(self.first) && in_orbit(nmap(h), self.first, self.current) && (self.is_first ==> self.current == self.first)
    }
    spec fn todo(self, h: HMap) -> Seq<I> { todo_ids(nmap(h), self.first, self.current, self.is_first) }
//@fn src/halfedge/edge/iterator.rs impl ForwardEdgeIteratorMut :: new
//@handles
//@ret r
        ensures r.is_first, r.first == first, r.current == first,
//@endfn
//@fn src/halfedge/edge/iterator.rs impl Iterator for ForwardEdgeIteratorMut :: next
//@handles
//@retty Option<I>
//@param +mesh: &HalfEdgeMeshImpl
//@ret r
        requires old(self).inv(mesh.h()),
        ensures final(self).inv(mesh.h()), final(self).first == old(self).first,
            old(self).todo(mesh.h()).len() == 0 ==> r.is_none() && final(self).todo(mesh.h()) == old(self).todo(mesh.h()),
            old(self).todo(mesh.h()).len() > 0 ==> r == Some(old(self).todo(mesh.h())[0]) && mesh.h().contains_key(r.unwrap())
                && final(self).todo(mesh.h()) == old(self).todo(mesh.h()).drop_first(),
//@pre
        proof {
            lemma_nperm(*mesh);
            lemma_todo(nmap(mesh.h()), pmap(mesh.h()), hsize(*mesh), self.first, self.current, self.is_first);
            assert(link_ok(mesh.h(), self.current)); assert(link_ok(mesh.h(), mesh.h()[self.current].next));
        }
//@endfn
}
impl HalfEdgeImpl {
//@fn src/halfedge/edge/iterator.rs impl HalfEdgeImpl :: edges_face_mut
//@handles
//@retty ForwardEdgeIteratorMut
//@ret r
        ensures r.is_first, r.first == self.id, r.current == self.id,
//@endfn
}
impl<'a> IncidentToVertexIterator<'a> {
    spec fn inv(self) -> bool {
        let h = self.mesh.h();
        self.current != NONE ==> links(h) && twins(h) && h.contains_key(self.first) && h.contains_key(self.current)
        && in_orbit(wmap(h), self.first, self.current) && (self.is_first ==> self.current == self.first)
    }
    spec fn todo(self) -> Seq<I> {
        if self.current == NONE { Seq::empty() } else { todo_ids(wmap(self.mesh.h()), self.first, self.current, self.is_first) }
    }
    spec fn rest(self) -> Seq<HalfEdgeImpl> { elems(self.mesh.h(), self.todo()) }
    spec fn fresh(self, e: I, m: HalfEdgeMeshImpl) -> bool {
        *self.mesh == m && self.is_first && self.first == e && self.current == e &&
        (e == NONE ==> self.inv() && self.todo().len() == 0) &&
        (links(m.h()) && twins(m.h()) && m.h().contains_key(e) ==> self.inv() && self.todo() == orbit(wmap(m.h()), e) && self.todo().len() > 0)
    }
    proof fn start(self)
        requires self.is_first, self.current == self.first, self.current != NONE ==> links(self.mesh.h()) && twins(self.mesh.h()) && self.mesh.h().contains_key(self.first),
        ensures self.inv(), self.todo() == (if self.current == NONE { Seq::empty() } else { orbit(wmap(self.mesh.h()), self.first) }),
            self.current != NONE ==> self.todo().len() > 0,
    {
        if self.current != NONE {
            lemma_wperm(*self.mesh);
            lemma_fresh(wmap(self.mesh.h()), vmap(self.mesh.h()), hsize(*self.mesh), self.first);
        }
    }
    proof fn step(self)
        requires self.inv(),
        ensures
            self.rest().len() == self.todo().len(),
            self.todo().len() > 0 ==> self.rest()[0] == self.mesh.h()[self.todo()[0]] && self.rest().drop_first() == elems(self.mesh.h(), self.todo().drop_first()),
            self.current != NONE ==> ({
            let h = self.mesh.h(); let c = self.current; let nx = h[h[c].twin].next;
            &&& h.contains_key(h[c].twin) && h.contains_key(nx) && h[nx].id == nx && nx != NONE && wmap(h)[c] == nx && self.todo().len() <= hsize(*self.mesh)
            &&& self.is_first ==> self.todo().len() > 0 && self.todo()[0] == c && self.todo().drop_first() == todo_ids(wmap(h), self.first, c, false)
            &&& !self.is_first && nx == self.first ==> self.todo().len() == 0
            &&& !self.is_first && nx != self.first ==> self.todo().len() > 0 && self.todo()[0] == nx && in_orbit(wmap(h), self.first, nx)
                    && self.todo().drop_first() == todo_ids(wmap(h), self.first, nx, false)
        }),
    {
        let h = self.mesh.h(); let c = self.current;
        if c != NONE {
            lemma_wperm(*self.mesh);
            assert(link_ok(h, c)); assert(twin_ok(h, c)); assert(link_ok(h, h[c].twin)); assert(link_ok(h, h[h[c].twin].next));
            lemma_todo(wmap(h), vmap(h), hsize(*self.mesh), self.first, c, self.is_first);
        }
        lemma_elems(h, self.todo());
    }
//@fn src/halfedge/vertex/iterator.rs impl IncidentToVertexIterator :: new
//@ret r
        ensures r.fresh(first.id, *mesh),
//@post
        proof { if links(mesh.h()) && twins(mesh.h()) && mesh.h().contains_key(first.id) { assert(link_ok(mesh.h(), first.id)); vx_ret.start(); } }
//@endfn
//@fn src/halfedge/vertex/iterator.rs impl IncidentToVertexIterator :: empty
//@ret r
        ensures r.fresh(NONE, *mesh),
//@post
        proof { if links(mesh.h()) && mesh.h().contains_key(NONE) { assert(link_ok(mesh.h(), NONE)); } }
//@endfn
//@fn src/halfedge/vertex/iterator.rs impl Iterator for IncidentToVertexIterator :: next
//@ret r
        requires old(self).inv(),
        ensures final(self).inv(), final(self).mesh == old(self).mesh, final(self).first == old(self).first,
            old(self).todo().len() == old(self).rest().len(),
            old(self).rest().len() == 0 ==> r.is_none() && final(self).todo() == old(self).todo(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && r.unwrap() == old(self).mesh.h()[old(self).todo()[0]]
                && final(self).todo() == old(self).todo().drop_first() && final(self).rest() == old(self).rest().drop_first(),
//@pre
        proof { self.step(); }
//@endfn
}
