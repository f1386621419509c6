// util::deletable: the storage all element handles point into.

trait Deletable<I>: Sized {
    /// the element carries the "no id" mark
    spec fn sdel(self) -> bool;
    /// the id stored in the element
    spec fn key(self) -> I;
    /// `id` may be stored in this element (crate-specific sanity assertions of set_id)
    spec fn id_ok(self, id: I) -> bool;
    /// same content with another id / with the id removed
    spec fn with_id(self, id: I) -> Self;
    spec fn erased(self) -> Self;

    fn is_deleted(&self) -> (r: bool)
        ensures r == self.sdel();
    fn delete(&mut self)
        requires !old(self).sdel(),
        ensures *final(self) == old(self).erased(), final(self).sdel();
    fn set_id(&mut self, id: I)
        requires old(self).sdel(), old(self).id_ok(id),
        ensures *final(self) == old(self).with_id(id), final(self).key() == id, !final(self).sdel();
    fn allocate() -> (r: Self)
        ensures r.sdel();
}

//@struct src/util/deletable.rs DeletableVector

impl<T: Deletable<I>, I: IndexType> DeletableVector<T, I> {
    /// slot i holds a live element
    spec fn live(self, i: int) -> bool {
        0 <= i < self.data@.len() && !self.data@[i].sdel()
    }
    /// the abstract content: handle -> element
    spec fn view(self) -> IMap<I, T> {
        IMap::new(|i: I| self.live(i.ix()), |i: I| self.data@[i.ix()])
    }
    spec fn in_free(self, i: int) -> bool {
        exists|k: int| 0 <= k < self.deleted@.len() && #[trigger] self.deleted@[k].ix() == i
    }
    /// slot handed out by `allocate` and not yet filled by `set`
    spec fn reserved(self, i: I) -> bool {
        i.ix() < self.data@.len() && self.data@[i.ix()].sdel() && !self.in_free(i.ix())
    }
    /// a handle can be handed out without using the reserved value max()
    spec fn room(self) -> bool {
        self.deleted@.len() > 0 || self.data@.len() < I::maxv()
    }
    spec fn inv(self) -> bool {
        &&& self.data@.len() <= I::maxv()
        &&& forall|k: int| 0 <= k < self.deleted@.len() ==>
                0 <= (#[trigger] self.deleted@[k]).ix() < self.data@.len()
                && self.data@[self.deleted@[k].ix()].sdel()
        &&& forall|j: int, k: int| 0 <= j < k < self.deleted@.len() ==>
                (#[trigger] self.deleted@[j]).ix() != (#[trigger] self.deleted@[k]).ix()
        &&& forall|i: int| #[trigger] self.live(i) ==> self.data@[i].key().ix() == i
    }
    /// n slots handed out, none given back
    spec fn packed(self, n: int) -> bool { self.deleted@.len() == 0 && self.data@.len() == n }
    spec fn in_use(self) -> int {
        self.data@.len() - self.deleted@.len()
    }

//@fn src/util/deletable.rs impl DeletableVector :: new
//@ret r
        ensures r.inv(), r@ == IMap::<I, T>::empty(), r.in_use() == 0, r.packed(0),
            forall|i: I| !r.reserved(i),
//@post
        proof { I::ix_inj(arbitrary(), arbitrary()); assert(vx_ret@ =~= IMap::<I, T>::empty());
            assert forall|i: I| !vx_ret.reserved(i) by { I::ix_inj(i, i); } }
//@endfn
//@fn src/util/deletable.rs impl DeletableVector :: clear
        ensures final(self).inv(), final(self)@ == IMap::<I, T>::empty(), final(self).in_use() == 0,
            forall|i: I| !final(self).reserved(i),
//@post
        proof { I::ix_inj(arbitrary(), arbitrary()); assert(self@ =~= IMap::<I, T>::empty());
            assert forall|i: I| !self.reserved(i) by { I::ix_inj(i, i); } }
//@endfn
//@fn src/util/deletable.rs impl DeletableVector :: iter
//@name live_iter
//@ret r
        ensures refs(r.rest()) == live_seq(self.data@),
//@loop 0
            invariant i_0 <= v_0@.len(), v_0@ == self.data@,
                refs(res_0@) == live_seq(v_0@.take(i_0 as int)),
            decreases v_0@.len() - i_0,
//@lstart 0
            let ghost gi = i_0 as int; let ghost gr = res_0@;
//@lend 0
            proof { lemma_live_step(v_0@, gi); lemma_refs_push(gr, &v_0@[gi]); }
//@after 0
            proof { assert(v_0@.take(i_0 as int) =~= v_0@); }
//@endfn
//@fn src/util/deletable.rs impl DeletableVector :: get
//@ret r
        requires self@.contains_key(index),
        ensures *r == self@[index],
//@endfn
//@fn src/util/deletable.rs impl DeletableVector :: has
//@ret r
        ensures r == self@.contains_key(index),
//@pre
        proof { I::ix_inj(index, index); }
//@endfn
//@fn src/util/deletable.rs impl DeletableVector :: get_mut
//@ret r
        requires old(self)@.contains_key(index), old(self).inv(),
        ensures *r == old(self)@[index],
            dv_upd(*old(self), *final(self), index, *final(r)),
            // writing through the reference changes this element only; the handle table stays
            // consistent as long as the id stays
            final(r).key() == index && !final(r).sdel() ==> final(self).inv()
                && final(self)@ == old(self)@.insert(index, *final(r))
                && forall|i: I| #[trigger] final(self).reserved(i) == old(self).reserved(i),
//@pre
        proof { lemma_dv_update(*old(self), index); }
//@endfn
//@fn src/util/deletable.rs impl DeletableVector :: len
//@ret r
        requires self.inv(),
        ensures r == self.in_use(),
//@pre
        proof { lemma_dv_len(*self); }
//@endfn
//@fn src/util/deletable.rs impl DeletableVector :: capacity
//@ret r
        ensures r == self.data@.len(), forall|i: I| self@.contains_key(i) || self.reserved(i) ==> i.ix() < r,
//@endfn
//@fn src/util/deletable.rs impl DeletableVector :: push
//@ret r
        requires old(self).inv(), old(self).room(), v.sdel(), forall|i: I| !old(self)@.contains_key(i) && i.ix() < I::maxv() ==> v.id_ok(i),
        ensures final(self).inv(),
            !old(self)@.contains_key(r), !old(self).reserved(r), r.ix() < I::maxv(),
            final(self)@ == old(self)@.insert(r, v.with_id(r)),
            final(self)@[r].key() == r, !final(self)@[r].sdel(),
            final(self).in_use() == old(self).in_use() + 1,
            forall|i: I| #[trigger] final(self).reserved(i) == old(self).reserved(i),
            old(self).in_free(r.ix()) || r.ix() == old(self).data@.len(),
            old(self).deleted@.len() > 0 ==> old(self).in_free(r.ix()),
//@pre
        proof { I::ix_inj(arbitrary(), arbitrary()); lemma_dv_push(*old(self)); }
//@post
        proof { lemma_dv_push_end(*old(self), *self, vx_ret, v); }
//@endfn
//@fn src/util/deletable.rs impl DeletableVector :: set
        requires old(self).inv(), old(self).reserved(index), v.sdel(), v.id_ok(index), index.ix() < I::maxv(),
        ensures final(self).inv(),
            final(self)@ == old(self)@.insert(index, v.with_id(index)),
            final(self)@[index].key() == index, !final(self)@[index].sdel(),
            final(self).in_use() == old(self).in_use(),
            forall|i: I| #[trigger] final(self).reserved(i) == (old(self).reserved(i) && i != index),
            forall|n: int| #[trigger] old(self).packed(n) ==> final(self).packed(n),
//@pre
        proof { I::ix_inj(index, index); }
//@post
        proof { lemma_dv_set_end(*old(self), *self, index, v); }
//@endfn
//@fn src/util/deletable.rs impl DeletableVector :: delete_internal
        requires old(self).inv(), old(self)@.contains_key(f),
        ensures final(self).inv(),
            final(self)@ == old(self)@.remove(f),
            final(self).in_use() == old(self).in_use() - 1,
            forall|i: I| #[trigger] final(self).reserved(i) == old(self).reserved(i),
            final(self).in_free(f.ix()), final(self).room(),
//@post
        proof { lemma_dv_delete_end(*old(self), *self, f); }
//@endfn
//@fn src/util/deletable.rs impl DeletableVector :: allocate
//@ret r
        requires old(self).inv(), old(self).room(),
        ensures final(self).inv(),
            !old(self)@.contains_key(r), !old(self).reserved(r), r.ix() < I::maxv(),
            final(self)@ == old(self)@,
            final(self).in_use() == old(self).in_use() + 1,
            forall|i: I| #[trigger] final(self).reserved(i) == (old(self).reserved(i) || i == r),
            old(self).in_free(r.ix()) || r.ix() == old(self).data@.len(),
            old(self).deleted@.len() > 0 ==> old(self).in_free(r.ix()),
            forall|n: int| #[trigger] old(self).packed(n) ==> final(self).packed(n + 1) && r.ix() == n,
//@pre
        proof { I::ix_inj(arbitrary(), arbitrary()); lemma_dv_push(*old(self)); }
//@post
        proof { lemma_dv_alloc_end(*old(self), *self, vx_ret); }
//@endfn
}

spec fn dv_upd<T: Deletable<I>, I: IndexType>(d: DeletableVector<T, I>, n: DeletableVector<T, I>, index: I, t: T) -> bool {
    n.data@ == d.data@.update(index.ix(), t) && n.deleted == d.deleted
}

/// the live elements in slot order
spec fn live_seq<T: Deletable<I>, I>(s: Seq<T>) -> Seq<T>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() }
    else if s.last().sdel() { live_seq(s.drop_last()) }
    else { live_seq(s.drop_last()).push(s.last()) }
}
spec fn refs<T>(s: Seq<&T>) -> Seq<T> {
    Seq::new(s.len(), |i: int| *s[i])
}
proof fn lemma_refs_push<T>(s: Seq<&T>, x: &T)
    ensures refs(s.push(x)) == refs(s).push(*x),
{
    assert(refs(s.push(x)) =~= refs(s).push(*x));
}
proof fn lemma_live_step<T: Deletable<I>, I>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures live_seq::<T, I>(s.take(i + 1)) == (if s[i].sdel() { live_seq::<T, I>(s.take(i)) } else { live_seq::<T, I>(s.take(i)).push(s[i]) }),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}

proof fn lemma_dv_update<T: Deletable<I>, I: IndexType>(d: DeletableVector<T, I>, index: I)
    requires d.inv(), d@.contains_key(index),
    ensures forall|n: DeletableVector<T, I>, t: T|
        #[trigger] dv_upd(d, n, index, t) && t.key() == index && !t.sdel()
        ==> (n.inv() && n@ == d@.insert(index, t) && forall|i: I| #[trigger] n.reserved(i) == d.reserved(i)),
{
    assert forall|n: DeletableVector<T, I>, t: T|
        #[trigger] dv_upd(d, n, index, t) && t.key() == index && !t.sdel()
        implies (n.inv() && n@ == d@.insert(index, t) && forall|i: I| #[trigger] n.reserved(i) == d.reserved(i)) by {
        assert forall|i: int| #[trigger] n.live(i) implies n.data@[i].key().ix() == i by {
            assert(i != index.ix() ==> d.live(i));
        }
        assert forall|i: I| #[trigger] n@.contains_key(i) == d@.insert(index, t).contains_key(i) by { I::ix_inj(i, index); }
        assert forall|i: I| n@.contains_key(i) implies n@[i] == d@.insert(index, t)[i] by { I::ix_inj(i, index); }
        assert(n@ =~= d@.insert(index, t));
        assert forall|i: I| #[trigger] n.reserved(i) == d.reserved(i) by { I::ix_inj(i, index);
            assert(n.in_free(i.ix()) == d.in_free(i.ix())); }
    }
}

/// distinct in-range free-list entries: the free list is no longer than the data
proof fn lemma_dv_len<T: Deletable<I>, I: IndexType>(d: DeletableVector<T, I>)
    requires d.inv(),
    ensures d.deleted@.len() <= d.data@.len(),
{
    let s = Seq::new(d.deleted@.len(), |k: int| d.deleted@[k].ix());
    assert(s.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
            if i < j { assert(d.deleted@[i].ix() != d.deleted@[j].ix()); } else { assert(d.deleted@[j].ix() != d.deleted@[i].ix()); }
        }
    }
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] < d.data@.len() by {
        assert(s[i] == d.deleted@[i].ix());
    }
    lemma_pigeon(s, d.data@.len() as int);
}

proof fn lemma_dv_push<T: Deletable<I>, I: IndexType>(d: DeletableVector<T, I>)
    requires d.inv(),
    ensures
        d.deleted@.len() > 0 ==> {
            let i = d.deleted@[d.deleted@.len() - 1];
            0 <= i.ix() < d.data@.len() && i.ix() < I::maxv() && !d@.contains_key(i)
        },
        forall|i: I| i.ix() >= d.data@.len() ==> !d@.contains_key(i),
{
    if d.deleted@.len() > 0 {
        let i = d.deleted@[d.deleted@.len() - 1];
        I::ix_inj(i, i);
    }
}

proof fn lemma_dv_push_end<T: Deletable<I>, I: IndexType>(o: DeletableVector<T, I>, n: DeletableVector<T, I>, r: I, v: T)
    requires o.inv(), o.room(), !v.with_id(r).sdel(), v.with_id(r).key() == r,
        o.deleted@.len() > 0 ==> r == o.deleted@.last() && n.deleted@ == o.deleted@.drop_last()
            && n.data@ == o.data@.update(r.ix(), v.with_id(r)),
        o.deleted@.len() == 0 ==> r.ix() == o.data@.len() && n.deleted@ == o.deleted@
            && n.data@ == o.data@.push(v.with_id(r)),
    ensures
        n.inv(), !o@.contains_key(r), !o.reserved(r), r.ix() < I::maxv(), n@ == o@.insert(r, v.with_id(r)),
        forall|i: I| #[trigger] n.reserved(i) == o.reserved(i),
        o.in_free(r.ix()) || r.ix() == o.data@.len(),
        o.deleted@.len() > 0 ==> o.in_free(r.ix()),
{
    I::ix_inj(r, r);
    if o.deleted@.len() > 0 {
        assert(o.deleted@[o.deleted@.len() - 1].ix() == r.ix());
        assert(o.in_free(r.ix()));
    }
    assert forall|i: int| #[trigger] n.live(i) implies n.data@[i].key().ix() == i by {
        assert(i != r.ix() ==> o.live(i));
    }
    assert forall|i: I| #[trigger] n@.contains_key(i) == o@.insert(r, v.with_id(r)).contains_key(i) by { I::ix_inj(i, r); }
    assert forall|i: I| n@.contains_key(i) implies n@[i] == o@.insert(r, v.with_id(r))[i] by { I::ix_inj(i, r); }
    assert(n@ =~= o@.insert(r, v.with_id(r)));
    assert forall|i: I| #[trigger] n.reserved(i) == o.reserved(i) by {
        I::ix_inj(i, r);
        lemma_dv_free_pop(o, n, i.ix());
    }
}

proof fn lemma_dv_free_pop<T: Deletable<I>, I: IndexType>(o: DeletableVector<T, I>, n: DeletableVector<T, I>, i: int)
    requires o.inv(),
        o.deleted@.len() > 0 ==> n.deleted@ == o.deleted@.drop_last(),
        o.deleted@.len() == 0 ==> n.deleted@ == o.deleted@,
    ensures
        o.deleted@.len() == 0 ==> n.in_free(i) == o.in_free(i),
        o.deleted@.len() > 0 ==> n.in_free(i) == (o.in_free(i) && i != o.deleted@.last().ix()),
{
    if n.in_free(i) {
        let k = choose|k: int| 0 <= k < n.deleted@.len() && #[trigger] n.deleted@[k].ix() == i;
        assert(o.deleted@[k].ix() == i);
        assert(o.in_free(i));
        if o.deleted@.len() > 0 { assert(o.deleted@[k].ix() != o.deleted@[o.deleted@.len() - 1].ix()); }
    }
    if o.in_free(i) {
        let k = choose|k: int| 0 <= k < o.deleted@.len() && #[trigger] o.deleted@[k].ix() == i;
        if k < n.deleted@.len() { assert(n.deleted@[k].ix() == i); }
    }
}

proof fn lemma_dv_set_end<T: Deletable<I>, I: IndexType>(o: DeletableVector<T, I>, n: DeletableVector<T, I>, r: I, v: T)
    requires o.inv(), o.reserved(r), !v.with_id(r).sdel(), v.with_id(r).key() == r,
        n.deleted@ == o.deleted@, n.data@ == o.data@.update(r.ix(), v.with_id(r)),
    ensures n.inv(), n@ == o@.insert(r, v.with_id(r)),
        forall|i: I| #[trigger] n.reserved(i) == (o.reserved(i) && i != r),
{
    I::ix_inj(r, r);
    assert forall|k: int| 0 <= k < n.deleted@.len() implies
        0 <= (#[trigger] n.deleted@[k]).ix() < n.data@.len() && n.data@[n.deleted@[k].ix()].sdel() by {
        assert(o.deleted@[k].ix() != r.ix()) by { if o.deleted@[k].ix() == r.ix() { assert(o.in_free(r.ix())); } }
    }
    assert forall|i: int| #[trigger] n.live(i) implies n.data@[i].key().ix() == i by {
        assert(i != r.ix() ==> o.live(i));
    }
    assert forall|i: I| #[trigger] n@.contains_key(i) == o@.insert(r, v.with_id(r)).contains_key(i) by { I::ix_inj(i, r); }
    assert forall|i: I| n@.contains_key(i) implies n@[i] == o@.insert(r, v.with_id(r))[i] by { I::ix_inj(i, r); }
    assert(n@ =~= o@.insert(r, v.with_id(r)));
    assert forall|i: I| #[trigger] n.reserved(i) == (o.reserved(i) && i != r) by {
        I::ix_inj(i, r);
        assert(n.in_free(i.ix()) == o.in_free(i.ix()));
    }
}

proof fn lemma_dv_delete_end<T: Deletable<I>, I: IndexType>(o: DeletableVector<T, I>, n: DeletableVector<T, I>, f: I)
    requires o.inv(), o@.contains_key(f), o.data@[f.ix()].erased().sdel(),
        n.data@ == o.data@.update(f.ix(), o.data@[f.ix()].erased()), n.deleted@ == o.deleted@.push(f),
    ensures n.inv(), n@ == o@.remove(f), forall|i: I| #[trigger] n.reserved(i) == o.reserved(i),
        n.in_free(f.ix()), n.room(),
{
    I::ix_inj(f, f);
    assert(n.deleted@[o.deleted@.len() as int].ix() == f.ix());
    assert forall|k: int| 0 <= k < n.deleted@.len() implies
        0 <= (#[trigger] n.deleted@[k]).ix() < n.data@.len() && n.data@[n.deleted@[k].ix()].sdel() by {
        if k < o.deleted@.len() { assert(o.deleted@[k] == n.deleted@[k]); }
    }
    assert forall|j: int, k: int| 0 <= j < k < n.deleted@.len() implies
        (#[trigger] n.deleted@[j]).ix() != (#[trigger] n.deleted@[k]).ix() by {
        assert(o.deleted@[j] == n.deleted@[j]);
        if k < o.deleted@.len() { assert(o.deleted@[k] == n.deleted@[k]); }
        else { assert(o.data@[o.deleted@[j].ix()].sdel()); }
    }
    assert forall|i: int| #[trigger] n.live(i) implies n.data@[i].key().ix() == i by {
        assert(i != f.ix() ==> o.live(i));
    }
    assert forall|i: I| #[trigger] n@.contains_key(i) == o@.remove(f).contains_key(i) by { I::ix_inj(i, f); }
    assert(n@ =~= o@.remove(f));
    assert forall|i: I| #[trigger] n.reserved(i) == o.reserved(i) by {
        I::ix_inj(i, f);
        if o.in_free(i.ix()) {
            let k = choose|k: int| 0 <= k < o.deleted@.len() && #[trigger] o.deleted@[k].ix() == i.ix();
            assert(n.deleted@[k].ix() == i.ix());
        }
        if n.in_free(i.ix()) && i != f {
            let k = choose|k: int| 0 <= k < n.deleted@.len() && #[trigger] n.deleted@[k].ix() == i.ix();
            assert(k < o.deleted@.len());
            assert(o.deleted@[k].ix() == i.ix());
        }
    }
}

proof fn lemma_dv_alloc_end<T: Deletable<I>, I: IndexType>(o: DeletableVector<T, I>, n: DeletableVector<T, I>, r: I)
    requires o.inv(), o.room(),
        o.deleted@.len() > 0 ==> r == o.deleted@.last() && n.deleted@ == o.deleted@.drop_last() && n.data@ == o.data@,
        o.deleted@.len() == 0 ==> r.ix() == o.data@.len() && n.deleted@ == o.deleted@
            && n.data@.len() == o.data@.len() + 1 && n.data@.last().sdel()
            && forall|i: int| 0 <= i < o.data@.len() ==> n.data@[i] == o.data@[i],
    ensures n.inv(), !o@.contains_key(r), !o.reserved(r), r.ix() < I::maxv(), n@ == o@,
        forall|i: I| #[trigger] n.reserved(i) == (o.reserved(i) || i == r),
        o.in_free(r.ix()) || r.ix() == o.data@.len(),
        o.deleted@.len() > 0 ==> o.in_free(r.ix()),
{
    I::ix_inj(r, r);
    if o.deleted@.len() > 0 {
        assert(o.deleted@[o.deleted@.len() - 1].ix() == r.ix());
        assert(o.in_free(r.ix()));
    }
    assert forall|i: int| #[trigger] n.live(i) implies n.data@[i].key().ix() == i by {
        assert(o.live(i));
    }
    assert forall|i: I| #[trigger] n@.contains_key(i) == o@.contains_key(i) by { I::ix_inj(i, r); }
    assert forall|i: I| n@.contains_key(i) implies n@[i] == o@[i] by { I::ix_inj(i, r); }
    assert(n@ =~= o@);
    assert forall|i: I| #[trigger] n.reserved(i) == (o.reserved(i) || i == r) by {
        I::ix_inj(i, r);
        lemma_dv_free_pop(o, n, i.ix());
    }
}
