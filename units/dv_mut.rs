// DeletableVector::iter_mut: references to exactly the live elements.

/// the value behind the j-th reference now and when it is given back
spec fn cur<T>(s: Seq<&mut T>, j: int) -> T { *s[j] }
#[verifier::prophetic]
spec fn fin<T>(s: Seq<&mut T>, j: int) -> T { *final(s[j]) }
// the references handed out by Vec::iter_mut: one per element, in order
#[verifier::external_body]
fn vec_iter_mut<T>(v: &mut Vec<T>) -> (r: GIter<&mut T>)
    ensures
        r.rest().len() == old(v)@.len(),
        final(v)@.len() == old(v)@.len(),
        forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] cur(r.rest(), i) == old(v)@[i],
        forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == fin(r.rest(), i),
{ unimplemented!() }

/// positions of the live slots, ascending
spec fn live_ix<T: Deletable<I>, I: IndexType>(s: Seq<T>) -> Seq<int>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() }
    else if s.last().sdel() { live_ix::<T, I>(s.drop_last()) }
    else { live_ix::<T, I>(s.drop_last()).push(s.len() - 1) }
}
proof fn lemma_live_ix<T: Deletable<I>, I: IndexType>(s: Seq<T>)
    ensures
        forall|j: int| 0 <= j < live_ix::<T, I>(s).len() ==> 0 <= #[trigger] live_ix::<T, I>(s)[j] < s.len() && !s[live_ix::<T, I>(s)[j]].sdel(),
        forall|i: int| 0 <= i < s.len() && !(#[trigger] s[i]).sdel() ==> live_ix::<T, I>(s).contains(i),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_live_ix::<T, I>(s.drop_last());
        let p = live_ix::<T, I>(s.drop_last());
        assert forall|i: int| 0 <= i < s.len() && !(#[trigger] s[i]).sdel() implies live_ix::<T, I>(s).contains(i) by {
            if i == s.len() - 1 { assert(live_ix::<T, I>(s)[p.len() as int] == i); }
            else { assert(s.drop_last()[i] == s[i]); let j = choose|j: int| 0 <= j < p.len() && p[j] == i; assert(live_ix::<T, I>(s)[j] == i); }
        }
        assert forall|j: int| 0 <= j < live_ix::<T, I>(s).len() implies 0 <= #[trigger] live_ix::<T, I>(s)[j] < s.len() && !s[live_ix::<T, I>(s)[j]].sdel() by {
            if j < p.len() { assert(live_ix::<T, I>(s)[j] == p[j]); }
        }
    }
}
proof fn lemma_live_ix_step<T: Deletable<I>, I: IndexType>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures live_ix::<T, I>(s.take(i + 1)) == (if s[i].sdel() { live_ix::<T, I>(s.take(i)) } else { live_ix::<T, I>(s.take(i)).push(i) }),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
/// what handing out references to the live elements means for the table
#[verifier::prophetic]
spec fn lent<T: Deletable<I>, I: IndexType>(o: DeletableVector<T, I>, n: DeletableVector<T, I>, rs: Seq<&mut T>) -> bool {
    &&& n.deleted@ == o.deleted@ && n.data@.len() == o.data@.len()
    &&& rs.len() == live_ix::<T, I>(o.data@).len()
    &&& forall|j: int| 0 <= j < rs.len() ==> #[trigger] cur(rs, j) == o.data@[live_ix::<T, I>(o.data@)[j]]
    &&& forall|j: int| 0 <= j < rs.len() ==> n.data@[live_ix::<T, I>(o.data@)[j]] == #[trigger] fin(rs, j)
    &&& forall|i: int| 0 <= i < o.data@.len() && o.data@[i].sdel() ==> #[trigger] n.data@[i] == o.data@[i]
}
/// each live element replaced by its image, everything else about the table as before
spec fn mapped<T: Deletable<I>, I: IndexType>(o: DeletableVector<T, I>, n: DeletableVector<T, I>, g: spec_fn(T) -> T) -> bool {
    &&& n.deleted@ == o.deleted@ && n.data@.len() == o.data@.len()
    &&& forall|i: int| 0 <= i < o.data@.len() ==> #[trigger] n.data@[i] == (if o.data@[i].sdel() { o.data@[i] } else { g(o.data@[i]) })
}
proof fn lemma_lent<T: Deletable<I>, I: IndexType>(o: DeletableVector<T, I>, n: DeletableVector<T, I>, rs: Seq<&mut T>, g: spec_fn(T) -> T)
    requires lent(o, n, rs), forall|j: int| 0 <= j < rs.len() ==> #[trigger] fin(rs, j) == g(cur(rs, j)),
    ensures mapped(o, n, g),
{
    lemma_live_ix::<T, I>(o.data@);
    assert forall|i: int| 0 <= i < o.data@.len() implies #[trigger] n.data@[i] == (if o.data@[i].sdel() { o.data@[i] } else { g(o.data@[i]) }) by {
        if !o.data@[i].sdel() {
            let j = choose|j: int| 0 <= j < live_ix::<T, I>(o.data@).len() && live_ix::<T, I>(o.data@)[j] == i;
            assert(fin(rs, j) == g(cur(rs, j)));
        }
    }
}
proof fn lemma_mapped<T: Deletable<I>, I: IndexType>(o: DeletableVector<T, I>, n: DeletableVector<T, I>, g: spec_fn(T) -> T)
    requires o.inv(), mapped(o, n, g), forall|t: T| !t.sdel() ==> !(#[trigger] g(t)).sdel() && g(t).key() == t.key(),
    ensures n.inv(), n.in_use() == o.in_use(), forall|i: I| #[trigger] n.reserved(i) == o.reserved(i),
        forall|i: I| #[trigger] n@.contains_key(i) == o@.contains_key(i),
        forall|i: I| #[trigger] o@.contains_key(i) ==> n@[i] == g(o@[i]),
{
    assert forall|i: int| #[trigger] n.live(i) == o.live(i) by { if 0 <= i < o.data@.len() { assert(n.data@[i] == (if o.data@[i].sdel() { o.data@[i] } else { g(o.data@[i]) })); } }
    assert forall|k: int| 0 <= k < n.deleted@.len() implies 0 <= (#[trigger] n.deleted@[k]).ix() < n.data@.len() && n.data@[n.deleted@[k].ix()].sdel() by {
        assert(o.deleted@[k] == n.deleted@[k]);
        let i = o.deleted@[k].ix();
        assert(n.data@[i] == o.data@[i]);
    }
    assert forall|j: int, k: int| 0 <= j < k < n.deleted@.len() implies (#[trigger] n.deleted@[j]).ix() != (#[trigger] n.deleted@[k]).ix() by {
        assert(o.deleted@[j].ix() != o.deleted@[k].ix());
    }
    assert forall|i: int| #[trigger] n.live(i) implies n.data@[i].key().ix() == i by { assert(o.live(i)); assert(n.data@[i] == g(o.data@[i])); }
    assert forall|i: int| n.in_free(i) == o.in_free(i) by {
        if n.in_free(i) { let k = choose|k: int| 0 <= k < n.deleted@.len() && #[trigger] n.deleted@[k].ix() == i; assert(o.deleted@[k].ix() == i); }
        if o.in_free(i) { let k = choose|k: int| 0 <= k < o.deleted@.len() && #[trigger] o.deleted@[k].ix() == i; assert(n.deleted@[k].ix() == i); }
    }
    assert forall|i: I| #[trigger] n.reserved(i) == o.reserved(i) by { I::ix_inj(i, i); assert(n.in_free(i.ix()) == o.in_free(i.ix())); if 0 <= i.ix() < o.data@.len() { assert(n.live(i.ix()) == o.live(i.ix())); } }
    assert forall|i: I| #[trigger] n@.contains_key(i) == o@.contains_key(i) by { assert(n.live(i.ix()) == o.live(i.ix())); }
    assert forall|i: I| #[trigger] o@.contains_key(i) implies n@[i] == g(o@[i]) by { assert(o.live(i.ix())); assert(n.live(i.ix())); assert(n.data@[i.ix()] == g(o.data@[i.ix()])); }
}

/// the references kept among the first k
#[verifier::prophetic]
spec fn kept<T: Deletable<I>, I: IndexType>(od: Seq<T>, k: int, all: Seq<&mut T>, rs: Seq<&mut T>) -> bool {
    &&& rs.len() == live_ix::<T, I>(od.take(k)).len()
    &&& forall|j: int| 0 <= j < rs.len() ==> 0 <= #[trigger] live_ix::<T, I>(od.take(k))[j] < k
    &&& forall|j: int| 0 <= j < rs.len() ==> #[trigger] cur(rs, j) == cur(all, live_ix::<T, I>(od.take(k))[j]) && fin(rs, j) == fin(all, live_ix::<T, I>(od.take(k))[j])
}
proof fn lemma_kept<T: Deletable<I>, I: IndexType>(od: Seq<T>, k: int, all: Seq<&mut T>, rs: Seq<&mut T>, ns: Seq<&mut T>)
    requires 0 <= k < od.len(), kept::<T, I>(od, k, all, rs),
        od[k].sdel() ==> ns == rs,
        !od[k].sdel() ==> ns.len() == rs.len() + 1 && ns.drop_last() == rs && cur(ns, rs.len() as int) == cur(all, k) && fin(ns, rs.len() as int) == fin(all, k),
    ensures kept::<T, I>(od, k + 1, all, ns),
{
    lemma_live_ix_step::<T, I>(od, k);
    let p = live_ix::<T, I>(od.take(k));
    let q = live_ix::<T, I>(od.take(k + 1));
    assert forall|j: int| 0 <= j < ns.len() implies #[trigger] cur(ns, j) == cur(all, q[j]) && fin(ns, j) == fin(all, q[j]) by {
        if j < rs.len() {
            assert(rs[j] == ns[j]) by { if !od[k].sdel() { assert(ns.drop_last()[j] == ns[j]); } }
            assert(q[j] == p[j]); assert(cur(rs, j) == cur(ns, j)); assert(fin(rs, j) == fin(ns, j));
        } else { assert(q[j] == k); }
    }
    assert forall|j: int| 0 <= j < ns.len() implies 0 <= #[trigger] q[j] < k + 1 by { if j < rs.len() { assert(q[j] == p[j]); } else { assert(q[j] == k); } }
}
impl<T: Deletable<I>, I: IndexType> DeletableVector<T, I> {
//@fn src/util/deletable.rs impl DeletableVector :: iter_mut
//@name live_iter_mut
//@ret r
//@retty GIter<&mut T>
        ensures lent(*old(self), *final(self), r.rest()),
//@aftercall vec_iter_mut 0
        let ghost all = it_0.rest();
        let ghost mut gk = 0int;
        let ghost od = old(self).data@;
        proof { assert(od.take(0) =~= Seq::empty()); assert(all.skip(0) =~= all); }
//@loop 0
            invariant 0 <= gk <= all.len(), all.len() == od.len(), it_0.rest() == all.skip(gk),
                forall|i: int| 0 <= i < all.len() ==> #[trigger] cur(all, i) == od[i],
                kept::<T, I>(od, gk, all, res_0@),
                forall|i: int| 0 <= i < gk && od[i].sdel() ==> #[trigger] fin(all, i) == cur(all, i),
            ensures gk == all.len(),
            decreases all.len() - gk,
//@lstart 0
            proof { if gk < all.len() { lemma_live_ix_step::<T, I>(od, gk); assert(it_0.rest()[0] == all[gk]); assert(cur(all, gk) == od[gk]); } }
            let ghost gr = res_0@;
//@lend 0
            proof {
                assert(cur(all, gk) == od[gk]);
                if !od[gk].sdel() { assert(res_0@.drop_last() =~= gr); assert(cur(res_0@, gr.len() as int) == cur(all, gk)); assert(fin(res_0@, gr.len() as int) == fin(all, gk)); } else { assert(fin(all, gk) == cur(all, gk)); }
                lemma_kept::<T, I>(od, gk, all, gr, res_0@);
                gk = gk + 1; assert(it_0.rest() =~= all.skip(gk)); }
//@after 0
            proof {
                assert(od.take(gk) =~= od);
                let rs = res_0@; let p = live_ix::<T, I>(od);
                lemma_live_ix::<T, I>(od);
                assert forall|j: int| 0 <= j < rs.len() implies #[trigger] cur(rs, j) == od[p[j]] by { assert(cur(all, p[j]) == od[p[j]]); }
                assert forall|j: int| 0 <= j < rs.len() implies #[trigger] fin(rs, j) == fin(all, p[j]) by { assert(cur(rs, j) == cur(all, p[j])); }
            }
//@endfn
}

