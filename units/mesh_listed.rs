// The listed elements of a storage are as many as it reports in use.
/// as many listed elements as slots in use
spec fn dead<T: Deletable<I>>(s: Seq<T>, n: int) -> Seq<int>
    decreases n,
{
    if n <= 0 { Seq::empty() } else if s[n - 1].sdel() { dead(s, n - 1).push(n - 1) } else { dead(s, n - 1) }
}
proof fn lemma_dead<T: Deletable<I>>(s: Seq<T>, n: int)
    requires 0 <= n <= s.len(),
    ensures live_seq::<T, I>(s.take(n)).len() + dead(s, n).len() == n, dead(s, n).no_duplicates(),
        forall|k: int| 0 <= k < dead(s, n).len() ==> 0 <= #[trigger] dead(s, n)[k] < n && s[dead(s, n)[k]].sdel(),
        forall|i: int| 0 <= i < n && (#[trigger] s[i]).sdel() ==> exists|k: int| 0 <= k < dead(s, n).len() && #[trigger] dead(s, n)[k] == i,
    decreases n,
{
    if n > 0 {
        lemma_dead::<T>(s, n - 1);
        lemma_live_step::<T, I>(s, n - 1);
        let (d, e) = (dead(s, n), dead(s, n - 1));
        assert forall|i: int| 0 <= i < n && (#[trigger] s[i]).sdel() implies exists|k: int| 0 <= k < d.len() && #[trigger] d[k] == i by {
            if i < n - 1 { let k = choose|k: int| 0 <= k < e.len() && #[trigger] e[k] == i; assert(d[k] == i); } else { assert(d[e.len() as int] == i); }
        }
    }
}
proof fn lemma_listed<T: Deletable<I>>(d: DeletableVector<T, I>)
    requires d.inv(), forall|i: I| !#[trigger] d.reserved(i),
    ensures live_seq::<T, I>(d.data@).len() == d.in_use(), listing(live_seq::<T, I>(d.data@), d@),
{
    lemma_listing(d);
    let n = d.data@.len() as int;
    lemma_dead::<T>(d.data@, n);
    assert(d.data@.take(n) =~= d.data@);
    let s = d.deleted@.map_values(|i: I| i.ix());
    let t = dead(d.data@, n);
    assert(s.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
            if i < j { assert(d.deleted@[i].ix() != d.deleted@[j].ix()); } else { assert(d.deleted@[j].ix() != d.deleted@[i].ix()); }
        }
    }
    s.unique_seq_to_set();
    t.unique_seq_to_set();
    assert(s.to_set() =~= t.to_set()) by {
        assert forall|i: int| s.to_set().contains(i) implies t.to_set().contains(i) by {
            let k = choose|k: int| 0 <= k < s.len() && s[k] == i;
            assert(d.deleted@[k].ix() == i);
            assert(d.data@[i].sdel());
            let l = choose|l: int| 0 <= l < t.len() && #[trigger] t[l] == i;
            assert(t.contains(i));
        }
        assert forall|i: int| t.to_set().contains(i) implies s.to_set().contains(i) by {
            let l = choose|l: int| 0 <= l < t.len() && t[l] == i;
            let x = i as I;
            assert(i == x.ix()) by { I::ix_inj(x, x); }
            assert(!d.reserved(x));
            assert(d.in_free(i));
            let k = choose|k: int| 0 <= k < d.deleted@.len() && #[trigger] d.deleted@[k].ix() == i;
            assert(s[k] == i);
            assert(s.contains(i));
        }
    }
}

