// Shared vocabulary of all units. Everything below is specification or verified glue;
// nothing here is code of the crate under test unless it is pulled in by a //@fn directive.

/// `assert!(c)` of the code: the condition must be provable (the function must not panic).
fn rt_assert(c: bool)
    requires c,
{
}

/// `panic!`/`unreachable!`/`todo!` of the code: must be unreachable.
fn rt_panic() -> !
    requires false,
{
    loop
        invariant false,
        decreases 0int,
    {
    }
}

/// In-memory stand-in for an iterator: `rest()` is the sequence of items not yet yielded.
struct GIter<T> {
    v: Vec<T>,
}

impl<T> GIter<T> {
    spec fn rest(self) -> Seq<T> {
        self.v@
    }
    fn from_vec(v: Vec<T>) -> (r: GIter<T>)
        ensures r.rest() == v@,
    {
        GIter { v }
    }
    fn into_iter(self) -> (r: GIter<T>)
        ensures r == self,
    {
        self
    }
    fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self).rest().len() == 0 ==> r.is_none() && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0])
                && final(self).rest() == old(self).rest().drop_first(),
    {
        if self.v.len() == 0 {
            None
        } else {
            let r = self.v.remove(0);
            proof { assert(self.v@ =~= old(self).rest().drop_first()); }
            Some(r)
        }
    }
}

/// what may stand for an `impl IntoIterator` argument
trait VxIter<T>: Sized {
    spec fn items(self) -> Seq<T>;
    fn vx_iter(self) -> (r: GIter<T>)
        ensures r.rest() == self.items();
}
impl<T> VxIter<T> for Vec<T> {
    spec fn items(self) -> Seq<T> { self@ }
    fn vx_iter(self) -> (r: GIter<T>) { GIter::from_vec(self) }
}
impl<T> VxIter<T> for GIter<T> {
    spec fn items(self) -> Seq<T> { self.rest() }
    fn vx_iter(self) -> (r: GIter<T>) { self }
}
/// pigeonhole: a sequence of distinct numbers below m is no longer than m
proof fn lemma_pigeon(s: Seq<int>, m: int)
    requires m >= 0, s.no_duplicates(), forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < m,
    ensures s.len() <= m,
    decreases m,
{
    if m == 0 {
        if s.len() > 0 { assert(0 <= s[0] && s[0] < m); }
    } else if exists|i: int| 0 <= i < s.len() && s[i] == m - 1 {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == m - 1;
        let t = s.remove(i);
        assert forall|j: int| 0 <= j < t.len() implies 0 <= #[trigger] t[j] < m - 1 by {
            assert(t[j] == if j < i { s[j] } else { s[j + 1] });
        }
        lemma_pigeon(t, m - 1);
    } else {
        assert forall|j: int| 0 <= j < s.len() implies 0 <= #[trigger] s[j] < m - 1 by {
            assert(s[j] != m - 1);
        }
        lemma_pigeon(s, m - 1);
    }
}

/// The index trait of the crate; `ix` is the mathematical value, `maxv` the largest one
/// (used by the crate as "no index").
trait IndexType: Copy {
    spec fn ix(self) -> int;
    spec fn maxv() -> int;
    proof fn ix_inj(a: Self, b: Self)
        ensures a.ix() == b.ix() ==> a == b, 0 <= a.ix() <= Self::maxv() <= usize::MAX;
    fn new(x: usize) -> (r: Self)
        requires x as int <= Self::maxv(),
        ensures r.ix() == x as int;
    fn index(&self) -> (r: usize)
        ensures r as int == self.ix();
    fn max() -> (r: Self)
        ensures r.ix() == Self::maxv();
}

//@types ::std::usize::MAX=usize::MAX; std::usize::MAX=usize::MAX; std::u32::MAX=u32::MAX; std::u16::MAX=u16::MAX; std::u8::MAX=u8::MAX
impl IndexType for usize {
    spec fn ix(self) -> int { self as int }
    spec fn maxv() -> int { usize::MAX as int }
    proof fn ix_inj(a: Self, b: Self) {}
//@fn src/math/index_type.rs impl IndexType for usize :: new
//@ret r
//@endfn
//@fn src/math/index_type.rs impl IndexType for usize :: index
//@ret r
//@endfn
//@fn src/math/index_type.rs impl IndexType for usize :: max
//@ret r
//@post
        proof { assert(vx_ret == usize::MAX); assert(vx_ret.ix() == vx_ret as int); assert(Self::maxv() == usize::MAX as int); }
//@endfn
}
impl IndexType for u32 {
    spec fn ix(self) -> int { self as int }
    spec fn maxv() -> int { u32::MAX as int }
    proof fn ix_inj(a: Self, b: Self) {}
//@fn src/math/index_type.rs impl IndexType for u32 :: new
//@ret r
//@endfn
//@fn src/math/index_type.rs impl IndexType for u32 :: index
//@ret r
//@endfn
//@fn src/math/index_type.rs impl IndexType for u32 :: max
//@ret r
//@post
        proof { assert(vx_ret == u32::MAX); assert(vx_ret.ix() == vx_ret as int); assert(Self::maxv() == u32::MAX as int); }
//@endfn
}
impl IndexType for u16 {
    spec fn ix(self) -> int { self as int }
    spec fn maxv() -> int { u16::MAX as int }
    proof fn ix_inj(a: Self, b: Self) {}
//@fn src/math/index_type.rs impl IndexType for u16 :: new
//@ret r
//@endfn
//@fn src/math/index_type.rs impl IndexType for u16 :: index
//@ret r
//@endfn
//@fn src/math/index_type.rs impl IndexType for u16 :: max
//@ret r
//@post
        proof { assert(vx_ret == u16::MAX); assert(vx_ret.ix() == vx_ret as int); assert(Self::maxv() == u16::MAX as int); }
//@endfn
}
impl IndexType for u8 {
    spec fn ix(self) -> int { self as int }
    spec fn maxv() -> int { u8::MAX as int }
    proof fn ix_inj(a: Self, b: Self) {}
//@fn src/math/index_type.rs impl IndexType for u8 :: new
//@ret r
//@endfn
//@fn src/math/index_type.rs impl IndexType for u8 :: index
//@ret r
//@endfn
//@fn src/math/index_type.rs impl IndexType for u8 :: max
//@ret r
//@post
        proof { assert(vx_ret == u8::MAX); assert(vx_ret.ix() == vx_ret as int); assert(Self::maxv() == u8::MAX as int); }
//@endfn
}
