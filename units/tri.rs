// The triangulation view over a shared index buffer.

use std::collections::HashMap;

type I = $IDX$;
//@types Self=Self; Vec2=V2; Vec2::S::ZERO=S::zero(); Vec2::S::ONE=S::one(); Vec2::S::HALF=S::half(); Vec2::S::EPS=S::eps(); T=_; T::V=I; T::Vec2=V2; T::Poly=_; V=I; Poly=_; HashMap<V,V>=HashMap<I,I>; HashMap<V,Vec2>=HashMap<I,V2>; IndexedVertex2D<V,Vec2>=IndexedVertex2D; IndexedVertex2D<T::V,T::Vec2>=IndexedVertex2D; Triangulation<V>=Triangulation; Triangulation<T::V>=Triangulation

//@struct src/mesh/triangulation.rs IndexedVertex2D
//@struct src/mesh/triangulation.rs Triangulation

#[verifier::external_body]
fn hm_at<'a, X>(m: &'a HashMap<I, X>, k: &I) -> (r: &'a X)
    requires m@.contains_key(*k),
    ensures *r == m@[*k],
{
    &m[k]
}

/// one triangle, in order
spec fn at3(s: Seq<I>, p: int) -> (I, I, I) { (s[p], s[p + 1], s[p + 2]) }
/// the triangles of a buffer from position `start` on
spec fn tris(s: Seq<I>, start: int) -> Seq<(I, I, I)> {
    Seq::new(((s.len() - start) / 3) as nat, |i: int| at3(s, start + 3 * i))
}
/// same cyclic order of the corners
spec fn same_tri(a: (I, I, I), b: (I, I, I)) -> bool {
    a == b || a == (b.1, b.2, b.0) || a == (b.2, b.0, b.1)
}
proof fn lemma_tris_push(s: Seq<I>, start: int, a: I, b: I, c: I)
    requires 0 <= start <= s.len(), (s.len() - start) % 3 == 0,
    ensures tris(s.push(a).push(b).push(c), start) =~= tris(s, start).push((a, b, c)),
{
    let t = s.push(a).push(b).push(c);
    assert forall|i: int| 0 <= i < tris(s, start).len() implies tris(t, start)[i] == tris(s, start)[i] by {
        assert(start + 3 * i + 2 < s.len());
    }
    let n = (s.len() - start) / 3;
    assert(start + 3 * n == s.len());
}

impl<'a> Triangulation<'a> {
    /// the whole shared buffer
    spec fn all(self) -> Seq<I> { self.indices@ }
    spec fn ok(self) -> bool { self.start <= self.indices@.len() <= usize::MAX }
    spec fn own(self) -> Seq<(I, I, I)> { tris(self.indices@, self.start as int) }
    /// the buffer borrowed by `self` is the one borrowed by `o`
    #[verifier::prophetic]
    spec fn same_buf(self, o: Self) -> bool { self.start == o.start && *final(self.indices) == *final(o.indices) }

//@fn src/mesh/triangulation.rs impl Triangulation :: new
//@ret r
    ensures r.all() == old(indices)@, r.start == old(indices)@.len(), r.ok(), *final(r.indices) == *final(indices),
//@endfn
//@fn src/mesh/triangulation.rs impl Triangulation :: insert_triangle
    requires old(self).ok(), old(self).all().len() + 3 <= usize::MAX,
    ensures final(self).all() == old(self).all().push(a).push(b).push(c), final(self).same_buf(*old(self)), final(self).ok(),
        (old(self).all().len() - old(self).start) % 3 == 0 ==> final(self).own() == old(self).own().push((a, b, c)),
//@post
        proof { if (old(self).all().len() - old(self).start) % 3 == 0 { lemma_tris_push(old(self).all(), old(self).start as int, a, b, c); } }
//@endfn
//@fn src/mesh/triangulation.rs impl Triangulation :: get_index
//@ret r
    requires self.ok(), self.start + i < self.all().len(),
    ensures r == self.all()[self.start + i],
//@endfn
//@fn src/mesh/triangulation.rs impl Triangulation :: get_triangle
//@ret r
    requires self.ok(), i < self.own().len(),
    ensures r == self.own()[i as int],
//@pre
        assert(self.start + 3 * i + 2 < self.all().len());
//@endfn
//@fn src/mesh/triangulation.rs impl Triangulation :: insert_triangle_local
    requires old(self).ok(), old(self).all().len() + 3 <= usize::MAX, a < vec2s@.len(), b < vec2s@.len(), c < vec2s@.len(),
    ensures final(self).all() == old(self).all().push(vec2s@[a as int].index).push(vec2s@[b as int].index).push(vec2s@[c as int].index), final(self).same_buf(*old(self)), final(self).ok(),
        (old(self).all().len() - old(self).start) % 3 == 0 ==> final(self).own() == old(self).own().push((vec2s@[a as int].index, vec2s@[b as int].index, vec2s@[c as int].index)),
//@post
        proof { if (old(self).all().len() - old(self).start) % 3 == 0 { lemma_tris_push(old(self).all(), old(self).start as int, vec2s@[a as int].index, vec2s@[b as int].index, vec2s@[c as int].index); } }
//@endfn
//@fn src/mesh/triangulation.rs impl Triangulation :: map_indices
    requires old(self).ok(), forall|j: int| old(self).start <= j < old(self).all().len() ==> id_map@.contains_key(#[trigger] old(self).all()[j]),
    ensures final(self).same_buf(*old(self)), final(self).ok(), final(self).all().len() == old(self).all().len(),
        forall|j: int| 0 <= j < old(self).all().len() ==> #[trigger] final(self).all()[j] == if j < old(self).start { old(self).all()[j] } else { id_map@[old(self).all()[j]] },
//@loop 0
            invariant self.same_buf(*old(self)), self.ok(), self.all().len() == old(self).all().len(), old(self).start <= i_0 <= end_0, end_0 == self.all().len(),
                forall|j: int| old(self).start <= j < old(self).all().len() ==> id_map@.contains_key(#[trigger] old(self).all()[j]),
                forall|j: int| 0 <= j < old(self).all().len() ==> #[trigger] self.all()[j] == if j < old(self).start || j >= i_0 { old(self).all()[j] } else { id_map@[old(self).all()[j]] },
            decreases end_0 - i_0,
//@endfn
//@fn src/mesh/triangulation.rs impl Triangulation :: len
//@ret r
    requires self.ok(), (self.all().len() - self.start) % 3 == 0,
    ensures r == self.own().len(),
//@endfn
//@fn src/mesh/triangulation.rs impl Triangulation :: next_pos
//@ret r
    ensures r == self.all().len(),
//@endfn
//@fn src/mesh/triangulation.rs impl Triangulation :: flip_edge
//@ret r
    requires old(self).ok(), old(self).start <= triangle_ab, triangle_ab + 2 < old(self).all().len(), old(self).start <= triangle_ba, triangle_ba + 2 < old(self).all().len(),
        triangle_ab + 2 < triangle_ba || triangle_ba + 2 < triangle_ab,
    ensures final(self).same_buf(*old(self)), final(self).ok(), final(self).all().len() == old(self).all().len(),
        flip_post(old(self).all(), final(self).all(), a, b, triangle_ab as int, triangle_ba as int, r.is_ok()),
//@beforecall Ok 0
        proof { assert(is_pair(old(self).all(), a, b, triangle_ab as int, triangle_ba as int, c, d)); }
//@endfn
}
/// the two triangles at ab and ba are (up to rotation) a b c and a d b
spec fn is_pair(s: Seq<I>, a: I, b: I, ab: int, ba: int, c: I, d: I) -> bool {
    same_tri(at3(s, ab), (a, b, c)) && same_tri(at3(s, ba), (a, d, b))
}
spec fn flip_post(s: Seq<I>, t: Seq<I>, a: I, b: I, ab: int, ba: int, ok: bool) -> bool {
    &&& forall|j: int| 0 <= j < s.len() && !(ab <= j <= ab + 2) && !(ba <= j <= ba + 2) ==> #[trigger] t[j] == s[j]
    &&& !ok ==> t == s
    // success replaces the diagonal a b by c d
    &&& ok ==> exists|c: I, d: I| #[trigger] is_pair(s, a, b, ab, ba, c, d) && at3(t, ab) == (a, d, c) && at3(t, ba) == (d, b, c)
    // two triangles without repeated corners sharing the diagonal are always flipped
    &&& (exists|c: I, d: I| #[trigger] is_pair(s, a, b, ab, ba, c, d) && a != b && a != c && a != d && b != c && b != d) ==> ok
}
/// flipping the new diagonal restores the two triangles (their places in the buffer are exchanged)
proof fn lemma_flip_back(s: Seq<I>, t: Seq<I>, u: Seq<I>, a: I, b: I, c: I, d: I, ab: int, ba: int, ok: bool)
    requires is_pair(s, a, b, ab, ba, c, d), a != b && a != c && a != d && b != c && b != d && c != d,
        0 <= ab, 0 <= ba, ab + 2 < s.len(), ba + 2 < s.len(), ab + 2 < ba || ba + 2 < ab, s.len() == t.len() == u.len(),
        flip_post(s, t, a, b, ab, ba, true), flip_post(t, u, d, c, ab, ba, ok),
    ensures ok, same_tri(at3(u, ab), at3(s, ba)), same_tri(at3(u, ba), at3(s, ab)),
        forall|j: int| 0 <= j < s.len() && !(ab <= j <= ab + 2) && !(ba <= j <= ba + 2) ==> u[j] == s[j],
{
    let (c1, d1) = choose|c1: I, d1: I| #[trigger] is_pair(s, a, b, ab, ba, c1, d1) && at3(t, ab) == (a, d1, c1) && at3(t, ba) == (d1, b, c1);
    assert(c1 == c && d1 == d);
    assert(is_pair(t, d, c, ab, ba, a, b));
    let (a1, b1) = choose|a1: I, b1: I| #[trigger] is_pair(t, d, c, ab, ba, a1, b1) && at3(u, ab) == (d, b1, a1) && at3(u, ba) == (b1, c, a1);
    assert(a1 == a && b1 == b);
    assert forall|j: int| 0 <= j < s.len() && !(ab <= j <= ab + 2) && !(ba <= j <= ba + 2) implies u[j] == s[j] by { assert(t[j] == s[j]); }
}
