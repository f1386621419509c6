// Areas and lengths of a triangulation view.

/// every vertex position used by the view is known
spec fn known_all(s: Seq<I>, start: int, hm: Map<I, V2>) -> bool {
    forall|j: int| start <= j < s.len() ==> hm.contains_key(#[trigger] s[j])
}
spec fn tri_area2(t: (I, I, I), hm: Map<I, V2>) -> real { area2(hm[t.0], hm[t.1], hm[t.2]) }
spec fn tri_weight(t: (I, I, I), hm: Map<I, V2>) -> real {
    rsqrt(dist2(hm[t.1], hm[t.0])) + rsqrt(dist2(hm[t.2], hm[t.1])) + rsqrt(dist2(hm[t.0], hm[t.2]))
}
impl<'a> Triangulation<'a> {
//@types Self=Self; Vec2=V2; Vec2::S::ZERO=S::zero(); Vec2::S::ONE=S::one(); Vec2::S::HALF=S::half(); Vec2::S::EPS=S::eps(); T=_; T::V=I; T::Vec2=V2; T::Poly=_; V=I; Poly=_; HashMap<V,V>=HashMap<I,I>; HashMap<V,Vec2>=HashMap<I,V2>; IndexedVertex2D<V,Vec2>=IndexedVertex2D; IndexedVertex2D<T::V,T::Vec2>=IndexedVertex2D; Triangulation<V>=Triangulation; Triangulation<T::V>=Triangulation
//@fn src/mesh/triangulation.rs impl Triangulation :: get_triangle_area
//@ret r
    requires self.ok(), i < self.own().len(), known_all(self.all(), self.start as int, vec_hm@),
    ensures r.v() == tri_area2(self.own()[i as int], vec_hm@),
//@pre
        proof { let s = self.all(); let p = self.start + 3 * i; assert(p + 2 < s.len()); assert(vec_hm@.contains_key(s[p])); assert(vec_hm@.contains_key(s[p + 1])); assert(vec_hm@.contains_key(s[p + 2])); }
//@endfn
//@fn src/mesh/triangulation.rs impl Triangulation :: get_area
//@ret r
    requires self.ok(), (self.all().len() - self.start) % 3 == 0, known_all(self.all(), self.start as int, vec_hm@),
    ensures r.v() == 0.5real * rsum(|i: int| rabs(tri_area2(self.own()[i], vec_hm@)), self.own().len() as int),
//@loop 0
            invariant self.ok(), known_all(self.all(), self.start as int, vec_hm@), i_0 <= end_0, end_0 == self.own().len(), res_0@.len() == i_0,
                forall|j: int| 0 <= j < i_0 ==> #[trigger] vat(res_0@, j) == rabs(tri_area2(self.own()[j], vec_hm@)),
            decreases end_0 - i_0,
//@lstart 0
        let ghost vx_r = res_0@;
//@lend 0
        proof { assert forall|j: int| 0 <= j < i_0 implies #[trigger] vat(res_0@, j) == rabs(tri_area2(self.own()[j], vec_hm@)) by { if j < vx_r.len() { assert(vat(vx_r, j) == vat(res_0@, j)); } } }
//@after 0
        proof { lemma_rsum_eq(|i: int| vat(res_0@, i), |i: int| rabs(tri_area2(self.own()[i], vec_hm@)), end_0 as int); }
//@endfn
//@fn src/mesh/triangulation.rs impl Triangulation :: total_edge_weight
//@ret r
    requires self.ok(), (self.all().len() - self.start) % 3 == 0, known_all(self.all(), self.start as int, vec_hm@),
    ensures r.v() == rsum(|i: int| tri_weight(self.own()[i], vec_hm@), self.own().len() as int),
//@loop 0
            invariant self.ok(), known_all(self.all(), self.start as int, vec_hm@), i_0 <= end_0, end_0 == self.own().len(),
                total.v() == rsum(|i: int| tri_weight(self.own()[i], vec_hm@), i_0 as int),
            decreases end_0 - i_0,
//@lstart 0
        proof { let s = self.all(); let p = self.start + 3 * i_0; assert(p + 2 < s.len()); assert(vec_hm@.contains_key(s[p])); assert(vec_hm@.contains_key(s[p + 1])); assert(vec_hm@.contains_key(s[p + 2])); }
//@endfn
}
