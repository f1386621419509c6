//! C13: converting a mesh to one of another dimension (Mesh2d64Curved without curves -> MeshNd64<D>)
use crate::ops::*;
use crate::rep::*;
use crate::snap::{Snap, NONE};
use crate::tm::M;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;
use std::collections::BTreeMap;

type C = Mesh2d64Curved;
fn vp(t: u64) -> VertexPayloadPNU<f64, 2> {
    VertexPayloadPNU::from_pos(VecN::<f64, 2>::new((t % 977) as f64 * 0.5, (t / 977) as f64 - 3.25))
}
/// the same call on the other mesh type (handles are handed out in the same way)
fn mirror(m: &mut C, op: &Op) -> Result<(), String> {
    let e = || CurvedEdgePayload::default();
    let f = || EmptyFacePayload::default();
    guard(|| match *op {
        Op::AddVertex(t) => { m.add_vertex(vp(t)); }
        Op::IsolatedEdge(t) => { m.add_isolated_edge(vp(t), e(), vp(t + 2), e()); }
        Op::ViaEdge(i, t) => { let o = m.edge(i).next_id(); m.add_vertex_via_edge(i, o, vp(t), e(), e()); }
        Op::ViaVertex(v, t) => { m.add_vertex_via_vertex(v, vp(t), e(), e()); }
        Op::Between(a, b, _) => { m.insert_edge_between(a, e(), b, e()); }
        Op::InsertEdge(i, o, _) => { m.insert_edge(i, e(), o, e()); }
        Op::CloseFace(i, o, _, c) => { m.close_face(i, e(), o, e(), f(), c); }
        Op::CloseFaceVertices(p, a, b, _, c) => { m.close_face_vertices(p, e(), a, e(), b, f(), c); }
        Op::CloseHole(x, _, c) => { m.close_hole(x, f(), c); }
        Op::RemoveFace(x) => { m.remove_face(x); }
        Op::Into(x, n, t) => { m.insert_vertices_into_edge(x, (0..n as u64).map(|i| (e(), e(), vp(t + 3 * i + 2)))); }
        Op::Path(n, t) => { m.insert_path((0..n as u64).map(|i| vp(t + i))); }
        Op::Loop(n, t) => { m.insert_loop((0..n as u64).map(|i| vp(t + i))); }
        Op::Polygon(n, t) => { m.insert_polygon((0..n as u64).map(|i| vp(t + i))); }
        Op::Dihedron(n, t) => { m.insert_dihedron((0..n as u64).map(|i| vp(t + i))); }
        Op::Flip(x) => { m.flip_edge(x); }
        Op::FlipAll => { m.flip(); }
        Op::Subdivide(x, t) => { let w = m.edge(x).twin_id(); m.subdivide_unsafe(x, vp(t), e()); m.subdivide_unsafe_try_fixup(w, e()); }
        Op::Clear => { m.clear(); }
    })
}

/// the relations of a mesh, and the positions padded to four coordinates
#[derive(Clone, Debug, PartialEq, Default)]
struct Pic {
    e: Vec<(usize, [usize; 5])>,
    v: Vec<(usize, usize, [f64; 4])>,
    f: Vec<(usize, usize)>,
}
fn pic<T, P>(m: &T::Mesh, pos: P) -> Pic
where
    T: HalfEdgeImplMeshType<E = usize, V = usize, F = usize>,
    T: MeshType<Mesh = HalfEdgeMeshImpl<T>, Edge = HalfEdgeImpl<T>, Vertex = HalfEdgeVertexImpl<T>, Face = HalfEdgeFaceImpl<T>>,
    P: Fn(&T::VP) -> [f64; 4],
{
    Pic {
        e: m.edges().map(|e| (e.id(), [e.next_id(), e.prev_id(), e.twin_id(), e.origin_id(), e.face_id()])).collect(),
        v: m.vertices().map(|v| (v.id(), VertexBasics::edge_id(v, m), pos(v.payload()))).collect(),
        f: m.faces().map(|f| (f.id(), FaceBasics::edge_id(f))).collect(),
    }
}
fn of2(m: &C) -> Pic {
    pic::<MeshType2d64PNUCurved, _>(m, |p| [p.pos().x, p.pos().y, 0.0, 0.0])
}
fn ofd<const D: usize>(m: &MeshNd64<D>) -> Pic {
    pic::<MeshTypeNd64PNU<D>, _>(m, |p| {
        let mut a = [0.0; 4];
        for i in 0..D { a[i] = p.pos()[i]; }
        a
    })
}
/// the source, renumbered in iteration order
fn renumbered(a: &Pic) -> Pic {
    let num = |it: Vec<usize>| -> BTreeMap<usize, usize> { it.into_iter().enumerate().map(|(i, k)| (k, i)).chain([(NONE, NONE)]).collect() };
    let (ve, ee, fe) = (num(a.v.iter().map(|x| x.0).collect()), num(a.e.iter().map(|x| x.0).collect()), num(a.f.iter().map(|x| x.0).collect()));
    Pic {
        e: a.e.iter().map(|(i, r)| (ee[i], [ee[&r[0]], ee[&r[1]], ee[&r[2]], ve[&r[3]], fe[&r[4]]])).collect(),
        v: a.v.iter().map(|(i, e, p)| (ve[i], ee[e], *p)).collect(),
        f: a.f.iter().map(|(i, e)| (fe[i], ee[e])).collect(),
    }
}
fn first_difference(a: &Pic, b: &Pic) -> String {
    if a.v.len() != b.v.len() || a.e.len() != b.e.len() || a.f.len() != b.f.len() {
        return format!("{} vertices, {} half-edges, {} faces instead of {}, {}, {}", b.v.len(), b.e.len(), b.f.len(), a.v.len(), a.e.len(), a.f.len());
    }
    for (x, y) in a.v.iter().zip(&b.v) { if x != y { return format!("vertex (id, edge, position) {y:?}, expected {x:?}"); } }
    for (x, y) in a.e.iter().zip(&b.e) { if x != y { return format!("half-edge (id, next prev twin origin face) {y:?}, expected {x:?}"); } }
    for (x, y) in a.f.iter().zip(&b.f) { if x != y { return format!("face (id, edge) {y:?}, expected {x:?}"); } }
    String::new()
}
fn convert<const D: usize>(r: &mut Rep, m: &C, input: &str)
where
    EmptyMeshPayload<MeshTypeNd64PNU<D>>: Default,
{
    let part = format!("to {D} dimensions");
    r.eval(&part, if m.num_vertices() > 0 { Some(hash(&format!("{input}{D}"))) } else { None });
    let before = of2(m);
    let want = renumbered(&before);
    match guard(|| m.to_nd::<D>(0.1)) {
        Err(e) => r.fail("panic", format!("to_nd::<{D}> panicked: {e}"), input),
        Ok(n) => {
            let got = ofd::<D>(&n);
            if got != want { r.fail("different", format!("to_nd::<{D}>: {}", first_difference(&want, &got)), input); }
            else if let (Ok(()), Err(e)) = (m.check(), n.check()) { r.fail("invalid", format!("to_nd::<{D}>: the result is not valid: {e}"), input); }
            if of2(m) != before { r.fail("source", format!("to_nd::<{D}> changed the source"), input); }
        }
    }
}

pub fn run(r: &mut Rep) {
    r.rule = "random valid meshes (open, closed, isolated vertices and edges, gaps after removed faces) converted to 2, 3 and 4 dimensions".into();
    let mut rng = r.rng(13);
    let n = r.scale(120);
    for i in 0..n {
        if !r.time_left() { break; }
        let (mut a, mut m) = (M::new(), C::new());
        let mut s = Snap::of(&a);
        let mut script = String::new();
        let (mut tag, steps) = (1000, 1 + i as usize % 40);
        let mut gone = false;
        for _ in 0..steps {
            tag += 100;
            let Some(op) = choose(&s, &mut rng, tag, &[]) else { continue };
            if s.e.len() > 120 && !matches!(op, Op::CloseHole(..) | Op::RemoveFace(..)) { continue; }
            if apply(&mut a, &s, &op).is_err() || mirror(&mut m, &op).is_err() { gone = true; break; }
            script += &format!("{op:?}; ");
            s = Snap::of(&a);
            if s.wf().is_err() { gone = true; break; }
        }
        // another property's check reports a call that went wrong
        if gone || m.num_edges() != a.num_edges() { continue; }
        if i < 2 { r.sample(|| script.clone()); }
        convert::<2>(r, &m, &script);
        convert::<3>(r, &m, &script);
        convert::<4>(r, &m, &script);
    }
}
