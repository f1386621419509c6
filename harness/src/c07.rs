//! C07: every triangulation algorithm on random simple polygons and on the faces of the solids
use crate::poly::*;
use crate::rep::*;
use crate::snap::*;
use crate::tm::*;
use procedural_modelling::prelude::*;

pub const ALGS: [TriangulationAlgorithm; 8] = [
    TriangulationAlgorithm::Fan, TriangulationAlgorithm::EarClipping, TriangulationAlgorithm::Sweep, TriangulationAlgorithm::SweepDynamic,
    TriangulationAlgorithm::SweepDelaunay, TriangulationAlgorithm::Delaunay, TriangulationAlgorithm::MinWeight, TriangulationAlgorithm::Auto,
];

/// triangulates one face behind a random prefix and looks at what was appended
pub fn face(m: &M, s: &Snap, f: usize, alg: TriangulationAlgorithm, rng: &mut Rng) -> Result<Vec<usize>, String> {
    let ring: Vec<usize> = s.orbit(s.f[&f].edge).iter().map(|e| s.tgt(*e)).collect();
    let pre: Vec<usize> = (0..rng.below(8)).map(|_| rng.below(500)).collect();
    let mut buf = pre.clone();
    guard(|| {
        let mut t = Triangulation::new(&mut buf);
        triangulate_face::<TM>(m.face(IndexType::new(f)), m, &mut t, alg, &mut TesselationMeta::default());
    })?;
    if buf.len() < pre.len() || buf[..pre.len()] != pre[..] { return Err("the indices that were in the buffer before changed".into()); }
    let t = buf[pre.len()..].to_vec();
    // ear clipping winds its triangles the other way round for five or more corners
    let wound = alg != TriangulationAlgorithm::EarClipping || ring.len() <= 4;
    covers(&ring, &t, wound)?;
    Ok(t)
}

pub fn run(r: &mut Rep) {
    r.rule = "non-trivial: a polygon with at least five corners or a non-convex quadrilateral".into();
    let mut rng = r.rng(7);
    for i in 0..r.scale(260) {
        if !r.time_left() { break; }
        let n = match rng.below(8) { 0 => 3, 1 | 2 => 4, 3 | 4 => 5 + rng.below(3), 5 | 6 => 6 + rng.below(8), _ => 10 + rng.below(16) };
        let Some((kind, p)) = polygon(&mut rng, n) else { continue };
        let plane = rng.below(4);
        let m = face_mesh(&p, plane);
        let s = Snap::of(&m);
        for alg in ALGS {
            if alg == TriangulationAlgorithm::Fan && !convex(&p) { continue; }
            if alg == TriangulationAlgorithm::MinWeight && n > 14 { continue; }
            let input = format!("{alg:?} on the {kind} polygon {p:?} in plane {plane}");
            r.eval(&format!("{alg:?}"), if n > 4 || (n == 4 && !convex(&p)) { Some(hash(&input)) } else { None });
            if i < 3 { r.sample(|| input.clone()); }
            // corner i is vertex i, and the face runs against the order of insertion
            let res = face(&m, &s, 0, alg, &mut rng).and_then(|t| {
                let sign = if alg == TriangulationAlgorithm::EarClipping && n > 4 { 1 } else { -1 };
                match t.chunks(3).find(|q| area2(p[q[0]], p[q[1]], p[q[2]]) * sign <= 0) {
                    Some(q) => Err(format!("the triangle {q:?} is turned over")),
                    None => Ok(()),
                }
            });
            if let Err(e) = res { r.fail(&format!("{alg:?}"), e, input); }
        }
    }
    for k in 0..crate::gen::SOLIDS {
        for n in [3, 5, 8] {
            if !r.time_left() { break; }
            let Some((name, m)) = crate::gen::solid(k, n) else { continue };
            let s = Snap::of(&m);
            for f in s.f.keys() {
                for alg in ALGS {
                    // the star is not convex, and coordinates of regular shapes are only nearly planar
                    if name == "regular_star" && alg == TriangulationAlgorithm::Fan { continue; }
                    let input = format!("{alg:?} on face {f} of {name}({n})");
                    r.eval("faces of solids", Some(hash(&input)));
                    if let Err(e) = face(&m, &s, *f, alg, &mut rng) { r.fail(&format!("solid-{alg:?}"), e, input); }
                }
            }
        }
    }
}
