//! C09: quadrilaterals and the minimum-weight algorithm against exhaustive search
use crate::poly::*;
use crate::rep::*;
use crate::tm::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;

fn d(a: P, b: P) -> f64 {
    (((a.0 - b.0).pow(2) + (a.1 - b.1).pow(2)) as f64).sqrt()
}
/// the cheapest of all triangulations of the corners i..=j, by trying every one
fn exhaustive(p: &[P], i: usize, j: usize) -> f64 {
    if j == i + 1 { return 0.0; }
    let ok = |a: usize, b: usize| b == a + 1 || (a == 0 && b + 1 == p.len()) || chord(p, a, b);
    ((i + 1)..j).filter(|k| ok(i, *k) && ok(*k, j))
        .map(|k| exhaustive(p, i, k) + exhaustive(p, k, j) + d(p[i], p[k]) + d(p[k], p[j]) + d(p[i], p[j]))
        .fold(f64::INFINITY, f64::min)
}
fn weight(p: &[P], t: &[usize]) -> f64 {
    t.chunks(3).map(|q| d(p[q[0]], p[q[1]]) + d(p[q[1]], p[q[2]]) + d(p[q[2]], p[q[0]])).sum()
}
type V2 = Vec2<f64>;

pub fn run(r: &mut Rep) {
    r.rule = "non-trivial: a polygon with at least two different triangulations inside it, or a non-convex quadrilateral".into();
    let mut rng = r.rng(9);
    for i in 0..r.scale(700) {
        if !r.time_left() { break; }
        let n = match rng.below(4) { 0 => 4, 1 => 5, 2 => 6, _ => 7 + rng.below(4) };
        let Some((kind, p)) = polygon(&mut rng, n) else { continue };
        let ring: Vec<usize> = (0..n).collect();
        // the face of an inserted loop runs against the order of insertion
        let turned: Vec<usize> = (0..n).rev().collect();
        let vs: Vec<IndexedVertex2D<usize, V2>> = p.iter().enumerate().map(|(i, q)| IndexedVertex2D::new(V2::new(q.0 as f64, q.1 as f64), i)).collect();
        let best = exhaustive(&p, 0, n - 1);
        for direct in [true, false] {
            let input = format!("{} on the {kind} polygon {p:?}", if direct { "minweight_dynamic_direct" } else { "MinWeight on a face" });
            r.eval(if direct { "minweight direct" } else { "minweight face" }, if n > 4 || !convex(&p) { Some(hash(&input)) } else { None });
            if i < 2 { r.sample(|| input.clone()); }
            let res = guard(|| {
                let mut buf: Vec<usize> = vec![7; i as usize % 4];
                let mut t = Triangulation::new(&mut buf);
                if direct {
                    minweight_dynamic_direct::<usize, V2, Polygon2d<f64>>(&vs, &mut t);
                } else {
                    let m = face_mesh(&p, i as usize % 3);
                    triangulate_face::<TM>(m.face(0), &m, &mut t, TriangulationAlgorithm::MinWeight, &mut TesselationMeta::default());
                }
                buf[i as usize % 4..].to_vec()
            });
            let out = res.and_then(|t| covers(if direct { &ring } else { &turned }, &t, true).map(|_| t));
            match out {
                Err(e) => r.fail("invalid", e, input),
                Ok(t) => {
                    let w = weight(&p, &t);
                    if w > best + 1e-7 * best { r.fail("weight", format!("weight {w}, but {best} is possible; triangles {t:?}"), input); }
                }
            }
        }
        if n == 4 {
            let input = format!("min_weight_quad on {p:?}");
            r.eval("quadrilateral", Some(hash(&input)));
            let (in02, in13) = (chord(&p, 0, 2), chord(&p, 1, 3));
            match guard(|| { let mut b: Vec<usize> = vec![]; min_weight_quad::<usize, V2, Polygon2d<f64>>(&vs, &mut Triangulation::new(&mut b)); b })
                .and_then(|t| covers(&ring, &t, true).map(|_| t)) {
                Err(e) => r.fail("quad-invalid", e, input),
                Ok(t) => {
                    let uses02 = t.chunks(3).all(|q| q.contains(&0) && q.contains(&2));
                    let (l02, l13) = (d(p[0], p[2]), d(p[1], p[3]));
                    if uses02 && !in02 || !uses02 && !in13 { r.fail("quad-outside", "the diagonal lies outside the quadrilateral", input); }
                    else if in02 && in13 && l02 != l13 && uses02 != (l02 < l13) { r.fail("quad-longer", "the longer diagonal was used", input); }
                }
            }
        }
    }
}
