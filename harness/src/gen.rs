//! Random valid meshes, grown by calls whose effect is checked elsewhere.
use crate::ops::*;
use crate::rep::*;
use crate::snap::*;
use crate::tm::*;
use procedural_modelling::prelude::*;

/// a mesh grown by `n` random calls; returns None if one of them misbehaved
/// (C02/C03 report that; the other checks only need valid meshes)
pub fn mesh(r: &mut Rng, n: usize, flips: bool) -> Option<(M, Snap)> {
    let mut m = M::new();
    let mut s = Snap::of(&m);
    let mut tag = 1000;
    for _ in 0..n {
        tag += 100;
        let Some(op) = choose(&s, r, tag, &[]) else { continue };
        if s.e.len() > 160 && !matches!(op, Op::CloseHole(..) | Op::RemoveFace(..)) { continue; }
        if matches!(op, Op::Clear) || (!flips && matches!(op, Op::Flip(_) | Op::FlipAll)) { continue; }
        apply(&mut m, &s, &op).ok()?;
        s = Snap::of(&m);
        if s.wf().is_err() { return None; }
    }
    Some((m, s))
}

/// structured meshes: the library's own solids and surfaces
pub fn solid(k: usize, n: usize) -> Option<(&'static str, M)> {
    let n = n.max(3);
    guard(|| match k {
        0 => ("cube", M::cube(2.0)),
        1 => ("regular_tetrahedron", M::regular_tetrahedron(1.5)),
        2 => ("regular_octahedron", M::regular_octahedron(1.0)),
        3 => ("dodecahedron", M::dodecahedron(1.0)),
        4 => ("regular_icosahedron", M::regular_icosahedron(1.0)),
        5 => ("regular_prism", M::regular_prism(1.0, 2.0, n)),
        6 => ("regular_antiprism", M::regular_antiprism(1.0, 2.0, n)),
        7 => ("regular_pyramid", M::regular_pyramid(1.0, 2.0, n)),
        8 => ("uv_sphere", M::uv_sphere(1.0, n, n.max(3))),
        9 => ("regular_polygon", M::regular_polygon(1.0, n)),
        10 => ("regular_star", M::regular_star(1.0, 2.0, 2 * n)),
        11 => ("regular_frustum", M::regular_frustum(2.0, 1.0, 1.0, n, false)),
        12 => ("cylinder", M::cylinder(1.0, 1.0, n)),
        13 => ("cone", M::cone(1.0, 1.0, n)),
        14 => ("cuboid", M::cuboid(V3::new(1.0, 2.0, 3.0))),
        _ => ("icosphere", M::icosphere(1.0, 2)),
    }).ok()
}
pub const SOLIDS: usize = 16;
