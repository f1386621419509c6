//! C10: exported buffers against the mesh
use crate::poly::*;
use crate::rep::*;
use crate::snap::*;
use crate::tm::*;
use procedural_modelling::prelude::*;

fn ring(s: &Snap, f: usize) -> Vec<usize> {
    s.orbit(s.f[&f].edge).iter().map(|e| s.tgt(*e)).collect()
}
fn check(m: &M, alg: TriangulationAlgorithm) -> Result<(), String> {
    let s = Snap::of(m);
    let wound = alg != TriangulationAlgorithm::EarClipping;
    let nt: usize = s.f.keys().map(|f| ring(&s, *f).len() - 2).sum();
    let (ix, vs) = guard(|| m.triangulate(alg, &mut TesselationMeta::default()))?;
    if ix.len() != 3 * nt { return Err(format!("triangulate: {} indices, the faces have {} triangles", ix.len(), nt)); }
    let want: Vec<VPay> = s.v.values().map(|v| v.pay).collect();
    if vs != want { return Err("triangulate: the vertex buffer is not the list of vertex payloads in handle order".into()); }
    let rank: Vec<usize> = s.v.keys().copied().collect();
    if let Some(i) = ix.iter().find(|i| **i >= vs.len()) { return Err(format!("triangulate: index {i} is out of range")); }
    let mut pos = 0;
    for f in s.f.keys() {
        let rg = ring(&s, *f);
        let k = 3 * (rg.len() - 2);
        let t: Vec<usize> = ix[pos..pos + k].iter().map(|i| rank[*i]).collect();
        covers(&rg, &t, wound || rg.len() <= 4).map_err(|e| format!("triangulate, face {f}: {e}"))?;
        pos += k;
    }
    let (ix, vs) = guard(|| m.triangulate_and_generate_flat_normals_post(alg, &mut TesselationMeta::default()))?;
    if ix.len() != 3 * nt { return Err(format!("flat normals: {} indices, the faces have {} triangles", ix.len(), nt)); }
    let (mut pos, mut base) = (0, 0);
    for f in s.f.keys() {
        let rg = ring(&s, *f);
        let k = 3 * (rg.len() - 2);
        if base + rg.len() > vs.len() { return Err(format!("flat normals: no entries for the corners of face {f}")); }
        let nrm = vs[base].normal;
        for (c, v) in rg.iter().enumerate() {
            let mut a = vs[base + c];
            a.normal = s.v[v].pay.normal;
            if a != s.v[v].pay { return Err(format!("flat normals: entry {} is not the payload of corner {v} of face {f}", base + c)); }
            if vs[base + c].normal != nrm { return Err(format!("flat normals: the corners of face {f} have different normals")); }
        }
        // the normal is the unit normal of the face
        let mut w = V3::zeros();
        for c in 0..rg.len() { let (a, b) = (s.v[&rg[c]].pay.pos, s.v[&rg[(c + 1) % rg.len()]].pay.pos); w += a.cross(&b); }
        if (nrm - w.normalize()).norm() > 1e-6 { return Err(format!("flat normals: face {f} got the normal {nrm:?}, its own is {:?}", w.normalize())); }
        let mut t = vec![];
        for i in &ix[pos..pos + k] {
            if *i < base || *i >= base + rg.len() { return Err(format!("flat normals: face {f} uses entry {i}, its own entries are {base}..{}", base + rg.len())); }
            t.push(rg[*i - base]);
        }
        covers(&rg, &t, wound || rg.len() <= 4).map_err(|e| format!("flat normals, face {f}: {e}"))?;
        pos += k;
        base += rg.len();
    }
    if base != vs.len() { return Err(format!("flat normals: {} entries for {} face corners", vs.len(), base)); }
    if Snap::of(m) != s { return Err("the mesh was changed".into()); }
    Ok(())
}

pub fn run(r: &mut Rep) {
    r.rule = "non-trivial: a mesh with at least two faces or a face with at least five corners".into();
    let mut rng = r.rng(10);
    for k in 0..crate::gen::SOLIDS {
        for n in [3, 4, 7] {
            for alg in crate::c07::ALGS {
                if !r.time_left() { break; }
                let Some((name, m)) = crate::gen::solid(k, n) else { continue };
                if name == "regular_star" && alg == TriangulationAlgorithm::Fan { continue; }
                let input = format!("{alg:?} on {name}({n})");
                r.eval("solids", Some(hash(&input)));
                if let Err(e) = check(&m, alg) { r.fail("solid", e, input); }
            }
        }
    }
    // several separate faces, isolated vertices and dangling edges in between, some faces removed again
    for _ in 0..r.scale(120) {
        if !r.time_left() { break; }
        let mut m = M::new();
        let mut desc = String::new();
        let mut tag = 0;
        let mut ok = true;
        for _ in 0..rng.range(1, 6) {
            match rng.below(6) {
                0 => { m.add_vertex(vp(tag)); desc.push_str("isolated vertex; "); tag += 1; }
                1 => { m.add_isolated_edge_default(vp(tag), vp(tag + 1)); desc.push_str("isolated edge; "); tag += 2; }
                2 if m.num_faces() > 0 => { let k = rng.below(m.num_faces()); let f = m.faces().nth(k).unwrap().id(); m.remove_face(f); desc.push_str(&format!("remove face {f}; ")); }
                _ => {
                    let Some((_, p)) = polygon_n(&mut rng) else { continue };
                    let plane = rng.below(4);
                    let n = p.len() as u64;
                    desc.push_str(&format!("polygon {p:?} in plane {plane}; "));
                    let pts = place(&p, plane);
                    if guard(|| m.insert_polygon(pts.iter().enumerate().map(|(i, v)| vpos(tag + i as u64, *v)))).is_err() { ok = false; break; }
                    tag += n;
                }
            }
        }
        if !ok { continue; }
        for alg in [TriangulationAlgorithm::EarClipping, TriangulationAlgorithm::Sweep, TriangulationAlgorithm::Delaunay, TriangulationAlgorithm::MinWeight, TriangulationAlgorithm::Auto] {
            let input = format!("{alg:?}: {desc}");
            r.eval("mixed meshes", if m.num_faces() > 0 { Some(hash(&input)) } else { None });
            if let Err(e) = check(&m, alg) { r.fail("mixed", e, input); }
        }
    }
}
fn polygon_n(rng: &mut Rng) -> Option<(&'static str, Vec<P>)> {
    let n = 3 + rng.below(8);
    polygon(rng, n)
}
