//! C11: subdivision of closed triangle meshes
use crate::gen;
use crate::rep::*;
use crate::snap::*;
use crate::tm::*;
use procedural_modelling::mesh::VertexInterpolator;
use procedural_modelling::operations::SubdivisionDescription;
use procedural_modelling::prelude::*;
use std::cell::RefCell;
use std::collections::BTreeMap;

fn mark(a: u64, b: u64) -> u64 { hash(&(a.min(b), a.max(b))) | 1 << 63 }

/// notes what it is asked for and answers with a payload telling the two vertices of weight one
#[derive(Default)]
struct Rec { bad: RefCell<Option<String>>, calls: RefCell<usize> }
impl VertexInterpolator<3, TM> for &Rec {
    fn call(&self, mesh: &M, vs: [(usize, usize); 3]) -> VPay {
        *self.calls.borrow_mut() += 1;
        let on: Vec<usize> = vs.iter().filter(|(w, _)| *w == 1).map(|(_, v)| *v).collect();
        let off = vs.iter().filter(|(w, _)| *w == 0).count();
        if on.len() != 2 || off != 1 || on[0] == on[1] {
            *self.bad.borrow_mut() = Some(format!("the interpolator was asked for {vs:?}"));
            return vp(0);
        }
        let (p, q) = (mesh.vertex(on[0]).payload(), mesh.vertex(on[1]).payload());
        vpos(mark(p.tag, q.tag), (p.pos + q.pos) / 2.0)
    }
}

fn canon(c: &[u64]) -> Vec<u64> {
    (0..c.len()).map(|k| (0..c.len()).map(|i| c[(i + k) % c.len()]).collect::<Vec<_>>()).min().unwrap_or_default()
}
/// faces as cycles of vertex tags with their payloads
fn tagged(s: &Snap) -> Vec<(Vec<u64>, FPay)> {
    let mut f: Vec<_> = s.f.values().map(|f| (canon(&s.orbit(f.edge).iter().map(|e| s.v[&s.e[e].org].pay.tag).collect::<Vec<_>>()), f.pay)).collect();
    f.sort_by(|a, b| (&a.0, a.1.tag, a.1.log).cmp(&(&b.0, b.1.tag, b.1.log)));
    f
}

/// n is o with every triangle divided into four
fn refined(o: &Snap, n: &Snap) -> Result<(), String> {
    n.wf()?;
    if n.mp != o.mp { return Err("the payload of the mesh changed".into()); }
    if let Some((i, _)) = n.e.iter().find(|(_, e)| e.face == NONE) { return Err(format!("half-edge {i} has no face")); }
    if n.f.len() != 4 * o.f.len() { return Err(format!("{} faces from {}", n.f.len(), o.f.len())); }
    if n.e.len() != 4 * o.e.len() { return Err(format!("{} half-edges from {}", n.e.len(), o.e.len())); }
    if n.v.len() != o.v.len() + o.e.len() / 2 { return Err(format!("{} vertices from {} and {} edges", n.v.len(), o.v.len(), o.e.len() / 2)); }
    if n.euler() != o.euler() { return Err("the Euler characteristic changed".into()); }
    for (i, v) in &o.v {
        let Some(x) = n.v.get(i) else { return Err(format!("vertex {i} is gone")) };
        if x.pay != v.pay { return Err(format!("vertex {i} changed its payload")); }
        if n.out_all(*i).len() != o.out_all(*i).len() { return Err(format!("vertex {i} has {} edges instead of {}", n.out_all(*i).len(), o.out_all(*i).len())); }
    }
    let mut want: Vec<u64> = o.e.iter().filter(|(i, e)| **i < e.twin).map(|(i, e)| mark(o.v[&e.org].pay.tag, o.v[&o.tgt(*i)].pay.tag)).collect();
    let mut got: Vec<u64> = n.v.iter().filter(|(i, _)| !o.v.contains_key(i)).map(|(_, v)| v.pay.tag).collect();
    want.sort();
    got.sort();
    if want != got { return Err("the new vertices are not one between the ends of each edge".into()); }
    for (i, v) in n.v.iter().filter(|(i, _)| !o.v.contains_key(i)) {
        if n.out_all(*i).len() != 6 { return Err(format!("new vertex {i} (#{}) has {} edges instead of six", v.pay.tag, n.out_all(*i).len())); }
        if v.pay.log != 0 { return Err(format!("new vertex {i} does not carry the interpolated payload")); }
    }
    let mut f: Vec<(Vec<u64>, FPay)> = vec![];
    for x in o.f.values() {
        let t: Vec<u64> = o.orbit(x.edge).iter().map(|e| o.v[&o.e[e].org].pay.tag).collect();
        let m: Vec<u64> = (0..3).map(|i| mark(t[i], t[(i + 1) % 3])).collect();
        for i in 0..3 { f.push((canon(&[t[i], m[i], m[(i + 2) % 3]]), x.pay)); }
        f.push((canon(&m), x.pay));
    }
    f.sort_by(|a, b| (&a.0, a.1.tag, a.1.log).cmp(&(&b.0, b.1.tag, b.1.log)));
    let g = tagged(n);
    if f != g {
        let a = f.iter().zip(g.iter()).find(|(a, b)| a != b);
        return Err(format!("the triangles are not the four of each old one: {a:?}"));
    }
    Ok(())
}

fn closed_triangles(s: &Snap) -> bool {
    s.wf().is_ok() && !s.f.is_empty() && s.e.values().all(|e| e.face != NONE) && s.f.values().all(|f| s.orbit(f.edge).len() == 3)
        && s.v.keys().all(|v| s.vwheel(*v).len() == s.out_all(*v).len())
}
/// closes a hole with triangles by cutting off corners; never doubles an edge
fn cut(m: &mut M, mut hole: Vec<usize>, r: &mut Rng, tag: &mut u64) -> Option<()> {
    while hole.len() > 3 {
        let s = Snap::of(m);
        let k = hole.len();
        let ears: Vec<usize> = (0..k).filter(|i| {
            let (p, q) = (s.e[&hole[*i]].org, s.tgt(hole[(*i + 1) % k]));
            p != q && s.edge_between(p, q).is_none() && s.edge_between(q, p).is_none()
        }).collect();
        let i = *r.pick(&ears)?;
        let (x, y) = (hole[i], hole[(i + 1) % k]);
        *tag += 1;
        let (a, b) = m.insert_edge(y as u32, ep(*tag), x as u32, ep(*tag + 1));
        let s = Snap::of(m);
        let e = if s.e[&(a as usize)].org == s.tgt(y) { a as usize } else { b as usize };
        m.close_hole(e as u32, fp(*tag), false);
        let t = s.e[&e].twin;
        hole = s.orbit(t);
    }
    m.close_hole(hole[0] as u32, fp(*tag), false);
    Some(())
}
/// a closed triangle mesh, perhaps with a handle, perhaps with numbers of removed faces in between
fn closed(r: &mut Rng) -> Option<M> {
    let sides = r.range(3, 7);
    let (_, mut m) = gen::solid(*r.pick(&[0, 1, 1, 2, 2, 4, 4, 5, 6, 7, 8, 11, 14, 15, 3]).unwrap(), sides)?;
    let mut tag = 5000u64;
    // tags
    for (i, v) in m.vertices_mut().enumerate() { v.payload_mut().tag = 100 + i as u64; }
    for (i, f) in m.faces_mut().enumerate() { f.payload_mut().tag = 300 + i as u64; }
    if Snap::of(&m).e.values().any(|e| e.face == NONE) { return None; }
    let mut fs: Vec<usize> = Snap::of(&m).f.keys().copied().collect();
    r.shuffle(&mut fs);
    for f in fs {
        let s = Snap::of(&m);
        let hole = s.orbit(s.f[&f].edge);
        if hole.len() > 3 || r.chance(1, 5) {
            m.remove_face(f as u16);
            tag += 10;
            if hole.len() == 3 && r.chance(1, 3) { m.close_hole(*r.pick(&hole).unwrap() as u32, fp(tag), false); }
            else if hole.len() > 3 && r.chance(1, 2) { tag += 100; cut(&mut m, hole, r, &mut tag)?; }
            else { m.fill_hole_apex(*r.pick(&hole).unwrap() as u32, vpos(tag, V3::new(r.sf(), r.sf(), r.sf()))); }
        }
    }
    if r.chance(1, 4) {
        // a handle between two distant triangles
        let s = Snap::of(&m);
        let fs: Vec<usize> = s.f.keys().copied().collect();
        for _ in 0..20 {
            let (a, b) = (*r.pick(&fs)?, *r.pick(&fs)?);
            let (p, q) = (s.orbit(s.f[&a].edge), s.orbit(s.f[&b].edge));
            let near = |x: usize, y: usize| x == y || s.edge_between(x, y).is_some();
            if a == b || p.iter().any(|e| q.iter().any(|d| near(s.e[e].org, s.e[d].org))) { continue; }
            m.remove_face(a as u16);
            m.remove_face(b as u16);
            tag += 1000;
            let (e, _) = m.insert_edge(s.e[&p[0]].prev as u32, ep(tag), q[0] as u32, ep(tag + 1));
            let hole = Snap::of(&m).orbit(e as usize);
            cut(&mut m, hole, r, &mut tag)?;
            break;
        }
    }
    closed_triangles(&Snap::of(&m)).then_some(m)
}
fn names(m: &mut M) {
    // every payload its own
    for (i, v) in m.vertices_mut().enumerate() { v.payload_mut().tag = 1 + i as u64; }
}

fn sphere(what: &str, m: &M, rad: f64, counts: (usize, usize, usize)) -> Result<(), String> {
    let s = Snap::of(m);
    s.wf()?;
    if !closed_triangles(&s) { return Err(format!("{what}: not a closed triangle mesh")); }
    let have = (s.v.len(), s.e.len() / 2, s.f.len());
    if have != counts { return Err(format!("{what}: {have:?} vertices, edges, faces instead of {counts:?}")); }
    for (i, v) in &s.v {
        let d = v.pay.pos.iter().map(|x| x * x).sum::<f64>().sqrt();
        if (d - rad).abs() > 1e-9 * (1.0 + rad) { return Err(format!("{what}: vertex {i} is {d} from the centre")); }
    }
    Ok(())
}

pub fn run(r: &mut Rep) {
    r.rule = "a closed triangle mesh was subdivided, a geodesic sphere built, or a frequency evaluated".into();
    let mut rng = r.rng(11);
    for k in 0..r.scale(400) {
        let (b, c) = (rng.range(1, if k % 2 == 0 { 20 } else { 100_000 }), if k % 3 == 0 { 0 } else { rng.below(5000) });
        r.eval("frequencies", Some(hash(&(b, c))));
        match guard(|| { let d = SubdivisionDescription::new(b, c); (d.b(), d.c(), d.frequency(), d.triangulation_number()) }) {
            Ok(x) if x == (b, c, b + c, b * b + b * c + c * c) => {}
            x => r.fail("frequency", format!("SubdivisionDescription::new({b}, {c}): {x:?}"), format!("({b}, {c})")),
        }
    }
    for b in [1usize, 2, 4, 8] {
        let rad = 0.5 + rng.f() * 4.0;
        type B = fn(f64, usize) -> M;
        let all: [(&str, B, usize, usize); 4] = [("icosphere", |r, n| M::icosphere(r, n), 12, 20), ("geodesic_icosahedron", |r, n| M::geodesic_icosahedron(r, n), 12, 20),
            ("geodesic_tetrahedron", |r, n| M::geodesic_tetrahedron(r, n), 4, 4), ("geodesic_octahedron", |r, n| M::geodesic_octahedron(r, n), 6, 8)];
        for (name, f, v, t) in all {
            let what = format!("{name}({rad}, {b})");
            r.eval("spheres", Some(hash(&(name, b))));
            let edges = v + t - 2;
            let _ = edges;
            let faces = t * b * b;
            let res = guard(|| f(rad, b)).and_then(|m| sphere(&what, &m, rad, (2 + faces / 2, faces * 3 / 2, faces)));
            if let Err(e) = res { r.fail(name, e, what); }
        }
    }
    for it in 0..r.scale(260) {
        if !r.time_left() { break; }
        let Some(mut m) = guard(|| closed(&mut rng)).ok().flatten() else { continue };
        names(&mut m);
        let o = Snap::of(&m);
        if !closed_triangles(&o) || o.f.len() > 400 { continue; }
        let before = o.picture();
        if it % 3 > 0 {
            let rec = Rec::default();
            r.eval("loop_subdivision", Some(hash(&before)));
            r.sample(|| before.clone());
            let res = guard(|| { m.loop_subdivision(&&rec); }).and_then(|_| {
                if let Some(b) = rec.bad.borrow().clone() { return Err(b); }
                if *rec.calls.borrow() != o.e.len() / 2 { return Err(format!("{} vertices interpolated for {} edges", rec.calls.borrow(), o.e.len() / 2)); }
                refined(&o, &Snap::of(&m))
            });
            if let Err(e) = res { r.fail("loop_subdivision", e, before); }
        } else {
            let b = *rng.pick(&[1usize, 2, 4, 8]).unwrap();
            if o.f.len() * b * b > 3000 { continue; }
            let rec = Rec::default();
            r.eval("subdivision_frequency", Some(hash(&(&before, b))));
            // one halving at a time
            let mut step = m.clone();
            let mut steps: Result<(), String> = Ok(());
            let mut k = b;
            let mut last = o.clone();
            while k > 1 && steps.is_ok() {
                let rec = Rec::default();
                steps = guard(|| { step.loop_subdivision(&&rec); }).and_then(|_| refined(&last, &Snap::of(&step)));
                last = Snap::of(&step);
                k /= 2;
            }
            let res = steps.and_then(|_| guard(|| { m.subdivision_frequency(SubdivisionDescription::new(b, 0), &rec); })).and_then(|_| {
                if let Some(b) = rec.bad.borrow().clone() { return Err(b); }
                let n = Snap::of(&m);
                n.wf()?;
                if n.f.len() != o.f.len() * b * b { return Err(format!("{} faces from {} at frequency {b}", n.f.len(), o.f.len())); }
                let (mut x, mut y): (Vec<_>, Vec<_>) = (tagged(&n), tagged(&last));
                if b == 1 { if let Some(d) = o.diff(&n) { return Err(format!("frequency 1 changed the mesh: {d}")); } }
                x.sort_by(|a, b| a.0.cmp(&b.0));
                y.sort_by(|a, b| a.0.cmp(&b.0));
                if x != y { return Err(format!("frequency {b} is not the same as halving again and again")); }
                Ok(())
            });
            if let Err(e) = res { r.fail("subdivision_frequency", format!("frequency {b}: {e}"), before); }
        }
    }
    // straight midpoints
    for k in 0..6 {
        let Some(mut m) = guard(|| closed(&mut rng)).ok().flatten() else { continue };
        names(&mut m);
        let o = Snap::of(&m);
        let before = o.picture();
        r.eval("midpoints", Some(hash(&(&before, k))));
        let res = guard(|| { m.loop_subdivision(&procedural_modelling::mesh::LinearVertexInterpolator::<3> {}); }).and_then(|_| {
            let n = Snap::of(&m);
            n.wf()?;
            let mut want: BTreeMap<Vec<i64>, usize> = BTreeMap::new();
            let key = |p: V3| p.iter().map(|x| (x * 1e7).round() as i64).collect::<Vec<_>>();
            for (i, e) in o.e.iter().filter(|(i, e)| **i < e.twin) { *want.entry(key((o.v[&e.org].pay.pos + o.v[&o.tgt(*i)].pay.pos) / 2.0)).or_insert(0) += 1; }
            for (_, v) in n.v.iter().filter(|(i, _)| !o.v.contains_key(i)) {
                // rounding at the last digit
                let p = key(v.pay.pos);
                let hit = want.keys().find(|w| w.iter().zip(&p).all(|(a, b)| (a - b).abs() <= 1)).cloned();
                match hit { Some(w) => { let c = want.get_mut(&w).unwrap(); *c -= 1; if *c == 0 { want.remove(&w); } } None => return Err(format!("a new vertex at {p:?} is not the middle of an edge")) }
            }
            Ok(())
        });
        if let Err(e) = res { r.fail("LinearVertexInterpolator", e, before); }
    }
}
