//! C16: extruding, lofting, filling with an apex, and the primitives
use crate::gen;
use crate::rep::*;
use crate::snap::*;
use crate::tm::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

/// a corner of an expected face: a vertex that was there, or the n-th new one
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum C { Old(usize), New(usize) }
use C::*;

fn canon(c: &[usize]) -> Vec<usize> {
    (0..c.len()).map(|k| (0..c.len()).map(|i| c[(i + k) % c.len()]).collect::<Vec<_>>()).min().unwrap_or_default()
}
fn same_bones(a: &E, b: &E) -> bool { a.twin == b.twin && a.org == b.org && a.pay == b.pay }

/// Everything that was there stays, except that half-edges of the hole `s` may have joined new faces;
/// the new vertices carry `ps`, the new faces are `faces`; `free` of the new half-edges have no face.
fn added(o: &Snap, n: &Snap, s: &[usize], ps: &[VPay], faces: &[Vec<C>], free: usize) -> Result<(), String> {
    n.wf()?;
    if n.mp != o.mp { return Err("the payload of the mesh changed".into()); }
    for (i, e) in &o.e {
        let Some(x) = n.e.get(i) else { return Err(format!("half-edge {i} is gone")) };
        if !same_bones(e, x) { return Err(format!("half-edge {i} changed its origin, twin or payload")); }
        if !s.contains(i) && x != e { return Err(format!("half-edge {i} outside the hole changed")); }
    }
    for (i, v) in &o.v {
        match n.v.get(i) {
            None => return Err(format!("vertex {i} is gone")),
            Some(x) if x.pay != v.pay => return Err(format!("vertex {i} changed")),
            _ => {}
        }
    }
    for (i, f) in &o.f {
        match n.f.get(i) {
            None => return Err(format!("face {i} is gone")),
            Some(x) if x != f => return Err(format!("face {i} changed")),
            _ => {}
        }
    }
    let nv: Vec<usize> = n.v.keys().copied().filter(|i| !o.v.contains_key(i)).collect();
    if nv.len() != ps.len() { return Err(format!("{} new vertices instead of {}", nv.len(), ps.len())); }
    // new vertices are told apart by their payloads (above the same vertex there may be several alike)
    const BASE: usize = 1 << 40;
    let label = |v: usize| -> usize {
        if o.v.contains_key(&v) { return v; }
        ps.iter().position(|p| *p == n.v[&v].pay).map(|j| BASE + j).unwrap_or(NONE)
    };
    let at: Vec<usize> = ps.iter().map(|p| BASE + ps.iter().position(|q| q == p).unwrap()).collect();
    let mut have: Vec<usize> = nv.iter().map(|v| label(*v)).collect();
    let mut should = at.clone();
    have.sort();
    should.sort();
    if have != should { return Err(format!("the new vertices carry {:?} instead of {ps:?}", nv.iter().map(|i| n.v[i].pay).collect::<Vec<_>>())); }
    let mut want: Vec<Vec<usize>> = faces.iter().map(|f| canon(&f.iter().map(|c| match c { Old(v) => *v, New(j) => at[*j] }).collect::<Vec<_>>())).collect();
    let mut got: Vec<Vec<usize>> = n.f.iter().filter(|(i, _)| !o.f.contains_key(i))
        .map(|(_, f)| canon(&n.orbit(f.edge).iter().map(|e| label(n.e[e].org)).collect::<Vec<_>>())).collect();
    want.sort();
    got.sort();
    if want != got { return Err(format!("the new faces are {got:?} instead of {want:?}")); }
    let new_free = n.e.iter().filter(|(i, e)| !o.e.contains_key(i) && e.face == NONE).count();
    if new_free != free { return Err(format!("{new_free} new half-edges without a face instead of {free}")); }
    Ok(())
}
/// the half-edges of the hole covered by new faces, and no others, got a face
fn covers(n: &Snap, s: &[usize], covered: &[usize]) -> Result<(), String> {
    for e in s {
        if (n.e[e].face != NONE) != covered.contains(e) {
            return Err(format!("half-edge {e} of the hole {}", if covered.contains(e) { "is still open" } else { "was closed" }));
        }
    }
    Ok(())
}
fn runs(n: &Snap, e: usize, from: usize, to: usize) -> Result<(), String> {
    if !n.e.contains_key(&e) { return Err(format!("returned {e}, which is no half-edge")); }
    let p = |v: usize| n.v[&v].pay.tag;
    let (a, b) = (n.e[&e].org, n.tgt(e));
    if (a, b) != (from, to) { return Err(format!("returned the half-edge from {a} (#{}) to {b} (#{}) instead of {from} to {to}", p(a), p(b))); }
    Ok(())
}
fn newv(o: &Snap, n: &Snap, p: &VPay) -> usize {
    n.v.iter().find(|(i, v)| !o.v.contains_key(i) && v.pay == *p).map(|(i, _)| *i).unwrap_or(NONE)
}

fn simple(o: &Snap, s: &[usize]) -> bool { s.iter().map(|e| o.e[e].org).collect::<BTreeSet<_>>().len() == s.len() }
fn fresh(r: &mut Rng, c: usize) -> Vec<VPay> { let b = r.next() % 1_000_000_000 + 1_000_000; (0..c as u64).map(|i| vp(b + i)).collect() }

/// a hem of polygons with `n` new and `w` old corners each
fn poly_back(m: &mut M, o: &Snap, e: usize, r: &mut Rng, n: usize, w: usize, partial: bool) -> (String, Result<(), String>) {
    let s = o.orbit(e);
    let k = s.len();
    let is_simple = simple(o, &s);
    let back: Vec<usize> = (0..k).map(|i| s[(k - i) % k]).collect();
    let to = |i: usize| Old(o.tgt(back[i % k]));
    let eid = e as u32;
    let mut faces: Vec<Vec<C>> = vec![];
    let rows = k / (w - 1);
    let full = rows * (n - 1);
    if full < 3 || full > 60 { return (String::new(), Ok(())); }
    let partial = is_simple && rows > 1 && partial;
    let c = if partial { 1 + r.below(rows - 1) * (n - 1) } else { full };
    let ps = fresh(r, c);
    let count = if partial { (c - 1) / (n - 1) } else { rows };
    for j in 0..count {
        // from the first covered corner to the last, then the new vertices
        let mut f: Vec<C> = (0..w).rev().map(|i| if i == 0 { to(j * (w - 1)) } else { Old(o.e[&back[(j * (w - 1) + i - 1) % k]].org) }).collect();
        for i in 0..n { f.push(New((j * (n - 1) + i) % c.max(1))); }
        faces.push(f);
    }
    let name = format!("loft_polygon_back({e}, {n}, {w}, {c} points) on a hole of {k}");
    let res = guard(|| m.loft_polygon_back(eid, n, w, ps.clone())).and_then(|ret| {
        let x = Snap::of(m);
        let inner = x.e.len() - o.e.len();
        let free = if partial { 2 + count * (n - 1) } else { full };
        let _ = inner;
        added(o, &x, &s, &ps, &faces, free)?;
        covers(&x, &s, &back[..count * (w - 1)])?;
        if count > 0 && is_simple { runs(&x, ret as usize, newv(o, &x, &ps[1 % c]), newv(o, &x, &ps[0])) } else { Ok(()) }
    });
    (name, res)
}
/// one loft on the hole at `e`; returns a description and what was wrong
fn loft(m: &mut M, o: &Snap, e: usize, r: &mut Rng) -> (String, Result<(), String>) {
    let s = o.orbit(e);
    let k = s.len();
    let org = |i: usize| Old(o.e[&s[i % k]].org);
    let is_simple = simple(o, &s);
    // s backwards: e, prev(e), ...
    let back: Vec<usize> = (0..k).map(|i| s[(k - i) % k]).collect();
    let to = |i: usize| Old(o.tgt(back[i % k]));
    let eid = e as u32;
    let mut faces: Vec<Vec<C>> = vec![];
    match r.below(6) {
        0 => {
            // polygons backwards
            let n = r.range(2, 5);
            let ms: Vec<usize> = (2..=5).filter(|m| k % (m - 1) == 0).collect();
            let w = *r.pick(&ms).unwrap_or(&2);
            let partial = r.chance(1, 3);
            poly_back(m, o, e, r, n, w, partial)
        }
        1 => {
            let partial = is_simple && k > 2 && r.chance(1, 3);
            let c = if partial { r.range(1, k - 1) } else { k };
            let ps = fresh(r, c);
            let count = if partial { c - 1 } else { k };
            for i in 0..count { faces.push(vec![org(i), org(i + 1), New((i + 1) % c), New(i)]); }
            let name = format!("loft_polygon({e}, 2, 2, {c} points) on a hole of {k}");
            let res = guard(|| m.loft_polygon(eid, 2, 2, ps.clone())).and_then(|ret| {
                let x = Snap::of(m);
                added(o, &x, &s, &ps, &faces, if partial { 2 + count } else { k })?;
                covers(&x, &s, &s[..count])?;
                let r = ret as usize;
                if x.e.get(&r).map(|y| y.face) != Some(if count > 0 || !partial { NONE } else { x.e[&r].face }) { return Err(format!("returned {r}, which is not on the new boundary")); }
                Ok(())
            });
            (name, res)
        }
        2 => {
            // forwards with triangles
            let shift = r.chance(1, 2);
            let c = r.range(1, k);
            let ps = fresh(r, c);
            for i in 0..c - 1 {
                if shift {
                    faces.push(vec![org(i), org(i + 1), New(i + 1)]);
                    faces.push(vec![org(i), New(i + 1), New(i)]);
                } else {
                    faces.push(vec![org(i), org(i + 1), New(i)]);
                    faces.push(vec![org(i + 1), New(i + 1), New(i)]);
                }
            }
            let name = format!("loft_tri({e}, {shift}, {c} points) on a hole of {k}");
            let res = guard(|| m.loft_tri(eid, shift, ps.clone())).and_then(|ret| {
                let x = Snap::of(m);
                added(o, &x, &s, &ps, &faces, c + 1)?;
                covers(&x, &s, &s[..c - 1])?;
                if x.e.get(&(ret as usize)).map(|y| y.org) != Some(newv(o, &x, &ps[0])) { return Err(format!("returned {ret}, which does not leave the first new vertex")); }
                Ok(())
            });
            (name, res)
        }
        3 => {
            // backwards with triangles
            let shift = r.chance(1, 2);
            let c = r.range(1, k);
            let ps = fresh(r, c);
            for i in 0..c - 1 {
                let foot = Old(o.e[&back[i]].org);
                if shift {
                    faces.push(vec![foot, to(i), New(i + 1)]);
                    faces.push(vec![to(i), New(i), New(i + 1)]);
                } else {
                    faces.push(vec![foot, to(i), New(i)]);
                    faces.push(vec![foot, New(i), New(i + 1)]);
                }
            }
            let name = format!("loft_tri_back({e}, {shift}, {c} points) on a hole of {k}");
            let res = guard(|| m.loft_tri_back(eid, shift, ps.clone())).and_then(|ret| {
                let x = Snap::of(m);
                added(o, &x, &s, &ps, &faces, c + 1)?;
                covers(&x, &s, &back[..c - 1])?;
                runs(&x, ret as usize, newv(o, &x, &ps[0]), o.tgt(e))
            });
            (name, res)
        }
        4 => {
            let ps = fresh(r, k);
            for i in 0..k {
                faces.push(vec![org(i), org(i + 1), New(i)]);
                faces.push(vec![org(i + 1), New((i + 1) % k), New(i)]);
            }
            let name = format!("loft_tri_closed({e}, {k} points)");
            let res = guard(|| m.loft_tri_closed(eid, ps.clone())).and_then(|ret| {
                let x = Snap::of(m);
                added(o, &x, &s, &ps, &faces, k)?;
                covers(&x, &s, &s)?;
                if x.e.get(&(ret as usize)).map(|y| y.face) != Some(NONE) { return Err("the returned half-edge is not on the new boundary".into()); }
                runs(&x, ret as usize, newv(o, &x, &ps[0]), newv(o, &x, &ps[1]))
            });
            (name, res)
        }
        _ => {
            let ps = fresh(r, k);
            for i in 0..k {
                let foot = Old(o.e[&back[i]].org);
                faces.push(vec![foot, to(i), New(i)]);
                faces.push(vec![foot, New(i), New((i + 1) % k)]);
            }
            let name = format!("loft_tri_back_closed({e}, {k} points)");
            let res = guard(|| m.loft_tri_back_closed(eid, ps.clone())).and_then(|_| {
                let x = Snap::of(m);
                added(o, &x, &s, &ps, &faces, k)?;
                covers(&x, &s, &s)
            });
            (name, res)
        }
    }
}

fn quads(o: &Snap, s: &[usize], base: usize) -> Vec<Vec<C>> {
    let k = s.len();
    (0..k).map(|i| vec![Old(o.e[&s[i]].org), Old(o.e[&s[(i + 1) % k]].org), New(base + (i + 1) % k), New(base + i)]).collect()
}
/// the triangles between the hole and the lid; the i-th new vertex stands on s[i]
fn belts(o: &Snap, s: &[usize]) -> Vec<Vec<C>> {
    let k = s.len();
    let p = |i: usize| Old(o.e[&s[i % k]].org);
    (0..k).flat_map(|i| [vec![p(i), p(i + 1), New(i)], vec![p(i + 1), New((i + 1) % k), New(i)]]).collect()
}
fn lid(k: usize, base: usize) -> Vec<C> { (0..k).map(|i| New(base + i)).collect() }
fn trans(r: &mut Rng) -> NdAffine<f64, 3> {
    let mut t = NdAffine::from_translation(V3::new(r.sf() * 3.0, r.sf() * 3.0, 1.0 + r.f()));
    if r.chance(1, 2) { t = t.with_scale(V3::new(0.5 + r.f(), 0.5 + r.f(), 1.0)); }
    t
}
fn without(o: &Snap, f: usize) -> Snap {
    let mut x = o.clone();
    for e in o.orbit(o.f[&f].edge) { x.e.get_mut(&e).unwrap().face = NONE; }
    x.f.remove(&f);
    x
}
fn lids(n: &Snap, ret: usize, k: usize, o: &Snap) -> Result<(), String> {
    let c = n.e.get(&ret).map(|_| n.orbit(ret)).unwrap_or_default();
    if c.len() != k || c.iter().any(|e| o.v.contains_key(&n.e[e].org)) { return Err(format!("returned {ret}, which is not on the lid")); }
    Ok(())
}
fn extrude(m: &mut M, o: &Snap, e: usize, r: &mut Rng) -> (String, Result<(), String>) {
    let s = o.orbit(e);
    let k = s.len();
    let t = trans(r);
    let at = |o: &Snap, s: &[usize]| -> Vec<VPay> { s.iter().map(|e| o.v[&o.e[e].org].pay.transformed(&t)).collect() };
    let eid = e as u32;
    let face = |r: &mut Rng| { let f: Vec<usize> = o.f.keys().copied().collect(); r.pick(&f).copied() };
    match r.below(7) {
        0 => {
            let mut f = quads(o, &s, 0);
            f.push(lid(k, 0));
            (format!("extrude({e}) on a hole of {k}"), guard(|| m.extrude(eid, t)).and_then(|ret| {
                let x = Snap::of(m);
                added(o, &x, &s, &at(o, &s), &f, 0)?;
                covers(&x, &s, &s)?;
                lids(&x, ret as usize, k, o)
            }))
        }
        1 => {
            // every new vertex above the end of the half-edge it stands on
            let mut f = belts(o, &s);
            f.push(lid(k, 0));
            let s1: Vec<usize> = (0..k).map(|i| s[(i + 1) % k]).collect();
            (format!("extrude_tri({e}) on a hole of {k}"), guard(|| m.extrude_tri(eid, t)).and_then(|ret| {
                let x = Snap::of(m);
                added(o, &x, &s, &at(o, &s1), &f, 0)?;
                covers(&x, &s, &s)?;
                lids(&x, ret as usize, k, o)
            }))
        }
        2 => {
            let mut f = belts(o, &s);
            f.push(lid(k, 0));
            let p = at(o, &s);
            let mid: Vec<VPay> = (0..k).map(|i| p[i].lerped(&p[(i + 1) % k], 0.5)).collect();
            (format!("extrude_tri2({e}) on a hole of {k}"), guard(|| m.extrude_tri2(eid, t)).and_then(|ret| {
                let x = Snap::of(m);
                added(o, &x, &s, &mid, &f, 0)?;
                covers(&x, &s, &s)?;
                lids(&x, ret as usize, k, o)
            }))
        }
        3 | 4 => {
            let Some(f0) = face(r) else { return (String::new(), Ok(())) };
            let o1 = without(o, f0);
            let s = o1.orbit(o.f[&f0].edge);
            let k = s.len();
            if k < 3 { return (String::new(), Ok(())); }
            let fid = f0 as u16;
            if r.chance(1, 2) {
                let mut f = quads(&o1, &s, 0);
                f.push(lid(k, 0));
                (format!("extrude_face({f0}), a face of {k}"), guard(|| m.extrude_face(fid, t)).and_then(|ret| {
                    let x = Snap::of(m);
                    // the number of the face may be used again
                    replaced(o, &o1, &x, f0, &s, &at(o, &s), &f)?;
                    lids(&x, ret as usize, k, o)
                }))
            } else {
                let mut f = belts(&o1, &s);
                f.push(lid(k, 0));
                let s1: Vec<usize> = (0..k).map(|i| s[(i + 1) % k]).collect();
                (format!("extrude_tri_face({f0}), a face of {k}"), guard(|| m.extrude_tri_face(fid, t)).and_then(|ret| {
                    let x = Snap::of(m);
                    replaced(o, &o1, &x, f0, &s, &at(o, &s1), &f)?;
                    lids(&x, ret as usize, k, o)
                }))
            }
        }
        5 => {
            if !simple(o, &s) { return (String::new(), Ok(())); }
            let ps = fresh(r, 1);
            let f: Vec<Vec<C>> = (0..k).map(|i| vec![Old(o.e[&s[i]].org), Old(o.e[&s[(i + 1) % k]].org), New(0)]).collect();
            (format!("fill_hole_apex({e}) on a hole of {k}"), guard(|| m.fill_hole_apex(eid, ps[0])).and_then(|ret| {
                let x = Snap::of(m);
                added(o, &x, &s, &ps, &f, 0)?;
                covers(&x, &s, &s)?;
                if o.v.contains_key(&ret) || !x.v.contains_key(&ret) { return Err(format!("returned vertex {ret}, which is not the apex")); }
                Ok(())
            }))
        }
        _ => {
            // every hole gets its own walls and lid
            let holes = o.holes();
            if holes.len() > 4 { return (String::new(), Ok(())); }
            let (mut ps, mut f, mut all) = (vec![], vec![], vec![]);
            for h in &holes {
                let s = o.orbit(*h);
                f.extend(quads(o, &s, ps.len()));
                f.push(lid(s.len(), ps.len()));
                ps.extend(at(o, &s));
                all.extend(s);
            }
            (format!("extrude_boundary() with {} holes", holes.len()), guard(|| m.extrude_boundary(t)).and_then(|_| {
                let x = Snap::of(m);
                added(o, &x, &all, &ps, &f, 0)?;
                covers(&x, &all, &all)
            }))
        }
    }
}
/// `added` relative to o1 = o without face f0, where the new faces may use its number again
fn replaced(o: &Snap, o1: &Snap, n: &Snap, f0: usize, s: &[usize], ps: &[VPay], faces: &[Vec<C>]) -> Result<(), String> {
    let _ = o;
    added(o1, n, s, ps, faces, 0)?;
    if n.f.len() != o1.f.len() + faces.len() { return Err(format!("{} faces, face {f0} was to be replaced", n.f.len())); }
    covers(n, s, s)
}

/// the surface is closed, in one piece, without holes, and has the promised faces
fn surface(m: &M, nv: usize, faces: &[(usize, usize)]) -> Result<(), String> {
    let s = Snap::of(m);
    s.wf()?;
    if s.v.len() != nv { return Err(format!("{} vertices instead of {nv}", s.v.len())); }
    if let Some((i, _)) = s.e.iter().find(|(_, e)| e.face == NONE) { return Err(format!("half-edge {i} is on a boundary: the solid is not closed")); }
    let mut deg: BTreeMap<usize, usize> = BTreeMap::new();
    for f in s.f.values() { *deg.entry(s.orbit(f.edge).len()).or_insert(0) += 1; }
    let mut want: BTreeMap<usize, usize> = BTreeMap::new();
    for (d, c) in faces { if *c > 0 { *want.entry(*d).or_insert(0) += c; } }
    if deg != want { return Err(format!("faces by number of corners {deg:?} instead of {want:?}")); }
    if s.euler() != 2 { return Err(format!("Euler characteristic {}", s.euler())); }
    let mut seen = BTreeSet::new();
    let mut todo: Vec<usize> = s.v.keys().take(1).copied().collect();
    while let Some(v) = todo.pop() {
        if seen.insert(v) { for e in s.vwheel(v) { todo.push(s.tgt(e)); } }
    }
    if seen.len() != s.v.len() { return Err("not connected".into()); }
    if s.v.keys().any(|v| s.vwheel(*v).len() != s.out_all(*v).len()) { return Err("a vertex pinches the surface".into()); }
    Ok(())
}
/// all edges have the same length
fn equilateral(m: &M, l: Option<f64>) -> Result<(), String> {
    let d: Vec<f64> = m.edges().map(|e| (*e.origin(m).payload().pos() - *e.target(m).payload().pos()).norm()).collect();
    let want = l.unwrap_or(d[0]);
    match d.iter().find(|x| (**x - want).abs() > 1e-9 * (1.0 + want)) {
        Some(x) => Err(format!("an edge has length {x} instead of {want}")),
        None => Ok(()),
    }
}
type P = HalfEdgeMeshImpl<TM>;
fn primitive(i: usize, n: usize, r: &mut Rng) -> (String, Result<(), String>) {
    let (a, b, h) = (0.5 + r.f() * 3.0, 0.5 + r.f() * 3.0, 0.5 + r.f() * 3.0);
    let ring = |z: f64, rad: f64, turn: f64, tag: u64| -> Vec<VPay> {
        (0..n).map(|j| { let t = (j as f64 + turn) * 2.0 * std::f64::consts::PI / n as f64; vpos(tag + j as u64, V3::new(rad * t.cos(), rad * t.sin(), z)) }).collect()
    };
    let two = |a: f64, b: f64| format!("({a}, {b}, {n})");
    match i {
        0 => ("cube".into(), guard(|| P::cube(a)).and_then(|m| surface(&m, 8, &[(4, 6)]).and(equilateral(&m, None)))),
        1 => ("regular_tetrahedron".into(), guard(|| P::regular_tetrahedron(a)).and_then(|m| surface(&m, 4, &[(3, 4)]).and(equilateral(&m, None)))),
        2 => ("regular_octahedron".into(), guard(|| P::regular_octahedron(a)).and_then(|m| surface(&m, 6, &[(3, 8)]).and(equilateral(&m, None)))),
        3 => ("dodecahedron".into(), guard(|| P::dodecahedron(a)).and_then(|m| surface(&m, 20, &[(5, 12)]).and(equilateral(&m, None)))),
        4 => ("regular_icosahedron".into(), guard(|| P::regular_icosahedron(a)).and_then(|m| surface(&m, 12, &[(3, 20)]).and(equilateral(&m, None)))),
        5 => (format!("regular_prism{}", two(a, h)), guard(|| P::regular_prism(a, h, n)).and_then(|m| surface(&m, 2 * n, &[(4, n), (n, 2)]))),
        6 => (format!("uniform_prism({a}, {n})"), guard(|| P::uniform_prism(a, n)).and_then(|m| surface(&m, 2 * n, &[(4, n), (n, 2)]).and(equilateral(&m, None)))),
        7 => (format!("regular_antiprism{}", two(a, h)), guard(|| P::regular_antiprism(a, h, n)).and_then(|m| surface(&m, 2 * n, &[(3, 2 * n), (n, 2)]))),
        8 => (format!("uniform_antiprism({a}, {n})"), guard(|| P::uniform_antiprism(a, n)).and_then(|m| surface(&m, 2 * n, &[(3, 2 * n), (n, 2)]))),
        9 => (format!("regular_pyramid{}", two(a, h)), guard(|| P::regular_pyramid(a, h, n)).and_then(|m| surface(&m, n + 1, &[(3, n), (n, 1)]))),
        10 => (format!("cone{}", two(a, h)), guard(|| P::cone(a, h, n)).and_then(|m| surface(&m, n + 1, &[(3, n), (n, 1)]))),
        11 => (format!("regular_frustum({a}, {b}, {h}, {n}, false)"), guard(|| P::regular_frustum(a, b, h, n, false)).and_then(|m| surface(&m, 2 * n, &[(4, n), (n, 2)]))),
        12 => (format!("cylinder{}", two(a, h)), guard(|| P::cylinder(a, h, n)).and_then(|m| surface(&m, 2 * n, &[(4, n), (n, 2)]))),
        13 => (format!("cuboid({a}, {b}, {h})"), guard(|| P::cuboid(V3::new(a, b, h))).and_then(|m| surface(&m, 8, &[(4, 6)]))),
        14 => (format!("prism of a ring of {n}"), guard(|| P::prism(ring(0.0, a, 0.0, 1), h)).and_then(|m| surface(&m, 2 * n, &[(4, n), (n, 2)]))),
        15 => (format!("antiprism of a ring of {n}"), guard(|| P::antiprism(ring(0.0, a, 0.0, 1), h)).and_then(|m| surface(&m, 2 * n, &[(3, 2 * n), (n, 2)]))),
        16 => (format!("antiprism_iter of rings of {n}"), guard(|| P::antiprism_iter(ring(0.0, a, 0.0, 1), ring(h, b, 0.5, 1000))).and_then(|m| surface(&m, 2 * n, &[(3, 2 * n), (n, 2)]))),
        17 => (format!("frustum of rings of {n}"), guard(|| P::frustum(ring(0.0, a, 0.0, 1), ring(h, b, 0.0, 1000), false)).and_then(|m| surface(&m, 2 * n, &[(4, n), (n, 2)]))),
        18 => (format!("pyramid over a ring of {n}"), guard(|| P::pyramid(ring(0.0, a, 0.0, 1), vpos(5000, V3::new(0.0, 0.0, h)))).and_then(|m| surface(&m, n + 1, &[(3, n), (n, 1)]))),
        19 => ("regular_hexahedron".into(), guard(|| P::regular_hexahedron(a)).and_then(|m| surface(&m, 8, &[(4, 6)]).and(equilateral(&m, None)))),
        20 => (format!("dihedron of a ring of {n}"), guard(|| P::dihedron(ring(0.0, a, 0.0, 1))).and_then(|m| surface(&m, n, &[(n, 2)]))),
        _ => {
            let k = r.range(2, 9);
            (format!("uv_sphere({a}, {k}, {n})"), guard(|| P::uv_sphere(a, k, n)).and_then(|m| {
                let rows = k - 1;
                surface(&m, rows * n + 2, &[(3, 2 * n), (4, (rows - 1) * n)])?;
                match m.vertices().find(|v| (v.payload().pos().norm() - a).abs() > 1e-9 * (1.0 + a)) { Some(v) => Err(format!("vertex {} is not on the sphere", v.id())), None => Ok(()) }
            }))
        }
    }
}
const PRIMITIVES: usize = 22;

pub fn run(r: &mut Rep) {
    r.rule = "a hole of at least three half-edges of a random mesh was lofted, extruded or filled, or a primitive with its parameters was built".into();
    let mut rng = r.rng(16);
    // every primitive for every number of sides
    'all: for n in 3..=(if r.tier == "quick" { 16 } else { 60 }) {
        for i in 0..PRIMITIVES {
            if !r.time_left() { break 'all; }
            let (what, res) = primitive(i, n, &mut rng);
            r.eval("primitives", Some(hash(&(i, n))));
            if let Err(e) = res { r.fail(&format!("primitive-{i}"), format!("{what}: {e}"), what.clone()); }
        }
    }
    // every hem of polygons with few corners around a polygon, and with fewer points than corners
    'hems: for w in 2..=6usize {
        for n in 2..=6usize {
            for rows in 1..=4usize {
                for partial in [false, true] {
                    if !r.time_left() { break 'hems; }
                    let k = rows * (w - 1);
                    if k < 3 || (partial && rows == 1) { continue; }
                    let mut m = P::polygon((0..k).map(|j| { let t = j as f64 * 2.0 * std::f64::consts::PI / k as f64; vpos(j as u64 + 1, V3::new(t.cos(), t.sin(), 0.0)) }));
                    let o = Snap::of(&m);
                    let Some(h) = o.holes().first().copied() else { continue };
                    let s = o.orbit(h);
                    let e = *rng.pick(&s).unwrap();
                    let (what, res) = poly_back(&mut m, &o, e, &mut rng, n, w, partial);
                    if what.is_empty() { continue; }
                    r.eval("hems", Some(hash(&what)));
                    if let Err(x) = res { r.fail("loft_polygon_back", format!("{what}: {x}"), o.picture()); }
                }
            }
        }
    }
    for it in 0..r.scale(1500) {
        if !r.time_left() { break; }
        let steps = rng.range(1, 14);
        let made = if rng.chance(1, 3) {
            gen::solid(rng.below(gen::SOLIDS), rng.range(3, 8)).and_then(|(_, mut m)| {
                // open it somewhere
                let k = rng.range(1, 3);
                for _ in 0..k {
                    let s = Snap::of(&m);
                    let f: Vec<usize> = s.f.keys().copied().collect();
                    let f = *rng.pick(&f)? as u16;
                    guard(|| m.remove_face(f)).ok()?;
                }
                let s = Snap::of(&m);
                Some((m, s))
            })
        } else {
            gen::mesh(&mut rng, steps, it % 4 == 0)
        };
        let Some((mut m, o)) = made else { continue };
        if o.wf().is_err() { continue; }
        let holes = o.holes();
        let e = match rng.pick(&holes) {
            Some(h) => { let s = o.orbit(*h); *rng.pick(&s).unwrap() }
            None => continue,
        };
        // the new boundary of a hole of two would have two edges between the same two vertices
        if o.holes().iter().any(|h| o.orbit(*h).len() < 3) { continue; }
        let before = o.picture();
        let lofting = rng.chance(1, 2);
        let (what, res) = if lofting { loft(&mut m, &o, e, &mut rng) } else { extrude(&mut m, &o, e, &mut rng) };
        if what.is_empty() { continue; }
        r.eval(if lofting { "lofts" } else { "extrusions" }, if o.orbit(e).len() >= 3 { Some(hash(&(&before, &what))) } else { None });
        r.sample(|| format!("{what} on {before}"));
        if let Err(x) = res {
            let name = what.split('(').next().unwrap_or("").to_string();
            r.fail(&name, format!("{what}: {x}"), before);
        }
    }
}
