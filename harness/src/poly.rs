//! Simple polygons with integer corners (counter-clockwise, no three corners on a line) and an
//! independent exact geometry on them.
use crate::rep::*;
use crate::tm::*;
use procedural_modelling::prelude::*;

pub type P = (i64, i64);

pub fn area2(a: P, b: P, c: P) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}
fn cross(a: P, b: P, c: P, d: P) -> bool {
    area2(a, b, c).signum() != area2(a, b, d).signum() && area2(c, d, a).signum() != area2(c, d, b).signum()
}
pub fn general(p: &[P]) -> bool {
    let n = p.len();
    for i in 0..n { for j in i + 1..n { for k in j + 1..n { if area2(p[i], p[j], p[k]) == 0 { return false; } } } }
    true
}
pub fn simple(p: &[P]) -> bool {
    let n = p.len();
    for i in 0..n { for j in i + 2..n {
        if (j + 1) % n != i && cross(p[i], p[i + 1], p[j], p[(j + 1) % n]) { return false; }
    } }
    true
}
pub fn signed(p: &[P]) -> i64 {
    let n = p.len();
    (0..n).map(|i| { let (a, b) = (p[i], p[(i + 1) % n]); a.0 * b.1 - a.1 * b.0 }).sum()
}
pub fn convex(p: &[P]) -> bool {
    let n = p.len();
    (0..n).all(|i| area2(p[i], p[(i + 1) % n], p[(i + 2) % n]) > 0)
}
/// is the chord i j inside the polygon (general position)
pub fn chord(p: &[P], i: usize, j: usize) -> bool {
    let n = p.len();
    for k in 0..n {
        let l = (k + 1) % n;
        if k == i || k == j || l == i || l == j { continue; }
        if cross(p[i], p[j], p[k], p[l]) { return false; }
    }
    // the chord leaves corner i into the interior
    let (b, a, c) = (p[(i + n - 1) % n], p[i], p[(i + 1) % n]);
    let d = p[j];
    if area2(b, a, c) > 0 { area2(a, c, d) > 0 && area2(a, d, b) > 0 } else { !(area2(a, b, d) > 0 && area2(a, d, c) > 0) }
}

/// a simple polygon with n corners, one of five kinds; None if the draw failed
pub fn polygon(r: &mut Rng, n: usize) -> Option<(&'static str, Vec<P>)> {
    let c = |r: &mut Rng, s: usize| r.below(2 * s + 1) as i64 - s as i64;
    let (name, mut p) = match r.below(5) {
        0 => {
            let mut v: Vec<P> = (0..n).map(|_| (c(r, 60), c(r, 60))).collect();
            v.sort_by(|a, b| (a.1 as f64).atan2(a.0 as f64).partial_cmp(&(b.1 as f64).atan2(b.0 as f64)).unwrap());
            ("star-shaped", v)
        }
        1 => {
            let mut xs: Vec<i64> = (0..n).map(|_| c(r, 90)).collect();
            xs.sort();
            xs.dedup();
            if xs.len() < n { return None; }
            let (mut lo, mut hi) = (vec![], vec![]);
            for (k, x) in xs.iter().enumerate() {
                if k == 0 || k + 1 == n { lo.push((*x, 0)); } else if r.chance(1, 2) { lo.push((*x, -1 - r.below(50) as i64)); } else { hi.push((*x, 1 + r.below(50) as i64)); }
            }
            hi.reverse();
            lo.extend(hi);
            if r.chance(1, 2) { lo = lo.iter().map(|q| (-q.1, q.0)).collect(); }
            ("monotone", lo)
        }
        2 => {
            let mut a: Vec<f64> = (0..n).map(|_| r.f() * std::f64::consts::TAU).collect();
            a.sort_by(|x, y| x.partial_cmp(y).unwrap());
            let v: Vec<P> = a.iter().map(|t| ((t.cos() * 1000.0).round() as i64, (t.sin() * 700.0).round() as i64)).collect();
            if !convex(&v) { return None; }
            ("convex", v)
        }
        3 => {
            // comb with deep notches
            let v: Vec<P> = (0..n - 2).map(|k| (k as i64 * 7 + c(r, 2), if k % 2 == 0 { 40 + c(r, 9) } else { 5 + c(r, 4) })).rev().collect();
            let mut w = vec![(-9, -20 + c(r, 5)), (7 * n as i64, -23 + c(r, 5))];
            w.extend(v);
            ("comb", w)
        }
        _ => {
            let mut v: Vec<P> = (0..n).map(|_| (c(r, 40), c(r, 40))).collect();
            let mut tries = 0;
            'again: loop {
                tries += 1;
                if tries > 400 { return None; }
                for i in 0..n { for j in i + 2..n {
                    if (j + 1) % n != i && cross(v[i], v[i + 1], v[j], v[(j + 1) % n]) { v[i + 1..=j].reverse(); continue 'again; }
                } }
                break;
            }
            ("untangled", v)
        }
    };
    if p.len() != n { return None; }
    if signed(&p) < 0 { p.reverse(); }
    let s = r.below(n);
    p.rotate_left(s);
    if general(&p) && simple(&p) && signed(&p) > 0 { Some((name, p)) } else { None }
}

/// one face with these corners, in one of four planes; the corners keep their tags
pub fn place(p: &[P], k: usize) -> Vec<V3> {
    p.iter().map(|q| {
        let (x, y) = (q.0 as f64, q.1 as f64);
        match k % 4 {
            0 => V3::new(x, y, 0.0),
            1 => V3::new(0.0, x, y) + V3::new(3.0, 1.0, 2.0),
            2 => V3::new(y, 5.0, x),
            _ => V3::new(x, y, 2.0 * x),
        }
    }).collect()
}
pub fn face_mesh(p: &[P], k: usize) -> M {
    let mut m = M::new();
    m.insert_polygon(place(p, k).into_iter().enumerate().map(|(i, v)| vpos(i as u64, v)));
    m
}
/// three corners per triangle; each side of the polygon in exactly one triangle, each inner side in two;
/// `wound`: every triangle is wound like the polygon
pub fn covers(ring: &[usize], t: &[usize], wound: bool) -> Result<(), String> {
    use std::collections::BTreeMap;
    let n = ring.len();
    if t.len() != 3 * (n - 2) { return Err(format!("{} indices for {} corners, expected {}", t.len(), n, 3 * (n - 2))); }
    let mut e: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut d: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for q in t.chunks(3) {
        for k in 0..3 {
            let (a, b) = (q[k], q[(k + 1) % 3]);
            if !ring.contains(&a) { return Err(format!("index {a} is no corner of the face")); }
            if a == b { return Err(format!("degenerate triangle {q:?}")); }
            *e.entry((a.min(b), a.max(b))).or_insert(0) += 1;
            *d.entry((a, b)).or_insert(0) += 1;
        }
    }
    for i in 0..n {
        let (a, b) = (ring[i], ring[(i + 1) % n]);
        if e.remove(&(a.min(b), a.max(b))) != Some(1) { return Err(format!("the side {a}-{b} of the face is not covered exactly once")); }
        if wound && d.get(&(a, b)) != Some(&1) { return Err(format!("the triangle at the side {a}-{b} is wound against the face")); }
    }
    if let Some((k, c)) = e.iter().find(|(_, c)| **c != 2) { return Err(format!("the inner side {k:?} belongs to {c} triangles")); }
    if wound { if let Some((k, _)) = d.iter().find(|(_, c)| **c != 1) { return Err(format!("the directed side {k:?} occurs twice")); } }
    Ok(())
}
