//! C14: adjacency, degree and Laplacian matrices, shortest paths
use crate::gen;
use crate::rep::*;
use crate::snap::*;
use crate::tm::*;
use procedural_modelling::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

fn links(s: &Snap) -> BTreeSet<(usize, usize)> {
    let mut l = BTreeSet::new();
    for (i, e) in &s.e {
        l.insert((e.org, s.tgt(*i)));
        l.insert((s.tgt(*i), e.org));
    }
    l
}
/// number of edges on a shortest walk to t
fn levels(s: &Snap, l: &BTreeSet<(usize, usize)>, t: usize) -> BTreeMap<usize, usize> {
    let mut d = BTreeMap::from([(t, 0)]);
    for round in 0..s.v.len() {
        let next: Vec<usize> = l.iter().filter(|(a, b)| d.get(a) == Some(&round) && !d.contains_key(b)).map(|p| p.1).collect();
        if next.is_empty() { break; }
        for x in next { d.insert(x, round + 1); }
    }
    d
}
fn same(a: &nalgebra::DMatrix<f64>, n: usize, want: impl Fn(usize, usize) -> f64, tol: f64) -> Result<(), String> {
    if a.nrows() != n || a.ncols() != n { return Err(format!("{}x{} instead of {n}x{n}", a.nrows(), a.ncols())); }
    for i in 0..n {
        for j in 0..n {
            let (x, y) = (a[(i, j)], want(i, j));
            if !((x - y).abs() <= tol * (1.0 + y.abs())) { return Err(format!("entry ({i},{j}) is {x} instead of {y}")); }
        }
    }
    Ok(())
}

fn one(r: &mut Rep, g: &mut Rng, m: &M, s: &Snap, manifold: bool, what: &str) {
    let input = format!("{what} {}", s.picture());
    let n = s.v.len();
    let l = links(s);
    let link = |i: usize, j: usize| if l.contains(&(i, j)) { 1.0 } else { 0.0 };
    let pos = |i: usize| s.v[&i].pay.pos;
    let far = |i: usize, j: usize| if l.contains(&(i, j)) { (pos(i) - pos(j)).norm() } else { 0.0 };
    let deg = |i: usize| s.vwheel(i).len();
    let dense = s.v.keys().enumerate().all(|(i, k)| i == *k);
    r.eval("matrices", if s.e.len() > 6 { Some(hash(&input)) } else { None });
    r.sample(|| input.chars().take(200).collect());
    if m.has_consecutive_vertex_ids() != dense { r.fail("consecutive", "has_consecutive_vertex_ids is wrong", &input); }
    if dense {
        macro_rules! matrix { ($key:expr, $call:expr, $want:expr, $tol:expr) => {
            match guard(|| $call) {
                Err(e) => r.fail($key, format!("{} panicked: {e}", $key), &input),
                Ok(a) => if let Err(e) = same(&a, n, $want, $tol) { r.fail($key, format!("{}: {e}", $key), &input) },
            }
        } }
        matrix!("adjacency_matrix", m.adjacency_matrix::<f64>(), link, 0.0);
        matrix!("adjacency_matrix_euclidean", m.adjacency_matrix_euclidean::<3>(), far, 1e-9);
        let diag = |i: usize, j: usize| if i == j { deg(i) as f64 } else { 0.0 };
        matrix!("degree_matrix", m.degree_matrix::<f64>(), diag, 0.0);
        matrix!("laplacian", m.laplacian::<f64>(), |i, j| diag(i, j) - link(i, j), 0.0);
        matrix!("laplacian_euclidean", m.laplacian_euclidean::<3>(), |i, j| diag(i, j) - far(i, j), 1e-9);
        let simple = s.v.keys().all(|v| { let t: Vec<usize> = s.vwheel(*v).iter().map(|e| s.tgt(*e)).collect(); t.iter().collect::<BTreeSet<_>>().len() == t.len() && !t.contains(v) });
        if manifold && simple {
            if let Ok(a) = guard(|| m.laplacian::<f64>()) {
                r.eval("row sums", Some(hash(&input)));
                for i in 0..n.min(a.nrows()) {
                    let x: f64 = a.row(i).iter().sum();
                    if x != 0.0 { r.fail("row-sum", format!("row {i} of the Laplacian sums to {x}"), &input); }
                }
            }
        }
    }
    match guard(|| m.degrees().collect::<Vec<_>>()) {
        Err(e) => r.fail("degrees", format!("degrees panicked: {e}"), &input),
        Ok(d) => {
            let want: Vec<(usize, usize)> = s.v.keys().map(|v| (*v, deg(*v))).collect();
            if d != want { r.fail("degrees", format!("degrees() is {d:?} instead of {want:?}"), &input); }
        }
    }
    if !manifold { return; }
    let vs: Vec<usize> = s.v.keys().cloned().collect();
    for t in &vs {
        if n > 14 && !g.chance(12, n) { continue; }
        let d = levels(s, &l, *t);
        for v in &vs {
            if n > 40 && !g.chance(30, n) { continue; }
            r.eval("shortest path", if d.get(v).map_or(true, |x| *x > 1) { Some(hash(&(&input, v, t))) } else { None });
            match (guard(|| m.shortest_path(*v, *t)), d.get(v)) {
                (Err(e), _) => r.fail("path-panic", format!("shortest_path({v},{t}) panicked: {e}"), &input),
                (Ok(None), None) => {}
                (Ok(None), Some(k)) => r.fail("path-none", format!("shortest_path({v},{t}) finds nothing; a walk over {k} edges exists"), &input),
                (Ok(Some(p)), None) => r.fail("path-some", format!("shortest_path({v},{t}) is {p:?} but the vertices are not connected"), &input),
                (Ok(Some(p)), Some(k)) => {
                    if p.first() != Some(v) || p.last() != Some(t) || p.windows(2).any(|w| !l.contains(&(w[0], w[1]))) {
                        r.fail("path-walk", format!("shortest_path({v},{t}) is {p:?}, no walk between them along edges"), &input);
                    } else if p.len() != k + 1 {
                        r.fail("path-length", format!("shortest_path({v},{t}) is {p:?}; {k} edges are enough"), &input);
                    }
                }
            }
        }
    }
}

/// move every vertex somewhere else (distances become distinct)
fn scatter(g: &mut Rng, m: &mut M) {
    for v in m.vertices_mut() { let p = V3::new(g.sf() * 8.0, g.sf() * 8.0, g.sf() * 8.0); v.payload_mut().set_pos(p); }
}
pub fn run(r: &mut Rep) {
    r.rule = "matrices and degrees equal the ones counted from the edges; shortest_path equals an independent level search for all pairs of vertices (manifold meshes)".into();
    let mut g = r.rng(14);
    for k in 0..gen::SOLIDS {
        for n in 3..7 {
            if let Some((name, mut m)) = gen::solid(k, n) {
                scatter(&mut g, &mut m);
                let s = Snap::of(&m);
                if s.wf().is_err() || s.v.len() > 200 { continue; }
                let mf = s.v.keys().all(|v| s.vwheel(*v).len() == s.out_all(*v).len());
                one(r, &mut g, &m, &s, mf, &format!("{name}({n})"));
            }
        }
    }
    let mut i = 0u64;
    while i < r.scale(400) && r.time_left() {
        i += 1;
        let mut g = r.rng(1400 + i);
        let len = g.range(1, 26);
        let Some((mut m, _)) = gen::mesh(&mut g, len, true) else { continue };
        scatter(&mut g, &mut m);
        let s = Snap::of(&m);
        let mf = s.v.keys().all(|v| s.vwheel(*v).len() == s.out_all(*v).len());
        one(r, &mut g, &m, &s, mf, &format!("seed {} mesh {i}", r.seed));
    }
}
