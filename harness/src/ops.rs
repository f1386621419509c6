//! Random topology-building calls within their preconditions, each with the exact expected effect.
use crate::rep::*;
use crate::snap::*;
use crate::tm::*;
use procedural_modelling::prelude::*;

#[derive(Clone, Debug)]
pub enum Op {
    AddVertex(u64),
    IsolatedEdge(u64),
    ViaEdge(usize, u64),
    ViaVertex(usize, u64),
    Between(usize, usize, u64),
    InsertEdge(usize, usize, u64),
    CloseFace(usize, usize, u64, bool),
    CloseFaceVertices(usize, usize, usize, u64, bool),
    CloseHole(usize, u64, bool),
    RemoveFace(usize),
    Into(usize, usize, u64),
    Path(usize, u64),
    Loop(usize, u64),
    Polygon(usize, u64),
    Dihedron(usize, u64),
    Flip(usize),
    FlipAll,
    Subdivide(usize, u64),
    Clear,
}

impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::AddVertex(_) => "add_vertex",
            Op::IsolatedEdge(_) => "add_isolated_edge",
            Op::ViaEdge(..) => "add_vertex_via_edge",
            Op::ViaVertex(..) => "add_vertex_via_vertex",
            Op::Between(..) => "insert_edge_between",
            Op::InsertEdge(..) => "insert_edge",
            Op::CloseFace(..) => "close_face",
            Op::CloseFaceVertices(..) => "close_face_vertices",
            Op::CloseHole(..) => "close_hole",
            Op::RemoveFace(..) => "remove_face",
            Op::Into(..) => "insert_vertices_into_edge",
            Op::Path(..) => "insert_path",
            Op::Loop(..) => "insert_loop",
            Op::Polygon(..) => "insert_polygon",
            Op::Dihedron(..) => "insert_dihedron",
            Op::Flip(..) => "flip_edge",
            Op::FlipAll => "flip",
            Op::Subdivide(..) => "subdivide_unsafe",
            Op::Clear => "clear",
        }
    }
}

fn e_(i: usize) -> u32 {
    i as u32
}
fn f_(i: usize) -> u16 {
    i as u16
}

/// a random call that is within the documented preconditions on `s`
pub fn choose(s: &Snap, r: &mut Rng, tag: u64, allow: &[&str]) -> Option<Op> {
    let es: Vec<usize> = s.e.keys().copied().collect();
    let vs: Vec<usize> = s.v.keys().copied().collect();
    let fs: Vec<usize> = s.f.keys().copied().collect();
    let free: Vec<usize> = es.iter().copied().filter(|e| s.e[e].face == NONE).collect();
    let k = r.below(100);
    let op = match k {
        0..=3 => Op::AddVertex(tag),
        4..=9 => Op::IsolatedEdge(tag),
        10..=19 => Op::ViaEdge(*r.pick(&free)?, tag),
        20..=29 => {
            let c: Vec<usize> = vs.iter().copied().filter(|v| {
                let w = s.vwheel(*v);
                let b = s.boundary_out(*v);
                !w.is_empty() && ((w.len() == 1 && b.len() == 1 && s.e[&s.e[&w[0]].twin].face == NONE) || (w.len() > 1 && b.len() == 1))
            }).collect();
            Op::ViaVertex(*r.pick(&c)?, tag)
        }
        30..=39 => {
            let c: Vec<usize> = vs.iter().copied().filter(|v| s.vwheel(*v).is_empty() || s.boundary_out(*v).len() == 1).collect();
            let a = *r.pick(&c)?;
            let b = *r.pick(&c)?;
            if a == b || s.edge_between(a, b).is_some() || s.edge_between(b, a).is_some() {
                return None;
            }
            Op::Between(a, b, tag)
        }
        40..=57 => {
            let i = *r.pick(&free)?;
            let o = s.orbit(i);
            let j = *r.pick(&o)?;
            let (v, w) = (s.tgt(i), s.tgt(j));
            if v == w || s.edge_between(v, w).is_some() || s.edge_between(w, v).is_some() {
                return None;
            }
            match r.below(4) {
                0 => Op::InsertEdge(i, j, tag),
                1 | 2 => Op::CloseFace(i, j, tag, r.chance(1, 3)),
                _ => {
                    let (p, f, t) = (s.e[&i].org, v, w);
                    if s.edge_between(p, f) != Some(i) {
                        return None;
                    }
                    let lp = s.orbit(i);
                    let c: Vec<usize> = s.vwheel(t).into_iter().map(|x| s.e[&x].twin)
                        .filter(|x| s.e[x].face == NONE && s.orbit(*x).iter().any(|y| s.e[y].org == p)).collect();
                    if c.len() != 1 || !lp.contains(&c[0]) {
                        return None;
                    }
                    Op::CloseFaceVertices(p, f, t, tag, r.chance(1, 3))
                }
            }
        }
        58..=67 => Op::CloseHole(*r.pick(&free)?, tag, r.chance(1, 3)),
        68..=72 => Op::RemoveFace(*r.pick(&fs)?),
        73..=79 => Op::Into(*r.pick(&es)?, r.below(4), tag),
        80..=82 => Op::Path(r.range(2, 6), tag),
        83..=85 => Op::Loop(r.range(3, 6), tag),
        86..=88 => Op::Polygon(r.range(3, 6), tag),
        89..=90 => Op::Dihedron(r.range(3, 5), tag),
        91..=95 => Op::Flip(*r.pick(&es)?),
        96 => Op::FlipAll,
        97..=98 => Op::Subdivide(*r.pick(&es)?, tag),
        _ => {
            if r.chance(1, 6) { Op::Clear } else { return None }
        }
    };
    if !allow.is_empty() && !allow.contains(&op.name()) { None } else { Some(op) }
}

pub struct Done {
    /// expected content after the call, as far as the returned handles determine it
    pub expected: Snap,
    /// handle/return-value mistakes
    pub errors: Vec<String>,
    /// newly created ids
    pub new_e: Vec<usize>,
    pub new_v: Vec<usize>,
    pub new_f: Vec<usize>,
}

fn edge(next: usize, prev: usize, twin: usize, org: usize, face: usize, t: u64) -> E {
    E { next, prev, twin, org, face, pay: ep(t) }
}

fn add_pair(x: &mut Snap, inside: usize, outside: usize, e1: usize, e2: usize, t1: u64, t2: u64) {
    // e1 continues inside, e2 continues outside
    let (v, w) = (x.tgt(inside), x.tgt(outside));
    let (ni, no) = (x.e[&inside].next, x.e[&outside].next);
    x.e.insert(e1, edge(no, inside, e2, v, NONE, t1));
    x.e.insert(e2, edge(ni, outside, e1, w, NONE, t2));
    x.e.get_mut(&no).unwrap().prev = e1;
    x.e.get_mut(&ni).unwrap().prev = e2;
    x.e.get_mut(&inside).unwrap().next = e1;
    x.e.get_mut(&outside).unwrap().next = e2;
}

/// the two-way chain v[0] - v[1] - ... with forward edges f, backward edges b
fn add_chain(x: &mut Snap, v: &[usize], f: &[usize], b: &[usize]) {
    let n = f.len();
    for i in 0..n {
        let nx = if i + 1 < n { f[i + 1] } else { b[i] };
        let pv = if i > 0 { f[i - 1] } else { b[i] };
        x.e.insert(f[i], E { next: nx, prev: pv, twin: b[i], org: v[i], face: NONE, pay: EPay::default() });
        let nx = if i > 0 { b[i - 1] } else { f[i] };
        let pv = if i + 1 < n { b[i + 1] } else { f[i] };
        x.e.insert(b[i], E { next: nx, prev: pv, twin: f[i], org: v[i + 1], face: NONE, pay: EPay::default() });
    }
}

pub fn flip_expected(b: &Snap, e: usize) -> Snap {
    // exchange the names e and twin(e) everywhere but keep each half-edge's own payload
    let t = b.e[&e].twin;
    let sw = |i: usize| if i == e { t } else if i == t { e } else { i };
    let mut x = b.clone();
    x.e.clear();
    for (i, d) in &b.e {
        let mut n = d.clone();
        n.next = sw(d.next);
        n.prev = sw(d.prev);
        n.twin = sw(d.twin);
        let k = sw(*i);
        n.pay = b.e[&k].pay;
        x.e.insert(k, n);
    }
    for v in x.v.values_mut() {
        v.edge = if v.edge == NONE { NONE } else { sw(v.edge) };
    }
    for f in x.f.values_mut() {
        f.edge = sw(f.edge);
    }
    x
}

/// performs `op` on the real mesh and computes the expected result independently
pub fn apply(m: &mut M, b: &Snap, op: &Op) -> Result<Done, String> {
    let mut x = b.clone();
    let mut errors = vec![];
    let (mut new_e, mut new_v, mut new_f): (Vec<usize>, Vec<usize>, Vec<usize>) = (vec![], vec![], vec![]);
    macro_rules! chk {
        ($c:expr, $($a:tt)*) => { if !$c { errors.push(format!($($a)*)); } };
    }
    match op.clone() {
        Op::AddVertex(t) => {
            let v = guard(|| m.add_vertex(vp(t)))?;
            new_v.push(v);
            x.v.insert(v, Vx { edge: NONE, pay: vp(t) });
        }
        Op::IsolatedEdge(t) => {
            let (v0, v1) = guard(|| m.add_isolated_edge(vp(t), ep(t + 1), vp(t + 2), ep(t + 3)))?;
            let a = Snap::of(m);
            let Some(v) = a.v.get(&v0) else { return Err("returned vertex does not exist".into()) };
            let e0 = v.edge;
            let Some(e) = a.e.get(&e0) else { return Err("new vertex has no edge".into()) };
            let e1 = e.twin;
            new_v.extend([v0, v1]);
            new_e.extend([e0, e1]);
            x.v.insert(v0, Vx { edge: e0, pay: vp(t) });
            x.v.insert(v1, Vx { edge: e1, pay: vp(t + 2) });
            x.e.insert(e0, edge(e1, e1, e1, v0, NONE, t + 1));
            x.e.insert(e1, edge(e0, e0, e0, v1, NONE, t + 3));
        }
        Op::ViaEdge(input, t) => {
            let output = b.e[&input].next;
            let (v, e1, e2) = guard(|| m.add_vertex_via_edge(e_(input), e_(output), vp(t), ep(t + 1), ep(t + 2)))?;
            let (e1, e2) = (e1 as usize, e2 as usize);
            via(&mut x, input, output, v, e1, e2, t);
            new_v.push(v);
            new_e.extend([e1, e2]);
        }
        Op::ViaVertex(v0, t) => {
            let w = b.vwheel(v0);
            let out = if w.len() == 1 { w[0] } else { b.boundary_out(v0)[0] };
            let inp = b.e[&out].prev;
            let (v, e1, e2) = guard(|| m.add_vertex_via_vertex(v0, vp(t), ep(t + 1), ep(t + 2)))?;
            let (e1, e2) = (e1 as usize, e2 as usize);
            via(&mut x, inp, out, v, e1, e2, t);
            new_v.push(v);
            new_e.extend([e1, e2]);
        }
        Op::Between(o0, o1, t) => {
            let (e0, e1) = guard(|| m.insert_edge_between(o0, ep(t), o1, ep(t + 1)))?;
            let (e0, e1) = (e0 as usize, e1 as usize);
            new_e.extend([e0, e1]);
            let side = |v: usize| {
                if b.vwheel(v).is_empty() { None } else {
                    let out = b.boundary_out(v)[0];
                    Some((b.e[&out].prev, out))
                }
            };
            let (s0, s1) = (side(o0), side(o1));
            x.e.insert(e0, edge(s1.map_or(e1, |s| s.1), s0.map_or(e1, |s| s.0), e1, o0, NONE, t));
            x.e.insert(e1, edge(s0.map_or(e0, |s| s.1), s1.map_or(e0, |s| s.0), e0, o1, NONE, t + 1));
            if let Some((i, o)) = s0 {
                x.e.get_mut(&i).unwrap().next = e0;
                x.e.get_mut(&o).unwrap().prev = e1;
            } else {
                x.v.get_mut(&o0).unwrap().edge = e0;
            }
            if let Some((i, o)) = s1 {
                x.e.get_mut(&i).unwrap().next = e1;
                x.e.get_mut(&o).unwrap().prev = e0;
            } else {
                x.v.get_mut(&o1).unwrap().edge = e1;
            }
        }
        Op::InsertEdge(i, o, t) => {
            let (e1, e2) = guard(|| m.insert_edge(e_(i), ep(t), e_(o), ep(t + 1)))?;
            add_pair(&mut x, i, o, e1 as usize, e2 as usize, t, t + 1);
            new_e.extend([e1 as usize, e2 as usize]);
        }
        Op::CloseFace(i, o, t, c) => {
            let (f, e1, e2) = guard(|| m.close_face(e_(i), ep(t), e_(o), ep(t + 1), fp(t + 2), c))?;
            add_pair(&mut x, i, o, e1 as usize, e2 as usize, t, t + 1);
            new_e.extend([e1 as usize, e2 as usize]);
            new_f.push(f as usize);
            face(&mut x, f as usize, i, t + 2, c);
        }
        Op::CloseFaceVertices(p, fr, to, t, c) => {
            let i = b.edge_between(p, fr).unwrap();
            let o = b.vwheel(to).into_iter().map(|y| b.e[&y].twin)
                .find(|y| b.e[y].face == NONE && b.orbit(*y).iter().any(|z| b.e[z].org == p)).unwrap();
            let (f, e1, e2) = guard(|| m.close_face_vertices(p, ep(t), fr, ep(t + 1), to, fp(t + 2), c))?;
            add_pair(&mut x, i, o, e1 as usize, e2 as usize, t, t + 1);
            new_e.extend([e1 as usize, e2 as usize]);
            new_f.push(f as usize);
            face(&mut x, f as usize, i, t + 2, c);
        }
        Op::CloseHole(e, t, c) => {
            let f = guard(|| m.close_hole(e_(e), fp(t), c))?;
            new_f.push(f as usize);
            face(&mut x, f as usize, e, t, c);
        }
        Op::RemoveFace(f) => {
            let p = guard(|| m.remove_face(f_(f)))?;
            chk!(p == b.f[&f].pay, "remove_face returned payload {:?}, the face had {:?}", p, b.f[&f].pay);
            x.f.remove(&f);
            for e in x.e.values_mut() {
                if e.face == f { e.face = NONE; }
            }
        }
        Op::Into(e, n, t) => {
            let r = guard(|| m.insert_vertices_into_edge(e_(e), (0..n as u64).map(|i| (ep(t + 3 * i), ep(t + 3 * i + 1), vp(t + 3 * i + 2)))))?;
            // identify the new elements by walking back from e
            let a = Snap::of(m);
            chk!(a.e.get(&(r as usize)).map_or(false, |y| y.org == b.e[&e].org), "insert_vertices_into_edge returned {r} for edge {e}, which does not start in the previous origin");
            let mut f = vec![];
            let mut c = e;
            for _ in 0..n {
                let Some(p) = a.e.get(&c).map(|y| y.prev) else { return Err("chain of new edges is broken".into()) };
                f.insert(0, p);
                c = p;
            }
            let (tw, o) = (b.e[&e].twin, b.e[&e].org);
            let d = b.e[&e].clone();
            let dt = b.e[&tw].clone();
            if n > 0 {
                let mut bk = vec![];
                let mut vn = vec![];
                for (i, y) in f.iter().enumerate() {
                    let Some(ye) = a.e.get(y) else { return Err("new edge does not exist".into()) };
                    bk.push(ye.twin);
                    vn.push(if i + 1 < n { a.e.get(&f[i + 1]).map_or(NONE, |z| z.org) } else { a.e[&e].org });
                }
                // stitch: prev(e) -> f0 .. f(n-1) -> e ; twin -> b(n-1) .. b0 -> next(twin)
                let pf = if d.prev == tw { bk[0] } else { d.prev };
                let nb = if dt.next == e { f[0] } else { dt.next };
                for i in 0..n {
                    let t = t + 3 * i as u64;
                    x.e.insert(f[i], edge(if i + 1 < n { f[i + 1] } else { e }, if i > 0 { f[i - 1] } else { pf }, bk[i],
                        if i > 0 { vn[i - 1] } else { o }, d.face, t));
                    x.e.insert(bk[i], edge(if i > 0 { bk[i - 1] } else { nb }, if i + 1 < n { bk[i + 1] } else { tw }, f[i],
                        vn[i], dt.face, t + 1));
                    x.v.insert(vn[i], Vx { edge: bk[i], pay: vp(t + 2) });
                }
                if d.prev != tw { x.e.get_mut(&d.prev).unwrap().next = f[0]; }
                if dt.next != e { x.e.get_mut(&dt.next).unwrap().prev = bk[0]; }
                x.e.get_mut(&e).unwrap().prev = f[n - 1];
                x.e.get_mut(&e).unwrap().org = vn[n - 1];
                x.e.get_mut(&tw).unwrap().next = bk[n - 1];
                x.v.get_mut(&o).unwrap().edge = f[0];
                new_e.extend(f.iter().chain(bk.iter()).copied());
                new_v.extend(vn);
            }
        }
        Op::Path(n, t) => {
            let (a0, a1) = guard(|| m.insert_path((0..n as u64).map(|i| vp(t + i))))?;
            path(&mut x, m, a0 as usize, a1 as usize, n, t, &mut new_e, &mut new_v)?;
        }
        Op::Loop(n, t) | Op::Polygon(n, t) | Op::Dihedron(n, t) => {
            let r = guard(|| match op {
                Op::Loop(..) => m.insert_loop((0..n as u64).map(|i| vp(t + i))),
                Op::Polygon(..) => m.insert_polygon((0..n as u64).map(|i| vp(t + i))),
                _ => m.insert_dihedron((0..n as u64).map(|i| vp(t + i))),
            })? as usize;
            let a = Snap::of(m);
            let Some(re) = a.e.get(&r) else { return Err("returned edge does not exist".into()) };
            // insert_loop returns v1 -> v0, the polygons return its twin v0 -> v1
            let first = if matches!(op, Op::Loop(..)) { r } else { re.twin };
            // bulk insert: vertices in order, forward edges v[i] -> v[i+1], closing edge v[n-1] -> v[0]
            let mut f = vec![];
            let mut bk = vec![];
            let mut v = vec![];
            let Some(fe) = a.e.get(&first) else { return Err("first edge does not exist".into()) };
            let mut c = fe.twin;
            for _ in 0..n {
                let Some(ce) = a.e.get(&c) else { return Err("loop is broken".into()) };
                f.push(c);
                bk.push(ce.twin);
                v.push(ce.org);
                c = ce.next;
            }
            new_e.extend(f.iter().chain(bk.iter()).copied());
            new_v.extend(v.iter().copied());
            for i in 0..n {
                x.v.insert(v[i], Vx { edge: f[i], pay: vp(t + i as u64) });
                x.e.insert(f[i], E { next: f[(i + 1) % n], prev: f[(i + n - 1) % n], twin: bk[i], org: v[i], face: NONE, pay: EPay::default() });
                x.e.insert(bk[i], E { next: bk[(i + n - 1) % n], prev: bk[(i + 1) % n], twin: f[i], org: v[(i + 1) % n], face: NONE, pay: EPay::default() });
            }
            let mark = |x: &mut Snap, e: usize, new_f: &mut Vec<usize>| -> Result<(), String> {
                let fc = a.e.get(&e).map_or(NONE, |y| y.face);
                if fc == NONE { return Err("polygon has no face".into()); }
                new_f.push(fc);
                for y in x.orbit(e) { x.e.get_mut(&y).unwrap().face = fc; }
                x.f.insert(fc, F { edge: e, curved: false, pay: FPay::default() });
                Ok(())
            };
            if !matches!(op, Op::Loop(..)) { mark(&mut x, first, &mut new_f)?; }
            if matches!(op, Op::Dihedron(..)) { mark(&mut x, f[0], &mut new_f)?; }
        }
        Op::Flip(e) => {
            guard(|| { m.flip_edge(e_(e)); })?;
            x = flip_expected(b, e);
        }
        Op::FlipAll => {
            guard(|| { m.flip(); })?;
            for (e, d) in &b.e {
                if *e < d.twin { x = flip_expected(&x, *e); }
            }
        }
        Op::Subdivide(e, t) => {
            let tw = b.e[&e].twin;
            let r1 = guard(|| m.subdivide_unsafe(e_(e), vp(t), ep(t + 1)))? as usize;
            let a1 = Snap::of(m);
            let v = a1.e.get(&r1).map_or(NONE, |y| y.org);
            let r2 = guard(|| m.subdivide_unsafe_try_fixup(e_(tw), ep(t + 2)))?;
            let Some(r2) = r2 else { return Err("subdivide_unsafe_try_fixup did not find the subdivided twin".into()) };
            let r2 = r2 as usize;
            // o -e-> v -r1-> t ; t -tw-> v -r2-> o
            let (d, dt) = (b.e[&e].clone(), b.e[&tw].clone());
            new_e.extend([r1, r2]);
            new_v.push(v);
            let n1 = if d.next == tw { tw } else { d.next };
            let n2 = if dt.next == e { e } else { dt.next };
            x.e.insert(r1, edge(n1, e, tw, v, d.face, t + 1));
            x.e.insert(r2, edge(n2, tw, e, v, dt.face, t + 2));
            x.e.get_mut(&n1).unwrap().prev = r1;
            x.e.get_mut(&n2).unwrap().prev = r2;
            let xe = x.e.get_mut(&e).unwrap();
            xe.next = r1;
            xe.twin = r2;
            let xt = x.e.get_mut(&tw).unwrap();
            xt.next = r2;
            xt.twin = r1;
            x.v.insert(v, Vx { edge: r1, pay: vp(t) });
        }
        Op::Clear => {
            guard(|| { m.clear(); })?;
            x.e.clear();
            x.v.clear();
            x.f.clear();
        }
    }
    for (n, new, had) in [("half-edge", &new_e, b.e.keys().copied().collect::<std::collections::BTreeSet<_>>()),
        ("vertex", &new_v, b.v.keys().copied().collect()), ("face", &new_f, b.f.keys().copied().collect())] {
        for (i, k) in new.iter().enumerate() {
            chk!(!had.contains(k), "the new {n} got the handle {k} of an existing one");
            chk!(!new[..i].contains(k), "two new elements share the {n} handle {k}");
            chk!(*k != NONE, "a new {n} has no handle");
        }
    }
    Ok(Done { expected: x, errors, new_e, new_v, new_f })
}

fn via(x: &mut Snap, input: usize, output: usize, v: usize, e1: usize, e2: usize, t: u64) {
    let o = x.e[&output].org;
    x.e.insert(e1, edge(e2, input, e2, o, NONE, t + 1));
    x.e.insert(e2, edge(output, e1, e1, v, NONE, t + 2));
    x.e.get_mut(&input).unwrap().next = e1;
    x.e.get_mut(&output).unwrap().prev = e2;
    x.v.insert(v, Vx { edge: e2, pay: vp(t) });
}

fn face(x: &mut Snap, f: usize, e: usize, t: u64, c: bool) {
    for y in x.orbit(e) {
        x.e.get_mut(&y).unwrap().face = f;
    }
    x.f.insert(f, F { edge: e, curved: c, pay: fp(t) });
}

#[allow(clippy::too_many_arguments)]
fn path(x: &mut Snap, m: &M, a0: usize, a1: usize, n: usize, t: u64, ne: &mut Vec<usize>, nv: &mut Vec<usize>) -> Result<(), String> {
    let a = Snap::of(m);
    let Some(fe) = a.e.get(&a0) else { return Err("returned edge does not exist".into()) };
    let mut c = fe.twin;
    let (mut f, mut b, mut v) = (vec![], vec![], vec![]);
    for i in 0..n - 1 {
        let Some(ce) = a.e.get(&c) else { return Err("path is broken".into()) };
        f.push(c);
        b.push(ce.twin);
        v.push(ce.org);
        if i + 2 == n {
            v.push(a.e.get(&ce.twin).map_or(NONE, |y| y.org));
            if c != a1 { return Err(format!("second returned half-edge is {a1}, the edge into the last vertex is {c}")); }
        }
        c = ce.next;
    }
    add_chain(x, &v, &f, &b);
    for (i, y) in v.iter().enumerate() {
        x.v.insert(*y, Vx { edge: if i < n - 1 { f[i] } else { b[n - 2] }, pay: vp(t + i as u64) });
    }
    ne.extend(f.iter().chain(b.iter()).copied());
    nv.extend(v);
    Ok(())
}
