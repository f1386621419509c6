//! C02-C06: builder histories, flips, traversals
use crate::gen;
use crate::ops::*;
use crate::rep::*;
use crate::snap::*;
use crate::tm::*;
use procedural_modelling::prelude::*;

pub fn run(r: &mut Rep) {
    let p = r.prop.clone();
    match p.as_str() {
        "C05" => flips(r),
        "C06" => traversals(r),
        _ => histories(r),
    }
}

fn histories(r: &mut Rep) {
    let p = r.prop.clone();
    r.rule = match p.as_str() {
        "C02" => "after every call of a random history the full structural validity of the snapshot",
        "C03" => "one insertion per evaluation: the snapshot after the call equals the one computed from the snapshot before and the returned handles; non-trivial when the mesh had edges before",
        _ => "one close_hole/remove_face per evaluation, compared with the computed snapshot, plus the inverse call; non-trivial when the loop has a face next to it",
    }.into();
    let mut rng = r.rng(2);
    let n = r.scale(2500);
    for h in 0..n {
        if !r.time_left() { break; }
        let mut m = M::new();
        let mut s = Snap::of(&m);
        let mut tag = 1000u64;
        let mut hist: Vec<Op> = vec![];
        let len = rng.range(4, 60);
        // every third history starts from a closed solid with free slots
        if h % 3 == 0 {
            let k = rng.below(gen::SOLIDS);
            if let Some((_, sm)) = gen::solid(k, rng.range(3, 6)) {
                m = sm;
                s = Snap::of(&m);
                if s.wf().is_err() { m = M::new(); s = Snap::of(&m); }
            }
        }
        for _ in 0..len {
            tag += 100;
            let Some(op) = choose(&s, &mut rng, tag, &[]) else { continue };
            if s.e.len() > 220 && !matches!(op, Op::CloseHole(..) | Op::RemoveFace(..) | Op::Clear) { continue; }
            hist.push(op.clone());
            let input = || format!("call {:?} after history {:?}", op, &hist[..hist.len() - 1]);
            let ins = !matches!(op, Op::CloseHole(..) | Op::RemoveFace(..) | Op::Flip(..) | Op::FlipAll | Op::Clear);
            let d = match apply(&mut m, &s, &op) {
                Ok(d) => d,
                Err(x) => {
                    // an aborted or unusable call is reported by the property the call belongs to
                    let mine = match p.as_str() {
                        "C02" => !matches!(op, Op::Flip(..) | Op::FlipAll),
                        "C03" => ins,
                        _ => matches!(op, Op::CloseHole(..) | Op::RemoveFace(..)),
                    };
                    if mine { r.fail(&format!("{}-unusable", op.name()), format!("{}: {}", op.name(), x), input()); }
                    break;
                }
            };
            let a = Snap::of(&m);
            match p.as_str() {
                "C02" => {
                    if !matches!(op, Op::Flip(..) | Op::FlipAll) {
                        r.eval(op.name(), if s.e.len() > 2 { Some(hash(&format!("{:?}", hist))) } else { None });
                        if let Err(x) = a.wf() { r.fail(&format!("{}-invalid", op.name()), format!("mesh invalid after {}: {}", op.name(), x), input()); }
                    }
                }
                "C03" => {
                    if ins {
                        r.eval(op.name(), if !s.e.is_empty() { Some(hash(&format!("{:?}", hist))) } else { None });
                        for e in &d.errors { r.fail(&format!("{}-handle", op.name()), format!("{}: {e}", op.name()), input()); }
                        if let Some(x) = d.expected.diff(&a) { r.fail(&format!("{}-effect", op.name()), format!("{}: {x}", op.name()), input()); }
                        if m.num_vertices() != d.expected.v.len() || m.num_edges() != d.expected.e.len() || m.num_faces() != d.expected.f.len() {
                            r.fail(&format!("{}-count", op.name()), format!("{}: reported counts {}/{}/{} but {}/{}/{} elements", op.name(), m.num_vertices(), m.num_edges(), m.num_faces(), a.v.len(), a.e.len(), a.f.len()), input());
                        }
                    }
                }
                _ => {
                    if matches!(op, Op::CloseHole(..) | Op::RemoveFace(..)) {
                        r.eval(op.name(), if s.f.len() > 1 { Some(hash(&format!("{:?}", hist))) } else { None });
                        for e in &d.errors { r.fail(&format!("{}-handle", op.name()), format!("{}: {e}", op.name()), input()); }
                        if let Some(x) = d.expected.diff(&a) { r.fail(&format!("{}-effect", op.name()), format!("{}: {x}", op.name()), input()); }
                        if m.num_faces() != d.expected.f.len() || m.num_vertices() != s.v.len() || m.num_edges() != s.e.len() {
                            r.fail(&format!("{}-count", op.name()), format!("{}: wrong counts", op.name()), input());
                        }
                        inverse(r, &m, &s, &a, &op, &d);
                    }
                }
            }
            if a.wf().is_err() || d.expected.diff(&a).is_some() { break; }
            s = a;
        }
        r.sample(|| format!("{:?}", &hist[..hist.len().min(12)]));
    }
}

/// closing after removing (or the reverse) restores the mesh up to the face handle
fn inverse(r: &mut Rep, m: &M, before: &Snap, after: &Snap, op: &Op, d: &Done) {
    let mut m2 = m.clone();
    match op {
        Op::CloseHole(..) => {
            let f = d.new_f[0];
            if !after.f.contains_key(&f) { return; }
            if let Err(x) = guard(|| m2.remove_face(f as u16)) { r.fail("inverse-panic", x, format!("{op:?}")); return; }
            if let Some(x) = before.diff(&Snap::of(&m2)) { r.fail("inverse", format!("remove_face after close_hole: {x}"), format!("{op:?}")); }
        }
        Op::RemoveFace(f) => {
            let e = before.f[f].edge;
            let (pay, c) = (before.f[f].pay, before.f[f].curved);
            match guard(|| m2.close_hole(e as u32, pay, c)) {
                Err(x) => r.fail("inverse-panic", x, format!("{op:?}")),
                Ok(g) => {
                    let mut x = before.clone();
                    let fx = x.f.remove(f).unwrap();
                    x.f.insert(g as usize, fx);
                    for y in x.e.values_mut() { if y.face == *f { y.face = g as usize; } }
                    if let Some(x) = x.diff(&Snap::of(&m2)) { r.fail("inverse", format!("close_hole after remove_face: {x}"), format!("{op:?}")); }
                }
            }
        }
        _ => {}
    }
}

fn flips(r: &mut Rep) {
    r.rule = "one flip per evaluation on a random valid mesh, compared with the mesh obtained by exchanging the two half-edges; non-trivial when the two half-edges are not on the same loop or the edge dangles".into();
    let mut rng = r.rng(5);
    let n = r.scale(1500);
    for h in 0..n {
        if !r.time_left() { break; }
        let g = if h % 4 == 0 {
            gen::solid(rng.below(gen::SOLIDS), rng.range(3, 6)).map(|x| { let s = Snap::of(&x.1); (x.1, s) })
        } else {
            let k = rng.range(2, 40);
            gen::mesh(&mut rng, k, false)
        };
        let Some((mut m, s)) = g else { continue };
        if s.e.is_empty() || s.wf().is_err() { continue; }
        let es: Vec<usize> = s.e.keys().copied().collect();
        for _ in 0..4 {
            let e = *rng.pick(&es).unwrap();
            let b = Snap::of(&m);
            let t = b.e[&e].twin;
            let input = format!("flip {e} (twin {t}) on {:?}", b.e);
            let dangling = b.e[&e].next == t || b.e[&e].prev == t;
            r.eval("flip_edge", if dangling || !b.orbit(e).contains(&t) { Some(hash(&input)) } else { None });
            let x = flip_expected(&b, e);
            if let Err(y) = guard(|| { m.flip_edge(e as u32); }) { r.fail("flip-panic", y, input); break; }
            let a = Snap::of(&m);
            if let Some(y) = x.diff(&a) { r.fail("flip-effect", y, input); break; }
            if let Err(y) = a.wf() { r.fail("flip-invalid", y, input); break; }
            let mut m2 = m.clone();
            if guard(|| { m2.flip_edge(e as u32); }).is_ok() {
                if let Some(y) = b.diff(&Snap::of(&m2)) { r.fail("flip-twice", y, input); break; }
            }
        }
        let b = Snap::of(&m);
        if b.wf().is_err() { continue; }
        let mut x = b.clone();
        for (e, d) in &b.e { if *e < d.twin { x = flip_expected(&x, *e); } }
        r.eval("flip", Some(hash(&format!("{:?}", b.e))));
        match guard(|| m.flipped()) {
            Err(y) => r.fail("flip-all-panic", y, format!("{:?}", b.e)),
            Ok(m2) => {
                if let Some(y) = x.diff(&Snap::of(&m2)) { r.fail("flip-all", y, format!("{:?}", b.e)); }
                if let Some(y) = b.diff(&Snap::of(&m)) { r.fail("flipped-modifies", y, format!("{:?}", b.e)); }
                let mut m3 = m.clone();
                if guard(|| { m3.flip(); }).is_ok() {
                    if let Some(y) = x.diff(&Snap::of(&m3)) { r.fail("flip-all", y, format!("{:?}", b.e)); }
                }
            }
        }
    }
}

fn ids(v: &[usize]) -> String {
    format!("{v:?}")
}

fn traversals(r: &mut Rep) {
    r.rule = "one query per evaluation compared with the answer computed from the connectivity snapshot; non-trivial when the answer has more than one element".into();
    let mut rng = r.rng(6);
    let n = r.scale(500);
    for h in 0..n {
        if !r.time_left() { break; }
        let g = if h % 4 == 0 {
            gen::solid(rng.below(gen::SOLIDS), rng.range(3, 7)).map(|x| { let s = Snap::of(&x.1); (x.1, s) })
        } else {
            let k = rng.range(2, 60);
            gen::mesh(&mut rng, k, false)
        };
        let Some((m, s)) = g else { continue };
        if s.wf().is_err() { continue; }
        let ctx = format!("mesh {:?} {:?}", s.v.iter().map(|(k, v)| (*k, v.edge)).collect::<Vec<_>>(), s.e);
        r.sample(|| ctx.clone());
        let mut bad: Vec<(String, String)> = vec![];
        let mut cnt: Vec<(&'static str, bool)> = vec![];
        {
            let mut eq = |name: &'static str, want: String, got: Result<String, String>, nt: bool| {
                cnt.push((name, nt));
                match got {
                    Err(x) => bad.push((format!("{name}-panic"), format!("{name}: {x} (expected {want})"))),
                    Ok(g) if g != want => bad.push((name.to_string(), format!("{name}: expected {want} got {g}"))),
                    _ => {}
                }
            };
            let cap = s.e.len() + 2;
            for (i, d) in &s.e {
                let o = s.orbit(*i);
                let ob = s.orbit_back(*i);
                let e = m.edge(*i as u32);
                eq("edges_face", ids(&o), guard(|| ids(&e.edges_face(&m).take(cap).map(|x| x.id() as usize).collect::<Vec<_>>())), o.len() > 2);
                eq("edges_face_back", ids(&ob), guard(|| ids(&e.edges_face_back(&m).take(cap).map(|x| x.id() as usize).collect::<Vec<_>>())), ob.len() > 2);
                eq("edges_from", ids(&o), guard(|| ids(&m.edges_from(*i as u32).take(cap).map(|x| x.id() as usize).collect::<Vec<_>>())), o.len() > 2);
                eq("edges_back_from", ids(&ob), guard(|| ids(&m.edges_back_from(*i as u32).take(cap).map(|x| x.id() as usize).collect::<Vec<_>>())), ob.len() > 2);
                let mut want = vec![];
                for k in (0..=o.len()).rev() { want.push(k); }
                eq("edges_face.len", ids(&want), guard(|| {
                    let mut it = e.edges_face(&m);
                    let mut got = vec![it.len()];
                    let mut c = 0;
                    while it.next().is_some() && c < cap { got.push(it.len()); c += 1; }
                    ids(&got)
                }), o.len() > 2);
                let tw = &s.e[&d.twin];
                let mut fi = vec![];
                if d.face != NONE { fi.push(d.face); }
                if tw.face != NONE { fi.push(tw.face); }
                eq("face_ids", ids(&fi), guard(|| ids(&e.face_ids(&m).map(|x| x as usize).collect::<Vec<_>>())), fi.len() > 1);
                eq("is_boundary", format!("{}", d.face == NONE || tw.face == NONE), guard(|| format!("{}", e.is_boundary(&m))), true);
                eq("is_boundary_self", format!("{}", d.face == NONE), guard(|| format!("{}", e.is_boundary_self())), true);
                eq("origin/target", ids(&[d.org, tw.org, tw.org]), guard(|| ids(&[e.origin(&m).id(), e.target(&m).id(), e.target_id(&m)])), true);
                eq("next/prev/twin", ids(&[d.next, d.prev, d.twin]), guard(|| ids(&[e.next(&m).id() as usize, e.prev(&m).id() as usize, e.twin(&m).id() as usize])), true);
                eq("face/other_face", format!("{:?}", (Some(d.face).filter(|x| *x != NONE), Some(tw.face).filter(|x| *x != NONE))),
                    guard(|| format!("{:?}", (e.face(&m).map(|f| f.id() as usize), e.other_face(&m).map(|f| f.id() as usize)))), true);
                let vs: Vec<usize> = s.v.keys().copied().collect();
                for _ in 0..3 {
                    let v = if rng.chance(1, 2) { s.e[rng.pick(&o).unwrap()].org } else { *rng.pick(&vs).unwrap() };
                    let want = o.iter().any(|x| s.e[x].org == v);
                    eq("same_face", format!("{want}"), guard(|| format!("{}", e.same_face(&m, v))), true);
                    eq("same_face_back", format!("{want}"), guard(|| format!("{}", e.same_face_back(&m, v))), true);
                }
            }
            for (i, d) in &s.v {
                let v = m.vertex(*i);
                let w = s.vwheel(*i);
                let tws: Vec<usize> = w.iter().map(|e| s.e[e].twin).collect();
                let nb: Vec<usize> = w.iter().map(|e| s.tgt(*e)).collect();
                let fs: Vec<usize> = w.iter().map(|e| s.e[e].face).filter(|f| *f != NONE).collect();
                eq("edges_out", ids(&w), guard(|| ids(&v.edges_out(&m).take(cap).map(|x| x.id() as usize).collect::<Vec<_>>())), w.len() > 1);
                eq("edges_in", ids(&tws), guard(|| ids(&v.edges_in(&m).take(cap).map(|x| x.id() as usize).collect::<Vec<_>>())), w.len() > 1);
                eq("degree", format!("{}", w.len()), guard(|| format!("{}", v.degree(&m))), w.len() > 1);
                eq("vertex.vertices", ids(&nb), guard(|| ids(&v.vertices(&m).take(cap).map(|x| x.id()).collect::<Vec<_>>())), w.len() > 1);
                eq("neighbor_ids", ids(&nb), guard(|| ids(&v.neighbor_ids(&m).take(cap).collect::<Vec<_>>())), w.len() > 1);
                eq("vertex.faces", ids(&fs), guard(|| ids(&v.faces(&m).take(cap).map(|x| x.id() as usize).collect::<Vec<_>>())), fs.len() > 1);
                eq("vertex.is_boundary", format!("{}", w.iter().any(|e| s.e[e].face == NONE || s.e[&s.e[e].twin].face == NONE)), guard(|| format!("{}", v.is_boundary(&m))), true);
                eq("has_only_one_edge", format!("{}", w.len() == 1), guard(|| format!("{}", v.has_only_one_edge(&m))), true);
                eq("vertex.edge", format!("{:?}", Some(d.edge).filter(|x| *x != NONE)), guard(|| format!("{:?}", v.edge(&m).map(|e| e.id() as usize))), true);
                let b = s.boundary_out(*i);
                if w.is_empty() || b.len() == 1 {
                    eq("outgoing_boundary_edge", format!("{:?}", b.first()), guard(|| format!("{:?}", v.outgoing_boundary_edge(&m).map(|x| x as usize).as_ref())), true);
                }
                if b.len() == 1 {
                    eq("ingoing_boundary_edge", format!("{:?}", Some(s.e[&b[0]].prev)), guard(|| format!("{:?}", v.ingoing_boundary_edge(&m).map(|x| x as usize))), true);
                }
            }
            let vs: Vec<usize> = s.v.keys().copied().collect();
            for _ in 0..30 {
                let Some(a) = rng.pick(&vs).copied() else { break };
                let w = s.vwheel(a);
                let b = if rng.chance(1, 2) && !w.is_empty() { s.tgt(*rng.pick(&w).unwrap()) } else { *rng.pick(&vs).unwrap() };
                let want = s.edge_between(a, b);
                eq("shared_edge", format!("{want:?}"), guard(|| format!("{:?}", m.shared_edge(a, b).map(|e| e.id() as usize))), want.is_some());
                eq("shared_edge_id", format!("{want:?}"), guard(|| format!("{:?}", m.shared_edge_id(a, b).map(|e| e as usize))), want.is_some());
                let fa: Vec<usize> = s.vwheel(a).iter().map(|e| s.e[e].face).filter(|f| *f != NONE).collect();
                let fb: Vec<usize> = s.vwheel(b).iter().map(|e| s.e[e].face).filter(|f| *f != NONE).collect();
                let got = guard(|| m.shared_face(a, b).map(|f| f as usize));
                // any common face is a right answer
                let ok = match &got { Ok(Some(f)) => fa.contains(f) && fb.contains(f), Ok(None) => !fa.iter().any(|f| fb.contains(f)), Err(_) => false };
                eq("shared_face", "ok".into(), Ok(if ok { "ok".into() } else { format!("{got:?} for {a},{b} with faces {fa:?} and {fb:?}") }), !fa.is_empty());
            }
            for (i, d) in &s.f {
                let f = m.face(*i as u16);
                let o = s.orbit(d.edge);
                let tg: Vec<usize> = o.iter().map(|e| s.tgt(*e)).collect();
                eq("face.edges", ids(&o), guard(|| ids(&f.edges(&m).take(cap).map(|x| x.id() as usize).collect::<Vec<_>>())), true);
                eq("face.edge_ids", ids(&o), guard(|| ids(&f.edge_ids(&m).take(cap).map(|x| x as usize).collect::<Vec<_>>())), true);
                eq("face.vertices", ids(&tg), guard(|| ids(&f.vertices(&m).take(cap).map(|x| x.id()).collect::<Vec<_>>())), true);
                eq("face.vertex_ids", ids(&tg), guard(|| ids(&f.vertex_ids(&m).take(cap).collect::<Vec<_>>())), true);
                eq("num_edges", format!("{}", o.len()), guard(|| format!("{}", f.num_edges(&m))), true);
                eq("num_vertices", format!("{}", o.len()), guard(|| format!("{}", f.num_vertices(&m))), true);
                if o.len() >= 2 { eq("num_triangles", format!("{}", (o.len() - 2) * 3), guard(|| format!("{}", f.num_triangles(&m))), true); }
                eq("face.edge", format!("{}", d.edge), guard(|| format!("{}", FaceBasics::edge(f, &m).id())), true);
            }
            let pairs: Vec<usize> = s.e.iter().filter(|(i, d)| **i < d.twin).flat_map(|(i, d)| [*i, d.twin]).collect();
            eq("twin_edges", ids(&pairs), guard(|| ids(&m.twin_edges().flat_map(|(a, b)| [a.id() as usize, b.id() as usize]).collect::<Vec<_>>())), true);
            eq("is_open", format!("{}", s.e.values().any(|e| e.face == NONE)), guard(|| format!("{}", m.is_open())), true);
            eq("check", "true".into(), guard(|| {
                // the library's own validity check agrees on its (stricter) notion
                let want = s.f.values().all(|f| s.orbit(f.edge).len() >= 3) && s.e.values().all(|e| e.face != NONE || s.e[&e.twin].face != NONE);
                format!("{}", m.check().is_ok() == want)
            }), true);
            eq("has_consecutive_vertex_ids", format!("{}", s.v.keys().enumerate().all(|(a, b)| a == *b)), guard(|| format!("{}", m.has_consecutive_vertex_ids())), true);
        }
        for (nm, nt) in cnt {
            let k = if nt { Some(hash(&(nm, h))) } else { None };
            r.eval(nm, k);
        }
        for (k, w) in bad { r.fail(&k, w, ctx.clone()); }
    }
}

/// C01 on the mesh: handles denote the same element (by payload tag) until it is deleted
pub fn handles(r: &mut Rep) {
    let mut rng = r.rng(11);
    let n = r.scale(400);
    for _ in 0..n {
        if !r.time_left() { break; }
        let mut m = M::new();
        let mut s = Snap::of(&m);
        let mut tag = 1000u64;
        let mut hist: Vec<Op> = vec![];
        for _ in 0..rng.range(5, 50) {
            tag += 100;
            let Some(op) = choose(&s, &mut rng, tag, &[]) else { continue };
            if s.e.len() > 160 && !matches!(op, Op::CloseHole(..) | Op::RemoveFace(..) | Op::Clear) { continue; }
            hist.push(op.clone());
            let Ok(_) = apply(&mut m, &s, &op) else { break };
            let a = Snap::of(&m);
            r.eval("mesh handles", if !s.f.is_empty() { Some(hash(&format!("{hist:?}"))) } else { None });
            let input = || format!("{:?}", hist);
            if !matches!(op, Op::Clear) {
                for (k, v) in &s.v { if a.v.get(k).map(|x| x.pay.tag) != Some(v.pay.tag) { r.fail("mesh-vertex-handle", format!("vertex {k} no longer denotes its element"), input()); } }
                for (k, e) in &s.e { if a.e.get(k).map(|x| x.pay.tag) != Some(e.pay.tag) { r.fail("mesh-edge-handle", format!("half-edge {k} no longer denotes its element"), input()); } }
                for (k, f) in &s.f {
                    if matches!(op, Op::RemoveFace(g) if g == *k) { if a.f.contains_key(k) { r.fail("mesh-face-handle", format!("removed face {k} is still there"), input()); } continue; }
                    if a.f.get(k).map(|x| x.pay.tag) != Some(f.pay.tag) { r.fail("mesh-face-handle", format!("face {k} no longer denotes its element"), input()); }
                }
            }
            if m.num_vertices() != a.v.len() || m.num_edges() != a.e.len() || m.num_faces() != a.f.len() {
                r.fail("mesh-count", format!("counts {}/{}/{} but {}/{}/{} live", m.num_vertices(), m.num_edges(), m.num_faces(), a.v.len(), a.e.len(), a.f.len()), input());
            }
            if a.v.keys().any(|k| *k >= m.max_vertex_index()) { r.fail("mesh-capacity", "max_vertex_index does not bound a handle", input()); }
            for k in 0..m.max_vertex_index() + 1 { if m.has_vertex(k) != a.v.contains_key(&k) { r.fail("mesh-has", format!("has_vertex({k})"), input()); } }
            for (k, _) in &a.v { if m.vertex(*k).id() != *k { r.fail("mesh-id", format!("vertex {k} stores another id"), input()); } }
            if a.wf().is_err() { break; }
            s = a;
        }
    }
}
