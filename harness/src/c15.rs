//! C15: comparing meshes element by element, matching vertices, comparing under a matching
use crate::gen;
use crate::ops::*;
use crate::rep::*;
use crate::snap::*;
use crate::tm::*;
use procedural_modelling::prelude::*;
use std::collections::BTreeMap;

type D = MeshEquivalenceDifference<TM, TM>;
type Map = BTreeMap<usize, usize>;
fn rotated(a: &[usize], b: &[usize]) -> bool {
    a.len() == b.len() && (0..a.len()).any(|k| (0..a.len()).all(|i| a[(i + k) % a.len()] == b[i]))
}
/// comparison functions; each one is a relation on tags
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cmp { All, Same, Mod(u64), Less }
impl Cmp {
    fn on(self, a: u64, b: u64) -> bool {
        match self { Cmp::All => true, Cmp::Same => a == b, Cmp::Mod(k) => a % k == b % k, Cmp::Less => a <= b }
    }
    fn random(r: &mut Rng) -> Cmp {
        match r.below(8) { 0 => Cmp::Mod(2), 1 => Cmp::Mod(100), 2 => Cmp::Less, 3 | 4 => Cmp::All, _ => Cmp::Same }
    }
}
type C3 = (Cmp, Cmp, Cmp);

fn unpaired<T>(a: &BTreeMap<usize, T>, b: &BTreeMap<usize, T>, p: usize, q: usize) -> bool {
    p != q && a.contains_key(&p) && b.contains_key(&q) && (!b.contains_key(&p) || !a.contains_key(&q))
}
fn ends(a: &Snap, b: &Snap, x: usize) -> bool { a.e[&x].org == b.e[&x].org && a.tgt(x) == b.tgt(x) }
fn face_same(a: &Snap, b: &Snap, x: usize) -> bool { rotated(&a.orbit(a.f[&x].edge), &b.orbit(b.f[&x].edge)) }
/// None when the meshes are the same element by element, otherwise a reason
fn trivially(a: &Snap, b: &Snap, c: C3) -> Option<String> {
    if !a.v.keys().eq(b.v.keys()) { return Some("different vertices".into()); }
    if !a.e.keys().eq(b.e.keys()) { return Some("different edges".into()); }
    if !a.f.keys().eq(b.f.keys()) { return Some("different faces".into()); }
    for (i, v) in &a.v { if !c.0.on(v.pay.tag, b.v[i].pay.tag) { return Some(format!("vertex {i}")); } }
    for (i, e) in &a.e { if !ends(a, b, *i) || !c.1.on(e.pay.tag, b.e[i].pay.tag) { return Some(format!("edge {i}")); } }
    for (i, f) in &a.f { if !face_same(a, b, *i) || !c.2.on(f.pay.tag, b.f[i].pay.tag) { return Some(format!("face {i}")); } }
    None
}
/// whether the named difference exists
fn triv_differs(a: &Snap, b: &Snap, c: C3, d: &D) -> bool {
    match *d {
        D::DifferentNumberOfVertices => a.v.len() != b.v.len(),
        D::DifferentNumberOfEdges => a.e.len() != b.e.len(),
        D::DifferentNumberOfFaces => a.f.len() != b.f.len(),
        D::DifferentVertices(p, q) => unpaired(&a.v, &b.v, p, q)
            || (p == q && a.v.contains_key(&p) && b.v.contains_key(&q) && !c.0.on(a.v[&p].pay.tag, b.v[&p].pay.tag)),
        D::DifferentEdges(p, q) => {
            let (p, q) = (p as usize, q as usize);
            unpaired(&a.e, &b.e, p, q)
                || (p == q && a.e.contains_key(&p) && b.e.contains_key(&q) && (!ends(a, b, p) || !c.1.on(a.e[&p].pay.tag, b.e[&p].pay.tag)))
        }
        D::DifferentFaces(p, q) => {
            let (p, q) = (p as usize, q as usize);
            unpaired(&a.f, &b.f, p, q)
                || (p == q && a.f.contains_key(&p) && b.f.contains_key(&q) && (!face_same(a, b, p) || !c.2.on(a.f[&p].pay.tag, b.f[&p].pay.tag)))
        }
        _ => false,
    }
}
fn is_eq(d: &D) -> bool { matches!(d, D::Equivalent) }

fn verdict(r: &mut Rep, what: &str, got: Result<D, String>, want: Option<String>, real: impl Fn(&D) -> bool, input: &str) {
    match got {
        Err(e) => r.fail(&format!("{what}-panic"), format!("{what} panicked: {e}"), input),
        Ok(d) => {
            if MeshEquivalenceDifference::eq(&d) != is_eq(&d) || MeshEquivalenceDifference::ne(&d) == is_eq(&d) {
                r.fail("verdict", format!("{d:?} answers eq() = {}, ne() = {}", MeshEquivalenceDifference::eq(&d), MeshEquivalenceDifference::ne(&d)), input);
            }
            match want {
                Some(x) if is_eq(&d) => r.fail(&format!("{what}-accepts"), format!("{what} accepts meshes that differ: {x}"), input),
                None if !is_eq(&d) => r.fail(&format!("{what}-rejects"), format!("{what} rejects equal meshes: {d:?}"), input),
                _ if !is_eq(&d) && !real(&d) => r.fail(&format!("{what}-names"), format!("{what} names a difference that does not exist: {d:?}"), input),
                _ => {}
            }
        }
    }
}
fn element_wise(r: &mut Rep, a: &M, b: &M, c: C3, input: &str) {
    let (sa, sb) = (Snap::of(a), Snap::of(b));
    let real = |c: C3| { let (sa, sb) = (&sa, &sb); move |d: &D| triv_differs(sa, sb, c, d) };
    let got = guard(|| a.is_trivially_isomorphic_ex(b,
        |x, y| c.0.on(VertexBasics::payload(x).tag, VertexBasics::payload(y).tag),
        |x, y| c.1.on(EdgeBasics::payload(x).tag, EdgeBasics::payload(y).tag),
        |x, y| c.2.on(FaceBasics::payload(x).tag, FaceBasics::payload(y).tag)));
    verdict(r, "is_trivially_isomorphic_ex", got, trivially(&sa, &sb, c), real(c), input);
    let all = (Cmp::All, Cmp::All, Cmp::All);
    verdict(r, "is_trivially_isomorphic", guard(|| a.is_trivially_isomorphic(b)), trivially(&sa, &sb, all), real(all), input);
    // positions: either about the same or clearly not, since they are multiples of 1/4 derived from the tag
    let near = |x: usize| sa.v[&x].pay.pos == sb.v[&x].pay.pos;
    let want = trivially(&sa, &sb, all).or_else(|| sa.v.keys().find(|x| !near(**x)).map(|x| format!("position of vertex {x}")));
    let real = |d: &D| match *d { D::DifferentVertices(p, q) if p == q => sa.v.contains_key(&p) && sb.v.contains_key(&p) && !near(p), _ => triv_differs(&sa, &sb, all, d) };
    verdict(r, "is_trivially_isomorphic_pos", guard(|| a.is_trivially_isomorphic_pos::<3, f64, V3>(b, 1e-6)), want, real, input);
}

/// why the map does not pair the vertices one to one under the comparison
fn bad_matching(a: &Snap, b: &Snap, c: Cmp, m: &Map) -> Option<String> {
    if !m.keys().eq(a.v.keys()) { return Some(format!("pairs {:?}", m.keys().collect::<Vec<_>>())); }
    let mut used = BTreeMap::new();
    for (x, y) in m {
        if !b.v.contains_key(y) { return Some(format!("{x} goes to {y}, which does not exist")); }
        if !c.on(a.v[x].pay.tag, b.v[y].pay.tag) { return Some(format!("{x} goes to {y}, for which the comparison does not hold")); }
        if let Some(z) = used.insert(*y, *x) { return Some(format!("{x} and {z} both go to {y}")); }
    }
    None
}
fn on_edge(s: &Snap, e: usize) -> Vec<usize> {
    [s.e[&e].face, s.e[&s.e[&e].twin].face].into_iter().filter(|f| *f != NONE).collect()
}
fn face_vs(s: &Snap, f: usize) -> Vec<usize> { s.orbit(s.f[&f].edge).iter().map(|e| s.e[e].org).collect() }
fn face_like(a: &Snap, b: &Snap, m: &Map, g: usize, h: usize) -> bool {
    b.f.contains_key(&h) && rotated(&face_vs(a, g).iter().map(|x| m[x]).collect::<Vec<_>>(), &face_vs(b, h))
}
fn edge_like(a: &Snap, b: &Snap, m: &Map, e: usize) -> Option<usize> { b.edge_between(m[&a.e[&e].org], m[&a.tgt(e)]) }
/// None when the map carries vertices, edges and faces over
fn isomorphic(a: &Snap, b: &Snap, m: &Map, c: C3) -> Option<String> {
    if (a.v.len(), a.e.len(), a.f.len()) != (b.v.len(), b.e.len(), b.f.len()) { return Some("counts".into()); }
    for (x, v) in &a.v {
        if !c.0.on(v.pay.tag, b.v[&m[x]].pay.tag) { return Some(format!("vertex {x}")); }
        for e in a.vwheel(*x) {
            match edge_like(a, b, m, e) {
                None => return Some(format!("edge {e} has no counterpart")),
                Some(o) if !c.1.on(a.e[&e].pay.tag, b.e[&o].pay.tag) => return Some(format!("edge {e} and {o}")),
                _ => {}
            }
            for g in on_edge(a, e) {
                if !b.f.keys().any(|h| face_like(a, b, m, g, *h) && c.2.on(a.f[&g].pay.tag, b.f[h].pay.tag)) { return Some(format!("face {g}")); }
            }
        }
    }
    None
}
fn iso_differs(a: &Snap, b: &Snap, m: &Map, c: C3, d: &D) -> bool {
    match *d {
        D::DifferentNumberOfVertices => a.v.len() != b.v.len(),
        D::DifferentNumberOfEdges => a.e.len() != b.e.len(),
        D::DifferentNumberOfFaces => a.f.len() != b.f.len(),
        D::DifferentVertices(p, q) => m.get(&p) == Some(&q) && !c.0.on(a.v[&p].pay.tag, b.v[&q].pay.tag),
        D::NoCorrespondingEdge(p) => a.e.contains_key(&(p as usize)) && edge_like(a, b, m, p as usize).is_none(),
        D::DifferentEdges(p, q) => {
            let (p, q) = (p as usize, q as usize);
            a.e.contains_key(&p) && edge_like(a, b, m, p) == Some(q) && !c.1.on(a.e[&p].pay.tag, b.e[&q].pay.tag)
        }
        D::NoCorrespondingFace(p) => {
            let p = p as usize;
            a.f.contains_key(&p) && a.e.keys().any(|e| on_edge(a, *e).contains(&p)
                && edge_like(a, b, m, *e).map_or(false, |o| on_edge(b, o).iter().all(|h| !face_like(a, b, m, p, *h))))
        }
        D::DifferentFaces(p, q) => {
            let (p, q) = (p as usize, q as usize);
            a.f.contains_key(&p) && b.f.contains_key(&q) && face_like(a, b, m, p, q) && !c.2.on(a.f[&p].pay.tag, b.f[&q].pay.tag)
        }
        _ => false,
    }
}
fn no_match(a: &Snap, b: &Snap, c: Cmp) -> bool {
    let rel = |x: &Vx, y: &Vx| c.on(x.pay.tag, y.pay.tag);
    a.v.values().any(|x| b.v.values().all(|y| !rel(x, y)))
        || b.v.values().any(|y| a.v.values().filter(|x| rel(x, y)).count() > 1)
}
/// with simple edges the search for the counterpart is unambiguous, and the verdict is exactly `isomorphic`
fn simple(s: &Snap) -> bool {
    s.v.keys().all(|v| { let mut t: Vec<_> = s.vwheel(*v).iter().map(|e| s.tgt(*e)).collect(); let n = t.len(); t.sort(); t.dedup(); t.len() == n })
}
fn under(r: &mut Rep, a: &M, b: &M, iso: &IndexIsomorphism<usize, usize>, m: &Map, c: C3, input: &str) {
    let (sa, sb) = (Snap::of(a), Snap::of(b));
    let got = guard(|| a.is_isomorphic::<TM, _, _, _>(b, iso,
        |x, y| c.0.on(VertexBasics::payload(x).tag, VertexBasics::payload(y).tag),
        |x, y| c.1.on(EdgeBasics::payload(x).tag, EdgeBasics::payload(y).tag),
        |x, y| c.2.on(FaceBasics::payload(x).tag, FaceBasics::payload(y).tag)));
    let want = isomorphic(&sa, &sb, m, c);
    let rejects = matches!(&got, Ok(d) if !is_eq(d));
    let want = if want.is_none() && rejects && !(simple(&sa) && simple(&sb)) { Some(String::new()) } else { want };
    verdict(r, "is_isomorphic", got, want, |d| iso_differs(&sa, &sb, m, c, d), input);
}
fn matching(r: &mut Rep, rng: &mut Rng, a: &M, b: &M, c: C3, input: &str) {
    let (sa, sb) = (Snap::of(a), Snap::of(b));
    let got = guard(|| a.find_payload_isomorphism::<TM, _>(b, |x, y| c.0.on(VertexBasics::payload(x).tag, VertexBasics::payload(y).tag)));
    let mut found = None;
    match got {
        Err(e) => r.fail("find-panic", format!("find_payload_isomorphism panicked: {e}"), input),
        Ok(Err(e)) => if !no_match(&sa, &sb, c.0) { r.fail("find-error", format!("find_payload_isomorphism gives up although the vertices can be paired: {e}"), input); },
        Ok(Ok(iso)) => {
            let m: Map = iso.iter().map(|(x, y)| (*x, *y)).collect();
            if m.iter().any(|(x, y)| !iso.has(*x) || iso.get(*x) != Some(y)) { r.fail("find-lookup", "the correspondence cannot be looked up", input); }
            match bad_matching(&sa, &sb, c.0, &m) {
                Some(x) => r.fail("find-pairs", format!("find_payload_isomorphism: {x}"), input),
                None => found = Some((iso, m)),
            }
        }
    }
    // under the correspondence found
    if let Some((iso, m)) = &found {
        under(r, a, b, iso, m, c, input);
        under(r, a, b, iso, m, (Cmp::All, Cmp::All, Cmp::All), input);
    }
    let all = (Cmp::All, Cmp::All, Cmp::All);
    let got = guard(|| a.is_isomorphic_by::<TM, _>(b, |x, y| c.0.on(VertexBasics::payload(x).tag, VertexBasics::payload(y).tag)));
    match &found {
        None => if let Ok(d) = &got { if !matches!(d, D::NoCorrespondingVertex) { r.fail("by-none", format!("is_isomorphic_by without a correspondence answers {d:?}"), input); } },
        Some((_, m)) => {
            let want = isomorphic(&sa, &sb, m, all);
            let rejects = matches!(&got, Ok(d) if !is_eq(d));
            let want = if want.is_none() && rejects && !(simple(&sa) && simple(&sb)) { Some(String::new()) } else { want };
            verdict(r, "is_isomorphic_by", got, want, |d| iso_differs(&sa, &sb, m, all, d), input);
        }
    }
    // under a correspondence of our own (a random permutation of the vertices of b)
    if sa.v.len() == sb.v.len() {
        let mut im: Vec<usize> = sb.v.keys().copied().collect();
        for _ in 0..rng.below(3) { if im.len() > 1 { let (i, j) = (rng.below(im.len()), rng.below(im.len())); im.swap(i, j); } }
        let m: Map = sa.v.keys().copied().zip(im).collect();
        let mut iso = IndexIsomorphism::<usize, usize>::new();
        for (x, y) in &m { iso.insert(*x, *y); }
        under(r, a, b, &iso, &m, all, input);
    }
    // by position: tags with the same position are the same vertex
    let mut t: Vec<_> = sa.v.values().map(|x| format!("{:?}", x.pay.pos)).collect();
    t.sort(); let n = t.len(); t.dedup();
    if n == t.len() {
        let got = guard(|| a.is_isomorphic_by_pos::<f64, 3, V3, TM>(b, 1e-6));
        let m: Map = sa.v.iter().filter_map(|(x, v)| sb.v.iter().find(|(_, w)| w.pay.pos == v.pay.pos).map(|(y, _)| (*x, *y))).collect();
        let mut im: Vec<_> = m.values().collect();
        im.sort(); im.dedup();
        if m.len() != sa.v.len() || im.len() != m.len() {
            if let Ok(d) = &got { if !matches!(d, D::NoCorrespondingVertex) { r.fail("pos-none", format!("is_isomorphic_by_pos without a correspondence answers {d:?}"), input); } }
        } else {
            let want = isomorphic(&sa, &sb, &m, all);
            let rejects = matches!(&got, Ok(d) if !is_eq(d));
            let want = if want.is_none() && rejects && !(simple(&sa) && simple(&sb)) { Some(String::new()) } else { want };
            verdict(r, "is_isomorphic_by_pos", got, want, |d| iso_differs(&sa, &sb, &m, all, d), input);
        }
    }
}
fn both(r: &mut Rep, rng: &mut Rng, part: &str, a: &M, b: &M, input: &str) {
    let c = (Cmp::random(rng), Cmp::random(rng), Cmp::random(rng));
    for (x, y, o) in [(a, b, "a, b"), (b, a, "b, a")] {
        r.eval(part, Some(hash(&format!("{input}{o}{c:?}"))));
        let input = format!("{input}; compared {o} with {c:?}");
        element_wise(r, x, y, c, &input);
        matching(r, rng, x, y, c, &input);
    }
}
/// separate parts put down in the given order, starting at the given vertex
fn parts(m: &mut M, list: &[(usize, usize, u64, usize)]) -> Option<()> {
    for (k, n, t, rot) in list {
        let v = |i: usize| vp(t + ((i + rot) % n) as u64);
        guard(|| match k {
            0 => { m.insert_polygon((0..*n).map(v)); }
            1 => { m.insert_loop((0..*n).map(v)); }
            2 => { m.insert_dihedron((0..*n).map(v)); }
            _ => { m.add_vertex(vp(*t)); }
        }).ok()?;
    }
    Some(())
}
/// the same faces taken out and put back in another order
fn reface(m: &mut M, rng: &mut Rng, turn: bool) -> Option<()> {
    let s = Snap::of(m);
    let mut fs: Vec<usize> = s.f.keys().copied().collect();
    rng.shuffle(&mut fs);
    fs.truncate(1 + rng.below(4));
    let mut back = vec![];
    for f in &fs {
        let o = s.orbit(s.f[f].edge);
        back.push((o[if turn { rng.below(o.len()) } else { 0 }], s.f[f].pay, s.f[f].curved));
        guard(|| m.remove_face(*f as u16)).ok()?;
    }
    if turn { rng.shuffle(&mut back); } else { back.reverse(); }
    for (e, p, c) in back { guard(|| m.close_hole(e as u32, p, c)).ok()?; }
    Some(())
}
fn ok(m: &M) -> bool { Snap::of(m).wf().is_ok() }

pub fn run(r: &mut Rep) {
    r.rule = "pairs of random valid meshes: copies, copies with further calls, edges turned, faces taken out and put back, the same parts put down in another order, independent ones; both directions".into();
    let mut rng = r.rng(15);
    let n = r.scale(3000);
    for i in 0..n {
        if !r.time_left() { break; }
        let made = if i % 5 == 4 { let k = rng.below(gen::SOLIDS); let j = rng.range(3, 5); gen::solid(k, j).map(|x| x.1) } else { let k = rng.range(1, 14); gen::mesh(&mut rng, k, true).map(|x| x.0) };
        let Some(a) = made else { continue };
        if !ok(&a) || a.num_edges() > 200 { continue; }
        let mut b = a.clone();
        let text = format!("mesh {}", Snap::of(&a).picture());
        if i < 2 { r.sample(|| text.clone()); }
        both(r, &mut rng, "copy", &a, &b, &text);
        if a.num_faces() > 0 {
            let turn = rng.chance(1, 2);
            if reface(&mut b, &mut rng, turn).is_some() && ok(&b) {
                both(r, &mut rng, "faces put back", &a, &b, &format!("{text} against {}", Snap::of(&b).picture()));
            }
        }
        let mut b = a.clone();
        let mut s = Snap::of(&b);
        let mut tag = 50_000;
        let mut bad = false;
        for _ in 0..rng.range(1, 3) {
            tag += 100;
            let Some(op) = choose(&s, &mut rng, tag, &[]) else { continue };
            if matches!(op, Op::Clear | Op::FlipAll) { continue; }
            if apply(&mut b, &s, &op).is_err() { bad = true; break; }
            s = Snap::of(&b);
            if s.wf().is_err() { bad = true; break; }
        }
        if !bad { both(r, &mut rng, "further calls", &a, &b, &format!("{text} against {}", s.picture())); }
        // one payload changed
        let mut b = a.clone();
        let s = Snap::of(&b);
        if let Some(v) = rng.pick(&s.v.keys().copied().collect::<Vec<_>>()) {
            let t = s.v[v].pay.tag + 10_000;
            *b.vertex_mut(*v).payload_mut() = vp(t);
            both(r, &mut rng, "vertex payload", &a, &b, &format!("{text} with the payload of vertex {v} changed"));
        }
        // an edge turned against another one: same counts
        let mut b = a.clone();
        let e: Vec<usize> = s.e.keys().copied().filter(|e| s.e[e].face != NONE && s.e[&s.e[e].twin].face != NONE).collect();
        if let Some(e) = rng.pick(&e) {
            if guard(|| { b.flip_edge(*e as u32); }).is_ok() && ok(&b) {
                both(r, &mut rng, "edge turned", &a, &b, &format!("{text} with edge {e} turned"));
            }
        }
        // two meshes with the same number of calls
        let k = rng.range(1, 3);
        if let (Some((a, sa)), Some((b, sb))) = (gen::mesh(&mut rng, k, true), gen::mesh(&mut rng, k, true)) {
            both(r, &mut rng, "independent", &a, &b, &format!("{} against {}", sa.picture(), sb.picture()));
        }
        // the same parts in another order
        let mut list: Vec<_> = (0..rng.range(1, 4)).map(|i| (rng.below(4), rng.range(3, 6), 1000 + 100 * i as u64, 0usize)).collect();
        let mut a = M::new();
        let mut b = M::new();
        if parts(&mut a, &list).is_none() { continue; }
        let text = format!("parts (kind, n, tag, rotation) {list:?}");
        rng.shuffle(&mut list);
        for l in list.iter_mut() { if l.0 < 3 { l.3 = rng.below(l.1); } }
        // now and then one part of another kind
        if rng.chance(1, 3) { list[0].0 = rng.below(4); }
        if parts(&mut b, &list).is_none() || !ok(&a) || !ok(&b) { continue; }
        both(r, &mut rng, "parts reordered", &a, &b, &format!("{text} against {list:?}"));
        for m in [&mut a, &mut b] { let _ = reface(m, &mut rng, true); }
        if ok(&a) && ok(&b) { both(r, &mut rng, "parts reordered", &a, &b, &format!("{text} against {list:?}, faces put back: {} against {}", Snap::of(&a).picture(), Snap::of(&b).picture())); }
    }
}
