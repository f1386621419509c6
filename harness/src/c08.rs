//! C08: the triangulation view against a plain list of triangles behind a prefix
use crate::rep::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;
use std::collections::HashMap;

type P = Vec2<f64>;

fn one<I: IndexType>(r: &mut Rep, rng: &mut Rng, name: &'static str) {
    let nv = rng.range(4, 24);
    let hm: HashMap<I, P> = (0..nv).map(|i| (I::new(i), P::new(rng.below(41) as f64 - 20.0, rng.below(41) as f64 - 20.0))).collect();
    let locals: Vec<IndexedVertex2D<I, P>> = (0..nv).map(|i| { let k = (i * 7 + 3) % nv; IndexedVertex2D::new(hm[&I::new(k)], I::new(k)) }).collect();
    let pre: Vec<usize> = (0..rng.below(11)).map(|_| rng.below(200)).collect();
    let mut buf: Vec<I> = pre.iter().map(|x| I::new(*x)).collect();
    let mut own: Vec<[usize; 3]> = vec![];
    let mut hist = format!("index type {name}, prefix {:?}: ", pre);
    let mut bad: Option<(String, String)> = None;
    {
        let mut t = Triangulation::new(&mut buf);
        for _ in 0..rng.range(1, 14) {
            let k = rng.below(10);
            let res: Result<(), String> = guard(|| {
                if k < 5 {
                    let a = [rng.below(nv), rng.below(nv), rng.below(nv)];
                    if k < 3 {
                        hist.push_str(&format!("insert_triangle{a:?} "));
                        t.insert_triangle(I::new(a[0]), I::new(a[1]), I::new(a[2]));
                        own.push(a);
                    } else {
                        hist.push_str(&format!("insert_triangle_local{a:?} "));
                        t.insert_triangle_local(a[0], a[1], a[2], &locals);
                        own.push([locals[a[0]].index.index(), locals[a[1]].index.index(), locals[a[2]].index.index()]);
                    }
                } else if k < 7 && nv >= 4 {
                    // a quadrilateral a d b c, then its diagonal a b is flipped and flipped back
                    let mut q: Vec<usize> = (0..nv).collect();
                    rng.shuffle(&mut q);
                    let (a, b, c, d) = (q[0], q[1], q[2], q[3]);
                    let rot = |x: [usize; 3], k: usize| [x[k % 3], x[(k + 1) % 3], x[(k + 2) % 3]];
                    let (t1, t2) = (rot([a, b, c], rng.below(3)), rot([a, d, b], rng.below(3)));
                    let p1 = t.next_pos();
                    t.insert_triangle(I::new(t1[0]), I::new(t1[1]), I::new(t1[2]));
                    let filler = [rng.below(nv), rng.below(nv), rng.below(nv)];
                    let gap = rng.chance(1, 2);
                    if gap { t.insert_triangle(I::new(filler[0]), I::new(filler[1]), I::new(filler[2])); }
                    let p2 = t.next_pos();
                    t.insert_triangle(I::new(t2[0]), I::new(t2[1]), I::new(t2[2]));
                    own.push(t1);
                    if gap { own.push(filler); }
                    own.push(t2);
                    let n = own.len();
                    let i1 = if gap { n - 3 } else { n - 2 };
                    hist.push_str(&format!("pair {t1:?} {t2:?} flip_edge({a},{b},{p1},{p2}) "));
                    // an edge that is not the shared one must be refused and change nothing
                    let before: Vec<I> = (0..3 * n).map(|i| t.get_index(i)).collect();
                    if t.flip_edge(I::new(b), I::new(a), p1, p2).is_ok() { return Err("flip_edge accepted the edge in the wrong direction".to_string()); }
                    if t.flip_edge(I::new(c), I::new(d), p1, p2).is_ok() { return Err("flip_edge accepted an edge that is not there".to_string()); }
                    if (0..3 * n).any(|i| t.get_index(i) != before[i]) { return Err("a refused flip_edge changed the buffer".to_string()); }
                    if t.flip_edge(I::new(a), I::new(b), p1, p2).is_err() { return Err("flip_edge refused the shared diagonal".to_string()); }
                    let g = |t: &Triangulation<I>, i: usize| { let (x, y, z) = t.get_triangle(i); [x.index(), y.index(), z.index()] };
                    let same = |x: [usize; 3], y: [usize; 3]| (0..3).any(|k| rot(x, k) == y);
                    let (f1, f2) = (g(&t, i1), g(&t, n - 1));
                    let ok = (same(f1, [a, d, c]) && same(f2, [d, b, c])) || (same(f2, [a, d, c]) && same(f1, [d, b, c]));
                    if !ok { return Err(format!("flip_edge produced {f1:?} {f2:?} from {t1:?} {t2:?}")); }
                    if rng.chance(1, 2) {
                        let (x, y) = if same(f1, [a, d, c]) { (p1, p2) } else { (p2, p1) };
                        if t.flip_edge(I::new(d), I::new(c), x, y).is_err() { return Err("flipping back is refused".to_string()); }
                        let (u1, u2) = (g(&t, i1), g(&t, n - 1));
                        if !((same(u1, t1) && same(u2, t2)) || (same(u2, t1) && same(u1, t2))) { return Err(format!("flipping back produced {u1:?} {u2:?} from {t1:?} {t2:?}")); }
                        own[i1] = u1;
                        own[n - 1] = u2;
                    } else {
                        own[i1] = f1;
                        own[n - 1] = f2;
                    }
                } else if k == 7 {
                    let mut q: Vec<usize> = (0..nv).collect();
                    rng.shuffle(&mut q);
                    hist.push_str(&format!("map_indices({q:?}) "));
                    t.map_indices(&(0..nv).map(|i| (I::new(i), I::new(q[i]))).collect());
                    for x in own.iter_mut() { for y in x.iter_mut() { *y = q[*y]; } }
                }
                Ok(())
            }).and_then(|x| x);
            let res = res.and_then(|_| guard(|| {
                if t.len() != own.len() { return Err(format!("len is {} but {} triangles were added", t.len(), own.len())); }
                if t.next_pos() != pre.len() + 3 * own.len() { return Err(format!("next_pos is {}", t.next_pos())); }
                for (i, x) in own.iter().enumerate() {
                    let (a, b, c) = t.get_triangle(i);
                    if [a.index(), b.index(), c.index()] != *x { return Err(format!("triangle {i} reads as {a} {b} {c}, expected {x:?}")); }
                    for k in 0..3 { if t.get_index(3 * i + k).index() != x[k] { return Err(format!("get_index({}) is wrong", 3 * i + k)); } }
                }
                let p = |i: usize| hm[&I::new(i)];
                let ar = |x: &[usize; 3]| { let (a, b, c) = (p(x[0]), p(x[1]), p(x[2])); (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x) };
                for (i, x) in own.iter().enumerate() {
                    if t.get_triangle_area(i, &hm) != ar(x) { return Err(format!("get_triangle_area({i}) is {}, expected {}", t.get_triangle_area(i, &hm), ar(x))); }
                }
                let area: f64 = own.iter().map(|x| ar(x).abs()).sum::<f64>() * 0.5;
                if t.get_area(&hm) != area { return Err(format!("get_area is {}, expected {area}", t.get_area(&hm))); }
                let w: f64 = own.iter().map(|x| { let (a, b, c) = (p(x[0]), p(x[1]), p(x[2])); (b - a).norm() + (c - b).norm() + (a - c).norm() }).sum();
                if (t.total_edge_weight(&hm) - w).abs() > 1e-9 * (1.0 + w) { return Err(format!("total_edge_weight is {}, expected {w}", t.total_edge_weight(&hm))); }
                Ok(())
            }).and_then(|x| x));
            r.eval(name, if own.len() > 1 && !pre.is_empty() { Some(hash(&hist)) } else { None });
            if let Err(x) = res {
                bad = Some(("view".into(), x));
                break;
            }
        }
    }
    if bad.is_none() && (buf.len() != pre.len() + 3 * own.len() || (0..pre.len()).any(|i| buf[i].index() != pre[i])) {
        bad = Some(("prefix".into(), "indices before the view were changed".into()));
    }
    if let Some((k, x)) = bad { r.fail(&k, x, hist.clone()); }
    r.sample(|| hist);
}

pub fn run(r: &mut Rep) {
    r.rule = "after each call of a random sequence of edits on a view behind a random prefix everything it reports is compared with a plain list of triangles; non-trivial with a prefix and at least two triangles".into();
    let mut rng = r.rng(8);
    let n = r.scale(2500);
    for _ in 0..n {
        if !r.time_left() { break; }
        one::<usize>(r, &mut rng, "usize");
        one::<u32>(r, &mut rng, "u32");
        one::<u16>(r, &mut rng, "u16");
        one::<u8>(r, &mut rng, "u8");
    }
}
