//! C12: transforming a mesh, and what the transformations themselves do
use crate::gen;
use crate::rep::*;
use crate::snap::*;
use crate::tm::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;

fn q(rng: &mut Rng) -> f64 { (rng.below(33) as f64 - 16.0) * 0.25 }
fn v3(rng: &mut Rng) -> V3 { V3::new(q(rng), q(rng), q(rng)) }
fn rot(rng: &mut Rng) -> NdRotate<f64, 3> {
    let c = [(0.0, 1.0), (1.0, 0.0), (0.0, -1.0), (-1.0, 0.0)][rng.below(4)];
    let mut m = nalgebra::SMatrix::<f64, 3, 3>::identity();
    let (a, b) = [(0, 1), (1, 2), (2, 0)][rng.below(3)];
    m[(a, a)] = c.0; m[(b, b)] = c.0; m[(a, b)] = -c.1; m[(b, a)] = c.1;
    NdRotate::new(m)
}
fn aff<const D: usize>(rng: &mut Rng) -> NdAffine<f64, D> {
    let mut m = nalgebra::SMatrix::<f64, D, D>::zeros();
    for x in m.iter_mut() { *x = q(rng); }
    let mut t = VecN::<f64, D>::zeros();
    for x in t.iter_mut() { *x = q(rng); }
    NdAffine::new(m, t)
}
fn vec<const D: usize>(rng: &mut Rng) -> VecN<f64, D> {
    let mut t = VecN::<f64, D>::zeros();
    for x in t.iter_mut() { *x = q(rng); }
    t
}

enum Op { Tr(V3), Sc(V3), Ro(NdRotate<f64, 3>), Tf(NdAffine<f64, 3>) }
impl Op {
    fn name(&self) -> String {
        match self {
            Op::Tr(v) => format!("translate {:?}", v.as_slice()),
            Op::Sc(v) => format!("scale {:?}", v.as_slice()),
            Op::Ro(r) => format!("rotate by {:?}", r.to_matrix().as_slice()),
            Op::Tf(t) => format!("transform {t:?}"),
        }
    }
    fn on<P: Transformable<3, S = f64, Vec = V3, Trans = NdAffine<f64, 3>, Rot = NdRotate<f64, 3>>>(&self, p: &mut P) {
        match self {
            Op::Tr(v) => { p.translate(v); }
            Op::Sc(v) => { p.scale(v); }
            Op::Ro(r) => { p.rotate(r); }
            Op::Tf(t) => { p.transform(t); }
        }
    }
}
fn mesh_step(m: &mut M, op: &Op, copy: bool) -> Result<(), String> {
    let before = Snap::of(m);
    let mut want = before.clone();
    for v in want.v.values_mut() { op.on(&mut v.pay); }
    for e in want.e.values_mut() { op.on(&mut e.pay); }
    for f in want.f.values_mut() { op.on(&mut f.pay); }
    op.on(&mut want.mp);
    if copy {
        let c = guard(|| match op {
            Op::Tr(v) => m.translated(v),
            Op::Sc(v) => m.scaled(v),
            Op::Ro(r) => m.rotated(r),
            Op::Tf(t) => m.transformed(t),
        })?;
        if let Some(d) = before.diff(&Snap::of(m)) { return Err(format!("the copying variant changed the original: {d}")); }
        if let Some(d) = want.diff(&Snap::of(&c)) { return Err(format!("the transformed copy: {d}")); }
        *m = c;
    } else {
        guard(|| { match op {
            Op::Tr(v) => { TransformableMesh::translate(m, v); }
            Op::Sc(v) => { TransformableMesh::scale(m, v); }
            Op::Ro(r) => { TransformableMesh::rotate(m, r); }
            Op::Tf(t) => { TransformableMesh::transform(m, t); }
        }})?;
        if let Some(d) = want.diff(&Snap::of(m)) { return Err(format!("in place: {d}")); }
    }
    Ok(())
}

fn affine<const D: usize>(rng: &mut Rng) -> Result<(), String> {
    let (a, b) = (aff::<D>(rng), aff::<D>(rng));
    let s = vec::<D>(rng);
    for _ in 0..4 {
        let p = vec::<D>(rng);
        let w = |what: &str, got: VecN<f64, D>, want: VecN<f64, D>| if got == want { Ok(()) } else {
            Err(format!("{what}: {:?} becomes {:?}, expected {:?} (a = {a:?}, b = {b:?}, s = {:?})", p.as_slice(), got.as_slice(), want.as_slice(), s.as_slice())) };
        w("identity", NdAffine::identity().apply(p), p)?;
        w("default", NdAffine::default().apply(p), p)?;
        w("from_translation", NdAffine::from_translation(s).apply(p), p + s)?;
        w("from_translation on directions", NdAffine::from_translation(s).apply_vec(p), p)?;
        w("from_scale", NdAffine::from_scale(s).apply(p), p.component_mul(&s))?;
        w("from_scale on directions", NdAffine::from_scale(s).apply_vec(p), p.component_mul(&s))?;
        w("directions", a.apply_vec(p), a.apply(p) - a.apply(VecN::zeros()))?;
        w("chain", a.chain(&b).apply(p), b.apply(a.apply(p)))?;
        w("chain on directions", a.chain(&b).apply_vec(p), b.apply_vec(a.apply_vec(p)))?;
        w("with_scale", a.with_scale(s).apply(p), a.apply(p).component_mul(&s))?;
        w("with_scale on directions", a.with_scale(s).apply_vec(p), a.apply_vec(p).component_mul(&s))?;
        w("with_translation", a.with_translation(s).apply(p), a.apply(p) + s)?;
        w("with_translation on directions", a.with_translation(s).apply_vec(p), a.apply_vec(p))?;
        // vectors and vertex payloads
        let t = 0.25;
        let mid = p + (s - p) * t;
        w("vector transformed", p.transformed(&a), a.apply(p))?;
        w("vector translated", p.translated(&s), p + s)?;
        w("vector scaled", p.scaled(&s), p.component_mul(&s))?;
        w("vector lerped", p.lerped(&s, t), mid)?;
        let mut x = VertexPayloadPNU::<f64, D>::from_pos(p);
        let n = vec::<D>(rng);
        x.set_normal(n);
        x.set_uv(vec::<2>(rng));
        let uv = *x.uv();
        let all = |what: &str, y: &VertexPayloadPNU<f64, D>, pos: VecN<f64, D>, nrm: VecN<f64, D>| {
            w(&format!("position, payload {what}"), *y.pos(), pos)?;
            w(&format!("normal, payload {what}"), *y.normal(), nrm)?;
            if *y.uv() != uv { return Err(format!("payload {what} changes the uv coordinates")); }
            Ok(())
        };
        all("made", &x, p, n)?;
        all("transformed", &x.transformed(&a), a.apply(p), a.apply_vec(n))?;
        all("translated", &x.translated(&s), p + s, n)?;
        all("scaled", &x.scaled(&s), p.component_mul(&s), n.component_mul(&s))?;
        let mut y = x; y.transform(&a); all("transform", &y, a.apply(p), a.apply_vec(n))?;
        let mut y = x; y.translate(&s); all("translate", &y, p + s, n)?;
        let mut y = x; y.scale(&s); all("scale", &y, p.component_mul(&s), n.component_mul(&s))?;
        all("left alone", &x, p, n)?;
        let mut o = VertexPayloadPNU::<f64, D>::from_pos(s);
        o.set_normal(p);
        o.set_uv(vec::<2>(rng));
        let z = x.lerped(&o, t);
        w("position, payload lerped", *z.pos(), mid)?;
        w("normal, payload lerped", *z.normal(), n + (p - n) * t)?;
        if *z.uv() != uv + (*o.uv() - uv) * t { return Err("payload lerped: uv".into()); }
    }
    Ok(())
}
fn curved(rng: &mut Rng) -> Result<(), String> {
    type C = CurvedEdgePayload<3, TM>;
    let (p, p2, s, a) = (v3(rng), v3(rng), v3(rng), aff::<3>(rng));
    let ro = rot(rng);
    let mk = |c: CurvedEdgeType<3, TM>| { let mut e = C::default(); e.set_curve_type(c); e };
    for k in 0..3 {
        let c = |x: V3, y: V3| match k { 0 => CurvedEdgeType::Linear, 1 => CurvedEdgeType::QuadraticBezier(x), _ => CurvedEdgeType::CubicBezier(x, y) };
        let e = mk(c(p, p2));
        for (what, got, f) in [
            ("transformed", e.transformed(&a), c(a.apply(p), a.apply(p2))),
            ("translated", e.translated(&s), c(p + s, p2 + s)),
            ("scaled", e.scaled(&s), c(p.component_mul(&s), p2.component_mul(&s))),
            ("rotated", e.rotated(&ro), c(ro.to_matrix() * p, ro.to_matrix() * p2)),
        ] {
            if got.curve_type() != f { return Err(format!("curved edge {what}: {:?}, expected {:?}", got.curve_type(), f)); }
        }
        if e.curve_type() != c(p, p2) { return Err("copying variant changed a curved edge".into()); }
    }
    Ok(())
}
fn rotations(rng: &mut Rng) -> Result<(), String> {
    let r = rot(rng);
    let p = v3(rng);
    let m = r.to_matrix();
    let w = |what: &str, got: V3, want: V3| if got == want { Ok(()) } else { Err(format!("{what}: {:?} becomes {:?}, expected {:?}", p.as_slice(), got.as_slice(), want.as_slice())) };
    w("from_rotation", NdAffine::from_rotation(r).apply(p), m * p)?;
    w("from_rotation on directions", NdAffine::from_rotation(r).apply_vec(p), m * p)?;
    w("vector rotated", p.rotated(&r), m * p)?;
    let mut x = VertexPayloadPNU::<f64, 3>::from_pos(p);
    x.set_normal(p);
    let y = x.rotated(&r);
    w("payload rotated, position", *y.pos(), m * p)?;
    w("payload rotated, normal", *y.normal(), m * p)?;
    // the rotation that takes one direction to another
    let (a, b) = (v3(rng), v3(rng));
    if a.norm() > 0.0 && b.norm() > 0.0 {
        let t = guard(|| NdAffine::<f64, 3>::from_rotation_arc(a, b))?;
        let g = t.apply_vec(a / a.norm());
        if (g - b / b.norm()).norm() > 1e-6 { return Err(format!("from_rotation_arc({:?}, {:?}) takes the first direction to {:?}", a.as_slice(), b.as_slice(), g.as_slice())); }
        let (c, d) = (v3(rng), v3(rng));
        if (t.apply_vec(c).dot(&t.apply_vec(d)) - c.dot(&d)).abs() > 1e-6 * (1.0 + c.norm() * d.norm()) { return Err("from_rotation_arc is not a rotation".into()); }
    }
    Ok(())
}

pub fn run(r: &mut Rep) {
    r.rule = "whole meshes: every payload is compared with the payload's own operation applied once to its previous value, everything else must be unchanged, the original of a copying variant too; transformations: apply/apply_vec/chain/with_*/from_* and the vector, vertex-payload and curved-edge operations are compared on exactly representable matrices and vectors in 1 to 4 dimensions".into();
    let mut rng = r.rng(12);
    for k in 0..r.scale(120) {
        if !r.time_left() { break; }
        let (name, mut m) = if k % 4 == 0 {
            match gen::solid(k as usize / 4 % gen::SOLIDS, 3 + rng.below(4)) { Some((n, m)) => (n.to_string(), m), None => continue }
        } else {
            let n = [0, 1, 2, 6, 14][rng.below(5)];
            match gen::mesh(&mut rng, n, true) { Some((m, s)) => (format!("random mesh with {}/{}/{} elements", s.v.len(), s.e.len(), s.f.len()), m), None => continue }
        };
        for _ in 0..4 {
            let op = match rng.below(4) { 0 => Op::Tr(v3(&mut rng)), 1 => Op::Sc(v3(&mut rng)), 2 => Op::Ro(rot(&mut rng)), _ => Op::Tf(aff::<3>(&mut rng)) };
            let copy = rng.chance(1, 2);
            let input = format!("{name}: {}{}", op.name(), if copy { " (copy)" } else { "" });
            r.eval("whole meshes", if m.num_vertices() > 0 { Some(hash(&input)) } else { None });
            if let Err(e) = mesh_step(&mut m, &op, copy) { r.fail("mesh", e, input); break; }
        }
    }
    for i in 0..r.scale(400) {
        if !r.time_left() { break; }
        r.eval("transformations", Some(i));
        let input = format!("draw {i}");
        for e in [affine::<1>(&mut rng), affine::<2>(&mut rng), affine::<3>(&mut rng), affine::<4>(&mut rng), curved(&mut rng), rotations(&mut rng)] {
            if let Err(e) = e { r.fail("affine", e, input.clone()); }
        }
    }
}
