//! C17: sums, means and scalar helpers on exactly representable inputs
use crate::rep::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;

fn ints(rng: &mut Rng, n: usize) -> Vec<i64> {
    let style = rng.below(4);
    (0..n).map(|i| {
        let x = rng.below(401) as i64 - 200;
        match style {
            0 => x,
            1 => if i % 2 == 0 { x * 256 } else { x },
            2 => if rng.chance(1, 5) { x * 128 } else { x.abs() },
            _ => if i + 1 == n { x * 256 } else { x },
        }
    }).collect()
}

macro_rules! scalars {
    ($r:expr, $rng:expr, $t:ty, $name:expr) => {{
        let n = match $rng.below(6) { 0 => 0, 1 => 1, 2 => 2, _ => $rng.below(12) };
        let v = ints($rng, n);
        let f: Vec<$t> = v.iter().map(|x| *x as $t).collect();
        let sum: i64 = v.iter().sum();
        let input = format!("{:?} as {}", v, $name);
        $r.eval(concat!("scalar sum ", stringify!($t)), if n > 2 { Some(hash(&input)) } else { None });
        match guard(|| (<$t as Scalar>::stable_sum(f.iter().copied()), neumaier_summation(f.iter().copied()), kahan_summation(f.iter().copied()),
                        ScalarIteratorExt::<$t>::stable_sum(f.iter().copied()), <$t as Scalar>::stable_mean(f.iter().copied()), ScalarIteratorExt::<$t>::stable_mean(f.iter().copied()))) {
            Err(x) => $r.fail("scalar-panic", x, input),
            Ok((a, (b, nb), (c, nc), d, m, m2)) => {
                let s = sum as $t;
                if a != s || d != s { $r.fail("scalar-sum", format!("stable_sum gives {a}/{d}, the plain sum is {s}"), input.clone()); }
                if b != s || nb != n { $r.fail("neumaier", format!("neumaier_summation gives ({b}, {nb}), expected ({s}, {n})"), input.clone()); }
                if c != s || nc != n { $r.fail("kahan", format!("kahan_summation gives ({c}, {nc}), expected ({s}, {n})"), input.clone()); }
                if n > 0 {
                    let e = s / n as $t;
                    let tol = 1e-6 as $t * (1.0 + e.abs());
                    if !((m - e).abs() <= tol && (m2 - e).abs() <= tol) { $r.fail("scalar-mean", format!("stable_mean gives {m}/{m2}, expected {e}"), input); }
                }
            }
        }
        // helpers
        let g = |rng: &mut Rng| (rng.below(41) as i64 - 20) as $t;
        let m: Vec<$t> = (0..9).map(|_| g($rng)).collect();
        let want = m[0] * m[4] * m[8] + m[1] * m[5] * m[6] + m[2] * m[3] * m[7] - m[2] * m[4] * m[6] - m[1] * m[3] * m[8] - m[0] * m[5] * m[7];
        let (lo, hi, x) = (g($rng), g($rng), g($rng));
        let (lo, hi) = if lo <= hi { (lo, hi) } else { (hi, lo) };
        let t = $rng.below(9) as $t / 8.0;
        let input = format!("det3 {:?}, clamp({x},{lo},{hi}), lerp({lo},{hi},{t}) as {}", m, $name);
        $r.eval(concat!("helpers ", stringify!($t)), Some(hash(&input)));
        match guard(|| (<$t as Scalar>::det3(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]), Scalar::clamp(x, lo, hi), Scalar::lerp(&lo, hi, t), Scalar::abs(x),
                        Scalar::is_about(&x, hi, lo), Scalar::max(&x, hi), Scalar::min(&x, hi), <$t as Scalar>::from_usize(n), Scalar::to_f64(x))) {
            Err(e) => $r.fail("helper-panic", e, input),
            Ok((d, c, l, a, ab, mx, mn, fu, tf)) => {
                if d != want { $r.fail("det3", format!("det3 gives {d}, the determinant is {want}"), input.clone()); }
                let wc = if x < lo { lo } else if x > hi { hi } else { x };
                if c != wc { $r.fail("clamp", format!("clamp gives {c}, expected {wc}"), input.clone()); }
                if l != lo + (hi - lo) * t { $r.fail("lerp", format!("lerp gives {l}, expected {}", lo + (hi - lo) * t), input.clone()); }
                if a != (if x < 0.0 { 0.0 - x } else { x }) { $r.fail("abs", format!("abs({x}) gives {a}"), input.clone()); }
                if ab != ((if x < hi { hi - x } else { x - hi }) < lo) { $r.fail("is_about", format!("is_about({x}, {hi}, {lo}) gives {ab}"), input.clone()); }
                if mx != (if x > hi { x } else { hi }) || mn != (if x < hi { x } else { hi }) { $r.fail("minmax", format!("max/min of {x} and {hi} give {mx}/{mn}"), input.clone()); }
                if fu != n as $t || tf != x as f64 { $r.fail("convert", format!("from_usize({n}) = {fu}, to_f64({x}) = {tf}"), input.clone()); }
            }
        }
        let c = [<$t as Scalar>::ZERO, <$t as Scalar>::ONE, <$t as Scalar>::TWO, <$t as Scalar>::THREE, <$t as Scalar>::FOUR, <$t as Scalar>::FIVE, <$t as Scalar>::TEN, <$t as Scalar>::HALF * 2.0];
        if c != [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 10.0, 1.0] { $r.fail("constants", format!("constants are {:?}", c), $name); }
    }};
}

macro_rules! vectors {
    ($r:expr, $rng:expr, $t:ty, $d:expr) => {{
        let n = match $rng.below(6) { 0 => 0, 1 => 1, 2 => 2, _ => $rng.below(12) };
        let cs: Vec<Vec<i64>> = (0..$d).map(|_| ints($rng, n)).collect();
        let vs: Vec<VecN<$t, $d>> = (0..n).map(|i| VecN::<$t, $d>::from_fn(|k, _| cs[k][i] as $t)).collect();
        let input = format!("{:?} as VecN<{}, {}>", cs, stringify!($t), $d);
        $r.eval(concat!("vector sum ", stringify!($t)), if n > 2 { Some(hash(&input)) } else { None });
        type V = VecN<$t, $d>;
        match guard(|| (<V as Vector<$t, $d>>::stable_sum(vs.iter().copied()), <V as Vector<$t, $d>>::stable_mean(vs.iter().copied()),
                        VectorIteratorExt::<$t, $d, V>::stable_sum(vs.iter().copied()), VectorIteratorExt::<$t, $d, V>::stable_mean(vs.iter().copied()))) {
            Err(x) => $r.fail("vector-panic", x, input),
            Ok((a, m, b, m2)) => {
                for k in 0..$d {
                    let s = cs[k].iter().sum::<i64>() as $t;
                    if a[k] != s || b[k] != s { $r.fail("vector-sum", format!("coordinate {k}: stable_sum gives {}/{}, the plain sum is {s}", a[k], b[k]), input.clone()); }
                    let e = s / n.max(1) as $t;
                    let tol = 1e-6 as $t * (1.0 + e.abs());
                    if n > 0 && !((m[k] - e).abs() <= tol && (m2[k] - e).abs() <= tol) { $r.fail("vector-mean", format!("coordinate {k}: stable_mean gives {}/{}, expected {}", m[k], m2[k], s / n as $t), input.clone()); }
                }
            }
        }
    }};
}

pub fn run(r: &mut Rep) {
    r.rule = "one input list (or one argument tuple) of exactly representable numbers per evaluation, compared with integer arithmetic; non-trivial when the list has more than two elements".into();
    let mut rng = r.rng(17);
    let n = r.scale(3000);
    for _ in 0..n {
        if !r.time_left() { break; }
        scalars!(r, &mut rng, f64, "f64");
        scalars!(r, &mut rng, f32, "f32");
        vectors!(r, &mut rng, f64, 2);
        vectors!(r, &mut rng, f64, 3);
        vectors!(r, &mut rng, f64, 4);
        vectors!(r, &mut rng, f32, 3);
        plane(r, &mut rng);
    }
}

fn plane(r: &mut Rep, rng: &mut Rng) {
    let g = |rng: &mut Rng| Vec2::<f64>::new(rng.below(21) as f64 - 10.0, rng.below(21) as f64 - 10.0);
    let (a, b, c) = (g(rng), g(rng), g(rng));
    let input = format!("a={a:?} b={b:?} c={c:?}");
    r.eval("plane", Some(hash(&input)));
    let area = (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x);
    match guard(|| (Vector2D::perp_dot(&a, &b), <Vec2<f64> as Vector2D>::barycentric_sign(a, b, c), Vector2D::convex(&b, a, c), Vector2D::collinear(&c, a, b, 0.0))) {
        Err(x) => r.fail("plane-panic", x, input),
        Ok((p, s, cv, co)) => {
            if p != a.x * b.y - a.y * b.x { r.fail("perp_dot", format!("perp_dot gives {p}"), input.clone()); }
            if s != area { r.fail("barycentric_sign", format!("barycentric_sign gives {s}, expected {area}"), input.clone()); }
            if area != 0.0 && cv != (area > 0.0) { r.fail("convex", format!("convex gives {cv} at twice the area {area}"), input.clone()); }
            if co != (area == 0.0) { r.fail("collinear", format!("collinear gives {co} at twice the area {area}"), input.clone()); }
        }
    }
}
