//! C09: projections map, compose and invert like their matrices.
use crate::ensure;
use crate::fw::*;
use imageproc::geometric_transformations::Projection;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

type M = [f64; 9];
fn mul(a: &M, b: &M) -> M {
    std::array::from_fn(|i| (0..3).map(|k| a[i / 3 * 3 + k] * b[k * 3 + i % 3]).sum())
}
fn adj(t: &M) -> M {
    [
        t[4] * t[8] - t[5] * t[7], t[2] * t[7] - t[1] * t[8], t[1] * t[5] - t[2] * t[4],
        t[5] * t[6] - t[3] * t[8], t[0] * t[8] - t[2] * t[6], t[2] * t[3] - t[0] * t[5],
        t[3] * t[7] - t[4] * t[6], t[1] * t[6] - t[0] * t[7], t[0] * t[4] - t[1] * t[3],
    ]
}
fn det(t: &M) -> f64 {
    t[0] * (t[4] * t[8] - t[5] * t[7]) - t[1] * (t[3] * t[8] - t[5] * t[6]) + t[2] * (t[3] * t[7] - t[4] * t[6])
}
/// The exact image of a point with an error bound for `c` rounding units, or None next to the horizon.
fn map(t: &M, p: (f64, f64), c: f64) -> Option<((f64, f64), (f64, f64))> {
    let row = |i: usize| (t[i] * p.0 + t[i + 1] * p.1 + t[i + 2], (t[i] * p.0).abs() + (t[i + 1] * p.1).abs() + t[i + 2].abs());
    let ((nx, ax), (ny, ay), (d, ad)) = (row(0), row(3), row(6));
    if d.abs() < 1e-3 * ad || d == 0.0 {
        return None;
    }
    let u = c * 6e-8;
    let e = |n: f64, a: f64| u * (a / d.abs() + n.abs() * ad / (d * d)) + 1e-30;
    Some(((nx / d, ny / d), (e(nx, ax), e(ny, ay))))
}
fn close(what: &str, got: (f32, f32), want: (f64, f64), tol: (f64, f64)) -> Result<(), Fail> {
    ensure!((got.0 as f64 - want.0).abs() <= tol.0 && (got.1 as f64 - want.1).abs() <= tol.1, "{what}: {got:?}, want {want:?} within {tol:?}");
    Ok(())
}
fn f(m: &M) -> [f32; 9] {
    std::array::from_fn(|i| m[i] as f32)
}
fn d(m: &[f32; 9]) -> M {
    std::array::from_fn(|i| m[i] as f64)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntCase {
    m: [i32; 9],
    p: (i32, i32),
}
/// Small integer matrices: every intermediate value is exact, including for a zero corner entry.
fn ints(c: &IntCase) -> R {
    let m: M = std::array::from_fn(|i| c.m[i] as f64);
    let (x, y) = (c.p.0 as f64, c.p.1 as f64);
    let pt = (c.p.0 as f32, c.p.1 as f32);
    let dt = det(&m);
    let p = Projection::from_matrix(f(&m));
    ensure!(p.is_some() == (dt != 0.0), "from_matrix({:?}) is {p:?} but the determinant is {dt}", c.m);
    let Some(p) = p else { return lab(true, "singular") };
    let mut any = false;
    if let Some((w, e)) = map(&m, (x, y), 20.0) {
        close("p * point", p * pt, w, e)?;
        close("&p * &point", &p * &pt, w, e)?;
        any = true;
    }
    let im = adj(&m);
    if let Some((w, e)) = map(&im, (x, y), 30.0) {
        close("p.invert() * point", p.invert() * pt, w, e)?;
        any = true;
    }
    if let Some((w, e)) = map(&m, (x, y), 20.0) {
        close("p.invert().invert() * point", p.invert().invert() * pt, w, e)?;
    }
    lab(any, if c.m[8] == 0 { "zero corner" } else if c.m[6] == 0 && c.m[7] == 0 { "affine" } else { "projective" })
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Prim {
    T(f32, f32),
    R(f32),
    S(f32, f32),
    /// general affine: 4 linear coefficients (well conditioned) and an offset
    A([f32; 6]),
    /// weak perspective
    P(f32, f32),
    Inv(Box<Prim>),
}
fn prim() -> BoxedStrategy<Prim> {
    let sc = || prop_oneof![0.3f32..3.0, -3f32..-0.3];
    prop_oneof![
        3 => (-50f32..50.0, -50f32..50.0).prop_map(|(a, b)| Prim::T(a, b)),
        2 => (-20i32..20, -20i32..20).prop_map(|(a, b)| Prim::T(a as f32, b as f32)),
        3 => (-7f32..7.0).prop_map(Prim::R),
        3 => (sc(), sc()).prop_map(|(a, b)| Prim::S(a, b)),
        3 => (0.7f32..1.4, -0.3f32..0.3, -20f32..20.0, -0.3f32..0.3, 0.7f32..1.4, -20f32..20.0).prop_map(|(a, b, c, d, e, f)| Prim::A([a, b, c, d, e, f])),
        2 => (-0.002f32..0.002, -0.002f32..0.002).prop_map(|(a, b)| Prim::P(a, b)),
    ].boxed()
}
fn prims() -> BoxedStrategy<Vec<Prim>> {
    let p = prop_oneof![4 => prim(), 1 => prim().prop_map(|p| Prim::Inv(Box::new(p)))];
    prop::collection::vec(p, 1..5).boxed()
}
impl Prim {
    fn proj(&self) -> Projection {
        match self {
            Prim::T(x, y) => Projection::translate(*x, *y),
            Prim::R(t) => Projection::rotate(*t),
            Prim::S(x, y) => Projection::scale(*x, *y),
            Prim::A(a) => Projection::from_matrix([a[0], a[1], a[2], a[3], a[4], a[5], 0.0, 0.0, 1.0]).expect("invertible affine matrix rejected"),
            Prim::P(a, b) => Projection::from_matrix([1.0, 0.0, 0.0, 0.0, 1.0, 0.0, *a, *b, 1.0]).expect("invertible matrix rejected"),
            Prim::Inv(p) => p.proj().invert(),
        }
    }
    fn mat(&self) -> M {
        match self {
            Prim::T(x, y) => [1., 0., *x as f64, 0., 1., *y as f64, 0., 0., 1.],
            Prim::R(t) => {
                let (s, c) = (*t as f64).sin_cos();
                [c, -s, 0., s, c, 0., 0., 0., 1.]
            }
            Prim::S(x, y) => [*x as f64, 0., 0., 0., *y as f64, 0., 0., 0., 1.],
            Prim::A(a) => d(&[a[0], a[1], a[2], a[3], a[4], a[5], 0.0, 0.0, 1.0]),
            Prim::P(a, b) => d(&[1.0, 0.0, 0.0, 0.0, 1.0, 0.0, *a, *b, 1.0]),
            Prim::Inv(p) => {
                let m = p.mat();
                let t = det(&m);
                adj(&m).map(|v| v / t)
            }
        }
    }
}
const ID: M = [1., 0., 0., 0., 1., 0., 0., 0., 1.];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ChainCase {
    ps: Vec<Prim>,
    pts: Vec<(f32, f32)>,
    split: u8,
}
fn chain(c: &ChainCase) -> R {
    // apply ps[0] first
    let m = c.ps.iter().fold(ID, |a, p| mul(&p.mat(), &a));
    let n = c.ps.len();
    let left = c.ps.iter().skip(1).fold(c.ps[0].proj(), |a, p| p.proj() * a);
    let then = c.ps.iter().skip(1).fold(c.ps[0].proj(), |a, p| a.and_then(p.proj()));
    let refs = c.ps.iter().skip(1).fold(c.ps[0].proj(), |a, p| &p.proj() * &a);
    let k = c.split as usize % n + 1;
    let group = |s: &[Prim]| s.iter().skip(1).fold(s[0].proj(), |a, p| p.proj() * a);
    let split = if k < n { group(&c.ps[k..]) * group(&c.ps[..k]) } else { left };
    // (A B)^-1 = B^-1 A^-1
    let inv2 = c.ps.iter().rev().skip(1).fold(c.ps[n - 1].proj().invert(), |a, p| p.proj().invert() * a);
    let inv = adj(&m).map(|v| v / det(&m));
    let mut used = 0;
    for p in &c.pts {
        let q = (p.0 as f64, p.1 as f64);
        // intermediate cancellation is bounded by the size of the parts
        let tol = |w: (f64, f64), m: &M| {
            let dd = (m[6] * q.0 + m[7] * q.1 + m[8]).abs();
            let s = 4e-4 * (200.0 + w.0.abs().max(w.1.abs())) * (1.0 + m[8].abs().max(1.0) / dd).powi(2);
            (s, s)
        };
        if let Some((w, _)) = map(&m, q, 1.0) {
            let dd = (m[6] * q.0 + m[7] * q.1 + m[8]).abs() / m[8].abs();
            if dd > 0.2 && w.0.abs() < 5e3 && w.1.abs() < 5e3 && m[8].abs() > 0.2 {
                let t = tol(w, &m);
                close("composition (p * q)", left * *p, w, t)?;
                close("and_then", then * *p, w, t)?;
                close("composition by reference", refs * *p, w, t)?;
                close("composition grouped differently", split * *p, w, t)?;
                close("double inverse", left.invert().invert() * *p, w, t)?;
                // one factor at a time
                let mut x = *p;
                for s in &c.ps {
                    x = s.proj() * x;
                }
                close("factors applied in turn", x, w, t)?;
                used += 1;
            }
        }
        if let Some((w, _)) = map(&inv, q, 1.0) {
            let dd = (inv[6] * q.0 + inv[7] * q.1 + inv[8]).abs() / inv[8].abs();
            if dd > 0.2 && w.0.abs() < 5e3 && w.1.abs() < 5e3 && inv[8].abs() > 0.2 {
                let t = tol(w, &inv);
                close("inverse of the composition", left.invert() * *p, w, t)?;
                close("composition of the inverses", inv2 * *p, w, t)?;
                used += 1;
            }
        }
    }
    lab(used > 0 && n > 1, if c.ps.iter().any(|p| matches!(p, Prim::P(..))) { "with perspective" } else { "affine" })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct PrimCase {
    p: Prim,
    pt: (f32, f32),
}
/// Single constructors, to rounding accuracy.
fn single(c: &PrimCase) -> R {
    let m = c.p.mat();
    let (w, e) = map(&m, (c.pt.0 as f64, c.pt.1 as f64), 12.0).ok_or("horizon")?;
    close("constructor", c.p.proj() * c.pt, w, e)?;
    let p2 = Projection::from_matrix(f(&m)).ok_or("from_matrix rejected an invertible matrix")?;
    close("from_matrix", p2 * c.pt, w, e)?;
    // any nonzero multiple of the matrix is the same projection
    let p3 = Projection::from_matrix(f(&m.map(|v| v * -2.5))).ok_or("from_matrix rejected a scaled matrix")?;
    close("from_matrix (scaled)", p3 * c.pt, w, (e.0 * 3.0, e.1 * 3.0))?;
    let im = adj(&m).map(|v| v / det(&m));
    let (w, e) = map(&im, (c.pt.0 as f64, c.pt.1 as f64), 40.0).ok_or("horizon")?;
    close("inverse", c.p.proj().invert() * c.pt, w, e)?;
    close("from_matrix inverse", p2.invert() * c.pt, w, e)?;
    nt(true)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CtlCase {
    ps: Vec<Prim>,
    base: (f32, f32, f32, f32),
    jit: [(f32, f32); 4],
    rot: u8,
    pt: (f32, f32),
}
/// from_control_points maps its pairs and is the unique projection through them.
fn control(c: &CtlCase) -> R {
    let (x, y, w, h) = c.base;
    let corners = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)];
    let mut from: [(f32, f32); 4] = std::array::from_fn(|i| (corners[i].0 + c.jit[i].0 * w, corners[i].1 + c.jit[i].1 * h));
    match c.rot % 5 {
        4 => from.swap(1, 2),
        r => from.rotate_left(r as usize),
    }
    let m = c.ps.iter().fold(ID, |a, p| mul(&p.mat(), &a));
    if m[8].abs() < 0.3 {
        return nt(false);
    }
    let img = |p: (f32, f32)| map(&m, (p.0 as f64, p.1 as f64), 1.0).map(|v| v.0);
    let mut to = [(0f32, 0f32); 4];
    for i in 0..4 {
        let dd = (m[6] * from[i].0 as f64 + m[7] * from[i].1 as f64 + m[8]) / m[8];
        match img(from[i]) {
            Some(v) if dd > 0.3 && v.0.abs() < 2e4 && v.1.abs() < 2e4 => to[i] = (v.0 as f32, v.1 as f32),
            _ => return nt(false),
        }
    }
    let p = Projection::from_control_points(from, to).ok_or_else(|| format!("from_control_points({from:?}, {to:?}) is None"))?;
    let scale = to.iter().fold(1f64, |a, p| a.max(p.0.abs() as f64).max(p.1.abs() as f64)) + from.iter().fold(1f64, |a, p| a.max(p.0.abs() as f64).max(p.1.abs() as f64));
    let t = scale * 4e-4;
    for i in 0..4 {
        close("control point", p * from[i], (to[i].0 as f64, to[i].1 as f64), (t, t))?;
        close("control point, inverted", p.invert() * to[i], (from[i].0 as f64, from[i].1 as f64), (t * 20.0, t * 20.0))?;
    }
    // inside the quadrilateral
    let (u, v) = (c.pt.0 as f64, c.pt.1 as f64);
    let q = ((x as f64 + u * w as f64) as f32, (y as f64 + v * h as f64) as f32);
    let dd = (m[6] * q.0 as f64 + m[7] * q.1 as f64 + m[8]) / m[8];
    if dd > 0.3 {
        if let Some(v) = img(q) {
            close("point between the control points", p * q, v, (t * 4.0, t * 4.0))?;
        }
    }
    nt(true)
}

/// Matrices next to the border between the special cases (identity, translation, affine, projective).
#[derive(Clone, Debug, Serialize, Deserialize)]
struct NearCase {
    a: [f32; 9],
    b: [f32; 9],
    pt: (f32, f32),
}
fn near(c: &NearCase) -> R {
    let q = (c.pt.0 as f64, c.pt.1 as f64);
    let (ma, mb) = (d(&c.a), d(&c.b));
    let get = |m: &[f32; 9]| Projection::from_matrix(*m).ok_or_else(|| format!("from_matrix({m:?}) is None"));
    let (a, b) = (get(&c.a)?, get(&c.b)?);
    let mut used = 0;
    for (what, p, m, u) in [
        ("p * point", a, ma, 20.0),
        ("p.invert() * point", a.invert(), adj(&ma), 60.0),
        ("(p * q) * point", a * b, mul(&ma, &mb), 60.0),
        ("p.and_then(q) * point", a.and_then(b), mul(&mb, &ma), 60.0),
        ("(p * q).invert() * point", (a * b).invert(), adj(&mul(&ma, &mb)), 150.0),
    ] {
        let row = |i: usize| (m[i] * q.0 + m[i + 1] * q.1 + m[i + 2]).abs();
        // well away from the horizon, and with intermediate values of the size of the coordinates
        if row(6) < 0.2 * m[8].abs() {
            continue;
        }
        let Some((w, e)) = map(&m, q, u) else { continue };
        let off = m.iter().fold(0f64, |s, v| s.max(v.abs())) * 1e-7 * u;
        close(what, p * c.pt, w, (e.0 + off, e.1 + off))?;
        used += 1;
    }
    let exact = c.a.iter().zip(&ID).filter(|(a, i)| **a as f64 != **i).count();
    lab(used > 0 && exact > 0, if c.a[6] != 0.0 || c.a[7] != 0.0 { "perspective" } else { "affine" })
}
fn nearly() -> BoxedStrategy<[f32; 9]> {
    let e = || prop_oneof![4 => Just(0f32), 3 => (-9f32..-1.5, any::<bool>()).prop_map(|(x, s)| if s { 10f32.powf(x) } else { -10f32.powf(x) })];
    let t = || prop_oneof![2 => Just(0f32), 1 => -30f32..30.0];
    // the perspective entries stay below 1/|coordinate|
    let g = || prop_oneof![4 => Just(0f32), 1 => (-9f32..-5.5, any::<bool>()).prop_map(|(x, s)| if s { 10f32.powf(x) } else { -10f32.powf(x) })];
    ([e(), e(), e(), e()], [t(), t()], [g(), g()]).prop_map(|(l, t, g)| [1.0 + l[0], l[1], t[0], l[2], 1.0 + l[3], t[1], g[0], g[1], 1.0]).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "Random small-integer matrices (exactly singular ones and ones with a zero corner included), constructor chains of up to four factors with inverses, and random control quadrilaterals; reference is f64 homogeneous arithmetic; non-trivial: a mapped point away from the horizon was compared (or a singular matrix rejected).",
        assumptions: &["points within 0.1% of the horizon are not compared", "chains use well-conditioned factors"],
        subs: vec![
            sub("integer_matrices", 400000, || {
                let e = || prop_oneof![2 => -3i32..=3, 1 => Just(0)];
                let corner = prop::sample::select(vec![0, 0, 1, 1, 2, -1, -2, 4]);
                (prop::collection::vec(e(), 8), corner, prop_oneof![1 => Just(true), 2 => Just(false)], (-30i32..30, -30i32..30)).prop_map(|(v, c, aff, p)| {
                    let mut m: [i32; 9] = std::array::from_fn(|i| if i < 8 { v[i] } else { c });
                    if aff { m[6] = 0; m[7] = 0; }
                    IntCase { m, p }
                }).boxed()
            }, ints),
            sub("single", 200000, || (prim(), (-200f32..200.0, -200f32..200.0)).prop_map(|(p, pt)| PrimCase { p, pt }).boxed(), single),
            sub("near_classes", 300000, || {
                let x = || prop_oneof![-100f32..100.0, -3000f32..3000.0, -100_000f32..100_000.0];
                (nearly(), nearly(), (x(), x())).prop_map(|(a, b, pt)| NearCase { a, b, pt }).boxed()
            }, near),
            sub("chains", 200000, || (prims(), prop::collection::vec((-100f32..100.0, -100f32..100.0), 1..4), any::<u8>()).prop_map(|(ps, pts, split)| ChainCase { ps, pts, split }).boxed(), chain),
            sub("control_points", 60000, || {
                let j = || (-0.2f32..0.2, -0.2f32..0.2);
                (prims(), prop_oneof![3 => (-50f32..50.0, -50f32..50.0, 20f32..200.0, 20f32..200.0), 1 => (-3000f32..3000.0, -3000f32..3000.0, 20f32..4000.0, 20f32..4000.0), 1 => (-3f32..3.0, -3f32..3.0, 0.5f32..4.0, 0.5f32..4.0)], [j(), j(), j(), j()], any::<u8>(), (0.2f32..0.8, 0.2f32..0.8))
                    .prop_map(|(ps, base, jit, rot, pt)| CtlCase { ps, base, jit, rot, pt }).boxed()
            }, control),
        ],
    }
}
