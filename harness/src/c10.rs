//! C10: every warped pixel is the interpolated value at its pre-image, or the default outside.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{Luma, Pixel, Primitive, Rgb};
use imageproc::definitions::*;
use imageproc::geometric_transformations::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Values that a sample may take: None = default, Some = per-channel closed interval.
type Want = Option<Vec<(f64, f64)>>;

fn cubic_weights(x: f64) -> [f64; 4] {
    let f = |p: [f64; 4]| p[1] + 0.5 * x * (p[2] - p[0] + x * (2.0 * p[0] - 5.0 * p[1] + 4.0 * p[2] - p[3] + x * (3.0 * (p[1] - p[2]) + p[3] - p[0])));
    std::array::from_fn(|i| f(std::array::from_fn(|j| (i == j) as u8 as f64)))
}
/// Blend of intervals, stored at the pixel type (truncated and clamped when `int`).
fn blend(vals: &[(f64, f64)], w: &[f64], int: Option<f64>, e: f64) -> (f64, f64) {
    let (mut lo, mut hi) = (0.0, 0.0);
    for (v, w) in vals.iter().zip(w) {
        lo += if *w >= 0.0 { v.0 * w } else { v.1 * w };
        hi += if *w >= 0.0 { v.1 * w } else { v.0 * w };
    }
    match int {
        Some(max) => ((lo - e).floor().clamp(0.0, max), (hi + e).floor().clamp(0.0, max)),
        None => (lo - e, hi + e),
    }
}
fn sample<T: Copy + Into<f64>>(im: &Im<T>, ch: u32, it: u8, x: f32, y: f32, int: Option<f64>, e: f64) -> Want {
    let (w, h) = (im.w as f64, im.h as f64);
    let (xd, yd) = (x as f64, y as f64);
    if xd.is_nan() || yd.is_nan() {
        return None;
    }
    let px = |x: f64, y: f64, c: u32| -> (f64, f64) {
        let v: f64 = im.d[((y as u32 * im.w + x as u32) * ch + c) as usize].into();
        (v, v)
    };
    match it {
        0 => {
            let (rx, ry) = ((xd + 0.5).floor(), (yd + 0.5).floor());
            if rx < 0.0 || ry < 0.0 || rx >= w || ry >= h {
                return None;
            }
            Some((0..ch).map(|c| px(rx, ry, c)).collect())
        }
        1 => {
            if xd < 0.0 || yd < 0.0 || xd > w - 1.0 || yd > h - 1.0 {
                return None;
            }
            let (l, t) = (xd.floor(), yd.floor());
            let (r, b) = ((l + 1.0).min(w - 1.0), (t + 1.0).min(h - 1.0));
            let (fx, fy) = (xd - l, yd - t);
            Some((0..ch).map(|c| {
                let top = blend(&[px(l, t, c), px(r, t, c)], &[1.0 - fx, fx], int, e);
                let bot = blend(&[px(l, b, c), px(r, b, c)], &[1.0 - fx, fx], int, e);
                blend(&[top, bot], &[1.0 - fy, fy], int, e)
            }).collect())
        }
        _ => {
            let (l, t) = (xd.floor() - 1.0, yd.floor() - 1.0);
            if l < 0.0 || t < 0.0 || l + 4.0 >= w || t + 4.0 >= h {
                return None;
            }
            let (wx, wy) = (cubic_weights(xd - xd.floor()), cubic_weights(yd - yd.floor()));
            Some((0..ch).map(|c| {
                let cols: Vec<(f64, f64)> = (0..4).map(|j| {
                    let row: Vec<(f64, f64)> = (0..4).map(|i| px(l + i as f64, t + j as f64, c)).collect();
                    blend(&row, &wx, int, e)
                }).collect();
                blend(&cols, &wy, int, e)
            }).collect())
        }
    }
}
fn interp(it: u8) -> Interpolation {
    [Interpolation::Nearest, Interpolation::Bilinear, Interpolation::Bicubic][it as usize % 3]
}
fn matches<T: Copy + Into<f64>>(got: &[T], want: &Want, default: &[T]) -> bool {
    match want {
        None => got.iter().zip(default).all(|(g, d)| { let (g, d): (f64, f64) = ((*g).into(), (*d).into()); g == d }),
        Some(v) => got.iter().zip(v).all(|(g, (lo, hi))| { let g: f64 = (*g).into(); g >= *lo && g <= *hi }),
    }
}

/// Explicit pre-images, one per output pixel.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct WithCase<T> {
    im: Im<T>,
    ow: u32,
    it: u8,
    /// quarter-pixel grid or arbitrary positions; NaN and infinities are encoded as None
    pre: Vec<(Option<f32>, Option<f32>)>,
    default: [T; 3],
    inf: u8,
}
fn pos(n: u32) -> BoxedStrategy<Option<f32>> {
    let nf = n as f32;
    prop_oneof![
        4 => (-2f32..nf + 1.0).prop_map(Some),
        4 => (-8i32..4 * n as i32 + 8).prop_map(|v| Some(v as f32 / 4.0)),
        4 => (0..n.max(1) as i32).prop_map(|v| Some(v as f32)),
        2 => prop::sample::select(vec![-0.5f32, -0.50001, -0.0, -1e-7, nf - 1.0, nf - 0.5, nf - 0.50001, nf, nf - 2.0, nf - 3.0, 1e9, -1e9, 1.0, 0.99999]).prop_map(Some),
        1 => Just(None),
    ].boxed()
}
fn with_case<T: Clone + Copy + std::fmt::Debug + 'static>(im: BoxedStrategy<Im<T>>, d: BoxedStrategy<T>) -> BoxedStrategy<WithCase<T>> {
    (im, 1u32..6, 1u32..6, 0u8..3)
        .prop_flat_map(move |(im, ow, oh, it)| {
            let p = (pos(im.w), pos(im.h));
            (Just(im), Just(ow), Just(it), prop::collection::vec(p, (ow * oh) as usize), [d.clone(), d.clone(), d.clone()], 0u8..3)
        })
        .prop_map(|(im, ow, it, pre, default, inf)| WithCase { im, ow, it, pre, default, inf })
        .boxed()
}
fn with_on<P, T>(c: &WithCase<T>, ch: u32, int: Option<f64>, e: f64, class: &'static str) -> R
where
    P: Pixel<Subpixel = T> + Send + Sync,
    T: Primitive + Into<f64> + Into<f32> + Clamp<f32> + Send + Sync + PartialEq + std::fmt::Debug,
{
    let im: Image<P> = c.im.buf();
    let default = *P::from_slice(&c.default[..ch as usize]);
    let oh = c.pre.len() as u32 / c.ow;
    let odd = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY][c.inf as usize % 3];
    let at = |x: f32, y: f32| {
        let (a, b) = c.pre[(y as u32 * c.ow + x as u32) as usize];
        (a.unwrap_or(odd), b.unwrap_or(odd))
    };
    // whatever the output contained before must be overwritten
    let mut out: Image<P> = Image::from_pixel(c.ow, oh, *P::from_slice(&vec![T::from(77u8).unwrap(); ch as usize]));
    warp_into_with(&im, at, interp(c.it), default, &mut out);
    ensure!(out.dimensions() == (c.ow, oh), "dimensions");
    let mut inside = false;
    for y in 0..oh {
        for x in 0..c.ow {
            let (a, b) = at(x as f32, y as f32);
            let w = sample(&c.im, ch, c.it, a, b, int, e);
            let g = out.get_pixel(x, y);
            ensure!(matches(g.channels(), &w, &c.default[..ch as usize]), "warp_into_with {:?}: pre-image ({a},{b}) of ({x},{y}) gave {:?}, want {w:?} (None = default {:?})", interp(c.it), g.channels(), c.default);
            inside |= w.is_some();
        }
    }
    // warp_with: the same sampling into an output of the input's size
    let at_any = |x: f32, y: f32| {
        let (a, b) = c.pre[(y as usize * 31 + x as usize) % c.pre.len()];
        (a.unwrap_or(odd), b.unwrap_or(odd))
    };
    let same = warp_with(&im, at_any, interp(c.it), default);
    let mut into = im.clone();
    warp_into_with(&im, at_any, interp(c.it), default, &mut into);
    ensure!(same.dimensions() == im.dimensions(), "warp_with dimensions");
    ensure!(format!("{:?}", same.as_raw()) == format!("{:?}", into.as_raw()), "warp_with differs from warp_into_with into an output of the same size");
    let _ = class;
    lab(inside, ["nearest", "bilinear", "bicubic"][c.it as usize % 3])
}
fn with_u8(c: &WithCase<u8>) -> R {
    with_on::<Luma<u8>, u8>(c, 1, Some(255.0), 2e-4, "")
}
fn with_rgb(c: &WithCase<u8>) -> R {
    with_on::<Rgb<u8>, u8>(c, 3, Some(255.0), 2e-4, "")
}
fn with_u16(c: &WithCase<u16>) -> R {
    with_on::<Luma<u16>, u16>(c, 1, Some(65535.0), 0.2, "")
}
fn with_f32(c: &WithCase<f32>) -> R {
    let m = c.im.d.iter().fold(1f32, |a, b| a.max(b.abs())) as f64;
    with_on::<Luma<f32>, f32>(c, 1, None, m * 2e-6, "")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tr {
    Translate(f32, f32),
    Rotate(f32, (f32, f32)),
    Center(f32),
    Scale(f32, f32),
    Matrix([f32; 9]),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ProjCase {
    im: Im<u8>,
    tr: Tr,
    it: u8,
    default: u8,
    ow: u32,
    oh: u32,
}
fn tr() -> BoxedStrategy<Tr> {
    let sc = || prop_oneof![0.3f32..3.0, -2f32..-0.3, Just(1f32), Just(2f32), Just(0.5f32)];
    let off = || prop_oneof![-8f32..8.0, (-8i32..8).prop_map(|v| v as f32), (-16i32..16).prop_map(|v| v as f32 / 2.0)];
    prop_oneof![
        2 => (off(), off()).prop_map(|(a, b)| Tr::Translate(a, b)),
        2 => (-7f32..7.0, (off(), off())).prop_map(|(t, c)| Tr::Rotate(t, c)),
        1 => (-7f32..7.0).prop_map(Tr::Center),
        1 => (sc(), sc()).prop_map(|(a, b)| Tr::Scale(a, b)),
        2 => (0.5f32..1.5, -0.5f32..0.5, off(), -0.5f32..0.5, 0.5f32..1.5, off()).prop_map(|(a, b, c, d, e, f)| Tr::Matrix([a, b, c, d, e, f, 0.0, 0.0, 1.0])),
        2 => (0.5f32..1.5, -0.5f32..0.5, off(), -0.5f32..0.5, 0.5f32..1.5, off(), -0.05f32..0.05, -0.05f32..0.05).prop_map(|(a, b, c, d, e, f, g, h)| Tr::Matrix([a, b, c, d, e, f, g, h, 1.0])),
    ].boxed()
}
fn rot_mat(t: f32, cx: f64, cy: f64) -> [f64; 9] {
    let (s, c) = (t as f64).sin_cos();
    [c, -s, cx - c * cx + s * cy, s, c, cy - s * cx - c * cy, 0., 0., 1.]
}
fn inv_map(t: &[f64; 9], x: f64, y: f64) -> (f64, f64) {
    let a = [
        t[4] * t[8] - t[5] * t[7], t[2] * t[7] - t[1] * t[8], t[1] * t[5] - t[2] * t[4],
        t[5] * t[6] - t[3] * t[8], t[0] * t[8] - t[2] * t[6], t[2] * t[3] - t[0] * t[5],
        t[3] * t[7] - t[4] * t[6], t[1] * t[6] - t[0] * t[7], t[0] * t[4] - t[1] * t[3],
    ];
    let d = a[6] * x + a[7] * y + a[8];
    ((a[0] * x + a[1] * y + a[2]) / d, (a[3] * x + a[4] * y + a[5]) / d)
}
/// warp, warp_into, rotate and rotate_about_center against the f64 inverse matrix.
fn projections(c: &ProjCase) -> R {
    let (w, h) = (c.im.w, c.im.h);
    let im: Image<Luma<u8>> = c.im.luma();
    let d = Luma([c.default]);
    let it = interp(c.it);
    let (p, m) = match &c.tr {
        Tr::Translate(x, y) => (Projection::translate(*x, *y), [1., 0., *x as f64, 0., 1., *y as f64, 0., 0., 1.]),
        Tr::Scale(x, y) => (Projection::scale(*x, *y), [*x as f64, 0., 0., 0., *y as f64, 0., 0., 0., 1.]),
        Tr::Rotate(t, (x, y)) => (Projection::translate(*x, *y) * Projection::rotate(*t) * Projection::translate(-*x, -*y), rot_mat(*t, *x as f64, *y as f64)),
        Tr::Center(t) => {
            let (x, y) = (w as f32 / 2.0, h as f32 / 2.0);
            (Projection::translate(x, y) * Projection::rotate(*t) * Projection::translate(-x, -y), rot_mat(*t, x as f64, y as f64))
        }
        Tr::Matrix(m) => match Projection::from_matrix(*m) {
            Some(p) => (p, std::array::from_fn(|i| m[i] as f64)),
            None => return nt(false),
        },
    };
    let mut outs: Vec<(&str, Image<Luma<u8>>)> = vec![("warp", warp(&im, &p, it, d))];
    match &c.tr {
        Tr::Rotate(t, cen) => outs.push(("rotate", rotate(&im, *cen, *t, it, d))),
        Tr::Center(t) => outs.push(("rotate_about_center", rotate_about_center(&im, *t, it, d))),
        _ => {}
    }
    for (n, o) in &outs {
        ensure!(o.dimensions() == (w, h), "{n}: dimensions {:?}", o.dimensions());
    }
    let mut o = Image::from_pixel(c.ow, c.oh, Luma([c.default ^ 1]));
    warp_into(&im, &p, it, d, &mut o);
    outs.push(("warp_into", o));
    let persp = m[6] != 0.0 || m[7] != 0.0;
    let mut inside = false;
    for (n, o) in &outs {
        for (x, y, g) in o.enumerate_pixels() {
            let q = inv_map(&m, x as f64, y as f64);
            if !q.0.is_finite() || !q.1.is_finite() || q.0.abs() > 200.0 || q.1.abs() > 200.0 {
                // next to the horizon rounding decides, but far outside only the default is right
                continue;
            }
            let e = if persp { 1e-5 * (30.0 + q.0.abs().max(q.1.abs())).powi(2) / 10.0 } else { 1e-5 * (20.0 + q.0.abs().max(q.1.abs())) };
            // Accept what any nearby pre-image gives (samples straddling a rounding boundary).
            let mut lo = f64::MAX;
            let mut hi = f64::MIN;
            let mut ok = false;
            let mut wants = vec![];
            for dx in [-e, 0.0, e] {
                for dy in [-e, 0.0, e] {
                    let s = sample(&c.im, 1, c.it, (q.0 + dx) as f32, (q.1 + dy) as f32, Some(255.0), 2e-4);
                    if let Some(v) = &s {
                        lo = lo.min(v[0].0);
                        hi = hi.max(v[0].1);
                        inside = true;
                    }
                    ok |= matches(g.channels(), &s, &[c.default]);
                    wants.push(s);
                }
            }
            if c.it != 0 && lo <= hi {
                let v = g[0] as f64;
                ok |= v >= lo - 1.0 && v <= hi + 1.0;
            }
            ensure!(ok, "{n} {it:?}: pixel ({x},{y}) with pre-image {q:?} is {}, want one of {wants:?} (None = default {})", g[0], c.default);
        }
    }
    lab(inside, match &c.tr { Tr::Translate(..) => "translate", Tr::Rotate(..) => "rotate", Tr::Center(_) => "rotate_about_center", Tr::Scale(..) => "scale", Tr::Matrix(m) => if m[6] != 0.0 { "perspective" } else { "affine" } })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct QuarterCase {
    im: Im<u8>,
    k: i32,
    it: u8,
}
/// Identity and quarter turns about the centre of the pixel grid are exact for nearest neighbour.
fn quarters(c: &QuarterCase) -> R {
    let im: Image<Rgb<u8>> = c.im.rgb();
    let (w, h) = im.dimensions();
    let d = Rgb([1, 2, 3]);
    let id = Projection::translate(0.0, 0.0);
    let same = |what: &str, a: &Image<Rgb<u8>>, b: &Image<Rgb<u8>>| -> Result<(), Fail> {
        match diff(a, b) {
            Some(m) => Err(format!("{what}: {m}").into()),
            None => Ok(()),
        }
    };
    same("identity, nearest", &warp(&im, &id, Interpolation::Nearest, d), &im)?;
    same("identity, bilinear", &warp(&im, &id, Interpolation::Bilinear, d), &im)?;
    let k = c.k.rem_euclid(4);
    let n = w.min(h);
    let sq = imageproc::compose::crop(&im, image::math::Rect { x: 0, y: 0, width: n, height: n });
    let r = rotate(&sq, ((n as f32 - 1.0) / 2.0, (n as f32 - 1.0) / 2.0), c.k as f32 * std::f32::consts::FRAC_PI_2, Interpolation::Nearest, d);
    let want = match k { 0 => sq.clone(), 1 => rotate90(&sq), 2 => rotate180(&sq), _ => rotate270(&sq) };
    same("quarter turn", &r, &want)?;
    nt(c.im.varied())
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "Random images; (a) explicit pre-images on and around pixel centres, borders, quarter positions, NaN and infinities through warp_into_with into outputs of another size, (b) translations, rotations, scalings, affine and perspective projections through warp/warp_into/rotate*, reference in f64 with interval arithmetic for stored intermediate results; non-trivial: at least one sample lies inside the image.",
        assumptions: &["bicubic samples are defined where two pixels exist on each side (as the existing tests pin)", "(b) pre-images within rounding distance of a decision boundary accept both outcomes"],
        subs: vec![
            sub("with_u8", 150000, || with_case(im_u8(s(9), s(9), 1), any::<u8>().boxed()), with_u8),
            sub("with_rgb", 60000, || with_case(im_u8(s(8), s(8), 3), any::<u8>().boxed()), with_rgb),
            sub("with_u16", 60000, || with_case(im_u16(s(8), s(8), 1), any::<u16>().boxed()), with_u16),
            sub("with_f32", 100000, || with_case(im_f32(s(9), s(9), 1), (-10f32..10.0).boxed()), with_f32),
            sub("projections", 100000, || {
                (im_u8(s(10), s(10), 1), tr(), 0u8..3, any::<u8>(), 1u32..12, 1u32..12).prop_map(|(im, tr, it, default, ow, oh)| ProjCase { im, tr, it, default, ow, oh }).boxed()
            }, projections),
            sub("exact", 60000, || (im_u8(s(12), s(12), 3), -6i32..7, 0u8..3).prop_map(|(im, k, it)| QuarterCase { im, k, it }).boxed(), quarters),
            sub("with_strip", 2000, || with_case(strip(1), any::<u8>().boxed()), with_u8),
            sub("projected strips", 1500, || (strip(1), tr(), 0u8..3, any::<u8>(), prop_oneof![1u32..12, 257u32..400], 1u32..6, any::<bool>()).prop_map(|(im, tr, it, default, a, b, t)| { let (ow, oh) = if t { (a, b) } else { (b, a) }; ProjCase { im, tr, it, default, ow, oh } }).boxed(), projections),
            sub("exact strips", 1500, || (strip(3), -400i32..400, 0u8..3).prop_map(|(im, k, it)| QuarterCase { im, k, it }).boxed(), quarters),
        ],
    }
}
