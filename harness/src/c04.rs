//! C04: one-dimensional, separable and Gaussian filters agree with their definitions.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{GrayImage, Luma, LumaA, Rgb, Rgba};
use imageproc::definitions::*;
use imageproc::filter::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SepCase<T, K> {
    im: Im<T>,
    h: Vec<K>,
    v: Vec<K>,
}
fn sep<T: Clone + std::fmt::Debug + 'static, K: Clone + std::fmt::Debug + 'static>(im: BoxedStrategy<Im<T>>, e: BoxedStrategy<K>) -> BoxedStrategy<SepCase<T, K>> {
    let k = prop_oneof![3 => 1usize..=6, 1 => 1usize..=14].prop_flat_map(move |n| (prop::collection::vec(e.clone(), n), prop::collection::vec(e.clone(), n)));
    (im, k).prop_map(|(im, (h, v))| SepCase { im, h, v }).boxed()
}
fn cmp<T: Copy + Into<f64>>(what: &str, got: &[T], want: &[f64], tol: f64) -> Result<(), Fail> {
    ensure!(got.len() == want.len(), "{what}: output has {} subpixels, want {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let g: f64 = (*g).into();
        ensure!((g - w).abs() <= tol, "{what}: subpixel {i} is {g}, want {w}");
    }
    Ok(())
}
fn to_u8(v: &[f64]) -> Vec<u8> {
    v.iter().map(|x| x.clamp(0., 255.) as u8).collect()
}
macro_rules! u8_case {
    ($name:ident, $px:ty, $ch:expr) => {
        fn $name(c: &SepCase<u8, i32>) -> R {
            let im: Image<$px> = c.im.buf();
            let n = c.h.len() as u32;
            let hw = to_u8(&reference(&c.im, $ch, &c.h, n, 1));
            let vw = to_u8(&reference(&c.im, $ch, &c.v, 1, n));
            let h = horizontal_filter(&im, &c.h);
            ensure!(h.dimensions() == im.dimensions(), "dimensions");
            cmp("horizontal_filter", h.as_raw(), &hw.iter().map(|v| *v as f64).collect::<Vec<_>>(), 0.0)?;
            let v = vertical_filter(&im, &c.v);
            ensure!(v.dimensions() == im.dimensions(), "dimensions");
            cmp("vertical_filter", v.as_raw(), &vw.iter().map(|v| *v as f64).collect::<Vec<_>>(), 0.0)?;
            // the row pass is stored at the pixel type before the column pass
            let mid = Im { w: c.im.w, h: c.im.h, d: hw };
            let sw = to_u8(&reference(&mid, $ch, &c.v, 1, n));
            let s = separable_filter(&im, &c.h, &c.v);
            cmp("separable_filter", s.as_raw(), &sw.iter().map(|v| *v as f64).collect::<Vec<_>>(), 0.0)?;
            let ew = to_u8(&reference(&mid, $ch, &c.h, 1, n));
            let e = separable_filter_equal(&im, &c.h);
            cmp("separable_filter_equal", e.as_raw(), &ew.iter().map(|v| *v as f64).collect::<Vec<_>>(), 0.0)?;
            nt(c.im.varied() && n > 1)
        }
    };
}
u8_case!(gray_u8, Luma<u8>, 1);
u8_case!(la_u8, LumaA<u8>, 2);
u8_case!(rgb_u8, Rgb<u8>, 3);
u8_case!(rgba_u8, Rgba<u8>, 4);

fn outer<K: Copy + Into<f64>>(h: &[K], v: &[K]) -> Vec<f64> {
    v.iter().flat_map(|b| h.iter().map(move |a| (*a).into() * (*b).into())).collect()
}
// No overflow and no rounding: the result must be the correlation with the outer product.
fn outer_i32(c: &SepCase<i16, i32>) -> R {
    let im = Im { w: c.im.w, h: c.im.h, d: c.im.d.iter().map(|v| *v as i32).collect::<Vec<_>>() };
    let n = c.h.len() as u32;
    let buf: Image<Luma<i32>> = im.luma();
    let s = separable_filter(&buf, &c.h, &c.v);
    cmp("separable_filter vs outer product", s.as_raw(), &reference(&im, 1, &outer(&c.h, &c.v), n, n), 0.0)?;
    let s = separable_filter_equal(&buf, &c.v);
    cmp("separable_filter_equal vs outer product", s.as_raw(), &reference(&im, 1, &outer(&c.v, &c.v), n, n), 0.0)?;
    nt(im.varied() && n > 1)
}
fn outer_f32(c: &SepCase<i16, i16>) -> R {
    let im = Im { w: c.im.w, h: c.im.h, d: c.im.d.iter().map(|v| *v as f32 / 4.0).collect::<Vec<_>>() };
    let h: Vec<f32> = c.h.iter().map(|v| *v as f32 / 8.0).collect();
    let v: Vec<f32> = c.v.iter().map(|v| *v as f32 / 8.0).collect();
    let n = h.len() as u32;
    let buf: Image<Luma<f32>> = im.luma();
    cmp("horizontal_filter f32", horizontal_filter(&buf, &h).as_raw(), &reference(&im, 1, &h, n, 1), 0.0)?;
    cmp("vertical_filter f32", vertical_filter(&buf, &v).as_raw(), &reference(&im, 1, &v, 1, n), 0.0)?;
    cmp("separable_filter f32 vs outer product", separable_filter(&buf, &h, &v).as_raw(), &reference(&im, 1, &outer(&h, &v), n, n), 0.0)?;
    nt(im.varied() && n > 1)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LenCase {
    im: Im<u8>,
    a: Vec<i32>,
    b: Vec<i32>,
}
fn lens(c: &LenCase) -> R {
    let im: GrayImage = c.im.luma();
    let r = no_panic(|| separable_filter(&im, &c.a, &c.b));
    ensure!(r.is_err() == (c.a.len() != c.b.len()), "separable_filter with kernel lengths {} and {}: {:?}", c.a.len(), c.b.len(), r.err());
    // the one-dimensional filters take any lengths
    let h = horizontal_filter(&im, &c.a);
    cmp("horizontal_filter", h.as_raw(), &reference(&c.im, 1, &c.a, c.a.len() as u32, 1).iter().map(|v| v.clamp(0., 255.)).collect::<Vec<_>>(), 0.0)?;
    let v = vertical_filter(&im, &c.b);
    cmp("vertical_filter", v.as_raw(), &reference(&c.im, 1, &c.b, 1, c.b.len() as u32).iter().map(|v| v.clamp(0., 255.)).collect::<Vec<_>>(), 0.0)?;
    nt(c.im.varied())
}

/// The sampled, normalised Gaussian of radius ceil(2 sigma).
fn gauss(sigma: f32) -> Vec<f64> {
    let r = (2.0 * sigma).ceil() as i64;
    let s = sigma as f64;
    let k: Vec<f64> = (-r..=r).map(|i| (-((i * i) as f64) / (2.0 * s * s)).exp()).collect();
    let t: f64 = k.iter().sum();
    k.iter().map(|v| v / t).collect()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct GCase<T> {
    im: Im<T>,
    sigma: f32,
    amount: f32,
}
fn gcase<T: Clone + std::fmt::Debug + 'static>(im: BoxedStrategy<Im<T>>) -> BoxedStrategy<GCase<T>> {
    let sg = prop_oneof![4 => 0.05f32..3.0, 1 => 3f32..12.0, 1 => 12f32..45.0, 1 => prop::sample::select(vec![0.5f32, 1.0, 1.5, 2.0, 0.25, 3.0])];
    (im, sg, prop_oneof![4 => 0f32..3.0, 3 => -1f32..0.0, 2 => -12f32..12.0, 1 => -300f32..300.0]).prop_map(|(im, sigma, amount)| GCase { im, sigma, amount }).boxed()
}
fn gauss_f32(c: &GCase<f32>) -> R {
    let k = gauss(c.sigma);
    let n = k.len() as u32;
    let m = c.im.d.iter().fold(1f32, |a, b| a.max(b.abs())) as f64;
    let h = Im { w: c.im.w, h: c.im.h, d: reference(&c.im, 1, &k, n, 1) };
    let want = reference(&h, 1, &k, 1, n);
    let g = gaussian_blur_f32(&c.im.luma(), c.sigma);
    ensure!(g.dimensions() == (c.im.w, c.im.h), "dimensions");
    cmp("gaussian_blur_f32", g.as_raw(), &want, m * (2e-5 + 3e-7 * n as f64))?;
    nt(c.im.varied())
}
fn gauss_rgb_f32(c: &GCase<f32>) -> R {
    let k = gauss(c.sigma);
    let n = k.len() as u32;
    let m = c.im.d.iter().fold(1f32, |a, b| a.max(b.abs())) as f64;
    let h = Im { w: c.im.w, h: c.im.h, d: reference(&c.im, 3, &k, n, 1) };
    let want = reference(&h, 3, &k, 1, n);
    let g = gaussian_blur_f32::<Rgb<f32>>(&c.im.buf(), c.sigma);
    cmp("gaussian_blur_f32 rgb", g.as_raw(), &want, m * (2e-5 + 3e-7 * n as f64))?;
    nt(c.im.varied())
}
fn floors(v: &[f64], e: f64) -> (Vec<f64>, Vec<f64>) {
    (v.iter().map(|x| (x - e).floor().max(0.0)).collect(), v.iter().map(|x| (x + e).floor()).collect())
}
// Stored as u8 (truncated) after each pass; `e` covers the f32 rounding.
fn gauss_u8(c: &GCase<u8>, ch: u32, out: &[u8]) -> Result<(), Fail> {
    let k = gauss(c.sigma);
    let n = k.len() as u32;
    let e = 2e-3 + 3e-5 * n as f64;
    let (lo, hi) = floors(&reference(&c.im, ch, &k, n, 1), e);
    let (w, h) = (c.im.w, c.im.h);
    let lo = floors(&reference(&Im { w, h, d: lo }, ch, &k, 1, n), e).0;
    let hi = floors(&reference(&Im { w, h, d: hi }, ch, &k, 1, n), e).1;
    ensure!(out.len() == lo.len(), "size");
    for i in 0..out.len() {
        let v = out[i] as f64;
        ensure!(v >= lo[i] && v <= hi[i], "gaussian_blur_f32 (u8): subpixel {i} is {v}, want {}..={}", lo[i], hi[i]);
    }
    Ok(())
}
fn gauss_gray(c: &GCase<u8>) -> R {
    gauss_u8(c, 1, gaussian_blur_f32::<Luma<u8>>(&c.im.luma(), c.sigma).as_raw())?;
    nt(c.im.varied())
}
fn gauss_rgba(c: &GCase<u8>) -> R {
    gauss_u8(c, 4, gaussian_blur_f32::<Rgba<u8>>(&c.im.rgba(), c.sigma).as_raw())?;
    nt(c.im.varied())
}
fn sharpen(c: &GCase<u8>) -> R {
    let k = gauss(c.sigma);
    let n = k.len() as u32;
    let (w, h) = (c.im.w, c.im.h);
    let sm = reference(&Im { w, h, d: reference(&c.im, 1, &k, n, 1) }, 1, &k, 1, n);
    let out = sharpen_gaussian(&c.im.luma(), c.sigma, c.amount);
    ensure!(out.dimensions() == (w, h), "dimensions");
    let a = c.amount as f64;
    for i in 0..sm.len() {
        let e = ((1.0 + a) * c.im.d[i] as f64 - a * sm[i]).clamp(0., 255.);
        // the smoothed value is off by up to about 0.005, which the amount multiplies
        let tol = 0.015 + 0.005 * a.abs();
        let (lo, hi) = ((e - tol).floor().max(0.), (e + tol).floor().min(255.));
        let v = out.as_raw()[i] as f64;
        ensure!(v >= lo && v <= hi, "sharpen_gaussian: pixel {i} is {v}, want {lo}..={hi} ({e})");
    }
    nt(c.im.varied() && a != 0.0)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
/// The bits of an f32 (JSON has no NaN).
struct Sig(u32);
fn sigma(c: &Sig) -> R {
    let s = f32::from_bits(c.0);
    let im = GrayImage::from_pixel(3, 3, Luma([9]));
    let r = no_panic(|| gaussian_blur_f32(&im, s)).is_err();
    ensure!(r == !(s > 0.0), "gaussian_blur_f32 with sigma {s}: panicked = {r}");
    nt(!(s > 0.0))
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "Random images and kernels (any length, also longer than the image); reference is a direct double sum per pass, the outer product where no rounding can occur, and interval bounds where results are truncated to u8; non-trivial: the image varies and the kernel has more than one tap.",
        assumptions: &["sigma in [0.05, 160]", "the row pass result is stored at the pixel type before the column pass"],
        subs: vec![
            sub("gray_u8", 150000, || sep(im_u8(s(14), s(14), 1), prop_oneof![3 => -4i32..5, 1 => -50i32..50].boxed()), gray_u8),
            sub("la_u8", 50000, || sep(im_u8(s(9), s(9), 2), (-3i32..4).boxed()), la_u8),
            sub("rgb_u8", 80000, || sep(im_u8(s(9), s(9), 3), (-3i32..4).boxed()), rgb_u8),
            sub("rgba_u8", 50000, || sep(im_u8(s(9), s(9), 4), (-3i32..4).boxed()), rgba_u8),
            sub("outer_i32", 80000, || sep(im_i16(s(10), s(10), 1), (-9i32..10).boxed()), outer_i32),
            sub("outer_f32", 80000, || sep(im_of(s(10), s(10), 1, (-200i16..200).boxed()), (-12i16..12).boxed()), outer_f32),
            sub("lengths", 60000, || {
                let v = || prop::collection::vec(-3i32..4, 0..7);
                (im_u8(s(8), s(8), 1), v(), v()).prop_map(|(im, a, b)| LenCase { im, a, b }).boxed()
            }, lens),
            sub("gauss_f32", 60000, || gcase(im_f32(s(12), s(12), 1)), gauss_f32),
            sub("gauss_rgb_f32", 30000, || gcase(im_f32(s(8), s(8), 3)), gauss_rgb_f32),
            sub("gauss_gray", 60000, || gcase(im_u8(s(14), s(14), 1)), gauss_gray),
            sub("gauss_rgba", 30000, || gcase(im_u8(s(7), s(7), 4)), gauss_rgba),
            sub("sharpen", 60000, || gcase(im_u8(s(12), s(12), 1)), sharpen),
            sub("sigma", 300, || prop_oneof![Just(0f32), Just(-0f32), Just(f32::NAN), -5f32..5.0].prop_map(|s| Sig(s.to_bits())).boxed(), sigma),
            sub("large kernels", 2000, || (prop_oneof![im_u8(s(12), s(12), 1), im_u8(s(50), s(50), 1)], 1usize..64, any::<u64>()).prop_map(|(im, n, seed)| { let mut k = lcg(seed); SepCase { im, h: (0..n).map(|_| k(5) as i32 - 2).collect(), v: (0..n).map(|_| k(5) as i32 - 2).collect() } }).boxed(), gray_u8),
            sub("strips", 1000, || sep(strip(1), (-4i32..5).boxed()), gray_u8),
            sub("long kernels", 600, || {
                (prop_oneof![im_u8(s(8), s(8), 1), strip(1)], prop::collection::vec((-1i32..2, -1i32..2), 250..310)).prop_map(|(im, k)| { let (h, v) = k.into_iter().unzip(); SepCase { im, h, v } }).boxed()
            }, gray_u8),
            sub("wide sigma", 300, || (prop_oneof![im_f32(s(20), s(20), 1), im_f32(s(3), (257u32..420).boxed(), 1), im_f32((257u32..420).boxed(), s(3), 1)], 40f32..160.0).prop_map(|(im, sigma)| GCase { im, sigma, amount: 0.0 }).boxed(), gauss_f32),
            sub("wide sigma gray", 300, || (prop_oneof![im_u8(s(20), s(20), 1), short_strip(1)], 40f32..130.0).prop_map(|(im, sigma)| GCase { im, sigma, amount: 0.0 }).boxed(), gauss_gray),
            sub("gauss strips", 400, || gcase(strip(1)), gauss_gray),
        ],
    }
}
