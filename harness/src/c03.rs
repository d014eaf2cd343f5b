//! C03: 2-D filtering equals the correlation sum over the edge-replicated image.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{GrayImage, Luma, LumaA, Pixel, Rgb, Rgba};
use imageproc::definitions::*;
use imageproc::filter::*;
use imageproc::kernel::{self, Kernel};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KCase<T, K> {
    im: Im<T>,
    kw: u32,
    kh: u32,
    k: Vec<K>,
}
fn kcase<T: Clone + std::fmt::Debug + 'static, K: Clone + std::fmt::Debug + 'static>(im: BoxedStrategy<Im<T>>, e: BoxedStrategy<K>) -> BoxedStrategy<KCase<T, K>> {
    let k = (prop_oneof![3 => 1u32..=5, 1 => 1u32..=9], prop_oneof![3 => 1u32..=5, 1 => 1u32..=9])
        .prop_flat_map(move |(w, h)| (Just(w), Just(h), prop::collection::vec(e.clone(), (w * h) as usize)));
    (im, k).prop_map(|(im, (kw, kh, k))| KCase { im, kw, kh, k }).boxed()
}
fn same<T: Copy + Into<f64>>(what: &str, got: &[T], dims: (u32, u32), im: (u32, u32), want: &[f64], tol: f64) -> Result<(), Fail> {
    ensure!(dims == im, "{what}: output dimensions {dims:?} for an image of {im:?}");
    ensure!(got.len() == want.len(), "{what}: output length");
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let g: f64 = (*g).into();
        ensure!((g - w).abs() <= tol, "{what}: subpixel {i} is {g}, want {w}");
    }
    Ok(())
}
fn clampv(v: &[f64], lo: f64, hi: f64) -> Vec<f64> {
    v.iter().map(|x| x.clamp(lo, hi)).collect()
}


fn gray_i32(c: &KCase<u8, i32>) -> R {
    let im: GrayImage = c.im.luma();
    let k = Kernel::new(&c.k, c.kw, c.kh);
    let want = reference(&c.im, 1, &c.k, c.kw, c.kh);
    let d = (c.im.w, c.im.h);
    let a: Image<Luma<i32>> = filter(&im, k, |v: i32| v);
    same("filter", a.as_raw(), a.dimensions(), d, &want, 0.0)?;
    let a: Image<Luma<i32>> = filter_parallel(&im, k, |v: i32| v);
    same("filter_parallel", a.as_raw(), a.dimensions(), d, &want, 0.0)?;
    // a non-trivial conversion closure sees the accumulated value
    let a: Image<Luma<f64>> = filter(&im, k, |v: i32| v as f64 * 0.5 + 3.0);
    let w2: Vec<f64> = want.iter().map(|v| v * 0.5 + 3.0).collect();
    same("filter (f)", a.as_raw(), a.dimensions(), d, &w2, 0.0)?;
    let a: GrayImage = filter_clamped(&im, k);
    same("filter_clamped u8", a.as_raw(), a.dimensions(), d, &clampv(&want, 0., 255.), 0.0)?;
    let a: GrayImage = filter_clamped_parallel(&im, k);
    same("filter_clamped_parallel u8", a.as_raw(), a.dimensions(), d, &clampv(&want, 0., 255.), 0.0)?;
    let a: Image<Luma<i16>> = filter_clamped(&im, k);
    same("filter_clamped i16", a.as_raw(), a.dimensions(), d, &clampv(&want, -32768., 32767.), 0.0)?;
    let a: Image<Luma<u16>> = filter_clamped(&im, k);
    same("filter_clamped u16", a.as_raw(), a.dimensions(), d, &clampv(&want, 0., 65535.), 0.0)?;
    nt(c.im.varied() && c.k.len() > 1)
}
fn colour_i32(c: &KCase<u8, i32>) -> R {
    let k = Kernel::new(&c.k, c.kw, c.kh);
    let d = (c.im.w, c.im.h);
    let want = reference(&c.im, 3, &c.k, c.kw, c.kh);
    let im = c.im.rgb();
    let a: Image<Rgb<i32>> = filter(&im, k, |v: i32| v);
    same("filter rgb", a.as_raw(), a.dimensions(), d, &want, 0.0)?;
    let a: Image<Rgb<i32>> = filter_parallel(&im, k, |v: i32| v);
    same("filter_parallel rgb", a.as_raw(), a.dimensions(), d, &want, 0.0)?;
    let a: Image<Rgb<u8>> = filter_clamped(&im, k);
    same("filter_clamped rgb", a.as_raw(), a.dimensions(), d, &clampv(&want, 0., 255.), 0.0)?;
    let a: Image<Rgb<i16>> = filter_clamped_parallel(&im, k);
    same("filter_clamped_parallel rgb i16", a.as_raw(), a.dimensions(), d, &clampv(&want, -32768., 32767.), 0.0)?;
    nt(c.im.varied() && c.k.len() > 1)
}
fn rgba_i32(c: &KCase<u8, i32>) -> R {
    let k = Kernel::new(&c.k, c.kw, c.kh);
    let want = reference(&c.im, 4, &c.k, c.kw, c.kh);
    let a: Image<Rgba<u8>> = filter_clamped(&c.im.rgba(), k);
    same("filter_clamped rgba", a.as_raw(), a.dimensions(), (c.im.w, c.im.h), &clampv(&want, 0., 255.), 0.0)?;
    nt(c.im.varied() && c.k.len() > 1)
}
fn la_i32(c: &KCase<u8, i32>) -> R {
    let k = Kernel::new(&c.k, c.kw, c.kh);
    let want = reference(&c.im, 2, &c.k, c.kw, c.kh);
    let im: Image<LumaA<u8>> = c.im.buf();
    let a: Image<LumaA<u8>> = filter_clamped(&im, k);
    same("filter_clamped luma-alpha", a.as_raw(), a.dimensions(), (c.im.w, c.im.h), &clampv(&want, 0., 255.), 0.0)?;
    nt(c.im.varied() && c.k.len() > 1)
}
// Multiples of 1/16 with small magnitude: every sum below is exact in f32.
fn f32_exact(c: &KCase<i16, i16>) -> R {
    let im = Im { w: c.im.w, h: c.im.h, d: c.im.d.iter().map(|v| *v as f32 / 16.0).collect::<Vec<f32>>() };
    let kd: Vec<f32> = c.k.iter().map(|v| *v as f32 / 8.0).collect();
    let k = Kernel::new(&kd, c.kw, c.kh);
    let want = reference(&im, 1, &kd, c.kw, c.kh);
    let buf: Image<Luma<f32>> = im.luma();
    let a: Image<Luma<f32>> = filter(&buf, k, |v: f32| v);
    same("filter f32", a.as_raw(), a.dimensions(), (c.im.w, c.im.h), &want, 0.0)?;
    let a: Image<Luma<f32>> = filter_clamped(&buf, k);
    same("filter_clamped f32", a.as_raw(), a.dimensions(), (c.im.w, c.im.h), &want, 0.0)?;
    nt(c.im.varied() && c.k.len() > 1)
}
fn u16_f32(c: &KCase<u16, f32>) -> R {
    let k = Kernel::new(&c.k, c.kw, c.kh);
    let want = clampv(&reference(&c.im, 1, &c.k, c.kw, c.kh), 0., 65535.);
    let a: Image<Luma<u16>> = filter_clamped(&c.im.luma(), k);
    // conversion to the subpixel type truncates
    let tol = 1.0 + 65535.0 * 1e-6 * c.k.len() as f64 * 4.0;
    same("filter_clamped u16 from f32", a.as_raw(), a.dimensions(), (c.im.w, c.im.h), &want, tol)?;
    nt(c.im.varied() && c.k.len() > 1)
}
fn named(im8: &Im<u8>) -> R {
    let im: GrayImage = im8.luma();
    let d = (im8.w, im8.h);
    let lap: [i32; 9] = [0, 1, 0, 1, -4, 1, 0, 1, 0];
    let want = reference(im8, 1, &lap, 3, 3);
    let a = laplacian_filter(&im);
    same("laplacian_filter", a.as_raw(), a.dimensions(), d, &want, 0.0)?;
    let a = laplacian_filter_parallel(&im);
    same("laplacian_filter_parallel", a.as_raw(), a.dimensions(), d, &want, 0.0)?;
    let a: Image<Luma<i16>> = filter_clamped(&im, kernel::FOUR_LAPLACIAN_3X3);
    same("FOUR_LAPLACIAN_3X3", a.as_raw(), a.dimensions(), d, &want, 0.0)?;
    let lap8: [i32; 9] = [1, 1, 1, 1, -8, 1, 1, 1, 1];
    let a: Image<Luma<i16>> = filter_clamped(&im, kernel::EIGHT_LAPLACIAN_3X3);
    same("EIGHT_LAPLACIAN_3X3", a.as_raw(), a.dimensions(), d, &reference(im8, 1, &lap8, 3, 3), 0.0)?;
    let sharp: Vec<f64> = want.iter().zip(&im8.d).map(|(l, v)| (*v as f64 - l).clamp(0., 255.)).collect();
    let a = sharpen3x3(&im);
    same("sharpen3x3", a.as_raw(), a.dimensions(), d, &sharp, 0.0)?;
    let a = sharpen3x3_parallel(&im);
    same("sharpen3x3_parallel", a.as_raw(), a.dimensions(), d, &sharp, 0.0)?;
    nt(im8.varied())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KerCase {
    w: u32,
    h: u32,
    n: u32,
    x: u32,
    y: u32,
}
fn ker(c: &KerCase) -> R {
    let data: Vec<u32> = (0..c.n).map(|v| v * 7 + 1).collect();
    let ok = c.w > 0 && c.h > 0 && c.w * c.h == c.n;
    match no_panic(|| Kernel::new(&data, c.w, c.h)) {
        Ok(k) => {
            ensure!(ok, "Kernel::new accepted {}x{} over {} values", c.w, c.h, c.n);
            if c.x < c.w && c.y < c.h {
                let want = data[(c.y * c.w + c.x) as usize];
                ensure!(k.get(c.x, c.y) == want, "Kernel::get({},{}) = {} want {want}", c.x, c.y, k.get(c.x, c.y));
                let g = unsafe { k.get_unchecked(c.x, c.y) };
                ensure!(g == want, "Kernel::get_unchecked({},{}) = {g} want {want}", c.x, c.y);
            } else if c.y * c.w + c.x >= c.n {
                ensure!(no_panic(|| k.get(c.x, c.y)).is_err(), "Kernel::get outside the data did not panic");
            }
        }
        Err(m) => ensure!(!ok, "Kernel::new rejected {}x{} over {} values: {m}", c.w, c.h, c.n),
    }
    nt(ok)
}
/// An impulse kernel at any position shifts the replicated image.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BigCase {
    im: Big,
    kw: u32,
    kh: u32,
    ks: u64,
}
fn big_filter(c: &BigCase) -> R {
    let im8 = c.im.im(1);
    let mut s = c.ks;
    let k: Vec<i32> = (0..c.kw * c.kh).map(|_| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((s >> 40) % 21) as i32 - 10 }).collect();
    gray_i32(&KCase { im: im8, kw: c.kw, kh: c.kh, k })
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "Random images (1..4 channels; u8, u16, f32) and kernels of independent random width and height (odd, even, larger than the image) compared with a direct double sum; non-trivial: the image is not constant and the kernel has more than one tap.",
        assumptions: &["float kernels are compared exactly on dyadic values and within rounding bounds otherwise"],
        subs: vec![
            sub("gray_i32", 150000, || kcase(im_u8(s(12), s(12), 1), prop_oneof![3 => -9i32..10, 1 => -300i32..300, 1 => Just(0)].boxed()), gray_i32),
            sub("rgb_i32", 60000, || kcase(im_u8(s(9), s(9), 3), (-9i32..10).boxed()), colour_i32),
            sub("rgba_i32", 40000, || kcase(im_u8(s(8), s(8), 4), (-3i32..4).boxed()), rgba_i32),
            sub("la_i32", 40000, || kcase(im_u8(s(8), s(8), 2), (-3i32..4).boxed()), la_i32),
            sub("f32_exact", 80000, || kcase(im_of(s(10), s(10), 1, (-1000i16..1000).boxed()), (-40i16..40).boxed()), f32_exact),
            sub("u16_f32", 60000, || kcase(im_u16(s(9), s(9), 1), (-1f32..1.).boxed()), u16_f32),
            sub("named", 150000, || im_u8(s(14), s(14), 1), named),
            sub("kernel", 60000, || {
                (0u32..7, 0u32..7, 0u32..8, 0u32..8, prop_oneof![4 => Just(None), 1 => (0u32..40).prop_map(Some)])
                    .prop_map(|(w, h, x, y, n)| KerCase { w, h, x, y, n: n.unwrap_or(w * h) }).boxed()
            }, ker),
            sub("big", 1500, || (big(70, 70), 1u32..8, 1u32..8, any::<u64>()).prop_map(|(im, kw, kh, ks)| BigCase { im, kw, kh, ks }).boxed(), big_filter),
            sub("large kernels", 600, || (prop_oneof![im_u8(s(12), s(12), 1), im_u8((20u32..40).boxed(), (20u32..40).boxed(), 1)], 1u32..48, 1u32..48, any::<u64>()).prop_map(|(im, kw, kh, seed)| { let mut k = lcg(seed); KCase { im, kw, kh, k: (0..kw * kh).map(|_| k(19) as i32 - 9).collect() } }).boxed(), gray_i32),
            sub("strips", 1500, || kcase(strip(1), (-9i32..10).boxed()), gray_i32),
            sub("colour strips", 300, || kcase(strip(3), (-9i32..10).boxed()), colour_i32),
            sub("long kernels", 300, || {
                (prop_oneof![im_u8(s(8), s(8), 1), strip(1)], 250u32..300, 1u32..3, any::<bool>(), any::<u64>())
                    .prop_map(|(im, a, b, t, ks)| { let (kw, kh) = if t { (a, b) } else { (b, a) }; let mut x = ks; let k = (0..kw * kh).map(|_| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1); (x >> 40) as i32 % 5 - 2 }).collect(); KCase { im, kw, kh, k } }).boxed()
            }, gray_i32),
            sub("named strips", 1500, || strip(1), named),
            sub("named planes", 8, || plane(1), named),
        ],
    }
}
