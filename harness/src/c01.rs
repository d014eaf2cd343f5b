//! C01: parallel variants and internally parallel operations give the sequential result,
//! whatever the size of the thread pool.
use crate::fw::*;
use crate::gen::*;
use crate::{ensure, fw};
use image::{GrayImage, ImageBuffer, Luma, Pixel, Rgb, RgbImage, Rgba};
use imageproc::compose::*;
use imageproc::contrast::*;
use imageproc::filter::*;
use imageproc::geometric_transformations::*;
use imageproc::kernel::Kernel;
use imageproc::map::*;
use image::math::Rect;
use imageproc::template_matching::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

pub fn pool(i: usize) -> &'static rayon::ThreadPool {
    static P: [OnceLock<rayon::ThreadPool>; 6] = [const { OnceLock::new() }; 6];
    const N: [usize; 6] = [1, 2, 3, 5, 8, 16];
    P[i % 6].get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(N[i % 6]).build().unwrap())
}

/// Image sizes: small random ones, and long thin / larger ones that make rayon split.
fn big_im() -> BoxedStrategy<Big> {
    prop_oneof![4 => big(24, 24), 1 => big(3, 300), 1 => big(300, 3), 1 => big(70, 70)].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FilterCase {
    im: Big,
    kw: u32,
    kh: u32,
    k: Vec<i32>,
    pool: usize,
}
fn filter_case() -> BoxedStrategy<FilterCase> {
    (prop_oneof![6 => big(24, 24), 1 => big(3, 120), 1 => big(120, 3), 1 => big(40, 40)], 1u32..6, 1u32..6, 0usize..6)
        .prop_flat_map(|(im, kw, kh, pool)| {
            (Just(im), Just(kw), Just(kh), proptest::collection::vec(-9i32..10, (kw * kh) as usize), Just(pool))
        })
        .prop_map(|(im, kw, kh, k, pool)| FilterCase { im, kw, kh, k, pool })
        .boxed()
}

fn par_filter(c: &FilterCase) -> R {
    let p = pool(c.pool);
    let k = Kernel::new(&c.k, c.kw, c.kh);
    let g: GrayImage = c.im.im(1).luma();
    let a = filter_clamped::<_, i32, i16>(&g, k);
    let b = p.install(|| filter_clamped_parallel::<_, i32, i16>(&g, k));
    if let Some(d) = diff(&a, &b) {
        return Err(format!("filter_clamped_parallel u8->i16: {d}").into());
    }
    let rgb: RgbImage = c.im.im(3).rgb();
    let a = filter_clamped::<_, i32, u8>(&rgb, k);
    let b = p.install(|| filter_clamped_parallel::<_, i32, u8>(&rgb, k));
    if let Some(d) = diff(&a, &b) {
        return Err(format!("filter_clamped_parallel rgb u8: {d}").into());
    }
    // Float accumulation: the same order of operations gives the same bits.
    let kf: Vec<f32> = c.k.iter().map(|v| *v as f32 * 0.37).collect();
    let kf = Kernel::new(&kf, c.kw, c.kh);
    let a: ImageBuffer<Luma<f32>, Vec<f32>> = filter(&g, kf, |v: f32| v * 0.5 + 1.0);
    let b: ImageBuffer<Luma<f32>, Vec<f32>> = p.install(|| filter_parallel(&g, kf, |v: f32| v * 0.5 + 1.0));
    ensure!(a.dimensions() == b.dimensions(), "filter_parallel dimensions");
    for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
        ensure!(x.to_bits() == y.to_bits(), "filter_parallel f32 differs at {i}: {x} {y}");
    }
    let a = laplacian_filter(&g);
    let b = p.install(|| laplacian_filter_parallel(&g));
    if let Some(d) = diff(&a, &b) {
        return Err(format!("laplacian_filter_parallel: {d}").into());
    }
    let a = sharpen3x3(&g);
    let b = p.install(|| sharpen3x3_parallel(&g));
    if let Some(d) = diff(&a, &b) {
        return Err(format!("sharpen3x3_parallel: {d}").into());
    }
    lab(g.width() * g.height() > 1 && c.k.iter().any(|v| *v != 0), if c.kw > g.width() || c.kh > g.height() { "kernel larger than image" } else { "" })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MapCase {
    im: Big,
    mul: u8,
    add: u8,
    pool: usize,
}
fn map_case() -> BoxedStrategy<MapCase> {
    (big_im(), any::<u8>(), any::<u8>(), 0usize..6).prop_map(|(im, mul, add, pool)| MapCase { im, mul, add, pool }).boxed()
}
fn par_map(c: &MapCase) -> R {
    let p = pool(c.pool);
    let im: RgbImage = c.im.im(3).rgb();
    let (m, a) = (c.mul, c.add);
    macro_rules! same {
        ($n:literal, $x:expr, $y:expr) => {
            if let Some(d) = diff(&$x, &$y) {
                return Err(format!("{}: {}", $n, d).into());
            }
        };
    }
    let f = |v: u8| v.wrapping_mul(m) as u16 * 3 + a as u16;
    same!("map_subpixels_parallel", map_subpixels(&im, f), p.install(|| map_subpixels_parallel(&im, f)));
    let f8 = |v: u8| v.wrapping_mul(m).wrapping_add(a);
    let (mut x, mut y) = (im.clone(), im.clone());
    map_subpixels_mut(&mut x, f8);
    p.install(|| map_subpixels_mut_parallel(&mut y, f8));
    same!("map_subpixels_mut_parallel", x, y);
    let fp = |q: Rgb<u8>| Luma([q[0] as u16 * 7 + q[1] as u16 * 3 + (q[2] ^ m) as u16]);
    same!("map_pixels_parallel", map_pixels(&im, fp), p.install(|| map_pixels_parallel(&im, fp)));
    let fq = |q: Rgb<u8>| Rgb([q[1].wrapping_add(a), q[2], q[0] ^ m]);
    let (mut x, mut y) = (im.clone(), im.clone());
    map_pixels_mut(&mut x, fq);
    p.install(|| map_pixels_mut_parallel(&mut y, fq));
    same!("map_pixels_mut_parallel", x, y);
    let fe = |i: u32, j: u32, q: Rgb<u8>| Luma([(i * 31 + j * 17) as f32 + q[0] as f32]);
    same!("map_enumerated_pixels_parallel", map_enumerated_pixels(&im, fe), p.install(|| map_enumerated_pixels_parallel(&im, fe)));
    let fe = |i: u32, j: u32, q: Rgb<u8>| Rgb([(i as u8) ^ q[0], (j as u8) ^ q[1], q[2].wrapping_mul(m)]);
    let (mut x, mut y) = (im.clone(), im.clone());
    map_enumerated_pixels_mut(&mut x, fe);
    p.install(|| map_enumerated_pixels_mut_parallel(&mut y, fe));
    same!("map_enumerated_pixels_mut_parallel", x, y);
    nt(im.width() * im.height() > 1)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CropCase {
    im: Big,
    r: [u32; 4],
    pool: usize,
}
fn crop_case() -> BoxedStrategy<CropCase> {
    big_im()
        .prop_flat_map(|im| (Just(im.clone()), 0..im.w, 0..im.h))
        .prop_flat_map(|(im, x, y)| (1..=im.w - x, 1..=im.h - y, Just((im, x, y)), 0usize..6))
        .prop_map(|(w, h, (im, x, y), pool)| CropCase { im, r: [x, y, w, h], pool })
        .boxed()
}
fn par_crop(c: &CropCase) -> R {
    let im: RgbImage = c.im.im(3).rgb();
    let r = Rect { x: c.r[0], y: c.r[1], width: c.r[2], height: c.r[3] };
    let a = crop(&im, r);
    let b = pool(c.pool).install(|| crop_parallel(&im, r));
    match diff(&a, &b) {
        Some(d) => Err(format!("crop_parallel: {d}").into()),
        None => nt(c.r[0] + c.r[1] > 0),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TemplCase {
    im: Big,
    tw: u32,
    th: u32,
    tseed: u64,
    pool: usize,
}
fn templ_case() -> BoxedStrategy<TemplCase> {
    prop_oneof![4 => big(14, 14), 1 => big(2, 60), 1 => big(60, 2)]
        .prop_flat_map(|im| (1..=im.w.min(6), 1..=im.h.min(6), Just(im), any::<u64>(), 0usize..6))
        .prop_map(|(tw, th, im, tseed, pool)| TemplCase { im, tw, th, tseed, pool })
        .boxed()
}
fn par_template(c: &TemplCase) -> R {
    use MatchTemplateMethod::*;
    let im: GrayImage = c.im.im(1).luma();
    let t: GrayImage = Big { w: c.tw, h: c.th, seed: c.tseed, levels: 255 }.im(1).luma();
    let m: GrayImage = Big { w: c.tw, h: c.th, seed: c.tseed ^ 77, levels: 3 }.im(1).luma();
    let p = pool(c.pool);
    for method in [SumOfSquaredErrors, SumOfSquaredErrorsNormalized, CrossCorrelation, CrossCorrelationNormalized] {
        let a = match_template(&im, &t, method);
        let b = p.install(|| match_template_parallel(&im, &t, method));
        ensure!(a.dimensions() == b.dimensions() && a.iter().zip(b.iter()).all(|(x, y)| x.to_bits() == y.to_bits()), "match_template_parallel differs for {method:?}");
        let a = match_template_with_mask(&im, &t, method, &m);
        let b = p.install(|| match_template_with_mask_parallel(&im, &t, method, &m));
        ensure!(a.dimensions() == b.dimensions() && a.iter().zip(b.iter()).all(|(x, y)| x.to_bits() == y.to_bits()), "match_template_with_mask_parallel differs for {method:?}");
    }
    nt(im.width() * im.height() > 1)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WarpCase {
    im: Big,
    m: [f32; 9],
    interp: u8,
    pool: usize,
    ow: u32,
    oh: u32,
}
fn warp_case() -> BoxedStrategy<WarpCase> {
    (
        big_im(),
        [0.3f32..1.7, -0.5f32..0.5, -8f32..8., -0.5f32..0.5, 0.3f32..1.7, -8f32..8., -0.005f32..0.005, -0.005f32..0.005, 0.8f32..1.2],
        0u8..3,
        0usize..6,
        1u32..50,
        1u32..50,
    )
        .prop_map(|(im, m, interp, pool, ow, oh)| WarpCase { im, m, interp, pool, ow, oh })
        .boxed()
}
fn interp(i: u8) -> Interpolation {
    match i {
        0 => Interpolation::Nearest,
        1 => Interpolation::Bilinear,
        _ => Interpolation::Bicubic,
    }
}
fn pool_warp(c: &WarpCase) -> R {
    let im: RgbImage = c.im.im(3).rgb();
    let Some(pr) = Projection::from_matrix(c.m) else { return nt(false) };
    let def = Rgb([1, 2, 3]);
    let one = pool(0);
    let p = pool(c.pool);
    let i = interp(c.interp);
    let a = one.install(|| warp(&im, &pr, i, def));
    let b = p.install(|| warp(&im, &pr, i, def));
    if let Some(d) = diff(&a, &b) {
        return Err(format!("warp depends on the pool: {d}").into());
    }
    let f = |x: f32, y: f32| (x + (y * 0.3).sin() * 2.0, y * 0.9 + 0.25);
    let mut a = RgbImage::new(c.ow, c.oh);
    let mut b = RgbImage::new(c.ow, c.oh);
    one.install(|| warp_into_with(&im, f, i, def, &mut a));
    p.install(|| warp_into_with(&im, f, i, def, &mut b));
    if let Some(d) = diff(&a, &b) {
        return Err(format!("warp_into_with depends on the pool: {d}").into());
    }
    let a = one.install(|| rotate_about_center(&im, c.m[0], i, def));
    let b = p.install(|| rotate_about_center(&im, c.m[0], i, def));
    if let Some(d) = diff(&a, &b) {
        return Err(format!("rotate_about_center depends on the pool: {d}").into());
    }
    let g: GrayImage = c.im.im(1).luma();
    let a = one.install(|| equalize_histogram(&g));
    let b = p.install(|| equalize_histogram(&g));
    if let Some(d) = diff(&a, &b) {
        return Err(format!("equalize_histogram depends on the pool: {d}").into());
    }
    nt(a.iter().any(|v| *v != 1) && c.pool % 6 != 0)
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "Random images (1x1 up to 70x70, long thin 3x300 strips), random kernels/closures/rectangles/templates/projections and a rayon pool of 1,2,3,5,8 or 16 threads; \
non-trivial: more than one pixel and a non-zero kernel / non-zero offset / a pool of more than one thread.",
        assumptions: &["the closures passed to the parallel maps are pure"],
        subs: vec![
            sub("par_filter", 6000, filter_case, par_filter),
            sub("par_map", 6000, map_case, par_map),
            sub("par_crop", 10000, crop_case, par_crop),
            sub("par_filter long", 20, || (long_big(), 1u32..4, 1u32..4, 0usize..6).prop_flat_map(|(im, kw, kh, pool)| prop::collection::vec(-9i32..10, (kw * kh) as usize).prop_map(move |k| FilterCase { im: im.clone(), kw, kh, k, pool })).boxed(), par_filter),
            sub("par_map long", 20, || (long_big(), any::<u8>(), any::<u8>(), 0usize..6).prop_map(|(im, mul, add, pool)| MapCase { im, mul, add, pool }).boxed(), par_map),
            sub("par_crop long", 40, || (long_big(), any::<[u32; 4]>(), 0usize..6).prop_map(|(im, r, pool)| { let (x, y) = (r[0] % im.w, r[1] % im.h); CropCase { r: [x, y, 1 + r[2] % (im.w - x), 1 + r[3] % (im.h - y)], im, pool } }).boxed(), par_crop),
            sub("par_template", 4000, templ_case, par_template),
            sub("pool_warp", 3000, warp_case, pool_warp),
        ],
    }
}
