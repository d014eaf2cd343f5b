//! C02: in-place variants agree with copying variants; copying variants leave the input alone.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::shapes::*;
use image::{GrayImage, ImageBuffer, Luma, Pixel, Rgb, RgbImage};
use imageproc::compose::*;
use imageproc::contrast::*;
use imageproc::definitions::Image;
use imageproc::distance_transform::*;
use imageproc::drawing::*;
use imageproc::geometric_transformations::*;
use imageproc::haar::*;
use imageproc::hough::*;
use imageproc::map::*;
use imageproc::morphology::*;
use imageproc::noise::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DrawCase {
    im: Im<u8>,
    shape: Shape,
    color: [u8; 3],
}
fn draw_case() -> BoxedStrategy<DrawCase> {
    (im_u8(s(20), s(20), 3), shape(16), any::<[u8; 3]>()).prop_map(|(im, shape, color)| DrawCase { im, shape, color }).boxed()
}
fn draw(c: &DrawCase) -> R {
    let im: RgbImage = c.im.rgb();
    let keep = im.clone();
    let a = c.shape.draw(&im, Rgb(c.color));
    ensure!(im == keep, "the copying variant changed its input");
    ensure!(a.dimensions() == im.dimensions(), "output dimensions {:?}", a.dimensions());
    let mut b = im.clone();
    c.shape.draw_mut(&mut b, Rgb(c.color));
    if let Some(d) = diff(&a, &b) {
        return Err(format!("{}: in-place and copying variants differ: {d}", c.shape.kind()).into());
    }
    // gray canvas as well
    let g: GrayImage = GrayImage::from_raw(c.im.w, c.im.h, c.im.d[..(c.im.w * c.im.h) as usize].to_vec()).unwrap();
    let a = c.shape.draw(&g, Luma([c.color[0]]));
    let mut b = g.clone();
    c.shape.draw_mut(&mut b, Luma([c.color[0]]));
    if let Some(d) = diff(&a, &b) {
        return Err(format!("{}: in-place and copying variants differ (gray): {d}", c.shape.kind()).into());
    }
    lab(b != g, c.shape.kind())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct GrayCase {
    im: Im<u8>,
    im2: Im<u8>,
    op: u8,
    a: [u8; 4],
    norm: u8,
    seed: u64,
    f: [f64; 2],
}
fn gray_case() -> BoxedStrategy<GrayCase> {
    (
        prop_oneof![2 => im_u8(s(14), s(14), 1), 1 => im_bin(s(14), s(14))],
        im_u8(s(14), s(14), 1),
        0u8..15,
        any::<[u8; 4]>(),
        0u8..3,
        any::<u64>(),
        [-40f64..40., 0f64..60.],
    )
        .prop_map(|(im, im2, op, a, norm, seed, f)| GrayCase { im, im2, op, a, norm, seed, f })
        .boxed()
}
pub fn norm(n: u8) -> Norm {
    match n % 3 {
        0 => Norm::L1,
        1 => Norm::L2,
        _ => Norm::LInf,
    }
}
fn gray(c: &GrayCase) -> R {
    let im: GrayImage = c.im.luma();
    let top: GrayImage = c.im2.luma();
    let mut b = im.clone();
    let k = c.a[0] % 6;
    let (x, y) = (c.a[1] as u32 % im.width(), c.a[2] as u32 % im.height());
    let t = || match c.a[3] % 5 {
        0 => ThresholdType::Binary,
        1 => ThresholdType::BinaryInverted,
        2 => ThresholdType::Truncate,
        3 => ThresholdType::ToZero,
        _ => ThresholdType::ToZeroInverted,
    };
    let (lo, hi) = (c.a[0].min(c.a[1]), c.a[0].max(c.a[1]));
    let (lo, hi) = if lo == hi { if hi < 255 { (lo, hi + 1) } else { (lo - 1, hi) } } else { (lo, hi) };
    let (ol, oh) = (c.a[2].min(c.a[3]), c.a[2].max(c.a[3]));
    let before = im.clone();
    let (name, a) = match c.op {
        0 => { threshold_mut(&mut b, c.a[0], t()); ("threshold", threshold(&im, c.a[0], t())) }
        1 => { equalize_histogram_mut(&mut b); ("equalize_histogram", equalize_histogram(&im)) }
        2 => { stretch_contrast_mut(&mut b, lo, hi, ol, oh); ("stretch_contrast", stretch_contrast(&im, lo, hi, ol, oh)) }
        3 => { match_histogram_mut(&mut b, &top); ("match_histogram", match_histogram(&im, &top)) }
        4 => { dilate_mut(&mut b, norm(c.norm), k); ("dilate", dilate(&im, norm(c.norm), k)) }
        5 => { erode_mut(&mut b, norm(c.norm), k); ("erode", erode(&im, norm(c.norm), k)) }
        6 => { open_mut(&mut b, norm(c.norm), k); ("open", open(&im, norm(c.norm), k)) }
        7 => { close_mut(&mut b, norm(c.norm), k); ("close", close(&im, norm(c.norm), k)) }
        8 => { distance_transform_mut(&mut b, norm(c.norm)); ("distance_transform", distance_transform(&im, norm(c.norm))) }
        9 => { gaussian_noise_mut(&mut b, c.f[0], c.f[1], c.seed); ("gaussian_noise", gaussian_noise(&im, c.f[0], c.f[1], c.seed)) }
        10 => { let r = c.f[1] / 60.0; salt_and_pepper_noise_mut(&mut b, r, c.seed); ("salt_and_pepper_noise", salt_and_pepper_noise(&im, r, c.seed)) }
        11 => { flood_fill_mut(&mut b, x, y, Luma([c.a[0]])); ("flood_fill", flood_fill(&im, x, y, Luma([c.a[0]]))) }
        12 => { replace_mut(&mut b, &top, x, y); ("replace", replace(&im, &top, x, y)) }
        13 => { overlay_mut(&mut b, &top, x, y); ("overlay", overlay(&im, &top, x, y)) }
        _ => {
            let lines = [PolarLine { r: c.f[0] as f32, angle_in_degrees: c.a[0] as u32 % 180 }, PolarLine { r: c.f[1] as f32, angle_in_degrees: c.a[1] as u32 % 180 }];
            draw_polar_lines_mut(&mut b, &lines, Luma([c.a[3]]));
            ("draw_polar_lines", draw_polar_lines(&im, &lines, Luma([c.a[3]])))
        }
    };
    ensure!(im == before, "{name} changed its input");
    ensure!(a.dimensions() == im.dimensions(), "{name}: output dimensions");
    if let Some(d) = diff(&a, &b) {
        return Err(format!("{name}: in-place and copying variants differ: {d}").into());
    }
    lab(a != im, name)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RgbCase {
    im: Im<u8>,
    im2: Im<u8>,
    op: u8,
    a: [u8; 4],
    m: [f32; 6],
    seed: u64,
}
fn rgb_case() -> BoxedStrategy<RgbCase> {
    (im_u8(s(12), s(12), 3), im_u8(s(12), s(12), 3), 0u8..12, any::<[u8; 4]>(), [0.5f32..1.5, -0.5f32..0.5, -5f32..5., -0.5f32..0.5, 0.5f32..1.5, -5f32..5.], any::<u64>())
        .prop_map(|(im, im2, op, a, m, seed)| RgbCase { im, im2, op, a, m, seed })
        .boxed()
}
fn rgb(c: &RgbCase) -> R {
    let im: RgbImage = c.im.rgb();
    let top: RgbImage = c.im2.rgb();
    let mut b = im.clone();
    let before = im.clone();
    let (x, y) = (c.a[1] as u32 % im.width(), c.a[2] as u32 % im.height());
    let (p, q) = (c.a[0], c.a[3]);
    let fs = |v: u8| v.wrapping_mul(p).wrapping_add(q);
    let fp = |v: Rgb<u8>| Rgb([v[2] ^ p, v[0].wrapping_add(q), v[1]]);
    let fe = |x: u32, y: u32, v: Rgb<u8>| Rgb([v[2] ^ x as u8, v[0].wrapping_add(y as u8), v[1] ^ p]);
    let proj = Projection::from_matrix([c.m[0], c.m[1], c.m[2], c.m[3], c.m[4], c.m[5], 0.0, 0.0, 1.0]);
    let it = [Interpolation::Nearest, Interpolation::Bilinear, Interpolation::Bicubic][p as usize % 3];
    let (name, a) = match c.op {
        0 => { rotate180_mut(&mut b); ("rotate180", rotate180(&im)) }
        1 => { flip_horizontal_mut(&mut b); ("flip_horizontal", flip_horizontal(&im)) }
        2 => { flip_vertical_mut(&mut b); ("flip_vertical", flip_vertical(&im)) }
        3 => { replace_mut(&mut b, &top, x, y); ("replace", replace(&im, &top, x, y)) }
        4 => { overlay_mut(&mut b, &top, x, y); ("overlay", overlay(&im, &top, x, y)) }
        5 => { map_subpixels_mut(&mut b, fs); ("map_subpixels", map_subpixels(&im, fs)) }
        6 => { map_pixels_mut(&mut b, fp); ("map_pixels", map_pixels(&im, fp)) }
        7 => { map_enumerated_pixels_mut(&mut b, fe); ("map_enumerated_pixels", map_enumerated_pixels(&im, fe)) }
        8 => { flood_fill_mut(&mut b, x, y, Rgb([p, q, 0])); ("flood_fill", flood_fill(&im, x, y, Rgb([p, q, 0]))) }
        9 => {
            let Some(proj) = proj else { return nt(false) };
            // the previous content of the output must not matter
            b = RgbImage::from_pixel(im.width(), im.height(), Rgb([q, 7, p]));
            warp_into(&im, &proj, it, Rgb([p, q, 0]), &mut b);
            ("warp", warp(&im, &proj, it, Rgb([p, q, 0])))
        }
        10 => {
            let f = |x: f32, y: f32| (x * c.m[0] + c.m[2], y * c.m[4] + c.m[5]);
            b = RgbImage::from_pixel(im.width(), im.height(), Rgb([q, 7, p]));
            warp_into_with(&im, f, it, Rgb([p, q, 0]), &mut b);
            ("warp_with", warp_with(&im, f, it, Rgb([p, q, 0])))
        }
        _ => { gaussian_noise_mut(&mut b, c.m[2] as f64, 9.0, c.seed); ("gaussian_noise", gaussian_noise(&im, c.m[2] as f64, 9.0, c.seed)) }
    };
    ensure!(im == before, "{name} changed its input");
    ensure!(a.dimensions() == im.dimensions(), "{name}: output dimensions");
    if let Some(d) = diff(&a, &b) {
        return Err(format!("{name}: in-place and copying variants differ: {d}").into());
    }
    lab(a != im, name)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HaarCase {
    im: Im<u8>,
    w: u8,
    h: u8,
    i: u32,
}
fn haar_case() -> BoxedStrategy<HaarCase> {
    (2u8..7, 2u8..7)
        .prop_flat_map(|(w, h)| (Just(w), Just(h), im_u8((w as u32..w as u32 + 6).boxed(), (h as u32..h as u32 + 6).boxed(), 1), any::<u32>()))
        .prop_map(|(w, h, im, i)| HaarCase { im, w, h, i })
        .boxed()
}
fn haar(c: &HaarCase) -> R {
    let fs = enumerate_haar_features(c.w, c.h);
    let f = fs[c.i as usize % fs.len()];
    let im: GrayImage = c.im.luma();
    let mut b = im.clone();
    draw_haar_feature_mut(&mut b, f);
    let a = draw_haar_feature(&im, f);
    match diff(&a, &b) {
        Some(d) => Err(format!("draw_haar_feature: {d}").into()),
        None => nt(a != im),
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "Random images and one random operation with valid random arguments per case, applied through both variants; non-trivial: the operation changed the image.",
        assumptions: &[],
        subs: vec![
            sub("draw", 60000, draw_case, draw),
            sub("gray", 120000, gray_case, gray),
            sub("rgb", 60000, rgb_case, rgb),
            sub("haar", 20000, haar_case, haar),
        ],
    }
}
