//! C40: every operation works on tiny, thin and empty images: no panic, no index out of range, documented size.
//! Built with debug assertions, so unchecked slice accesses outside the buffer abort the run.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::shapes::*;
use image::{GrayImage, ImageBuffer, Luma, Pixel, Rgb, RgbImage, Rgba};
use imageproc::contours::*;
use imageproc::contrast::*;
use imageproc::corners::*;
use imageproc::definitions::*;
use imageproc::distance_transform::*;
use imageproc::drawing::*;
use imageproc::filter::*;
use imageproc::geometric_transformations as gt;
use imageproc::gradients::*;
use imageproc::integral_image::*;
use imageproc::kernel::{self, Kernel};
use imageproc::map::*;
use imageproc::morphology as mo;
use imageproc::point::Point;
use imageproc::region_labelling::*;
use imageproc::stats::*;
use imageproc::template_matching::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub op: u32,
    pub im: Im<u8>,
    pub other: Im<u8>,
    n: [u32; 4],
    i: [i32; 6],
    q: [f32; 4],
}
struct Cx<'a> {
    c: &'a Case,
    g: GrayImage,
    rgb: RgbImage,
    f: Image<Luma<f32>>,
    o: GrayImage,
    w: u32,
    h: u32,
}
/// What an operation returned: the size of the image, if it returns one, and the content for the repeat run.
struct Out {
    dims: Option<(u32, u32)>,
    hash: u64,
}
fn hs(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}
fn img<P: Pixel>(im: Image<P>) -> Out
where
    P::Subpixel: std::fmt::Debug,
{
    // the buffer of an image may be longer than its pixels need
    let len = (im.width() * im.height()) as usize * P::CHANNEL_COUNT as usize;
    Out { dims: Some(im.dimensions()), hash: hs(&format!("{:?}", &im.as_raw()[..len])) }
}
fn val<T: std::fmt::Debug>(t: T) -> Out {
    Out { dims: None, hash: hs(&format!("{t:?}")) }
}
type Same = fn(&Cx) -> (u32, u32);
const SAME: Same = |c| (c.w, c.h);
type Op = (&'static str, fn(&Cx) -> bool, fn(&Cx) -> Out, Same);
const ANY: fn(&Cx) -> bool = |_| true;
const PIX: fn(&Cx) -> bool = |c| c.w > 0 && c.h > 0;
fn norm(c: &Cx) -> Norm {
    [Norm::L1, Norm::L2, Norm::LInf][c.c.n[3] as usize % 3]
}
fn interp(c: &Cx) -> gt::Interpolation {
    [gt::Interpolation::Nearest, gt::Interpolation::Bilinear, gt::Interpolation::Bicubic][c.c.n[3] as usize % 3]
}
fn odd_kernel(c: &Cx) -> (Vec<i32>, u32, u32) {
    let (kw, kh) = (1 + c.c.n[0] % 9, 1 + c.c.n[1] % 9);
    ((0..kw * kh).map(|i| (i as i32 * 7 + c.c.i[0]) % 5 - 2).collect(), kw, kh)
}
fn mask(c: &Cx) -> mo::Mask {
    let r = (c.c.n[0] % 9) as u8;
    match c.c.n[3] % 4 {
        0 => mo::Mask::square(r),
        1 => mo::Mask::diamond(r),
        2 => mo::Mask::disk(r),
        _ => mo::Mask::from_image(&c.o, c.c.n[1] as u8, c.c.n[2] as u8),
    }
}
fn methods(c: &Cx) -> MatchTemplateMethod {
    use MatchTemplateMethod::*;
    [SumOfSquaredErrors, SumOfSquaredErrorsNormalized, CrossCorrelation, CrossCorrelationNormalized][c.c.n[3] as usize % 4]
}
fn fits(c: &Cx) -> bool {
    c.o.width() <= c.w && c.o.height() <= c.h && c.o.width() > 0 && c.o.height() > 0
}
fn match_dims(c: &Cx) -> (u32, u32) {
    (c.w - c.o.width() + 1, c.h - c.o.height() + 1)
}
fn quad(c: &Cx) -> gt::Projection {
    let q = c.c.q;
    gt::Projection::from_matrix([1. + q[0] / 50., q[1] / 20., q[2], q[3] / 20., 1., q[0], q[1] / 1000., q[2] / 1000., 1.]).unwrap_or(gt::Projection::scale(0.5, 2.))
}
fn options(c: &Cx) -> imageproc::hog::HogOptions {
    let n = c.c.n;
    imageproc::hog::HogOptions::new(1 + n[0] as usize % 9, n[0] % 2 == 0, 1 + n[1] as usize % 4, 1 + n[2] as usize % 3, 1 + n[3] as usize % 3)
}
fn pts(c: &Cx) -> Vec<Point<i32>> {
    c.c.i.windows(2).map(|p| Point::new(p[0], p[1])).take(c.c.n[0] as usize % 6).collect()
}
fn shape_of(c: &Cx) -> Shape {
    let (i, q, n) = (c.c.i, c.c.q, c.c.n);
    let poly: Vec<(i32, i32)> = (0..5).map(|k| (i[k], i[k + 1])).collect();
    let polyf: Vec<(f32, f32)> = (0..3).map(|k| (q[k], q[k + 1])).collect();
    let r = |v: u32| (v % 40) as i32;
    match n[3] % 13 {
        0 => Shape::Line(q),
        1 => Shape::AaLine([i[0], i[1], i[2], i[3]]),
        2 => Shape::Poly(poly[..4].to_vec()),
        3 => Shape::AaPoly(poly[..4].to_vec()),
        4 => Shape::HollowPoly(polyf),
        5 => Shape::FilledRect(i[0], i[1], 1 + n[0] % 40, 1 + n[1] % 40),
        6 => Shape::HollowRect(i[0], i[1], 1 + n[0] % 40, 1 + n[1] % 40),
        7 => Shape::HollowEllipse(i[0], i[1], r(n[0]), r(n[1])),
        8 => Shape::FilledEllipse(i[0], i[1], r(n[0]), r(n[1])),
        9 => Shape::HollowCircle(i[0], i[1], r(n[0])),
        10 => Shape::FilledCircle(i[0], i[1], r(n[0])),
        11 => Shape::Cross(i[0], i[1]),
        _ => Shape::Bezier([q[0], q[1], q[2], q[3], q[1], q[0], q[3], q[2]]),
    }
}

/// Name, when the arguments are valid, the call, and the size of the result.
const OPS: &[Op] = &[
    // filter
    ("filter", ANY, |c| { let (k, a, b) = odd_kernel(c); img(filter::<_, _, _, Luma<i32>>(&c.g, Kernel::new(&k, a, b), |x| x)) }, SAME),
    #[cfg(feature = "rayon")]
    ("filter_parallel", ANY, |c| { let (k, a, b) = odd_kernel(c); img(filter_parallel::<_, _, _, Luma<i32>>(&c.g, Kernel::new(&k, a, b), |x| x)) }, SAME),
    ("filter_clamped", ANY, |c| { let (k, a, b) = odd_kernel(c); img(filter_clamped::<_, _, u8>(&c.rgb, Kernel::new(&k, a, b))) }, SAME),
    #[cfg(feature = "rayon")]
    ("filter_clamped_parallel", ANY, |c| { let (k, a, b) = odd_kernel(c); img(filter_clamped_parallel::<_, _, u8>(&c.rgb, Kernel::new(&k, a, b))) }, SAME),
    ("separable_filter", ANY, |c| { let (k, a, b) = odd_kernel(c); img(separable_filter(&c.g, &k[..a as usize], &k[k.len() - a as usize..])) }, SAME),
    ("separable_filter_equal", ANY, |c| { let (k, a, _) = odd_kernel(c); img(separable_filter_equal(&c.rgb, &k[..a as usize])) }, SAME),
    ("horizontal_filter", ANY, |c| { let (k, ..) = odd_kernel(c); img(horizontal_filter(&c.g, &k)) }, SAME),
    ("vertical_filter", ANY, |c| { let (k, ..) = odd_kernel(c); img(vertical_filter(&c.g, &k)) }, SAME),
    ("laplacian_filter", ANY, |c| img(laplacian_filter(&c.g)), SAME),
    #[cfg(feature = "rayon")]
    ("laplacian_filter_parallel", ANY, |c| img(laplacian_filter_parallel(&c.g)), SAME),
    ("sharpen3x3", ANY, |c| img(sharpen3x3(&c.g)), SAME),
    #[cfg(feature = "rayon")]
    ("sharpen3x3_parallel", ANY, |c| img(sharpen3x3_parallel(&c.g)), SAME),
    ("sharpen_gaussian", ANY, |c| img(sharpen_gaussian(&c.g, c.c.q[0].abs() + 0.05, c.c.q[1])), SAME),
    ("gaussian_blur_f32", ANY, |c| img(gaussian_blur_f32(&c.rgb, c.c.q[0].abs() + 0.05)), SAME),
    ("box_filter", ANY, |c| img(box_filter(&c.g, c.c.n[0], c.c.n[1])), SAME),
    ("median_filter", ANY, |c| img(median_filter(&c.rgb, c.c.n[0] % 12, c.c.n[1] % 12)), SAME),
    ("bilateral_filter", PIX, |c| img(bilateral_filter(&c.rgb, (c.c.n[0] % 7) as u8, c.c.q[0].abs() + 0.1, bilateral::GaussianEuclideanColorDistance::new(c.c.q[1].abs() + 0.1))), SAME),
    // gradients
    ("horizontal_sobel", ANY, |c| img(horizontal_sobel(&c.g)), SAME),
    ("vertical_sobel", ANY, |c| img(vertical_sobel(&c.g)), SAME),
    ("horizontal_scharr", ANY, |c| img(horizontal_scharr(&c.g)), SAME),
    ("vertical_scharr", ANY, |c| img(vertical_scharr(&c.g)), SAME),
    ("horizontal_prewitt", ANY, |c| img(horizontal_prewitt(&c.g)), SAME),
    ("vertical_prewitt", ANY, |c| img(vertical_prewitt(&c.g)), SAME),
    ("sobel_gradients", ANY, |c| img(sobel_gradients(&c.g)), SAME),
    ("prewitt_gradients", ANY, |c| img(prewitt_gradients(&c.g)), SAME),
    ("sobel_gradient_map", ANY, |c| img(sobel_gradient_map(&c.rgb, |p| Luma([p[0].max(p[1]).max(p[2])]))), SAME),
    ("gradients roberts", ANY, |c| img(gradients_grayscale(&c.g, kernel::ROBERTS_HORIZONTAL_2X2, kernel::ROBERTS_VERTICAL_2X2)), SAME),
    // contrast
    ("adaptive_threshold", ANY, |c| img(adaptive_threshold(&c.g, 1 + c.c.n[0], c.c.i[0])), SAME),
    ("otsu_level", PIX, |c| val(otsu_level(&c.g)), SAME),
    ("kapur_level", PIX, |c| val(kapur_level(&c.g)), SAME),
    ("threshold", ANY, |c| img(threshold(&c.g, c.c.n[0] as u8, match c.c.n[3] % 5 { 0 => ThresholdType::Binary, 1 => ThresholdType::Truncate, 2 => ThresholdType::ToZero, 3 => ThresholdType::BinaryInverted, _ => ThresholdType::ToZeroInverted })), SAME),
    ("equalize_histogram", ANY, |c| img(equalize_histogram(&c.g)), SAME),
    ("stretch_contrast", ANY, |c| { let mut v = [c.c.n[0] as u8, c.c.n[1] as u8, c.c.n[2] as u8, c.c.n[3] as u8]; v[..2].sort(); v[2..].sort(); if v[0] == v[1] { if v[0] > 0 { v[0] -= 1 } else { v[1] += 1 } } img(stretch_contrast(&c.rgb, v[0], v[1], v[2], v[3])) }, SAME),
    ("match_histogram", |c| PIX(c) && c.o.width() * c.o.height() > 0, |c| img(match_histogram(&c.g, &c.o)), SAME),
    // geometry of pixels
    ("rotate90", ANY, |c| img(gt::rotate90(&c.rgb)), |c| (c.h, c.w)),
    ("rotate180", ANY, |c| img(gt::rotate180(&c.rgb)), SAME),
    ("rotate270", ANY, |c| img(gt::rotate270(&c.rgb)), |c| (c.h, c.w)),
    ("flip_horizontal", ANY, |c| img(imageproc::compose::flip_horizontal(&c.rgb)), SAME),
    ("flip_vertical", ANY, |c| img(imageproc::compose::flip_vertical(&c.rgb)), SAME),
    ("translate", ANY, |c| img(gt::translate(&c.rgb, (c.c.i[0], c.c.i[1]))), SAME),
    ("rotate", ANY, |c| img(gt::rotate(&c.rgb, (c.c.q[0], c.c.q[1]), c.c.q[2], interp(c), Rgb([1, 2, 3]))), SAME),
    ("rotate_about_center", ANY, |c| img(gt::rotate_about_center(&c.g, c.c.q[2], interp(c), Luma([7]))), SAME),
    ("warp", ANY, |c| img(gt::warp(&c.rgb, &quad(c), interp(c), Rgb([9, 9, 9]))), SAME),
    ("warp_into", ANY, |c| { let mut o = c.o.clone(); gt::warp_into(&c.g, &quad(c), interp(c), Luma([3]), &mut o); img(o) }, |c| c.o.dimensions()),
    ("warp_with", ANY, |c| { let q = c.c.q; img(gt::warp_with(&c.g, |x, y| (x * q[0] + q[1], y / q[2] + x), interp(c), Luma([3]))) }, SAME),
    ("crop", PIX, |c| { let (x, y) = (c.c.n[0] % c.w, c.c.n[1] % c.h); img(imageproc::compose::crop(&c.rgb, image::math::Rect { x, y, width: 1 + c.c.n[2] % (c.w - x), height: 1 + c.c.n[3] % (c.h - y) })) }, |c| { let (x, y) = (c.c.n[0] % c.w, c.c.n[1] % c.h); (1 + c.c.n[2] % (c.w - x), 1 + c.c.n[3] % (c.h - y)) }),
    ("replace", PIX, |c| img(imageproc::compose::replace(&c.g, &c.o, c.c.n[0] % c.w, c.c.n[1] % c.h)), SAME),
    ("overlay", PIX, |c| img(imageproc::compose::overlay(&c.g, &c.o, c.c.n[0] % c.w, c.c.n[1] % c.h)), SAME),
    // morphology, distance, regions
    ("distance_transform", ANY, |c| img(distance_transform(&c.g, norm(c))), SAME),
    ("euclidean_squared_distance_transform", ANY, |c| img(euclidean_squared_distance_transform(&c.g)), SAME),
    ("dilate", ANY, |c| img(mo::dilate(&c.g, norm(c), c.c.n[0] as u8)), SAME),
    ("erode", ANY, |c| img(mo::erode(&c.g, norm(c), c.c.n[0] as u8)), SAME),
    ("open", ANY, |c| img(mo::open(&c.g, norm(c), c.c.n[0] as u8)), SAME),
    ("close", ANY, |c| img(mo::close(&c.g, norm(c), c.c.n[0] as u8)), SAME),
    ("grayscale_dilate", ANY, |c| img(mo::grayscale_dilate(&c.g, &mask(c))), SAME),
    ("grayscale_erode", ANY, |c| img(mo::grayscale_erode(&c.g, &mask(c))), SAME),
    ("grayscale_open", ANY, |c| img(mo::grayscale_open(&c.g, &mask(c))), SAME),
    ("grayscale_close", ANY, |c| img(mo::grayscale_close(&c.g, &mask(c))), SAME),
    ("connected_components", ANY, |c| img(connected_components(&c.g, if c.c.n[0] % 2 == 0 { Connectivity::Four } else { Connectivity::Eight }, Luma([c.c.n[1] as u8]))), SAME),
    ("find_contours", ANY, |c| val(find_contours::<i32>(&c.g)), SAME),
    ("find_contours_with_threshold", ANY, |c| val(find_contours_with_threshold::<u32>(&c.g, c.c.n[0] as u8)), SAME),
    ("suppress_non_maximum", ANY, |c| img(imageproc::suppress::suppress_non_maximum(&c.g, c.c.n[0] % 100)), SAME),
    ("flood_fill", PIX, |c| img(flood_fill(&c.rgb, c.c.n[0] % c.w, c.c.n[1] % c.h, Rgb([c.c.n[2] as u8, 1, 2]))), SAME),
    // statistics
    ("histogram", ANY, |c| val(histogram(&c.rgb).channels), SAME),
    ("cumulative_histogram", ANY, |c| val(cumulative_histogram(&c.rgb).channels), SAME),
    ("percentile", PIX, |c| val(percentile(&c.g, (c.c.n[0] % 101) as u8)), SAME),
    ("min_max", PIX, |c| val(min_max(&c.rgb).iter().map(|m| (m.min, m.max)).collect::<Vec<_>>()), SAME),
    ("root_mean_squared_error", PIX, |c| val(root_mean_squared_error(&c.g, &gt::rotate180(&c.g))), SAME),
    ("peak_signal_to_noise_ratio", PIX, |c| val(peak_signal_to_noise_ratio(&c.g, &gt::rotate180(&c.g))), SAME),
    ("integral_image", ANY, |c| img(integral_image::<_, u32>(&c.rgb)), |c| (c.w + 1, c.h + 1)),
    ("integral_squared_image", ANY, |c| img(integral_squared_image::<_, u64>(&c.g)), |c| (c.w + 1, c.h + 1)),
    ("sum and variance", PIX, |c| { let (l, t) = (c.c.n[0] % c.w, c.c.n[1] % c.h); let (r, b) = (l + c.c.n[2] % (c.w - l), t + c.c.n[3] % (c.h - t)); let i = integral_image::<_, u32>(&c.g); let s = integral_squared_image::<_, u32>(&c.g); val((sum_image_pixels(&i, l, t, r, b), variance(&i, &s, l, t, r, b))) }, SAME),
    ("row_running_sum", PIX, |c| { let p = c.c.n[0] % 50; let mut b = vec![0; (c.w + 2 * p) as usize]; row_running_sum(&c.g, c.c.n[1] % c.h, &mut b, p); val(b) }, SAME),
    ("column_running_sum", PIX, |c| { let p = c.c.n[0] % 50; let mut b = vec![0; (c.h + 2 * p) as usize]; column_running_sum(&c.g, c.c.n[1] % c.w, &mut b, p); val(b) }, SAME),
    ("find_extremes", PIX, |c| val(find_extremes(&c.g)), SAME),
    ("match_template", fits, |c| img(match_template(&c.g, &c.o, methods(c))), match_dims),
    #[cfg(feature = "rayon")]
    ("match_template_parallel", fits, |c| img(match_template_parallel(&c.g, &c.o, methods(c))), match_dims),
    ("match_template_with_mask", fits, |c| img(match_template_with_mask(&c.g, &c.o, methods(c), &gt::rotate180(&c.o))), match_dims),
    #[cfg(feature = "rayon")]
    ("match_template_with_mask_parallel", fits, |c| img(match_template_with_mask_parallel(&c.g, &c.o, methods(c), &gt::rotate180(&c.o))), match_dims),
    // features
    ("corners_fast9", ANY, |c| val(corners_fast9(&c.g, c.c.n[0] as u8)), SAME),
    ("corners_fast12", ANY, |c| val(corners_fast12(&c.g, c.c.n[0] as u8)), SAME),
    ("oriented_fast", ANY, |c| val(oriented_fast(&c.g, (c.c.n[3] % 2 == 0).then_some(c.c.n[0] as u8), c.c.n[1] as usize, c.c.n[2] % 40, Some(1)).iter().map(|o| (o.corner, o.orientation)).collect::<Vec<_>>()), SAME),
    ("canny", ANY, |c| { let (a, b) = (c.c.q[0].abs(), c.c.q[1].abs()); img(imageproc::edges::canny(&c.g, a.min(b), a.max(b))) }, SAME),
    ("detect_lines", ANY, |c| val(imageproc::hough::detect_lines(&c.g, imageproc::hough::LineDetectionOptions { vote_threshold: c.c.n[0] % 9, suppression_radius: c.c.n[1] % 20 })), SAME),
    ("draw_polar_lines", ANY, |c| img(imageproc::hough::draw_polar_lines(&c.g, &[imageproc::hough::PolarLine { r: c.c.q[0], angle_in_degrees: c.c.n[0] % 180 }], Luma([200]))), SAME),
    ("hog", ANY, |c| val(imageproc::hog::hog(&c.g, options(c))), SAME),
    ("local_binary_pattern", ANY, |c| val(imageproc::local_binary_patterns::local_binary_pattern(&c.g, c.c.n[0] % (c.w + 2), c.c.n[1] % (c.h + 2))), SAME),
    ("brief", ANY, |c| val(imageproc::binary_descriptors::brief::brief(&c.g, &[Point::new(c.c.n[0] % (c.w + 2), c.c.n[1] % (c.h + 2))], 128, None).map(|_| ()).is_ok()), SAME),
    ("haar features", PIX, |c| { let f = imageproc::haar::enumerate_haar_features(c.w.min(8) as u8, c.h.min(8) as u8); let i = integral_image::<_, u32>(&c.g); val(f.iter().map(|f| f.evaluate(&i)).collect::<Vec<_>>()) }, SAME),
    ("draw_haar_feature", PIX, |c| { let f = imageproc::haar::enumerate_haar_features(c.w.min(8) as u8, c.h.min(8) as u8); match f.get(c.c.n[0] as usize % f.len().max(1)) { Some(f) => img(imageproc::haar::draw_haar_feature(&c.g, *f)), None => img(c.g.clone()) } }, SAME),
    ("phash", PIX, |c| val(imageproc::image_hash::phash(&c.f)), SAME),
    ("shrink_width", |c| c.w > 1 && c.h > 0, |c| img(imageproc::seam_carving::shrink_width(&c.rgb, c.w - c.c.n[0] % c.w.min(4).max(1))), |c| (c.w - c.c.n[0] % c.w.min(4).max(1), c.h)),
    ("draw_vertical_seams", |c| c.w > 1 && c.h > 0, |c| { let s = imageproc::seam_carving::find_vertical_seam(&c.g); img(imageproc::seam_carving::draw_vertical_seams(&c.g, &[s])) }, SAME),
    // maps and noise
    ("map_subpixels", ANY, |c| img(map_subpixels(&c.rgb, |p| p ^ 1)), SAME),
    #[cfg(feature = "rayon")]
    ("map_subpixels_parallel", ANY, |c| img(map_subpixels_parallel(&c.rgb, |p| p ^ 1)), SAME),
    ("map_pixels", ANY, |c| img(map_pixels(&c.rgb, |p| Luma([p[1]]))), SAME),
    #[cfg(feature = "rayon")]
    ("map_pixels_parallel", ANY, |c| img(map_pixels_parallel(&c.rgb, |p| Luma([p[1]]))), SAME),
    ("map_enumerated_pixels", ANY, |c| img(map_enumerated_pixels(&c.rgb, |x, y, p| Luma([p[1] ^ x as u8 ^ y as u8]))), SAME),
    #[cfg(feature = "rayon")]
    ("map_enumerated_pixels_parallel", ANY, |c| img(map_enumerated_pixels_parallel(&c.rgb, |x, y, p| Luma([p[1] ^ x as u8 ^ y as u8]))), SAME),
    ("map_pixels2", ANY, |c| img(map_pixels2(&c.g, &c.rgb, |p, q| Luma([p[0] ^ q[2]]))), SAME),
    ("channels", ANY, |c| img(into_green_channel(&c.rgb)), SAME),
    ("as channels", ANY, |c| img(from_blue_channel(&c.g)), SAME),
    ("gaussian_noise", ANY, |c| img(imageproc::noise::gaussian_noise(&c.rgb, c.c.q[0] as f64, c.c.q[1].abs() as f64, 5)), SAME),
    ("salt_and_pepper_noise", ANY, |c| img(imageproc::noise::salt_and_pepper_noise(&c.rgb, c.c.n[0] as f64 % 101. / 100., 5)), SAME),
    // drawing
    ("shapes", ANY, |c| img(shape_of(c).draw(&c.rgb, Rgb([1, 200, 3]))), SAME),
    ("shapes on a blending canvas", |c| !matches!(c.c.n[3] % 13, 1 | 3), |c| { let mut b = Blend(Image::<Rgba<u8>>::new(c.w, c.h)); shape_of(c).draw_canvas(&mut b, Rgba([1, 200, 3, 99])); img(b.0) }, SAME),
    ("text", ANY, |c| img(draw_text(&c.g, Luma([255]), c.c.i[0], c.c.i[1], c.c.q[0].abs().min(40.), &font(), "gA")), SAME),
    ("descriptors and matches", |c| c.w >= 33 && c.h >= 33, |c| {
        use imageproc::binary_descriptors::{brief::*, *};
        let pairs: Vec<TestPair> = (0..128u32).map(|i| TestPair { p0: Point::new(i * 7 % 31, i * 11 / 3 % 31), p1: Point::new((i * 5 + c.c.n[0]) % 31, (i * 3 + c.c.n[1]) % 31) }).collect();
        let keys: Vec<Point<u32>> = (0..2 + c.c.n[2] % 9).map(|i| Point::new(16 + (i * 7) % (c.w - 32), 16 + (i * 5) % (c.h - 32))).collect();
        let a = brief(&c.g, &keys, 128, Some(&pairs)).expect("valid key points").0;
        let b = brief(&gt::rotate180(&c.g), &keys, 128, Some(&pairs)).expect("valid key points").0;
        let m = match_binary_descriptors(&a, &b, 20 + c.c.n[3] % 60, Some(3));
        val((a.iter().map(|d| (d.bits.clone(), d.corner)).collect::<Vec<_>>(), m.iter().map(|(p, q)| (p.position(), q.position())).collect::<Vec<_>>()))
    }, SAME),
    ("intersection_points", ANY, |c| val(imageproc::hough::intersection_points(imageproc::hough::PolarLine { r: c.c.q[0], angle_in_degrees: c.c.n[0] % 180 }, c.w, c.h)), SAME),
    ("text_size", ANY, |c| val(text_size(c.c.q[0].abs().min(40.), &font(), ["gA", "", "AVA", "x y"][c.c.n[0] as usize % 4])), SAME),
    ("local_maxima", ANY, |c| val(imageproc::suppress::local_maxima(&corners_fast9(&c.g, c.c.n[0] as u8), c.c.n[1] % 20)), SAME),
    ("warp_into_with", ANY, |c| { let q = c.c.q; let mut o = c.o.clone(); gt::warp_into_with(&c.g, |x, y| (x * q[0] + q[1], y * q[3] + x / q[2]), interp(c), Luma([3]), &mut o); img(o) }, |c| c.o.dimensions()),
    ("warp_into other pixels", ANY, |c| { let mut o = c.o.clone(); gt::warp_into(&c.g, &gt::Projection::translate(c.c.q[0], c.c.q[1]), interp(c), Luma([3]), &mut o); img(o) }, |c| c.o.dimensions()),
    #[cfg(feature = "rayon")]
    ("crop_parallel", PIX, |c| { let (x, y) = (c.c.n[0] % c.w, c.c.n[1] % c.h); img(imageproc::compose::crop_parallel(&c.rgb, image::math::Rect { x, y, width: 1 + c.c.n[2] % (c.w - x), height: 1 + c.c.n[3] % (c.h - y) })) }, |c| (1 + c.c.n[2] % (c.w - c.c.n[0] % c.w), 1 + c.c.n[3] % (c.h - c.c.n[1] % c.h))),
    ("pixel_diff_summary", PIX, |c| val(imageproc::utils::pixel_diff_summary(&c.g, &gt::rotate180(&c.g))), SAME),
    // point sets
    ("convex_hull", ANY, |c| val(imageproc::geometry::convex_hull(pts(c))), SAME),
    ("min_area_rect", |c| c.c.n[0] % 6 > 0, |c| val(imageproc::geometry::min_area_rect(&pts(c))), SAME),
    ("approximate_polygon_dp", ANY, |c| val(imageproc::geometry::approximate_polygon_dp(&pts(c), c.c.q[0].abs() as f64 + 0.1, c.c.n[1] % 2 == 0)), SAME),
    ("arc length and area", ANY, |c| { let p = pts(c); val((imageproc::geometry::arc_length(&p, true), imageproc::geometry::contour_area(&p), imageproc::geometry::oriented_contour_area(&p))) }, SAME),
];

fn context(c: &Case) -> Cx<'_> {
    let g = c.im.luma();
    let (w, h) = g.dimensions();
    Cx {
        c,
        rgb: ImageBuffer::from_fn(w, h, |x, y| { let v = g.get_pixel(x, y)[0]; Rgb([v, v.wrapping_mul(3), 255 - v]) }),
        f: ImageBuffer::from_fn(w, h, |x, y| Luma([g.get_pixel(x, y)[0] as f32 / 255.])),
        o: c.other.luma(),
        g,
        w,
        h,
    }
}
/// The operations that exist with and without the parallel feature, and what they give:
/// size and content of the result, None if the arguments are not valid.
pub fn plain_op(c: &Case) -> (&'static str, Result<Option<String>, String>) {
    let names: Vec<usize> = (0..OPS.len()).filter(|i| !OPS[*i].0.contains("parallel")).collect();
    let op = &OPS[names[c.op as usize % names.len()]];
    let cx = context(c);
    if !(op.1)(&cx) {
        return (op.0, Ok(None));
    }
    (op.0, no_panic(|| (op.2)(&cx)).map(|o| Some(format!("{:?} {:016x}", o.dims, o.hash))))
}
/// The same for all operations.
pub fn full_op(c: &Case) -> (&'static str, Result<Option<String>, String>) {
    let op = &OPS[c.op as usize % OPS.len()];
    let cx = context(c);
    if !(op.1)(&cx) {
        return (op.0, Ok(None));
    }
    (op.0, no_panic(|| (op.2)(&cx)).map(|o| Some(format!("{:?} {:016x}", o.dims, o.hash))))
}
/// An image of the same pixels in a buffer that is longer than they need.
fn spare<P: Pixel>(im: &Image<P>, n: usize, v: P::Subpixel) -> Image<P> {
    let mut d = im.as_raw().clone();
    d.extend(std::iter::repeat(v).take(n));
    ImageBuffer::from_raw(im.width(), im.height(), d).expect("large enough")
}
/// As `full_op`, with all images in buffers of `n` more values `v` than the pixels need.
pub fn spare_op(c: &Case, n: usize, v: u8) -> (&'static str, Result<Option<String>, String>) {
    let op = &OPS[c.op as usize % OPS.len()];
    let mut cx = context(c);
    if !(op.1)(&cx) {
        return (op.0, Ok(None));
    }
    (cx.g, cx.rgb, cx.f, cx.o) = (spare(&cx.g, n, v), spare(&cx.rgb, n, v), spare(&cx.f, n, v as f32 / 100.), spare(&cx.o, n, v));
    (op.0, no_panic(|| (op.2)(&cx)).map(|o| Some(format!("{:?} {:016x}", o.dims, o.hash))))
}
/// What happens in place, or in an output image that is passed in: to a grey and to a colour image.
type MutOp = (&'static str, fn(&Cx, &mut GrayImage), fn(&Cx, &mut RgbImage));
const NONE: fn(&Cx, &mut RgbImage) = |_, _| ();
macro_rules! both {
    ($name:literal, $f:expr) => {
        ($name, { const F: fn(&Cx, &mut GrayImage) = $f; F }, { const F: fn(&Cx, &mut RgbImage) = $f; F })
    };
}
fn warp_out<P>(c: &Cx, out: &mut Image<P>, with: bool)
where
    P: Pixel<Subpixel = u8> + Send + Sync,
{
    // the input is another image: only the output is of the case
    let src: Image<P> = ImageBuffer::from_fn(c.o.width(), c.o.height(), |x, y| { let v = c.o.get_pixel(x, y)[0]; *P::from_slice(&[v, v.wrapping_mul(5), v / 2, 200][..P::CHANNEL_COUNT as usize]) });
    let d = *P::from_slice(&[c.c.n[0] as u8; 4][..P::CHANNEL_COUNT as usize]);
    if with {
        let (a, b) = (c.c.q[0], c.c.q[1] / 10.);
        gt::warp_into_with(&src, |x, y| (x + b * y, y + a), interp(c), d, out)
    } else {
        gt::warp_into(&src, &quad(c), interp(c), d, out)
    }
}
const MUT_OPS: &[MutOp] = &[
    both!("flip_horizontal_mut", |_, im| imageproc::compose::flip_horizontal_mut(im)),
    both!("flip_vertical_mut", |_, im| imageproc::compose::flip_vertical_mut(im)),
    both!("rotate180_mut", |_, im| gt::rotate180_mut(im)),
    both!("warp_into", |c, im| warp_out(c, im, false)),
    both!("warp_into_with", |c, im| warp_out(c, im, true)),
    ("replace_mut, overlay_mut", |c, im| { imageproc::compose::replace_mut(im, &c.o, c.c.n[0] % 9, c.c.n[1] % 9); imageproc::compose::overlay_mut(im, &c.o, c.c.n[2] % 9, c.c.n[1] % 5) }, |c, im| { let o = ImageBuffer::from_fn(c.o.width(), c.o.height(), |x, y| Rgb([c.o.get_pixel(x, y)[0]; 3])); imageproc::compose::replace_mut(im, &o, c.c.n[0] % 9, c.c.n[1] % 9) }),
    both!("map_subpixels_mut", |c, im| { let k = c.c.n[0] as u8; map_subpixels_mut(im, |v| v.wrapping_mul(3) ^ k) }),
    both!("map_pixels_mut", |c, im| { let k = c.c.n[0] as u8; map_pixels_mut(im, |p| p.map(|v| v.wrapping_mul(5) ^ k)) }),
    both!("map_enumerated_pixels_mut", |_, im| map_enumerated_pixels_mut(im, |x, y, p| p.map(|v| v.wrapping_add((x * 7 + y * 13) as u8)))),
    #[cfg(feature = "rayon")]
    both!("map_subpixels_mut_parallel", |c, im| { let k = c.c.n[0] as u8; map_subpixels_mut_parallel(im, |v| v.wrapping_mul(3) ^ k) }),
    #[cfg(feature = "rayon")]
    both!("map_pixels_mut_parallel", |c, im| { let k = c.c.n[0] as u8; map_pixels_mut_parallel(im, |p| p.map(|v| v.wrapping_mul(5) ^ k)) }),
    #[cfg(feature = "rayon")]
    both!("map_enumerated_pixels_mut_parallel", |_, im| map_enumerated_pixels_mut_parallel(im, |x, y, p| p.map(|v| v.wrapping_add((x * 7 + y * 13) as u8)))),
    ("threshold_mut", |c, im| threshold_mut(im, c.c.n[0] as u8, ThresholdType::Binary), NONE),
    ("equalize_histogram_mut", |_, im| equalize_histogram_mut(im), NONE),
    ("match_histogram_mut", |c, im| match_histogram_mut(im, &c.o), NONE),
    both!("stretch_contrast_mut", |c, im| stretch_contrast_mut(im, (c.c.n[0] % 100) as u8, 100 + (c.c.n[1] % 150) as u8, 10, 240)),
    both!("gaussian_noise_mut", |c, im| imageproc::noise::gaussian_noise_mut(im, c.c.q[0] as f64, 20., c.c.n[0] as u64)),
    both!("salt_and_pepper_noise_mut", |c, im| imageproc::noise::salt_and_pepper_noise_mut(im, (c.c.n[1] % 100) as f64 / 100., c.c.n[0] as u64)),
    ("morphology, in place", |c, im| { let k = (c.c.n[0] % 5) as u8; match c.c.n[1] % 4 { 0 => mo::dilate_mut(im, norm(c), k), 1 => mo::erode_mut(im, norm(c), k), 2 => mo::open_mut(im, norm(c), k), _ => mo::close_mut(im, norm(c), k) } }, NONE),
    ("distance_transform_mut", |c, im| distance_transform_mut(im, norm(c)), NONE),
    ("shapes", |c, im| shape_of(c).draw_mut(im, Luma([c.c.n[1] as u8])), |c, im| shape_of(c).draw_mut(im, Rgb([c.c.n[1] as u8, 3, 250]))),
    ("flood_fill_mut", |c, im| if im.width() > 0 && im.height() > 0 { let (x, y) = (c.c.n[0] % im.width(), c.c.n[1] % im.height()); flood_fill_mut(im, x, y, Luma([c.c.n[2] as u8])) }, |c, im| if im.width() > 0 && im.height() > 0 { let (x, y) = (c.c.n[0] % im.width(), c.c.n[1] % im.height()); flood_fill_mut(im, x, y, Rgb([c.c.n[2] as u8, 0, 9])) }),
    both!("draw_polar_lines_mut", |c, im| { let k = *im.pixels().next().unwrap_or(&image_zero(im)); imageproc::hough::draw_polar_lines_mut(im, &[imageproc::hough::PolarLine { r: c.c.q[0], angle_in_degrees: c.c.n[0] % 180 }], k) }),
];
fn image_zero<P: Pixel<Subpixel = u8>>(_: &Image<P>) -> P {
    *P::from_slice(&[0; 4][..P::CHANNEL_COUNT as usize])
}
/// The name, and what a grey (rgb: colour) image is after the operation in a buffer of its size and in one of n more values.
pub fn mut_op(c: &Case, rgb: bool, n: usize, v: u8) -> (&'static str, Result<Vec<u8>, String>, Result<Vec<u8>, String>) {
    let op = &MUT_OPS[c.op as usize % MUT_OPS.len()];
    let cx = context(c);
    fn run<P: Pixel<Subpixel = u8>>(cx: &Cx, im: &Image<P>, f: fn(&Cx, &mut Image<P>), n: usize, v: u8) -> Result<Vec<u8>, String> {
        no_panic(|| {
            let mut im = spare(im, n, v);
            f(cx, &mut im);
            let mut d = vec![];
            im.pixels().for_each(|p| d.extend_from_slice(p.channels()));
            d
        })
    }
    if rgb {
        (op.0, run(&cx, &cx.rgb, op.2, 0, v), run(&cx, &cx.rgb, op.2, n, v))
    } else {
        (op.0, run(&cx, &cx.g, op.1, 0, v), run(&cx, &cx.g, op.1, n, v))
    }
}
impl Case {
    /// Another call, of the same operation unless how is 0, with parts of `o`.
    pub fn vary(&self, o: &Case, how: u8) -> Case {
        let mut c = self.clone();
        let r = o.q.iter().chain(&self.q).fold(0u64, |a, q| (a ^ q.to_bits() as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)) >> 32;
        match how {
            0 => c = o.clone(),
            1 => c.im = o.im.clone(),
            2 => c.other = o.other.clone(),
            3 => (c.n, c.i, c.q) = (o.n, o.i, o.q),
            4 => (c.im.w, c.im.h) = (self.im.h, self.im.w),
            5 => {
                // the same size, another content
                for (i, v) in c.im.d.iter_mut().enumerate() {
                    *v = v.wrapping_add(o.n[i % 4] as u8).wrapping_add(1);
                }
            }
            6 => c.n = o.n,
            // nearly the same arguments
            7 | 8 => {
                let d = [0.01f32, -0.003, 0.03, 1e-4, -0.1, 0.5, 1e-6, -0.02];
                for (j, q) in c.q.iter_mut().enumerate() {
                    if how == 8 || (r >> (24 + j)) & 1 == 1 {
                        *q += d[(r >> (3 * j)) as usize % 8] * if how == 8 { 1.0 } else { q.abs() };
                    }
                }
            }
            9 => {
                let j = r as usize % 10;
                if j < 4 { c.n[j] = c.n[j].wrapping_add(if (r >> 20) & 1 == 0 { 1 } else { u32::MAX }) } else { c.i[j - 4] = c.i[j - 4].wrapping_add(if (r >> 20) & 1 == 0 { 1 } else { -1 }) }
            }
            10 => {
                // a single pixel differs
                let k = c.im.d.len().max(1);
                if let Some(v) = c.im.d.get_mut(r as usize % k) {
                    *v = v.wrapping_add(1 + (r >> 20) as u8 % 255);
                }
            }
            11 => {
                // the same pixels in another order, so that sums and histograms agree
                let k = c.im.d.len().max(1);
                c.im.d.rotate_left(r as usize % k);
            }
            _ => {}
        }
        c
    }
}
fn check(c: &Case) -> R {
    let op = &OPS[c.op as usize % OPS.len()];
    let cx = context(c);
    let (w, h) = (cx.w, cx.h);
    if !(op.1)(&cx) {
        return nt(false);
    }
    let run = || no_panic(|| (op.2)(&cx));
    let a = run().map_err(|e| format!("{} on a {w}x{h} image: {e}", op.0))?;
    let want = (op.3)(&cx);
    ensure!(a.dims.map_or(true, |d| d == want), "{} on a {w}x{h} image returns {:?}, want {want:?}", op.0, a.dims);
    let b = run().map_err(|e| format!("{} on a {w}x{h} image, second call: {e}", op.0))?;
    ensure!(a.hash == b.hash, "{} on a {w}x{h} image returns different results for the same input", op.0);
    lab(true, op.0)
}
/// The same operations on images tens of thousands of pixels long.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongCase {
    pub c: Case,
    pub im: Mega,
}
fn check_long(l: &LongCase) -> R {
    let name = OPS[l.c.op as usize % OPS.len()].0;
    // quadratic or worse in the length, or slow on every pixel
    if matches!(name, "match_template_with_mask" | "match_template_with_mask_parallel") && l.c.other.d.len() > 64 {
        return nt(false);
    }
    let mut c = l.c.clone();
    c.im = l.im.im();
    check(&c)
}
pub fn long_case() -> BoxedStrategy<LongCase> {
    let len = || prop_oneof![1 => 32760u32..32780, 1 => 46330u32..46350, 2 => 65530u32..65540, 2 => 65540u32..70000];
    let dims = prop_oneof![(len(), 1u32..3), (1u32..3, len()), (len(), Just(1u32)), (Just(1u32), len())];
    (case(), dims, prop::collection::vec(prop_oneof![any::<u8>(), Just(0u8)], 1..9))
        .prop_map(|(c, (w, h), levels)| LongCase { c, im: Mega { w, h, levels } })
        .boxed()
}
fn sides() -> BoxedStrategy<(u32, u32)> {
    prop_oneof![
        3 => (0u32..=3, 0u32..=3),
        2 => (1u32..=2, 1u32..=30),
        2 => (1u32..=30, 1u32..=2),
        1 => (Just(0u32), 0u32..=5),
        1 => (0u32..=5, Just(0u32)),
        3 => (3u32..=8, 3u32..=8),
        1 => (5u32..=16, 5u32..=16),
    ]
    .boxed()
}
fn tiny() -> BoxedStrategy<Im<u8>> {
    (sides(), 0..4u8, any::<u8>())
        .prop_flat_map(|((w, h), k, v)| {
            let e = match k {
                0 => Just(v).boxed(),
                1 => prop_oneof![Just(0u8), Just(255)].boxed(),
                2 => (0u8..4).boxed(),
                _ => any::<u8>().boxed(),
            };
            proptest::collection::vec(e, (w * h) as usize).prop_map(move |d| Im { w, h, d })
        })
        .boxed()
}
pub fn case() -> BoxedStrategy<Case> {
    let n = || prop_oneof![4 => 0u32..6, 3 => 0u32..60, 1 => 0u32..256];
    let i = || prop_oneof![4 => -3i32..10, 2 => -60i32..60, 1 => -1000i32..1000];
    let q = || prop_oneof![3 => -3f32..10., 2 => -60f32..60., 1 => prop_oneof![Just(0f32), Just(1f32), Just(-1f32), Just(300f32), Just(1e-3f32)]];
    (0..OPS.len() as u32, tiny(), tiny(), [n(), n(), n(), n()], [i(), i(), i(), i(), i(), i()], [q(), q(), q(), q()])
        .prop_map(|(op, im, other, n, i, q)| Case { op, im, other, n, i, q })
        .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C40",
        rule: "the arguments are valid for the operation, which is run twice on the image",
        assumptions: &["radii up to 255, kernels up to 9x9, coordinates up to 1000: larger ones are covered by the properties of the single operations"],
        subs: vec![sub("operations on degenerate images", 600_000, case, check), sub("operations on long images", 900, long_case, check_long)],
    }
}
