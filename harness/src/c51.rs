//! C51: neighbourhood operations are local: a tile with a margin gives the tile of the result, and
//! the border of an image acts like the pixels it is documented to stand for.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{GrayImage, ImageBuffer, Luma, Pixel, Rgb, Rgba};
use imageproc::contrast::*;
use imageproc::corners::{corners_fast12, corners_fast9};
use imageproc::definitions::Image;
use imageproc::distance_transform::{distance_transform, euclidean_squared_distance_transform, Norm};
use imageproc::filter::bilateral::GaussianEuclideanColorDistance;
use imageproc::filter::*;
use imageproc::gradients::*;
use imageproc::kernel::{self, Kernel};
use imageproc::local_binary_patterns::local_binary_pattern;
use imageproc::morphology::*;
use imageproc::suppress::suppress_non_maximum;
use imageproc::template_matching::{match_template, match_template_with_mask, MatchTemplateMethod as M};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    im: Im<u8>,
    /// a kernel, mask or template
    t: Im<u8>,
    op: u8,
    n: [u32; 4],
    q: [f32; 2],
    /// where the tile is
    r: [u32; 4],
}
/// Numbers at the pixels of an image.
struct Out {
    w: u32,
    h: u32,
    ch: usize,
    d: Vec<f64>,
}
impl Out {
    fn at(&self, x: u32, y: u32) -> &[f64] {
        let i = (y as usize * self.w as usize + x as usize) * self.ch;
        &self.d[i..i + self.ch]
    }
}
/// What lies beyond the border.
#[derive(Clone, Copy, PartialEq)]
enum Border {
    /// the nearest pixel
    Nearest,
    /// pixels of a level that changes nothing
    Level(u8),
    /// something that can not be written as pixels
    No,
}
struct Local {
    /// how far a result reaches to the left, up, right and down
    reach: [u32; 4],
    border: Border,
    /// differences from floating point
    tol: f64,
    /// the result is smaller than the image by this
    less: (u32, u32),
    f: Box<dyn Fn(&GrayImage) -> Out>,
}
fn out<P: Pixel>(im: Image<P>) -> Out
where
    P::Subpixel: Into<f64>,
{
    Out { w: im.width(), h: im.height(), ch: P::CHANNEL_COUNT as usize, d: im.as_raw().iter().map(|&v| v.into()).collect() }
}
fn colours(g: &GrayImage, k: usize) -> Vec<u8> {
    g.as_raw().iter().flat_map(|&v| (0..k).map(move |i| v.wrapping_mul(2 * i as u8 + 1).wrapping_add(i as u8 * 50))).collect()
}
const NAMES: &[&str] = &[
    "filter_clamped", "box_filter", "median_filter", "gradients", "sharpen3x3 and laplacian_filter", "distance_transform", "euclidean distance", "dilate and erode", "open and close", "grayscale_dilate and erode",
    "grayscale_open and close", "adaptive_threshold", "suppress_non_maximum", "corners_fast", "local_binary_pattern", "match_template", "match_template_with_mask", "bilateral_filter", "gaussian blur", "sharpen_gaussian",
    "median of colours", "separable_filter", "threshold", "roberts gradients",
];
fn local(c: &Case) -> Option<Local> {
    let [a, b, n2, n3] = c.n;
    let norm = [Norm::L1, Norm::LInf, Norm::L2][n2 as usize % 3];
    let small = c.im.d.len() < 3000;
    let all = |r: u32| [r; 4];
    let t = c.t.clone();
    let l = |reach: [u32; 4], border: Border, tol: f64, f: Box<dyn Fn(&GrayImage) -> Out>| Some(Local { reach, border, tol, less: (0, 0), f });
    // the border of a gradient or filter repeats the nearest pixel
    match c.op as usize % NAMES.len() {
        0 => {
            let k: Vec<i32> = t.d.iter().map(|&v| v as i32 % 19 - 9).collect();
            let (w, h) = (t.w, t.h);
            l([w / 2, h / 2, w, h], Border::Nearest, 0., Box::new(move |g| out(filter_clamped::<_, _, i16>(g, Kernel::new(&k, w, h)))))
        }
        1 => l([a, b, a, b], Border::Nearest, 0., Box::new(move |g| out(box_filter(g, a, b)))),
        2 => {
            let (x, y) = if small { (a.min(40), b.min(40)) } else if c.im.w > c.im.h { (a % 1000, b % 6) } else { (a % 6, b % 1000) };
            l([x, y, x, y], Border::Nearest, 0., Box::new(move |g| out(median_filter(g, x, y))))
        }
        3 => l(all(1), Border::Nearest, 0., Box::new(move |g| match n2 % 4 {
            0 => out(sobel_gradients(g)),
            1 => out(prewitt_gradients(g)),
            2 => out(horizontal_scharr(g)),
            _ => out(vertical_sobel(g)),
        })),
        4 => l(all(1), Border::Nearest, 0., Box::new(move |g| if n2 % 2 == 0 { out(sharpen3x3(g)) } else { out(laplacian_filter(g)) })),
        5 => {
            let k = (a % 254) as f64;
            l(all(a % 254 + 1), Border::Level(0), 0., Box::new(move |g| {
                let mut o = out(distance_transform(g, norm));
                o.d.iter_mut().for_each(|d| *d = d.min(k));
                o
            }))
        }
        6 => l(all(a + 1), Border::Level(0), 0., Box::new(move |g| {
            let mut o = out(euclidean_squared_distance_transform(g));
            o.d.iter_mut().for_each(|d| *d = d.min((a as f64).powi(2)));
            o
        })),
        7 => {
            let k = (a % 254) as u8;
            if n3 % 2 == 0 { l(all(k as u32 + 1), Border::Level(0), 0., Box::new(move |g| out(dilate(g, norm, k)))) } else { l(all(k as u32 + 1), Border::Level(255), 0., Box::new(move |g| out(erode(g, norm, k)))) }
        }
        8 => {
            let k = (a % 120) as u8;
            l(all(2 * k as u32 + 2), Border::No, 0., Box::new(move |g| out(if n3 % 2 == 0 { open(g, norm, k) } else { close(g, norm, k) })))
        }
        9 | 10 => {
            if t.w == 0 || t.h == 0 {
                return None;
            }
            let r = a % 12;
            let (cx, cy) = (a % t.w, b % t.h);
            let (mask, reach) = match n2 % 8 {
                0 => (Mask::square(r as u8), all(r)),
                1 => (Mask::diamond(r as u8), all(r)),
                2 => (Mask::disk(r as u8), all(r)),
                _ => (Mask::from_image(&t.luma(), cx as u8, cy as u8), all(t.w.max(t.h))),
            };
            match (c.op as usize % NAMES.len() == 9, n3 % 2 == 0) {
                (true, true) => l(reach, Border::Level(0), 0., Box::new(move |g| out(grayscale_dilate(g, &mask)))),
                (true, false) => l(reach, Border::Level(255), 0., Box::new(move |g| out(grayscale_erode(g, &mask)))),
                (false, o) => l(reach.map(|r| 2 * r), Border::No, 0., Box::new(move |g| out(if o { grayscale_open(g, &mask) } else { grayscale_close(g, &mask) }))),
            }
        }
        11 => {
            let (r, d) = (a.max(1), n2 as i32 % 20 - 10);
            l(all(r), Border::No, 0., Box::new(move |g| out(adaptive_threshold(g, r, d))))
        }
        12 => {
            if c.im.d.len() > 256 {
                return None;
            }
            let r = a % 20;
            l(all(r), Border::No, 0., Box::new(move |g| out(suppress_non_maximum(g, r))))
        }
        13 => {
            let th = (n2 % 60) as u8;
            l(all(3), Border::No, 0., Box::new(move |g| {
                let mut d = vec![-1.; g.as_raw().len()];
                for k in if n3 % 2 == 0 { corners_fast9(g, th) } else { corners_fast12(g, th) } {
                    d[(k.y * g.width() + k.x) as usize] = k.score as f64;
                }
                Out { w: g.width(), h: g.height(), ch: 1, d }
            }))
        }
        14 => l(all(1), Border::No, 0., Box::new(move |g| {
            let mut d = Vec::new();
            for y in 0..g.height() {
                for x in 0..g.width() {
                    d.push(local_binary_pattern(g, x, y).map_or(-1., |p| p as f64));
                }
            }
            Out { w: g.width(), h: g.height(), ch: 1, d }
        })),
        15 | 16 => {
            if t.w == 0 || t.h == 0 {
                return None;
            }
            let m = [M::SumOfSquaredErrors, M::SumOfSquaredErrorsNormalized, M::CrossCorrelation, M::CrossCorrelationNormalized][n2 as usize % 4];
            let masked = c.op as usize % NAMES.len() == 16;
            let mask = Im { w: t.w, h: t.h, d: t.d.iter().enumerate().map(|(i, &v)| (v as u32 * 7 + i as u32 * a) as u8 % 5).collect::<Vec<u8>>() };
            let (w, h) = (t.w, t.h);
            Some(Local { reach: [0, 0, w - 1, h - 1], border: Border::No, tol: if n2 % 2 == 1 { 1e-4 } else if masked { 60. } else { 2. }, less: (w - 1, h - 1), f: Box::new(move |g| {
                if g.width() < w || g.height() < h {
                    return Out { w: 0, h: 0, ch: 1, d: vec![] };
                }
                out(if masked { match_template_with_mask(g, &t.luma(), m, &mask.luma()) } else { match_template(g, &t.luma(), m) })
            }) })
        }
        17 => {
            if !small {
                return None;
            }
            let (r, s, k) = (a % 6, c.q[0].abs() + 0.3, c.q[1].abs() * 30. + 1.);
            l(all(r), Border::Nearest, 0., Box::new(move |g| out(bilateral_filter(g, r as u8, s, GaussianEuclideanColorDistance::new(k)))))
        }
        18 => {
            let s = c.q[0].abs() % 7. + 0.1;
            l(all(4 * s.ceil() as u32 + 4), Border::Nearest, if n2 % 2 == 0 { 2. } else { 0.01 }, Box::new(move |g| if n2 % 2 == 0 { out(gaussian_blur_f32(g, s)) } else {
                out(gaussian_blur_f32(&Image::<Luma<f32>>::from_raw(g.width(), g.height(), g.as_raw().iter().map(|&v| v as f32).collect()).unwrap(), s))
            }))
        }
        19 => {
            let (s, am) = (c.q[0].abs() % 4. + 0.1, c.q[1]);
            l(all(4 * s.ceil() as u32 + 4), Border::Nearest, 1., Box::new(move |g| out(sharpen_gaussian(g, s, am))))
        }
        20 => {
            let (x, y) = if small { (a % 20, b % 20) } else { (a % 30, b % 6) };
            l([x, y, x, y], Border::Nearest, 0., Box::new(move |g| match n2 % 2 {
                0 => out(median_filter(&ImageBuffer::<Rgb<u8>, _>::from_raw(g.width(), g.height(), colours(g, 3)).unwrap(), x, y)),
                _ => out(median_filter(&ImageBuffer::<Rgba<u8>, _>::from_raw(g.width(), g.height(), colours(g, 4)).unwrap(), x, y)),
            }))
        }
        21 => {
            let k = |n: usize, s: u32| (0..n).map(|i| ((s >> (i % 20)) % 7) as i32 - 2).collect::<Vec<i32>>();
            let len = 1 + a as usize % if small { 30 } else { 300 };
            let (h, v) = (k(len, n2), k(len, n3));
            let (w, u) = (h.len() as u32, v.len() as u32);
            l([w, u, w, u], Border::Nearest, 0., Box::new(move |g| out(separable_filter(&Image::<Rgb<i32>>::from_raw(g.width(), g.height(), colours(g, 3).into_iter().map(|v| v as i32 % 16).collect()).unwrap(), &h, &v))))
        }
        22 => {
            let kind = move || match n2 % 5 { 0 => ThresholdType::Binary, 1 => ThresholdType::BinaryInverted, 2 => ThresholdType::Truncate, 3 => ThresholdType::ToZero, _ => ThresholdType::ToZeroInverted };
            l(all(0), Border::Nearest, 0., Box::new(move |g| out(threshold(g, n3 as u8, kind()))))
        }
        _ => l(all(1), Border::Nearest, 0., Box::new(move |g| out(gradients(g, kernel::ROBERTS_HORIZONTAL_2X2, kernel::ROBERTS_VERTICAL_2X2, |p| p)))),
    }
}
fn crop(g: &GrayImage, x: u32, y: u32, w: u32, h: u32) -> GrayImage {
    GrayImage::from_fn(w, h, |i, j| *g.get_pixel(x + i, y + j))
}
fn same(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.iter().zip(b).all(|(a, b)| a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol)
}
/// The tile of the result is the result of the tile and what it reaches.
fn tiles(c: &Case) -> R {
    let name = NAMES[c.op as usize % NAMES.len()];
    let Some(l) = local(c) else { return nt(false) };
    let g: GrayImage = c.im.luma();
    let whole = (l.f)(&g);
    if whole.w == 0 || whole.h == 0 {
        return nt(false);
    }
    ensure!((whole.w, whole.h) == (g.width() - l.less.0, g.height() - l.less.1), "{name} on a {}x{} image: {}x{}", g.width(), g.height(), whole.w, whole.h);
    let (x0, y0) = (c.r[0] % whole.w, c.r[1] % whole.h);
    let (tw, th) = (1 + c.r[2] % (whole.w - x0), 1 + c.r[3] % (whole.h - y0));
    let (mx, my) = (x0.saturating_sub(l.reach[0]), y0.saturating_sub(l.reach[1]));
    let (ex, ey) = ((x0 + tw).saturating_add(l.reach[2]).min(g.width()), (y0 + th).saturating_add(l.reach[3]).min(g.height()));
    let part = (l.f)(&crop(&g, mx, my, ex - mx, ey - my));
    for y in y0..y0 + th {
        for x in x0..x0 + tw {
            let (a, b) = (whole.at(x, y), part.at(x - mx, y - my));
            ensure!(same(a, b, l.tol), "{name} on a {}x{} image gives {a:?} at ({x}, {y}), on its part of {}x{} pixels from ({mx}, {my}) {b:?}", g.width(), g.height(), ex - mx, ey - my);
        }
    }
    lab((mx, my, ex, ey) != (0, 0, g.width(), g.height()) && whole.d.windows(2).any(|v| v[0] != v[1]), name)
}
/// The image with the pixels written out that its border stands for gives the same.
fn borders(c: &Case) -> R {
    let name = NAMES[c.op as usize % NAMES.len()];
    let Some(l) = local(c) else { return nt(false) };
    if l.border == Border::No {
        return nt(false);
    }
    let g: GrayImage = c.im.luma();
    let whole = (l.f)(&g);
    if whole.w == 0 || whole.h == 0 {
        return nt(false);
    }
    let (w, h) = (g.width(), g.height());
    // enough on each side, or more
    let m: Vec<u32> = (0..4).map(|i| l.reach[i] + c.r[i] % 4).collect();
    let padded = GrayImage::from_fn(w + m[0] + m[2], h + m[1] + m[3], |x, y| match l.border {
        Border::Level(v) if x < m[0] || y < m[1] || x >= m[0] + w || y >= m[1] + h => Luma([v]),
        _ => *g.get_pixel(x.saturating_sub(m[0]).min(w - 1), y.saturating_sub(m[1]).min(h - 1)),
    });
    let big = (l.f)(&padded);
    for y in 0..h {
        for x in 0..w {
            let (a, b) = (whole.at(x, y), big.at(x + m[0], y + m[1]));
            ensure!(same(a, b, l.tol), "{name} on a {w}x{h} image gives {a:?} at ({x}, {y}), with {m:?} pixels around it written out {b:?}");
        }
    }
    lab(whole.d.windows(2).any(|v| v[0] != v[1]), name)
}
fn case(im: BoxedStrategy<Im<u8>>, r: u32, ops: BoxedStrategy<u8>) -> BoxedStrategy<Case> {
    let t = prop_oneof![im_u8(side(5), side(5), 1), im_bin(side(6), side(6))].boxed();
    let n = || prop_oneof![3 => 0..r.min(6), 2 => 0..r].boxed();
    (im, t, ops, (n(), n(), any::<u32>(), any::<u32>()), prop::array::uniform2(-10f32..10.), any::<[u32; 4]>()).prop_map(|(mut im, t, op, n, q, r)| {
        // maxima suppression resolves ties by position, so it gets pixels that are all different
        if op == 12 && im.d.len() <= 256 {
            let mut order: Vec<usize> = (0..im.d.len()).collect();
            order.sort_by_key(|&i| (im.d[i], (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 20));
            order.iter().enumerate().for_each(|(rank, &i)| im.d[i] = rank as u8);
        }
        Case { im, t, op, n: [n.0, n.1, n.2, n.3], q, r }
    }).boxed()
}
fn ops() -> BoxedStrategy<u8> {
    (0..NAMES.len() as u8).boxed()
}
/// Those that take little time per pixel.
fn cheap() -> BoxedStrategy<u8> {
    prop::sample::select(vec![0u8, 1, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 18, 19, 22, 23]).boxed()
}
/// Those with a border that can be written out.
fn bordered() -> BoxedStrategy<u8> {
    prop::sample::select(vec![0u8, 1, 2, 3, 4, 5, 6, 7, 9, 17, 18, 19, 20, 21, 23]).boxed()
}

pub fn prop() -> Prop {
    fn small() -> BoxedStrategy<Im<u8>> { prop_oneof![im_u8(side(12), side(12), 1), im_bin(side(12), side(12)), im_of(side(14), side(14), 1, prop_oneof![Just(0u8), Just(3u8), Just(200u8)].boxed())].boxed() }
    fn middle() -> BoxedStrategy<Im<u8>> { prop_oneof![im_u8(side(45), side(45), 1), im_bin(side(45), side(45))].boxed() }
    Prop {
        id: "C51",
        rule: "A tile of a random image is cut out with the margin an operation with a bounded neighbourhood reaches; the operation on the cut-out must give the tile of its result on the whole image. Borders: the pixels beyond the border that an operation stands in for are written out around the image, which must not change the result. Non-trivial: the cut-out is smaller than the image and the result is not the same everywhere.",
        assumptions: &["distances are compared up to the margin", "Gaussian kernels do not reach beyond four standard deviations and a few pixels; blurred values may differ in the last digits, by one level for each time they are rounded"],
        subs: vec![
            sub("tiles", 300_000, || case(small(), 9, ops()), tiles),
            sub("tiles, middle", 25_000, || case(middle(), 45, ops()), tiles),
            sub("tiles, strips", 3000, || case(short_strip(1), 450, ops()), tiles),
            // windows of hundreds of pixels, on images longer than they are
            sub("tiles, windows", 2500, || (any::<bool>(), prop::sample::select(vec![1u8, 2, 2, 2, 20, 11, 21])).prop_flat_map(|(turn, op)| {
                let im = if turn { patterned(1u32..4, 300u32..1400, 1) } else { patterned(300u32..1400, 1u32..4, 1) };
                case(im, 700, Just(op).boxed())
            }).boxed(), tiles),
            sub("tiles, planes", 200, || case(prop_oneof![plane(1), patterned(200u32..520, 200u32..520, 1)].boxed(), 100, cheap()), tiles),
            sub("tiles, long", 90, || case(long(1), 3000, cheap()), tiles),
            sub("borders", 120_000, || case(small(), 9, bordered()), borders),
            sub("borders, middle", 12_000, || case(middle(), 30, bordered()), borders),
            sub("borders, strips", 1000, || case(short_strip(1), 100, bordered()), borders),
        ],
    }
}
