//! C50: operations without a preferred direction commute with mirroring and quarter turns.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{GrayImage, ImageBuffer, Luma, Rgb, Rgba};
use imageproc::contours::{find_contours, BorderType};
use imageproc::contrast::*;
use imageproc::corners::{corners_fast12, corners_fast9};
use imageproc::definitions::Image;
use imageproc::distance_transform::{distance_transform, euclidean_squared_distance_transform, Norm};
use imageproc::drawing::flood_fill;
use imageproc::filter::bilateral::GaussianEuclideanColorDistance;
use imageproc::filter::*;
use imageproc::gradients::*;
use imageproc::kernel::Kernel;
use imageproc::local_binary_patterns::local_binary_pattern;
use imageproc::morphology::*;
use imageproc::region_labelling::{connected_components, Connectivity};
use imageproc::stats::{histogram, percentile};
use imageproc::suppress::suppress_non_maximum;
use imageproc::template_matching::{find_extremes, match_template, match_template_with_mask, MatchTemplateMethod as M};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    im: Im<u8>,
    /// a kernel, mask, template or target
    t: Im<u8>,
    op: u8,
    n: [u32; 4],
    q: [f32; 2],
    sym: u8,
}
/// One of the eight symmetries of the square: mirror the columns (1), the rows (2), then swap both (4).
#[derive(Clone, Copy)]
struct Sym(u8);
impl Sym {
    fn at(self, w: u32, h: u32, x: u32, y: u32) -> (u32, u32) {
        let x = if self.0 & 1 > 0 { w - 1 - x } else { x };
        let y = if self.0 & 2 > 0 { h - 1 - y } else { y };
        if self.0 & 4 > 0 { (y, x) } else { (x, y) }
    }
    fn dims(self, w: u32, h: u32) -> (u32, u32) {
        if self.0 & 4 > 0 { (h, w) } else { (w, h) }
    }
    /// On offsets.
    fn dir(self, (x, y): (i64, i64)) -> (i64, i64) {
        let x = if self.0 & 1 > 0 { -x } else { x };
        let y = if self.0 & 2 > 0 { -y } else { y };
        if self.0 & 4 > 0 { (y, x) } else { (x, y) }
    }
    fn im<T: Copy + Default>(self, im: &Im<T>, ch: usize) -> Im<T> {
        let (w, h) = self.dims(im.w, im.h);
        let mut d = vec![T::default(); im.d.len()];
        for y in 0..im.h {
            for x in 0..im.w {
                let (u, v) = self.at(im.w, im.h, x, y);
                let (a, b) = ((y * im.w + x) as usize * ch, (v * w + u) as usize * ch);
                d[b..b + ch].copy_from_slice(&im.d[a..a + ch]);
            }
        }
        Im { w, h, d }
    }
}
/// What an operation gives, in a form that can be turned.
enum Out {
    /// pixels in channels, and how far values may be apart
    Img(Im<f64>, usize, f64),
    /// labels: only which pixels share one counts
    Parts(Im<f64>),
    /// sets of marked positions, in any order
    Pts(u32, u32, Vec<(String, Vec<(u32, u32)>)>),
    /// unaffected by where pixels are
    Vals(Vec<f64>),
    Not,
}
fn img<P: image::Pixel>(im: &Image<P>, tol: f64) -> Out
where
    P::Subpixel: Into<f64>,
{
    Out::Img(Im { w: im.width(), h: im.height(), d: im.as_raw().iter().map(|&v| v.into()).collect() }, P::CHANNEL_COUNT as usize, tol)
}
fn kernel(t: &Im<u8>) -> Option<(Vec<i32>, u32, u32)> {
    if t.w % 2 == 0 || t.h % 2 == 0 {
        return None;
    }
    Some((t.d.iter().map(|&v| v as i32 % 19 - 9).collect(), t.w, t.h))
}
/// Pixels that are all different, in the order of the grey levels.
fn distinct(im: &Im<u8>) -> Im<u32> {
    let mut order: Vec<usize> = (0..im.d.len()).collect();
    order.sort_by_key(|&i| (im.d[i], (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 20));
    let mut d = vec![0u32; im.d.len()];
    for (rank, &i) in order.iter().enumerate() {
        d[i] = rank as u32 + 1;
    }
    Im { w: im.w, h: im.h, d }
}
const NAMES: &[&str] = &[
    "filter_clamped", "box_filter", "median_filter", "gradients", "sharpen3x3 and laplacian_filter", "distance_transform", "euclidean distance", "binary morphology", "grayscale morphology",
    "connected_components", "contours", "adaptive_threshold", "suppress_non_maximum", "corners_fast", "local_binary_pattern", "match_template", "match_template_with_mask", "flood_fill",
    "levels and histograms", "histogram mapping", "bilateral_filter", "gaussian blur", "find_extremes", "sharpen_gaussian", "median of colours",
];
/// The operation on the image turned by `s`, with its other arguments turned alike.
fn run(c: &Case, s: Sym) -> Out {
    let turned = s.im(&c.im, 1);
    let g: GrayImage = turned.luma();
    let [a, b, n2, n3] = c.n;
    let swap = s.0 & 4 > 0;
    let rad = |a: u32, b: u32| if swap { (b, a) } else { (a, b) };
    let norm = [Norm::L1, Norm::LInf, Norm::L2][n2 as usize % 3];
    let small = c.im.d.len() < 3000;
    match c.op as usize % NAMES.len() {
        0 => match kernel(&s.im(&c.t, 1)) {
            None => Out::Not,
            Some((k, w, h)) => img(&filter_clamped::<_, _, i16>(&g, Kernel::new(&k, w, h)), 0.),
        },
        1 => {
            let (x, y) = rad(a, b);
            // the rounding of the rows comes before that of the columns
            img(&box_filter(&g, x, y), if swap { 1. } else { 0. })
        }
        2 => {
            let (x, y) = if small { rad(a.min(40), b.min(40)) } else { rad(a % 330, b % 6) };
            img(&median_filter(&g, x, y), 0.)
        }
        3 => match n2 % 3 {
            0 => img(&sobel_gradients(&g), 0.),
            1 => img(&prewitt_gradients(&g), 0.),
            _ => {
                let (h, v) = if swap { (vertical_scharr(&g), horizontal_scharr(&g)) } else { (horizontal_scharr(&g), vertical_scharr(&g)) };
                // the response changes its sign with the direction
                let sign = |im: &Image<Luma<i16>>, neg: bool| Im { w: im.width(), h: im.height(), d: im.as_raw().iter().map(|&v| if neg { -(v as f64) } else { v as f64 }).collect::<Vec<f64>>() };
                let (h, v) = (sign(&h, s.0 & 1 > 0), sign(&v, s.0 & 2 > 0));
                let d = h.d.iter().zip(&v.d).flat_map(|(a, b)| [*a, *b]).collect();
                Out::Img(Im { w: h.w, h: h.h, d }, 2, 0.)
            }
        },
        4 => if n2 % 2 == 0 { img(&sharpen3x3(&g), 0.) } else { img(&laplacian_filter(&g), 0.) },
        5 => img(&distance_transform(&g, norm), 0.),
        6 => img(&euclidean_squared_distance_transform(&g), 0.),
        7 => {
            let k = (a % 255) as u8;
            img(&match n3 % 4 { 0 => dilate(&g, norm, k), 1 => erode(&g, norm, k), 2 => open(&g, norm, k), _ => close(&g, norm, k) }, 0.)
        }
        8 => {
            if c.t.w == 0 || c.t.h == 0 {
                return Out::Not;
            }
            let (cx, cy) = s.at(c.t.w, c.t.h, a % c.t.w, b % c.t.h);
            let mask = match n2 % 8 {
                0 => Mask::square((a % 12) as u8),
                1 => Mask::diamond((a % 12) as u8),
                2 => Mask::disk((a % 12) as u8),
                _ => Mask::from_image(&s.im(&c.t, 1).luma(), cx as u8, cy as u8),
            };
            img(&match n3 % 4 { 0 => grayscale_dilate(&g, &mask), 1 => grayscale_erode(&g, &mask), 2 => grayscale_open(&g, &mask), _ => grayscale_close(&g, &mask) }, 0.)
        }
        9 => {
            let conn = if n2 % 2 == 0 { Connectivity::Four } else { Connectivity::Eight };
            let bg = c.im.d.get(n3 as usize % c.im.d.len().max(1)).copied().unwrap_or(0);
            let out = connected_components(&g, conn, Luma([bg]));
            Out::Parts(Im { w: out.width(), h: out.height(), d: out.as_raw().iter().map(|&v| v as f64).collect() })
        }
        10 => {
            let cs = find_contours::<u32>(&g);
            let key = |i: usize| {
                let mut p: Vec<(u32, u32)> = cs[i].points.iter().map(|p| (p.x, p.y)).collect();
                p.sort();
                p.dedup();
                (if cs[i].border_type == BorderType::Outer { "outer" } else { "hole" }.to_string(), p)
            };
            let mut all = Vec::new();
            for (i, c) in cs.iter().enumerate() {
                let (kind, pts) = key(i);
                let parent = match c.parent {
                    None => "no parent".to_string(),
                    // the position of the parent turns with the image, so only its size and kind are noted
                    Some(p) => { let (k, q) = key(p); format!("{k} parent of {}", q.len()) }
                };
                all.push((format!("{kind}, {parent}"), pts));
            }
            Out::Pts(g.width(), g.height(), all)
        }
        11 => img(&adaptive_threshold(&g, a.max(1), n2 as i32 % 20 - 10), 0.),
        12 => {
            let d = s.im(&distinct(&c.im), 1);
            let im: Image<Luma<u32>> = d.luma();
            let out = suppress_non_maximum(&im, if small { a % 40 } else { a });
            Out::Img(Im { w: out.width(), h: out.height(), d: out.as_raw().iter().map(|&v| v as f64).collect() }, 1, 0.)
        }
        13 => {
            let t = (n2 % 60) as u8;
            let cs = if n3 % 2 == 0 { corners_fast9(&g, t) } else { corners_fast12(&g, t) };
            let mut by: BTreeMap<u64, Vec<(u32, u32)>> = BTreeMap::new();
            for k in cs {
                by.entry(k.score.to_bits() as u64).or_default().push((k.x, k.y));
            }
            Out::Pts(g.width(), g.height(), by.into_iter().map(|(s, p)| (format!("score {}", f32::from_bits(s as u32)), p)).collect())
        }
        14 => {
            // bit n tells of the neighbour in direction n; noted by the direction before the turn
            const D: [(i64, i64); 8] = [(0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1)];
            let to: Vec<usize> = D.iter().map(|&d| D.iter().position(|&e| e == s.dir(d)).unwrap()).collect();
            let mut d = Vec::new();
            for y in 0..g.height() {
                for x in 0..g.width() {
                    d.push(match local_binary_pattern(&g, x, y) {
                        None => -1.,
                        Some(p) => (0..8).map(|i| ((p >> to[i] & 1) as u32) << i).sum::<u32>() as f64,
                    });
                }
            }
            Out::Img(Im { w: g.width(), h: g.height(), d }, 1, 0.)
        }
        15 | 16 => {
            let t = s.im(&c.t, 1).luma();
            if t.width() == 0 || t.height() == 0 || t.width() > g.width() || t.height() > g.height() {
                return Out::Not;
            }
            let all = [M::SumOfSquaredErrors, M::SumOfSquaredErrorsNormalized, M::CrossCorrelation, M::CrossCorrelationNormalized];
            let m = all[n2 as usize % 4];
            // sums of more than 2^24 are rounded on the way
            let big = t.width() as f64 * t.height() as f64 * 65025. > 16_777_216.;
            let tol = if big { if n2 % 2 == 0 { t.width() as f64 * t.height() as f64 * 65025. * 1e-5 } else { 1e-4 } } else { 0. };
            if c.op as usize % NAMES.len() == 15 {
                img(&match_template(&g, &t, m), tol)
            } else {
                let mask = Im { w: c.t.w, h: c.t.h, d: c.t.d.iter().enumerate().map(|(i, &v)| (v as u32 * 7 + i as u32 * a) as u8 % 5).collect() };
                let big = tol > 0.;
                img(&match_template_with_mask(&g, &t, m, &s.im(&mask, 1).luma()), if n2 % 2 == 0 { if big { tol * 25. } else { t.width() as f64 * t.height() as f64 * 65025. * 25. * 1e-6 } } else { 1e-4 })
            }
        }
        17 => {
            if g.width() == 0 || g.height() == 0 {
                return Out::Not;
            }
            let (x, y) = s.at(c.im.w, c.im.h, a % c.im.w, b % c.im.h);
            img(&flood_fill(&g, x, y, Luma([(n3 >> 8) as u8])), 0.)
        }
        18 => {
            if g.width() == 0 || g.height() == 0 {
                return Out::Not;
            }
            let mut v: Vec<f64> = histogram(&g).channels[0].iter().map(|&v| v as f64).collect();
            v.push(percentile(&g, (n2 % 101) as u8) as f64);
            v.push(otsu_level(&g) as f64);
            v.push(kapur_level(&g) as f64);
            Out::Vals(v)
        }
        19 => match n2 % 3 {
            0 => img(&equalize_histogram(&g), 0.),
            1 if c.t.w > 0 && c.t.h > 0 => img(&match_histogram(&g, &c.t.luma()), 0.),
            _ => img(&stretch_contrast(&g, (n3 % 100) as u8, 100 + (b % 156) as u8, 0, 255), 0.),
        },
        20 => if g.width() == 0 || g.height() == 0 || !small { Out::Not } else { img(&bilateral_filter(&g, (a % 5) as u8, c.q[0].abs() + 0.3, GaussianEuclideanColorDistance::new(c.q[1].abs() * 30. + 1.)), 1.) },
        21 => if n2 % 2 == 0 { img(&gaussian_blur_f32(&g, c.q[0].abs() % 7. + 0.1), 2.) } else {
            let f: Image<Luma<f32>> = ImageBuffer::from_raw(g.width(), g.height(), g.as_raw().iter().map(|&v| v as f32).collect()).unwrap();
            img(&gaussian_blur_f32(&f, c.q[0].abs() % 7. + 0.1), 0.01)
        },
        22 => {
            if g.width() == 0 || g.height() == 0 {
                return Out::Not;
            }
            let d = s.im(&distinct(&c.im), 1);
            let im: Image<Luma<u32>> = d.luma();
            let e = find_extremes(&im);
            Out::Pts(g.width(), g.height(), vec![(format!("max {}", e.max_value), vec![e.max_value_location]), (format!("min {}", e.min_value), vec![e.min_value_location])])
        }
        23 => img(&sharpen_gaussian(&g, c.q[0].abs() % 4. + 0.1, c.q[1]), 1.),
        _ => {
            // the channels are the image itself, and it after moving its levels
            let (x, y) = if small { rad(a % 20, b % 20) } else { rad(a % 30, b % 6) };
            let ch = |k: usize| -> Vec<u8> { turned.d.iter().flat_map(|&v| (0..k).map(move |i| v.wrapping_mul(2 * i as u8 + 1).wrapping_add(i as u8 * 50))).collect() };
            match n2 % 2 {
                0 => img(&median_filter(&ImageBuffer::<Rgb<u8>, _>::from_raw(turned.w, turned.h, ch(3)).unwrap(), x, y), 0.),
                _ => img(&median_filter(&ImageBuffer::<Rgba<u8>, _>::from_raw(turned.w, turned.h, ch(4)).unwrap(), x, y), 0.),
            }
        }
    }
}
fn check(c: &Case) -> R {
    let op = c.op as usize % NAMES.len();
    let name = NAMES[op];
    let s = Sym(c.sym % 8);
    let plain = run(c, Sym(0));
    let got = run(c, s);
    let how = format!("mirrored columns {}, mirrored rows {}, transposed {}", s.0 & 1, s.0 >> 1 & 1, s.0 >> 2 & 1);
    match (plain, got) {
        (Out::Img(p, ch, _), Out::Img(g, _, tol)) => {
            let want = s.im(&p, ch);
            ensure!((want.w, want.h) == (g.w, g.h), "{name} on a {}x{} image ({how}): {}x{} instead of {}x{}", c.im.w, c.im.h, g.w, g.h, want.w, want.h);
            for i in 0..want.d.len() {
                let (a, b) = (want.d[i], g.d[i]);
                let same = a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol;
                ensure!(same, "{name} on a {}x{} image ({how}) gives {b} at ({}, {}) channel {}, the turned result has {a}", c.im.w, c.im.h, (i / ch) as u32 % want.w, (i / ch) as u32 / want.w, i % ch);
            }
            lab(p.varied(), name)
        }
        (Out::Parts(p), Out::Parts(g)) => {
            let want = s.im(&p, 1);
            let mut there: BTreeMap<u64, u64> = BTreeMap::new();
            let mut back: BTreeMap<u64, u64> = BTreeMap::new();
            there.insert(0, 0);
            back.insert(0, 0);
            ensure!(want.d.len() == g.d.len(), "{name} ({how}): {} labels instead of {}", g.d.len(), want.d.len());
            for (i, (a, b)) in want.d.iter().zip(&g.d).enumerate() {
                let (a, b) = (*a as u64, *b as u64);
                let (t, u) = (*there.entry(a).or_insert(b), *back.entry(b).or_insert(a));
                ensure!(t == b && u == a, "{name} on a {}x{} image ({how}): pixel {i} is labelled {b} with {u}, without turning it is {a} with {t}", c.im.w, c.im.h);
            }
            lab(there.len() > 2, name)
        }
        (Out::Pts(w, h, p), Out::Pts(_, _, mut g)) => {
            let n = p.len();
            let mut want: Vec<(String, Vec<(u32, u32)>)> = p.into_iter().map(|(k, v)| (k, v.into_iter().map(|(x, y)| s.at(w, h, x, y)).collect())).collect();
            for l in [&mut want, &mut g] {
                l.iter_mut().for_each(|(_, v)| v.sort());
                l.sort();
            }
            ensure!(want == g, "{name} on a {w}x{h} image ({how}) gives {g:?}, the turned result is {want:?}");
            lab(n > 1 || g.iter().any(|(_, v)| v.len() > 1), name)
        }
        (Out::Vals(p), Out::Vals(g)) => {
            ensure!(p == g, "{name} on a {}x{} image ({how}) gives {g:?}, without turning {p:?}", c.im.w, c.im.h);
            lab(c.im.varied(), name)
        }
        (Out::Not, Out::Not) => nt(false),
        _ => Err("turned arguments are accepted differently".into()),
    }
}
fn case(im: BoxedStrategy<Im<u8>>, r: u32, ops: BoxedStrategy<u8>) -> BoxedStrategy<Case> {
    let t = prop_oneof![im_u8(side(5), side(5), 1), im_bin(side(6), side(6))].boxed();
    let n = || prop_oneof![3 => 0..r.min(6), 2 => 0..r].boxed();
    (im, t, ops, (n(), n(), any::<u32>(), any::<u32>()), prop::array::uniform2(-10f32..10.), 1u8..8).prop_map(|(im, t, op, n, q, sym)| Case { im, t, op, n: [n.0, n.1, n.2, n.3], q, sym }).boxed()
}
fn ops() -> BoxedStrategy<u8> {
    (0..NAMES.len() as u8).boxed()
}
/// Those that take little time per pixel.
fn cheap() -> BoxedStrategy<u8> {
    prop::sample::select(vec![0u8, 1, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 17, 18, 19, 21, 22, 23]).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C50",
        rule: "A random image is mirrored, transposed or turned (seven symmetries) together with the kernel, mask, template, radii or position an operation takes; the result must be the mirrored or turned result on the original. Non-trivial: the result is not the same everywhere, respectively has more than one region or point.",
        assumptions: &["kernels of odd sides (those of even sides have no middle)", "results computed in floating point may differ in the last digits, and by one level for each time they are rounded to levels", "a transposed box filter rounds rows and columns in another order, so may differ by one level", "ties between equal pixels are resolved by position: maxima suppression and extremes are tried on images of different values"],
        subs: vec![
            sub("small", 400_000, || case(prop_oneof![im_u8(side0(10), side0(10), 1), im_bin(side0(10), side0(10)), im_of(side0(12), side0(12), 1, prop_oneof![Just(0u8), Just(3u8), Just(200u8)].boxed())].boxed(), 14, ops()), check),
            sub("middle", 30_000, || case(prop_oneof![im_u8(side(40), side(40), 1), im_bin(side(40), side(40))].boxed(), 45, ops()), check),
            sub("strips", 4000, || case(short_strip(1), 450, ops()), check),
            sub("planes", 300, || case(prop_oneof![plane(1), patterned(200u32..520, 200u32..520, 1)].boxed(), 300, cheap()), check),
            sub("long", 90, || case(long(1), 70000, cheap()), check),
        ],
    }
}
