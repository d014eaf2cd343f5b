//! C45: arguments outside a function's stated domain are refused, those inside are accepted.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::other;
use image::{GrayImage, ImageBuffer, Luma, Rgb, RgbImage};
use imageproc::binary_descriptors::{brief::*, *};
use imageproc::compose::*;
use imageproc::contrast::*;
use imageproc::corners::Corner;
use imageproc::definitions::Image;
use imageproc::drawing::*;
use imageproc::edges::canny;
use imageproc::filter::bilateral::{bilateral_filter, GaussianEuclideanColorDistance};
use imageproc::filter::*;
use imageproc::geometry::*;
use imageproc::haar::*;
use imageproc::integral_image::*;
use imageproc::kernel::Kernel;
use imageproc::local_binary_patterns::local_binary_pattern;
use imageproc::map::map_pixels2;
use imageproc::morphology::Mask;
use imageproc::point::Point;
use imageproc::rect::Rect;
use imageproc::seam_carving::*;
use imageproc::stats::*;
use imageproc::template_matching::*;
use imageproc::union_find::DisjointSetForest;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Runs f; the call must succeed exactly if `accept`. Gives the result of an accepted call.
fn call<T>(what: impl Fn() -> String, accept: bool, f: impl FnOnce() -> T) -> Result<Option<T>, Fail> {
    match no_panic(f) {
        Ok(v) => {
            ensure!(accept, "{}: accepted, although outside the stated domain", what());
            Ok(Some(v))
        }
        Err(e) => {
            ensure!(!accept, "{}: refused, although inside the stated domain: {e}", what());
            Ok(None)
        }
    }
}
/// Parallel functions are left out of a build without them.
#[cfg(feature = "rayon")]
const PAR: &[bool] = &[false, true];
#[cfg(not(feature = "rayon"))]
const PAR: &[bool] = &[false];
#[cfg(not(feature = "rayon"))]
mod par {
    pub use imageproc::compose::crop as crop_parallel;
    pub use imageproc::filter::filter as filter_parallel;
    pub use imageproc::template_matching::{match_template as match_template_parallel, match_template_with_mask as match_template_with_mask_parallel};
}
#[cfg(not(feature = "rayon"))]
use par::*;
macro_rules! call {
    ($accept:expr, $e:expr, $($what:tt)+) => {
        call(|| format!($($what)+), $accept, || $e)?
    };
}
fn gray(w: u32, h: u32) -> GrayImage {
    Image::from_fn(w, h, |x, y| Luma([(x * 37 + y * 91 + 1) as u8]))
}
fn rgb(w: u32, h: u32) -> RgbImage {
    Image::from_fn(w, h, |x, y| Rgb([(x * 37 + y * 91) as u8, x as u8, y as u8]))
}

/// A size and an amount close to it: (size, amount).
fn near(max: u32) -> BoxedStrategy<(u32, u32)> {
    side0(max)
        .prop_flat_map(|s| {
            let edge = move |d: i64| (s as i64 + d).max(0) as u32;
            (Just(s), prop_oneof![4 => (-2i64..=2).prop_map(edge), 3 => 0..=s, 1 => 0..=2 * s + 2, 1 => Just(u32::MAX), 1 => Just(u32::MAX - s), 1 => (1u32..4).prop_map(move |k| (u32::MAX - s).wrapping_add(k))])
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Place {
    /// size and position along x and y
    x: (u32, u32),
    y: (u32, u32),
    /// the other image or the window
    w: u32,
    h: u32,
}
fn places(c: &Place) -> R {
    let (iw, ih) = (c.x.0, c.y.0);
    let (x, y, w, h) = (c.x.1, c.y.1, c.w, c.h);
    let im = rgb(iw, ih);
    // crop: the window must lie in the image
    let fits = x as u64 + w as u64 <= iw as u64 && y as u64 + h as u64 <= ih as u64;
    let r = image::math::Rect { x, y, width: w, height: h };
    for &par in PAR {
        let o = call!(fits, if par { crop_parallel(&im, r) } else { crop(&im, r) }, "crop{} of a {iw}x{ih} image to {r:?}", if par { "_parallel" } else { "" });
        if let Some(o) = o {
            ensure!(o.dimensions() == (w, h), "crop of a {iw}x{ih} image to {r:?} is {:?}", o.dimensions());
        }
    }
    // pasting: the corner must lie in the lower image; what sticks out is cut off
    let top = rgb(w.min(12), h.min(12));
    let (tw, th) = top.dimensions();
    let inside = x < iw && y < ih;
    if let Some(o) = call!(inside, replace(&im, &top, x, y), "replace of a {tw}x{th} image at ({x},{y}) of a {iw}x{ih} image") {
        ensure!(o.dimensions() == (iw, ih), "replace changes the size to {:?}", o.dimensions());
    }
    if let Some(o) = call!(inside, overlay(&im, &top, x, y), "overlay of a {tw}x{th} image at ({x},{y}) of a {iw}x{ih} image") {
        ensure!(o.dimensions() == (iw, ih), "overlay changes the size to {:?}", o.dimensions());
    }
    let mut m = im.clone();
    call!(inside, replace_mut(&mut m, &top, x, y), "replace_mut of a {tw}x{th} image at ({x},{y}) of a {iw}x{ih} image");
    let mut m = im.clone();
    call!(inside, overlay_mut(&mut m, &top, x, y), "overlay_mut of a {tw}x{th} image at ({x},{y}) of a {iw}x{ih} image");
    // local binary patterns exist where all eight neighbours do
    let g = gray(iw, ih);
    let all = x >= 1 && y >= 1 && (x as u64) + 1 < iw as u64 && (y as u64) + 1 < ih as u64;
    let p = no_panic(|| local_binary_pattern(&g, x, y)).map_err(Fail::from)?;
    ensure!(p.is_some() == all, "local_binary_pattern of a {iw}x{ih} image at ({x},{y}) is {p:?}");
    // rectangles have a positive size
    let (rw, rh) = (w.min(1000), h.min(1000));
    if let Some(r) = call!(rw > 0 && rh > 0, Rect::at(3, -4).of_size(rw, rh), "a rectangle of size {rw}x{rh}") {
        ensure!((r.width(), r.height()) == (rw, rh), "a rectangle of size {rw}x{rh} is {r:?}");
    }
    // running sums
    for (row, along, n) in [(true, iw, y), (false, ih, x)] {
        let pad = w.min(6);
        let len = h as usize + pad as usize;
        if len > 1000 {
            continue;
        }
        let mut buf = vec![0u32; len];
        let ok = len as u64 >= along as u64 + 2 * pad as u64 && n < (if row { ih } else { iw }) && along > 0;
        let f = || if row { row_running_sum(&g, n, &mut buf, pad) } else { column_running_sum(&g, n, &mut buf, pad) };
        call(|| format!("{} running sum {n} of a {iw}x{ih} image, buffer of {len}, padding {pad}", if row { "row" } else { "column" }), ok, f)?;
    }
    lab(iw > 0 && ih > 0, match (fits, inside) { (true, true) => "all accepted", (false, true) => "crop refused", (true, false) => "paste refused", _ => "all refused" })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    a: (u32, u32),
    b: (u32, u32),
    c: (u32, u32),
    method: u8,
}
/// Functions of two or three images whose sizes must be related.
fn pairs(c: &Pair) -> R {
    let ((w, h), (tw, th), (mw, mh)) = (c.a, c.b, c.c);
    let (im, t, m) = (gray(w, h), gray(tw, th), gray(mw, mh));
    let same = c.a == c.b;
    if let Some(o) = call!(same, map_pixels2(&im, &t, |p, q| Luma([p[0] ^ q[0]])), "map_pixels2 of {w}x{h} and {tw}x{th}") {
        ensure!(o.dimensions() == c.a, "map_pixels2 of {w}x{h} images is {:?}", o.dimensions());
    }
    if w > 0 && h > 0 && tw > 0 && th > 0 {
        call!(same, root_mean_squared_error(&im, &t), "root_mean_squared_error of {w}x{h} and {tw}x{th}");
        call!(same, peak_signal_to_noise_ratio(&im, &t), "peak_signal_to_noise_ratio of {w}x{h} and {tw}x{th}");
    }
    // a template as large as the image is refused by the documentation and accepted by the tests
    if tw > 0 && th > 0 {
        use MatchTemplateMethod::*;
        let method = [SumOfSquaredErrors, SumOfSquaredErrorsNormalized, CrossCorrelation, CrossCorrelationNormalized][c.method as usize % 4];
        let fits = tw <= w && th <= h;
        let size = (w.wrapping_sub(tw).wrapping_add(1), h.wrapping_sub(th).wrapping_add(1));
        for &par in PAR {
            let o = call!(fits, if par { match_template_parallel(&im, &t, method) } else { match_template(&im, &t, method) }, "match_template (parallel: {par}) of {tw}x{th} in {w}x{h}");
            ensure!(o.as_ref().is_none_or(|o| o.dimensions() == size), "match_template of {tw}x{th} in {w}x{h} is {:?}", o.map(|o| o.dimensions()));
            let ok = fits && c.b == c.c;
            let o = call!(ok, if par { match_template_with_mask_parallel(&im, &t, method, &m) } else { match_template_with_mask(&im, &t, method, &m) }, "match_template_with_mask (parallel: {par}) of {tw}x{th} in {w}x{h}, mask {mw}x{mh}");
            ensure!(o.as_ref().is_none_or(|o| o.dimensions() == size), "match_template_with_mask of {tw}x{th} in {w}x{h} is {:?}", o.map(|o| o.dimensions()));
        }
    }
    // empty images
    let full = w > 0 && h > 0;
    call!(full, find_extremes(&im), "find_extremes of a {w}x{h} image");
    call!(full, min_max(&im), "min_max of a {w}x{h} image");
    if let Some(o) = call!(full, bilateral_filter(&im, 1, 1.5, GaussianEuclideanColorDistance::new(9.0)), "bilateral_filter of a {w}x{h} image") {
        ensure!(o.dimensions() == c.a, "bilateral_filter of a {w}x{h} image is {:?}", o.dimensions());
    }
    call!(full, BresenhamLinePixelIter::new(&im, (0.0, 0.0), (tw as f32, th as f32)).count(), "BresenhamLinePixelIter on a {w}x{h} image");
    let mut g = im.clone();
    call!(full, BresenhamLinePixelIterMut::new(&mut g, (0.0, 0.0), (tw as f32, th as f32)).count(), "BresenhamLinePixelIterMut on a {w}x{h} image");
    // seams: found in images two or more wide, removed from images of the same height
    let target = tw.max(1);
    if h > 0 {
        if let Some(o) = call!(target <= w && (w == target || w >= 2), shrink_width(&im, target), "shrink_width of a {w}x{h} image to {target}") {
            ensure!(o.dimensions() == (target, h), "shrink_width of a {w}x{h} image to {target} is {:?}", o.dimensions());
        }
        if let Some(s) = call!(w >= 2, find_vertical_seam(&im), "find_vertical_seam of a {w}x{h} image") {
            let into = gray(w, th);
            if let Some(o) = call!(th == h, remove_vertical_seam(&into, &s), "removing a seam of height {h} from a {w}x{th} image") {
                ensure!(o.dimensions() == (w - 1, h), "removing a seam from a {w}x{h} image gives {:?}", o.dimensions());
            }
        }
    }
    // filters between types of equally many channels
    if full {
        let k = Kernel::new(&[1.0f32], 1, 1);
        call!(true, filter::<_, f32, _, Luma<u16>>(&im, k, |v| v as u16), "filter from one channel to one");
        call!(false, filter::<_, f32, _, Rgb<u16>>(&im, k, |v| v as u16), "filter from one channel to three");
        call!(false, filter_parallel::<_, f32, _, Rgb<u16>>(&im, k, |v| v as u16), "filter_parallel from one channel to three");
        let three = rgb(w, h);
        call!(true, filter::<_, f32, _, Rgb<u16>>(&three, k, |v| v as u16), "filter from three channels to three");
        call!(false, filter::<_, f32, _, Luma<u16>>(&three, k, |v| v as u16), "filter from three channels to one");
        call!(false, filter_parallel::<_, f32, _, Luma<u16>>(&three, k, |v| v as u16), "filter_parallel from three channels to one");
    }
    lab(full, if same { "same size" } else if tw <= w && th <= h { "fits" } else { "does not fit" })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nums {
    b: [u8; 4],
    /// lengths
    n: [u32; 4],
    /// bits of two f32 (JSON has no NaN)
    f: [u32; 2],
    w: u32,
    h: u32,
}
/// Functions with conditions on numbers.
fn numbers(c: &Nums) -> R {
    let g = gray(c.w, c.h);
    let [p, q, r, s] = c.b;
    let [n, m, k, l] = c.n;
    let [a, b] = c.f.map(f32::from_bits);
    let size = (c.w, c.h);
    macro_rules! sized {
        ($ok:expr, $e:expr, $($what:tt)+) => {
            if let Some(o) = call!($ok, $e, $($what)+) {
                ensure!(o.dimensions() == size, "{}: the result is {:?}, the image {size:?}", format!($($what)+), o.dimensions());
            }
        };
    }
    if c.w > 0 && c.h > 0 {
        call!(p <= 100, percentile(&g, p), "percentile {p}");
        sized!(n > 0, adaptive_threshold(&g, n, 3), "adaptive_threshold of radius {n}");
        if a.is_finite() && b.is_finite() || c.w < 3 {
            sized!(b >= a, canny(&g, a, b), "canny with thresholds {a}, {b}");
        }
        let sigma = a.clamp(-5.0, 5.0);
        sized!(sigma > 0.0, gaussian_blur_f32(&g, sigma), "gaussian_blur_f32 with sigma {sigma}");
        let (hk, vk) = (vec![0.25f32; n as usize % 6 + 1], vec![0.25f32; m as usize % 6 + 1]);
        sized!(hk.len() == vk.len(), separable_filter(&g, &hk, &vk), "separable_filter with {} and {} coefficients", hk.len(), vk.len());
        let three = rgb(c.w, c.h);
        sized!(p < q && r <= s, stretch_contrast(&g, p, q, r, s), "stretch_contrast of {p}..{q} to {r}..{s}");
        sized!(p < q && r <= s, stretch_contrast(&three, p, q, r, s), "stretch_contrast of {p}..{q} to {r}..{s} (rgb)");
        let mut o = g.clone();
        call!(p < q && r <= s, stretch_contrast_mut(&mut o, p, q, r, s), "stretch_contrast_mut of {p}..{q} to {r}..{s}");
        // Haar features must lie in the image
        let fs = enumerate_haar_features(4, 4);
        let f = fs[(p as usize + 256 * q as usize) % fs.len()];
        // read off the largest image on which the feature is defined to the left or above
        let ii: Image<Luma<u32>> = integral_image(&g);
        let (fw, fh) = extent(&f);
        call!(fw <= c.w && fh <= c.h, f.evaluate(&ii), "{f:?} on a {}x{} image", c.w, c.h);
    }
    // kernels
    let data = vec![1i32; k as usize];
    if let Some(ker) = call!(n > 0 && m > 0 && n as u64 * m as u64 == k as u64, Kernel::new(&data, n, m), "a {n}x{m} kernel of {k} coefficients") {
        call!(true, ker.get(n - 1, m - 1), "the last coefficient of a {n}x{m} kernel");
        call!(false, ker.get(n - 1, m), "a coefficient below a {n}x{m} kernel");
    }
    // sets
    if l < 5000 {
        let mut f = DisjointSetForest::new(l as usize);
        let (i, j) = (n as usize, m as usize);
        let (oi, oj) = (i < l as usize, j < l as usize);
        call!(oi, f.root(i), "root of {i} among {l}");
        call!(oi && oj, f.find(i, j), "find of {i}, {j} among {l}");
        call!(oi && oj, f.union(i, j), "union of {i}, {j} among {l}");
        call!(oj, f.root(j), "root of {j} among {l}");
    }
    // geometry
    let pts: Vec<Point<i32>> = (0..n.min(5)).map(|i| Point::new((i as i32 * 7) % 5, (i as i32 * 3) % 4)).collect();
    if !a.is_nan() {
        let o = call!(a > 0.0, approximate_polygon_dp(&pts, a as f64, p & 1 == 1), "approximate_polygon_dp with epsilon {a}");
        ensure!(o.is_none_or(|o| o.len() <= pts.len() + 1), "approximate_polygon_dp adds points to {pts:?}");
    }
    call!(!pts.is_empty(), min_area_rect(&pts), "min_area_rect of {} points", pts.len());
    let fp: Vec<Point<f32>> = pts.iter().map(|p| Point::new(p.x as f32, p.y as f32)).collect();
    let mut canvas = gray(c.w, c.h);
    call!(fp.len() != 1, draw_hollow_polygon(&mut canvas, &fp, Luma([9])), "draw_hollow_polygon of {} points", fp.len());
    call!(fp.len() != 1, draw_hollow_polygon_mut(&mut canvas, &fp, Luma([9])), "draw_hollow_polygon_mut of {} points", fp.len());
    call!(true, draw_polygon_mut(&mut canvas, &pts, Luma([9])), "draw_polygon_mut of {} points", pts.len());
    call!(true, draw_antialiased_polygon_mut(&mut canvas, &pts, Luma([9]), |a, _, _| a), "draw_antialiased_polygon_mut of {} points", pts.len());
    lab(p <= 100 && p < q, if n > 0 && m > 0 { "positive" } else { "zero" })
}
/// The right and lower ends of a feature, from its debug output.
fn extent(f: &HaarFeature) -> (u32, u32) {
    // draw the feature on a canvas large enough for all features and take the bounding box
    let out = draw_haar_feature(&Image::<Luma<u8>>::from_pixel(8, 8, Luma([128])), *f);
    let mut e = (0, 0);
    for (x, y, p) in out.enumerate_pixels() {
        if p[0] != 128 {
            e = (e.0.max(x + 1), e.1.max(y + 1));
        }
    }
    e
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Desc {
    len: (u32, u32),
    subset: u32,
    pairs: usize,
    bits: usize,
    im: (u32, u32),
    key: (u32, u32),
}
fn descriptors(c: &Desc) -> R {
    let d = |n: u32| BriefDescriptor { bits: (0..n as u128).map(|i| i * 77 + 5).collect(), corner: Corner::new(1, 2, 0.0) };
    let (a, b) = (d(c.len.0), d(c.len.1));
    let o = call!(c.len.0 == c.len.1, a.hamming_distance(&b), "distance of descriptors of {} and {} bits", a.get_size(), b.get_size());
    ensure!(o.is_none_or(|o| o == 0), "equal descriptors differ");
    if c.len.0 > 0 {
        let sub: Vec<u32> = (0..c.subset).map(|i| i % a.get_size()).collect();
        call!(c.subset <= 128, a.get_bit_subset(&sub), "{} bits of a descriptor", c.subset);
    }
    // key points closer to the border than a patch, wrong lengths, missing pairs
    let g = gray(c.im.0, c.im.1);
    let pairs: Vec<TestPair> = (0..c.pairs).map(|i| TestPair { p0: Point::new(i as u32 % 31, i as u32 / 31 % 31), p1: Point::new(30 - i as u32 % 31, 15) }).collect();
    let (w, h) = (c.im.0 as i64, c.im.1 as i64);
    let (x, y) = (c.key.0 as i64, c.key.1 as i64);
    let ok = x >= 16 && y >= 16 && x <= w - 17 && y <= h - 17 && c.bits % 128 == 0 && c.pairs == c.bits;
    let what = || format!("brief of a {w}x{h} image at ({x},{y}), {} bits from {} pairs", c.bits, c.pairs);
    let r = no_panic(|| brief(&g, &[Point::new(c.key.0, c.key.1)], c.bits, Some(&pairs))).map_err(|e| Fail::from(format!("{}: {e}", what())))?;
    ensure!(r.is_ok() == ok, "{}: {:?}", what(), r.map(|r| r.0.len()));
    lab(c.len.0 > 0, if ok { "accepted" } else { "refused" })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wide {
    w: u32,
    h: u32,
}
/// Masks of at most 511 pixels a side.
fn wide(c: &Wide) -> R {
    let g = GrayImage::from_fn(c.w, c.h, |x, y| Luma([(x == y) as u8]));
    call!(c.w < 512 && c.h < 512, Mask::from_image(&g, 3, 7), "a mask from a {}x{} image", c.w, c.h);
    lab(c.w > 2 && c.h > 2, if c.w < 512 && c.h < 512 { "mask accepted" } else { "mask refused" })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case {
    Places(Place),
    Pairs(Pair),
    Numbers(Nums),
    Descriptors(Desc),
    Wide(Wide),
}
fn here(c: &Case) -> R {
    match c {
        Case::Places(c) => places(c),
        Case::Pairs(c) => pairs(c),
        Case::Numbers(c) => numbers(c),
        Case::Descriptors(c) => descriptors(c),
        Case::Wide(c) => wide(c),
    }
}
/// What the other build replies to a case.
pub fn answer(c: &str) -> String {
    match here(&serde_json::from_str(c).expect("case")) {
        Ok(_) => "as stated".into(),
        Err(f) => f.msg,
    }
}
fn check(c: &Case) -> R {
    let r = here(c)?;
    match other::ask("C45", &serde_json::to_string(c).unwrap()).as_deref() {
        Some("as stated") => Ok(r),
        Some(m) => Err(format!("in a sequential build without overflow checks and debug assertions: {m}").into()),
        None => Err("a sequential build without overflow checks and debug assertions died".into()),
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C45",
        rule: "Calls with arguments on both sides of every stated limit: windows and positions around the image's sides and near the largest integers, image pairs of equal and of slightly different sizes, empty images, templates and masks that just fit or just do not, thresholds, percentages, radii, lengths and indices around their bounds, kernels, filters and descriptors of matching and other lengths, masks around 511 pixels. Non-trivial: the image is not empty and the arguments that matter vary.",
        assumptions: &["a refusal is a panic; two builds are asked, with and without overflow checks and debug assertions", "a template as large as the image is accepted (the documentation says otherwise)"],
        subs: vec![
            sub("places", 250000, || (near(9), near(9), 0u32..12, 0u32..12, any::<u8>()).prop_map(|(x, y, w, h, k)| Place { x, y, w: if k < 20 { u32::MAX - w } else { w }, h: if k % 20 == 3 { u32::MAX - h } else { h } }).prop_map(Case::Places).boxed(), check),
            sub("image pairs", 60000, || {
                (side0(9), side0(9), 0u8..8, -2i32..3, -2i32..3, -1i32..2, -1i32..2, any::<u8>()).prop_map(|(w, h, k, dx, dy, mx, my, method)| {
                    let add = |a: u32, d: i32| (a as i32 + d).max(0) as u32;
                    let b = match k { 0..=2 => (w, h), 3 => (w, add(h, dy)), 4 => (add(w, dx), h), 5 => (w / 2, h / 2), _ => (add(w, dx), add(h, dy)) };
                    let c = if method & 4 == 0 { b } else { (add(b.0, mx), add(b.1, my)) };
                    Pair { a: (w, h), b, c, method }
                }).prop_map(Case::Pairs).boxed()
            }, check),
            sub("numbers", 100000, || {
                let b = || prop_oneof![3 => 97u8..105, 2 => Just(0u8), 2 => Just(255u8), 4 => any::<u8>()];
                let f = || prop_oneof![3 => -60f32..60.0, 2 => Just(0f32), 1 => Just(-0f32), 1 => Just(1e-3f32), 1 => Just(-1e-3f32), 2 => (-2i32..3).prop_map(|v| v as f32), 1 => Just(f32::INFINITY), 1 => Just(f32::NAN)];
                let bytes = (b(), b(), b(), b(), 0u8..6).prop_map(|(a, b, c, d, k)| match k { 0 => [a, a, c, c], 1 => [a, a.saturating_add(1), c, c.saturating_sub(1)], 2 => [a.saturating_add(1), a, d, d], _ => [a.min(b), a.max(b), c.min(d), c.max(d)] });
                let lens = (0u32..8, 0u32..8, -1i32..2, -1i32..3, 0u8..10).prop_map(|(n, m, dk, dl, k)| {
                    let around = |v: u32, d: i32| (v as i32 + d).max(0) as u32;
                    let l = around(n.max(m), dl);
                    match k { 0 => [u32::MAX, m, 3, l], 1 => [1 << 16, 1 << 16, 0, l], 2 => [n, 0, 0, l], 3 => [m, n, (n * m), l], _ => [n, m, around(n * m, if k < 7 { 0 } else { dk }), l] }
                });
                (bytes, lens, [f(), f()], side0(7), side0(7)).prop_map(|(b, n, f, w, h)| Nums { b, n, f: f.map(f32::to_bits), w, h }).prop_map(Case::Numbers).boxed()
            }, check),
            sub("descriptors", 20000, || {
                let edge = || prop_oneof![8 => 14u32..19, 2 => 16u32..18, 1 => 0u32..60, 1 => Just(u32::MAX)];
                (0u32..4, -1i32..2, 0u32..3, prop_oneof![3 => 126u32..131, 1 => 0u32..200], prop_oneof![6 => Just(128usize), 1 => Just(0usize), 1 => Just(256usize), 1 => 120usize..136], 0u8..8, (prop_oneof![5 => 33u32..60, 1 => 0u32..45], prop_oneof![5 => 33u32..60, 1 => 0u32..45]), (edge(), edge(), any::<bool>(), any::<bool>())).prop_map(|(n, d, k, subset, bits, dp, im, (ex, ey, fx, fy))| {
                    let key = (if fx { im.0.wrapping_sub(ex) } else { ex }, if fy { im.1.wrapping_sub(ey) } else { ey });
                    let key = (key.0.min(1 << 20), key.1.min(1 << 20));
                    Desc { len: (n, if k == 0 { (n as i32 + d).max(0) as u32 } else { n }), subset, bits, pairs: match dp { 0 => bits + 1, 1 => bits.saturating_sub(1), 2 => bits.saturating_sub(bits % 128), _ => bits }, im, key }
                }).prop_map(Case::Descriptors).boxed()
            }, check),
            sub("wide", 3000, || {
                let s = || prop_oneof![3 => 509u32..515, 1 => 0u32..40, 1 => 500u32..700, 1 => 1000u32..1100];
                (s(), s()).prop_map(|(w, h)| Wide { w, h }).prop_map(Case::Wide).boxed()
            }, check),
        ],
    }
}
