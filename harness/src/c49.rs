//! C49: generic operations treat all pixel types alike. An operation that only moves, compares or
//! orders pixels gives the same picture whatever the pixels are made of.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::shapes::*;
use image::{ImageBuffer, Luma, LumaA, Pixel, Primitive, Rgb, Rgba};
use imageproc::compose::*;
use imageproc::definitions::{Clamp, Image};
use imageproc::drawing::*;
use imageproc::geometric_transformations as gt;
use imageproc::point::Point;
use imageproc::rect::Rect;
use imageproc::region_labelling::{connected_components, Connectivity};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    im: Im<u8>,
    top: Im<u8>,
    op: u8,
    kind: u8,
    n: [u32; 4],
    q: [f32; 4],
    shape: Shape,
    /// where the values of the palette start
    p: u16,
}
/// Values of a type, in increasing order and all different: 0 is the type's zero only where signs allow.
trait Val: Primitive + Send + Sync + std::fmt::Debug + 'static {
    fn val(i: u32, p: u16) -> Self;
}
macro_rules! val {
    ($($t:ty, $f:expr;)*) => { $(impl Val for $t { fn val(i: u32, p: u16) -> $t { let f: fn(u32, u16) -> $t = $f; f(i, p) } })* };
}
val! {
    u8, |i, _| i as u8;
    u16, |i, p| if p % 3 == 0 { i as u16 } else { (i * 65 + p as u32 % 40000) as u16 };
    u32, |i, p| if p % 3 == 0 { i + (1 << 24) } else { i * 16_000_000 + p as u32 };
    u64, |i, p| if p % 3 == 0 { i as u64 + (1 << 53) } else { (i as u64) << 55 | p as u64 };
    i8, |i, _| (i as i32 - 128) as i8;
    i16, |i, p| if p % 3 == 0 { i as i16 - 128 } else { (i as i32 * 200 - 20000 + p as i32 % 999) as i16 };
    i32, |i, p| if p % 3 == 0 { i as i32 + (1 << 24) } else { i as i32 * 8_000_000 - 1_000_000_000 + p as i32 };
    i64, |i, p| i as i64 * (1 << 54) - (1 << 61) + p as i64;
    usize, |i, p| (i as usize) << 50 | p as usize;
    isize, |i, p| ((i as isize) << 50) - (1 << 57) - p as isize;
    f32, |i, p| match p % 4 { 0 => i as f32 / 255., 1 => i as f32 * 1e-3 - 0.1, 2 => (i as f32 - 100.5) * 1e30, _ => 1e-30 + i as f32 * 1e-31 };
    f64, |i, p| match p % 3 { 0 => i as f64 / 255., 1 => 1. + i as f64 * 1e-14, _ => (i as f64 - 100.5) * 1e300 };
}
/// The pixel for a level, different for different levels.
fn pix<P: Pixel>(v: u8, p: u16) -> P
where
    P::Subpixel: Val,
{
    let v = v as u32;
    // one of the channels tells the levels apart (which one depends on p), the others are coarse
    let tell = p as usize / 5 % P::CHANNEL_COUNT as usize;
    let ch: Vec<P::Subpixel> = (0..P::CHANNEL_COUNT as usize).map(|c| P::Subpixel::val(if c == tell { v } else { (v / 100 * (c as u32 + 3)) % 256 }, p)).collect();
    *P::from_slice(&ch)
}
fn img<P: Pixel>(im: &Im<u8>, p: u16) -> Image<P>
where
    P::Subpixel: Val,
{
    ImageBuffer::from_fn(im.w, im.h, |x, y| pix(im.at(x, y), p))
}
/// What moves pixels, for all pixel types.
fn moved<P: Pixel + Send + Sync + PartialEq + std::fmt::Debug>(c: &Case, p: u16) -> (&'static str, Image<P>)
where
    P::Subpixel: Val,
{
    let im = img::<P>(&c.im, p);
    let col = pix::<P>(c.n[3] as u8, p);
    let (w, h) = (c.im.w.max(1), c.im.h.max(1));
    let n = &c.n;
    let solid = |f: &dyn Fn(&mut Image<P>)| {
        let mut im = im.clone();
        f(&mut im);
        im
    };
    let top = img::<P>(&Im { w: c.top.w.min(c.im.w), h: c.top.h.min(c.im.h), d: (0..c.top.w.min(c.im.w) * c.top.h.min(c.im.h)).map(|i| c.top.d[i as usize]).collect() }, p);
    let (rx, ry) = (n[0] % (c.im.w - top.width() + 1), n[1] % (c.im.h - top.height() + 1));
    match c.op % 22 {
        0 => ("flip_horizontal", flip_horizontal(&im)),
        1 => ("flip_vertical", flip_vertical(&im)),
        2 => ("flip_horizontal_mut", solid(&|im| flip_horizontal_mut(im))),
        3 => ("flip_vertical_mut", solid(&|im| flip_vertical_mut(im))),
        4 => ("rotate90", gt::rotate90(&im)),
        5 => ("rotate180", gt::rotate180(&im)),
        6 => ("rotate270", gt::rotate270(&im)),
        7 => ("translate", gt::translate(&im, (n[0] as i32 % 31 - 15, n[1] as i32 % 31 - 15))),
        8 if !c.im.d.is_empty() => {
            let (x, y) = (n[0] % w, n[1] % h);
            ("crop", crop(&im, image::math::Rect { x, y, width: 1 + n[2] % (w - x), height: 1 + n[3] % (h - y) }))
        }
        9 if !c.im.d.is_empty() => {
            let (x, y) = (n[0] % w, n[1] % h);
            ("crop_parallel", crop_parallel(&im, image::math::Rect { x, y, width: 1 + n[2] % (w - x), height: 1 + n[3] % (h - y) }))
        }
        10 => ("replace", replace(&im, &top, rx, ry)),
        11 => ("replace_mut", solid(&|im| replace_mut(im, &top, rx, ry))),
        12 | 13 if !c.im.d.is_empty() => ("flood_fill", flood_fill(&im, n[0] % w, n[1] % h, col)),
        14 => ("map_pixels", imageproc::map::map_pixels(&im, |p| if p == col { p } else { pix::<P>(7, c.p) })),
        15 => {
            let mut lines = vec![];
            for k in 0..3 {
                lines.push(imageproc::hough::PolarLine { r: c.q[k], angle_in_degrees: n[k] % 180 });
            }
            ("draw_polar_lines", imageproc::hough::draw_polar_lines(&im, &lines, col))
        }
        16 if c.im.w > 1 && c.im.h > 0 => {
            let seam = imageproc::seam_carving::find_vertical_seam(&c.im.luma());
            ("remove_vertical_seam", imageproc::seam_carving::remove_vertical_seam(&im, &seam))
        }
        _ => {
            let bl = |l: P, o: P, w: f32| if w > 0.6 { l } else { o };
            let pi = |p: &[(i32, i32)]| p.iter().map(|p| Point::new(p.0, p.1)).collect::<Vec<_>>();
            let pf = |p: &[(f32, f32)]| p.iter().map(|p| Point::new(p.0, p.1)).collect::<Vec<_>>();
            (
                c.shape.kind(),
                match &c.shape {
                    Shape::Line(l) => draw_line_segment(&im, (l[0], l[1]), (l[2], l[3]), col),
                    Shape::AaLine(l) => draw_antialiased_line_segment(&im, (l[0], l[1]), (l[2], l[3]), col, bl),
                    Shape::Poly(p) => draw_polygon(&im, &pi(p), col),
                    Shape::AaPoly(p) => draw_antialiased_polygon(&im, &pi(p), col, bl),
                    Shape::HollowPoly(p) => solid(&|im| draw_hollow_polygon_mut(im, &pf(p), col)),
                    Shape::FilledRect(x, y, w, h) => draw_filled_rect(&im, Rect::at(*x, *y).of_size(*w, *h), col),
                    Shape::HollowRect(x, y, w, h) => draw_hollow_rect(&im, Rect::at(*x, *y).of_size(*w, *h), col),
                    Shape::HollowEllipse(x, y, w, h) => draw_hollow_ellipse(&im, (*x, *y), *w, *h, col),
                    Shape::FilledEllipse(x, y, w, h) => draw_filled_ellipse(&im, (*x, *y), *w, *h, col),
                    Shape::HollowCircle(x, y, r) => draw_hollow_circle(&im, (*x, *y), *r, col),
                    Shape::FilledCircle(x, y, r) => draw_filled_circle(&im, (*x, *y), *r, col),
                    Shape::Cross(x, y) => draw_cross(&im, col, *x, *y),
                    Shape::Bezier(b) => draw_cubic_bezier_curve(&im, (b[0], b[1]), (b[2], b[3]), (b[4], b[5]), (b[6], b[7]), col),
                    Shape::Text(..) => im.clone(),
                },
            )
        }
    }
}
/// Nearest-neighbour warps, for the types they accept.
fn warped<P: Pixel + Send + Sync + PartialEq + std::fmt::Debug>(c: &Case, p: u16) -> (&'static str, Image<P>)
where
    P::Subpixel: Val + Into<f32> + Clamp<f32>,
{
    let im = img::<P>(&c.im, p);
    let col = pix::<P>(c.n[3] as u8, p);
    let (q, n) = (&c.q, gt::Interpolation::Nearest);
    match c.op % 4 {
        0 => ("rotate", gt::rotate(&im, (q[0], q[1]), q[2], n, col)),
        1 => ("rotate_about_center", gt::rotate_about_center(&im, q[2], n, col)),
        2 => ("warp", gt::warp(&im, &gt::Projection::from_matrix([1. + q[0] / 50., q[1] / 20., q[2], q[3] / 20., 1., q[0], q[1] / 1000., q[2] / 1000., 1.]).unwrap_or(gt::Projection::scale(0.5, 2.)), n, col)),
        _ => ("warp_with", gt::warp_with(&im, |x, y| (x + q[0] / 9. * y, y - q[1]), n, col)),
    }
}
const TYPES: &[&str] = &["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "isize", "f32", "f64", "LumaA u8", "LumaA u16", "LumaA f32", "RGB u8", "RGB u16", "RGB f32", "RGB i16", "RGBA u8", "RGBA u16", "RGBA f32", "RGBA i32", "RGBA f64"];
/// Calls a macro with the pixel type that belongs to a number.
macro_rules! with_type {
    ($k:expr, $m:ident) => {
        match $k as usize % TYPES.len() {
            0 => $m!(Luma<u8>),
            1 => $m!(Luma<u16>),
            2 => $m!(Luma<u32>),
            3 => $m!(Luma<u64>),
            4 => $m!(Luma<i8>),
            5 => $m!(Luma<i16>),
            6 => $m!(Luma<i32>),
            7 => $m!(Luma<i64>),
            8 => $m!(Luma<usize>),
            9 => $m!(Luma<isize>),
            10 => $m!(Luma<f32>),
            11 => $m!(Luma<f64>),
            12 => $m!(LumaA<u8>),
            13 => $m!(LumaA<u16>),
            14 => $m!(LumaA<f32>),
            15 => $m!(Rgb<u8>),
            16 => $m!(Rgb<u16>),
            17 => $m!(Rgb<f32>),
            18 => $m!(Rgb<i16>),
            19 => $m!(Rgba<u8>),
            20 => $m!(Rgba<u16>),
            21 => $m!(Rgba<f32>),
            22 => $m!(Rgba<i32>),
            _ => $m!(Rgba<f64>),
        }
    };
}
fn same<P: Pixel + PartialEq + std::fmt::Debug>(name: &'static str, kind: &str, got: &Image<P>, want: &Image<Luma<u8>>, p: u16) -> R
where
    P::Subpixel: Val,
{
    ensure!(got.dimensions() == want.dimensions(), "{name} of a {kind} image is {:?}, of a grey one {:?}", got.dimensions(), want.dimensions());
    let mut seen = std::collections::HashSet::new();
    for (x, y, v) in want.enumerate_pixels() {
        seen.insert(v[0]);
        let w = pix::<P>(v[0], p);
        // what comes from nowhere is zero
        let zero = *P::from_slice(&vec![num_zero::<P::Subpixel>(); P::CHANNEL_COUNT as usize]);
        let g = *got.get_pixel(x, y);
        ensure!(g == w || (v[0] == 0 && g == zero), "{name} of a {kind} image: ({x},{y}) is {g:?}, but {w:?} by the result for a grey image");
    }
    lab(seen.len() > 1, name)
}
fn num_zero<T: Primitive>() -> T {
    T::from(0).unwrap()
}
fn moves(c: &Case) -> R {
    macro_rules! go {
        ($p:ty) => {{
            let Ok((name, want)) = no_panic(|| moved::<Luma<u8>>(c, c.p)) else { return nt(false) }; // for the operation's own property
            let kind = TYPES[c.kind as usize % TYPES.len()];
            match no_panic(|| moved::<$p>(c, c.p)) {
                Ok((_, got)) => same(name, kind, &got, &want, c.p),
                Err(e) => Err(Fail::from(format!("{name} of a {kind} image: {e}"))),
            }
        }};
    }
    with_type!(c.kind, go)
}
fn warps(c: &Case) -> R {
    macro_rules! go {
        ($p:ty, $n:expr) => {{
            let (_, got) = warped::<$p>(c, c.p);
            let (name, want) = warped::<Luma<u8>>(c, c.p);
            same(name, $n, &got, &want, c.p)
        }};
    }
    match c.kind % 9 {
        0 => go!(Luma<u16>, "u16"),
        1 => go!(Luma<f32>, "f32"),
        2 => go!(LumaA<u8>, "LumaA u8"),
        3 => go!(LumaA<u16>, "LumaA u16"),
        4 => go!(Rgb<u8>, "RGB u8"),
        5 => go!(Rgb<u16>, "RGB u16"),
        6 => go!(Rgb<f32>, "RGB f32"),
        7 => go!(Rgba<u8>, "RGBA u8"),
        _ => go!(Rgba<f32>, "RGBA f32"),
    }
}
/// Operations that compare or order the pixels: labels, maxima, extremes.
fn orders(c: &Case) -> R {
    let g = c.im.luma();
    let conn = || if c.n[0] % 2 == 0 { Connectivity::Four } else { Connectivity::Eight };
    let mut at = "";
    macro_rules! labels {
        ($($p:ty, $k:expr;)*) => {
            match c.kind as usize % (0 $(+ { let _ = $k; 1 })*) {
                $(k if k == $k => {
                    at = "connected_components";
                    let want = connected_components(&g, conn(), Luma([c.n[3] as u8]));
                    let got = connected_components(&img::<$p>(&c.im, c.p), conn(), pix::<$p>(c.n[3] as u8, c.p));
                    ensure!(got == want, "connected_components of the {} image {:?} gives {:?}, {:?} for a grey image", stringify!($p), c.im, got.as_raw(), want.as_raw());
                })*
                _ => {}
            }
        };
    }
    macro_rules! order {
        ($($t:ty, $k:expr;)*) => {
            match c.kind as usize % (0 $(+ { let _ = $k; 1 })*) {
                $(k if k == $k => {
                    let im = img::<Luma<$t>>(&c.im, c.p);
                    let v = |i: u8| <$t as Val>::val(i as u32, c.p);
                    let r = c.n[0] % 5;
                    at = "suppress_non_maximum, min_max";
                    let want = imageproc::suppress::suppress_non_maximum(&g, r);
                    let got = imageproc::suppress::suppress_non_maximum(&im, r);
                    let lmin = g.iter().min().cloned().unwrap_or(0);
                    // the maxima are where the grey image has them: known where its result is not zero
                    for (x, y, p) in want.enumerate_pixels() {
                        let a = got.get_pixel(x, y)[0];
                        let zero = num_zero::<$t>();
                        ensure!(if p[0] != 0 { a == v(p[0]) } else { a == zero || (g.get_pixel(x, y)[0] == 0 && a == v(0)) }, "suppress_non_maximum({r}) of a {} image: ({x},{y}) is {a:?}; a grey image gives {} (from {})", stringify!($t), p[0], g.get_pixel(x, y)[0]);
                    }
                    if !c.im.d.is_empty() {
                        let (a, b) = (&imageproc::stats::min_max(&im)[0], &imageproc::stats::min_max(&g)[0]);
                        ensure!((a.min, a.max) == (v(b.min), v(b.max)), "min_max of a {} image is {:?} to {:?}, of a grey image {} to {}", stringify!($t), a.min, a.max, b.min, b.max);
                        ensure!(b.min == lmin, "min_max of a grey image gives {}", b.min);
                        let (a, b) = (imageproc::template_matching::find_extremes(&im), imageproc::template_matching::find_extremes(&g));
                        ensure!((a.min_value, a.max_value, a.min_value_location, a.max_value_location) == (v(b.min_value), v(b.max_value), b.min_value_location, b.max_value_location), "find_extremes of a {} image: {a:?}, of a grey image {b:?}", stringify!($t));
                    }
                })*
                _ => {}
            }
        };
    }
    macro_rules! extremes {
        ($($t:ty, $k:expr;)*) => {
            match c.kind as usize % (0 $(+ { let _ = $k; 1 })*) {
                $(k if k == $k => {
                    at = "find_extremes, pixel_diffs";
                    let v = |i: u8| <$t as Val>::val(i as u32, c.p);
                    let im = img::<Luma<$t>>(&c.im, c.p);
                    if !c.im.d.is_empty() {
                        let (a, b) = (imageproc::template_matching::find_extremes(&im), imageproc::template_matching::find_extremes(&g));
                        ensure!((a.min_value, a.max_value, a.min_value_location, a.max_value_location) == (v(b.min_value), v(b.max_value), b.min_value_location, b.max_value_location), "find_extremes of a {} image: {a:?}, of a grey image {b:?}", stringify!($t));
                    }
                    let flip = flip_horizontal(&im);
                    let got: Vec<_> = imageproc::utils::pixel_diffs(&im, &flip, |p, q| p != q).iter().map(|d| (d.x, d.y)).collect();
                    let want: Vec<_> = imageproc::utils::pixel_diffs(&g, &flip_horizontal(&g), |p, q| p != q).iter().map(|d| (d.x, d.y)).collect();
                    ensure!(got == want, "pixel_diffs of a {} image: {got:?}, of a grey image {want:?}", stringify!($t));
                })*
                _ => {}
            }
        };
    }
    match c.op % 3 {
        0 => labels!(Luma<u16>, 0; Luma<u32>, 1; Luma<i64>, 2; Rgb<u8>, 3; Rgb<u16>, 4; LumaA<u8>, 5; Rgba<u8>, 6; Rgba<i32>, 7; Luma<i8>, 8;),
        1 => order!(u16, 0; u32, 1; u64, 2; i8, 3; i16, 4; i32, 5; i64, 6; usize, 7; isize, 8;),
        _ => extremes!(f32, 0; f64, 1; u32, 2; i16, 3;),
    }
    lab(c.im.varied(), at)
}
/// Operations that add up pixels: exact in every type that can hold the sums.
fn sums(c: &Case) -> R {
    use imageproc::filter::*;
    use imageproc::integral_image::*;
    use imageproc::kernel::Kernel;
    let (kw, kh) = (1 + 2 * (c.n[0] % 3), 1 + 2 * (c.n[1] % 3));
    let k: Vec<i32> = (0..kw.max(kh) * kw.max(kh)).map(|i| (c.n[2].rotate_left(i) % 9) as i32 - 4).collect();
    fn plain<P: Pixel>(im: &Im<u8>) -> Image<P> {
        fn z<T: Primitive>(v: u8) -> T {
            T::from(v).unwrap()
        }
        ImageBuffer::from_fn(im.w, im.h, |x, y| *P::from_slice(&(0..P::CHANNEL_COUNT).map(|i| z(if i == 0 { im.at(x, y) } else { im.at(x, y) / (i + 1) })).collect::<Vec<_>>()))
    }
    let f64s = |d: &[f64]| format!("{d:?}");
    let mut at = "";
    macro_rules! filters {
        ($($p:ty, $q:ty, $t:ty, $kt:ty, $k:expr;)*) => {
            match c.kind as usize % (0 $(+ { let _ = $k; 1 })*) {
                $(n if n == $k => {
                    at = "filter";
                    let ker: Vec<$kt> = k[..(kw * kh) as usize].iter().map(|v| *v as $kt).collect();
                    let got: Image<$q> = filter(&plain::<$p>(&c.im), Kernel::new(&ker, kw, kh), |v: $kt| v);
                    let kf: Vec<f64> = k[..(kw * kh) as usize].iter().map(|v| *v as f64).collect();
                    let want: Vec<f64> = (0..<$p as Pixel>::CHANNEL_COUNT).map(|i| reference(&Im { w: c.im.w, h: c.im.h, d: c.im.d.iter().map(|v| v / (i + 1)).collect() }, 1, &kf, kw, kh)).fold(vec![vec![]; c.im.d.len()], |mut a, ch| { a.iter_mut().zip(ch).for_each(|(a, v)| a.push(v)); a }).concat();
                    let got: Vec<f64> = got.as_raw().iter().map(|v| *v as f64).collect();
                    ensure!(got == want, "filter of a {} image with a {} kernel: {}, want {}", stringify!($p), stringify!($kt), f64s(&got), f64s(&want));
                })*
                _ => {}
            }
        };
    }
    macro_rules! seps {
        ($($p:ty, $t:ty, $k:expr;)*) => {
            match c.kind as usize % (0 $(+ { let _ = $k; 1 })*) {
                $(n if n == $k => {
                    at = "separable_filter";
                    let (h, v): (Vec<$t>, Vec<$t>) = (k[..kw as usize].iter().map(|v| *v as $t).collect(), k.iter().rev().take(kw as usize).map(|v| *v as $t).collect());
                    let got = separable_filter(&plain::<$p>(&c.im), &h, &v);
                    let want = separable_filter(&plain::<Luma<i64>>(&c.im), &h.iter().map(|v| *v as i64).collect::<Vec<_>>(), &v.iter().map(|v| *v as i64).collect::<Vec<_>>());
                    let got: Vec<i64> = got.pixels().map(|p| p.channels()[0] as i64).collect();
                    ensure!(&got == want.as_raw(), "separable_filter of a {} image: {got:?}, want {:?}", stringify!($p), want.as_raw());
                })*
                _ => {}
            }
        };
    }
    macro_rules! ints {
        ($($p:ty, $t:ty, $k:expr;)*) => {
            match c.kind as usize % (0 $(+ { let _ = $k; 1 })*) {
                $(n if n == $k => {
                    at = "integral_image";
                    let im = plain::<$p>(&c.im);
                    let (got, want) = (integral_image::<_, $t>(&im), integral_image::<_, u64>(&im));
                    let g: Vec<u64> = got.as_raw().iter().map(|v| *v as u64).collect();
                    ensure!(&g == want.as_raw(), "integral_image of a {} image in {}: {g:?}, in u64 {:?}", stringify!($p), stringify!($t), want.as_raw());
                    let sq: u64 = im.as_raw().iter().map(|v| (*v as u64).pow(2)).sum();
                    if sq < 1 << 24 {
                        let (got, want) = (integral_squared_image::<_, $t>(&im), integral_squared_image::<_, u64>(&im));
                        let g: Vec<u64> = got.as_raw().iter().map(|v| *v as u64).collect();
                        ensure!(&g == want.as_raw(), "integral_squared_image of a {} image in {}: {g:?}, in u64 {:?}", stringify!($p), stringify!($t), want.as_raw());
                    }
                })*
                _ => {}
            }
        };
    }
    match c.op % 3 {
        0 => filters!(Luma<u8>, Luma<i32>, i32, i32, 0; Luma<u16>, Luma<i32>, i32, i32, 1; Luma<i16>, Luma<i64>, i64, i64, 2; Luma<u32>, Luma<i64>, i64, i64, 3; Luma<f32>, Luma<f32>, f32, f32, 4; Luma<f64>, Luma<f64>, f64, f64, 5;
            Rgb<u8>, Rgb<f32>, f32, f32, 6; Rgb<u16>, Rgb<f64>, f64, f64, 7; LumaA<u8>, LumaA<i32>, i32, i32, 8; Rgba<u8>, Rgba<i16>, i16, i16, 9; Rgba<u16>, Rgba<i32>, i32, i32, 10; Luma<i8>, Luma<i32>, i32, i32, 11; Rgba<f32>, Rgba<f64>, f64, f64, 12;),
        1 => seps!(Luma<i32>, i32, 0; Luma<f32>, f32, 1; Luma<f64>, f64, 2; Rgb<i32>, i32, 3; Rgba<f32>, f32, 4; LumaA<f64>, f64, 5; Rgba<i64>, i64, 6;),
        _ => ints!(Luma<u8>, u32, 0; Luma<u8>, f32, 1; Luma<u8>, f64, 2; Luma<u8>, i32, 3; Rgb<u8>, u32, 4; Rgb<u8>, f64, 5; Rgba<u8>, u32, 6; LumaA<u8>, u32, 7; Rgba<u8>, i64, 8; Luma<u8>, usize, 9;),
    }
    lab(c.im.varied(), at)
}
fn case(far: bool) -> BoxedStrategy<Case> {
    let im = || if far { prop_oneof![short_strip(1), (1u32..50, 1u32..50, prop::collection::vec(any::<u8>(), 1..14)).prop_map(|(w, h, levels)| Mega { w, h, levels }.im())].boxed() } else { prop_oneof![im_u8(side0(9), side0(9), 1), im_of(side0(9), side0(9), 1, prop_oneof![Just(0u8), Just(3u8), Just(200u8)].boxed())].boxed() };
    let r = if far { 70 } else { 12 };
    (im(), im_u8(side0(6), side0(6), 1), any::<u8>(), any::<u8>(), any::<[u32; 4]>(), prop::array::uniform4(-(r as f32)..r as f32), shape_no_text(r), any::<u16>())
        .prop_map(|(im, top, op, kind, mut n, q, shape, p)| {
            // mostly a level that occurs
            if n[3] % 4 != 0 && !im.d.is_empty() {
                n[3] = im.d[n[3] as usize / 4 % im.d.len()] as u32;
            }
            Case { im, top, op, kind, n, q, shape, p }
        })
        .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C49",
        rule: "A picture of up to 256 levels is made into images of 24 pixel types (L, LA, RGB and RGBA of 8 to 64 bit integers and floats), each level a different pixel with values up to the limits of the type; the results of operations that move, compare or order pixels must be the same picture as for 8 bit grey. Non-trivial: the resulting picture has more than one level.",
        assumptions: &["the result for 8 bit grey images is decided by the properties of the operation", "pixels that come from outside the image are zero or a level given"],
        subs: vec![
            sub("moves", 500_000, || case(false), moves),
            sub("moves, larger images", 20_000, || case(true), moves),
            sub("warps", 150_000, || case(false), warps),
            sub("warps, larger images", 8000, || case(true), warps),
            sub("orders", 300_000, || case(false), orders),
            sub("sums", 60_000, || case(false).prop_map(|mut c| { c.im.d.iter_mut().for_each(|v| *v %= 128); c }).boxed(), sums),
            sub("orders, larger images", 10_000, || case(true), orders),
        ],
    }
}
