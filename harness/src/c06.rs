//! C06: the bilateral filter is the weighted mean it claims to be.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{GenericImage, GenericImageView, Luma, LumaA, Pixel, Rgb, Rgba};
use imageproc::definitions::*;
use imageproc::filter::bilateral::*;
use imageproc::filter::bilateral_filter;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};


#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case<T> {
    im: Im<T>,
    r: u8,
    ss: f32,
    cs: f32,
}
fn case<T: Clone + std::fmt::Debug + 'static>(im: BoxedStrategy<Im<T>>) -> BoxedStrategy<Case<T>> {
    let cs = prop_oneof![2 => 0.5f32..60.0, 1 => 50f32..1000.0, 1 => 0.05f32..0.5];
    (im, prop_oneof![4 => 0u8..4, 1 => 0u8..9], prop_oneof![3 => 0.3f32..5.0, 1 => 5f32..50.0], cs)
        .prop_map(|(im, r, ss, cs)| Case { im, r, ss, cs }).boxed()
}
/// Exact weighted means, one per subpixel, for a colour weight function of (centre, neighbour).
fn want<T: Copy + Into<f64>>(im: &Im<T>, ch: u32, r: u8, ss: f32, cw: &dyn Fn(&[T], &[T]) -> f64) -> Vec<f64> {
    let (w, h) = (im.w, im.h);
    let r = r as i64;
    let s2 = (ss as f64).powi(2);
    let px = |x: u32, y: u32| &im.d[((y * w + x) * ch) as usize..][..ch as usize];
    let mut out = vec![];
    for y in 0..h {
        for x in 0..w {
            let c = px(x, y);
            let mut tot = 0f64;
            let mut acc = vec![0f64; ch as usize];
            for dy in -r..=r {
                for dx in -r..=r {
                    let q = px(cl(x as i64 + dx, w), cl(y as i64 + dy, h));
                    let wt = (-0.5 * (dx * dx + dy * dy) as f64 / s2).exp() * cw(c, q);
                    tot += wt;
                    for (a, v) in acc.iter_mut().zip(q) {
                        let v: f64 = (*v).into();
                        *a += wt * v;
                    }
                }
            }
            out.extend(acc.iter().map(|a| a / tot));
        }
    }
    out
}
fn gauss_cw<T: Copy + Into<f64>>(cs: f32) -> impl Fn(&[T], &[T]) -> f64 {
    let s2 = (cs as f64).powi(2);
    move |a, b| {
        let d: f64 = a.iter().zip(b).map(|(x, y)| { let (x, y): (f64, f64) = ((*x).into(), (*y).into()); (x - y).powi(2) }).sum();
        (-0.5 * d / s2).exp()
    }
}
/// Integer pixel types store the truncated mean.
fn cmp_int<T: Copy + Into<f64>>(got: &[T], want: &[f64], e: f64) -> Result<(), Fail> {
    ensure!(got.len() == want.len(), "bilateral_filter: {} subpixels, want {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let g: f64 = (*g).into();
        ensure!(g >= (w - e).floor() && g <= (w + e).floor(), "bilateral_filter: subpixel {i} is {g}, weighted mean {w}");
    }
    Ok(())
}
macro_rules! int_case {
    ($name:ident, $px:ty, $t:ty, $ch:expr, $e:expr) => {
        fn $name(c: &Case<$t>) -> R {
            let im: Image<$px> = c.im.buf();
            let out: Image<$px> = bilateral_filter(&im, c.r, c.ss, GaussianEuclideanColorDistance::new(c.cs));
            ensure!(out.dimensions() == im.dimensions(), "dimensions");
            cmp_int(out.as_raw(), &want(&c.im, $ch, c.r, c.ss, &gauss_cw(c.cs)), $e)?;
            nt(c.im.varied() && c.r > 0)
        }
    };
}
int_case!(gray, Luma<u8>, u8, 1, 0.01);
int_case!(la, LumaA<u8>, u8, 2, 0.01);
int_case!(rgb, Rgb<u8>, u8, 3, 0.01);
int_case!(rgba, Rgba<u8>, u8, 4, 0.01);
int_case!(gray16, Luma<u16>, u16, 1, 2.0);
fn f32s(c: &Case<f32>) -> R {
    let im: Image<Luma<f32>> = c.im.luma();
    let out: Image<Luma<f32>> = bilateral_filter(&im, c.r, c.ss, GaussianEuclideanColorDistance::new(c.cs));
    let w = want(&c.im, 1, c.r, c.ss, &gauss_cw(c.cs));
    let m = c.im.d.iter().fold(1f32, |a, b| a.max(b.abs())) as f64;
    for (i, (g, w)) in out.as_raw().iter().zip(&w).enumerate() {
        ensure!((*g as f64 - w).abs() <= m * 2e-3, "bilateral_filter f32: pixel {i} is {g}, weighted mean {w}");
    }
    nt(c.im.varied() && c.r > 0)
}
/// An asymmetric user-supplied colour weight: neighbours darker than the centre count `b`, others 1.
struct Asym(f32);
impl ColorDistance<Luma<u8>> for Asym {
    fn color_distance(&self, a: &Luma<u8>, b: &Luma<u8>) -> f32 {
        if b[0] < a[0] { self.0 } else { 1.0 }
    }
}
fn custom(c: &Case<u8>) -> R {
    let im: Image<Luma<u8>> = c.im.luma();
    let b = c.cs / 1000.0;
    let out: Image<Luma<u8>> = bilateral_filter(&im, c.r, c.ss, Asym(b));
    let w = want(&c.im, 1, c.r, c.ss, &|x: &[u8], y: &[u8]| if y[0] < x[0] { b as f64 } else { 1.0 });
    cmp_int(out.as_raw(), &w, 0.01)?;
    nt(c.im.varied() && c.r > 0)
}
/// On a sub-image the window is replicated at the sub-image's border, not the parent's.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SubCase {
    c: Case<u8>,
    x: u32,
    y: u32,
    w: u32,
    h: u32,
}
fn subimage(c: &SubCase) -> R {
    let mut im: Image<Luma<u8>> = c.c.im.luma();
    let (x, y) = (c.x % im.width(), c.y % im.height());
    let (w, h) = (1 + c.w % (im.width() - x), 1 + c.h % (im.height() - y));
    let part: Im<u8> = Im { w, h, d: im.view(x, y, w, h).to_image().into_raw() };
    let want = want(&part, 1, c.c.r, c.c.ss, &gauss_cw(c.c.cs));
    let sub = im.sub_image(x, y, w, h);
    let out: Image<Luma<u8>> = bilateral_filter(&*sub, c.c.r, c.c.ss, GaussianEuclideanColorDistance::new(c.c.cs));
    ensure!(out.dimensions() == (w, h), "dimensions");
    cmp_int(out.as_raw(), &want, 0.01)?;
    nt(part.varied() && c.c.r > 0)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct RadCase {
    im: Im<u8>,
    r: u8,
    ss: f32,
    cs: f32,
}
fn radii(c: &RadCase) -> R {
    let im: Image<Luma<u8>> = c.im.luma();
    let out: Image<Luma<u8>> = bilateral_filter(&im, c.r, c.ss, GaussianEuclideanColorDistance::new(c.cs));
    cmp_int(out.as_raw(), &want(&c.im, 1, c.r, c.ss, &gauss_cw(c.cs)), 0.15)?;
    nt(c.r > 20)
}

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "Random images, radii, spatial and colour sigmas, 1..4 channels, u8/u16/f32, custom colour weights and sub-images; reference evaluates every weight in f64; non-trivial: the image varies and the radius is positive.",
        assumptions: &["sigmas in [0.05, 1000]; integer results are the truncated mean, f32 rounding allowed for"],
        subs: vec![
            sub("gray", 60000, || case(im_u8(s(9), s(9), 1)), gray),
            sub("la", 20000, || case(im_u8(s(6), s(6), 2)), la),
            sub("rgb", 30000, || case(im_u8(s(6), s(6), 3)), rgb),
            sub("rgba", 20000, || case(im_u8(s(6), s(6), 4)), rgba),
            sub("gray16", 20000, || case(im_u16(s(6), s(6), 1)), gray16),
            sub("f32", 20000, || case(im_f32(s(6), s(6), 1)), f32s),
            sub("custom", 30000, || case(im_u8(s(8), s(8), 1)), custom),
            sub("sub_image", 30000, || {
                (case(im_u8(s(9), s(9), 1)), any::<[u32; 4]>()).prop_map(|(c, a)| SubCase { c, x: a[0], y: a[1], w: a[2], h: a[3] }).boxed()
            }, subimage),
            sub("radii", 600, || {
                (im_u8(s(6), s(2), 1), prop_oneof![2 => any::<u8>(), 1 => 240u8..=255], prop_oneof![1 => 1f32..90.0, 1 => 0.5f32..8.0], 40f32..500.0).prop_map(|(im, r, ss, cs)| RadCase { im, r, ss, cs }).boxed()
            }, radii),
            sub("strips", 300, || case(strip(1)), gray),
        ],
    }
}
