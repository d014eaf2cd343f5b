//! C17: grayscale morphology is min/max over the mask.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{GrayImage, Luma};
use imageproc::morphology::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum M {
    Image(Im<u8>, u8, u8),
    Square(u8),
    Diamond(u8),
    Disk(u8),
}
impl M {
    fn mask(&self) -> Mask {
        match self {
            M::Image(i, x, y) => Mask::from_image(&i.luma(), *x, *y),
            M::Square(r) => Mask::square(*r),
            M::Diamond(r) => Mask::diamond(*r),
            M::Disk(r) => Mask::disk(*r),
        }
    }
    fn offsets(&self) -> BTreeSet<(i64, i64)> {
        let ball = |r: u8, f: &dyn Fn(i64, i64) -> bool| {
            let r = r as i64;
            (-r..=r).flat_map(|y| (-r..=r).map(move |x| (x, y))).filter(|p| f(p.0, p.1)).collect()
        };
        match self {
            M::Image(i, x, y) => (0..i.d.len()).filter(|k| i.d[*k] != 0).map(|k| (k as i64 % i.w as i64 - *x as i64, k as i64 / i.w as i64 - *y as i64)).collect(),
            M::Square(r) => ball(*r, &|_, _| true),
            M::Diamond(r) => ball(*r, &|x, y| x.abs() + y.abs() <= *r as i64),
            M::Disk(r) => ball(*r, &|x, y| x * x + y * y <= *r as i64 * *r as i64),
        }
    }
    fn name(&self) -> &'static str {
        match self {
            M::Image(..) => "image mask",
            M::Square(_) => "square",
            M::Diamond(_) => "diamond",
            M::Disk(_) => "disk",
        }
    }
}
fn mask() -> BoxedStrategy<M> {
    let c = || prop_oneof![4 => 0u8..7, 1 => any::<u8>()];
    let r = || prop_oneof![5 => 0u8..6, 1 => 0u8..30];
    prop_oneof![
        5 => (prop_oneof![im_bin(side0(7), side0(7)), im_u8(s(7), s(7), 1)], c(), c()).prop_map(|(i, x, y)| M::Image(i, x, y)),
        1 => r().prop_map(M::Square),
        1 => r().prop_map(M::Diamond),
        1 => r().prop_map(M::Disk),
    ].boxed()
}
fn reduce(im: &Im<u8>, off: &BTreeSet<(i64, i64)>, max: bool) -> Im<u8> {
    let mut o = im.clone();
    for y in 0..im.h as i64 {
        for x in 0..im.w as i64 {
            let v = off.iter().map(|q| (x + q.0, y + q.1)).filter(|q| q.0 >= 0 && q.1 >= 0 && q.0 < im.w as i64 && q.1 < im.h as i64).map(|q| im.at(q.0 as u32, q.1 as u32));
            o.d[(y * im.w as i64 + x) as usize] = if max { v.max().unwrap_or(0) } else { v.min().unwrap_or(255) };
        }
    }
    o
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    im: Im<u8>,
    m: M,
}
fn reference(c: &Case) -> R {
    let (g, m, off): (GrayImage, _, _) = (c.im.luma(), c.m.mask(), c.m.offsets());
    let (d, e) = (reduce(&c.im, &off, true), reduce(&c.im, &off, false));
    for (n, got, want) in [
        ("grayscale_dilate", grayscale_dilate(&g, &m), &d),
        ("grayscale_erode", grayscale_erode(&g, &m), &e),
        ("grayscale_open", grayscale_open(&g, &m), &reduce(&e, &off, true)),
        ("grayscale_close", grayscale_close(&g, &m), &reduce(&d, &off, false)),
    ] {
        if let Some(x) = diff(&got, &want.luma()) {
            return Err(format!("{n} with {}: {x} (offsets {off:?})", c.m.name()).into());
        }
    }
    lab(d.d != c.im.d && e.d != c.im.d && off.len() > 1, c.m.name())
}
/// Mask constructors contain exactly the documented offsets.
fn masks(m: &M) -> R {
    let off = m.offsets();
    let k = m.mask();
    // the same mask from an image of its offsets (offsets in a 511 x 511 window)
    let fits = off.iter().all(|p| p.0.abs() <= 255 && p.1.abs() <= 255);
    if fits {
        let img = GrayImage::from_fn(511, 511, |x, y| Luma([off.contains(&(x as i64 - 255, y as i64 - 255)) as u8]));
        ensure!(Mask::from_image(&img, 255, 255) == k, "{} mask is not the mask of its offsets", m.name());
    }
    if off.len() > 3000 {
        return lab(fits, m.name());
    }
    let r = off.iter().map(|p| p.0.abs().max(p.1.abs())).max().unwrap_or(0).min(255) + 1;
    let n = (2 * r + 1) as u32;
    let imp = GrayImage::from_fn(n, n, |x, y| Luma([if x as i64 == r && y as i64 == r { 9 } else { 0 }]));
    let d = grayscale_dilate(&imp, &k);
    for (x, y, p) in d.enumerate_pixels() {
        let want = off.contains(&(r - x as i64, r - y as i64));
        ensure!((p[0] == 9) == want && (p[0] == 0) != want, "{}: response to an impulse at offset ({},{}) is {}", m.name(), x as i64 - r, y as i64 - r, p[0]);
    }
    lab(off.len() > 1, m.name())
}
/// Dilation by a composed mask, monotonicity and duality, on the library's own results.
fn laws(c: &Case) -> R {
    let g: GrayImage = c.im.luma();
    let m = c.m.mask();
    let off = c.m.offsets();
    let inv = |g: &GrayImage| GrayImage::from_fn(g.width(), g.height(), |x, y| Luma([255 - g.get_pixel(x, y)[0]]));
    ensure!(grayscale_erode(&g, &m) == inv(&grayscale_dilate(&inv(&g), &m)), "erosion is not dual to dilation");
    let lower = GrayImage::from_fn(g.width(), g.height(), |x, y| Luma([g.get_pixel(x, y)[0].saturating_sub(((x * 7 + y * 13) % 50) as u8)]));
    let le = |a: &GrayImage, b: &GrayImage| a.iter().zip(b.iter()).all(|(x, y)| x <= y);
    ensure!(le(&grayscale_dilate(&lower, &m), &grayscale_dilate(&g, &m)) && le(&grayscale_erode(&lower, &m), &grayscale_erode(&g, &m)), "not monotone");
    if off.contains(&(0, 0)) {
        ensure!(le(&grayscale_erode(&g, &m), &g) && le(&g, &grayscale_dilate(&g, &m)), "erode <= id <= dilate fails");
    }
    if !matches!(c.m, M::Image(..)) {
        // symmetric masks
        let (o, cl) = (grayscale_open(&g, &m), grayscale_close(&g, &m));
        ensure!(le(&o, &g) && le(&g, &cl), "open <= id <= close fails");
        ensure!(grayscale_open(&o, &m) == o && grayscale_close(&cl, &m) == cl, "open or close is not idempotent");
    }
    nt(c.im.varied() && off.len() > 1)
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "Random images (including empty ones) and masks (from images with arbitrary centres, also far outside the support, and the three constructors) against brute-force min/max; every radius 0..=255 of the constructors by offsets; algebraic laws; non-trivial: the mask has several points and both operations change the image.",
        assumptions: &[],
        subs: vec![
            sub("reference", 600000, || (im_u8(side0(14), side0(14), 1), mask()).prop_map(|(im, m)| Case { im, m }).boxed(), reference),
            sub("laws", 300000, || (im_u8(s(16), s(16), 1), mask()).prop_map(|(im, m)| Case { im, m }).boxed(), laws),
            sub("image_masks", 6000, || mask().boxed(), masks),
            sub_all("radii", 256 * 3, |i| { let r = (i / 3) as u8; match i % 3 { 0 => M::Square(r), 1 => M::Diamond(r), _ => M::Disk(r) } }, masks),
            sub("large_masks", 40, || (im_u8(s(300), s(300), 1), mask()).prop_map(|(im, m)| Case { im, m }).boxed(), |c| { if c.im.d.len() > 40000 && c.m.offsets().len() > 200 { return nt(false); } reference(c) }),
            sub("strips", 1500, || (strip(1), mask()).prop_map(|(im, m)| Case { im, m }).boxed(), |c| { if c.m.offsets().len() > 2000 { return nt(false); } reference(c) }),
        ],
    }
}
