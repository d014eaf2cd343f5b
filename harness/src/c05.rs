//! C05: box filter is the window mean, median filter the window median.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{GrayImage, Luma, LumaA, Pixel, Rgb, Rgba};
use imageproc::definitions::*;
use imageproc::filter::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    im: Im<u8>,
    rx: u32,
    ry: u32,
}
fn rad(m: u32) -> BoxedStrategy<u32> {
    prop_oneof![6 => 0..=m, 1 => 0u32..=3 * m].boxed()
}
fn case(w: u32, h: u32, ch: u32, r: u32) -> BoxedStrategy<Case> {
    (im_u8(side0(w), side0(h), ch), rad(r), rad(r)).prop_map(|(im, rx, ry)| Case { im, rx, ry }).boxed()
}
fn bigcase() -> BoxedStrategy<Case> {
    (big(60, 60), rad(9), rad(9)).prop_map(|(b, rx, ry)| Case { im: b.im(1), rx, ry }).boxed()
}
/// Radii that make windows of more than 65536 pixels, on images small enough for the reference.
fn wide() -> BoxedStrategy<Case> {
    let r = || prop_oneof![1 => 120u32..=140, 1 => 0u32..=200, 1 => 250u32..=260];
    (im_u8(side(6), side(6), 1), r(), r()).prop_map(|(im, rx, ry)| Case { im, rx, ry }).boxed()
}
/// One very long side, so that positions and radii go beyond what fits in a byte.
fn strip() -> BoxedStrategy<Case> {
    let r = || prop_oneof![3 => 0u32..=3, 1 => 100u32..=300];
    (big(2, 700), any::<bool>(), r(), r())
        .prop_map(|(mut b, t, mut rx, mut ry)| {
            b.h = b.h.max(200);
            if b.seed % 23 == 0 {
                b.h += 65400;
            }
            if t {
                std::mem::swap(&mut b.w, &mut b.h);
                rx = rx.min(3 + rx / 100 * 100);
                ry = ry.min(5);
            } else {
                rx = rx.min(5);
            }
            Case { im: b.im(1), rx, ry }
        })
        .boxed()
}
/// Radii beyond 32768: windows of more than 65536 rows or columns.
fn far() -> BoxedStrategy<Case> {
    let r = || prop_oneof![2 => 0u32..=3, 2 => 32766u32..=32770, 1 => 32771u32..=70_000];
    (im_u8(side(4), side(4), 1), r(), r()).prop_map(|(im, rx, ry)| Case { im, rx, ry }).boxed()
}
fn boxf(c: &Case) -> R {
    let (w, h) = (c.im.w, c.im.h);
    let out = box_filter(&c.im.luma(), c.rx, c.ry);
    ensure!(out.dimensions() == (w, h), "dimensions {:?}", out.dimensions());
    let (rx, ry) = (c.rx as i64, c.ry as i64);
    let mut mid = vec![0u64; (w * h) as usize];
    for y in 0..h {
        for x in 0..w {
            let s: u64 = (-rx..=rx).map(|d| c.im.at(cl(x as i64 + d, w), y) as u64).sum();
            mid[(y * w + x) as usize] = s / (2 * rx + 1) as u64;
        }
    }
    for y in 0..h {
        for x in 0..w {
            let s: u64 = (-ry..=ry).map(|d| mid[(cl(y as i64 + d, h) * w + x) as usize]).sum();
            let want = s / (2 * ry + 1) as u64;
            let got = out.get_pixel(x, y)[0] as u64;
            ensure!(got == want, "box_filter at ({x},{y}) = {got}, want {want}");
        }
    }
    nt(c.im.varied() && rx + ry > 0)
}
fn med<P: Pixel<Subpixel = u8>>(c: &Case) -> R {
    let (w, h) = (c.im.w, c.im.h);
    let ch = P::CHANNEL_COUNT as u32;
    let im: Image<P> = c.im.buf();
    let out = median_filter(&im, c.rx, c.ry);
    ensure!(out.dimensions() == (w, h), "dimensions {:?}", out.dimensions());
    let (rx, ry) = (c.rx as i64, c.ry as i64);
    for y in 0..h {
        for x in 0..w {
            for k in 0..ch {
                let mut v = vec![];
                for dy in -ry..=ry {
                    for dx in -rx..=rx {
                        v.push(c.im.d[((cl(y as i64 + dy, h) * w + cl(x as i64 + dx, w)) * ch + k) as usize]);
                    }
                }
                let m = v.len() / 2;
                let want = *v.select_nth_unstable(m).1;
                let got = out.get_pixel(x, y).channels()[k as usize];
                ensure!(got == want, "median_filter at ({x},{y}) channel {k} = {got}, want {want}");
            }
        }
    }
    nt(c.im.varied() && rx + ry > 0)
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "Random images from 0x0, independent x and y radii up to several times the image side; reference recomputes every window from scratch; non-trivial: the image varies and a radius is positive.",
        assumptions: &["box_filter truncates after the row pass and after the column pass"],
        subs: vec![
            sub("box", 120000, || case(12, 12, 1, 5), boxf),
            sub("box_big", 1500, bigcase, boxf),
            sub("median_gray", 60000, || case(12, 12, 1, 4), med::<Luma<u8>>),
            sub("median_la", 20000, || case(7, 7, 2, 3), med::<LumaA<u8>>),
            sub("median_rgb", 20000, || case(7, 7, 3, 3), med::<Rgb<u8>>),
            sub("median_rgba", 20000, || case(7, 7, 4, 3), med::<Rgba<u8>>),
            sub("median_big", 600, bigcase, med::<Luma<u8>>),
            sub("box_wide", 4000, wide, boxf),
            sub("median_wide", 300, wide, med::<Luma<u8>>),
            sub("box_strip", 1500, strip, boxf),
            sub("box_far", 60, far, boxf),
            sub("median_strip", 300, strip, med::<Luma<u8>>),
        ],
    }
}
