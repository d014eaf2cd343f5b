//! C08: rigid rearrangements: rotations by quarter turns, flips, crop, translate, replace, overlay.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::math::Rect;
use image::{Luma, LumaA, Pixel, Primitive, Rgb, Rgba};
use imageproc::compose::*;
use imageproc::definitions::*;
use imageproc::geometric_transformations::{rotate180, rotate180_mut, rotate270, rotate90, translate};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn is<P: Pixel>(what: &str, got: &Image<P>, w: u32, h: u32, f: impl Fn(u32, u32) -> P) -> Result<(), Fail>
where
    P::Subpixel: std::fmt::Debug + PartialEq,
{
    ensure!(got.dimensions() == (w, h), "{what}: dimensions {:?}, want {:?}", got.dimensions(), (w, h));
    for y in 0..h {
        for x in 0..w {
            let (a, b) = (*got.get_pixel(x, y), f(x, y));
            ensure!(a.channels() == b.channels(), "{what}: at ({x},{y}) {:?}, want {:?}", a.channels(), b.channels());
        }
    }
    Ok(())
}
fn turns_on<P>(im: &Image<P>) -> Result<(), Fail>
where
    P: Pixel + Send + Sync,
    P::Subpixel: std::fmt::Debug + PartialEq + Send + Sync,
{
    let (w, h) = im.dimensions();
    let at = |x: u32, y: u32| *im.get_pixel(x, y);
    is("rotate90", &rotate90(im), h, w, |x, y| at(y, h - 1 - x))?;
    is("rotate180", &rotate180(im), w, h, |x, y| at(w - 1 - x, h - 1 - y))?;
    is("rotate270", &rotate270(im), h, w, |x, y| at(w - 1 - y, x))?;
    is("flip_horizontal", &flip_horizontal(im), w, h, |x, y| at(w - 1 - x, y))?;
    is("flip_vertical", &flip_vertical(im), w, h, |x, y| at(x, h - 1 - y))?;
    let mut m = im.clone();
    rotate180_mut(&mut m);
    is("rotate180_mut", &m, w, h, |x, y| at(w - 1 - x, h - 1 - y))?;
    flip_vertical_mut(&mut m);
    is("rotate180_mut then flip_vertical_mut", &m, w, h, |x, y| at(w - 1 - x, y))?;
    flip_horizontal_mut(&mut m);
    is("rotate180_mut, flip_vertical_mut, flip_horizontal_mut", &m, w, h, at)?;
    Ok(())
}
fn turns_rgb(im: &Im<u8>) -> R {
    turns_on::<Rgb<u8>>(&im.buf())?;
    nt(im.varied())
}
fn turns_u16(im: &Im<u16>) -> R {
    turns_on::<Luma<u16>>(&im.buf())?;
    nt(im.varied())
}
fn turns_big(b: &Big) -> R {
    turns_on::<Luma<u8>>(&b.im(1).buf())?;
    nt(b.w > 1)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CropCase {
    im: Im<u8>,
    r: [u32; 4],
}
fn crops(c: &CropCase) -> R {
    let im: Image<Rgb<u8>> = c.im.rgb();
    let [x, y, width, height] = c.r;
    let rect = Rect { x, y, width, height };
    let ok = x + width <= c.im.w && y + height <= c.im.h;
    for (n, r) in [("crop", no_panic(|| crop(&im, rect))), ("crop_parallel", no_panic(|| crop_parallel(&im, rect)))] {
        match r {
            Ok(o) => {
                ensure!(ok, "{n} accepted {:?} on {:?}", c.r, im.dimensions());
                is(n, &o, width, height, |i, j| *im.get_pixel(x + i, y + j))?;
            }
            Err(m) => ensure!(!ok, "{n} rejected {:?} on {:?}: {m}", c.r, im.dimensions()),
        }
    }
    nt(ok && width * height > 0)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TrCase {
    im: Im<u8>,
    t: (i32, i32),
}
fn trans(c: &TrCase) -> R {
    let (w, h) = (c.im.w, c.im.h);
    let go = |x: u32, y: u32| (cl(x as i64 - c.t.0 as i64, w), cl(y as i64 - c.t.1 as i64, h));
    let im: Image<Rgb<u8>> = c.im.rgb();
    is("translate", &translate(&im, c.t), w, h, |x, y| { let (a, b) = go(x, y); *im.get_pixel(a, b) })?;
    let im: Image<Luma<u8>> = Image::from_raw(w, h, c.im.d[..(w * h) as usize].to_vec()).unwrap();
    is("translate (gray)", &translate(&im, c.t), w, h, |x, y| { let (a, b) = go(x, y); *im.get_pixel(a, b) })?;
    lab(c.t != (0, 0) && c.im.varied(), if c.t.0.unsigned_abs() >= w || c.t.1.unsigned_abs() >= h { "whole image moved out" } else { "" })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ComposeCase {
    bottom: Im<u8>,
    top: Im<u8>,
    x: u32,
    y: u32,
}
fn compose_on<P: Pixel<Subpixel = u8>>(c: &ComposeCase) -> R {
    let b: Image<P> = c.bottom.buf();
    let t: Image<P> = c.top.buf();
    let (w, h) = b.dimensions();
    let ok = c.x < w && c.y < h;
    let covered = |x: u32, y: u32| x >= c.x && y >= c.y && x - c.x < t.width() && y - c.y < t.height();
    let rep = |x: u32, y: u32| if covered(x, y) { *t.get_pixel(x - c.x, y - c.y) } else { *b.get_pixel(x, y) };
    let ove = |x: u32, y: u32| {
        let mut p = *b.get_pixel(x, y);
        if covered(x, y) {
            p.blend(t.get_pixel(x - c.x, y - c.y));
        }
        p
    };
    let mutated = |f: fn(&mut Image<P>, &Image<P>, u32, u32)| no_panic(|| { let mut m = b.clone(); f(&mut m, &t, c.x, c.y); m });
    for (n, r) in [("replace", no_panic(|| replace(&b, &t, c.x, c.y))), ("replace_mut", mutated(replace_mut))] {
        ensure!(r.is_ok() == ok, "{n} at ({},{}) on {:?}: {:?}", c.x, c.y, (w, h), r.err());
        if let Ok(o) = r {
            is(n, &o, w, h, rep)?;
        }
    }
    for (n, r) in [("overlay", no_panic(|| overlay(&b, &t, c.x, c.y))), ("overlay_mut", mutated(overlay_mut))] {
        ensure!(r.is_ok() == ok, "{n} at ({},{}) on {:?}: {:?}", c.x, c.y, (w, h), r.err());
        if let Ok(o) = r {
            is(n, &o, w, h, ove)?;
        }
    }
    nt(ok && t.width() > 0 && t.height() > 0)
}
fn compose(ch: u32) -> BoxedStrategy<ComposeCase> {
    (im_u8(side(9), side(9), ch), im_u8(side0(9), side0(9), ch))
        .prop_flat_map(|(b, t)| {
            let (w, h) = (b.w, b.h);
            (Just(b), Just(t), prop_oneof![9 => 0..w, 1 => w..w + 3], prop_oneof![9 => 0..h, 1 => h..h + 3])
        })
        .prop_map(|(bottom, top, x, y)| ComposeCase { bottom, top, x, y })
        .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "Random images of every size from 0x0 (including thin and odd/even sides), random rectangles, offsets (also beyond the image) and image pairs; every output pixel compared with the closed-form source pixel; non-trivial: the image varies / the rectangle or offset does something.",
        assumptions: &["blending of two pixels is Pixel::blend of the image crate"],
        subs: vec![
            sub("turns_rgb", 100000, || im_u8(side0(11), side0(11), 3), turns_rgb),
            sub("turns_u16", 60000, || im_u16(side0(9), side0(9), 1), turns_u16),
            sub("turns_big", 1000, || big(80, 80), turns_big),
            sub("crop", 100000, || {
                im_u8(side0(9), side0(9), 3).prop_flat_map(|im| {
                    let r = |n: u32| prop_oneof![
                        6 => (0..n.max(1)).prop_flat_map(move |x| (Just(x), if n == 0 { 0..=0 } else { 1..=n - x })),
                        1 => (0..=n + 1).prop_flat_map(move |x| (Just(x), 0..=(n + 1).saturating_sub(x))),
                    ];
                    let (w, h) = (im.w, im.h);
                    (Just(im), r(w), r(h))
                }).prop_map(|(im, (x, w), (y, h))| CropCase { im, r: [x, y, w, h] }).boxed()
            }, crops),
            sub("translate", 100000, || {
                let t = || prop_oneof![8 => -3i32..=3, 3 => -12i32..12, 1 => -1000i32..1000, 1 => prop::sample::select(vec![i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1])];
                (im_u8(side(9), side(9), 3), (t(), t())).prop_map(|(im, t)| TrCase { im, t }).boxed()
            }, trans),
            sub("compose_gray", 60000, || compose(1), compose_on::<Luma<u8>>),
            sub("compose_la", 60000, || compose(2), compose_on::<LumaA<u8>>),
            sub("compose_rgb", 40000, || compose(3), compose_on::<Rgb<u8>>),
            sub("compose_rgba", 80000, || compose(4), compose_on::<Rgba<u8>>),
            sub("turns_plane", 60, || plane(3), turns_rgb),
            sub("turns_strip", 1500, || strip(3), turns_rgb),
            sub("crop_strip", 1500, || (strip(3), any::<[u32; 4]>()).prop_map(|(im, r)| { let (x, y) = (r[0] % im.w, r[1] % im.h); let r = [x, y, 1 + r[2] % (im.w - x), 1 + r[3] % (im.h - y)]; CropCase { im, r } }).boxed(), crops),
            sub("translate_strip", 3000, || { 
                // small, arbitrary, and near the side of the image in either direction
                let t = || prop_oneof![3 => (-3i32..4).prop_map(|t| (t, 0)), 1 => (-300i32..300).prop_map(|t| (t, 0)), 3 => (-40i32..3, prop_oneof![Just(1i32), Just(-1)])];
                (strip(3), (t(), t())).prop_map(|(im, (a, b))| {
                    let at = |(d, side): (i32, i32), len: u32| if side == 0 { d } else if d < 0 { side * (len as i32 + d).max(len.min(2) as i32 - 1) } else { side * (len as i32 + d) };
                    let t = (at(a, im.w), at(b, im.h));
                    TrCase { im, t }
                }).boxed()
            }, trans),
            sub("compose_strip", 1500, || (strip(1), prop_oneof![strip(1), im_u8(s(6), s(6), 1)], prop_oneof![0u32..6, 0u32..420], prop_oneof![0u32..6, 0u32..420]).prop_map(|(bottom, top, x, y)| ComposeCase { bottom, top, x, y }).boxed(), compose_on::<Luma<u8>>),
            // both images long in the same direction, pasted near either end or anywhere
            sub("compose_long", 400, || any::<bool>().prop_flat_map(|turn| {
                let im = move || { let l = prop_oneof![6 => 1000u32..5000, 1 => 32700u32..33000, 1 => 65400u32..66500]; if turn { patterned(1u32..4, l, 1) } else { patterned(l, 1u32..4, 1) } };
                (im(), im(), prop_oneof![2 => 0u32..3, 1 => any::<u32>(), 1 => 0u32..2000], 0u32..4).prop_map(move |(bottom, top, a, b)| {
                    let (x, y) = if turn { (b % bottom.w, a % bottom.h) } else { (a % bottom.w, b % bottom.h) };
                    ComposeCase { bottom, top, x, y }
                })
            }).boxed(), compose_on::<Luma<u8>>),
        ],
    }
}
