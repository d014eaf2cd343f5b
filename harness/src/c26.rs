//! C26: non-maximum suppression keeps exactly the dominant local maxima.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{ImageBuffer, Luma, Primitive};
use imageproc::corners::Corner;
use imageproc::definitions::{Position, Score};
use imageproc::suppress::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    im: Im<i32>,
    r: u32,
    kind: u8,
}
fn image_(c: &Case) -> R {
    fn go<T: Primitive + Ord + std::fmt::Debug>(c: &Case, f: impl Fn(i32) -> T) -> Result<(u32, u32), Fail> {
        let (w, h) = (c.im.w, c.im.h);
        let im = ImageBuffer::<Luma<T>, Vec<T>>::from_raw(w, h, c.im.d.iter().map(|v| f(*v)).collect()).unwrap();
        let got = suppress_non_maximum(&im, c.r);
        ensure!(got.dimensions() == (w, h), "dimensions {:?}", got.dimensions());
        let (mut kept, mut gone) = (0, 0);
        for y in 0..h {
            for x in 0..w {
                let v = im.get_pixel(x, y)[0];
                let (x0, x1) = (x.saturating_sub(c.r), x.saturating_add(c.r).min(w - 1));
                let (y0, y1) = (y.saturating_sub(c.r), y.saturating_add(c.r).min(h - 1));
                let beaten = (y0..=y1).flat_map(|b| (x0..=x1).map(move |a| (a, b))).find(|&(a, b)| {
                    let q = im.get_pixel(a, b)[0];
                    q > v || (q == v && (a, b) < (x, y))
                });
                let want = if beaten.is_some() { T::zero() } else { v };
                if beaten.is_some() { gone += 1 } else if v != T::zero() { kept += 1 }
                ensure!(got.get_pixel(x, y)[0] == want, "radius {}: pixel ({x},{y}) = {v:?} gives {:?}, want {want:?} (beaten by {beaten:?})", c.r, got.get_pixel(x, y)[0]);
            }
        }
        Ok((kept, gone))
    }
    let (k, g) = match c.kind {
        0 => go(c, |v| v as u8)?,
        1 => go(c, |v| v as u16)?,
        2 => go(c, |v| v as u32)?,
        _ => go(c, |v| v - 4)?,
    };
    lab(k > 0 && g > 0, if k > 1 { "several maxima" } else { "one maximum" })
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
struct P {
    x: u32,
    y: u32,
    s: f32,
    id: u32,
}
impl Position for P {
    fn x(&self) -> u32 {
        self.x
    }
    fn y(&self) -> u32 {
        self.y
    }
}
impl Score for P {
    fn score(&self) -> f32 {
        self.s
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pts {
    p: Vec<(u32, u32, f32)>,
    r: u32,
}
fn points(c: &Pts) -> R {
    let ps: Vec<P> = c.p.iter().enumerate().map(|(i, p)| P { x: p.0, y: p.1, s: p.2, id: i as u32 }).collect();
    let mut got: Vec<P> = local_maxima(&ps, c.r);
    let mut want: Vec<P> = ps
        .iter()
        .filter(|p| !ps.iter().any(|q| q.x.abs_diff(p.x) <= c.r && q.y.abs_diff(p.y) <= c.r && (q.s > p.s || (q.s == p.s && (q.y, q.x) < (p.y, p.x)))))
        .cloned()
        .collect();
    got.sort_by_key(|p| p.id);
    want.sort_by_key(|p| p.id);
    ensure!(got == want, "local_maxima radius {}: {:?}\n want {:?}", c.r, got, want);
    // the same among corners
    let corners: Vec<Corner> = c.p.iter().map(|p| Corner::new(p.0, p.1, p.2)).collect();
    let key = |k: &Corner| (k.x, k.y, k.score.to_bits());
    let mut got: Vec<_> = local_maxima(&corners, c.r).iter().map(key).collect();
    let mut want_c: Vec<_> = want.iter().map(|p| (p.x, p.y, p.s.to_bits())).collect();
    got.sort();
    want_c.sort();
    ensure!(got == want_c, "local_maxima of corners, radius {}: {got:?}\n want {want_c:?}", c.r);
    for k in &corners {
        ensure!((k.x(), k.y()) == (k.x, k.y) && k.score() == k.score, "{k:?} is said to be at ({}, {}) with score {}", k.x(), k.y(), k.score());
        let p: imageproc::point::Point<u32> = (*k).into();
        ensure!((p.x, p.y) == (k.x, k.y), "{k:?} is at {p:?}");
    }
    lab(want.len() > 0 && want.len() < ps.len(), if want.len() > 1 { "several" } else { "at most one" })
}
fn radius() -> BoxedStrategy<u32> {
    prop_oneof![8 => 0u32..6, 2 => 0u32..20, 1 => prop::sample::select(vec![u32::MAX, u32::MAX - 1, 1 << 31])].boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        rule: "Random score images (few and many levels, sparse peaks, signed values) of four subpixel types and random scored point lists with duplicates and ties; result compared with the definition evaluated at every pixel or point. Non-trivial: something is kept and something suppressed.",
        assumptions: &["scores are not NaN", "ties: images by (x, y), point lists by (y, x)"],
        subs: vec![
            sub("image", 400000, || (prop_oneof![3 => im_of(side0(16), side0(16), 1, (0i32..200).boxed()), 2 => im_of(side0(16), side0(16), 1, (0i32..4).boxed()), 2 => im_of(side0(24), side0(24), 1, prop_oneof![9 => Just(0i32), 1 => 0i32..256].boxed())], radius(), 0u8..4).prop_map(|(im, r, kind)| Case { im, r, kind }).boxed(), image_),
            sub("points", 400000, || (prop_oneof![
                prop::collection::vec((0u32..12, 0u32..12, prop_oneof![0f32..10., (0i32..3).prop_map(|v| v as f32)]), 0..30),
                prop::collection::vec((0u32..60, 0u32..60, (-2i32..20).prop_map(|v| v as f32)), 0..60),
                prop::collection::vec((0u32..4, 0u32..4, (0i32..2).prop_map(|v| v as f32)), 0..10),
            ], radius()).prop_map(|(p, r)| Pts { p, r }).boxed(), points),
            sub("strips", 400, || (strip(1), prop_oneof![radius(), 100u32..300], 0u8..4).prop_map(|(im, r, kind)| Case { im: Im { w: im.w, h: im.h, d: im.d.iter().map(|v| *v as i32).collect() }, r, kind }).boxed(), image_),
            sub("many points", 150, || (60usize..2500, any::<u64>(), 2u64..300, 2u64..60, radius()).prop_map(|(n, seed, side, levels, r)| { let mut k = lcg(seed); Pts { p: (0..n).map(|_| (k(side) as u32, k(side) as u32, k(levels) as f32)).collect(), r } }).boxed(), points),
            sub("spread points", 20000, || (prop::collection::vec((0u32..900, 0u32..900, (-2i32..20).prop_map(|v| v as f32)), 0..60), prop_oneof![radius(), 0u32..600]).prop_map(|(p, r)| Pts { p, r }).boxed(), points),
        ],
    }
}
