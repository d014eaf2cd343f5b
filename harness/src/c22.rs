//! C22: thresholding follows its rule at every pixel; automatic levels are optimal.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::GrayImage;
use imageproc::contrast::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Thr {
    im: Im<u8>,
    t: u8,
    mode: u8,
}
const SWAPPED: &str = "ToZero and ToZeroInverted have each other's effect";
fn rule(mode: u8, t: u8, v: u8) -> u8 {
    match mode {
        0 => if v > t { 255 } else { 0 },
        1 => if v > t { 0 } else { 255 },
        2 => if v > t { t } else { v },
        3 => if v > t { v } else { 0 },
        _ => if v > t { 0 } else { v },
    }
}
fn thr(c: &Thr) -> R {
    let m = || match c.mode {
        0 => ThresholdType::Binary,
        1 => ThresholdType::BinaryInverted,
        2 => ThresholdType::Truncate,
        3 => ThresholdType::ToZero,
        _ => ThresholdType::ToZeroInverted,
    };
    let im = c.im.luma();
    let got = threshold(&im, c.t, m());
    let mut inpl = im.clone();
    threshold_mut(&mut inpl, c.t, m());
    ensure!(got == inpl, "threshold and threshold_mut differ");
    ensure!(got.dimensions() == im.dimensions(), "dimensions change");
    let is = |mode: u8| (0..c.im.d.len()).find(|&i| got.as_raw()[i] != rule(mode, c.t, c.im.d[i]));
    if let Some(i) = is(c.mode) {
        let e = format!("mode {}: {} at threshold {} becomes {}, want {}", c.mode, c.im.d[i], c.t, got.as_raw()[i], rule(c.mode, c.t, c.im.d[i]));
        // exactly the effect of the other ToZero mode: the recorded finding
        let sig = if c.mode >= 3 && is(7 - c.mode).is_none() { Some(SWAPPED.to_string()) } else { None };
        return Err(Fail { msg: e, sig });
    }
    lab(c.im.d.iter().any(|v| *v > c.t) && c.im.d.iter().any(|v| *v <= c.t), ["binary", "inverted", "truncate", "to zero", "to zero inverted"][c.mode as usize])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ada {
    im: Im<u8>,
    r: u32,
    delta: i32,
}
fn adaptive(c: &Ada) -> R {
    let got = adaptive_threshold(&c.im.luma(), c.r, c.delta);
    ensure!(got.dimensions() == (c.im.w, c.im.h), "dimensions {:?}", got.dimensions());
    let (mut on, mut off) = (false, false);
    let mut pre = vec![];
    let (long, short) = (c.im.w.max(c.im.h), c.im.w.min(c.im.h));
    for k in 0..short {
        let mut sum = 0u64;
        pre.push(0);
        for i in 0..long {
            sum += (if c.im.w > c.im.h { c.im.at(i, k) } else { c.im.at(k, i) }) as u64;
            pre.push(sum);
        }
    }
    for y in 0..c.im.h {
        for x in 0..c.im.w {
            // sums of single columns or rows from prefix sums, where the image is long
            let (x0, x1, y0, y1) = (x.saturating_sub(c.r), x.saturating_add(c.r).min(c.im.w - 1), y.saturating_sub(c.r), y.saturating_add(c.r).min(c.im.h - 1));
            let n = (x1 - x0 + 1) as u64 * (y1 - y0 + 1) as u64;
            let s: u64 = if c.im.w > c.im.h {
                (y0..=y1).map(|v| pre[(v * (c.im.w + 1) + x1 + 1) as usize] - pre[(v * (c.im.w + 1) + x0) as usize]).sum()
            } else {
                (x0..=x1).map(|u| pre[(u * (c.im.h + 1) + y1 + 1) as usize] - pre[(u * (c.im.h + 1) + y0) as usize]).sum()
            };
            let want = if c.im.at(x, y) as i64 >= (s / n) as i64 - c.delta as i64 { 255 } else { 0 };
            on |= want == 255;
            off |= want == 0;
            ensure!(got.get_pixel(x, y)[0] == want, "({x},{y}) = {}: block mean {s}/{n}, delta {}: got {}, want {want}", c.im.at(x, y), c.delta, got.get_pixel(x, y)[0]);
        }
    }
    lab(on && off, if c.r >= c.im.w.max(c.im.h) { "block covers image" } else { "local block" })
}

/// Pixel counts per level; the image lists them in a scattered order.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    n: Vec<(u8, u32)>,
}
impl Hist {
    fn counts(&self) -> [u64; 256] {
        let mut h = [0u64; 256];
        for (l, n) in &self.n {
            h[*l as usize] += *n as u64;
        }
        h
    }
    fn image(&self) -> GrayImage {
        let v: Vec<u8> = self.n.iter().flat_map(|(l, n)| std::iter::repeat(*l).take(*n as usize)).collect();
        let n = v.len();
        // as rectangular as the number of pixels allows
        let w = (1..=64).rev().find(|w| n % w == 0).unwrap();
        GrayImage::from_raw(w as u32, (n / w) as u32, v).unwrap()
    }
}
fn hist() -> BoxedStrategy<Hist> {
    let lev = prop_oneof![2 => any::<u8>(), 1 => 0u8..4, 1 => 252u8..=255, 1 => 90u8..110];
    prop_oneof![
        4 => prop::collection::vec((lev.clone(), 1u32..30), 1..12),
        2 => prop::collection::vec((lev.clone(), prop_oneof![Just(1u32), 1u32..2000]), 1..5),
        2 => prop::collection::vec((any::<u8>(), Just(1u32)), 1..200),
        // two bumps
        2 => (0u8..120, 1u8..60, 130u8..=200, 1u8..55, 1u32..40, 1u32..40).prop_map(|(a, wa, b, wb, na, nb)| {
            let mut v = vec![];
            for i in 0..wa { v.push((a + i, 1 + na * (wa / 2).min(i.min(wa - i)) as u32 / wa as u32)); }
            for i in 0..wb { v.push((b + i, 1 + nb * (wb / 2).min(i.min(wb - i)) as u32 / wb as u32)); }
            v
        }),
    ]
    .prop_map(|n| Hist { n })
    .boxed()
}
/// Up to a few million pixels.
fn big_hist() -> BoxedStrategy<Hist> {
    let n = prop_oneof![3 => 1u32..50_000, 1 => 1u32..300, 1 => 50_000u32..600_000];
    let lev = prop_oneof![2 => any::<u8>(), 1 => 0u8..4, 1 => 252u8..=255, 1 => 90u8..110];
    prop::collection::vec((lev, n), 2..12).prop_map(|n| Hist { n }).boxed()
}
fn check_level(name: &str, h: &[u64; 256], level: u8, score: &dyn Fn(usize) -> Option<f64>) -> R {
    let all: Vec<Option<f64>> = (0..256).map(|t| score(t)).collect();
    let best = all.iter().flatten().cloned().fold(f64::MIN, f64::max);
    if best == f64::MIN {
        return lab(false, "one level");
    }
    let Some(got) = all[level as usize] else {
        return Err(format!("{name} = {level} leaves one class empty").into());
    };
    let b = all.iter().position(|s| *s == Some(best)).unwrap();
    ensure!(got >= best - 1e-9 * (1.0 + best.abs()), "{name} = {level} scores {got}, level {b} scores {best}");
    let used = h.iter().filter(|n| **n > 0).count();
    lab(used > 2, if used > 2 { "several levels" } else { "two levels" })
}
fn otsu(c: &Hist) -> R {
    let h = c.counts();
    let n: u64 = h.iter().sum();
    let sum: u64 = h.iter().enumerate().map(|(i, k)| i as u64 * k).sum();
    let score = |t: usize| {
        let w: u64 = h[..=t].iter().sum();
        if w == 0 || w == n {
            return None;
        }
        let s: u64 = h[..=t].iter().enumerate().map(|(i, k)| i as u64 * k).sum();
        let d = (s as i128 * (n - w) as i128 - (sum - s) as i128 * w as i128).unsigned_abs() as f64;
        // between-class variance, in units of n^2
        Some(d / w as f64 * (d / (n - w) as f64) / (n as f64 * n as f64))
    };
    check_level("otsu_level", &h, otsu_level(&c.image()), &score)
}
fn kapur(c: &Hist) -> R {
    let h = c.counts();
    let n: u64 = h.iter().sum();
    let ent = |v: &[u64]| {
        let w: u64 = v.iter().sum();
        v.iter().filter(|k| **k > 0).map(|k| *k as f64 / w as f64).map(|p| -p * p.ln()).sum::<f64>()
    };
    let score = |t: usize| {
        let w: u64 = h[..=t].iter().sum();
        if w == 0 || w == n {
            return None;
        }
        Some(ent(&h[..=t]) + ent(&h[t + 1..]))
    };
    check_level("kapur_level", &h, kapur_level(&c.image()), &score)
}
/// Large images: (level, rows of 4096) runs.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge {
    rows: Vec<(u8, u32)>,
}
fn huge(c: &Huge) -> R {
    let hist = Hist { n: c.rows.iter().map(|(l, r)| (*l, r * 4096)).collect() };
    otsu(&hist)?;
    kapur(&hist)?;
    lab(hist.counts().iter().filter(|n| **n > 0).count() > 1, "large")
}

/// Images whose intensities add up to more than 2^32.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct AdaHuge {
    low: u8,
    side: u32,
    r: u32,
    delta: i32,
}
fn adaptive_huge(c: &AdaHuge) -> R {
    let (w, h) = (c.side, 4300);
    let im = image::GrayImage::from_fn(w, h, |x, y| image::Luma([if (x / 5 + y / 3) % 9 == 0 { c.low } else { 255 - ((x ^ y) & 3) as u8 }]));
    let total: u64 = im.iter().map(|v| *v as u64).sum();
    let got = adaptive_threshold(&im, c.r, c.delta);
    let (mut on, mut off) = (false, false);
    for k in 0..4000u32 {
        let (x, y) = if k < 60 { (w - 1 - k % 12, h - 1 - k / 12) } else { (k.wrapping_mul(2654435761) % w, k.wrapping_mul(40503) % h) };
        let v = im.get_pixel(x, y)[0];
        let (s, n) = if c.r >= w.max(h) {
            (total, w as u64 * h as u64)
        } else {
            let (mut s, mut n) = (0u64, 0u64);
            for q in y.saturating_sub(c.r)..(y + c.r + 1).min(h) {
                for p in x.saturating_sub(c.r)..(x + c.r + 1).min(w) {
                    s += im.get_pixel(p, q)[0] as u64;
                    n += 1;
                }
            }
            (s, n)
        };
        let want = if v as i64 >= (s / n) as i64 - c.delta as i64 { 255 } else { 0 };
        on |= want == 255;
        off |= want == 0;
        ensure!(got.get_pixel(x, y)[0] == want, "({x},{y}) = {v}: block mean {s}/{n}, delta {}: got {}, want {want}", c.delta, got.get_pixel(x, y)[0]);
    }
    lab(on && off && total >= 1 << 32, "sum above 2^32")
}

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "Random images and all 256 x 5 (threshold, mode) pairs over all 256 levels; adaptive thresholds recomputed with direct block means; levels compared with the exhaustive optimum over all 256 levels on random histograms. Non-trivial: both sides of the threshold occur, respectively more than two levels are used.",
        assumptions: &["automatic levels: pixels at or below the level form one class"],
        subs: vec![
            sub_all("all levels", 1280, |i| Thr { im: Im { w: 32, h: 8, d: (0..=255).collect() }, t: (i / 5) as u8, mode: (i % 5) as u8 }, thr),
            sub("threshold", 60000, || (im_u8(side0(12), side0(12), 1), any::<u8>(), 0u8..5).prop_map(|(im, t, mode)| { let t = if t & 1 == 0 && !im.d.is_empty() { im.d[t as usize % im.d.len()] } else { t }; Thr { im, t, mode } }).boxed(), thr),
            sub("adaptive", 60000, || (im_u8(side0(14), side0(14), 1), prop_oneof![6 => 1u32..5, 3 => 1u32..20, 1 => prop::sample::select(vec![u32::MAX, u32::MAX - 5, 1 << 31, i32::MAX as u32])], prop_oneof![4 => -5i32..=5, 2 => Just(0), 2 => -300i32..300, 1 => prop::sample::select(vec![i32::MIN, i32::MAX, i32::MIN + 200])]).prop_map(|(im, r, delta)| Ada { im, r, delta }).boxed(), adaptive),
            sub("otsu", 150000, hist, otsu),
            sub("kapur", 60000, hist, kapur),
            sub("otsu big", 900, big_hist, otsu),
            sub("kapur big", 500, big_hist, kapur),
            sub("large", 6, || prop::collection::vec((prop_oneof![Just(255u8), 200u8..=255], prop_oneof![1000u32..3000, 4200u32..4300]), 1..3).prop_map(|rows| Huge { rows }).boxed(), huge),
            sub("adaptive huge", 2, || (any::<u8>(), 4300u32..4400, prop_oneof![1u32..6, Just(5000u32)], -5i32..=5).prop_map(|(low, side, r, delta)| AdaHuge { low: low / 2 + 100, side, r, delta }).boxed(), adaptive_huge),
            sub("threshold large", 200, || (prop_oneof![strip(1), plane(1)], any::<u8>(), 0u8..5).prop_map(|(im, t, mode)| Thr { im, t, mode }).boxed(), thr),
            sub("adaptive large", 1200, || (prop_oneof![9 => short_strip(1), 1 => long(1)], prop_oneof![4 => 1u32..5, 4 => 100u32..300, 1 => 30_000u32..70_000], -5i32..=5).prop_map(|(im, r, delta)| Ada { im, r, delta }).boxed(), adaptive),
        ],
    }
}
