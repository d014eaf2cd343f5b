//! C28: canny output is exactly the hysteresis closure of thin edges.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::GrayImage;
use imageproc::edges::canny;
use imageproc::filter::gaussian_blur_f32;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    im: Im<u8>,
    lo: f32,
    hi: f32,
}
/// Strengths (squared) after thinning; 0 where suppressed. None when rounding could decide.
fn thinned(im: &Im<u8>) -> Option<Vec<i64>> {
    let (w, h) = (im.w, im.h);
    let b = gaussian_blur_f32(&im.luma(), 1.4);
    let at = |x: i64, y: i64| b.get_pixel(cl(x, w), cl(y, h))[0] as i64;
    let grad = |x: i64, y: i64| {
        let s = |f: &dyn Fn(i64, i64) -> (i64, i64)| -> i64 { [(-1, 1), (0, 2), (1, 1)].iter().map(|&(k, wt)| { let p = f(k, 1); let q = f(k, -1); wt * (at(x + p.0, y + p.1) - at(x + q.0, y + q.1)) }).sum() };
        (s(&|k, d| (d, k)), s(&|k, d| (k, d)))
    };
    let g: Vec<(i64, i64)> = (0..h as i64).flat_map(|y| (0..w as i64).map(move |x| (x, y))).map(|(x, y)| grad(x, y)).collect();
    let sq = |p: (i64, i64)| p.0 * p.0 + p.1 * p.1;
    let mut out = vec![0i64; g.len()];
    for y in 1..h.saturating_sub(1) as i64 {
        for x in 1..w.saturating_sub(1) as i64 {
            let p = g[(y * w as i64 + x) as usize];
            let mut a = (p.1 as f64).atan2(p.0 as f64).to_degrees();
            if a < 0.0 {
                a += 180.0;
            }
            if [22.5, 67.5, 112.5, 157.5].iter().any(|b| (a - b).abs() < 1e-3) {
                return None;
            }
            let d = if a < 22.5 || a > 157.5 { (1, 0) } else if a < 67.5 { (1, 1) } else if a < 112.5 { (0, 1) } else { (-1, 1) };
            let mut keep = true;
            for s in [-1, 1] {
                let q = g[((y + s * d.1) * w as i64 + x + s * d.0) as usize];
                if sq(q) == sq(p) && {
                    let n = |p: (i64, i64)| (p.0.abs().min(p.1.abs()), p.0.abs().max(p.1.abs()));
                    n(p) != n(q)
                } {
                    return None;
                }
                keep &= sq(p) >= sq(q);
            }
            if keep {
                out[(y * w as i64 + x) as usize] = sq(p);
            }
        }
    }
    Some(out)
}
/// Is the strength at least the threshold? None when too close to tell.
fn reaches(sq: i64, t: f32) -> Option<bool> {
    let s = (sq as f64).sqrt();
    if s.fract() != 0.0 && (s - t as f64).abs() < 1e-3 {
        return None;
    }
    Some(s >= t as f64)
}
const KNOWN: &str = "weak edges are not followed straight up or to the upper right";
const DIRS: [(i64, i64); 8] = [(0, -1), (1, -1), (-1, -1), (-1, 0), (1, 0), (-1, 1), (0, 1), (1, 1)];
fn fill(w: u32, h: u32, weak: &[bool], strong: &[bool]) -> Vec<bool> {
    fill_in(w, h, weak, strong, &DIRS)
}
/// What the recorded finding gives: steps to (0, -1) and (1, -1) are never taken.
fn fill_known(w: u32, h: u32, weak: &[bool], strong: &[bool]) -> Vec<bool> {
    fill_in(w, h, weak, strong, &DIRS[2..])
}
fn known(m: String, is: bool) -> Fail {
    Fail { msg: m, sig: if is { Some(KNOWN.to_string()) } else { None } }
}
fn fill_in(w: u32, h: u32, weak: &[bool], strong: &[bool], dirs: &[(i64, i64)]) -> Vec<bool> {
    let mut out = vec![false; weak.len()];
    let mut st: Vec<usize> = (0..weak.len()).filter(|i| strong[*i]).collect();
    for i in &st {
        out[*i] = true;
    }
    while let Some(i) = st.pop() {
        let (x, y) = (i as i64 % w as i64, i as i64 / w as i64);
        for &(dx, dy) in dirs {
            let (u, v) = (x + dx, y + dy);
            if u >= 0 && v >= 0 && u < w as i64 && v < h as i64 {
                let j = (v * w as i64 + u) as usize;
                if weak[j] && !out[j] {
                    out[j] = true;
                    st.push(j);
                }
            }
        }
    }
    out
}
fn reference(c: &Case) -> R {
    let (w, h) = (c.im.w, c.im.h);
    if !(c.hi >= c.lo) {
        ensure!(no_panic(|| canny(&c.im.luma(), c.lo, c.hi)).is_err(), "low threshold above high threshold is accepted");
        return lab(false, "invalid thresholds");
    }
    let got = canny(&c.im.luma(), c.lo, c.hi);
    ensure!(got.dimensions() == (w, h), "dimensions {:?}", got.dimensions());
    let Some(t) = thinned(&c.im) else { return lab(false, "ambiguous") };
    let inner = |i: usize| { let (x, y) = (i as u32 % w, i as u32 / w); x > 0 && y > 0 && x + 1 < w && y + 1 < h };
    let pick = |th: f32| -> Option<Vec<bool>> { t.iter().enumerate().map(|(i, s)| reaches(*s, th).map(|r| r && inner(i))).collect() };
    let (Some(weak), Some(strong)) = (pick(c.lo), pick(c.hi)) else { return lab(false, "ambiguous") };
    let want = fill(w, h, &weak, &strong);
    for (i, (a, b)) in got.as_raw().iter().zip(&want).enumerate() {
        let e = if *b { 255 } else { 0 };
        if *a != e {
            let m = format!("canny({}, {}): pixel ({},{}) is {a}, want {e}; its strength after thinning is {}", c.lo, c.hi, i as u32 % w, i as u32 / w, (t[i] as f64).sqrt());
            let k = fill_known(w, h, &weak, &strong);
            return Err(known(m, got.as_raw().iter().zip(&k).all(|(a, b)| (*a == 255) == *b && (*a == 0) != *b)));
        }
    }
    let grown = (0..want.len()).any(|i| want[i] && !strong[i]);
    let left = (0..want.len()).any(|i| !want[i] && weak[i]);
    lab(grown && left, if grown && left { "some weak edges kept" } else if grown { "all weak edges kept" } else if want.contains(&true) { "strong only" } else { "no edges" })
}
/// The relations between results at different thresholds.
fn relations(c: &Case) -> R {
    let (w, h) = (c.im.w, c.im.h);
    let g = c.im.luma();
    let on = |i: &GrayImage| -> Vec<bool> { i.as_raw().iter().map(|v| *v == 255).collect() };
    let (lo, hi) = (c.lo.min(c.hi), c.lo.max(c.hi));
    let both = canny(&g, lo, hi);
    ensure!(both.as_raw().iter().all(|v| *v == 0 || *v == 255), "the result is not binary");
    let (a, b, m) = (on(&canny(&g, lo, lo)), on(&canny(&g, hi, hi)), on(&both));
    for i in 0..m.len() {
        ensure!(!b[i] || m[i], "a pixel of canny(high, high) is missing in canny(low, high)");
        ensure!(!m[i] || a[i], "canny(low, high) has a pixel that canny(low, low) lacks");
    }
    let want = fill(w, h, &a, &b);
    if m != want {
        let msg = format!("canny(low, high) is not the union of the components of canny(low, low) that meet canny(high, high): {} pixels differ of {w}x{h}", m.iter().zip(&want).filter(|(a, b)| a != b).count());
        return Err(known(msg, m == fill_known(w, h, &a, &b)));
    }
    lab(m.contains(&true) && m != a, if m == b { "strong only" } else if m == a { "all" } else { "some" })
}
fn images() -> BoxedStrategy<Im<u8>> {
    prop_oneof![9 => shapes(6u32..34, 6u32..34, 14), 2 => im_u8(s(24), s(24), 1), 1 => im_u8(side0(5), side0(5), 1), 2 => im_bin(s(30), s(30))].boxed()
}
fn shapes(w: std::ops::Range<u32>, h: std::ops::Range<u32>, size: i32) -> BoxedStrategy<Im<u8>> {
    // smooth blobs and steps so that edges survive the blur
    (w, h, any::<u8>(), prop::collection::vec((any::<u32>(), any::<u32>(), 1i32..size, 1i32..size, any::<u8>(), 0u8..3), 0..7), 0u8..3, any::<u64>())
        .prop_map(|(w, h, base, shapes, noise, seed)| {
            let mut im = Im { w, h, d: vec![base; (w * h) as usize] };
            for (x, y, a, b, v, kind) in shapes {
                let (cx, cy) = ((x % w) as i32, (y % h) as i32);
                for yy in 0..h as i32 {
                    for xx in 0..w as i32 {
                        let (dx, dy) = (xx - cx, yy - cy);
                        let i = (yy * w as i32 + xx) as usize;
                        match kind {
                            0 if dx.abs() <= a && dy.abs() <= b => im.d[i] = v,
                            1 if dx * dx * b * b + dy * dy * a * a <= a * a * b * b => im.d[i] = v,
                            // ramp along one direction
                            2 if dx.abs() <= a && dy.abs() <= b => im.d[i] = (v as i32 + 6 * dx + 4 * dy).clamp(0, 255) as u8,
                            _ => {}
                        }
                    }
                }
            }
            if noise > 0 {
                for (p, n) in im.d.iter_mut().zip((Big { w, h, seed, levels: 255 }).bytes(1)) {
                    *p = p.saturating_add(n >> (6 - noise));
                }
            }
            im
        })
        .boxed()
}
fn case() -> BoxedStrategy<Case> {
    let th = || prop_oneof![4 => 1f32..60.0, 4 => 10f32..200.0, 2 => (1i32..60).prop_map(|v| v as f32), 1 => 200f32..1200.0, 1 => Just(0f32), 1 => 0.01f32..=1.0];
    (images(), th(), th(), 0u8..20)
        .prop_map(|(im, a, b, k)| {
            let (mut lo, mut hi) = if k == 0 { (a, b) } else { (a.min(b), a.max(b)) };
            if k == 1 {
                lo = -1.0;
            }
            if k == 2 {
                hi = lo;
            }
            Case { im, lo, hi }
        })
        .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C28",
        rule: "Random images of steps, blobs, ramps and noise with random threshold pairs (including zero, negative, equal and unordered ones); result compared with thinning and hysteresis computed in exact integers from the blurred image, and the three runs (low, low), (high, high), (low, high) with each other. Non-trivial: some weak edges are kept and some dropped.",
        assumptions: &["strength equal to the threshold counts", "pixels on the image border are never edges", "cases where single-precision rounding could decide a comparison are skipped by the first check (label ambiguous)"],
        subs: vec![sub("reference", 200000, case, reference), sub("relations", 60000, || case().prop_map(|mut c| { if c.lo > c.hi { std::mem::swap(&mut c.lo, &mut c.hi) } c }).boxed(), relations), sub("long", 12, || (prop_oneof![shapes(65500..65700, 5..9, 300), shapes(5..9, 65500..65700, 300)], 1f32..200., 1f32..600.).prop_map(|(im, lo, hi)| Case { im, lo: lo.min(hi), hi: hi.max(lo) }).boxed(), reference), sub("large", 300, || (prop_oneof![shapes(257..300, 6..30, 60), shapes(6..30, 257..300, 60), shapes(257..290, 257..290, 120)], 1f32..200., 1f32..600.).prop_map(|(im, lo, hi)| Case { im, lo: lo.min(hi), hi: hi.max(lo) }).boxed(), reference),
            sub("relations large", 60, || (300u32..700, 300u32..700, any::<u64>(), prop_oneof![1 => Just(0f32), 2 => 0f32..20.], 50f32..400.).prop_map(|(w, h, seed, lo, hi)| Case { im: Big { w, h, seed, levels: 255 }.im(1), lo, hi }).boxed(), relations)],
    }
}
