//! C27: FAST corners are exactly the pixels passing the segment test.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::GrayImage;
use imageproc::corners::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const RING: [(i32, i32); 16] = [(0, -3), (1, -3), (2, -2), (3, -1), (3, 0), (3, 1), (2, 2), (1, 3), (0, 3), (-1, 3), (-2, 2), (-3, 1), (-3, 0), (-3, -1), (-2, -2), (-1, -3)];

/// Largest threshold at which (x, y) passes the segment test with arcs of n pixels; None if none.
fn score(im: &Im<u8>, x: u32, y: u32, n: usize) -> Option<u8> {
    if x < 3 || y < 3 || x + 3 >= im.w || y + 3 >= im.h {
        return None;
    }
    let c = im.at(x, y) as i32;
    let ring: Vec<i32> = RING.iter().map(|(dx, dy)| im.at((x as i32 + dx) as u32, (y as i32 + dy) as u32) as i32).collect();
    let mut best = 0;
    for s in 0..16 {
        // smallest excess along the arc starting at s
        let up = (0..n).map(|k| ring[(s + k) % 16] - c).min().unwrap();
        let down = (0..n).map(|k| c - ring[(s + k) % 16]).min().unwrap();
        best = best.max(up).max(down);
    }
    // strictly more than the threshold
    if best > 0 { Some((best - 1) as u8) } else { None }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    im: Im<u8>,
    t: u8,
}
fn corners(c: &Case) -> R {
    let g = c.im.luma();
    // positions without a whole circle, however far outside, are never corners
    for far in [u32::MAX, u32::MAX - 1, u32::MAX - 2, u32::MAX - 3, u32::MAX - 4, u32::MAX - 7, 1 << 31, c.im.w.max(c.im.h)] {
        for (x, y) in [(far, 3), (3, far), (far, far), (0, far), (far, 0)] {
            for v in [Fast::Nine, Fast::Twelve] {
                let got = no_panic(|| fast_corner_score(&g, c.t, x, y, v))?;
                ensure!(got == c.t, "fast_corner_score at ({x},{y}), outside the image, is {got} from {}", c.t);
            }
        }
    }
    let mut found = 0;
    let mut missed = 0;
    for n in [9usize, 12] {
        let got = if n == 9 { corners_fast9(&g, c.t) } else { corners_fast12(&g, c.t) };
        let mut got: Vec<(u32, u32, f32)> = got.iter().map(|c| (c.y, c.x, c.score)).collect();
        got.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut want = vec![];
        for y in 0..c.im.h {
            for x in 0..c.im.w {
                match score(&c.im, x, y, n) {
                    Some(s) if s >= c.t => {
                        want.push((y, x, s as f32));
                        found += 1;
                    }
                    Some(_) => missed += 1,
                    None => {}
                }
                let v = if n == 9 { Fast::Nine } else { Fast::Twelve };
                let got = fast_corner_score(&g, c.t, x, y, v);
                // a pixel that is no corner has no score above the lower bound given
                let w = score(&c.im, x, y, n).unwrap_or(0).max(c.t);
                ensure!(got == w, "fast_corner_score ({x},{y}) from {} with arcs of {n}: {got}, want {w}", c.t);
            }
        }
        ensure!(got == want, "corners_fast{n} at {}: (y, x, score) {got:?}\n want {want:?}", c.t);
    }
    lab(found > 0, if found > 0 && missed > 0 { "corners above and below the threshold" } else if found > 0 { "corners" } else { "no corners" })
}
fn ring_image(c: u8, ring: &[u8; 16]) -> Im<u8> {
    let mut im = Im { w: 7, h: 7, d: vec![c; 49] };
    for (v, (dx, dy)) in ring.iter().zip(RING) {
        im.d[((3 + dy) * 7 + 3 + dx) as usize] = *v;
    }
    im
}
fn nth_ring(i: u64) -> Case {
    let bits = i & 0xffff;
    let dark = i >> 16 & 1 == 1;
    let mut ring = [100u8; 16];
    for (k, r) in ring.iter_mut().enumerate() {
        if bits >> k & 1 == 1 {
            *r = if dark { 79 } else { 121 };
        } else if k % 3 == 0 {
            // exactly at the threshold: not enough
            *r = if dark { 80 } else { 120 };
        }
    }
    Case { im: ring_image(100, &ring), t: 20 }
}
/// Images with planted rings over noise or a flat background.
fn planted() -> BoxedStrategy<Im<u8>> {
    let ring = (any::<u32>(), any::<u32>(), any::<u8>(), 0usize..16, 7usize..17, -80i32..80, prop::collection::vec(-6i32..30, 16), any::<bool>());
    (prop_oneof![2 => Just((7u32, 7u32)), 3 => (7u32..16, 7u32..16)], any::<u8>(), 0u8..6, prop::collection::vec(ring, 1..4), any::<u64>())
        .prop_map(|((w, h), base, noise, rings, seed)| {
            let b = Big { w, h, seed, levels: 255 }.bytes(1);
            let mut im = Im { w, h, d: b.iter().map(|v| (base as i32 + (*v as i32 * noise as i32 / 64)).clamp(0, 255) as u8).collect() };
            for (x, y, c, start, len, delta, jit, whole) in rings {
                let (x, y) = (3 + x % (w - 6), 3 + y % (h - 6));
                im.d[(y * w + x) as usize] = c;
                for k in 0..16 {
                    let on = k < len;
                    if !on && !whole {
                        continue;
                    }
                    let (dx, dy) = RING[(start + k) % 16];
                    let v = if on { c as i32 + delta + jit[k] * delta.signum() } else { c as i32 + jit[k] - 12 };
                    im.d[((y as i32 + dy) as u32 * w + (x as i32 + dx) as u32) as usize] = v.clamp(0, 255) as u8;
                }
            }
            im
        })
        .boxed()
}
fn images() -> BoxedStrategy<Im<u8>> {
    // blocks give real corners
    let blocks = im_bin(s(22), s(22));
    prop_oneof![5 => planted(), 2 => im_u8(s(14), s(14), 1), 2 => blocks, 1 => im_u8(side0(6), side0(9), 1)].boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ori {
    im: Im<u8>,
    t: Option<u8>,
    target: usize,
    edge: u32,
    seed: u64,
}
fn oriented(c: &Ori) -> R {
    let g = c.im.luma();
    let got = oriented_fast(&g, c.t, c.target, c.edge, Some(c.seed));
    let again = oriented_fast(&g, c.t, c.target, c.edge, Some(c.seed));
    ensure!(got.len() == again.len() && got.iter().zip(&again).all(|(a, b)| a == b), "the same seed gives different corners");
    let mut all: Vec<(u32, u32, u8)> = vec![];
    for y in c.edge..c.im.h.saturating_sub(c.edge) {
        for x in c.edge..c.im.w.saturating_sub(c.edge) {
            if let Some(s) = score(&c.im, x, y, 9) {
                if s >= c.t.unwrap_or(0) {
                    all.push((x, y, s));
                }
            }
        }
    }
    all.sort_by_key(|p| std::cmp::Reverse(p.2));
    ensure!(got.len() <= c.target, "{} corners, {} requested", got.len(), c.target);
    let mut seen = std::collections::HashSet::new();
    for (i, o) in got.iter().enumerate() {
        let (x, y) = (o.corner.x, o.corner.y);
        ensure!(seen.insert((x, y)), "corner ({x},{y}) reported twice");
        let Some(p) = all.iter().find(|p| (p.0, p.1) == (x, y)) else {
            return Err(format!("({x},{y}) is no corner at this threshold and edge radius").into());
        };
        ensure!(o.corner.score == p.2 as f32, "score of ({x},{y}) is {}, want {}", o.corner.score, p.2);
        ensure!(o.corner.score == all[i].2 as f32, "corner {i} has score {}, the {i}-th best has {}", o.corner.score, all[i].2);
        // intensity centroid of the surrounding 31x31 patch, as far as it lies in the image
        let (mut mx, mut my) = (0i64, 0i64);
        for v in y.saturating_sub(15)..(y + 16).min(c.im.h) {
            for u in x.saturating_sub(15)..(x + 16).min(c.im.w) {
                mx += (u as i64 - x as i64) * c.im.at(u, v) as i64;
                my += (v as i64 - y as i64) * c.im.at(u, v) as i64;
            }
        }
        if mx != 0 || my != 0 {
            let want = (my as f64).atan2(mx as f64);
            let d = (o.orientation as f64 - want).rem_euclid(2.0 * std::f64::consts::PI);
            ensure!(d.min(2.0 * std::f64::consts::PI - d) < 1e-4, "orientation at ({x},{y}) is {}, the centroid ({mx},{my}) has direction {want}", o.orientation);
        }
    }
    if c.t.is_none() && (c.im.w * c.im.h) >= 3000 && c.im.w.min(c.im.h) >= 20 && c.edge < 4 && c.target * 10 >= (c.im.w * c.im.h) as usize && c.im.d.iter().collect::<std::collections::HashSet<_>>().len() > 2 {
        // noise has corners everywhere: a sample of it cannot pick a threshold far above the target
        ensure!(got.len() >= all.len().min(c.target * 3 / 10), "{} corners of {} found, {} requested", got.len(), all.len(), c.target);
    }
    if c.t.is_some() {
        ensure!(got.len() == all.len().min(c.target), "{} corners of {} found, {} requested", got.len(), all.len(), c.target);
    } else if !got.is_empty() && got.len() < c.target {
        // the threshold picked separates the corners by score
        let k = got.len();
        ensure!(k == all.len() || all[k].2 < all[k - 1].2, "corners of score {} are partly missing", all[k].2);
    }
    lab(!got.is_empty(), if got.is_empty() { "none" } else if c.t.is_some() { "given threshold" } else { "sampled threshold" })
}

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        rule: "All 2^16 bright and 2^16 dark circle patterns (with the others at or below the threshold) and random images with planted arcs, noise and blocks; corners, positions and scores of both variants at every pixel compared with the segment test over the 16 arcs; orientations with the directly computed centroid. Non-trivial: there is at least one corner.",
        assumptions: &["fast_corner_score of a pixel that is no corner at the given threshold is that threshold", "corners of equal score may be cut off in any order", "the orientation of a point symmetric patch is unspecified"],
        subs: vec![
            sub_all("all rings", 1 << 17, nth_ring, corners),
            sub("corners", 400000, || (images(), prop_oneof![2 => Just(0u8), 4 => 0u8..60, 1 => any::<u8>()]).prop_map(|(im, t)| Case { im, t }).boxed(), corners),
            sub("oriented", 250000, || (prop_oneof![3 => planted(), 1 => im_bin(s(40), s(40)), 1 => images(), 1 => im_u8(s(50), s(40), 1)], prop_oneof![2 => (0u8..60).prop_map(Some), 1 => Just(None)], prop_oneof![1 => Just(0usize), 3 => 1usize..6, 3 => 0usize..100, 1 => 0usize..5000], prop_oneof![4 => 0u32..5, 1 => 0u32..30], any::<u64>()).prop_map(|(im, t, target, edge, seed)| Ori { im, t, target, edge, seed }).boxed(), oriented),
            sub("oriented, sampled", 150, || (24u32..160, 24u32..160, any::<u64>(), 40u8..=255, 10usize..20, 0u32..4, any::<u64>()).prop_map(|(w, h, n, levels, p, edge, seed)| { let w = w.max(3000 / h + 1); Ori { im: Big { w, h, seed: n, levels }.im(1), t: None, target: (w * h) as usize * p / 100 + 1, edge, seed } }).boxed(), oriented),
            sub("large", 40, || (plane(1), prop_oneof![Just(0u8), 0u8..60]).prop_map(|(im, t)| Case { im, t }).boxed(), corners),
            sub("strips", 400, || (prop_oneof![(257u32..400, 7u32..10), (7u32..10, 257u32..400)], any::<u64>(), any::<u8>(), 0u8..60).prop_map(|((w, h), seed, levels, t)| Case { im: Big { w, h, seed, levels: levels.max(1) }.im(1), t }).boxed(), corners),
        ],
    }
}
