//! C32: local binary patterns and the tables over bytes.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{GenericImage, GrayImage, Luma};
use imageproc::local_binary_patterns::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const CLOCKWISE: [(i64, i64); 8] = [(0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1)];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    im: Im<u8>,
    /// coordinates far outside
    far: (u32, u32),
    /// sub-image: left, top, width, height
    sub: (u32, u32, u32, u32),
}
fn pattern(im: &Im<u8>, x: i64, y: i64) -> Option<u8> {
    let mut p = 0;
    for (i, (dx, dy)) in CLOCKWISE.iter().enumerate() {
        let (u, v) = (x + dx, y + dy);
        if u < 0 || v < 0 || u >= im.w as i64 || v >= im.h as i64 {
            return None;
        }
        if im.at(u as u32, v as u32) < im.at(x as u32, y as u32) {
            p |= 1 << i;
        }
    }
    Some(p)
}
fn patterns(c: &Case) -> R {
    let im = c.im.luma();
    let mut found = 0;
    for y in 0..c.im.h + 2 {
        for x in 0..c.im.w + 2 {
            let want = if x < c.im.w && y < c.im.h { pattern(&c.im, x as i64, y as i64) } else { None };
            let got = local_binary_pattern(&im, x, y);
            ensure!(got == want, "pattern at ({x},{y}) is {got:?}, want {want:?} in {:?}", c.im);
            found |= want.unwrap_or(0) as u32;
        }
    }
    let got = local_binary_pattern(&im, c.far.0, c.far.1);
    if c.far.0.saturating_add(1) >= c.im.w.max(1) || c.far.1.saturating_add(1) >= c.im.h.max(1) {
        ensure!(got.is_none(), "pattern at {:?} outside is {got:?}", c.far);
    }
    // brightness order is all that matters, and a complementary image has complementary strict comparisons
    let (l, t, w, h) = c.sub;
    let mut base = im.clone();
    if l + w <= c.im.w && t + h <= c.im.h {
        let part = Im { w, h, d: (0..h).flat_map(|y| (0..w).map(move |x| (x, y))).map(|(x, y)| c.im.at(l + x, t + y)).collect() };
        let sub = base.sub_image(l, t, w, h);
        for y in 0..h {
            for x in 0..w {
                let (got, want) = (local_binary_pattern(&*sub, x, y), pattern(&part, x as i64, y as i64));
                ensure!(got == want, "pattern at ({x},{y}) of the sub-image {:?} is {got:?}, want {want:?}", c.sub);
            }
        }
    }
    nt(found > 0)
}
fn circle(b: u8) -> Vec<bool> {
    (0..8).map(|i| b >> i & 1 == 1).collect()
}
fn tables(b: &u8) -> R {
    let b = *b;
    let bits = circle(b);
    let changes = (0..8).filter(|&i| bits[i] != bits[(i + 1) % 8]).count() as u32;
    ensure!(count_transitions(b) == changes, "count_transitions({b}) = {}, want {changes}", count_transitions(b));
    let least = (0..8).map(|r| (0..8).map(|i| (bits[(i + r) % 8] as u16) << i).sum::<u16>() as u8).min().unwrap();
    ensure!(min_shift(b) == least, "min_shift({b}) = {}, want {least}", min_shift(b));
    ensure!(MIN_SHIFT[b as usize] == least, "MIN_SHIFT[{b}] = {}, want {least}", MIN_SHIFT[b as usize]);
    let uniform = if changes <= 2 { least } else { 0b10101010 };
    ensure!(UNIFORM_REPRESENTATIVE_2[b as usize] == uniform, "UNIFORM_REPRESENTATIVE_2[{b}] = {}, want {uniform}", UNIFORM_REPRESENTATIVE_2[b as usize]);
    nt(true)
}

pub fn prop() -> Prop {
    Prop {
        id: "C32",
        rule: "Random gray images from 0x0, every pixel, positions outside and sub-images against neighbour-by-neighbour comparison; all 256 bytes for the bit functions and tables. Non-trivial: some pattern bit is set.",
        assumptions: &["bit i (least significant first) belongs to the i-th neighbour clockwise from above, as the examples show; the documentation's 'nth most significant' is read that way"],
        subs: vec![
            sub("patterns", 150000, || (im_u8(side0(8), side0(8), 1), (prop_oneof![any::<u32>(), Just(u32::MAX), 0u32..9], prop_oneof![any::<u32>(), Just(u32::MAX), 0u32..9]), (0u32..4, 0u32..4, 1u32..5, 1u32..5)).prop_map(|(im, far, sub)| Case { im, far, sub }).boxed(), patterns),
            sub("long patterns", 40, || ((3u32..6, far_side(), any::<bool>(), any::<u64>(), 1u8..=255), (any::<u32>(), any::<u32>()), (0u32..4, 0u32..4, 1u32..5, 1u32..5)).prop_map(|((a, b, t, seed, levels), far, sub)| Case { im: Big { w: if t { a } else { b }, h: if t { b } else { a }, seed, levels }.im(1), far, sub }).boxed(), patterns),
            sub_all("bytes", 256, |i| i as u8, tables),
        ],
    }
}
