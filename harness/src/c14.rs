//! C14: flood fill recolours exactly the 4-connected region of the seed.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{Luma, Pixel, Rgb};
use imageproc::definitions::Image;
use imageproc::drawing::{flood_fill, flood_fill_mut};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    im: Im<u8>,
    /// per mille of the image size
    seed: (u32, u32),
    fill: u8,
}
fn region(im: &Im<u8>, x: u32, y: u32) -> Vec<bool> {
    let t = im.at(x, y);
    let mut seen = vec![false; im.d.len()];
    let mut todo = vec![(x, y)];
    seen[(y * im.w + x) as usize] = true;
    while let Some((x, y)) = todo.pop() {
        for (dx, dy) in [(1i64, 0i64), (-1, 0), (0, 1), (0, -1)] {
            let (a, b) = (x as i64 + dx, y as i64 + dy);
            if a < 0 || b < 0 || a >= im.w as i64 || b >= im.h as i64 {
                continue;
            }
            let (a, b) = (a as u32, b as u32);
            let i = (b * im.w + a) as usize;
            if !seen[i] && im.d[i] == t {
                seen[i] = true;
                todo.push((a, b));
            }
        }
    }
    seen
}
fn on<P: Pixel + PartialEq + std::fmt::Debug>(c: &Case, map: impl Fn(u8) -> P) -> Result<(usize, usize), Fail>
where
    P::Subpixel: std::fmt::Debug + PartialEq,
{
    let im: Image<P> = Image::from_fn(c.im.w, c.im.h, |x, y| map(c.im.at(x, y)));
    let (x, y) = (c.seed.0 * c.im.w / 1000, c.seed.1 * c.im.h / 1000);
    let r = region(&c.im, x, y);
    let fill = map(c.fill);
    let want = Image::from_fn(c.im.w, c.im.h, |a, b| if r[(b * c.im.w + a) as usize] { fill } else { *im.get_pixel(a, b) });
    let got = flood_fill(&im, x, y, fill);
    if let Some(m) = diff(&got, &want) {
        return Err(format!("flood_fill from ({x},{y}): {m}").into());
    }
    let mut m = im.clone();
    flood_fill_mut(&mut m, x, y, fill);
    if let Some(m) = diff(&m, &want) {
        return Err(format!("flood_fill_mut from ({x},{y}): {m}").into());
    }
    Ok((r.iter().filter(|b| **b).count(), r.len()))
}
fn label(n: usize, len: usize) -> R {
    lab(n > 3 && n < len, if n == len { "whole image" } else if n == 1 { "single pixel" } else if n * 2 > len { "most" } else { "part" })
}
fn luma(c: &Case) -> R {
    let (n, l) = on(c, |v| Luma([v]))?;
    label(n, l)
}
fn rgb(c: &Case) -> R {
    // colours that differ in a single channel
    let (n, l) = on(c, |v| Rgb([7u16, if v == 0 { 7 } else { v as u16 }, 9]))?;
    label(n, l)
}
/// A maze of one-pixel corridors carved by a random walk on the odd grid.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Maze {
    w: u32,
    h: u32,
    seed: u64,
    start: (u32, u32),
    fill: u8,
    /// extra openings and walls (makes loops and several regions)
    flips: Vec<(u32, u32)>,
}
fn maze(m: &Maze) -> R {
    let (w, h) = (2 * m.w + 1, 2 * m.h + 1);
    let mut d = vec![0u8; (w * h) as usize];
    let mut x = m.seed | 1;
    let mut rnd = |n: u32| {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((x >> 33) as u32) % n
    };
    let mut stack = vec![(rnd(m.w), rnd(m.h))];
    d[((2 * stack[0].1 + 1) * w + 2 * stack[0].0 + 1) as usize] = 1;
    while let Some(&(cx, cy)) = stack.last() {
        let mut opts = vec![];
        for (dx, dy) in [(1i64, 0i64), (-1, 0), (0, 1), (0, -1)] {
            let (a, b) = (cx as i64 + dx, cy as i64 + dy);
            if a >= 0 && b >= 0 && a < m.w as i64 && b < m.h as i64 && d[((2 * b as u32 + 1) * w + 2 * a as u32 + 1) as usize] == 0 {
                opts.push((a as u32, b as u32));
            }
        }
        if opts.is_empty() {
            stack.pop();
            continue;
        }
        let (a, b) = opts[rnd(opts.len() as u32) as usize];
        d[((cy + b + 1) * w + cx + a + 1) as usize] = 1;
        d[((2 * b + 1) * w + 2 * a + 1) as usize] = 1;
        stack.push((a, b));
    }
    for f in &m.flips {
        let i = ((f.1 % h) * w + f.0 % w) as usize;
        d[i] = 1 - d[i];
    }
    let c = Case { im: Im { w, h, d }, seed: m.start, fill: m.fill };
    let (n, l) = on(&c, |v| Luma([v]))?;
    label(n, l)
}
fn few() -> BoxedStrategy<u8> {
    prop_oneof![3 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8)].boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "Random few-coloured images (noise of several densities, blocks) and perfect mazes with random openings, random seeds and fill colours (also equal to existing colours, one- and three-channel pixels), against breadth-first search; non-trivial: the region has more than 3 pixels and is not the whole image.",
        assumptions: &["the seed lies inside the image"],
        subs: vec![
            sub("luma", 600000, || (prop_oneof![im_bin(s(14), s(14)), im_of(s(14), s(14), 1, few()), im_of(s(10), s(10), 1, prop_oneof![1 => Just(0u8), 2 => Just(255u8)].boxed())], (0u32..1000, 0u32..1000), prop::sample::select(vec![0u8, 1, 2, 7, 255])).prop_map(|(im, seed, fill)| Case { im, seed, fill }).boxed(), luma),
            sub("rgb", 200000, || (prop_oneof![im_bin(s(12), s(12)), im_of(s(12), s(12), 1, few())], (0u32..1000, 0u32..1000), prop::sample::select(vec![0u8, 1, 2, 9, 255])).prop_map(|(im, seed, fill)| Case { im, seed, fill }).boxed(), rgb),
            sub("maze", 40000, || (1u32..16, 1u32..16, any::<u64>(), (0u32..1000, 0u32..1000), 0u8..3, prop::collection::vec((any::<u32>(), any::<u32>()), 0..12)).prop_map(|(w, h, seed, start, fill, flips)| Maze { w, h, seed, start, fill, flips }).boxed(), maze),
            sub("large", 400, || (prop_oneof![4 => strip(1), 1 => plane(1)], (0u32..1000, 0u32..1000), any::<u8>()).prop_map(|(im, seed, fill)| Case { im, seed, fill }).boxed(), luma),
            sub("large mazes", 60, || (100u32..180, 100u32..180, any::<u64>(), (0u32..1000, 0u32..1000), 0u8..3, prop::collection::vec((any::<u32>(), any::<u32>()), 0..12)).prop_map(|(w, h, seed, start, fill, flips)| Maze { w, h, seed, start, fill, flips }).boxed(), maze),
        ],
    }
}
