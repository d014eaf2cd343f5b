//! C34: seams are connected, of minimal energy, removed exactly and drawn where they were.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{GrayImage, ImageBuffer, Luma, Rgb, Rgba};
use imageproc::seam_carving::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

type Ids = ImageBuffer<Luma<u32>, Vec<u32>>;
fn ids(w: u32, h: u32) -> Ids {
    Ids::from_fn(w, h, |x, _| Luma([x]))
}
/// Mean over the channels of the Sobel gradient magnitude, rounded down at both steps.
fn energy(im: &Im<u8>, ch: u32) -> Vec<u64> {
    let hs = reference(im, ch, &[-1f64, 0., 1., -2., 0., 2., -1., 0., 1.], 3, 3);
    let vs = reference(im, ch, &[-1f64, -2., -1., 0., 0., 0., 1., 2., 1.], 3, 3);
    let m: Vec<u64> = hs.iter().zip(&vs).map(|(h, v)| (h * h + v * v).sqrt().floor() as u64).collect();
    m.chunks(ch as usize).map(|c| c.iter().sum::<u64>() / ch as u64).collect()
}
fn least(e: &[u64], w: usize, h: usize) -> u64 {
    let mut row: Vec<u64> = e[..w].to_vec();
    for y in 1..h {
        row = (0..w).map(|x| e[y * w + x] + *row[x.saturating_sub(1)..(x + 2).min(w)].iter().min().unwrap()).collect();
    }
    *row.iter().min().unwrap()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    im: Im<u8>,
    ch: u8,
    steps: u32,
}
/// The column the seam takes in each row from the top, read off what it removes.
fn columns(seam: &VerticalSeam, w: u32, h: u32) -> Result<Vec<u32>, Fail> {
    let r = remove_vertical_seam(&ids(w, h), seam);
    ensure!(r.dimensions() == (w - 1, h), "removing a seam from {w}x{h} gives {:?}", r.dimensions());
    let mut cols = vec![];
    for y in 0..h {
        let row: Vec<u32> = (0..w - 1).map(|x| r.get_pixel(x, y)[0]).collect();
        let gone: Vec<u32> = (0..w).filter(|x| !row.contains(x)).collect();
        ensure!(gone.len() == 1 && row.windows(2).all(|p| p[0] < p[1]), "row {y} after the removal is {row:?}");
        cols.push(gone[0]);
    }
    Ok(cols)
}
fn carve(c: &Case) -> R {
    let ch = c.ch as u32;
    macro_rules! go {
        ($im:expr) => {{
            let first = $im;
            let mut im = first.clone();
            let mut cur = c.im.clone();
            let mut marks: Vec<Vec<u32>> = (0..c.im.h).map(|_| (0..c.im.w).collect()).collect();
            let mut interesting = false;
            let mut seams = vec![];
            for step in 0..c.steps.min(c.im.w - 1) {
                let (w, h) = (cur.w, cur.h);
                let seam = find_vertical_seam(&im);
                let cols = columns(&seam, w, h)?;
                ensure!(cols.windows(2).all(|p| p[0].abs_diff(p[1]) <= 1), "seam {step} is not connected: {cols:?}");
                let e = energy(&cur, ch);
                let got: u64 = cols.iter().enumerate().map(|(y, x)| e[y * w as usize + *x as usize]).sum();
                let want = least(&e, w as usize, h as usize);
                ensure!(got == want, "seam {step} {cols:?} has energy {got}, the least is {want}, in {cur:?}");
                let straight = (0..w as usize).map(|x| (0..h as usize).map(|y| e[y * w as usize + x]).sum::<u64>()).min().unwrap();
                interesting |= want < straight;
                im = remove_vertical_seam(&im, &seam);
                let d: Vec<u8> = (0..h as usize)
                    .flat_map(|y| (0..w as usize).map(move |x| (x, y)))
                    .filter(|&(x, y)| x != cols[y] as usize)
                    .flat_map(|(x, y)| { let i = (y * w as usize + x) * ch as usize; cur.d[i..i + ch as usize].to_vec() })
                    .collect();
                cur = Im { w: w - 1, h, d };
                ensure!(im.dimensions() == (w - 1, h) && im.as_raw() == &cur.d, "removing seam {cols:?} leaves {:?}, want {cur:?}", im.as_raw());
                for (m, x) in marks.iter_mut().zip(&cols) {
                    m.remove(*x as usize);
                }
                seams.push(seam);
                // shrinking follows the same steps
                let s = shrink_width(&first, w - 1);
                ensure!(s == im, "shrink_width to {} differs from removing {} seams", w - 1, step + 1);
            }
            ensure!(shrink_width(&first, c.im.w) == first, "shrinking to the same width changes the image");
            (marks, seams, interesting)
        }};
    }
    let (marks, seams, interesting) = match ch {
        1 => go!(c.im.luma()),
        3 => go!(c.im.rgb()),
        _ => go!(c.im.rgba()),
    };
    // drawing: the pixels removed so far are red, at their place in the original
    let gray = GrayImage::from_fn(c.im.w, c.im.h, |x, y| Luma([(x * 13 + y * 101) as u8]));
    let got = draw_vertical_seams(&gray, &seams);
    for (x, y, p) in got.enumerate_pixels() {
        let v = gray.get_pixel(x, y)[0];
        let want = if marks[y as usize].contains(&x) { Rgb([v, v, v]) } else { Rgb([255, 0, 0]) };
        ensure!(*p == want, "drawing {} seams: pixel ({x},{y}) is {p:?}, want {want:?}; kept columns {marks:?}", seams.len());
    }
    lab(interesting, ["none", "one seam", "several seams"][seams.len().min(2)])
}

/// Tall high-contrast images: path energies go far beyond what a short image reaches.
fn tall() -> BoxedStrategy<Case> {
    (big(5, 400), 1u32..3, prop_oneof![4 => Just(1u8), 1 => Just(3u8)])
        .prop_map(|(mut b, steps, ch)| {
            b.w += 1;
            b.h = b.h.max(60);
            Case { im: b.im(ch as u32), ch, steps }
        })
        .boxed()
}
fn wide() -> BoxedStrategy<Case> {
    (big(300, 4), 1u32..3, prop_oneof![4 => Just(1u8), 1 => Just(4u8)])
        .prop_map(|(mut b, steps, ch)| {
            b.w = b.w.max(200);
            Case { im: b.im(ch as u32), ch, steps }
        })
        .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C34",
        rule: "Sequences of seams found in and removed from random images (gray, RGB, RGBA). The seam is read off what it removes from an image of column numbers; its connectivity, its energy against the least by an independent dynamic programme over independently computed gradients, the removal, shrink_width and the drawing of all seams in the original are checked. Non-trivial: the best seam beats every straight column.",
        assumptions: &["energy is the Sobel gradient magnitude, rounded down, averaged over the channels, rounded down", "images at least two columns wide and one row high", "among seams of equal energy any may be chosen, but the choice is deterministic"],
        subs: vec![
            sub("carve", 500000, || (prop_oneof![3 => 2u32..8, 1 => 2u32..16], prop_oneof![3 => 1u32..8, 1 => 1u32..16], prop_oneof![6 => Just(1u8), 2 => Just(3u8), 1 => Just(4u8)], 1u32..7)
                .prop_flat_map(|(w, h, ch, steps)| im_u8(Just(w).boxed(), Just(h).boxed(), ch as u32).prop_map(move |im| Case { im, ch, steps })).boxed(), carve),
            sub("tall", 3000, tall, carve),
            sub("long", 20, || (far_side(), 1u32..4, any::<bool>(), any::<u64>(), 1u32..3, prop_oneof![4 => Just(1u8), 1 => Just(4u8)]).prop_map(|(a, b, t, seed, steps, ch)| Case { im: Big { w: if t { b + 2 } else { a }, h: if t { a } else { b }, seed, levels: 255 }.im(ch as u32), ch, steps }).boxed(), carve),
            sub("wide", 1500, wide, carve),
        ],
    }
}
