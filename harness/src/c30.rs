//! C30: Haar features evaluate to the signed sums over their blocks; the enumeration is complete.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{GrayImage, Luma};
use imageproc::haar::*;
use imageproc::integral_image::integral_image;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

/// (left, top, block width, block height, columns, rows, sign of the top left block)
type Lay = (u32, u32, u32, u32, u32, u32, bool);

/// All features that fit in a frame, from the documented shapes.
fn all_layouts(w: u32, h: u32) -> Vec<Lay> {
    let mut v = vec![];
    for (bx, by) in [(2, 1), (3, 1), (1, 2), (1, 3), (2, 2)] {
        for bw in 1..=w / bx {
            for bh in 1..=h / by {
                for l in 0..=w - bx * bw {
                    for t in 0..=h - by * bh {
                        v.push((l, t, bw, bh, bx, by, true));
                        v.push((l, t, bw, bh, bx, by, false));
                    }
                }
            }
        }
    }
    v
}
fn painted(w: u32, h: u32, l: &Lay) -> GrayImage {
    let mut im = GrayImage::from_pixel(w, h, Luma([128]));
    for y in l.1..l.1 + l.3 * l.5 {
        for x in l.0..l.0 + l.2 * l.4 {
            let odd = ((x - l.0) / l.2 + (y - l.1) / l.3) % 2 == 1;
            im.put_pixel(x, y, Luma([if odd == l.6 { 0 } else { 255 }]));
        }
    }
    im
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    im: Im<u8>,
    /// the frame the features are enumerated for
    fw: u8,
    fh: u8,
}
fn eval(c: &Case) -> R {
    let (fw, fh) = (c.fw as u32, c.fh as u32);
    let feats = enumerate_haar_features(c.fw, c.fh);
    let ii = integral_image::<_, u32>(&c.im.luma());
    let mut any = false;
    let mut rejected = false;
    // all features of small frames, a sample of those of larger ones
    let step = feats.len() / 4000 + 1;
    for f in feats.into_iter().skip(c.im.d.len() % step).step_by(step) {
        let shape = draw_haar_feature(&GrayImage::from_pixel(fw, fh, Luma([128])), f);
        let mut want = 0i64;
        let mut fits = true;
        for (x, y, p) in shape.enumerate_pixels() {
            let s = match p[0] {
                255 => 1,
                0 => -1,
                _ => continue,
            };
            if x >= c.im.w || y >= c.im.h {
                fits = false;
                break;
            }
            want += s * c.im.at(x, y) as i64;
        }
        let got = no_panic(|| f.evaluate(&ii));
        if fits {
            ensure!(got == Ok(want as i32), "{f:?} evaluates to {got:?} on {:?}, want {want}", c.im);
            any |= want != 0;
        } else {
            rejected = true;
            ensure!(got.is_err(), "{f:?} exceeds the {}x{} image yet evaluates to {got:?}", c.im.w, c.im.h);
        }
    }
    lab(any, if rejected { "some too large" } else { "all fit" })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Frame {
    w: u8,
    h: u8,
}
fn enumeration(c: &Frame) -> R {
    let feats = enumerate_haar_features(c.w, c.h);
    let want = all_layouts(c.w as u32, c.h as u32);
    let n = number_of_haar_features(c.w as u32, c.h as u32);
    ensure!(n as usize == want.len(), "number_of_haar_features({},{}) = {n}, want {}", c.w, c.h, want.len());
    ensure!(feats.len() == want.len(), "{} features enumerated for {}x{}, want {}", feats.len(), c.w, c.h, want.len());
    let blank = GrayImage::from_pixel(c.w as u32, c.h as u32, Luma([128]));
    let seen: HashSet<Vec<u8>> = feats.iter().map(|f| draw_haar_feature(&blank, *f).into_raw()).collect();
    ensure!(seen.len() == want.len(), "{} distinct features of {}", seen.len(), want.len());
    for l in &want {
        ensure!(seen.contains(painted(c.w as u32, c.h as u32, l).as_raw()), "{}x{}: {l:?} is missing", c.w, c.h);
    }
    for (i, a) in feats.iter().enumerate().take(40) {
        for b in &feats[..i] {
            ensure!(a != b, "{a:?} listed twice");
        }
    }
    nt(!want.is_empty())
}
/// Thin frames up to the largest side.
fn thin(c: &Frame) -> R {
    let (w, h) = (c.w as u32, c.h as u32);
    let feats = enumerate_haar_features(c.w, c.h);
    let mut want = 0u64;
    for (bx, by) in [(2, 1), (3, 1), (1, 2), (1, 3), (2, 2)] {
        for bw in 1..=w / bx {
            for bh in 1..=h / by {
                want += 2 * (w - bx * bw + 1) as u64 * (h - by * bh + 1) as u64;
            }
        }
    }
    ensure!(feats.len() as u64 == want, "{} features enumerated for {w}x{h}, want {want}", feats.len());
    ensure!(number_of_haar_features(w, h) as u64 == want, "number_of_haar_features({w},{h}) = {}, want {want}", number_of_haar_features(w, h));
    // spot check the largest and outermost ones
    let im = GrayImage::from_fn(w, h, |x, y| Luma([(x * 7 + y * 31) as u8]));
    let ii = integral_image::<_, u32>(&im);
    for f in feats.iter().rev().step_by(feats.len() / 15 + 1) {
        let d = draw_haar_feature(&GrayImage::from_pixel(w, h, Luma([128])), *f);
        let s: i64 = d.enumerate_pixels().map(|(x, y, p)| if p[0] == 255 { 1 } else if p[0] == 0 { -1 } else { 0 } * im.get_pixel(x, y)[0] as i64).sum();
        ensure!(f.evaluate(&ii) as i64 == s, "{f:?}: {} want {s}", f.evaluate(&ii));
    }
    nt(want > 0)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Count {
    w: u32,
    h: u32,
}
fn count(c: &Count) -> R {
    let along = |n: u64, k: u64| (1..=n / k).map(|s| n - k * s + 1).sum::<u64>();
    let (w, h) = (c.w as u64, c.h as u64);
    let want: u64 = 2 * [(2, 1), (3, 1), (1, 2), (1, 3), (2, 2)].iter().map(|&(a, b)| along(w, a) * along(h, b)).sum::<u64>();
    if want > u32::MAX as u64 {
        return nt(false);
    }
    let got = number_of_haar_features(c.w, c.h);
    ensure!(got as u64 == want, "number_of_haar_features({w},{h}) = {got}, want {want}");
    nt(want > 0)
}

pub fn prop() -> Prop {
    Prop {
        id: "C30",
        rule: "Every feature of a random frame is evaluated on a random image, sometimes smaller than the frame, and compared with the signed pixel sum over the blocks it draws; the enumerations are compared with all layouts of the documented shapes that fit, for all frames up to 9x9 exhaustively and thin frames up to side 255. Non-trivial: some feature is non-zero, respectively some feature fits.",
        assumptions: &["the block layout of a feature is observed through draw_haar_feature; a wrong drawing shows as a missing layout in the enumeration check", "features that exceed the integral image panic", "counts that fit in u32"],
        subs: vec![
            sub("evaluate", 60000, || (1u8..9, 1u8..9).prop_flat_map(|(fw, fh)| {
                let side = |f: u8| prop_oneof![6 => Just(f as u32), 2 => f as u32..f as u32 + 4, 1 => 1u32..=f as u32].boxed();
                im_u8(side(fw), side(fh), 1).prop_map(move |im| Case { im, fw, fh })
            }).boxed(), eval),
            sub("evaluate in large frames", 200, || (9u8..30, 9u8..30).prop_flat_map(|(fw, fh)| {
                let side = |f: u8| prop_oneof![6 => Just(f as u32), 2 => f as u32..f as u32 + 4, 1 => 1u32..=f as u32].boxed();
                im_u8(side(fw), side(fh), 1).prop_map(move |im| Case { im, fw, fh })
            }).boxed(), eval),
            // the sums of bright features of long frames do not fit in sixteen bits by far
            sub("evaluate in long frames", 24, || (200u8..=255, 3u8..12, any::<bool>(), prop_oneof![Just(0u8), Just(200u8), Just(255u8)]).prop_flat_map(|(a, b, turn, low)| {
                let (fw, fh) = if turn { (b, a) } else { (a, b) };
                im_u8((fw as u32..fw as u32 + 2).boxed(), (fh as u32..fh as u32 + 2).boxed(), 1).prop_map(move |mut im| {
                    im.d.iter_mut().for_each(|p| *p = (*p).max(low));
                    Case { im, fw, fh }
                })
            }).boxed(), eval),
            sub_all("enumeration", 10 * 10, |i| Frame { w: (i % 10) as u8, h: (i / 10) as u8 }, enumeration),
            sub("thin", 100, || (prop_oneof![2 => Just(255u8), 1 => Just(254), 3 => 100u8..=255], 1u8..4, any::<bool>()).prop_map(|(a, b, f)| if f { Frame { w: a, h: b } } else { Frame { w: b, h: a } }).boxed(), thin),
            sub("count", 20000, || prop_oneof![(0u32..230, 0u32..230), (0u32..65535, 0u32..3), (0u32..3, 0u32..65535)].prop_map(|(w, h)| Count { w, h }).boxed(), count),
        ],
    }
}
