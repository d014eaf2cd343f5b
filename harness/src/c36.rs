//! C36: perceptual hashes are the signs of the low-frequency DCT around its mean.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{imageops, ImageBuffer, Luma};
use imageproc::image_hash::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

type F = ImageBuffer<Luma<f32>, Vec<f32>>;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Pic {
    Noise(Big),
    /// sum of cosine waves around grey: (u, v, amplitude in 1/64)
    Waves(u32, u32, Vec<(u8, u8, i8)>),
    Small(Im<u8>),
}
impl Pic {
    fn im(&self) -> F {
        match self {
            Pic::Noise(b) => F::from_raw(b.w, b.h, b.bytes(1).iter().map(|v| *v as f32 / 255.0).collect()).unwrap(),
            Pic::Small(i) => F::from_raw(i.w, i.h, i.d.iter().map(|v| *v as f32 / 255.0).collect()).unwrap(),
            Pic::Waves(w, h, ws) => F::from_fn(*w, *h, |x, y| {
                let mut s = 0.5;
                for (u, v, a) in ws {
                    let c = |i: u32, n: u32, k: u8| (PI * k as f64 * (2 * i + 1) as f64 / (2 * n) as f64).cos();
                    s += *a as f64 / 512.0 * c(x, *w, *u) * c(y, *h, *v);
                }
                Luma([s as f32])
            }),
        }
    }
}
const EPS: f64 = 2e-3;
/// The 64 coefficients around their mean, in f64.
fn around(im: &F) -> Vec<f64> {
    let r = imageops::resize(im, 32, 32, imageops::FilterType::Lanczos3);
    let c: Vec<Vec<f64>> = (0..9).map(|k| (0..32).map(|i| (PI * k as f64 * (2 * i + 1) as f64 / 64.0).cos()).collect()).collect();
    // rows first
    let rows: Vec<Vec<f64>> = (0..32).map(|y| (0..9).map(|u| (0..32).map(|x| r.get_pixel(x, y)[0] as f64 * c[u][x as usize]).sum()).collect()).collect();
    let mut out = vec![];
    for v in 1..9 {
        for u in 1..9 {
            out.push((0..32).map(|y| rows[y][u] * c[v][y]).sum::<f64>());
        }
    }
    let mean = out.iter().sum::<f64>() / 64.0;
    out.iter().map(|v| v - mean).collect()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    a: Pic,
    b: Pic,
    c: Pic,
}
fn distances(c: &Case) -> R {
    let ims = [c.a.im(), c.b.im(), c.c.im()];
    let hs = [phash(&ims[0]), phash(&ims[1]), phash(&ims[2])];
    let want = [around(&ims[0]), around(&ims[1]), around(&ims[2])];
    let mut sure = 0;
    let mut d = [[0u32; 3]; 3];
    for i in 0..3 {
        ensure!(phash(&ims[i]) == hs[i], "hashing the same image twice differs");
        for j in 0..3 {
            d[i][j] = hs[i].hamming_distance(hs[j]);
            let (mut lo, mut amb) = (0, 0);
            for (p, q) in want[i].iter().zip(&want[j]) {
                if i != j && (p.abs() < EPS || q.abs() < EPS) {
                    amb += 1;
                } else {
                    lo += ((*p > 0.0) != (*q > 0.0)) as u32;
                }
            }
            ensure!(lo <= d[i][j] && d[i][j] <= lo + amb, "distance of hashes {i} and {j} is {}, want {lo} (with {amb} undecided bits)", d[i][j]);
            ensure!((hs[i] == hs[j]) == (d[i][j] == 0), "hashes {:?} and {:?} at distance {}", hs[i], hs[j], d[i][j]);
            if amb < 8 && i != j {
                sure += lo;
            }
        }
    }
    for i in 0..3 {
        ensure!(d[i][i] == 0, "distance to itself is {}", d[i][i]);
        for j in 0..3 {
            ensure!(d[i][j] == d[j][i], "asymmetric distance");
            for k in 0..3 {
                ensure!(d[i][k] <= d[i][j] + d[j][k], "triangle inequality");
            }
        }
    }
    nt(sure > 0)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Change {
    a: Pic,
    gain: u8,
    shift: u8,
}
/// Contrast and brightness do not matter.
fn invariance(c: &Change) -> R {
    let im = c.a.im();
    let (g, s) = (0.3 + c.gain as f32 / 800.0, c.shift as f32 / 700.0);
    let other = F::from_fn(im.width(), im.height(), |x, y| Luma([im.get_pixel(x, y)[0] * g + s]));
    let (p, q) = (around(&im), around(&other));
    let amb = p.iter().zip(&q).filter(|(a, b)| a.abs() < 2.0 * EPS || b.abs() < 2.0 * EPS || (**a > 0.0) != (**b > 0.0)).count() as u32;
    let d = phash(&im).hamming_distance(phash(&other));
    ensure!(d <= amb, "scaling by {g} and adding {s} changes {d} bits, at most {amb} are undecided");
    nt(amb < 10)
}
fn pic() -> BoxedStrategy<Pic> {
    let n = || prop_oneof![3 => Just(32u32), 1 => 1u32..80];
    prop_oneof![
        2 => (n(), n(), any::<u64>(), prop_oneof![Just(255u8), Just(1u8), 1u8..=255]).prop_map(|(w, h, seed, levels)| Pic::Noise(Big { w, h, seed, levels })),
        3 => (n(), n(), prop::collection::vec((0u8..10, 0u8..10, -50i8..50), 1..5)).prop_map(|(w, h, v)| Pic::Waves(w, h, v)),
        1 => im_u8(s(6), s(6), 1).prop_map(Pic::Small),
    ].boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C36",
        rule: "Triples of noise, cosine-wave and tiny images: all pairwise distances between hashes must be those between the sign patterns of an f64 DCT-II of the 32x32 reduction (the only observable content of a hash), and obey the metric laws; gain and brightness changes. Non-trivial: at least one decided bit differs, respectively few undecided bits.",
        assumptions: &["intensities in [0,1]", "the reduction is image::imageops::resize with Lanczos3", "bits whose coefficient is within 2e-3 of the mean are undecided"],
        subs: vec![
            sub("distances", 30000, || (pic(), pic(), pic()).prop_map(|(a, b, c)| Case { a, b, c }).boxed(), distances),
            sub("large images", 60, || { let n = || (1u32..500, 1u32..500, any::<u64>()).prop_map(|(w, h, seed)| Pic::Noise(Big { w, h, seed, levels: 255 })); (n(), n(), pic()).prop_map(|(a, b, c)| Case { a, b, c }).boxed() }, distances),
            sub("invariance", 20000, || (pic(), any::<u8>(), any::<u8>()).prop_map(|(a, gain, shift)| Change { a, gain, shift }).boxed(), invariance),
        ],
    }
}
