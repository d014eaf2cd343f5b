//! C37: noise is seeded, has the stated statistics and leaves the rest alone.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{ImageBuffer, Luma, LumaA, Pixel, Rgb, Rgba};
use imageproc::definitions::{Clamp, HasBlack, HasWhite};
use imageproc::noise::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gauss {
    im: Big,
    kind: u8,
    mean: f64,
    sd: f64,
    seed: u64,
}
/// |x| away from its expectation by more than `k` standard errors.
fn off(x: f64, want: f64, se: f64, k: f64) -> bool {
    (x - want).abs() > k * se + 1e-9
}
fn gauss(c: &Gauss) -> R {
    let ch = [1u32, 3, 1, 4, 1][c.kind as usize];
    let (w, h) = (c.im.w, c.im.h);
    let n = (w * h * ch) as usize;
    // unsaturated standard noise, observed on f64 pixels
    let zero = ImageBuffer::<Luma<f64>, Vec<f64>>::new(w * ch, h);
    let z = gaussian_noise(&zero, 0.0, 1.0, c.seed).into_raw();
    macro_rules! go {
        ($im:expr, $t:ty) => {{
            let im = $im;
            let got = gaussian_noise(&im, c.mean, c.sd, c.seed);
            ensure!(got.dimensions() == (w, h), "dimensions {:?}", got.dimensions());
            ensure!(got == gaussian_noise(&im, c.mean, c.sd, c.seed), "the same seed gives other noise");
            let mut m = im.clone();
            gaussian_noise_mut(&mut m, c.mean, c.sd, c.seed);
            ensure!(m == got, "gaussian_noise_mut differs from gaussian_noise");
            for (i, (a, b)) in im.as_raw().iter().zip(got.as_raw()).enumerate() {
                let want = *a as f64 + c.mean + c.sd * z[i];
                let e = 1e-9 * (1.0 + want.abs());
                let ok = (<$t as Clamp<f64>>::clamp(want - e)..=<$t as Clamp<f64>>::clamp(want + e)).contains(b);
                ensure!(ok, "subpixel {i}: {a} with noise {} gives {b}", c.mean + c.sd * z[i]);
            }
            if n > 60 && c.sd > 300.0 && c.mean.abs() <= 80.0 {
                ensure!(got != gaussian_noise(&im, c.mean, c.sd, c.seed ^ 1), "another seed gives the same noise");
            }
        }};
    }
    let d = c.im.bytes(ch);
    match c.kind {
        0 => go!(Im { w, h, d }.luma(), u8),
        1 => go!(Im { w, h, d }.rgb(), u8),
        2 => go!(Im { w, h, d: d.iter().map(|v| *v as u16 * 257).collect::<Vec<u16>>() }.luma(), u16),
        3 => go!(Im { w, h, d }.rgba(), u8),
        _ => go!(ImageBuffer::<Luma<f64>, Vec<f64>>::from_raw(w, h, d.iter().map(|v| *v as f64).collect()).unwrap(), f64),
    }
    lab(n > 1 && c.sd > 0.0, "")
}
fn gauss_stats(c: &Gauss) -> R {
    let (w, h) = (c.im.w, c.im.h);
    let zero = ImageBuffer::<Luma<f64>, Vec<f64>>::from_pixel(w, h, Luma([7.0]));
    let z: Vec<f64> = gaussian_noise(&zero, c.mean, c.sd, c.seed).into_raw().iter().map(|v| v - 7.0).collect();
    let n = z.len() as f64;
    let mean = z.iter().sum::<f64>() / n;
    let k = 6.0;
    ensure!(!off(mean, c.mean, c.sd / n.sqrt(), k), "mean {mean} of {n} samples, requested {}", c.mean);
    let u: Vec<f64> = z.iter().map(|v| (v - c.mean) / c.sd).collect();
    let var = u.iter().map(|v| v * v).sum::<f64>() / n;
    ensure!(!off(var, 1.0, (2.0 / n).sqrt(), k), "variance {var} of the requested one over {n} samples");
    let skew = u.iter().map(|v| v * v * v).sum::<f64>() / n;
    ensure!(!off(skew, 0.0, (15.0 / n).sqrt(), k), "third moment {skew}");
    for (t, p) in [(0.5, 0.38292), (1.0, 0.68269), (2.0, 0.95450), (3.0, 0.99730)] {
        let f = u.iter().filter(|v| v.abs() < t).count() as f64 / n;
        ensure!(!off(f, p, (p * (1.0 - p) / n).sqrt(), k), "{f} of the samples within {t} standard deviations, want {p}");
    }
    for lag in [1usize, 2, w as usize] {
        let m = u.len() - lag;
        let r = (0..m).map(|i| u[i] * u[i + lag]).sum::<f64>() / m as f64;
        ensure!(!off(r, 0.0, 1.0 / (m as f64).sqrt(), k), "samples {lag} apart correlate by {r}");
    }
    nt(true)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Salt {
    im: Big,
    kind: u8,
    rate: f64,
    seed: u64,
}
fn salt(c: &Salt) -> R {
    let (w, h) = (c.im.w, c.im.h);
    fn run<P: Pixel + HasBlack + HasWhite + PartialEq + std::fmt::Debug>(im: ImageBuffer<P, Vec<P::Subpixel>>, c: &Salt, black: P, white: P) -> R
    where
        P::Subpixel: PartialEq + std::fmt::Debug,
    {
        let got = salt_and_pepper_noise(&im, c.rate, c.seed);
        ensure!(got.dimensions() == im.dimensions(), "dimensions {:?}", got.dimensions());
        ensure!(got == salt_and_pepper_noise(&im, c.rate, c.seed), "the same seed gives other noise");
        let mut m = im.clone();
        salt_and_pepper_noise_mut(&mut m, c.rate, c.seed);
        ensure!(m == got, "salt_and_pepper_noise_mut differs from salt_and_pepper_noise");
        // the noise chosen does not depend on the image: read it off an image of neither colour
        let (w, h) = im.dimensions();
        let mut grey = white;
        for s in grey.channels_mut() {
            *s = num(77);
        }
        let mask = salt_and_pepper_noise(&ImageBuffer::from_pixel(w, h, grey), c.rate, c.seed);
        let (mut b, mut s) = ([0f64; 4], [0f64; 4]);
        for (x, y, p) in mask.enumerate_pixels() {
            let want = if *p == grey { *im.get_pixel(x, y) } else { *p };
            ensure!(*p == grey || *p == black || *p == white, "noise pixel {p:?}");
            ensure!(*got.get_pixel(x, y) == want, "pixel ({x},{y}) is {:?}, want {want:?}", got.get_pixel(x, y));
            let q = ((x & 1) + 2 * (y & 1)) as usize;
            b[q] += (*p == black) as u32 as f64;
            s[q] += (*p == white) as u32 as f64;
        }
        let n = (w * h) as f64;
        let (tb, ts): (f64, f64) = (b.iter().sum(), s.iter().sum());
        let r = c.rate.clamp(0.0, 1.0);
        let bin = |n: f64, p: f64| (n * p * (1.0 - p)).sqrt();
        if r == 0.0 || r == 1.0 {
            ensure!(tb + ts == r * n, "rate {r} changes {} of {n} pixels", tb + ts);
        }
        ensure!((tb + ts - n * r).abs() <= 6.0 * bin(n, r) + 4.0 || n < 50.0, "rate {r} changes {} of {n} pixels", tb + ts);
        ensure!((tb - ts).abs() <= 6.0 * (tb + ts).sqrt() + 4.0, "{ts} white and {tb} black pixels");
        if n > 400.0 {
            for q in 0..4 {
                let m = ((w as usize + 1 - (q & 1)) / 2) as f64 * ((h as usize + 1 - (q >> 1)) / 2) as f64;
                ensure!((b[q] + s[q] - m * r).abs() <= 6.0 * bin(m, r) + 4.0, "rate {r} changes {} of {m} pixels on sublattice {q}", b[q] + s[q]);
                ensure!((b[q] - s[q]).abs() <= 6.0 * (b[q] + s[q]).sqrt() + 4.0, "{} white and {} black pixels on sublattice {q}", s[q], b[q]);
            }
            if r > 0.1 {
                ensure!(mask != salt_and_pepper_noise(&ImageBuffer::from_pixel(w, h, grey), c.rate, c.seed.wrapping_add(1)), "another seed gives the same noise");
            }
        }
        lab(tb > 0.0 && ts > 0.0, if n > 400.0 { "statistics" } else { "small" })
    }
    fn num<S: image::Primitive>(v: u8) -> S {
        S::from(v).unwrap()
    }
    let d = |ch: u32| c.im.bytes(ch);
    let d16 = |ch: u32| c.im.bytes(ch).iter().map(|v| *v as u16 * 255 + 3).collect::<Vec<u16>>();
    match c.kind {
        0 => run(Im { w, h, d: d(1) }.luma(), c, Luma([0u8]), Luma([255u8])),
        1 => run(Im { w, h, d: d(3) }.rgb(), c, Rgb([0u8; 3]), Rgb([255u8; 3])),
        2 => run(Im { w, h, d: d(4) }.rgba(), c, Rgba([0u8, 0, 0, 255]), Rgba([255u8; 4])),
        3 => run(Im { w, h, d: d(2) }.buf::<LumaA<u8>>(), c, LumaA([0u8, 255]), LumaA([255u8, 255])),
        4 => run(Im { w, h, d: d16(1) }.luma(), c, Luma([0u16]), Luma([65535u16])),
        5 => run(Im { w, h, d: d16(3) }.rgb(), c, Rgb([0u16; 3]), Rgb([65535u16; 3])),
        6 => run(Im { w, h, d: d16(2) }.buf::<LumaA<u16>>(), c, LumaA([0u16, 65535]), LumaA([65535u16, 65535])),
        _ => run(Im { w, h, d: d16(4) }.rgba(), c, Rgba([0u16, 0, 0, 65535]), Rgba([65535u16; 4])),
    }
}

/// Distinct seeds give distinct noise fields, whichever bits distinguish them.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seeds {
    a: u64,
    b: u64,
}
fn seeds(c: &Seeds) -> R {
    if c.a == c.b {
        return nt(false);
    }
    let zero = ImageBuffer::<Luma<f64>, Vec<f64>>::new(16, 1);
    ensure!(gaussian_noise(&zero, 0.0, 1.0, c.a) != gaussian_noise(&zero, 0.0, 1.0, c.b), "gaussian noise of seeds {} and {} is the same", c.a, c.b);
    // 200 pixels of three kinds: equal by chance with probability 0.375^200
    let grey = ImageBuffer::<Luma<u8>, Vec<u8>>::from_pixel(20, 10, Luma([77]));
    ensure!(salt_and_pepper_noise(&grey, 0.5, c.a) != salt_and_pepper_noise(&grey, 0.5, c.b), "salt and pepper noise of seeds {} and {} is the same", c.a, c.b);
    let d = c.a ^ c.b;
    lab(true, if d.count_ones() > 1 { "several bits" } else if d >> 32 != 0 { "a high bit" } else { "a low bit" })
}

pub fn prop() -> Prop {
    Prop {
        id: "C37",
        rule: "Gaussian noise is read unsaturated off f64 images; noise with any mean and deviation on images of five types must be that field scaled, shifted and saturated, and its moments, tails and correlations over thousands of samples those of a normal distribution. Salt-and-pepper noise is read off a grey image and compared on images of eight types, with binomial bounds overall and on four sublattices. Non-trivial: deviation above zero, both colours present.",
        assumptions: &["statistical bounds are six standard errors", "the noise chosen for a seed depends on the size of the image and not on its content", "rates in [0,1], finite means, non-negative finite deviations"],
        subs: vec![
            sub("gaussian", 200000, || (big(40, 40), 0u8..5, prop_oneof![2 => Just(0.0), 3 => -80f64..80.0, 1 => -1e6f64..1e6], prop_oneof![2 => Just(0.0), 1 => Just(1.0), 4 => 0.0f64..60.0, 1 => 300f64..1e5], any::<u64>()).prop_map(|(im, kind, mean, sd, seed)| Gauss { im, kind, mean, sd, seed }).boxed(), gauss),
            sub("gaussian statistics", 5000, || (60u32..160, 60u32..160, -100f64..100.0, prop_oneof![0.1f64..100.0, Just(1.0)], any::<u64>()).prop_map(|(w, h, mean, sd, seed)| Gauss { im: Big { w, h, seed: 0, levels: 1 }, kind: 0, mean, sd, seed }).boxed(), gauss_stats),
            sub("salt and pepper", 200000, || (prop_oneof![big(50, 50), big(4, 4)], 0u8..8, prop_oneof![1 => Just(0.0), 1 => Just(1.0), 5 => 0.0f64..1.0, 1 => 0.0f64..0.05], any::<u64>()).prop_map(|(im, kind, rate, seed)| Salt { im, kind, rate, seed }).boxed(), salt),
            sub("seeds", 50000, || (prop_oneof![any::<u64>(), 0u64..10], prop_oneof![3 => (0u32..64).prop_map(|k| 1u64 << k), 1 => any::<u64>(), 1 => (0u32..63).prop_map(|k| 3u64 << k)]).prop_map(|(a, d)| Seeds { a, b: a ^ d }).boxed(), seeds),
        ],
    }
}
