//! C24: histograms, percentiles, extremes and error metrics count correctly.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{ImageBuffer, Luma, LumaA, Pixel, Rgb, Rgba};
use imageproc::stats::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chans {
    im: Im<u8>,
    kind: u8,
}
fn counts(c: &Chans) -> R {
    fn go<P: Pixel<Subpixel = u8>>(im: &ImageBuffer<P, Vec<u8>>) -> Result<(), Fail> {
        let ch = P::CHANNEL_COUNT as usize;
        let h = histogram(im);
        let k = cumulative_histogram(im);
        ensure!(h.channels.len() == ch && k.channels.len() == ch, "{} and {} histograms for {ch} channels", h.channels.len(), k.channels.len());
        for i in 0..ch {
            let mut cum = 0;
            for l in 0..256 {
                let n = im.as_raw().iter().skip(i).step_by(ch).filter(|v| **v as usize == l).count() as u32;
                cum += n;
                ensure!(h.channels[i][l] == n, "histogram: channel {i} level {l} is {}, want {n}", h.channels[i][l]);
                ensure!(k.channels[i][l] == cum, "cumulative_histogram: channel {i} level {l} is {}, want {cum}", k.channels[i][l]);
            }
        }
        Ok(())
    }
    match c.kind {
        0 => go(&c.im.luma())?,
        1 => go(&c.im.buf::<LumaA<u8>>())?,
        2 => go(&c.im.rgb())?,
        _ => go(&c.im.rgba())?,
    }
    lab(c.im.varied(), ["L", "LA", "RGB", "RGBA"][c.kind as usize])
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Perc {
    im: Im<u8>,
}
fn perc(c: &Perc) -> R {
    let im = c.im.luma();
    let mut d = c.im.d.clone();
    d.sort();
    let n = d.len();
    for p in 0..=100u8 {
        let got = percentile(&im, p);
        // at least p% of the pixels: the ceil(p*n/100) smallest
        let k = (p as usize * n).div_ceil(100);
        let want = if k == 0 { 0 } else { d[k - 1] };
        ensure!(got == want, "percentile {p} = {got}, want {want}");
    }
    for p in [101u8, 255] {
        ensure!(no_panic(|| percentile(&im, p)).is_err(), "percentile {p} is accepted");
    }
    lab(c.im.varied(), if n % 100 == 0 { "multiple of 100" } else { "other" })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mm {
    b: Im<u8>,
    s: Im<i16>,
    t: Im<u16>,
}
fn extremes(c: &Mm) -> R {
    fn one<P: Pixel>(im: &ImageBuffer<P, Vec<P::Subpixel>>) -> Result<(), Fail>
    where
        P::Subpixel: Ord + std::fmt::Debug,
    {
        let r = min_max(im);
        let ch = P::CHANNEL_COUNT as usize;
        ensure!(r.len() == ch, "{} ranges for {ch} channels", r.len());
        for i in 0..ch {
            let v = || im.as_raw().iter().skip(i).step_by(ch);
            let (lo, hi) = (*v().min().unwrap(), *v().max().unwrap());
            ensure!(r[i].min == lo && r[i].max == hi, "channel {i}: ({:?}, {:?}), want ({lo:?}, {hi:?})", r[i].min, r[i].max);
        }
        Ok(())
    }
    if c.b.d.is_empty() {
        ensure!(no_panic(|| min_max(&c.b.rgb())).is_err(), "min_max accepts an empty image");
        return lab(false, "empty");
    }
    one(&c.b.rgb())?;
    one(&c.s.luma())?;
    one(&c.t.rgba())?;
    lab(c.b.varied(), "image")
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Err2 {
    a: Im<u8>,
    b: Im<u8>,
    kind: u8,
}
fn metrics(c: &Err2) -> R {
    let n = c.a.d.len() as f64;
    let differ = c.a.d != c.b.d;
    let close = |a: f64, b: f64, least: f64| a == b || (a - b).abs() <= 1e-9 * (least + b.abs());
    macro_rules! go {
        ($t:ty, $p:ty, $max:expr, $f:expr) => {{
            let f: fn(&Im<u8>) -> ImageBuffer<$p, Vec<$t>> = |i| ImageBuffer::from_raw(i.w, i.h, i.d.iter().map(|v| $f(*v)).collect()).unwrap();
            let (a, b) = (f(&c.a), f(&c.b));
            let ss: f64 = a.as_raw().iter().zip(b.as_raw()).map(|(p, q)| (*p as f64 - *q as f64).powi(2)).sum();
            let rms = (ss / n).sqrt();
            let max: f64 = $max;
            let psnr = 20.0 * max.log10() - 10.0 * (ss / n).log10();
            for (a, b) in [(&a, &b), (&b, &a)] {
                let g = root_mean_squared_error(a, b);
                ensure!(close(g, rms, 0.0), "root_mean_squared_error = {g}, want {rms}");
                let g = peak_signal_to_noise_ratio(a, b);
                ensure!(close(g, psnr, 1.0), "peak_signal_to_noise_ratio = {g}, want {psnr}");
            }
            // mismatched dimensions are refused
            let wide = ImageBuffer::<$p, Vec<$t>>::new(c.a.w + 1, c.a.h);
            ensure!(no_panic(|| root_mean_squared_error(&a, &wide)).is_err(), "different widths are accepted");
            let tall = ImageBuffer::<$p, Vec<$t>>::new(c.a.w, c.a.h + 1);
            ensure!(no_panic(|| peak_signal_to_noise_ratio(&a, &tall)).is_err(), "different heights are accepted");
        }};
    }
    match c.kind {
        0 => go!(u8, Luma<u8>, 255.0, |v: u8| v),
        1 => go!(u8, Rgb<u8>, 255.0, |v: u8| v),
        2 => go!(u8, Rgba<u8>, 255.0, |v: u8| v),
        3 => go!(u16, Luma<u16>, 65535.0, |v: u8| v as u16),
        4 => go!(u16, Rgb<u16>, 65535.0, |v: u8| v as u16 + 60000),
        5 => go!(i16, Luma<i16>, 32767.0, |v: u8| v as i16 - 128),
        6 => go!(u16, Luma<u16>, 65535.0, |v: u8| v as u16 * 257),
        7 => go!(i16, Luma<i16>, 32767.0, |v: u8| (v as i32 * 257 - 32768) as i16),
        8 => go!(u32, Luma<u32>, u32::MAX as f64, |v: u8| v as u32 * 16843009),
        9 => go!(i32, Luma<i32>, i32::MAX as f64, |v: u8| (v as i64 * 16843009 - (1i64 << 31)) as i32),
        10 => go!(f32, Luma<f32>, f32::MAX as f64, |v: u8| (v as f32 - 100.) * 1e30),
        11 => go!(f32, Luma<f32>, f32::MAX as f64, |v: u8| v as f32 * 1e-30 + 1e-29),
        _ => go!(f64, Luma<f64>, f64::MAX, |v: u8| (v as f64 - 100.) * 1e100),
    }
    lab(differ, if differ { "different" } else { "equal" })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bound {
    w: u32,
    h: u32,
    p: u8,
    off: i64,
    lo: u8,
    hi: u8,
}
/// An image of a single colour without storage.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flat {
    w: u32,
    h: u32,
    v: u8,
}
impl image::GenericImageView for Flat {
    type Pixel = Rgba<u8>;
    fn dimensions(&self) -> (u32, u32) {
        (self.w, self.h)
    }
    fn get_pixel(&self, _: u32, _: u32) -> Rgba<u8> {
        Rgba([self.v; 4])
    }
}
/// Black against white images.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ext {
    w: u32,
    h: u32,
    kind: u8,
    n: usize,
    k: u8,
}

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        rule: "Random images of 1-4 channels (noise, few levels, extremes, empty where allowed); every level of every channel counted directly, all percentiles 0..100 read off the sorted pixels, extremes and errors recomputed in f64 for several subpixel types. Non-trivial: the image is not constant, respectively the images differ.",
        assumptions: &["percentile needs a non-empty image"],
        subs: vec![
            sub("histogram", 100000, || (0u8..4).prop_flat_map(|kind| im_u8(side0(10), side0(10), kind as u32 + 1).prop_map(move |im| Chans { im, kind })).boxed(), counts),
            sub("percentile", 40000, || prop_oneof![3 => im_u8(s(14), s(14), 1), 1 => im_u8(Just(10).boxed(), prop_oneof![Just(10u32), Just(20), Just(30)].boxed(), 1)].prop_map(|im| Perc { im }).boxed(), perc),
            sub("min_max", 100000, || (im_u8(side0(8), side0(8), 3), im_i16(s(8), s(8), 1), im_u16(s(5), s(5), 4)).prop_map(|(b, s, t)| Mm { b, s, t }).boxed(), extremes),
            sub("errors", 90000, || (0u8..13, s(8), s(8)).prop_flat_map(|(kind, w, h)| { let ch = [1, 3, 4, 1, 3, 1, 1, 1, 1, 1, 1, 1, 1][kind as usize]; let g = move || im_u8(Just(w).boxed(), Just(h).boxed(), ch); prop_oneof![6 => (g(), g()), 1 => g().prop_map(|a| (a.clone(), a))].prop_map(move |(a, b)| Err2 { a, b, kind }) }).boxed(), metrics),
            sub("percentile huge", 1, || mega(6600..6700, 6600..6700), |m: &Mega| {
                let im = m.im();
                let mut h = [0u64; 256];
                im.d.iter().for_each(|v| h[*v as usize] += 1);
                let n = im.d.len() as u64;
                let im = im.luma();
                for p in [10u8, 50, 99] {
                    let mut cum = 0;
                    let want = (0..256).find(|l| { cum += h[*l]; cum * 100 >= p as u64 * n }).unwrap() as u8;
                    let got = percentile(&im, p);
                    ensure!(got == want, "percentile {p} = {got}, want {want}");
                }
                lab(m.levels.len() > 1, "huge")
            }),
            // the p-th percentile is decided by a single pixel of millions
            sub("percentile boundary", 20, || (1500u32..2600, 1500u32..2600, 0u8..=100, -1i64..2, any::<u8>(), any::<u8>()).prop_map(|(w, h, p, off, lo, hi)| Bound { w, h, p, off, lo, hi }).boxed(), |b: &Bound| {
                let n = b.w as u64 * b.h as u64;
                let (lo, hi) = (b.lo.min(b.hi), b.lo.max(b.hi));
                let c = ((b.p as u64 * n + 99) / 100) as i64 + b.off;
                let c = c.clamp(0, n as i64) as u64;
                let im = image::GrayImage::from_raw(b.w, b.h, (0..n).map(|i| if (i * 1_000_003) % n < c { lo } else { hi }).collect()).unwrap();
                // i * 1000003 mod n is a bijection only if n has no factor in common: count
                let c = im.as_raw().iter().filter(|v| **v == lo).count() as u64;
                let want = if lo == hi || b.p == 0 { if b.p == 0 { None } else { Some(lo) } } else if c * 100 >= b.p as u64 * n { Some(lo) } else { Some(hi) };
                let got = percentile(&im, b.p);
                if let Some(want) = want {
                    ensure!(got == want, "percentile {} = {got}, want {want} ({c} of {n} pixels are {lo}, the others {hi})", b.p);
                }
                nt(lo < hi)
            }),
            // 2^32 and more subpixels, computed on demand
            sub("errors huge", 1, || (65530u32..65540, 16400u32..16500, any::<u8>()).prop_map(|(w, h, v)| Flat { w, h, v }).boxed(), |c: &Flat| {
                let a = c.clone();
                let b = Flat { v: c.v.wrapping_add(3), ..*c };
                let d = c.v as f64 - b.v as f64;
                let g = root_mean_squared_error(&a, &b);
                ensure!((g - d.abs()).abs() < 1e-6, "root_mean_squared_error of {}x{} RGBA images that differ by {d} everywhere is {g}", c.w, c.h);
                nt(true)
            }),
            sub("errors extreme", 200, || (0u8..6, 1u32..700, 200u32..700, any::<u8>()).prop_map(|(kind, w, h, k)| {
                let ch = [1, 3, 4, 1, 3, 1][kind as usize];
                let n = (w * h * ch) as usize;
                Ext { w, h, kind, n, k }
            }).boxed(), |e: &Ext| {
                let a: Vec<u8> = (0..e.n).map(|i| if (i as u8 & 7) < (e.k & 7) { 0 } else { 255 }).collect();
                let b = a.iter().enumerate().map(|(i, v)| if e.k < 200 || i % 11 > 0 { 255 - v } else { *v }).collect();
                metrics(&Err2 { a: Im { w: e.w, h: e.h, d: a }, b: Im { w: e.w, h: e.h, d: b }, kind: e.kind })
            }),
            sub("histogram large", 100, || (0u8..4).prop_flat_map(|kind| prop_oneof![strip(kind as u32 + 1), plane(kind as u32 + 1)].prop_map(move |im| Chans { im, kind })).boxed(), counts),
            sub("percentile large", 60, || prop_oneof![strip(1), plane(1)].prop_map(|im| Perc { im }).boxed(), perc),
            sub("errors large", 60, || (0u8..6).prop_flat_map(|kind| { let ch = [1, 3, 4, 1, 3, 1][kind as usize]; (prop_oneof![strip(ch), plane(ch)], any::<u8>()).prop_map(move |(a, k)| { let d = a.d.iter().enumerate().map(|(i, v)| v.wrapping_add((i as u8).wrapping_mul(k))).collect(); let b = Im { w: a.w, h: a.h, d }; Err2 { a, b, kind } }) }).boxed(), metrics),
        ],
    }
}
