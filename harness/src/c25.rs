//! C25: integral images answer every rectangle sum and variance exactly.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{Luma, Rgb, Rgba};
use imageproc::integral_image::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// The elementwise arithmetic `sum_image_pixels` is built on, for every pixel type it supports.
fn array_data(c: &[[u32; 4]; 2]) -> R {
    let [a, b] = c.map(|v| v.map(|x| x / 2));
    let hi: Vec<u32> = (0..4).map(|i| a[i] + b[i]).collect();
    let (a1, b1): (Luma<u32>, Luma<u32>) = (Luma([a[0]]), Luma([b[0]]));
    ensure!(a1.data() == [a[0]], "data");
    ensure!(Luma::<u32>::add(a1.data(), b1.data()) == [hi[0]] && Luma::<u32>::sub([hi[0]], b1.data()) == [a[0]], "ArrayData for Luma");
    let (a3, b3) = (Rgb([a[0], a[1], a[2]]), Rgb([b[0], b[1], b[2]]));
    ensure!(a3.data()[..] == a[..3], "data");
    ensure!(Rgb::<u32>::add(a3.data(), b3.data())[..] == hi[..3], "ArrayData::add for Rgb");
    ensure!(Rgb::<u32>::sub([hi[0], hi[1], hi[2]], b3.data())[..] == a[..3], "ArrayData::sub for Rgb");
    let (a4, b4) = (Rgba(a), Rgba(b));
    ensure!(a4.data() == a, "data");
    ensure!(Rgba::<u32>::add(a4.data(), b4.data())[..] == hi[..], "ArrayData::add for Rgba");
    ensure!(Rgba::<u32>::sub([hi[0], hi[1], hi[2], hi[3]], b4.data()) == a, "ArrayData::sub for Rgba");
    nt(a != b)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    im: Im<u8>,
    kind: u8,
}
fn sums(c: &Case) -> R {
    let (w, h) = (c.im.w, c.im.h);
    let ch = [1usize, 1, 1, 3, 4, 3, 1][c.kind as usize];
    macro_rules! go {
        ($im:expr, $t:ty) => {{
            let im = $im;
            let i1 = integral_image::<_, $t>(&im);
            ensure!(i1.dimensions() == (w + 1, h + 1), "integral image is {:?} for {w}x{h}", i1.dimensions());
            // direct definition of every entry
            for y in 0..=h {
                for x in 0..=w {
                    for k in 0..ch {
                        let mut s = 0f64;
                        for v in 0..y {
                            for u in 0..x {
                                s += c.im.d[((v * w + u) as usize) * ch + k] as f64;
                            }
                        }
                        let got = i1.get_pixel(x, y).0[k];
                        ensure!(got as f64 == s, "integral image ({x},{y}) channel {k}: {got}, want {s}");
                    }
                }
            }
            for t in 0..h {
                for b in t..h {
                    for l in 0..w {
                        for r in l..w {
                            let got = sum_image_pixels(&i1, l, t, r, b);
                            for k in 0..ch {
                                let mut s = 0f64;
                                for v in t..=b {
                                    for u in l..=r {
                                        s += c.im.d[((v * w + u) as usize) * ch + k] as f64;
                                    }
                                }
                                ensure!(got[k] as f64 == s, "sum of [{l},{r}]x[{t},{b}] channel {k}: {}, want {s}", got[k]);
                            }
                        }
                    }
                }
            }
        }};
    }
    match c.kind {
        0 => go!(c.im.luma(), u32),
        1 => go!(c.im.luma(), u16),
        2 => go!(c.im.luma(), f32),
        3 => go!(c.im.rgb(), u32),
        4 => go!(c.im.rgba(), i32),
        5 => go!(c.im.rgb(), u16),
        _ => go!(c.im.luma(), u64),
    }
    lab(c.im.varied(), ["L u32", "L u16", "L f32", "RGB u32", "RGBA i32", "RGB u16", "L u64"][c.kind as usize])
}
fn variances(im: &Im<u8>) -> R {
    let (w, h) = (im.w, im.h);
    let g = im.luma();
    let (i1, i2) = (integral_image::<_, u32>(&g), integral_squared_image::<_, u32>(&g));
    ensure!(i2.dimensions() == (w + 1, h + 1), "squared integral image is {:?} for {w}x{h}", i2.dimensions());
    for y in 0..=h {
        for x in 0..=w {
            let s: u32 = (0..y).flat_map(|v| (0..x).map(move |u| (u, v))).map(|(u, v)| (im.at(u, v) as u32).pow(2)).sum();
            ensure!(i2.get_pixel(x, y)[0] == s, "squared integral image ({x},{y}): {}, want {s}", i2.get_pixel(x, y)[0]);
        }
    }
    for t in 0..h {
        for b in t..h {
            for l in 0..w {
                for r in l..w {
                    let v: Vec<f64> = (t..=b).flat_map(|y| (l..=r).map(move |x| (x, y))).map(|(x, y)| im.at(x, y) as f64).collect();
                    let n = v.len() as f64;
                    let mean = v.iter().sum::<f64>() / n;
                    let want = v.iter().map(|p| (p - mean).powi(2)).sum::<f64>() / n;
                    let got = variance(&i1, &i2, l, t, r, b);
                    ensure!((got - want).abs() <= 1e-6 * (1.0 + want), "variance of [{l},{r}]x[{t},{b}]: {got}, want {want}");
                }
            }
        }
    }
    // channels of a colour image
    if w % 3 == 0 {
        let rgb = image::ImageBuffer::<Rgb<u8>, _>::from_raw(w / 3, h, im.d.clone()).unwrap();
        let i3 = integral_squared_image::<_, u32>(&rgb);
        for k in 0..3 {
            let s: u32 = im.d.iter().skip(k).step_by(3).map(|v| (*v as u32).pow(2)).sum();
            ensure!(i3.get_pixel(w / 3, h)[k] == s, "squared integral image, channel {k}: {}, want {s}", i3.get_pixel(w / 3, h)[k]);
        }
    }
    lab(im.varied(), "variance")
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Run {
    im: Im<u8>,
    pad: u32,
    extra: usize,
    at: u32,
}
fn running(c: &Run) -> R {
    let g = c.im.luma();
    for row in [true, false] {
        let n = if row { c.im.w } else { c.im.h };
        let at = c.at % if row { c.im.h } else { c.im.w };
        let mut buf = vec![77u32; n as usize + 2 * c.pad as usize + c.extra];
        let v = |i: i64| {
            let k = cl(i, n);
            if row { c.im.at(k, at) } else { c.im.at(at, k) }
        };
        if row {
            row_running_sum(&g, at, &mut buf, c.pad);
        } else {
            column_running_sum(&g, at, &mut buf, c.pad);
        }
        let mut s = 0u32;
        for i in 0..(n + 2 * c.pad) as usize {
            s += v(i as i64 - c.pad as i64) as u32;
            ensure!(buf[i] == s, "{} running sum {at}, padding {}: entry {i} is {}, want {s}", if row { "row" } else { "column" }, c.pad, buf[i]);
        }
        let mut short = vec![0u32; (n + 2 * c.pad - 1) as usize];
        let out = if row { c.im.h } else { c.im.w };
        let mut long = vec![0u32; (n + 2 * c.pad) as usize];
        let (a, b) = if row {
            (no_panic(|| row_running_sum(&g, at, &mut short, c.pad)), no_panic(|| row_running_sum(&g, out, &mut long, c.pad)))
        } else {
            (no_panic(|| column_running_sum(&g, at, &mut short, c.pad)), no_panic(|| column_running_sum(&g, out, &mut long, c.pad)))
        };
        ensure!(a.is_err(), "a buffer that is too short is accepted");
        ensure!(b.is_err(), "an index outside the image is accepted");
    }
    lab(c.im.varied(), if c.pad == 0 { "no padding" } else { "padding" })
}
/// A larger image: random rectangles only, bright enough for the sums to pass 2^31.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Large {
    w: u32,
    h: u32,
    base: u8,
    bumps: Vec<(u32, u32, u8)>,
    rects: Vec<[u32; 4]>,
}
fn large(c: &Large) -> R {
    let mut im = Im { w: c.w, h: c.h, d: vec![c.base; (c.w * c.h) as usize] };
    for (x, y, v) in &c.bumps {
        im.d[(y % c.h * c.w + x % c.w) as usize] = *v;
    }
    let g = im.luma();
    let (i1, i2) = (integral_image::<_, u32>(&g), integral_squared_image::<_, u32>(&g));
    let mut past = false;
    for [a, b, x, y] in &c.rects {
        let (l, r) = ((a % c.w).min(x % c.w), (a % c.w).max(x % c.w));
        let (t, bt) = ((b % c.h).min(y % c.h), (b % c.h).max(y % c.h));
        let (mut s, mut q) = (0u64, 0u64);
        for v in t..=bt {
            for p in &im.d[(v * c.w + l) as usize..=(v * c.w + r) as usize] {
                s += *p as u64;
                q += (*p as u64).pow(2);
            }
        }
        let n = ((r - l + 1) * (bt - t + 1)) as f64;
        past |= i2.get_pixel(r + 1, bt + 1)[0] > 1 << 31;
        ensure!(sum_image_pixels(&i1, l, t, r, bt)[0] as u64 == s, "sum of [{l},{r}]x[{t},{bt}]: {}, want {s}", sum_image_pixels(&i1, l, t, r, bt)[0]);
        ensure!(sum_image_pixels(&i2, l, t, r, bt)[0] as u64 == q, "sum of squares of [{l},{r}]x[{t},{bt}]: {}, want {q}", sum_image_pixels(&i2, l, t, r, bt)[0]);
        let want = (q as f64 - (s as f64).powi(2) / n) / n;
        let got = variance(&i1, &i2, l, t, r, bt);
        ensure!((got - want).abs() <= 1e-4 * (1.0 + want), "variance of [{l},{r}]x[{t},{bt}]: {got}, want {want}");
    }
    lab(past, if past { "past 2^31" } else { "below 2^31" })
}

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        rule: "Random images up to 7x7 in 7 pixel/sum type combinations: every entry, every inclusive rectangle of every channel and its variance against direct summation; running sums against the padded row or column; images up to 255x257 with random rectangles whose sums pass half the range of u32. Non-trivial: the image is not constant, respectively sums exceed 2^31.",
        assumptions: &["the chosen sum type can hold the sum of the whole image", "images for row and column sums are not empty"],
        subs: vec![
            sub("sums", 60000, || (0u8..7).prop_flat_map(|kind| im_u8(side0(7), side0(7), [1, 1, 1, 3, 4, 3, 1][kind as usize]).prop_map(move |im| Case { im, kind })).boxed(), sums),
            sub("u16 sums", 3000, || im_of(10u32..16, 10u32..=16, 1, (200u8..=255).boxed()).prop_map(|im| Case { im, kind: 1 }).boxed(), sums),
            sub("elementwise arithmetic", 1000, || any::<[[u32; 4]; 2]>().boxed(), array_data),
            sub("variance", 40000, || im_u8(side0(7), side0(7), 1), variances),
            sub("running sums", 100000, || (im_u8(s(12), s(12), 1), prop_oneof![Just(0u32), 0u32..20], 0usize..4, any::<u32>()).prop_map(|(im, pad, extra, at)| Run { im, pad, extra, at }).boxed(), running),
            sub("long", 60, || (far_side(), 1u32..3, any::<bool>(), any::<u8>(), prop::collection::vec(any::<(u32, u32, u8)>(), 0..50), prop::collection::vec(any::<[u32; 4]>(), 1..12)).prop_map(|(a, b, t, base, bumps, rects)| Large { w: if t { b } else { a }, h: if t { a } else { b }, base: base / b as u8, bumps, rects }).boxed(), large),
            sub("long running sums", 60, || (long(1), prop_oneof![Just(0u32), 0u32..20], 0usize..4, any::<u32>()).prop_map(|(im, pad, extra, at)| Run { im, pad, extra, at }).boxed(), running),
            sub("large", 400, || (100u32..=256, 100u32..=257, prop_oneof![3 => Just(255u8), 1 => any::<u8>()], prop::collection::vec(any::<(u32, u32, u8)>(), 0..50), prop::collection::vec(any::<[u32; 4]>(), 1..12)).prop_map(|(w, h, base, bumps, rects)| Large { w, h, base, bumps, rects }).boxed(), large),
        ],
    }
}
fn im_of<T: Clone + std::fmt::Debug + 'static>(w: impl Strategy<Value = u32> + 'static, h: impl Strategy<Value = u32> + 'static, ch: u32, e: BoxedStrategy<T>) -> BoxedStrategy<Im<T>> {
    crate::gen::im_of(w.boxed(), h.boxed(), ch, e)
}
