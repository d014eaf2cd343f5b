//! C38: pixel maps, channel functions, linear combinations and saturating conversions.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{ImageBuffer, Luma, LumaA, Pixel, Rgb, Rgba};
use imageproc::definitions::Clamp;
use imageproc::map::*;
use imageproc::math::{l1_norm, l2_norm};
use imageproc::pixelops::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    im: Im<u8>,
    other: Im<u8>,
    ch: u8,
    k: u8,
}
fn sub_f(v: u8, k: u8) -> u16 {
    (v as u16).wrapping_mul(257) ^ (k as u16) << 3
}
fn maps(c: &Case) -> R {
    let k = c.k;
    fn run<P>(im: ImageBuffer<P, Vec<u8>>, other: ImageBuffer<P, Vec<u8>>, k: u8) -> R
    where
        P: Pixel<Subpixel = u8> + WithChannel<u16> + Send + Sync + PartialEq + std::fmt::Debug,
        ChannelMap<P, u16>: PartialEq + std::fmt::Debug,
    {
        let n = im.as_raw().len() as u32;
        let px = im.width() * im.height();
        let calls = AtomicU32::new(0);
        let hit = || {
            calls.fetch_add(1, Relaxed);
        };
        macro_rules! counted {
            ($want:expr, $e:expr, $name:expr) => {{
                calls.store(0, Relaxed);
                let r = $e;
                let got = calls.load(Relaxed);
                ensure!(got == $want, "{} calls the function {got} times, want {}", $name, $want);
                r
            }};
        }
        let want: Vec<u16> = im.as_raw().iter().map(|v| sub_f(*v, k)).collect();
        let a = counted!(n, map_subpixels(&im, |v| { hit(); sub_f(v, k) }), "map_subpixels");
        let b = counted!(n, map_subpixels_parallel(&im, |v| { hit(); sub_f(v, k) }), "map_subpixels_parallel");
        ensure!(a.dimensions() == im.dimensions() && a.as_raw() == &want, "map_subpixels gives {:?}, want {want:?}", a.as_raw());
        ensure!(b == a, "map_subpixels_parallel differs");
        let want: Vec<u8> = im.as_raw().iter().map(|v| v.wrapping_mul(3) ^ k).collect();
        let mut a = im.clone();
        counted!(n, map_subpixels_mut(&mut a, |v| { hit(); v.wrapping_mul(3) ^ k }), "map_subpixels_mut");
        let mut b = im.clone();
        counted!(n, map_subpixels_mut_parallel(&mut b, |v| { hit(); v.wrapping_mul(3) ^ k }), "map_subpixels_mut_parallel");
        ensure!(a.dimensions() == im.dimensions() && a.as_raw() == &want && b == a, "map_subpixels_mut gives {:?}, want {want:?}", a.as_raw());

        // to another pixel type
        let f = |x: u32, y: u32, p: P| {
            hit();
            let s: u32 = p.channels().iter().enumerate().map(|(i, v)| (*v as u32) << i).sum();
            Rgb([(s + 257 * (x >> 16) + 4099 * (y >> 13)) as u16, x as u16, (y as u16) << 3 | k as u16])
        };
        let g = |p: P| f(5, 6, p);
        let mut wp = vec![];
        let mut we = vec![];
        for y in 0..im.height() {
            for x in 0..im.width() {
                wp.extend_from_slice(&g(*im.get_pixel(x, y)).0);
                we.extend_from_slice(&f(x, y, *im.get_pixel(x, y)).0);
            }
        }
        let a: ImageBuffer<Rgb<u16>, _> = counted!(px, map_pixels(&im, g), "map_pixels");
        let b: ImageBuffer<Rgb<u16>, _> = counted!(px, map_pixels_parallel(&im, g), "map_pixels_parallel");
        ensure!(a.dimensions() == im.dimensions() && a.as_raw() == &wp, "map_pixels gives {:?}, want {wp:?}", a.as_raw());
        ensure!(a == b, "map_pixels_parallel differs");
        let a: ImageBuffer<Rgb<u16>, _> = counted!(px, map_enumerated_pixels(&im, f), "map_enumerated_pixels");
        let b: ImageBuffer<Rgb<u16>, _> = counted!(px, map_enumerated_pixels_parallel(&im, f), "map_enumerated_pixels_parallel");
        ensure!(a.dimensions() == im.dimensions() && a.as_raw() == &we, "map_enumerated_pixels gives {:?}, want {we:?}", a.as_raw());
        ensure!(a == b, "map_enumerated_pixels_parallel differs");
        // in place
        let f = |x: u32, y: u32, p: P| {
            hit();
            let mut q = p;
            let l = q.channels().len();
            for (i, v) in q.channels_mut().iter_mut().enumerate() {
                *v = p.channels()[(i + 1) % l].wrapping_add(x as u8).wrapping_mul(3).wrapping_add(y as u8) ^ k;
            }
            q
        };
        let g = |p: P| f(9, 2, p);
        let mut a = im.clone();
        counted!(px, map_enumerated_pixels_mut(&mut a, f), "map_enumerated_pixels_mut");
        let mut b = im.clone();
        counted!(px, map_enumerated_pixels_mut_parallel(&mut b, f), "map_enumerated_pixels_mut_parallel");
        let mut d = im.clone();
        counted!(px, map_pixels_mut(&mut d, g), "map_pixels_mut");
        let mut e = im.clone();
        counted!(px, map_pixels_mut_parallel(&mut e, g), "map_pixels_mut_parallel");
        ensure!([&a, &b, &d, &e].iter().all(|i| i.dimensions() == im.dimensions()), "in-place maps change the dimensions");
        for y in 0..im.height() {
            for x in 0..im.width() {
                let p = *im.get_pixel(x, y);
                ensure!(*a.get_pixel(x, y) == f(x, y, p) && *b.get_pixel(x, y) == f(x, y, p), "map_enumerated_pixels_mut at ({x},{y})");
                ensure!(*d.get_pixel(x, y) == g(p) && *e.get_pixel(x, y) == g(p), "map_pixels_mut at ({x},{y})");
            }
        }
        // two images
        let f = |p: P, q: P| {
            hit();
            Luma([p.channels()[0] as i32 - 300 * q.channels()[q.channels().len() - 1] as i32])
        };
        if im.dimensions() == other.dimensions() {
            let a: ImageBuffer<Luma<i32>, _> = counted!(px, map_pixels2(&im, &other, f), "map_pixels2");
            ensure!(a.dimensions() == im.dimensions(), "map_pixels2 gives {:?}", a.dimensions());
            for y in 0..im.height() {
                for x in 0..im.width() {
                    let w = f(*im.get_pixel(x, y), *other.get_pixel(x, y));
                    ensure!(*a.get_pixel(x, y) == w, "map_pixels2 at ({x},{y}) is {:?}, want {w:?}", a.get_pixel(x, y));
                }
            }
        } else {
            let r = no_panic(|| map_pixels2::<_, _, Luma<i32>, _>(&im, &other, f).dimensions());
            ensure!(r.is_err(), "map_pixels2 of {:?} and {:?} gives {r:?}", im.dimensions(), other.dimensions());
        }
        lab(px > 1, if im.dimensions() == other.dimensions() { "same size" } else { "different sizes" })
    }
    let (i, o) = (&c.im, &c.other);
    match c.ch {
        1 => run(i.luma(), o.luma(), k),
        2 => run(i.buf::<LumaA<u8>>(), o.buf::<LumaA<u8>>(), k),
        3 => run(i.rgb(), o.rgb(), k),
        _ => run(i.rgba(), o.rgba(), k),
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chan {
    im: Im<u16>,
    rgb: Im<u16>,
}
fn channels(c: &Chan) -> R {
    macro_rules! go {
        ($gray:expr, $rgb:expr) => {{
            let (g, r) = ($gray, $rgb);
            let parts = [into_red_channel(&r), into_green_channel(&r), into_blue_channel(&r)];
            for (i, p) in parts.iter().enumerate() {
                ensure!(p.dimensions() == r.dimensions(), "channel {i} is {:?}", p.dimensions());
                for (x, y, v) in p.enumerate_pixels() {
                    ensure!(v[0] == r.get_pixel(x, y)[i], "channel {i} at ({x},{y}) is {:?} of {:?}", v, r.get_pixel(x, y));
                }
            }
            let full = [from_red_channel(&g), from_green_channel(&g), from_blue_channel(&g)];
            for (i, f) in full.iter().enumerate() {
                ensure!(f.dimensions() == g.dimensions(), "image from channel {i} is {:?}", f.dimensions());
                for (x, y, p) in f.enumerate_pixels() {
                    for j in 0..3 {
                        let want = if i == j { g.get_pixel(x, y)[0] } else { Default::default() };
                        ensure!(p[j] == want, "from channel {i} at ({x},{y}): {p:?}");
                    }
                }
                let back = [into_red_channel(f), into_green_channel(f), into_blue_channel(f)];
                ensure!(back[i] == g, "extracting channel {i} does not undo embedding it");
            }
        }};
    }
    go!(c.im.luma(), c.rgb.rgb());
    let b = |i: &Im<u16>| Im { w: i.w, h: i.h, d: i.d.iter().map(|v| (*v >> 3) as u8).collect::<Vec<u8>>() };
    go!(b(&c.im).luma(), b(&c.rgb).rgb());
    let f = |i: &Im<u16>| Im { w: i.w, h: i.h, d: i.d.iter().map(|v| *v as f32 / 7.0).collect::<Vec<f32>>() };
    go!(f(&c.im).luma(), f(&c.rgb).rgb());
    nt(c.rgb.varied())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sum {
    l: [u16; 4],
    r: [u16; 4],
    a: f32,
    b: f32,
}
fn sums(c: &Sum) -> R {
    let mut inside = false;
    // truncation toward zero after saturation
    let mut check = |got: f64, l: f64, r: f64, a: f32, b: f32, max: f64| -> Result<(), Fail> {
        let v = l * a as f64 + r * b as f64;
        let e = 1e-6 * (l.abs() * a.abs() as f64 + r.abs() * b.abs() as f64) + 1e-9;
        let (lo, hi) = ((v - e).clamp(0.0, max).floor(), (v + e).clamp(0.0, max).floor());
        inside |= v > 0.0 && v < max;
        ensure!(lo <= got && got <= hi, "{l} x {a} + {r} x {b} gives {got}, want {lo} to {hi}");
        Ok(())
    };
    let b8 = |v: [u16; 4]| v.map(|x| x as u8);
    let (l, r) = (Rgba(b8(c.l)), Rgba(b8(c.r)));
    let got = weighted_sum(l, r, c.a, c.b);
    for i in 0..4 {
        check(got[i] as f64, l[i] as f64, r[i] as f64, c.a, c.b, 255.0)?;
    }
    let t = c.a.clamp(0.0, 1.0);
    let got = interpolate(l, r, t);
    for i in 0..4 {
        check(got[i] as f64, l[i] as f64, r[i] as f64, t, 1.0 - t, 255.0)?;
        ensure!(got[i] >= l[i].min(r[i]).saturating_sub(1) && got[i] <= l[i].max(r[i]), "interpolating {} and {} gives {}", l[i], r[i], got[i]);
    }
    let (l, r) = (Rgb([c.l[0], c.l[1], c.l[2]]), Rgb([c.r[0], c.r[1], c.r[2]]));
    let got = weighted_sum(l, r, c.a, c.b);
    for i in 0..3 {
        check(got[i] as f64, l[i] as f64, r[i] as f64, c.a, c.b, 65535.0)?;
    }
    let (l, r) = (Luma([c.l[0] as f32 - 9.5]), Luma([c.r[0] as f32 * 0.25]));
    let got = weighted_sum(l, r, c.a, c.b)[0] as f64;
    let want = l[0] as f64 * c.a as f64 + r[0] as f64 * c.b as f64;
    ensure!((got - want).abs() <= 1e-6 * ((l[0] * c.a).abs() + (r[0] * c.b).abs()) as f64 + 1e-6, "f32: {got} want {want}");
    let got = interpolate(l, r, c.a)[0] as f64;
    let want = l[0] as f64 * c.a as f64 + r[0] as f64 * (1.0 - c.a as f64);
    ensure!((got - want).abs() <= 2e-6 * ((l[0] * c.a).abs() + (r[0] * (1.0 - c.a)).abs() + r[0].abs()) as f64 + 1e-6, "f32 interpolation: {got} want {want}");
    nt(inside)
}
/// Every 16-bit value of the narrow conversions, and the identities.
fn narrow(i: &u32) -> R {
    let lo = (*i) * 1024;
    for v in lo..lo + 1024 {
        let (u, s) = (v as u16, v as u16 as i16);
        let a = <u8 as Clamp<u16>>::clamp(u);
        ensure!(a as u16 == u.min(255), "u16 {u} to u8 is {a}");
        let a = <u8 as Clamp<i16>>::clamp(s);
        ensure!(a as i16 == s.max(0).min(255), "i16 {s} to u8 is {a}");
        ensure!(<u16 as Clamp<u16>>::clamp(u) == u && <i16 as Clamp<i16>>::clamp(s) == s && <u8 as Clamp<u8>>::clamp(u as u8) == u as u8 && <i8 as Clamp<i8>>::clamp(u as i8) == u as i8, "identity of {u}");
    }
    nt(true)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Num {
    i: i32,
    f: f64,
}
fn wide(c: &Num) -> R {
    let i = c.i as i64;
    let u = c.i as u32;
    ensure!(<u8 as Clamp<i32>>::clamp(c.i) as i64 == i.clamp(0, 255), "i32 {i} to u8 is {}", <u8 as Clamp<i32>>::clamp(c.i));
    ensure!(<u8 as Clamp<u32>>::clamp(u) as u32 == u.min(255), "u32 {u} to u8 is {}", <u8 as Clamp<u32>>::clamp(u));
    ensure!(<u16 as Clamp<i32>>::clamp(c.i) as i64 == i.clamp(0, 65535), "i32 {i} to u16 is {}", <u16 as Clamp<i32>>::clamp(c.i));
    ensure!(<i16 as Clamp<i32>>::clamp(c.i) as i64 == i.clamp(-32768, 32767), "i32 {i} to i16 is {}", <i16 as Clamp<i32>>::clamp(c.i));
    ensure!(<i32 as Clamp<i32>>::clamp(c.i) == c.i && <u32 as Clamp<u32>>::clamp(u) == u && <u64 as Clamp<u64>>::clamp(i as u64) == i as u64 && <i64 as Clamp<i64>>::clamp(i) == i, "identity of {i}");
    let f = c.f as f32;
    let t = |v: f64, m: f64| v.clamp(0.0, m).trunc();
    ensure!(<u8 as Clamp<f32>>::clamp(f) as f64 == t(f as f64, 255.0), "f32 {f} to u8 is {}", <u8 as Clamp<f32>>::clamp(f));
    ensure!(<u16 as Clamp<f32>>::clamp(f) as f64 == t(f as f64, 65535.0), "f32 {f} to u16 is {}", <u16 as Clamp<f32>>::clamp(f));
    ensure!(<u8 as Clamp<f64>>::clamp(c.f) as f64 == t(c.f, 255.0), "f64 {} to u8 is {}", c.f, <u8 as Clamp<f64>>::clamp(c.f));
    ensure!(<u16 as Clamp<f64>>::clamp(c.f) as f64 == t(c.f, 65535.0), "f64 {} to u16 is {}", c.f, <u16 as Clamp<f64>>::clamp(c.f));
    ensure!(<f32 as Clamp<f32>>::clamp(f) == f && <f64 as Clamp<f64>>::clamp(c.f) == c.f, "identity of {}", c.f);
    nt(c.i != 0)
}
fn norms(v: &Vec<f32>) -> R {
    let l1: f64 = v.iter().map(|x| x.abs() as f64).sum();
    let l2 = v.iter().map(|x| (*x as f64) * (*x as f64)).sum::<f64>().sqrt();
    ensure!((l1_norm(v) as f64 - l1).abs() <= 1e-5 * l1, "l1 norm of {v:?} is {}, want {l1}", l1_norm(v));
    ensure!((l2_norm(v) as f64 - l2).abs() <= 1e-5 * l2, "l2 norm of {v:?} is {}, want {l2}", l2_norm(v));
    nt(v.len() > 1)
}

pub fn prop() -> Prop {
    Prop {
        id: "C38",
        rule: "Every map function (sequential, in-place and parallel) on images of four pixel types with position-dependent functions and a call counter; channel extraction and embedding on three types; weighted sums against f64; all 65536 values of the 16-bit conversions and edge-biased values of the others; norms. Non-trivial: more than one pixel, an unsaturated channel.",
        assumptions: &["finite numbers (NaN has no documented conversion)", "a conversion from floats truncates towards zero", "f32 arithmetic may differ by a relative 1e-6"],
        subs: vec![
            sub("maps", 100000, || (side0(7), side0(7), 1u8..5, any::<u8>(), prop_oneof![4 => Just(true), 1 => Just(false)]).prop_flat_map(|(w, h, ch, k, same)| {
                let d = |n: u32| if same { Just(n).boxed() } else { prop_oneof![0u32..4, Just(n)].boxed() };
                // swapped dimensions hold the same number of pixels
                let (ow, oh) = if same { (d(w), d(h)) } else { (prop_oneof![d(w), Just(h)].boxed(), prop_oneof![d(h), Just(w)].boxed()) };
                (im_u8(Just(w).boxed(), Just(h).boxed(), ch as u32), im_u8(ow, oh, ch as u32)).prop_map(move |(im, other)| Case { im, other, ch, k })
            }).boxed(), maps),
            sub("maps of large images", 200, || (big(150, 150), 1u8..5, any::<u8>()).prop_map(|(b, ch, k)| Case { im: b.im(ch as u32), other: b.im(ch as u32), ch, k }).boxed(), maps),
            sub("maps of long images", 30, || (long_big(), 1u8..5, any::<u8>()).prop_map(|(b, ch, k)| Case { im: b.im(ch as u32), other: b.im(ch as u32), ch, k }).boxed(), maps),
            sub("channels", 60000, || (im_u16(side0(6), side0(6), 1), im_u16(side0(6), side0(6), 3)).prop_map(|(im, rgb)| Chan { im, rgb }).boxed(), channels),
            sub("weighted sums", 1000000, || {
                let v = || prop_oneof![2 => [any::<u16>(), any::<u16>(), any::<u16>(), any::<u16>()], 1 => (0u16..3, 253u16..256, 65533u16..=65535, any::<u16>()).prop_map(|t| [t.0, t.1, t.2, t.3])];
                let w = || prop_oneof![4 => 0f32..1.0, 2 => -2f32..3.0, 1 => Just(0f32), 1 => Just(1f32), 1 => Just(0.5f32), 1 => -1000f32..1000.0];
                (v(), v(), w(), w()).prop_map(|(l, r, a, b)| Sum { l, r, a, b }).boxed()
            }, sums),
            sub_all("narrow conversions", 64, |i| i as u32, narrow),
            sub("wide conversions", 1500000, || {
                let i = || prop_oneof![4 => any::<i32>(), 4 => -70000i32..70000, 3 => -300i32..600, 2 => prop::sample::select(vec![0, 1, -1, 254, 255, 256, 257, 32766, 32767, 32768, -32767, -32768, -32769, 65534, 65535, 65536, i32::MIN, i32::MAX])];
                let f = prop_oneof![3 => -300f64..600.0, 3 => -100f64..70000.0, 2 => i().prop_map(|v| v as f64), 2 => (i(), prop_oneof![Just(1e-9), Just(-1e-9), Just(0.5), Just(-0.5), Just(0.999)]).prop_map(|(v, e)| v as f64 + e), 1 => prop::sample::select(vec![f64::INFINITY, f64::NEG_INFINITY, -0.0, 1e300, -1e300, 1e-300])];
                (i(), f).prop_map(|(i, f)| Num { i, f }).boxed()
            }, wide),
            sub("norms", 60000, || prop::collection::vec(prop_oneof![-100f32..100.0, Just(0f32), -1e6f32..1e6], 0..20).boxed(), norms),
        ],
    }
}
