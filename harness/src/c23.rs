//! C23: histogram equalisation, matching and stretching are monotone and exact.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{GrayImage, LumaA, Rgb, Rgba};
use imageproc::contrast::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn cdf(d: &[u8]) -> [u64; 256] {
    let mut h = [0u64; 256];
    for v in d {
        h[*v as usize] += 1;
    }
    for i in 1..256 {
        h[i] += h[i - 1];
    }
    h
}
/// The level map an image pair defines; Err when it is not a function or not monotone.
fn level_map(from: &[u8], to: &[u8]) -> Result<[Option<u8>; 256], String> {
    let mut m = [None; 256];
    for (a, b) in from.iter().zip(to) {
        match m[*a as usize] {
            None => m[*a as usize] = Some(*b),
            Some(c) if c != *b => return Err(format!("level {a} becomes {c} at one pixel and {b} at another")),
            _ => {}
        }
    }
    let mut last = (0usize, 0u8);
    for (i, v) in m.iter().enumerate() {
        if let Some(v) = v {
            if *v < last.1 {
                return Err(format!("not monotone: level {} becomes {}, level {i} becomes {v}", last.0, last.1));
            }
            last = (i, *v);
        }
    }
    Ok(m)
}
fn equalize(im: &Im<u8>) -> R {
    let g = im.luma();
    let got = equalize_histogram(&g);
    let mut m = g.clone();
    equalize_histogram_mut(&mut m);
    ensure!(got == m, "equalize_histogram and equalize_histogram_mut differ");
    ensure!(got.dimensions() == (im.w, im.h), "dimensions change");
    let map = level_map(&im.d, got.as_raw())?;
    let h = cdf(&im.d);
    let n = h[255];
    for (l, v) in map.iter().enumerate() {
        let Some(v) = v else { continue };
        let num = 255 * h[l];
        let want = (num / n) as u8;
        // single-precision rounding may decide when 255*cdf/n is (all but) an integer
        let near = (num as f64 / n as f64 - (num as f64 / n as f64).round()).abs() < 1e-4;
        let alt = if near && num % n == 0 && num != 255 * n { want.wrapping_sub(1) } else if near && num % n != 0 { want + 1 } else { want };
        ensure!(*v == want || *v == alt, "level {l}: {} of {n} pixels at or below it, becomes {v}, want {want}", h[l]);
    }
    lab(im.varied(), if n > 255 { "many pixels" } else { "few pixels" })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Two {
    src: Im<u8>,
    dst: Im<u8>,
}
fn matching(c: &Two) -> R {
    let g = c.src.luma();
    let got = match_histogram(&g, &c.dst.luma());
    let mut m = g.clone();
    match_histogram_mut(&mut m, &c.dst.luma());
    ensure!(got == m, "match_histogram and match_histogram_mut differ");
    ensure!(got.dimensions() == (c.src.w, c.src.h), "dimensions change");
    if c.dst.d.is_empty() {
        return lab(false, "empty target");
    }
    let map = level_map(&c.src.d, got.as_raw())?;
    let (hs, ht) = (cdf(&c.src.d), cdf(&c.dst.d));
    let (ns, nt_) = (hs[255], ht[255]);
    for (l, v) in map.iter().enumerate() {
        let Some(v) = v else { continue };
        // distances of the cumulative fractions, in units of 1/(ns*nt)
        let d = |t: usize| (ht[t] as i128 * ns as i128 - hs[l] as i128 * nt_ as i128).abs();
        let best = (0..256).min_by_key(|t| d(*t)).unwrap();
        let slack = (ns as f64 * nt_ as f64 * 1e-6) as i128;
        ensure!(d(*v as usize) <= d(best) + slack, "level {l} (cumulative fraction {}/{ns}) becomes {v} ({}/{nt_}), but {best} ({}/{nt_}) is closer", hs[l], ht[*v as usize], ht[best]);
    }
    lab(c.src.varied() && c.dst.varied(), if c.src.d == c.dst.d { "same image" } else { "different" })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Str {
    im: Im<u8>,
    kind: u8,
    b: [u8; 4],
}
fn stretch(c: &Str) -> R {
    let [il, iu, ol, ou] = c.b;
    let f = |v: u8| -> u8 {
        if v <= il {
            ol
        } else if v >= iu {
            ou
        } else {
            (ol as u32 + (v - il) as u32 * (ou - ol) as u32 / (iu - il) as u32) as u8
        }
    };
    macro_rules! go {
        ($im:expr, $ch:expr, $alpha:expr) => {{
            let im = $im;
            if il >= iu || ol > ou {
                let r = no_panic(|| stretch_contrast(&im, il, iu, ol, ou));
                ensure!(r.is_err(), "bounds {:?} are accepted", c.b);
                return lab(true, "invalid bounds");
            }
            let got = stretch_contrast(&im, il, iu, ol, ou);
            let mut m = im.clone();
            stretch_contrast_mut(&mut m, il, iu, ol, ou);
            ensure!(got == m, "stretch_contrast and stretch_contrast_mut differ");
            ensure!(got.dimensions() == im.dimensions(), "dimensions change");
            for (i, (a, b)) in im.as_raw().iter().zip(got.as_raw()).enumerate() {
                let want = if $alpha && i % $ch == $ch - 1 { *a } else { f(*a) };
                ensure!(*b == want, "bounds {:?}, {} channels: subpixel {i} = {a} becomes {b}, want {want}", c.b, $ch);
            }
        }};
    }
    match c.kind {
        0 => go!(c.im.luma(), 1, false),
        1 => go!(c.im.buf::<LumaA<u8>>(), 2, true),
        2 => go!(c.im.rgb(), 3, false),
        _ => go!(c.im.rgba(), 4, true),
    }
    lab(c.im.d.iter().any(|v| *v > il && *v < iu) && ou > ol, ["L", "LA", "RGB", "RGBA"][c.kind as usize])
}
fn bounds() -> BoxedStrategy<[u8; 4]> {
    let ord = |a: u8, b: u8| if a < b { (a, b) } else if a > b { (b, a) } else if a == 255 { (254, 255) } else { (a, a + 1) };
    prop_oneof![
        12 => (any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>()).prop_map(move |(a, b, c, d)| { let (a, b) = ord(a, b); [a, b, c.min(d), c.max(d)] }),
        2 => (0u8..255, any::<u8>()).prop_map(|(a, b)| [a, a + 1, 0, b]),
        1 => Just([0, 255, 0, 255]),
        1 => any::<[u8; 4]>(),
    ].boxed()
}
fn skew() -> BoxedStrategy<Im<u8>> {
    // images dominated by a few levels, so cumulative fractions have plateaus
    (side(12), side(12), prop::collection::vec((any::<u8>(), 1u32..20), 1..6))
        .prop_flat_map(|(w, h, ls)| {
            let e = prop::strategy::Union::new_weighted(ls.into_iter().map(|(l, k)| (k, Just(l))).collect::<Vec<_>>());
            im_of(Just(w).boxed(), Just(h).boxed(), 1, e.boxed())
        })
        .boxed()
}
fn gray() -> BoxedStrategy<Im<u8>> {
    prop_oneof![3 => im_u8(side0(14), side0(14), 1), 2 => skew(), 1 => im_u8(Just(16).boxed(), 10u32..40, 1)].boxed()
}
// prop_oneof arms above need boxed sides
fn im_u8(w: BoxedStrategy<u32>, h: impl Strategy<Value = u32> + 'static, ch: u32) -> BoxedStrategy<Im<u8>> {
    crate::gen::im_u8(w, h.boxed(), ch)
}

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        rule: "Random images (uniform noise, few levels, skewed, empty); the level map the result defines is compared with cumulative histograms counted independently, match_histogram with the best of all 256 target levels, stretch_contrast with the integer formula on four pixel formats and random, equal, adjacent and invalid bounds. Non-trivial: more than one level, respectively a level strictly inside the bounds.",
        assumptions: &["equalisation is computed in single precision: where 255*cdf/n is within 1e-4 of an integer either neighbour is accepted, except that the full cdf must give 255", "match_histogram: levels within 1e-6 of the optimum are ties", "alpha channels are not stretched"],
        subs: vec![
            sub("equalize", 300000, gray, equalize),
            sub("match", 150000, || prop_oneof![8 => (gray(), gray()), 1 => gray().prop_map(|a| (a.clone(), a))].prop_map(|(src, dst)| Two { src, dst }).boxed(), matching),
            sub("stretch", 300000, || (0u8..4, bounds()).prop_flat_map(|(kind, b)| crate::gen::im_u8(side0(10), side0(10), kind as u32 + 1).prop_map(move |im| { let mut im = im; for (i, v) in im.d.iter_mut().enumerate() { if i % 7 == 3 { *v = b[i % 2]; } } Str { im, kind, b } })).boxed(), stretch),
            sub_all("stretch all levels", 2000, |i| { let a = (i * 37 % 255) as u8; let w = 1 + (i * 101 % (255 - a as u64)) as u8; let c = (i * 53 % 256) as u8; let d = c + ((i * 29) % (256 - c as u64)) as u8; Str { im: Im { w: 256, h: 1, d: (0..=255).collect() }, kind: 0, b: [a, a + w, c, d] } }, stretch),
            sub("equalize huge", 4, || mega(4300..4400, 4200..4400), |m: &Mega| equalize(&m.im())),
            sub("match huge", 3, || (mega(4300..4400, 4200..4400), mega(4300..4400, 4200..4400), 0u8..3).boxed(), |c: &(Mega, Mega, u8)| {
                let small = || Im { w: 16, h: 2, d: (0..32).map(|i| i * 8 + 3).collect() };
                matching(&Two { src: if c.2 == 1 { small() } else { c.0.im() }, dst: if c.2 == 2 { small() } else { c.1.im() } })
            }),
            sub("equalize large", 200, || prop_oneof![strip(1), plane(1)].boxed(), equalize),
            sub("match large", 200, || (prop_oneof![gray(), strip(1), plane(1)], prop_oneof![gray(), plane(1)]).prop_map(|(src, dst)| Two { src, dst }).boxed(), matching),
        ],
    }
}
