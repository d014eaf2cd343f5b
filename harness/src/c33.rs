//! C33: template matching scores and extremes.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use imageproc::template_matching::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    im: Im<u8>,
    t: Im<u8>,
    mask: Im<u8>,
}
/// (sse, ccorr, template square sum, window square sum), weighted by the mask
fn terms(c: &Case, x: u32, y: u32, masked: bool) -> [f64; 4] {
    let mut s = [0f64; 4];
    for v in 0..c.t.h {
        for u in 0..c.t.w {
            let m = if masked { c.mask.at(u, v) as f64 } else { 1.0 };
            let (t, i) = (c.t.at(u, v) as f64 * m, c.im.at(x + u, y + v) as f64 * m);
            s[0] += (t - i) * (t - i);
            s[1] += t * i;
            s[2] += t * t;
            s[3] += i * i;
        }
    }
    s
}
fn scores(c: &Case) -> R {
    use MatchTemplateMethod::*;
    if c.t.w > c.im.w || c.t.h > c.im.h {
        let (im, t) = (c.im.luma(), c.t.luma());
        ensure!(no_panic(|| match_template(&im, &t, SumOfSquaredErrors)).is_err(), "a template larger than the image is accepted");
        ensure!(no_panic(|| match_template_with_mask(&im, &t, CrossCorrelation, &c.mask.luma())).is_err(), "a template larger than the image is accepted");
        return nt(false);
    }
    let (im, t, mask) = (c.im.luma(), c.t.luma(), c.mask.luma());
    let mut zero = false;
    let mut any = false;
    // the scores are single-precision sums of this many terms
    let tol = 2e-5f64.max((c.t.w * c.t.h) as f64 * 1.3e-7);
    for method in [SumOfSquaredErrors, SumOfSquaredErrorsNormalized, CrossCorrelation, CrossCorrelationNormalized] {
        for masked in [false, true] {
            let (got, par) = if masked {
                (match_template_with_mask(&im, &t, method, &mask), match_template_with_mask_parallel(&im, &t, method, &mask))
            } else {
                (match_template(&im, &t, method), match_template_parallel(&im, &t, method))
            };
            let dims = (c.im.w - c.t.w + 1, c.im.h - c.t.h + 1);
            ensure!(got.dimensions() == dims, "{method:?}: {:?}, want {dims:?}", got.dimensions());
            if let Some(d) = diff(&got, &par) {
                return Err(Fail::from(format!("{method:?} masked {masked}: parallel result differs {d}")));
            }
            for (x, y, p) in got.enumerate_pixels() {
                let [sse, cc, tt, ii] = terms(c, x, y, masked);
                let norm = (tt * ii).sqrt();
                zero |= norm == 0.0;
                let n = if norm > 0.0 { norm } else { 1.0 };
                let want = match method {
                    SumOfSquaredErrors => sse,
                    SumOfSquaredErrorsNormalized => sse / n,
                    CrossCorrelation => cc,
                    CrossCorrelationNormalized => cc / n,
                };
                any |= want > 0.0;
                let ok = (p[0] as f64 - want).abs() <= tol * want;
                ensure!(ok, "{method:?} masked {masked} at ({x},{y}) is {}, want {want}", p[0]);
            }
        }
    }
    lab(any, if zero { "with an undefined normalisation" } else { "" })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Find {
    im: Im<u8>,
    x: u32,
    y: u32,
    tw: u32,
    th: u32,
}
/// A template cut from the image scores best where it was cut.
fn found(c: &Find) -> R {
    use MatchTemplateMethod::*;
    let (tw, th) = (c.tw.min(c.im.w), c.th.min(c.im.h));
    let (x, y) = (c.x % (c.im.w - tw + 1), c.y % (c.im.h - th + 1));
    let t = Im { w: tw, h: th, d: (0..th).flat_map(|v| (0..tw).map(move |u| (u, v))).map(|(u, v)| c.im.at(x + u, y + v)).collect::<Vec<u8>>() };
    let im = c.im.luma();
    let e = find_extremes(&match_template(&im, &t.luma(), SumOfSquaredErrors));
    ensure!(e.min_value == 0.0, "the best squared error of a template cut at ({x},{y}) is {}", e.min_value);
    let (bx, by) = e.min_value_location;
    for v in 0..th {
        for u in 0..tw {
            ensure!(c.im.at(bx + u, by + v) == t.at(u, v), "the best match ({bx},{by}) of a template cut at ({x},{y}) is not equal to it");
        }
    }
    let n = match_template(&im, &t.luma(), CrossCorrelationNormalized);
    let bright = t.d.iter().any(|v| *v > 0);
    if bright {
        let s = n.get_pixel(x, y)[0];
        ensure!((s - 1.0).abs() < 1e-4, "normalised correlation with itself is {s}");
        ensure!(find_extremes(&n).max_value <= 1.0 + 1e-4, "normalised correlation of {} exceeds one", find_extremes(&n).max_value);
    }
    nt(c.im.varied() && bright)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ext {
    im: Im<u8>,
    kind: u8,
}
fn extremes(c: &Ext) -> R {
    macro_rules! go {
        ($im:expr) => {{
            let im = $im;
            let e = find_extremes(&im);
            let px: Vec<_> = im.enumerate_pixels().map(|(x, y, p)| (x, y, p[0])).collect();
            let mut lo = px[0];
            let mut hi = px[0];
            for y in 0..im.height() {
                for x in 0..im.width() {
                    let v = im.get_pixel(x, y)[0];
                    if v < lo.2 {
                        lo = (x, y, v);
                    }
                    if v > hi.2 {
                        hi = (x, y, v);
                    }
                }
            }
            ensure!(e.min_value == lo.2 && e.min_value_location == (lo.0, lo.1), "{e:?}, want the minimum at {lo:?} in {:?}", c.im);
            ensure!(e.max_value == hi.2 && e.max_value_location == (hi.0, hi.1), "{e:?}, want the maximum at {hi:?} in {:?}", c.im);
        }};
    }
    let conv = |f: &dyn Fn(u8) -> f64| c.im.d.iter().map(|v| f(*v)).collect::<Vec<f64>>();
    match c.kind {
        0 => go!(c.im.luma()),
        1 => go!(Im { w: c.im.w, h: c.im.h, d: conv(&|v| v as f64 * -257.0).iter().map(|v| *v as i32).collect::<Vec<i32>>() }.luma()),
        2 => go!(Im { w: c.im.w, h: c.im.h, d: conv(&|v| v as f64 / 8.0 - 16.0).iter().map(|v| *v as f32).collect::<Vec<f32>>() }.luma()),
        _ => go!(Im { w: c.im.w, h: c.im.h, d: conv(&|v| v as f64 * 257.0).iter().map(|v| *v as u16).collect::<Vec<u16>>() }.luma()),
    }
    let ties = { let top = c.im.d.iter().max().copied(); c.im.d.iter().filter(|v| Some(**v) == top).count() > 1 };
    lab(c.im.varied(), if ties { "tied" } else { "" })
}

pub fn prop() -> Prop {
    Prop {
        id: "C33",
        rule: "Random images, templates up to the image's size (and larger, which must be refused) and masks: every score of the eight formulas against f64 sums, sequential and parallel; templates cut from the image are found again; extremes of tie-rich images of four types. Non-trivial: some positive score, respectively more than one value.",
        assumptions: &["a score whose normalisation is zero is left unnormalised", "tied extremes: the first in row-major order", "equal sizes of template and image are accepted (one score)", "f32 accumulation may differ by a relative 2e-5"],
        subs: vec![
            sub("scores", 60000, || {
                let t = || prop_oneof![1u32..5, 1u32..9];
                (t(), t()).prop_flat_map(|(tw, th)| {
                    let side = |t: u32| prop_oneof![8 => t..t + 6, 2 => Just(t), 1 => 1..=t].boxed();
                    let e = prop_oneof![1 => Just(0u8), 3 => any::<u8>(), 1 => Just(255u8), 2 => 0u8..3].boxed();
                    (im_u8(side(tw), side(th), 1), im_u8(Just(tw).boxed(), Just(th).boxed(), 1), prop_oneof![im_of(Just(tw).boxed(), Just(th).boxed(), 1, e), im_of(Just(tw).boxed(), Just(th).boxed(), 1, prop_oneof![Just(0u8), Just(1u8)].boxed())])
                }).prop_map(|(im, t, mask)| Case { im, t, mask }).boxed()
            }, scores),
            sub("found", 60000, || (im_u8(s(14), s(14), 1), any::<u32>(), any::<u32>(), 1u32..6, 1u32..6).prop_map(|(im, x, y, tw, th)| Find { im, x, y, tw, th }).boxed(), found),
            sub("extremes", 200000, || (prop_oneof![im_u8(s(9), s(9), 1), im_of(s(6), s(6), 1, (0u8..3).boxed())], 0u8..4).prop_map(|(im, kind)| Ext { im, kind }).boxed(), extremes),
            sub("large templates", 1500, || {
                prop_oneof![(40u32..70, 40u32..70), (257u32..300, 1u32..3), (1u32..3, 257u32..300)].prop_flat_map(|(tw, th)| (tw..tw + 3, th..th + 3, any::<[u64; 3]>(), prop_oneof![Just(255u8), Just(1), Just(0), any::<u8>()], prop_oneof![Just(255u8), Just(1), any::<u8>()], any::<bool>())
                    .prop_map(move |(w, h, s, l, m, white)| {
                        let mut im = Big { w, h, seed: s[0], levels: l }.im(1);
                        let mut t = Big { w: tw, h: th, seed: s[1], levels: l }.im(1);
                        if white { im.d.iter_mut().for_each(|v| *v |= 0xf0); t.d.iter_mut().for_each(|v| *v &= 0x8f); }
                        Case { im, t, mask: Big { w: tw, h: th, seed: s[2], levels: m }.im(1) }
                    })).boxed()
            }, scores),
            sub("long images", 40, || {
                (prop_oneof![2 => 4090u32..4200, 1 => far_side()], 1u32..3, any::<bool>(), (1u32..4, 1u32..3), any::<[u64; 3]>(), prop_oneof![Just(255u8), Just(1), any::<u8>()]).prop_map(|(a, b, t, (tw, th), s, l)| {
                    let (w, h, tw, th) = if t { (b, a, th.min(b), tw) } else { (a, b, tw, th.min(b)) };
                    Case { im: Big { w, h, seed: s[0], levels: 255 }.im(1), t: Big { w: tw, h: th, seed: s[1], levels: l }.im(1), mask: Big { w: tw, h: th, seed: s[2], levels: l }.im(1) }
                }).boxed()
            }, scores),
            // square sums beyond 2^32
            sub("huge templates", 8, || (257u32..290, 0u32..12, 0u32..2, 0u32..2, any::<[u64; 3]>(), prop_oneof![Just(0u8), Just(0xf0), Just(0xff)], any::<bool>()).prop_map(|(tw, th, dw, dh, s, light, t)| {
                let (mut tw, mut th) = (tw, 68000 / tw + th);
                if t { std::mem::swap(&mut tw, &mut th); }
                let mut im = Big { w: tw + dw, h: th + dh, seed: s[0], levels: 255 }.im(1);
                let mut t = Big { w: tw, h: th, seed: s[1], levels: 255 }.im(1);
                im.d.iter_mut().for_each(|v| *v |= light);
                t.d.iter_mut().for_each(|v| *v |= light);
                Case { im, t, mask: Big { w: tw, h: th, seed: s[2], levels: 255 }.im(1) }
            }).boxed(), scores),
            sub("extremes large", 60, || (prop_oneof![strip(1), plane(1)], 0u8..4).prop_map(|(im, kind)| Ext { im, kind }).boxed(), extremes),
        ],
    }
}
