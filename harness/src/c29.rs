//! C29: Hough line detection reports exactly the accumulator peaks.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{GrayImage, Luma, Rgb, RgbImage};
use imageproc::drawing::draw_line_segment;
use imageproc::hough::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Votes {
    w: u32,
    h: u32,
    p: Vec<(u32, u32, u8)>,
    /// (vote threshold, suppression radius)
    opts: Vec<(u32, u32)>,
}
type Cells = HashSet<(i32, u32)>;
fn detect(g: &GrayImage, t: u32, r: u32) -> Result<Cells, Fail> {
    let l = detect_lines(g, LineDetectionOptions { vote_threshold: t, suppression_radius: r });
    let mut out = HashSet::new();
    for p in &l {
        ensure!(p.r.fract() == 0.0 && p.angle_in_degrees < 180, "line {p:?}");
        ensure!(out.insert((p.r as i32, p.angle_in_degrees)), "line {p:?} is reported twice");
    }
    Ok(out)
}
fn votes(c: &Votes) -> R {
    let mut g = GrayImage::new(c.w, c.h);
    for (x, y, v) in &c.p {
        g.put_pixel(x % c.w, y % c.h, Luma([*v]));
    }
    let fg: Vec<(u32, u32)> = g.enumerate_pixels().filter(|p| p.2[0] > 0).map(|p| (p.0, p.1)).collect();
    // what each cell must and may hold
    let mut lo: HashMap<(i32, u32), u32> = HashMap::new();
    let mut hi: HashMap<(i32, u32), u32> = HashMap::new();
    for &(x, y) in &fg {
        for m in 0..180u32 {
            let a = (m as f64).to_radians();
            let d = x as f64 * a.cos() + y as f64 * a.sin();
            // single precision angles and products
            let tol = 1e-3f64.max(5e-7 * (x + y) as f64);
            if (d - d.round()).abs() < tol {
                // rounding decides between two cells
                *hi.entry(((d + tol).trunc() as i32, m)).or_default() += 1;
                if (d + tol).trunc() != (d - tol).trunc() {
                    *hi.entry(((d - tol).trunc() as i32, m)).or_default() += 1;
                } else {
                    *lo.entry((d.trunc() as i32, m)).or_default() += 1;
                }
            } else {
                *lo.entry((d.trunc() as i32, m)).or_default() += 1;
                *hi.entry((d.trunc() as i32, m)).or_default() += 1;
            }
        }
    }
    // the accumulator, read off the unsuppressed results
    let mut acc: HashMap<(i32, u32), u32> = HashMap::new();
    for t in 1..=fg.len() as u32 + 1 {
        let cells = detect(&g, t, 0)?;
        for k in &cells {
            ensure!(t == 1 || acc.get(k) == Some(&(t - 1)), "cell {k:?} has {t} votes but is missing at lower thresholds");
            acc.insert(*k, t);
        }
        if cells.is_empty() {
            break;
        }
    }
    for (k, n) in &lo {
        let a = acc.get(k).cloned().unwrap_or(0);
        ensure!(a >= *n, "line r={} angle={}: {a} votes, but {n} pixels vote for it", k.0, k.1);
    }
    for (k, a) in &acc {
        let n = hi.get(k).cloned().unwrap_or(0);
        ensure!(*a <= n, "line r={} angle={}: {a} votes, but only {n} pixels vote for it", k.0, k.1);
    }
    for m in 0..180 {
        let s: u32 = acc.iter().filter(|(k, _)| k.1 == m).map(|(_, v)| *v).sum();
        ensure!(s == fg.len() as u32, "{s} votes at angle {m} from {} pixels", fg.len());
    }
    // suppression
    let mut some = false;
    for (t, r) in &c.opts {
        let got = detect(&g, *t, *r)?;
        let ri = *r as i32;
        let want: Cells = acc
            .iter()
            .filter(|(k, v)| {
                **v >= *t && {
                    let beats = |q: (i32, u32), u: u32| u > **v || (u == **v && (q.0, q.1) < (k.0, k.1));
                    if (2 * ri as i64 + 1) * 180 > acc.len() as i64 {
                        !acc.iter().any(|(q, u)| (q.0 - k.0).abs() <= ri && q.1.abs_diff(k.1) <= *r && beats(*q, *u))
                    } else {
                        !(-ri..=ri).any(|dr| (k.1.saturating_sub(*r)..=k.1 + *r).any(|m| acc.get(&(k.0 + dr, m)).is_some_and(|u| beats((k.0 + dr, m), *u))))
                    }
                }
            })
            .map(|(k, _)| *k)
            .collect();
        if got != want {
            let d: Vec<_> = got.symmetric_difference(&want).take(5).map(|k| (k, acc.get(k), got.contains(k))).collect();
            return Err(format!("threshold {t}, suppression radius {r}: {} lines, want {}; ((r, angle), votes, reported): {d:?}", got.len(), want.len()).into());
        }
        some |= !want.is_empty() && *r > 0;
    }
    lab(some && fg.len() > 1, if fg.is_empty() { "no pixels" } else { "pixels" })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cut {
    r: f32,
    m: u32,
    w: u32,
    h: u32,
}
/// The part of the line inside the box, by clipping its parametrisation.
fn clip(c: &Cut) -> Option<((f64, f64), (f64, f64))> {
    let a = (c.m as f64).to_radians();
    let (co, si) = (if c.m == 90 { 0.0 } else { a.cos() }, if c.m == 0 { 0.0 } else { a.sin() });
    let (px, py) = (c.r as f64 * co, c.r as f64 * si);
    let (dx, dy) = (-si, co);
    let (mut t0, mut t1) = (f64::MIN, f64::MAX);
    for (p, d, max) in [(px, dx, c.w as f64), (py, dy, c.h as f64)] {
        if d == 0.0 {
            if p < 0.0 || p > max {
                return None;
            }
            continue;
        }
        let (a, b) = (-p / d, (max - p) / d);
        t0 = t0.max(a.min(b));
        t1 = t1.min(a.max(b));
    }
    if t0 > t1 {
        return None;
    }
    Some(((px + t0 * dx, py + t0 * dy), (px + t1 * dx, py + t1 * dy)))
}
fn cuts(c: &Cut) -> R {
    let got = intersection_points(PolarLine { r: c.r, angle_in_degrees: c.m }, c.w, c.h);
    let want = clip(c);
    let a = (c.m as f64).to_radians();
    let steep = if c.m == 0 || c.m == 90 { 1.0 } else { a.sin().abs().min(a.cos().abs()) };
    let tol = 1e-5 * ((c.w + c.h) as f64 + c.r.abs() as f64) / steep + 1e-4;
    let len = want.map_or(0.0, |(p, q)| ((p.0 - q.0).powi(2) + (p.1 - q.1).powi(2)).sqrt());
    let Some((s, e)) = got else {
        ensure!(len < 4.0 * tol, "the line has length {len} inside the {}x{} box but no intersections are found", c.w, c.h);
        return lab(false, "outside");
    };
    let (s, e) = ((s.0 as f64, s.1 as f64), (e.0 as f64, e.1 as f64));
    for p in [s, e] {
        ensure!(p.0 >= 0.0 && p.0 <= c.w as f64 && p.1 >= 0.0 && p.1 <= c.h as f64, "{p:?} lies outside the box");
        let d = p.0 * a.cos() + p.1 * a.sin() - c.r as f64;
        ensure!(d.abs() <= tol, "{p:?} is {d} away from the line");
    }
    match want {
        None => ensure!(((s.0 - e.0).powi(2) + (s.1 - e.1).powi(2)).sqrt() < 4.0 * tol, "intersections {s:?}, {e:?} of a line outside the box"),
        Some((p, q)) => {
            let near = |a: (f64, f64), b: (f64, f64)| (a.0 - b.0).abs() <= 2.0 * tol && (a.1 - b.1).abs() <= 2.0 * tol;
            ensure!((near(s, p) && near(e, q)) || (near(s, q) && near(e, p)), "intersections {s:?}, {e:?}; the line is inside the box from {p:?} to {q:?}");
        }
    }
    lab(len > 1.0, if c.m == 0 || c.m == 90 { "axis" } else { "slanted" })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Draw {
    w: u32,
    h: u32,
    lines: Vec<(f32, u32)>,
}
fn draw(c: &Draw) -> R {
    let base = RgbImage::from_fn(c.w, c.h, |x, y| Rgb([x as u8, y as u8, 7]));
    let col = Rgb([200, 100, 255]);
    let lines: Vec<PolarLine> = c.lines.iter().map(|l| PolarLine { r: l.0, angle_in_degrees: l.1 }).collect();
    let got = draw_polar_lines(&base, &lines, col);
    let mut m = base.clone();
    draw_polar_lines_mut(&mut m, &lines, col);
    ensure!(got == m, "draw_polar_lines and draw_polar_lines_mut differ");
    let mut want = base.clone();
    let mut any = false;
    for (i, l) in lines.iter().enumerate() {
        let cut = Cut { r: c.lines[i].0, m: c.lines[i].1, w: c.w, h: c.h };
        let one = draw_polar_lines(&base, &lines[i..=i], col);
        let a = (cut.m as f64).to_radians();
        let mut n = 0;
        for (x, y, p) in one.enumerate_pixels() {
            if *p == col {
                n += 1;
                let d = x as f64 * a.cos() + y as f64 * a.sin() - cut.r as f64;
                ensure!(d.abs() <= 1.6, "{l:?}: pixel ({x},{y}) is {d} away from the line");
            } else {
                ensure!(p == base.get_pixel(x, y), "{l:?} changes ({x},{y}) to another colour");
            }
        }
        // away from the border the line has a pixel per row or column
        if c.w < 6 || c.h < 6 {
            continue;
        }
        if let Some((p, q)) = clip(&Cut { w: c.w - 5, h: c.h - 5, r: cut.r - 2.0 * (a.cos() + a.sin()) as f32, m: cut.m }) {
            let major = (p.0 - q.0).abs().max((p.1 - q.1).abs());
            ensure!(n as f64 >= major - 2.0, "{l:?}: {n} pixels of a line crossing {major} rows or columns of the {}x{} image", c.w, c.h);
            any |= major > 3.0;
        }
    }
    for l in &lines {
        if let Some((s, e)) = intersection_points(*l, c.w, c.h) {
            want = draw_line_segment(&want, s, e, col);
        }
    }
    ensure!(got == want, "the lines drawn are not the segments between their intersections with the image");
    lab(any, if lines.len() > 1 { "several" } else { "one" })
}
fn cut_strat() -> BoxedStrategy<Cut> {
    let angle = || prop_oneof![1 => Just(0u32), 1 => Just(90), 1 => Just(45), 1 => Just(135), 8 => 0u32..180];
    prop_oneof![
        4 => (1u32..200, 1u32..200, -300f32..300.0, angle()).prop_map(|(w, h, r, m)| Cut { r, m, w, h }),
        2 => (1u32..30, 1u32..30, (-40i32..40).prop_map(|v| v as f32), angle()).prop_map(|(w, h, r, m)| Cut { r, m, w, h }),
        // through a point of the box, in particular its corners
        4 => (1u32..60, 1u32..60, 0u32..3, 0u32..3, angle()).prop_map(|(w, h, a, b, m)| {
            let (x, y) = ((w * a) as f64 / 2.0, (h * b) as f64 / 2.0);
            let t = (m as f64).to_radians();
            Cut { r: (x * t.cos() + y * t.sin()) as f32, m, w, h }
        }),
    ].boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C29",
        rule: "Random sparse images: the accumulator is read off the unsuppressed results at every threshold and compared with independently counted votes (f64), then suppression and threshold are checked against its definition; random lines, including lines through corners of the box, against an f64 line clipper; drawings against the clipped segment and the line equation. Non-trivial: suppressed results are not empty, respectively the line crosses more than a pixel of the box.",
        assumptions: &["a pixel votes for its signed distance truncated towards zero; a distance within 1e-3 of an integer may fall on either side", "thresholds are at least 1"],
        subs: vec![
            sub("votes", 8000, || (1u32..18, 1u32..18).prop_flat_map(|(w, h)| {
                let pts = prop_oneof![3 => prop::collection::vec((0..w, 0..h, 1u8..=255), 0..14), 2 => (0..w, 0..h, 0..w, 0..h, 2u32..14).prop_map(|(a, b, c, d, n)| (0..n).map(|i| ((a * (n - i) + c * i) / n, (b * (n - i) + d * i) / n, 255u8)).collect::<Vec<_>>())];
                (pts, prop::collection::vec((1u32..8, prop_oneof![4 => 0u32..5, 1 => 0u32..30]), 1..4)).prop_map(move |(p, opts)| Votes { w, h, p, opts })
            }).boxed(), votes),
            sub("intersections", 1500000, cut_strat, cuts),
            sub("draw", 500000, || (1u32..40, 1u32..40, prop::collection::vec((prop_oneof![-45f32..45.0, (-30i32..45).prop_map(|v| v as f32)], prop_oneof![1 => Just(0u32), 1 => Just(90), 4 => 0u32..180]), 0..4)).prop_map(|(w, h, lines)| Draw { w, h, lines }).boxed(), draw),
            sub("votes very far out", 1, || (prop_oneof![(far_side(), 1u32..3), (1u32..3, far_side())]).prop_flat_map(|(w, h)| {
                (prop::collection::vec((0..w, 0..h, 1u8..=255), 1..3), prop::collection::vec((1u32..5, 0u32..3), 1..2)).prop_map(move |(p, opts)| Votes { w, h, p, opts })
            }).boxed(), votes),
            sub("votes far out", 30, || (prop_oneof![(200u32..400, 1u32..5), (1u32..5, 200u32..400), (250u32..300, 250u32..300)]).prop_flat_map(|(w, h)| {
                (prop::collection::vec((0..w, 0..h, 1u8..=255), 1..14), prop::collection::vec((1u32..8, 0u32..5), 1..3)).prop_map(move |(p, opts)| Votes { w, h, p, opts })
            }).boxed(), votes),
        ],
    }
}
