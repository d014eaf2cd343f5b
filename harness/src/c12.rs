//! C12: lines visit a connected, straight, complete set of pixels; curves stay close to their curve.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::shapes::*;
use image::{Luma, Rgb};
use imageproc::definitions::Image;
use imageproc::drawing::*;
use imageproc::pixelops::interpolate;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeSet;

type P2 = (i64, i64);
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seg {
    a: (i32, i32),
    b: (i32, i32),
}
fn seg(n: i32) -> BoxedStrategy<Seg> {
    let c = move || prop_oneof![4 => -n..n, 2 => -4i32..5];
    prop_oneof![
        6 => (c(), c(), c(), c()).prop_map(|(a, b, c, d)| Seg { a: (a, b), b: (c, d) }),
        1 => (c(), c(), -6i32..7, -6i32..7).prop_map(|(a, b, c, d)| Seg { a: (a, b), b: (a + c, b + d) }),
        1 => (c(), c(), c()).prop_map(|(a, b, c)| Seg { a: (a, b), b: (c, b) }),
        1 => (c(), c(), c()).prop_map(|(a, b, c)| Seg { a: (a, b), b: (a, c) }),
        1 => (c(), c(), c(), any::<bool>()).prop_map(|(a, b, c, s)| Seg { a: (a, b), b: (a + c, if s { b + c } else { b - c }) }),
    ]
    .boxed()
}
fn f(p: (i32, i32)) -> (f32, f32) {
    (p.0 as f32, p.1 as f32)
}
fn octant(s: &Seg) -> &'static str {
    let (dx, dy) = (s.b.0 as i64 - s.a.0 as i64, s.b.1 as i64 - s.a.1 as i64);
    if dx == 0 && dy == 0 {
        "point"
    } else if dy == 0 {
        "horizontal"
    } else if dx == 0 {
        "vertical"
    } else if dx.abs() == dy.abs() {
        "diagonal"
    } else {
        match (dx.abs() > dy.abs(), dx > 0, dy > 0) {
            (true, true, true) => "shallow ++",
            (true, true, false) => "shallow +-",
            (true, false, true) => "shallow -+",
            (true, false, false) => "shallow --",
            (false, true, true) => "steep ++",
            (false, true, false) => "steep +-",
            (false, false, true) => "steep -+",
            (false, false, false) => "steep --",
        }
    }
}
fn line_ok(s: &Seg, pts: &[(i32, i32)]) -> Result<(), Fail> {
    let (a, b) = ((s.a.0 as i64, s.a.1 as i64), (s.b.0 as i64, s.b.1 as i64));
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let n = dx.abs().max(dy.abs());
    ensure!(pts.len() as i64 == n + 1, "{s:?}: {} points instead of {}", pts.len(), n + 1);
    let ends = [pts[0], pts[pts.len() - 1]];
    ensure!(ends == [s.a, s.b] || ends == [s.b, s.a], "{s:?}: first and last points are {ends:?}");
    for w in pts.windows(2) {
        let (ex, ey) = ((w[1].0 as i64 - w[0].0 as i64).abs(), (w[1].1 as i64 - w[0].1 as i64).abs());
        ensure!(ex.max(ey) == 1, "{s:?}: step from {:?} to {:?}", w[0], w[1]);
        ensure!(if dx.abs() >= dy.abs() { ex == 1 } else { ey == 1 }, "{s:?}: no major step from {:?} to {:?}", w[0], w[1]);
    }
    for p in pts {
        // deviation along the minor axis, times the major length
        let cross = (p.0 as i64 - a.0) * dy - (p.1 as i64 - a.1) * dx;
        ensure!(2 * cross.abs() <= n, "{s:?}: {p:?} is {} pixels from the ideal line", cross.abs() as f64 / n as f64);
    }
    Ok(())
}
fn iter(s: &Seg) -> R {
    let pts: Vec<(i32, i32)> = BresenhamLineIter::new(f(s.a), f(s.b)).collect();
    line_ok(s, &pts)?;
    let mut back: Vec<(i32, i32)> = BresenhamLineIter::new(f(s.b), f(s.a)).collect();
    line_ok(&Seg { a: s.b, b: s.a }, &back)?;
    if s.a.0 != s.b.0 && s.a.1 != s.b.1 && (s.a.0 - s.b.0).abs() != (s.a.1 - s.b.1).abs() {
        back.sort();
        let mut p = pts.clone();
        p.sort();
        ensure!(back == p, "{s:?}: the reversed line visits other pixels");
    }
    lab(pts.len() > 1, octant(s))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Frac {
    p: [f32; 4],
}
/// Fractional end points: connected, one pixel per major step, close to the segment.
fn frac(c: &Frac) -> R {
    let [x0, y0, x1, y1] = c.p;
    let pts: Vec<(i32, i32)> = BresenhamLineIter::new((x0, y0), (x1, y1)).collect();
    let steep = (y1 - y0).abs() > (x1 - x0).abs();
    let (m0, m1) = if steep { (y0, y1) } else { (x0, x1) };
    let n = (m0 as i32 - m1 as i32).abs() + 1;
    ensure!(pts.len() as i32 == n, "{c:?}: {} points instead of {n}", pts.len());
    for w in pts.windows(2) {
        let (ex, ey) = ((w[1].0 - w[0].0).abs(), (w[1].1 - w[0].1).abs());
        ensure!(ex.max(ey) == 1 && (if steep { ey } else { ex }) == 1, "{c:?}: step from {:?} to {:?}", w[0], w[1]);
    }
    let (dx, dy) = ((x1 - x0) as f64, (y1 - y0) as f64);
    let l = dx.abs().max(dy.abs());
    for p in &pts {
        let cr = ((p.0 as f64 - x0 as f64) * dy - (p.1 as f64 - y0 as f64) * dx).abs();
        ensure!(l == 0.0 || cr / l < 2.51, "{c:?}: {p:?} is {} from the segment", cr / l);
    }
    nt(l > 2.0)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OnImage {
    im: Im<u8>,
    s: Seg,
    color: [u8; 3],
}
/// draw_line_segment and the pixel iterators visit the iterator's pixels.
fn on_image(c: &OnImage) -> R {
    let im: Image<Rgb<u8>> = c.im.rgb();
    let (w, h) = (c.im.w as i32, c.im.h as i32);
    let col = Rgb(c.color);
    let inside = |p: &(i32, i32)| p.0 >= 0 && p.1 >= 0 && p.0 < w && p.1 < h;
    let (a, b) = (f(c.s.a), f(c.s.b));
    let pts: Vec<(i32, i32)> = BresenhamLineIter::new(a, b).collect();
    let mut want = im.clone();
    for p in pts.iter().filter(|p| inside(p)) {
        want.put_pixel(p.0 as u32, p.1 as u32, col);
    }
    let got = draw_line_segment(&im, a, b, col);
    if let Some(m) = diff(&got, &want) {
        return Err(format!("draw_line_segment {:?}: {m}", c.s).into());
    }
    // The pixel iterators clamp the end points into the image.
    let clamp = |p: (f32, f32)| (p.0.clamp(0.0, w as f32 - 1.0), p.1.clamp(0.0, h as f32 - 1.0));
    let cp: Vec<(i32, i32)> = BresenhamLineIter::new(clamp(a), clamp(b)).collect();
    let vals: Vec<[u8; 3]> = cp.iter().map(|p| im.get_pixel(p.0 as u32, p.1 as u32).0).collect();
    let got: Vec<[u8; 3]> = BresenhamLinePixelIter::new(&im, a, b).map(|p| p.0).collect();
    ensure!(got == vals, "BresenhamLinePixelIter {:?}: {got:?}, want {vals:?}", c.s);
    let mut m = im.clone();
    let mut got = vec![];
    for (i, p) in BresenhamLinePixelIterMut::new(&mut m, a, b).enumerate() {
        got.push(p.0);
        *p = Rgb([i as u8, (i >> 8) as u8, p.0[2]]);
    }
    ensure!(got == vals, "BresenhamLinePixelIterMut {:?}: {got:?}, want {vals:?}", c.s);
    let mut want = im.clone();
    for (i, p) in cp.iter().enumerate() {
        let q = want.get_pixel_mut(p.0 as u32, p.1 as u32);
        *q = Rgb([i as u8, (i >> 8) as u8, q.0[2]]);
    }
    if let Some(d) = diff(&m, &want) {
        return Err(format!("BresenhamLinePixelIterMut {:?}: {d}", c.s).into());
    }
    lab(pts.iter().any(|p| inside(p)), if pts.iter().all(|p| inside(p)) { "inside" } else { "crossing" })
}

/// Weights of an anti-aliased line: two per step, summing to one, around the ideal position.
const DRIFT: &str = "single-precision slope sums stray from the line";
fn aa(s: &Seg) -> R {
    let m = 3;
    let (ox, oy) = (s.a.0.min(s.b.0) - m, s.a.1.min(s.b.1) - m);
    let (w, h) = ((s.a.0 - s.b.0).unsigned_abs() + 2 * m as u32 + 1, (s.a.1 - s.b.1).unsigned_abs() + 2 * m as u32 + 1);
    let bad = RefCell::new(None);
    let line = Luma([7.5f32]);
    let blend = |l: Luma<f32>, o: Luma<f32>, wt: f32| {
        if l != line {
            *bad.borrow_mut() = Some(format!("blend called with line colour {:?}", l));
        }
        if !(0.0..=1.0).contains(&wt) {
            *bad.borrow_mut() = Some(format!("blend called with weight {wt}"));
        }
        Luma([o[0] + wt])
    };
    let im = Image::from_pixel(w, h, Luma([0f32]));
    let (a, b) = ((s.a.0 - ox, s.a.1 - oy), (s.b.0 - ox, s.b.1 - oy));
    let out = draw_antialiased_line_segment(&im, a, b, line, &blend);
    if let Some(m) = bad.borrow_mut().take() {
        return Err(format!("{s:?}: {m}").into());
    }
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let steep = dy.abs() > dx.abs();
    let at = |u: i32, v: i32| -> f32 {
        let (x, y) = if steep { (v, u) } else { (u, v) };
        out.get_pixel(x as u32, y as u32)[0]
    };
    let (u0, v0, u1, v1) = if steep { (a.1, a.0, b.1, b.0) } else { (a.0, a.1, b.0, b.1) };
    let (un, vn) = if steep { (h as i32, w as i32) } else { (w as i32, h as i32) };
    let tol = 4e-3;
    // how far a single-precision sum of the slope strays from the line
    let (mut sum, mut drift) = (if u0 < u1 { v0 } else { v1 } as f32, 0f64);
    if u0 != u1 {
        let (start, slope) = (sum as f64, (v1 - v0) as f64 / (u1 - u0) as f64);
        for i in 0..=(u1 - u0).abs() {
            drift = drift.max((sum as f64 - start - slope * i as f64).abs());
            sum += (v1 - v0) as f32 / (u1 - u0) as f32;
        }
    }
    let drift = 2.0 * drift + 1e-6 * v0.abs().max(v1.abs()) as f64;
    let mut drifted = None;
    for u in 0..un {
        let on = u >= u0.min(u1) && u <= u0.max(u1);
        let ideal = if u0 == u1 { v0 as f64 } else { v0 as f64 + (v1 - v0) as f64 * (u - u0) as f64 / (u1 - u0) as f64 };
        for v in 0..vn {
            let want = if on { (1.0 - (v as f64 - ideal).abs()).max(0.0) } else { 0.0 };
            let g = at(u, v) as f64;
            let off = (g - want).abs();
            if off >= tol {
                let m = format!("{s:?}: weight at step {u}, offset {v} is {g}, want {want} (ideal position {ideal})");
                if !on || off >= tol + drift {
                    return Err(m.into());
                }
                drifted.get_or_insert(m);
            }
        }
    }
    // the same line blended with interpolate
    let c8 = draw_antialiased_line_segment(&Image::from_pixel(w, h, Luma([10u8])), a, b, Luma([250u8]), interpolate);
    for (x, y, p) in out.enumerate_pixels() {
        let want = 10.0 + 240.0 * p[0].clamp(0.0, 1.0);
        let g = c8.get_pixel(x, y)[0] as f32;
        ensure!((g - want).abs() <= 1.5, "{s:?}: interpolated colour at ({x},{y}) is {g}, want about {want}");
    }
    if let Some(msg) = drifted {
        return Err(Fail { msg, sig: Some(DRIFT.to_string()) });
    }
    lab(dx != 0 && dy != 0, octant(s))
}

/// Cubic curves: end points drawn, 8-connected, close to the curve everywhere.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bez {
    side: u32,
    /// start, control a, control b, end, in quarter pixels
    p: [(i32, i32); 4],
}
fn bezier(c: &Bez) -> R {
    let g: Vec<(f64, f64)> = c.p.iter().map(|p| (p.0 as f64 / 4.0, p.1 as f64 / 4.0)).collect();
    let p = |i: usize| (g[i].0 as f32, g[i].1 as f32);
    let (w, h) = (c.side, c.side);
    let im = Image::from_pixel(w, h, Luma([0u8]));
    // g: start, control a, control b, end
    let out = draw_cubic_bezier_curve(&im, p(0), p(3), p(1), p(2), Luma([9]));
    let set: Vec<(f64, f64)> = out.enumerate_pixels().filter(|p| p.2[0] != 0).map(|p| (p.0 as f64, p.1 as f64)).collect();
    let d = |a: (f64, f64), b: (f64, f64)| ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt();
    let l = d(g[0], g[1]) + d(g[1], g[2]) + d(g[2], g[3]);
    let dd = |i: usize| ((g[i].0 - 2.0 * g[i + 1].0 + g[i + 2].0).powi(2) + (g[i].1 - 2.0 * g[i + 1].1 + g[i + 2].1).powi(2)).sqrt();
    // chord deviation for segments no longer than about eight pixels, plus rounding
    let n = (l / 8.0).floor().max(3.0);
    let tol = 1.3 + 6.0 * dd(0).max(dd(1)) / (8.0 * n * n);
    let samples = (2.0 * l) as usize + 400;
    let curve: Vec<(f64, f64)> = (0..=samples)
        .map(|i| {
            let t = i as f64 / samples as f64;
            let m = 1.0 - t;
            let q = |k: fn(&(f64, f64)) -> f64| m * m * m * k(&g[0]) + 3.0 * m * m * t * k(&g[1]) + 3.0 * m * t * t * k(&g[2]) + t * t * t * k(&g[3]);
            (q(|p| p.0), q(|p| p.1))
        })
        .collect();
    for e in [g[0], g[3]] {
        let r = (e.0.round(), e.1.round());
        if (0.0..w as f64).contains(&r.0) && (0.0..h as f64).contains(&r.1) {
            ensure!(set.contains(&r), "end point {e:?} not drawn at {r:?}");
        }
    }
    for q in &set {
        let best = curve.iter().map(|c| d(*c, *q)).fold(f64::MAX, f64::min);
        ensure!(best <= tol + 1.5 * l / samples as f64, "drawn pixel {q:?} is {best:.2} from the curve (allowed {tol:.2})");
    }
    let inner = |c: &(f64, f64)| c.0 > tol && c.1 > tol && c.0 < w as f64 - 1.0 - tol && c.1 < h as f64 - 1.0 - tol;
    let mut vis = 0;
    for q in curve.iter().filter(|c| inner(c)) {
        vis += 1;
        let best = set.iter().map(|c| d(*c, *q)).fold(f64::MAX, f64::min);
        ensure!(best <= tol, "curve point {q:?} is {best:.2} from the nearest drawn pixel (allowed {tol:.2})");
    }
    if curve.iter().all(inner) {
        // one 8-connected set
        let s: BTreeSet<P2> = set.iter().map(|p| (p.0 as i64, p.1 as i64)).collect();
        let mut todo: Vec<P2> = s.iter().take(1).copied().collect();
        let mut seen: BTreeSet<P2> = todo.iter().copied().collect();
        while let Some(p) = todo.pop() {
            for dy in -1..2 {
                for dx in -1..2 {
                    let q = (p.0 + dx, p.1 + dy);
                    if s.contains(&q) && seen.insert(q) {
                        todo.push(q);
                    }
                }
            }
        }
        ensure!(seen.len() == s.len(), "the curve is not connected: {} of {} pixels", seen.len(), s.len());
    }
    if g.iter().all(|p| d(*p, g[0]) < 0.1) {
        // a coordinate half way between two pixels may round either way at each step
        let tie = c.p[0].0.rem_euclid(4) == 2 || c.p[0].1.rem_euclid(4) == 2;
        ensure!(tie || set.len() <= 1, "the curve of one point covers {} pixels", set.len());
        let near_edge = |v: f64| v < 1.0 || v > c.side as f64 - 2.0;
        ensure!(!set.is_empty() || near_edge(g[0].0) || near_edge(g[0].1), "the curve of one point covers no pixel");
        return lab(!set.is_empty(), "a point");
    }
    lab(vis > 20, if l > 2040.0 { "long" } else if vis == curve.len() { "inside" } else { "crossing" })
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "Random segments in all octants with integer end points (exact count, ends, connectivity, half-pixel deviation, reversal), fractional end points, segments in and around images through draw_line_segment and both pixel iterators, anti-aliased weights read through a recording blend, and cubic Bezier curves against the sampled curve; non-trivial: more than one point / part of the line visible.",
        assumptions: &["weights of anti-aliased lines within 0.004 of the exact ones", "fractional end points are truncated to pixels, so such lines are only bounded to 2.5 pixels of the segment", "pixel iterators clamp end points into the image"],
        subs: vec![
            sub("iter", 500000, || prop_oneof![3 => seg(30), 2 => seg(300), 1 => seg(3000)].boxed(), iter),
            sub("iter far", 2000, || seg(100_000), iter),
            sub("frac", 400000, || [-40f32..40., -40f32..40., -40f32..40., -40f32..40.].prop_map(|p| Frac { p }).boxed(), frac),
            sub("on_image", 300000, || {
                (im_u8(s(20), s(20), 3), prop_oneof![seg(20), (0i32..20, 0i32..20, 0i32..20, 0i32..20).prop_map(|(a, b, c, d)| Seg { a: (a, b), b: (c, d) })], any::<[u8; 3]>()).prop_map(|(im, s, color)| OnImage { im, s, color }).boxed()
            }, on_image),
            // one side of the image beyond 65536 pixels
            sub("on_image long", 60, || {
                let k = || prop_oneof![2 => -20i32..20, 2 => 32700i32..32800, 2 => 65500i32..65800, 1 => -70000i32..70000];
                (long(3), any::<[u8; 3]>(), (k(), k(), -2i32..4, -2i32..4)).prop_map(|(im, color, (a, b, c, d))| { let s = if im.w > im.h { Seg { a: (a, c), b: (b, d) } } else { Seg { a: (c, a), b: (d, b) } }; OnImage { im, s, color } }).boxed()
            }, on_image),
            sub("aa", 400000, || prop_oneof![3 => seg(20), 1 => seg(100)].boxed(), aa),
            sub("aa long", 3000, || (prop_oneof![100i32..300, 100i32..1500], -20i32..=20, any::<bool>(), any::<bool>()).prop_map(|(l, k, t, back)| { let (a, b) = ((0, 0), if t { (k, l) } else { (l, k) }); if back { Seg { a: b, b: a } } else { Seg { a, b } } }).boxed(), aa),
            // long enough for small errors of the slope to add up
            sub("aa far", 60, || (prop_oneof![2 => 2000i32..6000, 1 => 20000i32..70000], -3000i32..3000, any::<bool>(), any::<bool>()).prop_map(|(l, k, t, back)| { let k = k % (6_000_000 / l).max(2); let (a, b) = ((0, 0), if t { (k, l) } else { (l, k) }); if back { Seg { a: b, b: a } } else { Seg { a, b } } }).boxed(), aa),
            sub("bezier", 100000, || {
                let c = || prop_oneof![5 => 20i32..220, 1 => -100i32..340];
                // within a pixel or two of each other, or all the same
                let near = || (0i32..120, 0i32..120, prop_oneof![Just(0i32), 1i32..8]).prop_flat_map(|(x, y, r)| { let k = move || (x - r..=x + r, y - r..=y + r); [k(), k(), k(), k()] });
                prop_oneof![4 => [(c(), c()), (c(), c()), (c(), c()), (c(), c())].prop_map(|p| Bez { side: 60, p }), 1 => near().prop_map(|p| Bez { side: 30, p })].boxed()
            }, bezier),
            sub("bezier long", 150, || {
                let c = || -3000i32..6000;
                (300u32..600, [(c(), c()), (c(), c()), (c(), c()), (c(), c())]).prop_map(|(side, p)| Bez { side, p }).boxed()
            }, bezier),
        ],
    }
}
