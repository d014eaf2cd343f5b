//! C13: filled and outlined shapes cover exactly their geometric region.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::shapes::*;
use image::Luma;
use imageproc::definitions::Image;
use imageproc::drawing::*;
use imageproc::pixelops::interpolate;
use imageproc::point::Point;
use imageproc::rect::Rect;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

type G = Image<Luma<u8>>;
fn canvas(w: u32, h: u32) -> G {
    Image::from_pixel(w, h, Luma([0]))
}
fn expect(what: &str, out: &G, want: impl Fn(i64, i64) -> bool) -> Result<(), Fail> {
    for (x, y, p) in out.enumerate_pixels() {
        let e = want(x as i64, y as i64);
        ensure!((p[0] != 0) == e, "{what}: pixel ({x},{y}) is {}drawn", if e { "not " } else { "" });
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RectCase {
    w: u32,
    h: u32,
    r: (i32, i32, u32, u32),
}
fn rects(c: &RectCase) -> R {
    let (x0, y0, rw, rh) = c.r;
    let r = Rect::at(x0, y0).of_size(rw, rh);
    let (l, t) = (x0 as i64, y0 as i64);
    let (rt, b) = (l + rw as i64 - 1, t + rh as i64 - 1);
    let im = canvas(c.w, c.h);
    let inr = |x: i64, y: i64| x >= l && x <= rt && y >= t && y <= b;
    let onb = |x: i64, y: i64| inr(x, y) && (x == l || x == rt || y == t || y == b);
    let filled = draw_filled_rect(&im, r, Luma([5]));
    expect("draw_filled_rect", &filled, inr)?;
    expect("draw_hollow_rect", &draw_hollow_rect(&im, r, Luma([5])), onb)?;
    expect("draw_cross", &draw_cross(&im, Luma([5]), x0, y0), |x, y| (x - l).abs() + (y - t).abs() <= 1)?;
    let n = filled.pixels().filter(|p| p[0] != 0).count();
    lab(n > 0, if n as u64 == rw as u64 * rh as u64 { "inside" } else { "clipped" })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conic {
    rx: i32,
    ry: i32,
    /// circle drawn through the ellipse functions as well
    off: (i32, i32),
}
fn conic(c: &Conic) -> R {
    let (a, b) = (c.rx as i64, c.ry as i64);
    let (cx, cy) = (a + 3 + c.off.0 as i64, b + 3 + c.off.1 as i64);
    let im = canvas((2 * a + 7) as u32 + c.off.0 as u32, (2 * b + 7) as u32 + c.off.1 as u32);
    let ctr = (cx as i32, cy as i32);
    let circle = a == b;
    let mut pairs: Vec<(&str, G, G)> = vec![("ellipse", draw_hollow_ellipse(&im, ctr, c.rx, c.ry, Luma([1])), draw_filled_ellipse(&im, ctr, c.rx, c.ry, Luma([1])))];
    if circle {
        pairs.push(("circle", draw_hollow_circle(&im, ctr, c.rx, Luma([1])), draw_filled_circle(&im, ctr, c.rx, Luma([1]))));
    }
    for (n, hollow, filled) in &pairs {
        let set = |g: &G| -> BTreeSet<(i64, i64)> { g.enumerate_pixels().filter(|p| p.2[0] != 0).map(|p| (p.0 as i64 - cx, p.1 as i64 - cy)).collect() };
        let (hs, fs) = (set(hollow), set(filled));
        for (name, s) in [("hollow", &hs), ("filled", &fs)] {
            for &(x, y) in s.iter() {
                for q in [(-x, y), (x, -y), (-x, -y)] {
                    ensure!(s.contains(&q), "{name} {n} {a},{b}: {:?} drawn but its mirror image {q:?} is not", (x, y));
                }
                ensure!(!circle || s.contains(&(y, x)), "{name} {n} radius {a}: {:?} drawn but not its transpose", (x, y));
                ensure!(x.abs() <= a && y.abs() <= b, "{name} {n} {a},{b}: {:?} is outside the bounding box", (x, y));
            }
            for q in [(a, 0), (-a, 0), (0, b), (0, -b)] {
                ensure!(s.contains(&q), "{name} {n} {a},{b}: extreme point {q:?} not drawn");
            }
        }
        // the outline is within one pixel of the curve, along x or y
        let near = |x: i64, y: i64| -> bool {
            let (x, y, a, b) = (x.abs() as f64, y.abs() as f64, a as f64, b as f64);
            let yc = if a > 0.0 && x <= a { b * (1.0 - (x / a).powi(2)).max(0.0).sqrt() } else if a == 0.0 && x == 0.0 { b } else { f64::MAX };
            let xc = if b > 0.0 && y <= b { a * (1.0 - (y / b).powi(2)).max(0.0).sqrt() } else if b == 0.0 && y == 0.0 { a } else { f64::MAX };
            if a == 0.0 { return x == 0.0 && y <= b; }
            if b == 0.0 { return y == 0.0 && x <= a; }
            (y - yc).abs() <= 1.0 || (x - xc).abs() <= 1.0
        };
        for &(x, y) in &hs {
            ensure!(near(x, y), "hollow {n} {a},{b}: {:?} is more than one pixel from the curve", (x, y));
            if circle {
                let r = ((x * x + y * y) as f64).sqrt();
                ensure!((r - a as f64).abs() <= 1.0, "hollow {n} radius {a}: {:?} is at distance {r}", (x, y));
            }
            ensure!(fs.contains(&(x, y)), "{n} {a},{b}: outline pixel {:?} is not in the filled shape", (x, y));
        }
        // the outline is closed: every pixel is joined to a neighbour one step along, all in one 8-connected set
        let mut todo: Vec<(i64, i64)> = hs.iter().take(1).copied().collect();
        let mut seen: BTreeSet<(i64, i64)> = todo.iter().copied().collect();
        while let Some(p) = todo.pop() {
            for d in [(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (1, -1), (-1, 1), (-1, -1)] {
                let q = (p.0 + d.0, p.1 + d.1);
                if hs.contains(&q) && seen.insert(q) {
                    todo.push(q);
                }
            }
        }
        ensure!(seen.len() == hs.len(), "hollow {n} {a},{b}: the outline has gaps");
        // the filled shape is the outline together with what lies between its pixels on each row
        let mut rows: BTreeMap<i64, (i64, i64)> = BTreeMap::new();
        for &(x, y) in &hs {
            let e = rows.entry(y).or_insert((x, x));
            *e = (e.0.min(x), e.1.max(x));
        }
        for y in -b - 2..=b + 2 {
            let (lo, hi) = (rows.get(&y).map(|r| r.0), rows.get(&y).map(|r| r.1));
            ensure!(y.abs() > b || lo.is_some(), "hollow {n} {a},{b}: nothing on row {y}");
            for x in -a - 2..=a + 2 {
                let want = lo.is_some_and(|l| x >= l) && hi.is_some_and(|h| x <= h);
                let got = filled.get_pixel((x + cx) as u32, (y + cy) as u32)[0] != 0;
                ensure!(got == want, "filled {n} {a},{b}: {:?} is {}filled, the outline spans {lo:?}..{hi:?} there", (x, y), if want { "not " } else { "" });
                if a > 0 && b > 0 {
                    let v = (x * x) as f64 / (a * a) as f64 + (y * y) as f64 / (b * b) as f64;
                    let inner = if a > 1 && b > 1 { (x * x) as f64 / ((a - 1) * (a - 1)) as f64 + (y * y) as f64 / ((b - 1) * (b - 1)) as f64 <= 1.0 } else { false };
                    ensure!(!inner || got, "filled {n} {a},{b}: interior pixel {:?} (value {v}) is not filled", (x, y));
                }
            }
        }
    }
    lab(a > 0 && b > 0, if circle { "circle" } else if a == 0 || b == 0 { "degenerate" } else if a > 4 * b || b > 4 * a { "flat ellipse" } else { "ellipse" })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PolyCase {
    w: u32,
    h: u32,
    p: Vec<(i32, i32)>,
}
/// Sum over the edges crossing row y (half-open) of their x positions, exactly as rationals.
fn polygons(c: &PolyCase) -> R {
    let pts: Vec<Point<i32>> = c.p.iter().map(|p| Point::new(p.0, p.1)).collect();
    let im = canvas(c.w, c.h);
    let out = draw_polygon(&im, &pts, Luma([1]));
    let aa = draw_antialiased_polygon(&im, &pts, Luma([200]), interpolate);
    let n = c.p.len();
    let edges: Vec<((i64, i64), (i64, i64))> = (0..n).map(|i| (c.p[i], c.p[(i + 1) % n])).map(|(a, b)| ((a.0 as i64, a.1 as i64), (b.0 as i64, b.1 as i64))).collect();
    let mut line = BTreeSet::new();
    for i in 0..n {
        // the implicit closing edge is not needed for a single point or an explicitly closed path
        let (a, b) = (c.p[i], c.p[(i + 1) % n]);
        if n == 1 || (i == n - 1 && a == b) {
            continue;
        }
        for p in BresenhamLineIter::new((a.0 as f32, a.1 as f32), (b.0 as f32, b.1 as f32)) {
            line.insert((p.0 as i64, p.1 as i64));
        }
    }
    let mut strict = 0;
    let (mut touched, mut total) = (0, 0);
    for y in 0..c.h as i64 {
        // crossings for both half-open conventions agree away from vertices; the library uses [ymin, ymax)
        let cross: Vec<f64> = edges.iter().filter(|(a, b)| a.1 != b.1 && y >= a.1.min(b.1) && y < a.1.max(b.1)).map(|(a, b)| a.0 as f64 + (y - a.1) as f64 * (b.0 - a.0) as f64 / (b.1 - a.1) as f64).collect();
        for x in 0..c.w as i64 {
            let got = out.get_pixel(x as u32, y as u32)[0] != 0;
            let g2 = aa.get_pixel(x as u32, y as u32)[0];
            total += 1;
            touched += got as u32;
            if line.contains(&(x, y)) {
                ensure!(got, "draw_polygon: edge pixel ({x},{y}) is not drawn");
                continue;
            }
            let dist = cross.iter().map(|v| (v - x as f64).abs()).fold(f64::MAX, f64::min);
            let inside = cross.iter().filter(|v| **v > x as f64).count() % 2 == 1;
            if dist > 0.5 + 1e-4 {
                ensure!(got == inside, "draw_polygon: ({x},{y}) is {}drawn but even-odd {}side, nearest edge {dist} away", if got { "" } else { "not " }, if inside { "in" } else { "out" });
                strict += inside as u32;
            }
            // away from all edges the anti-aliased polygon is exactly the fill
            let de = edges.iter().map(|(a, b)| seg_dist(*a, *b, (x, y))).fold(f64::MAX, f64::min);
            if de > 1.5 {
                ensure!(g2 == if inside { 200 } else { 0 }, "draw_antialiased_polygon: ({x},{y}), {de:.2} from all edges and {}side, is {g2}", if inside { "in" } else { "out" });
            }
        }
    }
    if n > 1 {
        for p in &c.p {
            if p.0 >= 0 && p.1 >= 0 && (p.0 as u32) < c.w && (p.1 as u32) < c.h {
                ensure!(aa.get_pixel(p.0 as u32, p.1 as u32)[0] >= 199, "draw_antialiased_polygon: vertex {p:?} is {}", aa.get_pixel(p.0 as u32, p.1 as u32)[0]);
            }
        }
        let hollow = draw_hollow_polygon(&mut im.clone(), &c.p.iter().map(|p| Point::new(p.0 as f32, p.1 as f32)).collect::<Vec<_>>(), Luma([1]));
        let rev: BTreeSet<(i64, i64)> = {
            let mut s = BTreeSet::new();
            for i in 0..n {
                let (a, b) = if i == n - 1 { (c.p[0], c.p[n - 1]) } else { (c.p[i], c.p[i + 1]) };
                if i == n - 1 && a == b {
                    continue;
                }
                for p in BresenhamLineIter::new((a.0 as f32, a.1 as f32), (b.0 as f32, b.1 as f32)) {
                    s.insert((p.0 as i64, p.1 as i64));
                }
            }
            s
        };
        expect("draw_hollow_polygon", &hollow, |x, y| rev.contains(&(x, y)))?;
    }
    lab(strict > 0 && touched < total, if n < 3 { "degenerate" } else { "polygon" })
}
fn seg_dist(a: (i64, i64), b: (i64, i64), p: (i64, i64)) -> f64 {
    let (ax, ay, bx, by, px, py) = (a.0 as f64, a.1 as f64, b.0 as f64, b.1 as f64, p.0 as f64, p.1 as f64);
    let l2 = (bx - ax).powi(2) + (by - ay).powi(2);
    let t = if l2 == 0.0 { 0.0 } else { (((px - ax) * (bx - ax) + (py - ay) * (by - ay)) / l2).clamp(0.0, 1.0) };
    ((px - ax - t * (bx - ax)).powi(2) + (py - ay - t * (by - ay)).powi(2)).sqrt()
}

/// A canvas of any size that only remembers what was drawn.
struct Sparse {
    w: u32,
    h: u32,
    drawn: std::collections::HashSet<(u32, u32)>,
}
impl Canvas for Sparse {
    type Pixel = Luma<u8>;
    fn dimensions(&self) -> (u32, u32) {
        (self.w, self.h)
    }
    fn get_pixel(&self, x: u32, y: u32) -> Luma<u8> {
        Luma([self.drawn.contains(&(x, y)) as u8])
    }
    fn draw_pixel(&mut self, x: u32, y: u32, _: Luma<u8>) {
        assert!(x < self.w && y < self.h, "drawn outside the canvas");
        self.drawn.insert((x, y));
    }
}
/// Outlines with radii up to 100000.
fn huge(c: &Conic) -> R {
    let (a, b) = (c.rx as i64, c.ry as i64);
    let (cx, cy) = (a + 2, b + 2);
    let mut s = Sparse { w: 2 * a as u32 + 5, h: 2 * b as u32 + 5, drawn: Default::default() };
    if c.off.0 == 1 && a == b {
        draw_hollow_circle_mut(&mut s, (cx as i32, cy as i32), c.rx, Luma([1]));
    } else {
        draw_hollow_ellipse_mut(&mut s, (cx as i32, cy as i32), c.rx, c.ry, Luma([1]));
    }
    let (af, bf) = (a as f64, b as f64);
    let mut cols: BTreeMap<i64, (i64, i64)> = BTreeMap::new();
    let mut rows: std::collections::BTreeSet<i64> = Default::default();
    for &(x, y) in &s.drawn {
        let (x, y) = (x as i64 - cx, y as i64 - cy);
        for q in [(-x, y), (x, -y)] {
            ensure!(s.drawn.contains(&((q.0 + cx) as u32, (q.1 + cy) as u32)), "ellipse {a},{b}: {:?} drawn but its mirror image {q:?} is not", (x, y));
        }
        let yc = if x.abs() <= a { bf * (1.0 - (x as f64 / af).powi(2)).max(0.0).sqrt() } else { f64::MAX };
        let xc = if y.abs() <= b { af * (1.0 - (y as f64 / bf).powi(2)).max(0.0).sqrt() } else { f64::MAX };
        ensure!((y.abs() as f64 - yc).abs() <= 1.0 || (x.abs() as f64 - xc).abs() <= 1.0, "ellipse {a},{b}: {:?} is more than one pixel from the curve", (x, y));
        if y >= 0 {
            let e = cols.entry(x).or_insert((y, y));
            *e = (e.0.min(y), e.1.max(y));
        }
        rows.insert(y);
    }
    ensure!(cols.len() as i64 == 2 * a + 1 && rows.len() as i64 == 2 * b + 1, "ellipse {a},{b}: {} columns and {} rows are touched", cols.len(), rows.len());
    // the lower half is one connected arc: consecutive columns overlap or touch
    let v: Vec<(i64, i64)> = cols.values().copied().collect();
    ensure!(v.windows(2).all(|p| p[0].0 <= p[1].1 + 1 && p[1].0 <= p[0].1 + 1), "ellipse {a},{b}: the outline has gaps");
    lab(true, if a.max(b) > 46340 { "squares beyond i32" } else { "large" })
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "Random rectangles and crosses in and around canvases (exact pixel sets), every pair of small ellipse radii and random larger ones (symmetry, bounding box, one-pixel accuracy, closed outline, row-wise fill), random polygons (convex, concave, self-intersecting, repeated and collinear vertices, closed or open) against the even-odd rule; non-trivial: something visible / positive radii / strictly inner pixels exist.",
        assumptions: &["within half a pixel of an edge crossing either fill outcome is accepted, except on the edge's own line pixels", "filled ellipse radii up to about a thousand, outlines up to 100000"],
        subs: vec![
            sub("rects", 200000, || (side0(24), side0(24), (coord(24), coord(24), 1u32..30, 1u32..30)).prop_map(|(w, h, r)| RectCase { w, h, r }).boxed(), rects),
            sub_all("radii", 41 * 41, |i| Conic { rx: (i % 41) as i32, ry: (i / 41) as i32, off: (0, 0) }, conic),
            sub("conics", 6000, || {
                let r = || prop_oneof![1 => 0i32..4, 3 => 0i32..60, 1 => 0i32..250];
                prop_oneof![3 => (r(), r()), 1 => r().prop_map(|r| (r, r))].prop_flat_map(|(rx, ry)| (Just(rx), Just(ry), 0i32..3, 0i32..3)).prop_map(|(rx, ry, a, b)| Conic { rx, ry, off: (a, b) }).boxed()
            }, conic),
            sub("large", 32, || prop_oneof![2 => (0i32..1200, 0i32..1200), 1 => (400i32..900).prop_map(|r| (r, r))].prop_map(|(rx, ry)| Conic { rx, ry, off: (0, 0) }).boxed(), conic),
            sub("huge", 60, || {
                let r = || prop_oneof![1i32..200, 1000i32..100_000, 46_000i32..47_000];
                (prop_oneof![3 => (r(), r()), 1 => r().prop_map(|r| (r, r))], 0i32..2).prop_map(|((rx, ry), o)| Conic { rx, ry, off: (o, 0) }).boxed()
            }, huge),
            sub("polygons", 600000, || (side0(22), side0(22), poly(22)).prop_map(|(w, h, p)| PolyCase { w, h, p }).boxed(), polygons),
            sub("large rects", 400, || (250u32..330, 250u32..330, (coord(300), coord(300), 1u32..400, 1u32..400)).prop_map(|(w, h, r)| RectCase { w, h, r }).boxed(), rects),
            // one side of the canvas beyond 65536 pixels
            sub("long rects", 120, || {
                let k = || prop_oneof![2 => -20i32..20, 2 => 32700i32..32800, 2 => 65500i32..65800, 1 => -70000i32..70000];
                (far_side(), 1u32..4, any::<bool>(), (k(), -2i32..4, prop_oneof![2 => 1u32..40, 2 => 32700u32..66000, 2 => 65537u32..140000, 1 => 1u32..140000], 1u32..5)).prop_map(|(a, b, t, (x, y, w, h))| if t { RectCase { w: b, h: a, r: (y, x, h, w) } } else { RectCase { w: a, h: b, r: (x, y, w, h) } }).boxed()
            }, rects),
            sub("long polygons", 24, || {
                let k = || prop_oneof![2 => -20i32..20, 2 => 32700i32..32800, 2 => 65500i32..65800, 1 => -70000i32..70000];
                (far_side(), 1u32..4, proptest::collection::vec((-2i32..6, k()), 3..6), Just(())).prop_map(|(a, b, p, _)| PolyCase { w: b, h: a, p }).boxed()
            }, polygons),
            sub("many vertices", 1500, || (20u32..60, 20u32..60, 8usize..400, any::<u64>(), prop_oneof![4 => 3u64..70, 1 => 70u64..200]).prop_map(|(w, h, n, seed, r)| { let mut k = lcg(seed); PolyCase { w, h, p: (0..n).map(|_| (k(r) as i32 - 3, k(r) as i32 - 3)).collect() } }).boxed(), polygons),
            sub("large polygons", 300, || (prop_oneof![1u32..20, 250u32..330], prop_oneof![1u32..20, 250u32..330], poly(300)).prop_map(|(w, h, p)| PolyCase { w, h, p }).boxed(), polygons),
        ],
    }
}
