//! C21: arc length, contour area and Douglas-Peucker simplification obey their definitions.
use crate::ensure;
use crate::fw::*;
use crate::gen::lcg;
use imageproc::geometry::*;
use imageproc::point::Point;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

type F2 = (f64, f64);
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pts {
    p: Vec<(i32, i32)>,
}
fn measures(c: &Pts) -> R {
    let n = c.p.len();
    let d = |a: (i32, i32), b: (i32, i32)| (((a.0 - b.0) as f64).powi(2) + ((a.1 - b.1) as f64).powi(2)).sqrt();
    let open: f64 = c.p.windows(2).map(|w| d(w[0], w[1])).sum();
    let closed = open + if n > 2 { d(c.p[0], c.p[n - 1]) } else { 0.0 };
    let pi: Vec<Point<i32>> = c.p.iter().map(|p| Point::new(p.0, p.1)).collect();
    let pf: Vec<Point<f32>> = c.p.iter().map(|p| Point::new(p.0 as f32, p.1 as f32)).collect();
    let close = |a: f64, b: f64| (a - b).abs() <= 1e-9 * (1.0 + b.abs());
    for (w, cl) in [(open, false), (closed, true)] {
        if n == 2 && cl {
            continue; // the closing edge of a two-point arc is not counted
        }
        ensure!(close(arc_length(&pi, cl), w), "arc_length(closed: {cl}) = {}, want {w}", arc_length(&pi, cl));
        ensure!(close(arc_length(&pf, cl), w), "arc_length::<f32>(closed: {cl}) = {}, want {w}", arc_length(&pf, cl));
    }
    // shoelace, twice the area
    let a2: i64 = (0..n).map(|i| (c.p[i], c.p[(i + 1) % n])).map(|(a, b)| a.0 as i64 * b.1 as i64 - b.0 as i64 * a.1 as i64).sum();
    let want = a2 as f64 / 2.0;
    ensure!(oriented_contour_area(&pi) == want, "oriented_contour_area = {}, want {want}", oriented_contour_area(&pi));
    ensure!(oriented_contour_area(&pf) == want, "oriented_contour_area::<f32> = {}, want {want}", oriented_contour_area(&pf));
    ensure!(contour_area(&pi) == want.abs(), "contour_area = {}, want {}", contour_area(&pi), want.abs());
    lab(n > 2 && a2 != 0, if n < 3 { "degenerate" } else if a2 > 0 { "positive" } else { "negative" })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Curve {
    p: Vec<(f64, f64)>,
    eps: f64,
}
fn dist(p: F2, a: F2, b: F2) -> f64 {
    let (ux, uy) = (b.0 - a.0, b.1 - a.1);
    let l = (ux * ux + uy * uy).sqrt();
    if l == 0.0 {
        ((p.0 - a.0).powi(2) + (p.1 - a.1).powi(2)).sqrt()
    } else {
        ((p.0 - a.0) * uy - (p.1 - a.1) * ux).abs() / l
    }
}
/// The algorithm by definition; None when rounding could decide.
fn reference(c: &[F2], eps: f64) -> Option<Vec<F2>> {
    let n = c.len();
    if n < 3 {
        return Some(c.to_vec());
    }
    let ds: Vec<f64> = (1..n - 1).map(|i| dist(c[i], c[0], c[n - 1])).collect();
    let m = ds.iter().cloned().fold(0.0, f64::max);
    if (m - eps).abs() < 1e-9 * (1.0 + m) {
        return None;
    }
    if m < eps {
        return Some(vec![c[0], c[n - 1]]);
    }
    if ds.iter().filter(|d| (*d - m).abs() < 1e-9 * (1.0 + m)).count() > 1 {
        return None;
    }
    let i = ds.iter().position(|d| *d == m)? + 1;
    let mut a = reference(&c[..=i], eps)?;
    let b = reference(&c[i..], eps)?;
    a.pop();
    a.extend(b);
    Some(a)
}
fn simplify(c: &Curve) -> R {
    let pts: Vec<Point<f64>> = c.p.iter().map(|p| Point::new(p.0, p.1)).collect();
    let conv = |v: Vec<Point<f64>>| -> Vec<F2> { v.iter().map(|p| (p.x, p.y)).collect() };
    let open = conv(approximate_polygon_dp(&pts, c.eps, false));
    let closed = conv(approximate_polygon_dp(&pts, c.eps, true));
    let n = c.p.len();
    if n < 2 {
        ensure!(open == c.p, "{open:?} from {:?}", c.p);
        return lab(false, "trivial");
    }
    ensure!(open[0] == c.p[0] && open[open.len() - 1] == c.p[n - 1], "the end points of {:?} are not kept: {open:?}", c.p);
    ensure!(closed.len() + 1 == open.len() && closed[..] == open[..open.len() - 1], "closed result {closed:?} is not the open one {open:?} without its last point");
    // ok[k][i]: kept point k can be curve point i
    let tol = |e: f64| e * (1.0 + 1e-9) + 1e-7;
    let mut cur: Vec<usize> = vec![0];
    for k in 1..open.len() {
        let mut next = vec![];
        for i in 0..n {
            if c.p[i] == open[k] && cur.iter().any(|&j| j < i && (j + 1..i).all(|m| dist(c.p[m], c.p[j], c.p[i]) <= tol(c.eps))) {
                next.push(i);
            }
        }
        cur = next;
    }
    ensure!(cur.contains(&(n - 1)), "{open:?} is not a subsequence of {:?} with every dropped point within {} of its segment's line", c.p, c.eps);
    let label = match reference(&c.p, c.eps) {
        Some(w) => {
            ensure!(w == open, "approximate_polygon_dp gives {open:?}, want {w:?}");
            "definite"
        }
        None => "tie",
    };
    // integer points give the same
    if c.p.iter().all(|p| p.0.fract() == 0.0 && p.1.fract() == 0.0) {
        let q: Vec<Point<i32>> = c.p.iter().map(|p| Point::new(p.0 as i32, p.1 as i32)).collect();
        let o: Vec<F2> = approximate_polygon_dp(&q, c.eps, false).iter().map(|p| (p.x as f64, p.y as f64)).collect();
        ensure!(o == open, "i32 result {o:?} differs from f64 {open:?}");
    }
    lab(open.len() < n && open.len() > 2, label)
}
fn curve() -> BoxedStrategy<Vec<F2>> {
    let ip = |r: i32| (-r..=r, -r..=r).prop_map(|p| (p.0 as f64, p.1 as f64));
    let fp = || (-50f64..50.0, -50f64..50.0);
    prop_oneof![
        3 => prop::collection::vec(ip(20), 0..20),
        2 => prop::collection::vec(ip(3), 0..12),
        3 => prop::collection::vec(fp(), 2..24),
        // smooth paths
        3 => (prop::collection::vec((0f64..3.0, -1.2f64..1.2), 2..30)).prop_map(|s| { let (mut x, mut y, mut t) = (0.0, 0.0, 0.0f64); s.iter().map(|(l, d)| { t += d; x += l * t.cos(); y += l * t.sin(); (x, y) }).collect() }),
        // closed curves
        2 => (prop::collection::vec(ip(15), 2..15)).prop_map(|mut v| { let f = v[0]; v.push(f); v }),
    ].boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "Random point sequences (integer grids, collinear runs, floats, smooth paths, closed and self-touching curves) and tolerances; lengths and areas recomputed, simplification compared with the recursive definition and checked for the epsilon bound; non-trivial: non-zero area, respectively some but not all inner points are dropped.",
        assumptions: &["distance is measured to the line through the kept points, as in the cited algorithm", "the closing edge counts for three or more points", "a closed simplification omits the last point"],
        subs: vec![
            sub("measures", 400000, || prop_oneof![prop::collection::vec((-30i32..30, -30i32..30), 0..12), prop::collection::vec((-2000i32..2000, -2000i32..2000), 0..30)].prop_map(|p| Pts { p }).boxed(), measures),
            sub("many measures", 300, || (30usize..3000, any::<u64>(), 2u64..60).prop_map(|(n, seed, r)| { let mut k = lcg(seed); Pts { p: (0..n).map(|_| (k(2 * r) as i32 - r as i32, k(2 * r) as i32 - r as i32)).collect() } }).boxed(), measures),
            sub("long curves", 300, || (30usize..1500, any::<u64>(), 1u64..40, 0.01f64..60.0).prop_map(|(n, seed, turn, eps)| {
                let (mut k, mut x, mut y, mut t) = (lcg(seed), 0.0, 0.0, 0.0f64);
                let p = (0..n).map(|_| { t += (k(2 * turn + 1) as f64 - turn as f64) / 25.0; x += t.cos(); y += t.sin(); (x, y) }).collect();
                Curve { p, eps }
            }).boxed(), simplify),
            sub("simplify", 500000, || (curve(), prop_oneof![1 => Just(0.5f64), 1 => Just(1.0f64), 3 => 0.01f64..20.0, 1 => 1e-12f64..1e-3]).prop_map(|(p, eps)| Curve { p, eps }).boxed(), simplify),
        ],
    }
}
