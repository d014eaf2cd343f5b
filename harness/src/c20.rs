//! C20: convex hulls are the hulls, minimum rectangles are minimal.
use crate::ensure;
use crate::gen::lcg;
use crate::fw::*;
use imageproc::geometry::*;
use imageproc::point::Point;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

type P2 = (i64, i64);
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    p: Vec<(i32, i32)>,
}
fn cross(a: P2, b: P2, c: P2) -> i128 {
    (b.0 - a.0) as i128 * (c.1 - a.1) as i128 - (b.1 - a.1) as i128 * (c.0 - a.0) as i128
}
/// Andrew's monotone chain; strict hull.
fn reference(p: &[P2]) -> Vec<P2> {
    let mut v = p.to_vec();
    v.sort();
    v.dedup();
    if v.len() < 3 {
        return v;
    }
    let half = |it: &mut dyn Iterator<Item = &P2>| {
        let mut s: Vec<P2> = vec![];
        for q in it {
            while s.len() > 1 && cross(s[s.len() - 2], s[s.len() - 1], *q) <= 0 {
                s.pop();
            }
            s.push(*q);
        }
        s.pop();
        s
    };
    let mut lo = half(&mut v.iter());
    lo.extend(half(&mut v.iter().rev()));
    lo
}
fn hull(c: &Case) -> R {
    let pts: Vec<Point<i32>> = c.p.iter().map(|p| Point::new(p.0, p.1)).collect();
    let got: Vec<P2> = convex_hull(pts.clone()).iter().map(|p| (p.x as i64, p.y as i64)).collect();
    let all: Vec<P2> = c.p.iter().map(|p| (p.0 as i64, p.1 as i64)).collect();
    let n = got.len();
    for q in &got {
        ensure!(all.contains(q), "hull point {q:?} is not an input point");
    }
    let mut g = got.clone();
    g.sort();
    g.dedup();
    ensure!(g.len() == n, "hull {got:?} repeats a point");
    let mut w = reference(&all);
    w.sort();
    ensure!(g == w, "hull {g:?} (sorted), want {w:?}");
    // consistent strict turns
    if n > 2 {
        for i in 0..n {
            let t = cross(got[i], got[(i + 1) % n], got[(i + 2) % n]);
            ensure!(t > 0, "hull {got:?} does not turn consistently at {:?}", got[(i + 1) % n]);
            for q in &all {
                ensure!(cross(got[i], got[(i + 1) % n], *q) >= 0, "{q:?} lies outside the hull edge {:?} {:?}", got[i], got[(i + 1) % n]);
            }
        }
    }
    // the order of the input does not matter
    let mut rev = pts;
    rev.reverse();
    let r: Vec<P2> = convex_hull(rev).iter().map(|p| (p.x as i64, p.y as i64)).collect();
    ensure!(r == got, "the hull of the reversed input is {r:?} instead of {got:?}");
    lab(n > 2 && c.p.len() > n, if n < 3 { "degenerate" } else if n < 5 { "3-4" } else { "5+" })
}
fn rect(c: &Case) -> R {
    let pts: Vec<Point<i32>> = c.p.iter().map(|p| Point::new(p.0, p.1)).collect();
    let r = min_area_rect(&pts);
    let got: Vec<(f64, f64)> = r.iter().map(|p| (p.x as f64, p.y as f64)).collect();
    let all: Vec<P2> = c.p.iter().map(|p| (p.0 as i64, p.1 as i64)).collect();
    let h = reference(&all);
    if h.len() < 3 {
        let mut g: Vec<P2> = r.iter().map(|p| (p.x as i64, p.y as i64)).collect();
        g.sort();
        let mut w: Vec<P2> = if h.len() == 1 { vec![h[0]; 4] } else { vec![h[0], h[0], h[1], h[1]] };
        w.sort();
        ensure!(g == w, "degenerate rectangle {g:?}, want {w:?}");
        return lab(false, "degenerate");
    }
    // all candidate rectangles, one per hull edge
    let mut cands: Vec<(f64, [(f64, f64); 4])> = vec![];
    for i in 0..h.len() {
        let (a, b) = (h[i], h[(i + 1) % h.len()]);
        let (ux, uy) = ((b.0 - a.0) as f64, (b.1 - a.1) as f64);
        let l = (ux * ux + uy * uy).sqrt();
        let (ux, uy) = (ux / l, uy / l);
        let (mut s0, mut s1, mut t0, mut t1) = (f64::MAX, f64::MIN, f64::MAX, f64::MIN);
        for p in &h {
            let (dx, dy) = ((p.0 - a.0) as f64, (p.1 - a.1) as f64);
            let (s, t) = (dx * ux + dy * uy, -dx * uy + dy * ux);
            s0 = s0.min(s);
            s1 = s1.max(s);
            t0 = t0.min(t);
            t1 = t1.max(t);
        }
        let at = |s: f64, t: f64| (a.0 as f64 + s * ux - t * uy, a.1 as f64 + s * uy + t * ux);
        cands.push(((s1 - s0) * (t1 - t0), [at(s0, t0), at(s1, t0), at(s1, t1), at(s0, t1)]));
    }
    let min = cands.iter().map(|c| c.0).fold(f64::MAX, f64::min);
    let max = cands.iter().map(|c| c.0).fold(f64::MIN, f64::max);
    let ok = cands.iter().filter(|c| c.0 <= min * (1.0 + 1e-9) + 1e-6).any(|c| {
        // some assignment of the four corners, each within the outward rounding
        let mut used = [false; 4];
        fn rec(i: usize, got: &[(f64, f64)], c: &[(f64, f64); 4], used: &mut [bool; 4]) -> bool {
            if i == 4 {
                return true;
            }
            for k in 0..4 {
                if !used[k] && (got[i].0 - c[k].0).abs() < 1.0 + 1e-6 && (got[i].1 - c[k].1).abs() < 1.0 + 1e-6 {
                    used[k] = true;
                    if rec(i + 1, got, c, used) {
                        return true;
                    }
                    used[k] = false;
                }
            }
            false
        }
        rec(0, &got, &c.1, &mut used)
    });
    ensure!(ok, "min_area_rect {got:?} is not (a rounding of) a rectangle of least area {min}; hull {h:?}");
    ensure!(got[0].0 <= got[1].0 && got[3].0 <= got[2].0 && got[0].1 <= got[3].1 && got[1].1 <= got[2].1, "corners {got:?} are not in the order top left, top right, bottom right, bottom left");
    lab(max > min * 1.01, if h.len() < 5 { "3-4" } else { "5+" })
}
fn points(max: usize) -> BoxedStrategy<Case> {
    let c = |r: i32| (-r..=r, -r..=r);
    let set = move |r: i32| prop::collection::vec(c(r), 1..max);
    prop_oneof![
        2 => set(3),
        2 => set(20),
        1 => set(1000),
        // collinear runs with duplicates
        1 => (c(10), c(4), prop::collection::vec(-6i32..7, 1..max)).prop_map(|(a, d, k)| k.iter().map(|k| (a.0 + k * d.0, a.1 + k * d.1)).collect::<Vec<_>>()),
        1 => (c(10), c(4), prop::collection::vec(-6i32..7, 1..max), prop::collection::vec(c(12), 1..4)).prop_map(|(a, d, k, e)| { let mut v: Vec<(i32, i32)> = k.iter().map(|k| (a.0 + k * d.0, a.1 + k * d.1)).collect(); v.extend(e); v }),
        // points on a circle
        1 => (5f64..200.0, prop::collection::vec(0f64..6.3, 3..max)).prop_map(|(r, t)| t.iter().map(|t| ((r * t.cos()).round() as i32, (r * t.sin()).round() as i32)).collect::<Vec<_>>()),
        // all the same
        1 => (c(5), 1usize..max).prop_map(|(a, n)| vec![a; n]),
    ]
    .prop_map(|p| Case { p })
    .boxed()
}
/// Collinear points at nearly equal large distances from a common corner, next to a few others.
fn far_ties() -> BoxedStrategy<Case> {
    let dir = prop::sample::select(vec![(1i32, 0i32), (0, 1), (1, 1), (1, -1), (-1, 1), (-1, 0), (-1, -1), (3, 2), (2, -5), (-7, 1)]);
    let other = (-40_000_000i32..40_000_000, -40_000_000i32..40_000_000);
    let k = || prop::collection::vec((1_000_000i32..5_000_000, prop::collection::vec(-3i32..4, 1..5)), 1..3);
    (prop::collection::vec((dir, k()), 1..3), (-5i32..6, -5i32..6), prop::collection::vec(other, 0..3), any::<bool>()).prop_map(|(rays, o, mut p, centre)| {
        if centre {
            p.push(o);
        }
        for ((dx, dy), ks) in rays {
            for (k, ds) in ks {
                let k = k * (7 / dx.abs().max(dy.abs()));
                p.extend(ds.iter().map(|d| (o.0 + dx * (k + d), o.1 + dy * (k + d))));
            }
        }
        Case { p }
    }).boxed()
}
fn huge() -> BoxedStrategy<Case> {
    let c = |r: i32| (-r..=r, -r..=r);
    prop_oneof![prop::collection::vec(c(1_000_000), 1..20), prop::collection::vec(c(60_000), 1..20), prop::collection::vec(c(40_000_000), 1..9)].prop_map(|p| Case { p }).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "Random point sets (small grids with many duplicates, collinear runs, circles, identical points, large coordinates) against a monotone-chain hull in exact arithmetic, and all hull-edge rectangles; non-trivial: the hull has at least three points and some input points are not on it (rectangles: candidate areas differ).",
        assumptions: &["integer coordinates up to 4e7", "rectangle corners are compared within their outward rounding"],
        subs: vec![
            sub("hull", 500000, || points(24), hull),
            sub("hull_many", 4000, || points(300), hull),
            sub("hull_thousands", 200, || (300usize..6000, any::<u64>(), prop_oneof![5u64..100, 100u64..100_000]).prop_map(|(n, seed, r)| { let mut k = lcg(seed); Case { p: (0..n).map(|_| (k(2 * r) as i32 - r as i32, k(2 * r) as i32 - r as i32)).collect() } }).boxed(), hull),
            sub("rect_hundreds", 300, || (20usize..600, any::<u64>(), prop_oneof![5u64..100, 100u64..30_000]).prop_map(|(n, seed, r)| { let mut k = lcg(seed); Case { p: (0..n).map(|_| (k(2 * r) as i32 - r as i32, k(2 * r) as i32 - r as i32)).collect() } }).boxed(), rect),
            sub("hull_large", 100000, huge, hull),
            sub("hull_far_ties", 100000, far_ties, hull),
            sub("rect", 300000, || points(20), rect),
            sub("rect_large", 50000, || prop::collection::vec((-60_000i32..60_000, -60_000i32..60_000), 1..15).prop_map(|p| Case { p }).boxed(), rect),
        ],
    }
}
