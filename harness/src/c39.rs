//! C39: rectangles are the set of their pixels.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use imageproc::rect::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

type Spec = (i32, i32, u32, u32);
fn mk(s: Spec) -> Rect {
    Rect::at(s.0, s.1).of_size(s.2, s.3)
}
/// Exact containment in i64.
fn inside(s: Spec, x: i64, y: i64) -> bool {
    s.0 as i64 <= x && x < s.0 as i64 + s.2 as i64 && s.1 as i64 <= y && y < s.1 as i64 + s.3 as i64
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    a: Spec,
    b: Spec,
    pts: Vec<(i32, i32)>,
}
fn check(c: &Case, extra: &[(i32, i32)]) -> R {
    let (a, b) = (mk(c.a), mk(c.b));
    for (s, r) in [(c.a, a), (c.b, b)] {
        ensure!((r.left(), r.top(), r.width(), r.height()) == s, "{s:?} reads back as {r:?}");
        let (right, bottom) = (s.0 as i64 + s.2 as i64 - 1, s.1 as i64 + s.3 as i64 - 1);
        ensure!(r.right() as i64 == right.min(i32::MAX as i64), "right of {s:?} is {}, want {right}", r.right());
        ensure!(r.bottom() as i64 == bottom.min(i32::MAX as i64), "bottom of {s:?} is {}, want {bottom}", r.bottom());
    }
    let i = a.intersect(b);
    ensure!(i == b.intersect(a), "intersection of {:?} and {:?} depends on the order", c.a, c.b);
    ensure!(a.intersect(a) == Some(a) || a.right() == i32::MAX || a.bottom() == i32::MAX, "{:?} intersected with itself is {:?}", c.a, a.intersect(a));
    let edge = |s: Spec| {
        let r = mk(s);
        let xs = [s.0.saturating_sub(1), s.0, s.0.saturating_add(1), r.right().saturating_sub(1), r.right(), r.right().saturating_add(1)];
        let ys = [s.1.saturating_sub(1), s.1, s.1.saturating_add(1), r.bottom().saturating_sub(1), r.bottom(), r.bottom().saturating_add(1)];
        (xs, ys)
    };
    let (xa, ya) = edge(c.a);
    let (xb, yb) = edge(c.b);
    let mut common = false;
    let grid = xa.iter().chain(&xb).flat_map(|x| ya.iter().chain(&yb).map(move |y| (*x, *y)));
    for (x, y) in grid.chain(c.pts.iter().copied()).chain(extra.iter().copied()) {
        let (wa, wb) = (inside(c.a, x as i64, y as i64), inside(c.b, x as i64, y as i64));
        ensure!(Region::<i32>::contains(&a, x, y) == wa, "{:?} contains ({x},{y}): {}, want {wa}", c.a, !wa);
        let got = i.map_or(false, |i| i.contains(x, y));
        ensure!(got == (wa && wb), "({x},{y}) in the intersection {i:?} of {:?} and {:?}: {got}, want {}", c.a, c.b, wa && wb);
        common |= wa && wb;
        if x.abs_diff(0) < 1 << 22 && y.abs_diff(0) < 1 << 22 {
            let f = Region::<f32>::contains(&a, x as f32, y as f32);
            ensure!(f == wa || a.right() > 1 << 22 || a.bottom() > 1 << 22 || a.left() < -(1 << 22) || a.top() < -(1 << 22), "{:?} contains ({x}.0,{y}.0): {f}, want {wa}", c.a);
        }
    }
    lab(true, match i { None => "disjoint", Some(r) if r == a || r == b => "nested", _ if common => "overlapping", _ => "?" })
}
fn small(c: &Case) -> R {
    let all: Vec<(i32, i32)> = (-3..10).flat_map(|x| (-3..10).map(move |y| (x, y))).collect();
    check(c, &all)
}
fn wide(c: &Case) -> R {
    check(c, &[])
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Float {
    a: Spec,
    x: f32,
    y: f32,
}
fn float(c: &Float) -> R {
    let r = mk(c.a);
    let want = c.a.0 as f32 <= c.x && c.x <= (c.a.0 + c.a.2 as i32 - 1) as f32 && c.a.1 as f32 <= c.y && c.y <= (c.a.1 + c.a.3 as i32 - 1) as f32;
    let got = Region::<f32>::contains(&r, c.x, c.y);
    ensure!(got == want, "{:?} contains ({},{}): {got}, want {want}", c.a, c.x, c.y);
    lab(true, if want { "inside" } else { "outside" })
}
fn empty(s: &Spec) -> R {
    ensure!(no_panic(|| mk((s.0, s.1, 0, s.3))).is_err() && no_panic(|| mk((s.0, s.1, s.2, 0))).is_err(), "an empty rectangle is accepted");
    nt(true)
}

pub fn prop() -> Prop {
    Prop {
        id: "C39",
        rule: "All pairs of rectangles on a small grid, random pairs there and over the whole i32 range (touching, nested, reaching the limits), with points around all their edges, against containment in exact arithmetic. Every case counts.",
        assumptions: &["a rectangle reaching beyond i32::MAX contains the representable points; right() and bottom() are then i32::MAX", "float containment is tested where coordinates are exact in f32"],
        subs: vec![
            // 5 start positions x 4 lengths per axis, exhaustive in x with a fixed set in y
            sub_all("axis pairs", 8 * 6 * 8 * 6, |i| {
                let i = i as u32;
                let (l1, w1, l2, w2) = (i % 8, i / 8 % 6, i / 48 % 8, i / 384);
                let t = (i * 7 % 5) as i32;
                if i % 2 == 0 {
                    Case { a: (l1 as i32 - 1, 0, w1 + 1, 4), b: (l2 as i32 - 1, t - 1, w2 + 1, 3), pts: vec![] }
                } else {
                    Case { a: (0, l1 as i32 - 1, 4, w1 + 1), b: (t - 1, l2 as i32 - 1, 3, w2 + 1), pts: vec![] }
                }
            }, small),
            sub("small", 150000, || (((-3i32..6), (-3i32..6), 1u32..6, 1u32..6), ((-3i32..6), (-3i32..6), 1u32..6, 1u32..6)).prop_map(|(a, b)| Case { a, b, pts: vec![] }).boxed(), small),
            sub("wide", 600000, || {
                let c = || prop_oneof![3 => any::<i32>(), 2 => -100i32..100, 1 => Just(i32::MIN), 1 => Just(i32::MAX), 1 => (i32::MAX - 10)..=i32::MAX, 1 => i32::MIN..i32::MIN + 10];
                let l = || prop_oneof![3 => any::<u32>().prop_map(|v| v.max(1)), 2 => 1u32..100, 1 => Just(u32::MAX), 1 => (i32::MAX as u32 - 3)..=i32::MAX as u32 + 3];
                // the second is often placed relative to the first
                ((c(), c(), l(), l()), (c(), c(), l(), l()), 0u8..4, prop::collection::vec((c(), c()), 0..4)).prop_map(|(a, mut b, how, pts)| {
                    if how == 1 {
                        b.0 = a.0.saturating_add_unsigned(a.2).saturating_sub(b.0.rem_euclid(3));
                    } else if how == 2 {
                        b.1 = a.1.saturating_add_unsigned(a.3).saturating_sub(b.1.rem_euclid(3));
                    }
                    Case { a, b, pts }
                }).boxed()
            }, wide),
            sub("floats", 300000, || ((-1000i32..1000, -1000i32..1000, 1u32..50, 1u32..50), -2f32..52.0, -2f32..52.0, prop_oneof![Just(0.0f32), Just(0.5), Just(1e-3), Just(-1e-3)]).prop_map(|(a, x, y, e)| {
                let (x, y) = if e == 0.5 { (x, y) } else { (x.round() + e, y.round()) };
                Float { a, x: a.0 as f32 + x, y: a.1 as f32 + y }
            }).boxed(), float),
            sub("empty", 1000, || (any::<i32>(), any::<i32>(), any::<u32>(), any::<u32>()).boxed(), empty),
        ],
    }
}
