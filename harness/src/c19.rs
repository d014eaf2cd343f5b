//! C19: contours trace every border of every component, with the right nesting.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{GrayImage, Luma};
use imageproc::contours::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashMap};

type P2 = (i64, i64);
/// Regions of the image padded with one ring of background: label per pixel; 8-connected foreground, 4-connected background.
struct Regions {
    w: i64,
    h: i64,
    label: Vec<usize>,
    fg: Vec<bool>,
    /// the region enclosing each region (the padded frame's region, 0, has none)
    parent: Vec<Option<usize>>,
}
impl Regions {
    fn at(&self, p: P2) -> usize {
        self.label[((p.1 + 1) * self.w + p.0 + 1) as usize]
    }
    fn new(im: &Im<u8>, t: u8) -> Regions {
        let (w, h) = (im.w as i64 + 2, im.h as i64 + 2);
        let on = |x: i64, y: i64| x >= 1 && y >= 1 && x < w - 1 && y < h - 1 && im.at(x as u32 - 1, y as u32 - 1) > t;
        let mut label = vec![usize::MAX; (w * h) as usize];
        let mut fg = vec![];
        for i in 0..w * h {
            if label[i as usize] != usize::MAX {
                continue;
            }
            let n = fg.len();
            let f = on(i % w, i / w);
            fg.push(f);
            label[i as usize] = n;
            let mut todo = vec![i];
            while let Some(p) = todo.pop() {
                let (x, y) = (p % w, p / w);
                for dy in -1..2 {
                    for dx in -1..2 {
                        let (a, b) = (x + dx, y + dy);
                        if (!f && dx != 0 && dy != 0) || a < 0 || b < 0 || a >= w || b >= h {
                            continue;
                        }
                        let q = (b * w + a) as usize;
                        if label[q] == usize::MAX && on(a, b) == f {
                            label[q] = n;
                            todo.push(q as i64);
                        }
                    }
                }
            }
        }
        // adjacency tree, rooted at the frame
        let mut adj = vec![BTreeSet::new(); fg.len()];
        for y in 0..h {
            for x in 0..w {
                for (a, b) in [(x + 1, y), (x, y + 1)] {
                    if a < w && b < h {
                        let (p, q) = (label[(y * w + x) as usize], label[(b * w + a) as usize]);
                        if p != q {
                            adj[p].insert(q);
                            adj[q].insert(p);
                        }
                    }
                }
            }
        }
        let mut parent = vec![None; fg.len()];
        let mut seen = BTreeSet::from([0]);
        let mut todo = vec![0];
        while let Some(p) = todo.pop() {
            for q in &adj[p] {
                if seen.insert(*q) {
                    parent[*q] = Some(p);
                    todo.push(*q);
                }
            }
        }
        Regions { w, h, label, fg, parent }
    }
    /// For each component c and background region r: the pixels of c that are 4-adjacent to r.
    fn borders(&self) -> HashMap<(usize, usize), BTreeSet<P2>> {
        let mut m: HashMap<(usize, usize), BTreeSet<P2>> = HashMap::new();
        for y in 0..self.h {
            for x in 0..self.w {
                let c = self.label[(y * self.w + x) as usize];
                if self.fg[c] {
                    for r in self.around((x - 1, y - 1)) {
                        m.entry((c, r)).or_default().insert((x - 1, y - 1));
                    }
                }
            }
        }
        m
    }
    /// Background regions 4-adjacent to a foreground pixel.
    fn around(&self, p: P2) -> Vec<usize> {
        let (x, y) = p;
        [(x + 1, y), (x - 1, y), (x, y + 1), (x, y - 1)].iter().map(|q| self.at(*q)).filter(|r| !self.fg[*r]).collect()
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    im: Im<u8>,
    t: u8,
}
fn check_contours(im: &Im<u8>, t: u8, cs: &[(Vec<P2>, BorderType, Option<usize>)]) -> R {
    let rg = Regions::new(im, t);
    let borders = rg.borders();
    let mut index: HashMap<(usize, usize), usize> = HashMap::new();
    let mut which: Vec<(usize, usize)> = vec![]; // (component, background region) of each contour
    for (i, (pts, ty, _)) in cs.iter().enumerate() {
        ensure!(!pts.is_empty(), "contour {i} is empty");
        for p in pts {
            ensure!(p.0 >= 0 && p.1 >= 0 && p.0 < im.w as i64 && p.1 < im.h as i64 && im.at(p.0 as u32, p.1 as u32) > t, "contour {i}: {p:?} is not a foreground pixel");
        }
        let c = rg.at(pts[0]);
        for k in 0..pts.len() {
            let (a, b) = (pts[k], pts[(k + 1) % pts.len()]);
            ensure!(pts.len() == 1 || ((a.0 - b.0).abs().max((a.1 - b.1).abs()) == 1), "contour {i}: {a:?} and {b:?} are not neighbours");
            ensure!(rg.at(a) == c, "contour {i} leaves its component");
        }
        let set: BTreeSet<P2> = pts.iter().copied().collect();
        let cands: Vec<usize> = match ty {
            BorderType::Outer => vec![rg.parent[c].unwrap()],
            BorderType::Hole => rg.around(pts[0]).into_iter().filter(|r| rg.parent[*r] == Some(c)).collect(),
        };
        let r = cands.iter().copied().find(|r| borders.get(&(c, *r)) == Some(&set));
        let r = match r {
            Some(r) => r,
            None => return Err(format!("contour {i} ({ty:?}) with points {pts:?} is not the border of its component with {}: expected one of {:?}", if *ty == BorderType::Outer { "the surrounding background" } else { "a hole" }, cands.iter().map(|r| borders.get(&(c, *r))).collect::<Vec<_>>()).into()),
        };
        ensure!(index.insert((c, r), i).is_none(), "contour {i} repeats a border");
        which.push((c, r));
    }
    let nc = rg.fg.iter().filter(|f| **f).count();
    let nh = rg.fg.iter().filter(|f| !**f).count() - 1;
    let no = cs.iter().filter(|c| c.1 == BorderType::Outer).count();
    ensure!(no == nc, "{no} outer borders for {nc} components");
    ensure!(cs.len() - no == nh, "{} hole borders for {nh} holes", cs.len() - no);
    for (i, (_, ty, par)) in cs.iter().enumerate() {
        let (c, r) = which[i];
        let want = match ty {
            // the hole border of the region around the component, if that is not the outside
            BorderType::Outer => rg.parent[r].map(|p| (p, r)),
            // the outer border of the component around the hole
            BorderType::Hole => Some((c, rg.parent[c].unwrap())),
        };
        let want = want.map(|w| index[&w]);
        ensure!(*par == want, "contour {i} ({ty:?}): parent is {par:?}, want {want:?}");
    }
    let depth = cs.iter().filter(|c| c.2.is_some()).count();
    lab(cs.len() > 1, if nh == 0 { "no holes" } else if depth > nh { "nested" } else { "holes" })
}
fn contours(c: &Case) -> R {
    let g: GrayImage = c.im.luma();
    let cs: Vec<(Vec<P2>, BorderType, Option<usize>)> = find_contours_with_threshold::<i32>(&g, c.t)
        .into_iter()
        .map(|c| (c.points.iter().map(|p| (p.x as i64, p.y as i64)).collect(), c.border_type, c.parent))
        .collect();
    let r = check_contours(&c.im, c.t, &cs)?;
    // other point types, and the default threshold
    macro_rules! other {
        ($t:ty) => {{
            let other: Vec<(Vec<P2>, BorderType, Option<usize>)> = find_contours_with_threshold::<$t>(&g, c.t)
                .into_iter()
                .map(|c| (c.points.iter().map(|p| (p.x as i64, p.y as i64)).collect(), c.border_type, c.parent))
                .collect();
            ensure!(other == cs, "{} and i32 contours differ", stringify!($t));
        }};
    }
    if c.im.w <= 256 && c.im.h <= 256 {
        other!(u8);
    } else if c.im.w <= 65536 && c.im.h <= 65536 {
        other!(u16);
    } else {
        other!(u64);
    }
    let bin = GrayImage::from_fn(c.im.w, c.im.h, |x, y| Luma([(c.im.at(x, y) > c.t) as u8]));
    let z: Vec<(Vec<P2>, BorderType, Option<usize>)> = find_contours::<u32>(&bin)
        .into_iter()
        .map(|c| (c.points.iter().map(|p| (p.x as i64, p.y as i64)).collect(), c.border_type, c.parent))
        .collect();
    ensure!(z == cs, "find_contours of the binarised image differs");
    Ok(r)
}
/// Nested frames and islands.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nest {
    w: u32,
    h: u32,
    /// rectangles drawn on top of each other: x, y, w, h, value
    rects: Vec<(u32, u32, u32, u32, bool)>,
}
fn nested(c: &Nest) -> R {
    let mut d = vec![0u8; (c.w * c.h) as usize];
    for r in &c.rects {
        for y in r.1..(r.1 + r.3).min(c.h) {
            for x in r.0..(r.0 + r.2).min(c.w) {
                d[(y * c.w + x) as usize] = if r.4 { 255 } else { 0 };
            }
        }
    }
    contours(&Case { im: Im { w: c.w, h: c.h, d }, t: 0 })
}

/// Tens of thousands of borders: rings with or without a dot inside, side by side, in a random arrangement; sometimes
/// all in the hole of one frame.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tiles {
    nx: u32,
    ny: u32,
    seed: u64,
    frame: bool,
}
fn tiles(c: &Tiles) -> R {
    let (w, h) = (c.nx * 4 + 3, c.ny * 4 + 3);
    let mut d = vec![0u8; (w * h) as usize];
    let mut r = lcg(c.seed);
    for ty in 0..c.ny {
        for tx in 0..c.nx {
            // 3x3: a ring (mostly), a dot, a full square, a notched ring
            let k = r(16);
            for y in 0..3 {
                for x in 0..3 {
                    let mid = (x, y) == (1, 1);
                    let on = match k {
                        0 => mid,
                        1 => true,
                        2 => !mid && (x, y) != (2, 1),
                        _ => !mid,
                    };
                    if on {
                        d[((ty * 4 + y + 2) * w + tx * 4 + x + 2) as usize] = 255;
                    }
                }
            }
        }
    }
    if c.frame {
        for x in 0..w {
            d[x as usize] = 255;
            d[((h - 1) * w + x) as usize] = 255;
        }
        for y in 0..h {
            d[(y * w) as usize] = 255;
            d[(y * w + w - 1) as usize] = 255;
        }
    }
    contours(&Case { im: Im { w, h, d }, t: 0 })
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "Random images (noise of all densities, blocks, gray levels with thresholds, shrinking nested rectangles), components touching every edge, against region labelling with an adjacency tree; non-trivial: at least two borders.",
        assumptions: &["coordinates fit the point type"],
        subs: vec![
            sub("noise", 800000, || (prop_oneof![4 => im_bin(side0(14), side0(14)), 1 => im_u8(side0(10), side0(10), 1)], prop_oneof![2 => Just(0u8), 1 => any::<u8>()]).prop_map(|(im, t)| Case { im, t }).boxed(), contours),
            sub("nested", 500000, || (4u32..24, 4u32..24).prop_flat_map(|(w, h)| {
                let free = (0..w, 0..h, 1..w, 1..h, any::<bool>());
                let conc = (0..w / 2, 0..h / 2, any::<bool>()).prop_map(move |(x, y, v)| (x, y, w - 2 * x, h - 2 * y, v));
                // alternating rings, each one pixel or more inside the previous one, with some noise on top
                let rings = prop::collection::vec((1u32..3, 1u32..3, 1u32..3, 1u32..3), 1..6).prop_map(move |v| {
                    let (mut x, mut y, mut a, mut b) = (0, 0, w, h);
                    let mut out = vec![];
                    for (i, m) in v.iter().enumerate() {
                        out.push((x, y, a, b, i % 2 == 0));
                        if a <= m.0 + m.1 || b <= m.2 + m.3 { break; }
                        (x, y, a, b) = (x + m.0, y + m.2, a - m.0 - m.1, b - m.2 - m.3);
                    }
                    out
                });
                let dots = prop::collection::vec((0..w, 0..h, any::<bool>()).prop_map(|(x, y, v)| (x, y, 1, 1, v)), 0..10);
                let r = prop_oneof![prop::collection::vec(prop_oneof![free, conc], 1..8), (rings, dots).prop_map(|(mut r, d)| { r.extend(d); r })];
                (Just(w), Just(h), r)
            }).prop_map(|(w, h, mut rects)| { rects.sort_by_key(|r| std::cmp::Reverse(r.2 * r.3)); Nest { w, h, rects } }).boxed(), nested),
            sub("strips", 1000, || (strip(1), prop_oneof![2 => Just(0u8), 1 => any::<u8>()]).prop_map(|(im, t)| Case { im, t }).boxed(), contours),
            sub("planes", 10, || (plane(1), prop_oneof![2 => Just(0u8), 1 => any::<u8>()]).prop_map(|(im, t)| Case { im, t }).boxed(), contours),
            sub("many borders", 12, || (130u32..205, 130u32..205, any::<u64>(), any::<bool>()).prop_map(|(nx, ny, seed, frame)| Tiles { nx, ny, seed, frame }).boxed(), tiles),
        ],
    }
}
