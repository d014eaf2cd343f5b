//! C18: connected components are the connectivity classes; the disjoint-set forest is a partition.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{GenericImage, Luma, Rgb};
use imageproc::definitions::Image;
use imageproc::region_labelling::*;
use imageproc::union_find::DisjointSetForest;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    im: Im<u8>,
    eight: bool,
    bg: u8,
}
/// Components in row-major order of their first pixel, by breadth-first search.
fn reference(im: &Im<u8>, eight: bool, bg: u8) -> Vec<u32> {
    let (w, h) = (im.w as i64, im.h as i64);
    let mut l = vec![0u32; im.d.len()];
    let mut n = 0;
    for i in 0..im.d.len() {
        if im.d[i] == bg || l[i] != 0 {
            continue;
        }
        n += 1;
        l[i] = n;
        let mut todo = vec![i as i64];
        while let Some(p) = todo.pop() {
            let (x, y) = (p % w, p / w);
            for dy in -1..2i64 {
                for dx in -1..2i64 {
                    if !eight && dx != 0 && dy != 0 {
                        continue;
                    }
                    let (a, b) = (x + dx, y + dy);
                    if a < 0 || b < 0 || a >= w || b >= h {
                        continue;
                    }
                    let q = (b * w + a) as usize;
                    if l[q] == 0 && im.d[q] == im.d[i] {
                        l[q] = n;
                        todo.push(q as i64);
                    }
                }
            }
        }
    }
    l
}
fn same_partition(got: &Image<Luma<u32>>, want: &[u32], w: u32) -> Result<u32, Fail> {
    let mut fwd: BTreeMap<u32, u32> = BTreeMap::new();
    let mut back: BTreeMap<u32, u32> = BTreeMap::new();
    for (i, (g, e)) in got.as_raw().iter().zip(want).enumerate() {
        let at = (i as u32 % w, i as u32 / w);
        ensure!((*g == 0) == (*e == 0), "label {g} at {at:?}, a {} pixel", if *e == 0 { "background" } else { "foreground" });
        let f = *fwd.entry(*e).or_insert(*g);
        ensure!(f == *g, "one component has labels {f} and {g} (at {at:?})");
        let b = *back.entry(*g).or_insert(*e);
        ensure!(b == *e, "label {g} is used for two components (again at {at:?})");
    }
    let n = want.iter().max().copied().unwrap_or(0);
    let mut ls: Vec<u32> = back.keys().copied().filter(|l| *l != 0).collect();
    ls.sort();
    ensure!(ls == (1..=n).collect::<Vec<_>>(), "labels used are {ls:?}, want 1..={n}");
    Ok(n)
}
fn conn(e: bool) -> Connectivity {
    if e { Connectivity::Eight } else { Connectivity::Four }
}
fn luma(c: &Case) -> R {
    let im: Image<Luma<u8>> = c.im.luma();
    let got = connected_components(&im, conn(c.eight), Luma([c.bg]));
    ensure!(got.dimensions() == im.dimensions(), "dimensions");
    let want = reference(&c.im, c.eight, c.bg);
    let n = same_partition(&got, &want, c.im.w.max(1))?;
    lab(n > 1, if n == 0 { "none" } else if n == 1 { "one" } else if n < 6 { "few" } else { "many" })
}
/// Colours differing in one channel, through a GenericImage view.
fn view(c: &Case) -> R {
    let col = |v: u8| Rgb([3, v, 200]);
    let mut base: Image<Rgb<u8>> = Image::from_fn(c.im.w + 3, c.im.h + 2, |x, y| {
        if x > 0 && y > 0 && x - 1 < c.im.w && y - 1 < c.im.h { col(c.im.at(x - 1, y - 1)) } else { col(c.bg.wrapping_add(1)) }
    });
    let v = base.sub_image(1, 1, c.im.w, c.im.h);
    let got = connected_components(&*v, conn(c.eight), col(c.bg));
    let n = same_partition(&got, &reference(&c.im, c.eight, c.bg), c.im.w.max(1))?;
    lab(n > 1, if n > 5 { "many" } else { "few" })
}
/// Spirals and combs: provisional labels merge late.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shape {
    w: u32,
    h: u32,
    kind: u8,
    gap: u32,
    flips: Vec<(u32, u32)>,
    eight: bool,
}
fn shapes(c: &Shape) -> R {
    let (w, h) = (c.w, c.h);
    let mut d = vec![0u8; (w * h) as usize];
    for y in 0..h {
        for x in 0..w {
            let ring = x.min(y).min(w - 1 - x).min(h - 1 - y);
            let on = match c.kind {
                0 => x % (c.gap + 1) == 0 || y == h - 1,
                1 => x % (c.gap + 1) == 0 || y == 0,
                2 => ring % (c.gap + 1) == 0,
                3 => ring % (c.gap + 1) == 0 || (x == y && x % 3 == 0),
                4 => (x + y) % (c.gap + 1) == 0,
                _ => (x / (c.gap + 1) + y / (c.gap + 1)) % 2 == 0,
            };
            d[(y * w + x) as usize] = on as u8;
        }
    }
    for f in &c.flips {
        let i = ((f.1 % h) * w + f.0 % w) as usize;
        d[i] = 1 - d[i];
    }
    luma(&Case { im: Im { w, h, d }, eight: c.eight, bg: 0 })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Union(u16, u16),
    Find(u16, u16),
    Root(u16),
    Trees,
    Num,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    n: u16,
    ops: Vec<Op>,
}
/// Histories of union/find operations against a naive partition.
fn union_find(c: &Hist) -> R {
    let n = c.n as usize;
    let mut f = DisjointSetForest::new(n);
    let mut cls: Vec<usize> = (0..n).collect();
    let mut unions = 0;
    let ix = |v: u16| v as usize % n.max(1);
    let num = |c: &Vec<usize>| { let mut s = c.clone(); s.sort(); s.dedup(); s.len() };
    for (step, op) in c.ops.iter().enumerate() {
        match op {
            _ if n == 0 && !matches!(op, Op::Trees | Op::Num) => {}
            Op::Union(a, b) => {
                let (a, b) = (ix(*a), ix(*b));
                f.union(a, b);
                let (p, q) = (cls[a], cls[b]);
                unions += (p != q) as u32;
                cls.iter_mut().for_each(|c| if *c == q { *c = p });
            }
            Op::Find(a, b) => {
                let (a, b) = (ix(*a), ix(*b));
                let (g, w) = (f.find(a, b), cls[a] == cls[b]);
                ensure!(g == w, "step {step}: find({a}, {b}) is {g}");
            }
            Op::Root(a) => {
                let a = ix(*a);
                let r = f.root(a);
                ensure!(r < n && cls[r] == cls[a], "step {step}: root({a}) = {r} is in another tree");
                ensure!(f.root(r) == r, "step {step}: root({a}) = {r} is not its own root");
            }
            Op::Trees => {
                let mut t = f.trees();
                t.iter_mut().for_each(|s| s.sort());
                t.sort();
                let mut m: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
                for i in 0..n {
                    m.entry(cls[i]).or_default().push(i);
                }
                let mut w: Vec<Vec<usize>> = m.into_values().collect();
                w.sort();
                ensure!(t == w, "step {step}: trees() = {t:?}, want {w:?}");
            }
            Op::Num => {
                let (g, w) = (f.num_trees(), num(&cls));
                ensure!(g == w, "step {step}: num_trees() = {g}, want {w}");
            }
        }
    }
    for i in 0..n {
        for j in 0..n {
            ensure!(f.find(i, j) == (cls[i] == cls[j]), "finally: find({i}, {j})");
            ensure!((f.root(i) == f.root(j)) == (cls[i] == cls[j]), "finally: roots of {i} and {j}");
        }
    }
    ensure!(f.num_trees() == num(&cls), "finally: num_trees");
    lab(unions > 2, if unions as usize + 1 >= n { "all joined" } else { "partial" })
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "Random images (binary of all densities, blocks, few and many values), any background value, both connectivities, views of larger images, combs/rings/diagonals with random flips, against breadth-first labelling; random union/find/root/trees histories against a naive partition; non-trivial: at least two components, respectively three effective unions.",
        assumptions: &["labels may be assigned to components in any order"],
        subs: vec![
            sub("luma", 400000, || (prop_oneof![3 => im_bin(side0(14), side0(14)), 2 => im_of(side0(12), side0(12), 1, (0u8..3).boxed()), 1 => im_u8(side0(8), side0(8), 1)], any::<bool>(), prop_oneof![4 => Just(0u8), 1 => Just(255u8), 1 => 0u8..3, 1 => any::<u8>()]).prop_map(|(im, eight, bg)| Case { im, eight, bg }).boxed(), luma),
            sub("view", 100000, || (prop_oneof![im_bin(s(12), s(12)), im_of(s(12), s(12), 1, (0u8..3).boxed())], any::<bool>(), prop_oneof![Just(0u8), 0u8..3, Just(255u8)]).prop_map(|(im, eight, bg)| Case { im, eight, bg }).boxed(), view),
            sub("shapes", 60000, || (1u32..50, 1u32..40, 0u8..6, 1u32..4, prop::collection::vec((0u32..50, 0u32..50), 0..20), any::<bool>()).prop_map(|(w, h, kind, gap, flips, eight)| Shape { w, h, kind, gap, flips, eight }).boxed(), shapes),
            sub("union_find", 60000, || {
                let i = || any::<u16>();
                let op = prop_oneof![5 => (i(), i()).prop_map(|(a, b)| Op::Union(a, b)), 4 => (i(), i()).prop_map(|(a, b)| Op::Find(a, b)), 2 => i().prop_map(Op::Root), 1 => Just(Op::Trees), 1 => Just(Op::Num)];
                (0u16..30, prop::collection::vec(op, 0..60)).prop_map(|(n, ops)| Hist { n, ops }).boxed()
            }, union_find),
            sub("long histories", 60, || (200u16..700, 100usize..3000, any::<u64>()).prop_map(|(n, m, seed)| {
                let mut k = lcg(seed);
                let ops = (0..m).map(|i| { let (a, b) = (k(1 << 16) as u16, k(1 << 16) as u16); match k(12) { 0..=4 => Op::Union(a, b), 5..=8 => Op::Find(a, b), 9 | 10 => Op::Root(a), _ if i % 50 == 0 => Op::Trees, _ => Op::Num } }).collect();
                Hist { n, ops }
            }).boxed(), union_find),
            sub("large", 60, || (prop_oneof![1 => strip(1), 1 => plane(1)], any::<bool>(), prop_oneof![3 => Just(0u8), 1 => any::<u8>()]).prop_map(|(im, eight, bg)| Case { im, eight, bg }).boxed(), luma),
            sub("many labels", 20, || (380u32..420, 380u32..420, any::<u64>(), any::<bool>()).prop_map(|(w, h, seed, eight)| {
                // more than 65536 components, which a later part of the image may join
                let d = (0..w * h).map(|i| { let (x, y) = (i % w, i / w); if (x + y) % 2 == 0 || (y > h - 4 && (seed >> (x % 61)) & 1 == 0) { 255 } else { 0 } }).collect();
                Case { im: Im { w, h, d }, eight, bg: 0 }
            }).boxed(), luma),
        ],
    }
}
