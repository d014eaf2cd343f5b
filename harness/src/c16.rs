//! C16: binary morphology is thresholded distance, with the lattice laws.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{GrayImage, Luma};
use imageproc::distance_transform::Norm;
use imageproc::morphology::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn norm(n: u8) -> Norm {
    [Norm::L1, Norm::L2, Norm::LInf][n as usize % 3]
}
/// Distance as the library defines it (L2 rounded up).
fn dist(n: u8, dx: i64, dy: i64) -> i64 {
    let (dx, dy) = (dx.abs(), dy.abs());
    match n % 3 {
        0 => dx + dy,
        2 => dx.max(dy),
        _ => {
            let d = dx * dx + dy * dy;
            let mut c = (d as f64).sqrt() as i64;
            while c * c < d {
                c += 1;
            }
            while c > 0 && (c - 1) * (c - 1) >= d {
                c -= 1;
            }
            c
        }
    }
}
fn dil(f: &[bool], w: u32, h: u32, n: u8, k: i64) -> Vec<bool> {
    let mut out = vec![false; f.len()];
    let pts: Vec<(i64, i64)> = (0..f.len()).filter(|i| f[*i]).map(|i| (i as i64 % w as i64, i as i64 / w as i64)).collect();
    for y in 0..h as i64 {
        for x in 0..w as i64 {
            out[(y * w as i64 + x) as usize] = pts.iter().any(|p| dist(n, p.0 - x, p.1 - y) <= k);
        }
    }
    out
}
fn ero(f: &[bool], w: u32, h: u32, n: u8, k: i64) -> Vec<bool> {
    let g: Vec<bool> = f.iter().map(|b| !b).collect();
    dil(&g, w, h, n, k).into_iter().map(|b| !b).collect()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    im: Im<u8>,
    n: u8,
    k: u8,
}
fn eq(what: &str, g: &GrayImage, want: &[bool], w: u32) -> Result<(), Fail> {
    for (i, (a, b)) in g.as_raw().iter().zip(want).enumerate() {
        let e = if *b { 255 } else { 0 };
        ensure!(*a == e, "{what}: pixel ({},{}) is {a}, want {e}", i as u32 % w.max(1), i as u32 / w.max(1));
    }
    Ok(())
}
fn reference(c: &Case) -> R {
    let (w, h, n, k) = (c.im.w, c.im.h, c.n, c.k as i64);
    let g: GrayImage = c.im.luma();
    let f: Vec<bool> = c.im.d.iter().map(|v| *v > 0).collect();
    let (d, e) = (dil(&f, w, h, n, k), ero(&f, w, h, n, k));
    let nm = norm(n);
    let what = |s: &str| format!("{s} {nm:?} {k}");
    let all = [dilate(&g, nm, c.k), erode(&g, nm, c.k), open(&g, nm, c.k), close(&g, nm, c.k)];
    for i in &all {
        ensure!(i.dimensions() == (w, h), "dimensions {:?}", i.dimensions());
    }
    eq(&what("dilate"), &all[0], &d, w)?;
    eq(&what("erode"), &all[1], &e, w)?;
    eq(&what("open"), &all[2], &dil(&e, w, h, n, k), w)?;
    eq(&what("close"), &all[3], &ero(&d, w, h, n, k), w)?;
    let mut m = [g.clone(), g.clone(), g.clone(), g.clone()];
    dilate_mut(&mut m[0], nm, c.k);
    erode_mut(&mut m[1], nm, c.k);
    open_mut(&mut m[2], nm, c.k);
    close_mut(&mut m[3], nm, c.k);
    for (i, s) in ["dilate_mut", "erode_mut", "open_mut", "close_mut"].iter().enumerate() {
        ensure!(m[i] == all[i], "{s} {nm:?} {k} differs from the out-of-place function");
    }
    lab(d != f && e != f && k > 0, ["L1", "L2", "LInf"][n as usize % 3])
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Laws {
    a: Im<u8>,
    /// removed from a to get a subset
    keep: Vec<bool>,
    n: u8,
    k: u8,
    j: u8,
}
fn le(a: &GrayImage, b: &GrayImage) -> bool {
    a.as_raw().iter().zip(b.as_raw()).all(|(x, y)| (*x > 0) <= (*y > 0))
}
/// The algebraic laws, directly on the library's results.
fn laws(c: &Laws) -> R {
    let (n, k) = (norm(c.n), c.k);
    let a: GrayImage = c.a.luma();
    let b: GrayImage = GrayImage::from_fn(c.a.w, c.a.h, |x, y| {
        let i = (y * c.a.w + x) as usize;
        Luma([if c.keep[i % c.keep.len()] { c.a.d[i] } else { 0 }])
    });
    let not = |g: &GrayImage| GrayImage::from_fn(g.width(), g.height(), |x, y| Luma([if g.get_pixel(x, y)[0] > 0 { 0 } else { 255 }]));
    ensure!(le(&dilate(&b, n, k), &dilate(&a, n, k)), "dilate {n:?} {k} is not monotone");
    ensure!(le(&erode(&b, n, k), &erode(&a, n, k)), "erode {n:?} {k} is not monotone");
    ensure!(erode(&a, n, k) == not(&dilate(&not(&a), n, k)), "erode {n:?} {k} is not the dual of dilate");
    ensure!(le(&erode(&a, n, k), &a) && le(&a, &dilate(&a, n, k)), "erode <= id <= dilate fails for {n:?} {k}");
    let (o, cl) = (open(&a, n, k), close(&a, n, k));
    ensure!(le(&o, &a), "open {n:?} {k} is not anti-extensive");
    ensure!(le(&a, &cl), "close {n:?} {k} is not extensive");
    ensure!(open(&o, n, k) == o, "open {n:?} {k} is not idempotent");
    ensure!(close(&cl, n, k) == cl, "close {n:?} {k} is not idempotent");
    ensure!(le(&open(&b, n, k), &o) && le(&close(&b, n, k), &cl), "open or close {n:?} {k} is not monotone");
    if c.n % 3 != 1 {
        // discrete L1 and LInf balls add up
        let kj = k + c.j;
        ensure!(dilate(&dilate(&a, n, k), n, c.j) == dilate(&a, n, kj), "dilate {n:?}: {k} then {} is not {kj}", c.j);
        ensure!(erode(&erode(&a, n, k), n, c.j) == erode(&a, n, kj), "erode {n:?}: {k} then {} is not {kj}", c.j);
    }
    nt(c.a.varied() && k > 0)
}
/// Radius 255 and images larger than 255: distances saturate at 255.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wide {
    w: u32,
    tall: bool,
    pts: Vec<u32>,
    n: u8,
    k: u8,
    inv: bool,
}
fn wide(c: &Wide) -> R {
    let (w, h) = if c.tall { (2, c.w) } else { (c.w, 2) };
    let mut f = vec![c.inv; (w * h) as usize];
    for p in &c.pts {
        f[(p % (w * h)) as usize] = !c.inv;
    }
    let g = GrayImage::from_fn(w, h, |x, y| Luma([if f[(y * w + x) as usize] { 200 } else { 0 }]));
    let k = c.k as i64;
    let (got, want, sat) = if c.inv {
        let sat = if c.k == 255 { vec![false; f.len()] } else { vec![] };
        (erode(&g, norm(c.n), c.k), ero(&f, w, h, c.n, k), sat)
    } else {
        let sat = if c.k == 255 { vec![true; f.len()] } else { vec![] };
        (dilate(&g, norm(c.n), c.k), dil(&f, w, h, c.n, k), sat)
    };
    if let Err(e) = eq(&format!("{} {:?} {k}", if c.inv { "erode" } else { "dilate" }, norm(c.n)), &got, &want, w) {
        if c.k == 255 && eq("", &got, &sat, w).is_ok() {
            return Err(Fail { msg: e.msg, sig: Some("radius 255 treats saturated distances as within the radius".into()) });
        }
        return Err(e);
    }
    lab(want.iter().any(|b| *b) && !want.iter().all(|b| *b), if c.k == 255 { "k = 255" } else { "k < 255" })
}

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "Random images (noise of all densities, blocks, gray levels), norms and radii against brute force; lattice laws between the library's own results (monotone, dual, extensive, idempotent, additive radii); narrow images longer than 255 with large radii; non-trivial: both dilation and erosion change the image.",
        assumptions: &["radius 255 is a known finding where distances saturate"],
        subs: vec![
            sub("reference", 200000, || (prop_oneof![4 => im_bin(side0(14), side0(14)), 1 => im_u8(side0(12), side0(12), 1)], 0u8..3, prop_oneof![8 => 0u8..6, 1 => 6u8..40, 1 => 200u8..255]).prop_map(|(im, n, k)| Case { im, n, k }).boxed(), reference),
            sub("laws", 100000, || (prop_oneof![4 => im_bin(s(20), s(20)), 1 => im_u8(s(16), s(16), 1)], prop::collection::vec(any::<bool>(), 1..40), 0u8..3, 0u8..8, 0u8..5).prop_map(|(a, keep, n, k, j)| Laws { a, keep, n, k, j }).boxed(), laws),
            sub("long", 60, || (far_side(), any::<bool>(), prop::collection::vec(any::<u32>(), 1..4), 0u8..3, prop_oneof![1u8..255, 1u8..5], any::<bool>()).prop_map(|(w, tall, pts, n, k, inv)| Wide { w, tall, pts, n, k, inv }).boxed(), wide),
            sub("wide", 8000, || (prop_oneof![1u32..20, 200u32..600], any::<bool>(), prop::collection::vec(any::<u32>(), 0..4), 0u8..3, prop_oneof![3 => 0u8..255, 2 => 250u8..=255, 1 => Just(255u8)], any::<bool>()).prop_map(|(w, tall, pts, n, k, inv)| Wide { w, tall, pts, n, k, inv }).boxed(), wide),
        ],
    }
}
