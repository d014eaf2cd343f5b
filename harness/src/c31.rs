//! C31: HOG cells, blocks, option validation and rendering.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{GrayImage, Luma};
use imageproc::hog::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Opt {
    o: usize,
    signed: bool,
    cell: usize,
    block: usize,
    stride: usize,
}
impl Opt {
    fn hog(&self) -> HogOptions {
        HogOptions::new(self.o, self.signed, self.cell, self.block, self.stride)
    }
}
/// Cell histograms in f64: [cy][cx][orientation].
fn cells(im: &Im<u8>, o: &Opt) -> Vec<Vec<Vec<f64>>> {
    let (cw, ch) = (im.w as usize / o.cell, im.h as usize / o.cell);
    let mut g = vec![vec![vec![0f64; o.o]; cw]; ch];
    let hs = reference(im, 1, &[-1f64, 0., 1., -2., 0., 2., -1., 0., 1.], 3, 3);
    let vs = reference(im, 1, &[-1f64, -2., -1., 0., 0., 0., 1., 2., 1.], 3, 3);
    let range = if o.signed { 2.0 * PI } else { PI };
    for y in 0..im.h as usize {
        for x in 0..im.w as usize {
            let (h, v) = (hs[y * im.w as usize + x], vs[y * im.w as usize + x]);
            let m = h.hypot(v);
            let pos = v.atan2(h).rem_euclid(range) / range * o.o as f64;
            let (b, wo) = (pos.floor(), pos - pos.floor());
            for (j, wy) in [(y / o.cell, 1.0 - (y % o.cell) as f64 / o.cell as f64), (y / o.cell + 1, (y % o.cell) as f64 / o.cell as f64)] {
                for (i, wx) in [(x / o.cell, 1.0 - (x % o.cell) as f64 / o.cell as f64), (x / o.cell + 1, (x % o.cell) as f64 / o.cell as f64)] {
                    if j < ch && i < cw {
                        let a = m * wx * wy / (o.cell * o.cell) as f64;
                        g[j][i][b as usize % o.o] += a * (1.0 - wo);
                        g[j][i][(b as usize + 1) % o.o] += a * wo;
                    }
                }
            }
        }
    }
    g
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    im: Im<u8>,
    o: Opt,
}
fn valid(w: u32, h: u32, o: &Opt) -> Option<(usize, usize)> {
    if o.o == 0 || o.cell == 0 || o.stride == 0 || w as usize % o.cell != 0 || h as usize % o.cell != 0 {
        return None;
    }
    let (cw, ch) = (w as usize / o.cell, h as usize / o.cell);
    if o.block > cw || o.block > ch || (cw - o.block) % o.stride != 0 || (ch - o.block) % o.stride != 0 {
        return None;
    }
    Some(((cw - o.block) / o.stride + 1, (ch - o.block) / o.stride + 1))
}
fn descriptor(c: &Case) -> R {
    let o = &c.o;
    let Some((bw, bh)) = valid(c.im.w, c.im.h, o) else { return nt(false) };
    let got = hog(&c.im.luma(), o.hog());
    let Ok(got) = got else { return Err(Fail::from(format!("valid options {o:?} for {}x{} are rejected: {got:?}", c.im.w, c.im.h))) };
    let g = cells(&c.im, o);
    let mut want = vec![];
    let mut blank = false;
    for by in 0..bh {
        for bx in 0..bw {
            let mut blk = vec![];
            for j in 0..o.block {
                for i in 0..o.block {
                    blk.extend_from_slice(&g[by * o.stride + j][bx * o.stride + i]);
                }
            }
            let n = blk.iter().map(|v| v * v).sum::<f64>().sqrt();
            blank |= n == 0.0;
            want.extend(blk.iter().map(|v| if n > 0.0 { v / n } else { 0.0 }));
        }
    }
    ensure!(got.len() == want.len(), "descriptor has {} values for {o:?}, want {}", got.len(), want.len());
    match HogSpec::from_options(c.im.w, c.im.h, o.hog()) {
        Ok(s) => ensure!(s.descriptor_length() == want.len(), "descriptor_length {} want {}", s.descriptor_length(), want.len()),
        Err(e) => return Err(Fail::from(format!("from_options: {e}"))),
    }
    for (i, (a, b)) in got.iter().zip(&want).enumerate() {
        ensure!((*a as f64 - b).abs() < 2e-3, "descriptor value {i} is {a}, want {b} ({o:?}, {:?})", c.im);
    }
    lab(want.iter().any(|v| *v > 0.0), if blank { "with an empty block" } else { "" })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Options {
    w: u32,
    h: u32,
    o: Opt,
}
fn options(c: &Options) -> R {
    let want = valid(c.w, c.h, &c.o);
    let got = no_panic(|| HogSpec::from_options(c.w, c.h, c.o.hog()));
    let spec = match got {
        Ok(g) => g,
        Err(e) => return Err(Fail::from(format!("HogSpec::from_options({}, {}, {:?}) panics: {e}", c.w, c.h, c.o))),
    };
    ensure!(spec.is_ok() == want.is_some(), "HogSpec::from_options({}, {}, {:?}) = {spec:?}, want blocks {want:?}", c.w, c.h, c.o);
    if let (Ok(s), Some((bw, bh))) = (&spec, want) {
        let n = bw * bh * c.o.block * c.o.block * c.o.o;
        ensure!(s.descriptor_length() == n, "descriptor length {} want {n}", s.descriptor_length());
    }
    let im = GrayImage::from_fn(c.w, c.h, |x, y| Luma([(x * 50 + y * 70) as u8]));
    match no_panic(|| hog(&im, c.o.hog())) {
        Err(e) => Err(Fail::from(format!("hog of a {}x{} image with {:?} panics: {e}", c.w, c.h, c.o))),
        Ok(r) => {
            ensure!(r.is_ok() == want.is_some(), "hog gives {r:?}");
            lab(want.is_none(), if want.is_none() { "invalid" } else { "valid" })
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Render {
    im: Im<u8>,
    o: usize,
    signed: bool,
    cell: usize,
    star: u32,
}
fn render(c: &Render) -> R {
    let o = Opt { o: c.o, signed: c.signed, cell: c.cell, block: 1, stride: 1 };
    if valid(c.im.w, c.im.h, &o).is_none() {
        return nt(false);
    }
    let spec = HogSpec::from_options(c.im.w, c.im.h, o.hog()).map_err(Fail::from)?;
    let mut grid = cell_histograms(&c.im.luma(), spec);
    let got = render_hist_grid(c.star, &grid.view_mut(), c.signed);
    let g = cells(&c.im, &o);
    let (gw, gh) = (g[0].len() as u32, g.len() as u32);
    ensure!(got.dimensions() == (gw * c.star, gh * c.star), "rendering is {:?} for {gw}x{gh} cells of {}", got.dimensions(), c.star);
    let centre = (c.star / 2) as f64;
    let len = c.star as f64 / 2.0;
    let mut bright = 0;
    for cy in 0..gh {
        for cx in 0..gw {
            // rays in drawing order: direction and permitted values
            let mut rays = vec![];
            for b in 0..c.o {
                let v = g[cy as usize][cx as usize][b];
                let e = 1e-3 + v * 1e-4;
                let vals = [(v - e).clamp(0.0, 255.0) as u8, (v + e).clamp(0.0, 255.0) as u8];
                let t = if c.signed { 2.0 * PI } else { PI } * b as f64 / c.o as f64;
                rays.push((-t.sin() * len, t.cos() * len, vals));
                if !c.signed {
                    rays.push((t.sin() * len, -t.cos() * len, vals));
                }
            }
            let dist = |r: &(f64, f64, [u8; 2]), x: f64, y: f64| {
                let t = ((x * r.0 + y * r.1) / (r.0 * r.0 + r.1 * r.1)).clamp(0.0, 1.0);
                (x - t * r.0).hypot(y - t * r.1)
            };
            let px = |x: u32, y: u32| got.get_pixel(cx * c.star + x, cy * c.star + y)[0];
            let last = rays[rays.len() - 1];
            let mid = px(c.star / 2, c.star / 2);
            ensure!(c.star > 1 || last.2[0] <= mid && mid <= last.2[1], "cell ({cx},{cy}): the centre of its star is {mid}, its last bucket {:?}", last.2);
            bright += (mid > 0) as u32;
            for y in 0..c.star {
                for x in 0..c.star {
                    let v = px(x, y);
                    if v != 0 {
                        let (dx, dy) = (x as f64 - centre, y as f64 - centre);
                        ensure!(rays.iter().any(|r| r.2[0] <= v && v <= r.2[1] && dist(r, dx, dy) <= 2.2), "cell ({cx},{cy}): pixel ({x},{y}) is {v}, which no ray near it has: {rays:?}");
                    }
                }
            }
            for (i, r) in rays.iter().enumerate() {
                let major = r.0.abs().max(r.1.abs());
                for k in 0..major as u32 {
                    let (x, y) = (centre + r.0 * k as f64 / major, centre + r.1 * k as f64 / major);
                    let mut ok = false;
                    let mut inside = true;
                    for d in -3..=3 {
                        let (u, v) = if r.0.abs() > r.1.abs() { (x.round() as i64, y.round() as i64 + d) } else { (x.round() as i64 + d, y.round() as i64) };
                        if u < 0 || v < 0 || u >= c.star as i64 || v >= c.star as i64 {
                            inside = false;
                            continue;
                        }
                        let p = px(u as u32, v as u32);
                        ok |= rays[i..].iter().any(|q| q.2[0] <= p && p <= q.2[1] && dist(q, u as f64 - centre, v as f64 - centre) <= 2.2);
                    }
                    ensure!(ok || !inside, "cell ({cx},{cy}): ray {i} {r:?} is not drawn at step {k}");
                }
            }
        }
    }
    lab(bright > 0, if bright > 1 { "several stars" } else { "" })
}
fn opt() -> BoxedStrategy<Opt> {
    let b = any::<bool>;
    prop_oneof![
        12 => (prop_oneof![1usize..3, 3usize..13], b(), 1usize..6, 1usize..4, 1usize..4),
        1 => (13usize..64, b(), 1usize..4, 1usize..4, 1usize..3),
        1 => (1usize..10, b(), 6usize..20, 1usize..3, 1usize..3),
        1 => (1usize..7, b(), 1usize..3, 4usize..9, 1usize..9),
    ]
    .prop_map(|(o, signed, cell, block, stride)| Opt { o, signed, cell, block, stride }).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C31",
        rule: "Random images of a size built to fit random options: the descriptor is compared with cells, blocks and normalisation recomputed in f64 from the documented layout. Random option and size combinations, mostly unsatisfiable, against an independent validity rule. Renderings of grids (which also show unnormalised magnitudes) star by star. Non-trivial: some gradient, an invalid combination, a visible star.",
        assumptions: &["cells are anchored at their top left corner: a pixel at the corner contributes to that cell only", "zero orientations, cell side or stride are unsatisfiable; a zero block side is accepted or rejected but not generated"],
        subs: vec![
            sub("descriptor", 60000, || (opt(), 0usize..4, 0usize..4).prop_flat_map(|(o, a, b)| {
                let (w, h) = ((o.block + a * o.stride) * o.cell, (o.block + b * o.stride) * o.cell);
                im_u8(Just(w as u32).boxed(), Just(h as u32).boxed(), 1).prop_map(move |im| Case { im, o: o.clone() })
            }).boxed(), descriptor),
            // nearly flat images: blocks of which the norm is small but not zero
            sub("faint", 8000, || (opt(), 0usize..3, 0usize..3, prop_oneof![2 => Just(0usize), 1 => 6usize..24], any::<u8>()).prop_flat_map(|(mut o, a, b, cell, base)| {
                if cell > 0 { o.cell = cell }
                let (w, h) = (((o.block + a * o.stride) * o.cell) as u32, ((o.block + b * o.stride) * o.cell) as u32);
                prop::collection::vec((0..w * h, prop_oneof![4 => 1u8..3, 1 => any::<u8>()]), 1..4).prop_map(move |px| {
                    let mut d = vec![base; (w * h) as usize];
                    for (at, v) in px {
                        d[at as usize] = base.checked_add(v).unwrap_or(base - (base.min(v)));
                    }
                    Case { im: Im { w, h, d }, o: o.clone() }
                })
            }).boxed(), descriptor),
            sub("options", 150000, || {
                let small = || prop_oneof![6 => 1usize..5, 1 => Just(0usize), 1 => 5usize..20, 1 => Just(usize::MAX), 1 => Just(1usize << 32)];
                let side = || prop_oneof![1 => Just(0u32), 6 => 1u32..13, 1 => 13u32..60];
                (side(), side(), 0usize..5, any::<bool>(), prop_oneof![9 => 1usize..6, 1 => Just(usize::MAX)], prop_oneof![9 => 1usize..6, 1 => 6usize..70, 1 => Just(usize::MAX)], small()).prop_map(|(w, h, o, signed, cell, block, stride)| Options { w, h, o: Opt { o, signed, cell, block, stride } })
            }.boxed(), options),
            sub("render", 300000, || (1usize..4, 1usize..4, 1usize..5, 1usize..9, any::<bool>(), 1u32..12, any::<bool>()).prop_flat_map(|(a, b, cell, o, signed, star, dim)| {
                im_of((((a * cell) as u32)..=(a * cell) as u32).boxed(), (((b * cell) as u32)..=(b * cell) as u32).boxed(), 1, if dim { (0u8..40).boxed() } else { any::<u8>().boxed() }).prop_map(move |im| Render { im, o, signed, cell, star })
            }).boxed(), render),
            sub("large", 60, || (opt(), 5usize..40, 0usize..4, any::<bool>(), any::<u64>()).prop_map(|(o, a, b, t, seed)| {
                let (w, h) = ((o.block + a * o.stride) * o.cell, (o.block + b * o.stride) * o.cell);
                let (w, h) = if t { (w, h) } else { (h, w) };
                Case { im: Big { w: w as u32, h: h as u32, seed, levels: 255 }.im(1), o }
            }).boxed(), descriptor),
        ],
    }
}
