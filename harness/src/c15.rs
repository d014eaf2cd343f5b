//! C15: distance transforms are exact.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{GrayImage, Luma};
use imageproc::definitions::Image;
use imageproc::distance_transform::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn check(im: &Im<u8>) -> R {
    let g: GrayImage = im.luma();
    let fg: Vec<(i64, i64)> = g.enumerate_pixels().filter(|p| p.2[0] > 0).map(|p| (p.0 as i64, p.1 as i64)).collect();
    let l1 = distance_transform(&g, Norm::L1);
    let linf = distance_transform(&g, Norm::LInf);
    let l2 = distance_transform(&g, Norm::L2);
    let eu: Image<Luma<f64>> = euclidean_squared_distance_transform(&g);
    for (n, i) in [("L1", &l1), ("LInf", &linf), ("L2", &l2)] {
        ensure!(i.dimensions() == g.dimensions(), "{n}: dimensions");
    }
    ensure!(eu.dimensions() == g.dimensions(), "euclidean: dimensions");
    let mut far = 0;
    for y in 0..im.h {
        for x in 0..im.w {
            let (mut d1, mut di, mut d2) = (i64::MAX, i64::MAX, i64::MAX);
            for f in &fg {
                let (dx, dy) = ((f.0 - x as i64).abs(), (f.1 - y as i64).abs());
                d1 = d1.min(dx + dy);
                di = di.min(dx.max(dy));
                d2 = d2.min(dx * dx + dy * dy);
            }
            if fg.is_empty() {
                ensure!(eu.get_pixel(x, y)[0] == f64::INFINITY, "euclidean: {} without foreground", eu.get_pixel(x, y)[0]);
                for (n, i) in [("L1", &l1), ("LInf", &linf), ("L2", &l2)] {
                    ensure!(i.get_pixel(x, y)[0] == 255, "{n}: {} at ({x},{y}) without foreground", i.get_pixel(x, y)[0]);
                }
                continue;
            }
            far = far.max(di);
            let mut c = 0i64;
            while c * c < d2 {
                c += 1;
            }
            for (n, i, w) in [("L1", &l1, d1), ("LInf", &linf, di), ("L2", &l2, c)] {
                let g = i.get_pixel(x, y)[0] as i64;
                ensure!(g == w.min(255), "{n}: distance at ({x},{y}) is {g}, want {w}");
            }
            ensure!(eu.get_pixel(x, y)[0] == d2 as f64, "euclidean: squared distance at ({x},{y}) is {}, want {d2}", eu.get_pixel(x, y)[0]);
        }
    }
    lab(far > 1, if far > 255 { "saturating" } else if far > 10 { "far" } else { "near" })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sparse {
    w: u32,
    h: u32,
    pts: Vec<(u32, u32, u8)>,
}
fn sparse(c: &Sparse) -> R {
    let mut d = vec![0u8; (c.w * c.h) as usize];
    for p in &c.pts {
        d[((p.1 % c.h) * c.w + p.0 % c.w) as usize] = p.2;
    }
    check(&Im { w: c.w, h: c.h, d })
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "Random images (noise of all densities, blocks, arbitrary gray levels) and sparse points on larger images including sides over 255, against brute force over all foreground pixels; non-trivial: some pixel is more than one step from the foreground.",
        assumptions: &["without foreground: 255, respectively infinity"],
        subs: vec![
            sub("dense", 600000, || prop_oneof![3 => im_bin(side0(16), side0(16)), 1 => im_u8(side0(12), side0(12), 1)].boxed(), check),
            sub("sparse", 100000, || (prop_oneof![(1u32..60, 1u32..60), (1u32..4, 1u32..400), (1u32..400, 1u32..4)], prop::collection::vec((0u32..400, 0u32..400, 1u8..=255), 0..9)).prop_map(|((w, h), pts)| Sparse { w, h, pts }).boxed(), sparse),
            sub("long", 20, || (prop_oneof![(1u32..3, far_side()), (far_side(), 1u32..3)], prop::collection::vec((prop_oneof![any::<u32>(), 0u32..400], prop_oneof![any::<u32>(), 0u32..400], 1u8..=255), 1..9)).prop_map(|((w, h), pts)| Sparse { w, h, pts }).boxed(), sparse),
            sub("big", 600, || (200u32..330, 200u32..330, prop::collection::vec((0u32..400, 0u32..400, 1u8..=255), 1..9)).prop_map(|(w, h, pts)| Sparse { w, h, pts }).boxed(), sparse),
        ],
    }
}
