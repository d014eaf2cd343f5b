//! C07: gradients.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{GrayImage, Luma, LumaA, Rgb, Rgba};
use imageproc::definitions::*;
use imageproc::gradients::*;
use imageproc::kernel::{self, Kernel};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const SH: [i32; 9] = [-1, 0, 1, -2, 0, 2, -1, 0, 1];
const SV: [i32; 9] = [-1, -2, -1, 0, 0, 0, 1, 2, 1];
const CH: [i32; 9] = [-3, 0, 3, -10, 0, 10, -3, 0, 3];
const CV: [i32; 9] = [-3, -10, -3, 0, 0, 0, 3, 10, 3];
const PH: [i32; 9] = [-1, 0, 1, -1, 0, 1, -1, 0, 1];
const PV: [i32; 9] = [-1, -1, -1, 0, 0, 0, 1, 1, 1];

fn i16s(v: Vec<f64>) -> Vec<i16> {
    v.iter().map(|x| x.clamp(-32768., 32767.) as i16).collect()
}
fn mag(what: &str, got: &[u16], h: &[i16], v: &[i16]) -> Result<(), Fail> {
    ensure!(got.len() == h.len(), "{what}: size");
    for i in 0..h.len() {
        let e = ((h[i] as f64).powi(2) + (v[i] as f64).powi(2)).sqrt();
        let t = 3e-4 + 2e-7 * e;
        let g = got[i] as f64;
        ensure!(g >= (e - t).floor() && g <= (e + t).floor(), "{what}: subpixel {i} is {g}, gradient ({}, {}) has magnitude {e}", h[i], v[i]);
    }
    Ok(())
}
fn named(im: &Im<u8>) -> R {
    let b: GrayImage = im.luma();
    let d = b.dimensions();
    let one = |what: &str, got: Image<Luma<i16>>, k: &[i32; 9]| -> Result<Vec<i16>, Fail> {
        let w = i16s(reference(im, 1, k, 3, 3));
        ensure!(got.dimensions() == d, "{what}: dimensions");
        ensure!(got.as_raw() == &w, "{what}: {:?} want {w:?}", got.as_raw());
        Ok(w)
    };
    let sh = one("horizontal_sobel", horizontal_sobel(&b), &SH)?;
    let sv = one("vertical_sobel", vertical_sobel(&b), &SV)?;
    one("horizontal_scharr", horizontal_scharr(&b), &CH)?;
    one("vertical_scharr", vertical_scharr(&b), &CV)?;
    let ph = one("horizontal_prewitt", horizontal_prewitt(&b), &PH)?;
    let pv = one("vertical_prewitt", vertical_prewitt(&b), &PV)?;
    mag("sobel_gradients", sobel_gradients(&b).as_raw(), &sh, &sv)?;
    mag("prewitt_gradients", prewitt_gradients(&b).as_raw(), &ph, &pv)?;
    mag("gradients_grayscale (sobel)", gradients_grayscale(&b, kernel::SOBEL_HORIZONTAL_3X3, kernel::SOBEL_VERTICAL_3X3).as_raw(), &sh, &sv)?;
    mag("gradients_grayscale (scharr)", gradients_grayscale(&b, kernel::SCHARR_HORIZONTAL_3X3, kernel::SCHARR_VERTICAL_3X3).as_raw(),
        &i16s(reference(im, 1, &CH, 3, 3)), &i16s(reference(im, 1, &CV, 3, 3)))?;
    mag("gradients_grayscale (roberts)", gradients_grayscale(&b, kernel::ROBERTS_HORIZONTAL_2X2, kernel::ROBERTS_VERTICAL_2X2).as_raw(),
        &i16s(reference(im, 1, &[1, 0, 0, -1], 2, 2)), &i16s(reference(im, 1, &[0, 1, -1, 0], 2, 2)))?;
    nt(im.varied())
}
fn colour(im: &Im<u8>) -> R {
    let b: Image<Rgb<u8>> = im.rgb();
    let (sh, sv) = (i16s(reference(im, 3, &SH, 3, 3)), i16s(reference(im, 3, &SV, 3, 3)));
    let g: Image<Rgb<u16>> = sobel_gradient_map(&b, |p| p);
    ensure!(g.dimensions() == b.dimensions(), "dimensions");
    mag("sobel_gradient_map", g.as_raw(), &sh, &sv)?;
    let (ph, pv) = (i16s(reference(im, 3, &PH, 3, 3)), i16s(reference(im, 3, &PV, 3, 3)));
    mag("prewitt (gradients)", gradients(&b, kernel::PREWITT_HORIZONTAL_3X3, kernel::PREWITT_VERTICAL_3X3, |p| p).as_raw(), &ph, &pv)?;
    // the closure sees the per-channel magnitudes of its own pixel
    let m: Image<Luma<u16>> = sobel_gradient_map(&b, |p| Luma([p[0].max(p[1]).max(p[2])]));
    let s: Image<Luma<f32>> = sobel_gradient_map(&b, |p| Luma([p[0] as f32 - p[1] as f32 + 2.0 * p[2] as f32]));
    for (x, y, p) in g.enumerate_pixels() {
        ensure!(m.get_pixel(x, y)[0] == p[0].max(p[1]).max(p[2]), "sobel_gradient_map with max at ({x},{y})");
        ensure!(s.get_pixel(x, y)[0] == p[0] as f32 - p[1] as f32 + 2.0 * p[2] as f32, "sobel_gradient_map with a linear map at ({x},{y})");
    }
    nt(im.varied())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct KCase {
    im: Im<u8>,
    a: (u32, u32, Vec<i32>),
    b: (u32, u32, Vec<i32>),
}
fn kern() -> BoxedStrategy<(u32, u32, Vec<i32>)> {
    (1u32..5, 1u32..5, prop_oneof![4 => Just(10i32), 1 => Just(400i32)])
        .prop_flat_map(|(w, h, m)| (Just(w), Just(h), prop::collection::vec(-m..=m, (w * h) as usize))).boxed()
}
fn any_kernel(c: &KCase) -> R {
    let b: Image<Rgba<u8>> = c.im.rgba();
    let h = i16s(reference(&c.im, 4, &c.a.2, c.a.0, c.a.1));
    let v = i16s(reference(&c.im, 4, &c.b.2, c.b.0, c.b.1));
    let g = gradients(&b, Kernel::new(&c.a.2, c.a.0, c.a.1), Kernel::new(&c.b.2, c.b.0, c.b.1), |p| p);
    mag("gradients rgba", g.as_raw(), &h, &v)?;
    nt(c.im.varied())
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "Random gray, RGB and RGBA images and random kernel pairs against directly computed derivatives and magnitudes; non-trivial: the image varies.",
        assumptions: &["magnitudes are truncated to u16; f32 rounding allowed for at exact integers"],
        subs: vec![
            sub("named", 150000, || im_u8(s(12), s(12), 1), named),
            sub("colour", 60000, || im_u8(s(8), s(8), 3), colour),
            sub("any_kernel", 60000, || (im_u8(s(8), s(8), 4), kern(), kern()).prop_map(|(im, a, b)| KCase { im, a, b }).boxed(), any_kernel),
            sub("strips", 1500, || strip(1), named),
            sub("colour strips", 300, || strip(3), colour),
        ],
    }
}
