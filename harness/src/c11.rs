//! C11: drawing clips exactly at the canvas border and writes only the requested colour.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::shapes::*;
use image::{GenericImage, Pixel, Rgb, Rgba};
use imageproc::definitions::Image;
use imageproc::drawing::{Blend, Canvas};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    im: Im<u8>,
    shape: Shape,
    color: [u8; 3],
    /// margins of the larger canvas: left, top, right, bottom
    pad: [u32; 4],
}
fn bg(x: u32, y: u32) -> Rgb<u8> {
    let v = (x.wrapping_mul(7919) ^ y.wrapping_mul(104729)).wrapping_mul(2654435761);
    Rgb([(v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8])
}
fn padded(im: &Image<Rgb<u8>>, pad: &[u32; 4]) -> Image<Rgb<u8>> {
    let (w, h) = im.dimensions();
    Image::from_fn(w + pad[0] + pad[2], h + pad[1] + pad[3], |x, y| {
        let (xx, yy) = (x.wrapping_sub(pad[0]), y.wrapping_sub(pad[1]));
        if xx < w && yy < h { *im.get_pixel(xx, yy) } else { bg(x, y) }
    })
}
/// Rows of a polygon where some crossing lies at a rounding boundary: (row, column) pairs that may differ.
fn ambiguous(s: &Shape, x: i64, y: i64) -> bool {
    let p = match s {
        Shape::Poly(p) | Shape::AaPoly(p) => p,
        _ => return false,
    };
    let n = p.len();
    (0..n).any(|i| {
        let (a, b) = (p[i], p[(i + 1) % n]);
        let (ay, by) = (a.1 as i64, b.1 as i64);
        if ay == by || y < ay.min(by) || y > ay.max(by) {
            return false;
        }
        let c = a.0 as f64 + (y - ay) as f64 / (by - ay) as f64 * (b.0 - a.0) as f64;
        (c - c.floor() - 0.5).abs() < 1e-3 && (x == c.floor() as i64 || x == c.floor() as i64 + 1)
    })
}
fn close(a: u8, b: u8, tol: i32) -> bool {
    (a as i32 - b as i32).abs() <= tol
}
fn same(what: &str, c: &Case, small: &Image<Rgb<u8>>, large: &Image<Rgb<u8>>, off: (u32, u32), tol: i32, amb: bool) -> Result<(), Fail> {
    for (x, y, p) in small.enumerate_pixels() {
        let q = large.get_pixel(x + off.0, y + off.1);
        if p.0.iter().zip(&q.0).all(|(a, b)| close(*a, *b, tol)) || (amb && ambiguous(&c.shape, x as i64, y as i64)) {
            continue;
        }
        return Err(format!("{what}: {} at ({x},{y}) is {:?} on the {}x{} canvas but {:?} at ({},{}) of the larger one {:?}", c.shape.kind(), p.0, small.width(), small.height(), q.0, x + off.0, y + off.1, large.dimensions()).into());
    }
    Ok(())
}
fn int_coords(s: &Shape) -> bool {
    let i = |v: &f32| v.fract() == 0.0;
    match s {
        Shape::Line(l) => l.iter().all(i),
        Shape::HollowPoly(p) => p.iter().all(|p| i(&p.0) && i(&p.1)),
        Shape::Bezier(_) => false,
        _ => true,
    }
}
/// Same coordinates, canvas extended to the right and to the bottom.
fn extend(c: &Case) -> R {
    let im = c.im.rgb();
    let col = Rgb(c.color);
    let mut small = im.clone();
    c.shape.draw_mut(&mut small, col);
    ensure!(small.dimensions() == im.dimensions(), "dimensions changed");
    let out = c.shape.draw(&im, col);
    ensure!(out == small, "{}: the out-of-place drawing differs from the in-place one", c.shape.kind());
    let pad = [0, 0, c.pad[2], c.pad[3]];
    let base = padded(&im, &pad);
    let mut large = base.clone();
    c.shape.draw_mut(&mut large, col);
    same("extended canvas", c, &small, &large, (0, 0), 0, false)?;
    let mut hit = false;
    let mut miss = false;
    for (x, y, p) in large.enumerate_pixels() {
        let b = base.get_pixel(x, y);
        let ok = if c.shape.blends() {
            (0..3).all(|k| p[k].saturating_add(1) >= b[k].min(col[k]) && p[k] <= b[k].max(col[k]))
        } else {
            p == b || *p == col
        };
        ensure!(ok, "{}: pixel ({x},{y}) was {:?}, colour {:?}, is now {:?}", c.shape.kind(), b.0, col.0, p.0);
        hit |= p != b && x < im.width() && y < im.height();
        miss |= p != b && !(x < im.width() && y < im.height());
    }
    lab(hit && miss, c.shape.kind())
}
/// Everything translated by the left and top margins.
fn shift(c: &Case) -> R {
    if !int_coords(&c.shape) {
        return nt(false);
    }
    let im = c.im.rgb();
    let col = Rgb(c.color);
    let mut small = im.clone();
    c.shape.draw_mut(&mut small, col);
    let base = padded(&im, &c.pad);
    let mut large = base.clone();
    c.shape.shifted(c.pad[0] as i32, c.pad[1] as i32).draw_mut(&mut large, col);
    let tol = match c.shape { Shape::AaLine(_) => 2, Shape::AaPoly(_) => 6, _ => 0 };
    same("translated", c, &small, &large, (c.pad[0], c.pad[1]), tol, true)?;
    let mut hit = false;
    let mut miss = false;
    for (x, y, p) in large.enumerate_pixels() {
        let inside = x >= c.pad[0] && y >= c.pad[1] && x - c.pad[0] < im.width() && y - c.pad[1] < im.height();
        let ch = p != base.get_pixel(x, y);
        hit |= ch && inside;
        miss |= ch && !inside;
    }
    lab(hit && miss, c.shape.kind())
}

/// A canvas that records the calls made on it.
struct Rec {
    im: Image<Rgba<u8>>,
    calls: Vec<(u32, u32, Rgba<u8>)>,
}
impl Canvas for Rec2 {
    type Pixel = Rgba<u8>;
    fn dimensions(&self) -> (u32, u32) {
        self.0.im.dimensions()
    }
    fn get_pixel(&self, x: u32, y: u32) -> Rgba<u8> {
        *self.0.im.get_pixel(x, y)
    }
    fn draw_pixel(&mut self, x: u32, y: u32, c: Rgba<u8>) {
        assert!(x < self.0.im.width() && y < self.0.im.height(), "draw_pixel({x},{y}) outside a {:?} canvas", self.0.im.dimensions());
        self.0.im.put_pixel(x, y, c);
        self.0.calls.push((x, y, c));
    }
}
struct Rec2(Rec);
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CanvasCase {
    im: Im<u8>,
    shape: Shape,
    color: [u8; 4],
}
/// A user canvas sees in-bounds calls only; images and Blend act on the same calls.
fn canvases(c: &CanvasCase) -> R {
    if matches!(c.shape, Shape::AaLine(_) | Shape::AaPoly(_)) {
        return nt(false);
    }
    let im = c.im.rgba();
    let col = Rgba(c.color);
    let mut r = Rec2(Rec { im: im.clone(), calls: vec![] });
    c.shape.draw_canvas(&mut r, col);
    let mut direct = im.clone();
    c.shape.draw_canvas(&mut direct, col);
    if let Some(m) = diff(&direct, &r.0.im) {
        return Err(format!("{} on an image differs from the same calls on a user canvas: {m}", c.shape.kind()).into());
    }
    let mut bl = Blend(im.clone());
    c.shape.draw_canvas(&mut bl, col);
    if !c.shape.blends() {
        let mut want = im.clone();
        for (x, y, p) in &r.0.calls {
            ensure!(*p == col, "{}: draw_pixel called with {:?} instead of {:?}", c.shape.kind(), p.0, col.0);
            let mut q = *want.get_pixel(*x, *y);
            q.blend(p);
            want.put_pixel(*x, *y, q);
        }
        if let Some(m) = diff(&bl.0, &want) {
            return Err(format!("{} on Blend: {m}", c.shape.kind()).into());
        }
    } else {
        for (x, y, p) in bl.0.enumerate_pixels() {
            ensure!(p == im.get_pixel(x, y) || r.0.calls.iter().any(|q| (q.0, q.1) == (x, y)), "{} on Blend changed ({x},{y})", c.shape.kind());
        }
    }
    lab(!r.0.calls.is_empty() && r.0.calls.len() < im.pixels().len(), c.shape.kind())
}
/// A sub-image (GenericImage view) is clipped at the view's border.
fn views(c: &Case) -> R {
    let im = c.im.rgb();
    let col = Rgb(c.color);
    if matches!(c.shape, Shape::AaLine(_) | Shape::AaPoly(_)) {
        return nt(false);
    }
    let mut alone = im.clone();
    c.shape.draw_mut(&mut alone, col);
    let base = padded(&im, &c.pad);
    let mut large = base.clone();
    {
        let mut v = large.sub_image(c.pad[0], c.pad[1], im.width(), im.height());
        c.shape.draw_canvas(&mut *v, col);
    }
    for (x, y, p) in large.enumerate_pixels() {
        let (xx, yy) = (x.wrapping_sub(c.pad[0]), y.wrapping_sub(c.pad[1]));
        let want = if xx < im.width() && yy < im.height() { alone.get_pixel(xx, yy) } else { base.get_pixel(x, y) };
        ensure!(p == want, "{} in a view: ({x},{y}) is {:?}, want {:?}", c.shape.kind(), p.0, want.0);
    }
    lab(alone != im, c.shape.kind())
}
fn case(shape: BoxedStrategy<Shape>, m: u32) -> BoxedStrategy<Case> {
    (im_u8(side0(m), side0(m), 3), shape, any::<[u8; 3]>(), [0u32..25, 0u32..25, 0u32..25, 0u32..25])
        .prop_map(|(im, shape, color, pad)| Case { im, shape, color, pad })
        .boxed()
}
fn rounded(s: Shape) -> Shape {
    match s {
        Shape::Line(l) => Shape::Line(l.map(|v| v.round())),
        Shape::HollowPoly(p) => Shape::HollowPoly(p.into_iter().map(|p| (p.0.round(), p.1.round())).collect()),
        s => s,
    }
}
/// Shapes reaching far outside.
/// Shapes across canvases of which one side is beyond 65536 pixels.
fn far_long() -> BoxedStrategy<Shape> {
    let f = || prop_oneof![2 => -20i32..20, 2 => 32700i32..32800, 2 => 65500i32..65800, 1 => -70000i32..70000];
    let s = || -2i32..5;
    prop_oneof![
        (f(), s(), f(), s()).prop_map(|(a, b, c, d)| Shape::AaLine([a, b, c, d])),
        (f(), s(), f(), s()).prop_map(|(a, b, c, d)| Shape::Line([a, b, c, d].map(|v| v as f32))),
        proptest::collection::vec((f(), s()), 2..5).prop_map(Shape::Poly),
        proptest::collection::vec((f(), s()), 2..4).prop_map(|p| Shape::HollowPoly(p.iter().map(|p| (p.0 as f32, p.1 as f32)).collect())),
        (f(), s(), prop_oneof![1u32..40, 1u32..140000], 1u32..5).prop_map(|(a, b, c, d)| Shape::FilledRect(a, b, c, d)),
        (f(), s(), prop_oneof![1u32..40, 1u32..140000], 1u32..5).prop_map(|(a, b, c, d)| Shape::HollowRect(a, b, c, d)),
        (f(), s()).prop_map(|(a, b)| Shape::Cross(a, b)),
        (f(), s(), 0i32..40).prop_map(|(a, b, c)| Shape::FilledCircle(a, b, c)),
        (f(), s(), 0i32..40).prop_map(|(a, b, c)| Shape::HollowCircle(a, b, c)),
    ]
    .boxed()
}

fn far() -> BoxedStrategy<Shape> {
    let f = || prop_oneof![2 => -30000i32..30000, 1 => -10i32..30];
    let r = || 0i32..9000;
    prop_oneof![
        [f(), f(), f(), f()].prop_map(|l| Shape::Line(l.map(|v| v as f32))),
        [f(), f(), f(), f()].prop_map(Shape::AaLine),
        proptest::collection::vec((f(), f()), 2..5).prop_map(Shape::Poly),
        proptest::collection::vec((f(), f()), 2..4).prop_map(|p| Shape::HollowPoly(p.iter().map(|p| (p.0 as f32, p.1 as f32)).collect())),
        (f(), f(), 1u32..100000, 1u32..100000).prop_map(|(a, b, c, d)| Shape::FilledRect(a, b, c, d)),
        (f(), f(), 1u32..60000, 1u32..60000).prop_map(|(a, b, c, d)| Shape::HollowRect(a, b, c, d)),
        (-9000i32..9000, -9000i32..9000, r(), r()).prop_map(|(a, b, c, d)| Shape::HollowEllipse(a, b, c, d)),
        (-9000i32..9000, -9000i32..9000, r()).prop_map(|(a, b, c)| Shape::HollowCircle(a, b, c)),
        (-300i32..300, -300i32..300, 0i32..300, 0i32..300).prop_map(|(a, b, c, d)| Shape::FilledEllipse(a, b, c, d)),
        (-300i32..300, -300i32..300, 0i32..300).prop_map(|(a, b, c)| Shape::FilledCircle(a, b, c)),
        (any::<i32>(), any::<i32>()).prop_map(|(a, b)| Shape::Cross(a.clamp(i32::MIN + 2, i32::MAX - 2), b.clamp(i32::MIN + 2, i32::MAX - 2))),
    ]
    .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "Random shapes of all kinds at random positions on random canvases (including empty ones), compared with the same drawing on a canvas enlarged to the right/bottom (same coordinates) and on all sides (translated), on a call-recording user canvas, on Blend and on a sub-image view; non-trivial: part of the shape is visible and part is clipped (user canvases: some but not all pixels drawn).",
        assumptions: &["coordinates far from the limits of i32", "translated polygons may differ at crossings that round at exactly one half", "anti-aliased weights compare within rounding after translation"],
        subs: vec![
            sub("extend", 200000, || case(shape(20), 20), extend),
            sub("shift", 200000, || case(shape(20).prop_map(rounded).boxed(), 20), shift),
            sub("far", 20000, || case(far(), 20), extend),
            sub("canvases", 100000, || {
                (im_u8(side0(20), side0(20), 4), shape(20), any::<[u8; 4]>()).prop_map(|(im, shape, color)| CanvasCase { im, shape, color }).boxed()
            }, canvases),
            sub("views", 100000, || case(shape(16), 16), views),
            sub("long canvases", 200, || (long(3), shape(60), any::<[u8; 3]>(), prop::array::uniform4(0u32..6), any::<u32>()).prop_map(|(im, shape, color, pad, at)| {
                let off = [32700, 65480][at as usize & 1] + (at >> 1) as i32 % 150;
                let shape = if im.w > im.h { shape.shifted(off, 0) } else { shape.shifted(0, off) };
                Case { im, shape, color, pad }
            }).boxed(), extend),
            sub("far long", 200, || (long(3), far_long(), any::<[u8; 3]>(), prop::array::uniform4(0u32..6)).prop_map(|(im, shape, color, pad)| {
                let shape = if im.w > im.h { shape } else { shape.transposed() };
                Case { im, shape, color, pad }
            }).boxed(), extend),
            sub("large canvases", 600, || (strip(3), shape(300), any::<[u8; 3]>(), prop::array::uniform4(0u32..6)).prop_map(|(im, shape, color, pad)| Case { im, shape, color, pad }).boxed(), extend),
        ],
    }
}
