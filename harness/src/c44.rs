//! C44: generic functions treat any view of an image like an image of its own.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::shapes::*;
use ab_glyph::PxScale;
use image::{DynamicImage, GenericImage, GenericImageView, GrayImage, ImageBuffer, Luma, Pixel, Rgba, RgbaImage};
use imageproc::drawing::*;
use imageproc::haar::*;
use imageproc::local_binary_patterns::local_binary_pattern;
use imageproc::pixelops::interpolate;
use imageproc::point::Point;
use imageproc::rect::Rect;
use imageproc::region_labelling::{connected_components, Connectivity};
use imageproc::stats::{peak_signal_to_noise_ratio, root_mean_squared_error};
use imageproc::suppress::suppress_non_maximum;
use imageproc::utils::pixel_diffs;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A window of a larger image, refusing every access outside the window (the pixels there exist,
/// so a plain view would let it pass).
struct Win<P: Pixel> {
    im: ImageBuffer<P, Vec<P::Subpixel>>,
    r: (u32, u32, u32, u32),
}
impl<P: Pixel> Win<P> {
    fn new(im: &ImageBuffer<P, Vec<P::Subpixel>>, r: (u32, u32, u32, u32)) -> Self {
        assert!(r.0 + r.2 <= im.width() && r.1 + r.3 <= im.height());
        Win { im: im.clone(), r }
    }
    fn inside(&self, x: u32, y: u32) -> (u32, u32) {
        assert!(x < self.r.2 && y < self.r.3, "access to ({x},{y}) outside a {}x{} view", self.r.2, self.r.3);
        (x + self.r.0, y + self.r.1)
    }
}
impl<P: Pixel> GenericImageView for Win<P> {
    type Pixel = P;
    fn dimensions(&self) -> (u32, u32) {
        (self.r.2, self.r.3)
    }
    fn get_pixel(&self, x: u32, y: u32) -> P {
        let (x, y) = self.inside(x, y);
        *self.im.get_pixel(x, y)
    }
}
impl<P: Pixel> GenericImage for Win<P> {
    fn get_pixel_mut(&mut self, x: u32, y: u32) -> &mut P {
        let (x, y) = self.inside(x, y);
        self.im.get_pixel_mut(x, y)
    }
    fn put_pixel(&mut self, x: u32, y: u32, p: P) {
        let (x, y) = self.inside(x, y);
        self.im.put_pixel(x, y, p)
    }
    fn blend_pixel(&mut self, x: u32, y: u32, p: P) {
        let (x, y) = self.inside(x, y);
        self.im.get_pixel_mut(x, y).blend(&p)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    im: Im<u8>,
    r: (u32, u32, u32, u32),
    shape: Shape,
    col: [u8; 4],
}
/// An image and a window of it of at least `least` pixels each way.
fn window(n: u32, least: u32, ch: u32) -> BoxedStrategy<(Im<u8>, (u32, u32, u32, u32))> {
    (least..=n, least..=n, 0u32..5, 0u32..5, 0u32..5, 0u32..5)
        .prop_flat_map(move |(w, h, l, t, r, b)| (im_u8(Just(w + l + r).boxed(), Just(h + t + b).boxed(), ch), Just((l, t, w, h))))
        .boxed()
}
fn case() -> BoxedStrategy<Case> {
    (window(14, 1, 4), shape(16), any::<[u8; 4]>()).prop_map(|((im, r), shape, col)| Case { im, r, shape, col }).boxed()
}
fn pts(p: &[(i32, i32)]) -> Vec<Point<i32>> {
    p.iter().map(|p| Point::new(p.0, p.1)).collect()
}
fn draw_on<I: GenericImage<Pixel = Rgba<u8>>>(s: &Shape, im: &mut I, c: Rgba<u8>) {
    let bl = |l: Rgba<u8>, o: Rgba<u8>, w: f32| interpolate(l, o, w);
    match s {
        Shape::AaLine(l) => draw_antialiased_line_segment_mut(im, (l[0], l[1]), (l[2], l[3]), c, bl),
        Shape::AaPoly(p) => draw_antialiased_polygon_mut(im, &pts(p), c, bl),
        s => s.draw_canvas(im, c),
    }
}
fn drawn<I: GenericImage<Pixel = Rgba<u8>>>(s: &Shape, im: &mut I, c: Rgba<u8>) -> RgbaImage {
    let bl = |l: Rgba<u8>, o: Rgba<u8>, w: f32| interpolate(l, o, w);
    match s {
        Shape::Line(l) => draw_line_segment(im, (l[0], l[1]), (l[2], l[3]), c),
        Shape::AaLine(l) => draw_antialiased_line_segment(im, (l[0], l[1]), (l[2], l[3]), c, bl),
        Shape::Poly(p) => draw_polygon(im, &pts(p), c),
        Shape::AaPoly(p) => draw_antialiased_polygon(im, &pts(p), c, bl),
        Shape::HollowPoly(p) => draw_hollow_polygon(im, &p.iter().map(|p| Point::new(p.0, p.1)).collect::<Vec<_>>(), c),
        Shape::FilledRect(x, y, w, h) => draw_filled_rect(im, Rect::at(*x, *y).of_size(*w, *h), c),
        Shape::HollowRect(x, y, w, h) => draw_hollow_rect(im, Rect::at(*x, *y).of_size(*w, *h), c),
        Shape::HollowEllipse(x, y, w, h) => draw_hollow_ellipse(im, (*x, *y), *w, *h, c),
        Shape::FilledEllipse(x, y, w, h) => draw_filled_ellipse(im, (*x, *y), *w, *h, c),
        Shape::HollowCircle(x, y, r) => draw_hollow_circle(im, (*x, *y), *r, c),
        Shape::FilledCircle(x, y, r) => draw_filled_circle(im, (*x, *y), *r, c),
        Shape::Cross(x, y) => draw_cross(im, c, *x, *y),
        Shape::Bezier(b) => draw_cubic_bezier_curve(im, (b[0], b[1]), (b[2], b[3]), (b[4], b[5]), (b[6], b[7]), c),
        Shape::Text(t, x, y, s) => draw_text(im, c, *x, *y, PxScale::from(*s), &font(), t),
    }
}
fn cut<P: Pixel>(im: &ImageBuffer<P, Vec<P::Subpixel>>, r: (u32, u32, u32, u32)) -> ImageBuffer<P, Vec<P::Subpixel>> {
    ImageBuffer::from_fn(r.2, r.3, |x, y| *im.get_pixel(x + r.0, y + r.1))
}
/// `got` is `before` with the window replaced by `inside`.
fn only<P: Pixel + std::fmt::Debug>(what: &str, got: &ImageBuffer<P, Vec<P::Subpixel>>, before: &ImageBuffer<P, Vec<P::Subpixel>>, r: (u32, u32, u32, u32), inside: &ImageBuffer<P, Vec<P::Subpixel>>) -> Result<(), Fail>
where
    P::Subpixel: std::fmt::Debug,
{
    for (x, y, p) in got.enumerate_pixels() {
        let q = if x >= r.0 && y >= r.1 && x < r.0 + r.2 && y < r.1 + r.3 { inside.get_pixel(x - r.0, y - r.1) } else { before.get_pixel(x, y) };
        ensure!(p.channels() == q.channels(), "{what}: pixel ({x},{y}) of the image holding the window {r:?} is {:?}, want {:?}", p.channels(), q.channels());
    }
    Ok(())
}
fn drawing(c: &Case) -> R {
    let im: RgbaImage = c.im.buf();
    let col = Rgba(c.col);
    let k = c.shape.kind();
    let own = cut(&im, c.r);
    let mut want = own.clone();
    draw_on(&c.shape, &mut want, col);
    let mut w = Win::new(&im, c.r);
    draw_on(&c.shape, &mut w, col);
    only(k, &w.im, &im, c.r, &want)?;
    // a view as the image crate makes it
    let mut whole = im.clone();
    draw_on(&c.shape, &mut *whole.sub_image(c.r.0, c.r.1, c.r.2, c.r.3), col);
    only(k, &whole, &im, c.r, &want)?;
    // a type-erased image
    let mut dynamic = DynamicImage::ImageRgba8(own.clone());
    draw_on(&c.shape, &mut dynamic, col);
    ensure!(dynamic.as_rgba8().is_some_and(|d| *d == want), "{k} on a DynamicImage differs from the same on an RgbaImage");
    // copying variants
    let mut w = Win::new(&im, c.r);
    let got = drawn(&c.shape, &mut w, col);
    if let Some(d) = diff(&got, &want) {
        return Err(format!("{k}: copying variant on a window {d}").into());
    }
    ensure!(w.im == im, "{k}: the copying variant changed the image it was given");
    // blending canvas over a window
    if !c.shape.blends() {
        let mut b = Blend(own.clone());
        c.shape.draw_canvas(&mut b, col);
        let mut w = Blend(Win::new(&im, c.r));
        c.shape.draw_canvas(&mut w, col);
        only("blending", &w.0.im, &im, c.r, &b.0)?;
    }
    lab(want != own && (c.r.2 < im.width() || c.r.3 < im.height()), k)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Read {
    a: Im<u8>,
    r: (u32, u32, u32, u32),
    b: Im<u8>,
    q: (u32, u32),
    radius: u32,
    bg: u8,
    eight: bool,
}
fn read() -> BoxedStrategy<Read> {
    (1u32..12, 1u32..12, prop::array::uniform8(0u32..4))
        .prop_flat_map(|(w, h, m)| {
            let im = |w: u32, h: u32| im_u8(Just(w).boxed(), Just(h).boxed(), 1);
            (im(w + m[0] + m[1], h + m[2] + m[3]), im(w + m[4] + m[5], h + m[6] + m[7]), Just((m[0], m[2], w, h)), Just((m[4], m[6])), prop_oneof![0u32..4, 0u32..20], any::<u8>(), any::<bool>())
        })
        .prop_map(|(a, b, r, q, radius, bg, eight)| { let bg = if bg < 128 { a.d[0] } else { bg }; Read { a, r, b, q, radius, bg, eight } })
        .boxed()
}
fn reading(c: &Read) -> R {
    let (a, b): (GrayImage, GrayImage) = (c.a.buf(), c.b.buf());
    let rb = (c.q.0, c.q.1, c.r.2, c.r.3);
    let (wa, wb) = (Win::new(&a, c.r), Win::new(&b, rb));
    let (oa, ob) = (cut(&a, c.r), cut(&b, rb));
    let conn = if c.eight { Connectivity::Eight } else { Connectivity::Four };
    macro_rules! same {
        ($what:expr, $f:expr, $g:expr) => {{
            let (x, y) = ($f, $g);
            ensure!(x == y, "{}: on a window {:?}, on a copy of it {:?}", $what, x, y);
        }};
    }
    same!("root_mean_squared_error", root_mean_squared_error(&wa, &wb).to_bits(), root_mean_squared_error(&oa, &ob).to_bits());
    same!("peak_signal_to_noise_ratio", peak_signal_to_noise_ratio(&wa, &ob).to_bits(), peak_signal_to_noise_ratio(&oa, &wb).to_bits());
    same!("connected_components", connected_components(&wa, conn, Luma([c.bg])), connected_components(&oa, conn, Luma([c.bg])));
    same!("suppress_non_maximum", suppress_non_maximum(&wa, c.radius), suppress_non_maximum(&oa, c.radius));
    let d = |v: Vec<imageproc::utils::Diff<Luma<u8>>>| v.iter().map(|d| (d.x, d.y, d.actual, d.expected)).collect::<Vec<_>>();
    same!("pixel_diffs", d(pixel_diffs(&wa, &wb, |p, q| p.2[0] > q.2[0])), d(pixel_diffs(&oa, &ob, |p, q| p.2[0] > q.2[0])));
    for y in 0..c.r.3 + 1 {
        for x in 0..c.r.2 + 1 {
            same!("local_binary_pattern", local_binary_pattern(&wa, x, y), local_binary_pattern(&oa, x, y));
        }
    }
    if c.r.2 <= 8 && c.r.3 <= 8 {
        let fs = enumerate_haar_features(c.r.2 as u8, c.r.3 as u8);
        if !fs.is_empty() {
            for i in 0..4u32 {
                let f = fs[(c.radius as usize * 7919 + c.bg as usize * 31 + i as usize) % fs.len()];
                let want = draw_haar_feature(&oa, f);
                same!("draw_haar_feature", draw_haar_feature(&wa, f), want.clone());
                let mut w = Win::new(&a, c.r);
                draw_haar_feature_mut(&mut w, f);
                only("draw_haar_feature_mut", &w.im, &a, c.r, &want)?;
            }
        }
    }
    nt(c.a.varied() && (c.r.2 < a.width() || c.r.3 < a.height()))
}

pub fn prop() -> Prop {
    Prop {
        id: "C44",
        rule: "Random images with a random window. Every function that accepts any image view or canvas is run on the window through a view that refuses accesses outside it (and, for drawing, through the image crate's own views, type-erased images and a blending canvas) and compared with the same call on a copy of the window; the rest of the image must stay as it was. Non-trivial: the drawing changes something, the image varies, and the window is smaller than the image.",
        assumptions: &[],
        subs: vec![sub("drawing", 60000, case, drawing), sub("reading", 40000, read, reading)],
    }
}
