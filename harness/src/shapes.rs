//! Drawable shapes as data, shared by the drawing properties.
use ab_glyph::{FontRef, PxScale};
use image::{GenericImage, ImageBuffer, Pixel};
use imageproc::definitions::Image;
use imageproc::drawing::*;
use imageproc::pixelops::interpolate;
use imageproc::point::Point;
use imageproc::rect::Rect;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Shape {
    Line([f32; 4]),
    AaLine([i32; 4]),
    Poly(Vec<(i32, i32)>),
    AaPoly(Vec<(i32, i32)>),
    HollowPoly(Vec<(f32, f32)>),
    FilledRect(i32, i32, u32, u32),
    HollowRect(i32, i32, u32, u32),
    HollowEllipse(i32, i32, i32, i32),
    FilledEllipse(i32, i32, i32, i32),
    HollowCircle(i32, i32, i32),
    FilledCircle(i32, i32, i32),
    Cross(i32, i32),
    Bezier([f32; 8]),
    Text(String, i32, i32, f32),
}

pub fn font() -> FontRef<'static> {
    FontRef::try_from_slice(include_bytes!("../DejaVuSans.ttf")).unwrap()
}

fn pts(p: &[(i32, i32)]) -> Vec<Point<i32>> {
    p.iter().map(|p| Point::new(p.0, p.1)).collect()
}
fn ptsf(p: &[(f32, f32)]) -> Vec<Point<f32>> {
    p.iter().map(|p| Point::new(p.0, p.1)).collect()
}

impl Shape {
    pub fn kind(&self) -> &'static str {
        match self {
            Shape::Line(_) => "line",
            Shape::AaLine(_) => "aa line",
            Shape::Poly(_) => "polygon",
            Shape::AaPoly(_) => "aa polygon",
            Shape::HollowPoly(_) => "hollow polygon",
            Shape::FilledRect(..) => "filled rect",
            Shape::HollowRect(..) => "hollow rect",
            Shape::HollowEllipse(..) => "hollow ellipse",
            Shape::FilledEllipse(..) => "filled ellipse",
            Shape::HollowCircle(..) => "hollow circle",
            Shape::FilledCircle(..) => "filled circle",
            Shape::Cross(..) => "cross",
            Shape::Bezier(_) => "bezier",
            Shape::Text(..) => "text",
        }
    }
    /// Whether the shape blends (so colours other than the drawing colour may appear).
    pub fn blends(&self) -> bool {
        matches!(self, Shape::AaLine(_) | Shape::AaPoly(_) | Shape::Text(..))
    }
    pub fn shifted(&self, dx: i32, dy: i32) -> Shape {
        let (fx, fy) = (dx as f32, dy as f32);
        match self.clone() {
            Shape::Line(l) => Shape::Line([l[0] + fx, l[1] + fy, l[2] + fx, l[3] + fy]),
            Shape::AaLine(l) => Shape::AaLine([l[0] + dx, l[1] + dy, l[2] + dx, l[3] + dy]),
            Shape::Poly(p) => Shape::Poly(p.iter().map(|p| (p.0 + dx, p.1 + dy)).collect()),
            Shape::AaPoly(p) => Shape::AaPoly(p.iter().map(|p| (p.0 + dx, p.1 + dy)).collect()),
            Shape::HollowPoly(p) => Shape::HollowPoly(p.iter().map(|p| (p.0 + fx, p.1 + fy)).collect()),
            Shape::FilledRect(x, y, w, h) => Shape::FilledRect(x + dx, y + dy, w, h),
            Shape::HollowRect(x, y, w, h) => Shape::HollowRect(x + dx, y + dy, w, h),
            Shape::HollowEllipse(x, y, w, h) => Shape::HollowEllipse(x + dx, y + dy, w, h),
            Shape::FilledEllipse(x, y, w, h) => Shape::FilledEllipse(x + dx, y + dy, w, h),
            Shape::HollowCircle(x, y, r) => Shape::HollowCircle(x + dx, y + dy, r),
            Shape::FilledCircle(x, y, r) => Shape::FilledCircle(x + dx, y + dy, r),
            Shape::Cross(x, y) => Shape::Cross(x + dx, y + dy),
            Shape::Bezier(b) => Shape::Bezier(std::array::from_fn(|i| b[i] + if i % 2 == 0 { fx } else { fy })),
            Shape::Text(t, x, y, s) => Shape::Text(t, x + dx, y + dy, s),
        }
    }
    /// The same shape with x and y exchanged (text and curves are left alone).
    pub fn transposed(&self) -> Shape {
        match self.clone() {
            Shape::Line(l) => Shape::Line([l[1], l[0], l[3], l[2]]),
            Shape::AaLine(l) => Shape::AaLine([l[1], l[0], l[3], l[2]]),
            Shape::Poly(p) => Shape::Poly(p.iter().map(|p| (p.1, p.0)).collect()),
            Shape::AaPoly(p) => Shape::AaPoly(p.iter().map(|p| (p.1, p.0)).collect()),
            Shape::HollowPoly(p) => Shape::HollowPoly(p.iter().map(|p| (p.1, p.0)).collect()),
            Shape::FilledRect(x, y, w, h) => Shape::FilledRect(y, x, h, w),
            Shape::HollowRect(x, y, w, h) => Shape::HollowRect(y, x, h, w),
            Shape::HollowEllipse(x, y, w, h) => Shape::HollowEllipse(y, x, h, w),
            Shape::FilledEllipse(x, y, w, h) => Shape::FilledEllipse(y, x, h, w),
            Shape::HollowCircle(x, y, r) => Shape::HollowCircle(y, x, r),
            Shape::FilledCircle(x, y, r) => Shape::FilledCircle(y, x, r),
            Shape::Cross(x, y) => Shape::Cross(y, x),
            s => s,
        }
    }
    pub fn draw_mut<P: Pixel<Subpixel = u8>>(&self, im: &mut Image<P>, c: P) {
        let bl = |l: P, o: P, w: f32| interpolate(l, o, w);
        match self {
            Shape::Line(l) => draw_line_segment_mut(im, (l[0], l[1]), (l[2], l[3]), c),
            Shape::AaLine(l) => draw_antialiased_line_segment_mut(im, (l[0], l[1]), (l[2], l[3]), c, bl),
            Shape::Poly(p) => draw_polygon_mut(im, &pts(p), c),
            Shape::AaPoly(p) => draw_antialiased_polygon_mut(im, &pts(p), c, bl),
            Shape::HollowPoly(p) => draw_hollow_polygon_mut(im, &ptsf(p), c),
            Shape::FilledRect(x, y, w, h) => draw_filled_rect_mut(im, Rect::at(*x, *y).of_size(*w, *h), c),
            Shape::HollowRect(x, y, w, h) => draw_hollow_rect_mut(im, Rect::at(*x, *y).of_size(*w, *h), c),
            Shape::HollowEllipse(x, y, w, h) => draw_hollow_ellipse_mut(im, (*x, *y), *w, *h, c),
            Shape::FilledEllipse(x, y, w, h) => draw_filled_ellipse_mut(im, (*x, *y), *w, *h, c),
            Shape::HollowCircle(x, y, r) => draw_hollow_circle_mut(im, (*x, *y), *r, c),
            Shape::FilledCircle(x, y, r) => draw_filled_circle_mut(im, (*x, *y), *r, c),
            Shape::Cross(x, y) => draw_cross_mut(im, c, *x, *y),
            Shape::Bezier(b) => draw_cubic_bezier_curve_mut(im, (b[0], b[1]), (b[2], b[3]), (b[4], b[5]), (b[6], b[7]), c),
            Shape::Text(t, x, y, s) => draw_text_mut(im, c, *x, *y, PxScale::from(*s), &font(), t),
        }
    }
    /// Draws on any Canvas (not available for the anti-aliased shapes).
    pub fn draw_canvas<C: Canvas>(&self, im: &mut C, c: C::Pixel)
    where
        C::Pixel: Pixel<Subpixel = u8>,
    {
        match self {
            Shape::AaLine(_) | Shape::AaPoly(_) => unreachable!(),
            Shape::Line(l) => draw_line_segment_mut(im, (l[0], l[1]), (l[2], l[3]), c),
            Shape::Poly(p) => draw_polygon_mut(im, &pts(p), c),
            Shape::HollowPoly(p) => draw_hollow_polygon_mut(im, &ptsf(p), c),
            Shape::FilledRect(x, y, w, h) => draw_filled_rect_mut(im, Rect::at(*x, *y).of_size(*w, *h), c),
            Shape::HollowRect(x, y, w, h) => draw_hollow_rect_mut(im, Rect::at(*x, *y).of_size(*w, *h), c),
            Shape::HollowEllipse(x, y, w, h) => draw_hollow_ellipse_mut(im, (*x, *y), *w, *h, c),
            Shape::FilledEllipse(x, y, w, h) => draw_filled_ellipse_mut(im, (*x, *y), *w, *h, c),
            Shape::HollowCircle(x, y, r) => draw_hollow_circle_mut(im, (*x, *y), *r, c),
            Shape::FilledCircle(x, y, r) => draw_filled_circle_mut(im, (*x, *y), *r, c),
            Shape::Cross(x, y) => draw_cross_mut(im, c, *x, *y),
            Shape::Bezier(b) => draw_cubic_bezier_curve_mut(im, (b[0], b[1]), (b[2], b[3]), (b[4], b[5]), (b[6], b[7]), c),
            Shape::Text(t, x, y, s) => draw_text_mut(im, c, *x, *y, PxScale::from(*s), &font(), t),
        }
    }
    pub fn draw<P: Pixel<Subpixel = u8>>(&self, im: &Image<P>, c: P) -> Image<P> {
        let bl = |l: P, o: P, w: f32| interpolate(l, o, w);
        match self {
            Shape::Line(l) => draw_line_segment(im, (l[0], l[1]), (l[2], l[3]), c),
            Shape::AaLine(l) => draw_antialiased_line_segment(im, (l[0], l[1]), (l[2], l[3]), c, bl),
            Shape::Poly(p) => draw_polygon(im, &pts(p), c),
            Shape::AaPoly(p) => draw_antialiased_polygon(im, &pts(p), c, bl),
            Shape::HollowPoly(p) => {
                let mut t = im.clone();
                let r = draw_hollow_polygon(&mut t, &ptsf(p), c);
                assert!(t.as_raw() == im.as_raw(), "draw_hollow_polygon changed its input");
                r
            }
            Shape::FilledRect(x, y, w, h) => draw_filled_rect(im, Rect::at(*x, *y).of_size(*w, *h), c),
            Shape::HollowRect(x, y, w, h) => draw_hollow_rect(im, Rect::at(*x, *y).of_size(*w, *h), c),
            Shape::HollowEllipse(x, y, w, h) => draw_hollow_ellipse(im, (*x, *y), *w, *h, c),
            Shape::FilledEllipse(x, y, w, h) => draw_filled_ellipse(im, (*x, *y), *w, *h, c),
            Shape::HollowCircle(x, y, r) => draw_hollow_circle(im, (*x, *y), *r, c),
            Shape::FilledCircle(x, y, r) => draw_filled_circle(im, (*x, *y), *r, c),
            Shape::Cross(x, y) => draw_cross(im, c, *x, *y),
            Shape::Bezier(b) => draw_cubic_bezier_curve(im, (b[0], b[1]), (b[2], b[3]), (b[4], b[5]), (b[6], b[7]), c),
            Shape::Text(t, x, y, s) => draw_text(im, c, *x, *y, PxScale::from(*s), &font(), t),
        }
    }
}

/// Coordinates around a canvas of side about `n`: mostly inside or just outside, sometimes far.
pub fn coord(n: i32) -> BoxedStrategy<i32> {
    prop_oneof![6 => 0..n, 3 => -n / 2..n + n / 2, 1 => -3 * n..4 * n].boxed()
}
pub fn coordf(n: i32) -> BoxedStrategy<f32> {
    // Multiples of 1/8: translating by integers is exact in f32.
    prop_oneof![
        3 => coord(n).prop_map(|v| v as f32),
        2 => (coord(n), 0i32..8).prop_map(|(v, f)| v as f32 + f as f32 / 8.0),
    ]
    .boxed()
}
pub fn poly(n: i32) -> BoxedStrategy<Vec<(i32, i32)>> {
    let pt = (coord(n), coord(n));
    prop_oneof![
        1 => proptest::collection::vec(pt.clone(), 1..3),
        6 => proptest::collection::vec(pt.clone(), 3..8),
        // small grids make horizontal edges, repeated vertices and collinear runs common
        3 => proptest::collection::vec((0..6i32, 0..6i32), 3..9),
        1 => (proptest::collection::vec(pt, 3..6)).prop_map(|mut v| { let f = v[0]; v.push(f); v }),
    ]
    .boxed()
}
pub fn text() -> BoxedStrategy<String> {
    prop_oneof![1 => Just(String::new()), 8 => "[ A-Za-z0-9.,!gjpqyWM]{1,6}", 1 => "[ ]{1,3}", 1 => "\\PC{1,3}"].boxed()
}
pub fn shape_no_text(n: i32) -> BoxedStrategy<Shape> {
    let r = || prop_oneof![1 => Just(0i32), 2 => 0i32..3, 6 => 0i32..n];
    let sz = || prop_oneof![2 => 1u32..3, 4 => 1u32..n as u32 * 2];
    prop_oneof![
        [coordf(n), coordf(n), coordf(n), coordf(n)].prop_map(Shape::Line),
        [coord(n), coord(n), coord(n), coord(n)].prop_map(Shape::AaLine),
        poly(n).prop_map(Shape::Poly),
        poly(n).prop_map(Shape::AaPoly),
        proptest::collection::vec((coordf(n), coordf(n)), 2..7).prop_map(Shape::HollowPoly),
        (coord(n), coord(n), sz(), sz()).prop_map(|(a, b, c, d)| Shape::FilledRect(a, b, c, d)),
        (coord(n), coord(n), sz(), sz()).prop_map(|(a, b, c, d)| Shape::HollowRect(a, b, c, d)),
        (coord(n), coord(n), r(), r()).prop_map(|(a, b, c, d)| Shape::HollowEllipse(a, b, c, d)),
        (coord(n), coord(n), r(), r()).prop_map(|(a, b, c, d)| Shape::FilledEllipse(a, b, c, d)),
        (coord(n), coord(n), r()).prop_map(|(a, b, c)| Shape::HollowCircle(a, b, c)),
        (coord(n), coord(n), r()).prop_map(|(a, b, c)| Shape::FilledCircle(a, b, c)),
        (coord(n), coord(n)).prop_map(|(a, b)| Shape::Cross(a, b)),
        [coordf(n), coordf(n), coordf(n), coordf(n), coordf(n), coordf(n), coordf(n), coordf(n)].prop_map(Shape::Bezier),
    ]
    .boxed()
}
pub fn shape(n: i32) -> BoxedStrategy<Shape> {
    prop_oneof![
        13 => shape_no_text(n),
        1 => (text(), coord(n), coord(n), 4f32..40.).prop_map(|(t, a, b, s)| Shape::Text(t, a, b, s)),
    ]
    .boxed()
}
