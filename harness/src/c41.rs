//! C41: text is laid out with the font's metrics and blended by coverage.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::shapes::{font, text};
use ab_glyph::{point, Font, FontRef, GlyphId, OutlinedGlyph, PxScale, ScaleFont};
use image::{GenericImage, ImageBuffer, Luma, Pixel, Rgb};
use imageproc::definitions::Image;
use imageproc::drawing::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const KERN: &str = "letter pairs are kerned in swapped order and one letter late";

struct Placed {
    g: OutlinedGlyph,
    x: i64,
    y: i64,
}
struct Layout {
    glyphs: Vec<Placed>,
    w: f64,
    h: f64,
    kerned: bool,
    missing: usize,
}
/// Pens advance by the advance widths, each adjacent pair moved together by its kerning.
/// `late`: the defect that is listed in the known findings instead.
fn layout(f: &FontRef, s: PxScale, t: &str, late: bool) -> Layout {
    let sf = f.as_scaled(s);
    let (mut w, mut prev, mut kerned, mut missing) = (0f32, None::<GlyphId>, false, 0);
    let mut glyphs = vec![];
    for c in t.chars() {
        let id = sf.glyph_id(c);
        if let (Some(p), false) = (prev, late) {
            w += sf.kern(p, id);
            kerned |= sf.kern(p, id) != 0.;
        }
        let at = w;
        w += sf.h_advance(id);
        if let Some(g) = sf.outline_glyph(id.with_scale_and_position(s, point(at, sf.ascent()))) {
            if let (Some(p), true) = (prev, late) {
                w += sf.kern(id, p);
            }
            let b = g.px_bounds();
            glyphs.push(Placed { x: b.min.x.round() as i64, y: b.min.y.round() as i64, g });
            prev = Some(id);
        } else {
            missing += 1;
            if !late {
                prev = Some(id);
            }
        }
    }
    Layout { glyphs, w: w as f64, h: sf.height() as f64, kerned, missing }
}
fn size_ok(l: &Layout, got: (u32, u32), t: &str) -> Result<(), Fail> {
    if t.is_empty() {
        ensure!(got == (0, 0), "the size of no text is {got:?}");
        return Ok(());
    }
    let near = |v: f64, g: u32| (g as f64 - v) > -1e-3 && (g as f64 - v) < 1. + 1e-3;
    ensure!(near(l.w + 1., got.0) && near(l.h, got.1), "{t:?} is {got:?}, while its letters advance by {} and the line is {} high", l.w, l.h);
    Ok(())
}
trait Sub8: Copy + Into<f64> + Into<f32> + PartialEq + std::fmt::Debug {
    /// What may be stored for the real number v.
    fn store(v: f64) -> (f64, f64);
}
impl Sub8 for u8 {
    fn store(v: f64) -> (f64, f64) {
        ((v - 1e-3).floor().clamp(0., 255.), (v + 1e-3).floor().clamp(0., 255.))
    }
}
impl Sub8 for u16 {
    fn store(v: f64) -> (f64, f64) {
        ((v - 2e-2).floor().clamp(0., 65535.), (v + 2e-2).floor().clamp(0., 65535.))
    }
}
impl Sub8 for f32 {
    fn store(v: f64) -> (f64, f64) {
        (v - 1e-3 * v.abs().max(1.), v + 1e-3 * v.abs().max(1.))
    }
}
struct Stats {
    partial: u32,
    full: u32,
    twice: bool,
    cut: bool,
}
fn compare<P: Pixel>(before: &Image<P>, got: &Image<P>, color: P, at: (i32, i32), l: &Layout, what: &str) -> Result<Stats, Fail>
where
    P::Subpixel: Sub8,
{
    let ch = P::CHANNEL_COUNT as usize;
    let (w, h) = before.dimensions();
    let mut lo: Vec<f64> = before.as_raw().iter().map(|v| (*v).into()).collect();
    let mut hi = lo.clone();
    let mut hits = vec![0u8; (w * h) as usize];
    let mut st = Stats { partial: 0, full: 0, twice: false, cut: false };
    for p in &l.glyphs {
        p.g.draw(|gx, gy, gv| {
            let (x, y) = (at.0 as i64 + p.x + gx as i64, at.1 as i64 + p.y + gy as i64);
            if x < 0 || y < 0 || x >= w as i64 || y >= h as i64 {
                st.cut = true;
                return;
            }
            let i = (y * w as i64 + x) as usize;
            let v = (gv as f64).clamp(0., 1.);
            if v > 0. {
                st.twice |= hits[i] > 0;
                hits[i] = 1;
                if gv >= 1. { st.full += 1 } else { st.partial += 1 }
            }
            for c in 0..ch {
                let k: f64 = color.channels()[c].into();
                let (a, b) = (lo[i * ch + c], hi[i * ch + c]);
                if gv >= 1. {
                    (lo[i * ch + c], hi[i * ch + c]) = (k, k);
                } else if v > 0. {
                    lo[i * ch + c] = P::Subpixel::store(a * (1. - v) + k * v).0;
                    hi[i * ch + c] = P::Subpixel::store(b * (1. - v) + k * v).1;
                }
            }
        });
    }
    ensure!(got.dimensions() == (w, h), "{what} returned {:?} for {w}x{h}", got.dimensions());
    for y in 0..h {
        for x in 0..w {
            for c in 0..ch {
                let i = (y * w + x) as usize * ch + c;
                let v: f64 = got.as_raw()[i].into();
                ensure!(v >= lo[i] && v <= hi[i], "{what}: channel {c} of ({x},{y}) is {v}, want {}..={} (was {:?}, colour {:?})", lo[i], hi[i], before.as_raw()[i], color.channels()[c]);
            }
        }
    }
    Ok(st)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    text: String,
    scale: (f32, f32),
    at: (i32, i32),
    w: u32,
    h: u32,
    seed: u32,
    color: u8,
    kind: u8,
}
fn scales() -> BoxedStrategy<(f32, f32)> {
    let v = || prop_oneof![6 => 4f32..30., 2 => 30f32..80., 1 => Just(0f32), 1 => 0f32..4.];
    prop_oneof![3 => v().prop_map(|s| (s, s)), 1 => (v(), v())].boxed()
}
fn texts() -> BoxedStrategy<String> {
    prop_oneof![2 => text(), 2 => "[a-z0-9 ]{0,8}", 1 => "[ATVLoaeyPW.,]{2,5}", 1 => "[ -~]{0,12}"].boxed()
}
fn case() -> BoxedStrategy<Case> {
    (texts(), scales(), prop_oneof![6 => (-10i32..20, -15i32..15), 1 => (-200i32..20, -60i32..20), 1 => (0i32..3, 0i32..3)], (4u32..90, 4u32..60), any::<u32>(), any::<u8>(), 0u8..5)
        .prop_map(|(text, scale, at, (w, h), seed, color, kind)| Case { text, scale, at, w, h, seed, color, kind })
        .boxed()
}
fn px(seed: u32, i: usize) -> u8 {
    let z = (i as u32).wrapping_mul(0x9E3779B1) ^ seed;
    if seed % 4 == 0 { (seed >> 8) as u8 } else { ((z ^ z >> 15).wrapping_mul(0x85EB_CA6B) >> 24) as u8 }
}
fn run<P: Pixel>(c: &Case, mk: impl Fn(u8) -> P::Subpixel) -> R
where
    P::Subpixel: Sub8 + imageproc::definitions::Clamp<f32>,
{
    let ch = P::CHANNEL_COUNT as usize;
    let f = font();
    let s = PxScale { x: c.scale.0, y: c.scale.1 };
    let im: Image<P> = ImageBuffer::from_raw(c.w, c.h, (0..(c.w * c.h) as usize * ch).map(|i| mk(px(c.seed, i))).collect()).unwrap();
    let cc: Vec<P::Subpixel> = (0..ch).map(|i| mk(c.color.wrapping_mul(1 + 76 * i as u8))).collect();
    let color = *P::from_slice(&cc);
    let a = draw_text(&im, color, c.at.0, c.at.1, s, &f, &c.text);
    let mut b = im.clone();
    draw_text_mut(&mut b, color, c.at.0, c.at.1, s, &f, &c.text);
    if let Some(d) = diff(&a, &b) {
        return Err(format!("draw_text and draw_text_mut differ: {d}").into());
    }
    let good = layout(&f, s, &c.text, false);
    let size = text_size(s, &f, &c.text);
    let verdict = |l: &Layout| -> Result<Stats, Fail> {
        size_ok(l, size, &c.text)?;
        compare(&im, &a, color, c.at, l, "draw_text")
    };
    let st = match verdict(&good) {
        Ok(st) => st,
        Err(e) => {
            let sig = verdict(&layout(&f, s, &c.text, true)).is_ok().then(|| KERN.to_string());
            return Err(Fail { sig, ..e });
        }
    };
    if c.text.is_empty() {
        return lab(true, "empty text");
    }
    lab(st.partial > 0, match (st.full > 0, st.twice, st.cut) {
        (_, true, _) => "letters overlap",
        (true, _, true) => "cut by the border",
        (true, _, false) => "wholly inside",
        _ => "partial coverage only",
    })
}
fn draw(c: &Case) -> R {
    match c.kind {
        0 | 1 => run::<Luma<u8>>(c, |v| v),
        2 => run::<Rgb<u8>>(c, |v| v),
        3 => run::<Luma<u16>>(c, |v| v as u16 * 257),
        _ => run::<Luma<f32>>(c, |v| v as f32 / 8. - 4.),
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Move {
    text: String,
    scale: (f32, f32),
    at: (i32, i32),
    by: (i32, i32),
    w: u32,
    h: u32,
}
/// A drawing is a window of the drawing on a larger image at the moved position.
fn moved(c: &Move) -> R {
    let f = font();
    let s = PxScale { x: c.scale.0, y: c.scale.1 };
    let small = draw_text(&Image::<Luma<u8>>::new(c.w, c.h), Luma([255]), c.at.0, c.at.1, s, &f, &c.text);
    let (dx, dy) = (c.by.0 as u32, c.by.1 as u32);
    let big = draw_text(&Image::<Luma<u8>>::new(c.w + dx + 7, c.h + dy + 5), Luma([255]), c.at.0 + c.by.0, c.at.1 + c.by.1, s, &f, &c.text);
    let mut ink = 0;
    for (x, y, p) in small.enumerate_pixels() {
        ensure!(p == big.get_pixel(x + dx, y + dy), "({x},{y}) is {} but {} after moving the text by {:?}", p[0], big.get_pixel(x + dx, y + dy)[0], c.by);
        ink += (p[0] > 0) as u32;
    }
    nt(ink > 3)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Grow {
    a: String,
    b: String,
    scale: (f32, f32),
}
/// Sizes grow with the text, everything drawn lies within the box up to the overhang of the letters.
fn grow(c: &Grow) -> R {
    let f = font();
    let s = PxScale { x: c.scale.0, y: c.scale.1 };
    let mut t = c.a.clone();
    let mut last = text_size(s, &f, &t);
    for ch in c.b.chars() {
        t.push(ch);
        let n = text_size(s, &f, &t);
        ensure!(n.0 >= last.0 && n.1 >= last.1, "the size of {t:?} is {n:?}, without its last letter {last:?}");
        last = n;
    }
    let l = layout(&f, s, &t, false);
    if let Err(e) = size_ok(&l, last, &t) {
        let sig = size_ok(&layout(&f, s, &t, true), last, &t).is_ok().then(|| KERN.to_string());
        return Err(Fail { sig, ..e });
    }
    // Uniform scaling scales the box.
    let two = text_size(PxScale { x: 2. * s.x, y: 2. * s.y }, &f, &t);
    if !t.is_empty() {
        let (w1, w2) = (last.0 as f64 - 1., two.0 as f64 - 1.);
        ensure!(w2 <= 2. * w1 + 0.01 && w2 >= 2. * (w1 - 1.) - 0.01, "{t:?} is {last:?}, twice as large {two:?}");
    }
    nt(c.b.len() > 1 && !t.is_empty())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Far {
    text: String,
    scale: f32,
    at: (i32, i32),
}
/// Text placed anywhere in the plane that misses the image leaves it alone.
fn far(c: &Far) -> R {
    let f = font();
    let (w, h) = (9, 7);
    let im: Image<Luma<u8>> = ImageBuffer::from_fn(w, h, |x, y| Luma([(x * 20 + y) as u8]));
    let got = no_panic(|| draw_text(&im, Luma([255]), c.at.0, c.at.1, c.scale, &f, &c.text)).map_err(|e| format!("draw_text at {:?}: {e}", c.at))?;
    if let Some(d) = diff(&im, &got) {
        return Err(format!("text at {:?} changed a 9x7 image: {d}", c.at).into());
    }
    nt(!c.text.trim().is_empty())
}

pub fn prop() -> Prop {
    Prop {
        id: "C41",
        rule: "drawing: at least one pixel of the image is partially covered (or the text is empty); moving: ink in the window; growth: two letters appended; far: visible letters",
        assumptions: &["The font is DejaVuSans; outlines, coverages and metrics come from the ab_glyph crate, which is trusted."],
        subs: vec![
            sub("drawing equals the per-letter model", 120_000, case, draw),
            sub("moving the text moves the drawing", 60_000, || {
                (texts(), scales(), (-20i32..40, -20i32..40), (0i32..50, 0i32..50), (1u32..60, 1u32..40)).prop_map(|(text, scale, at, by, (w, h))| Move { text, scale, at, by, w, h }).boxed()
            }, moved),
            sub("the measured size", 40_000, || (texts(), "[ -~]{0,5}", scales()).prop_map(|(a, b, scale)| Grow { a, b, scale }).boxed(), grow),
            sub("text far outside", 20_000, || {
                let e = || prop_oneof![Just(i32::MAX), Just(i32::MIN), Just(i32::MAX - 3), Just(i32::MIN + 3), 2000i32..1_000_000_000, -1_000_000_000i32..-2000];
                let o = || -5i32..10;
                (texts(), 1f32..40., prop_oneof![(e(), o()), (o(), e()), (e(), e())]).prop_map(|(text, scale, at)| Far { text, scale, at }).boxed()
            }, far),
        ],
    }
}
