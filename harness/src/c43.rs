//! C43: image literals, pixel comparison helpers and point arithmetic.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{GrayImage, ImageBuffer, Luma, Pixel, Rgb, Rgba};
use imageproc::point::Point;
use imageproc::utils::*;
use imageproc::{assert_dimensions_match, assert_pixels_eq, assert_pixels_eq_within, gray_image, rgb_image, rgba_image};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

type Buf<P> = ImageBuffer<P, Vec<<P as Pixel>::Subpixel>>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case<T> {
    a: Im<T>,
    b: Im<T>,
    /// Differences above this count.
    tol: T,
}

/// Splits text into (colour, character): 0 outside any escape sequence.
fn cells(s: &str) -> Vec<(u32, char)> {
    let (mut out, mut col, mut it) = (vec![], 0, s.chars());
    while let Some(c) = it.next() {
        if c == '\x1b' {
            let code: String = it.by_ref().skip(1).take_while(|c| *c != 'm').collect();
            col = code.parse().unwrap_or(0);
        } else {
            out.push((col, c));
        }
    }
    out
}
/// The words of the text with the colour of their first letter.
fn words(s: &[(u32, char)]) -> Vec<(u32, String)> {
    let (mut out, mut cur): (Vec<(u32, String)>, Option<(u32, String)>) = (vec![], None);
    for &(k, c) in s {
        if c.is_whitespace() {
            out.extend(cur.take());
        } else {
            cur.get_or_insert((k, String::new())).1.push(c);
        }
    }
    out.extend(cur);
    out
}
fn show<P: Pixel>(p: &P) -> String
where
    P::Subpixel: std::fmt::Debug,
{
    let v: Vec<String> = p.channels().iter().map(|c| format!("{c:?}")).collect();
    if v.len() == 1 { v[0].clone() } else { format!("[{}]", v.join(", ")) }
}
fn squash(s: &str) -> String {
    s.split_whitespace().collect()
}

/// The message about the pixels in `d` names them as documented.
fn described<P>(a: &Buf<P>, b: &Buf<P>, d: &[(u32, u32)], msg: &str) -> Result<&'static str, Fail>
where
    P: Pixel,
    P::Subpixel: std::fmt::Debug,
{
    let c = cells(msg);
    let plain: String = c.iter().map(|p| p.1).collect();
    let (l, r) = (d.iter().map(|p| p.0).min().unwrap(), d.iter().map(|p| p.0).max().unwrap());
    let (t, u) = (d.iter().map(|p| p.1).min().unwrap(), d.iter().map(|p| p.1).max().unwrap());
    if (r - l).max(u - t) >= 6 {
        // the first five pixels with their values
        let text = squash(&plain);
        let mut want = "pixelsdonotmatch.".to_string();
        for &(x, y) in d.iter().take(5) {
            want += &squash(&format!("location: {:?}, actual: {}, expected: {}", (x, y), show(a.get_pixel(x, y)), show(b.get_pixel(x, y))));
        }
        ensure!(text == want, "differences {d:?} are described as {plain:?}, want {want:?}");
        return Ok("list");
    }
    // both images around the differences, two pixels further on each side
    let (l, t) = (l.saturating_sub(2), t.saturating_sub(2));
    let (r, u) = ((r + 2).min(a.width() - 1), (u + 2).min(a.height() - 1));
    let heads: Vec<usize> = ["Actual:", "Expected:"].iter().filter_map(|h| plain.find(h)).collect();
    ensure!(heads.len() == 2 && heads[0] < heads[1] && plain.is_ascii(), "description {plain:?} does not show both images");
    for (k, (im, from, to, hot)) in [(a, heads[0] + 7, heads[1], 31), (b, heads[1] + 9, plain.len(), 32)].into_iter().enumerate() {
        let rows: Vec<&[(u32, char)]> = c[from..to].split(|p| p.1 == '\n').collect();
        // column numbers, then rows "y | values"
        let cols: Vec<String> = rows.iter().map(|r| words(r)).find(|w| !w.is_empty()).unwrap_or_default().into_iter().map(|w| w.1).collect();
        let want: Vec<String> = (l..=r).map(|x| x.to_string()).collect();
        ensure!(cols == want, "image {k}: columns {cols:?} shown, want {want:?}");
        let mut y = t;
        for row in &rows {
            let Some(bar) = row.iter().position(|p| p.1 == '|') else { continue };
            let head: String = row[..bar].iter().map(|p| p.1).collect();
            if head.trim().is_empty() {
                continue;
            }
            ensure!(head.trim() == y.to_string(), "image {k}: row {head:?} shown where {y} is expected");
            let got: String = row[bar + 1..].iter().map(|p| p.1).filter(|c| !c.is_whitespace()).collect();
            let want: String = (l..=r).map(|x| squash(&show(im.get_pixel(x, y)))).collect();
            ensure!(got == want, "image {k}: row {y} shows {got:?}, want {want:?}");
            let cols: Vec<u32> = row[bar + 1..].iter().filter(|p| !p.1.is_whitespace()).map(|p| p.0).collect();
            let mut i = 0;
            for x in l..=r {
                let n = squash(&show(im.get_pixel(x, y))).len();
                let q = if d.contains(&(x, y)) { hot } else { 36 };
                ensure!(cols[i..i + n].iter().all(|c| *c == q), "image {k}: pixel ({x},{y}) is shown in colours {:?}, want {q}", &cols[i..i + n]);
                i += n;
            }
            y += 1;
        }
        ensure!(y == u + 1, "image {k}: rows {t}..{y} shown, want up to {u}");
    }
    Ok("region")
}

fn compare<P, T>(c: &Case<T>) -> R
where
    P: Pixel<Subpixel = T> + PartialEq + std::fmt::Debug,
    T: image::Primitive + std::fmt::Debug + std::panic::RefUnwindSafe,
{
    let (a, b): (Buf<P>, Buf<P>) = (c.a.buf(), c.b.buf());
    let same = a.dimensions() == b.dimensions();
    let far = |p: &P, q: &P, t: T| p.channels().iter().zip(q.channels()).any(|(s, u)| (if s > u { *s - *u } else { *u - *s }) > t);
    let list = |f: &dyn Fn(&P, &P) -> bool| -> Vec<(u32, u32)> {
        (0..a.height()).flat_map(|y| (0..a.width()).map(move |x| (x, y))).filter(|&(x, y)| f(a.get_pixel(x, y), b.get_pixel(x, y))).collect()
    };
    let dims = no_panic(|| assert_dimensions_match!(a, b));
    ensure!(dims.is_err() != same, "assert_dimensions_match! on {:?} and {:?}: {dims:?}", a.dimensions(), b.dimensions());
    let eq = no_panic(|| assert_pixels_eq!(a, b));
    let tol = c.tol;
    let near = no_panic(|| assert_pixels_eq_within!(a, b, tol));
    let sum = pixel_diff_summary(&a, &b);
    if !same {
        ensure!(eq.is_err() && near.is_err() && sum.is_some(), "dimensions {:?} and {:?} count as equal", a.dimensions(), b.dimensions());
        let m = sum.unwrap();
        ensure!(m.contains(&format!("{:?}", a.dimensions())) && m.contains(&format!("{:?}", b.dimensions())), "dimensions {:?} and {:?} are described as {m:?}", a.dimensions(), b.dimensions());
        return lab(true, "dimensions");
    }
    let d = list(&|p, q| p != q);
    let dt = list(&|p, q| far(p, q, tol));
    ensure!(eq.is_err() != d.is_empty(), "assert_pixels_eq! with differences at {d:?}: {eq:?}");
    ensure!(near.is_err() != dt.is_empty(), "assert_pixels_eq_within!({tol:?}) with differences at {dt:?}: {near:?}");
    let got: Vec<(u32, u32)> = pixel_diffs(&a, &b, |p, q| p != q).iter().map(|x| (x.x, x.y)).collect();
    ensure!(got == d, "pixel_diffs finds {got:?}, want {d:?}");
    for x in pixel_diffs(&a, &b, |p, q| far(&p.2, &q.2, tol)) {
        ensure!(dt.contains(&(x.x, x.y)) && x.actual == *a.get_pixel(x.x, x.y) && x.expected == *b.get_pixel(x.x, x.y), "pixel_diffs reports {:?} and {:?} at ({},{})", x.actual, x.expected, x.x, x.y);
    }
    ensure!(sum.is_none() == d.is_empty(), "pixel_diff_summary with differences at {d:?}: {sum:?}");
    let st = significant_pixel_diff_summary(&a, &b, |p, q| far(&p.2, &q.2, tol));
    ensure!(st.is_none() == dt.is_empty(), "significant_pixel_diff_summary with differences at {dt:?}: {st:?}");
    let mut how = "equal";
    if let Some(m) = &sum {
        how = described(&a, &b, &d, m)?;
    }
    if let Some(m) = &st {
        described(&a, &b, &dt, m)?;
    }
    lab(!d.is_empty(), how)
}

/// A pair of images differing in a few pixels, in all, in none, or in size.
fn pair<T>(im: fn(BoxedStrategy<u32>, BoxedStrategy<u32>, u32) -> BoxedStrategy<Im<T>>, ch: u32, tols: BoxedStrategy<T>) -> BoxedStrategy<Case<T>>
where
    T: Copy + std::fmt::Debug + Serialize + 'static,
{
    let one = move || im(side0(14), side0(14), ch);
    let edit = (one(), prop::collection::vec((any::<u32>(), any::<u32>()), 0..4), any::<bool>())
        .prop_map(|(a, e, near)| {
            let mut b = a.clone();
            let n = a.d.len();
            let base = e.first().map_or(0, |e| e.0);
            for (i, j) in e {
                if n > 0 {
                    let i = if near { base as usize + (i % 4) as usize } else { i as usize };
                    b.d[i % n] = a.d[j as usize % n];
                }
            }
            (a, b)
        })
        .boxed();
    let other = (one(), one()).boxed();
    let dims = one().prop_flat_map(move |a| (Just(a.clone()), im(Just(a.w).boxed(), Just(a.h).boxed(), ch))).boxed();
    (prop_oneof![6 => edit, 1 => other, 2 => dims], tols, any::<bool>())
        .prop_map(|((a, b), tol, s)| if s { Case { a, b, tol } } else { Case { a: b, b: a, tol } })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lit {
    v: Vec<u16>,
}
fn literals(c: &Lit) -> R {
    let v = &c.v;
    let u = |i: usize| v[i] as u8;
    let f = |i: usize| v[i] as f32;
    macro_rules! same {
        ($im:expr, $w:expr, $h:expr, $want:expr) => {{
            let im = $im;
            ensure!(im.dimensions() == ($w, $h) && *im.as_raw() == $want, "literal {} is {:?} {:?}, want {:?}", stringify!($im), im.dimensions(), im.as_raw(), $want);
        }};
    }
    let e: GrayImage = gray_image!();
    ensure!(e.dimensions() == (0, 0), "empty literal");
    ensure!(gray_image!(type: i16).dimensions() == (0, 0) && rgb_image!().dimensions() == (0, 0) && rgb_image!(type: u16).dimensions() == (0, 0), "empty literal");
    ensure!(rgba_image!().dimensions() == (0, 0) && rgba_image!(type: f32).dimensions() == (0, 0), "empty literal");
    same!(gray_image!(u(0)), 1, 1, vec![u(0)]);
    same!(gray_image!(u(0), u(1), u(2)), 3, 1, vec![u(0), u(1), u(2)]);
    same!(gray_image!(u(0); u(1); u(2)), 1, 3, vec![u(0), u(1), u(2)]);
    same!(gray_image!(u(0), u(1), u(2); u(3), u(4), u(5)), 3, 2, (0..6).map(u).collect::<Vec<_>>());
    same!(gray_image!(type: u16, v[0], v[1]; v[2], v[3]; v[4], v[5]), 2, 3, v[..6].to_vec());
    same!(gray_image!(type: f32, f(0), f(1); f(2), f(3)), 2, 2, (0..4).map(f).collect::<Vec<_>>());
    same!(rgb_image!([u(0), u(1), u(2)], [u(3), u(4), u(5)]; [u(6), u(7), u(8)], [u(9), u(10), u(11)]; [u(0), u(0), u(1)], [u(2), u(1), u(1)]), 2, 3, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 0, 0, 1, 2, 1, 1].map(u).to_vec());
    same!(rgb_image!(type: u16, [v[0], v[1], v[2]], [v[3], v[4], v[5]], [v[6], v[7], v[8]]), 3, 1, v[..9].to_vec());
    same!(rgba_image!([u(0), u(1), u(2), u(3)]; [u(4), u(5), u(6), u(7)]), 1, 2, (0..8).map(u).collect::<Vec<_>>());
    same!(rgba_image!(type: u16, [v[0], v[1], v[2], v[3]], [v[4], v[5], v[6], v[7]]; [v[8], v[9], v[10], v[11]], [v[1], v[0], v[3], v[2]]), 2, 2, [&v[..], &[v[1], v[0], v[3], v[2]]].concat());
    nt(c.v.windows(2).any(|p| p[0] != p[1]))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pts {
    a: (i32, i32),
    b: (i32, i32),
    k: Vec<(i32, i32)>,
}
fn points(c: &Pts) -> R {
    macro_rules! go {
        ($t:ty, $m:expr) => {{
            let f = |v: i32| (v % $m) as $t;
            let g = |p: (i32, i32)| Point::new(f(p.0), f(p.1));
            let (p, q) = (g(c.a), g(c.b));
            ensure!((p.x, p.y) == (f(c.a.0), f(c.a.1)), "Point::new gives {p:?}");
            let s = p + q;
            ensure!((s.x, s.y) == (p.x + q.x, p.y + q.y), "{p:?} + {q:?} = {s:?}");
            let d = s - q;
            ensure!(d == p, "{p:?} + {q:?} - {q:?} = {d:?}");
            let (mut acc, mut x, mut y) = (p, p.x, p.y);
            for (i, &k) in c.k.iter().enumerate() {
                let k = g(k);
                acc += k;
                x = x + k.x;
                y = y + k.y;
                ensure!((acc.x, acc.y) == (x, y), "after += {k:?}: {acc:?}, want ({x:?},{y:?})");
                if i % 2 == 1 {
                    acc -= k;
                    x = x - k.x;
                    y = y - k.y;
                    ensure!((acc.x, acc.y) == (x, y), "after -= {k:?}: {acc:?}, want ({x:?},{y:?})");
                }
            }
            ensure!((p == q) == (p.x == q.x && p.y == q.y), "{p:?} == {q:?}");
        }};
    }
    go!(i32, 1_000_000);
    go!(i64, i32::MAX);
    go!(i16, 1000);
    go!(f64, i32::MAX);
    go!(f32, 100_000);
    // unsigned, without going below zero
    let h = |p: (i32, i32)| Point::new(p.0.unsigned_abs() % 1000 + 1000, p.1.unsigned_abs() % 1000);
    let (p, q) = (h(c.a), h(c.b));
    ensure!(p + q - p == q && (p + q).x == p.x + q.x && (p + q).y == p.y + q.y, "{p:?} + {q:?} on u32");
    nt(c.a != c.b)
}

pub fn prop() -> Prop {
    Prop {
        id: "C43",
        rule: "Image pairs that are equal, differ in a few (clustered or scattered) pixels or everywhere, or differ in size, over gray, RGB, RGBA and 16-bit and float pixels: every comparison helper and assertion macro is compared with a direct pixel-by-pixel comparison, and the printed description is parsed and compared with the images. Image literals with generated values, point arithmetic on several number types. Non-trivial: the images differ, the values vary, the points differ.",
        assumptions: &["the difference of two channel values is representable in the channel's type and not NaN", "descriptions are requested for at least one difference"],
        subs: vec![
            sub("gray", 60000, || pair(im_u8, 1, prop_oneof![0u8..4, any::<u8>()].boxed()), compare::<Luma<u8>, u8>),
            sub("rgb", 30000, || pair(im_u8, 3, prop_oneof![0u8..4, any::<u8>()].boxed()), compare::<Rgb<u8>, u8>),
            sub("rgba", 20000, || pair(im_u8, 4, prop_oneof![0u8..4, any::<u8>()].boxed()), compare::<Rgba<u8>, u8>),
            sub("gray16", 20000, || pair(im_u16, 1, prop_oneof![0u16..4, any::<u16>()].boxed()), compare::<Luma<u16>, u16>),
            sub("grayf", 20000, || pair(im_f32, 1, prop_oneof![Just(0f32), 0f32..4., 0f32..1000.].boxed()), compare::<Luma<f32>, f32>),
            sub("literals", 20000, || prop::collection::vec(any::<u16>(), 12).prop_map(|v| Lit { v }).boxed(), literals),
            sub("points", 20000, || {
                let p = || (any::<i32>(), any::<i32>());
                (p(), p(), prop::collection::vec(p(), 0..6)).prop_map(|(a, b, k)| Pts { a, b, k }).boxed()
            }, points),
        ],
    }
}
