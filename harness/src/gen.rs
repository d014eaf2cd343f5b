//! Serialisable images and generators shared by the properties.
use image::{ImageBuffer, Luma, Pixel, Rgb, Rgba};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A serialisable image; `d` holds the interleaved subpixels.
#[derive(Clone, Serialize, Deserialize, PartialEq)]
pub struct Im<T> {
    pub w: u32,
    pub h: u32,
    pub d: Vec<T>,
}

impl<T: std::fmt::Debug> std::fmt::Debug for Im<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Im {}x{} {:?}", self.w, self.h, self.d)
    }
}

impl<T: Copy + image::Primitive> Im<T> {
    pub fn buf<P: Pixel<Subpixel = T>>(&self) -> ImageBuffer<P, Vec<T>> {
        ImageBuffer::from_raw(self.w, self.h, self.d.clone()).expect("image dimensions")
    }
    pub fn luma(&self) -> ImageBuffer<Luma<T>, Vec<T>> {
        ImageBuffer::from_raw(self.w, self.h, self.d.clone()).expect("image dimensions")
    }
    pub fn rgb(&self) -> ImageBuffer<Rgb<T>, Vec<T>>
    where
        Rgb<T>: Pixel<Subpixel = T>,
    {
        ImageBuffer::from_raw(self.w, self.h, self.d.clone()).expect("image dimensions")
    }
    pub fn rgba(&self) -> ImageBuffer<Rgba<T>, Vec<T>>
    where
        Rgba<T>: Pixel<Subpixel = T>,
    {
        ImageBuffer::from_raw(self.w, self.h, self.d.clone()).expect("image dimensions")
    }
    pub fn at(&self, x: u32, y: u32) -> T {
        self.d[(y * self.w + x) as usize]
    }
    /// More than one value present.
    pub fn varied(&self) -> bool {
        self.d.windows(2).any(|p| p[0] != p[1])
    }
}

/// Side lengths, biased towards tiny ones.
pub fn side(max: u32) -> BoxedStrategy<u32> {
    prop_oneof![2 => 1u32..=3.min(max), 5 => 1u32..=max].boxed()
}

/// Side lengths including zero.
pub fn side0(max: u32) -> BoxedStrategy<u32> {
    prop_oneof![1 => Just(0u32), 3 => 1u32..=3.min(max), 8 => 1u32..=max].boxed()
}

fn fill<T: Clone + std::fmt::Debug + 'static>(w: BoxedStrategy<u32>, h: BoxedStrategy<u32>, ch: u32, elems: Vec<BoxedStrategy<T>>) -> BoxedStrategy<Im<T>> {
    let n = elems.len();
    (w, h, 0..n)
        .prop_flat_map(move |(w, h, s)| {
            proptest::collection::vec(elems[s].clone(), (w * h * ch) as usize).prop_map(move |d| Im { w, h, d })
        })
        .boxed()
}

pub fn elems_u8() -> Vec<BoxedStrategy<u8>> {
    vec![
        any::<u8>().boxed(),
        any::<u8>().boxed(),
        prop_oneof![Just(0u8), Just(255u8)].boxed(),
        prop_oneof![4 => Just(0u8), 1 => 1u8..=255].boxed(),
        (0u8..4).boxed(),
        (100u8..110).boxed(),
        prop::sample::select(vec![0u8, 1, 2, 126, 127, 128, 129, 253, 254, 255]).boxed(),
    ]
}
pub fn elems_u16() -> Vec<BoxedStrategy<u16>> {
    vec![any::<u16>().boxed(), prop_oneof![Just(0u16), Just(65535)].boxed(), (0u16..5).boxed(), (65530u16..=65535).boxed()]
}
pub fn elems_i16() -> Vec<BoxedStrategy<i16>> {
    vec![any::<i16>().boxed(), (-5i16..5).boxed(), prop::sample::select(vec![i16::MIN, -1, 0, 1, i16::MAX]).boxed()]
}
/// Moderate floats (no NaN/inf), some with few significant bits so sums are exact.
pub fn elems_f32() -> Vec<BoxedStrategy<f32>> {
    vec![
        (-1000f32..1000.).boxed(),
        (-100i32..100).prop_map(|v| v as f32).boxed(),
        (0f32..1.).boxed(),
        (-64i32..64).prop_map(|v| v as f32 / 16.0).boxed(),
    ]
}

pub fn im_u8(w: BoxedStrategy<u32>, h: BoxedStrategy<u32>, ch: u32) -> BoxedStrategy<Im<u8>> {
    fill(w, h, ch, elems_u8())
}
pub fn im_u16(w: BoxedStrategy<u32>, h: BoxedStrategy<u32>, ch: u32) -> BoxedStrategy<Im<u16>> {
    fill(w, h, ch, elems_u16())
}
pub fn im_i16(w: BoxedStrategy<u32>, h: BoxedStrategy<u32>, ch: u32) -> BoxedStrategy<Im<i16>> {
    fill(w, h, ch, elems_i16())
}
pub fn im_f32(w: BoxedStrategy<u32>, h: BoxedStrategy<u32>, ch: u32) -> BoxedStrategy<Im<f32>> {
    fill(w, h, ch, elems_f32())
}
pub fn im_of<T: Clone + std::fmt::Debug + 'static>(w: BoxedStrategy<u32>, h: BoxedStrategy<u32>, ch: u32, e: BoxedStrategy<T>) -> BoxedStrategy<Im<T>> {
    fill(w, h, ch, vec![e])
}
/// Two-valued images of varied density, with blocks as well as noise.
pub fn im_bin(w: BoxedStrategy<u32>, h: BoxedStrategy<u32>) -> BoxedStrategy<Im<u8>> {
    let b = |p: u32, q: u32| prop_oneof![p => Just(0u8), q => Just(255u8)].boxed();
    let blocks = (w.clone(), h.clone())
        .prop_flat_map(|(w, h)| {
            (Just((w, h)), prop::collection::vec((0..w.max(1), 0..h.max(1), 1u32..8, 1u32..8, any::<bool>()), 0..7))
        })
        .prop_map(|((w, h), rs)| {
            let mut d = vec![0u8; (w * h) as usize];
            for (x, y, rw, rh, on) in rs {
                for yy in y..(y + rh).min(h) {
                    for xx in x..(x + rw).min(w) {
                        d[(yy * w + xx) as usize] = if on { 255 } else { 0 };
                    }
                }
            }
            Im { w, h, d }
        })
        .boxed();
    let noise = fill(w, h, 1, vec![b(1, 1), b(5, 1), b(1, 5), b(20, 1), b(1, 20), b(2, 1), b(1, 0), b(0, 1)]);
    prop_oneof![3 => noise, 2 => blocks].boxed()
}

pub fn s(max: u32) -> BoxedStrategy<u32> {
    side(max)
}

/// A large image described by a small recipe; expanded deterministically.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Big {
    pub w: u32,
    pub h: u32,
    pub seed: u64,
    /// number of grey levels minus one
    pub levels: u8,
}
impl Big {
    pub fn bytes(&self, ch: u32) -> Vec<u8> {
        let mut x = self.seed | 1;
        (0..self.w as usize * self.h as usize * ch as usize)
            .map(|_| {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let v = (x >> 33) as u32 as u64;
                if self.levels == 255 {
                    v as u8
                } else {
                    ((v % (self.levels as u64 + 1)) * 255 / (self.levels.max(1) as u64)) as u8
                }
            })
            .collect()
    }
    pub fn im(&self, ch: u32) -> Im<u8> {
        Im { w: self.w, h: self.h, d: self.bytes(ch) }
    }
}
pub fn big(maxw: u32, maxh: u32) -> BoxedStrategy<Big> {
    (1..=maxw, 1..=maxh, any::<u64>(), prop_oneof![Just(255u8), Just(1u8), 1u8..=255])
        .prop_map(|(w, h, seed, levels)| Big { w, h, seed, levels })
        .boxed()
}

/// Reproducible numbers for inputs too large to be listed.
pub fn lcg(seed: u64) -> impl FnMut(u64) -> u64 {
    let mut x = seed | 1;
    move |n| {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (x >> 33) % n.max(1)
    }
}
/// Clamps an index to [0, n-1].
pub fn cl(i: i64, n: u32) -> u32 {
    i.clamp(0, n as i64 - 1) as u32
}

/// First differing subpixel of two images of any pixel type.
pub fn diff<P: Pixel>(a: &ImageBuffer<P, Vec<P::Subpixel>>, b: &ImageBuffer<P, Vec<P::Subpixel>>) -> Option<String>
where
    P::Subpixel: std::fmt::Debug + PartialEq,
{
    if a.dimensions() != b.dimensions() {
        return Some(format!("dimensions {:?} != {:?}", a.dimensions(), b.dimensions()));
    }
    for (x, y, p) in a.enumerate_pixels() {
        let q = b.get_pixel(x, y);
        if p.channels() != q.channels() {
            return Some(format!("at ({x},{y}): {:?} != {:?}", p.channels(), q.channels()));
        }
    }
    None
}

/// Correlation with the anchor at (kw/2, kh/2), borders replicated, channel by channel, in f64.
pub fn reference<T: Copy + Into<f64>, K: Copy + Into<f64>>(im: &Im<T>, ch: u32, k: &[K], kw: u32, kh: u32) -> Vec<f64> {
    let mut out = vec![];
    for y in 0..im.h {
        for x in 0..im.w {
            for c in 0..ch {
                let mut a = 0f64;
                for j in 0..kh {
                    for i in 0..kw {
                        let px = cl(x as i64 + i as i64 - (kw / 2) as i64, im.w);
                        let py = cl(y as i64 + j as i64 - (kh / 2) as i64, im.h);
                        let v: f64 = im.d[((py * im.w + px) * ch + c) as usize].into();
                        let kv: f64 = k[(j * kw + i) as usize].into();
                        a += v * kv;
                    }
                }
                out.push(a);
            }
        }
    }
    out
}

/// Contents for images too large to be generated pixel by pixel.
fn pattern(w: u32, h: u32, ch: u32, kind: u8, seed: u64) -> Vec<u8> {
    let mut s = seed | 1;
    let mut rnd = move || {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (s >> 33) as u32
    };
    let (a, b, lvl) = (rnd() % 7, rnd() % 7, rnd() as u8);
    let mut d = Vec::with_capacity((w * h * ch) as usize);
    for y in 0..h {
        for x in 0..w {
            for _ in 0..ch {
                let r = rnd();
                d.push(match kind {
                    0 => r as u8,
                    1 => if r & 64 == 0 { 0 } else { 255 },
                    2 => if r % 50 == 0 { (r >> 8) as u8 } else { 0 },
                    3 => if r % 50 == 0 { (r >> 8) as u8 } else { 255 },
                    4 => (x * a + y * b) as u8,
                    5 => if (x + y) % 2 == 0 { 255 } else { lvl & 1 },
                    6 => if (x / (a + 1) + y / (b + 1)) % 2 == 0 { lvl } else { lvl.wrapping_add(40) },
                    7 => ((x * x + y * y) / 64) as u8,
                    _ => 255,
                });
            }
        }
    }
    d
}
pub fn patterned(w: impl Strategy<Value = u32> + 'static, h: impl Strategy<Value = u32> + 'static, ch: u32) -> BoxedStrategy<Im<u8>> {
    (w, h, prop_oneof![16 => 0u8..8, 1 => Just(8u8)], any::<u64>()).prop_map(move |(w, h, k, seed)| Im { w, h, d: pattern(w, h, ch, k, seed) }).boxed()
}
/// Images with one side beyond 256, so that positions and counts do not fit in a byte.
pub fn strip(ch: u32) -> BoxedStrategy<Im<u8>> {
    prop_oneof![20 => short_strip(ch), 1 => long(ch)].boxed()
}
/// As `strip`, but of at most a few thousand pixels.
pub fn short_strip(ch: u32) -> BoxedStrategy<Im<u8>> {
    prop_oneof![patterned(257u32..420, 1u32..6, ch), patterned(1u32..6, 257u32..420, ch)].boxed()
}
/// Images with one side beyond 32768 and mostly beyond 65536.
pub fn long(ch: u32) -> BoxedStrategy<Im<u8>> {
    prop_oneof![patterned(far_side(), 1u32..3, ch), patterned(1u32..3, far_side(), ch)].boxed()
}
/// Images with both sides beyond 256: more than 65536 pixels.
pub fn plane(ch: u32) -> BoxedStrategy<Im<u8>> {
    patterned(257u32..300, 257u32..300, ch)
}

/// A side beyond 32768, mostly beyond 65536.
pub fn far_side() -> BoxedStrategy<u32> {
    prop_oneof![1 => 32766u32..32780, 3 => 65534u32..65700].boxed()
}
/// As `long`, described by a few numbers.
pub fn long_big() -> BoxedStrategy<Big> {
    let k = prop_oneof![Just(255u8), Just(1u8), 1u8..=255];
    (far_side(), 1u32..3, any::<bool>(), any::<u64>(), k).prop_map(|(a, b, t, seed, levels)| Big { w: if t { b } else { a }, h: if t { a } else { b }, seed, levels }).boxed()
}

/// Images of many millions of pixels, described by a few numbers.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Mega {
    pub w: u32,
    pub h: u32,
    pub levels: Vec<u8>,
}
impl Mega {
    pub fn im(&self) -> Im<u8> {
        let n = self.w as usize * self.h as usize;
        let k = self.levels.len();
        Im { w: self.w, h: self.h, d: (0..n).map(|i| self.levels[(i / 3 + (i >> 7) % 5) % k]).collect() }
    }
}
pub fn mega(w: std::ops::Range<u32>, h: std::ops::Range<u32>) -> BoxedStrategy<Mega> {
    (w, h, prop::collection::vec(prop_oneof![any::<u8>(), 240u8..=255], 1..9)).prop_map(|(w, h, levels)| Mega { w, h, levels }).boxed()
}
