//! C35: BRIEF descriptors and the matching of binary descriptors.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{GrayImage, Luma};
use imageproc::binary_descriptors::brief::*;
use imageproc::binary_descriptors::*;
use imageproc::corners::Corner;
use imageproc::point::Point;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Brief {
    im: Big,
    /// share of smooth content
    smooth: bool,
    keys: Vec<(u32, u32)>,
    pairs: Vec<[u32; 4]>,
    len: usize,
}
/// Mean over the 5x5 pixels around a point, as far as they are in the image, rounded down; 0 if there are none.
fn smoothed(im: &GrayImage, x: i64, y: i64) -> u32 {
    let (mut s, mut n) = (0u32, 0);
    for v in y - 2..=y + 2 {
        for u in x - 2..=x + 2 {
            if u >= 0 && v >= 0 && u < im.width() as i64 && v < im.height() as i64 {
                s += im.get_pixel(u as u32, v as u32)[0] as u32;
                n += 1;
            }
        }
    }
    if n == 0 { 0 } else { s / n }
}
fn source(c: &Brief) -> GrayImage {
    let im = c.im.im(1).luma();
    if c.smooth {
        GrayImage::from_fn(c.im.w, c.im.h, |x, y| Luma([(im.get_pixel(x / 5 * 5, y / 5 * 5)[0] / 2) + (x * 2 + y) as u8 / 2]))
    } else {
        im
    }
}
fn brief_bits(c: &Brief) -> R {
    let im = source(c);
    let (w, h) = im.dimensions();
    let keys: Vec<Point<u32>> = c.keys.iter().map(|k| Point::new(k.0, k.1)).collect();
    let pairs: Vec<TestPair> = c.pairs.iter().map(|p| TestPair { p0: Point::new(p[0], p[1]), p1: Point::new(p[2], p[3]) }).collect();
    let far = |k: &(u32, u32)| k.0 >= 16 && k.1 >= 16 && k.0 as i64 <= w as i64 - 17 && k.1 as i64 <= h as i64 - 17;
    let valid = c.len % 128 == 0 && pairs.len() == c.len && c.keys.iter().all(far);
    let got = no_panic(|| brief(&im, &keys, c.len, Some(&pairs)).map_err(|_| ())).map_err(Fail::from)?;
    ensure!(got.is_ok() == valid, "brief of a {w}x{h} image at {:?} with length {} and {} pairs: success {}, want {valid}", c.keys, c.len, pairs.len(), got.is_ok());
    let Ok((descs, used)) = got else { return lab(true, "rejected") };
    ensure!(used == pairs, "the test pairs returned are not those given");
    ensure!(descs.len() == keys.len(), "{} descriptors for {} key points", descs.len(), keys.len());
    let mut ones = 0;
    for (d, k) in descs.iter().zip(&c.keys) {
        ensure!((d.corner.x, d.corner.y) == *k && d.position() == Point::new(k.0, k.1), "descriptor at {:?}, want {k:?}", d.position());
        ensure!(d.get_size() as usize == c.len && d.bits.len() * 128 == c.len, "descriptor of {} bits, want {}", d.get_size(), c.len);
        for (i, p) in c.pairs.iter().enumerate() {
            // a pair's points are relative to one pixel right and below the patch's corner
            let at = |x: u32, y: u32| smoothed(&im, k.0 as i64 - 14 + x as i64, k.1 as i64 - 14 + y as i64);
            let want = at(p[0], p[1]) < at(p[2], p[3]);
            let bit = d.bits[i / 128] >> (127 - i % 128) & 1 == 1;
            ensure!(bit == want, "test {i} {p:?} at {k:?} is {bit}, want {want}");
            ones += want as u32;
        }
    }
    // generated pairs: inside the patch, as many as asked for, and the descriptors follow them
    let (d2, gen) = brief(&im, &keys, c.len, None).map_err(Fail::from)?;
    ensure!(gen.len() == c.len, "{} pairs generated, want {}", gen.len(), c.len);
    for p in &gen {
        ensure!([p.p0.x, p.p0.y, p.p1.x, p.p1.y].iter().all(|v| *v < 31), "generated pair {p:?} is outside the patch");
    }
    let (again, _) = brief(&im, &keys, c.len, Some(&gen)).map_err(Fail::from)?;
    ensure!(again == d2, "descriptors differ between generating the test pairs and giving them");
    lab(ones > 0, "described")
}
/// Images whose intensities add up to more than 2^32.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BriefHuge {
    w: u32,
    h: u32,
    low: u8,
    /// distances from the bottom right corner
    keys: Vec<(u32, u32)>,
    pairs: Vec<[u32; 4]>,
}
fn brief_huge(c: &BriefHuge) -> R {
    let im = GrayImage::from_fn(c.w, c.h, |x, y| Luma([if (x / 3 + y / 2) % 7 == 0 { c.low } else { 255 - ((x ^ y) & 7) as u8 }]));
    let keys: Vec<Point<u32>> = c.keys.iter().map(|k| Point::new(c.w - 17 - k.0, c.h - 17 - k.1)).collect();
    let pairs: Vec<TestPair> = c.pairs.iter().map(|p| TestPair { p0: Point::new(p[0], p[1]), p1: Point::new(p[2], p[3]) }).collect();
    let (descs, _) = no_panic(|| brief(&im, &keys, 128, Some(&pairs)).map_err(|_| ())).map_err(Fail::from)?.map_err(|_| Fail::from("rejected".to_string()))?;
    let mut ones = 0;
    for (d, k) in descs.iter().zip(&keys) {
        for (i, p) in c.pairs.iter().enumerate() {
            let at = |x: u32, y: u32| smoothed(&im, k.x as i64 - 14 + x as i64, k.y as i64 - 14 + y as i64);
            let want = at(p[0], p[1]) < at(p[2], p[3]);
            let bit = d.bits[0] >> (127 - i) & 1 == 1;
            ensure!(bit == want, "test {i} {p:?} at {k:?} is {bit}, want {want}");
            ones += want as u32;
        }
    }
    lab(ones > 0, "huge")
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bits {
    a: Vec<(u64, u64)>,
    b: Vec<(u64, u64)>,
    c: Vec<(u64, u64)>,
    sub: Vec<u32>,
}
fn desc(v: &[(u64, u64)], x: u32) -> BriefDescriptor {
    BriefDescriptor { bits: v.iter().map(|p| (p.0 as u128) << 64 | p.1 as u128).collect(), corner: Corner::new(x, 7, 0.0) }
}
fn bit(d: &BriefDescriptor, i: u32) -> bool {
    d.bits[i as usize / 128] & (1u128 << (i % 128)) != 0
}
fn bits(c: &Bits) -> R {
    let (a, b, d) = (desc(&c.a, 1), desc(&c.b, 2), desc(&c.c, 3));
    ensure!(a.position() == Point::new(1, 7), "position {:?}", a.position());
    ensure!(a.get_size() == 128 * c.a.len() as u32, "size {}", a.get_size());
    if c.a.len() != c.b.len() {
        ensure!(no_panic(|| a.hamming_distance(&b)).is_err(), "descriptors of different lengths have a distance");
        return lab(false, "unequal");
    }
    let dist = |a: &BriefDescriptor, b: &BriefDescriptor| (0..a.get_size()).filter(|i| bit(a, *i) != bit(b, *i)).count() as u32;
    let ab = a.hamming_distance(&b);
    ensure!(ab == dist(&a, &b), "hamming distance {ab}, want {}", dist(&a, &b));
    ensure!(ab == b.hamming_distance(&a) && a.hamming_distance(&a) == 0, "the distance is not a metric");
    if c.c.len() == c.a.len() {
        ensure!(a.hamming_distance(&d) <= ab + b.hamming_distance(&d), "triangle inequality");
    }
    if c.sub.len() > 128 {
        ensure!(no_panic(|| a.get_bit_subset(&c.sub)).is_err(), "more than 128 bits are extracted");
        return lab(true, "too many");
    }
    let sub: Vec<u32> = c.sub.iter().map(|i| i % a.get_size()).collect();
    let mut want = 0u128;
    for i in &sub {
        want = want << 1 | bit(&a, *i) as u128;
    }
    let got = a.get_bit_subset(&sub);
    ensure!(got == want, "bits {sub:?} are {got:x}, want {want:x}");
    nt(ab > 0)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Match {
    n1: usize,
    n2: usize,
    chunks: usize,
    /// each first descriptor copies a second one with this many flipped bits
    flips: u32,
    content: u64,
    threshold: u32,
    seed: Option<u64>,
}
fn rnd(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn lists(c: &Match) -> (Vec<BriefDescriptor>, Vec<BriefDescriptor>, Vec<usize>) {
    let mut s = c.content;
    let d2: Vec<_> = (0..c.n2).map(|i| desc(&(0..c.chunks).map(|_| (rnd(&mut s), rnd(&mut s))).collect::<Vec<_>>(), i as u32)).collect();
    let mut from = vec![];
    let d1: Vec<_> = (0..c.n1)
        .map(|i| {
            if d2.is_empty() {
                return desc(&vec![(1, 2); c.chunks], i as u32);
            }
            let k = rnd(&mut s) as usize % d2.len();
            from.push(k);
            let mut d = d2[k].clone();
            d.corner = Corner::new(i as u32, 1, 0.0);
            for _ in 0..c.flips {
                let b = rnd(&mut s) as usize % (128 * c.chunks);
                d.bits[b / 128] ^= 1 << (b % 128);
            }
            d
        })
        .collect();
    (d1, d2, from)
}
fn matching(c: &Match) -> R {
    let (d1, d2, from) = lists(c);
    let m = match_binary_descriptors(&d1, &d2, c.threshold, c.seed);
    let index = |l: &[BriefDescriptor], d: &BriefDescriptor| l.iter().position(|e| std::ptr::eq(e, d));
    let mut last = None;
    for (a, b) in &m {
        let (Some(i), Some(j)) = (index(&d1, a), index(&d2, b)) else {
            return Err(Fail::from(format!("a match does not refer to the two lists in order ({} and {} descriptors)", c.n1, c.n2)));
        };
        ensure!(last < Some(i), "descriptor {i} of the first list is matched twice or out of order");
        last = Some(i);
        let d = a.hamming_distance(b);
        ensure!(d < c.threshold, "a matched pair is at distance {d}, threshold {}", c.threshold);
        if d2.len() == 1 || c.flips == 0 {
            let best = d2.iter().map(|e| e.hamming_distance(a)).min().unwrap();
            ensure!(d == best, "descriptor {i} is matched with {j} at distance {d}, the best is {best}");
        }
    }
    let matched: Vec<usize> = m.iter().map(|(a, _)| index(&d1, a).unwrap()).collect();
    for (i, d) in d1.iter().enumerate() {
        // an equal descriptor, or the only one there is, is always found
        let sure = !d2.is_empty() && (c.flips == 0 || d2.len() == 1) && d2.iter().map(|e| e.hamming_distance(d)).min().unwrap() < c.threshold;
        ensure!(!sure || matched.contains(&i), "descriptor {i} has an equal or sole candidate within the threshold {} yet is not matched ({c:?})", c.threshold);
    }
    if c.seed.is_some() {
        let again = match_binary_descriptors(&d1, &d2, c.threshold, c.seed);
        ensure!(again.len() == m.len() && again.iter().zip(&m).all(|(a, b)| std::ptr::eq(a.0, b.0) && std::ptr::eq(a.1, b.1)), "the same seed gives other matches");
    }
    let _ = from;
    nt(!m.is_empty())
}
/// Near copies are found as often as three independent tables of log2(n) sampled bits promise.
fn recall(c: &Match) -> R {
    let (d1, d2, from) = lists(c);
    let m = match_binary_descriptors(&d1, &d2, 40, c.seed);
    let hits = m.iter().filter(|(a, b)| std::ptr::eq(*b, &d2[from[a.corner.x as usize]])).count() as f64;
    let k = (c.n2 as f64).log2().floor();
    let p = (1.0 - c.flips as f64 / (128 * c.chunks) as f64).powf(k);
    let q = 1.0 - (1.0 - p).powi(3);
    // queries share the tables: allow for the luck of the sampled bits
    let want = c.n1 as f64 * q;
    let slack = 0.12 * c.n1 as f64;
    ensure!(hits >= want - slack, "{hits} of {} near copies are found, three tables should find about {want:.0}: {c:?}", c.n1);
    nt(hits > 0.0)
}

pub fn prop() -> Prop {
    Prop {
        id: "C35",
        rule: "BRIEF of random images with random test pairs and key points at all distances from the border, bit by bit against the smoothed intensities; descriptor bit operations against bitwise loops; matching of random lists with planted near copies against the distance definition, certain matches and the recall of three hash tables. Non-trivial: some test is true, a rejected input, a non-empty match list.",
        assumptions: &["test points are relative to the pixel one right and below the patch's top left corner, and the first test of each 128 is the most significant bit", "smoothing is the rounded down mean of 5x5 pixels as far as they are inside the image", "locality-sensitive hashing may miss near matches; equal descriptors cannot be missed", "descriptor lengths are positive"],
        subs: vec![
            sub("brief", 30000, || {
                let coord = || prop_oneof![6 => 0u32..31, 1 => Just(0u32), 1 => Just(30u32), 1 => Just(15u32)];
                let wild = || prop_oneof![30 => 0u32..31, 1 => 31u32..120];
                let pairs = move |n: usize| prop_oneof![
                    5 => prop::collection::vec([coord(), coord(), coord(), coord()], n),
                    1 => prop::collection::vec([wild(), wild(), wild(), wild()], n),
                ];
                (33u32..60, 33u32..60, any::<u64>(), any::<bool>(), prop_oneof![6 => Just(128usize), 2 => Just(256), 1 => Just(384), 1 => 1usize..300], prop_oneof![9 => Just(0i32), 1 => -1i32..2]).prop_flat_map(move |(w, h, seed, smooth, len, off)| {
                    let k = |n: u32| prop_oneof![10 => 16..=n - 17, 1 => Just(n - 17), 1 => Just(16), 1 => Just(16)].boxed();
                    let anyk = |n: u32| prop_oneof![4 => 14..n.min(18), 4 => n - 19..n - 12, 1 => 0..n + 2, 1 => Just(u32::MAX), 1 => Just(u32::MAX - 15)].boxed();
                    let keys = prop_oneof![5 => prop::collection::vec((k(w), k(h)), 0..4), 1 => prop::collection::vec((anyk(w), k(h)), 1..3), 1 => prop::collection::vec((k(w), anyk(h)), 1..3)];
                    (keys, pairs((len as i64 + off as i64).max(0) as usize)).prop_map(move |(keys, pairs)| Brief { im: Big { w, h, seed, levels: 255 }, smooth, keys, pairs, len })
                }).boxed()
            }, brief_bits),
            sub("brief long", 120, || {
                let k = || prop_oneof![6 => 0u32..31, 1 => Just(0u32), 1 => Just(30u32)];
                (33u32..60, 33u32..60, any::<u64>(), any::<bool>(), prop_oneof![12 => 4usize..24, 1 => Just(257usize), 1 => 510usize..520]).prop_flat_map(move |(w, h, seed, smooth, n)| {
                    (prop::collection::vec((16..=w - 17, 16..=h - 17), 1..3), prop::collection::vec([k(), k(), k(), k()], 128 * n))
                        .prop_map(move |(keys, pairs)| Brief { im: Big { w, h, seed, levels: 255 }, smooth, keys, len: pairs.len(), pairs })
                }).boxed()
            }, brief_bits),
            sub("bits", 60000, || {
                let v = |n: usize| prop::collection::vec(prop_oneof![(any::<u64>(), any::<u64>()), (Just(0u64), 0u64..4), (Just(u64::MAX), Just(u64::MAX))], n);
                (1usize..5, 1usize..5, any::<bool>()).prop_flat_map(move |(n, m, same)| (v(n), v(if same { n } else { m }), v(n), prop_oneof![8 => prop::collection::vec(any::<u32>(), 0..40), 1 => prop::collection::vec(any::<u32>(), 120..135), 1 => prop::collection::vec(any::<u32>(), 128)])).prop_map(|(a, b, c, sub)| Bits { a, b, c, sub }).boxed()
            }, bits),
            sub("matching", 200000, || (prop_oneof![1 => Just(0usize), 8 => 1usize..30], prop_oneof![1 => Just(0usize), 2 => Just(1), 8 => 1usize..30], 1usize..4, prop_oneof![2 => Just(0u32), 3 => 0u32..20, 1 => 20u32..200], any::<u64>(), prop_oneof![6 => 0u32..60, 1 => Just(0), 1 => Just(1), 1 => Just(1000), 1 => Just(u32::MAX)], prop_oneof![4 => any::<u64>().prop_map(Some), 1 => Just(None)]).prop_map(|(n1, n2, chunks, flips, content, threshold, seed)| Match { n1, n2, chunks, flips, content, threshold, seed }).boxed(), matching),
            sub("matching many", 200, || (200usize..900, prop_oneof![Just(1usize), 200usize..900], 1usize..4, prop_oneof![2 => Just(0u32), 3 => 0u32..20], any::<u64>(), prop_oneof![6 => 0u32..60, 1 => Just(u32::MAX)], prop_oneof![4 => any::<u64>().prop_map(Some), 1 => Just(None)]).prop_map(|(n1, n2, chunks, flips, content, threshold, seed)| Match { n1, n2, chunks, flips, content, threshold, seed }).boxed(), matching),
            sub("recall", 1000, || (500usize..900, 16usize..300, 1usize..3, 1u32..16, any::<u64>(), any::<u64>()).prop_map(|(n1, n2, chunks, flips, content, seed)| Match { n1, n2, chunks, flips, content, threshold: 40, seed: Some(seed) }).boxed(), recall),
            sub("brief huge", 4, || (3000u32..4400, 4300u32..4400, any::<u8>(), prop::collection::vec((0u32..2900, 0u32..4200), 1..20), prop::collection::vec([0u32..31, 0u32..31, 0u32..31, 0u32..31], 128)).prop_map(|(w, h, low, keys, pairs)| BriefHuge { w, h, low, keys, pairs }).boxed(), brief_huge),
            sub("brief large", 60, || (257u32..420, 257u32..420, any::<u64>(), any::<bool>(), prop::collection::vec((any::<u32>(), any::<u32>()), 1..6), prop::collection::vec([0u32..31, 0u32..31, 0u32..31, 0u32..31], 128)).prop_map(|(w, h, seed, smooth, keys, pairs)| Brief { keys: keys.iter().map(|k| (16 + k.0 % (w - 32), 16 + k.1 % (h - 32))).collect(), im: Big { w, h, seed, levels: 255 }, smooth, pairs, len: 128 }).boxed(), brief_bits),
        ],
    }
}
