//! C48: an image is its size and its pixels. An `ImageBuffer` may be made from a buffer that is longer
//! than its pixels need; what is beyond them makes no difference to any operation.
use crate::c40::{self, full_op, spare_op};
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spare {
    c: c40::Case,
    /// values beyond the pixels
    n: usize,
    v: u8,
    size: Option<(u32, u32, Vec<u8>)>,
}
fn check(s: &Spare) -> R {
    let mut c = s.c.clone();
    if let Some((w, h, levels)) = &s.size {
        c.im = Mega { w: *w, h: *h, levels: levels.clone() }.im();
    }
    let (name, want) = full_op(&c);
    let Ok(want) = want else { return nt(false) }; // a finding of C40, if any
    let Some(want) = want else { return nt(false) };
    let got = spare_op(&c, s.n, s.v).1;
    ensure!(got.as_ref().ok().and_then(|g| g.as_ref()) == Some(&want), "{name} of a {}x{} image whose buffer is {} values of {} longer than its pixels gives {got:?}, {want} without them", c.im.w, c.im.h, s.n, s.v);
    lab(true, name)
}
fn in_place(s: &(Spare, bool)) -> R {
    let mut c = s.0.c.clone();
    if let Some((w, h, levels)) = &s.0.size {
        c.im = Mega { w: *w, h: *h, levels: levels.clone() }.im();
    }
    let (name, want, got) = c40::mut_op(&c, s.1, s.0.n, s.0.v);
    let Ok(want) = want else { return nt(false) }; // what panics is for the other properties
    let kind = if s.1 { "RGB" } else { "grey" };
    ensure!(got.as_ref() == Ok(&want), "{name} on a {}x{} {kind} image whose buffer is {} values of {} longer than its pixels gives {got:?}, {want:?} without them", c.im.w, c.im.h, s.0.n, s.0.v);
    lab(!want.is_empty(), name)
}
fn n() -> BoxedStrategy<usize> {
    prop_oneof![4 => 1usize..8, 2 => 1usize..200, 1 => 1000usize..1500].boxed()
}
fn v() -> BoxedStrategy<u8> {
    prop_oneof![2 => Just(255u8), 1 => Just(0u8), 2 => any::<u8>()].boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C48",
        rule: "The operations of C40 with their generated arguments, on images in buffers of exactly the size of their pixels and of up to 1500 further values; the results' sizes and pixels are compared. Non-trivial: the arguments are valid for the operation.",
        assumptions: &["C40 decides that the operation does not panic on the image in a buffer of its size"],
        subs: vec![
            sub("small images", 300_000, || (c40::case(), n(), v()).prop_map(|(c, n, v)| Spare { c, n, v, size: None }).boxed(), check),
            sub("medium images", 25_000, || (c40::case(), n(), v(), 1u32..60, 1u32..60, prop::collection::vec(prop_oneof![any::<u8>(), Just(0u8), Just(255u8)], 1..14)).prop_map(|(c, n, v, w, h, l)| Spare { c, n, v, size: Some((w, h, l)) }).boxed(), check),
            sub("in place and into an output", 100_000, || (c40::case(), n(), v(), any::<bool>()).prop_map(|(c, n, v, b)| (Spare { c, n, v, size: None }, b)).boxed(), in_place),
            sub("in place, medium images", 10_000, || (c40::case(), n(), v(), 1u32..60, 1u32..60, prop::collection::vec(any::<u8>(), 1..14), any::<bool>()).prop_map(|(c, n, v, w, h, l, b)| (Spare { c, n, v, size: Some((w, h, l)) }, b)).boxed(), in_place),
        ],
    }
}
