//! C46: results do not depend on how the crate is built. The operations of C40 are run here, with the
//! parallel feature, debug assertions and overflow checks, and in a child process built without them.
use crate::c40::{self, plain_op, LongCase};
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use crate::other;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case {
    Small(c40::Case),
    Large(LongCase),
}
fn evaluate(c: &Case) -> (&'static str, Result<Option<String>, String>) {
    match c {
        Case::Small(c) => plain_op(c),
        Case::Large(l) => {
            let mut c = l.c.clone();
            c.im = l.im.im();
            plain_op(&c)
        }
    }
}
fn text(r: Result<Option<String>, String>) -> String {
    match r {
        Ok(None) => "not applicable".into(),
        Ok(Some(o)) => o,
        Err(_) => "a panic".into(),
    }
}

/// What the child process replies to a case.
pub fn answer(c: &str) -> String {
    let c: Case = serde_json::from_str(c).expect("case");
    text(evaluate(&c).1)
}
fn check(c: &Case) -> R {
    let (name, here) = evaluate(c);
    let applies = matches!(here, Ok(Some(_)));
    let here = match here {
        // what went wrong here is said; the other build only says that something did
        Err(m) => Err(m),
        ok => Ok(text(ok)),
    };
    let Some(there) = other::ask("C46", &serde_json::to_string(c).unwrap()) else {
        return Err(format!("{name}: the process built without the parallel feature and debug assertions died").into());
    };
    match here {
        Ok(h) => ensure!(h == there, "{name} gives {h} in a parallel debug build and {there} in a sequential build without debug assertions"),
        Err(m) => ensure!(there == "a panic", "{name} gives {there} in a sequential build without debug assertions, but in a parallel debug build: {m}"),
    }
    lab(applies, name)
}

pub fn prop() -> Prop {
    Prop {
        id: "C46",
        rule: "The operations of C40 (all that exist without the parallel feature) with their generated arguments on degenerate, medium and very long images, in this build (parallel feature, debug assertions, overflow checks) and in a child process built without all three; size and content of the results are compared. Non-trivial: the arguments are valid for the operation.",
        assumptions: &["the builds differ in the crate's parallel feature, debug assertions and overflow checks, not in the target"],
        subs: vec![
            sub("small images", 500_000, || c40::case().prop_map(Case::Small).boxed(), check),
            sub("medium images", 40_000, || (c40::case(), 1u32..90, 1u32..90, prop::collection::vec(prop_oneof![any::<u8>(), Just(0u8), Just(255u8)], 1..14)).prop_map(|(c, w, h, levels)| Case::Large(LongCase { c, im: Mega { w, h, levels } })).boxed(), check),
            sub("long images", 300, || c40::long_case().prop_filter("slow", |l| l.c.other.d.len() <= 64).prop_map(Case::Large).boxed(), check),
        ],
    }
}
