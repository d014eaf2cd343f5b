//! C47: operations are pure functions of their arguments: what was called before in the process, and
//! what is called at the same time in other threads, makes no difference. Each history is run in
//! processes of its own, so that nothing outside of the history has a say.
use crate::c40::{self, full_op};
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::process::{Command, Stdio};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    first: c40::Case,
    /// later calls: each differs from the one before as the number says, taking parts of the other case
    then: Vec<(u8, c40::Case)>,
    /// larger images instead of the tiny ones of the cases
    large: Option<(u32, u32, Vec<u8>)>,
}
impl History {
    fn calls(&self) -> Vec<c40::Case> {
        let mut v = vec![self.first.clone()];
        for (k, c) in &self.then {
            let next = v.last().unwrap().vary(c, *k);
            v.push(next);
        }
        if let Some((w, h, levels)) = &self.large {
            for (i, c) in v.iter_mut().enumerate() {
                // sizes and contents stay different where they are, and the same where they are
                let (w, h) = (w + c.im.w, h + c.im.h);
                let d = (0..w * h).map(|p| {
                    let of = c.im.d.get(p as usize % c.im.d.len().max(1)).copied().unwrap_or(0);
                    levels[p as usize * 7 / 3 % levels.len()].wrapping_add(of).wrapping_mul(1 + (p % 5) as u8)
                }).collect();
                c.im = Im { w, h, d };
                let _ = i;
            }
        }
        v
    }
}

fn result(c: &c40::Case) -> (&'static str, String) {
    let (name, r) = full_op(c);
    (name, match r {
        Ok(None) => "not applicable".into(),
        Ok(Some(o)) => o,
        Err(m) => format!("a panic: {m}").replace('\n', " "),
    })
}
/// A process of its own: runs the calls it reads one after the other, or all at once and then backwards.
pub fn worker(mode: &str) {
    install_hook();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let calls: Vec<c40::Case> = serde_json::from_str(&s).expect("calls");
    let mut out: Vec<(usize, &'static str, (&'static str, String))> = Vec::new();
    if mode == "forwards" {
        out.extend(calls.iter().enumerate().map(|(i, c)| (i, "first to last", result(c))));
    } else {
        for _ in 0..2 {
            let ready = std::sync::Barrier::new(calls.len());
            let (ready, calls) = (&ready, &calls);
            out.extend(std::thread::scope(|s| {
                let t: Vec<_> = (0..calls.len())
                    .map(|i| {
                        s.spawn(move || {
                            ready.wait();
                            (i, "all at once", result(&calls[i]))
                        })
                    })
                    .collect();
                t.into_iter().map(|t| t.join().unwrap()).collect::<Vec<_>>()
            }));
        }
        out.extend(calls.iter().enumerate().rev().map(|(i, c)| (i, "last to first", result(c))));
    }
    for (i, how, (name, r)) in out {
        println!("R:{i}\t{how}\t{name}\t{r}");
    }
}
fn fresh(mode: &str, calls: &str) -> Result<Vec<(usize, String, String, String)>, Fail> {
    let mut p = Command::new(std::env::current_exe().unwrap())
        .args(["--history-worker", mode])
        .env("RAYON_NUM_THREADS", "3")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let _ = p.stdin.take().unwrap().write_all(calls.as_bytes());
    let o = p.wait_with_output().expect("output");
    ensure!(o.status.success(), "the process running the calls {mode} ended with {}", o.status);
    Ok(String::from_utf8_lossy(&o.stdout)
        .lines()
        .filter_map(|l| {
            let mut f = l.strip_prefix("R:")?.splitn(4, '\t').map(str::to_string);
            Some((f.next()?.parse().ok()?, f.next()?, f.next()?, f.next()?))
        })
        .collect())
}
fn check(h: &History) -> R {
    let calls = h.calls();
    let text = serde_json::to_string(&calls).unwrap();
    let a = fresh("forwards", &text)?;
    let b = fresh("backwards", &text)?;
    ensure!(a.len() == calls.len() && b.len() == 3 * calls.len(), "{} and {} results of {} calls", a.len(), b.len(), calls.len());
    for (i, how, name, r) in &b {
        let (_, _, _, want) = &a[*i];
        ensure!(r == want, "{name} (call {i} of {}) gives {want} with the calls made from first to last, {r} with the calls made {how}", calls.len());
    }
    let done: Vec<&(usize, String, String, String)> = a.iter().filter(|r| r.3 != "not applicable").collect();
    let same = done.windows(2).any(|w| w[0].2 == w[1].2);
    lab(done.len() > 1, if same { "one operation repeatedly" } else { "different operations" })
}

fn history(large: bool) -> BoxedStrategy<History> {
    let n = if large { 1..4 } else { 1..8usize };
    (c40::case(), prop::collection::vec((0u8..13, c40::case()), n), (8u32..70, 8u32..70, prop::collection::vec(any::<u8>(), 1..9)))
        .prop_map(move |(first, then, l)| History { first, then, large: large.then_some(l) })
        .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C47",
        rule: "Histories of two to eight calls from C40's table of operations with the parallel ones, mostly of one operation with other images, sizes or parameters; each history is run in a new process from first to last and in another one all at once in as many threads (twice), then from last to first; every call must give one result. Non-trivial: two or more calls have valid arguments.",
        assumptions: &["the table of C40: one set of parameter ranges per operation"],
        subs: vec![sub("histories", 8000, || history(false), check), sub("histories on medium images", 2500, || history(true), check)],
    }
}
