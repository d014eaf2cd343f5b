//! Check framework: every sub-check is a (generator, oracle) pair.
//!
//! Case `i` of sub-check `s` is a pure function of (VERIF_SEED, s, i): each case gets its own
//! proptest runner seeded from those three values, so cases can be distributed over threads,
//! re-generated after a crash of the process and shrunk, all deterministically.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::Hasher;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

/// A passed case: whether it was non-trivial by the property's rule, and its class.
pub struct Pass {
    pub nt: bool,
    pub label: &'static str,
}

/// A failed case. `sig` identifies the defect for the known-findings file.
#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    pub sig: Option<String>,
}

impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { msg, sig: None }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { msg: msg.to_string(), sig: None }
    }
}

pub type R = Result<Pass, Fail>;

pub fn nt(nt: bool) -> R {
    Ok(Pass { nt, label: "" })
}
pub fn lab(nt: bool, label: &'static str) -> R {
    Ok(Pass { nt, label })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::fw::Fail::from(format!($($a)*))); } };
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Runs `f`; a panic becomes `Err(message)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let loc = PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
            let m = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            Err(format!("panic: {m} {loc}"))
        }
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let l = info.location().map(|l| format!("at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(l));
        if !info.payload().is::<String>() && !info.payload().is::<&str>() {
            return;
        }
        // Panics that cannot unwind abort the process: leave a trace for the parent.
        if std::env::var_os("VH_TRACE").is_some() {
            eprintln!("{info}");
        }
    }));
}

fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

fn name_hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn runner(seed: u64, name: &str, idx: u64) -> TestRunner {
    let mut s = [0u8; 32];
    let mut x = mix(seed ^ mix(name_hash(name) ^ mix(idx)));
    for c in s.chunks_mut(8) {
        x = mix(x);
        c.copy_from_slice(&x.to_le_bytes());
    }
    let cfg = Config { failure_persistence: None, max_global_rejects: u32::MAX, max_local_rejects: 65536, ..Config::default() };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &s))
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        mix(self.0)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.0 = (self.0 ^ *c as u64).wrapping_mul(0x100000001b3);
        }
    }
}
impl std::io::Write for Fnv {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        Hasher::write(self, b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub struct Ran {
    pub res: R,
    pub hash: u64,
    pub evals: u64,
}
/// Every eighth case of the cheap sub-checks is the start of a short history: some of its simplifications, which
/// differ from it in one respect, are evaluated after it and then the case again, so that an answer which depends on
/// an earlier call (a cache with an incomplete key, a buffer that is not cleared) shows.
const NEIGHBOURS: usize = 3;
fn history(idx: u64, quick: u64) -> bool {
    idx % 8 == 5 && quick >= 1000
}

pub trait SubT: Sync {
    fn name(&self) -> &'static str;
    fn quick(&self) -> u64;
    fn exhaustive(&self) -> bool;
    fn inst(&self) -> Box<dyn Inst + '_>;
    fn replay(&self, v: &Value) -> Result<R, String>;
}
/// A per-thread instance (strategies need not be shareable).
pub trait Inst {
    fn run(&self, seed: u64, idx: u64) -> Ran;
    fn case(&self, seed: u64, idx: u64) -> Value;
    /// Shrinks the failing case `idx`.
    fn shrink(&self, seed: u64, idx: u64) -> (Value, Fail, u64);
}

pub struct Sub<C> {
    name: &'static str,
    quick: u64,
    exhaustive: bool,
    strat: fn() -> BoxedStrategy<C>,
    nth: Option<fn(u64) -> C>,
    check: fn(&C) -> R,
}

/// Start times (ms, 0 = idle) of the evaluations in progress, watched by `watchdog`.
static SLOTS: [AtomicU64; 32] = [const { AtomicU64::new(0) }; 32];
static NEXT_SLOT: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static SLOT: usize = NEXT_SLOT.fetch_add(1, Ordering::Relaxed) as usize % 32;
}
/// Far beyond what a case takes (milliseconds; the few on very large images, seconds, also on a
/// busy machine): only a case that does not terminate gets here.
const CASE_LIMIT_MS: u64 = 150_000;
fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    T0.get_or_init(std::time::Instant::now).elapsed().as_millis() as u64 + 1
}
pub fn watchdog() {
    now_ms();
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let n = now_ms();
        for s in &SLOTS {
            let t = s.load(Ordering::Relaxed);
            if t != 0 && n > t + CASE_LIMIT_MS {
                eprintln!("a case did not terminate within {} s", CASE_LIMIT_MS / 1000);
                std::process::abort();
            }
        }
    });
}

/// Runs f under the watchdog's eye.
pub fn watched<T>(f: impl FnOnce() -> T) -> T {
    let slot = SLOT.with(|s| *s);
    SLOTS[slot].store(now_ms(), Ordering::Relaxed);
    let r = f();
    let took = now_ms() - SLOTS[slot].swap(0, Ordering::Relaxed);
    if took > 3000 && std::env::var_os("VH_SLOW").is_some() {
        eprintln!("slow case: {took} ms");
    }
    r
}
fn eval<C>(check: fn(&C) -> R, c: &C) -> R {
    let r = watched(|| no_panic(|| check(c)));
    match r {
        Ok(r) => r,
        Err(m) => Err(Fail { msg: m, sig: None }),
    }
}

pub struct SubInst<'a, C> {
    s: &'a Sub<C>,
    strat: Option<BoxedStrategy<C>>,
}

impl<C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + 'static> Sub<C> {
    pub fn boxed(self) -> Box<dyn SubT> {
        Box::new(self)
    }
}

impl<C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + 'static> SubT for Sub<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn quick(&self) -> u64 {
        self.quick
    }
    fn exhaustive(&self) -> bool {
        self.exhaustive
    }
    fn inst(&self) -> Box<dyn Inst + '_> {
        let strat = if self.nth.is_some() { None } else { Some((self.strat)()) };
        Box::new(SubInst { s: self, strat })
    }
    fn replay(&self, v: &Value) -> Result<R, String> {
        if let Some(cs) = v.get("history").and_then(|h| h.as_array()) {
            let mut last = Err(Fail::from("empty history"));
            for v in cs {
                let c: C = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
                last = eval(self.check, &c);
                if last.is_err() {
                    break;
                }
            }
            return Ok(last);
        }
        let c: C = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        Ok(eval(self.check, &c))
    }
}

impl<C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + 'static> SubInst<'_, C> {
    /// The generated tree of case `idx`. Generators themselves can panic in rare cases (proptest
    /// asserts in its float sampler); such a draw is replaced by the next one.
    fn tree(&self, seed: u64, idx: u64) -> Box<dyn ValueTree<Value = C>> {
        for attempt in 0..64u64 {
            let mut r = runner(seed.wrapping_add(attempt.wrapping_mul(0x5851F42D4C957F2D)), self.s.name, idx);
            if let Ok(Ok(t)) = no_panic(|| self.strat.as_ref().unwrap().new_tree(&mut r).map(|t| Box::new(t) as Box<dyn ValueTree<Value = C>>)) {
                if no_panic(|| t.current()).is_ok() {
                    return t;
                }
            }
        }
        panic!("generator of {} rejected too much", self.s.name)
    }
    /// The first simplifications of a case.
    fn neighbours(&self, t: &mut Box<dyn ValueTree<Value = C>>) -> Vec<C> {
        let mut v = vec![];
        let _ = no_panic(|| {
            while v.len() < NEIGHBOURS && t.simplify() {
                v.push(t.current());
            }
        });
        v
    }
    fn value(&self, seed: u64, idx: u64) -> C {
        if let Some(n) = self.s.nth {
            return n(idx);
        }
        self.tree(seed, idx).current()
    }
}

impl<C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + 'static> Inst for SubInst<'_, C> {
    fn run(&self, seed: u64, idx: u64) -> Ran {
        let mut h = Fnv(0xcbf29ce484222325);
        if self.strat.is_none() || !history(idx, self.s.quick) {
            let c = self.value(seed, idx);
            let _ = serde_json::to_writer(&mut h, &c);
            return Ran { res: eval(self.s.check, &c), hash: h.finish(), evals: 1 };
        }
        let mut t = self.tree(seed, idx);
        let c = t.current();
        let _ = serde_json::to_writer(&mut h, &c);
        let res = eval(self.s.check, &c);
        let mut evals = 1;
        if res.is_ok() {
            for n in self.neighbours(&mut t) {
                evals += 1;
                if let Err(f) = eval(self.s.check, &n) {
                    return Ran { res: Err(f), hash: h.finish(), evals };
                }
            }
            evals += 1;
            if let Err(f) = eval(self.s.check, &c) {
                return Ran { res: Err(f), hash: h.finish(), evals };
            }
        }
        Ran { res, hash: h.finish(), evals }
    }
    fn case(&self, seed: u64, idx: u64) -> Value {
        serde_json::to_value(self.value(seed, idx)).unwrap()
    }
    fn shrink(&self, seed: u64, idx: u64) -> (Value, Fail, u64) {
        if self.strat.is_none() {
            let c = self.value(seed, idx);
            let f = eval(self.s.check, &c).err().unwrap_or_else(|| Fail::from("not reproduced"));
            return (serde_json::to_value(&c).unwrap(), f, 0);
        }
        let mut t = self.tree(seed, idx);
        let mut best = t.current();
        let mut bf = match eval(self.s.check, &best) {
            Err(f) => f,
            Ok(_) => {
                // It failed in its history: look for the member that fails alone, else keep the history.
                let mut all = vec![best.clone()];
                let mut failing = None;
                if history(idx, self.s.quick) {
                    let _ = no_panic(|| {
                        while all.len() <= NEIGHBOURS && t.simplify() {
                            all.push(t.current());
                        }
                    });
                    all.push(best.clone());
                    failing = all.iter().enumerate().find_map(|(i, c)| eval(self.s.check, c).err().map(|f| (i, f)));
                }
                match failing {
                    Some((i, f)) if eval(self.s.check, &all[i]).is_err() && i + 1 < all.len() => {
                        best = all[i].clone();
                        // back to that member's tree
                        t = self.tree(seed, idx);
                        let _ = no_panic(|| (0..i).for_each(|_| {
                            t.simplify();
                        }));
                        f
                    }
                    Some((i, f)) => return (json!({"history": all[..=i].iter().map(|c| serde_json::to_value(c).unwrap()).collect::<Vec<_>>()}), f, 0),
                    None => return (serde_json::to_value(&best).unwrap(), Fail::from("did not fail again on re-execution: the result depends on earlier calls"), 0),
                }
            }
        };
        let mut n = 0u64;
        let t0 = std::time::Instant::now();
        let _ = no_panic(|| if t.simplify() {
            loop {
                n += 1;
                if n > 3000 || t0.elapsed().as_secs() > 60 {
                    break;
                }
                let c = t.current();
                match eval(self.s.check, &c) {
                    Err(f) if f.sig == bf.sig => {
                        best = c;
                        bf = f;
                        if !t.simplify() {
                            break;
                        }
                    }
                    _ => {
                        if !t.complicate() {
                            break;
                        }
                    }
                }
            }
        });
        (serde_json::to_value(&best).unwrap(), bf, n)
    }
}

/// A randomised sub-check with `quick` cases in the quick tier.
pub fn sub<C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + 'static>(
    name: &'static str,
    quick: u64,
    strat: fn() -> BoxedStrategy<C>,
    check: fn(&C) -> R,
) -> Box<dyn SubT> {
    Sub { name, quick, exhaustive: false, strat, nth: None, check }.boxed()
}

/// An exhaustive sub-check over the finite space nth(0..n).
pub fn sub_all<C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + 'static>(
    name: &'static str,
    n: u64,
    nth: fn(u64) -> C,
    check: fn(&C) -> R,
) -> Box<dyn SubT> {
    Sub { name, quick: n, exhaustive: true, strat: || unreachable!(), nth: Some(nth), check }.boxed()
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Box<dyn SubT>>,
}

#[derive(Deserialize, Clone)]
pub struct Known {
    pub status: String,
    pub property: String,
    #[serde(default)]
    pub signature: String,
    #[serde(default)]
    pub what: String,
}

pub struct Opts {
    pub root: PathBuf,
    pub seed: u64,
    pub tier: String,
    pub mult: f64,
    pub threads: usize,
    pub only: Option<String>,
}

impl Opts {
    fn cases(&self, s: &dyn SubT) -> u64 {
        if s.exhaustive() {
            s.quick()
        } else {
            ((s.quick() as f64 * self.mult) as u64).max(1)
        }
    }
    fn state_file(&self, id: &str) -> PathBuf {
        self.root.join("target").join(format!("state-{id}.bin"))
    }
}

fn load_known(root: &Path, id: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(root.join("known_findings.jsonl")).unwrap_or_default();
    t.lines()
        .filter(|l| l.trim_start().starts_with('{'))
        .map(|l| serde_json::from_str::<Known>(l).expect("known_findings.jsonl"))
        .filter(|k| k.property == id && k.status == "known")
        .collect()
}

fn trunc(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() <= 900 {
        v.clone()
    } else {
        let mut e = 900;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        Value::String(format!("{}... ({} bytes)", &s[..e], s.len()))
    }
}

fn write_replay(root: &Path, id: &str, sub: &str, case: &Value, msg: &str, seed: u64, idx: i64) -> PathBuf {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let mut h = Fnv(7);
    Hasher::write(&mut h, case.to_string().as_bytes());
    let p = dir.join(format!("{id}-{}-{:08x}.json", sub.replace(|c: char| !c.is_ascii_alphanumeric(), "-"), h.finish() as u32));
    let v = json!({"property": id, "sub": sub, "case": case, "message": msg, "seed": seed, "index": idx});
    std::fs::write(&p, serde_json::to_string(&v).unwrap() + "\n").expect("write replay");
    p
}

/// Runs the property in this process. Exit code 0, 1.
pub fn run(prop: &Prop, o: &Opts) -> i32 {
    install_hook();
    watchdog();
    let t0 = std::time::Instant::now();
    let known = load_known(&o.root, prop.id);
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let state = std::fs::File::create(o.state_file(prop.id)).ok();
    let mut evals = 0u64;
    let mut nontriv = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut per_sub: Vec<Value> = vec![];
    let mut all_exh = true;
    let mut violation: Option<(String, PathBuf, String)> = None;

    // Saved regression inputs first.
    let mut replayed = 0;
    if o.only.is_none() {
        let mut files: Vec<_> = std::fs::read_dir(o.root.join("regress").join(prop.id))
            .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
            .unwrap_or_default();
        files.sort();
        for f in files {
            if let Some(st) = &state {
                let mut b = [0u8; 512];
                let s = f.to_string_lossy();
                let n = s.len().min(500);
                b[0] = 0xfe;
                b[1..1 + n].copy_from_slice(&s.as_bytes()[..n]);
                let _ = st.write_at(&b, 0);
            }
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).expect("regress file");
            let Some(s) = prop.subs.iter().find(|s| s.name() == v["sub"].as_str().unwrap()) else {
                panic!("regress file {f:?} names an unknown sub-check");
            };
            let r = s.replay(&v["case"]).expect("regress case does not parse");
            replayed += 1;
            evals += 1;
            if let Err(fl) = r {
                if let Some(k) = fl.sig.as_ref().and_then(|g| known.iter().find(|k| &k.signature == g)) {
                    *known_hit.entry(k.signature.clone()).or_default() += 1;
                } else {
                    violation = Some((s.name().to_string(), f.clone(), fl.msg));
                    break;
                }
            }
        }
    }

    if violation.is_none() {
        for (si, s) in prop.subs.iter().enumerate() {
            if let Some(only) = &o.only {
                if !s.name().contains(only.as_str()) {
                    continue;
                }
            }
            let ts = std::time::Instant::now();
            let n = o.cases(s.as_ref());
            all_exh &= s.exhaustive();
            let next = AtomicU64::new(0);
            let bound = AtomicU64::new(n);
            let done = AtomicU64::new(0);
            struct Acc {
                hashes: HashSet<u64>,
                labels: BTreeMap<&'static str, u64>,
                fails: Vec<(u64, Fail)>,
                nts: Vec<u64>,
                known: BTreeMap<String, u64>,
            }
            let acc = Mutex::new(Acc { hashes: HashSet::new(), labels: BTreeMap::new(), fails: vec![], nts: vec![], known: BTreeMap::new() });
            std::thread::scope(|sc| {
                for t in 0..o.threads {
                    let (next, bound, acc, state, known, done) = (&next, &bound, &acc, &state, &known, &done);
                    sc.spawn(move || {
                        let inst = s.inst();
                        let mut hs = vec![];
                        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                        let mut nts = vec![];
                        let mut kn: BTreeMap<String, u64> = BTreeMap::new();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= bound.load(Ordering::Relaxed) {
                                break;
                            }
                            if let Some(st) = state {
                                let mut b = [0u8; 16];
                                b[0] = 1;
                                b[4..8].copy_from_slice(&(si as u32).to_le_bytes());
                                b[8..16].copy_from_slice(&i.to_le_bytes());
                                let _ = st.write_at(&b, 512 + 16 * t as u64);
                            }
                            let r = inst.run(o.seed, i);
                            done.fetch_add(r.evals, Ordering::Relaxed);
                            match r.res {
                                Ok(p) => {
                                    if p.nt {
                                        hs.push(r.hash);
                                        if nts.len() < 2 {
                                            nts.push(i);
                                        }
                                    }
                                    *labels.entry(p.label).or_default() += 1;
                                }
                                Err(f) => {
                                    if let Some(k) = f.sig.as_ref().and_then(|g| known.iter().find(|k| &k.signature == g)) {
                                        *kn.entry(k.signature.clone()).or_default() += 1;
                                    } else {
                                        bound.fetch_min(i, Ordering::Relaxed);
                                        acc.lock().unwrap().fails.push((i, f));
                                    }
                                }
                            }
                        }
                        if let Some(st) = state {
                            let _ = st.write_at(&[0u8; 16], 512 + 16 * t as u64);
                        }
                        let mut a = acc.lock().unwrap();
                        a.hashes.extend(hs);
                        a.nts.extend(nts);
                        for (k, v) in labels {
                            *a.labels.entry(k).or_default() += v;
                        }
                        for (k, v) in kn {
                            *a.known.entry(k).or_default() += v;
                        }
                    });
                }
            });
            let mut a = acc.into_inner().unwrap();
            let e = done.load(Ordering::Relaxed);
            evals += e;
            nontriv += a.hashes.len() as u64;
            a.nts.sort();
            let inst = s.inst();
            for i in a.nts.iter().take(2) {
                samples.push(json!({"sub": s.name(), "index": i, "case": trunc(&inst.case(o.seed, *i))}));
            }
            for (k, v) in a.known {
                *known_hit.entry(k).or_default() += v;
            }
            per_sub.push(json!({"sub": s.name(), "evaluations": e, "distinct_nontrivial": a.hashes.len(),
                "exhaustive": s.exhaustive(), "classes": a.labels, "wall_s": ts.elapsed().as_secs_f64()}));
            eprintln!("  {:<34} {:>8} cases {:>8} non-trivial {:>7.2}s {:?}", s.name(), e, a.hashes.len(), ts.elapsed().as_secs_f64(), a.labels);
            a.fails.sort_by_key(|f| f.0);
            if let Some((i, f0)) = a.fails.first() {
                eprintln!("failing case {i} of {}: {}; shrinking", s.name(), f0.msg);
                // The shrink loop runs in this process too: make a crash attributable.
                if let Some(st) = &state {
                    let mut b = [0u8; 16];
                    b[0] = 1;
                    b[4..8].copy_from_slice(&(si as u32).to_le_bytes());
                    b[8..16].copy_from_slice(&i.to_le_bytes());
                    let _ = st.write_at(&b, 512);
                }
                let (c, f, steps) = inst.shrink(o.seed, *i);
                let p = write_replay(&o.root, prop.id, s.name(), &c, &f.msg, o.seed, *i as i64);
                eprintln!("shrunk in {steps} steps: {}\n  case: {}", f.msg, trunc(&c));
                violation = Some((s.name().to_string(), p, f.msg));
                break;
            }
        }
    }
    let ev = json!({
        "property": prop.id, "tier": o.tier, "seed": o.seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": nontriv, "rule": prop.rule, "samples": samples,
            "exhaustive": all_exh, "sub_checks": per_sub, "regression_inputs_replayed": replayed,
            "known_findings_hit": known_hit,
        },
        "assumptions": prop.assumptions, "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violation.is_some() as u32,
    });
    write_evidence(&o.root, prop.id, &ev);
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", prop.id, k.what);
    }
    if let Some((s, p, m)) = violation {
        println!("sub-check {s}: {m}");
        println!("VIOLATION property={} replay={}", prop.id, p.display());
        return 1;
    }
    println!("OK property={} cases={} nontrivial={} seed={} tier={} wall={:.1}s", prop.id, evals, nontriv, o.seed, o.tier, t0.elapsed().as_secs_f64());
    0
}

fn write_evidence(root: &Path, id: &str, ev: &Value) {
    let d = root.join("evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(d.join(format!("{id}.json")), serde_json::to_string_pretty(ev).unwrap() + "\n").expect("write evidence");
}

/// Replays one file. Exit code 0 (holds), 1 (violated).
pub fn replay(prop: &Prop, file: &str) -> i32 {
    install_hook();
    watchdog();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay json");
    let name = v["sub"].as_str().expect("sub");
    let s = prop.subs.iter().find(|s| s.name() == name).expect("unknown sub-check");
    match s.replay(&v["case"]).expect("case") {
        Ok(_) => {
            println!("replay passes: {file}");
            0
        }
        Err(f) => {
            println!("sub-check {name}: {}", f.msg);
            println!("VIOLATION property={} replay={}", prop.id, file);
            1
        }
    }
}

/// Parent: runs the check in a child so that an abort of the code under test (undefined-behaviour
/// checks, stack overflow, failed allocation) becomes a reported violation.
pub fn supervise(prop: &Prop, o: &Opts, args: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(&exe).args(args).arg("--worker").status().expect("spawn worker");
    if let Some(c) = st.code() {
        return if c == 0 || c == 1 { c } else { 2 };
    }
    let sig = st.signal().unwrap_or(0);
    if sig == libc_sigkill() || sig == 15 || sig == 2 {
        eprintln!("worker ended by signal {sig}: no answer");
        return 3;
    }
    eprintln!("worker ended by signal {sig}; looking for the case that did it");
    let b = std::fs::read(o.state_file(prop.id)).unwrap_or_default();
    if b.first() == Some(&0xfe) && b.len() <= 512 {
        let e = b[1..].iter().position(|c| *c == 0).unwrap_or(0);
        let f = String::from_utf8_lossy(&b[1..1 + e]).to_string();
        println!("saved regression input crashes the process (signal {sig})");
        println!("VIOLATION property={} replay={}", prop.id, f);
        write_evidence(&o.root, prop.id, &json!({"property": prop.id, "tier": o.tier, "seed": o.seed, "level": "exploration",
            "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": prop.rule, "samples": [f]}, "wall_s": 0.0, "violations": 1}));
        return 1;
    }
    let mut t = 512;
    while t + 16 <= b.len() {
        if b[t] == 1 {
            let si = u32::from_le_bytes(b[t + 4..t + 8].try_into().unwrap()) as usize;
            let idx = u64::from_le_bytes(b[t + 8..t + 16].try_into().unwrap());
            let s = &prop.subs[si];
            let case = s.inst().case(o.seed, idx);
            let msg = format!("the process was ended by signal {sig} while executing this case (abort, non-termination or memory exhaustion)");
            let p = write_replay(&o.root, prop.id, s.name(), &case, &msg, o.seed, idx as i64);
            let r = std::process::Command::new(&exe).arg(prop.id).arg("--replay").arg(&p).output().expect("spawn");
            if !r.status.success() {
                eprintln!("{}", String::from_utf8_lossy(&r.stderr).lines().take(12).collect::<Vec<_>>().join("\n"));
                println!("sub-check {}: {msg}", s.name());
                println!("VIOLATION property={} replay={}", prop.id, p.display());
                write_evidence(&o.root, prop.id, &json!({"property": prop.id, "tier": o.tier, "seed": o.seed, "level": "exploration",
                    "coverage": {"evaluations": idx + 1, "distinct_nontrivial": 1, "rule": prop.rule, "samples": [trunc(&case)]}, "wall_s": 0.0, "violations": 1}));
                return 1;
            }
            let _ = std::fs::remove_file(&p);
        }
        t += 16;
    }
    eprintln!("worker died by signal {sig} but no recorded case reproduces it: no answer");
    4
}

fn libc_sigkill() -> i32 {
    9
}
