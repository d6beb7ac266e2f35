//! Choice-tape property-based testing engine.
//!
//! Every random decision of a case is one entry of a *tape* of integers, drawn through [`Src`].
//! A case is therefore a pure function of its tape: it can be replayed, mutated (coverage/feature
//! guided search) and shrunk (delete spans, zero spans, minimise entries) without knowing what the
//! entries mean.  Runs are a pure function of (code, seed): work is split in a fixed number of
//! shards, each with its own generator state and corpus, whatever the number of cores.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::Instant,
};

pub use serde_json;
use serde_json::{json, Value};

// ---------------------------------------------------------------- rng

#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
}

pub fn fnv(h: u64, bytes: &[u8]) -> u64 {
    let mut h = if h == 0 { 0xcbf29ce484222325 } else { h };
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

// ---------------------------------------------------------------- source of choices

pub struct Src {
    rng: Option<Rng>,
    input: Vec<u64>,
    pos: usize,
    /// what was actually drawn (reduced values)
    out: Vec<u64>,
    /// tape positions at which an operation starts
    spans: Vec<usize>,
    /// how many operations random mode asks for
    target: usize,
    done: usize,
}

const MAX_TAPE: usize = 60_000;

impl Src {
    fn random(rng: Rng) -> Self {
        Src { rng: Some(rng), input: vec![], pos: 0, out: vec![], spans: vec![], target: 0, done: 0 }
    }
    /// replay `tape`; past its end every draw is 0
    pub fn replay(tape: &[u64]) -> Self {
        Src { rng: None, input: tape.to_vec(), pos: 0, out: vec![], spans: vec![], target: 0, done: 0 }
    }
    /// replay a prefix, then continue randomly
    fn prefix(tape: &[u64], rng: Rng) -> Self {
        Src { rng: Some(rng), input: tape.to_vec(), pos: 0, out: vec![], spans: vec![], target: 0, done: 0 }
    }
    fn raw(&mut self, n: u64) -> u64 {
        let v = if self.pos < self.input.len() {
            let v = self.input[self.pos];
            if n == 0 {
                v
            } else {
                v % n
            }
        } else if let Some(r) = self.rng.as_mut() {
            if self.out.len() >= MAX_TAPE {
                0
            } else if n == 0 {
                r.next()
            } else {
                r.below(n)
            }
        } else {
            0
        };
        self.pos += 1;
        self.out.push(v);
        v
    }
    /// uniform in [0, n)
    pub fn below(&mut self, n: u64) -> u64 {
        self.raw(n.max(1))
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// uniform in [lo, hi]
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo {
            return lo;
        }
        if hi - lo == u64::MAX {
            return self.raw(0);
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn u64(&mut self) -> u64 {
        self.raw(0)
    }
    pub fn u128(&mut self) -> u128 {
        ((self.raw(0) as u128) << 64) | self.raw(0) as u128
    }
    pub fn flag(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    /// index chosen with the given weights
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, w) in w.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        w.len() - 1
    }
    /// a number with a log-uniform magnitude up to `bits` bits: reaches small and huge values alike
    pub fn magnitude(&mut self, bits: u32) -> u128 {
        let b = self.below(bits as u64 + 1) as u32;
        if b == 0 {
            return 0;
        }
        let hi = 1u128 << (b - 1);
        let r = if b <= 64 { self.raw(0) as u128 } else { self.u128() };
        hi | (r & (hi - 1))
    }
    /// Set how many operations `more` grants in random mode.
    pub fn plan(&mut self, lo: usize, hi: usize) {
        if let Some(r) = self.rng.as_mut() {
            self.target = lo + r.below((hi - lo + 1) as u64) as usize;
        }
    }
    /// "another operation?" - starts a span of the tape that mutation and shrinking treat as a unit
    pub fn more(&mut self) -> bool {
        self.spans.push(self.out.len());
        let v = if self.pos < self.input.len() {
            (self.input[self.pos] % 2) == 1
        } else if self.rng.is_some() {
            self.done < self.target && self.out.len() < MAX_TAPE
        } else {
            false
        };
        self.pos += 1;
        self.out.push(v as u64);
        if v {
            self.done += 1;
        }
        v
    }
}

// ---------------------------------------------------------------- what a case reports

#[derive(Clone, Debug)]
pub struct Fail {
    /// exact signature: identifies the violation for shrinking and known findings
    pub sig: String,
    pub msg: String,
}

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::Fail { sig: ($sig).to_string(), msg: format!($($arg)*) });
        }
    };
}

#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err($crate::Fail {
                sig: ($sig).to_string(),
                msg: format!("{}: code gives {:?}, expected {:?}", format!($($arg)*), a, b),
            });
        }
    }};
}

#[derive(Default)]
pub struct Rec {
    pub verbose: bool,
    pub log: Vec<String>,
    labels: BTreeMap<&'static str, u64>,
    feats: Vec<u64>,
    pub nontrivial: bool,
    ops: u64,
    /// known-finding situations left out by construction
    excluded: BTreeMap<&'static str, u64>,
}

impl Rec {
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.log.push(s);
        }
    }
    pub fn op(&mut self) {
        self.ops += 1;
    }
    /// count that a class of situation occurred in this case, and use it as a search feature
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
        let n = self.labels[l].min(4);
        self.feats.push(fnv(fnv(1, l.as_bytes()), &[n as u8]));
    }
    pub fn feature(&mut self, f: u64) {
        self.feats.push(f)
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true
    }
    /// is this failure a listed finding? If so, count it and let the case go on
    pub fn known(&mut self, sig: &'static str) -> bool {
        let k = KNOWN.get().map_or(false, |v| v.iter().any(|s| s == sig));
        if k {
            self.excluded(sig);
        }
        k
    }
    pub fn excluded(&mut self, what: &'static str) {
        *self.excluded.entry(what).or_insert(0) += 1;
    }
}

pub type CaseFn = dyn Fn(&mut Src, &mut Rec) -> Result<(), Fail> + Sync;

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<(String, String)> = RefCell::new(Default::default());
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| {
            let f = l.file();
            // path without what precedes the crate, and without the line: stable under edits
            let f = f.rsplit("/pallets/").next().unwrap_or(f);
            let f = f.rsplit("/registry/src/").next().unwrap_or(f);
            f.to_string()
        });
        let line = info.location().map(|l| l.line()).unwrap_or(0);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = loc.unwrap_or_default();
        let short: String = msg.chars().take(300).collect();
        LAST_PANIC.with(|p| *p.borrow_mut() = (format!("panic at {loc}"), format!("panicked at {loc}:{line}: {short}")));
    }));
}

fn run_case(f: &CaseFn, src: &mut Src, rec: &mut Rec) -> Result<(), Fail> {
    match catch_unwind(AssertUnwindSafe(|| f(src, rec))) {
        Ok(r) => r,
        Err(_) => {
            let (sig, msg) = LAST_PANIC.with(|p| p.borrow().clone());
            Err(Fail { sig, msg })
        },
    }
}

// ---------------------------------------------------------------- shrinking

struct Shrinker<'a> {
    f: &'a CaseFn,
    sig: String,
    best: Vec<u64>,
    spans: Vec<usize>,
    msg: String,
    tries: u64,
    max: u64,
    until: Instant,
}

impl Shrinker<'_> {
    fn try_tape(&mut self, t: &[u64]) -> bool {
        if self.tries >= self.max || self.until.elapsed().as_secs() > 60 {
            return false;
        }
        self.tries += 1;
        let mut s = Src::replay(t);
        let mut rec = Rec::default();
        if let Err(e) = run_case(self.f, &mut s, &mut rec) {
            if e.sig == self.sig {
                let mut out = s.out.clone();
                while out.last() == Some(&0) {
                    out.pop();
                }
                let simpler = out.len() < self.best.len() || (out.len() == self.best.len() && out < self.best);
                if simpler {
                    self.best = out;
                    self.spans = s.spans.clone();
                    self.msg = e.msg;
                    return true;
                }
            }
        }
        false
    }
    fn run(&mut self) {
        loop {
            let before = (self.best.len(), self.best.clone());
            // drop everything after a point
            // delete runs of whole operations
            let mut k = self.spans.len().max(1);
            while k >= 1 {
                let mut i = 0;
                while i < self.spans.len() {
                    let a = self.spans[i];
                    let b = *self.spans.get(i + k).unwrap_or(&self.best.len());
                    if a < b && b <= self.best.len() {
                        let mut t = self.best.clone();
                        t.drain(a..b);
                        if self.try_tape(&t) {
                            continue;
                        }
                    }
                    i += 1;
                }
                k /= 2;
            }
            // delete small chunks
            for k in [8usize, 4, 2, 1] {
                let mut i = 0;
                while i + k <= self.best.len() {
                    let mut t = self.best.clone();
                    t.drain(i..i + k);
                    if !self.try_tape(&t) {
                        i += 1;
                    }
                }
            }
            // minimise entries
            let mut i = 0;
            while i < self.best.len() {
                let v = self.best[i];
                if v > 0 {
                    let mut t = self.best.clone();
                    t[i] = 0;
                    if !self.try_tape(&t) {
                        let (mut lo, mut hi) = (0u64, v);
                        while lo + 1 < hi && i < self.best.len() {
                            let mid = lo + (hi - lo) / 2;
                            let mut t = self.best.clone();
                            t[i] = mid;
                            if self.try_tape(&t) {
                                hi = mid
                            } else {
                                lo = mid
                            }
                        }
                        if i < self.best.len() && self.best[i] > 1 {
                            let mut t = self.best.clone();
                            t[i] -= 1;
                            self.try_tape(&t);
                        }
                    }
                }
                i += 1;
            }
            if before.1 == self.best || self.tries >= self.max || self.until.elapsed().as_secs() > 60 {
                break;
            }
        }
    }
}

// ---------------------------------------------------------------- campaign

pub struct Prop {
    pub id: &'static str,
    /// what counts as non-trivial
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub case: Box<CaseFn>,
    pub assumptions: &'static [&'static str],
    /// how much of the search mutates tapes that showed something new (percent)
    pub guided: u64,
}

#[derive(Default)]
struct Stats {
    evals: u64,
    ops: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, (u64, u64)>,
    feats: usize,
    corpus: usize,
    excluded: BTreeMap<String, u64>,
    samples: Vec<Vec<u64>>,
}

const SHARDS: u64 = 16;

#[derive(Clone)]
pub struct Known {
    pub sig: String,
    pub text: String,
}

fn mutate(rng: &mut Rng, corpus: &[(Vec<u64>, Vec<usize>)]) -> (Vec<u64>, bool) {
    let (t, sp) = &corpus[rng.below(corpus.len() as u64) as usize];
    let mut t = t.clone();
    let span = |rng: &mut Rng, len: usize, sp: &Vec<usize>| -> Option<(usize, usize)> {
        if sp.len() < 2 {
            return None;
        }
        let i = rng.below(sp.len() as u64 - 1) as usize;
        let n = 1 + rng.below(4) as usize;
        let a = sp[i];
        let b = *sp.get((i + n).min(sp.len() - 1)).unwrap();
        (a < b && b <= len).then_some((a, b))
    };
    match rng.below(6) {
        0 => {
            // continue a prefix randomly
            if let Some((a, _)) = span(rng, t.len(), sp) {
                t.truncate(a);
            }
            return (t, true);
        },
        1 => {
            if let Some((a, b)) = span(rng, t.len(), sp) {
                t.drain(a..b);
            }
        },
        2 => {
            if let Some((a, b)) = span(rng, t.len(), sp) {
                let part = t[a..b].to_vec();
                t.splice(b..b, part);
            }
        },
        3 => {
            let (t2, sp2) = &corpus[rng.below(corpus.len() as u64) as usize];
            if let (Some((a, b)), Some((c, _))) = (span(rng, t2.len(), sp2), span(rng, t.len(), sp)) {
                t.splice(c..c, t2[a..b].iter().copied());
            }
        },
        4 => {
            // cross over
            let (t2, sp2) = &corpus[rng.below(corpus.len() as u64) as usize];
            if let (Some((a, _)), Some((c, _))) = (span(rng, t2.len(), sp2), span(rng, t.len(), sp)) {
                t.truncate(c);
                t.extend_from_slice(&t2[a..]);
            }
        },
        _ => {},
    }
    let n = rng.below(4);
    for _ in 0..n {
        if t.is_empty() {
            break;
        }
        let i = rng.below(t.len() as u64) as usize;
        t[i] = match rng.below(4) {
            0 => t[i].wrapping_add(1),
            1 => t[i].saturating_sub(1),
            2 => rng.next() >> rng.below(64),
            _ => rng.below(16),
        };
    }
    (t, false)
}

struct Found {
    tape: Vec<u64>,
    spans: Vec<usize>,
    fail: Fail,
}

fn shard(p: &Prop, seed: u64, sh: u64, cases: u64, known: &[Known], stop: &AtomicBool, beat: &Beat) -> (Stats, Option<Found>) {
    beat.enter();
    let mut st = Stats::default();
    let mut rng = Rng::new(fnv(fnv(seed ^ 0x5151, p.id.as_bytes()), &sh.to_le_bytes()));
    let mut corpus: Vec<(Vec<u64>, Vec<usize>)> = vec![];
    let mut seen: HashSet<u64> = HashSet::new();
    for _ in 0..cases {
        if stop.load(Ordering::Relaxed) {
            break;
        }
        let mut src = if !corpus.is_empty() && rng.below(100) < p.guided {
            let (t, cont) = mutate(&mut rng, &corpus);
            if cont {
                let mut s = Src::prefix(&t, Rng::new(rng.next()));
                s.target = 0;
                s
            } else {
                Src::replay(&t)
            }
        } else {
            Src::random(Rng::new(rng.next()))
        };
        let mut rec = Rec::default();
        *beat.start.lock().unwrap() = (src.input.clone(), src.rng.clone());
        beat.n.fetch_add(1, Ordering::Relaxed);
        let r = run_case(&*p.case, &mut src, &mut rec);
        st.evals += 1;
        st.ops += rec.ops;
        for (l, n) in &rec.labels {
            let e = st.labels.entry(l).or_insert((0, 0));
            e.0 += 1;
            e.1 += n;
        }
        for (l, n) in &rec.excluded {
            *st.excluded.entry(l.to_string()).or_insert(0) += n;
        }
        if let Err(e) = r {
            if let Some(k) = known.iter().find(|k| k.sig == e.sig) {
                *st.excluded.entry(format!("known finding: {}", k.sig)).or_insert(0) += 1;
            } else {
                stop.store(true, Ordering::Relaxed);
                let found = Found { tape: src.out, spans: src.spans, fail: e };
                st.feats = seen.len();
                return (st, Some(found));
            }
            continue;
        }
        let mut new = false;
        for f in &rec.feats {
            new |= seen.insert(*f);
        }
        if rec.nontrivial {
            st.nontrivial += 1;
            let mut h = 7;
            for v in &src.out {
                h = fnv(h, &v.to_le_bytes());
            }
            st.distinct.insert(h);
            if st.samples.len() < 1 && rec.ops >= 3 || st.samples.is_empty() {
                st.samples.push(src.out.clone());
            }
        }
        if new && src.out.len() < 20_000 && corpus.len() < 4000 {
            corpus.push((src.out, src.spans));
        }
    }
    st.feats = seen.len();
    st.corpus = corpus.len();
    (st, None)
}

/// what a shard is doing: how many cases it began, where the current one starts, and in which thread
struct Beat {
    n: AtomicU64,
    start: Mutex<(Vec<u64>, Option<Rng>)>,
    task: Mutex<Option<std::path::PathBuf>>,
}
/// A case takes milliseconds; one that has used this much processor time by itself does not end.
const CASE_CPU: u64 = 40;
/// With the process at this size (GB), a case of this many seconds is one that grows without end.
const SIZE: (u64, u64) = (9, 4);
impl Beat {
    fn new() -> Self {
        Beat { n: AtomicU64::new(0), start: Mutex::new((vec![], None)), task: Mutex::new(None) }
    }
    fn enter(&self) {
        *self.task.lock().unwrap() = std::fs::read_link("/proc/thread-self").ok().map(|l| std::path::Path::new("/proc").join(l));
    }
    fn leave(&self) {
        *self.task.lock().unwrap() = None;
    }
    /// processor time of the thread, in seconds
    fn cpu(&self) -> Option<u64> {
        let t = std::fs::read_to_string(self.task.lock().unwrap().as_ref()?.join("stat")).ok()?;
        let f: Vec<&str> = t.rsplit_once(')')?.1.split_whitespace().collect();
        Some((f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?) / 100)
    }
}
/// resident memory in GB
fn resident() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|t| t.split_whitespace().nth(1)?.parse::<u64>().ok()).unwrap_or(0) * 4096 >> 30
}
fn replay_path(id: &str, tape: &[u64], extra: u64) -> String {
    let dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&dir);
    let mut h = 3 ^ extra;
    for v in tape {
        h = fnv(h, &v.to_le_bytes());
    }
    format!("{dir}/{id}-{:012x}.json", h & 0xffff_ffff_ffff)
}
/// Report a case that does not end: it cannot be shrunk; its start (tape and generator) replays it.
fn endless(id: &str, tier: &str, seed: u64, tape: &[u64], rng: &Option<Rng>, evals: u64, wall: f64) -> ! {
    let path = replay_path(id, tape, rng.as_ref().map_or(0, |r| r.0[0]));
    let msg = format!("a case does not end ({CASE_CPU} s of processor time, or growing without end)");
    let doc = json!({"property": id, "sig": "does not end", "message": msg, "tape": tape, "rng": rng.as_ref().map(|r| r.0.to_vec())});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
    let ev = json!({"property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": 0, "rule": "ended by a case that does not end", "samples": []},
        "assumptions": [], "violations": [{"sig": "does not end", "message": msg, "replay": path}], "wall_s": wall});
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    let _ = std::fs::write(format!("{}/evidence/{id}.json", verif()), serde_json::to_string_pretty(&ev).unwrap());
    println!("{msg}\nVIOLATION property={id} replay={path}");
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(1)
}

fn describe(f: &CaseFn, tape: &[u64]) -> (Vec<String>, Result<(), Fail>) {
    let mut s = Src::replay(tape);
    let mut rec = Rec { verbose: true, ..Default::default() };
    let r = run_case(f, &mut s, &mut rec);
    (rec.log, r)
}

fn known_for(id: &str) -> Vec<Known> {
    // lines:  known: property=<id> sig=[<exact signature>] <what fails>
    let path = format!("{}/known-findings.txt", verif());
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(path) {
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix(&format!("known: property={id} sig=[")) {
                if let Some((sig, text)) = rest.split_once("] ") {
                    v.push(Known { sig: sig.to_string(), text: text.to_string() });
                }
            }
        }
    }
    v
}

/// signatures of the listed findings of the property being checked
static KNOWN: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();

fn verif() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

/// Entry point of a harness: `<bin> <property> [--replay FILE]`; tier and seed from the environment.
pub fn main(props: Vec<Prop>) {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let _ = KNOWN.set(known_for(&id).into_iter().map(|k| k.sig).collect());
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("no such property {id}; have {:?}", props.iter().map(|p| p.id).collect::<Vec<_>>());
        std::process::exit(2);
    };
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let text = std::fs::read_to_string(&args[i + 1]).expect("replay file");
        let v: Value = serde_json::from_str(&text).expect("replay json");
        let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        // a case that does not end does not end here either
        let (id2, beat) = (id.clone(), std::sync::Arc::new(Beat::new()));
        beat.enter();
        let (b2, file) = (beat.clone(), args[i + 1].clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let c = b2.cpu().unwrap_or(0);
            if c >= CASE_CPU || resident() >= SIZE.0 && c >= SIZE.1 {
                println!("the case does not end\nVIOLATION property={id2} replay={file}");
                std::process::exit(1);
            }
        });
        if let Some(r) = v["rng"].as_array() {
            let w: Vec<u64> = r.iter().filter_map(|x| x.as_u64()).collect();
            let r = run_case(&*p.case, &mut Src::prefix(&tape, Rng([w[0], w[1], w[2], w[3]])), &mut Rec::default());
            if r.is_ok() {
                println!("replay: property {id} holds on this case");
                return;
            }
            println!("VIOLATION property={id} replay={}", args[i + 1]);
            std::process::exit(1);
        }
        let (log, r) = describe(&*p.case, &tape);
        for l in log {
            println!("{l}");
        }
        match r {
            Ok(()) => println!("replay: property {id} holds on this case"),
            Err(e) => {
                println!("{}\n  [{}]", e.msg, e.sig);
                println!("VIOLATION property={id} replay={}", args[i + 1]);
                std::process::exit(1);
            },
        }
        return;
    }
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut cases = if tier == "thorough" { p.thorough } else { p.quick };
    if let Ok(c) = std::env::var("VERIF_CASES") {
        cases = c.parse().unwrap();
    }
    let known = known_for(p.id);
    let t0 = Instant::now();
    let stop = AtomicBool::new(false);
    let beats: Vec<Beat> = (0..SHARDS).map(|_| Beat::new()).collect();
    let next = AtomicU64::new(0);
    let finished = AtomicU64::new(0);
    let results: Mutex<Vec<(u64, Stats, Option<Found>)>> = Mutex::new(vec![]);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(SHARDS as usize);
    let limit: u64 = if tier == "thorough" { 3 * 3600 } else { 800 };
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let sh = next.fetch_add(1, Ordering::Relaxed);
                    if sh >= SHARDS {
                        finished.fetch_add(1, Ordering::Relaxed);
                        break;
                    }
                    let n = cases / SHARDS + (sh < cases % SHARDS) as u64;
                    let (st, found) = shard(p, seed, sh, n, &known, &stop, &beats[sh as usize]);
                    beats[sh as usize].leave();
                    results.lock().unwrap().push((sh, st, found));
                })
                .unwrap();
        }
        // watchdog: a case that never ends is a violation; a machine that gives no time is no answer (exit 2)
        s.spawn(|| {
            let mut last: Vec<(u64, Instant, u64)> = vec![(0, Instant::now(), 0); SHARDS as usize];
            let mut since = Instant::now();
            while finished.load(Ordering::Relaxed) < threads as u64 {
                std::thread::sleep(std::time::Duration::from_millis(100));
                let big = resident() >= SIZE.0;
                for (b, l) in beats.iter().zip(&mut last) {
                    let n = b.n.load(Ordering::Relaxed);
                    if n != l.0 {
                        *l = (n, Instant::now(), b.cpu().unwrap_or(0));
                        since = Instant::now();
                    } else if n > 0 && l.1.elapsed().as_secs() >= if big { SIZE.1 } else { CASE_CPU } {
                        let used = b.cpu().unwrap_or(0).saturating_sub(l.2);
                        if used >= if big { SIZE.1 } else { CASE_CPU } && b.n.load(Ordering::Relaxed) == n {
                            let st = b.start.lock().unwrap().clone();
                            endless(p.id, &tier, seed, &st.0, &st.1, beats.iter().map(|b| b.n.load(Ordering::Relaxed)).sum(), t0.elapsed().as_secs_f64());
                        }
                    }
                }
                if since.elapsed().as_secs() > 240 || t0.elapsed().as_secs() > limit {
                    eprintln!("watchdog: no progress or time limit; no answer");
                    std::process::exit(2);
                }
            }
        });
    });
    let mut results = results.into_inner().unwrap();
    results.sort_by_key(|r| r.0);
    let mut tot = Stats::default();
    let mut samples = vec![];
    let mut found = None;
    for (_, st, f) in results {
        tot.evals += st.evals;
        tot.ops += st.ops;
        tot.nontrivial += st.nontrivial;
        tot.distinct.extend(st.distinct);
        tot.feats = tot.feats.max(st.feats);
        tot.corpus += st.corpus;
        for (l, (a, b)) in st.labels {
            let e = tot.labels.entry(l).or_insert((0, 0));
            e.0 += a;
            e.1 += b;
        }
        for (l, n) in st.excluded {
            *tot.excluded.entry(l).or_insert(0) += n;
        }
        if samples.len() < 4 {
            samples.extend(st.samples.into_iter().take(1));
        }
        if found.is_none() {
            found = f;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut violations = vec![];
    let mut code = 0;
    // listed findings: reproduce each from its committed tape
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", p.id, k.text);
    }
    if let Some(fd) = found {
        let mut sh = Shrinker {
            f: &*p.case,
            sig: fd.fail.sig.clone(),
            best: fd.tape,
            spans: fd.spans,
            msg: fd.fail.msg,
            tries: 0,
            max: 20_000,
            until: Instant::now(),
        };
        // should a smaller case not end, the failure is reported as it was found
        let first = replay_path(p.id, &sh.best, 0);
        let doc = json!({"property": p.id, "sig": sh.sig, "message": sh.msg, "tape": sh.best});
        let _ = std::fs::write(&first, serde_json::to_string_pretty(&doc).unwrap());
        {
            let (first, id, msg) = (first.clone(), p.id, sh.msg.clone());
            std::thread::spawn(move || {
                let t = Instant::now();
                while t.elapsed().as_secs() < 180 && resident() < SIZE.0 + 2 {
                    std::thread::sleep(std::time::Duration::from_millis(200));
                }
                println!("{msg}\nVIOLATION property={id} replay={first}");
                std::process::exit(1);
            });
        }
        sh.run();
        let (log, _) = describe(&*p.case, &sh.best);
        let path = replay_path(p.id, &sh.best, 0);
        if path != first {
            let _ = std::fs::remove_file(&first);
        }
        let doc = json!({"property": p.id, "sig": sh.sig, "message": sh.msg, "tape": sh.best, "case": log});
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("write replay");
        for l in &log {
            println!("  {l}");
        }
        println!("{}\n  [{}] shrunk with {} runs", sh.msg, sh.sig, sh.tries);
        println!("VIOLATION property={} replay={}", p.id, path);
        violations.push(json!({"sig": sh.sig, "message": sh.msg, "replay": path}));
        code = 1;
    }
    let samples: Vec<Value> = samples
        .iter()
        .map(|t| {
            let (mut log, _) = describe(&*p.case, t);
            if log.len() > 60 {
                let n = log.len();
                log.truncate(60);
                log.push(format!("... {} more", n - 60));
            }
            json!(log)
        })
        .collect();
    let labels: BTreeMap<&str, String> =
        tot.labels.iter().map(|(l, (c, n))| (*l, format!("{c} cases, {n} times"))).collect();
    let ev = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tot.evals,
            "distinct_nontrivial": tot.distinct.len(),
            "nontrivial": tot.nontrivial,
            "operations": tot.ops,
            "rule": p.rule,
            "samples": samples,
            "classes": labels,
            "search_features_per_shard": tot.feats,
            "guided_corpus": tot.corpus,
            "excluded": tot.excluded,
        },
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
        "known_findings": known.iter().map(|k| k.text.clone()).collect::<Vec<_>>(),
        "assumptions": p.assumptions,
    });
    let dir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{}: {} cases, {} operations, {} distinct non-trivial, {} features, {:.1}s, {}",
        p.id,
        tot.evals,
        tot.ops,
        tot.distinct.len(),
        tot.feats,
        wall,
        if code == 0 { "held" } else { "VIOLATED" }
    );
    if std::env::var("VERIF_VERBOSE").is_ok() {
        for (l, s) in &labels {
            println!("    {l}: {s}");
        }
        for (l, s) in &tot.excluded {
            println!("    excluded {l}: {s}");
        }
    }
    std::process::exit(code);
}
