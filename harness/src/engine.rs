//! Case engine: deterministic generation, parallel execution, shrinking, replay files, evidence.

use crate::fl::*;
use crate::rng::*;
use astro_float::Consts;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, Default)]
pub struct Step {
    pub op: String,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub a: Vec<usize>,
    #[serde(default)]
    pub p: usize,
    #[serde(default)]
    pub rm: u8,
    #[serde(default)]
    pub n: i64,
}

/// One generated case, and the whole content of a replay file.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, Default)]
pub struct Case {
    pub op: String,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub f: Vec<Fl>,
    #[serde(default)]
    pub p: usize,
    #[serde(default)]
    pub rm: u8,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub n: Vec<i64>,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub s: String,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub steps: Vec<Step>,
}

impl Case {
    pub fn new(op: &str) -> Case {
        Case { op: op.into(), ..Default::default() }
    }
    pub fn f(mut self, f: Fl) -> Case {
        self.f.push(f);
        self
    }
    pub fn p(mut self, p: usize) -> Case {
        self.p = p;
        self
    }
    pub fn rm(mut self, rm: u8) -> Case {
        self.rm = rm;
        self
    }
    pub fn n(mut self, n: i64) -> Case {
        self.n.push(n);
        self
    }
    pub fn s(mut self, s: String) -> Case {
        self.s = s;
        self
    }
    pub fn show(&self) -> String {
        let mut o = self.op.clone();
        o.push('(');
        for x in &self.f {
            o.push_str(&x.show());
            o.push_str(", ");
        }
        if !self.n.is_empty() {
            o.push_str(&format!("n={:?}, ", self.n));
        }
        if !self.s.is_empty() {
            let s: String = self.s.chars().take(160).collect();
            o.push_str(&format!("s={:?}, ", s));
        }
        if !self.steps.is_empty() {
            o.push_str(&format!("{} steps: ", self.steps.len()));
            for st in self.steps.iter().take(8) {
                o.push_str(&format!("{}{:?} p={} rm={} n={}; ", st.op, st.a, st.p, st.rm, st.n));
            }
        }
        o.push_str(&format!("p={}, {})", self.p, rmname(self.rm.min(6))));
        o
    }
}

/// A constants cache made when it is first used, so that a library which cannot make one fails inside of a case.
#[derive(Default)]
pub struct LazyConsts(std::cell::OnceCell<Consts>);

pub fn new_consts() -> Consts {
    match Consts::new() {
        Ok(c) => c,
        Err(e) => panic!("library: Consts::new() gives {:?}", e),
    }
}

impl std::ops::Deref for LazyConsts {
    type Target = Consts;
    fn deref(&self) -> &Consts {
        self.0.get_or_init(new_consts)
    }
}

impl std::ops::DerefMut for LazyConsts {
    fn deref_mut(&mut self) -> &mut Consts {
        self.0.get_or_init(new_consts);
        self.0.get_mut().unwrap()
    }
}

pub struct Ctx {
    pub cc: LazyConsts,
    /// the server of C29 has been told to start with a fresh cache too
    pub remote: bool,
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { cc: LazyConsts::default(), remote: false }
    }
}

/// Outcome of a case that did not fail: not applicable, trivial or non-trivial, plus class labels.
#[derive(Clone, Debug)]
pub enum Out {
    Skip,
    Ok { nt: bool, tags: Vec<&'static str> },
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
    /// signature for the known-findings file; empty: none
    pub sig: String,
}

pub type Res = Result<Out, Fail>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into(), sig: String::new() })
}
pub fn fail_sig<T>(msg: impl Into<String>, sig: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into(), sig: sig.into() })
}
pub fn ok(nt: bool) -> Res {
    Ok(Out::Ok { nt, tags: vec![] })
}
pub fn okt(nt: bool, tags: Vec<&'static str>) -> Res {
    Ok(Out::Ok { nt, tags })
}

pub type GenFn = fn(&mut Rng) -> Case;
pub type CheckFn = fn(&Case, &mut Ctx) -> Res;

pub struct Stream {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// cases sharing one constants cache (and the unit of work of a thread)
    pub chunk: u64,
    pub gen: GenFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub streams: Vec<Stream>,
    pub check: CheckFn,
    /// concrete cases of the findings that are recorded, not repaired: (signature, case)
    pub canon: Vec<Case>,
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        crate::heap::disarm();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{} at {}", m, loc));
    }));
}

/// Runs `f`; a panic inside astro-float becomes Err, a panic in the harness itself aborts the run.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = PANIC_MSG.with(|p| p.borrow().clone());
            Err(m)
        }
    }
}

pub fn run_case(check: CheckFn, c: &Case, ctx: &mut Ctx) -> Res {
    let r = guarded(|| check(c, ctx));
    crate::heap::disarm();
    crate::heap::reset_fill();
    let dam = crate::heap::take_damage();
    if dam != 0 {
        *ctx = Ctx::new();
        return fail(format!("memory next to {} blocks was overwritten", dam));
    }
    match r {
        Ok(r) => r,
        Err(m) => {
            if (m.contains(" at src/") && !m.contains("library:")) || m.contains("oracle:") || m.contains("/rug-") {
                eprintln!("HARNESS ERROR on {}: {}", c.show(), m);
                std::process::exit(3);
            }
            *ctx = Ctx::new(); // state may be torn
            fail(format!("panic: {}", m))
        }
    }
}

// ---------- shrinking ----------

fn shrink_fl(x: &Fl) -> Vec<Fl> {
    let mut v = vec![];
    if let Fl::Fin { neg, e, w, inex } = x {
        if *inex {
            v.push(Fl::Fin { neg: *neg, e: *e, w: w.clone(), inex: false });
        }
        if *neg {
            v.push(Fl::Fin { neg: false, e: *e, w: w.clone(), inex: *inex });
        }
        let n = w.len();
        let sub = x.is_subnormal();
        if n > 1 {
            // drop low words
            let mut ks = vec![n - 1, n / 2, n / 4, 1];
            ks.retain(|k| *k > 0 && *k < n);
            for k in ks {
                let y = Fl::Fin { neg: *neg, e: *e, w: w[k..].to_vec(), inex: *inex };
                if y.normal_or_sub_valid() {
                    v.push(y);
                }
            }
        }
        // simplify words
        if n > 1 {
            let mut z = w.clone();
            for a in z[..n - 1].iter_mut() {
                *a = 0;
            }
            v.push(Fl::Fin { neg: *neg, e: *e, w: z, inex: *inex });
            if n > 3 {
                for (a, b) in [(0, n / 2), (n / 2, n - 1)] {
                    let mut z = w.clone();
                    for t in z[a..b].iter_mut() {
                        *t = 0;
                    }
                    v.push(Fl::Fin { neg: *neg, e: *e, w: z, inex: *inex });
                }
            }
        }
        for i in 0..n.min(40) {
            let i = if n > 40 { i * n / 40 } else { i };
            let cands: Vec<u64> = if i == n - 1 && !sub {
                vec![1 << 63, u64::MAX, 3 << 62]
            } else {
                vec![0, u64::MAX, 1, 1 << 63]
            };
            for cnd in cands {
                if w[i] != cnd && (w[i].count_ones() > cnd.count_ones()) {
                    let mut z = w.clone();
                    z[i] = cnd;
                    v.push(Fl::Fin { neg: *neg, e: *e, w: z, inex: *inex });
                }
            }
        }
        for ne in [0, 1, 2, *e / 2, *e - e.signum()] {
            if ne.abs() < e.abs() && !sub {
                v.push(Fl::Fin { neg: *neg, e: ne, w: w.clone(), inex: *inex });
            }
        }
    }
    v.retain(|y| y != x && y.normal_or_sub_valid());
    v
}

pub fn shrink_candidates(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    // steps
    let k = c.steps.len();
    if k > 0 {
        let mut w = k;
        while w >= 1 {
            let mut i = 0;
            while i < k {
                let mut d = c.clone();
                d.steps.drain(i..(i + w).min(k));
                out.push(d);
                i += w;
            }
            if w == 1 {
                break;
            }
            w /= 2;
        }
        for i in 0..k {
            if c.steps[i].p > 64 {
                let mut d = c.clone();
                d.steps[i].p = 64;
                out.push(d);
            }
            if c.steps[i].n != 0 {
                let mut d = c.clone();
                d.steps[i].n /= 2;
                out.push(d);
            }
        }
    }
    if c.p > 64 {
        for p in [64, round_p(c.p / 2), c.p - 64] {
            if p > 0 && p < c.p {
                let mut d = c.clone();
                d.p = p;
                out.push(d);
            }
        }
    }
    for r in [TOZERO, TOEVEN] {
        if c.rm != r && c.rm != NONE {
            let mut d = c.clone();
            d.rm = r;
            out.push(d);
        }
    }
    for i in 0..c.f.len() {
        for y in shrink_fl(&c.f[i]) {
            let mut d = c.clone();
            d.f[i] = y;
            out.push(d);
        }
    }
    for i in 0..c.n.len() {
        let v = c.n[i];
        for y in [0, 1, v / 2, v - v.signum()] {
            if y != v && y.unsigned_abs() < v.unsigned_abs() {
                let mut d = c.clone();
                d.n[i] = y;
                out.push(d);
            }
        }
    }
    if !c.s.is_empty() {
        let ch: Vec<char> = c.s.chars().collect();
        let k = ch.len();
        let mut w = k / 2;
        loop {
            if w == 0 {
                break;
            }
            let mut i = 0;
            while i < k {
                let mut z = ch.clone();
                z.drain(i..(i + w).min(k));
                let mut d = c.clone();
                d.s = z.into_iter().collect();
                out.push(d);
                i += w;
            }
            w /= 2;
        }
        for i in 0..k {
            if ch[i].is_ascii_digit() && ch[i] != '0' && ch[i] != '1' {
                let mut z = ch.clone();
                z[i] = '1';
                let mut d = c.clone();
                d.s = z.into_iter().collect();
                out.push(d);
            }
        }
    }
    out
}

/// Greedy shrink in its own thread; a candidate that does not end leaves the best case found so far.
fn shrink(check: CheckFn, c: &Case, f: &Fail, known: &HashSet<String>) -> (Case, Fail) {
    let best = Arc::new(Mutex::new((c.clone(), f.clone())));
    let (tx, rx) = std::sync::mpsc::channel();
    let (b2, k2) = (best.clone(), known.clone());
    let _ = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        crate::oracle::mpfr_init_thread();
        let (c, f) = b2.lock().unwrap().clone();
        shrink_loop(check, &c, &f, &k2, &b2);
        let _ = tx.send(());
    });
    let _ = rx.recv_timeout(std::time::Duration::from_secs(90));
    let r = best.lock().unwrap().clone();
    r
}

/// Keeps the case failing with a signature of the same kind (known / unknown).
fn shrink_loop(check: CheckFn, c: &Case, f: &Fail, known: &HashSet<String>, best: &Mutex<(Case, Fail)>) {
    let mut cur = c.clone();
    let mut cf = f.clone();
    let mut budget = 1500;
    let t0 = Instant::now();
    'outer: loop {
        for d in shrink_candidates(&cur) {
            if budget == 0 || t0.elapsed().as_secs() > 60 {
                break 'outer;
            }
            budget -= 1;
            let mut ctx = Ctx::new();
            if let Err(e) = run_case(check, &d, &mut ctx) {
                if !known.contains(&e.sig) || e.sig.is_empty() {
                    cur = d;
                    cf = e;
                    *best.lock().unwrap() = (cur.clone(), cf.clone());
                    continue 'outer;
                }
            }
        }
        break;
    }
}

// ---------- cases that do not end or kill the process ----------

struct Slot {
    /// milliseconds since the start of the run plus one; 0: idle
    since: AtomicU64,
    stream: AtomicU64,
    first: AtomicU64,
    idx: AtomicU64,
}
#[allow(clippy::declare_interior_mutable_const)]
const SLOT0: Slot = Slot { since: AtomicU64::new(0), stream: AtomicU64::new(0), first: AtomicU64::new(0), idx: AtomicU64::new(0) };
static SLOTS: [Slot; 64] = [SLOT0; 64];
static CRASH: Mutex<Option<CrashInfo>> = Mutex::new(None);

#[derive(Clone)]
struct CrashInfo {
    prop: String,
    root: String,
    seed: u64,
    streams: Vec<&'static str>,
}

thread_local! {
    static MY_SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

/// Writes a replay file for the case in `slot` and prints the violation line.
fn report_slot(slot: usize, what: &str) {
    let info = match CRASH.try_lock() {
        Ok(g) => g.clone(),
        Err(_) => None,
    };
    if let Some(ci) = info {
        let s = &SLOTS[slot];
        let si = s.stream.load(Ordering::Relaxed) as usize;
        let rep = Replay {
            property: ci.prop.clone(),
            message: what.into(),
            case: None,
            chunk: Some((ci.streams[si].into(), ci.seed, s.first.load(Ordering::Relaxed), s.idx.load(Ordering::Relaxed))),
        };
        let dir = format!("{}/replays", ci.root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}-{}.json", dir, ci.prop, ci.streams[si], s.idx.load(Ordering::Relaxed));
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap());
        println!("{}: stream {} case {}", what, ci.streams[si], s.idx.load(Ordering::Relaxed));
        println!("VIOLATION property={} replay={}", ci.prop, path);
        let ev = serde_json::json!({
            "property": ci.prop, "tier": "quick", "seed": ci.seed, "level": "exploration",
            "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "run ended early", "samples": [what]},
            "assumptions": [], "wall_s": 0.0, "violations": 1,
        });
        let _ = std::fs::create_dir_all(format!("{}/evidence", ci.root));
        let _ = std::fs::write(format!("{}/evidence/{}.json", ci.root, ci.prop), serde_json::to_string_pretty(&ev).unwrap());
    }
}

/// text without allocation, for the signal handler
struct Raw {
    b: [u8; 4096],
    n: usize,
}

impl std::fmt::Write for Raw {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for x in s.bytes() {
            if self.n < self.b.len() {
                self.b[self.n] = x;
                self.n += 1;
            }
        }
        Ok(())
    }
}

impl Raw {
    const NEW: Raw = Raw { b: [0; 4096], n: 0 };
    /// as a C string
    fn ptr(&mut self) -> *const libc::c_char {
        let n = self.n.min(self.b.len() - 1);
        self.b[n] = 0;
        self.b.as_ptr() as *const libc::c_char
    }
    unsafe fn to_file(&self, path: *const libc::c_char) {
        let fd = libc::open(path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, 0o644 as libc::c_uint);
        if fd >= 0 {
            libc::write(fd, self.b.as_ptr() as *const libc::c_void, self.n);
            libc::close(fd);
        }
    }
}

/// CRASH again, reachable without a lock
static CRASH_RAW: std::sync::OnceLock<CrashInfo> = std::sync::OnceLock::new();
static CRASHING: AtomicBool = AtomicBool::new(false);
/// the alternate stack of a thread is small
static mut RAW: [Raw; 6] = [Raw::NEW, Raw::NEW, Raw::NEW, Raw::NEW, Raw::NEW, Raw::NEW];

extern "C" fn on_abort(sig: libc::c_int) {
    use std::fmt::Write;
    // the process is lost (abort, stack overflow, out of memory, damaged heap): only calls that are safe here
    unsafe {
        crate::heap::disarm();
        if CRASHING.swap(true, Ordering::SeqCst) {
            // another thread reports
            libc::sleep(5);
            libc::_exit(3);
        }
        let slot = MY_SLOT.with(|m| m.get());
        let (Some(ci), true) = (CRASH_RAW.get(), slot != usize::MAX) else {
            libc::_exit(3);
        };
        let s = &SLOTS[slot];
        let what = if s.since.load(Ordering::Relaxed) != 0 { "the process was ended by a case" } else { "the process was ended after a case" };
        let stream = ci.streams[s.stream.load(Ordering::Relaxed) as usize];
        let (first, idx) = (s.first.load(Ordering::Relaxed), s.idx.load(Ordering::Relaxed));
        let [dir, path, r, ev, evp, o] = &mut *std::ptr::addr_of_mut!(RAW);
        let _ = write!(dir, "{}/replays", ci.root);
        libc::mkdir(dir.ptr(), 0o755);
        let _ = write!(path, "{}/replays/{}-{}-{}.json", ci.root, ci.prop, stream, idx);
        let _ = write!(
            r,
            "{{\"property\": \"{}\", \"message\": \"{} (signal {})\", \"case\": null, \"chunk\": [\"{}\", {}, {}, {}]}}\n",
            ci.prop, what, sig, stream, ci.seed, first, idx
        );
        r.to_file(path.ptr());
        let _ = write!(
            ev,
            "{{\"property\": \"{}\", \"tier\": \"quick\", \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": 1, \"distinct_nontrivial\": 1, \"rule\": \"run ended early\", \"samples\": [\"{}\"]}}, \"assumptions\": [], \"wall_s\": 0.0, \"violations\": 1}}\n",
            ci.prop, ci.seed, what
        );
        let _ = write!(evp, "{}/evidence/{}.json", ci.root, ci.prop);
        ev.to_file(evp.ptr());
        let _ = write!(o, "{} (signal {}): stream {} case {}\nVIOLATION property={} replay={}\n", what, sig, stream, idx, ci.prop, std::str::from_utf8_unchecked(&path.b[..path.n]));
        libc::write(1, o.b.as_ptr() as *const libc::c_void, o.n);
        libc::_exit(1);
    }
}

pub fn install_crash_handlers() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_abort as *const () as usize;
        sa.sa_flags = libc::SA_ONSTACK;
        for sig in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
        // memory exhaustion must fail an allocation, not invite the system to end the process
        let lim = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
}

fn start_watchdog(t0: Instant, limit_ms: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let now = t0.elapsed().as_millis() as u64 + 1;
        for (i, s) in SLOTS.iter().enumerate() {
            let v = s.since.load(Ordering::Relaxed);
            if v != 0 && now > v + limit_ms {
                let k = s.idx.load(Ordering::Relaxed);
                std::thread::sleep(std::time::Duration::from_millis(200));
                if s.since.load(Ordering::Relaxed) == v && s.idx.load(Ordering::Relaxed) == k {
                    report_slot(i, &format!("a case did not end within {} s", limit_ms / 1000));
                    std::process::exit(1);
                }
            }
        }
    });
}

// ---------- runner ----------

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub message: String,
    pub case: Option<Case>,
    /// set when the failure needs the history of a chunk: (stream, seed, first index, failing index)
    pub chunk: Option<(String, u64, u64, u64)>,
}

pub struct Known {
    pub sigs: HashSet<String>,
    pub what: BTreeMap<String, String>,
}

pub fn load_known(root: &str, prop: &str) -> Known {
    let mut k = Known { sigs: HashSet::new(), what: BTreeMap::new() };
    let path = format!("{}/known-findings.json", root);
    if let Ok(t) = std::fs::read_to_string(&path) {
        let v: serde_json::Value = serde_json::from_str(&t).expect("known-findings.json");
        for e in v["findings"].as_array().unwrap_or(&vec![]) {
            if e["property"] == prop {
                let sig = e["signature"].as_str().unwrap().to_string();
                k.what.insert(sig.clone(), e["what"].as_str().unwrap_or("").to_string());
                k.sigs.insert(sig);
            }
        }
    }
    k
}

struct Shared {
    evals: AtomicU64,
    skips: AtomicU64,
    stop: AtomicBool,
    fails: Mutex<Vec<(usize, u64, u64, Case, Fail)>>,
    seen: Mutex<HashSet<u64>>,
    tags: Mutex<BTreeMap<String, u64>>,
    known_hits: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<BTreeMap<(usize, u64), String>>,
}

/// distinct cases are counted up to this number
const SEEN_CAP: usize = 60_000_000;

fn case_hash(c: &Case) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    c.hash(&mut h);
    h.finish()
}

pub fn gen_case(p: &Prop, s: &Stream, seed: u64, idx: u64) -> Case {
    let mut r = Rng::new(mix(seed, p.id, s.name, idx));
    (s.gen)(&mut r)
}

/// Returns the process exit code.
pub fn run_prop(p: &Prop, root: &str, seed: u64, thorough: bool, scale: f64, only: Option<&str>, keep_going: bool) -> i32 {
    let t0 = Instant::now();
    let known = load_known(root, p.id);
    let sh = Shared {
        evals: AtomicU64::new(0),
        skips: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        fails: Mutex::new(vec![]),
        seen: Mutex::new(HashSet::new()),
        tags: Mutex::new(BTreeMap::new()),
        known_hits: Mutex::new(BTreeMap::new()),
        samples: Mutex::new(BTreeMap::new()),
    };
    // work list: (stream, first, last)
    let mut work: Vec<(usize, u64, u64)> = vec![];
    for (si, s) in p.streams.iter().enumerate() {
        if let Some(o) = only {
            if o != s.name {
                continue;
            }
        }
        let n = ((if thorough { s.thorough } else { s.quick }) as f64 * scale).ceil() as u64;
        let mut i = 0;
        while i < n {
            work.push((si, i, (i + s.chunk).min(n)));
            i += s.chunk;
        }
    }
    // interleave streams so that slow streams do not serialise at the end: longest chunks are spread by order
    let next = AtomicU64::new(0);
    let nthreads = std::env::var("AFCHECK_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or(8usize);
    let trace = std::env::var_os("AFCHECK_TRACE").is_some();
    let slow = std::env::var_os("AFCHECK_SLOW").is_some();
    let per_stream_time: Mutex<BTreeMap<&'static str, f64>> = Mutex::new(BTreeMap::new());
    *CRASH.lock().unwrap() =
        Some(CrashInfo { prop: p.id.into(), root: root.into(), seed, streams: p.streams.iter().map(|s| s.name).collect() });
    let _ = CRASH_RAW.set(CRASH.lock().unwrap().clone().unwrap());
    start_watchdog(t0, if thorough { 900_000 } else { 120_000 });
    std::thread::scope(|sc| {
        for ti in 0..nthreads {
            let (sh, work, next, known, pst) = (&sh, &work, &next, &known, &per_stream_time);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    crate::oracle::mpfr_init_thread();
                    MY_SLOT.with(|m| m.set(ti));
                    let slot = &SLOTS[ti];
                    loop {
                        if sh.stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let wi = next.fetch_add(1, Ordering::Relaxed) as usize;
                        if wi >= work.len() {
                            break;
                        }
                        let (si, a, b) = work[wi];
                        let s = &p.streams[si];
                        let tc = Instant::now();
                        let mut ctx = Ctx::new();
                        let mut seen = vec![];
                        let mut tags: BTreeMap<&'static str, u64> = BTreeMap::new();
                        let mut ev = 0;
                        let mut sk = 0;
                        let mut sampled = false;
                        for i in a..b {
                            let c = gen_case(p, s, seed, i);
                            if trace { eprintln!("CASE {} {}", i, c.show()); }
                            let tk = Instant::now();
                            slot.stream.store(si as u64, Ordering::Relaxed);
                            slot.first.store(a, Ordering::Relaxed);
                            slot.idx.store(i, Ordering::Relaxed);
                            slot.since.store(tk.duration_since(t0).as_millis() as u64 + 1, Ordering::Relaxed);
                            let r = run_case(p.check, &c, &mut ctx);
                            slot.since.store(0, Ordering::Relaxed);
                            if slow && tk.elapsed().as_millis() > 500 {
                                eprintln!("SLOW {:?} {}", tk.elapsed(), c.show());
                            }
                            ev += 1;
                            match r {
                                Ok(Out::Skip) => sk += 1,
                                Ok(Out::Ok { nt, tags: t }) => {
                                    for x in t {
                                        *tags.entry(x).or_insert(0) += 1;
                                    }
                                    if nt {
                                        seen.push(case_hash(&c));
                                        if !sampled && a == 0 {
                                            sampled = true;
                                            sh.samples.lock().unwrap().insert((si, i), format!("{}: {}", s.name, c.show()));
                                        }
                                    }
                                }
                                Err(f) => {
                                    if !f.sig.is_empty() && known.sigs.contains(&f.sig) {
                                        *sh.known_hits.lock().unwrap().entry(f.sig.clone()).or_insert(0) += 1;
                                    } else {
                                        let mut v = sh.fails.lock().unwrap();
                                        v.push((si, a, i, c, f));
                                        if !keep_going || v.len() > 400 {
                                            sh.stop.store(true, Ordering::Relaxed);
                                            break;
                                        }
                                    }
                                }
                            }
                        }
                        sh.evals.fetch_add(ev, Ordering::Relaxed);
                        sh.skips.fetch_add(sk, Ordering::Relaxed);
                        let mut sn = sh.seen.lock().unwrap();
                        if sn.len() < SEEN_CAP {
                            sn.extend(seen);
                        }
                        drop(sn);
                        let mut tg = sh.tags.lock().unwrap();
                        for (k, v) in tags {
                            *tg.entry(format!("{}/{}", s.name, k)).or_insert(0) += v;
                        }
                        *tg.entry(format!("{}/cases", s.name)).or_insert(0) += ev;
                        *pst.lock().unwrap().entry(s.name).or_insert(0.0) += tc.elapsed().as_secs_f64();
                    }
                })
                .unwrap();
        }
    });
    crate::oracle::mpfr_init_thread();
    // canonical cases of the recorded findings
    for c in &p.canon {
        let mut ctx = Ctx::new();
        match run_case(p.check, c, &mut ctx) {
            Err(f) if !f.sig.is_empty() && known.sigs.contains(&f.sig) => {
                *sh.known_hits.lock().unwrap().entry(f.sig.clone()).or_insert(0) += 1;
            }
            Err(f) => sh.fails.lock().unwrap().push((usize::MAX, 0, 0, c.clone(), f)),
            Ok(_) => {}
        }
    }
    for (sig, _) in sh.known_hits.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {}", p.id, known.what[sig]);
    }
    let mut fails = sh.fails.into_inner().unwrap();
    fails.sort_by_key(|f| (f.0, f.2));
    let mut nviol = 0;
    let mut code = 0;
    if keep_going {
        // exploration aid: one line per failing (op, rm) kind
        let mut kinds: BTreeMap<String, (u64, String)> = BTreeMap::new();
        for (si, _, _, c, f) in &fails {
            let st = if *si == usize::MAX { "canon" } else { p.streams[*si].name };
            let m: String = f.msg.chars().take(70).collect();
            let key = format!("{}|{}|{}|{}", st, c.op, f.sig, m.split(|ch: char| ch.is_ascii_digit()).next().unwrap_or(""));
            let e = kinds.entry(key).or_insert((0, String::new()));
            e.0 += 1;
            let (sc, sf) = if e.0 == 1 { shrink(p.check, c, f, &known.sigs) } else { continue };
            e.1 = format!("{}\n      => {}", sc.show(), sf.msg);
        }
        for (k, v) in &kinds {
            println!("FAILKIND x{} {}\n      {}", v.0, k, v.1);
        }
        nviol = fails.len();
        if nviol > 0 {
            code = 1;
        }
    } else if let Some((si, a, i, c, f)) = fails.first() {
        let mut ctx = Ctx::new();
        let rep = match run_case(p.check, c, &mut ctx) {
            Err(f2) => {
                let (sc, sf) = shrink(p.check, c, &f2, &known.sigs);
                println!("shrunk: {}", sc.show());
                println!("   {}", sf.msg);
                Replay { property: p.id.into(), message: sf.msg, case: Some(sc), chunk: None }
            }
            Ok(_) => {
                println!("history-dependent failure: {}", c.show());
                println!("   {}", f.msg);
                let name = if *si == usize::MAX { "canon" } else { p.streams[*si].name };
                Replay {
                    property: p.id.into(),
                    message: f.msg.clone(),
                    case: Some(c.clone()),
                    chunk: Some((name.into(), seed, *a, *i)),
                }
            }
        };
        let dir = format!("{}/replays", root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}.json", dir, p.id, case_hash(c));
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).expect("write replay");
        println!("VIOLATION property={} replay={}", p.id, path);
        nviol = 1;
        code = 1;
    }
    // evidence
    let tags = sh.tags.into_inner().unwrap();
    let seen = sh.seen.into_inner().unwrap();
    let samples: Vec<String> = sh.samples.into_inner().unwrap().into_values().collect();
    let evals = sh.evals.load(Ordering::Relaxed);
    let ev = serde_json::json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": seen.len(),
            "rule": p.rule,
            "samples": samples,
            "skipped": sh.skips.load(Ordering::Relaxed),
            "classes": tags,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": nviol,
    });
    if only.is_none() {
        let dir = format!("{}/evidence", root);
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(format!("{}/{}.json", dir, p.id), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {} skipped, {:.1}s, {} violations",
        p.id, evals, seen.len(), sh.skips.load(Ordering::Relaxed), t0.elapsed().as_secs_f64(), nviol
    );
    if std::env::var_os("AFCHECK_STATS").is_some() {
        for (k, v) in &tags {
            println!("   {:40} {}", k, v);
        }
        for (k, v) in per_stream_time.lock().unwrap().iter() {
            println!("   time {:30} {:.1} core-s", k, v);
        }
    }
    code
}

pub fn run_replay(props: &[Prop], path: &str) -> i32 {
    crate::oracle::mpfr_init_thread();
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(path).expect("read replay")).expect("parse replay");
    let p = props.iter().find(|p| p.id == r.property).expect("property");
    let mut ctx = Ctx::new();
    // a recorded case that does not end fails again
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(150));
        println!("fails: the case does not end within 150 s");
        std::process::exit(1);
    });
    let res = if let Some((st, seed, a, i)) = &r.chunk {
        let s = p.streams.iter().find(|s| s.name == st).expect("stream");
        let mut last = ok(false);
        for j in *a..=*i {
            let c = gen_case(p, s, *seed, j);
            if j == *i {
                println!("case: {}", c.show());
            }
            last = run_case(p.check, &c, &mut ctx);
        }
        last
    } else {
        let c = r.case.as_ref().unwrap();
        println!("case: {}", c.show());
        run_case(p.check, c, &mut ctx)
    };
    match res {
        Err(f) => {
            println!("fails: {}", f.msg);
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
        Ok(o) => {
            println!("holds: {:?}", o);
            0
        }
    }
}
