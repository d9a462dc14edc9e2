//! Case runner: deterministic cases, parallel execution, verdicts.

use crate::gen::{self, Rng};
use blake2s_simd::Hash;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// The property is violated; the text says how.
#[derive(Debug)]
pub struct Bad(pub String);
pub type Res = Result<(), Bad>;

pub fn bad<T>(msg: String) -> Result<T, Bad> {
    Err(Bad(msg))
}

pub struct Kind {
    pub name: &'static str,
    /// Size of the case space when it is finite and indexed, else 0.
    pub total: u64,
    pub quick: u64,
    pub thorough: u64,
    pub miri: u64,
    pub f: fn(&mut Ctx) -> Res,
}

pub struct Ctx {
    pub rng: Rng,
    /// The property the run is for.
    pub prop: String,
    pub idx: u64,
    pub thread: usize,
    /// Slow execution (interpreter): keep messages small.
    pub small: bool,
    /// Compare with the specification (else only observe).
    pub oracle: bool,
    /// Inputs end or start at unmapped pages (or are heap blocks of exactly their size).
    pub guard: bool,
    pub verbose: bool,
    pub trace: Vec<String>,
    pub obs: u64,
    pub nobs: u64,
    pub sig: u64,
    pub trivial: bool,
    pub records: Option<Vec<String>>,
    pub metrics: BTreeMap<&'static str, u64>,
}

impl Ctx {
    pub fn new(seed: u64, kind: &str, idx: u64, small: bool) -> Ctx {
        let s = gen::mix64(seed) ^ gen::hash_str(kind) ^ gen::mix64(idx.wrapping_mul(0xD1B54A32D192ED03));
        Ctx {
            rng: Rng::new(s),
            prop: String::new(),
            idx,
            thread: 0,
            small,
            oracle: true,
            guard: false,
            verbose: false,
            trace: Vec::new(),
            obs: 0,
            nobs: 0,
            sig: gen::mix64(idx),
            trivial: false,
            records: None,
            metrics: BTreeMap::new(),
        }
    }

    pub fn tr(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.trace.push(f());
        }
    }

    pub fn add(&mut self, metric: &'static str, n: u64) {
        *self.metrics.entry(metric).or_insert(0) += n;
    }

    pub fn len(&mut self, max: u64) -> usize {
        if self.small {
            self.rng.small_len(max.min(1400))
        } else {
            self.rng.len(max)
        }
    }

    /// A length that enumeration chose; under a slow interpreter a short one instead.
    pub fn cap(&mut self, len: usize, max: u64) -> usize {
        if self.small {
            self.rng.small_len(max)
        } else {
            len
        }
    }

    /// A message of `len` bytes at an arbitrary address.
    pub fn data(&mut self, len: usize) -> &'static [u8] {
        let d = gen::pool().window(&mut self.rng, len);
        if let Some(c) = self.rng.content() {
            return with_content(d, &c, self.rng.below(3));
        }
        if self.guard {
            crate::props::mem::placed(self, d)
        } else {
            d
        }
    }

    /// Something the library produced; part of the observation log of the case.
    pub fn observe(&mut self, bytes: &[u8]) {
        let mut h = gen::mix64(self.obs ^ 0x6f6273);
        for c in bytes.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            h = gen::mix64(h ^ u64::from_le_bytes(w));
        }
        self.obs = gen::mix64(h ^ bytes.len() as u64);
        self.nobs += 1;
    }

    pub fn bytes_eq(&mut self, label: &str, got: &[u8], want: impl FnOnce() -> Vec<u8>) -> Res {
        self.observe(got);
        if self.verbose {
            let l = format!("observe {label}: {}", gen::short(got));
            self.trace.push(l);
        }
        if !self.oracle {
            return Ok(());
        }
        let want = want();
        if got != want.as_slice() {
            return bad(format!("{label}: got {} but the specification gives {}", gen::hex(got), gen::hex(&want)));
        }
        Ok(())
    }

    pub fn hash_eq(&mut self, label: &str, got: &Hash, want: impl FnOnce() -> Vec<u8>) -> Res {
        self.add("digests_checked", 1);
        let b = *got;
        self.bytes_eq(label, b.as_bytes(), want)
    }

    pub fn count_eq(&mut self, label: &str, got: u64, want: u64) -> Res {
        self.add("counts_checked", 1);
        self.observe(&got.to_le_bytes());
        if self.verbose {
            let l = format!("observe {label}: {got}");
            self.trace.push(l);
        }
        if self.oracle && got != want {
            return bad(format!("{label}: got {got} but {want} bytes were input"));
        }
        Ok(())
    }

    /// Record a plain hash for the offline checker.
    pub fn record(&mut self, f: impl FnOnce() -> String) {
        if self.records.is_some() {
            let line = f();
            self.records.as_mut().unwrap().push(line);
        }
    }

    /// Run something that may panic; None if it did. A panic of the harness itself is passed on.
    pub fn panics<T>(&mut self, f: impl FnOnce() -> T) -> Option<T> {
        match quiet(f) {
            Ok(v) => Some(v),
            Err(p) if p.harness => panic!("harness: {}", p.text),
            Err(p) => {
                if self.verbose {
                    let l = format!("  panicked: {}", p.text);
                    self.trace.push(l);
                }
                None
            }
        }
    }
}

thread_local! {
    static CONTENTS: RefCell<Vec<*mut [u8]>> = const { RefCell::new(Vec::new()) };
}

/// A copy of `d` with `c` at its start, at its end or all over it; it lives until `forget_contents`.
fn with_content(d: &[u8], c: &[u8], how: u64) -> &'static [u8] {
    let mut b = d.to_vec().into_boxed_slice();
    let n = c.len().min(b.len());
    let len = b.len();
    match how {
        0 => b[..n].copy_from_slice(&c[..n]),
        1 => b[len - n..].copy_from_slice(&c[..n]),
        _ => b.iter_mut().zip(c.iter().cycle()).for_each(|(x, y)| *x = *y),
    }
    let p = Box::into_raw(b);
    CONTENTS.with(|v| v.borrow_mut().push(p));
    unsafe { &*p }
}

/// No slice that `with_content` gave out may be in use any more.
pub fn forget_contents() {
    CONTENTS.with(|v| {
        for p in v.borrow_mut().drain(..) {
            drop(unsafe { Box::from_raw(p) });
        }
    });
}

pub struct Panicked {
    pub harness: bool,
    pub text: String,
}

thread_local! {
    static LAST: RefCell<Option<Panicked>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let (file, line) = info.location().map_or(("?", 0), |l| (l.file(), l.line()));
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no message)".to_string()
        };
        let harness = file.starts_with("src/") || file.starts_with("oracle/") || file.starts_with("/verif/") || file.contains("/verif/harness/");
        LAST.with(|l| {
            *l.borrow_mut() = Some(Panicked { harness, text: format!("{msg} ({file}:{line})") });
        });
    }));
}

pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST.with(|l| l.borrow_mut().take()).unwrap_or(Panicked {
            harness: true,
            text: "panic without a report".into(),
        })),
    }
}

pub enum Outcome {
    Held,
    Violated(String),
    Harness(String),
}

#[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
use crate::traps::{rest as trap_rest, verdict as trap_verdict};

#[cfg(not(all(target_os = "linux", target_arch = "x86_64", not(miri))))]
fn trap_verdict() -> Option<String> {
    None
}

#[cfg(not(all(target_os = "linux", target_arch = "x86_64", not(miri))))]
fn trap_rest() -> Option<String> {
    None
}

pub fn run_case(kind: &Kind, ctx: &mut Ctx) -> Outcome {
    let out = run_inner(kind, ctx);
    match trap_verdict() {
        Some(t) => Outcome::Violated(t),
        None => out,
    }
}

fn run_inner(kind: &Kind, ctx: &mut Ctx) -> Outcome {
    match quiet(|| (kind.f)(ctx)) {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(Bad(m))) => Outcome::Violated(m),
        Err(p) if p.harness => Outcome::Harness(p.text),
        // Whoever runs with placed inputs looks for memory errors only.
        Err(_) if ctx.guard => {
            ctx.add("library_panics", 1);
            Outcome::Held
        }
        Err(p) => Outcome::Violated(format!("a valid call panicked: {}", p.text)),
    }
}

#[derive(Clone)]
pub struct Opts {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub small: bool,
    pub miri: bool,
    pub oracle: bool,
    pub threads: usize,
    pub scale: f64,
    pub only: Vec<String>,
    pub case: Option<(String, u64)>,
    pub log: bool,
    pub records: u64,
    pub samples: bool,
    pub hang_s: u64,
    /// This process runs every n-th case only: (which, n).
    pub part: (u64, u64),
}

/// The index of the j-th of n cases of a kind.
fn index_of(kind: &Kind, seed: u64, j: u64, n: u64) -> u64 {
    if kind.total == 0 || n >= kind.total {
        j
    } else {
        // stratified: one case in each of n equal strides
        let lo = (j as u128 * kind.total as u128 / n as u128) as u64;
        let hi = ((j + 1) as u128 * kind.total as u128 / n as u128) as u64;
        lo + gen::mix64(gen::mix64(seed ^ 0x737472) ^ j) % (hi - lo).max(1)
    }
}

struct Acc {
    evals: u64,
    distinct: HashSet<u64>,
    metrics: BTreeMap<&'static str, u64>,
    fails: Vec<(u64, String)>,
    herrs: Vec<(u64, String)>,
    log: Vec<(u64, u64, u64)>,
    records: Vec<String>,
    samples: Vec<String>,
}

pub const MAX_THREADS: usize = 64;
static SLOT_START: [AtomicU64; MAX_THREADS] = [const { AtomicU64::new(0) }; MAX_THREADS];
static SLOT_IDX: [AtomicU64; MAX_THREADS] = [const { AtomicU64::new(0) }; MAX_THREADS];

/// Runs all kinds; prints a line-oriented report ("@ ..." lines) and returns the exit code.
pub fn run(kinds: &[Kind], o: &Opts) -> i32 {
    gen::init_pool(o.seed, o.small);
    install_panic_hook();
    if let Some((k, i)) = &o.case {
        return run_single(kinds, o, k, *i);
    }
    let epoch = Instant::now();
    let mut code = 0;
    for kind in kinds {
        if !o.only.is_empty() && !o.only.iter().any(|x| x == kind.name) {
            continue;
        }
        let base = if o.miri {
            kind.miri
        } else if o.thorough {
            kind.thorough
        } else {
            kind.quick
        };
        let mut n = if o.miri { base } else { (base as f64 * o.scale).ceil() as u64 };
        if o.miri && o.scale > 0.0 {
            n = (base as f64 * o.scale).ceil() as u64;
        }
        if kind.total > 0 {
            n = n.min(kind.total);
        }
        if n == 0 {
            continue;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let alive = AtomicU64::new(o.threads as u64);
        let total = Mutex::new(Acc {
            evals: 0,
            distinct: HashSet::new(),
            metrics: BTreeMap::new(),
            fails: vec![],
            herrs: vec![],
            log: vec![],
            records: vec![],
            samples: vec![],
        });
        let chunk = (n / (o.threads as u64 * 32)).clamp(1, 512);
        let worker = |t: usize| {
            let mut a = Acc {
                evals: 0,
                distinct: HashSet::new(),
                metrics: BTreeMap::new(),
                fails: vec![],
                herrs: vec![],
                log: vec![],
                records: vec![],
                samples: vec![],
            };
            crate::sys::set_kind(t, kind.name);
            loop {
                let start = next.fetch_add(chunk, Ordering::Relaxed);
                if start >= n || stop.load(Ordering::Relaxed) {
                    break;
                }
                for j in start..(start + chunk).min(n) {
                    if j % o.part.1 != o.part.0 {
                        continue;
                    }
                    let idx = index_of(kind, o.seed, j, n);
                    SLOT_IDX[t].store(idx, Ordering::Relaxed);
                    SLOT_START[t].store(epoch.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                    crate::sys::set_case(t, idx);
                    let mut ctx = Ctx::new(o.seed, kind.name, idx, o.small);
                    ctx.thread = t;
                    ctx.prop.clone_from(&o.prop);
                    ctx.oracle = o.oracle;
                    if j < o.records {
                        ctx.records = Some(vec![]);
                    }
                    let sample = o.samples && (j == 0 || j == n / 2);
                    ctx.verbose = sample;
                    let out = run_case(kind, &mut ctx);
                    a.evals += 1;
                    if sample {
                        let mut t = std::mem::take(&mut ctx.trace);
                        let extra = t.len().saturating_sub(14);
                        t.truncate(14);
                        if extra > 0 {
                            t.push(format!("(and {extra} more steps)"));
                        }
                        a.samples.push(format!("{}:{} {}", kind.name, idx, t.join("; ").replace('\n', " ")));
                    }
                    if !ctx.trivial {
                        a.distinct.insert(ctx.sig);
                    }
                    for (k, v) in &ctx.metrics {
                        *a.metrics.entry(k).or_insert(0) += v;
                    }
                    if o.log {
                        a.log.push((idx, ctx.obs, ctx.nobs));
                    }
                    if let Some(r) = ctx.records.take() {
                        a.records.extend(r);
                    }
                    match out {
                        Outcome::Held => {}
                        Outcome::Violated(m) => {
                            a.fails.push((idx, m));
                            if o.log {
                                let l = a.log.last_mut().unwrap();
                                l.1 = gen::hash_str("violated");
                            } else if a.fails.len() >= 3 {
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                        }
                        Outcome::Harness(m) => {
                            a.herrs.push((idx, m));
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                    }
                    SLOT_START[t].store(0, Ordering::Relaxed);
                }
            }
            SLOT_START[t].store(0, Ordering::Relaxed);
            let mut g = total.lock().unwrap();
            g.evals += a.evals;
            if g.distinct.is_empty() {
                g.distinct = a.distinct;
            } else {
                g.distinct.extend(a.distinct);
            }
            for (k, v) in a.metrics {
                *g.metrics.entry(k).or_insert(0) += v;
            }
            g.fails.extend(a.fails);
            g.herrs.extend(a.herrs);
            g.log.extend(a.log);
            g.records.extend(a.records);
            g.samples.extend(a.samples);
            alive.fetch_sub(1, Ordering::Relaxed);
        };
        if o.threads <= 1 {
            worker(0);
        } else {
            std::thread::scope(|s| {
                for t in 0..o.threads {
                    let w = &worker;
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || w(t))
                        .expect("spawn");
                }
                if o.hang_s > 0 {
                    // A case that takes absurdly long is reported; the driver decides by running it
                    // alone under a CPU-time limit.
                    let (alive, epoch) = (&alive, &epoch);
                    s.spawn(move || {
                        while alive.load(Ordering::Relaxed) > 0 {
                            std::thread::sleep(Duration::from_millis(20));
                            let now = epoch.elapsed().as_millis() as u64;
                            for t in 0..o.threads {
                                let st = SLOT_START[t].load(Ordering::Relaxed);
                                if st != 0 && now > st + o.hang_s * 1000 {
                                    println!("@ hang {} {}", kind.name, SLOT_IDX[t].load(Ordering::Relaxed));
                                    std::process::exit(71);
                                }
                            }
                        }
                    });
                }
            });
        }
        let mut g = total.into_inner().unwrap();
        if g.fails.is_empty() {
            if let Some(t) = trap_rest() {
                g.fails.push((0, t));
            }
        }
        g.fails.sort();
        g.herrs.sort();
        g.log.sort();
        println!(
            "@ kind {} evals {} distinct {} total {} exhaustive {} ms {}",
            kind.name,
            g.evals,
            g.distinct.len(),
            kind.total,
            u8::from(kind.total > 0 && g.evals == kind.total),
            t0.elapsed().as_millis()
        );
        for (k, v) in &g.metrics {
            println!("@ metric {k} {v}");
        }
        for (i, h, c) in &g.log {
            println!("@ log {} {} {:016x} {}", kind.name, i, h, c);
        }
        for r in &g.records {
            println!("@ rec {r}");
        }
        for (i, m) in &g.herrs {
            println!("@ herr {} {} {}", kind.name, i, m.replace('\n', " "));
            code = 2;
        }
        for (i, m) in g.fails.iter().take(5) {
            println!("@ fail {} {} {}", kind.name, i, m.replace('\n', " "));
            if code == 0 {
                code = 1;
            }
        }
        for t in &g.samples {
            println!("@ sample {t}");
        }
        if code == 2 {
            break;
        }
    }
    println!("@ done {code}");
    code
}

fn run_single(kinds: &[Kind], o: &Opts, name: &str, idx: u64) -> i32 {
    let Some(kind) = kinds.iter().find(|k| k.name == name) else {
        println!("@ herr {name} {idx} no such kind");
        return 2;
    };
    crate::sys::set_kind(0, kind.name);
    crate::sys::set_case(0, idx);
    let mut ctx = Ctx::new(o.seed, kind.name, idx, o.small);
    ctx.verbose = true;
    ctx.prop.clone_from(&o.prop);
    ctx.oracle = o.oracle;
    ctx.records = Some(vec![]);
    let mut out = run_case(kind, &mut ctx);
    if let (Outcome::Held, Some(t)) = (&out, trap_rest()) {
        out = Outcome::Violated(t);
    }
    for l in &ctx.trace {
        println!("{l}");
    }
    for (k, v) in &ctx.metrics {
        println!("@ metric {k} {v}");
    }
    if o.log {
        println!("@ log {} {} {:016x} {}", kind.name, idx, ctx.obs, ctx.nobs);
    }
    match out {
        Outcome::Held => {
            println!("held");
            println!("@ done 0");
            0
        }
        Outcome::Violated(m) => {
            println!("@ fail {} {} {}", name, idx, m.replace('\n', " "));
            1
        }
        Outcome::Harness(m) => {
            println!("@ herr {} {} {}", name, idx, m.replace('\n', " "));
            2
        }
    }
}
