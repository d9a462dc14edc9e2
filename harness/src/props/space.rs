//! C24: what a call and a hasher need of heap and stack does not grow with the message or with use.

use crate::gen::{self, Q};
use crate::props::far::PERIOD;
use crate::run::{self, bad, Bad, Ctx, Kind, Res};
use crate::sys::{self, heap, Huge};
use blake2s_simd as b2;
use oracle::P;
use std::fmt::Write as _;
use std::hint::black_box;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};

/// More heap than this in use by one call, or left behind by thousands, grows with something.
const HEAP: i64 = 64 << 10;
/// Likewise for the stack that a call on a long message needs beyond what a short one does.
const STACK: usize = 48 << 10;
/// And for any call at all (what these take is 20 KiB; unoptimized, 600).
const DEEP: usize = if cfg!(debug_assertions) { 2 << 20 } else { 256 << 10 };
/// Of one little history, at most (unless something grows).
const TURNS: usize = 20_000;

pub fn text(ctx: &mut Ctx, len: usize) -> &'static [u8] {
    static H: OnceLock<Huge> = OnceLock::new();
    let h = H.get_or_init(|| Huge::new(gen::pool().random(0, PERIOD), (256 << 20) + PERIOD));
    h.slice(ctx.rng.below(PERIOD as u64) as usize, len)
}

/// Everything the calls work on, made by the library from the parameters.
pub struct Subject {
    pub q: b2::Params,
    pub plain: b2::Params,
    pub sq: b2::blake2sp::Params,
    pub s: [b2::State; 8],
    pub sp: b2::blake2sp::State,
    pub h: b2::Hash,
}

struct Sink(usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

impl Subject {
    pub fn new(p: &P, q: &Q) -> Subject {
        let params = gen::lib_params(p);
        let mut plain = params.clone();
        plain.key(b"");
        let sq = gen::sp_params(q);
        let mut sp = sq.to_state();
        let s: [b2::State; 8] = std::array::from_fn(|_| params.to_state());
        let h = sp.finalize();
        Subject { q: params, plain, sq, s, sp, h }
    }
}

impl Subject {
    /// Other parameters than for any other `n`.
    fn vary(&mut self, n: u32) {
        let b = n.to_le_bytes();
        for q in [&mut self.q, &mut self.plain] {
            q.node_offset(u64::from(n) << (n & 15));
            q.max_leaf_length(n).salt(&b).personal(&b[..3]).fanout(b[0]).node_depth(b[1]);
        }
        self.q.key(&b[..n as usize % 5]);
        self.sq.key(&b[..n as usize % 5]).hash_length(1 + n as usize % 32);
    }
}

pub const CALLS: [&str; 22] = [
    "State::update",
    "io::Write::write to a State",
    "blake2sp::State::update",
    "io::Write::write to a blake2sp::State",
    "blake2s",
    "blake2sp",
    "Params::to_state, update, finalize",
    "blake2sp::Params::to_state, update, finalize",
    "update8",
    "finalize8",
    "hash4_exact",
    "hash8_exact",
    "hash8",
    "State::finalize",
    "blake2sp::State::finalize",
    "State::clone",
    "blake2sp::Params::to_state",
    "set_last_node and count",
    "all setters",
    "setters of blake2sp::Params",
    "to_hex, as_bytes, ==",
    "Debug",
];
/// Of them, those that handle a message.
pub const FEEDING: [usize; 12] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12];

pub fn call(u: &mut Subject, which: usize, d: &'static [u8]) {
    let x = if d.len() < 64 { &[9; 64] } else { &d[..d.len() / 64 * 64] };
    match which {
        0 => {
            u.s[0].update(d);
        }
        #[cfg(feature = "std")]
        1 => {
            let _ = std::io::Write::write(&mut u.s[0], d);
        }
        #[cfg(not(feature = "std"))]
        1 => {
            u.s[1].update(d);
        }
        2 => {
            u.sp.update(d);
        }
        #[cfg(feature = "std")]
        3 => {
            let _ = std::io::Write::write(&mut u.sp, d);
        }
        #[cfg(not(feature = "std"))]
        3 => {
            u.sp.update(d);
        }
        4 => u.h = b2::blake2s(d),
        5 => u.h = b2::blake2sp::blake2sp(d),
        6 => u.h = u.q.to_state().update(d).finalize(),
        7 => u.h = u.sq.to_state().update(d).finalize(),
        8 => {
            let [a, b, c, e, f, g, h, i] = &mut u.s;
            b2::update8(a, b, c, e, f, g, h, i, d, d, d, d, d, d, d, d);
        }
        9 => {
            let [a, b, c, e, f, g, h, i] = &mut u.s;
            u.h = b2::finalize8(a, b, c, e, f, g, h, i)[3];
        }
        10 => u.h = b2::hash4_exact(&u.q, x, x, x, x)[1],
        11 => u.h = b2::hash8_exact(&u.q, x, x, x, x, x, x, x, x)[7],
        12 => {
            let p = &u.plain;
            u.h = b2::hash8(p, p, p, p, p, p, p, p, d, d, d, d, d, d, d, d)[5];
        }
        13 => u.h = u.s[0].finalize(),
        14 => u.h = u.sp.finalize(),
        15 => u.s[2] = u.s[0].clone(),
        16 => u.sp = black_box(u.sq.to_state()),
        17 => {
            let n = u.s[0].count() + u.sp.count();
            u.s[0].set_last_node(n % 2 == 1);
        }
        18 => {
            let mut p = b2::Params::new();
            p.hash_length(20).key(b"some key").salt(b"salt").personal(b"persona").fanout(2).max_depth(3);
            p.max_leaf_length(5).node_offset(6).node_depth(1).inner_hash_length(32).last_node(true);
            black_box(p.clone());
        }
        19 => {
            let mut p = b2::blake2sp::Params::new();
            p.hash_length(20).key(b"some key");
            black_box(p.clone());
        }
        20 => {
            let h = u.h.to_hex();
            black_box((h.len(), u.h == u.h, &u.h == u.h.as_bytes()));
        }
        _ => {
            let mut k = Sink(0);
            let _ = write!(k, "{:?}{:?}{:?}{:?}", u.sq, u.s[1], u.sp, u.h);
            black_box(k.0);
        }
    }
}

fn some(ctx: &mut Ctx) -> (P, Q) {
    let keyed = ctx.rng.chance(1, 2);
    (gen::gen_p(&mut ctx.rng, keyed), gen::gen_q(&mut ctx.rng))
}

/// The heap that one call uses while it runs, whatever the length.
fn peak(ctx: &mut Ctx) -> Res {
    let which = FEEDING[ctx.idx as usize % FEEDING.len()];
    let big = 1usize << [12, 16, 20, 22, 24, 25, 28][(ctx.idx as usize / FEEDING.len()) % 7];
    let big = if ctx.idx > 84 || [8, 10, 11, 12].contains(&which) { big.min(1 << 25) } else { big };
    let big = if cfg!(debug_assertions) { big.min(1 << 22) } else { big };
    let len = big + ctx.rng.below(200) as usize;
    let (p, q) = some(ctx);
    let d = text(ctx, len);
    let mut u = Subject::new(&p, &q);
    ctx.tr(|| format!("{} with {len} bytes, parameters {p:?} {q:?}", CALLS[which]));
    let pre = ctx.rng.below(70) as usize;
    call(&mut u, 8, &d[..pre]);
    call(&mut u, 2, &d[..pre * 8]);
    let (live, _) = heap::mark();
    call(&mut u, which, d);
    let (now, top) = heap::read();
    ctx.add("calls_measured", 1);
    ctx.add("message_bytes", len as u64);
    if top - live > HEAP {
        return bad(format!("{} with {len} bytes used {} bytes of heap while it ran", CALLS[which], top - live));
    }
    // What a call leaves behind may be little, but not every time.
    let mut times = 1;
    let mut left = now - live;
    while left > 0 && left <= HEAP && times < 300 && times * len < 16 << 30 {
        call(&mut u, which, d);
        times += 1;
        left = heap::read().0 - live;
    }
    if left > HEAP {
        return bad(format!("{} with {len} bytes, {times} times, left {left} bytes of heap behind", CALLS[which]));
    }
    ctx.observe(u.h.as_bytes());
    Ok(())
}

/// Calls that panic (or answer).
pub fn refusals(u: &mut Subject) {
    let q = &mut u.q;
    let _ = run::quiet(|| {
        q.key(&[7; 33]);
    });
    let _ = run::quiet(|| {
        q.hash_length(33);
    });
    let q = &u.q;
    let _ = run::quiet(|| b2::hash4_exact(q, b"a", b"b", b"c", b"d"));
}

/// The heap in use after thousands of turns of one little history.
fn growth(ctx: &mut Ctx) -> Res {
    let (p, q) = some(ctx);
    let fresh = ctx.rng.chance(2, 3);
    let steps = ctx.rng.range(1, 9) as usize;
    let max = *ctx.rng.pick(&[64u64, 130, 600, 2000]);
    let ops: Vec<(usize, usize, &'static [u8])> = (0..steps)
        .map(|_| {
            let n = ctx.rng.below(max) as usize;
            (ctx.rng.below(CALLS.len() as u64) as usize, n, text(ctx, n + TURNS))
        })
        .collect();
    let cost: usize = ops.iter().map(|(w, n, _)| 200 + n * if [8, 11, 12].contains(w) { 8 } else { 1 }).sum();
    let turns = (12_000_000 / (cost + if fresh { 3000 } else { 0 })).clamp(2000, TURNS);
    let turns = if cfg!(debug_assertions) { turns / 4 + 2000 } else { turns };
    let refused = ctx.rng.chance(1, 8);
    let turns = if refused { turns.min(2500) } else { turns };
    ctx.tr(|| {
        let l: Vec<String> = ops.iter().map(|(w, n, _)| format!("{} ({n} bytes)", CALLS[*w])).collect();
        format!("{turns} times, hashers {}, parameters {p:?} {q:?}: {}{}", if fresh { "made anew" } else { "kept" }, l.join(", "), if refused { ", refused calls" } else { "" })
    });
    let vary = ctx.rng.chance(1, 2);
    ctx.tr(|| if vary { "(with other bytes and parameters every time)".into() } else { String::new() });
    let mut u = Subject::new(&p, &q);
    let mut live = 0;
    let mut done = 0;
    let (mut now, mut top) = (0, 0);
    // Slow growth is given more time to pass the bound.
    while done < turns || now > live && now - live <= HEAP && done < 60 * turns {
        for _ in 0..turns {
            if vary {
                u.vary(done as u32);
            }
            if fresh {
                u = Subject { s: std::array::from_fn(|_| u.q.to_state()), sp: u.sq.to_state(), ..u };
            }
            for (w, n, d) in &ops {
                let off = if vary { done % TURNS } else { 0 };
                call(&mut u, *w, &d[off..off + n]);
            }
            if refused {
                refusals(&mut u);
            }
            done += 1;
            if done == 16 {
                live = heap::mark().0;
            }
        }
        (now, top) = heap::read();
    }
    let turns = done;
    ctx.add("calls_measured", (turns * steps) as u64);
    if now - live > HEAP || top - live > HEAP {
        return bad(format!(
            "after {turns} turns {} bytes of heap more are in use than after 16 (at most {} in between)",
            now - live,
            top - live
        ));
    }
    ctx.observe(u.h.as_bytes());
    Ok(())
}

/// What hundreds of threads, one after another, leave behind on the heap.
fn threads(ctx: &mut Ctx) -> Res {
    static GROUP: AtomicI64 = AtomicI64::new(0);
    static ONE: Mutex<()> = Mutex::new(());
    const MANY: usize = 400;
    const LAST: usize = 20 * MANY;
    let (p, q) = some(ctx);
    let steps = ctx.rng.range(1, 6) as usize;
    let mut ops: Vec<(usize, &'static [u8])> = (0..steps)
        .map(|_| {
            let n = ctx.rng.below(1500) as usize;
            (ctx.rng.below(CALLS.len() as u64) as usize, text(ctx, n))
        })
        .collect();
    ops[0].0 = ctx.idx as usize % CALLS.len();
    ctx.tr(|| {
        let l: Vec<String> = ops.iter().map(|(w, d)| format!("{} ({} bytes)", CALLS[*w], d.len())).collect();
        format!("in threads of their own, parameters {p:?} {q:?}: {}", l.join(", "))
    });
    let all = Arc::new((p, q, ops));
    let one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let run = |n: usize, hash: bool| {
        let before = GROUP.load(Ordering::SeqCst);
        heap::join(Some(&GROUP));
        for _ in 0..n {
            let all = all.clone();
            let t = std::thread::spawn(move || {
                heap::join(Some(&GROUP));
                if hash {
                    let mut u = Subject::new(&all.0, &all.1);
                    for (w, d) in &all.2 {
                        call(&mut u, *w, d);
                    }
                    black_box(u.h);
                } else {
                    // What std keeps for a thread is not the library's.
                    black_box(std::thread::current().id());
                }
            });
            if t.join().is_err() {
                heap::join(None);
                return bad("a call panicked".into());
            }
        }
        heap::join(None);
        Ok(GROUP.load(Ordering::SeqCst) - before)
    };
    run(16, true)?;
    let base = run(MANY, false)?;
    let (mut n, mut left) = (0, 0);
    while n == 0 || left > 0 && left <= HEAP && n < LAST {
        left += run(MANY, true)? - base;
        n += MANY;
    }
    drop(one);
    ctx.add("calls_measured", (n * all.2.len()) as u64);
    ctx.add("threads_measured", n as u64);
    if left > HEAP {
        return bad(format!("{n} threads that hashed and ended left {left} bytes of heap behind"));
    }
    ctx.observe(&[ctx.idx as u8]);
    Ok(())
}

/// The depth of stack of a call on a long message and of the same call on a short one.
fn stack(ctx: &mut Ctx) -> Res {
    let which = FEEDING[ctx.idx as usize % FEEDING.len()];
    let (p, q) = some(ctx);
    let len = (1usize << if ctx.rng.chance(1, 30) { 26 } else { *ctx.rng.pick(&[17u32, 19, 20, 21]) }) + ctx.rng.below(1000) as usize;
    let len = if cfg!(debug_assertions) { len.min(1 << 18) } else { len };
    let pre = ctx.rng.below(70) as usize;
    let short = 3000 + ctx.rng.below(3000) as usize;
    ctx.tr(|| format!("{} with {short} and with {len} bytes, parameters {p:?} {q:?}", CALLS[which]));
    let d = text(ctx, len);
    let deep = |n: usize| -> Result<usize, Bad> {
        let mut u = Subject::new(&p, &q);
        call(&mut u, 8, &d[..pre]);
        call(&mut u, 2, &d[..pre * 8]);
        let r = sys::stack_depth(move || {
            call(&mut u, which, &d[..n]);
            black_box(&u);
        });
        match r {
            Ok(n) => Ok(n),
            Err(p) if p.harness => panic!("{}", p.text),
            Err(p) => bad(format!("{} of {n} bytes panicked: {}", CALLS[which], p.text)),
        }
    };
    // Once for whatever happens only the first time.
    deep(short)?;
    let (a, b) = (deep(short)?, deep(len)?);
    ctx.add("stacks_measured", 2);
    ctx.add("stack_bytes_seen", b as u64);
    if a == 0 || b == 0 {
        panic!("no stack was seen");
    }
    if a.max(b) > DEEP {
        return bad(format!("{}: {} bytes of stack for {short} or {len} bytes", CALLS[which], a.max(b)));
    }
    if b > a + STACK {
        return bad(format!("{}: {a} bytes of stack for {short} bytes, {b} for {len}", CALLS[which]));
    }
    ctx.observe(&[which as u8]);
    Ok(())
}

/// For C22: what a call costs does not depend on how much went before.
fn after_long(ctx: &mut Ctx) -> Res {
    const CALLS_MADE: u64 = 600;
    let which = [0, 1, 2, 3, 8, 9, 13, 14, 15, 17, 21][ctx.idx as usize % 11];
    let n = (if cfg!(debug_assertions) { 1usize << 22 } else { 1 << 30 }) - ctx.rng.below(5000) as usize;
    let (p, q) = some(ctx);
    let mut u = Subject::new(&p, &q);
    let k = *ctx.rng.pick(&[0u64, 1, 64, 200]);
    let k = ctx.rng.below(k + 1) as usize;
    let d = text(ctx, 200);
    ctx.tr(|| format!("{} {CALLS_MADE} times with {k} bytes after {n} bytes, parameters {p:?} {q:?}", CALLS[which]));
    if [2, 3, 14, 17, 21].contains(&which) {
        let mut left = n;
        while left > 0 {
            let m = left.min(200 << 20);
            u.sp.update(text(ctx, m));
            left -= m;
        }
    }
    if ![2, 3, 14].contains(&which) {
        let mut left = n;
        while left > 0 {
            let m = left.min(200 << 20);
            u.s[0].update(text(ctx, m));
            left -= m;
        }
        let s = u.s[0].clone();
        u.s[1..].iter_mut().for_each(|t| t.clone_from(&s));
    }
    ctx.add("bytes_hashed", n as u64);
    let t0 = sys::thread_cpu_ns();
    for _ in 0..CALLS_MADE {
        call(&mut u, which, &d[..k]);
    }
    let ns = sys::thread_cpu_ns() - t0;
    ctx.add("calls_timed", CALLS_MADE);
    let most = 200_000_000 * if cfg!(debug_assertions) { 50 } else { 1 };
    if ns > most {
        return bad(format!("after {n} bytes, {} with {k} bytes took {} ns of CPU time each", CALLS[which], ns / CALLS_MADE));
    }
    ctx.observe(&[which as u8]);
    Ok(())
}

pub fn c22() -> Vec<Kind> {
    vec![Kind { name: "short-calls-after-long", total: 0, quick: 11, thorough: 220, miri: 0, f: after_long }]
}

/// The monitors see what they are for.
fn selftest(ctx: &mut Ctx) -> Res {
    let (live, _) = heap::mark();
    let v = black_box(vec![1u8; 3 * HEAP as usize]);
    let (now, top) = heap::read();
    let freed = {
        drop(v);
        heap::read().0
    };
    if now - live < 3 * HEAP || top < now || freed - live > 1000 {
        panic!("the heap monitor is blind");
    }
    #[inline(never)]
    fn recurse(n: usize) -> usize {
        let x = black_box([n; 16]);
        if n == 0 {
            0
        } else {
            recurse(n - 1) + black_box(x)[3]
        }
    }
    let see = |n| sys::stack_depth(move || { black_box(recurse(n)); }).ok().unwrap_or(0);
    let (a, b) = (see(1), see(2000));
    if b < a + 2000 * 128 || a == 0 || a > 64 << 10 {
        panic!("the stack monitor is blind ({a}, {b})");
    }
    ctx.observe(b"sees");
    Ok(())
}

pub fn c24() -> Vec<Kind> {
    vec![
        Kind { name: "monitors-see", total: 1, quick: 1, thorough: 1, miri: 0, f: selftest },
        Kind { name: "heap-in-one-call", total: 0, quick: 432, thorough: 2880, miri: 0, f: peak },
        Kind { name: "heap-after-many", total: 0, quick: 3000, thorough: 30_000, miri: 0, f: growth },
        Kind { name: "heap-after-many-threads", total: 0, quick: 44, thorough: 880, miri: 0, f: threads },
        Kind { name: "stack-of-one-call", total: 0, quick: 1200, thorough: 12_000, miri: 0, f: stack },
    ]
}
