//! Random histories whose random bytes are chosen by what the library did with earlier ones: new
//! edges, and comparisons that come closer to equality. In builds whose library is instrumented
//! (SanitizerCoverage); one thread at a time.

use crate::gen::{self, Rng};
use crate::run::{self, bad, Ctx, Kind, Outcome, Res};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

const EDGES: usize = 1 << 14;
const MAP: usize = 1 << 17;

/// Where the counters of the library's edges are.
static RANGES: [(AtomicUsize, AtomicUsize); 64] = [const { (AtomicUsize::new(0), AtomicUsize::new(0)) }; 64];
static ON: AtomicBool = AtomicBool::new(false);

/// What one execution did; only the campaign's thread touches it.
struct Seen {
    marks: [u8; MAP],
    list: Vec<u32>,
    /// Operands of comparisons that failed.
    operands: Vec<u64>,
}

static mut SEEN: Seen = Seen { marks: [0; MAP], list: Vec::new(), operands: Vec::new() };

#[allow(static_mut_refs)]
fn seen() -> &'static mut Seen {
    unsafe { &mut SEEN }
}

#[inline(always)]
fn caller() -> usize {
    // Frame pointers are forced in this build.
    let at: usize;
    unsafe { std::arch::asm!("mov {}, [rbp + 8]", out(reg) at, options(readonly, nostack, preserves_flags)) };
    // The program is loaded anywhere.
    at.wrapping_sub(caller as *const () as usize)
}

fn compared(site: usize, a: u64, b: u64) {
    if !ON.load(Relaxed) {
        return;
    }
    let s = seen();
    // How far apart: in bits that differ, and in magnitude.
    let d = (a ^ b).count_ones();
    let m = a.abs_diff(b).checked_ilog2().map_or(0, |x| x + 1);
    for v in [u64::from(d), 128 + u64::from(m)] {
        let i = EDGES + gen::mix64(site as u64 ^ v << 48) as usize % (MAP - EDGES);
        if s.marks[i] == 0 {
            s.marks[i] = 1;
            s.list.push(i as u32);
        }
    }
    if a != b && s.operands.len() < 4096 {
        s.operands.push(a);
        s.operands.push(b);
    }
}

macro_rules! callbacks {
    ($($name:ident $t:ty),*) => {
        $(#[no_mangle]
        #[inline(never)]
        pub extern "C" fn $name(a: $t, b: $t) {
            compared(caller(), u64::from(a), u64::from(b));
        })*
    };
}

callbacks!(
    __sanitizer_cov_trace_cmp1 u8,
    __sanitizer_cov_trace_cmp2 u16,
    __sanitizer_cov_trace_cmp4 u32,
    __sanitizer_cov_trace_cmp8 u64,
    __sanitizer_cov_trace_const_cmp1 u8,
    __sanitizer_cov_trace_const_cmp2 u16,
    __sanitizer_cov_trace_const_cmp4 u32,
    __sanitizer_cov_trace_const_cmp8 u64
);

/// # Safety
/// Called by instrumented code: `cases` are a length, a width and that many values.
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    let site = caller();
    for i in 0..(*cases as usize).min(64) {
        compared(site + i, v, *cases.add(2 + i));
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_indir(_callee: usize) {}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    for (a, b) in &RANGES {
        if a.load(Relaxed) == start as usize {
            return;
        }
        if a.load(Relaxed) == 0 {
            a.store(start as usize, Relaxed);
            b.store(stop as usize, Relaxed);
            return;
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_start: *const usize, _stop: *const usize) {}

fn counters() -> impl Iterator<Item = *mut u8> {
    RANGES.iter().take_while(|(a, _)| a.load(Relaxed) != 0).flat_map(|(a, b)| (a.load(Relaxed)..b.load(Relaxed)).map(|p| p as *mut u8))
}

/// Runs one input; what it did is in the list afterwards.
fn execute(kinds: &[Kind], bytes: &[u8], verbose: bool) -> (Outcome, Ctx) {
    let mut c = Ctx::new(0, "guided", 0, false);
    c.verbose = verbose;
    c.rng = Rng::from_bytes(&bytes[1..]);
    let k = &kinds[bytes[0] as usize % kinds.len()];
    run::forget_contents();
    let s = seen();
    s.list.iter().for_each(|i| s.marks[*i as usize] = 0);
    s.list.clear();
    s.operands.clear();
    counters().for_each(|p| unsafe { *p = 0 });
    ON.store(true, Relaxed);
    let out = run::run_case(k, &mut c);
    ON.store(false, Relaxed);
    for (i, p) in counters().enumerate() {
        let n = unsafe { *p };
        if n != 0 {
            let class = [1, 2, 3, 4, 8, 16, 32, 128].iter().rposition(|x| n >= *x).unwrap_or(0);
            s.list.push(((i * 8 + class) % EDGES) as u32);
        }
    }
    (out, c)
}

fn mutate(r: &mut Rng, corpus: &[(Vec<u8>, Vec<u64>)]) -> Vec<u8> {
    // Recent finds more often.
    let n = corpus.len() as u64;
    let i = if r.chance(1, 2) { n - 1 - r.below(n.min(16)) } else { r.below(n) };
    let (mut b, operands) = corpus[i as usize].clone();
    for _ in 0..1 + r.below(4) {
        let len = b.len() as u64;
        let at = |r: &mut Rng| (1 + r.below(len - 9)) as usize;
        match r.below(12) {
            0 => {
                let i = r.below(len) as usize;
                b[i] ^= 1 << r.below(8);
            }
            1 => {
                let i = r.below(len) as usize;
                b[i] = r.byte();
            }
            2 => {
                let i = at(r);
                let v = r.u64().to_le_bytes();
                b[i..i + 8].copy_from_slice(&v);
            }
            3 | 4 => {
                // A little more or less.
                // (Numbers are drawn highest byte first.)
                let i = at(r);
                let w = 1 + r.below(3) as usize;
                let v = b[i..i + w].iter().fold(0, |v, x| v << 8 | u64::from(*x));
                let d = 1 + r.below(40);
                let v = if r.chance(1, 2) { v.wrapping_add(d) } else { v.wrapping_sub(d) };
                b[i..i + w].copy_from_slice(&v.to_be_bytes()[8 - w..]);
            }
            5 => {
                // Steps out.
                let i = at(r);
                let j = (i + (1 + r.below(20)) as usize).min(b.len() - 8).max(i);
                if b.len() - (j - i) > 32 {
                    b.drain(i..j);
                }
            }
            6 | 7 => {
                // Steps from elsewhere in.
                let (o, _) = &corpus[r.below(n) as usize];
                let i = at(r);
                let j = (1 + r.below(o.len() as u64 - 1)) as usize;
                let k = (j + (1 + r.below(60)) as usize).min(o.len());
                if b.len() < 3000 {
                    b.splice(i..i, o[j..k].iter().copied());
                }
            }
            8 => {
                // Steps again.
                let i = at(r);
                let k = (i + (1 + r.below(40)) as usize).min(b.len());
                if b.len() < 3000 {
                    let again = b[i..k].to_vec();
                    b.splice(i..i, again);
                }
            }
            9 => {
                let (o, _) = &corpus[r.below(n) as usize];
                let i = at(r);
                b.truncate(i);
                if i < o.len() {
                    b.extend_from_slice(&o[i..]);
                }
                while b.len() < 41 {
                    b.push(r.byte());
                }
            }
            _ if !operands.is_empty() => {
                // What the library compared with, one way or another.
                let v = *r.pick(operands.as_slice());
                let w = [1usize, 2, 4, 8][r.below(4) as usize];
                let i = if r.chance(1, 2) { at(r) } else { r.below(len - 8) as usize };
                let bytes = v.to_le_bytes();
                b[i..i + w].copy_from_slice(&bytes[..w]);
                if r.chance(1, 2) {
                    b[i..i + w].reverse();
                }
            }
            _ => b[0] = r.byte(),
        }
    }
    b
}

/// One campaign, a function of the seed alone.
pub fn campaign(ctx: &mut Ctx, kinds: &[Kind], executions: u64) -> Res {
    assert_eq!(ctx.thread, 0, "campaigns run one at a time");
    if counters().next().is_none() {
        panic!("the library is not instrumented");
    }
    let mut r = Rng::new(ctx.rng.u64());
    let mut corpus: Vec<(Vec<u8>, Vec<u64>)> = vec![];
    let mut known = vec![0u8; MAP];
    let (mut edges, mut comparisons) = (0, 0);
    for e in 0..executions {
        let bytes = if e < 50 || corpus.is_empty() {
            let mut b = vec![0u8; 1 + 8 * (8 + r.below(60)) as usize];
            r.fill(&mut b);
            b
        } else {
            mutate(&mut r, &corpus)
        };
        let (out, c) = execute(kinds, &bytes, false);
        ctx.add("guided_executions", 1);
        match out {
            Outcome::Held => {}
            Outcome::Harness(t) => panic!("{t}"),
            Outcome::Violated(t) => {
                if ctx.verbose {
                    let (_, c) = execute(kinds, &bytes, true);
                    ctx.trace.extend(c.trace);
                }
                return bad(format!("execution {e}, {}: {t}", kinds[bytes[0] as usize % kinds.len()].name));
            }
        }
        ctx.obs = gen::mix64(ctx.obs ^ c.obs);
        ctx.nobs += 1;
        for (k, n) in c.metrics {
            ctx.add(k, n);
        }
        let s = seen();
        let mut new = false;
        for &i in &s.list {
            if known[i as usize] == 0 {
                known[i as usize] = 1;
                new = true;
                *(if (i as usize) < EDGES { &mut edges } else { &mut comparisons }) += 1;
            }
        }
        if new {
            let mut ops = std::mem::take(&mut s.operands);
            ops.sort_unstable();
            ops.dedup();
            corpus.push((bytes, ops));
        }
    }
    ctx.add("guided_edge_classes", edges);
    ctx.add("guided_comparison_classes", comparisons);
    ctx.add("guided_corpus", corpus.len() as u64);
    ctx.sig = gen::mix64(ctx.sig ^ ctx.obs);
    Ok(())
}
