//! C12: a breakpoint on every instruction of this executable that the assumed CPU lacks.
//!
//! Single-stepping (props/step.rs) looks at each executed instruction but is slow. Here the
//! forbidden instructions themselves are replaced by int3 before anything runs, so that any workload
//! can run at full speed; the handler notes the first use, restores the instruction and goes on.

use crate::props::step;
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering};
use std::sync::OnceLock;

struct Table {
    base: usize,
    /// Sorted (address, original first byte, needs, still armed).
    at: Vec<(usize, u8, u8, AtomicU8)>,
}

static TABLE: OnceLock<Table> = OnceLock::new();
static FIRED: AtomicU64 = AtomicU64::new(0);
static TAKEN: AtomicU64 = AtomicU64::new(0);
static LAST: AtomicU64 = AtomicU64::new(0);

thread_local! {
    /// First breakpoint hit on this thread (plus one), and how many.
    static MINE: Cell<(usize, u64)> = const { Cell::new((0, 0)) };
}

unsafe extern "C" fn on_trap(_sig: libc::c_int, _info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let regs = &mut (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs;
    let ip = regs[libc::REG_RIP as usize] as usize - 1;
    let Some(t) = TABLE.get() else { libc::_exit(70) };
    let Ok(k) = t.at.binary_search_by_key(&ip, |e| e.0) else {
        // Not one of ours: a breakpoint of the program itself.
        libc::signal(libc::SIGTRAP, libc::SIG_DFL);
        return;
    };
    if t.at[k].3.swap(0, Ordering::SeqCst) == 1 {
        (ip as *mut u8).write_volatile(t.at[k].1);
        FIRED.fetch_add(1, Ordering::Relaxed);
        LAST.store(k as u64, Ordering::Relaxed);
        MINE.with(|m| {
            let (first, n) = m.get();
            m.set((if n == 0 { k + 1 } else { first }, n + 1));
        });
    }
    regs[libc::REG_RIP as usize] = ip as i64;
}

#[inline(never)]
unsafe fn probe() {
    std::arch::asm!("vpaddd ymm0, ymm0, ymm0", "vzeroupper", out("xmm0") _);
}

#[inline(never)]
unsafe fn probe_sse41() {
    std::arch::asm!("pblendw {x}, {x}, 15", x = out(xmm_reg) _);
}

/// `list`: addresses (as linked, hexadecimal, one per line) of all instructions of this executable.
/// Returns the number of breakpoints, or why there cannot be any.
pub fn arm(list: &str) -> Result<u64, String> {
    let exe = std::fs::read_link("/proc/self/exe").map_err(|e| e.to_string())?;
    let exe = exe.to_string_lossy().to_string();
    let maps = std::fs::read_to_string("/proc/self/maps").map_err(|e| e.to_string())?;
    let mut base = usize::MAX;
    let mut text = vec![];
    for l in maps.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() < 6 || f[5] != exe {
            continue;
        }
        let (lo, hi) = f[0].split_once('-').unwrap();
        let (lo, hi) = (usize::from_str_radix(lo, 16).unwrap(), usize::from_str_radix(hi, 16).unwrap());
        base = base.min(lo);
        if f[1].contains('x') {
            text.push((lo, hi));
        }
    }
    let lacks = step::lacks();
    let list = std::fs::read_to_string(list).map_err(|e| e.to_string())?;
    let mut at = vec![];
    let mut seen = 0u64;
    for l in list.lines() {
        let a = base + usize::from_str_radix(l, 16).map_err(|e| e.to_string())?;
        if !text.iter().any(|&(lo, hi)| a >= lo && a + 16 < hi) {
            continue;
        }
        seen += 1;
        let n = unsafe { step::needs(a as *const u8) };
        if n & lacks != 0 {
            at.push((a, unsafe { *(a as *const u8) }, n & lacks, AtomicU8::new(1)));
        }
    }
    if seen < 1000 {
        return Err(format!("only {seen} instructions are listed"));
    }
    at.sort_by_key(|e| e.0);
    at.dedup_by_key(|e| e.0);
    let n = at.len() as u64;
    let patch: Vec<usize> = at.iter().map(|e| e.0).collect();
    let _ = TABLE.set(Table { base, at });
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        for (lo, hi) in text {
            if libc::mprotect(lo as *mut libc::c_void, hi - lo, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC) != 0 {
                return Err("the text cannot be made writable".into());
            }
        }
        for a in patch {
            (a as *mut u8).write_volatile(0xcc);
        }
    }
    // Do the breakpoints work? (The real CPU can run these, whatever it was told to report.)
    let flags = std::fs::read_to_string("/proc/cpuinfo").unwrap_or_default();
    let has = |f: &str| flags.split_whitespace().any(|x| x == f);
    let before = FIRED.load(Ordering::SeqCst);
    let mut want = 0;
    unsafe {
        if has("avx2") {
            want += u64::from(lacks & 3 != 0) + u64::from(lacks & 1 != 0);
            probe();
        }
        if has("sse4_1") {
            want += u64::from(lacks & 4 != 0);
            probe_sse41();
        }
    }
    let got = FIRED.load(Ordering::SeqCst) - before;
    TAKEN.store(FIRED.load(Ordering::SeqCst), Ordering::SeqCst);
    MINE.with(|m| m.set((0, 0)));
    if got != want {
        return Err(format!("self-test: {got} of {want} breakpoints fired"));
    }
    Ok(n)
}

fn describe(k: usize) -> String {
    let t = TABLE.get().unwrap();
    let e = &t.at[k];
    format!("{} instruction is executed on a CPU that does not report it (at image+{:#x})", step::name(e.2), e.0 - t.base)
}

/// What this thread's case executed, if anything.
pub fn verdict() -> Option<String> {
    TABLE.get()?;
    let (k, n) = MINE.with(|m| m.replace((0, 0)));
    if n == 0 {
        return None;
    }
    TAKEN.fetch_add(n, Ordering::SeqCst);
    Some(describe(k - 1))
}

/// What was executed outside the threads of the cases.
pub fn rest() -> Option<String> {
    TABLE.get()?;
    if FIRED.load(Ordering::SeqCst) != 0 && TAKEN.load(Ordering::SeqCst) < FIRED.load(Ordering::SeqCst) {
        return Some(describe(LAST.load(Ordering::SeqCst) as usize));
    }
    None
}
