//! C25: a call reads its arguments and writes its results, and that is all.

use crate::gen::{self, Q};
use crate::props::space::{call, refusals, text, Subject, CALLS, FEEDING};
use crate::run::{self, bad, Bad, Ctx, Kind, Panicked, Res};
use crate::sys::SELECTOR;
use blake2s_simd as b2;
use oracle::P;
use std::arch::asm;
use std::cell::Cell;
use std::hint::black_box;
use std::sync::{Once, OnceLock};

// ------------------------------------------------------------------- system calls

std::arch::global_asm!(
    ".globl vh_pure_return",
    "vh_pure_return:",
    "mov rax, 15",
    "syscall",
    "nop",
    ".globl vh_pure_return_end",
    "vh_pure_return_end:",
    "nop",
);

extern "C" {
    fn vh_pure_return();
    fn vh_pure_return_end();
}

thread_local! {
    static MEMORY: Cell<u64> = const { Cell::new(0) };
    static OTHER: Cell<u64> = const { Cell::new(0) };
    static WHICH: Cell<i64> = const { Cell::new(-1) };
    static ENVIRONMENT: Cell<u64> = const { Cell::new(0) };
}

/// Memory for the allocator, and waiting for a lock.
fn for_memory(n: i64, flags: i64) -> bool {
    [libc::SYS_brk, libc::SYS_munmap, libc::SYS_mremap, libc::SYS_madvise, libc::SYS_mprotect, libc::SYS_futex, libc::SYS_sched_yield, libc::SYS_arch_prctl]
        .contains(&n)
        || n == libc::SYS_mmap && flags & i64::from(libc::MAP_ANONYMOUS) != 0
}

unsafe extern "C" fn on_call(_sig: libc::c_int, _info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    SELECTOR.with(|s| s.set(0));
    let r = &mut (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs;
    let n = r[libc::REG_RAX as usize];
    let a = [libc::REG_RDI, libc::REG_RSI, libc::REG_RDX, libc::REG_R10, libc::REG_R8, libc::REG_R9].map(|i| r[i as usize]);
    r[libc::REG_RAX as usize] = if for_memory(n, a[3]) {
        MEMORY.with(|m| m.set(m.get() + 1));
        let v: i64;
        asm!("syscall", inlateout("rax") n => v, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4],
            in("r9") a[5], lateout("rcx") _, lateout("r11") _);
        v
    } else {
        OTHER.with(|m| m.set(m.get() + 1));
        WHICH.with(|m| m.set(n));
        -i64::from(libc::EPERM)
    };
    SELECTOR.with(|s| s.set(1));
}

/// In place of the C library's: also what std asks.
///
/// # Safety
/// As `getenv`.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    extern "C" {
        static environ: *const *mut libc::c_char;
    }
    if SELECTOR.try_with(|s| s.get() == 1).unwrap_or(false) {
        let _ = ENVIRONMENT.try_with(|e| e.set(e.get() + 1));
    }
    let n = libc::strlen(name);
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        if libc::strncmp(*e, name, n) == 0 && *(*e).add(n) == b'=' as libc::c_char {
            return (*e).add(n + 1);
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}

/// Where the environment is, and its strings.
fn variables() -> (usize, u64) {
    extern "C" {
        static environ: *const *mut libc::c_char;
    }
    unsafe {
        let (mut e, mut n) = (environ, 0u64);
        while !e.is_null() && !(*e).is_null() {
            n = gen::mix64(n ^ *e as u64);
            e = e.add(1);
        }
        (environ as usize, n)
    }
}

fn install() {
    static DONE: Once = Once::new();
    DONE.call_once(|| unsafe {
        #[repr(C)]
        struct Action {
            handler: usize,
            flags: u64,
            restorer: usize,
            mask: u64,
        }
        let sa = Action {
            handler: on_call as *const () as usize,
            flags: libc::SA_SIGINFO as u64 | libc::SA_ONSTACK as u64 | 0x0400_0000,
            restorer: vh_pure_return as *const () as usize,
            mask: 0,
        };
        let r = libc::syscall(libc::SYS_rt_sigaction, libc::SIGSYS, &sa, 0usize, 8usize);
        assert!(r == 0, "rt_sigaction");
    });
}

const DISPATCH: libc::c_int = 59;

fn dispatch(on: bool) -> bool {
    let (from, n) = (vh_pure_return as *const () as usize, vh_pure_return_end as *const () as usize - vh_pure_return as *const () as usize);
    SELECTOR.with(|s| unsafe {
        if on {
            libc::prctl(DISPATCH, 1usize, from, n, s.as_ptr()) == 0
        } else {
            libc::prctl(DISPATCH, 0usize, 0usize, 0usize, 0usize) == 0
        }
    })
}

fn clock(on: bool) -> bool {
    unsafe { libc::prctl(libc::PR_SET_TSC, if on { libc::PR_TSC_ENABLE } else { libc::PR_TSC_SIGSEGV } as usize, 0usize, 0usize, 0usize) == 0 }
}

// ------------------------------------------------------------------- the processor's state

#[derive(Clone, Copy, PartialEq, Debug)]
struct Control {
    /// Rounding, flush to zero, masks; without the sticky flags.
    mxcsr: u32,
    x87: u16,
    /// Registers in use (an MMX instruction without EMMS leaves some).
    x87_tags: u16,
    backwards: bool,
}

fn control() -> Control {
    let (mut m, mut env, flags) = (0u32, [0u32; 7], 0u64);
    let mut flags = flags;
    unsafe {
        asm!("stmxcsr [{}]", in(reg) &mut m);
        // FNSTENV masks all exceptions.
        asm!("fnstenv [{0}]", "fldcw [{0}]", in(reg) &mut env);
        asm!("pushfq", "pop {}", out(reg) flags);
    }
    flags &= 1 << 10;
    Control { mxcsr: m & 0xffc0, x87: env[0] as u16, x87_tags: env[2] as u16, backwards: flags != 0 }
}

fn set(mxcsr: u32, x87: u16) {
    unsafe {
        asm!("ldmxcsr [{}]", in(reg) &mxcsr);
        asm!("fldcw [{}]", in(reg) &x87);
    }
}

const MXCSR: u32 = 0x1f80;
const X87: u16 = 0x37f;

/// What was seen of a call.
#[derive(Default)]
struct Seen {
    memory: u64,
    other: u64,
    which: i64,
    environment: u64,
    /// The environment was changed.
    changed: bool,
    state: Option<(Control, Control)>,
}

/// Runs `f` where nothing but memory may be asked of the kernel, and no clock.
fn armed(mxcsr: u32, x87: u16, f: impl FnOnce()) -> (Result<(), Panicked>, Seen) {
    install();
    MEMORY.with(|m| m.set(0));
    OTHER.with(|m| m.set(0));
    ENVIRONMENT.with(|m| m.set(0));
    assert!(dispatch(true), "no dispatch of system calls");
    assert!(clock(false), "no control of the time stamp counter");
    set(mxcsr, x87);
    let before = control();
    let variables = variables();
    SELECTOR.with(|s| s.set(1));
    let r = run::quiet(|| {
        f();
        // What was printed goes out now.
        let _ = std::io::Write::flush(&mut std::io::stdout());
    });
    SELECTOR.with(|s| s.set(0));
    let after = control();
    unsafe { asm!("cld", "emms") };
    set(MXCSR, X87);
    clock(true);
    dispatch(false);
    let seen = Seen {
        memory: MEMORY.with(|m| m.get()),
        other: OTHER.with(|m| m.get()),
        which: WHICH.with(|m| m.get()),
        environment: ENVIRONMENT.with(|m| m.get()),
        changed: variables != self::variables(),
        state: (before != after).then_some((before, after)),
    };
    (r, seen)
}

fn verdict(ctx: &mut Ctx, what: &str, r: Result<(), Panicked>, s: Seen) -> Res {
    ctx.add("armed_calls", 1);
    ctx.add("system_calls_for_memory", s.memory);
    match r {
        Err(p) if p.harness => panic!("{}", p.text),
        Err(p) => return bad(format!("{what} panicked: {}", p.text)),
        Ok(()) => {}
    }
    if s.other > 0 {
        return bad(format!("{what} made {} system calls, the last of them number {}", s.other, s.which));
    }
    if s.environment > 0 {
        return bad(format!("{what} looked at the environment"));
    }
    if s.changed {
        return bad(format!("{what} changed the environment"));
    }
    if let Some((a, b)) = s.state {
        return bad(format!("{what} changed the processor's state from {a:?} to {b:?}"));
    }
    Ok(())
}

// ------------------------------------------------------------------- kinds

/// Everything that later calls could show of the objects.
pub fn fingerprint(u: &mut Subject) -> Vec<u8> {
    let mut v = vec![];
    for s in &mut u.s {
        v.extend_from_slice(&s.count().to_le_bytes());
        v.extend_from_slice(s.finalize().as_bytes());
    }
    v.extend_from_slice(&u.sp.count().to_le_bytes());
    v.extend_from_slice(u.sp.finalize().as_bytes());
    v.extend_from_slice(u.h.as_bytes());
    v.extend_from_slice(u.q.to_state().update(b"abc").finalize().as_bytes());
    v.extend_from_slice(u.plain.to_state().update(b"abc").finalize().as_bytes());
    v.extend_from_slice(u.sq.to_state().update(b"abc").finalize().as_bytes());
    v
}

pub struct Case {
    p: P,
    q: Q,
    pub which: usize,
    pub d: &'static [u8],
    pre: &'static [u8],
}

impl Case {
    pub fn new(ctx: &mut Ctx, which: usize, max: u64) -> Case {
        let keyed = ctx.rng.chance(1, 2);
        let (p, q) = (gen::gen_p(&mut ctx.rng, keyed), gen::gen_q(&mut ctx.rng));
        let n = ctx.rng.len(max);
        let d = text(ctx, n);
        let n = ctx.rng.below(1200) as usize;
        let pre = text(ctx, n);
        Case { p, q, which, d, pre }
    }

    pub fn subject(&self) -> Subject {
        let mut u = Subject::new(&self.p, &self.q);
        call(&mut u, 8, &self.pre[..self.pre.len() % 150]);
        call(&mut u, 2, self.pre);
        u
    }

    pub fn name(&self) -> String {
        format!("{} with {} bytes", CALLS[self.which], self.d.len())
    }
}

/// One call after another, each watched, with unusual rounding and the like in force.
fn watched(ctx: &mut Ctx) -> Res {
    let n = ctx.idx as usize;
    let max = *ctx.rng.pick(&[300, 2000, 70_000, 1 << 20]);
    let c = Case::new(ctx, n % CALLS.len(), if cfg!(debug_assertions) { max.min(70_000) } else { max });
    let mxcsr = MXCSR | (ctx.rng.below(4) as u32) << 13 | (ctx.rng.below(2) as u32) << 15 | (ctx.rng.below(2) as u32) << 6;
    let x87 = X87 & !0xf00 | (*ctx.rng.pick(&[0u16, 2, 3])) << 8 | (ctx.rng.below(4) as u16) << 10;
    ctx.tr(|| format!("{}, {} bytes before, parameters {:?} {:?}, MXCSR {mxcsr:#x}, x87 control {x87:#x}", c.name(), c.pre.len(), c.p, c.q));
    let mut plain = c.subject();
    call(&mut plain, c.which, c.d);
    let want = fingerprint(&mut plain);
    let mut u = c.subject();
    let (r, seen) = armed(mxcsr, x87, || call(&mut u, c.which, c.d));
    verdict(ctx, &c.name(), r, seen)?;
    let got = fingerprint(&mut u);
    if got != want {
        return bad(format!("{} gives something else where numbers are rounded otherwise", c.name()));
    }
    ctx.observe(&got);
    Ok(())
}

/// Messages that may tempt an implementation to bring in help.
fn long(ctx: &mut Ctx) -> Res {
    let which = FEEDING[ctx.idx as usize % FEEDING.len()];
    let big = [1u64 << 20, 1 << 22, 1 << 24, 1 << 26, 200 << 20, 256 << 20][ctx.idx as usize / FEEDING.len() % 6];
    let eight = [8, 10, 11, 12].contains(&which);
    let big = big.min(if cfg!(debug_assertions) { 1 << 20 } else if eight { 1 << 24 } else { big });
    let mut c = Case::new(ctx, which, 10);
    let n = big + ctx.rng.below(3000);
    c.d = text(ctx, n as usize);
    ctx.tr(|| format!("{}, {} bytes before, parameters {:?} {:?}", c.name(), c.pre.len(), c.p, c.q));
    let mut u = c.subject();
    let (r, seen) = armed(MXCSR, X87, || call(&mut u, c.which, c.d));
    verdict(ctx, &c.name(), r, seen)?;
    ctx.add("bytes_hashed", c.d.len() as u64);
    ctx.observe(&fingerprint(&mut u));
    Ok(())
}

/// Whole histories, watched together with the harness's part in them, which only needs memory.
fn histories(ctx: &mut Ctx) -> Res {
    let mut res = Ok(());
    // What happens once only.
    gen::pool();
    let (r, seen) = armed(MXCSR, X87, || res = crate::props::hist::c11_history(ctx));
    res?;
    verdict(ctx, "a history of calls", r, seen)
}

/// Whole single-call cases, likewise.
fn single(ctx: &mut Ctx) -> Res {
    let mut res = Ok(());
    gen::pool();
    let (r, seen) = armed(MXCSR, X87, || res = crate::props::hist::c11_lens(ctx));
    res?;
    verdict(ctx, "a call", r, seen)
}

// ------------------------------------------------------------------- interruptions

struct Interruption {
    u: Subject,
    which: usize,
    d: &'static [u8],
    /// Steps until the next one, and between them.
    left: u64,
    every: u64,
    steps: u64,
    done: u64,
}

thread_local! {
    static INTERRUPTION: Cell<*mut Interruption> = const { Cell::new(std::ptr::null_mut()) };
}

unsafe extern "C" fn on_step(_sig: libc::c_int, _info: *mut libc::siginfo_t, _uc: *mut libc::c_void) {
    let i = INTERRUPTION.with(|p| p.get());
    if i.is_null() || crate::sys::heap::busy() {
        return;
    }
    let i = &mut *i;
    i.steps += 1;
    i.left -= 1;
    if i.left == 0 {
        i.left = i.every;
        i.done += 1;
        call(&mut i.u, i.which, i.d);
    }
}

fn trap(on: bool) {
    unsafe {
        if on {
            asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
}

/// Room for a whole call on the stack of the signal handlers.
fn signal_stack() {
    const N: usize = 1 << 20;
    thread_local! { static HAVE: Cell<bool> = const { Cell::new(false) }; }
    if !HAVE.with(|h| h.replace(true)) {
        let b: &'static mut [u8] = Box::leak(vec![0u8; N].into_boxed_slice());
        let ss = libc::stack_t { ss_sp: b.as_mut_ptr() as *mut libc::c_void, ss_flags: 0, ss_size: N };
        assert!(unsafe { libc::sigaltstack(&ss, std::ptr::null_mut()) } == 0, "sigaltstack");
    }
}

/// One call interrupted in the middle by others on the same thread, as by a signal handler.
fn interrupted(ctx: &mut Ctx) -> Res {
    static DONE: Once = Once::new();
    DONE.call_once(|| unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_step as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    });
    signal_stack();
    let n = CALLS.len();
    let (a, b) = (ctx.idx as usize % n, (ctx.idx as usize / n) % n);
    let max = *ctx.rng.pick(&[130, 700, 1500]);
    let c = Case::new(ctx, a, max);
    let o = Case::new(ctx, b, 400);
    // Around twenty interruptions, by what an uninterrupted call takes.
    let mut probe = c.subject();
    let mut i = Interruption { u: o.subject(), which: b, d: o.d, left: u64::MAX, every: u64::MAX, steps: 0, done: 0 };
    stepped(&mut i, || call(&mut probe, a, c.d)).map_err(|t| Bad(format!("{} {t}", c.name())))?;
    let steps = i.steps;
    let every = (steps / ctx.rng.range(3, 40)).max(1);
    i.left = 1 + ctx.rng.below(every.min(steps.max(1)));
    i.every = every;
    i.steps = 0;
    let want = fingerprint(&mut probe);
    ctx.tr(|| format!("{} (parameters {:?} {:?}; {steps} instructions) interrupted every {every} of them, first at {}, by {} (parameters {:?} {:?})", c.name(), c.p, c.q, i.left, o.name(), o.p, o.q));
    let mut u = c.subject();
    stepped(&mut i, || call(&mut u, a, c.d)).map_err(|t| Bad(format!("{} interrupted by {} {t}", c.name(), o.name())))?;
    ctx.add("calls_interrupted", u64::from(i.done > 0));
    ctx.add("interruptions", i.done);
    ctx.add("instructions_stepped", i.steps);
    if fingerprint(&mut u) != want {
        return bad(format!("{}, interrupted {} times by {}, gives something else", c.name(), i.done, o.name()));
    }
    let mut alone = o.subject();
    (0..i.done).for_each(|_| call(&mut alone, b, o.d));
    if fingerprint(&mut i.u) != fingerprint(&mut alone) {
        return bad(format!("{} times {}, interrupting {}, gives something else", i.done, o.name(), c.name()));
    }
    ctx.observe(&want);
    Ok(())
}

fn stepped(i: &mut Interruption, f: impl FnOnce()) -> Result<(), String> {
    INTERRUPTION.with(|p| p.set(i));
    let r = run::quiet(|| {
        trap(true);
        f();
        trap(false);
    });
    trap(false);
    INTERRUPTION.with(|p| p.set(std::ptr::null_mut()));
    match r {
        Ok(()) => Ok(()),
        Err(p) if p.harness => panic!("{}", p.text),
        Err(p) => Err(format!("panicked: {}", p.text)),
    }
}

/// The monitors see what they are for.
fn selftest(ctx: &mut Ctx) -> Res {
    let see = |f: fn()| {
        let (r, s) = armed(MXCSR, X87, f);
        if r.is_err() {
            panic!("a deed of the self-test panicked");
        }
        s
    };
    let s = see(|| {
        black_box(vec![1u8; 40 << 20]);
    });
    if s.other + s.environment > 0 || s.memory == 0 || s.state.is_some() {
        panic!("memory is taken for something else");
    }
    if see(|| unsafe { assert!(libc::getppid() == -1) }).other != 1 {
        panic!("the monitor of system calls is blind");
    }
    if see(|| assert!(std::thread::Builder::new().spawn(|| ()).is_err())).other == 0 {
        panic!("the monitor of system calls does not see threads");
    }
    if see(|| assert!(std::env::var("VH NO SUCH").is_err())).environment == 0 {
        panic!("the monitor of the environment is blind");
    }
    if see(|| unsafe { asm!("pxor mm0, mm0") }).state.is_none() || see(|| set(MXCSR | 0x2000, X87)).state.is_none() {
        panic!("the monitor of the processor's state is blind");
    }
    if see(|| set(MXCSR, X87 | 0xc00)).state.is_none() || see(|| unsafe { asm!("std") }).state.is_none() {
        panic!("the monitor of the processor's state is blind");
    }
    if see(|| ()).state.is_some() {
        panic!("the processor's state is not restored");
    }
    ctx.observe(b"sees");
    Ok(())
}

// ------------------------------------------------------------------- the first use in a process

/// The first call of a process, from `Params::new` or `blake2s` on.
fn first_call(which: usize, d: &'static [u8], p: &P, q: &Q) {
    match which {
        0 => {
            black_box(b2::blake2s(d));
        }
        1 => {
            black_box(b2::blake2sp::blake2sp(d));
        }
        2 => {
            black_box(b2::State::new().update(d).finalize());
        }
        3 => {
            black_box(b2::blake2sp::State::new().update(d).finalize());
        }
        4 => {
            black_box(gen::lib_params(p).to_state().update(d).finalize());
        }
        5 => {
            black_box(gen::sp_params(q).to_state().update(d).finalize());
        }
        6 => {
            let p = b2::Params::new();
            black_box(b2::hash8(&p, &p, &p, &p, &p, &p, &p, &p, d, d, d, d, d, d, d, d));
        }
        7 => {
            let p = b2::Params::new();
            let x = if d.len() < 64 { &[9; 64] } else { &d[..d.len() / 64 * 64] };
            black_box(b2::hash8_exact(&p, x, x, x, x, x, x, x, x));
        }
        8 => {
            let p = b2::Params::new();
            let x = if d.len() < 64 { &[9; 64] } else { &d[..d.len() / 64 * 64] };
            black_box(b2::hash4_exact(&p, x, x, x, x));
        }
        _ => {
            let mut u = Subject::new(p, q);
            call(&mut u, which - 9, d);
            black_box(&mut u);
        }
    }
}

/// In a fork of this process, which has not used the library.
fn first(ctx: &mut Ctx) -> Res {
    static PAGE: OnceLock<usize> = OnceLock::new();
    install();
    let page = *PAGE.get_or_init(|| {
        let (prot, flags) = (libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS);
        let a = unsafe { libc::mmap(std::ptr::null_mut(), 4096, prot, flags, -1, 0) };
        assert!(a != libc::MAP_FAILED, "mmap");
        a as usize
    });
    let report = page as *mut [i64; 6];
    unsafe { report.write_volatile([0; 6]) };
    let which = ctx.idx as usize % (9 + CALLS.len());
    let (p, q) = (gen::gen_p(&mut ctx.rng, true), gen::gen_q(&mut ctx.rng));
    let max = *ctx.rng.pick(&[300, 2000, 70_000]);
    let n = ctx.rng.len(max);
    let d = text(ctx, n);
    let what = if which < 9 {
        ["blake2s", "blake2sp", "State::new", "blake2sp::State::new", "Params", "blake2sp::Params", "hash8", "hash8_exact", "hash4_exact"][which]
    } else {
        CALLS[which - 9]
    };
    let what = format!("the first call in a process, {what} with {n} bytes,");
    ctx.tr(|| what.clone());
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        ctx.trivial = true;
        return Ok(());
    }
    if pid == 0 {
        unsafe { libc::alarm(60) };
        let (r, s) = armed(MXCSR, X87, || first_call(which, d, &p, &q));
        let threads = std::fs::read_dir("/proc/self/task").map_or(1, |d| d.count());
        let panicked = match r {
            Ok(()) => 0,
            Err(p) if p.harness => 2,
            Err(_) => 1,
        };
        let told = i64::from(s.environment > 0) | i64::from(s.changed) << 1 | i64::from(s.state.is_some()) << 2 | i64::from(threads != 1) << 3;
        unsafe {
            report.write_volatile([1, panicked, s.other as i64, s.which, told, s.memory as i64]);
            libc::_exit(0)
        }
    }
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
        if std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
            panic!("waitpid");
        }
    }
    ctx.add("first_calls_watched", 1);
    ctx.observe(&[0]);
    let [done, panicked, other, number, told, memory] = unsafe { report.read_volatile() };
    if done == 0 {
        if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGKILL {
            panic!("the child was killed");
        }
        return bad(format!("{what} crashed, never returned, ended the process or read the clock (status {st:#x})"));
    }
    ctx.add("system_calls_for_memory", memory as u64);
    match panicked {
        2 => panic!("harness panic in the child"),
        1 => return bad(format!("{what} panicked")),
        _ => {}
    }
    if other > 0 {
        return bad(format!("{what} made {other} system calls, the last of them number {number}"));
    }
    for (i, t) in ["looked at the environment", "changed the environment", "changed the processor's state", "started a thread"].iter().enumerate() {
        if told >> i & 1 != 0 {
            return bad(format!("{what} {t}"));
        }
    }
    Ok(())
}

/// For processes in which nothing of the library has run.
pub fn c25_first() -> Vec<Kind> {
    let n = 9 + CALLS.len() as u64;
    vec![Kind { name: "first-calls", total: 0, quick: n * 8, thorough: n * 200, miri: 0, f: first }]
}

/// Whatever the process does with panics it still does after calls, refused ones included.
fn hook(ctx: &mut Ctx) -> Res {
    let keyed = ctx.rng.chance(1, 2);
    let (p, q) = (gen::gen_p(&mut ctx.rng, keyed), gen::gen_q(&mut ctx.rng));
    ctx.tr(|| format!("parameters {p:?} {q:?}"));
    let mut u = Subject::new(&p, &q);
    for i in 0..ctx.rng.range(2, 12) {
        let which = ctx.rng.below(CALLS.len() as u64 + 4) as usize;
        let n = ctx.rng.below(1500) as usize;
        let d = text(ctx, n);
        let name = CALLS.get(which).copied().unwrap_or("refused calls");
        ctx.tr(|| format!("{name} ({n} bytes)"));
        if which < CALLS.len() {
            call(&mut u, which, d);
        } else {
            refusals(&mut u);
        }
        let mine = format!("panic {i} of the monitor");
        match run::quiet(|| std::panic::panic_any(mine.clone())) {
            Err(p) if p.text.starts_with(&mine) => {}
            Err(p) => return bad(format!("after {name}, the process's panic hook is not called any more ({})", p.text)),
            Ok(()) => panic!("harness: a panic that did not happen"),
        }
        ctx.add("hooks_seen_in_place", 1);
    }
    ctx.observe(u.h.as_bytes());
    Ok(())
}

pub fn c25() -> Vec<Kind> {
    let n = CALLS.len() as u64;
    vec![
        Kind { name: "monitors-see", total: 1, quick: 1, thorough: 1, miri: 0, f: selftest },
        Kind { name: "watched-calls", total: 0, quick: n * 3000, thorough: n * 60_000, miri: 0, f: watched },
        Kind { name: "panic-hook-stays", total: 0, quick: 3000, thorough: 60_000, miri: 0, f: hook },
        Kind { name: "watched-long-calls", total: 0, quick: 72, thorough: 288, miri: 0, f: long },
        Kind { name: "watched-histories", total: 0, quick: 40_000, thorough: 1_000_000, miri: 0, f: histories },
        Kind { name: "watched-lengths", total: 6 * 2500, quick: 6 * 2500, thorough: 6 * 2500, miri: 0, f: single },
        Kind { name: "interrupted-calls", total: 0, quick: n * n * 2, thorough: n * n * 60, miri: 0, f: interrupted },
    ]
}
