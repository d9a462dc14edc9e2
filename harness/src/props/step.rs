//! C12: every instruction executed inside library calls, looked at one by one.
//!
//! The processor's trap flag stops after each instruction; the handler decodes the one about to
//! run, if it lies in this executable, and notes those that the assumed CPU lacks.

use crate::props::hist;
use crate::run::{bad, Ctx, Kind, Res};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, Ordering};
use std::sync::OnceLock;

/// What the assumed CPU lacks.
const NO_AVX: u8 = 1;
const NO_AVX2: u8 = 2;
const NO_SSE41: u8 = 4;
const NO_SSSE3: u8 = 8;
const NO_AVX512: u8 = 16;

static LACKS: AtomicU8 = AtomicU8::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
static OWN: AtomicU64 = AtomicU64::new(0);
static DISTINCT: AtomicU64 = AtomicU64::new(0);
static VEX: AtomicU64 = AtomicU64::new(0);
static SSE4: AtomicU64 = AtomicU64::new(0);
static BAD_IP: AtomicU64 = AtomicU64::new(0);
static BAD_WHAT: AtomicU8 = AtomicU8::new(0);
static READY: AtomicBool = AtomicBool::new(false);

struct Text {
    lo: usize,
    hi: usize,
    /// One byte per instruction address: 0 not seen, else 1 + what it needs.
    seen: Vec<AtomicU8>,
}

static TEXT: OnceLock<Text> = OnceLock::new();

pub fn set_persona(name: &str) {
    let l = match name {
        "sse2" => NO_AVX | NO_AVX2 | NO_SSE41 | NO_SSSE3 | NO_AVX512,
        "ssse3" => NO_AVX | NO_AVX2 | NO_SSE41 | NO_AVX512,
        "sse41" | "sse42" => NO_AVX | NO_AVX2 | NO_AVX512,
        "noosxsave" => NO_AVX | NO_AVX2 | NO_AVX512,
        "avx" | "fma" | "noavx2" => NO_AVX2 | NO_AVX512,
        "noavx512" => NO_AVX512,
        _ => 0,
    };
    LACKS.store(l, Ordering::SeqCst);
}

pub fn lacks() -> u8 {
    LACKS.load(Ordering::SeqCst)
}

/// Which extensions the instruction at `p` needs.
pub unsafe fn needs(p: *const u8) -> u8 {
    let mut i = 0;
    let mut p66 = false;
    let at = |k: usize| p.add(k).read();
    loop {
        match at(i) {
            0x66 => p66 = true,
            0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 | 0xf0 => {}
            _ => break,
        }
        i += 1;
        if i > 14 {
            return 0;
        }
    }
    match at(i) {
        0x62 => return NO_AVX512 | NO_AVX | NO_AVX2,
        0xc5 => {
            let b = at(i + 1);
            return NO_AVX | avx2(1, at(i + 2), b & 3, b & 4 != 0, false, at(i + 3));
        }
        0xc4 => {
            let m = at(i + 1) & 31;
            let b = at(i + 2);
            let op = at(i + 3);
            // BMI instructions share the encoding but are no AVX.
            let general = (m == 2 && matches!(op, 0xf2 | 0xf3 | 0xf5 | 0xf6 | 0xf7)) || (m == 3 && op == 0xf0);
            if general {
                return 0;
            }
            return NO_AVX | avx2(m, op, b & 3, b & 4 != 0, b & 0x80 != 0, at(i + 4));
        }
        _ => {}
    }
    if at(i) & 0xf0 == 0x40 {
        i += 1;
    }
    if at(i) != 0x0f {
        return 0;
    }
    let op = at(i + 2);
    match at(i + 1) {
        0x38 => match op {
            0x00..=0x0b | 0x1c..=0x1e => NO_SSSE3,
            0x10 | 0x14 | 0x15 | 0x17 | 0x20..=0x25 | 0x28..=0x2b | 0x30..=0x35 | 0x37..=0x41 if p66 => NO_SSE41,
            _ => 0,
        },
        0x3a => match op {
            0x0f => NO_SSSE3,
            0x08..=0x0e | 0x14..=0x17 | 0x20..=0x22 | 0x40..=0x42 | 0x60..=0x63 if p66 => NO_SSE41,
            _ => 0,
        },
        _ => 0,
    }
}

/// Is this VEX instruction AVX2 rather than AVX?
fn avx2(map: u8, op: u8, pp: u8, l256: bool, _w: bool, modrm: u8) -> u8 {
    let register = modrm >> 6 == 3;
    let yes = match map {
        1 => {
            l256 && match op {
                0x60..=0x6d | 0x74..=0x76 | 0xd1..=0xd5 | 0xd7..=0xdf | 0xe0..=0xe5 | 0xe8..=0xef | 0xf1..=0xf6 | 0xf8..=0xfe => {
                    pp == 1
                }
                0x70..=0x73 => true,
                _ => false,
            }
        }
        2 => match op {
            0x00..=0x0b | 0x1c..=0x1e | 0x20..=0x25 | 0x28..=0x2b | 0x30..=0x40 => l256,
            0x16 | 0x45..=0x47 | 0x58 | 0x59 | 0x5a | 0x78 | 0x79 | 0x8c | 0x8e | 0x90..=0x93 => true,
            0x18 | 0x19 => register,
            _ => false,
        },
        3 => match op {
            0x00 | 0x01 | 0x02 | 0x38 | 0x39 | 0x46 => true,
            0x0e | 0x0f | 0x42 | 0x4c => l256,
            _ => false,
        },
        _ => false,
    };
    if yes {
        NO_AVX2
    } else {
        0
    }
}

unsafe extern "C" fn on_step(_sig: libc::c_int, _info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let regs = &(*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs;
    let ip = regs[libc::REG_RIP as usize] as usize;
    STEPS.fetch_add(1, Ordering::Relaxed);
    let Some(t) = TEXT.get() else { return };
    if ip < t.lo || ip >= t.hi {
        return;
    }
    OWN.fetch_add(1, Ordering::Relaxed);
    let cell = &t.seen[ip - t.lo];
    let mut n = cell.load(Ordering::Relaxed);
    if n == 0 {
        n = needs(ip as *const u8) + 1;
        cell.store(n, Ordering::Relaxed);
        DISTINCT.fetch_add(1, Ordering::Relaxed);
    }
    let n = n - 1;
    if n != 0 {
        if n & NO_AVX != 0 {
            VEX.fetch_add(1, Ordering::Relaxed);
        } else {
            SSE4.fetch_add(1, Ordering::Relaxed);
        }
        let missing = n & LACKS.load(Ordering::Relaxed);
        if missing != 0 && BAD_IP.load(Ordering::Relaxed) == 0 {
            BAD_IP.store(ip as u64, Ordering::Relaxed);
            BAD_WHAT.store(missing, Ordering::Relaxed);
        }
    }
}

fn setup() {
    if READY.swap(true, Ordering::SeqCst) {
        return;
    }
    let here = setup as *const () as usize;
    let maps = std::fs::read_to_string("/proc/self/maps").expect("maps");
    let mut found = None;
    for l in maps.lines() {
        let mut f = l.split_whitespace();
        let (lo, hi) = f.next().unwrap().split_once('-').unwrap();
        let (lo, hi) = (usize::from_str_radix(lo, 16).unwrap(), usize::from_str_radix(hi, 16).unwrap());
        if f.next().unwrap().contains('x') && here >= lo && here < hi {
            found = Some((lo, hi));
        }
    }
    let (lo, hi) = found.expect("own text");
    let seen = (lo..hi).map(|_| AtomicU8::new(0)).collect();
    let _ = TEXT.set(Text { lo, hi, seen });
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_step as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
}

#[inline(never)]
fn trap(on: bool) {
    unsafe {
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
}

pub fn name(what: u8) -> &'static str {
    if what & NO_AVX != 0 {
        "an AVX"
    } else if what & NO_AVX2 != 0 {
        "an AVX2"
    } else if what & NO_AVX512 != 0 {
        "an AVX-512"
    } else if what & NO_SSE41 != 0 {
        "an SSE4"
    } else {
        "an SSSE3"
    }
}

fn symbol(ip: u64) -> String {
    let t = TEXT.get().unwrap();
    let b: Vec<u8> = (0..8).map(|k| unsafe { (ip as *const u8).add(k).read() }).collect();
    format!("at text+{:#x}, bytes {}", ip as usize - t.lo, crate::gen::hex(&b))
}

fn stepped(ctx: &mut Ctx, f: fn(&mut Ctx) -> Res) -> Res {
    setup();
    let before = (STEPS.load(Ordering::Relaxed), OWN.load(Ordering::Relaxed), DISTINCT.load(Ordering::Relaxed));
    let (vex, sse) = (VEX.load(Ordering::Relaxed), SSE4.load(Ordering::Relaxed));
    ctx.oracle = false;
    trap(true);
    let r = crate::run::quiet(|| f(ctx));
    trap(false);
    ctx.add("instructions_stepped", STEPS.load(Ordering::Relaxed) - before.0);
    ctx.add("own_instructions_checked", OWN.load(Ordering::Relaxed) - before.1);
    ctx.add("distinct_instruction_addresses", DISTINCT.load(Ordering::Relaxed) - before.2);
    ctx.add("avx_instructions_seen", VEX.load(Ordering::Relaxed) - vex);
    ctx.add("sse4_instructions_seen", SSE4.load(Ordering::Relaxed) - sse);
    let ip = BAD_IP.swap(0, Ordering::Relaxed);
    if ip != 0 {
        let w = name(BAD_WHAT.load(Ordering::Relaxed));
        return bad(format!("{w} instruction is executed on a CPU that does not report it ({})", symbol(ip)));
    }
    match r {
        Ok(r) => r,
        Err(p) if p.harness => panic!("harness: {}", p.text),
        // Whether calls succeed is the unstepped kinds' business.
        Err(_) => Ok(()),
    }
}

/// Every public entry point with short inputs, every path of its tail handling.
fn calls(ctx: &mut Ctx) -> Res {
    use crate::gen;
    use blake2s_simd as b2;
    fn go(ctx: &mut Ctx) -> Res {
        const L: [usize; 8] = [0, 1, 64, 65, 128, 129, 200, 300];
        let n = L[(ctx.idx / 9 % 8) as usize];
        let d = ctx.data(n);
        let h = match ctx.idx % 9 {
            0 => b2::blake2s(d),
            1 => {
                let long = ctx.data(n * 5);
                b2::blake2sp::blake2sp(long)
            }
            2 => gen::lib_params(&gen::gen_p(&mut ctx.rng, true)).to_state().update(d).finalize(),
            3 => {
                let q = gen::gen_q(&mut ctx.rng);
                let long = ctx.data(n * 5);
                let mut s = gen::sp_params(&q).to_state();
                s.update(d).update(long);
                let _ = s.finalize();
                s.update(d).finalize()
            }
            4 => {
                let p = b2::Params::new();
                b2::hash8(&p, &p, &p, &p, &p, &p, &p, &p, d, d, d, &d[..n / 2], d, d, d, d)[7]
            }
            5 => {
                let p = gen::lib_params(&gen::gen_p(&mut ctx.rng, true));
                let e = ctx.data(64 * (n / 64 + 1));
                b2::hash8_exact(&p, e, e, e, e, e, e, e, e)[7]
            }
            6 => {
                let p = gen::lib_params(&gen::gen_p(&mut ctx.rng, true));
                let e = ctx.data(64 * (n / 64 + 1));
                b2::hash4_exact(&p, e, e, e, e)[3]
            }
            7 => {
                let mut e: [b2::State; 8] = std::array::from_fn(|_| b2::State::new());
                let [a, b, c, f, g, h, i, j] = &mut e;
                b2::update8(a, b, c, f, g, h, i, j, d, d, d, d, &d[n / 2..], d, d, d);
                b2::finalize8(a, b, c, f, g, h, i, j)[5]
            }
            _ => {
                let h = b2::blake2s(d);
                let other = b2::blake2s(&d[..n / 2]);
                let same = h == other && h == *other.as_bytes();
                ctx.observe(&[u8::from(same)]);
                ctx.observe(format!("{h:?}{}", h.to_hex()).as_bytes());
                let s = b2::State::new();
                ctx.observe(format!("{s:?}{}", s.count()).as_bytes());
                h
            }
        };
        ctx.observe(h.as_bytes());
        Ok(())
    }
    stepped(ctx, go)
}

fn lens(ctx: &mut Ctx) -> Res {
    stepped(ctx, hist::c11_lens)
}

fn history(ctx: &mut Ctx) -> Res {
    ctx.small = true;
    stepped(ctx, hist::c11_history)
}

#[cfg(feature = "std")]
fn io(ctx: &mut Ctx) -> Res {
    ctx.small = true;
    stepped(ctx, crate::props::io::adaptors)
}

/// Does stepping see anything: the handler must have counted the instructions of a known loop, and
/// the decoder must recognize one instruction of each family.
fn selftest(ctx: &mut Ctx) -> Res {
    setup();
    let known: [(&[u8], u8); 14] = [
        (&[0xc5, 0xf9, 0x6f, 0x07, 0, 0], NO_AVX),                          // vmovdqa xmm0, [rdi]
        (&[0xc5, 0xfd, 0xfe, 0xc1, 0, 0], NO_AVX | NO_AVX2),                // vpaddd ymm0, ymm0, ymm1
        (&[0xc5, 0xfd, 0x6f, 0x07, 0, 0], NO_AVX),                          // vmovdqa ymm0, [rdi]
        (&[0xc4, 0xe2, 0x7d, 0x00, 0xc1, 0], NO_AVX | NO_AVX2),             // vpshufb ymm
        (&[0xc4, 0xe3, 0x7d, 0x46, 0xc1, 0x31], NO_AVX | NO_AVX2),          // vperm2i128
        (&[0xc4, 0xe3, 0x7d, 0x06, 0xc1, 0x31], NO_AVX),                    // vperm2f128
        (&[0xc5, 0xf8, 0x77, 0, 0, 0], NO_AVX),                             // vzeroupper
        (&[0xc4, 0xe2, 0xf3, 0xf6, 0xc1, 0], 0),                            // mulx
        (&[0x66, 0x0f, 0x38, 0x00, 0xc1, 0], NO_SSSE3),                     // pshufb
        (&[0x66, 0x41, 0x0f, 0x3a, 0x0f, 0xc0, 0x08], NO_SSSE3),            // palignr
        (&[0x66, 0x0f, 0x3a, 0x0e, 0xc1, 0xf0], NO_SSE41),                  // pblendw
        (&[0x66, 0x0f, 0x3a, 0x22, 0xc0, 0x01], NO_SSE41),                  // pinsrd
        (&[0x66, 0x0f, 0xfe, 0xc1, 0, 0], 0),                               // paddd
        (&[0x62, 0xf1, 0x75, 0x28, 0x72, 0xc8, 0x10], NO_AVX512 | NO_AVX | NO_AVX2), // vprord
    ];
    for (b, want) in known {
        let mut buf = [0u8; 32];
        buf[..b.len()].copy_from_slice(b);
        let got = unsafe { needs(buf.as_ptr()) };
        if got != want {
            panic!("harness: {} decodes as {got:#x}, not {want:#x}", crate::gen::hex(b));
        }
    }
    let before = STEPS.load(Ordering::Relaxed);
    trap(true);
    let mut x = 0u64;
    for i in 0..100u64 {
        x = std::hint::black_box(x + i);
    }
    trap(false);
    let n = STEPS.load(Ordering::Relaxed) - before;
    if n < 200 {
        panic!("harness: single-stepping saw {n} instructions of at least 200");
    }
    ctx.add("self_test_steps", n);
    Ok(())
}

pub fn c12s() -> Vec<Kind> {
    vec![
        Kind { name: "self-test", total: 1, quick: 1, thorough: 1, miri: 0, f: selftest },
        Kind { name: "stepped-calls", total: 72, quick: 72, thorough: 72, miri: 0, f: calls },
        Kind { name: "stepped-histories", total: 0, quick: 6, thorough: 400, miri: 0, f: history },
        Kind { name: "stepped-lengths", total: 6 * 2500, quick: 0, thorough: 180, miri: 0, f: lens },
        #[cfg(feature = "std")]
        Kind { name: "stepped-io", total: 0, quick: 4, thorough: 200, miri: 0, f: io },
    ]
}
