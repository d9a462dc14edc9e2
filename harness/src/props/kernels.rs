//! C10: the implementations exposed for benchmarks, called directly.
#![allow(unused_unsafe)]

use crate::gen;
use crate::run::{bad, Ctx, Kind, Res};
use blake2s_simd::benchmarks as bm;

type H = [[u32; 8]; 8];

/// Inputs of eight compressions; blocks and states sit at unaligned addresses chosen per case.
pub struct Job {
    pub h: H,
    pub m: [[u8; 64]; 8],
    pub t: [u64; 8],
    pub f0: [u32; 8],
    pub f1: [u32; 8],
    off: usize,
    hoff: usize,
}

/// The blocks at their (mis)aligned places.
struct Blocks {
    raw: Vec<u8>,
    at: [usize; 8],
}

impl Blocks {
    fn new(j: &Job) -> Blocks {
        let mut raw = vec![0u8; 8 * 128 + 64];
        let mut at = [0; 8];
        for i in 0..8 {
            at[i] = i * 128 + (j.off >> (i % 3)) % 64;
            raw[at[i]..at[i] + 64].copy_from_slice(&j.m[i]);
        }
        Blocks { raw, at }
    }
    fn get(&self, i: usize) -> &[u8; 64] {
        self.raw[self.at[i]..self.at[i] + 64].try_into().unwrap()
    }
}

/// Chaining values at word-aligned, otherwise arbitrary addresses.
struct Words {
    raw: Vec<u32>,
    at: [usize; 8],
}

impl Words {
    fn new(j: &Job) -> Words {
        let mut raw = vec![0u32; 8 * 16 + 16];
        let mut at = [0; 8];
        for i in 0..8 {
            at[i] = i * 16 + (j.hoff + i * 3) % 8;
            raw[at[i]..at[i] + 8].copy_from_slice(&j.h[i]);
        }
        Words { raw, at }
    }
    fn one(&mut self, i: usize) -> &mut [u32; 8] {
        (&mut self.raw[self.at[i]..self.at[i] + 8]).try_into().unwrap()
    }
    fn eight(&mut self) -> [&mut [u32; 8]; 8] {
        let at = self.at;
        let mut it = self.raw.chunks_mut(16).enumerate();
        std::array::from_fn(|_| {
            let (i, c) = it.next().unwrap();
            let o = at[i] - i * 16;
            (&mut c[o..o + 8]).try_into().unwrap()
        })
    }
    fn out(&self) -> H {
        std::array::from_fn(|i| self.raw[self.at[i]..self.at[i] + 8].try_into().unwrap())
    }
}

macro_rules! call8 {
    ($f:path, $j:expr) => {{
        let b = Blocks::new($j);
        let mut w = Words::new($j);
        {
            let [h0, h1, h2, h3, h4, h5, h6, h7] = w.eight();
            let (t, f, g) = (&$j.t, &$j.f0, &$j.f1);
            unsafe {
                $f(
                    h0, h1, h2, h3, h4, h5, h6, h7, b.get(0), b.get(1), b.get(2), b.get(3), b.get(4), b.get(5), b.get(6), b.get(7),
                    t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], g[0], g[1],
                    g[2], g[3], g[4], g[5], g[6], g[7],
                )
            }
        }
        w.out()
    }};
}

fn portable1(j: &Job) -> H {
    let b = Blocks::new(j);
    let mut w = Words::new(j);
    for i in 0..8 {
        unsafe { bm::compress_portable(w.one(i), b.get(i), j.t[i], j.f0[i], j.f1[i]) }
    }
    w.out()
}

fn portable8(j: &Job) -> H {
    call8!(bm::compress8_portable, j)
}

#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
mod x86 {
    use super::*;
    use blake2s_simd::AlignedWords8;
    #[cfg(target_arch = "x86")]
    use core::arch::x86::*;
    #[cfg(target_arch = "x86_64")]
    use core::arch::x86_64::*;
    use std::mem::transmute;

    pub fn sse41(j: &Job) -> H {
        let b = Blocks::new(j);
        let mut w = Words::new(j);
        for i in 0..8 {
            unsafe { bm::compress_sse41(w.one(i), b.get(i), j.t[i], j.f0[i], j.f1[i]) }
        }
        w.out()
    }

    pub fn avx2_8(j: &Job) -> H {
        call8!(bm::compress8_avx2, j)
    }

    pub fn sse41_4t(j: &Job) -> H {
        let b = Blocks::new(j);
        let mut out = j.h;
        for g in 0..2 {
            let l = |f: &dyn Fn(usize) -> u32| -> __m128i { unsafe { transmute::<[u32; 4], __m128i>(std::array::from_fn(|i| f(4 * g + i))) } };
            let mut v: [__m128i; 8] = std::array::from_fn(|k| l(&|i| j.h[i][k]));
            unsafe {
                bm::compress4_transposed_sse41(
                    &mut v,
                    b.get(4 * g),
                    b.get(4 * g + 1),
                    b.get(4 * g + 2),
                    b.get(4 * g + 3),
                    l(&|i| j.t[i] as u32),
                    l(&|i| (j.t[i] >> 32) as u32),
                    l(&|i| j.f0[i]),
                    l(&|i| j.f1[i]),
                );
            }
            for k in 0..8 {
                let w: [u32; 4] = unsafe { transmute(v[k]) };
                for i in 0..4 {
                    out[4 * g + i][k] = w[i];
                }
            }
        }
        out
    }

    fn words(f: impl Fn(usize) -> u32) -> [u32; 8] {
        std::array::from_fn(f)
    }

    pub fn avx2_8t(j: &Job) -> H {
        let v = |w: [u32; 8]| -> __m256i { unsafe { transmute(w) } };
        let mut h: [__m256i; 8] = std::array::from_fn(|k| v(words(|i| j.h[i][k])));
        let m: [__m256i; 16] =
            std::array::from_fn(|k| v(words(|i| u32::from_le_bytes(j.m[i][4 * k..4 * k + 4].try_into().unwrap()))));
        unsafe {
            bm::compress8_transposed_all_avx2(
                &mut h,
                &m,
                v(words(|i| j.t[i] as u32)),
                v(words(|i| (j.t[i] >> 32) as u32)),
                v(j.f0),
                v(j.f1),
            );
        }
        untranspose(std::array::from_fn(|k| unsafe { transmute::<__m256i, [u32; 8]>(h[k]) }))
    }

    pub fn avx2_8v(j: &Job) -> H {
        let b = Blocks::new(j);
        let mut h: [AlignedWords8; 8] = std::array::from_fn(|k| AlignedWords8(words(|i| j.h[i][k])));
        unsafe {
            bm::compress8_vectorized_avx2(
                &mut h,
                b.get(0),
                b.get(1),
                b.get(2),
                b.get(3),
                b.get(4),
                b.get(5),
                b.get(6),
                b.get(7),
                &AlignedWords8(words(|i| j.t[i] as u32)),
                &AlignedWords8(words(|i| (j.t[i] >> 32) as u32)),
                &AlignedWords8(j.f0),
                &AlignedWords8(j.f1),
            );
        }
        untranspose(std::array::from_fn(|k| h[k].0))
    }

    fn untranspose(x: H) -> H {
        std::array::from_fn(|i| std::array::from_fn(|k| x[k][i]))
    }
}

pub fn impls() -> Vec<(&'static str, fn(&Job) -> H)> {
    let mut v: Vec<(&'static str, fn(&Job) -> H)> = vec![("portable", portable1), ("portable 8-way", portable8)];
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    {
        if is_x86_feature_detected!("sse4.1") {
            v.push(("SSE4.1", x86::sse41));
            v.push(("SSE4.1 4-way transposed", x86::sse41_4t));
        }
        if is_x86_feature_detected!("avx2") {
            v.push(("AVX2 8-way", x86::avx2_8));
            v.push(("AVX2 8-way transposed", x86::avx2_8t));
            v.push(("AVX2 8-way vectorized", x86::avx2_8v));
        }
    }
    v
}

const COUNTS: [u64; 20] = [
    0,
    1,
    63,
    64,
    65,
    128,
    0x7fff_ffff,
    0x8000_0000,
    0xffff_ffbf,
    0xffff_ffff,
    0x1_0000_0000,
    0x1_0000_0040,
    0x7fff_ffff_ffff_ffff,
    0x8000_0000_0000_0000,
    0xffff_ffff_0000_0000,
    0xffff_ffff_ffff_ffff,
    0x1_ffff_ffff,
    0x100_0000_0000,
    0x8000_0000_8000_0000,
    0x0123_4567_89ab_cdef,
];

fn gen_t(ctx: &mut Ctx) -> u64 {
    match ctx.rng.below(5) {
        0 => *ctx.rng.pick(&COUNTS),
        4 => gen::dict_u64(&mut ctx.rng).unwrap_or(64) << [0, 0, 6, 32][ctx.rng.below(4) as usize],
        1 => ctx.rng.below(1 << 20) * 64,
        2 => ctx.rng.u64() >> ctx.rng.below(64),
        _ => ctx.rng.u64(),
    }
}

fn flag(ctx: &mut Ctx) -> u32 {
    if ctx.rng.chance(1, 2) {
        !0
    } else {
        0
    }
}

fn lane(ctx: &mut Ctx, j: &mut Job, i: usize) {
    match ctx.rng.below(8) {
        0 => j.h[i] = [*ctx.rng.pick(&[0u32, !0, 1, 0x8000_0000]); 8],
        1 => j.h[i] = oracle::IV,
        _ => j.h[i].iter_mut().for_each(|w| *w = ctx.rng.u64() as u32),
    }
    match ctx.rng.below(8) {
        0 => j.m[i] = [*ctx.rng.pick(&[0u8, 0xff, 0x80, 1]); 64],
        1 => {
            let d = ctx.data(64);
            j.m[i].copy_from_slice(d);
        }
        _ => ctx.rng.fill(&mut j.m[i]),
    }
    if ctx.rng.chance(1, 8) {
        // Words from the code, in a place or two.
        for _ in 0..ctx.rng.range(1, 3) {
            let w = gen::dict_word(&mut ctx.rng);
            let k = ctx.rng.below(24) as usize;
            if k < 8 {
                j.h[i][k] = w;
            } else {
                j.m[i][4 * (k - 8)..][..4].copy_from_slice(&w.to_le_bytes());
            }
        }
    }
    j.t[i] = gen_t(ctx);
    j.f0[i] = flag(ctx);
    j.f1[i] = flag(ctx);
}

fn blank(ctx: &mut Ctx) -> Job {
    Job {
        h: [[0; 8]; 8],
        m: [[0; 64]; 8],
        t: [0; 8],
        f0: [0; 8],
        f1: [0; 8],
        off: ctx.rng.below(64) as usize,
        hoff: ctx.rng.below(8) as usize,
    }
}

fn check(ctx: &mut Ctx, j: &Job) -> Res {
    let want: H = std::array::from_fn(|i| {
        let mut h = j.h[i];
        oracle::compress(&mut h, &j.m[i], j.t[i], j.f0[i], j.f1[i]);
        h
    });
    ctx.tr(|| format!("lane 0: h={:08x?} m={} t={:#x} f0={:x} f1={:x}; counters {:x?}", j.h[0], gen::hex(&j.m[0]), j.t[0], j.f0[0], j.f1[0], j.t));
    for (name, f) in impls() {
        let got = f(j);
        ctx.add("compressions_checked", 8);
        for i in 0..8 {
            for w in got[i] {
                let b = w.to_le_bytes();
                ctx.observe(&b);
            }
            if got[i] != want[i] {
                return bad(format!(
                    "{name}, lane {i}: h={:08x?} block={} counter={:#x} flags={:08x},{:08x} gives {:08x?} instead of {:08x?}",
                    j.h[i],
                    gen::hex(&j.m[i]),
                    j.t[i],
                    j.f0[i],
                    j.f1[i],
                    got[i],
                    want[i]
                ));
            }
        }
    }
    Ok(())
}

fn random(ctx: &mut Ctx) -> Res {
    let mut j = blank(ctx);
    for i in 0..8 {
        lane(ctx, &mut j, i);
    }
    check(ctx, &j)
}

/// One bit set (or clear) in one input of one lane, the other lanes constant: 8 lanes x
/// (256 state + 512 message + 64 counter + 2 flag) bits x 2 polarities.
const BITS: u64 = 256 + 512 + 64 + 2;
fn one_bit(ctx: &mut Ctx) -> Res {
    let l = (ctx.idx % 8) as usize;
    let bit = (ctx.idx / 8 % BITS) as usize;
    let inv = ctx.idx / 8 / BITS == 1;
    let mut j = blank(ctx);
    if inv {
        j.h = [[!0; 8]; 8];
        j.m = [[0xff; 64]; 8];
        j.t = [!0; 8];
        j.f0 = [!0; 8];
        j.f1 = [!0; 8];
    }
    match bit {
        0..=255 => j.h[l][bit / 32] ^= 1 << (bit % 32),
        256..=767 => j.m[l][(bit - 256) / 8] ^= 1 << (bit % 8),
        768..=831 => j.t[l] ^= 1 << (bit - 768),
        832 => j.f0[l] = !j.f0[l],
        _ => j.f1[l] = !j.f1[l],
    }
    check(ctx, &j)
}

/// One busy lane among constant ones, and the reverse.
fn isolation(ctx: &mut Ctx) -> Res {
    let l = (ctx.idx % 8) as usize;
    let mut j = blank(ctx);
    if ctx.idx / 8 % 2 == 0 {
        lane(ctx, &mut j, l);
    } else {
        for i in 0..8 {
            if i != l {
                lane(ctx, &mut j, i);
            }
        }
    }
    check(ctx, &j)
}

/// Counters: every pair of edge values in two lanes.
fn counters(ctx: &mut Ctx) -> Res {
    let mut j = blank(ctx);
    for i in 0..8 {
        lane(ctx, &mut j, i);
    }
    let n = COUNTS.len() as u64;
    let l = ctx.rng.below(8) as usize;
    j.t = [COUNTS[(ctx.idx % n) as usize]; 8];
    j.t[l] = COUNTS[(ctx.idx / n % n) as usize];
    check(ctx, &j)
}

/// Chains: the output state is the next input, as in real hashing.
fn chain(ctx: &mut Ctx) -> Res {
    let mut j = blank(ctx);
    for i in 0..8 {
        lane(ctx, &mut j, i);
        j.f0[i] = 0;
        j.f1[i] = 0;
    }
    let n = if ctx.small { 2 } else { 20 };
    for _ in 0..n {
        check(ctx, &j)?;
        for i in 0..8 {
            oracle::compress(&mut j.h[i], &j.m[i], j.t[i], j.f0[i], j.f1[i]);
            ctx.rng.fill(&mut j.m[i]);
            j.t[i] = j.t[i].wrapping_add(64);
        }
    }
    Ok(())
}

pub fn c10() -> Vec<Kind> {
    vec![
        Kind { name: "one-bit", total: 16 * BITS, quick: 16 * BITS, thorough: 16 * BITS, miri: 10, f: one_bit },
        Kind { name: "counter-pairs", total: 20 * 20 * 10, quick: 4000, thorough: 4000, miri: 10, f: counters },
        Kind { name: "lane-isolation", total: 0, quick: 20_000, thorough: 400_000, miri: 10, f: isolation },
        Kind { name: "random", total: 0, quick: 300_000, thorough: 20_000_000, miri: 20, f: random },
        Kind { name: "chains", total: 0, quick: 5_000, thorough: 300_000, miri: 4, f: chain },
    ]
}
