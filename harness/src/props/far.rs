//! Messages of megabytes to gigabytes, through the interfaces of each property.
//!
//! The bytes are a few MiB mapped over and over, with a period that no power of two is a multiple
//! of, so that an offset cut to any number of bits reads other bytes.

use crate::gen::{self, Q};
use crate::props::multi;
use crate::run::{bad, Ctx, Kind, Res};
use crate::sys::Huge;
use crate::world::Model;
use blake2s_simd as b2;
use oracle::P;
use std::sync::OnceLock;

/// 1023 pages.
pub const PERIOD: usize = (4 << 20) - 4096;
const MAX: usize = (1 << 32) + PERIOD;

fn huge() -> &'static Huge {
    static H: OnceLock<Huge> = OnceLock::new();
    H.get_or_init(|| Huge::new(gen::pool().random(0, PERIOD), MAX + PERIOD))
}

fn text(ctx: &mut Ctx, len: usize) -> &'static [u8] {
    ctx.add("far_bytes", len as u64);
    huge().slice(ctx.rng.below(PERIOD as u64) as usize, len)
}

/// Most lengths are a few MiB, some tens or hundreds, a few gigabytes where one hasher does it.
fn far_len(ctx: &mut Ctx, lanes: u32) -> usize {
    let big = if cfg!(vh_san) || cfg!(debug_assertions) {
        24
    } else if lanes > 1 {
        25
    } else if ctx.idx % 24 == 9 {
        31
    } else {
        27
    };
    let k = match ctx.rng.below(10) {
        _ if big == 31 => 28 + ctx.rng.below(4),
        0..=5 => 22 + ctx.rng.below(2),
        6..=8 => 24 + ctx.rng.below(2),
        _ => 26 + ctx.rng.below(2),
    }
    .min(big);
    let styles = if k < 31 { 5 } else { 4 };
    let k = 1usize << k;
    match ctx.rng.below(styles) {
        0 => k,
        1 | 2 => k + ctx.rng.below(262) as usize - 131,
        3 => k + 64 * ctx.rng.below(66) as usize,
        _ => k + ctx.rng.below(k as u64) as usize,
    }
    .min(MAX)
}

fn some_p(ctx: &mut Ctx) -> P {
    let mut p = P::default();
    if ctx.rng.chance(1, 2) {
        p.key = gen::gen_key(&mut ctx.rng);
    }
    if ctx.rng.chance(1, 3) {
        p.digest = ctx.rng.range(1, 32) as usize;
    }
    if ctx.rng.chance(1, 4) {
        p = gen::gen_p(&mut ctx.rng, true);
    }
    p
}

fn whole(ctx: &mut Ctx) -> Res {
    let n = far_len(ctx, 1);
    let d = text(ctx, n);
    if ctx.rng.chance(1, 2) {
        ctx.tr(|| format!("blake2s of {n} bytes"));
        let h = b2::blake2s(d);
        return ctx.hash_eq(&format!("blake2s of {n} bytes"), &h, || oracle::blake2s(&P::default(), d));
    }
    let p = some_p(ctx);
    ctx.tr(|| format!("{n} bytes with {}", crate::world::describe(&p)));
    let h = gen::lib_params(&p).to_state().update(d).finalize();
    ctx.hash_eq(&format!("digest of {n} bytes"), &h, || oracle::blake2s(&p, d))
}

fn whole_sp(ctx: &mut Ctx) -> Res {
    let n = far_len(ctx, 1);
    let d = text(ctx, n);
    if ctx.rng.chance(1, 2) {
        ctx.tr(|| format!("blake2sp of {n} bytes"));
        let h = b2::blake2sp::blake2sp(d);
        return ctx.hash_eq(&format!("blake2sp of {n} bytes"), &h, || oracle::blake2sp(32, &[], d));
    }
    let q = gen::gen_q(&mut ctx.rng);
    ctx.tr(|| format!("BLAKE2sp of {n} bytes, key of {} bytes", q.key.len()));
    let h = gen::sp_params(&q).to_state().update(d).finalize();
    ctx.hash_eq(&format!("BLAKE2sp digest of {n} bytes"), &h, || oracle::blake2sp(q.digest, &q.key, d))
}

/// Cuts `n` bytes into a short head, huge pieces and a short tail.
fn cuts(ctx: &mut Ctx, n: usize) -> Vec<usize> {
    let mut v = vec![ctx.rng.below(1300) as usize];
    let mut left = n.saturating_sub(v[0]);
    let k = ctx.rng.range(1, 3);
    for i in 0..k {
        let c = if i + 1 == k { left } else { ctx.rng.below(left as u64 + 1) as usize };
        v.push(c);
        left -= c;
    }
    v.push(ctx.rng.below(1300) as usize);
    v
}

fn in_pieces(ctx: &mut Ctx) -> Res {
    let n = far_len(ctx, 1);
    let p = some_p(ctx);
    let v = cuts(ctx, n);
    ctx.tr(|| format!("{}: pieces of {v:?}", crate::world::describe(&p)));
    let mut s = gen::lib_params(&p).to_state();
    let mut m = Model::new(p, 1);
    for c in v {
        let d = text(ctx, c);
        s.update(d);
        m.feed(ctx.oracle, d);
        if ctx.rng.chance(1, 2) {
            let h = s.finalize();
            ctx.hash_eq(&format!("digest after {} bytes", m.count), &h, || m.digest())?;
        }
    }
    let h = s.finalize();
    ctx.hash_eq(&format!("digest after {} bytes", m.count), &h, || m.digest())
}

fn sp_in_pieces(ctx: &mut Ctx) -> Res {
    let n = far_len(ctx, 1);
    let q = gen::gen_q(&mut ctx.rng);
    let v = cuts(ctx, n);
    ctx.tr(|| format!("BLAKE2sp, key of {} bytes: pieces of {v:?}", q.key.len()));
    let mut s = gen::sp_params(&q).to_state();
    let mut o = oracle::Sp::new(q.digest, &q.key);
    let mut total = 0;
    for c in v {
        let d = text(ctx, c);
        s.update(d);
        if ctx.oracle {
            o.feed(d);
        }
        total += c;
        if ctx.rng.chance(1, 2) {
            let h = s.finalize();
            ctx.hash_eq(&format!("BLAKE2sp digest after {total} bytes"), &h, || o.finish())?;
        }
    }
    let h = s.finalize();
    ctx.hash_eq(&format!("BLAKE2sp digest after {total} bytes"), &h, || o.finish())
}

/// Lengths of eight inputs of which at least one is far.
fn far_lens(ctx: &mut Ctx) -> [usize; 8] {
    let n = far_len(ctx, 8);
    let style = ctx.rng.below(4);
    let lane = ctx.rng.below(8) as usize;
    std::array::from_fn(|i| match style {
        0 => n,
        1 => n + ctx.rng.below(200) as usize,
        2 if i == lane => ctx.rng.below(200) as usize,
        2 => n,
        _ if i == lane => n,
        _ => ctx.rng.below(5000) as usize,
    })
}

fn update8(ctx: &mut Ctx) -> Res {
    let mut st = multi::eight_states(ctx);
    let pre: [&'static [u8]; 8] = std::array::from_fn(|_| {
        let n = ctx.rng.below(140) as usize;
        ctx.data(n)
    });
    multi::up8(ctx, &mut st, &pre);
    let lens = far_lens(ctx);
    let d: [&'static [u8]; 8] = std::array::from_fn(|i| text(ctx, lens[i]));
    multi::up8(ctx, &mut st, &d);
    multi::fin8(ctx, &mut st)
}

fn hash8(ctx: &mut Ctx) -> Res {
    let lens = far_lens(ctx);
    let ps: [P; 8] = std::array::from_fn(|_| gen::gen_p(&mut ctx.rng, false));
    let q: [b2::Params; 8] = std::array::from_fn(|i| gen::lib_params(&ps[i]));
    let d: [&'static [u8]; 8] = std::array::from_fn(|i| text(ctx, lens[i]));
    ctx.tr(|| format!("hash8 of {lens:?} bytes"));
    let hs = b2::hash8(&q[0], &q[1], &q[2], &q[3], &q[4], &q[5], &q[6], &q[7], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]);
    for (i, h) in hs.iter().enumerate() {
        ctx.hash_eq(&format!("hash8, input {i} of {lens:?}"), h, || oracle::blake2s(&ps[i], d[i]))?;
    }
    Ok(())
}

fn exact(ctx: &mut Ctx) -> Res {
    let n = (far_len(ctx, 8) / 64).max(1) * 64;
    let p = some_p(ctx);
    let q = gen::lib_params(&p);
    let d: [&'static [u8]; 8] = std::array::from_fn(|_| text(ctx, n));
    let w = if ctx.rng.chance(1, 2) { 4 } else { 8 };
    ctx.tr(|| format!("hash{w}_exact of {n} bytes with {}", crate::world::describe(&p)));
    let hs = if w == 4 {
        b2::hash4_exact(&q, d[0], d[1], d[2], d[3]).to_vec()
    } else {
        b2::hash8_exact(&q, d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]).to_vec()
    };
    for (i, h) in hs.iter().enumerate() {
        ctx.hash_eq(&format!("hash{w}_exact of {n} bytes, input {i}"), h, || oracle::blake2s(&p, d[i]))?;
    }
    Ok(())
}

/// Lengths that agree only in their low 20 to 32 bits must be refused.
fn exact_refused(ctx: &mut Ctx) -> Res {
    let n = if ctx.rng.chance(1, 2) { 4 } else { 8 };
    let base = 64 * ctx.rng.range(1, 6) as usize;
    let mut l = vec![base; n];
    let far = 1usize << ctx.rng.range(20, 32);
    match ctx.rng.below(3) {
        0 => l[ctx.rng.below(n as u64) as usize] += far,
        1 => l = vec![far + ctx.rng.range(1, 63) as usize; n],
        _ => {
            l = vec![base + far; n];
            l[ctx.rng.below(n as u64) as usize] = base;
        }
    }
    let d: Vec<&'static [u8]> = l.iter().map(|&x| huge().slice(0, x)).collect();
    let q = gen::lib_params(&some_p(ctx));
    ctx.tr(|| format!("hash{n}_exact with lengths {l:?}"));
    ctx.add("refused_calls", 1);
    let r = ctx.panics(|| {
        if n == 4 {
            b2::hash4_exact(&q, d[0], d[1], d[2], d[3]).to_vec()
        } else {
            b2::hash8_exact(&q, d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]).to_vec()
        }
    });
    ctx.observe(&[u8::from(r.is_some())]);
    if r.is_some() && ctx.oracle {
        return bad(format!("hash{n}_exact answers the invalid lengths {l:?}"));
    }
    Ok(())
}

#[cfg(feature = "std")]
fn written(ctx: &mut Ctx) -> Res {
    use std::io::Write;
    let n = far_len(ctx, 1);
    let d = text(ctx, n);
    fn go<S: Write>(ctx: &mut Ctx, s: &mut S, d: &[u8]) -> Res {
        let how = ctx.rng.below(3);
        ctx.tr(|| format!("{} bytes, way {how}", d.len()));
        let r = match how {
            0 => s.write(d),
            1 => s.write_all(d).map(|()| d.len()),
            _ => std::io::copy(&mut std::io::Cursor::new(d), s).map(|n| n as usize),
        };
        match r {
            Ok(m) if m == d.len() => Ok(()),
            r if ctx.oracle => bad(format!("writing {} bytes returned {r:?}", d.len())),
            _ => Ok(()),
        }
    }
    if ctx.rng.chance(1, 2) {
        let q: Q = gen::gen_q(&mut ctx.rng);
        let mut s = gen::sp_params(&q).to_state();
        go(ctx, &mut s, d)?;
        ctx.count_eq("count", s.count(), n as u64)?;
        let h = s.finalize();
        ctx.hash_eq(&format!("BLAKE2sp digest of {n} bytes written"), &h, || oracle::blake2sp(q.digest, &q.key, d))
    } else {
        let p = some_p(ctx);
        let mut s = gen::lib_params(&p).to_state();
        go(ctx, &mut s, d)?;
        ctx.count_eq("count", s.count(), n as u64)?;
        let h = s.finalize();
        ctx.hash_eq(&format!("digest of {n} bytes written"), &h, || oracle::blake2s(&p, d))
    }
}

/// C22: far lengths on a thread with a small stack; CPU time stays linear.
fn returns(ctx: &mut Ctx) -> Res {
    let (idx, which) = (ctx.idx, ctx.idx % 6);
    let lanes = if which < 3 { 1 } else { 8 };
    let n = far_len(ctx, lanes).min(1 << 28);
    let d = text(ctx, n);
    let cut = ctx.rng.below(n as u64 + 1) as usize;
    ctx.tr(|| format!("{n} bytes through interface {which} on a stack of 1 MiB"));
    let t = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
        crate::sys::set_kind(0, "far-lengths");
        crate::sys::set_case(0, idx);
        let t0 = crate::sys::thread_cpu_ns();
        let p = b2::Params::new();
        match which {
            0 => {
                let mut s = b2::State::new();
                s.update(&d[..cut]);
                s.update(&d[cut..]);
                s.finalize();
            }
            1 => {
                let mut s = b2::blake2sp::State::new();
                s.update(&d[..cut]);
                s.update(&d[cut..]);
                s.finalize();
            }
            2 => {
                b2::blake2s(d);
                b2::blake2sp::blake2sp(d);
            }
            3 => {
                b2::hash8(&p, &p, &p, &p, &p, &p, &p, &p, d, d, &d[cut..], d, d, d, d, &d[..cut]);
            }
            4 => {
                let e = &d[..n / 64 * 64];
                b2::hash8_exact(&p, e, e, e, e, e, e, e, e);
                b2::hash4_exact(&p, e, e, e, e);
            }
            _ => {
                let mut v: [b2::State; 8] = std::array::from_fn(|_| b2::State::new());
                let [a, b, c, e, f, g, h, i] = &mut v;
                b2::update8(a, b, c, e, f, g, h, i, d, d, d, &d[cut..], d, &d[..cut], d, d);
                b2::finalize8(a, b, c, e, f, g, h, i);
            }
        }
        crate::sys::thread_cpu_ns() - t0
    });
    let ns = match t.expect("thread").join() {
        Ok(ns) => ns,
        Err(_) => return bad(format!("{n} bytes through interface {which}: panicked")),
    };
    let per_byte = if cfg!(debug_assertions) || cfg!(vh_san) { 60_000 } else { 600 };
    ctx.add("timed_bytes", n as u64);
    if ns > 100_000_000 + n as u64 * per_byte {
        return bad(format!("{n} bytes through interface {which} took {ns} ns of CPU time"));
    }
    Ok(())
}

pub fn kind(f: fn(&mut Ctx) -> Res, quick: u64) -> Kind {
    Kind { name: "far-lengths", total: 0, quick, thorough: quick * 40, miri: 0, f }
}

pub fn c01() -> Kind {
    kind(whole, 20)
}
pub fn c04() -> Kind {
    kind(in_pieces, 40)
}
pub fn c05() -> Kind {
    kind(whole_sp, 20)
}
pub fn c06() -> Kind {
    kind(sp_in_pieces, 50)
}
pub fn c07() -> Kind {
    kind(update8, 10)
}
pub fn c08() -> Kind {
    kind(exact, 8)
}
pub fn c08_refused() -> Kind {
    Kind { name: "far-lengths-refused", total: 0, quick: 400, thorough: 20_000, miri: 0, f: exact_refused }
}
pub fn c09() -> Kind {
    kind(hash8, 8)
}
pub fn c22() -> Kind {
    kind(returns, 24)
}
#[cfg(feature = "std")]
pub fn c23() -> Kind {
    kind(written, 16)
}
