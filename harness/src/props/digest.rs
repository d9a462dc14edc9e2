//! C01 and C05: single digests against the specification.

use crate::gen::{self, Q, EDGES};
use crate::run::{Ctx, Kind, Res};
use blake2s_simd as b2;
use oracle::P;

fn dash(b: &[u8]) -> String {
    if b.is_empty() {
        "-".into()
    } else {
        gen::hex(b)
    }
}

pub fn record_s(ctx: &mut Ctx, p: &P, msg: &[u8], got: &[u8]) {
    if msg.len() <= 20000 {
        ctx.record(|| {
            format!(
                "b2s {} {} {} {} {} {} {} {} {} {} {} {} {}",
                p.digest,
                dash(&p.key),
                gen::hex(&p.salt),
                gen::hex(&p.personal),
                p.fanout,
                p.depth,
                p.leaf,
                p.offset,
                p.node_depth,
                p.inner,
                u8::from(p.last_node),
                dash(msg),
                gen::hex(got)
            )
        });
    }
}

pub fn record_sp(ctx: &mut Ctx, q: &Q, msg: &[u8], got: &[u8]) {
    if msg.len() <= 20000 {
        ctx.record(|| format!("b2sp {} {} {} {}", q.digest, dash(&q.key), dash(msg), gen::hex(got)));
    }
}

/// One BLAKE2s digest through parameters (or the one-shot function when they are the default).
pub fn one(ctx: &mut Ctx, p: &P, msg: &[u8]) -> Res {
    let default = *p == P::default();
    ctx.tr(|| format!("blake2s of {} with {}", gen::short(msg), crate::world::describe(p)));
    ctx.add("bytes_hashed", msg.len() as u64);
    let h = gen::lib_params(p).to_state().update(msg).finalize();
    record_s(ctx, p, msg, h.as_bytes());
    ctx.hash_eq("digest", &h, || oracle::blake2s(p, msg))?;
    if default {
        let h = b2::blake2s(msg);
        ctx.hash_eq("one-shot digest", &h, || oracle::blake2s(p, msg))?;
    }
    Ok(())
}

pub fn one_sp(ctx: &mut Ctx, q: &Q, msg: &[u8]) -> Res {
    ctx.tr(|| format!("blake2sp of {} with hash_length={} key={}", gen::short(msg), q.digest, gen::hex(&q.key)));
    ctx.add("bytes_hashed", msg.len() as u64);
    let h = gen::sp_params(q).to_state().update(msg).finalize();
    record_sp(ctx, q, msg, h.as_bytes());
    ctx.hash_eq("digest", &h, || oracle::blake2sp(q.digest, &q.key, msg))?;
    if q.digest == 32 && q.key.is_empty() {
        let h = b2::blake2sp::blake2sp(msg);
        ctx.hash_eq("one-shot digest", &h, || oracle::blake2sp(32, &[], msg))?;
    }
    Ok(())
}

fn pq(p: &P) -> Q {
    Q { digest: p.digest, key: p.key.clone() }
}

/// Both algorithms share the workloads; `sp` selects.
fn go(ctx: &mut Ctx, sp: bool, p: &P, msg: &[u8]) -> Res {
    if sp {
        one_sp(ctx, &pq(p), msg)
    } else {
        one(ctx, p, msg)
    }
}

const LENS: u64 = 4300;

/// Every length, as default / keyed / random digest length.
fn lens(ctx: &mut Ctx, sp: bool) -> Res {
    let len = (ctx.idx / 3) as usize;
    let mut p = P::default();
    match ctx.idx % 3 {
        0 => {}
        1 => p.key = gen::gen_key(&mut ctx.rng),
        _ => {
            p.digest = ctx.rng.range(1, 32) as usize;
            if ctx.rng.chance(1, 2) {
                p.key = gen::gen_key(&mut ctx.rng);
            }
        }
    }
    let msg = ctx.data(len);
    go(ctx, sp, &p, msg)
}

const KD_LENS: [usize; 12] = [0, 1, 32, 63, 64, 65, 128, 129, 513, 960, 961, 1100];

fn key_digest(ctx: &mut Ctx, sp: bool) -> Res {
    let klen = (ctx.idx % 33) as usize;
    let digest = (ctx.idx / 33 % 32) as usize + 1;
    let len = KD_LENS[(ctx.idx / 33 / 32) as usize];
    let mut key = vec![0; klen];
    ctx.rng.fill(&mut key);
    let p = P { key, digest, ..P::default() };
    let msg = ctx.data(len);
    go(ctx, sp, &p, msg)
}

/// Messages with one bit set, or one bit clear, at every position of three blocks (every block of
/// one and a half stripes for BLAKE2sp).
fn onehot(ctx: &mut Ctx, sp: bool) -> Res {
    let n = if sp { 768 } else { 192 };
    let bit = (ctx.idx / 2) as usize;
    let inv = ctx.idx % 2 == 1;
    let mut m = vec![if inv { 0xff } else { 0u8 }; n];
    m[bit / 8] ^= 1 << (bit % 8);
    // Sometimes the message stops right behind the bit.
    if ctx.rng.chance(1, 3) {
        m.truncate(bit / 8 + 1);
    }
    go(ctx, sp, &P::default(), &m)
}

fn onehot_key(ctx: &mut Ctx, sp: bool) -> Res {
    let bit = (ctx.idx / 4) as usize;
    let inv = ctx.idx % 2 == 1;
    let long = ctx.idx / 2 % 2 == 1;
    let mut key = vec![if inv { 0xff } else { 0u8 }; 32];
    key[bit / 8] ^= 1 << (bit % 8);
    if ctx.rng.chance(1, 2) {
        key.truncate(bit / 8 + 1);
    }
    let msg = ctx.data(if long { 1200 } else { 0 });
    go(ctx, sp, &P { key, ..P::default() }, msg)
}

/// Every alignment of the message for many lengths.
fn align(ctx: &mut Ctx, sp: bool) -> Res {
    let off = (ctx.idx % 64) as usize;
    let len = if sp { (ctx.idx / 64) as usize * 37 } else { (ctx.idx / 64) as usize };
    let base = gen::pool().random(0, gen::pool().size);
    let adjust = base.as_ptr().align_offset(64) + off;
    let msg = &base[adjust..adjust + len];
    go(ctx, sp, &P::default(), msg)
}

/// Message words drawn from values at the edges of 32-bit arithmetic.
fn words(ctx: &mut Ctx, sp: bool) -> Res {
    const W: [u32; 10] = [0, 1, !0, 0x8000_0000, 0x7fff_ffff, 0xffff, 0xffff_0000, 0x0001_0000, 0xaaaa_aaaa, 0x5555_5555];
    let n = ctx.len(if sp { 1500 } else { 400 });
    let mut m = Vec::with_capacity(n + 4);
    let k = ctx.rng.range(1, 10);
    while m.len() < n {
        let w = if ctx.rng.chance(1, 6) { gen::dict_word(&mut ctx.rng) } else { W[ctx.rng.below(k) as usize] };
        m.extend_from_slice(&w.to_le_bytes());
    }
    m.truncate(n);
    let p = P { key: if ctx.rng.chance(1, 4) { gen::gen_key(&mut ctx.rng) } else { vec![] }, ..P::default() };
    go(ctx, sp, &p, &m)
}

fn random(ctx: &mut Ctx, sp: bool) -> Res {
    let len = ctx.len(1 << 17);
    let mut p = P::default();
    if ctx.rng.chance(1, 2) {
        p.key = gen::gen_key(&mut ctx.rng);
    }
    if ctx.rng.chance(1, 2) {
        p.digest = ctx.rng.range(1, 32) as usize;
    }
    let msg = ctx.data(len);
    go(ctx, sp, &p, msg)
}

/// Lengths around powers of two, where a narrower counter or length would wrap.
fn width(ctx: &mut Ctx, sp: bool) -> Res {
    let k = 8 + ctx.idx / 131;
    let len = (1usize << k) + (ctx.idx % 131) as usize - 65;
    let p = P { key: if ctx.rng.chance(1, 3) { gen::gen_key(&mut ctx.rng) } else { vec![] }, ..P::default() };
    let msg = ctx.data(len);
    go(ctx, sp, &p, msg)
}

/// The widest sweep of the thorough tier: every length up to 64 KiB.
fn sweep(ctx: &mut Ctx, sp: bool) -> Res {
    let msg = ctx.data(ctx.idx as usize);
    let p = P { key: if ctx.rng.chance(1, 3) { gen::gen_key(&mut ctx.rng) } else { vec![] }, ..P::default() };
    go(ctx, sp, &p, msg)
}

/// Values of the final bytes of a block and of the padding's surroundings: short messages over a
/// dirty heap, where stale bytes would matter.
fn edges(ctx: &mut Ctx, sp: bool) -> Res {
    let len = EDGES[(ctx.idx % EDGES.len() as u64) as usize];
    let mut p = gen::gen_p(&mut ctx.rng, true);
    if !sp {
        let keep = P { digest: p.digest, key: p.key.clone(), ..P::default() };
        p = keep;
    }
    let msg = ctx.data(len);
    go(ctx, sp, &p, msg)
}

/// BLAKE2sp parameters set in any order, again and again; hashers made on the way keep the values of
/// their time.
fn sp_setters(ctx: &mut Ctx) -> Res {
    let mut m = Q { digest: 32, key: vec![] };
    let mut q = if ctx.rng.chance(1, 2) { b2::blake2sp::Params::new() } else { b2::blake2sp::Params::default() };
    let mut early: Vec<(b2::blake2sp::State, Q)> = vec![];
    for _ in 0..ctx.rng.range(1, 10) {
        match ctx.rng.below(8) {
            0..=2 => {
                m.key = if ctx.rng.chance(1, 5) { vec![] } else { gen::gen_key(&mut ctx.rng) };
                q.key(&m.key);
            }
            3..=5 => {
                m.digest = ctx.rng.range(1, 32) as usize;
                q.hash_length(m.digest);
            }
            6 if early.len() < 3 => early.push((q.to_state(), m.clone())),
            6 => q = q.clone(),
            _ => {
                let mut other = gen::sp_params(&gen::gen_q(&mut ctx.rng));
                other.clone_from(&q);
                q = other;
            }
        }
        let now = m.clone();
        ctx.tr(|| format!("now hash_length={}, key={}", now.digest, gen::hex(&now.key)));
    }
    let n = ctx.len(1500);
    let msg = ctx.data(n);
    let h = q.to_state().update(msg).finalize();
    ctx.hash_eq("BLAKE2sp after setters", &h, || oracle::blake2sp(m.digest, &m.key, msg))?;
    for (mut s, m) in early {
        let h = s.update(msg).finalize();
        ctx.hash_eq("BLAKE2sp hasher made before later setters", &h, || oracle::blake2sp(m.digest, &m.key, msg))?;
    }
    let h = q.to_state().update(msg).finalize();
    ctx.hash_eq("BLAKE2sp parameters used again", &h, || oracle::blake2sp(m.digest, &m.key, msg))
}

macro_rules! both {
    ($f:ident, $s:ident, $sp:ident) => {
        fn $s(ctx: &mut Ctx) -> Res {
            $f(ctx, false)
        }
        fn $sp(ctx: &mut Ctx) -> Res {
            $f(ctx, true)
        }
    };
}
both!(lens, lens_s, lens_sp);
both!(key_digest, key_digest_s, key_digest_sp);
both!(onehot, onehot_s, onehot_sp);
both!(onehot_key, onehot_key_s, onehot_key_sp);
both!(align, align_s, align_sp);
both!(words, words_s, words_sp);
both!(random, random_s, random_sp);
both!(width, width_s, width_sp);
both!(sweep, sweep_s, sweep_sp);
both!(edges, edges_s, edges_sp);

pub fn c01() -> Vec<Kind> {
    vec![
        Kind { name: "every-length", total: 3 * LENS, quick: 3 * LENS, thorough: 3 * LENS, miri: 40, f: lens_s },
        Kind { name: "key-x-digest-length", total: 33 * 32 * 12, quick: 33 * 32 * 12, thorough: 33 * 32 * 12, miri: 20, f: key_digest_s },
        Kind { name: "one-bit-messages", total: 192 * 16, quick: 192 * 16, thorough: 192 * 16, miri: 10, f: onehot_s },
        Kind { name: "one-bit-keys", total: 1024, quick: 1024, thorough: 1024, miri: 10, f: onehot_key_s },
        Kind { name: "alignments", total: 64 * 300, quick: 64 * 300, thorough: 64 * 300, miri: 20, f: align_s },
        Kind { name: "edge-words", total: 0, quick: 40_000, thorough: 3_000_000, miri: 20, f: words_s },
        Kind { name: "edge-lengths", total: 0, quick: 20_000, thorough: 1_000_000, miri: 20, f: edges_s },
        Kind { name: "random", total: 0, quick: 30_000, thorough: 1_000_000, miri: 20, f: random_s },
        Kind { name: "power-of-two-lengths", total: 14 * 131, quick: 900, thorough: 14 * 131, miri: 0, f: width_s },
        Kind { name: "long-sweep", total: 65_700, quick: 0, thorough: 65_700, miri: 0, f: sweep_s },
        #[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
        super::far::c01(),
    ]
}

pub fn c05() -> Vec<Kind> {
    vec![
        Kind { name: "every-length", total: 3 * LENS, quick: 3 * LENS, thorough: 3 * LENS, miri: 40, f: lens_sp },
        Kind { name: "key-x-digest-length", total: 33 * 32 * 12, quick: 33 * 32 * 12, thorough: 33 * 32 * 12, miri: 20, f: key_digest_sp },
        Kind { name: "one-bit-messages", total: 768 * 16, quick: 768 * 16, thorough: 768 * 16, miri: 10, f: onehot_sp },
        Kind { name: "one-bit-keys", total: 1024, quick: 1024, thorough: 1024, miri: 5, f: onehot_key_sp },
        Kind { name: "alignments", total: 64 * 120, quick: 64 * 120, thorough: 64 * 120, miri: 10, f: align_sp },
        Kind { name: "edge-words", total: 0, quick: 20_000, thorough: 1_000_000, miri: 10, f: words_sp },
        Kind { name: "edge-lengths", total: 0, quick: 20_000, thorough: 600_000, miri: 20, f: edges_sp },
        Kind { name: "setter-histories", total: 0, quick: 20_000, thorough: 600_000, miri: 10, f: sp_setters },
        Kind { name: "random", total: 0, quick: 30_000, thorough: 1_000_000, miri: 15, f: random_sp },
        Kind { name: "power-of-two-lengths", total: 14 * 131, quick: 900, thorough: 14 * 131, miri: 0, f: width_sp },
        Kind { name: "long-sweep", total: 65_700, quick: 0, thorough: 65_700, miri: 0, f: sweep_sp },
        #[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
        super::far::c05(),
    ]
}
