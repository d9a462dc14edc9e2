//! The same memory, used again with other contents: nothing may be known by where it is.

use crate::gen;
use crate::props::multi;
use crate::run::{Ctx, Kind, Res};
use crate::world::{describe, Model};
use oracle::P;
use blake2s_simd as b2;

/// A buffer that the program fills again and again.
struct Room {
    b: Vec<u8>,
}

impl Room {
    fn new(ctx: &mut Ctx, max: u64) -> Room {
        let n = ctx.len(max) + 1;
        Room { b: ctx.data(n).to_vec() }
    }

    /// Other contents, mostly, in the same place.
    fn refill(&mut self, ctx: &mut Ctx) {
        let n = self.b.len();
        match ctx.rng.below(8) {
            0 => {}
            1 | 2 => {
                let i = ctx.rng.below(n as u64) as usize;
                self.b[i] ^= 1 << ctx.rng.below(8);
            }
            3 => {
                let i = ctx.rng.below(n as u64) as usize;
                self.b[i..].reverse();
            }
            4 => {
                // All but both ends.
                let k = n.min(16);
                let d = ctx.data(n);
                self.b[k..].iter_mut().zip(d).for_each(|(b, x)| *b = *x);
                let m = self.b.len() - k;
                self.b[m..].iter_mut().for_each(|b| *b = 7);
            }
            _ => self.b.copy_from_slice(ctx.data(n)),
        }
        ctx.add("buffers_filled_again", 1);
    }

    /// Mostly the same range.
    fn range(&self, ctx: &mut Ctx) -> (usize, usize) {
        let n = self.b.len();
        match ctx.rng.below(8) {
            0 => {
                let i = ctx.rng.below(n as u64) as usize;
                (i, n)
            }
            1 => (0, ctx.rng.below(n as u64 + 1) as usize),
            _ => (0, n),
        }
    }
}

fn rounds(ctx: &mut Ctx) -> u64 {
    if ctx.small {
        2
    } else {
        ctx.rng.range(2, 6)
    }
}

fn whole(ctx: &mut Ctx) -> Res {
    let mut r = Room::new(ctx, 3000);
    let p = gen::gen_p(&mut ctx.rng, true);
    let q = gen::lib_params(&p);
    for _ in 0..rounds(ctx) {
        let (a, b) = r.range(ctx);
        let d = &r.b[a..b];
        let h = b2::blake2s(d);
        ctx.hash_eq(&format!("blake2s of {} bytes", d.len()), &h, || oracle::blake2s(&P::default(), d))?;
        let h = q.to_state().update(d).finalize();
        ctx.hash_eq(&format!("{} bytes with {}", d.len(), describe(&p)), &h, || oracle::blake2s(&p, d))?;
        r.refill(ctx);
    }
    Ok(())
}

fn whole_sp(ctx: &mut Ctx) -> Res {
    let mut r = Room::new(ctx, 5000);
    let q = gen::gen_q(&mut ctx.rng);
    let lq = gen::sp_params(&q);
    for _ in 0..rounds(ctx) {
        let (a, b) = r.range(ctx);
        let d = &r.b[a..b];
        let h = b2::blake2sp::blake2sp(d);
        ctx.hash_eq(&format!("blake2sp of {} bytes", d.len()), &h, || oracle::blake2sp(32, &[], d))?;
        let h = lq.to_state().update(d).finalize();
        ctx.hash_eq(&format!("BLAKE2sp of {} bytes, key of {}", d.len(), q.key.len()), &h, || oracle::blake2sp(q.digest, &q.key, d))?;
        r.refill(ctx);
    }
    Ok(())
}

/// Values for setters, from one place; and one parameter set with several lives.
fn settings(ctx: &mut Ctx) -> Res {
    let mut q = Box::new(b2::Params::new());
    let mut sq = Box::new(b2::blake2sp::Params::new());
    let mut place = [0u8; 32];
    for _ in 0..rounds(ctx) {
        let p = gen::gen_p(&mut ctx.rng, true);
        if ctx.rng.chance(1, 2) {
            *q = b2::Params::new();
        }
        q.hash_length(p.digest).fanout(p.fanout).max_depth(p.depth).max_leaf_length(p.leaf).node_offset(p.offset);
        q.node_depth(p.node_depth).inner_hash_length(usize::from(p.inner)).last_node(p.last_node);
        place[..8].copy_from_slice(&p.salt);
        q.salt(&place[..8]);
        place[..8].copy_from_slice(&p.personal);
        q.personal(&place[..8]);
        let k = p.key.len();
        place[..k].copy_from_slice(&p.key);
        q.key(&place[..k]);
        sq.key(&place[..k]).hash_length(p.digest);
        let n = ctx.len(300);
        let d = ctx.data(n);
        let h = q.to_state().update(d).finalize();
        ctx.hash_eq(&format!("{n} bytes with {}", describe(&p)), &h, || oracle::blake2s(&p, d))?;
        let h = sq.to_state().update(d).finalize();
        ctx.hash_eq(&format!("BLAKE2sp of {n} bytes, key of {k}"), &h, || oracle::blake2sp(p.digest, &p.key, d))?;
        // One setter alone between two hashers.
        let mut p = p;
        for _ in 0..ctx.rng.below(3) {
            let f = ctx.rng.below(11);
            gen::vary(&mut ctx.rng, &mut p, f, true);
            match f {
                0 => q.hash_length(p.digest),
                1 => {
                    let k = p.key.len();
                    place[..k].copy_from_slice(&p.key);
                    q.key(&place[..k])
                }
                2 => {
                    place[..8].copy_from_slice(&p.salt);
                    q.salt(&place[..8])
                }
                3 => {
                    place[..8].copy_from_slice(&p.personal);
                    q.personal(&place[..8])
                }
                4 => q.fanout(p.fanout),
                5 => q.max_depth(p.depth),
                6 => q.max_leaf_length(p.leaf),
                7 => q.node_offset(p.offset),
                8 => q.node_depth(p.node_depth),
                9 => q.inner_hash_length(usize::from(p.inner)),
                _ => q.last_node(p.last_node),
            };
            let h = q.to_state().update(d).finalize();
            ctx.hash_eq(&format!("{n} bytes with {}, parameter {f} set anew", describe(&p)), &h, || oracle::blake2s(&p, d))?;
        }
    }
    Ok(())
}

fn pieces(ctx: &mut Ctx) -> Res {
    let mut r = Room::new(ctx, 1500);
    let p = gen::gen_p(&mut ctx.rng, true);
    let mut s = gen::lib_params(&p).to_state();
    let mut m = Model::new(p, 1);
    for _ in 0..rounds(ctx) + 3 {
        let (a, b) = r.range(ctx);
        ctx.tr(|| format!("{} bytes", b - a));
        s.update(&r.b[a..b]);
        m.feed(ctx.oracle, &r.b[a..b]);
        r.refill(ctx);
        if ctx.rng.chance(1, 2) {
            let h = s.finalize();
            ctx.hash_eq(&format!("digest after {} bytes", m.count), &h, || m.digest())?;
        }
    }
    let h = s.finalize();
    ctx.hash_eq(&format!("digest after {} bytes", m.count), &h, || m.digest())
}

fn sp_pieces(ctx: &mut Ctx) -> Res {
    let mut r = Room::new(ctx, 3000);
    let q = gen::gen_q(&mut ctx.rng);
    let mut s = gen::sp_params(&q).to_state();
    let mut o = oracle::Sp::new(q.digest, &q.key);
    let mut total = 0;
    for _ in 0..rounds(ctx) + 3 {
        let (a, b) = r.range(ctx);
        ctx.tr(|| format!("{} bytes", b - a));
        s.update(&r.b[a..b]);
        if ctx.oracle {
            o.feed(&r.b[a..b]);
        }
        total += b - a;
        r.refill(ctx);
        if ctx.rng.chance(1, 2) {
            let h = s.finalize();
            ctx.hash_eq(&format!("BLAKE2sp digest after {total} bytes"), &h, || o.finish())?;
        }
    }
    let h = s.finalize();
    ctx.hash_eq(&format!("BLAKE2sp digest after {total} bytes"), &h, || o.finish())
}

/// Eight windows, often the same ones.
fn windows(ctx: &mut Ctx, r: &Room, len: Option<usize>) -> [(usize, usize); 8] {
    let n = r.b.len();
    std::array::from_fn(|_| match len {
        Some(l) => {
            let i = if ctx.rng.chance(1, 2) { 0 } else { ctx.rng.below((n - l) as u64 + 1) as usize };
            (i, i + l)
        }
        None => r.range(ctx),
    })
}

fn update8(ctx: &mut Ctx) -> Res {
    let mut st = multi::eight_states(ctx);
    let mut r = Room::new(ctx, 700);
    let mut w = windows(ctx, &r, None);
    for _ in 0..rounds(ctx) + 1 {
        let d: [&[u8]; 8] = std::array::from_fn(|i| &r.b[w[i].0..w[i].1]);
        multi::up8(ctx, &mut st, &d);
        r.refill(ctx);
        if ctx.rng.chance(1, 3) {
            multi::fin8(ctx, &mut st)?;
        }
        if ctx.rng.chance(1, 3) {
            w = windows(ctx, &r, None);
        }
    }
    multi::fin8(ctx, &mut st)
}

fn exact(ctx: &mut Ctx) -> Res {
    let mut r = Room { b: vec![] };
    let n = 64 * (ctx.rng.below(if ctx.small { 2 } else { 9 }) as usize + 1);
    r.b = ctx.data(n + 200).to_vec();
    let p = gen::gen_p(&mut ctx.rng, true);
    let q = gen::lib_params(&p);
    let w = windows(ctx, &r, Some(n));
    let four = ctx.rng.chance(1, 2);
    for _ in 0..rounds(ctx) {
        let d: [&[u8]; 8] = std::array::from_fn(|i| &r.b[w[i].0..w[i].1]);
        let hs = if four {
            b2::hash4_exact(&q, d[0], d[1], d[2], d[3]).to_vec()
        } else {
            b2::hash8_exact(&q, d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]).to_vec()
        };
        for (i, h) in hs.iter().enumerate() {
            ctx.hash_eq(&format!("hash{}_exact of {n} bytes, input {i}", hs.len()), h, || oracle::blake2s(&p, d[i]))?;
        }
        r.refill(ctx);
    }
    Ok(())
}

fn hash8(ctx: &mut Ctx) -> Res {
    let mut r = Room::new(ctx, 1500);
    let len = if ctx.rng.chance(1, 2) { Some(r.b.len() / 64 * 64) } else { None };
    let mut ps = gen::family(&mut ctx.rng, false);
    let mut q: [b2::Params; 8] = std::array::from_fn(|i| gen::lib_params(&ps[i]));
    let w = windows(ctx, &r, len);
    for _ in 0..rounds(ctx) {
        let d: [&[u8]; 8] = std::array::from_fn(|i| &r.b[w[i].0..w[i].1]);
        let hs = b2::hash8(&q[0], &q[1], &q[2], &q[3], &q[4], &q[5], &q[6], &q[7], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]);
        for (i, h) in hs.iter().enumerate() {
            ctx.hash_eq(&format!("hash8, input {i} of {} bytes", d[i].len()), h, || oracle::blake2s(&ps[i], d[i]))?;
        }
        r.refill(ctx);
        if ctx.rng.chance(1, 2) {
            ps = gen::family(&mut ctx.rng, false);
            for (q, p) in q.iter_mut().zip(&ps) {
                *q = gen::lib_params(p);
            }
        }
    }
    Ok(())
}

/// The kinds for a property.
pub fn of(prop: &str) -> Vec<Kind> {
    let (f, quick): (fn(&mut Ctx) -> Res, u64) = match prop {
        "C01" => (whole, 10_000),
        "C02" => (settings, 10_000),
        "C04" => (pieces, 10_000),
        "C05" => (whole_sp, 6_000),
        "C06" => (sp_pieces, 6_000),
        "C07" => (update8, 4_000),
        "C08" => (exact, 6_000),
        "C09" => (hash8, 4_000),
        _ => return vec![],
    };
    vec![Kind { name: "same-place-again", total: 0, quick, thorough: quick * 40, miri: 4, f }]
}
