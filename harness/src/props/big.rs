//! C15 and part of C16: messages past 4 GiB.
//!
//! The messages are a few MiB of real memory mapped over and over, so that their size costs
//! address space only. Hashers brought to just below the boundary once are cloned for thousands of
//! short histories that cross it.

use crate::gen::{self, Q};
use crate::props::Force;
use crate::run::{bad, Ctx, Kind, Res};
use crate::sys::Huge;
use crate::world::{Mix, Model, Op, Slot, World};
use blake2s_simd as b2;
use oracle::P;
use std::sync::OnceLock;

const G4: usize = 1 << 32;
const BASE: usize = G4 - 4096;
use crate::props::far::PERIOD;
/// All of a BLAKE2sp message whose leaves pass 4 GiB.
const SP_BASE: usize = 8 * G4 - 4096;

fn huge() -> &'static Huge {
    static H: OnceLock<Huge> = OnceLock::new();
    H.get_or_init(|| Huge::new(gen::pool().random(0, PERIOD), 8 * G4 + 2 * PERIOD))
}

/// Three different messages.
fn text(which: usize, len: usize) -> &'static [u8] {
    huge().slice(which * 1_000_003, len)
}

fn params(which: usize) -> P {
    match which {
        2 => P { key: (1..=29).collect(), salt: *b"saltsalt", digest: 31, ..P::default() },
        _ => P::default(),
    }
}

/// The specification after the first BASE bytes of text `which` (text 2 is keyed).
fn spec_base(which: usize) -> &'static oracle::S {
    static S: [OnceLock<oracle::S>; 3] = [const { OnceLock::new() }; 3];
    S[which].get_or_init(|| {
        let mut s = oracle::S::new(&params(which));
        s.feed(text(which, BASE));
        s
    })
}

fn spec(which: usize, len: usize, last: bool) -> Vec<u8> {
    let mut s = spec_base(which).clone();
    s.feed(&text(which, len)[BASE..]);
    s.finish(last)[..params(which).digest].to_vec()
}

/// A hasher of the library after the first BASE bytes: 0 unkeyed in one call, 1 the same in the
/// portable implementation (where it can be chosen), 2 keyed in many calls.
fn base(which: usize) -> &'static b2::State {
    static B: [OnceLock<Force<b2::State>>; 3] = [const { OnceLock::new() }; 3];
    &B[which]
        .get_or_init(|| {
            let mut s = gen::lib_params(&params(which)).to_state();
            match which {
                #[cfg(feature = "kernels")]
                1 => {
                    b2::benchmarks::force_portable(&mut s);
                    s.update(text(1, BASE));
                }
                2 => {
                    let mut at = 0;
                    let mut r = gen::Rng::new(77);
                    while at < BASE {
                        let n = (r.below(3 << 20) as usize).min(BASE - at);
                        s.update(&text(2, BASE)[at..at + n]);
                        at += n;
                    }
                }
                _ => {
                    s.update(text(which, BASE));
                }
            }
            Force(s)
        })
        .0
}

static MIX: Mix = Mix {
    ops: &[
        (Op::Update, 30),
        (Op::Write, 6),
        (Op::Finalize, 14),
        (Op::Clone, 3),
        (Op::Count, 8),
        (Op::LastNode, 4),
        (Op::Update8, 24),
        (Op::Finalize8, 14),
        (Op::Move, 2),
    ],
    slots: 9,
    sp_slots: 0,
    keyed: true,
    max_len: 3000,
};

/// Short histories of hashers that start right below 4 GiB.
fn crossings(ctx: &mut Ctx) -> Res {
    let mut w = World::new(&MIX);
    let n = if ctx.rng.chance(1, 3) { 1 } else { 8 };
    let mixed = ctx.rng.chance(1, 3);
    let all = ctx.rng.below(3) as usize;
    for i in 0..n {
        let b = if mixed { ctx.rng.below(3) as usize } else { all };
        let p = params(b);
        let m = Model { o: spec_base(b).clone(), last: false, count: BASE as u64, id: i, p };
        w.slots.push(Slot { s: base(b).clone(), m });
    }
    ctx.tr(|| format!("{n} hashers that have consumed {BASE} bytes each"));
    // Most of the way to the boundary in one go, so that the steps straddle it.
    let close = ctx.rng.below(4096) as usize;
    if n == 8 && ctx.rng.chance(1, 2) {
        let d = ctx.data(close);
        ctx.tr(|| format!("update8 by {close} bytes each"));
        if let [a, b, c, e, f, g, h, i] = &mut w.slots[..] {
            b2::update8(
                &mut a.s, &mut b.s, &mut c.s, &mut e.s, &mut f.s, &mut g.s, &mut h.s, &mut i.s, d, d, d, d, d, d, d, d,
            );
        }
        for s in &mut w.slots {
            s.m.feed(ctx.oracle, d);
        }
    } else {
        for s in &mut w.slots {
            let d = ctx.data(close);
            s.s.update(d);
            s.m.feed(ctx.oracle, d);
        }
    }
    let steps = ctx.rng.range(3, 14);
    for _ in 0..steps {
        w.step(ctx)?;
    }
    w.settle(ctx, true)?;
    let crossed = w.slots.iter().filter(|s| s.m.count >= G4 as u64).count();
    ctx.add("hashers_past_4GiB", crossed as u64);
    ctx.sig = gen::mix64(ctx.sig ^ ctx.obs);
    Ok(())
}

/// The exact boundary, byte by byte and block by block around it.
fn boundary(ctx: &mut Ctx) -> Res {
    let which = (ctx.idx % 3) as usize;
    let len = G4 - 260 + (ctx.idx / 3) as usize;
    let mut s = base(which).clone();
    s.update(&text(which, len)[BASE..]);
    ctx.tr(|| format!("{len} bytes of text {which}"));
    let h = s.finalize();
    ctx.hash_eq(&format!("digest of {len} bytes"), &h, || spec(which, len, false))?;
    ctx.count_eq("count", s.count(), len as u64)?;
    let mut e: [b2::State; 8] = std::array::from_fn(|_| base(which).clone());
    let d = &text(which, len)[BASE..];
    let [a, b, c, d2, e2, f, g, h] = &mut e;
    b2::update8(a, b, c, d2, e2, f, g, h, d, d, d, d, d, d, d, d);
    let [a, b, c, d2, e2, f, g, h] = &mut e;
    let hs = b2::finalize8(a, b, c, d2, e2, f, g, h);
    for (i, h) in hs.iter().enumerate() {
        ctx.hash_eq(&format!("update8 and finalize8 up to {len} bytes, lane {i}"), h, || spec(which, len, false))?;
    }
    Ok(())
}

/// Whole messages through single calls.
fn long_calls(ctx: &mut Ctx) -> Res {
    if ctx.idx >= 11 {
        // Prepare what the other kinds start from, alongside.
        let which = ctx.idx as usize - 11;
        ctx.trivial = true;
        let mut s = base(which).clone();
        let _ = spec_base(which);
        return ctx.count_eq("count", s.update(b"x").count(), BASE as u64 + 1);
    }
    ctx.add("messages_past_4GiB", 1);
    // The long one first.
    match ctx.idx {
        0 => sp_leaves(ctx),
        1 => {
            let n = G4 + 192;
            let d: Vec<&[u8]> = (0..8).map(|i| text(i % 2, n)).collect();
            ctx.tr(|| format!("hash8_exact of {n} bytes each"));
            let hs = b2::hash8_exact(&b2::Params::new(), d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]);
            for (i, h) in hs.iter().enumerate() {
                ctx.hash_eq(&format!("hash8_exact of {n} bytes, input {i}"), h, || spec(i % 2, n, false))?;
            }
            Ok(())
        }
        2 => hash8_past(ctx, false),
        3 => {
            let n = G4 + 64;
            ctx.tr(|| format!("update8 by {n} bytes each"));
            let mut e: [b2::State; 8] = std::array::from_fn(|_| b2::State::new());
            let [a, b, c, d, f, g, h, i] = &mut e;
            let (x, y) = (text(0, n), text(1, n));
            b2::update8(a, b, c, d, f, g, h, i, x, y, y, x, x, x, y, y);
            for (i, s) in e.iter_mut().enumerate() {
                let w = [0, 1, 1, 0, 0, 0, 1, 1][i];
                ctx.count_eq(&format!("count of lane {i}"), s.count(), n as u64)?;
                let h = s.finalize();
                ctx.hash_eq(&format!("update8 by {n} bytes, lane {i}"), &h, || spec(w, n, false))?;
            }
            Ok(())
        }
        4 => {
            let n = G4 + 128;
            ctx.tr(|| format!("hash4_exact of {n} bytes each"));
            let (x, y) = (text(0, n), text(1, n));
            let hs = b2::hash4_exact(&b2::Params::new(), x, y, x, y);
            for (i, h) in hs.iter().enumerate() {
                ctx.hash_eq(&format!("hash4_exact of {n} bytes, input {i}"), h, || spec(i % 2, n, false))?;
            }
            Ok(())
        }
        5 => {
            let n = G4 + 77;
            ctx.tr(|| format!("blake2s of {n} bytes"));
            let h = b2::blake2s(text(0, n));
            ctx.hash_eq(&format!("blake2s of {n} bytes"), &h, || spec(0, n, false))
        }
        6 => sp_short(ctx, &Q { digest: 32, key: vec![] }, G4 + 1111, false),
        7 => sp_short(ctx, &Q { digest: 17, key: (0..32).collect() }, G4 + 4000, true),
        8 => {
            // The key block is what takes the counter past the boundary.
            let n = G4;
            ctx.tr(|| format!("keyed hash4_exact of {n} bytes each"));
            let q = gen::lib_params(&params(2));
            let x = text(2, n);
            let hs = b2::hash4_exact(&q, x, x, x, x);
            for (i, h) in hs.iter().enumerate() {
                ctx.hash_eq(&format!("keyed hash4_exact of {n} bytes, input {i}"), h, || spec(2, n, false))?;
            }
            Ok(())
        }
        9 => {
            #[cfg(feature = "std")]
            {
                let n = G4 + 5;
                ctx.tr(|| format!("write of {n} bytes"));
                let mut s = b2::State::new();
                let r = std::io::Write::write(&mut s, text(1, n));
                match r {
                    Ok(m) if m == n => {}
                    r => return bad(format!("write of {n} bytes returned {r:?}")),
                }
                ctx.count_eq("count", s.count(), n as u64)?;
                let h = s.finalize();
                ctx.hash_eq(&format!("write of {n} bytes"), &h, || spec(1, n, false))?;
            }
            Ok(())
        }
        _ => {
            let n = G4;
            ctx.tr(|| format!("keyed hash8_exact of {n} bytes each"));
            let q = gen::lib_params(&params(2));
            let x = text(2, n);
            let hs = b2::hash8_exact(&q, x, x, x, x, x, x, x, x);
            for (i, h) in hs.iter().enumerate() {
                ctx.hash_eq(&format!("keyed hash8_exact of {n} bytes, input {i}"), h, || spec(2, n, false))?;
            }
            Ok(())
        }
    }
}

/// `hash8` with every input past 4 GiB, so that the eight go past the boundary in tandem: inputs of
/// one length to the very end, others until the first of them runs out.
fn hash8_past(ctx: &mut Ctx, equal: bool) -> Res {
    let lens: [usize; 8] =
        std::array::from_fn(|i| G4 + if equal { 256 } else { [640, 321, 4096, 704, 641, 1000, 322, 385][i] });
    let d: [&[u8]; 8] = std::array::from_fn(|i| text(i / 4, lens[i]));
    ctx.tr(|| format!("hash8 of {lens:?} bytes"));
    let p = b2::Params::new();
    let mut last = b2::Params::new();
    last.last_node(true);
    let hs = b2::hash8(&p, &p, &last, &p, &p, &last, &last, &p, d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]);
    for (i, h) in hs.iter().enumerate() {
        ctx.hash_eq(&format!("hash8, input {i} of {} bytes", lens[i]), h, || {
            spec(i / 4, lens[i], [2, 5, 6].contains(&i))
        })?;
    }
    Ok(())
}

fn hash8_kind(ctx: &mut Ctx) -> Res {
    ctx.add("messages_past_4GiB", 8);
    hash8_past(ctx, true)
}

/// Past 8 GiB, where the high half of the counter is no longer 0 or 1.
fn further(ctx: &mut Ctx) -> Res {
    ctx.add("messages_past_8GiB", [1, 8, 1][ctx.idx as usize]);
    static S: OnceLock<oracle::S> = OnceLock::new();
    let spec8 = |n: usize| {
        let base = 2 * G4 - 4096;
        let mut s = S
            .get_or_init(|| {
                let mut s = spec_base(0).clone();
                s.feed(&text(0, base)[BASE..]);
                s
            })
            .clone();
        s.feed(&text(0, n)[base..]);
        s.finish(false).to_vec()
    };
    match ctx.idx {
        0 => {
            let mut s = base(0).clone();
            let mut at = BASE;
            for n in [2 * G4 - 1000, 2 * G4 - 64, 2 * G4 - 1, 2 * G4, 2 * G4 + 1, 2 * G4 + 64, 2 * G4 + 65, 2 * G4 + 4000] {
                s.update(&text(0, n)[at..]);
                at = n;
                ctx.tr(|| format!("update to {n} bytes"));
                ctx.count_eq("count", s.count(), n as u64)?;
                let h = s.finalize();
                ctx.hash_eq(&format!("digest of {n} bytes"), &h, || spec8(n))?;
            }
            Ok(())
        }
        1 => {
            let n = 2 * G4 + 128;
            ctx.tr(|| format!("hash8 of {n} bytes each"));
            let (p, x) = (b2::Params::new(), text(0, n));
            let hs = b2::hash8(&p, &p, &p, &p, &p, &p, &p, &p, x, x, x, x, x, x, x, x);
            for (i, h) in hs.iter().enumerate() {
                ctx.hash_eq(&format!("hash8 of {n} bytes, input {i}"), h, || spec8(n))?;
            }
            Ok(())
        }
        _ => {
            let n = 2 * G4 + 192;
            ctx.tr(|| format!("hash4_exact of {n} bytes each"));
            let x = text(0, n);
            let hs = b2::hash4_exact(&b2::Params::new(), x, x, x, x);
            for (i, h) in hs.iter().enumerate() {
                ctx.hash_eq(&format!("hash4_exact of {n} bytes, input {i}"), h, || spec8(n))?;
            }
            Ok(())
        }
    }
}

/// The specification of BLAKE2sp, its leaves in parallel threads.
struct SpSpec {
    q: Q,
    leaves: Vec<oracle::S>,
    pos: usize,
}

impl SpSpec {
    fn new(q: &Q, len: usize) -> SpSpec {
        assert!(len % 512 == 0);
        let data = text(0, len);
        let leaves = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8)
                .map(|i| {
                    s.spawn(move || {
                        let mut l = oracle::sp_leaf(q.digest, &q.key, i as u64);
                        let mut at = 64 * i;
                        while at < len {
                            l.feed(&data[at..at + 64]);
                            at += 512;
                        }
                        l
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        SpSpec { q: q.clone(), leaves, pos: len }
    }

    fn feed(&mut self, mut d: &[u8]) {
        while !d.is_empty() {
            let n = (64 - self.pos % 64).min(d.len());
            self.leaves[self.pos / 64 % 8].feed(&d[..n]);
            self.pos += n;
            d = &d[n..];
        }
    }

    fn finish(&self) -> Vec<u8> {
        let hashes: Vec<[u8; 32]> = self.leaves.iter().enumerate().map(|(i, l)| l.finish(i == 7)).collect();
        oracle::sp_finish(self.q.digest, &self.q.key, &hashes)
    }
}

/// A BLAKE2sp message whose every leaf passes 4 GiB.
fn sp_leaves(ctx: &mut Ctx) -> Res {
    let q = Q { digest: 32, key: vec![] };
    ctx.tr(|| format!("BLAKE2sp of {} bytes", 8u64 * G4 as u64 + 4096));
    let mut s = gen::sp_params(&q).to_state();
    s.update(text(0, SP_BASE));
    ctx.count_eq("BLAKE2sp count", s.count(), SP_BASE as u64)?;
    let mut o = SpSpec::new(&q, SP_BASE);
    while o.pos < 8 * G4 + 4096 {
        let n = ctx.rng.below(700) as usize;
        let d = &text(0, o.pos + n)[o.pos..];
        s.update(d);
        o.feed(d);
        let h = s.finalize();
        ctx.hash_eq(&format!("BLAKE2sp of {} bytes", o.pos), &h, || o.finish())?;
        ctx.count_eq("BLAKE2sp count", s.count(), o.pos as u64)?;
    }
    Ok(())
}

/// A BLAKE2sp message past 4 GiB, its leaves far below.
fn sp_short(ctx: &mut Ctx, q: &Q, len: usize, pieces: bool) -> Res {
    ctx.tr(|| format!("BLAKE2sp of {len} bytes with a key of {} bytes", q.key.len()));
    let data = text(0, len);
    let mut s = gen::sp_params(q).to_state();
    if pieces {
        let mut at = 0;
        while at < len {
            let n = (ctx.rng.below(2 << 20) as usize).min(len - at);
            s.update(&data[at..at + n]);
            at += n;
        }
    } else {
        s.update(data);
    }
    ctx.count_eq("BLAKE2sp count", s.count(), len as u64)?;
    let mut o = SpSpec::new(q, len / 512 * 512);
    o.feed(&data[len / 512 * 512..]);
    let h = s.finalize();
    ctx.hash_eq(&format!("BLAKE2sp of {len} bytes"), &h, || o.finish())?;
    let d = ctx.data(1500);
    s.update(d);
    o.feed(d);
    let h = s.finalize();
    ctx.hash_eq(&format!("BLAKE2sp of {len} and 1500 bytes"), &h, || o.finish())?;
    ctx.count_eq("BLAKE2sp count", s.count(), len as u64 + 1500)
}

pub fn c15() -> Vec<Kind> {
    vec![
        Kind { name: "messages-in-one-call", total: 14, quick: 14, thorough: 14, miri: 0, f: long_calls },
        Kind { name: "past-8-GiB", total: 3, quick: 3, thorough: 3, miri: 0, f: further },
        Kind { name: "hash8-past-the-boundary", total: 1, quick: 1, thorough: 1, miri: 0, f: hash8_kind },
        Kind { name: "around-the-boundary", total: 3 * 520, quick: 3 * 520, thorough: 3 * 520, miri: 0, f: boundary },
        Kind { name: "crossing-histories", total: 0, quick: 20_000, thorough: 1_000_000, miri: 0, f: crossings },
    ]
}

/// C16: counts only, through every feeding call.
pub fn counts(ctx: &mut Ctx) -> Res {
    let n = G4 + 100 + ctx.idx as usize;
    let key: &[u8] = if ctx.idx % 2 == 1 { b"key" } else { b"" };
    let which = ctx.idx;
    ctx.tr(|| format!("counting {n} bytes through interface {which}"));
    ctx.add("counts_past_4GiB", 1);
    match ctx.idx {
        0 | 1 => {
            let mut s = b2::Params::new().key(key).to_state();
            ctx.count_eq("count", s.count(), 0)?;
            s.update(text(0, n));
            ctx.count_eq("count after one call", s.count(), n as u64)?;
            let _ = s.finalize();
            let mut c = s.clone();
            ctx.count_eq("count of a clone", c.count(), n as u64)?;
            let mut others: Vec<b2::State> = (0..7).map(|_| c.clone()).collect();
            if let [t, u, v, w, x, y, z] = &mut others[..] {
                let d = ctx.data(333);
                b2::update8(&mut c, t, u, v, w, x, y, z, d, d, d, d, &d[..100], d, d, d);
                ctx.count_eq("count after update8", c.count(), n as u64 + 333)?;
                ctx.count_eq("count after a shorter input of update8", w.count(), n as u64 + 100)?;
                let _ = b2::finalize8(&mut c, t, u, v, w, x, y, z);
                ctx.count_eq("count after finalize8", c.count(), n as u64 + 333)?;
            }
            Ok(())
        }
        2 | 3 => {
            let mut s = b2::Params::new().key(key).to_state();
            let mut at = 0;
            while at < n {
                let k = (1 + ctx.rng.below(3 << 20) as usize).min(n - at);
                s.update(&text(0, n)[at..at + k]);
                at += k;
                ctx.count_eq("count", s.count(), at as u64)?;
            }
            Ok(())
        }
        _ => {
            let mut s = b2::blake2sp::Params::new().key(key).to_state();
            let mut at = 0;
            while at < 2 * n {
                let k = if ctx.idx == 4 { n } else { 1 + ctx.rng.below(3 << 20) as usize }.min(2 * n - at);
                s.update(&text(0, 2 * n)[at..at + k]);
                at += k;
                ctx.count_eq("BLAKE2sp count", s.count(), at as u64)?;
            }
            let _ = s.finalize();
            ctx.count_eq("BLAKE2sp count after a digest", s.count(), at as u64)
        }
    }
}

/// One write of more than 2 or 4 GiB: taken whole, as by `update` (which C15 checks).
#[cfg(feature = "std")]
fn written_at_once(ctx: &mut Ctx) -> Res {
    use std::io::Write;
    let i = ctx.idx as usize;
    let n = [G4 + 77, (1 << 31) + 4099, (1 << 31) - 4000, (1 << 31) + (1 << 30)][i / 4 % 4] + ctx.rng.below(300) as usize;
    let (sp, all) = (i % 2 == 1, i / 2 % 2 == 1);
    let d = text(i % 3, n);
    ctx.tr(|| format!("{} of {n} bytes to {}", if all { "write_all" } else { "write" }, if sp { "blake2sp::State" } else { "State" }));
    macro_rules! go {
        ($new:expr) => {{
            let (mut s, mut t) = ($new, $new);
            s.update(b"before");
            t.update(b"before");
            if all {
                if let Err(e) = s.write_all(d) {
                    return bad(format!("write_all of {n} bytes failed: {e}"));
                }
            } else {
                match s.write(d) {
                    Ok(k) if k == n => {}
                    r => return bad(format!("write of {n} bytes gave {r:?}")),
                }
            }
            t.update(d);
            ctx.add("counts_checked", 1);
            if s.count() != n as u64 + 6 {
                return bad(format!("count {} after writing {n} bytes after 6", s.count()));
            }
            ctx.hash_eq(&format!("digest after a write of {n} bytes"), &s.finalize(), || t.finalize().as_bytes().to_vec())
        }};
    }
    if sp {
        go!(b2::blake2sp::State::new())
    } else {
        go!(b2::State::new())
    }
}

#[cfg(feature = "std")]
pub fn c23() -> Vec<Kind> {
    vec![Kind { name: "gigabytes-at-once", total: 16, quick: 8, thorough: 16, miri: 0, f: written_at_once }]
}
