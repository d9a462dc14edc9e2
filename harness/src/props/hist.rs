//! C04, C06, C11, C16, C20, C22: histories of calls.

use crate::gen::{self, Q};
use crate::run::{bad, Ctx, Kind, Res};
use crate::world::{self, Mix, Model, Op};
use blake2s_simd as b2;
use oracle::P;

fn some_p(ctx: &mut Ctx) -> P {
    match ctx.rng.below(3) {
        0 => P::default(),
        1 => P { key: gen::gen_key(&mut ctx.rng), ..P::default() },
        _ => gen::gen_p(&mut ctx.rng, true),
    }
}

// ------------------------------------------------------------------------------------------ C04

/// Feed `a` bytes, look (or not), feed `b` bytes, look.
fn two_chunks(ctx: &mut Ctx, a: usize, b: usize) -> Res {
    let p = some_p(ctx);
    let d = ctx.data(a + b);
    let (d1, d2) = d.split_at(a);
    ctx.tr(|| format!("{}: update({a}), update({b})", world::describe(&p)));
    let mut s = gen::lib_params(&p).to_state();
    let mut m = Model::new(p, 1);
    s.update(d1);
    m.feed(ctx.oracle, d1);
    if ctx.rng.chance(1, 2) {
        let h = s.finalize();
        ctx.hash_eq("digest after the first chunk", &h, || m.digest())?;
    }
    s.update(d2);
    m.feed(ctx.oracle, d2);
    let h = s.finalize();
    ctx.hash_eq("digest after the second chunk", &h, || m.digest())?;
    if ctx.rng.chance(1, 4) {
        let h = s.finalize();
        ctx.hash_eq("digest taken again", &h, || m.digest())?;
    }
    Ok(())
}

const GA: u64 = 200;
const GB: u64 = 330;
pub fn grid2(ctx: &mut Ctx) -> Res {
    two_chunks(ctx, (ctx.idx % GA) as usize, (ctx.idx / GA) as usize)
}

const E3: [usize; 16] = [0, 1, 31, 32, 62, 63, 64, 65, 66, 96, 127, 128, 129, 191, 192, 193];
/// Four chunks with lengths at the edges, a digest taken after a random subset of them.
fn grid4(ctx: &mut Ctx) -> Res {
    let mut i = ctx.idx;
    let p = some_p(ctx);
    let mut s = gen::lib_params(&p).to_state();
    let mut m = Model::new(p, 1);
    for _ in 0..4 {
        let d = ctx.data(E3[(i % 16) as usize]);
        i /= 16;
        s.update(d);
        m.feed(ctx.oracle, d);
        ctx.tr(|| format!("update({})", d.len()));
        if ctx.rng.chance(1, 3) {
            let h = s.finalize();
            ctx.hash_eq("intermediate digest", &h, || m.digest())?;
        }
    }
    let h = s.finalize();
    ctx.hash_eq("digest", &h, || m.digest())
}

/// The same byte string in random pieces, total length up to some 100 KiB.
fn pieces(ctx: &mut Ctx) -> Res {
    let p = some_p(ctx);
    let n = if ctx.small { ctx.len(600) } else { ctx.rng.len(1 << 18) };
    let d = ctx.data(n);
    let mut s = gen::lib_params(&p).to_state();
    let style = ctx.rng.below(5);
    let mut rest = d;
    let mut k = 0u64;
    while !rest.is_empty() {
        let c = match style {
            0 => 1 + ctx.rng.below(64),
            1 => 64 * ctx.rng.range(1, 4),
            2 => ctx.rng.below(200),
            3 => ctx.rng.len(rest.len() as u64) as u64,
            _ => 61 + ctx.rng.below(8),
        }
        .min(rest.len() as u64) as usize;
        s.update(&rest[..c]);
        rest = &rest[c..];
        k += 1;
    }
    ctx.add("chunks", k);
    ctx.tr(|| format!("{n} bytes in {k} pieces of style {style}"));
    let h = s.finalize();
    ctx.hash_eq("digest of the pieces", &h, || oracle::blake2s(&p, d))
}

/// One byte at a time with a digest after each.
fn bytewise(ctx: &mut Ctx) -> Res {
    let p = some_p(ctx);
    let n = if ctx.small { 70 } else { 330 };
    let d = ctx.data(n);
    let mut s = gen::lib_params(&p).to_state();
    let mut m = Model::new(p, 1);
    for i in 0..n {
        s.update(&d[i..i + 1]);
        m.feed(ctx.oracle, &d[i..i + 1]);
        let h = s.finalize();
        ctx.hash_eq("digest after one more byte", &h, || m.digest())?;
    }
    Ok(())
}

/// Chunk lengths around powers of two, after a short prefix.
fn width(ctx: &mut Ctx) -> Res {
    let k = 8 + ctx.idx % 14;
    let d = ctx.idx / 14 % 9;
    let n = (1usize << k) + [0, 1, 2, 63, 64, 65, 66, 128, 129][d as usize] - 65;
    let a = ctx.rng.below(130) as usize;
    if ctx.rng.chance(1, 2) {
        two_chunks(ctx, a, n)
    } else {
        two_chunks(ctx, n, a)
    }
}

static MIX_C04: Mix = Mix {
    ops: &[
        (Op::New, 4),
        (Op::Update, 34),
        (Op::Write, 8),
        (Op::Finalize, 26),
        (Op::Clone, 8),
        (Op::Count, 4),
        (Op::LastNode, 8),
        (Op::Debug, 2),
        (Op::Move, 2),
    ],
    slots: 4,
    sp_slots: 0,
    keyed: true,
    max_len: 3000,
};

/// Taking a count must not disturb anything, but whether it is right is C16's business.
fn c04_history(ctx: &mut Ctx) -> Res {
    let n = if ctx.small { 12 } else { 60 };
    history_no_counts(ctx, &MIX_C04, n)
}

fn history_no_counts(ctx: &mut Ctx, mix: &'static Mix, steps: u64) -> Res {
    let n = ctx.rng.range(steps / 4 + 1, steps);
    let mut w = world::World::new(mix);
    for _ in 0..n {
        if ctx.rng.exhausted() {
            break;
        }
        // A wrong count is not this property's violation.
        let was = ctx.oracle;
        match w.step(ctx) {
            Ok(()) => {}
            Err(b) if b.0.starts_with("count of ") => ctx.add("count_mismatches_ignored", 1),
            Err(b) => return Err(b),
        }
        ctx.oracle = was;
    }
    w.settle(ctx, false)?;
    ctx.sig = gen::mix64(ctx.sig ^ ctx.obs);
    if ctx.nobs == 0 {
        ctx.trivial = true;
    }
    Ok(())
}

pub fn c04() -> Vec<Kind> {
    vec![
        Kind { name: "two-chunk-grid", total: GA * GB, quick: GA * GB, thorough: GA * GB, miri: 60, f: grid2 },
        Kind { name: "four-chunk-edges", total: 65536, quick: 65536, thorough: 65536, miri: 30, f: grid4 },
        Kind { name: "bytewise", total: 0, quick: 600, thorough: 30_000, miri: 2, f: bytewise },
        Kind { name: "pieces", total: 0, quick: 20_000, thorough: 600_000, miri: 20, f: pieces },
        Kind { name: "power-of-two-chunks", total: 126, quick: 126, thorough: 126, miri: 0, f: width },
        Kind { name: "histories", total: 0, quick: 60_000, thorough: 3_000_000, miri: 30, f: c04_history },
        #[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
        super::far::c04(),
    ]
}

// ------------------------------------------------------------------------------------------ C06

fn sp_two_chunks(ctx: &mut Ctx, a: usize, b: usize) -> Res {
    let q = gen::gen_q(&mut ctx.rng);
    let d = ctx.data(a + b);
    let (d1, d2) = d.split_at(a);
    ctx.tr(|| format!("key of {} bytes: update({a}), update({b})", q.key.len()));
    let mut s = gen::sp_params(&q).to_state();
    s.update(d1);
    if ctx.rng.chance(1, 4) {
        let h = s.finalize();
        ctx.hash_eq("digest after the first chunk", &h, || oracle::blake2sp(q.digest, &q.key, d1))?;
    }
    s.update(d2);
    let h = s.finalize();
    ctx.hash_eq("digest after the second chunk", &h, || oracle::blake2sp(q.digest, &q.key, d))?;
    if ctx.rng.chance(1, 8) {
        let h = s.finalize();
        ctx.hash_eq("digest taken again", &h, || oracle::blake2sp(q.digest, &q.key, d))?;
    }
    Ok(())
}

const SA: u64 = 1100;
const SB: u64 = 2200;
/// Bytes buffered x bytes arriving: the buffer holds 1024, direct compression starts at 961.
pub fn sp_grid2(ctx: &mut Ctx) -> Res {
    sp_two_chunks(ctx, (ctx.idx % SA) as usize, (ctx.idx / SA) as usize)
}

const SE: [usize; 42] = [
    0, 1, 63, 64, 65, 127, 128, 129, 383, 384, 385, 447, 448, 449, 510, 511, 512, 513, 514, 575, 576, 577, 895, 896, 897, 958,
    959, 960, 961, 962, 1022, 1023, 1024, 1025, 1026, 1471, 1472, 1473, 1535, 1536, 1537, 2049,
];
fn sp_edges2(ctx: &mut Ctx) -> Res {
    let (a, b) = (SE[(ctx.idx % 42) as usize], SE[(ctx.idx / 42) as usize]);
    sp_two_chunks(ctx, a, b)
}

pub fn sp_grid3(ctx: &mut Ctx) -> Res {
    let mut i = ctx.idx;
    let q = gen::gen_q(&mut ctx.rng);
    let mut s = gen::sp_params(&q).to_state();
    let mut o = oracle::Sp::new(q.digest, &q.key);
    for _ in 0..3 {
        let d = ctx.data(SE[(i % 42) as usize]);
        i /= 42;
        s.update(d);
        if ctx.oracle {
            o.feed(d);
        }
        ctx.tr(|| format!("update({})", d.len()));
        if ctx.rng.chance(1, 4) {
            let h = s.finalize();
            ctx.hash_eq("intermediate digest", &h, || o.finish())?;
        }
    }
    let h = s.finalize();
    ctx.hash_eq("digest", &h, || o.finish())
}

fn sp_pieces(ctx: &mut Ctx) -> Res {
    let q = gen::gen_q(&mut ctx.rng);
    let n = if ctx.small { ctx.len(2500) } else { ctx.rng.len(1 << 18) };
    let d = ctx.data(n);
    let mut s = gen::sp_params(&q).to_state();
    let style = ctx.rng.below(6);
    let mut rest = d;
    let mut k = 0u64;
    while !rest.is_empty() {
        let c = match style {
            0 => 1 + ctx.rng.below(64),
            1 => 64 * ctx.rng.range(1, 20),
            2 => ctx.rng.below(1200),
            3 => ctx.rng.len(rest.len() as u64) as u64,
            4 => 509 + ctx.rng.below(8),
            _ => *ctx.rng.pick(&SE) as u64,
        }
        .min(rest.len() as u64) as usize;
        s.update(&rest[..c]);
        rest = &rest[c..];
        k += 1;
        if k > 4000 {
            s.update(rest);
            break;
        }
    }
    ctx.add("chunks", k);
    ctx.tr(|| format!("{n} bytes in {k} pieces of style {style}"));
    let h = s.finalize();
    ctx.hash_eq("digest of the pieces", &h, || oracle::blake2sp(q.digest, &q.key, d))
}

fn sp_width(ctx: &mut Ctx) -> Res {
    let k = 8 + ctx.idx % 14;
    let d = ctx.idx / 14 % 9;
    let n = (1usize << k) + [0, 1, 2, 63, 64, 65, 66, 128, 129][d as usize] - 65;
    let a = ctx.rng.below(1100) as usize;
    if ctx.rng.chance(1, 2) {
        sp_two_chunks(ctx, a, n)
    } else {
        sp_two_chunks(ctx, n, a)
    }
}

static MIX_C06: Mix = Mix {
    ops: &[(Op::SpNew, 4), (Op::SpUpdate, 40), (Op::SpWrite, 8), (Op::SpFinalize, 28), (Op::SpCount, 6), (Op::Debug, 2), (Op::Move, 4)],
    slots: 0,
    sp_slots: 3,
    keyed: true,
    max_len: 5000,
};

fn c06_history(ctx: &mut Ctx) -> Res {
    let n = if ctx.small { 10 } else { 50 };
    history_no_counts(ctx, &MIX_C06, n)
}

pub fn c06() -> Vec<Kind> {
    vec![
        Kind { name: "two-chunk-grid", total: SA * SB, quick: 400_000, thorough: SA * SB, miri: 20, f: sp_grid2 },
        Kind { name: "two-chunk-edges", total: 42 * 42, quick: 42 * 42, thorough: 42 * 42, miri: 20, f: sp_edges2 },
        Kind { name: "three-chunk-edges", total: 42 * 42 * 42, quick: 42 * 42 * 42, thorough: 42 * 42 * 42, miri: 20, f: sp_grid3 },
        Kind { name: "pieces", total: 0, quick: 20_000, thorough: 400_000, miri: 10, f: sp_pieces },
        Kind { name: "power-of-two-chunks", total: 126, quick: 126, thorough: 126, miri: 0, f: sp_width },
        Kind { name: "histories", total: 0, quick: 40_000, thorough: 2_000_000, miri: 20, f: c06_history },
        #[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
        super::far::c06(),
    ]
}

// ------------------------------------------------------------------------------------------ C16

/// Counts after every single call of histories made of every kind of feeding call.
fn counts(ctx: &mut Ctx) -> Res {
    let n = if ctx.small { 4 } else { 16 };
    let mut states: Vec<(b2::State, u64)> = (0..8)
        .map(|_| {
            let p = some_p(ctx);
            (gen::lib_params(&p).to_state(), 0)
        })
        .collect();
    let q = gen::gen_q(&mut ctx.rng);
    ctx.tr(|| format!("8 hashers, one BLAKE2sp hasher with a key of {} bytes", q.key.len()));
    let mut sp = gen::sp_params(&q).to_state();
    let mut spn = 0u64;
    for (s, _) in &states {
        ctx.count_eq("count of a new hasher", s.count(), 0)?;
    }
    ctx.count_eq("count of a new BLAKE2sp hasher", sp.count(), 0)?;
    for _ in 0..n {
        match ctx.rng.below(9) {
            0 | 1 | 2 => {
                let k = ctx.rng.below(8) as usize;
                let l = ctx.len(5000);
                let d = ctx.data(l);
                ctx.tr(|| format!("update({l}) of {k}"));
                #[cfg(feature = "std")]
                {
                    if ctx.rng.chance(1, 3) {
                        let _ = std::io::Write::write_all(&mut states[k].0, d);
                    } else {
                        states[k].0.update(d);
                    }
                }
                #[cfg(not(feature = "std"))]
                states[k].0.update(d);
                states[k].1 += l as u64;
            }
            3 | 4 => {
                let lens = world::World::eight_lens(ctx, 2000);
                let d: Vec<&[u8]> = lens.iter().map(|&l| ctx.data(l)).collect();
                ctx.tr(|| format!("update8({lens:?})"));
                if let [a, b, c, e, f, g, h, i] = &mut states[..] {
                    b2::update8(
                        &mut a.0, &mut b.0, &mut c.0, &mut e.0, &mut f.0, &mut g.0, &mut h.0, &mut i.0, d[0], d[1], d[2], d[3],
                        d[4], d[5], d[6], d[7],
                    );
                }
                for (s, l) in states.iter_mut().zip(lens) {
                    s.1 += l as u64;
                }
            }
            5 => {
                if let [a, b, c, e, f, g, h, i] = &mut states[..] {
                    let _ = b2::finalize8(&mut a.0, &mut b.0, &mut c.0, &mut e.0, &mut f.0, &mut g.0, &mut h.0, &mut i.0);
                }
            }
            6 => {
                let k = ctx.rng.below(8) as usize;
                let _ = states[k].0.finalize();
                let v = ctx.rng.chance(1, 2);
                states[k].0.set_last_node(v);
                let c = states[k].0.clone();
                states[(k + 1) % 8] = (c, states[k].1);
                let _ = sp.finalize();
            }
            _ => {
                let l = ctx.len(5000);
                let d = ctx.data(l);
                ctx.tr(|| format!("BLAKE2sp update({l})"));
                sp.update(d);
                spn += l as u64;
            }
        }
        for (i, (s, c)) in states.iter().enumerate() {
            ctx.count_eq(&format!("count of hasher {i}"), s.count(), *c)?;
        }
        ctx.count_eq("count of the BLAKE2sp hasher", sp.count(), spn)?;
    }
    ctx.sig = gen::mix64(ctx.sig ^ ctx.obs);
    Ok(())
}

/// Two feeds of every pair of small lengths, keyed and not, both algorithms, count read in between.
fn count_grid(ctx: &mut Ctx) -> Res {
    let (a, b) = ((ctx.idx % 140) as usize, (ctx.idx / 140) as usize);
    for keyed in [false, true] {
        let key = if keyed { gen::gen_key(&mut ctx.rng) } else { vec![] };
        let mut s = b2::Params::new().key(&key).to_state();
        let d = ctx.data(a + b);
        s.update(&d[..a]);
        ctx.count_eq("count after the first chunk", s.count(), a as u64)?;
        s.update(&d[a..]);
        ctx.count_eq("count after the second chunk", s.count(), (a + b) as u64)?;
        let mut s = b2::blake2sp::Params::new().key(&key).to_state();
        let (a, b) = (a * 8 + b % 8, b * 8);
        let d = ctx.data(a + b);
        s.update(&d[..a]);
        ctx.count_eq("BLAKE2sp count after the first chunk", s.count(), a as u64)?;
        s.update(&d[a..]);
        ctx.count_eq("BLAKE2sp count after the second chunk", s.count(), (a + b) as u64)?;
        let _ = s.finalize();
        ctx.count_eq("BLAKE2sp count after a digest", s.count(), (a + b) as u64)?;
    }
    Ok(())
}

fn count_width(ctx: &mut Ctx) -> Res {
    let k = 8 + ctx.idx % 14;
    let n = (1usize << k) + (ctx.idx / 14 % 9) as usize * 16 - 65;
    let d = ctx.data(n);
    let key = if ctx.rng.chance(1, 2) { gen::gen_key(&mut ctx.rng) } else { vec![] };
    let mut s = b2::Params::new().key(&key).to_state();
    let mut sp = b2::blake2sp::Params::new().key(&key).to_state();
    for r in 1..=3u64 {
        s.update(d);
        sp.update(d);
        ctx.count_eq("count", s.count(), r * n as u64)?;
        ctx.count_eq("BLAKE2sp count", sp.count(), r * n as u64)?;
    }
    Ok(())
}

pub fn c16() -> Vec<Kind> {
    vec![
        Kind { name: "counts-after-every-call", total: 0, quick: 60_000, thorough: 2_000_000, miri: 20, f: counts },
        Kind { name: "two-chunk-grid", total: 140 * 270, quick: 140 * 270, thorough: 140 * 270, miri: 20, f: count_grid },
        Kind { name: "power-of-two-chunks", total: 126, quick: 126, thorough: 126, miri: 0, f: count_width },
        #[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
        Kind { name: "counts-beyond-4GiB", total: 6, quick: 6, thorough: 6, miri: 0, f: crate::props::big::counts },
    ]
}

// ------------------------------------------------------------------------------------------ C20

static MIX_C20: Mix = Mix {
    ops: &[
        (Op::New, 6),
        (Op::NewParams, 8),
        (Op::MutParams, 8),
        (Op::CloneParams, 2),
        (Op::Update, 24),
        (Op::Finalize, 14),
        (Op::Clone, 12),
        (Op::CloneFrom, 4),
        (Op::LastNode, 4),
        (Op::Count, 3),
        (Op::Update8, 3),
        (Op::Finalize8, 2),
        (Op::SpNew, 4),
        (Op::SpUpdate, 10),
        (Op::SpFinalize, 5),
        (Op::SpCount, 2),
        (Op::Drop, 5),
        (Op::Move, 8),
        (Op::OneShot, 2),
        (Op::Hash8, 1),
        (Op::Exact8, 1),
        (Op::Exact4, 1),
        (Op::Debug, 1),
        (Op::Refused, 2),
    ],
    slots: 16,
    sp_slots: 4,
    keyed: true,
    max_len: 2500,
};

fn c20_history(ctx: &mut Ctx) -> Res {
    let n = if ctx.small { 16 } else { 200 };
    world::history(ctx, &MIX_C20, n, true)
}

/// A family tree of clones: every member gets its own continuation, in interleaved order.
pub fn clones(ctx: &mut Ctx) -> Res {
    let p = some_p(ctx);
    let mut fam: Vec<(b2::State, Model)> = vec![];
    let mut s = gen::lib_params(&p).to_state();
    let mut m = Model::new(p.clone(), 0);
    let a = ctx.len(700);
    let d = ctx.data(a);
    s.update(d);
    m.feed(ctx.oracle, d);
    fam.push((s, m));
    let steps = if ctx.small { 8 } else { 40 };
    for _ in 0..steps {
        let i = ctx.rng.below(fam.len() as u64) as usize;
        if fam.len() < 9 && ctx.rng.chance(1, 3) {
            let c = fam[i].0.clone();
            let m = Model { p: fam[i].1.p.clone(), o: fam[i].1.o.clone(), last: fam[i].1.last, count: fam[i].1.count, id: fam.len() as u32 };
            fam.push((c, m));
        } else if ctx.rng.chance(1, 6) {
            let v = ctx.rng.chance(1, 2);
            fam[i].0.set_last_node(v);
            fam[i].1.last = v;
        } else {
            let l = ctx.len(300);
            let d = ctx.data(l);
            fam[i].0.update(d);
            fam[i].1.feed(ctx.oracle, d);
        }
        let j = ctx.rng.below(fam.len() as u64) as usize;
        let h = fam[j].0.finalize();
        let m = &fam[j].1;
        ctx.hash_eq(&format!("digest of family member {j}"), &h, || m.digest())?;
        ctx.count_eq(&format!("count of family member {j}"), fam[j].0.count(), m.count)?;
    }
    while let Some((mut s, m)) = fam.pop() {
        let h = s.finalize();
        ctx.hash_eq("digest of a remaining family member", &h, || m.digest())?;
        ctx.count_eq("count of a remaining family member", s.count(), m.count)?;
    }
    ctx.sig = gen::mix64(ctx.sig ^ ctx.obs);
    Ok(())
}

/// Many hashers from one Params that keeps changing, fed in an interleaved order.
pub fn reuse(ctx: &mut Ctx) -> Res {
    let mut q = b2::Params::new();
    let mut p = P::default();
    let mut mq = Q { digest: 32, key: vec![] };
    let mut sq = b2::blake2sp::Params::new();
    let mut all: Vec<(b2::State, Model)> = vec![];
    let mut sps: Vec<(b2::blake2sp::State, oracle::Sp)> = vec![];
    let n = if ctx.small { 6 } else { 30 };
    for _ in 0..n {
        match ctx.rng.below(4) {
            0 => {
                crate::props::params::set_random_field(ctx, &mut q, &mut p, true);
                mq = gen::gen_q(&mut ctx.rng);
                sq.hash_length(mq.digest).key(&mq.key);
            }
            1 if all.len() < 10 => {
                all.push((q.to_state(), Model::new(p.clone(), all.len() as u32)));
                sps.push((sq.to_state(), oracle::Sp::new(mq.digest, &mq.key)));
            }
            _ if !all.is_empty() => {
                let i = ctx.rng.below(all.len() as u64) as usize;
                let l = ctx.len(1500);
                let d = ctx.data(l);
                all[i].0.update(d);
                all[i].1.feed(ctx.oracle, d);
                sps[i].0.update(d);
                if ctx.oracle {
                    sps[i].1.feed(d);
                }
            }
            _ => {}
        }
    }
    drop(q);
    drop(sq);
    for (i, (s, m)) in all.iter_mut().enumerate() {
        let h = s.finalize();
        ctx.hash_eq(&format!("digest of hasher {i} from shared parameters"), &h, || m.digest())?;
        ctx.count_eq("its count", s.count(), m.count)?;
        let h = sps[i].0.finalize();
        let o = &sps[i].1;
        ctx.hash_eq(&format!("digest of BLAKE2sp hasher {i} from shared parameters"), &h, || o.finish())?;
    }
    if all.is_empty() {
        ctx.trivial = true;
    }
    ctx.sig = gen::mix64(ctx.sig ^ ctx.obs);
    Ok(())
}

/// A hasher used across many unrelated hashes in between (nothing global may carry over).
fn disturbed(ctx: &mut Ctx) -> Res {
    let p = some_p(ctx);
    let q = gen::gen_q(&mut ctx.rng);
    let mut s = gen::lib_params(&p).to_state();
    let mut sp = gen::sp_params(&q).to_state();
    let mut m = Model::new(p, 0);
    let mut o = oracle::Sp::new(q.digest, &q.key);
    let n = if ctx.small { 2 } else { 6 };
    for _ in 0..n {
        let l = ctx.len(1400);
        let d = ctx.data(l);
        s.update(d);
        m.feed(ctx.oracle, d);
        sp.update(d);
        if ctx.oracle {
            o.feed(d);
        }
        // The disturbance, and the same hash before and after must agree.
        let l = ctx.len(2000);
        let d = ctx.data(l);
        let _ = b2::blake2s(d);
        let _ = b2::blake2sp::blake2sp(d);
        let k = gen::gen_key(&mut ctx.rng);
        let _ = b2::Params::new().key(&k).hash_length(7).last_node(true).to_state().update(d).finalize();
        let _ = b2::blake2sp::Params::new().key(&k).hash_length(9).to_state().update(d).finalize();
        let h = s.finalize();
        ctx.hash_eq("digest after unrelated hashing", &h, || m.digest())?;
        let h = sp.finalize();
        ctx.hash_eq("BLAKE2sp digest after unrelated hashing", &h, || o.finish())?;
        ctx.count_eq("count after unrelated hashing", s.count(), m.count)?;
    }
    ctx.sig = gen::mix64(ctx.sig ^ ctx.obs);
    Ok(())
}

pub fn c20() -> Vec<Kind> {
    vec![
        Kind { name: "clone-families", total: 0, quick: 30_000, thorough: 1_000_000, miri: 6, f: clones },
        Kind { name: "shared-parameters", total: 0, quick: 40_000, thorough: 1_000_000, miri: 6, f: reuse },
        Kind { name: "unrelated-hashing-between", total: 0, quick: 20_000, thorough: 600_000, miri: 6, f: disturbed },
        Kind { name: "populations", total: 0, quick: 8_000, thorough: 400_000, miri: 4, f: c20_history },
    ]
}

// ------------------------------------------------------------------------------------------ C11

/// Operations every configuration has (no io::Write, which needs std).
static MIX_C11: Mix = Mix {
    ops: &[
        (Op::New, 5),
        (Op::NewParams, 3),
        (Op::MutParams, 4),
        (Op::Update, 24),
        (Op::Finalize, 10),
        (Op::Clone, 4),
        (Op::LastNode, 4),
        (Op::Count, 4),
        (Op::Update8, 8),
        (Op::Finalize8, 5),
        (Op::SpNew, 4),
        (Op::SpUpdate, 14),
        (Op::SpFinalize, 7),
        (Op::SpCount, 3),
        (Op::OneShot, 4),
        (Op::Hash8, 5),
        (Op::Exact8, 5),
        (Op::Exact4, 5),
    ],
    slots: 10,
    sp_slots: 3,
    keyed: true,
    max_len: 4000,
};

pub fn c11_history(ctx: &mut Ctx) -> Res {
    let n = if ctx.small { 10 } else { 60 };
    world::history(ctx, &MIX_C11, n, true)
}

/// The single-call interfaces over all their lengths; the same cases in every configuration.
pub fn c11_lens(ctx: &mut Ctx) -> Res {
    let which = ctx.idx % 6;
    let i = ctx.cap((ctx.idx / 6) as usize, if which < 2 { 300 } else if which == 2 { 1100 } else { 200 });
    match which {
        0 | 1 => {
            let p = gen::gen_p(&mut ctx.rng, true);
            let d = ctx.data(i as usize);
            let h = gen::lib_params(&p).to_state().update(d).finalize();
            ctx.hash_eq("blake2s", &h, || oracle::blake2s(&p, d))
        }
        2 => {
            let q = gen::gen_q(&mut ctx.rng);
            let d = ctx.data(i as usize);
            let h = gen::sp_params(&q).to_state().update(d).finalize();
            ctx.hash_eq("blake2sp", &h, || oracle::blake2sp(q.digest, &q.key, d))
        }
        3 => crate::props::multi::hash8_lens(ctx, [i as usize; 8]),
        4 => crate::props::multi::exact(ctx, 4, (i as usize % 60 + 1) * 64, true),
        _ => crate::props::multi::exact(ctx, 8, (i as usize % 60 + 1) * 64, true),
    }
}

/// Refusals must be the same everywhere, too.
fn c11_refusals(ctx: &mut Ctx) -> Res {
    let mut p = gen::gen_p(&mut ctx.rng, true);
    let mut q = gen::lib_params(&p);
    for _ in 0..8 {
        let v = match ctx.rng.below(3) {
            0 => ctx.rng.below(40),
            1 => ctx.rng.below(300),
            _ => 256 * ctx.rng.below(300) + ctx.rng.below(40),
        };
        let which = ctx.rng.below(7);
        let d = ctx.data((v as usize).min(5000));
        let off = v << ctx.rng.below(50);
        let r = ctx.panics(|| {
            match which {
                0 => q.hash_length(v as usize),
                1 => q.key(d),
                2 => q.salt(d),
                3 => q.personal(d),
                4 => q.max_depth(v as u8),
                5 => q.node_offset(off),
                _ => q.inner_hash_length(v as usize),
            };
        });
        ctx.observe(&[u8::from(r.is_some())]);
        ctx.tr(|| format!("setter {which} with {v}: accepted {}", r.is_some()));
        let _ = &mut p;
    }
    let d = ctx.data(100);
    let h = q.to_state().update(d).finalize();
    ctx.observe(h.as_bytes());
    Ok(())
}

/// Invalid and valid length tuples of the exact functions: same refusals everywhere.
fn c11_exact_refusals(ctx: &mut Ctx) -> Res {
    crate::props::multi::exact_any_lens(ctx)
}

pub fn c11() -> Vec<Kind> {
    vec![
        Kind { name: "single-calls", total: 6 * 2500, quick: 6 * 2500, thorough: 6 * 2500, miri: 90, f: c11_lens },
        Kind { name: "histories", total: 0, quick: 6_000, thorough: 200_000, miri: 16, f: c11_history },
        Kind { name: "setter-refusals", total: 0, quick: 5_000, thorough: 100_000, miri: 20, f: c11_refusals },
        Kind { name: "length-refusals", total: 0, quick: 4_000, thorough: 100_000, miri: 10, f: c11_exact_refusals },
        Kind { name: "power-of-two-lengths", total: 126, quick: 126, thorough: 126, miri: 0, f: c11_width },
    ]
}

/// Everything works on the CPU the process sees.
pub fn c12() -> Vec<Kind> {
    vec![
        Kind { name: "single-calls", total: 6 * 2500, quick: 6 * 1000, thorough: 6 * 2500, miri: 36, f: c11_lens },
        Kind { name: "histories", total: 0, quick: 1_500, thorough: 100_000, miri: 8, f: c11_history },
    ]
}

fn c11_width(ctx: &mut Ctx) -> Res {
    if ctx.idx % 14 > 10 {
        ctx.trivial = true;
        return Ok(());
    }
    width(ctx)?;
    sp_width(ctx)
}

#[cfg(feature = "kernels")]
static MIX_FORCE: Mix = Mix {
    ops: &[
        (Op::New, 5),
        (Op::Update, 24),
        (Op::Finalize, 12),
        (Op::Clone, 4),
        (Op::LastNode, 2),
        (Op::Count, 3),
        (Op::Update8, 6),
        (Op::Finalize8, 4),
        (Op::SpNew, 4),
        (Op::SpUpdate, 14),
        (Op::SpFinalize, 8),
        (Op::SpCount, 3),
        (Op::ForcePortable, 14),
    ],
    slots: 8,
    sp_slots: 3,
    keyed: true,
    max_len: 4000,
};

/// The same history twice: once as is, once with the portable implementation forced at random
/// points. Forcing consumes choices in both runs, and is simply not carried out in the first.
#[cfg(feature = "kernels")]
fn forced(ctx: &mut Ctx) -> Res {
    let n = if ctx.small { 10 } else { 50 };
    world::history(ctx, &MIX_FORCE, n, true)
}

#[cfg(feature = "kernels")]
fn forced_lens(ctx: &mut Ctx) -> Res {
    let n = (ctx.idx / 2) as usize;
    let at = ctx.rng.below(n as u64 + 1) as usize;
    let d = ctx.data(n);
    ctx.tr(|| format!("force portable after {at} of {n} bytes"));
    if ctx.idx % 2 == 0 {
        let p = some_p(ctx);
        let mut a = gen::lib_params(&p).to_state();
        let mut b = a.clone();
        a.update(d);
        b.update(&d[..at]);
        b2::benchmarks::force_portable(&mut b);
        b.update(&d[at..]);
        let (a, b) = (a.finalize(), b.finalize());
        ctx.observe(a.as_bytes());
        if a.as_bytes() != b.as_bytes() {
            return bad(format!("forcing the portable implementation after {at} of {n} bytes changes the digest from {a:?} to {b:?}"));
        }
    } else {
        let q = gen::gen_q(&mut ctx.rng);
        let mut a = gen::sp_params(&q).to_state();
        let mut b = gen::sp_params(&q).to_state();
        a.update(d);
        b.update(&d[..at]);
        b2::benchmarks::force_portable_blake2sp(&mut b);
        b.update(&d[at..]);
        let (a, b) = (a.finalize(), b.finalize());
        ctx.observe(a.as_bytes());
        if a.as_bytes() != b.as_bytes() {
            return bad(format!(
                "BLAKE2sp: forcing the portable implementation after {at} of {n} bytes changes the digest from {a:?} to {b:?}"
            ));
        }
    }
    Ok(())
}

/// Comparisons within one process; everything else of C11 compares logs of whole processes.
pub fn c11f() -> Vec<Kind> {
    #[cfg(feature = "kernels")]
    {
        vec![
            Kind { name: "forced-portable", total: 0, quick: 10_000, thorough: 300_000, miri: 6, f: forced },
            Kind { name: "forced-portable-lengths", total: 5000, quick: 5000, thorough: 5000, miri: 20, f: forced_lens },
        ]
    }
    #[cfg(not(feature = "kernels"))]
    vec![]
}

// ------------------------------------------------------------------------------------------ C22

static MIX_C22: Mix = Mix {
    ops: &[
        (Op::New, 6),
        (Op::NewParams, 4),
        (Op::MutParams, 4),
        (Op::CloneParams, 1),
        (Op::Update, 20),
        (Op::Write, 6),
        (Op::Finalize, 8),
        (Op::Clone, 4),
        (Op::CloneFrom, 2),
        (Op::LastNode, 4),
        (Op::Count, 4),
        (Op::Update8, 10),
        (Op::Finalize8, 6),
        (Op::SpNew, 5),
        (Op::SpUpdate, 16),
        (Op::SpWrite, 4),
        (Op::SpFinalize, 7),
        (Op::SpCount, 4),
        (Op::Debug, 4),
        (Op::Drop, 2),
        (Op::Move, 2),
        (Op::ForcePortable, 2),
        (Op::OneShot, 3),
        (Op::Hash8, 5),
        (Op::Exact4, 4),
        (Op::Exact8, 4),
        (Op::Refused, 2),
    ],
    slots: 10,
    sp_slots: 4,
    keyed: true,
    max_len: 6000,
};

fn c22_history(ctx: &mut Ctx) -> Res {
    ctx.oracle = false; // only panics, crashes and time are at stake
    let n = if ctx.small { 12 } else { 80 };
    world::history(ctx, &MIX_C22, n, true)
}

/// The widest mixture of calls, for whoever looks at something other than digests.
pub fn c22_any(ctx: &mut Ctx) -> Res {
    let n = if ctx.small { 12 } else { 80 };
    world::history(ctx, &MIX_C22, n, true)
}

fn c22_grid(ctx: &mut Ctx) -> Res {
    ctx.oracle = false;
    grid2(ctx)
}

fn c22_sp_edges(ctx: &mut Ctx) -> Res {
    ctx.oracle = false;
    sp_grid3(ctx)
}

fn c22_sp_grid(ctx: &mut Ctx) -> Res {
    ctx.oracle = false;
    sp_grid2(ctx)
}

fn c22_width(ctx: &mut Ctx) -> Res {
    ctx.oracle = false;
    width(ctx)?;
    sp_width(ctx)
}

fn c22_values(ctx: &mut Ctx) -> Res {
    ctx.oracle = false;
    crate::props::value::c18_random(ctx)
}

fn c22_multi(ctx: &mut Ctx) -> Res {
    ctx.oracle = false;
    match ctx.idx % 3 {
        0 => crate::props::multi::hash8_lens(ctx, [(ctx.idx / 3) as usize; 8]),
        1 => crate::props::multi::one_lane_off(ctx),
        _ => crate::props::multi::hash8_one_off(ctx),
    }
}

#[cfg(feature = "std")]
fn c22_io(ctx: &mut Ctx) -> Res {
    ctx.oracle = false;
    crate::props::io::adaptors(ctx)
}

/// CPU time grows linearly: long inputs through every interface, cost per byte bounded generously.
#[cfg(all(target_os = "linux", not(miri)))]
fn c22_time(ctx: &mut Ctx) -> Res {
    use crate::sys::thread_cpu_ns;
    ctx.oracle = false;
    let pool = gen::pool();
    let n = (64usize << (ctx.idx / 7)).min(pool.size / 2) + ctx.rng.below(600) as usize;
    let which = ctx.idx % 7;
    let mut best = u64::MAX;
    let chunk = ctx.rng.range(1, 5) as usize * 37;
    let d = pool.random(0, n);
    for _ in 0..4 {
        let t = thread_cpu_ns();
        match which {
            0 => {
                let _ = b2::blake2s(d);
            }
            1 => {
                let _ = b2::blake2sp::blake2sp(d);
            }
            2 => {
                let mut s = b2::State::new();
                for c in d.chunks(chunk) {
                    s.update(c);
                }
                let _ = s.finalize();
            }
            3 => {
                let mut s = b2::blake2sp::State::new();
                for c in d.chunks(chunk) {
                    s.update(c);
                }
                let _ = s.finalize();
            }
            4 => {
                let p = b2::Params::new();
                let _ = b2::hash8(&p, &p, &p, &p, &p, &p, &p, &p, d, d, d, d, d, d, d, d);
            }
            5 => {
                let mut v: Vec<b2::State> = (0..8).map(|_| b2::State::new()).collect();
                let mut it = v.iter_mut();
                let mut s = || it.next().unwrap();
                let (a, b, c, e, f, g, h, i) = (s(), s(), s(), s(), s(), s(), s(), s());
                for x in d.chunks(chunk) {
                    b2::update8(a, b, c, e, f, g, h, i, x, x, x, x, x, x, x, x);
                }
                let _ = b2::finalize8(a, b, c, e, f, g, h, i);
            }
            _ => {
                let e = &d[..n / 64 * 64];
                let p = b2::Params::new();
                let _ = b2::hash8_exact(&p, e, e, e, e, e, e, e, e);
                let _ = b2::hash4_exact(&p, e, e, e, e);
            }
        }
        best = best.min(thread_cpu_ns() - t);
    }
    // For all eight lanes together an optimized build needs about 10 ns per byte, a debug build
    // less than 2000.
    let per_byte = if cfg!(debug_assertions) || cfg!(vh_san) { 60_000 } else { 600 };
    let limit = 30_000_000 + n as u64 * per_byte;
    ctx.tr(|| format!("{n} bytes, interface {which}: {best} ns of CPU time, limit {limit}"));
    ctx.add("timed_bytes", n as u64);
    if best > limit {
        return bad(format!("{n} bytes through interface {which} took {best} ns of CPU time four times over"));
    }
    Ok(())
}

pub fn c22() -> Vec<Kind> {
    vec![
        Kind { name: "histories", total: 0, quick: 30_000, thorough: 1_000_000, miri: 30, f: c22_history },
        Kind { name: "two-chunk-grid", total: GA * GB, quick: GA * GB, thorough: GA * GB, miri: 20, f: c22_grid },
        Kind { name: "sp-three-chunk-edges", total: 42 * 42 * 42, quick: 42 * 42 * 42, thorough: 42 * 42 * 42, miri: 10, f: c22_sp_edges },
        Kind { name: "sp-two-chunk-grid", total: SA * SB, quick: 150_000, thorough: SA * SB, miri: 10, f: c22_sp_grid },
        Kind { name: "power-of-two-chunks", total: 126, quick: 126, thorough: 126, miri: 0, f: c22_width },
        Kind { name: "eight-way", total: 3 * 2200, quick: 3 * 2200, thorough: 3 * 2200, miri: 12, f: c22_multi },
        Kind { name: "digest-values", total: 0, quick: 10_000, thorough: 200_000, miri: 20, f: c22_values },
        #[cfg(feature = "std")]
        Kind { name: "io-adaptors", total: 0, quick: 6_000, thorough: 200_000, miri: 10, f: c22_io },
        #[cfg(all(target_os = "linux", not(miri)))]
        Kind { name: "cpu-time", total: 7 * 16, quick: 7 * 16, thorough: 7 * 16, miri: 0, f: c22_time },
        #[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
        super::far::c22(),
    ]
}
