//! C15 and C16, far beyond what can be fed: hashers whose byte counter is set forward in memory.
//!
//! Where a hasher keeps its counter is found by comparing hashers that differ in what they were fed.
//! Before anything is judged, hashers set forward by little (where the other checks feed real
//! messages) must agree with the specification; a hasher that keeps its counter in some other way
//! is left alone.

use crate::gen;
use crate::run::{self, Ctx, Kind, Res};
use crate::world::{Mix, Model, Op, Slot, SpSlot, World};
use blake2s_simd as b2;
use std::sync::OnceLock;

const STEP: usize = 1237;
/// What the histories may feed after the counter was set.
const ROOM: u64 = 1 << 20;

struct Places {
    /// Offsets of words that count the bytes of one BLAKE2s hasher.
    single: Vec<usize>,
    /// And the bytes of all the leaves.
    sum: Vec<usize>,
}

fn words<T>(x: &T) -> Vec<u64> {
    let n = std::mem::size_of::<T>() / 8;
    let p = x as *const T as *const u64;
    (0..n).map(|i| unsafe { p.add(i).read_volatile() }).collect()
}

fn advance<T>(x: &mut T, at: &[usize], by: u64) {
    let p = x as *mut T as *mut u64;
    for i in at {
        unsafe { p.add(*i).write_volatile(p.add(*i).read_volatile().wrapping_add(by)) };
    }
}

fn find<T>(a: &T, b: &T, by: u64) -> Vec<usize> {
    let (a, b) = (words(a), words(b));
    (0..a.len()).filter(|i| b[*i].wrapping_sub(a[*i]) == by).collect()
}

fn one(n: usize) -> b2::State {
    let mut s = b2::State::new();
    s.update(gen::pool().random(0, n));
    s
}

fn sp(n: usize) -> b2::blake2sp::State {
    let mut s = b2::blake2sp::State::new();
    s.update(gen::pool().random(0, n));
    s
}

fn locate() -> Option<(Places, Places)> {
    if std::mem::align_of::<b2::State>() % 8 != 0 || std::mem::align_of::<b2::blake2sp::State>() % 8 != 0 {
        return None;
    }
    let by = 64 * STEP;
    let single = find(&one(5000), &one(5000 + by), by as u64);
    let a = Places { single, sum: vec![] };
    let (x, y) = (sp(5000), sp(5000 + 8 * by));
    let b = Places { single: find(&x, &y, by as u64), sum: find(&x, &y, 8 * by as u64) };
    (a.single.len() == 1 && b.single.len() == 8 && b.sum.len() <= 1).then_some((a, b))
}

fn set(s: &mut Slot, p: &Places, by: u64) {
    advance(&mut s.s, &p.single, by);
    s.m.o.skip(by);
    s.m.count += by;
}

fn set_sp(s: &mut SpSlot, p: &Places, by: u64) {
    advance(&mut s.s, &p.single, by);
    advance(&mut s.s, &p.sum, 8 * by);
    s.o.skip(by);
    s.count += 8 * by;
}

fn slot(r: &mut gen::Rng, id: u32) -> Slot {
    let keyed = r.chance(1, 2);
    let p = gen::gen_p(r, keyed);
    Slot { s: gen::lib_params(&p).to_state(), m: Model::new(p, id) }
}

fn sp_slot(r: &mut gen::Rng, id: u32) -> SpSlot {
    let q = gen::gen_q(r);
    SpSlot { s: gen::sp_params(&q).to_state(), o: oracle::Sp::new(q.digest, &q.key), q, count: 0, id }
}

/// What may be fed before a BLAKE2sp hasher is set forward: as long as no leaf has more than one block,
/// none can have been compressed, whatever is buffered where.
fn unbuffered(q: &gen::Q, n: usize) -> usize {
    if q.key.is_empty() {
        n.min(512)
    } else {
        0
    }
}

/// Is a hasher that was set forward the same as one that was fed?
fn faithful(a: &Places, b: &Places) -> bool {
    let mut r = gen::Rng::new(4242);
    (0..300).all(|_| {
        let mut x = slot(&mut r, 0);
        let mut y = sp_slot(&mut r, 0);
        let mut same = true;
        for round in 0..3 {
            let n = r.below(2000) as usize;
            let d = gen::pool().random(r.below(5000) as usize, n);
            x.s.update(d);
            x.m.feed(true, d);
            let d = if round == 0 { &d[..unbuffered(&y.q, n)] } else { d };
            y.s.update(d);
            y.o.feed(d);
            y.count += d.len() as u64;
            if round < 2 {
                let by = if r.chance(1, 2) { (1 << 32) - 64 * r.below(40) } else { 64 * r.below(60 << 20) };
                let by = if round == 0 { by } else { 64 * r.below(100) };
                set(&mut x, a, by);
                if round == 0 {
                    set_sp(&mut y, b, by);
                }
            }
            same &= x.s.finalize().as_bytes() == &x.m.digest()[..] && x.s.count() == x.m.count;
            same &= y.s.finalize().as_bytes() == &y.o.finish()[..] && y.s.count() == y.count;
        }
        same
    })
}

fn places() -> Option<&'static (Places, Places)> {
    static P: OnceLock<Option<(Places, Places)>> = OnceLock::new();
    P.get_or_init(|| run::quiet(|| locate().filter(|p| faithful(&p.0, &p.1))).unwrap_or(None)).as_ref()
}

static MIX: Mix = Mix {
    ops: &[
        (Op::Update, 30),
        (Op::Write, 6),
        (Op::Finalize, 16),
        (Op::Clone, 3),
        (Op::Count, 10),
        (Op::LastNode, 4),
        (Op::Update8, 24),
        (Op::Finalize8, 14),
        (Op::Move, 2),
    ],
    slots: 9,
    sp_slots: 0,
    keyed: true,
    max_len: 2000,
};
static SP_MIX: Mix = Mix {
    ops: &[(Op::SpUpdate, 30), (Op::SpWrite, 6), (Op::SpFinalize, 20), (Op::SpCount, 10)],
    slots: 1,
    sp_slots: 3,
    keyed: true,
    max_len: 3000,
};

/// How far: right below a power of two or another carry, or anywhere.
fn distance(r: &mut gen::Rng, fed: u64, per: u64) -> u64 {
    let most = (u64::MAX - ROOM) / per - fed;
    let to = match r.below(8) {
        0..=3 => (1u128 << r.range(32, 64)) as u64,
        4 => (r.range(1, 1 << 32) << 32).wrapping_shr(r.below(32) as u32),
        5 => most,
        6 => ((1u128 << r.range(33, 64)) + (1u128 << r.range(32, 63))) as u64,
        _ => r.u64(),
    };
    // For BLAKE2sp, of the leaves or of them all.
    let to = if r.chance(1, 2) { to } else { (to as u128 / per as u128) as u64 };
    (to.wrapping_sub(fed).wrapping_sub(r.below(3000) / per)).min(most) / 64 * 64
}

fn histories(ctx: &mut Ctx) -> Res {
    let Some((place, _)) = places() else {
        ctx.add("not_set_forward", 1);
        ctx.observe(b"-");
        return Ok(());
    };
    let mut w = World::new(&MIX);
    let n = if ctx.rng.chance(1, 4) { 1 } else { 8 };
    let mixed = ctx.rng.chance(1, 2);
    let all = distance(&mut ctx.rng, 2000, 1);
    for i in 0..n {
        let mut s = slot(&mut ctx.rng, i);
        let d = ctx.len(1000);
        let d = ctx.data(d);
        s.s.update(d);
        s.m.feed(true, d);
        let by = if mixed { distance(&mut ctx.rng, 2000, 1) } else { all };
        let id = i;
        ctx.tr(|| format!("state#{id}: parameters {:?}, {} bytes fed, its counter set forward by {by}", s.m.p, d.len()));
        set(&mut s, place, by);
        w.slots.push(s);
    }
    for _ in 0..ctx.rng.range(2, 12) {
        w.step(ctx)?;
    }
    w.settle(ctx, true)?;
    ctx.add("counters_set_forward", u64::from(n));
    ctx.sig = gen::mix64(ctx.sig ^ ctx.obs);
    Ok(())
}

fn sp_histories(ctx: &mut Ctx) -> Res {
    let Some((_, place)) = places() else {
        ctx.add("not_set_forward", 1);
        ctx.observe(b"-");
        return Ok(());
    };
    let mut w = World::new(&SP_MIX);
    for i in 0..ctx.rng.range(1, 4) as u32 {
        let mut s = sp_slot(&mut ctx.rng, i);
        let d = ctx.len(600);
        let d = ctx.data(unbuffered(&s.q, d));
        s.s.update(d);
        s.o.feed(d);
        s.count += d.len() as u64;
        let by = distance(&mut ctx.rng, 5000, 8);
        ctx.tr(|| format!("sp#{i}: parameters {:?}, {} bytes fed, the leaves' counters set forward by {by}", s.q, d.len()));
        set_sp(&mut s, place, by);
        w.sps.push(s);
        ctx.add("counters_set_forward", 1);
    }
    for _ in 0..ctx.rng.range(2, 12) {
        w.step(ctx)?;
    }
    w.settle(ctx, true)?;
    ctx.sig = gen::mix64(ctx.sig ^ ctx.obs);
    Ok(())
}

/// Setting forward works on this library, or is known not to.
fn selftest(ctx: &mut Ctx) -> Res {
    let n = places().is_some();
    ctx.tr(|| format!("counters {} be set forward", if n { "can" } else { "cannot" }));
    ctx.add("ways_to_set_counters", if n { 2 } else { 0 });
    ctx.observe(&[1]);
    Ok(())
}

pub fn kinds() -> Vec<Kind> {
    vec![
        Kind { name: "counters-can-be-set", total: 1, quick: 1, thorough: 1, miri: 0, f: selftest },
        Kind { name: "counters-set-forward", total: 0, quick: 40_000, thorough: 1_000_000, miri: 0, f: histories },
        Kind { name: "sp-counters-set-forward", total: 0, quick: 20_000, thorough: 500_000, miri: 0, f: sp_histories },
    ]
}
