//! Tens or hundreds of thousands of calls on one value.

use crate::gen;
use crate::run::{Ctx, Kind, Res};
use crate::world::Model;
use blake2s_simd as b2;

/// How many calls: around 2^16 mostly, sometimes several times as many.
fn calls(ctx: &mut Ctx) -> usize {
    if ctx.prop.ends_with('m') {
        // Once past 2^24.
        return (1 << 24) + ctx.rng.below(100) as usize;
    }
    let n = match ctx.rng.below(4) {
        0 => 65_000 + ctx.rng.below(1_100),
        1 => 65_530 + ctx.rng.below(80),
        2 => 131_000 + ctx.rng.below(200),
        _ => 70_000 + ctx.rng.below(230_000),
    } as usize;
    if cfg!(vh_san) {
        n / 16
    } else {
        n
    }
}

fn piece(ctx: &mut Ctx, style: u64) -> usize {
    match style {
        0 => 1,
        1 => ctx.rng.below(2) as usize,
        2 => ctx.rng.below(4) as usize,
        3 => 0,
        _ => {
            if ctx.rng.chance(1, 50) {
                64
            } else {
                ctx.rng.below(3) as usize
            }
        }
    }
}

/// One hasher, tiny updates, now and then a digest, a count, the flag.
fn updates(ctx: &mut Ctx) -> Res {
    let p = gen::gen_p(&mut ctx.rng, true);
    let n = calls(ctx);
    let style = ctx.rng.below(5);
    ctx.tr(|| format!("{n} updates in style {style} with {}", crate::world::describe(&p)));
    let mut s = gen::lib_params(&p).to_state();
    let mut m = Model::new(p, 0);
    for i in 0..n {
        let k = piece(ctx, style);
        let d = &gen::pool().random(i % 1000, 64)[..k];
        s.update(d);
        m.feed(ctx.oracle, d);
        if i % 4096 == 4095 {
            let h = s.finalize();
            ctx.hash_eq(&format!("digest after {} updates", i + 1), &h, || m.digest())?;
        }
    }
    ctx.add("calls_on_one_hasher", n as u64);
    let d = ctx.data(300);
    s.update(d);
    m.feed(ctx.oracle, d);
    ctx.count_eq(&format!("count after {n} updates"), s.count(), m.count)?;
    let h = s.finalize();
    ctx.hash_eq(&format!("digest after {n} updates"), &h, || m.digest())
}

/// One hasher, many digests (and flag changes and clones) before more input.
fn digests(ctx: &mut Ctx) -> Res {
    let p = gen::gen_p(&mut ctx.rng, true);
    let n = calls(ctx);
    let l = ctx.len(200);
    let d = ctx.data(l);
    ctx.tr(|| format!("{n} digests of {l} bytes"));
    let mut s = gen::lib_params(&p).to_state();
    let mut m = Model::new(p, 0);
    s.update(d);
    m.feed(ctx.oracle, d);
    let want = if ctx.oracle { m.digest() } else { s.finalize().as_bytes().to_vec() };
    let how = ctx.rng.below(3);
    for _ in 0..n {
        match how {
            0 => {}
            1 => s = s.clone(),
            _ => {
                s.set_last_node(!m.last).set_last_node(m.last);
            }
        }
        let h = s.finalize();
        if h.as_bytes() != &want[..] {
            return ctx.hash_eq("one of many digests", &h, || want);
        }
    }
    ctx.add("calls_on_one_hasher", n as u64);
    let d = ctx.data(100);
    s.update(d);
    m.feed(ctx.oracle, d);
    let h = s.finalize();
    ctx.hash_eq(&format!("digest after {n} digests"), &h, || m.digest())
}

fn sp_updates(ctx: &mut Ctx) -> Res {
    let q = gen::gen_q(&mut ctx.rng);
    let n = calls(ctx);
    let style = ctx.rng.below(5);
    ctx.tr(|| format!("{n} BLAKE2sp updates in style {style}"));
    let mut s = gen::sp_params(&q).to_state();
    let mut o = oracle::Sp::new(q.digest, &q.key);
    let mut total = 0u64;
    for i in 0..n {
        let k = piece(ctx, style);
        let d = &gen::pool().random(i % 1000, 64)[..k];
        s.update(d);
        if ctx.oracle {
            o.feed(d);
        }
        total += k as u64;
        if i % 4096 == 4095 {
            let h = s.finalize();
            ctx.hash_eq(&format!("BLAKE2sp digest after {} updates", i + 1), &h, || o.finish())?;
        }
    }
    if ctx.idx % 3 == 0 {
        for _ in 0..if n < 1 << 24 { n } else { n / 16 } {
            let _ = s.finalize();
        }
    }
    ctx.add("calls_on_one_hasher", n as u64);
    let d = ctx.data(1500);
    s.update(d);
    if ctx.oracle {
        o.feed(d);
    }
    ctx.count_eq(&format!("count after {n} updates"), s.count(), total + 1500)?;
    let h = s.finalize();
    ctx.hash_eq(&format!("BLAKE2sp digest after {n} updates"), &h, || o.finish())
}

/// The eight-way update as often, with different tiny inputs in each lane.
fn update8s(ctx: &mut Ctx) -> Res {
    let mut n = calls(ctx);
    if n < 1 << 24 {
        n = n / 2 + 33_000;
    }
    let mut st = crate::props::multi::eight_states(ctx);
    let style = ctx.rng.below(5);
    ctx.tr(|| format!("{n} update8 calls in style {style}"));
    for i in 0..n {
        let d: [&'static [u8]; 8] = std::array::from_fn(|j| {
            let k = piece(ctx, style);
            &gen::pool().random((i + 77 * j) % 1000, 64)[..k]
        });
        crate::props::multi::up8(ctx, &mut st, &d);
        if i % 8192 == 8191 {
            crate::props::multi::fin8(ctx, &mut st)?;
        }
    }
    ctx.add("calls_on_one_hasher", n as u64);
    crate::props::multi::fin8(ctx, &mut st)
}

/// Many hashers from one parameter set, one after the other; many changes of one parameter set.
fn from_params(ctx: &mut Ctx) -> Res {
    let n = calls(ctx);
    let mut p = gen::gen_p(&mut ctx.rng, true);
    let mut q = gen::lib_params(&p);
    let mut sq = gen::sp_params(&gen::Q { digest: p.digest, key: p.key.clone() });
    ctx.tr(|| format!("{n} hashers from one parameter set"));
    let mut kept = vec![];
    for i in 0..n {
        if ctx.idx % 2 == 1 {
            p.digest = 1 + i % 32;
            q.hash_length(p.digest);
            sq.hash_length(p.digest);
            if i % 3 == 0 {
                p.key = gen::pool().random(i % 500, i % 33).to_vec();
                q.key(&p.key);
                sq.key(&p.key);
            }
        }
        let (s, t) = (q.to_state(), sq.to_state());
        if i % 4096 == 4095 || i + 1 == n {
            kept.push((s, t, p.clone()));
        }
    }
    let d = ctx.data(700);
    for (mut s, mut t, p) in kept {
        let h = s.update(d).finalize();
        ctx.hash_eq("digest of one of many hashers", &h, || oracle::blake2s(&p, d))?;
        let h = t.update(d).finalize();
        ctx.hash_eq("BLAKE2sp digest of one of many hashers", &h, || oracle::blake2sp(p.digest, &p.key, d))?;
    }
    ctx.add("hashers", 2 * n as u64);
    Ok(())
}

#[cfg(feature = "std")]
fn writes(ctx: &mut Ctx) -> Res {
    use std::io::Write;
    let n = calls(ctx);
    let style = ctx.rng.below(5);
    ctx.tr(|| format!("{n} writes in style {style}"));
    let p = gen::gen_p(&mut ctx.rng, true);
    let q = gen::Q { digest: p.digest, key: p.key.clone() };
    let mut s = gen::lib_params(&p).to_state();
    let mut t = gen::sp_params(&q).to_state();
    let mut m = Model::new(p, 0);
    let mut o = oracle::Sp::new(q.digest, &q.key);
    for i in 0..n {
        let k = piece(ctx, style);
        let d = &gen::pool().random(i % 1000, 64)[..k];
        for r in [s.write(d), t.write(d)] {
            match r {
                Ok(x) if x == k => {}
                r if ctx.oracle => return crate::run::bad(format!("write {i} of {k} bytes returned {r:?}")),
                _ => {}
            }
        }
        if i % 7 == 0 && (s.flush().is_err() || t.flush().is_err()) && ctx.oracle {
            return crate::run::bad(format!("flush after {i} writes failed"));
        }
        m.feed(ctx.oracle, d);
        if ctx.oracle {
            o.feed(d);
        }
    }
    ctx.add("calls_on_one_hasher", n as u64);
    ctx.count_eq("count", s.count(), m.count)?;
    ctx.count_eq("BLAKE2sp count", t.count(), m.count)?;
    let h = s.finalize();
    ctx.hash_eq(&format!("digest after {n} writes"), &h, || m.digest())?;
    let h = t.finalize();
    ctx.hash_eq(&format!("BLAKE2sp digest after {n} writes"), &h, || o.finish())
}

/// Counts only.
fn counts(ctx: &mut Ctx) -> Res {
    let n = calls(ctx);
    let style = ctx.rng.below(5);
    ctx.tr(|| format!("{n} updates in style {style}"));
    let key = if ctx.rng.chance(1, 2) { gen::gen_key(&mut ctx.rng) } else { vec![] };
    let mut s = b2::Params::new().key(&key).to_state();
    let mut t = b2::blake2sp::Params::new().key(&key).to_state();
    let mut c = 0u64;
    for i in 0..n {
        let k = piece(ctx, style);
        let d = &gen::pool().random(i % 1000, 64)[..k];
        s.update(d);
        t.update(d);
        c += k as u64;
        if s.count() != c || t.count() != c {
            ctx.count_eq(&format!("count after {} updates", i + 1), s.count(), c)?;
            ctx.count_eq(&format!("BLAKE2sp count after {} updates", i + 1), t.count(), c)?;
        }
        if i % 1024 == 0 {
            let _ = (s.finalize(), t.finalize());
        }
    }
    ctx.add("counts_checked", 2 * n as u64);
    ctx.count_eq("final count", s.count(), c)?;
    ctx.count_eq("final BLAKE2sp count", t.count(), c)
}

/// Past 2^32 calls that do nothing.
fn empty_updates(ctx: &mut Ctx) -> Res {
    let q = gen::gen_q(&mut ctx.rng);
    let p = oracle::P { digest: q.digest, key: q.key.clone(), ..Default::default() };
    let l = ctx.len(200);
    let d = ctx.data(l);
    let mut s = gen::lib_params(&p).to_state();
    let mut t = gen::sp_params(&q).to_state();
    s.update(d);
    t.update(d);
    let n = (1u64 << 32) + ctx.rng.below(100);
    let sp = ctx.idx % 2 == 1;
    for _ in 0..n {
        if sp {
            t.update(std::hint::black_box(&[]));
        } else {
            s.update(std::hint::black_box(&[]));
        }
    }
    ctx.add("calls_on_one_hasher", n);
    ctx.count_eq("count", s.count(), l as u64)?;
    ctx.count_eq("BLAKE2sp count", t.count(), l as u64)?;
    let h = s.finalize();
    ctx.hash_eq(&format!("digest after {n} updates by nothing"), &h, || oracle::blake2s(&p, d))?;
    let h = t.finalize();
    ctx.hash_eq(&format!("BLAKE2sp digest after {n} updates by nothing"), &h, || oracle::blake2sp(q.digest, &q.key, d))
}

/// Very many values alive at the same time.
fn crowd(ctx: &mut Ctx) -> Res {
    let n = 66_000 + ctx.rng.below(100_000) as usize;
    let k = 66_000 + ctx.rng.below(3000) as usize;
    let key = gen::gen_key(&mut ctx.rng);
    ctx.tr(|| format!("{n} hashers, {k} BLAKE2sp hashers and {n} parameter sets alive at once"));
    let mut sets: Vec<(b2::Params, oracle::P)> = Vec::with_capacity(n);
    for i in 0..n {
        let p = oracle::P {
            key: if i % 3 == 0 { key.clone() } else { vec![] },
            offset: i as u64,
            digest: 1 + i % 32,
            ..Default::default()
        };
        sets.push((gen::lib_params(&p), p));
    }
    let mut ones: Vec<b2::State> = sets.iter().map(|p| p.0.to_state()).collect();
    let q = b2::blake2sp::Params::new().key(&key).clone();
    let mut trees: Vec<b2::blake2sp::State> = (0..k).map(|_| q.to_state()).collect();
    let piece = |i: usize, round: usize| &gen::pool().random(i % 4001, 300)[..(i * 7 + round * 31) % 300];
    for round in 0..3 {
        for (i, s) in ones.iter_mut().enumerate() {
            s.update(piece(i, round));
        }
        for (i, s) in trees.iter_mut().enumerate() {
            s.update(piece(i, round));
        }
    }
    ctx.add("values_alive_at_once", (2 * n + k) as u64);
    let whole = |i: usize| -> Vec<u8> { (0..3).flat_map(|r| piece(i, r).iter().copied()).collect() };
    for (i, s) in ones.iter_mut().enumerate() {
        let h = s.finalize();
        ctx.hash_eq(&format!("digest of hasher {i} of {n}"), &h, || oracle::blake2s(&sets[i].1, &whole(i)))?;
    }
    for (i, s) in trees.iter_mut().enumerate() {
        let h = s.finalize();
        ctx.hash_eq(&format!("digest of BLAKE2sp hasher {i} of {k}"), &h, || oracle::blake2sp(32, &key, &whole(i)))?;
    }
    for (i, p) in sets.iter().enumerate().filter(|x| x.0 % 7 == 0) {
        let h = p.0.to_state().finalize();
        ctx.hash_eq(&format!("parameter set {i} of {n}"), &h, || oracle::blake2s(&p.1, &[]))?;
    }
    Ok(())
}

/// The same past 2^24 calls.
pub fn millions(prop: &str) -> Option<Vec<Kind>> {
    let m = |name, f| Kind { name, total: 0, quick: 2, thorough: 10, miri: 0, f };
    let far = Kind { name: "billions-of-updates", total: 0, quick: 0, thorough: 2, miri: 0, f: empty_updates };
    Some(match prop {
        "C04m" => vec![m("millions-of-updates", updates as fn(&mut Ctx) -> Res), m("millions-of-digests", digests), far],
        "C06m" => vec![m("millions-of-updates", sp_updates), far],
        "C07m" => vec![m("millions-of-update8", update8s)],
        "C16m" => vec![m("millions-of-updates", counts)],
        "C20m" => vec![m("millions-of-hashers", from_params), m("all-alive-at-once", crowd)],
        #[cfg(feature = "std")]
        "C23m" => vec![m("millions-of-writes", writes)],
        _ => return None,
    })
}

fn any(ctx: &mut Ctx) -> Res {
    ctx.oracle = false;
    match ctx.idx % 5 {
        0 => updates(ctx),
        1 => sp_updates(ctx),
        2 => update8s(ctx),
        3 => from_params(ctx),
        _ => digests(ctx),
    }
}

fn k(name: &'static str, f: fn(&mut Ctx) -> Res, quick: u64) -> Kind {
    Kind { name, total: 0, quick, thorough: quick * 20, miri: 0, f }
}

pub fn c04() -> Vec<Kind> {
    vec![k("many-updates", updates, 24), k("many-digests", digests, 12)]
}
pub fn c06() -> Vec<Kind> {
    vec![k("many-updates", sp_updates, 24)]
}
pub fn c07() -> Vec<Kind> {
    vec![k("many-update8", update8s, 12)]
}
pub fn c16() -> Vec<Kind> {
    vec![k("many-updates", counts, 24)]
}
pub fn c20() -> Vec<Kind> {
    vec![k("many-hashers", from_params, 12), k("many-digests", digests, 12)]
}
pub fn c22() -> Vec<Kind> {
    vec![k("many-calls", any, 25)]
}
#[cfg(feature = "std")]
pub fn c23() -> Vec<Kind> {
    vec![k("many-writes", writes, 12)]
}
