//! C02 and C03: parameters.

use crate::gen::{self, Q};
use crate::props::digest;
use crate::run::{bad, Ctx, Kind, Res};
use crate::world::Op;
use blake2s_simd as b2;
use oracle::P;

/// Set one field, chosen at random, on the library's parameters and on the specification's.
pub fn set_random_field(ctx: &mut Ctx, q: &mut b2::Params, p: &mut P, keyed: bool) {
    let n = gen::gen_p(&mut ctx.rng, keyed);
    // gen_p leaves fields at their default fairly often, which is wanted here too.
    match ctx.rng.below(11) {
        0 => {
            p.digest = ctx.rng.range(1, 32) as usize;
            q.hash_length(p.digest);
        }
        1 if keyed => {
            p.key = if ctx.rng.chance(1, 4) { vec![] } else { gen::gen_key(&mut ctx.rng) };
            q.key(&p.key);
        }
        1 | 2 => {
            let k = ctx.rng.below(9) as usize;
            let mut s = [0u8; 8];
            ctx.rng.fill(&mut s[..k]);
            q.salt(&s[..k]);
            p.salt = s;
        }
        3 => {
            let k = ctx.rng.below(9) as usize;
            let mut s = [0u8; 8];
            ctx.rng.fill(&mut s[..k]);
            q.personal(&s[..k]);
            p.personal = s;
        }
        4 => {
            p.fanout = n.fanout;
            q.fanout(n.fanout);
        }
        5 => {
            p.depth = n.depth;
            q.max_depth(n.depth);
        }
        6 => {
            p.leaf = n.leaf;
            q.max_leaf_length(n.leaf);
        }
        7 => {
            p.offset = n.offset;
            q.node_offset(n.offset);
        }
        8 => {
            p.node_depth = n.node_depth;
            q.node_depth(n.node_depth);
        }
        9 => {
            p.inner = n.inner;
            q.inner_hash_length(usize::from(n.inner));
        }
        _ => {
            p.last_node = n.last_node;
            q.last_node(n.last_node);
        }
    }
}

fn check(ctx: &mut Ctx, what: &str, q: &b2::Params, p: &P, msg: &[u8]) -> Res {
    ctx.tr(|| format!("{what}: {} over {}", crate::world::describe(p), gen::short(msg)));
    let h = q.to_state().update(msg).finalize();
    digest::record_s(ctx, p, msg, h.as_bytes());
    ctx.hash_eq(what, &h, || oracle::blake2s(p, msg))
}

const SWEEP_LENS: [usize; 3] = [0, 64, 100];

/// Every value of the byte-sized fields and every bit of the wide ones, one at a time.
fn sweep(ctx: &mut Ctx) -> Res {
    let msg = ctx.data(SWEEP_LENS[(ctx.idx % 3) as usize]);
    let i = ctx.idx / 3;
    let mut p = if ctx.rng.chance(1, 2) { P::default() } else { gen::gen_p(&mut ctx.rng, true) };
    match i {
        0..=255 => p.fanout = i as u8,
        256..=510 => p.depth = (i - 255) as u8,
        511..=766 => p.node_depth = (i - 511) as u8,
        767..=799 => p.inner = (i - 767) as u8,
        800..=831 => p.leaf = 1 << (i - 800),
        832..=879 => p.offset = 1 << (i - 832),
        880..=943 => p.salt = (1u64 << (i - 880)).to_le_bytes(),
        944..=1007 => p.personal = (1u64 << (i - 944)).to_le_bytes(),
        1008..=1039 => p.digest = (i - 1008) as usize + 1,
        1040..=1071 => p.key = vec![(i * 7) as u8; (i - 1040) as usize + 1],
        1072 => p.last_node = !p.last_node,
        1073 => p.leaf = !0,
        1074 => p.offset = (1 << 48) - 1,
        _ => {}
    }
    let q = gen::lib_params(&p);
    check(ctx, "one field", &q, &p, msg)?;
    // The same through the flag on the hasher, which overrides the parameter.
    let mut s = q.to_state();
    s.update(msg);
    let other = P { last_node: !p.last_node, ..p.clone() };
    let h = s.set_last_node(other.last_node).finalize();
    ctx.hash_eq("last node flag set on the hasher", &h, || oracle::blake2s(&other, msg))?;
    let h = s.set_last_node(p.last_node).finalize();
    ctx.hash_eq("last node flag set back", &h, || oracle::blake2s(&p, msg))
}

/// A longer value overwritten by a shorter one must leave nothing behind.
fn residue(ctx: &mut Ctx) -> Res {
    let i = ctx.idx;
    let mut p = P::default();
    let mut q = b2::Params::new();
    if i < 33 * 33 {
        let (a, b) = ((i % 33) as usize, (i / 33) as usize);
        let (mut k1, mut k2) = (vec![0u8; a], vec![0u8; b]);
        ctx.rng.fill(&mut k1);
        ctx.rng.fill(&mut k2);
        q.key(&k1);
        if ctx.rng.chance(1, 3) {
            let _ = q.to_state();
        }
        q.key(&k2);
        p.key = k2;
    } else {
        let i = i - 33 * 33;
        let (a, b) = ((i % 9) as usize, (i / 9 % 9) as usize);
        let (mut s1, mut s2) = ([0u8; 8], [0u8; 8]);
        ctx.rng.fill(&mut s1);
        ctx.rng.fill(&mut s2[..b]);
        if i / 81 == 0 {
            q.salt(&s1[..a]).salt(&s2[..b]);
            p.salt = s2;
        } else {
            q.personal(&s1[..a]).personal(&s2[..b]);
            p.personal = s2;
        }
    }
    let n = ctx.len(300);
    let msg = ctx.data(n);
    check(ctx, "overwritten value", &q, &p, msg)
}

fn random(ctx: &mut Ctx) -> Res {
    let p = gen::gen_p(&mut ctx.rng, true);
    let n = ctx.len(3000);
    let msg = ctx.data(n);
    let q = gen::lib_params(&p);
    check(ctx, "random parameters", &q, &p, msg)
}

/// Setters in any order, repeated, interleaved with making hashers; hashers made earlier keep the
/// parameters of their time.
fn orders(ctx: &mut Ctx) -> Res {
    let mut p = P::default();
    let mut q = if ctx.rng.chance(1, 2) { b2::Params::new() } else { b2::Params::default() };
    let n = if ctx.small { 8 } else { 24 };
    let steps = ctx.rng.range(1, n);
    let mut early: Vec<(b2::State, P)> = vec![];
    for _ in 0..steps {
        set_random_field(ctx, &mut q, &mut p, true);
        let p2 = p.clone();
        ctx.tr(|| format!("now {}", crate::world::describe(&p2)));
        if ctx.rng.chance(1, 6) && early.len() < 4 {
            early.push((q.to_state(), p.clone()));
        }
        match ctx.rng.below(20) {
            0 => q = q.clone(),
            1 => {
                let mut other = gen::lib_params(&gen::gen_p(&mut ctx.rng, true));
                other.clone_from(&q);
                q = other;
            }
            _ => {}
        }
    }
    let n = ctx.len(400);
    let msg = ctx.data(n);
    check(ctx, "after setters", &q, &p, msg)?;
    for (mut s, p) in early {
        let h = s.update(msg).finalize();
        ctx.hash_eq("hasher made before later setters", &h, || oracle::blake2s(&p, msg))?;
    }
    check(ctx, "parameters used again", &q, &p, msg)
}

pub fn c02() -> Vec<Kind> {
    vec![
        Kind { name: "field-sweep", total: 1075 * 3, quick: 1075 * 3, thorough: 1075 * 3, miri: 40, f: sweep },
        Kind { name: "overwritten-values", total: 33 * 33 + 162, quick: 33 * 33 + 162, thorough: 33 * 33 + 162, miri: 20, f: residue },
        Kind { name: "random-parameters", total: 0, quick: 200_000, thorough: 6_000_000, miri: 40, f: random },
        Kind { name: "setter-histories", total: 0, quick: 100_000, thorough: 3_000_000, miri: 20, f: orders },
    ]
}

// ------------------------------------------------------------------------------------------ C03

#[derive(Clone, Copy, Debug, PartialEq)]
enum Field {
    Digest,
    Key,
    Salt,
    Personal,
    Depth,
    Offset,
    Inner,
    SpDigest,
    SpKey,
}

fn valid(f: Field, v: u64) -> bool {
    match f {
        Field::Digest | Field::SpDigest => (1..=32).contains(&v),
        Field::Key | Field::SpKey => v <= 32,
        Field::Salt | Field::Personal => v <= 8,
        Field::Depth => v != 0,
        Field::Offset => v < 1 << 48,
        Field::Inner => v <= 32,
    }
}

/// A value set through a random valid prior state; accepted iff valid; digest as if refused values
/// were never tried.
fn attempt(ctx: &mut Ctx, f: Field, v: u64) -> Res {
    ctx.sig = gen::mix64(v ^ (f as u64) << 60);
    let msg = ctx.data(70);
    let want = valid(f, v);
    ctx.add(if want { "valid_values" } else { "invalid_values" }, 1);
    ctx.tr(|| format!("{f:?} = {v}"));
    let data: &'static [u8] = match f {
        Field::Key | Field::SpKey | Field::Salt | Field::Personal => {
            if v > gen::pool().size as u64 {
                return huge_slice(ctx, f, v);
            }
            ctx.data(v as usize)
        }
        _ => &[],
    };
    if matches!(f, Field::SpDigest | Field::SpKey) {
        let mut m = gen::gen_q(&mut ctx.rng);
        let mut q = gen::sp_params(&m);
        let done = ctx.panics(|| {
            match f {
                Field::SpDigest => q.hash_length(v as usize),
                _ => q.key(data),
            };
        });
        verdict(ctx, f, v, want, done.is_some())?;
        if want {
            match f {
                Field::SpDigest => m.digest = v as usize,
                _ => m.key = data.to_vec(),
            }
        }
        return after_sp(ctx, &q, &m, msg);
    }
    let mut p = gen::gen_p(&mut ctx.rng, true);
    let mut q = gen::lib_params(&p);
    let done = ctx.panics(|| {
        match f {
            Field::Digest => q.hash_length(v as usize),
            Field::Key => q.key(data),
            Field::Salt => q.salt(data),
            Field::Personal => q.personal(data),
            Field::Depth => q.max_depth(v as u8),
            Field::Offset => q.node_offset(v),
            _ => q.inner_hash_length(v as usize),
        };
    });
    verdict(ctx, f, v, want, done.is_some())?;
    if want {
        match f {
            Field::Digest => p.digest = v as usize,
            Field::Key => p.key = data.to_vec(),
            Field::Salt => {
                p.salt = [0; 8];
                p.salt[..data.len()].copy_from_slice(data);
            }
            Field::Personal => {
                p.personal = [0; 8];
                p.personal[..data.len()].copy_from_slice(data);
            }
            Field::Depth => p.depth = v as u8,
            Field::Offset => p.offset = v,
            _ => p.inner = v as u8,
        }
    }
    let h = ctx.panics(|| q.to_state().update(msg).finalize());
    let Some(h) = h else { return bad(format!("hashing panics after {f:?} = {v}")) };
    ctx.hash_eq(&format!("digest after {f:?} = {v} was {}", if want { "accepted" } else { "refused" }), &h, || {
        oracle::blake2s(&p, msg)
    })
}

fn verdict(ctx: &mut Ctx, f: Field, v: u64, want: bool, accepted: bool) -> Res {
    ctx.observe(&[u8::from(accepted)]);
    if want && !accepted {
        return bad(format!("{f:?}: the valid value {v} is refused"));
    }
    if !want && accepted {
        return bad(format!("{f:?}: the invalid value {v} is accepted"));
    }
    Ok(())
}

fn after_sp(ctx: &mut Ctx, q: &b2::blake2sp::Params, m: &Q, msg: &[u8]) -> Res {
    let h = ctx.panics(|| q.to_state().update(msg).finalize());
    let Some(h) = h else { return bad("hashing panics after the setter".into()) };
    ctx.hash_eq("BLAKE2sp digest after the setter", &h, || oracle::blake2sp(m.digest, &m.key, msg))
}

/// Slices whose length is valid only modulo 2^32.
#[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
fn huge_slice(ctx: &mut Ctx, f: Field, v: u64) -> Res {
    let h = crate::sys::Huge::new(&vec![0x5au8; 1 << 21], v as usize);
    let data = h.slice(0, v as usize);
    let p = gen::gen_p(&mut ctx.rng, true);
    let m = gen::gen_q(&mut ctx.rng);
    let mut q = gen::lib_params(&p);
    let mut q2 = gen::sp_params(&m);
    let done = ctx.panics(|| {
        match f {
            Field::SpKey => {
                q2.key(data);
            }
            Field::Key => {
                q.key(data);
            }
            Field::Salt => {
                q.salt(data);
            }
            _ => {
                q.personal(data);
            }
        };
    });
    verdict(ctx, f, v, false, done.is_some())?;
    let msg = ctx.data(70);
    let h = q.to_state().update(msg).finalize();
    ctx.hash_eq("digest after refusal", &h, || oracle::blake2s(&p, msg))?;
    after_sp(ctx, &q2, &m, msg)
}

#[cfg(not(all(target_os = "linux", target_pointer_width = "64", not(miri))))]
fn huge_slice(ctx: &mut Ctx, _f: Field, _v: u64) -> Res {
    ctx.trivial = true;
    Ok(())
}

const LEN_FIELDS: [Field; 3] = [Field::Digest, Field::Inner, Field::SpDigest];
const SLICE_FIELDS: [Field; 4] = [Field::Key, Field::Salt, Field::Personal, Field::SpKey];

/// Every value up to 70000 (past one byte and two bytes of width) of the length-valued setters.
fn ints(ctx: &mut Ctx) -> Res {
    let f = LEN_FIELDS[(ctx.idx % 3) as usize];
    attempt(ctx, f, ctx.idx / 3)
}

pub fn slices(ctx: &mut Ctx) -> Res {
    let f = SLICE_FIELDS[(ctx.idx % 4) as usize];
    let i = ctx.idx / 4;
    let max = gen::pool().size as u64;
    let v = if i < 1400 { i } else { 65536 - 40 + (i - 1400) };
    attempt(ctx, f, v.min(max))
}

fn depth(ctx: &mut Ctx) -> Res {
    attempt(ctx, Field::Depth, ctx.idx)
}

/// Values that only look valid after truncation to 8, 16 or 32 bits, or as signed numbers.
fn wide(ctx: &mut Ctx) -> Res {
    let low = ctx.idx % 40;
    let hi = ctx.idx / 40 % 64;
    let f = [Field::Digest, Field::Inner, Field::SpDigest, Field::Offset][(ctx.idx / 40 / 64) as usize];
    let v = match ctx.rng.below(3) {
        0 => (1u64 << hi).wrapping_add(low),
        1 => (!0u64 << hi).wrapping_add(low),
        _ => (1u64 << hi).wrapping_sub(low),
    };
    // On narrower targets the value really is truncated before the call.
    let v = if f == Field::Offset { v } else { v as usize as u64 };
    attempt(ctx, f, v)
}

fn offsets(ctx: &mut Ctx) -> Res {
    let v = match ctx.rng.below(5) {
        0 => (1u64 << 48).wrapping_sub(1 + ctx.rng.below(1000)),
        1 => (1u64 << 48) + ctx.rng.below(1000),
        2 => ctx.rng.u64() & 0xffff_ffff_ffff,
        3 => ctx.rng.u64() >> ctx.rng.below(20),
        _ => ctx.rng.u64(),
    };
    attempt(ctx, Field::Offset, v)
}

fn huge(ctx: &mut Ctx) -> Res {
    let f = SLICE_FIELDS[(ctx.idx % 4) as usize];
    let v = (1u64 << 32) + [0, 1, 8, 32][(ctx.idx / 4 % 4) as usize];
    attempt(ctx, f, v)
}

/// A setter call with a value BLAKE2 cannot represent: which one, and whether it was accepted.
pub fn refused_setter(ctx: &mut Ctx, q: &mut b2::Params) -> (u64, bool) {
    let which = ctx.rng.below(7);
    let v = match ctx.rng.below(3) {
        0 => 33 + ctx.rng.below(20),
        1 => 256 * ctx.rng.range(1, 4) + ctx.rng.below(33),
        _ => 64 + ctx.rng.below(1000),
    } as usize;
    let d = ctx.data(v);
    ctx.tr(|| format!("invalid setter {which} with {v} (or max_depth 0)"));
    let off = (1u64 << 48) << ctx.rng.below(15) | ctx.rng.below(1000);
    let r = ctx.panics(|| {
        match which {
            0 => q.hash_length(v),
            1 => q.key(d),
            2 => q.salt(d),
            3 => q.personal(d),
            4 => q.max_depth(0),
            5 => q.node_offset(off),
            _ => q.inner_hash_length(v),
        };
    });
    ctx.observe(&[u8::from(r.is_some())]);
    ctx.add("refusals_tried", 1);
    (which, r.is_some())
}

/// The same for BLAKE2sp, with a look at what the parameter set does afterwards.
pub fn refused_sp_setter(ctx: &mut Ctx) -> Res {
    let mut m = gen::gen_q(&mut ctx.rng);
    let mut q = gen::sp_params(&m);
    for _ in 0..ctx.rng.range(1, 4) {
        if ctx.rng.chance(1, 3) {
            m = gen::gen_q(&mut ctx.rng);
            q.key(&m.key).hash_length(m.digest);
        }
        let v = match ctx.rng.below(3) {
            0 => 33 + ctx.rng.below(20),
            1 => 256 * ctx.rng.range(1, 4) + ctx.rng.below(33),
            _ => 64 + ctx.rng.below(1000),
        } as usize;
        let zero = ctx.rng.chance(1, 3);
        let d = ctx.data(v);
        let by_key = ctx.rng.chance(1, 2);
        ctx.tr(|| format!("invalid BLAKE2sp {} {v}", if by_key { "key of" } else { "hash_length" }));
        let r = ctx.panics(|| {
            if by_key {
                q.key(d);
            } else {
                q.hash_length(if zero { 0 } else { v });
            }
        });
        ctx.observe(&[u8::from(r.is_some())]);
        ctx.add("refusals_tried", 1);
        if r.is_some() {
            // Accepted: C03's other kinds report that.
            return Ok(());
        }
    }
    let n = ctx.len(700);
    let msg = ctx.data(n);
    let h = q.to_state().update(msg).finalize();
    ctx.hash_eq("BLAKE2sp digest after refused setters", &h, || oracle::blake2sp(m.digest, &m.key, msg))
}

static MIX_C03: crate::world::Mix = crate::world::Mix {
    ops: &[
        (Op::New, 3),
        (Op::NewParams, 8),
        (Op::MutParams, 6),
        (Op::CloneParams, 2),
        (Op::Update, 12),
        (Op::Finalize, 6),
        (Op::Update8, 2),
        (Op::Finalize8, 2),
        (Op::SpNew, 2),
        (Op::SpUpdate, 4),
        (Op::SpFinalize, 2),
        (Op::Hash8, 1),
        (Op::Exact8, 1),
        (Op::Exact4, 1),
        (Op::Refused, 16),
    ],
    slots: 10,
    sp_slots: 2,
    keyed: true,
    max_len: 700,
};

/// Refused calls of every kind in the middle of other hashing.
fn refusals_in_history(ctx: &mut Ctx) -> Res {
    let n = if ctx.small { 10 } else { 40 };
    crate::world::history(ctx, &MIX_C03, n, false)
}

/// Several refused and accepted calls in a row on one parameter set.
pub fn mixed(ctx: &mut Ctx) -> Res {
    let mut p = gen::gen_p(&mut ctx.rng, true);
    let mut q = gen::lib_params(&p);
    let n = ctx.rng.range(2, 12);
    for _ in 0..n {
        if ctx.rng.chance(1, 2) {
            set_random_field(ctx, &mut q, &mut p, true);
            continue;
        }
        let (which, r) = refused_setter(ctx, &mut q);
        if r {
            return bad(format!("setter {which} accepted an invalid value"));
        }
    }
    let msg = ctx.data(90);
    check(ctx, "after refused and accepted setters", &q, &p, msg)
}

pub fn c03() -> Vec<Kind> {
    vec![
        Kind { name: "lengths-as-integers", total: 3 * 70_000, quick: 45_000, thorough: 3 * 70_000, miri: 60, f: ints },
        Kind { name: "small-lengths", total: 3 * 1100, quick: 3 * 1100, thorough: 3 * 1100, miri: 0, f: ints },
        Kind { name: "slice-lengths", total: 4 * 1500, quick: 4 * 1500, thorough: 4 * 1500, miri: 20, f: slices },
        Kind { name: "depths", total: 256, quick: 256, thorough: 256, miri: 10, f: depth },
        Kind { name: "wrapped-values", total: 40 * 64 * 4, quick: 40 * 64 * 4, thorough: 40 * 64 * 4, miri: 60, f: wide },
        Kind { name: "node-offsets", total: 0, quick: 20_000, thorough: 400_000, miri: 20, f: offsets },
        Kind { name: "slices-beyond-4GiB", total: 16, quick: 16, thorough: 16, miri: 0, f: huge },
        Kind { name: "refusals-in-a-row", total: 0, quick: 20_000, thorough: 400_000, miri: 20, f: mixed },
        Kind { name: "refusals-in-histories", total: 0, quick: 10_000, thorough: 300_000, miri: 10, f: refusals_in_history },
        Kind { name: "BLAKE2sp-refusals-in-a-row", total: 0, quick: 10_000, thorough: 200_000, miri: 10, f: refused_sp_setter },
    ]
}
