//! C19: secrets marked as undefined memory under Valgrind's memcheck, which then reports every
//! branch and every address that depends on them.

use crate::gen;
use crate::run::{bad, Ctx, Kind, Res};
use blake2s_simd as b2;
use std::cell::Cell;

#[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
fn request(code: usize, a: usize, b: usize, c: usize) -> usize {
    let args = [code, a, b, c, 0, 0];
    let mut r = 0usize;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3",
            "rol rdi, 13",
            "rol rdi, 61",
            "rol rdi, 51",
            "xchg rbx, rbx",
            in("rax") args.as_ptr(),
            inout("rdx") r,
        );
    }
    r
}

#[cfg(not(all(target_arch = "x86_64", target_os = "linux", not(miri))))]
fn request(_code: usize, _a: usize, _b: usize, _c: usize) -> usize {
    0
}

const RUNNING: usize = 0x1001;
const COUNT_ERRORS: usize = 0x1201;
const MC: usize = (b'M' as usize) << 24 | (b'C' as usize) << 16;

pub fn monitored() -> bool {
    request(RUNNING, 0, 0, 0) > 0
}

fn errors() -> usize {
    request(COUNT_ERRORS, 0, 0, 0)
}

fn secret(d: &[u8]) {
    request(MC + 1, d.as_ptr() as usize, d.len(), 0);
}

fn public<T: ?Sized>(d: &T) {
    request(MC + 2, d as *const T as *const u8 as usize, std::mem::size_of_val(d), 0);
}

/// How many bits of `d` memcheck considers secret.
fn secret_bits(d: &[u8]) -> u64 {
    let mut v = vec![0u8; d.len()];
    request(MC + 8, d.as_ptr() as usize, v.as_mut_ptr() as usize, d.len());
    public(&v[..]);
    v.iter().map(|b| u64::from(b.count_ones())).sum()
}

thread_local! {
    static BEFORE: Cell<usize> = const { Cell::new(0) };
}

fn start() -> Res {
    if !monitored() {
        panic!("harness: not running under valgrind");
    }
    BEFORE.with(|b| b.set(errors()));
    Ok(())
}

/// Nothing so far may have branched on a secret.
fn settle(ctx: &mut Ctx, what: &str) -> Res {
    let n = errors() - BEFORE.with(|b| b.get());
    BEFORE.with(|b| b.set(errors()));
    ctx.add("operations_monitored", 1);
    if n > 0 {
        return bad(format!("{what}: {n} branches or addresses depend on secret bytes"));
    }
    Ok(())
}

/// The digest must itself be secret-dependent, or the monitor lost track of the secret.
fn result(ctx: &mut Ctx, h: &b2::Hash) {
    let b = h.as_bytes();
    public(&h.as_bytes().len());
    let bits = secret_bits(b);
    ctx.add("secret_digest_bits_seen", bits);
    public(b);
    ctx.observe(&[b.len() as u8]);
}

fn secrets(ctx: &mut Ctx, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    ctx.rng.fill(&mut v);
    if ctx.rng.chance(1, 4) {
        v.iter_mut().for_each(|b| *b = 0);
    }
    secret(&v);
    ctx.add("secret_bytes", n as u64);
    v
}

fn keyed_params(ctx: &mut Ctx) -> b2::Params {
    let n = if ctx.rng.chance(1, 2) { 0 } else { ctx.rng.range(1, 32) as usize };
    let mut q = gen::lib_params(&gen::gen_p(&mut ctx.rng, false));
    if n > 0 {
        let k = secrets(ctx, n);
        q.key(&k);
    }
    q
}

fn sp_keyed(ctx: &mut Ctx) -> b2::blake2sp::Params {
    let n = if ctx.rng.chance(1, 2) { 0 } else { ctx.rng.range(1, 32) as usize };
    let mut q = b2::blake2sp::Params::new();
    q.hash_length(ctx.rng.range(1, 32) as usize);
    if n > 0 {
        let k = secrets(ctx, n);
        q.key(&k);
    }
    q
}

fn one_way(ctx: &mut Ctx) -> Res {
    start()?;
    let n = ctx.idx as usize % 400;
    let m = secrets(ctx, n);
    ctx.tr(|| format!("blake2s of {n} secret bytes"));
    let h = b2::blake2s(&m);
    settle(ctx, "blake2s")?;
    result(ctx, &h);
    let q = keyed_params(ctx);
    let mut s = q.to_state();
    settle(ctx, "setting a key")?;
    let a = ctx.rng.below(n as u64 + 1) as usize;
    s.update(&m[..a]);
    settle(ctx, "update")?;
    let h = s.finalize();
    settle(ctx, "finalize")?;
    result(ctx, &h);
    s.update(&m[a..]);
    let mut c = s.clone();
    let h = c.finalize();
    settle(ctx, "update, clone and finalize")?;
    result(ctx, &h);
    #[cfg(feature = "kernels")]
    {
        let mut s = q.to_state();
        b2::benchmarks::force_portable(&mut s);
        s.update(&m);
        let h = s.finalize();
        settle(ctx, "update and finalize (portable)")?;
        result(ctx, &h);
    }
    let c = s.count();
    ctx.observe(&c.to_le_bytes());
    settle(ctx, "count")
}

fn tree(ctx: &mut Ctx) -> Res {
    start()?;
    let n = ctx.len(4000);
    let m = secrets(ctx, n);
    ctx.tr(|| format!("blake2sp of {n} secret bytes"));
    let h = b2::blake2sp::blake2sp(&m);
    settle(ctx, "blake2sp")?;
    result(ctx, &h);
    let q = sp_keyed(ctx);
    let mut s = q.to_state();
    settle(ctx, "setting a BLAKE2sp key")?;
    let a = ctx.rng.below(n as u64 + 1) as usize;
    s.update(&m[..a]);
    let h = s.finalize();
    settle(ctx, "BLAKE2sp update and finalize")?;
    result(ctx, &h);
    s.update(&m[a..]);
    let h = s.finalize();
    settle(ctx, "further BLAKE2sp update and finalize")?;
    result(ctx, &h);
    #[cfg(feature = "kernels")]
    {
        let mut s = q.to_state();
        b2::benchmarks::force_portable_blake2sp(&mut s);
        s.update(&m);
        let h = s.finalize();
        settle(ctx, "BLAKE2sp (portable)")?;
        result(ctx, &h);
    }
    Ok(())
}

fn eight(ctx: &mut Ctx) -> Res {
    start()?;
    let lens = crate::world::World::eight_lens(ctx, 700);
    let d: Vec<Vec<u8>> = lens.iter().map(|&n| secrets(ctx, n)).collect();
    ctx.tr(|| format!("eight secret inputs of {lens:?}"));
    let mut st: Vec<b2::State> = (0..8).map(|_| keyed_params(ctx).to_state()).collect();
    if let [a, b, c, e, f, g, h, i] = &mut st[..] {
        for _ in 0..2 {
            b2::update8(a, b, c, e, f, g, h, i, &d[0], &d[1], &d[2], &d[3], &d[4], &d[5], &d[6], &d[7]);
            settle(ctx, "update8")?;
            let hs = b2::finalize8(a, b, c, e, f, g, h, i);
            settle(ctx, "finalize8")?;
            for h in &hs {
                result(ctx, h);
            }
        }
    }
    let p = gen::lib_params(&gen::gen_p(&mut ctx.rng, false));
    let hs = b2::hash8(&p, &p, &p, &p, &p, &p, &p, &p, &d[0], &d[1], &d[2], &d[3], &d[4], &d[5], &d[6], &d[7]);
    settle(ctx, "hash8")?;
    for h in &hs {
        result(ctx, h);
    }
    Ok(())
}

fn exact(ctx: &mut Ctx) -> Res {
    start()?;
    let n = 64 * ctx.rng.range(1, 9) as usize;
    let d: Vec<Vec<u8>> = (0..8).map(|_| secrets(ctx, n)).collect();
    let p = keyed_params(ctx);
    ctx.tr(|| format!("eight secret inputs of {n} bytes"));
    let hs = b2::hash4_exact(&p, &d[0], &d[1], &d[2], &d[3]);
    settle(ctx, "hash4_exact")?;
    for h in &hs {
        result(ctx, h);
    }
    let hs = b2::hash8_exact(&p, &d[0], &d[1], &d[2], &d[3], &d[4], &d[5], &d[6], &d[7]);
    settle(ctx, "hash8_exact")?;
    for h in &hs {
        result(ctx, h);
    }
    Ok(())
}

/// Of a length for which an implementation might do something else.
fn megabytes(ctx: &mut Ctx) -> Res {
    start()?;
    let n = (1usize << ctx.rng.range(17, 22)) + ctx.rng.below(300) as usize;
    let m = secrets(ctx, n);
    ctx.tr(|| format!("{n} secret bytes"));
    let h = match ctx.idx % 4 {
        0 => keyed_params(ctx).to_state().update(&m).finalize(),
        1 => sp_keyed(ctx).to_state().update(&m).finalize(),
        2 => {
            let p = b2::Params::new();
            let (d, e) = (&m[..n / 8], &m[n / 8..n / 4]);
            b2::hash8(&p, &p, &p, &p, &p, &p, &p, &p, d, e, d, e, d, e, d, d)[7]
        }
        _ => {
            let p = keyed_params(ctx);
            let d = &m[..n / 8 / 64 * 64];
            b2::hash8_exact(&p, d, d, d, d, d, d, d, d)[7]
        }
    };
    settle(ctx, "a long message")?;
    result(ctx, &h);
    Ok(())
}

/// Messages long enough for any path that is only taken by long ones.
fn long(ctx: &mut Ctx) -> Res {
    start()?;
    let n = match ctx.idx % 4 {
        0 => 1 << ctx.rng.range(12, 16),
        1 => ctx.rng.range(4 << 10, 16 << 10) as usize,
        2 => ctx.rng.range(16 << 10, 80 << 10) as usize,
        _ => 64 * ctx.rng.range(64, 400) as usize,
    };
    let m = secrets(ctx, n);
    let cut = ctx.rng.below(200) as usize;
    ctx.tr(|| format!("{n} secret bytes, {cut} first"));
    match ctx.idx / 4 % 4 {
        0 => {
            let mut s = keyed_params(ctx).to_state();
            s.update(&m[..cut]);
            s.update(&m[cut..]);
            let h = s.finalize();
            settle(ctx, "update and finalize")?;
            result(ctx, &h);
        }
        1 => {
            let mut s = sp_keyed(ctx).to_state();
            s.update(&m[..cut]);
            s.update(&m[cut..]);
            let h = s.finalize();
            settle(ctx, "BLAKE2sp update and finalize")?;
            result(ctx, &h);
            let h = b2::blake2sp::blake2sp(&m);
            settle(ctx, "blake2sp")?;
            result(ctx, &h);
        }
        2 => {
            let p = gen::lib_params(&gen::gen_p(&mut ctx.rng, false));
            let d = &m[..n.min(20_000)];
            let hs = b2::hash8(&p, &p, &p, &p, &p, &p, &p, &p, d, d, d, d, &d[1..], d, d, d);
            settle(ctx, "hash8")?;
            for h in &hs {
                result(ctx, h);
            }
            let d = &d[..d.len() / 64 * 64];
            let p = keyed_params(ctx);
            let hs = b2::hash4_exact(&p, d, d, d, d);
            settle(ctx, "hash4_exact")?;
            for h in &hs {
                result(ctx, h);
            }
            let hs = b2::hash8_exact(&p, d, d, d, d, d, d, d, d);
            settle(ctx, "hash8_exact")?;
            for h in &hs {
                result(ctx, h);
            }
        }
        _ => {
            let d = &m[..n.min(20_000)];
            let mut st: Vec<b2::State> = (0..8).map(|_| keyed_params(ctx).to_state()).collect();
            if let [a, b, c, e, f, g, h, i] = &mut st[..] {
                b2::update8(a, b, c, e, f, g, h, i, d, d, &d[cut..], d, d, d, &d[..cut], d);
                settle(ctx, "update8")?;
                let hs = b2::finalize8(a, b, c, e, f, g, h, i);
                settle(ctx, "finalize8")?;
                for h in &hs {
                    result(ctx, h);
                }
            }
        }
    }
    Ok(())
}

#[cfg(feature = "std")]
fn write(w: &mut dyn std::io::Write, d: &[u8]) {
    let _ = w.write_all(d);
    let _ = w.flush();
}
#[cfg(not(feature = "std"))]
fn write(w: &mut b2::State, d: &[u8]) {
    w.update(d);
}

/// Values with secrets in them, used, changed and used again.
fn histories(ctx: &mut Ctx) -> Res {
    start()?;
    let keys: Vec<Vec<u8>> = (0..3)
        .map(|_| {
            let n = ctx.rng.range(1, 32) as usize;
            secrets(ctx, n)
        })
        .collect();
    let m = {
        let n = ctx.len(1500);
        let mut m = secrets(ctx, n);
        // The same bytes once more, for whoever compares.
        if ctx.rng.chance(1, 2) {
            m.extend_from_within(..);
        }
        m
    };
    let mut p = keyed_params(ctx);
    let mut q = sp_keyed(ctx);
    let mut s = p.to_state();
    let mut t = q.to_state();
    let mut other = p.to_state();
    for _ in 0..ctx.rng.range(4, 16) {
        let a = ctx.rng.below(m.len() as u64 + 1) as usize;
        let b = a + ctx.rng.below((m.len() - a) as u64 + 1) as usize;
        let d = &m[a..b];
        let k = &keys[ctx.rng.below(3) as usize][..];
        let k = if ctx.rng.chance(1, 8) { b"" } else { k };
        let op = ctx.rng.below(16);
        const NAMES: [&str; 16] = [
            "a key set over another",
            "a BLAKE2sp key set over another",
            "to_state again",
            "BLAKE2sp to_state again",
            "update",
            "BLAKE2sp update",
            "writing",
            "BLAKE2sp writing",
            "finalize",
            "BLAKE2sp finalize",
            "clones",
            "Debug",
            "count",
            "setters",
            "a refused key",
            "one-shot calls",
        ];
        ctx.tr(|| format!("{} ({a}..{b}, key of {})", NAMES[op as usize], k.len()));
        let mut hs = vec![];
        match op {
            0 => {
                p.key(k);
            }
            1 => {
                q.key(k);
            }
            2 => std::mem::swap(&mut other, &mut std::mem::replace(&mut s, p.to_state())),
            3 => t = q.to_state(),
            4 => {
                s.update(d);
            }
            5 => {
                t.update(d);
            }
            6 => write(&mut s, d),
            #[cfg(feature = "std")]
            7 => write(&mut t, d),
            8 => hs.extend([s.finalize(), other.finalize()]),
            9 => hs.push(t.finalize()),
            10 => {
                other.clone_from(&s);
                p = p.clone();
                q = q.clone();
            }
            11 => {
                let text = format!("{s:?}{t:?}{q:?}{other:#?}");
                ctx.observe(text.as_bytes());
            }
            12 => {
                let n = s.count() + t.count();
                ctx.observe(&n.to_le_bytes());
            }
            13 => {
                p.salt(&[1, 2, 3]).personal(b"who").fanout(3).node_offset(a as u64).last_node(b % 2 == 0);
                p.hash_length(1 + a % 32);
                q.hash_length(1 + b % 32);
                s.set_last_node(a % 2 == 0);
            }
            14 => {
                let long = [k, &[0; 33]].concat();
                let refused = crate::run::quiet(|| {
                    p.key(&long);
                });
                let also = crate::run::quiet(|| {
                    q.key(&long);
                });
                ctx.observe(&[refused.is_err() as u8, also.is_err() as u8]);
            }
            _ => {
                hs.push(b2::blake2s(d));
                hs.push(p.to_state().update(d).finalize());
                hs.push(q.to_state().update(d).finalize());
            }
        }
        settle(ctx, NAMES[op as usize])?;
        for h in &hs {
            public(h.as_bytes());
            ctx.observe(&[h.as_bytes().len() as u8]);
        }
    }
    let h = s.finalize();
    settle(ctx, "finalize at the end")?;
    public(h.as_bytes());
    Ok(())
}

#[inline(never)]
fn eq_hash(a: &b2::Hash, b: &b2::Hash) -> bool {
    a == b
}
#[inline(never)]
fn ne_hash(a: &b2::Hash, b: &b2::Hash) -> bool {
    a != b
}
#[inline(never)]
fn eq_slice(a: &b2::Hash, b: &[u8]) -> bool {
    a == b
}
#[inline(never)]
fn ne_slice(a: &b2::Hash, b: &[u8]) -> bool {
    a != b
}

fn answer(f: impl FnOnce() -> bool) -> bool {
    let mut r = 0u8;
    // Stored before it is looked at, so that it can be declared public.
    unsafe { std::ptr::write_volatile(&mut r, f() as u8) };
    public(&r);
    unsafe { std::ptr::read_volatile(&r) != 0 }
}

/// Digests compared with equal, nearly equal and unrelated ones.
fn compare(ctx: &mut Ctx) -> Res {
    start()?;
    let n = (ctx.idx % 32) as usize + 1;
    let m = ctx.data(100);
    let p = b2::Params::new().hash_length(n).clone();
    let h = p.to_state().update(m).finalize();
    let same = p.to_state().update(m).finalize();
    let other = p.to_state().update(&m[1..]).finalize();
    let mut near = h.as_bytes().to_vec();
    let i = ctx.rng.below(n as u64) as usize;
    near[i] ^= 1 << ctx.rng.below(8);
    let equal = h.as_bytes().to_vec();
    let mut random = vec![0u8; n];
    ctx.rng.fill(&mut random);
    random[0] = equal[0] ^ 0x55;
    for x in [&h, &same, &other] {
        secret(x.as_bytes());
    }
    for x in [&near, &equal, &random] {
        secret(x);
    }
    ctx.add("secret_bytes", 6 * n as u64);
    ctx.tr(|| format!("comparisons of secret digests of {n} bytes, one differing in byte {i}"));
    let r = [
        answer(|| eq_hash(&h, &same)),
        !answer(|| eq_hash(&h, &other)),
        !answer(|| ne_hash(&h, &same)),
        answer(|| ne_hash(&h, &other)),
    ];
    settle(ctx, "comparison of two digests")?;
    let r2 = [
        answer(|| eq_slice(&h, &equal)),
        !answer(|| eq_slice(&h, &near)),
        !answer(|| eq_slice(&h, &random)),
        !answer(|| ne_slice(&h, &equal)),
        answer(|| ne_slice(&h, &near)),
    ];
    settle(ctx, "comparison of a digest with a slice")?;
    ctx.add("comparisons", 9);
    for b in r.iter().chain(&r2) {
        ctx.observe(&[u8::from(*b)]);
    }
    Ok(())
}

/// Does the monitor see a branch on a secret at all?
pub fn selftest(ctx: &mut Ctx) -> Res {
    start()?;
    let v = secrets(ctx, 8);
    let x = std::hint::black_box(v[3]);
    let before = errors();
    if std::hint::black_box(x) > 100 {
        ctx.observe(&[1]);
    }
    let after = errors();
    if after <= before {
        panic!("harness: valgrind does not report a branch on a secret");
    }
    BEFORE.with(|b| b.set(after));
    ctx.add("deliberate_leaks_seen", 1);
    Ok(())
}

pub fn c19() -> Vec<Kind> {
    vec![
        Kind { name: "self-test", total: 1, quick: 1, thorough: 1, miri: 0, f: selftest },
        Kind { name: "blake2s", total: 400 * 8, quick: 1_600, thorough: 400 * 8, miri: 0, f: one_way },
        Kind { name: "blake2sp", total: 0, quick: 1_500, thorough: 20_000, miri: 0, f: tree },
        Kind { name: "eight-way", total: 0, quick: 1_000, thorough: 15_000, miri: 0, f: eight },
        Kind { name: "exact", total: 0, quick: 1_000, thorough: 15_000, miri: 0, f: exact },
        Kind { name: "histories", total: 0, quick: 2_000, thorough: 40_000, miri: 0, f: histories },
        Kind { name: "megabytes", total: 0, quick: 24, thorough: 120, miri: 0, f: megabytes },
        Kind { name: "long", total: 0, quick: 300, thorough: 6_000, miri: 0, f: long },
        Kind { name: "comparisons", total: 32 * 200, quick: 1_600, thorough: 32 * 200, miri: 0, f: compare },
    ]
}
