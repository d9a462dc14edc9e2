//! C17 and C18: what values show.

use crate::gen;
use crate::run::{bad, Ctx, Kind, Res};
use blake2s_simd as b2;
use std::fmt::Debug;

// ------------------------------------------------------------------------------------------ C17

/// Every Debug form a caller can ask for.
fn forms<T: Debug>(x: &T) -> Vec<String> {
    vec![
        format!("{x:?}"),
        format!("{x:#?}"),
        format!("{x:x?}"),
        format!("{x:#x?}"),
        format!("{x:X?}"),
        format!("{x:+?}"),
        format!("{x:08?}"),
        format!("{x:40?}"),
        format!("{x:.3?}"),
        format!("{x:<60.2?}"),
        format!("{x:#010x?}"),
        format!("{x:#X?}"),
        format!("{x:+#?}"),
        format!("{x:-?}"),
        format!("{x:.0?}"),
        format!("{x:10.5?}"),
        format!("{x:*^+#70.40?}"),
        format!("{x:#2000.1000x?}"),
        format!("{:?}", Some(x)),
        format!("{:#?}", [x]),
    ]
}

/// BLAKE2s parameters have no Debug at the pinned commit; if they gain one, it is watched.
struct Maybe<'a, T>(&'a T);
trait NoDebug {
    fn forms_if_any(&self) -> Vec<String>;
}
impl<T> NoDebug for &Maybe<'_, T> {
    fn forms_if_any(&self) -> Vec<String> {
        vec![]
    }
}
trait HasDebug {
    fn forms_if_any(&self) -> Vec<String>;
}
impl<T: Debug> HasDebug for Maybe<'_, T> {
    fn forms_if_any(&self) -> Vec<String> {
        forms(self.0)
    }
}

macro_rules! forms_of {
    ($x:expr) => {
        (&Maybe(&$x)).forms_if_any()
    };
}

/// Two secrets of the same length, differing in ways a leak might be limited to.
fn two_secrets(ctx: &mut Ctx, n: usize) -> (Vec<u8>, Vec<u8>) {
    let mut a = vec![0u8; n];
    ctx.rng.fill(&mut a);
    let mut b = a.clone();
    if n == 0 {
        return (a, b);
    }
    match ctx.rng.below(8) {
        0 => b.iter_mut().for_each(|x| *x = 0),
        1 => {
            let i = ctx.rng.below(n as u64) as usize;
            b[i] ^= 1 << ctx.rng.below(8);
        }
        2 => {
            b[n - 1] = 0;
            a[n - 1] |= 1;
        }
        3 => b[0] ^= 0x80,
        4 => {
            a.iter_mut().for_each(|x| *x = 0);
            b.iter_mut().for_each(|x| *x = 0);
            b[n / 2] = 0xff;
        }
        5 => {
            // printable against unprintable
            a.iter_mut().for_each(|x| *x = b'A' + *x % 26);
        }
        _ => ctx.rng.fill(&mut b),
    }
    (a, b)
}

fn same(ctx: &mut Ctx, what: &str, a: Vec<String>, b: Vec<String>) -> Res {
    ctx.add("debug_pairs_compared", a.len() as u64);
    for (x, y) in a.iter().zip(&b) {
        ctx.observe(x.as_bytes());
        if x != y {
            return bad(format!("Debug of {what} tells secrets apart: {x} / {y}"));
        }
    }
    if let Some(x) = a.first() {
        ctx.tr(|| format!("{what}: {x}"));
    }
    Ok(())
}

/// Two hashers with the same history except for the secret bytes.
fn noninterference(ctx: &mut Ctx) -> Res {
    let (klen, keyed) = if ctx.rng.chance(2, 3) { (ctx.rng.range(1, 32) as usize, true) } else { (0, false) };
    let (k1, k2) = two_secrets(ctx, klen);
    let mut p = gen::gen_p(&mut ctx.rng, false);
    let mut p2 = p.clone();
    p.key = k1;
    p2.key = k2;
    let (q1, q2) = (gen::lib_params(&p), gen::lib_params(&p2));
    ctx.add("keyed_pairs", u64::from(keyed));
    let (f1, f2) = (forms_of!(q1), forms_of!(q2));
    same(ctx, "Params", f1, f2)?;
    let s1 = gen::Q { digest: p.digest, key: p.key.clone() };
    let s2 = gen::Q { digest: p.digest, key: p2.key.clone() };
    let (r1, r2) = (gen::sp_params(&s1), gen::sp_params(&s2));
    let (f1, f2) = (forms_of!(r1), forms_of!(r2));
    if f1.is_empty() {
        ctx.add("types_without_debug", 1);
    }
    same(ctx, "blake2sp::Params", f1, f2)?;
    let (mut a, mut b) = (q1.to_state(), q2.to_state());
    let (mut c, mut d) = (r1.to_state(), r2.to_state());
    let n = if ctx.small { 4 } else { 8 };
    let steps = ctx.rng.range(1, n);
    for i in 0..=steps {
        let (f1, f2) = (forms_of!(a), forms_of!(b));
        same(ctx, "State", f1, f2)?;
        let (f1, f2) = (forms_of!(c), forms_of!(d));
        same(ctx, "blake2sp::State", f1, f2)?;
        if i == steps {
            break;
        }
        match ctx.rng.below(8) {
            0 => {
                let _ = (a.finalize(), b.finalize(), c.finalize(), d.finalize());
            }
            1 => {
                let v = ctx.rng.chance(1, 2);
                a.set_last_node(v);
                b.set_last_node(v);
            }
            2 => {
                a = a.clone();
                b = b.clone();
            }
            3 => {
                // through the eight-way interface
                let l = ctx.rng.below(300) as usize;
                let (m1, m2) = two_secrets(ctx, l);
                for (s, m) in [(&mut a, &m1), (&mut b, &m2)] {
                    let mut o: Vec<b2::State> = (0..7).map(|_| b2::State::new()).collect();
                    if let [t, u, v, w, x, y, z] = &mut o[..] {
                        b2::update8(s, t, u, v, w, x, y, z, m, m, m, m, m, m, m, m);
                        let _ = b2::finalize8(s, t, u, v, w, x, y, z);
                    }
                }
            }
            _ => {
                let l = ctx.len(2100);
                let (m1, m2) = two_secrets(ctx, l);
                a.update(&m1);
                b.update(&m2);
                c.update(&m1);
                d.update(&m2);
            }
        }
    }
    ctx.sig = gen::mix64(ctx.sig ^ ctx.obs);
    Ok(())
}

/// Every message length (buffer fill) once, keys too.
fn debug_lens(ctx: &mut Ctx) -> Res {
    let n = (ctx.idx / 2) as usize;
    let (m1, m2) = two_secrets(ctx, n);
    let klen = if ctx.idx % 2 == 0 { 0 } else { ctx.rng.range(1, 32) as usize };
    let (k1, k2) = two_secrets(ctx, klen);
    let (mut a, mut b) = (b2::Params::new().key(&k1).to_state(), b2::Params::new().key(&k2).to_state());
    a.update(&m1);
    b.update(&m2);
    let (f1, f2) = (forms_of!(a), forms_of!(b));
    same(ctx, "State", f1, f2)?;
    let (mut a, mut b) = (b2::blake2sp::Params::new().key(&k1).to_state(), b2::blake2sp::Params::new().key(&k2).to_state());
    a.update(&m1);
    b.update(&m2);
    let (f1, f2) = (forms_of!(a), forms_of!(b));
    same(ctx, "blake2sp::State", f1, f2)
}

pub fn c17() -> Vec<Kind> {
    vec![
        Kind { name: "pairs-of-histories", total: 0, quick: 15_000, thorough: 500_000, miri: 20, f: noninterference },
        Kind { name: "every-length", total: 2 * 2200, quick: 2 * 2200, thorough: 2 * 2200, miri: 20, f: debug_lens },
    ]
}

// ------------------------------------------------------------------------------------------ C18

fn hash_of(ctx: &mut Ctx, digest: usize) -> (b2::Hash, Vec<u8>) {
    let n = ctx.rng.below(200) as usize;
    let d = ctx.data(n);
    let p = oracle::P { digest, ..oracle::P::default() };
    let h = match ctx.rng.below(4) {
        0 => b2::Params::new().hash_length(digest).to_state().update(d).finalize(),
        1 => {
            let q = b2::Params::new().hash_length(digest).clone();
            let h = b2::hash8(&q, &q, &q, &q, &q, &q, &q, &q, d, d, d, d, d, d, d, d);
            h[ctx.rng.below(8) as usize]
        }
        2 => {
            let q = gen::Q { digest, key: vec![] };
            let h = gen::sp_params(&q).to_state().update(d).finalize();
            return (h, if ctx.oracle { oracle::blake2sp(digest, &[], d) } else { h.as_bytes().to_vec() });
        }
        _ => {
            let q = b2::Params::new().hash_length(digest).clone();
            let e = ctx.data(64 * ctx.idx.min(3).max(1) as usize);
            let h = b2::hash4_exact(&q, e, e, e, e);
            return (h[0], if ctx.oracle { oracle::blake2s(&p, e) } else { h[0].as_bytes().to_vec() });
        }
    };
    (h, if ctx.oracle { oracle::blake2s(&p, d) } else { h.as_bytes().to_vec() })
}

fn views(ctx: &mut Ctx, h: &b2::Hash, want: &[u8]) -> Res {
    ctx.add("values_checked", 1);
    let o = ctx.oracle;
    let t = |c: bool, m: String| if o && !c { bad(m) } else { Ok(()) };
    ctx.observe(h.as_bytes());
    t(h.as_bytes() == want, format!("as_bytes is {} for digest {}", gen::hex(h.as_bytes()), gen::hex(want)))?;
    let r: &[u8] = h.as_ref();
    t(r == want, format!("as_ref is {} for digest {}", gen::hex(r), gen::hex(want)))?;
    let x = h.to_hex();
    let hexed = gen::hex(want);
    t(&x[..] == hexed.as_str(), format!("to_hex is {} for digest {hexed}", &x[..]))?;
    t(x.len() == 2 * want.len(), format!("to_hex has {} characters for {} bytes", x.len(), want.len()))?;
    let d = format!("{h:?}");
    t(d.contains(&hexed), format!("Debug is {d} for digest {hexed}"))?;
    // Nothing but the digest: no further hex digits that could be hidden bytes.
    let rest = d.replacen(&hexed, "", 1);
    let stray = rest.split(|c: char| !c.is_ascii_hexdigit()).any(|w| w.len() >= 4);
    t(!stray, format!("Debug is {d} for digest {hexed}"))?;
    let d2 = format!("{h:#?}");
    t(d2.contains(&hexed), format!("alternate Debug is {d2} for digest {hexed}"))?;
    let copy = *h;
    let clone = Clone::clone(h);
    t(copy.as_bytes() == want && clone.as_bytes() == want, "a copy shows other bytes".into())?;
    t(*h == copy && clone == *h, "a digest differs from its copy".into())
}

fn expect_eq(ctx: &mut Ctx, what: &str, got: bool, want: bool) -> Res {
    ctx.add(if want { "equal_comparisons" } else { "unequal_comparisons" }, 1);
    ctx.observe(&[u8::from(got)]);
    if ctx.oracle && got != want {
        return bad(format!("{what}: compares as {} but should as {}", got, want));
    }
    Ok(())
}

/// Comparisons of one digest with slices derived from it.
fn versus_slices(ctx: &mut Ctx, h: &b2::Hash) -> Res {
    let b = h.as_bytes().to_vec();
    let n = b.len();
    expect_eq(ctx, "a digest and its own bytes", *h == b[..], true)?;
    expect_eq(ctx, "a digest and its own bytes (ne)", *h != b[..], false)?;
    for cut in 0..n {
        expect_eq(ctx, &format!("a digest of {n} bytes and its first {cut} bytes"), *h == b[..cut], false)?;
        if cut > 0 {
            expect_eq(ctx, &format!("a digest of {n} bytes and its last {} bytes", n - cut), *h == b[cut..], false)?;
        }
    }
    let mut long = b.clone();
    for extra in 1..=4 {
        long.push(if ctx.rng.chance(1, 2) { 0 } else { ctx.rng.byte() });
        expect_eq(ctx, &format!("a digest of {n} bytes and {extra} more"), *h == long[..], false)?;
    }
    let mut padded = b.clone();
    for len in [32usize, 33, 64, 256, n + 32, n + 256] {
        if len > n {
            padded.resize(len, 0);
            expect_eq(ctx, &format!("a digest of {n} bytes and itself padded to {len}"), *h == padded[..], false)?;
            padded.truncate(n);
        }
    }
    let mut wide = b.clone();
    while wide.len() < n + 256 {
        let k = wide.len();
        wide.push(b[k % n]);
    }
    expect_eq(ctx, "a digest and itself repeated 256 bytes further", *h == wide[..], false)?;
    if !ctx.small && ctx.rng.chance(1, 16) {
        while wide.len() < n + 65536 {
            let k = wide.len();
            wide.push(b[k % n]);
        }
        expect_eq(ctx, "a digest and itself repeated 65536 bytes further", *h == wide[..], false)?;
        expect_eq(ctx, "the same (ne)", *h != wide[..], true)?;
    }
    Ok(())
}

/// Every single-bit difference is seen, from both sides.
fn flips(ctx: &mut Ctx) -> Res {
    let digest = (ctx.idx % 32) as usize + 1;
    let (h, want) = hash_of(ctx, digest);
    ctx.tr(|| format!("digest {}", gen::hex(&want)));
    views(ctx, &h, &want)?;
    versus_slices(ctx, &h)?;
    let mut b = h.as_bytes().to_vec();
    for bit in 0..8 * b.len() {
        b[bit / 8] ^= 1 << (bit % 8);
        expect_eq(ctx, &format!("a digest of {digest} bytes and itself with bit {bit} flipped"), h == b[..], false)?;
        expect_eq(ctx, "the same (ne)", h != b[..], true)?;
        b[bit / 8] ^= 1 << (bit % 8);
    }
    // Two or more differences that might cancel out.
    for _ in 0..60 {
        let mut c = b.clone();
        let k = ctx.rng.range(2, 6);
        let mask = ctx.rng.byte().max(1);
        for _ in 0..k {
            let i = ctx.rng.below(c.len() as u64) as usize;
            match ctx.rng.below(3) {
                0 => c[i] ^= mask,
                1 => c[i] = c[i].wrapping_add(mask),
                _ => {
                    let j = ctx.rng.below(c.len() as u64) as usize;
                    c.swap(i, j);
                }
            }
        }
        let want = c == b;
        expect_eq(ctx, &format!("digest {} and slice {}", gen::hex(&b), gen::hex(&c)), h == c[..], want)?;
    }
    Ok(())
}

/// Digest against digest: same input, different input, and lengths that differ (prefixes are made
/// by hashing the same input, which for different lengths gives unrelated bytes, and by
/// BLAKE2s without the length influencing anything there is no way to get a prefix; so length
/// differences are mostly covered by slices).
fn pairs(ctx: &mut Ctx) -> Res {
    let a = (ctx.idx % 32) as usize + 1;
    let b = (ctx.idx / 32 % 32) as usize + 1;
    let (h1, w1) = hash_of(ctx, a);
    let (h2, w2) = hash_of(ctx, b);
    let same = if ctx.oracle { w1 == w2 } else { h1.as_bytes() == h2.as_bytes() };
    ctx.tr(|| format!("{} against {}", gen::hex(&w1), gen::hex(&w2)));
    expect_eq(ctx, &format!("digests {} and {}", gen::hex(&w1), gen::hex(&w2)), h1 == h2, same)?;
    expect_eq(ctx, "the other way round", h2 == h1, same)?;
    expect_eq(ctx, "not-equal", h1 != h2, !same)?;
    expect_eq(ctx, "digest and itself", h1 == h1, true)?;
    views(ctx, &h1, &w1)
}

/// Short digests: equality of unrelated inputs happens by chance and must be exact both ways.
fn short_pairs(ctx: &mut Ctx) -> Res {
    let n = 1 + (ctx.idx % 2) as usize;
    let mut hs = vec![];
    for _ in 0..24 {
        hs.push(hash_of(ctx, n));
    }
    for i in 0..hs.len() {
        for j in 0..hs.len() {
            let same = hs[i].1 == hs[j].1;
            expect_eq(ctx, &format!("digests {} and {}", gen::hex(&hs[i].1), gen::hex(&hs[j].1)), hs[i].0 == hs[j].0, same)?;
        }
    }
    Ok(())
}

pub fn c18_random(ctx: &mut Ctx) -> Res {
    let n = ctx.rng.range(1, 32) as usize;
    let (h, w) = hash_of(ctx, n);
    ctx.tr(|| format!("digest {}", gen::hex(&w)));
    views(ctx, &h, &w)?;
    let k = ctx.rng.below(70) as usize;
    let mut s = vec![0; k];
    ctx.rng.fill(&mut s);
    let m = k.min(n);
    s[..m].copy_from_slice(&h.as_bytes()[..m]);
    expect_eq(ctx, &format!("digest {} and slice {}", gen::hex(&w), gen::hex(&s)), h == s[..], k == n)
}

/// Compression yields 32 bytes whatever the digest length; those cut off do not belong to the value.
fn cut_off(ctx: &mut Ctx) -> Res {
    let n = (ctx.idx % 32) as usize + 1;
    let len = ctx.len(700);
    let m = ctx.data(len);
    let (h, whole) = if ctx.rng.chance(2, 3) {
        let p = oracle::P { digest: n, ..gen::gen_p(&mut ctx.rng, true) };
        let mut s = oracle::S::new(&p);
        s.feed(m);
        let mut l = gen::lib_params(&p).to_state();
        (l.update(m).finalize(), s.finish(p.last_node))
    } else {
        let q = gen::Q { digest: n, ..gen::gen_q(&mut ctx.rng) };
        let mut s = oracle::Sp::new(q.digest, &q.key);
        s.feed(m);
        (gen::sp_params(&q).to_state().update(m).finalize(), s.finish_whole())
    };
    ctx.tr(|| format!("digest {}, cut from {}", gen::hex(h.as_bytes()), gen::hex(&whole)));
    views(ctx, &h, &whole[..n])?;
    let twice: Vec<u8> = whole.iter().chain(&whole).copied().collect();
    for k in 0..=64 {
        let want = k == n;
        expect_eq(ctx, &format!("a digest of {n} bytes and {k} bytes of the output it is cut from"), h == twice[..k], want)?;
        expect_eq(ctx, "the same (ne)", h != twice[..k], !want)?;
    }
    Ok(())
}

/// Slices that start with the digest and are as long as it modulo a power of two.
#[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
fn huge(ctx: &mut Ctx) -> Res {
    let n = (ctx.idx / 2 % 32) as usize + 1;
    let (h, w) = hash_of(ctx, n);
    let len = if ctx.idx % 2 == 0 { (1usize << 32) + n } else { (1 << 24) + n };
    let mut pattern = vec![0u8; 1 << 21];
    pattern[..n].copy_from_slice(h.as_bytes());
    let m = crate::sys::Huge::new(&pattern, len);
    ctx.tr(|| format!("digest {} against {len} bytes that start with it", gen::hex(&w)));
    expect_eq(ctx, &format!("a digest of {n} bytes and {len} bytes"), h == *m.slice(0, len), false)?;
    expect_eq(ctx, "the same (ne)", h != *m.slice(0, len), true)
}

#[cfg(not(all(target_os = "linux", target_pointer_width = "64", not(miri))))]
fn huge(ctx: &mut Ctx) -> Res {
    ctx.trivial = true;
    Ok(())
}

pub fn c18() -> Vec<Kind> {
    vec![
        Kind { name: "bit-flips", total: 32 * 40, quick: 32 * 40, thorough: 32 * 40, miri: 6, f: flips },
        Kind { name: "pairs-of-lengths", total: 32 * 32, quick: 32 * 32, thorough: 32 * 32, miri: 20, f: pairs },
        Kind { name: "short-digest-pairs", total: 0, quick: 3_000, thorough: 100_000, miri: 1, f: short_pairs },
        Kind { name: "cut-off-bytes", total: 0, quick: 4_000, thorough: 100_000, miri: 6, f: cut_off },
        Kind { name: "slices-beyond-4GiB", total: 64, quick: 64, thorough: 64, miri: 0, f: huge },
        Kind { name: "random", total: 0, quick: 200_000, thorough: 4_000_000, miri: 30, f: c18_random },
    ]
}
