//! C07, C08, C09: the four- and eight-way interfaces.

use crate::gen;
use crate::run::{bad, Ctx, Kind, Res};
use crate::world::{self, Mix, Model, Op, World};
use blake2s_simd as b2;
use oracle::P;

// ------------------------------------------------------------------------------------------ C07

pub type Eight = Vec<(b2::State, Model)>;

pub fn eight_states(ctx: &mut Ctx) -> Eight {
    let ps = gen::family(&mut ctx.rng, true);
    ps.into_iter().enumerate().map(|(i, p)| (gen::lib_params(&p).to_state(), Model::new(p, i as u32))).collect()
}

pub fn up8(ctx: &mut Ctx, st: &mut Eight, d: &[&[u8]; 8]) {
    ctx.tr(|| format!("update8 with lengths {:?}", d.iter().map(|x| x.len()).collect::<Vec<_>>()));
    if let [a, b, c, e, f, g, h, i] = &mut st[..] {
        b2::update8(
            &mut a.0, &mut b.0, &mut c.0, &mut e.0, &mut f.0, &mut g.0, &mut h.0, &mut i.0, d[0], d[1], d[2], d[3], d[4], d[5],
            d[6], d[7],
        );
    }
    for (s, d) in st.iter_mut().zip(d) {
        s.1.feed(ctx.oracle, d);
    }
}

pub fn fin8(ctx: &mut Ctx, st: &mut Eight) -> Res {
    let hs = if let [a, b, c, e, f, g, h, i] = &mut st[..] {
        b2::finalize8(&mut a.0, &mut b.0, &mut c.0, &mut e.0, &mut f.0, &mut g.0, &mut h.0, &mut i.0)
    } else {
        unreachable!()
    };
    for (k, h) in hs.iter().enumerate() {
        let m = &st[k].1;
        ctx.hash_eq(&format!("finalize8, lane {k} after {} bytes", m.count), h, || m.digest())?;
    }
    Ok(())
}

fn fin1(ctx: &mut Ctx, st: &mut Eight) -> Res {
    for (k, (s, m)) in st.iter_mut().enumerate() {
        let h = s.finalize();
        ctx.hash_eq(&format!("finalize of lane {k} after {} bytes", m.count), &h, || m.digest())?;
        ctx.count_eq(&format!("count of lane {k}"), s.count(), m.count)?;
    }
    Ok(())
}

fn any_fin(ctx: &mut Ctx, st: &mut Eight) -> Res {
    match ctx.rng.below(3) {
        0 => fin8(ctx, st),
        1 => fin1(ctx, st),
        _ => {
            fin8(ctx, st)?;
            fin8(ctx, st)?;
            fin1(ctx, st)
        }
    }
}

fn slices(ctx: &mut Ctx, lens: [usize; 8]) -> [&'static [u8]; 8] {
    let mut d: [&'static [u8]; 8] = [&[]; 8];
    for (x, n) in d.iter_mut().zip(lens) {
        *x = ctx.data(n);
    }
    if !ctx.guard && ctx.rng.chance(1, 6) {
        gen::alias(&mut ctx.rng, &mut d);
    }
    d
}

/// All lanes get `n` bytes on top of `b` buffered ones, except one lane that differs.
pub fn grid7(ctx: &mut Ctx) -> Res {
    let n = (ctx.idx % 330) as usize;
    let lane = (ctx.idx / 330 % 8) as usize;
    let mut st = eight_states(ctx);
    let b = match ctx.rng.below(3) {
        0 => [0usize; 8],
        1 => [ctx.rng.below(130) as usize; 8],
        _ => {
            let mut b = [0; 8];
            b.iter_mut().for_each(|x| *x = ctx.rng.below(130) as usize);
            b
        }
    };
    for (k, (s, m)) in st.iter_mut().enumerate() {
        let d = ctx.data(b[k]);
        s.update(d);
        m.feed(ctx.oracle, d);
    }
    ctx.tr(|| format!("lanes hold {b:?}"));
    let mut lens = [n; 8];
    lens[lane] = match ctx.rng.below(4) {
        0 => n,
        1 => 0,
        2 => (n + ctx.rng.below(140) as usize).saturating_sub(70),
        _ => ctx.rng.below(700) as usize,
    };
    let d = slices(ctx, lens);
    up8(ctx, &mut st, &d);
    any_fin(ctx, &mut st)?;
    // and once more on top of that
    if ctx.rng.chance(1, 2) {
        let lens = World::eight_lens(ctx, 600);
        let d = slices(ctx, lens);
        up8(ctx, &mut st, &d);
        any_fin(ctx, &mut st)?;
    }
    Ok(())
}

/// Finalize alone over every pair (buffer fill, stale bytes behind it).
pub fn fin_grid(ctx: &mut Ctx) -> Res {
    let a = (ctx.idx % 200) as usize;
    let mut st = eight_states(ctx);
    for (k, (s, m)) in st.iter_mut().enumerate() {
        let n = if k % 2 == 0 { a } else { ctx.rng.below(200) as usize };
        let d = ctx.data(n);
        s.update(d);
        m.feed(ctx.oracle, d);
        if ctx.rng.chance(1, 3) {
            let v = ctx.rng.chance(1, 2);
            s.set_last_node(v);
            m.last = v;
        }
    }
    fin8(ctx, &mut st)?;
    fin1(ctx, &mut st)?;
    fin8(ctx, &mut st)
}

static MIX_C07: Mix = Mix {
    ops: &[
        (Op::New, 5),
        (Op::NewParams, 2),
        (Op::MutParams, 2),
        (Op::Update, 14),
        (Op::Write, 3),
        (Op::Finalize, 6),
        (Op::Clone, 3),
        (Op::LastNode, 6),
        (Op::Count, 4),
        (Op::Update8, 30),
        (Op::Finalize8, 16),
        (Op::Move, 2),
    ],
    slots: 11,
    sp_slots: 0,
    keyed: true,
    max_len: 2500,
};

fn c07_history(ctx: &mut Ctx) -> Res {
    let n = if ctx.small { 8 } else { 40 };
    world::history(ctx, &MIX_C07, n, true)
}

fn width7(ctx: &mut Ctx) -> Res {
    let k = 8 + ctx.idx % 13;
    let n = (1usize << k) + [0, 1, 2, 63, 64, 65, 66, 128, 129][(ctx.idx / 13 % 9) as usize] - 65;
    let mut st = eight_states(ctx);
    let mut lens = [n; 8];
    if ctx.rng.chance(1, 2) {
        let i = ctx.rng.below(8) as usize;
        lens[i] += ctx.rng.below(200) as usize;
    }
    let pre = World::eight_lens(ctx, 130);
    let d = slices(ctx, pre);
    up8(ctx, &mut st, &d);
    let d = slices(ctx, lens);
    up8(ctx, &mut st, &d);
    any_fin(ctx, &mut st)
}

fn random7(ctx: &mut Ctx) -> Res {
    let mut st = eight_states(ctx);
    let rounds = ctx.rng.range(1, 5);
    for _ in 0..rounds {
        let lens = World::eight_lens(ctx, 6000);
        let d = slices(ctx, lens);
        up8(ctx, &mut st, &d);
        if ctx.rng.chance(1, 3) {
            any_fin(ctx, &mut st)?;
        }
        let k = ctx.rng.below(8) as usize;
        if ctx.rng.chance(1, 4) {
            let v = ctx.rng.chance(1, 2);
            st[k].0.set_last_node(v);
            st[k].1.last = v;
        }
    }
    any_fin(ctx, &mut st)
}

pub fn c07() -> Vec<Kind> {
    vec![
        Kind { name: "one-lane-differs", total: 330 * 8 * 12, quick: 330 * 8 * 12, thorough: 330 * 8 * 12, miri: 10, f: grid7 },
        Kind { name: "finalize8-buffers", total: 200 * 50, quick: 200 * 50, thorough: 200 * 50, miri: 6, f: fin_grid },
        Kind { name: "random-rounds", total: 0, quick: 20_000, thorough: 600_000, miri: 8, f: random7 },
        Kind { name: "power-of-two-lengths", total: 13 * 9 * 4, quick: 117, thorough: 13 * 9 * 4, miri: 0, f: width7 },
        Kind { name: "lopsided-lengths", total: 0, quick: 300, thorough: 6_000, miri: 0, f: update8_lopsided },
        Kind { name: "histories", total: 0, quick: 20_000, thorough: 600_000, miri: 8, f: c07_history },
        #[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
        super::far::c07(),
    ]
}

// ------------------------------------------------------------------------------------------ C08

fn call_exact(q: &b2::Params, d: &[&[u8]]) -> Vec<b2::Hash> {
    if d.len() == 4 {
        b2::hash4_exact(q, d[0], d[1], d[2], d[3]).to_vec()
    } else {
        b2::hash8_exact(q, d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]).to_vec()
    }
}

pub fn exact_with(ctx: &mut Ctx, n: usize, len: usize, p: &P) -> Res {
    let mut d: Vec<&'static [u8]> = (0..n).map(|_| ctx.data(len)).collect();
    if ctx.rng.chance(1, 8) {
        let x = d[0];
        d.iter_mut().for_each(|y| *y = x);
    } else if !ctx.guard && ctx.rng.chance(1, 8) {
        gen::alias(&mut ctx.rng, &mut d);
    }
    ctx.tr(|| format!("hash{n}_exact of {len} bytes each with {}", world::describe(p)));
    let q = gen::lib_params(p);
    let hs = call_exact(&q, &d);
    ctx.add("bytes_hashed", (n * len) as u64);
    for (i, h) in hs.iter().enumerate() {
        let m = d[i];
        ctx.hash_eq(&format!("hash{n}_exact of {len} bytes, input {i}"), h, || oracle::blake2s(p, m))?;
    }
    if ctx.rng.chance(1, 16) {
        // The library's own single hasher, too.
        let i = ctx.rng.below(n as u64) as usize;
        let h = q.to_state().update(d[i]).finalize();
        let m = d[i];
        ctx.hash_eq("single hasher on the same input", &h, || oracle::blake2s(p, m))?;
    }
    Ok(())
}

pub fn exact(ctx: &mut Ctx, n: usize, len: usize, keyed: bool) -> Res {
    let p = gen::gen_p(&mut ctx.rng, keyed);
    exact_with(ctx, n, len, &p)
}

pub fn exact_random(ctx: &mut Ctx, n: usize, max: u64, keyed: bool) -> Res {
    let blocks = (ctx.len(max) / 64).max(1);
    exact(ctx, n, blocks * 64, keyed)
}

pub fn exact_lens(ctx: &mut Ctx) -> Res {
    let n = if ctx.idx % 2 == 0 { 4 } else { 8 };
    let blocks = if ctx.small { 4 } else { 150 };
    exact(ctx, n, ((ctx.idx / 2) % blocks + 1) as usize * 64, true)
}

/// Every key length, digest length and last-node flag.
fn exact_params(ctx: &mut Ctx) -> Res {
    let mut i = ctx.idx;
    let n = if i % 2 == 0 { 4 } else { 8 };
    i /= 2;
    let mut p = if ctx.rng.chance(1, 2) { P::default() } else { gen::gen_p(&mut ctx.rng, false) };
    p.last_node = i % 2 == 1;
    i /= 2;
    p.key = vec![0; (i % 33) as usize];
    ctx.rng.fill(&mut p.key);
    p.digest = (i / 33 % 32) as usize + 1;
    let blocks = [1, 2, 3, 5][ctx.rng.below(4) as usize];
    exact_with(ctx, n, 64 * blocks, &p)
}

fn exact_width(ctx: &mut Ctx) -> Res {
    let k = 8 + ctx.idx % 13;
    let n = if ctx.idx / 13 % 2 == 0 { 4 } else { 8 };
    let len = (1usize << k) + 64 * (ctx.idx / 26 % 3) as usize - 64;
    exact(ctx, n, len.max(64), true)
}

fn expect_refusal(ctx: &mut Ctx, q: &b2::Params, d: &[&[u8]], valid: bool, p: &P) -> Res {
    let lens: Vec<usize> = d.iter().map(|x| x.len()).collect();
    ctx.tr(|| format!("hash{}_exact with lengths {lens:?}", d.len()));
    let r = ctx.panics(|| call_exact(q, d));
    ctx.observe(&[u8::from(r.is_some())]);
    ctx.add(if valid { "valid_calls" } else { "refused_calls" }, 1);
    match r {
        None if valid => bad(format!("hash{}_exact refuses the valid lengths {lens:?}", d.len())),
        Some(_) if !valid && ctx.oracle => bad(format!("hash{}_exact answers the invalid lengths {lens:?}", d.len())),
        Some(hs) => {
            for (i, h) in hs.iter().enumerate() {
                ctx.hash_eq(&format!("input {i} of {lens:?}"), h, || oracle::blake2s(p, d[i]))?;
            }
            Ok(())
        }
        None => Ok(()),
    }
}

/// One input differs in length from the others (every position, every pair of lengths).
pub fn refuse_one(ctx: &mut Ctx) -> Res {
    const L: [usize; 13] = [0, 1, 63, 64, 65, 127, 128, 129, 192, 256, 320, 512, 1024];
    let mut i = ctx.idx;
    let (a, b) = (L[(i % 13) as usize], L[(i / 13 % 13) as usize]);
    i /= 169;
    let (n, lane) = if i < 4 { (4, i as usize) } else { (8, (i - 4) as usize % 8) };
    let mut d: Vec<&'static [u8]> = (0..n).map(|_| ctx.data(a)).collect();
    d[lane] = ctx.data(b);
    let valid = a == b && a != 0 && a % 64 == 0;
    let p = gen::gen_p(&mut ctx.rng, true);
    let q = gen::lib_params(&p);
    expect_refusal(ctx, &q, &d, valid, &p)
}

/// All inputs equally long, at every length.
fn refuse_equal(ctx: &mut Ctx) -> Res {
    let n = if ctx.idx % 2 == 0 { 4 } else { 8 };
    let a = (ctx.idx / 2) as usize;
    let d: Vec<&'static [u8]> = (0..n).map(|_| ctx.data(a)).collect();
    let p = gen::gen_p(&mut ctx.rng, true);
    let q = gen::lib_params(&p);
    expect_refusal(ctx, &q, &d, a != 0 && a % 64 == 0, &p)
}

/// Lengths that agree in the low 8 or 16 bits, sums and products only, pairwise swaps, and so on.
pub fn exact_any_lens(ctx: &mut Ctx) -> Res {
    let n = if ctx.rng.chance(1, 2) { 4 } else { 8 };
    let base = 64 * ctx.rng.range(1, 12) as usize;
    let mut l = vec![base; n];
    let style = ctx.rng.below(7);
    match style {
        0 => {
            let i = ctx.rng.below(n as u64) as usize;
            l[i] += 256 * ctx.rng.range(1, 4) as usize;
        }
        1 => {
            let i = ctx.rng.below(n as u64) as usize;
            l[i] += if ctx.small { 1024 } else { 65536 };
        }
        2 => {
            let i = ctx.rng.below(n as u64) as usize;
            let j = (i + 1 + ctx.rng.below(n as u64 - 1) as usize) % n;
            l[i] += 64;
            l[j] -= 64;
        }
        3 => {
            for x in &mut l {
                *x = 64 * ctx.rng.below(5) as usize;
            }
        }
        4 => {
            let v = ctx.rng.range(1, 63) as usize;
            l = vec![base + v; n];
        }
        5 => {
            let i = ctx.rng.below(n as u64) as usize;
            l[i] ^= 1 << ctx.rng.below(if ctx.small { 11 } else { 17 });
        }
        _ => {}
    }
    let valid = l[0] != 0 && l[0] % 64 == 0 && l.iter().all(|x| *x == l[0]);
    let d: Vec<&'static [u8]> = l.iter().map(|&x| ctx.data(x)).collect();
    let p = gen::gen_p(&mut ctx.rng, true);
    let q = gen::lib_params(&p);
    expect_refusal(ctx, &q, &d, valid, &p)
}

/// A call with lengths that are never valid, whatever comes of it.
pub fn refused_exact(ctx: &mut Ctx) {
    let n = if ctx.rng.chance(1, 2) { 4 } else { 8 };
    let p = gen::gen_p(&mut ctx.rng, true);
    let q = gen::lib_params(&p);
    let len = 64 * ctx.rng.range(0, 6) as usize;
    let mut d: Vec<&'static [u8]> = (0..n).map(|_| ctx.data(len)).collect();
    let lane = ctx.rng.below(n) as usize;
    let odd = len + ctx.rng.range(1, 63) as usize;
    d[lane] = ctx.data(odd);
    ctx.tr(|| format!("hash{n}_exact with {odd} bytes for {len} in one position"));
    let r = ctx.panics(|| call_exact(&q, &d));
    ctx.observe(&[u8::from(r.is_some())]);
    ctx.add("refusals_tried", 1);
}

/// The same with a key for the eight-way hash function.
pub fn refused_hash8(ctx: &mut Ctx) {
    let mut ps = gen::family(&mut ctx.rng, false);
    ps[ctx.rng.below(8) as usize].key = gen::gen_key(&mut ctx.rng);
    let qs: [b2::Params; 8] = std::array::from_fn(|i| gen::lib_params(&ps[i]));
    let by: [&b2::Params; 8] = std::array::from_fn(|i| &qs[i]);
    let lens = World::eight_lens(ctx, 500);
    let d = slices(ctx, lens);
    ctx.tr(|| format!("hash8 with a key, lengths {lens:?}"));
    let r = ctx.panics(|| call_hash8(&by, &d));
    ctx.observe(&[u8::from(r.is_some())]);
    ctx.add("refusals_tried", 1);
}

fn exact_any(ctx: &mut Ctx) -> Res {
    let n = if ctx.rng.chance(1, 2) { 4 } else { 8 };
    exact_random(ctx, n, 9000, true)
}

pub fn c08() -> Vec<Kind> {
    vec![
        Kind { name: "every-block-count", total: 2 * 150 * 20, quick: 6000, thorough: 6000, miri: 16, f: exact_lens },
        Kind { name: "key-x-digest-x-last-node", total: 4 * 33 * 32, quick: 4 * 33 * 32, thorough: 4 * 33 * 32, miri: 16, f: exact_params },
        Kind { name: "power-of-two-lengths", total: 13 * 6 * 3, quick: 78, thorough: 13 * 6 * 3, miri: 0, f: exact_width },
        Kind { name: "random", total: 0, quick: 30_000, thorough: 800_000, miri: 10, f: exact_any },
        Kind { name: "one-length-differs", total: 169 * 12, quick: 169 * 12, thorough: 169 * 12, miri: 60, f: refuse_one },
        Kind { name: "equal-lengths", total: 2 * 2100, quick: 2 * 2100, thorough: 2 * 2100, miri: 40, f: refuse_equal },
        Kind { name: "length-tuples", total: 0, quick: 20_000, thorough: 400_000, miri: 30, f: exact_any_lens },
        #[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
        super::far::c08(),
        #[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
        super::far::c08_refused(),
    ]
}

// ------------------------------------------------------------------------------------------ C09

fn call_hash8(q: &[&b2::Params; 8], d: &[&[u8]; 8]) -> [b2::Hash; 8] {
    b2::hash8(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7])
}

pub fn hash8_lens(ctx: &mut Ctx, lens: [usize; 8]) -> Res {
    let ps = gen::family(&mut ctx.rng, false);
    let qs: [b2::Params; 8] = std::array::from_fn(|i| gen::lib_params(&ps[i]));
    let d = slices(ctx, lens);
    ctx.tr(|| format!("hash8 of lengths {lens:?}, params of lane 0 {}", world::describe(&ps[0])));
    ctx.add("bytes_hashed", lens.iter().map(|&x| x as u64).sum());
    // Equal sets are sometimes one and the same object.
    let one = ctx.rng.chance(1, 2);
    let by: [&b2::Params; 8] = std::array::from_fn(|i| &qs[if one { ps.iter().position(|p| *p == ps[i]).unwrap() } else { i }]);
    let hs = call_hash8(&by, &d);
    for (i, h) in hs.iter().enumerate() {
        ctx.hash_eq(&format!("hash8, input {i} of {lens:?}"), h, || oracle::blake2s(&ps[i], d[i]))?;
    }
    Ok(())
}

pub fn hash8_random(ctx: &mut Ctx, max: u64) -> Res {
    let lens = World::eight_lens(ctx, max);
    hash8_lens(ctx, lens)
}

fn hash8_equal(ctx: &mut Ctx) -> Res {
    hash8_lens(ctx, [(ctx.idx / 2) as usize; 8])
}

/// Seven inputs of one length, one of another, at every position.
pub fn hash8_one_off(ctx: &mut Ctx) -> Res {
    let lane = (ctx.idx % 8) as usize;
    let a = (ctx.idx / 8 % 330) as usize;
    let mut lens = [a; 8];
    lens[lane] = match ctx.rng.below(4) {
        0 => 0,
        1 => (a + ctx.rng.below(131) as usize).saturating_sub(65),
        2 => a / 64 * 64 + 64 * ctx.rng.below(3) as usize,
        _ => ctx.rng.below(700) as usize,
    };
    hash8_lens(ctx, lens)
}

/// The update8 counterpart of the above, for C22.
pub fn one_lane_off(ctx: &mut Ctx) -> Res {
    ctx.idx %= 330 * 8 * 12;
    grid7(ctx)
}

/// Every lane's length from a small set of edges.
pub fn hash8_mixed(ctx: &mut Ctx) -> Res {
    let lens: [usize; 8] = std::array::from_fn(|_| *ctx.rng.pick(&gen::EDGES));
    hash8_lens(ctx, lens)
}

/// A few lanes very short, the others anything up to a megabyte.
fn lopsided_lens(ctx: &mut Ctx) -> [usize; 8] {
    let short = ctx.rng.range(1, 7);
    let small = ctx.small;
    std::array::from_fn(|_| {
        if ctx.rng.chance(short, 8) {
            ctx.rng.below(131) as usize
        } else {
            let k = ctx.rng.below(if small { 11 } else { 20 });
            ctx.rng.below(2 << k) as usize
        }
    })
}

pub fn hash8_lopsided(ctx: &mut Ctx) -> Res {
    let lens = lopsided_lens(ctx);
    hash8_lens(ctx, lens)
}

pub fn update8_lopsided(ctx: &mut Ctx) -> Res {
    let mut st = eight_states(ctx);
    for _ in 0..ctx.rng.range(1, 2) {
        let lens = lopsided_lens(ctx);
        let d = slices(ctx, lens);
        up8(ctx, &mut st, &d);
    }
    any_fin(ctx, &mut st)
}

fn hash8_any(ctx: &mut Ctx) -> Res {
    hash8_random(ctx, 9000)
}

fn hash8_width(ctx: &mut Ctx) -> Res {
    let k = 8 + ctx.idx % 13;
    let n = (1usize << k) + [0, 1, 2, 63, 64, 65, 66, 128, 129][(ctx.idx / 13 % 9) as usize] - 65;
    let mut lens = [n; 8];
    if ctx.rng.chance(1, 2) {
        let i = ctx.rng.below(8) as usize;
        lens[i] += ctx.rng.below(300) as usize;
    }
    hash8_lens(ctx, lens)
}

/// A key in one or several positions: refused, or answered correctly.
fn hash8_keyed(ctx: &mut Ctx) -> Res {
    let mut ps = gen::family(&mut ctx.rng, false);
    let lane = (ctx.idx % 8) as usize;
    let klen = (ctx.idx / 8 % 32) as usize + 1;
    ps[lane].key = vec![0; klen];
    let mut k = ps[lane].key.clone();
    ctx.rng.fill(&mut k);
    if ctx.rng.chance(1, 6) {
        k = vec![0; klen];
    }
    ps[lane].key = k;
    if ctx.rng.chance(1, 3) {
        let other = ctx.rng.below(8) as usize;
        ps[other].key = gen::gen_key(&mut ctx.rng);
    }
    let qs: [b2::Params; 8] = std::array::from_fn(|i| gen::lib_params(&ps[i]));
    let lens = World::eight_lens(ctx, 700);
    let d = slices(ctx, lens);
    ctx.tr(|| format!("hash8 with a key of {klen} bytes in position {lane}, lengths {lens:?}"));
    let by: [&b2::Params; 8] = std::array::from_fn(|i| &qs[i]);
    match ctx.panics(|| call_hash8(&by, &d)) {
        None => {
            ctx.observe(&[0]);
            ctx.add("keyed_refused", 1);
            Ok(())
        }
        Some(hs) => {
            ctx.add("keyed_answered", 1);
            for (i, h) in hs.iter().enumerate() {
                ctx.hash_eq(&format!("hash8 with a key in position {lane}, input {i}"), h, || oracle::blake2s(&ps[i], d[i]))?;
            }
            Ok(())
        }
    }
}

pub fn c09() -> Vec<Kind> {
    vec![
        Kind { name: "equal-lengths", total: 2 * 2400, quick: 2 * 2400, thorough: 2 * 2400, miri: 16, f: hash8_equal },
        Kind { name: "one-length-differs", total: 8 * 330 * 8, quick: 8 * 330 * 8, thorough: 8 * 330 * 8, miri: 16, f: hash8_one_off },
        Kind { name: "edge-lengths", total: 0, quick: 30_000, thorough: 1_000_000, miri: 16, f: hash8_mixed },
        Kind { name: "random", total: 0, quick: 25_000, thorough: 800_000, miri: 16, f: hash8_any },
        Kind { name: "power-of-two-lengths", total: 13 * 9 * 4, quick: 117, thorough: 13 * 9 * 4, miri: 0, f: hash8_width },
        Kind { name: "lopsided-lengths", total: 0, quick: 300, thorough: 6_000, miri: 0, f: hash8_lopsided },
        Kind { name: "keyed", total: 8 * 32 * 16, quick: 8 * 32 * 16, thorough: 8 * 32 * 16, miri: 30, f: hash8_keyed },
        #[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
        super::far::c09(),
    ]
}
