//! C14: past 4 GiB where that many bytes do not fit into the address space: many calls over the
//! same few MiB. Works on every target.

use crate::gen::{self, Q};
use crate::run::{Ctx, Kind, Res};
use blake2s_simd as b2;
use oracle::P;

const G4: u64 = 1 << 32;

/// The pool as an endless message, in chunks of varying length: `f(chunk)` until `total` bytes.
fn chunks(ctx: &mut Ctx, total: u64, mut f: impl FnMut(&'static [u8])) {
    let size = gen::pool().size;
    let whole = gen::pool().random(0, size);
    let mut at = 0u64;
    while at < total {
        let n = if ctx.rng.chance(1, 8) { ctx.rng.below(2000) as usize } else { size - ctx.rng.below(4096) as usize };
        let n = (n as u64).min(total - at) as usize;
        f(&whole[..n]);
        at += n as u64;
    }
}

struct SpSpec {
    q: Q,
    leaves: Vec<oracle::S>,
    pos: u64,
}

impl SpSpec {
    fn new(q: &Q) -> SpSpec {
        SpSpec { q: q.clone(), leaves: (0..8).map(|i| oracle::sp_leaf(q.digest, &q.key, i)).collect(), pos: 0 }
    }

    fn feed(&mut self, mut d: &[u8]) {
        while !d.is_empty() {
            let n = (64 - (self.pos % 64) as usize).min(d.len());
            self.leaves[(self.pos / 64 % 8) as usize].feed(&d[..n]);
            self.pos += n as u64;
            d = &d[n..];
        }
    }

    fn finish(&self) -> Vec<u8> {
        let hashes: Vec<[u8; 32]> = self.leaves.iter().enumerate().map(|(i, l)| l.finish(i == 7)).collect();
        oracle::sp_finish(self.q.digest, &self.q.key, &hashes)
    }
}

fn single(ctx: &mut Ctx, p: &P) -> Res {
    let base = G4 - 3000;
    let mut s = gen::lib_params(p).to_state();
    let mut o = oracle::S::new(p);
    chunks(ctx, base, |d| {
        s.update(d);
        o.feed(d);
    });
    let mut at = base;
    ctx.tr(|| format!("blake2s in many calls, {at} bytes so far"));
    ctx.count_eq("count", s.count(), at)?;
    while at < G4 + 3000 {
        let n = ctx.rng.below(190) as usize;
        let d = ctx.data(n);
        s.update(d);
        o.feed(d);
        at += n as u64;
        let h = s.finalize();
        ctx.hash_eq(&format!("blake2s of {at} bytes in many calls"), &h, || o.finish(p.last_node)[..p.digest].to_vec())?;
        ctx.count_eq("count", s.count(), at)?;
        ctx.count_eq("count of a clone", s.clone().count(), at)?;
    }
    Ok(())
}

fn tree(ctx: &mut Ctx, q: &Q, base: u64) -> Res {
    let mut s = gen::sp_params(q).to_state();
    let mut o = SpSpec::new(q);
    chunks(ctx, base, |d| {
        s.update(d);
        o.feed(d);
    });
    let mut at = base;
    ctx.tr(|| format!("blake2sp in many calls, {at} bytes so far"));
    ctx.count_eq("BLAKE2sp count", s.count(), at)?;
    while at < base + 9000 {
        let n = ctx.rng.below(700) as usize;
        let d = ctx.data(n);
        s.update(d);
        o.feed(d);
        at += n as u64;
        let h = s.finalize();
        ctx.hash_eq(&format!("blake2sp of {at} bytes in many calls"), &h, || o.finish())?;
        ctx.count_eq("BLAKE2sp count", s.count(), at)?;
    }
    Ok(())
}

fn eight(ctx: &mut Ctx) -> Res {
    let base = G4 - 2000;
    let mut e: Vec<b2::State> = (0..8).map(|_| b2::State::new()).collect();
    let mut o = oracle::S::new(&P::default());
    let up = |e: &mut [b2::State], d: [&[u8]; 8]| {
        if let [s, t, u, v, w, x, y, z] = e {
            b2::update8(s, t, u, v, w, x, y, z, d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]);
        }
    };
    chunks(ctx, base, |d| {
        up(&mut e, [d; 8]);
        o.feed(d);
    });
    ctx.tr(|| format!("update8 in many calls, {base} bytes so far"));
    let mut os = vec![o; 8];
    let mut at = [base; 8];
    for _ in 0..40 {
        let d: Vec<&[u8]> = (0..8)
            .map(|_| {
                let n = ctx.rng.below(200) as usize;
                ctx.data(n)
            })
            .collect();
        up(&mut e, std::array::from_fn(|i| d[i]));
        let mut c = e.clone();
        let hs = if let [s, t, u, v, w, x, y, z] = &mut c[..] { b2::finalize8(s, t, u, v, w, x, y, z) } else { unreachable!() };
        for i in 0..8 {
            os[i].feed(d[i]);
            at[i] += d[i].len() as u64;
            ctx.hash_eq(&format!("update8 and finalize8, lane {i}, {} bytes", at[i]), &hs[i], || os[i].finish(false).to_vec())?;
            ctx.count_eq(&format!("count of lane {i}"), e[i].count(), at[i])?;
        }
    }
    Ok(())
}

fn case(ctx: &mut Ctx) -> Res {
    ctx.add("messages_past_4GiB", 1);
    match ctx.idx {
        0 => single(ctx, &P::default()),
        1 => single(ctx, &P { key: (1..=32).collect(), digest: 20, last_node: true, ..P::default() }),
        2 => tree(ctx, &Q { digest: 32, key: vec![9; 5] }, G4 - 3000),
        _ => eight(ctx),
    }
}

fn leaves(ctx: &mut Ctx) -> Res {
    tree(ctx, &Q { digest: 32, key: vec![] }, 8 * G4 - 3000)
}

pub fn c14() -> Vec<Kind> {
    vec![
        Kind { name: "many-calls-past-4GiB", total: 4, quick: 4, thorough: 4, miri: 0, f: case },
        Kind { name: "leaves-past-4GiB", total: 1, quick: 0, thorough: 1, miri: 0, f: leaves },
    ]
}
