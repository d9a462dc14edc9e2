//! Random choices, message data and parameter sets.

use blake2s_simd as b2;
use oracle::P;
use std::sync::OnceLock;

enum Src {
    Seed([u64; 4]),
    /// Choices read from bytes; when they are used up the history ends.
    Bytes(Vec<u8>, usize),
}

pub struct Rng(Src);

pub fn mix64(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Past the end anything, so that nothing waits for ever for another value.
fn byte_at(d: &[u8], p: usize) -> u8 {
    d.get(p).copied().unwrap_or_else(|| mix64(p as u64) as u8)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100000001b3);
    }
    mix64(h)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = [0u64; 4];
        let mut z = seed;
        for w in &mut s {
            z = mix64(z);
            *w = z;
        }
        Rng(Src::Seed(s))
    }

    pub fn from_bytes(data: &[u8]) -> Rng {
        Rng(Src::Bytes(data.to_vec(), 0))
    }

    pub fn exhausted(&self) -> bool {
        match &self.0 {
            Src::Seed(_) => false,
            Src::Bytes(d, p) => *p >= d.len(),
        }
    }

    /// Where bytes choose: sometimes some of them, to be part of a message.
    pub fn content(&mut self) -> Option<Vec<u8>> {
        if matches!(self.0, Src::Seed(_)) || !self.chance(1, 2) {
            return None;
        }
        let n = self.range(1, 70);
        Some((0..n).map(|_| self.byte()).collect())
    }

    pub fn u64(&mut self) -> u64 {
        match &mut self.0 {
            Src::Seed(s) => {
                let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
                let t = s[1] << 17;
                s[2] ^= s[0];
                s[3] ^= s[1];
                s[1] ^= s[2];
                s[0] ^= s[3];
                s[2] ^= t;
                s[3] = s[3].rotate_left(45);
                r
            }
            Src::Bytes(d, p) => {
                let mut b = [0u8; 8];
                for x in &mut b {
                    *x = byte_at(d, *p);
                    *p += 1;
                }
                u64::from_le_bytes(b)
            }
        }
    }

    pub fn below(&mut self, n: u64) -> u64 {
        if let Src::Bytes(d, p) = &mut self.0 {
            let mut v = 0u64;
            let mut m = n.saturating_sub(1);
            while m > 0 {
                v = v << 8 | u64::from(byte_at(d, *p));
                *p += 1;
                m >>= 8;
            }
            return if n == 0 { 0 } else { v % n };
        }
        if n == 0 {
            0
        } else {
            ((u128::from(self.u64()) * u128::from(n)) >> 64) as u64
        }
    }

    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }

    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }

    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }

    pub fn fill(&mut self, out: &mut [u8]) {
        for c in out.chunks_mut(8) {
            let w = self.u64().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&w[..n]);
        }
    }

    /// A length from 0 to `max`, with the interesting neighbourhoods over-represented.
    pub fn len(&mut self, max: u64) -> usize {
        let v = match self.below(11) {
            10 => match dict_near(self) {
                Some(v) if v <= max => v,
                _ => self.below(600),
            },
            0 => self.below(4),
            1 | 2 => self.below(200),
            3 | 4 => {
                // next to a multiple of the block length
                let k = self.range(1, 40) * 64;
                (k + self.below(5)).saturating_sub(2)
            }
            5 | 6 => {
                // next to a multiple of the stripe length
                let k = self.range(1, 10) * 512;
                (k + self.below(131)).saturating_sub(65)
            }
            7 => {
                // next to a power of two
                let k = self.below(63 - u64::from(max.max(1).leading_zeros()) + 1);
                ((1 << k) + self.below(5)).saturating_sub(2)
            }
            8 => {
                let k = self.below(64 - u64::from(max.max(1).leading_zeros()));
                self.below(2 << k)
            }
            _ => self.below(max.min(4096) + 1),
        };
        v.min(max) as usize
    }

    /// Lengths that stay small, for slow interpreters.
    pub fn small_len(&mut self, max: u64) -> usize {
        let v = match self.below(6) {
            0 => self.below(3),
            1 | 2 => self.below(140),
            3 => (self.range(1, 4) * 64 + self.below(3)).saturating_sub(1),
            4 => (self.range(1, 3) * 512 + self.below(67)).saturating_sub(2),
            _ => self.below(300),
        };
        v.min(max) as usize
    }
}

pub struct Pool {
    kinds: Vec<&'static mut [u8]>,
    pub size: usize,
}

/// The addresses that windows may start at, relative to their pool, must be the same in every build.
const POOL_ALIGN: usize = 1 << 16;

fn aligned(size: usize, f: impl FnMut(usize) -> u8) -> &'static mut [u8] {
    let layout = std::alloc::Layout::from_size_align(size, POOL_ALIGN).expect("layout");
    let b = unsafe {
        let p = std::alloc::alloc_zeroed(layout);
        assert!(!p.is_null(), "memory");
        std::slice::from_raw_parts_mut(p, size)
    };
    b.iter_mut().zip((0..size).map(f)).for_each(|(b, v)| *b = v);
    b
}

static POOL: OnceLock<Pool> = OnceLock::new();

/// One pool of message bytes per process; messages are windows into it at arbitrary offsets.
pub fn init_pool(seed: u64, small: bool) {
    POOL.get_or_init(|| {
        let size = if small { 8 << 10 } else { 4 << 20 };
        let random = aligned(size, |_| 0);
        Rng::new(seed ^ 0x706f6f6c).fill(random);
        let counting = aligned(size, |i| (i % 251) as u8);
        let zeros = aligned(size, |_| 0);
        let ones = aligned(size, |_| 0xff);
        let sparse = aligned(size, |_| 0);
        let mut r = Rng::new(seed ^ 0x73706172);
        let mut i = 0;
        while i < size {
            sparse[i] = 1 << r.below(8);
            i += 1 + r.below(150) as usize;
        }
        // Runs of one byte (or of one word) between random ones.
        let patchy = aligned(size, |_| 0);
        let mut i = 0;
        while i < size {
            let n = (1 + r.below(400) as usize).min(size - i);
            r.fill(&mut patchy[i..i + n]);
            i += n;
            let n = ([1u64, 64, 700, 3000][r.below(4) as usize] + r.below(200)) as usize;
            let w: [u8; 4] = match r.below(4) {
                0 | 1 => [0; 4],
                2 => [0xff; 4],
                _ => std::array::from_fn(|_| r.below(256) as u8),
            };
            for _ in 0..n.min(size - i) {
                patchy[i] = w[i % 4];
                i += 1;
            }
        }
        Pool { kinds: vec![random, counting, zeros, ones, sparse, patchy], size }
    });
}

pub fn pool() -> &'static Pool {
    POOL.get().expect("pool")
}

impl Pool {
    pub fn random(&self, off: usize, len: usize) -> &[u8] {
        &self.kinds[0][off..off + len]
    }

    /// Random bytes three times out of four, else one of the structured patterns.
    pub fn window(&self, rng: &mut Rng, len: usize) -> &[u8] {
        let kind = match rng.below(18) {
            16 | 17 => 5,
            12 => 1,
            13 => 2,
            14 => 3,
            15 => 4,
            _ => 0,
        };
        let room = (self.size - len) as u64;
        let mut off = rng.below(room + 1) as usize;
        if rng.chance(1, 10) {
            // Start (or end) at, or next to, an address that is a multiple of a power of two.
            let unit = 1usize << rng.range(6, 16);
            let shift = if rng.chance(1, 2) { 0 } else { len };
            let at = (off + shift) / unit * unit + [0, 0, 1, unit - 1][rng.below(4) as usize];
            let o = at.wrapping_sub(shift);
            if o <= room as usize {
                off = o;
            }
        }
        &self.kinds[kind][off..off + len]
    }
}

/// Numbers that occur in the code under test: limits worth stepping on.
static DICT: OnceLock<Vec<u64>> = OnceLock::new();

pub fn init_dict(list: &str) {
    let _ = DICT.set(list.split(',').filter_map(|x| x.parse().ok()).collect());
}

fn dict(rng: &mut Rng) -> Option<u64> {
    let d = DICT.get()?;
    if d.is_empty() {
        None
    } else {
        Some(*rng.pick(d))
    }
}

/// At or next to a number from the code, or to its multiple of the block or stripe length.
fn dict_near(rng: &mut Rng) -> Option<u64> {
    let v = dict(rng)?;
    let v = match rng.below(8) {
        0 => v.wrapping_mul(64),
        1 => v.wrapping_mul(512),
        2 => v.wrapping_mul(2),
        3 => v.wrapping_add(dict(rng)?),
        _ => v,
    };
    Some(match rng.below(4) {
        0 => v.wrapping_sub(1),
        1 => v.wrapping_add(1),
        _ => v,
    })
}

/// A number from the code as a 32-bit word.
pub fn dict_word(rng: &mut Rng) -> u32 {
    match dict_near(rng) {
        Some(v) if v >> 32 != 0 && rng.chance(1, 2) => (v >> 32) as u32,
        Some(v) => v as u32,
        None => rng.u64() as u32,
    }
}

pub fn dict_u64(rng: &mut Rng) -> Option<u64> {
    dict_near(rng)
}

pub const EDGES: [usize; 24] = [
    0, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 511, 512, 513, 1023,
    1024, 1025,
];

pub fn gen_key(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(6) {
        0 => 32,
        1 => 1,
        2 => 31,
        _ => rng.range(1, 32),
    } as usize;
    let mut k = vec![0u8; n];
    rng.fill(&mut k);
    match rng.below(12) {
        0 => k.iter_mut().for_each(|b| *b = 0),
        1 => k[n - 1] = 0,
        2 => k.iter_mut().for_each(|b| *b = 0xff),
        _ => {}
    }
    k
}

fn gen_u8(rng: &mut Rng) -> u8 {
    match rng.below(8) {
        0 | 1 => *rng.pick(&[0u8, 1, 2, 8, 127, 128, 254, 255]),
        2 => dict_near(rng).map_or(3, |v| v as u8),
        _ => rng.byte(),
    }
}

fn gen_bytes8(rng: &mut Rng) -> [u8; 8] {
    let mut b = [0u8; 8];
    match rng.below(4) {
        0 => {}
        1 => {
            let n = rng.range(1, 8) as usize;
            rng.fill(&mut b[..n]);
        }
        _ => rng.fill(&mut b),
    }
    b
}

/// `keyed`: whether a key may be present.
pub fn gen_p(rng: &mut Rng, keyed: bool) -> P {
    let mut p = P::default();
    if keyed && rng.chance(2, 5) {
        p.key = gen_key(rng);
    }
    match rng.below(4) {
        0 => {}
        1 => p.digest = rng.range(1, 32) as usize,
        _ => {
            if rng.chance(1, 2) {
                p.digest = rng.range(1, 32) as usize;
            }
            p.salt = gen_bytes8(rng);
            p.personal = gen_bytes8(rng);
            p.fanout = gen_u8(rng);
            p.depth = gen_u8(rng).max(1);
            p.leaf = match rng.below(5) {
                4 => dict_near(rng).map_or(3, |v| v as u32),
                0 => *rng.pick(&[0, 1, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff]),
                _ => rng.u64() as u32,
            };
            p.offset = match rng.below(5) {
                4 => dict_near(rng).map_or(3, |v| v & 0xffff_ffff_ffff),
                0 => *rng.pick(&[0, 1, 0xffff_ffff, 0x1_0000_0000, 0x7fff_ffff_ffff, 0xffff_ffff_ffff]),
                1 => 1 << rng.below(48),
                _ => rng.u64() & 0xffff_ffff_ffff,
            };
            p.node_depth = gen_u8(rng);
            p.inner = rng.range(0, 32) as u8;
            p.last_node = rng.chance(1, 3);
        }
    }
    p
}

/// One parameter of `p` changed, everything else kept.
pub fn vary(rng: &mut Rng, p: &mut P, field: u64, keyed: bool) {
    match field {
        0 => p.digest = rng.range(1, 32) as usize,
        1 if keyed => {
            if p.key.is_empty() || rng.chance(1, 3) {
                p.key = gen_key(rng);
            } else {
                let i = rng.below(p.key.len() as u64) as usize;
                p.key[i] ^= 1 << rng.below(8);
            }
        }
        2 => p.salt[rng.below(8) as usize] ^= 1 << rng.below(8),
        3 => p.personal[rng.below(8) as usize] ^= 1 << rng.below(8),
        4 => p.fanout ^= 1 << rng.below(8),
        5 => p.depth = (p.depth ^ (1 << rng.below(8))).max(1),
        6 => p.leaf ^= 1 << rng.below(32),
        7 => p.offset ^= 1 << rng.below(48),
        8 => p.node_depth ^= 1 << rng.below(8),
        9 => p.inner = rng.range(0, 32) as u8,
        _ => p.last_node = !p.last_node,
    }
}

/// Eight parameter sets: unrelated, equal, alike but for one parameter in one or more of them, or
/// the leaves of a tree.
pub fn family(rng: &mut Rng, keyed: bool) -> [P; 8] {
    let p0 = gen_p(rng, keyed);
    let mut ps: [P; 8] = std::array::from_fn(|_| p0.clone());
    match rng.below(8) {
        0 => ps = std::array::from_fn(|_| P::default()),
        1 => {}
        2 | 3 => {
            let i = rng.below(8) as usize;
            let f = rng.below(13);
            vary(rng, &mut ps[i], f, keyed);
        }
        4 => {
            let f = rng.below(13);
            let n = rng.range(2, 8);
            for p in ps.iter_mut() {
                if rng.chance(n, 8) {
                    vary(rng, p, f, keyed);
                }
            }
        }
        5 => {
            let base = rng.u64() & 0xffff_ffff_ff00;
            for (i, p) in ps.iter_mut().enumerate() {
                p.offset = base + i as u64;
                p.last_node = i == 7;
            }
        }
        _ => ps = std::array::from_fn(|_| gen_p(rng, keyed)),
    }
    ps
}

/// Give some lanes the bytes, the start or the end of another lane's input.
pub fn alias(rng: &mut Rng, d: &mut [&'static [u8]]) {
    if rng.chance(1, 3) {
        return beside(rng, d);
    }
    let long = *d.iter().max_by_key(|x| x.len()).unwrap();
    let some = rng.range(1, 4);
    for x in d.iter_mut() {
        if rng.chance(some, 4) {
            *x = if rng.chance(3, 4) { &long[..x.len()] } else { &long[long.len() - x.len()..] };
        }
    }
}

/// The inputs become pieces of one buffer: one after the other, or a step apart.
fn beside(rng: &mut Rng, d: &mut [&'static [u8]]) {
    let longest = d.iter().map(|x| x.len()).max().unwrap_or(0);
    let n = d.len();
    let mut at: Vec<usize> = match rng.below(3) {
        0 | 1 => d.iter().scan(0, |a, x| { *a += x.len(); Some(*a - x.len()) }).collect(),
        _ => {
            let step = [1, 4, 32, 64, 64, d[0].len()][rng.below(6) as usize];
            (0..n).map(|i| i * step).collect()
        }
    };
    let p = pool();
    let span = at[n - 1] + longest;
    if span > p.size {
        return;
    }
    if rng.chance(1, 4) {
        at.reverse();
    }
    let from = rng.below((p.size - span) as u64 + 1) as usize;
    let from = if rng.chance(1, 2) { from / 64 * 64 } else { from };
    for (x, a) in d.iter_mut().zip(at) {
        *x = p.random(from + a, x.len());
    }
}

pub fn lib_params(p: &P) -> b2::Params {
    let mut q = b2::Params::new();
    q.hash_length(p.digest)
        .key(&p.key)
        .salt(&p.salt)
        .personal(&p.personal)
        .fanout(p.fanout)
        .max_depth(p.depth)
        .max_leaf_length(p.leaf)
        .node_offset(p.offset)
        .node_depth(p.node_depth)
        .inner_hash_length(usize::from(p.inner))
        .last_node(p.last_node);
    q
}

#[derive(Clone, Debug)]
pub struct Q {
    pub digest: usize,
    pub key: Vec<u8>,
}

pub fn gen_q(rng: &mut Rng) -> Q {
    Q {
        digest: if rng.chance(1, 2) { 32 } else { rng.range(1, 32) as usize },
        key: if rng.chance(2, 5) { gen_key(rng) } else { Vec::new() },
    }
}

pub fn sp_params(q: &Q) -> b2::blake2sp::Params {
    // Both constructors and both orders, depending on the values alone.
    let odd = q.digest % 2 == 1;
    let mut s = if odd { b2::blake2sp::Params::default() } else { b2::blake2sp::Params::new() };
    if q.key.len() % 2 == 1 {
        s.key(&q.key).hash_length(q.digest);
    } else {
        s.hash_length(q.digest).key(&q.key);
    }
    s
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn short(b: &[u8]) -> String {
    if b.len() <= 48 {
        hex(b)
    } else {
        format!("{}..({} bytes)", hex(&b[..16]), b.len())
    }
}
