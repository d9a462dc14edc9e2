//! Executable specification of BLAKE2s and BLAKE2sp (RFC 7693, the BLAKE2 paper, and for BLAKE2sp
//! the layout of the BLAKE2 reference code), written without looking at how the code under test is
//! organised. It is itself validated at run time against hashlib and the official test vectors.

pub const IV: [u32; 8] = [
    0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19,
];

const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

macro_rules! mix {
    ($v:ident, $a:expr, $b:expr, $c:expr, $d:expr, $x:expr, $y:expr) => {
        $v[$a] = $v[$a].wrapping_add($v[$b]).wrapping_add($x);
        $v[$d] = ($v[$d] ^ $v[$a]).rotate_right(16);
        $v[$c] = $v[$c].wrapping_add($v[$d]);
        $v[$b] = ($v[$b] ^ $v[$c]).rotate_right(12);
        $v[$a] = $v[$a].wrapping_add($v[$b]).wrapping_add($y);
        $v[$d] = ($v[$d] ^ $v[$a]).rotate_right(8);
        $v[$c] = $v[$c].wrapping_add($v[$d]);
        $v[$b] = ($v[$b] ^ $v[$c]).rotate_right(7);
    };
}

/// The compression function F of RFC 7693 section 3.2, with both finalization words explicit.
pub fn compress(h: &mut [u32; 8], block: &[u8; 64], t: u64, f0: u32, f1: u32) {
    let mut m = [0u32; 16];
    for i in 0..16 {
        m[i] = u32::from(block[4 * i])
            | u32::from(block[4 * i + 1]) << 8
            | u32::from(block[4 * i + 2]) << 16
            | u32::from(block[4 * i + 3]) << 24;
    }
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= (t & 0xffff_ffff) as u32;
    v[13] ^= (t >> 32) as u32;
    v[14] ^= f0;
    v[15] ^= f1;
    for s in &SIGMA {
        mix!(v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
        mix!(v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
        mix!(v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
        mix!(v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
        mix!(v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
        mix!(v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
        mix!(v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
        mix!(v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}

/// A parameter set, in the terms of the BLAKE2 paper.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct P {
    pub digest: usize,
    pub key: Vec<u8>,
    pub salt: [u8; 8],
    pub personal: [u8; 8],
    pub fanout: u8,
    pub depth: u8,
    pub leaf: u32,
    pub offset: u64,
    pub node_depth: u8,
    pub inner: u8,
    pub last_node: bool,
}

impl Default for P {
    fn default() -> Self {
        P {
            digest: 32,
            key: Vec::new(),
            salt: [0; 8],
            personal: [0; 8],
            fanout: 1,
            depth: 1,
            leaf: 0,
            offset: 0,
            node_depth: 0,
            inner: 0,
            last_node: false,
        }
    }
}

impl P {
    /// The 32-byte parameter block.
    pub fn block(&self) -> [u8; 32] {
        let mut b = [0u8; 32];
        b[0] = self.digest as u8;
        b[1] = self.key.len() as u8;
        b[2] = self.fanout;
        b[3] = self.depth;
        b[4..8].copy_from_slice(&self.leaf.to_le_bytes());
        b[8..14].copy_from_slice(&self.offset.to_le_bytes()[..6]);
        b[14] = self.node_depth;
        b[15] = self.inner;
        b[16..24].copy_from_slice(&self.salt);
        b[24..32].copy_from_slice(&self.personal);
        b
    }

    pub fn init_words(&self) -> [u32; 8] {
        let b = self.block();
        let mut h = IV;
        for i in 0..8 {
            h[i] ^= u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        }
        h
    }
}

/// Streaming BLAKE2s. `last` holds the most recent block, which is only compressed once it is known
/// not to be the final one.
#[derive(Clone)]
pub struct S {
    h: [u32; 8],
    last: [u8; 64],
    have: usize,
    t: u64,
}

impl S {
    pub fn new(p: &P) -> S {
        let mut s = S::without_key_block(p);
        if !p.key.is_empty() {
            let mut k = [0u8; 64];
            k[..p.key.len()].copy_from_slice(&p.key);
            s.feed(&k);
        }
        s
    }

    /// The key length is a parameter, but no key block is hashed (the root of BLAKE2sp).
    pub fn without_key_block(p: &P) -> S {
        S { h: p.init_words(), last: [0; 64], have: 0, t: 0 }
    }

    pub fn feed(&mut self, mut data: &[u8]) {
        while !data.is_empty() {
            if self.have == 64 {
                self.t += 64;
                compress(&mut self.h, &self.last, self.t, 0, 0);
                self.have = 0;
            }
            if self.have == 0 {
                // Whole blocks that are not the last one.
                while data.len() > 64 {
                    let mut b = [0u8; 64];
                    b.copy_from_slice(&data[..64]);
                    self.t += 64;
                    compress(&mut self.h, &b, self.t, 0, 0);
                    data = &data[64..];
                }
            }
            let n = core::cmp::min(64 - self.have, data.len());
            self.last[self.have..self.have + n].copy_from_slice(&data[..n]);
            self.have += n;
            data = &data[n..];
        }
    }

    /// As if `n` bytes more (whole blocks) had been compressed, to the same words.
    pub fn skip(&mut self, n: u64) {
        self.t += n;
    }

    pub fn finish(&self, last_node: bool) -> [u8; 32] {
        let mut h = self.h;
        let mut b = [0u8; 64];
        b[..self.have].copy_from_slice(&self.last[..self.have]);
        compress(&mut h, &b, self.t + self.have as u64, !0, if last_node { !0 } else { 0 });
        let mut out = [0u8; 32];
        for i in 0..8 {
            out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes());
        }
        out
    }
}

/// BLAKE2s of `data` with the parameters `p`: the first `p.digest` bytes of the final state.
pub fn blake2s(p: &P, data: &[u8]) -> Vec<u8> {
    let mut s = S::new(p);
    s.feed(data);
    s.finish(p.last_node)[..p.digest].to_vec()
}

fn sp_node(digest: usize, key_len: usize, offset: u64, node_depth: u8) -> P {
    P {
        digest,
        key: vec![0; key_len],
        fanout: 8,
        depth: 2,
        offset,
        node_depth,
        inner: 32,
        ..P::default()
    }
}

/// Streaming BLAKE2sp: input block number i goes to leaf i mod 8.
#[derive(Clone)]
pub struct Sp {
    leaves: Vec<S>,
    root: S,
    digest: usize,
    pos: u64,
}

impl Sp {
    pub fn new(digest: usize, key: &[u8]) -> Sp {
        let leaves = (0..8)
            .map(|i| {
                let mut p = sp_node(digest, key.len(), i, 0);
                p.key = key.to_vec();
                S::new(&p)
            })
            .collect();
        let root = S::without_key_block(&sp_node(digest, key.len(), 0, 1));
        Sp { leaves, root, digest, pos: 0 }
    }

    pub fn feed(&mut self, mut data: &[u8]) {
        while !data.is_empty() {
            let leaf = (self.pos / 64 % 8) as usize;
            let n = core::cmp::min(64 - (self.pos % 64) as usize, data.len());
            self.leaves[leaf].feed(&data[..n]);
            self.pos += n as u64;
            data = &data[n..];
        }
    }

    /// As if each leaf had compressed `n` bytes more.
    pub fn skip(&mut self, n: u64) {
        for l in &mut self.leaves {
            l.skip(n);
        }
        self.pos += 8 * n;
    }

    pub fn finish(&self) -> Vec<u8> {
        self.finish_whole()[..self.digest].to_vec()
    }

    /// All that the root yields, before it is cut to the digest length.
    pub fn finish_whole(&self) -> [u8; 32] {
        let hashes: Vec<[u8; 32]> =
            self.leaves.iter().enumerate().map(|(i, l)| l.finish(i == 7)).collect();
        sp_root(&self.root, &hashes)
    }
}

fn sp_root(root: &S, leaf_hashes: &[[u8; 32]]) -> [u8; 32] {
    let mut root = root.clone();
    for h in leaf_hashes {
        root.feed(h);
    }
    root.finish(true)
}

pub fn blake2sp(digest: usize, key: &[u8], data: &[u8]) -> Vec<u8> {
    let mut s = Sp::new(digest, key);
    s.feed(data);
    s.finish()
}

/// The leaf `i` and the root of a BLAKE2sp tree, for callers that hash the leaves in parallel.
pub fn sp_leaf(digest: usize, key: &[u8], i: u64) -> S {
    let mut p = sp_node(digest, key.len(), i, 0);
    p.key = key.to_vec();
    S::new(&p)
}

pub fn sp_finish(digest: usize, key: &[u8], leaf_hashes: &[[u8; 32]]) -> Vec<u8> {
    sp_root(&S::without_key_block(&sp_node(digest, key.len(), 0, 1)), leaf_hashes)[..digest].to_vec()
}
