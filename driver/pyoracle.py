"""A second, independent specification: BLAKE2s of hashlib (the BLAKE2 authors' reference code) and
BLAKE2sp built from it. Used to check the digests the library returned, which the harness records,
and by that also the Rust specification the harness compares with online."""

import hashlib
import struct

IV = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19]
SIGMA = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
]
M32 = 0xFFFFFFFF


def compress(h, block, t, f0, f1):
    m = struct.unpack("<16I", block)
    v = h + IV
    v[12] ^= t & M32
    v[13] ^= t >> 32
    v[14] ^= f0
    v[15] ^= f1

    def g(a, b, c, d, x, y):
        v[a] = (v[a] + v[b] + x) & M32
        e = v[d] ^ v[a]
        v[d] = (e >> 16 | e << 16) & M32
        v[c] = (v[c] + v[d]) & M32
        e = v[b] ^ v[c]
        v[b] = (e >> 12 | e << 20) & M32
        v[a] = (v[a] + v[b] + y) & M32
        e = v[d] ^ v[a]
        v[d] = (e >> 8 | e << 24) & M32
        v[c] = (v[c] + v[d]) & M32
        e = v[b] ^ v[c]
        v[b] = (e >> 7 | e << 25) & M32

    for s in SIGMA:
        g(0, 4, 8, 12, m[s[0]], m[s[1]])
        g(1, 5, 9, 13, m[s[2]], m[s[3]])
        g(2, 6, 10, 14, m[s[4]], m[s[5]])
        g(3, 7, 11, 15, m[s[6]], m[s[7]])
        g(0, 5, 10, 15, m[s[8]], m[s[9]])
        g(1, 6, 11, 12, m[s[10]], m[s[11]])
        g(2, 7, 8, 13, m[s[12]], m[s[13]])
        g(3, 4, 9, 14, m[s[14]], m[s[15]])
    return [h[i] ^ v[i] ^ v[i + 8] for i in range(8)]


def raw(param_block, msg, last_node):
    """BLAKE2s of msg with this parameter block and no key block."""
    p = struct.unpack("<8I", param_block)
    h = [a ^ b for a, b in zip(IV, p)]
    done = 0
    while len(msg) - done > 64:
        done += 64
        h = compress(h, msg[done - 64 : done], done, 0, 0)
    tail = msg[done:]
    h = compress(h, tail + bytes(64 - len(tail)), len(msg), M32, M32 if last_node else 0)
    return struct.pack("<8I", *h)


def blake2s(digest, key, salt, personal, fanout, depth, leaf, offset, node_depth, inner, last, msg):
    return hashlib.blake2s(
        msg,
        digest_size=digest,
        key=key,
        salt=salt,
        person=personal,
        fanout=fanout,
        depth=depth,
        leaf_size=leaf,
        node_offset=offset,
        node_depth=node_depth,
        inner_size=inner,
        last_node=bool(last),
    ).digest()


def blake2sp(digest, key, msg):
    leaves = b""
    for i in range(8):
        part = b"".join(msg[j : j + 64] for j in range(64 * i, len(msg), 512))
        # The parameter block of a leaf holds the digest length of the whole; its own output has 32 bytes.
        block = bytes([digest, len(key), 8, 2]) + struct.pack("<I", 0) + bytes([i, 0, 0, 0, 0, 0, 0, 32]) + bytes(16)
        if key:
            part = key + bytes(64 - len(key)) + part
        if digest == 32:
            leaf = hashlib.blake2s(
                part[64:] if key else part, digest_size=32, key=key, fanout=8, depth=2, leaf_size=0,
                node_offset=i, node_depth=0, inner_size=32, last_node=(i == 7)).digest()
        else:
            leaf = raw(block, part, i == 7)
        leaves += leaf
    block = bytes([digest, len(key), 8, 2]) + bytes(4) + bytes([0, 0, 0, 0, 0, 0, 1, 32]) + bytes(16)
    return raw(block, leaves, True)[:digest]


def unhex(s):
    return b"" if s == "-" else bytes.fromhex(s)


def check_line(line):
    """A recorded digest: None if right, else what is wrong."""
    f = line.split()
    if f[0] == "b2s":
        d, key, salt, pers = int(f[1]), unhex(f[2]), unhex(f[3]), unhex(f[4])
        fan, depth, leaf, off, nd, inner, last = map(int, f[5:12])
        if depth == 0:
            return None
        want = blake2s(d, key, salt, pers, fan, depth, leaf, off, nd, inner, last, unhex(f[12]))
        got = unhex(f[13])
    elif f[0] == "b2sp":
        want = blake2sp(int(f[1]), unhex(f[2]), unhex(f[3]))
        got = unhex(f[4])
    else:
        raise ValueError(f"unknown record {f[0]}")
    if want != got:
        return f"{' '.join(f[:-1])[:400]}: the library gave {got.hex()}, the reference {want.hex()}"
    return None


def self_test(kat_path):
    """Against the official test vectors (a copy of blake2-kat.json)."""
    import json

    n = 0
    for v in json.load(open(kat_path)):
        msg, key = bytes.fromhex(v["in"]), bytes.fromhex(v["key"])
        if v["hash"] == "blake2s":
            got = blake2s(32, key, b"", b"", 1, 1, 0, 0, 0, 0, 0, msg)
        elif v["hash"] == "blake2sp":
            got = blake2sp(32, key, msg)
        else:
            continue
        n += 1
        if got.hex() != v["out"]:
            raise AssertionError(f"the Python reference fails vector {v['hash']} {v['in'][:40]}")
    return n


if __name__ == "__main__":
    import os

    here = os.path.dirname(os.path.abspath(__file__))
    print(self_test(os.path.join(here, "blake2-kat.json")), "vectors")
