//! C23: hashers as io::Write sinks.

use crate::gen::{self, Q};
use crate::run::{bad, Ctx, Kind, Res};
use blake2s_simd as b2;
use oracle::P;
use std::io::{self, BufWriter, IoSlice, LineWriter, Read, Write};

/// A reader that hands out its bytes in irregular portions.
struct Chunky<'a> {
    data: &'a [u8],
    sizes: Vec<usize>,
    i: usize,
}

impl Read for Chunky<'_> {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        if self.data.is_empty() {
            return Ok(0);
        }
        let s = self.sizes[self.i % self.sizes.len()];
        self.i += 1;
        if s == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let n = s.min(out.len()).min(self.data.len());
        out[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

/// Passes everything on while watching the return values of the sink.
struct Tee<'a, W: Write> {
    w: &'a mut W,
    seen: &'a mut Vec<u8>,
    fault: Option<String>,
    vectored: bool,
}

impl<W: Write> Write for Tee<'_, W> {
    fn write(&mut self, d: &[u8]) -> io::Result<usize> {
        let r = self.w.write(d);
        match &r {
            Ok(n) if *n == d.len() => self.seen.extend_from_slice(d),
            r => self.fault = Some(format!("write of {} bytes returned {r:?}", d.len())),
        }
        r
    }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> io::Result<usize> {
        if !self.vectored {
            let first = b.iter().find(|x| !x.is_empty()).map_or(&[][..], |x| &**x);
            return self.write(first);
        }
        let total: usize = b.iter().map(|x| x.len()).sum();
        let r = self.w.write_vectored(b);
        match &r {
            Ok(n) if *n <= total && (*n > 0 || total == 0) => {
                // exactly the first n bytes count as written
                let mut left = *n;
                for s in b {
                    let k = left.min(s.len());
                    self.seen.extend_from_slice(&s[..k]);
                    left -= k;
                }
            }
            r => self.fault = Some(format!("write_vectored of {total} bytes returned {r:?}")),
        }
        r
    }
    fn flush(&mut self) -> io::Result<()> {
        let r = self.w.flush();
        if let Err(e) = &r {
            self.fault = Some(format!("flush returned {e:?}"));
        }
        r
    }
}

pub trait Sink: Write {
    fn upd(&mut self, d: &[u8]);
    fn digest(&mut self) -> b2::Hash;
    fn count_(&self) -> u64;
}

impl Sink for b2::State {
    fn upd(&mut self, d: &[u8]) {
        self.update(d);
    }
    fn digest(&mut self) -> b2::Hash {
        self.finalize()
    }
    fn count_(&self) -> u64 {
        self.count()
    }
}

impl Sink for b2::blake2sp::State {
    fn upd(&mut self, d: &[u8]) {
        self.update(d);
    }
    fn digest(&mut self) -> b2::Hash {
        self.finalize()
    }
    fn count_(&self) -> u64 {
        self.count()
    }
}

fn io_ok<T>(ctx: &Ctx, what: &str, r: io::Result<T>) -> Result<Option<T>, crate::run::Bad> {
    match r {
        Ok(v) => Ok(Some(v)),
        Err(e) if ctx.oracle => bad(format!("{what} failed: {e:?}")),
        Err(_) => Ok(None),
    }
}

fn drive<S: Sink>(ctx: &mut Ctx, s: &mut S, spec: &dyn Fn(&[u8]) -> Vec<u8>) -> Res {
    let mut all: Vec<u8> = vec![];
    let steps = ctx.rng.range(1, if ctx.small { 3 } else { 10 });
    for _ in 0..steps {
        let n = ctx.len(4000);
        let d = ctx.data(n);
        let how = ctx.rng.below(14);
        ctx.add("io_operations", 1);
        ctx.tr(|| format!("operation {how} with {n} bytes"));
        match how {
            0 => {
                let r = s.write(d);
                let r = io_ok(ctx, "write", r)?;
                if ctx.oracle && r != Some(d.len()) {
                    return bad(format!("write of {n} bytes returned {r:?}"));
                }
                all.extend_from_slice(d);
            }
            1 => {
                let r = s.write_all(d);
                io_ok(ctx, "write_all", r)?;
                all.extend_from_slice(d);
            }
            2 => {
                s.upd(d);
                all.extend_from_slice(d);
            }
            3 => {
                for _ in 0..ctx.rng.range(1, 3) {
                    let r = s.flush();
                    io_ok(ctx, "flush", r)?;
                }
            }
            4 | 5 => {
                // io::copy from a reader with interruptions and odd portions
                let sizes: Vec<usize> = (0..5).map(|_| ctx.rng.below(300) as usize).chain([17]).collect();
                let mut rd = Chunky { data: d, sizes, i: 0 };
                let mut t = Tee { w: s, seen: &mut all, fault: None, vectored: true };
                let r = io::copy(&mut rd, &mut t);
                let fault = t.fault.take();
                if let (Some(f), true) = (fault, ctx.oracle) {
                    return bad(format!("under io::copy: {f}"));
                }
                let r = io_ok(ctx, "io::copy", r)?;
                if ctx.oracle && r != Some(n as u64) {
                    return bad(format!("io::copy of {n} bytes returned {r:?}"));
                }
            }
            6 => {
                let mut rd = io::Cursor::new(d).take(n as u64);
                let r = io::copy(&mut rd, s);
                let r = io_ok(ctx, "io::copy", r)?;
                if ctx.oracle && r != Some(n as u64) {
                    return bad(format!("io::copy of {n} bytes returned {r:?}"));
                }
                all.extend_from_slice(d);
            }
            7 => {
                let r = write!(s, "{}:{:x?}:{:>40}|", n, &d[..n.min(9)], "text");
                io_ok(ctx, "write!", r)?;
                all.extend_from_slice(format!("{}:{:x?}:{:>40}|", n, &d[..n.min(9)], "text").as_bytes());
            }
            8 => {
                let cap = ctx.rng.below(700) as usize;
                let mut t = Tee { w: s, seen: &mut all, fault: None, vectored: ctx.rng.chance(1, 2) };
                let mut bw = BufWriter::with_capacity(cap, &mut t);
                let mut rest = d;
                let mut err = None;
                while !rest.is_empty() {
                    let k = (1 + ctx.rng.below(500) as usize).min(rest.len());
                    if let Err(e) = bw.write_all(&rest[..k]) {
                        err = Some(e);
                        break;
                    }
                    rest = &rest[k..];
                }
                if let Err(e) = bw.flush() {
                    err = Some(e);
                }
                drop(bw);
                let fault = t.fault.take();
                if ctx.oracle {
                    if let Some(f) = fault {
                        return bad(format!("under a BufWriter of {cap}: {f}"));
                    }
                    if let Some(e) = err {
                        return bad(format!("a BufWriter of {cap} failed: {e:?}"));
                    }
                }
            }
            9 => {
                let mut t = Tee { w: s, seen: &mut all, fault: None, vectored: true };
                let mut lw = LineWriter::new(&mut t);
                let mut v = d.to_vec();
                for i in (0..v.len()).step_by(41) {
                    v[i] = b'\n';
                }
                let r = lw.write_all(&v).and_then(|()| lw.flush());
                drop(lw);
                let fault = t.fault.take();
                if let (Some(f), true) = (fault, ctx.oracle) {
                    return bad(format!("under a LineWriter: {f}"));
                }
                io_ok(ctx, "LineWriter", r)?;
            }
            10 | 11 => {
                // vectored writes until everything is through
                let k = match ctx.rng.below(16) {
                    0 => ctx.rng.range(7, 80),
                    1 => ctx.rng.range(80, 300),
                    2 if !ctx.small => *ctx.rng.pick(&[300, 511, 1023, 1024, 1030]),
                    3 => gen::dict_u64(&mut ctx.rng).unwrap_or(20).min(400),
                    _ => ctx.rng.range(1, 6),
                } as usize;
                let mut cuts: Vec<usize> = (0..k).map(|_| ctx.rng.below(n as u64 + 1) as usize).collect();
                cuts.sort_unstable();
                let mut parts: Vec<&[u8]> = vec![];
                let mut at = 0;
                for c in cuts {
                    parts.push(&d[at..c]);
                    at = c;
                }
                parts.push(&d[at..]);
                let mut pos = 0usize;
                let mut rounds = 0;
                while pos < n && rounds < k + 50 {
                    rounds += 1;
                    let mut skip = pos;
                    let v: Vec<IoSlice<'_>> = parts
                        .iter()
                        .map(|p| {
                            let c = skip.min(p.len());
                            skip -= c;
                            IoSlice::new(&p[c..])
                        })
                        .collect();
                    let r = s.write_vectored(&v);
                    match io_ok(ctx, "write_vectored", r)? {
                        Some(m) if m > 0 && pos + m <= n => {
                            all.extend_from_slice(&d[pos..pos + m]);
                            pos += m;
                        }
                        r if ctx.oracle => return bad(format!("write_vectored with {} bytes left returned {r:?}", n - pos)),
                        _ => break,
                    }
                }
            }
            12 => {
                // through trait objects and references
                let w: &mut dyn Write = s;
                let r = w.write(d);
                let r = io_ok(ctx, "write", r)?;
                if ctx.oracle && r != Some(n) {
                    return bad(format!("write of {n} bytes through dyn Write returned {r:?}"));
                }
                let mut wr: &mut dyn Write = w;
                let r = Write::flush(&mut wr);
                io_ok(ctx, "flush", r)?;
                all.extend_from_slice(d);
            }
            _ => {
                let h = s.digest();
                ctx.hash_eq("intermediate digest", &h, || spec(&all))?;
                let r = s.flush();
                io_ok(ctx, "flush", r)?;
            }
        }
        if ctx.rng.chance(1, 3) {
            let c = s.count_();
            ctx.count_eq(&format!("count after operation {how}"), c, all.len() as u64)?;
        }
    }
    let r = s.flush();
    io_ok(ctx, "flush", r)?;
    let h = s.digest();
    ctx.hash_eq(&format!("digest of {} bytes written", all.len()), &h, || spec(&all))?;
    ctx.sig = gen::mix64(ctx.sig ^ ctx.obs);
    Ok(())
}

pub fn adaptors(ctx: &mut Ctx) -> Res {
    if ctx.idx % 2 == 0 {
        let p = gen::gen_p(&mut ctx.rng, true);
        ctx.tr(|| format!("BLAKE2s sink with {}", crate::world::describe(&p)));
        let mut s = gen::lib_params(&p).to_state();
        drive(ctx, &mut s, &|d| oracle::blake2s(&p, d))
    } else {
        let q: Q = gen::gen_q(&mut ctx.rng);
        ctx.tr(|| format!("BLAKE2sp sink with a key of {} bytes", q.key.len()));
        let mut s = gen::sp_params(&q).to_state();
        drive(ctx, &mut s, &|d| oracle::blake2sp(q.digest, &q.key, d))
    }
}

/// A single write of every length on top of every interesting fill: return value and digest.
fn lengths(ctx: &mut Ctx) -> Res {
    let n = (ctx.idx / 2) as usize;
    let sp = ctx.idx % 2 == 1;
    let pre = ctx.len(if sp { 1100 } else { 130 });
    let d = ctx.data(pre + n);
    let (a, b) = d.split_at(pre);
    ctx.tr(|| format!("{} write of {n} bytes after {pre}", if sp { "BLAKE2sp" } else { "BLAKE2s" }));
    fn go<S: Sink>(ctx: &mut Ctx, s: &mut S, a: &[u8], b: &[u8]) -> Res {
        let r = s.write(a);
        let r = io_ok(ctx, "write", r)?;
        if r != Some(a.len()) {
            return bad(format!("write of {} bytes returned {r:?}", a.len()));
        }
        let r = s.flush();
        io_ok(ctx, "flush", r)?;
        let r = s.write(b);
        let r = io_ok(ctx, "write", r)?;
        if r != Some(b.len()) {
            return bad(format!("write of {} bytes after {} returned {r:?}", b.len(), a.len()));
        }
        Ok(())
    }
    if sp {
        let q = gen::gen_q(&mut ctx.rng);
        let mut s = gen::sp_params(&q).to_state();
        go(ctx, &mut s, a, b)?;
        let h = s.finalize();
        ctx.hash_eq("digest after two writes", &h, || oracle::blake2sp(q.digest, &q.key, d))
    } else {
        let p = P { key: if ctx.rng.chance(1, 2) { gen::gen_key(&mut ctx.rng) } else { vec![] }, ..P::default() };
        let mut s = gen::lib_params(&p).to_state();
        go(ctx, &mut s, a, b)?;
        let h = s.finalize();
        ctx.hash_eq("digest after two writes", &h, || oracle::blake2s(&p, d))
    }
}

fn width(ctx: &mut Ctx) -> Res {
    let k = 8 + ctx.idx / 2 % 14;
    let n = (1usize << k) + (ctx.idx / 28 % 9) as usize * 17 - 68;
    let d = ctx.data(n);
    fn go<S: Sink>(ctx: &mut Ctx, s: &mut S, d: &[u8]) -> Res {
        let r = s.write(d);
        let r = io_ok(ctx, "write", r)?;
        if r != Some(d.len()) {
            return bad(format!("write of {} bytes returned {r:?}", d.len()));
        }
        Ok(())
    }
    if ctx.idx % 2 == 1 {
        let mut s = b2::blake2sp::State::new();
        go(ctx, &mut s, d)?;
        let h = s.finalize();
        ctx.hash_eq("digest of a long write", &h, || oracle::blake2sp(32, &[], d))
    } else {
        let mut s = b2::State::new();
        go(ctx, &mut s, d)?;
        let h = s.finalize();
        ctx.hash_eq("digest of a long write", &h, || oracle::blake2s(&P::default(), d))
    }
}

pub fn c23() -> Vec<Kind> {
    vec![
        Kind { name: "adaptor-histories", total: 0, quick: 60_000, thorough: 1_500_000, miri: 20, f: adaptors },
        Kind { name: "write-lengths", total: 2 * 2400, quick: 2 * 2400, thorough: 2 * 2400, miri: 20, f: lengths },
        Kind { name: "power-of-two-writes", total: 28 * 9, quick: 28 * 9, thorough: 28 * 9, miri: 0, f: width },
        #[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
        super::far::c23(),
    ]
}
