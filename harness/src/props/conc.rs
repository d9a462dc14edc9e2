//! C21: several threads at once. Data races are ThreadSanitizer's and Miri's to find; here are the
//! workloads and the check that every digest is the sequential one.

use crate::gen::{self, Q};
use crate::props::Force;
use crate::run::{bad, Bad, Ctx, Kind, Res};
use blake2s_simd as b2;
use oracle::P;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- Send and Sync

/// `T: Send`/`T: Sync` as a value: the inherent constant exists only if the bound holds, and hides
/// the trait's.
trait Not {
    const SEND: bool = false;
    const SYNC: bool = false;
}
#[allow(dead_code)]
struct ProbeSend<T: ?Sized>(PhantomData<T>);
#[allow(dead_code)]
impl<T: ?Sized + Send> ProbeSend<T> {
    const SEND: bool = true;
}
impl<T: ?Sized> Not for ProbeSend<T> {}
#[allow(dead_code)]
struct ProbeSync<T: ?Sized>(PhantomData<T>);
#[allow(dead_code)]
impl<T: ?Sized + Sync> ProbeSync<T> {
    const SYNC: bool = true;
}
impl<T: ?Sized> Not for ProbeSync<T> {}

macro_rules! threads_ok {
    ($ctx:expr, $($t:ty),*) => {
        $(
            $ctx.add("types_checked", 1);
            if !<ProbeSend<$t>>::SEND {
                return bad(format!("{} cannot be handed to another thread (not Send)", stringify!($t)));
            }
            if !<ProbeSync<$t>>::SYNC {
                return bad(format!("{} cannot be shared by reference (not Sync)", stringify!($t)));
            }
        )*
    };
}

fn auto_traits(ctx: &mut Ctx) -> Res {
    if <ProbeSend<std::rc::Rc<u8>>>::SEND || <ProbeSync<std::cell::Cell<u8>>>::SYNC {
        panic!("harness: the probe calls Rc Send or Cell Sync");
    }
    threads_ok!(ctx, b2::State, b2::Params, b2::Hash, b2::blake2sp::State, b2::blake2sp::Params);
    Ok(())
}

// ---------------------------------------------------------------- a little machinery

/// Spinning start line, so that threads set off together.
struct Line {
    waiting: AtomicUsize,
    n: usize,
}

impl Line {
    fn new(n: usize) -> Line {
        Line { waiting: AtomicUsize::new(0), n }
    }
    fn wait(&self) {
        self.waiting.fetch_add(1, Ordering::AcqRel);
        while self.waiting.load(Ordering::Acquire) < self.n {
            std::hint::spin_loop();
            if cfg!(miri) {
                std::thread::yield_now();
            }
        }
    }
}

/// Random pauses between operations.
fn jitter(r: &mut gen::Rng) {
    match r.below(8) {
        0 => std::thread::yield_now(),
        1 => {
            let n = r.below(if cfg!(miri) { 3 } else { 400 });
            for _ in 0..n {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}

struct Seen {
    first: Mutex<Option<String>>,
    checked: AtomicU64,
    /// Which thread finished its operations in which order: how different the schedules were.
    order: Mutex<Vec<u8>>,
}

impl Seen {
    fn new() -> Seen {
        Seen { first: Mutex::new(None), checked: AtomicU64::new(0), order: Mutex::new(vec![]) }
    }
    fn check(&self, t: usize, label: &str, got: &[u8], want: &[u8]) {
        self.checked.fetch_add(1, Ordering::Relaxed);
        {
            let mut o = self.order.lock().unwrap();
            if o.len() < 64 {
                o.push(t as u8);
            }
        }
        if got != want {
            let mut f = self.first.lock().unwrap();
            if f.is_none() {
                *f = Some(format!("thread {t}: {label}: got {} but sequentially it is {}", gen::hex(got), gen::hex(want)));
            }
        }
    }
    fn done(self, ctx: &mut Ctx) -> Res {
        ctx.add("digests_checked", self.checked.load(Ordering::Relaxed));
        ctx.observe(&self.checked.load(Ordering::Relaxed).to_le_bytes());
        let o = self.order.into_inner().unwrap();
        let mut h = ctx.sig;
        for x in o {
            h = gen::mix64(h ^ u64::from(x));
        }
        ctx.sig = h;
        match self.first.into_inner().unwrap() {
            None => Ok(()),
            Some(m) => Err(Bad(m)),
        }
    }
}

/// One operation of a random kind on private data; `checked` against the specification.
fn operation(r: &mut gen::Rng, seen: &Seen, t: usize, which: u64) {
    let max = if cfg!(miri) { 200 } else { 3000 };
    let n = r.below(max) as usize;
    let d = gen::pool().window(r, n);
    match which {
        0 => {
            let h = b2::blake2s(d);
            seen.check(t, "blake2s", h.as_bytes(), &oracle::blake2s(&P::default(), d));
        }
        1 => {
            let h = b2::blake2sp::blake2sp(d);
            seen.check(t, "blake2sp", h.as_bytes(), &oracle::blake2sp(32, &[], d));
        }
        2 => {
            let p = gen::gen_p(r, true);
            let h = gen::lib_params(&p).to_state().update(d).finalize();
            seen.check(t, "State", h.as_bytes(), &oracle::blake2s(&p, d));
        }
        3 => {
            let q = gen::gen_q(r);
            let h = gen::sp_params(&q).to_state().update(d).finalize();
            seen.check(t, "blake2sp::State", h.as_bytes(), &oracle::blake2sp(q.digest, &q.key, d));
        }
        4 => {
            let p = b2::Params::new();
            let hs = b2::hash8(&p, &p, &p, &p, &p, &p, &p, &p, d, d, d, d, d, d, d, d);
            seen.check(t, "hash8", hs[7].as_bytes(), &oracle::blake2s(&P::default(), d));
        }
        5 => {
            let p = gen::gen_p(r, true);
            let m = gen::pool().window(r, 128);
            let hs = b2::hash8_exact(&gen::lib_params(&p), m, m, m, m, m, m, m, m);
            seen.check(t, "hash8_exact", hs[3].as_bytes(), &oracle::blake2s(&p, m));
        }
        6 => {
            let p = gen::gen_p(r, true);
            let m = gen::pool().window(r, 192);
            let hs = b2::hash4_exact(&gen::lib_params(&p), m, m, m, m);
            seen.check(t, "hash4_exact", hs[2].as_bytes(), &oracle::blake2s(&p, m));
        }
        _ => {
            let p = gen::gen_p(r, true);
            let mut e: [b2::State; 8] = std::array::from_fn(|_| gen::lib_params(&p).to_state());
            let [a, b, c, f, g, h, i, j] = &mut e;
            b2::update8(a, b, c, f, g, h, i, j, d, d, d, d, d, d, d, d);
            let hs = b2::finalize8(a, b, c, f, g, h, i, j);
            seen.check(t, "update8", hs[5].as_bytes(), &oracle::blake2s(&p, d));
        }
    }
}

fn threads(ctx: &Ctx) -> usize {
    if ctx.small {
        3
    } else {
        8
    }
}

/// The very first use in a process, by all threads at once (run as the only case of a process).
fn first_use(ctx: &mut Ctx) -> Res {
    let n = threads(ctx);
    let line = Line::new(n);
    let seen = Seen::new();
    // All the same entry point, or a different one each.
    let one = if ctx.rng.chance(1, 2) { Some(ctx.rng.below(8)) } else { None };
    let seeds: Vec<u64> = (0..n).map(|_| ctx.rng.u64()).collect();
    ctx.tr(|| format!("{n} threads start with {}", one.map_or("different entry points".into(), |x| format!("entry point {x}"))));
    std::thread::scope(|s| {
        for (t, seed) in seeds.iter().enumerate() {
            let (line, seen) = (&line, &seen);
            s.spawn(move || {
                let mut r = gen::Rng::new(*seed);
                let w = one.unwrap_or(t as u64 % 8);
                line.wait();
                operation(&mut r, seen, t, w);
                let w = r.below(8);
                operation(&mut r, seen, t, w);
            });
        }
    });
    ctx.add("first_uses", 1);
    seen.done(ctx)
}

/// Messages and parameters with their specified digests, worked out beforehand.
#[cfg(all(target_os = "linux", not(miri), not(vh_san)))]
struct Known {
    d: Vec<&'static [u8]>,
    q: Vec<b2::Params>,
    sq: b2::blake2sp::Params,
    want: Vec<Vec<u8>>,
    sp: Vec<u8>,
}

/// Whether the types are `Sync` is for `auto_traits` to say; the harness has to compile anyway.
#[cfg(all(target_os = "linux", not(miri), not(vh_san)))]
unsafe impl Sync for Known {}

#[cfg(all(target_os = "linux", not(miri), not(vh_san)))]
impl Known {
    /// No call that computes anything: the child must be the first.
    fn new(ctx: &mut Ctx) -> Known {
        let len = 64 * ctx.rng.range(1, 4) as usize;
        let d: Vec<&'static [u8]> = (0..8).map(|_| gen::pool().window(&mut ctx.rng, len)).collect();
        let p = gen::family(&mut ctx.rng, false).to_vec();
        let sq = gen::gen_q(&mut ctx.rng);
        let all: Vec<u8> = d.concat();
        Known {
            want: p.iter().zip(&d).map(|(p, d)| oracle::blake2s(p, d)).collect(),
            q: p.iter().map(gen::lib_params).collect(),
            sp: oracle::blake2sp(sq.digest, &sq.key, &all[..len]),
            sq: gen::sp_params(&sq),
            d,
        }
    }

    fn right(&self, which: u64, i: usize) -> bool {
        let (d, q) = (&self.d, &self.q);
        match which {
            0 => {
                let hs = b2::hash8(
                    &q[0], &q[1], &q[2], &q[3], &q[4], &q[5], &q[6], &q[7], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7],
                );
                (0..8).all(|i| hs[i].as_bytes() == &self.want[i][..])
            }
            1 => {
                let mut e: [b2::State; 8] = std::array::from_fn(|i| q[i].to_state());
                let [a, b, c, f, g, h, i, j] = &mut e;
                b2::update8(a, b, c, f, g, h, i, j, d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]);
                let hs = b2::finalize8(a, b, c, f, g, h, i, j);
                (0..8).all(|i| hs[i].as_bytes() == &self.want[i][..])
            }
            2 => self.sq.to_state().update(d[0]).finalize().as_bytes() == &self.sp[..],
            3 => {
                let x = d[i];
                let hs = b2::hash8_exact(&q[i], x, x, x, x, x, x, x, x);
                hs.iter().all(|h| h.as_bytes() == &self.want[i][..])
            }
            4 => {
                let x = d[i];
                let hs = b2::hash4_exact(&q[i], x, x, x, x);
                hs.iter().all(|h| h.as_bytes() == &self.want[i][..])
            }
            5 => {
                let mut s = q[i].to_state();
                s.update(&d[i][..40]);
                let mut t = s.clone();
                t.update(&d[i][40..]);
                s.update(&d[i][40..]);
                s.finalize().as_bytes() == &self.want[i][..] && t.finalize().as_bytes() == &self.want[i][..]
            }
            _ => q[i].to_state().update(d[i]).finalize().as_bytes() == &self.want[i][..],
        }
    }
}

/// The very first uses of the library, in a process of their own: a fork of this one, which has not
/// used the library for anything that looks at the CPU. Eight threads call short functions again
/// and again from a common start on, each from a moment of its own.
#[cfg(all(target_os = "linux", not(miri), not(vh_san)))]
fn first_use_forked(ctx: &mut Ctx) -> Res {
    let k = Known::new(ctx);
    let n = 8usize;
    let same = if ctx.rng.chance(2, 3) { Some(ctx.rng.below(7)) } else { None };
    let plan: Vec<(u64, u64)> = (0..n)
        .map(|_| {
            let w = same.unwrap_or_else(|| ctx.rng.below(7));
            let top = 1 << ctx.rng.below(13);
            (w, ctx.rng.below(top))
        })
        .collect();
    let us = *ctx.rng.pick(&[100u64, 300, 1000, 2500]);
    ctx.tr(|| format!("first uses in a fork: entry points and start delays {plan:?}, for {us} us"));
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        ctx.trivial = true;
        return Ok(());
    }
    if pid == 0 {
        unsafe {
            libc::alarm(60);
        }
        let before = crate::sys::CPUIDS.load(Ordering::Relaxed);
        let line = Line::new(n);
        let wrong = AtomicU64::new(0);
        let r = crate::run::quiet(|| {
            std::thread::scope(|s| {
                for (t, (w, late)) in plan.iter().enumerate() {
                    let (line, wrong, k) = (&line, &wrong, &k);
                    s.spawn(move || {
                        line.wait();
                        for _ in 0..*late {
                            std::hint::spin_loop();
                        }
                        let t0 = std::time::Instant::now();
                        loop {
                            match crate::run::quiet(|| k.right(*w, t)) {
                                Ok(true) => {}
                                Ok(false) => {
                                    wrong.fetch_or(1, Ordering::Relaxed);
                                }
                                Err(_) => {
                                    wrong.fetch_or(2, Ordering::Relaxed);
                                }
                            }
                            if t0.elapsed().as_micros() as u64 >= us {
                                break;
                            }
                        }
                    });
                }
            });
        });
        let asked = crate::sys::CPUIDS.load(Ordering::Relaxed) != before;
        let code = match r {
            Ok(()) => wrong.load(Ordering::Relaxed) as i32,
            Err(_) => 64,
        };
        unsafe { libc::_exit(code | if asked { 16 } else { 0 }) }
    }
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
        if std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
            panic!("waitpid");
        }
    }
    ctx.observe(&[0]);
    ctx.add("first_uses", 1);
    ctx.add("digests_checked", 1);
    if !libc::WIFEXITED(st) {
        let sig = libc::WTERMSIG(st);
        return if sig == libc::SIGKILL {
            panic!("the child was killed")
        } else if sig == libc::SIGALRM {
            bad("eight threads that use the library first never finish".into())
        } else {
            bad(format!("eight threads that use the library first: signal {sig}"))
        };
    }
    let code = libc::WEXITSTATUS(st);
    ctx.add("first_uses_that_asked_the_cpu", u64::from(code & 16 != 0));
    match code & !16 {
        0 => Ok(()),
        64 => panic!("threads in the child"),
        1 => bad("one of eight threads that use the library first gets a wrong digest".into()),
        2 | 3 => bad("one of eight threads that use the library first panics".into()),
        70 => bad("one of eight threads that use the library first crashes".into()),
        c => panic!("child's exit code {c}"),
    }
}

/// Independent work in every thread.
fn independent(ctx: &mut Ctx) -> Res {
    let n = threads(ctx);
    let line = Line::new(n);
    let seen = Seen::new();
    let ops = if ctx.small { 2 } else { 40 };
    let seeds: Vec<u64> = (0..n).map(|_| ctx.rng.u64()).collect();
    std::thread::scope(|s| {
        for (t, seed) in seeds.iter().enumerate() {
            let (line, seen) = (&line, &seen);
            s.spawn(move || {
                let mut r = gen::Rng::new(*seed);
                line.wait();
                for _ in 0..ops {
                    let w = r.below(8);
                    operation(&mut r, seen, t, w);
                    jitter(&mut r);
                }
            });
        }
    });
    seen.done(ctx)
}

/// Parameter sets, hashers (to clone and count) and digests shared by reference.
fn shared(ctx: &mut Ctx) -> Res {
    let n = threads(ctx);
    let line = Line::new(n);
    let seen = Seen::new();
    let p = gen::gen_p(&mut ctx.rng, true);
    let p8 = P { key: vec![], ..p.clone() };
    let q: Q = gen::gen_q(&mut ctx.rng);
    let (lp, lp8, lq) = (Force(gen::lib_params(&p)), Force(gen::lib_params(&p8)), Force(gen::sp_params(&q)));
    let l = ctx.len(700);
    let prefix = ctx.data(l);
    let mut st = lp.get().to_state();
    st.update(prefix);
    let digest = Force(b2::blake2s(prefix));
    let want_digest = oracle::blake2s(&P::default(), prefix);
    let st = Force(st);
    let ops = if ctx.small { 2 } else { 20 };
    let seeds: Vec<u64> = (0..n).map(|_| ctx.rng.u64()).collect();
    ctx.tr(|| format!("{n} threads share parameters {}, a hasher and a digest", crate::world::describe(&p)));
    std::thread::scope(|s| {
        for (t, seed) in seeds.iter().enumerate() {
            let (line, seen, p, p8, q) = (&line, &seen, &p, &p8, &q);
            let (lp, lp8, lq, st, digest, want_digest) = (&lp, &lp8, &lq, &st, &digest, &want_digest);
            s.spawn(move || {
                let mut r = gen::Rng::new(*seed);
                line.wait();
                for _ in 0..ops {
                    let l = r.below(if cfg!(miri) { 150 } else { 1500 }) as usize;
                    let d = gen::pool().window(&mut r, l);
                    match r.below(6) {
                        0 => {
                            let h = lp.get().to_state().update(d).finalize();
                            seen.check(t, "shared Params", h.as_bytes(), &oracle::blake2s(p, d));
                        }
                        1 => {
                            let h = lq.get().to_state().update(d).finalize();
                            seen.check(t, "shared blake2sp::Params", h.as_bytes(), &oracle::blake2sp(q.digest, &q.key, d));
                        }
                        2 => {
                            let x = &lp8.get();
                            let hs = b2::hash8(x, x, x, x, x, x, x, x, d, d, d, d, d, d, d, d);
                            seen.check(t, "hash8 with shared Params", hs[t % 8].as_bytes(), &oracle::blake2s(p8, d));
                        }
                        3 => {
                            let mut c = st.get().clone();
                            let h = c.update(d).finalize();
                            let mut m = oracle::S::new(p);
                            m.feed(prefix);
                            m.feed(d);
                            let want = m.finish(p.last_node);
                            seen.check(t, "clone of a shared State", h.as_bytes(), &want[..p.digest]);
                            seen.check(t, "count of a shared State", &st.get().count().to_le_bytes(), &(prefix.len() as u64).to_le_bytes());
                        }
                        4 => {
                            seen.check(t, "shared Hash", digest.get().as_bytes(), want_digest);
                            seen.check(t, "hex of a shared Hash", digest.get().to_hex().as_bytes(), gen::hex(want_digest).as_bytes());
                            let same = *digest.get() == want_digest[..] && digest.get() == digest.get();
                            seen.check(t, "comparison of a shared Hash", &[u8::from(same)], &[1]);
                        }
                        _ => {
                            let mut c = lp.get().clone();
                            let h = c.fanout(7).to_state().update(d).finalize();
                            let p = P { fanout: 7, ..p.clone() };
                            seen.check(t, "clone of shared Params", h.as_bytes(), &oracle::blake2s(&p, d));
                        }
                    }
                    jitter(&mut r);
                }
            });
        }
    });
    seen.done(ctx)
}

/// Hashers passed from thread to thread, each adding its part.
fn handed_over(ctx: &mut Ctx) -> Res {
    let n = threads(ctx);
    let line = Line::new(n);
    let seen = Seen::new();
    type Item = (Force<(b2::State, b2::blake2sp::State)>, P, Q, Vec<u8>);
    let mut items: Vec<Option<Item>> = vec![];
    for _ in 0..n + 2 {
        let p = gen::gen_p(&mut ctx.rng, true);
        let q = gen::gen_q(&mut ctx.rng);
        items.push(Some((Force((gen::lib_params(&p).to_state(), gen::sp_params(&q).to_state())), p, q, vec![])));
    }
    let rooms: Vec<Mutex<Option<Item>>> = items.iter_mut().map(|x| Mutex::new(x.take())).collect();
    let ops = if ctx.small { 3 } else { 30 };
    let seeds: Vec<u64> = (0..n).map(|_| ctx.rng.u64()).collect();
    ctx.tr(|| format!("{n} threads pass {} hashers around", rooms.len()));
    let hops = AtomicU64::new(0);
    std::thread::scope(|s| {
        for (t, seed) in seeds.iter().enumerate() {
            let (line, seen, rooms, hops) = (&line, &seen, &rooms, &hops);
            s.spawn(move || {
                let mut r = gen::Rng::new(*seed);
                line.wait();
                for _ in 0..ops {
                    let i = r.below(rooms.len() as u64) as usize;
                    let taken = rooms[i].lock().unwrap().take();
                    if let Some(mut it) = taken {
                        hops.fetch_add(1, Ordering::Relaxed);
                        let l = r.below(if cfg!(miri) { 100 } else { 900 }) as usize;
                        let d = gen::pool().window(&mut r, l);
                        (it.0).0 .0.update(d);
                        (it.0).0 .1.update(d);
                        it.3.extend_from_slice(d);
                        jitter(&mut r);
                        if r.chance(1, 3) {
                            let h = (it.0).0 .0.finalize();
                            seen.check(t, "handed-over State", h.as_bytes(), &oracle::blake2s(&it.1, &it.3));
                        }
                        // It may go back into a different room.
                        let mut put = Some(it);
                        let mut j = r.below(rooms.len() as u64) as usize;
                        while let Some(it) = put.take() {
                            let mut room = rooms[j].lock().unwrap();
                            if room.is_none() {
                                *room = Some(it);
                            } else {
                                put = Some(it);
                            }
                            j = (j + 1) % rooms.len();
                        }
                    }
                }
            });
        }
    });
    ctx.add("handovers", hops.load(Ordering::Relaxed));
    for room in rooms {
        if let Some(mut it) = room.into_inner().unwrap() {
            let h = (it.0).0 .0.finalize();
            seen.check(99, "State at the end", h.as_bytes(), &oracle::blake2s(&it.1, &it.3));
            let h = (it.0).0 .1.finalize();
            seen.check(99, "blake2sp::State at the end", h.as_bytes(), &oracle::blake2sp(it.2.digest, &it.2.key, &it.3));
            seen.check(99, "count at the end", &(it.0).0 .0.count().to_le_bytes(), &(it.3.len() as u64).to_le_bytes());
        }
    }
    seen.done(ctx)
}

/// More threads than anyone would set places aside for, all of them hashing.
fn crowd(ctx: &mut Ctx) -> Res {
    let n = [300, 140, 1100, 70][ctx.idx as usize % 4];
    ctx.tr(|| format!("{n} threads at once"));
    let seen = Seen::new();
    let (seed, rounds) = (ctx.rng.u64(), ctx.rng.range(3, 8));
    // A gate and not a barrier: where the system does not give that many threads, fewer will do.
    let gate = (std::sync::Mutex::new(false), std::sync::Condvar::new());
    let mut started = 0;
    std::thread::scope(|sc| {
        for t in 0..n {
            let (gate, seen) = (&gate, &seen);
            let go = move || {
                let mut r = gen::Rng::new(gen::mix64(seed ^ t as u64));
                let (p, q) = (gen::gen_p(&mut r, true), gen::gen_q(&mut r));
                let mut s = gen::lib_params(&p).to_state();
                let mut u = gen::sp_params(&q).to_state();
                let mut fed = vec![];
                let mut open = gate.0.lock().unwrap();
                while !*open {
                    open = gate.1.wait(open).unwrap();
                }
                drop(open);
                for _ in 0..rounds {
                    let k = r.below(1500) as usize;
                    let d = gen::pool().window(&mut r, k);
                    s.update(d);
                    u.update(d);
                    fed.extend_from_slice(d);
                    jitter(&mut r);
                    let h = u.finalize();
                    seen.check(t, "blake2sp::State in a crowd", h.as_bytes(), &oracle::blake2sp(q.digest, &q.key, &fed));
                    let h = s.finalize();
                    seen.check(t, "State in a crowd", h.as_bytes(), &oracle::blake2s(&p, &fed));
                    let which = r.below(8);
                    operation(&mut r, seen, t, which);
                }
            };
            if std::thread::Builder::new().stack_size(512 << 10).spawn_scoped(sc, go).is_err() {
                break;
            }
            started += 1;
        }
        *gate.0.lock().unwrap() = true;
        gate.1.notify_all();
    });
    ctx.add("threads_at_once", started);
    seen.done(ctx)
}

pub fn c21() -> Vec<Kind> {
    vec![
        Kind { name: "auto-traits", total: 1, quick: 1, thorough: 1, miri: 1, f: auto_traits },
        Kind { name: "independent", total: 0, quick: 500, thorough: 20_000, miri: 1, f: independent },
        Kind { name: "shared-values", total: 0, quick: 800, thorough: 30_000, miri: 2, f: shared },
        Kind { name: "handed-over", total: 0, quick: 800, thorough: 30_000, miri: 1, f: handed_over },
        Kind { name: "crowd", total: 0, quick: 20, thorough: 400, miri: 0, f: crowd },
    ]
}

/// One process per seed.
pub fn c21_first() -> Vec<Kind> {
    vec![
        Kind { name: "first-use", total: 0, quick: 1, thorough: 1, miri: 1, f: first_use },
        #[cfg(all(target_os = "linux", not(miri), not(vh_san)))]
        Kind { name: "first-use-forked", total: 0, quick: 1000, thorough: 20_000, miri: 0, f: first_use_forked },
    ]
}
