//! Random API histories over a population of hashers, each shadowed by the specification.

use crate::gen::{self, Q};
use crate::run::{bad, Ctx, Res};
use blake2s_simd as b2;
use oracle::P;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    New,
    NewParams,
    MutParams,
    CloneParams,
    Update,
    Write,
    Finalize,
    Clone,
    CloneFrom,
    Count,
    LastNode,
    Update8,
    Finalize8,
    SpNew,
    SpUpdate,
    SpWrite,
    SpFinalize,
    SpCount,
    Debug,
    Drop,
    Move,
    ForcePortable,
    OneShot,
    Hash8,
    Exact4,
    Exact8,
    /// A call that must be refused; everything else stays as it was.
    Refused,
}

pub struct Mix {
    pub ops: &'static [(Op, u32)],
    pub slots: usize,
    pub sp_slots: usize,
    pub keyed: bool,
    /// Largest single input.
    pub max_len: u64,
}

pub struct Model {
    pub p: P,
    pub o: oracle::S,
    pub last: bool,
    pub count: u64,
    pub id: u32,
}

pub struct Slot {
    pub s: b2::State,
    pub m: Model,
}

pub struct SpSlot {
    pub s: b2::blake2sp::State,
    pub o: oracle::Sp,
    pub q: Q,
    pub count: u64,
    pub id: u32,
}

pub struct World {
    pub slots: Vec<Slot>,
    pub sps: Vec<SpSlot>,
    pub params: Vec<(b2::Params, P)>,
    pub sp_params: Vec<(b2::blake2sp::Params, Q)>,
    next_id: u32,
    total: u32,
    mix: &'static Mix,
}

impl Model {
    pub fn new(p: P, id: u32) -> Model {
        Model { o: oracle::S::new(&p), last: p.last_node, count: 0, id, p }
    }
    pub fn feed(&mut self, oracle: bool, d: &[u8]) {
        if oracle {
            self.o.feed(d);
        }
        self.count += d.len() as u64;
    }
    pub fn digest(&self) -> Vec<u8> {
        self.o.finish(self.last)[..self.p.digest].to_vec()
    }
    fn fork(&self, id: u32) -> Model {
        Model { p: self.p.clone(), o: self.o.clone(), last: self.last, count: self.count, id }
    }
}

pub fn describe(p: &P) -> String {
    let d = P::default();
    let mut s = vec![];
    if p.digest != d.digest {
        s.push(format!("hash_length={}", p.digest));
    }
    if !p.key.is_empty() {
        s.push(format!("key={}", gen::hex(&p.key)));
    }
    if p.salt != d.salt {
        s.push(format!("salt={}", gen::hex(&p.salt)));
    }
    if p.personal != d.personal {
        s.push(format!("personal={}", gen::hex(&p.personal)));
    }
    if (p.fanout, p.depth, p.leaf, p.offset, p.node_depth, p.inner) != (d.fanout, d.depth, d.leaf, d.offset, d.node_depth, d.inner) {
        s.push(format!(
            "fanout={} max_depth={} max_leaf_length={} node_offset={} node_depth={} inner_hash_length={}",
            p.fanout, p.depth, p.leaf, p.offset, p.node_depth, p.inner
        ));
    }
    if p.last_node {
        s.push("last_node".into());
    }
    if s.is_empty() {
        "default".into()
    } else {
        s.join(",")
    }
}

#[cfg(feature = "std")]
fn io_write<W: std::io::Write>(w: &mut W, d: &[u8]) -> Result<usize, String> {
    w.write(d).map_err(|e| e.to_string())
}

#[cfg(feature = "std")]
fn io_write_all<W: std::io::Write>(w: &mut W, d: &[u8]) -> Result<(), String> {
    w.write_all(d).and_then(|()| w.flush()).map_err(|e| e.to_string())
}

impl World {
    pub fn new(mix: &'static Mix) -> World {
        World {
            slots: Vec::new(),
            sps: Vec::new(),
            params: Vec::new(),
            sp_params: Vec::new(),
            next_id: 0,
            total: mix.ops.iter().map(|x| x.1).sum(),
            mix,
        }
    }

    fn id(&mut self) -> u32 {
        self.next_id += 1;
        self.next_id
    }

    pub fn add_state(&mut self, ctx: &mut Ctx) -> usize {
        let id = self.id();
        let p = gen::gen_p(&mut ctx.rng, self.mix.keyed);
        ctx.tr(|| format!("state#{id} = new({})", describe(&p)));
        let s = if p == P::default() {
            if ctx.rng.chance(1, 2) {
                b2::State::new()
            } else {
                b2::State::default()
            }
        } else {
            gen::lib_params(&p).to_state()
        };
        ctx.add("hashers", 1);
        let slot = Slot { s, m: Model::new(p, id) };
        if self.slots.len() < self.mix.slots {
            self.slots.push(slot);
            self.slots.len() - 1
        } else {
            let i = ctx.rng.below(self.slots.len() as u64) as usize;
            self.slots[i] = slot;
            i
        }
    }

    fn add_sp(&mut self, ctx: &mut Ctx) {
        let id = self.id();
        let mut q = gen::gen_q(&mut ctx.rng);
        ctx.tr(|| format!("sp#{id} = new(hash_length={}, key={})", q.digest, gen::hex(&q.key)));
        let s = if q.digest == 32 && q.key.is_empty() && ctx.rng.chance(1, 2) {
            if ctx.rng.chance(1, 2) {
                b2::blake2sp::State::new()
            } else {
                b2::blake2sp::State::default()
            }
        } else {
            // Of parameters used before, changed or not, or of new ones.
            let i = ctx.rng.below(3) as usize;
            if i < self.sp_params.len() {
                let (b, was) = &mut self.sp_params[i];
                if ctx.rng.chance(1, 2) {
                    q = was.clone();
                } else {
                    if was.key != q.key {
                        b.key(&q.key);
                    }
                    if was.digest != q.digest {
                        b.hash_length(q.digest);
                    }
                    *was = q.clone();
                }
                ctx.tr(|| format!("  (by parameters used before: hash_length={}, key={})", q.digest, gen::hex(&q.key)));
                b.to_state()
            } else {
                let b = gen::sp_params(&q);
                let s = b.to_state();
                self.sp_params.push((b, q.clone()));
                s
            }
        };
        ctx.add("sp_hashers", 1);
        let slot = SpSlot { s, o: oracle::Sp::new(q.digest, &q.key), q, count: 0, id };
        if self.sps.len() < self.mix.sp_slots {
            self.sps.push(slot);
        } else {
            let i = ctx.rng.below(self.sps.len() as u64) as usize;
            self.sps[i] = slot;
        }
    }

    fn some(&mut self, ctx: &mut Ctx) -> usize {
        if self.slots.is_empty() {
            self.add_state(ctx)
        } else {
            ctx.rng.below(self.slots.len() as u64) as usize
        }
    }

    fn some_sp(&mut self, ctx: &mut Ctx) -> usize {
        if self.sps.is_empty() {
            self.add_sp(ctx);
        }
        ctx.rng.below(self.sps.len() as u64) as usize
    }

    fn input(&mut self, ctx: &mut Ctx) -> &'static [u8] {
        let n = ctx.len(self.mix.max_len);
        ctx.add("bytes_fed", n as u64);
        ctx.data(n)
    }

    fn check(ctx: &mut Ctx, slot: &mut Slot) -> Res {
        let h = slot.s.finalize();
        let m = &slot.m;
        ctx.hash_eq(&format!("finalize of state#{} after {} bytes", m.id, m.count), &h, || m.digest())
    }

    fn check_sp(ctx: &mut Ctx, slot: &mut SpSlot) -> Res {
        let h = slot.s.finalize();
        let o = &slot.o;
        ctx.hash_eq(&format!("finalize of sp#{} after {} bytes", slot.id, slot.count), &h, || o.finish())
    }

    /// The first eight slots after a random rotation, filled up if there are fewer.
    fn eight(&mut self, ctx: &mut Ctx) {
        while self.slots.len() < 8 {
            let n = self.slots.len();
            let id = self.id();
            let p = gen::gen_p(&mut ctx.rng, self.mix.keyed);
            ctx.tr(|| format!("state#{id} = new({})", describe(&p)));
            self.slots.push(Slot { s: gen::lib_params(&p).to_state(), m: Model::new(p, id) });
            debug_assert!(self.slots.len() == n + 1);
        }
        let n = self.slots.len();
        for i in 0..8 {
            let j = i + ctx.rng.below((n - i) as u64) as usize;
            self.slots.swap(i, j);
        }
    }

    /// Eight input lengths: equal, nearly equal, or unrelated.
    pub fn eight_lens(ctx: &mut Ctx, max: u64) -> [usize; 8] {
        let mut l = [0usize; 8];
        let base = ctx.len(max);
        match ctx.rng.below(4) {
            0 => l = [base; 8],
            1 => {
                l = [base; 8];
                let i = ctx.rng.below(8) as usize;
                l[i] = ctx.len(max);
            }
            2 => {
                for x in &mut l {
                    *x = (base + ctx.rng.below(130) as usize).min(max as usize);
                }
            }
            _ => {
                for x in &mut l {
                    *x = ctx.len(max);
                }
            }
        }
        l
    }

    pub fn step(&mut self, ctx: &mut Ctx) -> Res {
        let mut w = ctx.rng.below(u64::from(self.total)) as u32;
        let mut op = self.mix.ops[0].0;
        for &(o, k) in self.mix.ops {
            if w < k {
                op = o;
                break;
            }
            w -= k;
        }
        self.apply(ctx, op)
    }

    pub fn apply(&mut self, ctx: &mut Ctx, op: Op) -> Res {
        ctx.add("operations", 1);
        match op {
            Op::New => {
                self.add_state(ctx);
            }
            Op::NewParams => {
                if self.params.is_empty() {
                    self.mut_params(ctx);
                }
                let i = ctx.rng.below(self.params.len() as u64) as usize;
                let id = self.id();
                let (s, p) = (self.params[i].0.to_state(), self.params[i].1.clone());
                ctx.tr(|| format!("state#{id} = params[{i}].to_state()  ({})", describe(&p)));
                let slot = Slot { s, m: Model::new(p, id) };
                if self.slots.len() < self.mix.slots {
                    self.slots.push(slot);
                } else {
                    let i = ctx.rng.below(self.slots.len() as u64) as usize;
                    self.slots[i] = slot;
                }
            }
            Op::MutParams => self.mut_params(ctx),
            Op::CloneParams => {
                if !self.params.is_empty() {
                    let i = ctx.rng.below(self.params.len() as u64) as usize;
                    let c = (self.params[i].0.clone(), self.params[i].1.clone());
                    ctx.tr(|| format!("clone params[{i}]"));
                    if self.params.len() < 4 {
                        self.params.push(c);
                    } else {
                        let j = ctx.rng.below(4) as usize;
                        if ctx.rng.chance(1, 2) {
                            self.params[j].0.clone_from(&c.0);
                            self.params[j].1 = c.1;
                        } else {
                            self.params[j] = c;
                        }
                    }
                }
            }
            Op::Update => {
                let i = self.some(ctx);
                let d = self.input(ctx);
                let slot = &mut self.slots[i];
                ctx.tr(|| format!("state#{}.update({} bytes)", slot.m.id, d.len()));
                slot.s.update(d);
                slot.m.feed(ctx.oracle, d);
            }
            Op::Write => {
                #[cfg(feature = "std")]
                {
                    let i = self.some(ctx);
                    let d = self.input(ctx);
                    let slot = &mut self.slots[i];
                    ctx.tr(|| format!("state#{}.write({} bytes)", slot.m.id, d.len()));
                    if ctx.rng.chance(1, 2) {
                        match io_write(&mut slot.s, d) {
                            Ok(n) if n == d.len() => {}
                            r if ctx.oracle => return bad(format!("write of {} bytes returned {:?}", d.len(), r)),
                            _ => {}
                        }
                    } else if let Err(e) = io_write_all(&mut slot.s, d) {
                        if ctx.oracle {
                            return bad(format!("write_all or flush of {} bytes failed: {e}", d.len()));
                        }
                    }
                    slot.m.feed(ctx.oracle, d);
                }
            }
            Op::Finalize => {
                let i = self.some(ctx);
                ctx.tr(|| "finalize".to_string());
                World::check(ctx, &mut self.slots[i])?;
                if ctx.rng.chance(1, 4) {
                    World::check(ctx, &mut self.slots[i])?;
                }
            }
            Op::Clone => {
                let i = self.some(ctx);
                let id = self.id();
                let m = self.slots[i].m.fork(id);
                ctx.tr(|| format!("state#{id} = clone of state#{}", self.slots[i].m.id));
                let slot = Slot { s: self.slots[i].s.clone(), m };
                if self.slots.len() < self.mix.slots {
                    self.slots.push(slot);
                } else {
                    let j = ctx.rng.below(self.slots.len() as u64) as usize;
                    self.slots[j] = slot;
                }
            }
            Op::CloneFrom => {
                if self.slots.len() >= 2 {
                    let i = ctx.rng.below(self.slots.len() as u64) as usize;
                    let j = (i + 1 + ctx.rng.below(self.slots.len() as u64 - 1) as usize) % self.slots.len();
                    let id = self.id();
                    let m = self.slots[i].m.fork(id);
                    ctx.tr(|| format!("state#{}.clone_from(state#{}), now state#{id}", self.slots[j].m.id, self.slots[i].m.id));
                    let src = self.slots[i].s.clone();
                    self.slots[j].s.clone_from(&src);
                    self.slots[j].m = m;
                }
            }
            Op::Count => {
                let i = self.some(ctx);
                let c = self.slots[i].s.count();
                let m = &self.slots[i].m;
                ctx.count_eq(&format!("count of state#{}", m.id), c, m.count)?;
            }
            Op::LastNode => {
                let i = self.some(ctx);
                let v = ctx.rng.chance(1, 2);
                let slot = &mut self.slots[i];
                ctx.tr(|| format!("state#{}.set_last_node({v})", slot.m.id));
                slot.s.set_last_node(v);
                slot.m.last = v;
            }
            Op::Update8 => {
                self.eight(ctx);
                let lens = World::eight_lens(ctx, self.mix.max_len);
                let mut d: Vec<&'static [u8]> = lens.iter().map(|&n| ctx.data(n)).collect();
                if !ctx.guard && ctx.rng.chance(1, 6) {
                    gen::alias(&mut ctx.rng, &mut d);
                }
                ctx.add("bytes_fed", lens.iter().map(|&x| x as u64).sum());
                ctx.tr(|| {
                    let ids: Vec<u32> = self.slots[..8].iter().map(|s| s.m.id).collect();
                    format!("update8(states {ids:?}, lengths {lens:?})")
                });
                if let [a, b, c, e, f, g, h, i, ..] = &mut self.slots[..] {
                    b2::update8(
                        &mut a.s, &mut b.s, &mut c.s, &mut e.s, &mut f.s, &mut g.s, &mut h.s, &mut i.s, d[0], d[1], d[2], d[3],
                        d[4], d[5], d[6], d[7],
                    );
                }
                for (slot, d) in self.slots.iter_mut().zip(&d) {
                    slot.m.feed(ctx.oracle, d);
                }
            }
            Op::Finalize8 => {
                self.eight(ctx);
                let reps = if ctx.rng.chance(1, 4) { 2 } else { 1 };
                for _ in 0..reps {
                    let hs = if let [a, b, c, e, f, g, h, i, ..] = &mut self.slots[..] {
                        b2::finalize8(&mut a.s, &mut b.s, &mut c.s, &mut e.s, &mut f.s, &mut g.s, &mut h.s, &mut i.s)
                    } else {
                        unreachable!()
                    };
                    for (k, h) in hs.iter().enumerate() {
                        let m = &self.slots[k].m;
                        ctx.hash_eq(&format!("finalize8, lane {k} (state#{} after {} bytes)", m.id, m.count), h, || m.digest())?;
                    }
                }
            }
            Op::SpNew => self.add_sp(ctx),
            Op::SpUpdate => {
                let i = self.some_sp(ctx);
                let d = self.input(ctx);
                let slot = &mut self.sps[i];
                ctx.tr(|| format!("sp#{}.update({} bytes)", slot.id, d.len()));
                slot.s.update(d);
                if ctx.oracle {
                    slot.o.feed(d);
                }
                slot.count += d.len() as u64;
            }
            Op::SpWrite => {
                #[cfg(feature = "std")]
                {
                    let i = self.some_sp(ctx);
                    let d = self.input(ctx);
                    let slot = &mut self.sps[i];
                    ctx.tr(|| format!("sp#{}.write({} bytes)", slot.id, d.len()));
                    if ctx.rng.chance(1, 2) {
                        match io_write(&mut slot.s, d) {
                            Ok(n) if n == d.len() => {}
                            r if ctx.oracle => return bad(format!("write of {} bytes returned {:?}", d.len(), r)),
                            _ => {}
                        }
                    } else if let Err(e) = io_write_all(&mut slot.s, d) {
                        if ctx.oracle {
                            return bad(format!("write_all or flush of {} bytes failed: {e}", d.len()));
                        }
                    }
                    if ctx.oracle {
                        slot.o.feed(d);
                    }
                    slot.count += d.len() as u64;
                }
            }
            Op::SpFinalize => {
                let i = self.some_sp(ctx);
                World::check_sp(ctx, &mut self.sps[i])?;
                if ctx.rng.chance(1, 4) {
                    World::check_sp(ctx, &mut self.sps[i])?;
                }
            }
            Op::SpCount => {
                let i = self.some_sp(ctx);
                let c = self.sps[i].s.count();
                let want = self.sps[i].count;
                ctx.count_eq(&format!("count of sp#{}", self.sps[i].id), c, want)?;
            }
            Op::Debug => {
                let mut n = 0;
                if !self.slots.is_empty() {
                    let i = self.some(ctx);
                    n += format!("{:?}{:#?}", self.slots[i].s, self.slots[i].s).len();
                }
                if !self.sps.is_empty() {
                    let i = self.some_sp(ctx);
                    n += format!("{:?}{:?}", self.sps[i].s, gen::sp_params(&self.sps[i].q)).len();
                }
                ctx.add("debug_bytes", n as u64);
            }
            Op::Drop => {
                if ctx.rng.chance(1, 2) && !self.slots.is_empty() {
                    let i = self.some(ctx);
                    let s = self.slots.swap_remove(i);
                    ctx.tr(|| format!("drop state#{}", s.m.id));
                } else if !self.sps.is_empty() {
                    let i = self.some_sp(ctx);
                    let s = self.sps.swap_remove(i);
                    ctx.tr(|| format!("drop sp#{}", s.id));
                }
            }
            Op::Move => {
                // New addresses: through a box, the stack, and a reallocated vector.
                if !self.slots.is_empty() {
                    let i = self.some(ctx);
                    let b = Box::new(self.slots.swap_remove(i));
                    let v = *b;
                    ctx.tr(|| format!("move state#{}", v.m.id));
                    let at = ctx.rng.below(self.slots.len() as u64 + 1) as usize;
                    self.slots.insert(at, v);
                    self.slots.shrink_to_fit();
                }
                if !self.sps.is_empty() {
                    let i = self.some_sp(ctx);
                    let b = Box::new(self.sps.swap_remove(i));
                    self.sps.insert(0, *b);
                    self.sps.shrink_to_fit();
                }
            }
            Op::ForcePortable => {
                #[cfg(feature = "kernels")]
                {
                    if ctx.rng.chance(1, 2) && !self.slots.is_empty() {
                        let i = self.some(ctx);
                        ctx.tr(|| format!("force_portable(state#{})", self.slots[i].m.id));
                        b2::benchmarks::force_portable(&mut self.slots[i].s);
                    } else if !self.sps.is_empty() {
                        let i = self.some_sp(ctx);
                        ctx.tr(|| format!("force_portable_blake2sp(sp#{})", self.sps[i].id));
                        b2::benchmarks::force_portable_blake2sp(&mut self.sps[i].s);
                    }
                }
            }
            Op::OneShot => {
                let d = self.input(ctx);
                ctx.tr(|| format!("one-shot hashes of {} bytes", d.len()));
                let h = b2::blake2s(d);
                ctx.hash_eq("blake2s", &h, || oracle::blake2s(&P::default(), d))?;
                let h = b2::blake2sp::blake2sp(d);
                ctx.hash_eq("blake2sp", &h, || oracle::blake2sp(32, &[], d))?;
            }
            Op::Refused => match ctx.rng.below(5) {
                0 | 1 if !self.params.is_empty() => {
                    let i = ctx.rng.below(self.params.len() as u64) as usize;
                    ctx.tr(|| format!("refused setter on params[{i}]"));
                    if crate::props::params::refused_setter(ctx, &mut self.params[i].0).1 {
                        // Wrongly accepted, which is not for this history to judge.
                        self.params.remove(i);
                    }
                }
                0..=2 => crate::props::params::refused_sp_setter(ctx)?,
                3 => crate::props::multi::refused_exact(ctx),
                _ => crate::props::multi::refused_hash8(ctx),
            },
            Op::Hash8 => crate::props::multi::hash8_random(ctx, self.mix.max_len)?,
            Op::Exact4 => crate::props::multi::exact_random(ctx, 4, self.mix.max_len, self.mix.keyed)?,
            Op::Exact8 => crate::props::multi::exact_random(ctx, 8, self.mix.max_len, self.mix.keyed)?,
        }
        Ok(())
    }

    /// Change one random field (or several) of one random parameter set.
    fn mut_params(&mut self, ctx: &mut Ctx) {
        if self.params.is_empty() || (self.params.len() < 4 && ctx.rng.chance(1, 4)) {
            self.params.push((b2::Params::new(), P::default()));
        }
        let i = ctx.rng.below(self.params.len() as u64) as usize;
        let n = ctx.rng.range(1, 3);
        for _ in 0..n {
            let (q, p) = &mut self.params[i];
            crate::props::params::set_random_field(ctx, q, p, self.mix.keyed);
        }
        ctx.tr(|| format!("params[{i}] now {}", describe(&self.params[i].1)));
    }

    /// Digests and counts of everything alive.
    pub fn settle(&mut self, ctx: &mut Ctx, counts: bool) -> Res {
        for slot in &mut self.slots {
            if counts {
                ctx.count_eq(&format!("final count of state#{}", slot.m.id), slot.s.count(), slot.m.count)?;
            }
            World::check(ctx, slot)?;
        }
        for slot in &mut self.sps {
            if counts {
                ctx.count_eq(&format!("final count of sp#{}", slot.id), slot.s.count(), slot.count)?;
            }
            World::check_sp(ctx, slot)?;
        }
        Ok(())
    }
}

pub fn history(ctx: &mut Ctx, mix: &'static Mix, steps: u64, counts: bool) -> Res {
    let n = ctx.rng.range(steps / 4 + 1, steps);
    let mut w = World::new(mix);
    for _ in 0..n {
        if ctx.rng.exhausted() {
            break;
        }
        w.step(ctx)?;
    }
    w.settle(ctx, counts)?;
    if ctx.nobs == 0 {
        ctx.trivial = true;
    }
    let o = ctx.obs;
    ctx.sig = gen::mix64(ctx.sig ^ o);
    Ok(())
}
