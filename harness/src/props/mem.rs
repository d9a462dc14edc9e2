//! C13: inputs and objects placed where any stray access is noticed.
//!
//! The workloads of the other properties run here with every input flush against an unmapped page
//! (either side), at odd offsets, or in a heap block of exactly its size, without looking at the
//! digests: crashes, sanitizer reports and interpreter errors are the oracle.

use crate::gen;
use crate::props::{hist, multi, params, value};
use crate::run::{Ctx, Kind, Res};
use blake2s_simd as b2;
use std::cell::RefCell;

/// Slices handed out stay valid for this many further ones.
const RING: usize = 40;

#[cfg(all(target_os = "linux", not(miri)))]
mod place {
    use crate::run::Ctx;
    use crate::sys::Guarded;

    pub struct Ring {
        guarded: Vec<Guarded>,
        heap: Vec<Vec<u8>>,
        next: usize,
    }

    impl Ring {
        pub fn new() -> Ring {
            Ring { guarded: vec![], heap: vec![], next: 0 }
        }

        pub fn put(&mut self, ctx: &mut Ctx, d: &[u8]) -> &'static [u8] {
            if self.guarded.is_empty() {
                for _ in 0..super::RING {
                    self.guarded.push(Guarded::new(20));
                    self.heap.push(vec![]);
                }
            }
            let i = self.next;
            self.next = (i + 1) % super::RING;
            let g = &mut self.guarded[i];
            let how = ctx.rng.below(8);
            if how == 7 || d.len() > g.cap() {
                ctx.add("inputs_in_exact_heap_blocks", 1);
                self.heap[i] = d.to_vec().into_boxed_slice().into_vec();
                let v = &self.heap[i];
                // The block lives until the ring comes round.
                return unsafe { std::slice::from_raw_parts(v.as_ptr(), v.len()) };
            }
            match how {
                0..=3 => {
                    ctx.add("inputs_ending_at_unmapped_page", 1);
                    g.at_end(d)
                }
                4 | 5 => {
                    ctx.add("inputs_starting_at_unmapped_page", 1);
                    g.at_start(d)
                }
                _ => {
                    ctx.add("inputs_at_odd_offsets", 1);
                    let room = (g.cap() - d.len()).min(257) as u64;
                    let off = ctx.rng.below(room + 1) as usize;
                    g.at(off, d)
                }
            }
        }
    }
}

#[cfg(not(all(target_os = "linux", not(miri))))]
mod place {
    use crate::run::Ctx;

    /// Under an interpreter a block of exactly the right size is as good as a guard page.
    pub struct Ring {
        heap: Vec<(*mut u8, usize)>,
        next: usize,
    }

    impl Ring {
        pub fn new() -> Ring {
            Ring { heap: vec![], next: 0 }
        }

        fn free(&mut self, i: usize) {
            let (p, n) = self.heap[i];
            if !p.is_null() {
                unsafe { drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n))) };
            }
            self.heap[i] = (std::ptr::null_mut(), 0);
        }

        pub fn put(&mut self, ctx: &mut Ctx, d: &[u8]) -> &'static [u8] {
            if self.heap.is_empty() {
                self.heap = vec![(std::ptr::null_mut(), 0); super::RING];
            }
            let i = self.next;
            self.next = (i + 1) % super::RING;
            self.free(i);
            ctx.add("inputs_in_exact_heap_blocks", 1);
            let b: Box<[u8]> = d.into();
            let n = b.len();
            let p = Box::into_raw(b) as *mut u8;
            self.heap[i] = (p, n);
            unsafe { std::slice::from_raw_parts(p, n) }
        }
    }

    impl Drop for Ring {
        fn drop(&mut self) {
            for i in 0..self.heap.len() {
                self.free(i);
            }
        }
    }
}

thread_local! {
    static RINGS: RefCell<place::Ring> = RefCell::new(place::Ring::new());
}

pub fn placed(ctx: &mut Ctx, d: &[u8]) -> &'static [u8] {
    RINGS.with(|r| r.borrow_mut().put(ctx, d))
}

/// Runs the workload of another property with placed inputs and without its oracle.
macro_rules! guarded {
    ($($name:ident = $f:path;)*) => {
        $(fn $name(ctx: &mut Ctx) -> Res {
            ctx.guard = true;
            ctx.oracle = false;
            // Whether a call should be refused or what it returns is not at stake here.
            let _ = $f(ctx);
            Ok(())
        })*
    };
}

guarded! {
    g_two_chunks = hist::grid2;
    g_sp_edges = hist::sp_grid3;
    g_sp_grid = hist::sp_grid2;
    g_history = hist::c22_any;
    g_update8 = multi::grid7;
    g_finalize8 = multi::fin_grid;
    g_hash8 = multi::hash8_one_off;
    g_hash8_edges = multi::hash8_mixed;
    g_exact = multi::exact_lens;
    g_refused = multi::exact_any_lens;
    g_refused_one = multi::refuse_one;
    g_params = params::mixed;
    g_params_slices = params::slices;
    g_values = value::c18_random;
    g_clones = hist::clones;
    g_reuse = hist::reuse;
}

#[cfg(feature = "std")]
guarded! {
    g_io = crate::props::io::adaptors;
}

/// Every length, one-shot, at both unmapped pages.
fn one_shot(ctx: &mut Ctx) -> Res {
    ctx.guard = true;
    ctx.oracle = false;
    let n = ctx.cap(ctx.idx as usize, 300);
    let d = ctx.data(n);
    ctx.tr(|| format!("one-shot hashes of {n} bytes at {:p}", d.as_ptr()));
    let h = b2::blake2s(d);
    ctx.observe(h.as_bytes());
    let n = ctx.cap(ctx.idx as usize, 1100);
    let d = ctx.data(n);
    let h = b2::blake2sp::blake2sp(d);
    ctx.observe(h.as_bytes());
    let p = gen::gen_p(&mut ctx.rng, true);
    let q = gen::gen_q(&mut ctx.rng);
    let n = ctx.cap(ctx.idx as usize, 140);
    let d = ctx.data(n);
    let h = gen::lib_params(&p).to_state().update(d).finalize();
    ctx.observe(h.as_bytes());
    let h = gen::sp_params(&q).to_state().update(d).finalize();
    ctx.observe(h.as_bytes());
    Ok(())
}

/// Hashers, parameter sets and digests themselves placed against unmapped pages or in heap blocks
/// of exactly their size.
fn objects(ctx: &mut Ctx) -> Res {
    ctx.guard = true;
    ctx.oracle = false;
    let p = gen::gen_p(&mut ctx.rng, true);
    let q = gen::gen_q(&mut ctx.rng);
    let s = gen::lib_params(&p).to_state();
    let sp = gen::sp_params(&q).to_state();
    let lp = gen::lib_params(&oracle::P { key: vec![], ..p.clone() });
    let eight: [b2::State; 8] = std::array::from_fn(|_| gen::lib_params(&p).to_state());
    ctx.add("placed_objects", 4);
    #[cfg(all(target_os = "linux", not(miri)))]
    {
        thread_local! {
            static SPOTS: RefCell<Vec<crate::sys::Guarded>> = const { RefCell::new(vec![]) };
        }
        let end = ctx.rng.chance(1, 2);
        SPOTS.with(|spots| {
            let mut spots = spots.borrow_mut();
            while spots.len() < 4 {
                spots.push(crate::sys::Guarded::new(2));
            }
            if let [a, b, c, d] = &mut spots[..] {
                let (s, sp, lp, e) = (a.place(s, end), b.place(sp, end), c.place(lp, end), d.place(eight, end));
                use_objects(ctx, s, sp, lp, e);
            }
        });
    }
    #[cfg(not(all(target_os = "linux", not(miri))))]
    {
        let (mut s, mut sp, mut lp, mut e) = (Box::new(s), Box::new(sp), Box::new(lp), Box::new(eight));
        use_objects(ctx, &mut s, &mut sp, &mut lp, &mut e);
    }
    Ok(())
}

fn use_objects(ctx: &mut Ctx, s: &mut b2::State, sp: &mut b2::blake2sp::State, lp: &mut b2::Params, e: &mut [b2::State; 8]) {
    let n = if ctx.small { 3 } else { 10 };
    for _ in 0..n {
        let l = ctx.len(2500);
        let d = ctx.data(l);
        match ctx.rng.below(7) {
            0 => {
                s.update(d);
            }
            1 => {
                let h = s.finalize();
                ctx.observe(h.as_bytes());
            }
            2 => {
                sp.update(d);
            }
            3 => {
                let h = sp.finalize();
                ctx.observe(h.as_bytes());
            }
            4 => {
                let [a, b, c, d2, e2, f, g, h] = e;
                b2::update8(a, b, c, d2, e2, f, g, h, d, d, d, d, d, d, d, d);
            }
            5 => {
                let [a, b, c, d2, e2, f, g, h] = e;
                let hs = b2::finalize8(a, b, c, d2, e2, f, g, h);
                ctx.observe(hs[7].as_bytes());
            }
            _ => {
                let x = &d[..l / 64 * 64];
                let hs = b2::hash8(lp, lp, lp, lp, lp, lp, lp, lp, d, d, d, d, d, d, d, d);
                ctx.observe(hs[3].as_bytes());
                if !x.is_empty() {
                    let hs = b2::hash4_exact(lp, x, x, x, x);
                    ctx.observe(hs[1].as_bytes());
                    let hs = b2::hash8_exact(lp, x, x, x, x, x, x, x, x);
                    ctx.observe(hs[1].as_bytes());
                }
            }
        }
    }
}

/// The same object at every multiple of its alignment within a cache line pair.
fn object_alignments(ctx: &mut Ctx) -> Res {
    ctx.guard = true;
    ctx.oracle = false;
    #[repr(C, align(128))]
    struct Room([u8; 4096]);
    let mut room = Box::new(Room([0xa5; 4096]));
    let align = std::mem::align_of::<b2::State>();
    let p = gen::gen_p(&mut ctx.rng, true);
    let off = (ctx.idx as usize % (128 / align)) * align;
    let l = ctx.len(900);
    let d = ctx.data(l);
    unsafe {
        let at = room.0.as_mut_ptr().add(off) as *mut b2::State;
        at.write(gen::lib_params(&p).to_state());
        let s = &mut *at;
        s.update(d);
        let h = s.finalize();
        ctx.observe(h.as_bytes());
        let c = s.clone().update(d).finalize();
        ctx.observe(c.as_bytes());
        at.drop_in_place();
    }
    let align = std::mem::align_of::<b2::blake2sp::State>();
    let off = (ctx.idx as usize % (128 / align)) * align;
    unsafe {
        let at = room.0.as_mut_ptr().add(off) as *mut b2::blake2sp::State;
        if off + std::mem::size_of::<b2::blake2sp::State>() <= 4096 {
            at.write(b2::blake2sp::State::new());
            let s = &mut *at;
            s.update(d);
            let h = s.finalize();
            ctx.observe(h.as_bytes());
            at.drop_in_place();
        }
    }
    ctx.add("object_alignments", 2);
    Ok(())
}

/// Digests, hex strings and comparisons with slices of any length in exact blocks.
fn digests(ctx: &mut Ctx) -> Res {
    ctx.guard = true;
    ctx.oracle = false;
    let n = (ctx.idx % 32) as usize + 1;
    let m = (ctx.idx / 32) as usize;
    let d = ctx.data(m);
    let h = b2::Params::new().hash_length(n).to_state().update(d).finalize();
    let boxed = Box::new(h);
    let eq = *boxed == d[..];
    ctx.observe(&[u8::from(eq)]);
    let own = placed(ctx, boxed.as_bytes());
    let eq = *boxed == own[..];
    ctx.observe(&[u8::from(eq)]);
    let hex = boxed.to_hex();
    ctx.observe(hex.as_bytes());
    let text = format!("{:?}", boxed);
    ctx.observe(text.as_bytes());
    ctx.observe(AsRef::<[u8]>::as_ref(&*boxed));
    Ok(())
}

pub fn c13() -> Vec<Kind> {
    vec![
        Kind { name: "one-shot-lengths", total: 2600, quick: 2600, thorough: 2600, miri: 24, f: one_shot },
        Kind { name: "two-chunks", total: 200 * 330, quick: 30_000, thorough: 200 * 330, miri: 20, f: g_two_chunks },
        Kind { name: "sp-chunk-edges", total: 42 * 42 * 42, quick: 20_000, thorough: 42 * 42 * 42, miri: 10, f: g_sp_edges },
        Kind { name: "sp-two-chunks", total: 1100 * 2200, quick: 20_000, thorough: 600_000, miri: 8, f: g_sp_grid },
        Kind { name: "update8", total: 330 * 8 * 12, quick: 330 * 8 * 2, thorough: 330 * 8 * 12, miri: 8, f: g_update8 },
        Kind { name: "finalize8", total: 200 * 50, quick: 3_000, thorough: 200 * 50, miri: 4, f: g_finalize8 },
        Kind { name: "hash8", total: 8 * 330 * 8, quick: 8 * 330 * 2, thorough: 8 * 330 * 8, miri: 8, f: g_hash8 },
        Kind { name: "hash8-edges", total: 0, quick: 6_000, thorough: 200_000, miri: 8, f: g_hash8_edges },
        Kind { name: "exact", total: 2 * 150 * 20, quick: 6_000, thorough: 6_000, miri: 12, f: g_exact },
        Kind { name: "exact-refused", total: 0, quick: 8_000, thorough: 200_000, miri: 12, f: g_refused },
        Kind { name: "exact-one-length-differs", total: 169 * 12, quick: 169 * 12, thorough: 169 * 12, miri: 24, f: g_refused_one },
        Kind { name: "setter-slices", total: 4 * 1500, quick: 6_000, thorough: 6_000, miri: 20, f: g_params_slices },
        Kind { name: "setters", total: 0, quick: 5_000, thorough: 100_000, miri: 10, f: g_params },
        Kind { name: "digest-values", total: 0, quick: 5_000, thorough: 100_000, miri: 10, f: g_values },
        Kind { name: "digest-comparisons", total: 32 * 80, quick: 32 * 80, thorough: 32 * 80, miri: 20, f: digests },
        Kind { name: "placed-objects", total: 0, quick: 8_000, thorough: 300_000, miri: 10, f: objects },
        Kind { name: "object-alignments", total: 128, quick: 128, thorough: 128, miri: 16, f: object_alignments },
        Kind { name: "clones", total: 0, quick: 2_000, thorough: 100_000, miri: 3, f: g_clones },
        Kind { name: "shared-parameters", total: 0, quick: 2_000, thorough: 100_000, miri: 3, f: g_reuse },
        #[cfg(feature = "std")]
        Kind { name: "io-adaptors", total: 0, quick: 3_000, thorough: 100_000, miri: 6, f: g_io },
        Kind { name: "histories", total: 0, quick: 8_000, thorough: 400_000, miri: 10, f: g_history },
    ]
}
