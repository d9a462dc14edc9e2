//! Process-level machinery: which case is running (for crash reports), guard pages, CPU
//! personalities. Everything degrades to nothing where the platform has no such thing (Miri).

#[cfg(all(target_os = "linux", not(miri)))]
pub use imp::*;
#[cfg(any(not(target_os = "linux"), miri))]
pub use stub::*;

#[cfg(any(not(target_os = "linux"), miri))]
mod stub {
    pub fn set_kind(_t: usize, _name: &'static str) {}
    pub fn set_case(_t: usize, _idx: u64) {}
    pub fn install_crash_handler() {}
    pub fn install_death_note() {}
    pub const GUARDS: bool = false;
}

#[cfg(all(target_os = "linux", not(miri)))]
mod imp {
    use std::cell::Cell;
    use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering};

    pub const GUARDS: bool = true;

    thread_local! {
        static CUR: Cell<(*const u8, usize, u64)> = const { Cell::new((std::ptr::null(), 0, 0)) };
    }

    pub fn set_kind(_t: usize, name: &'static str) {
        CUR.with(|c| c.set((name.as_ptr(), name.len(), 0)));
    }

    pub fn set_case(_t: usize, idx: u64) {
        CUR.with(|c| {
            let (p, n, _) = c.get();
            c.set((p, n, idx));
        });
    }

    thread_local! {
        /// 1 while this thread's system calls are watched.
        pub static SELECTOR: Cell<u8> = const { Cell::new(0) };
    }

    // ---------------------------------------------------------------- CPU personality

    /// Bits cleared in the result of cpuid leaf 1 (ecx) and leaf 7 subleaf 0 (ebx).
    static MASK_1_ECX: AtomicU32 = AtomicU32::new(0);
    static MASK_7_EBX: AtomicU32 = AtomicU32::new(0);
    static MASK_7_ECX: AtomicU32 = AtomicU32::new(0);
    /// Random state of the pauses that CPUID takes on a slow CPU; 0 on others.
    pub static SLOW: AtomicU64 = AtomicU64::new(0);
    pub static CPUIDS: AtomicU64 = AtomicU64::new(0);
    pub static FAULTING: AtomicUsize = AtomicUsize::new(0);

    pub const SSE3: u32 = 1 << 0;
    pub const SSSE3: u32 = 1 << 9;
    pub const FMA: u32 = 1 << 12;
    pub const SSE41: u32 = 1 << 19;
    pub const SSE42: u32 = 1 << 20;
    pub const OSXSAVE: u32 = 1 << 27;
    pub const AVX: u32 = 1 << 28;
    pub const F16C: u32 = 1 << 29;
    pub const AVX2: u32 = 1 << 5; // leaf 7 ebx
    pub const BMI1: u32 = 1 << 3;
    pub const BMI2: u32 = 1 << 8;
    pub const AVX512: u32 = 1 << 16 | 1 << 17 | 1 << 21 | 1 << 26 | 1 << 27 | 1 << 28 | 1 << 30 | 1 << 31;

    /// Make this process see a CPU with fewer features. Must run before anything asks the CPU.
    /// Returns false if the kernel or CPU cannot do it.
    #[cfg(target_arch = "x86_64")]
    pub fn assume_cpu(name: &str) -> Option<bool> {
        let sse_all = SSE3 | SSSE3 | SSE41 | SSE42;
        let avx1 = AVX | FMA | F16C;
        let (e1, b7, c7) = match name {
            "full" => return Some(true),
            // Everything there, but asking takes its time: what happens in between is at stake.
            "slow" => {
                SLOW.store(0x9e37_79b9_7f4a_7c15, Ordering::SeqCst);
                (0, 0, 0)
            }
            // Nothing beyond the x86-64 baseline.
            "sse2" => (sse_all | avx1 | OSXSAVE, AVX2 | AVX512 | BMI1 | BMI2, !0),
            "ssse3" => (SSE41 | SSE42 | avx1 | OSXSAVE, AVX2 | AVX512 | BMI1 | BMI2, !0),
            "sse41" => (SSE42 | avx1 | OSXSAVE, AVX2 | AVX512 | BMI1 | BMI2, !0),
            "sse42" => (avx1 | OSXSAVE, AVX2 | AVX512 | BMI1 | BMI2, !0),
            // Sandy Bridge, then Piledriver (FMA, F16C and BMI1 but no AVX2).
            "avx" => (FMA | F16C, AVX2 | AVX512 | BMI1 | BMI2, !0),
            "fma" => (0, AVX2 | AVX512 | BMI2, !0),
            // No AVX2, everything else (BMI2 included).
            "noavx2" => (0, AVX2 | AVX512, !0),
            // A CPU with AVX2 under an operating system that does not save the AVX registers.
            "noosxsave" => (OSXSAVE, 0, 0),
            // AVX2 hardware with AVX switched off (hypervisor masks).
            "avx2only" => (avx1, 0, 0),
            "noavx512" => (0, AVX512, 0),
            _ => return None,
        };
        MASK_1_ECX.store(e1, Ordering::SeqCst);
        MASK_7_EBX.store(b7, Ordering::SeqCst);
        MASK_7_ECX.store(c7, Ordering::SeqCst);
        const ARCH_SET_CPUID: libc::c_int = 0x1012;
        let r = unsafe { libc::syscall(libc::SYS_arch_prctl, ARCH_SET_CPUID, 0) };
        if r != 0 {
            return Some(false);
        }
        FAULTING.store(1, Ordering::SeqCst);
        Some(true)
    }

    #[cfg(not(target_arch = "x86_64"))]
    pub fn assume_cpu(name: &str) -> Option<bool> {
        Some(name == "full")
    }

    #[cfg(target_arch = "x86_64")]
    unsafe fn emulate_cpuid(uc: *mut libc::ucontext_t) -> bool {
        if FAULTING.load(Ordering::Relaxed) == 0 {
            return false;
        }
        let regs = &mut (*uc).uc_mcontext.gregs;
        let rip = regs[libc::REG_RIP as usize] as *const u8;
        if rip.is_null() || *rip != 0x0f || *rip.add(1) != 0xa2 {
            return false;
        }
        const ARCH_SET_CPUID: libc::c_int = 0x1012;
        libc::syscall(libc::SYS_arch_prctl, ARCH_SET_CPUID, 1);
        let leaf = regs[libc::REG_RAX as usize] as u32;
        let sub = regs[libc::REG_RCX as usize] as u32;
        let mut r = core::arch::x86_64::__cpuid_count(leaf, sub);
        libc::syscall(libc::SYS_arch_prctl, ARCH_SET_CPUID, 0);
        let x = SLOW.load(Ordering::Relaxed);
        if x != 0 {
            let x = x ^ (r.eax as u64) << 32 ^ core::arch::x86_64::_rdtsc();
            let x = (x ^ x >> 31).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            SLOW.store(x | 1, Ordering::Relaxed);
            // From none to about a hundred microseconds.
            let t0 = core::arch::x86_64::_rdtsc();
            let n = (x >> 40) >> (6 + x % 16);
            while core::arch::x86_64::_rdtsc().wrapping_sub(t0) < n {
                std::hint::spin_loop();
            }
        }
        if leaf == 1 {
            r.ecx &= !MASK_1_ECX.load(Ordering::Relaxed);
        }
        if leaf == 7 && sub == 0 {
            r.ebx &= !MASK_7_EBX.load(Ordering::Relaxed);
            r.ecx &= !MASK_7_ECX.load(Ordering::Relaxed);
        }
        if leaf == 7 && sub == 1 && MASK_7_ECX.load(Ordering::Relaxed) != 0 {
            r.eax = 0; // AVX-VNNI, AVX-IFMA and relatives
            r.edx = 0;
        }
        regs[libc::REG_RAX as usize] = i64::from(r.eax);
        regs[libc::REG_RBX as usize] = i64::from(r.ebx);
        regs[libc::REG_RCX as usize] = i64::from(r.ecx);
        regs[libc::REG_RDX as usize] = i64::from(r.edx);
        regs[libc::REG_RIP as usize] += 2;
        CPUIDS.fetch_add(1, Ordering::Relaxed);
        true
    }

    // ---------------------------------------------------------------- crashes

    unsafe extern "C" fn on_crash(sig: libc::c_int, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
        SELECTOR.with(|s| s.set(0));
        #[cfg(target_arch = "x86_64")]
        if sig == libc::SIGSEGV && emulate_cpuid(uc as *mut libc::ucontext_t) {
            return;
        }
        #[cfg(not(target_arch = "x86_64"))]
        let _ = uc;
        #[cfg(target_arch = "x86_64")]
        let rip = (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_RIP as usize] as u64;
        #[cfg(not(target_arch = "x86_64"))]
        let rip = 0;
        note(sig as u64, (*info).si_addr() as u64, rip);
        libc::_exit(70);
    }

    /// Which case this thread is running, written without allocating anything.
    unsafe fn note(sig: u64, addr: u64, rip: u64) {
        let (p, n, idx) = CUR.with(|c| c.get());
        let mut buf = [0u8; 512];
        let mut at = 0;
        let mut put = |s: &[u8]| {
            for &b in s {
                if at < buf.len() {
                    buf[at] = b;
                    at += 1;
                }
            }
        };
        fn num(mut v: u64, base: u64, out: &mut [u8; 24]) -> usize {
            let mut i = 24;
            loop {
                i -= 1;
                out[i] = b"0123456789abcdef"[(v % base) as usize];
                v /= base;
                if v == 0 {
                    return i;
                }
            }
        }
        let mut d = [0u8; 24];
        put(b"\n@ crash ");
        let i = num(sig, 10, &mut d);
        put(&d[i..]);
        put(b" ");
        if p.is_null() {
            put(b"-");
        } else {
            put(std::slice::from_raw_parts(p, n));
        }
        put(b" ");
        let i = num(idx, 10, &mut d);
        put(&d[i..]);
        put(b" addr ");
        let i = num(addr, 16, &mut d);
        put(&d[i..]);
        put(b" rip ");
        let i = num(rip, 16, &mut d);
        put(&d[i..]);
        put(b"\n");
        libc::write(1, buf.as_ptr() as *const libc::c_void, at);
    }

    /// Report the running case on a fatal signal. Uses the alternate stack that std gives threads.
    pub fn install_crash_handler() {
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_crash as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
                libc::sigaction(s, &sa, std::ptr::null_mut());
            }
        }
    }

    /// Only what the CPU personality needs (sanitizers want the other signals themselves).
    pub fn install_cpuid_handler() {
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_crash as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
        }
    }

    #[cfg(vh_san)]
    extern "C" {
        fn __sanitizer_set_death_callback(f: Option<unsafe extern "C" fn()>);
    }

    #[cfg(vh_san)]
    unsafe extern "C" fn on_death() {
        note(0, 0, 0);
    }

    /// Let a sanitizer that is about to end the process say which case it was.
    pub fn install_death_note() {
        #[cfg(vh_san)]
        unsafe {
            __sanitizer_set_death_callback(Some(on_death));
        }
    }

    // ---------------------------------------------------------------- guard pages

    const PAGE: usize = 4096;

    /// Writable memory between two inaccessible pages.
    pub struct Guarded {
        base: *mut u8,
        cap: usize,
    }

    unsafe impl Send for Guarded {}

    impl Guarded {
        pub fn new(pages: usize) -> Guarded {
            let cap = pages * PAGE;
            unsafe {
                let m = libc::mmap(
                    std::ptr::null_mut(),
                    cap + 2 * PAGE,
                    libc::PROT_NONE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                    -1,
                    0,
                );
                assert!(m != libc::MAP_FAILED, "mmap");
                let base = (m as *mut u8).add(PAGE);
                assert!(libc::mprotect(base as *mut libc::c_void, cap, libc::PROT_READ | libc::PROT_WRITE) == 0);
                Guarded { base, cap }
            }
        }

        pub fn cap(&self) -> usize {
            self.cap
        }

        /// `data` copied so that it ends exactly at the unmapped page.
        pub fn at_end(&mut self, data: &[u8]) -> &'static [u8] {
            self.at(self.cap - data.len(), data)
        }

        /// `data` copied so that it starts exactly behind the unmapped page.
        pub fn at_start(&mut self, data: &[u8]) -> &'static [u8] {
            self.at(0, data)
        }

        pub fn at(&mut self, off: usize, data: &[u8]) -> &'static [u8] {
            assert!(off + data.len() <= self.cap);
            unsafe {
                let p = self.base.add(off);
                std::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
                std::slice::from_raw_parts(p, data.len())
            }
        }

        /// Room for a `T` as close to the upper unmapped page (or right at the lower one) as its
        /// size and alignment allow.
        pub fn place<T>(&mut self, v: T, end: bool) -> &'static mut T {
            let off = if end {
                (self.cap - std::mem::size_of::<T>()) / std::mem::align_of::<T>() * std::mem::align_of::<T>()
            } else {
                0
            };
            unsafe {
                let p = self.base.add(off) as *mut T;
                p.write(v);
                &mut *p
            }
        }
    }

    impl Drop for Guarded {
        fn drop(&mut self) {
            unsafe {
                libc::munmap(self.base.sub(PAGE) as *mut libc::c_void, self.cap + 2 * PAGE);
            }
        }
    }

    // ---------------------------------------------------------------- huge virtual messages

    /// A read-only slice of `len` bytes made of `period` real bytes mapped over and over.
    #[cfg(target_pointer_width = "64")]
    pub struct Huge {
        base: *mut u8,
        span: usize,
    }

    #[cfg(target_pointer_width = "64")]
    unsafe impl Sync for Huge {}
    #[cfg(target_pointer_width = "64")]
    unsafe impl Send for Huge {}

    #[cfg(target_pointer_width = "64")]
    impl Huge {
        pub fn new(pattern: &[u8], len: usize) -> Huge {
            let period = pattern.len();
            assert!(period % PAGE == 0);
            let span = (len + period - 1) / period * period;
            unsafe {
                let fd = libc::memfd_create(b"vh\0".as_ptr() as *const libc::c_char, 0);
                assert!(fd >= 0, "memfd_create");
                assert!(libc::ftruncate(fd, period as i64) == 0);
                let w = libc::write(fd, pattern.as_ptr() as *const libc::c_void, period);
                assert!(w == period as isize, "write to memfd");
                let base = libc::mmap(
                    std::ptr::null_mut(),
                    span,
                    libc::PROT_NONE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                    -1,
                    0,
                );
                assert!(base != libc::MAP_FAILED, "mmap");
                let mut off = 0;
                while off < span {
                    let m = libc::mmap(
                        (base as *mut u8).add(off) as *mut libc::c_void,
                        period,
                        libc::PROT_READ,
                        libc::MAP_SHARED | libc::MAP_FIXED,
                        fd,
                        0,
                    );
                    assert!(m != libc::MAP_FAILED, "mmap at {off}");
                    off += period;
                }
                libc::close(fd);
                Huge { base: base as *mut u8, span }
            }
        }

        pub fn slice(&self, off: usize, len: usize) -> &[u8] {
            assert!(off + len <= self.span);
            unsafe { std::slice::from_raw_parts(self.base.add(off), len) }
        }
    }

    #[cfg(target_pointer_width = "64")]
    impl Drop for Huge {
        fn drop(&mut self) {
            unsafe {
                libc::munmap(self.base as *mut libc::c_void, self.span);
            }
        }
    }

    // ---------------------------------------------------------------- heap and stack in use

    /// Counts what this thread takes from the heap and gives back.
    #[cfg(not(vh_san))]
    pub mod heap {
        use std::alloc::{GlobalAlloc, Layout, System};
        use std::cell::Cell;
        use std::sync::atomic::{AtomicI64, Ordering};

        thread_local! {
            static LIVE: Cell<i64> = const { Cell::new(0) };
            static TOP: Cell<i64> = const { Cell::new(0) };
            static BUSY: Cell<bool> = const { Cell::new(false) };
            static GROUP: Cell<Option<&'static AtomicI64>> = const { Cell::new(None) };
        }

        /// From now on, count what this thread takes and gives back in `group` too.
        pub fn join(group: Option<&'static AtomicI64>) {
            GROUP.with(|g| g.set(group));
        }

        /// Is this thread in the allocator?
        pub fn busy() -> bool {
            BUSY.try_with(|b| b.get()).unwrap_or(true)
        }

        fn at_work<T>(f: impl FnOnce() -> T) -> T {
            let _ = BUSY.try_with(|b| b.set(true));
            let r = f();
            let _ = BUSY.try_with(|b| b.set(false));
            r
        }

        fn add(n: i64) {
            let _ = LIVE.try_with(|l| {
                let v = l.get() + n;
                l.set(v);
                let _ = TOP.try_with(|t| t.set(t.get().max(v)));
            });
            if let Ok(Some(group)) = GROUP.try_with(|g| g.get()) {
                group.fetch_add(n, Ordering::Relaxed);
            }
        }

        struct Counting;

        unsafe impl GlobalAlloc for Counting {
            unsafe fn alloc(&self, l: Layout) -> *mut u8 {
                add(l.size() as i64);
                at_work(|| System.alloc(l))
            }
            unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
                add(l.size() as i64);
                at_work(|| System.alloc_zeroed(l))
            }
            unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
                add(-(l.size() as i64));
                at_work(|| System.dealloc(p, l))
            }
            unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
                add(n as i64 - l.size() as i64);
                at_work(|| System.realloc(p, l, n))
            }
        }

        #[global_allocator]
        static ALLOCATOR: Counting = Counting;

        /// What is in use now, and the most there was since `mark`.
        pub fn read() -> (i64, i64) {
            (LIVE.with(|l| l.get()), TOP.with(|t| t.get()))
        }

        pub fn mark() -> (i64, i64) {
            TOP.with(|t| t.set(LIVE.with(|l| l.get())));
            read()
        }
    }

    /// How deep the stack of a thread of its own gets in `f`.
    #[cfg(all(target_pointer_width = "64", not(vh_san)))]
    pub fn stack_depth<F: FnOnce()>(f: F) -> Result<usize, crate::run::Panicked> {
        const SPAN: usize = 256 << 20;
        struct Job<F> {
            f: Option<F>,
            cur: (*const u8, usize, u64),
            alt: *mut libc::c_void,
            panicked: Option<crate::run::Panicked>,
        }
        const ALT: usize = 1 << 16;
        extern "C" fn run<F: FnOnce()>(job: *mut libc::c_void) -> *mut libc::c_void {
            let job = unsafe { &mut *(job as *mut Job<F>) };
            CUR.with(|c| c.set(job.cur));
            unsafe {
                let ss = libc::stack_t { ss_sp: job.alt, ss_flags: 0, ss_size: ALT };
                libc::sigaltstack(&ss, std::ptr::null_mut());
            }
            let f = job.f.take().unwrap();
            job.panicked = crate::run::quiet(f).err();
            unsafe {
                let ss = libc::stack_t { ss_sp: std::ptr::null_mut(), ss_flags: libc::SS_DISABLE, ss_size: ALT };
                libc::sigaltstack(&ss, std::ptr::null_mut());
            }
            std::ptr::null_mut()
        }
        unsafe {
            let map = |n| {
                let prot = libc::PROT_READ | libc::PROT_WRITE;
                let flags = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE;
                let m = libc::mmap(std::ptr::null_mut(), n, prot, flags, -1, 0);
                assert!(m != libc::MAP_FAILED, "mmap of a stack");
                m as *mut u8
            };
            let (base, alt) = (map(SPAN), map(ALT));
            libc::mprotect(base as *mut libc::c_void, PAGE, libc::PROT_NONE);
            let mut job = Job { f: Some(f), cur: CUR.with(|c| c.get()), alt: alt as *mut libc::c_void, panicked: None };
            let mut attr: libc::pthread_attr_t = std::mem::zeroed();
            assert!(libc::pthread_attr_init(&mut attr) == 0);
            assert!(libc::pthread_attr_setstack(&mut attr, base as *mut libc::c_void, SPAN) == 0);
            let mut t: libc::pthread_t = std::mem::zeroed();
            let rc = libc::pthread_create(&mut t, &attr, run::<F>, &mut job as *mut _ as *mut libc::c_void);
            assert!(rc == 0, "pthread_create: {rc}");
            libc::pthread_join(t, std::ptr::null_mut());
            libc::pthread_attr_destroy(&mut attr);
            // The pages that were touched, and in the deepest of them the deepest byte.
            let mut seen = vec![0u8; SPAN / PAGE];
            assert!(libc::mincore(base as *mut libc::c_void, SPAN, seen.as_mut_ptr()) == 0, "mincore");
            let mut depth = 0;
            for (i, _) in seen.iter().enumerate().skip(1).filter(|(_, s)| *s & 1 == 1) {
                let page = std::slice::from_raw_parts(base.add(i * PAGE), PAGE);
                if let Some(j) = page.iter().position(|b| *b != 0) {
                    depth = SPAN - (i * PAGE + j);
                    break;
                }
            }
            libc::munmap(base as *mut libc::c_void, SPAN);
            libc::munmap(alt as *mut libc::c_void, ALT);
            match job.panicked {
                Some(p) => Err(p),
                None => Ok(depth),
            }
        }
    }

    /// CPU time used by this thread.
    pub fn thread_cpu_ns() -> u64 {
        unsafe {
            let mut ts: libc::timespec = std::mem::zeroed();
            libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts);
            ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
        }
    }
}
