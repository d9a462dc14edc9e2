"""What each check runs."""

from core import CONFIGS, NCPU

PERSONAS = ["sse2", "ssse3", "sse41", "sse42", "avx", "fma", "noavx2", "noosxsave", "noavx512"]


class Job:
    def __init__(self, **k):
        self.__dict__.update(k)


class Gen:
    def __init__(self, seed, rnd, thorough):
        self.base, self.rnd, self.thorough = seed, rnd, thorough
        self.n = 0

    def seed(self, n):
        return self.base * 1_000_000 + self.rnd * 1_000 + n

    def J(self, config, prop, scale=1.0, threads=None, seed=None, **k):
        """A run; seeds differ from run to run unless given."""
        self.n += 1
        miri = CONFIGS[config]["miri"] is not None
        san = "san" in config
        threads = threads or (1 if miri else NCPU)
        d = dict(
            config=config, prop=prop, scale=scale, threads=threads, seed=self.seed(self.n if seed is None else seed),
            cpu="full", only=[], log=None, records=0, samples=False, no_oracle=False, small=False, hang=150, pre=[],
            timeout=700 if not self.thorough else 840, optional=False, thorough=self.thorough and not miri, miriflags="",
            cores=threads, label="", once=False, group="", part="", forbid=False,
        )
        d.update(k)
        if d["pre"]:
            d["group"] = "pre"
        if san or miri:
            d["group"] = config
        return Job(**d)


    def M(self, n, config, prop, scale=1.0, **k):
        """A run under the interpreter, in n processes that share its cases."""
        first = self.J(config, prop, scale, **k)
        out = []
        for i in range(n):
            j = Job(**first.__dict__)
            j.part = f"{i}/{n}"
            j.label = (j.label + " " if j.label else "") + f"part {i + 1} of {n}"
            out.append(j)
        return out


def general(prop, scale, records=0, std_only=False, i686=True, cheap=False):
    """Behaviour against the specification in the builds and on the CPUs that differ most."""

    def plan(g):
        t = g.thorough
        s = scale if not t else 1.0
        jobs = [
            g.J("rel", prop, s, records=records, samples=True),
            g.J("checked", prop, s / 2),
            g.J("rel", prop, s / 2, cpu="noavx2"),
            g.J("rel", prop, s / 4, cpu="sse41", optional=True),
            g.J("native", prop, s / 4, optional=True),
        ]
        if not std_only:
            jobs.append(g.J("nostd-checked", prop, s / 2))
        if t:
            jobs += [
                g.J("lto", prop, s / 2, optional=True),
                g.J("opts", prop, s / 4, optional=True),
                g.J("dev", prop, s / 8, optional=True),
            ]
            if i686:
                jobs.append(g.J("i686", prop, s / 2, optional=True))
        return jobs

    return plan


def c23(g):
    return general("C23", 6.0, std_only=True)(g) + [g.J("rel", "C23l", 1.0, hang=400)]


def millions(prop, plan):
    """And tens of millions of calls on one value."""
    return lambda g: plan(g) + [g.J("rel", prop + "m", 1.0, threads=4 if g.thorough else 2, hang=600, optional=g.thorough)]


def c10(g):
    s = 4.0 if not g.thorough else 1.0
    jobs = [g.J("rel", "C10", s, samples=True), g.J("checked", "C10", s / 4), g.J("dev", "C10", s / 20), g.J("native", "C10", s / 4),
            g.J("i686", "C10", s / 4)]
    # the same implementations chosen by the CPU, through the public interface
    jobs += [g.J("rel", "C12", 1.0, cpu=p, threads=2, optional=True) for p in ("sse2", "sse41", "noavx2")]
    if g.thorough:
        jobs += [g.J(c, "C10", s / 4, optional=True) for c in ("opt1", "opts", "lto", "nostd", "asan")]
    return jobs


C11_QUICK = ["rel", "checked", "dev", "opts", "nostd", "nostd-checked", "static-avx2", "nightly", "opt1", "lto", "native", "static-sse41", "i686",
             "nostd-sse41", "nostd-avx2"]
C11_MORE = ["nostd-native", "nostd-dev", "i686-checked", "asan"]


def c11(g):
    s = 2.0 if not g.thorough else 1.0

    def J(c, p="C11", **k):
        return g.J(c, p, s, seed=500, log=p, **k)

    jobs = [J("rel", samples=True)]
    jobs += [J(c) for c in C11_QUICK[1:]]
    jobs += [J("rel", cpu=c) for c in ("sse2", "sse41", "noavx2")]
    jobs += [J("abort", only=["single-calls", "histories", "power-of-two-lengths"])]
    jobs += [J("rel", "C11f", samples=True), J("checked", "C11f"), J("nostd", "C11f")]
    if g.thorough:
        jobs += [J(c, optional=True) for c in C11_MORE]
        jobs += [J("checked", cpu=c, optional=True) for c in PERSONAS if c not in ("sse2",)]
    return jobs


def c12(g):
    t = g.thorough
    jobs = [g.J("rel", "C12s", 1.0, threads=1, cpu=p, samples=p == "sse2", group=p, hang=0) for p in PERSONAS + ["full"]]
    jobs += [g.J("rel", "C12", 4.0 if not t else 1.0, threads=4, cpu=p, samples=p == "sse41", group=p) for p in PERSONAS]
    jobs += [g.J("checked", "C12s", 1.0, threads=1, cpu=p, group=p, hang=0, optional=t) for p in (["sse2", "noavx2"] if not t else PERSONAS)]
    # All workloads at full speed, with a breakpoint on every instruction the CPU lacks.
    some = ["C01", "C02", "C05", "C04", "C06", "C07", "C08", "C09", "C10", "C13", "C16", "C18", "C20", "C23"]
    for cpu in PERSONAS if t else ["sse2", "sse41", "noavx2"]:
        for p in some:
            jobs.append(g.J("rel", p, 0.5, cpu=cpu, forbid=True, group="forbid " + cpu, hang=300, optional=t))
    for c in ("lto", "opts", "nightly", "dev") if t else ("lto",):
        for p in ("C01", "C05", "C07", "C08", "C09"):
            for cpu in ("sse2", "sse41", "noavx2") if t else ("sse2",):
                jobs.append(g.J(c, p, 0.1 if c == "dev" else 0.5, cpu=cpu, forbid=True, group="forbid " + cpu, hang=300, optional=t))
    for c in ("nostd", "nostd-checked") if t else ("nostd",):
        jobs += [g.J(c, p, 0.5, cpu="sse2", forbid=True, group="forbid sse2", optional=t) for p in ("C01", "C05", "C07", "C08", "C09")]
    # The interpreter refuses to run an instruction of an extension the target does not have.
    k = 0.6 if not t else 3.0
    for c in ("miri", "miri-sse41", "miri-avx2"):
        jobs += g.M(2, c, "C12", k, optional=True)
    if t:
        jobs += g.M(2, "miri-nostd", "C12", k, optional=True)
        jobs += [g.J("lto", "C12s", 1.0, threads=1, cpu=p, group=p, hang=0, optional=True) for p in ("sse2", "sse41", "noavx2")]
        jobs += [g.J("nightly", "C12s", 1.0, threads=1, cpu=p, group=p, hang=0, optional=True) for p in ("sse2", "sse41", "noavx2")]
    return jobs


def c13(g):
    t = g.thorough
    k = 0.45 if not t else 3.0
    s = 3.0 if not t else 1.0
    jobs = g.M(4, "miri-avx2", "C13", k, optional=t) + g.M(4, "miri", "C13", k, optional=t) + g.M(2, "miri-sse41", "C13", k / 2, optional=t)
    jobs += [
        g.J("rel", "C13", s, samples=True),
        g.J("checked", "C13", s / 2),
        g.J("asan", "C13", s / 4),
        g.J("rel", "C13", s / 2, cpu="noavx2"),
        g.J("asan", "C13", s / 8, cpu="noavx2"),
        g.J("msan", "C13", s / 8, optional=True),
    ]
    if t:
        jobs += [
            g.J("asan-checked", "C13", s / 4, optional=True),
            g.J("nostd", "C13", s / 2, optional=True),
            g.J("i686", "C13", s / 2, optional=True),
            g.J("rel", "C13", 0.02, threads=1, pre=["valgrind", "-q", "--error-exitcode=99", "--error-limit=no"], optional=True, label="valgrind", hang=0),
        ]
        jobs += [g.J("asan", p, 0.05, optional=True) for p in ("C04", "C06", "C07", "C09")]
        jobs += g.M(2, "miri-s390x", "C13", 0.7, optional=True) + g.M(2, "miri-i686", "C13", 0.7, optional=True) + g.M(2, "miri-nostd", "C13", 0.7, optional=True)
    return jobs


C14_PROPS = ["C11", "C01", "C05", "C04", "C06", "C07", "C16", "C09", "C08", "C02", "C10"]


def c14(g):
    t = g.thorough
    k = 0.14 if not t else 2.0
    jobs = []
    # the same calls, small enough for the interpreter, on every target and here
    for c, f in (("miri-s390x", 1.0), ("miri-mips64", 0.4)):
        jobs += g.M(4 if f == 1 else 2, c, "C11", k * f * 2, seed=700, log=f"C11 {f}", small=True)
        jobs += [g.J(c, p, k * f, optional=p not in ("C01", "C05", "C04", "C06", "C07")) for p in C14_PROPS[1:]]
    # 32-bit x86 runs natively
    jobs += [g.J("i686", "C14l", 1.0, threads=4, hang=600, samples=True, once=True, timeout=840, group="i686")]
    jobs += [g.J("i686", p, 1.0, group="i686") for p in C14_PROPS[1:] + ["C18", "C17", "C20", "C23"]]
    jobs += [g.J(c, "C11", k * f * 2, seed=700, log=f"C11 {f}", small=True, threads=8) for c in ("rel", "i686") for f in (1.0, 0.4)]
    if t:
        jobs += [g.J("i686-checked", p, 1.0, group="i686-checked", optional=True) for p in C14_PROPS]
        jobs += [j for p in C14_PROPS[:6] for j in g.M(2, "miri-i686", p, 0.5, optional=True)]
    return jobs


def set_forward(g, prop):
    """Hashers whose counter was set to anything below 2^64."""
    s = 1.0 if not g.thorough else 0.5
    return [g.J("rel", prop, s), g.J("rel", prop, s / 2, cpu="noavx2"), g.J("rel", prop, s / 4, cpu="sse2"), g.J("nostd-checked", prop, s / 2)]


def c15(g):
    jobs = [g.J("rel", "C15", 1.0, hang=800, samples=True, timeout=840)]
    if g.thorough:
        jobs += [
            g.J("rel", "C15", 1.0, hang=800, cpu="noavx2", optional=True, timeout=840, only=["hash8-past-the-boundary", "around-the-boundary", "crossing-histories"]),
            g.J("nostd-checked", "C15", 1.0, hang=800, optional=True, timeout=840, only=["hash8-past-the-boundary", "around-the-boundary", "crossing-histories"]),
        ]
    else:
        jobs += [g.J("rel", "C15", 0.2, hang=400, cpu="noavx2", only=["hash8-past-the-boundary", "around-the-boundary", "crossing-histories"])]
    return jobs + set_forward(g, "C15s")


def c16(g):
    s = 3.0 if not g.thorough else 1.0
    some = ["counts-after-every-call", "two-chunk-grid", "power-of-two-chunks"]
    jobs = [
        g.J("rel", "C16", s, samples=True, hang=300),
        g.J("checked", "C16", s / 2, only=some),
        g.J("rel", "C16", s / 2, cpu="noavx2", only=some),
        g.J("nostd-checked", "C16", s / 2, only=some),
        g.J("i686", "C16", s / 2, only=some, group="i686"),
        g.J("i686", "C14l", 1.0, threads=4, hang=600, optional=True, once=True, timeout=840, group="i686"),
    ]
    if g.thorough:
        jobs += [g.J("checked", "C16", 1.0, optional=True, hang=300)]
    return jobs + set_forward(g, "C16s")


VALGRIND = ["valgrind", "-q", "--error-limit=no", "--log-file=/dev/null"]


def c19(g):
    t = g.thorough

    def V(c, scale, **k):
        return g.J(c, "C19", scale, threads=1, pre=VALGRIND, hang=0, **k)

    jobs = [V("rel", 1.0, samples=True), V("nostd", 1.0), V("opts", 0.5), V("checked", 0.5), V("opt1", 0.3), V("nostd-sse41", 0.5), V("nostd-avx2", 0.3)]
    if t:
        jobs += [V(c, 0.5, optional=True) for c in ("lto", "nostd-native", "nightly", "nostd-checked", "static-avx2", "static-sse41", "dev", "nostd-dev")]
    return jobs


def c21(g):
    t = g.thorough
    jobs = []
    seeds = 6 if not t else 64
    for c in ("miri", "miri-avx2"):
        jobs.append(g.J(c, "C21", 1.0, miriflags=f"-Zmiri-many-seeds=0..{seeds}", cores=NCPU, optional=True, label=f"{seeds} schedules"))
        jobs.append(g.J(c, "C21f", 1.0, miriflags=f"-Zmiri-many-seeds=0..{seeds}", cores=NCPU, optional=True, label=f"{seeds} schedules"))
    jobs += [
        g.J("rel", "C21", 0.5, threads=2, cores=8, samples=True),
        g.J("tsan", "C21", 0.2, threads=2, cores=8),
        g.J("checked", "C21", 0.2, threads=2, cores=8),
    ]
    # first uses: a process each, and forks of one process by the hundred (where asking the CPU takes
    # its time, too)
    n = 24 if not t else 200
    one = ["first-use"]
    jobs += [g.J("rel", "C21f", 1.0, threads=2, cores=4, seed=900 - i, samples=i == 0, only=one) for i in range(n)]
    jobs += [g.J("tsan", "C21f", 1.0, threads=2, cores=4, seed=600 - i, only=one) for i in range(n // 3)]
    jobs += [g.J("rel", "C21f", 1.0, threads=2, cores=4, seed=400 - i, cpu="noavx2", only=one) for i in range(n // 4)]
    for i, (c, cpu, k) in enumerate((("rel", "slow", 1.2), ("rel", "full", 0.6), ("checked", "slow", 0.4), ("rel", "noavx2", 0.3))):
        jobs.append(g.J(c, "C21f", k, threads=1, cores=8, seed=300 - i, cpu=cpu, only=["first-use-forked"], samples=i == 0, optional=cpu == "slow"))
    if t:
        jobs += [g.J("rel", "C21", 0.5, threads=2, cores=8, cpu=p, optional=True) for p in ("noavx2", "sse41", "sse2")]
        jobs += [g.J("tsan", "C20", 0.05, optional=True)]
    return jobs


def c22(g):
    s = 3.0 if not g.thorough else 1.0
    jobs = [
        g.J("rel", "C22", s, samples=True),
        g.J("checked", "C22", s),
        g.J("dev", "C22", s / 10),
        g.J("rel", "C22", s / 2, cpu="noavx2"),
        g.J("nostd-checked", "C22", s / 2),
    ]
    if g.thorough:
        jobs += [g.J(c, "C22", s / 4, optional=True) for c in ("i686-checked", "nostd-dev", "asan-checked", "static-avx2")]
    return jobs


def c24(g):
    s = 1.0
    jobs = [
        g.J("rel", "C24", s, samples=True),
        g.J("checked", "C24", s / 2),
        g.J("dev", "C24", s / 40),
        g.J("rel", "C24", s / 2, cpu="noavx2"),
        g.J("rel", "C24", s / 4, cpu="sse41", optional=True),
        g.J("nostd-checked", "C24", s / 2),
    ]
    if g.thorough:
        jobs += [g.J(c, "C24", s / 4, optional=True) for c in ("lto", "opts", "opt1", "native", "static-avx2")]
    return jobs


def c25(g):
    some = ["monitors-see", "watched-calls", "panic-hook-stays", "watched-histories", "watched-lengths", "watched-long-calls"]
    jobs = [
        g.J("rel", "C25", 1.0, samples=True),
        g.J("checked", "C25", 0.3),
        g.J("rel", "C25", 0.5, cpu="noavx2"),
        g.J("rel", "C25", 0.3, cpu="sse41", only=some, optional=True),
        g.J("nostd-checked", "C25", 0.3, only=some),
        g.J("dev", "C25", 0.1, only=some),
        g.J("rel", "C25f", 1.0, threads=1),
        g.J("checked", "C25f", 1.0, threads=1),
        g.J("nostd-checked", "C25f", 0.5, threads=1),
    ]
    if g.thorough:
        jobs += [g.J(c, "C25", 0.3, optional=True) for c in ("lto", "opts", "opt1", "native", "static-avx2", "nostd")]
    return jobs


def steered(prop, plan, scale=1.0):
    """And campaigns that what the library did with earlier inputs steers: one at a time in a process."""

    def more(g):
        n = NCPU if g.thorough else 4
        return plan(g) + g.M(n, "guided", prop, scale, threads=1, optional=True)

    return more


PLANS = {
    "C01": steered("C01", general("C01", 6.0, records=150)),
    "C02": steered("C02", general("C02", 4.0, records=150), 4.0),
    "C03": steered("C03", general("C03", 6.0)),
    "C04": millions("C04", steered("C04", general("C04", 3.0))),
    "C05": steered("C05", general("C05", 6.0, records=20)),
    "C06": millions("C06", steered("C06", general("C06", 2.0))),
    "C07": millions("C07", steered("C07", general("C07", 2.0))),
    "C08": steered("C08", general("C08", 6.0)),
    "C09": general("C09", 6.0),
    "C10": c10,
    "C11": c11,
    "C12": c12,
    "C13": c13,
    "C14": c14,
    "C15": c15,
    "C16": millions("C16", steered("C16", c16)),
    "C17": steered("C17", general("C17", 2.0)),
    "C18": steered("C18", general("C18", 3.0)),
    "C19": c19,
    "C20": millions("C20", steered("C20", general("C20", 2.0))),
    "C21": c21,
    "C22": steered("C22", c22),
    "C23": millions("C23", steered("C23", c23)),
    "C24": c24,
    "C25": c25,
}
LEVEL = {}
ASSUMPTIONS = [
    "Held on the executions observed; it says nothing certain about the others.",
    "The specification in harness/oracle; every run of C01, C02 and C05 lets an independent offline reference (hashlib, itself checked with the official vectors) confirm digests that it agreed with.",
    "The compilers, the standard libraries and this machine's CPU.",
]
MORE_ASSUMPTIONS = {
    "C12": ["Executed instructions are classified by their encoding (VEX, EVEX, SSE4.1 and SSSE3 opcode maps); AMD-only extensions are not looked for.",
            "The processor's CPUID faulting, through which the process is shown a lesser CPU."],
    "C13": ["Undefined behaviour as Miri defines it with Tree Borrows, as AddressSanitizer sees it, or as an access beyond a guard page. The stricter Stacked Borrows rules are not asked for: `loadu(&h[0])` in sse41.rs, which reads eight words through a reference to one, is an error there and not under Tree Borrows."],
    "C14": ["Big-endian targets run under the Miri interpreter only (no such hardware or emulator here), with messages of at most a few KiB."],
    "C19": ["What Memcheck's definedness tracking can see: branches and addresses that depend on secret bytes, in x86-64 builds by this compiler at five optimization settings, with and without AVX2 and SSE4.1 chosen at compile time. Data-dependent instruction timing is out of its sight."],
    "C21": ["The interleavings that occurred; ThreadSanitizer and Miri judge them by happens-before, so that a race need not strike to be seen."],
    "C25": ["Reads of memory that is not an argument are only seen through their consequences."],
    "C22": ["'Linear' is judged by a generous bound on CPU time (600 ns per byte in optimized builds, about fifty times what the slowest interface needs)."],
}
SPEC = " Every digest is compared with the specification while the case runs."
AGAIN = " Memory is refilled and handed over again at the same place, so that nothing may be remembered by address."
RULES = {
    "C01": "A case hashes one message with one key and digest length (every length 0 to 4300 three times, every key length times digest length, one-bit messages and keys, 64 alignments, words at the edges of 32-bit arithmetic or from the code, lengths at and next to numbers in the code, addresses next to page and power-of-two boundaries, lengths to hundreds of MiB through aliased mappings, random), by parameters and, where they are the default, by the one-shot function." + SPEC + AGAIN,
    "C02": "A case sets parameters (each field swept through its values; setters in random order, repeated and overwritten; random combinations) and hashes a message." + SPEC + AGAIN,
    "C03": "A case gives setters valid and invalid values (all small lengths, lengths that wrap when truncated to 8, 16 or 32 bits, slices beyond 4 GiB, sequences of refusals, refused calls of every kind in the middle of histories); accepted exactly if BLAKE2 can represent the value, and afterwards the digest must show that refused calls changed nothing.",
    "C04": "A case feeds a message in pieces (every pair of short chunks, chunk quadruples around the block edges, byte by byte, long pieces, random histories of updates, digests, clones, flag changes, counts, moves; far lengths; up to 300,000 calls on one hasher, and tens of millions)." + SPEC + AGAIN,
    "C05": "As for C01, with BLAKE2sp; parameters set in any order and again." + SPEC + AGAIN,
    "C06": "A case feeds BLAKE2sp a message in pieces (pairs and triples of chunks around all block and stripe edges, long pieces, random histories with digests and counts in between; far lengths; tens of millions of calls)." + SPEC + AGAIN,
    "C07": "A case holds eight hashers with different contents, parameters (unrelated, equal, or alike but for one value) and buffered amounts and drives them by update8 and finalize8 mixed with single calls, up to tens of millions of them; each lane is compared with its own specification and count." + AGAIN,
    "C08": "A case calls hash4_exact or hash8_exact (every block count to 150, every key length times digest length times last-node flag, random parameters, huge lengths, inputs that are neighbouring or overlapping pieces of one buffer), or calls them with unequal, empty or ragged lengths, which must panic." + SPEC + AGAIN,
    "C09": "A case calls hash8 with eight parameter sets (unrelated, equal, one object, alike but for one value, the leaves of a tree) and inputs (disjoint, sharing memory or pieces of one buffer; equal lengths, one lane different, edges, random, one or more keyed); each digest compared with the specification, keyed calls may panic instead but never give a wrong digest." + AGAIN,
    "C10": "A case runs eight compressions through every implementation the CPU supports (one-bit inputs, counters around 32-bit carries, flags, words from the code, lanes with extreme neighbours, random, chains) and compares all words with the specification.",
    "C11": "A case is a series of calls whose results (digests, counts, refusals) are folded into an observation log; the logs of the same cases under every build and CPU are compared case by case, and each digest also with the specification.",
    "C12": "In every CPU persona (CPUID faulting hides features from the process): library calls run with the trap flag set, so that each executed instruction is decoded and checked against what the persona has (C12s), and the workloads of the other properties run at full speed with a breakpoint in place of every instruction of the program that the persona lacks (found by disassembling the build), so that its execution is seen whatever the operands; their results are compared with the specification. Under Miri, executing an intrinsic whose feature the target lacks is an error.",
    "C13": "A case makes safe calls with inputs that end or start at an unmapped page or fill a heap block exactly, objects placed likewise, valid and invalid values; memory errors are looked for by the MMU, AddressSanitizer and Miri and MemorySanitizer (thorough: Memcheck too).",
    "C14": "The workloads of other properties on 32-bit x86 (natively; messages beyond 4 GiB included) and on big-endian s390x and mips64 (Miri)." + SPEC + " Observation logs are compared with those of x86-64.",
    "C15": "A case takes hashers past 4 GiB (one call through every interface, keyed and not; BLAKE2sp until each leaf has passed; hash8 with all inputs going past together; some on past 8 GiB; every length within 260 bytes of the boundary; random short histories that start just below it; and the same with the counter set in memory to anything up to 2^64, where setting it by little agrees with the specification)." + SPEC,
    "C16": "A case reads the count after every call of a history and compares it with the number of bytes fed since creation, up to and beyond 4 GiB, after tens of millions of calls, and with the counter set in memory to anything up to 2^64.",
    "C17": "A case leads two sets of values that differ only in key and message bytes through one history and compares their Debug output (plain, alternate, hexadecimal, padded, inside containers) after each step.",
    "C18": "A case takes a digest through every view, and compares it with digests and slices equal, shorter, longer (beyond 4 GiB too), different in one bit, and different only in bytes that its length cuts off.",
    "C19": "A case marks key and message bytes (or the compared bytes) as undefined - in single calls, in histories of one hasher and its clones, with keys set over keys and refused ones, and in messages of up to 4 MiB - and lets Memcheck report every branch or address that depends on them; only the digest is declared public.",
    "C20": "A case runs a population of clones and of hashers from shared parameter sets with interleaved updates, changes, moves, drops and refused calls, makes tens of millions of hashers from one parameter set, or keeps more than 65,536 alive at once; each is compared with its own specification at all times.",
    "C21": "A case starts eight threads at a barrier (or up to 1100) that hash on their own, share parameters and digests, or hand hashers over, with random delays; digests compared with the specification. The same under ThreadSanitizer and, over several schedules, under Miri; first uses run in a fresh process each.",
    "C22": "A case makes valid calls of every kind in histories, grids and adaptors, in builds with and without overflow checks; no call may panic, crash or run past the time limit, and the CPU time of long calls is bounded linearly; calls on hashers that have been fed a GiB cost no more than on others; calls are also made while the stack unwinds and from destructors of thread-local values.",
    "C24": "A case measures what the library takes from the heap (a counting allocator) during calls on up to 256 MiB, or after thousands of turns of a random little history whose bytes and parameters vary (a slow growth is followed over up to 60 times more turns), what hundreds of short-lived threads leave behind, and how deep the stack gets (a thread of its own on a fresh mapping) in a call on up to 64 MiB compared with one on a few KiB; bounds of 64 KiB, and 48 KiB (256 KiB in all).",
    "C25": "A case makes a call while the kernel reports this thread's system calls to a monitor (syscall user dispatch), reading the time stamp counter faults, getenv counts, environment variables are compared, and rounding and flush modes are unusual (arguments to 256 MiB; what a call leaves in the buffer of the standard output is flushed while watched); afterwards MXCSR, x87 control and tags and the direction flag must be as before, and the results those of the same call unwatched; the program's own panic hook must see every panic, and still be in place after any call or refusal. First uses in a process are watched in forks of one that has not used the library. Or it single-steps a call and, every so many instructions, makes another one in the signal handler; both must give what they give alone.",
    "C23": "A case drives hashers through std::io::Write (write_all, write_vectored, write!, flush, io::copy, BufWriter, LineWriter, &mut dyn Write; up to more than 4 GiB in one write, tens of millions of writes) mixed with updates; returned lengths, digests and counts are compared with the specification.",
}
TECHNIQUE = {
    "C10": "differential runtime monitoring of all kernels against an executable specification",
    "C11": "observation-log comparison across builds and emulated CPUs",
    "C12": "breakpoint and single-step instruction monitors under CPUID faulting; Miri target-feature checks",
    "C13": "guard pages, AddressSanitizer, Miri (Tree Borrows) on safe-API stress",
    "C14": "native 32-bit execution and big-endian Miri, online specification oracle and log comparison",
    "C15": "online specification oracle on messages beyond 4 GiB (aliased mappings, cloned states)",
    "C16": "online byte-count monitor over random histories",
    "C17": "two-run noninterference monitor on Debug output",
    "C18": "online monitor of digest values over exhaustive and random comparisons",
    "C19": "Memcheck definedness tracking of secret bytes (ctgrind)",
    "C20": "online specification oracle over populations of aliased values",
    "C21": "ThreadSanitizer, Miri many-seeds, stress with online oracle, fresh-process first uses",
    "C22": "crash, hang and CPU-time monitors in overflow-checked builds",
    "C23": "online specification oracle behind std::io adaptors",
    "C25": "system-call, clock, environment and processor-state monitors; re-entrance at stepped instructions",
    "C24": "counting allocator and stack high-water monitor",
}
