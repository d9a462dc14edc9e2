"""Builds of the harness against /repo's working tree, runs of it, and what their output means."""

import fcntl
import hashlib
import os
import re
import resource
import shutil
import signal
import subprocess
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
EVIDENCE = os.path.join(VERIF, "evidence")
NCPU = max(1, min(8, os.cpu_count() or 1))

X64 = "x86_64-unknown-linux-gnu"
I686 = "i686-unknown-linux-gnu"
TB = "-Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-disable-isolation"


def cfg(profile="release", std=True, nightly=False, rustflags="", target=None, buildstd=False, miri=None, env=None, tool=None,
        guided=False):
    return dict(profile=profile, std=std, nightly=nightly, rustflags=rustflags, target=target, buildstd=buildstd,
                miri=miri, env=env or {}, tool=tool, guided=guided)


SAN = "--cfg vh_san -C force-frame-pointers=yes"
CONFIGS = {
    # stable compiler, the tests' and the users' builds
    "rel": cfg(),
    "checked": cfg("checked"),
    "dev": cfg("dev"),
    "opt1": cfg("opt1"),
    "opts": cfg("opts"),
    "lto": cfg("lto"),
    "nostd": cfg(std=False),
    "nostd-checked": cfg("checked", std=False),
    "nostd-dev": cfg("dev", std=False),
    # AVX2 known at compile time
    "static-avx2": cfg(rustflags="-C target-feature=+avx2", target=X64),
    "static-sse41": cfg(rustflags="-C target-feature=+sse4.1", target=X64),
    "native": cfg(rustflags="-C target-cpu=native", target=X64),
    # and no detection
    "nostd-sse41": cfg(std=False, rustflags="-C target-feature=+sse4.1", target=X64),
    "nostd-avx2": cfg(std=False, rustflags="-C target-feature=+avx2", target=X64),
    "nostd-native": cfg(std=False, rustflags="-C target-cpu=native", target=X64),
    # a panic ends the program
    "abort": cfg("abort"),
    "nightly": cfg(nightly=True, target=X64),
    # 32-bit x86
    "i686": cfg(nightly=True, target=I686, buildstd=True, rustflags="-C relocation-model=static -C linker-flavor=ld",
                env={"CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER": os.path.join(HARNESS, "i32", "ld32.sh"), "VH_I32_TMP": "@T"}),
    "i686-checked": cfg("checked", nightly=True, target=I686, buildstd=True,
                        rustflags="-C relocation-model=static -C linker-flavor=ld",
                        env={"CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER": os.path.join(HARNESS, "i32", "ld32.sh"), "VH_I32_TMP": "@T"}),
    # the library reports the edges it takes and the operands it compares
    "guided": cfg(nightly=True, target=X64, rustflags="-C force-frame-pointers=yes", guided=True),
    # sanitizers
    "asan": cfg("opt1", nightly=True, target=X64, rustflags="-Zsanitizer=address " + SAN),
    "asan-checked": cfg("checked", nightly=True, target=X64, rustflags="-Zsanitizer=address " + SAN),
    "msan": cfg("opt1", nightly=True, target=X64, buildstd=True,
                rustflags="-Zsanitizer=memory -Zsanitizer-memory-track-origins " + SAN),
    "tsan": cfg("opt1", nightly=True, target=X64, buildstd=True, rustflags="-Zsanitizer=thread " + SAN),
    # the interpreter; what the program may assume of the CPU is what its target features say
    "miri": cfg(nightly=True, miri=TB),
    "miri-sse41": cfg(nightly=True, miri=TB, rustflags="-C target-feature=+sse4.1"),
    "miri-avx2": cfg(nightly=True, miri=TB, rustflags="-C target-feature=+avx2"),
    "miri-nostd": cfg(nightly=True, std=False, miri=TB),
    "miri-s390x": cfg(nightly=True, miri=TB, target="s390x-unknown-linux-gnu"),
    "miri-mips64": cfg(nightly=True, miri=TB, target="mips64-unknown-linux-gnuabi64"),
    "miri-i686": cfg(nightly=True, miri=TB, target=I686),
}
COVERAGE = "profile.PROFILE.package.blake2s_simd.rustflags=[%s]" % ",".join(f'"{x}"' for x in [
    "-Cpasses=sancov-module", "-Cllvm-args=-sanitizer-coverage-level=4", "-Cllvm-args=-sanitizer-coverage-inline-8bit-counters",
    "-Cllvm-args=-sanitizer-coverage-trace-compares", "-Cllvm-args=-sanitizer-coverage-pc-table"])
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:halt_on_error=1:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_segv=1:strict_init_order=1",
    "MSAN_OPTIONS": "exitcode=99:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:history_size=4:second_deadlock_stack=1",
}


class Unusable(Exception):
    """The check cannot give an answer."""


def tree_hash():
    """Of what the library is built from."""
    h = hashlib.sha256()
    files = []
    for top, dirs, names in os.walk(REPO):
        dirs[:] = [d for d in dirs if not (top == REPO and d in (".git", "target", "tests", "benches"))]
        files += [os.path.join(top, n) for n in names]
    for f in sorted(files):
        if f.endswith((".rs", ".toml", ".lock", ".md")) or os.path.relpath(f, REPO).startswith("src"):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def numbers():
    """Integers that occur in the library's source (tests apart), products and shifts of two included: the
    workloads step on these values and next to them."""
    out = set()
    lit = r"(?:0[xX][0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?"

    def value(t):
        t = re.sub(r"[ui](8|16|32|64|128|size)$", "", t).replace("_", "")
        return int(t, 0) if t.startswith("0") and len(t) > 1 and t[1] in "xXb" else int(t or "0", 10)

    for top, _, names in os.walk(os.path.join(REPO, "src")):
        for n in sorted(names):
            if not n.endswith(".rs") or n.startswith("test"):
                continue
            with open(os.path.join(top, n), errors="replace") as f:
                text = re.sub(r"//[^\n]*|/\*.*?\*/", " ", f.read(), flags=re.S)
            for m in re.finditer(rf"(?<![\w.])({lit})(?:\s*(<<|\*)\s*({lit}))?(?![\w.])", text):
                try:
                    a = value(m[1])
                    out.add(a)
                    if m[2]:
                        b = value(m[3])
                        out.add(b)
                        out.add(a << b if m[2] == "<<" and b < 64 else a * b)
                except ValueError:
                    pass
    return ",".join(map(str, sorted(x for x in out if x < 1 << 63)[:600]))


def tail(text, n=40):
    return "\n".join(text.strip().splitlines()[-n:])


class Builder:
    def __init__(self, say):
        self.hash = tree_hash()
        self.numbers = numbers()
        self.say = say
        self.kernels = {}
        self.secs = {}
        self.locks = {}
        self.done = {}
        self.guard = threading.Lock()

    def tdir(self, name):
        return os.path.join(TARGET, name)

    def env(self, name):
        c = CONFIGS[name]
        e = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS", "CARGO_BUILD_TARGET",
                                                                "CARGO_TARGET_DIR", "MIRI_SYSROOT", "RUSTC_WRAPPER")}
        e["CARGO_NET_OFFLINE"] = "true"
        e["CARGO_TERM_COLOR"] = "never"
        e["CARGO_INCREMENTAL"] = "0"
        if c["rustflags"]:
            e["RUSTFLAGS"] = c["rustflags"]
        if c["miri"] is not None:
            e["MIRIFLAGS"] = c["miri"]
            if c["target"]:
                # its own standard library is built there
                e["XDG_CACHE_HOME"] = os.path.join(self.tdir(name), "cache")
        for k, v in c["env"].items():
            e[k] = self.tdir(name) if v == "@T" else v
        return e

    def cargo(self, name, verb, kernels):
        c = CONFIGS[name]
        a = ["cargo"] + (["+nightly"] if c["nightly"] else []) + (["miri", verb] if c["miri"] is not None else [verb])
        a += ["--quiet", "--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--target-dir", self.tdir(name),
              "--no-default-features"]
        feats = (["std"] if c["std"] else []) + (["kernels"] if kernels else []) + (["guided"] if c["guided"] else [])
        if feats:
            a += ["--features", ",".join(feats)]
        if c["target"]:
            a += ["--target", c["target"]]
        if c["miri"] is None:
            a += ["--profile", c["profile"]]
        if c["buildstd"]:
            a += ["-Zbuild-std"]
        if c["guided"]:
            a += ["-Zprofile-rustflags", "--config", COVERAGE.replace("PROFILE", c["profile"])]
        return a

    def binary(self, name):
        c = CONFIGS[name]
        p = {"dev": "debug"}.get(c["profile"], c["profile"])
        return os.path.join(self.tdir(name), *([c["target"]] if c["target"] else []), p, "vh")

    def fresh(self, name):
        """Cargo decides by modification times; make sure that it looks at any changed content."""
        d = self.tdir(name)
        os.makedirs(d, exist_ok=True)
        stamp = os.path.join(d, "vh-tree")
        try:
            old = open(stamp).read()
        except OSError:
            old = ""
        if old != self.hash:
            if os.path.exists(stamp):
                os.unlink(stamp)
            for top, dirs, _ in os.walk(d):
                for x in list(dirs):
                    if x.startswith("blake2s_simd"):
                        shutil.rmtree(os.path.join(top, x), ignore_errors=True)
                        dirs.remove(x)
        return stamp

    def build(self, name):
        """Builds a configuration once per run of the check; the path of the program, or None for Miri."""
        with self.guard:
            lock = self.locks.setdefault(name, threading.Lock())
        with lock:
            if name in self.done:
                r = self.done[name]
                if isinstance(r, Exception):
                    raise r
                return r
            try:
                r = self._build(name)
            except Exception as e:
                self.done[name] = e
                raise
            self.done[name] = r
            return r

    def _build(self, name):
        t0 = time.time()
        os.makedirs(self.tdir(name), exist_ok=True)
        with open(os.path.join(self.tdir(name), "vh-lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            stamp = self.fresh(name)
            errs = ""
            for kernels in (True, False):
                if CONFIGS[name]["miri"] is not None:
                    cmd = self.cargo(name, "run", kernels) + ["--", "run", "C01", "--only", "none"]
                else:
                    cmd = self.cargo(name, "build", kernels)
                p = subprocess.run(cmd, cwd=HARNESS, env=self.env(name), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, text=True, errors="replace")
                if p.returncode == 0:
                    self.kernels[name] = kernels
                    if not kernels:
                        self.say(f"{name}: built without direct calls of the kernels")
                    with open(stamp, "w") as f:
                        f.write(self.hash)
                    self.secs[name] = time.time() - t0
                    return None if CONFIGS[name]["miri"] is not None else self.binary(name)
                errs = p.stderr
                if CONFIGS[name]["miri"] is not None and "Undefined Behavior" in errs:
                    break
        raise Unusable(f"configuration {name} does not build:\n{tail(errs)}")

    def instructions(self, binary):
        """A file with the address of every instruction of a program."""
        with self.guard:
            lock = self.locks.setdefault("list " + binary, threading.Lock())
        with lock:
            st = os.stat(binary)
            out = f"{binary}.{st.st_mtime_ns}.instructions"
            if not os.path.exists(out):
                for f in os.listdir(os.path.dirname(binary)):
                    if f.endswith(".instructions"):
                        os.unlink(os.path.join(os.path.dirname(binary), f))
                p = subprocess.run(["objdump", "-d", "--no-show-raw-insn", "--section=.text", binary], stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, text=True, errors="replace")
                at = re.findall(r"^ *([0-9a-f]+):\t", p.stdout, re.M)
                if p.returncode or len(at) < 1000:
                    raise Unusable(f"objdump: {tail(p.stderr)}")
                with open(f"{out}.{os.getpid()}", "w") as f:
                    f.write("\n".join(at) + "\n")
                os.replace(f"{out}.{os.getpid()}", out)
            return out

    def command(self, name, args):
        """(argv, environment) of a run."""
        b = self.build(name)
        e = self.env(name)
        if b is None:
            return self.cargo(name, "run", self.kernels[name]) + ["--"] + args, e
        e.pop("RUSTFLAGS", None)
        e.update(SAN_ENV)
        if "--forbid" in args:
            i = args.index("--forbid")
            args = args[: i + 1] + [self.instructions(b)] + args[i + 2 :]
        return [b] + args, e


class Result:
    def __init__(self):
        self.cls = "ok"  # ok, violated, crash, hang, error, unavailable, unsupported, timeout
        self.kinds = {}  # kind -> dict(evals, distinct, total, exhaustive, ms)
        self.metrics = {}
        self.fails = []  # (kind, idx, text)
        self.errors = []
        self.log = {}
        self.recs = []
        self.samples = []
        self.crash = None
        self.rc = None
        self.err = ""
        self.out = ""
        self.wall = 0.0


SAN_RE = re.compile(r"(ERROR: AddressSanitizer[^\n]*|WARNING: MemorySanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|ERROR: ThreadSanitizer[^\n]*)")


def parse(out, r):
    for line in out.splitlines():
        if not line.startswith("@ "):
            continue
        f = line.split(" ")
        w = f[1]
        try:
            if w == "kind":
                d = dict(zip(f[3::2], map(int, f[4::2])))
                r.kinds[f[2]] = d
            elif w == "metric":
                r.metrics[f[2]] = r.metrics.get(f[2], 0) + int(f[3])
            elif w == "fail":
                r.fails.append((f[2], int(f[3]), " ".join(f[4:])))
            elif w == "herr":
                r.errors.append(" ".join(f[2:]))
            elif w == "log":
                r.log[(f[2], int(f[3]))] = (f[4], int(f[5]))
            elif w == "rec":
                r.recs.append(line[6:])
            elif w == "sample":
                r.samples.append(line[9:])
            elif w == "crash":
                r.crash = (f[3], int(f[4]), line[2:])
            elif w == "hang":
                r.crash = (f[2], int(f[3]), line[2:])
        except (ValueError, IndexError):
            pass  # a line cut short by a crash


def execute(argv, env, timeout, cpu_limit=None, pre=None, as_user=None):
    r = Result()
    t0 = time.time()

    def limits():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu_limit:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu_limit, cpu_limit + 5))

    p = subprocess.Popen((pre or []) + argv, cwd=HARNESS, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=limits)
    try:
        r.out, r.err = p.communicate(timeout=timeout)
        timed_out = False
    except subprocess.TimeoutExpired:
        timed_out = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        r.out, r.err = p.communicate()
    r.wall = time.time() - t0
    r.rc = p.returncode
    parse(r.out, r)
    san = SAN_RE.search(r.err)
    if timed_out:
        r.cls = "timeout"
    elif "error: Undefined Behavior:" in r.err:
        r.cls = "ub"
        i = r.err.index("error: Undefined Behavior:")
        r.crash = ("-", 0, r.err[i : i + 1800])
    elif "error: unsupported operation" in r.err:
        r.cls = "unsupported"
    elif p.returncode == 99 or (san and p.returncode not in (0, 1)):
        r.cls = "sanitizer"
        i = san.start() if san else 0
        c = r.crash
        r.crash = (c[0] if c else "-", c[1] if c else 0, r.err[i : i + 2500])
        if "out of memory" in r.err or "failed to allocate" in r.err or "out-of-memory" in r.err or "unexpected memory mapping" in r.err:
            r.cls = "error"
            r.errors.append("sanitizer ran out of memory")
    elif p.returncode == 0:
        r.cls = "ok"
        if "@ done 0" not in r.out and "held" not in r.out:
            r.cls = "error"
            r.errors.append("the report is incomplete")
    elif p.returncode == 1 and r.fails:
        r.cls = "violated"
    elif p.returncode == 3:
        r.cls = "unavailable"
    elif p.returncode == 70 or p.returncode in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE, -signal.SIGABRT, -signal.SIGTRAP):
        r.cls = "crash"
        if r.crash is None:
            r.crash = ("-", 0, f"process ended by signal {-p.returncode}")
        if "memory allocation of" in r.err or "failed to spawn thread" in r.err:
            r.cls = "error"
            r.errors.append("out of memory: " + tail(r.err, 3))
    elif p.returncode == 71 or p.returncode == -signal.SIGXCPU:
        r.cls = "hang"
        if r.crash is None:
            r.crash = ("-", 0, "CPU time limit exceeded")
    else:
        r.cls = "error"
        r.errors.append(f"exit code {p.returncode}: {tail(r.err, 12)}")
    return r
