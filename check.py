#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property of /repo's working tree.
check.py --setup: builds what most checks need.
check.py --replay CONFIG -- ARGS: one run of the harness in a configuration (what replay files use)."""

import argparse
import json
import os
import queue
import re
import shlex
import sys
import threading
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver"))
import core  # noqa: E402
import plans  # noqa: E402
import pyoracle  # noqa: E402
from core import Unusable, execute  # noqa: E402


def say(*a):
    print(*a, flush=True)


def known_findings():
    out = []
    p = os.path.join(core.VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", l.strip())
            if m:
                out.append((m[1], re.compile(m[2]), m[3]))
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.b = core.Builder(say)
        self.lock = threading.Lock()
        self.tokens = core.NCPU
        self.cond = threading.Condition()
        self.violations = []  # (key, text, replay argv)
        self.errors = []
        self.notes = []
        self.groups = {}  # (prop, kind, seed) -> distinct, the largest over configurations
        self.evals = 0
        self.runs = []
        self.metrics = {}
        self.samples = []
        self.recs_checked = 0
        self.exhaustive = {}
        self.logs = {}
        self.stop = False
        self.ok_runs = 0

    # ---------------------------------------------------------------- one run

    def take(self, n):
        n = min(n, core.NCPU)
        with self.cond:
            while self.tokens < n:
                self.cond.wait()
            self.tokens -= n
        return n

    def give(self, n):
        with self.cond:
            self.tokens += n
            self.cond.notify_all()

    def args(self, j, single=None):
        a = ["run", j.prop, "--tier", "thorough" if j.thorough else "quick", "--seed", str(j.seed)]
        if j.cpu != "full":
            a += ["--cpu", j.cpu]
        if self.b.numbers:
            a += ["--dict", self.b.numbers]
        if j.forbid:
            a += ["--forbid", "auto"]
        if j.no_oracle:
            a += ["--no-oracle"]
        if j.small:
            a += ["--like-miri"]
        if single:
            return a + ["--threads", "1", "--case", f"{single[0]}:{single[1]}"] + (["--log"] if j.log else [])
        a += ["--threads", str(j.threads), "--scale", repr(j.scale)]
        if j.only:
            a += ["--only", ",".join(j.only)]
        if j.part:
            a += ["--part", j.part]
        if j.log:
            a += ["--log"]
        if j.records:
            a += ["--records", str(j.records)]
        if j.samples:
            a += ["--samples"]
        if j.threads > 1:
            a += ["--hang", str(j.hang)]
        return a

    def launch(self, j, single=None):
        argv, env = self.b.command(j.config, self.args(j, single))
        if j.miriflags:
            env["MIRIFLAGS"] = env.get("MIRIFLAGS", "") + " " + j.miriflags
        limit = (120 if single else None) if core.CONFIGS[j.config]["miri"] is None and not j.pre else None
        return execute(argv, env, 300 if single else j.timeout, limit, j.pre)

    def run_job(self, j):
        try:
            self.b.build(j.config)
        except Unusable as e:
            with self.lock:
                (self.notes if j.optional else self.errors).append(str(e))
            return
        n = self.take(j.cores)
        try:
            if self.stop or (j.optional and time.time() - self.t0 > self.soft):
                with self.lock:
                    self.notes.append(f"skipped for lack of time: {j.prop} in {j.config}" if not self.stop else f"not run after a violation: {j.prop} in {j.config}")
                return
            r = self.launch(j)
            if r.cls == "error" and r.rc is not None and (r.rc == -9 or "memory" in " ".join(r.errors)):
                time.sleep(3)
                r = self.launch(j)
            self.judge(j, r)
        finally:
            self.give(n)

    def violation(self, j, key, text, single):
        with self.lock:
            self.violations.append((j, key, text, single))
            self.stop = True

    def judge(self, j, r):
        name = f"{j.prop} in {j.config}" + (f" as a {j.cpu} CPU" if j.cpu != "full" else "") + (f" ({j.label})" if j.label else "")
        if r.cls == "violated":
            for k, i, text in r.fails[:3]:
                self.violation(j, f"{k}:{i}", f"[{name}] {k}:{i} {text}", (k, i))
        elif r.cls == "ub":
            self.violation(j, "undefined behaviour", f"[{name}] {r.crash[2]}", None)
        elif r.cls == "sanitizer":
            k, i, text = r.crash
            self.violation(j, f"{k}:{i}", f"[{name}] {k}:{i} {text}", (k, i) if k != "-" else None)
        elif r.cls in ("crash", "hang"):
            k, i, text = r.crash
            if k == "-":
                # nobody knows where; once more, to tell accidents from the rule
                r2 = self.launch(j)
                if r2.cls in ("crash", "hang", "violated"):
                    self.violation(j, r.cls, f"[{name}] {text}; {core.tail(r.err, 6)}", None)
                else:
                    with self.lock:
                        self.errors.append(f"{name}: {text}, but not when repeated")
            elif r.cls == "hang":
                r2 = self.launch(j, (k, i))
                if r2.cls == "ok":
                    with self.lock:
                        self.notes.append(f"{name}: case {k}:{i} was slow but returned when run alone ({r2.wall:.1f} s)")
                        self.errors.append(f"{name}: the machine is too slow for the time limit on a case")
                else:
                    self.violation(j, f"{k}:{i}", f"[{name}] {k}:{i} does not return: {text}", (k, i))
            else:
                self.violation(j, f"{k}:{i}", f"[{name}] {k}:{i} crashed: {text}; {core.tail(r.err, 6)}", (k, i))
        elif r.cls == "error":
            with self.lock:
                self.errors.append(f"{name}: {'; '.join(r.errors)[:3000]}")
        elif r.cls in ("timeout", "unavailable", "unsupported"):
            with self.lock:
                what = {"timeout": f"no result within {j.timeout} s", "unavailable": "this machine cannot show that CPU to a program",
                        "unsupported": "the interpreter does not support an operation: " + core.tail(r.err, 12)[:600]}[r.cls]
                (self.notes if (j.optional or r.cls != "timeout") else self.errors).append(f"{name}: {what}")
        with self.lock:
            ev = sum(k["evals"] for k in r.kinds.values())
            self.evals += ev
            if r.cls == "ok":
                self.ok_runs += 1
            for k, d in r.kinds.items():
                g = (j.prop, k, j.seed, j.group, j.part)
                self.groups[g] = max(self.groups.get(g, 0), d["distinct"])
                if d["exhaustive"]:
                    self.exhaustive[f"{j.prop} {k}"] = d["total"]
            for k, v in r.metrics.items():
                self.metrics[k] = self.metrics.get(k, 0) + v
            self.samples += [s[:900] for s in r.samples]
            self.runs.append(dict(run=name, cases=ev, seed=j.seed, result=r.cls, wall_s=round(r.wall, 2)))
            if j.log and r.cls == "ok":
                self.logs.setdefault(j.log, []).append((j, name, r.log))
        if r.recs:
            self.offline(j, name, r)

    def offline(self, j, name, r):
        """The second oracle looks at what the library returned."""
        bad = 0
        for l in r.recs:
            t = pyoracle.check_line(l)
            with self.lock:
                self.recs_checked += 1
            if t and bad < 3:
                bad += 1
                if r.cls == "ok":
                    # The online oracle was content with this.
                    self.violation(j, "offline", f"[{name}] the offline reference disagrees: {t}", None)

    # ---------------------------------------------------------------- logs

    def compare_logs(self):
        """The same calls must have given the same results in every configuration."""
        if not self.logs:
            return
        compared = 0
        for group, runs in self.logs.items():
            base = max(runs, key=lambda x: len(x[2]))
            for j, name, log in runs:
                if log is base[2]:
                    continue
                for case, ob in log.items():
                    if case not in base[2]:
                        continue
                    compared += 1
                    if base[2][case] != ob:
                        self.violation(j, f"{case[0]}:{case[1]}",
                                       f"[{name}] {case[0]}:{case[1]} observes {ob[0]} (of {ob[1]} observations), but {base[1]} observes {base[2][case][0]} (of {base[2][case][1]})",
                                       case)
                        break
        self.metrics["observation_logs_compared"] = compared

    # ---------------------------------------------------------------- all

    def go(self):
        n = pyoracle.self_test(os.path.join(core.VERIF, "driver", "blake2-kat.json"))
        self.metrics["official_vectors_passed_by_offline_reference"] = n
        plan = plans.PLANS[self.prop]
        quick = self.tier == "quick"
        self.soft = 420 if quick else 660
        budget = float(os.environ.get("VERIF_BUDGET", "0")) or (0 if quick else 560)
        rnd = 0
        while True:
            jobs = plan(plans.Gen(self.seed, rnd, not quick))
            if rnd:
                jobs = [j for j in jobs if not j.once]
                for j in jobs:
                    j.optional = True
            last = time.time()
            self.batch(jobs)
            rnd += 1
            took = time.time() - last
            if self.stop or self.errors or quick or not jobs or time.time() - self.t0 + took > budget:
                break
        self.rounds = rnd
        if not self.violations:
            self.compare_logs()
        return self.report()

    def batch(self, jobs):
        configs = list(dict.fromkeys(j.config for j in jobs))
        builders = [threading.Thread(target=lambda c=c: self.prebuild(c)) for c in configs]
        for t in builders:
            t.start()
        q = queue.Queue()
        for j in jobs:
            q.put(j)

        def worker():
            while True:
                try:
                    j = q.get_nowait()
                except queue.Empty:
                    return
                try:
                    self.run_job(j)
                except Exception as e:  # noqa: BLE001
                    with self.lock:
                        self.errors.append(f"{j.prop} in {j.config}: {type(e).__name__}: {e}")

        # One worker per job: builds proceed in any order, the token count limits what runs.
        ws = [threading.Thread(target=worker) for _ in jobs]
        for t in ws:
            t.start()
        for t in ws + builders:
            t.join()

    def prebuild(self, c):
        try:
            self.b.build(c)
        except Unusable:
            pass

    def report(self):
        wall = time.time() - self.t0
        known = [k for k in known_findings() if k[0] == self.prop]
        real, listed = [], {}
        for v in self.violations:
            for k in known:
                if k[1].search(v[2]):
                    listed[k[2]] = v
                    break
            else:
                real.append(v)
        os.makedirs(os.path.join(core.EVIDENCE, "replay"), exist_ok=True)
        replay = None
        if real:
            replay = self.write_replay(real)
        distinct = sum(self.groups.values())
        if self.ok_runs == 0 and not real and not self.errors:
            self.errors.append("no run gave a result")
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": plans.LEVEL.get(self.prop, "exploration"),
            "coverage": {
                "evaluations": self.evals,
                "distinct_nontrivial": distinct,
                "rule": plans.RULES[self.prop] + " Counted as distinct: different inputs, parameters or histories (by a hash of what the case did); a case repeated in another configuration counts once; cases that leave the library untouched count as trivial.",
                "samples": self.samples[:24] or ["(none)"],
                "finite_spaces_enumerated_completely": self.exhaustive,
                "observed": dict(sorted(self.metrics.items())),
                "digests_checked_by_offline_reference": self.recs_checked,
                "runs": sorted(self.runs, key=lambda r: r["run"]),
                "build_seconds": {k: round(v, 1) for k, v in sorted(self.b.secs.items())},
                "rounds": self.rounds,
                "notes": self.notes,
            },
            "assumptions": plans.ASSUMPTIONS + plans.MORE_ASSUMPTIONS.get(self.prop, []),
            "wall_s": round(wall, 2),
            "violations": len(real),
        }
        os.makedirs(core.EVIDENCE, exist_ok=True)
        path = os.path.join(core.EVIDENCE, f"{self.prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(path + ".tmp", path)
        for n in self.notes:
            say("note:", n)
        for d, v in listed.items():
            say(f"KNOWN-FINDING: property={self.prop} {d}")
        say(f"{self.prop} {self.tier}: {self.evals} executions, {distinct} distinct, {len(self.runs)} runs, {wall:.1f} s")
        if real:
            for j, key, text, single in real[:4]:
                say("  " + text[:1500])
            say(f"VIOLATION property={self.prop} replay={replay}")
            return 1
        if self.errors:
            for e in self.errors[:6]:
                say("ERROR:", e)
            return 2
        return 0

    def write_replay(self, real):
        path = os.path.join(core.EVIDENCE, "replay", f"{self.prop}.sh")
        with open(path, "w") as f:
            f.write("#!/bin/bash\n# Runs what broke the property against /repo's working tree; fails as long as it does.\n")
            for j, key, text, single in real[:4]:
                for l in text.splitlines()[:30]:
                    f.write(f"# {l[:600]}\n")
                extra = ["--miriflags", j.miriflags] if j.miriflags else []
                pre = ["--pre", shlex.join(j.pre)] if j.pre else []
                a = ["python3", os.path.join(core.VERIF, "check.py"), "--replay", j.config] + extra + pre + ["--"] + self.args(j, single)
                f.write(shlex.join(a) + " || exit 1\n")
        os.chmod(path, 0o755)
        return path


def setup():
    b = core.Builder(say)
    ts = [threading.Thread(target=lambda c=c: b.build(c)) for c in ("rel", "checked")]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    bad = [c for c, r in b.done.items() if isinstance(r, Exception)]
    say("built:", ", ".join(sorted(set(b.done) - set(bad))))
    n = pyoracle.self_test(os.path.join(core.VERIF, "driver", "blake2-kat.json"))
    say(f"offline reference passes {n} official vectors")
    return 2 if bad else 0


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        return setup()
    if len(sys.argv) > 1 and sys.argv[1] == "--replay":
        i = sys.argv.index("--")
        p = argparse.ArgumentParser()
        p.add_argument("--replay")
        p.add_argument("--miriflags", default="")
        p.add_argument("--pre", default="")
        o = p.parse_args(sys.argv[1:i])
        argv, env = core.Builder(say).command(o.replay, sys.argv[i + 1 :])
        if o.miriflags:
            env["MIRIFLAGS"] = env.get("MIRIFLAGS", "") + " " + o.miriflags
        r = execute(argv, env, 900, None, shlex.split(o.pre))
        say(r.out[-20000:])
        say(core.tail(r.err, 60))
        say("result:", r.cls)
        return 0 if r.cls == "ok" else 1
    p = argparse.ArgumentParser()
    p.add_argument("id")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    o = p.parse_args()
    try:
        return Check(o.id, o.tier, o.seed).go()
    except Unusable as e:
        say("ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
