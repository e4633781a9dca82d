#!/usr/bin/env python3
"""Driver of the checks: builds the monitors against /repo's working tree, runs them under their
limits, folds their verdicts into one, and writes the evidence.

  check.py C01 [quick|thorough]     run a check (tier also from VERIF_TIER)
  check.py replay FILE              run again the cases recorded by a violation
  check.py setup                    check that the tools are there

Exit: 0 held on everything observed, 1 violated (VIOLATION line), 2 inconclusive."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
HOST = "x86_64-unknown-linux-gnu"
CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP, signal.SIGSYS}

from checks import CHECKS  # noqa: E402


class Inconclusive(Exception):
    pass


class BuildBroken(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def base_env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


FLAVOURS = {
    # name: (toolchain, cargo args, RUSTFLAGS, directory under the target directory)
    "dev": (None, [], "", "debug"),
    "release": (None, ["--release"], "", "release"),
    "asan": ("+nightly", ["--target", HOST], "-Zsanitizer=address -Cdebug-assertions=on", f"{HOST}/debug"),
    "tsan": ("+nightly", ["-Zbuild-std", "--target", HOST], "-Zsanitizer=thread", f"{HOST}/debug"),
    "msan": ("+nightly", ["-Zbuild-std", "--target", HOST], "-Zsanitizer=memory", f"{HOST}/debug"),
}


def target_dir(crate, flavour, features):
    tag = "" if features is None else "-" + ("_".join(features) or "none")
    return os.path.join(crate, "target", flavour + tag)


def build(crate, flavour, bins, features=None, jobs=None, target=None, locked=True):
    """Builds `bins`; returns the directory of the executables."""
    tc, args, flags, sub = FLAVOURS[flavour]
    tgt = target or target_dir(crate, flavour, features)
    cmd = ["cargo"] + ([tc] if tc else []) + ["build", "--offline"] + (["--locked"] if locked else []) + ["--manifest-path", os.path.join(crate, "Cargo.toml"), "--target-dir", tgt] + args
    if features is not None:
        cmd += ["--no-default-features", "--features", ",".join(features)]
    for b in bins:
        cmd += ["--bin", b]
    if jobs:
        cmd += ["-j", str(jobs)]
    e = base_env()
    if flags:
        e["RUSTFLAGS"] = flags
    t = time.time()
    p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        raise BuildBroken(p.stdout[-6000:])
    log(f"[{time.time() - t:5.1f}s] built {','.join(bins)} ({flavour}{'' if features is None else ' ' + '+'.join(features)})")
    return os.path.join(tgt, sub)


def miri(crate, binary, features, args, env=None):
    """The command that runs `binary` in the interpreter, and its environment."""
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--quiet", "--manifest-path", os.path.join(crate, "Cargo.toml"),
           "--target-dir", os.path.join(crate, "target", "miri"), "--no-default-features", "--features", ",".join(features), "--bin", binary, "--"] + args
    e = {"MIRIFLAGS": "-Zmiri-permissive-provenance -Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows", **(env or {})}
    return cmd, e


def together(*fs):
    """Runs functions at the same time; the first error wins."""
    out, errs = [None] * len(fs), []

    def one(i, f):
        try:
            out[i] = f()
        except Exception as ex:  # noqa: BLE001
            errs.append(ex)

    ts = [threading.Thread(target=one, args=x) for x in enumerate(fs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return out


class Job:
    """One monitored run and what came of it."""

    def __init__(self, name, cmd, env=None, timeout=400, out=None, cwd=None, report=None):
        self.name, self.cmd, self.env, self.timeout, self.out, self.cwd = name, cmd, env or {}, timeout, out, cwd
        self.report = report  # finds the sanitizer's report in what the run printed
        self.result = None
        self.fails = []
        self.inconclusive = None

    def run(self, work):
        os.makedirs(work, exist_ok=True)
        self.out = self.out or os.path.join(work, "out.json")
        e = base_env()
        e.update(self.env)
        t = time.time()
        errp = os.path.join(work, "stderr")
        with open(errp, "w") as err:
            p = subprocess.Popen(self.cmd, env=e, cwd=self.cwd or work, stdout=err, stderr=err, start_new_session=True)
            try:
                rc = p.wait(self.timeout)
            except subprocess.TimeoutExpired:
                rc = None
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        self.wall = time.time() - t
        with open(errp, errors="replace") as f:
            text = f.read()
        if os.path.exists(self.out):
            try:
                self.result = json.load(open(self.out))
            except ValueError:
                self.result = None
        case = self.heartbeat()
        report = self.report and self.report(text)
        if report:
            self.fails.append({"kind": "sanitizer", "case": case, "detail": report[:6000]})
        if rc is None:
            self.inconclusive = f"{self.name}: still running after {self.timeout} s at {case}"
        elif rc in (0, 3) and self.result is not None:
            self.fails += self.result["fails"]
        elif report:
            pass
        elif rc < 0 and -rc in CRASH:
            name = signal.Signals(-rc).name
            self.fails.append({"kind": "crash", "case": case, "detail": f"{self.name}: killed by {name}\n{text[-3000:]}"})
        else:
            self.inconclusive = f"{self.name}: exit {rc} at {case}\n{text[-2000:]}"
        log(f"[{self.wall:5.1f}s] {self.name}: rc={rc} evaluations={self.result and self.result['evaluations']} fails={len(self.fails)}")
        return self

    def heartbeat(self):
        best = ""
        d = os.path.dirname(self.out)
        newest = 0
        for f in os.listdir(d):
            if f.startswith(os.path.basename(self.out)) and f.endswith(".hb"):
                q = os.path.join(d, f)
                if os.path.getmtime(q) >= newest:
                    newest = os.path.getmtime(q)
                    best = open(q).read().strip().replace("\n", " ")
        return best


def sanitizer_report(text):
    """The first report of a sanitizer or of Miri in `text` that is not about the work-stealing
    queue's own, intentional races (both accesses inside crossbeam, before any frame of the code
    under test or of rayon): ThreadSanitizer does not model the fences that order those."""
    m = re.search(r"==\d+==\s*ERROR: \S*Sanitizer|WARNING: MemorySanitizer|Sanitizer:DEADLYSIGNAL|error: Undefined Behavior|Undefined Behavior:|error: abnormal termination|error: the evaluated program deadlocked", text)
    if m:
        return text[max(0, m.start() - 200):]
    for r in text.split("==================")[1:]:
        if "WARNING: ThreadSanitizer" not in r:
            continue
        if "data race" not in r.split("WARNING: ThreadSanitizer", 1)[1].split("\n")[0]:
            return r
        stacks, cur = [], None
        for line in r.splitlines():
            if re.match(r"\s+#\d+ ", line):
                if cur is not None:
                    cur.append(line)
            elif line.strip():
                cur = None
                if re.match(r"\s+(Previous )?(atomic )?(read|write) of size ", line, re.I):
                    cur = []
                    stacks.append(cur)

        def internal(frames):
            for f in frames:
                if "/crossbeam" in f:
                    return True
                if "/repo/" in f or "/rayon" in f:
                    return False
            return False

        if len(stacks) < 2 or not all(internal(x) for x in stacks):
            return r
    return None


def known_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
            if m:
                out[m[2]] = (m[1], m[3].strip())
    return out


def run_jobs(jobs, work, width):
    """Runs jobs, at most `width` at a time."""
    sem = threading.Semaphore(width)
    errs = []

    def one(i, j):
        with sem:
            try:
                j.run(os.path.join(work, f"job{i}"))
            except Exception as ex:  # noqa: BLE001
                errs.append(ex)

    ts = [threading.Thread(target=one, args=(i, j)) for i, j in enumerate(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]


class Ctx:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.extra_fails = []
        self.extra_counts = {}
        self.thorough = tier == "thorough"

    build = staticmethod(build)
    target_dir = staticmethod(target_dir)
    miri = staticmethod(miri)
    together = staticmethod(together)
    sanitizer_report = staticmethod(sanitizer_report)
    BuildBroken = BuildBroken
    Job = Job
    HARNESS, VERIF, REPO, HOST = HARNESS, VERIF, REPO, HOST

    def job(self, exe, name=None, args=(), seed=None, **kw):
        n = name or os.path.basename(exe if isinstance(exe, str) else exe[0])
        self._n = getattr(self, "_n", 0) + 1
        w = os.path.join(self.work, f"w{self._n}")
        os.makedirs(w, exist_ok=True)
        out = os.path.join(w, "out.json")
        exe = exe if isinstance(exe, list) else [exe]
        cmd = list(kw.pop("prefix", [])) + exe + ["--seed", str(self.seed if seed is None else seed), "--tier", self.tier, "--out", out, "--work", os.path.join(w, "scratch")] + [str(a) for a in args]
        kw.setdefault("timeout", 860 if not self.thorough else 3000)
        return Job(n, cmd, out=out, **kw)

    def run(self, jobs, width=1):
        run_jobs(jobs, self.work, width)
        return jobs


def decide(prop, tier, seed):
    spec = CHECKS[prop]
    t0 = time.time()
    work = os.path.join(VERIF, ".work", f"{prop}-{os.getpid()}")
    os.makedirs(work)
    os.makedirs(EVID, exist_ok=True)
    ctx = Ctx(prop, tier, seed, work)
    try:
        try:
            jobs = spec["run"](ctx)
        except BuildBroken as ex:
            print(f"inconclusive: the monitors do not build against /repo\n{ex}")
            return 2
        known_list = known_findings()
        fails = list(ctx.extra_fails)
        counts, known, samples = dict(ctx.extra_counts), {}, []
        evaluations = distinct = 0
        inconclusive = []
        per_job = {}
        for j in jobs:
            fails += [dict(f, job=j.name, cmd=j.cmd) for f in j.fails]
            if j.inconclusive:
                inconclusive.append(j.inconclusive)
            r = j.result
            if not r:
                continue
            evaluations += r["evaluations"]
            distinct += r["distinct"]
            per_job[j.name] = {"evaluations": r["evaluations"], "distinct": r["distinct"], "wall_s": round(j.wall, 1)}
            for k, v in r["counts"].items():
                counts[k] = max(counts.get(k, 0), v) if k.startswith("max_") else counts.get(k, 0) + v
            for k, (n, what) in r["known"].items():
                c = known.setdefault(k, [0, what])
                c[0] += n
            samples += r["samples"]
        for k, (n, what) in known.items():
            if k not in known_list:
                fails.append({"kind": k, "case": "", "detail": what})
        if evaluations == 0 and not fails and not inconclusive:
            inconclusive.append("nothing was observed")
        if not fails and not inconclusive:
            for k in spec.get("must", []):
                if not counts.get(k):
                    inconclusive.append(f"the workload never produced `{k}`")
        cov = {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": spec["rule"],
            "samples": samples[:: max(1, len(samples) // 8)][:8],
            "observed": counts,
            "jobs": per_job,
            "known_findings_hit": {k: v[0] for k, v in known.items()},
        }
        ev = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": spec["level"],
            "coverage": cov,
            "assumptions": spec["assumptions"],
            "wall_s": round(time.time() - t0, 1),
            "violations": len(fails),
        }
        if inconclusive:
            ev["coverage"]["inconclusive"] = [i[:1000] for i in inconclusive]
        with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, (n, what) in sorted(known.items()):
            if k in known_list and known_list[k][0] == prop:
                print(f"KNOWN-FINDING: property={prop} {k}: {known_list[k][1]} ({n} times here)")
        if fails:
            rp = os.path.join(EVID, f"{prop}.replay.json")
            with open(rp, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, "fails": fails[:20]}, f, indent=1)
            for f in fails[:5]:
                print(f"  [{f['kind']}] {f['case']} :: {f['detail'][:700]}")
            print(f"VIOLATION property={prop} replay={rp}")
            return 1
        if inconclusive:
            for i in inconclusive:
                print(f"inconclusive: {i}")
            return 2
        print(f"{prop} held: {evaluations} evaluations, {distinct} distinct, {ev['wall_s']} s")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    """Runs the recorded command again, narrowed to the failing case where the monitor can."""
    r = json.load(open(path))
    os.makedirs(os.path.join(VERIF, ".work"), exist_ok=True)
    spec = CHECKS[r["property"]]
    for f in r["fails"][:3]:
        print(f"[{f['kind']}] {f['case']}\n{f['detail'][:2000]}\n")
    m = re.findall(r"(seed|type|n)=(\"[^\"]*\"|.+?)(?= (?:seed|type|n)=|$)", r["fails"][0]["case"])
    narrow = [x for k, v in m for x in (f"--{k}", v)]
    if spec.get("bin"):
        d = build(HARNESS, "dev", [spec["bin"]])
        sys.exit(subprocess.call([os.path.join(d, spec["bin"]), "--work", os.path.join(VERIF, ".work", "replay"), "--tier", r["tier"]] + narrow))
    sys.exit(decide(r["property"], r["tier"], r["seed"]))


def main():
    a = sys.argv[1:]
    if a and a[0] == "setup":
        for c in (["cargo", "--version"], ["cargo", "+nightly", "--version"], ["cargo", "+nightly", "miri", "--version"]):
            subprocess.run(c, check=True, env=base_env())
        return 0
    if a and a[0] == "replay":
        return replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return decide(a[0], tier, seed)


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    sys.exit(main())
