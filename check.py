#!/usr/bin/env python3
"""Run the runtime monitors that decide one property.

    check.py ID             one property, tier and seed from VERIF_TIER / VERIF_SEED
    check.py ID --thorough  as deep as it goes, whatever VERIF_TIER says
    check.py ID --replay F  run again what a replay file describes

Exit 0: held on everything explored.  Exit 1, with `VIOLATION property=ID replay=PATH`: broken.
Exit 2: no answer (the build failed, a run was cut off, nothing was observed).
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
sys.path.insert(0, HERE)
sys.modules["check"] = sys.modules[__name__]   # what sanit imports

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv else "quick"

ENV = dict(os.environ)
ENV.update(RUST_BACKTRACE="0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "MIRIFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
    ENV.pop(k, None)

FATAL = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP}


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout, env=None, cwd=HARNESS):
    """Run a command, killing its whole process group after the timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        raise Inconclusive(f"cut off after {timeout} s: {' '.join(cmd)}")


def forget_goggles(target):
    """Make cargo rebuild the crate under test whatever the time stamps say."""
    for root, dirs, _ in os.walk(target):
        if os.path.basename(root) == ".fingerprint":
            for d in list(dirs):
                if d.startswith("goggles-"):
                    shutil.rmtree(os.path.join(root, d), ignore_errors=True)
            dirs.clear()


def build(binary, profile):
    target = os.path.join(HARNESS, "target")
    if os.path.isdir(target):
        forget_goggles(target)
    rc, out, err = run(["cargo", "build", "--offline", "--profile", profile, "--bin", binary], 600)
    if rc != 0:
        sys.stderr.write(err[-4000:])
        raise Inconclusive(f"the harness does not build ({binary})")
    return os.path.join(target, profile if profile != "dev" else "debug", binary)


def tail(s, n=1500):
    return s[-n:]


class Result:
    def __init__(self, pid):
        self.pid = pid
        self.evaluations = 0
        self.distinct = 0
        self.rules = []
        self.samples = []
        self.observed = {}
        self.maxima = {}
        self.cases = {}
        self.notes = []
        self.violations = []   # dicts: message, replay (dict)
        self.findings = []     # lines
        self.assumptions = []

    def merge(self, d, how):
        self.evaluations += d["evaluations"]
        self.distinct += d["distinct_nontrivial"]
        self.rules += [r for r in d["rules"] if r not in self.rules]
        self.samples += d["samples"]
        self.notes += d["notes"]
        for k, v in d["observed"].items():
            self.observed[k] = self.observed.get(k, 0) + v
        for k, v in d["maxima"].items():
            self.maxima[k] = max(self.maxima.get(k, 0), v)
        for k, v in d["cases_per_workload"].items():
            self.cases[k] = self.cases.get(k, 0) + v
        for v in d["violations"]:
            self.violations.append({
                "message": f"[{v['workload']}:{v['case']} seed {v['seed']}] {v['message']}",
                "history": v["history"],
                "replay": dict(how, only=f"{v['workload']}:{v['case']}", seed=v["seed"]),
            })


def native(res, binary, args=(), profile="release", timeout=None, scale=1.0, build_only=False, budget=None):
    """One monitor process of the ordinary build."""
    exe = build(binary, profile)
    if build_only:
        return exe
    out = os.path.join(HARNESS, "target", f"out-{res.pid}-{os.getpid()}.json")
    if os.path.exists(out):
        os.remove(out)
    cmd = [exe, res.pid, "--tier", TIER, "--seed", str(SEED), "--out", out, "--scale", str(scale),
           "--budget", str(budget or (400 if TIER == "quick" else 5400)), *args]
    how = {"kind": "native", "binary": binary, "profile": profile, "args": list(args), "tier": TIER}
    t = time.time()
    rc, so, se = run(cmd, timeout or (700 if TIER == "quick" else 3 * 3600))
    if rc < 0:
        sig = signal.Signals(-rc)
        if sig not in FATAL:
            raise Inconclusive(f"{binary} ended by {sig.name}")
        # Which case was it?
        where, detail = "", tail(se)
        try:
            rc2, so2, se2 = run(cmd + ["--trace"], timeout or 700)
            if rc2 < 0:
                begun = [l[6:] for l in se2.splitlines() if l.startswith("BEGIN ")]
                ended = {l[4:] for l in se2.splitlines() if l.startswith("END ")}
                where = ", ".join(b for b in begun if b not in ended)
                detail = tail("\n".join(l for l in se2.splitlines() if not l.startswith(("BEGIN ", "END "))))
        except Inconclusive:
            pass
        res.violations.append({"message": f"{binary} crashed with {sig.name} in one of: {where}\n{detail}",
                               "history": "", "replay": dict(how, only=None, seed=SEED)})
        return
    if rc not in (0, 1) or not os.path.exists(out):
        sys.stderr.write(tail(se, 4000))
        raise Inconclusive(f"{binary} ended with {rc}")
    with open(out) as f:
        d = json.load(f)
    os.remove(out)
    log(f"  {binary} {' '.join(args)}: {d['evaluations']} cases, {d['distinct_nontrivial']} distinct, {time.time() - t:.1f} s")
    res.merge(d, how)


# What decides each property: (binary, arguments, profile, scale) for the ordinary build.
PLAN = {
    "C01": [("alloc", (), "release", 4), ("alloc", ("--part", "long"), "fast", 1)],
    "C02": [("alloc", (), "release", 5)],
    "C03": [("alloc", (), "release", 5)],
    "C04": [("alloc", (), "release", 4)],
    "C05": [("alloc", (), "release", 4)],
    "C06": [("alloc", (), "release", 2), ("alloc", ("--part", "long"), "fast", 1)],
    "C07": [("storage", (), "release", 8)],
    "C08": [("storage", (), "release", 8), ("world", (), "release", 8)],
    "C09": [("storage", (), "release", 6), ("sys", (), "release", 10), ("world", (), "release", 8)],
    "C10": [("storage", (), "release", 8)],
    "C11": [("storage", (), "release", 6), ("world", (), "release", 8)],
    "C12": [("join", (), "release", 3)],
    "C13": [("join", (), "release", 2)],
    "C14": [("join", (), "release", 2)],
    "C15": [("res", (), "release", 20), ("res", (), "plain", 10)],
    "C16": [("res", (), "release", 40), ("res", (), "plain", 8)],
    "C17": [("res", (), "release", 60)],
    "C18": [("res", (), "release", 25)],
    "C19": [("sys", (), "release", 20), ("world", (), "release", 4)],
    "C20": [("sys", (), "release", 12)],
    "C21": [("sys", (), "release", 14)],
    "C22": [("world", (), "release", 15), ("world", (), "plain", 10)],
    "C23": [("world", (), "release", 15), ("world", (), "plain", 10)],
    "C24": [("world", (), "release", 20)],
    "C27": [("world", (), "release", 4)],
}


def decide(pid, res):
    plan = PLAN.get(pid, [])
    for binary, args, profile, scale in plan:
        native(res, binary, args, profile, scale=scale, budget=(400 if TIER == "quick" else 7200) / len(plan))
        if res.violations:
            return
    if pid in ("C25", "C26"):
        import sanit
        sanit.decide(pid, res)


def write_evidence(res, wall):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    e = {
        "property": res.pid, "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": res.evaluations,
            "distinct_nontrivial": res.distinct,
            "rule": " | ".join(res.rules),
            "samples": res.samples[:40],
            "observed": res.observed,
            "maxima": res.maxima,
            "cases_per_workload": res.cases,
            "notes": res.notes,
        },
        "assumptions": res.assumptions + [
            "only the executions that the workloads produced were judged",
            "the operating system's scheduler chose the interleavings of threads, spread by random delays and repetition",
        ],
        "wall_s": round(wall, 2),
        "violations": len(res.violations),
    }
    with open(os.path.join(HERE, "evidence", f"{res.pid}.json"), "w") as f:
        json.dump(e, f, indent=1)


def replay(pid, path):
    with open(path) as f:
        r = json.load(f)["replay"]
    if r["kind"] != "native":
        import sanit
        return sanit.replay(pid, r)
    exe = build(r["binary"], r["profile"])
    cmd = [exe, pid, "--tier", r["tier"], "--seed", str(r["seed"]), *r["args"]]
    if r.get("only"):
        cmd += ["--only", r["only"]]
    log(" ".join(cmd))
    return subprocess.call(cmd, cwd=HARNESS, env=ENV)


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        sys.exit(replay(pid, sys.argv[3]))
    t = time.time()
    res = Result(pid)
    try:
        decide(pid, res)
        if not res.violations and (res.evaluations == 0 or res.distinct == 0):
            raise Inconclusive("nothing was observed")
    except Inconclusive as e:
        if not res.violations:
            log(f"INCONCLUSIVE property={pid}: {e}")
            sys.exit(2)
    write_evidence(res, time.time() - t)
    for line in res.findings:
        log(f"KNOWN-FINDING: property={pid} {line}")
    if res.violations:
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        for n, v in enumerate(res.violations[:5]):
            path = os.path.join(d, f"{pid}-{TIER}-{SEED}-{n}.json")
            with open(path, "w") as f:
                json.dump(dict(v, property=pid), f, indent=1)
            log(f"  {v['message'][:3000]}")
            if v.get("history"):
                log(f"  history: … {v['history'][-1500:]}")
            log(f"VIOLATION property={pid} replay={os.path.relpath(path, HERE)}")
        sys.exit(1)
    log(f"OK property={pid}: held on {res.evaluations} cases ({res.distinct} distinct, non-trivial), {time.time() - t:.0f} s")
    sys.exit(0)


if __name__ == "__main__":
    main()
