"""Sanitizers and attack programs: what decides C25 and C26."""
import json
import os
import re
import shutil
import threading
import time
from concurrent.futures import ThreadPoolExecutor

import check as C

HARNESS = C.HARNESS
TARGET = os.path.join(HARNESS, "target")
ATTACKS = os.path.join(HARNESS, "attacks")
REPO = "/repo"
TRIPLE = "x86_64-unknown-linux-gnu"

MIRI = "-Zmiri-tree-borrows -Zmiri-ignore-leaks"
# Rayon's queues turn integers into pointers.
MIRI_RAYON = MIRI + " -Zmiri-permissive-provenance -Zmiri-num-cpus=4"


def env(target, **more):
    e = dict(C.ENV)
    e["CARGO_TARGET_DIR"] = target
    e.update(more)
    return e


def fresh(target):
    if os.path.isdir(target):
        C.forget_goggles(target)


# ---------------------------------------------------------------------------------------------------------
# Attack programs
# ---------------------------------------------------------------------------------------------------------

def attacks():
    """[(property, name, source)]"""
    with open(os.path.join(ATTACKS, "attacks.rs")) as f:
        lines = f.read().splitlines()
    programs, sections, now, uses = [], {}, None, []
    for l in lines:
        if l.startswith("//# "):
            pid, name = l[4:].split(" ", 1)
            now = []
            programs.append((pid, name, now, []))
        elif l.startswith("//= "):
            now = sections.setdefault(l[4:].strip(), [])
        elif l.startswith("//+ "):
            programs[-1][3].append(l[4:].strip())
        elif now is not None:
            now.append(l)
    out = []
    for pid, name, body, uses in programs:
        text = "#![forbid(unsafe_code)]\n#![allow(warnings)]\nuse attack::*;\n"
        for u in uses:
            text += "\n".join(sections[u]) + "\n"
        out.append((pid, name, text + "\n".join(body) + "\n"))
    assert len({n for _, n, _ in out}) == len(out), "attack names are not unique"
    return out


def attack_project(pid, only=None):
    """Lay the attack programs out as a cargo project; returns its directory and {program: (name, source)}."""
    d = os.path.join(TARGET, f"attacks-{pid}")
    shutil.rmtree(os.path.join(d, "src"), ignore_errors=True)
    os.makedirs(os.path.join(d, "src", "bin"))
    shutil.copy(os.path.join(ATTACKS, "lib.rs"), os.path.join(d, "src", "lib.rs"))
    with open(os.path.join(HARNESS, "Cargo.lock")) as f:
        lock = f.read().replace('name = "gmon"', 'name = "attack"')
    with open(os.path.join(d, "Cargo.lock"), "w") as f:
        f.write(lock)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "attack"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n'
                f'[dependencies]\ngoggles = {{ path = "{REPO}" }}\n')
    progs = {}
    for n, (p, name, text) in enumerate(attacks()):
        if p != pid or (only is not None and name != only):
            continue
        b = f"a{n:03}"
        with open(os.path.join(d, "src", "bin", b + ".rs"), "w") as f:
            f.write(text)
        progs[b] = (name, text)
    return d, progs


def compile_attacks(pid, only=None):
    """{program: [] if accepted, else its [(code, message)]}, with the project's directory and the programs."""
    d, progs = attack_project(pid, only)
    t = os.path.join(TARGET, "attacks")
    fresh(t)
    rc, out, err = C.run(["cargo", "check", "--offline", "--lib", "--message-format=json"], 300, env(t), d)
    if rc != 0:
        raise C.Inconclusive("the attack programs' prelude does not build:\n" + attack_errors(out))
    rc, out, err = C.run(["cargo", "check", "--offline", "--bins", "--keep-going", "--message-format=json"], 600, env(t), d)
    errors = {b: [] for b in progs}
    done = set()
    for l in out.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        b = m.get("target", {}).get("name")
        if b not in progs:
            continue
        if m["reason"] == "compiler-artifact":
            done.add(b)
        elif m["reason"] == "compiler-message" and m["message"]["level"].startswith("error"):
            code = (m["message"].get("code") or {}).get("code")
            errors[b].append((code, m["message"]["message"]))
    lost = [b for b in progs if b not in done and not errors[b]]
    if lost:
        raise C.Inconclusive("no verdict of the compiler on: " + ", ".join(progs[b][0] for b in lost) + "\n" + err[-2000:])
    return d, progs, errors


def attack_errors(out):
    msgs = []
    for l in out.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error"):
            msgs.append(m["message"]["rendered"])
    return "\n".join(msgs)[-3000:]


def miri_env(target, flags):
    return env(target, MIRIFLAGS=flags)


def ub(err):
    """The first complaint of Miri about undefined behaviour, if there is one."""
    m = re.search(r"error: Undefined Behavior: .*", err)
    return m and err[m.start():m.start() + 2500]


def judge_attack(d, program):
    """Run an accepted program under Miri.  Returns (what it did wrong or None, what was seen)."""
    e = miri_env(os.path.join(TARGET, "attacks-miri"), MIRI_RAYON)
    try:
        rc, out, err = C.run(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", program], 200, e, d)
    except C.Inconclusive as x:
        return None, str(x)
    bad = ub(err)
    if bad:
        return bad, "undefined behaviour"
    if "AFFINITY:" in err:
        return err[err.index("AFFINITY:"):][:1500], "reached from the wrong thread"
    return None, f"harmless, ended with {rc}" + (": " + err[-300:] if rc else "")


def run_attacks(pid, res, only=None):
    t = time.time()
    d, progs, errors = compile_attacks(pid, only)
    accepted = [b for b in progs if not errors[b]]
    codes = {}
    for b in progs:
        for code in {c or "lifetime" for c, m in errors[b]}:
            codes[code] = codes.get(code, 0) + 1
    seen = {}
    if accepted:
        e = miri_env(os.path.join(TARGET, "attacks-miri"), MIRI_RAYON)
        fresh(os.path.join(TARGET, "attacks-miri"))
        C.run(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", accepted[0]], 400, e, d)
        with ThreadPoolExecutor(6) as pool:
            for b, (bad, what) in zip(accepted, pool.map(lambda b: judge_attack(d, b), accepted)):
                seen[b] = what
                name, text = progs[b]
                if bad:
                    res.violations.append({
                        "message": f"this program compiles, uses no unsafe code, and breaks the property ({name}):\n{text}\n{bad}",
                        "history": text, "replay": {"kind": "attack", "name": name}})
    res.evaluations += len(progs)
    res.distinct += len(progs)
    res.rules.append("attack programs: each uses no unsafe code and would break the property if the compiler let it; "
                     "one that is accepted is run under Miri and judged by what it does; all are distinct")
    res.observed["attack programs that the compiler refuses"] = len(progs) - len(accepted)
    res.observed["attack programs that are accepted and were run under Miri"] = len(accepted)
    for c, n in sorted(codes.items()):
        res.observed[f"attack programs refused with {c}"] = n
    if not only:
        some = sorted(progs)[SAMPLE(len(progs)):][:2]
        for b in some:
            res.samples.append(f"attack program '{progs[b][0]}': {errors[b][:2] or seen[b]}")
    for b in accepted:
        res.notes.append(f"accepted attack program '{progs[b][0]}': {seen[b][:200]}")
    C.log(f"  attacks: {len(progs)} programs, {len(accepted)} accepted, {time.time() - t:.1f} s")


def SAMPLE(n):
    return (C.SEED * 7919) % max(1, n - 2)


# ---------------------------------------------------------------------------------------------------------
# Miri
# ---------------------------------------------------------------------------------------------------------

def miri_target():
    return os.path.join(TARGET, "miri")


def miri_flags(part, seed):
    f = MIRI_RAYON if part in ("systems-rayon", "par-joins") else MIRI
    return f + f" -Zmiri-seed={seed}"


def miri_cmd(part, seed, steps):
    return ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--profile", "plain", "--bin", "mini", "--",
            part, "--seed", str(seed), "--steps", str(steps)]


def miri_build():
    fresh(miri_target())
    rc, out, err = C.run(miri_cmd("sets", 1, 1), 600, miri_env(miri_target(), miri_flags("sets", 1)))
    if rc != 0 and not ub(err):
        raise C.Inconclusive("the workload does not run under Miri:\n" + err[-3000:])


def miri_job(part, seed, steps, timeout):
    def go():
        how = {"kind": "miri", "part": part, "seed": seed, "steps": steps}
        rc, out, err = C.run(miri_cmd(part, seed, steps), timeout, miri_env(miri_target(), miri_flags(part, seed)))
        return "miri", f"mini {part} seed {seed} steps {steps}", how, rc, out, err
    return go


# ---------------------------------------------------------------------------------------------------------
# AddressSanitizer and ThreadSanitizer
# ---------------------------------------------------------------------------------------------------------

OPTIONS = {
    "asan": {"ASAN_OPTIONS": "detect_leaks=0:exitcode=77:abort_on_error=0:detect_stack_use_after_return=1"},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=0:exitcode=0:report_thread_leaks=0:report_signal_unsafe=0:second_deadlock_stack=1:memory_limit_mb=10000"},
}


def san_build(which, bins):
    t = time.time()
    target = os.path.join(TARGET, which)
    fresh(target)
    flag = {"asan": "address", "tsan": "thread"}[which]
    std = ["-Zbuild-std"] if which == "tsan" else []
    args = [a for b in bins for a in ("--bin", b)]
    rc, out, err = C.run(["cargo", "+nightly", "build", "--offline", *std, "--target", TRIPLE, "--profile", "release", *args],
                         800, env(target, RUSTFLAGS=f"-Zsanitizer={flag}"))
    if rc != 0:
        raise C.Inconclusive(f"the harness does not build for {which}:\n" + err[-3000:])
    C.log(f"  built for {which}: {time.time() - t:.1f} s")


def san_job(which, binary, args, timeout):
    def go():
        exe = os.path.join(TARGET, which, TRIPLE, "release", binary)
        how = {"kind": which, "binary": binary, "args": args}
        a = list(args)
        out_file = None
        if binary != "mini":
            out_file = os.path.join(TARGET, f"out-{which}-{os.getpid()}-{threading.get_ident()}-{time.monotonic_ns()}.json")
            a += ["--out", out_file]
        rc, out, err = C.run([exe, *a], timeout, dict(C.ENV, **OPTIONS[which]))
        if out_file and os.path.exists(out_file):
            with open(out_file) as f:
                out = f.read()
            os.remove(out_file)
        return which, f"{binary} {' '.join(args)}", how, rc, out, err
    return go


def complaint(which, pid, rc, err):
    """What in a run's output shows that the property is broken, or None."""
    if which == "miri":
        bad = ub(err)
        if bad and (pid == "C25" or "Data race" in bad.split("\n", 1)[0]):
            return bad
    if which == "tsan":
        m = re.search(r"WARNING: ThreadSanitizer: data race", err)
        if m:
            return err[m.start():m.start() + 4000]
    if which == "asan":
        m = re.search(r"ERROR: AddressSanitizer: (?!stack-overflow|out of memory|allocator|requested allocation)", err)
        if m:
            return err[m.start():m.start() + 4000]
        m = re.search(r"unsafe precondition\(s\) violated", err)
        if m:
            return err[max(0, m.start() - 300):m.start() + 1500]
    if pid == "C25" and which != "miri" and rc in (-11, -7, -4) and "stack overflow" not in err:
        return f"ended by signal {-rc}: {err[-1500:]}"
    return None


def run_jobs(pid, res, jobs, width):
    with ThreadPoolExecutor(width) as pool:
        futures = [pool.submit(j) for j in jobs]
        first = None
        for f in futures:
            try:
                which, name, how, rc, out, err = f.result()
            except C.Inconclusive as x:
                first = first or x
                continue
            take(pid, res, which, name, how, rc, out, err)
    if first and not res.violations:
        raise first


TOOL = {"miri": "Miri", "asan": "AddressSanitizer", "tsan": "ThreadSanitizer"}


def take(pid, res, which, name, how, rc, out, err):
    bad = complaint(which, pid, rc, err)
    if bad:
        res.violations.append({"message": f"[{TOOL[which]}: {name}] {bad}", "history": "", "replay": how})
        return
    if which == "miri" and pid == "C26" and ub(err):
        # Something else than a race was in the way: is there one without the aliasing rules?
        flags = miri_flags(how["part"], how["seed"]).replace("-Zmiri-tree-borrows", "-Zmiri-disable-stacked-borrows")
        rc, out, err = C.run(miri_cmd(how["part"], how["seed"], how["steps"]), 400, miri_env(miri_target(), flags))
        bad = complaint(which, pid, rc, err)
        if bad:
            res.violations.append({"message": f"[{TOOL[which]}: {name}] {bad}", "history": "", "replay": dict(how, plain=True)})
            return
    tool = TOOL[which]
    if how.get("binary", "mini") == "mini":
        try:
            d = json.loads(out.strip().splitlines()[-1])
        except (ValueError, IndexError):
            res.notes.append(f"{tool}: {name} ended with {rc} and did nothing against the property: {err[-300:]}")
            return
        res.evaluations += 1
        res.distinct += d["kinds"] >= 3
        for k in ("operations", "panics caught", "callbacks that panicked"):
            key = f"{tool}: {d['part']}: {k}"
            res.observed[key] = res.observed.get(key, 0) + d[k]
        key = f"{tool}: {d['part']}: kinds of operation in one history"
        res.maxima[key] = max(res.maxima.get(key, 0), d["kinds"])
        res.cases[f"{tool}: {d['part']}"] = res.cases.get(f"{tool}: {d['part']}", 0) + 1
        if len(res.samples) < 12:
            res.samples.append(f"{tool}: {name}: {d['operations']} operations of {d['kinds']} kinds, {d['panics caught']} panics caught")
    else:
        try:
            d = json.loads(out)
        except ValueError:
            res.notes.append(f"{tool}: {name} ended with {rc} and did nothing against the property: {err[-300:]}")
            return
        res.evaluations += d["evaluations"]
        res.distinct += d["distinct_nontrivial"]
        for k, v in d["cases_per_workload"].items():
            key = f"{tool}: {how['binary']} {k}"
            res.cases[key] = res.cases.get(key, 0) + v
        if d["violations"]:
            res.notes.append(f"{tool}: {name}: the workload's own monitor objects (to another property): {d['violations'][0]['message'][:300]}")
    if rc not in (0, 1):
        res.notes.append(f"{tool}: {name} ended with {rc}: {err[-300:]}")


RULES = {
    "miri": "histories of the safe interface with panicking callbacks, leaked guards and unusual orders of handles, interpreted by Miri; "
            "non-trivial with at least three kinds of operation, distinct by part and seed",
    "asan": "the behavioural monitors' own histories, run in an AddressSanitizer build with the library's and the standard "
            "library's assertions, with their own measures of distinct and non-trivial",
    "tsan": "the concurrent monitors' own histories, run in a ThreadSanitizer build (standard library included), "
            "with their own measures of distinct and non-trivial",
}

# (part, steps, seeds in the quick tier)
MIRI_PARTS = {
    "C25": [("storages", 300, 4), ("tracked", 60, 3), ("entities", 60, 3), ("worlds", 100, 4), ("sets", 200, 3),
            ("shared-storages", 12, 1), ("par-joins", 30, 2), ("systems-threads", 30, 1)],
    "C26": [("shared-storages", 12, 4), ("shared-sets", 40, 4), ("shared-worlds", 30, 4), ("systems-threads", 30, 3),
            ("systems-rayon", 30, 3), ("par-joins", 30, 4)],
}
ASAN_BINS = ["mini", "storage", "world", "res", "sys", "alloc"]
ASAN_RUNS = [("storage", "C07", 1), ("storage", "C08", 1), ("storage", "C09", 1), ("storage", "C10", 1), ("storage", "C11", .5),
             ("world", "C08", 1), ("world", "C09", 1), ("world", "C22", 1), ("world", "C23", 1), ("world", "C24", 1), ("world", "C27", .2),
             ("res", "C16", 2), ("res", "C17", 2), ("sys", "C09", 1), ("sys", "C21", .5), ("alloc", "C02", .5)]
TSAN_BINS = ["mini", "alloc", "storage", "join", "res", "sys", "world"]
TSAN_RUNS = [("join", "C13", .2), ("alloc", "C01", .2), ("alloc", "C04", .2), ("alloc", "C05", .2), ("storage", "C11", .2), ("world", "C27", .2),
             ("res", "C15", .5), ("sys", "C19", .5), ("sys", "C20", .3), ("sys", "C21", .5), ("world", "C24", .3)]
MINI_SAN = {
    "asan": [("storages", 2000), ("tracked", 1500), ("entities", 1000), ("worlds", 1000), ("sets", 2000), ("par-joins", 500), ("systems-threads", 500)],
    "tsan": [("shared-storages", 200), ("shared-sets", 1000), ("shared-worlds", 500), ("systems-threads", 500), ("systems-rayon", 500), ("par-joins", 500)],
}


def san_jobs(which, pid):
    deep = C.TIER == "thorough"
    jobs = []
    for binary, prop, scale in (ASAN_RUNS if which == "asan" else TSAN_RUNS):
        jobs.append(san_job(which, binary, [prop, "--tier", "quick", "--seed", str(C.SEED), "--scale", str(scale * (20 if deep else 1))],
                            3600 if deep else 400))
    for part, steps in MINI_SAN[which]:
        jobs.append(san_job(which, "mini", [part, "--seed", str(C.SEED), "--steps", str(steps), "--rounds", "200" if deep else "5"],
                            3600 if deep else 400))
    return jobs


def decide(pid, res):
    deep = C.TIER == "thorough"
    run_attacks(pid, res)
    if res.violations:
        return
    which = "asan" if pid == "C25" else "tsan"
    t = time.time()
    miri_build()
    C.log(f"  built for Miri: {time.time() - t:.1f} s")
    t = time.time()
    jobs = []
    for part, steps, seeds in MIRI_PARTS[pid]:
        for k in range(seeds * (12 if deep else 1)):
            jobs.append(miri_job(part, C.SEED * 1000 + k, steps * (3 if deep and k % 4 == 0 else 1), 3600 if deep else 400))
    res.rules.append(RULES["miri"])
    run_jobs(pid, res, jobs, 8)
    C.log(f"  Miri: {len(jobs)} runs, {time.time() - t:.1f} s")
    if res.violations:
        return
    san_build(which, ASAN_BINS if which == "asan" else TSAN_BINS)
    t = time.time()
    jobs = san_jobs(which, pid)
    res.rules.append(RULES[which])
    run_jobs(pid, res, jobs, 3)
    C.log(f"  {TOOL[which]}: {len(jobs)} runs, {time.time() - t:.1f} s")


def replay(pid, r):
    res = C.Result(pid)
    if r["kind"] == "attack":
        run_attacks(pid, res, r["name"])
    else:
        if r["kind"] == "miri":
            miri_build()
            flags = miri_flags(r["part"], r["seed"])
            if r.get("plain"):
                flags = flags.replace("-Zmiri-tree-borrows", "-Zmiri-disable-stacked-borrows")
            rc, out, err = C.run(miri_cmd(r["part"], r["seed"], r["steps"]), 3600, miri_env(miri_target(), flags))
            take(pid, res, "miri", "again", r, rc, out, err)
        else:
            san_build(r["kind"], [r["binary"]])
            run_jobs(pid, res, [san_job(r["kind"], r["binary"], r["args"], 3600)], 1)
    for v in res.violations:
        C.log(v["message"])
    return 1 if res.violations else 0
