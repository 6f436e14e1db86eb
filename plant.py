#!/usr/bin/env python3
"""Try the planted bugs of seeded/: each must apply, build, pass the tests and fail its demonstration, which
passes on the unchanged tree; then the check of its property is run against it.

    plant.py [--no-check] [--jobs N] [--also ID,ID] [BUG ...]

Works on copies of /repo and /verif under /tmp/plant, which it keeps for the next time: remove them when done.
--also names further checks to run against each bug."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, "seeded")
TMP = "/tmp/plant"


def sh(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, RUST_BACKTRACE="0", CARGO_NET_OFFLINE="true", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick", **env)
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


class Box:
    """A copy of both repositories."""

    def __init__(self, n):
        self.repo, self.verif = f"{TMP}/{n}/repo", f"{TMP}/{n}/verif"
        os.makedirs(f"{TMP}/{n}", exist_ok=True)
        if not os.path.isdir(self.repo):
            shutil.copytree("/repo", self.repo, symlinks=True)
        self.clean()
        sh(f"git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", self.repo)
        os.makedirs(self.verif, exist_ok=True)
        sh(f"tar cf - --exclude=target --exclude=seeded --exclude=.git --exclude=evidence --exclude=replays . | (cd {self.verif} && tar xf -)", HERE)
        sh(f"mkdir -p evidence replays; sed -i 's#/repo#{self.repo}#' sanit.py harness/Cargo.toml", self.verif)

    def clean(self):
        sh("git checkout -q -- .", self.repo)
        assert not sh("git status --porcelain", self.repo)[1].strip()

    def build(self):
        e = f". /opt/vp/env.sh; export CARGO_TARGET_DIR={self.repo}/target; rm -rf {self.repo}/target/debug/.fingerprint/goggles-*; set -e; "
        return sh("bash -c '" + e + "cargo test --workspace --no-run --offline; cargo build --workspace --all-targets --no-default-features --offline'", self.repo)

    def test(self):
        e = f". /opt/vp/env.sh; export CARGO_TARGET_DIR={self.repo}/target; "
        sh("bash -c '" + e + "cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > target/vp.log 2>&1; python3 /opt/vp/results.py target/o.json cargo:target/vp.log'", self.repo)
        return json.load(open(f"{self.repo}/target/o.json"))


def one(box, i, check, also):
    d = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    say = [i, meta["property"]]
    rc0, out0 = sh(f"bash {d}/demo.sh", box.repo, timeout=300)
    say.append("demo-clean=ok" if rc0 == 0 else f"DEMO FAILS ON CLEAN: {out0[-600:]}")
    rc, out = sh(f"git apply {d}/patch.diff", box.repo)
    if rc:
        print(*say, "DOES NOT APPLY", out, flush=True)
        return
    try:
        rc, out = box.build()
        say.append("build=ok" if rc == 0 else "BUILD FAILS: " + out[-800:])
        if rc == 0:
            r = box.test()
            say.append("tests=ok" if not r["failed"] and len(r["passed"]) >= 18 else f"TESTS FAIL {r['failed']} {len(r['passed'])}")
            rc1, out1 = sh(f"bash {d}/demo.sh", box.repo, timeout=300)
            say.append(f"demo={rc1}" if rc1 else "DEMO PASSES WITH THE BUG")
            for p in ([meta["property"]] if check else []) + also:
                tc = time.time()
                rc2, out2 = sh(f"python3 check.py {p}", box.verif)
                hit = rc2 == 1 and f"VIOLATION property={p} " in out2
                say.append(f"{p}:" + ("CAUGHT" if hit else f"MISSED({rc2})") + f" {time.time() - tc:.0f}s")
                lines = [l for l in out2.splitlines() if l.strip()]
                say.append(" | " + " / ".join(lines[-4:] if not hit else lines[:-1])[:260])
    finally:
        box.clean()
    print(*say, flush=True)


def main():
    args, check, jobs, also, ids = sys.argv[1:], True, 1, [], []
    while args:
        a = args.pop(0)
        if a == "--no-check":
            check = False
        elif a == "--jobs":
            jobs = int(args.pop(0))
        elif a == "--also":
            also = args.pop(0).split(",")
        else:
            ids.append(a)
    boxes = Queue()
    for n in range(jobs):
        boxes.put(Box(n))

    def go(i):
        b = boxes.get()
        try:
            one(b, i, check, also)
        except Exception as e:
            print(i, "FAILED", repr(e), flush=True)
        finally:
            boxes.put(b)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(go, ids or sorted(os.listdir(SEEDED))))


main()
