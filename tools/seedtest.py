"""
Confirms planted bugs and runs checks against them, one at a time, on /repo.

  seedtest.py confirm ID...      patch applies, builds, tests pass, demo flips
  seedtest.py check ID... [-- CHECK...]  runs the property's check (or CHECKs)

/repo is restored after each.
"""

import json
import pathlib
import subprocess
import sys
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def restore():
    sh("git -C /repo checkout -- .")


def build():
    r = sh("bash /opt/vp/build.sh")
    return r.returncode == 0, r.stdout[-1500:] + r.stderr[-1500:]


def demo(d):
    t = time.time()
    r = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
    return r.returncode, time.time() - t, (r.stdout + r.stderr)[-500:]


def confirm(bid):
    d = VERIF / "seeded" / bid
    ok, out = build()
    assert ok, out
    rc, t, out = demo(d)
    if rc != 0:
        return f"demo fails on the unchanged tree: {out}"
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode:
        return "does not apply: " + r.stderr
    try:
        ok, out = build()
        if not ok:
            return "does not build: " + out
        sh("bash /opt/vp/test.sh /tmp/seed_out.json")
        res = json.load(open("/tmp/seed_out.json"))
        lost = BASE - set(res["passed"])
        if lost:
            return f"tests catch it ({len(lost)}): {sorted(lost)[:3]}"
        rc, t, out = demo(d)
        if rc == 0:
            return "demo passes with the patch"
        return f"CONFIRMED demo rc={rc} ({t:.1f}s) {out.strip()[-150:]!r}"
    finally:
        restore()


def check(bid, checks):
    d = VERIF / "seeded" / bid
    prop = json.load(open(d / "meta.json"))["property"]
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode:
        return "does not apply: " + r.stderr
    out = []
    try:
        for c in checks or [prop]:
            r = sh(f"./run.py {c} --tier quick", cwd=str(VERIF),
                   timeout=1200)
            lines = r.stdout.strip().splitlines()
            out.append(f"{c}: rc={r.returncode} " +
                       (" | ".join(lines[1:2]) if r.returncode else "QUIET")[:160])
    finally:
        restore()
    return "\n   ".join(out)


if __name__ == "__main__":
    mode, *args = sys.argv[1:]
    checks = []
    if "--" in args:
        i = args.index("--")
        args, checks = args[:i], args[i + 1:]
    if not args:
        args = sorted(p.name for p in (VERIF / "seeded").iterdir())
    if sh("git -C /repo status --short").stdout.strip():
        sys.exit("/repo is not clean")
    for bid in args:
        res = confirm(bid) if mode == "confirm" else check(bid, checks)
        print(bid, res, flush=True)
    if mode == "confirm":
        build()
