"""Build planted bugs: python3 selftest/seeder.py SPEC.py [-k ID]

SPEC.py defines SEEDS = {id: dict(prop=, edits=[(file, old, new)], needs=, breaks=, demo=python source)}.
Each is applied to a scratch copy of /repo, the stable tests and the demo are run, and the seed is written to
/verif/seeded/<id>/ only when the tests pass and the demo fails with the change and passes without it."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

OUT = "/verif/seeded"
SH = '#!/bin/sh\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$d/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def build(name, s):
    tmp = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        r = os.path.join(tmp, "repo")
        sh(f"cp -a /repo {r}")
        d = os.path.join(tmp, name)
        os.mkdir(d)
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(s["demo"].lstrip())
        clean = sh(f"timeout 120 sh {d}/demo.sh", cwd=r)
        if clean.returncode:
            return f"demo fails on the clean tree: {clean.stderr[-400:]}"
        for f, old, new in s["edits"]:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                return f"edit matches {t.count(old)} times in {f}: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", cwd=r).stdout
        # the changed lines must belong to the original repository
        bad = sh(f"timeout 120 sh {d}/demo.sh", cwd=r)
        if not bad.returncode:
            return "demo passes with the change"
        base = json.load(open("/opt/vp/BASELINE.json"))
        t = sh("cat /opt/vp/test.sh").stdout
        tests = base.get("tests") or base.get("stable") or base
        names = tests if isinstance(tests, list) else list(tests)
        env = dict(os.environ, PYTHONPATH=r + "/src")
        res = sh(f"timeout 300 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider {r}/tests 2>&1 | tail -15", cwd=r, env=env)
        failed = "failed" in res.stdout or "error" in res.stdout.lower().split("\n")[-2:][0]
        if failed or "81 passed" not in res.stdout:
            return "tests: " + res.stdout[-600:]
        o = os.path.join(OUT, name)
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(o + "/patch.diff", "w").write(diff)
        for f in ("demo.sh", "demo.py"):
            shutil.copy2(os.path.join(d, f), o)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        return None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    spec = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[3:] if len(sys.argv) > 2 and sys.argv[2] == "-k" else None
    for n, s in spec.items():
        if only and n not in only:
            continue
        e = build(n, s)
        print("OK  " if e is None else "BAD ", n, e or "")


main()
