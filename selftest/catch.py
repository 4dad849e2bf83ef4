"""Run the checks against the planted bugs: for each /verif/seeded/<id>, apply
patch.diff to a scratch copy and analyse it with the property's rule module.

    python3 selftest/catch.py [-k substr] [-v] [--all]   (--all: every claimed property)
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))
sys.path.insert(0, str(VERIF / "selftest"))
import run as selfrun  # noqa: E402


def overlay_of(d):
    tmp = tempfile.mkdtemp(prefix="catch-")
    try:
        subprocess.run(["cp", "-a", "/repo/src", tmp + "/src"], check=True)
        r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory", tmp,
                            str(d / "patch.diff")], cwd="/", capture_output=True, text=True)
        if r.returncode:
            r = subprocess.run(["patch", "-p1", "-s", "-i", str(d / "patch.diff")],
                               cwd=tmp, capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError(r.stderr + r.stdout)
        ov = {}
        for f in Path(tmp, "src").rglob("*.py"):
            rel = str(f.relative_to(tmp))
            t = f.read_text()
            o = Path("/repo", rel)
            if not o.exists() or o.read_text() != t:
                ov[rel] = t
        return ov
    finally:
        shutil.rmtree(tmp)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-k", default="")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--all", action="store_true")
    a = ap.parse_args()
    claimed = [c["property"] for c in json.loads((VERIF / "MANIFEST.json").read_text())["checks"]]
    jobs = []
    for d in sorted((VERIF / "seeded").iterdir()):
        if a.k not in d.name:
            continue
        meta = json.loads((d / "meta.json").read_text())
        ov = overlay_of(d)
        props = claimed if a.all else [meta["property"]]
        for p in props:
            if p in claimed:
                jobs.append((d.name, p, ov, meta["property"]))
            elif not a.all:
                print(f"{d.name:32} {p} not claimed")
    t0 = time.time()
    import multiprocessing

    owner = {n: own for n, _, _, own in jobs}
    missed = 0
    out = []
    with multiprocessing.Pool(int(os.environ.get("J", "8")), maxtasksperchild=1) as pool:
        for n, p, bad, err, und, tot, dt in pool.imap_unordered(
            selfrun.one, [(n, p, ov, "quick") for n, p, ov, _ in jobs], chunksize=1
        ):
            out.append((n, p, bad, err, dt))
    for n, p, bad, err, dt in sorted(out, key=lambda o: o[:2]):
        if not bad and p == owner[n]:
            missed += 1
        if p == owner[n] or bad or err:
            print(f"{n:32} {p} {'caught' if bad else 'MISSED'} {dt:.0f}s {','.join(list(bad)[:3])[:80]} {err[:200]}")
        if a.v:
            for r, (w, d) in list(bad.items())[:3]:
                print("      ", r, "@", w, "|", d[:250])
    print(f"{len(out)} jobs, {missed} missed, {time.time()-t0:.0f} s")


if __name__ == "__main__":
    main()
