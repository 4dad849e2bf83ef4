#!/usr/bin/env python3
"""Self-test of the rules: source edits (kept in memory, never written to /repo) that must raise an alarm
for a property, and behaviour-preserving edits that must stay quiet.

python3 selftest/run.py [-p C01,C02] [-k name] [--kind bugs|same]
"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import argparse
import importlib
import multiprocessing
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
REPO = "/repo"


def overlay(edits):
    out = {}
    for path, old, new in edits:
        src = out.get(path)
        if src is None:
            src = open(os.path.join(REPO, path)).read()
        if src.count(old) < 1:
            raise SystemExit(f"edit does not apply: {path}: {old!r}")
        out[path] = src.replace(old, new, 1)
    for p, s in out.items():
        compile(s, p, "exec")
    return out


def one(job):
    name, prop, ov, tier = job
    res = []

    def work():
        from sa.rules.base import AnchorError, Check

        t = time.time()
        ck = Check(prop, tier, overlay=ov)
        err = ""
        try:
            importlib.import_module("sa.rules." + prop.lower()).run(ck)
        except AnchorError as e:
            err = "anchor: " + str(e)
        except Exception:
            err = traceback.format_exc().strip().splitlines()[-1] + " " + traceback.format_exc().strip().splitlines()[-3]
        bad = {}
        for r, w, ok, d in ck.obs:
            if ok is False:
                bad.setdefault(r, (w, d))
        res.append((name, prop, bad, err, sum(o[2] is None for o in ck.obs), len(ck.obs), time.time() - t))

    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=work)
    th.start()
    th.join()
    return res[0] if res else (name, prop, {}, "no result", 0, 0, 0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-p", default="")
    ap.add_argument("-k", default="")
    ap.add_argument("--kind", default="bugs,same")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    import glob

    BUGS, SAME = [], []
    for f in sorted(glob.glob(os.path.join(HERE, "cases*.py"))):
        m = importlib.import_module(os.path.basename(f)[:-3])
        BUGS += m.BUGS
        SAME += m.SAME

    props = [p for p in a.p.upper().split(",") if p] or [
        f[:-3].upper() for f in sorted(os.listdir(os.path.join(HERE, "..", "sa", "rules"))) if len(f) == 6 and f.startswith("c") and f[1:3].isdigit()
    ]
    jobs = []
    if "bugs" in a.kind:
        for name, want, edits in BUGS:
            if a.k not in name:
                continue
            ps = [p for p in want.split(",") if p in props]
            if ps:
                ov = overlay(edits)
                jobs += [("bug:" + name, p, ov, a.tier) for p in ps]
    if "same" in a.kind:
        for name, edits, *only in SAME:
            if a.k not in name:
                continue
            ov = overlay(edits)
            jobs += [("same:" + name, p, ov, a.tier) for p in props if not only or p in only[0].split(",")]
    miss = 0
    with multiprocessing.Pool(a.j, maxtasksperchild=1) as pool:
        for name, prop, bad, err, und, n, dt in pool.imap_unordered(one, jobs, chunksize=1):
            isbug = name.startswith("bug:")
            good = bool(bad) if isbug else not bad and not err
            if not good:
                miss += 1
            if a.v or not good:
                print(("ok  " if good else "MISS" if isbug else "ALARM"), prop, name, f"{und}/{n} und {dt:.0f}s", err[:200])
                for r, (w, d) in list(bad.items())[: 3 if isbug else 8]:
                    print("      ", r, "@", w, "|", d[:250])
    print(f"{len(jobs)} jobs, {miss} unexpected")


if __name__ == "__main__":
    main()
