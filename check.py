#!/usr/bin/env python3
"""python3 check.py <property> [--tier quick|thorough]: decide one property from the source of /repo.

exit 0: no rule of the property is violated; exit 1: VIOLATION line; exit 2: no verdict.
"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

import argparse
import collections
import importlib
import json
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sa.rules.base import AnchorError, Check  # noqa: E402


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    for line in open(path) if os.path.exists(path) else ():
        line = line.strip()
        if line.startswith("finding: ") and f"property={prop} " in line:
            d = dict(p.split("=", 1) for p in line.split("|")[1:] if "=" in p)
            out.append((d.get("rule"), d.get("construct"), line))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.property.upper()
    t = time.time()
    ck = Check(prop, a.tier)
    mod = importlib.import_module("sa.rules." + prop.lower())
    fatal = None
    try:
        mod.run(ck)
    except AnchorError as e:
        fatal = f"anchor not found: {e}"
    except Exception:
        fatal = "analysis failed: " + traceback.format_exc()
    wall = time.time() - t
    bad = [o for o in ck.obs if o[2] is False]
    und = [o for o in ck.obs if o[2] is None]
    good = [o for o in ck.obs if o[2] is True]
    known = known_findings(prop)
    new, listed = [], []
    for o in bad:
        k = next((k for k in known if k[0] == o[0] and (k[1] or "") in o[1]), None)
        (listed if k else new).append(o)
    rules = collections.defaultdict(lambda: [0, 0, 0])
    for r, _, ok, _ in ck.obs:
        rules[r][0 if ok is True else 1 if ok is None else 2] += 1
    cov = {
        "explanation": mod.__doc__.strip()
        + " Counts below are measured on this run: an obligation is one rule applied to one construct "
        "(function, call site, path family); 'undecided' obligations are those the analysis could neither discharge nor refute.",
        "obligations": len(ck.obs),
        "discharged": len(good),
        "undecided": len(und),
        "violated": len(bad),
        "rules": {k: {"discharged": v[0], "undecided": v[1], "violated": v[2]} for k, v in sorted(rules.items())},
        "clients": ck.clients,
        "events": ck.stats["events"],
        "functions_analysed": len(ck.fns),
        "functions": sorted(ck.fns),
        "constructs": len({o[1] for o in ck.obs}),
        "undecided_list": sorted({f"{o[0]} @ {o[1]}: {o[3][:200]}" for o in und})[:40],
        "notes": sorted(set(ck.unknown))[:40],
        "incomplete": ck.incomplete,
        "samples": [{"rule": o[0], "construct": o[1], "detail": o[3][:300]} for o in (bad + good)[:12]],
    }
    ev = {
        "property": prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": cov,
        "wall_s": round(wall, 2),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        f"{prop}: {len(ck.obs)} obligations, {len(good)} discharged, {len(und)} undecided, {len(bad)} violated; "
        f"{len(ck.fns)} functions, {ck.stats['events']} events, {wall:.1f}s"
    )
    if a.v:
        for k, v in cov["rules"].items():
            print("  ", k, v)
    seen = set()
    for o in und:
        if a.v and o[:2] not in seen:
            seen.add(o[:2])
            print("  undecided", o[0], "@", o[1], "-", o[3][:300])
    for o in listed:
        print(f"KNOWN-FINDING: property={prop} {o[0]} at {o[1]}: {o[3][:300]}")
    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", prop + ".json")
        seen, out = set(), []
        for o in new:
            if o[:2] not in seen:
                seen.add(o[:2])
                out.append({"rule": o[0], "construct": o[1], "detail": o[3]})
        with open(path, "w") as f:
            json.dump({"property": prop, "violations": out}, f, indent=1)
        for v in out[:12]:
            print(f"  {v['rule']} violated at {v['construct']}: {v['detail'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if ck.incomplete:
        print("  incomplete:", *ck.incomplete, sep="\n    ")
    if fatal:
        print("  " + fatal)
    if fatal and not good:
        return 2
    if not ck.obs:
        print("  nothing was decided")
        return 2
    return 0


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    th = threading.Thread(target=lambda: rc.append(main()))
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
