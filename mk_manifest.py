"""Writes MANIFEST.json (run by hand after adding a rule module)."""
import json
TECH = "abstract interpretation of the source (path-sensitive may/must event graph) + dominance/effect rules"
NOTE = ("Static: /repo/src/uberjob is re-parsed on every run and abstractly interpreted from an "
        "abstract client; the rules decide over every path of the resulting event graph. "
        "Only positively violated obligations raise an alarm; undecided ones are listed in the evidence. "
        "Trusted: the models of the standard library, networkx and the interpreter itself.")
CLAIMED = {
    "C01": "book-keeping of the scheduler as dataflow: who may enqueue, under which count, after which event",
    "C04": "pruning seeds/closure, exactly-once release and queue multiset algebra",
    "C06": "failure path dominance, first-error content, exception identity",
    "C07": "cycle test dominance, termination obligations of waits, shutdown and join on all exits",
    "C11": "typestate of target and staging file over all failure paths",
    "C12": "symbolic matching of encoder and decoder of each store",
    "C03": "decision table of the staleness check (missed side), case table of the read/write insertion, removal preserves order",
    "C05": "decision table of the staleness check in both directions, insertion case table, pruning closure",
    "C08": "staleness table, write ordering edges, failure dominance, file store typestate",
    "C09": "case table of the edges and redirects created around stored nodes",
    "C13": "ownership analysis: heap reachable from the caller's plan and registry against every store of run, dry_run and render",
    "C16": "ownership: reachability of result slots in the abstract heap, must-release on all paths of an item",
    "C17": "interrupt edges at every statement of the main thread, protocol obligations on all paths behind them",
    "C18": "kind inference for datetimes from stores and fresh_time to every comparison of the staleness check",
    "C14": "effect comparison of the dry run with the real run (graph surgery, queries, output), silence of the dry run over all paths",
    "C15": "protocol rules over the event graph of run with recording observers: bracket, totals before workers, pairing, scope and amount agreement",
    "C02": "shape analysis of the gathered structures over all nestings, argument order and slot dataflow from edge keys to the call",
    "C19": "interpretation of frame inspection over call sites of every nesting depth, dataflow of the frames to the failing call",
    "C20": "abstract interpretation of the displays over symbolic clocks and opaque scope values for a catalogue of notification histories and render points: exception-path reachability, dataflow of final counts into the last output, affine accounting of elapsed time, lock discipline",
    "C10": "dataflow of limits to thread counts/comparisons, attempt counting on retry paths",
}
import os
TODO = {}
for l in open("properties.jsonl"):
    p = json.loads(l)["id"]
    if p not in CLAIMED:
        TODO[p] = "no static rule of sufficient precision has been built for this property (yet)"
from known_na import NA  # reasons for the properties that stay unclaimed
m = {"version": 1, "setup_cmd": "python3 -m compileall -q check.py sa",
     "checks": [{"property": p, "quick_cmd": f"python3 check.py {p} --tier quick",
                 "thorough_cmd": f"python3 check.py {p} --tier thorough",
                 "technique": f"static analysis: {TECH}; {t}", "level": "other",
                 "level_note": NOTE} for p, t in sorted(CLAIMED.items())],
     "not_applicable": [{"property": p, "reason": NA.get(p, r)} for p, r in sorted(TODO.items())]}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
