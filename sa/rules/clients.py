"""Client programs from which the library is analysed; upper case names are arbitrary values."""

RUN_ARGS = (
    "dry_run=DRY, max_workers=WC, max_errors=MAXE, retry=RETRY, fresh_time=FRESH, "
    "progress=PROG, scheduler=SCHED, stale_check_max_workers=SWC"
)

# no registry, the output is one call of the plan
RUN_PLAIN = f"""
import uberjob
plan = uberjob.Plan()
out = plan.call(FN)
result = uberjob.run(plan, output=out, registry=None, {RUN_ARGS})
"""

# no registry, no output
RUN_NOOUT = f"""
import uberjob
plan = uberjob.Plan()
result = uberjob.run(plan, registry=None, {RUN_ARGS})
"""

# arbitrary registry with stored nodes and sources
RUN_REG = f"""
import uberjob
plan = uberjob.Plan()
registry = uberjob.Registry()
for n in NODES:
    registry.add(n, STORE(n))
for s in SRCS:
    registry.source(plan, STORE2(s))
result = uberjob.run(plan, output=OUT, registry=registry, {RUN_ARGS})
"""

RUN_REG_OUT = f"""
import uberjob
plan = uberjob.Plan()
registry = uberjob.Registry()
out = plan.call(FN)
for n in NODES:
    registry.add(n, STORE(n))
for s in SRCS:
    registry.source(plan, STORE2(s))
result = uberjob.run(plan, output=out, registry=registry, {RUN_ARGS})
"""
