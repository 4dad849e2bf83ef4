"""dry runs that act or return something else than what would be run (C14), and harmless rewrites"""
RUN = "src/uberjob/_run.py"
RP = "src/uberjob/_execution/run_physical.py"
CA = "src/uberjob/_transformations/caching.py"
DRY = """            if dry_run:
                return plan, redirected_output_node

"""
TRANSF = """            if transform_physical:
                plan, redirected_output_node = transform_physical(
                    plan, redirected_output_node
                )

"""
WITH = """            if registry:
                plan, redirected_output_node = plan_with_value_stores(
"""
PVS = """                    plan,
                    registry,
                    output_node=output_node,
                    progress_observer=progress_observer,
                    max_workers=stale_check_max_workers,
"""
FRESH = "                    fresh_time=fresh_time,\n"
ELSE = """            else:
                prune_plan(
                    plan, required_nodes=[], output_node=output_node, inplace=True
                )
"""
STALE = "        is_stale = node in stale_nodes\n"
DEFP = "def plan_with_value_stores(\n    plan: Plan,\n    registry: Registry,\n    *,\n"
NCALL = "        read_node = nested_call(value_store.__class__.read, value_store_lit)\n"
LIT = "        value_store_lit = plan.lit(value_store)\n"


def dryflag(body):
    return [(RUN, FRESH, FRESH + "                    dry_run=dry_run,\n"), (CA, DEFP, DEFP + "    dry_run: bool = False,\n"), *body]


BUGS = [
    ("dry-before-transform", "C14", [(RUN, DRY, ""), (RUN, TRANSF, DRY + TRANSF)]),
    ("dry-output-not-redirected", "C14", [(RUN, DRY, DRY.replace("redirected_output_node", "output_node"))]),
    ("dry-all-stale", "C14", dryflag([(CA, STALE, "        is_stale = dry_run or node in stale_nodes\n")])),
    ("dry-none-stale", "C14", dryflag([(CA, STALE, "        is_stale = not dry_run and node in stale_nodes\n")])),
    ("dry-no-fresh-time", "C14", [(RUN, FRESH, "                    fresh_time=None if dry_run else fresh_time,\n")]),
    ("dry-keeps-unneeded", "C14", dryflag([(CA, "    prune_plan(\n        plan, required_nodes=required_nodes, output_node=output_node, inplace=True\n    )\n", "    if not dry_run:\n        prune_plan(\n            plan,\n            required_nodes=required_nodes,\n            output_node=output_node,\n            inplace=True,\n        )\n")])),
    ("dry-no-prune-plain", "C14", [(RUN, ELSE, ELSE.replace("            else:\n", "            elif not dry_run:\n"))]),
    ("dry-keeps-write-node", "C14", dryflag([(CA, "        if write_node:\n", "        if write_node and not dry_run:\n")])),
    ("dry-validates-by-reading", "C14", dryflag([(CA, STALE, STALE + "        if dry_run and not is_stale:\n            registry_value.value_store.read()\n")])),
    ("dry-evaluates-sources", "C14", [(RUN, DRY, DRY.replace("                return", "                for n in plan.graph.nodes():\n                    if type(n) is Call and not n.scope and plan.graph.in_degree(n) == 0:\n                        n.fn()\n                return"))]),
    ("dry-returns-only-plan", "C14", [(RUN, DRY, "            if dry_run:\n                return plan\n\n")]),
    ("dry-returns-copy-before", "C14", [(RUN, "    plan = get_mutable_plan(plan, inplace=False)\n", "    plan = get_mutable_plan(plan, inplace=False)\n    planned = plan\n"), (RUN, "            _update_run_totals(plan, progress_observer)\n", "            plan = plan.copy()\n            _update_run_totals(plan, progress_observer)\n            for u in list(planned.graph.nodes()):\n                if type(u) is not Call:\n                    planned.graph.remove_node(u)\n"), (RUN, DRY, "            if dry_run:\n                return planned, redirected_output_node\n\n")]),
    ("dry-in-run-physical", "C14", [(RUN, DRY, "            if dry_run:\n                prep_run_physical(\n                    plan, inplace=True, output_node=redirected_output_node\n                )\n                return plan, redirected_output_node\n\n"), (RUN, "import run_physical\n", "import prep_run_physical, run_physical\n")]),
    ("dry-stores-not-embedded", "C14", [(CA, LIT, "        value_store_lit = plan.lit(value_store if not dry_run else None)\n"), (CA, "registry_value: RegistryValue, *, is_stale: bool\n", "registry_value: RegistryValue, *, is_stale: bool, dry_run=False\n"), (CA, "            plan, node, registry_value, is_stale=is_stale\n", "            plan, node, registry_value, is_stale=is_stale, dry_run=dry_run\n"), (RUN, FRESH, FRESH + "                    dry_run=dry_run,\n"), (CA, DEFP, DEFP + "    dry_run: bool = False,\n")]),
    ("real-skips-reads", "C14", [(RUN, DRY, DRY + "            for u in [u for u in plan.graph.nodes() if type(u) is Call]:\n                if u is not redirected_output_node and plan.graph.out_degree(u) == 0 and plan.graph.in_degree(u) == 1:\n                    plan.graph.remove_node(u)\n")]),
    ("real-prunes-after", "C14", [(RUN, DRY, DRY + "            if output is not None:\n                prune_plan(\n                    plan,\n                    required_nodes=[],\n                    output_node=redirected_output_node,\n                    inplace=True,\n                )\n")]),
    ("real-redirects-after", "C14", [(RUN, DRY, DRY + "            redirected_output_node = output_node\n")]),
    ("dry-asks-again", "C14", [(RUN, DRY, DRY + "            if registry:\n                for value in registry.values():\n                    value.value_store.get_modified_time()\n")]),
    ("dry-transform-unredirected", "C14", [(RUN, TRANSF, TRANSF.replace("transform_physical(\n                    plan, redirected_output_node\n", "transform_physical(\n                    plan, output_node if dry_run else redirected_output_node\n"))]),
    ("dry-ignores-transform-output", "C14", [(RUN, DRY, ""), (RUN, TRANSF, "            planned = redirected_output_node\n" + TRANSF), (RUN, "            return run_physical(\n", "            if dry_run:\n                return plan, planned\n\n            return run_physical(\n")]),
]
SAME = [
    ("same-dry-variable", [(RUN, DRY, "            physical = (plan, redirected_output_node)\n            if dry_run:\n                return physical\n\n")], "C14"),
    ("same-dry-else", [(RUN, DRY, "            if dry_run is True:\n                result = (plan, redirected_output_node)\n                return result\n")], "C14"),
    ("same-dry-helper", [(RUN, "            if registry:\n                plan, redirected_output_node = plan_with_value_stores(\n                    plan,\n                    registry,\n                    output_node=output_node,\n                    progress_observer=progress_observer,\n                    max_workers=stale_check_max_workers,\n                    retry=retry,\n                    fresh_time=fresh_time,\n                    inplace=True,\n                )\n" + ELSE, "            plan, redirected_output_node = _physical(\n                plan,\n                registry,\n                output_node,\n                progress_observer,\n                stale_check_max_workers,\n                retry,\n                fresh_time,\n            )\n"), (RUN, "def _update_run_totals(", "def _physical(plan, registry, output_node, progress_observer, workers, retry, fresh_time):\n    if not registry:\n        prune_plan(plan, required_nodes=[], output_node=output_node, inplace=True)\n        return plan, output_node\n    return plan_with_value_stores(\n        plan,\n        registry,\n        output_node=output_node,\n        progress_observer=progress_observer,\n        max_workers=workers,\n        retry=retry,\n        fresh_time=fresh_time,\n        inplace=True,\n    )\n\n\ndef _update_run_totals(")], "C14"),
    ("same-dry-copy-before-engine", [(RUN, "                scheduler=scheduler,\n                inplace=True,\n", "                scheduler=scheduler,\n                inplace=False,\n")], "C14"),
    ("same-dry-workers", [(RUN, "                    max_workers=stale_check_max_workers,\n", "                    max_workers=1 if dry_run else stale_check_max_workers,\n")], "C14"),
]
