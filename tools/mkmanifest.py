#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over schedules, stream splits and fault sequences of the real controller and the real tunnel dispatcher against a simulated host; "
ORACLE = {
    "C01": ("what the simulated host really holds, executed and printed is compared byte for byte with what the calls returned and were given", "byte-exactness and completion for the sampled contents, sizes, splits and buffer sizes"),
    "C02": ("history oracle over sessions cut at arbitrary bytes, killed or never started", "no answer, success or late effect without a complete exchange, at the sampled cut points"),
    "C03": ("every call is compared with a reference execution of the same request on the host model", "answers, errors and resynchronisation for the sampled call sequences"),
    "C04": ("effects logged by the simulated kernel are matched one to one and in order against the calls of the program", "at-most-once and order under the sampled faults and interrupts"),
    "C05": ("credentials, umask, directory, arguments and input recorded at every exec are compared with the requested context", "context of every executed command, with faults in every system call of the switch"),
    "C06": ("host state after every successful file operation is compared with a declarative model", "declared state of every successful file operation under the sampled faults"),
    "C07": ("final states of interrupted-and-rerun deploys are compared with an uninterrupted twin, then a third run must be silent", "convergence for the sampled deploys and interruption points"),
    "C08": ("mutation log of dry runs must be empty; predictions are compared with a real twin run", "no change and right prediction for the sampled deploys"),
    "C09": ("reported initial/final/changed/success compared with host snapshots around every operation", "truth of every reported result in the sampled runs"),
    "C10": ("full host difference around every operation is confined to a declared footprint", "footprint, prefix and backup rules at the sampled failure points"),
    "C11": ("process and stream state of every session when the run returns", "teardown and error survival for the sampled ways to end"),
    "C12": ("recorded history of a simulated fleet compared with the selection", "selection, order, isolation and abort for the sampled fleets and faults"),
    "C13": ("recorded script contexts compared with a stack model", "context and recursion rules for the sampled script trees"),
    "C14": ("evaluations under different hash seeds, listing orders, declaration orders and renamings compared with each other and with a reference evaluation", "order independence for the sampled inventories"),
    "C15": ("account, package, service and repository databases after every successful operation compared with a declarative model", "declared state of every successful operation under the sampled faults"),
    "C16": ("invariant on every single modification of the simulated file system", "permission bits at every instant of the sampled runs"),
    "C17": ("effective defaults of every operation and command compared with a scope model", "defaults scoping for the sampled programs"),
    "C18": ("two runs of the same schedule and faults that differ only in their output options compared event by event, and the output of every operation compared with its result", "independence of output options and truth of the report for the sampled runs"),
    "C19": ("every variable look-up and rendered file of simulated multi-host deploys compared with a reference of the documented precedence", "variables seen by scripts and templates in the sampled runs"),
}
TRUST = " Assumes the simulated kernel, tools and pipes behave like the real ones in what the property depends on (DESIGN.md lists the modelled subset); a sampled search, not a proof."
NA = {}


def main():
    checks, na = [], []
    props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    for p in props:
        if os.path.exists(os.path.join(HERE, "checks", p.lower() + ".py")):
            o, n = ORACLE[p]
            checks.append({"property": p, "quick_cmd": "python3 run.py --property %s --tier quick" % p, "thorough_cmd": "python3 run.py --property %s --tier thorough" % p,
                           "evidence_file": "evidence/%s.json" % p, "technique": TECH + o, "level": "exploration", "level_note": "Explores " + n + "." + TRUST})
        else:
            na.append({"property": p, "reason": NA.get(p, "the check is not built yet")})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
         "hooks": {"guard": "none: no hook was added to the repository; the simulator replaces existing seams (subprocess, pipes, clocks, uuid, file access, the dispatcher's os module) from outside",
                   "enable": "nothing to enable; run.py imports /repo/src and replaces the seams in its own process", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "All commands run from /verif with the interpreter in /opt/venv, rebuild nothing but import /repo/src directly. Replay: python3 run.py --replay FILE."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
