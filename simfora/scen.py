"""Scenarios: plain JSON descriptions of simulated runs, and the code that performs one run.

A scenario has: seed, policy, hosts {addr: {"spec":…, "faults":[…]}}, files (deploy directory),
programs {script: [ops]}, argv, and optional session_faults, local_faults, kbd, clock, ctlkill.
"""
import os
import shutil
import stat as _stat
import tempfile

from . import controller, gen
from .bridge import dec

on_result = None        # set by the runner to collect statistics
SCRIPT = "from simfora import bridge\nbridge.script(%r, globals())\n"


def write_tree(base, files, programs):
    for rel, val in files.items():
        p = os.path.join(base, rel)
        if rel.endswith("/"):
            os.makedirs(p, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(val, dict) and "link" in val:
            os.symlink(val["link"], p)
            continue
        data = val.encode("utf-8", "surrogateescape") if isinstance(val, str) else dec(val)
        with controller._real_open(p, "wb") as f:
            f.write(data)
    for rel in programs:
        p = os.path.join(base, rel)
        if rel.endswith(".py") and rel not in files:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with controller._real_open(p, "w", encoding="utf-8") as f:
                f.write(SCRIPT % rel)


def states(scn):
    return {a: gen.build_state(h["spec"]) for a, h in scn["hosts"].items()}


def run(scn, world=None, faults=True, dry=False, profile=False, **over):
    """Performs one simulated invocation. `world` replaces the initial host states."""
    base = tempfile.mkdtemp(prefix="simfora.")
    try:
        write_tree(base, scn.get("files", {}), scn.get("programs", {}))
        world = world or states(scn)
        argv = list(scn.get("argv", ["--no-color", "local:", "deploy.py"]))
        if dry:
            argv = ["--dry"] + argv
        inv = {"seed": scn.get("seed", 0), "policy": scn.get("policy"), "scratch": base, "argv": argv, "programs": scn.get("programs", {}),
               "snap": scn.get("snap", True), "profile": profile, "step_cap": scn.get("step_cap", 400000),
               "order_seed": scn.get("order_seed", scn.get("seed", 0)), "clock": scn.get("clock", ()) if faults else (),
               "world": {a: {"state": st.clone(), "faults": [dict(f) for f in scn["hosts"][a].get("faults", ())] if faults else [],
                             "user": scn["hosts"][a]["spec"].get("user", "root")} for a, st in world.items()}}
        if scn.get("base"):
            inv["base"] = scn["base"]
        if scn.get("cwd"):
            inv["cwd"] = os.path.join(base, scn["cwd"])
        if faults:
            for k in ("session_faults", "local_faults", "kbd", "ctlkill"):
                if scn.get(k) is not None:
                    inv[k] = scn[k]
        inv.update(over)
        res = controller.invoke(inv)
        if on_result is not None:
            on_result(res)
        return res
    finally:
        shutil.rmtree(base, ignore_errors=True)


class Inconclusive(Exception):
    """The harness could not decide this run."""


def ok(res, hang=False):
    """True if the harness can judge this run."""
    if res.get("unsupported"):
        return False
    if res["exit"] in ("harness", "wall", "unsupported"):
        return False
    if res["exit"] in ("hang", "cpuhang") and not hang:
        return False
    return True
