#!/usr/bin/env python3
"""One seed is one execution: performs the first scenarios of every check in separate, concurrent processes (with
different scratch directories and pids) and compares everything that was recorded about every run. The hash seed
is a decision of the simulator like any other (run.py pins it, C14 varies it per worker), so it is the same here.

usage: determinism.py [scenarios per check] [property ...]"""
import hashlib
import json
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def canon(x):
    if isinstance(x, dict):
        return sorted((repr(k), canon(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(repr(canon(v)) for v in x)
    if isinstance(x, bytes):
        return hashlib.sha256(x).hexdigest()
    if hasattr(x, "snapshot") and hasattr(x, "fs"):
        return canon(x.snapshot())
    if x is None or isinstance(x, (int, float, str, bool)):
        return x
    return canon({k: v for k, v in vars(x).items() if not k.startswith("_")}) if hasattr(x, "__dict__") and type(x).__module__.startswith("simfora") else type(x).__name__


def child(prop, n):
    sys.path.insert(0, HERE)
    os.environ["COLUMNS"] = "80"
    from simfora import controller, runner, scen
    controller.boot()
    mod = runner.module(prop)
    for i in range(n):
        got = []
        scen.on_result = got.append
        scn = runner.make(mod, prop, 7, i, "quick")
        try:
            out = mod.evaluate(scn) if scn is not None else None
        except scen.Inconclusive as e:
            out = {"inconclusive": str(e)}
        rec = []
        for r in got:
            r = {k: v for k, v in r.items() if k not in ("hook",)}
            t = re.sub(r"simfora\.[A-Za-z0-9_]{8}", "simfora.X", json.dumps(canon(r), default=str, sort_keys=True))
            rec.append(hashlib.sha256(re.sub(r"0x[0-9a-f]{6,}", "0xX", t).encode()).hexdigest()[:16])
        print(json.dumps([i, rec, [r["exit"] for r in got], sorted(str(v.get("sig")) for v in (out or {}).get("viol", ()))]))
        sys.stdout.flush()


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 10
    props = sys.argv[2:] or [c["property_id"] if "property_id" in c else c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    bad = total = 0
    for p in props:
        outs = []
        procs = [subprocess.Popen([PY, os.path.abspath(__file__), "--child", p, str(n)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL,
                                  text=True, env=dict(os.environ, PYTHONHASHSEED=h, PYTHONDONTWRITEBYTECODE="1", NO_COLOR="1", LC_ALL="C.UTF-8", TZ="UTC", COLUMNS="100")) for h in ("0", "0", "0")]
        outs = [q.communicate()[0].splitlines() for q in procs]
        runs = sum(len(json.loads(x)[1]) for x in outs[0])
        diff = [i for i in range(n) if len({o[i] if i < len(o) else None for o in outs}) != 1 or i >= len(outs[0])]
        total += runs
        bad += len(diff)
        print("%s: %d scenarios, %d runs, %s" % (p, n, runs, "identical in 3 processes" if not diff else "DIFFER: %s" % diff[:10]))
    print("%d runs executed three times, %d scenarios differ" % (total, bad))
    return 1 if bad else 0


if __name__ == "__main__":
    if sys.argv[1:2] == ["--child"]:
        child(sys.argv[2], int(sys.argv[3]))
    else:
        sys.exit(main())
