#!/usr/bin/env python3
"""run.py --property C06 [--tier quick|thorough] [--runs N] [--seed S] | --replay FILE"""
import argparse
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--worker")
    a = ap.parse_args()
    if os.environ.get("PYTHONHASHSEED") != "0" or os.path.realpath(sys.executable) != os.path.realpath(PY) or sys.prefix != os.path.dirname(os.path.dirname(PY)):
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", NO_COLOR="1", LC_ALL="C.UTF-8", TZ="UTC", COLUMNS="100")
        env.pop("PYTHONPATH", None)
        py = PY if os.path.exists(PY) else sys.executable
        if os.environ.get("SIMFORA_REEXEC") != "1":
            env["SIMFORA_REEXEC"] = "1"
            os.execve(py, [py, os.path.join(HERE, "run.py")] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    from simfora import runner
    if a.worker:
        return runner.worker_main(a.worker)
    if a.replay:
        return runner.replay(os.path.abspath(a.replay))
    return runner.check(a.property, a.tier, a.seed, a.runs, a.cap, a.jobs)


if __name__ == "__main__":
    sys.exit(main())
