"""C03: every call gets its own answer; errors are specific and survivable."""
import os

from simfora import calls, common, faults, gen, runner, scen

PROP = "C03"
QUICK = 1800
THOROUGH = 60000
RULE = ("random sequences of connection calls with valid, invalid, untransmittable and unusable arguments, commands that read a missing input and print protocol-like bytes uncaptured, system-call errors in the "
        "remote dispatcher, failing and killed commands, and interrupts while an answer is outstanding; every outcome is compared with a reference execution on the host model. Distinct and non-trivial: "
        "distinct (call, arguments, outcome kind, fault)")
WEIGHTS = {"derrno": 6, "errno": 4, "cmdsig": 3, "cmdexit": 2, "cmdlate": 1, "cmderrno": 1, "short": 1}


def generate(rng, index, tier):
    user = "root" if rng.random() < 0.95 else "alice"
    addr, scn = calls.program(rng, n=(3, 10), user=user, odd=0.15, bad=0.2)
    r = rng.random()
    if r < 0.5:
        prof = faults.profile(scn)
        faults.sprinkle(rng, scn, prof, WEIGHTS, addr, rng.choice([1, 2, 3]), tags=faults.op_tags(prof))
    elif r < 0.65:
        prof = faults.profile(scn)
        faults.sprinkle(rng, scn, prof, {"kbd": 1}, addr, rng.choice([1, 1, 2]))

        def walk(ops):
            for o in ops:
                if "catch" in o or o["op"] == "defaults":
                    o["catch"] = "all"
                walk(o.get("body", ()))
        walk(scn["programs"]["deploy.py"])
    return scn


def judge_faulted(ev, st, login, fs, execs):
    """The outcome of a call in which an error was injected."""
    plainly = calls.judge(ev, st, login)
    exc = ev.get("exc")
    run = ev["op"].endswith(".run")
    cmd = [f for f in fs if f["k"] == "cmd" or f["who"] == "cmd" and execs and f["entry"] == execs[-1]["cmd"]]
    if run and not execs and cmd and (exc is None or calls.is_a(exc, "CalledProcessError")):
        # the process died before it became the command
        rep = exc["returncode"] if exc else ev["ret"]["returncode"]
        if rep not in [127 if f["do"] == "exit" else -f.get("sig", 9) for f in cmd]:
            return "the process died before the command was loaded, reported is %r" % (rep,)
        return "a checked command failed but no error was raised" if exc is None and ev["kw"].get("check", True) else None
    if run and execs and (exc is None or calls.is_a(exc, "CalledProcessError")):
        # the command ran: its real status and a prefix of its real output must be reported
        rc = execs[-1]["rc"]
        rep = exc["returncode"] if exc else ev["ret"]["returncode"]
        o = exc["stdout"] if exc else ev["ret"]["stdout"]
        if rep != rc:
            return "the command ended with %r, reported is %r" % (rc, rep)
        if exc is None and rc != 0 and ev["kw"].get("check", True):
            return "a checked command ended with %r but no error was raised" % rc
        if exc is not None and rc == 0:
            return "a process error was raised for a command that ended with 0"
        r = calls.run_result(ev["kw"])
        if r and r[0] != "errno" and o is not None and not r[1].startswith(o) and ev["kw"].get("capture_output", True):
            return "stdout is %s, not a prefix of %s" % (calls.short(o), calls.short(r[1]))
        return None
    if plainly is None:
        return None
    if cmd and not execs:
        cmd = []
    if exc is None:
        return "an injected error (%s) produced a wrong answer: %s" % ([(f["call"], f.get("errno")) for f in fs], plainly)
    if exc["type"] == "RemoteOSError" and exc.get("errno") in [f.get("errno") for f in fs]:
        return None
    if run and calls.is_a(exc, "ValueError") and not execs:
        return None
    return "injected %s, but the call %s" % ([(f["who"], f["call"], f.get("errno")) for f in fs], plainly)


def evaluate(scn):
    res = scen.run(scn)
    if not scen.ok(res, hang=True):
        raise scen.Inconclusive(str(res.get("unsupported") or res["exit"]))
    out, keys = [], []
    if res["exit"] in ("hang", "cpuhang"):
        if "step" in str(res.get("hang")):
            raise scen.Inconclusive("step bound")
        last = next((e for e in reversed(res["events"]) if e["op"].split(".")[0] in ("conn", "ctor")), None)
        out.append(common.v("hang", "the run does not progress: %s during %s" % (res.get("hang"), last and (last["op"], str(last["kw"])[:200]))))
    evs = calls.events(res)
    root = scn["login"] == "root"
    for ev in evs:
        exc = ev.get("exc")
        fs = [f for f in res["fired_faults"][ev["addr"]] if f["tag"] == ev["i"]]
        execs = res["execlog"][ev["addr"]][ev["m0"]["ex"]:ev["m1"]["ex"]]
        bad = None
        interrupted = any(p <= ev["m1"]["ctl"] for p in scn.get("kbd") or ())
        if exc is not None and "KeyboardInterrupt" in exc["mro"]:
            continue
        if exc is not None and calls.lost(exc):
            if not interrupted and not ev.get("odd") or not interrupted and ev["m1"].get("exited"):
                bad = "the connection was given up: %s: %s" % (exc["type"], exc["msg"][:200])
        elif interrupted and exc is not None and ev.get("odd"):
            pass
        elif not root:
            if exc is None and not ev["op"].endswith(".run"):
                bad = calls.judge(ev, ev["before"], scn["login"])
        elif fs:
            bad = judge_faulted(ev, ev["before"], scn["login"], fs, execs)
        else:
            bad = calls.judge(ev, ev["before"], scn["login"])
            if bad is None:
                bad = calls.effects(ev, ev["before"], ev["after"], execs)
        if bad is None and exc is not None and exc["type"] == "RemoteOSError":
            text = os.strerror(exc["errno"])
            if exc.get("strerror") != text:
                bad = "the remote error with errno %d is described as %r, %r" % (exc["errno"], exc.get("strerror"), exc["msg"][:200])
        if bad is not None:
            out.append(common.v("answer:%s" % ev["op"], "%s(%s): %s" % (ev["op"], str(ev["kw"])[:300], bad)))
        keys.append(common.key(ev["op"], ev["kw"], exc and exc["type"], [(f["who"], f["call"], f.get("errno")) for f in fs]))
    if res["exit"] == "exc" and not scn.get("kbd") and not out and not any(f["tag"] not in {e["i"] for e in evs} for fs in res["fired_faults"].values() for f in fs):
        # defaults blocks are not caught: only their own errors may end the run
        d = next((e for e in res["events"] if e["op"] == "defaults" and e.get("exc")), None)
        if d is None:
            out.append(common.v("session", "the run ended with %s: %s" % (res["exc"]["type"], res["exc"]["msg"][:300])))
    return {"viol": out, "evals": len(evs), "keys": keys, "sample": common.sample(scn, res, evs) if res["fired"] and evs else None}
