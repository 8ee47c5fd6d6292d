"""C11: a session is always torn down, and the first error survives."""
from simfora import calls, common, faults, gen, scen

PROP = "C11"
QUICK = 3000
THOROUGH = 60000
RULE = ("random deploys that end normally, by script errors, exits and interrupts, over sessions that never start, are cut, whose remote process is killed or whose host crashes at any point including opening and "
        "closing, with large answers in flight and small buffers; after the run every started process must have ended and been reaped, both streams closed, no host connected, and the reported error be the "
        "one that ended the deploy. Distinct and non-trivial: distinct (way of ending, fault, position)")
ASSUME = ["an interrupt that strikes while a finished deploy's session is being closed may leave the process to the operating system", "a transport that stalls for ever is not modelled"]


def generate(rng, index, tier):
    user = "root" if rng.random() < 0.95 else "alice"
    big = rng.random() < 0.1
    if rng.random() < 0.75:
        addr, scn = calls.program(rng, n=(1, 2) if big else (1, 5), user=user, big=big, odd=0.05)
        if big:
            scn["policy"]["cap"] = rng.choice([4096, 65536])
        prog = scn["programs"]["deploy.py"]
        for o in prog:
            if rng.random() < 0.3:
                o["catch"] = False
    else:
        addr, scn = gen.deploy(rng, fam=rng.choice([("files",), ("acct",), ("git",)]), n=(1, 3), user=user, catch=0.3)
        prog = scn["programs"]["deploy.py"]
    if rng.random() < 0.35:
        prog.insert(rng.randint(0, len(prog)), {"op": "raise", "exc": rng.choice(["error", "value", "interrupt", "exit", "os", "runtime"]), "code": rng.choice([0, 3])})
    if rng.random() < 0.15:
        prog.insert(rng.randint(0, len(prog)), {"op": "script", "path": "missing.py"})
    if rng.random() < 0.8:
        prof = faults.profile(scn)
        n = rng.choice([1, 1, 2])
        faults.sprinkle(rng, scn, prof, {"cut": 5, "kill": 3, "after": 1, "crash": 1, "kbd": 6, "popen": 1, "nostart": 2, "mute": 2, "derrno": 2, "hold": 1}, addr, n)
        if rng.random() < 0.3 and prof["events"]:
            # while the session is opened or closed
            s = prof["sessions"][0]
            ev = [e for e in prof["events"] if e.get("m0")]
            d = rng.choice(["req", "resp"])
            total = s[d][0]
            first = ev[0]["m0"][d] if ev else 0
            last = ev[-1].get("m1", ev[-1]["m0"])[d] if ev else total
            at = rng.randint(0, first) if rng.random() < 0.6 else rng.randint(last, max(last, total))
            scn.setdefault("session_faults", []).append({"k": "stream", "do": "cut", "session": 0, "dir": d, "at": at})
    return scn


def evaluate(scn):
    res = scen.run(scn)
    if not scen.ok(res, hang=True):
        raise scen.Inconclusive(str(res.get("unsupported") or res["exit"]))
    out, keys = [], []
    evs = [e for e in res["events"] if not e["op"].startswith("#")]
    what = "%s %s" % (res["exit"], (res.get("exc") or {}).get("type") or res.get("code"))
    if res["exit"] in ("hang", "cpuhang"):
        if "step" in str(res.get("hang")):
            raise scen.Inconclusive("step bound")
        out.append(common.v("hang", "the run never ends: %s after %s" % (res.get("hang"), evs[-1]["op"] if evs else "start")))
        return {"viol": out, "evals": 1, "keys": keys, "sample": None}
    top = [e for e in evs if e["depth"] == 0]
    last = top[-1] if top else None
    prog = scn["programs"]["deploy.py"]
    ended = last is not None and last.get("done") and (len(top) == len(prog) or last.get("exc") and not last.get("caught"))
    closing = scn.get("kbd") and ended and any(p > last["m1"]["ctl"] for p in scn["kbd"] if last.get("m1") and p <= res["ctl_points"])
    if scn.get("kbd") and not evs and len(res["fired"]) > 1:
        closing = True          # the interrupt may have struck after another error had ended the deploy
    for s in res["at_return"]:
        who = "session %d to %s" % (s["index"], s["addr"])
        if "req" not in s or closing:
            continue
        if not s["exited"]:
            out.append(common.v("running", "the run returned (%s) while the process of %s was still running" % (what, who)))
        elif not s["reaped"]:
            out.append(common.v("zombie", "the run returned (%s) without reaping the process of %s" % (what, who)))
        if s["req"][3] or s["resp"][3]:
            out.append(common.v("stream", "the run returned (%s) with the %s stream of %s open" % (what, "request" if s["req"][3] else "answer", who)))
    if not closing and any(res["host_connections"].values()):
        out.append(common.v("connection", "the run returned (%s), but the host still has an active connection" % what))
    if res.get("settled") is not None:
        for s in res["sessions"]:
            if s["proc_alive"] and not closing:
                out.append(common.v("remote", "the remote process of session %d to %s never ends (%s)" % (s["index"], s["addr"], what)))
    # the error that ended the deploy
    if ended and not closing:
        if last.get("exc") and not last.get("caught"):
            x = last["exc"]
            if x["type"] == "SystemExit":
                if not (res["exit"] == "exit" and res["code"] == x.get("code")):
                    out.append(common.v("error", "the script ended with exit status %r, the run with %s" % (x.get("code"), what)))
            elif res["exit"] == "return" or res["exit"] == "exit" and res["code"] in (0, None):
                out.append(common.v("error", "the deploy ended with %s: %s, but the run reports success" % (x["type"], x["msg"][:100])))
            elif res["exit"] == "exc" and (res["exc"]["type"], res["exc"]["msg"]) != (x["type"], x["msg"]):
                out.append(common.v("error", "the deploy ended with %s: %s, the run reports %s: %s" % (x["type"], x["msg"][:100], res["exc"]["type"], res["exc"]["msg"][:100])))
        elif not (res["exit"] == "return" or res["exit"] == "exit" and res["code"] in (0, None)):
            out.append(common.v("error", "the deploy was completed, but the run reports %s: %s" % (what, (res.get("exc") or {}).get("msg", "")[:200])))
    elif not ended and res["exit"] == "return":
        out.append(common.v("error", "the deploy was not completed, but the run reports success"))
    if res["fired"] or ended and last.get("exc"):
        keys.append(common.key(what, sorted(res["fired"]), len(evs), [(f.get("dir"), f.get("at")) for f in scn.get("session_faults") or ()], scn.get("kbd")))
    return {"viol": out, "evals": len(res["at_return"]) + 2, "keys": keys,
            "sample": {"seed": scn["seed"], "faults": common.faults_of(scn), "events": [(e["op"], e["exc"]["type"] if e.get("exc") else "ok") for e in evs][:8], "outcome": what} if res["fired"] else None}
