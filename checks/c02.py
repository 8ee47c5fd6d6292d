"""C02: a lost connection is never mistaken for an answer."""
from simfora import calls, common, faults, gen, model, scen

PROP = "C02"
QUICK = 1500
THOROUGH = 60000
RULE = ("random sequences of connection calls and of operations over a transport that is cut after a random byte of either direction, a remote process killed or a host crashed at a random system call, and "
        "sessions that never start; every call in progress at or begun after the loss must raise an I/O error and every answer that is returned must be the true one. Distinct and non-trivial: distinct "
        "(call, arguments, loss point relative to the call)")
ASSUME = ["a peer that stays silent for ever without the transport noticing is not modelled as a loss",
          "calls whose last byte was already delivered when the connection was lost may succeed or fail"]
LOSS = {"cut": 8, "kill": 2, "crash": 1, "power": 1, "after": 2, "killmid": 1, "popen": 1, "nostart": 1, "mute": 1}


def generate(rng, index, tier):
    user = "root" if rng.random() < 0.95 else "alice"
    if rng.random() < 0.55:
        addr, scn = calls.program(rng, n=(2, 8), user=user)
        scn["kind"] = "calls"
    else:
        fam = rng.choice([("files",), ("files",), ("files", "acct"), ("acct",), ("pkg",), ("svc",), ("git",)])
        addr, scn = gen.deploy(rng, fam=fam, n=(1, 4), user=user, catch=0.4)
        scn["kind"] = "ops"
        scn["login"] = user
    prof = faults.profile(scn)
    faults.sprinkle(rng, scn, prof, LOSS, addr, 1)
    if rng.random() < 0.15:
        faults.sprinkle(rng, scn, prof, {"hold": 2, "clock": 1}, addr, 1)
    return scn


def ended_badly(res):
    return res["exit"] == "exc" or res["exit"] == "exit" and res["code"] not in (0, None)


def evaluate(scn):
    res = scen.run(scn)
    if not scen.ok(res, hang=True):
        raise scen.Inconclusive(str(res.get("unsupported") or res["exit"]))
    out, keys = [], []
    if res["exit"] in ("hang", "cpuhang"):
        if "step" in str(res.get("hang")):
            raise scen.Inconclusive("step bound")
        last = next((e for e in reversed(res["events"]) if e.get("kw") is not None), None)
        out.append(common.v("hang", "the loss does not surface: %s during %s" % (res.get("hang"), last and (last["op"], str(last["kw"])[:200]))))
        return {"viol": out, "evals": 1, "keys": keys, "sample": None}
    sf = scn.get("session_faults") or []
    cuts = [f for f in sf if f["do"] == "cut"] if "stream:cut" in res["fired"] else []
    noses = [f for f in sf if f["do"] in ("popen", "nostart", "mute")]
    twin = {}
    if cuts:
        t = scen.run(scn, faults=False)
        if not scen.ok(t):
            raise scen.Inconclusive("twin: %s" % (t.get("unsupported") or t["exit"]))
        twin = {e["i"]: e for e in t["events"] if e.get("m1")}
    evs = [e for e in res["events"] if e.get("m1") and not e["op"].startswith("#") and e.get("done")]
    opens = [s for s in res["sessions"]]
    if noses and any(s["index"] in [f.get("session", 0) for f in noses] for s in opens):
        if any(e["session"] in [f.get("session", 0) for f in noses] for e in evs):
            out.append(common.v("nostart", "the script ran although the session was never established"))
        if not ended_badly(res):
            out.append(common.v("nostart-exit", "the run ended with success although the session was never established"))
        keys.append(common.key("nostart", [(f["do"], f.get("hex"), f.get("rc"), f.get("errno")) for f in noses]))
    # the stream ends before the session is ready
    for s in opens:
        for f in cuts:
            if f["session"] == s["index"] and not evs and not ended_badly(res):
                out.append(common.v("open", "the run ended with success although the session broke while it was opened"))
    uncaught = False
    for ev in evs:
        if ev["op"] in ("probe", "vars", "try", "script", "raise", "setvar"):
            continue
        exc, ret = ev.get("exc"), ev.get("ret")
        addr = ev["addr"]
        op = common.is_op(ev)
        must = None
        if ev["m0"]["lost"] or ev["m0"]["exited"]:
            must = "began after the connection was lost"
        fs = [f for f in res["fired_faults"][addr] if f["tag"] == ev["i"] and f["do"] in ("kill", "crash", "power", "after", "killmid", "powermid")]
        if fs and (ev["m1"]["lost"] or ev["m1"]["exited"]):
            must = "was in progress when the remote side died (%s during %s)" % (fs[0]["do"], fs[0]["call"])
        partial = None
        w = twin.get(ev["i"])
        if w is not None and w["op"] == ev["op"]:
            for f in cuts:
                d = f["dir"]
                if f["session"] == ev["session"] and w["m0"][d] <= f["at"] < w["m1"][d] and "m1" in w:
                    must = "was cut after %d of %d bytes of its %s" % (f["at"] - w["m0"][d], w["m1"][d] - w["m0"][d], "request" if d == "req" else "answer")
                    if d == "req":
                        partial = f
        if ev["op"] == "defaults" and not ev["kw"]:
            must = None
        if ev["op"] == "defaults" and must and not (ev["m0"]["lost"] or ev["m0"]["exited"]):
            # the block as a whole: judged by the calls inside it
            must = None
        name = "%s(%s)" % (ev["op"], str(ev["kw"])[:250])
        if must:
            if op:
                if common.succeeded(ev):
                    out.append(common.v("success:%s" % ev["op"], "%s %s, but reported success" % (common.short(ev), must)))
                elif ret is None and exc is None:
                    out.append(common.v("none:%s" % ev["op"], "%s %s, but returned nothing" % (common.short(ev), must)))
            elif exc is None:
                out.append(common.v("answer:%s" % ev["op"], "%s %s, but returned %s" % (name, must, repr(ret)[:200])))
            elif not calls.lost(exc) and not (ev["op"] == "defaults" and ev.get("bad")):
                out.append(common.v("error:%s" % ev["op"], "%s %s, but raised %s: %s" % (name, must, exc["type"], exc["msg"][:200])))
            keys.append(common.key(ev["op"], ev["kw"], must))
        elif ev["op"].split(".")[0] in ("conn", "ctor"):
            if exc is None and scn["login"] == "root":
                p = calls.judge(ev, ev["before"], scn["login"])
                if p is not None:
                    out.append(common.v("wrong:%s" % ev["op"], "%s under a loss later on: %s" % (name, p)))
        elif op and common.succeeded(ev) and ev["op"].startswith("files.") and scn["login"] == "root":
            for sig, msg in model.check_success(ev, scn["files"]):
                out.append(common.v("state:%s:%s" % (ev["op"], sig), "%s reported success, but %s" % (common.short(ev), msg)))
        if partial is not None and ev["op"].split(".")[0] in ("conn", "ctor") and ev["op"].split(".")[1] in ("run", "upload"):
            ex = res["execlog"][addr][ev["m0"]["ex"]:]
            mu = res["mutlog"][addr][ev["m0"]["mut"]:]
            if ex or mu:
                out.append(common.v("partial:%s" % ev["op"], "%s reached the host only in part, but was acted upon: %s" % (name, ([x["argv"] for x in ex] or [(m["call"], m["path"]) for m in mu])[:3])))
    # a loss that nothing in the script handled ends the run with a failure
    for e in res["events"]:
        if e.get("exc") and calls.lost(e["exc"]) and e["depth"] == 0 and not e.get("caught") and not ended_badly(res):
            out.append(common.v("exit", "%s failed with %s, but the run ended with success" % (e["op"], e["exc"]["msg"][:100])))
    return {"viol": out, "evals": len(evs) + 1, "keys": keys, "sample": common.sample(scn, res, [e for e in evs if e["op"] != "defaults"]) if res["fired"] and evs else None}

