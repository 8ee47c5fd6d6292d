"""C05: a command runs exactly in the requested context or not at all."""
from simfora import calls, common, faults, gen, scen
from simfora.bridge import dec

PROP = "C05"
QUICK = 2000
THOROUGH = 80000
RULE = ("random commands with random argument vectors, inputs and valid or invalid user, group, umask and directory, given directly or through nested defaults blocks, and operations inside such blocks, from "
        "privileged and unprivileged sessions, with errors injected into fork, set*id, chdir, exec and lookups; every process execution recorded by the simulated kernel must have exactly the requested context. "
        "Distinct and non-trivial: distinct (requested context, argument vector, faults) with a context that differs from the session's or an injected error")
SWITCH = {"fork", "exec", "setresuid", "setresgid", "setreuid", "setregid", "setuid", "setgid", "setgroups", "chdir"}
ASSUME = ["supplementary groups of the session are not part of the requested context", "name service lookups do not fail half-way"]


def generate(rng, index, tier):
    user = "root" if rng.random() < 0.85 else rng.choice(["alice", "svc"])
    if rng.random() < 0.75:
        addr, scn = calls.program(rng, n=(2, 7), user=user, ctx=0.9, bad=0.2, nest=0.45)
        spec = scn["hosts"][addr]["spec"]

        def conv(ops):
            for o in ops:
                if o["op"] == "defaults":
                    for k, v in calls.context(rng, spec, {}, p=0.45, bad=0.04).items():
                        o["kw"]["as_" + k if k in ("user", "group") else k] = v
                    o["catch"] = True
                    conv(o["body"])
                    if rng.random() < 0.3:
                        o["body"].append({"op": "conn.run", "kw": calls.context(rng, spec, {"command": ["sim-probe", "in"]}, bad=0.05), "catch": True})
                elif not o["op"].endswith(".run") and rng.random() < 0.8:
                    o["op"] = rng.choice(["conn", "conn", "ctor"]) + ".run"
                    o["kw"] = calls.context(rng, spec, calls.run_kw(rng, spec), p=0.5)
                    o.pop("odd", None)
        conv(scn["programs"]["deploy.py"])
        scn["kind"] = "calls"
    else:
        fam = rng.choice([("files",), ("files",), ("files", "acct"), ("pkg",), ("svc",), ("git",)])
        addr, scn = gen.deploy(rng, fam=fam, n=(1, 4), user=user, catch=0.7, nest=0.8, users=0.6)
        scn["kind"] = "ops"
        scn["login"] = user
    if rng.random() < 0.5:
        prof = faults.profile(scn)
        s = faults.pick_sys(rng, prof, addr, only=SWITCH | {"stat"}, tags=faults.op_tags(prof), mutating=0)
        if s is not None:
            scn["hosts"][addr]["faults"].append({"k": "sys-" + s[1], "sys": s[0], "do": "errno", "errno": rng.choice(faults.ERRNOS.get(s[1], [5]))})
        if rng.random() < 0.2:
            faults.sprinkle(rng, scn, prof, {"errno": 2, "kill": 1, "cut": 1, "kbd": 1, "cmdsig": 1}, addr, 1)
    return scn


def mismatch(x, want, login, st):
    """Compares one recorded execution with the requested (uid, gid, umask, cwd)."""
    uid, gid, m, cwd = want
    uid = login[0] if uid is None else uid
    gid = login[1] if gid is None else gid
    if tuple(x["uid"]) != (uid,) * 3:
        return "with user ids %r instead of %d" % (tuple(x["uid"]), uid)
    if tuple(x["gid"]) != (gid,) * 3:
        return "with group ids %r instead of %d" % (tuple(x["gid"]), gid)
    if x["umask"] != m:
        return "with umask %03o instead of %03o" % (x["umask"], m)
    if cwd is not None and x["cwd"] != cwd and st.get(x["cwd"], True) is not st.get(cwd, True):
        return "in %s instead of %s" % (x["cwd"], cwd)
    return None


def evaluate(scn):
    res = scen.run(scn, snap="all")
    if not scen.ok(res):
        raise scen.Inconclusive(str(res.get("unsupported") or res["exit"]))
    out, keys = [], []
    n = 0
    for addr in scn["hosts"]:
        evs = {e["i"]: e for e in res["events"] if e.get("addr") == addr and e.get("kw") is not None and e.get("before") is not None}
        st0 = scen.states(scn)[addr]
        le = st0.users[scn["login"]]
        login = (le["uid"], le["gid"])
        free = {}
        for k, x in enumerate(res["execlog"][addr]):
            # the call in progress, or the last one begun (its command may start late after an interrupt or a loss)
            c = [e for e in evs.values() if e["m0"]["ex"] <= k and (e["op"].endswith(".run") or common.is_op(e))]
            e = max(c, key=lambda e: e["i"]) if c else None
            if e is None:
                out.append(common.v("unrequested", "%r was executed before any call" % (x["argv"],)))
                continue
            n += 1
            late = [y for y in c if y.get("exc") and (calls.lost(y["exc"]) or "KeyboardInterrupt" in y["exc"]["mro"])]
            if e["op"].endswith(".run") and x["argv"] != e["kw"]["command"] and late:
                e = next((y for y in reversed(late) if y["op"].endswith(".run") and y["kw"]["command"] == x["argv"]), e)
            if e["op"].endswith(".run"):
                uid, gid, m, cwd, bad = calls.run_context(e, e["before"])
                if bad:
                    out.append(common.v("invalid", "%s(%s): executed although the requested context is invalid (as %r %r, umask %03o, in %s)" % (e["op"], str(e["kw"])[:300], x["uid"], x["gid"], x["umask"], x["cwd"])))
                    continue
                if x["argv"] != e["kw"]["command"]:
                    out.append(common.v("argv", "%s(%s): executed %r" % (e["op"], str(e["kw"])[:300], x["argv"])))
                inp = dec(e["kw"]["input"]) if e["kw"].get("input") is not None else b""
                if (x["stdin"] or b"") != inp:
                    out.append(common.v("stdin", "%s(%s): standard input was %s instead of %s" % (e["op"], str(e["kw"])[:300], x["stdin"] if isinstance(x["stdin"], str) else calls.short(x["stdin"]), calls.short(inp))))
                want = (uid, gid, m, cwd)
            else:
                f = e["eff"]
                if x["stdin"] == "inherited":
                    out.append(common.v("stdin", "%s ran %r on the session's own input" % (e["op"], x["argv"])))
                want = (e["before"].users[f["as_user"]]["uid"], e["before"].groups[f["as_group"]]["gid"], int(f["umask"], 8), f["cwd"])
            bad = mismatch(x, want, login, e["before"])
            if bad and common.is_op(e) and any(common.is_op(y) and not mismatch(x, (y["before"].users[y["eff"]["as_user"]]["uid"], y["before"].groups[y["eff"]["as_group"]]["gid"],
                                                                                    int(y["eff"]["umask"], 8), y["eff"]["cwd"]), login, y["before"]) for y in late):
                bad = None
            if bad:
                out.append(common.v("context:%s" % e["op"].split(".")[0], "%s(%s) under %s executed %r %s" % (e["op"], str(e["kw"])[:250], {k: v for k, v in (e["eff"] or {}).items() if k in ("as_user", "as_group", "umask", "cwd")},
                                                                                                        x["argv"][:6], bad)))
            if want[:2] != login or want[2] != 0o077 or res["fired"]:
                keys.append(common.key(want, e["op"], x["argv"], sorted(res["fired"])))
        for e in evs.values():
            if not e["op"].endswith(".run") or not e.get("done"):
                continue
            n += 1
            exc = e.get("exc")
            uid, gid, m, cwd, bad = calls.run_context(e, e["before"])
            fs = [f for f in res["fired_faults"][addr] if f["tag"] == e["i"]]
            sw = [f for f in fs if f["do"] == "errno" and f["call"] in SWITCH and f["k"] != "cmd"]
            ran = e["m1"]["ex"] - e["m0"]["ex"]
            raised = exc is not None and not calls.is_a(exc, "CalledProcessError")
            if ran > 1:
                out.append(common.v("many", "%s(%s): executed %d times" % (e["op"], str(e["kw"])[:300], ran)))
            if bad and not raised:
                out.append(common.v("noraise", "%s(%s): the requested context is invalid, but the call returned %s" % (e["op"], str(e["kw"])[:300], repr(e.get("ret"))[:100])))
            if sw and not raised:
                out.append(common.v("noraise", "%s(%s): %s failed while the context was set up, but the call returned %s" % (e["op"], str(e["kw"])[:300], sw[0]["call"], repr(e.get("ret") or exc)[:100])))
            if sw and ran:
                out.append(common.v("switch", "%s(%s): executed although %s failed" % (e["op"], str(e["kw"])[:300], sw[0]["call"])))
            if not fs and not raised and ran == 0 and not e.get("odd"):
                out.append(common.v("notrun", "%s(%s): returned %s, but nothing was executed" % (e["op"], str(e["kw"])[:300], repr(e.get("ret"))[:100])))
            if scn["login"] == "root" and not res["fired"] and not bad:
                p = calls.judge(e, e["before"], "root")
                if p is not None and raised:
                    out.append(common.v("refused", "%s(%s): %s" % (e["op"], str(e["kw"])[:300], p)))
                if calls.expect(e, e["before"], "root")[0] == "raise" and ran:
                    out.append(common.v("unreachable", "%s(%s): executed although the requested user cannot enter the directory" % (e["op"], str(e["kw"])[:300])))
            if bad or sw:
                keys.append(common.key(e["kw"], e["eff"], [f["call"] for f in sw]))
    return {"viol": out, "evals": n + 1, "keys": keys, "sample": common.sample(scn, res, [e for e in res["events"] if e.get("done") and (e["op"].endswith(".run") or common.is_op(e))]) if keys else None}
