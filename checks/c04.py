"""C04: remote effects happen at most once and in program order."""
from simfora import calls, common, faults, gen, scen

PROP = "C04"
QUICK = 1500
THOROUGH = 60000
RULE = ("random sequences of uniquely marked commands and uploads, mixed with reads, and random deploys of operations, under failing commands and system calls, stream cuts, remote kills and crashes, "
        "controller kills and interrupts; the host's execution and modification history is compared with the program (each effect at most once, in order, not overlapping, finished when the call returns, "
        "nothing unrequested) and, for operations, with the history of the undisturbed run of which it must be a prefix. Distinct and non-trivial: distinct (call, arguments, fault kinds) that had an effect")
W = {"cut": 5, "kill": 2, "after": 2, "crash": 1, "killmid": 1, "kbd": 3, "ctlkill": 2, "errno": 3, "derrno": 4, "cmdsig": 2, "cmdexit": 2, "cmdlate": 1, "cmderrno": 1, "hold": 1, "popen": 1, "nostart": 1}
CUTS = {"cut": 5, "kill": 2, "after": 2, "crash": 1, "killmid": 1, "kbd": 3, "ctlkill": 2, "hold": 1}


def generate(rng, index, tier):
    if rng.random() < 0.7:
        addr, scn = calls.program(rng, n=(2, 8), odd=0.05)
        spec = scn["hosts"][addr]["spec"]
        n = [0]

        def mark(ops):
            for o in ops:
                n[0] += 1
                k = o["op"].split(".")[-1]
                kw = o.get("kw") or {}
                if o["op"].startswith(("conn.", "ctor.")) and rng.random() < 0.5 and k in ("stat", "resolve_user", "resolve_group", "getenv", "query_user", "query_group", "home_dir"):
                    o["op"] = o["op"].split(".")[0] + rng.choice([".run", ".upload"])
                    k = o["op"].split(".")[1]
                    o["kw"] = kw = {"file": "?", "content": {"b": "00"}} if k == "upload" else {"command": ["sim-write"], "check": rng.random() < 0.7}
                    o.pop("odd", None)
                if k == "run" and isinstance(kw.get("command"), list) and not o.get("odd"):
                    c = kw["command"]
                    if c and c[0] in ("sim-write", "sim-probe", "sim-cat", "sim-readin") or c and rng.random() < 0.5:
                        kw["command"] = ["sim-write", "/tmp/log", "id%d" % n[0]] if rng.random() < 0.6 else [c[0] if c[0] in ("sim-cat", "sim-readin") else "sim-probe", "id%d" % n[0]]
                    else:
                        kw["command"] = c + ["id%d" % n[0]]
                if k == "upload" and not o.get("odd"):
                    kw["file"] = "/tmp/up%d" % n[0]
                    kw["content"] = {"b": (b"content %d " % n[0] * rng.choice([0, 1, 1, 20])).hex()}
                if o["op"] == "defaults":
                    o["kw"].pop("as_user", None)
                    o["kw"].pop("as_group", None)
                    mark(o["body"])
        mark(scn["programs"]["deploy.py"])
        scn["kind"] = "calls"
        w = W
    else:
        fam = rng.choice([("files",), ("files",), ("files", "acct"), ("acct",), ("pkg",), ("svc",), ("git",)])
        addr, scn = gen.deploy(rng, fam=fam, n=(1, 5), catch=0.0)
        scn["kind"] = "ops"
        w = CUTS
    if rng.random() < 0.9:
        prof = faults.profile(scn)
        faults.sprinkle(rng, scn, prof, w, addr, 1 if scn["kind"] == "ops" else rng.choice([1, 1, 2]))
    if scn["kind"] == "calls" and scn.get("kbd") and rng.random() < 0.7:
        def walk(ops):
            for o in ops:
                if "catch" in o:
                    o["catch"] = "all"
                walk(o.get("body", ()))
        walk(scn["programs"]["deploy.py"])
    return scn


def judge_calls(scn, res, out, keys):
    by_id = {}
    evs = [e for e in res["events"] if e["op"].split(".")[0] in ("conn", "ctor")]
    for addr in scn["hosts"]:
        ex = res["execlog"][addr]
        mu = res["mutlog"][addr]
        mine = [e for e in evs if e["addr"] == addr]
        owner = {}
        last = -1
        prev = None
        for k, x in enumerate(ex):
            c = [e for e in mine if e["op"].endswith(".run") and e["m0"]["ex"] <= k and (e["kw"].get("command") == x["argv"])]
            if not c:
                out.append(common.v("unrequested", "the host executed %r, which no call had asked for at that time" % (x["argv"],)))
                continue
            free = [e for e in c if e["i"] not in owner.values()]
            if not free:
                out.append(common.v("twice", "the host executed %r more often than it was asked to" % (x["argv"],)))
                continue
            e = free[0]
            owner[k] = e["i"]
            if e["i"] < last:
                out.append(common.v("order", "the host executed %r after the command of a later call" % (x["argv"],)))
            last = max(last, e["i"])
            if prev is not None and (prev.get("t1") is None or prev["t1"] > x["t0"]) and not res_down(res, addr):
                out.append(common.v("overlap", "%r began before %r had ended" % (x["argv"], prev["argv"])))
            prev = x
            exc = e.get("exc")
            if e.get("done") and (exc is None or calls.is_a(exc, "CalledProcessError")):
                if k >= e["m1"]["ex"] or x.get("t1") is None or x["t1"] > e["m1"]["step"]:
                    out.append(common.v("late", "the call of %r returned before the command ran to its end" % (x["argv"],)))
                if any(m["cmd"] == x["cmd"] and m["kind"] == "command" for m in mu[e["m1"]["mut"]:]):
                    out.append(common.v("late", "%r still modified the host after its call had returned" % (x["argv"],)))
            keys.append(common.key(e["op"], e["kw"], sorted(res["fired"])))
        ran = set(owner.values())
        for e in mine:
            exc = e.get("exc")
            if not e.get("done") or e.get("odd"):
                continue
            if e["op"].endswith(".run") and (exc is None or calls.is_a(exc, "CalledProcessError")) and e["i"] not in ran:
                fs = [f for f in res["fired_faults"][addr] if f["tag"] == e["i"]]
                if not fs:
                    out.append(common.v("never", "the call of %r returned a result, but the command was never executed" % (e["kw"]["command"],)))
        cmds = {x["cmd"] for x in ex}
        ups = {e["kw"]["file"]: e for e in mine if e["op"].endswith(".upload") and isinstance(e["kw"].get("file"), str)}
        ndisp = {}
        lastup = -1
        for k, m in enumerate(mu):
            if m["kind"] == "command":
                if m["cmd"] not in cmds:
                    out.append(common.v("unrequested", "modification %s %s by an unknown command" % (m["call"], m["path"])))
                continue
            e = ups.get(m["path"])
            if e is None or k < e["m0"]["mut"]:
                out.append(common.v("unrequested", "the host was modified (%s %s) without a call asking for it" % (m["call"], m["path"])))
                continue
            if e.get("done") and e.get("exc") is None and k >= e["m1"]["mut"]:
                out.append(common.v("late", "the upload of %s was still being carried out after the call had returned" % m["path"]))
            if e["i"] < lastup:
                out.append(common.v("order", "the upload of %s was carried out after that of a later call" % m["path"]))
            lastup = max(lastup, e["i"])
            if m["call"] in ("create", "truncate"):
                ndisp[m["path"]] = ndisp.get(m["path"], 0) + 1
                if ndisp[m["path"]] > 1:
                    out.append(common.v("twice", "the upload of %s was begun %d times" % (m["path"], ndisp[m["path"]])))
            keys.append(common.key(e["op"], e["kw"], sorted(res["fired"])))
        for p, e in ups.items():
            if e.get("done") and e.get("exc") is None and not e.get("odd") and not ndisp.get(p):
                out.append(common.v("never", "the upload of %s returned, but nothing was written" % p))
    return evs


def res_down(res, addr):
    return any(f["do"] in ("crash", "power", "powermid") for f in res["fired_faults"][addr])


def squeeze(l):
    out = []
    for x in l:
        if not out or out[-1] != x:
            out.append(x)
    return out


def prefix(a, b):
    return a == b[:len(a)]


def judge_ops(scn, res, out, keys):
    t = scen.run(scn, faults=False)
    if not scen.ok(t):
        raise scen.Inconclusive("twin: %s" % (t.get("unsupported") or t["exit"]))
    for addr in scn["hosts"]:
        a = [x["argv"] for x in res["execlog"][addr]]
        b = [x["argv"] for x in t["execlog"][addr]]
        if not prefix(a, b):
            k = next(i for i in range(len(a)) if i >= len(b) or a[i] != b[i])
            out.append(common.v("history", "the interrupted run executed %r as command %d, the undisturbed run %r" % (a[k], k, b[k] if k < len(b) else None)))
        a = squeeze([(m["call"], m["path"]) for m in res["mutlog"][addr]])
        b = squeeze([(m["call"], m["path"]) for m in t["mutlog"][addr]])
        if not prefix(a, b):
            k = next(i for i in range(len(a)) if i >= len(b) or a[i] != b[i])
            out.append(common.v("history", "the interrupted run did %r as modification %d, the undisturbed run %r" % (a[k], k, b[k] if k < len(b) else None)))
        pr = None
        for x in res["execlog"][addr]:
            if pr is not None and (pr.get("t1") is None or pr["t1"] > x["t0"]) and not res_down(res, addr):
                out.append(common.v("overlap", "%r began before %r had ended" % (x["argv"], pr["argv"])))
            pr = x
    evs = common.ops(res)
    for e in evs:
        if e["m1"]["ex"] > e["m0"]["ex"] or e["m1"]["mut"] > e["m0"]["mut"]:
            keys.append(common.key(e["op"], e["kw"], sorted(res["fired"])))
    return evs


def evaluate(scn):
    res = scen.run(scn)
    if not scen.ok(res):
        raise scen.Inconclusive(str(res.get("unsupported") or res["exit"]))
    out, keys = [], []
    evs = (judge_calls if scn["kind"] == "calls" else judge_ops)(scn, res, out, keys)
    return {"viol": out, "evals": len(evs) + 1, "keys": keys, "sample": common.sample(scn, res, [e for e in evs if e.get("done")]) if res["fired"] and evs else None}
