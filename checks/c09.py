"""C09: reported changes are the truth."""
from simfora import common, faults, gen, model, scen

PROP = "C09"
QUICK = 3000
THOROUGH = 60000
RULE = ("random deploys of all operation families (files, accounts, packages, services, repositories), half of them with injected faults, some dry; the reported "
        "initial/final/changed/success of every operation is compared with host snapshots taken immediately before and after it and with the log of modifications. "
        "Distinct and non-trivial: distinct (operation, arguments, reported initial and final state, faults) ")
WEIGHTS = {"errno": 5, "derrno": 2, "cmdsig": 3, "cmderrno": 2, "cmdexit": 3, "cmdlate": 2, "short": 1, "cut": 1, "local": 1, "kill": 1, "clock": 1}


def generate(rng, index, tier):
    fam = rng.choice([("files",), ("files",), ("files",), ("acct",), ("acct", "files"), ("pkg",), ("svc",), ("git",), ("pkg", "svc", "git", "acct", "files")])
    user = "root" if rng.random() < 0.93 else "alice"
    dry = rng.random() < 0.12
    addr, scn = gen.deploy(rng, fam=fam, n=(1, 4), user=user, catch=0.6, argv=["--dry"] if dry else [])
    if rng.random() < 0.25:
        # hosts without any package or service manager
        scn["hosts"][addr]["spec"]["tools"] = [t for t in scn["hosts"][addr]["spec"]["tools"] if t == "git"]
    for ops in scn["programs"].values():
        for op in ops:
            if "kw" in op and common.is_op(op) and rng.random() < 0.3:
                op["kw"]["check"] = False
    if rng.random() < 0.45:
        prof = faults.profile(scn)
        faults.sprinkle(rng, scn, prof, WEIGHTS, addr, rng.choice([1, 1, 2]))
    return scn


def differs(initial, final):
    """Whether a declared value differs (None declares nothing, unless the object is to be absent)."""
    for k, v in final.items():
        if isinstance(v, dict) and isinstance(initial.get(k), dict):
            if differs(initial[k], v):
                return True
        elif (v is not None or final.get("exists") is False) and initial.get(k) != v:
            return True
    return False


def judge_event(scn, ev, res, dry, out):
    mod, _, k = ev["op"].partition(".")
    kw = ev["kw"]
    r = ev.get("ret")
    quiet = not res["fired"]
    root = scn["hosts"][ev["addr"]]["spec"]["user"] == "root" and ev["eff"]["as_user"] == "root"
    bad = lambda sig, msg, **a: out.append(common.v("%s:%s" % (sig, ev["op"]), "%s: %s" % (common.short(ev), msg), **a))
    if r is None:
        if kw.get("check", True) is False and quiet and root and model.detected_failure(ev, scn["files"]):
            bad("raised", "declared with check=False, but a failure the operation detects was raised: %r" % ev["exc"]["type"])
        return
    if r["type"] != "boolbool":
        bad("type", "success and changed are not booleans")
    if not r["success"]:
        if r["changed"]:
            bad("failed-changed", "a failed result claims a change")
        if kw.get("check", True):
            bad("failed-returned", "a failed result was returned although check=True")
        return
    muts = res["mutlog"][ev["addr"]][ev["m0"]["mut"]:ev["m1"]["mut"]]
    if quiet and root and model.detected_failure(ev, scn["files"]):
        bad("success", "reported success although the operation cannot be performed")
    if r["changed"] != (r["initial"] != r["final"]):
        bad("changed", "changed=%r, initial=%r, final=%r" % (r["changed"], r["initial"], r["final"]))
    elif r["changed"] and not differs(r["initial"], r["final"]):
        bad("changed-nothing", "reported as changed, but every declared value was already in force: initial=%r, final=%r" % (r["initial"], r["final"]))
    if not r["changed"] and muts:
        bad("unchanged-modified", "reported unchanged but modified the host: %s" % [(m["call"], m["path"]) for m in muts[:4]])
    if dry and muts:
        bad("dry-modified", "modified the host in a dry run: %s" % [(m["call"], m["path"]) for m in muts[:4]])
    for key, a, b in model.compare(r["initial"], model.observed(ev, ev["before"], scn["files"]), False):
        bad("initial", "initial[%s] is reported as %r but was %r" % (key, a, b))
    if dry:
        return
    real = model.observed(ev, ev["after"], scn["files"], ev["before"])
    fin = dict(r["final"])
    if k == "service" and fin.get("state") in ("restarted", "reloaded"):
        which = fin.pop("state")
        db0, db = (ev["before"].user_services, ev["after"].user_services) if kw.get("user_mode") else (ev["before"].services, ev["after"].services)
        u = model.unit(kw["service"])
        cnt = "restarts" if which == "restarted" else "reloads"
        if u not in db or db[u].get(cnt, 0) <= db0[u].get(cnt, 0):
            bad("final", "final state %s, but the unit was not %s" % (which, which))
    for key, a, b in model.compare(fin, real, True):
        kn = None
        if key.endswith("mode") and a is not None and b is not None and int(b, 8) == int(a, 8) & ~0o2000:
            if any(model.sgid_finding(ev, scn, i.path, ev["after"]) for i in model.items(ev, scn["files"]) or ()):
                kn = "sgid-unprivileged"
        if ev["op"] == "git.repo" and key == "commit" and model.other_branch(ev):
            kn = "git-other-branch"
        if k == "service" and key == "enabled" and a is True:
            db = ev["after"].user_services if kw.get("user_mode") else ev["after"].services
            if db[model.unit(kw["service"])]["enabled"] == "static":
                kn = "static-unit"
        bad("final", "final[%s] is reported as %r but is %r" % (key, a, b), known=kn)
    if fin.get("touched") is True:
        p = model.real(ev["after"], kw["path"])
        if not any(m["call"] in ("utime", "create", "mkdir", "symlink", "rename") and m["path"] in (p, kw["path"]) for m in muts):
            bad("touched", "reported as touched, but the timestamps were not updated")


def evaluate(scn):
    res = scen.run(scn)
    if not scen.ok(res):
        raise scen.Inconclusive(str(res.get("unsupported") or res["exit"]))
    out, keys = [], []
    dry = "--dry" in scn["argv"]
    evs = common.ops(res)
    for ev in evs:
        judge_event(scn, ev, res, dry, out)
        r = ev.get("ret")
        keys.append(common.key(ev["op"], ev["kw"], r and r["initial"], r and r["final"], sorted(res["fired"])))
        if common.dead_at(ev):
            break
    return {"viol": out, "evals": len(evs), "keys": keys, "sample": common.sample(scn, res) if len(evs) > 1 else None}


def _demo_branch():
    import random
    spec = gen.host_spec(random.Random(1))
    gen.git_world(random.Random(3), spec)
    return {"seed": 1, "policy": None, "hosts": {"local": {"spec": spec, "faults": []}}, "files": {}, "programs": {"deploy.py": [
        {"op": "git.repo", "kw": {"url": "https://git.example/app.git", "path": "/var/clone", "branch_or_tag": "dev"}},
        {"op": "git.repo", "kw": {"url": "https://git.example/app.git", "path": "/var/clone", "branch_or_tag": "main"}}]}, "argv": ["--no-color", "local:", "deploy.py"]}


def _demo_sgid():
    from . import c06
    return c06._demo_sgid()


def _demo_static():
    import random
    spec = gen.host_spec(random.Random(1))
    spec["tools"] = ["systemctl"]
    spec["services"] = {"nginx.service": {"active": "active", "enabled": "static"}}
    return {"seed": 1, "policy": None, "hosts": {"local": {"spec": spec, "faults": []}}, "files": {}, "argv": ["--no-color", "local:", "deploy.py"],
            "programs": {"deploy.py": [{"op": "systemd.service", "kw": {"service": "nginx", "enabled": True}}]}}


KNOWN_DEMOS = {"static-unit": _demo_static, "sgid-unprivileged": _demo_sgid, "git-other-branch": _demo_branch}
