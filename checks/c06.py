"""C06: a file operation that reports success left the declared state."""
from simfora import common, faults, gen, model, scen

PROP = "C06"
QUICK = 3600
THOROUGH = 60000
RULE = ("random deploys of file operations (with defaults blocks, nested scripts, odd names, existing objects of every type) on a simulated host, 75% of them with "
        "injected faults; every operation that reported success is compared with the declared state. Distinct and non-trivial: distinct (operation, arguments, "
        "previous object, fault) with a successful result that changed the host or ran under an injected fault")

WEIGHTS = {"errno": 6, "derrno": 3, "cmdsig": 4, "cmderrno": 2, "cmdexit": 3, "cmdlate": 1, "short": 2, "killmid": 1, "kill": 1, "cut": 2, "local": 3, "clock": 1}


def generate(rng, index, tier):
    user = "root" if rng.random() < 0.9 else "alice"
    addr, scn = gen.deploy(rng, fam=("files",), n=(1, 4), user=user, catch=0.5)
    if rng.random() < 0.75:
        prof = faults.profile(scn)
        faults.sprinkle(rng, scn, prof, WEIGHTS, addr, rng.choice([1, 1, 2]))
    return scn


def evaluate(scn):
    res = scen.run(scn)
    if not scen.ok(res):
        raise scen.Inconclusive(str(res.get("unsupported") or res["exit"]))
    out, keys = [], []
    evs = common.ops(res)
    for ev in evs:
        if not ev["op"].startswith("files.") or not common.succeeded(ev):
            continue
        for sig, msg in model.check_success(ev, scn["files"]):
            kn = None
            if sig == "mode-sgid" and any(model.sgid_finding(ev, scn, i.path, ev["after"]) for i in model.items(ev, scn["files"])):
                kn = "sgid-unprivileged"
            out.append(common.v("state:%s:%s" % (ev["op"], sig), "%s reported success, but %s" % (common.short(ev), msg), known=kn))
        if ev["ret"]["changed"] or res["fired"]:
            keys.append(common.key(ev["op"], ev["kw"], ev["eff"], sorted(res["fired"])))
    return {"viol": out, "evals": len(evs), "keys": keys, "sample": common.sample(scn, res) if res["fired"] else None}


def _demo_sgid():
    spec = {"user": "alice", "users": gen.BASE_USERS, "groups": gen.BASE_GROUPS, "env": {}, "tools": [],
            "tree": [["/tmp", "dir", 0o1777, 0, 0, None], ["/work", "dir", 0o755, 1000, 1000, None], ["/work/f", "file", 0o400, 1000, 10, {"b": ""}]]}
    return {"seed": 1, "policy": None, "hosts": {"web1": {"spec": spec, "faults": []}}, "files": {}, "argv": ["--no-color", "ssh://alice@web1", "deploy.py"],
            "programs": {"deploy.py": [{"op": "files.file", "kw": {"path": "/work/f", "mode": "2755", "group": "wheel"}}]}}


KNOWN_DEMOS = {"sgid-unprivileged": _demo_sgid}
