"""C08: a dry run changes nothing and predicts the real run."""
from simfora import common, faults, gen, model, runner, scen

PROP = "C08"
QUICK = 2600
THOROUGH = 50000
RULE = ("random deploys of every operation family with random output options, first as dry run (40% with faults: errors, killed or failing commands, cut streams, interrupts), then as real run from "
        "the same host state. The dry run must leave the log of modifications empty; every operation that ran on the unmodified host in both runs must have reported the same. "
        "Distinct and non-trivial: distinct (operation, arguments, reported states) of a pair in which the real operation changed something, and distinct faulted dry runs")
WEIGHTS = {"errno": 4, "derrno": 2, "cmdsig": 3, "cmderrno": 2, "cmdexit": 4, "cmdlate": 2, "cut": 2, "kill": 1, "local": 2, "kbd": 1, "clock": 1}


def generate(rng, index, tier):
    fam = rng.choice([("files",), ("files",), ("files",), ("acct",), ("acct",), ("pkg",), ("svc",), ("git",), ("acct", "files", "pkg", "svc", "git")])
    user = "root" if rng.random() < 0.93 else "alice"
    addr, scn = gen.deploy(rng, fam=fam, n=rng.choice([(1, 1), (1, 2), (2, 4)]), user=user, catch=0.7)
    spec = scn["hosts"][addr]["spec"]
    for db in ("services", "user_services"):
        for e in spec[db].values():
            if e["enabled"] == "static":
                e["enabled"] = "disabled"
    if rng.random() < 0.08:
        spec["tools"] = []
    if rng.random() < 0.4:
        prof = faults.profile(scn, argv=["--dry"] + scn["argv"])
        faults.sprinkle(rng, scn, prof, WEIGHTS, addr, rng.choice([1, 1, 2]))
        scn["faulty"] = True
    return scn


def evaluate(scn):
    out, keys = [], []
    init = scen.states(scn)
    dry = scen.run(scn, dry=True)
    if not scen.ok(dry):
        raise scen.Inconclusive(str(dry.get("unsupported") or dry["exit"]))
    for a in scn["hosts"]:
        muts = dry["mutlog"][a]
        d = model.diff(init[a], dry["world"][a])
        if muts or d:
            m = muts[0] if muts else {"call": d[0][0], "path": d[0][1], "tag": None}
            ev = next((e for e in dry["events"] if e["i"] == m["tag"]), None)
            out.append(common.v("modified:%s" % (ev["op"] if ev else "session"), "a dry run modified the host: %s %r%s" % (m["call"], m["path"], " by " + common.short(ev) if ev and ev.get("done") else "")))
    n = 1
    if scn.get("faulty"):
        keys.append(common.key("faulty", scn["programs"], sorted(dry["fired"])))
        return {"viol": out, "evals": n, "keys": keys, "sample": common.sample(scn, dry)}
    real = scen.run(scn, faults=False)
    if not scen.ok(real):
        raise scen.Inconclusive(str(real.get("unsupported") or real["exit"]))
    root = next(iter(scn["hosts"].values()))["spec"]["user"] == "root"
    de, re_ = common.ops(dry), common.ops(real)
    for a, b in zip(de, re_):
        if (a["op"], a["kw"]) != (b["op"], b["kw"]) or a["eff"] != b["eff"]:
            break                        # the real run took another way (it failed where a dry run cannot)
        if b["m0"]["mut"]:
            continue                     # depends on earlier changes
        n += 1
        runner.STATS.count("pairs")
        ra, rb = a.get("ret"), b.get("ret")
        if common.succeeded(b):
            if not common.succeeded(a):
                out.append(common.v("outcome:%s" % a["op"], "dry run: %s; real run from the same state: %s" % (common.short(a), common.short(b))))
                continue
            for k in ("changed", "initial", "final"):
                if ra[k] != rb[k]:
                    out.append(common.v("predict:%s:%s" % (a["op"], k), "%s: the dry run reports %s=%r, the real run from the same state %r" % (common.short(a), k, ra[k], rb[k])))
            if rb["changed"]:
                keys.append(common.key(a["op"], a["kw"], ra["initial"], ra["final"]))
        elif common.succeeded(a) and root and a["eff"]["as_user"] == "root" and model.detected_failure(b, scn["files"]):
            out.append(common.v("outcome:%s" % a["op"], "dry run: %s; real run from the same state: %s" % (common.short(a), common.short(b))))
    return {"viol": out, "evals": n, "keys": keys, "sample": common.sample(scn, real)}
