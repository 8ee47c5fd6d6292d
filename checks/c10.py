"""C10: operations leave everything they do not manage untouched."""
from posixpath import basename, dirname, join

from simfora import common, faults, gen, model, runner, scen

PROP = "C10"
QUICK = 3200
THOROUGH = 60000
RULE = ("random deploys on hosts with unrelated files, accounts, packages and units; 80% with faults (errors, killed commands, short writes, crashes, cut streams, a killed "
        "controller). The complete difference of the host around every operation - also a failed or interrupted one - must stay inside its footprint; a backup must be complete "
        "before the original is first modified. Distinct and non-trivial: distinct (operation, arguments, outcome, fault) with a change of the host")
WEIGHTS = {"errno": 5, "derrno": 2, "cmdsig": 5, "cmderrno": 2, "cmdexit": 1, "cmdlate": 1, "short": 3, "killmid": 4, "kill": 3, "crash": 1, "after": 2, "cut": 2, "local": 1, "kbd": 1, "ctlkill": 1}
BYSTANDERS = ["keep", ".hidden", "a.bak", "zz keep", "f1~"]


def generate(rng, index, tier):
    fam = rng.choice([("files",), ("files",), ("files",), ("files",), ("acct",), ("acct", "files"), ("pkg", "svc"), ("git", "files")])
    user = "root" if rng.random() < 0.92 else "alice"
    kinds = ["line", "line", "upload_content", "directory"] if fam == ("files",) and rng.random() < 0.3 else None
    addr, scn = gen.deploy(rng, fam=fam, n=(1, 3), user=user, catch=0.4, kinds=kinds)
    spec = scn["hosts"][addr]["spec"]
    taken = {t[0] for t in spec["tree"]}
    for t in list(spec["tree"]):
        if t[1] == "dir" and t[0] not in ("/root", "/home") and rng.random() < 0.6:
            p = t[0] + "/" + rng.choice(BYSTANDERS)
            if p not in taken:
                taken.add(p)
                if rng.random() < 0.8:
                    spec["tree"].append([p, "file", int(rng.choice(gen.MODES), 8), rng.choice([0, 1000]), rng.choice([0, 10]), gen.text(rng)])
                else:
                    spec["tree"].append([p, "dir", 0o750, 1000, 10, None])
                    spec["tree"].append([p + "/inner", "file", 0o600, 1000, 10, {"b": "00"}])
    if rng.random() < 0.8:
        prof = faults.profile(scn)
        faults.sprinkle(rng, scn, prof, WEIGHTS, addr, rng.choice([1, 1, 2]))
    return scn


def judge_backup(ev, out):
    kw = ev["kw"]
    snap = ev.get("dir_at_mod")
    n = ev["before"].get(kw["path"])
    if snap is None or n is None or n.type != "file":
        return
    runner.STATS.count("backup-judged")
    if isinstance(kw["backup"], str):
        name = basename(kw["backup"])
        good = snap.get(name) == n.data
    else:
        b = basename(kw["path"])
        good = any(x != b and x.startswith(b) and x.endswith(".bak") and d == n.data for x, d in snap.items())
    if not good:
        out.append(common.v("backup:files.line", "%s: %r was modified before an identical backup was in place (directory held %r)" % (common.short(ev), kw["path"], sorted(snap))))
    elif common.succeeded(ev) and isinstance(kw["backup"], str) and ev["eff"]["as_user"] == "root" and ev["login"] == "root":
        p = join(dirname(kw["path"]), kw["backup"])
        c = ev["after"].get(p)
        if ev["before"].get(p) is None and c is not None and (c.type, c.mode, c.uid, c.gid) != (n.type, n.mode, n.uid, n.gid):
            out.append(common.v("backup-attrs:files.line", "%s: the backup is %s %o %d:%d, the original was %s %o %d:%d" % (
                common.short(ev), c.type, c.mode, c.uid, c.gid, n.type, n.mode, n.uid, n.gid)))


def evaluate(scn):
    res = scen.run(scn)
    if not scen.ok(res):
        raise scen.Inconclusive(str(res.get("unsupported") or res["exit"]))
    out, keys = [], []
    evs = [e for e in res["events"] if common.is_op(e) and (e.get("done") or e.get("killed"))]
    n = 0
    for ev in evs:
        last = common.dead_at(ev) or not ev.get("done")
        after = res["world"][ev["addr"]] if last else ev["after"]
        ok = common.succeeded(ev) and not last
        n += 1
        for sig, msg in model.foreign_changes(ev, scn["files"], ev["before"], after, ok):
            out.append(common.v("foreign:%s:%s" % (ev["op"], sig), "%s: %s" % (common.short(ev), msg)))
        if ev["op"] == "files.line" and ev["kw"].get("backup"):
            ev["login"] = scn["hosts"][ev["addr"]]["spec"]["user"]
            judge_backup(ev, out)
        if res["mutlog"][ev["addr"]][ev["m0"]["mut"]:]:
            keys.append(common.key(ev["op"], ev["kw"], ev.get("exc") and ev["exc"]["type"], sorted(res["fired"])))
        if last:
            break
    return {"viol": out, "evals": n, "keys": keys, "sample": common.sample(scn, res) if res["fired"] and evs else None}
