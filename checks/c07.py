"""C07: re-running an interrupted deploy converges and then changes nothing."""
from posixpath import basename, dirname, join

from simfora import common, faults, gen, model, runner, scen

PROP = "C07"
QUICK = 1000
THOROUGH = 25000
RULE = ("random deploys whose operations do not contradict each other: one uninterrupted run; the same deploy interrupted once or twice by faults (failing, killed or lying commands, system-call "
        "errors, torn writes, remote crash, power loss, cut stream, interrupt, killed controller); then re-run without faults, whose host state must equal that of the uninterrupted run; then run "
        "once more, which must report everything unchanged and modify nothing. Distinct and non-trivial: distinct (program, fault) where the interrupted run ended in an error after or while modifying the host")
WEIGHTS = {"errno": 4, "derrno": 2, "cmdsig": 3, "cmderrno": 2, "cmdexit": 2, "cmdlate": 1, "short": 1, "killmid": 2, "powermid": 1, "kill": 3, "crash": 2, "power": 2, "after": 2,
           "cut": 3, "kbd": 2, "ctlkill": 2, "local": 1}


def okrun(res):
    return res["exit"] == "return" or (res["exit"] == "exit" and not res["code"])


def simple(rng, scn, addr):
    """Removes what makes operations contradict each other by construction (units, accounts, packages named twice)."""
    seen = set()

    def key(op):
        kw = op["kw"]
        mod, _, k = op["op"].partition(".")
        if k in ("user", "group"):
            ks = {("acct", kw.get("user") or kw.get("group"))}
            if k == "user":
                ks |= {("acct", g) for g in list(kw.get("groups") or ()) + [kw.get("group")] if g}
                ks.add(("acct", "user"))
            if "uid" in kw or "gid" in kw:
                ks.add(("id", kw.get("uid", kw.get("gid"))))
            return ks
        if k == "package":
            return {("pkg", p) for p in kw["packages"]}
        if k == "service":
            return {("svc", model.unit(kw["service"]), bool(kw.get("user_mode")))}
        if op["op"] == "git.repo":
            return {("git",)}
        return set()

    def walk(ops):
        for op in list(ops):
            if "body" in op:
                walk(op["body"])
            elif "kw" in op and common.is_op(op):
                ks = key(op)
                if ks & seen:
                    ops.remove(op)
                    continue
                seen.update(ks)
                op["kw"].pop("check", None)
    for ops in scn["programs"].values():
        walk(ops)
    spec = scn["hosts"][addr]["spec"]
    for db in ("services", "user_services"):
        for e in spec[db].values():
            if e["enabled"] == "static":
                e["enabled"] = "disabled"


def consistent(scn, evs):
    """True if no two operations manage the same path or one below a path another one removes or links."""
    its = []
    for n, ev in enumerate(evs):
        if ev["op"] == "git.repo":
            its.append((n, model.real(ev["before"], ev["kw"]["path"]), model.norm(ev["kw"]["path"]), "git", True))
            continue
        for it in model.items(ev, scn["files"]) or ():
            its.append((n, model.real(ev["before"], it.path), model.norm(it.path), it.type, it.present))
            if it.line is not None and isinstance(it.line.get("backup"), str):
                its.append((n, join(dirname(model.real(ev["before"], it.path)), it.line["backup"]), "\0", "backup", True))
    for a in its:
        for b in its:
            if a[0] == b[0]:
                continue
            if a[1] == b[1] and (a[3] != "backup" or b[3] != "backup"):
                return False
            if b[1].startswith(a[1] + "/") and not (a[3] == "dir" and a[4]):
                return False
            if b[2].startswith(a[2] + "/") and not (a[3] == "dir" and a[4]):
                return False
    gone = {e["kw"].get("user") or e["kw"].get("group") for e in evs if e["op"] in ("system.user", "system.group") and not e["kw"].get("present", True)}
    if any(e["eff"][k] in gone for e in evs for k in ("as_user", "as_group", "owner", "group")):
        return False
    names = {e["kw"].get("user") for e in evs if e["op"] == "system.user"} | {e["kw"].get("group") for e in evs if e["op"] == "system.group"}
    if names and any(e["op"].startswith("files.") for e in evs):
        return False
    # a group given by its number is another group once some other operation moves that number
    refs = [str(g) for e in evs if e["op"] == "system.user" for g in [e["kw"].get("group")] + list(e["kw"].get("groups") or ()) if g is not None]
    if any(g.isdigit() for g in refs) and any(e["op"] == "system.group" and (e["kw"].get("gid") is not None or not e["kw"].get("present", True)) for e in evs):
        return False
    return True


def generate(rng, index, tier):
    for _ in range(6):
        fam = rng.choice([("files",), ("files",), ("files",), ("files",), ("acct",), ("acct",), ("pkg",), ("svc",), ("git",), ("files", "svc", "pkg")])
        addr, scn = gen.deploy(rng, fam=fam, n=rng.choice([(1, 1), (1, 3), (2, 4)]), catch=0, users=0, bad=0)
        simple(rng, scn, addr)
        prof = faults.profile(scn)
        if not okrun(prof) or not common.ops(prof) or not consistent(scn, common.ops(prof)):
            continue
        muts = [m["n"] for m in prof["mutlog"][addr]]
        for _ in range(rng.choice([1, 1, 1, 2])):
            r = rng.random()
            if muts and r < 0.35:
                # right at, before or after a modification
                n = max(1, rng.choice(muts) + rng.choice([-1, 0, 0, 1]))
                scn["hosts"][addr]["faults"].append({"k": "sys-any", "sys": n, "do": rng.choice(["kill", "crash", "power", "after", "errno"]), "errno": rng.choice([28, 5, 30])})
            else:
                faults.sprinkle(rng, scn, prof, WEIGHTS, addr, 1)
        if rng.random() < 0.2:
            scn["twice"] = True
        return scn
    return None


def managed(scn, evs):
    return {model.real(e["before"], e["kw"]["path"]): e for e in evs if e["op"] == "files.line"}


def ignorable(key, new, line):
    if model.TMPLINK.search(key) and new is not None and new[0] == "link":
        return True
    for p, ev in line.items():
        b = ev["kw"].get("backup")
        if b and dirname(key) == dirname(p):
            if b is True and basename(key).startswith(basename(p)) and key.endswith(".bak"):
                return True
            if isinstance(b, str) and basename(key) == basename(b):
                return True
    return False


def repeats(ev):
    kw = ev["kw"]
    return bool(kw.get("touch") and kw.get("present", True)) or kw.get("state") in ("restarted", "reloaded") or ev["op"].endswith("daemon_reload")


def known_for(sec, key, want, have, s0, mid, line, evs):
    """The recorded findings, matched by their exact history."""
    if sec == "fs" and key in line:
        init, torn = s0.get(key), mid.get(key)
        if want and have and want[0] == have[0] == "file":
            if want[4] != have[4] and torn is not None and torn.data not in (want[4], init.data if init is not None else None):
                return "line-torn-rewrite"
            if want[4] == have[4] and init is None and torn is not None and want[1:4] != have[1:4]:
                return "line-create-attrs"
    for e in evs:
        if e["op"] == "git.repo" and sec == "fs" and e["kw"].get("update_submodules"):
            p = model.real(s0, e["kw"]["path"])
            if key.startswith(p + "/.git/modules") and have != want:
                return "git-submodules"
        if e["op"] == "git.repo" and sec == "fs":
            p = model.real(s0, e["kw"]["path"])
            n, old = mid.get(key), s0.get(key)
            if key.startswith(p + "/") and s0.get(p) is None and mid.get(p) is not None and (n is None or n.type != "file" or want is None or n.data != want[4]):
                return "git-partial-clone"
            if key.startswith(p + "/") and n is not None and n.type == "file" and n.data not in (want[4] if want else None, old.data if old is not None else None):
                return "git-partial-clone"
    return None


def evaluate(scn):
    clean = scen.run(scn, faults=False)
    if not scen.ok(clean):
        raise scen.Inconclusive(str(clean.get("unsupported") or clean["exit"]))
    cevs = common.ops(clean)
    if not okrun(clean) or not cevs or not consistent(scn, cevs):
        return {"viol": [], "evals": 0, "keys": []}
    s0 = scen.states(scn)
    line = managed(scn, cevs)
    out, keys = [], []
    world = None
    for i in range(2 if scn.get("twice") else 1):
        broken = scen.run(scn, world=world, **({"seed": scn["seed"] + 1} if i else {}))
        if not scen.ok(broken):
            raise scen.Inconclusive(str(broken.get("unsupported") or broken["exit"]))
        world = broken["world"]
    addr = next(iter(scn["hosts"]))
    how = "interrupted by %s (%s)" % (sorted(broken["fired"]), broken["exit"] if not broken.get("exc") else broken["exc"]["type"])
    again = scen.run(scn, world=world, faults=False)
    if not scen.ok(again):
        raise scen.Inconclusive(str(again.get("unsupported") or again["exit"]))
    if not okrun(again):
        last = common.ops(again)[-1] if common.ops(again) else None
        kn = None
        if last is not None and last["op"] == "git.repo":
            p = last["kw"]["path"]
            if s0[addr].get(p) is None and world[addr].get(p) is not None and model.git_head(world[addr], p) is None:
                kn = "git-partial-clone"
        if last is not None and last["op"] == "git.repo" and kn is None and s0[addr].get(last["kw"]["path"]) is None and model.git_head(world[addr], last["kw"]["path"]) is not None:
            kn = "git-partial-clone"
        out.append(common.v("rerun-fails:%s" % (last["op"] if last else "run"), "the deploy works uninterrupted, but after being %s the re-run fails: %s" % (how, common.short(last) if last else again.get("exc")), known=kn))
    else:
        for sec, key, want, have in model.diff(clean["world"][addr], again["world"][addr]):
            if sec == "fs" and ignorable(key, have or want, line):
                continue
            kn = known_for(sec, key, want, have, s0[addr], world[addr], line, cevs)
            out.append(common.v("state:%s" % sec, "after being %s and run again, %s %r is %s; an uninterrupted run gives %s" % (how, sec, key, repr(have)[:200], repr(want)[:200]), known=kn))
        third = scen.run(scn, world=again["world"], faults=False)
        if not scen.ok(third):
            raise scen.Inconclusive(str(third.get("unsupported") or third["exit"]))
        if not okrun(third):
            out.append(common.v("third-fails", "the deploy was run again successfully, but one more run fails: %s" % third.get("exc")))
        for ev in common.ops(third):
            if repeats(ev):
                continue
            kn = None
            muts = third["mutlog"][addr][ev["m0"]["mut"]:ev["m1"]["mut"]]
            if not common.succeeded(ev) or ev["ret"]["changed"]:
                out.append(common.v("third-changed:%s" % ev["op"], "one more run of a converged deploy: %s, initial=%r final=%r" % (common.short(ev), (ev.get("ret") or {}).get("initial"), (ev.get("ret") or {}).get("final")), known=kn))
            if muts:
                out.append(common.v("third-modified:%s" % ev["op"], "one more run of a converged deploy modifies the host: %s: %s" % (common.short(ev), [(m["call"], m["path"]) for m in muts[:4]]), known=kn))
    if broken["fired"] and not okrun(broken):
        runner.STATS.count("interrupted")
        if broken["mutlog"][addr]:
            runner.STATS.count("interrupted-while-modifying")
            keys.append(common.key(scn["programs"], scn["hosts"][addr]["faults"], scn.get("session_faults"), scn.get("kbd"), scn.get("ctlkill"), scn.get("local_faults")))
    return {"viol": out, "evals": 1, "keys": keys, "sample": common.sample(scn, broken, common.ops(broken)) if broken["fired"] else None}


def _demo(tree, ops, git=False):
    import random
    spec = gen.host_spec(random.Random(1), rich=False)
    spec["tree"] = spec["tree"][:7] + tree
    if git:
        gen.git_world(random.Random(3), spec)
        spec["tree"] = [t for t in spec["tree"] if not t[0].startswith("/srv/repo")]
        spec["git"]["https://git.example/app.git"]["default"] = "main"
    return {"seed": 1, "policy": None, "hosts": {"local": {"spec": spec, "faults": []}}, "files": {}, "argv": ["--no-color", "local:", "deploy.py"], "programs": {"deploy.py": ops}}


def _at(scn, pick, do="kill", **kw):
    """Places a fault at the first system call for which pick(...) holds."""
    for s in faults.profile(scn)["syslog"]["local"]:
        if pick(s):
            scn["hosts"]["local"]["faults"] = [dict({"k": "sys-" + s[1], "sys": s[0], "do": do}, **kw)]
            break
    return scn


def _demo_create():
    scn = _demo([], [{"op": "files.line", "kw": {"path": "/etc/new", "line": "alpha = 1"}}])
    scn["programs"]["deploy.py"] = [{"op": "defaults", "kw": {"owner": "alice", "file_mode": "644"}, "body": scn["programs"]["deploy.py"]}]
    return _at(scn, lambda s: s[1] == "chown" and s[2] == "dispatcher")


def _demo_torn():
    scn = _demo([["/etc/f", "file", 0o644, 0, 0, {"b": b"one\ntwo\n".hex()}]], [{"op": "files.line", "kw": {"path": "/etc/f", "line": "alpha = 1"}}])
    return _at(scn, lambda s: s[1] == "write" and s[2] == "dispatcher", "killmid", frac=0.5)


def _demo_clone():
    scn = _demo([], [{"op": "git.repo", "kw": {"url": "https://git.example/app.git", "path": "/var/clone"}}], git=True)
    prof = faults.profile(scn)
    cmd = next((x["cmd"] for x in prof["execlog"]["local"] if "clone" in x["argv"]), 0)
    scn["hosts"]["local"]["faults"] = [{"k": "cmd", "cmd": cmd, "at": 14, "do": "sig", "sig": 9}]
    return scn


def _demo_submodules():
    scn = _demo([], [{"op": "git.repo", "kw": {"url": "https://git.example/app.git", "path": "/var/clone", "update_submodules": True}}], git=True)
    prof = faults.profile(scn)
    cmd = next((x["cmd"] for x in prof["execlog"]["local"] if "submodule" in x["argv"]), 0)
    scn["hosts"]["local"]["faults"] = [{"k": "cmd", "cmd": cmd, "at": 0, "do": "exit", "rc": 1}]
    return scn


KNOWN_DEMOS = {"line-create-attrs": _demo_create, "line-torn-rewrite": _demo_torn, "git-partial-clone": _demo_clone, "git-submodules": _demo_submodules}
