"""C15: accounts, packages, services and repositories end as declared or fail."""
from simfora import common, faults, gen, model, scen

PROP = "C15"
QUICK = 3400
THOROUGH = 60000
RULE = ("random deploys of user, group, package (pacman, apt, portage, generic), service (system and user units) and git operations over random account, package, unit and repository "
        "databases, 60% with faults (tools killed half-way, failing, failing after having done the work, missing, database errors, lost connections); every success is compared with the "
        "declared state. Distinct and non-trivial: distinct (operation, arguments, manager, fault) with a success that changed the host or ran under a fault")
WEIGHTS = {"cmdsig": 5, "cmderrno": 3, "cmdexit": 4, "cmdlate": 4, "errno": 3, "derrno": 1, "cut": 2, "kill": 1, "kbd": 1}
OPS = ("system.user", "system.group", "system.package", "system.service", "pacman.package", "apt.package", "portage.package", "systemd.service", "systemd.daemon_reload", "git.repo")


def generate(rng, index, tier):
    fam = rng.choice([("acct",), ("acct",), ("pkg",), ("svc",), ("git",), ("acct", "pkg", "svc", "git")])
    user = "root" if rng.random() < 0.95 else "alice"
    addr, scn = gen.deploy(rng, fam=fam, n=(1, 5), user=user, catch=0.6, users=0.04)
    spec = scn["hosts"][addr]["spec"]
    r = rng.random()
    if r < 0.06 and spec["tools"]:
        spec["tools"].remove(rng.choice(spec["tools"]))           # a tool is missing
    elif r < 0.12:
        spec["tools"] += [t for t in ("systemctl", "git") if t not in spec["tools"]]
    if rng.random() < 0.6:
        prof = faults.profile(scn)
        faults.sprinkle(rng, scn, prof, WEIGHTS, addr, rng.choice([1, 1, 2]))
    return scn


def mutating(argv):
    a0 = argv[0].rpartition("/")[2]
    if a0 in ("useradd", "usermod", "userdel", "groupadd", "groupmod", "groupdel", "apt-get", "emerge"):
        return True
    if a0 == "pacman":
        return not any(x.startswith("-Q") for x in argv)
    if a0 == "systemctl":
        return any(x in ("start", "stop", "restart", "reload", "enable", "disable", "try-restart", "daemon-reload", "reload-or-restart") for x in argv)
    if a0 == "git":
        return any(x in ("clone", "pull", "submodule", "checkout", "fetch", "reset", "merge") for x in argv)
    return False


def feasible(ev):
    """True if nothing stands in the way of the operation (no faults involved)."""
    kw, st = ev["kw"], ev["before"]
    mod, _, k = ev["op"].partition(".")
    if k == "package":
        have = st.tools & {"pacman", "apt-get", "emerge"}
        need = {"system": have, "pacman": have & {"pacman"}, "apt": have & {"apt-get"} if "dpkg-query" in st.tools else set(), "portage": have & {"emerge"}}[mod]
        if have & {"apt-get"} and "dpkg-query" not in st.tools:
            return False
        return len(have) == 1 and bool(need) and set(kw["packages"]) <= st.pkg_available
    if k == "service":
        e = (st.user_services if kw.get("user_mode") else st.services).get(model.unit(kw["service"]))
        return "systemctl" in st.tools and e is not None and not e.get("broken") and e["enabled"] not in ("static", "masked") and kw.get("state") != "reloaded"
    if k == "repo":
        r = st.git_remotes.get(kw["url"])
        if "git" not in st.tools or r is None or model.git_commit(r, kw) is None:
            return False
        n = st.get(kw["path"])
        if n is None:
            d = st.get(kw["path"].rpartition("/")[0])
            return d is not None and d.type == "dir"
        if n.type != "dir" or model.other_branch(ev):
            return False
        known = set(r["refs"].values()) | set(r["old"])
        text = lambda name: model.git_text(st, kw["path"], name)
        return "remote.origin.url=%s\n" % kw["url"] in (text(".git/config") or "") and text(".git/HEAD") in known and text("README") == text(".git/HEAD") and text("data.conf") == "static\n"
    return False


def evaluate(scn):
    res = scen.run(scn)
    if not scen.ok(res):
        raise scen.Inconclusive(str(res.get("unsupported") or res["exit"]))
    out, keys = [], []
    evs = common.ops(res)
    user = next(iter(scn["hosts"].values()))["spec"]["user"]
    for ev in evs:
        if ev["op"] in OPS and not common.succeeded(ev) and not res["fired"] and user == "root" and ev["eff"]["as_user"] == "root" and feasible(ev):
            out.append(common.v("unusable:%s" % ev["op"], "%s failed although nothing stands in its way" % common.short(ev)))
        if ev["op"] not in OPS or not common.succeeded(ev):
            continue
        kw = ev["kw"]
        for sig, msg in model.check_success(ev, scn["files"]):
            kn = None
            if ev["op"] == "git.repo" and sig == "commit" and model.other_branch(ev):
                kn = "git-other-branch"
            if sig == "enabled-static" and kw.get("enabled") is True:
                kn = "static-unit"
            out.append(common.v("state:%s:%s" % (ev["op"], sig), "%s reported success, but %s" % (common.short(ev), msg), known=kn))
        # "and attributes not mentioned keep their value": anything else that changed
        for sig, msg in model.foreign_changes(ev, scn["files"], ev["before"], ev["after"], True):
            out.append(common.v("other:%s:%s" % (ev["op"], sig), "%s reported success, but %s" % (common.short(ev), msg)))
        for x in res["execlog"][ev["addr"]][ev["m0"]["ex"]:ev["m1"]["ex"]]:
            if x["rc"] and mutating(x["argv"]):
                out.append(common.v("tool-failed:%s" % ev["op"], "%s reported success although %r ended with %r" % (common.short(ev), x["argv"], x["rc"])))
        if ev["ret"]["changed"] or res["fired"]:
            keys.append(common.key(ev["op"], kw, sorted(ev["before"].tools), sorted(res["fired"])))
    return {"viol": out, "evals": len(evs), "keys": keys, "sample": common.sample(scn, res) if res["fired"] and evs else None}


def _demo_branch():
    from . import c09
    return c09._demo_branch()


def _demo_static():
    from . import c09
    return c09._demo_static()


KNOWN_DEMOS = {"static-unit": _demo_static, "git-other-branch": _demo_branch}
