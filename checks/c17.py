"""C17: remote defaults apply exactly inside their block."""
from checks.c05 import mismatch
from simfora import calls, common, faults, gen, model, scen
from simfora.bridge import octal, r_group, r_user

PROP = "C17"
QUICK = 3000
THOROUGH = 60000
RULE = ("random nestings of defaults blocks with valid and invalid settings, nested scripts, operations and commands with own arguments, left normally, by errors, exits and interrupts, on one or two hosts with "
        "different accounts and inventory base settings, with system-call errors, stream cuts and interrupts while a block is entered; the values in force are compared at every point with a reference "
        "stack, and so are the context of every executed command and the attributes of every managed file. Distinct and non-trivial: distinct (enclosing values, block, way of leaving)")
ASSUME = ["working directories given as defaults are absolute and no symbolic links", "octal settings are written as plain digits"]
KEYS = ("as_user", "as_group", "owner", "group", "file_mode", "dir_mode", "umask", "cwd")


def block_kw(rng, spec, bad):
    kw = {}
    us = list(spec["users"])
    gs = list(spec["groups"])
    ids = rng.random() < 0.2
    for k in KEYS:
        if rng.random() > 0.35:
            continue
        if k in ("as_user", "owner"):
            kw[k] = str(spec["users"][rng.choice(us)][0]) if ids else rng.choice(us)
            if k == "as_user" and rng.random() < 0.5:
                kw[k] = "root"
        elif k in ("as_group", "group"):
            kw[k] = str(spec["groups"][rng.choice(gs)][0]) if ids else rng.choice(gs)
        elif k == "file_mode":
            kw[k] = rng.choice(gen.MODES)
        elif k == "dir_mode":
            kw[k] = rng.choice(gen.DIRMODES)
        elif k == "umask":
            kw[k] = rng.choice(["022", "077", "27", "0", "002", "777", "0077"])
        else:
            kw[k] = rng.choice(["/etc", "/srv", "/", "/tmp", "/root"])
    if rng.random() < bad:
        k = rng.choice(KEYS)
        kw[k] = {"cwd": rng.choice(["/nowhere", "/etc/plainfile", "/srv/dangling", "/srv/tofile", "/tmp/x/y", "/etc/plainfile/x"])}.get(k) or (rng.choice(["ghost", "4242", ""]) if k in ("as_user", "as_group", "owner", "group") else rng.choice(["rwx", "9", "u=rw", "888", ""]))
    return kw


def generate(rng, index, tier):
    two = rng.random() < 0.25
    addrs = ["web1", "web2"] if two else None
    user = "root" if rng.random() < 0.9 else "alice"
    files = {}
    if two:
        specs = {a: gen.host_spec(rng, user, exotic=0.1) for a in addrs}
        # the same names have other ids on the second host, and some exist only on one
        for u in specs["web2"]["users"]:
            if u not in ("root", user) and rng.random() < 0.5:
                specs["web2"]["users"][u][0] += 2000
        argv = ["--no-color", "inventory.py", "deploy.py"]
        files["inventory.py"] = "hosts = ['ssh://%s@web1', 'ssh://%s@web2']\n" % (user, user)
    else:
        addr, inv = gen.target(rng, user)
        specs = {addr: gen.host_spec(rng, user, exotic=0.1)}
        argv = ["--no-color", inv, "deploy.py"]
        if rng.random() < 0.3:
            files["inventory.py"] = "hosts = [%r]\n" % inv
            argv[1] = "inventory.py"
    for spec in specs.values():
        spec["tree"] += [["/etc/plainfile", "file", 0o644, 0, 0, {"b": "78"}], ["/srv/dangling", "link", 0o777, 0, 0, "/nowhere"], ["/srv/tofile", "link", 0o777, 0, 0, "/etc/plainfile"]]
    base = {}
    if "inventory.py" in files and rng.random() < 0.6:
        base = {k: v for k, v in {"file_mode": rng.choice(["640", "0644"]), "dir_mode": "755", "umask": rng.choice(["022", "027"]), "cwd": rng.choice(["/", "/etc"])}.items()}
        files["inventory.py"] += "from fora.remote_settings import RemoteSettings\ndef base_remote_settings():\n    return RemoteSettings(as_user='bob', as_group='video', owner='svc', group='audio', file_mode=%r, dir_mode=%r, umask=%r, cwd=%r)\n" % (
            base["file_mode"], base["dir_mode"], base["umask"], base["cwd"])
    spec = next(iter(specs.values()))
    src = gen.sources(rng)
    files.update(src)
    programs = {"deploy.py": []}
    used = []
    count = [0]

    def leaf(depth, sub):
        count[0] += 1
        r = rng.random()
        if r < 0.3:
            return {"op": "probe"}
        if r < 0.6:
            return {"op": "conn.run", "kw": calls.context(rng, spec, {"command": ["sim-probe", "n%d" % count[0]]}, p=0.15, bad=0.03), "catch": True}
        op = gen.file_op(rng, spec, src, used, attr_p=0.25, bad=0.0)
        if sub and "src" in op["kw"]:
            op["kw"]["src"] = "../" + op["kw"]["src"]
        op["catch"] = True
        return op

    def body(depth, sub):
        ops = []
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            if r < 0.4 and depth < 4:
                b = {"op": "defaults", "kw": block_kw(rng, spec, 0.2), "body": body(depth + 1, sub)}
                if rng.random() < 0.3:
                    b["body"].append({"op": "raise", "exc": rng.choice(["error", "value", "interrupt", "exit", "os", "runtime"]), "code": rng.choice([0, 3])})
                b["catch"] = "all" if rng.random() < 0.9 else False
                ops.append(b)
            elif r < 0.5 and depth < 3 and len(programs) < 4:
                nm = "sub%d/s.py" % len(programs)
                programs[nm] = None
                programs[nm] = body(depth + 1, True)
                if rng.random() < 0.25:
                    programs[nm].append({"op": "raise", "exc": rng.choice(["error", "interrupt", "exit"])})
                ops.append({"op": "script", "path": ("../" if sub else "") + nm, "catch": "all"})
            else:
                ops.append(leaf(depth, sub))
        ops.append({"op": "probe"})
        return ops
    programs["deploy.py"] = [{"op": "probe"}] + body(0, False)
    scn = {"seed": rng.randrange(1 << 30), "policy": gen.quiet_policy(rng), "hosts": {a: {"spec": s, "faults": []} for a, s in specs.items()}, "files": files, "programs": programs, "argv": argv, "login": user,
           "snap": "all"}
    if base:
        scn["base"] = {k: v if k == "cwd" else octal(v) for k, v in base.items()}
    if rng.random() < 0.35:
        prof = faults.profile(scn)
        faults.sprinkle(rng, scn, prof, {"derrno": 4, "kbd": 3, "cut": 2, "kill": 1}, rng.choice(list(specs)), 1)
    return scn


def same(st, got, want):
    """None, or the first setting that differs."""
    for k in KEYS:
        g, w = got.get(k), want.get(k)
        if k in ("as_user", "owner"):
            g, w = r_user(st, g), r_user(st, w)
        elif k in ("as_group", "group"):
            g, w = r_group(st, g), r_group(st, w)
        elif k != "cwd":
            g, w = octal(g), octal(w)
        if g != w or g is None:
            return "%s is %r instead of %r" % (k, got.get(k), want.get(k))
    return None


def evaluate(scn):
    res = scen.run(scn)
    if not scen.ok(res):
        raise scen.Inconclusive(str(res.get("unsupported") or res["exit"]))
    out, keys = [], []
    states = scen.states(scn)
    evs = res["events"]
    byi = {e["i"]: e for e in evs}
    entered = {e["of"]: e for e in evs if e["op"] == "#entered"}
    first = {}
    n = 0
    for e in evs:
        if e["op"] == "#open":
            continue
        addr = e.get("addr") or byi[e["of"]]["addr"]
        st = states[addr]
        eff = e["eff"]
        if e["op"] == "#entered":
            n += 1
            p = same(st, e["attr"], eff)
            if p:
                out.append(common.v("attr", "the block %s under %s yields settings whose %s" % (byi[e["of"]]["kw"], byi[e["of"]]["eff"], p)))
            p = same(st, e["current"], eff)
            if p:
                out.append(common.v("current", "inside the block %s under %s, %s" % (byi[e["of"]]["kw"], byi[e["of"]]["eff"], p)))
            continue
        if e["op"] == "probe" and e.get("done") and e.get("ret"):
            n += 1
            p = same(st, e["ret"]["defaults"], eff)
            if p:
                out.append(common.v("probe", "at %s, %s" % ("the start of a script" if e is first_of(evs, e) else "a point inside the script", p)))
        if e["op"] in ("defaults", "script") and e.get("post") is not None:
            n += 1
            p = same(st, e["post"]["defaults"], eff)
            if p:
                out.append(common.v("post", "after the %s %s was left by %s, %s" % (e["op"], e.get("kw") or "", e["exc"]["type"] if e.get("exc") else "its end", p)))
            keys.append(common.key(e["op"], e.get("kw"), eff, e["exc"]["type"] if e.get("exc") else None))
        if e["op"] == "defaults" and e.get("done"):
            quiet = not any(f["tag"] == e["i"] for f in res["fired_faults"][addr]) and not scn.get("kbd") and not (e.get("m1") or {}).get("lost") and not (e.get("m1") or {}).get("exited")
            if e["bad"] and e["i"] in entered:
                out.append(common.v("invalid", "the block %s was entered although %s is invalid" % (e["kw"], e["bad"])))
            if e["bad"] and quiet and e.get("exc") and not calls.is_a(e["exc"], "ValueError") and not calls.is_a(e["exc"], "RemoteOSError"):
                out.append(common.v("rejected", "the block %s was rejected with %s: %s" % (e["kw"], e["exc"]["type"], e["exc"]["msg"][:100])))
            if not e["bad"] and quiet and e["i"] not in entered and scn["login"] == "root":
                out.append(common.v("refused", "the valid block %s was refused: %s" % (e["kw"], e.get("exc"))))
        if e["op"] == "conn.run" and e.get("done"):
            uid, gid, m, cwd, bad = calls.run_context(e, e["before"])
            le = st.users[scn["login"]]
            for x in res["execlog"][addr][e["m0"]["ex"]:e["m1"]["ex"]]:
                n += 1
                p = "although its context is invalid" if bad else mismatch(x, (uid, gid, m, cwd), (le["uid"], le["gid"]), e["before"])
                if p:
                    out.append(common.v("run", "%s under %s was executed %s" % (e["kw"], eff, p)))
        elif e["op"].startswith("files.") and common.succeeded(e) and scn["login"] == "root":
            n += 1
            for sig, msg in model.check_success(e, scn["files"]):
                out.append(common.v("state:%s:%s" % (e["op"], sig), "%s under %s: %s" % (common.short(e), eff, msg)))
    return {"viol": out, "evals": n + 1, "keys": keys,
            "sample": {"seed": scn["seed"], "faults": common.faults_of(scn), "blocks": [(e["op"], e.get("kw"), e["exc"]["type"] if e.get("exc") else "end") for e in evs if e["op"] in ("defaults", "script")][:8], "outcome": res["exit"]} if keys else None}


def first_of(evs, e):
    return next((x for x in evs if x["op"] == "probe"), None)
