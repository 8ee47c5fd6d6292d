"""C12: fleet runs reach the selected hosts, in order, in isolation."""
from simfora import calls, common, faults, gen, scen

PROP = "C12"
QUICK = 2500
THOROUGH = 40000
RULE = ("random inventories of one to five hosts with different connectors, ports, users, names, groups and host modules, random selections with duplicates and unknown hosts, invalid inventories, and one host failing by "
        "script error, command, lost connection, failed start or interrupt; sessions, executions, modifications, variables and defaults per host are compared with the selection and with a run of the same script on "
        "each host alone. Distinct and non-trivial: distinct (inventory, selection, failure)")
ADDR = ["local", "web1", "web2", "web1:2222", "db.example", "10.0.0.7"]


def entry(rng, addr, user):
    """(inventory entry as source text, host name)"""
    if addr == "local":
        nm = "self%d" % rng.randrange(3)
        return "dict(url='local:', name=%r)" % nm, nm, True
    u = "" if user == "root" and rng.random() < 0.4 else user + "@"
    if ":" in addr or rng.random() < 0.5:
        url = "ssh://" + u + addr
    else:
        url = u + addr
    base = addr.split(":")[0]
    r = rng.random()
    if ":" in addr or r < 0.4:
        nm = rng.choice(["n_%s", "srv-%s", "%s.alias"]) % addr.replace(":", "p")
        return rng.choice(["dict(url=%r, name=%r%%s)", "HostDeclaration(url=%r, name=%r%%s)"]) % (url, nm), nm, True
    return (("dict(url=%r%%s)" % url) if r < 0.7 else repr(url)), base, r < 0.7


def generate(rng, index, tier):
    addrs = rng.sample(ADDR, rng.randint(1, 5))
    # names derived from the url must differ
    hosts, files, names = {}, {}, []
    lines = []
    for a in addrs:
        user = "root" if a == "local" or rng.random() < 0.8 else "alice"
        src, nm, isd = entry(rng, a, user)
        if nm in [n for n, _ in names]:
            continue
        g = [x for x in ("web", "db") if rng.random() < 0.3]
        if isd:
            src = src[:-1] if src.endswith(")") and "%s" not in src else src
            extra = ""
            if g:
                extra += ", groups=%r" % g
            v = rng.random() < 0.4
            if v:
                extra += ", vars={'early': %r}" % ("early-" + nm)
            src = src.replace("%s", extra) if "%s" in src else src + extra + ")"
        else:
            g, v = [], False
        spec = gen.host_spec(rng, user, exotic=0.0, rich=rng.random() < 0.5)
        spec["env"]["MARK"] = "mark-" + nm
        hosts[a] = {"spec": spec, "faults": []}
        names.append((nm, a))
        lines.append(src)
        if rng.random() < 0.6:
            files["hosts/%s.py" % nm] = "own = %r\nshared.append(name)\n" % ("own-" + nm) + ("web_list.append(name)\n" if "web" in g else "")
        scnv = None
    inv = "from fora.inventory_wrapper import HostDeclaration, GroupDeclaration\nhosts = [%s]\n" % ", ".join(lines)
    files["groups/all.py"] = "shared = []\nfrom_all = 'all'\n"
    files["groups/web.py"] = "web_list = []\nkind = 'web'\n"
    files["groups/db.py"] = "db_flag = True\n"
    bad = None
    if rng.random() < 0.15:
        bad = rng.choice(["dup", "group", "schema", "syntax", "raise", "cycle", "conflict", "nohosts", "hostfile"])
        if bad == "dup":
            inv += "hosts.append(dict(url='ssh://zz', name=%r))\n" % names[-1][0]
        elif bad == "group":
            inv += "hosts.append(dict(url='ssh://zz', groups=['nogroup']))\ngroups = ['all']\n"
        elif bad == "schema":
            inv += "hosts.append('gopher://zz')\n"
        elif bad == "syntax":
            inv += "hosts = = 3\n"
        elif bad == "raise":
            inv += "raise RuntimeError('broken inventory')\n"
        elif bad == "cycle":
            inv += "groups = [dict(name='web', after=['db']), dict(name='db', after=['web'])]\n"
        elif bad == "conflict":
            files["groups/web.py"] += "db_flag = False\n"
            inv += "hosts.append(dict(url='ssh://zz', groups=['web', 'db']))\n"
        elif bad == "nohosts":
            inv = "x = 1\n"
        else:
            inv += "hosts.append(dict(url='ssh://zz', file='hosts/none.py'))\n"
    files["inventory.py"] = inv
    allnames = [n for n, _ in names]
    sel = None
    argv = ["--no-color"]
    unknown = False
    if rng.random() < 0.6:
        sel = [rng.choice(allnames) for _ in range(rng.randint(1, len(allnames) + 1))]
        if rng.random() < 0.12:
            sel.insert(rng.randint(0, len(sel)), rng.choice(["ghost", "", allnames[0] + "x", allnames[0].upper() + "Y", " " + allnames[0]]))
            unknown = True
        if rng.random() < 0.04:
            sel, unknown = [""], True
        argv += ["--hosts", ",".join(sel)]
    prog = [{"op": "vars", "names": ["own", "shared", "web_list", "kind", "early", "from_all", "leak", "db_flag"]}, {"op": "probe"},
            {"op": "conn.run", "kw": {"command": ["sim-write", "/tmp/log", "begin"]}, "catch": False}]
    for k in range(rng.randint(0, 3)):
        r = rng.random()
        if r < 0.3:
            prog.append({"op": "files.upload_content", "kw": {"content": "x%d" % k, "dest": "/tmp/u%d" % k}, "catch": False})
        elif r < 0.5:
            prog.append({"op": "defaults", "kw": {"umask": rng.choice(["022", "027"]), "cwd": "/etc"}, "body": [{"op": "conn.run", "kw": {"command": ["sim-write", "/tmp/log", "d%d" % k]}, "catch": False}, {"op": "probe"}]})
        elif r < 0.65:
            prog.append({"op": "setvar", "name": "leak", "kw": {"value": "leak%d" % k}})
        elif r < 0.8:
            prog.append({"op": "conn.getenv", "kw": {"key": "MARK"}, "catch": False})
        else:
            prog.append({"op": "script", "path": "sub/s.py"})
    prog.append({"op": "probe"})
    prog.append({"op": "conn.run", "kw": {"command": ["sim-write", "/tmp/log", "end"]}, "catch": False})
    if rng.random() < 0.3:
        prog.insert(rng.randint(0, len(prog)), {"op": "raise", "exc": rng.choice(["error", "value", "interrupt", "exit"]), "code": 4, "on": [rng.choice(allnames)]})
    elif rng.random() < 0.15:
        prog.insert(rng.randint(0, len(prog)), {"op": "conn.run", "kw": {"command": ["sim-out", "3", "", ""]}, "on": [rng.choice(allnames)]})
    scn = {"seed": rng.randrange(1 << 30), "policy": gen.quiet_policy(rng), "hosts": hosts, "files": files, "argv": argv + ["inventory.py", "deploy.py"], "names": names, "bad": bad, "unknown": unknown,
           "programs": {"deploy.py": prog, "sub/s.py": [{"op": "probe"}, {"op": "conn.run", "kw": {"command": ["sim-write", "/tmp/log", "sub"]}}]}, "snap": True}
    if not bad and not unknown and rng.random() < 0.4:
        prof = faults.profile(scn)
        used = [s["addr"] for s in prof["sessions"]]
        if used:
            faults.sprinkle(rng, scn, prof, {"cut": 4, "kill": 2, "crash": 1, "popen": 2, "nostart": 2, "mute": 1, "derrno": 2, "cmdexit": 2, "kbd": 2}, rng.choice(used), 1)
    return scn


def ended_badly(res):
    return res["exit"] == "exc" or res["exit"] == "exit" and res["code"] not in (0, None)


def story(res, addr):
    """What the script saw and did on one host."""
    out = []
    for e in res["events"]:
        if e.get("addr") != addr or e["op"].startswith("#"):
            continue
        r = e.get("ret")
        if isinstance(r, dict):
            r = {k: v for k, v in r.items() if k not in ("mtime", "ctime")}
        out.append((e["op"], e["script"], e["depth"], r, e["exc"]["type"] if e.get("exc") else None))
    return out


def evaluate(scn):
    res = scen.run(scn)
    if not scen.ok(res):
        raise scen.Inconclusive(str(res.get("unsupported") or res["exit"]))
    out = []
    addr_of = dict(scn["names"])
    name_of = {a: n for n, a in scn["names"]}
    want = []
    sel = scn["argv"][scn["argv"].index("--hosts") + 1].split(",") if "--hosts" in scn["argv"] else None
    if scn["unknown"] and not (sel and any(n not in addr_of for n in sel)):
        raise scen.Inconclusive("selection changed")
    for n in (sel if sel is not None else [n for n, _ in scn["names"]]):
        if n not in want:
            want.append(n)
    # a session whose process could not even be started has no address: it counts for the host whose turn it was
    got = [s["addr"] or (addr_of.get(want[k]) if k < len(want) else None) for k, s in enumerate(res["sessions"])]
    key = [common.key(scn["files"]["inventory.py"], sel, sorted(res["fired"]), res["exit"], len(got))]
    what = "%s %s" % (res["exit"], (res.get("exc") or {}).get("type") or res.get("code"))
    touched = {a for a in scn["hosts"] if res["execlog"][a] or res["mutlog"][a] or res["nsys"][a]}

    def done(n):
        return {"viol": out, "evals": n, "keys": key, "sample": {"seed": scn["seed"], "argv": scn["argv"], "inventory": scn["files"]["inventory.py"].split("\n")[1][:300], "faults": common.faults_of(scn), "sessions": got, "outcome": what}}
    if scn["bad"] or scn["unknown"]:
        why = "the inventory is invalid (%s)" % scn["bad"] if scn["bad"] else "the selection names an unknown host"
        if got or touched:
            out.append(common.v("contact", "%s, but %s was contacted" % (why, got or sorted(touched))))
        if not ended_badly(res):
            out.append(common.v("accepted", "%s, but the run ended with success" % why))
        return done(1)
    w = [addr_of[n] for n in want]
    if got != w[:len(got)]:
        out.append(common.v("selection", "the selection is %s, but sessions were opened to %s" % (w, got)))
        return done(1)
    for a in touched:
        if a not in got:
            out.append(common.v("contact", "%s was touched without being selected" % a))
    failed = None
    for k, a in enumerate(got):
        evs = [e for e in res["events"] if e.get("addr") == a and e.get("session") == k and not e["op"].startswith("#")]
        for e in evs:
            if e["hostname"] != name_of[a]:
                out.append(common.v("host", "while connected to %s the active host is %s" % (name_of[a], e["hostname"])))
            if e["op"] == "probe" and e.get("ret") and e["ret"]["host"] != name_of[a]:
                out.append(common.v("host", "while connected to %s the active host is %s" % (name_of[a], e["ret"]["host"])))
        main = [e for e in evs if e["depth"] == 0]
        prog = [o for o in scn["programs"]["deploy.py"] if o.get("on") is None or name_of[a] in o["on"]]
        complete = [e["op"] for e in main] == [o["op"] for o in prog] and all(e.get("done") and (e.get("exc") is None or e.get("caught")) for e in main)
        if not complete:
            failed = a
            if k != len(got) - 1:
                out.append(common.v("abort", "the deploy of %s failed (%s), but the run went on to %s" % (name_of[a], [e["exc"]["type"] for e in main if e.get("exc")], got[k + 1:])))
        if complete:
            # the script ran exactly once, alone, and with the same effects as on this host alone
            solo = scen.run(scn, faults=False, argv=["--no-color", "--hosts", name_of[a], "inventory.py", "deploy.py"])
            if not scen.ok(solo):
                raise scen.Inconclusive("solo: %s" % (solo.get("unsupported") or solo["exit"]))
            s1, s2 = story(res, a), story(solo, a)
            disturbed = res["fired_faults"][a]
            if s1 != s2 and not disturbed:
                d = next((i for i in range(min(len(s1), len(s2))) if s1[i] != s2[i]), min(len(s1), len(s2)))
                out.append(common.v("isolation", "on %s the fleet run saw %s, a run on it alone %s" % (name_of[a], s1[d:d + 1], s2[d:d + 1])))
            ea, eb = [x["argv"] for x in res["execlog"][a]], [x["argv"] for x in solo["execlog"][a]]
            if ea != eb and not disturbed:
                out.append(common.v("effects", "on %s the fleet run executed %s, a run on it alone %s" % (name_of[a], ea[:6], eb[:6])))
            log = res["world"][a].get("/tmp/log"), solo["world"][a].get("/tmp/log")
            if not disturbed and (log[0].data if log[0] else None) != (log[1].data if log[1] else None):
                out.append(common.v("effects", "on %s the fleet run left the log %r, a run on it alone %r" % (name_of[a], log[0] and log[0].data, log[1] and log[1].data)))
        # values this host alone must have
        for e in evs:
            if e["op"] == "vars" and e.get("ret"):
                r = e["ret"]
                own = "hosts/%s.py" % name_of[a] in scn["files"]
                if r["#name"] != name_of[a] or r["own"] != ("own-" + name_of[a] if own else "<unset>") or r["shared"] != ([name_of[a]] if own else []):
                    out.append(common.v("vars", "the variables of %s are %r" % (name_of[a], r)))
            if e["op"] == "conn.getenv" and e.get("done") and not e.get("exc") and e["ret"] != "mark-" + name_of[a]:
                out.append(common.v("reach", "a call on %s was answered by %r" % (name_of[a], e["ret"])))
    if failed is None and got == w and not res["fired"].get("interrupt"):
        if ended_badly(res):
            out.append(common.v("status", "every deploy was completed, but the run reports %s" % what))
    if (failed is not None or got != w) and not ended_badly(res) and not exits_ok(scn, res):
        out.append(common.v("status", "the run reports success although %s" % ("the deploy of %s failed" % name_of[failed] if failed else "only %s of %s were deployed" % (got, w))))
    if any(res["host_connections"].values()):
        out.append(common.v("connection", "a host still has an active connection after the run"))
    return done(len(got) + 1)


def exits_ok(scn, res):
    return res["exit"] == "exit" and any(o.get("exc") == "exit" and o.get("code") in (0, None) for o in scn["programs"]["deploy.py"])
