"""C13: nested scripts see and restore exactly the right context."""
import os.path

from checks.c17 import same
from simfora import calls, common, faults, gen, scen

PROP = "C13"
QUICK = 3000
THOROUGH = 100000
RULE = ("random trees of nested scripts in several directories, called by relative, absolute, redundant and symbolic-link paths, with parameters, defaults blocks, self and mutual recursion (allowed or not), missing "
        "and broken files, left normally, by errors, exits and interrupts, and with stream cuts, remote kills, system-call errors and interrupts while a script is entered or running; every point is compared "
        "with the context the call structure demands. Distinct and non-trivial: distinct (call, parameters, active scripts, way of ending)")
SCRIPT = "from simfora import bridge\n%sbridge.script(%r, globals())\n"
PARAMS = [("pa", "str", None), ("pb", "int", "5"), ("pc", "str", "'dflt'"), ("pd", "list", "None")]


def generate(rng, index, tier):
    user = "root"
    addr, inv = gen.target(rng, user)
    spec = gen.host_spec(rng, user, exotic=0.0, rich=False)
    dirs = ["", "one", "one/two", "three"]
    names = ["deploy.py"]
    for k in range(rng.randint(1, 4)):
        d = rng.choice(dirs)
        names.append((d + "/" if d else "") + rng.choice(["s%d.py", "deploy%d.py", "x y%d.py"]) % k)
    files, programs, decl, links = {}, {}, {}, {}
    for nm in names:
        ps = [] if nm == "deploy.py" else [p for p in PARAMS if rng.random() < 0.4]
        if ps and rng.random() < 0.3:
            ps = []
        decl[nm] = ps
        head = ""
        if ps:
            # names without a default come first or not: annotations have no order requirement
            head = "@Params\nclass params:\n" + "".join("    %s: %s%s\n" % (n, t, "" if d is None else " = " + d) for n, t, d in ps)
        files[nm] = SCRIPT % (head, nm)
    for d in ("one/two", "three"):
        files[d + "/"] = ""
    for k in range(rng.randint(0, 2)):
        t = rng.choice(names)
        ln = rng.choice(["", "three/", "one/"]) + "link%d.py" % k
        files[ln] = {"link": os.path.relpath(t, os.path.dirname(ln) or ".")}
        links[ln] = t
    if rng.random() < 0.4:
        files["dlink"] = {"link": "one"}
    broken = {}
    if rng.random() < 0.25:
        files["broken.py"] = rng.choice(["this is not python\n", "raise ValueError('module')\n", "import does_not_exist_at_all\n"])

    def spell(frm, to):
        """Some path from the directory of script `frm` to `to`."""
        base = os.path.dirname(frm)
        r = rng.random()
        cands = [to] + [l for l, t in links.items() if t == to]
        t = rng.choice(cands)
        if t.startswith("one/") and "dlink" in files and rng.random() < 0.4:
            t = "dlink/" + t[4:]
        if r < 0.25:
            return "@/" + t
        rel = os.path.relpath(t, base or ".")
        if r < 0.4:
            return "./" + rel
        if r < 0.5:
            return rel.replace("/", "//")
        if r < 0.6 and base:
            return "../" * len(base.split("/")) + t
        if r < 0.65:
            return "../" + os.path.basename(base) + "/" + rel if base else rel
        return rel

    def params(to):
        kw = {}
        for n, t, d in decl.get(to, ()):
            if rng.random() < (0.9 if d is None else 0.5):
                kw[n] = {"str": rng.choice(["v", "", "ünï"]), "int": rng.randint(0, 9), "list": rng.choice([["p", 1], []])}[t] if rng.random() < 0.85 else None
        if rng.random() < 0.15:
            kw["extra"] = True
        return kw

    def body(nm, depth):
        ops = [{"op": "probe"}]
        for _ in range(rng.randint(1, 3) if depth < 3 else 0):
            r = rng.random()
            if r < 0.55:
                to = rng.choice(names)
                kw = {}
                p = params(to)
                if p or rng.random() < 0.2:
                    kw["params"] = p
                if rng.random() < 0.25:
                    kw["recursive"] = True
                if rng.random() < 0.2:
                    kw["name"] = "named %d" % rng.randrange(9)
                o = {"op": "script", "path": spell(nm, to), "kw": kw, "limit": rng.choice([2, 3, 4, 6]), "target": to}
                if rng.random() < 0.06:
                    o["path"], o["target"] = rng.choice([("missing.py", None), ("nowhere/x.py", None), ("@/broken.py" if "broken.py" in files else "missing.py", None)])
                o["catch"] = "all" if rng.random() < 0.9 else False
                ops.append(o)
            elif r < 0.75:
                ops.append({"op": "defaults", "kw": {k: v for k, v in gen.defaults_kw(rng, spec, users=0.3).items()}, "body": body(nm, depth + 1), "catch": "all" if rng.random() < 0.8 else False})
            elif r < 0.83:
                ops.append({"op": "try", "body": body(nm, depth + 1) + [{"op": "raise", "exc": rng.choice(["error", "interrupt", "exit"])}], "catch": "all"})
            elif r < 0.88:
                ops.append({"op": "chdir", "path": "@/" + rng.choice(["one", "three", "one/two", ""])})
            elif r < 0.94:
                ops.append({"op": "conn.run", "kw": {"command": ["sim-out", rng.choice(["0", "1"]), "", ""]}, "catch": rng.random() < 0.6})
            else:
                ops.append({"op": "conn.stat", "kw": {"path": "/tmp"}})
            ops.append({"op": "probe"})
        if nm != "deploy.py" and depth == 0 and rng.random() < 0.25:
            ops.append({"op": "raise", "exc": rng.choice(["error", "value", "interrupt", "exit", "os"]), "code": rng.choice([0, 7])})
        return ops
    for nm in names:
        programs[nm] = body(nm, 0)
    # keep the whole tree small: no more than a few calls per script
    scn = {"seed": rng.randrange(1 << 30), "policy": gen.quiet_policy(rng), "hosts": {addr: {"spec": spec, "faults": []}}, "files": files, "programs": programs, "decl": decl, "links": links,
           "argv": ["--no-color", inv, "deploy.py"], "login": user, "snap": False, "step_cap": 200000}
    if rng.random() < 0.2:
        scn["argv"] = ["--no-color", inv, "@deploy.py"]
        scn["argv"][2] = rng.choice(["./deploy.py", "one/../deploy.py"])
    if rng.random() < 0.35:
        prof = faults.profile(scn)
        faults.sprinkle(rng, scn, prof, {"kbd": 5, "cut": 3, "kill": 1, "derrno": 2}, addr, rng.choice([1, 1, 2]))
    return scn


FIELDS = ("cwd", "indent", "stack", "params", "script", "script_file", "host", "Params")


def diff(a, b):
    for k in FIELDS:
        if a.get(k) != b.get(k):
            return "%s is %r instead of %r" % (k, b.get(k), a.get(k))
    for k, v in (a.get("defaults") or {}).items():
        if (b.get("defaults") or {}).get(k) != v:
            return "default %s is %r instead of %r" % (k, (b.get("defaults") or {}).get(k), v)
    return None


def real(scn, base, path):
    """The canonical script a path refers to from directory `base` (relative to the scratch directory), or None."""
    p = path[2:] if path.startswith("@/") else os.path.join(base, path)
    parts = []
    todo = [x for x in p.split("/") if x not in ("", ".")]
    n = 0
    while todo:
        c = todo.pop(0)
        if c == "..":
            if not parts:
                return None
            parts.pop()
            continue
        cur = "/".join(parts + [c])
        v = scn["files"].get(cur)
        if isinstance(v, dict) and "link" in v:
            n += 1
            if n > 20:
                return None
            todo = [x for x in v["link"].split("/") if x not in ("", ".")] + todo
            continue
        parts.append(c)
    p = "/".join(parts)
    return p if p in scn["files"] else None


def evaluate(scn):
    res = scen.run(scn)
    if not scen.ok(res):
        raise scen.Inconclusive(str(res.get("unsupported") or res["exit"]))
    out, keys = [], []
    n = 0
    evs = [e for e in res["events"] if not e["op"].startswith("#")]
    addr = next(iter(scn["hosts"]))
    st = scen.states(scn)[addr]
    parent = {}
    stack = []
    for e in evs:
        while stack and stack[-1]["depth"] >= e["depth"]:
            stack.pop()
        parent[e["i"]] = stack[-1] if stack else None
        stack.append(e)

    def call_of(e):
        """The script call this event runs in (None: the main script)."""
        p = parent[e["i"]]
        while p is not None and p["op"] != "script":
            p = parent[p["i"]]
        return p
    target = {None: "deploy.py"}
    moved = {}
    for e in evs:
        c = call_of(e)
        cid = c["i"] if c else None
        active = []
        x = c
        while True:
            active.append(target[x["i"] if x else None])
            if x is None:
                break
            x = call_of(x)
        me = target[cid]
        if e["op"] == "chdir" and e.get("done") and not e.get("exc"):
            moved[cid] = True
        if e["op"] == "script":
            target[e["i"]] = real(scn, e["pre"]["cwd"], e["path"])
        if e["op"] == "probe" and e.get("ret"):
            n += 1
            r = e["ret"]
            want = {"script_file": me, "stack": len(active), "host": e["hostname"]}
            if not moved.get(cid):
                want["cwd"] = os.path.dirname(me) or "."
            kw = (c["kw"] or {}) if c else {}
            want["params"] = kw.get("params") or {}
            want["script"] = "cmdline" if c is None else kw.get("name") or os.path.splitext(os.path.basename(c["path"]))[0]
            ps = scn["decl"].get(me) or []
            if ps:
                want["Params"] = {p[0]: want["params"].get(p[0], eval(p[2]) if p[2] else None) for p in ps}
            for k, v in want.items():
                if r.get(k) != v:
                    out.append(common.v("inside:" + k, "inside %s (called as %s) %s is %r instead of %r" % (me, c["path"] if c else "the main script", k, r.get(k), v)))
            p = same(st, r["defaults"], e["eff"])
            if p:
                out.append(common.v("inside:defaults", "inside %s, default %s" % (me, p)))
        if e.get("post") is not None and e.get("pre") is not None:
            n += 1
            p = diff(e["pre"], e["post"])
            if p and not (p.startswith("cwd") and moved_inside(e, evs, parent, cid, call_of)):
                out.append(common.v("after:%s" % p.split(" ")[0], "after %s %s ended with %s, %s" % (e["op"], e.get("path") or e["kw"], e["exc"]["type"] if e.get("exc") else "success", p)))
        if e["op"] == "script" and e.get("done") and e.get("ret") != "skipped":
            n += 1
            t = target[e["i"]]
            kw = e["kw"] or {}
            kids = [x for x in evs if parent[x["i"]] is e]
            exc = e.get("exc")
            disturbed = scn.get("kbd") or (e.get("m1") or {}).get("lost") or (e.get("m1") or {}).get("exited") or (e["m0"].get("lost") or e["m0"].get("exited")) or any(f["tag"] == e["i"] for f in res["fired_faults"][addr])
            missing = t is not None and any(p[2] is None and p[0] not in (kw.get("params") or {}) for p in scn["decl"].get(t) or [])
            rec = t in active and not kw.get("recursive")
            if rec:
                if kids:
                    out.append(common.v("recursion", "%s called %s as %r again without recursion being allowed, and it ran" % (active[0], t, e["path"])))
                elif exc is None:
                    out.append(common.v("recursion", "the forbidden recursive call of %r reported nothing" % e["path"]))
                elif not calls.is_a(exc, "ValueError") and not disturbed:
                    out.append(common.v("recursion", "the forbidden recursive call of %r raised %s: %s" % (e["path"], exc["type"], exc["msg"][:100])))
            elif t is None or t not in scn["programs"]:
                if exc is None:
                    out.append(common.v("missing", "calling the missing or broken script %r reported nothing" % e["path"]))
            elif missing:
                if kids:
                    out.append(common.v("params", "%s ran without its required parameters" % t))
                elif exc is None:
                    out.append(common.v("params", "calling %s without its required parameters reported nothing" % t))
            elif not kids and not disturbed:
                out.append(common.v("norun", "the legitimate call of %r (active: %s) did not run: %s" % (e["path"], active, exc and (exc["type"], exc["msg"][:150]))))
            if kids and not disturbed:
                last = next((x for x in reversed(kids) if x.get("exc") and not x.get("caught")), None)
                if (last is None) != (exc is None):
                    out.append(common.v("exception", "%s ended with %s, its caller saw %s" % (t, last and last["exc"]["type"], exc and (exc["type"], exc["msg"][:100]))))
                elif last is not None and (last["exc"]["type"], last["exc"]["msg"]) != (exc["type"], exc["msg"]):
                    out.append(common.v("exception", "%s ended with %s: %s, its caller saw %s: %s" % (t, last["exc"]["type"], last["exc"]["msg"][:100], exc["type"], exc["msg"][:100])))
            keys.append(common.key(t, e["path"], kw, active, exc and exc["type"]))
    a = res["ctx_after"]
    if res["exit"] != "killed" and not (a["cwd_same"] and a["script"] and a["stack"] == 0 and a["indent"] == 0):
        out.append(common.v("after:run", "after the run (%s) the context is %s" % (res["exit"], a)))
    return {"viol": out, "evals": n + 1, "keys": keys,
            "sample": {"seed": scn["seed"], "faults": common.faults_of(scn), "calls": [(e["path"], e["kw"], e["exc"]["type"] if e.get("exc") else "end") for e in evs if e["op"] == "script"][:10], "outcome": res["exit"]} if keys else None}


def moved_inside(e, evs, parent, cid, call_of):
    """A chdir by the same script inside a defaults or try block stays in effect."""
    if e["op"] == "script":
        return False
    for x in evs:
        if x["op"] == "chdir" and x["i"] > e["i"]:
            c = call_of(x)
            p = parent[x["i"]]
            while p is not None and p is not e:
                p = parent[p["i"]]
            if p is e and (c["i"] if c else None) == cid:
                return True
    return False
