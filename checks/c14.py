"""C14: inventory evaluation does not depend on arbitrary ordering."""
import copy
import random

from simfora import common, gen, scen

PROP = "C14"
QUICK = 4000
THOROUGH = 60000
HASHED = True
RULE = ("random inventories (up to seven groups in a random partial order, declared by after, before or both, and three hosts) whose group and host modules define, rebind and extend variables; each is evaluated in several "
        "variants with other group names, declaration orders, list orders, directory listing orders and spellings, in processes with different hash seeds, and every acceptance, every value seen while a module is "
        "evaluated and every final value is compared with a reference evaluation. Distinct and non-trivial: distinct (inventory, variant, outcome)")
VARS = [("s0", "s"), ("s1", "s"), ("s2", "s"), ("l0", "l"), ("l1", "l"), ("t0", "t"), ("t1", "t"), ("d0", "d"), ("d1", "d")]
KIND = dict(VARS)
NAMES = ["web", "db", "a", "zz", "Zulu", "desktops", "archlinux", "g-1", "g_2", "x9", "mail", "all2", "prod", "staging", "aa", "vpn", "k8s", "0day", "b", "c", "e", "q", "base", "host", "groups"]


def generate(rng, index, tier):
    n = rng.randint(0, 7)
    gids = ["all"] + ["G%d" % i for i in range(n)]
    rank = gids[1:]
    rng.shuffle(rank)
    edges = []
    dens = rng.choice([0.15, 0.3, 0.6])
    for i, a in enumerate(rank):
        for b in rank[i + 1:]:
            if rng.random() < dens:
                edges.append([a, b])            # a is ordered before b
    bad = None
    if rng.random() < 0.2 and n:
        bad = rng.choice(["cycle", "cycle", "allcycle", "self", "dupgroup", "duphost", "unkafter", "unkbefore", "unkhost"])
        if bad == "cycle":
            k = rng.randint(2, min(4, n)) if n > 1 else 1
            ring = rng.sample(rank, k)
            edges += [[ring[i], ring[(i + 1) % k]] for i in range(k)]
        elif bad == "allcycle":
            edges.append([rng.choice(rank), "all"])
    nv = rng.sample(VARS, rng.randint(1, 4))
    scalar = [v for v, k in nv if k == "s"]

    def writes(chance, first=False):
        out = []
        for v, k in nv:
            if rng.random() < (0.9 if first and k != "s" else chance):
                out.append([v, rng.choice(["def", "rebind", "mod", "mod", "aug"]) if k != "s" and not first else "def"])
        return out

    few = rng.random() < 0.5
    groups = {}
    for g in gids:
        groups[g] = {"file": g == "all" or rng.random() < 0.9, "writes": writes(0.55 if g == "all" else (0.25 if few else 0.5), g == "all"), "explicit": rng.random() < 0.1}
    hosts = []
    for i in range(rng.randint(1, 3)):
        gs = [g for g in gids[1:] if rng.random() < 0.6]
        hosts.append({"id": "H%d" % i, "groups": gs, "vars": [v for v, _ in nv if rng.random() < 0.25], "writes": writes(0.4), "file": rng.random() < 0.7})
    none = [v for v in scalar if rng.random() < 0.3]
    nones = {}
    for v in none:
        who = [g for g in gids if [v, "def"] in groups[g]["writes"]] + [h["id"] for h in hosts if v in h["vars"]]
        if who:
            nones[v] = [rng.choice(who), rng.choice(["None", "0", "''", "False", "[]"])]
    inv = {"groups": groups, "edges": edges, "hosts": hosts, "globals": [v for v in scalar if rng.random() < 0.2], "bad": bad, "badpick": rng.randrange(1 << 20), "none": nones, "vars": [v for v, _ in nv]}
    return {"seed": rng.randrange(1 << 30), "inv": inv, "variants": [0] + [rng.randrange(1, 1 << 30) for _ in range(2 if tier == "quick" else 4)]}


# ---------------------------------------------------------------- reference evaluation

def token(who, v):
    return "%s.%s" % (who, v)


def dvalue(inv, who, v):
    if v in inv["none"] and inv["none"][v][0] == who:
        return {"None": None, "0": 0, "''": "", "False": False, "[]": []}[inv["none"][v][1]]
    t = token(who, v)
    return {"s": t, "l": [t], "t": [t], "d": {t: 1}}[KIND[v]]


def dsource(inv, who, v):
    if v in inv["none"] and inv["none"][v][0] == who:
        return inv["none"][v][1]
    t = token(who, v)
    return {"s": repr(t), "l": "[%r]" % t, "t": "{%r}" % t, "d": "{%r: 1}" % t}[KIND[v]]


def statement(inv, who, v, how):
    t = token(who, v)
    k = KIND[v]
    if how == "def":
        return "%s = %s" % (v, dsource(inv, who, v))
    if how == "rebind":
        return "%s = %s" % (v, {"l": "%s + [%r]" % (v, t), "t": "%s | {%r}" % (v, t), "d": "%s | {%r: 1}" % (v, t)}[k])
    if how == "aug":
        return "%s %s" % (v, {"l": "+= [%r]" % t, "t": "|= {%r}" % t, "d": "|= {%r: 1}" % t}[k])
    return {"l": "%s.append(%r)", "t": "%s.add(%r)", "d": "%s.update({%r: 1})"}[k] % (v, t)


def add(val, who, v):
    t = token(who, v)
    if isinstance(val, list):
        return val + [t]
    return dict(val, **{t: 1})


class Reject(Exception):
    pass


def closure(inv):
    """before[g]: all groups (transitively) ordered before g; raises for cycles."""
    pre = {g: set() for g in inv["groups"]}
    for g in pre:
        if g != "all":
            pre[g].add("all")
    for a, b in inv["edges"]:
        if a in pre and b in pre:
            pre[b].add(a)
    while True:
        new = {g: set(p).union(*[pre[x] for x in p]) if p else set() for g, p in pre.items()}
        if new == pre:
            break
        pre = new
    for g, p in pre.items():
        if g in p:
            raise Reject("the groups form a cycle through %s" % g)
    return pre


def expect_host(inv, pre, h):
    """{"final": {var: value}, "seen": {module: {var: value}}} of one host; raises Reject."""
    mine = ["all"] + [g for g in h["groups"] if g in inv["groups"]]
    w = {g: (inv["groups"][g]["writes"] if inv["groups"][g]["file"] else []) for g in mine}
    for v in inv["vars"]:
        ws = [(g, how) for g in mine for x, how in w[g] if x == v]
        for i, (a, ha) in enumerate(ws):
            for b, hb in ws[i + 1:]:
                if a in pre[b] or b in pre[a]:
                    continue
                if ha in ("def", "rebind") or hb in ("def", "rebind"):
                    raise Reject("%s and %s assign %s without being ordered" % (a, b, v))
    order = sorted(mine, key=lambda g: (len(pre[g]), g))
    cur = {v: "inv." + v for v in inv["globals"]}
    cur.update({v: dvalue(inv, h["id"], v) for v in h["vars"]})
    seen = {}

    def apply(who, ws):
        for v, how in ws:
            if how == "def":
                cur[v] = dvalue(inv, who, v)
                continue
            if v not in cur:
                raise Reject("%s extends %s, which nothing before it defines" % (who, v))
            cur[v] = add(cur[v], who, v)

    for g in order:
        if inv["groups"][g]["file"]:
            sure = [v for v in inv["vars"] if all(x == g or x in pre[g] or g in pre[x] for x in mine for y, _ in w[x] if y == v)]
            if g == "all":
                # inventory variables belong to "all", the host's own are there first
                sure = [v for v in sure]
            seen[g] = {v: copy.deepcopy(cur.get(v, "<unset>")) for v in sure}
        apply(g, w[g])
    if h["file"]:
        seen[h["id"]] = {v: copy.deepcopy(cur.get(v, "<unset>")) for v in inv["vars"]}
        apply(h["id"] + "m", h["writes"])
    return {"final": cur, "seen": seen, "mine": mine}


# ---------------------------------------------------------------- writing one variant

def build(inv, vseed):
    r = random.Random(vseed)
    ids = [g for g in inv["groups"] if g != "all"]
    if vseed:
        nm = dict(zip(ids, r.sample(NAMES, len(ids))))
    else:
        nm = {g: g.lower() for g in ids}
    nm["all"] = "all"

    def mix(seq):
        seq = list(seq)
        if vseed:
            r.shuffle(seq)
            if seq and r.random() < 0.2:
                seq.append(r.choice(seq))       # duplicates are ignored
        return seq

    files = {}
    after, before = {g: [] for g in inv["groups"]}, {g: [] for g in inv["groups"]}
    for a, b in inv["edges"]:
        if a not in nm or b not in nm:
            continue
        x = r.random() if vseed else 0.0
        if x < 0.6:
            after[b].append(nm[a])
        if x >= 0.4:
            before[a].append(nm[b])
    p = random.Random(inv["badpick"])
    bad = inv["bad"]
    if ids and bad in ("self", "unkafter", "unkbefore"):
        g = p.choice(ids)
        if bad == "self":
            (after if p.random() < 0.5 else before)[g].append(nm[g])
        else:
            (after if bad == "unkafter" else before)[g].append("no-such-group")
    decls = []
    used = {g for h in inv["hosts"] for g in h["groups"]}
    implicit = not inv["edges"] and not bad and used == set(ids) and not any(d["explicit"] for d in inv["groups"].values()) and r.random() < 0.6
    for g in inv["groups"]:
        gd = inv["groups"][g]
        d = "groups/%s.py" % nm[g]
        kw = {"name": nm[g]}
        if gd["explicit"] and gd["file"]:
            d = "elsewhere/%s_x.py" % nm[g]
            kw["file"] = d
        if gd["file"]:
            probe = "{v: (list(x) if isinstance(x, set) else dict(x) if isinstance(x, dict) else list(x) if isinstance(x, list) else x) for v, x in ((v, globals().get(v, '<unset>')) for v in %r)}" % inv["vars"]
            files[d] = "seen_%s = %s\nhost_seen_by_%s = host.name\n" % (g, probe, g) + "".join(statement(inv, g, v, how) + "\n" for v, how in gd["writes"])
        if after[g]:
            kw["after"] = mix(after[g])
        if before[g]:
            kw["before"] = mix(before[g])
        form = r.random()
        if len(kw) == 1 and form < 0.5:
            src = repr(nm[g])
        elif form < 0.8:
            src = repr(kw)
        else:
            src = "GroupDeclaration(%s)" % ", ".join("%s=%r" % x for x in kw.items())
        if g == "all" and len(kw) == 1 and r.random() < 0.5:
            continue
        decls.append(src)
    if vseed:
        r.shuffle(decls)
    if bad == "dupgroup" and ids:
        decls.insert(p.randint(0, len(decls)), repr(nm[p.choice(ids)]))
    hs = []
    for h in inv["hosts"]:
        kw = {"url": "ssh://" + h["id"].lower(), "name": h["id"].lower()}
        gs = mix([nm[g] for g in h["groups"] if g in nm] + (["all"] if vseed and r.random() < 0.2 else []))
        if bad == "unkhost" and h is inv["hosts"][0]:
            gs.insert(p.randint(0, len(gs)), "no-such-group")
        if gs:
            kw["groups"] = gs
        src = "%s" % ", ".join("%s=%r" % x for x in kw.items())
        if h["vars"]:
            src += ", vars={%s}" % ", ".join("%r: %s" % (v, dsource(inv, h["id"], v)) for v in mix(h["vars"]))
        hs.append(("dict(%s)" if r.random() < 0.5 else "HostDeclaration(%s)") % src)
        if h["file"]:
            files["hosts/%s.py" % h["id"].lower()] = "seen_%s = {v: (sorted(x) if isinstance(x, set) else dict(x) if isinstance(x, dict) else list(x) if isinstance(x, list) else x) for v, x in ((v, globals().get(v, '<unset>')) for v in %r)}\n" % (
                h["id"], inv["vars"]) + "".join(statement(inv, h["id"] + "m", v, how) + "\n" for v, how in h["writes"])
    if bad == "duphost":
        hs.append("dict(url='ssh://zz', name=%r)" % inv["hosts"][p.randrange(len(inv["hosts"]))]["id"].lower())
    src = "from fora.inventory_wrapper import HostDeclaration, GroupDeclaration\n" + "".join("%s = %r\n" % (v, "inv." + v) for v in inv["globals"])
    src += "hosts = [%s]\n" % ",\n  ".join(hs)
    if not implicit:
        src += "groups = [%s]\n" % ",\n  ".join(decls)
    files["inventory.py"] = src
    return files, nm


def same(inv, pre, want, got, v):
    """Values agree; lists extended by groups that are not ordered may have those entries in any order."""
    k = KIND[v]
    if not isinstance(want, list):
        if isinstance(want, dict):
            return isinstance(got, dict) and got == want
        return got == want and type(got) is type(want)
    if not isinstance(got, list) or sorted(got) != sorted(want):
        return False
    if k == "t":
        return True
    who = [t.split(".")[0] for t in got]
    for i, a in enumerate(who):
        for b in who[i + 1:]:
            # b comes after a in the list: wrong if b is ordered before a
            if b == a:
                continue
            if b == "all" or b.startswith("H") and not b.endswith("m") or a.endswith("m"):
                return False
            if a in pre and b in pre and b in pre[a]:
                return False
    return True


def evaluate(scn):
    inv = scn["inv"]
    out, keys = [], []
    why = None
    exp = {}
    pre = {}
    try:
        pre = closure(inv)
        if inv["bad"] in ("self", "dupgroup", "duphost", "unkafter", "unkbefore", "unkhost"):
            raise Reject("the inventory declares an invalid group or host (%s)" % inv["bad"])
        for h in inv["hosts"]:
            exp[h["id"]] = expect_host(inv, pre, h)
    except Reject as e:
        why = str(e)
    if inv["bad"] and why is None:
        raise scen.Inconclusive("not invalid")
    sample = None
    for vs in scn["variants"]:
        files, nm = build(inv, vs)
        names = inv["vars"] + ["seen_" + g for g in inv["groups"]] + ["seen_" + h["id"] for h in inv["hosts"]] + ["host_seen_by_" + g for g in inv["groups"]]
        run = {"seed": scn["seed"], "order_seed": vs, "policy": {"chunk": "all", "stay": 0.9, "cap": 65536, "shortio": 0.0}, "files": files, "argv": ["--no-color", "inventory.py", "deploy.py"],
               "hosts": {h["id"].lower(): {"spec": gen.host_spec(random.Random(1), "root", exotic=0.0, rich=False), "faults": []} for h in inv["hosts"]},
               "programs": {"deploy.py": [{"op": "vars", "names": names}]}, "snap": False}
        res = scen.run(run)
        if not scen.ok(res):
            raise scen.Inconclusive(str(res.get("unsupported") or res["exit"]))
        what = "%s %s %s" % (res["exit"], (res.get("exc") or {}).get("type") or res.get("code"), ((res.get("exc") or {}).get("msg") or "")[:200])
        keys.append(common.key(files, res["exit"], why))
        good = res["exit"] == "return" or res["exit"] == "exit" and res["code"] in (0, None)
        sample = sample or {"seed": scn["seed"], "inventory": files["inventory.py"][:600], "expected": why or "accepted", "outcome": what}
        if why is not None:
            if good or res["sessions"]:
                out.append(common.v("accepted", "%s, but the inventory was accepted\n%s" % (why, files["inventory.py"])))
            continue
        if not good:
            out.append(common.v("rejected", "the inventory is valid, but it was rejected (%s)\n%s\n%s" % (what, files["inventory.py"], res["stderr"][-600:])))
            continue
        evs = [e for e in res["events"] if e["op"] == "vars"]
        if [e["hostname"] for e in evs] != [h["id"].lower() for h in inv["hosts"]]:
            raise scen.Inconclusive("hosts")
        for h, e in zip(inv["hosts"], evs):
            x, r = exp[h["id"]], e["ret"]
            if set(r["#groups"]) != {nm[g] for g in x["mine"]}:
                out.append(common.v("groups", "%s is in %s, not %s" % (h["id"], r["#groups"], x["mine"])))
            for v in inv["vars"]:
                for src in (r, r["#attr"]):
                    if not same(inv, pre, x["final"].get(v, "<unset>"), src[v], v):
                        out.append(common.v("value", "on %s, %s is %r, not %r\n%s" % (h["id"], v, src[v], x["final"].get(v, "<unset>"), files["inventory.py"])))
                        break
            for m, sv in x["seen"].items():
                got = r["seen_" + m]
                for v, val in sv.items():
                    if not isinstance(got, dict) or not same(inv, pre, val, got.get(v), v):
                        out.append(common.v("seen", "on %s, the module of %s found %s = %r, not %r\n%s" % (h["id"], m, v, got.get(v) if isinstance(got, dict) else got, val, files["inventory.py"])))
                        break
                if m in inv["groups"] and r["host_seen_by_" + m] != h["id"].lower():
                    out.append(common.v("host", "while evaluating %s for %s, the module saw host %r" % (m, h["id"], r["host_seen_by_" + m])))
    return {"viol": out, "evals": len(scn["variants"]), "keys": keys, "sample": sample}


def candidates(scn):
    inv = scn["inv"]

    def edit(fn):
        c = copy.deepcopy(scn)
        fn(c["inv"])
        return c
    for vs in scn["variants"]:
        if len(scn["variants"]) > 1:
            yield dict(copy.deepcopy(scn), variants=[vs])
    for i in range(len(inv["hosts"])):
        if len(inv["hosts"]) > 1:
            yield edit(lambda c: c["hosts"].pop(i))
    for g in list(inv["groups"]):
        if g != "all":
            def drop(c):
                del c["groups"][g]
                c["edges"] = [e for e in c["edges"] if g not in e]
                for h in c["hosts"]:
                    h["groups"] = [x for x in h["groups"] if x != g]
            yield edit(drop)
    for i in range(len(inv["edges"])):
        yield edit(lambda c: c["edges"].pop(i))
    for v in inv["vars"]:
        if len(inv["vars"]) > 1:
            def dropv(c):
                c["vars"].remove(v)
                c["globals"] = [x for x in c["globals"] if x != v]
                c["none"].pop(v, None)
                for h in c["hosts"]:
                    h["vars"] = [x for x in h["vars"] if x != v]
                    h["writes"] = [x for x in h["writes"] if x[0] != v]
                for g in c["groups"].values():
                    g["writes"] = [x for x in g["writes"] if x[0] != v]
            yield edit(dropv)
    for g in inv["groups"]:
        for i in range(len(inv["groups"][g]["writes"])):
            yield edit(lambda c: c["groups"][g]["writes"].pop(i))
    for k in range(len(inv["hosts"])):
        for f in ("groups", "vars", "writes"):
            for i in range(len(inv["hosts"][k][f])):
                yield edit(lambda c: c["hosts"][k][f].pop(i))
