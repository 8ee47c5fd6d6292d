"""C19: scripts and templates see exactly the variables of the current host and script."""
import posixpath
import re

from simfora import common, faults, gen, model, runner, scen

PROP = "C19"
QUICK = 2600
THOROUGH = 80000
RULE = ("random inventories of one to three hosts whose variables are assigned by the inventory, host declarations, the group of all hosts, a chain of groups, host modules, scripts (before or while they run), "
        "script parameters, attributes set on the host and template contexts, with equal names everywhere and empty, zero, false and None values; nested and repeated scripts with templates of equal names in different "
        "directories; a fifth with faults (local and remote errors, failing commands, cut streams). Every variable look-up and every rendered file is compared with a reference of the documented precedence, and a "
        "template that uses an undefined name must fail without touching the host. Distinct and non-trivial: distinct (look-up or template, values)")
ASSUME = ["values are compared by their text where a template shows them", "groups form a chain, so that their order is never ambiguous (C14 varies it)"]
NAMES = ["va", "vb", "vc", "vd", "item", "_hidden"]
WEIGHTS = {"errno": 2, "cmdexit": 1, "cut": 2, "kill": 1, "local": 4, "derrno": 2, "short": 1}
SCRIPT = "import math as amodule\nfrom simfora import bridge\n%sbridge.script(%r, globals())\n"
MISSING = "<unset>"


def val(rng, who):
    return rng.choice([who, who, who, who + " \u00fc<&>", "", 0, False, None, 17, [who, 1], "{{ va }}"])


def assigns(rng, who, p):
    return {n: val(rng, "%s-%s" % (who, n)) for n in NAMES if rng.random() < p}


def source(d):
    return "".join("%s = %r\n" % kv for kv in d.items())


def piece(rng, params):
    """One piece of a template: [kind, name]; the text and its meaning are derived from it."""
    k = rng.choice(["plain"] * 6 + ["if", "for", "host", "hostdef", "inv", "invdef", "name", "defined", "defined", "module", "default", "raw", "raw"] + (["params"] * 2 if params else []))
    if k == "raw":
        return [k, rng.choice(["  ", "\n", " \n", "\n\n", "\t", "\u00fc&<>\"'", "\r\n", "#", "%", "{ { }", "\x0c", "\u2028"])]
    return [k, rng.choice([n for n in NAMES if n != "_hidden"] if rng.random() < 0.95 else NAMES)]


TEXT = {"plain": "[{{ %s }}]", "if": "[{%% if %s %%}yes{%% else %%}no{%% endif %%}]", "for": "[{%% for x in [%s] %%}{{ x }}{%% endfor %%}]", "host": "[{{ host.%s }}]", "hostdef": "[{{ host.%s is defined }}]",
        "inv": "[{{ inventory.%s }}]", "invdef": "[{{ inventory.%s is defined }}]", "name": "[{{ host.name }}]", "defined": "[{{ %s is defined }}]", "module": "[{{ amodule is defined }}]",
        "default": "[{{ %s | default('none') }}]", "params": "[{{ params.pa }}]"}


def text(pieces):
    return "".join(n if k == "raw" else TEXT[k] % n if "%s" in TEXT[k] else TEXT[k] for k, n in pieces)


def generate(rng, index, tier):
    addrs = rng.sample(["web1", "web2", "web3", "local"], rng.choice([1, 1, 2, 2, 3]))
    chain = ["base", "mid", "top"][:rng.randint(0, 3)]
    inv = {"globals": assigns(rng, "inv", 0.3), "all": assigns(rng, "all", 0.25), "chain": chain, "groups": {g: assigns(rng, g, 0.3) for g in chain}, "hosts": []}
    hosts = {}
    for i, a in enumerate(addrs):
        nm = "h%d" % i
        h = {"name": nm, "addr": a, "groups": [g for g in chain if rng.random() < 0.6], "vars": assigns(rng, "decl" + nm, 0.2), "mod": assigns(rng, "mod" + nm, 0.3) if rng.random() < 0.7 else None}
        h["vars"].pop("_hidden", None)
        inv["hosts"].append(h)
        hosts[a] = {"spec": gen.host_spec(rng, "root", exotic=0.0, rich=False), "faults": []}
    inv["allfile"] = rng.random() < 0.5
    scripts = {"deploy.py": {"vars": assigns(rng, "deploy", 0.35), "params": None}}
    for k in range(rng.randint(0, 2)):
        scripts[rng.choice(["", "sub/", "other/"]) + "s%d.py" % k] = {"vars": assigns(rng, "s%d" % k, 0.35), "params": rng.choice([None, "dflt%d" % k, ""])}
    tpl = {}
    for nm in scripts:
        t = posixpath.join(posixpath.dirname(nm), "conf.j2")
        if t not in tpl:
            tpl[t] = [piece(rng, False) for _ in range(rng.randint(1, 4))]
    names = list(scripts)
    n = [0]
    shared = {k: val(rng, "shared-" + k) for k in NAMES if rng.random() < 0.15}

    def body(nm, depth):
        ops = []
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            n[0] += 1
            if r < 0.15:
                ops.append({"op": "vars", "names": NAMES + ["amodule", "fora_managed", "pa"]})
            elif r < 0.6:
                ctx = {k: val(rng, "ctx-" + k) for k in NAMES + ["host", "inventory"] if rng.random() < 0.15}
                kw = {"dest": "/etc/t%d" % n[0] if rng.random() < 0.8 else "/etc/t"}
                if rng.random() < 0.2:
                    kw["context"] = dict(shared)
                elif ctx or rng.random() < 0.2:
                    kw["context"] = ctx
                if rng.random() < 0.6:
                    ps = [piece(rng, scripts[nm]["params"] is not None) for _ in range(rng.randint(1, 4))]
                    kw["content"] = text(ps)
                    ops.append({"op": "files.template_content", "kw": kw, "rendered": ps, "catch": True})
                else:
                    t = posixpath.join(posixpath.dirname(nm), "conf.j2")
                    kw["src"] = "conf.j2"
                    ops.append({"op": "files.template", "kw": kw, "rendered": tpl[t], "catch": True})
            elif r < 0.7:
                ops.append({"op": "setvar", "name": rng.choice(NAMES), "kw": {"value": val(rng, "set%d" % n[0])}})
            elif r < 0.77:
                ops.append({"op": "sethost", "name": rng.choice(NAMES[:5]), "kw": {"value": val(rng, "sethost%d" % n[0])}})
                if rng.random() < 0.5:
                    ops[-1]["on"] = [rng.choice(inv["hosts"])["name"]]
            elif depth < 2 and len(names) > 1:
                to = rng.choice([x for x in names if x != "deploy.py"])
                kw = {"recursive": True}
                if scripts[to]["params"] is not None and rng.random() < 0.6:
                    kw["params"] = {"pa": rng.choice(["given%d" % n[0], "", None, 0])}
                if rng.random() < 0.2:
                    kw.setdefault("params", {})[rng.choice(NAMES[:5])] = "viaparam%d" % n[0]
                ops.append({"op": "script", "path": "@/" + to, "kw": kw, "limit": 2, "target": to, "catch": True})
            else:
                ops.append({"op": "vars", "names": NAMES + ["amodule", "fora_managed", "pa"]})
        return ops
    programs = {nm: body(nm, 0) for nm in names}
    programs["deploy.py"].append({"op": "vars", "names": NAMES + ["amodule", "fora_managed", "pa"]})
    scn = {"seed": rng.randrange(1 << 30), "policy": gen.quiet_policy(rng), "hosts": hosts, "programs": programs, "inv": inv, "scripts": scripts, "tpl": tpl,
           "argv": ["--no-color", "inventory.py", "deploy.py"], "snap": True, "step_cap": 400000}
    if rng.random() < 0.2:
        faults.sprinkle(rng, scn, faults.profile(build(scn)), WEIGHTS, rng.choice(addrs), 1)
    return scn


def build(scn):
    """The scenario with its source files."""
    inv, files = scn["inv"], {}
    decls = []
    for h in inv["hosts"]:
        decls.append("dict(url=%r, name=%r, groups=%r, vars=%r)" % ("local:" if h["addr"] == "local" else "ssh://root@" + h["addr"], h["name"], h["groups"], h["vars"]))
        if h["mod"] is not None:
            files["hosts/%s.py" % h["name"]] = source(h["mod"])
    chain = inv["chain"]
    files["inventory.py"] = source(inv["globals"]) + "hosts = [%s]\n" % ", ".join(decls)
    if chain:
        files["inventory.py"] += "groups = [%s]\n" % ", ".join("dict(name=%r%s)" % (g, ", after=[%r]" % chain[i - 1] if i else "") for i, g in enumerate(chain))
    if inv["all"] or inv["allfile"]:
        files["groups/all.py"] = source(inv["all"])
    for g in chain:
        files["groups/%s.py" % g] = "import os\n" + source(inv["groups"][g])
    for nm, s in scn["scripts"].items():
        head = source(s["vars"])
        if s["params"] is not None:
            head += "@Params\nclass params:\n    pa: str = %r\n" % s["params"]
        files[nm] = SCRIPT % (head, nm)
    for t, ps in scn["tpl"].items():
        files[t] = text(ps)
    return dict(scn, files=files)


def candidates(scn):
    """Operations are dropped, never changed: their meaning is recorded beside them."""
    def flat(x):
        return [o for ops in x["programs"].values() for o in _all(ops)]
    mine = flat(scn)
    for c in runner.candidates(scn):
        if c is not None and all(o in mine for o in flat(c)):
            yield c


def host_vars(inv, h):
    v = dict(inv["globals"])
    v.update(h["vars"])
    v.update(inv["all"])
    v["fora_managed"] = "This file is managed by fora."
    for g in inv["chain"]:
        if g in h["groups"]:
            v.update(inv["groups"][g])
    own = dict(h["mod"] or {})
    v = {k: x for k, x in v.items() if not k.startswith("_")}
    v.update({k: x for k, x in own.items() if not k.startswith("_")})
    return v


class Undefined(Exception):
    pass


def render(pieces, hv, frame, glob, ctx, hname, attrs):
    """What a template shows, by the documented precedence. attrs: what is reachable as an attribute of the host."""
    look = {k: x for k, x in frame["vars"].items() if not k.startswith("_")}
    look.update(hv)
    look.update(ctx)

    def get(d, n):
        if n not in d:
            raise Undefined(n)
        return d[n]
    out = ""
    for k, n in pieces:
        if k in ("plain", "for"):
            out += "[%s]" % (get(look, n),)
        elif k == "if":
            out += "[yes]" if get(look, n) else "[no]"
        elif k == "defined":
            out += "[%s]" % (n in look)
        elif k == "default":
            out += "[%s]" % (look.get(n, "none"),)
        elif k == "host":
            out += "[%s]" % (get(attrs, n),)
        elif k == "hostdef":
            out += "[%s]" % (n in attrs)
        elif k == "inv":
            out += "[%s]" % (get(glob, n),)
        elif k == "invdef":
            out += "[%s]" % (n in glob)
        elif k == "name":
            out += "[%s]" % hname
        elif k == "module":
            out += "[False]"
        elif k == "params":
            if frame["pa"] == MISSING:
                raise Undefined("params")
            out += "[%s]" % frame["pa"]
        elif k == "raw":
            out += n
    # the template language normalises line ends, and one line end at the very end of a template is not part of it
    out = re.sub("\r\n|\r", "\n", out)
    if re.search("[\r\n]$", text(pieces)):
        out = out[:-1]
    return out.encode()


def evaluate(scn):
    res = scen.run(build(scn))
    if not scen.ok(res):
        raise scen.Inconclusive(str(res.get("unsupported") or res["exit"]))
    out, keys = [], []
    inv = scn["inv"]
    byname = {h["name"]: h for h in inv["hosts"]}
    hvs = {h["name"]: host_vars(inv, h) for h in inv["hosts"]}
    glob = {k: x for k, x in inv["globals"].items() if not k.startswith("_")}
    cur, stack, n = None, [], 0
    fired = bool(res["fired"])
    order = [h["name"] for h in inv["hosts"]]
    seen = []
    for ev in res["events"]:
        if ev["op"].startswith("#"):
            continue
        hn = ev["hostname"]
        if hn not in byname:
            out.append(common.v("host", "an operation of %s ran with host %r" % (ev["script"], hn)))
            break
        if hn != cur:
            cur = hn
            seen.append(hn)
            stack = [(-1, {"script": "deploy.py", "vars": dict(scn["scripts"]["deploy.py"]["vars"]), "pa": MISSING})]
        while len(stack) > 1 and ev["depth"] <= stack[-1][0]:
            stack.pop()
        frame = stack[-1][1]
        if ev["script"] != frame["script"]:
            raise scen.Inconclusive("frames")
        hv = hvs[hn]
        if ev["op"] == "script":
            to = next(o for o in _all(scn["programs"][frame["script"]]) if o["op"] == "script" and o["path"] == ev["path"])["target"]
            s = scn["scripts"][to]
            pa = MISSING if s["params"] is None else ((ev["kw"].get("params") or {}).get("pa", s["params"]))
            stack.append((ev["depth"], {"script": to, "vars": dict(s["vars"]), "pa": pa}))
            continue
        ok = ev.get("done") and ev.get("exc") is None
        if ev["op"] == "setvar":
            if ok:
                frame["vars"][ev["name"]] = ev["kw"]["value"]
            continue
        if ev["op"] == "sethost":
            if ok:
                hv[ev["name"]] = ev["kw"]["value"]
            continue
        # attributes of the host: its own variables, then those of the running script
        attrs = {k: x for k, x in frame["vars"].items() if not k.startswith("_")}
        attrs.update(hv)
        n += 1
        if ev["op"] == "vars":
            if not ok:
                if ev.get("done"):
                    out.append(common.v("vars", "the variables of %s cannot be looked up: %s" % (hn, ev["exc"])))
                continue
            r = ev["ret"]
            for v in NAMES + ["amodule", "fora_managed", "pa"]:
                want = attrs.get(v, MISSING)
                for src, how in ((r, "a template"), (r["#attr"], "its attribute")):
                    if src[v] != want or type(src[v]) is not type(want):
                        if v == "_hidden" and want == MISSING and src is r["#attr"]:
                            continue          # private names set in the host's own module are its own affair
                        out.append(common.v("value:%s" % ("attr" if src is not r else "vars"), "on %s in %s, %s is %r for %s instead of %r" % (hn, frame["script"], v, src[v], how, want)))
            if r["#name"] != hn:
                out.append(common.v("host", "the script runs on %s but sees %s" % (hn, r["#name"])))
            keys.append(common.key(sorted((k, repr(x)) for k, x in attrs.items()), hn))
            continue
        if not ev["op"].startswith("files.template") or not ev.get("done"):
            continue
        ctx = {k: x for k, x in (ev["kw"].get("context") or {}).items() if k not in ("host", "inventory")}
        try:
            want = render(ev["rendered"], hv, frame, glob, ctx, hn, attrs)
        except Undefined as e:
            if ok:
                out.append(common.v("undefined:%s" % ev["op"], "on %s, %s uses %s, which is not defined, but it succeeded" % (hn, common.short(ev), e)))
            elif "ValueError" not in ev["exc"]["mro"] and not fired:
                out.append(common.v("undefined:%s" % ev["op"], "on %s, %s uses %s, which is not defined, and fails with %s: %s" % (hn, common.short(ev), e, ev["exc"]["type"], ev["exc"]["msg"][:200])))
            if "after" in ev and not fired and model.diff(ev["before"], ev["after"]):
                out.append(common.v("undefined-touched", "on %s, %s uses %s, which is not defined, but the host was modified: %s" % (hn, common.short(ev), e, list(model.diff(ev["before"], ev["after"]))[:3])))
            keys.append(common.key(ev["kw"], str(e)))
            continue
        if not ok:
            if not fired:
                out.append(common.v("fails:%s" % ev["op"], "on %s in %s, %s fails with %s: %s" % (hn, frame["script"], common.short(ev), ev["exc"]["type"], ev["exc"]["msg"][:200])))
            continue
        node = ev["after"].get(ev["kw"]["dest"])
        if node is None or bytes(node.data) != want:
            out.append(common.v("rendered:%s" % ev["op"], "on %s in %s, the template %r%s gives %r instead of %r" % (
                hn, frame["script"], text(ev["rendered"]), " with context %r" % ctx if ctx else "", node and bytes(node.data), want)))
        keys.append(common.key(ev["rendered"], want))
    if not fired and seen != order and not out:
        out.append(common.v("hosts", "the deploy ran on %r instead of %r (%s)" % (seen, order, res.get("exc") or res["stderr"][-200:])))
    return {"viol": out, "evals": n, "keys": keys, "sample": common.sample(scn, res)}


def _all(ops):
    for o in ops:
        yield o
        yield from _all(o.get("body", ()))


