"""Executes generated deploy programs inside the real fora script environment and records
what every step did. Generated scripts contain `bridge.script("name", globals())`."""
import os
import sys

from . import controller
from .sched import SimHang, SimKilled, SimUnsupported


def dec(v):
    """Decodes program values ({"b": hex}, {"rep": [hex, n]}, {"rnd": [seed, n]}, {"cat": [value…]})."""
    if isinstance(v, dict):
        if "b" in v and len(v) == 1:
            return bytes.fromhex(v["b"])
        if "rep" in v and len(v) == 1:
            return bytes.fromhex(v["rep"][0]) * v["rep"][1]
        if "rnd" in v and len(v) == 1:
            import random
            return random.Random(v["rnd"][0]).randbytes(v["rnd"][1])
        if "cat" in v and len(v) == 1:
            return b"".join(x.encode("utf-8", "surrogateescape") if isinstance(x, str) else x for x in map(dec, v["cat"]))
        if "obj" in v and len(v) == 1:
            return object()
        return {k: dec(x) for k, x in v.items()}
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


class ScriptedError(Exception):
    """Raised by generated scripts."""


def plain(v):
    """A picklable picture of a returned value."""
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return v
    if isinstance(v, tuple) and hasattr(v, "_asdict"):
        return {k: plain(x) for k, x in v._asdict().items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((plain(x) for x in v), key=repr)
    if isinstance(v, dict):
        return {k if isinstance(k, (str, int)) else repr(k): plain(x) for k, x in v.items()}
    if hasattr(v, "__dataclass_fields__"):
        return {k: plain(getattr(v, k)) for k in v.__dataclass_fields__}
    if type(v).__module__.startswith("fora."):
        d = {k: getattr(v, k) for c in type(v).__mro__ for k in getattr(c, "__slots__", ()) if hasattr(v, k)}
        d.update(getattr(v, "__dict__", {}))
        if d and all(x is None or isinstance(x, (bool, int, float, str, bytes, list, tuple)) for x in d.values()):
            return {k: plain(x) for k, x in d.items()}
    return "<" + type(v).__name__ + ">"


def settings(s):
    return {k: getattr(s, k) for k in ("as_user", "as_group", "owner", "group", "file_mode", "dir_mode", "umask", "cwd")}


# ---------------------------------------------------------------- model of the effective defaults

BASE = {"file_mode": "600", "dir_mode": "700", "umask": "77", "cwd": "/tmp"}


def r_user(st, name):
    """The canonical name of a user given by name or id, or None."""
    if name in st.users:
        return name
    try:
        n = int(name)
    except (TypeError, ValueError):
        return None
    for u, e in st.users.items():
        if e["uid"] == n:
            return u
    return None


def r_group(st, name):
    if name in st.groups:
        return name
    try:
        n = int(name)
    except (TypeError, ValueError):
        return None
    for g, e in st.groups.items():
        if e["gid"] == n:
            return g
    return None


def octal(v):
    try:
        return oct(int(v, 8))[2:]
    except (TypeError, ValueError):
        return None


def base_eff(ctx):
    s = ctx.cur
    st = s.host.st
    u = st.users[s.login]
    g = r_group(st, str(u["gid"]))
    d = dict(BASE)
    d.update(ctx.inv.get("base", {}))
    d.update(as_user=s.login, as_group=g, owner=s.login, group=g)
    return d


def overlay(st, eff, kw):
    """(new effective values, list of invalid keys)"""
    d = dict(eff)
    bad = []
    for k, v in kw.items():
        if v is not None:
            d[k] = v
    for k in ("as_user", "owner"):
        d[k] = r_user(st, d[k])
    for k in ("as_group", "group"):
        d[k] = r_group(st, d[k])
    for k in ("file_mode", "dir_mode", "umask"):
        d[k] = octal(d[k])
    bad = [k for k, v in d.items() if v is None]
    n = st.get(d["cwd"]) if d["cwd"] else None
    if n is None or n.type != "dir":
        bad.append("cwd")
    return d, bad


def script(name, g):
    ctx = controller.CTX
    prog = ctx.programs.get(name, [])
    ctx.effs.append(base_eff(ctx))
    try:
        run_block(ctx, prog, name, g)
    finally:
        ctx.effs.pop()


def run_block(ctx, prog, name, g):
    for op in prog:
        run_op(ctx, op, name, g)


def marks(ctx):
    s = ctx.cur
    h = s.host if s is not None else None
    m = {"step": ctx.sim.steps, "ctl": ctx.sim.ctl_points, "now": ctx.sim.now}
    if h is not None:
        m.update(mut=len(h.mutlog), ex=len(h.execlog), nsys=h.nsys, ncmd=h.ncmd,
                 req=s.req.written, reqd=s.req.delivered, resp=s.resp.consumed, lost=s.lost, exited=s.exited)
    return m


def probe(ctx, name, g):
    import fora
    import fora.loader
    import fora.logger
    p = {"cwd": os.path.relpath(os.getcwd(), ctx.scratch), "indent": fora.logger.state.indentation_level,
         "stack": len(fora.loader.script_stack), "params": plain(g.get("_params")) if g is not None else None,
         "script": getattr(fora.script, "name", None), "script_file": os.path.relpath(fora.script.definition_file(), ctx.scratch) if fora.script else None,
         "host": getattr(fora.host, "name", None)}
    if fora.script is not None:
        p["defaults"] = settings(fora.script.current_defaults())
    ps = g.get("params") if g is not None else None
    if ps is not None and hasattr(ps, "__annotations__"):
        p["Params"] = {k: plain(getattr(ps, k, "<unset>")) for k in ps.__annotations__}
    return p


def first_mod(host, ev, e):
    """Records the directory of a managed file at the moment the file is first modified."""
    path = ev["kw"]["path"]
    if e["path"] != path or "dir_at_mod" in ev:
        return
    d = path.rsplit("/", 1)[0] or "/"
    node = host.st.get(d)
    snap = {}
    if node is not None and node.type == "dir":
        for name in node.entries:
            n = host.st.fs.inodes[node.entries[name]]
            if n.type == "file":
                snap[name] = n.data
    ev["dir_at_mod"] = snap


def run_op(ctx, op, name, g):
    import fora
    if op.get("on") is not None and fora.host.name not in op["on"]:
        return
    kind = op["op"]
    s = ctx.cur
    host = s.host if s is not None else None
    i = len(ctx.events)
    ev = {"i": i, "op": kind, "kw": op.get("kw"), "script": name, "depth": ctx.depth, "addr": s.addr if s else None,
          "session": s.index if s else None, "id": op.get("id"), "m0": marks(ctx), "done": False, "eff": ctx.effs[-1] if ctx.effs else None,
          "rendered": op.get("rendered"), "name": op.get("name"), "odd": op.get("odd"), "hostname": getattr(fora.host, "name", None)}
    ctx.events.append(ev)
    if host is not None:
        host.tag = i
        if ctx.snap and (kind.split(".")[0] not in ("conn", "ctor", "defaults", "script", "probe", "raise", "try", "vars", "setvar", "sethost", "chdir") or ctx.snap == "all"):
            ev["before"] = host.st.clone()
        host.watch = None
        if kind == "files.line" and (op.get("kw") or {}).get("backup"):
            host.watch = lambda e: first_mod(host, ev, e)
    if kind in ("script", "defaults", "try"):
        ev["path"], ev["limit"] = op.get("path"), op.get("limit")
        ev["pre"] = probe(ctx, name, g)
    ctx.sim.note("op", i, kind)
    ctx.depth += 1
    at = (sys.stdout.tell(), sys.stderr.tell()) if ctx.output else None
    try:
        try:
            ret = perform(ctx, op, kind, name, g)
        finally:
            ctx.depth -= 1
            if at is not None:
                ev["out"], ev["err"] = sys.stdout.getvalue()[at[0]:], sys.stderr.getvalue()[at[1]:]
            if s is not None and host is not None:
                ev["m1"] = marks(ctx)
        ev["done"] = True
        ev["ret"] = ret
    except (SimHang, SimKilled, SimUnsupported):
        ev["killed"] = True
        raise
    except BaseException as e:
        ev["done"] = True
        ev["exc"] = controller.excinfo(e)
        if host is not None and "before" in ev:
            ev["after"] = host.st.clone()
            host.tag = ("after", i)
        if kind in ("defaults", "script", "try"):
            ev["post"] = probe(ctx, name, g)
        c = op.get("catch")
        if c and (isinstance(e, Exception) or c == "all"):
            ev["caught"] = True
            return
        raise
    if host is not None and "before" in ev:
        ev["after"] = host.st.clone()
    if host is not None:
        host.tag = ("after", i)
    if kind in ("defaults", "script", "try"):
        ev["post"] = probe(ctx, name, g)


def perform(ctx, op, kind, name, g):
    import fora
    kw = {k: dec(v) for k, v in (op.get("kw") or {}).items()}
    if kind.split(".")[0] in ("files", "system", "apt", "pacman", "portage", "systemd", "git", "script"):
        # equal lists and dictionaries are the same object, as if they were constants of the script
        for k, v in kw.items():
            if isinstance(v, (list, dict)) and v:
                kw[k] = ctx.constants.setdefault(repr((k, v)), v)
    args = [dec(v) for v in op.get("args", ())]
    mod, _, fn = kind.partition(".")
    if mod == "conn":
        c = fora.host.connection
        return plain(getattr(c, fn)(*args, **kw))
    if mod == "ctor":
        return plain(getattr(fora.host.connection.connector, fn)(*args, **kw))
    if kind == "defaults":
        ev = ctx.events[-1]
        new, ev["bad"] = overlay(ctx.cur.host.st, ctx.effs[-1], kw)
        ctxm = fora.script.defaults(**kw)
        with ctxm as attr:
            ctx.events.append({"i": len(ctx.events), "op": "#entered", "attr": settings(attr), "depth": ctx.depth, "eff": new,
                               "current": settings(fora.script.current_defaults()), "of": ev["i"]})
            ctx.effs.append(new)
            try:
                run_block(ctx, op["body"], name, g)
            finally:
                ctx.effs.pop()
        return None
    if kind == "script":
        from fora.operations import local
        if op.get("limit") is not None and ctx.depth > op["limit"]:
            return "skipped"
        path = op["path"]
        local.script(ctx.scratch + path[1:] if path.startswith("@/") else path, **kw)
        return None
    if kind == "chdir":
        os.chdir(ctx.scratch + op["path"][1:])
        return None
    if kind == "raise":
        exc = {"error": ScriptedError, "value": ValueError, "interrupt": KeyboardInterrupt, "exit": SystemExit, "os": OSError,
               "runtime": RuntimeError}[op["exc"]]
        if op["exc"] == "exit":
            raise SystemExit(op.get("code", 5))
        raise exc(op.get("msg", "scripted"))
    if kind == "try":
        run_block(ctx, op["body"], name, g)
        return None
    if kind == "probe":
        return probe(ctx, name, g)
    if kind == "vars":
        h = fora.host
        d = h.vars_hierarchical()
        return {k: plain(d.get(k, "<unset>")) for k in op["names"]} | {"#attr": {k: plain(getattr(h, k, "<unset>")) for k in op["names"]},
                                                                         "#groups": sorted(h.groups), "#name": h.name}
    if kind == "setvar":
        g[op["name"]] = kw["value"]
        return None
    if kind == "sethost":
        setattr(fora.host, op["name"], kw["value"])
        return None
    import importlib
    m = importlib.import_module("fora.operations." + mod)
    r = getattr(m, fn)(*args, **kw)
    return {"success": r.success, "changed": r.changed, "initial": plain(r.initial), "final": plain(r.final), "msg": r.failure_message,
            "type": type(r.success).__name__ + type(r.changed).__name__}
