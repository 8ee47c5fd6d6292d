"""Helpers shared by the checks."""
import hashlib
import json

from . import model, scen

OPMODS = ("files", "system", "pacman", "apt", "portage", "systemd", "git", "pip", "postgres")


def is_op(ev):
    return ev["op"].split(".")[0] in OPMODS


def ops(res):
    """Operation events that ran to an end."""
    return [e for e in res.get("events", ()) if is_op(e) and e.get("done")]


def succeeded(ev):
    return ev.get("ret") is not None and ev["ret"]["success"] is True


def dead_at(ev):
    """The connection was gone when the operation ended."""
    m = ev.get("m1") or {}
    return bool(m.get("lost") or m.get("exited"))


def short(ev):
    r = ev.get("ret")
    x = ev.get("exc")
    return "%s(%s) -> %s" % (ev["op"], ", ".join("%s=%s" % (k, repr(v)[:60]) for k, v in (ev.get("kw") or {}).items()),
                             ("%s: %s" % (x["type"], x["msg"][:120])) if x else (("success" if r["success"] else "failed: %s" % r["msg"]) + (" changed" if r["changed"] else "")) if isinstance(r, dict) and "success" in r else repr(r)[:100])


def key(*parts):
    return hashlib.sha256(repr(parts).encode("utf-8", "surrogateescape")).hexdigest()[:16]


def faults_of(scn):
    out = []
    for h in scn["hosts"].values():
        out += h.get("faults") or []
    for k in ("session_faults", "local_faults"):
        out += scn.get(k) or []
    if scn.get("kbd"):
        out.append({"kbd": scn["kbd"]})
    if scn.get("ctlkill") is not None:
        out.append({"ctlkill": scn["ctlkill"]})
    return out


def sample(scn, res, evs=None):
    return {"seed": scn.get("seed"), "argv": scn.get("argv"), "policy": scn.get("policy"), "faults": faults_of(scn),
            "operations": [short(e) for e in (evs if evs is not None else ops(res))][:8], "outcome": res["exit"]}


def v(sig, msg, **kw):
    return dict(sig=sig, msg=msg, **kw)
