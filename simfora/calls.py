"""Connection-level workloads: generators of calls, and the reference answers computed on the host model."""
import errno as E
import hashlib

from . import gen
from .bridge import dec, octal, r_group, r_user

SIZES = [0, 1, 2, 7, 8, 9, 255, 256, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537]
ENV = {"ODD": "\u00fcn\u00ef \n=x", "EMPTY": "", "BIN": "\udcff\udcfe", "LONG": "v" * 5000}


def content(rng, big=False, small=False):
    r = rng.random()
    if big and r < 0.5:
        return {"rnd": [rng.randrange(1 << 20), rng.choice([100000, 300000, 1 << 20, (1 << 20) + 1, 3000000])]}
    if r < 0.3:
        return {"b": rng.choice([b"", b"\0", b"\r\n", b"a" * 10, bytes(range(256)), b"\xff\xfe\0\x01", b"\n", b"\x00\x00\x00\x01", b"\x1a\x04"]).hex()}
    if r < 0.6 or small:
        return {"b": rng.randbytes(rng.randint(0, 60)).hex()}
    return {"rnd": [rng.randrange(1 << 20), rng.choice(SIZES)]}


def a_path(rng, spec, want=None):
    r = rng.random()
    c = [t for t in spec["tree"] if want is None or t[1] == want]
    if c and r < 0.75:
        p = rng.choice(c)[0]
        if rng.random() < 0.06:
            p = rng.choice([p + "/", p.replace("/", "//", 1), p.rsplit("/", 1)[0] + "/./" + p.rsplit("/", 1)[1]])
        return p
    if r < 0.9:
        return rng.choice(["/etc", "/srv", "/tmp"]) + "/" + rng.choice(gen.NAMES + gen.PLAIN_NAMES)
    return rng.choice(["/nowhere/x", "/etc/a/b", "/etc/missing/file", "/", "/tmp", "/srv/" + "n" * 200])


def a_user(rng, spec):
    r = rng.random()
    if r < 0.6:
        return rng.choice(list(spec["users"]))
    if r < 0.85:
        return str(rng.choice(list(spec["users"].values()))[0])
    return rng.choice(["ghost", "4242", "", "ro ot", "\u00fc", "\udcff", "-1"])


def a_group(rng, spec):
    r = rng.random()
    if r < 0.6:
        return rng.choice(list(spec["groups"]))
    if r < 0.85:
        return str(rng.choice(list(spec["groups"].values()))[0])
    return rng.choice(["ghosts", "4242", "", "wheel ", "\u00fc"])


def context(rng, spec, kw, p=0.4, bad=0.12):
    if rng.random() < p:
        kw["user"] = a_user(rng, spec) if rng.random() < bad * 3 else rng.choice(list(spec["users"]))
    if rng.random() < p:
        kw["group"] = a_group(rng, spec) if rng.random() < bad * 3 else rng.choice(list(spec["groups"]))
    if rng.random() < p:
        kw["umask"] = rng.choice(["022", "077", "0", "002", "27", "777"]) if rng.random() > bad else rng.choice(["9", "rwx", "", "0x1f", "8"])
    if rng.random() < p:
        kw["cwd"] = rng.choice(["/", "/etc", "/srv", "/tmp", "/root"]) if rng.random() > bad else rng.choice(["/nowhere", "/etc/a", ""])
    return kw


ARGS = ["x", "", "a b", "-n", "--", "$HOME", "*", "'q\"", "\u00fcn\u00ef", "\udcff\udcfe", "new\nline", "y" * 3000, "\\"]


def run_kw(rng, spec, ids=None, big=False, plain=False):
    """A command whose result is known."""
    kw = {}
    r = rng.random()
    if r < 0.25:
        kw["command"] = ["sim-probe"] + [rng.choice(ARGS) for _ in range(rng.randint(0, 4))]
    elif r < 0.5:
        rc = rng.choice([0, 0, 0, 1, 2, 127, 255, -9, -15])
        o = rng.choice([b"", b"out\n", bytes(range(256)), b"\x00\x00\x00\x05", b"\xff" * 40, b"x" * 5000])
        e = rng.choice([b"", b"", b"err\n", b"\x00\xff"])
        kw["command"] = ["sim-out", str(rc), o.hex(), e.hex()]
    elif r < 0.72:
        kw["command"] = ["sim-cat"]
    elif r < 0.82:
        kw["command"] = ["sim-big", str(rng.randrange(1000)), str(rng.choice([1 << 20, 2500000]) if big else rng.choice(SIZES))]
    elif r < 0.9:
        kw["command"] = ["sim-readin"]
    elif r < 0.95:
        kw["command"] = [rng.choice(["no-such-command", "/etc/none", "/etc", "\u00fc"])]
    else:
        kw["command"] = ["sim-write", rng.choice(["/tmp", "/etc", "/srv"]) + "/log", "t%d" % rng.randrange(1000)]
    if kw["command"][0] in ("sim-cat", "sim-readin") or rng.random() < 0.2:
        if rng.random() < 0.8:
            kw["input"] = content(rng, big)
    if rng.random() < 0.35:
        kw["check"] = False
    if rng.random() < 0.2:
        kw["capture_output"] = False
    return kw


def call(rng, spec, big=False, odd=0.0, ctx=0.3, bad=0.12):
    """One connection call."""
    k = rng.choice(["run", "run", "run", "run", "stat", "stat", "upload", "upload", "download", "download", "download_or", "resolve_user", "resolve_group", "query_user", "query_group", "getenv", "home_dir"])
    pre = "conn" if rng.random() < 0.7 or k in ("download_or", "home_dir") else "ctor"
    kw = {}
    if k == "run":
        kw = run_kw(rng, spec, big=big)
        if rng.random() < ctx:
            context(rng, spec, kw, bad=bad)
    elif k == "stat":
        kw["path"] = a_path(rng, spec)
        if rng.random() < 0.5:
            kw["follow_links"] = rng.random() < 0.7
        if rng.random() < 0.6:
            kw["sha512sum"] = True
    elif k == "upload":
        kw["file"] = a_path(rng, spec, "file")
        kw["content"] = content(rng, big)
        if rng.random() < 0.5:
            kw["mode"] = rng.choice(gen.MODES) if rng.random() > bad else "rw"
        if rng.random() < 0.4:
            kw["owner"] = a_user(rng, spec) if rng.random() < bad * 3 else rng.choice(list(spec["users"]))
            if rng.random() < 0.7:
                kw["group"] = a_group(rng, spec) if rng.random() < bad * 3 else rng.choice(list(spec["groups"]))
    elif k in ("download", "download_or"):
        kw["file"] = a_path(rng, spec, "file")
        if k == "download_or" and rng.random() < 0.6:
            kw["default"] = {"b": b"fallback".hex()}
    elif k in ("resolve_user", "query_user"):
        kw["user"] = a_user(rng, spec)
        if k == "query_user" and rng.random() < 0.5:
            kw["query_password_hash"] = True
        if k == "resolve_user" and rng.random() < 0.2:
            kw["user"] = None
    elif k in ("resolve_group", "query_group"):
        kw["group"] = a_group(rng, spec)
        if k == "resolve_group" and rng.random() < 0.2:
            kw["group"] = None
    elif k == "getenv":
        kw["key"] = rng.choice(["HOME", "PATH", "ODD", "EMPTY", "BIN", "LONG", "NOPE", "\u00fc", "LANG"])
        if pre == "conn" and rng.random() < 0.4:
            kw["default"] = "dflt"
    else:
        if rng.random() < 0.7:
            kw["user"] = a_user(rng, spec)
    op = {"op": "%s.%s" % (pre, k), "kw": kw, "catch": True}
    if rng.random() < odd:
        # something that cannot be transmitted, or that the remote cannot use
        c = [x for x in kw if x in ("command", "input", "path", "file", "content", "user", "group", "key", "mode", "cwd", "umask", "owner")]
        x = rng.choice(c) if c else None
        if x is not None:
            v = rng.choice([{"obj": 1}, 5, 3.5, ["l"], "a\0b"])
            if x in ("input", "content"):
                v = rng.choice([{"obj": 1}, 5, "text", ["l"]])
            if x == "command":
                v = rng.choice([["sim-probe", {"obj": 1}], ["sim-probe", 5], [], ["sim-probe", "a\0b"], ["a\0b"], {"obj": 1}, 7])
            if isinstance(kw[x], str) and x not in ("input", "content") and rng.random() < 0.3:
                v = kw[x] + "\0"
            elif isinstance(kw[x], list) and kw[x] and isinstance(kw[x][-1], str) and rng.random() < 0.2:
                v = kw[x][:-1] + [kw[x][-1] + "\0"]
            kw[x] = v
            op["odd"] = True
    return op


# ---------------------------------------------------------------- reference answers

def has_nul(v):
    if isinstance(v, str):
        return "\0" in v
    if isinstance(v, list):
        return any(has_nul(x) for x in v)
    return False


def look(st, path, follow):
    """(node, None) or (None, errno)"""
    if path == "":
        return None, E.ENOENT
    if not path.startswith("/"):
        return None, "skip"
    try:
        n = st.lookup(path, follow=follow)[2]
    except OSError as e:
        return None, e.errno
    return (n, None) if n is not None else (None, E.ENOENT)


def names(st, n):
    o = next((u for u, e in st.users.items() if e["uid"] == n.uid), str(n.uid))
    g = next((g for g, e in st.groups.items() if e["gid"] == n.gid), str(n.gid))
    return o, g


def size(n):
    if n.type == "file":
        return len(n.data)
    if n.type == "link":
        return len(n.target.encode("utf-8", "surrogateescape"))
    return None


def run_context(ev, st):
    """(uid, gid, umask, cwd, invalid): None means unchanged/unspecified."""
    kw = ev["kw"]
    eff = ev["eff"] if ev["op"].startswith("conn.") else {}
    user = kw.get("user") if kw.get("user") is not None else eff.get("as_user")
    group = kw.get("group") if kw.get("group") is not None else eff.get("as_group")
    umask = kw.get("umask") if kw.get("umask") is not None else eff.get("umask")
    cwd = kw.get("cwd") if kw.get("cwd") is not None else eff.get("cwd")
    bad = False
    uid = gid = None
    m = 0o077
    if umask is not None:
        o = octal(umask)
        if o is None:
            bad = True
        else:
            m = int(o, 8)
    if user is not None:
        u = r_user(st, user)
        if u is None:
            bad = True
        else:
            uid, gid = st.users[u]["uid"], st.users[u]["gid"]
    if group is not None:
        g = r_group(st, group)
        if g is None:
            bad = True
        else:
            gid = st.groups[g]["gid"]
    if cwd is not None:
        n, _ = look(st, cwd, True)
        if n is None or n.type != "dir":
            bad = True
    return uid, gid, m, cwd, bad


def searchable(st, uid, gid, path):
    """Whether a process with these ids can change to the directory (None: cannot tell)."""
    cur = ""
    for c in [x for x in path.split("/") if x]:
        cur += "/" + c
        n = st.get(cur)
        if n is None or n.type != "dir":
            return None
        bits = n.mode >> 6 if n.uid == uid else n.mode >> 3 if n.gid == gid else n.mode
        if not bits & 1:
            return False
    return True


def run_result(kw):
    """(rc, stdout, stderr) of a workload command, ("errno", n), or None if unknown."""
    c = kw["command"]
    inp = dec(kw["input"]) if kw.get("input") is not None else b""
    if c[0] in ("sim-probe", "sim-readin", "sim-write"):
        return 0, b"", b""
    if c[0] == "sim-out":
        return int(c[1]), bytes.fromhex(c[2]), bytes.fromhex(c[3])
    if c[0] == "sim-cat":
        return 0, inp, b""
    if c[0] == "sim-big":
        import random
        return 0, random.Random(int(c[1])).randbytes(int(c[2])), b""
    if c[0] in ("no-such-command", "/etc/none", "\u00fc"):
        return "errno", E.ENOENT
    if c[0] == "/etc":
        return "errno", E.EACCES
    return None


def expect(ev, st, login):
    """The answer the call must give on host state st for a privileged session without faults:
    ("ret", check(value) -> problem or None) | ("value",) | ("remote", errno) | ("proc", rc, out, err) | ("raise",) | ("skip",)"""
    k = ev["op"].split(".")[1]
    pre = ev["op"].split(".")[0]
    kw = ev["kw"]
    if ev.get("odd"):
        return ("odd",)
    if any(has_nul(v) for v in kw.values()):
        return ("raise",)

    def eq(want):
        return ("ret", lambda v: None if v == want else "returned %s instead of %s" % (repr(v)[:200], repr(want)[:200]))
    if k == "stat":
        n, err = look(st, kw["path"], kw.get("follow_links", False))
        if err == "skip":
            return ("skip",)
        if err == E.ENOENT:
            return eq(None)
        if err is not None:
            return ("remote", err)
        o, g = names(st, n)
        want = {"type": n.type, "mode": "%o" % n.mode, "owner": o, "group": g, "mtime": n.mtime, "ctime": n.ctime,
                "sha512sum": hashlib.sha512(n.data).digest() if kw.get("sha512sum") and n.type == "file" else None}
        if size(n) is not None:
            want["size"] = size(n)

        def chk(v):
            if not isinstance(v, dict):
                return "returned %r" % (v,)
            for a, b in want.items():
                if v.get(a) != b:
                    return "%s is %r instead of %r" % (a, v.get(a), b)
        return ("ret", chk)
    if k == "resolve_user":
        u = r_user(st, kw["user"] if kw["user"] is not None else login)
        return eq(u) if u is not None else ("value",)
    if k == "resolve_group":
        g = r_group(st, kw["group"] if kw["group"] is not None else str(st.users[login]["gid"]))
        return eq(g) if g is not None else ("value",)
    if k in ("query_user", "home_dir"):
        u = r_user(st, kw["user"] if kw.get("user") is not None else login)
        if u is None:
            return eq(None) if k == "query_user" and pre == "conn" else ("value",)
        e = st.users[u]
        if k == "home_dir":
            return eq(e["home"])
        g = next((g for g, x in st.groups.items() if x["gid"] == e["gid"]), None)
        if g is None:
            return eq(None) if pre == "conn" else ("value",)
        want = {"name": u, "uid": e["uid"], "group": g, "gid": e["gid"], "password_hash": e["pw"] if kw.get("query_password_hash") else None, "gecos": e["gecos"],
                "home": e["home"], "shell": e["shell"]}
        gs = sorted(x for x, d in st.groups.items() if u in d["members"])

        def chk(v):
            if not isinstance(v, dict):
                return "returned %r" % (v,)
            for a, b in want.items():
                if v.get(a) != b:
                    return "%s is %r instead of %r" % (a, v.get(a), b)
            if sorted(v["groups"]) != gs:
                return "groups are %r instead of %r" % (v["groups"], gs)
        return ("ret", chk)
    if k == "query_group":
        g = r_group(st, kw["group"])
        if g is None:
            return eq(None) if pre == "conn" else ("value",)

        def chk(v):
            d = st.groups[g]
            if not isinstance(v, dict) or (v["name"], v["gid"], sorted(v["members"])) != (g, d["gid"], sorted(d["members"])):
                return "returned %r" % (v,)
        return ("ret", chk)
    if k == "getenv":
        return eq(st.env.get(kw["key"], kw.get("default")))
    if k in ("download", "download_or"):
        n, err = look(st, kw["file"], True)
        if err == "skip":
            return ("skip",)
        if err == E.ENOENT:
            return eq(dec(kw["default"]) if kw.get("default") is not None else None) if k == "download_or" else ("value",)
        if err is not None:
            return ("remote", err)
        if n.type == "dir":
            return ("remote", E.EISDIR)
        if n.type != "file" or kw["file"].endswith("/"):
            return ("skip",)
        return eq(n.data)
    if k == "upload":
        if kw.get("mode") is not None and octal(kw["mode"]) is None:
            return ("value",)
        if kw.get("owner") is not None and r_user(st, kw["owner"]) is None:
            return ("value",)
        if kw.get("group") is not None and r_group(st, kw["group"]) is None:
            return ("value",)
        n, err = look(st, kw["file"], True)
        if err == "skip" or kw["file"].endswith("/"):
            return ("skip",)
        if err == E.ENOENT:
            try:
                p, nm, x = st.lookup(kw["file"], follow=False)
            except OSError as e:
                return ("remote", e.errno)
            if x is None:
                return eq(None)
            return ("skip",)              # through a dangling link
        if err is not None:
            return ("remote", err)
        if n.type == "dir":
            return ("remote", E.EISDIR)
        return eq(None)
    if k == "run":
        uid, gid, m, cwd, bad = run_context(ev, st)
        if bad:
            return ("value",)
        if any(not isinstance(x, str) for x in kw["command"]):
            return ("raise",)
        r = run_result(kw)
        if r is None:
            return ("skip",)
        if uid not in (None, 0) and cwd is not None and gid is not None:
            ok = searchable(st, uid, gid, cwd)
            if ok is not True:
                return ("raise",) if ok is False else ("skip",)
        if r[0] == "errno":
            return ("remote", r[1]) if uid in (None, 0) else ("raise",)
        if kw["command"][0] == "sim-write" and uid not in (None, 0):
            return ("skip",)
        rc, o, e = r
        if not kw.get("capture_output", True):
            o = e = None
        if rc != 0 and kw.get("check", True):
            return ("proc", rc, o, e)

        def chk(v):
            if not isinstance(v, dict):
                return "returned %r" % (v,)
            if v["returncode"] != rc:
                return "exit status is %r instead of %r" % (v["returncode"], rc)
            for a, b in (("stdout", o), ("stderr", e)):
                if (v[a] or b"") != (b or b"") or (b and v[a] is None):
                    return "%s is %s instead of %s" % (a, short(v[a]), short(b))
        return ("ret", chk)
    return ("skip",)


def short(b):
    if b is None or len(b) <= 60:
        return repr(b)
    return "%r…%r (%d bytes)" % (b[:20], b[-20:], len(b))


def is_a(exc, name):
    return name in exc["mro"]


def judge(ev, st, login):
    """None if the outcome of a fault-free call is right, else the problem."""
    x = expect(ev, st, login)
    exc = ev.get("exc")
    what = "raised %s: %s" % (exc["type"], exc["msg"][:200]) if exc else "returned %s" % repr(ev.get("ret"))[:200]
    if x[0] == "skip":
        return None
    if x[0] == "odd":
        return None
    if x[0] == "ret":
        if exc:
            return what
        return x[1](ev.get("ret"))
    if exc is None:
        return what + " instead of raising"
    if x[0] == "raise":
        return None if not lost(exc) else what
    if x[0] == "value":
        return None if is_a(exc, "ValueError") else what + " instead of a value error"
    if x[0] == "remote":
        return None if exc["type"] == "RemoteOSError" and exc.get("errno") == x[1] else what + " instead of a remote OS error with errno %d" % x[1]
    if x[0] == "proc":
        if not is_a(exc, "CalledProcessError"):
            return what + " instead of a process error"
        if exc["returncode"] != x[1]:
            return "process error with status %r instead of %r" % (exc["returncode"], x[1])
        if (exc["stdout"] or b"") != (x[2] or b"") or (exc["stderr"] or b"") != (x[3] or b""):
            return "process error with output %r / %r" % (exc["stdout"], exc["stderr"])
        return None
    raise AssertionError(x)


def lost(exc):
    """The exception says that the connection is gone."""
    return is_a(exc, "OSError") and not is_a(exc, "RemoteOSError")


def effects(ev, before, after, execs):
    """None if a call that returned (or failed by its command's status) had its effect, else the problem."""
    k = ev["op"].split(".")[1]
    kw = ev["kw"]
    if ev.get("odd"):
        return None
    if k == "upload" and ev.get("exc") is None:
        n = after.get(kw["file"], True)
        if n is None or n.type != "file":
            return "the uploaded file does not exist"
        c = dec(kw["content"])
        if n.data != c:
            return "the file holds %s instead of %s" % (short(n.data), short(c))
        if kw.get("mode") is not None and "%o" % n.mode != octal(kw["mode"]):
            return "the file has mode %o" % n.mode
        if kw.get("owner") is not None and n.uid != after.users[r_user(after, kw["owner"])]["uid"]:
            return "the file is owned by %d" % n.uid
        if kw.get("group") is not None and n.gid != after.groups[r_group(after, kw["group"])]["gid"]:
            return "the file has gid %d" % n.gid
    if k == "run" and (ev.get("exc") is None or is_a(ev["exc"], "CalledProcessError")):
        if len(execs) != 1:
            return "the command was executed %d times" % len(execs)
        x = execs[0]
        if x["argv"] != kw["command"]:
            return "the executed command is %r" % (x["argv"],)
        inp = dec(kw["input"]) if kw.get("input") is not None else b""
        if (x["stdin"] or b"") != inp:
            return "the command's input is %s instead of %s" % (short(x["stdin"]) if isinstance(x["stdin"], bytes) else x["stdin"], short(inp))
    return None


def program(rng, n=(3, 9), user="root", big=False, odd=0.0, ctx=0.3, bad=0.12, nest=0.2, sparse=False):
    """A deploy made of connection calls. Returns (addr, scenario)."""
    spec = gen.host_spec(rng, user, exotic=0.5)
    spec["env"].update({k: v for k, v in ENV.items() if rng.random() < 0.7})
    for t in spec["tree"]:
        if t[1] == "file" and rng.random() < 0.5:
            t[5] = content(rng, big)
        if t[1] in ("file", "dir") and rng.random() < 0.15:
            t.append(rng.choice([0, -1, -86400 * 10**9, 10**18, 4102444800 * 10**9 + 1, 2**31 * 10**9]))
        if t[1] in ("file", "dir") and t[0].count("/") > 1 and rng.random() < 0.1 and user == "root":
            t[3] = rng.choice([7777, 12345])
    if user == "root" and rng.random() < 0.25:
        # identities of directory services are beyond any signed or 16 bit range
        u, g = rng.choice([65536, 2147483648, 4000000000, 4294967290]), rng.choice([65534, 2147483649, 4294967293])
        spec["users"]["corp_bigid"] = [u, g, "", "/home/bigid", "/bin/sh", "!"]
        spec["groups"]["corp_big"] = [g, []]
        for t in spec["tree"]:
            if t[1] in ("file", "dir") and t[0].count("/") > 1 and rng.random() < 0.4:
                t[3], t[4] = u, g
    ops = []
    for _ in range(rng.randint(*n)):
        c = call(rng, spec, big, odd, ctx, bad)
        if rng.random() < nest:
            ops.append({"op": "defaults", "kw": {k: v for k, v in gen.defaults_kw(rng, spec, users=0.4).items() if k in ("as_user", "as_group", "umask", "cwd")}, "body": [c]})
        else:
            ops.append(c)
    addr, inv = gen.target(rng, user)
    pol = {"chunk": rng.choice(["all", "all", "rand"]), "stay": rng.choice([0.2, 0.8]), "cap": rng.choice([4096, 65536, 1 << 20]), "shortio": rng.choice([0.0, 0.2])} if big else gen.policy(rng)
    pre = ["--no-color"]
    if rng.random() < 0.1:
        pre.append("--debug")
    return addr, {"seed": rng.randrange(1 << 30), "policy": pol, "hosts": {addr: {"spec": spec, "faults": []}}, "files": {}, "programs": {"deploy.py": ops}, "snap": "all",
                  "argv": pre + [inv, "deploy.py"], "login": user, "step_cap": 3000000}


def events(res):
    return [e for e in res["events"] if e["op"].split(".")[0] in ("conn", "ctor") and e.get("done")]
