"""Generators of hosts, local source trees, operations, policies. Everything they
return is plain JSON, so a scenario can be stored, minimised and replayed."""
import random

from . import model
from .kernel import HostState

# ---------------------------------------------------------------- hosts

BASE_USERS = {"root": [0, 0, "", "/root", "/bin/bash", "!"],
              "daemon": [2, 2, "", "/", "/sbin/nologin", "!"],
              "alice": [1000, 1000, "Alice", "/home/alice", "/bin/bash", "$6$aa$AAAA"],
              "bob": [1001, 100, "", "/home/bob", "/bin/sh", "!"],
              "svc": [998, 997, "Service", "/dev/null", "/sbin/nologin", "!"]}
BASE_GROUPS = {"root": [0, []], "daemon": [2, []], "wheel": [10, []], "video": [44, []], "users": [100, []], "alice": [1000, []],
               "svc": [997, []], "audio": [63, []]}

MODES = ["644", "0644", "600", "755", "750", "4755", "2755", "6711", "2775", "1777", "777", "640", "0", "2644", "400", "07", "0600", "6755", "664"]
DIRMODES = ["755", "700", "750", "2775", "1777", "2755", "0755", "777", "711", "500", "3770"]
NAMES = ["a", "b.conf", "c d", "-dash", "ünï", "x'y\"z", "\udcff\udcfe", "tab\there", "$HOME", "long" * 12, "*.py", "e#f", "new\nline", "trail "]
PLAIN_NAMES = ["a", "b.conf", "c", "d.txt", "e", "f.ini", "g", "h"]
TEXTS = ["", "x", "hello\n", "key = value\nother\n", "line without newline", "ünïcode ✓\n", "a\r\nb\r\n", "\x00\x01binary-ish\n", "  indented\n\n\n", "{% raw %}{{ no }}{% endraw %}",
         "\n", " \t \n", "\n\n\n", "\ufeffbom\n", "trailing  \n", "cr\ronly\r", "\u2028sep\x0b\x0c\n", "x" * 4096, "ends with nul\x00"]


def host_spec(rng, user="root", exotic=0.3, rich=True):
    users = {k: list(v) for k, v in BASE_USERS.items()}
    groups = {k: [v[0], list(v[1])] for k, v in BASE_GROUPS.items()}
    for u in ("alice", "bob", "svc"):
        for g in ("wheel", "video", "audio", "users"):
            if rng.random() < 0.2:
                groups[g][1].append(u)
    if rng.random() < 0.12:
        # a member of more groups than fit into any fixed list
        for i in range(rng.choice([9, 17, 33])):
            groups["team%d" % i] = [3000 + i, ["alice"] if rng.random() < 0.9 else []]
    tree = [["/tmp", "dir", 0o1777, 0, 0, None], ["/root", "dir", 0o700, 0, 0, None], ["/home", "dir", 0o755, 0, 0, None],
            ["/home/alice", "dir", 0o700, 1000, 1000, None], ["/etc", "dir", 0o755, 0, 0, None], ["/srv", "dir", 0o755, 0, 0, None],
            ["/var", "dir", 0o755, 0, 0, None]]
    dirs = ["/etc", "/srv", "/var", "/tmp", "/home/alice"]
    if user != "root":
        tree.append(["/work", "dir", 0o755, users[user][0], users[user][1], None])
        dirs = ["/work", "/work", "/work", "/tmp", "/etc"]
    taken = {t[0] for t in tree}
    n = rng.randint(2, 7) if rich else rng.randint(0, 2)
    uids = [v[0] for v in users.values()]
    gids = [v[0] for v in groups.values()]
    for _ in range(n):
        d = rng.choice(dirs)
        nm = rng.choice(NAMES if rng.random() < exotic else PLAIN_NAMES)
        p = d + "/" + nm
        if p in taken:
            continue
        taken.add(p)
        own = (rng.choice(uids), rng.choice(gids)) if rng.random() < 0.6 else (users[user][0], users[user][1])
        r = rng.random()
        if r < 0.45:
            tree.append([p, "file", int(rng.choice(MODES), 8), own[0], own[1], text(rng)])
        elif r < 0.75:
            tree.append([p, "dir", int(rng.choice(DIRMODES), 8), own[0], own[1], None])
            if "/" not in nm:
                dirs.append(p)
        else:
            tree.append([p, "link", 0o777, own[0], own[1], rng.choice(["/etc", "/nowhere", "a", "../srv", "/etc/a", "/tmp", "b.conf"])])
    return {"user": user, "users": users, "groups": groups, "tree": tree, "packages": [], "available": [], "services": {}, "user_services": {},
            "tools": [], "env": {"PATH": "/usr/bin:/bin", "HOME": users[user][3], "LANG": "C.UTF-8"}, "git": {}}


def text(rng):
    r = rng.random()
    if r < 0.7:
        return {"b": rng.choice(TEXTS).encode("utf-8", "surrogateescape").hex()}
    if r < 0.85:
        return {"b": rng.randbytes(rng.randint(1, 40)).hex()}
    return {"rep": [rng.randbytes(rng.randint(1, 3)).hex(), rng.randint(1, 3000)]}


def build_state(spec):
    from .bridge import dec
    st = HostState()
    for u, v in spec["users"].items():
        st.users[u] = dict(zip(("uid", "gid", "gecos", "home", "shell", "pw"), v))
    for g, v in spec["groups"].items():
        st.groups[g] = {"gid": v[0], "members": list(v[1])}
    for p, t, mode, uid, gid, data, *rest in spec["tree"]:
        try:
            if t == "file":
                st.put(p, "file", mode, uid, gid, data=dec(data) if data is not None else b"", mtime=rest[0] if rest else None)
            elif t == "link":
                st.put(p, "link", None, uid, gid, target=data)
            else:
                st.put(p, t, mode, uid, gid, mtime=rest[0] if rest else None)
        except OSError:
            pass        # a minimised scenario may lack a parent
    st.packages = set(spec.get("packages", ()))
    st.pkg_available = set(spec.get("available", ())) | st.packages
    for k, v in spec.get("services", {}).items():
        st.services[k] = dict(v)
    for k, v in spec.get("user_services", {}).items():
        st.user_services[k] = dict(v)
    st.tools = set(spec.get("tools", ()))
    st.env = dict(spec.get("env", {}))
    st.git_remotes = {k: {"refs": dict(v["refs"]), "default": v["default"], "tags": {n: tuple(t) for n, t in v.get("tags", {}).items()}, "old": list(v.get("old", ()))} for k, v in spec.get("git", {}).items()}
    st.usergroups_enab = spec.get("usergroups_enab", True)
    return st


# ---------------------------------------------------------------- schedule policies

def policy(rng, big=False):
    r = rng.random()
    if r < 0.15:
        return {"chunk": "all", "stay": 0.9, "cap": 65536, "shortio": 0.0}
    return {"chunk": rng.choice(["all", "one", "small", "rand", "mixed"]), "stay": rng.choice([0.0, 0.2, 0.5, 0.8]),
            "cap": rng.choice([4096, 65536, 65536, 1 << 20]) if big else rng.choice([1, 3, 16, 200, 4096, 65536]),
            "shortio": rng.choice([0.0, 0.0, 0.15, 0.5])}


def quiet_policy(rng):
    return {"chunk": rng.choice(["all", "rand"]), "stay": 0.7, "cap": 65536, "shortio": rng.choice([0.0, 0.0, 0.1])}


# ---------------------------------------------------------------- local sources

def sources(rng):
    """Files below the deploy directory: {relative path: value}, and a list of directories."""
    files = {"src/one.txt": {"b": b"one\n".hex()}, "src/empty": {"b": ""}, "src/bin": {"b": rng.randbytes(rng.randint(1, 60)).hex()}}
    r = rng.random()
    if r < 0.3:
        files["src/large"] = {"rep": [rng.randbytes(2).hex(), rng.randint(1000, 20000)]}
    elif r < 0.37:
        files["src/huge"] = {"cat": [{"rep": [rng.randbytes(3).hex(), rng.choice([21846, 43700, 87382, 87382, 349526])]}, {"b": rng.randbytes(2).hex()}]}
    files["tree/f1"] = {"b": b"f1".hex()}
    if rng.random() < 0.7:
        files["tree/sub/f2"] = {"b": b"f2\n".hex()}
    if rng.random() < 0.4:
        files["tree/sub/deep er/f 3"] = {"b": rng.randbytes(5).hex()}
    if rng.random() < 0.4:
        files["tree/zz.conf"] = {"b": "ü".encode().hex()}
    if rng.random() < 0.3:
        files["tree/emptydir/"] = None
    for f in (".hidden", "sub/none", "backup~", "-dash", ".git/config", "#x#", "__pycache__/m.pyc", "a/b/c/d", "lock.lock", "x.bak"):
        if rng.random() < 0.2:
            files["tree/" + f] = {"b": rng.choice([b"", b"", b"data\n", b" \n"]).hex()}
    for f in (" lead", "trail ", "sp ace /in ", " d/e", "\t", "UP.TXT", "%s", "{{ x }}", "*", "e\u0301"):
        if rng.random() < 0.06:
            files["tree/" + f] = {"b": rng.choice([b"", b"x\n"]).hex()}
    if rng.random() < 0.2:
        files["src/lnk.conf"] = {"link": rng.choice(["one.txt", "bin", "empty"])}
    if rng.random() < 0.15:
        files["tree/lnk"] = {"link": rng.choice(["f1", "../src/one.txt"])}
    for i, (t, _) in enumerate(TEMPLATES):
        files["tpl/t%d.j2" % i] = {"b": t.encode().hex()}
    return files


# templates and what they render to (None: must fail); \0HOST\0 stands for the host's name
TEMPLATES = [("<{{ tvar }}>\n{% for i in [1,2] %}{{ i }}{% endfor %}", lambda v: "<%s>\n12" % v),
             ("v={{ tvar }} {{ host.name }}\n", lambda v: "v=%s \0HOST\0" % v),
             ("{{ tvar }}{# c #}-{{ 'x' if tvar else 'y' }}\n\n", lambda v: v + "-" + ("x" if v else "y") + "\n"),
             ("no vars: \u00fcn\u00ef &<>\"'", lambda v: "no vars: \u00fcn\u00ef &<>\"'"),
             ("{{ not_defined }}", lambda v: None),
             ("\n {{ tvar }} \n", lambda v: "\n %s " % v),
             ("{{ tvar | upper }}|{{ tvar | length }}\t\n\n\n", lambda v: "%s|%d\t\n\n" % (v.upper(), len(v)))]
TVALS = ["val", "\u00fcn\u00ef", "a b", "", "<&\"'>", "{{ x }}"]


def pick_template(rng):
    i = rng.randrange(len(TEMPLATES) - 1) if rng.random() < 0.95 else len(TEMPLATES) - 1
    v = rng.choice(TVALS)
    return i, v, TEMPLATES[i][1](v)


# ---------------------------------------------------------------- operations

def mpath(rng, spec, want=None, used=None):
    """A managed path: an existing object, a new name in an existing directory, or below a missing one."""
    tree = [t for t in spec["tree"] if t[0] not in ("/tmp", "/root", "/home", "/etc", "/srv", "/var", "/home/alice", "/work")]
    if used and rng.random() < 0.35:
        return rng.choice(used)
    r = rng.random()
    if tree and r < 0.5:
        c = [t for t in tree if t[1] == want] if want and rng.random() < 0.8 else tree
        if c:
            return rng.choice(c)[0]
    dirs = [t[0] for t in spec["tree"] if t[1] == "dir" and t[0] not in ("/root", "/home")]
    if spec["user"] != "root" and rng.random() < 0.7:
        dirs = ["/work"]
    p = rng.choice(dirs) + "/" + rng.choice(NAMES if rng.random() < 0.25 else PLAIN_NAMES)
    if r > 0.96:
        p = rng.choice(dirs) + "/missing/" + rng.choice(PLAIN_NAMES)
    return p


def attrs(rng, spec, kw, mode_key="mode", modes=MODES, p=0.55, bad=0.03):
    if rng.random() < p and mode_key:
        kw[mode_key] = rng.choice(modes)
    if rng.random() < p * 0.8:
        kw["owner"] = rng.choice(list(spec["users"])) if rng.random() < 0.8 else str(rng.choice(list(spec["users"].values()))[0])
    if rng.random() < p * 0.8:
        kw["group"] = rng.choice(list(spec["groups"])) if rng.random() < 0.8 else str(rng.choice(list(spec["groups"].values()))[0])
    if rng.random() < bad:
        k = rng.choice(["owner", "group"] + ([mode_key] if mode_key else []))
        kw[k] = rng.choice(["ghost", "99999"]) if k != mode_key else rng.choice(["rwx", "9", "u+x", "7a7"])
    return kw


LINES = ["alpha = 1", "beta", "  gamma", "delta: ünï", "#comment here", "omega=omega"]


def line_file(rng, line):
    """Content for a line-managed file. Occurrences of the line are only ever delimited by newlines."""
    others = ["one", "two  ", "", "\tthree", "fo\x0cur", "fi\u2028ve", "si\rx", "seven\r", "é", "\udcff\udce9", "alphabet", "x alpha = 1 y"]
    out = []
    for _ in range(rng.randint(0, 5)):
        r = rng.random()
        if r < 0.3:
            out.append(rng.choice([line, line, line + "  ", " " + line, "\t" + line, line.swapcase(), line + "x", "x" + line]))
        else:
            out.append(rng.choice(others))
    s = "\n".join(out)
    if rng.random() < 0.7 and out:
        s += "\n"
    return {"b": s.encode("utf-8", "surrogateescape").hex()}


def near_text(rng, v):
    """A value equal or almost equal to v."""
    from .bridge import dec
    d = dec(v)
    b = d.encode("utf-8", "surrogateescape") if isinstance(d, str) else d
    r = rng.random()
    if r < 0.3:
        return v if isinstance(v, dict) else {"b": b.hex()}
    if len(b) > 4096:
        return {"cat": [v, rng.choice(["x", "\n", "\0"])]} if r < 0.8 or "rep" not in v else {"rep": [v["rep"][0], v["rep"][1] - 1]}
    k = rng.choice(["append", "newline", "drop", "last", "first", "strip", "crlf", "case", "bom", "nul", "empty"])
    b = {"append": b + b"x", "newline": b + b"\n", "drop": b[:-1], "last": b[:-1] + bytes([b[-1] ^ 1]) if b else b"", "first": bytes([b[0] ^ 1]) + b[1:] if b else b"",
         "strip": b.strip(), "crlf": b.replace(b"\n", b"\r\n"), "case": b.swapcase(), "bom": b"\xef\xbb\xbf" + b, "nul": b + b"\0", "empty": b""}[k]
    return {"b": b.hex()}


def near_target(rng, t):
    """A link target that is, or names the same object as, t."""
    return rng.choice([t, t, t + "/", t + "/.", "./" + t if not t.startswith("/") else t.replace("/", "//", 1), t.replace("/", "//"), t + " ", t.upper(), t[:-1] or "x", "/" + t])


def near(rng, spec, op, files, used):
    """Puts the managed path into the declared or almost the declared state beforehand."""
    kw, k = op["kw"], op["op"].partition(".")[2]
    p = kw.get("path") or kw.get("dest")
    if k not in ("directory", "file", "link", "upload_content", "upload", "template_content", "template") or p.endswith("/") or p in used:
        return
    par = p.rpartition("/")[0]
    if not any(t[0] == par and t[1] == "dir" for t in spec["tree"]) or any(t[0].startswith(p + "/") for t in spec["tree"]):
        return
    data, typ, dmode = None, "file", 0o644
    if k == "directory":
        typ, dmode = "dir", 0o755
    elif k == "link":
        typ, dmode, data = "link", 0o777, near_target(rng, kw["target"])
    elif k == "file":
        data = text(rng)
    else:
        v = kw["content"] if k == "upload_content" else op.get("rendered") if k.startswith("template") else model.local(files, kw["src"])
        if v is None:
            return
        data = near_text(rng, v.replace("\0HOST\0", "web1") if isinstance(v, str) else v)
    m = kw.get("mode")
    mode = int(m, 8) if m and all(c in "01234567" for c in m) else dmode
    if typ != "link":
        mode ^= rng.choice([0, 0, 0, 0o1, 0o20, 0o100, 0o400, 0o2000, 0o4000, 0o1000, 0o7000])

    def idof(db, x):
        e = spec[db].get(x)
        return e[0] if e else int(x) if x and x.isdigit() else 0
    uid, gid = idof("users", kw.get("owner")), idof("groups", kw.get("group"))
    if rng.random() < 0.15:
        uid = rng.choice([0, 1000, 998, 4242])
    if rng.random() < 0.15:
        gid = rng.choice([0, 10, 1000, 4242])
    spec["tree"] = [t for t in spec["tree"] if t[0] != p] + [[p, typ, mode, uid, gid, data]]


def file_op(rng, spec, files, used, dry_ok=True, attr_p=0.55, kinds=None, bad=0.03):
    k = rng.choice(kinds or ["directory", "directory", "file", "file", "link", "upload_content", "upload_content", "upload", "upload_dir",
                             "template_content", "template", "line", "line"])
    kw = {}
    rendered = None
    if k == "directory":
        kw["path"] = mpath(rng, spec, "dir", used)
        if rng.random() < 0.15:
            kw["present"] = False
        attrs(rng, spec, kw, modes=DIRMODES, p=attr_p, bad=bad)
        if rng.random() < 0.1:
            kw["touch"] = True
    elif k == "file":
        kw["path"] = mpath(rng, spec, "file", used)
        if rng.random() < 0.15:
            kw["present"] = False
        attrs(rng, spec, kw, p=attr_p, bad=bad)
        if rng.random() < 0.1:
            kw["touch"] = True
    elif k == "link":
        kw["path"] = mpath(rng, spec, "link", used)
        kw["target"] = rng.choice(["/etc", "/nowhere", "a", "../srv/x y", "/tmp", "ünï", "-n", "a/../b.conf", "./c", "/etc/", "//srv", "../a/."])
        if rng.random() < 0.15:
            kw["present"] = False
        attrs(rng, spec, kw, mode_key=None, p=attr_p, bad=bad)
        if rng.random() < 0.1:
            kw["touch"] = True
    elif k == "upload_content":
        if rng.random() < 0.5:
            kw["content"] = rng.choice(TEXTS)
        else:
            kw["content"] = text(rng)
        kw["dest"] = mpath(rng, spec, "file", used)
        attrs(rng, spec, kw, p=attr_p, bad=bad)
    elif k == "upload":
        src = rng.choice([f for f in files if f.startswith("src/")])
        kw["src"] = src
        kw["dest"] = mpath(rng, spec, "file", used)
        if rng.random() < 0.25:
            kw["dest"] = rng.choice(["/etc", "/srv", "/tmp"]) + "/"
        attrs(rng, spec, kw, p=attr_p, bad=bad)
    elif k == "upload_dir":
        kw["src"] = "tree" if rng.random() < 0.8 else "tree/sub"
        if kw["src"] == "tree/sub" and not any(f.startswith("tree/sub/") for f in files):
            kw["src"] = "tree"
        kw["dest"] = mpath(rng, spec, "dir", used)
        if rng.random() < 0.3:
            kw["dest"] = rng.choice(["/etc", "/srv", "/tmp"]) + "/"
        a = attrs(rng, spec, {}, mode_key="dir_mode", modes=DIRMODES, p=attr_p, bad=bad)
        kw.update(a)
        if rng.random() < attr_p:
            kw["file_mode"] = rng.choice(MODES)
    elif k == "template_content":
        i, v, rendered = pick_template(rng)
        kw["content"] = TEMPLATES[i][0]
        kw["context"] = {"tvar": v}
        kw["dest"] = mpath(rng, spec, "file", used)
        attrs(rng, spec, kw, p=attr_p, bad=bad)
    elif k == "template":
        i, v, rendered = pick_template(rng)
        kw["src"] = "tpl/t%d.j2" % i
        kw["context"] = {"tvar": v}
        kw["dest"] = mpath(rng, spec, "file", used)
        if rng.random() < 0.15:
            kw["dest"] = rng.choice(["/etc", "/srv", "/tmp"]) + "/"
        attrs(rng, spec, kw, p=attr_p, bad=bad)
    elif k == "line":
        ln = rng.choice(LINES)
        p = mpath(rng, spec, "file", used)
        if rng.random() < 0.5:
            d = rng.choice([t[0] for t in spec["tree"] if t[1] == "dir"])
            p = d + "/lines%d%s" % (len(spec["tree"]), rng.choice(["", ".conf", " x", "\u00fc"]))
            spec["tree"].append([p, "file", int(rng.choice(MODES), 8), rng.choice([0, 1000, 1001]), rng.choice([0, 10, 1000]), None])
        # give the file interesting content
        for t in spec["tree"]:
            if t[0] == p and t[1] == "file" and not any(u == p for u in used or ()):
                t[5] = line_file(rng, ln)
        kw["path"], kw["line"] = p, ln
        if rng.random() < 0.35:
            kw["present"] = False
        r = rng.random()
        if r < 0.2:
            import re
            kw["regex"] = "^" + re.escape(ln.split()[0]) if not ln.startswith(" ") else r"gamma\s*$"
        elif r < 0.5:
            kw["ignore_whitespace"] = False
        if rng.random() < 0.35:
            kw["backup"] = rng.choice([True, "saved.bak", "old copy"])
    if rng.random() < 0.12:
        kw["check"] = False
    if rng.random() < 0.1:
        kw["name"] = "a name"
    op = {"op": "files." + k, "kw": kw}
    if rendered is not None:
        op["rendered"] = rendered
    if used is not None and rng.random() < 0.3:
        near(rng, spec, op, files, used)
    if used is not None:
        used.append(kw.get("path") or kw.get("dest").rstrip("/"))
    return op


def account_spec(rng, spec):
    spec["usergroups_enab"] = True


def account_op(rng, spec):
    users = list(spec["users"])
    groups = list(spec["groups"])
    if rng.random() < 0.65:
        kw = {"user": rng.choice([u for u in users if u != spec["user"] and u != "root"] + ["newu", "newu", "other_u"])}
        if rng.random() < 0.12:
            kw["present"] = False
            return {"op": "system.user", "kw": kw}
        if rng.random() < 0.4:
            kw["uid"] = rng.choice([1500, 1501, 1000, 998, 1001, 0, 1234])
        if rng.random() < 0.4:
            kw["group"] = rng.choice(groups) if rng.random() < 0.7 else str(spec["groups"][rng.choice(groups)][0])
        if rng.random() < 0.5:
            kw["groups"] = rng.sample([g for g in groups if g != "root"], rng.randint(0, 3))
            if rng.random() < 0.1 and kw["groups"]:
                kw["groups"] = kw["groups"] + [kw["groups"][0]]
        if rng.random() < 0.4:
            kw["append_groups"] = rng.random() < 0.7
        if rng.random() < 0.2:
            kw["system"] = True
        if rng.random() < 0.3:
            kw["password_hash"] = rng.choice(["$6$bb$BBBB", "!", "*", "$6$aa$AAAA"])
        if rng.random() < 0.3:
            kw["home"] = rng.choice(["/home/x", "/dev/null", "/srv/h me"])
        if rng.random() < 0.3:
            kw["shell"] = rng.choice(["/bin/sh", "/bin/zsh", "/sbin/nologin"])
        if rng.random() < 0.35:
            kw["comment"] = rng.choice(["", "A comment", "ünï, with commas"])
        if rng.random() < 0.04:
            kw["group"] = "ghost"
        op = {"op": "system.user", "kw": kw}
    else:
        kw = {"group": rng.choice([g for g in groups if g != "root"] + ["newg", "newg"])}
        if rng.random() < 0.2:
            kw["present"] = False
        elif rng.random() < 0.6:
            kw["gid"] = rng.choice([2000, 2001, 44, 1000, 0, 63])
        if rng.random() < 0.2:
            kw["system"] = True
        op = {"op": "system.group", "kw": kw}
    if rng.random() < 0.1:
        op["kw"]["check"] = False
    return op


PKGS = ["neovim", "htop", "git", "lib-x11", "python3.11", "g++"]


def package_world(rng, spec):
    pm = rng.choice(["pacman", "apt-get", "emerge"])
    spec["tools"] += {"pacman": ["pacman"], "apt-get": ["apt-get", "dpkg-query"], "emerge": ["emerge"]}[pm]
    spec["packages"] = rng.sample(PKGS, rng.randint(0, 3))
    spec["available"] = [p for p in PKGS if rng.random() < 0.85]
    spec["pm"] = pm
    return pm


def package_op(rng, spec):
    pm = spec.get("pm")
    kw = {"packages": rng.sample(PKGS, rng.randint(1, 3))}
    if rng.random() < 0.15:
        kw["packages"] = kw["packages"] + [kw["packages"][0]]
    if rng.random() < 0.4:
        kw["present"] = False
    mod = {"pacman": "pacman", "apt-get": "apt", "emerge": "portage", None: "pacman"}[pm]
    if rng.random() < 0.5:
        return {"op": "system.package", "kw": kw}
    if mod == "portage" and rng.random() < 0.3:
        kw["oneshot"] = True
    return {"op": mod + ".package", "kw": kw}


def service_world(rng, spec):
    if "systemctl" not in spec["tools"]:
        spec["tools"].append("systemctl")
    for db in ("services", "user_services"):
        for s in ("nginx.service", "sshd.service", "backup.timer", "odd-name@1.service"):
            if rng.random() < 0.8:
                spec[db][s] = {"active": rng.choice(["active", "active", "inactive", "inactive", "failed", "activating", "deactivating", "reloading"]),
                               "enabled": rng.choice(["enabled", "enabled", "disabled", "disabled", "static", "enabled-runtime", "masked"])}
                if rng.random() < 0.1:
                    spec[db][s]["broken"] = True


def service_op(rng, spec):
    if rng.random() < 0.07:
        return {"op": "systemd.daemon_reload", "kw": {"user_mode": True} if rng.random() < 0.4 else {}}
    kw = {"service": rng.choice(["nginx.service", "nginx", "sshd.service", "backup.timer", "odd-name@1.service"])}
    if rng.random() < 0.8:
        kw["state"] = rng.choice(["started", "stopped", "started", "stopped", "restarted", "reloaded"])
    if rng.random() < 0.7:
        kw["enabled"] = rng.random() < 0.5
    if rng.random() < 0.5:
        return {"op": "system.service", "kw": kw}
    if rng.random() < 0.35:
        kw["user_mode"] = True
    return {"op": "systemd.service", "kw": kw}


SHA = ["%040x" % (i * 0x123456789abcdef0123456789abcdef012345) for i in range(1, 9)]
GIT_URL = "https://git.example/app.git"


def git_world(rng, spec):
    """A remote with branches whose names end alike, plain and annotated tags; perhaps a clone on the host, behind, edited or with commits of its own."""
    spec["tools"].append("git")
    refs = {"main": SHA[0], "dev": SHA[1]}
    tags = {"v1.0": [SHA[2], None]}
    if rng.random() < 0.5:
        refs[rng.choice(["feature/main", "a/dev", "main2", "old/v1.0"])] = SHA[5]
    if rng.random() < 0.5:
        tags["v2.0"] = [SHA[6], SHA[7]]
    spec["git"] = {GIT_URL: {"refs": refs, "default": rng.choice(["main", "dev"]), "tags": tags, "old": [SHA[4]]},
                   "https://git.example/other.git": {"refs": {"main": SHA[3]}, "default": "main"}}
    if rng.random() < 0.5:
        head = rng.choice([SHA[0], SHA[4], SHA[4]])
        readme, data = head, "static\n"
        r = rng.random()
        if r < 0.15:
            data = "edited by hand\n"
        elif r < 0.22:
            readme = "edited by hand"
        spec["tree"] += [["/srv/repo", "dir", 0o755, 0, 0, None], ["/srv/repo/.git", "dir", 0o755, 0, 0, None],
                         ["/srv/repo/.git/config", "file", 0o644, 0, 0, {"b": b"remote.origin.url=https://git.example/app.git\nbranch=main\n".hex()}],
                         ["/srv/repo/.git/HEAD", "file", 0o644, 0, 0, {"b": head.encode().hex()}],
                         ["/srv/repo/data.conf", "file", 0o644, 0, 0, {"b": data.encode().hex()}],
                         ["/srv/repo/README", "file", 0o644, 0, 0, {"b": readme.encode().hex()}]]
        if rng.random() < 0.3:
            spec["tree"] += [["/srv/repo/notes", "file", 0o600, 1000, 10, {"b": b"untracked".hex()}]]
        if rng.random() < 0.2:
            spec["tree"] += [["/srv/repo/build", "dir", 0o755, 0, 0, None], ["/srv/repo/build/out", "file", 0o644, 0, 0, {"b": b"untracked".hex()}]]
        if rng.random() < 0.12:
            # a commit of its own: only a rebase can bring this clone up to date
            spec["local_commit"] = True
            spec["tree"] = [[p, t, m, u, g, {"b": (b"c0ffee" + b"0" * 34).hex()} if p in ("/srv/repo/.git/HEAD", "/srv/repo/README") else d] for p, t, m, u, g, d in (x[:6] for x in spec["tree"])]


def git_op(rng, spec):
    kw = {"url": rng.choice([GIT_URL] * 5 + ["https://git.example/other.git", "https://git.example/none.git"]),
          "path": rng.choice(["/srv/repo", "/srv/repo", "/var/clone", "/etc"])}
    if kw["path"] != "/srv/repo" and rng.random() < 0.6:
        kw["branch_or_tag"] = rng.choice(["dev", "v1.0", "v2.0", "nope", "main"])
    elif kw["path"] == "/srv/repo" and (spec["git"][GIT_URL]["default"] != "main" or rng.random() < 0.3):
        kw["branch_or_tag"] = "main"
    if rng.random() < 0.2:
        kw["update"] = False
    if rng.random() < 0.3:
        kw["depth"] = rng.choice([1, 1, 20])
    if spec.get("local_commit") and kw["path"] == "/srv/repo":
        # diverged: must be refused unless a rebase was asked for
        if rng.random() < 0.5:
            kw["rebase"] = False
        else:
            kw["ff_only"] = True
    elif rng.random() < 0.2:
        kw["rebase"] = False
    elif rng.random() < 0.15:
        kw["ff_only"] = True
    if rng.random() < 0.3:
        kw["update_submodules"] = True
        if rng.random() < 0.5:
            kw["recursive_submodules"] = True
        if rng.random() < 0.5:
            kw["shallow_submodules"] = True
    return {"op": "git.repo", "kw": kw}


# ---------------------------------------------------------------- whole deploys

def defaults_kw(rng, spec, users=0.1):
    kw = {}
    if rng.random() < 0.4:
        kw["owner"] = rng.choice(list(spec["users"]))
    if rng.random() < 0.4:
        kw["group"] = rng.choice(list(spec["groups"]))
    if rng.random() < 0.4:
        kw["file_mode"] = rng.choice(MODES)
    if rng.random() < 0.4:
        kw["dir_mode"] = rng.choice(DIRMODES)
    if rng.random() < 0.3:
        kw["umask"] = rng.choice(["022", "077", "27", "0", "002", "777"])
    if rng.random() < 0.2:
        kw["cwd"] = rng.choice(["/etc", "/srv", "/"])
    if rng.random() < users:
        kw["as_user"] = rng.choice([u for u in spec["users"]])
    if rng.random() < users:
        kw["as_group"] = rng.choice(list(spec["groups"]))
    return kw


def target(rng, user="root"):
    """(address of the simulated host, inventory argument)"""
    r = rng.random()
    if r < 0.6 and user == "root":
        return "local", "local:"
    if r < 0.75:
        return "web1", "ssh://%s@web1" % user
    if r < 0.9:
        return "web1:2222", "ssh://%s@web1:2222" % user
    return "db.example", "%s@db.example" % user


def deploy(rng, fam=("files",), n=(1, 5), user="root", catch=0.3, nest=0.35, attr_p=0.55, kinds=None, exotic=0.3, bad=0.03, users=0.08, opts=True, argv=()):
    """A deploy of several operations on one host, as a scenario."""
    spec = host_spec(rng, user, exotic)
    files = sources(rng)
    if "pkg" in fam:
        package_world(rng, spec)
    if "svc" in fam:
        service_world(rng, spec)
    if "git" in fam:
        git_world(rng, spec)
    used = []

    def one():
        f = rng.choice(fam)
        if f == "files":
            op = file_op(rng, spec, files, used, attr_p=attr_p, kinds=kinds, bad=bad)
        elif f == "acct":
            op = account_op(rng, spec)
        elif f == "pkg":
            op = package_op(rng, spec)
        elif f == "svc":
            op = service_op(rng, spec)
        else:
            op = git_op(rng, spec)
        if rng.random() < catch:
            op["catch"] = True
        return op

    ops = []
    programs = {"deploy.py": ops}
    total = rng.randint(*n)
    while total > 0:
        if rng.random() < nest and total > 0:
            k = rng.randint(1, min(total, 3))
            body = [one() for _ in range(k)]
            if rng.random() < 0.75:
                blk = {"op": "defaults", "kw": defaults_kw(rng, spec, users), "body": body}
                if catch and rng.random() < 0.5:
                    blk["catch"] = True
                ops.append(blk)
            else:
                nm = "sub%d/s.py" % len(programs)
                programs[nm] = body
                for o in body:          # nested scripts have their own directory
                    if "src" in o["kw"]:
                        o["kw"]["src"] = "../" + o["kw"]["src"]
                ops.append({"op": "script", "path": nm} | ({"catch": True} if catch and rng.random() < 0.5 else {}))
            total -= k
        else:
            ops.append(one())
            total -= 1
    addr, inv = target(rng, user)
    pre = ["--no-color"]
    if opts:
        if rng.random() < 0.15:
            pre.append("--diff")
        if rng.random() < 0.15:
            pre.append(rng.choice(["-v", "-vv", "-vvv"]))
        if rng.random() < 0.05:
            pre.append("--debug")
        if rng.random() < 0.1:
            pre.append("--no-changes")
    return addr, {"seed": rng.randrange(1 << 30), "policy": quiet_policy(rng) if rng.random() < 0.6 or "src/huge" in files else policy(rng),
                  "hosts": {addr: {"spec": spec, "faults": []}}, "files": files, "programs": programs, "argv": pre + list(argv) + [inv, "deploy.py"]}
