"""The reference model: what an operation declares, may touch, and must have achieved."""
import hashlib
import os
import re
from posixpath import basename, dirname, join, normpath

from .bridge import dec, octal, r_group, r_user

TMPLINK = re.compile(r"/Cu[0-9a-f]{6}$")
FILE_OPS = ("directory", "file", "link", "upload_content", "upload", "upload_dir", "template_content", "template", "line")


def b(v):
    v = dec(v)
    return v.encode("utf-8", "surrogateescape") if isinstance(v, str) else v


def declared_attrs(st, eff, kw, mode_key="mode", eff_mode="file_mode"):
    """(mode, uid, gid, owner name, group name); None where it cannot be resolved."""
    o = r_user(st, kw["owner"]) if kw.get("owner") is not None else r_user(st, eff["owner"])
    g = r_group(st, kw["group"]) if kw.get("group") is not None else r_group(st, eff["group"])
    m = None
    if mode_key is not None:
        m = octal(kw[mode_key]) if kw.get(mode_key) is not None else eff[eff_mode]
        m = None if m is None else int(m, 8)
    return m, (st.users[o]["uid"] if o is not None else None), (st.groups[g]["gid"] if g is not None else None), o, g


class Item:
    """One managed path."""
    __slots__ = ("path", "type", "present", "mode", "uid", "gid", "content", "target", "line", "owner", "group", "bad", "unpriv")

    def __init__(self, path, type, present=True, mode=None, uid=None, gid=None, content=None, target=None, owner=None, group=None, bad=False):
        self.path, self.type, self.present, self.mode, self.uid, self.gid = path, type, present, mode, uid, gid
        self.content, self.target, self.owner, self.group, self.bad = content, target, owner, group, bad
        self.line = None
        self.unpriv = False


def local(files, p):
    """The content of a local source file, following links; None if there is none."""
    v = files.get(p)
    while isinstance(v, dict) and "link" in v:
        p = normpath(join(p.rpartition("/")[0], v["link"]))
        v = files.get(p)
    return v


def norm(path):
    p = normpath(path)
    return "/" + p.lstrip("/")


def items(ev, files, st=None):
    """The managed paths of a file operation event, or None if it is not one."""
    mod, _, k = ev["op"].partition(".")
    if mod != "files":
        return None
    kw = ev["kw"]
    st = st or ev["before"]
    eff = ev["eff"]
    if k == "directory":
        m, u, g, o, gn = declared_attrs(st, eff, kw, eff_mode="dir_mode")
        return [Item(kw["path"], "dir", kw.get("present", True), m, u, g, owner=o, group=gn)]
    if k == "file":
        m, u, g, o, gn = declared_attrs(st, eff, kw)
        return [Item(kw["path"], "file", kw.get("present", True), m, u, g, owner=o, group=gn)]
    if k == "link":
        m, u, g, o, gn = declared_attrs(st, eff, kw, mode_key=None)
        return [Item(kw["path"], "link", kw.get("present", True), None, u, g, target=kw["target"], owner=o, group=gn)]
    if k in ("upload_content", "upload", "template_content", "template"):
        m, u, g, o, gn = declared_attrs(st, eff, kw)
        dest = kw["dest"]
        if k in ("upload", "template") and dest.endswith("/"):
            dest = join(dest, basename(kw["src"]))
        bad = False
        c = None
        if k == "upload_content":
            c = b(kw["content"])
        elif k == "upload":
            src = normpath(kw["src"][3:] if kw["src"].startswith("../") else kw["src"])
            v = local(files, src)
            c = None if v is None else b(v)
            bad = c is None
        else:
            r = ev.get("rendered")
            bad = r is None
            c = None if r is None else r.replace("\x00HOST\x00", ev.get("hostname") or "").encode("utf-8", "surrogateescape")
        return [Item(dest, "file", True, m, u, g, content=c, owner=o, group=gn, bad=bad)]
    if k == "upload_dir":
        fm, u, g, o, gn = declared_attrs(st, eff, kw, "file_mode", "file_mode")
        dm = declared_attrs(st, eff, kw, "dir_mode", "dir_mode")[0]
        dest = kw["dest"]
        src = kw["src"].rstrip("/")
        src = src[3:] if src.startswith("../") else src
        if dest.endswith("/"):
            dest = join(dest, basename(src))
        out = [Item(dest, "dir", True, dm, u, g, owner=o, group=gn)]
        seen = {dest}
        if not any(f.startswith(src + "/") for f in files):
            out[0].bad = True
        for f in sorted(files):
            if not f.startswith(src + "/"):
                continue
            rel = f[len(src) + 1:].rstrip("/")
            parts = rel.split("/")
            for i in range(1, len(parts) + (1 if f.endswith("/") else 0)):
                d = join(dest, *parts[:i])
                if d not in seen:
                    seen.add(d)
                    out.append(Item(d, "dir", True, dm, u, g, owner=o, group=gn))
            if not f.endswith("/"):
                v = local(files, f)
                out.append(Item(join(dest, rel), "file", True, fm, u, g, content=None if v is None else b(v), owner=o, group=gn, bad=v is None))
        return out
    if k == "line":
        m, u, g, o, gn = declared_attrs(st, eff, {}, None)
        m = int(eff["file_mode"], 8)
        it = Item(kw["path"], "file", True, m, u, g, owner=o, group=gn)
        it.line = kw
        it.unpriv = eff["as_user"] != "root"      # the kernel drops set-id bits of a file written by an unprivileged user
        return [it]
    return None


# ---------------------------------------------------------------- lines

def matcher(kw):
    ln, rx, iw = kw["line"], kw.get("regex"), kw.get("ignore_whitespace", True)

    def m(other):
        s = other.decode("utf-8", "surrogateescape")
        if rx is not None:
            return re.search(rx, s) is not None
        return ln.strip() == s.strip() if iw else ln == s
    return m


def lines(data):
    """Lines delimited by newlines; a final newline is not significant."""
    if data.endswith(b"\n"):
        data = data[:-1]
    elif not data:
        return []
    return data.split(b"\n")


def has_line(kw, data):
    m = matcher(kw)
    return any(m(x) for x in lines(data))


def line_content(kw, old):
    """The lines of the file after the operation (old=None: missing file)."""
    cur = lines(old) if old is not None else []
    m = matcher(kw)
    if kw.get("present", True):
        if any(m(x) for x in cur):
            return cur
        if cur and old is not None and cur == [b""] and old == b"\n":
            return [b"", kw["line"].encode("utf-8", "surrogateescape")]
        return cur + [kw["line"].encode("utf-8", "surrogateescape")]
    return [x for x in cur if not m(x)]


# ---------------------------------------------------------------- "success means declared"

def oct_(m):
    return None if m is None else "%o" % m


def check_items(its, before, after):
    """Problems with the declared state on the host `after` a successful operation."""
    out = []
    for it in its:
        n = after.get(it.path)
        if it.bad:
            out.append(("impossible", "reported success although the content for %r could not be determined" % it.path))
            continue
        if it.line is not None:
            kw = it.line
            n0 = before.get(it.path)
            if n is None:
                if kw.get("present", True):
                    out.append(("exists", "%r does not exist" % it.path))
                continue
            if n.type != "file":
                out.append(("type", "%r is a %s, not a file" % (it.path, n.type)))
                continue
            if has_line(kw, n.data) != kw.get("present", True):
                out.append(("line", "%r: line %r is %s" % (it.path, kw["line"], "missing" if kw.get("present", True) else "still present")))
            if n0 is not None or not kw.get("present", True):
                continue
        if not it.present:
            if n is not None:
                out.append(("exists", "%r still exists" % it.path))
            continue
        if n is None:
            out.append(("exists", "%r does not exist" % it.path))
            continue
        if n.type != it.type:
            out.append(("type", "%r is a %s instead of a %s" % (it.path, n.type, it.type)))
            continue
        if it.content is not None and n.data != it.content:
            out.append(("content", "%r has content %r instead of %r" % (it.path, n.data[:80], it.content[:80])))
        if it.target is not None and n.target != it.target:
            out.append(("target", "%r points to %r instead of %r" % (it.path, n.target, it.target)))
        if it.type != "link" and n.mode != it.mode:
            sig = "mode-sgid" if it.mode is not None and n.mode == it.mode & ~0o2000 else "mode"
            out.append((sig, "%r has mode %s instead of %s" % (it.path, oct_(n.mode), oct_(it.mode))))
        if n.uid != it.uid:
            out.append(("owner", "%r is owned by uid %r instead of %r (%s)" % (it.path, n.uid, it.uid, it.owner)))
        if n.gid != it.gid:
            out.append(("group", "%r has gid %r instead of %r (%s)" % (it.path, n.gid, it.gid, it.group)))
    return out


# ---------------------------------------------------------------- accounts, packages, services, repositories

def groups_of(st, user):
    return sorted(g for g, e in st.groups.items() if user in e["members"])


def check_user(kw, before, after):
    out = []
    u = kw["user"]
    e = after.users.get(u)
    e0 = before.users.get(u)
    if not kw.get("present", True):
        return [("exists", "user %r still exists" % u)] if e is not None else []
    if e is None:
        return [("exists", "user %r does not exist" % u)]

    def want(key, val, what):
        if val is not None and e[key] != val:
            out.append((what, "user %r has %s %r instead of %r" % (u, what, e[key], val)))
        elif val is None and e0 is not None and e[key] != e0[key]:
            out.append((what, "user %r: %s changed from %r to %r" % (u, what, e0[key], e[key])))
    want("uid", kw.get("uid"), "uid")
    gid = None
    if kw.get("group") is not None:
        g = r_group(after, str(kw["group"]))
        if g is None:
            out.append(("group", "success with unknown group %r" % kw["group"]))
        else:
            gid = after.groups[g]["gid"]
    if not (gid is None and kw.get("group") is not None):
        want("gid", gid, "primary gid")
    want("gecos", kw.get("comment"), "comment")
    want("home", kw.get("home"), "home")
    want("shell", kw.get("shell"), "shell")
    want("pw", kw.get("password_hash"), "password hash")
    have = groups_of(after, u)
    have0 = groups_of(before, u) if e0 is not None else []
    if kw.get("groups") is None:
        if have != have0 and e0 is not None:
            out.append(("groups", "user %r: supplementary groups changed from %r to %r" % (u, have0, have)))
        elif e0 is None and have:
            out.append(("groups", "new user %r is in %r" % (u, have)))
    else:
        w = set(kw["groups"])
        if kw.get("append_groups", False):
            w |= set(have0)
        if sorted(w) != have:
            out.append(("groups", "user %r is in %r instead of %r" % (u, have, sorted(w))))
    return out


def check_group(kw, before, after):
    g = kw["group"]
    e = after.groups.get(g)
    e0 = before.groups.get(g)
    if not kw.get("present", True):
        return [("exists", "group %r still exists" % g)] if e is not None else []
    if e is None:
        return [("exists", "group %r does not exist" % g)]
    out = []
    if kw.get("gid") is not None:
        if e["gid"] != kw["gid"]:
            out.append(("gid", "group %r has gid %r instead of %r" % (g, e["gid"], kw["gid"])))
    elif e0 is not None and e["gid"] != e0["gid"]:
        out.append(("gid", "group %r: gid changed from %r to %r" % (g, e0["gid"], e["gid"])))
    if e0 is not None and sorted(e0["members"]) != sorted(e["members"]):
        out.append(("members", "group %r: members changed" % g))
    return out


def unit(name):
    return name if "." in name else name + ".service"


def check_service(kw, before, after):
    db0, db = (before.user_services, after.user_services) if kw.get("user_mode") else (before.services, after.services)
    s = unit(kw["service"])
    e, e0 = db.get(s), db0.get(s)
    out = []
    if e is None:
        return [("exists", "success for unknown unit %r" % s)] if kw.get("state") not in (None, "stopped") or kw.get("enabled") else []
    w = kw.get("state")
    if w in ("started", "restarted") and e["active"] not in ("active", "reloading", "activating"):
        out.append(("state", "unit %r is %s, not started" % (s, e["active"])))
    if w == "reloaded" and e["active"] not in ("active", "reloading"):
        out.append(("state", "unit %r is %s after reload" % (s, e["active"])))
    if w == "stopped" and e["active"] in ("active", "activating", "reloading"):
        out.append(("state", "unit %r is %s, not stopped" % (s, e["active"])))
    if w == "restarted" and e.get("restarts", 0) <= e0.get("restarts", 0):
        out.append(("restart", "unit %r was not restarted" % s))
    if w == "reloaded" and e.get("reloads", 0) <= e0.get("reloads", 0):
        out.append(("reload", "unit %r was not reloaded" % s))
    if w is None and e["active"] != e0["active"]:
        out.append(("state", "unit %r: state changed from %s to %s" % (s, e0["active"], e["active"])))
    if kw.get("enabled") is not None:
        if (e["enabled"] == "enabled") != kw["enabled"]:
            out.append(("enabled" if e["enabled"] in ("enabled", "disabled") else "enabled-static", "unit %r is %s" % (s, e["enabled"])))
    elif e["enabled"] != e0["enabled"]:
        out.append(("enabled", "unit %r: enablement changed" % s))
    return out


def check_package(kw, before, after):
    out = []
    for p in kw["packages"]:
        if (p in after.packages) != kw.get("present", True):
            out.append(("package", "package %r is %s" % (p, "missing" if kw.get("present", True) else "still installed")))
    if after.packages ^ before.packages - set(kw["packages"]):
        d = (after.packages ^ before.packages) - set(kw["packages"])
        if d:
            out.append(("other", "unrelated packages changed: %r" % sorted(d)))
    return out


def git_head(st, path):
    n = st.get(join(path, ".git/HEAD"))
    return n.data.decode().strip() if n is not None and n.type == "file" else None


def git_commit(r, kw):
    """The commit the declared branch or tag stands for."""
    ref = kw.get("branch_or_tag") or r["default"]
    tag = r.get("tags", {}).get(ref)
    return r["refs"].get(ref) or (tag[0] if tag else None)


def git_text(st, path, name):
    n = st.get(join(path, name))
    return n.data.decode("utf-8", "replace") if n is not None and n.type == "file" else None


def git_own(before, path, prefix, key):
    """True if git.repo may change this path below its own: in an existing clone that is what git keeps there, and tracked files nobody edited."""
    n = before.get(path)
    if n is None or (n.type == "dir" and not n.entries):
        return True
    if n.type != "dir" or before.get(join(path, ".git")) is None or key == prefix:
        return False
    name = key[len(prefix) + 1:].removesuffix(".lock")
    if name == "data.conf":
        return git_text(before, path, name) in (None, "static\n")
    if name == "README":
        return git_text(before, path, name) in (None, git_head(before, path)) or not (git_text(before, path, name) or "").startswith("edited")
    return name == ".git" or name.startswith(".git/")


def check_git(kw, before, after):
    out = []
    r = after.git_remotes.get(kw["url"])
    head = git_head(after, kw["path"])
    head0 = git_head(before, kw["path"])
    if head is None:
        return [("exists", "no repository at %r" % kw["path"])]
    if head0 is not None and not kw.get("update", True):
        if head != head0:
            out.append(("update", "repository changed from %s to %s although update=False" % (head0, head)))
        return out
    if r is None:
        return [("url", "success although %r does not exist" % kw["url"])]
    want = git_commit(r, kw)
    if head != want:
        out.append(("commit", "repository at %r is at %s instead of %s" % (kw["path"], head, want)))
    if kw.get("update_submodules") and (head0 is None or head0 != head) and after.get(join(kw["path"], ".git/modules")) is None:
        out.append(("submodules", "submodules were not initialised"))
    text = lambda name, st=after: git_text(st, kw["path"], name)
    if head == want and text("README") != want and text("README") in (None, text("README", before)) and text("README", before) in (None, head0):
        out.append(("worktree", "the files in %r are not those of %s" % (kw["path"], want)))
    if head0 != head:
        if kw.get("depth") is not None and text(".git/shallow") != str(kw["depth"]):
            out.append(("depth", "the repository at %r is not shallow with depth %r" % (kw["path"], kw["depth"])))
        if kw.get("depth") is None and text(".git/shallow") != text(".git/shallow", before):
            out.append(("depth", "the repository at %r became shallow" % kw["path"]))
        mods = (text(".git/modules") or "").split()
        if not kw.get("update_submodules") and mods != (text(".git/modules", before) or "").split():
            out.append(("submodules", "submodules were touched without being asked to"))
        if kw.get("update_submodules") and mods:
            if bool(kw.get("recursive_submodules")) != ("recursive" in mods):
                out.append(("submodules", "submodules were updated %srecursively" % ("" if "recursive" in mods else "non-")))
            if (bool(kw.get("shallow_submodules")) and kw.get("depth") is not None) != any(x.startswith("depth=") for x in mods):
                out.append(("submodules", "submodules were updated with %r" % mods))
    return out


def check_success(ev, files, before=None, after=None):
    """Problems with a successful operation's result on the host."""
    before = before or ev["before"]
    after = after or ev["after"]
    mod, _, k = ev["op"].partition(".")
    kw = ev["kw"]
    if mod == "files":
        return check_items(items(ev, files, before), before, after)
    if k == "user":
        return check_user(kw, before, after)
    if k == "group":
        return check_group(kw, before, after)
    if k == "package":
        return check_package(kw, before, after)
    if k == "service":
        return check_service(kw, before, after)
    if k == "daemon_reload" and after.daemon_reloads <= before.daemon_reloads:
        return [("reload", "the service manager was not reloaded")]
    if ev["op"] == "git.repo":
        return check_git(kw, before, after)
    return []


# ---------------------------------------------------------------- footprints

def diff(a, b_):
    """All differences between two host states: [(kind, key, old, new)]."""
    x, y = a.snapshot(), b_.snapshot()
    out = []
    for sec in x:
        if isinstance(x[sec], dict):
            for k in sorted(set(x[sec]) | set(y[sec]), key=str):
                if x[sec].get(k) != y[sec].get(k):
                    out.append((sec, k, x[sec].get(k), y[sec].get(k)))
        elif x[sec] != y[sec]:
            out.append((sec, None, x[sec], y[sec]))
    return out


def real(st, path):
    """The canonical path an operation's path refers to (parents resolved, last component kept)."""
    try:
        parent, name, node = st.lookup(path, follow=False)
    except OSError:
        return norm(path)
    if name is None:
        return norm(path)
    for p, n in st.fs.walk_paths():
        if n is parent or n.ino == parent.ino:
            return (p.rstrip("/") or "") + "/" + name
    return norm(path)


def sid_cleared(m):
    return m & ~0o6000


def foreign_changes(ev, files, before, after, ok, torn=True):
    """Changes an operation had no business making. ok: the operation reported success."""
    out = []
    mod, _, k = ev["op"].partition(".")
    kw = ev["kw"]
    d = diff(before, after)
    if not d:
        return out
    its = {}
    prefix = None
    if mod == "files":
        for it in items(ev, files, before):
            its[real(before, it.path)] = it
            # a path below a directory that is only just being created
        for it in items(ev, files, before):
            its.setdefault(norm(it.path), it)
            its.setdefault(real(after, it.path), it)
        if k == "directory" and not kw.get("present", True):
            prefix = real(before, kw["path"]) + "/"
    if ev["op"] == "git.repo":
        its = {}
        prefix = real(before, kw["path"])
    backup = None
    if ev["op"] == "files.line" and kw.get("backup"):
        p = real(before, kw["path"])
        backup = (dirname(p), basename(p), kw["backup"])
    for sec, key, old, new in d:
        if sec == "fs":
            it = its.get(key)
            if TMPLINK.search(key) and old is None and new[0] == "link":
                continue                  # left behind by an interrupted ln -f
            if ev["op"] == "git.repo" and (key == prefix or key.startswith(prefix + "/")) and git_own(before, kw["path"], prefix, key):
                continue
            if prefix and ev["op"] != "git.repo" and key.startswith(prefix):
                if new is None:
                    continue
                out.append(("footprint", "%r inside a directory being removed was changed" % key))
                continue
            if it is None:
                if backup and dirname(key) == backup[0]:
                    nb = basename(key)
                    if (isinstance(backup[2], str) and nb == basename(backup[2])) or (backup[2] is True and nb.startswith(backup[1]) and nb.endswith(".bak")):
                        continue
                out.append(("footprint", "%r was %s" % (key, "created" if old is None else "removed" if new is None else "changed (%s)" % what(old, new))))
                continue
            out += item_change(it, key, old, new, ok, before)
        elif sec == "users":
            if k == "user" and key == kw["user"]:
                if old is not None and new is not None:
                    out += account_change(kw, key, old, new, before)
                continue
            if k == "group" and old is not None and new is not None and before.groups.get(kw["group"], {}).get("gid") == old["gid"] and new["gid"] == kw.get("gid") and dict(old, gid=0) == dict(new, gid=0):
                continue                  # groupmod moves the members' primary gid along
            out.append(("users", "account %r changed: %r -> %r" % (key, old, new)))
        elif sec == "groups":
            if k == "group" and key == kw["group"]:
                if old is not None and new is not None and old[1] != new[1]:
                    out.append(("members", "members of %r changed" % key))
                continue
            if k == "user":
                u = kw["user"]
                if key == u and (old is None or new is None):
                    continue          # user private group
                o = set(old[1]) if old else set()
                n = set(new[1]) if new else set()
                if old and new and old[0] == new[0] and o ^ n == {u}:
                    given = kw.get("groups")
                    if not kw.get("present", True) and u in o:
                        continue
                    if kw.get("present", True) and given is not None and (key in given or str(old[0]) in given if u in n else key not in given and not kw.get("append_groups")):
                        continue
                    out.append(("membership", "%s was %s group %r" % (u, "removed from" if u in o else "added to", key)))
                    continue
            out.append(("groups", "group %r changed: %r -> %r" % (key, old, new)))
        elif sec == "packages":
            if k == "package" and not (set(old) ^ set(new)) - set(kw["packages"]) and not (set(old) - set(new) if kw.get("present", True) else set(new) - set(old)):
                continue
            out.append(("packages", "packages changed: %r -> %r" % (old, new)))
        elif sec in ("services", "user_services"):
            if k == "service" and key == unit(kw["service"]) and (sec == "user_services") == bool(kw.get("user_mode")):
                if kw.get("state") is None and old and new and old[0] != new[0]:
                    out.append(("services", "state of %r changed" % key))
                if kw.get("enabled") is None and old and new and old[1] != new[1]:
                    out.append(("services", "enablement of %r changed" % key))
                continue
            out.append(("services", "%s %r changed: %r -> %r" % (sec, key, old, new)))
    return out


def account_change(kw, key, old, new, before):
    """Attributes of an existing account that are neither what they were nor what was declared."""
    want = {"uid": kw.get("uid"), "gecos": kw.get("comment"), "home": kw.get("home"), "shell": kw.get("shell"), "pw": kw.get("password_hash"), "gid": None}
    if kw.get("group") is not None:
        g = r_group(before, str(kw["group"]))
        want["gid"] = before.groups[g]["gid"] if g is not None else None
    return [("account", "account %r: %s changed from %r to %r" % (key, f, old[f], new[f])) for f in want if new[f] not in (old[f], want[f])]


def what(old, new):
    names = ("type", "mode", "uid", "gid", "content", "target")
    return ", ".join("%s %s -> %s" % (n, oct_(a) if n == "mode" else repr(a)[:60], oct_(c) if n == "mode" else repr(c)[:60]) for n, a, c in zip(names, old, new) if a != c)


def item_change(it, key, old, new, ok, before):
    """Changes of a managed path beyond what was declared. old/new: snapshot tuples."""
    out = []
    if it.line is not None:
        kw = it.line
        if old is None:
            if new is None:
                return out
            if not kw.get("present", True):
                return [("line", "%r was created by removing a line" % key)]
            if new[0] != "file":
                return [("type", "%r became a %s" % (key, new[0]))]
            full = kw["line"].encode("utf-8", "surrogateescape") + b"\n"
            if not full.startswith(new[4]) or (ok and lines(new[4]) != lines(full)):
                out.append(("content", "%r was created with %r" % (key, new[4][:80])))
            return out
        if new is None or new[0] != old[0]:
            return [("line", "%r vanished" % key)]
        if old[0] != "file":
            return [("type", "%r is not a file but was changed" % key)]
        if new[1:4] != old[1:4] and not (it.unpriv and new[2:4] == old[2:4] and new[1] in (sid_cleared(old[1]), old[1] & ~0o4000, old[1] & ~0o2000)):
            out.append(("attrs", "%r: %s" % (key, what(old, new))))
        want = line_content(kw, old[4])
        if new[4] != old[4]:
            if ok:
                if lines(new[4]) != want:
                    out.append(("content", "%r: other lines were not preserved: %r became %r" % (key, old[4][:200], new[4][:200])))
            else:
                full = b"\n".join(want) + b"\n"
                if not full.startswith(new[4]) and not old[4].startswith(new[4]):
                    out.append(("content", "%r is neither old nor a prefix of the new content: %r became %r" % (key, old[4][:200], new[4][:200])))
        return out
    if not it.present:
        if new is None:
            if old[0] != it.type:
                out.append(("type", "%r was a %s and was removed" % (key, old[0])))
            return out
        return [("attrs", "%r was to be removed but changed: %s" % (key, what(old, new)))]
    if new is None:
        if it.type == "link" and not ok and old[0] == "link":
            return out
        return [("vanished", "%r vanished" % key)]
    if old is not None and old[0] != it.type:
        return [("type", "%r is a %s and was changed: %s" % (key, old[0], what(old, new)))]
    if new[0] != it.type:
        return [("type", "%r became a %s" % (key, new[0]))]
    if old is None:
        if it.type == "file":
            c = it.content if it.content is not None else b""
            if not c.startswith(new[4]):
                out.append(("content", "%r holds %r, not a prefix of the new content" % (key, new[4][:80])))
        return out
    # existing object
    if it.type == "file":
        if it.content is None:
            if new[4] != old[4]:
                out.append(("content", "content of %r changed" % key))
        elif new[4] != old[4] and not it.content.startswith(new[4]):
            out.append(("content", "%r holds %r: neither the old content nor a prefix of the new" % (key, new[4][:80])))
    if it.type == "link" and new[5] not in (old[5], it.target):
        out.append(("target", "%r points to %r" % (key, new[5])))
    if it.type != "link" and new[1] not in (old[1], it.mode, sid_cleared(old[1]), old[1] & ~0o4000, old[1] & ~0o2000,
                                               None if it.mode is None else it.mode & ~0o2000):     # chmod drops the bit for a group the user is not in (C06's matter)
        out.append(("mode", "%r has mode %s (was %s, declared %s)" % (key, oct_(new[1]), oct_(old[1]), oct_(it.mode))))
    if new[2] not in (old[2], it.uid) and not (it.type == "link" and new[5] != old[5]):
        out.append(("owner", "%r has uid %r" % (key, new[2])))
    if new[3] not in (old[3], it.gid) and not (it.type == "link" and new[5] != old[5]):
        out.append(("group", "%r has gid %r" % (key, new[3])))
    return out


def sgid_finding(ev, scn, path, st):
    """The known finding that an unprivileged chmod silently drops a set-group-id bit for a foreign group."""
    users = {scn["hosts"][ev["addr"]]["spec"].get("user", "root"), ev["eff"]["as_user"]} - {"root"}
    n = st.get(path)
    if not users or n is None:
        return False
    for u in users:
        e = st.users.get(u)
        if e is not None and e["uid"] != 0 and n.gid != e["gid"] and u not in next((g["members"] for g in st.groups.values() if g["gid"] == n.gid), ()):
            return True
    return False


# ---------------------------------------------------------------- reported state

def name_of_uid(st, uid):
    return next((u for u, e in st.users.items() if e["uid"] == uid), str(uid))


def name_of_gid(st, gid):
    return next((g for g, e in st.groups.items() if e["gid"] == gid), str(gid))


def obs_path(st, path, sha=False, link=False):
    n = st.get(path)
    if n is None:
        d = {"exists": False, "mode": None, "owner": None, "group": None}
        if sha:
            d["sha512"] = None
        if link:
            d["target"] = None
        return d
    d = {"exists": True, "mode": "%o" % n.mode, "owner": name_of_uid(st, n.uid), "group": name_of_gid(st, n.gid)}
    if sha:
        d["sha512"] = hashlib.sha512(n.data).digest() if n.type == "file" else None
    if link:
        d["target"] = n.target
        d.pop("mode")
    return d


def observed(ev, st, files, before=None):
    """The state of the host in the vocabulary of the operation's result (keys we can judge)."""
    mod, _, k = ev["op"].partition(".")
    kw = ev["kw"]
    if ev["op"] == "files.upload_dir":
        return {it.path: obs_path(st, it.path, sha=it.type == "file") for it in items(ev, files, before or st)}
    if k in ("directory", "file"):
        return obs_path(st, kw["path"])
    if k == "link":
        return obs_path(st, kw["path"], link=True)
    if k in ("upload_content", "upload", "template_content", "template"):
        return obs_path(st, items(ev, files, before or st)[0].path, sha=True)
    if k == "line":
        n = st.get(kw["path"])
        return {"line_present": n is not None and n.type == "file" and has_line(kw, n.data)}
    if k == "user":
        e = st.users.get(kw["user"])
        if e is None:
            return {"exists": False, "uid": None, "group": None, "groups": [], "comment": None, "home": None, "shell": None, "password_hash": None}
        return {"exists": True, "uid": e["uid"], "group": name_of_gid(st, e["gid"]), "groups": groups_of(st, kw["user"]), "comment": e["gecos"],
                "home": e["home"], "shell": e["shell"], "password_hash": e["pw"]}
    if k == "group":
        e = st.groups.get(kw["group"])
        return {"exists": e is not None, "gid": e["gid"] if e else None}
    if k == "package":
        return {"installed": sorted(set(kw["packages"]) & st.packages)}
    if k == "service":
        e = (st.user_services if kw.get("user_mode") else st.services).get(unit(kw["service"]))
        if e is None:
            return {"state": "stopped", "enabled": False}
        return {"state": "started" if e["active"] in ("active", "activating", "reloading") else "stopped", "enabled": e["enabled"] == "enabled"}
    if ev["op"] == "git.repo":
        h = git_head(st, kw["path"])
        return {"initialized": st.get(kw["path"]) is not None, "commit": h}
    return {}


def compare(reported, real_, declared_only):
    """Differences between a reported state dict and the observed one."""
    out = []
    for k, val in reported.items():
        if k not in real_:
            continue
        r = real_[k]
        if isinstance(val, dict) and isinstance(r, dict):
            out += [("%s.%s" % (k, a), b_, c) for a, b_, c in compare(val, r, declared_only)]
            continue
        if declared_only and val is None and reported.get("exists") is not False:
            continue
        if val != r:
            out.append((k, val, r))
    return out


def detected_failure(ev, files):
    """True if the operation itself must detect that it cannot be performed (no faults involved)."""
    mod, _, k = ev["op"].partition(".")
    kw, st = ev["kw"], ev["before"]
    if mod == "files":
        its = items(ev, files, st)
        if any(i.uid is None or i.gid is None or i.bad or (i.type != "link" and i.mode is None) for i in its):
            return False
        for i in its:
            n = st.get(i.path)
            if n is not None:
                return n.type != i.type if len(its) == 1 else (True if n.type != i.type else False)
            if len(its) > 1:
                return False
        return False
    if ev["op"] == "git.repo":
        n = st.get(kw["path"])
        if n is None:
            return False
        g = st.get(join(kw["path"], ".git"))
        return n.type != "dir" or g is None or g.type != "dir"
    if ev["op"] == "system.package":
        return not st.tools & {"pacman", "apt-get", "emerge"}
    if ev["op"] == "system.service":
        return "systemctl" not in st.tools
    return False


def other_branch(ev):
    """The known finding that a repository checked out on another branch is not switched."""
    kw = ev["kw"]
    n = ev["before"].get(join(kw["path"], ".git/config"))
    if n is None or n.type != "file":
        return False
    m = re.search(rb"^branch=(.*)$", n.data, re.M)
    r = ev["before"].git_remotes.get(kw["url"])
    if m is None or r is None:
        return False
    return m.group(1).decode() != (kw.get("branch_or_tag") or r["default"])
