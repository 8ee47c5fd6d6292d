"""A simulated host: inode filesystem, processes, accounts, packages, services.

Every system call goes through SimHost.sys(), which is a scheduling point, a
fault-injection point and (for mutating calls) an entry of the mutation log.
"""
import errno as E
import io
import os as _os
import stat as S

from .sched import SimKilled, SimUnsupported

MUTATING = {"mkdir", "rmdir", "unlink", "symlink", "rename", "link", "chmod", "chown", "lchown", "utime", "write",
            "truncate", "create", "acct", "pkg", "svc", "git", "mknod"}


def oserr(code, *paths):
    if len(paths) == 2:
        return OSError(code, _os.strerror(code), paths[0], None, paths[1])
    if paths:
        return OSError(code, _os.strerror(code), paths[0])
    return OSError(code, _os.strerror(code))


class Inode:
    __slots__ = ("ino", "type", "mode", "uid", "gid", "data", "entries", "target", "mtime", "ctime", "atime", "dirty", "nlink", "rdev")

    def __init__(self, ino, type, mode, uid, gid, now):
        self.ino = ino
        self.type = type
        self.mode = mode
        self.uid = uid
        self.gid = gid
        self.data = b"" if type == "file" else None
        self.entries = {} if type == "dir" else None
        self.target = None
        self.mtime = self.ctime = self.atime = now
        self.dirty = None       # content prefix known durable, None if clean
        self.nlink = 1
        self.rdev = 0

    def clone(self):
        n = Inode.__new__(Inode)
        for k in Inode.__slots__:
            setattr(n, k, getattr(self, k))
        if self.entries is not None:
            n.entries = dict(self.entries)
        return n


FMT = {"file": S.S_IFREG, "dir": S.S_IFDIR, "link": S.S_IFLNK, "fifo": S.S_IFIFO, "chr": S.S_IFCHR, "blk": S.S_IFBLK, "sock": S.S_IFSOCK}


class FS:
    """The durable and volatile file state, free of permission checks and faults."""

    def __init__(self):
        self.inodes = {}
        self.next_ino = 2
        self.root = self.new("dir", 0o755, 0, 0, 0).ino

    def new(self, type, mode, uid, gid, now):
        n = Inode(self.next_ino, type, mode, uid, gid, now)
        self.next_ino += 1
        self.inodes[n.ino] = n
        return n

    def clone(self):
        f = FS.__new__(FS)
        f.inodes = {k: v.clone() for k, v in self.inodes.items()}
        f.next_ino = self.next_ino
        f.root = self.root
        return f

    def walk_paths(self):
        """Yields (path, inode) for every reachable object, sorted."""
        out = []
        stack = [("", self.inodes[self.root])]
        while stack:
            p, n = stack.pop()
            out.append((p or "/", n))
            if n.type == "dir":
                for name, i in n.entries.items():
                    stack.append((p + "/" + name, self.inodes[i]))
        out.sort(key=lambda x: x[0])
        return out


class Proc:
    def __init__(self, host, pid, parent=None):
        self.host = host
        self.pid = pid
        self.parent = parent
        self.alive = True
        self.exitcode = None
        if parent is not None:
            self.ruid, self.euid, self.suid = parent.ruid, parent.euid, parent.suid
            self.rgid, self.egid, self.sgid = parent.rgid, parent.egid, parent.sgid
            self.groups = list(parent.groups)
            self.umask = parent.umask
            self.cwd = parent.cwd
            self.env = dict(parent.env)
            self.fds = dict(parent.fds)
        else:
            self.ruid = self.euid = self.suid = 0
            self.rgid = self.egid = self.sgid = 0
            self.groups = [0]
            self.umask = 0o022
            self.cwd = "/"
            self.env = {}
            self.fds = {}
        self.argv = []
        self.kind = "dispatcher"
        self.cmd_index = None
        self.steps = 0
        self.fault = None       # in-command fault: (step, what)
        self.sig = None


class OpenFile:
    """An open file description."""
    __slots__ = ("host", "ino", "flags", "pos", "path", "readable", "writable", "append", "closed")

    def __init__(self, host, ino, flags, path):
        self.host = host
        self.ino = ino
        self.flags = flags
        self.pos = 0
        self.path = path
        acc = flags & _os.O_ACCMODE
        self.readable = acc in (_os.O_RDONLY, _os.O_RDWR)
        self.writable = acc in (_os.O_WRONLY, _os.O_RDWR)
        self.append = bool(flags & _os.O_APPEND)
        self.closed = False


class SimStat:
    pass


def make_stat(n):
    mode = FMT[n.type] | n.mode
    size = len(n.data) if n.type == "file" else (len(n.target.encode("utf-8", "surrogateescape")) if n.type == "link" else (4096 if n.type == "dir" else 0))
    nlink = n.nlink if n.type != "dir" else 2
    return _os.stat_result((mode, n.ino, 1, nlink, n.uid, n.gid, size, n.atime // 10**9, n.mtime // 10**9, n.ctime // 10**9,
                            n.atime / 1e9, n.mtime / 1e9, n.ctime / 1e9, n.atime, n.mtime, n.ctime))


class HostState:
    """Everything about a host that outlives processes (and can be compared)."""

    def __init__(self):
        self.fs = FS()
        self.users = {}         # name -> dict(uid,gid,gecos,home,shell,pw)
        self.groups = {}        # name -> dict(gid,members)
        self.packages = set()
        self.pkg_available = set()
        self.services = {}      # name -> dict(active,enabled,restarts,reloads, exists)
        self.user_services = {}
        self.daemon_reloads = 0
        self.git_remotes = {}   # url -> dict(refs, default)
        self.env = {}
        self.tools = set()      # optional commands present on the host
        self.usergroups_enab = True
        self.world = set()

    def clone(self):
        h = HostState()
        h.fs = self.fs.clone()
        h.users = {k: dict(v) for k, v in self.users.items()}
        h.groups = {k: {"gid": v["gid"], "members": list(v["members"])} for k, v in self.groups.items()}
        h.packages = set(self.packages)
        h.pkg_available = set(self.pkg_available)
        h.services = {k: dict(v) for k, v in self.services.items()}
        h.user_services = {k: dict(v) for k, v in self.user_services.items()}
        h.daemon_reloads = self.daemon_reloads
        h.git_remotes = {k: dict(v) for k, v in self.git_remotes.items()}
        h.env = dict(self.env)
        h.tools = set(self.tools)
        h.usergroups_enab = self.usergroups_enab
        h.world = set(self.world)
        return h

    # -- convenience for set-up and models (no permission checks)
    def lookup(self, path, follow=True, depth=0):
        """Returns (parent inode, name, inode or None). Raises OSError like the kernel."""
        if depth > 40:
            raise oserr(E.ELOOP, path)
        fs = self.fs
        cur = fs.inodes[fs.root]
        stack = [cur]
        parts = [c for c in path.split("/") if c not in ("", ".")]
        trailing = path.endswith("/") and parts
        i = 0
        name = None
        parent = cur
        node = cur
        while i < len(parts):
            c = parts[i]
            if node.type != "dir":
                raise oserr(E.ENOTDIR, path)
            if c == "..":
                if len(stack) > 1:
                    stack.pop()
                node = stack[-1]
                i += 1
                name = None
                parent = node
                continue
            nxt = node.entries.get(c)
            last = i == len(parts) - 1
            if nxt is None:
                if last:
                    return node, c, None
                raise oserr(E.ENOENT, path)
            child = fs.inodes[nxt]
            if child.type == "link" and (not last or follow or trailing):
                depth += 1
                if depth > 40:
                    raise oserr(E.ELOOP, path)
                t = [x for x in child.target.split("/") if x not in ("", ".")]
                if child.target.startswith("/"):
                    stack = [fs.inodes[fs.root]]
                    node = stack[0]
                parts = t + parts[i + 1:]
                i = 0
                if not parts:
                    return node, None, node
                continue
            parent, name = node, c
            node = child
            if child.type == "dir":
                stack.append(child)
            i += 1
        if trailing and node.type != "dir":
            raise oserr(E.ENOTDIR, path)
        return parent, name, node

    def get(self, path, follow=False):
        try:
            return self.lookup(path, follow=follow)[2]
        except OSError:
            return None

    def put(self, path, type, mode=None, uid=0, gid=0, data=None, target=None, mtime=None):
        parent, name, node = self.lookup(path, follow=False)
        t = 1_600_000_000 * 10**9 if mtime is None else mtime
        if node is None:
            node = self.fs.new(type, 0, uid, gid, t)
            parent.entries[name] = node.ino
        node.type = type
        node.mode = 0o777 if type == "link" else ((0o755 if type == "dir" else 0o644) if mode is None else mode)
        node.uid, node.gid = uid, gid
        if type == "file":
            node.data = data if data is not None else b""
        if type == "link":
            node.target = target
        node.mtime = node.ctime = node.atime = t
        return node

    def snapshot(self):
        """A comparable picture of the host (no inode numbers, no timestamps)."""
        f = {}
        for p, n in self.fs.walk_paths():
            f[p] = (n.type, n.mode, n.uid, n.gid, n.data if n.type == "file" else None, n.target)
        return {"fs": f,
                "users": {k: dict(v) for k, v in self.users.items()},
                "groups": {k: (v["gid"], tuple(sorted(v["members"]))) for k, v in self.groups.items()},
                "packages": tuple(sorted(self.packages)),
                "services": {k: (v["active"], v["enabled"]) for k, v in self.services.items()},
                "user_services": {k: (v["active"], v["enabled"]) for k, v in self.user_services.items()}}

    def svc_counts(self):
        return {k: (v.get("starts", 0), v.get("stops", 0), v.get("restarts", 0), v.get("reloads", 0)) for k, v in self.services.items()}


class Fault:
    def __init__(self, d):
        self.d = d
        self.done = False


class SimHost:
    """A running simulated host (state + processes + faults)."""

    def __init__(self, sim, name, state, faults=()):
        self.sim = sim
        self.name = name
        self.st = state
        self.procs = []
        self.next_pid = 100
        self.nsys = 0
        self.ncmd = 0
        self.mutlog = []        # list of dicts
        self.execlog = []       # executed commands
        self.syslog = []        # (n, name, kind, cmd index) for the profile
        self.faults = [dict(f) for f in faults]
        self.sys_faults = {}
        self.cmd_faults = {}
        for f in self.faults:
            if "sys" in f:
                self.sys_faults.setdefault(f["sys"], []).append(f)
            elif "cmd" in f:
                self.cmd_faults.setdefault(f["cmd"], []).append(f)
        self.fired_faults = []
        self.sessions = []
        self.session_user = "root"
        self.down = False
        self.tag = None         # what the controller is doing (set by the bridge)
        self.keep_syslog = False
        self.watch = None       # called with every mutlog entry
        self.probe_files = {}

    # ------------------------------------------------------------- processes
    def new_proc(self, parent=None):
        p = Proc(self, self.next_pid, parent)
        self.next_pid += 1
        self.procs.append(p)
        return p

    def now_ns(self):
        return int(self.sim.now * 1e9)

    def guard(self, proc):
        if not proc.alive:
            raise SimKilled()

    def exit_proc(self, proc, code):
        if proc.alive:
            proc.alive = False
            proc.exitcode = code
            self.sim.note(self.name, "exit", proc.kind, code)
            self._close_fds(proc)

    def _close_fds(self, proc):
        if proc.kind == "dispatcher":
            for fd in (0, 1):
                o = proc.fds.get(fd)
                if o is not None and hasattr(o, "pipe"):
                    if o.mode_ == "r":
                        o.pipe.close_reader()
                    else:
                        o.pipe.close_writer()
            cb = getattr(proc, "on_exit", None)
            if cb:
                cb()

    def kill_proc(self, proc, sig=9):
        """SIGKILL/SIGTERM: the process vanishes, its children live on."""
        if proc.alive:
            proc.sig = sig
            self.exit_proc(proc, -sig)

    def crash(self, power=False):
        """The whole host stops; all processes are gone."""
        for p in list(self.procs):
            if p.alive:
                p.alive = False
                p.exitcode = -9
                self._close_fds(p)
        self.down = True
        if power:
            rng = self.sim.rng
            for ino in sorted(self.st.fs.inodes):
                n = self.st.fs.inodes[ino]
                if n.type == "file" and n.dirty is not None:
                    keep = len(n.data)
                    r = rng.random()
                    if r < 0.34:
                        keep = 0
                    elif r < 0.67 and keep:
                        keep = rng.randrange(keep + 1)
                    if keep < len(n.data):
                        n.data = n.data[:keep]
                        self.sim.fire("lost_write")
                    n.dirty = None
        for s in self.sessions:
            s.host_down()

    # ------------------------------------------------------------- syscalls
    def enter(self, proc, name, *args):
        """Scheduling and fault point of one system call. Returns a modifier or None."""
        self.guard(proc)
        self.nsys += 1
        n = self.nsys
        self.sim.point((self.name, proc.pid, name) + args)
        self.guard(proc)
        if self.keep_syslog:
            self.syslog.append((n, name, proc.kind, proc.cmd_index, self.tag, args[0] if args else None))
        mod = None
        for f in self.sys_faults.get(n, ()):
            mod = self._apply(f, proc, name) or mod
        if proc.fault is not None and proc.kind == "command":
            proc.steps += 1
            f = proc.fault
            if proc.steps > f.get("at", 0) and not f.get("_done"):
                f["_done"] = True
                self._fired(f, proc)
                if f["do"] == "sig":
                    raise CmdKilled(f.get("sig", 9))
                if f["do"] == "errno":
                    raise oserr(f["errno"])
                if f["do"] == "exit":
                    raise CmdExit(f.get("rc", 1))
        return mod

    def _fired(self, f, proc=None, call=None):
        self.sim.fire(f["k"] + ":" + str(f.get("do", "")))
        self.sim.note(self.name, "fault", f["k"], f.get("do"))
        self.fired_faults.append(dict({k: v for k, v in f.items() if not k.startswith("_")}, tag=self.tag, who=proc.kind if proc is not None else None, call=call,
                                      entry=proc.cmd_index if proc is not None else None))

    def _apply(self, f, proc, name):
        if f.get("_done"):
            return None
        f["_done"] = True
        do = f["do"]
        self._fired(f, proc, name)
        if do == "errno":
            raise oserr(f["errno"])
        if do == "kill":
            # the remote process serving the session dies (OOM killer, kill -9)
            for p in list(self.procs):
                if p.kind == "dispatcher" and p.alive:
                    self.kill_proc(p)
            self.guard(proc)
            return None
        if do == "crash":
            self.crash(power=False)
            raise SimKilled()
        if do == "power":
            self.crash(power=True)
            raise SimKilled()
        if do in ("short", "killmid", "powermid"):
            return f
        if do == "after":
            return f
        raise AssertionError(do)

    def leave(self, proc, mod):
        """Fault effects that strike after the call took effect."""
        if mod is not None and mod["do"] == "after":
            for p in list(self.procs):
                if p.kind == "dispatcher" and p.alive:
                    self.kill_proc(p)
            self.guard(proc)

    def mutate(self, proc, call, path, node=None, **kw):
        e = {"n": self.nsys, "t": self.sim.now, "pid": proc.pid, "kind": proc.kind, "cmd": proc.cmd_index, "call": call, "path": path, "tag": self.tag}
        if node is not None:
            e.update(ino=node.ino, type=node.type, mode=node.mode, uid=node.uid, gid=node.gid, size=len(node.data) if node.type == "file" else None)
        e.update(kw)
        self.mutlog.append(e)
        if self.watch is not None:
            self.watch(e)
        self.sim.note(self.name, "mut", call, path)

    # -- permissions
    def _groups(self, proc):
        return [proc.egid] + proc.groups

    def access_ok(self, proc, node, want):
        if proc.euid == 0:
            return True
        m = node.mode
        if node.uid == proc.euid:
            bits = (m >> 6) & 7
        elif node.gid in self._groups(proc):
            bits = (m >> 3) & 7
        else:
            bits = m & 7
        return (bits & want) == want

    def abspath(self, proc, path):
        if isinstance(path, bytes):
            path = path.decode("utf-8", "surrogateescape")
        if "\0" in path:
            raise ValueError("embedded null byte")
        if path == "":
            raise oserr(E.ENOENT, path)
        for c in path.split("/"):
            if len(c.encode("utf-8", "surrogateescape")) > 255:
                raise oserr(E.ENAMETOOLONG, path)
        if len(path.encode("utf-8", "surrogateescape")) > 4096:
            raise oserr(E.ENAMETOOLONG, path)
        if not path.startswith("/"):
            path = proc.cwd.rstrip("/") + "/" + path
        return path

    def namei(self, proc, path, follow=True):
        """Path resolution with search permission checks."""
        ap = self.abspath(proc, path)
        if proc.euid != 0:
            self._check_search(proc, ap, path)
        try:
            return self.st.lookup(ap, follow=follow)
        except OSError as e:
            e.filename = path
            raise

    def _check_search(self, proc, ap, orig):
        st = self.st
        fs = st.fs
        node = fs.inodes[fs.root]
        parts = [c for c in ap.split("/") if c not in ("", ".")]
        cur = ""
        for i, c in enumerate(parts):
            if node is None:
                return
            if node.type == "dir" and not self.access_ok(proc, node, 1):
                raise oserr(E.EACCES, orig)
            cur += "/" + c
            node = st.get(cur, follow=True)

    def _path_of(self, proc, path):
        """Canonical path (parents resolved) for the logs."""
        try:
            ap = self.abspath(proc, path)
        except (OSError, ValueError):
            return str(path)
        return self.canon(ap)

    def canon(self, ap):
        ap = ap.rstrip("/") or "/"
        d, _, b = ap.rpartition("/")
        return (self.realdir(d) + "/" + b) if d else "/" + b

    def realdir(self, d, depth=0):
        out = []
        parts = [c for c in d.split("/") if c not in ("", ".")]
        while parts:
            c = parts.pop(0)
            if c == "..":
                if out:
                    out.pop()
                continue
            p = "/" + "/".join(out + [c])
            n = self.st.get(p)
            if n is not None and n.type == "link" and depth < 40:
                depth += 1
                t = [x for x in n.target.split("/") if x not in ("", ".")]
                if n.target.startswith("/"):
                    out = []
                parts = t + parts
                continue
            out.append(c)
        return "/" + "/".join(out) if out else ""

    # -- stat family
    def sys_stat(self, proc, path, follow=True):
        self.enter(proc, "stat" if follow else "lstat", str(path))
        _, _, node = self.namei(proc, path, follow)
        if node is None:
            raise oserr(E.ENOENT, path)
        return make_stat(node)

    def sys_access(self, proc, path, mode):
        self.enter(proc, "access", str(path))
        _, _, node = self.namei(proc, path)
        if node is None:
            raise oserr(E.ENOENT, path)
        want = mode & 7
        return want == 0 or self.access_ok(proc, node, want) and not (want & 1 and node.type == "file" and not node.mode & 0o111)

    def sys_readlink(self, proc, path):
        self.enter(proc, "readlink", str(path))
        _, _, node = self.namei(proc, path, False)
        if node is None:
            raise oserr(E.ENOENT, path)
        if node.type != "link":
            raise oserr(E.EINVAL, path)
        return node.target

    def sys_listdir(self, proc, path):
        self.enter(proc, "getdents", str(path))
        _, _, node = self.namei(proc, path)
        if node is None:
            raise oserr(E.ENOENT, path)
        if node.type != "dir":
            raise oserr(E.ENOTDIR, path)
        if not self.access_ok(proc, node, 4):
            raise oserr(E.EACCES, path)
        names = sorted(node.entries)
        self.sim.rng.shuffle(names)
        return names

    # -- directory modification
    def _may_modify_dir(self, proc, d, path, victim=None):
        if not self.access_ok(proc, d, 3):
            raise oserr(E.EACCES, path)
        if victim is not None and d.mode & 0o1000 and proc.euid not in (0, d.uid, victim.uid):
            raise oserr(E.EPERM, path)

    def _creat(self, proc, parent, name, type, mode, path):
        self._may_modify_dir(proc, parent, path)
        gid = parent.gid if parent.mode & 0o2000 else proc.egid
        n = self.st.fs.new(type, mode, proc.euid, gid, self.now_ns())
        if type == "dir" and parent.mode & 0o2000:
            n.mode |= 0o2000
        parent.entries[name] = n.ino
        parent.mtime = parent.ctime = self.now_ns()
        return n

    def sys_mkdir(self, proc, path, mode=0o777):
        mod = self.enter(proc, "mkdir", str(path))
        parent, name, node = self.namei(proc, path, False)
        if node is not None:
            raise oserr(E.EEXIST, path)
        n = self._creat(proc, parent, name, "dir", mode & 0o1777 & ~proc.umask, path)
        self.mutate(proc, "mkdir", self._path_of(proc, path), n, umask=proc.umask)
        self.leave(proc, mod)

    def sys_rmdir(self, proc, path):
        mod = self.enter(proc, "rmdir", str(path))
        parent, name, node = self.namei(proc, path, False)
        if node is None:
            raise oserr(E.ENOENT, path)
        if node.type != "dir":
            raise oserr(E.ENOTDIR, path)
        if node.entries:
            raise oserr(E.ENOTEMPTY, path)
        self._may_modify_dir(proc, parent, path, node)
        p = self._path_of(proc, path)
        del parent.entries[name]
        self.mutate(proc, "rmdir", p, node)
        self.leave(proc, mod)

    def sys_unlink(self, proc, path):
        mod = self.enter(proc, "unlink", str(path))
        parent, name, node = self.namei(proc, path, False)
        if node is None:
            raise oserr(E.ENOENT, path)
        if node.type == "dir":
            raise oserr(E.EISDIR, path)
        self._may_modify_dir(proc, parent, path, node)
        p = self._path_of(proc, path)
        del parent.entries[name]
        node.nlink -= 1
        self.mutate(proc, "unlink", p, node)
        self.leave(proc, mod)

    def sys_symlink(self, proc, target, path):
        mod = self.enter(proc, "symlink", str(path))
        parent, name, node = self.namei(proc, path, False)
        if node is not None:
            raise oserr(E.EEXIST, target, path)
        n = self._creat(proc, parent, name, "link", 0o777, path)
        n.target = target if isinstance(target, str) else target.decode("utf-8", "surrogateescape")
        self.mutate(proc, "symlink", self._path_of(proc, path), n)
        self.leave(proc, mod)

    def sys_link(self, proc, src, path):
        mod = self.enter(proc, "link", str(path))
        _, _, snode = self.namei(proc, src, False)
        if snode is None:
            raise oserr(E.ENOENT, src)
        parent, name, node = self.namei(proc, path, False)
        if node is not None:
            raise oserr(E.EEXIST, path)
        self._may_modify_dir(proc, parent, path)
        parent.entries[name] = snode.ino
        snode.nlink += 1
        self.mutate(proc, "link", self._path_of(proc, path), snode)
        self.leave(proc, mod)

    def sys_rename(self, proc, src, dst):
        mod = self.enter(proc, "rename", str(src), str(dst))
        sp, sn, snode = self.namei(proc, src, False)
        if snode is None:
            raise oserr(E.ENOENT, src, dst)
        dp, dn, dnode = self.namei(proc, dst, False)
        self._may_modify_dir(proc, sp, src, snode)
        self._may_modify_dir(proc, dp, dst, dnode)
        if dnode is snode:
            return
        if dnode is not None:
            if dnode.type == "dir" and snode.type != "dir":
                raise oserr(E.EISDIR, src, dst)
            if dnode.type != "dir" and snode.type == "dir":
                raise oserr(E.ENOTDIR, src, dst)
            if dnode.type == "dir" and dnode.entries:
                raise oserr(E.ENOTEMPTY, src, dst)
        a, b = self._path_of(proc, src), self._path_of(proc, dst)
        del sp.entries[sn]
        dp.entries[dn] = snode.ino
        self.mutate(proc, "rename", b, snode, src=a)
        self.leave(proc, mod)

    # -- attributes
    def sys_chmod(self, proc, path, mode, follow=True):
        mod = self.enter(proc, "chmod", str(path), mode)
        node = path if isinstance(path, Inode) else self.namei(proc, path, follow)[2]
        self._chmod(proc, node, path, mode)
        self.leave(proc, mod)

    def _chmod(self, proc, node, path, mode):
        if node is None:
            raise oserr(E.ENOENT, path)
        if node.type == "link":
            raise oserr(E.EOPNOTSUPP, path)
        if proc.euid not in (0, node.uid):
            raise oserr(E.EPERM, path)
        mode &= 0o7777
        if proc.euid != 0 and node.gid not in self._groups(proc):
            mode &= ~0o2000
        old = node.mode
        node.mode = mode
        node.ctime = self.now_ns()
        self.mutate(proc, "chmod", self.path_of_inode(node, path, proc), node, old=old)

    def path_of_inode(self, node, path, proc):
        if isinstance(path, str):
            try:
                ap = self.abspath(proc, path)
                n = self.st.get(ap)
                if n is node:
                    return self.canon(ap)
            except (OSError, ValueError):
                pass
        for p, n in self.st.fs.walk_paths():
            if n is node:
                return p
        return str(path)

    def sys_chown(self, proc, path, uid, gid, follow=True):
        mod = self.enter(proc, "chown", str(path), uid, gid)
        node = path if isinstance(path, Inode) else self.namei(proc, path, follow)[2]
        if node is None:
            raise oserr(E.ENOENT, path)
        if proc.euid != 0:
            ok = proc.euid == node.uid and (uid in (-1, node.uid)) and (gid == -1 or gid == node.gid or gid in self._groups(proc))
            if not ok:
                raise oserr(E.EPERM, path)
        old = (node.uid, node.gid, node.mode)
        if uid != -1:
            node.uid = uid
        if gid != -1:
            node.gid = gid
        # the kernel drops set-id bits of executables on chown, even for root
        if node.type == "file" and not (uid == -1 and gid == -1):
            if node.mode & 0o4000:
                node.mode &= ~0o4000
            if node.mode & 0o2000 and node.mode & 0o010:
                node.mode &= ~0o2000
        node.ctime = self.now_ns()
        self.mutate(proc, "chown", self.path_of_inode(node, path, proc), node, old=old)
        self.leave(proc, mod)

    def sys_utime(self, proc, path, follow=True, times=None):
        mod = self.enter(proc, "utime", str(path))
        node = path if isinstance(path, Inode) else self.namei(proc, path, follow)[2]
        if node is None:
            raise oserr(E.ENOENT, path)
        if proc.euid not in (0, node.uid) and not self.access_ok(proc, node, 2):
            raise oserr(E.EACCES, path)
        if times is None:
            node.mtime = node.atime = self.now_ns()
        else:
            node.atime, node.mtime = times
        node.ctime = self.now_ns()
        self.mutate(proc, "utime", self.path_of_inode(node, path, proc), node)
        self.leave(proc, mod)

    # -- file I/O
    def sys_open(self, proc, path, flags, mode=0o777):
        mod = self.enter(proc, "open", str(path), flags)
        nofollow = bool(flags & _os.O_NOFOLLOW) or (flags & _os.O_CREAT and flags & _os.O_EXCL)
        parent, name, node = self.namei(proc, path, not nofollow)
        acc = flags & _os.O_ACCMODE
        want = {_os.O_RDONLY: 4, _os.O_WRONLY: 2, _os.O_RDWR: 6}[acc]
        created = False
        if node is None:
            if not flags & _os.O_CREAT:
                raise oserr(E.ENOENT, path)
            if name is None or str(path).endswith("/"):
                raise oserr(E.EISDIR, path)
            node = self._creat(proc, parent, name, "file", mode & 0o7777 & ~proc.umask, path)
            created = True
            self.mutate(proc, "create", self.path_of_inode(node, path, proc), node, umask=proc.umask)
        else:
            if flags & _os.O_CREAT and flags & _os.O_EXCL:
                raise oserr(E.EEXIST, path)
            if node.type == "link":
                raise oserr(E.ELOOP, path)
            if node.type == "dir" and acc != _os.O_RDONLY:
                raise oserr(E.EISDIR, path)
            if flags & _os.O_DIRECTORY and node.type != "dir":
                raise oserr(E.ENOTDIR, path)
            if not self.access_ok(proc, node, want):
                raise oserr(E.EACCES, path)
        if node.type == "dir" and flags & _os.O_ACCMODE != _os.O_RDONLY:
            raise oserr(E.EISDIR, path)
        of = OpenFile(self, node.ino, flags, path)
        if flags & _os.O_TRUNC and node.type == "file" and not created and want & 2:
            if node.data:
                node.data = b""
            node.dirty = True
            node.mtime = node.ctime = self.now_ns()
            self._strip_setid(proc, node)
            self.mutate(proc, "truncate", self.path_of_inode(node, path, proc), node)
        self.leave(proc, mod)
        return of

    def _strip_setid(self, proc, node):
        if proc.euid != 0:
            node.mode &= ~0o4000
            if node.mode & 0o010:
                node.mode &= ~0o2000

    def sys_read(self, proc, of, n):
        self.enter(proc, "read", str(of.path))
        node = self.st.fs.inodes[of.ino]
        if node.type == "dir":
            raise oserr(E.EISDIR)
        if node.type != "file":
            return b""
        if not of.readable:
            raise oserr(E.EBADF)
        if n is None or n < 0:
            n = len(node.data)
        data = node.data[of.pos:of.pos + n]
        if len(data) > 1 and self.sim.rng.random() < self.sim.policy["shortio"]:
            data = data[:self.sim.rng.randint(1, len(data))]
        of.pos += len(data)
        return data

    def sys_write(self, proc, of, data):
        mod = self.enter(proc, "write", str(of.path), len(data))
        if not of.writable:
            raise oserr(E.EBADF)
        node = self.st.fs.inodes[of.ino]
        if node.type != "file":
            return len(data)
        n = len(data)
        if mod is not None and mod["do"] in ("short", "killmid", "powermid") and n > 0:
            n = int(n * mod.get("frac", 0.5))
            if mod["do"] == "short":
                n = max(1, n)
        elif n > 1 and self.sim.rng.random() < self.sim.policy["shortio"]:
            n = self.sim.rng.randint(1, n)
        if n:
            if of.append:
                of.pos = len(node.data)
            d = node.data
            if of.pos > len(d):
                d += b"\0" * (of.pos - len(d))
            node.data = d[:of.pos] + bytes(data[:n]) + d[of.pos + n:]
            of.pos += n
            node.dirty = True
            node.mtime = node.ctime = self.now_ns()
            self._strip_setid(proc, node)
            self.mutate(proc, "write", self.path_of_inode(node, of.path, proc), node, bytes=n)
        if mod is not None and mod["do"] == "killmid":
            for p in list(self.procs):
                if p.kind == "dispatcher" and p.alive:
                    self.kill_proc(p)
            self.guard(proc)
        if mod is not None and mod["do"] == "powermid":
            self.crash(power=True)
            raise SimKilled()
        self.leave(proc, mod)
        return n

    def sys_close(self, proc, of):
        self.guard(proc)
        if not of.closed:
            of.closed = True
            if of.writable:
                self.enter(proc, "close", str(of.path))

    def sys_fsync(self, proc, of):
        self.enter(proc, "fsync", str(of.path))
        self.st.fs.inodes[of.ino].dirty = None

    def sys_truncate(self, proc, of, size):
        self.enter(proc, "truncate", str(of.path))
        node = self.st.fs.inodes[of.ino]
        node.data = (node.data + b"\0" * max(0, size - len(node.data)))[:size]
        node.dirty = True
        self.mutate(proc, "truncate", self.path_of_inode(node, of.path, proc), node)

    # -- process attributes
    def sys_chdir(self, proc, path):
        self.enter(proc, "chdir", str(path))
        ap = self.abspath(proc, path)
        _, _, node = self.namei(proc, path)
        if node is None:
            raise oserr(E.ENOENT, path)
        if node.type != "dir":
            raise oserr(E.ENOTDIR, path)
        if not self.access_ok(proc, node, 1):
            raise oserr(E.EACCES, path)
        proc.cwd = self.realdir(ap) or "/"

    def sys_umask(self, proc, mask):
        self.guard(proc)
        old = proc.umask
        proc.umask = mask & 0o777
        return old

    def sys_setresuid(self, proc, r, e, s):
        self.enter(proc, "setresuid", r, e, s)
        cur = (proc.ruid, proc.euid, proc.suid)
        if proc.euid != 0:
            for v in (r, e, s):
                if v != -1 and v not in cur:
                    raise oserr(E.EPERM)
        if r != -1:
            proc.ruid = r
        if e != -1:
            proc.euid = e
        if s != -1:
            proc.suid = s

    def sys_setresgid(self, proc, r, e, s):
        self.enter(proc, "setresgid", r, e, s)
        cur = (proc.rgid, proc.egid, proc.sgid)
        if proc.euid != 0:
            for v in (r, e, s):
                if v != -1 and v not in cur:
                    raise oserr(E.EPERM)
        if r != -1:
            proc.rgid = r
        if e != -1:
            proc.egid = e
        if s != -1:
            proc.sgid = s

    def sys_setgroups(self, proc, groups):
        self.enter(proc, "setgroups")
        if proc.euid != 0:
            raise oserr(E.EPERM)
        proc.groups = list(groups)


class CmdKilled(BaseException):
    """The running command was killed by a signal."""
    def __init__(self, sig):
        super().__init__(sig)
        self.sig = sig


class CmdExit(BaseException):
    """The running command exits with the given status."""
    def __init__(self, rc):
        super().__init__(rc)
        self.rc = rc


class FileRaw(io.RawIOBase):
    """Raw file object over a simulated open file."""

    def __init__(self, host, proc, of, closefd=True):
        super().__init__()
        self.host = host
        self.proc = proc
        self.of = of
        self.name = of.path

    def readable(self):
        return self.of.readable

    def writable(self):
        return self.of.writable

    def seekable(self):
        return True

    def readinto(self, b):
        data = self.host.sys_read(self.proc, self.of, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        return self.host.sys_write(self.proc, self.of, bytes(b))

    def seek(self, off, whence=0):
        node = self.host.st.fs.inodes[self.of.ino]
        base = 0 if whence == 0 else self.of.pos if whence == 1 else len(node.data)
        self.of.pos = base + off
        return self.of.pos

    def tell(self):
        return self.of.pos

    def truncate(self, size=None):
        if size is None:
            size = self.of.pos
        self.host.sys_truncate(self.proc, self.of, size)
        return size

    def fileno(self):
        for fd, o in self.proc.fds.items():
            if o is self.of:
                return fd
        fd = 3
        while fd in self.proc.fds:
            fd += 1
        self.proc.fds[fd] = self.of
        return fd

    def isatty(self):
        return False

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self.host.sys_close(self.proc, self.of)
