"""Models of the remote tools fora uses. Each is a sequence of simulated system
calls, so every step is a scheduling point and can fail, be killed or be cut."""
import errno as E
import fnmatch
import hashlib
import os as _os
import posixpath
import re
import stat as S

from .kernel import CmdExit, CmdKilled, FileRaw, OpenFile, oserr
from .sched import PipeRaw, SimKilled, SimUnsupported

PROGRAMS = {}
OPTIONAL = {"pacman", "apt-get", "dpkg-query", "dpkg", "emerge", "systemctl", "git", "rc-service", "apt", "yum", "dnf", "zypper", "apk"}
KNOWN_REAL = set("""sed grep awk install find xargs tar gzip dd mktemp getent sudo su python python3 perl setpriv
 runuser nice timeout dirname basename head tail sort uniq wc cut tr sync truncate flock setfacl getfacl chattr lsattr realpath hostname
 passwd chpasswd chage visudo gpasswd vipw crontab service update-rc.d rc-update sv initctl base64 md5sum sha256sum diff cmp
 ls rsync curl wget date sleep kill ps df du mount umount uname which nohup unlink link shred split paste od hexdump xxd chsh usermod newusers""".split())
DIRS = ("/bin/", "/usr/bin/", "/sbin/", "/usr/sbin/", "/usr/local/bin/")


def program(*names):
    def d(f):
        for n in names:
            PROGRAMS[n] = f
        return f
    return d


def exists(host, name):
    if name in OPTIONAL:
        return name in host.st.tools and (name in PROGRAMS)
    return name in PROGRAMS


def find_program(host, proc, prog, env):
    """execvp() lookup."""
    name = prog
    for d in DIRS:
        if prog.startswith(d):
            name = prog[len(d):]
    if name == "":
        raise oserr(E.ENOENT, prog)
    if "/" in name:
        node = host.st.get(host.abspath(proc, prog), True)
        if node is None:
            raise oserr(E.ENOENT, prog)
        if node.type == "dir" or not node.mode & 0o111:
            raise oserr(E.EACCES, prog)
        if node.data.startswith(b"#!sim:"):
            return PROGRAMS[node.data[6:].decode().strip()]
        raise oserr(E.ENOEXEC, prog)
    if len(name.encode("utf-8", "surrogateescape")) > 255:
        raise oserr(E.ENAMETOOLONG, prog)
    if exists(host, name):
        return PROGRAMS[name]
    if name in KNOWN_REAL:
        raise SimUnsupported("command " + name)
    raise oserr(E.ENOENT, prog)


class Ctx:
    def __init__(self, host, proc, argv, stdin, sinks):
        self.host, self.proc, self.argv, self.stdin_src, self.sinks = host, proc, argv, stdin, sinks
        self.consumed = False

    def stdin(self):
        s = self.stdin_src
        self.consumed = True
        if s is None:
            return b""
        if isinstance(s, (bytes, bytearray)):
            return bytes(s)
        if isinstance(s, PipeRaw):
            out = b""
            while True:
                self.host.guard(self.proc)
                d = s.pipe.read(4096)
                if not d:
                    return out
                out += d
        if isinstance(s, OpenFile):
            return self.host.sys_read(self.proc, s, -1)
        if isinstance(s, str):
            return s.encode()
        return b""

    def write(self, fd, data):
        if isinstance(data, str):
            data = data.encode("utf-8", "surrogateescape")
        s = self.sinks.get(fd)
        if s is None or not data:
            return
        if isinstance(s, PipeRaw):
            try:
                s.pipe.write_all(data)
            except BrokenPipeError:
                raise CmdKilled(13)
        elif isinstance(s, OpenFile):
            self.host.sys_write(self.proc, s, data)
        else:
            s.write(data)

    def out(self, data):
        self.write(1, data)

    def err(self, data):
        self.write(2, data)

    def fail(self, what, e):
        self.err("%s: %s: %s\n" % (self.argv[0], what, e.strerror if isinstance(e, OSError) else e))


def execute(host, proc, entry, stdin, sinks):
    ctx = Ctx(host, proc, proc.argv, stdin, sinks)
    rec = {"cmd": proc.cmd_index, "argv": list(proc.argv), "uid": (proc.ruid, proc.euid, proc.suid), "gid": (proc.rgid, proc.egid, proc.sgid),
           "umask": proc.umask, "cwd": proc.cwd, "stdin": bytes(stdin) if isinstance(stdin, (bytes, bytearray)) else (None if stdin is None else "inherited"),
           "tag": host.tag, "n0": host.nsys, "t0": host.sim.steps, "rc": None, "groups": list(proc.groups)}
    host.execlog.append(rec)
    host.sim.note(host.name, "exec", tuple(proc.argv[:3]))
    # package queries answer "not installed" with 1; a query that fails is distinguishable
    query = proc.argv[0].rpartition("/")[2] == "dpkg-query" or (proc.argv[0].rpartition("/")[2] == "pacman" and any(x.startswith("-Q") for x in proc.argv))
    try:
        rc = entry(ctx)
    except CmdKilled as e:
        rc = -e.sig
    except CmdExit as e:
        rc = 2 if query and e.rc == 1 else e.rc
    except OSError as e:
        try:
            ctx.err("%s: %s\n" % (proc.argv[0], e.strerror))
        except CmdKilled as k:
            rc = -k.sig
        rc = 2 if query else 1
    rc = 0 if rc is None else rc
    f = proc.fault
    if f is not None and f["do"] == "late" and not f.get("_done"):
        # everything was done, but the tool reports failure
        f["_done"] = True
        host._fired(f, proc)
        rc = f.get("rc", 1)
        if query and rc == 1:
            rc = 2
    rec["rc"] = rc
    rec["t1"] = host.sim.steps
    return rc


# ---------------------------------------------------------------- option parsing

class Usage(Exception):
    pass


def getopt(argv, flags="", valued="", lflags=(), lvalued=(), stop=False):
    """GNU style parsing: returns (dict, operands)."""
    opts, rest = {}, []
    i = 1
    a = argv
    while i < len(a):
        x = a[i]
        i += 1
        if x == "--":
            rest.extend(a[i:])
            break
        if x.startswith("--") and len(x) > 2:
            k, eq, v = x[2:].partition("=")
            cand = [l for l in list(lflags) + list(lvalued) if l == k] or [l for l in list(lflags) + list(lvalued) if l.startswith(k)]
            if len(cand) != 1:
                raise Usage("unrecognized option '%s'" % x)
            k = cand[0]
            if k in lvalued:
                if not eq:
                    if i >= len(a):
                        raise Usage("option '%s' requires an argument" % x)
                    v = a[i]
                    i += 1
                opts[k] = v
            else:
                opts[k] = v if eq else True
        elif x.startswith("-") and len(x) > 1:
            j = 1
            while j < len(x):
                c = x[j]
                j += 1
                if c in valued:
                    if j < len(x):
                        opts[c] = x[j:]
                    else:
                        if i >= len(a):
                            raise Usage("option requires an argument -- '%s'" % c)
                        opts[c] = a[i]
                        i += 1
                    break
                if c not in flags:
                    raise Usage("invalid option -- '%s'" % c)
                opts[c] = True
        else:
            rest.append(x)
            if stop:
                rest.extend(a[i:])
                break
    return opts, rest


def tool(*names, **spec):
    """A program with GNU option parsing; usage errors exit with `usage_rc`."""
    usage_rc = spec.pop("usage_rc", 1)
    minargs = spec.pop("minargs", 0)

    def d(f):
        def run(ctx):
            try:
                o, rest = getopt(ctx.argv, **spec)
                if len(rest) < minargs:
                    raise Usage("missing operand")
            except Usage as e:
                ctx.err("%s: %s\n" % (ctx.argv[0], e))
                return usage_rc
            return f(ctx, o, rest)
        for n in names:
            PROGRAMS[n] = run
        return f
    return d


# ---------------------------------------------------------------- helpers

def resolve_user(host, s):
    if s in host.st.users:
        return host.st.users[s]["uid"]
    if s.isdigit():
        return int(s)
    return None


def resolve_group(host, s):
    if s in host.st.groups:
        return host.st.groups[s]["gid"]
    if s.isdigit():
        return int(s)
    return None


def walk_tree(host, proc, path):
    """Yields the paths of a tree, children first."""
    st = host.sys_stat(proc, path, False)
    if S.S_ISDIR(st.st_mode):
        for n in host.sys_listdir(proc, path):
            yield from walk_tree(host, proc, path.rstrip("/") + "/" + n)
    yield path


def walk_tree_top(host, proc, path):
    yield path
    st = host.sys_stat(proc, path, False)
    if S.S_ISDIR(st.st_mode):
        for n in host.sys_listdir(proc, path):
            yield from walk_tree_top(host, proc, path.rstrip("/") + "/" + n)


def parse_mode(spec, old, isdir, umask):
    """GNU chmod mode semantics."""
    if re.fullmatch(r"[0-7]+", spec):
        m = int(spec, 8)
        if m > 0o7777:
            return None
        if isdir and len(spec) < 5:
            m |= old & 0o6000
        return m
    if re.fullmatch(r"=[0-7]+", spec):
        return int(spec[1:], 8)
    mode = old
    for clause in spec.split(","):
        g = re.fullmatch(r"([ugoa]*)((?:[-+=][rwxXst]*)+)", clause)
        if not g:
            return None
        who = g.group(1)
        mask_umask = not who
        who = who or "a"
        if "a" in who:
            who = "ugo"
        for op, perms in re.findall(r"([-+=])([rwxXst]*)", g.group(2)):
            bits = 0
            for w in who:
                sh = {"u": 6, "g": 3, "o": 0}[w]
                if "r" in perms:
                    bits |= 4 << sh
                if "w" in perms:
                    bits |= 2 << sh
                if "x" in perms or ("X" in perms and (isdir or mode & 0o111)):
                    bits |= 1 << sh
                if "s" in perms:
                    bits |= {"u": 0o4000, "g": 0o2000, "o": 0}[w]
            if "t" in perms:
                bits |= 0o1000
            if mask_umask:
                bits &= ~umask
            if op == "+":
                mode |= bits
            elif op == "-":
                mode &= ~bits
            else:
                clear = 0
                for w in who:
                    clear |= 7 << {"u": 6, "g": 3, "o": 0}[w]
                mode = (mode & ~clear) | bits
    return mode


def read_file(host, proc, path):
    of = host.sys_open(proc, path, _os.O_RDONLY)
    out = b""
    while True:
        d = host.sys_read(proc, of, 65536)
        if not d:
            break
        out += d
    host.sys_close(proc, of)
    return out


def write_all(host, proc, of, data):
    off = 0
    while off < len(data):
        off += host.sys_write(proc, of, data[off:off + 65536])


# ---------------------------------------------------------------- coreutils

@tool("true", "sync")
def c_true(ctx, o, r):
    return 0


PROGRAMS["true"] = lambda ctx: 0
PROGRAMS[":"] = lambda ctx: 0
PROGRAMS["false"] = lambda ctx: 1


@program("echo")
def c_echo(ctx):
    a = ctx.argv[1:]
    nl = True
    if a and a[0] == "-n":
        nl = False
        a = a[1:]
    ctx.out(" ".join(a) + ("\n" if nl else ""))


@program("printf")
def c_printf(ctx):
    a = ctx.argv[1:]
    if a and a[0] == "--":
        a = a[1:]
    if not a:
        return 1
    fmt = a[0].replace("\\n", "\n").replace("\\t", "\t")
    args = list(a[1:])
    def rep(m):
        return (args.pop(0) if args else "") if m.group(0) != "%%" else "%"
    ctx.out(re.sub(r"%[%sdb]", rep, fmt))


@program("cat")
def c_cat(ctx):
    files = [x for x in ctx.argv[1:] if x != "--"]
    if not files:
        ctx.out(ctx.stdin())
        return 0
    rc = 0
    for f in files:
        try:
            ctx.out(ctx.stdin() if f == "-" else read_file(ctx.host, ctx.proc, f))
        except OSError as e:
            ctx.fail(f, e)
            rc = 1
    return rc


@tool("tee", flags="a", lflags=("append",))
def c_tee(ctx, o, r):
    data = ctx.stdin()
    for f in r:
        of = ctx.host.sys_open(ctx.proc, f, _os.O_WRONLY | _os.O_CREAT | (_os.O_APPEND if "a" in o else _os.O_TRUNC), 0o666)
        write_all(ctx.host, ctx.proc, of, data)
        ctx.host.sys_close(ctx.proc, of)
    ctx.out(data)


@program("pwd")
def c_pwd(ctx):
    ctx.out(ctx.proc.cwd + "\n")


@program("whoami")
def c_whoami(ctx):
    for n, u in ctx.host.st.users.items():
        if u["uid"] == ctx.proc.euid:
            ctx.out(n + "\n")
            return 0
    return 1


@program("id")
def c_id(ctx):
    p = ctx.proc
    a = ctx.argv[1:]
    un = next((n for n, u in ctx.host.st.users.items() if u["uid"] == p.euid), str(p.euid))
    gn = next((n for n, g in ctx.host.st.groups.items() if g["gid"] == p.egid), str(p.egid))
    if a in (["-u"], ["--user"]):
        ctx.out("%d\n" % p.euid)
    elif a in (["-g"], ["--group"]):
        ctx.out("%d\n" % p.egid)
    elif a in (["-un"], ["-u", "-n"], ["-nu"]):
        ctx.out(un + "\n")
    elif a in (["-gn"], ["-g", "-n"], ["-ng"]):
        ctx.out(gn + "\n")
    else:
        ctx.out("uid=%d(%s) gid=%d(%s)\n" % (p.euid, un, p.egid, gn))


@program("env", "printenv")
def c_env(ctx):
    a = ctx.argv[1:]
    env = dict(ctx.proc.env)
    while a and "=" in a[0]:
        k, _, v = a.pop(0).partition("=")
        env[k] = v
    if a and a[0].startswith("-"):
        raise SimUnsupported("env options")
    if a and ctx.argv[0].endswith("printenv"):
        if a[0] in env:
            ctx.out(env[a[0]] + "\n")
            return 0
        return 1
    if a:
        ctx.proc.env = env
        return run_sub(ctx, a)
    ctx.out("".join("%s=%s\n" % kv for kv in env.items()))


@program("test", "[")
def c_test(ctx):
    a = ctx.argv[1:]
    if ctx.argv[0] == "[":
        if not a or a[-1] != "]":
            return 2
        a = a[:-1]
    neg = False
    while a and a[0] == "!":
        neg = not neg
        a = a[1:]
    r = False
    if len(a) == 1:
        r = bool(a[0])
    elif len(a) == 2:
        f, p = a
        if f == "-n":
            r = bool(p)
        elif f == "-z":
            r = not p
        else:
            try:
                st = ctx.host.sys_stat(ctx.proc, p, f not in ("-L", "-h"))
                fm = S.S_IFMT(st.st_mode)
                r = {"-e": True, "-f": fm == S.S_IFREG, "-d": fm == S.S_IFDIR, "-L": fm == S.S_IFLNK, "-h": fm == S.S_IFLNK, "-s": st.st_size > 0,
                     "-r": True, "-w": True, "-x": bool(st.st_mode & 0o111)}.get(f, False)
            except OSError:
                r = False
    elif len(a) == 3:
        r = {"=": a[0] == a[2], "==": a[0] == a[2], "!=": a[0] != a[2]}.get(a[1])
        if r is None:
            raise SimUnsupported("test " + a[1])
    return 0 if bool(r) != neg else 1


@tool("touch", flags="acmhf", valued="rtd", lflags=("no-dereference", "no-create"), lvalued=("reference", "date", "time"), minargs=1)
def c_touch(ctx, o, r):
    h, p = ctx.host, ctx.proc
    nod = "h" in o or "no-dereference" in o
    noc = "c" in o or "no-create" in o
    rc = 0
    for path in r:
        try:
            if not nod and not noc:
                try:
                    of = h.sys_open(p, path, _os.O_WRONLY | _os.O_CREAT | getattr(_os, "O_NONBLOCK", 0), 0o666)
                    h.sys_close(p, of)
                except OSError as e:
                    if e.errno not in (E.EISDIR, E.EACCES):
                        raise
            h.sys_utime(p, path, not nod)
        except OSError as e:
            if noc and e.errno == E.ENOENT:
                continue
            ctx.fail("cannot touch '%s'" % path, e)
            rc = 1
    return rc


@tool("mkdir", flags="pv", valued="m", lflags=("parents", "verbose"), lvalued=("mode",), minargs=1)
def c_mkdir(ctx, o, r):
    h, p = ctx.host, ctx.proc
    parents = "p" in o or "parents" in o
    m = o.get("m", o.get("mode"))
    rc = 0
    for path in r:
        try:
            if parents:
                parts = path.rstrip("/").split("/")
                for i in range(1, len(parts)):
                    sub = "/".join(parts[:i])
                    if sub:
                        try:
                            h.sys_mkdir(p, sub, 0o777)
                        except OSError as e:
                            if e.errno != E.EEXIST:
                                raise
            try:
                h.sys_mkdir(p, path, 0o777 if m is None else parse_mode(m, 0, True, p.umask) & 0o777)
                if m is not None:
                    h.sys_chmod(p, path, parse_mode(m, 0, True, p.umask))
            except OSError as e:
                if not (parents and e.errno == E.EEXIST and S.S_ISDIR(h.sys_stat(p, path).st_mode)):
                    raise
        except OSError as e:
            ctx.fail("cannot create directory '%s'" % path, e)
            rc = 1
    return rc


@tool("chmod", flags="Rvcfh", lflags=("recursive", "verbose", "changes", "silent", "quiet", "no-dereference", "preserve-root"), lvalued=("reference",), minargs=2)
def c_chmod(ctx, o, r):
    h, p = ctx.host, ctx.proc
    spec, paths = r[0], r[1:]
    rc = 0
    for path in paths:
        try:
            todo = walk_tree_top(h, p, path) if ("R" in o or "recursive" in o) else [path]
            for x in todo:
                st = h.sys_stat(p, x, x == path)
                if S.S_ISLNK(st.st_mode):
                    continue
                m = parse_mode(spec, S.S_IMODE(st.st_mode), S.S_ISDIR(st.st_mode), p.umask)
                if m is None:
                    ctx.err("chmod: invalid mode: '%s'\n" % spec)
                    return 1
                h.sys_chmod(p, x, m)
        except OSError as e:
            ctx.fail("changing permissions of '%s'" % path, e)
            rc = 1
    return rc


def parse_owner(host, spec):
    """user[:[group]] | :group -> (uid, gid) with -1 for unset, None if invalid."""
    u, sep, g = spec.partition(":")
    uid = gid = -1
    if u:
        uid = resolve_user(host, u)
        if uid is None:
            return None
    if sep:
        if g:
            gid = resolve_group(host, g)
            if gid is None:
                return None
        elif u:
            e = next((x for x in host.st.users.values() if x["uid"] == uid), None)
            gid = e["gid"] if e else -1
    return uid, gid


@tool("chown", flags="RvcfhHLP", lflags=("recursive", "verbose", "changes", "silent", "quiet", "no-dereference", "dereference"), lvalued=("reference", "from"), minargs=2)
def c_chown(ctx, o, r):
    ids = parse_owner(ctx.host, r[0])
    if ids is None:
        ctx.err("chown: invalid user: '%s'\n" % r[0])
        return 1
    return _chown(ctx, o, ids, r[1:])


@tool("chgrp", flags="RvcfhHLP", lflags=("recursive", "verbose", "changes", "silent", "quiet", "no-dereference", "dereference"), lvalued=("reference",), minargs=2)
def c_chgrp(ctx, o, r):
    g = resolve_group(ctx.host, r[0])
    if g is None:
        ctx.err("chgrp: invalid group: '%s'\n" % r[0])
        return 1
    return _chown(ctx, o, (-1, g), r[1:])


def _chown(ctx, o, ids, paths):
    h, p = ctx.host, ctx.proc
    nod = "h" in o or "no-dereference" in o
    rc = 0
    for path in paths:
        try:
            todo = walk_tree(h, p, path) if ("R" in o or "recursive" in o) else [path]
            for x in todo:
                h.sys_stat(p, x, not nod)
                h.sys_chown(p, x, ids[0], ids[1], not nod and x == path)
        except OSError as e:
            ctx.fail("changing ownership of '%s'" % path, e)
            rc = 1
    return rc


@tool("ln", flags="sfnTvrbi", valued="tS", lflags=("symbolic", "force", "no-dereference", "no-target-directory", "verbose", "relative"), lvalued=("target-directory",), minargs=1)
def c_ln(ctx, o, r):
    h, p = ctx.host, ctx.proc
    sym = "s" in o or "symbolic" in o
    force = "f" in o or "force" in o
    nod = "n" in o or "no-dereference" in o
    notgt = "T" in o or "no-target-directory" in o
    if "t" in o or "target-directory" in o:
        raise SimUnsupported("ln option")
    if len(r) != 2:
        if len(r) > 2 and notgt:
            ctx.err("ln: extra operand\n")
            return 1
        if len(r) != 2:
            raise SimUnsupported("ln with %d operands" % len(r))
    target, dest = r
    isdir = False
    if not notgt:
        try:
            st = h.sys_stat(p, dest, not nod)
            isdir = S.S_ISDIR(st.st_mode)
        except OSError:
            isdir = False
    if isdir:
        dest = dest.rstrip("/") + "/" + (target.rstrip("/").rpartition("/")[2] or target)
    if sym and ("r" in o or "relative" in o):
        target = posixpath.relpath(h.realdir(target if target.startswith("/") else p.cwd + "/" + target), h.realdir(dest.rpartition("/")[0] or "/"))
    try:
        def mk():
            if sym:
                h.sys_symlink(p, target, dest)
            else:
                h.sys_link(p, target, dest)
        try:
            mk()
        except OSError as e:
            if e.errno != E.EEXIST or not force:
                raise
            st = h.sys_stat(p, dest, False)
            if S.S_ISDIR(st.st_mode):
                raise oserr(E.EISDIR)
            if "b" in o:
                h.sys_rename(p, dest, dest + "~")
                mk()
                return 0
            # GNU ln makes a temporary link and renames it into place
            tmp = dest.rpartition("/")[0] + "/Cu%06x" % h.sim.rng.randrange(1 << 24)
            while h.st.get(tmp) is not None:
                tmp = dest.rpartition("/")[0] + "/Cu%06x" % h.sim.rng.randrange(1 << 24)
            if sym:
                h.sys_symlink(p, target, tmp)
            else:
                h.sys_link(p, target, tmp)
            try:
                h.sys_rename(p, tmp, dest)
            except OSError:
                h.sys_unlink(p, tmp)
                raise
    except OSError as e:
        ctx.fail("failed to create link '%s'" % dest, e)
        return 1
    return 0


@tool("rm", flags="rRfvdi", lflags=("recursive", "force", "verbose", "dir", "preserve-root", "one-file-system"))
def c_rm(ctx, o, r):
    h, p = ctx.host, ctx.proc
    rec = "r" in o or "R" in o or "recursive" in o
    force = "f" in o or "force" in o
    if not r:
        if force:
            return 0
        ctx.err("rm: missing operand\n")
        return 1
    rc = 0
    for path in r:
        try:
            if path.rstrip("/") == "" and rec:
                ctx.err("rm: it is dangerous to operate recursively on '/'\n")
                rc = 1
                continue
            st = h.sys_stat(p, path, False)
            if S.S_ISDIR(st.st_mode):
                if not rec:
                    if "d" in o or "dir" in o:
                        h.sys_rmdir(p, path)
                        continue
                    raise oserr(E.EISDIR)
                for x in walk_tree(h, p, path):
                    s2 = h.sys_stat(p, x, False)
                    if S.S_ISDIR(s2.st_mode):
                        h.sys_rmdir(p, x)
                    else:
                        h.sys_unlink(p, x)
            else:
                h.sys_unlink(p, path)
        except OSError as e:
            if force and e.errno in (E.ENOENT, E.ENOTDIR):
                continue
            ctx.fail("cannot remove '%s'" % path, e)
            rc = 1
    return rc


@tool("unlink", minargs=1)
def c_unlink(ctx, o, r):
    ctx.host.sys_unlink(ctx.proc, r[0])


@tool("rmdir", flags="pv", lflags=("parents", "ignore-fail-on-non-empty"), minargs=1)
def c_rmdir(ctx, o, r):
    rc = 0
    for path in r:
        try:
            ctx.host.sys_rmdir(ctx.proc, path)
        except OSError as e:
            ctx.fail("failed to remove '%s'" % path, e)
            rc = 1
    return rc


@tool("readlink", flags="nfemqsvz", lflags=("no-newline", "canonicalize", "canonicalize-existing", "canonicalize-missing", "quiet", "silent", "verbose", "zero"), minargs=1)
def c_readlink(ctx, o, r):
    h, p = ctx.host, ctx.proc
    nn = "n" in o or "no-newline" in o
    for path in r:
        if any(k in o for k in ("f", "e", "m", "canonicalize", "canonicalize-existing", "canonicalize-missing")):
            h.enter(p, "stat", path)
            t = h.realdir(h.abspath(p, path)) or "/"
        else:
            try:
                t = h.sys_readlink(p, path)
            except OSError:
                return 1
        ctx.out(t + ("" if nn and len(r) == 1 else "\n"))
    return 0


@tool("cp", flags="apfrRTvnPdLu", lflags=("archive", "force", "recursive", "no-target-directory", "verbose", "no-clobber", "no-dereference", "remove-destination"), lvalued=("preserve", "reflink", "sparse"), minargs=2)
def c_cp(ctx, o, r):
    h, p = ctx.host, ctx.proc
    if len(r) != 2:
        raise SimUnsupported("cp with many operands")
    arch = "a" in o or "archive" in o
    pres = arch or "p" in o or "preserve" in o
    rec = arch or "r" in o or "R" in o or "recursive" in o
    src, dst = r
    try:
        try:
            ds = h.sys_stat(p, dst)
            if S.S_ISDIR(ds.st_mode) and not ("T" in o or "no-target-directory" in o):
                dst = dst.rstrip("/") + "/" + src.rstrip("/").rpartition("/")[2]
        except OSError as e:
            if e.errno != E.ENOENT:
                raise
        _cp(ctx, src, dst, arch, pres, rec)
    except OSError as e:
        ctx.fail("cannot copy '%s'" % src, e)
        return 1
    return 0


def _cp(ctx, src, dst, arch, pres, rec):
    h, p = ctx.host, ctx.proc
    st = h.sys_stat(p, src, not arch)
    if S.S_ISLNK(st.st_mode):
        try:
            h.sys_unlink(p, dst)
        except OSError:
            pass
        h.sys_symlink(p, h.sys_readlink(p, src), dst)
        h.sys_chown(p, dst, st.st_uid, st.st_gid, False)
        return
    if S.S_ISDIR(st.st_mode):
        if not rec:
            raise oserr(E.EISDIR)
        h.sys_mkdir(p, dst, 0o700)
        for n in h.sys_listdir(p, src):
            _cp(ctx, src + "/" + n, dst + "/" + n, arch, pres, rec)
    else:
        sd = h.sys_stat(p, src)
        try:
            dd = h.sys_stat(p, dst)
            if dd.st_ino == sd.st_ino:
                raise oserr(E.EINVAL)
        except OSError as e:
            if e.errno != E.ENOENT:
                raise
        data = read_file(h, p, src)
        of = h.sys_open(p, dst, _os.O_WRONLY | _os.O_CREAT | _os.O_TRUNC, (S.S_IMODE(st.st_mode) & 0o700) if pres else S.S_IMODE(st.st_mode) & 0o777)
        write_all(h, p, of, data)
        h.sys_close(p, of)
    if pres:
        h.sys_utime(p, dst, True, (st.st_atime_ns, st.st_mtime_ns))
        try:
            h.sys_chown(p, dst, st.st_uid, st.st_gid)
        except OSError as e:
            if p.euid == 0 or e.errno != E.EPERM:
                raise
        h.sys_chmod(p, dst, S.S_IMODE(st.st_mode))


@tool("mv", flags="fnvTu", lflags=("force", "no-clobber", "verbose", "no-target-directory"), minargs=2)
def c_mv(ctx, o, r):
    h, p = ctx.host, ctx.proc
    src, dst = r
    try:
        if not ("T" in o or "no-target-directory" in o):
            try:
                if S.S_ISDIR(h.sys_stat(p, dst).st_mode):
                    dst = dst.rstrip("/") + "/" + src.rstrip("/").rpartition("/")[2]
            except OSError:
                pass
        h.sys_rename(p, src, dst)
    except OSError as e:
        ctx.fail("cannot move '%s'" % src, e)
        return 1
    return 0


@tool("install", flags="dDvpTC", valued="mogt", lflags=("directory", "no-target-directory"), lvalued=("mode", "owner", "group"), minargs=1)
def c_install(ctx, o, r):
    h, p = ctx.host, ctx.proc
    mode = parse_mode(o.get("m", o.get("mode", "755")), 0, False, 0)
    uid = resolve_user(h, o["o"]) if "o" in o else resolve_user(h, o["owner"]) if "owner" in o else -1
    gid = resolve_group(h, o["g"]) if "g" in o else resolve_group(h, o["group"]) if "group" in o else -1
    if uid is None or gid is None:
        return 1
    if "d" in o or "directory" in o:
        for d in r:
            try:
                h.sys_mkdir(p, d, 0o755)
            except OSError as e:
                if e.errno != E.EEXIST:
                    raise
            if uid != -1 or gid != -1:
                h.sys_chown(p, d, uid, gid)
            h.sys_chmod(p, d, mode)
        return 0
    raise SimUnsupported("install of files")


@tool("stat", flags="Lt", valued="c", lflags=("dereference",), lvalued=("format", "printf"), minargs=1)
def c_stat(ctx, o, r):
    h, p = ctx.host, ctx.proc
    fmt = o.get("c", o.get("format"))
    rc = 0
    for path in r:
        try:
            st = h.sys_stat(p, path, "L" in o or "dereference" in o)
        except OSError as e:
            ctx.fail("cannot statx '%s'" % path, e)
            rc = 1
            continue
        if fmt is None:
            ctx.out("  File: %s\n" % path)
            continue
        un = next((n for n, u in h.st.users.items() if u["uid"] == st.st_uid), "UNKNOWN")
        gn = next((n for n, g in h.st.groups.items() if g["gid"] == st.st_gid), "UNKNOWN")
        rep = {"a": "%o" % S.S_IMODE(st.st_mode), "u": str(st.st_uid), "g": str(st.st_gid), "U": un, "G": gn, "s": str(st.st_size), "n": path,
               "F": {0o040000: "directory", 0o120000: "symbolic link"}.get(S.S_IFMT(st.st_mode), "regular file")}
        ctx.out(re.sub(r"%([auUgGsnF])", lambda m: rep[m.group(1)], fmt) + "\n")
    return rc


@tool("ls", flags="alA1dhR")
def c_ls(ctx, o, r):
    h, p = ctx.host, ctx.proc
    rc = 0
    for path in r or ["."]:
        try:
            st = h.sys_stat(p, path, True)
            if S.S_ISDIR(st.st_mode) and "d" not in o:
                ctx.out("".join(n + "\n" for n in sorted(h.sys_listdir(p, path))))
            else:
                ctx.out(path + "\n")
        except OSError as e:
            ctx.fail("cannot access '%s'" % path, e)
            rc = 2
    return rc


@tool("sha512sum", flags="bt", minargs=0)
def c_sha512sum(ctx, o, r):
    for f in r or ["-"]:
        d = ctx.stdin() if f == "-" else read_file(ctx.host, ctx.proc, f)
        ctx.out("%s  %s\n" % (hashlib.sha512(d).hexdigest(), f))


@program("which")
def c_which(ctx):
    rc = 0
    for n in ctx.argv[1:]:
        if exists(ctx.host, n):
            ctx.out("/usr/bin/%s\n" % n)
        else:
            rc = 1
    return rc


@program("sleep")
def c_sleep(ctx):
    ctx.host.sim.sleep(float(ctx.argv[1]))
    ctx.host.guard(ctx.proc)


@program("nohup", "setsid", "time", "nice", "ionice", "stdbuf")
def c_wrap(ctx):
    a = ctx.argv[1:]
    if not a or a[0].startswith("-"):
        raise SimUnsupported(ctx.argv[0])
    return run_sub(ctx, a)


def run_sub(ctx, argv, sinks=None, stdin=None):
    """A program executing another one in place (same process context)."""
    try:
        e = find_program(ctx.host, ctx.proc, argv[0], ctx.proc.env)
    except OSError:
        ctx.err("%s: command not found\n" % argv[0])
        return 127
    sub = Ctx(ctx.host, ctx.proc, argv, ctx.stdin_src if stdin is None else stdin, ctx.sinks if sinks is None else sinks)
    try:
        return e(sub) or 0
    except OSError as x:
        sub.fail("error", x)
        return 1


# ---------------------------------------------------------------- shell

_TOK = re.compile(r"""\s*(?:
 (?P<nl>\n)|
 (?P<op>&&|\|\||;;|&>>|&>|>>|>&|<&|\d>&\d|\d>>|\d>|[;|&(){}<>!](?=[\s;|&(){}<>]|$)|[;|&()<>])|
 (?P<word>(?:[^\s;|&()<>'"\\$`]|\\.|'[^']*'|"(?:[^"\\]|\\.)*"|\$\w+|\$\{\w+\}|\$\?)+)
)""", re.X | re.S)


def _tokens(s):
    s = re.sub(r"(?m)(^|\s)#.*$", "", s)
    out = []
    pos = 0
    while pos < len(s):
        if not s[pos:].strip(" \t\n"):
            break
        if s[pos] == "\n":
            out.append(("op", ";"))
            pos += 1
            continue
        m = _TOK.match(s, pos)
        if not m or m.end() == pos:
            raise SimUnsupported("shell syntax: " + s[pos:pos + 30])
        if m.group("nl"):
            out.append(("op", ";"))
        elif m.group("op"):
            out.append(("op", m.group("op")))
        else:
            w = m.group("word")
            if w in ("{", "}", "!"):
                out.append(("op", w))
            else:
                out.append(("w", w))
        pos = m.end()
    return out


class Shell:
    def __init__(self, ctx, script, args):
        self.ctx = ctx
        self.toks = _tokens(script)
        self.i = 0
        self.vars = dict(ctx.proc.env)
        self.args = args
        self.rc = 0
        self.opts = set()

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else (None, None)

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def parse_list(self, stop=()):
        items = []
        while True:
            while self.peek() == ("op", ";"):
                self.next()
            k, v = self.peek()
            if k is None or (k == "op" and v in stop) or (k == "w" and v in stop):
                return ("list", items)
            items.append(self.parse_andor())
            if self.peek() == ("op", "&"):
                raise SimUnsupported("background job")

    def parse_andor(self):
        left = self.parse_pipe()
        while self.peek() in (("op", "&&"), ("op", "||")):
            op = self.next()[1]
            while self.peek() == ("op", ";"):
                self.next()
            right = self.parse_pipe()
            left = (op, left, right)
        return left

    def parse_pipe(self):
        neg = False
        while self.peek() == ("op", "!"):
            self.next()
            neg = not neg
        parts = [self.parse_cmd()]
        while self.peek() == ("op", "|"):
            self.next()
            parts.append(self.parse_cmd())
        n = parts[0] if len(parts) == 1 else ("pipe", parts)
        return ("not", n) if neg else n

    def parse_cmd(self):
        k, v = self.peek()
        if (k, v) in (("op", "{"), ("op", "(")):
            self.next()
            body = self.parse_list(stop=("}" if v == "{" else ")",))
            if self.next()[1] != ("}" if v == "{" else ")"):
                raise SimUnsupported("shell group")
            return ("redir", body, self.redirs())
        if (k, v) == ("w", "if"):
            self.next()
            c = self.parse_list(stop=("then",))
            self.next()
            t = self.parse_list(stop=("else", "elif", "fi"))
            e = None
            k2, v2 = self.next()
            if v2 == "elif":
                raise SimUnsupported("elif")
            if v2 == "else":
                e = self.parse_list(stop=("fi",))
                self.next()
            return ("if", c, t, e)
        if (k, v) == ("w", "for"):
            self.next()
            var = self.next()[1]
            if self.next() != ("w", "in"):
                raise SimUnsupported("for")
            words = []
            while self.peek()[0] == "w":
                words.append(self.next()[1])
            while self.peek() == ("op", ";"):
                self.next()
            if self.next() != ("w", "do"):
                raise SimUnsupported("for")
            body = self.parse_list(stop=("done",))
            self.next()
            return ("for", var, words, body)
        words, red = [], []
        while True:
            k, v = self.peek()
            if k == "w":
                words.append(self.next()[1])
            elif k == "op" and (">" in v or "<" in v):
                red += self.redirs()
            else:
                break
        if not words:
            raise SimUnsupported("shell command")
        return ("cmd", words, red)

    def redirs(self):
        red = []
        while True:
            k, v = self.peek()
            if k == "op" and re.fullmatch(r"\d>&\d", v or ""):
                self.next()
                red.append((int(v[0]), "dup", int(v[-1])))
            elif k == "op" and v in (">", ">>", "&>", "&>>", "<") or k == "op" and re.fullmatch(r"\d>>?", v or ""):
                self.next()
                k2, t = self.next()
                if v == "<":
                    red.append((0, "in", t))
                elif v.startswith("&"):
                    red.append((1, ">>" if v.endswith(">>") else ">", t))
                    red.append((2, "dup", 1))
                else:
                    fd = int(v[0]) if v[0].isdigit() else 1
                    red.append((fd, ">>" if v.endswith(">>") else ">", t))
            elif k == "op" and v == ">&":
                self.next()
                _, t = self.next()
                if t in ("1", "2"):
                    red.append((1, "dup", int(t)))
                else:
                    red.append((1, ">", t))
                    red.append((2, "dup", 1))
            else:
                return red

    def expand(self, w):
        out = []
        i = 0
        while i < len(w):
            c = w[i]
            if c == "'":
                j = w.index("'", i + 1)
                out.append(w[i + 1:j])
                i = j + 1
            elif c == '"':
                j = i + 1
                buf = ""
                while w[j] != '"':
                    if w[j] == "\\" and w[j + 1] in '"\\$`':
                        buf += w[j + 1]
                        j += 2
                    elif w[j] == "$":
                        m = re.match(r"\$(\w+|\{\w+\}|\?)", w[j:])
                        if not m:
                            raise SimUnsupported("shell expansion")
                        buf += self.var(m.group(1).strip("{}"))
                        j += m.end()
                    elif w[j] == "`":
                        raise SimUnsupported("shell backticks")
                    else:
                        buf += w[j]
                        j += 1
                out.append(buf)
                i = j + 1
            elif c == "\\":
                out.append(w[i + 1])
                i += 2
            elif c == "$":
                m = re.match(r"\$(\w+|\{\w+\}|\?)", w[i:])
                if not m:
                    raise SimUnsupported("shell expansion")
                out.append(self.var(m.group(1).strip("{}")))
                i += m.end()
            else:
                out.append(c)
                i += 1
        return "".join(out)

    def var(self, n):
        if n == "?":
            return str(self.rc)
        if n.isdigit():
            i = int(n)
            return self.args[i] if i < len(self.args) else ""
        return self.vars.get(n, "")

    def open_redirs(self, red, sinks, stdin):
        h, p = self.ctx.host, self.ctx.proc
        sinks = dict(sinks)
        opened = []
        for fd, op, t in red:
            if op == "dup":
                sinks[fd] = sinks.get(t)
                continue
            path = self.expand(t)
            if op == "in":
                stdin = b"" if path == "/dev/null" else read_file(h, p, path)
            elif path == "/dev/null":
                sinks[fd] = None
            else:
                of = h.sys_open(p, path, _os.O_WRONLY | _os.O_CREAT | (_os.O_APPEND if op == ">>" else _os.O_TRUNC), 0o666)
                opened.append(of)
                sinks[fd] = of
        return sinks, stdin, opened

    def run(self, n, sinks, stdin):
        k = n[0]
        if k == "list":
            for x in n[1]:
                self.rc = self.run(x, sinks, stdin)
                if self.rc and "e" in self.opts:
                    raise CmdExit(self.rc)
            return self.rc
        if k in ("&&", "||"):
            self.rc = self.run(n[1], sinks, stdin)
            if (self.rc == 0) == (k == "&&"):
                self.rc = self.run(n[2], sinks, stdin)
            return self.rc
        if k == "not":
            self.rc = 0 if self.run(n[1], sinks, stdin) else 1
            return self.rc
        if k == "redir":
            s, i, op = self.open_redirs(n[2], sinks, stdin)
            return self.run(n[1], s, i)
        if k == "if":
            c = self.run(n[1], sinks, stdin)
            if c == 0:
                return self.run(n[2], sinks, stdin)
            return self.run(n[3], sinks, stdin) if n[3] is not None else 0
        if k == "for":
            rc = 0
            for w in n[2]:
                self.vars[n[1]] = self.expand(w)
                rc = self.run(n[3], sinks, stdin)
            return rc
        if k == "pipe":
            data = stdin
            for x in n[1][:-1]:
                buf = Buf()
                s = dict(sinks)
                s[1] = buf
                self.run(x, s, data)
                data = bytes(buf.b)
            return self.run(n[1][-1], sinks, data)
        words, red = n[1], n[2]
        s, i, opened = self.open_redirs(red, sinks, stdin)
        while words and re.match(r"\w+=", words[0]):
            a, _, b = words[0].partition("=")
            self.vars[a] = self.expand(b)
            words = words[1:]
        if not words:
            return 0
        argv = [self.expand(w) for w in words]
        h = self.ctx.host
        if argv[0] in ("type", "hash") or argv[0] == "command" and "-v" in argv:
            rc = 0
            for x in argv[1:]:
                if x.startswith("-"):
                    continue
                if exists(h, x):
                    Ctx(h, self.ctx.proc, argv, None, s).out("%s is /usr/bin/%s\n" % (x, x) if argv[0] == "type" else "/usr/bin/%s\n" % x if argv[0] == "command" else "")
                else:
                    rc = 1
            return rc
        if argv[0] == "command":
            argv = argv[1:]
        if argv[0] == "exec":
            argv = argv[1:]
            if not argv:
                return 0
        if argv[0] == "exit":
            raise CmdExit(int(argv[1]) & 255 if len(argv) > 1 else self.rc)
        if argv[0] == "set":
            self.opts |= set("".join(argv[1:]).replace("-", ""))
            return 0
        if argv[0] == "cd":
            try:
                h.sys_chdir(self.ctx.proc, argv[1])
                return 0
            except OSError:
                return 1
        if argv[0] == "umask" and len(argv) == 2:
            h.sys_umask(self.ctx.proc, int(argv[1], 8))
            return 0
        if argv[0] in ("export", "unset", "local", "shopt", "trap"):
            return 0
        return run_sub(self.ctx, argv, s, i)


class Buf:
    def __init__(self):
        self.b = bytearray()

    def write(self, d):
        self.b += bytes(d)


@program("sh", "bash", "dash")
def c_sh(ctx):
    a = ctx.argv[1:]
    opts = set()
    script = None
    args = []
    while a:
        x = a.pop(0)
        if x == "--":
            continue
        if x.startswith("-"):
            opts |= set(x[1:])
            if "c" in x:
                if not a:
                    return 2
                script = a.pop(0)
                args = a
                break
        else:
            raise SimUnsupported("shell script file")
    if script is None:
        script = ctx.stdin().decode()
    sh = Shell(ctx, script, args)
    sh.opts |= opts & {"e"}
    tree = sh.parse_list()
    if sh.i < len(sh.toks):
        raise SimUnsupported("shell trailing tokens")
    return sh.run(tree, ctx.sinks, ctx.stdin_src)


# ---------------------------------------------------------------- accounts

def acct(ctx, what, fn):
    """One atomic account database update."""
    h, p = ctx.host, ctx.proc
    mod = h.enter(p, "acct", what)
    if p.euid != 0:
        ctx.err("%s: Permission denied.\n" % ctx.argv[0])
        raise CmdExit(1)
    fn(h.st)
    h.mutate(p, "acct", what)
    h.leave(p, mod)


def free_id(used, system):
    r = range(999, 100, -1) if system else range(1000, 60000)
    return next(i for i in r if i not in used)


USEROPTS = dict(flags="mMNUrolLa", valued="cdegGpsuk", lflags=("system", "user-group", "no-user-group", "no-create-home", "create-home", "non-unique", "append", "lock", "unlock", "move-home"),
                lvalued=("uid", "gid", "groups", "comment", "home-dir", "home", "shell", "password", "expiredate", "inactive", "login", "skel"))


def opt(o, *names):
    for n in names:
        if n in o:
            return o[n]
    return None


def group_list(ctx, s):
    """Resolves a --groups argument to names; None if one is unknown."""
    out = []
    for g in [x for x in s.split(",") if x]:
        n = g if g in ctx.host.st.groups else next((k for k, v in ctx.host.st.groups.items() if g.isdigit() and v["gid"] == int(g)), None)
        if n is None:
            ctx.err("%s: group '%s' does not exist\n" % (ctx.argv[0], g))
            return None
        if n not in out:
            out.append(n)
    return out


@tool("useradd", usage_rc=2, minargs=1, **USEROPTS)
def c_useradd(ctx, o, r):
    h = ctx.host
    st = h.st
    name = r[0]
    h.enter(ctx.proc, "acctlock")
    if ctx.proc.euid != 0:
        ctx.err("useradd: Permission denied.\n")
        return 1
    if not re.fullmatch(r"[a-z_][a-z0-9_-]*\$?", name):
        ctx.err("useradd: invalid user name '%s'\n" % name)
        return 3
    if name in st.users:
        ctx.err("useradd: user '%s' already exists\n" % name)
        return 9
    system = bool(opt(o, "r", "system"))
    uid = opt(o, "u", "uid")
    used = {u["uid"] for u in st.users.values()}
    if uid is not None:
        if not re.fullmatch(r"\d+", uid):
            return 3
        uid = int(uid)
        if uid in used and not opt(o, "o", "non-unique"):
            ctx.err("useradd: UID %d is not unique\n" % uid)
            return 4
    else:
        uid = free_id(used, system)
    gid = opt(o, "g", "gid")
    newgroup = None
    if gid is not None:
        g = resolve_group(h, gid)
        if g is None or (gid not in st.groups and g not in {x["gid"] for x in st.groups.values()}):
            ctx.err("useradd: group '%s' does not exist\n" % gid)
            return 6
        gid = g
    elif opt(o, "U", "user-group") or (st.usergroups_enab and not opt(o, "N", "no-user-group")):
        if name in st.groups:
            ctx.err("useradd: group %s exists - if you want to add this user to that group, use -g.\n" % name)
            return 9
        gu = {g["gid"] for g in st.groups.values()}
        newgroup = uid if uid not in gu else free_id(gu, system)
        gid = newgroup
    else:
        gid = 100
    gl = []
    if opt(o, "G", "groups") is not None:
        gl = group_list(ctx, opt(o, "G", "groups"))
        if gl is None:
            return 6

    def add(s):
        if newgroup is not None:
            s.groups[name] = {"gid": newgroup, "members": []}
        s.users[name] = {"uid": uid, "gid": gid, "gecos": opt(o, "c", "comment") or "", "home": opt(o, "d", "home-dir", "home") or "/home/" + name,
                         "shell": opt(o, "s", "shell") or "/bin/sh", "pw": opt(o, "p", "password") or "!"}
    acct(ctx, "useradd " + name, add)
    if gl:
        def mem(s):
            for g in gl:
                if name not in s.groups[g]["members"]:
                    s.groups[g]["members"].append(name)
        acct(ctx, "members " + name, mem)
    if opt(o, "m", "create-home"):
        hd = st.users[name]["home"]
        h.sys_mkdir(ctx.proc, hd, 0o700)
        h.sys_chown(ctx.proc, hd, uid, gid)
    return 0


@tool("usermod", usage_rc=2, minargs=1, **USEROPTS)
def c_usermod(ctx, o, r):
    h = ctx.host
    st = h.st
    name = r[0]
    h.enter(ctx.proc, "acctlock")
    if ctx.proc.euid != 0:
        ctx.err("usermod: Permission denied.\n")
        return 1
    if name not in st.users:
        ctx.err("usermod: user '%s' does not exist\n" % name)
        return 6
    ch = {}
    uid = opt(o, "u", "uid")
    if uid is not None:
        if not uid.isdigit():
            return 3
        if any(u["uid"] == int(uid) and n != name for n, u in st.users.items()) and not opt(o, "o", "non-unique"):
            ctx.err("usermod: UID '%s' already exists\n" % uid)
            return 4
        ch["uid"] = int(uid)
    gid = opt(o, "g", "gid")
    if gid is not None:
        g = resolve_group(h, gid)
        if g is None or g not in {x["gid"] for x in st.groups.values()}:
            ctx.err("usermod: group '%s' does not exist\n" % gid)
            return 6
        ch["gid"] = g
    for k, names in (("gecos", ("c", "comment")), ("home", ("d", "home", "home-dir")), ("shell", ("s", "shell")), ("pw", ("p", "password"))):
        v = opt(o, *names)
        if v is not None:
            if ":" in v or "\n" in v:
                ctx.err("usermod: invalid field '%s'\n" % v)
                return 3
            ch[k] = v
    gl = None
    if opt(o, "G", "groups") is not None:
        gl = group_list(ctx, opt(o, "G", "groups"))
        if gl is None:
            return 6
    if opt(o, "l", "login"):
        raise SimUnsupported("usermod --login")
    if opt(o, "m", "move-home") and "home" not in ch:
        return 2
    was = st.users[name]["home"]
    if ch:
        acct(ctx, "usermod " + name, lambda s: s.users[name].update(ch))
    if opt(o, "m", "move-home") and ch["home"] != was:
        n, to = st.get(was), st.get(ch["home"])
        if n is not None and n.type == "dir" and to is None:
            try:
                h.sys_rename(ctx.proc, was, ch["home"])
            except OSError:
                ctx.err("usermod: cannot rename directory %s to %s\n" % (was, ch["home"]))
                return 12
    if gl is not None:
        app = opt(o, "a", "append")

        def mem(s):
            for g, v in s.groups.items():
                if g in gl and name not in v["members"]:
                    v["members"].append(name)
                elif g not in gl and not app and name in v["members"]:
                    v["members"].remove(name)
        acct(ctx, "members " + name, mem)
    return 0


@tool("userdel", usage_rc=2, minargs=1, flags="fr", lflags=("force", "remove"))
def c_userdel(ctx, o, r):
    h = ctx.host
    st = h.st
    name = r[0]
    h.enter(ctx.proc, "acctlock")
    if ctx.proc.euid != 0:
        ctx.err("userdel: Permission denied.\n")
        return 1
    if name not in st.users:
        ctx.err("userdel: user '%s' does not exist\n" % name)
        return 6

    def rm(s):
        u = s.users.pop(name)
        for g in s.groups.values():
            if name in g["members"]:
                g["members"].remove(name)
        g = s.groups.get(name)
        if s.usergroups_enab and g is not None and not g["members"] and not any(x["gid"] == g["gid"] for x in s.users.values()):
            del s.groups[name]
    home = st.users[name]["home"]
    acct(ctx, "userdel " + name, rm)
    if opt(o, "r", "remove"):
        c_rm(Ctx(h, ctx.proc, ["rm"], None, ctx.sinks), {"r": True, "f": True}, [home])
    return 0


@tool("groupadd", usage_rc=2, minargs=1, flags="for", valued="gKp", lflags=("force", "non-unique", "system"), lvalued=("gid", "key", "password"))
def c_groupadd(ctx, o, r):
    h = ctx.host
    st = h.st
    name = r[0]
    h.enter(ctx.proc, "acctlock")
    if ctx.proc.euid != 0:
        return 1
    if not re.fullmatch(r"[a-z_][a-z0-9_-]*\$?", name):
        return 3
    if name in st.groups:
        if opt(o, "f", "force"):
            return 0
        ctx.err("groupadd: group '%s' already exists\n" % name)
        return 9
    used = {g["gid"] for g in st.groups.values()}
    gid = opt(o, "g", "gid")
    if gid is not None:
        if not gid.isdigit():
            return 3
        gid = int(gid)
        if gid in used and not opt(o, "o", "non-unique"):
            ctx.err("groupadd: GID '%s' already exists\n" % gid)
            return 4
    else:
        gid = free_id(used, bool(opt(o, "r", "system")))
    acct(ctx, "groupadd " + name, lambda s: s.groups.__setitem__(name, {"gid": gid, "members": []}))
    return 0


@tool("groupmod", usage_rc=2, minargs=1, flags="o", valued="gnp", lflags=("non-unique",), lvalued=("gid", "new-name", "password"))
def c_groupmod(ctx, o, r):
    h = ctx.host
    st = h.st
    name = r[0]
    h.enter(ctx.proc, "acctlock")
    if ctx.proc.euid != 0:
        return 1
    if name not in st.groups:
        ctx.err("groupmod: group '%s' does not exist\n" % name)
        return 6
    if opt(o, "n", "new-name"):
        raise SimUnsupported("groupmod --new-name")
    gid = opt(o, "g", "gid")
    if gid is not None:
        if not gid.isdigit():
            return 3
        gid = int(gid)
        if any(g["gid"] == gid and n != name for n, g in st.groups.items()) and not opt(o, "o", "non-unique"):
            ctx.err("groupmod: GID '%s' already exists\n" % gid)
            return 4
        old = st.groups[name]["gid"]

        def mod(s):
            s.groups[name]["gid"] = gid
            for u in s.users.values():
                if u["gid"] == old:
                    u["gid"] = gid
        acct(ctx, "groupmod " + name, mod)
    return 0


@tool("groupdel", usage_rc=2, minargs=1, flags="f", lflags=("force",))
def c_groupdel(ctx, o, r):
    h = ctx.host
    st = h.st
    name = r[0]
    h.enter(ctx.proc, "acctlock")
    if ctx.proc.euid != 0:
        return 1
    if name not in st.groups:
        ctx.err("groupdel: group '%s' does not exist\n" % name)
        return 6
    if any(u["gid"] == st.groups[name]["gid"] for u in st.users.values()) and not opt(o, "f", "force"):
        ctx.err("groupdel: cannot remove the primary group of user\n")
        return 8
    acct(ctx, "groupdel " + name, lambda s: s.groups.pop(name))
    return 0


@program("getent")
def c_getent(ctx):
    st = ctx.host.st
    db, *keys = ctx.argv[1:]
    if db == "passwd":
        for k in keys or list(st.users):
            n = k if k in st.users else next((x for x, u in st.users.items() if str(u["uid"]) == k), None)
            if n is None:
                return 2
            u = st.users[n]
            ctx.out("%s:x:%d:%d:%s:%s:%s\n" % (n, u["uid"], u["gid"], u["gecos"], u["home"], u["shell"]))
        return 0
    if db == "group":
        for k in keys or list(st.groups):
            n = k if k in st.groups else next((x for x, g in st.groups.items() if str(g["gid"]) == k), None)
            if n is None:
                return 2
            ctx.out("%s:x:%d:%s\n" % (n, st.groups[n]["gid"], ",".join(st.groups[n]["members"])))
        return 0
    raise SimUnsupported("getent " + db)


# ---------------------------------------------------------------- packages

def pkg(ctx, what, name, fn):
    h, p = ctx.host, ctx.proc
    mod = h.enter(p, "pkg", name)
    if p.euid != 0:
        ctx.err("error: you cannot perform this operation unless you are root.\n")
        raise CmdExit(1)
    fn(h.st)
    h.mutate(p, "pkg", what + " " + name)
    h.leave(p, mod)


@program("pacman")
def c_pacman(ctx):
    a = ctx.argv[1:]
    rest, ops, noconfirm, i = [], set(), False, 0
    needed = printonly = False
    while i < len(a):
        x = a[i]
        i += 1
        if x == "--":
            rest += a[i:]
            break
        if x == "--color":
            i += 1
        elif x == "--noconfirm":
            noconfirm = True
        elif x == "--needed":
            needed = True
        elif x in ("--print", "--downloadonly"):
            printonly = True
        elif x.startswith("--"):
            long = {"--query": "Q", "--sync": "S", "--remove": "R", "--list": "l", "--info": "i"}
            if x.split("=")[0] in long:
                ops |= set(long[x])
        elif x.startswith("-"):
            ops |= set(x[1:])
        else:
            rest.append(x)
    h = ctx.host
    h.enter(ctx.proc, "pkgdb")
    if "Q" in ops:
        rc = 0
        for n in rest or sorted(h.st.packages):
            if n in h.st.packages:
                ctx.out("%s /usr/bin/%s\n" % (n, n))
            else:
                ctx.err("error: package '%s' was not found\n" % n)
                rc = 1
        return rc
    if not ops & {"S", "R"}:
        return 1
    if "p" in ops or "w" in ops or printonly:
        return 0
    if not noconfirm:
        ctx.err("error: proceed? EOF\n")
        return 1
    if ctx.proc.euid != 0:
        ctx.err("error: you cannot perform this operation unless you are root.\n")
        return 1
    for n in rest:
        if "S" in ops and n not in h.st.pkg_available:
            ctx.err("error: target not found: %s\n" % n)
            return 1
        if "R" in ops and n not in h.st.packages:
            ctx.err("error: target not found: %s\n" % n)
            return 1
    for n in rest:
        if "S" in ops:
            if needed and n in h.st.packages:
                continue
            pkg(ctx, "install", n, lambda s: s.packages.add(n))
        else:
            pkg(ctx, "remove", n, lambda s: s.packages.discard(n))
    return 0


@program("apt-get", "apt")
def c_apt(ctx):
    a = ctx.argv[1:]
    yes = sim = False
    cmd = None
    rest = []
    i = 0
    while i < len(a):
        x = a[i]
        i += 1
        if x == "--":
            rest += a[i:]
            break
        if x in ("--dry-run", "--simulate", "--no-act", "--just-print", "--recon", "--print-uris", "--download-only") or (x.startswith("-") and not x.startswith("--") and set(x) & set("sd")):
            sim = True
        if x in ("--no-remove", "--no-upgrade", "--only-upgrade", "--assume-no"):
            raise SimUnsupported("apt-get " + x)
        if x in ("-y", "--yes", "--assume-yes") or (x.startswith("-") and not x.startswith("--") and "y" in x):
            yes = True
        elif x in ("-o", "-t", "-c"):
            i += 1
        elif x.startswith("-"):
            pass
        elif cmd is None:
            cmd = x
        else:
            rest.append(x)
    h = ctx.host
    h.enter(ctx.proc, "pkgdb")
    if cmd == "update":
        return 0
    if cmd not in ("install", "remove", "purge"):
        return 100
    if ctx.proc.euid != 0:
        ctx.err("E: are you root?\n")
        return 100
    for n in rest:
        if n not in h.st.pkg_available and n not in h.st.packages:
            ctx.err("E: Unable to locate package %s\n" % n)
            return 100
    todo = [n for n in rest if (n in h.st.packages) != (cmd == "install")]
    if sim:
        return 0
    if todo and not yes:
        ctx.out("Do you want to continue? [Y/n] Abort.\n")
        return 1
    for n in todo:
        if cmd == "install":
            pkg(ctx, "install", n, lambda s: s.packages.add(n))
        else:
            pkg(ctx, "remove", n, lambda s: s.packages.discard(n))
    return 0


@program("dpkg-query")
def c_dpkg(ctx):
    rest = [x for x in ctx.argv[1:] if not x.startswith("-")]
    fmt = next((x.split("=", 1)[1] for x in ctx.argv if x.startswith("--showformat=") or x.startswith("-f=")), "${Package}\t${Version}\n")
    h = ctx.host
    h.enter(ctx.proc, "pkgdb")
    rc = 0
    for n in rest:
        if n in h.st.packages:
            s = "install ok installed"
        elif h.st.env.get("SIM_CONFIG_FILES") == n:
            s = "deinstall ok config-files"
        else:
            ctx.err("dpkg-query: no packages found matching %s\n" % n)
            rc = 1
            continue
        ctx.out(fmt.replace("${Status}", s).replace("${Package}", n).replace("${Version}", "1.0").replace("\\n", "\n").replace("${db:Status-Status}", s.split()[-1]).replace("${db:Status-Abbrev}", "ii "))
    return rc


@program("emerge")
def c_emerge(ctx):
    a = ctx.argv[1:]
    rest = a[a.index("--") + 1:] if "--" in a else [x for x in a if not x.startswith("-")]
    fl = set(a[:a.index("--")] if "--" in a else [x for x in a if x.startswith("-")])
    h = ctx.host
    h.enter(ctx.proc, "pkgdb")
    if "--info" in fl:
        ctx.out("Portage 3.0 (python 3.12)\n")
        rc = 0
        for n in rest:
            if n not in h.st.pkg_available and n not in h.st.packages:
                ctx.err("emerge: there are no ebuilds to satisfy \"%s\".\n" % n)
                rc = 1
                continue
            ctx.out("%s-1.0::gentoo %s\n" % (n, "was built with the following:\nUSE=\"\"" if n in h.st.packages else "would be built with the following:\nUSE=\"\""))
        return rc
    if ctx.proc.euid != 0:
        ctx.err("emerge: superuser access is required\n")
        return 1
    if fl & {"--ask", "-a"}:
        return 130
    for n in rest:
        if n not in h.st.pkg_available and n not in h.st.packages:
            ctx.err("emerge: there are no ebuilds to satisfy \"%s\".\n" % n)
            return 1
    for n in rest:
        if fl & {"--depclean", "-c", "--unmerge", "-C"}:
            if n in h.st.packages:
                pkg(ctx, "remove", n, lambda s: (s.packages.discard(n), s.world.discard(n)))
        elif not fl & {"--pretend", "-p"}:
            pkg(ctx, "install", n, lambda s: s.packages.add(n))
            if not fl & {"--oneshot", "-1"}:
                h.st.world.add(n)
    return 0


# ---------------------------------------------------------------- services

def svc(ctx, what, fn):
    h, p = ctx.host, ctx.proc
    mod = h.enter(p, "svc", what)
    if p.euid != 0 and "--user" not in ctx.argv:
        ctx.err("Access denied\n")
        raise CmdExit(4)
    fn(h.st)
    h.mutate(p, "svc", what)
    h.leave(p, mod)


@program("systemctl")
def c_systemctl(ctx):
    a = ctx.argv[1:]
    props, value, user, rest, i, now = [], False, False, [], 0, False
    while i < len(a):
        x = a[i]
        i += 1
        if x == "--":
            rest += a[i:]
            break
        if x in ("--property", "-p", "-P"):
            props += a[i].split(",")
            i += 1
            if x == "-P":
                value = True
        elif x.startswith("--property="):
            props += x.split("=", 1)[1].split(",")
        elif x == "--value":
            value = True
        elif x == "--user":
            user = True
        elif x == "--system":
            user = False
        elif x == "--now":
            now = True
        elif x.startswith("-"):
            pass
        else:
            rest.append(x)
    if not rest:
        return 0
    verb, units = rest[0], rest[1:]
    h = ctx.host
    db = h.st.user_services if user else h.st.services
    h.enter(ctx.proc, "svcdb")
    if verb == "daemon-reload":
        svc(ctx, "daemon-reload", lambda s: setattr(s, "daemon_reloads", s.daemon_reloads + 1))
        return 0
    if verb == "show":
        for u in units:
            s = _unit(db, u)
            vals = {"ActiveState": s["active"] if s else "inactive", "UnitFileState": s["enabled"] if s else "", "LoadState": "loaded" if s else "not-found",
                    "SubState": "running" if s and s["active"] == "active" else "dead"}
            for p in props or list(vals):
                v = vals.get(p, "")
                ctx.out((v if value else "%s=%s" % (p, v)) + "\n")
        return 0
    if verb in ("is-active", "is-enabled"):
        ok = True
        for u in units:
            s = _unit(db, u)
            v = (s["active"] if verb == "is-active" else s["enabled"]) if s else ("inactive" if verb == "is-active" else "not-found")
            ctx.out(v + "\n")
            ok = ok and v in ("active", "enabled")
        return 0 if ok else (3 if verb == "is-active" else 1)
    if verb not in ("start", "stop", "restart", "reload", "enable", "disable", "try-restart", "reload-or-restart", "mask", "unmask"):
        ctx.err("Unknown operation '%s'.\n" % verb)
        return 1
    for u in units:
        s = _unit(db, u)
        if s is None:
            ctx.err("Failed to %s %s: Unit %s not found.\n" % (verb, u, u))
            return 5 if verb in ("start", "stop", "restart", "reload") else 1
        if s["enabled"] == "masked" and verb in ("start", "restart", "enable"):
            ctx.err("Unit is masked\n")
            return 1
        if verb == "reload" and s["active"] != "active":
            ctx.err("Unit cannot be reloaded because it is inactive.\n")
            return 1

        def do(state, verb=verb, u=u):
            s = _unit(state.user_services if user else state.services, u)
            if verb in ("start", "restart", "reload-or-restart"):
                s["active"] = "active"
            elif verb == "stop":
                s["active"] = "inactive"
            elif verb == "enable":
                s["enabled"] = "enabled" if s["enabled"] != "static" else "static"
            elif verb == "disable":
                s["enabled"] = "disabled" if s["enabled"] != "static" else "static"
            s[verb + "s"] = s.get(verb + "s", 0) + 1
        if s.get("broken") and verb in ("start", "restart"):
            ctx.err("Job for %s failed.\n" % u)
            return 1
        svc(ctx, verb + " " + u + (" user" if user else ""), do)
        if now and verb in ("enable", "disable"):
            svc(ctx, ("start " if verb == "enable" else "stop ") + u, lambda st: do(st, "start" if verb == "enable" else "stop"))
    return 0


def _unit(db, u):
    return db.get(u) or db.get(u[:-8] if u.endswith(".service") else u + ".service")


# ---------------------------------------------------------------- git
#
# A clone is .git/HEAD (commit), .git/config (origin url, checked out branch, empty when detached), .git/shallow (depth), .git/modules (submodule options), the
# tracked file README, whose content is the commit, and the tracked file data.conf, the same in every commit.

GIT_DATA = "static\n"


@program("git")
def c_git(ctx):
    h, p = ctx.host, ctx.proc
    a = ctx.argv[1:]
    cdir = None
    while a and a[0].startswith("-"):
        if a[0] == "-C" and len(a) > 1:
            cdir = a[1] if a[1].startswith("/") else (cdir or p.cwd) + "/" + a[1]
            a = a[2:]
        elif a[0] == "-c":
            a = a[2:]
        elif a[0] in ("--no-pager", "--no-optional-locks"):
            a = a[1:]
        else:
            raise SimUnsupported("git " + a[0])
    if not a:
        return 1
    verb, a = a[0], a[1:]
    base = cdir or p.cwd

    def args(flags=(), valued=()):
        opts, rest, i = {}, [], 0
        while i < len(a):
            x = a[i]
            i += 1
            name, eq, val = x.partition("=")
            if x == "--":
                rest += a[i:]
                break
            if not x.startswith("-") or x == "-":
                rest.append(x)
            elif name in valued or (len(x) > 2 and x[:2] in valued and x[1] != "-"):
                if name not in valued:
                    opts[x[:2]] = x[2:]
                elif x in flags:
                    opts[x] = True
                elif eq:
                    opts[name] = val
                elif i < len(a):
                    opts[name] = a[i]
                    i += 1
                else:
                    ctx.err("error: option `%s' requires a value\n" % x)
                    raise CmdExit(129)
            elif x in flags:
                opts[x] = True
            else:
                raise SimUnsupported("git %s %s" % (verb, x))
        return opts, rest

    def remote(url):
        h.enter(p, "gitnet", url)
        r = h.st.git_remotes.get(url)
        if r is None:
            ctx.err("fatal: repository '%s' not found\n" % url)
            raise CmdExit(128)
        return r

    def read(name):
        try:
            return read_file(h, p, base + "/" + name).decode("utf-8", "replace")
        except OSError as e:
            if e.errno not in (E.ENOENT, E.ENOTDIR):
                ctx.fail("fatal: unable to access '%s'" % name, e)
                raise CmdExit(128)
            return None

    def config():
        if read(".git/HEAD") is None or read(".git/config") is None:
            ctx.err("fatal: not a git repository (or any of the parent directories): .git\n")
            raise CmdExit(128)
        return dict(l.split("=", 1) for l in read(".git/config").splitlines() if "=" in l)

    def known(r):
        return set(r["refs"].values()) | {t[0] for t in r.get("tags", {}).values()} | set(r.get("old", ()))

    def dirty(d):
        r = h.st.git_remotes.get(d.get("remote.origin.url"))
        out = []
        n = read("README")
        if n != read(".git/HEAD") and (r is None or n not in known(r)):
            out.append("README")
        if read("data.conf") not in (None, GIT_DATA) or (read("data.conf") is None and read("README") is None):
            out.append("data.conf")
        return out

    def checkout(commit, shallow=None):
        if read("README") != commit:
            _gitwrite(h, p, base + "/README", commit)
        if read("data.conf") is None:
            _gitwrite(h, p, base + "/data.conf", GIT_DATA)
        if shallow is not None:
            _gitwrite(h, p, base + "/.git/shallow", str(shallow))
        _gitwrite(h, p, base + "/.git/HEAD", commit)

    def resolve(d, name):
        r = h.st.git_remotes.get(d.get("remote.origin.url"), {"refs": {}})
        if name in ("HEAD", "HEAD^{commit}", "@", "HEAD^0"):
            return read(".git/HEAD").strip()
        if name == "FETCH_HEAD":
            t = read(".git/FETCH_HEAD")
            return t.strip() if t else None
        if name.startswith("refs/remotes/"):
            name = name[13:]
        if name.startswith("refs/heads/"):
            name = name[11:]
        if name.startswith("origin/"):
            t = read(".git/refs_" + name[7:].replace("/", "_"))
            return t.strip() if t else None
        if name in known(r):
            return name
        if name == d.get("branch"):
            return read(".git/HEAD").strip()
        t = r.get("tags", {}).get(name.removesuffix("^{}").removesuffix("^{commit}"))
        return t and t[0]

    def advance(new, d, rebase, ff_only, autostash=False, what="pull"):
        """Moves the checked out branch to a fetched commit; the exit code."""
        head = read(".git/HEAD").strip()
        r = h.st.git_remotes[d["remote.origin.url"]]
        mods = dirty(d)
        if rebase and mods and not autostash:
            ctx.err("error: cannot pull with rebase: You have unstaged changes.\nerror: Please commit or stash them.\n")
            return 128
        if head == new:
            ctx.out("Already up to date.\n")
            return 0
        if head not in known(r):
            if ff_only:
                ctx.err("fatal: Not possible to fast-forward, aborting.\n")
                return 128
            if rebase is None:
                ctx.err("fatal: Need to specify how to reconcile divergent branches.\n")
                return 128
            new = "%040x" % (int(head[:8], 16) * 7 + int(new[:8], 16))
        if "README" in mods:
            ctx.err("error: Your local changes to the following files would be overwritten by merge:\n\tREADME\n")
            return 1
        checkout(new)
        ctx.out("Fast-forward\n")
        return 0

    if verb == "ls-remote":
        o, r = args(("--exit-code", "--heads", "--tags", "-h", "-t", "--refs", "-q", "--quiet", "--symref", "--branches"))
        if not r:
            raise SimUnsupported("git ls-remote without a repository")
        rm = remote(r[0])
        refs = [("HEAD", rm["refs"][rm["default"]])] + [("refs/heads/" + k, v) for k, v in rm["refs"].items()]
        for k, (commit, obj) in rm.get("tags", {}).items():
            refs.append(("refs/tags/" + k, obj or commit))
            if obj and "--refs" not in o:
                refs.append(("refs/tags/" + k + "^{}", commit))
        if set(o) & {"--heads", "-h", "--branches"} or set(o) & {"--tags", "-t"}:
            refs = [x for x in refs if (x[0].startswith("refs/heads/") and set(o) & {"--heads", "-h", "--branches"}) or (x[0].startswith("refs/tags/") and set(o) & {"--tags", "-t"})]
        found = [x for x in sorted(refs) if len(r) < 2 or any(fnmatch.fnmatchcase("/" + x[0], "*/" + pat) for pat in r[1:])]
        if "--symref" in o and any(x[0] == "HEAD" for x in found):
            ctx.out("ref: refs/heads/%s\tHEAD\n" % rm["default"])
        for name, commit in found:
            ctx.out("%s\t%s\n" % (commit, name))
        return 0 if found or "--exit-code" not in o else 2

    if verb == "clone":
        o, rest = args(("--no-checkout", "-n", "--bare", "--mirror", "-q", "--quiet", "-v", "--verbose", "--progress", "--single-branch", "--no-single-branch", "--recursive",
                        "--recurse-submodules", "--no-tags", "--shallow-submodules", "--no-local", "--local"), ("--branch", "-b", "--depth", "--origin", "-o", "--config", "-c"))
        if len(rest) != 2:
            raise SimUnsupported("git clone with %d operands" % len(rest))
        url, path = rest
        if not path.startswith("/"):
            path = base.rstrip("/") + "/" + path
        branch = o.get("--branch", o.get("-b"))
        depth = o.get("--depth")
        if depth is not None and not (depth.isdigit() and int(depth) > 0):
            ctx.err("fatal: depth %s is not a positive number\n" % depth)
            return 128
        made = False
        try:
            if h.sys_listdir(p, path):
                ctx.err("fatal: destination path '%s' already exists and is not an empty directory.\n" % path)
                return 128
        except OSError as e:
            if e.errno != E.ENOENT:
                ctx.fail("fatal: could not create work tree dir", e)
                return 128
            made = True
        r = remote(url)
        tag = r.get("tags", {}).get(branch)
        ref = branch or r["default"]
        if ref not in r["refs"] and tag is None:
            ctx.err("warning: Could not find remote branch %s to clone.\nfatal: Remote branch %s not found in upstream origin\n" % (ref, ref))
            return 128
        commit = r["refs"].get(ref) or tag[0]
        bare = set(o) & {"--bare", "--mirror"}
        g = path if bare else path + "/.git"
        try:
            if made:
                # git creates the leading directories too
                todo, x = [], path.rstrip("/")
                while x:
                    todo.append(x)
                    x = x.rpartition("/")[0]
                    try:
                        h.sys_stat(p, x or "/", True)
                        break
                    except OSError as e:
                        if e.errno != E.ENOENT:
                            raise
                for x in reversed(todo):
                    h.sys_mkdir(p, x, 0o777)
            if not bare:
                h.sys_mkdir(p, g, 0o777)
            _gitwrite(h, p, g + "/config", "remote.origin.url=%s\nbranch=%s\n" % (url, ref if ref in r["refs"] else ""))
            if depth is not None:
                _gitwrite(h, p, g + "/shallow", depth)
            if set(o) & {"--recursive", "--recurse-submodules"}:
                _gitwrite(h, p, g + "/modules", "init recursive" + (" depth=1" if "--shallow-submodules" in o else ""))
            _gitwrite(h, p, g + "/HEAD", commit)
            if not bare and not set(o) & {"--no-checkout", "-n"}:
                _gitwrite(h, p, path + "/data.conf", GIT_DATA)
                _gitwrite(h, p, path + "/README", commit)
        except (OSError, CmdExit) as e:
            # git cleans up a failed clone
            c_rm(Ctx(h, p, ["rm"], None, {}), {"r": True, "f": True}, [path])
            return 128 if isinstance(e, OSError) else e.rc
        return 0

    if verb == "rev-parse":
        o, r = args(("--verify", "-q", "--quiet", "--is-inside-work-tree", "--git-dir", "--show-toplevel", "--abbrev-ref", "--end-of-options", "--short"))
        d = config()
        if "--is-inside-work-tree" in o:
            ctx.out("true\n")
        if "--git-dir" in o:
            ctx.out(".git\n")
        if "--show-toplevel" in o:
            ctx.out(base + "\n")
        for x in r:
            if "--abbrev-ref" in o and x == "HEAD":
                ctx.out((d.get("branch") or "HEAD") + "\n")
                continue
            c = resolve(d, x)
            if c is None:
                if "-q" not in o and "--quiet" not in o:
                    ctx.err("fatal: ambiguous argument '%s': unknown revision or path not in the working tree.\n" % x)
                return 128
            ctx.out((c[:7] if "--short" in o else c) + "\n")
        return 0
    if verb in ("config", "remote"):
        if verb == "remote":
            if a[:1] != ["get-url"]:
                raise SimUnsupported("git remote " + " ".join(a))
            k = "remote.%s.url" % a[-1]
        else:
            o, r = args(("--get", "--local", "--null", "-z", "get"))
            r = r[1:] if r[:1] == ["get"] else r
            if len(r) != 1:
                raise SimUnsupported("git config " + " ".join(a))
            k = r[0]
        d = config()
        if k not in d:
            return 1 if verb == "config" else 2
        ctx.out(d[k] + "\n")
        return 0
    if verb in ("symbolic-ref", "branch"):
        d = config()
        if verb == "branch" and a != ["--show-current"]:
            raise SimUnsupported("git branch " + " ".join(a))
        if not d.get("branch"):
            return 128 if verb == "symbolic-ref" else 0
        ctx.out(("" if verb == "branch" or "--short" in a else "refs/heads/") + d["branch"] + "\n")
        return 0
    if verb == "log" or verb == "show":
        d = config()
        if not any("%H" in x for x in a):
            raise SimUnsupported("git " + verb)
        ctx.out(read(".git/HEAD").strip() + "\n")
        return 0
    if verb == "status":
        d = config()
        for n in dirty(d):
            ctx.out(" M %s\n" % n)
        return 0
    if verb in ("pull", "fetch"):
        o, r = args(("--rebase", "-r", "--no-rebase", "--ff-only", "--ff", "--no-ff", "--autostash", "--no-autostash", "-q", "--quiet", "-v", "--verbose", "--all", "--prune", "-p",
                     "--force", "-f", "--tags", "-t", "--no-tags", "--unshallow", "--update-shallow", "--no-commit", "--progress", "--no-recurse-submodules", "--recurse-submodules",
                     "--dry-run"), ("--depth", "--rebase", "--strategy", "-s", "-X"))
        d = config()
        if "remote.origin.url" not in d:
            return 1
        url = d["remote.origin.url"]
        if r and r[0] not in ("origin", url):
            url = r[0]
        rm = remote(url)
        depth = o.get("--depth")
        name = r[1] if len(r) > 1 else d.get("branch") or None
        if name is None and verb == "pull":
            ctx.err("You are not currently on a branch.\nPlease specify which branch you want to rebase against.\n")
            return 1
        tag = rm.get("tags", {}).get(name)
        c = rm["refs"].get((name or rm["default"]).removeprefix("refs/heads/")) or (rm["refs"][rm["default"]] if name == "HEAD" else tag and tag[0])
        if c is None:
            ctx.err("Your configuration specifies to merge with the ref '%s' from the remote, but no such ref was fetched.\n" % name)
            return 1 if verb == "pull" else 128
        if "--dry-run" in o:
            return 0
        rebase = True if set(o) & {"-r"} or o.get("--rebase") in (True, "true") else False if "--no-rebase" in o or "--no-ff" in o or o.get("--rebase") == "false" else None
        if verb == "pull" and rebase and dirty(d) and "--autostash" not in o:
            return advance(c, d, True, False)
        if read(".git/FETCH_HEAD") != c:
            _gitwrite(h, p, base + "/.git/FETCH_HEAD", c)
        if len(r) < 2:
            for k, v in rm["refs"].items():
                if read(".git/refs_" + k.replace("/", "_")) != v:
                    _gitwrite(h, p, base + "/.git/refs_" + k.replace("/", "_"), v)
        if depth is not None and read(".git/shallow") != depth:
            _gitwrite(h, p, base + "/.git/shallow", depth)
        if verb == "fetch":
            return 0
        return advance(c, d, rebase, "--ff-only" in o, "--autostash" in o)
    if verb in ("merge", "rebase"):
        o, r = args(("--ff-only", "--ff", "--no-ff", "--autostash", "-q", "--quiet", "--no-edit"))
        d = config()
        c = resolve(d, r[0] if r else "origin/" + d.get("branch", ""))
        if c is None:
            ctx.err("merge: %s - not something we can merge\n" % (r[0] if r else ""))
            return 1
        return advance(c, d, verb == "rebase", "--ff-only" in o, "--autostash" in o)
    if verb in ("reset", "checkout", "switch"):
        o, r = args(("--hard", "--soft", "--mixed", "--keep", "-q", "--quiet", "-f", "--force", "--detach", "-B", "-b", "-C", "--discard-changes", "--merge", "-m"))
        d = config()
        force = set(o) & {"--hard", "-f", "--force", "--discard-changes"}
        if verb == "checkout" and not force and not o and (r and r[0] in (".", "README", "data.conf")):
            _gitwrite(h, p, base + "/data.conf", GIT_DATA)
            _gitwrite(h, p, base + "/README", read(".git/HEAD").strip())
            return 0
        if verb == "reset" and not set(o) & {"--hard", "--keep", "--merge"}:
            raise SimUnsupported("git reset without --hard")
        target = r[-1] if r else "HEAD"
        c = resolve(d, target) if target != "@{u}" else resolve(d, "origin/" + d.get("branch", ""))
        rm = h.st.git_remotes.get(d.get("remote.origin.url"), {"refs": {}})
        branch = d.get("branch")
        if verb != "reset":
            names = [x for x in r if x in rm["refs"]]
            if names and c is None:
                t = read(".git/refs_" + names[0].replace("/", "_"))
                c = t.strip() if t else None
            if names:
                branch = names[0]
            elif target != branch:
                branch = ""
        if c is None:
            ctx.err("error: pathspec '%s' did not match any file(s) known to git\n" % target)
            return 128 if verb == "reset" else 1
        mods = dirty(d)
        if "README" in mods and not force and c != read(".git/HEAD").strip():
            ctx.err("error: Your local changes to the following files would be overwritten by checkout:\n\tREADME\n")
            return 1
        if force and read("data.conf") != GIT_DATA:
            _gitwrite(h, p, base + "/data.conf", GIT_DATA)
        if force and "README" in mods:
            _gitwrite(h, p, base + "/README", c)
        if branch != d.get("branch"):
            _gitwrite(h, p, base + "/.git/config", "remote.origin.url=%s\nbranch=%s\n" % (d.get("remote.origin.url", ""), branch))
        checkout(c)
        return 0
    if verb == "clean":
        if not any(x.startswith("-") and not x.startswith("--") and "f" in x or x == "--force" for x in a):
            ctx.err("fatal: clean.requireForce is true and not -f given: refusing to clean\n")
            return 128
        config()
        deep = any(x.startswith("-") and not x.startswith("--") and "d" in x for x in a)
        for n in sorted(h.sys_listdir(p, base)):
            if n in (".git", "README", "data.conf"):
                continue
            if S.S_ISDIR(h.sys_stat(p, base + "/" + n, False).st_mode):
                if deep:
                    c_rm(Ctx(h, p, ["rm"], None, {}), {"r": True, "f": True}, [base + "/" + n])
            else:
                h.sys_unlink(p, base + "/" + n)
        return 0
    if verb == "submodule":
        o, r = args(("--init", "--recursive", "--remote", "--force", "-f", "--quiet", "-q", "--recommend-shallow"), ("--depth", "--jobs", "-j"))
        d = config()
        if r[:1] not in (["update"], ["init"], ["sync"]):
            raise SimUnsupported("git submodule " + " ".join(a))
        old = read(".git/modules")
        if r[0] == "sync" or (r[0] == "update" and "--init" not in o and old is None):
            return 0
        new = " ".join([r[0] if r[0] == "init" else "update"] + (["recursive"] if "--recursive" in o else []) + (["depth=" + o["--depth"]] if "--depth" in o else []))
        if old != new and not (r[0] == "init" and old is not None):
            remote(d.get("remote.origin.url", ""))
            _gitwrite(h, p, base + "/.git/modules", new)
        return 0
    raise SimUnsupported("git " + verb)


def _gitwrite(h, p, path, text):
    """git writes a lock file and renames it into place."""
    tmp = path + ".lock"
    of = h.sys_open(p, tmp, _os.O_WRONLY | _os.O_CREAT | _os.O_TRUNC, 0o666)
    try:
        write_all(h, p, of, text.encode())
        h.sys_close(p, of)
        h.sys_rename(p, tmp, path)
    except OSError:
        try:
            h.sys_unlink(p, tmp)
        except OSError:
            pass
        raise


# ---------------------------------------------------------------- probes used by workloads

@program("sim-probe")
def c_probe(ctx):
    """Reads nothing, prints nothing: its execution record is the observation."""
    return 0


@program("sim-cat")
def c_simcat(ctx):
    ctx.out(ctx.stdin())
    return 0


@program("sim-out")
def c_simout(ctx):
    """sim-out RC HEXOUT HEXERR: exact output bytes and status; does not touch stdin."""
    rc, o, e = ctx.argv[1:4]
    ctx.out(bytes.fromhex(o))
    ctx.err(bytes.fromhex(e))
    rc = int(rc)
    if rc < 0:
        raise CmdKilled(-rc)
    return rc


@program("sim-big")
def c_simbig(ctx):
    """sim-big SEED SIZE: deterministic pseudo-random output."""
    import random
    ctx.out(random.Random(int(ctx.argv[1])).randbytes(int(ctx.argv[2])))
    return 0


@program("sim-readin")
def c_simreadin(ctx):
    """Consumes standard input; exits 0."""
    ctx.stdin()
    return 0


@program("sim-write")
def c_simwrite(ctx):
    """sim-write PATH TEXT: appends a line to a file (visible side effect)."""
    h, p = ctx.host, ctx.proc
    of = h.sys_open(p, ctx.argv[1], _os.O_WRONLY | _os.O_CREAT | _os.O_APPEND, 0o666)
    write_all(h, p, of, (ctx.argv[2] + "\n").encode("utf-8", "surrogateescape"))
    h.sys_close(p, of)
    return 0
