"""Runs the real tunnel dispatcher source as a simulated remote process.

The source is executed as __main__ with an import system that hands it
simulated os/subprocess/sys/pwd/grp/spwd/open; pure-Python parts of the standard
library that sit on top of them (os, posixpath, shutil, tempfile, ...) are
private copies of the real sources bound to the simulated kernel.
"""
import builtins
import collections.abc
import errno as E
import grp as _grp
import importlib.util
import io
import os as _os
import posix as _posix
import pwd as _pwd
import subprocess as _sp
import sys as _sys
import time as _time
import types
import warnings

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    try:
        import spwd as _spwd
        _struct_spwd = _spwd.struct_spwd
    except ImportError:     # pragma: no cover
        import collections
        _struct_spwd = collections.namedtuple("struct_spwd", "sp_namp sp_pwdp sp_lstchg sp_min sp_max sp_warn sp_inact sp_expire sp_flag")

from . import cmds
from .kernel import CmdExit, CmdKilled, FileRaw, Inode, OpenFile, make_stat, oserr
from .sched import PipeRaw, SimKilled, SimUnsupported

SIM = None      # the running Sim (set per invocation)


def cur():
    p = SIM.cur.proc
    if p is None:
        raise SimUnsupported("remote code outside a remote process")
    return p


def _unsup(name):
    def f(*a, **k):
        raise SimUnsupported(name)
    f.__name__ = name.rsplit(".", 1)[-1]
    return f


class _Path:
    """Marker helper: accepts str, bytes, PathLike or fd."""


def _p(path):
    if isinstance(path, int):
        return _fd(path)
    return _os.fspath(path)


def _fd(fd):
    o = cur().fds.get(fd)
    if o is None:
        raise oserr(E.EBADF)
    return o


def _node(path):
    if isinstance(path, int):
        o = _fd(path)
        if isinstance(o, OpenFile):
            return o.host.st.fs.inodes[o.ino]
        raise SimUnsupported("fd of a pipe")
    return _os.fspath(path)


def _nodir(*fds):
    for f in fds:
        if f is not None:
            raise SimUnsupported("dir_fd")


# ------------------------------------------------------------------ posix

def _mk_posix():
    m = types.ModuleType("posix")
    for k, v in vars(_posix).items():
        if k.startswith("__"):
            continue
        if callable(v) and not isinstance(v, type):
            setattr(m, k, _unsup("posix." + k))
        else:
            setattr(m, k, v)
    for k in ("fspath", "strerror", "WIFEXITED", "WEXITSTATUS", "WIFSIGNALED", "WTERMSIG", "major", "minor", "makedev", "_path_normpath", "cpu_count", "waitstatus_to_exitcode"):
        if hasattr(_posix, k):
            setattr(m, k, getattr(_posix, k))

    def fn(f):
        setattr(m, f.__name__.rstrip("_"), f)
        return f

    @fn
    def stat(path, *, dir_fd=None, follow_symlinks=True):
        _nodir(dir_fd)
        p = cur()
        if isinstance(path, int):
            return fstat(path)
        return p.host.sys_stat(p, _p(path), follow_symlinks)

    @fn
    def lstat(path, *, dir_fd=None):
        _nodir(dir_fd)
        p = cur()
        return p.host.sys_stat(p, _p(path), False)

    @fn
    def fstat(fd):
        p = cur()
        o = _fd(fd)
        p.host.enter(p, "fstat", fd)
        if isinstance(o, OpenFile):
            return make_stat(p.host.st.fs.inodes[o.ino])
        return _os.stat_result((0o010600, 1, 1, 1, 0, 0, 0, 0, 0, 0))

    @fn
    def access(path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
        p = cur()
        try:
            return p.host.sys_access(p, _p(path), mode)
        except OSError:
            return False

    @fn
    def open_(path, flags, mode=0o777, *, dir_fd=None):
        _nodir(dir_fd)
        p = cur()
        of = p.host.sys_open(p, _os.fspath(path), flags, mode)
        fd = 3
        while fd in p.fds:
            fd += 1
        p.fds[fd] = of
        return fd

    @fn
    def close(fd):
        p = cur()
        o = _fd(fd)
        del p.fds[fd]
        if isinstance(o, OpenFile):
            p.host.sys_close(p, o)
        elif isinstance(o, PipeRaw):
            if not any(x is o for x in p.fds.values()):
                o.close()

    @fn
    def read(fd, n):
        p = cur()
        o = _fd(fd)
        if isinstance(o, OpenFile):
            return p.host.sys_read(p, o, n)
        p.host.guard(p)
        return o.pipe.read(n)

    @fn
    def write(fd, data):
        p = cur()
        o = _fd(fd)
        if isinstance(o, OpenFile):
            return p.host.sys_write(p, o, bytes(data))
        p.host.guard(p)
        if isinstance(o, PipeRaw):
            return o.pipe.write(bytes(data))
        o.write(bytes(data))
        return len(data)

    @fn
    def lseek(fd, pos, how, /):
        return FileRaw(cur().host, cur(), _fd(fd)).seek(pos, how)

    @fn
    def fsync(fd):
        p = cur()
        o = _fd(fd if isinstance(fd, int) else fd.fileno())
        if isinstance(o, OpenFile):
            p.host.sys_fsync(p, o)
    m.fdatasync = fsync

    @fn
    def sync():
        for n in cur().host.st.fs.inodes.values():
            n.dirty = None

    @fn
    def ftruncate(fd, length):
        p = cur()
        p.host.sys_truncate(p, _fd(fd), length)

    @fn
    def truncate(path, length):
        if isinstance(path, int):
            return ftruncate(path, length)
        p = cur()
        of = p.host.sys_open(p, _p(path), _os.O_WRONLY)
        p.host.sys_truncate(p, of, length)

    @fn
    def mkdir(path, mode=0o777, *, dir_fd=None):
        _nodir(dir_fd)
        p = cur()
        p.host.sys_mkdir(p, _p(path), mode)

    @fn
    def rmdir(path, *, dir_fd=None):
        _nodir(dir_fd)
        p = cur()
        p.host.sys_rmdir(p, _p(path))

    @fn
    def unlink(path, *, dir_fd=None):
        _nodir(dir_fd)
        p = cur()
        p.host.sys_unlink(p, _p(path))
    m.remove = unlink

    @fn
    def rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        _nodir(src_dir_fd, dst_dir_fd)
        p = cur()
        p.host.sys_rename(p, _p(src), _p(dst))
    m.replace = rename

    @fn
    def symlink(src, dst, target_is_directory=False, *, dir_fd=None):
        _nodir(dir_fd)
        p = cur()
        p.host.sys_symlink(p, _p(src), _p(dst))

    @fn
    def link(src, dst, *, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
        _nodir(src_dir_fd, dst_dir_fd)
        p = cur()
        p.host.sys_link(p, _p(src), _p(dst))

    @fn
    def readlink(path, *, dir_fd=None):
        _nodir(dir_fd)
        p = cur()
        return p.host.sys_readlink(p, _p(path))

    @fn
    def chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
        _nodir(dir_fd)
        if mode < 0 or mode > 0x7fffffff:
            raise OverflowError("Python int too large to convert to C int")
        p = cur()
        p.host.sys_chmod(p, _node(path), mode, follow_symlinks)

    @fn
    def fchmod(fd, mode):
        p = cur()
        p.host.sys_chmod(p, _node(fd), mode)

    @fn
    def lchmod(path, mode):
        raise NotImplementedError("lchmod")

    @fn
    def chown(path, uid, gid, *, dir_fd=None, follow_symlinks=True):
        _nodir(dir_fd)
        p = cur()
        p.host.sys_chown(p, _node(path), uid, gid, follow_symlinks)

    @fn
    def lchown(path, uid, gid):
        p = cur()
        p.host.sys_chown(p, _p(path), uid, gid, False)

    @fn
    def fchown(fd, uid, gid):
        p = cur()
        p.host.sys_chown(p, _node(fd), uid, gid)

    @fn
    def utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
        _nodir(dir_fd)
        p = cur()
        t = ns if ns is not None else None if times is None else (int(times[0] * 1e9), int(times[1] * 1e9))
        p.host.sys_utime(p, _node(path), follow_symlinks, t)

    @fn
    def listdir(path="."):
        p = cur()
        return p.host.sys_listdir(p, _p(path))

    class DirEntry:
        def __init__(self, d, name):
            self.name = name
            self.path = (d.rstrip("/") + "/" if d != "/" else "/") + name if d != "." else name

        def __fspath__(self):
            return self.path

        def _st(self, follow):
            try:
                return stat(self.path, follow_symlinks=follow).st_mode
            except FileNotFoundError:
                return 0

        def is_dir(self, *, follow_symlinks=True):
            return (self._st(follow_symlinks) & 0o170000) == 0o040000

        def is_file(self, *, follow_symlinks=True):
            return (self._st(follow_symlinks) & 0o170000) == 0o100000

        def is_symlink(self):
            return (self._st(False) & 0o170000) == 0o120000

        def is_junction(self):
            return False

        def stat(self, *, follow_symlinks=True):
            return stat(self.path, follow_symlinks=follow_symlinks)

        def inode(self):
            return lstat(self.path).st_ino

    class ScandirIt:
        def __init__(self, path):
            self.it = iter([DirEntry(path, n) for n in listdir(path)])

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    @fn
    def scandir(path="."):
        return ScandirIt(_p(path))

    @fn
    def chdir(path):
        p = cur()
        p.host.sys_chdir(p, _p(path))

    @fn
    def getcwd():
        return cur().cwd

    @fn
    def getcwdb():
        return cur().cwd.encode("utf-8", "surrogateescape")

    @fn
    def umask(mask):
        p = cur()
        if mask < 0 or mask > 0x7fffffff:
            raise OverflowError("Python int too large to convert to C int")
        return p.host.sys_umask(p, mask)

    def ids(name, attr):
        def f():
            return getattr(cur(), attr)
        setattr(m, name, f)
    for n, a in (("getuid", "ruid"), ("geteuid", "euid"), ("getgid", "rgid"), ("getegid", "egid"), ("getpid", "pid")):
        ids(n, a)

    @fn
    def getppid():
        return 1

    @fn
    def getgroups():
        return list(cur().groups)

    @fn
    def getresuid():
        p = cur()
        return (p.ruid, p.euid, p.suid)

    @fn
    def getresgid():
        p = cur()
        return (p.rgid, p.egid, p.sgid)

    def chk(*ids_):
        for v in ids_:
            if not isinstance(v, int):
                raise TypeError("uid should be integer, not " + type(v).__name__)
            if v < -1 or v > 0xffffffff:
                raise OverflowError("uid is out of range")

    @fn
    def setresuid(r, e, s):
        chk(r, e, s)
        p = cur()
        p.host.sys_setresuid(p, r, e, s)

    @fn
    def setresgid(r, e, s):
        chk(r, e, s)
        p = cur()
        p.host.sys_setresgid(p, r, e, s)

    @fn
    def setuid(u):
        chk(u)
        p = cur()
        if p.euid == 0:
            p.host.sys_setresuid(p, u, u, u)
        else:
            p.host.sys_setresuid(p, -1, u, -1)

    @fn
    def setgid(g):
        chk(g)
        p = cur()
        if p.euid == 0:
            p.host.sys_setresgid(p, g, g, g)
        else:
            p.host.sys_setresgid(p, -1, g, -1)

    @fn
    def seteuid(u):
        p = cur()
        p.host.sys_setresuid(p, -1, u, -1)

    @fn
    def setegid(g):
        p = cur()
        p.host.sys_setresgid(p, -1, g, -1)

    @fn
    def setreuid(r, e):
        p = cur()
        p.host.sys_setresuid(p, r, e, e)

    @fn
    def setregid(r, e):
        p = cur()
        p.host.sys_setresgid(p, r, e, e)

    @fn
    def setgroups(g):
        p = cur()
        p.host.sys_setgroups(p, g)

    @fn
    def initgroups(name, gid):
        p = cur()
        p.host.sys_setgroups(p, [gid] + [g["gid"] for g in p.host.st.groups.values() if name in g["members"]])

    for n in ("setsid", "setpgid", "setpgrp", "nice", "getpgid", "getpgrp", "getsid"):
        setattr(m, n, lambda *a: 0)

    @fn
    def isatty(fd):
        return False

    @fn
    def urandom(n):
        return bytes(SIM.rng.randrange(256) for _ in range(n))

    @fn
    def getrandom(n, flags=0):
        return urandom(n)

    @fn
    def _exit(code):
        raise SystemExit(code)

    @fn
    def get_terminal_size(fd=1):
        raise oserr(E.ENOTTY)

    @fn
    def uname():
        return _os.uname_result(("Linux", cur().host.name, "6.0", "#1", "x86_64"))

    @fn
    def dup(fd):
        p = cur()
        o = _fd(fd)
        n = 3
        while n in p.fds:
            n += 1
        p.fds[n] = o
        return n

    @fn
    def dup2(fd, fd2, inheritable=True):
        p = cur()
        p.fds[fd2] = _fd(fd)
        return fd2

    @fn
    def kill(pid, sig):
        p = cur()
        for q in p.host.procs:
            if q.pid == pid and q.alive:
                p.host.kill_proc(q, sig)
                if q is p:
                    raise SimKilled()
                return
        raise oserr(E.ESRCH)

    @fn
    def set_inheritable(fd, v):
        return None

    @fn
    def get_inheritable(fd):
        return False

    @fn
    def sched_getaffinity(pid):
        return {0}
    m.environ = {}
    return m


class _Environ(collections.abc.MutableMapping):
    """os.environ of the running simulated process."""

    def __getitem__(self, k):
        if not isinstance(k, str):
            raise TypeError("str expected, not %s" % type(k).__name__)
        k.encode("utf-8", "surrogateescape")
        return cur().env[k]

    def __setitem__(self, k, v):
        if "\0" in k or "=" in k or "\0" in v:
            raise ValueError("illegal environment variable name")
        cur().env[k] = v

    def __delitem__(self, k):
        del cur().env[k]

    def __iter__(self):
        return iter(list(cur().env))

    def __len__(self):
        return len(cur().env)

    def copy(self):
        return dict(self)

    def __or__(self, o):
        return {**dict(self), **o}


# ------------------------------------------------------------------ sys / io

class _Sys(types.ModuleType):
    _SAFE = None

    def __getattr__(self, k):
        if k in ("stdin", "stdout", "stderr", "argv", "__stdin__", "__stdout__", "__stderr__"):
            return cur().pyio[k.strip("_")]
        if k == "exit":
            return _exit
        if k == "modules":
            return MODS
        if k == "path":
            return []
        return getattr(_sys, k)

    def __setattr__(self, k, v):
        if k in ("stdin", "stdout", "stderr", "argv"):
            cur().pyio[k] = v
        else:
            object.__setattr__(self, k, v)


def _exit(code=None):
    raise SystemExit(code)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    p = cur()
    if opener is not None:
        file = opener(file, _flags_of(mode))
    if isinstance(file, int):
        o = _fd(file)
        if isinstance(o, PipeRaw):
            raw = PipeRaw(o.pipe, o.mode_, o.guard)
            raw.closed_by_owner = not closefd
        elif isinstance(o, OpenFile):
            raw = FileRaw(p.host, p, o)
        else:
            raise SimUnsupported("open of special fd")
    else:
        path = _os.fspath(file)
        if not isinstance(path, (str, bytes)):
            raise TypeError("path")
        if path in ("/dev/null", b"/dev/null"):
            of = _null(p)
        else:
            of = p.host.sys_open(p, path, _flags_of(mode), 0o666)
            if p.host.st.fs.inodes[of.ino].type == "dir":
                raise oserr(E.EISDIR, path)
        raw = FileRaw(p.host, p, of)
        if "a" in mode:
            raw.seek(0, 2)
    if buffering == 0:
        if "b" not in mode:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif any(c in mode for c in "wax"):
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if "b" in mode:
        return buf
    return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)


def _null(p):
    n = Inode(-1, "chr", 0o666, 0, 0, 0)
    p.host.st.fs.inodes.setdefault(-1, n)
    return OpenFile(p.host, -1, _os.O_RDWR, "/dev/null")


def _flags_of(mode):
    if "b" in mode and "t" in mode:
        raise ValueError("can't have text and binary mode at once")
    plus = "+" in mode
    if "r" in mode:
        return _os.O_RDWR if plus else _os.O_RDONLY
    base = _os.O_RDWR if plus else _os.O_WRONLY
    if "w" in mode:
        return base | _os.O_CREAT | _os.O_TRUNC
    if "x" in mode:
        return base | _os.O_CREAT | _os.O_EXCL
    if "a" in mode:
        return base | _os.O_CREAT | _os.O_APPEND
    raise ValueError("invalid mode: %r" % mode)


def sim_print(*args, sep=" ", end="\n", file=None, flush=False):
    if file is None:
        file = cur().pyio["stdout"]
    file.write((" " if sep is None else sep).join(str(a) for a in args) + ("\n" if end is None else end))
    if flush:
        file.flush()


# ------------------------------------------------------------------ pwd, grp, spwd

def _name(n):
    if not isinstance(n, str):
        raise TypeError("getpwnam() argument must be str, not " + type(n).__name__)
    n.encode("utf-8", "surrogateescape")
    if "\0" in n:
        raise ValueError("embedded null byte")
    return n


def _pw(name, u):
    return _pwd.struct_passwd((name, "x", u["uid"], u["gid"], u["gecos"], u["home"], u["shell"]))


def _gr(name, g):
    return _grp.struct_group((name, "x", g["gid"], list(g["members"])))


def _id(v, what):
    if not isinstance(v, int):
        raise TypeError("%s should be integer, not %s" % (what, type(v).__name__))
    return v


def _mk_pwd():
    m = types.ModuleType("pwd")
    m.struct_passwd = _pwd.struct_passwd

    def getpwnam(name):
        p = cur()
        _name(name)
        p.host.enter(p, "nss")
        u = p.host.st.users.get(name)
        if u is None:
            raise KeyError("getpwnam(): name not found: %r" % name)
        return _pw(name, u)

    def getpwuid(uid):
        p = cur()
        _id(uid, "uid")
        p.host.enter(p, "nss")
        for n, u in p.host.st.users.items():
            if u["uid"] == uid:
                return _pw(n, u)
        raise KeyError("getpwuid(): uid not found: %r" % uid)

    def getpwall():
        return [_pw(n, u) for n, u in cur().host.st.users.items()]
    m.getpwnam, m.getpwuid, m.getpwall = getpwnam, getpwuid, getpwall
    return m


def _mk_grp():
    m = types.ModuleType("grp")
    m.struct_group = _grp.struct_group

    def getgrnam(name):
        p = cur()
        _name(name)
        p.host.enter(p, "nss")
        g = p.host.st.groups.get(name)
        if g is None:
            raise KeyError("getgrnam(): name not found: %r" % name)
        return _gr(name, g)

    def getgrgid(gid):
        p = cur()
        _id(gid, "gid")
        p.host.enter(p, "nss")
        for n, g in p.host.st.groups.items():
            if g["gid"] == gid:
                return _gr(n, g)
        raise KeyError("getgrgid(): gid not found: %r" % gid)

    def getgrall():
        p = cur()
        p.host.enter(p, "nss")
        return [_gr(n, g) for n, g in p.host.st.groups.items()]
    m.getgrnam, m.getgrgid, m.getgrall = getgrnam, getgrgid, getgrall
    return m


def _mk_spwd():
    m = types.ModuleType("spwd")
    m.struct_spwd = _struct_spwd

    def ent(n, u):
        return _struct_spwd((n, u["pw"], 19000, 0, 99999, 7, -1, -1, -1))

    def getspnam(name):
        p = cur()
        _name(name)
        p.host.enter(p, "nss")
        if p.euid != 0:
            raise oserr(E.EACCES)
        u = p.host.st.users.get(name)
        if u is None or u.get("pw") is None:
            raise KeyError("getspnam() name not found")
        return ent(name, u)

    def getspall():
        return [ent(n, u) for n, u in cur().host.st.users.items()]
    m.getspnam, m.getspall = getspnam, getspall
    return m


# ------------------------------------------------------------------ subprocess on the remote

class _Collect(io.RawIOBase):
    """Write sink with capture."""

    def __init__(self):
        super().__init__()
        self.buf = bytearray()

    def writable(self):
        return True

    def write(self, b):
        self.buf += bytes(b)
        return len(b)


class _StdinPipe(io.RawIOBase):
    def __init__(self, popen):
        super().__init__()
        self.popen = popen
        self.buf = bytearray()

    def writable(self):
        return True

    def write(self, b):
        self.buf += bytes(b)
        return len(b)


class _Lazy(io.RawIOBase):
    """Read end of a child's output; reading runs the child to completion."""

    def __init__(self, popen, which):
        super().__init__()
        self.popen = popen
        self.which = which
        self.pos = 0

    def readable(self):
        return True

    def readinto(self, b):
        self.popen._finish()
        data = self.popen._out[self.which][self.pos:self.pos + len(b)]
        self.pos += len(data)
        b[:len(data)] = data
        return len(data)


class RemotePopen:
    """subprocess.Popen of the simulated host. The child runs to completion when it is waited for."""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None, creationflags=0,
                 restore_signals=True, start_new_session=False, pass_fds=(), *, user=None, group=None, extra_groups=None,
                 encoding=None, errors=None, text=None, umask=-1, pipesize=-1, process_group=None):
        parent = cur()
        host = parent.host
        self.host = host
        self.args = args
        self.returncode = None
        self._text = bool(text or universal_newlines or encoding or errors)
        self._enc = encoding or "utf-8"
        self._err = errors or "strict"
        if isinstance(args, (str, bytes)):
            args = [args]
        else:
            args = list(args)
        if shell:
            args = ["/bin/sh", "-c"] + args
        argv = []
        for a in args:
            a = _os.fspath(a)
            if isinstance(a, bytes):
                a = a.decode("utf-8", "surrogateescape")
            a.encode("utf-8", "surrogateescape")
            if "\0" in a:
                raise ValueError("embedded null byte")
            argv.append(a)
        if not argv:
            raise IndexError("list index out of range")
        if cwd is not None and "\0" in _os.fspath(cwd):
            raise ValueError("embedded null byte")
        for v, what in ((stdin, "stdin"), (stdout, "stdout"), (stderr, "stderr")):
            if v is not None and not isinstance(v, int) and not hasattr(v, "fileno") and not hasattr(v, "write"):
                raise SimUnsupported("Popen " + what)
        # -- fork
        host.enter(parent, "fork")
        child = host.new_proc(parent)
        child.kind = "command"
        child.cmd_index = host.ncmd
        host.ncmd += 1
        child.argv = argv
        child.fault = None
        for f in host.cmd_faults.get(child.cmd_index, ()):
            child.fault = f
        self.child = child
        self.pid = child.pid
        self._stdin_mode = stdin
        self._in = None
        self._stdinobj = None
        if stdin == _sp.PIPE:
            self._stdinobj = _StdinPipe(self)
        # -- output plumbing
        self._out = {}
        self.stdin = io.BufferedWriter(self._stdinobj) if self._stdinobj is not None else None
        self.stdout = self.stderr = None
        self._sink = {}
        for fd, v in ((1, stdout), (2, stderr)):
            if v == _sp.PIPE:
                self._sink[fd] = _Collect()
                self._out[fd] = b""
                r = io.BufferedReader(_Lazy(self, fd))
                if self._text:
                    r = io.TextIOWrapper(r, self._enc, self._err)
                if fd == 1:
                    self.stdout = r
                else:
                    self.stderr = r
            elif v == _sp.DEVNULL:
                self._sink[fd] = None
            elif v == _sp.STDOUT and fd == 2:
                self._sink[2] = self._sink[1]
            elif v is None:
                self._sink[fd] = parent.fds.get(fd)
            elif isinstance(v, int):
                self._sink[fd] = parent.fds.get(v)
            else:
                raw = v
                try:
                    self._sink[fd] = parent.fds.get(v.fileno())
                except (OSError, AttributeError, io.UnsupportedOperation):
                    self._sink[fd] = raw
        if self._text and self.stdin is not None:
            self.stdin = io.TextIOWrapper(self.stdin, self._enc, self._err, write_through=True)
        if stdin is None:
            self._in = parent.fds.get(0)
        elif stdin == _sp.DEVNULL:
            self._in = b""
        elif isinstance(stdin, int) and stdin >= 0:
            self._in = parent.fds.get(stdin)
        elif stdin is not None and not isinstance(stdin, int):
            self._in = stdin.read()
        self._done = False
        # -- child side of fork: exactly the order CPython uses
        SIM.cur.proc = child
        try:
            try:
                if cwd is not None:
                    try:
                        host.sys_chdir(child, _os.fspath(cwd))
                    except OSError as e:
                        self._abort(127)
                        raise _exc(e.errno, cwd)
                if umask >= 0:
                    host.sys_umask(child, umask)
                if extra_groups is not None:
                    host.sys_setgroups(child, [_resolve_gid(host, g) for g in extra_groups])
                if group is not None:
                    g = _resolve_gid(host, group)
                    host.sys_setresgid(child, g, g, g)
                if user is not None:
                    u = _resolve_uid(host, user)
                    host.sys_setresuid(child, u, u, u)
                if preexec_fn is not None:
                    try:
                        preexec_fn()
                    except (SimKilled, SimUnsupported, CmdKilled, CmdExit):
                        raise
                    except BaseException:
                        self._abort(255)
                        raise _sp.SubprocessError("Exception occurred in preexec_fn.") from None
                host.enter(child, "exec", argv[0])
                prog = executable or argv[0]
                entry = cmds.find_program(host, child, prog, (env if env is not None else child.env))
                if env is not None:
                    child.env = dict(env)
            except OSError as e:
                if child.alive:
                    self._abort(127)
                    raise _exc(e.errno, cwd if e.filename == cwd and cwd is not None else argv[0]) from None
                raise
            except CmdKilled as e:
                # killed before exec: the parent sees the death of the child
                child.alive = False
                self.returncode = -e.sig
                self._done = True
                entry = None
            except CmdExit:
                # the program could not be loaded (dynamic linker)
                child.alive = False
                self.returncode = 127
                self._done = True
                entry = None
        finally:
            SIM.cur.proc = parent
        self._entry = entry
        self.parent = parent

    def _abort(self, code):
        self.child.alive = False
        self.child.exitcode = code

    # -- running
    def _finish(self):
        if self._done:
            return
        self._done = True
        host, child = self.host, self.child
        if self._stdinobj is not None:
            self._in = bytes(self._stdinobj.buf)
        SIM.cur.proc = child
        try:
            rc = cmds.execute(host, child, self._entry, self._in, self._sink)
        finally:
            SIM.cur.proc = self.parent
        if child.alive:
            child.alive = False
            child.exitcode = rc
        for fd in list(self._out):
            self._out[fd] = bytes(self._sink[fd].buf)
        host.guard(self.parent)
        self.returncode = rc

    def communicate(self, input=None, timeout=None):
        if self.stdin is not None and not self.stdin.closed:
            if input:
                self.stdin.write(input)
            self.stdin.flush()
        self._finish()
        o = self.stdout.read() if self.stdout is not None else None
        e = self.stderr.read() if self.stderr is not None else None
        return o, e

    def wait(self, timeout=None):
        if self.stdin is not None and not self.stdin.closed:
            self.stdin.flush()
        self._finish()
        return self.returncode

    def poll(self):
        return self.returncode if self._done else None

    def kill(self):
        self.send_signal(9)

    def terminate(self):
        self.send_signal(15)

    def send_signal(self, sig):
        if not self._done:
            self._done = True
            self.returncode = -sig
            self.child.alive = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.stdin is not None and not self.stdin.closed:
            try:
                self.stdin.close()
            except BrokenPipeError:
                pass
        self.wait()

    def __class_getitem__(cls, item):
        return cls


def _exc(errno, filename):
    return OSError(errno, _os.strerror(errno), filename)


def _resolve_uid(host, u):
    if isinstance(u, str):
        return MODS["pwd"].getpwnam(u).pw_uid
    return u


def _resolve_gid(host, g):
    if isinstance(g, str):
        return MODS["grp"].getgrnam(g).gr_gid
    return g


def _mk_subprocess():
    m = types.ModuleType("subprocess")
    d = m.__dict__
    for k, v in vars(_sp).items():
        if k.startswith("__") and k not in ("__all__",):
            continue
        d[k] = v
    d["Popen"] = RemotePopen
    d["os"] = MODS.get("os")
    d["sys"] = MODS.get("sys")
    for k in ("run", "call", "check_call", "check_output", "getoutput", "getstatusoutput"):
        f = ORIG_SP.get(k) or getattr(_sp, k)
        g = types.FunctionType(f.__code__, d, k, f.__defaults__, f.__closure__)
        g.__kwdefaults__ = f.__kwdefaults__
        d[k] = g
    return m


ORIG_SP = {k: getattr(_sp, k) for k in ("run", "call", "check_call", "check_output", "getoutput", "getstatusoutput")}


# ------------------------------------------------------------------ time

def _mk_time():
    m = types.ModuleType("time")
    for k, v in vars(_time).items():
        if not k.startswith("__"):
            setattr(m, k, v)
    m.time = lambda: SIM.now
    m.time_ns = lambda: int(SIM.now * 1e9)
    m.monotonic = m.perf_counter = lambda: SIM.mono
    m.monotonic_ns = m.perf_counter_ns = lambda: int(SIM.mono * 1e9)
    m.sleep = lambda s: SIM.sleep(s)
    return m


def _mk_signal():
    import signal as _signal
    m = types.ModuleType("signal")
    for k, v in vars(_signal).items():
        if k.startswith("__"):
            continue
        m.__dict__[k] = v if not callable(v) or isinstance(v, type) else (lambda *a, **k: None)
    return m


# ------------------------------------------------------------------ imports

MODS = {}
PRIVATE = {"os", "posixpath", "genericpath", "shutil", "tempfile", "pathlib", "glob", "fnmatch", "_compat_pickle", "ntpath"}
BANNED = {"socket", "select", "selectors", "asyncio", "threading", "_thread", "multiprocessing", "concurrent", "ctypes", "pty", "fcntl",
          "resource", "mmap", "_posixsubprocess", "queue", "socketserver", "http", "urllib", "pexpect", "termios", "tty"}
_code_cache = {}


class _BannedModule(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if self.__name__ == "_thread" and k in ("allocate_lock", "RLock", "get_ident", "LockType", "_set_sentinel", "start_new_thread"):
            import _thread
            return getattr(_thread, k)
        if self.__name__ == "fcntl" and k.isupper():
            return 0
        return _unsup(self.__name__ + "." + k)


def _load_private(name):
    if name not in _code_cache:
        spec = importlib.util.find_spec(name)
        origin = getattr(spec, "origin", None)
        if name == "os" or not origin or not origin.endswith(".py"):
            origin = _os.path.join(_os.path.dirname(_os.__file__), name + ".py")
            if not _os.path.exists(origin):
                import inspect
                origin = inspect.getsourcefile(_sys.modules[name])
        with open(origin, encoding="utf-8") as f:
            _code_cache[name] = compile(f.read(), origin, "exec")
    m = types.ModuleType(name)
    m.__dict__["__builtins__"] = BUILTINS
    MODS[name] = m
    if name == "os":
        MODS["posix"].environ = {}
    exec(_code_cache[name], m.__dict__)
    if name == "os":
        env = _Environ()
        m.environ = env
        m.environb = {}
        m.getenv = lambda key, default=None: env.get(key, default)
        m.path = MODS["posixpath"]
    return m


def sim_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        raise ImportError("attempted relative import with no known parent package")
    top = name.split(".")[0]
    if top == "fora":
        raise ModuleNotFoundError("No module named 'fora'", name="fora")
    if name == "os.path":
        get_module("os")
        return MODS["posixpath"] if fromlist else MODS["os"]
    mod = get_module(top)
    if top in MODS:
        if "." in name and fromlist:
            return _sys.modules.get(name) or importlib.import_module(name)
        return mod
    return _real_import(name, None, None, fromlist, 0)


def get_module(top):
    if top in MODS:
        return MODS[top]
    if top in PRIVATE:
        return _load_private(top)
    if top == "subprocess":
        get_module("os")
        m = MODS["subprocess"] = _mk_subprocess()
        return m
    if top in BANNED:
        m = MODS[top] = _BannedModule(top)
        return m
    return None


_real_import = builtins.__import__
BUILTINS = dict(vars(builtins))
BUILTINS.update(__import__=sim_import, open=sim_open, print=sim_print, exit=_exit, quit=_exit,
                input=_unsup("input"), breakpoint=_unsup("breakpoint"))


def _mk_io():
    m = types.ModuleType("io")
    for k, v in vars(io).items():
        if not k.startswith("__"):
            setattr(m, k, v)
    m.open = sim_open
    m.FileIO = _unsup("io.FileIO")
    return m


def init():
    """Builds the shared simulated module set (once per worker)."""
    if MODS:
        return
    MODS["sys"] = _Sys("sys")
    MODS["posix"] = _mk_posix()
    MODS["pwd"] = _mk_pwd()
    MODS["grp"] = _mk_grp()
    MODS["spwd"] = _mk_spwd()
    MODS["time"] = _mk_time()
    MODS["signal"] = _mk_signal()
    MODS["io"] = _mk_io()
    b = types.ModuleType("builtins")
    b.__dict__.update(BUILTINS)
    MODS["builtins"] = b
    get_module("os")
    get_module("subprocess")


class StderrSink(io.RawIOBase):
    def __init__(self):
        super().__init__()
        self.buf = bytearray()

    def writable(self):
        return True

    def write(self, b):
        if len(self.buf) < 1 << 16:
            self.buf += bytes(b)
        return len(b)


_td_cache = {}


def compile_td(source, name):
    k = (source, name)
    if k not in _td_cache:
        _td_cache[k] = compile(source, name, "exec")
    return _td_cache[k]


def start_dispatcher(host, source, argv, req, resp, user, on_exit=None, filename="tunnel_dispatcher.py"):
    """Starts the dispatcher as a simulated process; returns its Proc."""
    sim = host.sim
    proc = host.new_proc()
    u = host.st.users[user]
    proc.ruid = proc.euid = proc.suid = u["uid"]
    proc.rgid = proc.egid = proc.sgid = u["gid"]
    proc.groups = [u["gid"]] + [g["gid"] for g in host.st.groups.values() if user in g["members"]]
    proc.cwd = u["home"] if host.st.get(u["home"], True) is not None else "/"
    proc.env = dict(host.st.env)
    proc.on_exit = on_exit
    guard = lambda: host.guard(proc)
    proc.fds[0] = PipeRaw(req, "r", guard)
    proc.fds[1] = PipeRaw(resp, "w", guard)
    proc.fds[2] = StderrSink()
    proc.fds[0].sim_fd, proc.fds[1].sim_fd = 0, 1
    proc.fds[2].fileno = lambda: 2
    code = compile_td(source, filename)

    def body():
        proc.pyio = {
            "stdin": io.TextIOWrapper(io.BufferedReader(PipeRaw_fd(req, "r", guard, 0)), "utf-8"),
            "stdout": io.TextIOWrapper(io.BufferedWriter(PipeRaw_fd(resp, "w", guard, 1)), "utf-8"),
            "stderr": io.TextIOWrapper(StderrFd(proc.fds[2]), "utf-8", "backslashreplace", line_buffering=True),
            "argv": list(argv),
        }
        g = {"__name__": "__main__", "__builtins__": BUILTINS, "__file__": filename, "__doc__": None}
        rc = 0
        proc.crashed = None
        try:
            try:
                exec(code, g)
            except SystemExit as e:
                c = e.code
                rc = 0 if c is None else c & 0xff if isinstance(c, int) else 1
            except (SimKilled, SimUnsupported):
                raise
            except CmdKilled:
                raise
            except BaseException as e:
                import traceback
                proc.crashed = repr(e)
                rc = 1
                host.sim.note(host.name, "dispatcher-crash", type(e).__name__)
                proc.fds[2].write(("".join(traceback.format_exception(e))).encode("utf-8", "backslashreplace"))
            try:
                proc.pyio["stdout"].flush()
            except (OSError, ValueError):
                rc = rc or 120
        finally:
            proc.globals = None
        host.exit_proc(proc, rc)

    t = sim.spawn("dispatcher@" + host.name, body, proc)
    proc.task = t
    return proc


class PipeRaw_fd(PipeRaw):
    def __init__(self, pipe, mode, guard, fd):
        super().__init__(pipe, mode, guard)
        self.sim_fd = fd


class StderrFd(io.BufferedIOBase):
    def __init__(self, sink):
        super().__init__()
        self.sink = sink

    def writable(self):
        return True

    def write(self, b):
        return self.sink.write(b)

    def fileno(self):
        return 2
