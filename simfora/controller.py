"""The controller side: runs the real `fora.main.main()` under the simulator.

boot() is called once per worker: it replaces the controller's seams
(subprocess.Popen, clocks, uuid, open, directory listing) and imports fora from
/repo/src.  invoke() forks one child per invocation, which owns one Sim.
"""
import base64
import builtins
import datetime as _dt
import errno as E
import gc
import gzip
import io
import os
import pickle
import re
import resource
import select
import signal
import struct
import sys
import time as _time
import traceback
import uuid
import zlib

from . import remote
from .kernel import SimHost
from .sched import Pipe, PipeRaw, Sim, SimHang, SimKilled, SimUnsupported

CTX = None          # the running invocation (only set in the forked child)
REPO = os.environ.get("SIMFORA_REPO", "/repo")

_real_open = builtins.open
_real_scandir = os.scandir
_real_listdir = os.listdir
real_time = _time.time
real_mono = _time.monotonic
real_sleep = _time.sleep


# ---------------------------------------------------------------- processes of the controller

class Session:
    """One process started by the controller."""

    def __init__(self, ctx, index, argv):
        self.ctx = ctx
        self.index = index
        self.argv = argv
        self.kind = None
        self.addr = None
        self.login = None
        self.host = None
        self.proc = None            # the dispatcher
        self.rc = None              # exit code of the local process
        self.exited = False
        self.reaped = False
        self.lost = False
        self.started = False
        self.terminated = False
        self.mute = False
        self.req = None
        self.resp = None
        self.opened_at = ctx.sim.steps
        self.exited_at = None
        self.lost_at = None

    # the local process ends
    def _exit(self, rc):
        if not self.exited:
            self.exited = True
            self.rc = rc
            self.exited_at = self.ctx.sim.steps
            self.ctx.sim.note("session-exit", self.index, rc)

    def remote_exited(self):
        p = self.proc
        rc = p.exitcode if p is not None else 0
        if self.kind == "ssh" and rc is not None and rc < 0:
            rc = 255
        self._exit(rc)

    def host_down(self):
        self.lose("host_down")

    def lose(self, why):
        """The transport is gone."""
        if self.lost:
            return
        self.lost = True
        self.lost_at = self.ctx.sim.steps
        self.ctx.sim.note("lost", self.index, why)
        self.req.lose()
        self.resp.lose()
        if self.kind == "local":
            if self.proc is not None and self.proc.alive:
                self.host.kill_proc(self.proc)
            self._exit(-9)
        else:
            self._exit(255)

    def signal(self, sig):
        if self.exited:
            return
        self.terminated = True
        if self.kind == "local" and self.proc is not None:
            self.host.kill_proc(self.proc, sig)
        else:
            # ssh dies: its ends of the channel close
            if self.mute:
                self.req.close_reader()
                self.resp.close_writer()
            self.req.close_writer()
            self.resp.close_reader()
            self._exit(-sig)

    def info(self):
        d = {k: getattr(self, k) for k in ("index", "kind", "addr", "login", "rc", "exited", "reaped", "lost", "started", "terminated",
                                            "opened_at", "exited_at", "lost_at")}
        d["argv0"] = self.argv[:2]
        if self.req is not None:
            d["req"] = (self.req.written, self.req.delivered, self.req.consumed, self.req.writer_open)
            d["resp"] = (self.resp.written, self.resp.delivered, self.resp.consumed, self.resp.reader_open)
        d["proc_alive"] = bool(self.proc is not None and self.proc.alive)
        d["proc_exit"] = self.proc.exitcode if self.proc is not None else None
        d["crashed"] = getattr(self.proc, "crashed", None) if self.proc is not None else None
        d["stderr"] = bytes(self.proc.fds[2].buf[-2000:]) if self.proc is not None and hasattr(self.proc.fds.get(2), "buf") else b""
        return d


SSH_ARG_OPTS = "BbcDEeFIiJLlmOopQRSWw"


class ControllerPopen:
    """Stands in for subprocess.Popen in the controller."""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True,
                 shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), *, user=None, group=None, extra_groups=None, encoding=None, errors=None,
                 text=None, umask=-1, pipesize=-1, process_group=None):
        ctx = CTX
        self.args = args
        self.stdin = self.stdout = self.stderr = None
        self.returncode = None
        self.pid = 0
        if ctx is None:
            raise SimUnsupported("process started outside of a simulation")
        ctx.guard()
        sim = ctx.sim
        argv = [args] if isinstance(args, str) else [os.fsdecode(a) for a in args]
        if shell or not argv:
            raise SimUnsupported("controller process " + repr(argv)[:80])
        sim.point(("popen", argv[0]))
        s = Session(ctx, len(ctx.sessions), argv)
        self.session = s
        self.pid = 4000 + s.index
        ctx.sessions.append(s)
        faults = [f for f in ctx.session_faults if f.get("session", 0) == s.index]
        for f in faults:
            if f["do"] == "popen":
                ctx.fired(f)
                s.exited = s.reaped = True
                raise OSError(f["errno"], os.strerror(f["errno"]), argv[0])
        base = os.path.basename(argv[0])
        if re.fullmatch(r"python[0-9.]*", base):
            self._local(s, argv)
        elif base == "ssh":
            self._ssh(s, argv)
        else:
            raise SimUnsupported("controller process " + repr(argv)[:80])
        req = s.req = Pipe(sim, "req%d" % s.index)
        resp = s.resp = Pipe(sim, "resp%d" % s.index)
        PIPE = -1
        if stdin == PIPE:
            raw = PipeRaw(req, "w", ctx.guard)
            self.stdin = raw if bufsize == 0 else io.BufferedWriter(raw, bufsize if bufsize > 1 else io.DEFAULT_BUFFER_SIZE)
        else:
            req.close_writer()
        if stdout == PIPE:
            raw = PipeRaw(resp, "r", ctx.guard)
            self.stdout = raw if bufsize == 0 else io.BufferedReader(raw, bufsize if bufsize > 1 else io.DEFAULT_BUFFER_SIZE)
        else:
            resp.close_reader()
        if stderr == PIPE:
            self.stderr = io.BytesIO()
        if encoding or errors or text or universal_newlines:
            if self.stdin is not None:
                self.stdin = io.TextIOWrapper(self.stdin, encoding=encoding or "utf-8", errors=errors, write_through=True)
            if self.stdout is not None:
                self.stdout = io.TextIOWrapper(self.stdout, encoding=encoding or "utf-8", errors=errors)
        for f in faults:
            self._fault(s, f)
        ctx.on_session(s)
        if s.host is None:
            # name resolution / connection refused
            req.close_reader()
            resp.close_writer()
            s._exit(255)
        elif s.nostart is not None:
            req.close_reader()
            resp.close_writer()
            s._exit(s.nostart)
        elif s.mute:
            pass                # the transport hangs: nothing is ever read or answered, until it is told to end
        elif not s.exited:
            s.started = True
            s.host.sessions.append(s)
            s.proc = remote.start_dispatcher(s.host, s.source, s.pargv, req, resp, s.login, s.remote_exited, s.filename)

    def _local(self, s, argv):
        s.kind = "local"
        s.addr = "local"
        s.nostart = None
        s.host = self_host = s.ctx.hosts.get("local")
        if self_host is None:
            raise SimUnsupported("no local host in this world")
        s.login = s.ctx.logins.get("local", "root")
        i = 1
        while i < len(argv) and argv[i] in ("-u", "-B", "-s", "-E", "-I", "-q"):
            i += 1
        if i >= len(argv):
            raise SimUnsupported("interactive python")
        if argv[i] == "-c":
            s.source = argv[i + 1]
            s.pargv = ["-c"] + argv[i + 2:]
            s.filename = "<string>"
        else:
            path = argv[i] if argv[i] != "-m" else None
            if path is None:
                raise SimUnsupported("python -m")
            with _real_open(path, "rb") as f:
                s.source = f.read()
            s.pargv = argv[i:]
            s.filename = path

    def _ssh(self, s, argv):
        s.kind = "ssh"
        s.nostart = None
        port = None
        login = None
        i = 1
        dest = None
        while i < len(argv):
            a = argv[i]
            if dest is None and a == "--":
                i += 1
                dest = argv[i]
                i += 1
                break
            if a.startswith("-") and len(a) > 1:
                j = 1
                while j < len(a):
                    c = a[j]
                    if c in SSH_ARG_OPTS:
                        val = a[j + 1:]
                        if not val:
                            i += 1
                            val = argv[i] if i < len(argv) else ""
                        if c == "p":
                            port = val
                        elif c == "l":
                            login = val
                        elif c == "o" and "=" in val:
                            k, v = val.split("=", 1)
                            if k.strip().lower() == "port":
                                port = v.strip()
                            elif k.strip().lower() == "user":
                                login = v.strip()
                        break
                    j += 1
                i += 1
                continue
            if dest is None:
                dest = a
                i += 1
                # options may also follow the destination
                if i < len(argv) and argv[i].startswith("-"):
                    continue
                break
            break
        if dest is None:
            raise SimUnsupported("ssh without destination")
        command = " ".join(argv[i:])
        d = dest[6:] if dest.startswith("ssh://") else dest
        d = d.rstrip("/")
        if "@" in d:
            u, d = d.rsplit("@", 1)
            login = login or u
        if dest.startswith("ssh://") and ":" in d:
            d, p = d.rsplit(":", 1)
            port = port or p
        s.addr = d if port in (None, "22", "") else d + ":" + str(port)
        s.host = s.ctx.hosts.get(s.addr)
        s.login = login or s.ctx.logins.get(s.addr, "root")
        if s.host is not None and s.login not in s.host.st.users:
            s.nostart = 255
        best = max(re.findall(r"[A-Za-z0-9+/=\n]{200,}", command), key=len, default=None)
        src = None
        if best:
            raw = base64.b64decode(best)
            for dec in (zlib.decompress, gzip.decompress, lambda b: b):
                try:
                    src = dec(raw)
                    break
                except Exception:
                    continue
        if src is None:
            raise SimUnsupported("ssh command without inline dispatcher")
        s.source = src
        s.filename = "<string>"
        s.pargv = ["-c"] + (["--debug"] if re.search(r"\s--debug\b", command) else [])

    def _fault(self, s, f):
        ctx = s.ctx
        do = f["do"]
        if do == "cut":
            pipe = s.req if f["dir"] == "req" else s.resp
            pipe.cut_at = f["at"]

            def cut():
                ctx.fired(f)
                s.lose("cut")
            pipe.on_cut = cut
        elif do == "hold":
            pipe = s.req if f["dir"] == "req" else s.resp
            pipe.holds.append((f["at"], f["secs"], lambda: ctx.fired(f)))
            pipe.holds.sort(key=lambda h: h[0])
        elif do == "garbage":
            ctx.fired(f)
            data = bytes.fromhex(f["hex"])
            s.resp.transit += data
            s.resp.written += len(data)
        elif do == "nostart":
            ctx.fired(f)
            if f.get("hex"):
                s.resp.transit += bytes.fromhex(f["hex"])
            s.nostart = f["rc"]
        elif do == "mute":
            ctx.fired(f)
            if f.get("hex"):
                s.resp.transit += bytes.fromhex(f["hex"])
                s.resp.written += len(bytes.fromhex(f["hex"]))
            s.mute = True
            ctx.sim.idle_kbd += 1

    # -- subprocess API
    def poll(self):
        ctx = self.session.ctx
        ctx.guard()
        ctx.sim.point("poll")
        return self._reap()

    def _reap(self):
        if self.session.exited and self.returncode is None:
            self.session.reaped = True
            self.returncode = self.session.rc
        return self.returncode

    def wait(self, timeout=None):
        ctx = self.session.ctx
        ctx.guard()
        if self.returncode is None:
            try:
                done = ctx.sim.block(lambda: self.session.exited, "wait", timeout)
            except KeyboardInterrupt:
                # like CPython: the process most likely got the interrupt as well and is given a moment
                if timeout is None:
                    if ctx.sim.block(lambda: self.session.exited, "wait", 0.25):
                        self._reap()
                raise
            if not done:
                import subprocess
                raise subprocess.TimeoutExpired(self.args, timeout)
        return self._reap()

    def send_signal(self, sig):
        ctx = self.session.ctx
        ctx.guard()
        ctx.sim.point("kill")
        self._reap()
        if self.returncode is None:
            self.session.signal(sig)

    def terminate(self):
        self.send_signal(15)

    def kill(self):
        self.send_signal(9)

    def communicate(self, input=None, timeout=None):
        if self.stdin is not None:
            try:
                if input:
                    self.stdin.write(input)
                self.stdin.close()
            except BrokenPipeError:
                pass
        out = None
        if self.stdout is not None:
            out = self.stdout.read()
            self.stdout.close()
        self.wait(timeout)
        return out, None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.stdout:
            self.stdout.close()
        try:
            if self.stdin:
                self.stdin.close()
        finally:
            self.wait()

    def __class_getitem__(cls, item):
        return cls


# ---------------------------------------------------------------- local files, clock, randomness

def _under(path):
    ctx = CTX
    if ctx is None or ctx.scratch is None:
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    p = os.path.abspath(p)
    if p == ctx.scratch or p.startswith(ctx.scratch + "/"):
        return p[len(ctx.scratch) + 1:]
    return None


class _FailingRaw(io.RawIOBase):
    def __init__(self, inner, code, after):
        super().__init__()
        self.inner, self.code, self.left = inner, code, after

    def readable(self):
        return True

    def readinto(self, b):
        if self.left <= 0:
            raise OSError(self.code, os.strerror(self.code))
        n = min(len(b), self.left)
        d = self.inner.read(n)
        if not d:
            raise OSError(self.code, os.strerror(self.code))
        self.left -= len(d)
        b[:len(d)] = d
        return len(d)

    def close(self):
        self.inner.close()
        super().close()


def _ctl_open(file, mode="r", *a, **k):
    rel = _under(file) if not isinstance(file, int) else None
    if rel is not None:
        ctx = CTX
        ctx.guard()
        ctx.sim.point(("lopen", rel))
        for f in ctx.local_faults:
            if f["path"] == rel and not f.get("_done"):
                if f["do"] == "open":
                    ctx.fired(f)
                    raise OSError(f["errno"], os.strerror(f["errno"]), file)
                if f["do"] == "read" and "r" in mode:
                    ctx.fired(f)
                    raw = _FailingRaw(_real_open(file, "rb"), f["errno"], f.get("after", 0))
                    buf = io.BufferedReader(raw)
                    return buf if "b" in mode else io.TextIOWrapper(buf, encoding=k.get("encoding") or "utf-8")
    return _real_open(file, mode, *a, **k)


class _ScandirIt:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _listing_fault(path):
    rel = _under(path) if not isinstance(path, int) else None
    if rel is None:
        return False
    ctx = CTX
    ctx.guard()
    ctx.sim.point(("lscan", rel))
    for f in ctx.local_faults:
        if f["path"] == rel and f["do"] == "scandir":
            ctx.fired(f)
            raise OSError(f["errno"], os.strerror(f["errno"]), path)
    return True


def _ctl_scandir(path="."):
    if not _listing_fault(path):
        return _real_scandir(path)
    with _real_scandir(path) as it:
        ents = sorted(it, key=lambda e: e.name)
    CTX.order_rng.shuffle(ents)
    return _ScandirIt(ents)


def _ctl_listdir(path="."):
    if not _listing_fault(path):
        return _real_listdir(path)
    names = sorted(_real_listdir(path))
    CTX.order_rng.shuffle(names)
    return names


class SimDatetime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        if CTX is None:
            return _OrigDatetime.now(tz)
        return _OrigDatetime.fromtimestamp(CTX.sim.now, tz)

    @classmethod
    def utcnow(cls):
        if CTX is None:
            return _OrigDatetime.now(_dt.timezone.utc).replace(tzinfo=None)
        return _OrigDatetime.fromtimestamp(CTX.sim.now, _dt.timezone.utc).replace(tzinfo=None)


_OrigDatetime = _dt.datetime


def _s_time():
    return CTX.sim.now if CTX is not None else real_time()


def _s_mono():
    return CTX.sim.mono if CTX is not None else real_mono()


def _s_sleep(secs):
    if CTX is None:
        return real_sleep(secs)
    CTX.guard()
    CTX.sim.sleep(secs)


def _s_uuid4():
    if CTX is None:
        return uuid.UUID(bytes=os.urandom(16), version=4)
    return uuid.UUID(int=CTX.uuid_rng.getrandbits(128), version=4)


BOOTED = False


def boot():
    """Installs the controller seams and imports fora from the working tree (once per worker)."""
    global BOOTED
    if BOOTED:
        return
    sys.dont_write_bytecode = True
    sys.unraisablehook = lambda *a: None
    import subprocess
    import jinja2  # noqa: F401  (third-party code is imported before the seams are replaced)
    import glob, shutil, inspect, argparse, dataclasses, linecache, difflib, random, multiprocessing  # noqa: F401
    remote.init()
    subprocess.Popen = ControllerPopen
    _dt.datetime = SimDatetime
    _time.time = _s_time
    _time.monotonic = _s_mono
    _time.perf_counter = _s_mono
    _time.sleep = _s_sleep
    _time.time_ns = lambda: int(_s_time() * 1e9)
    _time.monotonic_ns = lambda: int(_s_mono() * 1e9)
    uuid.uuid4 = _s_uuid4
    uuid.uuid1 = lambda *a, **k: _s_uuid4()
    builtins.open = _ctl_open
    io.open = _ctl_open
    os.scandir = _ctl_scandir
    os.listdir = _ctl_listdir
    src = os.path.join(REPO, "src")
    sys.path[:] = [src] + [p for p in sys.path if os.path.abspath(p or ".") != src]
    import fora
    if not os.path.exists(os.path.join(src, "fora", "version.py")):
        # generated by the build and not tracked
        import types
        m = types.ModuleType("fora.version")
        m.version, m.version_tuple = "0.0.0", (0, 0, 0)
        sys.modules["fora.version"] = m
    import fora.main
    import fora.operations
    from fora.utils import import_submodules
    import_submodules(fora.operations)
    import_submodules(__import__("fora.connectors", fromlist=["x"]))
    if not os.path.abspath(fora.__file__).startswith(src + "/"):
        raise SystemExit("fora was not imported from " + src)
    gc.collect()
    gc.freeze()
    gc.disable()
    BOOTED = True


# ---------------------------------------------------------------- one invocation

class Ctx:
    def __init__(self, inv):
        import random
        self.inv = inv
        self.sim = Sim(inv.get("seed", 0), inv.get("policy"), inv.get("step_cap", 400000))
        self.sim.kbd_at = set(inv.get("kbd", ()))
        self.sim.clock_jumps = [tuple(j) for j in inv.get("clock", ())]
        self.ctlkill_at = inv.get("ctlkill")
        self.ctl_dead = False
        self.scratch = inv["scratch"]
        self.sessions = []
        self.session_faults = [dict(f) for f in inv.get("session_faults", ())]
        self.local_faults = [dict(f) for f in inv.get("local_faults", ())]
        self.order_rng = random.Random(inv.get("order_seed", inv.get("seed", 0)))
        self.uuid_rng = random.Random(7)
        self.hosts = {}
        self.logins = {}
        self.events = []
        self.programs = inv.get("programs", {})
        self.snap = inv.get("snap", True)
        self.output = inv.get("output")
        self.cur = None
        self.depth = 0
        self.effs = []
        self.constants = {}
        for addr, h in inv["world"].items():
            sh = SimHost(self.sim, addr, h["state"], h.get("faults", ()))
            sh.keep_syslog = inv.get("profile", False)
            self.hosts[addr] = sh
            self.logins[addr] = h.get("user", "root")
        self.sim.ctl_hook = self._ctl_point if self.ctlkill_at is not None else None

    def guard(self):
        if self.ctl_dead:
            raise SimKilled()

    def _ctl_point(self, n):
        if n == self.ctlkill_at and not self.ctl_dead:
            self.ctl_dead = True
            self.sim.fire("controller_kill")
            self.sim.note("controller-killed", n)
            # the operating system closes the controller's file descriptors
            for s in self.sessions:
                if s.req is not None:
                    s.req.close_writer()
                    s.resp.close_reader()
            raise SimKilled()

    def fired(self, f):
        f["_done"] = True
        self.sim.fire(f["k"] + ":" + str(f.get("do", "")))
        self.sim.note("fault", f["k"], f.get("do"))

    def on_session(self, s):
        self.cur = s
        if s.host is not None:
            s.host.tag = ("open", s.index)
        self.events.append({"i": len(self.events), "op": "#open", "addr": s.addr, "session": s.index, "step": self.sim.steps})


def excinfo(e):
    d = {"type": type(e).__name__, "mro": [c.__name__ for c in type(e).__mro__], "msg": str(e)[:2000]}
    for k in ("errno", "returncode", "strerror"):
        if hasattr(e, k):
            d[k] = getattr(e, k)
    if "CalledProcessError" in d["mro"]:
        d["stdout"], d["stderr"] = e.stdout, e.stderr
    if isinstance(e, SystemExit):
        d["code"] = e.code
    return d


class _Tee(io.StringIO):
    tty = False

    def isatty(self):
        return self.tty


def _child(inv):
    global CTX
    import fora
    import fora.main
    import fora.loader
    import fora.logger
    ctx = CTX = Ctx(inv)
    sim = ctx.sim
    remote.SIM = sim
    out, err = _Tee(), _Tee()
    out.tty = bool(inv.get("tty"))
    sys.stdout, sys.stderr = out, err
    os.chdir(inv.get("cwd", inv["scratch"]))
    for k, v in inv.get("ctlenv", {}).items():
        os.environ[k] = v
    sim.attach_main()
    res = {"exc": None, "code": None}
    cwd0 = os.getcwd()
    try:
        try:
            fora.main.main(list(inv["argv"]))
            res["exit"] = "return"
        except SystemExit as e:
            res["exit"] = "exit"
            res["code"] = e.code
        except SimHang as e:
            res["exit"] = "hang"
        except SimKilled:
            res["exit"] = "killed"
        except SimUnsupported as e:
            res["exit"] = "unsupported"
            sim.unsupported = sim.unsupported or str(e)
        except BaseException as e:  # noqa
            res["exit"] = "exc"
            res["exc"] = excinfo(e)
            res["tb"] = "".join(traceback.format_exception(e))[-6000:]
            e.__traceback__ = None
        if res["exit"] == "killed" and not ctx.ctl_dead:
            res["exit"] = "unsupported"
            sim.unsupported = sim.unsupported or "stray kill in controller"
        # what is true the moment the run returns
        res["at_return"] = [s.info() for s in ctx.sessions]
        res["steps_at_return"] = sim.steps
        res["mut_at_return"] = {a: len(h.mutlog) for a, h in ctx.hosts.items()}
        res["exec_at_return"] = {a: len(h.execlog) for a, h in ctx.hosts.items()}
        inventory = fora.inventory
        hosts = {}
        try:
            if inventory is not None:
                for n, h in inventory.loaded_hosts.items():
                    hosts[n] = h.connection is not None
        except Exception:
            pass
        res["host_connections"] = hosts
        res["ctx_after"] = {"cwd_same": os.getcwd() == cwd0, "script": fora.script is None, "stack": len(fora.loader.script_stack),
                            "indent": fora.logger.state.indentation_level}
        sim.ctl_hook = None
        sim.kbd_at = set()
        sim.idle_kbd = 0
        if res["exit"] not in ("hang", "unsupported"):
            res["settled"] = sim.settle()
        res["sessions"] = [s.info() for s in ctx.sessions]
    except (SimHang, SimKilled, SimUnsupported) as e:
        if isinstance(e, SimUnsupported):
            sim.unsupported = sim.unsupported or str(e)
        res.setdefault("sessions", [s.info() for s in ctx.sessions])
    res["unsupported"] = sim.unsupported
    res["hang"] = sim.hang
    res["events"] = ctx.events
    if ctx.snap:
        res["world"] = {a: h.st for a, h in ctx.hosts.items()}
    res["mutlog"] = {a: h.mutlog for a, h in ctx.hosts.items()}
    res["execlog"] = {a: h.execlog for a, h in ctx.hosts.items()}
    if inv.get("profile"):
        res["syslog"] = {a: h.syslog for a, h in ctx.hosts.items()}
    res["nsys"] = {a: h.nsys for a, h in ctx.hosts.items()}
    res["ncmd"] = {a: h.ncmd for a, h in ctx.hosts.items()}
    res["fired_faults"] = {a: h.fired_faults for a, h in ctx.hosts.items()}
    res["fired"] = sim.fired
    res["steps"] = sim.steps
    res["switches"] = sim.switches
    res["deliveries"] = sim.deliveries
    res["simtime"] = sim.mono
    res["ctl_points"] = sim.ctl_points
    res["hash"] = sim.log_hash.hexdigest()
    lim = 1 << 24 if inv.get("output") else 20000
    res["stdout"], res["stderr"] = out.getvalue()[-lim:], err.getvalue()[-lim:]
    res["hook"] = getattr(ctx, "hook_out", None)
    return res


_null_fd = None


def invoke(inv, wall=150):
    """Runs one simulated invocation of fora in a forked child. Returns its result dict."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            cpu = inv.get("cpu", 40)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            real_out = os.fdopen(w, "wb")
            try:
                res = _child(inv)
            except BaseException as e:  # harness error
                res = {"exit": "harness", "exc": excinfo(e), "tb": "".join(traceback.format_exception(e)), "unsupported": "harness: " + repr(e)}
            data = pickle.dumps(res, protocol=5)
            real_out.write(data)
            real_out.flush()
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = real_mono() + wall
    timed_out = False
    while True:
        left = end - real_mono()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            timed_out = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return {"exit": "wall", "unsupported": "wall clock", "events": [], "fired": {}}
    _, st = os.waitpid(pid, 0)
    if not chunks:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
            return {"exit": "cpuhang", "unsupported": None, "events": [], "fired": {}}
        return {"exit": "harness", "unsupported": "child died: %r" % st, "events": [], "fired": {}}
    try:
        return pickle.loads(b"".join(chunks))
    except Exception as e:
        if os.WIFSIGNALED(st):
            return {"exit": "cpuhang", "unsupported": None, "events": [], "fired": {}}
        return {"exit": "harness", "unsupported": "bad child answer %r" % e, "events": [], "fired": {}}
