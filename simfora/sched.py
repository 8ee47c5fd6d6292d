"""Seeded cooperative scheduler, virtual clock and simulated byte pipes.

Exactly one task (thread) runs at any time; it keeps the baton until it reaches
a simulation point, where the seeded scheduler decides which task continues and
which bytes move.  One seed is one execution.
"""
import io
import random
import threading
import hashlib


class SimHang(BaseException):
    """Nothing can run any more (deadlock) or the step bound was exceeded."""


class SimKilled(BaseException):
    """The simulated process this code belongs to is gone."""


class SimUnsupported(BaseException):
    """The code under test used a facility the simulator does not model."""


class Task:
    __slots__ = ("name", "sem", "state", "pred", "deadline", "pending", "proc", "thread", "done", "ident", "error")

    def __init__(self, name):
        self.name = name
        self.sem = threading.Semaphore(0)
        self.state = "runnable"
        self.pred = None
        self.deadline = None
        self.pending = None
        self.proc = None
        self.thread = None
        self.done = False
        self.error = None


DEFAULT_POLICY = {"chunk": "all", "stay": 0.5, "cap": 65536, "shortio": 0.0}


class Sim:
    def __init__(self, seed=0, policy=None, step_cap=400000):
        self.rng = random.Random(seed)
        self.policy = dict(DEFAULT_POLICY)
        if policy:
            self.policy.update(policy)
        self.step_cap = step_cap
        self.steps = 0
        self.switches = 0
        self.deliveries = 0
        self.now = 1_700_000_000.0      # virtual wall clock
        self.mono = 0.0                 # virtual monotonic clock
        self.tasks = []
        self.main = None
        self.cur = None
        self.pipes = []
        self.hang = None
        self.unsupported = None
        self.log_hash = hashlib.blake2b(digest_size=8)
        self.loglen = 0
        self.ctl_points = 0
        self.kbd_at = set()
        self.idle_kbd = 0
        self.ctl_hook = None
        self.fired = {}
        self.clock_jumps = []
        self.on_point = None
        self.trace = None               # list when tracing is wanted

    # ---------------------------------------------------------------- bookkeeping
    def note(self, *ev):
        """Appends an event to the execution log (hashed: identifies the interleaving)."""
        self.loglen += 1
        self.log_hash.update(repr(ev).encode("utf-8", "surrogatepass"))
        if self.trace is not None:
            self.trace.append((self.steps,) + ev)

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    # ---------------------------------------------------------------- tasks
    def attach_main(self):
        t = Task("controller")
        t.thread = threading.current_thread()
        self.tasks.append(t)
        self.main = self.cur = t
        return t

    def spawn(self, name, fn, proc=None):
        t = Task(name)
        t.proc = proc

        def body():
            t.sem.acquire()
            try:
                if t.pending is None:
                    fn()
            except SimKilled:
                pass
            except SimHang:
                pass
            except SimUnsupported as e:
                if self.unsupported is None:
                    self.unsupported = str(e)
            except BaseException as e:  # pragma: no cover - harness error
                t.error = e
                import traceback
                t.error_tb = None
                self.note("harness-error", name, repr(e))
                if self.unsupported is None:
                    self.unsupported = "harness: " + "".join(traceback.format_exception(e))
            t.done = True
            t.state = "done"
            self._leave()

        t.thread = threading.Thread(target=body, daemon=True)
        t.thread.start()
        self.tasks.append(t)
        self.note("spawn", name)
        return t

    def _candidates(self):
        c = []
        for t in self.tasks:
            if t.done:
                continue
            if t.state == "runnable":
                c.append(t)
            elif t.pending is not None or t.pred():
                c.append(t)
            elif t.deadline is not None and t.deadline <= self.mono:
                c.append(t)
        for p in self.pipes:
            if p.deliverable():
                c.append(p)
        return c

    def _tick(self):
        self.steps += 1
        dt = self.rng.random() * 2e-4
        self.now += dt
        self.mono += dt
        if self.clock_jumps and self.steps >= self.clock_jumps[0][0]:
            _, j = self.clock_jumps.pop(0)
            self.now += j
            self.fire("clock_jump")
            self.note("clock", j)

    def _pick(self):
        """Performs deliveries until a task is chosen to run; None means deadlock."""
        while True:
            if self.hang is not None:
                return self.main
            c = self._candidates()
            if not c:
                dl = [t.deadline for t in self.tasks if not t.done and t.deadline is not None]
                dl += [p.hold_until for p in self.pipes if p.hold_until is not None and not p.broken]
                if dl:
                    m = min(dl)
                    if m > self.mono:
                        self.now += m - self.mono
                        self.mono = m
                    continue
                return None
            x = c[0] if len(c) == 1 else c[self.rng.randrange(len(c))]
            if isinstance(x, Task):
                return x
            self.deliveries += 1
            x.deliver()
            self._tick()
            if self.steps > self.step_cap:
                self._set_hang("step bound exceeded")
                return self.main

    def _set_hang(self, why):
        if self.hang is None:
            waits = ", ".join(f"{t.name}:{t.state}" for t in self.tasks if not t.done)
            self.hang = f"{why} ({waits})"
            self.note("hang", self.hang)
        self.main.state = "runnable"
        self.main.pending = SimHang(self.hang)

    def _switch(self, t):
        cur = self.cur
        if t is cur:
            return
        self.switches += 1
        self.note("run", t.name)
        self.cur = t
        t.sem.release()
        cur.sem.acquire()

    def _leave(self):
        """Called by a finished task's thread: hand the baton to somebody else."""
        t = self._pick()
        if t is None:
            self._set_hang("deadlock")
            t = self.main
        self.note("run", t.name)
        self.cur = t
        t.sem.release()

    def _resume(self):
        cur = self.cur
        cur.state = "runnable"
        cur.pred = None
        cur.deadline = None
        if cur.pending is not None:
            e = cur.pending
            if not isinstance(e, (SimHang, SimKilled)):
                cur.pending = None
            raise e

    def point(self, what=None):
        """A simulation point of the running task."""
        self._tick()
        cur = self.cur
        if what is not None:
            self.note(cur.name, what)
        if cur is self.main:
            if self.hang is not None:
                raise SimHang(self.hang)
            self.ctl_points += 1
            if self.ctl_hook is not None:
                self.ctl_hook(self.ctl_points)
            if self.ctl_points in self.kbd_at:
                self.fire("interrupt")
                self.note("interrupt", self.ctl_points)
                raise KeyboardInterrupt()
        if self.steps > self.step_cap:
            self._set_hang("step bound exceeded")
            if cur is self.main:
                raise SimHang(self.hang)
        if len(self.tasks) > 1 and self.rng.random() >= self.policy["stay"]:
            t = self._pick()
            if t is None:
                t = cur
            self._switch(t)
        self._resume()

    def block(self, pred, what=None, timeout=None):
        """Blocks the running task until pred() holds; returns False on timeout."""
        cur = self.cur
        self.point(what)
        if pred():
            return True
        cur.state = "blocked"
        cur.pred = pred
        cur.deadline = None if timeout is None else self.mono + timeout
        t = self._pick()
        if t is None and self.idle_kbd > 0 and self.hang is None and not self.main.done:
            # nothing happens any more, so the user gives up
            self.idle_kbd -= 1
            self.fire("interrupt")
            self.note("interrupt", "idle")
            self.main.pending = KeyboardInterrupt()
            t = self.main
        if t is None:
            self._set_hang("deadlock")
            t = self.main
        self._switch(t)
        ok = pred()
        self._resume()
        return ok

    def settle(self, bound=200000):
        """Runs everything else until no other task or delivery can make progress."""
        limit = self.steps + bound
        while self.steps < limit:
            c = [x for x in self._candidates() if x is not self.main]
            if not c:
                dl = [t.deadline for t in self.tasks if not t.done and t is not self.main and t.deadline is not None]
                dl += [p.hold_until for p in self.pipes if p.hold_until is not None and not p.broken]
                if not dl:
                    return True
                m = min(dl)
                self.now += max(0, m - self.mono)
                self.mono = max(self.mono, m)
                continue
            x = c[self.rng.randrange(len(c))]
            self._tick()
            if isinstance(x, Task):
                # block ourselves so that the task can run until its next point
                self.main.state = "runnable"
                self._switch(x)
            else:
                x.deliver()
        return False

    def reap(self):
        """Ends all remaining threads (simulated processes that are still around)."""
        for t in self.tasks:
            if t is self.main or t.done:
                continue
            t.pending = SimKilled()
            t.state = "runnable"
        n = 0
        while any(not t.done for t in self.tasks if t is not self.main):
            t = next(t for t in self.tasks if t is not self.main and not t.done)
            self.hang = None
            self._switch(t)
            n += 1
            if n > 10000:
                break

    def sleep(self, secs):
        if secs <= 0:
            self.point("sleep")
            return
        t = self.mono + secs
        self.block(lambda: self.mono >= t, "sleep", timeout=secs)


class Pipe:
    """A unidirectional byte stream with finite buffering and a delivery stage."""

    def __init__(self, sim, name):
        self.sim = sim
        self.name = name
        self.transit = bytearray()
        self.ready = bytearray()
        self.cap = max(1, int(sim.policy.get("cap", 65536)))
        self.writer_open = True
        self.reader_open = True
        self.broken = False         # connection lost
        self.written = 0
        self.delivered = 0
        self.consumed = 0
        self.cut_at = None          # lose the connection after this many delivered bytes
        self.on_cut = None
        self.n_deliveries = 0
        self.holds = []             # [(after bytes, seconds, callback)]: a stalled transport
        self.hold_until = None
        sim.pipes.append(self)

    # -- transport
    def deliverable(self):
        if self.broken:
            return False
        if self.hold_until is not None:
            if self.sim.mono < self.hold_until:
                return False
            self.hold_until = None
        if self.cut_at is not None and self.delivered >= self.cut_at:
            return True
        return bool(self.transit) and len(self.ready) < self.cap

    def deliver(self):
        sim = self.sim
        n = len(self.transit)
        n = min(n, max(1, self.cap - len(self.ready)))
        mode = sim.policy["chunk"]
        if mode != "all" and n > 1:
            self.n_deliveries += 1
            if self.n_deliveries > 400:
                pass
            elif mode == "one":
                n = 1
            elif mode == "small":
                n = sim.rng.randint(1, min(n, 9))
            elif mode == "rand":
                n = sim.rng.randint(1, n)
            elif mode == "mixed":
                r = sim.rng.random()
                if r < 0.3:
                    n = 1
                elif r < 0.6:
                    n = sim.rng.randint(1, min(n, 17))
                elif r < 0.8:
                    n = sim.rng.randint(1, n)
        if self.cut_at is not None:
            n = min(n, self.cut_at - self.delivered)
        if self.holds:
            at, secs, cb = self.holds[0]
            if self.delivered >= at:
                self.holds.pop(0)
                self.hold_until = sim.mono + secs
                sim.note("hold", self.name, secs)
                cb()
                return
            n = min(n, at - self.delivered)
        if n > 0:
            self.ready += self.transit[:n]
            del self.transit[:n]
            self.delivered += n
            sim.note("deliver", self.name, n)
        if self.cut_at is not None and self.delivered >= self.cut_at:
            self.cut_at = None
            if self.on_cut:
                self.on_cut()

    # -- reader side
    def eof(self):
        return self.broken or (not self.writer_open and not self.transit)

    def can_read(self):
        return bool(self.ready) or self.eof() or not self.reader_open

    def read(self, n):
        sim = self.sim
        sim.block(self.can_read, "read " + self.name)
        if not self.reader_open:
            raise OSError(9, "Bad file descriptor")
        if not self.ready:
            return b""
        m = min(n, len(self.ready))
        if m > 1 and sim.rng.random() < sim.policy["shortio"]:
            m = sim.rng.randint(1, m)
        data = bytes(self.ready[:m])
        del self.ready[:m]
        self.consumed += m
        return data

    # -- writer side
    def can_write(self):
        return self.broken or not self.reader_open or len(self.transit) + len(self.ready) < self.cap * 2

    def write(self, data):
        """Writes at least one byte, possibly fewer than given."""
        sim = self.sim
        if not data:
            return 0
        sim.block(self.can_write, "write " + self.name)
        if self.broken or not self.reader_open:
            raise BrokenPipeError(32, "Broken pipe")
        m = min(len(data), self.cap * 2 - len(self.transit) - len(self.ready))
        if m > 1 and sim.rng.random() < sim.policy["shortio"]:
            m = sim.rng.randint(1, m)
        self.transit += data[:m]
        self.written += m
        return m

    def write_all(self, data):
        data = bytes(data)
        off = 0
        while off < len(data):
            off += self.write(data[off:off + (1 << 20)])
        return off

    def close_writer(self):
        self.writer_open = False

    def close_reader(self):
        self.reader_open = False
        self.transit.clear()

    def lose(self):
        """The connection is gone: bytes in transit never arrive."""
        self.broken = True
        self.transit.clear()


class PipeRaw(io.RawIOBase):
    """Raw end of a pipe, used below the real io buffering classes."""

    def __init__(self, pipe, mode, guard=None, exact=False, hook=None):
        super().__init__()
        self.pipe = pipe
        self.mode_ = mode
        self.guard = guard      # callable run before every call (process liveness)
        self.exact = exact
        self.closed_by_owner = False
        self.hook = hook
        self.sim_fd = None

    def _g(self):
        if self.guard:
            self.guard()

    def readable(self):
        return self.mode_ == "r"

    def writable(self):
        return self.mode_ == "w"

    def readinto(self, b):
        if self.mode_ != "r":
            raise io.UnsupportedOperation("read")
        self._g()
        if len(b) == 0:
            return 0
        data = self.pipe.read(len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        if self.mode_ != "w":
            raise io.UnsupportedOperation("write")
        self._g()
        b = bytes(b)
        if self.exact:
            return self.pipe.write_all(b)
        return self.pipe.write(b)

    def fileno(self):
        if self.sim_fd is None:
            raise io.UnsupportedOperation("fileno")
        return self.sim_fd

    def isatty(self):
        return False

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                if not self.closed_by_owner:
                    self.closed_by_owner = True
                    if self.mode_ == "r":
                        self.pipe.close_reader()
                    else:
                        self.pipe.close_writer()
                    if self.hook:
                        self.hook()
