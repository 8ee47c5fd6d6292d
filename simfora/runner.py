"""Seeded search: many scenarios of one property over 8 forked workers, minimisation of what
fails, replay files, evidence."""
import copy
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import time

from . import controller, scen

mono = time.monotonic
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(HERE, "known_findings.txt")


class Stats:
    """Totals over all simulated invocations of this worker."""

    def __init__(self):
        self.n = {"invocations": 0, "steps": 0, "switches": 0, "deliveries": 0, "simtime": 0.0, "inconclusive": 0, "scenarios": 0,
                  "commands": 0, "syscalls": 0, "sessions": 0}
        self.fired = {}
        self.hashes = set()
        self.why = {}
        self.extra = {}

    def add(self, res):
        n = self.n
        n["invocations"] += 1
        for k in ("steps", "switches", "deliveries", "simtime"):
            n[k] += res.get(k) or 0
        n["commands"] += sum((res.get("ncmd") or {}).values())
        n["syscalls"] += sum((res.get("nsys") or {}).values())
        n["sessions"] += len(res.get("sessions") or ())
        for k, v in (res.get("fired") or {}).items():
            self.fired[k] = self.fired.get(k, 0) + v
        if res.get("hash"):
            self.hashes.add(res["hash"][:16])
        if not scen.ok(res, hang=True):
            n["inconclusive"] += 1
            w = str(res.get("unsupported"))[:100]
            self.why[w] = self.why.get(w, 0) + 1

    def count(self, key, by=1):
        self.extra[key] = self.extra.get(key, 0) + by

    def merge(self, o):
        for k, v in o.n.items():
            self.n[k] += v
        for a, b in ((self.fired, o.fired), (self.why, o.why), (self.extra, o.extra)):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        self.hashes |= o.hashes


STATS = Stats()


def _hook(res):
    STATS.add(res)


scen.on_result = _hook


def module(prop):
    return importlib.import_module("checks." + prop.lower())


def scenario_rng(seed, prop, index):
    h = hashlib.sha256(("%d/%s/%d" % (seed, prop, index)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def make(mod, prop, seed, index, tier):
    rng = scenario_rng(seed, prop, index)
    scn = mod.generate(rng, index, tier)
    if scn is not None:
        scn.setdefault("prop", prop)
        if getattr(mod, "HASHED", False):
            scn["hashseed"] = int(os.environ.get("PYTHONHASHSEED") or 0)
        scn["origin"] = [seed, index]
    return scn


def known_ids():
    ids = set()
    try:
        with controller._real_open(KNOWN_FILE, encoding="utf-8") as f:
            for ln in f:
                if ln.startswith("finding: "):
                    d = dict(x.split("=", 1) for x in ln.split()[1:3])
                    ids.add((d["property"], d["id"]))
    except OSError:
        pass
    return ids


def judge(mod, scn):
    """evaluate() with known findings separated. Returns (violations, known, info)."""
    out = mod.evaluate(scn)
    viol, known = [], []
    ids = known_ids()
    for v in out.get("viol", ()):
        if v.get("known") and (mod.PROP, v["known"]) in ids:
            known.append(v)
        else:
            viol.append(v)
    return viol, known, out


# ---------------------------------------------------------------- workers

def _worker(wfd, mod, seed, tier, indices, deadline, stop_fd):
    controller.boot()
    out = os.fdopen(wfd, "wb")

    def send(msg):
        b = pickle.dumps(msg, 5)
        out.write(struct.pack(">I", len(b)) + b)
        out.flush()

    limit = None
    samples = []
    distinct = set()
    evals = nontriv = 0
    for index in indices:
        if mono() > deadline:
            send(("cap", index))
            break
        rd, _, _ = select.select([stop_fd], [], [], 0)
        if rd:
            b = os.read(stop_fd, 8)
            limit = struct.unpack(">q", b)[0] if len(b) == 8 else -1
        if limit is not None and index > limit:
            break
        try:
            scn = make(mod, mod.PROP, seed, index, tier)
            if scn is None:
                continue
            STATS.n["scenarios"] += 1
            viol, known, info = judge(mod, scn)
        except scen.Inconclusive as e:
            STATS.n["inconclusive"] += 1
            STATS.why[str(e)[:80]] = STATS.why.get(str(e)[:80], 0) + 1
            continue
        evals += info.get("evals", 1)
        for k in info.get("keys", ()):
            distinct.add(k)
        if info.get("sample") is not None and len(samples) < 2:
            samples.append(info["sample"])
        for v in known:
            send(("known", v["known"], index))
        if viol:
            send(("viol", index, viol[0]))
            if getattr(mod, "HASHED", False):       # only this process has the right hash seed
                send(("min", index) + minimise(mod, scn, viol[0], 60 if tier == "quick" else 240))
            break
    send(("done", evals, distinct, samples, STATS))
    out.close()
    os._exit(0)


def worker_main(spec):
    """Entry point of a worker process with its own hash seed."""
    a = json.loads(spec)
    try:
        _worker(a["w"], module(a["prop"]), a["seed"], a["tier"], range(*a["range"]), a["deadline"], a["stop"])
    except BaseException:
        import traceback
        traceback.print_exc()
    os._exit(3)


def search(mod, seed, tier, runs, cap, jobs=8, base=0):
    """Runs `runs` scenarios. Returns a summary dict."""
    hashed = getattr(mod, "HASHED", False)
    if hashed:
        jobs = 8            # the worker decides the hash seed: always the same number
    controller.boot()
    start = mono()
    deadline = start + cap
    procs = []
    for j in range(jobs):
        r, w = os.pipe()
        sr, sw = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.close(sw)
                for _, orr, osw, _ in procs:
                    os.close(orr)
                    os.close(osw)
                if hashed:
                    os.set_inheritable(w, True)
                    os.set_inheritable(sr, True)
                    spec = json.dumps({"w": w, "stop": sr, "prop": mod.PROP, "seed": seed, "tier": tier, "range": [base + j, base + runs, jobs], "deadline": deadline})
                    os.execve(sys.executable, [sys.executable, os.path.join(HERE, "run.py"), "--worker", spec],
                              dict(os.environ, PYTHONHASHSEED=str((seed * 8 + j) % 4294967296), SIMFORA_REEXEC="1"))
                _worker(w, mod, seed, tier, range(base + j, base + runs, jobs), deadline, sr)
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(3)
        os.close(w)
        os.close(sr)
        procs.append([pid, r, sw, b""])
    total = Stats()
    sumry = {"viol": None, "evals": 0, "distinct": set(), "samples": [], "known": {}, "capped": 0, "dead": 0}
    open_ = {p[1]: p for p in procs}
    done = set()
    while open_:
        rd, _, _ = select.select(list(open_), [], [], 5)
        for fd in rd:
            p = open_[fd]
            b = os.read(fd, 1 << 20)
            if not b:
                del open_[fd]
                if p[0] not in done:
                    sumry["dead"] += 1
                continue
            p[3] += b
            while len(p[3]) >= 4:
                n = struct.unpack(">I", p[3][:4])[0]
                if len(p[3]) < 4 + n:
                    break
                msg = pickle.loads(p[3][4:4 + n])
                p[3] = p[3][4 + n:]
                if msg[0] == "viol":
                    if sumry["viol"] is None or msg[1] < sumry["viol"][0]:
                        sumry["viol"] = (msg[1], msg[2])
                        for q in procs:
                            try:
                                os.write(q[2], struct.pack(">q", msg[1]))
                            except OSError:
                                pass
                elif msg[0] == "min":
                    sumry.setdefault("min", {})[msg[1]] = msg[2:]
                elif msg[0] == "known":
                    sumry["known"].setdefault(msg[1], msg[2])
                elif msg[0] == "cap":
                    sumry["capped"] += 1
                elif msg[0] == "done":
                    done.add(p[0])
                    sumry["evals"] += msg[1]
                    sumry["distinct"] |= msg[2]
                    sumry["samples"] += msg[3]
                    total.merge(msg[4])
    for p in procs:
        os.close(p[1])
        os.close(p[2])
        os.waitpid(p[0], 0)
    sumry["stats"] = total
    sumry["wall"] = mono() - start
    return sumry


# ---------------------------------------------------------------- minimisation

def _bodies(scn):
    """All op lists of a scenario (as paths)."""
    out = []

    def walk(ops, path):
        out.append(path)
        for i, op in enumerate(ops):
            if isinstance(op, dict) and "body" in op:
                walk(op["body"], path + [i, "body"])
    for name in scn.get("programs", {}):
        walk(scn["programs"][name], ["programs", name])
    return out


def _at(scn, path):
    x = scn
    for k in path:
        x = x[k]
    return x


def candidates(scn):
    """Simpler scenarios, most drastic first."""
    def edit(fn):
        c = copy.deepcopy(scn)
        try:
            if fn(c) is False:
                return None
        except (KeyError, IndexError):
            return None
        return c

    for path in _bodies(scn):
        n = len(_at(scn, path))
        if n > 3:
            for lo, hi in ((0, n // 2), (n // 2, n)):
                yield edit(lambda c: _at(c, path).__delitem__(slice(lo, hi)))
        for i in range(n - 1, -1, -1):
            if n > 1 or len(path) > 2:
                yield edit(lambda c: _at(c, path).__delitem__(i))
        for i in range(n):
            op = _at(scn, path)[i]
            if isinstance(op, dict) and "body" in op and op["op"] in ("try", "defaults"):
                yield edit(lambda c: _at(c, path).__setitem__(slice(i, i + 1), _at(c, path)[i]["body"]))
    for key in ("session_faults", "local_faults", "kbd", "clock"):
        for i in range(len(scn.get(key) or ())):
            yield edit(lambda c: c[key].__delitem__(i))
    if scn.get("ctlkill") is not None:
        yield edit(lambda c: c.pop("ctlkill"))
    for a in scn.get("hosts", {}):
        for i in range(len(scn["hosts"][a].get("faults") or ())):
            yield edit(lambda c: c["hosts"][a]["faults"].__delitem__(i))
    q = {"chunk": "all", "stay": 0.9, "cap": 65536, "shortio": 0.0}
    if scn.get("policy") and scn["policy"] != q:
        yield edit(lambda c: c.__setitem__("policy", q))
        for k in q:
            if scn["policy"].get(k) != q[k]:
                yield edit(lambda c: c["policy"].__setitem__(k, q[k]))
    for a in scn.get("hosts", {}):
        spec = scn["hosts"][a]["spec"]
        n = len(spec.get("tree", ()))
        if n > 8:
            yield edit(lambda c: c["hosts"][a]["spec"]["tree"].__delitem__(slice(7, n)))
        for i in range(n - 1, 0, -1):
            yield edit(lambda c: c["hosts"][a]["spec"]["tree"].__delitem__(i))
    for path in _bodies(scn):
        for i, op in enumerate(_at(scn, path)):
            for k in list(op.get("kw") or ()):
                if k not in ("path", "dest", "src", "content", "target", "line", "user", "group", "command", "file", "url", "service", "packages"):
                    yield edit(lambda c: _at(c, path)[i]["kw"].pop(k))
            if "catch" in op:
                yield edit(lambda c: _at(c, path)[i].pop("catch"))
    for f in list(scn.get("files", {})):
        if f not in ("deploy.py", "inventory.py"):
            yield edit(lambda c: c["files"].pop(f))


def minimise(mod, scn, viol, limit):
    """Greedy minimisation: keeps a candidate only if it fails with the same signature."""
    end = mono() + limit
    tried = 0
    cands = getattr(mod, "candidates", candidates)
    progress = True
    while progress and mono() < end:
        progress = False
        for c in cands(scn):
            if c is None:
                continue
            if mono() > end:
                break
            tried += 1
            try:
                v, _, _ = judge(mod, c)
            except Exception:
                continue
            same = [x for x in v if x["sig"] == viol["sig"]]
            if same:
                scn, viol = c, same[0]
                progress = True
                break
    return scn, viol, tried


# ---------------------------------------------------------------- one check

ASSUME = ["the simulated kernel, tools and transport behave like Linux, coreutils, shadow, pacman/apt/portage, systemctl, git and an ssh pipe in everything the properties depend on",
          "schedules and faults are sampled by a seeded search, not enumerated"]


def check(prop, tier, seed, runs=None, cap=None, jobs=None, quiet=False):
    mod = module(prop)
    t0 = mono()
    controller.boot()
    jobs = jobs or min(8, os.cpu_count() or 8)
    runs = runs or (mod.QUICK if tier == "quick" else mod.THOROUGH)
    cap = cap or (420 if tier == "quick" else 6 * 3600)
    sm = search(mod, seed, tier, runs, cap, jobs)
    st = sm["stats"]
    ids = known_ids()
    demo_known = []
    for kid, demo in getattr(mod, "KNOWN_DEMOS", {}).items():
        if (prop, kid) in ids:
            v, k, _ = judge(mod, demo())
            if any(x["known"] == kid for x in k):
                demo_known.append((kid, k[0]["msg"]))
            elif v and sm["viol"] is None:
                sm["viol"] = (-1, v[0])
                sm["viol_scn"] = demo()
    code = 0
    if sm["viol"] is not None:
        index, viol = sm["viol"]
        if index in sm.get("min", {}):
            scn, viol, tried = sm["min"][index]
        else:
            scn = sm.get("viol_scn") or make(mod, prop, seed, index, tier)
            scn, viol, tried = minimise(mod, scn, viol, 60 if tier == "quick" else 240)
        path = write_replay(mod, prop, scn, viol)
        if not quiet:
            print("%s: %s" % (prop, viol["msg"][:1500]))
            print("  found in scenario %d of seed %d, minimised with %d further executions" % (index, seed, tried))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    if not quiet:
        for kid, msg in demo_known:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, kid, msg.splitlines()[0][:300]))
    wall = mono() - t0
    hours = max(sm["wall"], 1e-9) / 3600
    samples = sm["samples"][:3] or ["none"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": code,
          "assumptions": ASSUME + list(getattr(mod, "ASSUME", ())),
          "coverage": {"evaluations": sm["evals"], "distinct_nontrivial": len(sm["distinct"]), "rule": mod.RULE, "samples": samples,
                       "scenarios": st.n["scenarios"], "simulated_runs": st.n["invocations"], "simulated_runs_per_hour": int(st.n["invocations"] / hours),
                       "seeds_per_hour": int(st.n["scenarios"] / hours), "simulated_seconds": round(st.n["simtime"], 1),
                       "scheduling_steps": st.n["steps"], "context_switches": st.n["switches"], "stream_deliveries": st.n["deliveries"],
                       "remote_system_calls": st.n["syscalls"], "remote_commands": st.n["commands"], "sessions": st.n["sessions"],
                       "distinct_interleavings": len(st.hashes),
                       "interleaving_measure": "distinct SHA-256 over the complete event log (every scheduling decision, delivery, system call, mutation, fault) of a run",
                       "faults_injected": dict(sorted(st.fired.items())), "check_counters": dict(sorted(st.extra.items())),
                       "inconclusive_runs": st.n["inconclusive"], "inconclusive_reasons": st.why, "stopped_by_time_limit": sm["capped"], "workers_lost": sm["dead"],
                       "known_findings_seen": sorted(set(sm["known"]) | {k for k, _ in demo_known}),
                       "real_components": "fora.main, loader, inventory, types, logger, connection, connectors (local, ssh, tunnel connector), tunnel dispatcher (its shipped source, run in the simulated remote process), all operations, jinja2",
                       "stub_components": "remote kernel (files, processes, credentials), remote tools (coreutils, shadow, systemctl, package managers, git, bash type-queries), ssh client and pipes, clocks, uuid, local file errors and listing order"}}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with controller._real_open(os.path.join(HERE, "evidence", prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write("\n")
    if not quiet:
        c = ev["coverage"]
        print("%s %s seed=%d: %d scenarios, %d simulated runs, %d evaluations, %d distinct non-trivial, %d interleavings, faults %s, inconclusive %d%s, %.1fs" % (
            prop, tier, seed, c["scenarios"], c["simulated_runs"], c["evaluations"], c["distinct_nontrivial"], c["distinct_interleavings"],
            sum(st.fired.values()), c["inconclusive_runs"], " (time limit reached)" if sm["capped"] else "", wall))
        if sm["dead"]:
            print("warning: %d workers ended early" % sm["dead"])
    return code


def write_replay(mod, prop, scn, viol):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    body = {"format": 1, "property": prop, "violation": viol["msg"][:4000], "sig": viol["sig"], "scenario": scn}
    data = json.dumps(body, indent=1, sort_keys=True)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(data.encode()).hexdigest()[:10]))
    with controller._real_open(path, "w", encoding="utf-8") as f:
        f.write(data + "\n")
    return path


def replay(path):
    with controller._real_open(path, encoding="utf-8") as f:
        body = json.load(f)
    hs = body["scenario"].get("hashseed")
    if hs is not None and os.environ.get("PYTHONHASHSEED") != str(hs):
        os.execve(sys.executable, [sys.executable, os.path.join(HERE, "run.py"), "--replay", path], dict(os.environ, PYTHONHASHSEED=str(hs), SIMFORA_REEXEC="1"))
    mod = module(body["property"])
    controller.boot()
    viol, known, _ = judge(mod, body["scenario"])
    hit = [v for v in viol if v["sig"] == body["sig"]] or viol
    if hit:
        print("%s: %s" % (body["property"], hit[0]["msg"][:3000]))
        print("VIOLATION property=%s replay=%s" % (body["property"], path))
        return 1
    print("replay of %s: no violation%s" % (path, " (known finding)" if known else ""))
    return 0
