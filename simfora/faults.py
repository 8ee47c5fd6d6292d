"""Chooses fault positions from a fault-free profile of the same scenario."""
import errno as E

from . import scen

ERRNOS = {"open": [E.EACCES, E.ENOSPC, E.EROFS, E.EIO, E.EMFILE, E.EDQUOT], "write": [E.ENOSPC, E.EIO, E.EDQUOT], "read": [E.EIO],
          "stat": [E.EACCES, E.EIO, E.ELOOP], "fstat": [E.EIO], "chown": [E.EPERM, E.EROFS, E.EIO, E.EDQUOT], "chmod": [E.EPERM, E.EROFS, E.EIO],
          "mkdir": [E.ENOSPC, E.EACCES, E.EROFS, E.EMLINK], "unlink": [E.EACCES, E.EROFS, E.EIO, E.EBUSY], "rmdir": [E.EBUSY, E.EACCES, E.EIO],
          "symlink": [E.ENOSPC, E.EROFS], "rename": [E.ENOSPC, E.EIO], "link": [E.EIO], "utime": [E.EPERM, E.EROFS], "getdents": [E.EIO],
          "readlink": [E.EIO, E.EACCES], "fork": [E.EAGAIN, E.ENOMEM], "exec": [E.ENOMEM, E.E2BIG, E.EACCES], "setresuid": [E.EPERM, E.EAGAIN],
          "setresgid": [E.EPERM], "setgroups": [E.EPERM], "chdir": [E.EACCES, E.EIO], "fsync": [E.EIO], "truncate": [E.EIO], "access": [E.EIO],
          "close": [E.EIO], "acctlock": [E.EAGAIN, E.EIO], "acct": [E.ENOSPC, E.EIO], "pkgdb": [E.EIO], "pkg": [E.ENOSPC, E.EIO], "svcdb": [E.EIO],
          "svc": [E.EIO], "gitnet": [E.EIO]}
MUTATING = {"open", "write", "chown", "chmod", "mkdir", "unlink", "rmdir", "symlink", "rename", "link", "utime", "truncate", "fsync", "acct", "pkg", "svc", "close"}


def profile(scn, **over):
    """The fault-free twin of a scenario with its system-call log."""
    res = scen.run(scn, faults=False, profile=True, **over)
    if not scen.ok(res):
        raise scen.Inconclusive("profile: %s %s" % (res["exit"], res.get("unsupported") or res.get("hang")))
    return res


def op_tags(prof):
    return {e["i"] for e in prof["events"] if e.get("m1") is not None}


def pick_sys(rng, prof, addr, only=None, kind=None, tags=None, mutating=0.5):
    """One entry of the system-call log: first a call name, then one of its occurrences."""
    log = prof["syslog"][addr]
    c = [s for s in log if (tags is None or s[4] in tags) and s[1] != "nss" and (only is None or s[1] in only) and (kind is None or s[2] == kind)]
    if not c:
        return None
    if rng.random() < mutating:
        m = [s for s in c if s[1] in MUTATING]
        c = m or c
    names = sorted({s[1] for s in c})
    nm = rng.choice(names)
    return rng.choice([s for s in c if s[1] == nm])


def add(rng, scn, prof, kind, addr, tags=None):
    """Adds one fault of the given kind to the scenario. Returns True if there was a place for it."""
    hf = scn["hosts"][addr].setdefault("faults", [])
    if kind in ("errno", "kill", "crash", "power", "after", "short", "killmid", "powermid", "derrno"):
        only = None
        who = None
        if kind in ("short", "killmid", "powermid"):
            only = {"write"}
        if kind == "derrno":
            who = "dispatcher"
        s = pick_sys(rng, prof, addr, only=only, kind=who, tags=tags)
        if s is None:
            return False
        f = {"k": "sys-" + s[1], "sys": s[0], "do": "errno" if kind == "derrno" else kind}
        if f["do"] == "errno":
            f["errno"] = rng.choice(ERRNOS.get(s[1], [E.EIO]))
        if kind in ("short", "killmid", "powermid"):
            f["frac"] = rng.choice([0.0, 0.1, 0.5, 0.9])
        hf.append(f)
        return True
    if kind in ("cmdsig", "cmderrno", "cmdexit", "cmdlate"):
        n = prof["ncmd"][addr]
        if not n:
            return False
        idx = [x["cmd"] for x in prof["execlog"][addr] if tags is None or x["tag"] in tags]
        if not idx:
            return False
        f = {"k": "cmd", "cmd": rng.choice(idx), "at": rng.choice([0, 0, 1, 1, 2, 3, 5, 8])}
        if kind == "cmdsig":
            f.update(do="sig", sig=rng.choice([9, 9, 15, 6, 11]))
        elif kind == "cmderrno":
            f.update(do="errno", errno=rng.choice([E.ENOSPC, E.EIO, E.EACCES, E.ENOMEM, E.EROFS]))
        elif kind == "cmdexit":
            f.update(do="exit", rc=rng.choice([1, 2, 3, 127, 255]))
        else:
            f.update(do="late", rc=rng.choice([1, 4, 100]))
        hf.append(f)
        return True
    ses = [e for e in prof["events"] if e.get("m1") and e.get("addr") == addr and (tags is None or e["i"] in tags)]
    infos = [s for s in prof["sessions"] if s["addr"] == addr]
    if not infos:
        return False
    sf = scn.setdefault("session_faults", [])
    if kind in ("cut", "hold"):
        d = rng.choice(["req", "resp"])
        if ses and rng.random() < 0.85:
            e = rng.choice(ses)
            lo, hi = e["m0"][d], e["m1"][d]
            si = e["session"]
        else:
            s = rng.choice(infos)
            lo, hi, si = 0, s[d][0], s["index"]
        at = rng.randint(lo, max(lo, hi))
        f = {"k": "stream", "do": kind, "session": si, "dir": d, "at": at}
        if kind == "hold":
            f["secs"] = rng.choice([0.5, 30, 4000])
        sf.append(f)
        return True
    if kind == "popen":
        sf.append({"k": "popen", "do": "popen", "session": rng.choice(infos)["index"], "errno": rng.choice([E.ENOENT, E.EAGAIN, E.ENOMEM, E.EACCES, E.EMFILE])})
        return True
    if kind == "nostart":
        f = {"k": "nostart", "do": "nostart", "session": rng.choice(infos)["index"], "rc": rng.choice([0, 1, 127, 255])}
        if rng.random() < 0.5:
            f["hex"] = rng.choice([b"", b"\x00", b"\x00\x00\x00", b"bash: python3: command not found\n", b"Permission denied\n", bytes(8), b"\xff" * 12]).hex()
        sf.append(f)
        return True
    if kind == "mute":
        sf.append({"k": "mute", "do": "mute", "session": rng.choice(infos)["index"], "hex": rng.choice([b"", b"", b"bash: python3: command not found\n", b"Welcome to the machine\n" * 9, b"\xff" * 12]).hex()})
        return True
    if kind in ("kbd", "ctlkill"):
        lo = ses[0]["m0"]["ctl"] if ses and rng.random() < 0.8 else 1
        p = rng.randint(lo, max(lo, prof["ctl_points"]))
        if kind == "kbd":
            scn.setdefault("kbd", []).append(p)
        else:
            scn["ctlkill"] = p
        return True
    if kind == "clock":
        scn.setdefault("clock", []).append([rng.randint(1, max(1, prof["steps"])), rng.choice([-86400.0, -3.0, 3600.0, 1e6])])
        return True
    if kind == "local":
        used = []
        def walk(ops):
            for o in ops:
                k = (o.get("kw") or {}).get("src")
                if k and o["op"].startswith("files."):
                    used.append((o["op"], k[3:] if k.startswith("../") else k))
                walk(o.get("body", ()))
        for ops in scn["programs"].values():
            walk(ops)
        if not used:
            return False
        op, p = rng.choice(used)
        do = rng.choice(["open", "read"])
        if op == "files.upload_dir":
            inner = [f for f in scn["files"] if f.startswith(p + "/")]
            if rng.random() < 0.6 or not inner:
                do = "scandir"
                ds = {p}
                for f in inner:
                    while f.rstrip("/") != p:
                        f = f.rstrip("/").rsplit("/", 1)[0]
                        ds.add(f)
                    ds.add(p)
                p = rng.choice(sorted(ds))
            else:
                fl = [f for f in inner if not f.endswith("/")]
                if not fl:
                    return False
                p = rng.choice(fl)
        f = {"k": "local", "do": do, "path": p, "errno": rng.choice([E.EACCES, E.EIO])}
        if do == "read":
            f["after"] = rng.choice([0, 1, 3, 100])
        scn.setdefault("local_faults", []).append(f)
        return True
    raise AssertionError(kind)


def sprinkle(rng, scn, prof, weights, addr, count=1, tags=None):
    kinds = [k for k, w in weights.items() for _ in range(w)]
    n = 0
    for _ in range(count):
        for _ in range(4):
            if add(rng, scn, prof, rng.choice(kinds), addr, tags):
                n += 1
                break
    return n
