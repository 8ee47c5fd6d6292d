"""C18: the report tells the truth, and reporting more or less changes nothing."""
import copy
import re

from simfora import common, faults, gen, model, runner, scen

PROP = "C18"
QUICK = 2200
THOROUGH = 50000
RULE = ("random deploys of every operation family (45% with faults: errors, failing or killed commands, cut streams, local errors), performed once with bare options and once with random output options "
        "(-v to -vvv, --diff, --debug, --no-changes, --no-color, terminal or not) from the same state, with the same faults unless a diff is requested: connections, executed commands, modifications, final "
        "host state, results, exceptions and exit must be the same. In the second run the output of every operation is compared with its result: failures are shown with their message, "
        "successes never as failures, its title names what it is about and whether it is a dry run, changed values with old and new value, diffs are applied to the old content and must give the new one, output of failed commands is shown, and without "
        "colour no escape sequence is printed. Distinct and non-trivial: distinct (operation, options, output) in which something changed or failed")
WEIGHTS = {"errno": 4, "derrno": 2, "cmdsig": 2, "cmderrno": 2, "cmdexit": 5, "cmdlate": 1, "cut": 2, "kill": 1, "local": 2}
TMP = re.compile("(?<=/)Cu[0-9A-Za-z]{6}$")
ANSI = re.compile("\x1b\\[[0-9;]*m")


def generate(rng, index, tier):
    fam = rng.choice([("files",), ("files",), ("files",), ("acct",), ("pkg",), ("svc",), ("git",), ("acct", "files", "pkg", "svc", "git")])
    user = "root" if rng.random() < 0.93 else "alice"
    addr, scn = gen.deploy(rng, fam=fam, n=rng.choice([(1, 1), (1, 3), (2, 5)]), user=user, catch=0.5, opts=False)
    for ops in scn["programs"].values():
        for op in ops:
            for o in op.get("body", [op]):
                if (o.get("kw") or {}).get("backup") is True:
                    o["kw"]["backup"] = "saved.bak"         # the other name contains the time
                if "kw" in o and o["op"].split(".")[0] in common.OPMODS and rng.random() < 0.2:
                    o["kw"]["check"] = False
    opts = []
    for o, p in ((rng.choice(["-v", "-vv", "-vvv", "--verbose"]), 0.45), ("--diff", 0.4), ("--debug", 0.3), ("--no-changes", 0.2), ("--no-color", 0.4), ("--dry", 0.15)):
        if rng.random() < p:
            opts.append(o)
    rng.shuffle(opts)
    scn["argv"] = [a for a in scn["argv"] if a != "--no-color"]
    scn["opts"] = opts
    scn["tty"] = rng.random() < 0.4
    if rng.random() < 0.45 and "--diff" not in opts:
        faults.sprinkle(rng, scn, faults.profile(scn), WEIGHTS, addr, rng.choice([1, 1, 2]))
    return scn


def esc(data):
    out = []
    for c in data.decode("utf-8", "backslashreplace"):
        n = ord(c)
        out.append({"\0": "\\0", "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(c) or ("\\x%02x" % n if not c.isprintable() and n <= 0xff else c))
    return "".join(out)


def esclines(data):
    return [] if data is None else [esc(x) for x in data.split(b"\n")]


HUNK = re.compile(r"^@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@$")


def patch(old, diff):
    """Applies unified diff lines to a list of lines; None if they do not fit."""
    out, pos, i = [], 0, 0
    while i < len(diff):
        m = HUNK.match(diff[i])
        if not m:
            return None
        start, cnt = int(m.group(1)), int(m.group(2) or 1)
        start = start - 1 if cnt else start
        if start < pos:
            return None
        out += old[pos:start]
        pos = start
        i += 1
        while i < len(diff) and not HUNK.match(diff[i]):
            tag, txt = diff[i][:1], diff[i][1:]
            if tag in (" ", "-"):
                if pos >= len(old) or old[pos] != txt:
                    return None
                pos += 1
                if tag == " ":
                    out.append(txt)
            elif tag == "+":
                out.append(txt)
            else:
                return None
            i += 1
    return out + old[pos:]


def shown(v):
    return v.hex() if isinstance(v, bytes) else str(v)


def content_of(st, path):
    p = model.real(st, path)
    n = st.get(p)
    return bytes(n.data) if n is not None and n.type == "file" else None


def report(scn, res, ev, opts, out):
    """Compares the output of one operation with what it returned."""
    text = ANSI.sub("", ev.get("out") or "")
    nested = ev["op"] == "files.upload_dir"
    # an operation overwrites its preliminary title; whatever follows the last title is its report
    final = text.rpartition("\r")[2]
    title, _, body = final.partition("\n")
    ret, exc = ev.get("ret"), ev.get("exc")
    if exc is None and not isinstance(ret, dict):
        return
    if "\r" not in text and not nested:
        if exc is None:
            out.append(common.v("silent:%s" % ev["op"], "nothing was printed about %s" % common.short(ev)))
        elif "Exception" in exc["mro"] and ev["op"] not in ("system.package", "system.service"):      # these hand over to another operation
            out.append(common.v("silent:%s" % ev["op"], "%s, but no failure was reported" % common.short(ev)))
        return
    if any(c in str(p) for p in (ev["kw"].get("path"), ev["kw"].get("dest"), ev["kw"].get("name"), ev["kw"].get("src")) if p for c in "\n\r"):
        return                                              # titles of several lines
    if not nested and (exc is None or "CalledProcessError" in exc["mro"] or "OperationError" in exc["mro"]):
        named(ev, title, out)
    if exc is not None or not ret["success"]:
        msg = ANSI.sub("", str(exc["msg"] if exc is not None else ret["msg"]))
        own = exc is None or "Exception" in exc["mro"]
        if own and not nested and "\n" not in msg and "\r" not in msg and msg not in body:
            out.append(common.v("failure-hidden:%s" % ev["op"], "%s, but the output does not say so: %r" % (common.short(ev), text[-300:])))
        if exc is not None and "CalledProcessError" in exc["mro"]:
            err = ev.get("err") or ""
            for k in ("stdout", "stderr"):
                s = (exc.get(k) or b"").decode("utf-8", "backslashreplace")
                if s.strip() and s not in err:
                    out.append(common.v("output-hidden:%s" % k, "%s, but what the command printed on %s is not shown: %r" % (common.short(ev), k, s[:200])))
        return
    if nested:
        return
    if "--no-changes" in opts:
        if body.strip():
            out.append(common.v("changes-shown", "changes are printed although --no-changes was given: %r" % body[:200]))
        return
    verbose = any(o.startswith("-v") or o in ("--verbose", "--debug") for o in opts)
    lines = [x.strip() for x in body.split("\n")]
    info = lines[0] if lines else ""
    ini, fin = ret["initial"], ret["final"]
    simple = all("\n" not in shown(x) and "\r" not in shown(x) for x in list(ini.values()) + list(fin.values()))
    if simple and verbose:
        for k, f in fin.items():
            if f is None or k not in ini:
                continue
            i = ini[k]
            want = "%s: %s" % (k, shown(f)) if i is None or i == f else "%s: %s \u2192 %s" % (k, shown(i), shown(f))
            if want not in info:
                out.append(common.v("change-hidden:%s" % k, "%s: %r is reported as %r" % (common.short(ev), want, info[:400])))
    elif simple:
        for k, f in fin.items():
            if f is None or k not in ini:
                continue
            has = (k + ":") in info if len(k) <= 12 else True
            if has != (ini[k] != f) and len(k) <= 12 and not any(k + ":" in shown(x) for x in list(ini.values()) + list(fin.values())):
                out.append(common.v("change-hidden:%s" % k, "%s: %r went from %r to %r, reported as %r" % (common.short(ev), k, ini[k], f, info[:300])))
    if ret["changed"] and not info and simple:
        out.append(common.v("change-hidden:all", "%s, but no change is shown: %r" % (common.short(ev), text[-200:])))
    if not ret["changed"] and not verbose and info:
        out.append(common.v("change-invented", "%s, but the output shows changes: %r" % (common.short(ev), info[:300])))
    if "--diff" in opts and ev["op"] in ("files.upload_content", "files.upload", "files.template_content", "files.template", "files.line"):
        diffs(scn, ev, body, out)


def named(ev, title, out):
    """The line about an operation says what it is about."""
    kw = ev["kw"]
    wanted = [kw[k] for k in ("path", "dest", "user", "service") if k in kw] or ([kw["group"]] if ev["op"] == "system.group" else [])
    wanted += kw.get("packages") or []
    if kw.get("name"):
        wanted.append("(%s)" % kw["name"])
    if ev.get("dry"):
        wanted.append("(dry)")
    for w in wanted:
        if isinstance(w, str) and w.isprintable() and "'" not in w and "\\" not in w and ANSI.sub("", w) not in title:
            out.append(common.v("unnamed:%s" % ev["op"], "%s is reported as %r, which does not say %r" % (common.short(ev), title, w)))
    if not ev.get("dry") and " (dry) " in title and not any("(dry)" in str(v) for v in kw.values()):
        out.append(common.v("claims-dry:%s" % ev["op"], "%s was performed, but is reported as %r" % (common.short(ev), title)))


def diffs(scn, ev, body, out):
    it = (model.items(ev, scn["files"]) or [None])[0]
    if it is None:
        return
    old = content_of(ev["before"], it.path)
    new = content_of(ev["after"], it.path) if not ev.get("dry") else None
    lines = []
    for x in body.split("\n"):
        m = re.match(r"^\s*[\u2502\u2514\u251c] (.*)$", x, re.S)
        lines.append(m.group(1) if m else None)
    head = next((i for i, x in enumerate(lines) if x is not None and x and set(x) == {"\u2500"}), None)
    if head is None:
        if new is not None and old != new:
            out.append(common.v("diff-missing:%s" % ev["op"], "%s changed the content of %r, but --diff shows nothing" % (common.short(ev), it.path)))
        return
    if new is None:
        return
    if old == new:
        out.append(common.v("diff-invented:%s" % ev["op"], "%s did not change the content of %r, but a diff is shown" % (common.short(ev), it.path)))
        return
    title = lines[head + 1] or ""
    word = "created" if old is None else "modified"
    if not title.startswith(word + ": "):
        out.append(common.v("diff-title:%s" % ev["op"], "%s %s %r, but the diff says %r" % (common.short(ev), word, it.path, title)))
    rest = lines[head + 3:]
    # lines of the diff may continue after unusual line separators only; blank output ends it
    got = patch(esclines(old), [x for x in rest if x is not None])
    if got != esclines(new):
        out.append(common.v("diff-wrong:%s" % ev["op"], "%s: the diff shown for %r does not lead from the old to the new content: %r; old %r new %r" % (
            common.short(ev), it.path, [x for x in rest if x is not None][:8], (old or b"")[:80], new[:80])))


def view(res):
    evs = []
    for e in res["events"]:
        if e["op"].startswith("#"):
            continue
        x = e.get("exc")
        evs.append((e["op"], e.get("done"), e.get("ret") if common.is_op(e) else None, (x["type"], x["msg"], x.get("errno"), x.get("returncode")) if x else None))
    return evs


def effects(res, h, anyorder):
    """Modifications; a write may take any number of steps."""
    out = []
    for m in res["mutlog"][h]:
        x = (m["call"], TMP.sub("<temporary link>", m["path"]))
        if not (x[0] == "write" and out and out[-1] == x):
            out.append(x)
    # requesting diffs adds downloads, after which a directory may be listed in another order
    return sorted(out) if anyorder else out


def evaluate(scn):
    out, keys = [], []
    dry = "--dry" in scn["opts"]
    # a real deploy runs with the bare options; --dry is not an output option and is given to both
    bare = copy.deepcopy(scn)
    bare["argv"] = (["--dry"] if dry else []) + scn["argv"]
    a = scen.run(bare)
    loud = copy.deepcopy(scn)
    loud["argv"] = scn["opts"] + scn["argv"]
    b = scen.run(loud, output=True, tty=scn.get("tty"))
    for r in (a, b):
        if not scen.ok(r):
            raise scen.Inconclusive(str(r.get("unsupported") or r["exit"]))
    opts = scn["opts"]
    what = " ".join(opts) or "a terminal"
    ea, eb = view(a), view(b)
    for x, y in zip(ea, eb):
        if x != y:
            out.append(common.v("result:%s" % x[0], "with %s, %s gives %s instead of %s" % (what, x[0], repr(y[1:])[:300], repr(x[1:])[:300])))
            break
    if not out and len(ea) != len(eb):
        out.append(common.v("events", "with %s, %d steps of the deploy are performed instead of %d" % (what, len(eb), len(ea))))
    if (a["exit"], a["code"]) != (b["exit"], b["code"]) or (a.get("exc") or {}).get("type") != (b.get("exc") or {}).get("type"):
        out.append(common.v("exit", "with %s, the run ends with %s %s %s instead of %s %s %s" % (what, b["exit"], b["code"], b.get("exc"), a["exit"], a["code"], a.get("exc"))))
    if a["host_connections"] != b["host_connections"]:
        out.append(common.v("connections", "with %s, other connections are made: %r instead of %r" % (what, b["host_connections"], a["host_connections"])))
    for h in scn["hosts"]:
        ca, cb = [x["argv"] for x in a["execlog"][h]], [x["argv"] for x in b["execlog"][h]]
        if ca != cb:
            i = next((i for i, (x, y) in enumerate(zip(ca, cb)) if x != y), min(len(ca), len(cb)))
            out.append(common.v("commands", "with %s, other commands are executed: %r instead of %r" % (what, cb[i:i + 1], ca[i:i + 1])))
        ma, mb = effects(a, h, "--diff" in opts), effects(b, h, "--diff" in opts)
        if ma != mb and not out:
            i = next((i for i, (x, y) in enumerate(zip(ma, mb)) if x != y), min(len(ma), len(mb)))
            out.append(common.v("effects", "with %s, the host is modified differently: %r instead of %r" % (what, mb[i:i + 1], ma[i:i + 1])))
        d = model.diff(a["world"][h], b["world"][h])
        if d and not out:
            out.append(common.v("state:%s" % d[0][0], "with %s, the host ends differently: %r is %r instead of %r" % (what, d[0][1], d[0][3], d[0][2])))
    n = 1
    for ev in common.ops(b):
        n += 1
        ev["dry"] = dry
        report(scn, b, ev, opts, out)
        r = ev.get("ret")
        if ev.get("exc") or not r["success"] or r["changed"]:
            keys.append(common.key(ev["op"], ev["kw"], sorted(opts), r and (r["initial"], r["final"]), ev.get("exc") and ev["exc"]["msg"]))
    if ("--no-color" in opts or not scn.get("tty")) and "\x1b" in ANSI_own(b, scn):
        i = b["stdout"].index("\x1b")
        out.append(common.v("colour", "with %s, escape sequences are printed: %r" % (what, b["stdout"][max(0, i - 30):i + 60])))
    return {"viol": out, "evals": n, "keys": keys, "sample": common.sample(loud, b)}


def ANSI_own(res, scn):
    """The output, unless escape sequences can come from the data itself."""
    return "" if "1b" in repr(scn) or "\x1b" in repr(scn) or "\\x1b" in repr(scn) else res["stdout"]
