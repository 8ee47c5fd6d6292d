"""C16: contents are never exposed beyond the declared permissions."""
from simfora import common, faults, gen, model, runner, scen

PROP = "C16"
QUICK = 3200
THOROUGH = 60000
RULE = ("random deploys of file operations over old and new objects with varied modes, owners, umasks and defaults, 60% with faults (errors, killed commands, crashes, cut streams) so that "
        "error paths are taken too; the invariant is evaluated after every single modification of the simulated file system that an operation causes. Evaluations: "
        "modifications judged. Distinct and non-trivial: distinct (operation, call, previous mode, declared mode, mode, fault) of a judged modification")
WEIGHTS = {"errno": 6, "derrno": 4, "cmdsig": 4, "cmderrno": 2, "cmdexit": 2, "short": 2, "killmid": 2, "kill": 2, "crash": 1, "cut": 1, "kbd": 1}
KINDS = ["upload_content", "upload_content", "upload", "template_content", "template", "upload_dir", "file", "file", "directory", "line"]
MASK = 0o6077


def generate(rng, index, tier):
    user = "root" if rng.random() < 0.93 else "alice"
    addr, scn = gen.deploy(rng, fam=("files",), n=(1, 3), user=user, catch=0.4, attr_p=rng.choice([0.3, 0.6, 0.9]), kinds=KINDS, bad=0.02)
    spec = scn["hosts"][addr]["spec"]
    for t in spec["tree"]:
        # strict previous modes make a transient widening visible
        if t[1] in ("file", "dir") and t[0].count("/") > 1 and t[0] != "/home/alice" and rng.random() < 0.4:
            t[2] = rng.choice([0o600, 0o700, 0o400, 0o640, 0o4700, 0o2710, 0o6711])
    if rng.random() < 0.6:
        prof = faults.profile(scn)
        faults.sprinkle(rng, scn, prof, WEIGHTS, addr, rng.choice([1, 1, 2]))
    return scn


class Obj:
    __slots__ = ("prev", "decl", "uid", "gid", "new", "type", "inherit", "seen")

    def __init__(self, prev, decl, uid, gid, new, type_):
        self.prev, self.decl, self.uid, self.gid, self.new, self.type = prev, decl or 0, uid, gid, new, type_
        self.inherit = 0
        self.seen = prev


def judge(ev, scn, muts, out, keys):
    """Returns the number of modifications judged."""
    before = ev["before"]
    its = model.items(ev, scn["files"])
    if not its:
        return 0
    umask = int(ev["eff"]["umask"], 8)
    line = its[0].line
    byino, bypath = {}, {}
    for it in its:
        if it.type == "link" or not it.present:
            continue
        n = before.get(it.path)
        if n is not None:
            if n.type != it.type:
                continue
            byino[n.ino] = Obj(n.mode, None if line is not None else it.mode, it.uid, it.gid, False, it.type)
        else:
            o = Obj(0, it.mode, it.uid, it.gid, True, it.type)
            bypath[model.norm(it.path)] = bypath[model.real(before, it.path)] = o
    decl = {t: 0 for t in ("file", "dir")}
    prev = {t: 0 for t in ("file", "dir")}
    for it in its:
        if it.type in decl:
            if line is None or before.get(it.path) is None:
                decl[it.type] |= it.mode or 0
            n = before.get(it.path)
            if n is not None and n.type == it.type:
                prev[it.type] |= n.mode
    judged = 0
    for m in muts:
        if m.get("ino") is None or m["type"] not in ("file", "dir") or m["call"] in ("unlink", "rmdir"):
            continue
        o = byino.get(m["ino"])
        if o is None and m["call"] in ("create", "mkdir", "rename", "link"):
            o = bypath.get(m["path"])
            if o is None or o.type != m["type"]:
                # a temporary object or a backup: whatever it stands for
                it = its[0]
                o = Obj(prev[m["type"]], decl[m["type"]], it.uid, it.gid, True, m["type"])
                if line is not None and ev["kw"].get("backup"):
                    n = before.get(it.path)
                    if n is not None:
                        o.uid, o.gid = n.uid, n.gid
            byino[m["ino"]] = o
            if m["call"] == "mkdir":
                o.inherit = m["mode"] & 0o2000
        if o is None:
            continue                     # not an object of this operation (C10 judges that)
        judged += 1
        allowed = o.prev | o.decl | o.inherit
        if o.new and (o.type == "dir" or m["size"] == 0):
            allowed |= (0o777 if o.type == "dir" else 0o666) & ~umask
        over = m["mode"] & MASK & ~allowed
        if over:
            out.append(common.v("exposed:%s" % ev["op"], "%s: after %s of %r it has mode %o (previous %s, declared %o, umask %o)%s" % (
                common.short(ev), m["call"], m["path"], m["mode"], "none" if o.new else "%o" % o.prev, o.decl, umask, " and holds data" if m["size"] else "")))
        grant = m["mode"] & 0o6000 & ~(o.prev | o.inherit)
        if grant & 0o4000 and m["uid"] != o.uid or grant & 0o2000 and m["gid"] != o.gid and not (o.type == "dir" and o.inherit):
            out.append(common.v("setid:%s" % ev["op"], "%s: after %s of %r the set-id mode %o is in force under %d:%d instead of %r:%r" % (
                common.short(ev), m["call"], m["path"], m["mode"], m["uid"], m["gid"], o.uid, o.gid)))
        keys.append(common.key(ev["op"], m["call"], o.prev, o.decl, m["mode"], umask, bool(m["size"])))
    return judged


def evaluate(scn):
    res = scen.run(scn)
    if not scen.ok(res):
        raise scen.Inconclusive(str(res.get("unsupported") or res["exit"]))
    out, keys = [], []
    n = 0
    evs = [e for e in res["events"] if e["op"].startswith("files.") and (e.get("done") or e.get("killed")) and "before" in e]
    for ev in evs:
        last = common.dead_at(ev) or not ev.get("done")
        muts = res["mutlog"][ev["addr"]][ev["m0"]["mut"]:None if last else ev["m1"]["mut"]]
        n += judge(ev, scn, muts, out, keys)
        if last:
            break
    return {"viol": out, "evals": n, "keys": keys, "sample": common.sample(scn, res) if n else None}
