"""C01: data to and from a host arrives byte-exact whatever the stream does."""
from simfora import calls, common, faults, gen, runner, scen

PROP = "C01"
QUICK = 1200
THOROUGH = 60000
RULE = ("random sequences of connection calls (upload, download, run with input and output, stat, account queries, environment) with empty, binary, boundary-sized, multi-megabyte and non-UTF-8 data, "
        "over streams that split, merge, delay, partially accept and have buffers of 1 byte to 1 MiB; every answer and every effect is compared byte for byte with the simulated host, and a deadlock is a "
        "violation. Distinct and non-trivial: distinct (call, arguments, stream policy)")
ASSUME = ["runs that exceed the step bound without being deadlocked are inconclusive"]


def generate(rng, index, tier):
    big = rng.random() < 0.04
    user = "root" if rng.random() < 0.93 else "alice"
    addr, scn = calls.program(rng, n=(1, 3) if big else (3, 10), user=user, big=big, bad=0.06)
    if rng.random() < 0.25:
        prof = faults.profile(scn)
        faults.sprinkle(rng, scn, prof, {"hold": 3, "clock": 1}, addr, 1)
    return scn


def evaluate(scn):
    res = scen.run(scn)
    if not scen.ok(res, hang=True):
        raise scen.Inconclusive(str(res.get("unsupported") or res["exit"]))
    out, keys = [], []
    if res["exit"] == "hang":
        if "step" in str(res.get("hang")):
            raise scen.Inconclusive("step bound")
        last = next((e for e in reversed(res["events"]) if e["op"].split(".")[0] in ("conn", "ctor")), None)
        out.append(common.v("deadlock", "no progress is possible: %s during %s" % (res["hang"], last and (last["op"], str(last["kw"])[:200]))))
    if res["exit"] == "cpuhang":
        out.append(common.v("cpuhang", "the run never ends"))
    root = scn["login"] == "root"
    evs = calls.events(res)
    for ev in evs:
        if not root and (ev.get("exc") or ev["op"].endswith(".run")):
            continue
        p = calls.judge(ev, ev["before"], scn["login"])
        if p is None:
            p = calls.effects(ev, ev["before"], ev["after"], res["execlog"][ev["addr"]][ev["m0"]["ex"]:ev["m1"]["ex"]])
        if p is not None:
            out.append(common.v("exact:%s" % ev["op"], "%s(%s): %s" % (ev["op"], str(ev["kw"])[:300], p)))
        keys.append(common.key(ev["op"], ev["kw"], scn["policy"]))
    if res["exit"] == "exc" and not out:
        out.append(common.v("session", "a run without faults ended with %s: %s" % (res["exc"]["type"], res["exc"]["msg"][:300])))
    return {"viol": out, "evals": len(evs), "keys": keys, "sample": common.sample(scn, res, evs) if evs else None}
