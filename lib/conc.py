"""Overlapping requests (C17): histories recorded under drawn schedules and
under the race detector, judged by Lin.tla."""
import concurrent.futures as cf
import itertools
import json
import os
import re
import subprocess

import common
import core
from common import Broken, CORES, tlc, violation

PER = 150        # histories per process
SYS = 15         # batches per process that are put under every schedule


def drive(ctx, exe, name, seed, first, n, free, scripts=None):
    """Returns (full, tlc, races) of one process."""
    prefix = os.path.join(ctx.tmp, name)
    e = common.go_env()
    e.update(DRV_MODE="conc", DRV_OUT=prefix, DRV_SEED=str(seed), DRV_FIRST=str(first), DRV_N=str(n), DRV_STALL="20",
             GOMAXPROCS="8" if free else "2", GOTRACEBACK="single", GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
    if free:
        e["DRV_FREE"] = "yes"
    if scripts:
        e["DRV_SCRIPTS"] = scripts
    try:
        p = subprocess.run([exe, "-test.run", "^TestConc$", "-test.timeout", "500s"], cwd=ctx.tmp, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=560)
    except subprocess.TimeoutExpired:
        raise Broken("driver %s ran out of time" % name)
    text = p.stdout.decode(errors="replace")
    full, tl = core._lines(prefix + ".full"), core._lines(prefix + ".tlc")
    k = min(len(full), len(tl))
    full, tl = full[:k], tl[:k]
    died = []
    if scripts:
        m = re.search(r"^SCRIPTS (\d+) (\d+)", text, re.M)
        if m:
            ctx.count("systematic_schedules", int(m.group(1)))
            ctx.coverage["most_switch_points"] = max(int(m.group(2)), ctx.coverage.get("most_switch_points", 0))
        elif p.returncode == 0:
            raise Broken("driver %s:\n%s" % (name, text[-3000:]))
    elif p.returncode == 0 and k != n or p.returncode == 7 and k == 0:
        raise Broken("driver %s recorded %d of %d histories:\n%s" % (name, k, n, text[-3000:]))
    if p.returncode not in (0, 7):
        notes = core._lines(prefix + ".note")
        if not notes:
            raise Broken("driver %s died without a trace:\n%s" % (name, text[-3000:]))
        last = json.loads(notes[-1])
        died.append((last["full"], text))
    return full, tl, died


def schedules(ctx):
    """Model checking of the lock design (Conc.tla), and the schedules that the
    real requests are then put under."""
    for parts, gates, switches in [(2, 8, 3), (3, 5, 2)] if ctx.thorough else [(2, 6, 2), (3, 4, 2)]:
        r = common.check_model(ctx, "Conc", "Conc.cfg",
                               {"PARTS": parts, "GATES": gates, "SWITCHES": switches, "EMIT": "no"}, 2, 600,
                               "%d overlapping requests, %d switch points, %d preemptions" % (parts, gates, switches))
        if not any(x["x"] == "HARM" and x["t"] > 1 for x in r.lines):
            raise Broken("the schedules of Conc.tla tell no difference between the designs")
    res = []
    for parts, gates, switches in [(2, 14, 2), (3, 12, 1), (3, 6, 2)] if ctx.thorough else [(2, 10, 2), (3, 10, 1)]:
        r = tlc(ctx, "Conc", "Conc.cfg", {"PARTS": parts, "GATES": gates, "SWITCHES": switches, "EMIT": "yes"}, workers=2)
        if "Model checking completed. No error has been found." not in r.text:
            raise Broken("schedules:\n" + r.text[-2000:])
        res += [{"parts": parts, "s": [[p - 1, n] for p, n in x["s"]]} for x in r.lines if x["x"] == "SCHEDULE"]
    res = [json.loads(x) for x in sorted({json.dumps(x, sort_keys=True) for x in res})]
    ctx.count("generated_schedules", len(res))
    p = os.path.join(ctx.tmp, "schedules.json")
    with open(p, "w") as f:
        json.dump(res, f)
    return p


def is_race(text):
    """Both accesses of a reported race happen inside the library."""
    m = re.search(r"WARNING: DATA RACE\n(.*?)\n==================", text, re.S)
    if not m:
        return None
    parts = re.split(r"\n\n", m.group(1))
    acc = [x for x in parts if re.match(r"\s*(Previous )?([Rr]ead|[Ww]rite|atomic)", x.strip())]
    return len(acc) >= 2 and all("256dpi/oauth2" in x for x in acc[:2])


def judge(ctx, tlcs, name, workers=CORES):
    """Indices of the histories that no order explains, and how far it got."""
    if not tlcs:
        return {}
    p = os.path.join(ctx.tmp, name + ".judge")
    with open(p, "w") as f:
        f.write("\n".join(tlcs) + "\n")
    r = tlc(ctx, "Lin", "Lin.cfg", {"TRACES": p}, workers=workers, timeout=800)
    os.unlink(p)
    ctx.count("states", r.distinct)
    ctx.count("transitions", r.generated)
    if "Model checking completed. No error has been found." not in r.text:
        raise Broken("judge of overlapping requests:\n" + r.text[-2000:])
    far, end = {}, set()
    for x in r.lines:
        t = x["t"] - 1
        far[t] = max(far.get(t, 0), x["i"])
        if x["x"] == "END":
            end.add(t)
    return {t: far.get(t, 0) for t in range(len(tlcs)) if t not in end}


def answer(t, o):
    """An answer without the names that the driver made up."""
    m = {}
    for k, v in o.items():
        if k in ("bytes", "grew"):
            continue
        if k in ("acc", "act", "scope", "keys", "hd"):
            v = sorted(name(t, x) for x in v or [])
        elif isinstance(v, str):
            v = name(t, v)
        m[k] = v
    return m


def name(t, s):
    return "=" + t["strings"][s] if s in t["strings"] else s


def answers(t):
    return {e["id"]: answer(t, e["o"]) for e in t["ev"] if e["q"]["op"] != "snap"}, \
        [answer(t, e["o"]) for e in t["ev"] if e["q"]["op"] == "snap"]


def orders(batch, cap=720):
    """All orders of the batch that respect what was over before."""
    res = []
    for p in itertools.permutations(batch):
        seen = set()
        ok = True
        for e in p:
            if not set(e.get("pre") or []) <= seen:
                ok = False
                break
            seen.add(e["id"])
        if ok:
            res.append(list(p))
        if len(res) >= cap:
            break
    return res


def sequential(ctx, exe, trace, nm):
    """Whether the code itself gives these answers to some order of the same
    requests, one at a time: then the deviation has nothing to do with
    concurrency."""
    t = json.loads(trace)
    b = [k for k, e in enumerate(t["ev"]) if e.get("par")]
    pre, batch, post = t["ev"][:b[0]], t["ev"][b[0]:b[-1] + 1], t["ev"][b[-1] + 1:]
    cands = []
    for p in orders(batch):
        c = dict(t)
        c["ev"] = [{k: v for k, v in e.items() if k not in ("par", "pre")} for e in pre + p + post]
        cands.append(c)
    full = []
    jobs = []
    with cf.ThreadPoolExecutor(CORES) as pool:
        for k, part in enumerate(core.shards(cands, CORES)):
            jobs.append(pool.submit(core.rerun, ctx, exe, part, "%s-%d" % (nm, k)))
        for j in jobs:
            full += j.result()[0]
    want = answers(t)
    for f in full:
        x = json.loads(f)
        if answers(x) == want:
            return True
    if len(full) < len(cands):
        raise Broken("%d of %d orders could not be run one at a time" % (len(cands) - len(full), len(cands)))
    return False


def save(ctx, t, what, text=""):
    p = common.replay_path(ctx, "%d.json" % (len(ctx.violations) + 1))
    lines = []
    for e in t["ev"]:
        lines.append({"overlapping": bool(e.get("par")), "id": e["id"], "over_before": e.get("pre") or [],
                      "request": {k: v for k, v in e["r"].items() if v not in ("", None, [], 0)},
                      "answer": {k: v for k, v in e["o"].items() if v not in ("", None, [], 0, False)}})
    with open(p, "w") as f:
        json.dump({"property": ctx.pid, "what": what, "report": text, "history": lines, "trace": t}, f, indent=1)
    return p


def shape(t):
    return "+".join(sorted("%s/%s" % (e["r"]["op"], e["r"].get("grant", "")) for e in t["ev"] if e.get("par")))


def dead(ctx, died):
    """Processes that did not survive a batch."""
    for t, text in died:
        race = is_race(text)
        if race is False:
            raise Broken("the harness races:\n" + text[:4000])
        if race:
            what = "data race"
        elif "fatal error: " in text and "test timed out" not in text:
            what = "crash: " + re.search(r"fatal error: .*", text).group(0)
        else:
            raise Broken("driver died:\n" + text[-4000:])
        if ctx.violations:
            return
        p = save(ctx, t, what, text[:8000])
        violation(ctx, what.split(":")[0] + "/" + shape(t), p, what)


def verdict(ctx, exe, full, tl, nm):
    miss = judge(ctx, tl, nm)
    tried = 0
    for ti, far in sorted(miss.items()):
        if ctx.violations or tried >= 12:
            return
        t = json.loads(full[ti])
        if t.get("slept"):
            ctx.count("clock_moved")    # expiry is not what the specification computes
            continue
        tried += 1
        kinds = {e["o"]["kind"] for e in t["ev"] if e.get("par")}
        if "deadlock" in kinds or not any(e.get("par") for e in t["ev"]) or t["ev"][-1]["o"]["kind"] == "hang":
            if not any(e.get("par") for e in t["ev"]):
                ctx.log("history %d ended before requests overlapped" % t["id"])
                continue
            what = "requests block each other for good"
        elif sequential(ctx, exe, full[ti], "orders"):
            ctx.count("sequential_deviations")
            continue
        else:
            what = "no order of these requests, one at a time, explains the answers"
        p = save(ctx, t, what)
        violation(ctx, "order/" + shape(t), p, what + ": " + shape(t))


def stage(ctx, per=40):
    """The same property when requests overlap (C01, C02, C04, C11, C15)."""
    gated = common.build(ctx, "drv", False, True)
    with cf.ThreadPoolExecutor(CORES) as pool:
        jobs = [pool.submit(drive, ctx, gated, "s%d" % k, ctx.seed * 1000 + 7, k * per + 1, per, False) for k in range(CORES)]
        full, tl = [], []
        for j in jobs:
            a, b, d = j.result()
            full += a
            tl += b
    p = os.path.join(ctx.tmp, "par.judge")
    with open(p, "w") as f:
        f.write("\n".join(tl) + "\n")
    r = tlc(ctx, "Par", "Par.cfg", {"TRACES": p}, timeout=600)
    got = {x["t"] - 1: x["bad"] for x in r.lines if x["x"] == "PAR"}
    if len(got) != len(tl):
        raise Broken("judged %d of %d histories\n%s" % (len(got), len(tl), r.text[-1500:]))
    for ti, bad in sorted(got.items()):
        if ctx.pid in bad:
            t = json.loads(full[ti])
            p = save(ctx, t, "the answers of this history with overlapping requests break the property")
            violation(ctx, "overlap/" + shape(t), p, "overlapping requests: " + shape(t))
            break
    ctx.count("schedules", len(tl))
    ctx.count("traces_validated_against_impl", len(tl))
    ctx.log("%d histories with overlapping requests" % len(tl))


def run(ctx):
    pool = cf.ThreadPoolExecutor(CORES)
    g = pool.submit(common.build, ctx, "drv", False, True)
    gated = g.result()
    r = pool.submit(common.build, ctx, "drv", True)
    race = r.result()
    ctx.log("drivers built")
    sched = pool.submit(schedules, ctx)
    shapes, samples = set(), []
    rnd = 0
    while True:
        # drawn schedules
        jobs = [pool.submit(drive, ctx, gated, "g%d_%d" % (rnd, k), ctx.seed * 1000 + rnd, k * PER + 1, PER, False) for k in range(CORES)]
        full, tl, died = [], [], []
        for j in jobs:
            a, b, d = j.result()
            full += a
            tl += b
            died += d
        n = len(full)
        ctx.log("%d histories under drawn schedules" % n)
        dead(ctx, died)
        verdict(ctx, gated, full, tl, "g%d" % rnd)
        ctx.log("judged")
        ctx.count("schedules", n)
        # every schedule of the specification on some batches
        k = SYS * (8 if ctx.thorough else 1)
        jobs = [pool.submit(drive, ctx, gated, "m%d_%d" % (rnd, j), ctx.seed * 1000 + 250 + rnd, j * k + 1, k, False, sched.result())
                for j in range(CORES)]
        f1, t1, died = [], [], []
        for j in jobs:
            a, b, d = j.result()
            f1 += a
            t1 += b
            died += d
        ctx.log("%d batches under every schedule: %d different outcomes" % (k * CORES, len(f1)))
        dead(ctx, died)
        verdict(ctx, gated, f1, t1, "m%d" % rnd)
        # free running, with the race detector
        m = PER * 2 // 3
        jobs = [pool.submit(drive, ctx, race, "r%d_%d" % (rnd, k), ctx.seed * 1000 + 500 + rnd, k * m + 1, m, True) for k in range(CORES // 2)]
        f2, t2, died = [], [], []
        for j in jobs:
            a, b, d = j.result()
            f2 += a
            t2 += b
            died += d
        ctx.log("%d histories under the race detector" % len(f2))
        dead(ctx, died)
        verdict(ctx, gated, f2, t2, "r%d" % rnd)
        ctx.count("race_detector_runs", len(f2))
        ctx.count("traces_validated_against_impl", n + len(f1) + len(f2))
        for l in full + f1 + f2:
            t = json.loads(l)
            shapes.add((shape(t), tuple(e["o"]["kind"] + e["o"]["err"] for e in t["ev"] if e.get("par"))))
            ctx.count("overlapping_requests", sum(1 for e in t["ev"] if e.get("par")))
        if not samples:
            for l in full[:2]:
                t = json.loads(l)
                samples.append({"config": t["cfg"], "events": [
                    {"overlapping": bool(e.get("par")), "over_before": e.get("pre") or [],
                     "request": {k: v for k, v in e["r"].items() if v not in ("", None, [], 0)},
                     "answer": {k: v for k, v in e["o"].items() if v not in ("", None, [], 0, False)}} for e in t["ev"][-8:]]})
        rnd += 1
        if ctx.violations or not ctx.thorough or ctx.left() < 200:
            break
    ctx.coverage["samples"] = samples
    ctx.coverage["distinct_nontrivial"] = len(shapes)
    ctx.coverage["rule"] = "distinct (multiset of overlapping operations, their answers in order of completion)"
    ctx.assumptions += [
        "switches between requests happen at lock operations, reads of request bodies, reads of randomness and writes of answers "
        "(drawn schedules), or anywhere (free running with the race detector)",
        "at most six requests overlap",
    ]
    return common.finish(ctx, "model_checking")
