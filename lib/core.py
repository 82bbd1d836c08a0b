"""Checks on histories of the authorization server: model checking of the
design, behaviours of the model replayed into the real server, recorded
histories judged by the specification."""
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess

import common
import tables
import conc
from common import Broken, CORES, tlc, check_model, violation

# ---------------------------------------------------------------------------
# the driver


def drive(ctx, exe, mode, name, env, timeout=300):
    """Run the driver once; returns (full traces, tlc lines). A request that
    crashes or blocks the process ends the last trace as 'crash' or 'hang'."""
    prefix = os.path.join(ctx.tmp, name)
    e = common.go_env()
    e.update({k: str(v) for k, v in env.items()})
    e.update(DRV_MODE=mode, DRV_OUT=prefix, GOMAXPROCS="2", GOTRACEBACK="single")
    test = {"gen": "TestGen", "paths": "TestPaths", "rerun": "TestRerun"}[mode]

    def go(extra):
        e2 = dict(e, **extra)
        p = subprocess.run([exe, "-test.run", "^%s$" % test, "-test.timeout", "%ds" % timeout], cwd=ctx.tmp, env=e2,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 60)
        return p.returncode, p.stdout.decode(errors="replace")
    try:
        rc, text = go({})
        if rc not in (0, 7):
            # the process died: once more, noting every event before it happens
            first = text
            rc, text = go({"DRV_NOTE": prefix + ".note"})
            if rc not in (0, 7):
                _crashed(prefix, first)
                ctx.log("driver %s died (%d): %s" % (name, rc, _tail(first)))
    except subprocess.TimeoutExpired:
        raise Broken("driver %s ran out of time" % name)
    full = _lines(prefix + ".full")
    tl = _lines(prefix + ".tlc")
    n = min(len(full), len(tl))
    return full[:n], tl[:n]


def _tail(t):
    l = [x for x in t.splitlines() if x.strip()]
    for x in l:
        if x.startswith(("panic:", "fatal error:", "runtime:")):
            return x[:300]
    return " | ".join(l[-3:])[:300]


def _lines(p):
    try:
        with open(p) as f:
            return [l for l in f.read().split("\n") if l.strip()]
    except FileNotFoundError:
        return []


def _crashed(prefix, text):
    """Build the trace of a process that died from the notes it left."""
    notes = _lines(prefix + ".note")
    done = _lines(prefix + ".full")
    if not notes:
        raise Broken("driver died without a trace:\n" + text[-3000:])
    last = json.loads(notes[-1])
    with open(prefix + ".full", "w") as f:
        f.write("".join(l + "\n" for l in done) + json.dumps(last["full"]) + "\n")
    tl = _lines(prefix + ".tlc")[:len(done)]
    with open(prefix + ".tlc", "w") as f:
        f.write("".join(l + "\n" for l in tl) + json.dumps(last["tlc"]) + "\n")


def judge(ctx, tlcs, ask, name, workers=CORES):
    """Let TLC judge recorded traces; returns deviations per trace index."""
    if not tlcs:
        return {}
    p = os.path.join(ctx.tmp, name + ".judge")
    with open(p, "w") as f:
        f.write("\n".join(tlcs) + "\n")
    r = tlc(ctx, "Trace", "Trace.cfg", {"TRACES": p, "ASK": ask}, workers=workers, timeout=800)
    os.unlink(p)
    ends = [x for x in r.lines if x["x"] == "END"]
    if len({x["t"] for x in ends}) != len(tlcs):
        raise Broken("judge finished %d of %d traces\n%s" % (len(ends), len(tlcs), r.text[-1500:]))
    dev = {}
    for x in r.lines:
        if x["x"] == "DEV":
            dev.setdefault(x["t"] - 1, []).append(x)
    for l in dev.values():
        l.sort(key=lambda x: x["i"])
    ctx.count("judged_events", sum(x["i"] for x in ends))
    return dev


def rerun(ctx, exe, traces, name, keep_events=True):
    """Run given traces (full form) again."""
    p = os.path.join(ctx.tmp, name + ".in")
    with open(p, "w") as f:
        for t in traces:
            f.write(json.dumps(t) + "\n")
    return drive(ctx, exe, "rerun", name, {"DRV_IN": p, "DRV_STALL": 10})


# ---------------------------------------------------------------------------
# behaviours of the model


MODEL_STRINGS = {"c1": "client one", "c2": "client-2", "k1": "S3cr3t-of-client-1", "k2": "S3cr3t-of-client-2", "k3": "S3cr3t-of-client-3",
                 "r1": "http://example.com/callback?a=b", "r2": "https://example.com/callback",
                 "u1": "user1", "u2": "user2", "p1": "Passw0rd-one", "p2": "Passw0rd-two", "p3": "Passw0rd-three",
                 "a": "foo", "b": "foo:bar", "c": "baz", "x": "st&te x", "y": "other"}
SCALE = 1000


def model_paths(ctx, fam, maxn, maxstep, maxt, workers=4):
    r = tlc(ctx, "MC", "MCPaths.cfg", {"ASK": ctx.pid, "FAM": fam, "EMIT": "yes", "MAXN": maxn,
                                      "MAXSTEP": maxstep, "MAXT": maxt}, workers=workers, timeout=700,
            heap="10g" if ctx.thorough else "5g")
    paths = [x["p"] for x in r.lines if x["x"] == "PATH"]
    keys = [json.dumps([y["q"] for y in p], sort_keys=True) for p in paths]
    prefixes = set()
    for p in paths:
        for k in range(1, len(p)):
            prefixes.add(json.dumps([y["q"] for y in p[:k]], sort_keys=True))
    leaves = [p for p, k in zip(paths, keys) if k not in prefixes]
    ctx.count("states", r.distinct)
    ctx.count("transitions", max(r.generated - 1, 0))
    ctx.coverage.setdefault("models", []).append({"what": "behaviours of family %s (credentials<=%d, steps<=%d, ticks<=%d)" % (
        fam, maxn, maxstep, maxt), "states": r.distinct, "transitions": r.generated, "behaviours": len(leaves)})
    ctx.log("model behaviours %s: %d states, %d maximal behaviours" % (fam, r.distinct, len(leaves)))
    return leaves


def path_trace(fam, path, tid, seed):
    lab = {}
    evs = []
    for k, s in enumerate(path, 1):
        q = dict(s["q"])
        if q["tok"] in lab:
            q["tok"] = lab[q["tok"]]
        q.pop("cred", None)
        conf = None
        if q["op"] == "tick":
            q["d"] = q["d"] * SCALE
        elif q["op"] == "conf":
            conf, q["d"] = model_cfg(fam, q["d"]), 0
        for f, c in (("at", "a"), ("rt", "r"), ("code", "c")):
            if s[f]:
                lab[s[f]] = "T%d%s" % (k, c)
        alt = {"seed": seed + k}
        if q.get("fault"):
            # where it hits is left to chance
            most = {"rng": 16 if q["op"] == "authorize" else 32, "body": 60}.get(q["fault"], 2)
            alt.update(fault=q["fault"], at=random.Random(seed + k).randrange(most))
            q["fault"] = ""
        evs.append({"id": k, "q": q, "alt": alt})
        if conf:
            evs[-1]["conf"] = conf
    return {"id": tid, "seed": seed, "profile": "path", "cfg": model_cfg(fam, 1), "strings": dict(MODEL_STRINGS),
            "secret": "c2VjcmV0LW9mLW1vZGVs", "chunk": 0, "ev": evs}


def model_cfg(fam, n):
    """The n-th configuration of the model (Cfgs in MC.tla)."""
    cfg = {"allowed": ["a", "b"], "al": 2 * SCALE, "rl": (3 if fam == "time" else 90) * SCALE, "cl": SCALE,
           "tps": SCALE, "klen": 16,
           "clients": {"c1": {"secret": "k1", "redirect": "r1", "conf": True},
                       "c2": {"secret": "k2", "redirect": "r2", "conf": fam != "pair"}},
           "users": {"u1": {"pass": "p1"}, "u2": {"pass": "p2"}}}
    if n == 2:
        cfg["clients"]["c1"]["secret"] = "k3"
    elif n == 3:
        cfg["clients"]["c1"]["redirect"] = "r2"
    elif n == 4:
        cfg["clients"]["c1"]["conf"] = False
    elif n == 5:
        cfg["users"]["u1"]["pass"] = "p3"
    elif n == 6:
        del cfg["clients"]["c1"], cfg["users"]["u1"]
    return cfg


# families and bounds per property: (family, credentials, steps, ticks)
FAMS = {
    "C01": ["code", "fault"], "C02": ["code", "fault"], "C03": ["code", "time", "conf"], "C04": ["pair", "fault"], "C05": ["pair", "code"],
    "C06": ["pair", "conf"], "C07": ["pair", "conf"], "C08": ["code", "reject"], "C09": ["reject", "conf"], "C10": ["time"], "C11": ["pair"],
    "C12": ["time", "pair"], "C13": ["pair"], "C14": ["time"], "C15": ["pair", "fault"], "C16": ["pair", "fault"], "C18": ["pair"],
    "C19": ["reject"], "C20": ["reject"], "C21": ["reject"], "C25": ["pair"],
}
GHOST = {"quick": {"code": (6, 6, 2), "pair": (5, 5, 1), "time": (5, 6, 2), "reject": (3, 3, 1), "fault": (4, 5, 1), "conf": (3, 5, 0)},
         "thorough": {"code": (8, 9, 3), "pair": (7, 6, 1), "time": (7, 7, 4), "reject": (5, 4, 1), "fault": (6, 6, 1), "conf": (5, 6, 1)}}
KEPT = {"quick": {"code": (3, 4, 1), "pair": (3, 3, 1), "time": (3, 3, 2), "reject": (2, 2, 0), "fault": (3, 3, 0), "conf": (2, 3, 0)},
        "thorough": {"code": (5, 6, 2), "pair": (4, 4, 1), "time": (4, 5, 3), "reject": (3, 3, 1), "fault": (4, 4, 1), "conf": (4, 4, 1)}}
PATHS = {"quick": {"code": (6, 6, 2), "pair": (5, 4, 1), "time": (5, 6, 2), "reject": (3, 2, 1), "fault": (4, 5, 0), "conf": (3, 4, 0)},
         "thorough": {"code": (7, 7, 2), "pair": (6, 5, 1), "time": (6, 6, 3), "reject": (4, 3, 1), "fault": (5, 6, 1), "conf": (4, 5, 1)}}


def model_stage(ctx, workers):
    tier = ctx.tier
    for fam in FAMS[ctx.pid]:
        n, s, t = GHOST[tier][fam]
        env = {"ASK": ctx.pid, "FAM": fam, "EMIT": "no", "MAXN": n, "MAXSTEP": s, "MAXT": t}
        check_model(ctx, "MC", "MCGhost.cfg", env, workers, 800,
                    "history invariants, family %s (credentials<=%d, steps<=%d, ticks<=%d)" % (fam, n, s, t))
        n, s, t = KEPT[tier][fam]
        env.update(MAXN=n, MAXSTEP=s, MAXT=t)
        check_model(ctx, "MC", "MCKept.cfg", env, workers, 800,
                    "%s over every admitted answer to every probe, family %s (credentials<=%d, steps<=%d, ticks<=%d)" % (ctx.pid, fam, n, s, t))


# ---------------------------------------------------------------------------
# recording


def shards(items, n):
    return [items[i::n] for i in range(n) if items[i::n]]


def record_paths(ctx, exe, fams, limit, pool):
    rng = random.Random(ctx.seed * 7919 + 13)
    traces = []
    for fam in fams:
        n, s, t = PATHS[ctx.tier][fam]
        leaves = model_paths(ctx, fam, n, s, t)
        leaves.sort(key=lambda p: json.dumps(p, sort_keys=True))
        if len(leaves) > limit:
            leaves = rng.sample(leaves, limit)
        for p in leaves:
            i = len(traces) + 1
            traces.append(path_trace(fam, p, 1000000 + i, rng.randrange(1 << 40)))
    jobs = []
    for k, part in enumerate(shards(traces, CORES)):
        inp = os.path.join(ctx.tmp, "paths%d.in" % k)
        with open(inp, "w") as f:
            for t in part:
                f.write(json.dumps(t) + "\n")
        jobs.append(pool.submit(drive, ctx, exe, "paths", "paths%d" % k, {"DRV_IN": inp, "DRV_PROFILE": ctx.pid, "DRV_STALL": 15}))
    full, tl = collect(jobs)
    ctx.count("model_behaviours_replayed", len(traces))
    return full, tl


def record_gen(ctx, exe, per_shard, rnd, pool):
    jobs = []
    for k in range(CORES):
        jobs.append(pool.submit(drive, ctx, exe, "gen", "gen%d_%d" % (rnd, k), {
            "DRV_SEED": ctx.seed * 1000 + rnd, "DRV_FIRST": k * per_shard + 1, "DRV_N": per_shard,
            "DRV_PROFILE": ctx.pid, "DRV_STALL": 15}))
    return collect(jobs)


def collect(jobs):
    full, tl = [], []
    for j in jobs:
        a, b = j.result()
        full += a
        tl += b
    return full, tl


# ---------------------------------------------------------------------------
# verdicts


def first_bad(dev, pid):
    for d in dev or []:
        if pid in d["bad"]:
            return d["i"]
    return None


def confirm(ctx, exe, trace, i, pid, name):
    """Run the history up to event i again; the violation must come back."""
    t = json.loads(trace)
    t["ev"] = t["ev"][:i]
    full, tl = rerun(ctx, exe, [t], name)
    if not full:
        return None
    dev = judge(ctx, tl, pid, name)
    k = first_bad(dev.get(0), pid)
    if k is None:
        return None
    t = json.loads(full[0])
    t["ev"] = t["ev"][:k]
    return t


def minimize(ctx, exe, t, pid, rounds=6):
    """Drop events as long as the property is still broken by the last one."""
    size = max(1, len(t["ev"]) // 2)
    while rounds > 0 and len(t["ev"]) > 1 and ctx.left() > 15:
        rounds -= 1
        n = len(t["ev"]) - 1
        cands = []
        for a in range(0, n, size):
            c = dict(t)
            c["ev"] = t["ev"][:a] + t["ev"][min(a + size, n):]
            cands.append(c)
        full, tl = rerun(ctx, exe, cands, "min%d" % rounds)
        dev = judge(ctx, tl, pid, "min%d" % rounds)
        best = None
        for j, f in enumerate(full):
            k = first_bad(dev.get(j), pid)
            if k is None:
                continue
            x = json.loads(f)
            x["ev"] = x["ev"][:k]
            if best is None or len(x["ev"]) < len(best["ev"]):
                best = x
        if best is not None and len(best["ev"]) < len(t["ev"]):
            t = best
            size = max(1, min(size, len(t["ev"]) // 2))
        elif size == 1:
            break
        else:
            size = max(1, size // 3)
    return t


def signature(t, pid):
    e = t["ev"][-1]
    return "%s/%s/%s/%s" % (e["r"]["op"], e["r"].get("grant", ""), e["o"]["kind"], e["o"]["err"])


def save(ctx, t, n, what):
    p = common.replay_path(ctx, "%d.json" % n)
    lines = []
    for e in t["ev"]:
        lines.append({"request": {k: v for k, v in e["r"].items() if v not in ("", None, [], 0)},
                      "answer": {k: v for k, v in e["o"].items() if v not in ("", None, [], 0, False)}})
    with open(p, "w") as f:
        json.dump({"property": ctx.pid, "what": what, "history": lines, "trace": t}, f, indent=1)
    return p


def _no_client(cfg, r):
    """The request does not authenticate a client."""
    if r["op"] not in ("token", "introspect", "revoke"):
        return False
    c = cfg["clients"].get(r["client"])
    if r["cauth"] == "none" or c is None or (r["op"] != "token" and r["cauth"] != "basic"):
        return True
    return bool(c["conf"]) and c["secret"] != r["secret"]


# events that by these properties make no difference to any other event
CF = {
    "C02": lambda cfg, e, replay: replay,
    "C06": lambda cfg, e, replay: e["o"]["kind"] == "error" and _no_client(cfg, e["r"]),
    "C10": lambda cfg, e, replay: e["r"]["op"] in ("resource", "snap"),
    "C11": lambda cfg, e, replay: e["r"]["op"] == "revoke",
    "C12": lambda cfg, e, replay: e["r"]["op"] in ("introspect", "snap"),
    "C13": lambda cfg, e, replay: e["r"]["tok"] in ("!bad", "!unk") and e["o"]["kind"] in ("error", "ok", "info"),
    "C20": lambda cfg, e, replay: e["r"]["op"] == "other" or e["o"]["kind"] == "error" and not replay and (
        e["r"]["method"] != "POST" or bool(e["r"]["qf"]) or bool(e["r"]["deco"])),
    "C25": lambda cfg, e, replay: (e["o"]["kind"] == "error" and not replay) or
        e["r"]["op"] in ("introspect", "resource", "other") or e["o"]["kind"] == "notice",
}


def drop_for(pid, cfg, ev, last):
    """The counterfactual history: what should not have made a difference is
    left out (or, for C16, undisturbed)."""
    out = []
    changed = False
    used = set()        # codes that may have been exchanged
    for k, e in enumerate(ev):
        if k == last:
            e = dict(e)
            out.append(e)
            break
        r, o = e["r"], e["o"]
        if pid == "C16":
            f = r.get("fault", "")
            if f in ("rng", "body"):
                changed = True
                continue
            if f in ("write", "abort"):
                e = json.loads(json.dumps(e))
                e["alt"].pop("fault", None)
                changed = True
        else:
            exchange = r["op"] == "token" and r["grant"] == "authorization_code"
            replay = exchange and r["tok"] in used
            if exchange and o["kind"] in ("tokens", "lost"):
                used.add(r["tok"])
            if e.get("conf"):
                cfg = e["conf"]
            elif r["op"] not in ("tick", "seed") and CF[pid](cfg, e, replay):
                changed = True
                continue
        out.append(e)
    return out if changed else None


def counterfactual(ctx, exe, full, dev):
    """Deviations that disappear when the requests that a property says make
    no difference did not happen are violations of that property."""
    cands, src = [], []
    for ti, l in sorted(dev.items()):
        d = l[0]
        if ctx.pid in d["bad"]:
            continue
        t = json.loads(full[ti])
        ev = drop_for(ctx.pid, t["cfg"], t["ev"], d["i"] - 1)
        if ev is None:
            continue
        # the event itself may carry the delivery fault
        src.append((ti, d["i"], t["ev"][d["i"] - 1]["id"]))
        c = dict(t)
        c["ev"] = ev
        cands.append(c)
        if len(cands) >= 60:
            break
    if not cands:
        return []
    f2, t2 = rerun(ctx, exe, cands, "cf")
    d2 = judge(ctx, t2, ctx.pid, "cf")
    hits = []
    for j, (ti, i, eid) in enumerate(src):
        if j >= len(f2):
            break
        if not d2.get(j) and json.loads(f2[j])["ev"][-1]["id"] == eid:
            t = json.loads(full[ti])
            t["ev"] = t["ev"][:i]
            # the original must deviate again
            f3, t3 = rerun(ctx, exe, [t], "cfo")
            d3 = judge(ctx, t3, ctx.pid, "cfo") if f3 else {}
            if d3.get(0):
                hits.append(json.loads(f3[0]))
                if len(hits) >= 2:
                    break
    return hits


def verdict(ctx, exe, full, tl, name):
    dev = judge(ctx, tl, ctx.pid, name)
    for ti, l in sorted(dev.items()):
        ctx.count("nonconforming_traces")
    own = [(ti, first_bad(l, ctx.pid)) for ti, l in sorted(dev.items()) if first_bad(l, ctx.pid) is not None]
    own.sort(key=lambda x: x[1])
    found = 0
    for ti, i in own[:6]:
        t = confirm(ctx, exe, full[ti], i, ctx.pid, "confirm")
        if t is None:
            ctx.log("trace %d event %d did not break %s again" % (ti, i, ctx.pid))
            continue
        if found == 0:
            t = minimize(ctx, exe, t, ctx.pid)
        found += 1
        p = save(ctx, t, len(ctx.violations) + 1, "the last answer of this history breaks the property")
        violation(ctx, signature(t, ctx.pid), p, "history of %d events, last: %s" % (len(t["ev"]), json.dumps(t["ev"][-1]["o"])[:300]))
        if found >= 2:
            break
    if found == 0 and (ctx.pid in CF or ctx.pid == "C16") and dev:
        for t in counterfactual(ctx, exe, full, dev)[:1]:
            p = save(ctx, t, len(ctx.violations) + 1,
                     "the last answer deviates from the specification, and no longer does when the requests that by this "
                     "property make no difference are left out of this history")
            violation(ctx, "cf/" + signature(t, ctx.pid), p, "history of %d events" % len(t["ev"]))
    return dev


def sample(full, n=2):
    res = []
    for l in full[:n]:
        t = json.loads(l)
        res.append({"config": t["cfg"], "profile": t["profile"], "events": [
            {"request": {k: v for k, v in e["r"].items() if v not in ("", None, [], 0)},
             "answer": {k: v for k, v in e["o"].items() if v not in ("", None, [], 0, False)}} for e in t["ev"][:6]]})
    return res


def nontrivial(full):
    """Distinct shapes of histories in which something was issued and used."""
    shapes = set()
    for l in full:
        t = json.loads(l)
        s = tuple((e["r"]["op"], e["r"].get("grant"), e["o"]["kind"], e["o"]["err"]) for e in t["ev"] if e["r"]["op"] != "snap")
        if any(x[2] in ("tokens", "code") for x in s) and len(s) > 2:
            shapes.add(hash(s))
    return shapes


def run(ctx):
    pool = cf.ThreadPoolExecutor(CORES)
    mpool = cf.ThreadPoolExecutor(2)
    exe = common.build(ctx)
    ctx.log("driver built")
    mjob = mpool.submit(model_stage, ctx, 4 if not ctx.thorough else 6)
    shapes = set()
    full, tl = record_paths(ctx, exe, FAMS[ctx.pid], 2500 if ctx.thorough else 240 // len(FAMS[ctx.pid]), pool)
    ctx.log("%d behaviours of the model replayed" % len(full))
    f2, t2 = record_gen(ctx, exe, 90, 0, pool)
    ctx.log("%d histories recorded" % len(f2))
    full += f2
    tl += t2
    verdict(ctx, exe, full, tl, "main")
    ctx.log("judged")
    shapes |= nontrivial(full)
    ctx.count("traces_validated_against_impl", len(tl))
    ctx.coverage["samples"] = sample(full[:1] + f2)
    rnd = 0
    while ctx.thorough and not ctx.violations and ctx.left() > 330:
        rnd += 1
        f2, t2 = record_gen(ctx, exe, 500, rnd, pool)
        verdict(ctx, exe, f2, t2, "round%d" % rnd)
        shapes |= nontrivial(f2)
        ctx.count("traces_validated_against_impl", len(t2))
        ctx.log("round %d judged" % rnd)
    ctx.coverage["distinct_nontrivial"] = len(shapes)
    ctx.coverage["rule"] = ("distinct sequences of (operation, grant, kind of answer, error) of histories that issue "
                            "credentials and go on afterwards")
    mjob.result()
    if ctx.pid in ("C13", "C15", "C19", "C21") and not ctx.violations:
        tables.stage(ctx, 1.0)
    if ctx.pid in ("C01", "C02", "C04", "C11", "C15") and not ctx.violations:
        conc.stage(ctx, 150 if ctx.thorough else 40)
    ctx.assumptions += [
        "client identifiers without colon, KeyLength > 0, canonical base64 token strings",
        "answers are compared after removing the free choices listed in DESIGN.md (wording of descriptions, order of items)",
    ]
    return common.finish(ctx, "model_checking")
