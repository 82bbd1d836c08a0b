"""Checks on the library's functions: cases enumerated by TLC from the
specification, run by the driver with arbitrary texts, judged by TLC."""
import concurrent.futures as cf
import json
import os
import random
import re
import subprocess

import common
import conc
from common import Broken, CORES, tlc, violation

TITLES = {
    "C13": "token parsing and formatting", "C15": "token generation under a misbehaving random source",
    "C19": "written responses", "C21": "redirects", "C22": "round trips and a live server", "C23": "scopes",
    "C24": "errors", "C27": "the client against arbitrary answers", "C28": "the request parsers",
    "C29": "library functions at the same time",
}
# how often a case is run with different texts
REPS = {"quick": {"C13": 4, "C15": 1, "C19": 30, "C21": 30, "C22": 30, "C23": 1, "C24": 16, "C27": 4, "C28": 8},
        "thorough": {"C13": 150, "C15": 10, "C19": 600, "C21": 500, "C22": 90, "C23": 2, "C24": 120, "C27": 12, "C28": 150}}
RANDOM = {"C23": ["scopeparse", "scopeformat", "scopejson", "scopeunjson", "scopeincl", "scopecont"]}
BATCH = 200


def cases(ctx, ask=None, deep=None, workers=CORES):
    deep = ctx.thorough if deep is None else deep
    r = tlc(ctx, "LibCases", "LibCases.cfg", {"ASK": ask or ctx.pid, "DEEP": "yes" if deep else "no"}, timeout=600, workers=workers)
    if "Model checking completed. No error has been found." not in r.text:
        raise Broken("the specification of the library breaks its own laws:\n" + r.text[-2000:])
    cs = [x["c"] for x in r.lines if x["x"] == "CASE"]
    cs.sort(key=lambda c: json.dumps(c, sort_keys=True))
    ctx.count("states", r.distinct)
    ctx.count("transitions", max(r.generated - r.distinct, 0))
    ctx.count("structural_cases", len(cs))
    return cs


def execute(ctx, exe, jobs, name):
    """Run [(case, seed)]; returns the observations in order."""
    inp, out = os.path.join(ctx.tmp, name + ".in"), os.path.join(ctx.tmp, name + ".out")
    with open(inp, "w") as f:
        for c, s in jobs:
            f.write(json.dumps({"c": c, "seed": s}) + "\n")
    e = common.go_env()
    e.update(LIB_IN=inp, LIB_OUT=out, GOMAXPROCS="2", GOTRACEBACK="single")
    cmd = [exe, "-test.run", "^TestCases$", "-test.timeout", "800s"]

    def go(**extra):
        try:
            return subprocess.run(cmd, cwd=ctx.tmp, env=dict(e, **extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=850)
        except subprocess.TimeoutExpired:
            raise Broken("driver %s ran out of time" % name)
    p = go()
    extra = []
    if p.returncode not in (0, 7):
        note = os.path.join(ctx.tmp, name + ".note")
        q = go(LIB_NOTE=note)
        if q.returncode not in (0, 7):
            if not os.path.exists(note):
                raise Broken("driver %s failed:\n%s" % (name, p.stdout.decode(errors="replace")[-2000:]))
            ctx.log("driver died:", p.stdout.decode(errors="replace")[:300])
            extra = [json.load(open(note))]
    res = []
    with open(out) as f:
        for l in f:
            if l.endswith("\n"):
                res.append(json.loads(l))
    os.unlink(inp)
    os.unlink(out)
    return res + extra


def judge(ctx, obs, name):
    """Indices of the observations that break the property."""
    if not obs:
        return []
    p = os.path.join(ctx.tmp, name + ".judge")
    with open(p, "w") as f:
        for k in range(0, len(obs), BATCH):
            f.write(json.dumps([o["e"] for o in obs[k:k + BATCH]]) + "\n")
    r = tlc(ctx, "LibTrace", "LibTrace.cfg", {"TRACES": p, "ASK": ctx.pid}, timeout=850, heap="10g")
    os.unlink(p)
    n = sum(x["k"] for x in r.lines if x["x"] == "END")
    if n != len(obs):
        raise Broken("judged %d of %d observations\n%s" % (n, len(obs), r.text[-2000:]))
    ctx.count("judged_observations", n)
    ctx.count("states", r.distinct)
    ctx.count("transitions", n)
    return sorted((x["b"] - 1) * BATCH + x["k"] - 1 for x in r.lines if x["x"] == "BAD")


def stage(ctx, share=1.0):
    """Returns whether observations of the library broke the property."""
    exe = common.build(ctx, "lib")
    cs = cases(ctx)
    rng = random.Random(ctx.seed * 104729 + 7)
    reps = max(1, int(REPS[ctx.tier][ctx.pid] * share))
    jobs = [(c, rng.randrange(1 << 50)) for c in cs for _ in range(reps)]
    for op in RANDOM.get(ctx.pid, []):
        jobs += [({"op": op, "rand": True}, rng.randrange(1 << 50)) for _ in range(60000 if ctx.thorough else 3000)]
    ctx.log("%d cases of %s, %d runs" % (len(cs), TITLES[ctx.pid], len(jobs)))
    rng.shuffle(jobs)
    # a driver per core; rounds keep the memory of the judge in bounds
    round_size = 100000
    ops = {}
    for lo in range(0, len(jobs), round_size):
        part = jobs[lo:lo + round_size]
        with cf.ThreadPoolExecutor(CORES) as pool:
            fs = [pool.submit(execute, ctx, exe, part[k::CORES], "t%d" % k) for k in range(CORES) if part[k::CORES]]
            obs = [o for f in fs for o in f.result()]
        for o in obs:
            ops[o["c"]["op"]] = ops.get(o["c"]["op"], 0) + 1
        ctx.count("library_observations", len(obs))
        if lo == 0:
            for o in rng.sample(obs, min(4, len(obs))):
                ctx.coverage.setdefault("samples", []).append(o)
        bad = judge(ctx, obs, "obs%d" % lo)
        ctx.log("%d observations judged" % len(obs))
        if bad:
            ctx.log("%d observations break %s" % (len(bad), ctx.pid))
            report(ctx, exe, [obs[k] for k in bad])
            break
        if lo + len(part) < len(jobs) and ctx.left() < 60:
            ctx.log("stopped after %d runs for lack of time" % (lo + len(part)))
            break
    ctx.coverage.setdefault("library_runs_by_operation", ops)


# --------------------------------------------------------------------------
# several functions at the same time (C29)

SOURCES = "C13 C19 C21 C22 C23 C24 C27 C28 C29".split()
SIZE = 8


def batches(ctx, rng, pools, n):
    res = []
    for _ in range(n):
        how = rng.random()
        if how < 0.4:
            # the same function from all sides
            l = pools[rng.choice(SOURCES)]
            op = rng.choice(l)["op"]
            l = [c for c in rng.sample(l, min(len(l), 200)) if c["op"] == op] or [c for c in l if c["op"] == op]
        elif how < 0.7:
            l = pools[rng.choice(SOURCES)]
        else:
            l = [rng.choice(pools[rng.choice(SOURCES)]) for _ in range(SIZE)]
        res.append([{"c": rng.choice(l), "seed": rng.randrange(1 << 50)} for _ in range(SIZE)])
    return res


def execute_together(ctx, exe, bs, name):
    """Runs batches; returns observations per batch, and (batch, text) of a
    process that died, if it did."""
    inp, out = os.path.join(ctx.tmp, name + ".in"), os.path.join(ctx.tmp, name + ".out")
    with open(inp, "w") as f:
        for b in bs:
            f.write(json.dumps({"b": b}) + "\n")
    e = common.go_env()
    e.update(LIB_IN=inp, LIB_OUT=out, GOMAXPROCS="4", GOTRACEBACK="single", GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
    try:
        p = subprocess.run([exe, "-test.run", "^TestTogether$", "-test.timeout", "500s"], cwd=ctx.tmp, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=560)
    except subprocess.TimeoutExpired:
        raise Broken("driver %s ran out of time" % name)
    text = p.stdout.decode(errors="replace")
    res = []
    with open(out) as f:
        for l in f:
            if l.endswith("\n"):
                res.append(json.loads(l)["b"])
    os.unlink(inp)
    os.unlink(out)
    if p.returncode == 0:
        if len(res) != len(bs):
            raise Broken("driver %s ran %d of %d batches" % (name, len(res), len(bs)))
        return res, None
    at = [int(x) for x in re.findall(r"^batch (\d+)$", text, re.M)]
    if not at:
        raise Broken("driver %s failed:\n%s" % (name, text[-3000:]))
    text = re.sub(r"^batch \d+\n", "", text, flags=re.M)
    return res, (bs[at[-1]], "hang" if p.returncode == 7 else text)


def run_together(ctx):
    ctx.assumptions = ["eight functions run at the same time, started together; schedules are those of the machine",
                       "texts are valid UTF-8 but for the request parsers; see Lib.tla and DESIGN.md for what is left unspecified"]
    pool = cf.ThreadPoolExecutor(CORES)
    b = pool.submit(common.build, ctx, "lib", True)
    cs = {s: pool.submit(cases, ctx, s, False, 1) for s in SOURCES}
    exe = b.result()
    rng = random.Random(ctx.seed * 7919 + 3)
    pools = {s: cs[s].result() for s in SOURCES}
    n = 2400 if ctx.thorough else 320
    rnd = 0
    ops = {}
    while True:
        todo = [batches(ctx, rng, pools, n) for _ in range(CORES // 2)]
        fs = [pool.submit(execute_together, ctx, exe, l, "g%d_%d" % (rnd, k)) for k, l in enumerate(todo)]
        obs, died = [], []
        for f in fs:
            res, d = f.result()
            obs += [(o, b) for b in res for o in b]
            died += [d] if d else []
        ctx.log("%d observations of functions running at the same time" % len(obs))
        ctx.count("library_observations", len(obs))
        ctx.count("batches", len(obs) // SIZE)
        for o, _ in obs:
            ops[o["c"]["op"]] = ops.get(o["c"]["op"], 0) + 1
        for o, _ in rng.sample(obs, min(4, len(obs))):
            if rnd == 0:
                ctx.coverage.setdefault("samples", []).append(o)
        for b, text in died[:1]:
            dead_together(ctx, exe, b, text)
        for k in judge(ctx, [o for o, _ in obs], "obs%d" % rnd)[:6]:
            if ctx.violations:
                break
            o, b = obs[k]
            report_together(ctx, exe, b, o)
        rnd += 1
        if ctx.violations or not ctx.thorough or ctx.left() < 150:
            break
    c = ctx.coverage
    c["library_runs_by_operation"] = ops
    c["traces_validated_against_impl"] = c.get("library_observations", 0)
    c["explanation"] = "TLC enumerates the cases (LibCases.tla); batches of eight of them run at once in one process; TLC judges every observation with Lib.tla"
    return common.finish(ctx, "model_checking")


def plain(b):
    return [{"c": o["c"], "seed": o["seed"]} for o in b]


def dead_together(ctx, exe, batch, text):
    race = conc.is_race(text)
    if race is False:
        raise Broken("the harness races:\n" + text[:4000])
    if race:
        what = "data race"
    elif "fatal error: " in text and "test timed out" not in text:
        what = "crash: " + re.search(r"fatal error: .*", text).group(0)
    elif text == "hang" and execute_together(ctx, exe, [batch] * 3, "again")[1]:
        what = "functions of the library block each other"
    else:
        raise Broken("driver died:\n" + text[-4000:])
    p = common.replay_path(ctx, "together-race.json")
    with open(p, "w") as f:
        json.dump({"property": ctx.pid, "what": what, "batch": batch, "report": text[:8000]}, f, indent=1)
    violation(ctx, "together/" + what.split(":")[0], p, what + " in " + ", ".join(sorted({j["c"]["op"] for j in batch})))


def report_together(ctx, exe, res, bad):
    """It has to come back when its batch is run again and again."""
    b = plain(res)
    again, died = execute_together(ctx, exe, [b] * 150, "again")
    if died and not ctx.violations:
        return dead_together(ctx, exe, died[0], died[1])
    obs = [o for x in again for o in x]
    hits = judge(ctx, obs, "again")
    if not hits:
        ctx.log("%s did not break %s again: %s" % (bad["c"]["op"], ctx.pid, json.dumps(bad)[:1500]))
        return
    o = obs[hits[0]]
    p = common.replay_path(ctx, "together-%s.json" % o["c"]["op"])
    with open(p, "w") as f:
        json.dump({"property": ctx.pid, "what": "run at the same time as the rest of its batch, this observation breaks the property (Lib.tla)",
                   "observation": o["e"], "texts": o["info"], "case": o["c"], "seed": o["seed"], "batch": b}, f, indent=1)
    violation(ctx, "together/%s" % o["c"]["op"], p, json.dumps(o)[:900])


def report(ctx, exe, bad):
    seen = {}
    for o in bad:
        seen.setdefault(o["c"]["op"], []).append(o)
    for op, l in sorted(seen.items()):
        # the smallest first; it has to come back
        l.sort(key=lambda o: len(json.dumps(o)))
        for o in l[:4]:
            again = execute(ctx, exe, [(o["c"], o["seed"])], "again")
            if again and judge(ctx, again[:1], "again"):
                p = common.replay_path(ctx, "lib-%s.json" % op)
                with open(p, "w") as f:
                    json.dump({"property": ctx.pid, "what": "this observation of the library breaks the property (Lib.tla)",
                               "case": again[0]["c"], "seed": again[0]["seed"], "observation": again[0]["e"], "texts": again[0]["info"]}, f, indent=1)
                violation(ctx, "lib/%s" % op, p, json.dumps(again[0])[:900])
                break
            ctx.log("%s did not break %s again" % (op, ctx.pid))


def run(ctx):
    ctx.assumptions = ["texts are valid UTF-8; see Lib.tla and DESIGN.md for what is left unspecified",
                       "the driver's own decoding of responses, tokens and challenges is correct"]
    stage(ctx)
    c = ctx.coverage
    c["traces_validated_against_impl"] = c.get("library_observations", 0)
    c["explanation"] = "TLC enumerates the structural cases of LibCases.tla (%s) and judges every observation with Lib.tla" % TITLES[ctx.pid]
    return common.finish(ctx, "model_checking")
