"""The conformance suite of package oauth2test (C26): run against the library's
own server and against servers with one doctored answer, judged by Suite.tla."""
import concurrent.futures as cf
import json
import os
import random
import subprocess

import common
import core
from common import Broken, CORES, tlc, violation

FLAGS = "password cc implicit code refresh introspection revocation mitigation".split()


def drive(ctx, exe, name, cases):
    """Runs the suite as the cases say; returns one record per case."""
    inp, out = os.path.join(ctx.tmp, name + ".in"), os.path.join(ctx.tmp, name + ".out")
    with open(inp, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    skip, died = 0, []
    while True:
        e = common.go_env()
        e.update(DRV_MODE="suite", DRV_IN=inp, DRV_OUT=out, DRV_SKIP=str(skip), DRV_DEAD=",".join(map(str, died)), DRV_STALL="20", GOMAXPROCS="2", GOTRACEBACK="single")
        try:
            p = subprocess.run([exe, "-test.run", "^TestSuite$", "-test.timeout", "600s"], cwd=ctx.tmp, env=e,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=700)
        except subprocess.TimeoutExpired:
            raise Broken("suite driver %s ran out of time" % name)
        rows = [json.loads(l) for l in core._lines(out)]
        if rows and rows[-1]["x"] == "done":
            break
        k = rows[-1]["k"] if rows else 0
        if k <= skip or p.returncode == 0:
            raise Broken("suite driver %s stopped at run %d (%d): %s" % (name, k, p.returncode, p.stderr.decode(errors="replace")[-1500:]))
        skip = k            # a run that ends the process is a failed one
        died.append(k)
        if len(died) > 3000:
            raise Broken("suite driver %s keeps dying" % name)
    begin, end = {}, {}
    for r in rows:
        if r["x"] == "begin":
            begin[r["k"]] = r
        elif r["x"] == "end":
            end[r["k"]] = r
    res = {c["id"]: {"case": c, "pass": False, "dev": [], "blank": [], "ev": [], "cfg": None} for c in cases}
    for k in sorted(begin):
        b, e = begin[k], end.get(k)
        c = res[b["case"]]
        if "blank" in b:
            c["blank"].append({"f": b["blank"], "stopped": e["stopped"] if e else True})
        elif "i" in b:
            c["dev"].append({"i": b["i"], "k": b["kind"], "name": b["name"], "o": b["o"], "pass": bool(e and e["pass"])})
        elif e:
            c.update({"pass": e["pass"], "ev": e["ev"], "cfg": e["cfg"], "seeds": e["seeds"], "strings": e["strings"]})
    ctx.count("suite_runs", len(begin))
    ctx.count("suite_runs_that_panicked", len(died))
    return [res[c["id"]] for c in cases]


def tlc_case(c):
    return json.dumps({"flags": c["case"]["flags"], "cfg": c["cfg"], "pass": c["pass"], "ev": c["ev"], "blank": c["blank"],
                       "dev": [{"i": d["i"] + c["seeds"], "k": d["k"], "o": d["o"], "pass": d["pass"]} for d in c["dev"]]})


def judge(ctx, cases, name, show=bool(os.environ.get("SUITE_SHOW"))):
    """Deviations per case; a case whose run with the library's own server does
    not follow the specification of the server is left to other properties."""
    p = os.path.join(ctx.tmp, name + ".judge")
    good = [c for c in cases if c["cfg"]]
    with open(p, "w") as f:
        for c in good:
            f.write(tlc_case(c) + "\n")
    if not good:
        return {}, [], 0
    r = tlc(ctx, "Suite", "Suite.cfg", {"CASES": p, "SHOW": "yes" if show else "no"}, timeout=800, heap="10g")
    os.unlink(p)
    ctx.count("states", r.distinct)
    ctx.count("transitions", r.generated)
    dev, odd, ended = {}, [], 0
    for x in r.lines:
        c = good[x["c"] - 1]
        if x["x"] == "DEV":
            d = c["dev"][x["d"] - 1] if x["d"] else None
            dev.setdefault(c["case"]["id"], []).append((x, d))
        elif x["x"] == "ODD":
            odd.append((c, x["i"]))
        elif x["x"] == "END":
            ended += 1
            ctx.coverage.setdefault("exchange_classes", 0)
            ctx.coverage["exchange_classes"] = max(ctx.coverage["exchange_classes"], x["n"])
        elif x["x"] == "SEEN":
            print(json.dumps(x))
    if ended + len({id(c) for c, _ in odd}) != len(good):
        raise Broken("judge finished %d of %d configurations\n%s" % (ended, len(good), r.text[-1500:]))
    return dev, odd, len(good)


def flagset(n):
    return {f: bool(n >> i & 1) for i, f in enumerate(FLAGS)}


def plan(ctx):
    """All combinations of flags; answers are doctored in some of them."""
    rng = random.Random(ctx.seed * 31 + 5)
    cases = []
    per = 24 if ctx.thorough else 12
    chosen = {255, 0b01111111, 0b10111111, 0b11011111, 0b10011111} | set(rng.sample(range(256), per))
    for n in range(256):
        cases.append({"id": n + 1, "seed": rng.randrange(1 << 40), "flags": flagset(n), "dev": 0, "blank": n in chosen})
        if n == 255:
            cases[-1]["dev"] = -1
        elif n in chosen:
            cases[-1]["dev"] = -1 if ctx.thorough else 6
    if ctx.thorough:
        for n in range(16):
            cases.append({"id": 1000 + n, "seed": rng.randrange(1 << 40), "flags": flagset(255 if n % 2 else rng.randrange(256)),
                          "dev": -1, "blank": True})
    return cases


def same(x, d, y, e):
    return x["why"] == y["why"] and (d is None) == (e is None) and (d is None or (d["k"] == e["k"] and d["name"] == e["name"] and d["i"] == e["i"]))


def describe(c, x, d):
    if d is None:
        return "the suite with %s %s %s" % (" ".join(f for f in FLAGS if c["case"]["flags"][f]) or "nothing supported", x["why"],
                                           json.dumps(x.get("what", ""))[:600])
    ev = c["ev"][d["i"] + c["seeds"] - 1]
    return "the suite %s: request %s, right answer %s, given answer (%s) %s" % (
        x["why"], json.dumps(ev["q"]), json.dumps(ev["o"]), d["name"], json.dumps(d["o"]))


def run(ctx):
    exe = common.build(ctx, tags="suite")
    ctx.log("driver built")
    cases = plan(ctx)
    heavy = sorted(cases, key=lambda c: (c["dev"] == 0, c["id"]))
    parts = [heavy[i::CORES] for i in range(CORES)]
    with cf.ThreadPoolExecutor(CORES) as pool:
        res = [c for l in pool.map(lambda a: drive(ctx, exe, "suite%d" % a[0], a[1]), enumerate(parts)) for c in l]
    ctx.log("%d configurations, %d runs of the suite" % (len(res), ctx.coverage["suite_runs"]))
    dev, odd, n = judge(ctx, res, "suite")
    ctx.log("judged, %d configurations with deviations, %d not judged" % (len(dev), len(odd)))
    by = {c["case"]["id"]: c for c in res}
    lost = [c for c in res if not c["cfg"]]
    for c in lost:
        # the suite ended the process although the server is the library's own
        dev.setdefault(c["case"]["id"], []).insert(0, ({"why": "panics on a conforming server"}, None))
    found = {}
    for cid, l in sorted(dev.items()):
        for x, d in l:
            key = "%s/%s" % (x["why"].replace(" ", "-"), d["k"] if d else "")
            if key in found or len(found) >= 3:
                continue
            # once more, on its own
            c = dict(by[cid]["case"])
            if d is not None:
                c.update(dev=0, only=[{"i": d["i"], "k": d["k"], "name": d["name"]}], blank=False)
            else:
                c.update(dev=0)
            again = drive(ctx, exe, "confirm%d_%d" % (cid, len(found)), [c])
            if again[0]["cfg"]:
                d2, _, _ = judge(ctx, again, "confirm")
                if not any(same(x, d, y, e) for y, e in d2.get(cid, [])):
                    ctx.log("not confirmed:", describe(by[cid], x, d)[:300])
                    continue
            found[key] = True
            p = common.replay_path(ctx, "%d.json" % (len(ctx.violations) + 1))
            what = describe(by[cid], x, d)
            with open(p, "w") as f:
                json.dump({"property": ctx.pid, "what": what, "case": c, "strings": by[cid].get("strings"),
                           "exchanges": by[cid]["ev"]}, f, indent=1)
            violation(ctx, key, p, what)
    if odd and not found:
        ctx.log("the library's own server did not follow its specification in %d configurations; they were not judged" % len({id(c) for c, _ in odd}))
    kinds = {}
    for c in res:
        for d in c["dev"]:
            kinds[d["k"]] = kinds.get(d["k"], 0) + 1
    ctx.coverage.update({
        "configurations": len(res), "flag_combinations": 256, "doctored_answers": kinds,
        "exchanges": sum(len(c["ev"]) for c in res), "not_judged": len({id(c) for c, _ in odd}),
        "traces_validated_against_impl": n,
        "distinct_nontrivial": len({(json.dumps(c["ev"][d["i"] + c["seeds"] - 1]["q"], sort_keys=True), d["name"]) for c in res for d in c["dev"] if c["cfg"]}),
        "rule": "distinct pairs of a request of the suite (in its configuration) and the way its answer was doctored",
        "samples": [{"flags": c["case"]["flags"], "request": c["ev"][c["dev"][k]["i"] + c["seeds"] - 1]["q"],
                     "doctored": {x: c["dev"][k][x] for x in ("name", "o", "pass")}} for c in res if c["cfg"] and c["dev"] for k in (0, len(c["dev"]) // 2)][:6],
    })
    ctx.assumptions += [
        "the server behind the suite is the library's own; deviations are single doctored answers",
        "aspects the suite does not prescribe are listed in Suite.tla (Prescribed)",
    ]
    return common.finish(ctx, "model_checking")
