"""Shared plumbing of the checks: scratch space, building the driver from
/repo's working tree, running TLC, evidence and verdicts."""
import atexit
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")     # another tree only while developing the checks
_counting = threading.Lock()
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 8)


class Broken(Exception):
    """The check could not give an answer."""


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.budget = float(os.environ.get("VERIF_BUDGET", "780" if self.thorough else "100"))
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        atexit.register(shutil.rmtree, self.tmp, True)
        self.spec = os.path.join(self.tmp, "spec")
        shutil.copytree(os.path.join(VERIF, "spec"), self.spec)
        self.coverage = {}
        self.assumptions = []
        self.violations = []
        self.log_lines = []

    def left(self):
        return self.budget - (time.time() - self.t0)

    def log(self, *a):
        s = "[%5.1fs] " % (time.time() - self.t0) + " ".join(str(x) for x in a)
        self.log_lines.append(s)
        print(s, flush=True)

    def count(self, key, n=1):
        with _counting:
            self.coverage[key] = self.coverage.get(key, 0) + n


def go_env():
    e = dict(os.environ)
    e.update(HOME="/root", LC_ALL="C.UTF-8", GOTOOLCHAIN="local", GOPROXY="off",
             GOFLAGS="-mod=mod", GOWORK="off", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def overlay(ctx):
    """Replace package sync in /repo's sources by one that lets a schedule
    decide (harness/vsync); the sources are otherwise as they are."""
    rep = {}
    d = os.path.join(ctx.tmp, "ov")
    os.makedirs(d, exist_ok=True)
    for f in sorted(os.listdir(REPO)):
        if not f.endswith(".go") or f.endswith("_test.go"):
            continue
        text = open(os.path.join(REPO, f)).read()

        def sub(m):
            return m.group(1) + (m.group(2) or "sync ") + '"a.verif/h/vsync"'
        new = re.sub(r'(?m)^(\s*(?:import\s+)?)(\w+\s+)?"sync"(?=\s*(?://.*)?;?\s*$)', sub, text)
        if new != text:
            with open(os.path.join(d, f), "w") as o:
                o.write(new)
            rep[os.path.join(REPO, f)] = os.path.join(d, f)
    p = os.path.join(ctx.tmp, "overlay.json")
    with open(p, "w") as o:
        json.dump({"Replace": rep}, o)
    return p if rep else None


def build(ctx, pkg="drv", race=False, gates=False, tags=None):
    """Compile the driver against /repo's working tree."""
    src = os.path.join(ctx.tmp, "h")
    if not os.path.isdir(src):
        try:
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            if REPO != "/repo":
                m = os.path.join(src, "go.mod")
                s = open(m).read().replace("=> /repo", "=> " + REPO)
                with open(m, "w") as f:
                    f.write(s)
        except FileExistsError:
            pass
    out = os.path.join(ctx.tmp, pkg + (".race" if race else "") + (".gates" if gates else "") + ".test")
    if tags:
        out = os.path.join(ctx.tmp, pkg + "." + tags + ".test")
    cmd = ["go", "test", "-c", "-o", out] + (["-race"] if race else []) + (["-tags", tags] if tags else [])
    if gates:
        ov = overlay(ctx)
        if ov is None:
            return build(ctx, pkg, race)
        cmd += ["-overlay", ov]
    p = subprocess.run(cmd + ["./" + pkg], cwd=src, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if p.returncode != 0 or not os.path.exists(out):
        if gates:
            ctx.log("no gates at locks: " + p.stdout.decode(errors="replace")[-500:])
            return build(ctx, pkg, race)
        raise Broken("building %s failed:\n%s" % (pkg, p.stdout.decode(errors="replace")[-4000:]))
    return out


class Tlc:
    def __init__(self, lines, generated, distinct, rc, text):
        self.lines, self.generated, self.distinct, self.rc, self.text = lines, generated, distinct, rc, text


_n = [0]


def tlc(ctx, module, cfg, env, workers=CORES, heap="6g", timeout=600, ok=(0,), sim=None):
    """Run TLC; returns the JSON values the specification printed."""
    _n[0] += 1
    meta = os.path.join(ctx.tmp, "meta%d" % _n[0])
    # every run has its own copy of the modules: TLC writes next to them
    d = os.path.join(ctx.tmp, "spec%d" % _n[0])
    shutil.copytree(ctx.spec, d)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in env.items()})
    cmd = ["java", "-Djava.io.tmpdir=" + ctx.tmp, "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-config", cfg] + (sim or []) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC %s %s ran out of time" % (module, cfg))
    text = p.stdout.decode(errors="replace")
    shutil.rmtree(meta, True)
    shutil.rmtree(d, True)
    lines = []
    for l in text.splitlines():
        if l.startswith('"{') and l.endswith('"'):
            try:
                lines.append(json.loads(json.loads(l)))
            except ValueError:
                raise Broken("unreadable TLC output: " + l[:300])
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states", text)
    gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    if p.returncode not in ok:
        raise Broken("TLC %s %s ended with %d:\n%s" % (module, cfg, p.returncode,
                     "\n".join(x for x in text.splitlines() if not x.startswith('"{'))[-5000:]))
    return Tlc(lines, gen, dist, p.returncode, text)


def check_model(ctx, module, cfg, env, workers, timeout, what):
    """Model checking proper: an invariant violation here is an error of the
    specification, never a verdict on the code."""
    r = tlc(ctx, module, cfg, env, workers=workers, timeout=timeout, heap="10g" if ctx.thorough else "5g")
    if "Model checking completed. No error has been found." not in r.text:
        raise Broken("the specification breaks its own invariants (%s):\n%s" % (what, r.text[-3000:]))
    ctx.count("states", r.distinct)
    ctx.count("transitions", max(r.generated - 1, 0))
    ctx.log("model %s: %d states, %d transitions" % (what, r.distinct, r.generated))
    ctx.coverage.setdefault("models", []).append({"what": what, "states": r.distinct, "transitions": r.generated})
    return r


def replay_path(ctx, name):
    d = os.environ.get("VERIF_REPLAYS", os.path.join(VERIF, "replays"))
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s-%s" % (ctx.pid, name))


def known_findings():
    """Open findings: 'open: property=<id> key=<key> <what>'."""
    res = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                res.append(m.groups())
    except FileNotFoundError:
        pass
    return res


def violation(ctx, key, replay, what):
    for p, k, w in known_findings():
        if p == ctx.pid and k == key:
            print("KNOWN-FINDING: property=%s %s" % (ctx.pid, w), flush=True)
            return
    ctx.violations.append((key, replay, what))
    ctx.log("violation:", what)


def finish(ctx, level):
    cov = dict(ctx.coverage)
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level,
          "coverage": cov, "assumptions": ctx.assumptions,
          "wall_s": round(time.time() - ctx.t0, 1), "violations": len(ctx.violations)}
    s = json.dumps(ev, indent=1)
    while len(s) > 60000 and cov.get("samples"):
        if len(cov["samples"]) == 1:
            cov["samples"] = [json.dumps(cov["samples"][0])[:5000]]
            s = json.dumps(ev, indent=1)
            break
        cov["samples"] = cov["samples"][:-1]
        s = json.dumps(ev, indent=1)
    d = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ctx.pid + ".json"), "w") as f:
        f.write(s + "\n")
    for key, replay, what in ctx.violations[:5]:
        print("VIOLATION property=%s replay=%s" % (ctx.pid, replay), flush=True)
    return 1 if ctx.violations else 0
