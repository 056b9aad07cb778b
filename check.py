#!/usr/bin/env python3
"""Decide one property of cloudprivacylabs/opencypher by trace validation.

  check.py PROPERTY [--tier quick|thorough] [--seed N]

1. build the driver in harness/ against the working tree of /repo;
2. record histories: the driver executes generated, hand-written (corpus/) and
   specification-generated (spec/Gen*.tla) histories on the real library;
3. TLC follows every history in spec/Trace.tla and reports the events that the
   specification does not permit;
4. exit 1 with a VIOLATION line if there is one that findings/ does not list.
"""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
TLC = ["java", "-Xss64m", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"]
CORES = min(8, os.cpu_count() or 4)

# histories per shard and number of shards; GEN: modules whose behaviours are replayed
PLAN = json.load(open(os.path.join(VERIF, "plan.json")))

TEXT = re.compile(r'"text":("(?:[^"\\]|\\.)*"|\[[^\]]*\])')

GOENV = dict(os.environ)
GOENV.update(HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"), GOTOOLCHAIN="local",
             GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off", TZ="UTC",
             PATH="/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin:" + os.environ.get("PATH", ""))
GOENV.pop("GOROOT", None)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(scratch, race=False):
    out = os.path.join(scratch, "drv-race" if race else "drv")
    env = dict(GOENV, CGO_ENABLED="1" if race else "0")
    src = os.path.join(scratch, "harness")
    if not os.path.isdir(src):
        shutil.copytree(os.path.join(VERIF, "harness"), src)
        if os.environ.get("VERIF_REPO"):        # for development: judge a scratch copy of /repo
            m = os.path.join(src, "go.mod")
            text = open(m).read().replace("=> /repo", "=> " + os.environ["VERIF_REPO"])
            open(m, "w").write(text)
    p = subprocess.run(["go", "build"] + (["-race"] if race else []) + ["-o", out, "."],
                       cwd=src, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        log(p.stdout + p.stderr)
        sys.exit(3)
    return out


# the driver runs in several time zones (minutes east of UTC), all without clock changes
ZONES = [0, 14 * 60, 0, -11 * 60, 5 * 60 + 30]


def drive(drv, args, out, scratch, timeout=900, zone=0):
    """Run the driver; a crash of the process becomes a panic event."""
    cmd = [drv, "-o", out, "-zone", str(zone)] + args
    env = dict(GOENV, GOMAXPROCS="4" if "drv-race" in drv else "2", GORACE="halt_on_error=1 exitcode=66",
               GOGC="400", GOMEMLIMIT="800MiB")
    def start(cmd):
        return subprocess.run(["bash", "-c", 'ulimit -v 16000000; exec "$@"', "x"] + cmd if "drv-race" not in drv else cmd,
                              env=env, capture_output=True, text=True, timeout=timeout)
    p = start(cmd)
    for wait in (5, 20):
        if p.returncode != -9:      # killed from outside: memory of the machine ran out
            break
        time.sleep(wait)
        p = start(cmd)
    if p.returncode == 0:
        return None
    msg = (p.stdout + p.stderr)[-6000:]
    # find the history in progress
    prog = out + ".progress"
    if "drv-race" not in drv:
        again = start(cmd[:1] + ["-o", out + ".2", "-zone", str(zone)] + args + ["-careful", prog])
        if p.returncode == -9 and again.returncode == 0:
            os.replace(out + ".2", out)
            return None
    h = None
    if os.path.exists(prog):
        try:
            h = json.load(open(prog))
        except ValueError:
            h = None
    return {"msg": msg, "history": h}


class Judge:
    """TLC follows recorded histories in spec/Trace.tla."""
    def __init__(self, scratch, deadline, quick):
        self.quick = quick
        self.scratch = scratch
        self.deadline = deadline
        self.unjudged = []      # histories TLC could not follow (errors, time)

    def tlc(self, trace, timeout):
        meta = tempfile.mkdtemp(dir=self.scratch)
        env = dict(os.environ, TRACE=trace)
        out = os.path.join(meta, "out")
        cmd = TLC[:1] + (["-XX:TieredStopAtLevel=1"] if self.quick else []) + TLC[1:] + ["-Xmx3g", "-XX:+UseSerialGC", "tlc2.TLC", "-noGenerateSpecTE", "-workers", "1", "-metadir", meta,
                     "-config", "Trace.cfg", "Trace.tla"]
        with open(out, "w") as o:
            try:
                rc = subprocess.run(cmd, cwd=SPEC, env=env, stdout=o, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                rc = -1
        txt = open(out, errors="replace").read()
        shutil.rmtree(meta, ignore_errors=True)
        vs = [(v.group(1), v.group(2), int(v.group(3)))
              for v in re.finditer(r'<<\s*"VERDICT",\s*"(\w+)",\s*"([^"]*)",\s*(\d+)\s*>>', txt)]
        return rc, txt, vs

    def __call__(self, trace):
        """-> (list of (verdict, history id, event index), number of states)"""
        lines = open(trace).readlines()
        want = sum(1 + len(json.loads(x)["ev"]) for x in lines)
        if want == 0:
            return [], 0
        left = self.deadline - time.time()
        if left < 5:
            self.unjudged += [json.loads(x)["h"] for x in lines]
            return [], 0
        slow = max(45, 3 * len(lines)) if self.quick else max(240, 3 * len(lines))
        rc, txt, vs = self.tlc(trace, min(left, slow))
        m = re.search(r"(\d+) states generated, (\d+) distinct", txt)
        if rc == 0 and m and int(m.group(1)) == want:
            return vs, want
        i = txt.find("Error:")
        log("TLC did not follow %s (rc %d, want %d states): %s" % (trace, rc, want, txt[max(0, i):i + 1500]))
        if len(lines) == 1:
            if os.environ.get("VERIF_SLOW"):
                shutil.copy(trace, os.environ["VERIF_SLOW"])
            self.unjudged += [json.loads(x)["h"] for x in lines]
            return vs, 0
        # one history stops the others: look at them in smaller groups
        total, k = 0, (len(lines) + 7) // 8
        parts = []
        for j in range(0, len(lines), k):
            part = "%s.p%d" % (trace, j)
            with open(part, "w") as o:
                o.writelines(lines[j:j + k])
            parts.append(part)
        with ThreadPoolExecutor(4) as ex:
            results = list(ex.map(self, parts))
        for v2, w2 in results:
            vs += v2
            total += w2
        return sorted(set(vs)), total


def history(traces, hid):
    for t in traces:
        with open(t) as f:
            for line in f:
                h = json.loads(line)
                if h["h"] == hid:
                    return h
    return None


def minimal(h, i):
    """The history up to event i, as a script that can be replayed."""
    g = dict(h)
    g["ev"] = h["ev"][:i]
    return g


def generate(mod, scratch, tier):
    """Model-check MODULE:CONFIG; its CASE lines are histories to replay."""
    mod, cfg = mod.split(":")
    cfg = "%s_%s%s.cfg" % (mod, cfg, "" if tier == "quick" else "_thorough")
    if not os.path.exists(os.path.join(SPEC, cfg)):
        cfg = cfg.replace("_thorough", "")
    meta = tempfile.mkdtemp(dir=scratch)
    out = os.path.join(scratch, mod + ".cases")
    env = dict(os.environ, CASES=out)
    p = subprocess.run(TLC + ["-Xmx8g", "-XX:+UseParallelGC", "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(CORES), "-metadir", meta, "-config", cfg, mod + ".tla"],
                       cwd=SPEC, env=env, capture_output=True, text=True, timeout=3000)
    m = re.search(r"(\d+) states generated, (\d+) distinct", p.stdout)
    if p.returncode != 0 or not m:
        log("TLC failed on %s:\n%s" % (mod, p.stdout[-4000:] + p.stderr[-500:]))
        sys.exit(4)
    cases = []
    for line in p.stdout.splitlines():
        if line.startswith('"CASE '):
            cases.append(json.loads(json.loads(line)[5:]))
    shutil.rmtree(meta, ignore_errors=True)
    cases = [json.loads(x) for x in sorted({json.dumps(c) for c in cases})]
    return cases, int(m.group(1)), int(m.group(2))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--show", type=int, default=5)
    a = ap.parse_args()
    t0 = time.time()
    plan = PLAN[a.prop]
    quick = a.tier != "thorough"
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    try:
        rc = run(a, plan, quick, scratch, t0)
    finally:
        if a.keep:
            log("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(a, plan, quick, scratch, t0):
    race = plan.get("race", False)
    drv = build(scratch, race)
    judge = Judge(scratch, t0 + (plan.get("budget", 600) if quick else plan.get("budget_thorough", 3000)), quick)
    traces, crashes = [], []
    spec_states = spec_distinct = 0

    # hand-written and regression histories
    corpus = os.path.join(VERIF, "corpus", a.prop + ".ndjson")
    replays = []
    if os.path.exists(corpus):
        replays.append((corpus, "corpus"))
    # behaviours generated from the specification
    for mod in plan.get("gen", []) + ([] if quick else plan.get("gen_thorough", [])):
        cases, st, di = generate(mod, scratch, a.tier)
        spec_states += st
        spec_distinct += di
        log("%s: %d states, %d distinct, %d cases" % (mod, st, di, len(cases)))
        k = max(1, (len(cases) + CORES - 1) // CORES)
        for j in range(0, len(cases), k):
            f = os.path.join(scratch, "%s-%d.case" % (mod.replace(":", "_"), j))
            with open(f, "w") as o:
                for c, x in enumerate(cases[j:j + k]):
                    x["h"] = "%s-%d" % (mod.replace(":", "_"), j + c)
                    o.write(json.dumps(x) + "\n")
            replays.append((f, "%s-%d" % (mod.replace(":", "_"), j)))

    jobs = []
    for f, name in replays:
        jobs.append((["-replay", f, "-seed", str(a.seed)], os.path.join(scratch, name + ".ndjson")))
    n = plan["n"] if quick else plan["n"] * plan.get("thorough", 20)
    shards = plan.get("shards", CORES)
    maxsec = plan.get("maxsec", 40) if quick else plan.get("maxsec_thorough", 360)
    if n > 0:
        for s in range(shards):
            args = ["-prop", a.prop, "-seed", str(a.seed * 1000 + s), "-n", str(max(1, n // shards)),
                    "-maxsec", str(maxsec)] + plan.get("args", [])
            jobs.append((args, os.path.join(scratch, "gen-%d.ndjson" % s), ZONES[s % len(ZONES)]))

    def record(job):
        return drive(drv, job[0], job[1], scratch, zone=job[2] if len(job) > 2 else 0)
    with ThreadPoolExecutor(CORES if not race else 4) as ex:
        for job, crash in zip(jobs, ex.map(record, jobs)):
            traces.append(job[1])
            if crash:
                crashes.append(crash)
    t1 = time.time()

    bad, opened, events, hists = [], 0, 0, 0
    parts = []
    for t in traces:     # split large traces so that TLC keeps its memory small
        with open(t) as f:
            lines = f.readlines()
        hists += len(lines)
        step = 2000
        for j in range(0, len(lines), step):
            q = t + ".%d" % j
            with open(q, "w") as o:
                o.writelines(lines[j:j + step])
            parts.append(q)
    with ThreadPoolExecutor(CORES) as ex:
        for vs, want in ex.map(judge, parts):
            events += want
            for v in vs:
                if v[0] == "bad":
                    bad.append(v)
                else:
                    opened += 1
                    if os.environ.get("VERIF_OPEN") and opened <= int(os.environ["VERIF_OPEN"]):
                        e = history(traces, v[1])["ev"][v[2] - 1]
                        log("  open:", e.get("text") or e["ev"], json.dumps(e.get("par")), "->", json.dumps(e.get("out"))[:200])
    events -= hists - len(judge.unjudged)
    for x in judge.unjudged[:5]:
        log("not judged: " + x)
    log("%s: recorded %d histories, %d events in %.1fs; judged in %.1fs; open %d, rejected %d, crashes %d"
        % (a.prop, hists, events, t1 - t0, time.time() - t1, opened, len(bad), len(crashes)))

    if len(judge.unjudged) * 4 > hists and not bad and not crashes:
        log("too little was judged")
        return 4
    # known findings: each listed history must fail as listed; nothing else is excused
    known, stale = [], []
    for f in sorted(glob.glob(os.path.join(VERIF, "findings", a.prop + "-*.json"))):
        case = json.load(open(f))
        o = os.path.join(scratch, os.path.basename(f) + ".ndjson")
        one = os.path.join(scratch, os.path.basename(f) + ".case")
        with open(one, "w") as w:
            w.write(json.dumps(case["history"]) + "\n")
        crash = drive(drv, ["-replay", one, "-seed", str(a.seed)], o, scratch)
        vs = [] if crash else judge(o)[0]
        if crash or any(v[0] == "bad" for v in vs):
            known.append(case["what"])
            print("KNOWN-FINDING: property=%s %s" % (a.prop, case["what"]))
        else:
            stale.append(case["what"])
            log("listed finding no longer fails: " + case["what"])

    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, a.prop + "-*.json")):
        os.remove(f)
    samples, shown = [], 0
    violations = []
    for k, c in enumerate(crashes):
        path = os.path.join(rdir, "%s-crash%d.json" % (a.prop, k))
        json.dump({"crash": c["msg"], "history": c["history"]}, open(path, "w"))
        violations.append({"replay": path, "what": "the process died: " + c["msg"][-300:]})
    seen = set()
    for v in bad:
        if len(violations) >= 20 and not os.environ.get("VERIF_ALL"):
            break
        if (v[1], v[2]) in seen:
            continue
        seen.add((v[1], v[2]))
        h = history(traces, v[1])
        path = os.path.join(rdir, "%s-%s-%d.json" % (a.prop, re.sub(r"\W", "_", v[1]), v[2]))
        json.dump(minimal(h, v[2]), open(path, "w"))
        e = h["ev"][v[2] - 1]
        violations.append({"replay": path, "what": (e.get("text") if isinstance(e.get("text"), str) else e["ev"]) or "", "out": e.get("out")})
    for t in traces[-3:]:
        with open(t) as f:
            for line in f:
                h = json.loads(line)
                for e in [x for x in h["ev"] if x["ev"] != "load"][:2]:
                    if isinstance(e.get("text"), str):
                        samples.append(e["text"][:300])
                    else:
                        samples.append(json.dumps({k: e[k] for k in e if k != "post"})[:300])
                break
    texts = set()
    for t in traces:
        with open(t) as f:
            for line in f:
                for x in TEXT.findall(line):
                    if len(x) >= 14:
                        texts.add(hash(re.sub(r"\s+|\\\\[nrt]", " ", x).lower()))
    ev = {"property": a.prop, "tier": "quick" if quick else "thorough", "seed": a.seed,
          "level": plan["level"],
          "coverage": {"states": events + hists + spec_distinct, "transitions": events + spec_states,
                       "traces_validated_against_impl": hists,
                       "evaluations": events, "distinct_nontrivial": len(texts),
                       "rule": "events of seeded generated histories and of replayed behaviours of the model, each executed by the "
                               "real code and judged by TLC; distinct texts (case and white space aside) of at least 12 characters",
                       "events_left_open_by_spec": opened,
                       "histories_not_judged": len(judge.unjudged),
                       "spec_states_explored": spec_distinct,
                       "known_findings_reproduced": len(known),
                       "samples": samples[:8]},
          "wall_s": round(time.time() - t0, 2), "violations": len(violations) if violations else 0,
          "assumptions": plan.get("assumptions", []) + PLAN["_assumptions"]}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, a.prop + ".json"), "w"), indent=1)
    if violations:
        for v in violations[:a.show]:
            log("  rejected:", v["what"], "->", json.dumps(v.get("out"))[:400])
        print("VIOLATION property=%s replay=%s" % (a.prop, violations[0]["replay"]))
        return 1
    return 0


if __name__ == "__main__":
    main()
