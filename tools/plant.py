#!/usr/bin/env python3
"""Plants bugs: plant.py DEFS.py [ID..]   (DEFS.py defines BUGS, a list of dicts)
Each dict: id, property, needs, breaks, edits [(file, old, new)], demo (Go statements).
Writes /verif/seeded/<id>/ after confirming in a scratch copy of /repo that the change applies
to lines of the original repository, builds, passes the tests, and that the demonstration passes without
it and fails with it."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = "source /opt/vp/env.sh; "
MAIN = open(os.path.join(V, "tools", "demo_main.go.txt")).read()
SH = open(os.path.join(V, "tools", "demo.sh.txt")).read()

def sh(cmd, cwd):
    p = subprocess.run(["bash", "-c", ENV + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def baselines(f):
    out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "--root", f], stdout=subprocess.PIPE, text=True).stdout
    return [l.lstrip("^").startswith("598322a") for l in out.splitlines()]

def plant(b, scratch):
    subprocess.run("git checkout -q -- . && git clean -qfd", shell=True, cwd=scratch)
    for f, old, new in b["edits"]:
        s = open(os.path.join(scratch, f)).read()
        if s.count(old) != 1:
            return "edit: %d occurrences of %r in %s" % (s.count(old), old, f)
        open(os.path.join(scratch, f), "w").write(s.replace(old, new))
    rc, o = sh("gofmt -l . ; go build ./...", scratch)
    if rc: return "build: " + o
    diff = subprocess.run(["git", "diff"], cwd=scratch, stdout=subprocess.PIPE, text=True).stdout
    # changed or removed lines must be original ones
    old = {}
    cur, ln, hit = None, 0, 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]; old[cur] = baselines(cur)
        elif l.startswith("@@"):
            ln = int(l.split()[1].split(",")[0][1:]) - 1
        elif l.startswith("-") and not l.startswith("---"):
            if old[cur][ln]: hit += 1
            ln += 1
        elif l.startswith(" "): ln += 1
    if hit == 0: return "no original line changed"
    fails = set(json.load(open("/opt/vp/BASELINE.json")).get("x", []))
    rc, o = sh("go test -vet=off -count=1 ./... 2>&1", scratch)
    if rc: return "tests: " + o[-500:]
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.go.txt", "w").write(MAIN.replace("\t\"os\"\n", "\t\"os\"\n" + "".join("\t\"%s\"\n" % x for x in b.get("imports", []))).replace("//BODY", b["demo"].strip("\n")).replace("//DECLS", b.get("decls", "")))
    open(d + "/demo.sh", "w").write(SH.replace("go build", "CGO_ENABLED=1 go build -race") if b.get("race") else SH)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    rc1, o1 = sh("bash %s/demo.sh" % d, scratch)
    subprocess.run("git checkout -q -- .", shell=True, cwd=scratch)
    rc0, o0 = sh("bash %s/demo.sh" % d, scratch)
    if rc0 or not rc1:
        shutil.rmtree(d)
        return "demo: clean rc %d %s / planted rc %d %s" % (rc0, o0[-600:], rc1, o1[-600:])
    return "ok: " + o1.strip().splitlines()[0][:200]

ns = {}
exec(open(sys.argv[1]).read(), ns)
scratch = tempfile.mkdtemp(prefix="plant") + "/repo"
shutil.copytree("/repo", scratch, symlinks=True)
for b in ns["BUGS"]:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
    print(b["id"], plant(b, scratch), flush=True)
shutil.rmtree(os.path.dirname(scratch))
