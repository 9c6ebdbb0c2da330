#!/usr/bin/env python3
"""Plants a bug: plant.py SPEC.py...   (SPEC.py sets ID, PROPERTY, NEEDS, BREAKS, EDITS, PKG, DEMO)

In a scratch copy of /repo it applies EDITS = [(file, old, new), ...], builds, runs the stable
tests, runs the demonstration with and without the change, and stores /verif/seeded/<ID>/.
plant.py --recheck [ID...] confirms stored ones against the present /repo."""
import json, os, re, shutil, subprocess, sys, tempfile
SEED = "/verif/seeded"
ENV = dict(os.environ, HOME="/root", GOROOT="/opt/veriftools/go1.24.13", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="",
           GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
           PATH="/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
PKGS = ["./...", "./x/bench/...", "./x/ftdc/..."]
DEMO_SH = r'''#!/bin/bash
# Runs demo_test.go inside package %s of the repository in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
[ -f "$PWD/go.work" ] && export GOWORK="$PWD/go.work"
o=$(mktemp /tmp/demo.XXXXXX) || exit 3
trap 'rm -f "$o"' EXIT
echo "{\"Replace\":{\"$PWD/%s/zz_demo_test.go\":\"$here/demo_test.go\"}}" > "$o"
go test -vet=off -count=1 -timeout 120s%s -overlay "$o" -run '^TestZZDemo$' ./%s
'''

def run(cmd, cwd, **kw):
    env = dict(ENV, GOWORK=cwd + "/go.work")
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, **kw)

def scratch():
    d = tempfile.mkdtemp(prefix="plant.")
    subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
    return d

def stable(repo):
    pkgs = run(["go", "list", "-e"] + PKGS, repo).stdout.split()
    pkgs = [p for p in pkgs if p != "github.com/tychoish/birch/x/ftdc/metrics"]
    b = run(["go", "build"] + PKGS, repo)
    if b.returncode: return "build: " + b.stderr
    base = set(json.load(open("/opt/vp/BASELINE.json"))["tests"]) if isinstance(json.load(open("/opt/vp/BASELINE.json")), dict) and "tests" in json.load(open("/opt/vp/BASELINE.json")) else None
    t = run(["go", "test", "-vet=off", "-count=1", "-p", "1", "-timeout", "10m"] + pkgs, repo)
    if t.returncode:
        bad = [l for l in t.stdout.split("\n") if re.match(r"\s*--- FAIL|FAIL|panic", l)]
        names = re.findall(r"--- FAIL: (\S+)", t.stdout)
        leaves = [n for n in names if not any(m.startswith(n + "/") for m in names)]
        # a test that times its own sleeps fails now and then on a busy machine
        if leaves and all(n.endswith("/BeginEndSizeCycle") for n in leaves) and "panic:" not in t.stdout: return ""
        return "tests: " + "\n".join(bad[:30])
    return ""

def demo(dirname, repo):
    tmp = tempfile.mkdtemp(prefix="demo.")
    for f in os.listdir(dirname):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(os.path.join(dirname, f), tmp)
    try:
        r = run(["bash", tmp + "/demo.sh"], repo, timeout=300)
    finally:
        shutil.rmtree(tmp)
    return r

def plant(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = scratch(); repo = d + "/repo"
    try:
        for f, old, new in ns["EDITS"]:
            p = os.path.join(repo, f); s = open(p).read()
            if s.count(old) != 1:
                print(ns["ID"], "EDIT matches", s.count(old), "times in", f, repr(old[:60])); return False
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        out = os.path.join(SEED, ns["ID"]); os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo_test.go", "w").write(ns["DEMO"].lstrip())
        pkg = ns.get("PKG", "."); race = " -race" if ns.get("RACE") else ""
        open(out + "/demo.sh", "w").write(DEMO_SH % (pkg, pkg, race, pkg))
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        ok = confirm(out, repo)
        if not ok: shutil.rmtree(out)
        return ok
    finally:
        shutil.rmtree(d)

def confirm(out, repo, tests=True):
    i = os.path.basename(out)
    if tests:
        e = stable(repo)
        if e:
            e2 = stable(repo) if e.startswith("tests") else e
            if e2:
                print(i, "NOT PLANTED:", e2); return False
    r = demo(out, repo)
    if r.returncode == 0:
        print(i, "NOT PLANTED: the demo passes with the change"); return False
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=repo, check=True)
    r2 = demo(out, repo)
    if r2.returncode != 0:
        print(i, "NOT PLANTED: the demo fails without the change:", r2.stdout[-2500:], r2.stderr[-1500:]); return False
    m = [l for l in r.stdout.split("\n") if l.strip() and not l.startswith(("---", "===", "FAIL"))]
    print(i, "ok:", (m or r.stderr.split("\n"))[0][:200]); return True

def recheck(ids):
    for i in ids or sorted(os.listdir(SEED)):
        d = scratch(); repo = d + "/repo"
        try:
            r = subprocess.run(["git", "apply", f"{SEED}/{i}/patch.diff"], cwd=repo, capture_output=True, text=True)
            if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stderr[:200]); continue
            confirm(f"{SEED}/{i}", repo)
        finally:
            shutil.rmtree(d)

if sys.argv[1] == "--recheck": recheck(sys.argv[2:])
else:
    for s in sys.argv[1:]: plant(s)
