#!/usr/bin/env python3
"""plant.py FILE... : plants the bugs defined in Python files (SEEDS = [dict(id, property, needs, what_it_breaks, edits=[(file, old, new)], demo=go source)]).
Each is confirmed in a scratch copy of /repo: builds, passes the stable tests, demo passes without and fails with it. Then it is kept in seeded/<id>/."""
import json, os, runpy, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# Runs demo.go inside the module of the current directory (through an overlay, nothing is written there).
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOPATH=/root/go GOCACHE=/root/.cache/go-build
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
ov=$(mktemp)
printf '{"Replace":{"%s/verifdemo/main.go":"%s/demo.go"}}' "$PWD" "$here" > "$ov"
@ENV@go run @FLAGS@-overlay "$ov" ./verifdemo
'''
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOPATH="/root/go",
           GOCACHE="/root/.cache/go-build", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
stable = None
def run(cmd, cwd, timeout=300, env=ENV):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def tests(cwd):
    r = run(["go", "test", "-json", "./..."], cwd)
    passed = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"):
            passed.add(e["Package"] + "/" + e["Test"])
    return passed
def main():
    ok = bad = 0
    base = None
    for f in sys.argv[1:]:
        for s in runpy.run_path(f)["SEEDS"]:
            d = tempfile.mkdtemp(prefix="plant-")
            repo = os.path.join(d, "repo")
            try:
                shutil.copytree("/repo", repo)
                if base is None:
                    base = tests(repo)
                    print("baseline", len(base))
                sd = os.path.join(d, "seed"); os.mkdir(sd)
                open(os.path.join(sd, "demo.go"), "w").write(s["demo"])
                open(os.path.join(sd, "demo.sh"), "w").write(DEMO_SH.replace("@FLAGS@", s.get("flags", "")).replace("@ENV@", s["env"] + " " if "env" in s else ""))
                os.chmod(os.path.join(sd, "demo.sh"), 0o755)
                r = run(["bash", os.path.join(sd, "demo.sh")], repo)
                if r.returncode != 0:
                    print("BAD", s["id"], "demo fails on the unchanged tree:", r.stdout[-1500:]); bad += 1; continue
                for file, old, new in s["edits"]:
                    p = os.path.join(repo, file); t = open(p).read()
                    n = t.count(old)
                    if n != 1:
                        print("BAD", s["id"], file, "old text occurs", n, "times:", old[:80]); break
                    open(p, "w").write(t.replace(old, new))
                else:
                    run(["gofmt", "-l", "."], repo)
                    r = run(["go", "build", "./..."], repo)
                    if r.returncode != 0:
                        print("BAD", s["id"], "build:", r.stdout[-800:]); bad += 1; continue
                    t = tests(repo)
                    if base - t:
                        print("BAD", s["id"], "tests fail:", sorted(base - t)[:3], len(base - t)); bad += 1; continue
                    r = run(["bash", os.path.join(sd, "demo.sh")], repo)
                    if r.returncode == 0:
                        print("BAD", s["id"], "demo passes with the patch"); bad += 1; continue
                    out = os.path.join(ROOT, "seeded", s["id"])
                    os.makedirs(out, exist_ok=True)
                    diff = run(["git", "diff"], repo).stdout
                    open(os.path.join(out, "patch.diff"), "w").write(diff)
                    for n in ("demo.go", "demo.sh"):
                        shutil.copy(os.path.join(sd, n), os.path.join(out, n))
                    json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(out, "meta.json"), "w"), indent=1)
                    print("ok ", s["id"], "|", r.stdout.strip().splitlines()[0][:160] if r.stdout.strip() else ""); ok += 1
                    continue
                bad += 1
            finally:
                shutil.rmtree(d)
    print(ok, "planted,", bad, "bad")
main()
