#!/usr/bin/env python3
"""Makes and validates planted bugs.

seedtool.py SPEC.py [ID ...]   SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, pkg, demo)]
  builds /verif/seeded/ID, verifies in a scratch copy of /repo: builds, stable tests pass, demo 0 / nonzero.
  With CHECKS=1 the property's check is run against the scratch copy as well.
"""
import json, os, shutil, subprocess, sys, runpy
ENV = dict(os.environ, PATH="/opt/veriftools/go1.25.14/bin:" + os.environ["PATH"], HOME="/root",
           GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
WT = os.environ.get("SEEDWT", "/tmp/seedwt")
DEMO = """#!/bin/bash
# Exit 0: the behaviour is as the property says. Run with the repository as the working directory.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.25.14/bin:$PATH HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/PKG/zz_seed_test.go":"%s/demo_test.go"}}' "$PWD" "$here" >"$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -count=1 RACE-timeout 120s -run '^TestSeed$' ./PKG
"""
def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)

def fresh():
    shutil.rmtree(WT, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", WT], check=True)
    sh("git checkout -q -- . && git clean -fdq", WT)

def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    want = sys.argv[2:]
    base = sh("git rev-list --max-parents=0 HEAD", "/repo").stdout.strip()
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
    for s in seeds:
        if want and s["id"] not in want: continue
        fresh()
        d = "/verif/seeded/" + s["id"]
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(WT, f); t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "edit matches", t.count(old), "times:", old[:60]); ok = False; break
            orig = sh(f"git show {base}:{f}", "/repo").stdout
            open(p, "w").write(t.replace(old, new))
        if not ok: continue
        os.makedirs(d, exist_ok=True)
        r = sh("gofmt -l mpd xml", WT)
        if r.stdout.strip(): print(s["id"], "gofmt:", r.stdout.strip())
        diff = sh("git diff", WT).stdout
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        origall = "".join(sh(f"git show {base}:{f}", "/repo").stdout for f in {e[0] for e in s["edits"]})
        miss = [l for l in removed if l.strip() and l not in origall.splitlines()]
        if miss: print(s["id"], "NOTE not original lines:", miss)
        if not removed: print(s["id"], "NOTE only adds lines")
        open(d + "/patch.diff", "w").write(diff)
        pkg = s.get("pkg", "mpd")
        open(d + "/demo.sh", "w").write(DEMO.replace("PKG", pkg).replace("RACE", "-race " if s.get("race") else ""))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo_test.go", "w").write(s["demo"].strip() + "\n")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        a = sh(d + "/demo.sh", "/repo")
        b = sh("go build ./... && go vet ./mpd ./xml >/dev/null 2>&1; " + d + "/demo.sh", WT)
        t = sh("go test ./... 2>&1", WT)
        print(s["id"], s["property"], "demo unpatched", a.returncode, "patched", b.returncode, "tests", t.returncode, flush=True)
        if a.returncode != 0: print(a.stdout[-1500:], a.stderr[-500:])
        if b.returncode == 0: print("  demo does not fail")
        elif "FAIL: TestSeed" not in b.stdout and "panic" not in b.stdout: print("  demo fails oddly:", b.stdout[-800:], b.stderr[-500:])
        if t.returncode != 0: print("\n".join(l for l in t.stdout.splitlines() if "FAIL" in l)[:1500])
        if os.environ.get("CHECKS"):
            run_checks(s)

def run_checks(s):
    ids = os.environ["CHECKS"] if os.environ["CHECKS"] != "1" else s["property"]
    shutil.rmtree("/tmp/seedmc", ignore_errors=True)
    subprocess.run(["cp", "-a", "/verif/mc", "/tmp/seedmc"], check=True)
    t = open("/tmp/seedmc/go.mod").read().replace("=> /repo", "=> " + WT)
    open("/tmp/seedmc/go.mod", "w").write(t)
    r = sh("go build -o /tmp/seedmc/bin .", "/tmp/seedmc")
    if r.returncode: print("  build:", r.stderr[-800:]); return
    os.makedirs("/tmp/seedroot", exist_ok=True); shutil.copy("/verif/known_findings.json", "/tmp/seedroot/")
    for i in ids.split():
        if i == "C08":
            r = sh(f"rm -rf /tmp/seedov; /tmp/seedmc/bin instrument {WT} /tmp/seedov /tmp/seedmc && cd /tmp/seedmc && go build -race -gcflags=all=-d=checkptr=0 -overlay /tmp/seedov/overlay.json -o /tmp/seedmc/bin .")
            if r.returncode: print("  instrumented build:", r.stderr[-800:]); continue
        r = subprocess.run(["/tmp/seedmc/bin", "run", i, "quick"], env=dict(ENV, MC_ROOT="/tmp/seedroot", MC_REPO=WT, GORACE="log_path=/tmp/seedrace exitcode=0"), capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print("  check", i, "exit", r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", (r.stdout.splitlines() or [""])[-1][:150], flush=True)

if __name__ == "__main__": main()
