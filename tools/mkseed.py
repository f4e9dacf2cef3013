#!/usr/bin/env python3
"""Plants bugs in a scratch copy, confirms them and stores them under seeded/. Usage: mkseed.py SPEC.py [id...]
SPEC.py defines SEEDS: list of dicts id, prop, edits [(file, old, new)], needs, breaks, pkg, test (Go source), cmd(optional demo body)."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
DEMO = r'''#!/bin/bash
# run in the repository: fails when the planted change is present
d="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=readonly -buildvcs=false"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%s/@PKG@/zz_demo_test.go": "%s/demo_test.go"@DEL@}}' "$PWD" "$d" > "$t/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/o.json" -run '^TestDemo' ./@PKG@
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for s in ns["SEEDS"]:
        if want and s["id"] not in want: continue
        sh("rm -rf %s" % W); sh("cp -a /repo %s" % W)
        d = os.path.join(V, "seeded", s["id"])
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(W, f); t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT matches", t.count(old), "times:", old[:60]); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok: continue
        os.makedirs(d, exist_ok=True)
        diff = sh("git diff", cwd=W).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        if "test" in s:
            open(os.path.join(d, "demo_test.go"), "w").write(s["test"])
        demo = s.get("demo") or DEMO.replace("@PKG@", s["pkg"]).replace("@DEL@", "")
        open(os.path.join(d, "demo.sh"), "w").write(demo)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        for n, c in s.get("files", {}).items():
            open(os.path.join(d, n), "w").write(c)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        # tests on the patched copy
        r = sh(". /opt/vp/env.sh; go build ./... && go vet ./libs/... 2>/dev/null; go test -vet=off $(go list ./... | grep -v 'cli/receiver$') 2>&1 | grep -v 'no test files'", cwd=W)
        bad = [l for l in r.stdout.split("\n") if l.startswith("FAIL") or "build failed" in l or l.startswith("---")]
        b = sh("bash %s/demo.sh" % d, cwd=W)
        g = sh("bash %s/demo.sh" % d, cwd="/repo")
        print(s["id"], s["prop"], "tests:", "ok" if not bad else bad, "demo patched:", b.returncode, "clean:", g.returncode)
        if g.returncode != 0: print(g.stdout[-1500:], g.stderr[-500:])
        if b.returncode == 0: print("  DEMO DOES NOT FAIL")
        elif "build failed" in b.stdout: print(b.stdout[-1500:])
    sh("rm -rf %s" % W)
main()
