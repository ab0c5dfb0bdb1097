#!/usr/bin/env python3
"""seed.py SPECS.py [ID...]: builds seeded/<id>/ from specs of planted bugs.

A specs file defines BUGS, a list of dicts: id, property, edits [(file, old, new)], pkg (directory of the
test), test (Go source of demo_test.go; %PRELUDE% is replaced by the helpers below), needs, what. Each bug is
applied to a scratch copy of /repo and kept only if it builds, the stable tests pass and its demo passes
without and fails with it."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRELUDE = open(os.path.join(here, "tools", "prelude.go.txt")).read()
DEMO = '''#!/bin/bash
# Runs demo_test.go within %(pkg)s of the repository in the working directory; nonzero when it fails.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
overlay=$(mktemp) || exit 2
trap 'rm -f "$overlay"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_seeded_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$here" > "$overlay"
go test -overlay "$overlay" -vet=off -count=1 -timeout 120s -run '^TestSeededDemo$' ./%(pkg)s
'''
spec = {}
exec(open(sys.argv[1]).read(), spec)
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
env = "cd {d} && . /opt/vp/env.sh && "
def sh(c, d):
    return subprocess.run(["bash", "-c", env.format(d=d) + c], capture_output=True, text=True)
for b in spec["BUGS"]:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
        continue
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        r = os.path.join(d, "repo"); shutil.copytree("/repo", r, symlinks=True)
        out = os.path.join(d, "out"); os.mkdir(out)
        for f, o, n in b["edits"]:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(o) != 1:
                print(b["id"], "MATCHES", s.count(o), f, o[:60]); break
            open(p, "w").write(s.replace(o, n))
        else:
            open(out + "/patch.diff", "w").write(subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout)
            open(out + "/demo_test.go", "w").write("package %s_test\n\n" % b["pkg"].split("/")[-1] + PRELUDE.replace("%IMPORTS%", "".join("\t\"%s\"\n" % i for i in b.get("imports", []))) + b["test"])
            open(out + "/demo.sh", "w").write(DEMO % b)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(out + "/meta.json", "w"), indent=1)
            x = sh("go build ./... ", r)
            if x.returncode: print(b["id"], "BUILD", x.stderr[:600]); continue
            x = sh("go test -json -vet=off -count=1 ./... > %s/log; python3 /opt/vp/results.py %s/res.json gojson:%s/log" % (d, d, d), r)
            res = json.load(open(d + "/res.json"))
            missing = base - set(res["passed"])
            if missing: print(b["id"], "TESTS FAIL", sorted(missing)[:4]); continue
            x = sh("bash %s/demo.sh" % out, r)
            if x.returncode == 0: print(b["id"], "DEMO PASSES WITH BUG"); continue
            if "[build failed]" in x.stdout + x.stderr or "panic: runtime" in x.stderr: print(b["id"], "DEMO?", (x.stdout + x.stderr)[:900]); continue
            f = x.stdout
            x = sh("git checkout -q -- . && bash %s/demo.sh" % out, r)
            if x.returncode: print(b["id"], "DEMO FAILS WITHOUT", (x.stdout + x.stderr)[:900]); continue
            t = os.path.join(here, "seeded", b["id"]); shutil.rmtree(t, ignore_errors=True); shutil.copytree(out, t)
            print(b["id"], "ok", " | ".join(l.strip() for l in f.splitlines() if "demo_test.go" in l or "panic" in l)[:200])
    finally:
        shutil.rmtree(d, ignore_errors=True)
