#!/usr/bin/env python3
"""selftest.py SPEC.py [-v] [-t] [-x] [NAME...]: applies each edit of a spec to a scratch copy of /repo and runs the checks
named on it. BUG entries must be reported by at least one of them, SAME entries (refactorings) by none.

A spec defines CASES = [(kind, name, "C16 C17", [(file, old, new), ...]), ...].
"""
import os, subprocess, sys, tempfile, shutil, importlib.util
from concurrent.futures import ThreadPoolExecutor

for l in subprocess.run(["bash", "-c", ". " + os.path.dirname(os.path.abspath(__file__)) + "/../env.sh >/dev/null; env -0"], capture_output=True, text=True).stdout.split("\0"):
    if "=" in l:
        os.environ.__setitem__(*l.split("=", 1))

NC = os.environ.get("NC", "/tmp/nc")


def run(case):
    kind, name, props, edits = case
    d = tempfile.mkdtemp(prefix="selft", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read() if os.path.exists(p) else ""
            if old not in s:
                return (kind, name, "NOMATCH", f + ": " + old[:60])
            open(p, "w").write(s.replace(old, new, 1))
        b = subprocess.run(["go", "build", "./..."], cwd=d, capture_output=True, text=True)
        if b.returncode:
            return (kind, name, "NOBUILD", b.stderr[:300])
        if "-t" in sys.argv:
            t = subprocess.run(["go", "test", "./..."], cwd=d, capture_output=True, text=True)
            if t.returncode:
                return (kind, name, "TESTSFAIL", "")
        hits, first = [], ""
        l = props.split() if props != "*" and not ("-x" in sys.argv and kind == "SAME") else [f"C{i:02d}" for i in range(1, 28)]
        r = subprocess.run([NC, "-repo", d, "-prop", ",".join(l), "-out", d + ".ev"], capture_output=True, text=True)
        lines = r.stdout.splitlines()
        for n, x in enumerate(lines):
            if x.startswith("VIOLATION property="):
                p = x.split("=")[1].split()[0]
                hits.append(p)
                k = n
                while not lines[k].startswith(p + ":"):
                    k -= 1
                first = first or lines[k + 1].strip()
        if "could not be loaded" in r.stdout or sum(x[:1] == "C" and ": " in x[:5] for x in lines) != len(l):
            return (kind, name, "CRASH", r.stdout[-200:] + r.stderr[-300:])
        ok = bool(hits) == (kind == "BUG")
        return (kind, name, "ok" if ok else "WRONG", " ".join(hits) + " " + first)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + ".ev", ignore_errors=True)


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    sp = importlib.util.spec_from_file_location("spec", a[0])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    cases = [c for c in m.CASES if not a[1:] or c[1] in a[1:]]
    if "-x" in sys.argv:  # refactorings only, by every check
        cases = [c for c in cases if c[0] == "SAME"]
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
        for r in ex.map(run, cases):
            if r[2] != "ok" or "-v" in sys.argv:
                print(r[0], r[1], r[2], r[3][:int(os.environ.get("W","240"))])
            bad += r[2] != "ok"
    print(len(cases), "cases,", bad, "wrong")
    sys.exit(bad > 0)


main()
