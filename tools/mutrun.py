#!/usr/bin/env python3
"""mutrun.py KIND IN.jsonl OUT.jsonl [-j N]: tries the changes that checker/cmd/mut lists.

KIND bug: each change that builds and passes the tests of the repository is given to all rules; OUT gets one line per
such change with the properties reported (none: the change was missed, or breaks no property).
KIND same: the changes of one operator are applied together; where a rule raises an alarm they are tried one
by one; OUT gets one line per change that raises an alarm.
"""
import json, os, subprocess, sys, threading, queue, shutil
here = os.path.dirname(os.path.abspath(__file__))


def env(f):
    e = dict(os.environ)
    for l in subprocess.run(["bash", "-c", ". " + f + " >/dev/null; env -0"], capture_output=True, text=True).stdout.split("\0"):
        if "=" in l:
            k, v = l.split("=", 1)
            e[k] = v
    return e


VENV, TENV = env(here + "/../env.sh"), env("/opt/vp/env.sh")
NC = os.environ.get("NC", "/tmp/nc")
ALL = ",".join(f"C{i:02d}" for i in range(1, 28))
lock = threading.Lock()


def put(d, edits, file):
    p = os.path.join(d, file)
    s = open(os.path.join("/repo", file), "rb").read()
    for e in sorted(edits, key=lambda e: (-e["Off"], -e["End"])):
        s = s[:e["Off"]] + e["New"].encode() + s[e["End"]:]
    open(p, "wb").write(s)


def back(d, file):
    shutil.copyfile(os.path.join("/repo", file), os.path.join(d, file))


def builds(d):
    return subprocess.run(["go", "build", "./..."], cwd=d, env=TENV, capture_output=True).returncode == 0


def passes(d):
    try:
        return subprocess.run(["go", "test", "-vet=off", "-count=1", "-timeout", "60s", "./..."], cwd=d, env=TENV, capture_output=True, timeout=90).returncode == 0
    except subprocess.TimeoutExpired:
        return False


def order(file):
    l = ALL.split(",")
    return sorted(l, key=lambda x: (x < "C13" or x > "C25") if "header" in file or file.startswith("rep") or "internal" in file else False)


def check(d, kind="bug", file=""):
    try:
        e = dict(VENV, NEGCHECK_FIRST="1") if kind == "bug" else VENV
        r = subprocess.run([NC, "-repo", d, "-prop", ",".join(order(file)), "-out", d + ".ev"], env=e, capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        return [["TIMEOUT", ""]]
    hits, lines = [], r.stdout.splitlines()
    for n, x in enumerate(lines):
        if x.startswith("VIOLATION property="):
            p = x.split("=")[1].split()[0]
            k = n
            while k > 0 and not lines[k].startswith(p + ":"):
                k -= 1
            hits.append([p, lines[k + 1].strip()[:400]])
    if kind == "bug" and hits:
        return hits
    if sum(x[:1] == "C" and ": " in x[:5] for x in lines) != 27:
        hits.append(["CRASH", (r.stdout[-200:] + r.stderr[-300:])])
    return hits


def bug(d, m, out):
    put(d, m["Edits"], m["File"])
    try:
        if not builds(d) or not passes(d):
            return
        m["hits"] = check(d, "bug", m["File"])
        with lock:
            out.write(json.dumps(m) + "\n")
            out.flush()
    finally:
        back(d, m["File"])


def overlaps(a, b):
    if a["File"] != b["File"]:
        return False
    for x in a["Edits"]:
        for y in b["Edits"]:
            if x["Off"] < y["End"] and y["Off"] < x["End"]:
                return True
            if x["Off"] == y["Off"] and x["Off"] != len(open("/repo/" + a["File"], "rb").read()):
                return True
    lo = lambda m: min(e["Off"] for e in m["Edits"] if e["New"].find("\nconst lit") != 0)
    hi = lambda m: max(e["End"] for e in m["Edits"] if e["New"].find("\nconst lit") != 0)
    return lo(a) < hi(b) and lo(b) < hi(a)


def same(d, group, out):
    left = []
    for m in group:
        put(d, m["Edits"], m["File"])
        if builds(d):
            left.append(m)
        back(d, m["File"])
    n = 0
    while left:
        n += 1
        batch, rest = [], []
        for m in left:
            (rest if any(overlaps(m, b) for b in batch) else batch).append(m)
        left = rest

        def go(ms):
            fs = sorted({m["File"] for m in ms})
            for f in fs:
                put(d, [e for m in ms if m["File"] == f for e in m["Edits"]], f)
            ok = builds(d)
            h = check(d, "same") if ok else []
            if ok and h and "-t" in sys.argv and not passes(d):
                h = [["TESTSFAIL", ""]]
            for f in fs:
                back(d, f)
            return ok, h

        def narrow(ms):
            ok, h = go(ms)
            if ok and not h:
                return
            if len(ms) == 1:
                if ok:
                    ms[0]["hits"] = h
                    with lock:
                        out.write(json.dumps(ms[0]) + "\n")
                        out.flush()
                return
            # by file first.
            fs = sorted({m["File"] for m in ms})
            if len(fs) > 1:
                half = set(fs[:len(fs) // 2])
                narrow([m for m in ms if m["File"] in half])
                narrow([m for m in ms if m["File"] not in half])
                return
            narrow(ms[:len(ms) // 2])
            narrow(ms[len(ms) // 2:])
        narrow(batch)
    with lock:
        print(group[0]["Op"], len(group), "in", n, flush=True)


def main():
    kind, src, dst = sys.argv[1:4]
    j = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 4
    ms = [json.loads(l) for l in open(src)]
    q = queue.Queue()
    if kind == "bug":
        for m in ms:
            q.put(m)
    else:
        gs = {}
        for m in ms:
            gs.setdefault(m["Op"], []).append(m)
        for g in gs.values():
            q.put(g)
    out = open(dst, "a")

    def work(i):
        d = f"/tmp/mw/{kind}{os.getpid()}_{i}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            (bug if kind == "bug" else same)(d, m, out)
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + ".ev", ignore_errors=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(j)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
