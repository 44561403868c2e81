#!/usr/bin/env python3
"""mutate.py OUT.jsonl [-n COUNT] [-w WORKERS] [-only SUBSTRING] [-prop Cxx]: systematic mutation of /repo in scratch copies.

Every mutant that compiles and passes the existing tests is checked with the properties whose
evidence says they encode the changed function, until one reports a violation. The result of
each is appended to OUT.jsonl (one that is there already is not run again):
 build, tests   rejected by the compiler or by the existing tests
 caught         by the property named
 survived       by all of the properties named: equivalent, outside of every property, or a gap
"""
import argparse, glob, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("-n", type=int, default=100); ap.add_argument("-w", type=int, default=3)
ap.add_argument("-only", default=""); ap.add_argument("-skip", default="^$"); ap.add_argument("-seed", type=int, default=1); ap.add_argument("-hours", type=float, default=2)
ap.add_argument("-line", type=int, default=0)
a = ap.parse_args()
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
V = "/verif"
subprocess.run(["go", "build", "-o", "/tmp/mutants", "."], cwd=V + "/tools/mutants", env=ENV, check=True)
files = [f for f in subprocess.check_output(["git", "-C", "/repo", "ls-files", "*.go"], text=True).split()
         if not f.endswith("_test.go") and not f.startswith("testing/") and f != "cmd/main.go"]
lines = subprocess.check_output(["/tmp/mutants"] + files, cwd="/repo", text=True).splitlines()
muts = [json.loads(l) for l in lines]
src = {f: open("/repo/" + f, "rb").read() for f in files}
enc, wall = {}, {}
for f in glob.glob(V + "/evidence/C*.json"):
    e = json.load(open(f)); p = e["property"]; wall[p] = e["wall_s"]
    for fn in e["coverage"]["functions_encoded"]:
        fn = re.sub(r"[$#]\d+.*", "", fn)
        m = re.match(r"\(?\*?(?:github.com/dargueta/disko)/?([\w/]*?)\.?(?:\.(\w+)\))?\.?(\w+)$", fn)
        s = fn.replace("(", "").replace("*", "").replace(")", "").replace("github.com/dargueta/disko", "").strip("/")
        enc.setdefault(s, set()).add(p)
def key(m):
    d = os.path.dirname(m["file"])
    return (d if d else "") + "." + m["func"] if d else "." + m["func"]
def props(m):
    k = key(m)
    ps = enc.get(k) or enc.get(k.lstrip(".")) or set()
    if m["file"].startswith("cmd/"): ps = {"C32"}
    return sorted(ps, key=lambda p: wall[p])
done = set()
if os.path.exists(a.out):
    for l in open(a.out): r = json.loads(l); done.add((r["file"], r["from"], r["to"], r["new"]))
todo = [m for m in muts if (m["file"], m["from"], m["to"], m["new"]) not in done and a.only in m["file"] + ":" + m["func"] and not re.search(a.skip, m["file"] + ":" + m["func"])]
if a.line: todo = [m for m in todo if m["line"] == a.line]
random.Random(a.seed).shuffle(todo)
todo = todo[:a.n]
print(len(todo), "mutants", file=sys.stderr)
lock = threading.Lock(); end = time.time() + a.hours * 3600
def run(cmd, cwd, t):
    try: return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired: return None
def work(i):
    base = tempfile.mkdtemp(prefix="mut")
    try:
        sc = base + "/repo"; shutil.copytree("/repo", sc, symlinks=True)
        while True:
            with lock:
                if not todo or time.time() > end: return
                m = todo.pop()
            b = src[m["file"]]
            nb = b[:m["from"]] + m["new"].encode() + b[m["to"]:]
            open(sc + "/" + m["file"], "wb").write(nb)
            t0 = time.time(); res, by = None, []
            r = run(["go", "build", "./..."], sc, 120)
            if r is None or r.returncode: res = "build"
            else:
                r = run(["go", "test", "-vet=off", "-timeout", "20s", "./..."], sc, 180)
                if r is None or (r.returncode and "[build failed]" not in r.stdout): res = "tests"
                elif r.returncode: res = "tests"
            if res is None:
                res = "survived"; notes = []
                for p in props(m):
                    by.append(p)
                    r = run([V + "/bin/gosym", "check", "-prop", p, "-tier", "quick", "-first", "-j", str(max(2, 8 // a.w)), "-repo", sc, "-harness", V + "/harness", "-out", base + "/out", "-evidence", base + "/ev"], V, 400)
                    if r is None: notes.append(p + " timeout"); continue
                    if r.returncode == 1 and "VIOLATION" in r.stdout: res = "caught"; by = [p]; break
                    if r.returncode != 0: notes.append("%s rc %d" % (p, r.returncode))
                    if "INCOMPLETE" in r.stderr: notes.append(p + " " + [l for l in r.stderr.splitlines() if "INCOMPLETE" in l][0][:160])
                m["notes"] = notes
            open(sc + "/" + m["file"], "wb").write(b)
            m.update(res=res, by=by, s=round(time.time() - t0, 1))
            with lock:
                open(a.out, "a").write(json.dumps(m) + "\n")
                if res == "survived": print(m["file"], m["line"], m["func"], repr(m["old"])[:70], "->", repr(m["new"])[:70], m["notes"], by, flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(a.w)]
[t.start() for t in ts]; [t.join() for t in ts]
