#!/usr/bin/env python3
"""plant.py SPEC.py [id ...]: writes /verif/seeded/<id>/ from a specification and confirms it.

The specification is a Python file defining PLANTS, a list of dictionaries with the keys
id, prop, needs, breaks, edits [(file, old, new)], pkg, demo (source of an in-package or
external Go test) or sh (a demo.sh). Each change is confirmed in a scratch copy: it builds,
the stable tests pass, the demonstration passes without it and fails with it. Then the
property's quick check runs on the changed copy."""
import json, os, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
SH = '''#!/bin/bash
# exit 0: the demonstration test passes on the tree in the current directory
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
cp "$d/demo_test.go.txt" "$t/zz_demo_test.go"
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$t/zz_demo_test.go" > "$t/overlay.json"
timeout 120 go test -vet=off -count=1 -overlay "$t/overlay.json" -run ZZDemo ./%(pkg)s
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def stable(cwd):
    base = json.load(open("/opt/vp/BASELINE.json"))
    r = run(["go", "test", "-json", "-vet=off", "-count=1", "./..."], cwd)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Test"])
    fails = [l for l in r.stdout.splitlines() if '"Action":"fail"' in l]
    return len(ok), fails
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    base = tempfile.mkdtemp(prefix="plant")
    try:
        for p in ns["PLANTS"]:
            if want and p["id"] not in want: continue
            sc = os.path.join(base, "repo")
            shutil.rmtree(sc, ignore_errors=True)
            shutil.copytree("/repo", sc, symlinks=True)
            d = os.path.join("/verif/seeded", p["id"])
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            if "sh" in p: open(d+"/demo.sh", "w").write(p["sh"])
            else:
                open(d+"/demo.sh", "w").write(SH % p)
                open(d+"/demo_test.go.txt", "w").write(p["demo"])
            for n, t in p.get("files", {}).items(): open(d+"/"+n, "w").write(t)
            os.chmod(d+"/demo.sh", 0o755)
            json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(d+"/meta.json", "w"), indent=1)
            bad = []
            r = run([d+"/demo.sh"], sc)
            if r.returncode != 0: bad.append("demo fails on the unchanged tree:\n" + r.stdout[-2500:] + r.stderr[-1500:])
            for f, old, new in p["edits"]:
                q = os.path.join(sc, f); s = open(q).read()
                if s.count(old) != 1: bad.append("%s: %d matches of %r" % (f, s.count(old), old)); continue
                open(q, "w").write(s.replace(old, new))
            r = run(["gofmt", "-l"] + sorted({f for f, _, _ in p["edits"]}), sc)
            if r.stdout: bad.append("gofmt: " + r.stdout + r.stderr)
            open(d+"/patch.diff", "w").write(run(["git", "diff"], sc).stdout)
            # the changed lines must be ones of the original repository, not of the repairs
            own = mine = 0
            for f in sorted({f for f, _, _ in p["edits"]}):
                blame = run(["git", "blame", "--line-porcelain", "HEAD", "--", f], sc).stdout
                first = run(["git", "rev-list", "--max-parents=0", "HEAD"], sc).stdout.split()[0]
                au = ["own" if l[:40] == first else "verif" for l in blame.splitlines() if len(l) > 41 and l[40] == " " and all(c in "0123456789abcdef" for c in l[:40])]
                ln = 0
                for l in run(["git", "diff", "-U0", "--", f], sc).stdout.splitlines():
                    if l.startswith("@@"): ln = int(l.split()[1][1:].split(",")[0])
                    elif l.startswith("-") and not l.startswith("---"):
                        if au[ln-1] == "verif": mine += 1
                        else: own += 1
                        ln += 1
            if mine or not own: print("  blame:", p["id"], own, "original lines,", mine, "of the repairs")
            r = run(["go", "build", "./..."], sc)
            if r.returncode != 0: bad.append("build: " + r.stderr)
            n, fails = stable(sc)
            if fails: bad.append("tests fail: " + " ".join(fails)[:600])
            r = run([d+"/demo.sh"], sc)
            if r.returncode == 0: bad.append("demo passes with the change")
            if bad:
                print("REJECT", p["id"], "\n".join(bad)); shutil.rmtree(d); continue
            r = run(["/verif/bin/gosym", "check", "-prop", p["prop"], "-tier", "quick", "-repo", sc, "-harness", "/verif/harness", "-out", base+"/out", "-evidence", base+"/ev"], "/verif")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print("CAUGHT" if r.returncode == 1 and v else "MISSED(%d)" % r.returncode, p["id"], p["prop"], r.stdout.splitlines()[-1][:150] if r.stdout else r.stderr[-300:])
    finally:
        shutil.rmtree(base, ignore_errors=True)
main()
