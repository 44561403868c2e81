#!/usr/bin/env python3
"""refactor.py SPEC.py [id ...]: applies behaviour-preserving changes to a scratch copy of /repo
and checks that the existing tests pass and that the properties' quick checks stay quiet,
conclusive and within their time. The specification defines REFACTORS: id, props, edits."""
import json, os, re, shutil, subprocess, sys, tempfile, time
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
def run(cmd, cwd): return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True)
ns = {}; exec(open(sys.argv[1]).read(), ns)
want = set(sys.argv[2:]); base = tempfile.mkdtemp(prefix="refac")
try:
    for p in ns["REFACTORS"]:
        if want and p["id"] not in want: continue
        sc = base + "/repo"; shutil.rmtree(sc, ignore_errors=True); shutil.copytree("/repo", sc, symlinks=True)
        bad = ""
        for f, old, new in p["edits"]:
            q = sc + "/" + f; s = open(q).read()
            if old.startswith("rename:"):  # every whole word of that name in the file
                s2 = re.sub(r"\b" + old[7:] + r"\b", new, s)
                if s2 == s: bad += "%s: no %s\n" % (f, old)
                open(q, "w").write(s2); continue
            if old.startswith("func:"):  # a whole function
                t, _, m = old[5:].rpartition(".")
                pat = r"^func " + (r"\(\w+ \*?%s\) " % t if t else "") + m + r"\(.*?^}\n"
                k = re.findall(pat, s, re.S | re.M)
                if len(k) != 1: bad += "%s: %d functions %s\n" % (f, len(k), old); continue
                old, new = k[0], new.lstrip("\n")
            if s.count(old) != 1: bad += "%s: %d matches of %r\n" % (f, s.count(old), old[:80]); continue
            open(q, "w").write(s.replace(old, new))
        if not bad:
            r = run(["go", "build", "./..."], sc)
            if r.returncode: bad = "build: " + r.stderr
            else:
                r = run(["go", "test", "-vet=off", "-json", "./..."], sc)
                base_ok = {t.split("::")[-1] if isinstance(t, str) else t for t in []}
                f0 = sorted(l for l in r.stdout.splitlines() if '"Action":"fail"' in l and '"Test"' in l)
                if f0: bad = "tests: " + " ".join(f0)[:600]
        if bad: print("REJECT", p["id"], bad); continue
        for c in p["props"]:
            t = time.time()
            r = run(["/verif/bin/gosym", "check", "-prop", c, "-tier", "quick", "-repo", sc, "-harness", "/verif/harness", "-out", base + "/out", "-evidence", base + "/ev"], "/verif")
            ok = r.returncode == 0 and "INCOMPLETE" not in r.stderr
            print("quiet " if ok else "ALARM " if r.returncode == 1 else "BAD(%d) " % r.returncode, p["id"], c, "%.0f s" % (time.time() - t), flush=True)
            if not ok: print("\n".join(r.stdout.splitlines()[:8])[:1500], r.stderr[:1500])
finally: shutil.rmtree(base, ignore_errors=True)
