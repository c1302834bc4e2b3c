#!/usr/bin/env python3
"""Author and try planted bugs.  mk(): write seeded/<id>/ from an edit list.  CLI: seed.py try ID... : in a private mount namespace with a
copy of /repo bound over /repo: demo on the clean tree, apply, build, tests, demo, and the property's check."""
import os, sys, json, subprocess, shutil, fcntl
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mk(id, prop, edits, demo, needs, breaks, srcs=(), flags="", cpp=True, libs=""):
    d = V + "/seeded/" + id; os.makedirs(d, exist_ok=True); w = "/tmp/mk." + id
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run("git -C /repo archive HEAD | tar x -C " + w + " && cd " + w + " && git init -q . && git config core.autocrlf false && git add -A && git -c user.email=a -c user.name=a commit -qm x", shell=True, check=True)
    for path, old, new in edits:
        p = w + "/" + path; s = open(p, "rb").read(); crlf = b"\r\n" in s
        a, b = old.encode(), new.encode()
        if crlf: a, b = a.replace(b"\n", b"\r\n"), b.replace(b"\n", b"\r\n")
        assert s.count(a) == 1, (id, path, old, s.count(a)); open(p, "wb").write(s.replace(a, b))
    open(d + "/patch.diff", "wb").write(subprocess.run(["git", "-C", w, "diff", "--no-color"], stdout=subprocess.PIPE).stdout)
    shutil.rmtree(w)
    if cpp:
        open(d + "/demo.cpp", "w").write(demo)
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: behaves as the property says; nonzero: broken\nD=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d) || exit 3; trap \'rm -rf "$T"\' EXIT\ng++ -std=c++11 -w -g -fsanitize=address %s -I"$R/include" -o "$T/demo" "$D/demo.cpp" %s -lpthread %s || exit 2\ncd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo\n' % (flags, " ".join('"$R/%s"' % s for s in srcs), libs))
    else: open(d + "/demo.sh", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
def trial(id, checks=True, tests=True, record=True):
    d = V + "/seeded/" + id; m = json.load(open(d + "/meta.json")); w = "/tmp/sw." + id; shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    def ns(cmd, t=1200):
        with open("/tmp/seed.lock", "w") as lk:
            if "test.sh" in cmd: fcntl.flock(lk, fcntl.LOCK_EX)
            return subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (w, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
    r = []
    ns("bash /opt/vp/build.sh"); c = ns("bash %s/demo.sh" % d); r.append("clean-demo=%d" % c.returncode)
    a = ns("git apply %s/patch.diff" % d); r.append("apply=%d" % a.returncode)
    b = ns("bash /opt/vp/build.sh"); r.append("build=%d" % b.returncode)
    if tests:
        o = "/tmp/seed.%s.json" % id; ns("bash /opt/vp/test.sh " + o); j = json.load(open(o)); base = json.load(open("/opt/vp/BASELINE.json"))
        st = base.get("stable_pass") or base.get("stable") or base.get("passed") or base.get("tests") or list(base.values())[0]
        r.append("tests=%s" % ("ok" if set(st) <= set(j["passed"]) else "FAIL " + str(set(st) - set(j["passed"])))); os.unlink(o)
    p = ns("bash %s/demo.sh" % d); r.append("patched-demo=%d" % p.returncode)
    if checks:
        q = ns("cd %s && python3 check.py %s" % (V, m["property"])); v = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION")]
        r.append("check=%d %s" % (q.returncode, "CAUGHT" if v and q.returncode == 1 else "MISSED"))
        if not v: r.append(q.stdout[-600:])
        hs = sorted({h for l in v for h in [os.path.basename(l.split("replay=")[1].split()[0]).split(".")[0]] if "replay=" in l}) if v else []
        if record:
            with open("/tmp/seed.lock", "w") as lk:
                fcntl.flock(lk, fcntl.LOCK_EX); f = V + "/tools/seed_results.txt"
                old = [l for l in (open(f) if os.path.exists(f) else []) if l.split()[0] != id]
                open(f, "w").writelines(sorted(old + ["%s %s %s %s\n" % (id, m["property"], "caught" if v and q.returncode == 1 else "missed", ",".join(hs))]))
    shutil.rmtree(w, ignore_errors=True); print(id, m["property"], " ".join(r), flush=True)
    if c.returncode: print("   clean demo output:", c.stdout[-800:])
    if not p.returncode: print("   patched demo passed:", p.stdout[-300:])
if __name__ == "__main__":
    if sys.argv[1] == "try":
        a = sys.argv[2:]; ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(V + "/seeded"))
        for i in ids: trial(i, "--nocheck" not in a, "--notest" not in a)
