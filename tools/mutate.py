#!/usr/bin/env python3
# Mutation testing of the checks: random small edits of a source file of /repo, each judged by the check(s) whose harnesses execute the edited line.
# usage: mutate.py COVDIR OUTFILE SEED COUNT FILE...      (COVDIR: from LCE_COV=dir python3 check.py Cxx, for all checks)
import sys, os, re, json, random, subprocess, shutil
cov, out, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]); files = sys.argv[5:]
R = "/repo"; BASE = os.environ.get("MUTBASE", R)
lines = {}
for f in os.listdir(cov):
    if f.endswith(".json"):
        for k, hs in json.load(open(os.path.join(cov, f))).items():
            k = os.path.normpath(k)
            for h, v in hs.items():
                if v: lines.setdefault(k, []).append((f[:-5], h))
cost = {}
for f in os.listdir("/verif/evidence"):
    try: cost[f[:3]] = json.load(open("/verif/evidence/" + f)).get("wall_s") or json.load(open("/verif/evidence/" + f)).get("duration_s") or 30
    except Exception: pass
OPS = [(r"<=", ["<"]), (r">=", [">"]), (r"(?<![<\-=])<(?![<=A-Za-z:])", ["<="]), (r"(?<![>\-=])>(?![>=(])", [">="]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]),
       (r"(?<![+=(,] )\+ (?=[\w(])", ["- "]), (r" - (?=[\w(])", [" + "]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"!(?=[\w(])(?!=)", [""]), (r"(?<![\w.\"'\\%x])(\d+)(?![\w.\"'])", None),
       (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]), (r"\|=", ["="]), (r"&= ?~", ["|= "]), (r"\+\+(?=\))", ["--"])]
def mutants(path, ok):
    src = open(path.replace(R, BASE, 1), newline="").read().split("\n"); r = []; comment = False
    for n, l in enumerate(src):
        if (path, n + 1) not in ok: continue
        code = re.sub(r"//.*", "", l.rstrip("\r")); s = code.strip()
        if not s or s[0] == "#" or s.startswith(("//", "*", "/*", "template", "class", "typedef", "using", "extern", "friend", "virtual", "snprintf(m_szErrMsg")): continue
        strs = [(m.start(), m.end()) for m in re.finditer(r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'', code)]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                if any(a <= m.start() < b for a, b in strs): continue
                for x in (reps if reps is not None else [str(int(m.group(1)) + 1), str(max(0, int(m.group(1)) - 1))]):
                    if x == m.group(0): continue
                    r.append((n, code[:m.start()] + x + code[m.end():]))
        if re.match(r"^[\w\->.\[\]:*()]+( [|&+\-*/]?= .*|\(.*\)|\+\+|--);$", s) and not s.startswith(("return", "delete ")) and not re.match(r"^(unsigned|int|char|std::|long|size_t|bool|const)", s): r.append((n, code[:len(code) - len(code.lstrip())] + ";"))
        if s == "else" or re.match(r"^if \(.*\)$", s): r.append((n, code.replace("if (", "if (!(", 1) + ")" if s != "else" else "if (1)"))
    return src, r
random.seed(seed); pool = []
for f in files:
    p = os.path.join(R, f); ok = {(p, int(k.rsplit(":", 1)[1])) for k in lines if k.startswith(p + ":")}
    src, ms = mutants(p, ok); pool += [(f, n, new) for n, new in ms]
random.shuffle(pool)
if os.path.exists(out): done = {(x["file"], x["line"], x["new"]) for x in map(json.loads, open(out))}
else: done = set()
k = 0
for f, n, new in pool:
    if k >= count: break
    p = os.path.join(R, f); src = open(os.path.join(BASE, f), newline="").read().split("\n"); old = src[n]
    if (f, n + 1, new.strip()) in done: continue
    k += 1; w = "/tmp/mut/w%d" % os.getpid(); shutil.rmtree(w, ignore_errors=True); subprocess.run(["cp", "-a", BASE, w], check=True)
    src[n] = new + ("\r" if old.endswith("\r") else ""); open(os.path.join(w, f), "w", newline="").write("\n".join(src))
    hs = lines[p + ":" + str(n + 1)]; pids = {}
    for pid, h in hs: pids.setdefault(pid, []).append(h)
    own = [d["id"] for d in map(json.loads, open("/verif/properties.jsonl")) if f in d["anchors"]["files"]]
    order = sorted(pids, key=lambda q: (q not in own, cost.get(q, 30)))[:8]
    res = {"file": f, "line": n + 1, "old": old.strip(), "new": new.strip(), "checks": [], "killed": None}
    for q in order:
        cmd = "mount --bind %s /repo && mount -t tmpfs none /verif/evidence && mount -t tmpfs none /verif/replays && cd /verif && timeout 300 python3 check.py %s --budget 60 2>&1" % (w, q)
        o = subprocess.run(["nice", "-n", os.environ.get("MUTNICE", "5"), "unshare", "-m", "bash", "-c", cmd], capture_output=True, text=True)
        c = o.stdout; st = "viol" if "VIOLATION" in c else "nocompile" if "compile failed" in c else "ok" if o.returncode == 0 else "err"
        res["checks"].append(q + ":" + st)
        if st == "nocompile": res["killed"] = "nocompile"; break
        if st == "viol": res["killed"] = q; break
    open(out, "a").write(json.dumps(res) + "\n"); shutil.rmtree(w, ignore_errors=True)
