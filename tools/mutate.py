#!/usr/bin/env python3
"""Random small mutations of the code behind a property, judged by its quick check.

  mutate.py OUT.jsonl WORKERS COUNT SEED [Cxx ...]

For each property, COUNT mutants of its anchored files are drawn (operators,
literals, indices, deleted statements, negated conditions); each is applied in a
scratch copy of /repo and the property's quick check is run on it.  Survivors
are for a human to read: an equivalent mutant, a line outside the property, or
a hole in the check.  Nothing here is part of a registered check.
"""
import json, os, random, re, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, workers, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
want = sys.argv[5:] or [p["id"] for p in props]
BIN = [(r"(?<=[\w)\]] )\+(?= [\w(])", "-"), (r"(?<=[\w)\]] )-(?= [\w(])", "+"), (r"(?<=[\w)\]] )\*(?= [\w(])", "/"), (r"(?<=[\w)\]] )/(?= [\w(])", "*"),
       (r"(?<= )<(?= )", "<="), (r"(?<= )<=(?= )", "<"), (r"(?<= )>(?= )", ">="), (r"(?<= )>=(?= )", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\+=", "-="), (r"-=", "+="), (r"\bsin\(", "cos("), (r"\bcos\(", "sin("), (r"\+\+(?=\w)", "--"), (r"(?<=\w)\+\+", "--"),
       (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\bfloor\(", "ceil("), (r"\bbreak;", "continue;"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"<(?=\w[\w.()]*;)", "<=")]


def mutants(text):
    res, inblk, inpp = [], False, False
    for n, line in enumerate(text.split("\n")):
        s = line.strip()
        if inblk:
            inblk = "*/" not in s
            continue
        if s.startswith("/*"):
            inblk = "*/" not in s
            continue
        if inpp:
            inpp = s.endswith("\\"); continue
        if s.startswith("#"):
            inpp = s.endswith("\\"); continue
        if not s or s.startswith("//") or "printf" in s or "assert" in s or s.startswith('"') or "[ERROR]" in s or "template" in s or s.startswith(("using", "typedef", "namespace", "throw")) or re.match(r"return -?\d+;", s):
            continue
        code = line.split("//")[0]
        quoted = [(m.start(), m.end()) for m in re.finditer(r'"(\\.|[^"\\])*"', code)]
        ok = lambda p: not any(a <= p < b for a, b in quoted)
        for pat, new in BIN:
            for m in re.finditer(pat, code):
                if ok(m.start()):
                    res.append((n, line[:m.start()] + new + line[m.end():]))
        for m in re.finditer(r"(?<![\w.])\d+(?![\w.])", code):
            if ok(m.start()):
                res.append((n, line[:m.start()] + str(int(m.group()) + 1) + line[m.end():]))
        for m in re.finditer(r"(?<![\w.])(\d+\.\d*|\d*\.\d+|\d+(?=[eE]))([eE][-+]?\d+)?", code):
            if ok(m.start()):
                v = float(m.group())
                w = repr(v * 1.01) if v else "1e-2"
                res.append((n, line[:m.start()] + w + line[m.end():]))
        if re.match(r"^\s*[\w\[\]().>:-]+(\s*[-+*/|&]?=\s*[^=].*|\(.*\)|\+\+|--)?;\s*$", code) and not re.match(r"^\s*(return|break|continue|const|double|int|unsigned|char|auto)\b", code):
            res.append((n, ";" + " // deleted"))
        m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\)\s*\{?\s*)$", code)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            res.append((n, m.group(1) + "!(" + m.group(2) + ")" + m.group(3)))
    return res


def pymutants(text):
    res, indoc = [], False
    for n, line in enumerate(text.split("\n")):
        s = line.strip()
        if s.count('"""') % 2 or s.count("'''") % 2:
            indoc = not indoc
            continue
        if indoc or not s or s.startswith(("#", "import", "from", "print", "'", '"', "parser.add", "help=", "epilog", "metavar")):
            continue
        code = line
        quoted = [(m.start(), m.end()) for m in re.finditer(r'"[^"]*"|\'[^\']*\'', code)]
        ok = lambda p: not any(a <= p < b for a, b in quoted)
        for pat, new in BIN[:11] + [(r"\band\b", "or"), (r"\bor\b", "and"), (r"\+=", "-="), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\bbreak\b", "continue"), (r"\bcontinue\b", "pass"),
                               (r"\bnot ", ""), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\.strip\(\)", ""), (r"\.rstrip\(\)", ""), (r"\.append\(", ".index("), (r"(?<=[\w)])\+(?=\w)", "-"), (r"(?<=[\w)])<(?==?\w)", ">"), (r"(?<=[\w)\]])\*(?=\w)", "/")]:
            for m in re.finditer(pat, code):
                if ok(m.start()):
                    res.append((n, line[:m.start()] + new + line[m.end():]))
        for m in re.finditer(r"(?<![\w.])\d+(?![\w.])", code):
            if ok(m.start()):
                res.append((n, line[:m.start()] + str(int(m.group()) + 1) + line[m.end():]))
        for m in re.finditer(r"(?<![\w.])(\d+\.\d*|\d*\.\d+|\d+(?=[eE]))([eE][-+]?\d+)?", code):
            if ok(m.start()):
                res.append((n, line[:m.start()] + (repr(float(m.group()) * 1.01) if float(m.group()) else "1e-2") + line[m.end():]))
        for a, b in quoted:  # a character of a literal
            if b - a > 2 and not s.startswith(("raise", "sys.exit", "help")):
                k = a + 1 + (b - a - 2) // 2
                res.append((n, line[:k] + ("x" if line[k] != "x" else "y") + line[k + 1:]))
        ind = line[:len(line) - len(line.lstrip())]
        if re.match(r"^\s*[\w.\[\], ]+\s*[-+*/]?=\s*[^=(].*[^,(\[{\\]$", code) or re.match(r"^\s*[\w.]+\(.*\)$", code):
            if code.count("(") == code.count(")") and not re.match(r"^\s*(def|if|while|for|elif|with|return)\b", code):
                res.append((n, ind + "pass  # deleted"))
        m = re.match(r"^(\s*(?:if|elif|while) )(.*)(:\s*)$", code)
        if m:
            res.append((n, m.group(1) + "not (" + m.group(2) + ")" + m.group(3)))
    return res


q = queue.Queue()
rnd = random.Random(seed)
jobs = []
for p in props:
    if p["id"] not in want:
        continue
    pool = []
    files = p["files"] if "files" in p else p["anchors"]["files"] if isinstance(p.get("anchors"), dict) else p["anchor"]["files"]
    for f in files:
        full = "/repo/" + f
        if not os.path.isfile(full):
            continue
        for n, l in (pymutants if f.endswith(".py") else mutants)(open(full, errors="surrogateescape").read()):
            pool.append((p["id"], f, n, l))
    rnd.shuffle(pool)
    jobs += pool[:count]
rnd.shuffle(jobs)
for j in jobs:
    q.put(j)
lock = threading.Lock()


def work(k):
    base = "/tmp/mut/w%d" % k
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run(["cp", "-a", "/repo", base + "/repo"], check=True)
    subprocess.run(["rsync", "-a", "--exclude", "build", "--exclude", "seeded", "--exclude", ".git", "--exclude", "replays", V + "/", base + "/verif/"], check=False)
    if not os.path.isdir(base + "/verif"):
        os.makedirs(base + "/verif")
        for x in ("framework", "drivers", "shim", "shim_ode", "tools", "run.py", "known_findings.txt", "properties.jsonl", "MANIFEST.json"):
            subprocess.run(["cp", "-a", V + "/" + x, base + "/verif/"])
    core = base + "/verif/framework/core.py"
    t = open(core).read().replace("JOBS = max(2, min(8, os.cpu_count() or 8))", "JOBS = %d" % max(2, 8 // workers))
    open(core, "w").write(t)
    env = dict(os.environ, VERIF_REPO=base + "/repo", VERIF_SEED=str(seed), VERIF_TIER="quick")
    while True:
        try:
            pid, f, n, l = q.get_nowait()
        except queue.Empty:
            return
        full = base + "/repo/" + f
        orig = open(full, errors="surrogateescape").read()
        lines = orig.split("\n")
        old = lines[n]
        lines[n] = l
        open(full, "w", errors="surrogateescape").write("\n".join(lines))
        try:
            r = subprocess.run(["timeout", "-k", "5", "700", "python3", "run.py", pid], cwd=base + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            rc, o = r.returncode, r.stdout
        finally:
            open(full, "w", errors="surrogateescape").write(orig)
        res = "caught" if rc == 1 else "SURVIVED" if rc == 0 else "timeout" if rc in (124, 137) else "nobuild" if "compilation failed" in o else "rc%d" % rc
        key = re.findall(r"VIOLATION.*", o)[:1]
        with lock, open(out, "a") as fh:
            fh.write(json.dumps(dict(res=res, prop=pid, file=f, line=n + 1, old=old.strip(), new=l.strip(), key=key)) + "\n")


ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
[t.start() for t in ts]
[t.join() for t in ts]
shutil.rmtree("/tmp/mut/w", ignore_errors=True)
