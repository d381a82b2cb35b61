"""Build and run machinery shared by all checks (see DESIGN.md, 'Framework')."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = max(2, min(8, os.cpu_count() or 8))


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ----------------------------------------------------------------------- build
FLAVOURS = {
    # production assertions stay active, as in the project's own builds
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all", "-fsanitize-address-use-after-scope", "-D_GLIBCXX_ASSERTIONS"],
    "memcheck": ["-O1", "-g", "-fno-omit-frame-pointer", "-DVF_MEMCHECK"],
    "plain": ["-O2", "-g"],
    "tsan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"],
}


class Driver:
    def __init__(self, name, repo=(), inc=(), defs=(), flavours=("asan",), flags=(), libs=(),
                 src=None, cpu=20, memcheck_div=10, per_source_flags=None, cxx="g++", repo_exclude=(), dep_of=()):
        self.name, self.repo, self.inc, self.defs = name, list(repo), list(inc), list(defs)
        self.flavours, self.flags, self.libs = list(flavours), list(flags), list(libs)
        self.src = src or [os.path.join(VERIF, "drivers", name + ".cpp")]
        self.cpu, self.memcheck_div = cpu, memcheck_div
        self.per_source_flags = per_source_flags or {}
        self.cxx = cxx
        self.repo_exclude = list(repo_exclude)

    def optional(self):
        """built with the repository's own debugging or experimental switches: code its build does not
        compile may fall behind, and then this build is left out (and noted)"""
        return any(x in ("DEBUG", "BRANCHLESS", "COUNT_KEPLER_ITERATIONS") for x in self.defs)

    def sources(self):
        out = list(self.src)
        for g in self.repo:
            found = sorted(glob.glob(os.path.join(REPO, g)))
            found = [f for f in found if not any(re.search(x, os.path.relpath(f, REPO)) for x in self.repo_exclude)]
            if not found:
                raise HarnessError("no source matches " + g)
            for f in found:
                if f not in out:
                    out.append(f)
        return out


def _env():
    e = dict(os.environ)
    e["LC_ALL"] = "C"
    if shutil.which("ccache"):
        e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
        e["CCACHE_MAXSIZE"] = "3G"
        e["CCACHE_NOHASHDIR"] = "1"
        e.pop("CCACHE_DISABLE", None)
    return e


def compile_cmd(d, fl, s, o, cc):
    incs = ["-I" + os.path.join(VERIF, "framework"), "-I" + os.path.join(VERIF, "drivers")]
    incs += ["-I" + (i if os.path.isabs(i) else os.path.join(REPO, i)) for i in d.inc]
    incs += ["-I" + os.path.join(VERIF, "shim")]
    cmd = cc + [d.cxx, "-std=c++17", "-w"] + FLAVOURS[fl] + ["-D" + x for x in d.defs] + d.flags + incs
    cmd += d.per_source_flags.get(os.path.relpath(s, REPO), [])
    if s.startswith(REPO + "/"):  # for experiments only, e.g. with the order of arithmetic
        cmd += os.environ.get("VF_REPO_FLAGS", "").split()
    if s.endswith(".cc"):
        cmd += ["-x", "c++"]
    return cmd + ["-c", s, "-o", o]


def sibling_archive(d, fl, bdir, cc, env, pool):
    have = set(d.sources())
    dirs = sorted({os.path.dirname(s) for s in have if s.startswith(REPO + "/")})
    todo = [f for x in dirs for e in ("*.cpp", "*.cc") for f in sorted(glob.glob(os.path.join(x, e))) if f not in have]
    objs = []
    for s in todo:
        o = os.path.join(bdir, "sib_" + hashlib.sha1(s.encode()).hexdigest()[:10] + ".o")
        objs.append((o, pool.submit(subprocess.run, compile_cmd(d, fl, s, o, cc), stdout=subprocess.DEVNULL,
                                    stderr=subprocess.DEVNULL, env=env)))
    good = [o for o, f in objs if f.result().returncode == 0]
    if not good:
        return None
    lib = os.path.join(bdir, "siblings.a")
    if os.path.exists(lib):
        os.unlink(lib)
    return lib if subprocess.run(["ar", "rcs", lib] + good).returncode == 0 else None


def build(drivers):
    """compile every (driver, flavour) from the current /repo tree; returns {(name,flavour): exe}"""
    pool = cf.ThreadPoolExecutor(JOBS)
    env = _env()
    cc = [shutil.which("ccache")] if shutil.which("ccache") else []
    jobs, links = [], []
    for d in drivers:
        for fl in d.flavours:
            objs = []
            bdir = os.path.join(BUILD, "bin", d.name + "." + fl)
            shutil.rmtree(bdir, ignore_errors=True)
            os.makedirs(bdir, exist_ok=True)
            for s in d.sources():
                o = os.path.join(bdir, hashlib.sha1(s.encode()).hexdigest()[:10] + "_" + os.path.basename(s) + ".o")
                cmd = compile_cmd(d, fl, s, o, cc)
                objs.append(o)
                jobs.append((d, fl, cmd, pool.submit(subprocess.run, cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                              env=env, text=True, errors="replace")))
            links.append((d, fl, objs, os.path.join(bdir, d.name)))
    bad, skipped = [], {}
    for d, fl, cmd, f in jobs:
        r = f.result()
        if r.returncode:
            if d.optional():
                skipped[(d.name, fl)] = r.stdout[-300:]
            else:
                bad.append(" ".join(cmd) + "\n" + r.stdout[-6000:])
    if bad or len(skipped) == len(links):
        raise HarnessError("compilation failed:\n" + "\n".join(bad[:3] or list(skipped.values())))
    out = {}
    futs = []
    for d, fl, objs, exe in links:
        if (d.name, fl) in skipped:
            continue
        cmd = [d.cxx] + [x for x in FLAVOURS[fl] if x.startswith("-fsanitize")] + objs + ["-o", exe] + d.libs
        futs.append((d, fl, exe, cmd, pool.submit(subprocess.run, cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                                  text=True, errors="replace", env=env)))
    for d, fl, exe, cmd, f in futs:
        r = f.result()
        if r.returncode and "undefined reference" in r.stdout:
            # the code may have moved a helper into a file of its own: offer the linker
            # whatever else compiles in the same directories
            lib = sibling_archive(d, fl, os.path.dirname(exe), cc, env, pool)
            if lib:
                k = cmd.index("-o")
                r2 = subprocess.run(cmd[:k] + [lib] + cmd[k:], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                    errors="replace", env=env)
                r = r2 if not r2.returncode else r
        if r.returncode and d.optional() and len(links) > 1 + len(skipped):
            skipped[(d.name, fl)] = r.stdout[-300:]
            continue
        if r.returncode:
            raise HarnessError("link failed: " + " ".join(cmd) + "\n" + r.stdout[-6000:])
        out[(d.name, fl)] = exe
    return out


# ------------------------------------------------------------------------- run
class Result:
    def __init__(self):
        self.evaluations = 0
        self.events, self.maxima = {}, {}
        self.distinct = set()
        self.samples = []
        self.violations = []  # dict(key, detail, replay...)
        self.notes = []
        self.deaths = 0
        self.cpu_max = {}  # flavour -> most CPU time one case took
        self.stop = False  # a hang is established: nothing more needs to run
        self.deadline = self.soft = None
        self.lock = threading.Lock()

    def fresh(self):
        """a violation is established that no known finding covers"""
        listed = all_known()
        return any(v["key"].replace(" ", "_") not in listed for v in self.violations)

    def over(self, now):
        """past the deadline, or far past the usual time of a check with a verdict already established"""
        return self.deadline is not None and (now > self.deadline or (now > self.soft and self.fresh()))

    def viol(self, key, detail, **kw):
        with self.lock:
            self.violations.append(dict(key=key, detail=detail, **kw))

    def event(self, k, n=1):
        with self.lock:
            self.events[k] = self.events.get(k, 0) + n


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(?::\d+)*(?:\s|$)", re.M)


def _clean_fn(fn):
    fn = re.sub(r"\(.*$", "", fn)
    fn = re.sub(r"<.*$", "", fn)
    return fn.split("::")[-1].strip() or "?"


def classify_death(rc, err):
    """name a process death: kind + innermost repo function"""
    fn = "?"
    for m in FRAME.finditer(err):
        if m.group(2).startswith(REPO + "/"):
            fn = _clean_fn(m.group(1))
            break
    if "hard rss limit exhausted" in err:
        return "memory-exhausted", fn
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", err)
    if m and m.group(1) not in ("ABRT",):
        return "asan-" + m.group(1), fn
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", err)
    if m:
        for g in re.finditer(r"^\s+#\d+ (.+?) (/\S+?):\d+", err, re.M):
            if g.group(2).startswith(REPO + "/"):
                fn = _clean_fn(g.group(1))
                break
        return "tsan-" + m.group(1).strip().replace(" ", "-"), fn
    m = re.search(r"^(\S+?):\d+:\d+: runtime error: (.*)$", err, re.M)
    if m:
        kind = re.sub(r"[-+]?(0x)?[0-9a-f.]*\d[0-9a-fe.+]*", "N", m.group(2))[:60].strip().replace(" ", "-")
        if fn == "?":
            fn = os.path.basename(m.group(1))
        return "ubsan-" + kind, fn
    m = re.search(r"(\S+?):\d+: (.*?): Assertion `(.*?)' failed", err)
    if m:
        f = re.sub(r"\(.*$", "", m.group(2)).split("::")[-1].split(" ")[-1]
        if REPO + "/" in m.group(1) or m.group(1).startswith("src/"):
            return "assert", f
        return "assert-lib", fn if fn != "?" else f
    m = re.search(r"terminate called(.*)", err)
    if m:
        return "terminate", fn
    if "stack smashing" in err:
        return "stack-smash", fn
    if rc is not None and rc < 0:
        try:
            nm = signal.Signals(-rc).name
        except ValueError:
            nm = str(-rc)
        return "signal-" + nm, fn
    return "exit-%s" % rc, fn


BLOCKED = 120  # seconds one case may wait without using the processor


def alone(cmd, idx, out, prog):
    """the command that runs one case by itself"""
    c = [x for x in cmd]
    c[c.index("--from") + 1] = str(idx)
    c[c.index("--to") + 1] = str(idx + 1)
    c[c.index("--out") + 1] = out + ".re"
    c[c.index("--progress") + 1] = prog + ".re"
    return c


def watch(res, p, prog, wall):
    """wait for a driver process: None (it ended), "wall", "deadline" or "blocked" (killed)"""
    t0 = time.time()
    since, at = t0, None
    while True:
        try:
            p.wait(timeout=min(5.0, 0.5 + time.time() - t0))
            return None
        except subprocess.TimeoutExpired:
            pass
        now = time.time()
        how = None
        if now - t0 > wall:
            how = "wall"
        elif res.over(now):
            how = "deadline"
        else:
            try:  # (case number, CPU ticks): a process that waits changes neither
                with open("/proc/%d/stat" % p.pid) as f:
                    w = f.read().rsplit(")", 1)[1].split()
                with open(prog, "rb") as f:
                    st = (f.read(8), (int(w[11]) + int(w[12])) // 200)
                if st != at or w[0] not in "SD":
                    since, at = now, st
                elif now - since > BLOCKED:
                    how = "blocked"
            except (OSError, IndexError, ValueError):
                since = now
        if how:
            p.kill()
            p.wait()
            return how


def run_shard(res, exe, flavour, d, group, a, b, tier, seed, tmp):
    wall = 780 if tier == 'quick' else 3 * 3600
    tag = "%s.%s.%d.%d" % (d.name + flavour, group, a, b)
    pos, deaths = a, 0
    killed = {}
    cpu = d.cpu
    while pos < b and not res.stop:
        if res.over(time.time()):
            if not res.fresh():
                raise HarnessError("the check's deadline passed before %s group %s (inconclusive)" % (d.name, group))
            break
        out = os.path.join(tmp, tag + ".%d.out" % pos)
        prog = os.path.join(tmp, tag + ".%d.prog" % pos)
        errf = os.path.join(tmp, tag + ".%d.err" % pos)
        scr = os.path.join(tmp, tag + ".%d.scratch" % pos)
        os.makedirs(scr, exist_ok=True)
        for f in (out, prog):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [exe, "--group", group, "--from", str(pos), "--to", str(b), "--seed", str(seed), "--out", out,
               "--progress", prog, "--cpu", str(cpu * (5 if flavour == "memcheck" else 1)), "--scratch", scr]
        if tier == "thorough":
            cmd.append("--thorough")
        env = dict(os.environ)
        env["LC_ALL"] = "C"
        env["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=0:"
                               "max_allocation_size_mb=1024:detect_stack_use_after_return=1:strict_string_checks=0:hard_rss_limit_mb=3000:"
                               "handle_segv=1:handle_abort=0:malloc_context_size=12")
        env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
        vglog = None
        if flavour == "memcheck":
            vglog = os.path.join(tmp, tag + ".%d.vg" % pos)
            cmd = ["valgrind", "-q", "--tool=memcheck", "--leak-check=no", "--error-limit=no", "--num-callers=15",
                   "--undef-value-errors=yes", "--track-origins=no", "--log-file=" + vglog] + cmd
        ef = open(errf, "ab")
        nul = open(os.path.join(tmp, tag + ".%d.stdout" % pos), "ab")
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=nul, stderr=ef, env=env, cwd=scr)
        how = watch(res, p, prog, wall)
        timed = how == "wall"
        ef.close()
        nul.close()
        rc = p.returncode
        cur, done = pos, 0
        if os.path.exists(prog):
            with open(prog, "rb") as f:
                raw = f.read(16)
                if len(raw) == 16:
                    cur, done = struct.unpack("qq", raw)
        with open(errf, "rb") as f:
            err = f.read()[-20000:].decode("utf8", "replace")
        vg = ""
        if vglog and os.path.exists(vglog):
            vg = open(vglog, errors="replace").read()
        with res.lock:
            if os.path.exists(out):
                for line in open(out, errors="replace"):
                    try:
                        j = json.loads(line)
                    except ValueError:
                        continue
                    if j["t"] == "sum":
                        res.evaluations += j["evaluations"]
                        m = res.cpu_max.setdefault(flavour, [0, ""])
                        if j["cpu_max"] > m[0]:
                            res.cpu_max[flavour] = [j["cpu_max"], group]
                        for k, v in j["events"].items():
                            res.events[k] = res.events.get(k, 0) + v
                        for k, v in j["maxima"].items():
                            res.maxima[k] = max(res.maxima.get(k, 0), v)
                        if len(res.samples) < 400:
                            res.samples += [group + ": " + x for x in j["samples"]]
                        if len(res.distinct) < 2000000:
                            res.distinct.update((group + x) for x in j["distinct"])
                    elif j["t"] == "viol":
                        key = j["key"]
                        det = j["detail"]
                        if key.endswith("/memcheck"):
                            # name the repo function of the first report of this process
                            fn = "?"
                            for m in re.finditer(r"(?:at|by) 0x[0-9A-F]+: (.+?) \(([^)]*)\)$", vg, re.M):
                                f0 = m.group(2).split(":")[0]
                                if f0 not in ("vf.hpp",) and os.path.basename(d.src[0]) != f0 and \
                                        f0 in {os.path.basename(x) for x in all_repo_files()}:
                                    fn = _clean_fn(m.group(1))
                                    break
                            key += ":" + fn
                            det += "\n" + vg[:3000]
                        res.violations.append(dict(key=key, detail=det, driver=d.name, flavour=flavour, group=group,
                                                   idx=j["idx"], seed=seed, tier=tier))
        if how == "deadline":
            if res.fresh():
                res.notes.append("%s/%s: given up at the deadline, violations are already established" % (d.name, group))
                break
            raise HarnessError("the check's deadline passed in %s group %s case %d (inconclusive)" % (d.name, group, cur))
        if how == "blocked":
            # run the case alone: blocked again without using the processor, it is a violation
            cmd2 = alone(cmd, cur, out, prog)
            p2 = subprocess.Popen(cmd2, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                  env=env, cwd=scr)
            if watch(res, p2, prog + ".re", wall) == "blocked":
                res.viol(group + "/blocked", "case waited %d s without using the processor, twice" % BLOCKED, driver=d.name,
                         flavour=flavour, group=group, idx=cur, seed=seed, tier=tier)
                res.stop = True
                break
            pos = cur + 1
            a = pos
            continue
        if timed:
            raise HarnessError("watchdog: %s group %s case %d still running after %ds (inconclusive)" % (d.name, group, cur, wall))
        if rc == 0 and done == 1:
            break
        if rc == 3:
            raise HarnessError("driver usage error %s %s: %s" % (d.name, group, err[-500:]))
        # the process died in case `cur`
        if rc == -signal.SIGKILL or rc == -signal.SIGTERM:
            killed[cur] = killed.get(cur, 0) + 1
            if killed[cur] >= 2:
                raise HarnessError("%s group %s case %d killed twice by the system (inconclusive)" % (d.name, group, cur))
            pos = cur
            continue
        if rc == -signal.SIGPROF:
            # CPU limit: confirm alone with twice the limit before calling it a hang (a memcheck
            # case first in the sanitizer build of the same driver, which is many times faster)
            if res.stop:
                break
            exes2 = [exe]
            if flavour == "memcheck" and "asan" in d.flavours:
                exes2.insert(0, exe.replace(d.name + ".memcheck", d.name + ".asan"))
            for e2 in exes2:
                cmd2 = alone(cmd, cur, out, prog)
                k = cmd2.index(exe)
                if e2 != exe:
                    cmd2 = [e2] + cmd2[k + 1:]
                cmd2[cmd2.index("--cpu") + 1] = str(2 * cpu * (5 if flavour == "memcheck" and e2 == exe else 1))
                try:
                    r2 = subprocess.run(cmd2, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                        stderr=subprocess.DEVNULL, env=env, cwd=scr, timeout=wall)
                except subprocess.TimeoutExpired:
                    raise HarnessError("hang confirmation of %s/%s case %d hit the watchdog (inconclusive)" % (d.name, group, cur))
                if r2.returncode == -signal.SIGPROF:
                    key = group + "/hang"
                    res.viol(key, "case exceeded %s s of CPU alone" % cmd2[cmd2.index("--cpu") + 1], driver=d.name,
                             flavour=flavour, group=group, idx=cur, seed=seed, tier=tier)
                    res.stop = key not in all_known()
                    break
            if res.stop:
                break
            pos = cur + 1
        else:
            kind, fn = classify_death(rc, err)
            res.viol("%s/%s:%s" % (group, kind, fn), err[-3000:], driver=d.name, flavour=flavour, group=group,
                     idx=cur, seed=seed, tier=tier)
            pos = cur + 1
        with res.lock:
            res.evaluations += max(0, pos - a) if deaths == 0 else 1
            res.deaths += 1
        a = pos
        deaths += 1
        if deaths >= 12:
            res.notes.append("%s/%s: stopped after %d process deaths" % (d.name, group, deaths))
            break
    return True


_repo_files = None


def all_repo_files():
    global _repo_files
    if _repo_files is None:
        _repo_files = [f for ext in ("hpp", "cpp", "cc") for f in glob.glob(REPO + "/src/**/*." + ext, recursive=True)
                       + glob.glob(REPO + "/var/**/*." + ext, recursive=True)]
    return _repo_files


def run_drivers(drivers, tier, seed, res=None, only=None, thorough_x=1):
    res = res or Result()
    t0 = time.time()
    if res.deadline is None:
        res.deadline = t0 + (6 * 3600 if tier == "thorough" else 780)
        res.soft = t0 + (2 * 3600 if tier == "thorough" else 240)
    exes = build(drivers)
    res.notes.append("build %.1fs" % (time.time() - t0))
    res.notes += ["left out, does not build: %s.%s" % (d.name, fl) for d in drivers for fl in d.flavours if (d.name, fl) not in exes]
    tmp = tempfile.mkdtemp(prefix="vf.")
    try:
        shards = []
        for d in drivers:
            for fl in d.flavours:
                exe = exes.get((d.name, fl))
                if not exe:
                    continue
                r = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                   env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
                if r.returncode:
                    raise HarnessError("driver %s does not start: %s" % (d.name, r.stderr[-2000:]))
                for line in r.stdout.splitlines():
                    g, q, t = line.split()
                    n = int(t) * thorough_x if tier == "thorough" else int(q)
                    if fl == "memcheck":
                        n = max(1, n // d.memcheck_div)
                    if only and not re.match(only, g):
                        continue
                    if getattr(d, 'groups', None) and g not in d.groups:
                        continue
                    k = min(JOBS, max(1, n // 8))
                    step = -(-n // k)
                    for s in range(0, n, step):
                        shards.append((d, fl, exe, g, s, min(n, s + step)))
        with cf.ThreadPoolExecutor(JOBS) as pool:
            # a shard that starts once the verdict is established returns at once
            futs = [pool.submit(run_shard, res, exe, fl, d, g, a, b, tier, seed, tmp) for d, fl, exe, g, a, b in shards]
            err = None
            for f in futs:
                try:
                    f.result()
                except Exception as e:  # noqa
                    err = err or e
            if err:
                if not res.fresh():
                    raise err
                res.notes.append("incomplete: %s" % err)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


# -------------------------------------------------------------- known findings
def known_findings(prop):
    """lines 'finding: property=<id> key=<key> <what fails>' (keys are exact)"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def all_known():
    return {k for n in range(1, 100) for k in known_findings("C%02d" % n)}


def spread(samples, n=12):
    """n samples, taking one of each group before a second of any"""
    by = {}
    for x in samples:
        by.setdefault(x.split(":")[0], []).append(x)
    out, k = [], 0
    while len(out) < n and any(len(v) > k for v in by.values()):
        out += [v[k] for v in by.values() if len(v) > k]
        k += 1
    return out[:n]


def finish(prop, tier, seed, res, cfg, t0):
    known = known_findings(prop)
    fresh, listed = {}, {}
    for v in res.violations:
        k = v["key"].replace(" ", "_")
        (listed if k in known else fresh).setdefault(k, v)
    for k in listed:
        log("KNOWN-FINDING: property=%s %s [%s]" % (prop, known[k], k))
    cov = {
        "evaluations": res.evaluations,
        "distinct_nontrivial": len(res.distinct),
        "rule": cfg["rule"],
        "samples": spread(res.samples) or ["(none)"],
        "events": dict(sorted(res.events.items())),
        "largest_error_to_tolerance_ratio": {k: v for k, v in sorted(res.maxima.items())},
        "process_deaths": res.deaths,
        "most_cpu_seconds_of_one_case": res.cpu_max,
        "known_findings_seen": sorted(listed),
        "notes": res.notes,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"), "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rc = 0
    rdir = os.path.join(VERIF, "replays")
    for n, (k, v) in enumerate(sorted(fresh.items())):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (prop, n))
        with open(path, "w") as f:
            json.dump(dict(property=prop, **v), f, indent=1)
        log("VIOLATION property=%s replay=%s" % (prop, path))
        log("  key=%s" % k)
        log("  " + v["detail"][:1500].replace("\n", "\n  "))
        rc = 1
    if rc == 0 and (res.evaluations == 0 or len(res.distinct) == 0):
        raise HarnessError("nothing was observed")
    log("property=%s tier=%s evaluations=%d distinct=%d violations=%d known=%d wall=%.1fs" % (
        prop, tier, res.evaluations, len(res.distinct), len(fresh), len(listed), time.time() - t0))
    return rc
