"""C29: the data-preparation scripts of /repo, run as they are on generated inputs."""
import concurrent.futures as cf, datetime, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time, traceback
from . import core

STUBS = os.path.join(core.VERIF, "framework", "script_stubs")
FORTRAN = re.compile(r"^([+-]?(?:\d+\.?\d*|\.\d+))[Dd]([+-]?\d+)$")


def run(cmd, cwd, stdin=None, env=None, py=sys.executable):
    """one script run: (exit code, stdout bytes, stderr text); CPU and output size are bounded"""
    def limits():
        resource.setrlimit(resource.RLIMIT_CPU, (20, 22)); resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 25, 1 << 25)); resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    e = dict(os.environ, LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.pathsep.join([STUBS, os.path.join(core.REPO, "script", "pydoris")]))
    e.update(env or {})
    out, err = os.path.join(cwd, ".stdout"), os.path.join(cwd, ".stderr")
    with open(out, "wb") as o, open(err, "wb") as r:
        p = subprocess.Popen([py] + cmd, cwd=cwd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=o, stderr=r, env=e, preexec_fn=limits)
        try:
            p.communicate(stdin, timeout=600)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); raise core.HarnessError("watchdog: %s (inconclusive)" % cmd[0])
    return p.returncode, open(out, "rb").read(), open(err, "rb").read().decode("utf8", "replace")


class Case:
    def __init__(self, res, group, idx, seed, tier, tmp):
        self.res, self.group, self.idx, self.seed, self.tier = res, group, idx, seed, tier
        self.r = random.Random("%d/%s/%d" % (seed, group, idx)); self.dir = tempfile.mkdtemp(prefix="c%d." % idx, dir=tmp); self.seen = []

    def check(self, ok, key, detail):
        with self.res.lock: self.res.evaluations += 1
        if not ok: self.res.viol(self.group + "/" + key, detail, group=self.group, idx=self.idx, seed=self.seed, tier=self.tier)
        return ok

    def hang(self, rc, what):
        ok = self.check(rc not in (-signal.SIGXCPU, -signal.SIGKILL, -signal.SIGXFSZ), "hang", what + " exceeded its CPU or output limit")
        self.res.stop = self.res.stop or not ok  # the verdict is there: more of the same would only take time
        return ok

    def event(self, k, n=1): self.res.event(k, n)

    def distinct(self, x):
        with self.res.lock: self.res.distinct.add(self.group + hashlib.sha1(x.encode() if isinstance(x, str) else x).hexdigest()[:16])

    def sample(self, s):
        with self.res.lock:
            if len(self.res.samples) < 60: self.res.samples.append(self.group + ": " + s)


# ------------------------------------------------------------ gravity files
def number(r, fortran):
    k = r.random(); digits = "".join(r.choice("0123456789") for _ in range(r.randint(1, 17)))
    m = ("0." if k < .5 else "." if k < .6 else r.choice("123456789") + ("." if k < .95 else "")) + ("" if k >= .9 else digits)
    if r.random() < .12: m = str(r.randint(10, 99999)) + "." + digits
    ex = r.choice(["%s%02d" % (r.choice("+-"), r.randint(0, 40)), "%s%d" % (r.choice(["+", "-", ""]), r.randint(0, 9)), "-%03d" % r.randint(0, 300)])
    return r.choice(["", "-", "-", "+"]) + m + (r.choice("Dd") if fortran else r.choice("Ee")) + ex


def c_form(word):
    m = FORTRAN.match(word)
    return m.group(1) + "e" + m.group(2) if m else word


def gfc(c, script):
    r = c.r; head, data = [], []; enc = r.choice(["utf8", "utf8", "latin1"]); nl = r.choice(["\n", "\n", "\r\n"])
    for _ in range(r.randint(0, 12)):
        head.append(r.choice(["", "  ", "generating_institute  GFZ", "modelname   GRACE-2D5 v1D", "earth_gravity_constant  0.3986004415D+15", "radius  6.3781363D6", "# F\u00f6rste, Bruinsma, No\u00ebl", "errors formal", "comment end_of_head follows", "key  L   M    C"]))
    ends = r.random() > .06
    if ends: head.append(r.choice(["end_of_head ====================", "end_of_head", "  end_of_head ==", "end_of_head\t="]))
    for _ in range(r.randint(0, r.choice([3, 60, 400]))):
        k = r.random()
        if k < .05: data.append(r.choice(["", "   ", "# comment on GRD05 and 3D-model", "# after GRACE2D5 and v1.2D3", "end_of_head ="])); continue
        l = r.randint(0, 360); f = r.random() < .75; sep = r.choice([" ", "  ", "\t", "    "])
        w = [r.choice(["gfc", "gfc", "gfct", "trnd", "acos", "asin", "dot", "DOT", "gfc0D", "gfc2D3"]), str(l), str(r.randint(0, l))] + [number(r, f if r.random() < .9 else not f) for _ in range(r.choice([2, 4, 4, 6]))]
        if r.random() < .2: w.append(r.choice(["20050101", "20050101.0000", "1.0", "7", "D", "1D"]))
        data.append(r.choice(["", "", " "]) + sep.join(w) + r.choice(["", "", "  "]))
    text = nl.join(head + data) + (nl if r.random() < .8 else ""); raw = text.encode(enc); fn = os.path.join(c.dir, "model.gfc"); open(fn, "wb").write(raw)
    rc, out, err = run([os.path.join(core.REPO, script), fn], c.dir)
    if not c.hang(rc, "a file of %d header and %d data lines%s" % (len(head), len(data), "" if ends else " without end_of_head")): return
    c.distinct(raw)
    # the first end_of_head starts the data section
    if not ends and any(l.lstrip().startswith("end_of_head") for l in head + data): return
    if not ends:
        c.check(rc != 0, "missing_header_end_reported", "no end_of_head, exit status 0"); c.event("damaged files"); return
    if not c.check(rc == 0, "accepted", "exit status %d: %s" % (rc, err[-400:])): return
    lines = text.split(nl); lines = lines[:-1] if lines and lines[-1] == "" else lines; got = out.decode(enc, "replace").split("\n"); got = got[:-1] if got and got[-1] == "" else got
    k = next(i for i, l in enumerate(lines) if l.lstrip().startswith("end_of_head")); n = 0
    while len(got) > len(lines) and got[-1] == "": got.pop()
    while len(lines) > len(got) and lines[-1].strip() == "": lines.pop()
    if not c.check(len(got) == len(lines), "every_line_kept", "%d lines in, %d lines out" % (len(lines), len(got))): return
    for i, (a, b) in enumerate(zip(lines, got)):
        if i <= k:
            c.check(a.strip() == b.strip(), "header_unchanged", "line %d: '%s' became '%s'" % (i + 1, a, b)); continue
        wa, wb = re.split(r"([ \t]+)", a.strip()), re.split(r"([ \t]+)", b.strip())
        if a.strip().startswith("#"): c.check(a.strip() == b.strip(), "text_unchanged", "'%s' became '%s'" % (a, b)); continue
        if not c.check(len(wa) == len(wb), "every_word_kept", "'%s' became '%s'" % (a, b)): continue
        for x, y in zip(wa, wb):
            m = FORTRAN.match(x)
            if m:
                ok = True
                try: ok = abs(float(y) - float(m.group(1) + "e" + m.group(2))) == 0 or float(y) == float(m.group(1) + "e" + m.group(2))
                except ValueError: ok = False
                c.check(ok and "d" not in y.lower(), "number_converted", "'%s' became '%s' in '%s'" % (x, y, b)); n += 1
            else: c.check(x == y, "text_unchanged", "'%s' became '%s' in '%s'" % (x, y, a))
    c.event("Fortran numbers converted", n); c.event("gravity file lines compared", len(lines))
    fn2 = os.path.join(c.dir, "again.gfc"); open(fn2, "wb").write(out); rc2, out2, _ = run([os.path.join(core.REPO, script), fn2], c.dir)
    c.check(rc2 == 0 and out2 == out, "converted_file_unchanged", "a second run changes its own output"); c.sample("%d header lines, %d data lines, %s, %d Fortran numbers" % (k + 1, len(lines) - k - 1, enc, n))


# ------------------------------------------------------- Earth orientation
T0 = datetime.date(1858, 11, 17)


def bulletin(r, days, prelim, damage=None):
    """text of one bulletin and its final values {mjd: (10 values, 4 values)}"""
    vals = {}
    def row1(d):
        v = ["%.3f" % r.uniform(-700, 700), "%.3f" % r.uniform(-700, 700), "%.4f" % r.uniform(-899, 899), "%.3f" % r.uniform(-2, 2), "%.3f" % r.uniform(-2, 2)] + ["%.3f" % r.uniform(0, .9) for _ in range(2)] + ["%.4f" % r.uniform(0, .9)] + ["%.3f" % r.uniform(0, .9) for _ in range(2)]
        return v, "%4d %3d %3d  %5d %s" % (d.year, d.month, d.day, (d - T0).days, " ".join("%9s" % x for x in v))
    def row3(d):
        v = ["%.4f" % r.uniform(-3, 3), "%.4f" % r.uniform(0, .1), "%.9f" % (15.041067178 + r.uniform(-1e-6, 1e-6)), "%.9f" % r.uniform(0, 1e-7)]
        return v, "%4d %3d %3d  %5d %s" % (d.year, d.month, d.day, (d - T0).days, " ".join("%12s" % x for x in v))
    b1, b3 = [], []
    for d in days:
        v, l = row1(d); w, m = row3(d); b1.append(l); b3.append(m); vals[(d - T0).days] = (v, w)
    p1 = [row1(d)[1] for d in prelim]
    if not damage and r.random() < .3: # section 3 covers more days than section 1: the sections are joined by date
        one = datetime.timedelta(days=1)
        b3 = [row3(days[0] - k * one)[1] for k in range(r.randint(0, 3), 0, -1)] + b3 + [row3(days[-1] + k * one)[1] for k in range(1, r.randint(0, 3) + 1)]
    if damage == "short1": i = r.randrange(len(b1)); b1[i] = " ".join(b1[i].split()[:-1])
    if damage == "short3": i = r.randrange(len(b3)); b3[i] = " ".join(b3[i].split()[:-1])
    if damage == "text1": i = r.randrange(len(b1)); b1[i] = b1[i][:30] + "x" + b1[i][31:]; b1[i] = " ".join(["1x" if k == 5 else w for k, w in enumerate(b1[i].split())])
    if damage == "absent3": del b3[r.randrange(len(b3))]
    t = ["", "     INTERNATIONAL EARTH ROTATION AND REFERENCE SYSTEMS SERVICE (IERS)", "", "  BULLETIN B", "  Contents are described in http://hpiers.obspm.fr/iers/bul/bulb_new/bulletinb.pdf", "",
         "1 - DAILY FINAL VALUES OF x, y, UT1-UTC, dX, dY", "  Angular unit is milliarcsecond (mas), time unit is millisecond (ms).", "  Upgraded solution from March 1 2017 - consistent with ITRF 2014.", "",
         "     DATE     MJD       x        y       UT1-UTC     dX        dY       x err     y err    UT1 err   dX err    dY err ", "  (0 h UTC)            mas      mas        ms        mas       mas       mas       mas        ms       mas       mas   ", "", "  Mean formal error                  0.030     0.030     0.0100    0.030     0.030", ""]
    if damage == "head1": i = r.choice([6, 10, 11]); t[i] = {6: "1 - DAILY FINAL VALUES OF UT1-UTC, x, y, dX, dY", 10: "     DATE     MJD       y        x       UT1-UTC     dX        dY       y err     x err    UT1 err   dX err    dY err ", 11: "  (0 h UTC)             as       as         s         as        as        as        as         s        as        as   "}[i]
    t += b1 + ["  " if r.random() < .5 else ""] + p1 + ["", "2 - DAILY FINAL VALUES OF CELESTIAL POLE OFFSETS dPsi1980 & dEps1980", "  (IAU 1980)", ""]
    if damage != "no3": t += ["3 - EARTH ANGULAR VELOCITY : DAILY FINAL VALUES OF LOD, OMEGA AT 0hUTC", "  LOD : Excess of the Length of day - 86400 s UTC" if damage == "head3" else "  LOD : Excess of the Length of day - 86400 s TAI", "  OMEGA : Earth angular velocity", "", "     DATE      MJD        LOD    sigma     OMEGA           sigma", "  (0 h UTC)              ms       ms        mas/ms          mas/ms", ""] + b3 + [""]
    t += ["4 - INFORMATION ON TIME SCALES", ""]
    return "\n".join(t) + "\n", vals


def c04(c):
    r = c.r; web = os.path.join(c.dir, "web"); os.mkdir(web); base = "https://hpiers.obspm.fr/iers/bul/bulb_new/bulletinb."
    late = c.idx % 10 == 3; nr = r.randint(1009, 1013) if late else r.randint(253, 400); limit = r.choice([20, 40]) if late else r.choice([0, 1, 2, 3, 3, 5, 10, 20, 40, 70]); mode = "overlap" if late else "damaged" if c.idx % 5 == 1 else r.choice(["chain"] * 6 + ["overlap"] * 3 + ["missing", "down"])
    # months around number nr; the numbers follow the script's own count of 31 days per bulletin
    start = datetime.date(2008, 12, 2) + datetime.timedelta(days=(nr - 252) * 30 + r.randint(0, 20)); d = start; spans = []
    for k in range(26):
        nxt = (d.replace(day=1) + datetime.timedelta(days=32)).replace(day=2) if r.random() < .8 else d + datetime.timedelta(days=r.randint(26, 33)); over = r.randint(1, 4) if mode == "overlap" else 0
        spans.append((d, nxt - datetime.timedelta(days=1) + datetime.timedelta(days=over))); d = nxt
    i = 12; lo, hi = spans[i]; t = r.choice([lo, hi, lo + datetime.timedelta(days=limit), hi - datetime.timedelta(days=limit), lo + datetime.timedelta(days=r.randint(0, (hi - lo).days)), lo + datetime.timedelta(days=r.randint(0, 28))])
    t0, t1 = t - datetime.timedelta(days=limit), t + datetime.timedelta(days=limit)
    guess = 252 + (datetime.datetime(t0.year, t0.month, t0.day) - datetime.datetime(2008, 12, 12)).days // 31; off = min(5, max(-5, 999 - guess)) if late else r.choice([-5, -2, -1, 0, 0, 0, 1, 2, 5]) # late: numbers of three and four digits
    first = next(k for k, s in enumerate(spans) if s[0] <= t0 <= s[1]); rules, vals, texts = {}, {}, {}
    dmg = ["short1", "short3", "text1", "absent3", "no3", "head1", "head3"][c.idx // 5 % 7] if mode == "damaged" else None
    for k, (a, b) in enumerate(spans):
        n = guess + off + k - first; days = [a + datetime.timedelta(days=x) for x in range((b - a).days + 1)]; pre = [b + datetime.timedelta(days=x + 1) for x in range(30)]
        hit = a <= t1 and t0 <= b; text, v = bulletin(r, days, pre, dmg if hit else None); fn = "bulletinb.%d" % n; open(os.path.join(web, fn), "w").write(text); vals[n] = v
        rules[base + str(n)] = r.choice([{"code": 404}, {"code": 404, "file": fn}, {"code": 500, "file": fn}]) if mode == "missing" and hit else {"down": 1} if mode == "down" and hit else {"code": 200, "file": fn}
    json.dump(rules, open(os.path.join(web, "rules.json"), "w"))
    save = r.random() < .7; of = os.path.join(c.dir, "eop.txt")
    if save and r.random() < .3: open(of, "w").write("#1 - an earlier series\n" + "2001   1   1   51910" * 400)
    cmd = [os.path.join(core.REPO, "script/fetch_iers_c04.py"), "-d", t.strftime("%Y-%m-%d"), "-n", str(limit)] + (["-o", of] if save else [])
    work = os.path.join(c.dir, "work"); os.mkdir(work); rc, out, err = run(cmd, work, env={"VF_WEB": web})
    tag = "%s, %s +- %d days, bulletin %s to %s, first guess %+d" % (mode if not dmg else dmg, t, limit, lo, hi, -off); c.distinct(tag)
    if not c.hang(rc, tag): return
    asked = [int(l.rsplit(".", 1)[1]) for l in open(os.path.join(web, "log"))] if os.path.exists(os.path.join(web, "log")) else []
    if dmg or mode in ("missing", "down"):
        c.check(rc != 0, "damage_is_reported", "%s: exit status 0" % tag); c.event("unusable bulletins"); return
    if not c.check(rc == 0, "series_delivered", "%s: exit status %d: %s" % (tag, rc, err[-300:])): return
    text = open(of).read() if save else out.decode(); rows = [l.split() for l in text.split("\n") if l.strip() and not l.startswith("#")]
    mjd = []
    for w in rows:
        if not c.check(len(w) == 18, "record_is_complete", "%s: %s" % (tag, " ".join(w))): return
        m = int(w[3]); mjd.append(m); day = T0 + datetime.timedelta(days=m)
        if not c.check([int(x) for x in w[:3]] == [day.year, day.month, day.day], "date_matches_mjd", "%s: %s" % (tag, " ".join(w))): return
        src = max((n for n in set(asked) if n in vals and m in vals[n]), default=None)
        if not c.check(src is not None, "day_is_from_a_bulletin", "%s: day %d is no final value of any bulletin fetched" % (tag, m)): return
        if not (t0 - T0).days <= m <= (t1 - T0).days: # a bulletin may be set aside when it holds no requested day
            src = max((n for n in set(asked) if m in vals.get(n, {}) and abs(float(vals[n][m][0][0]) - float(w[4])) < 6e-5), default=src)
        a, b = vals[src][m]
        for x, y in zip(a, w[4:14]): c.check(abs(float(x) - float(y)) < 6e-5, "value_of_newest_source", "%s: day %d: %s written as %s (bulletin %d)" % (tag, m, x, y, src))
        for x, y in zip(b, w[14:]): c.check(abs(float(x) - float(y)) < 1e-12, "value_of_newest_source", "%s: day %d: %s written as %s (bulletin %d)" % (tag, m, x, y, src))
    c.check(all(a < b for a, b in zip(mjd, mjd[1:])), "each_day_once_in_order", "%s: %s" % (tag, [(a, b) for a, b in zip(mjd, mjd[1:]) if a >= b][:5]))
    need = range((t0 - T0).days, (t1 - T0).days + 1); miss = [m for m in need if m not in set(mjd)]; c.check(not miss, "requested_days_present", "%s: %d of %d days are missing, first %s" % (tag, len(miss), len(need), miss[:1]))
    c.event("days merged", len(mjd)); c.event("bulletins fetched", len(asked)); c.sample(tag)


# ------------------------------------------------------------ station logs
TITLES = ["0. Form", "1. Site location information", "2. DORIS antenna and reference point information", "3. DORIS beacons information", "4. ITRF coordinates and velocities of the current DORIS ref. point (%s)", "5. IERS colocation information", "6. Tide Gauge colocation information", "7. Local site ties", "8. Meteorological Instrumentation", "9. DORIS network contacts"]


def logs(c):
    r = c.r; n = r.randint(1, 6); reqs, wants, lines, bad, d = [], [], [], None, os.path.join(c.dir, "logs"); os.mkdir(d)
    damage = r.choice([None] * 7 + ["height", "date", "absent", "nocolon", "noblock"])
    for i in range(n):
        site = "".join(r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ") for _ in range(3)); sub = {}; t = ["              %s DORIS site description form" % site, "", ""]; last = r.choice([9, 9, 9, 2, 3, 4])
        dmg = damage if i == n - 1 else None
        for b in range(last + 1):
            if dmg == "noblock" and b == 2: continue
            t += [TITLES[b] % site + "x" if "%s" in TITLES[b] and 0 else TITLES[b].replace("%s", site + "B"), ""]; sub[b] = []
            for k in range((r.randint(9, 13) if r.random() < .08 else r.randint(1, 4)) if b else 1):
                f = {}; t.append("%d.%d%s" % (b, k + 1, r.choice(["", " ", "  DORIS"])) if b else ""); pad = r.choice([2, 4, 5])
                if b == 2:
                    inst = datetime.date(1986, 1, 1) + datetime.timedelta(days=r.randint(0, 14000)); rem = "" if r.random() < .3 else (inst + datetime.timedelta(days=r.randint(1, 4000))).strftime("%d/%m/%Y"); val = r.choice(["%.3f", "%.2f", "%.1f", "%.4f", "%.0f"]) % r.choice([r.uniform(0, 3), r.uniform(0, 20), r.uniform(90, 200)])
                    hs = r.choice(["%s m", "%sm", "%s  m", "%s", "%s m (approx.)", "%s meters"]) % val; hv = float(val)
                    if r.random() < .06: hs, hv = r.choice([("", 0.), ("m", 0.)])
                    name = site + chr(65 + k)
                    if dmg == "height" and k == 0: hs = r.choice(["510 mm", "51 cm", "0,51 m", "1.2.3 m"])
                    ins = inst.strftime("%d/%m/%Y") if not (dmg == "date" and k == 0) else r.choice(["31/02/2001", "1999", "12/13/2001", ""])
                    f = {"Four character ID": name, "IERS DOMES number": "%05dS%03d" % (r.randint(10000, 99999), r.randint(1, 9)), "Antenna model": r.choice(["Alcatel", "Starec B", "Starec C"]), "Height above ground mark": hs, "Date installed (dd/mm/yy)": ins, "Date removed (dd/mm/yy)": rem, "Notes": r.choice(["", "2 Ghz PC offset : 2 mm north, 1 mm west", "none", "moved in 1995"])}
                    if dmg == "absent" and k == 0: f.pop(r.choice(["Four character ID", "Height above ground mark", "Date installed (dd/mm/yy)", "Date removed (dd/mm/yy)"]))
                    if not dmg: lines.append((name, inst, rem, hv))
                else:
                    for q in range(r.randint(1, 6)): f["Field %d of block %d" % (q, b)] = r.choice(["value", "12.5", "a : b", "", "10:20 UTC", "x=1; y=2"])
                for key, v in f.items():
                    t.append(" " * pad + "%-26s:%s" % (key, " " + v if v else r.choice(["", " "])))
                    if r.random() < .12 and key in ("Notes", "Field 1 of block %d" % b):
                        more = "continued on the next line of the form"; t.append(" " * 31 + more); f[key] = (v + " " + more).strip()
                if r.random() < .3: t.append(r.choice(["", "  ", "    "]))
                sub[b].append(f)
            if dmg == "nocolon" and b == 2: t.insert(len(t) - r.randint(1, 3), ""); t.append(""); t.append("   no separator")
            t.append("")
        fn = os.path.join(d, "%s%d%s" % (site, i, r.choice([".LOG", ".log"]))); txt = r.choice(["\n", "\n", "\r\n"]).join(t) + ("\n" if r.random() < .7 else ""); open(fn, "w", newline="").write(txt.rstrip("\n") if r.random() < .2 else txt)
        if dmg: bad = dmg
        else:
            for b in sub: reqs.append([fn, b]); wants.append(sub[b])
        for b in range(last + 1, 10): 
            if not dmg: reqs.append([fn, b]); wants.append(None)
    if r.random() < .4: open(os.path.join(d, "readme.txt"), "w").write("not a log\n")
    c.distinct("%d %s %d" % (n, damage, c.idx))
    order = list(range(len(reqs))); r.shuffle(order); reqs, wants = [reqs[i] for i in order], [wants[i] for i in order] # one reader per file answers in any order
    js = os.path.join(c.dir, "out.json"); rc, out, err = run([os.path.join(STUBS, "ids_probe.py"), os.path.join(core.REPO, "script/pydoris/pydoris/log/ids_log_parser.py"), js], c.dir, stdin=json.dumps(reqs).encode())
    if not c.hang(rc, "log parser"): return
    if not c.check(rc == 0, "parser_runs", err[-400:]): return
    norm = lambda x: " ".join(x.split())
    for (fn, b), w, (st, g) in zip(reqs, wants, json.load(open(js))):
        tag = "%s block %d" % (os.path.basename(fn), b)
        if w is None: c.check(st == "error", "absent_block_reported", tag); continue
        if not c.check(st == "ok", "block_parses", "%s: %s" % (tag, g)): continue
        if c.check(len(g) == len(w), "every_record_kept", "%s: %d records written, %d read" % (tag, len(w), len(g))):
            for a, x in zip(w, g): c.check({k: norm(v) for k, v in a.items()} == {k: norm(v) for k, v in x.items()}, "record_is_as_written", "%s: %s read as %s" % (tag, a, x))
        c.event("log records compared", len(w))
    # the station list
    of = os.path.join(c.dir, "stations.txt"); save = r.random() < .5
    if save and r.random() < .5: open(of, "w").write("earlier list\n" * 50)
    rc, out, err = run([os.path.join(core.REPO, "script/ids_logs2station_info.py"), "-l", d] + (["-o", of] if save else []), c.dir)
    if not c.hang(rc, "station list"): return
    if bad: c.check(rc != 0, "damage_is_reported", "%s in one of %d logs: exit status 0" % (bad, n)); c.event("damaged logs"); return
    if not c.check(rc == 0, "list_delivered", "exit status %d: %s" % (rc, err[-400:])): return
    got = (open(of).read() if save else out.decode()).split("\n"); got = [l for l in got[1:] if l.strip()]
    want = sorted("%s %s 00:00:00 %s %.6f" % (nm, a.strftime("%Y-%m-%d"), (datetime.datetime.strptime(b, "%d/%m/%Y").strftime("%Y-%m-%d 00:00:00") if b else "9999-12-31 23:59:59"), h) for nm, a, b, h in lines)
    c.check(sorted(norm(l) for l in got) == want, "station_list_matches_logs", "written %s, listed %s" % ([w for w in want if w not in [norm(l) for l in got]][:3], [norm(l) for l in got if norm(l) not in want][:3]))
    c.event("antenna records listed", len(want)); c.sample("%d logs, %d antennas%s" % (n, len(want), ", damaged: " + damage if damage else ""))


# ------------------------------------------------------------- C headers
def header(c):
    r = c.r; L = ["/* generated */", "#ifndef H_%d" % c.idx, "#define H_%d" % c.idx]; funcs = []
    for k in range(r.randint(1, 12)):
        q = r.random()
        if q < .6: funcs.append("vf_fn_%d_%d" % (c.idx, k)); L += ["   double   %s ( double  x," % funcs[-1], "                 ConstSpiceChar * name );".replace("ConstSpiceChar", "const char")]
        elif q < .75: L += ["#define VF_M_%d(a) \\" % k, "   ((a) + \\", "    %d)" % k]
        elif q < .9: L += ["typedef struct _s%d_%d {" % (c.idx, k), "\t int    a[3];   /* three  */", "} s%d_%d;" % (c.idx, k)]
        else: L += ["", "   /*", "   -Brief text with  spaces", "   */"]
    L.append("#endif"); fn = os.path.join(c.dir, "in.h"); open(fn, "w").write("\n".join(L) + "\n"); rc, out, err = run([os.path.join(core.REPO, "script/jpl/c2cpp_header.py"), fn], c.dir); c.distinct("\n".join(L))
    if not c.hang(rc, "header wrapping") or not c.check(rc == 0, "accepted", err[-300:]): return
    text = out.decode(); body = [l.strip() for l in text.split("\n") if l.strip()]; src = [l.strip() for l in L if l.strip()]
    k = next((i for i in range(len(body)) if body[i:i + len(src)] == src), None)
    c.check(k is not None, "every_line_kept", "the header's lines are not in the output in order"); c.event("header lines compared", len(src))
    if c.idx % 3 == 0:
        open(os.path.join(c.dir, "out.h"), "w").write(text); main = '#include "out.h"\n#include "out.h"\n' + "".join("double use_%d(void) { return %s(1.0, \"a\"); }\n" % (i, f) for i, f in enumerate(funcs)) + "int main(void) { return 0; }\n"
        for comp, ext in (("gcc", "c"), ("g++", "cpp")):
            s = os.path.join(c.dir, "m." + ext); open(s, "w").write(main); p = subprocess.run([comp, "-w", "-c", s, "-o", s + ".o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if not c.check(p.returncode == 0, "compiles_as_" + ext, p.stdout[-500:]): continue
            und = {l.split()[-1] for l in subprocess.run(["nm", "-u", s + ".o"], stdout=subprocess.PIPE, text=True).stdout.splitlines()}
            c.check(all(f in und for f in funcs), "functions_have_c_linkage", "%s: %s not referenced by their C names" % (comp, [f for f in funcs if f not in und][:3])); c.event("functions with C linkage", len(funcs))
    if c.idx % 7 == 0:
        rc, out, err = run([os.path.join(core.REPO, "script/jpl/c2cpp_header.py"), os.path.join(c.dir, "none.h")], c.dir); c.check(rc != 0, "damage_is_reported", "missing header: exit status 0")


# ------------------------------------------------------------ space weather
def weather(c):
    r = c.r; web = os.path.join(c.dir, "web"); os.mkdir(web); all_, five = "https://celestrak.org/SpaceData/SW-All.csv", "https://celestrak.org/SpaceData/SW-Last5Years.csv"; content = {}
    for k, u in enumerate((all_, five)): content[u] = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 700, 5000]))) + b"%d" % k; open(os.path.join(web, "f%d" % k), "wb").write(content[u])
    mode = r.choice(["ok"] * 4 + ["404", "500", "503", "down", "nodir"]); rule = {u: {"code": 200, "file": "f%d" % k} if mode in ("ok", "nodir") else {"down": 1} if mode == "down" else {"code": int(mode), "file": "f%d" % k} for k, u in enumerate((all_, five))}
    json.dump(rule, open(os.path.join(web, "rules.json"), "w")); full = r.random() < .5; url = all_ if full else five; o, O = r.random() < .5, r.random() < .6; dst = os.path.join(c.dir, "dst"); work = os.path.join(c.dir, "work"); os.mkdir(work)
    if mode != "nodir": os.mkdir(dst)
    else: O = True
    name = "sw.csv" if o else url.rsplit("/", 1)[1]
    if o and mode != "nodir" and r.random() < .4: name = "sub/sw.csv"; os.mkdir(os.path.join(dst if O else work, "sub"))
    target = os.path.join(dst if O else work, name); old = None
    if r.random() < .4 and mode != "nodir": old = b"previous"; open(target, "wb").write(old)
    rc, out, err = run([os.path.join(core.REPO, "script/fetch_celestrak_space_weather_data_csv.py")] + (["--csv-all"] if full else []) + (["-o", name] if o else []) + (["-O", dst] if O else []), work, env={"VF_WEB": web}); c.distinct("%s %s %s %s %s %d" % (mode, full, o, O, old, len(content[url])))
    if not c.hang(rc, "space weather download"): return
    if mode == "ok": c.check(rc == 0 and os.path.exists(target) and open(target, "rb").read() == content[url], "file_equals_resource", "%s -> %s: exit status %d %s" % (url, target, rc, err[-200:])); c.event("space weather files fetched")
    else: c.check(rc != 0, "failure_is_reported", "%s: exit status 0" % mode); c.check((open(target, "rb").read() if os.path.exists(target) else None) == old, "nothing_saved_on_failure", "%s: target changed" % mode); c.event("space weather failures")


# -------------------------------------------------------------- scatter plot
def scatter(c):
    r = c.r; nf = r.randint(1, 3); files, cols = [], []; time = r.random() < .5; frac = r.choice([0, 3, 6, 9])
    for k in range(nf):
        rows, n, m = [], r.randint(1, 30), r.randint(3, 6); t = datetime.datetime(2020, 1, 1) + datetime.timedelta(seconds=r.randint(0, 10 ** 8))
        for i in range(n):
            t += datetime.timedelta(microseconds=r.randint(1, 10 ** 10)); us = "%06d" % t.microsecond; f = {0: "", 3: "." + us[:3], 6: "." + us, 9: "." + us + "%03d" % r.randint(0, 999)}[frac]
            rows.append(([t.strftime("%Y-%m-%d"), t.strftime("%H:%M:%S") + f] if time else []) + [repr(round(r.uniform(-1e3, 1e3), r.randint(0, 9))) for _ in range(m)])
        L = [" ".join(x) for x in rows]
        for _ in range(r.randint(0, 3)): L.insert(r.randint(0, len(L)), "# comment $1")
        fn = os.path.join(c.dir, "f%d.txt" % k); open(fn, "w").write("\n".join(L) + "\n"); files.append(fn); cols.append(rows)
    specs, want = [], []
    for k in range(nf):
        rows, o = cols[k], 2 if time else 0; a, b = r.randint(o + 1, o + 3), r.randint(o + 1, o + 3); p = "$%d:" % k if nf > 1 or r.random() < .3 else "$"
        if time:
            x = p + "1"; xs = []
            for w in rows:
                s = w[0] + "T" + w[1][:15]; xs.append(datetime.datetime.fromisoformat(s if "." not in s else s + "0" * (26 - len(s))).isoformat())
        else: x = p + str(a); xs = [float(w[a - 1]) for w in rows]
        if r.random() < .5: y, ys = p + str(b), [float(w[b - 1]) for w in rows]
        else: q = r.randint(1, 9); y, ys = "%d*%s%d-%s%d/2+%d" % (q, p, b, p, a, q), [q * float(w[b - 1]) - float(w[a - 1]) / 2 + q for w in rows]
        specs += [x, y]; want.append((xs, ys))
    plot = os.path.join(c.dir, "plot.json"); rc, out, err = run([os.path.join(core.REPO, "script/scatterplot.py"), "-f"] + files + ["-c"] + specs + (["--time"] if time else []), c.dir, env={"VF_PLOT": plot}, py="python3-vt")
    tag = " ".join(specs); c.distinct(tag + str(frac))
    if not c.hang(rc, "scatter plot") or not c.check(rc == 0 and os.path.exists(plot), "plot_drawn", "%s (times with %d decimals): exit status %d: %s" % (tag, frac if time else 0, rc, err[-400:])): return
    got = json.load(open(plot)); c.check(len(got) == nf, "every_file_plotted", "%d files, %d plots" % (nf, len(got)))
    for (n, x, y), (xs, ys) in zip(sorted(got), want):
        c.check(x == xs if time else len(x) == len(xs) and all(abs(p - q) < 1e-9 for p, q in zip(x, xs)), "x_is_the_column", "%s: %s plotted for %s" % (tag, x[:2], xs[:2]))
        c.check(len(y) == len(ys) and all(abs(p - q) <= 1e-9 * (1 + abs(q)) for p, q in zip(y, ys)), "y_is_the_expression", "%s: %s plotted for %s" % (tag, y[:2], ys[:2])); c.event("points plotted", len(x))
    if c.idx % 5 == 0: rc, out, err = run([os.path.join(core.REPO, "script/scatterplot.py"), "-f", os.path.join(c.dir, "none"), "-c", "$1", "$2"], c.dir, env={"VF_PLOT": plot}, py="python3-vt"); c.check(rc != 0, "damage_is_reported", "missing file: exit status 0")


# -------------------------------------------------------- orbit states (SP3)
def sp3(c):
    r = c.r; L, want = ["#cV2021  1  1  0  0  0.00000000      96 ORBIT IGS14 FIT DSO", "## 2138 432000.00000000    60.00000000 59215 0.0000000000000", "+    2   L39L40  0  0", "++         0  0  0", "%c L  cc UTC ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc", "/* Position and velocity of Pxyz"], []
    ids = r.sample(["L39", "L40", "L27", "G01", "R11", "E05", "S20", "L98"], r.randint(1, 4))
    for k in range(r.randint(1, 40)):
        L.append("*  2021  1  1 %2d %2d  0.00000000" % (k // 60, k % 60))
        for s in ids:
            p = [round(r.choice([r.uniform(-42e3, 42e3), r.uniform(-8e3, 8e3), r.uniform(-1, 1)]), 6) for _ in range(3)]; v = [round(r.choice([r.uniform(-8e4, 8e4), r.uniform(-1, 1)]), 6) for _ in range(3)]
            clk = r.choice(["", " 999999.999999", "      0.123456  9  9  9 999"])
            L.append("P%s%14.6f%14.6f%14.6f%s" % (s, *p, clk))
            if r.random() < .1: L.append("EP  55  55  55     222  1234567 -1234567")
            else:
                L.append("V%s%14.6f%14.6f%14.6f%s" % (s, *v, clk)); want.append((p, v))
    L.append("EOF"); fn = os.path.join(c.dir, "o.sp3"); open(fn, "w").write("\n".join(L) + "\n"); rc, out, err = run([os.path.join(core.REPO, "var/cartesian2keplerian/sp3spit.py"), fn], c.dir); c.distinct("\n".join(L))
    if not c.hang(rc, "SP3 conversion") or not c.check(rc == 0, "accepted", err[-300:]): return
    got = [[float(x) for x in l.split()] for l in out.decode().split("\n") if l.strip()]
    if not c.check(len(got) == len(want), "every_record_kept", "%d position and velocity pairs, %d states" % (len(want), len(got))): return
    for g, (p, v) in zip(got, want): c.check(len(g) == 6 and all(abs(a - b * 1e3) < 6e-4 for a, b in zip(g, p)) and all(abs(a - b / 10) < 6e-7 for a, b in zip(g[3:], v)), "state_in_si_units", "%s %s written as %s" % (p, v, g))
    c.event("orbit states compared", len(want))
    if c.idx % 7 == 0: rc, out, err = run([os.path.join(core.REPO, "var/cartesian2keplerian/sp3spit.py"), os.path.join(c.dir, "none")], c.dir); c.check(rc != 0, "damage_is_reported", "missing file: exit status 0")


GROUPS = [("gfc", lambda c: gfc(c, "script/gfc_fortran2c.py"), 100, 3000), ("gfc_icgem", lambda c: gfc(c, "var/icgem/script/gfc_fortran2c.py"), 60, 1500), ("c04", c04, 120, 4000), ("logs", logs, 100, 3000), ("header", header, 40, 600), ("weather", weather, 50, 800), ("sp3", sp3, 40, 800), ("scatter", scatter, 40, 800)]


def run_all(res, tier, seed, only):
    tmp = tempfile.mkdtemp(prefix="vf."); t0 = time.time(); res.deadline = t0 + (6 * 3600 if tier == "thorough" else 780); res.soft = t0 + (2 * 3600 if tier == "thorough" else 240)
    def one(g, f, i):
        if res.stop or res.over(time.time()): return
        c = Case(res, g, i, seed, tier, tmp)
        try: f(c)
        except (ValueError, IndexError, KeyError, TypeError) as e:  # what the script wrote could not be taken apart
            res.viol(g + "/output_unreadable", traceback.format_exc()[-1500:], group=g, idx=i, seed=seed, tier=tier)
        finally: shutil.rmtree(c.dir, ignore_errors=True)
    try:
        with cf.ThreadPoolExecutor(core.JOBS) as pool:
            futs = [pool.submit(one, g, f, i) for g, f, q, t in GROUPS if not only or re.match(only, g) for i in range(t if tier == "thorough" else q)]
            for f in futs: f.result()
        if res.over(time.time()) and not res.fresh(): raise core.HarnessError("the check's deadline passed (inconclusive)")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(j):
    res = core.Result(); tmp = tempfile.mkdtemp(prefix="vf.")
    for g, f, q, t in GROUPS:
        if g == j["group"]: f(Case(res, g, j["idx"], j["seed"], j["tier"], tmp))
    shutil.rmtree(tmp, ignore_errors=True)
    for v in res.violations: print(v["key"], v["detail"])
    return 1 if res.violations else 0
