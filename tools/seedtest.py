#!/usr/bin/env python3
"""Test planted bugs in a scratch copy: seedtest.py ID... (or all).  For each: the demo passes on the clean tree, the
patch applies and touches original lines, the build and the stable tests pass, the demo fails, and the check reports it."""
import json, os, re, shutil, subprocess, sys, tempfile
V = '/verif'
BASE = '82743b4'
TESTS = ['ode-example', 'flags', 'compound_measurement']


def sh(cmd, cwd, t=900, env=None):
    e = dict(os.environ, **(env or {}))
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def make(repo):
    return sh('make -f /opt/vp/Makefile.doris -j8 all', repo)


def demo(sid, repo, tmp):
    d = os.path.join(tmp, 'demo')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(f'{V}/seeded/{sid}', d, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    return sh(f'bash {d}/demo.sh', repo, 300)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    nocheck = '--nocheck' in sys.argv
    seeds = next((a.split('=')[1] for a in sys.argv if a.startswith('--seeds=')), '1').split(',')
    ids = args or sorted(os.listdir(f'{V}/seeded'))
    tmp = tempfile.mkdtemp(prefix='seed_')
    repo = tmp + '/repo'
    shutil.copytree('/repo', repo, symlinks=True)
    make(repo)
    try:
        for sid in ids:
            meta = json.load(open(f'{V}/seeded/{sid}/meta.json'))
            patch = f'{V}/seeded/{sid}/patch.diff'
            out = []
            rc, o = demo(sid, repo, tmp)
            out.append(f'clean-demo={rc}')
            if rc != 0:
                print(o[-1500:])
            rc, o = sh(f'git apply {patch}', repo)
            if rc:
                print(sid, 'PATCH DOES NOT APPLY', o)
                continue
            # every removed line must be an original one
            d = open(patch).read()
            bad = []
            f = None
            for l in d.splitlines():
                if l.startswith('--- a/'):
                    f = l[6:]
                m = re.match(r'@@ -(\d+)', l)
                if m:
                    n = int(m.group(1)) - 1
                elif l.startswith('-') and not l.startswith('---'):
                    n += 1
                    r, b = sh(f'git blame -l -s -L{n},{n} HEAD -- {f}', repo)
                    if not b.startswith('^') and sh(f'git merge-base --is-ancestor {b.split()[0].lstrip("^")} {BASE}', repo)[0] != 0:
                        bad.append(l)
                elif l.startswith(' '):
                    n += 1
            if bad:
                out.append('NOT-ORIGINAL: ' + ' | '.join(bad))
            rc, o = make(repo)
            out.append(f'build={rc}')
            t = [sh(f'timeout 120 _build/bin/{b}', repo)[0] for b in TESTS]
            out.append('tests=' + ''.join('P' if x == 0 else 'F' for x in t))
            rc, o = demo(sid, repo, tmp)
            out.append(f'patched-demo={rc}')
            if '-v' in sys.argv or rc == 0:
                print(o[-800:])
            if not nocheck:
                for s in seeds:
                    rc, o = sh(f'VERIF_SEED={s} VERIF_TIER=quick python3 run.py {meta["property"]}', V, 900, {'VERIF_REPO': repo})
                    v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
                    keys = sorted(set(re.findall(r'/replays/([^ ]*)', '\n'.join(v))))
                    out.append(f'check[{s}]={rc} ({len(v)}: {" ".join(keys)[:150]})')
            sh('git checkout -- . && git clean -fdq', repo)
            make(repo)
            print(sid, meta['property'], ' '.join(out), flush=True)
    finally:
        shutil.rmtree(tmp)


main()
