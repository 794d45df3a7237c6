#!/usr/bin/env python3
"""Validate the planted changes of /verif/seeded, and run the check of their property against each.

usage: seed.py [--nocheck] [--notests] [--all-checks] [ID...]
Works in a copy of /repo under /tmp that is removed afterwards.
"""
import json, os, subprocess, sys, shutil, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build_and_test(tree, tests):
    # /opt/vp scripts build /repo itself; the copy is built the same way with its own Makefile
    r = sh('bash /opt/vp/build.sh' if tree == R else 'true', cwd=tree)
    return r

def original_only(tree, patch):
    """every line the patch removes is a line of the base commit"""
    base = sh('git rev-list --max-parents=0 HEAD', cwd=R).stdout.split()[-1]
    basen = sh('git rev-parse 4668bab', cwd=R).stdout.strip() or base
    bad = []
    files, cur, ln = {}, None, 0
    for l in open(patch):
        if l.startswith('--- a/'): cur = l[6:].strip()
        elif l.startswith('@@'): ln = int(l.split()[1].split(',')[0][1:])
        elif l.startswith('-') and cur: files.setdefault(cur, []).append(ln); ln += 1
        elif l.startswith(' '): ln += 1
    n = 0
    for f, lines in files.items():
        for x in lines:
            n += 1
            b = sh('git blame -l -L %d,%d HEAD -- %s' % (x, x, f), cwd=R).stdout
            if not b.lstrip('^').startswith(basen[:30]):
                bad.append((f, x))
    return n, bad

def main():
    args = sys.argv[1:]
    opts = {a for a in args if a.startswith('--')}
    ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
    rc = 0
    for i in ids:
        d = os.path.join(V, 'seeded', i)
        meta = json.load(open(d + '/meta.json'))
        out = {}
        n, bad = original_only(R, d + '/patch.diff')
        out['orig'] = 'ok' if n and not bad else 'BAD %d %s' % (n, bad)
        tree = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
        demo = tempfile.mkdtemp(prefix='seedd.', dir='/tmp')
        try:
            sh('cp -a /repo/. %s/' % tree)
            for f in os.listdir(d):
                if f not in ('patch.diff', 'meta.json'):
                    shutil.copy2(os.path.join(d, f), demo)
            r = sh('bash %s/demo.sh' % demo, cwd=tree, timeout=300)
            out['demo0'] = 'ok' if r.returncode == 0 else 'FAIL ' + r.stdout[-300:]
            r = sh('git apply %s/patch.diff' % d, cwd=tree)
            if r.returncode: out['apply'] = r.stdout
            r = sh('bash %s/demo.sh' % demo, cwd=tree, timeout=300)
            out['demo1'] = 'ok(%d)' % r.returncode if r.returncode else 'PASSES'
            out['msg'] = r.stdout.strip().splitlines()[-1:] 
            if '--notests' not in opts:
                # run the real tests against /repo with the patch applied
                sh('git apply %s/patch.diff' % d, cwd=R)
                try:
                    b = sh('bash /opt/vp/build.sh', cwd=R)
                    t = sh('bash /opt/vp/test.sh /tmp/seedwork/t.json', cwd=R, timeout=600)
                    res = json.load(open('/tmp/seedwork/t.json'))
                    base = json.load(open('/opt/vp/BASELINE.json'))
                    out['tests'] = summary(res, base)
                finally:
                    sh('git checkout -- .', cwd=R)
            if '--nocheck' not in opts:
                checks = [meta['property']]
                t0 = time.time()
                r = sh('python3 %s/check.py %s' % (V, meta['property']), cwd=V, env=dict(os.environ, VERIF_REPO=tree, VERIF_OUT=tree + '/.out'), timeout=1200)
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                out['check'] = ('CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode) + ' %.0fs' % (time.time() - t0)
                out['why'] = [l for l in r.stdout.splitlines() if 'key=' in l and not l.startswith('KNOWN')][:2]
        finally:
            shutil.rmtree(tree); shutil.rmtree(demo)
        print(i, json.dumps(out), flush=True)
    if '--notests' not in opts:
        sh('bash /opt/vp/build.sh', cwd=R)
    return rc

def summary(res, base):
    def passed(x):
        if isinstance(x, dict):
            for k in ('passed', 'pass'):
                if k in x: return set(x[k])
        return set()
    p, b = passed(res), None
    for k in ('stable', 'passed', 'pass', 'tests'):
        if k in base: b = set(base[k]); break
    return 'ok' if b and b <= p else 'FAILED %s' % sorted((b or set()) - p)

sys.exit(main())
