#!/usr/bin/env python3
"""Mutation survey of the checks: small changes of the library, one at a time, each against the checks of its file.

usage: mutate.py OUT.jsonl [-j N] [--every K] [FILE...]
Works in copies under /tmp; /repo is only read. A survivor is a change no check noticed: equivalent, or a gap.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUT_REPO', '/repo')
MAP = {
 'core.c': 'C03 C01 C02 C28 C27', 'descriptor.c': 'C02 C01 C28', 'stream.c': 'C08 C06 C07 C28 C12', 'event.c': 'C04 C16 C28', 'timer.c': 'C05 C28 C15',
 'async.c': 'C16 C17 C28', 'resolver.c': 'C17 C28', 'notify.c': 'C18 C28 C01', 'net.c': 'C19 C28 C07', 'server.c': 'C12 C13 C14 C15 C28', 'http.c': 'C11 C09 C10',
 'utility.c': 'C26', 'string.c': 'C24', 'vector.c': 'C21', 'list.c': 'C22', 'map.c': 'C23', 'maps.c': 'C23', 'mapi.c': 'C23', 'buffer.c': 'C20 C21', 'data.c': 'C30',
 'hash.c': 'C25', 'pointer.c': 'C30', 'picohttpparser.c': 'C09 C10 C29',
}
SUBS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
        (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r'\+\+', '--'), (r'(?<!-)--(?!-)', '++'), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' \*= 2', ' *= 3'),
        (r'\| [A-Z_]{4,}', ''), (r'[A-Z_]{4,} \|', ''), (r'!(?=[a-z(])', ''), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\bbreak;', ';'), (r'\bcontinue;', ';'),
        (r'if \((.*)\)$', 'if (0 && (\\1))'), (r'if \((.*)\)$', 'if (1 || (\\1))'), (r' >> (\d+)', lambda m: ' >> %d' % (int(m.group(1)) + 1)),
        (r'\b(\d{2,6})\b', lambda m: str(int(m.group(1)) + 1)), (r'\b(\d{2,6})\b', lambda m: str(int(m.group(1)) - 1)), (r' & ', ' | '), (r' \| ', ' & '), (r' / ', ' * '), (r' % ', ' / ')]

def mutants(path):
    lines = open(path).read().split('\n')
    depth, seen = 0, set()
    for i, l in enumerate(lines):
        inside = depth > 0
        c = re.sub(r'"(\\.|[^"])*"|\'(\\.|[^\'])*\'|//.*|/\*.*?\*/', lambda m: ' ' * len(m.group(0)), l)
        depth += c.count('{') - c.count('}')
        if not inside or not c.strip() or c.strip().startswith(('#', '*', 'assert')): continue
        for pat, rep in SUBS:
            for m in re.finditer(pat, c):
                new = l[:m.start()] + (m.expand(rep) if isinstance(rep, str) else rep(m)) + l[m.end():]
                if m.re.groups and isinstance(rep, str): new = l[:m.start()] + re.sub(pat, rep, l[m.start():m.end()]) + l[m.end():]
                if new != l and (i, new) not in seen: seen.add((i, new)); yield i, new
        if re.match(r'^\s+[^{}]*;\s*$', l) and not re.match(r'^\s*(return|break|continue|[a-z_ ]+\**\w+(\[.*\])?( = .*)?(, .*)?;$)', l) or re.match(r'^\s+(\(void\) )?\w+\(.*\);\s*$', l) or re.match(r'^\s+\S+ = .*;$', l):
            new = re.sub(r'\S.*', ';', l)
            if (i, new) not in seen: seen.add((i, new)); yield i, new

def obj(src, d, extra=()):
    o = d + '/o.o'
    r = subprocess.run(['gcc', '-std=gnu2x', '-O2', '-w', '-D_GNU_SOURCE', *extra, '-c', '-o', o, src, '-I', os.path.dirname(os.path.dirname(src))], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if r.returncode: return None
    subprocess.run(['strip', '-g', o]); return hashlib.sha1(open(o, 'rb').read()).hexdigest()

def one(job):
    path, i, new, checks = job
    rel = os.path.relpath(path, REPO)
    t = tempfile.mkdtemp(prefix='mut.', dir='/tmp/mut')
    try:
        shutil.copytree(REPO + '/src', t + '/src')
        p = t + '/' + rel
        lines = open(p).read().split('\n'); old = lines[i]; lines[i] = new
        open(p, 'w').write('\n'.join(lines))
        if 'assert' in new and 0: return None
        h = obj(p, t)
        orig = obj(path, t)
        if h is None: return None
        if h == orig and (not rel.endswith('parser.c') or obj(p, t, ['-msse4.2']) == obj(path, t, ['-msse4.2'])): return None
        out = dict(file=rel, line=i + 1, old=old.strip(), new=new.strip())
        t0 = time.time()
        for c in checks:
            try:
                r = subprocess.run(['python3', V + '/check.py', c], env=dict(os.environ, VERIF_REPO=t, VERIF_OUT=t + '/ev'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900, cwd=t)
                rc, txt = r.returncode, r.stdout
            except subprocess.TimeoutExpired: rc, txt = 99, ''
            if rc == 1:
                out.update(caught=c, why=next((l for l in txt.splitlines() if l.startswith(c)), '')[:160]); break
            if rc: out.setdefault('noverdict', []).append('%s rc=%d %s' % (c, rc, txt.strip().splitlines()[-1][:200] if txt.strip() else ''))
        out['s'] = round(time.time() - t0)
        return out
    finally:
        shutil.rmtree(t, ignore_errors=True)

def main():
    a = sys.argv[1:]
    outp = a.pop(0)
    j, every = 3, 1
    if '-j' in a: k = a.index('-j'); j = int(a[k + 1]); del a[k:k + 2]
    if '--every' in a: k = a.index('--every'); every = int(a[k + 1]); del a[k:k + 2]
    jobs = []
    for f in a or sorted(MAP):
        p = REPO + '/src/%s/%s' % ('picohttpparser' if f.startswith('pico') else 'reactor', f)
        jobs += [(p, i, n, MAP[f].split()) for i, n in mutants(p)]
    jobs = jobs[::every]
    print(len(jobs), 'mutants', flush=True)
    if '--count' in sys.argv: return
    n = s = 0
    with ThreadPoolExecutor(j) as ex, open(outp, 'a') as o:
        for r in ex.map(one, jobs):
            if r is None: continue
            n += 1
            if 'caught' not in r: s += 1; print('SURVIVED', json.dumps(r), flush=True)
            o.write(json.dumps(r) + '\n'); o.flush()
    print(n, 'run,', s, 'survived')
main()
