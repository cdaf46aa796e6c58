#!/usr/bin/env python3
"""Runs the analyzer on a scratch copy of /repo with each behaviour-preserving edit applied.
usage: reftest.py [-v] [id ...]; with DIR=bugs, of the planted changes in tools/bugs"""
import glob, importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
T = os.path.dirname(os.path.abspath(__file__))
sv = os.environ.get('SV', '/tmp/sv')
R = []
for f in sorted(glob.glob(T + '/' + os.environ.get('DIR', 'refactors') + '/*.py')):
    sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); R += m.R
bugs = os.environ.get('DIR') == 'bugs'
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
R = [x for x in R if not ids or any(x['id'] == i or x['id'].startswith(i) and i.endswith('-') for i in ids)]
def one(x):
    w = tempfile.mkdtemp(prefix='ref-')
    try:
        subprocess.run(f'mkdir {w}/r && git -C /repo archive HEAD | tar -x -C {w}/r', shell=True, check=True)
        for f, old, new in x['edits']:
            p = f'{w}/r/{f}'; t = open(p).read()
            n = t.count(old)
            if n < 1: return x['id'], 'BADEDIT', [f'{n} matches of {old[:60]!r}'], ''
            open(p, 'w').write(t.replace(old, new, 1))
        g = subprocess.run(['gofmt', '-l', '-e'] + list({f'{w}/r/{f}' for f, _, _ in x['edits']}), capture_output=True, text=True)
        if g.returncode: return x['id'], 'SYNTAX', [], g.stderr
        try: r = subprocess.run([sv, '-repo', w + '/r'], capture_output=True, text=True, timeout=400)
        except subprocess.TimeoutExpired: return x['id'], 'TIMEOUT', [], ''
        o = r.stdout
        if o.startswith('load:') or 'package error' in o: return x['id'], 'NOCOMPILE', [], o[:600]
        v = [l.split()[1] for l in o.splitlines() if l.startswith('violation')]
        u = [l.split()[1] for l in o.splitlines() if l.startswith('undecided')]
        own = [o for o in v if o.startswith(x.get('prop', 'C') )]
        st = 'ALARM' if own else 'OTHER' if v else 'undecided' if u else 'ok' if r.returncode == 0 else 'CRASH'
        return x['id'], st, (v and ['V:'] + v) + (u and ['U:'] + u), '\n'.join(l for l in o.splitlines() if not l.startswith('ok'))
    finally: shutil.rmtree(w)
with ThreadPoolExecutor(4) as ex:
    cnt = {}
    for i, st, obs, o in ex.map(one, R):
        cnt[st] = cnt.get(st, 0) + 1
        if st != ('ALARM' if bugs else 'ok') or ids: print(f'{st:10} {i:24} {" ".join(obs[:8])}', flush=True)
        if o and ('-v' in sys.argv or st in ('NOCOMPILE', 'SYNTAX', 'CRASH')): print('      ' + o[:3000].replace('\n', '\n      '))
    print(cnt)
