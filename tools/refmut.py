#!/usr/bin/env python3
"""Changes inside behaviour-preserving edits: applies an edit of tools/refactors, then a random small change in the lines it rewrote.
usage: refmut.py OUT.jsonl COUNT [SEED]"""
import difflib, glob, importlib.util, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, count = sys.argv[1], int(sys.argv[2]); random.seed(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
sv = os.environ.get('SV', '/tmp/sv')
env = dict(os.environ, GO111MODULE='off', GOFLAGS='')
subprocess.run(['go', 'build', '-o', '/tmp/mutate', V + '/tools/mutate/main.go'], env=env, check=True)
R = []
for f in sorted(glob.glob(V + '/tools/refactors/*.py')):
    sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); R += m.R
jobs = []
for x in random.sample(R, min(len(R), count)):
    jobs.append((x, random.random()))
def one(j):
    x, rnd = j
    w = tempfile.mkdtemp(prefix='rm-')
    try:
        subprocess.run(f'mkdir {w}/r && git -C /repo archive HEAD | tar -x -C {w}/r', shell=True, check=True)
        for f, old, new in x['edits']:
            p = f'{w}/r/{f}'; t = open(p).read(); open(p, 'w').write(t.replace(old, new, 1))
        files = sorted({f for f, _, _ in x['edits']}); ms = []
        for f in files:
            a, b = open('/repo/' + f).read().splitlines(True), open(f'{w}/r/{f}').read().splitlines(True)
            off = [0]
            for l in b: off.append(off[-1] + len(l.encode()))
            spans = [(off[j1], off[j2]) for t, _, _, j1, j2 in difflib.SequenceMatcher(None, a, b, False).get_opcodes() if t != 'equal']
            g = subprocess.run(['/tmp/mutate', w + '/r', f], capture_output=True, text=True, env=env)
            for l in g.stdout.splitlines():
                m = json.loads(l)
                if any(s <= m['From'] and m['To'] <= e for s, e in spans): ms.append(m)
        if not ms: return dict(ref=x['id'], status='none')
        m = ms[int(rnd * len(ms))]
        p = f'{w}/r/{m["File"]}'; src = open(p, 'rb').read()
        open(p, 'wb').write(src[:m['From']] + m['New'].encode() + src[m['To']:])
        line = src[:m['From']].count(b'\n'); ctx = src.splitlines()[line].decode().strip()
        try:
            r = subprocess.run([sv, '-repo', w + '/r'], capture_output=True, text=True, timeout=500); o = r.stdout
            if o.startswith('load:') or 'package error' in o: st, ob = 'nocompile', []
            else:
                v = [l.split()[1] for l in o.splitlines() if l.startswith('violation')]; u = [l.split()[1] for l in o.splitlines() if l.startswith('undecided')]
                st = 'violation' if v else 'undecided' if u else 'survived' if r.returncode == 0 else 'crash'; ob = v or u
        except subprocess.TimeoutExpired: st, ob = 'timeout', []
        return dict(ref=x['id'], status=st, line=ctx, old=src[m['From']:m['To']].decode()[:60], new=m['New'][:60], obs=ob[:6])
    finally: shutil.rmtree(w)
with open(out, 'w') as f, ThreadPoolExecutor(5) as ex:
    for r in ex.map(one, jobs):
        f.write(json.dumps(r, ensure_ascii=False) + '\n'); f.flush()
