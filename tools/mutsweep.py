#!/usr/bin/env python3
"""Mutation sweep: applies every small change listed by tools/mutate to a scratch copy, runs the analyzer on it.
usage: mutsweep.py OUT.jsonl FILE..."""
import json, os, subprocess, sys, tempfile, shutil, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, files = sys.argv[1], sys.argv[2:]
env = dict(os.environ, GO111MODULE='off', GOFLAGS='')
sv = os.environ.get('SV', '/tmp/sv')
ms = [json.loads(l) for l in subprocess.run(['go', 'run', V + '/tools/mutate/main.go', '/repo'] + files, capture_output=True, text=True, env=env, check=True).stdout.splitlines()]
n = 7
dirs = []
for k in range(n):
    w = tempfile.mkdtemp(prefix='mut-', dir='/tmp'); shutil.copytree('/repo', w + '/r', ignore=shutil.ignore_patterns('.git')); dirs.append(w)
base = {x: open('/repo/' + x, 'rb').read() for x in files}
lock = threading.Lock(); free = list(dirs)
f = open(out, 'w')
def one(m):
    with lock: w = free.pop()
    try:
        p = f'{w}/r/{m["File"]}'; src = base[m['File']]
        open(p, 'wb').write(src[:m['From']] + m['New'].encode() + src[m['To']:])
        try:
            r = subprocess.run([sv, '-repo', w + '/r'], capture_output=True, text=True, timeout=600)
            o = r.stdout
            if o.startswith('load:') or 'package error' in o: st, ob = 'nocompile', []
            else:
                v = [l.split()[1] for l in o.splitlines() if l.startswith('violation')]
                u = [l.split()[1] for l in o.splitlines() if l.startswith('undecided')]
                st = 'violation' if v else 'undecided' if u else 'survived' if r.returncode == 0 else 'crash'
                ob = v or u
        except subprocess.TimeoutExpired: st, ob = 'timeout', []
        open(p, 'wb').write(src)
        m.update(old=src[m['From']:m['To']].decode()[:80], status=st, obs=ob[:6])
        with lock: f.write(json.dumps(m) + '\n'); f.flush()
    finally:
        with lock: free.append(w)
with ThreadPoolExecutor(n) as ex: list(ex.map(one, ms))
for w in dirs: shutil.rmtree(w)
