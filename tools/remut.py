#!/usr/bin/env python3
"""Runs the analyzer again on mutants of an earlier sweep: remut.py IN.jsonl OUT.jsonl STATUS[,STATUS] [FILE...]"""
import json, os, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
src, out, sts, files = sys.argv[1], sys.argv[2], sys.argv[3].split(','), sys.argv[4:]
sv = os.environ.get('SV', '/tmp/sv'); n = int(os.environ.get('N', '6'))
ms = [m for m in map(json.loads, open(src)) if m['status'] in sts and (not files or m['File'] in files)]
dirs = []
for k in range(n):
    w = tempfile.mkdtemp(prefix='mut-', dir='/tmp'); shutil.copytree('/repo', w + '/r', ignore=shutil.ignore_patterns('.git')); dirs.append(w)
lock = threading.Lock(); free = list(dirs); f = open(out, 'w')
def one(m):
    with lock: w = free.pop()
    try:
        p = f'{w}/r/{m["File"]}'; s = open('/repo/' + m['File'], 'rb').read()
        open(p, 'wb').write(s[:m['From']] + m['New'].encode() + s[m['To']:])
        try:
            r = subprocess.run([sv, '-repo', w + '/r'], capture_output=True, text=True, timeout=600); o = r.stdout
            v = [l.split()[1] for l in o.splitlines() if l.startswith('violation')]
            u = [l.split()[1] for l in o.splitlines() if l.startswith('undecided')]
            st = 'nocompile' if o.startswith('load:') or 'package error' in o else 'violation' if v else 'undecided' if u else 'survived' if r.returncode == 0 else 'crash'
        except subprocess.TimeoutExpired: st, v, u = 'timeout', [], []
        open(p, 'wb').write(s)
        m.update(was=m['status'], status=st, obs=(v or u)[:6])
        with lock: f.write(json.dumps(m) + '\n'); f.flush()
    finally:
        with lock: free.append(w)
with ThreadPoolExecutor(n) as ex: list(ex.map(one, ms))
for w in dirs: shutil.rmtree(w)
