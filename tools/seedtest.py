#!/usr/bin/env python3
"""Runs the analyzer on a scratch copy of /repo with each seeded change applied.
usage: seedtest.py [-all] [id ...]   (-all: every property, not only the seed's own)"""
import glob, json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('-')]
allp = '-all' in sys.argv
subprocess.run([V + '/setup.sh'], check=True)
def one(d):
    i = os.path.basename(d)
    prop = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='st-')
    try:
        subprocess.run(f'git clone -q /repo {w}/r && git -C {w}/r apply {d}/patch.diff', shell=True, check=True)
        r = subprocess.run([V + '/bin/sv', '-repo', w + '/r'] + ([] if allp else ['-prop', prop, '-out', w]), capture_output=True, text=True)
        out = r.stdout.strip()
        if allp:
            res = sorted({l.split()[1][:3] for l in out.splitlines() if l.startswith('violation')})
            res += sorted({l.split()[1][:3] + '?' for l in out.splitlines() if l.startswith('undecided')} - {x + '?' for x in res})
            out = '\n'.join(l for l in out.splitlines() if not l.startswith('ok'))
        else:
            res = [prop] if r.returncode == 1 else [prop + '?'] if r.returncode or 'UNDECIDED' in out else []
        return i, prop, res, out
    finally:
        shutil.rmtree(w)
ds = sorted(os.path.dirname(f) for f in glob.glob(V + '/seeded/*/meta.json'))
ds = [d for d in ds if not args or os.path.basename(d) in args]
with ThreadPoolExecutor(6) as ex:
    for i, prop, res, out in ex.map(one, ds):
        st = 'CAUGHT' if prop in res else 'undecided' if prop + '?' in res else 'MISSED'
        print(f'{st:10} {i:32} {prop}  {" ".join(res)}')
        if '-v' in sys.argv or st != 'CAUGHT': print('      ' + out.replace('\n', '\n      ')[:1500])
