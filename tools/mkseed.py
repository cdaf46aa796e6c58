#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds/*.py and confirms each one in a scratch copy.

usage: mkseed.py [id ...]        (default: every seed that has no folder yet)
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
T = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(T), 'seeded')
def load():
    seeds = []
    for f in sorted(glob.glob(T + '/seeds/*.py')):
        sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        seeds += m.SEEDS
    return seeds
def sh(cmd, cwd='/repo', **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)
def build(s):
    d = os.path.join(OUT, s['id'])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix='seed-')
    try:
        sh(f'git clone -q /repo {w}/r')
        for f, old, new in s['edits']:
            p = f'{w}/r/{f}'; t = open(p).read()
            if t.count(old) != 1: return f'edit of {f}: {t.count(old)} matches for {old!r}'
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', cwd=f'{w}/r').stdout
        if not diff: return 'empty diff'
        if sh('gofmt -l .', cwd=f'{w}/r').stdout.strip() and not s.get('nofmt'):
            print('   note: not gofmt clean:', sh('gofmt -l .', cwd=f'{w}/r').stdout.split())
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        shutil.rmtree(w)
    shutil.copytree(T + '/stubs', d + '/stubs')
    t = open(T + '/demo.sh.tmpl').read().replace('DIR', s.get('dir', '.'))
    open(d + '/demo.sh', 'w').write(t); os.chmod(d + '/demo.sh', 0o755)
    pk = 'main' if s.get('dir', '.') != '.' else 'suriya'
    open(d + '/demo_test.go', 'w').write('package %s\n\n%s' % (pk, s['demo'].strip('\n') + '\n'))
    r = sh(f'gofmt -l -w {d}/demo_test.go')
    if r.returncode: return 'demo: ' + r.stderr
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'), indent=1, ensure_ascii=False)
    # confirm
    r = sh('bash /opt/vp/build.sh >/dev/null 2>&1; bash ' + d + '/demo.sh')
    if r.returncode: return 'demo fails on the unchanged tree: ' + r.stdout[-1500:] + r.stderr[-800:]
    a = sh(f'git apply {d}/patch.diff')
    if a.returncode: return 'patch: ' + a.stderr
    try:
        b = sh('bash /opt/vp/build.sh')
        if b.returncode: return 'build: ' + b.stderr + b.stdout
        t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        res = open('/tmp/seedtest.json').read()
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        js = json.loads(res)
        ok = js.get('passed', js.get('pass', []))
        miss = [x for x in base if x not in ok]
        if miss: return f'tests fail: {miss} {res[:300]}'
        r = sh('bash ' + d + '/demo.sh')
        if r.returncode == 0: return 'demo passes with the patch'
        print('   demo:', [l.strip() for l in r.stdout.splitlines() if 'demo' in l.lower() or 'panic' in l][:2])
    finally:
        sh('git checkout -- .')
    return None
os.environ['DEMO_GOCACHE'] = '/tmp/demo-gocache'
def main():
    ids = sys.argv[1:]
    for s in load():
        if ids and s['id'] not in ids: continue
        if not ids and os.path.exists(os.path.join(OUT, s['id'], 'meta.json')): continue
        e = build(s)
        if e: shutil.rmtree(os.path.join(OUT, s['id']), ignore_errors=True)
        print(s['id'], 'BAD: ' + e if e else 'ok', flush=True)
main()
