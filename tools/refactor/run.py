#!/usr/bin/env python3
"""Applies behaviour-preserving edits to a scratch copy of the repository and
lists the checks that are not quiet on it.
usage: refactor/run.py ROUND.py [PROP...]    (SA=path of the analyser)"""
import json, os, re, subprocess, sys, shutil, concurrent.futures as cf
ns = {}
exec(open(sys.argv[1]).read(), ns)
sa = os.environ.get('SA', '/verif/bin/sa')
d = f'/tmp/refac-{os.getpid()}'
shutil.copytree('/repo', d + '/repo', symlinks=True)
try:
    for f, old, new in ns['EDITS']:
        p = f'{d}/repo/{f}'
        t = open(p).read()
        if t.count(old) != 1:
            sys.exit(f'{f}: {t.count(old)} matches of\n{old}')
        open(p, 'w').write(t.replace(old, new))
    for f, pat, rep, n in ns.get('SUBS', []):
        p = f'{d}/repo/{f}'
        t, k = re.subn(pat, rep, open(p).read(), flags=re.M | re.S)
        if k != n: sys.exit(f'{f}: {k} matches of {pat}')
        open(p, 'w').write(t)
    e = dict(os.environ, GOFLAGS='')
    r = subprocess.run('gofmt -l . ; go vet . ./gokio 2>&1 | grep -v "^#" | grep -v "possible formatting\\|self-assign" | head; go build ./... && go test -count=1 ./... 2>&1 | tail -15', shell=True, cwd=d + '/repo', env=e, capture_output=True, text=True)
    print(r.stdout[-3000:], r.stderr[-3000:])
    if subprocess.run('go build ./... && go test -count=1 . >/dev/null', shell=True, cwd=d + '/repo', env=e, capture_output=True).returncode: sys.exit('does not build or fails the tests')
    props = sys.argv[2:] or subprocess.run([sa, '-list'], capture_output=True, text=True).stdout.split()
    def one(p):
        c = subprocess.run([sa, '-prop', p, '-repo', d + '/repo', '-verif', d], capture_output=True, text=True)
        return p, c.returncode, c.stdout + c.stderr
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
        for p, rc, out in ex.map(one, props):
            if rc: print('==', p, rc, out[:2500])
    print('done', len(props))
finally:
    if os.environ.get('KEEP'): print('kept', d)
    else: shutil.rmtree(d)
