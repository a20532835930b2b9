#!/usr/bin/env python3
"""Makes and confirms planted bugs. Usage: mkseed.py SPEC.py [id...]
SPEC.py defines seeds = [dict(id=, prop=, needs=, breaks=, edits=[(file, old, new)], demo=go test source)]."""
import re, sys, os, subprocess, json, shutil, tempfile
sys.path.insert(0, '.')
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
OUT = '/verif/seeded'
def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
DEMO = '''#!/bin/bash
# exit 0: the property holds for this case; nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<E
{"Replace": {"$PWD/PKGDIRzz_demo_test.go": "$here/demo_test.go"}}
E
GOFLAGS= timeout 200 go test -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run 'TestSeedDemo' ./PKGDIR
'''
for s in ns['seeds']:
    if only and s['id'] not in only: continue
    d = tempfile.mkdtemp(prefix='seed-')
    try:
        r = os.path.join(d, 'repo')
        shutil.copytree('/repo', r, symlinks=True)
        ok = True
        for f, old, new in s['edits']:
            p = os.path.join(r, f)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                print(s['id'], 'edit matches', n, 'times in', f, repr(old[:60])); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if not ok: continue
        diff = sh(['git', 'diff'], cwd=r).stdout
        b = sh('GOFLAGS= go build ./... && GOFLAGS= go vet . >/dev/null 2>&1; GOFLAGS= go build ./... ', cwd=r)
        if b.returncode: print(s['id'], 'does not build', b.stdout[-800:]); continue
        t = sh('GOFLAGS= timeout 300 go test -count=1 ./...', cwd=r)
        if t.returncode: print(s['id'], 'tests fail', t.stdout[-800:]); continue
        od = os.path.join(OUT, s['id'])
        os.makedirs(od, exist_ok=True)
        open(os.path.join(od, 'patch.diff'), 'w').write(diff)
        demo = s['demo']
        pkg = s.get('pkg', 'gost_test')
        if not demo.lstrip().startswith('package'):
            imps = [i for i in ['testing', 'os', 'errors', 'fmt', 'math', 'strings', 'time', 'sync', 'path/filepath', 'sort', 'runtime', 'bufio', 'io'] if re.search(r'(?<![\w.])' + i.split('/')[-1] + r'\.', demo)]
            imps += [i for i in s.get('imports', []) if i not in imps]
            demo = 'package %s\n\nimport (\n%s%s)\n\n%s' % (pkg, ''.join('\t"%s"\n' % i for i in imps), '\t. "github.com/myyrakle/gost"\n' if pkg == 'gost_test' else ('\t"github.com/myyrakle/gost"\n' if 'gost.' in demo else ''), demo)
        open(os.path.join(od, 'demo_test.go'), 'w').write(demo)
        pd = s.get('dir', '')
        open(os.path.join(od, 'demo.sh'), 'w').write(DEMO.replace('PKGDIR', pd))
        os.chmod(os.path.join(od, 'demo.sh'), 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(od, 'meta.json'), 'w'), indent=1)
        a = sh(['bash', os.path.join(od, 'demo.sh')], cwd='/repo')
        c = sh(['bash', os.path.join(od, 'demo.sh')], cwd=r)
        if a.returncode != 0 or c.returncode == 0 or 'build failed' in c.stdout or 'setup failed' in c.stdout:
            print(s['id'], 'DEMO WRONG: unchanged', a.returncode, a.stdout[-600:], 'patched', c.returncode, c.stdout[-600:])
            shutil.rmtree(od); continue
        print(s['id'], 'ok')
    finally:
        shutil.rmtree(d)
