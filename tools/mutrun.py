#!/usr/bin/env python3
"""Runs the checks on simple mutants of the repository (in scratch copies) and
lists those that build, pass the tests and are not caught.
usage: mutrun.py MUTANTS.jsonl OUT.jsonl per_file workers seed [file...]"""
import json, os, random, subprocess, sys, shutil, threading, queue
src, out, per, nw, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
files = set(sys.argv[6:])
P = {'ops.go':'A09 A03 A01 A02 A04 A07 A05 A08', 'cmp.go':'A10', 'bitwise.go':'A06', 'vec.go':'V01 V02 V03 I02 E01 K01 X01 I01 Z01',
 'vec_deque.go':'V03 D01 D02 D03 I02 E01 K01 X01 I01 Z01', 'linked_list.go':'L01 I02 E01 K01 X01 I01 Z01', 'hash_map.go':'M01 I02 E01 K01 X01 I01',
 'hash_set.go':'M02 M01 I02 E01 K01 X01 I01', 'btree_map.go':'I02 E01 X01 B01 B02 T01 K01', 'btree_set.go':'T01 I02 E01 K01 X01 I01',
 'binary_heap.go':'H01', 'panic.go':'P01', 'to_string.go':'C01', 'option.go':'O01 O02 E01 K01 Z01 X01', 'result.go':'R01 E01 K01 X01', 'fs.go':'F01 F02',
 'io.go':'N01 Y02 X02 C02 X01 P01', 'string.go':'C02 X02 E01 K01', 'time.go':'U01', 'syntax.go':'S01', 'pair.go':'E01 K01 Z01 X01', 'float.go':'A11', 'primitive.go':'C01 A07 A06 A08 A01',
 'thread.go':'Y01 U01', 'gokio/fs.go':'G01', 'gokio/gokio.go':'G01', 'utils.go':'H01 X01 V03 K01 E01 P01', 'sync.go':'Y02', 'clone.go':'K01', 'fmt.go':'X02', 'convert.go':'Z01'}
ms = {}
for l in open(src):
    m = json.loads(l)
    if not files or m['File'] in files: ms.setdefault(m['File'], []).append(m)
r = random.Random(seed)
todo = []
for f, l in ms.items():
    todo += l if len(l) <= per else r.sample(l, per)
r.shuffle(todo)
known = set(subprocess.run(['/verif/bin/sa', '-list'], capture_output=True, text=True, errors="replace").stdout.split())
q = queue.Queue()
for m in todo: q.put(m)
lock = threading.Lock()
o = open(out, 'w')
cnt = {}
def work(i):
    d = f'/tmp/mut-{os.getpid()}-{i}'
    shutil.copytree('/repo', d + '/repo', symlinks=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = os.path.join(d, 'repo', m['File'])
        t = open(p, 'rb').read()
        open(p, 'wb').write(t[:m['Start']] + m['New'].encode() + t[m['End']:])
        e = dict(os.environ, GOFLAGS='')
        def sh(c, to=300):
            try: return subprocess.run(c, cwd=d + '/repo', env=e, capture_output=True, text=True, errors="replace", timeout=to)
            except subprocess.TimeoutExpired: return None
        res = 'survived'
        b = sh(['go', 'build', './...'])
        if b is None or b.returncode: res = 'nobuild'
        else:
            for pr in P.get(m['File'], '').split():
                if pr not in known: continue
                c = subprocess.run(['/verif/bin/sa', '-prop', pr, '-repo', d + '/repo', '-verif', d], capture_output=True, text=True, errors="replace")
                if c.returncode == 1:
                    u = 'undecided' if 'violated' not in c.stdout + c.stderr and 'panics' not in c.stdout + c.stderr else ''
                    res = 'caught ' + pr + ' ' + u; break
            if res == 'survived':
                t2 = sh(['go', 'test', '-count=1', '-timeout', '60s', '.'])
                if t2 is None or t2.returncode: res = 'testsfail'
        open(p, 'wb').write(t)
        m['res'] = res
        m['old'] = t[m["Start"]:m["End"]].decode(errors="replace")
        with lock:
            cnt[res.split()[0]] = cnt.get(res.split()[0], 0) + 1
            o.write(json.dumps(m) + '\n'); o.flush()
    shutil.rmtree(d)
ts = [threading.Thread(target=work, args=(i,)) for i in range(nw)]
[t.start() for t in ts]; [t.join() for t in ts]
print(cnt)
