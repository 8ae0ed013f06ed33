#!/usr/bin/env python3
"""Verify planted changes in scratch copies of /repo: plant.py [--check[=ID,..]] ID...
Applies /verif/seeded/ID/patch.diff to a copy, builds and runs the stable tests there (the copy is mounted over
/repo in a private mount namespace), runs demo.sh with and without the change, and optionally the property's check."""
import json, os, shutil, subprocess, sys, time
SEED = '/verif/seeded'
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
def inns(copy, cmd):
    return sh(['unshare', '-m', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (copy, cmd)])
def main():
    args = sys.argv[1:]
    check = None
    ids = []
    notest = False
    for a in args:
        if a.startswith('--check'): check = a.split('=')[1].split(',') if '=' in a else []
        elif a == '--notest': notest = True
        else: ids.append(a)
    base = '/tmp/seed'
    os.makedirs(base, exist_ok=True)
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    for i in ids:
        d = os.path.join(SEED, i)
        meta = json.load(open(d + '/meta.json'))
        copy = os.path.join(base, i)
        if os.path.exists(copy): shutil.rmtree(copy)
        sh(['cp', '-a', '/repo', copy])
        out = [i, meta['property']]
        r = sh(['git', '-C', copy, 'apply', d + '/patch.diff'])
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stdout); continue
        if not notest:
            j = '/tmp/seed/%s.json' % i
            r = inns(copy, 'bash /opt/vp/build.sh > /tmp/seed/%s.build 2>&1; bash /opt/vp/test.sh %s > /tmp/seed/%s.test 2>&1' % (i, j, i))
            o = json.load(open(j))
            miss = [x for x in stable if x not in o['passed']]
            out.append('tests ok' if not miss else 'TESTS FAIL %s' % miss[:6])
        c = sh(['bash', d + '/demo.sh'], cwd='/repo')
        p = inns(copy, 'bash %s/demo.sh' % d)
        out.append('demo clean=%d patched=%d' % (c.returncode, p.returncode))
        if c.returncode: out.append(c.stdout[-300:])
        print(*out, flush=True)
        if check is not None:
            for k in (check or [meta['property']]):
                t = time.time()
                r = inns(copy, 'python3 /verif/mc/run.py %s' % k)
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                first = [l for l in r.stdout.splitlines() if l.startswith('  ')][:1]
                print('   check', k, 'exit', r.returncode, 'violations', len(v), (first[0] if first else r.stdout[-200:]).strip()[:220], '%.0fs' % (time.time() - t), flush=True)
        shutil.rmtree(copy)
main()
