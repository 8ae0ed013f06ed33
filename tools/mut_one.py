#!/usr/bin/env python3
"""Run the checks on a mutated copy (MC_REPO), one shard of every unit (or all: --full), stop at the first that notices.
usage: MC_REPO=DIR mut_one.py [--full] SHARDSEED CHECK,CHECK,..."""
import concurrent.futures as cf, os, sys, tempfile, shutil, time, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc'))
import run
from checks import CHECKS
full = '--full' in sys.argv
a = [x for x in sys.argv[1:] if x != '--full']
seed, order = int(a[0]), a[1].split(',')
tmp = tempfile.mkdtemp(prefix='mut-')
stop = threading.Event()
killed = []
def go(c, u, s, knownf):
    if stop.is_set(): return
    r = run.do_unit(u, s, tmp, 'quick', knownf, time.time() + 240)
    why = None
    if 'compile_error' in r: why = 'compile: ' + run.first_error(r['compile_error'])
    elif 'crash' in r: why = 'crash'
    elif 'timeout' in r: why = 'timeout'
    elif r['result']['fails']:
        f = r['result']['fails'][0]; why = '%s %s: %s' % (f['job'], f['inputs'], f['msg'])
    try: os.unlink(r['exe'])
    except OSError: pass
    if why and not stop.is_set():
        killed.append((c, why)); stop.set()
try:
    with cf.ThreadPoolExecutor(8) as ex:
        futs = []
        for c in order:
            knownf = os.path.join(tmp, 'known' + c)
            open(knownf, 'w').write(''.join(k + '\n' for k in run.known_keys(c)))
            spec = CHECKS[c]
            units = spec['units']('quick') if callable(spec['units']) else spec['units']
            for n, u in enumerate(units):
                S = range(u.get('shards', 1))
                u = dict(u, tag=u.get('tag', '') + c)
                for s in (S if full else [(seed + n) % u.get('shards', 1)]):
                    futs.append(ex.submit(go, c, u, s, knownf))
        for f in futs: f.result()
    if not stop.is_set():
        with cf.ThreadPoolExecutor(8) as ex:
            for c in order:
                if 'extra' in CHECKS[c] and not stop.is_set():
                    for e in CHECKS[c]['extra'](dict(ex=ex, tmp=tmp, tier='quick', known=run.known_keys(c), inc=run.INC, cxx=run.CXX, sh=run.sh)):
                        if e.get('violations'): killed.append((c, e['violations'][0]['msg'])); stop.set()
finally:
    shutil.rmtree(tmp, ignore_errors=True)
print('KILLED %s %s' % (killed[0][0], killed[0][1][:200].replace('\n', ' ')) if killed else 'SURVIVED')
