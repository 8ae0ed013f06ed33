#!/usr/bin/env python3
"""Builds a check's harness from /repo's current working tree, explores its whole space, reports.

usage: run.py ID [--tier quick|thorough]      decide one property
       run.py --replay FILE                   rebuild and re-run one recorded violation
       run.py --selftest                      check that the tools needed are there
Exit 0: held on everything explored. Exit 1: VIOLATION line(s). Anything else: the check itself failed.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('MC_REPO', '/repo')
INC = os.path.join(REPO, 'include')
CXX = 'g++'
JOBS = int(os.environ.get('MC_JOBS', str(os.cpu_count() or 8)))
COMMON = ['-w', '-ftemplate-depth=2000', '-fconstexpr-ops-limit=2000000000', '-fconstexpr-loop-limit=10000000',
          '-DNDEBUG_UNUSED', '-I' + INC, '-I' + HERE]
UBFLAGS = ['-DMC_UB', '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bool,enum,bounds,unreachable,return']
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402


class CheckError(Exception):
    pass


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, **kw)


def known_keys(prop):
    """known_findings.txt: 'KNOWN property=<id> key=<key> :: <what fails>' and 'fixed: ...' lines (which suppress nothing)."""
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'KNOWN property=(\S+) key=(.*?) :: (.*)$', line.rstrip('\n'))
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def compile_cmd(unit, shard, out):
    cmd = [unit.get('cxx', CXX), '-std=' + unit.get('std', 'c++17')]
    cmd += unit.get('flags', ['-O1']) + ['-DSHARD=%d' % shard, '-DNSHARDS=%d' % unit.get('shards', 1)]
    cmd += [f for f in COMMON if not (f.startswith('-fconstexpr') and unit.get('cxx'))] + (['-fconstexpr-steps=2000000000', '-fbracket-depth=4000'] if unit.get('cxx') else [])
    src = os.path.join(HERE, unit['src'])
    if unit.get('ub'):  # sanitize at compile time only; the handlers are ours
        return [cmd + UBFLAGS + ['-c', src, '-o', out + '.o'], [CXX, out + '.o', '-o', out]]
    return [cmd + [src, '-o', out]]


def build(unit, shard, out):
    log = ''
    for cmd in compile_cmd(unit, shard, out):
        r = sh(cmd, timeout=840)
        log += r.stderr
        if r.returncode:
            return False, ' '.join(cmd) + '\n' + log
    return True, log


def toolchain_ok(tmp):
    src = os.path.join(tmp, 'sane.cpp')
    open(src, 'w').write('#include <string>\n#include <boost/integer.hpp>\n#include <boost/mp11.hpp>\n#include <boost/logic/tribool.hpp>\nint main(){return 0;}\n')
    r = sh([CXX, '-std=c++17', src, '-o', src + '.out'], timeout=120)
    return r.returncode == 0


def run_bin(exe, args, timeout):
    try:
        return sh([exe] + args, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


def do_unit(unit, shard, tmp, tier, knownf, deadline):
    name = unit['src'].replace('.cpp', '') + ('-ub' if unit.get('ub') else '') + unit.get('tag', '') + '-%d' % shard
    exe = os.path.join(tmp, name)
    t0 = time.time()
    ok, log = build(unit, shard, exe)
    t1 = time.time()
    res = dict(unit=unit, shard=shard, name=name, exe=exe, compile_s=t1 - t0)
    if not ok:
        res['compile_error'] = log
        return res
    out = exe + '.json'
    args = ['--tier', tier, '--out', out, '--known', knownf] + unit.get('args', [])
    for attempt in (0, 1):
        r = run_bin(exe, args, max(30, deadline - time.time()))
        if r is not None and r.returncode == 0 and os.path.exists(out):
            break
    res['run_s'] = time.time() - t1
    if r is None:
        res['timeout'] = True
    elif r.returncode or not os.path.exists(out):
        res['crash'] = 'exit %s\n%s\n%s' % (r.returncode, r.stdout[-2000:], r.stderr[-2000:])
    else:
        if 'MC-INTERNAL' in r.stderr:
            res['internal'] = r.stderr[:1000]
        res['result'] = json.load(open(out))
    return res


def save_replay(prop, n, d):
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    p = os.path.join(ROOT, 'replays', '%s-%d.json' % (prop, n))
    json.dump(d, open(p, 'w'), indent=1)
    return p


def first_error(log):
    for l in log.splitlines():
        if 'error:' in l:
            return l[:400]
    return log[-400:]


def decide(prop, tier):
    spec = CHECKS[prop]
    t0 = time.time()
    known = known_keys(prop)
    tmp = tempfile.mkdtemp(prefix='mc-%s-' % prop, dir=os.environ.get('MC_TMP'))
    try:
        knownf = os.path.join(tmp, 'known')
        open(knownf, 'w').write(''.join(k + '\n' for k in known))
        units = spec['units'](tier) if callable(spec['units']) else spec['units']
        deadline = t0 + (840 if tier == 'quick' else 4 * 3600)
        tasks = [(u, s) for u in units for s in range(u.get('shards', 1))]
        tasks.sort(key=lambda x: -x[0].get('weight', 1))
        results = []
        extra = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(do_unit, u, s, tmp, tier, knownf, deadline) for u, s in tasks]
            if 'extra' in spec:   # checks with a part of their own (compiled programs)
                extra = spec['extra'](dict(ex=ex, tmp=tmp, tier=tier, known=known, inc=INC, cxx=CXX, sh=sh))
            for f in futs:
                results.append(f.result())
        if os.environ.get('MC_TIMES'):
            agg = {}
            for r in results:
                k = r['name'].rsplit('-', 1)[0]
                a = agg.setdefault(k, [0, 0, 0]); a[0] += r.get('compile_s', 0); a[1] += r.get('run_s', 0); a[2] += 1
            for k, a in agg.items():
                print('time %-16s compile %.0f run %.0f shards %d' % (k, *a))
        viol, known_hit = [], set()
        tot = dict(jobs=0, evals=0, steps=0, states=0, nfail=0, nknown=0)
        outcomes, samples = {}, []
        for r in results:
            if 'compile_error' in r:
                if not toolchain_ok(tmp):
                    raise CheckError('toolchain is broken:\n' + r['compile_error'][-2000:])
                viol.append((dict(kind='compile', unit=r['unit'], shard=r['shard'], log=r['compile_error'][-6000:]),
                             'programs of the explored space no longer compile: ' + first_error(r['compile_error'])))
                continue
            if 'crash' in r:
                viol.append((dict(kind='crash', unit=r['unit'], shard=r['shard'], log=r['crash']), 'the program died: ' + r['crash'][:300]))
                continue
            if 'timeout' in r:
                raise CheckError('%s did not finish in time' % r['name'])
            if 'internal' in r:
                raise CheckError('harness defect: ' + r['internal'])
            d = r['result']
            for k in tot:
                tot[k] += d[k]
            for k, v in d['outcomes'].items():
                outcomes[k] = outcomes.get(k, 0) + v
            samples += d['samples'][:1]
            known_hit |= set(d['known_hit'])
            seen = set()
            for f in d['fails']:
                if f['job'] in seen or len(viol) > 40:
                    continue
                seen.add(f['job'])
                rr = run_bin(r['exe'], ['--replay', f['job'], f['inputs']], 120)
                if rr is None or rr.returncode != 1:
                    raise CheckError('a failure did not reproduce in a fresh process: %s\n%s' % (f, rr and rr.stdout))
                viol.append((dict(kind='case', unit=r['unit'], shard=r['shard'], job=f['job'], inputs=f['inputs'], msg=f['msg'], key=f['key']),
                             '%s inputs=%s: %s' % (f['job'], f['inputs'], f['msg'])))
        for e in extra:
            tot['jobs'] += e.get('jobs', 0); tot['evals'] += e.get('evals', 0); tot['states'] += e.get('states', e.get('evals', 0)); tot['steps'] += e.get('steps', e.get('evals', 0))
            for k, v in e.get('outcomes', {}).items():
                outcomes[k] = outcomes.get(k, 0) + v
            samples += e.get('samples', [])[:3]
            known_hit |= set(e.get('known_hit', []))
            for v in e.get('violations', []):
                viol.append((dict(kind='program', **v), v['msg']))
        if not viol and tot['nfail']:
            raise CheckError('failures counted but none recorded')
        if not viol and len(outcomes) < spec.get('min_outcomes', 2):
            raise CheckError('vacuous exploration: outcomes %s' % outcomes)
        ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking',
                  coverage=dict(states=tot['states'], transitions=tot['steps'], traces_validated_against_impl=tot['jobs'],
                                samples=samples[:8], outcomes=outcomes, exhaustive=True,
                                space=spec['space'],
                                note='states: distinct (program, operand tuple / machine state) pairs; transitions: library operations executed; '
                                     'traces: programs (template instantiations) of the real library whose whole bounded space was enumerated against the model',
                                compile_s=round(sum(r.get('compile_s', 0) for r in results), 1), run_s=round(sum(r.get('run_s', 0) for r in results), 1)),
                  assumptions=spec.get('assumptions', ['x86-64, gcc 13: two\'s complement, 8/16/32/64-bit types', 'values outside the stated alphabets of types wider than the exhaustive widths are not explored']),
                  wall_s=round(time.time() - t0, 2), violations=len(viol))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
        for k in known:
            if k in known_hit:
                print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
            elif tier == 'thorough' or True:
                print('note: listed finding not seen in this run: %s' % k)
        print('%s %s: %d programs, %d states, %d transitions, outcomes %s, %.1f s' % (prop, tier, tot['jobs'], tot['states'], tot['steps'],
              json.dumps(outcomes, sort_keys=True), time.time() - t0))
        if viol:
            for n, (d, msg) in enumerate(viol[:10]):
                d['property'] = prop
                p = save_replay(prop, n, d)
                print('  ' + msg)
                print('VIOLATION property=%s replay=%s' % (prop, p))
            if len(viol) > 10:
                print('  ... and %d more' % (len(viol) - 10))
            return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix='mc-replay-')
    try:
        if d['kind'] == 'program':
            print(json.dumps(d, indent=1))
            if d.get('two_units'):
                import header_programs
                return header_programs.replay_two(d, tmp, sh, INC)
            src = os.path.join(tmp, 'p.cpp')
            open(src, 'w').write(d['source'])
            r = sh([d.get('cxx', CXX), *d.get('flags', ['-std=c++14']), '-w', '-fsyntax-only', '-I' + INC, src])
            print('compiles' if r.returncode == 0 else 'does not compile:\n' + r.stderr[:3000])
            return 1 if (r.returncode == 0) != d['should_compile'] else 0
        exe = os.path.join(tmp, 'x')
        ok, log = build(d['unit'], d['shard'], exe)
        if not ok:
            print(log)
            return 1
        if d['kind'] == 'case':
            r = sh([exe, '--replay', d['job'], d['inputs']])
        else:
            r = sh([exe, '--tier', 'quick'])
        print(r.stdout[-5000:], r.stderr[-2000:])
        return 1 if r.returncode else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        return replay(a[1])
    if a and a[0] == '--selftest':
        r = sh([CXX, '--version'])
        print(r.stdout.splitlines()[0])
        tmp = tempfile.mkdtemp(prefix='mc-self-')
        ok = toolchain_ok(tmp)
        shutil.rmtree(tmp)
        print('toolchain', 'ok' if ok else 'BROKEN')
        return 0 if ok else 2
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    try:
        return decide(prop, tier)
    except (CheckError, subprocess.TimeoutExpired) as e:
        print('CHECK ERROR: %s' % str(e)[:2000])
        return 3


if __name__ == '__main__':
    sys.exit(main())
