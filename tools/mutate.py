#!/usr/bin/env python3
"""Enumerate one-token mutants of the library's headers.  mutate.py list | mutate.py run START STEP COUNT LOG"""
import os, re, subprocess, sys, shutil, time
INC = '/repo/include/boost/safe_numerics'
SKIP = {'checked_float.hpp', 'safe_common.hpp', 'numeric.hpp', 'integer.hpp'}
RULES = [(r'(?<![<>=!\-])<=(?!=)', '<'), (r'(?<![<>=!\-])>=(?!=)', '>'), (r' < (?=[a-zA-Z0-9(])', ' <= '), (r' > (?=[a-zA-Z0-9(])', ' >= '), (r'==', '!='), (r'!=', '=='),
    (r'&&', '||'), (r'\|\|', '&&'), (r' \+ ', ' - '), (r' - ', ' + '), (r'\bmax\(\)', 'min()'), (r'\bmin\(\)', 'max()'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r'\btrue_type\b', 'false_type'), (r'\bfalse_type\b', 'true_type'), (r'\.l\b', '.u'), (r'\.u\b', '.l'), (r'!(?=[a-zA-Z(])', ''), (r'\bis_signed\b', 'is_unsigned'), (r'\bis_unsigned\b', 'is_signed'),
    (r'\bintmax_t\b', 'uintmax_t'), (r'\buintmax_t\b', 'intmax_t'), (r'positive_overflow_error', 'negative_overflow_error'), (r'negative_overflow_error', 'positive_overflow_error'),
    (r'domain_error', 'range_error'), (r'range_error', 'domain_error'), (r'shift_too_large', 'negative_shift'), (r'negative_shift', 'shift_too_large'), (r'negative_value_shift', 'negative_shift'),
    (r'\bless_than\(', 'less_than_equal('), (r'\bgreater_than\(', 'greater_than_equal('), (r'\bless_than_equal\(', 'less_than('), (r'\bgreater_than_equal\(', 'greater_than('),
    (r'\b1\b', '0'), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\bt\b', 'u'), (r'\bu\b', 't'), (r'\bT\b', 'U'), (r'\bU\b', 'T'), (r'\bR\b', 'T'), (r'\* ', '/ '), (r'(?<=\w) / (?=\w)', ' * '), (r' % ', ' / '),
    (r'<< ', '>> '), (r'\bresult_base_type\b', 'temp_base'), (r'\btemp_base\b', 'result_base_type'), (r'\bminus\b', 'add'), (r'\bfirst\b', 'second'), (r'\bsecond\b', 'first'),
    (r'throw_exception', 'ignore_exception'), (r'ignore_exception', 'throw_exception'), (r'arithmetic_error', 'undefined_behavior'), (r'\|=?', '^'), (r' & (?=[a-z])', ' | '), (r'\bif\(', 'if(false && '), (r'\bif\(', 'if(true || ')]
def mutants():
    blame = {}
    for f in sorted(os.listdir(INC)):
        if not f.endswith('.hpp') or f in SKIP: continue
        lines = open(os.path.join(INC, f)).read().split('\n')
        comment = False
        for i, l in enumerate(lines):
            s = l.strip()
            if comment or s.startswith('/*'):
                comment = '*/' not in s
                continue
            if s.startswith(('//', '#', 'template', 'typename', 'class ', 'using ', 'namespace', 'struct')) or not s: 
                if not s.startswith('using') : continue
            code = l.split('//')[0]
            for k, (pat, rep) in enumerate(RULES):
                for m in re.finditer(pat, code):
                    new = code[:m.start()] + m.expand(rep) + code[m.end():]
                    if new != code: yield f, i, k, l, new
def main():
    M = list(mutants())
    if sys.argv[1] == 'list':
        from collections import Counter
        print(len(M), Counter(m[0] for m in M)); return
    start, step, count, log = int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    ORD = 'C17,C02,C11,C01,C10,C12,C18,C04,C14,C03,C08,C05,C06,C07,C09,C15,C16,C13,C20,C21,C22'
    FIRST = {'checked_integer.hpp': 'C01,C03', 'checked_default.hpp': 'C01', 'checked_result_operations.hpp': 'C11', 'checked_result.hpp': 'C11', 'interval.hpp': 'C12', 'safe_compare.hpp': 'C02', 'safe_base_operations.hpp': 'C04,C05,C08',
             'automatic.hpp': 'C06', 'cpp.hpp': 'C16', 'native.hpp': 'C04', 'exception.hpp': 'C17', 'exception_policies.hpp': 'C08,C17', 'utility.hpp': 'C18', 'safe_integer_literal.hpp': 'C15', 'safe_base.hpp': 'C18,C04', 'safe_integer_range.hpp': 'C18'}
    w = '/tmp/mut/%d' % os.getpid()
    for n, x in enumerate(range(start, len(M), step)):
        if n >= count: break
        f, i, k, old, new = M[x]
        shutil.rmtree(w, ignore_errors=True); shutil.copytree('/repo/include', w + '/include')
        p = '%s/include/boost/safe_numerics/%s' % (w, f)
        L = open(p).read().split('\n'); L[i] = new; open(p, 'w').write('\n'.join(L))
        t = time.time()
        # most mutants that do not compile are noticed by a plain include
        r = subprocess.run(['g++', '-std=c++17', '-w', '-fsyntax-only', '-I' + w + '/include', '-include', 'boost/safe_numerics/safe_integer_range.hpp', '-include', 'boost/safe_numerics/automatic.hpp', '-include', 'boost/safe_numerics/cpp.hpp',
            '-include', 'boost/safe_numerics/safe_integer_literal.hpp', '-include', 'boost/safe_numerics/interval.hpp', '-include', 'boost/safe_numerics/checked_result_operations.hpp', '-x', 'c++', '/dev/null'], stdout=-1, stderr=-1)
        if r.returncode: res = 'NOCOMPILE'
        else:
            pre = FIRST.get(f, '').split(',') if FIRST.get(f) else []
            o = pre + [c for c in ORD.split(',') if c not in pre]
            r = subprocess.run(['python3', '/verif/tools/mut_one.py', str(x), ','.join(o)], env=dict(os.environ, MC_REPO=w), stdout=-1, stderr=-1, text=True)
            res = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else 'ERROR ' + r.stderr[-300:]
        open(log, 'a').write('%d %s:%d rule %d [%s] -> [%s] %s %.0fs\n' % (x, f, i + 1, k, old.strip(), new.strip(), res, time.time() - t))
    shutil.rmtree(w, ignore_errors=True)
if __name__ == '__main__': main()
