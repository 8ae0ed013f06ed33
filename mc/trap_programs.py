"""Concrete programs with the library's own trap policies: which must and which must not compile (C13)."""
import itertools, os

IMAX, IMIN = (1 << 63) - 1, -(1 << 63)
HEAD = '#include <cstdint>\n#include <boost/safe_numerics/safe_integer.hpp>\n#include <boost/safe_numerics/safe_integer_range.hpp>\n' \
       '#include <boost/safe_numerics/safe_integer_literal.hpp>\n#include <boost/safe_numerics/automatic.hpp>\nusing namespace boost::safe_numerics;\n'


def stored(lo, hi, sg):
    for b in (8, 16, 32, 64):
        if sg and -(1 << (b - 1)) <= lo and hi < 1 << (b - 1):
            return (b, True)
        if not sg and hi < 1 << b:
            return (b, False)


def S(lo, hi):   # (text, lo, hi, base type)
    lit = lambda v: ('INTMAX_MIN' if v == IMIN else '(%dll)' % v)
    return ('safe_signed_range<%s,%s,P,E>' % (lit(lo), lit(hi)), lo, hi, stored(lo, hi, True))


def Un(lo, hi):
    return ('safe_unsigned_range<%dull,%dull,P,E>' % (lo, hi), lo, hi, stored(lo, hi, False))


def F(b, sg):
    return ('safe<std::%sint%d_t,P,E>' % ('' if sg else 'u', b), -(1 << (b - 1)) if sg else 0, (1 << (b - sg)) - 1, (b, sg))


TYPES = [S(-3, 5), S(100, 200), S(-40000, 70000), Un(0, 10), Un(1, 31), F(8, True), F(16, False), F(32, True), F(32, False), F(64, True)]


def prom(t):
    return t if t[0] >= 32 else (32, True)


def common(a, b):
    a, b = prom(a), prom(b)
    if a == b:
        return a
    if a[1] == b[1]:
        return max(a, b)
    s, u = (a, b) if a[1] else (b, a)
    return u if u[0] >= s[0] else s


def rng(t):
    return (-(1 << (t[0] - 1)), (1 << (t[0] - 1)) - 1) if t[1] else (0, (1 << t[0]) - 1)


def corners(op, a, b):
    f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y}[op]
    v = [f(x, y) for x in a[1:3] for y in b[1:3]]
    return min(v), max(v)


def programs(tier):
    """yield (name, source, must_compile)"""
    pol = [('native', 'strict_trap_policy'), ('automatic', 'loose_trap_policy')] if tier == 'quick' else list(itertools.product(('native', 'automatic'), ('strict_trap_policy', 'loose_trap_policy')))
    for (P, E) in pol:
        pre = HEAD + 'using P = %s; using E = %s;\n' % (P, E)
        ts = TYPES
        for a, b in itertools.product(ts, ts):
            for op in '+-*':
                W = common(a[3], b[3]) if P == 'native' else (64, True if op == '-' else a[3][1] or b[3][1])
                lo, hi = rng(W)
                l, h = corners(op, a, b)
                fits = lo <= l and h <= hi and all(lo <= x <= hi for x in (a[1], a[2], b[1], b[2]))
                fails = l < lo or h > hi
                if not fits and not fails:
                    continue
                # thin out: all combinations in the thorough tier, one operator per pair in the quick one
                if tier == 'quick' and '+-*'.index(op) != (ts.index(a) + ts.index(b)) % 3:
                    continue
                yield ('%s %s: %s %s %s' % (P, E, a[0], op, b[0]), pre + 'void f(const %s & a, const %s & b){ auto r = a %s b; (void)r; }\n' % (a[0], b[0], op), fits)
            # division by a range which contains zero; conversion
            if b[1] <= 0 <= b[2] and (tier != 'quick' or a is ts[0]):
                for op in '/%':
                    yield ('%s %s: %s %s %s' % (P, E, a[0], op, b[0]), pre + 'void f(const %s & a, const %s & b){ auto r = a %s b; (void)r; }\n' % (a[0], b[0], op), False)
            if not (a[1] > b[2] or a[2] < b[1]) and (tier != 'quick' or P == 'native'):
                ok = b[1] <= a[1] and a[2] <= b[2]
                yield ('%s %s: %s -> %s' % (P, E, a[0], b[0]), pre + 'void f(const %s & a, %s & b){ b = a; }\n' % (a[0], b[0]), ok)
        for a in ts:
            yield ('%s %s: default %s' % (P, E, a[0]), pre + 'void f(){ %s a; (void)a; }\n' % a[0], E == 'loose_trap_policy')
            for b in ('std::int8_t', 'std::uint8_t', 'std::int16_t', 'std::uint32_t', 'std::int64_t'):
                w = int(''.join(c for c in b if c.isdigit())); l, h = rng((w, 'uint' not in b))
                if a[1] > h or a[2] < l:
                    continue
                yield ('%s %s: %s to %s' % (P, E, a[0], b), pre + '%s f(const %s & a){ return a; }\n' % (b, a[0]), l <= a[1] and a[2] <= h)
            if P == 'native' and a[2] < (1 << 31) - 1:
                yield ('%s %s: ++%s' % (P, E, a[0]), pre + 'void f(%s & a){ ++a; }\n' % a[0], False)
        # shifts: the count may be too large or negative
        if E == 'strict_trap_policy':
            yield ('%s shift by 0..40' % P, pre + 'void f(const safe_signed_range<0,5,P,E> & a, const safe_signed_range<0,70,P,E> & b){ auto r = a >> b; (void)r; }\n', False)
            yield ('%s shift by -1..3' % P, pre + 'void f(const safe_signed_range<0,5,P,E> & a, const safe_signed_range<-1,3,P,E> & b){ auto r = a >> b; (void)r; }\n', False)
    # literals and chains
    pre = HEAD + 'using P = native; using E = strict_trap_policy; using A = safe_signed_range<-100,100,P,E>; using B = safe_unsigned_range<1,10,P,E>;\n'
    for name, body, ok in [
        ('chain that fits', 'safe_signed_range<-100000,100000,P,E> f(const A & a, const A & b, const B & c){ return a * b + a - b * c; }', True),
        ('chain that may not fit its target', 'safe_signed_range<-100,100,P,E> f(const A & a, const A & b, const B & c){ return a * b + c; }', False),
        ('literal in range', 'A f(){ return A(safe_signed_literal<100>()); }', True),
        ('literal operand', 'safe_signed_range<-97,103,P,E> f(const A & a){ return a + safe_signed_literal<3>(); }', True),
        ('literal operand, target too small', 'A f(const A & a){ return a + safe_signed_literal<3>(); }', False),
        ('a third product', 'auto f(const safe<std::int16_t,P,E> & a, const safe<std::int16_t,P,E> & b){ auto r = a * b; return r * a; }', False),
        ('from an int', 'A f(int x){ return A(x); }', False),
        ('from an int8', 'safe<int,P,E> f(std::int8_t x){ return x; }', True),
        ('negation that may not fit', 'auto f(const safe<int,P,E> & a){ return -a; }', False),
    ]:
        yield (name, pre + body + '\n', ok)


def run(ctx):
    progs = list(programs(ctx['tier']))
    res = dict(jobs=len(progs), evals=len(progs), outcomes={}, samples=[p[0] for p in progs[:2]], violations=[], known_hit=[])

    def one(ix):
        name, src, ok = progs[ix]
        p = os.path.join(ctx['tmp'], 'prog%d.cpp' % ix)
        open(p, 'w').write(src)
        r = ctx['sh']([ctx['cxx'], '-std=c++14', '-w', '-fsyntax-only', '-I' + ctx['inc'], p], timeout=300)
        os.unlink(p)
        return r.returncode == 0, r.stderr
    for ix, (compiles, err) in enumerate(ctx['ex'].map(one, range(len(progs)))):
        name, src, ok = progs[ix]
        k = 'compiled' if compiles else 'not_compiled'
        res['outcomes'][k] = res['outcomes'].get(k, 0) + 1
        if compiles != ok:
            res['violations'].append(dict(source=src, should_compile=ok, name=name,
                msg='program "%s" %s although %s' % (name, 'compiles' if compiles else 'does not compile: ' + next((l for l in err.splitlines() if 'error' in l), '')[:300],
                                                     'some operands must be reported at run time' if compiles else 'nothing in it can fail')))
        elif not ok and 'trap_exception' not in err:
            res['violations'].append(dict(source=src, should_compile=ok, name=name, msg='program "%s" is rejected for another reason than the trap policy: %s'
                % (name, next((l for l in err.splitlines() if 'error' in l), '')[:300])))
    return [res]
