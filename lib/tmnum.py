"""Refutation of a rounding-error claim on a low-precision machine (a multiple-precision float of
4 or 5 bits is such a machine, so the witness is an input of the real code)."""
import random
from fractions import Fraction as Q
from numcheck import rnd


def mval(t, env, p):
    k = t[0]
    if k == 'int': return Q(t[1])
    if k == 'L': return env[t]
    if k == 'neg': return -mval(t[1], env, p)
    if k == 'abs': return abs(mval(t[1], env, p))
    if k == 'hlf': return mval(t[1], env, p) / 2
    if k in ('max', 'min'): return (max if k == 'max' else min)(mval(t[1], env, p), mval(t[2], env, p))
    if k in ('lo', 'hi', 'mid'): return env[(k, t[1])]
    if k == 'B': return env[('L', t[1] + '*')]
    if k == 'val': return env[('mid', t[1])]
    if k == 'mag': return max(abs(env[('lo', t[1])]), abs(env[('hi', t[1])]))
    if k == 'err': return rnd(max(env[('hi', t[1])] - env[('mid', t[1])], env[('mid', t[1])] - env[('lo', t[1])]), 'U', p)
    if k == 'r':
        a = [mval(x, env, p) for x in t[3:]]
        if t[2] == 'add': v = a[0] + a[1]
        elif t[2] == 'sub': v = a[0] - a[1]
        elif t[2] == 'mul': v = a[0] * a[1]
        elif t[2] == 'sqr': v = a[0] * a[0]
        elif t[2] == 'fma': v = a[0] * a[1] + a[2]
        elif t[2] == 'div':
            if a[1] == 0: raise ZeroDivisionError
            v = a[0] / a[1]
        else: raise KeyError(t[2])
        return rnd(v, t[1], p)
    raise KeyError(k)


def collect(t, ls, bs):
    if not isinstance(t, tuple) or not t: return
    if t[0] == 'L' and len(t) == 2 and isinstance(t[1], str):
        if t[1].endswith('*'): bs.add(('B', t[1][:-1]))
        else: ls.add(t)
        return
    if t[0] == 'B' and len(t) == 2: bs.add(t); return
    for x in t[1:] if isinstance(t[0], str) else t: collect(x, ls, bs)


def peval(poly, env, p):
    r = Q(0)
    for m, c in poly.items():
        v = Q(c)
        for a in m:
            if a[0] == 'm': continue
            if a[0] == 'T': v *= mval(a[1], env, p)
            elif a[0] == 'pc': v *= mval(a[1], env, p)
            elif a[0] == 'abs': v *= abs(mval(a[1], env, p))
            elif a[0] == 'inv': v /= mval(a[1], env, p)
            elif a[0] == 'L': v *= env[a]
            else: raise KeyError(a[0])
        r += v
    return r


def refute(s, G, inc, facts, n=4000):
    ls, bs = set(), set()
    for m in list(G) + list(inc):
        for a in m: collect(a, ls, bs)
    for c, v in facts:
        if c[0] == 'cmp': collect(c, ls, bs)
    if any(a[0] not in ('m', 'T', 'pc', 'abs', 'inv', 'L') for m in list(G) + list(inc) for a in m): return None
    rng = random.Random(7)
    for p in (3, 4, 5):
        fl = [Q(m) * Q(2) ** e for e in (-2 - p, -1 - p, -p, -1, 0, 1) for m in range(2 ** (p - 1), 2 ** p)]
        for _ in range(n):
            env = {}
            for l in ls:
                x = rng.choice(fl)
                env[l] = x if (l in s.nonneg or rng.random() < .5) else -x
            for b in bs:
                x = rng.choice(fl) * rng.choice((1, -1)); y = x
                for _k in range(rng.randrange(4)): y = rnd(y + (abs(y) or 1) / Q(2) ** (p + 3), 'U', p)
                if rng.random() < .3: y = rng.choice(fl) * rng.choice((1, -1))
                lo, hi = min(x, y), max(x, y)
                env[('lo', b)] = lo; env[('hi', b)] = hi; env[('mid', b)] = rnd((lo + hi) / 2, 'N', p)
                env[('L', b[1] + '*')] = rng.choice((lo, hi, (lo + hi) / 2))
            try:
                ok = True
                for c, v in facts:
                    if c[0] == 'cmp':
                        a, b_ = mval(c[2], env, p), mval(c[3], env, p)
                        if ((a < b_) if c[1] == '<' else (a == b_)) != v: ok = False; break
                if not ok: continue
                g, e = abs(peval(G, env, p)), peval(inc, env, p)
            except (KeyError, ZeroDivisionError, OverflowError): return None
            if g > e:
                return 'with %d-bit numbers %s the coefficient is off by %s and the recorded error is %s' % (p, ', '.join('%s=%s' % (k[1] if k[0] == 'L' else k[0] + ' ' + str(k[1][1]), v) for k, v in sorted(env.items(), key=repr)), g, e)
    return None
