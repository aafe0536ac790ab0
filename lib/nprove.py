"""Rule-based discharge of enclosure obligations.

Judgement  facts |- A <= B  over exact-real readings of machine terms.  Rules: rounding
direction (down(e) <= e <= up(e)), monotonicity of each operation under the sign facts of
the path, min/max/abs decomposition, order closure of the branch facts, one case split per
real argument on its sign, and (for midpoint-radius results) the lemma
|near(e)-e| <= (up(e)-down(e))/2 with a coefficientwise comparison of nonnegative monomials.
No rule, no discharge: the caller then treats the function as undecided unless refuted.
"""
from fmodel import *
from numcheck import strip_pos, RELS, DPN, MPN
from fractions import Fraction as Q

Z = ('k', 0)
ONE = ('k', 1)
MONO = {'exp', 'sqrt', 'log', 'atan', 'asin', 'hlf'}


class Fail(Exception): pass


class NoTerm(Exception): pass


def conv(t):
    """machine term -> real expression: ('dn'|'up'|'nr', e), op tuples, atoms"""
    k = t[0]
    if k == 'int': return ('k', t[1])
    if k == 'flt':
        try: return ('k', float(t[1]))
        except ValueError: raise NoTerm()
    if k in ('sym', 'real', 'k'): return t
    if k == 'fld':
        if t[2] == '_d' and t[1][0] == 'sym': return t[1]
        return t
    if k == 'rec' and t[1] == 'Ariadne::ExactDouble':
        v = field(t, '_d'); return conv(v)
    if k == 'rec' and not t[2] and t[3] is not None: return conv(t[3])
    if k == 'rec' and len(t[2]) == 1 and t[2][0][0] == 'dbl': return conv(t[2][0][1])
    if k == 'cast' and t[1] == 'IntegralToFloating': return conv(t[3])
    if k == 'un' and t[1] == '-': return neg(conv(t[2]))
    if k == 'app':
        ft, _, n = t[1].partition('.')
        if ft not in ('DP', 'MP', 'X'): raise NoTerm()
        a = list(t[2:]); r = None
        if n.startswith('new:'):
            rr = [x for x in a if x[0] == 'rnd']
            e = conv(a[0])
            if n == 'new:F':
                if not rr: return e
                return rounded(rr[0][1], e)
            if n in ('new:Dyadic', 'new:Rational', 'new:Integer', 'new:Decimal') and len(a) == 1: return e
            return t
        if n == 'inf':
            sg = [x for x in a if x[0] not in ('rec', 'app', 'sym')]
            if not sg: return ('inf',)
            return t
        if a and a[0][0] == 'rnd': r = a[0][1]; a = a[1:]
        if n in ('operator Dyadic', 'operator Rational') and len(a) == 1: return conv(a[0])
        if n in ('pos', 'cast_exact', 'raw') and len(a) == 1: return conv(a[0])
        if n == 'neg' and len(a) == 1 or n == 'operator-' and len(a) == 1: return neg(conv(a[0]))
        if n == 'nul' and len(a) == 1: return Z
        if n in ('max', 'min') and len(a) == 2: return (n, conv(a[0]), conv(a[1]))
        if n in ('max', 'min') and len(a) == 3: return (n, conv(a[0]), (n, conv(a[1]), conv(a[2])))
        if n in ('abs', 'mag') and len(a) == 1: return ('abs', conv(a[0]))
        if n == 'hlf' and len(a) == 1: return ('hlf', conv(a[0]))
        op = {'operator+': 'add', 'operator-': 'sub', 'operator*': 'mul', 'operator/': 'div'}.get(n, n)
        if r is None and ft != 'X': return t
        if op == 'pi': return rounded(r, ('pi',)) if r else t
        if op == 'fma' and len(a) == 3: e = add(mul(conv(a[0]), conv(a[1])), conv(a[2]))
        elif op == 'med' and len(a) == 2: e = ('hlf', add(conv(a[0]), conv(a[1])))
        elif op == 'rad' and len(a) == 2: e = ('hlf', sub(conv(a[1]), conv(a[0])))
        elif op in ('add', 'sub', 'mul', 'div') and len(a) == 2: e = real(op, *[conv(x) for x in a])
        elif op in ('sqr', 'rec', 'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan') and len(a) == 1: e = real(op, conv(a[0]))
        elif op == 'pow' and len(a) == 2 and a[1][0] != 'int': e = ('pow', conv(a[0]), a[1])
        elif op == 'pow' and len(a) == 2 and a[1] == ('int', 1): e = conv(a[0])
        elif op == 'pow' and len(a) == 2 and a[1] == ('int', 2): e = ('sqr', conv(a[0]))
        else: return t
        return rounded(r, e) if r else e
    return t


def rounded(r, e):
    if r == 'D': return ('dn', e)
    if r == 'U': return ('up', e)
    if r == 'N': return ('nr', e)
    raise NoTerm()


def neg(a):
    if a[0] == 'neg': return a[1]
    if a[0] == 'k': return ('k', -a[1])
    return ('neg', a)
def add(a, b):
    if a == Z: return b
    if b == Z: return a
    return ('add', a, b)
def sub(a, b): return add(a, neg(b))
def mul(a, b): return ('mul', a, b) if a != b else ('sqr', a)
def real(op, *a):
    if op == 'add': return add(*a)
    if op == 'sub': return sub(*a)
    if op == 'mul': return mul(*a)
    if op == 'div': return mul(a[0], ('rec', a[1])) if a[0] != ONE else ('rec', a[1])
    if op in ('abs', 'mag', 'mig'): return ('abs', a[0])
    if op == 'pos': return a[0]
    if op == 'neg': return neg(a[0])
    if op == 'nul': return Z
    return (op,) + a


class Prover:
    def __init__(s, order, expand=None, budget=6000):
        s.o = order; s.n = budget; s.memo = {}; s.ex = expand or {}
    def lt0(s, a): return s.le(Z, a, True)
    def le(s, A, B, strict=False, d=0):
        if A == B: return not strict
        key = (A, B, strict)
        if key in s.memo: return s.memo[key]
        if d > 14 or s.n <= 0: return False
        s.n -= 1
        s.memo[key] = False
        r = s._le(A, B, strict, d)
        if r: s.memo[key] = True
        elif d > 0 and s.n > 0: s.memo.pop(key)      # failure may be due to the depth bound
        return r
    def pos(s, a, d, strict=False): return s.le(Z, a, strict, d + 1)
    def nonpos(s, a, d, strict=False): return s.le(a, Z, strict, d + 1)
    def _le(s, A, B, strict, d):
        a, b = A[0], B[0]
        if a == 'k' and b == 'k': return A[1] < B[1] if strict else A[1] <= B[1]
        if s.o.leq(A, B, strict): return True
        if b == 'inf' or A == ('neg', ('inf',)): return True
        L = lambda x, y, st=strict: s.le(x, y, st, d + 1)
        # rounding
        if a == 'dn' and L(A[1], B): return True
        if b == 'up' and L(A, B[1]): return True
        if not strict and a in ('dn', 'up', 'nr') and a == b and L(A[1], B[1]): return True
        if not strict and a == 'dn' and b in ('nr', 'up') and L(A[1], B[1]): return True
        if not strict and a == 'nr' and b == 'up' and L(A[1], B[1]): return True
        # machine numbers are fixed points of rounding: dn(e)>=m if e>=m for a machine number m
        if not strict and b in ('dn', 'nr') and s.machine(A) and L(A, B[1]): return True
        if not strict and a in ('up', 'nr') and s.machine(B) and L(A[1], B): return True
        # lattice
        if a == 'min' and (L(A[1], B) or L(A[2], B)): return True
        if a == 'max': return L(A[1], B) and L(A[2], B)
        if b == 'max' and (L(A, B[1]) or L(A, B[2])): return True
        if b == 'min': return L(A, B[1]) and L(A, B[2])
        if b == 'abs' and (L(A, B[1]) or L(A, neg(B[1])) or L(A, Z)): return True
        if a == 'abs' and L(A[1], B) and L(neg(A[1]), B): return True
        # signs
        if A == Z:
            if b == 'neg': return s.nonpos(B[1], d, strict)
            if b == 'mul':
                x, y = B[1], B[2]
                return s.pos(x, d, strict) and s.pos(y, d, strict) or s.nonpos(x, d, strict) and s.nonpos(y, d, strict)
            if b in ('sqr',): return not strict or s.pos(B[1], d, True) or s.nonpos(B[1], d, True)
            if b in ('abs',): return not strict or s.pos(B[1], d, True) or s.nonpos(B[1], d, True)
            if b == 'exp' or b == 'pi': return True
            if b == 'sqrt': return not strict or s.pos(B[1], d, True)
            if b == 'rec': return s.pos(B[1], d, True)
            if b in ('hlf', 'atan', 'asin'): return s.pos(B[1], d, strict)
            if b == 'dn' or b == 'nr': return not strict and s.pos(B[1], d)
            if b == 'add': return s.pos(B[1], d, strict) and s.pos(B[2], d) or s.le(neg(B[1]), B[2], strict, d + 1)
        if B == Z:
            if a == 'neg': return s.pos(A[1], d, strict)
            if a == 'mul':
                x, y = A[1], A[2]
                return s.pos(x, d, strict) and s.nonpos(y, d, strict) or s.nonpos(x, d, strict) and s.pos(y, d, strict)
            if a == 'rec': return s.nonpos(A[1], d, True)
            if a in ('hlf', 'atan', 'asin'): return s.nonpos(A[1], d, strict)
            if a == 'up' or a == 'nr': return not strict and s.nonpos(A[1], d)
            if a == 'add': return s.nonpos(A[1], d, strict) and s.nonpos(A[2], d) or s.le(A[1], neg(A[2]), strict, d + 1)
        # monotone structure
        if a == 'neg' and b == 'neg': return L(B[1], A[1])
        if a == 'add' and b == 'add':
            if L(A[1], B[1]) and s.le(A[2], B[2], False, d + 1): return True
            if L(A[1], B[2]) and s.le(A[2], B[1], False, d + 1): return True
        if a == b and a in MONO and L(A[1], B[1]): return True
        if a == b == 'acos' and L(B[1], A[1]): return True
        if a == b == 'rec':
            if L(B[1], A[1]) and (s.pos(B[1], d, True) or s.nonpos(A[1], d, True)): return True
            if not strict and L(B[1], A[1]) and s.pos(B[1], d) and s.pos(A[1], d, True): return True    # rec(0) is +inf
            if not strict and L(B[1], A[1]) and s.nonpos(A[1], d) and s.nonpos(B[1], d, True): return True
            if s.nonpos(A[1], d, True) and s.pos(B[1], d, True): return True
        if a == b == 'sqr':
            if s.pos(A[1], d) and L(A[1], B[1]): return True
            if s.nonpos(A[1], d) and L(B[1], A[1]): return True
            if s.pos(A[1], d) and L(A[1], neg(B[1])): return True
            if s.nonpos(A[1], d) and L(neg(A[1]), B[1]): return True
        if a == 'mul' and b == 'mul' and not strict:
            for a1, a2 in ((A[1], A[2]), (A[2], A[1])):
                for b1, b2 in ((B[1], B[2]), (B[2], B[1])):
                    # a1*a2 <= a1*b2 <= b1*b2
                    s1 = (s.pos(a1, d) and s.le(a2, b2, False, d + 1)) or (s.nonpos(a1, d) and s.le(b2, a2, False, d + 1))
                    if not s1: continue
                    s2 = (s.pos(b2, d) and s.le(a1, b1, False, d + 1)) or (s.nonpos(b2, d) and s.le(b1, a1, False, d + 1))
                    if s2: return True
        if A != Z and B != Z and d < 8 and s.nonpos(A, d, strict) and s.pos(B, d): return True
        if (a == 'add' or b == 'add' or A in s.ex or B in s.ex) and s.sums(A, B, strict, d): return True
        # moving a negative term across
        if b == 'neg' and a not in ('neg',) and A != Z and A[0] in ('mul',):
            for x, y in ((A[1], A[2]), (A[2], A[1])):
                if x[0] == 'neg' and L(B[1], mul(x[1], y)): return True
        # sums of nonnegative monomials (midpoint-radius error terms)
        return False
    def flat(s, t, sg, out, ex):
        k = t[0]
        if k == 'add': s.flat(t[1], sg, out, ex); s.flat(t[2], sg, out, ex)
        elif k == 'neg': s.flat(t[1], -sg, out, ex)
        elif k == 'up' and sg > 0 and ex: s.flat(t[1], sg, out, ex)
        elif k == 'dn' and sg < 0 and ex: s.flat(t[1], sg, out, ex)
        elif ex and t in s.ex: s.flat(s.ex[t], sg, out, ex)
        elif t == Z: pass
        else: out.append((sg, t))
    def sums(s, A, B, strict, d):
        """B - A >= 0 by cancelling addends and pairing the rest"""
        for ex in (False, True):
            out = []; s.flat(B, 1, out, ex); s.flat(A, -1, out, ex)
            if len(out) > 9: continue
            i = 0
            while i < len(out):
                o = (-out[i][0], out[i][1])
                if o in out: out.remove(o); out.pop(i)
                else: i += 1
            n = [t for g, t in out if g < 0]; p = [t for g, t in out if g > 0]
            if (('neg', A) in (('neg', t) for t in n) and len(n) == 1 and len(p) == 1 and p[0] == B): continue
            if s.pair(n, p, strict, d): return True
        return False
    def pair(s, n, p, strict, d):
        if not n: 
            if strict: return any(s.pos(t, d, True) for t in p) and all(s.pos(t, d) for t in p)
            return all(s.pos(t, d) for t in p)
        if d > 10: return False
        # -t + q >= 0
        t = n[0]
        for i, q in enumerate(p):
            if s.le(t, q, False, d + 2) and s.pair(n[1:], p[:i] + p[i+1:], strict, d): return True
        # -t - t2 with t <= -t2
        for j in range(1, len(n)):
            if s.le(t, neg(n[j]), False, d + 2) and s.pair(n[1:j] + n[j+1:], p, strict, d): return True
        if s.nonpos(t, d) and s.pair(n[1:], p, strict, d): return True
        return False
    def machine(s, t):
        return t[0] in ('fld', 'sym', 'dn', 'up', 'nr', 'app') or t == Z or (t[0] in ('neg', 'abs') and s.machine(t[1])) or (t[0] in ('max', 'min') and s.machine(t[1]) and s.machine(t[2]))


# ---------------------------------------------------------------- obligations
def ends(k, sym, i):
    """(lower term, upper term, error terms) of the value set of an argument; None = unbounded"""
    kk = strip_pos(k); c = kk[0]
    f = lambda n: ('fld', sym, n)
    if c == 'F' or c == 'X': return sym, sym
    if c == 'int': return sym, sym
    if c == 'Bounds': return f('_l'), f('_u')
    if c == 'Lower': return f('_l'), None
    if c == 'Upper': return (Z if k[0] == 'Pos' else None), f('_u')
    if c == 'Error': return Z, f('_e')
    if c == 'Ball': return sub(f('_v'), f('_e')), add(f('_v'), f('_e'))
    raise NoTerm()


def mkorder(c, path, X):
    o = Order()
    for sym, k, ty in c.args:
        for a, b in invariants(sym, ty, k): o.add(nz(a), nz(b), False)
    for cond, d in path.facts:
        if cond[0] in ('cmp', 'bin') and cond[1] in ('<', '=='):
            try: a, b = nz(conv(cond[2])), nz(conv(cond[3]))
            except NoTerm: continue
            o.fact((cond[0], cond[1], a, b), d)
    for x, e in EXP.items():
        dv = e[2]; er = ('fld', e[1][1], '_e')
        o.add(dv, er, False); o.add(neg(er), dv, False); o.add(neg(dv), er, False)
    for t in list(o.le) + [y for ys in list(o.le.values()) for y in ys]:
        if t[0] == 'dn': o.add(t, t[1], False)
        if t[0] == 'up': o.add(t[1], t, False)
    for x, lo, hi in X:
        if lo is not None: o.add(nz(lo), x, False)
        if hi is not None: o.add(x, nz(hi), False)
    return o


def nz(t):
    c = const(t)
    if c is not None and c == 0: return Z
    if t[0] in ('int', 'flt') and c is not None: return ('k', c)
    return t


class NotProved(Exception): pass


EXP = {}   # real value of a ball argument -> midpoint + deviation


def prove(c, paths):
    """(proved?, note)"""
    try:
        n = 0
        for p in paths:
            if p.kind != 'ret': continue
            path(c, p); n += 1
        if n == 0: return False, 'no returning path'
        return True, 'enclosure derived on %d returning paths' % n
    except NotProved as e: return False, str(e)
    except (NoTerm, KeyError) as e: return False, 'term outside the rule language'
    except RecursionError: return False, 'term too large'


def fld(v, f):
    x = field(v, f)
    if x[0] == 'uninit': raise NoTerm()
    return x


def path(c, p):
    v = p.outv if c.inplace else p.value
    num = [(sym, k) for sym, k, ty in c.args if k[0] != 'PR']
    X = []
    EXP.clear()
    for i, (sym, k) in enumerate(num):
        if strip_pos(k)[0] in ('F', 'X', 'int') : X.append((sym, sym, sym)); continue
        lo, hi = ends(k, sym, i)
        X.append((('real', i), lo, hi))
        if strip_pos(k)[0] == 'Ball': EXP[('real', i)] = add(('fld', sym, '_v'), ('real', 'd%d' % i))
    xs = [x for x, _, _ in X]
    op = c.op
    if op in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'): return comparison(c, p, v, X)
    if op in RELS: return relation(c, p, v, num)
    if op == 'refinement':
        # one common value z of both
        z = ('real', 'z'); o = mkorder(c, p, [(z, lo, hi) for _, lo, hi in X if lo != hi or True])
        return goal(c, o, v, z, [], p)
    if op in ('interval', 'ball'):
        o = mkorder(c, p, [])
        if op == 'interval':
            l = num[0][0] if strip_pos(num[0][1])[0] != 'Lower' else ('fld', num[0][0], '_l')
            u = num[1][0] if strip_pos(num[1][1])[0] != 'Upper' else ('fld', num[1][0], '_u')
            if not o.leq(l, u): o.add(l, u, False)
            z = ('real', 'z'); o.add(l, z, False); o.add(z, u, False)
            return goal(c, o, v, z, [], p)
        vv = num[0][0]; e = num[1][0] if strip_pos(num[1][1])[0] != 'Error' else ('fld', num[1][0], '_e')
        V, E = conv(fld(v, '_v')), conv(fld(v, '_e'))
        o.add(Z, e, False)
        pr = Prover(o, EXP)
        if V == vv and pr.le(e, E): return
        raise NotProved('radius')
    o = mkorder(c, p, X)
    if op in ('id', 'assign'): z = xs[1] if op == 'assign' else xs[0]
    elif op == 'fma': z = add(mul(xs[0], xs[1]), xs[2])
    elif op == 'pow': z = ('pow', xs[0], xs[1])
    else: z = real(op, *xs)
    # where the operation is defined, a nonnegative divisor is positive
    den = xs[1] if op == 'div' else xs[0] if op == 'rec' else None
    goal(c, o, v, z, [x for x, lo, hi in X if lo != hi], p, den)


def goal(c, o, v, z, reals, p, den=None):
    res = strip_pos(c.res); k = res[0]
    gs = []
    if k == 'Bounds': gs = [(conv(fld(v, '_l')), z), (z, conv(fld(v, '_u')))]
    elif k == 'Lower': gs = [(conv(one(v)), z)]
    elif k in ('Upper', 'Error'): gs = [(z, conv(one(v)))]
    elif k == 'Ball':
        V, E = conv(fld(v, '_v')), conv(fld(v, '_e'))
        if monomials(c, V, E, z, o): return
        gs = [(sub(z, V), E), (sub(V, z), E)]
    for A, B in gs: split(o, A, B, reals, den)


def one(v):
    if v[0] == 'fld' or v[0] == 'app' or (v[0] == 'rec' and v[1] in FLOATS): return v
    if v[0] == 'rec' and not v[2] and v[3] is not None: return one(v[3])
    if v[0] == 'rec' and len(v[2]) == 1: return v[2][0][1]
    if v[0] == 'sym':
        fs = fields_of(parse_type(v[2]) or ('?',))
        if len(fs) == 1: return ('fld', v, fs[0])
        if parse_type(v[2]) and strip_pos(parse_type(v[2]))[0] == 'F': return v
    raise NoTerm()


def clone(o):
    n = Order(); n.le = {a: dict(b) for a, b in o.le.items()}; n.consts = dict(o.consts); return n


def split(o, A, B, reals, den):
    if den is not None:
        if o.leq(Z, den): o.add(Z, den, True)
        elif o.leq(den, Z): o.add(den, Z, True)
    if Prover(o, EXP).le(A, B): return
    todo = [r for r in reals if not o.leq(Z, r) and not o.leq(r, Z)]
    if not todo: raise NotProved('cannot derive %s <= %s' % (sh(A), sh(B)))
    r = todo[0]
    for s in (0, 1):
        o2 = clone(o)
        st = den == r
        if s == 0: o2.add(Z, r, st)
        else: o2.add(r, Z, st)
        # contradictory case
        if any(o2.leq(x, x, True) for x in (r, Z)): continue
        split(o2, A, B, [x for x in reals if x != r], den)


def sh(t):
    if t[0] == 'real': return 'x%s' % t[1]
    if t[0] == 'k': return str(t[1])
    if t[0] in ('fld', 'sym', 'app'): return show(t)
    return '%s(%s)' % (t[0], ','.join(sh(x) if isinstance(x, tuple) else str(x) for x in t[1:]))


# ---- midpoint-radius: expand into nonnegative monomials
def poly_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items(): r[m] = r.get(m, 0) + k * c
    return r


def poly_mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            x = tuple(sorted(m + n, key=repr)); r[x] = r.get(x, 0) + c * d
    return r


def lower_poly(t, o, d=0):
    """polynomial with nonnegative atoms that is <= t (t a nonnegative machine expression)"""
    k = t[0]
    if k == 'up': 
        e = t[1]
        if e[0] == 'add' and e[2][0] == 'neg':
            # up(up(e) - dn(e)): twice the rounding error of e
            x, y = e[1], e[2][1]
            if x[0] == 'up' and y[0] == 'dn' and x[1] == y[1]: return {(('err', x[1]),): Q(2)}
        return lower_poly(e, o, d + 1)
    if k == 'add':
        if t[2][0] == 'neg' and t[1][0] == 'up' and t[2][1][0] == 'dn' and t[1][1] == t[2][1][1]: return {(('err', t[1][1]),): Q(2)}
        return poly_add(lower_poly(t[1], o, d + 1), lower_poly(t[2], o, d + 1))
    if k == 'mul': return poly_mul(lower_poly(t[1], o, d + 1), lower_poly(t[2], o, d + 1))
    if k == 'hlf': return {m: c / 2 for m, c in lower_poly(t[1], o, d + 1).items()}
    if k == 'k': return {(): Q(t[1])}
    if k == 'abs': return {(t,): Q(1)}
    if k in ('fld', 'sym'):
        if o.leq(Z, t): return {(t,): Q(1)}
    if k == 'max': return {(t,): Q(1)}
    raise NoTerm()


def monomials(c, V, E, z, o):
    num = [(sym, k) for sym, k, ty in c.args if k[0] != 'PR']
    mids = []; errs = []
    for sym, k in num:
        kk = strip_pos(k)[0]
        if kk == 'Ball': mids.append(('fld', sym, '_v')); errs.append(('fld', sym, '_e'))
        elif kk in ('F', 'X', 'int'): mids.append(sym); errs.append(None)
        else: return False
    try: got = lower_poly(E, o)
    except NoTerm: return False
    at = lambda t: {(t,): Q(1)} if t is not None else {}
    ab = lambda t: {(t,): Q(1)} if o.leq(Z, t) else {(('abs', t),): Q(1)}
    op = c.op
    if op in ('add', 'sub') and len(num) == 2: need = poly_add(at(errs[0]), at(errs[1])); e = real(op, *mids)
    elif op == 'mul' and len(num) == 2:
        need = poly_add(poly_add(poly_mul(ab(mids[0]), at(errs[1])), poly_mul(ab(mids[1]), at(errs[0]))), poly_mul(at(errs[0]), at(errs[1]))); e = mul(*mids)
    elif op in ('pos', 'id', 'neg', 'hlf') and len(num) == 1:
        need = {m: x * (Q(1, 2) if op == 'hlf' else 1) for m, x in at(errs[0]).items()}; e = real(op, mids[0])
    elif op == 'div' and V[0] == 'nr' and V[1][0] == 'mul' and V[1][1] == mids[0] and errs[1] is not None:
        V2 = V[1][2]
        key = mids[0] if o.leq(Z, mids[0]) else ('abs', mids[0])
        for m in got:
            if len(m) == 2 and key in m:
                E2 = m[1] if m[0] == key else m[0]
                z2 = ('rec', ('real', 1))
                try:
                    split(o, sub(z2, V2), E2, [('real', 1)], ('real', 1)); split(o, sub(V2, z2), E2, [('real', 1)], ('real', 1))
                except NotProved: continue
                need = poly_add(poly_add(poly_mul(ab(mids[0]), at(E2)), poly_mul({(('abs', V2),): Q(1)}, at(errs[0]))), poly_mul(at(errs[0]), at(E2))); e = V[1]
                break
        else: return False
    elif op == 'assign': need = at(errs[1]); e = mids[1]
    else: return False
    if V == e: pass
    elif V[0] in ('nr', 'up', 'dn') and V[1] == e: need = poly_add(need, {(('err', e),): Q(1 if V[0] == 'nr' else 2)})
    else: return False
    return all(got.get(m, 0) >= x for m, x in need.items())


# ---- comparisons
def lval(v):
    if v[0] == 'bool': return 2 if v[1] else -2
    if v[0] == 'enum': return v[2]
    if v[0] == 'int': return v[1]
    if v[0] == 'rec':
        if v[3] is not None and not v[2]: return lval(v[3])
        return lval(field(v, '_v'))
    raise NoTerm()


def comparison(c, p, v, X):
    r = lval(v)
    if r not in (2, -2): return
    o = mkorder(c, p, X)
    (x, xl, xu), (y, yl, yu) = X
    op = c.op
    if r == -2: op = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}[op]
    if op in ('gt', 'ge'): x, y = y, x; op = {'gt': 'lt', 'ge': 'le'}[op]
    pr = Prover(o, EXP)
    if op in ('lt', 'le'): ok = pr.le(x, y)
    elif op == 'eq': ok = pr.le(x, y) and pr.le(y, x)
    else: ok = pr.le(x, y, True) or pr.le(y, x, True) or any(cond[1] == '==' and d is False and {nz(conv(cond[2])), nz(conv(cond[3]))} == {x, y} for cond, d in p.facts if cond[0] in ('cmp', 'bin'))
    if not ok: raise NotProved('a definite answer without supporting facts')


def relation(c, p, v, num):
    r = lval(v) == 2
    o = mkorder(c, p, [])
    pr = Prover(o, EXP)
    (s1, k1), (s2, k2) = num
    a, b = ends(k1, s1, 0), ends(k2, s2, 1)
    op = c.op
    if op == 'models': a, b = b, a; op = 'refines'
    def le(x, y, st=False): return x is None and y is None or (x is not None and y is not None and pr.le(x, y, st))
    if op == 'refines':
        conj = []
        if b[0] is not None: conj.append((b[0], a[0]))
        if b[1] is not None: conj.append((a[1], b[1]))
        if strip_pos(k1)[0] == 'Ball' or strip_pos(k2)[0] == 'Ball':
            if not r: return
    elif op == 'consistent': conj = [(x, y) for x, y in ((a[0], b[1]), (b[0], a[1])) if x is not None and y is not None]
    elif op == 'inconsistent':
        conj = [(x, y) for x, y in ((a[0], b[1]), (b[0], a[1])) if x is not None and y is not None]; r = not r
    else: raise NoTerm()
    if r: ok = all(le(x, y) for x, y in conj)
    else: ok = any(le(y, x, True) for x, y in conj)
    if not ok: raise NotProved('answer not implied by the branch facts')
