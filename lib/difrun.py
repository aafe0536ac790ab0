"""Differentials and power series.  Every expression of tu/use_differential.cpp is summarised over differentials of small
concrete degree and number of arguments with opaque coefficients: the library code is executed abstractly, the
coefficients stay terms.  The terms of the result are compared with the Taylor coefficients of the operation, computed
independently, at points which satisfy the facts of the path."""
import re, random, math, itertools
from fractions import Fraction as Q
import prog, tus
from engine import *
from report import Ob, pmap
from realdom import *
from symcheck import Bad
import linrun
from linrun import LPol, LMod, LEv, Mx, Pre, same, names_of, cls

_P = {}


def program():
    if 'p' not in _P: _P['p'] = prog.load(tus.tus('algebra/differential.cpp', 'algebra/vector.cpp', 'algebra/matrix.cpp', 'algebra/expansion.cpp') + [prog.VERIF + '/tu/use_differential.cpp'])
    return _P['p']


class DPol(LPol):
    def isseq(s, rec): return LPol.isseq(s, rec) or bare(rec).startswith((A + 'Graded<',))
    def extra(s, ev, fn, this, args, node):
        n, rec = fn.n, bare(fn.rec or '')
        r = expansion(s, ev, fn, this, args)
        if r is not None: return r
        if n == 'make_shared' and 'SeriesGenerator<' in fn.q: return ('term', ('sgen', re.search(r'<(Ariadne::SeriesGenerator<.*>)', fn.q[:-1]).group(1)))
        if this is not None and not fn.has('ctor'):
            if rec.startswith('__gnu_cxx::__normal_iterator<') and n in ('operator->', 'operator*') and isinstance(this, LV) and this.path and this.path[-1][0] == 'i': return ('term', ('ptr', this.cell, this.path)) if n == 'operator->' else this
            tv = ev.rv(this)
            if tv[0] == 'sgen' and n in ('operator->', 'operator*', 'get'): return ('term', tv)
            if tv[0] == 'sgen' and n == '_next':
                f = program().find(n='_next', rec=tv[1])
                if len(f) != 1: raise Unsupported('the terms of ' + tv[1])
                return ('term', ev.rv(ev.invoke(f[0], this, args)))
        elif fn.has('ctor') and rec.startswith('std::') and len(args) == 1 and ev.rv(args[0])[0] == 'sgen': return ('term', ev.rv(args[0]))
        elif fn.has('ctor') and rec.startswith(A + 'Graded<') and len(args) == 1 and s.isnumv(s.num(ev.rv(args[0]))): return ('term', ('arr', (s.num(ev.rv(args[0])),)))
        return LPol.extra(s, ev, fn, this, args, node)


# ------------------------------------------------------------------------------------- expansions, by their contract
MI = tuple(A + x for x in ('MultiIndex', 'MultiIndexData', 'MultiIndexReference', 'MultiIndexConstReference'))
ISEXP = re.compile(r'^Ariadne::(Sorted)?Expansion<Ariadne::MultiIndex,')
ISIT = re.compile(r'Ariadne::Expansion(Const)?Iterator<Ariadne::MultiIndex,')
ISREF = re.compile(r'^Ariadne::Expansion(Const)?(Reference|Pointer)<Ariadne::MultiIndex,')
def gkey(k): return (sum(k), tuple(-x for x in k))
def rkey(k): return tuple(-x for x in reversed(k))
def ints(v): return tuple(x[1] for x in v[1])
def mi(k): return ('arr', tuple(I(x) for x in k))
def expn(ty, n, z, ts): return ('rec', bare(ty), (('_as', I(n)), ('_zero', z), ('_t', ('arr', tuple(('arr', (mi(k), c)) for k, c in ts)))), None)


def expansion(s, ev, fn, this, args):
    n, rec, rv = fn.n, bare(fn.rec or ''), ev.rv
    ctor = fn.has('ctor')
    V = ('term', ('void',))
    # multi-indices
    if rec in MI or n.startswith('operator') and fn.p and bare(fn.p[0].replace('&', '').replace('const ', '').strip()) in MI:
        vs = [rv(a) for a in args]
        if ctor:
            if not vs: return ('term', mi(()))
            if vs[0][0] == 'arr': return ('term', vs[0])
            if len(vs) == 1 and vs[0][0] == 'int': return ('term', mi((0,) * vs[0][1]))
            return None
        if n in ('zero', 'unit') and fn.has('static'): return ('term', mi((0,) * vs[0][1] if n == 'zero' else unit(vs[0][1], vs[1][1])))
        l, r = (this, vs) if this is not None else (args[0], vs[1:])
        tv = rv(l)
        if tv[0] == 'arr':
            k = tv[1]
            if n == 'degree': return ('term', nop_sum(ev, k))
            if n in ('size', 'number_of_variables'): return ('term', I(len(k)))
            if n == 'operator=' : ev.write(l, r[0]); return l
            if n in ('operator==', 'operator!=') and r and r[0][0] == 'arr': return ('term', B((k == r[0][1]) == (n == 'operator==')))
            if n in ('operator+', 'operator-', 'operator+=', 'operator-=') and r and r[0][0] == 'arr' and len(r[0][1]) == len(k):
                w = mi(x + y if n[8] == '+' else x - y for x, y in zip(ints(tv), ints(r[0])))
                if n.endswith('='): ev.write(l, w); return l
                return ('term', w)
            if n.startswith('operator ') or n == 'operator const Ariadne::MultiIndex &': return l
            if n == 'clear': ev.write(l, mi((0,) * len(k))); return V
            if n in ('operator[]',) and r[0][0] == 'int':
                if not 0 <= r[0][1] < len(k): raise Throw(('index out of range', r[0]))
                return l.sub(('i', r[0])) if isinstance(l, LV) else ('term', k[r[0][1]])
        return None
    # references and iterators
    it = None
    if this is not None and not ctor: it = rv(this)
    elif args: it = rv(args[0])
    if it is not None and it[0] in ('eit', 'eref'):
        if ctor and (ISREF.match(rec) or ISIT.search(rec)) and len(args) == 1: return ('term', it)
        vs = [rv(a) for a in (args if this is not None and not ctor else args[1:])]
        l = this if this is not None else args[0]
        if it[0] == 'eref':
            el = LV(it[1], it[2]).sub(('f', '_t'), ('i', I(it[3])))
            if n in ('index', 'coefficient'):
                if not 0 <= it[3] < len(rv(LV(it[1], it[2]).sub(('f', '_t')))[1]): raise Throw(('a term outside the expansion is used', I(it[3])))
                return el.sub(('i', I(int(n == 'coefficient'))))
            if n in ('operator->', 'operator*'): return ('term', it)
            return None
        mv = lambda k: ('eit', it[1], it[2], it[3] + k)
        if n in ('operator*', 'operator->', 'dereference') and not vs: return ('term', ('eref',) + it[1:])
        if n in ('operator++', 'operator--') : w = mv(1 if n[-1] == '+' else -1); ev.write(l, w); return l if not vs else ('term', it)
        if n in ('operator+', 'operator-', 'operator+=', 'operator-=') and vs and vs[0][0] == 'int':
            w = mv(vs[0][1] if n[8] == '+' else -vs[0][1])
            if n.endswith('='): ev.write(l, w); return l
            return ('term', w)
        if vs and vs[0][0] == 'eit' and n in ('operator-', 'operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            if vs[0][1:3] != it[1:3]: raise Unsupported('iterators of different expansions')
            a, b = it[3], vs[0][3]
            if n == 'operator-': return ('term', I(a - b))
            return ('term', B({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[n[8:]]))
        if n == 'operator=': ev.write(l, vs[0]); return l
        if n == 'lower_bound':
            b, e, t = rv(args[0]), rv(args[1]), rv(args[2])
            key = gkey if 'Graded' in fn.q + str(fn.p) else rkey
            ts = rv(LV(b[1], b[2]).sub(('f', '_t')))[1]; k = key(ints(field(t, '_a')))
            for i in range(b[3], e[3]):
                if not key(ints(ts[i][1][0])) < k: return ('term', ('eit', b[1], b[2], i))
            return ('term', ('eit', b[1], b[2], e[3]))
        if n == 'sort' and fn.q.startswith('std::'): return sort(ev, it, fn)
        return None
    if ctor and ISEXP.match(rec):
        vs = [rv(a) for a in args]
        if vs and vs[0][0] == 'rec' and ISEXP.match(bare(vs[0][1])): return ('term', ('rec', rec, vs[0][2], None))
        if len(vs) >= 2 and vs[0][0] == 'int': return ('term', expn(rec, vs[0][1], s.num(vs[1]), ()))
        return None
    if it is not None and it[0] == 'rec' and ISEXP.match(bare(it[1])) and this is not None:
        lt = this.sub(('f', '_t')); ts = rv(lt)[1]
        if n in ('begin', 'end'): return ('term', ('eit', this.cell, this.path, 0 if n == 'begin' else len(ts)))
        if n in ('size', 'number_of_terms', 'number_of_nonzeros'): return ('term', I(len(ts)))
        if n == 'empty': return ('term', B(not ts))
        if n == 'capacity': return ('term', I(1 << 20))
        if n in ('reserve', 'remove_zeros'): return V
        if n == 'argument_size': return ('term', field(it, '_as'))
        if n == 'zero_coefficient': return this.sub(('f', '_zero'))
        if n == 'clear': ev.write(lt, ('arr', ())); return V
        if n == 'append' and len(args) == 2:
            k = rv(args[0])
            if k[0] != 'arr' or any(x[0] != 'int' for x in k[1]): raise Unsupported('the index of a term')
            if len(k[1]) != field(it, '_as')[1]: raise Throw(('the index of a term has the wrong length', k))
            ev.write(lt, ('arr', ts + (('arr', (k, s.num(rv(args[1])))),))); return V
        if n == 'resize':
            k = rv(args[0])
            if k[0] == 'int' and k[1] <= len(ts): ev.write(lt, ('arr', ts[:k[1]])); return V
            raise Unsupported('an expansion is enlarged')
        if n == 'operator=': v = rv(args[0]); ev.write(this, ('rec', it[1], v[2], None)); return this
        if n in ('sort', 'index_sort', 'graded_sort', 'reverse_lexicographic_sort'): return sort(ev, ('eit', this.cell, this.path, 0), fn)
    return None


def sort(ev, it, fn):
    lt = LV(it[1], it[2]).sub(('f', '_t')); ts = ev.rv(lt)[1]
    key = gkey if 'raded' in fn.q + str(fn.p) else rkey
    ev.write(lt, ('arr', tuple(sorted(ts, key=lambda t: key(ints(t[1][0]))))))
    return ('term', ('void',))
def nop_sum(ev, k):
    if any(x[0] != 'int' for x in k): raise Unsupported('the degree of an index')
    return I(sum(x[1] for x in k))


# ----------------------------------------------------------------------------------------------------- power series
def q(f):
    def g(*a):
        try: return f(*a)
        except (ZeroDivisionError, ValueError, OverflowError): raise Pre()
    return g
def smul(a, b): n = min(len(a), len(b)); return [sum((a[i] * b[k - i] for i in range(k + 1)), Q(0)) for k in range(n)]
def sadd(a, b): return [x + y for x, y in zip(a, b)]
def ssub(a, b): return [x - y for x, y in zip(a, b)]
def sscale(a, c): return [x * c for x in a]
def srec(a):
    if a[0] == 0: raise Pre()
    r = [1 / a[0]]
    for k in range(1, len(a)): r.append(-sum(a[i] * r[k - i] for i in range(1, k + 1)) / a[0])
    return r
def sint(a, c): return [c] + [x / (k + 1) for k, x in enumerate(a)]
def comp(f, u):
    """f: Taylor coefficients at u[0]; the series of f(u)"""
    n = min(len(f), len(u)); w = [Q(0)] + list(u[1:n]); r = [f[n - 1]] + [Q(0)] * (n - 1)
    for k in range(n - 2, -1, -1): r = smul(r, w); r[0] = r[0] + f[k]
    return r
def binom(a, k):
    r = Q(1)
    for i in range(k): r = r * (a - i) / (i + 1)
    return r
@q
def T(op, c, n):
    """Taylor coefficients of op at c up to degree n"""
    z = [Q(0)] * (n + 1)
    if op == 'nul': return z
    if op in ('pos', 'neg', 'hlf'): k = {'pos': Q(1), 'neg': Q(-1), 'hlf': Q(1, 2)}[op]; return ([k * c, k] + z)[:n + 1]
    if op == 'sqr': return ([c * c, 2 * c, Q(1)] + z)[:n + 1]
    if op == 'rec': return [(-1) ** k / c ** (k + 1) for k in range(n + 1)]
    if op == 'sqrt':
        if c <= 0: raise Pre()
        r = SEMQ('sqrt', [c]); return [binom(Q(1, 2), k) * r / c ** k for k in range(n + 1)]
    if op == 'exp': e = SEMQ('exp', [c]); return [e / math.factorial(k) for k in range(n + 1)]
    if op == 'log':
        if c <= 0: raise Pre()
        return [SEMQ('log', [c])] + [(-1) ** (k - 1) / (k * c ** k) for k in range(1, n + 1)]
    s, o = math.sin(c), math.cos(c)
    if op == 'sin': return [(s, o, -s, -o)[k % 4] / math.factorial(k) for k in range(n + 1)]
    if op == 'cos': return [(o, -s, -o, s)[k % 4] / math.factorial(k) for k in range(n + 1)]
    if op == 'tan': return smul(T('sin', c, n), srec(T('cos', c, n)))
    x = ([c, Q(1)] + z)[:n + 1]
    if op == 'atan': return sint(srec(sadd([Q(1)] + z[1:], smul(x, x))), math.atan(c))[:n + 1]
    if op in ('asin', 'acos'):
        d = ssub([Q(1)] + z[1:], smul(x, x))
        if d[0] <= 0: raise Pre()
        d = comp(T('sqrt', d[0], n), d); d = srec(d)
        return sint(d, math.asin(c))[:n + 1] if op == 'asin' else sint([-y for y in d], math.acos(c))[:n + 1]
    raise KeyError(op)
def spow(a, n):
    if n < 0: return srec(spow(a, -n))
    r = [Q(1)] + [Q(0)] * (len(a) - 1)
    for _ in range(n): r = smul(r, a)
    return r


# ---------------------------------------------------------------------------------- jets in several variables, degree 2
class Jet:
    """the coefficients of a polynomial in n variables up to degree d, by multi-index"""
    def __init__(s, n, d, c): s.n, s.d, s.c = n, d, {k: v for k, v in c.items() if sum(k) <= d}
    def __getitem__(s, k): return s.c.get(k, Q(0))
    def idx(s): return [k for k in itertools.product(range(s.d + 1), repeat=s.n) if sum(k) <= s.d]
    def __eq__(s, o): return isinstance(o, Jet) and s.n == o.n and s.d == o.d and all(near(s[k], o[k]) for k in set(s.c) | set(o.c))
    def __repr__(s): return '{deg=%d %s}' % (s.d, ', '.join('%s:%s' % (''.join(map(str, k)), v) for k, v in sorted(s.c.items(), key=lambda x: (sum(x[0]), [-y for y in x[0]]))))
    def lift(s, f): return Jet(s.n, s.d, {k: f(s[k]) for k in s.idx()})
def jc(n, d, c): return Jet(n, d, {(0,) * n: c})
def jlin(a, b, x, y): d = min(a.d, b.d); r = Jet(a.n, d, {}); r.c = {k: x * a[k] + y * b[k] for k in r.idx()}; return r
def jmul(a, b):
    d = min(a.d, b.d); c = {}
    for k, x in a.c.items():
        for l, y in b.c.items():
            if sum(k) + sum(l) <= d: m = tuple(i + j for i, j in zip(k, l)); c[m] = c.get(m, Q(0)) + x * y
    return Jet(a.n, d, c)
def jval(a): return a[(0,) * a.n]
def jcomp(f, a):
    d = min(len(f) - 1, a.d); w = Jet(a.n, d, dict(a.c)); w.c[(0,) * a.n] = Q(0)
    r = jc(a.n, d, f[d])
    for k in range(d - 1, -1, -1): r = jlin(jmul(r, w), jc(a.n, d, f[k]), 1, 1)
    return r
def jun(op, a): return jcomp(T(op, jval(a), a.d), a)
def jpow(a, n):
    if n < 0: return jun('rec', jpow(a, -n))
    r = jc(a.n, a.d, Q(1))
    for _ in range(n): r = jmul(r, a)
    return r
def unit(n, j): return tuple(int(i == j) for i in range(n))
def jder(a, j): return Jet(a.n, max(a.d - 1, 0), {tuple(x - int(i == j) for i, x in enumerate(k)): v * k[j] for k, v in a.c.items() if k[j] > 0})
def jint(a, j): return Jet(a.n, a.d + 1, {tuple(x + int(i == j) for i, x in enumerate(k)): v / (k[j] + 1) for k, v in a.c.items()})
def jcompv(a, v):
    """a composed with the vector v, both read as expansions about the value of v"""
    d = min([a.d] + [x.d for x in v]); n = v[0].n; r = jc(n, d, Q(0))
    w = [Jet(n, d, {k: y for k, y in x.c.items() if sum(k)}) for x in v]
    for k, x in a.c.items():
        t = jc(n, d, x)
        for i, e in enumerate(k):
            for _ in range(e): t = jmul(t, w[i])
        r = jlin(r, t, 1, 1)
    return r
def grad(a): return [a[unit(a.n, j)] for j in range(a.n)]
def hess(a, half):
    if a.d < 2: raise Pre()
    h = [[a[tuple(x + y for x, y in zip(unit(a.n, i), unit(a.n, j)))] * (1 if i == j else Q(1, 2)) * (1 if half else 2) for j in range(a.n)] for i in range(a.n)]
    return Mx(a.n, a.n, h)


# -------------------------------------------------------------------------------------------------------- values
def rec_(ty, **fs): return ('rec', bare(ty), tuple(fs.items()), None)
def inner(t): return re.sub(r'^[\w:]+<(.*)>$', r'\1', bare(t))
def num(n): return ('num', n)


def mk(t, n, d):
    """an argument of type t named n with shape d"""
    b = bare(t); X = inner(b)
    if b.startswith(A + 'UnivariateDifferential<'): return rec_(b, _ary=('arr', tuple(num('%s%d' % (n, i)) for i in range(d + 1))))
    if b.startswith(A + 'UnivariateFirstDifferential<'): return rec_(b, _value=num(n + '0'), _gradient=num(n + '1'))
    if b.startswith(A + 'UnivariateSecondDifferential<'): return rec_(b, _value=num(n + '0'), _gradient=num(n + '1'), _half_hessian=num(n + '2'))
    if b.startswith(A + 'FirstDifferential<'): return rec_(b, _value=num(n + '0'), _gradient=linrun.mk('U', A + 'Covector<%s>' % X, n + 'g', d))
    if b.startswith(A + 'SecondDifferential<'): return rec_(b, _value=num(n + '0'), _gradient=linrun.mk('U', A + 'Covector<%s>' % X, n + 'g', d), _half_hessian=linrun.mk('S', A + 'Matrix<%s>' % X, n + 'h', d))
    if b.startswith(A + 'Differential<'): return dif(b, n, *d)
    if b.startswith(A + 'Vector<' + A + 'Differential<'):
        X = inner(b)
        return rec_(b, _chars=rec_(A + 'DifferentialCharacteristics<%s>' % inner(X), _argument_size=I(d[1]), _degree=I(d[2]), _zero_coefficient=I(0)), _ary=('arr', tuple(dif(X, '%s%d_' % (n, i), *d[1:]) for i in range(d[0]))))
    if b.startswith(A + 'Graded<'): return ('arr', tuple(num('%s%d' % (n, i)) for i in range(d + 1)))
    if b.startswith((A + 'Vector<', A + 'Covector<')): return linrun.mk('V', b, n, d)
    if b.startswith(A + 'Matrix<'): return linrun.mk('M', b, n, d)
    if b in ('int', 'unsigned int', 'unsigned short', 'unsigned long', A + 'DegreeType', A + 'SizeType', A + 'Int', A + 'Nat'): return I(d)
    return num(n)


def allidx(n, d): return sorted((k for k in itertools.product(range(d + 1), repeat=n) if sum(k) <= d), key=gkey)
def dif(ty, n, nv, d, sel=None):
    """nv arguments, degree d, and the terms whose place in the list of all of them sel accepts"""
    ks = [k for i, k in enumerate(allidx(nv, d)) if sel is None or sel(i)]
    return rec_(ty, _expansion=expn(A + 'SortedExpansion<Ariadne::MultiIndex, %s, Ariadne::GradedIndexLess>' % inner(ty), nv, I(0), [(k, num(n + ''.join(map(str, k)))) for k in ks]), _degree=I(d))


def py(m, v, pol):
    if v[0] == 'arr': return [py(m, x, pol) for x in v[1]]
    if v[0] == 'rec':
        b = bare(v[1])
        if b.startswith(A + 'UnivariateDifferential<'): return py(m, field(v, '_ary'), pol)
        if b.startswith(A + 'Differential<'):
            e = field(v, '_expansion'); ts = field(e, '_t')[1]; c = {}; last = None
            nv, d = int(m.num(field(e, '_as'))), int(m.num(field(v, '_degree')))
            for t in ts:
                k = ints(t[1][0])
                if len(k) != nv: raise Bad('a term of an expansion in %d variables has the index %s' % (nv, k))
                if sum(k) > d: raise Bad('a differential of degree %d has a term with the index %s' % (d, k))
                if last is not None and not gkey(last) < gkey(k): raise Bad('the terms are out of order: %s is followed by %s' % (last, k))
                last = k; c[k] = m.num(pol.num(t[1][1]))
            return Jet(nv, d, c)
        if b.startswith(A + 'Univariate'): return [py(m, field(v, f), pol) for f in ('_value', '_gradient', '_half_hessian')[:2 if 'First' in b else 3]]
        if b.startswith((A + 'FirstDifferential<', A + 'SecondDifferential<')):
            x, g = py(m, field(v, '_value'), pol), py(m, field(v, '_gradient'), pol); n = len(g)
            c = {(0,) * n: x}; c.update({unit(n, j): y for j, y in enumerate(g)})
            if 'First' in b: return Jet(n, 1, c)
            h = py(m, field(v, '_half_hessian'), pol)
            if (h.r, h.c) != (n, n): raise Bad('the second derivative is a %d x %d matrix' % (h.r, h.c))
            for i in range(n):
                for j in range(i + 1):
                    if not near(h.a[i][j], h.a[j][i]): raise Bad('the second derivative %s is not symmetric' % (h,))
                    c[tuple(a + e for a, e in zip(unit(n, i), unit(n, j)))] = h.a[i][j] * (1 if i == j else 2)
            return Jet(n, 2, c)
        if b.startswith(A + 'Vector<' + A) and 'ifferential' in b: return py(m, field(v, '_ary'), pol)
    return linrun.py(m, v, pol)


# -------------------------------------------------------------------------------------------------------- meanings
EVEN = lambda i: i % 2 == 0
ODD = lambda i: i % 2 == 1
NOCONST = lambda i: i > 0
NONE = lambda i: False
UN = ('pos', 'neg', 'sqr', 'rec', 'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'hlf', 'nul')
def pick(f):
    def g(a, b):
        x, y = (a[0], b[0]) if isinstance(a, list) else (jval(a), jval(b))
        if near(x, y): raise Pre()
        return a if f(x, y) else b
    return g
def sabs(a):
    if near(a[0], 0): raise Pre()
    return a if a[0] > 0 else [-x for x in a]
def jabs(a):
    if near(jval(a), 0): raise Pre()
    return a if jval(a) > 0 else a.lift(lambda x: -x)
def sc(a, c): return [c] + [Q(0)] * (len(a) - 1)
def plusc(a, c): return [a[0] + c] + list(a[1:])
S = {  # power series as lists of coefficients
    'add': sadd, 'iadd': sadd, 'sub': ssub, 'isub': ssub, 'mul': smul, 'imul': smul, 'div': lambda a, b: smul(a, srec(b)), 'idiv': lambda a, b: smul(a, srec(b)),
    'cadd': plusc, 'ciadd': plusc, 'addc': lambda c, a: plusc(a, c), 'csub': lambda a, c: plusc(a, -c), 'cisub': lambda a, c: plusc(a, -c), 'subc': lambda c, a: plusc([-x for x in a], c),
    'cmul': sscale, 'cimul': sscale, 'mulc': lambda c, a: sscale(a, c), 'cdiv': q(lambda a, c: sscale(a, 1 / c)), 'cidiv': q(lambda a, c: sscale(a, 1 / c)), 'divc': lambda c, a: sscale(srec(a), c),
    'self': lambda a: smul(a, a), 'selfdiv': lambda a: smul(a, srec(a)), 'selfadd': lambda a: sscale(a, 2), 'selfsub': lambda a: sscale(a, 0),
    'min': pick(lambda x, y: x < y), 'max': pick(lambda x, y: x > y), 'abs': sabs, 'pow': spow, 'eq': lambda a, b: all(map(near, a, b)) and len(a) == len(b), 'ne': lambda a, b: not (all(map(near, a, b)) and len(a) == len(b)),
    'compose': lambda a, b: comp(a, b), 'composeself': lambda a: comp(a, a), 'derivative': lambda a: [k * x for k, x in enumerate(a)][1:] or [Q(0)], 'antiderivative': lambda a: sint(a, Q(0)), 'antiderivativec': sint, 'antidiff': sint,
    'value': lambda a: a[0], 'gradient': lambda a: a[1], 'halfhessian': lambda a: a[2], 'hessian': lambda a: 2 * a[2], 'assign': sc, 'zero': lambda a: sscale(a, 0), 'clear': lambda a: sscale(a, 0)}
def jplus(a, c): return jlin(a, jc(a.n, a.d, c), 1, 1)
def jrec(a): return jun('rec', a)
def jx(n, d, v, j): r = jc(n, d, v); r.c[unit(n, j)] = Q(1); return Jet(n, d, r.c)
def jset(a, k, x): r = Jet(a.n, a.d, dict(a.c)); r.c[k] = x; return r
J = {
    'add': lambda a, b: jlin(a, b, 1, 1), 'sub': lambda a, b: jlin(a, b, 1, -1), 'mul': jmul, 'div': lambda a, b: jmul(a, jrec(b)), 'iadd': lambda a, b: jlin(a, b, 1, 1), 'isub': lambda a, b: jlin(a, b, 1, -1), 'imul': jmul, 'idiv': lambda a, b: jmul(a, jrec(b)),
    'cadd': jplus, 'ciadd': jplus, 'addc': lambda c, a: jplus(a, c), 'csub': lambda a, c: jplus(a, -c), 'cisub': lambda a, c: jplus(a, -c), 'subc': lambda c, a: jplus(a.lift(lambda x: -x), c),
    'cmul': lambda a, c: a.lift(lambda x: x * c), 'cimul': lambda a, c: a.lift(lambda x: x * c), 'mulc': lambda c, a: a.lift(lambda x: x * c), 'cdiv': q(lambda a, c: a.lift(lambda x: x / c)), 'cidiv': q(lambda a, c: a.lift(lambda x: x / c)), 'divc': lambda c, a: jrec(a).lift(lambda x: x * c),
    'self': lambda a: jmul(a, a), 'selfdiv': lambda a: jmul(a, jrec(a)), 'selfadd': lambda a: a.lift(lambda x: 2 * x), 'selfsub': lambda a: a.lift(lambda x: 0 * x),
    'min': pick(lambda x, y: x < y), 'max': pick(lambda x, y: x > y), 'abs': jabs, 'pow': jpow, 'eq': lambda a, b: Jet(a.n, 0, a.c) == Jet(b.n, 0, b.c) and all(near(a[k], b[k]) for k in set(a.c) | set(b.c)), 'ne': lambda a, b: not all(near(a[k], b[k]) for k in set(a.c) | set(b.c)),
    'compose': lambda f, a: jcomp(f, a), 'composev': jcompv, 'vcompose': lambda a, b: [jcompv(x, b) for x in a], 'vcomposeself': lambda a: [jcompv(x, a) for x in a],
    'value': jval, 'fvalue': jval, 'gradient': grad, 'fgradient': grad, 'halfhessian': lambda a: hess(a, True), 'hessian': lambda a: hess(a, False), 'fhessian': lambda a: hess(a, False),
    'assign': lambda a, c: jc(a.n, a.d, c), 'clear': lambda a: jc(a.n, a.d, Q(0)), 'zero': lambda a: jc(a.n, a.d, Q(0)),
    'derivative': jder, 'antiderivative': jint, 'setvalue': lambda a, c: jset(a, (0,) * a.n, c), 'setgradient': lambda a, c, j: jset(a, unit(a.n, j), c), 'setdegree': lambda a, d: Jet(a.n, d, a.c),
    'jacobian': lambda a: Mx(len(a), a[0].n, [grad(x) for x in a]), 'vvalue': lambda a: [jval(x) for x in a], 'vderivative': lambda a, k: [jder(x, k) for x in a], 'vantiderivative': lambda a, k: [jint(x, k) for x in a]}


def meaning(g, nm):
    """(shapes of the arguments, meaning)"""
    fixed = {'WFU': 1, 'WSU': 2, 'WFM': 1, 'WSM': 2}.get(g)
    m = re.match(r'^ser(?:op)?_(\w+)$', nm)
    if m:
        op = m.group(1)
        if fixed: return [(None,)], lambda c: T(op, c, fixed)
        return [(k, None) for k in (0, 1, 2, 3, 4)], lambda n, c: T(op, c, n)
    if g in ('WU', 'WG', 'WFU', 'WSU'):
        one = [(fixed,)] if fixed else [(k,) for k in ((0, 1, 2, 3, 4) if nm not in ('gradient', 'halfhessian', 'hessian') else (2, 3))]
        two = [(fixed, fixed)] if fixed else [(0, 0), (1, 1), (2, 2), (3, 3)] + ([(3, 2), (1, 3)] if g == 'WU' else [])
        if nm in UN: return one, lambda a: comp(T(nm, a[0], len(a) - 1), a)
        if nm == 'pow': return [(s[0], n) for s in one for n in (0, 1, 2, 3, 4, -1, -2)], S['pow']
        if nm in ('constant', 'constant2', 'variable', 'variable2'):
            if fixed: return [(None,)], (lambda c: sc([0] * (fixed + 1), c)) if nm == 'constant' else (lambda c: T('pos', c, fixed))
            return [(n, None) for n in ((1, 2, 3) if g == 'WG' else (0, 1, 2, 3))], (lambda n, c: sc([0] * (n + 1), c)) if nm[:3] == 'con' else (lambda n, c: T('pos', c, n))
        if nm not in S: raise Unsupported('no meaning given')
        if nm in ('add', 'sub', 'mul', 'div', 'iadd', 'isub', 'imul', 'idiv', 'min', 'max', 'eq', 'ne', 'compose'): return two if nm not in ('eq', 'ne', 'min', 'max') else [t for t in two if t[0] == t[1]], S[nm]
        return [s * 2 for s in one], S[nm]
    if g == 'WD':
        full = [(1, 0), (1, 3), (2, 2), (3, 1), (2, 1)]; spa = [(2, 2, EVEN), (2, 2, NOCONST), (1, 2, NONE), (2, 3, ODD)]
        one = [(x,) for x in full + spa]
        pairs = [((1, 3), (1, 3)), ((2, 2), (2, 2)), ((2, 1), (2, 2)), ((2, 2), (2, 1)), ((2, 2, EVEN), (2, 2, ODD)), ((2, 2, NOCONST), (2, 2)), ((1, 2), (1, 2, NONE)), ((2, 2, ODD), (2, 3, EVEN))]
        if nm in UN: return [x for x in one if x[0][:2] != (2, 3)], lambda a: jun(nm, a)
        if nm == 'pow': return [((2, 2), k) for k in (0, 1, 2, 3, 4, -1, -2)] + [((1, 3, EVEN), 3)], J['pow']
        if nm in ('add', 'sub', 'mul', 'div', 'iadd', 'isub', 'imul', 'idiv'): return pairs, J[nm]
        if nm in ('eq', 'ne', 'min', 'max'): return [p for p in pairs if p[0][:2] == p[1][:2]], J[nm]
        if nm == 'constant': return [(2, 2, None), (1, 0, None)], lambda n, d, c: jc(n, d, c)
        if nm == 'variable': return [(2, 2, None, 0), (3, 1, None, 1)], lambda n, d, c, j: jx(n, d, c, j)
        if nm == 'variables': return [(2, 2), (1, 3)], lambda d, c: [jx(len(c), d, x, j) for j, x in enumerate(c)]
        if nm == 'constants': return [(3, 1, 2), (1, 2, 2)], lambda n, d, c: [jc(n, d, x) for x in c]
        if nm == 'affine': return [(2, None, 2), (1, None, 3)], lambda d, c, u: Jet(len(u), d, {**{unit(len(u), j): x for j, x in enumerate(u)}, (0,) * len(u): c})
        if nm == 'affinev': return [(2, 2, (2, 2)), (1, 2, (2, 3)), (1, 3, (3, 2))], lambda d, c, G: [Jet(G.c, d, {**{unit(G.c, j): x for j, x in enumerate(G.a[i])}, (0,) * G.c: y}) for i, y in enumerate(c)]
        if nm == 'compose': return [(2, (2, 2)), (3, (1, 3)), (1, (2, 2)), (2, (2, 1)), (2, (2, 2, NOCONST)), (2, (1, 2, NONE))], J[nm]
        if nm == 'composev': return [((1, 2), (1, 2, 1)), ((2, 2), (2, 1, 2)), ((2, 1), (2, 2, 2)), ((1, 3, ODD), (1, 3, 1))], J[nm]
        if nm == 'vcompose': return [((2, 2, 1), (2, 1, 2)), ((1, 1, 2), (1, 2, 2))], J[nm]
        if nm == 'vcomposeself': return [((1, 1, 2),), ((2, 2, 1),)], J[nm]
        if nm in ('derivative', 'antiderivative'): return [((2, 2), 0), ((2, 2), 1), ((1, 3), 0), ((3, 1), 2), ((2, 3, ODD), 1), ((2, 1), 1), ((1, 0), 0)], J[nm]
        if nm in ('vderivative', 'vantiderivative'): return [((2, 2, 2), 1), ((1, 1, 2), 0)], J[nm]
        if nm in ('halfhessian', 'hessian'): return [((2, 2),), ((3, 2),), ((1, 3),), ((2, 2, EVEN),), ((3, 2, ODD),)], J[nm]
        if nm in ('jacobian', 'vvalue'): return [((2, 3, 1),), ((3, 2, 2),)], J[nm]
        if nm == 'setdegree': return [((2, 2), 1), ((2, 2), 3), ((1, 3), 0), ((2, 3, ODD), 2)], J[nm]
        if nm == 'setgradient': return [(x[0], None, x[0][0] - 1) for x in one if x[0][1] > 0], J[nm]
        if nm not in J: raise Unsupported('no meaning given')
        return [x * 2 if nm[0] != 'x' else x for x in one] if nm in ('gradient', 'value', 'self', 'selfdiv', 'selfadd', 'selfsub', 'clear', 'zero', 'abs') else [(x[0], None) if not nm[-1] == 'c' or nm[0] in 'c' else (None, x[0]) for x in one] if nm not in ('addc', 'subc', 'mulc', 'divc') else [(None, x[0]) for x in one], J[nm]
    one = [(1,), (2,), (3,)]
    if nm in UN: return one, lambda a: jun(nm, a)
    if nm == 'pow': return [(2, n) for n in (0, 1, 2, 3, 4, -1, -2)], J['pow']
    if g in ('WFM', 'WSM'):
        if nm == 'constant': return [(1, None), (3, None)], lambda n, c: jc(n, fixed, c)
        if nm == 'variable': return [(1, None, 0), (3, None, 1), (2, None, 0)], lambda n, c, j: jx(n, fixed, c, j)
        if nm == 'variables': return [(1,), (3,)], lambda c: [jx(len(c), fixed, x, j) for j, x in enumerate(c)]
        if nm == 'clear': return one, J['clear']
    if nm not in J: raise Unsupported('no meaning given')
    return [s * 3 for s in one], J[nm]


VALS = [Q(1), Q(2), Q(-1), Q(3), Q(1, 2), Q(-2), Q(5, 4), Q(0), Q(3, 4), Q(-1, 2), Q(1, 4), Q(1, 3)]
REFUSED = {'asin', 'acos', 'abs'}        # operations which some kinds of series refuse to do


def group(f): return re.match(r'^Ariadne::(W[A-Z]+?)[ABR]<', bare(f.rec or '')).group(1)


def functions():
    return sorted((f for f in program().bodies() if f.n.startswith('w_') and re.match(r'^Ariadne::W[A-Z]+[ABR]<', bare(f.rec or ''))), key=lambda f: f.sig())


def pyarg(m, a, sh, pol):
    if a[0] == 'int': return a[1]
    return py(m, a, pol)


def check(f, full):
    nm, g = f.n[2:], group(f)
    shapes, sem = meaning(g, nm)
    total = 0; short = 0; seen = set()
    for sh in shapes:
        args = [mk(t, 'abcdefg'[i], sh[i] if i < len(sh) else None) for i, (_, _, t) in enumerate(f.params)]
        pol = DPol(); pol.ev_class = LEv
        ps = run(program(), f, pol, args=args)
        for p in ps: seen |= p.ev.seen
        ns = []
        for a in args: names_of(a, ns)
        rnd = random.Random(7); judged = 0; poss = 0
        for k in range(full):
            env = {n: rnd.choice(VALS) for n in ns}
            if k % 5 == 0 and len(args) == 2: env = {n: env['a' + n[1:]] if 'a' + n[1:] in env else env[n] for n in env}
            if k % 3 == 0:
                for n in env:
                    if n in ('a0', 'b0', 'c0', 'a', 'b', 'c'): env[n] = rnd.choice([Q(1, 2), Q(1, 4), Q(3, 4), Q(1, 3)])
            env['#rnd'] = random.Random(k)
            m = LMod(env)
            a = [pyarg(m, v, sh, pol) for v in args]
            try: want = sem(*a)
            except Pre: want = None
            for p in ps:
                try:
                    if not m.consistent(p.facts): continue
                    if p.kind == 'throw':
                        if want is None or nm.split('_')[-1] in REFUSED: continue
                        raise Bad('%s: an exception is thrown' % desc(a))
                    if p.kind != 'ret' or want is None: continue
                    got = py(m, p.value, pol)
                except Undef: continue
                except Bad as b: raise Bad('for %s: %s' % (desc(a), b)) if not str(b).startswith('for') else b
                judged += 1
                if not eq(want, got): raise Bad('for %s: the result is %s, it should be %s' % (desc(a), sh_(got), sh_(want)))
        total += judged
        if judged < 3: short += 1
    if 2 * short > len(shapes): raise Unsupported('too few points reach a path for %d of %d shapes' % (short, len(shapes)))
    return '%d shapes, %d points, through %d functions of the library' % (len(shapes), total, len(seen))


def eq(w, g):
    if isinstance(w, Jet) or isinstance(g, Jet): return isinstance(w, Jet) and w == g
    if isinstance(w, list): return isinstance(g, list) and len(w) == len(g) and all(eq(x, y) for x, y in zip(w, g))
    return same(w, g)
def sh_(a): return '[%s]' % ', '.join(map(sh_, a)) if isinstance(a, list) else str(a)
def desc(a): return ', '.join(map(sh_, a))[:160]
where = linrun.where


def one(x):
    f, full = x
    g = where(f)
    rule = 'taylor:' + f.n[2:]
    try: v, d = 'proved', check(f, full)
    except Bad as b: v, d = 'violated', str(b.args[0])
    except Exception as e: v, d = 'undecided', '%s %s' % (type(e).__name__, str(e)[:300])
    return Ob(rule, f.sig(), g.where, v, d)


def decide(tier):
    fs = functions()
    full = 40 if tier == 'quick' else 400
    return pmap(one, [(f, full) for f in fs]), {"functions_analysed": len(fs), "functions_resolved": len(program().fns)}
