"""Linear algebra.  Every expression of tu/use_algebra.cpp is summarised over vectors and matrices of small concrete sizes
with opaque entries: the library code (expression templates, views, solvers) is executed abstractly, the entries stay
terms.  The terms of the result are compared with the operation of linear algebra, exactly, at points which satisfy the
facts of the path.  For enclosures an entry stands for an arbitrary member; anything read out of an enclosure other than
through an operation (an end, a centre, a conversion to an approximation) is an arbitrary number on the right side of it."""
import re, random, itertools, hashlib
from fractions import Fraction as Q
import prog, tus
from engine import *
from fmodel import split_args
from report import Ob, pmap
from realdom import *
import realdom
from symcheck import Bad

_P = {}
RAWSEQ = ('Array<', 'SharedArray<', 'List<', 'InitializerList<')
CLS = re.compile(r'^Ariadne::(?:Positive)?(Bounds|Ball|LowerBound|UpperBound|Error|Approximation|Rounded|Float)<')


def program():
    if 'p' not in _P: _P['p'] = prog.load(tus.tus('algebra/vector.cpp', 'algebra/matrix.cpp') + [prog.VERIF + '/tu/use_algebra.cpp'])
    return _P['p']


def cls(t):
    t = bare(t or '')
    if t.startswith(A + 'Positive<'): t = t[len(A + 'Positive<'):-1]
    m = CLS.match(t)
    return m.group(1) if m else None


class LPol(RPol):
    max_paths = 4000
    max_steps = 3000000
    def isseq(s, rec): rec = bare(rec); return rec.startswith(tuple(A + x for x in RAWSEQ)) or rec.startswith(('std::vector<', 'std::initializer_list<', 'std::array<'))
    def zero_elem(s, rec):
        m = re.match(r'^Ariadne::(?:Array|List)<(.*)>$', bare(rec))
        return I(0) if m and (isnum(m.group(1)) or m.group(1) in BUILTN) else ('uninit', rec, '')
    def conv_elem(s, ev, rec, v): return s.num(v) if s.isnumv(s.num(v)) else v
    def extra(s, ev, fn, this, args, node):
        n, rec, rv = fn.n, bare(fn.rec or ''), ev.rv
        ctor = fn.has('ctor')
        w = fn.where or ''
        if 'algebra/' in w: ev.seen.add(fn)
        ret = bare(fn.ret or '')
        if rec.startswith('std::tuple<') and ctor:
            vs = [rv(a) for a in args]
            if len(vs) == 1 and vs[0][0] == 'tup': return ('term', vs[0])
            return ('term', ('tup',) + tuple(vs))
        if n == 'make_tuple': return ('term', ('tup',) + tuple(rv(a) for a in args))
        if n in ('class_name',): return ('term', ('str', ''))
        if n in ('inf', 'infinity') and not ctor and not args: return ('term', ('flt', 'inf'))
        if ctor and rec.startswith(A + 'Array<') and len(args) == 2 and fn.params and bare(fn.params[1][2]).endswith('Uninitialised') and rv(args[0])[0] == 'int': return ('term', ('arr', (('uninit', rec, ''),) * rv(args[0])[1]))
        if rec.startswith(A + 'Array<') and n == 'operator=' and this is not None: ev.write(this, rv(args[0])); return this
        src = None
        if ctor and isnum(rec) and fn.params and args: src, dst, v = fn.params[0][2] if fn.params else '', rec, rv(args[0])
        elif not ctor and ret and isnum(ret) and this is not None and not args and isnum(rec) and n in KEEP | {'operator ' + ret, 'cast_exact'}: src, dst, v = rec, ret, rv(this)
        elif not ctor and ret and isnum(ret) and len(args) == 1 and this is None and n in ('cast_exact', 'midpoint', 'cast_approximation', 'value', 'lower', 'upper', 'cast_raw', 'approximation'): src, dst, v = fn.params[0][2] if fn.params else (fn.p or [''])[0], ret, rv(args[0])
        if src is not None:
            v = s.num(v)
            if v[0] in ('int', 'flt') and not ctor: return ('term', v)
            if s.isnumv(v) and v[0] not in ('int', 'flt'):
                cs, cd = cls(src), cls(dst)
                loose = None
                if n == 'lower' and cs in ('Bounds', 'Ball'): loose = 'dn'
                elif n == 'upper' and cs in ('Bounds', 'Ball'): loose = 'up'
                elif cs in ('Bounds', 'Ball', 'Approximation', 'LowerBound', 'UpperBound', 'Error') and cd in ('Float', 'Rounded') or cs == 'Bounds' and cd == 'Approximation': loose = 'any'
                elif cs in ('Approximation',) and cd in ('Bounds', 'Ball'): loose = 'any'
                if loose: return ('term', ('num', (loose, v)))
        if n == 'refinement' and len(args) == 2:
            a, b = s.num(rv(args[0])), s.num(rv(args[1]))
            if s.isnumv(a) and s.isnumv(b): return ('term', ('nop', 'refinement', a, b))
        return None
    def isnumv(s, v): return RPol.isnumv(s, v)


class LMod(Model):
    def _num(s, v):
        if v[0] == 'num' and isinstance(v[1], tuple):
            x = s.num(v[1][1]); h = s.delta(v[1])
            if isinstance(x, float) and x in (float('inf'), -float('inf')): return x
            return x - abs(h) if v[1][0] == 'dn' else x + abs(h) if v[1][0] == 'up' else x + h
        if v[0] == 'nop' and v[1] == 'refinement':
            a, b = s.num(v[2]), s.num(v[3])
            if not near(a, b): raise Bad('two enclosures which are intersected stand for different numbers, %s and %s' % (a, b))
            return a
        return Model._num(s, v)
    def delta(s, k):
        r = s.env.setdefault('#d', {})
        key = repr(s.num(k[1])) + k[0]
        if key not in r: r[key] = Q(s.env['#rnd'].randrange(-6, 7), 16)
        return r[key]


# -------------------------------------------------------------------------------------------------------- values
def mk(kind, ty, n, d):
    if kind == 'X': return ('num', n)
    if kind in ('Z',): return I(d)
    if kind == 'B': return B(d)
    if kind == 'P': return ('rec', bare(ty), (('_ary', ('arr', tuple(I(i) for i in d))),), None)
    if kind in ('V', 'U'): return ('rec', bare(ty), (('_ary', ('arr', tuple(('num', '%s%d' % (n, i)) for i in range(d)))),), None)
    if kind == 'M': return ('rec', bare(ty), (('_zero', I(0)), ('_rs', I(d[0])), ('_cs', I(d[1])), ('_ary', ('arr', tuple(('num', '%s%d%d' % (n, i, j)) for i in range(d[0]) for j in range(d[1]))))), None)
    if kind == 'S': return ('rec', bare(ty), (('_zero', I(0)), ('_rs', I(d)), ('_cs', I(d)), ('_ary', ('arr', tuple(('num', '%s%d%d' % (n, min(i, j), max(i, j))) for i in range(d) for j in range(d))))), None)
    raise KeyError(kind)


def kind(t):
    t = bare(t)
    for p, k in (('Vector<', 'V'), ('Covector<', 'U'), ('Matrix<', 'M'), ('PivotMatrix', 'P')):
        if t.startswith(A + p): return k
    if t in ('unsigned long', 'Ariadne::SizeType'): return 'Z'
    if t in ('bool',): return 'B'
    return 'X'


def py(m, v, pol):
    v0 = v
    if v[0] == 'tup': return tuple(py(m, x, pol) for x in v[1:])
    if v[0] == 'arr': return [py(m, x, pol) for x in v[1]]
    if v[0] == 'rec':
        b = bare(v[1])
        if b == A + 'PivotMatrix': return [int(x) for x in py(m, field(v, '_ary'), pol)]
        if b.startswith((A + 'Vector<', A + 'Covector<')): return py(m, field(v, '_ary'), pol)
        if b.startswith(A + 'Matrix<'):
            r, c, a = field(v, '_rs'), field(v, '_cs'), field(v, '_ary')
            r, c, a = int(m.num(r)), int(m.num(c)), py(m, a, pol)
            if len(a) != r * c: raise Bad('a matrix with %d rows and %d columns has %d entries' % (r, c, len(a)))
            return Mx(r, c, [a[i * c:(i + 1) * c] for i in range(r)])
    if v[0] == 'uninit': raise Bad('an entry of the result is not initialised')
    l = pol.log(v)
    if pol.islogv(l): return m.log(l)
    return m.num(pol.num(v))


class Mx:
    """a matrix over the rationals"""
    def __init__(s, r, c, a): s.r, s.c, s.a = r, c, a
    def __eq__(s, o): return isinstance(o, Mx) and (s.r, s.c) == (o.r, o.c) and all(near(x, y) for p, q in zip(s.a, o.a) for x, y in zip(p, q))
    def __repr__(s): return '[' + '; '.join(','.join(map(str, r)) for r in s.a) + ']'
def mx(a): return Mx(len(a), len(a[0]) if a else 0, a)
def mm(a, b): return Mx(a.r, b.c, [[sum((a.a[i][k] * b.a[k][j] for k in range(a.c)), Q(0)) for j in range(b.c)] for i in range(a.r)])
def tr(a): return Mx(a.c, a.r, [[a.a[i][j] for i in range(a.r)] for j in range(a.c)])
def mv(a, v): return [sum((a.a[i][k] * v[k] for k in range(a.c)), Q(0)) for i in range(a.r)]
def vm(u, a): return [sum((u[i] * a.a[i][k] for i in range(a.r)), Q(0)) for k in range(a.c)]
def mz(f, a, b): return Mx(a.r, a.c, [[f(x, y) for x, y in zip(p, q)] for p, q in zip(a.a, b.a)])
def m1(f, a): return Mx(a.r, a.c, [[f(x) for x in p] for p in a.a])
def v2(f): return lambda a, b: [f(x, y) for x, y in zip(a, b)]
def ident(n): return Mx(n, n, [[Q(int(i == j)) for j in range(n)] for i in range(n)])
def det(a):
    if a.r == 0: return Q(1)
    return sum((-1) ** j * a.a[0][j] * det(Mx(a.r - 1, a.r - 1, [[r[k] for k in range(a.c) if k != j] for r in a.a[1:]])) for j in range(a.c))
def swaps(p, a):
    rows = [list(r) for r in a.a]
    for i, k in enumerate(p): rows[i], rows[k] = rows[k], rows[i]
    return Mx(a.r, a.c, rows)
def submat(a, i, j, k, l): return Mx(j - i, l - k, [r[k:l] for r in a.a[i:j]])
add = lambda x, y: x + y
sub = lambda x, y: x - y


class Pre(Exception): pass
def nz(x):
    if x == 0: raise Pre()
    return x
def inv(a):
    if det(a) == 0: raise Pre()
    n = a.r; d = det(a)
    mn = lambda i, j: det(Mx(n - 1, n - 1, [[a.a[p][q] for q in range(n) if q != j] for p in range(n) if p != i]))
    return Mx(n, n, [[(-1) ** (i + j) * mn(j, i) / d for j in range(n)] for i in range(n)])


def setsub(a, i, j, k, l, b):
    r = [list(x) for x in a.a]
    for p in range(i, j):
        for q in range(k, l): r[p][q] = b.a[p - i][q - k]
    return Mx(a.r, a.c, r)
def setent(a, i, j, x): r = [list(y) for y in a.a]; r[i][j] = x; return Mx(a.r, a.c, r)
def setrow(a, i, u): r = [list(y) for y in a.a]; r[i] = list(u); return Mx(a.r, a.c, r)
def dg(d): return Mx(len(d), len(d), [[x if i == j else Q(0) for j in range(len(d))] for i, x in enumerate(d)])
def want_plu(a):
    def ok(g):
        P, L, U = g
        n = a.r
        if not all(near(L.a[i][j], Q(int(i == j))) for i in range(n) for j in range(i, n)): return 'the lower factor %s is not unit lower triangular' % L
        if not all(near(U.a[i][j], Q(0)) for i in range(n) for j in range(i)): return 'the upper factor %s is not upper triangular' % U
        LU = mm(L, U)
        if not (swaps(P, a) == LU or swaps(P, LU) == a): return 'the factors %s %s %s do not recombine to %s' % (P, L, U, a)
    return ok
def want_or(orthonormal, tri=True):
    def w(a):
        if a.r < a.c or det(mm(tr(a), a)) == 0: raise Pre()
        def ok(g):
            O, R = g
            if not mm(O, R) == a: return 'the factors %s and %s do not multiply to %s' % (O, R, a)
            OO = mm(tr(O), O)
            if not all(near(OO.a[i][j], Q(0)) for i in range(OO.r) for j in range(OO.c) if i != j): return 'the columns of %s are not orthogonal' % O
            if orthonormal and not all(near(OO.a[i][i], Q(1)) for i in range(OO.r)): return 'the columns of %s are not of unit length' % O
            if tri and not all(near(R.a[i][j], Q(0)) for i in range(R.r) for j in range(min(i, R.c))): return 'the second factor %s is not upper triangular' % R
        return ok
    return w
def want_qr(a, p):
    def ok(g):
        Qm, R, P = g
        c = [list(x) for x in tr(a).a]
        if p:
            for i, k in enumerate(P): c[i], c[k] = c[k], c[i]
        AP = tr(Mx(a.c, a.r, c))
        if not mm(Qm, R) == AP: return 'the factors %s and %s do not multiply to %s' % (Qm, R, AP)
        if not mm(tr(Qm), Qm) == ident(Qm.r): return '%s is not orthogonal' % Qm
        if not all(near(R.a[i][j], Q(0)) for i in range(R.r) for j in range(min(i, R.c))): return '%s is not upper triangular' % R
    return ok


D2 = [(n, n) for n in (1, 2, 3)]
MM = [((2, 2), (2, 2)), ((2, 3), (2, 3)), ((3, 1), (3, 1))]
M1 = [((2, 2),), ((2, 3),), ((3, 2),)]
SQ = [((1, 1),), ((2, 2),)]
def ltr(v): return sum(x * x for x in v)
SEM = {
    'vpos': ([(2,)], lambda v: v), 'vneg': ([(1,), (3,)], lambda v: [-x for x in v]),
    'vadd': (D2, v2(add)), 'vsub': (D2, v2(sub)), 'vsmul': ([(0, 2), (0, 3)], lambda x, v: [x * y for y in v]), 'vmuls': ([(2, 0)], lambda v, x: [y * x for y in v]),
    'vdivs': ([(2, 0)], lambda v, x: [y / nz(x) for y in v]), 'viadd': (D2, v2(add)), 'visub': (D2, v2(sub)), 'vimuls': ([(2, 0)], lambda v, x: [y * x for y in v]), 'vidivs': ([(2, 0)], lambda v, x: [y / nz(x) for y in v]),
    'vpos2': ([(2,)], lambda v: v), 'vneg2': ([(2,)], lambda v: [-x for x in v]), 'vadd2': (D2, v2(add)), 'vsub2': (D2, v2(sub)), 'vsmul2': ([(0, 2)], lambda x, v: [x * y for y in v]),
    'vmuls2': ([(2, 0)], lambda v, x: [y * x for y in v]), 'vdivs2': ([(2, 0)], lambda v, x: [y / nz(x) for y in v]),
    'dot': (D2, lambda v, w: sum((x * y for x, y in zip(v, w)), Q(0))), 'vnorm': ([(1,), (2,), (3,)], lambda v: max(map(abs, v))),
    'veq': ([(2, 2), (1, 2)], lambda v, w: v == w), 'vne': ([(2, 2), (1, 2)], lambda v, w: v != w),
    'join2': ([(2, 1), (1, 2), (2, 3)], lambda v, w: v + w), 'join3': ([(1, 2, 1), (2, 1, 2)], lambda u, v, w: u + v + w), 'join4': ([(2, 0, 1), (1, 0, 2)], lambda v, x, w: v + [x] + w),
    'join5': ([(0, 2)], lambda x, v: [x] + v), 'join6': ([(2, 0)], lambda v, x: v + [x]), 'join7': ([(2, 1, 0), (1, 2, 0)], lambda v, w, x: v + w + [x]),
    'vrange': ([(4, 1, 3), (3, 0, 2), (3, 1, 3)], lambda v, i, j: v[i:j]), 'vrange2': ([(4, 1, 3), (3, 0, 2), (3, 1, 3)], lambda v, i, j: v[i:j]), 'vcopy': ([(2,)], lambda v: v),
    'elementwise': ([(3, 0)], lambda v, x: [y + x for y in v]),
    'uneg': ([(2,)], lambda v: [-x for x in v]), 'uadd': (D2, v2(add)), 'usub': (D2, v2(sub)), 'usmul': ([(0, 2)], lambda x, v: [x * y for y in v]), 'umuls': ([(2, 0)], lambda v, x: [y * x for y in v]),
    'udivs': ([(2, 0)], lambda v, x: [y / nz(x) for y in v]), 'uiadd': (D2, v2(add)), 'uisub': (D2, v2(sub)), 'uimuls': ([(2, 0)], lambda v, x: [y * x for y in v]), 'uidivs': ([(2, 0)], lambda v, x: [y / nz(x) for y in v]),
    'umulv': (D2, lambda u, v: sum((x * y for x, y in zip(u, v)), Q(0))), 'cojoin2': ([(2, 1), (1, 2)], lambda v, w: v + w), 'cojoin5': ([(0, 2)], lambda x, v: [x] + v), 'cojoin6': ([(2, 0)], lambda v, x: v + [x]),
    'urange': ([(4, 1, 3), (3, 0, 2)], lambda v, i, j: v[i:j]), 'transpose_v': ([(2,)], lambda v: v), 'transpose_u': ([(2,)], lambda v: v),
    'mneg': (M1, lambda a: m1(lambda x: -x, a)), 'mpos': (M1, lambda a: a), 'madd': (MM, lambda a, b: mz(add, a, b)), 'msub': (MM, lambda a, b: mz(sub, a, b)),
    'msmul': ([(0, (2, 3)), (0, (3, 2))], lambda x, a: m1(lambda y: x * y, a)), 'mmuls': ([((2, 3), 0), ((3, 2), 0)], lambda a, x: m1(lambda y: x * y, a)), 'mdivs': ([((2, 3), 0)], lambda a, x: m1(lambda y: y / nz(x), a)),
    'miadd': (MM, lambda a, b: mz(add, a, b)), 'misub': (MM, lambda a, b: mz(sub, a, b)), 'mimuls': ([((2, 3), 0)], lambda a, x: m1(lambda y: x * y, a)), 'midivs': ([((2, 3), 0)], lambda a, x: m1(lambda y: y / nz(x), a)),
    'mmul': ([((2, 3), (3, 2)), ((3, 2), (2, 1)), ((1, 2), (2, 3)), ((2, 2), (2, 2))], mm), 'mmulv': ([((2, 3), 3), ((3, 2), 2)], mv), 'umulm': ([(2, (2, 3)), (3, (3, 2))], vm), 'mtr': (M1, tr),
    'mmultr': ([((2, 3), (2, 3)), ((3, 2), (1, 2))], lambda a, b: mm(a, tr(b))), 'mtrmul': ([((2, 3), (2, 3)), ((2, 3), (2, 1))], lambda a, b: mm(tr(a), b)), 'mtrmulv': ([((2, 3), 2), ((3, 2), 3)], lambda a, v: mv(tr(a), v)),
    'mcolumn': ([((2, 3), 0), ((2, 3), 2), ((3, 2), 1)], lambda a, j: [r[j] for r in a.a]), 'mrow': ([((2, 3), 1), ((3, 2), 2)], lambda a, i: a.a[i]), 'mrow2': ([((2, 3), 1), ((3, 2), 2)], lambda a, i: a.a[i]),
    'mrange': ([((3, 3), 1, 3, 0, 2), ((3, 4), 0, 2, 1, 4)], submat), 'mrange2': ([((3, 3), 1, 3, 0, 2), ((3, 4), 0, 2, 1, 4)], submat), 'mrangecolumn': ([((3, 4), 1, 3, 2), ((3, 2), 0, 2, 1)], lambda a, i, j, k: [r[k] for r in a.a[i:j]]),
    'mrowrange': ([((2, 4), 1, 1, 3), ((3, 2), 2, 0, 2)], lambda a, i, k, l: a.a[i][k:l]), 'msetrange': ([((3, 4), 1, 3, 1, 4, (2, 3)), ((3, 2), 0, 2, 1, 2, (2, 1))], setsub), 'msetrow': ([((2, 3), 1, 3), ((3, 2), 0, 2)], setrow),
    'mset': ([((2, 3), 1, 2, 0), ((3, 2), 2, 0, 0)], setent), 'msetat': ([((2, 3), 1, 2, 0), ((3, 2), 2, 0, 0)], setent), 'mget': ([((2, 3), 1, 2), ((3, 2), 2, 0)], lambda a, i, j: a.a[i][j]), 'mgetat': ([((2, 3), 1, 2), ((3, 2), 2, 0)], lambda a, i, j: a.a[i][j]),
    'mzero': ([(2, 3, 0)], lambda m, n, x: Mx(m, n, [[Q(0)] * n for _ in range(m)])), 'midentity': ([(2, 0), (3, 0)], lambda n, x: ident(n)), 'meq': ([((2, 2), (2, 2)), ((1, 2), (2, 1)), ((2, 1), (2, 2))], lambda a, b: a == b),
    'mjoin': ([((2, 2), (1, 2)), ((1, 3), (2, 3))], lambda a, b: Mx(a.r + b.r, a.c, a.a + b.a)), 'mjoinu': ([((2, 3), 3), ((1, 2), 2)], lambda a, u: Mx(a.r + 1, a.c, a.a + [u])), 'ujoinm': ([(3, (2, 3)), (2, (1, 2))], lambda u, a: Mx(a.r + 1, a.c, [u] + a.a)),
    'mcojoin': ([((2, 2), (2, 1)), ((3, 1), (3, 2))], lambda a, b: Mx(a.r, a.c + b.c, [x + y for x, y in zip(a.a, b.a)])), 'mcojoinv': ([((2, 3), 2), ((3, 1), 3)], lambda a, v: Mx(a.r, a.c + 1, [x + [y] for x, y in zip(a.a, v)])),
    'vcojoinm': ([(2, (2, 3)), (3, (3, 1))], lambda v, a: Mx(a.r, a.c + 1, [[y] + x for x, y in zip(a.a, v)])), 'mnorm': ([((2, 2),), ((2, 3),), ((3, 2),)], lambda a: max(sum(map(abs, r)) for r in a.a)),
    'inverse': (SQ + [((3, 3),)], inv), 'lu_inverse': (SQ + [((3, 3),)], inv), 'gs_inverse': (SQ, inv),
    'solve': ([((2, 2), (2, 1)), ((2, 2), (2, 2)), ((1, 1), (1, 2))], lambda a, b: mm(inv(a), b)), 'solvev': ([((1, 1), 1), ((2, 2), 2), ((3, 3), 3)], lambda a, b: mv(inv(a), b)),
    'lu_solve': ([((2, 2), (2, 1)), ((2, 2), (2, 2))], lambda a, b: mm(inv(a), b)), 'lu_solvev': ([((1, 1), 1), ((2, 2), 2)], lambda a, b: mv(inv(a), b)),
    'gs_solve': ([((2, 2), (2, 1)), ((2, 2), (2, 2)), ((1, 1), (1, 2))], lambda a, b: mm(inv(a), b)), 'gs_solvev': ([((1, 1), 1), ((2, 2), 2)], lambda a, b: mv(inv(a), b)),
    'pivot': ([((1, 1), (2, 2)), ((0, 1), (2, 3)), ((2, 2, 2), (3, 2)), ((1, 2, 2), (3, 2)), ((1, 1, 2), (3, 1))], lambda p, a: swaps(p, a)), 'pivotm': ([((1, 1),), ((1, 2, 2),), ((2, 1, 2),)], lambda p: swaps(p, ident(len(p)))),
    'sup_norm': ([((2, 2),), ((2, 3),), ((3, 2),)], lambda a: max(sum(map(abs, r)) for r in a.a)), 'log_norm': ([((1, 1),), ((2, 2),), ((3, 3),)], lambda a: max(a.a[i][i] + sum(abs(a.a[i][j]) for j in range(a.c) if j != i) for i in range(a.r))),
    'vsup_norm': ([(1,), (3,)], lambda v: max(map(abs, v))), 'vtwo_norm': ([(1,), (3,)], lambda v: SEMQ('sqrt', [ltr(v)])),
    'plu': (SQ + [((3, 3),)], want_plu), 'orth': ([((1, 1),), ((2, 2),), ((3, 2),)], want_or(False)), 'gram': ([((1, 1),), ((2, 2),), ((3, 3),)], want_or(True)), 'qr': ([((2, 2), False), ((2, 2), True), ((1, 1), True), ((2, 3), True)], want_qr),
    'row_norms': ([((2, 2),), ((2, 3),)], lambda a: [sum(map(abs, r)) for r in a.a]),
    'sadd': ([(1, 1), (2, 2)], lambda a, b: mz(add, a, b)), 'ssub': ([(2, 2)], lambda a, b: mz(sub, a, b)), 'ssmul': ([(0, 2)], lambda x, a: m1(lambda y: x * y, a)), 'smuls': ([(2, 0)], lambda a, x: m1(lambda y: x * y, a)), 'sdivs': ([(2, 0)], lambda a, x: m1(lambda y: y / nz(x), a)),
    'sm': ([(2,), (3,)], lambda a: a), 'outer': ([((2, 2),), ((3, 2),)], lambda a: mm(tr(a), a)), 'symmetrize': ([((2, 2),), ((3, 3),)], lambda a: m1(lambda x: x / 2, mz(add, a, tr(a)))),

    'dm': ([(2,)], lambda d: dg(d)), 'dneg': ([(2,)], lambda d: dg([-x for x in d])), 'dadd': ([(2, 2)], lambda d, e: mz(add, dg(d), dg(e))), 'dsub': ([(2, 2)], lambda d, e: mz(sub, dg(d), dg(e))),
    'dmul': ([(2, 2)], lambda d, e: mm(dg(d), dg(e))), 'ddiv': ([(2, 2)], lambda d, e: mm(dg(d), inv(dg(e)))), 'dsmul': ([(0, 2)], lambda x, d: dg([x * y for y in d])), 'dmuls': ([(2, 0)], lambda d, x: dg([x * y for y in d])),
    'ddivs': ([(2, 0)], lambda d, x: dg([y / nz(x) for y in d])), 'dinv': ([(2,)], lambda d: inv(dg(d))), 'madddiag': ([((2, 2), 2)], lambda a, d: mz(add, a, dg(d))), 'daddm': ([(2, (2, 2))], lambda d, a: mz(add, dg(d), a)),
    'msubd': ([((2, 2), 2)], lambda a, d: mz(sub, a, dg(d))), 'dsubm': ([(2, (2, 2)), (3, (3, 3))], lambda d, a: mz(sub, dg(d), a)), 'mmuld': ([((2, 3), 3), ((3, 2), 2)], lambda a, d: mm(a, dg(d))), 'dmulm': ([(2, (2, 3)), (3, (3, 2))], lambda d, a: mm(dg(d), a)),
    'dmultr': ([(2, (3, 2)), (2, (2, 2))], lambda d, a: mm(dg(d), tr(a))), 'dmulv': ([(2, 2)], v2(lambda x, y: x * y)), 'vmuld': ([(2, 2)], v2(lambda x, y: x * y)), 'vdivd': ([(2, 2)], v2(lambda x, y: x / nz(y))),
    'ueq': ([(2, 2), (1, 2), (2, 1)], lambda u, v: u == v), 'vgen': ([(3, 3), (3, 2)], lambda v, n: v[::-1][:n]), 'mgen': ([((2, 3), 3, 2)], lambda a, m, n: tr(a)), 'vfill': ([(3, 0)], lambda n, x: [x] * n), 'mfill': ([(2, 3, 0)], lambda m, n, x: Mx(m, n, [[x] * n] * m)),
    'mptr': ([((2, 3),), ((3, 2),)], lambda a: a), 'vunit': ([(3, 1, 0), (2, 0, 0)], lambda n, i, x: [Q(int(j == i)) for j in range(n)]), 'mtrtr': ([((2, 3), (2, 2)), ((3, 2), (1, 3))], lambda a, b: mm(tr(a), tr(b))), 'umultr': ([(3, (2, 3)), (2, (3, 2))], lambda u, a: vm(u, tr(a))),
    'mexpr': ([((2, 3), (2, 3), 0)], lambda a, b, x: mz(add, a, m1(lambda y: x * y, b))), 'mchain': ([((1, 2), (2, 3), (3, 2))], lambda a, b, c: mm(mm(a, b), c)), 'mchainv': ([((1, 2), (2, 3), 3)], lambda a, b, v: mv(mm(a, b), v)),
    'vexpr': ([(2, 2, 0)], lambda v, w, x: [p + x * q for p, q in zip(v, w)]), 'vexpr2': ([(2, 2, 0)], lambda v, w, x: [p - q / nz(x) for p, q in zip(v, w)]), 'uexpr': ([(2, 2, 0)], lambda v, w, x: [p - q / nz(x) for p, q in zip(v, w)]),
    'mresize': ([((2, 3), 3, 2), ((2, 3), 1, 2), ((2, 2), 3, 3)], lambda a, m, n: (lambda g: None if isinstance(g, Mx) and (g.r, g.c) == (m, n) else 'the size is %d by %d' % (g.r, g.c))), 'vresize': ([(2, 3), (3, 1)], lambda v, n: (v + [Q(0)] * n)[:n]),
    'vset': ([(3, 1, 0)], lambda v, i, x: v[:i] + [x] + v[i + 1:]), 'vsetat': ([(3, 2, 0)], lambda v, i, x: v[:i] + [x] + v[i + 1:]), 'vaddtr': ([(2, 2)], v2(add)), 'vcomp': ([(2, 2)], v2(lambda x, y: x * y - y)),
}
VALS = [Q(0), Q(1), Q(-1), Q(2), Q(-2), Q(3), Q(1, 2), Q(-3, 2), Q(5), Q(-4), Q(7, 3)]


def functions():
    return sorted((f for f in program().bodies() if f.n.startswith('w_') and re.match(r'^Ariadne::W[A-Z]?<', bare(f.rec or ''))), key=lambda f: f.sig())


class LEv(Ev):
    def __init__(s, *a): Ev.__init__(s, *a); s.seen = set()


def names_of(v, r):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'num' and isinstance(v[1], str): r.append(v[1])
        else:
            for x in v: names_of(x, r)


def check(f, full):
    nm = f.n[2:]
    if nm == 'gs_step': return check_step(f, full)
    if nm not in SEM: raise Unsupported('no meaning given')
    shapes, sem = SEM[nm]
    ks = [kind(t) for _, _, t in f.params]
    if nm in SYM: ks = ['S' if k == 'M' else k for k in ks]
    total = 0; short = 0; seen = set()
    for sh in shapes:
        args = [mk(k, f.params[i][2], 'abcdefg'[i], sh[i]) for i, k in enumerate(ks)]
        pol = LPol(); pol.ev_class = LEv
        ps = run(program(), f, pol, args=args)
        for q in ps: seen |= q.ev.seen
        ns = []
        for a in args: names_of(a, ns)
        rnd = random.Random(7); judged = 0
        for k in range(full):
            env = {n: rnd.choice(VALS) for n in ns}
            if k % 5 == 0 and len(set(ks)) == 1 and len(ks) == 2: env = {n: env['a' + n[1:]] if 'a' + n[1:] in env else env[n] for n in env}      # equal operands
            env['#rnd'] = random.Random(k)
            m = LMod(env)
            a = [py(m, v, pol) if kk not in 'ZBP' else (v[1] if kk != 'P' else list(sh[i])) for i, (kk, v) in enumerate(zip(ks, args))]
            try: want = sem(*a)
            except Pre: want = None
            for q in ps:
                try:
                    if not m.consistent(q.facts): continue
                    if q.kind == 'throw':
                        if want is None or nm in PART: continue
                        raise Bad('%s: an exception is thrown' % desc(a))
                    if q.kind != 'ret' or want is None: continue
                    got = py(m, q.value, pol)
                except Undef: continue
                except Bad as b: raise Bad('for %s: %s' % (desc(a), b)) if not str(b).startswith('for') else b
                judged += 1
                if callable(want): e = want(got)
                else: e = None if same(want, got) else 'the result is %s, it should be %s' % (got, want)
                if e: raise Bad('for %s: %s' % (desc(a), e), trace(q))
        total += judged
        if judged < 3: short += 1
    if short: raise Unsupported('too few points reach a path for %d of %d shapes' % (short, len(shapes)))
    return '%d shapes, %d points, through %d functions of the library' % (len(shapes), total, len(seen))


SYM = {'sadd', 'ssub', 'ssmul', 'smuls', 'sdivs', 'sm'}      # operands are symmetric
PART = {'orth', 'gram', 'plu'}
def desc(a): return ', '.join(map(str, a))[:160]
def trace(q): return ''


def same(w, g):
    if isinstance(w, Mx) or isinstance(g, Mx): return isinstance(w, Mx) and isinstance(g, Mx) and w == g
    if isinstance(w, list): return isinstance(g, list) and len(w) == len(g) and all(near(x, y) for x, y in zip(w, g))
    if isinstance(w, bool): return w == g
    return not isinstance(g, (list, tuple)) and near(w, g)


def check_step(f, full):
    total = 0
    for n in (1, 2, 3):
        args = [mk('M', f.params[0][2], 'a', (n, n)), mk('V', f.params[1][2], 'b', n), mk('V', f.params[2][2], 'c', n)]
        pol = LPol(); pol.ev_class = LEv
        ps = run(program(), f, pol, args=args)
        rnd = random.Random(3); judged = 0
        for k in range(full):
            env = {'a%d%d' % (i, j): rnd.choice(VALS) for i in range(n) for j in range(n)}
            x = [rnd.choice(VALS) for _ in range(n)]
            for i in range(n):
                env['b%d' % i] = sum(env['a%d%d' % (i, j)] * x[j] for j in range(n)); env['c%d' % i] = x[i]
            env['#rnd'] = random.Random(k); m = LMod(env)
            for q in ps:
                try:
                    if not m.consistent(q.facts) or q.kind != 'ret': continue
                    got = py(m, q.value, pol)
                except Undef: continue
                judged += 1
                if not same(x, got): raise Bad('with %s the solution %s becomes %s' % ({k: str(v) for k, v in env.items() if k[0] in 'ab'}, x, got))
        if judged < 3: raise Unsupported('too few points')
        total += judged
    return '%d points' % total


def where(f):
    """the library function a wrapper calls first"""
    for t in prog.walk(f.body):
        if t and t[0] in ('call', 'mcall', 'ctor') and len(t) > 1 and hasattr(t[1], 'where') and 'algebra/' in (t[1].where or ''): return t[1]
    return f


def one(x):
    f, full = x
    g = where(f)
    rule = 'algebra:' + f.n[2:]
    key = re.sub(r'^Ariadne::', '', f.sig())
    try: v, d = 'proved', check(f, full)
    except Bad as b: v, d = 'violated', str(b.args[0])
    except Exception as e: v, d = 'undecided', '%s %s' % (type(e).__name__, str(e)[:300])
    return Ob(rule, f.sig(), g.where, v, d)


def decide(tier):
    fs = functions()
    full = 60 if tier == 'quick' else 600
    return pmap(one, [(f, full) for f in fs]), {"functions_analysed": len(fs), "functions_resolved": len(program().fns)}
