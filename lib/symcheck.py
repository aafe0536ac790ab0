"""Judgements over symbolic expressions and formulae (see symrun)."""
import os, re, random, itertools
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import prog, tus
from engine import *
from fmodel import bare
from report import Ob, pmap
from symrun import *

ET = A + 'Expression<'; FT = A + 'Formula<'
TUS = ('function/formula.cpp', 'symbolic/expression.cpp')
REALV = ('variable', 'var', A + 'Variable<Ariadne::Real>')
_P = {}


def program():
    if 'p' not in _P:
        _P['p'] = prog.load(tus.tus(*TUS) + [VERIF + '/tu/use_formula.cpp']); _P['c'] = Cat(_P['p'])
    return _P['p'], _P['c']


def p0(f, k=0): return bare(f.params[k][2]) if len(f.params) > k else ''
def find(n, pred):
    p, c = program()
    return [f for f in p.bodies() if f.n == n and not f.q.startswith('std::') and pred(f)]


def verdict(paths, judge):
    """worst verdict over paths; judge(p) -> (None|'why undecided', points) or raises Bad"""
    und = None; n = 0; np = 0
    for p in paths:
        np += 1
        try: u, k = judge(p)
        except Bad as b: return 'violated', str(b)
        n += k
        if u: und = u
    if und: return 'undecided', und
    return 'proved', '%d paths, %d points' % (np, n)


class Bad(Exception): pass


def same_value(cat, pol, paths, label, want, throws=lambda p: False, min_points=3):
    """every path returns a tree or number equal to want(m) wherever that is defined"""
    def judge(p):
        if p.kind == 'throw':
            if throws(p): return None, 0
            raise Bad('%s is refused (%s)' % (label, show(p.value)[:60]))
        k = 0; tried = 0
        for m in trials(pol, p, 1200):
            tried += 1
            if k >= 120 or tried >= 300 and (k >= 3 or not k): break
            try: w = want(m); g = m.any(p.value) if w is not None else None
            except Reject: tried -= 1; continue
            if w is None: continue
            k += 1
            if not close(w, g): raise Bad('%s: with %s the result is %s, it should be %s; result %s' % (label, envs(m), g, w, draw(p.value)[:160]))
        if not tried: return None, 0          # no assignment reaches this path
        if not k and tried >= 60: return None, 0          # the original has no value on this path
        if k < min_points: return 'only %d sample points reach a path' % k, k
        return None, k
    return verdict(paths, judge)


# ------------------------------------------------------------------------------------------------ derivative
def jobs_derivative():
    p, c = program()
    out = []
    fs = [f for f in p.bodies() if (f.n == '_derivative' and (f.rec or '').startswith(FT)) or (f.n == 'derivative' and f.tq == A + 'derivative' and len(f.params) == 2 and p0(f) == ET + 'Ariadne::Real>')]
    for f in fs:
        ty = f.rec if f.has('meth') else p0(f)
        for inp in inputs(c, ty): out.append((f, ty) + inp)
    return out


def run_derivative(j):
    f, ty, l, alt, op, node, pl = j
    p, c = program()
    return judge_derivative(c, f, ty, l, alt, op, node, pl)


# ------------------------------------------------------------------------------------------------ value-preserving rewrites
def jobs_simplify():
    p, c = program()
    return [(f, p0(f)) + i for f in find('simplify', lambda f: len(f.params) == 1 and is_tree(p0(f)) and 'Vector<' not in p0(f)) for i in inputs(c, p0(f))]


def run_simplify(j):
    f, ty, l, alt, op, node, pl = j
    p, c = program(); pol = SPol(c, hypotheses)
    return same_value(c, pol, run(p, f, pol, args=[tree(ty, node)]), 'simplify ' + l, lambda m: m.payval(alt, pl))


def jobs_cse():
    p, c = program()
    return [(f, p0(f)) + i for f in find('eliminate_common_subexpressions', lambda f: len(f.params) == 1 and (f.rec or '').startswith(A + 'CommonSubroutineEliminator<')) for i in inputs(c, p0(f))]


def run_cse(j):
    f, ty, l, alt, op, node, pl = j
    p, c = program(); pol = SPol(c, hypotheses)
    this = ('rec', f.rec, (('_cache', ('exprset', 'cache')),), None)
    return same_value(c, pol, run(p, f, pol, this=this, args=[tree(ty, node)]), 'common subexpressions of ' + l, lambda m: m.payval(alt, pl))


def jobs_substitute():
    p, c = program()
    out = []
    for f in find('substitute', lambda f: len(f.params) == 3 and is_tree(p0(f)) and is_tree(p0(f, 2)) and 'Vector<' not in p0(f)):
        for i in inputs(c, p0(f)): out.append((f, p0(f)) + i)
    return out


def run_substitute(j):
    f, ty, l, alt, op, node, pl = j
    p, c = program(); pol = SPol(c, hypotheses)
    vt = p0(f, 1)
    var = ('variable', 'var', vt) if vt.startswith(A + 'Variable<') else ('intsym', 'j', 'unsigned int')
    s = opq(p0(f, 2), 's')
    def want(m):
        if alt.startswith(A + 'Variable<') and alt == vt: return m.treeval(s) if m.varkey(pl) == m.varkey(var) else m.payval(alt, pl)
        if alt.startswith(A + 'IndexFormulaNode<'): return m.treeval(s) if m.numval(field(field(pl, '_ind'), '_i')) == m.numval(var) else m.payval(alt, pl)
        if alt.startswith((A + 'Constant<', A + 'Variable<', A + 'Symbolic<Ariadne::Cnst')): return m.payval(alt, pl)
        o, args = m.parts(alt, pl)
        return opsem(o, [m.nodeval(('opq', ('T', root(a)[1]), a[1])) if is_treeval(a) else m.numval(a) for a in args])
    return same_value(c, pol, run(p, f, pol, args=[tree(ty, node), var, s]), 'substitution into ' + l, want)


def jobs_identical():
    p, c = program()
    out = []
    for f in find('identical', lambda f: len(f.params) == 2 and is_tree(p0(f)) and p0(f) == p0(f, 1) and 'Vector<' not in p0(f)):
        for i in inputs(c, p0(f)):
            if i[2] is None or True: out.append((f, p0(f)) + i)
    return out


def run_identical(j):
    """whenever two trees are reported identical they have the same value"""
    f, ty, l, alt, op, node, pl = j
    p, c = program(); pol = SPol(c, hypotheses)
    nt = c.node_type(ty)
    bad = None; und = None; np = n = 0
    for alt2 in c.alts(nt):
        pl2 = payload(c, alt2, lambda f: (f, 'q'))
        for q in run(p, f, pol, args=[tree(ty, node), tree(ty, node_of(c, nt, alt2, pl2))]):
            np += 1
            if q.kind == 'throw': und = 'throws ' + show(q.value)[:40]; continue
            if q.value == FALSE: continue
            facts = q.facts
            if q.value != TRUE: q.facts = list(q.facts) + [(q.value, True)]
            k = 0
            for m in trials(pol, q, 300):
                try: a, b = m.payval(alt, pl), m.payval(alt2, pl2)
                except Unsupported as e: und = str(e); break
                except Reject: continue
                k += 1
                if not close(a, b): return 'violated', '%s and %s are reported identical; with %s their values are %s and %s' % (l, short(re.sub(r'<.*', '', alt2)), envs(m), a, b)
            n += k
    if und: return 'undecided', und
    return 'proved', '%d paths, %d points' % (np, n)


# ------------------------------------------------------------------------------------------------ ordering
def jobs_before():
    return [(f, p0(f)) for f in find('before', lambda f: len(f.params) == 2 and is_tree(p0(f)) and 'Vector<' not in p0(f))]


def run_before(j):
    """the order used to look up common subexpressions is a strict weak order whose equivalent trees are equal"""
    f, ty = j
    p, c = program(); nt = c.node_type(ty)
    alts = [a for a in c.alts(nt)]
    tab = {}
    pol = SPol(c, hypotheses)
    for a in alts:
        for b in alts:
            pa, pb = payload(c, a, lambda f: (f, 'a')), payload(c, b, lambda f: (f, 'b'))
            tab[a, b] = run(p, f, pol, args=[tree(ty, node_of(c, nt, a, pa)), tree(ty, node_of(c, nt, b, pb))])
            if any(q.kind == 'throw' for q in tab[a, b]): return 'undecided', 'ordering %s throws' % a
    rng = random.Random(5)
    def inst(a):
        v = {}
        pl = payload(c, a, lambda f: f)
        def go(t):
            if not isinstance(t, tuple): return
            if t[0] in ('opq', 'cname', 'variable', 'coordsym'): v[t[1]] = rng.choice([0, 1, 2]); return
            if t[0] in ('num', 'intsym'): v[t[1]] = rng.choice([-1, 0, 2]); return
            if t[0] == 'vecx': v[t[1]] = rng.choice([0, 1]); return
            if t[0] == 'opcode': v[t[1]] = rng.choice(sorted({c.codes[x] for x in c.opcodes(t[2])})[:3]); return
            for x in t: go(x)
        go(pl); return a, v
    class Unk(Exception): pass
    def val(t, A_, B_):
        k = t[0]
        if k in ('opq', 'cname', 'variable', 'vname', 'num', 'intsym', 'coordsym', 'opcode', 'vecx'):
            nm = t[1]
            while isinstance(nm, tuple) and len(nm) == 2 and nm[0] == 'S': nm = nm[1]
            return (A_ if nm[1] == 'a' else B_)[1][nm[0]]
        if k in ('int', 'enum'): return t[-1]
        raise Unk(str(t)[:60])
    def holds(t, A_, B_):
        k = t[0]
        if k == 'bool': return t[1]
        if k in ('not',) or (k == 'un' and t[1] == '!'): return not holds(t[-1], A_, B_)
        if k == 'before': return val(t[1], A_, B_) < val(t[2], A_, B_)
        if k == 'ident': return val(t[1], A_, B_) == val(t[2], A_, B_)
        if k == 'ncmp': x, y = val(t[2], A_, B_), val(t[3], A_, B_); return x == y if t[1] == 'eq' else x < y
        if k == 'bin' and t[1] in ('==', '<'): x, y = val(t[2], A_, B_), val(t[3], A_, B_); return x == y if t[1] == '==' else x < y
        raise Unk(str(t)[:60])
    def B(A_, B_):
        for q in tab[A_[0], B_[0]]:
            if all(holds(t, A_, B_) == d for t, d in q.facts): return holds(q.value, A_, B_)
        raise Unk('no path')
    n = 0
    nov = [a for a in alts if not a.startswith(A + 'Vector<')]
    try:
        for k in range(6000):
            if k < 3000: a = rng.choice(nov); xs = [inst(a), inst(a), inst(a)]
            else: xs = [inst(rng.choice(nov)) for _ in range(3)]
            x, y, z = xs; n += 1
            if B(x, x): return 'violated', 'a tree of kind %s comes before itself' % x[0]
            if B(x, y) and B(y, x): return 'violated', 'two trees of kinds %s and %s each come before the other (%s; %s)' % (x[0], y[0], x[1], y[1])
            if not B(x, y) and not B(y, x) and (x[0] != y[0] or x[1] != y[1]): return 'violated', 'different trees are taken for equal by the ordering: %s %s and %s %s' % (x[0], x[1], y[0], y[1])
            if B(x, y) and B(y, z) and not B(x, z): return 'violated', 'the ordering is not transitive on %s: %s, %s, %s' % (x[0], x[1], y[1], z[1])
    except Unk as e: return 'undecided', 'fact ' + str(e)
    return 'proved', '%d kind pairs, %d triples' % (len(tab), n)


# ------------------------------------------------------------------------------------------------ evaluation
def jobs_evaluate():
    p, c = program()
    out = []
    for f in find('evaluate', lambda f: len(f.params) == 2 and is_tree(p0(f)) and p0(f).startswith(ET) and p0(f, 1).startswith(A + 'Map<') and 'Vector<' not in p0(f)):
        if targs(p0(f, 1))[1] != elem(p0(f)) and elem(p0(f)) in (A + 'Integer', A + 'String'): continue    # expressions over variables of another type
        for i in inputs(c, p0(f)): out.append((f, p0(f)) + i)
    for f in find('cached_evaluate', lambda f: len(f.params) == 3 and is_tree(p0(f))) + find('direct_evaluate', lambda f: len(f.params) == 2 and is_tree(p0(f))):
        for i in inputs(c, p0(f)): out.append((f, p0(f)) + i)
    return out


def run_evaluate(j):
    f, ty, l, alt, op, node, pl = j
    p, c = program(); pol = SPol(c, hypotheses)
    args = [tree(ty, node), ('point', p0(f, 1))]
    if len(f.params) == 3: args.append(('evcache', 'cache'))
    other = alt.startswith(A + 'Variable<') and p0(f, 1).startswith(A + 'Map<') and targs(p0(f, 1))[1] != targs(alt)[0]
    return same_value(c, pol, run(p, f, pol, args=args), 'evaluation of ' + l, lambda m: m.payval(alt, pl), throws=lambda q: other)


def jobs_make_formula():
    p, c = program()
    return [(f, p0(f)) + i for f in find('_cached_make_formula', lambda f: len(f.params) == 3 and is_tree(p0(f))) for i in inputs(c, p0(f))]


def run_make_formula(j):
    f, ty, l, alt, op, node, pl = j
    p, c = program(); pol = SPol(c, hypotheses)
    args = [tree(ty, node), ('space', 'spc'), ('evcache', 'cache')]
    return same_value(c, pol, run(p, f, pol, args=args), 'formula of ' + l, lambda m: m.payval(alt, pl), throws=lambda q: op and short(op) == 'Get')


# ------------------------------------------------------------------------------------------------ indicator
def jobs_indicator():
    p, c = program()
    out = []
    for f in find('indicator', lambda f: len(f.params) == 2 and p0(f) == ET + 'Ariadne::Kleenean>'):
        for i in inputs(c, p0(f)):
            for s in ('POSITIVE', 'NEGATIVE'): out.append((f, p0(f)) + i + (s,))
    return out


def run_indicator(j):
    """the indicator has the given sign where the predicate holds and the opposite sign where it fails"""
    f, ty, l, alt, op, node, pl, sg = j
    p, c = program(); pol = SPol(c, hypotheses)
    en = [(n, v) for n, v in p.enums.get(A + 'Sign', []) if n == sg]
    if not en: raise Unsupported('sign ' + sg)
    s = 1 if sg == 'POSITIVE' else -1
    paths = run(p, f, pol, args=[tree(ty, node), ('enum', A + 'Sign::' + sg, en[0][1])])
    def judge(q):
        if q.kind == 'throw':
            if alt.startswith(A + 'Variable<') or (op and short(op) in ('Equal', 'Unequal')): return None, 0
            raise Bad('indicator of %s is refused' % l)
        k = 0; n = 0
        for m in trials(pol, q):
            try: w = m.payval(alt, pl); g = m.treeval(q.value)
            except Reject: continue
            n += 1
            if w not in ('T', 'F'): continue
            if g is None or g == 0: continue
            k += 1
            if (g * s > 0) != (w == 'T'): raise Bad('indicator of %s with sign %s: with %s the predicate is %s and the indicator is %s; result %s' % (l, sg, envs(m), w, g, draw(q.value)[:120]))
        return (None if k >= 3 or alt.startswith(A + 'Constant<') else 'only %d points' % k), k
    return verdict(paths, judge)


# ------------------------------------------------------------------------------------------------ structure queries
class Poly:
    """polynomial over named generators: 't…' for the variables asked about, 'g…' for anything that is not polynomial"""
    cnt = 0
    def __init__(s, d): s.d = {k: v for k, v in d.items() if v != 0}
    @staticmethod
    def c(x): return Poly({(): x})
    @staticmethod
    def gen(n): return Poly({((n, 1),): 1.0})
    @staticmethod
    def fresh(*k): Poly.cnt += 1; return Poly.gen('g%d' % Poly.cnt)
    def const(s): return not s.d or list(s.d) == [()]
    def val(s): return s.d.get((), 0.0)
    def __add__(s, o):
        d = dict(s.d)
        for k, v in o.d.items(): d[k] = d.get(k, 0) + v
        return Poly(d)
    def scale(s, x): return Poly({k: v * x for k, v in s.d.items()})
    def __mul__(s, o):
        d = {}
        for k, v in s.d.items():
            for l, w in o.d.items():
                e = dict(k)
                for n, i in l: e[n] = e.get(n, 0) + i
                e = tuple(sorted(e.items())); d[e] = d.get(e, 0) + v * w
        return Poly(d)
    def gens(s): return {n for k in s.d for n, i in k}
    def deg(s): return max([sum(i for n, i in k) for k in s.d] or [0])
    def is_poly(s): return all(n.startswith('t') for n in s.gens())
    def is_affine(s): return s.is_poly() and s.deg() <= 1
    def __str__(s): return ' + '.join(['%.3g' % v + ''.join('*%s^%d' % x for x in k) for k, v in s.d.items()]) or '0'


class PModel(Model):
    def given(s, X, n):
        return any(f[0] == n and f[1] == X and d for f, d in s.facts)
    def nodeval(s, node):
        while node[0] == 'rec' and not node[2] and node[3] is not None: node = node[3]
        if node[0] == 'variant': return s.payval(node[1], node[2])
        X = node; k = ('pv', X[1])
        if k not in s.env:
            r = lambda: round(s.rng.uniform(.5, 3), 3)
            t, u = Poly.gen('t0'), Poly.gen('t1')
            if s.given(X, 'is_constant_in') or s.given(X, 'is_constant'): v = Poly.c(r())
            elif s.given(X, 'is_additive_in'): v = Poly.c(r()) + t.scale(float(s.rng.choice([0, 1])))
            elif s.given(X, 'is_affine_in'): v = Poly.c(r()) + t.scale(r()) + u.scale(r())
            elif s.given(X, 'is_polynomial_in'): v = Poly.c(r()) + t.scale(r()) + (t * t * u).scale(r())
            else: v = Poly.gen('gX%s' % keyname(k))
            s.env[k] = v
        return s.env[k]
    def payval(s, alt, pl):
        if alt.startswith((A + 'Constant<', A + 'Symbolic<Ariadne::Cnst')): return Poly.c(s.pick('c'))
        if alt.startswith(A + 'Variable<') or alt.startswith((A + 'IndexFormulaNode<', A + 'Symbolic<Ariadne::Var')):
            for f, d in s.facts:
                if f[0] == 'app' and f[1] == 'contains' and not d: return Poly.c(1.7)
                if f[0] == 'bin' and f[1] == '==' and 'vname' in (f[2][0], f[3][0]) and not d: return Poly.c(1.7)
            return Poly.gen('t0')
        op, args = s.parts(alt, pl)
        if op == 'Get': return s.nodeval(root(args[0]))     # a component is at worst of the kind established for the vector
        xs = [s.nodeval(root(a)) if is_treeval(a) else s.numval(a) for a in args]
        xs = [x if isinstance(x, Poly) or op == 'Pow' and i else Poly.c(float(x)) for i, x in enumerate(xs)]
        return papply(op, xs)


def papply(op, xs):
    a = xs[0]
    if op == 'Nul': return Poly.c(0.0)
    if op == 'Pos': return a
    if op == 'Neg': return a.scale(-1.)
    if op == 'Hlf': return a.scale(.5)
    if op == 'Sqr': return a * a
    if op == 'Add': return a + xs[1]
    if op == 'Sub': return a + xs[1].scale(-1.)
    if op == 'Mul': return a * xs[1]
    if op == 'Div': return a.scale(1 / xs[1].val()) if xs[1].const() and xs[1].val() else Poly.fresh()
    if op == 'Pow':
        n = xs[1]
        if n < 0: return Poly.c(abs(a.val()) ** n if a.val() else 1.) if a.const() else Poly.fresh()
        r = Poly.c(1.0)
        for _ in range(int(n)): r = r * a
        return r
    if all(x.const() for x in xs if isinstance(x, Poly)): return Poly.c(1.37)
    return Poly.fresh()


GOAL = {'is_constant_in': lambda v: v.const(), 'is_constant': lambda v: v.const(), 'is_affine_in': lambda v: v.is_affine(), 'is_polynomial_in': lambda v: v.is_poly(),
        'is_additive_in': lambda v: v.is_affine() and v.d.get((('t0', 1),), 0) in (0, 1) and not any(k for k in v.d if k and k != (('t0', 1),))}


def jobs_query():
    p, c = program()
    out = []
    for n in ('is_constant_in', 'is_affine_in', 'is_polynomial_in', 'is_additive_in'):
        for f in find(n, lambda f: len(f.params) == 2 and p0(f).startswith((ET, FT)) and 'Vector<' not in p0(f) and (p0(f, 1).startswith(A + 'Set<') or n == 'is_additive_in')):
            for i in inputs(c, p0(f)): out.append((f, p0(f)) + i)
    for f in find('is_constant', lambda f: len(f.params) == 1 and p0(f).startswith((ET, FT)) and 'Vector<' not in p0(f)):
        for i in inputs(c, p0(f)): out.append((f, p0(f)) + i)
    return out


def run_query(j):
    f, ty, l, alt, op, node, pl = j
    p, c = program(); pol = SPol(c, hypotheses)
    args = [tree(ty, node)]
    if len(f.params) == 2: args.append(('varset', 'vars') if p0(f, 1).startswith(A + 'Set<') else REALV)
    paths = run(p, f, pol, args=args)
    goal = GOAL[f.n]
    def judge(q):
        if q.kind == 'throw':
            if 'NOT_IMPLEMENTED' in str(q.value) or (op and short(op) == 'Get'): return None, 0
            raise Bad('%s of %s is refused (%s)' % (f.n, l, show(q.value)[:60]))
        if q.value == FALSE: return None, 0
        facts = list(q.facts)
        alts = conj(q.value)
        if alts is None: return 'result ' + show(q.value)[:60], 0
        k = 0; rng = random.Random(3)
        for extra in alts:
            for t in range(60):
                m = PModel(pol, facts + extra, rng, True)
                try:
                    if not m.consistent(): continue
                except Reject: continue
                v = m.payval(alt, pl); k += 1
                if not goal(v): raise Bad('%s is reported for %s when its value is %s (generators t: variables asked about, g: not polynomial); known: %s' % (f.n, l, v, ', '.join(show(x)[:60] + '=' + str(d) for x, d in facts + extra)[:300]))
        return (None if k else None), k
    return verdict(paths, judge)


def conj(v):
    """ways a truth value can be true, as lists of facts"""
    if v == TRUE: return [[]]
    if v == FALSE: return []
    if v[0] == 'not' or (v[0] == 'un' and v[1] == '!'): return [[(v[-1], False)]]
    if v[0] in ('is_constant_in', 'is_affine_in', 'is_polynomial_in', 'is_additive_in', 'app', 'bin', 'ncmp'): return [[(v, True)]]
    return None


# ------------------------------------------------------------------------------------------------ building trees
BUILD = {('operator+', 1): 'Pos', ('operator-', 1): 'Neg', ('operator+', 2): 'Add', ('operator-', 2): 'Sub', ('operator*', 2): 'Mul', ('operator/', 2): 'Div', ('operator+=', 2): 'Add', ('operator-=', 2): 'Sub',
         ('operator*=', 2): 'Mul', ('operator/=', 2): 'Div', ('operator==', 2): 'Equal', ('operator!=', 2): 'Unequal', ('operator<', 2): 'Less', ('operator>', 2): 'Gtr', ('operator<=', 2): 'Leq', ('operator>=', 2): 'Geq',
         ('operator&&', 2): 'AndOp', ('operator||', 2): 'OrOp', ('operator!', 1): 'NotOp', ('sgn', 1): 'Sgn'}
for _n in ('nul', 'pos', 'neg', 'sqr', 'hlf', 'rec', 'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'abs'): BUILD[_n, 1] = _n.capitalize()
for _n in ('add', 'sub', 'mul', 'div', 'max', 'min', 'pow'): BUILD[_n, 2] = _n.capitalize()


def jobs_build():
    p, c = program()
    out = []
    for f in p.bodies():
        if f.q.startswith('std::') or f.has('meth') and not f.has('static') and not f.n.startswith('operator'): continue
        o = BUILD.get((f.n, len(f.params)))
        if not o or not bare(f.ret or '').startswith((ET, FT)) or 'Vector<' in f.ret: continue
        ts = [p0(f, k) for k in range(len(f.params))]
        if any('Vector<' in t for t in ts) or not any(is_tree(t) for t in ts): continue
        if any(not is_tree(t) and not is_num(t) and t not in ('int', 'unsigned int') for t in ts): continue
        if f.rec and is_tree(bare(f.rec)) : continue
        out.append((f, bare(f.ret), o + '(' + ','.join(short_ty(t) for t in ts) + ')', ts, o))
    return out


def run_build(j):
    f, ty, l, ts, o = j
    p, c = program(); pol = SPol(c, hypotheses)
    args = []
    for k, t in enumerate(ts):
        args.append(opq(t, 'e%d' % k) if is_tree(t) else ('intsym', 'n', t) if t in ('int', 'unsigned int') else ('num', 'c%d' % k, t))
    return same_value(c, pol, run(p, f, pol, args=args), 'building ' + l, lambda m: opsem(o, [m.any(a) for a in args]))


# ------------------------------------------------------------------------------------------------ mutual negations
def jobs_opposite():
    p, c = program()
    return [(f, p0(f)) + i for f in find('opposite', lambda f: len(f.params) == 2 and is_tree(p0(f)) and p0(f) == p0(f, 1)) for i in inputs(c, p0(f))]


def run_opposite(j):
    """whenever two predicates are reported opposite, each is the negation of the other away from equality"""
    f, ty, l, alt, op, node, pl = j
    p, c = program(); pol = SPol(c, hypotheses)
    und = None; np = n = 0
    for l2, alt2, op2, node2, pl2 in inputs(c, ty, 'q'):
        if True:
            for q in run(p, f, pol, args=[tree(ty, node), tree(ty, node2)]):
                np += 1
                if q.kind == 'throw': return 'violated', 'comparing %s with a %s is refused (%s)' % (l, short(op2 or alt2), show(q.value)[:60])
                if q.value == FALSE: continue
                if q.value != TRUE: q.facts = list(q.facts) + [(q.value, True)]
                for m in trials(pol, q, 300):
                    try: a, b = m.payval(alt, pl), m.payval(alt2, pl2)
                    except Unsupported as e: und = str(e); break
                    except Reject: continue
                    try:
                        xs = [m.any(x) for x in m.parts(alt, pl)[1]]
                    except (Unsupported, Reject): xs = []
                    if a is None or b is None or len(xs) == 2 and close(xs[0], xs[1]): continue
                    n += 1
                    if a != K3['not'](b): return 'violated', '%s and %s are reported opposite; with %s their values are %s and %s' % (l, short(op2 or alt2), envs(m), a, b)
    if und: return 'undecided', und
    return 'proved', '%d paths, %d points' % (np, n)


RULES = {'opposite': (jobs_opposite, run_opposite), 'build': (jobs_build, run_build), 'derivative': (jobs_derivative, run_derivative), 'simplify': (jobs_simplify, run_simplify), 'substitute': (jobs_substitute, run_substitute), 'identical': (jobs_identical, run_identical),
         'order': (jobs_before, run_before), 'common subexpressions': (jobs_cse, run_cse), 'evaluate': (jobs_evaluate, run_evaluate), 'formula': (jobs_make_formula, run_make_formula),
         'indicator': (jobs_indicator, run_indicator), 'query': (jobs_query, run_query)}


def one(a):
    rule, k = a
    jobs, runner = RULES[rule]
    j = _P.setdefault(('jobs', rule), None) or jobs(); _P['jobs', rule] = j
    x = j[k]
    lab = ' '.join(str(z) for z in (x[2],) + x[7:]) if len(x) > 2 else ''
    try: v, d = runner(x)
    except (Unsupported, Budget) as e: v, d = 'undecided', str(e)[:160]
    except Exception as e: v, d = 'undecided', 'analysis: %s %s' % (type(e).__name__, str(e)[:120])
    f = x[0]
    return Ob(rule, '%s|%s|%s' % (f.n, short_ty(x[1]), lab), f.where, v, d)


def short_ty(t): return re.sub(r'Ariadne::|Tag', '', t)


def decide_rules(rules):
    work = []
    cov = {}
    for r in rules:
        j = RULES[r][0](); _P['jobs', r] = j
        cov[r] = len(j)
        work += [(r, k) for k in range(len(j))]
    work.sort(key=lambda w: 0 if w[0] == 'simplify' and 'Div' in str(_P['jobs', w[0]][w[1]][2]) else 1)
    obs = pmap(one, work)
    return obs, cov
