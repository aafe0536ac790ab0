"""Numeric model: which classes represent which real numbers, which operations they
implement, and the policy under which the abstract interpreter summarises them."""
import re
from engine import *
from prog import Fn

A = 'Ariadne::'
DPN = 'Ariadne::DoublePrecision'; MPN = 'Ariadne::MultiplePrecision'
FDP = 'Ariadne::Float<%s>' % DPN; FMP = 'Ariadne::Float<%s>' % MPN
FLOATS = {FDP: 'DP', FMP: 'MP'}


def split_args(s):
    """arguments of a template-id's <...> text"""
    r = []; d = 0; cur = ''
    for c in s:
        if c == '<': d += 1
        if c == '>': d -= 1
        if c == ',' and d == 0: r.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): r.append(cur.strip())
    return r


_tc = {}
EXACT = {'Ariadne::Dyadic': 'Dyadic', 'Ariadne::Rational': 'Rational', 'Ariadne::Integer': 'Integer', 'Ariadne::Decimal': 'Decimal',
         'Ariadne::ExactDouble': 'ExactDouble', 'Ariadne::TwoExp': 'TwoExp'}
BUILTIN_INT = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'long long', 'unsigned long long'}
LOGICAL = {'Boolean': 'B', 'ValidatedKleenean': 'K', 'ValidatedLowerKleenean': 'LK', 'ValidatedUpperKleenean': 'UK',
           'ValidatedSierpinskian': 'S', 'ValidatedNegatedSierpinskian': 'NS', 'ApproximateKleenean': 'A'}


def parse_type(t):
    """value class of a C++ type string, or None when it is not modelled"""
    b = bare(t)
    if b in _tc: return _tc[b]
    r = None
    if b in FLOATS: r = ('F', FLOATS[b])
    elif b in EXACT: r = ('X', EXACT[b])
    elif b in BUILTIN_INT: r = ('int', 'u' if b.startswith('unsigned') else 's')
    elif b == 'bool': r = ('bool',)
    elif b in (DPN, MPN): r = ('PR', 'DP' if b == DPN else 'MP')
    elif b.startswith(A) and b[len(A):] in LOGICAL: r = ('Log', LOGICAL[b[len(A):]])
    else:
        m = re.match(r'^Ariadne::(Bounds|Ball|LowerBound|UpperBound|Error|Positive|Approximation)<(.*)>$', b)
        if m:
            args = [parse_type(x) for x in split_args(m.group(2))]
            k = m.group(1)
            if all(args):
                if k == 'Positive':
                    if args[0][0] in ('F', 'Bounds', 'Ball', 'Lower', 'Upper', 'Approx', 'X'): r = ('Pos', args[0])
                elif k == 'Ball' and args[0][0] == 'F':
                    r = ('Ball', args[0], args[1] if len(args) > 1 else args[0])
                elif args[0][0] == 'F': r = ({'Bounds': 'Bounds', 'LowerBound': 'Lower', 'UpperBound': 'Upper', 'Error': 'Error', 'Approximation': 'Approx'}[k], args[0])
    _tc[b] = r
    return r


def strip_pos(t): return t[1] if t and t[0] == 'Pos' else t


RNDS = {0: 'N', 1024: 'D', 2048: 'U', 3072: 'Z', 8192: 'D', 16384: 'U', 24576: 'Z', 2: 'U', 3: 'D', 1: 'Z'}   # fenv, mxcsr and mpfr encodings
CMP = 'Ariadne::Comparison'
LVAL = 'Ariadne::Detail::LogicalValue'


def logic(name, v):
    return ('rec', 'Ariadne::' + name, (('_v', ('enum', LVAL + '::' + ('TRUE' if v else 'FALSE'), 2 if v else -2)),), None)


class Order:
    """Transitive closure of <= / < over terms (numeric constants are ordered by value)."""
    def __init__(s): s.le = {}; s.consts = {}
    def node(s, a):
        c = const(a)
        if c is not None and a not in s.consts:
            for b, d in s.consts.items():
                if d < c: s.add(b, a, True, False)
                elif d > c: s.add(a, b, True, False)
                else: s.add(a, b, False, False); s.add(b, a, False, False)
            s.consts[a] = c
    def add(s, a, b, strict, reg=True):
        if reg: s.node(a); s.node(b)
        s.le.setdefault(a, {})
        s.le[a][b] = s.le[a].get(b, False) or strict
    def leq(s, a, b, strict=False):
        s.node(a); s.node(b)
        if a == b and not strict: return True
        seen = {}; st = [(a, False)]
        while st:
            x, k = st.pop()
            if seen.get(x, -1) >= k: continue
            seen[x] = k
            for y, kk in s.le.get(x, {}).items():
                k2 = k or kk
                if y == b and (k2 or not strict): return True
                if seen.get(y, -1) < k2: st.append((y, k2))
        return False
    def fact(s, c, d):
        if c[0] == 'cmp':
            if c[1] == '<': s.add(c[2], c[3], True) if d else s.add(c[3], c[2], False)
            elif c[1] == '==' and d: s.add(c[2], c[3], False); s.add(c[3], c[2], False)
        elif c[0] == 'bin' and c[1] == '<' and d is not None:
            s.add(c[2], c[3], True) if d else s.add(c[3], c[2], False)
        elif c[0] == 'bin' and c[1] == '==' and d:
            s.add(c[2], c[3], False); s.add(c[3], c[2], False)


def const(t):
    if t[0] == 'int': return t[1]
    if t[0] == 'flt':
        try: return float(t[1])
        except ValueError: return None
    if t[0] == 'k': return t[1]
    return None


def simp_cmp_arg(t):
    """ExactDouble / builtin constants as plain constants"""
    if t[0] == 'rec' and t[1] == 'Ariadne::ExactDouble':
        v = field(t, '_d')
        if v[0] in ('flt', 'int'): return v
    return t


class NumPolicy(Policy):
    """Float functions with explicit rounding are primitives; everything else is inlined."""
    max_paths = 900
    def __init__(s, invariants=()): s.inv = list(invariants)
    def order(s, ev):
        o = getattr(ev, 'order', None)
        if o is None:
            o = ev.order = Order(); ev.ofacts = 0
            for a, b in s.inv: o.add(a, b, False)
        while ev.ofacts < len(ev.facts):
            o.fact(*ev.facts[ev.ofacts]); ev.ofacts += 1
        return o
    def decide(s, ev, c):
        if c[0] == 'bin' and c[1] == '==' and ('prec' in repr(c)): return True
        if c[0] == 'app' and c[1] in ('std::isnan', 'std::isinf'): return False
        if c[0] == 'app' and c[1] in ('std::isfinite',): return True
        if c[0] in ('cmp', 'bin') and c[1] in ('<', '=='):
            o = s.order(ev); a, b = c[2], c[3]
            sa, sb = s.sign(a), s.sign(b)
            if sa is not None and sb is not None and not (sa == sb == 1 or sa == sb == -1):
                if c[1] == '<': return sa < sb
                return sa == sb
            if c[1] == '<':
                if o.leq(a, b, True): return True
                if o.leq(b, a): return False
            else:
                if o.leq(a, b) and o.leq(b, a): return True
                if o.leq(a, b, True) or o.leq(b, a, True): return False
        return None
    def sign(s, t):
        k = t[0]
        c = const(t)
        if c is not None: return (c > 0) - (c < 0)
        if k == 'app':
            n = t[1].partition('.')[2]
            if n == 'pi': return 1
            if n in ('mul', 'add', 'max', 'min', 'div') and len(t) >= 4:
                a = [s.sign(x) for x in t[-2:]]
                if None in a: return None
                if a == [1, 1]: return 1
            if n == 'neg' and len(t) == 3:
                x = s.sign(t[2]); return None if x is None else -x
            if n in ('new:F', 'hlf', 'cast_exact', 'new:Dyadic') and len(t) >= 3: return s.sign(t[2])
        return None
    def fcmp(s, ev, op, a, b):
        a = simp_cmp_arg(a); b = simp_cmp_arg(b)
        if a == b: return op in ('==', '<=', '>=')
        ca, cb = const(a), const(b)
        if ca is not None and cb is not None:
            return {'<': ca < cb, '>': ca > cb, '==': ca == cb, '!=': ca != cb, '<=': ca <= cb, '>=': ca >= cb}[op]
        if op == '>': return ev.fork(('cmp', '<', b, a))
        if op == '<': return ev.fork(('cmp', '<', a, b))
        if op == '<=': return not ev.fork(('cmp', '<', b, a))
        if op == '>=': return not ev.fork(('cmp', '<', a, b))
        if repr(b) < repr(a): a, b = b, a
        e = ev.fork(('cmp', '==', a, b))
        return e if op == '==' else not e
    def iscmpname(s, n):
        return {'operator<': '<', 'operator>': '>', 'operator<=': '<=', 'operator>=': '>=', 'operator==': '==', 'operator!=': '!=',
                'lt': '<', 'eq': '==', 'leq': '<=', 'gt': '>', 'geq': '>=', 'same': '=='}.get(n)
    def wrapbool(s, ret, v):
        b = bare(ret)
        if b == 'bool': return B(v)
        if b.startswith(A): return logic(b[len(A):], v)
        return B(v)
    def kinds(s, ev, fn, this, args):
        """argument classes, receiver first"""
        ks = []
        if this is not None and fn.has('meth') and not fn.has('static') and not fn.has('ctor'): ks.append(parse_type(fn.rec))
        for p in fn.p: ks.append(parse_type(p))
        return ks
    def call(s, ev, fn, this, args, node):
        q = fn.tq
        if q.startswith('std::') or fn.file.startswith('/usr'):
            if fn.n in ('isnan', 'isinf', 'isfinite'): return ('term', ('app', 'std::' + fn.n) + tuple(ev.rv(a) for a in args))
            return None
        ks = s.kinds(ev, fn, this, args)
        if fn.n in ('cast_exact', 'cast_raw') and len(args) == 1 and ks[0] is not None and parse_type(fn.ret) and parse_type(fn.ret)[0] == 'F' and 'reinterpret' not in fn.flags:
            fs = fields_of(ks[0])
            v = ev.rv(args[0])
            if ks[0][0] in ('Lower', 'Upper', 'Error', 'Approx', 'Ball'): return ('term', field(v, fs[0]))
            if ks[0][0] == 'F': return ('term', v)
        rt = parse_type(fn.ret)
        prim = False
        if fn.rec in FLOATS or (fn.rec and fn.rec.startswith('Ariadne::Operations<Ariadne::Float<') and fn.rec[len('Ariadne::Operations<'):-1] in FLOATS): prim = True
        elif fn.rec in EXACT and EXACT[fn.rec] not in ('ExactDouble',): prim = True
        elif not fn.has('meth') and ks and all(k is not None and strip_pos(k)[0] in ('F', 'int', 'X', 'PR') for k in ks) and (any(k[0] == 'F' or (k[0] == 'X' and k[1] != 'ExactDouble') for k in ks)) \
                and (rt is None or strip_pos(rt)[0] in ('F', 'int', 'bool', 'X') or rt == ('Log', 'B') or bare(fn.ret) == CMP) and (not fn.rec or 'Operations<' not in fn.rec) and 'inl' not in fn.file:
            # free function on raw floats / exact numbers returning such
            if rt is not None or bare(fn.ret) == CMP or fn.body is None: prim = True
            if fn.body is not None and fn.rec and fn.rec not in FLOATS and fn.rec not in EXACT: prim = False
        if fn.n.startswith('_make_') and fn.body is not None: prim = False
        if not prim: return None
        if fn.has('copy') or fn.has('move'):
            return ('term', ev.rv(args[0]))
        if fn.has('casg') or fn.has('masg'):
            ev.write(this, ev.rv(args[0])); return this
        vs = [simp_cmp_arg(ev.rv(a)) for a in args]
        ft = FLOATS.get(fn.rec) or (fn.rec and FLOATS.get(fn.rec[len('Ariadne::Operations<'):-1]))
        if not ft:
            ft = 'X' if fn.rec in EXACT else next((k[1] for k in ([rt] if rt else []) + ks if k is not None and k[0] == 'F'), 'X')
        ft += '.'
        if this is not None and fn.has('meth') and not fn.has('static') and not fn.has('ctor'): vs = [ev.rv(this)] + vs
        n = fn.n
        if fn.has('ctor'):
            n = 'new:' + ('F' if fn.rec in FLOATS else EXACT[fn.rec])
            if len(vs) == 0: return None
        if s.iscmpname(n) and len(vs) == 2:
            return ('term', s.wrapbool(fn.ret, s.fcmp(ev, s.iscmpname(n), vs[0], vs[1])))
        if n == 'cmp' and len(vs) == 2:
            if s.fcmp(ev, '<', vs[0], vs[1]): r = ('enum', CMP + '::LESS', -1)
            elif s.fcmp(ev, '==', vs[0], vs[1]): r = ('enum', CMP + '::EQUAL', 0)
            else: r = ('enum', CMP + '::GREATER', 1)
            return ('term', r)
        if n in ('raw', 'operator+', 'pos') and len(vs) == 1: return ('term', vs[0])
        if n in ('is_nan', 'is_inf'): return ('term', s.wrapbool(fn.ret, False))
        if n == 'is_finite': return ('term', s.wrapbool(fn.ret, True))
        if n.startswith('operator') and n.endswith('=') and len(vs) == 2 and n not in ('operator==', 'operator<=', 'operator>=', 'operator!='):
            lv = this if this is not None else args[0]
            t = vs[-1] if n == 'operator=' else ('app', ft + n[:-1]) + tuple(vs)
            if n == 'operator=' : t = ('app', ft + 'new:F', vs[-1]) if fn.rec in FLOATS else vs[-1]
            ev.write(lv, t); return lv
        t = ('app', ft + n) + tuple(vs)
        return ('term', t)


# ---------------------------------------------------------------- representation relations
def fields_of(k):
    k = strip_pos(k)
    return {'F': (), 'Bounds': ('_l', '_u'), 'Ball': ('_v', '_e'), 'Lower': ('_l',), 'Upper': ('_u',), 'Error': ('_e',), 'Approx': ('_a',)}.get(k[0], ())


def invariants(name, ty, k):
    """order facts about a valid argument (name: sym term)"""
    r = []
    z = ('int', 0)
    s = name; kk = strip_pos(k); pos = k[0] == 'Pos'
    if kk[0] == 'Bounds':
        r.append((('fld', s, '_l'), ('fld', s, '_u')))
        if pos: r.append((z, ('fld', s, '_l'))); r.append((z, ('fld', s, '_u')))
    elif kk[0] == 'Ball': r.append((z, ('fld', s, '_e')))
    elif kk[0] == 'Error': r.append((z, ('fld', s, '_e')))
    elif kk[0] == 'Lower' and pos: r.append((z, ('fld', s, '_l')))
    elif kk[0] == 'Upper' and pos: r.append((z, ('fld', s, '_u')))
    elif kk[0] in ('F', 'X') and pos: r.append((z, s))
    elif k == ('int', 'u'): r.append((z, s))
    return r


_ac = {}
def _alias(t, f):
    """reinterpretation between the one-field classes (Error/UpperBound/...) keeps the one field"""
    if f not in ('_l', '_u', '_e', '_a'): return f
    if not isinstance(t, str): return f
    r = _ac.get(t)
    if r is None:
        k = parse_type(t)
        r = ''
        if k is not None:
            fs = fields_of(k)
            if len(fs) == 1: r = fs[0]
        _ac[t] = r
    return r or f
import engine
engine.ALIAS = _alias
