"""Deciding 'the result class encloses the exact result' for the numeric classes.

For one function and one path of its summary:
  rules   -- polarity / monotonicity inference over the directed-rounding terms, with the
             path's branch facts closed under transitivity: discharges the obligation.
  witness -- when no rule applies, the summary is interpreted in an abstract machine of
             p-bit binary floats (p=4) over a fixed family of argument representatives, and only
             a definite counterexample there is reported.  Otherwise: undecided.
"""
import math, random, itertools, re
from fractions import Fraction as Q
from engine import *
from fmodel import *
from prog import REPO

UNARY = 'nul pos neg hlf sqr rec sqrt exp log sin cos tan asin acos atan abs mag mig'.split()
BINARY = 'add sub mul div max min'.split()
OPNAMES = {}
for n in UNARY: OPNAMES[n] = (n, 1); OPNAMES['_' + n] = (n, 1)
for n in BINARY: OPNAMES[n] = (n, 2); OPNAMES['_' + n] = (n, 2)
for n in ('pow', '_pow'): OPNAMES[n] = ('pow', 2)
for n in ('fma', '_fma'): OPNAMES[n] = ('fma', 3)
INFIX = {'operator+': 'add', 'operator-': 'sub', 'operator*': 'mul', 'operator/': 'div'}
INPLACE = {k + '=': v for k, v in INFIX.items()}
CMPS = {'operator==': 'eq', 'operator!=': 'ne', 'operator<': 'lt', 'operator>': 'gt', 'operator<=': 'le', 'operator>=': 'ge', 'eq': 'eq', '_eq': 'eq', 'lt': 'lt', '_lt': 'lt', 'leq': 'le', '_leq': 'le', 'gtr': 'gt', 'less': 'lt', 'neq': 'ne', 'geq': 'ge'}
RELS = ('refines', 'models', 'consistent', 'inconsistent', 'same')
VALID = ('Bounds', 'Ball', 'Lower', 'Upper', 'Error')


class Skip(Exception): pass


# ---------------------------------------------------------------- contracts
class Contract:
    """op over the real values represented by args must be represented by the result"""
    def __init__(s, fn, op, args, res, inplace=False):
        s.fn = fn; s.op = op; s.args = args; s.res = res; s.inplace = inplace   # args: [(sym term, kind, typestring)]
    def __repr__(s): return "%s(%s)->%s" % (s.op, ",".join(kname(k) for _, k, _ in s.args), kname(s.res))


def kname(k):
    if k is None: return '?'
    if k[0] == 'Pos': return 'Positive' + kname(k[1])
    if k[0] == 'F': return 'Float' + k[1]
    if k[0] in ('X', 'int', 'PR', 'Log'): return str(k[1])
    return k[0] + ('<' + ','.join(kname(x) for x in k[1:]) + '>' if len(k) > 1 else '')


def contract(f):
    """the contract of a function, or None when it has none"""
    if f.body is None or f.params is None: return None
    if not f.has('ctor') and not f.has('meth') and f.rec in FLOATS: return None
    args = []
    if f.has('meth') and not f.has('static') and not f.has('ctor'):
        k = parse_type(f.rec)
        if k is None: return None
        args.append((('sym', 'this', f.rec), k, f.rec))
    for i, (vid, nm, ty) in enumerate(f.params):
        k = parse_type(ty)
        if k is None: return None
        args.append((('sym', nm or 'p%d' % i, ty), k, ty))
    n = f.n
    num = [a for a in args if a[1][0] != 'PR']
    if not num or (not f.has('ctor') and len(num) != len(args)): return None
    if any(strip_pos(k)[0] in ('Approx', 'bool', 'Log') for _, k, _ in args): return None
    if f.has('ctor'):
        if f.has('copy') or f.has('move'): return None
        res = parse_type(f.rec)
        if res is None or strip_pos(res)[0] not in VALID: return None
        kk = [strip_pos(k)[0] for _, k, _ in num]
        if len(num) == 1: return Contract(f, 'id', args, res)
        if len(num) == 2:
            if res[0] == 'Ball' and kk[1] in ('Error', 'F', 'X') and kk[0] in ('F', 'X'): return Contract(f, 'ball', args, res)
            if strip_pos(res)[0] == 'Bounds' and kk in (['F', 'F'], ['X', 'X'], ['Lower', 'Upper']): return Contract(f, 'interval', args, res)
        return None
    res = parse_type(f.ret)
    inplace = False
    if n in INPLACE and f.p:
        op = INPLACE[n]
        if len(args) != 2 or not args[0][2].strip().endswith('&') and not f.has('meth'): return None
        inplace = True; res = args[0][1]
    elif n in INFIX and len(args) == 2: op = INFIX[n]
    elif n == 'operator-' and len(args) == 1: op = 'neg'
    elif n == 'operator+' and len(args) == 1: op = 'pos'
    elif n in CMPS and len(args) == 2: op = CMPS[n]
    elif n in OPNAMES and len(num) == len(args) == OPNAMES[n][1]: op = OPNAMES[n][0]
    elif n in ('lower', 'upper', 'lower_raw', 'upper_raw') and len(args) == 1: op = 'id'; 
    elif n in RELS or n.strip('_') in RELS:
        if len(args) != 2 or res is None or any(strip_pos(k)[0] not in ('Bounds', 'Ball', 'Lower', 'Upper', 'F') for _, k, _ in args): return None
        if n.strip('_') in ('consistent', 'inconsistent') and any(strip_pos(k)[0] == 'Ball' for _, k, _ in args): return None   # rounded radii: two conservative conventions coexist
        if n.strip('_') == 'same': return None
        return Contract(f, n.strip('_'), args, res)
    elif n in ('refinement', '_refinement') and len(args) == 2 and res is not None: op = 'refinement'
    elif n == 'operator=' and f.has('meth') and len(args) == 2 and not f.has('casg') and not f.has('masg'):
        if strip_pos(args[0][1])[0] not in VALID: return None
        return Contract(f, 'assign', args, args[0][1], True)
    else: return None
    if res is None: return None
    if n in ('lower_raw', 'upper_raw') and res[0] == 'F': res = (('Lower' if n == 'lower_raw' else 'Upper'), res)
    if op in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
        if res[0] not in ('Log', 'bool'): return None
        if all(strip_pos(k)[0] in ('F', 'X', 'int') for _, k, _ in args): return None
        return Contract(f, op, args, res)
    rk = strip_pos(res)[0]
    if rk not in VALID: return None
    return Contract(f, op, args, res, inplace)


# ---------------------------------------------------------------- abstract p-bit machine
PREC = {'DP': 3, 'MP': 4, 'X': None}; PTARGET = {'DP': 3, 'MP': 2}   # bits of the abstract machine
INF = float('inf')


def rnd(x, mode, p):
    if isinstance(x, float):
        if x != x: raise Skip()
        if x in (INF, -INF): return x
        x = Q(x)
    if x == 0: return Q(0)
    n, d = abs(x.numerator), x.denominator
    e = n.bit_length() - d.bit_length()
    if Q(n, d) < Q(2) ** e: e -= 1
    u = Q(2) ** (e - p + 1)
    s = x / u
    fl = s.numerator // s.denominator
    if s == fl: return x
    if mode == 'D': r = fl
    elif mode == 'U': r = fl + 1
    elif mode == 'Z': r = fl if x > 0 else fl + 1
    elif mode == 'N':
        t = s - fl
        r = fl if t < Q(1, 2) else fl + 1 if t > Q(1, 2) else fl + (fl % 2)
    else: raise Skip()
    return r * u


def ex(x):
    if isinstance(x, int): return Q(x)
    return x


def _fin(*xs):
    for x in xs:
        if isinstance(x, float):
            if x != x: raise Skip()


def chk(x):
    if isinstance(x, float) and x != x: raise Skip()
    return x


def real1(op, x):
    if isinstance(x, float) and op not in ('neg', 'pos', 'abs', 'hlf'): 
        if x != x: raise Skip()
        if op == 'exp': return Q(0) if x < 0 else INF
        if op == 'sqrt' and x > 0: return INF
        if op == 'log' and x > 0: return INF
        if op == 'sqr': return INF
        if op == 'rec': return Q(0)
        if op == 'atan': return Q(math.pi / 2) if x > 0 else Q(-math.pi / 2)
        raise Skip()
    if op == 'nul': return Q(0)
    if op == 'pos': return x
    if op == 'neg': return -x
    if op == 'hlf': return x / 2
    if op == 'sqr': return x * x
    if op in ('abs', 'mag', 'mig'): return abs(x)
    if op == 'rec':
        if x == 0: raise Skip()
        return 1 / x
    if op == 'sqrt':
        if x < 0: raise Skip()
        r = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if r[0] ** 2 == x.numerator and r[1] ** 2 == x.denominator: return Q(r[0], r[1])
        return Q(math.sqrt(x))
    if op == 'log':
        if x <= 0: raise Skip()
        return Q(math.log(x))
    if op in ('asin', 'acos') and abs(x) > 1: raise Skip()
    if op == 'exp' and x > 700: raise Skip()
    return Q({'exp': math.exp, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan}[op](x))


def real2(op, a, b):
    a, b = ex(a), ex(b)
    if op == 'add': return chk(a + b)
    if op == 'sub': return chk(a - b)
    if op == 'mul': return chk(a * b)
    if op == 'div':
        if b == 0: raise Skip()
        return chk(a / b)
    if op == 'max': return max(a, b)
    if op == 'min': return min(a, b)
    if op == 'pow':
        b = int(b)
        if b < 0 and a == 0: raise Skip()
        if isinstance(a, float): raise Skip()
        return Q(a) ** b
    raise Skip()


def m_round1(op): return lambda r, x, p: rnd(real1(op, ex(x)), r, p)


def prim(name, args, p):
    """value of primitive F.name on concrete machine values"""
    n = name
    if n in ('operator Dyadic', 'operator Rational', 'operator ExactDouble'): return args[0]
    if n.startswith('operator'):
        o = {'operator+': 'add', 'operator-': 'sub', 'operator*': 'mul', 'operator/': 'div'}.get(n)
        if o is None: raise Skip()
        if len(args) == 1: return real1('neg', ex(args[0])) if o == 'sub' else args[0]
        # exact classes only (raw floats have no rounding-free operators except with TwoExp)
        return real2(o, args[0], args[1])
    if n.startswith('new:'):
        k = n[4:]; x = ex(args[0])
        if isinstance(x, tuple): raise Skip()
        if k in ('Dyadic', 'Rational', 'Integer', 'Decimal'):
            if k == 'Rational' and len(args) == 2: return real2('div', args[0], args[1])
            if k == 'Dyadic' and len(args) == 2: return Q(args[0]) / Q(2) ** int(args[1])
            return x
        if k == 'TwoExp': return Q(2) ** int(args[0])
        if k == 'F':
            r = None; pp = p
            for a in args[1:]:
                if isinstance(a, tuple) and a[0] == 'rnd': r = a[1]
                elif isinstance(a, tuple) and a[0] == 'pr': pp = a[1]
                else: raise Skip()
            if isinstance(x, float): return x
            if r is None:
                y = rnd(x, 'D', pp)
                if y != x: raise Skip()
                return y
            return rnd(x, r, pp)
        raise Skip()
    if n in ('operator Dyadic', 'operator Rational'): return args[0]
    if n == 'precision': return ('pr', p)
    if n == 'inf':
        s = [a for a in args if not isinstance(a, tuple)]
        return -INF if s and s[0] < 0 else INF
    if n in ('get_d',): return args[0]
    if args and isinstance(args[0], tuple) and args[0][0] == 'rnd':
        r = args[0][1]; a = args[1:]
        if n == 'pi': return rnd(Q(math.pi), r, p)
        if n in ('max', 'min') and len(a) == 2: return real2(n, *a)
        if n in ('pos', 'neg', 'hlf', 'abs', 'nul', 'mag') and len(a) == 1: return real1(n, ex(a[0]))
        if len(a) == 1 and n in UNARY: return rnd(real1(n, ex(a[0])), r, p)
        if len(a) == 2 and n in BINARY + ['pow']: return rnd(real2(n, a[0], a[1]), r, p)
        if n == 'fma' and len(a) == 3: return rnd(real2('add', real2('mul', a[0], a[1]), a[2]), r, p)
        if n == 'med' and len(a) == 2: return rnd(real2('add', a[0], a[1]) / 2, r, p)
        if n == 'rad' and len(a) == 2: return rnd(real2('sub', a[1], a[0]) / 2, r, p)
        raise Skip()
    a = [ex(x) for x in args]
    if len(a) == 1 and n in ('neg', 'pos', 'hlf', 'abs', 'nul', 'mag', 'mig', 'sqr', 'rec'): return real1(n, a[0])
    if len(a) == 2 and n in ('max', 'min'): return real2(n, *a)
    if len(a) == 2 and n in ('add', 'sub', 'mul', 'div', 'pow'): return real2(n, *a)
    if n == 'floor' and len(a) == 1 and not isinstance(a[0], float): return Q(math.floor(a[0]))
    if n == 'ceil' and len(a) == 1 and not isinstance(a[0], float): return Q(math.ceil(a[0]))
    if n == 'round' and len(a) == 1 and not isinstance(a[0], float): return Q(math.floor(a[0] + Q(1, 2)))
    if n == 'shft' and len(a) == 2: return a[0] * Q(2) ** int(a[1])
    if n in ('is_zero',): return a[0] == 0
    raise Skip()


class Machine:
    """interpreter of summary terms; env maps atoms to machine values"""
    def __init__(s, env): s.env = env; s.memo = {}
    def ev(s, t):
        if t in s.memo: return s.memo[t]
        r = s._ev(t); s.memo[t] = r
        return r
    def _ev(s, t):
        k = t[0]
        if t in s.env: return s.env[t]
        if k == 'int': return t[1]
        if k == 'rnd': return t
        if k == 'flt':
            try: return Q(t[1])
            except ValueError:
                v = float(t[1])
                if v != v: raise Skip()
                return v
        if k == 'bool': return t[1]
        if k == 'enum': return t[2]
        if k == 'fld' and t[2] == '_d': return s.ev(t[1])
        if k == 'fld' and t[1] in s.env and isinstance(s.env[t[1]], dict): return s.env[t[1]][t[2]]
        if k == 'fld':
            v = s.ev(t[1])
            if isinstance(v, dict) and t[2] in v: return v[t[2]]
            raise Skip()
        if k == 'rec':
            if t[1] in (DPN, MPN): return ('pr', PREC['DP' if t[1] == DPN else 'MP'])
            if len(t[2]) == 1 and t[2][0][0] in ('dbl', 'base'): return s.ev(t[2][0][1])
            if t[1] == 'Ariadne::ExactDouble': return s.ev(field(t, '_d'))
            if t[1] == 'Ariadne::TwoExp' and not t[2] and t[3]: return s.ev(t[3])
            if t[1] == 'Ariadne::TwoExp': return Q(2) ** s.ev(field(t, '_n'))
            d = {}
            if t[3] is not None:
                b = s.ev(t[3])
                if not isinstance(b, dict):
                    if not t[2]: return b
                    raise Skip()
                d.update(b)
            for f, v in t[2]: d[f] = s.ev(v)
            return d
        if k == 'app':
            n = t[1]
            if n in ('std::isnan', 'std::isinf'): return False
            if n == 'std::isfinite': return True
            if n == 'std::numeric_limits<double>::infinity': return INF
            ft, _, pn = n.partition('.')
            if ft in PREC:
                return prim(pn, [s.ev(x) for x in t[2:]], PREC[ft])
            raise Skip()
        if k == 'cmp':
            a, b = s.ev(t[2]), s.ev(t[3])
            _fin(a, b)
            if isinstance(a, (dict, tuple)) or isinstance(b, (dict, tuple)): raise Skip()
            return a < b if t[1] == '<' else a == b
        if k == 'bin':
            a, b = s.ev(t[2]), s.ev(t[3]); o = t[1]
            if isinstance(a, (dict, tuple)) or isinstance(b, (dict, tuple)): raise Skip()
            if o == '<': return a < b
            if o == '==': return a == b
            if o == '+': return a + b
            if o == '-': return a - b
            if o == '*': return a * b
            if o in '/%' and isinstance(a, int) and isinstance(b, int) and b != 0:
                q = abs(a) // abs(b); q = q if (a < 0) == (b < 0) else -q
                return q if o == '/' else a - q * b
            raise Skip()
        if k == 'un':
            if t[1] == '-': return -s.ev(t[2])
            raise Skip()
        if k == 'not': return not s.ev(t[1])
        if k == 'cast' and t[1] == 'IntegralToFloating': return s.ev(t[3])
        raise Skip()


# mark rounding arguments explicitly when summarising (so that pow(x,2) is not mistaken for a mode)
class NumPolicy2(NumPolicy):
    def call(s, ev, fn, this, args, node):
        r = super().call(ev, fn, this, args, node)
        if isinstance(r, tuple) and r and r[0] == 'term' and r[1][0] == 'app' and r[1][1].partition('.')[0] in PREC:
            off = 1 if (this is not None and fn.has('meth') and not fn.has('static') and not fn.has('ctor')) else 0
            t = list(r[1])
            for i, p in enumerate(fn.p):
                b = bare(p)
                if b in ('unsigned short', 'mpfr_rnd_t') or 'Round' in b:
                    x = t[2 + off + i]
                    if x[0] in ('int', 'enum'): t[2 + off + i] = ('rnd', RNDS.get(x[-1], '?'))
                    else:
                        m = re.search(r'Round(\w+)', b)
                        t[2 + off + i] = ('rnd', {'Upward': 'U', 'Downward': 'D', 'ToNearest': 'N', 'Approximately': 'N', 'TowardZero': 'Z'}.get(m.group(1) if m else '', '?'))
            return ('term', tuple(t))
        return r



def _fvals(ms): v = [Q(m, 8) * Q(2) ** e for e in (-2, -1, 0, 1, 2, 3) for m in ms]; return [Q(0)] + v + [-x for x in v]
FALL = {'MP': _fvals((8, 9, 11, 12, 13, 15)), 'DP': _fvals((8, 10, 12, 14))}
XVALS = [Q(0), Q(1), Q(-1), Q(1, 3), Q(-1, 3), Q(1, 10), Q(7, 5), Q(-7, 5), Q(22, 7), Q(-22, 7), Q(3), Q(-5), Q(17), Q(-33), Q(19, 64), Q(-37, 32), Q(41, 16)]
DYVALS = [x for x in XVALS if x.denominator & (x.denominator - 1) == 0]


def samples(k, rng):
    """(machine value, [real values represented])"""
    pos = k[0] == 'Pos'; k = strip_pos(k)
    c = k[0]
    fl = FALL.get(k[1][1] if c in VALID else k[1], FALL['MP'])
    def fv(): return abs(rng.choice(fl)) if pos else rng.choice(fl)
    if c == 'F': x = fv(); return x, [x]
    if c == 'Bounds':
        a, b = fv(), fv()
        if rng.random() < 0.25: b = a
        l, u = min(a, b), max(a, b)
        xs = [l, u, (l + u) / 2]
        if l < 0 < u: xs.append(Q(0))
        return {'_l': l, '_u': u}, xs
    if c == 'Ball':
        v, e = fv(), abs(rng.choice(FALL[k[2][1]])) * rng.choice([0, Q(1, 16), Q(1, 4), 1])
        xs = [v - e, v + e, v]
        if pos: xs = [x for x in xs if x >= 0]
        return {'_v': v, '_e': e}, xs
    if c == 'Lower': l = fv(); return {'_l': l}, [l, l + Q(1, 7), l + 3]
    if c == 'Upper':
        u = fv(); xs = [u, u - Q(1, 7), u - 3]
        if pos: xs = [x for x in xs if x >= 0]
        return {'_u': u}, xs
    if c == 'Error': e = abs(rng.choice(fl)); return {'_e': e}, [e, e / 3, Q(0)]
    if c == 'X':
        if k[1] == 'TwoExp': n = rng.choice([-3, -1, 0, 1, 2]); x = Q(2) ** n; return x, [x]
        if k[1] == 'Integer': x = rng.choice([x for x in XVALS if x.denominator == 1])
        elif k[1] in ('Dyadic', 'ExactDouble'): x = rng.choice(DYVALS)
        else: x = rng.choice(XVALS)
        if pos: x = abs(x)
        return x, [x]
    if c == 'int':
        n = rng.choice([0, 1, 2, 3, 4, 5]) if k[1] == 'u' else rng.choice([-4, -3, -2, -1, 0, 1, 2, 3, 5])
        return n, [Q(n)]
    if c == 'PR': return ('pr', PTARGET[k[1]]), [None]
    raise Skip()


TOL = Q(1, 10 ** 9)


def holds(k, v, x, approx):
    """is the real x represented by machine value v of class k"""
    tol = TOL * (1 + abs(x)) if approx else 0
    k = strip_pos(k); c = k[0]
    def le(a, b):
        _fin(a, b); return a <= b + tol if not (isinstance(a, float) or isinstance(b, float)) else a <= b
    if not isinstance(v, dict):
        if c in ('Lower',): return le(v, x)
        if c in ('Upper', 'Error'): return le(x, v)
        raise Skip()
    if c == 'Bounds': return le(v['_l'], x) and le(x, v['_u'])
    if c == 'Ball':
        if isinstance(v['_v'], float) or isinstance(v['_e'], float): raise Skip()
        return le(abs(x - v['_v']), v['_e'])
    if c in ('Lower', 'Upper', 'Error'):
        if len(v) != 1: raise Skip()
        w = next(iter(v.values()))
        return le(w, x) if c == 'Lower' else le(x, w)
    raise Skip()


def logval(v):
    if isinstance(v, bool): return 2 if v else -2
    if isinstance(v, dict): v = v.get('_v')
    if isinstance(v, int): return v
    raise Skip()


def as_set(k, v):
    k = strip_pos(k)
    if k[0] == 'Bounds': return v['_l'], v['_u']
    if k[0] == 'Ball': return v['_v'] - v['_e'], v['_v'] + v['_e']
    if k[0] == 'F': return v, v
    if k[0] == 'Lower': return v['_l'], INF
    if k[0] == 'Upper': return -INF, v['_u']
    raise Skip()


APPROX = {'exp', 'log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt'}


def check_point(c, paths, vals, xs):
    """evaluate one representative; returns None or a counterexample description"""
    env = {}
    for (sym, k, ty), v in zip(c.args, vals):
        if isinstance(v, dict):
            for f in v: env[('fld', sym, f)] = v[f]
        if strip_pos(k) == ('X', 'TwoExp'): env[('fld', sym, '_n')] = (v.numerator.bit_length() - 1) if v >= 1 else -(v.denominator.bit_length() - 1)
        if isinstance(v, int) and not isinstance(v, bool): env[sym] = v
        else: env[sym] = v
    for p in paths:
        m = Machine(env)
        try:
            if any(bool(m.ev(cond)) != d for cond, d in p.facts): continue
        except (Skip, TypeError, ValueError, ZeroDivisionError, OverflowError): return None
        if p.kind != 'ret': return None
        try:
            rv = p.outv if c.inplace else p.value
            v = m.ev(rv)
            c.judged = getattr(c, 'judged', 0) + 1
            return judge(c, v, vals, xs)
        except (Skip, OverflowError, ZeroDivisionError, KeyError, TypeError, ValueError, AttributeError) as e:
            if isinstance(e, KeyError): c.note = 'result fields not computed: ' + show(rv)[:200]
            return None
    return None


def judge(c, v, vals, xs):
    num = [(k, val, x) for (_, k, _), val, x in zip(c.args, vals, xs) if k[0] != 'PR']
    op = c.op
    approx = op in APPROX
    if op in RELS:
        r = logval(v) if not isinstance(v, bool) else (2 if v else -2)
        (k1, v1, _), (k2, v2, _) = num
        if op == 'same': return None
        a, b = as_set(k1, v1), as_set(k2, v2)
        if strip_pos(k1)[0] != strip_pos(k2)[0] and 'F' not in (k1[0], k2[0]): return None
        if op == 'refines': t = b[0] <= a[0] and a[1] <= b[1]
        elif op == 'models': t = a[0] <= b[0] and b[1] <= a[1]
        elif op == 'consistent': t = a[0] <= b[1] and b[0] <= a[1]
        elif op == 'inconsistent': t = a[1] < b[0] or b[1] < a[0]
        if strip_pos(k1)[0] == 'Ball':
            # rounded radii: only a wrong definite positive answer is an error
            if r == 2 and not t: return "answers true, but it is false"
            return None
        if (r == 2) != t: return "answers %s, but the exact answer is %s" % (r == 2, t)
        return None
    if op in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
        r = logval(v)
        (k1, v1, X1), (k2, v2, X2) = num
        for a in X1:
            for b in X2:
                t = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[op]
                if op in ('lt', 'gt', 'le', 'ge') and a == b: continue
                if r == 2 and not t: return "answers true for %s and %s" % (a, b)
                if r == -2 and t: return "answers false for %s and %s" % (a, b)
        return None
    if op == 'refinement':
        X1, X2 = num[0], num[1]
        for x in X1[2] + X2[2]:
            if holds(X1[0], X1[1], x, False) and holds(X2[0], X2[1], x, False) and not holds(c.res, v, x, False): return "common value %s is lost: result %s" % (x, sv(v))
        return None
    if op == 'id':
        for x in num[0][2]:
            if not holds(c.res, v, x, approx): return "value %s is outside the result %s" % (x, sv(v))
        return None
    if op == 'assign':
        for x in num[1][2]:
            if not holds(c.res, v, x, approx): return "value %s is outside the assigned %s" % (x, sv(v))
        return None
    if op == 'ball':
        vv, e = num[0][1], num[1][1]
        e = e['_e'] if isinstance(e, dict) else e
        if e < 0: return None
        for x in (vv - e, vv, vv + e):
            if not holds(c.res, v, x, False): return "value %s of the ball %s+/-%s is outside the result %s" % (x, vv, e, sv(v))
        return None
    if op == 'interval':
        l, u = num[0][1], num[1][1]
        l = l['_l'] if isinstance(l, dict) else l; u = u['_u'] if isinstance(u, dict) else u
        if l > u: return None
        for x in (l, u):
            if not holds(c.res, v, x, False): return "value %s of [%s,%s] is outside the result %s" % (x, l, u, sv(v))
        return None
    for X in itertools.product(*[x for _, _, x in num]):
        try:
            if op == 'fma': y = real2('add', real2('mul', X[0], X[1]), X[2])
            elif len(X) == 1: y = real1(op, X[0])
            else: y = real2(op, X[0], X[1])
        except Skip: continue
        if isinstance(y, float): continue
        if not holds(c.res, v, y, approx): return "%s(%s)=%s is outside the result %s" % (op, ','.join(map(str, X)), y if y.denominator < 10**6 else float(y), sv(v))
    return None


def sv(v):
    if isinstance(v, dict): return '{' + ', '.join('%s=%s' % (k.strip('_'), x) for k, x in v.items()) + '}'
    return str(v)


def search(c, paths, n=1500, seed=1):
    rng = random.Random(seed * 7919 + 17)
    # argument reduction by pi is only meaningful when pi is resolved: finer machine for periodic functions
    PREC.update({'DP': 14, 'MP': 14} if c.op in ('sin', 'cos', 'tan') else {'DP': 3, 'MP': 4})
    for i in range(n):
        try: sm = [samples(k, rng) for _, k, _ in c.args]
        except Skip: return None, 0
        vals = [a for a, _ in sm]; xs = [b for _, b in sm]
        r = check_point(c, paths, vals, xs)
        if r: return "for arguments (%s): %s" % ('; '.join(sv(v) for v in vals if not isinstance(v, tuple)), r), i
    return None, n


def summarise(prog, c):
    inv = []
    for sym, k, ty in c.args: inv += invariants(sym, ty, k)
    f = c.fn
    this = None; args = [a[0] for a in c.args]
    if f.has('meth') and not f.has('static') and not f.has('ctor'): this = args[0]; args = args[1:]
    paths = run(prog, f, NumPolicy2(inv), this=this, args=args)
    if c.inplace:
        for p in paths:
            if p.kind == 'ret': p.outv = p.this if this is not None else p.outs[0]
    return paths
