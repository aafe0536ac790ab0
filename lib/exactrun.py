"""Exact number classes (Integer, Dyadic, Rational, Decimal and bounds/balls with exact ends).

Every operation is summarised as terms over its operands, with GMP calls as exact primitives and calls of other public
operations replaced by their specification (each is an obligation of its own).  The summary has to be the named
mathematical operation: both are piecewise rational functions of low degree whose pieces are cut out by comparisons of
the operands, so agreement on a set of operand values realising every order/sign/special-value pattern with more points
per piece than the degree settles equality; a disagreement is a counterexample of the summary."""
import re, itertools, math
from fractions import Fraction as Q
import prog, tus
from prog import VERIF, AnalysisBroken
from engine import *
from report import Ob, pmap

A = 'Ariadne::'
CLS = {A + 'Integer': 'Z', A + 'Natural': 'N', A + 'Positive<Ariadne::Integer>': 'N', A + 'Dyadic': 'W', A + 'Positive<Ariadne::Dyadic>': 'W+', A + 'Rational': 'Q', A + 'Positive<Ariadne::Rational>': 'Q+',
       A + 'Decimal': 'D', A + 'Positive<Ariadne::Decimal>': 'D+', A + 'TwoExp': 'T', A + 'Two': '2', A + 'ExactDouble': 'E', 'int': 'i', 'unsigned int': 'u', 'unsigned long': 'ul', 'long': 'l', 'unsigned long long': 'ul', 'long long': 'l', 'double': 'd',
       A + 'Nat32': 'n32', A + 'Int32': 'i32', A + 'Nat64': 'n64', A + 'Int64': 'i64', A + 'Sign': 'S', '__mpf_struct *': 'F',
       A + 'Bounds<Ariadne::Dyadic>': 'BW', A + 'Bounds<Ariadne::Rational>': 'BQ', A + 'Ball<Ariadne::Dyadic, Ariadne::Dyadic>': 'MW', A + 'LowerBound<Ariadne::Dyadic>': 'LW', A + 'UpperBound<Ariadne::Dyadic>': 'UW', A + 'Bounds<Ariadne::Decimal>': 'BD'}
INF, NINF, NAN = 'inf', '-inf', 'nan'
SPEC = (INF, NINF, NAN)
NANFLAG = -2 ** 63
class Skip(Exception): pass


def cls(ty): return CLS.get(bare(ty))
def fin(x): return not isinstance(x, str)
def sgn(x): return (0 if x == NAN else 1 if x == INF else -1) if isinstance(x, str) else (x > 0) - (x < 0)


# ---------------------------------------------------------------- exact extended arithmetic
def o_neg(a): return -a if fin(a) else {INF: NINF, NINF: INF, NAN: NAN}[a]
def o_add(a, b):
    if fin(a) and fin(b): return a + b
    if NAN in (a, b) or (not fin(a) and not fin(b) and a != b): return NAN
    return a if not fin(a) else b
def o_mul(a, b):
    if fin(a) and fin(b): return a * b
    if NAN in (a, b): return NAN
    return {1: INF, -1: NINF, 0: NAN}[sgn(a) * sgn(b)]
def o_rec(a):
    if fin(a):
        if a == 0: raise Skip()
        return Q(1) / a
    return NAN if a == NAN else Q(0)
def o_div(a, b):
    if fin(a) and fin(b):
        if b == 0: raise Skip()
        return Q(a) / b
    if b == 0: raise Skip()
    return o_mul(a, o_rec(b))
def o_cmp(a, b):
    if NAN in (a, b): return None
    k = {INF: 1, NINF: -1}
    x = (k.get(a, 0) if not fin(a) else 0, a if fin(a) else 0); y = (k.get(b, 0) if not fin(b) else 0, b if fin(b) else 0)
    return (x > y) - (x < y)
def o_max(a, b): return NAN if NAN in (a, b) else a if o_cmp(a, b) >= 0 else b
def o_min(a, b): return NAN if NAN in (a, b) else a if o_cmp(a, b) <= 0 else b
def o_pow(a, n):
    if not fin(a): raise Skip()
    if n < 0 and a == 0: raise Skip()
    return Q(a) ** n
def need(a):
    if not fin(a): raise Skip()
    return a
def o_round(a): a = need(a); return int(math.floor(abs(a) + Q(1, 2))) * (1 if a >= 0 else -1)
OPS = {'nul': lambda a: Q(0), 'pos': lambda a: a, 'id': lambda a: a, 'neg': o_neg, 'sqr': lambda a: o_mul(a, a), 'hlf': lambda a: o_mul(a, Q(1, 2)), 'rec': o_rec, 'abs': lambda a: a if a == NAN else INF if a == NINF else abs(a) if fin(a) else a,
       'add': o_add, 'sub': lambda a, b: o_add(a, o_neg(b)), 'mul': o_mul, 'div': o_div, 'max': o_max, 'min': o_min, 'pow': o_pow,
       'quot': lambda a, b: skip0(b) or Q(a // b), 'rem': lambda a, b: skip0(b) or Q(a - b * (a // b)), 'floor': lambda a: math.floor(need(a)), 'ceil': lambda a: math.ceil(need(a)), 'round': o_round,
       'shft': lambda a, n: o_mul(a, Q(2) ** n), 'inc': lambda a: a + 1, 'dec': lambda a: a - 1,
       'num': lambda a: need(a) and Q(a).numerator or 0, 'den': lambda a: Q(need(a)).denominator, 'fma': lambda a, b, c: o_add(o_mul(a, b), c)}
def skip0(b):
    if b == 0: raise Skip()
OPS['mag'] = OPS['mig'] = OPS['abs']
CMP = {'eq': lambda c: c == 0, 'lt': lambda c: c == -1, 'operator==': lambda c: c == 0, 'operator!=': lambda c: c != 0, 'operator<': lambda c: c == -1, 'operator>': lambda c: c == 1, 'operator<=': lambda c: c in (-1, 0), 'operator>=': lambda c: c in (0, 1)}
PRED = {'is_nan': lambda a: a == NAN, 'is_inf': lambda a: a in (INF, NINF), 'is_finite': fin, 'is_zero': lambda a: fin(a) and a == 0}
ARITH = {('operator+', 1): 'pos', ('operator-', 1): 'neg', ('operator+', 2): 'add', ('operator-', 2): 'sub', ('operator*', 2): 'mul', ('operator/', 2): 'div', ('operator+=', 2): 'add', ('operator-=', 2): 'sub', ('operator*=', 2): 'mul', ('operator/=', 2): 'div', ('operator++', 1): 'inc', ('operator--', 1): 'dec'}
for n in 'nul pos neg sqr hlf rec abs mag mig floor ceil round'.split(): ARITH[(n, 1)] = n
for n in 'add sub mul div max min pow quot rem'.split(): ARITH[(n, 2)] = n
ARITH[('fma', 3)] = 'fma'; ARITH[('cast_positive', 1)] = 'id'

# ---------------------------------------------------------------- GMP primitives
GMP = {}
def g(names, op, n):
    for x in names.split(): GMP['__gmp' + x] = (op, n)
for t in 'zfq':
    for o in 'add sub mul'.split(): g(t + '_' + o, o, 2)
    for o in 'neg abs set'.split(): g(t + '_' + o, 'id' if o == 'set' else o, 1)
    g(t + '_set_si ' + t + '_set_ui ' + t + '_set_d ' + t + '_set_z ' + t + '_set_q', 'id', 1)
g('f_div q_div', 'div', 2); g('q_inv', 'rec', 1); g('z_add_ui f_add_ui', 'add', 2); g('z_sub_ui f_sub_ui', 'sub', 2); g('z_mul_si z_mul_ui f_mul_ui', 'mul', 2)
g('z_mul_2exp f_mul_2exp q_mul_2exp', 'shft', 2); g('f_div_2exp q_div_2exp', 'shftn', 2); g('z_pow_ui f_pow_ui', 'pow', 2)
g('z_fdiv_q', 'quot', 2); g('z_cdiv_q', 'cquot', 2); g('z_tdiv_q z_divexact', 'tquot', 2); g('z_fdiv_r z_mod', 'rem', 2); g('z_cdiv_r', 'crem', 2); g('z_tdiv_r', 'trem', 2)
g('f_floor', 'floor', 1); g('f_ceil', 'ceil', 1); g('f_trunc z_set_f', 'trunc', 1); g('q_set_f', 'id', 1); g('q_get_num', 'num', 1); g('q_get_den', 'den', 1)
g('f_ui_div', 'div', 2); g('f_ui_sub', 'sub', 2)
def tq(a, b): skip0(b); return Q(int(Q(a) / Q(b)))
OPS.update({'shftn': lambda a, n: o_mul(a, Q(2) ** -n), 'cquot': lambda a, b: skip0(b) or Q(-(-a // b)), 'tquot': tq, 'crem': lambda a, b: skip0(b) or Q(a + b * (-a // b)), 'trem': lambda a, b: a - b * tq(a, b), 'trunc': lambda a: Q(int(need(a)))})


class XPol(Policy):
    max_paths = 400
    icasts = True
    def __init__(s, prog, root): s.prog = prog; s.root = root; s.inits = []
    def fp(s, ev, op, args): return ('X', {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op]) + tuple(args)
    def lv(s, ev, a):
        if isinstance(a, LV):
            v = ev.read(a)
            return LV(v[1], v[2]) if v[0] == 'ptr' else a
        if a[0] == 'ptr': return LV(a[1], a[2])
        raise Unsupported("GMP destination")
    def mv(s, ev, a):
        v = ev.rv(a)
        return ev.read(LV(v[1], v[2])) if v[0] == 'ptr' else v
    def loop(s, ev, nf):
        return None
    def gvar(s, ev, q, ty):
        if q.split('::')[-1] in ('ten', '_ten') and 'Integer' in ty: return ('k', Q(10))
        if q.split('::')[-1] == 'infty' and 'Dyadic' in ty: return ('k', INF)
        return None
    def call(s, ev, fn, this, args, node):
        n = fn.n
        if n == '__builtin_constant_p': return ('term', I(0))
        if n.startswith('__gmp') or n.startswith('_mpz') or n.startswith('_mpq'): return s.gmp(ev, n, args)
        if n in ('isnan', 'isinf', 'isfinite') and len(args) == 1: return ('term', ('P', {'isnan': 'is_nan', 'isinf': 'is_inf', 'isfinite': 'is_finite'}[n], ev.rv(args[0])))
        if fn.rec and 'numeric_limits' in fn.rec:
            if n in ('infinity', 'quiet_NaN'): return ('term', ('k', INF if n == 'infinity' else NAN))
            m = re.search(r'numeric_limits<(.*)>', fn.rec); t = m.group(1) if m else ''
            w = {'int': 32, 'long': 64, 'unsigned int': 32, 'unsigned long': 64, 'unsigned long long': 64, 'long long': 64}.get(t)
            if w and n in ('max', 'min'):
                if t.startswith('unsigned'): return ('term', I(2 ** w - 1 if n == 'max' else 0))
                return ('term', I(2 ** (w - 1) - 1 if n == 'max' else -2 ** (w - 1)))
        if n in ('abs', 'fabs') and (fn.tq.startswith('std::') or fn.file.startswith('/usr') or fn.file == ''): return ('term', ('X', 'abs', ev.rv(args[0])))
        if n == 'pow' and fn.tq.startswith('std::'): return ('term', ('X', 'pow', ev.rv(args[0]), ev.rv(args[1])))
        if fn.tq in ('std::max', 'std::min') and len(args) == 2 and cls(fn.p[0]): return ('term', ('X', n, ev.rv(args[0]), ev.rv(args[1])))
        if fn is s.root: raise Unsupported("recursion")
        if n == 'canonicalize' and fn.rec == A + 'Decimal': return ('term', ('void',))
        sp = spec(fn)
        if sp is None: return None
        vs = [ev.rv(a) for a in (([this] if is_meth(fn) else []) + list(args))]
        k = sp[0]
        if k == 'op':
            t = ('X', sp[1]) + tuple(vs)
            if fn.n.endswith('=') and fn.n in ('operator+=', 'operator-=', 'operator*=', 'operator/=') or fn.n in ('operator++', 'operator--'):
                lv = this if is_meth(fn) else args[0]
                ev.write(lv, t); return lv
            return ('term', t)
        if k == 'cmp': return ('term', ('C3',) + tuple(vs))
        if k == 'rel': return ('term', wrapb(fn.ret, ('R', sp[1]) + tuple(vs), ev))
        if k == 'pred': return ('term', ('P', sp[1]) + tuple(vs))
        if k == 'sgn': return ('term', ('S',) + tuple(vs))
        if k == 'const': return ('term', ('k', sp[1]))
        if k == 'conv' and (sp[1] != 'id' or cls(fn.p[0] if fn.p else '') or fn.has('conv') or is_meth(fn)):
            t = ('X', sp[1]) + tuple(vs)
            return ('term', t)
        return None
    def gmp(s, ev, n, args):
        if n in GMP:
            op, k = GMP[n]
            xs = [s.mv(ev, a) for a in args[1:1 + k]]
            t = ('X', op) + tuple(xs)
            if n in ('__gmpq_set_si', '__gmpq_set_ui'): t = ('rec', 'mpq', (('_mp_num', s.mv(ev, args[1])), ('_mp_den', s.mv(ev, args[2]))), None)
            ev.write(s.lv(ev, args[0]), t); return ('term', ('void',))
        if re.match(r'__gmp[zfq]_(init|init2|inits?)$', n):
            if n.startswith('__gmpf_init'): s.inits.append((ev.rv(args[1]) if len(args) > 1 else I(64)))
            ev.write(s.lv(ev, args[0]), ('k', Q(0))); return ('term', ('void',))
        m = re.match(r'__gmp([zfq])_init_set(_si|_ui|_d|)$', n)
        if m: ev.write(s.lv(ev, args[0]), ('X', 'id', s.mv(ev, args[1]))); return ('term', ('void',))
        if re.match(r'__gmp[zfq]_clear$', n): return ('term', ('void',))
        if re.match(r'__gmp[zfq]_swap$', n):
            a, b = s.lv(ev, args[0]), s.lv(ev, args[1]); x, y = ev.read(a), ev.read(b); ev.write(a, y); ev.write(b, x); return ('term', ('void',))
        if re.match(r'(__gmp|_mp)[zfq]_cmp(_si|_ui|_z|_d|)$', n):
            # GMP fixes only the sign of a comparison; integer and rational comparisons do return other magnitudes, the
            # macros comparing with a constant zero and the floating comparisons do not
            b = s.mv(ev, args[1])
            if n.startswith(('__gmpq_cmp_', '_mpq_cmp_')) and len(args) == 3: b = ('X', 'div', b, s.mv(ev, args[2])) if s.mv(ev, args[2]) != I(1) else b
            return ('term', ('G' if 'f_cmp' not in n and b != I(0) else 'G1', s.mv(ev, args[0]), b))
        if n in ('__gmpq_equal',): return ('term', ('R', 'eq', s.mv(ev, args[0]), s.mv(ev, args[1])))
        if n == '__gmpq_canonicalize': lv = s.lv(ev, args[0]); ev.write(lv, ('X', 'canon', ev.read(lv))); return ('term', ('void',))
        if n == '__gmpq_set_num': ev.write(s.lv(ev, args[0]).sub(('f', '_mp_num')), s.mv(ev, args[1])); return ('term', ('void',))
        if n == '__gmpq_set_den': ev.write(s.lv(ev, args[0]).sub(('f', '_mp_den')), s.mv(ev, args[1])); return ('term', ('void',))
        if n in ('__gmpz_get_si', '__gmpz_get_ui'): return ('term', ('icast', 'long' if n.endswith('si') else 'unsigned long', s.mv(ev, args[0])))
        if n == '__gmpz_sizeinbase' and ev.rv(args[1]) == I(2): return ('term', ('X', 'bits', s.mv(ev, args[0])))
        if n == '__gmpz_import' and ev.rv(args[1]) == I(1): ev.write(s.lv(ev, args[0]), ('X', 'id', s.mv(ev, args[6]))); return ('term', ('void',))
        raise Unsupported(n)
OPS['canon'] = lambda a: a
OPS['bits'] = lambda a: max(1, int(a).bit_length())


def is_meth(fn): return fn.has('meth') and not fn.has('static') and not fn.has('ctor')


def wrapb(ret, t, ev):
    if bare(ret) == 'bool': return t
    return ('rec', bare(ret), (('_v', ('B', t)),), None)


NUMK = ('Z', 'N', 'W', 'W+', 'Q', 'Q+', 'D', 'D+')
def spec(fn):
    """what a function of the exact classes has to compute, or None"""
    ks = [cls(p) for p in fn.p]; r = cls(fn.ret) if not fn.has('ctor') else cls(fn.rec)
    n = fn.n
    if fn.rec and fn.rec.split('<')[0] in (A + 'ExtendedOperations', A + 'FiniteOperations', A + 'ExtensionOperations'): return None
    if any(k is None for k in ks): return None
    if is_meth(fn):
        c = cls(fn.rec)
        if c not in NUMK: return None
        if n.startswith('operator ') or fn.has('conv'):
            return ('conv', 'id') if r in NUMK else None
        if n in ('get_num', 'numerator', 'mantissa'): return ('op', 'num')
        if n in ('get_den', 'denominator'): return ('op', 'den')
        return None
    if fn.has('ctor'):
        if r in NUMK and len(ks) == 1:
            if fn.p[0].strip().startswith('__mpf_struct') or ks[0] == 'd' and r != 'W': return None
            return ('conv', 'id')
        if (r, len(ks)) == ('W', 2): return ('conv', 'shftn')
        if (r, len(ks)) == ('Q', 2): return ('conv', 'ndiv')
        if (r, len(ks)) == ('D', 2): return ('conv', 'dec2')
        if not ks and r in NUMK: return ('const', Q(0))
        return None
    if fn.has('static') and fn.rec and cls(fn.rec) in NUMK:
        if n == 'inf': return ('const', INF) if not ks else ('conv', 'sinf') if ks == ['S'] else None
        if n == 'nan' and not ks: return ('const', NAN)
        return None
    if not any(k in NUMK or k in ('T', '2') for k in ks): return None
    if any(k in ('BW', 'BQ', 'MW', 'LW', 'UW', 'BD', 'S') for k in ks): return None
    if n == 'cmp' and len(ks) == 2: return ('cmp',)
    if n == 'sgn' and len(ks) == 1: return ('sgn',)
    if n in PRED and len(ks) == 1: return ('pred', n)
    if n in CMP and len(ks) == 2: return ('rel', n)
    if (n, len(ks)) in ARITH and (r in NUMK or r == 'T'): return ('op', ARITH[(n, len(ks))])
    if n == 'log2floor' and len(ks) == 1: return ('op', 'log2')
    return None
OPS['ndiv'] = lambda a, b: (Q(a) / b if b else NAN if a == 0 else INF if a > 0 else NINF)
OPS['dec2'] = lambda p, q: Q(p) / Q(10) ** q
OPS['sinf'] = lambda s: {1: INF, -1: NINF, 0: NAN}[s]
def log2f(a):
    if a <= 0: raise Skip()
    return int(a).bit_length() - 1
OPS['log2'] = log2f


# ---------------------------------------------------------------- evaluation of summaries
def val(t, env):
    k = t[0]
    if k == 'k': return t[1]
    if k == 'int': return Q(t[1])
    if k == 'bool': return Q(int(t[1]))
    if k == 'enum': return Q(t[2])
    if k == 'flt':
        s = t[1]
        if 'inf' in s: return NINF if s.startswith('-') else INF
        if 'nan' in s: return NAN
        return Q(float(s))
    if k == 'sym':
        if t[1] not in env: raise Skip()
        return env[t[1]]
    if k == 'fld':
        f = t[2]; x = t[1]
        v = val(x, env)
        if isinstance(v, dict):
            if f in v: return v[f]
            if len(v) == 1 and f.startswith('_mp'): return list(v.values())[0]
            raise Skip()
        if f in ('_mpz', '_mpf', '_mpq', '_d', '_n', '_m', 'dbl', '_mpfr'): return v
        if f == '_mp_size': return Q(sgn(v) if fin(v) else 0)
        if f == '_mp_exp': return Q({INF: 1, NINF: -1, NAN: NANFLAG}[v]) if not fin(v) else Q(0 if v == 0 else 1)
        if f == '_mp_num': return Q({INF: 1, NINF: -1, NAN: 0}[v]) if not fin(v) else Q(Q(v).numerator)
        if f == '_mp_den': return Q(0) if not fin(v) else Q(Q(v).denominator)
        raise Skip()
    if k == 'rec':
        if t[1] == A + 'Decimal' or t[1] == A + 'Positive<Ariadne::Decimal>' or any(f == '_p' for f, v in t[2]):
            d = dict(t[2])
            if '_p' not in d and t[3] is not None:
                b = val(t[3], env)
                d2 = b if isinstance(b, dict) else None
                if d2 is None and not t[2]: return b
                raise Skip()
            return {'_p': val(d['_p'], env), '_q': val(d['_q'], env)}
        fs = [(f, v) for f, v in t[2] if not f.startswith('#')]
        if t[1] == A + 'Two' and not fs: return Q(2)
        if t[1] == A + 'TwoExp' and fs: return {'_n': val(dict(fs)['_n'], env)}
        names = {f for f, v in fs}
        if '_mp_size' in names or '_mp_exp' in names:
            sz = val(dict(fs)['_mp_size'], env) if '_mp_size' in names else val(('fld', t[3], '_mp_size'), env)
            ex = val(dict(fs)['_mp_exp'], env) if '_mp_exp' in names else val(('fld', t[3], '_mp_exp'), env)
            if sz != 0: raise Skip()
            if ex == 0: return Q(0)
            if ex == NANFLAG: return NAN
            if ex in (1, -1): return INF if ex > 0 else NINF
            raise Skip()
        if names & {'_mp_num', '_mp_den'}:
            nu = val(dict(fs)['_mp_num'], env) if '_mp_num' in names else val(('fld', t[3], '_mp_num'), env)
            de = val(dict(fs)['_mp_den'], env) if '_mp_den' in names else val(('fld', t[3], '_mp_den'), env)
            if de == 0:
                if abs(nu) > 1: return ('raw', nu, de)
                return {1: INF, -1: NINF, 0: NAN}[int(nu)]
            if de < 0 or math.gcd(int(nu), int(de)) != 1: return ('raw', nu, de)
            return Q(nu) / de
        if not fs and t[3] is not None: return val(t[3], env)
        if len(fs) == 1:
            if fs[0][0] == '_v': return val(fs[0][1], env)
            return val(fs[0][1], env)
        return {f: val(v, env) for f, v in fs}
    if k == 'idx' or k == 'deref': return val(t[1], env)
    if k == 'store':
        return val(t[3], env)
    if k == 'X':
        xs = [num(val(x, env), 'canon' if t[1] == 'canon' else None) for x in t[2:]]
        if t[1] == 'pow' and xs[1].denominator != 1: raise Skip()
        if t[1] in ('shft', 'shftn', 'pow'):
            xs[1] = int(xs[1])
            if abs(xs[1]) > 500: raise Skip()
        r = OPS[t[1]](*xs)
        return Q(r) if fin(r) else r
    if k == 'G1':
        c = o_cmp(num(val(t[1], env)), num(val(t[2], env)))
        if c is None: raise Skip()
        return Q(c)
    if k == 'G':
        # sign of a GMP comparison: only the sign is specified, so a magnitude above one has to be accepted
        c = o_cmp(num(val(t[1], env)), num(val(t[2], env)))
        if c is None: raise Skip()
        return Q(c * env.get('#mag', 1))
    if k == 'C3':
        c = o_cmp(num(val(t[1], env)), num(val(t[2], env)))
        return Q(-128) if c is None else Q(c)
    if k == 'S': return Q(sgn(num(val(t[1], env))))
    if k == 'R':
        a, b = num(val(t[2], env)), num(val(t[3], env))
        return Q(int(CMP[t[1]](o_cmp(a, b))))
    if k == 'P': return Q(int(PRED[t[1]](num(val(t[2], env)))))
    if k == 'B': return Q(2 if val(t[1], env) != 0 else -2)
    if k in ('icast', 'ecast'):
        v = val(t[2], env)
        if not fin(v): raise Skip()
        if t[1] in IWIDTH:
            w = IWIDTH[t[1]]; m = int(v) & ((1 << w) - 1)
            if not t[1].startswith('unsigned') and m >= 1 << (w - 1): m -= 1 << w
            return Q(m)
        m = int(v) & 255
        return Q(m - 256 if m > 127 else m)
    if k == 'un' and t[1] == '-': return o_neg(num(val(t[2], env)))
    if k == 'not': return Q(int(val(t[1], env) == 0))
    if k == 'bin':
        a, b = num(val(t[2], env)), num(val(t[3], env)); o = t[1]
        if o in ('+', '-', '*'): return OPS[{'+': 'add', '-': 'sub', '*': 'mul'}[o]](a, b)
        if o == '%':
            skip0(b); return a - b * tq(a, b)
        if o == '/': return tq(a, b)
        if o in ('==', '<', '<=', '>', '>=', '!='):
            c = o_cmp(a, b)
            return Q(int(CMP['operator' + o](c) if c is not None else o == '!='))
    if k == 'ite': return val(t[2] if val(t[1], env) != 0 else t[3], env)
    if k == 'cast': return val(t[3], env)
    if k == 'app' and t[1] in ('std::min', 'std::max') and len(t) == 4: return OPS[t[1][5:]](num(val(t[2], env)), num(val(t[3], env)))
    raise Skip()


def num(v, mode=None):
    if isinstance(v, dict):
        if set(v) == {'_n'}: return Q(2) ** int(v['_n'])
        if set(v) == {'_p', '_q'}: return Q(num(v['_p'])) / Q(10) ** int(v['_q'])
        raise Skip()
    if isinstance(v, tuple):
        if mode == 'canon':
            if v[2] == 0: raise Skip()
            return Q(v[1]) / v[2]
        raise NotCanonical()
    return v
class NotCanonical(Exception): pass


ZS = [Q(x) for x in (-12, -7, -3, -2, -1, 0, 1, 2, 3, 5, 8, 2 ** 70, -2 ** 70)]
WS = [Q(x, 4) for x in (-9, -8, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 8, 10, 11)] + [Q(2) ** 70, -Q(2) ** 70, INF, NINF, NAN]
QS = [Q(-7, 2), Q(-5, 3), Q(-1), Q(-1, 3), Q(0), Q(1, 5), Q(1, 2), Q(1), Q(3, 2), Q(5, 2), Q(7, 3), Q(2) ** 70, -Q(2) ** 70, INF, NINF, NAN]
DS = [{'_p': Q(p), '_q': Q(q)} for p, q in ((0, 0), (0, 2), (3, 0), (-3, 0), (25, 1), (-25, 1), (250, 2), (7, 3), (-7, 3), (1, 1), (10, 1), (1, 0), (4, 1), (-10, 2), (6, 4), (-6, 7), (1234566, 5), (12, 3), (-35, 8), (1000, 2), (2 ** 70, 3), (-2 ** 70 - 1, 0))]
US = [Q(x) for x in (0, 1, 2, 3, 4, 5)]
GRID = {'Z': ZS, 'N': [x for x in ZS if x >= 0], 'W': WS, 'W+': [x for x in WS if fin(x) and x >= 0] + [INF], 'Q': QS, 'Q+': [x for x in QS if fin(x) and x >= 0] + [INF], 'D': DS, 'D+': [x for x in DS if x['_p'] >= 0],
        'u': US, 'i': [Q(x) for x in (-4, -3, -2, -1, 0, 1, 2, 3, 4)], 'ul': US + [Q(2 ** 31), Q(2 ** 32 + 5), Q(2 ** 63), Q(2 ** 64 - 1), Q(2 ** 31 - 1)], 'l': [Q(x) for x in (-2 ** 63, -2 ** 31 - 1, -5, -1, 0, 1, 7, 2 ** 31, 2 ** 63 - 1)],
        'n32': [Q(x) for x in (0, 1, 2 ** 31, 2 ** 32 - 1)], 'i32': [Q(x) for x in (-2 ** 31, -1, 0, 1, 2 ** 31 - 1)], 'T': [{'_n': Q(x)} for x in (-3, -1, 0, 1, 2, 5)], '2': [Q(2)], 'E': [Q(x, 4) for x in (-9, -4, -1, 0, 1, 2, 4, 7)] + [INF, NINF, NAN], 'd': [Q(x, 4) for x in (-9, -4, -1, 0, 1, 2, 4, 7)] + [INF, NINF, NAN], 'S': [Q(-1), Q(0), Q(1)]}
GRID['F'] = [x for x in WS if fin(x)]
GRID['n64'] = GRID['ul']; GRID['i64'] = GRID['l']
def mean(k, v): return num(v)
def show1(v): return ('%sE-%s' % (v['_p'], v['_q']) if '_p' in v else '2^%s' % v['_n']) if isinstance(v, dict) else str(v)


def consts(t, acc):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'int' and isinstance(t[1], int): acc.add(t[1])
        else:
            for x in t: consts(x, acc)


def grid(k, cs):
    """operand values of class k: the standard patterns and values around every constant the code mentions"""
    g = list(GRID[k])
    near = sorted({Q(v) for c in cs for v in (c - 1, c, c + 1, -c, 2 * c, 2 * c + 1, 4 * c + 2)})
    if k in ('Z', 'l', 'i64'): new = near
    elif k in ('i', 'i32'): new = [v for v in near if abs(v) < 2 ** 20]
    elif k in ('N', 'ul', 'n64'): new = [v for v in near if v >= 0]
    elif k in ('u', 'n32'): new = [v for v in near if 0 <= v < 2 ** 20]
    elif k in ('W', 'F', 'd', 'E'): new = near + [v + Q(1, 4) for v in near]
    elif k == 'Q': new = near + [v + Q(1, 3) for v in near] + [1 / v for v in near if v]
    elif k in ('W+', 'Q+'): new = [v for v in near if v >= 0]
    elif k == 'D': new = [{'_p': a, '_q': b} for b in [v for v in near if 0 <= v <= 40] for a in [Q(x) for x in (-7, 3, 6, 40)]] + [{'_p': a, '_q': Q(b)} for a in near for b in (0, 1, 3)]
    else: new = []
    if k in ('l', 'i64'): new = [v for v in new if -2 ** 63 <= v < 2 ** 63]
    if k in ('ul', 'n64'): new = [v for v in new if v < 2 ** 64]
    return g + [v for v in new if v not in g]


def judge(p, f, sp):
    meth = is_meth(f)
    tys = ([f.rec] if meth else []) + [ty for _, _, ty in f.params]
    ks = [cls(t) for t in tys]
    names = (['this'] if meth else []) + [nm or 'p%d' % i for i, (_, nm, _) in enumerate(f.params)]
    if len(set(names)) != len(names): names = ['a%d' % i for i in range(len(names))]
    args = [('sym', nm, ty) for nm, (_, _, ty) in zip(names[1 if meth else 0:], f.params)]
    pol = XPol(p, f)
    try: paths = run(p, f, pol, this=('sym', 'this', f.rec) if meth else None, args=args)
    except Unsupported as e:
        if 'loop with symbolic bound' not in str(e) or 'u' not in ks: raise
        # a loop counted by a built-in parameter: constant propagation for each small value of the parameter
        j = ks.index('u'); paths = []
        for v in GRID['u']:
            a2 = list(args); a2[j - (1 if meth else 0)] = I(int(v))
            for q in run(p, f, pol, this=('sym', 'this', f.rec) if meth else None, args=a2): q.facts = [(('bin', '==', ('sym', names[j], ''), I(int(v))), True)] + q.facts; paths.append(q)
    r = cls(f.ret) if not f.has('ctor') else cls(f.rec)
    for i in pol.inits:
        if (f.rec == A + 'Dyadic' and f.has('ctor')) and not (i[0] == 'int' and i[1] >= 65535):
            return 'violated', 'initialises the number with only %s bits: values assigned to it later are rounded' % show(i), 0
    n = 0; skipped = 0; hit = set()
    cs = set()
    for q in paths: consts(tuple(x for x in q.facts), cs); consts(q.value, cs)
    cs = {c for c in cs if 2 < abs(c) < 2 ** 66 and c not in (10, 65535, 65536)}
    sets = [grid(k, cs) for k in ks]
    size = 1
    for g_ in sets: size *= len(g_)
    if size > 60000: sets = [GRID[k] for k in ks]
    for vals in itertools.product(*sets) if ks else [()]:
        for mag in ((1, 7) if any('G' in repr(q.value) or "'G'" in repr(q.facts) for q in paths) else (1,)):
            env = dict(zip(names, vals)); env['#mag'] = mag
            try:
                if sp[0] in ('op', 'conv') and not any(k == 'D' for k in ks) and f.n == 'operator^': raise Skip()
                xs = [mean(k, v) for k, v in zip(ks, vals)]
                if sp[0] == 'op' and r == 'T': pass
                if sp[0] in ('op', 'conv'):
                    if sp[1] in ('shftn', 'pow', 'dec2'):
                        xs[-1] = int(xs[-1])
                        if abs(xs[-1]) > 500: raise Skip()
                    want = OPS[sp[1]](*xs); want = Q(want) if fin(want) else want
                    if r in ('Z', 'N') and not (fin(want) and want.denominator == 1): raise Skip()
                elif sp[0] == 'const': want = sp[1]
                elif sp[0] == 'cmp':
                    c = o_cmp(*xs); want = Q(-128 if c is None else c)
                    if c is None: raise Skip()
                elif sp[0] == 'rel':
                    if NAN in xs: raise Skip()
                    want = Q(2 if CMP[sp[1]](o_cmp(*xs)) else -2)
                elif sp[0] == 'pred': want = Q(int(PRED[sp[1]](*xs)))
                elif sp[0] == 'sgn':
                    want = Q(sgn(xs[0]))
                q = pick(paths, env)
                if q is None: skipped += 1; continue
                hit.add(id(q))
                outs = [q.value]
                if f.n in ('operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator++', 'operator--') and not meth: outs.append(q.outs[0])
                for o in outs:
                    got = val(o, env)
                    if sp[0] == 'rel' and bare(f.ret) == 'bool': got = Q(2 if got else -2)
                    if sp[0] == 'pred' and bare(f.ret) != 'bool': got = Q(int(got == 2))
                    if isinstance(got, tuple): return 'violated', 'for (%s) the result is left unreduced as %s/%s' % (', '.join(map(show1, vals)), got[1], got[2]), n
                    got = num(got)
                    n += 1
                    if got != want:
                        return 'violated', 'for (%s) the summary gives %s, the exact answer is %s' % (', '.join(map(show1, vals)), got, want), n
            except Skip: skipped += 1
            except NotCanonical: return 'violated', 'for (%s) an unreduced fraction is used in arithmetic' % ', '.join(map(show1, vals)), n
    if n == 0: return 'undecided', 'summary not interpretable', 0
    if skipped > n * 3 and ks: return 'undecided', 'only %d of %d operand patterns interpretable' % (n, n + skipped), n
    def odd(q):
        a = set(); consts(tuple(q.facts), a); return any(2 < abs(c) < 2 ** 62 for c in a)
    # every pattern of signs, orders and special values is in the grid, so a path cut out by those alone is infeasible
    dead = [q for q in paths if q.kind == 'ret' and id(q) not in hit and odd(q)]
    if dead: return 'undecided', '%d of %d paths not reached by any operand pattern' % (len(dead), len(paths)), n
    return 'proved', '%d paths, %d operand patterns' % (len(paths), n), n


def pick(paths, env):
    for q in paths:
        ok = True
        for c, d in q.facts:
            if (val(c, env) != 0) != d: ok = False; break
        if ok: return q if q.kind == 'ret' else None
    return None


# ---------------------------------------------------------------- bounds and balls with exact ends
ENDS = [Q(-3), Q(-2), Q(-1), Q(0), Q(1), Q(2), Q(3)]
BW = [(a, b) for a in ENDS for b in ENDS if a <= b]
IVAL = ('BW', 'BQ', 'MW', 'BD')
BOPS = {k: v for k, v in ARITH.items() if k[0] != 'operator/='}


def bsets(k):
    if k in ('BW', 'BQ', 'BD'): return [({'_l': a, '_u': b}, a, b) for a, b in BW]
    if k == 'MW': return [({'_v': v, '_e': e}, v - e, v + e) for v in ENDS for e in (Q(0), Q(1, 2), Q(1), Q(4))]
    if k in ('D',): return [(x, num(x), num(x)) for x in GRID['D'][:8]]
    if k in NUMK: return [(x, x, x) for x in GRID[k] if fin(x) and abs(x) < 100]
    if k in ('u', 'i'): return [(x, x, x) for x in GRID[k]]
    if k == 'LW': return [({'_l': a}, a, None) for a in ENDS]
    if k == 'UW': return [({'_u': a}, None, a) for a in ENDS]
    return []


def bspec(f):
    ks = [cls(p) for p in f.p]; meth = is_meth(f)
    if meth: ks = [cls(f.rec)] + ks
    r = cls(f.ret) if not f.has('ctor') else cls(f.rec)
    if not any(k in IVAL for k in ks + [r]): return None
    if any(k is None for k in ks): return None
    n = f.n
    if f.has('ctor'):
        if r in IVAL and len(ks) == 1 and (ks[0] in IVAL or ks[0] in NUMK): return ('enc', 'id')
        if r in ('LW', 'UW') and len(ks) == 1: return ('side', 'id')
        return None
    if meth and n.startswith('operator ') and r in IVAL: return ('enc', 'id')
    if meth and n == 'pm': return ('enc', 'pm')
    if meth: return None
    if (n, len(ks)) in BOPS and r in IVAL: return ('enc', BOPS[(n, len(ks))])
    if n in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') and len(ks) == 2: return ('kle', n)
    if n == 'sgn': return ('kle', 'sgn')
    if n in ('refines', 'consistent', 'inconsistent') and len(ks) == 2: return ('set', n)
    if n in ('refinement', 'coarsening') and len(ks) == 2: return ('lat', n)
    return None


def hull(v):
    if isinstance(v, dict):
        if '_l' in v and '_u' in v: return num(v['_l']), num(v['_u'])
        if '_v' in v and '_e' in v:
            a, e = num(v['_v']), num(v['_e'])
            if not fin(a) or not fin(e): return NINF, INF
            return a - e, a + e
        if '_l' in v: return num(v['_l']), INF
        if '_u' in v: return NINF, num(v['_u'])
    raise Skip()


def judge_b(p, f, sp):
    meth = is_meth(f)
    tys = ([f.rec] if meth else []) + [ty for _, _, ty in f.params]
    ks = [cls(t) for t in tys]
    names = (['this'] if meth else []) + ['a%d' % i for i in range(len(f.params))]
    args = [('sym', 'a%d' % i, ty) for i, (_, nm, ty) in enumerate(f.params)]
    paths = run(p, f, XPol(p, f), this=('sym', 'this', f.rec) if meth else None, args=args)
    n = 0; skipped = 0
    for combo in itertools.product(*[bsets(k) for k in ks]):
        env = dict(zip(names, [c[0] for c in combo])); env['#mag'] = 1
        try:
            q = pick(paths, env)
            if q is None: skipped += 1; continue
            txt = ', '.join('[%s,%s]' % (c[1], c[2]) for c in combo)
            if sp[0] in ('enc', 'side'):
                got = val(q.value, env)
                if sp[0] == 'side': got = {'_l' if cls(f.rec) == 'LW' else '_u': num(got)} if not isinstance(got, dict) else got
                got = hull(got); n += 1
                los = [c[1] for c in combo]; his = [c[2] for c in combo]
                if sp[1] == 'pm':
                    want = [los[0] - los[1], his[0] + his[1]]
                    pts = want
                    if los[1] < 0: raise Skip()
                else:
                    axes = [sorted({c[1], c[2], (c[1] + c[2]) / 2} | ({Q(0)} if c[1] < 0 < c[2] else set())) for c in combo]
                    pts = []
                    for xs in itertools.product(*axes):
                        xs = list(xs)
                        if sp[1] == 'pow': xs[1] = int(xs[1])
                        try: pts.append(OPS[sp[1]](*xs))
                        except Skip: pass
                for y in pts:
                    if o_cmp(got[0], y) == 1 or o_cmp(got[1], y) == -1 or None in (o_cmp(got[0], y), o_cmp(got[1], y)):
                        return 'violated', 'for %s the summary gives [%s,%s], which misses %s' % (txt, got[0], got[1], y), n
            elif sp[0] == 'kle':
                got = val(q.value, env); n += 1
                axes = [sorted({c[1], c[2], (c[1] + c[2]) / 2}) for c in combo]
                tr = set()
                for xs in itertools.product(*axes):
                    if sp[1] == 'sgn': tr.add(xs[0] > 0)
                    else: tr.add(CMP[sp[1]](o_cmp(*xs)))
                if sp[1] in ('operator==', 'operator!=') and all(c[1] <= d[2] for c, d in ((combo[0], combo[1]), (combo[1], combo[0]))):
                    pt = all(c[1] == c[2] for c in combo)
                    tr = {sp[1] == 'operator=='} if pt else {True, False}
                if got == 2 and False in tr or got == -2 and True in tr: return 'violated', 'for %s the summary answers definitely %s' % (txt, got == 2), n
                if got not in (2, -2) and len(tr) == 1 and sp[1] != 'sgn': return 'violated', 'for %s the summary is not definite although the answer is determined' % txt, n
            elif sp[0] == 'set':
                got = val(q.value, env); n += 1; got = got in (1, 2)
                (a, b), (c, d) = combo[0][1:], combo[1][1:]
                want = {'refines': a >= c and b <= d, 'consistent': a <= d and b >= c, 'inconsistent': a > d or b < c}[sp[1]]
                if got != want: return 'violated', 'for %s the summary answers %s' % (txt, got), n
            else:
                (a, b), (c, d) = combo[0][1:], combo[1][1:]
                want = (max(a, c), min(b, d)) if sp[1] == 'refinement' else (min(a, c), max(b, d))
                if want[0] > want[1]: raise Skip()
                got = hull(val(q.value, env)); n += 1
                if got != want: return 'violated', 'for %s the summary gives [%s,%s] instead of [%s,%s]' % (txt, got + want), n
        except Skip: skipped += 1
        except NotCanonical: return 'violated', 'unreduced fraction', n
    if n == 0 or skipped > 3 * n: return 'undecided', 'summary not interpretable', n
    return 'proved', '%d paths, %d operand patterns' % (len(paths), n), n


FILES = ('/numeric/integer.', '/numeric/dyadic.', '/numeric/rational.', '/numeric/decimal.', '/numeric/arithmetic.hpp', '/numeric/twoexp.hpp', '/numeric/builtin.hpp', '/tu/use_exact')


def one(args):
    f, sp, kind = args
    try: v, d, n = (judge if kind == 'x' else judge_b)(PROG, f, sp)
    except Unsupported as e: v, d = 'undecided', str(e)
    except Budget as e: v, d = 'undecided', 'budget: ' + str(e)
    except (KeyError, IndexError, TypeError, ValueError, OverflowError, AttributeError, RecursionError) as e:
        v, d = 'undecided', 'internal %s %s' % (type(e).__name__, e)
    return Ob('exact-value' if kind == 'x' else 'exact-ends', f.sig(), f.where, v, d)


def canon_loop(p):
    """Decimal::canonicalize: each pass of its loop keeps p/10^q"""
    fs = p.find(q=A + 'Decimal::canonicalize')
    obs = []
    for f in fs:
        loops = [x for x in prog.walk(f.body) if x and x[0] in ('while', 'for', 'do')]
        try:
            if len(loops) != 1 or loops[0][0] != 'while': raise Unsupported("loop shape")
            class G:  # a pseudo-function: if (cond) body
                pass
            g = prog.Fn.__new__(prog.Fn)
            for a in prog.Fn.__slots__: setattr(g, a, getattr(f, a))
            g.body = ['if', None, loops[0][1], loops[0][2], None]
            paths = run(p, g, XPol(p, f), this=('sym', 'this', f.rec), args=[])
            bad = None; n = 0
            for P in (Q(0), Q(10), Q(-10), Q(7), Q(120), Q(-300), Q(55)):
                for q_ in (Q(0), Q(1), Q(2), Q(5)):
                    env = {'this': {'_p': P, '_q': q_}, '#mag': 1}
                    q = pick(paths, env)
                    if q is None: continue
                    d = q.this
                    a = num(val(field(d, '_p'), env)); b = num(val(field(d, '_q'), env)); n += 1
                    if b < 0 or Q(a) / Q(10) ** int(b) != P / Q(10) ** int(q_): bad = (P, q_, a, b)
            if bad: obs.append(Ob('exact-value', f.sig(), f.where, 'violated', '%sE-%s is turned into %sE-%s' % bad))
            else: obs.append(Ob('exact-value', f.sig(), f.where, 'proved' if n else 'undecided', '%d patterns' % n))
        except (Unsupported, Budget, Skip, TypeError, KeyError) as e: obs.append(Ob('exact-value', f.sig(), f.where, 'undecided', str(e)))
    return obs


def decide(tier):
    global PROG
    PROG = p = prog.load(tus.tus('numeric/integer', 'numeric/dyadic', 'numeric/rational', 'numeric/decimal', 'numeric/number') + [VERIF + '/tu/use_exact.cpp'])
    work = []; seen = set()
    for f in p.bodies():
        if f.pat or not any(x in f.file for x in FILES) or f.has('dtor') or f.id in seen: continue
        seen.add(f.id)
        if f.rec and f.rec.split('<')[0] in (A + 'ExtendedOperations', A + 'FiniteOperations', A + 'ExtensionOperations'): continue
        sp = spec(f)
        if f.has('ctor') and cls(f.rec) == 'W' and len(f.p) == 1 and f.p[0].startswith('__mpf_struct'): work.append((f, ('conv', 'id'), 'x')); continue
        if sp is not None: work.append((f, sp, 'x')); continue
        sb = bspec(f)
        if sb is not None: work.append((f, sb, 'b'))
    obs = pmap(one, work) + canon_loop(p)
    return obs, {"operations": len(work)}
