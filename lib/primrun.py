"""Directed rounding of the machine-number primitives (FloatDP over the hardware, FloatMP over MPFR).

Each primitive is summarised for every requested rounding direction and every rounding mode that may be in force on
entry, with hardware operations and mpfr_* calls kept as rounded primitives.  The summary must be the named operation on
the arguments rounded in the requested direction (rule: equality of normal forms), and both modes must be restored."""
import math, re, itertools
from fractions import Fraction as Q
import prog
from prog import Fn, SRC, AnalysisBroken
from engine import *
from fmodel import parse_type, FLOATS, EXACT, FDP, FMP, bare, RNDS, Order
from numcheck import rnd as mround, real1, real2, Skip, INF
from report import Ob, pmap
import tus

CSRBASE = 8064
DPM = {'N': 0, 'D': 8192, 'U': 16384, 'Z': 24576}
MPM = {'N': 0, 'Z': 1, 'U': 2, 'D': 3}
MPL = {v: k for k, v in MPM.items()}
DPL = {v: k for k, v in DPM.items()}; DPL.update({1024: 'D', 2048: 'U', 3072: 'Z'})
KERNELS = 'sqrt exp log sin cos tan asin acos atan pow'.split()
FPN = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}

# mpfr name -> (operation, argument kinds after the destination: m mpfr, v value, r rounding)
MP3 = {}
for o in 'add sub mul div max min'.split(): MP3['mpfr_' + o] = (o, 2)
for o in 'add sub mul div'.split():
    for t in ('d', 'ui', 'si', 'z', 'q'): MP3['mpfr_%s_%s' % (o, t)] = (o, 2)
for t in ('d', 'ui', 'si', 'z'):
    MP3['mpfr_%s_sub' % t] = ('sub', 2); MP3['mpfr_%s_div' % t] = ('div', 2)
for o in 'neg abs sqr sqrt exp log sin cos tan asin acos atan'.split(): MP3['mpfr_' + o] = (o, 1)
for o in ('set', 'set_d', 'set_z', 'set_q', 'set_f', 'set_ui', 'set_si', 'set_sj', 'set_uj'): MP3['mpfr_' + o] = ('id', 1)
for o in ('pow_ui', 'pow_si'): MP3['mpfr_' + o] = ('pow', 2)
MP3['mpfr_fma'] = ('fma', 3); MP3['mpfr_const_pi'] = ('pi', 0)
MP3['mpfr_floor'] = ('floor', 1); MP3['mpfr_ceil'] = ('ceil', 1); MP3['mpfr_round'] = ('round', 1)
for t in ('ui', 'si'):
    MP3['mpfr_mul_2' + t] = ('shft', 2); MP3['mpfr_div_2' + t] = ('shftn', 2)
NORND = ('mpfr_floor', 'mpfr_ceil', 'mpfr_round')
CMPF = {'mpfr_cmp': 0, 'mpfr_cmp_ui': 0, 'mpfr_cmp_si': 0, 'mpfr_cmp_d': 0, 'mpfr_cmp_z': 0, 'mpfr_cmp_q': 0, 'mpfr_cmp_f': 0, '__gmpf_cmp': 0, '__gmpq_cmp': 0, '__gmpz_cmp': 0}
RELP = {'mpfr_equal_p': '==', 'mpfr_less_p': '<', 'mpfr_lessequal_p': '<=', 'mpfr_greater_p': '>', 'mpfr_greaterequal_p': '>='}


class PrimPolicy(Policy):
    max_paths = 200
    def __init__(s, dpm, mpm): s.dpm = dpm; s.mpm = mpm
    def fp(s, ev, op, args):
        a = [x for x in args]
        if all(x[0] == 'flt' for x in a) and op in '/*' and a[1][1] in ('2', '4', '1', '2.0'):
            pass
        return ('R', FPN[op], ev.rnd) + tuple(a)
    def decide(s, ev, c):
        if c[0] == 'app' and c[1] in ('isnan', 'isinf'): return False
        if c[0] == 'app' and c[1] == 'isfinite': return True
        return None
    def loop(s, ev, nf):
        """a loop whose condition is symbolic: forget what the body may write, assume the exit condition"""
        st, fr = nf
        if st[0] != 'while': return None
        n0 = len(ev.facts); before = dict(ev.store); r0 = ev.rnd
        c = ev.norm(ev.val(st[1], fr))
        if c[0] == 'bool' and len(ev.facts) == n0: ev.store = before; return None
        if c[0] == 'bool' and not c[1]: return True
        facts, fm = list(ev.facts[:n0]), {k: v for k, v in ev.factmap.items() if any(k == f for f, _ in ev.facts[:n0])}
        before = dict(ev.store)
        if c[0] != 'bool': ev.facts.append((c, True)); ev.factmap[c] = True
        ev.stmt(st[2], fr)
        if ev.rnd != r0: raise Unsupported("loop changes the rounding mode")
        after = dict(ev.store)
        ev.facts, ev.factmap = facts, fm
        ev.store = dict(before)
        k = 0
        for cell, v in after.items():
            if cell in before and before[cell] != v:
                k += 1
                ev.store[cell] = havoc(before[cell], v, (cell, k))
        c = ev.norm(ev.val(st[1], fr))
        if c[0] == 'bool':
            if c[1]: raise Infeasible()
            return True
        if c[0] == 'not': ev.facts.append((c[1], True)); ev.factmap[c[1]] = True
        else: ev.facts.append((c, False)); ev.factmap[c] = False
        return True
    def call(s, ev, fn, this, args, node):
        n = fn.n; q = fn.tq
        vs = None
        if n == '_mm_getcsr': return ('term', I(CSRBASE | DPM[ev.rnd]))
        if n == '_mm_setcsr':
            v = ev.rv(args[0])
            if v[0] != 'int': raise Unsupported("symbolic control word")
            ev.rnd = DPL[v[1] & 24576]
            if v[1] & ~24576 != CSRBASE: raise Unsupported("control word bits")
            return ('term', ('void',))
        if n in ('fesetround',):
            v = ev.rv(args[0])
            if v[0] != 'int' or v[1] not in DPL: raise Unsupported("symbolic rounding mode")
            ev.rnd = DPL[v[1]]; return ('term', I(0))
        if n == 'fegetround': return ('term', I({'N': 0, 'D': 1024, 'U': 2048, 'Z': 3072}[ev.rnd]))
        if n == 'mpfr_get_default_rounding_mode': return ('term', ('enum', 'mpfr_rnd_t', MPM[ev.mprnd]))
        if n == 'mpfr_set_default_rounding_mode':
            v = ev.rv(args[0])
            if v[0] not in ('int', 'enum'): raise Unsupported("symbolic rounding mode")
            ev.mprnd = MPL[v[-1]]; return ('term', ('void',))
        if n.startswith('mpfr_'): return s.mpfr(ev, n, args)
        if n in CMPF and len(args) == 2: return ('term', ('sgncmp', mval(ev, args[0]), mval(ev, args[1])))
        if fn.file.startswith('/usr') or q.startswith('std::') or fn.file == '':
            vs = [ev.rv(a) for a in args]
            if n == 'fma': return ('term', ('R', 'fma', ev.rnd) + tuple(vs))
            if n in ('abs', 'fabs') and len(vs) == 1: return ('term', ('R', 'abs', '-') + tuple(vs))
            if n in ('max', 'min', 'fmax', 'fmin') and len(vs) == 2: return ('term', ('R', n[-3:], '-') + tuple(vs))
            if n in ('floor', 'ceil', 'round') and len(vs) == 1: return ('term', ('R', n, '-') + tuple(vs))
            if n == 'ldexp': return ('term', ('R', 'shft', '-') + tuple(vs))
            if n == 'sqrt' and len(vs) == 1: return ('term', ('R', 'sqrt', ev.rnd) + tuple(vs))
            if n in ('isnan', 'isinf', 'isfinite'): return ('term', ('app', n) + tuple(vs))
            if fn.rec and 'numeric_limits' in fn.rec: return ('term', ('app', 'limits.' + n))
            if n in ('move', 'forward', 'swap', 'addressof'): return None
            if fn.body is None: return 'opaque'
            return None
        # hand-written transcendental kernels for built-in doubles: a rounded primitive here (their accuracy is a separate matter)
        m = re.match(r'^(%s)_rnd$' % '|'.join(KERNELS), n)
        if m and fn.p and bare(fn.p[0]) == 'double' and (m.group(1) != 'pow'):
            vs = [ev.rv(a) for a in args]
            return ('term', ('R', m.group(1), ev.rnd) + tuple(vs))
        k = parse_type(fn.rec) if fn.rec else None
        if k is not None and k[0] == 'X' and k[1] not in ('ExactDouble',):
            vs = [ev.rv(a) for a in args]
            if fn.has('ctor') and len(vs) == 1:
                if k[1] == 'TwoExp': return None
                return ('term', vs[0] if bare(fn.p[0]) not in ('std::string',) else ('app', 'parse', vs[0]))
            if n in ('get_mpz', 'get_mpf', 'get_mpq', 'get_str'): return ('term', ev.rv(this))
            if n == 'get_d': return ('term', ('R', 'id', 'Z', ev.rv(this)))
            if n.startswith('operator') and n[9:] in ('Rational', 'Dyadic', 'Decimal', 'Integer'): return ('term', ev.rv(this))
            if n == 'exponent': return None
        vk = [parse_type(p) for p in fn.p]
        if len(args) == 2 and n in ('operator<', 'operator>', 'operator<=', 'operator>=', 'operator==', 'operator!=', 'cmp') and vk and all(x is not None for x in vk) and any(x[0] == 'X' and x[1] != 'ExactDouble' for x in vk) and not any(x[0] == 'F' for x in vk):
            a, b = ev.rv(args[0]), ev.rv(args[1])
            if n == 'cmp': return ('term', ('cmp3', a, b))
            return ('term', wrap(fn.ret, ev, ('bin', n[8:], a, b)))
        if n in ('is_nan', 'is_inf') and len(args) == 1 and vk[0] and vk[0][0] == 'X': return ('term', wrapb(fn.ret, False))
        if n == 'is_finite' and len(args) == 1 and vk[0] and vk[0][0] == 'X': return ('term', wrapb(fn.ret, True))
        if n == 'round' and len(args) == 1 and vk[0] and vk[0][0] == 'X': return ('term', ('R', 'round', '-', ev.rv(args[0])))
        if k is not None and k[0] == 'F' and fn.n.startswith('operator ') and n[9:].split('::')[-1] in ('Rational', 'Dyadic'):
            return ('term', ev.read(this.sub(('f', 'dbl' if k[1] == 'DP' else '_mpfr'))))
        if k is not None and k[0] == 'F' and k[1] == 'MP' and n == 'precision': return ('term', ('app', 'prec', ev.read(this.sub(('f', '_mpfr')))))
        if n in ('cmb',) or (fn.rec == 'Ariadne::MultiplePrecision'): return ('term', ('app', 'cmb') + tuple(ev.rv(a) for a in args)) if not fn.has('ctor') else None
        return None
    def mpfr(s, ev, n, args):
        if n in MP3:
            op, k = MP3[n]
            dst = s.lvof(ev, args[0])
            xs = [mval(ev, a) for a in args[1:1 + k]]
            r = '-' if n in NORND else s.mode(ev, args[1 + k])
            if op == 'shftn': op = 'shft'; xs[1] = I(-xs[1][1]) if xs[1][0] == 'int' else ('un', '-', xs[1])
            ev.write(dst, ('R', op, r) + tuple(xs)); return ('term', ('app', 'ternary'))
        if n in ('mpfr_ui_div', 'mpfr_si_div', 'mpfr_d_div', 'mpfr_ui_sub', 'mpfr_d_sub'): pass
        if n in ('mpfr_set_ui_2exp', 'mpfr_set_si_2exp'):
            ev.write(s.lvof(ev, args[0]), ('R', 'shft', s.mode(ev, args[3]), ev.rv(args[1]), ev.rv(args[2]))); return ('term', I(0))
        if n in ('mpfr_init_set_si', 'mpfr_init_set_ui', 'mpfr_init_set'):
            ev.write(s.lvof(ev, args[0]), ('R', 'id', s.mode(ev, args[2]), mval(ev, args[1]))); return ('term', I(0))
        if n in ('mpfr_init', 'mpfr_init2', 'mpfr_set_prec', 'mpfr_set_nan'): ev.write(s.lvof(ev, args[0]), ('nan',)); return ('term', ('void',))
        if n == 'mpfr_set_inf': ev.write(s.lvof(ev, args[0]), ('app', 'inf', ev.rv(args[1]))); return ('term', ('void',))
        if n == 'mpfr_set_zero': ev.write(s.lvof(ev, args[0]), I(0)); return ('term', ('void',))
        if n == 'mpfr_swap':
            a, b = s.lvof(ev, args[0]), s.lvof(ev, args[1]); va, vb = ev.read(a), ev.read(b)
            ev.write(a, vb); ev.write(b, va); return ('term', ('void',))
        if n == 'mpfr_clear': return ('term', ('void',))
        if n == 'mpfr_get_prec': return ('term', ('app', 'prec', mval(ev, args[0])))
        if n == 'mpfr_get_d': return ('term', ('R', 'id', s.mode(ev, args[1]), mval(ev, args[0])))
        if n in ('mpfr_cmp_si_2exp', 'mpfr_cmp_ui_2exp') and ev.rv(args[2]) == I(0): return ('term', ('sgncmp', mval(ev, args[0]), mval(ev, args[1])))
        if n == 'mpfr_cmp3' and ev.rv(args[2]) == I(1): return ('term', ('sgncmp', mval(ev, args[0]), mval(ev, args[1])))
        if n == 'mpfr_set4':
            sg = ev.rv(args[3]); op = 'abs' if sg == I(1) else 'id' if sg[0] == 'fld' or '_mpfr_sign' in repr(sg) else None
            if op is None: raise Unsupported(n)
            ev.write(s.lvof(ev, args[0]), ('R', op, s.mode(ev, args[2]), mval(ev, args[1]))); return ('term', ('app', 'ternary'))
        if n == 'mpfr_rint':
            v = ev.rv(args[2]); m = {3: 'floor', 2: 'ceil', -1: 'round'}.get(v[-1]) if v[0] in ('int', 'enum') else None
            if m is None: raise Unsupported(n)
            ev.write(s.lvof(ev, args[0]), ('R', m, '-', mval(ev, args[1]))); return ('term', ('app', 'ternary'))
        if n == 'mpfr_get_emin': return ('term', ('app', 'emin'))
        if n in ('mpfr_nextabove', 'mpfr_nextbelow'):
            d = s.lvof(ev, args[0]); ev.write(d, ('R', 'add' if n[-5:] == 'above' else 'sub', 'U' if n[-5:] == 'above' else 'D', ev.read(d), ('app', 'limits.min'))); return ('term', ('void',))
        if n in CMPF: return ('term', ('sgncmp', mval(ev, args[0]), mval(ev, args[1])))
        if n in RELP: return ('term', ('bin', RELP[n], mval(ev, args[0]), mval(ev, args[1])))
        if n == 'mpfr_sgn': return ('term', ('sgncmp', mval(ev, args[0]), I(0)))
        if n == 'mpfr_zero_p': return ('term', ('bin', '==', mval(ev, args[0]), I(0)))
        if n in ('mpfr_nan_p', 'mpfr_inf_p'): return ('term', FALSE)
        if n in ('mpfr_number_p',): return ('term', TRUE)
        raise Unsupported(n)
    def mode(s, ev, a):
        v = ev.rv(a)
        if v[0] in ('int', 'enum'): return MPL.get(v[-1], '?')
        raise Unsupported("symbolic MPFR rounding mode " + show(v)[:60])
    def lvof(s, ev, a):
        if isinstance(a, LV):
            v = ev.read(a)
            if v[0] == 'ptr': return LV(v[1], v[2])
            return a
        if a[0] == 'ptr': return LV(a[1], a[2])
        raise Unsupported("mpfr destination")


def mval(ev, a):
    v = ev.rv(a)
    if v[0] == 'ptr': v = ev.read(LV(v[1], v[2]))
    return v


def wrapb(ret, v): return B(v) if bare(ret) == 'bool' else ('rec', bare(ret), (('_v', ('enum', 'Ariadne::Detail::LogicalValue::' + ('TRUE' if v else 'FALSE'), 2 if v else -2)),), None)


def wrap(ret, ev, c): return wrapb(ret, ev.fork(c))


def havoc(old, new, k):
    if new is not None and new[0] == 'rec' and old is not None and old[0] == 'rec' and old[1] == new[1]:
        fs = []
        for f, v in new[2]:
            o = dict(old[2]).get(f)
            fs.append((f, v if v == o else ('havoc', k, f)))
        return ('rec', new[1], tuple(fs), new[3])
    return ('havoc', k, '')


# ---------------------------------------------------------------- normal forms
def canon(t):
    k = t[0]
    if k == 'flt':
        try: return ('k', Q(t[1]) if not t[1].startswith(('inf', '-inf', 'nan')) else t[1])
        except ValueError:
            try: return ('k', Q(float(t[1])))
            except (ValueError, OverflowError): return t
    if k == 'int': return ('k', Q(t[1]))
    if k == 'fld' and t[2] in ('dbl', '_mpfr', '_d', '_mpf', '_mpq', '_mpz') and t[1][0] == 'sym': return ('x', t[1][1])
    if k == 'idx' and t[1][0] == 'fld': return canon(t[1])
    if k == 'app' and t[1] in ('limits.min', 'limits.denorm_min', 'limits.epsilon'): return ('k', Q(1, 2 ** 60))
    if k == 'R' and t[1] == 'shft' and t[3] == I(1) and t[4][0] == 'fld' and t[4][2] == '_n' and t[4][1][0] == 'sym': return ('x', t[4][1][1])
    if k == 'R' and t[1] == 'shft' and t[3] == I(1) and 'emin' in repr(t[4]): return ('k', Q(1, 2 ** 60))
    if k == 'sym': return ('x', t[1])
    if k == 'rec' and len(t[2]) == 1 and t[2][0][0] in ('dbl', '_mpfr', '_d') : return canon(t[2][0][1])
    if k == 'rec' and not t[2] and t[3] is not None: return canon(t[3])
    if k == 'cast' and t[1] in ('FloatingCast', 'IntegralToFloating'): return canon(t[3])
    if k == 'un' and t[1] == '-': return norm_op('neg', '-', [canon(t[2])])
    if k == 'R': return norm_op(t[1], t[2], [canon(x) for x in t[3:]])
    if k == 'app' and len(t) > 2 and t[1] == 'ctor:' + FDP: return canon(t[2])
    if k == 'bin' and t[1] == '+' and len(t) == 4: return ('bin', '+', canon(t[2]), canon(t[3]))
    return t


EXOPS = ('neg', 'abs', 'max', 'min', 'hlf', 'nul', 'pos', 'floor', 'ceil', 'round', 'shft', 'id')
OPP = {'U': 'D', 'D': 'U', 'N': 'N', '-': '-', 'Z': 'Z'}


def norm_op(op, m, a):
    """representation-independent form; exact operations carry no rounding"""
    if op == 'neg':
        x = a[0]
        if x[0] == 'k' and not isinstance(x[1], str): return ('k', -x[1])
        if x[0] == 'R' and x[1] == 'neg': return x[3]
        if x[0] == 'R' and x[1] in ('mul', 'div', 'sub', 'add') : pass
        return ('R', 'neg', '-', x)
    if op == 'id' and (m == '-' or (a[0][0] == 'k' and a[0][1] in (0, 1, -1, 2))): return a[0]
    if op == 'med': return norm_op('hlf', '-', [norm_op('add', m, a)])
    if op == 'rad': return norm_op('hlf', '-', [norm_op('sub', m, [a[1], a[0]])])
    if op == 'pow' and a[1] == ('k', Q(1)): return a[0]
    if op in ('pos', 'id') and op == 'pos': return a[0]
    if op in ('abs', 'floor', 'ceil', 'round') and len(a) == 1: return ('R', op, '-', a[0])
    if op in ('max', 'min'): return ('R', op, '-') + tuple(sorted(a, key=repr))
    if op == 'mul':
        for i in (0, 1):
            if a[i] == ('k', Q(1, 2)): return ('R', 'shft', '-', a[1 - i], ('k', Q(-1)))
            if a[i] == ('k', Q(1)): return a[1 - i]
        if a[0] == a[1]: return ('R', 'sqr', m, a[0])
        return ('R', 'mul', m) + tuple(sorted(a, key=repr))
    if op == 'add': return ('R', 'add', m) + tuple(sorted(a, key=repr))
    if op == 'sub' and a[1][0] == 'R' and a[1][1] == 'neg': return norm_op('add', m, [a[0], a[1][3]])
    if op == 'div':
        if a[1] == ('k', Q(2)): return ('R', 'shft', '-', a[0], ('k', Q(-1)))
        if a[0] == ('k', Q(1)): return ('R', 'rec', m, a[1])
    if op == 'hlf': return ('R', 'shft', '-', a[0], ('k', Q(-1)))
    if op == 'nul': return ('k', Q(0))
    if op == 'shft':
        if a[0][0] == 'k' and a[1][0] == 'k': return ('k', a[0][1] * Q(2) ** int(a[1][1]))
        return ('R', 'shft', '-') + tuple(a)
    if op == 'pow' and a[1] == ('k', Q(0)): return ('k', Q(1))
    return ('R', op, m) + tuple(a)


class Undefined(Exception): pass


def evalr(t, env, p):
    """value of a normal form in p-bit arithmetic"""
    k = t[0]
    if k == 'x':
        if t[1] not in env: raise Skip()
        return env[t[1]]
    if k == 'k':
        if isinstance(t[1], str): raise Skip()
        return t[1]
    if k == 'R':
        op, m = t[1], t[2]; a = [evalr(x, env, p) for x in t[3:]]
        if op == 'id': v = a[0]
        elif op == 'fma': v = a[0] * a[1] + a[2]
        elif op == 'shft': return a[0] * Q(2) ** int(a[1])
        elif op == 'floor': return Q(math.floor(a[0]))
        elif op == 'ceil': return Q(math.ceil(a[0]))
        elif op == 'round': return Q(math.floor(abs(a[0]) + Q(1, 2))) * (1 if a[0] >= 0 else -1)
        elif op == 'pi': v = Q(math.pi)
        elif len(a) == 1: v = real1(op, a[0])
        elif len(a) == 2: v = real2(op, a[0], a[1])
        else: raise Skip()
        if m == '-': return v
        if m == '?': raise Skip()
        return mround(v, m, p)
    if k == 'bin' and t[1] == '+': return evalr(t[2], env, p) + evalr(t[3], env, p)
    raise Skip()


def evalc(c, env, p):
    if c[0] == 'bool': return c[1]
    if c[0] == 'app' and c[1] == 'isfinite': return True
    if c[0] == 'app' and c[1] in ('isnan', 'isinf'): return False
    if c[0] in ('bin', 'cmp') and c[1] == '==' and c[3] == I(0) and c[2][0] in ('bin', 'cmp', 'not'): return not evalc(c[2], env, p)
    if c[0] == 'not': return not evalc(c[1], env, p)
    if c[0] in ('bin', 'cmp'):
        op = c[1]
        a, b = side(c[2], env, p), side(c[3], env, p)
        if op == '<': return a < b
        if op == '==': return a == b
        if op == '<=': return a <= b
        if op == '>': return a > b
        if op == '>=': return a >= b
    if c[0] in ('sgncmp', 'cmp3'): return side(c, env, p) != 0
    raise Skip()


def side(t, env, p):
    if t[0] == 'enum': return t[2]
    if t[0] in ('sgncmp', 'cmp3'):
        a, b = evalr(canon(t[1]), env, p), evalr(canon(t[2]), env, p)
        return (a > b) - (a < b)
    return evalr(canon(t), env, p)


VALS = [Q(0), Q(1), Q(-1), Q(3), Q(-3), Q(3, 8), Q(-3, 8), Q(5), Q(-7), Q(7, 4), Q(-5, 8), Q(9, 2), Q(-11, 8), Q(13), Q(-15, 4), Q(1, 4), Q(6)]
XV = VALS + [Q(1, 3), Q(-1, 3), Q(22, 7), Q(-22, 7), Q(1, 10), Q(33), Q(-35), Q(67, 64), Q(-67, 64)]


def exact_value(op, env, names, cs):
    a = [env[n] if isinstance(n, str) else n for n in names]
    if op == 'id': return a[0]
    if op == 'fma': return a[0] * a[1] + a[2]
    if op == 'shft': return a[0] * Q(2) ** int(a[1])
    if op == 'twoexp_mul': return a[0] * Q(2) ** int(a[1])
    if op in ('floor', 'ceil', 'round'): return evalr(('R', op, '-', ('k', a[0])), {}, 4)
    if op == 'med': return (a[0] + a[1]) / 2
    if op == 'rad': return (a[1] - a[0]) / 2
    if len(a) == 1: return real1(op, a[0])
    return real2(op, a[0], a[1])


RT = {'unsigned short': 'dp', 'mpfr_rnd_t': 'mp'}
OPS1 = 'nul pos neg hlf sqr rec sqrt exp log sin cos tan asin acos atan abs mag'.split()
OPS2 = 'add sub mul div max min med rad pow'.split()
EXACT1 = 'nul pos neg hlf abs floor ceil round'.split()
IOPS = {'iadd': 'add', 'isub': 'sub', 'imul': 'mul', 'idiv': 'div'}


class C:
    def __init__(s, fn, op, names, kinds, rndi, mode, res, inplace=False, iargs=()):
        s.fn = fn; s.op = op; s.names = names; s.kinds = kinds; s.rndi = rndi; s.mode = mode; s.res = res; s.inplace = inplace; s.iargs = iargs


def contract(f):
    """(op, argument parameter indices, how the rounding direction is chosen) or None"""
    if f.body is None or f.params is None or f.pat: return None
    ks = [parse_type(ty) for _, _, ty in f.params]
    rt = parse_type(f.ret) if not f.has('ctor') else parse_type(f.rec)
    if rt is None and bare(f.ret) != 'Ariadne::Comparison': return None
    bp = [bare(ty) for _, _, ty in f.params]
    if f.has('ctor'):
        if rt is None or rt[0] != 'F' or f.has('copy') or f.has('move'): return None
        ri = [i for i, b in enumerate(bp) if b in RT]
        num = [i for i, k in enumerate(ks) if k is not None and k[0] in ('F', 'X', 'int') and i not in ri]
        if len(num) != 1 or num[0] != 0: return None
        if any(k is None and b not in RT for k, b in zip(ks, bp)): return None
        if ri: return C(f, 'id', [0], ks, ri[0], 'param', rt)
        return C(f, 'id', [0], ks, None, 'exact', rt)
    if f.has('meth') and not f.has('static'): return None
    if rt is not None and rt[0] == 'F':
        r0 = bp[0] if bp else ''
        m = re.match(r'^Ariadne::Round(Upward|Downward|ToNearest)$', r0)
        if r0 in RT or r0 == 'Ariadne::CurrentRoundingMode' or m:
            mode = 'param' if r0 in RT else 'current' if not m else {'Upward': 'U', 'Downward': 'D', 'ToNearest': 'N'}[m.group(1)]
            idx = list(range(1, len(bp)))
            if f.n == 'pi':
                return C(f, 'pi', [], ks, 0, mode, rt)
            kk = [ks[i] for i in idx]
            if not kk or any(k is None or k[0] not in ('F', 'X', 'int') for k in kk): return None
            if not any(k[0] == 'F' for k in kk): return None
            if f.n in OPS1 and len(idx) == 1: return C(f, 'abs' if f.n == 'mag' else f.n, idx, ks, 0, mode, rt)
            if f.n in OPS2 and len(idx) == 2: return C(f, f.n, idx, ks, 0, mode, rt)
            if f.n in ('shft',) and len(idx) == 2: return C(f, 'shft', idx, ks, 0, mode, rt)
            if f.n == 'fma' and len(idx) == 3: return C(f, 'fma', idx, ks, 0, mode, rt)
            if f.n == 'next' and len(idx) == 1 and mode in ('U', 'D'): return C(f, 'id', idx, ks, 0, mode, rt)
            if f.n in IOPS and len(idx) == 2: return C(f, IOPS[f.n], idx, ks, 0, mode, rt, True)
            return None
        if not ks or any(k is None for k in ks): return None
        if f.n in EXACT1 and len(ks) == 1 and ks[0][0] == 'F': return C(f, f.n, [0], ks, None, 'exact', rt)
        if f.n in ('max', 'min') and len(ks) == 2 and ks[0][0] == ks[1][0] == 'F': return C(f, f.n, [0, 1], ks, None, 'exact', rt)
        if f.n == 'shft' and len(ks) == 2 and ks[0][0] == 'F' and ks[1][0] == 'int': return C(f, 'shft', [0, 1], ks, None, 'exact', rt)
        if f.n in ('operator-',) and len(ks) == 1: return C(f, 'neg', [0], ks, None, 'exact', rt)
        if f.n in ('operator+',) and len(ks) == 1: return C(f, 'pos', [0], ks, None, 'exact', rt)
        return None
    # comparisons of machine numbers
    if len(ks) == 2 and all(k is not None and k[0] in ('F', 'X', 'int') for k in ks) and any(k[0] == 'F' for k in ks):
        o = {'operator==': 'eq', 'operator!=': 'ne', 'operator<': 'lt', 'operator>': 'gt', 'operator<=': 'le', 'operator>=': 'ge', 'eq': 'eq', 'lt': 'lt', 'cmp': 'cmp'}.get(f.n)
        if o and (bare(f.ret) in ('bool', 'Ariadne::Boolean', 'Ariadne::Comparison')): return C(f, o, [0, 1], ks, None, 'cmp', rt)
    return None


MAXU = {'int': (2,)}


def argsyms(c, modev, ints):
    a = []; it = iter(ints)
    for i, (vid, nm, ty) in enumerate(c.fn.params):
        k = c.kinds[i]
        if i == c.rndi and bare(ty) in RT:
            a.append(I(DPM[modev]) if RT[bare(ty)] == 'dp' else ('enum', 'mpfr_rnd_t', MPM[modev]))
        elif k is not None and k[0] == 'int' and i in c.names: a.append(I(next(it)))
        else: a.append(('sym', 'p%d' % i, ty))
    return a


def samples_for(c, ints):
    nm = [i for i in c.names if not (c.kinds[i] is not None and c.kinds[i][0] == 'int')]
    vs = []
    for i in nm:
        k = c.kinds[i]
        if k[0] == 'X' and k[1] in ('Rational', 'Decimal'): vs.append(XV)
        elif k[0] == 'X' and k[1] == 'Integer': vs.append([x for x in XV if x.denominator == 1])
        elif k[0] == 'X': vs.append([x for x in XV if x.denominator & (x.denominator - 1) == 0])
        else: vs.append(VALS)
    for X in itertools.product(*vs):
        yield dict(zip(['p%d' % i for i in nm], X))


PI_LO = Q('3.14159265358979323846264338327950288419'); PI_HI = Q('3.14159265358979323846264338327950288420')


def decide_one(p, c):
    f = c.fn
    modes = ['N', 'D', 'U'] if c.mode == 'param' else [c.mode if c.mode in 'NDU' else None]
    intn = sum(1 for i in c.names if c.kinds[i] is not None and c.kinds[i][0] == 'int')
    uns = any(c.kinds[i] == ('int', 'u') for i in c.names)
    if c.op in ('cmp', 'eq', 'ne', 'lt', 'gt', 'le', 'ge'): ivals = [(0,), (3,), (5,)] if intn else [()]
    elif c.op == 'id' and intn: ivals = [(0,), (1,), (6,)] + ([] if uns else [(-3,)])
    else: ivals = [()] if not intn else [(n,) for n in (([0, 1, 2, 3, 4, 5, 6] if uns else [-3, -2, -1, 0, 1, 2, 3, 4, 5]) if c.op == 'pow' else [-2, 0, 3])]
    status = 'proved'; why = ''; npaths = 0
    for entry in 'NDU':
        for m in modes:
            for ints in ivals:
                eff = m if m is not None else (entry if c.mode == 'current' else '-')
                def setup(ev, entry=entry): ev.rnd = entry; ev.mprnd = entry
                paths = run(p, f, PrimPolicy(entry, entry), args=argsyms(c, m, ints), setup=setup)
                names = []; it = iter(ints)
                for i in c.names: names.append(Q(next(it)) if (c.kinds[i] is not None and c.kinds[i][0] == 'int') else 'p%d' % i)
                npaths += len(paths)
                for q in paths:
                    if q.kind != 'ret': continue
                    if q.ev.rnd != entry or q.ev.mprnd != entry:
                        return 'violated', 'with rounding mode %s in force and %s requested, returns leaving the mode changed to %s' % (entry, eff, q.ev.rnd if q.ev.rnd != entry else q.ev.mprnd)
                if c.mode == 'cmp':
                    st, d = judge_cmp(c, paths, names)
                elif c.op == 'pi': st, d = judge_pi(paths, eff)
                else: st, d = judge(c, paths, names, eff)
                if st == 'violated': return st, 'rounding %s requested (mode %s in force): %s' % (eff, entry, d)
                if st == 'undecided' and status == 'proved': status, why = st, d
    return status, why or '%d summaries' % npaths


def result(c, q):
    t = q.outs[c.names[0]] if c.inplace else q.value
    return canon(t)


def judge_pi(paths, eff):
    for q in paths:
        if q.kind != 'ret': continue
        t = canon(q.value)
        if t == ('R', 'pi', eff): continue
        if t[0] == 'k' and not isinstance(t[1], str):
            v = Q(float(t[1]))
            if eff == 'U' and v < PI_HI: return 'violated', 'returns %r, below pi' % float(v)
            if eff == 'D' and v > PI_LO: return 'violated', 'returns %r, above pi' % float(v)
            if eff == 'N' and abs(v - PI_LO) > Q(1, 2 ** 51): return 'violated', 'returns %r for pi' % float(v)
            continue
        if t[0] == 'R' and t[1] == 'pi' and t[2] != eff: return 'violated', 'pi is rounded in direction %s' % t[2]
        return 'undecided', 'pi from ' + show(t)[:80]
    return 'proved', ''


def judge(c, paths, names, eff):
    exp = norm_op(c.op, eff, [('x', n) if isinstance(n, str) else ('k', n) for n in names])
    alleq = True; und = None
    for q in paths:
        if q.kind != 'ret': continue
        t = result(c, q)
        if exp is not None and same(t, exp): continue
        if c.op == 'pow' and t[0] == 'R' and t[1] == 'pow' and t[2] == eff and t[3] == ('x', names[0]) and t[4] == ('k', names[1]): continue
        if c.op == 'id' and len(names) == 1 and t[0] == 'R' and t[1] == 'add' and t[2] == eff == 'U' and ('x', names[0]) in t[3:] and any(z[0] == 'k' and z[1] >= 0 for z in t[3:]): continue
        if c.op == 'id' and len(names) == 1 and t[0] == 'R' and t[1] == 'sub' and t[2] == eff == 'D' and t[3] == ('x', names[0]) and t[4][0] == 'k' and t[4][1] >= 0: continue
        if t[0] == 'havoc' and eff in ('U', 'D') and c.op == 'id' and len(names) == 1:
            o = Order()
            for cond, d in q.facts:
                cc = (cond[0], cond[1], canon(cond[2]), canon(cond[3])) if cond[0] in ('bin', 'cmp') and len(cond) == 4 else None
                if cc: o.fact(cc, d)
            x = ('x', names[0])
            if (eff == 'U' and o.leq(x, t)) or (eff == 'D' and o.leq(t, x)): continue
        alleq = False; und = und or ('summary %s is not recognised as the requested rounded operation' % show(t)[:120])
    if alleq: return 'proved', ''
    # evaluate in p-bit arithmetic
    judged = 0
    for env in samples_for(c, ()):
        env = dict(env)
        p = 3
        try: y = exact_value(c.op, env, names, c)
        except Skip: continue
        if isinstance(y, float): continue
        for q in paths:
            try:
                if not all(evalc(cond, env, p) == d for cond, d in q.facts): continue
            except (Skip, TypeError, ZeroDivisionError, OverflowError): break
            if q.kind != 'ret': break
            try: v = evalr(result(c, q), env, p)
            except (Skip, TypeError, ZeroDivisionError, OverflowError, ValueError): break
            if isinstance(v, float): break
            judged += 1
            tol = Q(1, 10 ** 9) if c.op in ('exp', 'log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt') else 0
            where = ', '.join('%s' % env[n] if isinstance(n, str) else str(n) for n in names)
            if eff == 'U' and v < y - tol: return 'violated', '%s(%s) gives %s, below the exact value %s' % (c.op, where, v, fl(y))
            if eff == 'D' and v > y + tol: return 'violated', '%s(%s) gives %s, above the exact value %s' % (c.op, where, v, fl(y))
            if eff == 'N' and c.fn.n not in ('med', 'rad', 'pow') and not c.fn.has('ctor') and abs(v - y) > abs(mround(y, 'N', p) - y) + tol: return 'violated', '%s(%s) gives %s, not the nearest value to %s' % (c.op, where, v, fl(y))
            if eff == 'N' and abs(v - y) > abs(y) / 2 + tol: return 'violated', '%s(%s) gives %s instead of about %s' % (c.op, where, v, fl(y))
            if eff == '-' and v != y and not (c.fn.has('ctor')): return 'violated', '%s(%s) gives %s instead of %s' % (c.op, where, v, fl(y))
            if eff == '-' and c.fn.has('ctor') and v != y and mround(y, 'N', p) == y: return 'violated', 'converting %s gives %s' % (where, v)
            break
    return 'undecided', und + '; not refuted on %d representatives' % judged


def fl(y): return str(y) if y.denominator < 10 ** 6 else str(float(y))


def same(t, e):
    if t == e: return True
    # a conversion that does not change the value: exact 'id'
    if e[0] == 'x' and t[0] == 'R' and t[1] == 'id' and same(t[3], e): return True
    if e[0] == 'R' and e[1] == 'id' and same(t, e[3]): return True   # exact assignment is also correctly rounded
    if t[0] == 'R' and e[0] == 'R' and t[1] == 'id' and len(t) == 4 and same(t[3], e): return True  # copy in the result's own precision
    if t[0] == 'R' and e[0] == 'R' and t[1] == e[1] and t[2] == e[2] and len(t) == len(e): return all(same(a, b) for a, b in zip(t[3:], e[3:]))
    return False


def judge_cmp(c, paths, names):
    judged = 0
    vals = [Q(-2), Q(0), Q(3), Q(5)]
    nm = [n for n in names if isinstance(n, str)]
    for X in itertools.product(vals, repeat=len(nm)):
        env = dict(zip(nm, X))
        a, b = [env[n] if isinstance(n, str) else n for n in names]
        s = (a > b) - (a < b)
        want = {'cmp': s, 'eq': s == 0, 'ne': s != 0, 'lt': s < 0, 'gt': s > 0, 'le': s <= 0, 'ge': s >= 0}[c.op]
        for q in paths:
            try:
                if not all(evalc(cond, env, 8) == d for cond, d in q.facts): continue
                if q.kind != 'ret': break
                v = q.value
                if v[0] == 'rec': v = field(v, '_v')
                if v[0] == 'enum': got = v[2]
                elif v[0] in ('sgncmp', 'cmp3'): got = side(v, env, 8)
                elif v[0] == 'int': got = v[1]
                elif v[0] == 'ite':
                    cv = evalc(v[1], env, 8); w = v[2] if cv else v[3]; got = w[2] if w[0] == 'enum' else w[1]
                else: got = evalc(v, env, 8)
            except (Skip, TypeError): return 'undecided', 'comparison summary not understood: ' + show(q.value)[:80]
            judged += 1
            if c.op != 'cmp' and not isinstance(got, bool): got = got > 0 if got in (2, -2) else bool(got)
            if c.op == 'cmp': got = (got > 0) - (got < 0)
            if got != want: return 'violated', 'comparing %s with %s answers %s' % (a, b, got)
            break
    return ('proved', '') if judged else ('undecided', 'no path applies')


def contracts(p):
    r = []
    for f in p.bodies():
        if not f.file.startswith(SRC): continue
        c = contract(f)
        if c: r.append(c)
    return r


def obligations(p=None):
    if p is None: p = prog.load(tus.tus('numeric/floatdp', 'numeric/floatmp', 'numeric/double') + [prog.VERIF + '/tu/use_floats.cpp'])
    cs = contracts(p)
    def one(c):
        rule = 'primitive:%s' % c.op
        try: v, d = decide_one(p, c)
        except (Unsupported, Budget) as e: v, d = 'undecided', 'not summarised: %s' % str(e)[:150]
        return Ob(rule, c.fn.sig(), c.fn.where, v, d)
    return pmap(one, cs), p
