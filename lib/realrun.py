"""Effective reals.  A real is opaque and stands for a number (a term); bounds computed from it carry ends which are only
known to be on their side of a term ("below t", "above t", with an arbitrary gap); effective truth values stand for a
statement.  Every function is summarised over these and the result is compared with the term the operation denotes.  The
virtual interface is used by contract: an object's bounds enclose its number, and every implementation is an obligation."""
import re, random, itertools
from fractions import Fraction as Q
import prog, tus
from engine import *
from fmodel import split_args
from report import Ob, pmap
from realdom import *
from symcheck import Bad, verdict

_P = {}
REALS = {A + x for x in ('Real', 'LowerReal', 'UpperReal', 'NaiveReal', 'PositiveReal', 'PositiveLowerReal', 'PositiveUpperReal', 'PositiveNaiveReal')}
VALID = {A + x for x in ('ValidatedReal', 'ValidatedLowerReal', 'ValidatedUpperReal')}
ENC = re.compile(r'^Ariadne::(Positive(?=<))?<?(Positive)?(Bounds|Ball|LowerBound|UpperBound|Error|Approximation)<')
IMPL = ('RealWrapper<', 'RealLimit<', 'ValidatedRealWrapper<', 'LogicalWrapper<')
IFACE = {A + x for x in ('RealInterface', 'RealBase', 'RealWrapperBase', 'RealExpressionBase')}
EFF = A + 'Effort'; ACC = A + 'Accuracy'


def program():
    if 'p' not in _P: _P['p'] = prog.load(tus.tus('numeric/real.cpp') + [prog.VERIF + '/tu/use_real.cpp'])
    return _P['p']


def isreal(t): return bare(t) in REALS
def isenc(t):
    t = bare(t)
    return bool(ENC.match(t)) or t.startswith(A + 'Positive<') and isenc(t[len(A + 'Positive<'):-1])
def side(t):
    """which ends a number of the class vouches for"""
    t = bare(t)
    if t.startswith(A + 'Positive<'): return side(t[len(A + 'Positive<'):-1])
    n = re.match(r'^Ariadne::(?:Positive)?(\w+)<', t).group(1)
    return {'Bounds': 'lu', 'Ball': 'lu', 'LowerBound': 'l', 'UpperBound': 'u', 'Error': 'u', 'Approximation': ''}[n]


def strip(v):
    while v is not None and v[0] == 'num' and isinstance(v[1], tuple) and v[1][0] in ('dn', 'up'): v = v[1][2]
    return v


MONO = {'add': '++', 'sub': '+-', 'neg': '-', 'pos': '+', 'hlf': '+', 'max': '++', 'min': '++', 'exp': '+', 'atan': '+'}
ITEMS = {'operator+': 'add', 'operator-': 'sub', 'operator*': 'mul', 'operator/': 'div'}


class EPol(RPol):
    def isnumv(s, v): return v[0] == 'bin' and v[1] == '^' and s.isnumv(v[2]) and s.isnumv(v[3]) or RPol.isnumv(s, v)
    max_paths = 400
    forkloops = True
    def decide(s, ev, cond):
        if len(ev.facts) > 12: raise Infeasible()          # further iterations of a retry loop repeat the first ones
        return None
    def loop(s, ev, x): return None
    def fresh(s, ev, k, t):
        ev.n += 1; return ('num', (k, ev.n, t))
    def enc(s, ev, ty, lo, up, exact=False):
        sd = side(ty)
        f = ()
        if 'l' in sd and lo is not None: f += (('_l', lo if exact else s.fresh(ev, 'dn', lo)),)
        if 'u' in sd and up is not None: f += (('_u', up if exact else s.fresh(ev, 'up', up)),)
        return ('rec', bare(ty), f, None)
    def ends(s, v):
        """(lower, upper) of a number as an enclosure, or None"""
        if v[0] == 'rec':
            c, e = get(v, '_v'), get(v, '_e')
            if c is not None and e is not None:
                c, e = s.num(c), s.ends(e)[1] if s.ends(e) is not None and s.ends(e)[1] is not None else s.num(e)
                return (nop('sub', c, e), nop('add', c, e))
            l = get(v, '_l'); u = get(v, '_u')
            if l is None and u is None and not isenc(v[1]): return None
            return (l and s.num(l), u and s.num(u))
        return None
    def isE(s, v): return v[0] == 'rec' and (isenc(v[1]) or s.impl_ends(v))
    def impl_ends(s, v): return v[0] == 'rec' and get(v, '_l') is not None
    def meaning(s, v):
        """the number an object of the real interface stands for"""
        if v[0] == 'robj': return v[1]
        if v[0] == 'rec':
            p = get(v, '_ptr')
            if p is not None: return s.meaning(p)
            b = bare(v[1])
            if b.startswith(A + 'RealWrapper<'):
                o = split_args(b[len(A + 'RealWrapper<'):-1])
                op = o[0].split('::')[-1].lower()
                if op == 'cnst': c = get(v, '_c'); return s.num(c) if c is not None else None
                fs = [get(v, x) for x in ('_arg', '_arg1', '_arg2', '_num')]
                fs = [s.meaning(x) if s.isrealv(x) else s.num(x) for x in fs if x is not None]
                return nop(op, *fs)
            if b.startswith(A + 'RealLimit<'): return ('num', 'lim')
            if b == A + 'WhenRealExpression': return ('num', ('when', s.k(get(v, '_p1')), s.meaning(get(v, '_r1')), s.k(get(v, '_p2')), s.meaning(get(v, '_r2'))))
        if v[0] == 'nop' or v[0] == 'num': return v
        return None
    def isrealv(s, v):
        if v[0] == 'robj': return True
        if v[0] != 'rec': return False
        p = get(v, '_ptr')
        return p is not None and p[0] == 'robj' or bare(v[1]) in REALS
    def k3(s, ev, c): ev.n += 1; return ('k3', ev.n, c)
    def extra(s, ev, fn, this, args, node):
        n, rec, rv = fn.n, bare(fn.rec or ''), ev.rv
        ctor = fn.has('ctor')
        vs = [rv(a) for a in args]
        tv = rv(this) if this is not None and not ctor else None
        ret = bare(fn.ret or '')
        if tv is not None and tv[0] == 'ptr' and n in ('operator->', 'operator*', 'get'): return ('term', tv)
        # effort, accuracy
        if ctor and rec == EFF: return ('term', vs[0] if vs and vs[0][0] == 'eff' else ('eff', vs[0] if vs else I(0)))
        if tv is not None and tv[0] == 'eff':
            if n == 'work' or n.startswith('operator unsigned'): return ('term', tv[1])
            if n == 'operator++': ev.write(this, ('eff', ev.arith('+', tv[1], I(1), None))); return this
            if n in ('operator+=', 'operator*='): ev.write(this, ('eff', ev.arith(n[8], tv[1], vs[0], None))); return this
        if ctor and rec == ACC:
            return ('term', vs[0] if vs and vs[0][0] == 'acc' else ('acc', s.num(vs[0]))) if vs and (vs[0][0] == 'acc' or s.isnumv(s.num(vs[0]))) else None
        if tv is not None and tv[0] == 'acc' and n == 'error': return ('term', tv[1])
        if rec.startswith('std::integral_constant<') and n.startswith('operator unsigned'): return ('term', I(int(re.search(r',\s*(\d+)', rec).group(1))))
        if ctor and rec in (A + 'Dyadic', A + 'Integer', A + 'Nat64', A + 'Nat32') and len(vs) == 1 and vs[0][0] == 'bin' and vs[0][1] == '^': return ('term', vs[0])
        if ctor and isnum(rec) and len(vs) >= 1 and vs[0][0] == 'int' and vs[0][1] < 0 and fn.params and bare(fn.params[0][2]) == 'unsigned int': return ('term', I(vs[0][1] % 2 ** 32))
        # powers of two
        if n == 'operator^' and len(vs) == 2 and vs[1][0] == 'int': return ('term', ('nop', 'pow', I(2), vs[1]))
        if n == 'bits' and tv is not None and tv[0] == 'prec': return ('term', I(64))
        # handles and pointers
        if rec.startswith('std::') and n in ('operator->', 'operator*', 'get') and tv is not None and tv[0] in ('robj', 'vobj', 'lobj'): return ('term', tv)
        if ctor and rec in REALS and len(vs) == 1 and s.isrealv(vs[0]): return ('term', ('rec', rec, (('_ptr', ('robj', s.meaning(vs[0]))),), None))
        if ctor and rec in VALID and len(vs) == 1 and vs[0][0] == 'rec' and bare(vs[0][1]) in VALID and get(vs[0], '_ptr') is not None and get(vs[0], '_ptr')[0] == 'vobj':
            return ('term', ('rec', rec, (('_ptr', get(vs[0], '_ptr')),), None))
        if (rec.startswith('std::') and ctor or ctor and rec.startswith(A + 'Handle<')) and len(vs) >= 1 and vs[0][0] in ('robj', 'vobj', 'lobj'):
            return ('term', vs[0] if rec.startswith('std::') else ('rec', rec, (('_ptr', vs[0]),), None))
        if n in ('move', 'forward') and len(vs) == 1: return None
        if n == 'make_shared' and fn.q.startswith('std::make_shared'):
            t = split_args(fn.q[fn.q.index('<') + 1:fn.q.rindex('>')])[0]
            if t.startswith(A + 'RealWrapper<'):
                op = split_args(t[len(A + 'RealWrapper<'):-1])[0].split('::')[-1].lower()
                if op == 'cnst': m = s.endsnum(vs[0])
                else: m = nop(op, *[s.meaning(x) if s.isrealv(x) else s.num(x) for x in vs if not (x[0] == 'rec' and not x[2] and not s.isrealv(x) or x[0] in ('app', 'uninit') or x[0] == 'opt')])
                if m is None: raise Unsupported('constant real')
                return ('term', ('robj', m))
            if t.startswith(A + 'RealLimit<') and vs[0][0] == 'seq': return ('term', ('robj', ('num', 'lim')))
            if t.startswith(A + 'ValidatedRealWrapper<'):
                e = s.ends(vs[0])
                if e is None:
                    x = s.num(vs[0]); e = (x, x)
                return ('term', ('vobj', e[0], e[1]))
            if t.startswith(A + 'LogicalWrapper<'):
                op = split_args(t[len(A + 'LogicalWrapper<'):-1])[0].split('::')[-1]
                ms = [s.meaning(x) for x in vs if s.isrealv(x)]
                return ('term', ('lobj', s.stmt(ev, op, ms)))
            if t == A + 'WhenRealExpression':
                if len(vs) == 2: vs = [get(x, f) for x in vs for f in ('_p', '_t')]; 
                if len(vs) == 4 and None not in vs: return ('term', ('robj', ('num', ('when', s.k(vs[0]), s.meaning(vs[1]), s.k(vs[2]), s.meaning(vs[3])))))
            raise Unsupported('make_shared ' + t)
        # the virtual interface, by contract
        if n in ('_compute', '_compute_get') and tv is not None and s.meaning(tv) is not None:
            m = s.meaning(tv)
            if ret in VALID: return ('term', ('rec', ret, (('_ptr', ('vobj', s.fresh(ev, 'dn', m), s.fresh(ev, 'up', m))),), None))
            if isenc(ret): return ('term', s.enc(ev, ret, m, m))
        if n == '_get' and tv is not None and tv[0] == 'vobj' and isenc(ret): return ('term', s.enc(ev, ret, tv[1], tv[2], exact='Dyadic' in ret))
        if n == '_check' and tv is not None and tv[0] == 'lobj': return ('term', s.k3(ev, tv[1]))
        # public computation from an opaque real (its own obligation) is used by contract too
        if tv is not None and s.isrealv(tv) and n in ('compute', 'compute_get', 'get', 'compute_using') and s.meaning(tv) is not None:
            m = s.meaning(tv)
            if ret in VALID: return ('term', ('rec', ret, (('_ptr', ('vobj', s.fresh(ev, 'dn', m), s.fresh(ev, 'up', m))),), None))
            if isenc(ret): return ('term', s.enc(ev, ret, m, m))
        # sequences
        if tv is not None and tv[0] == 'seq' and n == 'operator[]':
            if vs[0][0] != 'int': raise Unsupported('index of a sequence')
            if isenc(ret): return ('term', ('rec', bare(ret), (('_l', ('num', ('sqb', 'dn', vs[0][1]))), ('_u', ('num', ('sqb', 'up', vs[0][1])))), None))
            t = ('num', ('sq', vs[0][1]))
            return ('term', ('rec', ret, (('_ptr', ('robj', t)),), None) if ret in REALS else t)
        if ctor and vs and vs[0][0] == 'seq': return ('term', vs[0])
        # truth values
        ks = [s.k(v) for v in ([tv] if tv is not None else []) + vs if s.k(v) is not None]
        if ctor and islog(rec.replace('Detail::', '')) and ks: return ('term', ks[0])
        if ctor and vs and vs[0][0] == 'lobj': return ('term', s.k3(ev, vs[0][1]))
        if ks:
            k = ks[0]
            if n in ('check', 'copy', '_copy', 'clone') or n.startswith('operator ') and ret != 'bool': return ('term', k)
            if n in ('definitely', 'is_true') or n == 'operator bool': return ('term', ('def', k))
            if n == 'possibly': return ('term', ('pos', k))
            if n in ('decide', 'probably', 'likely'): return ('term', ('any', k))
            if n in ('choose', '_choose') and len(ks) == 2: return ('term', ('chs', ks[0], ks[1]))
            if n in ('operator!', 'negation'): return ('term', s.k3(ev, ev.norm(('un', '!', k[2]))))
            if len(ks) == 1 and n == 'operator=' and this is not None: ev.write(this, vs[0]); return this
        # directed rounding of an exact number
        if ctor and rec.startswith(A + 'Float<') and vs and not s.isE(vs[0]) and not s.isrealv(vs[0]):
            x = s.num(vs[0])
            if len(vs) == 1 and x[0] == 'num' or len(vs) == 1 and vs[0] is x and s.isnumv(x): return ('term', x)
            rd = [m for m in (rmode(a) for a in vs[1:]) if m]
            if s.isnumv(x) and rd: return ('term', s.fresh(ev, {'d': 'dn', 'u': 'up'}.get(rd[0], 'nr'), x))
            if s.isnumv(x) and len(vs) == 2 and vs[1][0] == 'prec': return ('term', x)
        # enclosures
        es = ([tv] if tv is not None else []) + vs
        es = [e for e in es if not (e[0] in ('prec', 'eff'))]
        if ctor and isenc(rec):
            if not es: raise Unsupported('default number')
            if s.isrealv(es[0]) and (len(ev.stack) > 1 or True):
                m = s.meaning(es[0])
                if m is not None and ev.stack and not (ev.stack[0] is fn): return ('term', s.enc(ev, rec, m, m))
            if len(es) == 1:
                e = s.ends(es[0])
                if e is not None: return ('term', s.enc(ev, rec, e[0], e[1], exact=fn.has('copy') or fn.has('move') or 'Dyadic' in rec or 'Dyadic' not in es[0][1] and bare(es[0][1]).replace('Positive', '').split('<')[1:] == rec.replace('Positive', '').split('<')[1:]))
                if es[0][0] == 'rec' and bare(es[0][1]) in VALID:
                    v = get(es[0], '_ptr'); return ('term', s.enc(ev, rec, v[1], v[2], exact='Dyadic' in rec))
                x = s.num(es[0])
                if s.isnumv(x): return ('term', s.enc(ev, rec, x, x, exact='Dyadic' in rec))
            if len(es) == 2:
                def low(v): e = s.ends(v); return e[0] if e is not None else s.num(v)
                def upp(v): e = s.ends(v); return e[1] if e is not None else s.num(v)
                a, b = low(es[0]), upp(es[1])
                if bare(rec).split('::')[1].startswith('Ball'): return None
                if (a is None or s.isnumv(a)) and (b is None or s.isnumv(b)): return ('term', s.enc(ev, rec, a, b, exact='Dyadic' in rec))
            return None
        if es and not ctor and any(s.isE(e) for e in es):
            if tv is not None and s.isE(tv) and not vs:
                l, u = s.ends(tv)
                if n in ('lower_raw',) and l: return ('term', l)
                if n in ('upper_raw',) and u: return ('term', u)
                if n in ('lower', 'upper', 'value', 'error', 'raw', 'bounds', 'centre'):
                    if isenc(ret): return ('term', s.enc(ev, ret, l if n != 'error' else None, u if n != 'error' else nop('hlf', nop('sub', u, l)), exact='Dyadic' in ret or n in ('lower', 'upper')))
                    if n == 'raw': return ('term', l if l is not None else u)
                    if n in ('lower', 'upper'): return ('term', l if n == 'lower' else u)
                    if l is None or u is None: raise Unsupported(n)
                    return ('term', nop('hlf', nop('add' if n in ('value', 'centre') else 'sub', u, l)))
                if n in ('get_d',): return ('term', ('num', ('free', ev.n, I(0))))
            if n == 'get' and tv is not None and s.isE(tv) and isenc(ret):          # bounds in another precision
                l, u = s.ends(tv); return ('term', s.enc(ev, ret, l, u))
            if n in ('pm',) and len(es) == 2:
                l, u = s.ends(es[0]); x = s.num(es[1]); return ('term', s.enc(ev, ret, nop('sub', l, x), nop('add', u, x), exact=True))
            if n == 'coarsening' and len(es) == 2:
                (l, u), (l2, u2) = map(s.ends, es); return ('term', s.enc(ev, ret, nop('min', l, l2), nop('max', u, u2), exact=True))
            if n in CMPS and len(es) == 2:
                ts = []
                for e in es:
                    x = s.ends(e)
                    if x is None: x = (s.num(e),) * 2
                    ts.append((strip(x[0]), strip(x[1])))
                if all(a == b and a is not None for a, b in ts): return ('term', s.k3(ev, s.ncmp(ev, CMPS[n], ts[0][0], ts[1][0])))
                raise Unsupported('comparison of ' + n)
            if n == 'sgn' and len(es) == 1:
                x = s.ends(es[0])
                if strip(x[0]) == strip(x[1]): return ('term', ('k3', ('sgn', ev.n), s.ncmp(ev, 'gt', strip(x[0]), I(0))))
            if n == 'operator=' and this is not None: ev.write(this, vs[0]); return this
            op = n if n in UN or n in BI else ITEMS.get(n) if len(es) == 2 else 'neg' if n == 'operator-' else None
            if op and isenc(ret):
                if op == 'mag': op = 'abs'
                xs = []
                for e in es:
                    x = s.ends(e)
                    if x is None: x = (s.num(e),) * 2
                    xs.append((strip(x[0]), strip(x[1])))
                if all(a == b and a is not None for a, b in xs):
                    t = nop(op, *[a for a, _ in xs]); return ('term', s.enc(ev, ret, t, t))
                if op in MONO:
                    lo = [a if m == '+' else b for (a, b), m in zip(xs, MONO[op])]; up = [b if m == '+' else a for (a, b), m in zip(xs, MONO[op])]
                    return ('term', s.enc(ev, ret, None if None in lo else nop(op, *lo), None if None in up else nop(op, *up)))
                raise Unsupported('operation %s on wide bounds' % op)
        return None
    def endsnum(s, v):
        if v[0] == 'rec' and s.ends(v) is not None:
            a, b = map(strip, s.ends(v)); return a if a == b else None
        return s.num(v)
    def k(s, v):
        while v is not None and v[0] == 'rec' and (islog(v[1].replace('Detail::', ''))) :
            w = [x for _, x in v[2]] + ([v[3]] if v[3] else [])
            if len(w) != 1: return None
            v = w[0]
        if v is not None and v[0] == 'lobj': return ('k3', 0, v[1])
        if v is not None and v[0] == 'enum' and 'LogicalValue' in v[1]: return None
        return v if v is not None and v[0] == 'k3' else None
    def islogv(s, v): return v[0] in ('def', 'pos', 'any', 'chs') or RPol.islogv(s, v)
    def stmt(s, ev, op, ms):
        if op == 'Sgn': return s.ncmp(ev, 'gt', ms[0], I(0))
        return s.ncmp(ev, {'Equal': 'eq', 'Unequal': 'ne', 'Less': 'lt', 'Gtr': 'gt', 'Leq': 'le', 'Geq': 'ge'}[op], *ms)


def rmode(v):
    t = show(v).lower() if v[0] not in ('prec', 'num') else ''
    if 'rndd' in t or 'down' in t: return 'd'
    if 'rndu' in t or 'up' in t: return 'u'
    if v[0] == 'int': return {8192: 'd', 16384: 'u', 24576: 'n'}.get(v[1])
    return 'n' if 'rndn' in t or 'near' in t else None


def get(v, f):
    while v is not None and v[0] == 'rec':
        for n, x in v[2]:
            if n == f: return x
        v = v[3]
    return None


class EMod(Model):
    def __init__(s, env, seed): Model.__init__(s, env); s.seed = seed; s.slack = {}
    def rnd(s, key, xs):
        if key not in s.slack: s.slack[key] = random.Random('%s|%s' % (s.seed, key)).choice(xs)
        return s.slack[key]
    def _num(s, v):
        if v[0] == 'bin' and v[1] == '^':                   # exclusive or of machine words
            a, b = s.num(v[2]), s.num(v[3]); return Q((int(a) & 0xffffffff) ^ (int(b) & 0xffffffff))
        if v[0] == 'num' and isinstance(v[1], tuple):
            k = v[1]
            if k[0] == 'nr': return s.num(k[2]) + s.rnd(k[:2], [Q(0), Q(1, 32), Q(-1, 32)])
            if k[0] in ('dn', 'up'):
                x = s.num(k[2]); d = s.rnd(k[:2], [Q(0), Q(1, 32), Q(1, 4), Q(2)])
                return x - d if k[0] == 'dn' else x + d
            if k[0] == 'sqb': d = s.rnd(k[:2], [Q(1), Q(0), Q(1, 4), Q(3)]) / 2 ** k[2]; return s.env['lim'] + (d if k[1] == 'up' else -d)
            if k[0] == 'sq': return s.env['lim'] + s.rnd(k, [Q(0), Q(1), Q(-1), Q(1, 2)]) / 2 ** k[1]
            if k[0] == 'when': 
                c1, c2 = s.log(k[1][2]), s.log(k[3][2])
                if c1 and c2 and s.num(k[2]) != s.num(k[4]) or not c1 and not c2: raise Undef('when')
                return s.num(k[2] if c1 else k[4])
            raise Unsupported('number')
        return Model._num(s, v)
    def log(s, v):
        if v[0] == 'lg': return s.env[v[1]]
        if v[0] == 'def': return s.log(v[1][2]) and s.rnd(('k', v[1][1]), [True, False])
        if v[0] == 'pos': return s.log(v[1][2]) or s.rnd(('k', v[1][1]), [True, False])
        if v[0] == 'any': return s.log(v[1][2]) if s.rnd(('k', v[1][1]), [True, False]) else s.rnd(('k2', v[1][1]), [True, False])
        if v[0] == 'k3': return s.log(v[2])
        if v[0] == 'chs':
            a, b = s.log(v[1][2]), s.log(v[2][2])
            if not a and not b: raise Undef('choose')
            return a if a != b else s.rnd(v, [True, False])
        return Model.log(s, v)


class TMod(EMod):
    """the same with every bound exact"""
    def rnd(s, key, xs): return xs[0]


# ------------------------------------------------------------------------------------------------ arguments
EXACT = {A + x for x in ('Integer', 'Dyadic', 'Rational', 'Decimal', 'ExactDouble', 'Float<Ariadne::DoublePrecision>', 'Float<Ariadne::MultiplePrecision>', 'Number<Ariadne::EffectiveTag>', 'Natural')} | {'int', 'unsigned int', 'long', 'unsigned long'}
def arg(t, n):
    """choices of the value of a parameter: (value, meaning term or None)"""
    b = bare(t)
    x = ('num', n)
    if b in REALS: return [(('rec', b, (('_ptr', ('robj', x)),), None), x)]
    if b.startswith('std::shared_ptr<') and 'RealInterface' in b: return [(('robj', x), x)]
    if b in VALID: return [(('rec', b, (('_ptr', ('vobj', ('num', ('dn', n + 'l', x)), ('num', ('up', n + 'u', x)))),), None), x)]
    if isenc(b): return [(('rec', b, tuple((f, ('num', (k, n + f, x))) for f, k, c in (('_l', 'dn', 'l'), ('_u', 'up', 'u')) if c in side(b)), None), x)]
    if b in ('int', 'unsigned int') : return [(I(k), I(k)) for k in (0, 1, 2, 3)] + ([(I(-1), I(-1)), (I(-2), I(-2))] if b == 'int' else [])
    if b in EXACT: return [(x, x)]
    if b == EFF: return [(('eff', I(k)), None) for k in (0, 1, 3, 5)]
    if b == ACC: return [(('acc', ('num', 'acc')), None)]
    if ispr(b): return [(('prec',), None)]
    if re.match(r'^Ariadne::(\w*Sequence)<', b): return [(('seq', b), ('num', 'lim'))]
    if re.match(r'^Ariadne::(Lower|Upper)?Kleenean$', b): return [(('k3', n, ('lg', 'p' + n)), ('k3', n, ('lg', 'p' + n)))]
    m = re.match(r'^Ariadne::Case<(.*)>$', b)
    if m:
        return [(('rec', b, (('_p', ('k3', n, ('lg', 'p' + n))), ('_t', ('rec', A + 'Real', (('_ptr', ('robj', x)),), None))), None), ('case', ('lg', 'p' + n), x))]
    if b in (A + y for y in ('Add', 'Sub', 'Mul', 'Div', 'Pow', 'Pos', 'Neg', 'Hlf', 'Sqr', 'Rec', 'Sqrt', 'Exp', 'Log', 'Sin', 'Cos', 'Tan', 'Asin', 'Acos', 'Atan', 'Abs', 'Max', 'Min', 'Less', 'Gtr', 'Leq', 'Geq', 'Equal', 'Unequal', 'Sgn')): return [(('rec', b, (), None), None)]
    return None


OPS = set(UN) | set(BI)
IDENT = {'upper', 'lower', 'compute', 'compute_get', 'get', 'compute_using', 'cast_real', 'make_signed', 'make_lower', 'make_upper', 'cast_positive', 'make_unsigned', '_get'}
NAMEC = {'eq': 'eq', 'lt': 'lt', 'operator==': 'eq', 'operator!=': 'ne', 'operator<': 'lt', 'operator>': 'gt', 'operator<=': 'le', 'operator>=': 'ge'}


def expected(f, ms, op, this):
    """the meaning of a function: ('val', term) | ('stmt', test) | ('case', test)"""
    n = f.n; ms = [m for m in ms if m is not None]
    if f.has('ctor'): return ('val', ms[0]) if len(ms) == 1 and not bare(f.rec).startswith(A + 'RealWrapper<') else None
    if (n in IDENT or n.startswith('numeric_cast')) and len(ms) == 1 or n.startswith('operator ') and len(ms) == 1 and not f.has('static') and n.split()[1][:1].isalpha(): return ('val', ms[0])
    if n in ('_compute', '_compute_get'): return ('val', this)
    if n in ('_check', '_copy'): return ('stmt', this)
    if n == 'nul': return ('val', I(0))
    if n == 'mag': return ('val', nop('abs', ms[0]))
    if n == 'dist': return ('val', nop('abs', nop('sub', *ms)))
    if n in OPS: return ('val', nop(n, *ms))
    if n in ITEMS and len(ms) == 2: return ('val', nop(ITEMS[n], *ms))
    if n in ('operator-', 'operator+') and len(ms) == 1: return ('val', nop('neg' if n == 'operator-' else 'pos', *ms))
    if n[:-1] in ITEMS and n.endswith('='): return ('val', nop(ITEMS[n[:-1]], *ms))
    if n == 'limit': return ('val', ms[0])
    if n in NAMEC and len(ms) == 2: return ('cmp', NAMEC[n], ms)
    if n in ('sgn', 'check_sgn'): return ('cmp', 'gt', [ms[0], I(0)])
    if n == 'choose' or n == 'when': return (n, ms)
    if n == 'nondeterministic_greater': return ('ndg', ms)
    if n == 'same': return ('same', ms)
    return None


def functions():
    out = []
    p = program()
    for f in p.bodies():
        if f.params is None or f.has('dtor') or f.q.startswith('std::') or 'numeric/' not in f.where or f.has('copy') or f.has('move'): continue
        rec = bare(f.rec or ''); ret = bare(f.ret or '')
        if 'ostream' in ret or f.n in ('class_name', '_write', 'get_d', 'get_default', 'set_default', 'make_real', 'make_logical', '_copy', 'work', 'error', 'round') or any(t.endswith('Int64') or t.startswith('void') for _, _, t in f.params): continue
        real = isreal(rec) or rec in VALID or rec in IFACE or rec.startswith(tuple(A + x for x in IMPL)) or rec == A + 'WhenRealExpression'
        ps = [bare(t) for _, _, t in f.params]
        if not real and not any(isreal(t) or 'Case<' in t and 'Real' in t or 'Sequence<' in t for t in ps): continue
        if rec.startswith((A + 'Sequence', A + 'Case<')) or islog(rec) or rec in (A + 'ApproximateDouble',): continue
        if f.has('ctor') and rec.startswith(A + 'Float<'): continue
        if rec.startswith(A + 'LogicalWrapper<') and not re.search(r'\bReal\b', rec): continue
        out.append(f)
    return out


def ctor_of(rec, nargs=None):
    fs = [f for f in program().bodies() if f.has('ctor') and bare(f.rec) == rec and not f.has('copy') and not f.has('move') and f.params]
    return fs[0] if fs else None


def samples(seed, names, n):
    rnd = random.Random(seed)
    G = [Q(-3), Q(-1), Q(-1, 2), Q(0), Q(1, 4), Q(1), Q(2), Q(4)]
    for k in range(n):
        e = {x: rnd.choice(G) for x in names}
        if rnd.random() < .25 and len(names) > 1: e[names[1]] = e[names[0]]
        e['lim'] = rnd.choice(G); e['acc'] = rnd.choice([Q(1, 64), Q(1, 4), Q(1), Q(3)])
        for x in list(names): e['p' + x] = rnd.random() < .5
        yield EMod(e, '%s%d' % (seed, k))


def truth_of(v, pol):
    v = pol.log(v)
    k = pol.k(v)
    return k if k is not None else v


def judge_val(pol, m, p, want, f, acc):
    """None or a complaint"""
    v = p.value
    if v[0] == 'void' and p.this is not None: v = p.this
    if v[0] in ('robj',) or pol.isrealv(v):
        t = pol.meaning(v)
        if t is None: raise Unsupported('real ' + show(v)[:60])
        g = m.num(t)
        return None if near(g, want) else 'the result is the number %s, it should be %s' % (g, want)
    if v[0] == 'rec' and bare(v[1]) in VALID: v = get(v, '_ptr')
    if v[0] == 'vobj': l, u = v[1], v[2]; sd = {'ValidatedReal': 'lu', 'ValidatedLowerReal': 'l', 'ValidatedUpperReal': 'u'}.get(bare(f.rec if f.has('ctor') else f.ret or '').split('::')[-1], 'lu')
    else:
        e = pol.ends(v)
        if e is None:
            x = pol.num(v)
            if pol.isnumv(x): g = m.num(x); return None if near(g, want) else 'the result is %s, it should be %s' % (g, want)
            raise Unsupported('result ' + show(v)[:80])
        l, u = e; sd = side(v[1]) if isenc(v[1]) else 'lu'
        if 'l' in sd and l is None or 'u' in sd and u is None: raise Unsupported('ends of ' + show(v)[:80])
    eps = Q(1, 10 ** 9) if isinstance(want, float) else 0
    a = m.num(l) if l is not None else -math.inf; b = m.num(u) if u is not None else math.inf
    if 'l' in sd and a > want + eps: return 'the lower bound %s is above the value %s' % (a, want)
    if 'u' in sd and b < want - eps: return 'the upper bound %s is below the value %s' % (b, want)
    if acc and l is not None and u is not None and (b - a) / 2 > m.env['acc']: return 'the bounds [%s:%s] are wider than the accuracy %s allows' % (a, b, m.env['acc'])
    return None


def check(f, full):
    p = program(); pol = EPol()
    rec = bare(f.rec or '')
    meth = f.has('meth') and not f.has('static') and not f.has('ctor')
    thiss = [(None, None)]; names = []
    if meth:
        if rec in IFACE: thiss = [(('robj', ('num', 't')), ('num', 't'))]
        elif rec in REALS or rec in VALID: thiss = arg(rec, 't')
        elif rec == A + 'WhenRealExpression':
            r = lambda n: ('rec', A + 'Real', (('_ptr', ('robj', ('num', n))),), None)
            k = lambda n: ('k3', n, ('lg', 'p' + n))
            thiss = [(('rec', rec, (('_p1', k('a')), ('_p2', k('b')), ('_r1', r('a')), ('_r2', r('b'))), None), ('num', ('when', k('a'), ('num', 'a'), k('b'), ('num', 'b'))))]
        else:
            c = ctor_of(rec)
            if c is None: raise Unsupported('no constructor of ' + rec)
            ch = [arg(t, 'abcd'[i]) for i, (_, _, t) in enumerate(c.params)]
            if any(x is None for x in ch): raise Unsupported('argument of the constructor')
            thiss = []
            for cs in itertools.product(*ch):
                for q in run(p, c, pol, args=[x for x, _ in cs]):
                    if q.kind != 'ret': continue
                    ms = [y for _, y in cs if y is not None]
                    if rec.startswith(A + 'RealWrapper<'):
                        op = split_args(rec[len(A + 'RealWrapper<'):-1])[0].split('::')[-1].lower()
                        m = ms[0] if op == 'cnst' else nop(op, *ms)
                    elif rec.startswith(A + 'LogicalWrapper<'):
                        m = ('k3', 0, pol.stmt(q.ev, split_args(rec[len(A + 'LogicalWrapper<'):-1])[0].split('::')[-1], ms))
                    else: m = ms[0]
                    v = q.value
                    if rec.startswith(A + 'ValidatedRealWrapper<'): v = ('vobj2',) if False else v
                    thiss.append((v, m))
    ch = [arg(t, 'cdef'[i] if meth else 'abcd'[i]) for i, (_, _, t) in enumerate(f.params)]
    if any(x is None for x in ch): raise Unsupported('argument type ' + str([t for (_, _, t), x in zip(f.params, ch) if x is None][0]))
    inst = 0; judged = 0
    for tv, tm in thiss:
        for cs in itertools.product(*ch):
            args = [x for x, _ in cs]; ms = ([tm] if meth and f.n not in ('_compute', '_compute_get', '_check') else []) + [y for _, y in cs]
            ex = expected(f, ms, None, tm)
            if f.has('ctor') and ex is None and rec.startswith(A + 'RealWrapper<'):
                op = split_args(rec[len(A + 'RealWrapper<'):-1])[0].split('::')[-1].lower(); ex = ('val', nop(op if op != 'cnst' else 'pos', *[x for x in ms if x is not None]))
            if f.has('ctor') and (rec == A + 'WhenRealExpression' or rec.startswith((A + 'LogicalWrapper<', A + 'RealLimit<'))): raise Unsupported('constructor used through its methods')
            if ex is None and f.has('ctor') and not [x for x in ms if x is not None]: ex = ('val', I(0))
            if ex is None: raise Unsupported('no meaning given')
            ps = run(p, f, pol, this=tv, args=args); inst += 1
            acc = any(t == ACC for t in (bare(t) for _, _, t in f.params)) and any(v[0] == 'acc' for v in args) and f.n == '_compute'
            hit = 0
            for m in samples(f.n, ['t', 'a', 'b', 'c', 'd', 'e'], full):
                for q in ps:
                    try:
                        if not m.consistent(q.facts): continue
                        if q.kind == 'throw':
                            if f.n in ('_compute_get', 'choose', 'when', 'nondeterministic_greater'): continue
                            raise Unsupported('throws ' + show(q.value)[:60])
                        bad = judge(pol, m, q, ex, f, acc)
                    except Undef: continue
                    except Reached: continue
                    hit += 1
                    if bad: raise Bad('%s: %s' % (where_args(m, args, tv), bad))
            judged += hit
            if f.n in TIGHT:
                for m in samples(f.n, ['t', 'a', 'b', 'c', 'd', 'e'], 30):
                    m = TMod(m.env, '')
                    for q in ps:
                        try:
                            if q.kind != 'ret' or not m.consistent(q.facts): continue
                            bad = tight(pol, m, q, ex, f, args, rec)
                        except (Undef, Reached): continue
                        if bad: raise Bad('%s, components exact: %s' % (where_args(m, args, tv), bad))
            if hit < 3: 
                if any(v[0] == 'int' and v[1] < 0 for v in args): continue
                raise Unsupported('only %d sample points' % hit)
    return '%d instances, %d points' % (inst, judged)


TIGHT = {'_compute_get', '_compute', '_get', 'get', 'compute', 'compute_get', 'compute_using'}
def tight(pol, m, q, ex, f, args, rec):
    """bounds computed from exact components are exact, but for the error a limit allows for"""
    if rec == A + 'WhenRealExpression' or ex[0] != 'val': return None
    v = q.value
    if v[0] == 'rec' and bare(v[1]) in VALID: v = get(v, '_ptr')
    l, u = (v[1], v[2]) if v[0] == 'vobj' else pol.ends(v) or (None, None)
    tol = Q(0)
    if rec.startswith(A + 'RealLimit<'): 
        e = [a[1][1] for a in args if a[0] == 'eff']; tol = Q(4, 2 ** (e[0] if e else 0))
    w = m.num(ex[1])
    if isinstance(w, float): tol = Q(1, 10 ** 6)
    for x, nm in ((l, 'lower'), (u, 'upper')):
        if x is not None and abs(m.num(x) - w) > tol: return 'the %s bound is %s, which is not within %s of the value %s' % (nm, m.num(x), tol, w)
    return None


class Reached(Exception): pass


def where_args(m, args, tv):
    ns = []
    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'num' and isinstance(x[1], str): ns.append(x[1])
            for y in x: go(y)
    for a in args + ([tv] if tv else []): go(a)
    r = ', '.join('%s=%s' % (n, m.env[n]) for n in sorted(set(ns)))
    ks = ', '.join(str(a[1][1]) for a in args if a[0] == 'eff')
    return 'with ' + r + (' at effort ' + ks if ks else '')


def judge(pol, m, q, ex, f, acc):
    k = ex[0]
    if k == 'val':
        want = m.num(ex[1])
        if f.has('ctor') and bare(f.rec).startswith(A + 'RealWrapper<'):
            c = get(q.value, '_c')
            if not any(x.startswith('_arg') or x == '_c' for x, _ in q.value[2]) and pol.ends(q.value) is None: raise Unsupported('fields of the object')
            t = pol.meaning(q.value)
            if t is not None:
                g = m.num(t)
                if not near(g, want): return 'the object stands for %s, it should be %s' % (g, want)
            v = q.value
            e = pol.ends(v)
            if e is None or e[0] is None: return None
            a, b = m.num(e[0]), m.num(e[1]); eps = Q(1, 10 ** 9) if isinstance(want, float) else 0
            return None if a <= want + eps and b >= want - eps else 'the stored bounds [%s:%s] do not contain %s' % (a, b, want)
        return judge_val(pol, m, q, want, f, acc)
    if k in ('stmt', 'cmp'):
        v = truth_of(q.value, pol)
        want = m.log(ex[1]) if k == 'stmt' else cmpq(ex[1], *[m.num(x) for x in ex[2]])
        if (f.n in ('sgn', 'check_sgn') or v[0] == 'k3' and isinstance(v[1], tuple)) and m.num(strip_sgn(ex)) == 0 and (v[0] == 'k3' or v == ('lit', 'indeterminate')): raise Reached()
        if v == ('lit', 'indeterminate'): return None
        got = m.log(v)
        if f.n == 'check_sgn' and m.num(ex[2][0]) == 0: return 'a definite answer for zero'
        return None if got == want else 'the answer is %s, it should be %s' % (got, want)
    if k in ('choose', 'when'):
        cs = [(m.log(c), m.num(x)) for _, c, x in ex[1]]
        if not any(c for c, _ in cs): raise Undef('no case')
        if k == 'when' and cs[0][0] and cs[1][0] and cs[0][1] != cs[1][1]: raise Undef('cases disagree')
        g = m.num(pol.meaning(q.value))
        return None if any(c and near(x, g) for c, x in cs) else 'the result is %s, for cases %s' % (g, cs)
    if k == 'ndg':
        r, a, b = [m.num(x) for x in ex[1]]
        if not a < b: raise Undef('precondition')
        v = m.log(pol.log(q.value))
        return None if (r > a if v else r < b) else 'the answer %s is wrong' % v
    if k == 'same':
        v = m.log(pol.log(q.value))
        return 'different numbers are called the same' if v and m.num(ex[1][0]) != m.num(ex[1][1]) else None
    raise Unsupported(k)


def strip_sgn(ex):
    if ex[0] == 'cmp': return ex[2][0]
    c = ex[1][2]
    while c[0] == 'not': c = c[1]
    return c[2] if c[3] == I(0) else c[3] if c[2] == I(0) else ('int', 1)


def cmpq(op, a, b): return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[op]


def one(x):
    f, full = x
    rule = 'real:' + ('constructor' if f.has('ctor') else f.n)
    try: v, d = 'proved', check(f, full)
    except Bad as b: v, d = 'violated', str(b)
    except Exception as e: v, d = 'undecided', '%s %s' % (type(e).__name__, str(e)[:400])
    return Ob(rule, f.sig(), f.where, v, d)


def decide(tier):
    fs = functions()
    full = 150 if tier == 'quick' else 1500
    return pmap(one, [(f, full) for f in fs]), {"functions_analysed": len(fs), "functions_resolved": len(program().fns)}
