"""Inductive ledger analysis of polynomial-with-error code (Taylor and affine models).

Abstract values
  numbers       every one-field number class (raw float, rounded float, error, upper bound, ...)
                is one real term: leaf, ('r',mode,op,a..) for a machine operation, exact operations.
  validated     a pair of bounds is ('B',name): any real x with l<=x<=u.
  expansion     ('xp',V): V is the exact polynomial it represents (over atoms for input
                polynomials, coefficients and monomials; every monomial has magnitude <= 1 on the unit box).
  iterator      ('it',place,rem,emit,cur): rem is the sum of the terms still ahead, emit that of
                the terms already passed (as last written), cur the cells of the current term.

A loop over iterators is summarised by one iteration from an arbitrary state: the iteration must
turn what it consumes into what it emits up to an amount that it adds to an error accumulator.
"""
import re
from fractions import Fraction as Q
import engine
from engine import *
from engine import _Brk, _Cont, _Ret
from fmodel import logic, parse_type, strip_pos, FLOATS, split_args
from prog import Fn


# ------------------------------------------------------------------ polynomials
def pz(): return {}
def pconst(c): return {(): Q(c)} if c else {}
def patom(a): return {(a,): Q(1)}
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr)); v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    return r
def psubst(p, a, v):
    """replace atom a by polynomial v"""
    if not any(a in m for m in p): return p
    r = {}
    for m, c in p.items():
        n = m.count(a)
        t = {tuple(x for x in m if x != a): c}
        for _ in range(n): t = pmul(t, v)
        r = padd(r, t)
    return r
def freeze(p): return ('poly', tuple(sorted(p.items(), key=repr)))
def thaw(t): return dict(t[1])
def atoms(p): return {a for m in p for a in m}
def pshow(p):
    def sa(a): return a[1] if a[0] in ('P', 'L', 'th', 'dl', 'eps') and isinstance(a[1], str) else show(a) if a[0] != 'T' else '<' + show(a[1])[:60] + '>'
    return ' + '.join(('' if c == 1 else str(c) + '*') + ('*'.join(sa(a) for a in m) or '1') for m, c in p.items()) or '0'


ZERO = ('int', 0)
def iszero(t): return t == ZERO or (t[0] == 'flt' and float(t[1]) == 0)


class TEv(Ev):
    def __init__(s, prog, pol, dec):
        super().__init__(prog, pol, dec)
        s.rnd = 'N'; s.eltmap = {}; s.subst = []; s.itcmp = 0; s.fresh = 0; s.maxf = 0
    def atom(s, kind, name=''):
        s.fresh += 1; s.maxf = max(s.maxf, s.fresh); return (kind, '%s#%d' % (name, s.fresh))
    def write(s, lv, x):
        e = s.eltmap.get(lv.cell)
        if e is not None and not lv.path or (e is not None and e[1] == 'i'):
            place, which, ccell, icell = e
            old = s.elt(ccell, icell)
            super().write(lv, x)
            new = s.elt(ccell, icell)
            s.addV(place, padd(new, old, -1))
            return
        super().write(lv, x)
    def elt(s, ccell, icell):
        return pmul(s.pol.pv(s.store[ccell]), s.pol.mono(s.store[icell]))
    def addV(s, place, d):
        v = s.read(place)
        if v[0] != 'xp': raise Unsupported("write through an iterator of an unknown expansion")
        Ev.write(s, place, ('xp', freeze(padd(thaw(v[1]), d))) + v[2:])
    def save(s):
        return (dict(s.store), s.n, list(s.facts), dict(s.factmap), s.rnd, dict(s.eltmap), list(s.subst), s.depth, list(s.stack), dict(s.closures), list(s.effects))
    def restore(s, z):
        s.store = dict(z[0]); s.facts = list(z[2]); s.factmap = dict(z[3]); s.rnd = z[4]; s.eltmap = dict(z[5]); s.subst = list(z[6]); s.depth = z[7]; s.stack = list(z[8]); s.closures = dict(z[9]); s.effects = list(z[10])


ONEFIELD = ('F', 'Error', 'Upper', 'Lower', 'Approx')
def nkind(t):
    """'F' a one-field number, 'B' a pair of bounds, 'int', None"""
    b = bare(t)
    m = re.match(r'^Ariadne::Rounded<(.*)>$', b)
    if m: return 'R'
    m = re.match(r'^Ariadne::Interval<Ariadne::UpperBound<', b)
    if m: return 'B'
    k = parse_type(t)
    if k is None: return None
    k = strip_pos(k)
    if k[0] in ONEFIELD: return k[0]
    if k[0] == 'Bounds': return 'B'
    if k[0] == 'int': return 'int'
    if k[0] == 'PR': return 'PR'
    return None
def base(rec):
    m = re.match(r'^Ariadne::(?:\(anonymous namespace\)::)?(\w+)', rec or ''); return m.group(1) if m else ''


MODES = (('Upward', 'U'), ('Downward', 'D'), ('Near', 'N'), ('Approximately', 'N'))
ARITH = {'operator+': 'add', 'operator-': 'sub', 'operator*': 'mul', 'operator/': 'div', 'add': 'add', 'sub': 'sub', 'mul': 'mul', 'div': 'div', 'fma': 'fma', 'sqr': 'sqr', 'rec': 'rec'}


class TMPolicy(Policy):
    max_depth = 60
    max_paths = 300
    ev_class = TEv
    def __init__(s): s.obs = {}; s.nonneg = set(); s.thb = {}; s.notes = []; s.trace = False; s.tight = set(); s.knownhit = False
    # ---- terms
    def pv(s, t):
        k = t[0]
        if k == 'int': return pconst(t[1])
        if k == 'flt': return pconst(Q(float(t[1])))
        if k == 'pt': return thaw(t[1])
        if k == 'neg': return {m: -c for m, c in s.pv(t[1]).items()}
        if k == 'hlf': return {m: c / 2 for m, c in s.pv(t[1]).items()}
        if k == 'L': return patom(t)
        if k == 'B': return patom(('L', t[1] + '*'))
        return patom(('T', t))
    def exact(s, t):
        k = t[0]
        if k == 'r':
            a = [s.exact(x) for x in t[3:]]
            if t[2] == 'add': return padd(a[0], a[1])
            if t[2] == 'sub': return padd(a[0], a[1], -1)
            if t[2] == 'mul': return pmul(a[0], a[1])
            if t[2] == 'sqr': return pmul(a[0], a[0])
            if t[2] == 'fma': return padd(pmul(a[0], a[1]), a[2])
            if t[2] == 'div' and t[4][0] == 'int': return {m: c / t[4][1] for m, c in a[0].items()}
            if t[2] == 'div' and len(a[1]) == 1: return pmul(a[0], patom(('inv', t[4])))
        if k == 'neg': return {m: -c for m, c in s.exact(t[1]).items()}
        if k == 'hlf': return {m: c / 2 for m, c in s.exact(t[1]).items()}
        if k in ('mid',): return patom(('L', t[1][1] + '*'))     # stands for the scalar it approximates
        return s.pv(t)
    def xpand(s, p):
        """machine values replaced by the exact value they round"""
        for a in [a for a in atoms(p) if a[0] == 'T']: p = psubst(p, a, s.exact(a[1]))
        return p
    class Signed(Exception): pass
    def low(s, t):
        """a polynomial in non-negative atoms that is <= t; Signed when t has no visible sign"""
        k = t[0]
        if k == 'int':
            if t[1] < 0: raise s.Signed()
            return pconst(t[1])
        if k == 'pt':
            p = thaw(t[1])
            return p
        if k == 'L':
            if t in s.nonneg: return patom(t)
            raise s.Signed()
        if k == 'abs':
            return patom(('abs', t[1])) if t[1][0] in ('L', 'B') else s.abspoly(t[1])
        if k == 'mag': return patom(('abs', t[1]))
        if k == 'err': return patom(('L', 'err:' + t[1][1]))
        if k == 'r' and t[1] == 'U':
            if t[2] == 'add':
                try: return padd(s.low(t[3]), s.low(t[4]))
                except s.Signed: pass
            elif t[2] == 'mul': return pmul(s.low(t[3]), s.low(t[4]))
            elif t[2] == 'div' and t[4][0] == 'int' and t[4][1] > 0:
                try: return {m: c / t[4][1] for m, c in s.low(t[3]).items()}
                except s.Signed: return patom(('pc', t))
            raise s.Signed()
        if k == 'hlf':
            try: return {m: c / 2 for m, c in s.low(t[1]).items()}
            except s.Signed: return patom(('pc', t))
        if k == 'max': return patom(('pc', t))
        raise s.Signed()
    def abspoly(s, t): return patom(('abs', t))
    def mono(s, ix):
        if ix[0] == 'ix0': return pconst(1)
        if ix[0] == 'ix+': return pmul(s.mono(ix[1]), s.mono(ix[2]))
        return patom(('m', ix))
    # ---- facts
    def reduce(s, ev, p):
        for a, v in ev.subst: p = psubst(p, a, v)
        return p
    def factsubst(s, facts):
        """what the conditions on a path say about monomials and scalars"""
        r = []; lo = set(); hi = set(); no = set()
        for c, v in facts:
            if c[0] == 'app' and len(c) == 4 and not v and c[2][0] in ('ix', 'ix+', 'ix0') and c[3][0] in ('ix', 'ix+', 'ix0'):
                if (c[1], c[3], c[2]) in no: r += s.monoeq(c[2], c[3])
                no.add((c[1], c[2], c[3]))
            if c[0] == 'bin' and len(c) == 4:
                d = [x for x in c[2:] if x[0] == 'app' and x[1] == 'degree']
                if d and ZERO in c[2:] and ((c[1] == '<' and not v and c[2] == ZERO) or (c[1] == '==' and v)): r.append((('m', d[0][2]), pconst(1)))
            if c[0] == 'cmp' and c[1] == '==' and v and ZERO in c[2:]:
                x = c[2] if c[3] == ZERO else c[3]
                if x[0] == 'lo': lo.add(x[1])
                if x[0] == 'hi': hi.add(x[1])
                if x[0] == 'val': r.append((('L', x[1][1] + '*'), neg_(patom(('eps', 'err:' + x[1][1])))))
        for b in lo & hi: r.append((('L', b[1] + '*'), {}))
        return r
    def monoeq(s, a, b):
        """the index order is total: neither less means equal"""
        if a[0] != 'ix': a, b = b, a
        return [(('m', a), s.mono(b))] if a[0] == 'ix' else []
    def equation(s, ev, p):
        """record p == 0"""
        p = s.reduce(ev, p)
        for m, c in p.items():
            if len(m) == 1 and m[0][0] in ('P', 'm') and sum(m[0] in x for x in p) == 1:
                rest = {k: -v / c for k, v in p.items() if k != m}
                ev.subst.append((m[0], rest))
                if m[0][0] == 'P': ev.subst.append((('N', m[0]), {} if not rest else patom(('N', m[0]))))
                return
    # ---- iterators
    def mat(s, ev, lv):
        it = ev.read(lv)
        if it[0] == 'itlast':
            place = LV(it[1], it[2]); v = ev.read(place)
            if len(v) > 2 and v[2][0] == 'last':
                cc, ic = v[2][1:]
                ev.write(lv, ('it', it[1], it[2], freeze(s.pelt(ev, cc, ic)), freeze(patom(ev.atom('P', 'front'))), (cc, ic), it[3], freeze(s.pelt(ev, cc, ic))))
                return cc, ic
            c, i = ev.atom('L', 'last'), ev.atom('ix', 'last')
            cc, ic = ev.cell(s.eltval(it[3], c)), ev.cell(i)
            ev.eltmap[cc] = (place, 'c', cc, ic); ev.eltmap[ic] = (place, 'i', cc, ic)
            Ev.write(ev, place, v[:2] + (('last', cc, ic),))
            ev.write(lv, ('it', it[1], it[2], freeze(s.pelt(ev, cc, ic)), freeze(patom(ev.atom('P', 'front'))), (cc, ic), it[3], freeze(s.pelt(ev, cc, ic))))
            return cc, ic
        if it[0] != 'it': raise Unsupported("dereference of %s" % it[0])
        if it[5] is None:
            c, i = ev.atom('L', 'c'), ev.atom('ix', 'a')
            cc, ic = ev.cell(s.eltval(it[6], c)), ev.cell(i)
            place = LV(it[1], it[2])
            ev.eltmap[cc] = (place, 'c', cc, ic); ev.eltmap[ic] = (place, 'i', cc, ic)
            it = it[:5] + ((cc, ic),) + it[6:7] + (freeze(s.pelt(ev, cc, ic)),)
            ev.write(lv, it)
        return it[5]
    def eltval(s, kind, c): return ('B', c[1]) if kind == 'B' else c
    def pelt(s, ev, cc, ic): return ev.elt(cc, ic)
    def incr(s, ev, lv):
        cc, ic = s.mat(ev, lv)
        it = ev.read(lv)
        rem = padd(thaw(it[3]), thaw(it[7]), -1)
        ev.write(lv, ('it', it[1], it[2], freeze(rem), freeze(padd(thaw(it[4]), s.pelt(ev, cc, ic))), None, it[6]))
    def atend(s, ev, v):
        ev.itcmp += 1
        if v[0] == 'itend': return True
        if v[0] == 'it':
            if v[5] is not None: return False
            p = s.reduce(ev, thaw(v[3]))
            if not p: return True
            c = ('atend', freeze(p))
            r = ev.fork(c)
            if r: s.equation(ev, p)
            return r
        raise Unsupported("iterator comparison")
    def place(s, this):
        return this.cell, this.path
    def ckind(s, rec):
        m = re.match(r'^Ariadne::\w*Expansion<(.*)>$', rec or '')
        if m:
            a = split_args(m.group(1))
            k = nkind(a[1] if len(a) > 1 else a[0])
            return 'B' if k == 'B' else 'F' if k else None
        return None
    # ---- calls
    def call(s, ev, fn, this, args, node):
        r = s._call(ev, fn, this, args, node)
        if s.trace and (fn.file.startswith('/repo') or 'Ariadne' in fn.q): print('  ' * ev.depth, fn.q[:90].replace('Ariadne::', ''), '->', (show(r[1])[:80] if isinstance(r, tuple) else r))
        return r
    def _call(s, ev, fn, this, args, node):
        n = fn.n; rb = base(fn.rec)
        T = lambda t: ('term', t)
        if n.startswith('set_rounding_'):
            for k, m in (('upward', 'U'), ('downward', 'D'), ('to_nearest', 'N'), ('toward_zero', 'Z')):
                if n.endswith(k): ev.rnd = m; return T(('void',))
            return T(('void',)) if n == 'set_rounding_mode' and not s.badmode(ev) else None
        if n in ('get_rounding_mode', 'precision'): return T(('sym', n, ''))
        v0 = None
        first = this if (this is not None and not fn.has('ctor') and not fn.has('static')) else (args[0] if args else None)
        if first is not None:
            try: v0 = ev.rv(first)
            except Unsupported: v0 = None
        others = args if first is this else args[1:]
        if fn.q.startswith('std::') or fn.tq.startswith('std::'): return s.stdcall(ev, fn, this, args, v0)
        if v0 is not None and isinstance(v0, tuple) and v0:
            if v0[0] in ('it', 'itend', 'itlast'): return s.iter_call(ev, fn, n, first, v0, others, this)
            if v0[0] == 'eref': return s.eref_call(ev, fn, n, first, v0, others)
            if v0[0] == 'bind' and n == 'operator()': return s.bindcall(ev, v0, args, node)
            if v0[0] == 'xp' or (rb.endswith('Expansion') and fn.rec and s.ckind(fn.rec)): 
                r = s.xp_call(ev, fn, n, first, v0, others, this, args)
                if r is not None: return r
        if rb.endswith('Expansion') and fn.has('ctor') and s.ckind(fn.rec):
            if args:
                a0 = ev.rv(args[0])
                if a0[0] == 'xp': return T(a0)
            return T(('xp', freeze({})))
        if rb == 'Sweeper' and n in ('sweep', '_sweep') and len(args) == 2: return s.sweepcall(ev, args)
        if rb.endswith('Sweeper') or rb.endswith('SweeperBase') or rb == 'SweeperInterface':
            if fn.has('ctor'): return T(('sym', 'sweeper', ''))
            if bare(fn.ret) == 'bool': return T(('app', fn.n) + tuple(ev.rv(a) for a in args))
            if n in ('_sweep', 'sweep') and len(args) == 2 and ev.depth > 0: return s.sweepcall(ev, args)
            if fn.has('copy') or fn.has('move'): return T(ev.rv(args[0]))
            if fn.has('casg') or fn.has('masg'): return this
        if rb.startswith('MultiIndex') or (v0 is not None and v0 and v0[0] in ('ix', 'ix+', 'ix0') and fn.file and '/algebra/multi_index' in fn.file) or (args and base(bare(fn.p[0]) if fn.p else '') == 'MultiIndex' and not fn.rec):
            r = s.mi_call(ev, fn, n, this, args)
            if r is not None: return r
        return s.num_call(ev, fn, n, this, args)
    def badmode(s, ev): return False
    def stdcall(s, ev, fn, this, args, v0):
        T = lambda t: ('term', t)
        if fn.n == 'bind': return T(('bind', bare(fn.ret)) + tuple(ev.rv(a) for a in args))
        if v0 is not None and v0 and v0[0] == 'bind' and fn.n == 'operator()':
            return s.bindcall(ev, v0, args, None)
        if fn.has('ctor') and 'Bind' in (fn.rec or '') and v0 is not None: return T(v0)
        if fn.n in ('swap',) : return None
        return None
    def bindcall(s, ev, b, args, node):
        m = re.match(r'^std::_Bind<(.*)\((.*)\)>$', b[1])
        if not m: raise Unsupported("bind")
        ty = split_args(m.group(2)); actual = []; tys = []
        for k, t in enumerate(ty):
            pm = re.search(r'_Placeholder<(\d+)>', t)
            if pm: actual.append(args[int(pm.group(1)) - 1]); tys.append(None)
            else: actual.append(b[3 + k]); tys.append(bare(t))
        cls = bare(m.group(1)); cand = []
        for f in ev.prog.fns.values():
            if f.n == 'operator()' and f.rec == cls and len(f.p) == len(actual) and f.body is not None:
                if all(t is None or bare(p) == t for t, p in zip(tys, f.p)): cand.append(f)
        fam = s.family
        cand2 = [f for f in cand if fam in ' '.join(f.p) and 'Zero' not in ' '.join(f.p) and 'Approximation<' not in ' '.join(f.p)]
        cand = cand2 or cand
        if s.coef: cand = [f for f in cand if nkind(f.p[0]) == s.coef] or cand
        if len(cand) != 1: raise Unsupported("bind target: %d candidates for %s" % (len(cand), cls))
        return ('term', ev.rv(ev.invoke(cand[0], ev.lval(b[2]), actual)))
    family = 'DoublePrecision'; coef = 'F'
    def sweepcall(s, ev, args):
        xl, el = args
        x = ev.rv(xl)
        if x[0] != 'xp': raise Unsupported("sweep of an unknown expansion")
        th, dl = ev.atom('th', 'swept'), ev.atom('L', 'swept')
        s.nonneg.add(dl); s.tight.add(dl); s.thb[th] = patom(dl)
        ev.write(xl, ('xp', freeze(padd(thaw(x[1]), patom(th)))))
        ev.write(el, ('pt', freeze(padd(s.pv2(ev.rv(el)), patom(dl)))))
        return ('term', ('void',))
    def pv2(s, t):
        """a numeric cell as a polynomial that bounds it from below (errors only)"""
        try: return s.low(t)
        except s.Signed: return s.pv(t)
    def iter_call(s, ev, fn, n, lv, v, others, this):
        T = lambda t: ('term', t)
        if fn.has('copy') or fn.has('move') or fn.has('ctor'): return T(v)
        if fn.has('casg') or fn.has('masg') or (n == 'operator=' and len(others) == 1):
            ev.write(lv, ev.rv(others[0])); return lv
        if n == 'operator++':
            old = ev.read(lv); s.incr(ev, lv)
            return lv if not others else T(old)
        if n in ('operator!=', 'operator==', 'equal'):
            w = ev.rv(others[0])
            if w[0] == 'itend': r = s.atend(ev, v)
            elif v[0] == 'itend': r = s.atend(ev, w)
            elif v == w: r = True
            else: raise Unsupported("comparison of two iterators")
            return T(B(r if n != 'operator!=' else not r))
        if n in ('operator*', 'operator->', 'dereference'):
            cc, ic = s.mat(ev, lv if isinstance(lv, LV) else s._tmp(ev, v))
            return T(('eref', cc, ic))
        if n == 'operator-':
            w = ev.rv(others[0])
            if v[0] == 'itend' and w == ('int', 1): return T(('itlast',) + v[1:])
            if v[0] == 'it' and w[0] == 'it' and w[4] == freeze({}): return T(('cnt', v[4]))
            if v[0] == 'itend' and w[0] == 'it' and w[4] == freeze({}): return T(('cntall',))
        raise Unsupported("iterator operation " + n)
    def _tmp(s, ev, v): return LV(ev.cell(v))
    def eref_call(s, ev, fn, n, lv, v, others):
        T = lambda t: ('term', t)
        if n in ('coefficient', 'data'): return LV(v[1])
        if n in ('index', 'key'): return LV(v[2])
        if n == 'operator->': return T(v)
        if n in ('operator=',):
            w = ev.rv(others[0])
            if w[0] != 'eref': raise Unsupported("term assignment")
            ev.write(LV(v[2]), ev.read(LV(w[2]))); ev.write(LV(v[1]), ev.read(LV(w[1])))
            return lv if isinstance(lv, LV) else T(v)
        if fn.has('ctor'): return T(v)
        raise Unsupported("term reference operation " + n)
    def xp_call(s, ev, fn, n, lv, v, others, this, args):
        T = lambda t: ('term', t)
        if v[0] != 'xp':
            return None
        V = thaw(v[1]); ck = s.ckind(fn.rec) or 'F'
        if fn.has('ctor'): return T(v) if len(args) <= 2 else None
        if n == 'operator=': ev.write(lv, ev.rv(others[0])); return lv
        if n == 'begin': return T(('it',) + s.place(lv) + (freeze(V), freeze({}), None, ck))
        if n == 'end': return T(('itend',) + s.place(lv) + (ck,))
        if n in ('append', '_append'):
            ix, c = ev.rv(others[0]), ev.rv(others[1])
            ev.write(lv, ('xp', freeze(padd(V, pmul(s.pv(c), s.mono(ix)))))); return T(('void',))
        if n == 'append_sum':
            a, b, c = [ev.rv(o) for o in others]
            ev.write(lv, ('xp', freeze(padd(V, pmul(s.pv(c), pmul(s.mono(a), s.mono(b))))))); return T(('void',))
        if n == 'clear': ev.write(lv, ('xp', freeze({}))); return T(('void',))
        if n == 'swap':
            w = ev.rv(others[0]); ev.write(lv, w); ev.write(others[0], v); return T(('void',))
        if n in ('reserve', 'sort', 'reverse_lexicographic_sort', 'graded_sort', 'index_sort', 'check'): return T(('void',))
        if n == 'resize':
            c = ev.rv(others[0])
            while c[0] == 'cast': c = c[-1]
            if c[0] == 'cnt': ev.write(lv, ('xp', c[1])); return T(('void',))
            if c == ('cntall',): return T(('void',))
            raise Unsupported("resize")
        if n == 'empty':
            c = ('atend', freeze(s.reduce(ev, V)))
            if not s.reduce(ev, V): return T(TRUE)
            r = ev.fork(c)
            if r: s.equation(ev, V)
            return T(B(r))
        if n == 'back':
            l = s._tmp(ev, ('itlast',) + s.place(lv) + (ck,)); cc, ic = s.mat(ev, l)
            return T(('eref', cc, ic))
        if n == 'zero_coefficient': return T(ZERO)
        if n == 'radius': return None
        if n in ('set',) and len(others) == 2:
            ix, c = ev.rv(others[0]), ev.rv(others[1])
            if V: raise Unsupported('set in a non-empty expansion')
            ev.write(lv, ('xp', freeze(pmul(s.pv(c), s.mono(ix))))); return T(('void',))
        if n in ('argument_size', 'size'): return T(('sym', n, ''))
        if n in ('number_of_terms', 'number_of_nonzeros', 'capacity'): return T(('sym', n + '@' + pshow(s.reduce(ev, V)), ''))
        raise Unsupported("expansion operation " + n)
    def mi_call(s, ev, fn, n, this, args):
        T = lambda t: ('term', t)
        if fn.has('copy') or fn.has('move'): return T(ev.rv(args[0]))
        if fn.has('ctor'):
            return T(('ix0',)) if len(args) <= 1 else T(ev.atom('ix', 'new'))
        if fn.has('casg') or fn.has('masg') or n == 'operator=':
            w = ev.rv(args[-1]); ev.write(this, w); return this
        vs = [ev.rv(this)] if this is not None and not fn.has('static') else []
        vs += [ev.rv(a) for a in args]
        if n == 'zero': return T(('ix0',))
        if n == 'operator+' and len(vs) == 2: return T(('ix+',) + tuple(sorted(vs, key=repr)))
        if n == 'operator+=' and len(vs) == 2:
            lv = this if this is not None else args[0]
            ev.write(lv, ('ix+',) + tuple(sorted(vs, key=repr))); return lv
        if n in ('operator==', 'operator!=') and len(vs) == 2:
            a, b = vs
            if a == b: r = True
            else:
                r = ev.fork(('bin', '==') + tuple(sorted(vs, key=repr)))
                if r: s.equation(ev, padd(s.mono(a), s.mono(b), -1))
            return T(B(r if n == 'operator==' else not r))
        if n == 'degree' or n == 'size' or n == 'number_of_variables': return T(('app', n) + tuple(vs))
        if bare(fn.ret) == 'bool': return T(('app', n) + tuple(vs))
        if n.startswith('operator const Ariadne::') or n.startswith('operator Ariadne::'):
            return this if fn.ret.strip().endswith('&') and isinstance(this, LV) else T(vs[0])
        if n == 'operator[]':
            if this is not None and not fn.has('const'):
                raise Unsupported("component of a multi-index")
            return T(('app', 'comp') + tuple(vs))
        raise Unsupported("multi-index operation " + n)
    def num_call(s, ev, fn, n, this, args):
        T = lambda t: ('term', t)
        rk = nkind(fn.rec) if fn.rec else None
        ks = [nkind(p) for p in fn.p]
        meth = this is not None and fn.has('meth') and not fn.has('static') and not fn.has('ctor')
        if rk is None and not any(k in ('F', 'R', 'B') or k in ONEFIELD for k in ks): return None
        if rk is None and any(k is None and not any(w in p for w, _ in MODES) and 'Rounding' not in p and 'Zero' not in p for k, p in zip(ks, fn.p)): return None
        if fn.has('ctor'):
            if rk is None: return None
            if not args: return T(ZERO)
            v = plainnum(ev.rv(args[0]))
            if rk == 'B':
                if ks[0] == 'B': return T(v)
                if len(args) == 1 or ks[1] == 'PR': return T(v)
                return T(('Bt', v, ev.rv(args[1])))
            if ks[0] == 'PR': return T(ZERO)
            if ks[0] == 'B': return T(s.frombounds(rk, v))
            if ks[0] == 'int':
                while v[0] == 'cast': v = v[-1]
                return T(v)
            if ks[0] is not None: return T(v)
            if v[0] in ('int', 'flt'): return T(v)
            raise Unsupported("construction from " + fn.p[0])
        vs = ([ev.rv(this)] if meth else []) + [ev.rv(a) for a in args]
        kk = ([rk] if meth else []) + ks
        if n in ('operator=',):
            v = plainnum(vs[-1])
            if ks[-1] == 'B' and rk != 'B': v = s.frombounds(rk, v)
            ev.write(this, v); return this
        # explicit rounding argument
        mode = None
        if fn.p and ks and ks[0] is None:
            for w, m in MODES:
                if w in fn.p[0]: mode = m
            if mode is None and 'Rounding' in fn.p[0]: mode = ev.rnd
            if mode is not None: vs = vs[1:]; kk = kk[1:]
        vs = [plainnum(v) for v in vs]
        if mode is None:
            if 'R' in kk: mode = ev.rnd
            elif any(k in ('Error', 'Upper') for k in kk): mode = 'U'
            elif 'Lower' in kk: mode = 'D'
            elif 'Approx' in kk: mode = 'N'
        op = n[:-1] if n in ('operator+=', 'operator-=', 'operator*=', 'operator/=') else n
        if n == 'operator()': return s.unsup(fn)
        if len(vs) == 1:
            a = vs[0]
            if kk[0] == 'B':
                if n in ('value', 'value_raw', 'midpoint', 'centre'): return T(('val', a))
                if n == 'error' or n == 'error_raw': return T(('err', a))
                if n == 'mag': return T(('mag', a))
                if n in ('lower_raw', 'lower', 'lower_bound'): return T(('lo', a))
                if n in ('upper_raw', 'upper', 'upper_bound'): return T(('hi', a))
                if n in ('neg', 'operator-'): return T(('Bneg', a))
                return T(('B', 'f%d' % id(a))) if False else s.unsup(fn)
            if n in ('raw', 'get', 'operator+', 'pos', 'cast_exact', 'cast_raw', 'cast_positive', 'cast_rounded', 'data', 'upper_raw', 'middle_raw') or n.startswith('operator '):
                a0 = this if meth else args[-1]
                return a0 if fn.ret.strip().endswith('&') and isinstance(a0, LV) else T(a)
            if n in ('neg', 'operator-'): return T(mkneg(a))
            if n == 'hlf': return T(a if iszero(a) else ('hlf', a))
            if n in ('abs', 'mag'): return T(a if iszero(a) else ('abs', a[1] if a[0] == 'neg' else a))
            if n == 'nul': return T(ZERO)
            if n == 'sqr' and mode: return T(('r', mode, 'sqr', a))
            if n in ('is_finite',): return T(TRUE)
            if n in ('is_nan', 'is_inf'): return T(FALSE)
            return s.unsup(fn)
        if n in ('max', 'min') and len(vs) == 2: return T((n,) + tuple(vs))
        if n == 'operator()': return s.unsup(fn)
        c = {'operator<': '<', 'operator>': '>', 'operator<=': '<=', 'operator>=': '>=', 'operator==': '==', 'operator!=': '!='}.get(n)
        if c and len(vs) == 2: return T(s.cmp(ev, c, vs[0], vs[1], fn.ret))
        o = ARITH.get(op)
        if o and len(vs) in (2, 3):
            if 'B' in kk: return s.unsup(fn)
            if mode is None: return s.unsup(fn)
            t = s.arith(mode, o, vs)
            if op != n:
                lv = ev.lval(this if this is not None else args[0])
                ev.write(lv, t); return lv
            return T(t)
        return s.unsup(fn)
    def unsup(s, fn):
        if fn.body is not None and '/numeric/' not in fn.file: return 'inline'
        raise Unsupported("number operation " + fn.q + "(" + ",".join(fn.p) + ")")
    def arith(s, mode, o, vs):
        if o == 'add':
            if iszero(vs[0]): return vs[1]
            if iszero(vs[1]): return vs[0]
        if o == 'mul' and (iszero(vs[0]) or iszero(vs[1])): return ZERO
        if o == 'sub' and iszero(vs[1]): return vs[0]
        if o == 'div' and vs[1] == ('int', 2): return ('hlf', vs[0]) if mode == 'U' else ('r', mode, 'div') + tuple(vs)
        return ('r', mode, o) + tuple(vs)
    def frombounds(s, rk, v):
        if rk == 'Approx': return ('mid', v)
        if rk in ('Upper',): return ('hi', v)
        if rk == 'Lower': return ('lo', v)
        raise Unsupported("number from bounds")
    def cmp(s, ev, c, a, b, ret):
        if c in ('>', '<='): a, b = b, a; c = {'>': '<', '<=': '>='}[c]
        if a[0] == 'int' and b[0] == 'int': r = {'<': a[1] < b[1], '>=': a[1] >= b[1], '==': a[1] == b[1], '!=': a[1] != b[1]}[c]
        elif c in ('==', '!='):
            r = ev.fork(('cmp', '==', a, b))
            if c == '!=': r = not r
        else:
            r = ev.fork(('cmp', '<', a, b))
            if c == '>=': r = not r
        return B(r) if not bare(ret).startswith('Ariadne::') else logic(bare(ret)[9:], r)
    def decide(s, ev, c):
        if c[0] == 'cmp' and c[1] == '<' and c[3] == ZERO:
            try: s.low(c[2]); return False
            except s.Signed: pass
        return None


def plainnum(v):
    while v[0] == 'cast': v = v[-1]
    if v[0] == 'rec' and v[1] == 'Ariadne::ExactDouble':
        w = dict(v[2]).get('_d')
        if w is not None and w[0] in ('int', 'flt'):
            w = ('int', int(float(w[1]))) if float(w[1]) == int(float(w[1])) else w
            return w
    if v[0] == 'rec' and re.match(r'Ariadne::(Positive<Ariadne::)?(\w*Number|Integer|Natural)\b', v[1]):
        n = ints(v)
        if len(n) == 1: return ('int', n[0])
    return v


def ints(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'int' and isinstance(t[1], int): return [t[1]]
        return [n for x in t for n in ints(x)]
    return []


def mkneg(a):
    if a[0] == 'int': return ('int', -a[1])
    return a[1] if a[0] == 'neg' else ('neg', a)


# ------------------------------------------------------------------ loops
def leaves(v, path=()):
    if v is not None and v[0] == 'rec':
        if v[3] is not None and not v[2]: yield path, v; return
        for f, x in v[2]: yield from leaves(x, path + (('f', f),))
    else: yield path, v


def numeric(v): return v is not None and v[0] in ('int', 'L', 'r', 'pt', 'neg', 'hlf', 'abs', 'mag', 'max', 'min', 'val', 'err', 'mid', 'lo', 'hi')


class Loops(TMPolicy):
    depth = 0
    def loop(s, ev, a):
        st, fr = a
        k = st[0]
        if getattr(ev, 'noind', 0): return None
        if k == 'do': raise Unsupported("do loop")
        if k == 'for' and st[1] is not None:
            s_init = st[1]; ev.stmt(s_init, fr); st = ('for', None) + tuple(st[2:])
        hid = None
        if k == 'rfor':
            rng = ev.expr(st[2], fr); rl = ev.lval(rng); v = ev.rv(rl)
            if v[0] == 'arr': return None
            if v[0] == 'rec':
                f = [p for p, x in leaves(v) if x is not None and x[0] == 'xp' and len(p) == 1]
                if len(f) != 1: raise Unsupported("range-for")
                rl = rl.sub(f[0][0]); v = ev.rv(rl)
            if v[0] != 'xp': raise Unsupported("range-for over " + v[0])
            hid = LV(ev.cell(('it', rl.cell, rl.path, v[1], freeze({}), None, s.rngkind or 'F')))
        def cond():
            if k == 'rfor': return B(not s.atend(ev, ev.read(hid)))
            e = st[2] if k == 'for' else st[1]
            return ev.norm(ev.val(e, fr)) if e is not None else TRUE
        def body():
            try:
                if k == 'rfor':
                    cc, ic = s.mat(ev, hid)
                    vid, nm, ty = st[1][0], st[1][1], st[1][2]
                    fr[vid] = LV(ev.cell(('eref', cc, ic)))
                    ev.stmt(st[3], fr)
                else: ev.stmt(st[4] if k == 'for' else st[2], fr)
            except _Cont: pass
            if k == 'for' and st[3] is not None: ev.expr(st[3], fr)
            if k == 'rfor': s.incr(ev, hid)
        where = ev.stack[-1].where if ev.stack else ''
        # what kind of loop is it?
        z = ev.save(); f0 = dict(fr); sd = (ev.dec, ev.pos, ev.new); ev.dec, ev.pos, ev.new = [], 0, []
        ev.itcmp = 0
        try: c = cond()
        finally:
            ev.dec, ev.pos, ev.new = sd; ev.restore(z); fr.clear(); fr.update(f0)
        if ev.itcmp == 0:
            if c[0] == 'bool':
                ev.noind = 1
                try: return s.unroll(ev, st, fr, cond, body)
                finally: ev.noind = 0
        return s.induct(ev, fr, cond, body, where)
    rngkind = None
    def unroll(s, ev, st, fr, cond, body):
        cnt = 0
        while True:
            c = cond()
            if c[0] != 'bool': raise Unsupported("loop with symbolic bound")
            if not c[1]: return ('done',)
            cnt += 1
            if cnt > 60: raise Unsupported("loop bound")
            ev.noind = 0
            try: body()
            except _Brk: return ('done',)
            ev.noind = 1
    def havoc(s, ev, key, v, nonneg):
        if v[0] == 'xp': return ('xp', freeze(patom(ev.atom('P', 'V'))))
        if v[0] == 'it': return v[:3] + (freeze(patom(ev.atom('P', 'rest'))), freeze(patom(ev.atom('P', 'done'))), None, v[6])
        if v[0] in ('ix', 'ix+', 'ix0'): return ev.atom('ix', 'h')
        if numeric(v):
            a = ev.atom('L', 'h')
            (s.nonneg.add if nonneg else s.nonneg.discard)(a); s.tight.discard(a)
            return a
        if v[0] == 'uninit': return v
        return ('sym', 'h%s' % ev.atom('sym', '')[1], '')
    def induct(s, ev, fr, cond, body, where):
        z = ev.save(); f0 = dict(fr); sd = (ev.dec, ev.pos, ev.new)
        pre = z[0]; mod = {}; signed = set(); rounds = 0
        base_n = ev.fresh
        mark = len(s.notes)
        s.depth += 1
        try:
            while True:
                rounds += 1
                if rounds > 12: raise Unsupported("loop invariant does not stabilise")
                steps = []; dec = []; nmod = {}; nsigned = set()
                del s.notes[mark:]         # only the final round counts
                while True:
                    ev.restore(z); fr.clear(); fr.update(f0)
                    ev.dec, ev.pos, ev.new = dec, 0, []
                    ev.fresh = base_n
                    start = {}
                    for (cell, path), ov in mod.items():
                        h = s.havoc(ev, (cell, path), ov, (cell, path) not in signed)
                        start[(cell, path)] = h
                        Ev.write(ev, LV(cell, path), h)
                    z2 = dict(ev.store)
                    end = None
                    try:
                        c = cond()
                        if ev.fork(c):
                            body(); end = 'ok'
                    except Throw: end = None
                    except Infeasible: end = None
                    except _Brk: raise Unsupported("break out of a loop")
                    except _Ret: raise Unsupported("return out of a loop")
                    if end == 'ok':
                        for cell, ov in pre.items():
                            a, b = z2.get(cell), ev.store.get(cell)
                            if a == b or a is None or b is None: continue
                            la = dict(leaves(a)); lb = dict(leaves(b))
                            for p in la:
                                if lb.get(p) != la[p]:
                                    if (cell, p) not in mod: nmod[(cell, p)] = ev_read(pre, cell, p)
                        for key, h in start.items():
                            if h[0] == 'L' and h in s.nonneg:
                                try: s.low(ev.read(LV(*key)))
                                except s.Signed: nsigned.add(key)
                        steps.append((start, {k2: ev.read(LV(*k2)) for k2 in mod}, list(ev.subst) + s.factsubst(ev.facts), list(ev.facts)))
                    full = dec[:ev.pos] + ev.new
                    while full and full[-1] is False: full.pop()
                    if not full: break
                    full[-1] = False; dec = full
                    if len(steps) > 60: raise Unsupported("too many iteration paths")
                for key, ov in mod.items():
                    if key not in signed and numeric(ov):
                        try: s.low(ov)
                        except s.Signed: nsigned.add(key)
                if not nmod and not (nsigned - signed): break
                mod.update(nmod); signed |= nsigned
        finally:
            s.depth -= 1
            ev.dec, ev.pos, ev.new = sd
            ev.restore(z); fr.clear(); fr.update(f0)
        ev.fresh = ev.maxf          # names used inside the loop are not used again
        s.summarise(ev, pre, mod, signed, steps, where)
        c = cond()
        if ev.fork(c): raise Infeasible()
        return ('done',)
    def summarise(s, ev, pre, mod, signed, steps, where):
        """write the state after the loop"""
        its = [k for k, v in mod.items() if v[0] == 'it']
        class E: pass
        # accumulators
        accs = {}
        for k, v in mod.items():
            if not numeric(v) or k in signed: continue
            incs = []
            for start, end, sub, facts in steps:
                try: l = s.low(end[k])
                except s.Signed: incs = None; break
                a = start[k]
                if l.get((a,)) != 1 or any(a in m and m != (a,) for m in l): incs = None; break
                d = dict(l); del d[(a,)]
                incs.append(d)
            if incs is not None: accs[k] = incs
        used = set(); tight = set(); newv = {}
        R = {k: ev.atom('P', 'rest') for k in its}
        rem0 = {k: thaw(mod[k][3]) for k in its}
        qs = [(k, 'xp') for k, v in mod.items() if v[0] == 'xp'] + [(k, 'emit') for k in its]
        def q(v, w): return thaw(v[1]) if w == 'xp' else thaw(v[4])
        for k, w in qs:
            # how much of each consumed term goes into the quantity
            deltas = []
            for start, end, sub, facts in steps:
                E.subst = sub
                deltas.append(s.reduce(E, padd(q(end[k], w), q(start[k], w), -1)))
            wt = {}
            for i in its:
                wt[i] = {}
                for (start, end, sub, facts), d in zip(steps, deltas):
                    E.subst = sub
                    cons = s.reduce(E, padd(thaw(start[i][3]), thaw(end[i][3]), -1))
                    if len(cons) != 1: continue
                    m, c = next(iter(cons.items()))
                    r = quotient(s.xpand(d), m)
                    if r is None: continue
                    r = {a: b / c for a, b in r.items()}
                    if r and not any(('h#' in str(x[1]) and False) for x in atoms(r)): wt[i] = r; break
            Ds = []
            for (start, end, sub, facts), d in zip(steps, deltas):
                E.subst = sub
                D = d
                for i in its:
                    cons = s.reduce(E, padd(thaw(start[i][3]), thaw(end[i][3]), -1))
                    D = padd(D, pmul(wt[i], cons), -1)
                Ds.append(s.reduce(E, D))
            theta = None; status = 'proved'; why = ''
            if any(Ds):
                best = None
                sets = [(x,) for x in accs] + ([tuple(accs)] if len(accs) != 1 else [])
                for xs in sets:
                    res = []
                    for j, (D, st_) in enumerate(zip(Ds, steps)):
                        inc = {}
                        for x in xs: inc = padd(inc, accs[x][j])
                        res.append(s.bound(D, inc, st_[3], st_[2]))
                    okc = sum(r[0] == 'ok' for r in res)
                    if best is None or okc > best[0] or (okc == best[0] and okc < len(res)): best = (okc, xs, res)
                    if okc == len(res): break
                bad = [r for r in best[2] if r[0] != 'ok']
                if not bad:
                    theta = best[1]
                    used.update(theta)
                    if not any(r[1] for r in best[2]): tight.update(theta)
                else:
                    viol = [r for r in bad if r[0] == 'viol']
                    # a running quantity of a form that is not understood could hold the rest
                    odd = [x for x, v in mod.items() if numeric(v) and x not in accs and any(contains(e[x], st0[x]) and e[x] != st0[x] and not largest(e[x], st0[x]) for st0, e, _, _ in steps)]
                    status = 'viol' if viol and not odd else 'und'
                    why = (viol or bad)[0][1]
                    if viol and odd:
                        # a condition which no iteration changes splits the loop into two loops
                        sub_ = s.invariant_case(mod, accs, steps, best[2])
                        if sub_: status, why = 'viol', sub_
            s.note(where, 'loop', status, why, ev)
            V = q(mod[k], w)
            for i in its: V = padd(V, pmul(wt[i], padd(rem0[i], patom(R[i]), -1)))
            if any(Ds):
                th = ev.atom('th', 'loop'); s.thb.pop(th, None)
                V = padd(V, patom(th))
                newv.setdefault('th', []).append((th, theta))
            newv[(k, w)] = V
        # accumulators after the loop
        minimal = []
        for k, incs in accs.items():
            dl = ev.atom('L', 'acc'); s.nonneg.add(dl); s.tight.discard(dl)
            try: e0 = s.low(mod[k])
            except s.Signed: e0 = s.pv(mod[k])
            val = padd(e0, patom(dl))
            if k not in used:
                least = set(range(len(steps)))
                for i in its:
                    ws = []; at = []
                    for j, ((start, end, sub, facts), inc) in enumerate(zip(steps, incs)):
                        cons = padd(thaw(start[i][3]), thaw(end[i][3]), -1)
                        if len(cons) != 1: continue
                        m = next(iter(cons))
                        cs = [a for a in m if a[0] == 'L']
                        x = None
                        if len(cs) == 1:
                            x = next((y for y in ((('abs', cs[0]),), (('abs', ('B', cs[0][1][:-1])),)) if y in inc), None)
                        ws.append(inc[x] if x else 0); at.append((j, x))
                    if ws and len(rem0[i]) == 1:
                        w_ = min(ws); m = next(iter(rem0[i]))
                        if len(m) == 1:
                            if w_ > 0: val = padd(val, padd(patom(('N', m[0])), patom(('N', R[i])), -1), w_)
                            least &= {j for j, x in at if {y: c for y, c in incs[j].items() if c} == ({x: w_} if w_ else {})}
                        else: least = set()
                    else: least &= {j for j in range(len(steps)) if not incs[j]}
                minimal.append((dl, least))
            accs_v = ('pt', freeze(val))
            newv[('acc', k)] = accs_v
            if k in tight: s.tight.add(dl)
            for th, a in newv.get('th', []):
                if a and k in a: s.thb[th] = padd(s.thb.get(th) or {}, patom(dl))
        # one kind of iteration adds nothing but what is accounted for to every accumulator: the rest can be nothing
        if minimal and set.intersection(*[l for _, l in minimal]): s.tight.update(d for d, _ in minimal)
        for th, a in newv.get('th', []):
            if th not in s.thb: s.thb[th] = None
        for k, v in mod.items():
            if v[0] == 'xp': x = ('xp', freeze(newv[(k, 'xp')]))
            elif v[0] == 'it': x = v[:3] + (freeze(patom(R[k])), freeze(newv[(k, 'emit')]), None, v[6])
            elif ('acc', k) in newv: x = newv[('acc', k)]
            else: x = s.havoc(ev, k, v, k not in signed)
            Ev.write(ev, LV(*k), x)
    def invariant_case(s, mod, accs, steps, res):
        names = {str(a[1]) for st in steps for a in st[0].values() if isinstance(a, tuple) and len(a) > 1} | {str(a[1]) for st in steps for v in st[0].values() for a in atoms_in(v)}
        conds = {}
        for j, st in enumerate(steps):
            for c, v in st[3]: conds.setdefault(c, {})[j] = v
        for c, w in conds.items():
            if len(w) != len(steps) or len(set(w.values())) < 2: continue
            r = repr(c)
            if '@' not in r or any(n and n in r for n in names): continue
            for pol in (True, False):
                js = [j for j in w if bool(w[j]) == pol]
                v = [res[j] for j in js if res[j][0] == 'viol']
                if not v: continue
                odd = [x for x, o in mod.items() if numeric(o) and any(contains(steps[j][1][x], steps[j][0][x]) and steps[j][1][x] != steps[j][0][x] and not largest(steps[j][1][x], steps[j][0][x]) for j in js)]
                if not odd: return v[0][1]
        return None
    def note(s, where, what, status, why, ev):
        s.notes.append((where, what, status, why))
    # ---- bounds
    def absbound(s, m):
        """polynomial in non-negative atoms bounding |monomial m|; None when unknown"""
        r = pconst(1)
        for a in m:
            if a[0] == 'm': continue
            if a[0] == 'L' and a in s.nonneg: b = patom(a)
            elif a[0] == 'L' and a[1].endswith('*'): b = patom(('abs', ('B', a[1][:-1])))
            elif a[0] == 'L': b = patom(('abs', a))
            elif a[0] == 'th':
                b = s.thb.get(a)
                if b is None: return None
            elif a[0] == 'eps': b = patom(('L', a[1]))
            elif a[0] == 'P': b = patom(('N', a))
            else: return None
            r = pmul(r, b)
        return r
    def bound(s, D, inc, facts, sub):
        """|D| <= inc ?   ('ok',) ('viol',why) ('und',why)"""
        class E: pass
        E.subst = list(sub) + s.factsubst(facts)
        D = s.reduce(E, D); inc = s.reduce(E, inc)
        if not D: return ('ok', bool(inc))
        budget = dict(inc)
        # group by the part that is not a machine number
        groups = {}
        for m, c in D.items():
            key = tuple(a for a in m if a[0] in ('m', 'P', 'th', 'eps', 'N'))
            g = tuple(a for a in m if a[0] not in ('m', 'P', 'th', 'eps', 'N'))
            groups.setdefault(key, {})[g] = c
        rest = {}
        pend = None
        for key, G in groups.items():
            if any(a[0] == 'T' for m in G for a in m):
                mk = [a for a in key if a[0] != 'm']
                done = False
                if not mk:
                    for p in list(budget):
                        if len(p) == 1 and p[0][0] == 'pc' and budget[p] >= 1:
                            if covers(s, G, p[0][1], facts):
                                budget[p] -= 1
                                if not budget[p]: del budget[p]
                                done = True; break
                if not done:
                    X = s.xpand(G)
                    if not X and False: pass
                    pend = (key, G)
                    continue
            else:
                for g, c in G.items(): rest[key + g] = c
        if pend:
            why = 'the change of the coefficient %s is not covered by the error it records (%s)' % (pshow(pend[1])[:160], pshow(inc)[:160])
            from tmnum import refute
            r = refute(s, pend[1], inc, facts)
            return ('viol', why + ': ' + r) if r else ('und', why)
        need = {}
        for m, c in rest.items():
            b = s.absbound(tuple(m))
            if b is None: return ('und', 'no bound for ' + pshow({m: c}))
            need = padd(need, b, abs(c))
        left = padd(budget, need, -1)
        neg = {m: c for m, c in left.items() if c < 0}
        if not neg: return ('ok', bool(left))
        why = 'an amount of up to %s is not in the error bound, which is only guaranteed to be at least %s' % (pshow({m: -c for m, c in neg.items()})[:200], pshow(inc)[:200])
        # a left-over that could stand for the same quantity makes the comparison inconclusive
        if any(s.vague(a) for m in left for a in m if left[m] > 0): return ('und', why)
        return ('viol', why)
    def vague(s, a):
        """an amount about which only its sign is known"""
        if a[0] in ('pc', 'eps', 'th', 'T'): return True
        return a[0] == 'L' and '#' in str(a[1]) and a not in s.tight


def atoms_in(t):
    if isinstance(t, tuple):
        if len(t) > 1 and isinstance(t[0], str) and isinstance(t[1], str) and '#' in t[1]: yield t
        for x in t: yield from atoms_in(x)


def largest(t, a):
    """keeps the largest of what it is given: two equal amounts are not added up"""
    return t[0] == 'max' and a in t[1:] and not any(contains(x, a) for x in t[1:] if x != a)


def contains(t, a):
    if t == a: return True
    return isinstance(t, tuple) and any(contains(x, a) for x in t)


def ev_read(store, cell, path):
    v = store[cell]
    for p in path: v = field(v, p[1])
    return v


def quotient(p, m):
    """the polynomial r with p = r*m + (terms without m's coefficient atom); None when some term has only part of m"""
    r = {}
    cs = [a for a in m if a[0] == 'L']
    if len(cs) != 1: return None
    c = cs[0]
    for k, v in p.items():
        if c not in k: continue
        l = list(k)
        for a in m:
            if a in l: l.remove(a)
            else: return None
        if c in l: return None
        r[tuple(l)] = r.get(tuple(l), 0) + v
    return r


# ------------------------------------------------------------------ rounding errors
def same(a, b): return not padd(a, b, -1)


def single(t):
    """a machine operation on exact operands"""
    return t[0] == 'r' and all(x[0] in ('L', 'int', 'neg', 'B', 'mid', 'lo', 'hi') and (x[0] != 'neg' or x[1][0] in ('L', 'lo', 'hi')) for x in t[3:])


def covers(s, G, piece, facts):
    """|G| <= piece, G = r - E with r one machine value"""
    ts = [m for m in G if any(a[0] == 'T' for a in m)]
    if len(ts) != 1 or len(ts[0]) != 1 or abs(G[ts[0]]) != 1: return False
    r = ts[0][0][1]; sg = G[ts[0]]
    Es = {m: -c * sg for m, c in G.items() if m != ts[0]}
    if piece[0] == 'hlf' and piece[1][0] == 'r' and piece[1][1] == 'U' and piece[1][2] == 'add':
        u, ml = piece[1][3], piece[1][4]
        for u, ml in ((u, ml), (ml, u)):
            if single(u) and single(ml) and single(r) and u[1] == 'U' and ml[1] == 'U' and r[1] == 'N':
                if same(s.pvx(u), s.pvx(r)) and same(s.pvx(u), neg_(s.pvx(ml))) and same(s.pvx(r), Es): return True
                # recorded finding: the product by a bounded number is charged half its width only,
                # not the rounding of the centre
                if r[2] == 'mul' and u[2] == 'mul' and ml[2] == 'mul' and r[4][0] == 'mid' and s.above(u, Es, facts) and s.above(ml, neg_(Es), facts):
                    s.knownhit = True; return True
        return False
    if piece[0] == 'max':
        a, b = piece[1], piece[2]
        for a, b in ((a, b), (b, a)):
            u, ml = minus(a, r), plus(b, r)
            if u is not None and ml is not None:
                if s.above(u, Es, facts) and s.above(ml, neg_(Es), facts): return True
    return False


def neg_(p): return {m: -c for m, c in p.items()}
def minus(t, r):
    """u with t >= u - r, t rounded upwards"""
    if t[0] == 'r' and t[1] == 'U':
        if t[2] == 'sub' and t[4] == r: return t[3]
        if t[2] == 'add' and t[4] == mkneg(r): return t[3]
        if t[2] == 'add' and t[3] == mkneg(r): return t[4]
    return None
def plus(t, r):
    if t[0] == 'r' and t[1] == 'U' and t[2] == 'add':
        if t[4] == r: return t[3]
        if t[3] == r: return t[4]
    if t[0] == 'r' and t[1] == 'U' and t[2] == 'sub' and t[4] == mkneg(r): return t[3]
    return None


def _pvx(s, t):
    """exact value of the operation(s), scalars' ends kept apart"""
    k = t[0]
    if k == 'r':
        a = [_pvx(s, x) for x in t[3:]]
        if t[2] == 'add': return padd(a[0], a[1])
        if t[2] == 'sub': return padd(a[0], a[1], -1)
        if t[2] == 'mul': return pmul(a[0], a[1])
        if t[2] == 'fma': return padd(pmul(a[0], a[1]), a[2])
        if t[2] == 'div' and t[4][0] == 'int': return {m: c / t[4][1] for m, c in a[0].items()}
        if t[2] == 'div' and len(a[1]) == 1: return pmul(a[0], patom(('inv', t[4])))
    if k == 'neg': return neg_(_pvx(s, t[1]))
    if k == 'hlf': return {m: c / 2 for m, c in _pvx(s, t[1]).items()}
    if k in ('lo', 'hi', 'mid'): return patom((k, t[1]))
    return s.pv(t)
TMPolicy.pvx = _pvx


def monotone_up(t):
    """value >= exact value: every rounding that matters is upwards"""
    k = t[0]
    if k in ('L', 'int', 'lo', 'hi', 'mid', 'B'): return True
    if k == 'neg': return t[1][0] in ('L', 'int', 'lo', 'hi', 'mid')
    if k == 'r' and t[1] == 'U':
        if t[2] == 'add': return monotone_up(t[3]) and monotone_up(t[4])
        if t[2] == 'sub': return monotone_up(t[3]) and leaf(t[4])
        if t[2] in ('mul', 'div'): return leaf(t[3]) and leaf(t[4])
        if t[2] == 'fma': return all(leaf(x) for x in t[3:])
    return False
def leaf(t): return t[0] in ('L', 'int', 'lo', 'hi', 'mid') or (t[0] == 'neg' and leaf(t[1]))


def _above(s, u, E, facts):
    """u >= E for every admissible value"""
    if not monotone_up(u): return False
    d = padd(_pvx(s, u), E, -1)
    # scalars: hi = c + s', lo = c - s
    for a in list(atoms(d)):
        if a[0] in ('lo', 'hi'):
            nm = a[1][1]
            d = psubst(d, a, padd(patom(('L', nm + '*')), patom(('w', a[0], nm)), 1 if a[0] == 'hi' else -1))
    sign = {}
    for c, v in facts:
        if c[0] == 'cmp' and c[1] == '<':
            if c[3] == ZERO and c[2][0] == 'L': sign[c[2]] = -1 if v else 1
            if c[2] == ZERO and c[3][0] == 'L' and v: sign[c[3]] = 1
            if c[2] == ZERO and c[3][0] == 'L' and not v: sign[c[3]] = -1
    for m, c in d.items():
        sg = 1 if c > 0 else -1
        for a in m:
            if a[0] == 'w' or a in s.nonneg: continue
            if a in sign: sg *= sign[a]; continue
            return False
        if sg < 0: return False
    return True
TMPolicy.above = _above
