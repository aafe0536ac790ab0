"""Straight-line procedures: conversion from formulae, execution, reverse differentiation, interval back-propagation.

Each rule is one step of an induction over the instruction list: an instruction of known kind and operator with opaque
operands is interpreted once, the effect on the store is read off as closed-form terms and compared with the
mathematical operation at sample points of the free symbols.  The loops are checked to visit every instruction in the
required order."""
import os, re, random
import prog, tus
from engine import *
from fmodel import bare
from report import Ob, pmap
import symrun
from symrun import *
from symcheck import verdict, Bad, short_ty

PI = A + 'ProcedureInstruction'
UI = A + 'Interval<Ariadne::UpperBound<'
KINDS = ('ConstantProcedureInstruction', 'IndexProcedureInstruction', 'UnaryProcedureInstruction', 'BinaryProcedureInstruction', 'GradedProcedureInstruction', 'ScalarProcedureInstruction')
INPL = {'operator+=': 'add', 'operator-=': 'sub', 'operator*=': 'mul', 'operator/=': 'div'}
XRE = re.compile(r'^Ariadne::(Interval<|Graded<|Differential<|UnivariateSecondDifferential<|UpperBound<|LowerBound<|Bounds<|Approximation<|Float<|Positive)')
_P = {}


def program():
    if 'p' not in _P:
        _P['p'] = prog.load(tus.tus('function/procedure.cpp', 'geometry/interval.cpp') + [prog.VERIF + '/tu/use_procedure.cpp']); _P['c'] = Cat(_P['p'])
    return _P['p'], _P['c']


def isx(t): t = bare(t); return is_num(t) or bool(XRE.match(t))
def isl(t): t = bare(t); return t.startswith((A + 'List<', A + 'Vector<', A + 'Covector<', 'std::vector<', A + 'Box<', A + 'Array<', A + 'CovectorExpression<', A + 'VectorExpression<', A + 'VectorContainer<'))


class PPol(SPol):
    """numbers of every class stand for the reals they represent; containers are arrays or growing lists"""
    xcut = None
    def numlike(s, v): return v[0] in ('ivl', 'hull', 'emptyivl') or v[0] == 'bin' and v[1] in '+-*' and all(s.numlike(x) for x in v[2:]) or v[0] == 'un' and v[1] == '-' and s.numlike(v[2]) or v[0] in ('icast', 'cast') and s.numlike(v[-1]) or SPol.numlike(s, v)
    def call(s, ev, fn, this, args, node):
        n, rec = fn.n, fn.rec or ''
        rv = ev.rv
        if s.xcut:
            r = s.xcut(s, ev, fn, this, args)
            if r is not None: return r
        if n in ('backpropagate', 'back_gradient', 'propagate') and ev.stack.count(fn) >= 4: raise Throw(('endless recursion', n))
        if fn.has('ctor') and fn.body is None and args and rec.startswith(A) and rec.endswith('ProcedureInstruction') and not fn.has('copy') and not fn.has('move'):
            b = s.prog.recs.get(rec); b = b["bases"][0] if b and b["bases"] else None     # inherited constructor
            for g in s.prog.find(n='Symbolic', rec=b):
                if g.has('ctor') and not g.has('copy') and not g.has('move') and len(g.p) == len(args):
                    v = ev.construct(g, args, node)
                    return ('term', ('rec', rec, v[2], None))
        tv = rv(this) if this is not None and not fn.has('ctor') else None
        if tv is not None and tv[0] == 'arr':
            if n in ('operator[]', 'at', 'get'):
                i = rv(args[0])
                if i[0] == 'rec' and i[1] == A + 'Index': i = field(i, '_i')
                return this.sub(('i', i))
            if n == 'size': return ('term', I(len(tv[1])))
            if n == 'back': return this.sub(('i', I(len(tv[1]) - 1)))
            if n == 'front': return this.sub(('i', I(0)))
            if n == 'zero_element': return ('term', I(0))
        if tv is not None and tv[0] == 'glist':
            if n in ('append', 'push_back', 'emplace_back') and len(args) == 1:
                v = rv(args[0])
                pos = ev.arith('+', ('lsize', tv[1], tv[2]), I(len(tv[3])), None)
                ev.effects.append(('append', tv[1], pos, v))
                ev.write(this, ('glist', tv[1], tv[2], tv[3] + (v,))); return ('term', ('void',))
            if n == 'size': return ('term', ev.arith('+', ('lsize', tv[1], tv[2]), I(len(tv[3])), None))
        if fn.has('ctor') and isl(rec):
            if fn.has('copy') or fn.has('move') or len(args) == 1 and rv(args[0])[0] in ('arr', 'glist'): return ('term', rv(args[0]))
            if not args: return ('term', ('arr', ()))
            a0 = rv(args[0])
            if a0[0] == 'int': return ('term', ('arr', (rv(args[1]) if len(args) > 1 else ('uninit', rec, ''),) * a0[1]))
        if n == 'make_constant' and len(args) == 2: return ('term', s.num(rv(args[0])))
        if n in ('cast_vector', 'cast_box', 'cast_singleton') and len(args) == 1:
            return args[0] if isinstance(args[0], LV) else ('term', args[0])
        if n in ('lower_bound', 'upper_bound') and this is not None and s.numlike(tv): return ('term', ('nop', 'lo' if n == 'lower_bound' else 'hi', tv))
        if n in ('raw', 'get_d', 'value', 'lower', 'upper') and this is not None and not fn.has('ctor') and tv is not None and s.numlike(tv) and n in ('lower', 'upper'): return ('term', ('nop', 'lo' if n == 'lower' else 'hi', tv))
        if n in ('raw', 'get_d') and tv is not None and s.numlike(tv): return ('term', tv)
        if n in NOPS and len(args) >= 2 and not isx(fn.p[0]) and ('ound' in bare(fn.p[0]) or bare(fn.p[0]) in ('unsigned short', 'int', 'unsigned int', 'mpfr_rnd_t')) and isx(fn.p[1]) and all(s.numlike(s.num(rv(a))) for a in args[1:]): return ('term', ('nop', n) + tuple(s.num(rv(a)) for a in args[1:]))
        if n == 'empty_interval': return ('term', ('emptyivl',))
        if n == 'hull' and len(args) == 2:
            a, b = rv(args[0]), rv(args[1])
            if s.numlike(a) and s.numlike(b): return ('term', ('hull', a, b))
        if n == 'restrict' and len(args) == 2:
            ev.effects.append(('restrict', (args[0].cell, args[0].path) if isinstance(args[0], LV) else None, rv(args[0]), s.num(rv(args[1])))); return ('term', ('void',))
        if fn.has('ctor') and XRE.match(rec):
            vs = [s.num(rv(a)) for a in args]
            if len(vs) == 1 and s.numlike(vs[0]): return ('term', vs[0])
            if len(vs) == 2 and rec.startswith(A + 'Interval<') and all(s.numlike(v) for v in vs): return ('term', ('ivl', vs[0], vs[1]))
            if len(vs) == 2 and s.numlike(vs[0]): return ('term', vs[0])
            if fn.has('copy') or fn.has('move'): return ('term', vs[0])
        if n in INPL and isx(fn.p[0] if not fn.has('meth') else rec):
            l = this if this is not None else args[0]; b = s.num(rv(args[-1])); a = s.num(rv(l))
            if s.numlike(a) and s.numlike(b) and isinstance(l, LV): ev.write(l, ('nop', INPL[n], a, b)); return l
        if n == 'operator=' and this is not None and isx(rec):
            v = s.num(rv(args[0]))
            if s.numlike(v): ev.write(this, v); return this
        if not fn.has('ctor'):
            ar = ([tv] if this is not None and not fn.has('static') else []) + [rv(a) for a in args]
            nm = OPN.get(n, {}).get(len(ar)) or (n if n in NOPS else None)
            if nm and not (nm in ('sqrt', 'log') and bare(fn.ret).startswith(UI) and fn.body is not None) and fn.ret and (isx(fn.ret) or 'Graded<' in fn.ret):
                ns = [s.num(a) for a in ar]
                if all(s.numlike(a) for a in ns) and not (rec in s.cat.allops and n == 'operator()'): return ('term', ('nop', nm) + tuple(ns))
        return SPol.call(s, ev, fn, this, args, node)
    def gvar(s, ev, q, ty):
        if q in (A + 'pi',): return ('flt', repr(math.pi))
        if q == A + 'inf': return ('flt', 'inf')
        return None


class Undef(Exception): pass


class PMod(Model):
    """sample point: numbers stand for reals; lo/hi of an interval lie on either side of the represented point"""
    def numval(s, v):
        if v[0] == 'nop' and v[1] in ('lo', 'hi'):
            x = s.numval(v[2])
            if v[2][0] == 'ivl': return s.numval(v[2][1 if v[1] == 'lo' else 2])
            if x is None: return None
            k = (v[1], repr(v[2]))
            if k not in s.env: s.env[k] = s.rng.choice([0, 0, .5, 2]) * s.rng.random()
            return x - s.env[k] if v[1] == 'lo' else x + s.env[k]
        if v[0] == 'flt' and v[1] in ('inf', '-inf'): return float(v[1])
        return Model.numval(s, v)
    def rng_of(s, v):
        """interval value of a restriction with thin operands: (lo,hi), or None for 'everything'"""
        if v[0] == 'ivl': return s.numval(v[1]), s.numval(v[2])
        if v[0] == 'emptyivl': return math.inf, -math.inf
        if v[0] == 'hull':
            a, b = s.rng_of(v[1]), s.rng_of(v[2])
            return None if a is None or b is None else (min(a[0], b[0]), max(a[1], b[1]))
        if v[0] == 'nop' and any(has_ivl(x) for x in v[2:]):
            rs = [s.rng_of(x) for x in v[2:]]
            if None in rs: return None
            f = SEM[v[1]]
            ps = [f(*c) for c in itertools.product(*[(r[0], r[1]) for r in rs])]
            if None in ps: return None
            if v[1] in ('div', 'rec') and (rs[-1][0] != rs[-1][1] or rs[-1][0] == 0): return None
            if v[1] in ('div', 'rec', 'add', 'sub', 'neg', 'pos', 'mul', 'max', 'min', 'exp', 'log', 'sqrt', 'atan', 'asin', 'acos', 'hlf'): return min(ps), max(ps)
            raise Unsupported("range of " + v[1])
        x = s.numval(v)
        if x is None: raise Undef(v)
        return x, x


def has_ivl(v): return isinstance(v, tuple) and (v[:1] in (('ivl',), ('hull',), ('emptyivl',)) or any(has_ivl(x) for x in v[1:] if isinstance(x, tuple)))


def ptrials(pol, facts, n=200, seed=1):
    rng = random.Random(seed)
    for k in range(n):
        yield PMod(pol, facts, rng, generic=k < n // 2 or k % 2)


# ---------------------------------------------------------------- instructions
def fields_of(cat, t):
    for _ in range(4):
        r = cat.p.recs.get(t)
        if r is None: break
        if r["fields"]: return r["fields"]
        if not r["bases"]: return []
        t = r["bases"][0]
    return []


def instructions(cat):
    """(label, kind, operator, payload) of every instruction"""
    for k in KINDS:
        alt = A + k
        fs = fields_of(cat, alt)
        if not fs: continue
        ot = [bare(t) for f, t, m in fs if f == '_op'][0]
        try: ops = cat.opcodes(ot)
        except Unsupported: ops = [None]
        if ot in (A + 'Cnst', A + 'Var'): ops = [None]
        for op in ops:
            vals = []; j = 3
            for f, t, m in fs:
                if f == '_op': vals.append((f, ('rec', ot, (('_code', cat.code(op)),) if op and cat.p.recs.get(ot, {"bases": []})["bases"] or op and ot not in cat.codes else (), None)))
                elif f == '_num': vals.append((f, ('intsym', 'n', 'int')))
                elif f in ('_val', '_ind') or (k.startswith('Scalar') and f == '_arg1'): vals.append((f, I(1)))
                else: vals.append((f, I(j))); j += 2
            yield (k.replace('ProcedureInstruction', '') + (':' + short(op) if op else '')), k, op, ('rec', alt, tuple(vals), None)


def inst(pl): return ('rec', PI, (), ('variant', pl[1], pl))
def arr(name, n, ty='X'): return ('arr', tuple(('num', '%s%d' % (name, i), ty) for i in range(n)))
NV = 9; R = 7


def vnum(name, i): return ('num', '%s%d' % (name, i), 'X')


def operands(k, pl):
    """operand values of an instruction as terms"""
    g = lambda f: field(pl, f)
    if k.startswith('Constant'): return [vnum('c', g('_val')[1])]
    if k.startswith('Index'): return [vnum('x', g('_ind')[1])]
    if k.startswith('Unary'): return [vnum('v', g('_arg')[1])]
    if k.startswith('Binary'): return [vnum('v', g('_arg1')[1]), vnum('v', g('_arg2')[1])]
    if k.startswith('Graded'): return [vnum('v', g('_arg')[1]), g('_num')]
    return [vnum('c', g('_arg1')[1]), vnum('v', g('_arg2')[1])]


def meaning(m, k, op, ops):
    xs = [m.any(o) for o in ops]
    return xs[0] if op is None else opsem(short(op), xs)


def lists_for(fn):
    """argument values by parameter type, for the per-instruction functions"""
    out = []; seen = 0
    for vid, nm, ty in fn.params:
        t = bare(ty)
        if t == PI: out.append('PI')
        elif t == 'unsigned long': out.append(I(R))
        elif t.startswith(A + 'List<') and 'Number<' in targs(t)[0]: out.append(arr('c', 3))
        elif t.startswith(A + 'List<'): out.append(arr('v', NV) if not seen else arr('d', NV)); seen = 1
        elif t.startswith(A + 'Vector<'): out.append(arr('x', 3))
        elif t.startswith(A + 'Covector<'): out.append(arr('g', 3))
        else: raise Unsupported("parameter " + t)
    return out


def jobs_step(name, pred):
    p, c = program()
    return [(f, x) + i for f, x in ((f, targs(f.q[f.q.rindex(name):])[0] if '<' in f.q[f.q.rindex(name):] else '') for f in p.bodies() if f.n == name and pred(f)) for i in instructions(c)]


def jobs_execute(): return jobs_step('_execute_impl', lambda f: any(bare(t) == PI for _, _, t in f.params))


def run_execute(j):
    f, x, l, k, op, pl = j
    p, c = program(); pol = PPol(c)
    args = [inst(pl) if a == 'PI' else a for a in lists_for(f)]
    iv = [i for i, (vid, nm, t) in enumerate(f.params) if bare(t).startswith(A + 'List<') and 'Number<' not in targs(bare(t))[0]][0]
    ops = operands(k, pl); tot = [0]
    def judge(q):
        if q.kind == 'throw': raise Bad('executing %s is refused (%s)' % (l, show(q.value)[:60]))
        out = q.outs[iv]
        if out[0] != 'arr': return 'value list ' + show(out)[:60], 0
        for i, v in enumerate(out[1]):
            if i != R and v != vnum('v', i): raise Bad('executing %s changes the value of another instruction to %s' % (l, show(v)[:80]))
        n = 0
        for m in ptrials(pol, q.facts):
            try:
                if not m.consistent(): continue
                w = meaning(m, k, op, ops)
                if w is None: continue
                if has_ivl(out[1][R]):
                    rg = m.rng_of(out[1][R]); n += 1; tol = 1e-7 * max(1.0, abs(w))
                    if rg is not None and None not in rg and not (rg[0] - tol <= w <= rg[1] + tol): raise Bad('%s: with %s the result [%.5g,%.5g] does not contain %.5g; term %s' % (l, envs(m), rg[0], rg[1], w, show(out[1][R])[:160]))
                    continue
                g = m.any(out[1][R])
            except (Reject, Undef): continue
            n += 1
            if not close(w, g): raise Bad('%s: with %s the result is %s, it should be %s; term %s' % (l, envs(m), g, w, show(out[1][R])[:160]))
        tot[0] += n
        return None, n
    v = verdict(run(p, f, pol, args=args), judge)
    return ('undecided', 'only %d points' % tot[0]) if v[0] == 'proved' and tot[0] < 3 else v


# ---------------------------------------------------------------- reverse differentiation
def jobs_back_gradient():
    r = jobs_step('_back_gradient_impl', lambda f: any(bare(t) == PI for _, _, t in f.params))
    out = []
    for j in r:
        out.append(j + (False,))
        if j[3].startswith('Binary'): out.append(j + (True,))
    return out


def alias(pl):
    return ('rec', pl[1], tuple((f, I(3) if f == '_arg2' else v) for f, v in pl[2]), None)


def run_back_gradient(j):
    f, x, l, k, op, pl, same = j
    p, c = program(); pol = PPol(c)
    if same: pl = alias(pl)
    args = [inst(pl) if a == 'PI' else a for a in lists_for(f)]
    names = {}
    for i, (vid, nm, t) in enumerate(f.params):
        if args[i] == arr('v', NV): names['v'] = i
        if args[i] == arr('d', NV): names['d'] = i
        if args[i] == arr('g', 3): names['g'] = i
    nonsmooth = op and short(op) in ('Abs', 'Max', 'Min')
    ops = operands(k, pl)
    def judge(q):
        if q.kind == 'throw':
            if nonsmooth: return None, 0
            raise Bad('differentiating %s is refused (%s)' % (l, show(q.value)[:60]))
        vo, do, go = [q.outs[names[z]] for z in 'vdg']
        if any(o[0] != 'arr' for o in (vo, do, go)): return 'lists ' + show(do)[:60], 0
        for i, v in enumerate(vo[1]):
            if v != vnum('v', i): raise Bad('differentiating %s changes a value' % l)
        n = 0
        for m in ptrials(pol, q.facts):
            try:
                if not m.consistent(): continue
                xs = [m.any(o) for o in ops]
                if op and opsem(short(op), xs) is None: continue
                dr = m.any(vnum('d', R))
                want = {('d', i): m.any(vnum('d', i)) for i in range(NV)}; want.update({('g', i): m.any(vnum('g', i)) for i in range(3)})
                if k.startswith('Index'): want['g', field(pl, '_ind')[1]] += dr
                elif op:
                    for t, o in enumerate(ops):
                        if o[0] == 'num' and o[1][0] == 'v':
                            d = dsem(short(op), xs, [1.0 if u == t else 0.0 for u in range(len(xs))])
                            if d is None: raise Reject
                            want['d', int(o[1][1:])] += d * dr
                got = {('d', i): m.any(v) for i, v in enumerate(do[1])}; got.update({('g', i): m.any(v) for i, v in enumerate(go[1])})
            except Reject: continue
            n += 1
            for key in want:
                if key == ('d', R) and key not in []: pass
                if got[key] is None and want[key] is not None and not m.generic: continue
                if not close(want[key], got[key]): raise Bad('%s: with %s the adjoint %s%d becomes %s, it should be %s; term %s' % (l, envs(m), key[0], key[1], got[key], want[key], show((do if key[0] == 'd' else go)[1][key[1]])[:160]))
        return (None if n >= 3 or nonsmooth else 'only %d points' % n), n
    return verdict(run(p, f, pol, args=args), judge)


# ---------------------------------------------------------------- interval back-propagation
def jobs_backpropagate():
    out = []
    for j in jobs_step('_backpropagate', lambda f: any(bare(t) == PI for _, _, t in f.params)):
        out.append(j + (False,))
        if j[3].startswith('Binary'): out.append(j + (True,))
    return out


def run_backpropagate(j):
    f, x, l, k, op, pl, same = j
    p, c = program(); pol = PPol(c)
    if same: pl = alias(pl)
    args = [inst(pl) if a == 'PI' else a for a in lists_for(f)]
    ops = operands(k, pl); tot = [0]
    def judge(q):
        if q.kind == 'throw': raise Bad('back-propagating through %s is refused (%s)' % (l, show(q.value)[:60]))
        n = 0; hit = 0; und = None
        rs = [e for e in q.effects if e[0] == 'restrict']
        for o, nm in zip(q.outs, args):
            if nm != args[[i for i, a in enumerate(args) if a == nm][0]]: continue
            if o != nm: return 'intervals are changed other than by a restriction', 0
        for m in ptrials(pol, q.facts, 400):
            try:
                xs = [m.any(o) for o in ops]
                w = xs[0] if op is None else opsem(short(op), xs)
                if w is None: continue
                m.env[('n', 'v%d' % R)] = w
                if not m.consistent(): continue
            except Reject: continue
            n += 1
            for e in rs:
                a = m.any(e[2])
                try: rg = m.rng_of(e[3])
                except Reject: continue
                except Undef as u:
                    if undef_is_total(m, e[3]): continue
                    raise Bad('%s: at %s the restriction %s is undefined although %s is a solution' % (l, envs(m), show(e[3])[:100], '%.4g' % a))
                if rg is None: continue
                if rg[0] is None or rg[1] is None: continue
                tol = 1e-7 * max(1.0, abs(a))
                if not (rg[0] - tol <= a <= rg[1] + tol): raise Bad('%s: the operand value %.5g (with %s) satisfies the equation but is cut off by the restriction to %s = [%.5g,%.5g]' % (l, a, envs(m), show(e[3])[:120], rg[0], rg[1]))
        tot[0] += n
        return None, n
    v = verdict(run(p, f, pol, args=args), judge)
    return ('undecided', 'only %d points' % tot[0]) if v[0] == 'proved' and tot[0] < 3 else v


def undef_is_total(m, v):
    """an undefined term whose only cause is a division by zero (the interval quotient is then unbounded)"""
    if not isinstance(v, tuple) or v[0] != 'nop': return True
    for x in v[2:]:
        if isinstance(x, tuple) and x[0] == 'nop' and m.numval(x) is None: return undef_is_total(m, x)
    return v[1] in ('div', 'rec') or v[1] in ('tan',) or v[1] == 'pow'


# ---------------------------------------------------------------- conversion from formulae
def jobs_convert():
    p, c = program()
    out = []
    for f in p.bodies():
        if f.n == '_convert_impl' and len(f.params) == 4:
            nt = bare(f.params[2][2]); ty = nt.replace('FormulaNode<', 'Formula<')
            for rev in (False, True):
                for i in inputs(c, ty): out.append((f, ty, i[0] + (' right-to-left' if rev else ''), i[1], i[2], i[3], i[4], rev))
    return out


def cut_convert(pol, ev, fn, this, args):
    if fn.n != '_convert' or len(args) != 4: return None
    t = ev.rv(args[2]); X = root(t)
    if X is None: return None
    pol.k += 1
    for a in args[:2]:
        g = ev.rv(a)
        if g[0] != 'glist': raise Unsupported("list " + show(g)[:40])
        ev.write(a, ('glist', g[1], pol.k, ()))
    return ('term', ('instr', X))


def glists(): return ('glist', 'p', 0, ()), ('glist', 'c', 0, ())


def ival(m, q, t, depth=0):
    """value computed by the instruction at an index term"""
    if t[0] == 'instr': return m.nodeval(t[1])
    for e in q.effects:
        if e[0] == 'append' and e[1] == 'p' and e[2] == t: return insval(m, q, e[3])
    raise Bad('an operand index (%s) is not the position of a converted instruction' % show(t)[:60])


def cval(m, q, t):
    for e in q.effects:
        if e[0] == 'append' and e[1] == 'c' and e[2] == t: return m.any(e[3])
    raise Bad('a constant index (%s) is not the position of the stored constant' % show(t)[:60])


def insval(m, q, v):
    while v[0] == 'rec' and not v[2] and v[3] is not None: v = v[3]
    if v[0] != 'variant': raise Unsupported("instruction " + show(v)[:60])
    k, pl = short(v[1]), v[2]
    while pl[0] == 'rec' and not any(f == '_op' for f, x in pl[2]) and pl[3] is not None: pl = pl[3]
    g = lambda f: field(pl, f)
    if k.startswith('Constant'): return cval(m, q, g('_val'))
    if k.startswith('Index'):
        i = g('_ind')
        return m.pick(('x', m.numval(i if i[0] != 'rec' else field(i, '_i'))))
    op = m.opname(g('_op'))
    if k.startswith('Unary'): return opsem(op, [ival(m, q, g('_arg'))])
    if k.startswith('Binary'): return opsem(op, [ival(m, q, g('_arg1')), ival(m, q, g('_arg2'))])
    if k.startswith('Graded'): return opsem(op, [ival(m, q, g('_arg')), m.numval(g('_num'))])
    if k.startswith('Scalar'): return opsem(op, [cval(m, q, g('_arg1')), ival(m, q, g('_arg2'))])
    raise Unsupported("instruction " + k)


def run_convert(j):
    f, ty, l, alt, op, node, pl, rev = j
    p, c = program(); pol = PPol(c, None); pol.xcut = cut_convert; pol.k = 0; pol.rev = rev
    P_, C_ = glists()
    def judge(q):
        if q.kind == 'throw': raise Bad('converting %s is refused (%s)' % (l, show(q.value)[:60]))
        g = q.outs[0]
        if g[0] != 'glist' or not g[3]: raise Bad('converting %s appends no instruction' % l)
        n = 0
        for m in trials(pol, q, 120):
            try: w = m.payval(alt, pl); got = insval(m, q, g[3][-1]) if w is not None else None
            except Reject: continue
            if w is None: continue
            n += 1
            if not close(w, got): raise Bad('the instruction for %s computes another value: with %s it gives %s instead of %s; instruction %s' % (l, envs(m), got, w, show(g[3][-1])[:160]))
        return (None if n >= 3 else 'only %d points' % n), n
    return verdict(run(p, f, pol, args=[P_, C_, node, ('evcache', 'cache')]), judge)


# ---------------------------------------------------------------- loops and wrappers
def jobs_drive():
    p, c = program()
    out = []
    for f in p.bodies():
        if f.q.startswith('std::'): continue
        ts = [bare(t) for _, _, t in f.params]
        if f.n == '_convert' and len(ts) == 4: out.append((f, ts[2], 'cached conversion', 'conv'))
        elif f.n == '_execute' and len(ts) == 4: out.append((f, ts[0], 'forward loop', 'exec'))
        elif f.n == '_backpropagate' and len(ts) == 4: out.append((f, ts[0], 'backward loop', 'back'))
        elif f.n == 'gradient' and len(ts) == 2 and ts[0].startswith(A + 'Procedure<'): out.append((f, ts[1], 'gradient', 'grad'))
        elif f.n == 'evaluate' and len(ts) == 2 and ts[0].startswith((A + 'Procedure<', A + 'Vector<Ariadne::Procedure<')): out.append((f, ts[0] + ' ' + ts[1], 'evaluation', 'eval'))
        elif f.n == 'Procedure' and f.has('ctor') and len(ts) == 2: out.append((f, f.rec, 'construction from a formula', 'ctor'))
        elif f.n == 'Vector' and f.has('ctor') and (f.rec or '').startswith(A + 'Vector<Ariadne::Procedure<'):
            if len(ts) == 2: out.append((f, f.rec, 'construction from formulae', 'vctor'))
            elif ts and ts[0].startswith(A + 'Procedure<'): out.append((f, f.rec, 'construction from a procedure', 'pctor'))
        elif f.n == 'simple_hull_reduce' and len(ts) == 3: out.append((f, ts[1], 'domain reduction', 'hull'))
    return out


def prec(t, n=3):
    """a procedure object with n opaque instructions"""
    fs = [('_argument_size', I(2)), ('_constants', arr('c', 3)), ('_instructions', ('arr', tuple(('ins', i) for i in range(n))))]
    if t.startswith(A + 'Vector<'): fs.append(('_results', ('arr', (I(2), I(0)))))
    return ('rec', t, tuple(fs), None)


def run_drive(j):
    f, x, l, kind = j
    p, c = program(); pol = PPol(c); pol.k = 0
    ts = [bare(t) for _, _, t in f.params]
    log = []
    def cut(pl_, ev, fn, this, args):
        n = fn.n
        if kind == 'conv':
            if n == '_convert_impl':
                X = ev.rv(args[2])
                for a, it in ((args[0], (('of', X),)), (args[1], ())):
                    g = ev.rv(a); ev.write(a, ('glist', g[1], 1, it))
                ev.effects.append(('append', 'p', ('lsize', 'p', 1), ('of', X))); return ('term', ('void',))
            tv = ev.rv(this) if this is not None and not fn.has('ctor') else None
            if tv is not None and tv[0] == 'evcache':
                if n in ('get', 'operator[]', 'at'):
                    k = ptrnode(ev.rv(args[0]))
                    for e in reversed(ev.effects):
                        if e[0] == 'cins' and e[1] == k: return ('term', e[2])
                    return ('term', ('instr', k))
                if n == 'insert' and len(args) == 2: ev.effects.append(('cins', ptrnode(ev.rv(args[0])), ev.rv(args[1]))); return ('term', ('void',))
                if n == 'has_key': return ('term', ('haskey', ptrnode(ev.rv(args[0]))))
            return None
        if n == '_execute_impl' and kind == 'exec': ev.effects.append(('step', [ev.rv(a) for a in args])); return ('term', ('void',))
        if n == '_backpropagate' and kind == 'back' and any(bare(t) == PI for t in fn.p): ev.effects.append(('step', [ev.rv(a) for a in args])); return ('term', ('void',))
        if n == '_back_gradient_impl' and kind == 'grad': ev.effects.append(('step', [ev.rv(a) for a in args])); return ('term', ('void',))
        if n in ('_execute', 'execute') and kind in ('grad', 'eval', 'hull') and (n == '_execute' or fn.body is None or kind == 'grad' and False):
            vs = [ev.rv(a) for a in args]
            ev.effects.append(('execute', vs))
            if vs[0][0] != 'arr': raise Unsupported("value list")
            ev.write(args[0], arr('v', len(vs[0][1]))); return ('term', ('void',))
        if n == '_backpropagate' and kind == 'hull': ev.effects.append(('back', [ev.rv(a) for a in args])); return ('term', ('void',))
        if kind in ('ctor', 'vctor'):
            if n == '_convert' and len(args) == 4:
                X = root(ev.rv(args[2]))
                for a in args[:2]:
                    g = ev.rv(a)
                    if g == ('arr', ()): g = ('glist', 'l', 0, ())
                    ev.write(a, ('glist', g[1], ('after', X, g[2]), ()))
                ev.effects.append(('conv', X)); return ('term', ('instr', X))
            tv = ev.rv(this) if this is not None and not fn.has('ctor') else None
            if fn.has('ctor') and (fn.rec or '').startswith((A + 'Map<', 'std::map<')) and not args: return ('term', ('evcache', 'ind'))
            if tv is not None and tv[0] == 'evcache' and n in ('get', 'operator[]', 'at'): return ('term', ('instr', ptrnode(ev.rv(args[0]))))
        return None
    pol.xcut = cut
    FT_ = lambda t: targs(t)[0]
    args = []
    if kind == 'conv': args = list(glists()) + [opq(ts[2], 'F'), ('evcache', 'cache')]
    elif kind in ('exec', 'back'):
        ins = ('arr', tuple(('ins', i) for i in range(3)))
        for t in ts:
            if t.startswith(A + 'List<' + PI): args.append(ins)
            elif t.startswith(A + 'List<') and 'Number<' in FT_(t): args.append(arr('c', 3))
            elif t.startswith(A + 'List<'): args.append(arr('v', 3))
            else: args.append(arr('x', 2))
    elif kind == 'grad': args = [prec(ts[0]), arr('x', 2)]
    elif kind == 'eval': args = [prec(ts[0]), arr('x', 2)]
    elif kind == 'ctor': args = [I(2), opq(ts[1], 'F')]
    elif kind == 'vctor': args = [I(2), ('arr', tuple(opq(FT_(ts[1]), 'F%d' % i) for i in range(3)))]
    elif kind == 'pctor': args = [prec(ts[0])]
    elif kind == 'hull': args = [arr('x', 2), prec(ts[1]), ('num', 'codom', 'X') if not ts[1].startswith(A + 'Vector<') else arr('b', 2)]
    def judge(q):
        if q.kind == 'throw': raise Bad('%s is refused (%s)' % (l, show(q.value)[:60]))
        if kind == 'conv':
            if q.value[0] not in ('instr', 'lsize', 'int') or not any(f_[0] == 'haskey' for f_, d in q.facts): raise Unsupported('the lookup of known subexpressions: ' + show(q.value)[:60])
            X = root(args[2]); hit = any(f_[0] == 'haskey' and d for f_, d in q.facts)
            if hit:
                if q.value != ('instr', X): raise Bad('a cached subexpression gives the index %s' % show(q.value)[:60])
            else:
                ok = ('lsize', 'p', 1)
                if q.value != ok: raise Bad('the index returned (%s) is not the position of the last instruction' % show(q.value)[:60])
                for e in q.effects:
                    if e[0] == 'cins' and (e[1] != X or e[2] != ok): raise Bad('the index remembered for a subexpression (%s) is not that of its instruction' % show(e[2])[:60])
            return None, 1
        st = [e[1] for e in q.effects if e[0] == 'step']
        if kind in ('exec', 'back', 'grad'):
            want = [0, 1, 2] if kind == 'exec' else [2, 1, 0]
            got = [(a[0][1] if a[0][0] == 'int' else show(a[0]), [y for y in a if y[0] == 'ins']) for a in st]
            if not got or any(not isinstance(g[0], int) for g in got): raise Unsupported('the visit of the instructions is not in a recognised form')
            if [g[0] for g in got] != want: raise Bad('the instructions are visited in the order %s instead of %s' % ([g[0] for g in got], want))
            if any(g[1] != [('ins', g[0])] for g in got): raise Bad('an instruction is executed at the position of another one')
        if kind == 'grad':
            ex = [e for e in q.effects if e[0] == 'execute']
            if not ex: raise Unsupported('the computation of the values is not a call of the execution')
            if len(ex) != 1: raise Bad('the values are computed %d times before differentiating' % len(ex))
            a = st[0]
            ls = [y for y in a if y[0] == 'arr']
            if arr('v', 3) not in ls: raise Bad('the computed values are not the ones differentiated')
            seeds = [y for y in ls if y not in (arr('v', 3), arr('c', 3), arr('x', 2))]
            def z(v): return v in (I(0), ('flt', '0')) or v[0] == 'nop' and v[1] == 'nul'
            d = [y for y in seeds if len(y[1]) == 3]; g = [y for y in seeds if len(y[1]) == 2]
            if len(d) != 1 or len(g) != 1 or any(not z(v) and v[0] not in ('int', 'flt') for y in d + g for v in y[1]): raise Unsupported('the adjoints and the gradient are not in a recognised form')
            if len(d) != 1 or not all(z(v) for v in d[0][1][:2]) or d[0][1][2] not in (I(1), ('flt', '1')): raise Bad('the adjoints do not start from one at the last instruction and zero elsewhere: %s' % [show(y)[:80] for y in d])
            if len(g) != 1 or not all(z(v) for v in g[0][1]): raise Bad('the gradient does not start from zero')
        if kind == 'eval':
            ex = [e[1] for e in q.effects if e[0] == 'execute']
            if not ex: raise Unsupported('the evaluation is not a call of the execution')
            if len(ex) != 1 or ex[0][1] != field(args[0], '_instructions') or ex[0][2] != arr('c', 3) or ex[0][3] != arr('x', 2): raise Bad('the procedure is not executed once on its own instructions, constants and the argument')
            w = ('arr', (vnum('v', 2), vnum('v', 0))) if ts[0].startswith(A + 'Vector<') else vnum('v', 2)
            if q.value != w: raise Bad('the value returned is %s' % show(q.value)[:80])
        if kind == 'ctor':
            X = root(args[1])
            if field(q.value, '_argument_size') != I(2): raise Bad('the argument size is %s' % show(field(q.value, '_argument_size'))[:40])
            for fl in ('_instructions', '_constants'):
                g = field(q.value, fl)
                if g[0] != 'glist': raise Unsupported('%s: %s' % (fl, show(g)[:60]))
                if g[2] != ('after', X, 0) or g[3]: raise Bad('%s is not the result of converting the formula (%s)' % (fl, show(g)[:60]))
        if kind == 'vctor':
            Xs = [root(t) for t in args[1][1]]
            if field(q.value, '_argument_size') != I(2): raise Bad('the argument size is %s' % show(field(q.value, '_argument_size'))[:40])
            cs = [e[1] for e in q.effects if e[0] == 'conv']
            if not cs: raise Unsupported('the conversion is not a call of _convert')
            if any(X not in cs for X in Xs): raise Bad('not every component is converted')
            rs = field(q.value, '_results')
            if rs != ('arr', tuple(('instr', X) for X in Xs)): raise Bad('the result positions are %s' % show(rs)[:100])
        if kind == 'pctor':
            for fl in ('_argument_size', '_constants', '_instructions'):
                if field(q.value, fl) != field(args[0], fl): raise Bad('%s is %s, not that of the given procedure' % (fl, show(field(q.value, fl))[:60]))
            if field(q.value, '_results') != ('arr', (I(2),)): raise Bad('the result position is %s' % show(field(q.value, '_results'))[:60])
        if kind == 'hull':
            ex = [e for e in q.effects if e[0] == 'execute']; bk = [e for e in q.effects if e[0] == 'back']; rs = [e for e in q.effects if e[0] == 'restrict']
            if not ex or not bk: raise Unsupported('the execution or back-propagation is not a call')
            if len(ex) != 1 or len(bk) != 1: raise Bad('%d executions and %d back-propagations' % (len(ex), len(bk)))
            w = [(vnum('v', 2), ('num', 'codom', 'X'))] if not ts[1].startswith(A + 'Vector<') else [(vnum('v', 2), vnum('b', 0)), (vnum('v', 0), vnum('b', 1))]
            if sorted((e[2], e[3]) for e in rs) != sorted(w): raise Bad('the results are restricted as %s' % [(show(e[2]), show(e[3])) for e in rs])
        return None, 1
    return verdict(run(p, f, pol, args=args), judge)


RULES = {'convert': (jobs_convert, run_convert), 'execute': (jobs_execute, run_execute), 'back-gradient': (jobs_back_gradient, run_back_gradient), 'back-propagate': (jobs_backpropagate, run_backpropagate), 'drive': (jobs_drive, run_drive)}


def one(a):
    rule, k = a
    x = _P['jobs', rule][k]
    try: v, d = RULES[rule][1](x)
    except (Unsupported, Budget) as e: v, d = 'undecided', str(e)[:160]
    except Exception as e: v, d = 'undecided', 'analysis: %s %s' % (type(e).__name__, str(e)[:120])
    f = x[0]
    lab = x[2] + (' same operand' if len(x) == 7 and x[6] is True and rule in ('back-gradient', 'back-propagate') else '')
    return Ob(rule, '%s|%s|%s' % (f.n, short_ty(x[1]), lab), f.where, v, d)


def decide_rules(rules):
    work = []; cov = {}
    for r in rules:
        j = RULES[r][0](); _P['jobs', r] = j; cov[r] = len(j)
        work += [(r, k) for k in range(len(j))]
    return pmap(one, work), cov
