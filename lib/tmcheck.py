"""Obligations of the Taylor model code: the result encloses the exact operation on the enclosed functions."""
import re
import prog, engine
from prog import AnalysisBroken
from report import Ob, pmap
from tmrun import *
from tmnum import refute

TU = 'function/taylor_model.cpp'
TMRE = re.compile(r'^Ariadne::TaylorModel<Ariadne::ValidatedTag, Ariadne::Float<Ariadne::(Double|Multiple)Precision>>$')
HELP = {'add_err': ('add', 2), 'sub_err': ('sub', 2), 'mul_err': ('mul', 2), 'div_err': ('div', 2), 'fma_err': ('fma', 3)}
P = None


def load():
    p = prog.Program(); t = prog.SRC + '/' + TU
    p.load(prog.extract(t), t)
    return p


def valof(p, pol, nm, ty, eps):
    b = bare(ty)
    if TMRE.match(b):
        rec = p.recs.get(b); fs = []
        if rec is None: raise Unsupported('class ' + b)
        for f, t, m in rec['fields']:
            if 'Expansion<' in t: fs.append((f, ('xp', freeze(patom(('P', nm))))))
            elif nkind(t) in ('Error', 'Upper'):
                l = ('L', nm + '.e'); pol.nonneg.add(l); fs.append((f, l)); eps[nm] = l
            else: fs.append((f, ('sym', nm + '.' + f, '')))
        return ('rec', b, tuple(fs), None)
    k = nkind(ty)
    if k == 'B': return ('B', nm)
    if k in ('Error', 'Upper'): pol.nonneg.add(('L', nm)); return ('L', nm)
    if k == 'F': return ('L', nm)
    if k == 'int': pol.nonneg.add(('L', nm)); return ('L', nm)
    if re.match(r'^Ariadne::(\(anonymous namespace\)::)?ValidatedApproximation<', b):
        rec = p.recs.get(b); fs = []
        for f, t, m in rec['fields']: fs.append((f, ('B', nm) if nkind(t) == 'B' else ('mid', ('B', nm))))
        return ('rec', b, tuple(fs), None)
    if re.match(r'^Ariadne::(\w*)Expansion<', b): return ('xp', freeze(patom(('P', nm))))
    return ('sym', nm, ty)


def model(v):
    """(V, error term) of a model value"""
    V = E = None
    if v is None or v[0] != 'rec': return None
    for f, x in v[2]:
        if x is not None and x[0] == 'xp': V = thaw(x[1])
        elif x is not None and numeric(x): E = x
    return (V, E) if V is not None and E is not None else None


def scalarval(p): 
    """replace the computed centre of a scalar by the scalar and its distance"""
    for a in [a for a in atoms(p) if a[0] == 'T' and a[1][0] == 'val']:
        nm = a[1][1][1]
        p = psubst(p, a, padd(patom(('L', nm + '*')), patom(('eps', 'err:' + nm))))
    return p


def encl(pol, q, V, E, spec, facts):
    """does V +/- E enclose spec (a polynomial over V-atoms, eps atoms and scalars)"""
    try: inc = pol.low(E)
    except pol.Signed: return ('und', 'sign of the error bound ' + show(E)[:100])
    D = scalarval(padd(V, spec, -1))
    sub = list(q.ev.subst)
    r = pol.bound(D, inc, [f for f in facts], sub)
    return r


def work(item):
    kind, sig = item
    fn = next(f for f in P.fns.values() if f.sig() == sig and f.body is not None)
    obs = []
    pol = Loops()
    pol.family = 'DoublePrecision' if 'DoublePrecision' in sig else 'MultiplePrecision'
    if 'Bounds<' in sig and '_sweep' in sig: pol.rngkind = 'B'
    eps = {}; args = []; names = []
    key = sig.replace('Ariadne::', '').replace('(anonymous namespace)::', '')
    def ob(v, d='', sub=''): obs.append(Ob(kind, key + sub, fn.where, v, d))
    try:
        for k, (vid, nm, ty) in enumerate(fn.params):
            args.append(valof(P, pol, 'xyzw'[k] if k < 4 else 'p%d' % k, ty, eps)); names.append('xyzw'[k] if k < 4 else 'p%d' % k)
        this = valof(P, pol, 't', fn.rec, eps) if fn.rec and fn.has('meth') and not fn.has('static') else None
        paths = engine.run(P, fn, pol, this=this, args=args)
    except (Unsupported, engine.Budget, RecursionError) as e:
        ob('undecided', str(e)[:200]); return obs
    res = []
    for q in paths:
        if q.kind != 'ret': continue
        try: r = judge(kind, fn, pol, q, args, names, eps)
        except Unsupported as e: r = ('und', str(e))
        res.append(r)
    ns = sorted(set((w, st, why) for w, what, st, why in pol.notes))
    if any(st == 'und' for w, st, why in ns): res = [('und', r[1]) if r[0] == 'viol' else r for r in res]
    bad = [r for r in res if r[0] == 'viol'] + [(st, '%s: %s' % (w.split('/')[-1], why)) for w, st, why in ns if st == 'viol']
    und = [r for r in res if r[0] == 'und'] + [(st, why) for w, st, why in ns if st == 'und']
    if not res: ob('undecided', 'no returning path')
    elif bad: ob('violated', bad[0][1])
    elif und: ob('undecided', und[0][1])
    else: ob('proved', '%d paths, %d loop obligations' % (len(res), len(ns)))
    if pol.knownhit and kind == 'coefficient': obs.append(Ob(kind, 'coefficient-times-bounds|half-width', fn.where, 'violated', 'the error of scaling by a bounded number is half the width of the product and leaves out the rounding of its centre'))
    return obs


def judge(kind, fn, pol, q, args, names, eps):
    facts = list(q.facts)
    if kind == 'coefficient':
        op, n = HELP[fn.n]
        e0 = args[-1]; e1 = q.outs[-1]
        r = q.value
        def ex(v): return pol.pv(('B', dict_first(v)[1]) if v[0] == 'rec' else v)
        a = [ex(v) for v in args[:-1]]
        if op == 'add': spec = padd(a[0], a[1])
        elif op == 'sub': spec = padd(a[0], a[1], -1)
        elif op == 'mul': spec = pmul(a[0], a[1])
        elif op == 'div':
            d = args[1]; spec = pmul(a[0], patom(('inv', d)))
        else: spec = padd(pmul(a[0], a[1]), a[2])
        if r is None or not numeric(r): return ('und', 'result ' + (show(r)[:80] if r else 'none'))
        try: inc = pol.low(e1)
        except pol.Signed: return ('und', 'sign of ' + show(e1)[:100])
        inc = padd(inc, patom(e0), -1)
        if inc.get((e0,), 0) < 0: return ('viol', 'the error accumulated before is lost')
        return pol.bound(padd(pol.pv(r), spec, -1), inc, facts, list(q.ev.subst))
    if kind == 'sweep':
        x1, e1 = q.outs[0], q.outs[1]
        if x1[0] != 'xp': return ('und', 'expansion lost')
        return encl(pol, q, thaw(x1[1]), e1, padd(patom(('P', names[0])), patom(('eps', names[1]))), facts)
    if kind in ('norm',):
        try: inc = pol.low(q.value)
        except pol.Signed: return ('und', 'sign')
        return pol.bound(padd(patom(('P', 't')), patom(('eps', 't.e'))), inc, facts, list(q.ev.subst))
    def V(nm): return padd(patom(('P', nm)), patom(('eps', nm + '.e')))
    def A(k):
        v = args[k]
        if v[0] == 'rec': return V(names[k])
        if v[0] == 'B': return patom(('L', v[1] + '*'))
        return pol.pv(v)
    if kind == 'algebra':
        op = bare(fn.p[0]).split('::')[-1]
        out = q.value
        if op == 'Nul': spec = {}
        elif op == 'Pos': spec = A(1)
        elif op == 'Neg': spec = neg_(A(1))
        elif op == 'Add': spec = padd(A(1), A(2))
        elif op == 'Sub': spec = padd(A(1), A(2), -1)
        elif op == 'Mul': spec = pmul(A(1), A(2))
        else: return ('und', 'operation ' + op)
    elif kind == 'same':
        out = q.this; spec = V('t')
    elif kind == 'assign':
        out = q.this; spec = A(0)
    elif kind == 'constant':
        out = q.value; spec = A(1)
    m = model(out)
    if m is None: return ('und', 'no model returned')
    return encl(pol, q, m[0], m[1], spec, facts)


def dict_first(v):
    return next(x for f, x in v[2] if x[0] == 'B')


def roots(p):
    r = []
    for f in p.fns.values():
        if f.body is None: continue
        s = f.sig()
        if 'ApproximateTag' in s or 'UnknownError' in s or 'UpperBound' in s: continue
        if not re.search(r'(Double|Multiple)Precision', s): continue
        if f.n in HELP and not f.rec and len(f.p) == HELP[f.n][1] + 1:
            ks = [nkind(x) for x in f.p]
            if ks[-1] == 'Error' and f.p[-1].strip().endswith('&'):
                if all(k in ('F', 'B', 'int') or 'ValidatedApproximation' in x for k, x in zip(ks[:-1], f.p[:-1])): r.append(('coefficient', s))
        elif f.n == '_sweep' and base(f.rec).endswith('SweeperBase') and len(f.p) == 2: r.append(('sweep', s))
        elif f.n == 'apply' and f.rec and re.match(r'^Ariadne::AlgebraOperations<Ariadne::TaylorModel<Ariadne::ValidatedTag, Ariadne::Float<', f.rec):
            if bare(f.p[0]).split('::')[-1] in ('Nul', 'Pos', 'Neg', 'Add', 'Sub', 'Mul'): r.append(('algebra', s))
        elif f.rec and TMRE.match(f.rec):
            if f.n in ('sweep', 'simplify', 'unique', 'cleanup', 'sort'): r.append(('same', s))
            elif f.n == 'norm': r.append(('norm', s))
            elif f.n == 'operator=' and len(f.p) == 1 and nkind(f.p[0]) == 'B': r.append(('assign', s))
            elif f.n == 'constant' and nkind(f.p[1]) == 'B': r.append(('constant', s))
    return sorted(set(r))


def decide(tier):
    global P
    P = load()
    rs = roots(P)
    kinds = {k for k, s in rs}
    for k in ('coefficient', 'sweep', 'algebra', 'norm'):
        if k not in kinds: raise AnalysisBroken('no %s function found' % k)
    obs = [o for l in pmap(work, rs) for o in (l if isinstance(l, list) else [l])]
    return obs, {'functions_analysed': len(rs), 'translation_unit': 'source/' + TU}
