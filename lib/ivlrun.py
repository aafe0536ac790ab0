"""Arithmetic of over-approximating intervals: the enclosure contract of the bounds classes (numcheck, nprove) applied to
Interval<UpperBound<F>>, whose ends are a lower and an upper bound."""
import re
import prog
from prog import VERIF
import numcheck, fmodel
from numcheck import *
from report import Ob, pmap

IV = re.compile(r'^Ariadne::Interval<(Ariadne::UpperBound<(Ariadne::Float<.*>)>)>$')


def isivl(t): return IV.match(bare(t))


def ivl_rec(ty, sym):
    m = isivl(ty); F = m.group(2)
    return ('rec', bare(ty), (('_l', ('rec', A + 'LowerBound<%s>' % F, (('_l', ('fld', sym, '_l')),), None)), ('_u', ('rec', A + 'UpperBound<%s>' % F, (('_u', ('fld', sym, '_u')),), None))), None)


def unwrap(v, F):
    """an interval value as bounds"""
    if v[0] == 'rec' and v[1].startswith(A + 'Interval<'):
        l, u = field(v, '_l'), field(v, '_u')
        return ('rec', A + 'Bounds<%s>' % F, (('_l', one(l, '_l')), ('_u', one(u, '_u'))), None)
    return v


def one(v, f):
    if v[0] == 'rec' and v[2]: return v[2][0][1]
    if v[0] == 'rec' and v[3] is not None: return one(v[3], f)
    return v if v[0] in ('fld', 'app') else ('fld', v, f)


class View:
    """the function with interval parameters seen as bounds"""
    def __init__(s, f):
        s.f = f; s.flip = {}
        m = next((isivl(t) for t in [f.rec or '', f.ret or ''] + [t for _, _, t in f.params] if isivl(t)), None)
        s.F = m.group(2) if m else None
    def sub(s, t): return re.sub(r'Ariadne::Interval<Ariadne::UpperBound<(Ariadne::Float<[A-Za-z:]*>)>>', r'Ariadne::Bounds<\1>', t) if t else t
    def __getattr__(s, k):
        v = getattr(s.__dict__['f'], k)
        if k in ('rec', 'ret'): return s.sub(v)
        if k == 'params': return [(a, b, s.sub(t)) for a, b, t in v]
        if k == 'p': return [s.sub(t) for t in v]
        return v


def contracts(p):
    out = []
    for f in p.bodies():
        if f.params is None or f.has('ctor') or f.q.startswith('std::'): continue
        v = View(f)
        if v.F is None: continue
        c = contract(v)
        if c and c.op not in ('same', 'assign'): out.append((f, v, c))
    return out


def summ(p, f, v, c):
    inv = []
    for sym, k, ty in c.args: inv += invariants(sym, ty, k)
    ts = ([f.rec] if f.has('meth') and not f.has('static') else []) + [t for _, _, t in f.params]
    args = [ivl_rec(t, a[0]) if isivl(t) else a[0] for a, t in zip(c.args, ts)]
    this = None
    if f.has('meth') and not f.has('static'): this = args[0]; args = args[1:]
    ps = run(p, f, numcheck.NumPolicy2(inv), this=this, args=args)
    for q in ps:
        if q.kind == 'ret':
            if c.inplace: q.outv = unwrap(q.this if this is not None else q.outs[0], v.F)
            q.value = unwrap(q.value, v.F) if q.value is not None else None
    return ps


def decide(n):
    def go(tier):
        p = prog.load([VERIF + '/tu/use_interval.cpp'])
        cs = contracts(p)
        def one_(x):
            f, v, c = x
            key = f.sig(); rule = 'interval:' + c.op
            try: ps = summ(p, f, v, c)
            except (Unsupported, Budget) as e: return Ob(rule, key, f.where, 'undecided', 'not summarised: %s' % str(e)[:150])
            import nprove
            try: pr, why = nprove.prove(c, ps)
            except Exception as e: pr, why = False, '%s %s' % (type(e).__name__, str(e)[:80])
            if pr: return Ob(rule, key, f.where, 'proved', '%d paths; %s' % (len(ps), why))
            try: ce, k = search(c, ps, n if tier == 'quick' else n * 8)
            except Exception as e: return Ob(rule, key, f.where, 'undecided', '%s %s' % (type(e).__name__, str(e)[:80]))
            if ce: return Ob(rule, key, f.where, 'violated', ce)
            return Ob(rule, key, f.where, 'undecided', 'no rule closes it (%s); not refuted on %d representatives' % (why, getattr(c, 'judged', 0)))
        return pmap(one_, cs), {"functions_analysed": len(cs), "functions_resolved": len(p.fns)}
    return go
