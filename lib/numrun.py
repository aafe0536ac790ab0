"""Shared runner of the numeric-class contracts."""
import re
import prog
from prog import VERIF
from numcheck import *
from report import Ob, pmap

ASSUME = ["arguments are valid: finite, lower<=upper, radius>=0, positive classes hold nonnegative values; operations are judged where they are mathematically defined",
          "the directed-rounding primitives of FloatDP/FloatMP round in the stated direction (decided separately by the primitive-rounding property)",
          "halving a double-precision number is exact (it is not if the half is not a normal number: reported separately as underflow|halving)",
         "all operands of one operation carry the same precision; built-in integers convert exactly"]
TRUST = ["contract table lib/numcheck.py (operation meant by each function name and class)", "rule set lib/nprove.py"]

def loaded(): return prog.load([VERIF + '/tu/use_floats.cpp'])

def group(c):
    k = strip_pos(c.res)[0]
    if c.op in ('eq', 'ne', 'lt', 'gt', 'le', 'ge', 'refinement') or c.op in RELS: return 'cmp'
    if c.op in ('id', 'interval', 'ball', 'assign'): return 'conv'
    return {'Bounds': 'bounds', 'Ball': 'ball', 'Lower': 'oneside', 'Upper': 'oneside', 'Error': 'oneside'}[k]

def lemmas(want):
    """the primitive-rounding obligations the class-level derivation rests on"""
    import primrun
    obs, p = primrun.obligations()
    return [o for o in obs if want(o.rule.split(':')[1])]

CMPS = ('cmp', 'eq', 'ne', 'lt', 'gt', 'le', 'ge')
LEMMA = {'bounds': lambda o: o not in CMPS, 'ball': lambda o: o not in CMPS, 'oneside': lambda o: o not in CMPS, 'conv': lambda o: o == 'id', 'cmp': lambda o: o in CMPS}

HALF = re.compile(r"'DP\.hlf', (?!\('rnd')")

def halving(kind, hits, n):
    """ends and radii obtained by halving a double with no rounding direction: inexact, hence not outward, when the half underflows"""
    d = '%d of %d operations halve an end or a radius with no rounding direction' % (len(hits), n)
    return Ob('underflow', 'underflow|halving', min(hits, key=lambda h: ('float_ball' not in h, h)) if hits else 'source/numeric', 'violated' if hits else 'proved', d)

def decide(groups, n):
    def go(tier):
        p = loaded()
        cs = [c for c in (contract(f) for f in p.bodies()) if c and group(c) in groups]
        kind = 'ball' if 'ball' in groups else 'bounds' if 'bounds' in groups else None
        def one(c):
            key = c.fn.sig(); rule = '%s:%s' % (group(c), c.op)
            try: ps = summarise(p, c)
            except (Unsupported, Budget) as e: return Ob(rule, key, c.fn.where, 'undecided', 'not summarised: %s' % str(e)[:150])
            import nprove
            pr, why = nprove.prove(c, ps)
            if kind and (kind == 'ball' or c.op == 'hlf') and HALF.search(repr([getattr(q, 'value', None) for q in ps])): hits = 'H'
            else: hits = ''
            def Ob_(*a): o = Ob(*a); o.rule += hits; return o
            if pr: return Ob_(rule, key, c.fn.where, 'proved', '%d paths; %s' % (len(ps), why))
            ce, k = search(c, ps, n if tier == 'quick' else n * 8)
            if ce: return Ob_(rule, key, c.fn.where, 'violated', ce)
            return Ob_(rule, key, c.fn.where, 'undecided', 'no rule closes it (%s); not refuted on %d representatives' % (why, getattr(c, 'judged', 0)))
        obs = pmap(one, cs)
        hits = []
        for o in obs:
            if o.rule.endswith('H'): o.rule = o.rule[:-1]; hits.append(o.where)
        obs += lemmas(LEMMA[sorted(groups)[0]])
        if kind: obs.append(halving(kind, hits, len(cs)))
        return obs, {"functions_analysed": len(cs), "translation_units": [u.replace(VERIF, '/verif') for u in p.units], "functions_resolved": len(p.fns), "functions_with_bodies": len(p.bodies())}
    return go
