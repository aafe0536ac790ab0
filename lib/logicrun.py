"""Kleene tables of the logical classes, by constant propagation over the finite domain of logical values.

Every connective, conversion and query of every logical class is interpreted for every combination of the values its
operands can hold (effective operands: every value their check can return); the definite part of the result must be the
Kleene value, restricted to what the result class can express."""
import re, itertools
import prog, tus
from prog import VERIF
from engine import *
from fmodel import bare
from report import Ob

D = 'Ariadne::Detail::'
A = 'Ariadne::'
FIN = {A + 'Boolean': (-2, 2), A + 'ValidatedKleenean': (-2, -1, 0, 1, 2), A + 'ValidatedSierpinskian': (-1, 0, 1, 2), A + 'ValidatedLowerKleenean': (-1, 0, 1, 2),
       A + 'ValidatedNegatedSierpinskian': (-2, -1, 0, 1), A + 'ValidatedUpperKleenean': (-2, -1, 0, 1), A + 'ApproximateKleenean': (-1, 0, 1), D + 'LogicalValue': (-2, -1, 0, 1, 2), 'bool': (-2, 2), A + 'Indeterminate': (0,)}
EFF = {A + 'Kleenean': (-2, -1, 0, 1, 2), A + 'Sierpinskian': (-1, 0, 1, 2), A + 'LowerKleenean': (-2, -1, 0, 1, 2), A + 'NegatedSierpinskian': (-2, -1, 0, 1), A + 'UpperKleenean': (-2, -1, 0, 1, 2), A + 'NaiveKleenean': (-2, -1, 0, 1, 2), D + 'LogicalHandle': (-2, -1, 0, 1, 2)}
CAN = {A + 'Sierpinskian': 'T', A + 'ValidatedSierpinskian': 'T', A + 'LowerKleenean': 'T', A + 'ValidatedLowerKleenean': 'T', A + 'NegatedSierpinskian': 'F', A + 'ValidatedNegatedSierpinskian': 'F', A + 'UpperKleenean': 'F', A + 'ValidatedUpperKleenean': 'F', A + 'ApproximateKleenean': '', A + 'NaiveKleenean': ''}
NM = {-2: 'FALSE', -1: 'UNLIKELY', 0: 'INDETERMINATE', 1: 'LIKELY', 2: 'TRUE'}
def EV(v): return ('enum', D + 'LogicalValue::' + NM[v], v)


def kl(v): return 'T' if v == 2 else 'F' if v == -2 else 'I'
def knot(a): return {'T': 'F', 'F': 'T', 'I': 'I'}[a]
def kand(a, b): return 'F' if 'F' in (a, b) else 'T' if a == b == 'T' else 'I'
def kor(a, b): return knot(kand(knot(a), knot(b)))
def keq(a, b): return 'I' if 'I' in (a, b) else 'T' if a == b else 'F'
OPS = {'operator!': (1, knot), 'negation': (1, knot), 'operator&&': (2, kand), 'conjunction': (2, kand), 'operator||': (2, kor), 'disjunction': (2, kor), 'operator==': (2, keq), 'equality': (2, keq),
       'operator!=': (2, lambda a, b: knot(keq(a, b))), 'operator^': (2, lambda a, b: knot(keq(a, b))), 'exclusive': (2, lambda a, b: knot(keq(a, b)))}
QUERY = {'definitely': lambda v: v == 2, 'possibly': lambda v: v != -2, 'is_determinate': lambda v: v in (-2, 2), 'is_indeterminate': lambda v: v not in (-2, 2), 'probably': lambda v: v > 0, 'decide': lambda v: v > 0}


class LPol(Policy):
    max_paths = 64
    def __init__(s, prog, env): s.prog = prog; s.env = env; s.depth = 0
    def call(s, ev, fn, this, args, node):
        if fn.n == 'make_handle' or (fn.n == 'make_shared' and 'Logical' in fn.sig()):
            m = re.search(r'make_(?:handle|shared)<(.*?)>\(', fn.sig().replace('>>(', '> >(')) or re.search(r'<(.*)>', fn.sig())
            return ('term', ('app', 'mk:' + fn.sig().split('(')[0]) + tuple(ev.rv(a) for a in args))
        if fn.n == 'get_default' or (fn.rec == A + 'Effort'): return ('term', ('sym', 'effort', 'Ariadne::Effort')) if not fn.has('ctor') else None
        if fn.rec == D + 'LogicalHandle' and fn.n == 'check': return ('term', EV(s.hval(ev.rv(this))))
        if fn.rec == D + 'LogicalHandle' and fn.has('ctor') and len(args) == 1: return ('term', ev.rv(args[0]))
        if fn.has('ctor') and 'Handle<' in (fn.rec or '') and len(args) == 1: return ('term', ev.rv(args[0]))
        if fn.tq.startswith('std::') and fn.n in ('min', 'max') and len(args) == 2:
            a, b = ev.rv(args[0]), ev.rv(args[1])
            if a[0] == b[0] == 'enum': return ('term', (min if fn.n == 'min' else max)(a, b, key=lambda t: t[2]))
        return None
    def hval(s, h):
        """value a handle's check returns"""
        h = strip(h)
        if h[0] == 'sym': return s.env[h[1]]
        if h[0] == 'app' and h[1].startswith('mk:'):
            sig = h[1]
            if 'LogicalConstant' in sig or 'LogicalWrapper<Ariadne::Detail::LogicalValue' in sig:
                v = h[2]
                if v[0] == 'enum': return v[2]
                raise Unsupported("constant " + show(v)[:60])
            m = re.search(r'LogicalExpression<Ariadne::(\w+), ', sig)
            if not m: raise Unsupported("handle made by " + sig[:80])
            op = m.group(1); n = sig.count('Ariadne::Detail::LogicalHandle')
            n = len(h) - 3
            sym = 'Ariadne::Symbolic<Ariadne::%s%s>' % (op, ', Ariadne::Detail::LogicalHandle' * n)
            chk = [f for f in s.prog.bodies() if f.n == '_check' and f.rec == D + 'LogicalWrapper<%s>' % sym]
            if not chk: raise Unsupported("no _check for " + sym)
            names = ('_arg',) if n == 1 else ('_arg1', '_arg2')
            this = ('rec', chk[0].rec, (('_op', ('rec', A + op, (), None)),) + tuple(zip(names, h[3:])), None)
            ps = run(s.prog, chk[0], s, this=this, args=[('sym', 'effort', 'Ariadne::Effort')])
            vs = {q.value[2] for q in ps if q.kind == 'ret' and q.value[0] == 'enum'}
            if len(vs) != 1: raise Unsupported("check of " + sym)
            return vs.pop()
        raise Unsupported("handle " + show(h)[:60])


def strip(h):
    while h[0] == 'rec' and len(h[2]) == 1: h = h[2][0][1]
    while h[0] == 'fld' and h[2] in ('_v', '_ptr'): h = h[1]
    return h


def operand(ty, v, nm):
    t = bare(ty)
    if t == 'bool': return B(v == 2)
    if t == D + 'LogicalValue': return EV(v)
    if t == A + 'Indeterminate': return ('rec', t, (), None)
    if t in FIN: return ('rec', t, (('_v', EV(v)),), None)
    if t == D + 'LogicalHandle': return ('sym', nm, t)
    if t in EFF: return ('rec', t, (('_v', ('sym', nm, D + 'LogicalHandle')),), None)
    return ('sym', nm, ty)


def value_of(pol, t, ret):
    """definite part of a returned logical value"""
    while t[0] == 'rec' and not t[2] and t[3] is not None: t = t[3]
    if t[0] == 'bool': return 2 if t[1] else -2
    if t[0] == 'rec' and len(t[2]) == 1: t = t[2][0][1]
    if t[0] == 'enum': return t[2]
    return pol.hval(t)


def domain(ty):
    t = bare(ty)
    return FIN.get(t) or EFF.get(t)


def judge(p, f):
    ks = [bare(ty) for _, _, ty in f.params]
    logi = [i for i, k in enumerate(ks) if k in FIN or k in EFF]
    conv = f.has('ctor') or f.n.startswith('operator ') or f.n == 'check'
    if f.n in OPS: kind = 'op'
    elif f.n in QUERY: kind = 'query'
    else: kind = 'conv'
    meth = f.has('meth') and not f.has('static') and not f.has('ctor')
    tys = ([f.rec] if meth else []) + [f.params[i][2] for i in logi]
    ret = bare(f.ret) if not f.has('ctor') else f.rec
    n = 0
    sound_only = len({bare(t) for t in tys}) > 1 and kind == 'op'   # mixed overloads may lose information but never be wrong
    bad = None
    for vs in itertools.product(*[domain(t) for t in tys]):
        env = {'a%d' % i: v for i, v in enumerate(vs)}
        args = []; it = iter(list(enumerate(vs))[1:] if meth else list(enumerate(vs)))
        for i, (vid, nm, ty) in enumerate(f.params):
            if i in logi: j, v = next(it); args.append(operand(ty, v, 'a%d' % j))
            else: args.append(('sym', 'effort', ty))
        pol = LPol(p, env)
        ps = run(p, f, pol, this=operand(f.rec, vs[0], 'a0') if meth else None, args=args)
        for q in ps:
            if q.kind != 'ret': bad = bad or ('undecided', 'a path does not return'); continue
            r = value_of(pol, q.value, ret)
            n += 1
            an = ', '.join(NM[v] for v in vs)
            if kind == 'query':
                v = vs[0]
                if CAN.get(bare(tys[0])) is not None and bare(tys[0]) in EFF:   # queries of an effective value look at its checked, clamped value
                    v = clamp(v, bare(tys[0]))
                if (r == 2) != QUERY[f.n](v) or r not in (2, -2): return 'violated', '%s(%s) answers %s' % (f.n, an, NM[r]), n
                continue
            want = OPS[f.n][1](*[kl(v) for v in vs]) if kind == 'op' else kl(vs[0])
            got = kl(r)
            able = CAN.get(ret, 'TF') if ret not in EFF else 'TF'
            src = 'TF'
            if got != 'I' and got != want: return 'violated', '%s(%s) gives %s, which is not implied by the operands' % (f.n, an, NM[r]), n
            if got != 'I' and got not in able: return 'violated', '%s(%s) gives %s, which this class must not claim' % (f.n, an, NM[r]), n
            if got == 'I' and want != 'I' and want in able and not sound_only: return 'violated', '%s(%s) gives %s instead of the definite %s' % (f.n, an, NM[r], 'TRUE' if want == 'T' else 'FALSE'), n
            # graded values: conjunction/disjunction/negation respect the order of likelihood
            if kind == 'op' and not sound_only and f.n in ('operator&&', 'operator||', 'operator!', 'conjunction', 'disjunction', 'negation'):
                g = {'operator&&': min, 'conjunction': min, 'operator||': max, 'disjunction': max}.get(f.n)
                w = -vs[0] if g is None else g(vs)
                if (r > 0) != (w > 0): return 'violated', '%s(%s) gives %s: wrong side of indeterminate' % (f.n, an, NM[r]), n
            if kind == 'conv' and (r > 0) != (vs[0] > 0): return 'violated', 'converting %s gives %s' % (an, NM[r]), n
    if bad: return bad[0], bad[1], n
    return 'proved', '%d operand combinations' % n, n


def clamp(v, t):
    c = CAN.get(t, 'TF')
    if 'T' not in c: v = min(v, 1)
    if 'F' not in c: v = max(v, -1)
    return v


def contract(f):
    if not f.file.endswith(('/numeric/logical.hpp', '/numeric/logical.cpp')) or f.pat or f.params is None: return False
    ks = [bare(ty) for _, _, ty in f.params]
    L = lambda k: k in FIN or k in EFF
    if f.n in OPS and not f.has('meth'):
        n = OPS[f.n][0]
        return len(ks) == n and all(L(k) for k in ks) and (L(bare(f.ret)))
    if f.n in QUERY and not f.has('meth'): return len(ks) in (1, 2) and L(ks[0]) and (len(ks) == 1 or ks[1] == A + 'Effort')
    if f.has('ctor') and (f.rec in FIN or f.rec in EFF) and ks and L(ks[0]) and (len(ks) == 1 or (len(ks) == 2 and ks[1] == A + 'Effort')):
        return not f.has('copy') and not f.has('move') and ks[0] != f.rec
    if f.n == 'check' and ((f.has('meth') and f.rec in EFF and f.rec != D + 'LogicalHandle') or (not f.has('meth') and ks and ks[0] in EFF)): return True
    if f.n in ('operator bool',) and f.rec == A + 'Boolean': return True
    return False


def seq_check(p):
    """infinitary connectives: the only definite answer is given on a definite term, and it is the right one"""
    obs = []
    from prog import walk
    for f in p.bodies():
        m = re.match(r'Ariadne::Detail::LogicalExpression<Ariadne::(OrOp|AndOp), Ariadne::Sequence<', f.rec or '')
        if not m or f.n != '_check': continue
        disj = m.group(1) == 'OrOp'
        rets = [x for x in walk(f.body) if x and x[0] == 'ret']
        bad = None; n = 0
        def visit(st, guarded):
            nonlocal bad, n
            if st is None: return
            if st[0] == '{}':
                for x in st[1]: visit(x, guarded)
            elif st[0] in ('for', 'while', 'do', 'rfor'):
                visit(st[4] if st[0] == 'for' else st[2] if st[0] == 'while' else st[1] if st[0] == 'do' else st[3], guarded)
            elif st[0] == 'if':
                names = [x[1].n for x in walk(st[2]) if x and x[0] in ('call', 'mcall') and hasattr(x[1], 'n')]
                neg = sum(1 for z in names if z == 'operator!')
                g = 'T' if 'definitely' in names and neg == 0 else 'F' if 'definitely' in names and neg == 1 else 'P' if 'possibly' in names else '?'
                visit(st[3], g); visit(st[4], 'else' if g != '?' else '?')
            elif st[0] == 'ret':
                n += 1
                vals = [x for x in walk(st[1]) if x and x[0] == 'enum']
                v = vals[0][2] if len(vals) == 1 else None
                if v is None: bad = bad or ('undecided', 'return value not constant'); return
                if guarded == '?' : bad = bad or ('undecided', 'guard not understood'); return
                if v == 2 and not (disj and guarded == 'T'): bad = ('violated', 'answers TRUE without a term that is definitely true')
                if v == -2 and not (not disj and guarded == 'F'): bad = ('violated', 'answers FALSE without a term that is definitely false')
        visit(f.body, None)
        obs.append(Ob('sequence', f.sig(), f.where, bad[0] if bad else 'proved', bad[1] if bad else '%d return statements' % n))
    return obs


def choose_check(p):
    """nondeterministic choice commits only on a definitely true alternative, and to that alternative"""
    from prog import walk
    obs = []
    for f in p.bodies():
        if f.n == '_choose' and 'NondeterministicBoolean' in (f.rec or '') and len(f.params) == 2:
            want = {f.params[0][0]: True, f.params[1][0]: False}
            def val(st):
                b = [x[1] for x in walk(st) if x and x[0] == 'bool']
                return b[0] if len(b) == 1 else None
            ok = lambda r, v: r is not None and want.get(v) == r
        elif f.n == 'nondeterministic_choose_index' and len(f.params) == 1: ok = None
        else: continue
        res = [None]; n = [0]
        def visit(st, g):
            if st is None: return
            if st[0] == '{}':
                for x in st[1]: visit(x, g)
            elif st[0] in ('for', 'while', 'do', 'rfor'): visit(st[4] if st[0] == 'for' else st[2] if st[0] == 'while' else st[1] if st[0] == 'do' else st[3], g)
            elif st[0] == 'if':
                names = [x[1].n for x in walk(st[2]) if x and x[0] in ('call', 'mcall') and hasattr(x[1], 'n')]
                if 'definitely' in names and 'operator!' not in names:
                    vs = [x[1] for x in walk(st[2]) if x and x[0] == 'var']
                    visit(st[3], vs); visit(st[4], g)
                elif 'possibly' in names or 'probably' in names or 'decide' in names: visit(st[3], []); visit(st[4], g)
                else: visit(st[3], '?'); visit(st[4], '?')
            elif st[0] == 'ret':
                n[0] += 1
                if g == '?': res[0] = res[0] or ('undecided', 'guard not understood'); return
                if not g: res[0] = ('violated', 'commits to an alternative that is not definitely true'); return
                if ok is not None:
                    r = val(st[1])
                    if r is None: res[0] = res[0] or ('undecided', 'returned alternative not understood'); return
                    if not any(ok(r, v) for v in g if v in want): res[0] = ('violated', 'commits to the alternative whose condition was not checked')
                else:
                    rv = [x[1] for x in walk(st[1]) if x and x[0] == 'var']
                    if not any(v in g for v in rv): res[0] = res[0] or ('undecided', 'returned index not understood')
        visit(f.body, None)
        obs.append(Ob('choice', f.sig(), f.where, res[0][0] if res[0] else 'proved', res[0][1] if res[0] else '%d return statements' % n[0]))
    return obs


def decide(tier):
    p = prog.load(tus.tus('numeric/logical') + [VERIF + '/tu/use_logic.cpp'])
    obs = []
    for f in p.bodies():
        if not contract(f): continue
        rule = 'query' if f.n in QUERY else 'connective' if f.n in OPS else 'conversion'
        try: v, d, n = judge(p, f)
        except (Unsupported, Budget, KeyError) as e: v, d = 'undecided', 'not summarised: %s' % str(e)[:150]
        obs.append(Ob(rule, f.sig(), f.where, v, d))
    obs += seq_check(p) + choose_check(p)
    return obs, {"functions_analysed": len(obs)}
