"""Intervals and boxes as sets: every predicate, set operation and query is summarised over opaque ends (in each
dimension of a small box) and the summary is compared with the set-theoretic meaning on the weak orderings of the ends.
The summaries of the predicates contain comparisons of the ends only, so that the orderings decide them completely."""
import re, math, random, itertools
from fractions import Fraction as Q
import prog, tus
from engine import *
from fmodel import split_args
from report import Ob, pmap
from realdom import *
from symcheck import verdict, Bad

IV, BX = A + 'Interval<', A + 'Box<'
INF = float('inf')
_P = {}


def program():
    if 'p' not in _P: _P['p'] = prog.load(tus.tus('geometry/box.cpp', 'geometry/interval.cpp') + [prog.VERIF + '/tu/use_geometry.cpp'])
    return _P['p']


def isivl(t): return bare(t).startswith(IV)
def isbox(t): return bare(t).startswith(BX)
def isbs(t): return bare(t).startswith(A + 'BoxSet<')
def ispt(t): return bare(t).startswith((A + 'Point<', A + 'Vector<'))
def endtype(t): return split_args(bare(t)[len(IV):-1])[0]
def ivt(t): return split_args(bare(t)[len(BX if isbox(t) else A + 'BoxSet<'):-1])[0]
def mk_ivl(t, n): return ('rec', bare(t), (('_l', ('num', n + 'l')), ('_u', ('num', n + 'u'))), None)
def mk_box(t, n, d): return ('rec', bare(t), (('_vec', ('arr', tuple(mk_ivl(ivt(t), '%s%d' % (n, i)) for i in range(d)))),), None)


class GPol(RPol):
    def extra(s, ev, fn, this, args, node):
        n, rec = fn.n, fn.rec or ''
        if n in ('infinity', 'inf') and not args and rec.startswith(A) : return ('term', ('flt', 'inf'))
        if n == 'inf' and fn.has('static') and isnum(fn.ret or ''):
            a = [ev.rv(x) for x in args]
            neg = any(x[0] == 'enum' and x[2] < 0 for x in a)
            return ('term', ('flt', '-inf' if neg else 'inf'))
        if n == 'min' and fn.has('static') and isnum(fn.ret or '') and len(args) == 1 and ev.rv(args[0])[0] == 'prec': return ('term', ('num', 'tiny'))
        if fn.has('ctor') and rec == A + 'Rational' and len(args) == 2:
            a = [s.num(ev.rv(x)) for x in args]
            if all(s.isnumv(x) for x in a): return ('term', nop('div', *a))
        if n == 'make_pair' and len(args) == 2 or fn.has('ctor') and rec.startswith('std::pair<') and len(args) == 2: return ('term', ('rec', bare(fn.ret) if n == 'make_pair' else rec, (('first', ev.rv(args[0])), ('second', ev.rv(args[1]))), None))
        if n == 'make_interval' and len(args) == 1 and s.isnumv(s.num(ev.rv(args[0]))): raise Unsupported('singleton interval')
        if n == 'nul' and len(args) == 1 and s.isnumv(s.num(ev.rv(args[0]))): return ('term', I(0))
        if rec.startswith(A + 'Point<') and this is not None and not fn.has('ctor') and ev.rv(this)[0] == 'arr' and n == 'dimension': return ('term', I(len(ev.rv(this)[1])))
        if n in ('cast_vector',) and len(args) == 1:
            v = ev.rv(args[0])
            if v[0] == 'rec' and isbox(v[1]): return args[0].sub(('f', '_vec')) if isinstance(args[0], LV) and False else ('term', field(v, '_vec'))
        return None
    def conv_elem(s, ev, rec, v):
        m = re.match(r'^Ariadne::\w+<(.*)>$', rec)
        if v[0] == 'rec' and isivl(v[1]) and m and isivl(m.group(1)): return ('rec', bare(m.group(1)), v[2], v[3])
        return v
    def zero_elem(s, rec): return ('uninit', rec, '')


# ------------------------------------------------------------------------------------------------ values
def py(m, v):
    """the Python value of a result: numbers, (l,u), lists, truth values"""
    if v is None or v[0] == 'void': return None
    if v[0] == 'rec' and isivl(v[1]): return ('I', m.num(pnum(v, '_l')), m.num(pnum(v, '_u')))
    if v[0] == 'rec' and (isbox(v[1]) or isbs(v[1])): return py(m, field(v, '_vec'))
    if v[0] == 'rec' and 'pair<' in v[1]: return (py(m, field(v, 'first')), py(m, field(v, 'second')))
    if v[0] == 'rec' and v[3] is not None and not v[2]: return py(m, v[3])
    if v[0] == 'arr': return [py(m, x) for x in v[1]]
    if v[0] == 'rec' and bare(v[1]).startswith(A + 'SizeOne'): return Q(1)
    pol = GPol()
    if pol.islogv(pol.log(v)): return m.log(pol.log(v))
    if pol.isnumv(pol.num(v)): return m.num(pol.num(v))
    raise Unsupported('value ' + show(v)[:80])


def pnum(v, f): return GPol().num(field(v, f))


def same_py(a, b):
    if isinstance(a, bool) or isinstance(b, bool): return a == b
    if isinstance(a, (list, tuple)): return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same_py(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or a is None: return a == b
    return near(a, b)


def empty(i): return i[1] > i[2]


# ------------------------------------------------------------------------------------------------ meaning
def hull2(a, b): return ('I', min(a[1], b[1]), max(a[2], b[2]))
def cap2(a, b): return ('I', max(a[1], b[1]), min(a[2], b[2]))
def asI(x): return x if isinstance(x, tuple) else ('I', x, x)


ALL1 = {'subset': lambda a, b: a[1] >= b[1] and a[2] <= b[2], 'superset': lambda a, b: a[1] <= b[1] and a[2] >= b[2],
        'intersect': lambda a, b: max(a[1], b[1]) <= min(a[2], b[2]), 'overlap': lambda a, b: a[1] < b[2] and b[1] < a[2] ,
        'inside': lambda a, b: a[1] > b[1] and a[2] < b[2], 'covers': lambda a, b: a[1] < b[1] and a[2] > b[2],
        'equal': lambda a, b: a[1] == b[1] and a[2] == b[2], 'refines': lambda a, b: a[1] >= b[1] and a[2] <= b[2],
        'contains': lambda a, b: a[1] <= b[1] and b[2] <= a[2], 'element': lambda a, b: b[1] <= a[1] and a[2] <= b[2]}
ALL1['intersects'] = ALL1['intersect']; ALL1['overlaps'] = ALL1['overlap']; ALL1['operator=='] = ALL1['same'] = ALL1['equal']
ANY1 = {'disjoint': lambda a, b: max(a[1], b[1]) > min(a[2], b[2])}
ANY1['separated'] = ANY1['disjoint']


def width(i): return i[2] - i[1]
def mid(i): return (i[1] + i[2]) / 2


PARTS = {'LOWER': lambda i: ('I', i[1], mid(i)), 'UPPER': lambda i: ('I', mid(i), i[2]), 'MIDDLE': lambda i: ('I', (3 * i[1] + i[2]) / 4, (i[1] + 3 * i[2]) / 4)}


def repl(b, k, v): return [v if i == k else x for i, x in enumerate(b)]


def prod(xs):
    r = Q(1)
    for x in xs: r = r * x
    return r


class Skip(Exception): pass


def meaning(n, a, ctx):
    """the required result for argument values a: a value, or a predicate on the result"""
    x = a[0] if a else None
    box = isinstance(x, list)
    two = len(a) == 2 and not isinstance(a[1], str)
    if n in ('operator!=',) and two: return not meaning('operator==', a, ctx)
    if n in ALL1 and two:
        if isinstance(a[0], list): return all(ALL1[n](asI(p), asI(q)) for p, q in zip(a[0], a[1])) if len(a[0]) == len(a[1]) else (False if n in ('operator==', 'same') else Skip)
        return ALL1[n](asI(a[0]), asI(a[1]))
    if n in ANY1 and two:
        if box: return any(ANY1[n](p, q) for p, q in zip(a[0], a[1])) if len(a[0]) == len(a[1]) else Skip
        return ANY1[n](asI(a[0]), asI(a[1]))
    if n in ('hull', 'intersection', 'refinement') and two:
        f = hull2 if n == 'hull' else cap2
        if isinstance(a[0], list):
            if len(a[0]) != len(a[1]): return Skip
            w = [f(asI(p), asI(q)) for p, q in zip(a[0], a[1])]
            if n == 'hull': return w
            return lambda r: isinstance(r, list) and len(r) == len(w) and (same_py(r, w) or any(empty(i) for i in r) and any(empty(i) for i in w))
        w = f(asI(a[0]), asI(a[1]))
        return w if n == 'hull' else (lambda r: same_py(r, w) or empty(r) and empty(w))
    if n == 'is_empty': return any(empty(i) for i in x) if box else empty(x)
    if n == 'is_singleton': return x[1] == x[2]
    if n == 'is_bounded': return all(abs(e) < INF for i in (x if box else [x]) for e in i[1:])
    if n in ('centre', 'midpoint'): return [mid(i) for i in x] if box else mid(x)
    if n == 'lower_bound': return x[1]
    if n == 'upper_bound': return x[2]
    if n in ('lower_bounds',): return [i[1] for i in x]
    if n in ('upper_bounds',): return [i[2] for i in x]
    if n == 'radius': return max(width(i) / 2 for i in x) if box else width(x) / 2
    if n == 'width': return width(x)
    if n == 'radii': return [width(i) / 2 for i in x]
    if n == 'widths': return [width(i) for i in x]
    if n == 'semiperimeter': return sum(width(i) for i in x)
    if n in ('measure', 'volume'): return prod(width(i) for i in x)
    if n == 'bounding_box': return x
    if n in ('dimension', 'size'): return Q(len(x) if box else 1)
    if n == 'create_zero': return ('I', Q(0), Q(0))
    if n == 'unit_interval': return ('I', Q(-1), Q(1))
    if n == 'empty_interval': return lambda r: empty(r)
    if n == 'biinfinite_interval': return ('I', -INF, INF)
    if n == 'unit_box': return [('I', Q(-1), Q(1))] * ctx['ints'][0]
    if n == 'irmax': return lambda r: width(x[int(r)]) == max(width(i) for i in x)
    if n in ('split',):
        part = next((v for v in a[1:] if isinstance(v, str)), None); k = next((v for v in a[1:] if isinstance(v, Q)), None)
        def halves(i): return PARTS[part](i) if part else (('I', i[1], mid(i)), ('I', mid(i), i[2]))
        if not box: return halves(x)
        def at(k): return repl(x, k, halves(x[k])) if part else (repl(x, k, halves(x[k])[0]), repl(x, k, halves(x[k])[1]))
        if k is not None: return at(int(k))
        wm = max(width(i) for i in x)
        return lambda r: any(same_py(r, at(j)) for j in range(len(x)) if width(x[j]) == wm)
    if n in ('product', '_product', 'join'):
        r = []
        for v in a: r += v if isinstance(v, list) else [v]
        return r
    if n == 'remove': return [v for i, v in enumerate(x) if i != int(a[1])]
    if n in ('project', '_project') or n == 'operator[]' and isinstance(a[1], list): return [x[int(i)] for i in a[1]]
    if n == 'operator[]': return x[int(a[1])]
    if n == 'vertices':
        w = set(itertools.product(*[(i[1], i[2]) for i in x])) if x else set()
        return lambda r: isinstance(r, list) and len(r) == (2 ** len(x) if x else 0) and set(map(tuple, r)) == w
    if n in ('widen', 'narrow'):
        e = a[1] if len(a) > 1 else ctx['env']['tiny']
        sg = -1 if n == 'widen' else 1
        f = lambda i: ('I', i[1] + sg * e, i[2] - sg * e)
        return [f(i) for i in x] if box else f(x)
    if n in ('cast_exact', 'cast_exact_interval', 'cast_exact_box', 'cast_vector', 'clone'): return x
    if n in ('add', 'operator+') and two: return ('I', x[1] + a[1][1], x[2] + a[1][2])
    if n in ('sub', 'operator-') and two: return ('I', x[1] - a[1][2], x[2] - a[1][1])
    if n in ('mul', 'operator*') and two:
        p = [s * t for s in x[1:] for t in a[1][1:]]; return ('I', min(p), max(p))
    if n == 'mag': return max(abs(x[1]), abs(x[2]))
    return None


NAMES = set(ALL1) | set(ANY1) | {'operator!=', 'hull', 'intersection', 'refinement', 'is_empty', 'is_singleton', 'is_bounded', 'centre', 'midpoint', 'lower_bound', 'upper_bound', 'lower_bounds', 'upper_bounds', 'radius', 'width', 'radii', 'widths', 'semiperimeter', 'measure', 'volume', 'bounding_box', 'dimension', 'size', 'create_zero', 'unit_interval', 'empty_interval', 'biinfinite_interval', 'unit_box', 'irmax', 'split', 'product', '_product', 'join', 'remove', 'project', '_project', 'operator[]', 'vertices', 'widen', 'narrow', 'cast_exact', 'cast_exact_interval', 'cast_exact_box', 'set_lower_bound', 'set_upper_bound', 'set_bounds'}
ANYSIGN = {'is_empty', 'is_singleton', 'lower_bound', 'upper_bound', 'lower_bounds', 'upper_bounds', 'operator==', 'operator!=', 'same', 'operator[]', 'project', '_project', 'product', '_product', 'join', 'remove', 'cast_exact', 'cast_exact_interval', 'cast_exact_box', 'bounding_box', 'set_bounds', 'set_lower_bound', 'set_upper_bound', 'vertices'}


# ------------------------------------------------------------------------------------------------ obligations
RG = A + 'Range'
def kind(t):
    b = bare(t)
    if isivl(t): return 'I'
    if isbox(t): return 'B'
    if isbs(t): return 'S'
    if bare(t).startswith(A + 'Vector<' + IV): return 'V'
    if ispt(t): return 'P'
    if b == RG: return 'R'
    if b == A + 'Array<unsigned long>': return 'A'
    if b in ('unsigned long', 'unsigned int', A + 'SizeOne'): return 'N'
    if b == A + 'SplitPart': return 'E'
    if isnum(t): return 'X'
    return None


def functions():
    out = []
    for f in program().bodies():
        if f.params is None or f.has('dtor') or 'geometry/' not in f.where or f.q.startswith('std::'): continue
        meth = f.has('meth') and not f.has('static') and not f.has('ctor')
        ks = ([kind(f.rec)] if meth else []) + [kind(t) for _, _, t in f.params]
        owner = f.rec and (isivl(f.rec) or isbox(f.rec) or isbs(f.rec))
        if any(k is None for k in ks): continue
        if f.has('ctor'):
            if not owner or not ks or f.has('copy') or f.has('move'): continue
            if any(k not in 'IBVXN' for k in ks): continue
            out.append((f, ks, False)); continue
        if f.n not in NAMES: continue
        if not owner and not any(k in 'IBSV' for k in ks): continue
        if f.n in ('add', 'sub', 'mul', 'mag', 'operator+', 'operator-', 'operator*') and 'Approximation' not in f.sig(): continue
        if f.n in ('element', 'contains') and ks[0] == ks[1] == 'I': continue          # an interval as a number
        out.append((f, ks, meth))
    return out


def shapes(f, ks):
    """choices of the concrete parameters: dimensions, indices, split parts"""
    dims = [1, 2, 3] if f.n not in ('product', '_product', 'join') else [0, 1, 2]
    boxes = [i for i, k in enumerate(ks) if k in 'BSPV']
    if f.has('ctor') and ks == ['N']: yield {}, [2], [None]; return
    if f.n in ('unit_box',): yield {0: 3}, [3], [None]; return
    indep = f.n in ('product', '_product', 'join')
    dd = list(itertools.product(*[dims] * len(boxes))) if indep else [(d,) * len(boxes) for d in dims]
    if not boxes: dd = [()]
    for ds in dd:
        dm = dict(zip(boxes, ds)); d = max(ds) if ds else 1
        opts = []
        for i, k in enumerate(ks):
            if k == 'N' and f.has('ctor'): opts.append([2])
            elif k == 'N': opts.append(list(range(d)))
            elif k == 'E': opts.append(['LOWER', 'MIDDLE', 'UPPER'])
            elif k in 'R': opts.append([(s, t) for s in range(d + 1) for t in range(s, d + 1)][-6:])
            elif k == 'A': opts.append([(), (0,), (d - 1, 0)] + ([(1, 2)] if d == 3 else []))
            else: opts.append([None])
        for o in itertools.product(*opts): yield dm, [x for x in o if isinstance(x, int)], o


def splitpart(p, name):
    for e in p.enums.values() if hasattr(p, 'enums') else []:
        pass
    return None


def build(p, f, ks, ts, dm, o):
    """argument values and the names of the free numbers"""
    args = []
    for i, (k, t) in enumerate(zip(ks, ts)):
        n = 'abcd'[i]
        if k == 'I': args.append(mk_ivl(t, n))
        elif k == 'B': args.append(mk_box(t, n, dm[i]))
        elif k == 'V': args.append(('arr', tuple(mk_ivl(bare(t)[len(A + 'Vector<'):-1], '%s%d' % (n, j)) for j in range(dm[i]))))
        elif k == 'S': args.append(mk_box(t, n, dm[i]))
        elif k == 'P': args.append(('arr', tuple(('num', '%s%d' % (n, j)) for j in range(dm[i]))))
        elif k == 'X': args.append(('num', n))
        elif k == 'N': args.append(I(o[i] if o[i] is not None else dm.get(i, 2)))
        elif k == 'E': args.append(('enum', 'Ariadne::SplitPart::' + o[i], {'LOWER': 0, 'MIDDLE': 1, 'UPPER': 2}[o[i]]))
        elif k == 'R': args.append(('rec', RG, (('_start', I(o[i][0])), ('_stop', I(o[i][1]))), None))
        elif k == 'A': args.append(('arr', tuple(I(j) for j in o[i])))
    return args


def pyarg(m, k, v, oi):
    if k == 'E': return oi
    if k == 'R': return [Q(j) for j in range(*oi)]
    return py(m, v)


def names(v, acc):
    if v[0] == 'num': acc.append(v[1])
    else:
        for x in v[1:]:
            if isinstance(x, tuple): names_t(x, acc)
    return acc


def names_t(x, acc):
    if x and x[0] == 'num' and len(x) == 2: acc.append(x[1])
    else:
        for y in x:
            if isinstance(y, tuple): names_t(y, acc)


def envs(ns, pairs, anysign, bounded_only, seed, full):
    """the weak orderings of the ends of two intervals, all of them when there are at most four, else random"""
    rnd = random.Random(seed)
    G = [Q(k) for k in (-1, 0, 1, 2)]
    def ok(e): return anysign or all(e[l] <= e[u] for l, u in pairs)
    if len(ns) <= 4:
        for t in itertools.product(G, repeat=len(ns)):
            e = dict(zip(ns, t))
            if ok(e): yield e
    else:
        k = 0
        for _ in range(40 * full):
            e = {n: rnd.choice(G) for n in ns}
            for l, u in pairs:
                if e[l] > e[u] and not (anysign and rnd.random() < .3): e[l], e[u] = e[u], e[l]
            if rnd.random() < .6 and len(pairs) >= 2:            # make components related, so that conjunctions are often true
                h = len(pairs) // 2
                for (l, u), (l2, u2) in zip(pairs[:h], pairs[h:]):
                    c = rnd.randrange(6)
                    if c == 0: e[l2], e[u2] = e[l], e[u]
                    elif c == 1: e[l2], e[u2] = e[l] - 1, e[u] + 1
                    elif c == 2: e[l2], e[u2] = e[l], e[u] + 1
                    elif c == 3: e[l], e[u] = e[l2] - 1, e[u2] + 1
                    elif c == 4: e[l], e[u] = e[l2] - 1, e[u2]
            if ok(e): k += 1; yield e
            if k >= full: break
    for _ in range(12):
        e = {n: Q(rnd.randrange(-40, 40), rnd.choice((1, 2, 3, 4))) for n in ns}
        for l, u in pairs:
            if e[l] > e[u]: e[l], e[u] = e[u], e[l]
        yield e
    if bounded_only:
        for _ in range(60):
            e = {n: rnd.choice(G + [INF, -INF]) for n in ns}
            for l, u in pairs:
                e[l] = rnd.choice((-INF, Q(-1), Q(0))); e[u] = rnd.choice((Q(0), Q(1), INF))
            yield e


def ctor_meaning(f, ks, a, ctx):
    if isivl(f.rec):
        if ks == ['I'] or ks == ['X']: return asI(a[0])
        if ks == ['X', 'X']: return ('I', a[0], a[1])
        return None
    if ks in (['B'], ['V'], ['S']): return [asI(x) for x in a[0]]
    if ks == ['N', 'I']: return [a[1]] * int(a[0])
    if ks == ['N']: return lambda r: isinstance(r, list) and len(r) == int(a[0])
    return None


def check(j, full):
    f, ks, meth = j
    p = program()
    ts = ([f.rec] if meth else []) + [t for _, _, t in f.params]
    total = 0; und = None; shp = 0
    for dm, ints, o in shapes(f, ks):
        args = build(p, f, ks, ts, dm, o)
        pol = GPol(); this = None; av = list(args)
        if meth: this, av = av[0], av[1:]
        try: ps = run(p, f, pol, this=this, args=av)
        except (Unsupported, Budget) as e: und = 'not summarised: %s' % str(e)[:120]; continue
        shp += 1
        ns = []
        for x in args: names_t(x, ns)
        pairs = [(n, n[:-1] + 'u') for n in ns if n.endswith('l')]
        inplace = f.n.startswith('set_')
        judged = 0
        for e in envs(ns, pairs, f.n in ANYSIGN or f.has('ctor'), f.n == 'is_bounded', 7, full):
            e = dict(e); e['tiny'] = Q(1, 1 << 20)
            m = Model(e)
            for q in ps:
                try:
                    if not m.consistent(q.facts): continue
                    if q.kind == 'throw': got = 'throw'
                    elif q.kind != 'ret': continue
                    else: got = py(m, q.this if inplace or f.has('ctor') else q.value)
                    a = [pyarg(m, k, v, x) for k, v, x in zip(ks, args, o if len(o) == len(ks) else [None] * len(ks))]
                except Undef: continue
                except Unsupported as x: und = str(x)[:120]; continue
                ctx = {'ints': ints, 'env': e}
                if inplace:
                    w = ('I', a[1] if f.n != 'set_upper_bound' else a[0][1], a[-1] if f.n != 'set_lower_bound' else a[0][2])
                else: w = ctor_meaning(f, ks, a, ctx) if f.has('ctor') else meaning(f.n, a, ctx)
                if w is None: und = 'no meaning given'; continue
                if w is Skip: continue
                judged += 1
                good = w(got) if callable(w) and got != 'throw' else (not callable(w) and same_py(w, got))
                if not good: return 'violated', 'for %s the result is %s%s' % (', '.join(map(txt, a)), txt(got), '' if callable(w) else ', it should be %s' % txt(w))
        total += judged
        if judged < 1: und = und or 'no sample point reaches a path (%s)' % (o,)
    if und: return 'undecided', und
    if total < 3 and ks: return 'undecided', 'only %d points' % total
    return 'proved', '%d shapes, %d orderings' % (shp, total)


# ------------------------------------------------------------------------------------------------ single precision domains
MODES = {'upward': 'U', 'downward': 'D', 'to_nearest': 'N', 'toward_zero': 'Z', 'approx': 'N'}
class WPol(GPol):
    """builtin floating point with the rounding mode of every operation and conversion recorded"""
    fcasts = True
    def gvar(s, ev, q, ty):
        t = q.split('::')[-1]
        if t in MODES: return ('rm', MODES[t])
        return GPol.gvar(s, ev, q, ty)
    def num(s, v): return v if v[0] == 'fp' else GPol.num(s, v)
    def isnumv(s, v): return v[0] in ('fp', 'app') or GPol.isnumv(s, v)
    def extra(s, ev, fn, this, args, node):
        if fn.n == 'set_rounding_mode' and len(args) == 1: ev.rnd = ev.rv(args[0]); return ('term', ('void',))
        if fn.n == 'get_rounding_mode': return ('term', ev.rnd)
        if fn.n in ('min', 'epsilon', 'max') and fn.q.startswith('std::numeric_limits<float>'): return ('term', ('flim', fn.n))
        return GPol.extra(s, ev, fn, this, args, node)


def fround(x, mode, p=24, emin=-149):
    if x == 0 or isinstance(x, float): return x
    a = abs(x); e = a.numerator.bit_length() - a.denominator.bit_length()
    if Q(2) ** e > a: e -= 1
    u = Q(2) ** max(e - p + 1, emin); k = x / u; f = math.floor(k)
    if f == k: return x
    if mode == 'U': f += 1
    elif mode == 'Z': f = f if x > 0 else f + 1
    elif mode == 'N': f = f if k - f < Q(1, 2) or k - f == Q(1, 2) and f % 2 == 0 else f + 1
    return f * u


class WMod(Model):
    """values with their format: 'f' single precision, 'd' double"""
    def fmt(s, v):
        if v[0] == 'flim': return 'f'
        if v[0] == 'fp' and v[1].startswith('to '): return 'f' if v[1] == 'to float' else 'd'
        if v[0] == 'fp': return 'f' if all(s.fmt(x) == 'f' for x in v[3:]) else 'd'
        if v[0] == 'un': return s.fmt(v[2])
        return 'd'
    def _num(s, v):
        if v[0] == 'flim': return {'min': Q(1, 1 << 126), 'epsilon': Q(1, 1 << 23), 'max': (2 - Q(1, 1 << 23)) * Q(2) ** 127}[v[1]]
        if v[0] == 'fp':
            m = v[2][1] if v[2][0] == 'rm' else {0: 'N', 0x400: 'D', 0x800: 'U', 0xc00: 'Z', 0x2000: 'D', 0x4000: 'U', 0x6000: 'Z'}.get(v[2][1]) if v[2][0] == 'int' else None
            if m is None: raise Unsupported('rounding mode of a builtin operation')
            xs = [s.num(x) for x in v[3:]]
            if v[1].startswith('to '): x = xs[0]
            else: x = SEMQ({'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}.get(v[1], v[1]), xs)
            if x is None: raise Undef(v[1])
            return fround(x, m) if s.fmt(v) == 'f' else fround(x, m, 53, -1074)
        return Model._num(s, v)


WPTS = [Q(float(x)) for x in (0, 1, -1, 0.1, -0.1, 1 / 3, -1 / 3, 1 + 2 ** -40, -1 - 2 ** -40, 1 - 2 ** -40, 1e10 + 0.3, -1e10 - 0.3, 2.0 ** -130 * 1.1, -2.0 ** -130 * 1.1, 3.7e-45, 12345.678, -12345.678, 2.0 ** 24 + 1, -2.0 ** 24 - 1)]
def widened():
    return [f for f in program().bodies() if f.n == 'widen_domain' and f.params and len(f.params) == 1 and isivl(f.params[0][2])]


def widen_one(f):
    rule = 'set:widen_domain'
    try: ps = run(program(), f, WPol(), args=[mk_ivl(f.params[0][2], 'a')])
    except (Unsupported, Budget) as e: return Ob(rule, f.sig(), f.where, 'undecided', 'not summarised: %s' % str(e)[:120])
    n = 0; und = None
    for l in WPTS:
        for u in WPTS:
            if l > u: continue
            m = WMod({'al': l, 'au': u})
            for q in ps:
                try:
                    if q.kind != 'ret' or not m.consistent(q.facts): continue
                    pl = WPol(); a, b = m.num(pl.num(field(q.value, '_l'))), m.num(pl.num(field(q.value, '_u')))
                except Undef: continue
                except (Unsupported, TypeError, KeyError) as e: und = str(e)[:100]; continue
                n += 1
                if a > l or b < u: return Ob(rule, f.sig(), f.where, 'violated', 'for [%s:%s] the result [%s:%s] does not contain it' % tuple(float(x).hex() for x in (l, u, a, b)))
    if und or n < 3: return Ob(rule, f.sig(), f.where, 'undecided', und or 'only %d points' % n)
    return Ob(rule, f.sig(), f.where, 'proved', '%d ends' % n)


def txt(v):
    if isinstance(v, tuple) and v and v[0] == 'I': return '[%s:%s]' % v[1:]
    if isinstance(v, (list, tuple)): return '(' + ', '.join(map(txt, v)) + ')'
    return str(v)


def one(x):
    j, full = x; f = j[0]
    rule = 'set:' + ('constructor' if f.has('ctor') else f.n)
    try: v, d = check(j, full)
    except Exception as e: v, d = 'undecided', '%s %s' % (type(e).__name__, str(e)[:100])
    return Ob(rule, f.sig(), f.where, v, d)


def decide(n):
    def go(tier):
        fs = functions()
        full = n if tier == 'quick' else n * 8
        return pmap(one, [(j, full) for j in fs]) + [widen_one(f) for f in widened()], {"functions_analysed": len(fs), "functions_resolved": len(program().fns)}
    return go
