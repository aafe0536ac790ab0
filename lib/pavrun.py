"""Pavings on a grid: a root cell (extent of its primary cell, path from it) and a subdivision tree.  The trees are leaves or
pairs of opaque subtrees, calls on subtrees are replaced by their specification (see treerun), the extents and paths are
small and enumerated; the result of every path must denote, inside the largest primary cell of the model, the specified set."""
import random, itertools
from fractions import Fraction as Q
import prog, tus
import treerun as T
from treerun import *

GTS, GTP, GC = A + 'GridTreeSubpaving', A + 'GridTreePaving', A + 'GridCell'
APX = {'_adjoin_outer_approximation': 'outer', '_adjoin_inner_approximation': 'inner', '_adjoin_lower_approximation': 'lower'}
BOXQ = {'_superset': 'sup', '_subset': 'sub2', '_intersects': 'int2', '_disjoint': 'dis2'}
CELLF = {A + 'GridCell', A + 'GridAbstractCell'}


def pp(dim, M, e):
    """the path from the primary cell of extent M to that of extent e"""
    return tuple(i % 2 for i in range(M, e, -1) for _ in range(dim))


class PMod(TMod):
    """sets are bit masks over the cells of depth G in the largest primary cell"""
    def part(s, mask, path):
        G = s.env['G']
        for i, b in enumerate(path): mask = mask >> (1 << (G - i - 1)) if b else mask & ((1 << (1 << (G - i - 1))) - 1)
        return mask
    def span(s, path):
        """the range of places of a cell, in one dimension"""
        G = s.env['G']; a = 0
        for i, b in enumerate(path): a += b << (G - i - 1)
        return a, a + (1 << (G - len(path)))
    def log(s, v):
        if v[0] == 'cq':
            n, path = v[1], v[2]
            X = s.part(s.env['X'], path); fu = full(s.env['G'] - len(path))
            if n in ('sep', 'cov', 'ovl'):
                t = X == 0 if n == 'sep' else X == fu if n == 'cov' else X != 0
                return t or s.free(v) if v[3:] == ('p',) else t and s.free(v)
            if n in ('bovl', 'bsub', 'bdis', 'binroot'):
                a, b = s.span(path); lo, hi = s.box(v[3])
                return {'bovl': max(a, lo) < min(b, hi), 'bsub': lo <= a and b <= hi, 'bdis': b < lo or hi < a, 'binroot': a <= lo and hi <= b}[n]
            if n in BOXQ.values():
                return s.boxq(n, path, ev_set(s.env, v[4], s.env['G'] - len(path)), v[3])
            if n == 'isopen': return s.free(v[:2])
            raise Unsupported('question ' + n)
        return TMod.log(s, v)
    def box(s, kind):
        lo, hi = s.env['B']; e = Q(1, 8)
        for k in kind: lo, hi = (lo - e, hi + e) if k == 'w' else (lo + e, hi - e)
        return lo, hi
    def boxq(s, n, path, S, kind):
        a, b = s.span(path); lo, hi = s.box(kind)
        on = [a + i for i in range(b - a) if S >> i & 1]; off = [a + i for i in range(b - a) if not S >> i & 1]
        if n == 'sup': return not any(max(x, lo) < min(x + 1, hi) for x in off)
        if n == 'sub2': return all(lo <= x and x + 1 <= hi for x in on)
        if n == 'int2': return any(max(x, lo) < min(x + 1, hi) for x in on)
        return not any(max(x, lo) < min(x + 1, hi) for x in on)
    def consistent(s, facts):
        return TMod.consistent(s, facts)


def ev_set2(env, e, d):
    k = e[0]
    if k in ('outer', 'inner', 'lower'):
        old = T.ev_set0(env, e[1], d); m = PMod(env); X = m.part(env['X'], e[2]); r = random.Random(repr((e, env['seed'])))
        R = r.randrange(1 << (1 << d))
        if k == 'outer': return old | X | (R if r.random() < .5 else 0)
        if k == 'inner': return old | X & R
        return old | (full(d) if r.random() < .5 else R & X) * (X != 0)
    return T.ev_set0(env, e, d)


if not hasattr(T, 'ev_set0'):
    T.ev_set0 = T.ev_set
    def _dispatch(env, e, d): return ev_set2(env, e, d) if 'G' in env else T.ev_set0(env, e, d)
    # the recursion of treerun's evaluation goes through the dispatcher
    def _f(env, e, d):
        if e[0] in ('outer', 'inner', 'lower'): return ev_set2(env, e, d)
        return T.ev_set0(env, e, d)
    T.ev_set = _f
ev_set = T.ev_set


def bitsof(v):
    if v[0] != 'arr': raise Unsupported('path ' + show(v)[:40])
    out = []
    for b in v[1]:
        b = GP.log(b)
        if b[0] != 'bool': raise Unsupported('symbolic path')
        out.append(int(b[1]))
    return tuple(out)


class PPol(TPol):
    dim = 1; M = 2; G = 5
    def islogv(s, v): return v[0] == 'cq' or TPol.islogv(s, v)
    def seq(s, ev, fn, this, args):
        n, tv = fn.n, ev.rv(this)
        if tv[0] != 'arr': return None
        if n in ('append', 'push_back') and ev.rv(args[0])[0] == 'arr': ev.write(this, ('arr', tv[1] + ev.rv(args[0])[1])); return ('term', ('void',))
        if n == 'pop_back':
            if not tv[1]: raise Malformed('an empty path is shortened')
            ev.write(this, ('arr', tv[1][:-1])); return ('term', ('void',))
        if n == 'erase':
            ps = [ev.rv(a) for a in args]
            ix = []
            for p in ps:
                while p[0] == 'rec' and len(p[2]) == 1: p = p[2][0][1]
                if p[0] != 'ptr' or not p[2] or p[2][-1][0] != 'i' or p[2][-1][1][0] != 'int': raise Unsupported('erase ' + str(p)[:100])
                ix.append(p[2][-1][1][1])
            i = ix[0]; j = ix[1] if len(ix) > 1 else i + 1
            if not 0 <= i <= j <= len(tv[1]): raise Malformed('a path is erased beyond its end')
            ev.write(this, ('arr', tv[1][:i] + tv[1][j:])); return ('term', ('void',))
        if n == 'clear': ev.write(this, ('arr', ())); return ('term', ('void',))
        return None
    def extra(s, ev, fn, this, args, node):
        n, rec = fn.n, fn.rec or ''; ctor = fn.has('ctor')
        if n in ('definitely', 'possibly', 'is_indeterminate') and len(args) == 1:
            v = s.log(ev.rv(args[0])); neg = v[0] == 'not'; w = v[1] if neg else v
            if w[0] == 'cq' and w[1] in ('sep', 'cov', 'ovl') and len(w) == 3:
                d, p = w + ('d',), w + ('p',)
                if n == 'is_indeterminate': return ('term', ('and', p, ('not', d)))
                r = d if (n == 'definitely') != neg else p
                return ('term', ('not', r) if neg else r)
        if rec.startswith('std::_Bit') or any('std::_Bit' in t for _, _, t in fn.params or []):
            vs = ([ev.rv(this)] if this is not None and not ctor and not fn.has('static') else []) + [ev.rv(a) for a in args]
            if ctor and len(vs) == 1 and vs[0][0] == 'ptr': return ('term', vs[0])
            if n in ('operator+', 'operator-') and len(vs) == 2:
                if vs[0][0] == 'int': vs = vs[::-1]
                if vs[0][0] == 'ptr' and vs[1][0] == 'int' and vs[0][2] and vs[0][2][-1][0] == 'i': return ('term', ('ptr', vs[0][1], vs[0][2][:-1] + (('i', I(vs[0][2][-1][1][1] + (vs[1][1] if n == 'operator+' else -vs[1][1]))),)))
        if this is not None and not ctor and not fn.has('static'):
            tv = ev.rv(this)
            if tv is not None and tv[0] == 'arr':
                r = s.seq(ev, fn, this, args)
                if r: return r
            if tv is not None and tv[0] == 'gcell':
                e, w = tv[1], tv[2]
                if n == 'root_extent': return ('term', I(e))
                if n == 'word': return ('term', bits(w))
                if n == 'grid': return ('term', ('sym', 'grid', 'Grid'))
                if n == 'dimension': return ('term', I(s.dim))
                if n == 'root_height': return ('term', I(e * s.dim))
                if n == 'depth': return ('term', I(len(w) - e * s.dim))
                if n == 'box': return ('term', ('box', pp(s.dim, s.M, e) + w))
                if n == 'operator=': ev.write(this, ev.rv(args[0])); return this
                return None
            if tv is not None and tv[0] == 'sym' and tv[1] == 'grid':
                if n == 'dimension': return ('term', I(s.dim))
                if n == 'operator==': return ('term', TRUE)
                if n == 'operator!=': return ('term', FALSE)
            if tv is not None and tv[0] == 'box' and args:
                b = ev.rv(args[0])
                nm = {'overlaps': 'bovl', 'subset': 'bsub', 'disjoint': 'bdis'}.get(n)
                if nm and b[0] == 'Box': return ('term', ('cq', nm, tv[1], b[1]))
            if tv is not None and tv[0] == 'Box':
                if n == 'subset' and ev.rv(args[0])[0] == 'box': return ('term', ('cq', 'binroot', ev.rv(args[0])[1], tv[1]))
                if n in ('dimension', 'size'): return ('term', I(s.dim))
            if tv is not None and tv[0] == 'aset':
                if n in ('separated', 'covers', 'overlaps') and ev.rv(args[0])[0] == 'box': return ('term', ('cq', {'separated': 'sep', 'covers': 'cov', 'overlaps': 'ovl'}[n], ev.rv(args[0])[1]))
                if n == 'dimension': return ('term', I(s.dim))
                if n == 'bounding_box': return ('term', ('bbox',))
        if n in ('operator==', 'operator!=') and len(args) == 2 and all(ev.rv(a)[:2] == ('sym', 'grid') for a in args): return ('term', B(n == 'operator=='))
        if ctor and rec == A + 'Grid' and args and ev.rv(args[0])[:2] == ('sym', 'grid'): return ('term', ev.rv(args[0]))
        if ctor and rec in CELLF:
            vs = [ev.rv(a) for a in args]
            if len(vs) == 1 and vs[0][0] == 'gcell': return ('term', vs[0])
            if len(vs) >= 3 and vs[1][0] == 'int': return ('term', ('gcell', vs[1][1], bitsof(vs[2])))
        if n in ('widen', 'narrow') and len(args) == 1 and ev.rv(args[0])[0] == 'Box': return ('term', ('Box', ev.rv(args[0])[1] + n[0]))
        if n in ('cast_exact_box',) and args and ev.rv(args[0])[0] in ('Box', 'bbox'): return ('term', ev.rv(args[0]))
        if ctor and args and ev.rv(args[0])[0] in ('Box', 'bbox', 'box') and 'Box<' in rec: return ('term', ev.rv(args[0]))
        if n == 'compute_box': return ('term', ('box', pp(s.dim, s.M, ev.rv(args[1])[1]) + bitsof(ev.rv(args[2]))))
        if n == 'smallest_enclosing_primary_cell_extent': return ('term', I(0))
        if n == 'zero_cell_subdivisions_to_tree_subdivisions': return ('term', I(2))
        if n in APX and fn.rec == GTP:
            e, path = ev.rv(args[2]), ev.rv(args[5])
            x = s.nodeof(ev, args[1])
            if e[0] != 'int' or path[0] != 'ptr' or not x: raise Unsupported('approximation call')
            pl = LV(path[1], path[2]); w = bitsof(ev.rv(pl)); g = pp(s.dim, s.M, e[1]) + w
            if ev.rv(args[4])[0] != 'aset': raise Unsupported('approximated set')
            dm = ev.rv(args[3])
            if dm[0] == 'int' and len(w) > dm[1]: raise Malformed('the subdivision continues beyond the requested depth')
            cur = getattr(ev, 'nodepath', {}).get(x[0].cell)
            v = x[1]; old = denote(ev, v)
            if v[0] == 'tree' and v[2] != s.G - len(g): raise Malformed('a subtree is combined with the wrong cell')
            ev.store[x[0].cell] = ('tree', (APX[n], old, g), s.G - len(g))
            if w: ev.write(pl, bits(w[:-1]))
            return ('term', ('void',))
        if n in BOXQ and fn.rec == GTS:
            x = s.nodeof(ev, args[0]); e = ev.rv(args[2]); w = bitsof(ev.rv(args[3])); b = ev.rv(args[4])
            if not x or e[0] != 'int' or b[0] != 'Box': raise Unsupported('box question')
            g = pp(s.dim, s.M, e[1]) + w; v = x[1]
            if v[0] == 'tree' and v[2] != s.G - len(g): raise Malformed('a subtree is combined with the wrong cell')
            return ('term', ('cq', BOXQ[n], g, b[1], denote(ev, v)))
        return TPol.extra(s, ev, fn, this, args, node)


class PEv(TEv):
    def x_dyncast(s, e, fr): raise Unsupported('dynamic cast')


def paving(ev, cls, e, w, sh, nm, pol):
    L = pol.G - pol.dim * (pol.M - e) - len(w)
    root = ev.cell(build(ev, sh, nm, L))
    return ('rec', cls, (('_pRootTreeNode', ('ptr', root, ())), ('_theGridCell', ('gcell', e, w))), None), root


SETF = {'subset', 'intersect', 'adjoin', 'remove', 'restrict', 'join', 'intersection', 'difference', 'restrict_to_extent', 'up_to_primary_cell', 'is_empty', 'superset', 'restrict_to_lower', 'remove_from_lower'}
BOXF = {'covers', 'inside', 'separated', 'overlaps'}
ADJ = {'adjoin_outer_approximation', 'adjoin_inner_approximation', 'adjoin_lower_approximation'}


def kindsof(f):
    ks = []
    ts = ([f.rec] if f.has('meth') and not f.has('static') else []) + [t for _, _, t in f.params]
    for t in ts:
        b = bare(t).replace('const ', '').strip()
        if b in (GTS, GTP): ks.append('s' if b == GTS else 'p')
        elif b == GC: ks.append('c')
        elif b == A + 'Grid': ks.append('g')
        elif b == BT + ' *' or b == BT + '*': ks.append('t')
        elif b == A + 'BinaryWord': ks.append('w')
        elif b == A + 'BinaryWord *' or b == A + 'BinaryWord*': ks.append('W')
        elif b in ('unsigned int', 'unsigned long'): ks.append('n')
        elif b.startswith(A + 'Box<') and 'Float<' in b and 'Bound' not in b: ks.append('B')
        elif 'SetInterface' in b or b.startswith(A + 'EuclideanSet'): ks.append('X')
        else: return None
    return ks


def functions():
    out = []
    for f in program().bodies():
        if f.params is None or f.has('ctor') or f.has('dtor'): continue
        if f.where.split(':')[0].split('/')[-1] not in ('grid_paving.cpp', 'grid_paving.hpp'): continue
        ks = kindsof(f)
        if ks is None: continue
        k = ''.join(ks)
        if f.n in SETF and f.rec in (GTS, GTP, None, '') and k and set(k) <= set('spcn') and k[0] in 'spc' and any(x in 'sp' for x in k): out.append((f, k, 'set'))
        elif f.n in APX and f.rec == GTP: out.append((f, k, 'apx'))
        elif f.n in BOXQ and f.rec == GTS: out.append((f, k, 'boxq'))
        elif f.n in BOXF and f.rec == GTS and k == 'sB': out.append((f, k, 'box'))
    return out


def cases(f, k, kind, dim):
    exts = [0, 1, 2] if dim == 1 else [0, 1]
    ws = [(), (0,), (1,)]
    opts = []
    for i, x in enumerate(k):
        if x == 'p': opts.append([(e, (), sh) for e in exts for sh in 'TFN'])
        elif x == 's': opts.append([(e, w, sh) for e in exts for w in ws for sh in 'TFN'])
        elif x == 'c': opts.append([(e, w) for e in exts for w in ws + [(0, 1)]])
        elif x == 'n': opts.append(exts)
        elif x == 'B': opts.append([''])
        elif x == 'X': opts.append([0])
        elif x == 'g': opts.append([0])
        elif x == 't': opts.append(['T', 'F', 'N'])
        elif x in 'wW': opts.append(ws + ([(1, 0)] if kind == 'apx' else []))
    cs = list(itertools.product(*opts))
    if len(cs) > 1500: cs = random.Random(1).sample(cs, 1500)
    return cs


def judge(f, k, kind, c, dim, n):
    pol = PPol(); pol.dim = dim; pol.M = 2 if dim == 1 else 1; pol.G = 5
    M, G = pol.M, pol.G
    static = not (f.has('meth') and not f.has('static'))
    if kind == 'apx' and k.count('n') == 2:
        # (extent, maximal depth): the depth is reached, one or two levels away
        i = k.index('n'); j = k.index('n', i + 1); w = c[k.index('W')]
        if pol.dim * (M - c[i]) + len(w) > G - 2: return 0
        if c[j] > 2: return 0
        c = c[:j] + (len(w) + c[j],) + c[j + 1:]
    if f.n == 'up_to_primary_cell' and c[1] <= c[0][0]: return 0
    if f.n in ('restrict_to_lower', 'remove_from_lower') and c[0][0] < c[1][0]: return 0      # only reached with the extent raised before
    out = []; dec = []; cnt = 0
    info = None
    while True:
        ev = PEv(program(), pol, dec)
        vals = []; pav = []; tr = []; wl = None
        for x, o in zip(k, c):
            if x in 'sp':
                v, root = paving(ev, GTS if x == 's' else GTP, o[0], o[1], o[2], 'ab'[len(pav)], pol)
                vals.append(LV(ev.cell(v))); pav.append((len(vals) - 1, o, 'ab'[len(pav)], root))
            elif x == 'c': vals.append(LV(ev.cell(('gcell', o[0], o[1]))))
            elif x == 'n': vals.append(LV(ev.cell(I(o))))
            elif x == 'B': vals.append(LV(ev.cell(('Box', ''))))
            elif x == 'X': vals.append(LV(ev.cell(('aset',))))
            elif x == 'g': vals.append(LV(ev.cell(('sym', 'grid', 'Grid'))))
            elif x == 't':
                e = c[k.index('n')]; w = c[[i for i, y in enumerate(k) if y in 'wW'][0]]
                L = G - dim * (M - e) - len(w)
                cell = ev.cell(build(ev, o, 'a', L)); tr.append((cell, o, pp(dim, M, e) + w))
                vals.append(LV(ev.cell(('ptr', cell, ()))))
            elif x == 'w': wl = LV(ev.cell(bits(o))); vals.append(wl)
            elif x == 'W': wl = LV(ev.cell(bits(o))); vals.append(LV(ev.cell(('ptr', wl.cell, ()))))
        this, args = (None, vals) if static else (vals[0], vals[1:])
        p = Path()
        try:
            r = ev.invoke(f, this, args)
            p.kind = 'ret'; p.value = ev.rv(r)
            seen = []
            def dp(v):
                cell, ptr = field(v, '_theGridCell'), field(v, '_pRootTreeNode')
                if cell[0] != 'gcell' or ptr[0] != 'ptr': raise Unsupported('paving ' + show(v)[:60])
                if ptr[1] in seen: raise Malformed('two pavings share a tree')
                seen.append(ptr[1])
                return ('at', pp(dim, M, cell[1]) + cell[2], denote(ev, Ev.read(ev, LV(ptr[1], ptr[2])), seen)), cell
            p.pav = [dp(ev.store[vals[i].cell]) for i, o, nm, root in pav]
            p.res = dp(p.value) if p.value[0] == 'rec' and p.value[1] in (GTS, GTP) else None
            p.tr = [denote(ev, ev.store[cell], seen) for cell, o, g in tr]
            p.trv = [ev.store[cell] for cell, o, g in tr]
            p.word = bitsof(ev.rv(wl)) if wl is not None else None
            dead = set()
            for e in ev.effects:
                if e[0] == 'delete' and e[1][0] == 'ptr':
                    x = [e[1][1]] + cells(ev, ev.store.get(e[1][1]))
                    if any(y in dead for y in x): raise Malformed('a node is destroyed twice')
                    dead |= set(x)
            if set(seen) & dead: raise Malformed('a destroyed subtree is still linked')
        except Throw as t: p.kind = 'throw'; p.value = t.v
        except Malformed as t: p.kind = 'malformed'; p.value = str(t)
        except Infeasible: p.kind = 'inf'
        p.facts = ev.facts; p.ev = ev
        if p.kind != 'inf': out.append(p)
        if len(out) > pol.max_paths: raise Budget('paths')
        fl = dec[:ev.pos] + ev.new
        while fl and fl[-1] is False: fl.pop()
        if not fl: break
        fl[-1] = False; dec = fl
    # the sets before
    before = [('at', pp(dim, M, o[0]) + o[1], expr(o[2], nm)) for i, o, nm, root in pav]
    cellx = [('path', pp(dim, M, o[0]) + o[1]) for x, o in zip(k, c) if x == 'c']
    depths = {nm: G - dim * (M - o[0]) - len(o[1]) for i, o, nm, root in pav}
    for cell, o, g in tr: depths['a'] = G - len(g)
    names = [nm + i for _, o, nm, _ in pav for i in '01' if o[2] == 'N'] + ['a' + i for cell, o, g in tr for i in '01' if o == 'N']
    rnd = random.Random(repr(c))
    what = ', '.join('extent %d path %s %s' % (o[0], ''.join(map(str, o[1])) or '-', {'T': 'enabled leaf', 'F': 'disabled leaf', 'N': 'inner node'}[o[2]]) if x in 'sp' else 'cell of extent %d path %s' % (o[0], ''.join(map(str, o[1])) or '-') if x == 'c' else {'T': 'enabled leaf', 'F': 'disabled leaf', 'N': 'inner node'}[o] if x == 't' else str(o) for x, o in zip(k, c) if x not in 'XgB')
    for env in envs(names, G, n, rnd, depths):
        env['G'] = G; env['X'] = rnd.choice([0, full(G), rnd.randrange(1 << (1 << G)), rnd.randrange(1 << (1 << G)) & rnd.randrange(1 << (1 << G)) & rnd.randrange(1 << (1 << G))])
        if kind == 'apx' and rnd.random() < .6:
            i = rnd.randrange(1 << G); j = rnd.randrange(1 << G); i, j = min(i, j), max(i, j); env['X'] = ((1 << (j - i)) - 1) << i
        lo = Q(rnd.randrange(-2, (2 << G) + 2), 2); env['B'] = (lo, lo + Q(rnd.choice([0, 1, 2, 3, 8, 20, 60]), 2))
        m = PMod(env)
        S = lambda e: ev_set(env, e, G)
        for p in out:
            if p.kind == 'malformed': raise Bad('for %s: %s' % (what, p.value))
            if not m.consistent(p.facts): continue
            cnt += 1
            if p.kind == 'throw': raise Bad('for %s an exception is thrown' % what)
            def show2(): return ', '.join('%s=%s' % (q, bin(v[0])[2:].zfill(1 << v[1])) for q, v in env.items() if isinstance(v, tuple) and q != 'B')
            def same(e, want, msg):
                if S(e) != want: raise Bad('for %s (%s) the result is %s, it should be %s (%s)' % (what, show2(), bin(S(e))[2:].zfill(1 << G), bin(want)[2:].zfill(1 << G), msg))
            if kind == 'set':
                Bf = [S(e) for e in before]; C = [S(e) for e in cellx]; ops = [{'s': None, 'p': None, 'c': None}.get(x) for x in k if x in 'spc']
                it = iter(Bf); ic = iter(C); ops = [next(it) if x in 'sp' else next(ic) for x in k if x in 'spc']
                nm = f.n
                for i in range(len(pav)):
                    if i or nm not in ('adjoin', 'remove', 'restrict', 'restrict_to_extent', 'up_to_primary_cell', 'restrict_to_lower', 'remove_from_lower'): same(p.pav[i][0], Bf[i], 'an operand is changed')
                if nm in ('subset', 'intersect', 'is_empty', 'superset'):
                    g = m.log(GP.log(p.value))
                    want = {'subset': lambda: ops[0] & ~ops[1] == 0, 'superset': lambda: ops[1] & ~ops[0] == 0, 'intersect': lambda: ops[0] & ops[1] != 0, 'is_empty': lambda: ops[0] == 0}[nm]()
                    if g != want: raise Bad('for %s (%s) the answer is %s, it should be %s' % (what, show2(), g, want))
                elif nm == 'adjoin': same(p.pav[0][0], ops[0] | ops[1], 'union')
                elif nm in ('remove', 'remove_from_lower'): same(p.pav[0][0], ops[0] & ~ops[1], 'difference')
                elif nm in ('restrict', 'restrict_to_lower'): same(p.pav[0][0], ops[0] & ops[1], 'intersection')
                elif nm == 'restrict_to_extent': same(p.pav[0][0], ops[0] & S(('path', pp(dim, M, c[1]))), 'restriction to a primary cell')
                elif nm == 'up_to_primary_cell':
                    same(p.pav[0][0], ops[0], 'the same set')
                    if p.pav[0][1] != ('gcell', c[1], ()): raise Bad('for %s the root cell is not the primary cell asked for' % what)
                elif nm == 'join': same(p.res[0], ops[0] | ops[1], 'union')
                elif nm == 'intersection': same(p.res[0], ops[0] & ops[1], 'intersection')
                elif nm == 'difference': same(p.res[0], ops[0] & ~ops[1], 'difference')
                else: raise Unsupported('specification')
            elif kind == 'apx':
                cell, o, g = tr[0]; d = G - len(g)
                old = ev_set(env, expr(o, 'a'), d); new = ev_set(env, p.tr[0], d); X = m.part(env['X'], g)
                w0 = c[k.index('W')]
                if p.word != w0[:-1]: raise Bad('for %s the path is not restored' % what)
                if old & ~new: raise Bad('for %s (%s, set %s) cells that were enabled are lost: %s becomes %s' % (what, show2(), bin(X)[2:].zfill(1 << d), bin(old)[2:].zfill(1 << d), bin(new)[2:].zfill(1 << d)))
                q = APX[f.n]
                if q == 'outer' and X & ~new: raise Bad('for %s (%s) the result %s does not cover the part %s of the set in the cell' % (what, show2(), bin(new)[2:].zfill(1 << d), bin(X)[2:].zfill(1 << d)))
                if q == 'inner' and new & ~old & ~X: raise Bad('for %s (%s) the result %s is not inside the part %s of the set in the cell' % (what, show2(), bin(new)[2:].zfill(1 << d), bin(X)[2:].zfill(1 << d)))
                if q == 'lower':
                    def walk(v, path):
                        if v[0] == 'tree':
                            if 'lower' in repr(v[1]): return
                            t = ev_set(env, v[1], v[2])
                        else:
                            l, r = field(v, '_pLeftNode'), field(v, '_pRightNode')
                            if l != NULL: walk(p.ev.store[l[1]], path + (0,)); walk(p.ev.store[r[1]], path + (1,)); return
                            t = full(d - len(path)) if GP.log(field(v, '_isEnabled')) == TRUE else 0
                        ol = m2(old, path)
                        if t & ~ol and not m2(X, path): raise Bad('for %s (%s) a cell is adjoined that does not meet the set' % (what, show2()))
                    def m2(mask, path):
                        for i, b in enumerate(path): mask = mask >> (1 << (d - i - 1)) if b else mask & ((1 << (1 << (d - i - 1))) - 1)
                        return mask
                    walk(p.trv[0], ())
            elif kind == 'boxq':
                if dim != 1: raise Unsupported('dimension')
                cell, o, g = tr[0]; d = G - len(g)
                if env['B'][0] == env['B'][1]: continue
                got = m.log(GP.log(p.value)); Sx = ev_set(env, expr(o, 'a'), d)
                nm = BOXQ[f.n]; want = m.boxq(nm, g, Sx, '')
                if p.word != c[k.index('w')]: raise Bad('for %s the path is not restored' % what)
                if nm == 'dis2':
                    a, b = m.span(g); lo, hi = env['B']
                    touch = any(x <= hi and lo <= x + 1 for x in range(a, b) if Sx >> (x - a) & 1)
                    if got and not want or not got and not touch: raise Bad('for %s (%s, box [%s,%s]) the answer is %s' % (what, show2(), lo, hi, got))
                elif got != want: raise Bad('for %s (%s, box [%s,%s]) the answer is %s, it should be %s' % (what, show2(), env['B'][0], env['B'][1], got, want))
            elif kind == 'box':
                if dim != 1: raise Unsupported('dimension')
                got = m.log(GP.log(p.value)); Sx = S(before[0]); lo, hi = env['B']
                if not got: continue
                on = [x for x in range(1 << G) if Sx >> x & 1]
                if f.n == 'covers': ok = 0 <= lo and hi <= 1 << G and all(any(x <= y <= x + 1 for x in on) for y in [lo, hi] + [Q(z, 2) for z in range(int(2 * lo), int(2 * hi) + 1) if lo <= Q(z, 2) <= hi])
                elif f.n == 'inside': ok = all(lo <= x and x + 1 <= hi for x in on)
                elif f.n == 'separated': ok = not any(x <= hi and lo <= x + 1 for x in on)
                else: ok = any(x <= hi and lo <= x + 1 for x in on)
                if not ok: raise Bad('for %s (%s, box [%s,%s]) the answer is true' % (what, show2(), lo, hi))
    return cnt


def one(x):
    (f, k, kind), n = x
    rule = 'paving:' + f.n
    tot = runs = 0; und = None; nu = 0
    try:
        for dim in ((1, 2) if kind in ('set', 'apx') else (1,)):
            for c in cases(f, k, kind, dim):
                try: tot += judge(f, k, kind, c, dim, n); runs += 1
                except (Unsupported, Budget, Undef, RecursionError) as e: und = und or '%s: %s' % (c, str(e)[:120]); nu += 1
                if nu > 50: raise Unsupported(und)
    except Bad as b: return Ob(rule, f.sig(), f.where, 'violated', str(b))
    except Exception as e: return Ob(rule, f.sig(), f.where, 'undecided', '%s %s' % (type(e).__name__, str(e)[:160]))
    if und: return Ob(rule, f.sig(), f.where, 'undecided', und)
    if tot < 2: return Ob(rule, f.sig(), f.where, 'undecided', 'only %d points' % tot)
    return Ob(rule, f.sig(), f.where, 'proved', '%d cases, %d assignments' % (runs, tot))


def decide(n):
    def go(tier):
        fs = functions()
        return pmap(one, [(f, n if tier == 'quick' else n * 20) for f in fs]), {"functions_analysed": len(fs), "functions_resolved": len(program().fns)}
    return go
