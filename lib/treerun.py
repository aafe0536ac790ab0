"""Binary subdivision trees by structural induction.  A tree is a leaf or a pair of subtrees; subtrees are opaque and denote
an arbitrary set of points; a recursive call on a subtree is replaced by its specification (the induction hypothesis) and
the result of every path is compared, as a set of points, with the set operation the function stands for."""
import random, itertools
from fractions import Fraction as Q
import prog, tus
from engine import *
from report import Ob, pmap
from realdom import *
from symcheck import Bad

BT = A + 'BinaryTreeNode'
IND = ('lit', 'indeterminate')
NULL = ('null',)
_P = {}


def program():
    if 'p' not in _P: _P['p'] = prog.load(tus.tus('geometry/binary_tree.cpp', 'geometry/grid_paving.cpp'))
    return _P['p']


# ------------------------------------------------------------------------------------------------ denotations
def full(d): return (1 << (1 << d)) - 1
def join2(a, b, d): return a | b << (1 << (d - 1))
def cellmask(path, d):
    if not path: return full(d)
    if d == 0: raise Unsupported('path deeper than the model')
    m = cellmask(path[1:], d - 1)
    return m << (1 << (d - 1)) if path[0] else m


def ev_set(env, e, d):
    k = e[0]
    if k == 'S':
        v, dd = env[e[1]]
        if dd != d: raise Unsupported('depth %s %s' % (dd, d))
        return v
    if k == 'all': return full(d)
    if k == 'none': return 0
    if k == 'node':
        if d == 0: raise Unsupported('tree deeper than the model')
        return join2(ev_set(env, e[1], d - 1), ev_set(env, e[2], d - 1), d)
    if k == 'half':
        v = ev_set(env, e[1], d + 1); w = 1 << d
        return v >> w if e[2] else v & ((1 << w) - 1)
    if k == 'and': return ev_set(env, e[1], d) & ev_set(env, e[2], d)
    if k == 'or': return ev_set(env, e[1], d) | ev_set(env, e[2], d)
    if k == 'diff': return ev_set(env, e[1], d) & ~ev_set(env, e[2], d)
    if k == 'path': return cellmask(e[1], d)
    if k == 'at':
        if not e[1]: return ev_set(env, e[2], d)
        m = ev_set(env, ('at', e[1][1:], e[2]), d - 1)
        return m << (1 << (d - 1)) if e[1][0] else m
    if k in ('minced', 'recomb'): return ev_set(env, e[1], d)
    raise Unsupported('set ' + str(e)[:60])


class TMod(Model):
    def log(s, v):
        if v[0] == 'tq':
            n, d = v[1], v[2]
            if n in ('leaf', 'on'): return s.free(v)
            if n == 'has': return ev_set(s.env, v[3], d) != 0
            if n == 'allon': return ev_set(s.env, v[3], d) == full(d)
            if n == 'in': return ev_set(s.env, ('path', v[4]), d) & ~ev_set(s.env, v[3], d) == 0
            if n == 'meet': return ev_set(s.env, v[3], d) & ev_set(s.env, v[4], d) != 0
            if n == 'sub': return ev_set(s.env, v[3], d) & ~ev_set(s.env, v[4], d) == 0
            if n == 'same': return s.free(('same', ) + tuple(sorted((repr(v[3]), repr(v[4])))))
        return Model.log(s, v)
    def free(s, k): return random.Random(repr((k, s.env.get('seed')))).random() < .5
    def _num(s, v):
        if v[0] == 'tnum':
            k = random.Random(repr((v, s.env.get('seed')))).randrange(0, 5)
            if v[1] != 'depth': k = k + 1 if ev_set(s.env, v[2], v[3]) else 0
            return Q(k)
        return Model._num(s, v)
    def consistent(s, facts):
        for f, d in facts:
            if f[0] == 'tq' and f[1] in ('leaf', 'on'):
                w = ev_set(s.env, f[3], f[2])
                if f[1] == 'leaf' and d and w not in (0, full(f[2])): return False
                if f[1] == 'on' and (w == full(f[2])) != d: return False
                continue
            if s.log(f) != d: return False
        return True


class TEv(Ev):
    def expand(s, lv):
        v = s.store.get(lv.cell)
        if v is not None and v[0] == 'tree' and lv.path:
            e, d = v[1], v[2]
            if s.fork(('tq', 'leaf', d, e)): n = mk_leaf(s.fork(('tq', 'on', d, e)))
            else: n = mk_node(s.cell(('tree', ('half', e, 0), d - 1)), s.cell(('tree', ('half', e, 1), d - 1)))
            s.store[lv.cell] = n
    def read(s, lv): s.expand(lv); return Ev.read(s, lv)
    def write(s, lv, x): s.expand(lv); return Ev.write(s, lv, x)


def mk_leaf(on): return ('rec', BT, (('_isEnabled', B(on)), ('_pLeftNode', NULL), ('_pRightNode', NULL)), None)
def mk_node(c1, c2): return ('rec', BT, (('_isEnabled', IND), ('_pLeftNode', ('ptr', c1, ())), ('_pRightNode', ('ptr', c2, ()))), None)


class Malformed(Exception): pass


def denote(ev, v, seen=None):
    """the set a stored tree stands for"""
    if v is None: raise Malformed('a node without value')
    if v[0] == 'tree': return v[1]
    if v[0] != 'rec' or v[1] != BT: raise Unsupported('node ' + show(v)[:80])
    on, l, r = GP.log(field(v, '_isEnabled')), field(v, '_pLeftNode'), field(v, '_pRightNode')
    if (l == NULL) != (r == NULL): raise Malformed('a node with one subtree only')
    if l == NULL:
        if on == IND: raise Malformed('a leaf that is neither enabled nor disabled')
        if on[0] != 'bool': raise Unsupported('flag ' + show(on)[:60])
        return ('all',) if on[1] else ('none',)
    if on != IND: raise Malformed('an inner node that is marked %s' % ('enabled' if on == TRUE else 'disabled' if on == FALSE else show(on)[:40]))
    es = []
    for x in (l, r):
        if x[0] != 'ptr': raise Unsupported('subtree ' + show(x)[:60])
        if seen is not None:
            if x[1] in seen: raise Malformed('a subtree that is shared')
            seen.append(x[1])
        es.append(denote(ev, Ev.read(ev, LV(x[1], x[2])), seen))
    return ('node', es[0], es[1])


def cells(ev, v):
    out = []
    if v is not None and v[0] == 'rec' and v[1] == BT:
        for f in ('_pLeftNode', '_pRightNode'):
            x = field(v, f)
            if x[0] == 'ptr': out += [x[1]] + cells(ev, ev.store.get(x[1]))
    return out


CUT = {'has_enabled', 'all_enabled', 'is_enabled', 'is_equal_nodes', 'operator==', 'restrict', 'remove', 'mince_node', 'recombine_node', 'depth', 'count_enabled_leaf_nodes', 'tree_to_binary_words', 'add_enabled', 'intersect', 'subset', 'restore_node', 'mince', 'recombine'}


class TPol(RPol):
    ev_class = TEv
    seqmore = ('BinaryWord',)
    max_paths = 4000
    forkloops = True
    def islogv(s, v): return v[0] == 'tq' or RPol.islogv(s, v)
    def isnumv(s, v): return v[0] == 'tnum' or RPol.isnumv(s, v)
    def nodeof(s, ev, a):
        """the place of a tree argument: a node, or a pointer to one"""
        v = ev.store.get(a.cell) if isinstance(a, LV) and not a.path else ev.rv(a)
        if v is not None and v[0] == 'ptr': a = LV(v[1], v[2]); v = ev.store.get(a.cell) if not a.path else ev.read(a)
        if v is not None and (v[0] == 'tree' or v[0] == 'rec' and v[1] == BT): return a, v
        return None
    def extra(s, ev, fn, this, args, node):
        n, rec = fn.n, fn.rec or ''
        ctor = fn.has('ctor')
        # three-valued flags
        if n in ('definitely', 'possibly', 'is_indeterminate') and len(args) == 1:
            v = s.log(ev.rv(args[0]))
            if v == IND: return ('term', B(n != 'definitely'))
            if v[0] == 'bool': return ('term', B(n != 'is_indeterminate' and v[1]))
            if s.islogv(v): return ('term', FALSE if n == 'is_indeterminate' else v)
        if not ctor and n in ('operator&&', 'operator||', 'operator==', 'operator!', 'operator!=') and fn.ret and islog(fn.ret):
            ar = ([ev.rv(this)] if this is not None and not fn.has('static') else []) + [ev.rv(a) for a in args]
            ls = [s.log(a) for a in ar]
            if any(l == IND for l in ls) and all(l == IND or l[0] == 'bool' for l in ls):
                bs = [l for l in ls if l != IND]
                if n == 'operator&&': return ('term', FALSE if FALSE in bs else IND)
                if n == 'operator||': return ('term', TRUE if TRUE in bs else IND)
                return ('term', IND)
            if n in ('operator==', 'operator!=') and len(ls) == 2 and all(l[0] == 'bool' for l in ls): return ('term', B((ls[0] == ls[1]) == (n == 'operator==')))
        if ctor and rec == BT and fn.has('copy') and args:
            x = s.nodeof(ev, args[0])
            if x and x[1][0] == 'tree': return ('term', x[1])
        if n in CUT and (rec == BT or any('BinaryTreeNode' in t for _, _, t in fn.params or [])):
            xs = [s.nodeof(ev, a) for a in ([this] if this is not None and not fn.has('static') and not any('BinaryTreeNode *' in t for _, _, t in fn.params) else []) + list(args)]
            nodes = [x for x in xs if x]
            if n == 'restore_node' and nodes:
                i, tr = ev.rv(args[1]), ev.rv(args[3])
                if i[0] == 'int' and tr[0] == 'arr' and i[1] < len(tr[1]) and tr[1][i[1]][0] == 'seg': return s.cut(ev, fn, n, nodes, this, args)
                return None
            if nodes and any(x[1][0] == 'tree' for x in nodes) and not (n == 'is_enabled' and not args) and not (n == 'add_enabled' and len(args) == 2 and this is not None and nodes[0][1][0] != 'tree' and not 'BinaryTreeNode *' in fn.params[0][2]):
                return s.cut(ev, fn, n, nodes, this, args)
        return None
    def cut(s, ev, fn, n, nodes, this, args):
        d = next((x[1][2] for x in nodes if x[1][0] == 'tree'), 2)
        es = [denote(ev, x[1]) for x in nodes]
        def put(e): ev.store[nodes[0][0].cell] = ('tree', e, d); return ('term', ('void',))
        word = [ev.rv(a) for a in args if ev.rv(a)[0] == 'arr']
        ints = [ev.rv(a) for a in args if ev.rv(a)[0] == 'int']
        def suffix():
            k = ints[0][1] if ints else 0
            return tuple(b[1] for b in word[0][1])[k:]
        for w in word[:1]:
            if n in ('is_enabled', 'add_enabled') and not all(b[0] == 'bool' for b in w[1]): raise Unsupported('symbolic path')
        q = lambda nm, *a: ('term', ('tq', nm, d) + a)
        if n == 'has_enabled': return q('has', es[0])
        if n == 'all_enabled': return q('allon', es[0])
        if n == 'is_enabled':
            k = suffix()
            return q('in', es[0], k)
        if n in ('is_equal_nodes', 'operator==') and len(es) == 2: return ('term', TRUE) if es[0] == es[1] else q('same', *es)
        if n == 'intersect' and len(es) == 2 and not word: return q('meet', *es)
        if n == 'subset' and len(es) == 2 and not word: return q('sub', *es)
        if n == 'restrict' and len(es) == 2: return put(('and', es[0], es[1]))
        if n == 'remove' and len(es) == 2: return put(('diff', es[0], es[1]))
        if n == 'add_enabled' and len(es) == 2 and not word: return put(('or', es[0], es[1]))
        if n == 'add_enabled' and len(es) == 2: return put(('or', es[0], ('at', tuple(b[1] for b in word[0][1]), es[1])))
        if n == 'add_enabled' and word: return put(('or', es[0], ('path', suffix())))
        if n in ('mince_node', 'mince') and ints: return put(('minced', es[0], ints[0][1]))
        if n in ('recombine_node', 'recombine'): return put(('recomb', es[0]))
        if n in ('depth', 'count_enabled_leaf_nodes'): return ('term', ('tnum', n, es[0], d))
        if n == 'tree_to_binary_words' and len(args) == 2:
            for a, t in zip(args, ('tree', 'leaves')): ev.write(a, ('arr', ev.rv(a)[1] + (('seg', t, es[0]),)))
            return ('term', ('void',))
        if n == 'restore_node':
            i, k = ev.rv(args[1]), ev.rv(args[2]); tr, lf = ev.rv(args[3])[1], ev.rv(args[4])[1]
            if i[0] != 'int' or k[0] != 'int' or i[1] >= len(tr): raise Malformed('a subtree restored from beyond the end')
            x, y = tr[i[1]], lf[k[1]] if k[1] < len(lf) else None
            if x[0] != 'seg' or y is None or y[0] != 'seg' or x[2] != y[2]: raise Malformed('a subtree restored from the wrong place')
            ev.write(args[2], I(k[1] + 1))
            return put(x[2])
        raise Unsupported('no hypothesis for ' + fn.q)


GP = TPol()


# ------------------------------------------------------------------------------------------------ specifications
def shapes(k): return ('T', 'F', 'N') if k else ()


def build(ev, sh, nm, D):
    if sh == 'T': return mk_leaf(True)
    if sh == 'F': return mk_leaf(False)
    return mk_node(ev.cell(('tree', ('S', nm + '0'), D - 1)), ev.cell(('tree', ('S', nm + '1'), D - 1)))


def expr(sh, nm): return {'T': ('all',), 'F': ('none',), 'N': ('node', ('S', nm + '0'), ('S', nm + '1'))}[sh]


def envs(names, D, n, rnd, depths={}):
    """sets denoted by the opaque subtrees: exhaustive where small"""
    ds = [depths.get(k[0], D) - 1 for k in names]
    ws = [1 << (1 << d) for d in ds]
    tot = 1
    for w in ws: tot *= w
    if tot <= n: it = itertools.product(*map(range, ws))
    else: it = ([rnd.choice([0, w - 1, rnd.randrange(w), rnd.randrange(w)]) for w in ws] for _ in range(n))
    for i, t in enumerate(it):
        e = {k: (v, d) for k, v, d in zip(names, t, ds)}; e['seed'] = i
        yield e


def unminced(v, ev, d, k=0):
    """an enabled leaf above depth d, or a subtree not split far enough"""
    if v[0] == 'tree':
        e = v[1]
        return e[0] != 'minced' and k < d or e[0] == 'minced' and k + e[2] < d
    l, r = field(v, '_pLeftNode'), field(v, '_pRightNode')
    if l == NULL: return GP.log(field(v, '_isEnabled')) == TRUE and k < d
    return any(unminced(ev.store[x[1]], ev, d, k + 1) for x in (l, r))


def unmerged(v, ev):
    if v[0] == 'tree': return v[1][0] != 'recomb'
    l, r = field(v, '_pLeftNode'), field(v, '_pRightNode')
    if l == NULL: return False
    a, b = (ev.store[x[1]] for x in (l, r))
    if all(x[0] == 'rec' and field(x, '_pLeftNode') == NULL for x in (a, b)) and GP.log(field(a, '_isEnabled')) == GP.log(field(b, '_isEnabled')): return True
    return any(x[0] == 'rec' and unmerged(x, ev) for x in (a, b))


W = [(), (0,), (1,), (0, 1), (1, 0), (1, 1)]
def bits(w): return ('arr', tuple(B(x) for x in w))


def cases(f):
    """(tree shapes, word, number) combinations a function is judged on"""
    kinds = []
    this = f.has('meth') and not f.has('static') and not f.has('ctor')
    for t in ([f.rec] if this else []) + [t for _, _, t in f.params]:
        b = bare(t)
        if b.rstrip('*').strip() == BT: kinds.append('t')
        elif b == A + 'BinaryWord': kinds.append('w')
        elif b in ('unsigned int', 'unsigned long'): kinds.append('n')
        elif b == 'bool' or 'Kleenean' in b: kinds.append('b')
        elif b == A + 'BinaryWord' or b.startswith('std::vector<bool'): kinds.append('w')
        else: return None, []
    if f.n in ('mince_node', 'restrict', 'remove', 'recombine_node') and this and kinds[:1] == ['t'] and kinds.count('t') > 1: kinds[0] = 'u'     # the object itself plays no part
    if f.n == 'add_enabled' and kinds[:3] == ['t', 't', 't']: kinds[0] = 'u'
    # trees written out as words: w = the tree's own words after k other entries, i/j = the positions, x/y = the output words
    if f.n == 'restore_node': kinds = ['u' if this else None, 'f', 'i', 'j', 'x', 'y'][0 if this else 1:]; return kinds, [tuple(z) for z in enc_cases(kinds)]
    if f.n == 'tree_to_binary_words': kinds = ['t', 'x', 'y']; return kinds, [(o, (k,), (k,)) for o in 'TFN' for k in (0, 2)]
    if f.n == 'BinaryTreeNode' and len(kinds) == 2: kinds = ['x', 'y']; return kinds, [((o, 0), (o, 0)) for o in 'TFN'] + [(('', 0), ('', 0))]
    opts = []
    for k in kinds:
        if k == 't': opts.append(['T', 'F', 'N'])
        elif k == 'u': opts.append(['F'])
        elif k == 'w': opts.append(W)
        elif k == 'n': opts.append([0, 1, 2])
        elif k == 'b': opts.append([True, False])
    return kinds, list(itertools.product(*opts))


def words(o, k):
    """the words of a tree of shape o (subtrees as segments), after k other entries"""
    t = [TRUE, FALSE][:k]; l = [FALSE, TRUE][:k]
    if o == 'N': t += [TRUE, ('seg', 'tree', ('S', 'a0')), ('seg', 'tree', ('S', 'a1'))]; l += [('seg', 'leaves', ('S', 'a0')), ('seg', 'leaves', ('S', 'a1'))]
    elif o: t += [FALSE]; l += [B(o == 'T')]
    return ('arr', tuple(t)), ('arr', tuple(l))
def enc_cases(kinds):
    for o in 'TFN':
        for k in (0, 2): yield [{'u': 'F', 'f': 'F', 'i': k, 'j': k, 'x': (o, k), 'y': (o, k)}[x] for x in kinds]


SPECS = {'has_enabled', 'all_enabled', 'is_enabled', 'is_disabled', 'is_leaf', 'is_equal_nodes', 'operator==', 'restrict', 'remove', 'mince_node', 'recombine_node', 'depth', 'count_enabled_leaf_nodes', 'add_enabled', 'intersect', 'subset', 'mince', 'recombine', 'split', 'make_leaf', 'set', 'set_enabled', 'set_disabled', 'copy_from', 'operator=', 'left_node', 'right_node', 'child_node', 'BinaryTreeNode', 'prepend_tree', 'restore_node', 'tree_to_binary_words'}


def functions():
    out = []
    for f in program().bodies():
        if f.params is not None and not f.rec and f.n in ('subset', 'intersect', 'locate_node') and 'BinaryTreeNode *' in f.params[0][2] and len(f.params) > 1: out.append(f); continue
        if f.rec != BT or f.has('dtor') or f.n not in SPECS or f.params is None: continue
        if f.n == 'BinaryTreeNode' and not f.has('copy') and not (len(f.params) == 1 and 'Kleenean' in f.params[0][2]) and len(f.params) != 2: continue
        out.append(f)
    return out


def judge(f, kinds, c, n):
    D = 3
    static = not (f.has('meth') and not f.has('static'))
    st = {}
    trees = []
    def setup(ev): st['ev'] = ev
    class P(TPol):
        pass
    pol = P()
    # a tree placed at a path is modelled that much shallower
    wl = next((len(o) for kd, o in zip(kinds, c) if kd == 'w'), 0)
    depths = {'a': D - wl} if f.n == 'prepend_tree' else {'b': D - wl} if f.n == 'add_enabled' and kinds.count('t') == 2 else {}
    inner = None
    if not f.rec and f.n != 'locate_node':
        # the tree that lives inside the cell at the path is the parameter after the path, or the one before the other tree
        inner = 1 if kinds[1] == 'w' else 0
        depths = {'ab'[inner]: D - wl}
    if f.n == 'prepend_tree' and not wl: return 0
    encoded = next((o[0] for kd, o in zip(kinds, c) if kd == 'x' and len(o) == 2), None)
    # arguments are laid out in the store of every run
    def values(ev):
        vals = []; trees.clear(); k = 0
        for kd, o in zip(kinds, c):
            if kd in 'tuf':
                nm = 'ab'[k] if kd == 't' else 'z'; k += kd == 't'
                vals.append(build(ev, o, nm, depths.get(nm, D))); trees.append((nm, o))
            elif kd in 'ij': vals.append(I(o))
            elif kd in 'xy': vals.append(words(*o)['xy'.index(kd)] if len(o) == 2 else words('', o[0])['xy'.index(kd)])
            elif kd == 'w': vals.append(bits(o))
            elif kd == 'n': vals.append(I(o))
            else: vals.append(B(o))
        return vals
    ps = run_trees(program(), f, pol, kinds, values, static)
    names = [nm + i for nm, o in trees for i in '01' if o == 'N'] + (['a0', 'a1'] if encoded == 'N' else [])
    tnames = [(nm, o) for nm, o in trees if nm != 'z']
    rnd = random.Random(3); cnt = 0
    E = [expr(o, nm) for nm, o in tnames]
    w = next((o for kd, o in zip(kinds, c) if kd == 'w'), ()); num = [o for kd, o in zip(kinds, c) if kd == 'n']; bl = [o for kd, o in zip(kinds, c) if kd == 'b']
    what = ', '.join(str({'T': 'enabled leaf', 'F': 'disabled leaf', 'N': 'inner node'}.get(o, o)) for kd, o in zip(kinds, c) if kd != 'u')
    nm = f.n
    for p, roots, before in ps:
        if p.kind == 'malformed': raise Bad('for %s: %s' % (what, p.value))
        m = None
        for env in envs(names, D, n, rnd, depths):
            m = TMod(env)
            if not m.consistent(p.facts): continue
            cnt += 1
            if p.kind == 'throw':
                if nm in ('set_enabled', 'set_disabled') and tnames[0][1] == 'N': continue
                raise Bad('for %s an exception is thrown' % what)
            S = lambda e: ev_set(env, e, D)
            sh = lambda: ', '.join('%s=%s' % (k, bin(v[0])[2:].zfill(1 << v[1])) for k, v in env.items() if k != 'seed')
            tv = [x for x, kd in zip(roots, kinds) if kd in 't']
            def unchanged(i):
                dd = depths.get(tnames[i][0], D)
                if ev_set(env, tv[i], dd) != ev_set(env, E[i], dd): raise Bad('for %s (%s) the %s tree is changed' % (what, sh(), ('first', 'second')[i]))
            def isset(e, want, msg):
                if S(e) != S(want): raise Bad('for %s (%s) the result is the set %s, it should be %s (%s)' % (what, sh(), bin(S(e))[2:].zfill(8), bin(S(want))[2:].zfill(8), msg))
            def isbool(want):
                g = m.log(GP.log(p.value))
                if g != want: raise Bad('for %s (%s) the answer is %s, it should be %s' % (what, sh(), g, want))
            if nm in ('has_enabled',): isbool(S(E[0]) != 0)
            elif nm == 'all_enabled': isbool(S(E[0]) == full(D))
            elif nm == 'is_enabled' and 'w' in kinds: isbool(S(('path', w[num[0] if num and num[0] <= len(w) else 0:])) & ~S(E[0]) == 0 if not num or num[0] <= len(w) else g_true(m, p))
            elif nm == 'is_enabled': isbool(tnames[0][1] == 'T')
            elif nm == 'is_disabled': isbool(tnames[0][1] == 'F')
            elif nm == 'is_leaf': isbool(tnames[0][1] != 'N')
            elif nm in ('is_equal_nodes', 'operator=='):
                a, b = tnames[0][1], tnames[1][1]
                isbool(a == b and (a != 'N' or all(m.log(('tq', 'same', D - 1, ('S', 'a' + i), ('S', 'b' + i))) for i in '01')))
            elif nm == 'restrict': isset(tv[0], ('and', E[0], E[1]), 'intersection'); unchanged(1)
            elif nm == 'remove': isset(tv[0], ('diff', E[0], E[1]), 'difference'); unchanged(1)
            elif nm == 'add_enabled' and len(E) == 2: isset(tv[0], ('or', E[0], ('at', tuple(w), E[1])), 'union'); unchanged(1)
            elif nm == 'add_enabled':
                if num and num[0] > len(w): continue
                isset(tv[0], ('or', E[0], ('path', tuple(w)[num[0] if num else 0:])), 'union with a cell')
            elif nm in ('mince_node', 'mince'):
                isset(tv[0], E[0], 'the same set')
            elif nm in ('recombine_node', 'recombine', 'split'): isset(tv[0], E[0], 'the same set')
            elif nm == 'depth':
                want = Q(0) if tnames[0][1] != 'N' else 1 + max(m.num(('tnum', nm, ('S', 'a' + i), D - 1)) for i in '01')
                if m.num(GP.num(p.value)) != want: raise Bad('for %s the depth is %s, it should be %s' % (what, m.num(GP.num(p.value)), want))
            elif nm == 'count_enabled_leaf_nodes':
                want = Q(tnames[0][1] == 'T') if tnames[0][1] != 'N' else sum(m.num(('tnum', nm, ('S', 'a' + i), D - 1)) for i in '01')
                if m.num(GP.num(p.value)) != want: raise Bad('for %s the number of enabled leaves is %s, it should be %s' % (what, m.num(GP.num(p.value)), want))
            elif inner is not None:
                X = [('at', tuple(w), e) if i == inner else e for i, e in enumerate(E)]
                isbool(S(X[0]) & S(X[1]) != 0 if nm == 'intersect' else S(X[0]) & ~S(X[1]) == 0)
            elif nm == 'locate_node':
                # the node at the path, or the leaf met before
                pos = p.root0; at = p.cells0; i = 0; tgt = p.value[1] if p.value[0] == 'ptr' else None
                while at != tgt:
                    nxt = field(pos, '_pRightNode' if i < len(w) and w[i] else '_pLeftNode') if pos[0] == 'rec' and i < len(w) else NULL
                    if nxt[0] != 'ptr': raise Bad('for %s the node found is not on the path' % what)
                    at = nxt[1]; pos = p.ev.store[at]; i += 1
                if i < len(w) and not (pos[0] == 'rec' and field(pos, '_pLeftNode') == NULL): raise Bad('for %s the search stops before the end of the path at a node that is no leaf' % what)
            elif nm == 'intersect': isbool(S(E[0]) & S(E[1]) != 0)
            elif nm == 'subset': isbool(S(E[0]) & ~S(E[1]) == 0)
            elif nm in ('make_leaf', 'set'): isset(tv[0], ('all',) if bl[0] else ('none',), 'the given leaf')
            elif nm in ('set_enabled', 'set_disabled'): isset(tv[0], ('all',) if nm == 'set_enabled' else ('none',), 'the given leaf')
            elif nm in ('copy_from', 'operator='): isset(tv[0], E[1], 'a copy'); unchanged(1)
            elif nm == 'BinaryTreeNode':
                e = p.denoted
                if encoded is not None: isset(e, expr(encoded, 'a') if encoded else ('none',), 'the tree that was written out')
                else: isset(e, E[0] if E else (('all',) if bl[0] else ('none',)), 'a copy' if E else 'a leaf')
            elif nm == 'restore_node':
                isset(roots[kinds.index('f')], expr(encoded, 'a'), 'the tree that was written out')
                k = c[kinds.index('i')]
                for q, want in (('i', k + (2 if encoded == 'N' else 0)), ('j', k + (2 if encoded == 'N' else 1))):
                    if p.final[kinds.index(q)] != I(want): raise Bad('for %s the position after reading is wrong' % what)
            elif nm == 'tree_to_binary_words':
                k = c[1][0]
                for q, j in (('x', 0), ('y', 1)):
                    if p.final[kinds.index(q)] != words(tnames[0][1], k)[j]: raise Bad('for %s the words written are %s, they should be %s' % (what, show(p.final[kinds.index(q)])[:90], show(words(tnames[0][1], k)[j])[:90]))
            elif nm in ('left_node', 'right_node', 'child_node'):
                if tnames[0][1] != 'N': continue
                e = p.denoted; i = {'left_node': '0', 'right_node': '1'}.get(nm) or ('1' if bl[0] else '0')
                if ev_set(env, e, D - 1) != ev_set(env, ('S', 'a' + i), D - 1): raise Bad('the wrong subtree is returned')
            elif nm == 'prepend_tree':
                isset(p.denoted, ('at', tuple(w), E[0]), 'the tree placed in the cell')
            else: raise Unsupported('no specification')
        if m is not None and p.kind == 'ret':
            ev = p.ev
            if nm in ('mince_node', 'mince') and unminced(p.root0, ev, num[0]): raise Bad('for %s an enabled leaf is left above the requested depth' % what)
            if nm in ('recombine_node', 'recombine') and unmerged(p.root0, ev):
                raise Bad('for %s two sibling leaves of equal value are left' % what)
            if nm in ('split', ) and field(p.root0, '_pLeftNode') == NULL: raise Bad('for %s the node is not split' % what)
    return cnt


def g_true(m, p): return m.log(GP.log(p.value))


def s_norm(v):
    if v is not None and v[0] == 'arr': return ('arr', tuple(GP.log(x) if x[0] != 'seg' else x for x in v[1]))
    return v


def run_trees(prg, f, pol, kinds, values, static):
    """paths of f with every tree argument in a cell of its own; pointers passed where pointers are wanted"""
    out = []; dec = []
    while True:
        ev = TEv(prg, pol, dec)
        p = Path(); p.ev = ev; p.denoted = None; p.root0 = None
        vals = values(ev)
        cs = [LV(ev.cell(v)) for v in vals]
        before = [cells(ev, v) for v in vals]
        ts = ([] if static or f.has('ctor') else [f.rec]) + [t for _, _, t in f.params]
        args = []
        for c, t in zip(cs, ts):
            b = t.strip()
            args.append(LV(ev.cell(('ptr', c.cell, ()))) if bare(b).endswith('*') else c)
        this = None
        if f.has('ctor'): this = LV(ev.cell(('rec', BT, (), None)))
        elif not static: this, args = args[0], args[1:]
        roots = [None] * len(cs)
        try:
            r = ev.invoke(f, this, args)
            p.kind = 'ret'; p.value = ev.rv(r) if not (isinstance(r, LV)) else None
            seen = []
            for i, (c, kd) in enumerate(zip(cs, kinds)):
                if kd in 'tuf': roots[i] = denote(ev, ev.store[c.cell], seen)
            p.final = [s_norm(ev.store.get(c.cell)) for c in cs]
            own = f.n in ('BinaryTreeNode',)
            if own: p.denoted = denote(ev, ev.store[this.cell], seen)
            if f.n in ('left_node', 'right_node', 'child_node') and p.value[0] == 'ptr': p.denoted = denote(ev, ev.store[p.value[1]])
            if f.n == 'prepend_tree' and p.value[0] == 'ptr': p.denoted = denote(ev, ev.store[p.value[1]])
            i0 = next((i for i, kd in enumerate(kinds) if kd == 't'), None)
            if i0 is not None: p.root0 = ev.store[cs[i0].cell]; p.cells0 = cs[i0].cell
            dead = set()
            for e in ev.effects:
                if e[0] == 'delete' and e[1][0] == 'ptr':
                    x = [e[1][1]] + cells(ev, ev.store.get(e[1][1]))
                    if any(y in dead for y in x): raise Malformed('a node is destroyed twice')
                    dead |= set(x)
            live = set(seen)
            if live & dead: raise Malformed('a destroyed subtree is still linked')
        except Throw as t: p.kind = 'throw'; p.value = t.v
        except Malformed as t: p.kind = 'malformed'; p.value = str(t)
        except Infeasible: p.kind = 'inf'
        p.facts = ev.facts
        if p.kind != 'inf': out.append((p, roots, before))
        if len(out) > pol.max_paths: raise Budget('paths')
        fl = dec[:ev.pos] + ev.new
        while fl and fl[-1] is False: fl.pop()
        if not fl: return out
        fl[-1] = False; dec = fl


def one(x):
    f, n = x
    rule = 'tree:' + f.n
    tot = 0; und = None
    try:
        kinds, cs = cases(f)
        if kinds is None: return Ob(rule, f.sig(), f.where, 'undecided', 'parameters')
        for c in cs:
            try: tot += judge(f, kinds, c, n)
            except (Unsupported, Budget, Undef) as e: und = '%s: %s' % (c, str(e)[:120])
    except Bad as b: return Ob(rule, f.sig(), f.where, 'violated', str(b))
    except Exception as e: return Ob(rule, f.sig(), f.where, 'undecided', '%s %s' % (type(e).__name__, str(e)[:120]))
    if und: return Ob(rule, f.sig(), f.where, 'undecided', und)
    if tot < 2: return Ob(rule, f.sig(), f.where, 'undecided', 'only %d points' % tot)
    return Ob(rule, f.sig(), f.where, 'proved', '%d shapes, %d assignments' % (len(cs), tot))


def decide(n):
    def go(tier):
        fs = functions()
        return pmap(one, [(f, n if tier == 'quick' else n * 20) for f in fs]), {"functions_analysed": len(fs), "functions_resolved": len(program().fns)}
    return go
