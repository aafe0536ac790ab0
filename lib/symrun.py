"""Symbolic expressions and formulae: one step of structural induction over the node kinds and operator codes.

A public function over expression trees is interpreted on a root node of known kind (and operator code) whose children
are opaque trees; recursive calls on opaque children are cut to the induction hypothesis.  The tree (or number, or
truth value) returned on each path is compared with the specification over sample values of the children that satisfy
the branch facts of that path."""
import re, math, itertools, random
import prog, tus
from engine import *
from fmodel import bare
from report import Ob, pmap

A = 'Ariadne::'
CODEQ = A + 'Operator::Code'
_SEP = re.compile(r'[<>,]')


def targs(t):
    """top-level template arguments of a type string"""
    i = t.find('<')
    if i < 0: return []
    d = 0; r = []; cur = ''
    for c in t[i:]:
        if c == '<':
            d += 1
            if d == 1: continue
        if c == '>':
            d -= 1
            if d == 0: break
        if c == ',' and d == 1: r.append(cur.strip()); cur = ''; continue
        cur += c
    if cur.strip(): r.append(cur.strip())
    return r


def is_tree(t): return bool(re.match(r'Ariadne::(Expression|Formula)<', t)) and not t.startswith(A + 'ExpressionNode')
def elem(t): return targs(t)[0]
NUMRE = re.compile(r'^Ariadne::(Real|Integer|Dyadic|Decimal|Rational|Natural|ExactDouble|ApproximateDouble|Number<.*>|ElementaryAlgebra<.*>|PositiveReal|Positive<.*>|Bounds<.*>|Float(DP|MP)|Approximation<.*>)$')
BUILTIN = ('int', 'unsigned int', 'unsigned long', 'long', 'double', 'bool', 'short', 'char')
def is_num(t):
    t = bare(t)
    return t in BUILTIN[:6] or bool(NUMRE.match(t))
def is_log(t): return bare(t) in (A + 'Kleenean', A + 'Boolean', A + 'ValidatedKleenean', A + 'NaiveKleenean', 'bool')


class Cat:
    """node kinds read off the program"""
    def __init__(s, p):
        s.p = p; s.codes = {}   # operator struct name -> code number
        s.codename = {v: n for n, v in p.enums.get(CODEQ, [])}
        for f in p.fns.values():
            if f.n == 'code' and f.rec and f.body is not None and f.has('static'):
                r = [x for x in prog.walk(f.body) if x and x[0] == 'enum']
                if len(r) == 1 and r[0][1].startswith(CODEQ + '::') and not f.rec.endswith('Tag'): s.codes[f.rec] = r[0][2]
        s.allops = set(s.codes)
        s.byname = {v: k for k, v in s.codes.items()}
    def node_type(s, tree):
        t = bare(tree)
        return (A + 'ExpressionNode<' if t.startswith(A + 'Expression<') else A + 'FormulaNode<') + elem(t) + '>'
    def alts(s, node):
        r = s.p.recs.get(node)
        if not r or not r["bases"]: raise Unsupported("node type " + node)
        return targs(r["bases"][0])
    def opcodes(s, ot):
        """operator structs an operator type can hold"""
        t = ot
        for _ in range(4):
            if t.startswith(A + 'OperatorVariant<'): return [x for x in targs(t)]
            if t in s.codes: return [t]
            r = s.p.recs.get(t)
            if not r or not r["bases"]: break
            t = r["bases"][0]
        raise Unsupported("operator type " + ot)
    def code(s, op): return ('enum', CODEQ + '::' + s.codename.get(s.codes[op], '?'), s.codes[op])


def unlog(v):
    """truth value held in a logical object"""
    if v[0] == 'rec' and is_log(v[1]) and len(v[2]) == 1 and v[2][0][0] == '_v' and v[2][0][1][0] in ('bool', 'ncmp', 'not', 'lop'): return v[2][0][1]
    return v


def short(t): return t.split('::')[-1]
def tree(ty, node): return ('rec', bare(ty), (('_root', ('shp', node)),), None)
def opq(ty, name): return tree(ty, ('opq', name, bare(ty)))
def root(v):
    while v[0] == 'rec' and not any(n == '_root' for n, x in v[2]) and v[3] is not None: v = v[3]
    if v[0] == 'rec':
        for n, x in v[2]:
            if n == '_root': return x[1] if x[0] == 'shp' else x
    if v[0] == 'fld': return None
    return None
def is_treeval(v): return v is not None and v[0] == 'rec' and root(v) is not None


def payload(cat, alt, mk, op=None):
    """symbolic contents of a node of the given alternative; mk(field) names the pieces"""
    if alt.startswith(A + 'Constant<'): return ('rec', alt, (('_name', ('cname', mk('name'))), ('_value', ('num', mk('val'), elem(alt)))), None)
    if alt.startswith(A + 'Variable<'): return ('variable', mk('var'), alt)
    if alt.startswith(A + 'Vector<'): return ('vecx', mk('vec'), elem(alt))
    if alt.startswith(A + 'IndexFormulaNode<'): return ('rec', alt, (('_op', ('rec', A + 'Var', (), None)), ('_ind', ('rec', A + 'Index', (('_i', ('coordsym', mk('ind'))),), None))), None)
    r = cat.p.recs.get(alt)
    if r is None: raise Unsupported("node alternative " + alt)
    fs = []
    for f, t, m in r["fields"]:
        t = bare(t)
        if f == '_op':
            if t in cat.codes and not cat.p.recs.get(t, {"bases": []})["bases"] or t in (A + 'Cnst', A + 'Var'): v = ('rec', t, (), None)
            else:
                c = cat.code(op) if op else ('opcode', mk('op'), t)
                v = ('rec', t, (('_code', c),), None)
        elif is_tree(t): v = opq(t, mk(f))
        elif t in ('int', 'unsigned long', 'unsigned int'): v = ('intsym', mk(f), t)
        else: v = ('num', mk(f), t)
        fs.append((f, v))
    return ('rec', alt, tuple(fs), None)


def node_of(cat, nt, alt, pl): return ('rec', nt, (), ('variant', alt, pl))


OPN = {'operator+': {1: 'pos', 2: 'add'}, 'operator-': {1: 'neg', 2: 'sub'}, 'operator*': {2: 'mul'}, 'operator/': {2: 'div'}}
NOPS = {'nul', 'pos', 'neg', 'sqr', 'hlf', 'rec', 'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'abs', 'add', 'sub', 'mul', 'div', 'max', 'min', 'pow', 'sgn', 'two', 'fma'}
CMP = {'operator==': 'eq', 'operator!=': 'neq', 'operator<': 'lt', 'operator>': 'gt', 'operator<=': 'leq', 'operator>=': 'geq'}
LOP = {'operator&&': 'and', 'operator||': 'or', 'operator!': 'not', 'conjunction': 'and', 'disjunction': 'or', 'negation': 'not'}


class SEv(Ev):
    def x_ilist(s, e, fr):
        t = bare(e[2])
        if t.startswith('std::initializer_list'): return ('arr', tuple(s.val(x, fr) for x in e[1]))
        return Ev.x_ilist(s, e, fr)
    def deref(s, v):
        if v[0] == 'shp': return s.pol.nodelv(s, v[1])
        return Ev.deref(s, v)


class SPol(Policy):
    max_paths = 4000
    max_depth = 80
    ev_class = SEv
    def __init__(s, cat, cut=None): s.cat = cat; s.prog = cat.p; s.cutfn = cut; s.log = []; s.entry = None
    # -- nodes
    def nodelv(s, ev, node):
        c = ('n', node)
        if c not in ev.store: ev.store[c] = node
        return LV(c)
    def node(s, ev, v):
        """the node value and its alternative/payload; forks over the alternatives of an opaque node"""
        while v[0] == 'rec' and not v[2] and v[3] is not None: v = v[3]
        if v[0] == 'variant': return v[1], v[2], v
        if v[0] == 'opq':
            nt = s.cat.node_type(v[2]); al = s.cat.alts(nt)
            for k, a in enumerate(al[:-1]):
                if ev.fork(('isalt', v, a)): return a, payload(s.cat, a, lambda f: (f, v[1])), v
            a = al[-1]
            for b in al[:-1]: pass
            return a, payload(s.cat, a, lambda f: (f, v[1])), v
        raise Unsupported("node " + show(v)[:60])
    def visit(s, ev, vis, arg, node):
        alt, pl, nv = s.node(ev, ev.rv(arg))
        v = ev.rv(vis) if isinstance(vis, LV) else vis
        if v[0] == 'lam':
            fns, env = ev.closures[v[1]]
            for f in fns:
                if f.body is not None and f.params and bare(f.params[0][2]) == alt: return ev.invoke(f, None, [pl], env)
            raise Unsupported("visitor for " + alt)
        t = v[1] if v[0] == 'rec' else v[2] if v[0] == 'sym' else None
        if t:
            for f in s.prog.find(n='operator()', rec=t):
                if f.params and bare(f.params[0][2]) == alt: return ev.invoke(f, vis if isinstance(vis, LV) else LV(ev.cell(v)), [pl])
        raise Unsupported("visitor object")
    def num(s, v):
        while v[0] == 'rec' and v[1].startswith(A + 'Constant<'): v = field(v, '_value')
        if v[0] == 'rec' and not v[2] and v[3] is not None: return s.num(v[3])
        return v
    def opstruct_code(s, ev, t):
        return s.cat.code(t) if t in s.cat.codes else None
    def call(s, ev, fn, this, args, node):
        q, n, rec = fn.tq, fn.n, fn.rec or ''
        rv = ev.rv
        if s.cutfn:
            r = s.cutfn(s, ev, fn, this, args)
            if r is not None: return r
        if q in ('std::visit',): 
            r = s.visit(ev, args[0], args[1], node); return r if isinstance(r, LV) else ('term', r)
        if q in ('std::get', 'std::get_if', 'std::holds_alternative'):
            a = args[0]; av = rv(a)
            if av[0] == 'ptr': av = ev.read(LV(av[1], av[2]))
            if av[0] == 'rec' or av[0] in ('opq', 'variant'):
                want = re.search(r'get(?:_if)?<|holds_alternative<', fn.q)
                ta = targs(fn.q[fn.q.index(n):])
                alt, pl, nv = s.node(ev, av)
                if ta and re.match(r'^\d+', ta[0]):
                    al = s.cat.alts(s.cat.node_type(nv[2])) if nv[0] == 'opq' else None
                    if al is None:
                        al = s.alts_of(nv, av, fn)
                    ok = al[int(re.match(r'\d+', ta[0]).group())] == alt
                else: ok = ta and ta[0] == alt
                if q == 'std::holds_alternative': return ('term', B(ok))
                if q == 'std::get':
                    if not ok: raise Throw(('bad_variant_access', alt, ta[0] if ta else ''))
                    return LV(ev.cell(pl))
                return ('term', ('ptr', ev.cell(pl), ()) if ok else ('null',))
            raise Unsupported(q)
        if rec.startswith('std::') and n == 'index' and 'variant' in rec:
            alt, pl, nv = s.node(ev, rv(this)); al = s.cat.alts(s.cat.node_type(nv[2])) if nv[0] == 'opq' else s.alts_of(nv, rv(this), fn)
            return ('term', I(al.index(alt)))
        if 'shared_ptr' in rec:
            if fn.has('ctor'):
                if not args: return ('term', ('null',))
                v = rv(args[0])
                if v[0] == 'ptr': return ('term', ('shp', ev.read(LV(v[1], v[2]))))
                if v[0] in ('shp', 'null'): return ('term', v)
                raise Unsupported("shared pointer from " + str(v[0]))
            v = rv(this)
            if n in ('operator*',): return s.nodelv(ev, v[1]) if v[0] == 'shp' else None
            if n in ('operator->', 'get'):
                if v[0] != 'shp': raise Unsupported("pointer " + str(v)[:60])
                return ('term', ('ptr', s.nodelv(ev, v[1]).cell, ()))
            if n == 'operator=': ev.write(this, rv(args[0])); return this
            if n == 'operator bool': return ('term', TRUE)
        if q == 'std::make_shared':
            t = targs(fn.q[fn.q.index('make_shared'):])[0]
            if len(args) == 1:
                v = rv(args[0])
                if 'Node<' in t and t.startswith((A + 'ExpressionNode<', A + 'FormulaNode<')):
                    if v[0] == 'rec' and v[1] == t: return ('term', ('shp', v))
                    alt = s.typeof(v)
                    return ('term', ('shp', node_of(s.cat, t, alt, v)))
            raise Unsupported("make_shared " + t)
        if fn.has('ctor'):
            if rec.startswith('std::variant<'):
                if len(args) == 1:
                    v = rv(args[0])
                    if v[0] == 'variant' or v[0] == 'rec' and v[3] is not None and v[3][0] == 'variant': return ('term', v)
                    return ('term', ('variant', s.typeof(v), v))
            if rec.startswith(A + 'Constant<'):
                if fn.has('copy') or fn.has('move'): return ('term', rv(args[0]))
                if len(args) == 1: return ('term', ('rec', rec, (('_name', ('str', '')), ('_value', s.num(rv(args[0])))), None))
                if len(args) == 2: return ('term', ('rec', rec, (('_name', rv(args[0])), ('_value', s.num(rv(args[1])))), None))
            if rec.startswith(A + 'Variable<'):
                v = rv(args[0]) if args else ('str', '')
                if v[0] == 'variable' or (v[0] == 'sym'): return ('term', v)
                if v[0] == 'vname': return ('term', ('variable', v[1], rec))
            if rec.startswith(A + 'IndexFormulaNode<'):
                v = rv(args[-1])
                if v[0] == 'rec' and v[1].startswith(A + 'IndexFormulaNode<'): return ('term', v)
                return ('term', ('rec', rec, (('_op', ('rec', A + 'Var', (), None)), ('_ind', v)), None))
            if is_log(rec) and len(args) == 1 and s.loglike(unlog(rv(args[0]))): return ('term', unlog(rv(args[0])))
            if is_num(rec):
                if not args: return ('term', I(0))
                v = s.num(rv(args[0]))
                if len(args) == 1 or (len(args) == 2 and len(fn.p) == 2): return ('term', v)
            if len(args) == 1 and s.is_opvariant(rec):
                v = rv(args[0]); t = v[1] if v[0] == 'rec' else None
                if v[0] == 'enum' or v[0] == 'opcode': return ('term', ('rec', rec, (('_code', v),), None))
                if t and s.is_opvariant(t): return ('term', ('rec', rec, (('_code', field(v, '_code')),), None))
                if t in s.cat.codes: return ('term', ('rec', rec, (('_code', s.cat.code(t)),), None))
            if rec in (A + 'Identifier', A + 'String') and len(args) == 1: return ('term', rv(args[0]))
            if rec.startswith('std::basic_string'): return ('term', rv(args[0]) if args else ('str', ''))
            if rec.startswith(A + 'Set<') or rec.startswith('std::set<'):
                if len(args) == 1:
                    v = rv(args[0])
                    return ('term', v if v[0] in ('set', 'sym') else ('set', v[1] if v[0] == 'arr' else (v,)))
        if rec.startswith(A + 'Constant<'):
            if n in ('value', 'val'): return ('term', field(rv(this), '_value'))
            if n == 'name': return ('term', field(rv(this), '_name'))
        if n == 'name' and (rec.startswith(A + 'Variable<') or rec == A + 'UntypedVariable'): 
            v = rv(this)
            if v[0] in ('variable', 'sym'): return ('term', ('vname', v[1]))
        if n in ('operator<', 'operator<=>', 'compare', 'operator>'):
            vs = ([rv(this)] if this is not None else []) + [rv(a) for a in args]
            if len(vs) == 2 and all(v[0] in ('variable', 'vname', 'cname') for v in vs):
                a, b = [('vname', v[1]) if v[0] == 'variable' else v for v in vs]
                if n == 'operator<': return ('term', ev.norm(('bin', '<', a, b)))
                if n == 'operator>': return ('term', ev.norm(('bin', '<', b, a)))
                return ('term', ('strcmp', a, b))
            if len(vs) == 2 and vs[0][0] == 'strcmp' and vs[1] == I(0): return ('term', ev.norm(('bin', '<', vs[0][1], vs[0][2]) if n == 'operator<' else ('bin', '<', vs[0][2], vs[0][1])))
            if len(vs) == 2 and vs[0][0] == 'strcmp' and n in ('operator<', 'operator>'): return ('term', ev.norm(('bin', '<', vs[0][1], vs[0][2]) if n == 'operator<' else ('bin', '<', vs[0][2], vs[0][1])))
        if n in ('operator==', 'operator!='):
            vs = ([rv(this)] if this is not None else []) + [rv(a) for a in args]
            if len(vs) == 2 and all(v[0] in ('variable', 'vname', 'str', 'cname', 'coordsym') or (v[0] == 'sym' and 'Variable<' in str(v[2])) for v in vs):
                a, b = [('vname', v[1]) if v[0] in ('variable', 'sym') else v for v in vs]
                t = ev.norm(('bin', '==', a, b))
                return ('term', t if n == 'operator==' else ev.norm(('un', '!', t)))
        if n == 'contains' and this is not None:
            v = rv(this); x = rv(args[0])
            if x[0] == 'rec' and x[1] == A + 'Index': x = field(x, '_i')
            if v[0] == 'set':
                t = FALSE
                key = lambda z: ('vname', z[1]) if z[0] in ('variable', 'sym') else z
                for y in v[1]:
                    if ev.fork(('bin', '==') + tuple(sorted((key(x), key(y)), key=repr)) if key(x) != key(y) else TRUE): return ('term', TRUE)
                return ('term', FALSE)
            return ('term', ('app', 'contains', v, x))
        tv = rv(this) if this is not None and not fn.has('ctor') else None
        if tv is not None and tv[0] in ('point', 'space', 'evcache', 'exprset', 'varset'):
            r = s.container(ev, fn, tv, [rv(a) for a in args])
            if r is not None: return r
        if n == 'insert' and len(args) == 3 and rv(args[0])[0] == 'evcache': return ('term', rv(args[2]))
        if n in ('operator==', 'operator!=') or (n == 'operator*' and this is not None):
            vs = ([rv(this)] if this is not None else []) + [rv(a) for a in args]
            if vs[0][0] == 'setit':
                if n == 'operator*': return ('term', vs[0][1])
                if len(vs) == 2 and vs[1][0] == 'setend':
                    t = ('found', root(vs[0][1]))
                    return ('term', t if n == 'operator!=' else ev.norm(('un', '!', t)))
        if n == 'make_constant' and len(args) == 2 and rv(args[1])[0] == 'point' and s.numlike(s.num(rv(args[0]))): return ('term', s.num(rv(args[0])))
        if n == 'check' and tv is not None and s.loglike(unlog(tv)): return ('term', unlog(tv))
        # numbers
        if n in ('decide', 'definitely', 'possibly', 'probably') and len(args) in (1, 2):
            v = unlog(rv(args[0]))
            return ('term', v if v[0] in ('bool', 'not', 'ncmp', 'and', 'or') else ('app', n, v))
        if n == 'same' and len(args) == 2 and not is_treeval(rv(args[0])):
            a, b = s.num(rv(args[0])), s.num(rv(args[1]))
            if s.numlike(a) and s.numlike(b): return ('term', s.ncmp(ev, 'eq', a, b))
        ar = ([rv(this)] if this is not None and not fn.has('static') and not fn.has('ctor') else []) + [rv(a) for a in args]
        if ar and not any(is_treeval(a) for a in ar):
            nm = OPN.get(n, {}).get(len(ar)) or (n if n in NOPS else None)
            ns = [s.num(a) for a in ar]
            if nm and all(s.numlike(a) for a in ns) and is_num(fn.ret): return ('term', ('nop', nm) + tuple(ns))
            if n in CMP and len(ns) == 2 and all(s.numlike(a) for a in ns) and not any(a[0] in ('enum', 'opcode') for a in ns): return ('term', s.ncmp(ev, CMP[n], *ns))
            ls = [unlog(a) for a in ns]
            if n in LOP and all(s.loglike(a) for a in ls): return ('term', ('lop', LOP[n]) + tuple(ls))
            if n in ('operator==', 'operator!=') and len(ls) == 2 and all(s.loglike(a) for a in ls) and fn.ret and is_log(fn.ret):
                t = ('lop', 'eqv') + tuple(ls)
                return ('term', t if n == 'operator==' else ('lop', 'not', t))
            if n == 'sgn' and len(ns) == 1 and s.numlike(ns[0]): return ('term', ('nop', 'sgn') + tuple(ns))
        if n.startswith('operator ') and this is not None:
            v = s.num(rv(this))
            if s.numlike(v) and is_num(fn.ret): return ('term', v)
        if n == 'operator=' and this is not None and is_num(rec): ev.write(this, s.num(rv(args[0]))); return this
        if rec.startswith('std::basic_ostream') or 'ostream' in fn.ret: return ('term', ('ostream',))
        if rec.startswith('std::basic_string') or q.startswith('std::operator'):
            return ('term', ('app', 'str', n) + tuple(rv(a) for a in args))
        if n == 'abort' or fn.has('noret'): raise Throw(('abort',))
        return None
    def container(s, ev, fn, tv, args):
        """points, index maps, caches and sets of expressions"""
        n = fn.n; k = tv[0]
        if k == 'point' and n in ('operator[]', 'get', 'at'):
            x = args[0]
            while x[0] in ('cast', 'icast'): x = x[-1]
            if x[0] == 'rec' and x[1] == A + 'Index': x = field(x, '_i')
            el = targs(tv[1])
            ty = el[1] if tv[1].startswith(A + 'Map<') else el[0]
            if x[0] in ('vname', 'variable'): return ('term', ('coord', ('vname', x[1]), ty))
            return ('term', ('coord', ('idx', x), ty))
        if k == 'space' and n in ('operator[]', 'get', 'at') and args[0][0] == 'vname': return ('term', ('spc', args[0]))
        if k == 'evcache':
            if n == 'has_key' and args[0][0] == 'ptr': return ('term', ('haskey', ptrnode(args[0])))
            if n in ('get', 'operator[]') and args[0][0] == 'ptr':
                X = ptrnode(args[0])
                rt = bare(fn.ret)
                if is_tree(rt): return ('term', tree(rt, ('sameas', X)))
                return ('term', ('val', X))
        if k == 'exprset':
            if n == 'find' and is_treeval(args[0]): return ('term', ('setit', args[0]))
            if n == 'end': return ('term', ('setend',))
            if n == 'insert': return ('term', ('void',))
        if k == 'varset' and n == 'contains':
            x = args[0]
            if x[0] == 'rec' and x[1] == A + 'Index': x = field(x, '_i')
            return ('term', ('app', 'contains', tv, x))
        return None
    def alts_of(s, nv, av, fn):
        t = None
        while av[0] == 'rec':
            if 'Node<' in av[1]: t = av[1]; break
            av = av[3]
        if t: return s.cat.alts(t)
        for p in fn.p:
            m = re.search(r'std::variant<.*>', p)
            if m: return targs(m.group())
        m = re.match(r'std::variant<.*>', fn.rec or '')
        if m: return targs(m.group())
        raise Unsupported("variant alternatives")
    def typeof(s, v):
        if v[0] == 'rec': return v[1]
        if v[0] == 'variable': return v[2]
        if v[0] == 'vecx': return A + 'Vector<' + v[2] + '>'
        raise Unsupported("payload " + str(v)[:60])
    def is_opvariant(s, t):
        for _ in range(3):
            if t.startswith(A + 'OperatorVariant<'): return True
            r = s.prog.recs.get(t)
            if not r or not r["bases"]: return False
            t = r["bases"][0]
        return t.startswith(A + 'OperatorVariant<')
    def numlike(s, v): return v[0] in ('int', 'flt', 'num', 'nop', 'val', 'coord', 'intsym', 'gnum') or (v[0] == 'bool')
    def loglike(s, v): return v[0] in ('bool', 'lop', 'ncmp', 'not', 'lval') or (v[0] == 'num' and is_log(v[2])) or (v[0] == 'val' and is_log(elem(v[1][2]))) or (v[0] == 'coord' and is_log(v[2])) or (v[0] == 'nop' and v[1] == 'sgn')
    def ncmp(s, ev, op, a, b):
        if op == 'neq': return ev.norm(('un', '!', s.ncmp(ev, 'eq', a, b)))
        if op == 'gt': return s.ncmp(ev, 'lt', b, a)
        if op == 'geq': return s.ncmp(ev, 'leq', b, a)
        if op == 'leq': return ev.norm(('un', '!', s.ncmp(ev, 'lt', b, a)))
        if a[0] == b[0] == 'int': return B(a[1] == b[1] if op == 'eq' else a[1] < b[1])
        if op == 'eq':
            if a == b: return TRUE
            if repr(b) < repr(a): a, b = b, a
        return ('ncmp', op, a, b)
    def decide(s, ev, c):
        # exclusive facts about node kinds and operator codes
        if c[0] == 'isalt':
            pos = [f for f, d in ev.facts if f[0] == 'isalt' and f[1] == c[1] and d]
            if pos: return pos[0][2] == c[2]
            neg = {f[2] for f, d in ev.facts if f[0] == 'isalt' and f[1] == c[1] and not d}
            al = s.cat.alts(s.cat.node_type(c[1][2]))
            if len([a for a in al if a not in neg]) == 1: return True
        if c[0] == 'bin' and c[1] == '==' and (c[2][0] == 'opcode' or c[3][0] == 'opcode'):
            o, k = (c[2], c[3]) if c[2][0] == 'opcode' else (c[3], c[2])
            if k[0] in ('enum', 'int'):
                poss = s.opposs(ev.facts, o)
                n = int(k[-1])
                if n not in poss: return False
                if poss == {n}: return True
        return None
    def opposs(s, facts, o):
        poss = {s.cat.codes[x] for x in s.cat.opcodes(o[2])}
        for f, d in facts:
            if f[0] == 'bin' and f[1] == '==' and o in (f[2], f[3]):
                k = f[3] if f[2] == o else f[2]
                if k[0] in ('enum', 'int'): poss = poss & {int(k[-1])} if d else poss - {int(k[-1])}
        return poss


# ---------------------------------------------------------------- semantics
def _safe(f):
    def g(*a):
        if any(x is None for x in a): return None
        try: r = f(*a)
        except (ValueError, ZeroDivisionError, OverflowError): return None
        if isinstance(r, complex) or r != r or r in (math.inf, -math.inf): return None
        return r
    return g


def _pow(a, n):
    if n < 0 and a == 0: raise ZeroDivisionError
    return float(a) ** int(n)


def _tan(x):
    if abs(math.cos(x)) < 1e-9: raise ValueError
    return math.tan(x)


SEM = {k: _safe(f) for k, f in {
    'nul': lambda a: 0.0, 'pos': lambda a: a, 'neg': lambda a: -a, 'sqr': lambda a: a * a, 'hlf': lambda a: a / 2, 'rec': lambda a: 1 / a, 'sqrt': math.sqrt, 'exp': math.exp, 'log': math.log,
    'sin': math.sin, 'cos': math.cos, 'tan': _tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'abs': abs, 'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
    'div': lambda a, b: a / b, 'max': max, 'min': min, 'pow': _pow, 'fma': lambda a, b, c: a * b + c, 'two': lambda a: a}.items()}
K3 = {'eqv': lambda a, b: 'I' if 'I' in (a, b) else 'T' if a == b else 'F', 'not': lambda a: {'T': 'F', 'F': 'T', 'I': 'I'}[a], 'and': lambda a, b: 'F' if 'F' in (a, b) else 'T' if a == b == 'T' else 'I', 'or': lambda a, b: 'T' if 'T' in (a, b) else 'F' if a == b == 'F' else 'I'}
def _cmp(op, a, b):
    if a is None or b is None: return None
    r = {'eq': a == b, 'neq': a != b, 'lt': a < b, 'gt': a > b, 'leq': a <= b, 'geq': a >= b}[op]
    return 'T' if r else 'F'
CMPN = {'Less': 'lt', 'Gtr': 'gt', 'Leq': 'leq', 'Geq': 'geq', 'Equal': 'eq', 'Unequal': 'neq'}
LOPN = {'AndOp': 'and', 'OrOp': 'or', 'NotOp': 'not'}
def opsem(op, args):
    """meaning of an operator struct"""
    if op in CMPN: return _cmp(CMPN[op], *args)
    if op in LOPN: return None if None in args else K3[LOPN[op]](*args)
    if op == 'Sgn': return None if args[0] is None else ('T' if args[0] > 0 else 'F' if args[0] < 0 else 'I')
    if op.lower() in SEM: return SEM[op.lower()](*args)
    raise Unsupported("meaning of " + op)


def dsem(op, xs, ds):
    """derivative of op at xs along ds; None where it does not exist"""
    M = SEM
    def mul(a, b): return M['mul'](a, b)
    if None in xs or None in ds or opsem(op, xs) is None: return None
    a = xs[0]; d = ds[0]
    if op == 'Nul': return 0.0
    if op == 'Pos': return d
    if op == 'Neg': return -d
    if op == 'Hlf': return d / 2
    if op == 'Sqr': return 2 * a * d
    if op == 'Rec': return mul(M['div'](-1.0, a * a), d)
    if op == 'Sqrt': return M['div'](d, 2 * math.sqrt(a))
    if op == 'Exp': return mul(M['exp'](a), d)
    if op == 'Log': return M['div'](d, a)
    if op == 'Sin': return math.cos(a) * d
    if op == 'Cos': return -math.sin(a) * d
    if op == 'Tan': return M['div'](d, math.cos(a) ** 2)
    if op == 'Asin': return M['div'](d, M['sqrt'](1 - a * a))
    if op == 'Acos': return M['div'](-d, M['sqrt'](1 - a * a))
    if op == 'Atan': return d / (1 + a * a)
    if op == 'Abs': return None if a == 0 else d if a > 0 else -d
    if op == 'Add': return d + ds[1]
    if op == 'Sub': return d - ds[1]
    if op == 'Mul': return d * xs[1] + a * ds[1]
    if op == 'Div': return M['div'](d * xs[1] - a * ds[1], xs[1] ** 2)
    if op == 'Max': return None if a == xs[1] else d if a > xs[1] else ds[1]
    if op == 'Min': return None if a == xs[1] else d if a < xs[1] else ds[1]
    if op == 'Get': raise Unsupported('derivative of a component')
    if op == 'Pow':
        n = xs[1]
        return 0.0 if n == 0 else mul(mul(float(n), M['pow'](a, n - 1)), d)
    raise Unsupported("derivative of " + op)


class Reject(Exception): pass
SPECIAL = [0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 3.0, -2.0, 0.0, 1.0]


class Model:
    """one assignment of values to everything the run left open"""
    def __init__(s, pol, facts, rng, generic):
        s.pol = pol; s.cat = pol.cat; s.facts = facts; s.rng = rng; s.generic = generic; s.env = {}; s.altpos = {}; s.altneg = {}; s.names = set(); s.alias = {}
        for f, d in facts:
            if f[0] == 'isalt':
                (s.altpos.__setitem__(f[1][1], f[2]) if d else s.altneg.setdefault(f[1][1], set()).add(f[2])); s.names.add(f[1])
            elif d and f[0] in ('ncmp', 'bin') and f[1] in ('eq', '=='):
                for a, b in ((f[2], f[3]), (f[3], f[2])):
                    if b[0] == 'int':
                        if a[0] == 'num': s.env[('n', a[1])] = float(b[1])
                        if a[0] == 'intsym': s.env[('i', a[1])] = b[1]
            elif d and f[0] == 'ident' and f[1][0] == f[2][0] == 'opq':
                a, b = s.rep(strip_s(f[1][1])), s.rep(strip_s(f[2][1]))
                if a != b: s.alias[max(a, b, key=repr)] = min(a, b, key=repr)
    def pick(s, key, kind='num'):
        if key not in s.env:
            r = s.rng
            if kind == 'int': v = r.choice([-8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9])
            elif kind == 'idx': v = r.choice([0, 1, 2])
            elif kind == 'log': v = r.choice('TFI')
            elif kind == 'bool': v = r.choice('TF')
            elif kind == 'Integer': v = float(r.choice([-3, -2, -1, 0, 1, 2, 3]))
            else: v = r.uniform(-2.5, 2.5) if s.generic and r.random() < .8 else r.uniform(-.95, .95) if s.generic else r.choice(SPECIAL)
            s.env[key] = v
        return s.env[key]
    def rep(s, n):
        while n in s.alias: n = s.alias[n]
        return n
    def kind(s, ty):
        e = elem(ty) if '<' in ty and is_tree(ty) else ty
        return 'log' if e == A + 'Kleenean' else 'bool' if e == A + 'Boolean' else 'Integer' if e == A + 'Integer' else 'num'
    def alt(s, X):
        """alternative of an opaque node when the facts constrain it"""
        nm = X[1]
        if nm in s.altpos: return s.altpos[nm]
        if nm in s.altneg:
            al = [a for a in s.cat.alts(s.cat.node_type(X[2])) if a not in s.altneg[nm] and not a.startswith(A + 'Vector<') and 'OperatorVariant<Ariadne::Get>' not in a]
            if not al: raise Reject
            k = ('alt', nm)
            if k not in s.env: s.env[k] = s.rng.choice(al)
            return s.env[k]
        return None
    def structured(s, X):
        r = []
        base = X[1]
        while isinstance(base, tuple) and base[0] == 'S': base = base[1]
        cands = [X] + sorted({f for f in s.names if f[2] == X[2] and strip_s(f[1]) == base and f != X}, key=repr)
        return [c for c in cands if s.alt(c) is not None], base
    def nodeval(s, node):
        while node[0] == 'rec' and not node[2] and node[3] is not None: node = node[3]
        if node[0] == 'sameas': return s.nodeval(node[1])
        if node[0] == 'compof': return s.comp(node[1], s.numval(node[2]))
        if node[0] == 'variant': return s.payval(node[1], node[2])
        if node[0] == 'opq':
            st, base = s.structured(node)
            if st:
                vs = [s.payval(s.alt(c), payload(s.cat, s.alt(c), lambda f, c=c: (f, c[1]))) for c in st]
                for v in vs[1:]:
                    if not close(v, vs[0]): raise Reject
                return vs[0]
            if isinstance(base, tuple) and base[0] == 'IND':
                w = s.nodeval(('opq', base[1], base[3]))
                if w is None: return None
                mag = abs(s.pick(('mag', base[1]))) + .01
                return 0.0 if w == 'I' else mag if (w == 'T') == (base[2] == 'POSITIVE') else -mag
            return s.pick(('v', s.rep(base)), s.kind(node[2]))
        raise Unsupported("value of node " + str(node)[:60])
    def treeval(s, v):
        r = root(v)
        if r is None: raise Unsupported("tree " + show(v)[:80])
        return s.nodeval(r)
    def payval(s, alt, pl):
        if alt.startswith(A + 'Constant<'): return s.numval(field(pl, '_value'))
        if alt.startswith(A + 'Variable<'): return s.var(pl, alt)
        if alt.startswith(A + 'IndexFormulaNode<') or alt.startswith(A + 'Symbolic<Ariadne::Var'):
            i = field(field(pl, '_ind'), '_i')
            while i[0] in ('cast', 'icast'): i = i[-1]
            return s.pick(('x', s.varkey(i[1]))) if i[0] == 'spc' else s.pick(('x', s.numval(i)))
        if alt.startswith(A + 'Symbolic<Ariadne::Cnst'): return s.numval(field(pl, '_val'))
        op, args = s.parts(alt, pl)
        if op == 'Get': return s.comp(root(args[0]), s.numval(args[1]))
        return opsem(op, [s.any(a) for a in args])
    def comp(s, node, i):
        """component of a vector-valued tree"""
        while node[0] == 'rec' and not node[2] and node[3] is not None: node = node[3]
        if node[0] == 'opq':
            st, base = s.structured(node)
            if st:
                vs = [s.compay(s.alt(c), payload(s.cat, s.alt(c), lambda f, c=c: (f, c[1])), i) for c in st]
                for v in vs[1:]:
                    if not close(v, vs[0]): raise Reject
                return vs[0]
            return s.pick(('vc', s.rep(base), i))
        if node[0] == 'variant': return s.compay(node[1], node[2], i)
        if node[0] == 'sameas': return s.comp(node[1], i)
        raise Unsupported("component of " + str(node)[:60])
    def compay(s, alt, pl, i):
        if alt.startswith(A + 'Constant<'): return s.pick(('nc', repr(field(pl, '_value')), i))
        if alt.startswith(A + 'Variable<'): return s.pick(('x', s.varkey(pl), i))
        if alt.startswith(A + 'Vector<'): return s.pick(('vx', pl[1], i))
        op, args = s.parts(alt, pl)
        return opsem(op, [s.comp(root(a), i) if 'Vector<' in a[1] else s.any(a) for a in args])
    def parts(s, alt, pl):
        op = s.opname(field(pl, '_op'))
        fs = [f for f, t, m in s.cat.p.recs[alt]["fields"] if f != '_op']
        return op, [field(pl, f) for f in fs]
    def opname(s, o):
        if o[0] == 'rec' and o[1] in s.cat.codes and not s.pol.is_opvariant(o[1]): return short(o[1])
        c = field(o, '_code')
        if c[0] == 'opcode':
            k = ('code', c[1])
            if k not in s.env:
                s.env[k] = s.rng.choice(sorted(s.pol.opposs(s.facts, c)) or [None])
                if s.env[k] is None: raise Reject
            n = s.env[k]; ot = c[2]
        elif c[0] in ('enum', 'int'): n = c[-1]; ot = o[1]
        else: raise Unsupported("operator code " + str(c)[:60])
        for x in s.cat.opcodes(ot):
            if s.cat.codes.get(x) == n: return short(x)
        raise Unsupported("operator code %s not in %s" % (n, ot))
    def any(s, v):
        if is_treeval(v): return s.treeval(v)
        return s.numval(v)
    def var(s, v, ty=None):
        k = s.varkey(v)
        return s.pick(('x', k), s.kind(targs(ty)[0]) if ty else 'num')
    def varkey(s, v):
        """identity of a variable: distinct symbols are distinct variables unless a fact equates them"""
        n = v[1] if v[0] in ('variable', 'vname', 'sym') else v
        seen = {n}; todo = [n]
        while todo:
            x = todo.pop()
            for f, d in s.facts:
                if d and f[0] == 'bin' and f[1] == '==' and f[2][0] == f[3][0] == 'vname':
                    p = (f[2][1], f[3][1])
                    if x in p:
                        for y in p:
                            if y not in seen: seen.add(y); todo.append(y)
        return min(seen, key=repr)
    def numval(s, v):
        v = unlog(v); k = v[0]
        if k == 'int': return v[1]
        if k == 'flt': return float(v[1])
        if k == 'bool': return 'T' if v[1] else 'F'
        if k == 'num': return s.pick(('n', v[1]), s.kind(v[2]))
        if k == 'intsym': return s.pick(('i', v[1]), 'idx' if v[2].startswith('unsigned') else 'int')
        if k == 'coordsym': return s.pick(('c', v[1]), 'idx')
        if k == 'nop':
            if v[1] == 'sgn': return opsem('Sgn', [s.numval(v[2])])
            return SEM[v[1]](*[s.any(x) for x in v[2:]])
        if k == 'ncmp': return _cmp(v[1], s.any(v[2]), s.any(v[3]))
        if k == 'not':
            x = s.any(v[1]); return None if x is None else K3['not'](x)
        if k == 'lop':
            xs = [s.any(x) for x in v[2:]]; return None if None in xs else K3[v[1]](*xs)
        if k == 'val': return s.nodeval(v[1])
        if k == 'coord': return s.pick(('x', s.varkey(v[1])), s.kind(v[2])) if v[1][0] != 'idx' else s.pick(('x', s.numval(v[1][1])))
        if k == 'rec' and v[1].startswith(A + 'Constant<'): return s.numval(field(v, '_value'))
        if k == 'rec' and v[1] == A + 'Index': return s.numval(field(v, '_i'))
        if k == 'icast' or k == 'cast': return s.numval(v[-1])
        if k == 'bin' and v[1] in '+-*':
            a, b = s.numval(v[2]), s.numval(v[3]); return a + b if v[1] == '+' else a - b if v[1] == '-' else a * b
        if k == 'bin' and v[1] in ('/', '%', '&', '|', '^', '<<', '>>'):
            a, b = s.numval(v[2]), s.numval(v[3])
            if not isinstance(a, int) or not isinstance(b, int): raise Unsupported("number " + show(v)[:80])
            if v[1] in ('/', '%'):
                if b == 0: raise Reject
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1); return q if v[1] == '/' else a - b * q
            if v[1] in ('<<', '>>') and not 0 <= b < 64: raise Reject
            return {'&': a & b, '|': a | b, '^': a ^ b, '<<': a << max(b, 0), '>>': a >> max(b, 0)}[v[1]]
        if k == 'bin' and v[1] in ('==', '<'): return 'T' if (s.numval(v[2]) == s.numval(v[3]) if v[1] == '==' else s.numval(v[2]) < s.numval(v[3])) else 'F'
        if k == 'un' and v[1] == '-': return -s.numval(v[2])
        if k == 'un' and v[1] == '~': return ~s.numval(v[2])
        raise Unsupported("number " + show(v)[:80])
    def consistent(s):
        for f, d in s.facts:
            k = f[0]
            if k == 'isalt': continue
            if k == 'ncmp':
                v = s.numval(f)
                if v is None or (v == 'T') != d: return False
            elif k == 'bin' and f[1] in ('==', '<'):
                a, b = f[2], f[3]
                if 'opcode' in (a[0], b[0]):
                    x = [s.opcodeval(y) for y in (a, b)]
                    if (x[0] == x[1] if f[1] == '==' else x[0] < x[1]) != d: return False
                elif a[0] == b[0] == 'vname':
                    if f[1] == '==' and (s.varkey(a) == s.varkey(b)) != d: return False
                elif a[0] in ('cname', 'str') or b[0] in ('cname', 'str'): pass
                elif a[0] == 'ptr' or b[0] == 'ptr':
                    if d and not close(s.nodeval(ptrnode(a)), s.nodeval(ptrnode(b))): return False
                else:
                    x, y = s.numval(a), s.numval(b)
                    if (x == y if f[1] == '==' else x < y) != d: return False
            elif k == 'ident':
                if d and not close(s.nodeval(f[1]), s.nodeval(f[2])): return False
            elif k == 'app' and f[1] in ('definitely', 'decide', 'possibly'):
                v = s.any(f[2])
                if v is not None and ((v == 'T') if f[1] != 'possibly' else v != 'F') != d: return False
            elif k in ('app', 'is_constant_in', 'is_affine_in', 'is_polynomial_in', 'is_additive_in', 'haskey', 'found', 'before'): pass
            else: raise Unsupported("fact " + show(f)[:80])
        return True
    def opcodeval(s, c):
        if c[0] == 'opcode':
            k = ('code', c[1])
            if k not in s.env:
                o = sorted(s.pol.opposs(s.facts, c))
                if not o: raise Reject
                s.env[k] = s.rng.choice(o)
            return s.env[k]
        return int(c[-1])


def ptrnode(p):
    if p[0] == 'ptr' and p[1][0] == 'n' and not p[2]: return p[1][1]
    raise Unsupported("pointer " + show(p)[:60])


def strip_s(n):
    while isinstance(n, tuple) and n and n[0] == 'S': n = n[1]
    return n


def close(a, b):
    if a is None or b is None: return a is b
    if isinstance(a, str) or isinstance(b, str): return a == b
    return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))


# ---------------------------------------------------------------- induction hypotheses
def first_tree(ev, this, args, fn):
    xs = ([ev.rv(this)] if this is not None and not fn.has('static') and not fn.has('ctor') else []) + [ev.rv(a) for a in args]
    for x in xs:
        if is_treeval(x): return x, xs
    return None, xs


def is_open(v):
    r = root(v)
    return r is not None and r[0] == 'opq'


def hypotheses(pol, ev, fn, this, args):
    n = fn.n
    if not fn.q.startswith(A) and not (fn.rec or '').startswith(A): return None
    if n not in ('simplify', '_simplify', 'derivative', '_derivative', 'substitute', 'evaluate', 'direct_evaluate', 'cached_evaluate', 'identical', 'is_constant_in', 'is_affine_in', 'is_polynomial_in', 'is_additive_in', 'before', 'eliminate_common_subexpressions', '_cached_make_formula', 'make_formula', 'cached_make_formula', 'simplify_component', 'indicator'): return None
    if fn.rec and not is_tree(fn.rec) and this is not None and not (ev.rv(this)[0] == 'lam') and fn.rec in pol.cat.allops: return None
    t, xs = first_tree(ev, this, args, fn)
    if t is None: return None
    if pol.entry is not None and fn is pol.entry[0] and xs == pol.entry[1]: raise Throw(('endless recursion', n))
    if n == 'identical' and len(xs) == 2 and all(is_treeval(x) for x in xs):
        if any(is_open(x) for x in xs):
            a, b = root(xs[0]), root(xs[1])
            if a == b: return ('term', TRUE)
            if repr(b) < repr(a): a, b = b, a
            return ('term', ('ident', a, b))
        return None
    if n == 'before' and len(xs) == 2 and any(is_open(x) for x in xs if is_treeval(x)):
        return ('term', ('before', root(xs[0]), root(xs[1])))
    if not is_open(t): return None
    X = root(t)
    if n in ('simplify', '_simplify'): return ('term', opq(t[1], ('S', X[1])))
    if n == 'eliminate_common_subexpressions':
        if fn.ret == 'void':
            for a in ([this] if this is not None else []) + args:
                if isinstance(a, LV) and is_treeval(ev.rv(a)): ev.write(a, opq(t[1], ('S', X[1])))
            return ('term', ('void',))
        return ('term', opq(t[1], ('S', X[1])))
    if n in ('derivative', '_derivative'): return ('term', opq(t[1], ('D', X[1])))
    if n == 'substitute': return ('term', opq(t[1], ('T', X[1])))
    if n in ('evaluate', 'direct_evaluate', 'cached_evaluate'): return ('term', ('val', X))
    if n in ('is_constant_in', 'is_affine_in', 'is_polynomial_in', 'is_additive_in'): return ('term', (n, X))
    if n in ('make_formula', '_cached_make_formula', 'cached_make_formula'):
        if not t[1].startswith(A + 'Expression<') or not is_tree(bare(fn.ret)): return None
        return ('term', tree(bare(fn.ret), ('sameas', X)))
    if n == 'indicator':
        sg = xs[-1]
        if sg[0] != 'enum': raise Unsupported("sign of an indicator")
        return ('term', opq(bare(fn.ret), ('IND', X[1], sg[1].split('::')[-1], X[2])))
    if n == 'simplify_component': return ('term', tree(bare(fn.ret), ('compof', X, xs[-1])))
    raise Unsupported(n + " of an open tree")


def inputs(cat, ty, name='r'):
    """every root node of a tree type: (label, alternative, operator, node, payload)"""
    nt = cat.node_type(ty)
    for alt in cat.alts(nt):
        if alt.startswith(A + 'Symbolic<') and not alt.startswith((A + 'Symbolic<Ariadne::Cnst', A + 'Symbolic<Ariadne::Var')):
            for op in cat.opcodes(targs(alt)[0]):
                pl = payload(cat, alt, lambda f: (f, name), op)
                kids = [t for f, t, m in cat.p.recs[alt]["fields"] if f != '_op']
                yield short(op) + '(' + ','.join(short(re.sub(r'<.*', '', bare(k))) for k in kids) + ')', alt, op, node_of(cat, nt, alt, pl), pl
        else:
            pl = payload(cat, alt, lambda f: (f, name))
            yield short(re.sub(r'<.*', '', alt)) + ('<' + short(targs(alt)[0]) + '>' if alt.startswith(A + 'Symbolic') else ''), alt, None, node_of(cat, nt, alt, pl), pl


def trials(pol, p, n=220, seed=1):
    """models consistent with the facts of a path: first generic, then special values"""
    rng = random.Random(seed); hit = 0
    for k in range(n):
        if k >= 240 and not hit: return
        m = Model(pol, p.facts, rng, generic=k < min(110, n // 2) or k % 2)
        try: ok = m.consistent()
        except Reject: continue
        if ok: hit += 1; yield m


# ---------------------------------------------------------------- derivative
def node_deriv(m, alt, pl, var):
    """specified derivative of the root"""
    if alt.startswith(A + 'Constant<') or alt.startswith(A + 'Symbolic<Ariadne::Cnst'): return 0.0
    if alt.startswith(A + 'Variable<'): return 1.0 if m.varkey(pl) == m.varkey(var) else 0.0
    if alt.startswith(A + 'IndexFormulaNode<') or alt.startswith(A + 'Symbolic<Ariadne::Var'):
        return 1.0 if m.numval(field(field(pl, '_ind'), '_i')) == m.numval(var) else 0.0
    op, args = m.parts(alt, pl)
    xs = [m.any(a) for a in args]
    ds = [m.nodeval(('opq', ('D', root(a)[1]), a[1])) if is_treeval(a) else 0.0 for a in args]
    return dsem(op, xs, ds)


def judge_derivative(cat, fn, ty, label, alt, op, node, pl):
    pol = SPol(cat, hypotheses)
    v = tree(ty, node)
    if fn.has('meth'): this, args = v, [('intsym', 'j', 'unsigned long')]; var = args[0]
    else: this, args = None, [v, ('variable', 'var', A + 'Variable<Ariadne::Real>')]; var = args[1]
    pol.entry = (fn, ([this] if this is not None else []) + args)
    paths = run(cat.p, fn, pol, this=this, args=args)
    und = None; n = 0; np = 0
    for p in paths:
        np += 1
        if p.kind == 'throw':
            if op and short(op) in ('Abs', 'Max', 'Min'): continue
            return 'violated', 'the derivative of %s is refused (%s)' % (label, show(p.value)[:60])
        if not is_treeval(p.value): und = 'result ' + show(p.value)[:80]; continue
        k = 0; bad = None
        for m in trials(pol, p):
            try: want = node_deriv(m, alt, pl, var); got = m.treeval(p.value)
            except Reject: continue
            if want is None: continue
            if got is None:
                if not m.generic: continue
                bad = 'undefined'
            k += 1
            if not close(want, got): return 'violated', 'd/dx %s: with %s the result is %s, the derivative is %s; result tree %s' % (label, envs(m), got, want, draw(p.value, cat)[:200])
        n += k
        if k < 3 and not (op and short(op) in ('Abs', 'Max', 'Min')): und = 'only %d sample points reach this path' % k
    if und: return 'undecided', und
    return 'proved', '%d paths, %d points' % (np, n)


def envs(m): return ', '.join('%s=%s' % (keyname(k), ('%.4g' % v) if isinstance(v, float) else v) for k, v in list(m.env.items())[:8])
def keyname(k): return re.sub(r"[()' ]", '', str(k[1:] if len(k) > 1 else k)).replace(',', '.')[:40]


def draw(v, cat=None):
    """readable tree"""
    r = root(v) if v[0] == 'rec' else None
    if r is None: return show(v)[:60]
    while r[0] == 'rec' and not r[2] and r[3] is not None: r = r[3]
    if r[0] == 'opq': return keyname(('', r[1]))
    if r[0] == 'variant':
        pl = r[2]
        if pl[0] == 'variable': return 'var'
        o = field(pl, '_op') if pl[0] == 'rec' else ('?',)
        c = field(o, '_code') if o[0] == 'rec' else ('?',)
        nm = c[1].split('::')[-1] if c[0] == 'enum' else short(o[1]) if o[0] == 'rec' else '?'
        return nm + '(' + ','.join(draw(x) for f, x in pl[2] if f not in ('_op', '_name')) + ')'
    return str(r[0])
