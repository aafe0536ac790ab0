"""Path-partitioned abstract interpreter over the extracted program.

Domain: Herbrand terms (value numbering) over a function's inputs, with a store of
cells for locals/objects and, per path, the set of branch facts taken.  No code is
run: primitive operations stay uninterpreted terms; calls are inlined, kept as
primitives, or kept opaque according to a policy.  Anything outside the supported
constructs raises Unsupported, which callers report as "undecided" for that function.

Terms are tuples:
  ('sym',name,type)  input            ('int',n) ('flt',s) ('bool',b) ('str',s) ('enum',q,n) ('null',)
  ('fld',t,f)        field of t       ('idx',t,i)            ('deref',t)
  ('rec',type,((f,v),...),base)       record value, fields not listed come from base
  ('app',name,args...)                primitive / opaque application
  ('bin',op,a,b) ('un',op,a)          builtin arithmetic on non-constant operands
  ('fp',op,rnd,args...)               builtin floating-point arithmetic under rounding mode rnd
  ('ptr',cell,path)  ('lam',id)  ('fn',id)
"""
from prog import Fn, walk


class Unsupported(Exception): pass
class Budget(Exception): pass
class _Ret(Exception):
    def __init__(s, v, lv=None): s.v = v; s.lv = lv
class _Brk(Exception): pass
class _Cont(Exception): pass
class Throw(Exception):
    def __init__(s, v): s.v = v
class Infeasible(Exception): pass

I = lambda n: ('int', n)
B = lambda b: ('bool', bool(b))
TRUE, FALSE = B(True), B(False)


class LV:
    __slots__ = ("cell", "path")
    def __init__(s, cell, path=()): s.cell = cell; s.path = tuple(path)
    def sub(s, *p): return LV(s.cell, s.path + p)
    def __repr__(s): return "LV(%r,%r)" % (s.cell, s.path)


ALIAS = None   # optional: (type string, field) -> field actually stored


def field(v, f):
    k = v[0]
    if ALIAS is not None and k in ('rec', 'sym'): f = ALIAS(v[1] if k == 'rec' else v[2], f)
    if k == 'rec':
        for n, x in v[2]:
            if n == f: return x
        if v[3] is not None: return field(v[3], f)
        return ('uninit', v[1], f)
    if k == 'ite': return ite(v[1], field(v[2], f), field(v[3], f))
    return ('fld', v, f)


def setfield(v, f, x, ty=None):
    if ALIAS is not None and v is not None and v[0] in ('rec', 'sym'): f = ALIAS(v[1] if v[0] == 'rec' else v[2], f)
    if v is not None and v[0] == 'rec':
        fs = tuple((n, (x if n == f else y)) for n, y in v[2])
        if not any(n == f for n, y in v[2]): fs = fs + ((f, x),)
        return ('rec', v[1], fs, v[3])
    return ('rec', ty or '?', ((f, x),), v)


def ite(c, a, b):
    if c == TRUE: return a
    if c == FALSE: return b
    if a == b: return a
    return ('ite', c, a, b)


def index(v, i):
    while v[0] == 'store':
        if v[2] == i: return v[3]
        if v[2][0] == 'int' and i[0] == 'int': v = v[1]; continue
        return ('idx', v, i)
    if v[0] == 'arr' and i[0] == 'int' and 0 <= i[1] < len(v[1]): return v[1][i[1]]
    return ('idx', v, i)


class Path:
    def __init__(s): s.facts = []; s.kind = None; s.value = None; s.store = None; s.effects = []; s.rnd = None; s.outs = None
    def __repr__(s): return "<Path %s %s %s>" % (s.kind, s.value, s.facts)


FLT_TYPES = ("double", "float", "long double", "volatile double", "const double", "volatile float", "const volatile double")


def bare(t):
    """strip cv/ref from a type string"""
    t = t.strip()
    while True:
        if t.endswith("&"): t = t[:-1].strip(); continue
        if t.startswith("const "): t = t[6:]; continue
        if t.startswith("volatile "): t = t[9:]; continue
        break
    return t


IWIDTH = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'long long': 64, 'unsigned long long': 64}


class Policy:
    fcasts = False
    forkloops = False      # decide symbolic loop conditions per path
    """Override to classify calls.  call() returns None (default rule), 'inline', 'opaque' or ('term',t)."""
    max_paths = 600
    max_steps = 400000
    max_depth = 40
    rev = False      # evaluate the arguments of a call from right to left (their order is unspecified)
    icasts = False   # keep integral conversions and the width of symbolic integer arithmetic in the terms
    def call(self, ev, fn, this, args, node): return None
    def decide(self, ev, cond): return None
    def loop(self, ev, node): return None
    def gvar(self, ev, q, ty): return None
    def fp(self, ev, op, args): return ('fp', op, ev.rnd) + tuple(args)


class Ev:
    """One run along one decision sequence."""
    def __init__(s, prog, pol, decisions):
        s.prog = prog; s.pol = pol; s.dec = decisions; s.pos = 0; s.new = []
        s.store = {}; s.n = 0; s.facts = []; s.factmap = {}; s.steps = 0; s.depth = 0; s.effects = []
        s.rnd = ('sym', 'rnd0', 'rnd'); s.closures = {}; s.stack = []
    # ---- infrastructure
    def cell(s, v=None):
        s.n += 1; c = ('c', s.n); s.store[c] = v; return c
    def fork(s, cond):
        """truth value of a boolean term on this path"""
        cond = s.norm(cond)
        if cond[0] == 'bool': return cond[1]
        if cond[0] == 'not': return not s.fork(cond[1])
        if cond[0] == 'and':
            return s.fork(cond[1]) and s.fork(cond[2])
        if cond[0] == 'or':
            return s.fork(cond[1]) or s.fork(cond[2])
        if cond[0] == 'ite':
            return s.fork(cond[2]) if s.fork(cond[1]) else s.fork(cond[3])
        if cond in s.factmap: return s.factmap[cond]
        d = s.pol.decide(s, cond)
        if d is None:
            if s.pos < len(s.dec): d = s.dec[s.pos]
            else: d = True; s.new.append(True)
            s.pos += 1
        s.facts.append((cond, d)); s.factmap[cond] = d
        return d
    def norm(s, c):
        """normalise a boolean term"""
        if c[0] == 'un' and c[1] == '!':
            x = s.norm(c[2])
            if x[0] == 'bool': return B(not x[1])
            if x[0] == 'not': return x[1]
            return ('not', x)
        if c[0] == 'int': return B(c[1] != 0)
        if c[0] == 'null': return FALSE
        if c[0] in ('ptr', 'lam', 'fn'): return TRUE
        if c[0] == 'bin' and c[1] == '!=': return ('not', s.norm(('bin', '==', c[2], c[3])))
        if c[0] == 'bin' and c[1] == '>': return ('bin', '<', c[3], c[2])
        if c[0] == 'bin' and c[1] == '<=': return ('not', ('bin', '<', c[3], c[2]))
        if c[0] == 'bin' and c[1] == '>=': return ('not', ('bin', '<', c[2], c[3]))
        if c[0] == 'bin' and c[1] == '==':
            a, b = c[2], c[3]
            if a == b: return TRUE
            if repr(b) < repr(a): a, b = b, a
            return ('bin', '==', a, b)
        return c
    # ---- lvalues
    def read(s, lv):
        v = s.store.get(lv.cell)
        if v is None:
            if lv.cell[0] == 'd': v = ('deref', lv.cell[1])
            elif lv.cell[0] == 'g': v = ('gvar', lv.cell[1])
            else: v = ('uninit', repr(lv.cell), '')
        for p in lv.path:
            v = field(v, p[1]) if p[0] == 'f' else index(v, p[1])
        return v
    def write(s, lv, x):
        def upd(v, path):
            if not path: return x
            p = path[0]
            if p[0] == 'f':
                return setfield(v, p[1], upd(field(v, p[1]) if v is not None else None, path[1:]))
            old = index(v, p[1]) if v is not None else None
            nv = upd(old, path[1:])
            if v is not None and v[0] == 'arr' and p[1][0] == 'int' and 0 <= p[1][1] < len(v[1]):
                l = list(v[1]); l[p[1][1]] = nv; return ('arr', tuple(l))
            if v is not None and v[0] == 'store' and v[2] == p[1]: return ('store', v[1], p[1], nv)
            return ('store', v, p[1], nv)
        v = s.store.get(lv.cell)
        if v is None and lv.cell[0] == 'd': v = ('deref', lv.cell[1])
        if v is None and lv.cell[0] == 'g': v = ('gvar', lv.cell[1])
        if lv.cell[0] in ('d', 'g'): s.effects.append(('write', lv.cell, lv.path, x))
        s.store[lv.cell] = upd(v, lv.path)
    def lval(s, v):
        """an LV for a value term (temporary) """
        if isinstance(v, LV): return v
        return LV(s.cell(v))
    def rv(s, v):
        return s.read(v) if isinstance(v, LV) else v
    def deref(s, v):
        if v[0] == 'ptr': return LV(v[1], v[2])
        if v[0] == 'ite': return s.deref(v[2] if s.fork(v[1]) else v[3])
        return LV(('d', v))
    # ---- function invocation
    def invoke(s, fn, this, args, env=None):
        """inline fn; this: LV or None; args: list of LV or value terms. returns value or LV"""
        if fn.body is None: raise Unsupported("no body for " + fn.q)
        s.depth += 1
        if s.depth > s.pol.max_depth: raise Unsupported("inlining depth at " + fn.q)
        fr = dict(env) if env else {}
        for k, (vid, nm, ty) in enumerate(fn.params):
            a = args[k] if k < len(args) else ('missing', fn.q, k)
            t = ty.strip()
            if t.endswith("&"):
                fr[vid] = a if isinstance(a, LV) else LV(s.cell(a))
            else:
                fr[vid] = LV(s.cell(s.rv(a)))
        if this is not None: fr['this'] = this
        s.stack.append(fn)
        try:
            if fn.has("ctor"): s.run_inits(fn, this, fr)
            try:
                s.stmt(fn.body, fr); r = None
            except _Ret as e:
                r = e.v
        finally:
            s.depth -= 1; s.stack.pop()
        if r is None: return ('void',)
        if not fn.ret.strip().endswith("&"): r = s.rv(r)
        return r
    def run_inits(s, fn, this, fr):
        for kind, name, e, written in fn.inits or []:
            if kind == 'm':
                ty = None
                rec = s.prog.recs.get(fn.rec)
                if e is None: continue
                v = s.expr(e, fr)
                isref = False
                if rec:
                    for f, t, m in rec["fields"]:
                        if f == name and t.strip().endswith("&"): isref = True
                if isref: v = v if isinstance(v, LV) else LV(s.cell(v)); s.write(this.sub(('f', name)), ('ref', v.cell, v.path))
                else: s.write(this.sub(('f', name)), s.rv(v))
            elif kind in ('b', 'd'):
                s.construct_into(this, e, fr)
            else: pass
    def construct_into(s, lv, e, fr):
        if e[0] == 'ctor':
            fn = e[1]
            args = [s.expr(a, fr) for a in e[2]]
            r = s.pol.call(s, fn, lv, args, e) if fn.rec and lv.path == () else None
            if isinstance(r, tuple) and r and r[0] == 'term':
                cur = s.store.get(lv.cell)
                if cur is None or (cur[0] == 'rec' and not cur[2]):
                    s.store[lv.cell] = r[1] if cur is None or cur[1] == fn.rec else ('rec', cur[1], (), r[1])
                    return
            if fn.body is None:
                if (fn.has("copy") or fn.has("move")) and args:
                    src = s.rv(args[0])
                    cur = s.store.get(lv.cell)
                    if lv.path == () and (cur is None or (cur[0] == 'rec' and not cur[2])):
                        s.store[lv.cell] = ('rec', fn.rec, (), src)
                    else:
                        rec = s.prog.recs.get(fn.rec)
                        for f, t, m in (rec["fields"] if rec else []): s.write(lv.sub(('f', f)), field(src, f))
                    return
                if not args: 
                    return
                s.write(lv.sub(('f', '#base:' + fn.rec)), ('app', 'ctor:' + fn.rec) + tuple(s.rv(a) for a in args)); return
            s.invoke(fn, lv, args)
        elif e[0] == 'ilist':
            rec = s.prog.recs.get(bare(e[2]))
            if rec is None: raise Unsupported("aggregate " + e[2])
            for (f, t, m), x in zip(rec["fields"], e[1]): s.write(lv.sub(('f', f)), s.rv(s.expr(x, fr)))
        else:
            v = s.rv(s.expr(e, fr))
            if lv.path == (): s.store[lv.cell] = v
            else: s.write(lv, v)
    # ---- calls
    def call(s, fn, this, args, node):
        s.steps += 1
        if s.steps > s.pol.max_steps: raise Budget("steps")
        r = s.pol.call(s, fn, this, args, node)
        if isinstance(r, tuple) and r and r[0] == 'term': return r[1]
        if isinstance(r, LV): return r
        q = fn.tq
        if r is None:
            b = s.builtin(fn, q, this, args)
            if b is not None: return b
        if r == 'inline' or (r is None and fn.body is not None and not (fn.has("virt") and node[0] == 'mcall' and node[5 - 0] if False else False)):
            if fn.body is None: raise Unsupported("no body for " + fn.q)
            if s.stack.count(fn) > 8: raise Unsupported("recursion in " + fn.q)
            return s.invoke(fn, this, args)
        return s.opaque(fn, this, args)
    def opaque(s, fn, this, args):
        vs = [s.rv(a) for a in args]
        name = fn.q
        if this is not None and not fn.has("static"): vs = [s.rv(this)] + vs
        t = ('app', name) + tuple(vs)
        if fn.has("noret"): raise Throw(t)
        # an opaque callee may modify what it receives by non-const reference / this
        if this is not None and isinstance(this, LV) and fn.has("meth") and not fn.has("const") and not fn.has("ctor"):
            s.write(this, ('after', t, 'this'))
        for k, a in enumerate(args):
            if isinstance(a, LV) and k < len(fn.p):
                p = fn.p[k].strip()
                if p.endswith("&") and not p.endswith("&&") and not p.startswith("const "): s.write(a, ('after', t, k))
        return t
    def builtin(s, fn, q, this, args):
        n = fn.n
        if q in ('std::move', 'std::forward', 'std::addressof', 'std::as_const', 'std::__addressof'):
            if n.endswith('addressof'):
                lv = s.lval(args[0]); return ('ptr', lv.cell, lv.path)
            return args[0]
        if q in ('std::swap',):
            a, b = args
            va, vb = s.rv(a), s.rv(b); s.write(a, vb); s.write(b, va); return ('void',)
        if q in ('std::min', 'std::max') and len(args) == 2 and fn.body is None:
            a, b = s.rv(args[0]), s.rv(args[1])
            if a[0] == b[0] and a[0] in ('int', 'enum'):
                less = a[-1] < b[-1]
                if q == 'std::min': return b if b[-1] < a[-1] else a
                return b if a[-1] < b[-1] else a
            return ('app', q, a, b)
        return None
    def is_virtual_dispatch(s, node): return node[0] == 'mcall' and len(node) > 5 and node[5] == 1
    # ---- expressions
    def expr(s, e, fr):
        s.steps += 1
        if s.steps > s.pol.max_steps: raise Budget("steps")
        return getattr(s, 'x_' + e[0].replace('{}', 'block'), s.x_unsup)(e, fr)
    def x_unsup(s, e, fr): raise Unsupported("expression " + str(e[0]) + " " + str(e[1] if len(e) > 1 else ''))
    def val(s, e, fr): return s.rv(s.expr(e, fr))
    def x_int(s, e, fr): return I(e[1])
    def x_flt(s, e, fr): return ('flt', e[1])
    def x_bool(s, e, fr): return B(e[1])
    def x_str(s, e, fr): return ('str', e[1])
    def x_null(s, e, fr): return ('null',)
    def x_enum(s, e, fr): return ('enum', e[1], e[2])
    def x_zero(s, e, fr):
        t = bare(e[1])
        if t in FLT_TYPES: return ('flt', '0')
        if t == 'bool': return FALSE
        if t.endswith('*'): return ('null',)
        if t in s.prog.recs: return ('rec', t, (), None)
        return I(0)
    def x_this(s, e, fr):
        lv = fr.get('this')
        if lv is None: raise Unsupported("this outside a method")
        return ('ptr', lv.cell, lv.path)
    def x_var(s, e, fr):
        lv = fr.get(e[1])
        if lv is None:
            raise Unsupported("unbound variable " + e[2])
        return lv
    def x_gvar(s, e, fr):
        g = s.pol.gvar(s, e[1], e[2])
        if g is not None: return g
        if len(e) > 4 and e[4] is not None:
            if bare(e[2]) == 'bool': return B(e[4] != 0)
            return I(e[4])
        d = s.prog.gvars.get(e[1])
        if d is not None and d["const"] and d["init"] is not None and not d["slocal"]:
            t = bare(e[2])
            if t in s.prog.recs or t in FLT_TYPES or True:
                try: return s.rv(s.expr(d["init"], {}))
                except Unsupported: pass
        return LV(('g', e[1]))
    def x_ref(s, e, fr): return ('gvar', e[1])
    def x_fn(s, e, fr): return ('fn', e[1].id)
    def x_mfn(s, e, fr): return ('fn', e[2].id)
    def x_mem(s, e, fr):
        b = s.expr(e[1], fr)
        v = s.rv(b) if isinstance(b, LV) else b
        if v is not None and v[0] in ('ptr',) : b = LV(v[1], v[2])
        elif e[1][0] in ('this',): pass
        lv = b if isinstance(b, LV) else None
        if lv is None:
            if v[0] in ('rec', 'fld', 'idx', 'app', 'sym', 'ite', 'deref', 'gvar', 'after', 'uninit'):
                x = field(v, e[2])
                if x[0] == 'ref': return LV(x[1], x[2])
                return x
            raise Unsupported("member of " + str(v)[:80])
        cur = s.read(lv)
        # pointer-typed base (arrow) on symbolic pointer
        if cur[0] == 'sym' and isinstance(cur[2], str) and cur[2].rstrip().endswith('*'): lv = s.deref(cur)
        x = field(s.read(lv), e[2])
        if x[0] == 'ref': return LV(x[1], x[2])
        return lv.sub(('f', e[2]))
    def x_idx(s, e, fr):
        b = s.expr(e[1], fr); i = s.val(e[2], fr)
        if isinstance(b, LV):
            v = s.read(b)
            if v[0] == 'ptr': return s.pidx(v, i)
            return b.sub(('i', i))
        if b[0] == 'ptr': return s.pidx(b, i)
        return index(b, i)
    def pidx(s, p, i):
        """the element i places after the one p points to"""
        if p[2] and p[2][-1][0] == 'i' and p[2][-1][1][0] == 'int' and i[0] == 'int':
            a = s.read(LV(p[1], p[2][:-1]))
            if a[0] == 'arr' and not (p[2][-1][1][1] < len(a[1]) and a[1][p[2][-1][1][1]][0] == 'arr'): return LV(p[1], p[2][:-1] + (('i', I(p[2][-1][1][1] + i[1])),))
        if p[2] and p[2][-1][0] == 'f' and i[0] == 'int' and s.read(LV(p[1], p[2]))[0] not in ('arr', 'sym'):
            if i[1] == 0: return LV(p[1], p[2])
            o = s.read(LV(p[1], p[2][:-1]))                    # consecutive fields of one type
            r = s.prog.recs.get(bare(o[1])) if o[0] == 'rec' else None
            fs = [(f, t) for f, t, m in r["fields"]] if r else []
            k = [f for f, t in fs].index(p[2][-1][1]) if p[2][-1][1] in [f for f, t in fs] else None
            if k is not None and 0 <= k + i[1] < len(fs) and len({t for f, t in fs[min(k, k + i[1]):max(k, k + i[1]) + 1]}) == 1: return LV(p[1], p[2][:-1] + (('f', fs[k + i[1]][0]),))
        return LV(p[1], p[2]).sub(('i', i))
    def x_cast(s, e, fr):
        k = e[1]; v = s.expr(e[3], fr)
        if k in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ToVoid', 'LValueBitCast', 'BitCast', 'Dynamic', 'AtomicToNonAtomic', 'NonAtomicToAtomic'):
            return v
        v = s.rv(v)
        t = bare(e[2])
        if k in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            if v[0] in ('int', 'enum'): return B(v[-1] != 0)
            if v[0] == 'bool': return v
            if k == 'PointerToBoolean': return s.norm(v) if v[0] in ('null', 'ptr', 'fn', 'lam') else ('app', 'nonnull', v)
            return ('not', s.norm(('bin', '==', v, I(0))))
        if k == 'IntegralCast' or k == 'BooleanToSignedIntegral':
            if v[0] == 'bool': return I(int(v[1]))
            if v[0] == 'enum':
                return ('int', v[2]) if t not in s.prog.enums else v
            if v[0] == 'int':
                n = v[1]
                w = IWIDTH.get(t)
                if w:
                    n &= (1 << w) - 1
                    if not t.startswith('unsigned') and n >= 1 << (w - 1): n -= 1 << w
                if t in s.prog.enums: return s.enumval(t, n)
                return I(n)
            if s.pol.icasts and t in IWIDTH: return ('icast', t, v)
            if s.pol.icasts and t in s.prog.enums: return ('ecast', t, v)
            return v
        if k in ('NullToPointer',): return ('null',)
        if k in ('IntegralToFloating', 'FloatingCast', 'FloatingToIntegral'):
            if v[0] == 'int' and k == 'IntegralToFloating': return ('flt', str(v[1]))
            if k == 'FloatingCast' and v[0] == 'flt': return v
            if k == 'FloatingCast' and s.pol.fcasts: return ('fp', 'to ' + t, s.rnd, v)
            return ('cast', k, t, v)
        if k in ('IntegralToPointer', 'PointerToIntegral'): return ('cast', k, t, v)
        if k == 'BuiltinBitCast': return ('cast', k, t, v)
        return v
    def enumval(s, t, n):
        for nm, x in s.prog.enums[t]:
            if x == n: return ('enum', t + '::' + nm, n)
        return ('enum', t + '::?', n)
    def x_un(s, e, fr):
        op = e[1]
        if op == '&':
            v = s.expr(e[2], fr)
            if isinstance(v, LV): return ('ptr', v.cell, v.path)
            if v[0] == 'fn': return v
            lv = s.lval(v); return ('ptr', lv.cell, lv.path)
        if op == '*': return s.deref(s.val(e[2], fr))
        if op in ('++', '--', 'p++', 'p--'):
            lv = s.expr(e[2], fr); v = s.rv(lv); d = 1 if '+' in op else -1
            nv = I(v[1] + d) if v[0] == 'int' else s.arith('+', v, I(d), None)
            if not isinstance(lv, LV): raise Unsupported("increment of rvalue")
            s.write(lv, nv)
            return v if op[0] == 'p' else lv
        v = s.val(e[2], fr)
        if op == '!':
            return s.norm(('un', '!', v))
        if op == '-':
            if v[0] == 'int': return I(-v[1])
            if v[0] == 'flt':
                return ('flt', v[1][1:] if v[1].startswith('-') else '-' + v[1])
            if s.pol.icasts and len(e) > 3 and bare(e[3]) in IWIDTH: return ('icast', bare(e[3]), ('un', '-', v))
            return ('un', '-', v)
        if op == '+': return v
        if op == '~' and v[0] == 'int': return I(~v[1])
        return ('un', op, v)
    def arith(s, op, a, b, ty):
        if ty and bare(ty) in FLT_TYPES and op in '+-*/':
            return s.pol.fp(s, op, (a, b))
        ka, kb = a[0], b[0]
        if ka in ('int', 'enum', 'bool') and kb in ('int', 'enum', 'bool'):
            x = int(a[-1]); y = int(b[-1])
            try:
                if op in ('+', '-', '*', '&', '|', '^', '<<', '>>'):
                    if (ka, kb) == ('bool', 'bool') and op in '&|^':
                        return B({'&': x & y, '|': x | y, '^': x ^ y}[op])
                    return I({'+': x + y, '-': x - y, '*': x * y, '&': x & y, '|': x | y, '^': x ^ y, '<<': x << min(y, 200) if y >= 0 else 0, '>>': x >> y if y >= 0 else 0}[op])
                if op in ('/', '%') and y != 0:
                    qq = abs(x) // abs(y); qq = qq if (x < 0) == (y < 0) else -qq
                    return I(qq if op == '/' else x - qq * y)
                if op == '==': return B(x == y)
                if op == '!=': return B(x != y)
                if op == '<': return B(x < y)
                if op == '<=': return B(x <= y)
                if op == '>': return B(x > y)
                if op == '>=': return B(x >= y)
            except (ValueError, OverflowError): pass
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if (a[0], b[0]) in (('null', 'ptr'), ('ptr', 'null')): return B(op == '!=')
            if a[0] == b[0] == 'ptr' and op in ('==', '!=') and (a[1] != b[1] or a == b): return B((a == b) == (op == '=='))
            if a[0] == b[0] == 'ptr' and a[1] == b[1] and a[2] and b[2] and a[2][:-1] == b[2][:-1] and a[2][-1][0] == b[2][-1][0] == 'i' and a[2][-1][1][0] == b[2][-1][1][0] == 'int':
                x, y = a[2][-1][1][1], b[2][-1][1][1]
                return B({'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
            return s.norm(('bin', op, a, b))
        # pointers into an array
        if op in ('+', '-') and ka == 'ptr' and kb == 'int' and a[2] and a[2][-1][0] == 'i' and a[2][-1][1][0] == 'int':
            return ('ptr', a[1], a[2][:-1] + (('i', I(a[2][-1][1][1] + (b[1] if op == '+' else -b[1]))),))
        if op == '-' and ka == kb == 'ptr' and a[1] == b[1] and a[2] and b[2] and a[2][:-1] == b[2][:-1] and a[2][-1][0] == b[2][-1][0] == 'i' and a[2][-1][1][0] == b[2][-1][1][0] == 'int':
            return I(a[2][-1][1][1] - b[2][-1][1][1])
        # linear normal form for integer sums with a constant
        if op in ('+', '-') and kb == 'int':
            d = b[1] if op == '+' else -b[1]
            if ka == 'bin' and a[1] == '+' and a[3][0] == 'int': d += a[3][1]; a = a[2]
            return a if d == 0 else ('bin', '+', a, I(d))
        if op == '+' and ka == 'int': return s.arith('+', b, a, ty)
        if s.pol.icasts and ty and bare(ty) in IWIDTH: return ('icast', bare(ty), ('bin', op, a, b))
        return ('bin', op, a, b)
    def x_bin(s, e, fr):
        op = e[1]
        if op == '&&':
            a = s.val(e[2], fr); a = s.norm(a)
            if a == FALSE: return FALSE
            if s.fork(a): return s.boolval(s.val(e[3], fr))
            return FALSE
        if op == '||':
            a = s.norm(s.val(e[2], fr))
            if s.fork(a): return TRUE
            return s.boolval(s.val(e[3], fr))
        if op == ',':
            s.expr(e[2], fr); return s.expr(e[3], fr)
        a = s.val(e[2], fr); b = s.val(e[3], fr)
        return s.arith(op, a, b, e[5] if len(e) > 5 else None)
    def boolval(s, v): return s.norm(v)
    def x_asg(s, e, fr):
        op = e[1]
        if op == '=':
            v = s.val(e[3], fr); lv = s.expr(e[2], fr)
            if not isinstance(lv, LV): raise Unsupported("assignment to rvalue")
            s.write(lv, v); return lv
        lv = s.expr(e[2], fr); b = s.val(e[3], fr)
        if not isinstance(lv, LV): raise Unsupported("assignment to rvalue")
        s.write(lv, s.arith(op[:-1], s.rv(lv), b, e[5] if len(e) > 5 else None)); return lv
    def x_cond(s, e, fr):
        c = s.val(e[1], fr)
        return s.expr(e[2] if s.fork(c) else e[3], fr)
    def x_call(s, e, fr):
        fn = e[1]
        args = s.args(e[2], fr)
        return s.call(fn, None, args, e)
    def args(s, es, fr):
        if s.pol.rev: return [s.expr(a, fr) for a in reversed(es)][::-1]
        return [s.expr(a, fr) for a in es]
    def x_mcall(s, e, fr):
        fn = e[1]
        o = s.expr(e[2], fr)
        args = s.args(e[3], fr)
        v = s.rv(o)
        if fn.n == 'operator()' and v[0] == 'lam': return s.calllam(v, fn, args)
        if v[0] == 'ptr' and not (isinstance(o, LV) and e[2][0] in ()):
            # arrow call through a pointer value, or method on a pointer held in a variable
            this = LV(v[1], v[2])
        elif isinstance(o, LV):
            this = o
            if v[0] == 'sym' and isinstance(v[2], str) and v[2].rstrip().endswith('*'): this = s.deref(v)
        else: this = LV(s.cell(o))
        if fn.has("casg") or fn.has("masg"):
            if fn.body is None or fn.has("dflt"):
                s.write(this, s.rv(args[0])); return this
        return s.call(fn, this, args, e)
    def calllam(s, v, fn, args):
        fns, env = s.closures[v[1]]
        for f in fns:
            if f.id == fn.id: return s.invoke(f, None, args, env)
        if len(fns) == 1: return s.invoke(fns[0], None, args, env)
        for f in fns:
            if f.body is not None and len(f.params) == len(args) and fn.p == f.p: return s.invoke(f, None, args, env)
        raise Unsupported("lambda instantiation not found")
    def x_icall(s, e, fr):
        c = s.val(e[1], fr); args = [s.expr(a, fr) for a in e[2]]
        if c[0] == 'deref' and c[1][0] == 'fn': c = c[1]
        if c[0] == 'fn':
            fn = s.prog.fns[c[1]]
            return s.call(fn, None, args, e)
        if c[0] == 'lam': return s.calllam(c, s.closures[c[1]][0][0], args)
        return ('app', 'icall', c) + tuple(s.rv(a) for a in args)
    def x_lambda(s, e, fr):
        s.n += 1; k = s.n
        env = {}
        for c in e[2]:
            if c[0] == 'this':
                if 'this' in fr: env['this'] = fr['this']
            elif c[0] == '?': pass
            elif len(c) > 3: env[c[0]] = LV(s.cell(s.val(c[3], fr))) if c[2] == 'val' else s.lval(s.expr(c[3], fr))
            elif c[0] in fr: env[c[0]] = fr[c[0]] if c[2] == 'ref' else LV(s.cell(s.read(fr[c[0]])))
        s.closures[k] = (e[1], env)
        return ('lam', k)
    def x_ctor(s, e, fr):
        fn = e[1]; args = s.args(e[2], fr) if len(e) < 6 else [s.expr(a, fr) for a in e[2]]
        return s.construct(fn, args, e)
    def construct(s, fn, args, e):
        r = s.pol.call(s, fn, None, args, e)
        if isinstance(r, tuple) and r and r[0] == 'term': return r[1]
        if fn.body is not None and r != 'opaque' and not fn.has("dflt"):
            c = s.cell(('rec', fn.rec, (), None)); lv = LV(c)
            if s.stack.count(fn) > 8: raise Unsupported("recursion in " + fn.q)
            s.invoke(fn, lv, args)
            return s.read(lv)
        if (fn.has("copy") or fn.has("move")) and len(args) >= 1: return s.rv(args[0])
        if not args:
            rec = s.prog.recs.get(fn.rec)
            return ('app', 'ctor:' + fn.rec) if rec is None or rec["fields"] else ('rec', fn.rec, (), None)
        return ('app', 'ctor:' + fn.rec) + tuple(s.rv(a) for a in args)
    def x_ictor(s, e, fr): raise Unsupported("inherited constructor")
    def x_ilist(s, e, fr):
        t = bare(e[2])
        rec = s.prog.recs.get(t)
        if rec is not None:
            vals = [s.expr(x, fr) for x in e[1]]
            if len(vals) == len(rec["fields"]):
                vals = [(v if isinstance(v, LV) else LV(s.cell(v))) if t.strip().endswith('&') else s.rv(v) for (f, t, m), v in zip(rec["fields"], vals)]
                vals = [('ref', v.cell, v.path) if isinstance(v, LV) else v for v in vals]
            else: vals = [s.rv(v) for v in vals]
            if len(rec["bases"]) and len(vals) != len(rec["fields"]):
                if len(vals) == len(rec["bases"]) + len(rec["fields"]): vals = vals[len(rec["bases"]):]
            return ('rec', t, tuple((f, v) for (f, ty, m), v in zip(rec["fields"], vals)), None)
        if len(e[1]) == 1 and not t.endswith(']'): return s.expr(e[1][0], fr)
        return ('arr', tuple(s.val(x, fr) for x in e[1]))
    def x_silist(s, e, fr): return s.val(e[1], fr)
    def x_new(s, e, fr):
        if e[3] is not None: return ('app', 'newarray:' + e[1], s.val(e[3], fr))
        v = s.val(e[2], fr) if e[2] is not None else ('uninit', e[1], '')
        if len(e) > 5:
            at = s.val(e[5], fr)
            if at[0] == 'ptr': s.write(LV(at[1], at[2]), v); return at
        return ('ptr', s.cell(v), ())
    def x_delete(s, e, fr):
        v = s.val(e[1], fr); s.effects.append(('delete', v)); return ('void',)
    def x_throw(s, e, fr): raise Throw(s.val(e[1], fr) if e[1] is not None else ('rethrow',))
    def x_typeid(s, e, fr): return ('app', 'typeid', ('str', str(e[1])))
    def x_stmtexpr(s, e, fr):
        b = e[1]
        if b is None or b[0] != '{}' or not b[1]: raise Unsupported("statement expression")
        for x in b[1][:-1]: s.stmt(x, fr)
        if b[1][-1][0] != 'e': s.stmt(b[1][-1], fr); return ('void',)
        return s.expr(b[1][-1][1], fr)
    def x_opq(s, e, fr):
        if e[1] in ('PredefinedExpr', 'SourceLocExpr'): return ('str', '__func__')
        raise Unsupported("expression " + e[1])
    def x_binding(s, e, fr):
        if e[1] is None: raise Unsupported("structured binding")
        return s.expr(e[1], fr)
    # ---- statements
    def stmt(s, st, fr):
        if st is None: return
        s.steps += 1
        if s.steps > s.pol.max_steps: raise Budget("steps")
        k = st[0]
        if k == '{}':
            for x in st[1]: s.stmt(x, fr)
        elif k == 'decl':
            for d in st[1]:
                vid, nm, ty, init, stat = d
                if stat == 'static':
                    if init is not None:
                        try: fr[vid] = LV(s.cell(s.val(init, fr)))
                        except Unsupported: fr[vid] = LV(('g', 'static:' + nm))
                    else: fr[vid] = LV(('g', 'static:' + nm))
                    continue
                if init is None: fr[vid] = LV(s.cell(('uninit', ty, nm))); continue
                v = s.expr(init, fr)
                if ty.strip().endswith("&"): fr[vid] = v if isinstance(v, LV) else LV(s.cell(v))
                elif stat == 'bind': fr[vid] = v if isinstance(v, LV) else LV(s.cell(v))
                else: fr[vid] = LV(s.cell(s.rv(v)))
        elif k == 'e': s.expr(st[1], fr)
        elif k == 'ret':
            if st[1] is None: raise _Ret(None)
            v = s.expr(st[1], fr); raise _Ret(v)
        elif k == 'if':
            if st[1] is not None: s.stmt(st[1], fr)
            c = s.val(st[2], fr)
            if s.fork(c): s.stmt(st[3], fr)
            else: s.stmt(st[4], fr)
        elif k in ('for', 'while', 'do', 'rfor'): s.loop(st, fr)
        elif k == 'switch': s.switch(st, fr)
        elif k in ('case',): s.stmt(st[3], fr)
        elif k == 'default': s.stmt(st[1], fr)
        elif k == 'break': raise _Brk()
        elif k == 'continue': raise _Cont()
        elif k == 'nop': return
        elif k == 'try':
            try: s.stmt(st[1], fr)
            except Throw:
                if not st[2]: raise
                s.stmt(st[2][0][1], fr)
        else: raise Unsupported("statement " + k)
    def switch(s, st, fr):
        c = s.val(st[1], fr)
        flat = []  # (labels, stmt)
        def add(x):
            labels = []
            while x is not None and x[0] in ('case', 'default'):
                if x[0] == 'case': labels.append(x[2]); x = x[3]
                else: labels.append('default'); x = x[1]
            flat.append((labels, x))
        body = st[2]
        if body[0] == '{}':
            for x in body[1]: add(x)
        else: add(body)
        start = None; dflt = None
        for i, (ls, x) in enumerate(flat):
            if 'default' in ls: dflt = i
        if c[0] in ('int', 'enum', 'bool'):
            n = int(c[-1])
            for i, (ls, x) in enumerate(flat):
                if n in ls: start = i; break
        else:
            for i, (ls, x) in enumerate(flat):
                for l in ls:
                    if l == 'default': continue
                    if s.fork(('bin', '==', c, I(l))): start = i; break
                if start is not None: break
        if start is None: start = dflt
        if start is None: return
        try:
            for ls, x in flat[start:]:
                if x is not None: s.stmt(x, fr)
        except _Brk: pass
    def loop(s, st, fr):
        r = s.pol.loop(s, (st, fr))
        if r is not None: return r
        k = st[0]
        if k == 'rfor':
            rng = s.expr(st[2], fr); v = s.rv(rng)
            if v[0] == 'arr':
                for j, x in enumerate(v[1]):
                    vid, nm, ty = st[1][0], st[1][1], st[1][2]
                    fr[vid] = (rng.sub(('i', I(j))) if isinstance(rng, LV) and ty.strip().endswith('&') else LV(s.cell(x)))
                    try: s.stmt(st[3], fr)
                    except _Cont: pass
                    except _Brk: break
                return
            raise Unsupported("range-for over a symbolic container")
        if k == 'for' and st[1] is not None: s.stmt(st[1], fr)
        cnt = 0
        while True:
            cond = st[2] if k == 'for' else st[1] if k == 'while' else None
            if k != 'do' or cnt > 0:
                if k == 'do': cond = st[2]
                c = s.norm(s.val(cond, fr)) if cond is not None else TRUE
                if c[0] != 'bool' and s.pol.forkloops: c = B(s.fork(c))
                if c[0] != 'bool': raise Unsupported("loop with symbolic bound")
                if not c[1]: break
            cnt += 1
            if cnt > 300: raise Unsupported("loop bound")
            try: s.stmt(st[4] if k == 'for' else st[2] if k == 'while' else st[1], fr)
            except _Cont: pass
            except _Brk: break
            if k == 'for' and st[3] is not None: s.expr(st[3], fr)


def run(prog, fn, pol, this=None, args=None, setup=None):
    """Enumerate the paths of fn. Returns a list of Path. args: list of value terms (one per parameter)."""
    if fn.body is None: raise Unsupported("no body for " + fn.q)
    paths = []; dec = []
    while True:
        ev = getattr(pol, "ev_class", Ev)(prog, pol, dec)
        if setup: setup(ev)
        p = Path()
        alist = args if args is not None else [('sym', nm or 'p%d' % k, ty) for k, (vid, nm, ty) in enumerate(fn.params)]
        cells = [LV(ev.cell(a)) for a in alist]
        tl = None
        if fn.has("meth"):
            if fn.has("ctor"): tl = LV(ev.cell(('rec', fn.rec, (), None)))
            else: tl = LV(ev.cell(this if this is not None else ('sym', 'this', fn.rec)))
        try:
            r = ev.invoke(fn, tl, list(cells))
            p.kind = 'ret'; p.value = ev.rv(r) if isinstance(r, LV) else r; p.retlv = r if isinstance(r, LV) else None
            if fn.has("ctor"): p.value = ev.read(tl)
        except Throw as t:
            p.kind = 'throw'; p.value = t.v
        except Infeasible: p.kind = 'inf'
        p.facts = ev.facts; p.rnd = ev.rnd; p.effects = ev.effects
        p.outs = [ev.read(c) for c in cells]; p.this = ev.read(tl) if tl else None; p.ev = ev
        if p.kind != 'inf': paths.append(p)
        if len(paths) > pol.max_paths: raise Budget("paths")
        full = dec[:ev.pos] + ev.new
        # backtrack
        while full and full[-1] is False: full.pop()
        if not full: return paths
        full[-1] = False; dec = full


def show(t, d=0):
    """readable rendering of a term"""
    if isinstance(t, LV): return repr(t)
    if not isinstance(t, tuple) or not t: return str(t)
    k = t[0]
    if d > 40: return '...'
    d += 1
    if k in ('int', 'flt', 'str', 'sym'): return str(t[1])
    if k == 'bool': return str(t[1]).lower()
    if k == 'enum': return t[1].split('::')[-1]
    if k == 'fld': return show(t[1], d) + '.' + t[2]
    if k == 'idx': return show(t[1], d) + '[' + show(t[2], d) + ']'
    if k == 'deref': return '*' + show(t[1], d)
    if k == 'bin': return '(' + show(t[2], d) + t[1] + show(t[3], d) + ')'
    if k == 'un': return t[1] + show(t[2], d)
    if k == 'not': return '!' + show(t[1], d)
    if k == 'fp': return 'fp' + t[1] + '[' + show(t[2], d) + '](' + ','.join(show(x, d) for x in t[3:]) + ')'
    if k == 'rec': return t[1].split('::')[-1][:30] + '{' + ','.join(f + '=' + show(v, d) for f, v in t[2]) + ('' if t[3] is None else ' from ' + show(t[3], d)) + '}'
    if k == 'app': return str(t[1]).replace('Ariadne::', '') + '(' + ','.join(show(x, d) for x in t[2:]) + ')'
    return str(k) + '(' + ','.join(show(x, d) for x in t[1:]) + ')'
