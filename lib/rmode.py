"""Typestate analysis of the two floating-point rounding modes (hardware mode, MPFR default mode).

A structured forward dataflow analysis per function: abstract state = (hardware mode, MPFR mode, modes held by local
variables, truth of repeated simple conditions).  Callees that can reach a mode primitive are analysed in the caller's
state (memoised), everything else preserves the mode.  A function that is not itself a mode setter must return with both
modes equal to their values on entry, on every normally returning path."""
from prog import Fn, walk, calls
from engine import bare

PRIM_SET = {'_mm_setcsr': 0, 'fesetround': 0, 'mpfr_set_default_rounding_mode': 1}
PRIM_GET = {'_mm_getcsr': 0, 'fegetround': 0, 'mpfr_get_default_rounding_mode': 1}


class Lost(Exception): pass


def reach(prog):
    """functions from which a mode primitive is reachable by calls with known bodies"""
    callers = {}
    base = set()
    for f in prog.fns.values():
        if f.n in PRIM_SET or f.n in PRIM_GET: base.add(f)
        if f.body is None: continue
        roots = [f.body] + ([x[2] for x in f.inits] if f.inits else [])
        for r in roots:
            for x in walk(r):
                if x and x[0] in ('call', 'mcall', 'ctor') and isinstance(x[1], Fn): callers.setdefault(x[1], set()).add(f)
                elif x and x[0] == 'fn' and isinstance(x[1], Fn): callers.setdefault(x[1], set()).add(f)
                elif x and x[0] == 'lambda':
                    for g in x[1]: callers.setdefault(g, set()).add(f)
    out = set(); st = [f for f in base]
    while st:
        f = st.pop()
        for g in callers.get(f, ()):
            if g not in out: out.add(g); st.append(g)
    return out


class St:
    __slots__ = ('m', 'v', 'c')
    def __init__(s, m, v, c): s.m = m; s.v = v; s.c = c
    def key(s): return (s.m, tuple(sorted(s.v.items(), key=repr)), tuple(sorted(s.c.items())))
    def copy(s): return St(s.m, dict(s.v), dict(s.c))


class Analysis:
    def __init__(s, prog):
        s.prog = prog; s.reach = reach(prog); s.memo = {}; s.active = []
        s.setters = set()
    # ---- function level: returns set of (modes, retval)
    def run(s, fn, modes, args):
        k = (fn.id, modes, tuple(args))
        if k in s.memo: return s.memo[k]
        if fn in s.active or len(s.active) > 24: return {(modes, None)}
        s.active.append(fn)
        try:
            v = {}
            for i, (vid, nm, ty) in enumerate(fn.params or []): v[vid] = args[i] if i < len(args) else None
            s_ret = set()
            saved = getattr(s, 'rets', None); s.rets = s_ret
            sts = [St(modes, v, {})]
            for x in fn.inits or []:
                nxt = []
                for st in sts: nxt += [a for a, _ in s.expr(x[2], st)] if x[2] is not None else [st]
                sts = s.dedup(nxt)
            out = s.stmt(fn.body, sts)
            for st in out['n']: s_ret.add((st.m, None))
            s.rets = saved
            s.memo[k] = s_ret
            return s_ret
        finally: s.active.pop()
    def dedup(s, sts):
        d = {}
        for st in sts: d.setdefault(st.key(), st)
        if len(d) > 200: raise Lost("too many states")
        return list(d.values())
    # ---- expressions: list of (state, value)
    def expr(s, e, st):
        if e is None or not isinstance(e, list) or not e: return [(st, None)]
        k = e[0]
        if k == 'int': return [(st, e[1])]
        if k == 'enum': return [(st, e[2])]
        if k == 'var':
            return [(st, st.v.get(e[1]))]
        if k in ('cast',) and len(e) > 3: return s.expr(e[3], st)
        if k == 'paren': return s.expr(e[1], st)
        if k in ('gvar',): return [(st, s.gval(e))]
        if k == 'bin':
            op = e[1]
            if op in ('&&', '||'):
                r = []
                for a, va in s.expr(e[2], st):
                    r.append((a, None))
                    r += [(b, None) for b, _ in s.expr(e[3], a.copy())]
                return r
            r = []
            for a, va in s.expr(e[2], st):
                for b, vb in s.expr(e[3], a):
                    r.append((b, s.binv(op, va, vb)))
            return r
        if k == 'un' and e[1] == '~':
            return [(a, ~v if isinstance(v, int) else None) for a, v in s.expr(e[2], st)]
        if k == 'cond':
            r = []
            for a, _ in s.expr(e[1], st):
                r += s.expr(e[2], a.copy()); r += s.expr(e[3], a.copy())
            return r
        if k == 'asg':
            r = []
            for a, v in s.expr(e[3], st):
                for b, _ in s.expr(e[2], a) if e[2][0] != 'var' else [(a, None)]:
                    if e[2][0] == 'var':
                        b = b.copy(); b.v[e[2][1]] = v if e[1] == '=' else None; s.kill(b, e[2][1])
                    r.append((b, v))
            return r
        if k in ('call', 'mcall', 'ctor') and isinstance(e[1], Fn):
            fn = e[1]
            subs = list(e[2]) if k != 'mcall' else [e[2]] + list(e[3])
            cur = [(st, [])]
            for x in subs:
                nxt = []
                for a, vs in cur:
                    for b, v in s.expr(x, a): nxt.append((b, vs + [v]))
                cur = nxt
                if len(cur) > 64: raise Lost("too many states")
            r = []
            for a, vs in cur:
                if k == 'mcall': vs = vs[1:]
                r += s.apply(fn, a, vs)
            return r
        if k == 'throw': return []
        if k == 'lambda': return [(st, None)]
        # generic: visit children in order
        cur = [st]
        for x in e[1:]:
            if isinstance(x, list) and x:
                nxt = []
                for a in cur:
                    if isinstance(x[0], str): nxt += [b for b, _ in s.expr(x, a)]
                    else:
                        c2 = [a]
                        for y in x:
                            if isinstance(y, list) and y and isinstance(y[0], str): c2 = [b for c in c2 for b, _ in s.expr(y, c)]
                        nxt += c2
                cur = s.dedup(nxt)
        if k == 'un' and e[1] in ('++', '--', 'p++', 'p--', '&') and e[2][0] == 'var':
            cur = [c.copy() for c in cur]
            for c in cur: s.kill(c, e[2][1])
        return [(a, None) for a in cur]
    def gval(s, e):
        g = s.prog.gvars.get(e[1])
        if g and g.get('init'):
            i = g['init']
            while i and i[0] in ('cast', 'paren'): i = i[3] if i[0] == 'cast' else i[1]
            if i and i[0] in ('int', 'enum'): return i[-2] if i[0] == 'int' and isinstance(i[-1], str) else i[-1] if isinstance(i[-1], int) else i[1]
        return None
    def binv(s, op, a, b):
        """csr arithmetic: getcsr()&mask is the mode, (getcsr()&~mask)|x selects x"""
        if op == '&' and isinstance(a, tuple) and a[0] == 'csr' and isinstance(b, int):
            return a[1] if b == 24576 else ('base',) if (b & 24576) == 0 else None
        if op == '|' and isinstance(a, tuple) and a[0] == 'base': return b if b is not None else 'unknown'
        if op == '|' and isinstance(b, tuple) and b[0] == 'base': return a if a is not None else 'unknown'
        return None
    def kill(s, st, vid):
        for k in [k for k in st.c if "'var', %d," % vid in k]: del st.c[k]
    def apply(s, fn, st, vs):
        if fn.n in PRIM_SET:
            st = st.copy(); v = vs[0] if vs and vs[0] is not None else 'unknown'
            m = list(st.m); m[PRIM_SET[fn.n]] = v; st.m = tuple(m); return [(st, None)]
        if fn.n in PRIM_GET:
            m = st.m[PRIM_GET[fn.n]]
            return [(st, ('csr', m) if fn.n == '_mm_getcsr' else m)]
        if fn.has('noret'): return []
        if fn in s.reach and fn.body is not None:
            if fn.n in ('fegetround',): return [(st, None)]
            r = []
            for m, v in s.run(fn, st.m, [x if not isinstance(x, tuple) else None for x in vs]):
                b = st.copy(); b.m = m; r.append((b, v))
            return r
        if fn.body is not None and fn.body[0] == '{}' and len(fn.body[1]) == 1 and fn.body[1][0][0] == 'ret' and not fn.params:
            e = fn.body[1][0][1]
            while e and e[0] in ('cast', 'paren'): e = e[3] if e[0] == 'cast' else e[1]
            if e and e[0] in ('int', 'enum', 'gvar'): return s.expr(e, st)
        return [(st, None)]
    # ---- statements: dict n(ormal) b(reak) c(ontinue) -> states
    def stmt(s, x, sts):
        E = {'n': [], 'b': [], 'c': []}
        if x is None or not sts: return {'n': sts, 'b': [], 'c': []}
        k = x[0]
        if k == '{}':
            cur = sts; E = {'n': [], 'b': [], 'c': []}
            for y in x[1]:
                r = s.stmt(y, cur); cur = s.dedup(r['n']); E['b'] += r['b']; E['c'] += r['c']
            E['n'] = cur; return E
        if k == 'e': return {'n': s.dedup([a for st in sts for a, _ in s.expr(x[1], st)]), 'b': [], 'c': []}
        if k == 'decl':
            cur = sts
            for d in x[1]:
                vid, nm, ty, init, stat = d[:5]
                s.guard(ty)
                nxt = []
                for st in cur:
                    if init is None: nxt.append(st); continue
                    for a, v in s.expr(init, st):
                        a = a.copy(); a.v[vid] = v; s.kill(a, vid); nxt.append(a)
                cur = s.dedup(nxt)
            return {'n': cur, 'b': [], 'c': []}
        if k == 'ret':
            for st in sts:
                for a, v in (s.expr(x[1], st) if x[1] is not None else [(st, None)]): s.rets.add((a.m, v if not isinstance(v, tuple) else None))
            return E
        if k == 'if':
            cur = sts
            if x[1] is not None: cur = s.stmt(x[1], cur)['n']
            t, f = [], []
            ck = s.ckey(x[2])
            for st in cur:
                if ck is not None and ck in st.c: (t if st.c[ck] else f).append(st); continue
                for a, _ in s.expr(x[2], st):
                    b = a.copy(); c = a.copy()
                    if ck is not None: b.c[ck] = True; c.c[ck] = False
                    t.append(b); f.append(c)
            r1 = s.stmt(x[3], s.dedup(t)); r2 = s.stmt(x[4], s.dedup(f))
            return {q: s.dedup(r1[q] + r2[q]) for q in 'nbc'}
        if k in ('for', 'while', 'do', 'rfor'):
            cond = x[2] if k == 'for' else x[1] if k == 'while' else x[2] if k == 'do' else None
            body = x[4] if k == 'for' else x[2] if k == 'while' else x[1] if k == 'do' else x[3]
            cur = sts
            if k == 'for' and x[1] is not None: cur = s.stmt(x[1], cur)['n']
            if k == 'rfor': cur = s.dedup([a for st in cur for a, _ in s.expr(x[2], st)])
            seen = {}; out = []
            work = list(cur)
            first = True
            while work:
                if k == 'do' and first: pre = work
                else:
                    pre = []
                    for st in work:
                        for a, _ in s.expr(cond, st):
                            out.append(a); pre.append(a.copy())
                first = False
                r = s.stmt(body, s.dedup(pre))
                out += r['b']
                nxt = r['n'] + r['c']
                if k == 'for' and x[3] is not None: nxt = [a for st in nxt for a, _ in s.expr(x[3], st)]
                work = []
                for st in nxt:
                    if st.key() not in seen: seen[st.key()] = 1; work.append(st)
                if len(seen) > 400: raise Lost("loop states")
                if k == 'do': out += nxt
            return {'n': s.dedup(out), 'b': [], 'c': []}
        if k == 'switch':
            cur = s.dedup([a for st in sts for a, _ in s.expr(x[1], st)])
            fall = []; out = []; E2 = []
            body = x[2][1] if x[2] and x[2][0] == '{}' else [x[2]]
            hasd = False
            live = []
            for y in body:
                z = y; lab = False
                while z is not None and z[0] in ('case', 'default'):
                    lab = True
                    if z[0] == 'default': hasd = True; z = z[1]
                    else: z = z[3]
                if lab: live = s.dedup(live + [c.copy() for c in cur])
                if z is not None:
                    r = s.stmt(z, live); live = r['n']; out += r['b']; E2 += r['c']
            return {'n': s.dedup(out + live + ([] if hasd else cur)), 'b': [], 'c': E2}
        if k in ('case',): return s.stmt(x[3], sts)
        if k == 'default': return s.stmt(x[1], sts)
        if k == 'break': return {'n': [], 'b': sts, 'c': []}
        if k == 'continue': return {'n': [], 'b': [], 'c': sts}
        if k == 'nop': return {'n': sts, 'b': [], 'c': []}
        if k == 'try':
            r = s.stmt(x[1], sts)
            for h in x[2]:
                q = s.stmt(h[1], [st.copy() for st in sts])
                for z in 'nbc': r[z] = s.dedup(r[z] + q[z])
            return r
        raise Lost("statement " + k)
    def ckey(s, e):
        for x in walk(e):
            if x and isinstance(x[0], str) and x[0] not in ('var', 'int', 'bool', 'cast', 'bin', 'un', 'enum', 'paren', 'gvar'): return None
        return repr(e)
    def guard(s, ty):
        rec = s.prog.recs.get(bare(ty))
        if rec:
            for m in rec['methods']:
                if m.n.startswith('~') and m in s.reach: raise Lost("scope guard object " + bare(ty))


ENTRY = ('entry-dp', 'entry-mp')


def check(prog, scope):
    """[(fn, verdict, detail)] for every function in scope that can reach a mode change.

    A function is blamed only when none of its own callees is already at fault (the fault is where the mode is changed),
    and not when it is an internal helper all of whose callers restore the mode themselves."""
    an = Analysis(prog)
    out = []; setreach = set(); callers = {}; callees = {}
    for f in prog.bodies():
        for r in [f.body] + [x[2] for x in f.inits or []]:
            for x in walk(r):
                if x and x[0] in ('call', 'mcall', 'ctor') and isinstance(x[1], Fn): callers.setdefault(x[1], set()).add(f); callees.setdefault(f, set()).add(x[1])
    st = [f for f in prog.fns.values() if f.n in PRIM_SET]
    while st:
        f = st.pop()
        for g in callers.get(f, ()):
            if g not in setreach: setreach.add(g); st.append(g)
    verd = {}
    for f in sorted(setreach, key=lambda f: (f.file, f.line, f.id)):
        if f.n in PRIM_SET or f.body is None or f.pat or f.file.startswith('/usr'): continue
        if f.n.startswith('set_') and 'rounding' in f.n: continue
        try: rs = an.run(f, ENTRY, ['arg%d' % i for i in range(len(f.params or []))])
        except Lost as e:
            an.active = []; verd[f] = ('undecided', str(e)); continue
        bad = [m for m, v in rs if m != ENTRY]
        if not bad: verd[f] = ('proved', '%d exit states' % len(rs))
        elif any('unknown' in m for m in bad): verd[f] = ('undecided', 'mode set from a value the analysis does not track')
        else: verd[f] = ('violated', 'returns with the %s rounding mode changed to %s' % (('hardware', MODE.get(bad[0][0], bad[0][0])) if bad[0][0] != ENTRY[0] else ('multiple-precision', MODE2.get(bad[0][1], bad[0][1]))))
    V = {f for f, v in verd.items() if v[0] == 'violated'}
    good = {f for f in verd if f not in V}
    comp = set(); ch = True
    while ch:
        ch = False
        for f in V - comp:
            cs = [c for c in callers.get(f, ()) if c is not f]
            if cs and all((c in good) or (c in comp) for c in cs): comp.add(f); ch = True
    for f, (v, d) in verd.items():
        if not scope(f): continue
        if v == 'violated':
            inner = [c for c in callees.get(f, ()) if c in V and c is not f]
            if f in comp: v, d = 'proved', 'helper whose callers all restore the mode'
            elif inner: v, d = 'undecided', 'inherits the change from ' + inner[0].sig()[:120]
        out.append((f, v, d))
    return out


MODE = {0: 'to nearest', 8192: 'downward', 16384: 'upward', 24576: 'toward zero', 1024: 'downward', 2048: 'upward', 3072: 'toward zero'}
MODE2 = {0: 'to nearest', 1: 'toward zero', 2: 'upward', 3: 'downward'}
