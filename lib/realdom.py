"""Real-level abstract domain: numbers of every class stand for the reals they represent, logical values of every class for
truth values, vectors and arrays for finite sequences of concrete length.  The result of a run is a closed-form term over
the free numbers; judging evaluates that term (exactly, over the rationals, as long as it is rational) at points that
satisfy the facts of the path."""
import re, math, random, itertools
from fractions import Fraction as Q
from engine import *
from fmodel import split_args

A = 'Ariadne::'
NUMRE = re.compile(r'^Ariadne::(Real|Integer|Dyadic|Decimal|Rational|Natural|ExactDouble|ApproximateDouble|TwoExp|PositiveReal|(Number|LowerNumber|UpperNumber|ElementaryAlgebra|Positive|Bounds|Ball|UpperBound|LowerBound|Approximation|Error|Float|Rounded)<.*>|Positive[A-Z][A-Za-z]*(<.*>)?)$')
BUILTN = {'int', 'unsigned int', 'unsigned long', 'long', 'double', 'float', 'short', 'char', 'unsigned short', 'unsigned char', 'long long', 'unsigned long long'}
LOGRE = re.compile(r'^(bool|Ariadne::((Naive|Validated|Effective|Approximate|Exact)?(Lower|Upper|Negated)?(Kleenean|Sierpinskian|Boolean)|Logical.*|(Effective)?(Lower|Upper)Kleenean|LogicalType<.*>))$')
PRRE = re.compile(r'^Ariadne::(DoublePrecision|MultiplePrecision|Precision.*|DP|MP|Effort|Accuracy)$')
UN = {'nul', 'pos', 'neg', 'hlf', 'sqr', 'rec', 'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'abs', 'mag', 'mig', 'norm_'}
BI = {'add', 'sub', 'mul', 'div', 'max', 'min', 'pow', 'fma'}
INFIX = {'operator+': 'add', 'operator-': 'sub', 'operator*': 'mul', 'operator/': 'div'}
CMPS = {'operator==': 'eq', 'operator!=': 'ne', 'operator<': 'lt', 'operator>': 'gt', 'operator<=': 'le', 'operator>=': 'ge', 'eq': 'eq', 'lt': 'lt', 'leq': 'le', 'less': 'lt', 'gtr': 'gt', 'geq': 'ge', 'neq': 'ne', 'equal': 'eq'}
KEEP = {'raw', 'get_d', 'value', 'lower', 'upper', 'lower_raw', 'upper_raw', 'value_raw', 'cast_positive', 'cast_exact', 'cast_raw', 'make_split_point', 'cast_unsigned', 'bounds', 'ball', 'generic', 'get', 'compute', 'compute_get', 'best', 'midpoint_', 'make_singleton', 'approximation', 'make_number', 'cast_approximation', 'make_bounds', 'create_constant_'}
LOGQ = {'definitely', 'possibly', 'decide', 'probably', 'check', 'is_true', 'likely', 'operator bool', 'validated'}
SEQ = ('Vector<', 'Covector<', 'Array<', 'SharedArray<', 'List<', 'Point<', 'VectorExpression<', 'VectorContainer<', 'InitializerList<')


def isnum(t): t = bare(t); return t in BUILTN or bool(NUMRE.match(t))
def islog(t): return bool(LOGRE.match(bare(t)))
def ispr(t): return bool(PRRE.match(bare(t)))
def isseq(t): t = bare(t); return t.startswith(tuple(A + x for x in SEQ)) or t.startswith(('std::vector<', 'std::initializer_list<', 'std::array<'))


class RPol(Policy):
    max_paths = 3000
    max_steps = 600000
    seqmore = ()
    def isseq(s, rec): return isseq(rec)
    def isnumv(s, v):
        k = v[0]
        if k in ('num', 'int', 'flt', 'nop'): return True
        if k == 'bin' and v[1] in '+-*/%': return s.isnumv(v[2]) and s.isnumv(v[3])
        if k == 'un' and v[1] in '-+': return s.isnumv(v[2])
        if k in ('icast', 'cast'): return s.isnumv(v[-1])
        return False
    def num(s, v):
        """the number held in a value"""
        while v[0] == 'rec' and isnum(v[1]):
            if len(v[2]) == 1: v = v[2][0][1]
            elif not v[2] and v[3] is not None: v = v[3]
            elif v[2] and all(x == v[2][0][1] for _, x in v[2]): v = v[2][0][1]
            else: break
        if v[0] == 'fp': return ('nop', {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}.get(v[1], v[1])) + tuple(s.num(x) for x in v[3:])
        return v
    def islogv(s, v):
        return v[0] in ('bool', 'ncmp', 'lit') or v[0] in ('not', 'and', 'or') and all(s.islogv(x) for x in v[1:]) or v[0] == 'bin' and v[1] in ('==', '<', '!=', '>', '<=', '>=')
    def log(s, v):
        while v[0] == 'rec' and islog(v[1]):
            if len(v[2]) == 1: v = v[2][0][1]
            elif not v[2] and v[3] is not None: v = v[3]
            else: break
        if v[0] == 'enum' and 'LogicalValue' in v[1]: return B(v[2] > 0)
        return v
    def ncmp(s, ev, op, a, b):
        if op == 'ne': return ev.norm(('un', '!', s.ncmp(ev, 'eq', a, b)))
        if op == 'gt': return s.ncmp(ev, 'lt', b, a)
        if op == 'ge': return ev.norm(('un', '!', s.ncmp(ev, 'lt', a, b)))
        if op == 'le': return ev.norm(('un', '!', s.ncmp(ev, 'lt', b, a)))
        ca, cb = cval(a), cval(b)
        if ca is not None and cb is not None: return B(ca == cb if op == 'eq' else ca < cb)
        if a == b: return B(op == 'eq')
        return ('ncmp', op, a, b)
    def extra(s, ev, fn, this, args, node): return None
    def gvar(s, ev, q, ty):
        t = q.split('::')[-1]
        if t in ('inf', 'infinity'): return ('flt', 'inf')
        if t == 'pi': return ('flt', repr(math.pi))
        if t in ('dp', 'mp', 'double_precision', 'multiple_precision', 'dp_'): return ('prec',)
        if t in ('indeterminate',): return ('lit', 'indeterminate')
        return None
    def call(s, ev, fn, this, args, node):
        n, rec = fn.n, fn.rec or ''
        rv = ev.rv
        r = s.extra(ev, fn, this, args, node)
        if r is not None: return r
        ctor = fn.has('ctor')
        tv = rv(this) if this is not None and not ctor else None
        if tv is not None and tv[0] == 'lam' and n == 'operator()': return ('term', rv(ev.calllam(tv, fn, args)))
        # precisions
        if fn.ret and ispr(fn.ret) and not ctor: return ('term', ('prec',))
        if ctor and ispr(rec): return ('term', ('prec',))
        # sequences
        if ctor and (s.isseq(rec) or rec.startswith(tuple(A + x for x in s.seqmore))):
            vs = [rv(a) for a in args]
            if not vs: return ('term', ('arr', ()))
            if vs[0][0] == 'arr': return ('term', vs[0])
            if len(vs) == 1 and vs[0][0] == 'rec' and rec.startswith(A + 'Point<') and field(vs[0], '_vec')[0] == 'arr': return ('term', field(vs[0], '_vec'))
            if vs[0][0] == 'int' and vs[0][1] >= 0 and vs[0][1] < 64:
                k = vs[0][1]
                if len(vs) >= 2 and vs[1][0] == 'lam':
                    f = ev.closures[vs[1][1]][0][0]
                    return ('term', ('arr', tuple(rv(ev.calllam(vs[1], f, [I(i)])) for i in range(k))))
                if len(vs) >= 2 and not (vs[1][0] == 'prec'): return ('term', ('arr', (s.conv_elem(ev, rec, vs[1]),) * k))
                return ('term', ('arr', (s.zero_elem(rec),) * k))
            if len(vs) >= 2 and vs[0][0] == 'ptr' and vs[1][0] == 'ptr' and vs[0][1] == vs[1][1]:
                base = rv(LV(vs[0][1], vs[0][2][:-1])) if vs[0][2] and vs[0][2][-1][0] == 'i' else None
                if base is not None and base[0] == 'arr': return ('term', ('arr', base[1][vs[0][2][-1][1][1]:vs[1][2][-1][1][1]]))
            return None
        if tv is not None and tv[0] == 'arr':
            if n in ('operator[]', 'at', 'get', 'operator()') and len(args) == 1:
                i = rv(args[0])
                if i[0] == 'int' and 0 <= i[1] < len(tv[1]): return this.sub(('i', i)) if isinstance(this, LV) else ('term', tv[1][i[1]])
                if i[0] == 'int': raise Throw(('index out of range', i))
            if n in ('size', 'dimension'): return ('term', I(len(tv[1])))
            if n == 'empty': return ('term', B(not tv[1]))
            if n == 'back' and tv[1]: return this.sub(('i', I(len(tv[1]) - 1)))
            if n == 'front' and tv[1]: return this.sub(('i', I(0)))
            if n in ('append', 'push_back') and len(args) == 1: ev.write(this, ('arr', tv[1] + (rv(args[0]),))); return ('term', ('void',))
            if n == 'set' and len(args) == 2:
                i = rv(args[0])
                if i[0] == 'int': ev.write(this.sub(('i', i)), rv(args[1])); return ('term', ('void',))
            if n == 'resize' and rv(args[0])[0] == 'int':
                k = rv(args[0])[1]; ev.write(this, ('arr', (tv[1] + (s.zero_elem(rec),) * k)[:k])); return ('term', ('void',))
            if n == 'operator=' and rv(args[0])[0] == 'arr': ev.write(this, rv(args[0])); return this
            if n in ('begin', 'cbegin') : return ('term', ('ptr', this.cell, this.path + (('i', I(0)),)))
            if n in ('end', 'cend'): return ('term', ('ptr', this.cell, this.path + (('i', I(len(tv[1]))),)))
            if n == 'zero_element': return ('term', I(0))
            if n in ('reserve',): return ('term', ('void',))
        # truth values
        if ctor and islog(rec):
            if not args: return ('term', ('lit', 'indeterminate'))
            v = s.log(rv(args[0]))
            if s.islogv(v): return ('term', v)
        ar = ([tv] if this is not None and not fn.has('static') and not ctor else []) + [rv(a) for a in args]
        if not ctor and ar:
            ls = [s.log(a) for a in ar if a[0] != 'prec']
            if ls and all(s.islogv(a) for a in ls) and (any(a[0] != 'bool' for a in ls) or fn.ret and islog(fn.ret)):
                if n in LOGQ or n.startswith('operator ') and islog(fn.ret): return ('term', ls[0])
                if n in ('operator&&', 'operator&', 'conjunction') and len(ls) == 2: return ('term', conj(ls[0], ls[1]))
                if n in ('operator||', 'operator|', 'disjunction') and len(ls) == 2: return ('term', disj(ls[0], ls[1]))
                if n in ('operator!', 'negation') and len(ls) == 1: return ('term', ev.norm(('un', '!', ls[0])))
                if n == 'operator=' and this is not None: ev.write(this, ls[-1]); return this
        # numbers
        ns = [s.num(a) for a in ar if a[0] != 'prec' and not (a[0] == 'enum' and 'Round' in a[1])]
        if ctor and isnum(rec):
            if not ns: return ('term', I(0)) if args or bare(rec) not in BUILTN else None
            if len(ns) == 1 and s.isnumv(ns[0]): return ('term', ns[0])
            if len(ns) == 2 and ns[0] == ns[1] and s.isnumv(ns[0]): return ('term', ns[0])
            if fn.has('copy') or fn.has('move'): return ('term', ns[0])
        if not ctor and ns and all(s.isnumv(a) for a in ns):
            if fn.ret and (isnum(fn.ret) or not fn.ret.strip()) or n in INFIX or n in UN or n in BI:
                if n in KEEP and len(ns) == 1: return ('term', ns[0])
                if n.startswith('operator ') and isnum(fn.ret): return ('term', ns[0])
                if n in UN and len(ns) == 1 and isnum(fn.ret): return ('term', nop(n, *ns))
                if n in BI and len(ns) in (2, 3) and isnum(fn.ret): return ('term', nop(n, *ns))
                if n in INFIX and isnum(fn.ret): return ('term', nop(INFIX[n], *ns) if len(ns) == 2 else nop('neg', *ns) if n == 'operator-' else ns[0])
            if n in CMPS and len(ns) == 2 and fn.ret and islog(fn.ret): return ('term', s.ncmp(ev, CMPS[n], *ns))
            if n in ('same', 'refines', 'refinement') and len(ns) == 2:
                if n == 'same': return ('term', s.ncmp(ev, 'eq', *ns))
            if n[:-1] in INFIX and n.endswith('=') and len(ns) == 2:
                l = this if this is not None and not fn.has('static') else args[0]
                if isinstance(l, LV): ev.write(l, nop(INFIX[n[:-1]], *ns)); return l
            if n == 'operator=' and this is not None: ev.write(this, ns[-1]); return this
            if n in ('is_nan', 'isnan', 'is_inf', 'isinf') : return ('term', FALSE)
            if n in ('swap',) and len(args) == 2: return None
        if n == 'error' and tv is not None and s.isnumv(s.num(tv)): return ('term', I(0))
        if fn.body is None and n in ('abort', 'exit') or fn.has('noret'): raise Throw(('abort',))
        if fn.ret and 'ostream' in fn.ret: return ('term', ('ostream',))
        if rec.startswith('std::basic_ostream') or rec.startswith('std::basic_stringstream') or rec.startswith('std::basic_ostringstream'): return ('term', ('ostream',))
        if rec.startswith('std::basic_string'): return ('term', ('str', ''))
        return None
    def conv_elem(s, ev, rec, v): return v
    def zero_elem(s, rec): return ('uninit', rec, '')


def cval(v):
    if v[0] == 'int': return Q(v[1])
    if v[0] == 'flt':
        x = float(v[1])
        return x if math.isinf(x) else Q(x)
    return None


def nop(op, *a):
    cs = [cval(x) for x in a]
    if all(c is not None and not isinstance(c, float) for c in cs):
        x = SEMQ(op, cs)
        if isinstance(x, Q) and x.denominator == 1: return I(int(x))
    return ('nop', op) + a


def conj(a, b):
    if a[0] == 'bool': return b if a[1] else a
    if b[0] == 'bool': return a if b[1] else b
    return ('and', a, b)


def disj(a, b):
    if a[0] == 'bool': return a if a[1] else b
    if b[0] == 'bool': return b if b[1] else a
    return ('or', a, b)


class Undef(Exception): pass


def SEMQ(op, xs):
    """value of an operation; None where it is undefined"""
    inf = any(isinstance(x, float) and math.isinf(x) for x in xs)
    try:
        if op == 'nul': return Q(0)
        if op == 'pos': return xs[0]
        if op == 'neg': return -xs[0]
        if op == 'hlf': return xs[0] / 2
        if op == 'sqr': return xs[0] * xs[0]
        if op in ('abs', 'mag', 'mig'): return abs(xs[0])
        if op == 'rec': return 1 / xs[0] if xs[0] != 0 else None
        if op == 'add': return xs[0] + xs[1]
        if op == 'sub': return xs[0] - xs[1]
        if op == 'mul': return xs[0] * xs[1]
        if op == 'div': return xs[0] / xs[1] if xs[1] != 0 else None
        if op == 'fma': return xs[0] * xs[1] + xs[2]
        if op == 'max': return max(xs)
        if op == 'min': return min(xs)
        if op == 'pow':
            k = int(xs[1])
            if k < 0 and xs[0] == 0: return None
            return xs[0] ** k
        if op == 'sqrt' and not inf:
            if xs[0] < 0: return None
            if isinstance(xs[0], Q):
                a, b = math.isqrt(xs[0].numerator), math.isqrt(xs[0].denominator)
                if a * a == xs[0].numerator and b * b == xs[0].denominator: return Q(a, b)
            return math.sqrt(xs[0])
        if op == '%': return xs[0] % xs[1] if xs[1] else None
        f = {'exp': math.exp, 'log': math.log, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan}.get(op)
        if f is None: raise Unsupported("operation " + op)
        return f(xs[0])
    except (ValueError, OverflowError, ZeroDivisionError): return None


class Model:
    def __init__(s, env): s.env = env; s.memo = {}
    def num(s, v):
        k = id(v)
        if k in s.memo: return s.memo[k][1]
        r = s._num(v); s.memo[k] = (v, r); return r
    def _num(s, v):
        k = v[0]
        if k in ('int', 'flt'): return cval(v)
        if k == 'num':
            if v[1] not in s.env: raise Unsupported("free number " + str(v[1]))
            return s.env[v[1]]
        if k == 'nop': op, a = v[1], v[2:]
        elif k == 'bin' and v[1] in '+-*/%': op, a = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': '%'}[v[1]], v[2:]
        elif k == 'un' and v[1] == '-': op, a = 'neg', v[2:]
        elif k in ('icast', 'cast'): return s.num(v[-1])
        elif k == 'ite': return s.num(v[2] if s.log(v[1]) else v[3])
        elif k == 'rec' and isnum(v[1]) and len(v[2]) == 1: return s.num(v[2][0][1])
        elif k == 'rec' and isnum(v[1]) and not v[2] and v[3]: return s.num(v[3])
        elif k == 'rec' and isnum(v[1]) and v[2] and all(x == v[2][0][1] for _, x in v[2]): return s.num(v[2][0][1])
        else: raise Unsupported("number " + show(v)[:300])
        x = SEMQ(op, [s.num(y) for y in a])
        if x is None: raise Undef(op)
        if isinstance(x, float) and x != x: raise Undef(op)
        return x
    def log(s, v):
        k = v[0]
        if k == 'bool': return v[1]
        if k == 'not': return not s.log(v[1])
        if k == 'and': return s.log(v[1]) and s.log(v[2])
        if k == 'or': return s.log(v[1]) or s.log(v[2])
        if k == 'ncmp':
            a, b = s.num(v[2]), s.num(v[3])
            if isinstance(a, float) or isinstance(b, float):
                if not (math.isinf(a) or math.isinf(b)) and abs(a - b) < 1e-9: raise Undef('tie')
            return a == b if v[1] == 'eq' else a < b
        if k == 'bin' and v[1] in ('==', '<'): a, b = s.num(v[2]), s.num(v[3]); return a == b if v[1] == '==' else a < b
        if k == 'rec' and islog(v[1]) and len(v[2]) == 1: return s.log(v[2][0][1])
        if k == 'enum' and 'LogicalValue' in v[1]: return v[2] > 0
        raise Unsupported("truth value " + show(v)[:80])
    def consistent(s, facts):
        for f, d in facts:
            if s.log(f) != d: return False
        return True


def near(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if math.isinf(a) or math.isinf(b): return a == b
        return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
    return a == b
