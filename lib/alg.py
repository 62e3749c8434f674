"""Gated value graphs in algebraic normal form.

The value of an SSA variable is rewritten, through the (acyclic) control flow that selects it, into a polynomial over
atoms: argument values, memory elements, indicators of conditions, reciprocals and opaque function applications.
Vectors are lists of lanes.  Two computations are compared by deciding whether the difference of their normal forms is
identically zero.  Nothing is executed: the input is the resolved program (IR), the output an algebraic identity."""
from fractions import Fraction
import re
import ir
from ir import const_int, const_fp

ONE = ()
BOOL = ('eq0', 'gt0')


class Unknown(Exception):
    pass


def C(c):
    c = Fraction(c)
    return {ONE: c} if c else {}


def A(*a):
    return {((tuple(a), 1),): Fraction(1)}


def add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def sub(p, q):
    return add(p, q, -1)


def scale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


_key = {}


def akey(a):
    k = _key.get(a)
    if k is None:
        k = _key[a] = repr(a)
    return k


def mono_mul(m, n):
    e = {}
    for a, k in m:
        e[a] = e.get(a, 0) + k
    for a, k in n:
        e[a] = e.get(a, 0) + k
    for a in list(e):
        if e[a] == 0:
            del e[a]
        elif a[0] in BOOL:
            e[a] = 1
            if a[0] == 'eq0':
                if ('gt0', a[1]) in e:
                    return None
                if len(a[1]) == 1 and len(a[1][0][0]) == 1:
                    b, k = a[1][0][0][0]
                    if k == 1 and e.get(b, 0) > 0:
                        return None             # [x = 0] * x
    return tuple(sorted(e.items(), key=lambda t: akey(t[0])))


def mul(p, q):
    if len(p) * len(q) > 60000:
        raise Unknown('too large')
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mono_mul(m, n)
            if k is None:
                continue
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def power(p, n):
    r = C(1)
    for _ in range(n):
        r = mul(r, p)
    return r


def freeze(p):
    return tuple(sorted(p.items(), key=lambda t: repr(t[0])))


def thaw(t):
    return dict(t)


def lead(p):
    """(coefficient) of the canonical leading monomial"""
    m = max(p, key=lambda m: (sum(abs(k) for a, k in m), repr(m)))
    return p[m]


def canon(p):
    """(p / |lead|, sign): canonical representative up to scale"""
    c = lead(p)
    return scale(p, 1 / c), (1 if c > 0 else -1)


def inv(p):
    if not p:
        return A('undef')
    if len(p) == 1:
        (m, c), = p.items()
        if not any(a[0] in BOOL for a, k in m):
            return {tuple((a, -k) for a, k in m): 1 / c}
    q, s = canon(p)
    return scale(A('inv', freeze(q)), 1 / lead(p))


def is_const(p):
    return not p or list(p) == [ONE]


def cval(p):
    return p.get(ONE, Fraction(0))


def eq0(p):
    if is_const(p):
        return C(1 if cval(p) == 0 else 0)
    q, s = canon(p)
    return A('eq0', freeze(q))


def gt0(p):
    if is_const(p):
        return C(1 if cval(p) > 0 else 0)
    q, s = canon(p)
    g = counting(q)
    if g is None:
        g = A('gt0', freeze(q))
    if s > 0:
        return g
    return sub(sub(C(1), g), eq0(q))          # -q > 0  <=>  not (q > 0 or q == 0)


def counting(q):
    """q > 0 for loop counters, which are never negative"""
    if all(c > 0 and all(a[0] in COUNTERS and k > 0 for a, k in m) for m, c in q.items()):
        if q.get(ONE, 0) > 0:
            return C(1)
        if len(q) == 1 and len(next(iter(q))) == 1:
            return sub(C(1), eq0(q))
    return None


COUNTERS = ('it', 'I', 'bv')


def ge0(p):
    return add(gt0(p), eq0(p))


def NOT(p):
    return sub(C(1), p)


def sel(c, a, b):
    return add(mul(c, a), mul(NOT(c), b))


def absv(p):
    return mul(p, sub(scale(gt0(p), 2), NOT(eq0(p)))) if not is_const(p) else C(abs(cval(p)))


def maxv(a, b):
    return add(b, mul(sub(a, b), gt0(sub(a, b))))


def minv(a, b):
    return sub(a, mul(sub(a, b), gt0(sub(a, b))))


INTEGRAL = ('arg', 'it', 'I', 'eq0', 'gt0', 'exit', 'bv')
INTFN = ('udiv', 'sdiv', 'and', 'or', 'int', 'lround', 'iceil', 'ifloor')


def integral(p):
    """p is a polynomial with integer coefficients in values of integer type (arguments that occur in it are taken to be integers)"""
    return all(c.denominator == 1 and all(k > 0 and (a[0] in INTEGRAL or a[0] == 'fn' and a[1] in INTFN) for a, k in m) for m, c in p.items())


def extent(p):
    """(least, greatest) value of a sum of conditions, each group of conditions on one quantity taken together; None if p is something else"""
    lo = hi = Fraction(0)
    grp = {}
    for m, c in p.items():
        if not m:
            lo, hi = lo + c, hi + c
            continue
        if len(m) != 1 or m[0][1] != 1 or m[0][0][0] not in ('eq0', 'gt0'):
            return None
        a = m[0][0]
        g = grp.setdefault(a[1], {})
        g[a] = g.get(a, Fraction(0)) + c
    for g in grp.values():
        v = list(g.values()) + [Fraction(0)]                # q = 0, q > 0, q < 0
        lo, hi = lo + min(v), hi + max(v)
    return lo, hi


def disjoint(p, q):
    """p | q as a sum when one is a power of two above the values of the other"""
    for x, y in ((p, q), (q, p)):
        if is_const(y) and cval(y) > 0 and cval(y).denominator == 1 and cval(y).numerator & (cval(y).numerator - 1) == 0 and not is_const(x):
            e = extent(x)
            if e is not None and 0 <= e[0] and e[1] < cval(y) and all(c.denominator == 1 for c in x.values()):
                return add(x, y)
    return None


def exact_div(p, q):
    """p / q when q (a number or one symbol) divides every term, else None"""
    if len(q) != 1:
        return None
    (m, c), = q.items()
    if not c or len(m) > 1 or m and (m[0][1] != 1):
        return None
    r = {}
    for n, x in p.items():
        if m:
            e = dict(n)
            if e.get(m[0][0], 0) < 1:
                return None
            n = tuple((a, k - (1 if a == m[0][0] else 0)) for a, k in n if k - (1 if a == m[0][0] else 0))
        r[n] = x / c
    return r if integral(r) else None


def fn(name, *args):
    if name in ('udiv', 'sdiv') and len(args) == 2:
        r = exact_div(args[0], args[1])
        if r is not None:
            return r
        if name == 'udiv' and len(args[1]) == 1 and () in args[1] and args[1][()] > 1:
            # (c q + r) / c is q for integers q and 0 <= r < c
            c, p = args[1][()], dict(args[0])
            r = p.pop((), Fraction(0))
            if p and 0 <= r < c and r.denominator == 1 and all((x / c).denominator == 1 for x in p.values()):
                q = {m: x / c for m, x in p.items()}
                if integral(q):
                    return q
    return A('fn', name, *[freeze(a) for a in args])


def cmp_poly(pred, a, b, fp):
    d = sub(a, b)
    p = pred
    if p in ('eq', 'oeq', 'ueq'):
        return eq0(d)
    if p in ('ne', 'one', 'une'):
        return NOT(eq0(d))
    if p in ('ord', 'uno'):
        r = A('fn', 'isnan', freeze(a), freeze(b))
        return r if p == 'uno' else NOT(r)
    if p in ('true', 'false'):
        return C(1 if p == 'true' else 0)
    k = p[1:]
    if k == 'gt':
        r = gt0(d)
    elif k == 'ge':
        r = ge0(d)
    elif k == 'lt':
        r = gt0(scale(d, -1))
    elif k == 'le':
        r = ge0(scale(d, -1))
    else:
        raise Unknown(pred)
    return r


def atoms(p):
    s = set()
    for m in p:
        for a, k in m:
            s.add(a)
    return s


def subst_atom(p, a, q):
    """replace atom a (non negative exponents) by poly q at top level"""
    r = {}
    for m, c in p.items():
        e = dict(m).get(a, 0)
        rest = tuple(x for x in m if x[0] != a)
        if e < 0:
            qq = power(inv(q), -e)
        else:
            qq = power(q, e)
        r = add(r, mul({rest: c}, qq))
    return r


def rebuild(p, f):
    """apply f to atoms everywhere (inside frozen arguments as well); f(atom) -> poly or None"""
    r = {}
    for m, c in p.items():
        t = {ONE: c}
        for a, k in m:
            q = f(a)
            if q is None:
                q = remake(a, f)
            t = mul(t, power(q, k) if k >= 0 else power(inv(q), -k))
        r = add(r, t)
    return r


def remake(a, f):
    if a[0] == 'eq0':
        return eq0(rebuild(thaw(a[1]), f))
    if a[0] == 'gt0':
        return gt0(rebuild(thaw(a[1]), f))
    if a[0] == 'inv':
        return inv(rebuild(thaw(a[1]), f))
    if a[0] == 'fn':
        return A('fn', a[1], *[freeze(rebuild(thaw(x), f)) if isinstance(x, tuple) else x for x in a[2:]])
    if a[0] == 'ld':
        return A('ld', a[1], freeze(rebuild(thaw(a[2]), f)))
    return {((a, 1),): Fraction(1)}


TOL = 2e-6


def split_const(t):
    """frozen poly -> (frozen non-constant part, constant)"""
    c = Fraction(0)
    r = []
    for m, k in t:
        if m == ONE:
            c = k
        else:
            r.append((m, k))
    return tuple(r), c


def assume(p, a, truth):
    """p under the assumption that boolean atom a is true/false, with everything this implies for conditions on the same expression"""
    x, c = split_const(a[1])
    c0, c1 = {}, C(1)
    lin = None
    if a[0] == 'eq0' and truth:
        d = thaw(a[1])
        y = linear_atom(d)
        if y is not None:
            lin = y, scale({m: k for m, k in d.items() if m != ((y, 1),)}, -1 / d[((y, 1),)])

    def f(b):
        if b == a:
            return c1 if truth else c0
        if b[0] in BOOL:
            z, k = split_const(b[1])
            if z == x:
                if a[0] == 'gt0' and truth:          # x > -c
                    if k >= c:
                        return c1 if b[0] == 'gt0' else c0
                elif a[0] == 'gt0':                  # x <= -c
                    if (k <= c if b[0] == 'gt0' else k < c):
                        return c0
                elif truth:                          # x = -c
                    return c1 if (k > c if b[0] == 'gt0' else k == c) else c0
        if lin is not None and b == lin[0]:
            return lin[1]
        return None
    r = rebuild(p, f)
    if a[0] == 'eq0' and truth and lin is None:
        r = modulo(r, thaw(a[1]))
    return r


def modulo(p, d):
    """p reduced by d = 0"""
    lm = max(d, key=lambda m: (sum(abs(k) for a, k in m), repr(m)))
    if not lm or any(a[0] in BOOL for a, k in lm):
        return p
    for _ in range(40):
        for m, c in p.items():
            e = dict(m)
            if all(e.get(a, 0) >= k > 0 for a, k in lm):
                q = tuple(sorted(((a, k) for a, k in ((a, e[a] - dict(lm).get(a, 0)) for a in e) if k), key=lambda t: akey(t[0])))
                p = sub(p, mul({q: c / d[lm]}, d))
                break
        else:
            return p
    return p


def is_zero(p, depth=0, facts=()):
    if not p:
        return True
    if depth > 18:
        return False
    at = atoms(p)
    n = nested_bool(at)
    if n is None:
        e = sorted((a for a in at if a[0] == 'eq0'), key=akey) or sorted((a for a in at if a[0] == 'gt0'), key=akey)
        n = e[0] if e else None
    if n is not None:
        for t in (True, False):
            fs = facts + ((n, t),)
            try:
                q = assume(p, n, t)
                for _ in range(3):
                    old = q
                    for b, u in fs:
                        q = assume(q, b, u)
                    if q == old:
                        break
            except Unknown:
                return False
            if not is_zero(q, depth + 1, fs):
                return False
        return True
    iv = [a for a in at if a[0] == 'inv']
    if iv:
        a = iv[0]
        d = thaw(a[1])
        kmax = max(dict(m).get(a, 0) for m in p)
        kmin = min(dict(m).get(a, 0) for m in p)
        r = {}
        for m, c in p.items():
            k = dict(m).get(a, 0)
            rest = tuple(x for x in m if x[0] != a)
            r = add(r, mul({rest: c}, power(d, kmax - k)))
        return is_zero(r, depth + 1, facts) if r else True
    big = max(abs(c) for c in p.values())
    return big < Fraction(TOL)


def nested_bool(at):
    """an innermost boolean atom that occurs inside another boolean atom of the set, or None"""
    for a in sorted((a for a in at if a[0] in BOOL), key=akey):
        inner = [b for b in atoms(thaw(a[1])) if b[0] in BOOL]
        if inner:
            n = nested_bool(inner)
            return n if n is not None else sorted(inner, key=akey)[0]
    return None


def linear_atom(d):
    for m, c in sorted(d.items(), key=lambda t: repr(t[0])):
        if len(m) == 1 and m[0][1] == 1:
            x = m[0][0]
            if not any(x in dict(n) for n in d if n != m) and x[0] in ('ld', 'arg', 'v', 'x', 'el'):
                return x
    return None


def same(p, q):
    s = max([abs(c) for c in p.values()] + [abs(c) for c in q.values()] + [Fraction(1, 10**9)])
    return is_zero(scale(sub(p, q), 1 / s))


def show(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=lambda t: repr(t[0])):
        s = '*'.join(showa(a) + ('^%d' % k if k != 1 else '') for a, k in m)
        cf = str(c) if c.denominator < 10000 else '%.9g' % float(c)
        out.append(cf if not s else (s if c == 1 else '-' + s if c == -1 else cf + '*' + s))
    return ' + '.join(out)


def showa(a):
    if a[0] == 'fn':
        return '%s(%s)' % (a[1], ', '.join(show(thaw(x)) if isinstance(x, tuple) else str(x) for x in a[2:]))
    if a[0] == 'eq0':
        return '[%s = 0]' % show(thaw(a[1]))
    if a[0] == 'gt0':
        return '[%s > 0]' % show(thaw(a[1]))
    if a[0] == 'inv':
        return '1/(%s)' % show(thaw(a[1]))
    if a[0] == 'ld':
        return '%s[%s]' % (showb(a[1]), show(thaw(a[2])))
    return '.'.join(str(x) for x in a)


def showb(b):
    return '.'.join(str(x) for x in b) if isinstance(b, tuple) else str(b)


PURE = {}
for _n in ('sqrt', 'log', 'log2', 'log10', 'exp', 'exp2', 'sin', 'cos', 'tan', 'atan', 'atan2', 'pow', 'floor', 'ceil', 'fmod', 'cosh', 'sinh', 'tanh', 'round', 'acos', 'asin', 'lround', 'lrint', 'rint', 'trunc', 'cbrt', 'expm1', 'log1p', 'ldexp'):
    PURE[_n] = PURE[_n + 'f'] = PURE[_n + 'l'] = _n
    for _t in ('f32', 'f64', 'i64.f32', 'i64.f64', 'v2f64', 'v4f32'):
        PURE['llvm.%s.%s' % (_n, _t)] = _n
for _n in ('fabs',):
    for _t in ('f32', 'f64'):
        PURE['llvm.fabs.' + _t] = 'fabs'
    PURE['fabs'] = PURE['fabsf'] = 'fabs'
for _t in (8, 16, 32, 64):
    PURE['vl_fast_sqrt_ui%d' % _t] = 'isqrt'
PURE['abs'] = PURE['labs'] = PURE['llvm.abs.i32'] = PURE['llvm.abs.i64'] = 'fabs'
for _x in ('llvm.maxnum', 'llvm.maximum'):
    PURE[_x + '.f32'] = PURE[_x + '.f64'] = 'max'
for _x in ('llvm.minnum', 'llvm.minimum'):
    PURE[_x + '.f32'] = PURE[_x + '.f64'] = 'min'
PURE['fmax'] = PURE['fmaxf'] = 'max'
PURE['fmin'] = PURE['fminf'] = 'min'
for _t in 'fd':
    # kept as calls in the '+m' views; that they compute these functions is property C16
    PURE['vl_fast_sqrt_' + _t], PURE['vl_fast_atan2_' + _t], PURE['vl_mod_2pi_' + _t], PURE['vl_floor_' + _t], PURE['vl_ceil_' + _t], PURE['vl_round_' + _t] = 'sqrt', 'atan2', 'mod2pi', 'floor', 'ceil', 'round'
    PURE['vl_fast_resqrt_' + _t] = 'resqrt'
_SFX = re.compile(r'\.\d+$')


def size_of(ty):
    t = ty.split(' x ')[-1].rstrip('>') if ty.startswith('<') else ty
    return {'float': 4, 'double': 8, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'i1': 1, 'ptr': 8}.get(t)


def nlanes(ty):
    return int(ty[1:].split(' ')[0]) if ty and ty.startswith('<') else 1


def elt(ty):
    return ty.split(' x ')[-1].rstrip('>') if ty and ty.startswith('<') else ty


class Eval:
    """normal forms of the values of one function; subst: value id -> lanes or ('ptr', base, offset)"""

    gate_ptr = False

    def __init__(self, f, subst=None, region=None, calls=None, fld=True):
        self.f, self.memo, self.busy = f, {}, set()
        self.subst = subst or {}
        self.region = region            # set of blocks phi gating may use (None: all)
        self.calls = calls or {}
        self.fld = fld

    # -- addresses ----------------------------------------------------------
    def addr(self, o):
        """(base key, byte offset poly)"""
        if isinstance(o, list):
            if o[0] == 'g':
                return ('g', o[1]), {}
            if o[0] == 'null':
                return ('null',), {}
            raise Unknown('address')
        if isinstance(o, dict):
            if o.get('ce') == 'getelementptr':
                b, off = self.addr(o['ops'][0])
                for s in o['path']:
                    off = add(off, self._step(s))
                return b, off
            raise Unknown('address')
        if o in self.subst and self.subst[o][0] == 'ptr':
            return self.subst[o][1], self.subst[o][2]
        v = self.f.vals[o]
        if v.op == 'arg':
            return ('arg', v.id), {}
        if v.op == 'getelementptr':
            b, off = self.addr(v.ops[0])
            for s in v.path:
                off = add(off, self._step(s))
            return b, off
        if v.op in ('bitcast', 'inttoptr', 'addrspacecast') and (v.from_ or '') == 'ptr':
            return self.addr(v.ops[0])
        if v.op == 'alloca':
            return ('alloca', v.id), {}
        if v.op == 'load':
            b, off = self.addr(v.ops[0])
            return ('*', b, freeze(off)), {}
        if v.op == 'phi':
            ps = {(b, freeze(off)) for b, off in (self.addr(x) for x, _ in v.inc)} if v.id not in self.busy and not self._isloop(v) else set()
            if len(ps) == 1:
                b, off = next(iter(ps))
                return b, dict(off)
            return ('pv', v.id), {}
        if v.op == 'call':
            return ('call', v.id), {}
        return ('pv', v.id), {}

    def _isloop(self, v):
        return v.block in self.f.loops

    def _step(self, s):
        if s[0] == 'f':
            return C(s[3])
        return scale(self.one(s[1]), s[2])

    # -- values -------------------------------------------------------------
    def one(self, o):
        l = self.lanes(o)
        if len(l) != 1:
            raise Unknown('vector where a scalar is expected')
        return l[0]

    def lanes(self, o):
        c = const_int(o)
        if c is not None:
            if o[1] == 'i1':
                c = 1 if c else 0
            return [C(c)]
        if isinstance(o, list):
            if o[0] == 'cf':
                try:
                    return [C(Fraction(o[2]))]
                except (ValueError, OverflowError):
                    return [A('fpconst', o[2])]
            if o[0] == 'zero':
                return [{}] * nlanes(o[1])
            if o[0] == 'agg':
                return [self.one(x) for x in o[2:]]
            if o[0] == 'undef':
                return [A('undef')]
            if o[0] in ('null',):
                return [{}]
            if o[0] == 'g':
                return [A('g', o[1])]
            raise Unknown('constant')
        if isinstance(o, dict):
            raise Unknown('constant expression')
        if o in self.subst:
            s = self.subst[o]
            if s[0] == 'ptr':
                return [add(A('base', s[1]), s[2])]
            return s
        if o in self.memo:
            return self.memo[o]
        if o in self.busy:
            raise Unknown('cyclic value')
        self.busy.add(o)
        try:
            r = self._val(self.f.vals[o])
        finally:
            self.busy.discard(o)
        self.memo[o] = r
        return r

    def _val(self, v):
        op = v.op
        if op == 'arg':
            if v.ty == 'ptr':
                return [A('base', ('arg', v.id))]
            n = nlanes(v.ty)
            return [A('arg', v.id)] if n == 1 else [A('arg', v.id, j) for j in range(n)]
        if op in ('fadd', 'add'):
            return self.zip(v, add)
        if op in ('fsub', 'sub'):
            return self.zip(v, sub)
        if op in ('fmul', 'mul'):
            return self.zip(v, mul)
        if op == 'fdiv':
            return self.zip(v, lambda a, b: mul(a, inv(b)))
        if op == 'fneg':
            return [scale(a, -1) for a in self.lanes(v.ops[0])]
        if op in ('fcmp', 'icmp'):
            fp = op == 'fcmp'
            if op == 'icmp' and v.pred in ('eq', 'ne') and self.boolish(v.ops[0]) and const_int(v.ops[1]) == 0:
                b = self.lanes(v.ops[0])
                return b if v.pred == 'ne' else [NOT(x) for x in b]
            return self.zip(v, lambda a, b: cmp_poly(v.pred, a, b, fp))
        if op == 'select':
            c, a, b = (self.lanes(x) for x in v.ops)
            if len(c) == 1 and len(a) > 1:
                c = c * len(a)
            return [sel(x, y, z) for x, y, z in zip(c, a, b)]
        if op in ('zext', 'sext', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'trunc', 'freeze'):
            if op == 'sext' and (elt(v.from_) == 'i1'):
                return [('mask', x) if False else x for x in self.lanes(v.ops[0])]
            return self.lanes(v.ops[0])
        if op in ('fptosi', 'fptoui'):
            return [self.toint(x) for x in self.lanes(v.ops[0])]
        if op == 'ptrtoint':
            b, off = self.addr(v.ops[0])
            return [add(A('base', b), off)]
        if op == 'bitcast':
            return self.bitcast(v)
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem', 'frem'):
            return self.bits(v)
        if op == 'load':
            return self.load(v)
        if op == 'phi':
            return self.phi(v)
        if op == 'extractelement':
            k = const_int(v.ops[1])
            if k is None:
                raise Unknown('variable lane')
            return [self.lanes(v.ops[0])[k]]
        if op == 'insertelement':
            k = const_int(v.ops[2])
            l = self.lanes(v.ops[0])
            n = nlanes(v.ty)
            l = list(l) * n if len(l) == 1 and n > 1 else list(l)
            l[k] = self.one(v.ops[1])
            return l
        if op == 'shufflevector':
            n = nlanes(self.tyof(v.ops[0]))
            a, b = self.lanes(v.ops[0]), None
            if any(m >= n for m in v.mask):
                b = self.lanes(v.ops[1])
                b = list(b) * n if len(b) == 1 and n > 1 else b
            a = list(a) * n if len(a) == 1 and n > 1 else a
            return [A('undef') if m < 0 else (a[m] if m < n else b[m - n]) for m in v.mask]
        if op == 'call':
            return self.call(v)
        if op == 'getelementptr':
            b, off = self.addr(v.id)
            return [add(A('base', b), off)]
        return [A('v', v.id)]

    def tyof(self, o):
        if isinstance(o, int):
            return self.f.vals[o].ty
        return o[1] if isinstance(o, list) and len(o) > 1 else '<4 x float>'

    def toint(self, x):
        if is_const(x):
            c = cval(x)
            return C(int(c))
        if len(x) == 1:
            (mono, co), = x.items()
            if co == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0][0] in ('floor', 'ceil', 'round', 'lround', 'lrint', 'rint', 'trunc', 'int'):
                return x
        return fn('int', x)

    def zip(self, v, g):
        a, b = self.lanes(v.ops[0]), self.lanes(v.ops[1])
        if len(a) != len(b):
            n = max(len(a), len(b))
            a, b = (list(a) * n if len(a) == 1 else a), (list(b) * n if len(b) == 1 else b)
        return [g(x, y) for x, y in zip(a, b)]

    def boolish(self, o, d=0):
        if isinstance(o, list):
            return o[0] == 'c' and o[2] in ('0', '1', '-1' if o[1] == 'i1' else '1')
        v = self.f.val(o)
        if v is None or d > 8:
            return False
        if v.ty == 'i1' or (v.ty or '').endswith('x i1>'):
            return True
        if v.op in ('zext', 'trunc', 'sext'):
            return self.boolish(v.ops[0], d + 1)
        if v.op in ('and', 'or', 'xor', 'mul'):
            return all(self.boolish(x, d + 1) for x in v.ops)
        if v.op == 'phi':
            return all(self.boolish(x, d + 1) for x, _ in v.inc)
        if v.op == 'select':
            return all(self.boolish(x, d + 1) for x in v.ops[1:])
        return False

    def maskish(self, o):
        """sign-extended comparison (all ones or all zeros per lane)"""
        v = self.f.val(o)
        while v is not None and v.op == 'bitcast':
            v = self.f.val(v.ops[0])
        return v if v is not None and v.op == 'sext' and elt(v.from_) == 'i1' else None

    def absmask(self, o):
        if isinstance(o, list) and o and o[0] == 'agg':
            vals = {const_int(x) for x in o[2:]}
            return vals in ({0x7fffffff}, {0x7fffffffffffffff})
        return const_int(o) in (0x7fffffff, 0x7fffffffffffffff)

    def fpbits(self, o):
        v = self.f.val(o)
        while v is not None and v.op == 'bitcast':
            if elt(v.from_) in ('float', 'double'):
                return v.ops[0]
            v = self.f.val(v.ops[0])
        return None

    def bitcast(self, v):
        fr, to = elt(v.from_), elt(v.ty)
        if fr == to or {fr, to} <= {'i32', 'i64'} and nlanes(v.from_) == nlanes(v.ty):
            return self.lanes(v.ops[0])
        w = self.f.val(v.ops[0])
        if to in ('float', 'double') and w is not None:
            u = w
            while u is not None and u.op == 'bitcast':
                u = self.f.val(u.ops[0])
            if u is not None and u.op in ('and', 'or', 'xor'):
                return self.lanes(u.id)
        if fr in ('float', 'double') and to.startswith('i'):
            return [fn('bits', x) for x in self.lanes(v.ops[0])]
        return [fn('frombits', x) for x in self.lanes(v.ops[0])]

    def bits(self, v):
        op = v.op
        a, b = v.ops
        if v.ty == 'i1' or (v.ty or '').endswith('x i1>') or (op in ('and', 'or', 'xor') and self.boolish(a) and self.boolish(b)):
            if op == 'and':
                return self.zip(v, mul)
            if op == 'or':
                return self.zip(v, lambda x, y: sub(add(x, y), mul(x, y)))
            if op == 'xor':
                return self.zip(v, lambda x, y: sub(add(x, y), scale(mul(x, y), 2)))
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                fx = self.fpbits(x)
                if fx is not None and self.absmask(y):
                    return [absv(t) for t in self.lanes(fx)]
                m = self.maskish(y)
                if fx is not None and m is not None:
                    return [mul(t, c) for t, c in zip(self.lanes(fx), self.lanes(m.ops[0]))]
        if op == 'shl' and const_int(b) is not None:
            return [scale(x, 1 << const_int(b)) for x in self.lanes(a)]
        if op in ('udiv', 'sdiv', 'lshr', 'ashr') and isinstance(b, list):
            k = const_int(b)
            if k is not None:
                d = k if op in ('udiv', 'sdiv') else (1 << k)
                nm = 'udiv' if op in ('udiv', 'lshr') else ('sdiv' if op == 'sdiv' else 'asr')
                if d == 1:
                    return self.lanes(a)
                return [C(cval(x) // d) if is_const(x) and cval(x) >= 0 else fn(nm, x, C(d)) for x in self.lanes(a)]
        if op in ('and', 'or', 'xor'):
            x, y = sorted((self.lanes(a), self.lanes(b)), key=repr)
            return [disjoint(p, q) if op == 'or' and disjoint(p, q) is not None else fn(op, p, q) for p, q in zip(x, y)]
        return self.zip(v, lambda x, y: fn(op, x, y))

    def load(self, v):
        n, sz = nlanes(v.ty), size_of(v.ty)
        b, off = self.addr(v.ops[0])
        r = self.loadat(v, b, off, n, sz)
        if r is not None:
            return r
        return [A('ld', b, freeze(add(off, C(j * sz)))) for j in range(n)]

    def loadat(self, v, b, off, n, sz):
        return None

    # -- control flow ---------------------------------------------------------
    def edge(self, p, s):
        """indicator that control leaves block p towards s"""
        t = self.f.blocks[p][-1]
        if t.op == 'br':
            if t.cond is None or t.succ[0] == t.succ[1]:
                return C(1)
            c = self.one(t.cond)
            return c if t.succ[0] == s else NOT(c)
        if t.op == 'switch':
            x = self.one(t.cond)
            r = {}
            for k, b in t.cases:
                if b == s:
                    r = add(r, eq0(sub(x, C(int(k)))))
            if t.default == s:
                q = C(1)
                for k, b in t.cases:
                    q = sub(q, eq0(sub(x, C(int(k)))))
                r = add(r, q)
            return r
        raise Unknown('terminator')

    def reach(self, d, b):
        """{block: condition to reach it from block d} for the acyclic region between dominator d and block b"""
        f = self.f
        back = {b}
        st = [p for p in f.pred[b] if not (b in f.loops and d not in f.loops[b] and p in f.loops[b])]
        while st:
            x = st.pop()
            if x in back or x == d:
                continue
            back.add(x)
            st.extend(f.pred[x])
        order = [x for x in f.rpo() if x in back or x == d]
        inl = {}                        # block -> outermost loop strictly inside the region
        for h in order:
            if h != d and h != b and h in f.loops:
                if d in f.loops[h] or b in f.loops[h]:
                    continue
                for x in f.loops[h]:
                    if x not in inl or len(f.loops[h]) > len(f.loops[inl[x]]):
                        inl[x] = h
        cond = {d: C(1)}
        for x in order:
            if x == d or inl.get(x, x) != x:
                continue
            c = {}
            seen = set()
            for p in f.pred[x]:
                h = inl.get(p)
                if h is not None:
                    if h == x:
                        continue            # back edge
                    # a loop that is left towards one block only behaves like a statement
                    ex = {y for q in f.loops[h] for y in f.succ[q] if y not in f.loops[h] and y in back | {b}}
                    if ex != {x}:
                        raise Unknown('loop between a branch and the value it selects')
                    if h in cond and h not in seen:
                        seen.add(h)
                        c = add(c, cond[h])
                elif p in cond and not f.dominates(x, p):
                    c = add(c, mul(cond[p], self.edge(p, x)))
            cond[x] = c
        return cond

    def phi(self, v):
        f = self.f
        b = v.block
        if b in f.loops:
            return [A('v', v.id)] if nlanes(v.ty) == 1 else [A('v', v.id, j) for j in range(nlanes(v.ty))]
        if v.ty == 'ptr' and not self.gate_ptr:
            bb, off = self.addr(v.id)
            return [add(A('base', bb), off)]
        vals = [self.lanes(x) for x, _ in v.inc]
        if all(x == vals[0] for x in vals):
            return vals[0]
        d = f.idom[b]
        cond = self.reach(d, b)
        n = nlanes(v.ty)
        out = [{} for _ in range(n)]
        for (x, p), l in zip(v.inc, vals):
            c = mul(cond[p], self.edge(p, b))
            l = list(l) * n if len(l) == 1 else l
            out = [add(o, mul(c, y)) for o, y in zip(out, l)]
        return out

    def call(self, v):
        n = v.callee_name()
        if n and n.startswith('hdr$'):
            n = n[4:]
        if n and n.startswith('vl_') and _SFX.search(n) and _SFX.sub('', n) in PURE:
            n = _SFX.sub('', n)
        if n in self.calls:
            return self.calls[n](self, v)
        if n in PURE:
            k = PURE[n]
            args = [self.lanes(x) for x in v.ops if not (k == 'fabs' and elt(self.tyof(x)) == 'i1')]
            if k == 'fabs':
                return [absv(x) for x in args[0]]
            if k == 'max':
                return [maxv(x, y) for x, y in zip(*args)]
            if k == 'min':
                return [minv(x, y) for x, y in zip(*args)]
            if k == 'resqrt':
                return [inv(fn('sqrt', x)) for x in args[0]]
            return [fn(k, *x) for x in zip(*args)]
        if n and n.startswith('llvm.x86.'):
            r = self.x86(n, v)
            if r is not None:
                return r
        if n and n.startswith('llvm.fmuladd') or n and n.startswith('llvm.fma.'):
            a, b, c = (self.lanes(x) for x in v.ops)
            return [add(mul(x, y), z) for x, y, z in zip(a, b, c)]
        raise Unknown('call of %s' % n)

    def x86(self, n, v):
        if 'hadd' in n:
            a, b = self.lanes(v.ops[0]), self.lanes(v.ops[1])
            g = 4 if n.endswith('.ps') or n.endswith('.ps.256') else 2
            out = []
            for k in range(0, len(a), g):
                for s in (a, b):
                    for j in range(0, g, 2):
                        out.append(add(s[k + j], s[k + j + 1]))
            return out
        if n.endswith('max.ps') or n.endswith('max.pd') or '.max.p' in n:
            return self.zip(v, maxv)
        if '.min.p' in n:
            return self.zip(v, minv)
        if '.sqrt.p' in n:
            return [fn('sqrt', x) for x in self.lanes(v.ops[0])]
        return None
