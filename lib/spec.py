"""Helpers of the formula checks: obligations, struct offsets, calls as stores, accessor functions."""
import re
import alg, kern, build, scev
from alg import C, A, add, sub, mul, scale, fn, same, freeze, thaw
from kern import ld, I

VOC = kern.KNOWN | {'callv', 'fpconst', 'role', 'call', 'sym', 'const'}


class Obl:
    """obligations of one function (or step) under one rule"""
    def __init__(self, rep, kd, name):
        self.rep, self.kd, self.name = rep, kd, name

    def __call__(self, what, good, loc, msg):
        return self.rep.check(self.kd, '%s: %s' % (self.name, what), good, loc.loc() if hasattr(loc, 'loc') else loc, '%s: %s' % (self.name, msg), key='%s:%s:%s' % (self.kd, self.name, what))

    def skip(self, what, why=''):
        self.rep.skip(self.kd, '%s: %s' % (self.name, what), why)

    def compare(self, loc, sts, specs, voc=None):
        return kern.compare(self.rep, self.kd, self.name, loc.loc() if hasattr(loc, 'loc') else loc, sts, specs, voc or VOC)


def guarded(debug):
    def guard(rep, fun, *a):
        try:
            fun(rep, *a)
        except (alg.Unknown, KeyError, IndexError, StopIteration, AttributeError, AssertionError, ValueError, TypeError, RecursionError) as e:
            if debug():
                raise
            rep.skip(fun.__name__, str([x for x in a if isinstance(x, (str, int))])[:60], '%s: %s' % (type(e).__name__, e))
    return guard


def offsets(header, struct, names):
    """byte offsets of (possibly nested) members, None when one is missing"""
    k = ['offsetof(%s,%s)' % (struct, n) for n in names]
    r = build.constants(header, k)
    return {n: C(r[q]) for n, q in zip(names, k)} if all(q in r for q in k) else None


def ptr(base, off):
    return ('*', base, freeze(off))


def getters(m):
    """{name: offset} of accessor functions of the library:  return self->member"""
    out = {}
    for f in m.defined():
        if not f.blocks or len(f.blocks) != 1 or len(f.args) != 1:
            continue
        b = [i for i in f.instrs if i.op not in ('getelementptr',)]
        if len(b) == 2 and b[0].op == 'load' and b[1].op == 'ret' and b[1].ops and b[1].ops[0] == b[0].id:
            try:
                base, off = scev.Scev(f).addr_at(b[0].ops[0], b[0].block)
            except alg.Unknown:
                continue
            if base == ('arg', 0):
                out[f.name] = off
    return out


def callst(E, i, k=None):
    """a call as a store of the tuple of its arguments"""
    args = []
    for n, o in enumerate(i.ops):
        if k is not None and n not in k:
            continue
        args.append(argv(E, o, i))
    name = re.sub(r'\.\d+$', '', i.callee_name() or '?')
    g = E.leave_psum(kern.guard_of(E, i.block), i.block)
    return kern.Store(i, ('calls', name), {}, fn('args', *args), kern.chain_of(E, i.block), g, None)


def argv(E, o, i):
    if isinstance(o, int) and E.tyof(o) == 'ptr':
        b, off = E.addr_at(o, i.block)
        return add(A('base', b), off)
    return E.at(o, i.block)


def P(base, off=None):
    """pointer value"""
    return add(A('base', base), off or {})


def calls(f, *names):
    out = []
    for i in f.instrs:
        if i.op == 'call':
            n = re.sub(r'\.\d+$', '', i.callee_name() or '')
            if not names or n in names:
                out.append(i)
    return out


def scev_of(f, m):
    g = {}
    for n, off in getters(m).items():
        def h(ev, v, off=off):
            b, o = ev.addr(v.ops[0])
            return [ld(b, add(o, off))]
        g[n] = h
    return scev.Scev(f, None, g or None)


def subst(st, f):
    """store with f(atom) -> poly or None applied everywhere"""
    g = lambda p: scev.mapatoms(p, f) if p is not None else None
    return kern.Store(st.ins, scev.mapbase(st.base, f), g(st.off), g(st.val), [(h, g(n)) for h, n in st.chain], g(st.guard), None)


def sub_(p, m):
    return scev.mapatoms(p, lambda a: m.get(a))


def fold(p):
    """functions of constants evaluated, innermost first"""
    def tdiv(a, b):
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q

    def f(a):
        if a[0] == 'fn':
            xs = [fold(thaw(x)) if isinstance(x, tuple) else x for x in a[2:]]
            if all(isinstance(x, dict) and alg.is_const(x) for x in xs):
                v = [alg.cval(x) for x in xs]
                n = a[1]
                if n in ('udiv', 'sdiv', 'urem', 'srem') and v[1] and all(x.denominator == 1 for x in v):
                    q = tdiv(v[0], v[1])
                    return C(q if n[1:] == 'div' else v[0] - q * v[1])
                if n in ('floor', 'toint') and len(v) == 1:
                    return C(v[0].numerator // v[0].denominator)
                if n == 'asr':
                    return C(v[0].numerator // v[0].denominator // int(v[1]))
                if n == 'shl':
                    return C(v[0] * 2 ** int(v[1]))
                if n in ('lshr', 'ashr'):
                    return C((v[0].numerator // v[0].denominator) >> int(v[1]))
                if n in ('and', 'or', 'xor') and all(x.denominator == 1 for x in v):
                    x, y = int(v[0]), int(v[1])
                    return C({'and': x & y, 'or': x | y, 'xor': x ^ y}[n])
            return A('fn', a[1], *[freeze(x) if isinstance(x, dict) else x for x in xs])
        return None
    for _ in range(6):
        q = scev.mapatoms(p, f)
        if q == p:
            return q
        p = q
    return p


def region(which, a, n):
    """substitution for index a of 0 .. n-1 with n >= 3: the first, the last or an inner position"""
    q = A(*a)
    if which == 'first':
        m = {a: {}}
        dec = [(n, 1), (sub(n, C(1)), 1)]
    elif which == 'last':
        m = {a: sub(n, C(1))}
        dec = [(n, 1), (sub(n, C(1)), 1)]
    else:
        m = {}
        dec = [(n, 1), (sub(n, C(1)), 1), (q, 1), (sub(sub(n, C(1)), q), 1)]

    def f(x):
        if x in m:
            return m[x]
        if x[0] in ('eq0', 'gt0'):
            p = scev.mapatoms(thaw(x[1]), f)
            for d, s in dec:
                for k in (1, -1):
                    if same(p, scale(d, k)):
                        return {} if x[0] == 'eq0' or k < 0 else C(1)
            return alg.eq0(p) if x[0] == 'eq0' else alg.gt0(p)
        return None
    return lambda p: scev.mapatoms(p, f)


def sumphis(E, o, block):
    """loop headers of the accumulations (loops that do not enclose block) a value is computed from"""
    f, out, seen, todo = E.f, [], set(), [o]
    while todo:
        x = todo.pop()
        if not isinstance(x, int) or x in seen or x not in f.vals:
            continue
        seen.add(x)
        v = f.vals[x]
        if v.op == 'phi':
            if v.block in f.loops and block not in f.loops[v.block]:
                out.append(v)
            elif v.block in f.loops:
                continue
            todo += [y for y, _ in v.inc]
        elif v.op in ('load', 'call') and v.op == 'load':
            continue
        else:
            todo += list(v.ops or [])
    return out


def rnd(p, digits=7):
    """coefficients that are not simple fractions rounded, at every depth"""
    def num(c):
        return c if c.denominator < 10000 else alg.Fraction('%.*g' % (digits, float(c)))

    def deep(x):
        if isinstance(x, alg.Fraction):
            return num(x)
        return tuple(deep(y) for y in x) if isinstance(x, tuple) else x
    r = {}
    for m, c in p.items():
        t = {(): num(c)}
        for a, k in m:
            t = mul(t, {((deep(a), k),): alg.Fraction(1)})
        r = add(r, t)
    return r


def num(p, env, memo=None):
    """value of a closed form for values of its atoms (env: atom -> number or function of the atom); raises Unknown"""
    memo = {} if memo is None else memo

    def frz(t):
        k = id(t)
        if k not in memo:
            memo[k] = (poly(thaw(t)), t)
        return memo[k][0]

    def atom(a):
        if a in env:
            return env[a]
        if a in memo:
            return memo[a]
        memo[a] = r = atom_(a)
        return r

    def atom_(a):
        f = env.get(a[0])
        if f is not None:
            r = f(a)
            if r is not None:
                return r
        if a[0] == 'eq0':
            return 1 if frz(a[1]) == 0 else 0
        if a[0] == 'gt0':
            return 1 if frz(a[1]) > 0 else 0
        if a[0] == 'inv':
            return 1 / alg.Fraction(frz(a[1]))
        if a[0] == 'fn':
            x = [frz(t) if isinstance(t, tuple) else t for t in a[2:]]
            n = a[1]
            if n in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
                if any(alg.Fraction(v).denominator != 1 for v in x):
                    raise alg.Unknown('integers')
                u, v = int(x[0]), int(x[1])
                if n in ('udiv', 'sdiv', 'urem', 'srem'):
                    if v == 0 or n[0] == 'u' and (u < 0 or v < 0):
                        raise alg.Unknown('division')
                    q = abs(u) // abs(v) * (1 if (u < 0) == (v < 0) else -1)
                    return q if n[1:] == 'div' else u - q * v
                return {'and': u & v, 'or': u | v, 'xor': u ^ v, 'shl': u << v, 'lshr': u >> v, 'ashr': u >> v}[n]
            if n == 'asr' and alg.Fraction(x[0]).denominator == 1:
                return int(x[0]) // int(x[1])
            if n == 'floor' and len(x) == 1:
                return alg.Fraction(x[0]).numerator // alg.Fraction(x[0]).denominator
            if n in ('toint', 'int') and len(x) == 1:
                return int(alg.Fraction(x[0]))
            if n == 'ceil' and len(x) == 1:
                return -int((-alg.Fraction(x[0])).__floor__())
            if n == 'pow' and len(x) == 2 and alg.Fraction(x[1]).denominator == 1 and abs(x[1]) < 64 and (x[0] or x[1] > 0):
                return alg.Fraction(x[0]) ** int(x[1])
            if n in ('max', 'min') and len(x) == 2:
                return max(x) if n == 'max' else min(x)
        if a[0] == 'ld':
            f = env.get('load')
            if f is not None:
                r = f(a[1], frz(a[2]))
                if r is not None:
                    return r
        raise alg.Unknown('value of %s' % (a[:2] if a[0] == 'v' else a[0],))

    def poly(q):
        s = 0
        for m, c in q.items():
            t = c
            for a, k in m:
                if t == 0:
                    break
                v = alg.Fraction(atom(a))
                t = t * v ** k
            s += t
        return s
    return poly(p)
