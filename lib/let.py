"""closed forms in which merged values, conversions and quotients keep a name, each with a closed form of its own: for expressions whose expansion would be too large"""
import math
import alg, kern, spec, scev
from alg import C, A, Unknown, thaw
Fr = alg.Fraction
NAMED = ('fptosi', 'fptoui', 'fdiv', 'sdiv', 'srem')


def frac(x):
    return x if isinstance(x, int) else Fr(x).limit_denominator(10 ** 9) if abs(x) > 1e-3 else Fr(round(x * 1e18), 10 ** 18)


class Let:
    def __init__(self, f, m, base=None, ops=NAMED):
        self.f, self.m = f, m
        self.ids = {}
        for i in f.instrs:
            if i.ty in ('ptr', 'void', None) or alg.nlanes(i.ty) != 1:
                continue
            if i.op == 'phi' and i.block not in f.loops and len(i.inc) > 1 or i.op in ops or i.op == 'call' and i.callee_name() in ('vl_mod_2pi_f', 'vl_mod_2pi_d', 'vl_floor_f', 'vl_floor_d'):
                self.ids[i.id] = i
        self.base = dict(base or {})
        self.E = self.make()
        self.plain = spec.scev_of(f, m)
        self.plain.subst.update(self.base)
        self.defs, self.memo = {}, {}

    def make(self, but=None):
        E = spec.scev_of(self.f, self.m)
        for i in self.ids:
            if i != but:
                E.subst[i] = [A('v', i)]
        E.subst.update({k: v for k, v in self.base.items() if k != but})
        return E

    def define(self, i):
        if i not in self.defs:
            try:
                v = self.ids[i]
                self.defs[i] = self.make(i).at(i, v.block)
            except Unknown as e:
                self.defs[i] = e
        d = self.defs[i]
        if isinstance(d, Exception):
            raise Unknown(str(d))
        return d

    def at(self, o, b):
        k = (o if not isinstance(o, list) else tuple(o), b)
        if k not in self.memo:
            try:
                self.memo[k] = self.E.at(o, b)
            except Unknown as e:
                self.memo[k] = e
        r = self.memo[k]
        if isinstance(r, Exception):
            raise Unknown(str(r))
        return r

    def env(self, vals, load, fns=None):
        """assignment of the atoms: iterations and other atoms, memory, functions"""
        e = dict(vals)
        cache = {}

        def v(a):
            if a[1] not in self.ids:
                return None
            if a not in cache:
                cache[a] = spec.num(self.define(a[1]), e)
            return cache[a]

        def fn_(a):
            n = a[1]
            if n == 'isqrt':
                return math.isqrt(max(0, int(spec.num(thaw(a[2]), e))))
            if fns and n in fns:
                r = fns[n](a)
                if r is not None:
                    return r
            if n in ('cos', 'sin', 'sqrt', 'exp', 'atan2', 'mod2pi', 'abs', 'fabs', 'inv(sqrt)', 'powf', 'log'):
                x = [float(spec.num(thaw(t), e)) for t in a[2:] if isinstance(t, tuple)]
                r = {'cos': math.cos, 'sin': math.sin, 'sqrt': lambda z: math.sqrt(max(z, 0)), 'exp': math.exp, 'atan2': math.atan2, 'mod2pi': lambda z: z % (2 * math.pi), 'abs': abs, 'fabs': abs,
                     'inv(sqrt)': lambda z: 1 / math.sqrt(z), 'powf': math.pow, 'log': math.log}[n](*x)
                return frac(r)
            return None
        def sum_(a):
            n = int(spec.num(thaw(a[3]), e))
            r = 0
            for k in range(max(0, n)):
                r += spec.num(thaw(a[2]), {**e, ('bv', a[1]): k})
            return r
        e['v'] = v
        e['fn'] = fn_
        e['sum'] = sum_
        e['load'] = load
        return e


def fields(E, tables):
    """memory given by {base: {offset: value}} or {base: function of the offset}"""
    def load(base, off):
        t = tables.get(base)
        if t is None:
            return None
        if callable(t):
            return t(off)
        return t.get(int(off) if Fr(off).denominator == 1 else off)
    return load


def trips(L, h, env):
    n = L.E.exit_it(h)
    if n is None:
        n = L.plain.exit_it(h)
    if n is None:
        raise Unknown('iterations')
    return max(0, int(spec.num(n, env)))


def effects(L, stores, walk, fixed, mk, guards=True):
    """{(base, offset): value stored} by these stores for the iterations fixed ({header: n}) of outer loops and all iterations of the others; mk(its) gives the environment"""
    out = []
    for s in stores:
        free = [h for h, _ in s.chain if h not in fixed]

        def go(its, rest):
            if not rest:
                e = mk(its)
                if guards:
                    # every level of the nest from the innermost fixed loop on is entered, and the store is reached
                    hs = [h for h, _ in s.chain]
                    n = max([k for k, h in enumerate(hs) if h in fixed] or [0])
                    if not all(reached(L, t, h, e, walk) for h, t in zip(hs[n:], hs[n + 1:] + [s.ins.block])):
                        return
                out.append((s, spec.num(s.off, e), spec.num(s.val, e)))
                return
            h = rest[0]
            for k in range(trips(L, h, mk(its))):
                go({**its, ('it', h): k}, rest[1:])
        go({('it', h): k for h, k in fixed.items()}, free)
    return out


def reached(L, b, H, env, walk):
    """is block b of loop H reached in the iteration that env describes"""
    f = L.f
    if b == H:
        return True
    out = {t for q in f.loops[H] for t in (getattr(f.blocks[q][-1], 'succ', None) or []) if t not in f.loops[H]}
    r = walk(L, H, {b}, {H} | out, env)
    if len(r) != 1:
        raise Unknown('undecided condition')
    return r == {True}
