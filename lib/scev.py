"""Closed forms of loop-carried values.

Header phis whose increment per iteration does not depend on the iteration are rewritten as  init + step * it(loop);
accumulators whose increment depends on the iteration become finite sums.  Values used after a loop are taken at the
iteration the loop is left at.  it(h) counts the iterations of the loop with header h from 0.  Loop bounds are assumed
not to be negative.  The rewriting is algebraic (no iteration is carried out)."""
import alg, flow
from alg import C, A, add, sub, mul, scale, Unknown, Eval
from ir import const_int


def deep_atoms(p, out=None):
    out = set() if out is None else out
    for m in p:
        for a, _ in m:
            deep_atom(a, out)
    return out


def deep_atom(a, out):
    if a in out:
        return
    out.add(a)
    for x in a[1:]:
        walk(x, out)


def walk(x, out):
    if isinstance(x, tuple):
        if x and isinstance(x[0], tuple) and len(x[0]) == 2 and isinstance(x[0][0], tuple):
            try:
                for m, c in x:
                    for a, k in m:
                        deep_atom(a, out)
                return
            except (TypeError, ValueError):
                pass
        if x and x[0] == '*' and len(x) == 3:
            walk(x[1], out)
            walk(x[2], out)


def mapatoms(p, f):
    """rebuild p with f(atom) -> poly or None applied to every atom, addresses and sums included"""
    r = {}
    for m, c in p.items():
        t = {(): c}
        for a, k in m:
            q = f(a)
            if q is None:
                q = remake(a, f)
            t = mul(t, alg.power(q, k) if k >= 0 else alg.power(alg.inv(q), -k))
        r = add(r, t)
    return r


def mapbase(b, f):
    if isinstance(b, tuple) and b and b[0] == '*':
        return ('*', mapbase(b[1], f), alg.freeze(mapatoms(alg.thaw(b[2]), f)))
    return b


def remake(a, f):
    if a[0] in ('ld', 'call1'):
        return A(a[0], mapbase(a[1], f), alg.freeze(mapatoms(alg.thaw(a[2]), f)), *a[3:])
    if a[0] == 'base':
        return A('base', mapbase(a[1], f))
    if a[0] == 'sum':
        return A('sum', a[1], alg.freeze(mapatoms(alg.thaw(a[2]), f)), alg.freeze(mapatoms(alg.thaw(a[3]), f)))
    if a[0] == 'eq0':
        return alg.eq0(mapatoms(alg.thaw(a[1]), f))
    if a[0] == 'gt0':
        return alg.gt0(mapatoms(alg.thaw(a[1]), f))
    if a[0] == 'inv':
        return alg.inv(mapatoms(alg.thaw(a[1]), f))
    if a[0] == 'fn':
        return A('fn', a[1], *[alg.freeze(mapatoms(alg.thaw(x), f)) if isinstance(x, tuple) else x for x in a[2:]])
    return {((a, 1),): alg.Fraction(1)}


class Scev(Eval):
    def __init__(self, f, subst=None, calls=None, parent=None, opaque=True):
        super().__init__(f, subst=subst, calls=calls)
        self.cl, self.subs, self.tc, self.inn = {}, {}, {}, {}
        self.parent = parent
        self.opaque = opaque                     # unknown calls and cyclic values become atoms

    # -- context -----------------------------------------------------------------
    def leave(self, p, b):
        """p as seen in block b: loops that do not contain b have been left"""
        f = self.f
        its = {a for a in deep_atoms(p) if a[0] == 'it' and b not in f.loops[a[1]]}
        if not its:
            return p
        # innermost first
        m = {}
        for a in sorted(its, key=lambda a: len(f.loops[a[1]])):
            n = self.exit_it(a[1])
            m[a] = n if n is not None else A('exit', a[1])

        def g(a):
            if a in m:
                return m[a]
            if a[0] == 'psum' and b not in f.loops[a[1]]:
                n = m.get(('it', a[1]))
                if n is None:
                    n = self.exit_it(a[1])
                    n = n if n is not None else A('exit', a[1])
                return self.mksum(a[1], alg.thaw(a[2]), n)
            return None
        r = mapatoms(p, g)
        if any(a[0] == 'it' and b not in f.loops[a[1]] for a in deep_atoms(r)):
            return self.leave(r, b) if r != p else r
        return r

    def leave_psum(self, p, b):
        f = self.f
        if any(a[0] == 'psum' and b not in f.loops[a[1]] for a in deep_atoms(p)):
            def g(a):
                if a[0] == 'psum' and b not in f.loops[a[1]]:
                    n = self.exit_it(a[1])
                    return self.mksum(a[1], alg.thaw(a[2]), n if n is not None else A('exit', a[1]))
                return None
            p = mapatoms(p, g)
        return self.leave(p, b)

    def mksum(self, h, term, n):
        """sum of term over it(h) = 0 .. n-1"""
        d = 0
        used = {a[1] for a in deep_atoms(term) if a[0] == 'bv'}
        while d in used:
            d += 1
        t = mapatoms(term, lambda a: A('bv', d) if a == ('it', h) else None)
        if ('bv', d) not in deep_atoms(t):
            return mul(t, n)
        out = {}
        for mono, c in t.items():                # linear: constants and factors free of the index are pulled out
            ins = tuple((a, k) for a, k in mono if ('bv', d) in deep_atoms({((a, 1),): 1}))
            rest = tuple((a, k) for a, k in mono if (a, k) not in ins)
            if not ins:
                out = add(out, mul({rest: c}, n))
            else:
                out = add(out, mul({rest: c}, A('sum', d, alg.freeze({ins: alg.Fraction(1)}), alg.freeze(n))))
        return out

    def at(self, o, b):
        """scalar operand o used in block b"""
        return self.leave_psum(self.one(o), b)

    def addr_at(self, o, b):
        base, off = self.addr(o)
        return self.leave_base(base, b), self.leave_psum(off, b)

    def leave_base(self, base, b):
        if isinstance(base, tuple) and base and base[0] == '*':
            return ('*', self.leave_base(base[1], b), alg.freeze(self.leave_psum(alg.thaw(base[2]), b)))
        return base

    def _val(self, v):
        r = super()._val(v)
        if getattr(v, 'block', None) is None:
            return r
        return [self.leave_psum(p, v.block) for p in r]

    def addr(self, o):
        if isinstance(o, int) and not (o in self.subst and self.subst[o][0] == 'ptr'):
            v = self.f.vals[o]
            if v.op == 'phi' and v.block in self.f.loops and v.ty == 'ptr':
                c = self.close(v)
                if c is not None and c[0] == 'ptr':
                    return c[1], c[2]
                return ('pv', v.id), {}
            if v.op == 'select' and v.ty == 'ptr':
                (b1, o1), (b2, o2) = self.addr(v.ops[1]), self.addr(v.ops[2])
                if b1 == b2:
                    return b1, alg.sel(self.one(v.ops[0]), o1, o2)
            if v.op == 'phi' and v.ty == 'ptr' and v.block not in self.f.loops:
                key = ('pphi', v.id)
                if key in self.memo:
                    return self.memo[key]
                try:
                    ps = [self.addr(x) for x, _ in v.inc]
                    if len({b for b, _ in ps}) == 1:
                        if len({alg.freeze(o) for _, o in ps}) == 1:
                            r = ps[0]
                        else:
                            cond = self.reach(self.f.idom[v.block], v.block)
                            off = {}
                            for (x, p), (b, oo) in zip(v.inc, ps):
                                off = add(off, mul(mul(cond[p], self.edge(p, v.block)), oo))
                            r = ps[0][0], off
                        r = r[0], self.leave_psum(r[1], v.block)
                        self.memo[key] = r
                        return r
                except Unknown:
                    pass
                self.memo[key] = (('pv', v.id), {})
                return self.memo[key]
            b, off = super().addr(o)
            if v.op == 'getelementptr':
                return self.leave_base(b, v.block), self.leave_psum(off, v.block)
            return b, off
        return super().addr(o)

    # -- loops -------------------------------------------------------------------
    def inner(self, h):
        """evaluator with the header phis of loop h left symbolic"""
        if h not in self.inn:
            s = dict(self.subst)
            for v in self.f.blocks[h]:
                if v.op == 'phi' and v.id not in s:
                    s[v.id] = ('ptr', ('pv', v.id), {}) if v.ty == 'ptr' else ([A('v', v.id)] if alg.nlanes(v.ty) == 1 else [A('v', v.id, j) for j in range(alg.nlanes(v.ty))])
            self.inn[h] = Scev(self.f, s, self.calls, parent=self, opaque=self.opaque)
            self.inn[h].loadat = self.loadat
        return self.inn[h]

    def latches(self, h):
        return [p for p in self.f.pred[h] if p in self.f.loops[h]]

    def close(self, v):
        if v.id in self.cl:
            return self.cl[v.id]
        self.cl[v.id] = None
        self.cl[v.id] = self._close(v)
        return self.cl[v.id]

    def _close(self, v):
        f, h = self.f, v.block
        body = f.loops[h]
        ins = [(o, p) for o, p in v.inc if p in body]
        outs = [(o, p) for o, p in v.inc if p not in body]
        if not ins or not outs:
            return None
        E = self.inner(h)
        own = {('v', w.id) for w in f.blocks[h] if w.op == 'phi'} | {('pv', w.id) for w in f.blocks[h] if w.op == 'phi'}
        try:
            if v.ty == 'ptr':
                nx = [E.addr_at(o, p) for o, p in ins]
                if len({b for b, _ in nx}) != 1:
                    return None
                if nx[0][0] != ('pv', v.id):
                    return self.shifted(v, nx, [self.addr_at(o, p) for o, p in outs], own)
                steps = {alg.freeze(o) for _, o in nx}
                ini = [self.addr_at(o, p) for o, p in outs]
                if len(ini) > 1 and any(x != ini[0] for x in ini):
                    return None
                b0, o0 = ini[0]
            else:
                if alg.nlanes(v.ty) != 1:
                    return None
                nx = [E.at(o, p) for o, p in ins]
                steps = {alg.freeze(sub(x, A('v', v.id))) for x in nx}
                ini = [self.at(o, p) for o, p in outs]
                if any(x != ini[0] for x in ini):
                    return None
                b0, o0 = None, ini[0]
        except Unknown:
            return None
        if len(steps) != 1:
            return None
        st = alg.thaw(next(iter(steps)))
        used = deep_atoms(st)
        if any(a not in own and not self.mentions(a, own) and self.varies(a, h) for a in used):
            return None
        if not any(a in own or a == ('it', h) or a[0] == 'base' and a[1] in own or self.mentions(a, own) for a in used):
            off = add(o0, mul(st, A('it', h)))
            return ('ptr', b0, off) if v.ty == 'ptr' else ('num', off)
        if v.ty == 'ptr':
            return None
        if ('v', v.id) in used:
            return self.shifted(v, nx, ini, own)
        # the increment depends on the iteration: a sum, if it can be written without other symbolic phis
        try:
            s = dict(self.subst)
            s[v.id] = [A('v', v.id)]
            G = Scev(f, s, self.calls, parent=self, opaque=self.opaque)
            G.loadat = self.loadat
            for w in f.blocks[h]:
                if w.op == 'phi' and w.id != v.id:
                    G.cl[w.id] = self.close(w)
            t = [sub(G.at(o, p), A('v', v.id)) for o, p in ins]
        except Unknown:
            return None
        if any(x != t[0] for x in t):
            return None
        if any(a in own or self.mentions(a, own) or self.varies(a, h) for a in deep_atoms(t[0])):
            return None
        return ('num', add(o0, A('psum', h, alg.freeze(t[0]))))

    def varies(self, a, h):
        """values without a closed form that may differ from one iteration of loop h to the next"""
        body = self.f.loops[h]
        if a[0] == 'exit':
            return a[1] in body
        if a[0] in ('v', 'callv'):
            v = self.f.vals.get(a[1])
            return v is not None and v.block in body
        if a[0] in ('ld', 'base'):
            b = a[1]
            while isinstance(b, tuple) and b and b[0] == '*':
                b = b[1]
            if isinstance(b, tuple) and b[0] in ('pv', 'call'):
                v = self.f.vals.get(b[1])
                return v is not None and v.block in body
        return False

    def shifted(self, v, nx, ini, own):
        """the next value is a function of other loop-carried values that have closed forms, and so is the first one"""
        h = v.block
        if any(x != nx[0] for x in nx) or any(x != ini[0] for x in ini):
            return None
        back = lambda a: sub(A('it', h), C(1)) if a == ('it', h) else None
        zero = lambda a: {} if a == ('it', h) else None

        def prev(a):
            if a[0] == 'v' and a in own and a[1] != v.id:
                c = self.close(self.f.vals[a[1]])
                if c is None or c[0] != 'num' or any(x[0] == 'psum' for x in deep_atoms(c[1])):
                    raise Unknown('open')
                return mapatoms(c[1], back)
            if a in own:
                raise Unknown('self')
            if a[0] == 'ld' and isinstance(a[1], tuple) and a[1][0] == 'pv' and a[1] in own:
                c = self.close(self.f.vals[a[1][1]])
                if c is None or c[0] != 'ptr' or self.written(c[1], h):
                    raise Unknown('open')
                return A('ld', c[1], alg.freeze(add(mapatoms(c[2], back), mapatoms(alg.thaw(a[2]), prev))), *a[3:])
            return None
        try:
            if v.ty == 'ptr':
                b, o = nx[0]
                if not (isinstance(b, tuple) and b[0] == 'pv' and b in own and b[1] != v.id):
                    return None
                c = self.close(self.f.vals[b[1]])
                if c is None or c[0] != 'ptr':
                    return None
                cand = add(mapatoms(c[2], back), mapatoms(o, prev))
                if any(self.mentions(a, own) for a in deep_atoms(cand)):
                    return None
                if ini[0][0] == c[1] and alg.same(mapatoms(cand, zero), ini[0][1]):
                    return ('ptr', c[1], cand)
                return None
            cand = mapatoms(nx[0], prev)
            if any(self.mentions(a, own) for a in deep_atoms(cand)):
                return None
            if alg.same(mapatoms(cand, zero), ini[0]):
                return ('num', cand)
        except (Unknown, KeyError):
            pass
        return None

    def written(self, base, h):
        """may a store in loop h be to this base"""
        for b in self.f.loops[h]:
            for i in self.f.blocks[b]:
                if i.op == 'store':
                    w = self.addr(i.ops[1])[0]
                    if w == base or isinstance(w, tuple) and w[0] == 'pv' and (self.close(self.f.vals[w[1]]) or (0, base))[1] == base:
                        return True
        return False

    def mentions(self, a, own):
        if a[0] == 'ld':
            b = a[1]
            while isinstance(b, tuple) and b and b[0] == '*':
                b = b[1]
            return b in own
        return False

    def phi(self, v):
        if v.block in self.f.loops:
            if v.ty != 'ptr':
                c = self.close(v)
                if c is not None:
                    return [c[1]]
                return [A('v', v.id)] if alg.nlanes(v.ty) == 1 else [A('v', v.id, j) for j in range(alg.nlanes(v.ty))]
            b, off = self.addr(v.id)
            return [add(A('base', b), off)]
        return super().phi(v)

    def call(self, v):
        try:
            return super().call(v)
        except Unknown:
            if not self.opaque or v.ty in (None, 'void'):
                raise
            n = alg.nlanes(v.ty)
            return [A('callv', v.id, v.callee_name() or '?')] if n == 1 else [A('callv', v.id, v.callee_name() or '?', j) for j in range(n)]

    def exits(self, h):
        body = self.f.loops[h]
        return [(b, s) for b in body for s in self.f.succ[b] if s not in body and self.f.blocks[s][-1].op != 'unreachable']

    def exit_it(self, h):
        """iteration (from 0) during which the loop is left, None if not a counted loop with one exit"""
        if h in self.tc:
            return self.tc[h]
        self.tc[h] = None
        ex = self.exits(h)
        if len(ex) == 1:
            b, s = ex[0]
            if all(self.f.dominates(b, l) for l in self.latches(h)):
                self.tc[h] = self.count(h, b, s)
        return self.tc[h]

    def header_it(self, h):
        """like exit_it, counting only the exit test of a counted loop that may also be left early"""
        ex = [(b, s) for b, s in self.exits(h) if all(self.f.dominates(b, l) for l in self.latches(h))]
        for b, s in ex:
            n = self.count(h, b, s)
            if n is not None:
                return n
        return None

    def count(self, h, b, s):
        f = self.f
        t = f.blocks[b][-1]
        c = f.val(t.cond) if t.op == 'br' and t.cond is not None else None
        neg = False
        while c is not None and c.op == 'xor' and const_int(c.ops[1]) in (1, -1):
            neg, c = not neg, f.val(c.ops[0])
        if c is None or c.op != 'icmp':
            return None
        try:
            d = sub(self.at(c.ops[0], b), self.at(c.ops[1], b))
        except Unknown:
            return None
        pred = c.pred
        stay_first = t.succ[0] != s
        if neg:
            stay_first = not stay_first
        if not stay_first:
            pred = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[pred]
        it = ('it', h)
        k = d.get(((it, 1),))
        kp = None
        if any(it in dict(m) and m != ((it, 1),) for m in d):
            # a step that is not a number: one symbol, taken to be positive
            ks = {}
            for m, x in d.items():
                if it in dict(m):
                    if dict(m)[it] != 1:
                        return None
                    ks[tuple(z for z in m if z[0] != it)] = x
            if len(ks) != 1 or len(next(iter(ks))) != 1 or next(iter(ks))[0][1] != 1 or it in deep_atoms(ks):
                return None
            kp, k = ks, next(iter(ks.values()))
            if abs(k) != 1:
                return None
        if not k:
            return None
        d0 = {m: x for m, x in d.items() if it not in dict(m)}
        if any(it in deep_atoms({m: 1}) for m in d0):
            return None
        if any(a[0] == 'psum' and a[1] in f.loops[h] or self.varies(a, h) for a in deep_atoms(d0)):
            return None
        p = pred[1:] if pred not in ('eq', 'ne') else pred
        if k < 0:
            d0, k = scale(d0, -1), -k
            p = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(p, p)
        if pred[0] == 'u' and p in ('gt', 'ge'):
            return None
        m = scale(d0, -1)                       # stay while k*it < m
        if p == 'le':
            m = add(m, C(1))
        elif p == 'ne':
            if any((x / k).denominator != 1 for x in m.values()):
                return None if not alg.is_const(m) else None
            return scale(m, alg.Fraction(1) / k)
        elif p != 'lt':
            return None
        if kp is not None:
            if pred == 'ne':
                return None
            return add(alg.fn('udiv', sub(m, C(1)), {next(iter(kp)): alg.Fraction(1)}), C(1))
        if k == 1:
            return m
        if alg.is_const(m):
            q = alg.cval(m) / k
            return C(max(0, -((-q.numerator) // q.denominator)))
        c0 = m.get((), alg.Fraction(0))
        Qp = {t: x / k for t, x in m.items() if t}
        if all(x.denominator == 1 for x in Qp.values()) and self.integral(Qp):
            q = c0 / k
            return add(Qp, C(-((-q.numerator) // q.denominator)))
        return alg.fn('udiv', add(m, C(k - 1)), C(k))

    def integral(self, p):
        """the monomials of p stand for integers"""
        return all(a[0] in ('arg', 'it', 'I', 'eq0', 'gt0', 'exit', 'ld') or a[0] == 'fn' and a[1] in ('udiv', 'and', 'int') for m in p for a, k in m)

    def inloop(self, a, h):
        v = self.f.vals.get(a[1])
        return v is not None and v.block in self.f.loops[h]

    def body_count(self, h, b):
        """number of times block b (in loop h, executed each iteration) runs per entry of the loop"""
        ex = self.exits(h)
        if len(ex) != 1:
            return None
        e, s = ex[0]
        n = self.exit_it(h)
        if n is None:
            return None
        if e == b or self.f.dominates(b, e):
            return add(n, C(1))
        return n
