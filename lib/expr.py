"""Canonical polynomial normal form of SSA values (value numbering modulo ring laws).

A polynomial is a dict: monomial -> Fraction, a monomial a sorted tuple of
(atom, exponent).  Atoms are hashable tuples."""
from fractions import Fraction
import ir, flow, effects
from ir import const_int, const_fp

ONE = ()


def const(c):
    c = Fraction(c)
    return {ONE: c} if c else {}


def atom(a):
    return {((a, 1),): Fraction(1)}


def add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            e = {}
            for a, k in m + n:
                e[a] = e.get(a, 0) + k
            key = tuple(sorted(((a, k) for a, k in e.items() if k), key=repr))
            v = r.get(key, 0) + c * d
            if v:
                r[key] = v
            else:
                r.pop(key, None)
    return r


def freeze(p):
    return tuple(sorted(((m, c) for m, c in p.items()), key=repr))


def show(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=repr):
        s = '*'.join((show_atom(a) + ('^%d' % k if k != 1 else '')) for a, k in m)
        if not s:
            out.append(str(c))
        else:
            out.append(s if c == 1 else '%s*%s' % (c, s))
    return ' + '.join(out)


def show_atom(a):
    if isinstance(a, tuple):
        if a and a[0] == 'load':
            return effects.fmt(a[1])
        if a and a[0] in ('arg', 'v'):
            return '%s%s' % (a[0], a[1])
        return '%s(%s)' % (a[0], ', '.join(show_atom(x) if not (isinstance(x, tuple) and x and isinstance(x[0], tuple)) else show(dict(x)) for x in a[1:]))
    return str(a)


class Norm:
    """normaliser for one function; `an` effects analysis"""

    def __init__(self, an, f, subst=None, inline=True, name=None, loadatom=None):
        self.an, self.f = an, f
        self.fi = an.info[f.name]
        self.memo = {}
        self.subst = subst or {}
        self.busy = set()
        self.inline = inline
        self.name = name
        self.loadatom = loadatom
        self.depth = 0

    def op(self, o):
        c = const_int(o)
        if c is not None:
            return const(c)
        d = const_fp(o)
        if d is not None:
            try:
                return const(Fraction(d))
            except (ValueError, OverflowError):
                return atom(('fpconst', str(d)))
        if isinstance(o, list):
            if o and o[0] == 'zero':
                return {}
            return atom(('k',) + tuple(str(x) for x in o))
        if isinstance(o, dict):
            return atom(('ce', repr(o)))
        if o in self.subst:
            return self.subst[o]
        if o in self.memo:
            return self.memo[o]
        if o in self.busy:
            return atom(('v', o))
        self.busy.add(o)
        r = self._op(self.f.vals[o])
        self.busy.discard(o)
        self.memo[o] = r
        return r

    def _op(self, v):
        op = v.op
        if op == 'arg':
            return atom(('arg', v.id))
        if op in ('add', 'fadd', 'or_disjoint'):
            return add(self.op(v.ops[0]), self.op(v.ops[1]))
        if op in ('sub', 'fsub'):
            return add(self.op(v.ops[0]), self.op(v.ops[1]), -1)
        if op in ('mul', 'fmul'):
            return mul(self.op(v.ops[0]), self.op(v.ops[1]))
        if op == 'fneg':
            return add({}, self.op(v.ops[0]), -1)
        if op == 'shl' and const_int(v.ops[1]) is not None:
            return mul(self.op(v.ops[0]), const(1 << const_int(v.ops[1])))
        if op in ('fdiv',):
            d = self.op(v.ops[1])
            n = self.op(v.ops[0])
            if list(d) == [ONE]:
                return mul(n, const(1 / d[ONE]))
            if len(d) == 1:
                (m, c), = d.items()
                inv = {tuple((a, -k) for a, k in m): 1 / c}
                return mul(n, inv)
            return mul(n, atom(('inv', freeze(d))))
        if op in ('udiv', 'sdiv'):
            d = self.op(v.ops[1])
            n = self.op(v.ops[0])
            if d == const(1):
                return n
            return atom((op, freeze(n), freeze(d)))
        if op in flow.CASTS:
            return self.op(v.ops[0])
        if op == 'load':
            return self.load(v)
        if op in ('urem', 'srem', 'and', 'or', 'xor', 'lshr', 'ashr', 'shl', 'frem'):
            return atom((op, freeze(self.op(v.ops[0])), freeze(self.op(v.ops[1]))))
        if op in ('icmp', 'fcmp'):
            return atom((op, v.pred, freeze(self.op(v.ops[0])), freeze(self.op(v.ops[1]))))
        if op == 'select':
            return atom(('select',) + tuple(freeze(self.op(x)) for x in v.ops))
        if op == 'call':
            return self.call(v)
        if op == 'phi':
            vals = {freeze(self.op(x)) for x, _ in v.inc}
            if len(vals) == 1:
                return dict(next(iter(vals)))
            return atom(('v', v.id))
        return atom(('v', v.id))

    def load(self, v):
        if self.loadatom:
            r = self.loadatom(self, v)
            if r is not None:
                return r
        acc = self.fi.access(v.ops[0])
        if len(acc) == 1:
            l = next(iter(acc))
            if '*' not in l[1] and not l[1] == () and not ir.const_int(v.ops[0]):
                return atom(('load', l))
            return atom(('load', l, self.index(v.ops[0])))
        return atom(('v', v.id))

    def index(self, o):
        """frozen element offset of an address relative to its base object"""
        tot = {}
        for _ in range(20):
            v = self.f.val(o)
            if v is None:
                break
            if v.op == 'getelementptr':
                for s in v.path:
                    if s[0] == 'i':
                        tot = add(tot, mul(self.op(s[1]), const(s[2] if len(s) > 2 else 1)))
                o = v.ops[0]
            elif v.op == 'bitcast':
                o = v.ops[0]
            else:
                break
        return freeze(tot)

    def call(self, v):
        n = v.callee_name()
        if n is None:
            return atom(('v', v.id))
        g = self.f.mod.funcs.get(n)
        base = n[4:] if n.startswith('hdr$') else n
        if g is not None and not g.decl and self.inline and len(g.rets) == 1 and self.depth < 3:
            s = self.an.sum[g.name]
            if not s.writes and not s.frees and g.rets[0].ops and len(g.blocks) <= 12:
                sub = {}
                for a in g.args:
                    if a.id < len(v.ops) and not a.ty.startswith('ptr'):
                        sub[a.id] = self.op(v.ops[a.id])
                nn = Norm(self.an, g, sub, True)
                nn.depth = self.depth + 1

                def la(me, ld, outer=self, c=v, gi=self.an.info[g.name]):
                    acc = gi.access(ld.ops[0])
                    if len(acc) == 1:
                        l = next(iter(acc))
                        mapped = {outer.fi.canon(x) for x in outer.an.instantiate(outer.fi, c, l)} if l[0][0] == 'arg' else {l}
                        if len(mapped) == 1:
                            l2 = next(iter(mapped))
                            if '*' not in l2[1] and l2[1]:
                                return atom(('load', l2))
                            return atom(('load', l2, me.index(ld.ops[0])))
                    return None
                nn.loadatom = la
                r = nn.op(g.rets[0].ops[0])
                if not any(a[0] == 'v' for m in r for a, k in m if isinstance(a, tuple)):
                    return r
        args = tuple(freeze(self.op(o)) if not self._isptr(o) else ('p',) + tuple(sorted(map(repr, self.fi.pts(o)))) for o in v.ops)
        if g is not None and not g.decl:
            s = self.an.sum[g.name]
            if s.writes:
                return atom(('v', v.id))
        return atom(('call', base) + args)

    def _isptr(self, o):
        v = self.f.val(o)
        if v is None:
            return isinstance(o, list) and o and o[0] in ('g', 'null')
        return effects.is_ptr(v.ty)


def by_name(p):
    """replace each memory atom by the name of the member it was loaded from (comparison across functions)"""
    r = {}
    for m, c in p.items():
        q = const(c)
        for a, k in m:
            if isinstance(a, tuple) and a[0] == 'load':
                nm = [s for s in a[1][1] if s != '*']
                t = nm[-1].rsplit('.', 1)[-1] if nm else str(a[1])
            elif isinstance(a, tuple) and a[0] == 'call':
                t = 'call ' + a[1]
            else:
                t = a
            for _ in range(abs(k)):
                q = mul(q, {((t, 1 if k > 0 else -1),): Fraction(1)})
        r = add(r, q)
    return r
