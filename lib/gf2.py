"""Bit-linear normal forms: an integer value as a vector of XOR sums of bits of opaque words."""
import alg
from ir import const_int

ONE = 'one'


class Not(Exception):
    pass


def const(c, n):
    return [frozenset([ONE]) if (c >> i) & 1 else frozenset() for i in range(n)]


def word(key, n):
    return [frozenset([(key, i)]) for i in range(n)]


def xor(a, b):
    return [x ^ y for x, y in zip(a, b)]


def shl(a, k):
    return ([frozenset()] * k + a)[:len(a)]


def lshr(a, k):
    return a[k:] + [frozenset()] * min(k, len(a))


def andc(a, c):
    return [x if (c >> i) & 1 else frozenset() for i, x in enumerate(a)]


def isconst(a):
    return all(x <= {ONE} for x in a)


def cval(a):
    return sum(1 << i for i, x in enumerate(a) if x)


def width(ty):
    return int(ty[1:])


class Bits:
    """bit-linear forms of the integer values of a function; leaf(v) gives the key of an opaque value or None"""

    def __init__(self, f, leaf, table):
        self.f, self.leaf, self.table, self.memo = f, leaf, table, {}

    def val(self, o):
        c = const_int(o)
        if c is not None:
            return const(c & ((1 << width(o[1])) - 1), width(o[1]))
        if not isinstance(o, int):
            raise Not('operand')
        if o not in self.memo:
            self.memo[o] = None
            self.memo[o] = self._val(self.f.vals[o])
        if self.memo[o] is None:
            raise Not('cycle')
        return self.memo[o]

    def _val(self, v):
        k = self.leaf(v)
        if k is not None:
            return word(k, width(v.ty))
        op = v.op
        n = width(v.ty) if v.ty and v.ty.startswith('i') else 0
        if op == 'xor':
            return xor(self.val(v.ops[0]), self.val(v.ops[1]))
        if op == 'and':
            a, b = self.val(v.ops[0]), self.val(v.ops[1])
            for x, y in ((a, b), (b, a)):
                if isconst(y):
                    return andc(x, cval(y))
            # all-ones/zero mask of one bit against a constant was handled; bitwise and of disjoint supports is 0
            out = []
            for x, y in zip(a, b):
                if not x or not y:
                    out.append(frozenset())
                elif x == y:
                    out.append(x)
                elif x == {ONE}:
                    out.append(y)
                elif y == {ONE}:
                    out.append(x)
                else:
                    raise Not('and')
            return out
        if op == 'or':
            a, b = self.val(v.ops[0]), self.val(v.ops[1])
            out = []
            for x, y in zip(a, b):
                if not x or not y or x == y:
                    out.append(x | y)
                elif {ONE} in (x, y):
                    out.append(frozenset([ONE]))
                else:
                    raise Not('or')
            return out
        if op == 'add':
            a, b = self.val(v.ops[0]), self.val(v.ops[1])
            if all(not x or not y for x, y in zip(a, b)):
                return xor(a, b)
            raise Not('add')
        if op in ('shl', 'lshr'):
            c = const_int(v.ops[1])
            if c is None:
                raise Not('shift')
            return (shl if op == 'shl' else lshr)(self.val(v.ops[0]), c)
        if op == 'udiv' or op == 'mul' and const_int(v.ops[1]) is not None or op == 'mul' and const_int(v.ops[0]) is not None:
            o, c = (v.ops[0], const_int(v.ops[1])) if const_int(v.ops[1]) is not None else (v.ops[1], const_int(v.ops[0]))
            if c is None:
                raise Not('division')
            a = self.val(o)
            c &= (1 << n) - 1
            if c & (c - 1) == 0 and c:
                return (lshr if op == 'udiv' else shl)(a, c.bit_length() - 1)
            b = self.single(a)
            if op == 'mul' and b is not None:
                return [b if (c >> i) & 1 else frozenset() for i in range(n)]
            raise Not('mul')
        if op == 'urem':
            c = const_int(v.ops[1])
            if c and c & (c - 1) == 0:
                return andc(self.val(v.ops[0]), c - 1)
            raise Not('urem')
        if op == 'sub' and const_int(v.ops[0]) == 0:
            b = self.single(self.val(v.ops[1]))
            if b is not None:
                return [b] * n
            raise Not('negation')
        if op in ('zext', 'trunc'):
            a = self.val(v.ops[0])
            return (a + [frozenset()] * n)[:n]
        if op == 'sext':
            a = self.val(v.ops[0])
            return (a + [a[-1]] * n)[:n]
        if op == 'icmp' and v.pred in ('eq', 'ne'):
            a, b = self.val(v.ops[0]), self.val(v.ops[1])
            d = [x for x in xor(a, b) if x]
            if len(d) == 1:
                return [d[0] if v.pred == 'ne' else d[0] ^ {ONE}]
            raise Not('comparison')
        if op in ('select', 'phi'):
            if op == 'select':
                c, a, b = (self.val(x) for x in v.ops)
            else:
                c, a, b = self.gate(v)
            d = xor(a, b)
            if isconst(d):
                return [y ^ c[0] if x else y for x, y in zip(d, b)]
            raise Not('select')
        if op == 'load':
            t = self.table(v)
            if t is not None:
                vals, idx = t
                b = self.val(idx)
                if len(vals) == 2 and all(not x for x in b[1:]):
                    d = vals[0] ^ vals[1]
                    return [(frozenset([ONE]) if (vals[0] >> i) & 1 else frozenset()) ^ (b[0] if (d >> i) & 1 else frozenset()) for i in range(n)]
            raise Not('load')
        raise Not(op)

    def single(self, a):
        return a[0] if all(not x for x in a[1:]) else None

    def gate(self, v):
        """two-way merge: (condition bit, value if set, value otherwise)"""
        f = self.f
        if v.block in f.loops or len(v.inc) != 2:
            raise Not('merge')
        d = f.idom[v.block]
        t = f.blocks[d][-1]
        if t.op != 'br' or t.cond is None:
            raise Not('merge')
        arm = []
        for o, p in v.inc:
            if p == d:
                arm.append(t.succ.index(v.block))
            elif f.pred[p] == [d] and p in t.succ:
                arm.append(t.succ.index(p))
            else:
                raise Not('merge')
        if set(arm) != {0, 1}:
            raise Not('merge')
        vals = {a: self.val(o) for a, (o, p) in zip(arm, v.inc)}
        return self.val(t.cond), vals[0], vals[1]


def show(a, names=lambda k: str(k)):
    ws = {}
    for i, x in enumerate(a):
        for e in x:
            ws.setdefault('1' if e == ONE else names(e[0]), []).append(i)
    return ', '.join('%s into bits %s' % (k, v if len(v) < 6 else '%d..%d' % (v[0], v[-1])) for k, v in sorted(ws.items()))
