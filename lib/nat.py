"""Decision of conditions over symbols of known sign: natural-number symbols ('sym', lower-case letter) and positive-real symbols ('sym', upper-case letter)."""
import itertools
import alg, scev
from alg import C, A, add, sub, scale, thaw, same

EXTRA = set()       # further atoms known to be natural numbers (loop counters)


def S(c):
    return A('sym', c)


def natural(a):
    return a[0] == 'sym' and len(a) == 2 or a[0] == 'it' or a in EXTRA


def positive(a):
    return a[0] == 'sym' and len(a) == 2 and a[1][:1].isupper()


def sign(p):
    """'+', '0+', '0', '-', '0-' of a polynomial in symbols of known sign; None when open"""
    if not p:
        return '0'
    if any(not natural(a) or k < 0 for m in p for a, k in m):
        return None
    for s, hi, lo in ((1, '+', '0+'), (-1, '-', '0-')):
        if all(k * s >= 0 for k in p.values()):
            return hi if any(all(positive(a) for a, _ in m) for m in p) else lo
    return None


def settle(p, more=None):
    """resolve the conditions and halvings that the signs decide"""
    def f(a):
        if a[0] in ('gt0', 'eq0'):
            s = sign(thaw(a[1]))
            if a[0] == 'gt0':
                return C(1) if s == '+' else {} if s in ('0', '-', '0-') else None
            return C(1) if s == '0' else {} if s in ('+', '-') else None
        if a[:2] in (('fn', 'udiv'), ('fn', 'lshr'), ('fn', 'sdiv')) and len(a) == 4:
            x, d = thaw(a[2]), thaw(a[3])
            if set(d) - {()} or sign(x) not in ('0', '+', '0+'):
                return None
            d = d.get((), 0)
            if a[1] == 'lshr':
                d = 2 ** d
            if d and all(m and (k / d).denominator == 1 or not m and k.denominator == 1 for m, k in x.items()):
                return {m: (k / d if m else k // d) for m, k in x.items() if (k / d if m else k // d)}
        return None if more is None else more(a)
    for _ in range(8):
        q = scev.mapatoms(p, f)
        if q == p:
            return q
        p = q
    return p


def known(p):
    """settled to a number"""
    return not set(p) - {()}


def orders(n):
    """every weak order of n elements, as ranks"""
    return [t for t in itertools.product(range(n), repeat=n) if sorted(set(t)) == list(range(len(set(t))))]


class Case:
    """what of one pass through a region happens in a case: branch conditions decided by the facts (atom -> value), conditional constant propagation
    from block start (a loop header: one iteration) to the end of the function, the next iteration or the blocks of stop"""
    def __init__(self, E, facts, start=None, stop=()):
        self.E, self.f = E, E.f
        self.facts = facts if callable(facts) else facts.get
        self.start = self.f.rpo()[0] if start is None else start
        self.stop = set(stop)
        self.succ = {}
        self.seen = []
        self.open = []
        todo = [self.start]
        while todo:
            b = todo.pop()
            if b in self.succ:
                continue
            self.succ[b] = []
            self.seen.append(b)
            if b in self.stop and b != self.start:
                continue
            ss = list(dict.fromkeys(self.f.succ[b]))
            res = []
            for s in ss:
                c = C(1)
                if len(ss) > 1:
                    try:
                        c = self.wrapped(b, s)
                        if c is None:
                            c = self.ev(E.edge(b, s))
                    except alg.Unknown:
                        c = A('open', b, s)
                res.append((s, c))
            sure = [s for s, c in res if same(c, C(1))]
            if sure:
                res = [(s, C(1)) for s in sure]
            for s, c in res:
                if not c and len(ss) > 1:
                    continue
                if not known(c):
                    self.open.append((b, s, c))
                if s == self.start:
                    self.succ[b].append(('again', s))
                    continue
                self.succ[b].append(s)
                todo.append(s)

    def wrapped(self, b, s):
        """an unsigned comparison of a difference that is negative compares a huge number"""
        t = self.f.blocks[b][-1]
        v = self.f.vals.get(t.cond) if t.op == 'br' and isinstance(t.cond, int) else None
        if v is None or getattr(v, 'op', None) != 'icmp' or v.pred not in ('ult', 'ule', 'ugt', 'uge'):
            return None
        x, y = (sign(self.ev(self.E.at(o, b))) for o in v.ops)
        if x == '-' and y in ('0', '0+', '+'):
            r = v.pred in ('ugt', 'uge')
        elif y == '-' and x in ('0', '0+', '+'):
            r = v.pred in ('ult', 'ule')
        else:
            return None
        return C(1) if (t.succ[0] == s) == r else {}

    def ev(self, p):
        for _ in range(4):
            q = settle(scev.mapatoms(p, self.facts))
            if p == q:
                return q
            p = q
        return p

    def may(self, b):
        return b in self.succ

    def must(self, b):
        """every way through the region passes block b"""
        if b not in self.succ:
            return False
        todo, seen = [self.start], set()
        while todo:
            x = todo.pop()
            if x == b or x in seen:
                continue
            seen.add(x)
            ss = self.succ[x]
            if not ss:
                if x in self.stop or not self.f.succ[x] and self.f.blocks[x][-1].op == 'ret':
                    return False
                continue
            for s in ss:
                if isinstance(s, tuple):
                    return False
                todo.append(s)
        return True

    def must2(self, b):
        """every way through one iteration (start: a loop header) passes block b, the next iteration included"""
        if b not in self.succ:
            return False
        if b == self.start:
            return True
        todo, seen = [self.start], set()
        while todo:
            x = todo.pop()
            if x == b or x in seen:
                continue
            seen.add(x)
            ss = self.succ[x]
            if not ss and not self.f.succ[x] and self.f.blocks[x][-1].op == 'unreachable':
                continue
            if not ss or any(isinstance(s, tuple) for s in ss):
                return False
            todo += ss
        return True

    def each(self, b):
        """every iteration that is completed passes block b"""
        if b not in self.succ:
            return False
        if b == self.start:
            return True
        todo, seen = [self.start], set()
        while todo:
            x = todo.pop()
            if x == b or x in seen:
                continue
            seen.add(x)
            for s in self.succ[x]:
                if isinstance(s, tuple):
                    return False
                if s in self.f.loops.get(self.start, ()):
                    todo.append(s)
        return True

    def val(self, o, b):
        try:
            return self.ev(self.E.at(o, b))
        except alg.Unknown:
            v = self.f.vals.get(o) if isinstance(o, int) else None
            if v is not None and getattr(v, 'op', None) == 'phi' and v.block not in self.f.loops:
                live = [(x, p) for x, p in v.inc if p in self.succ and v.block in self.succ[p]]
                if len(live) == 1:
                    return self.val(*live[0])
            raise
