"""Streaming loops over vectors: sum (or element-wise update) over all elements, whatever the split in vector/scalar loops.

Induction argument, checked on the value graph: every loop consumes the elements of its inputs in lockstep, `step` at a
time, never past the end; the last loop consumes one at a time until the end; and the quantity finally returned grows, in
every loop, by exactly the sum of the specified term over the consumed elements and starts from zero."""
import re
import alg, ir
from alg import C, A, add, sub, scale, Unknown, freeze
from ir import const_int


class Bad(Exception):
    def __init__(self, ins, msg):
        self.ins, self.msg = ins, msg


class Ev(alg.Eval):
    def loadat(self, v, b, off, n, sz):
        """element atoms"""
        if b[0] == 'cur':
            if not alg.is_const(off):
                return None
            c = alg.cval(off)
            if c % sz:
                return None
            return [A('el', b[1], int(c) // sz + j) for j in range(n)]
        if b[0] == 'arg':
            iv = [a for a in alg.atoms(off) if a[0] == 'x']
            if len(iv) == 1:
                rest = sub(off, scale(alg.A(*iv[0]), sz))
                if alg.is_const(rest) and alg.cval(rest) % sz == 0:
                    return [A('el', b[1], int(alg.cval(rest)) // sz + j) for j in range(n)]
        return None


class Stream:
    def __init__(self, f, narg, esz, calls=None):
        self.f, self.narg, self.esz = f, narg, esz
        self.n = A('arg', narg)
        self.calls = calls
        self.cursors()

    # -- cursors --------------------------------------------------------------
    def root(self, o, seen=None):
        """base argument a pointer cursor ultimately starts from"""
        seen = seen or set()
        v = self.f.val(o)
        if v is None:
            return {None}
        if v.id in seen:
            return set()
        seen.add(v.id)
        if v.op == 'arg':
            return {v.id}
        if v.op in ('getelementptr', 'bitcast'):
            return self.root(v.ops[0], seen)
        if v.op == 'phi':
            r = set()
            for x, _ in v.inc:
                r |= self.root(x, seen)
            return r
        return {None}

    def cursors(self):
        f = self.f
        self.subst = {}
        self.cur = {}           # block -> {('p', k): phi id} / {('i',): phi id}
        ivs = set()
        ch = True
        cand = [i for i in f.instrs if i.op == 'phi' and i.ty in ('i32', 'i64')]
        isiv = {i.id for i in cand}
        while ch:
            ch = False
            for i in cand:
                if i.id in isiv and not all(self.ivlike(x, isiv) for x, _ in i.inc):
                    isiv.discard(i.id)
                    ch = True
        for i in f.instrs:
            if i.op != 'phi':
                continue
            if i.ty == 'ptr':
                r = self.root(i.id)
                if len(r) == 1 and None not in r:
                    k = next(iter(r))
                    if ('p', k) in self.cur.setdefault(i.block, {}):
                        raise Unknown('two cursors over one array')
                    self.cur[i.block][('p', k)] = i.id
                    self.subst[i.id] = ('ptr', ('cur', k, i.block), {})
            elif i.id in isiv:
                if ('i',) in self.cur.setdefault(i.block, {}):
                    raise Unknown('two counters in one loop')
                self.cur[i.block][('i',)] = i.id
                self.subst[i.id] = [A('x', 'iv', i.block)]
        for b in self.cur:
            for i in f.blocks[b]:
                if i.op == 'phi' and i.id not in self.subst:
                    n = alg.nlanes(i.ty)
                    self.subst[i.id] = [A('v', i.id)] if n == 1 else [A('v', i.id, j) for j in range(n)]
        self.E = Ev(f, self.subst, calls=self.calls)

    def ivlike(self, o, isiv):
        c = const_int(o)
        if c is not None:
            return c == 0
        v = self.f.val(o)
        if v is None:
            return False
        if v.op == 'phi':
            return v.id in isiv
        if v.op in ('zext', 'sext', 'trunc'):
            return self.ivlike(v.ops[0], isiv)
        if v.op == 'add':
            k = const_int(v.ops[1])
            return k is not None and isinstance(v.ops[0], int) and self.f.val(v.ops[0]).op == 'phi' and v.ops[0] in isiv or self.ivstep(v, isiv)
        return False

    def ivstep(self, v, isiv):
        a = self.f.val(v.ops[0])
        return a is not None and a.op == 'add' and const_int(v.ops[1]) is not None and self.ivlike(a.id, isiv)

    # -- one loop ---------------------------------------------------------------
    def step(self, h):
        """elements consumed by one iteration of loop h"""
        f, s = self.f, None
        body = f.loops[h]
        for key, pid in self.cur[h].items():
            v = f.vals[pid]
            for x, p in v.inc:
                if p not in body:
                    continue
                if key[0] == 'p':
                    b, off = self.E.addr(x)
                    if b != ('cur', key[1], h) or not alg.is_const(off) or alg.cval(off) % self.esz:
                        raise Unknown('cursor step')
                    k = int(alg.cval(off)) // self.esz
                else:
                    d = sub(self.E.one(x), A('x', 'iv', h))
                    if not alg.is_const(d):
                        raise Unknown('counter step')
                    k = int(alg.cval(d))
                if s is not None and k != s:
                    raise Bad(v, 'the inputs advance by different amounts (%d and %d elements) in one iteration' % (s, k))
                s = k
        if not s or s < 0:
            raise Unknown('no step')
        return s

    def bound(self, h):
        """B such that the loop continues while position < B (elements), the exit test, and whether it is unsigned index arithmetic"""
        f = self.f
        body = f.loops[h]
        ex = [(b, s) for b in body for s in f.succ[b] if s not in body]
        if len(ex) != 1 or ex[0][0] != h:
            raise Unknown('loop with several exits')
        t = f.blocks[h][-1]
        c = f.val(t.cond)
        if c is None or c.op != 'icmp':
            raise Unknown('exit test')
        pred = c.pred
        if t.succ[0] not in body:
            pred = {'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ne': 'eq', 'eq': 'ne'}[pred]
        a, b = c.ops
        isp = (f.val(a) is not None and f.val(a).ty == 'ptr')
        if isp:
            (ba, oa), (bb, ob) = self.E.addr(a), self.E.addr(b)
            if bb[0] == 'cur' and ba[0] != 'cur':
                ba, oa, bb, ob = bb, ob, ba, oa
                pred = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(pred, pred)
            if ba[0] != 'cur' or ba[2] != h:
                raise Unknown('exit test')
            if bb != ('arg', ba[1]):
                if bb[0] == 'arg':
                    raise Bad(c, 'the end test compares pointers into different arrays')
                raise Unknown('exit test')
            B = scale(sub(ob, oa), alg.Fraction(1, self.esz))
        else:
            x, y = self.E.one(a), self.E.one(b)
            iv = A('x', 'iv', h)
            if ('x', 'iv', h) in alg.atoms(y) and ('x', 'iv', h) not in alg.atoms(x):
                x, y = y, x
                pred = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(pred, pred)
            off = sub(x, iv)
            if not alg.is_const(off):
                raise Unknown('exit test')
            B = sub(y, off)
            if pred[0] == 'u' and alg.is_const(sub(y, self.n)) and alg.cval(sub(y, self.n)) < 0:
                raise Bad(c, 'unsigned bound n%d wraps for short vectors' % int(alg.cval(sub(y, self.n))))
        if pred in ('ule', 'sle'):
            B = add(B, C(1))
        elif pred not in ('ult', 'slt', 'ne'):
            raise Unknown('exit test')
        return B, c, pred

    def check_bound(self, h, s, last):
        B, c, pred = self.bound(h)
        d = sub(B, self.n)
        if alg.is_const(d):
            k = alg.cval(d)
            if last:
                if s != 1:
                    raise Bad(c, 'the last loop consumes %d elements at a time: the remainder is not processed' % s)
                if k != 0:
                    raise Bad(c, 'the loop stops at element n%+d instead of n' % int(k))
                return
            if k > 1 - s:
                raise Bad(c, 'the loop may read %d element(s) past the end (continues while position < n%+d, consumes %d)' % (int(k) - 1 + s, int(k), s))
            if pred == 'ne' and s > 1:
                raise Bad(c, 'the loop steps over its end')
            return
        if not last:
            q = alg.fn('udiv', self.n, C(s))
            forms = [scale(q, s), sub(self.n, alg.fn('urem', *sorted((self.n, C(s)), key=repr))), sub(self.n, alg.fn('urem', self.n, C(s)))]
            for m in ((self.n, C(-s)), (C(-s), self.n)):
                forms.append(alg.fn('and', *m))
            if any(alg.same(B, x) for x in forms):
                return
        raise Unknown('bound %s' % alg.show(B))

    def start(self, b, p):
        """where position block b is entered from predecessor p: None for the start of the vectors, else the earlier block"""
        at = set()
        for key, pid in self.cur[b].items():
            x = [y for y, q in self.f.vals[pid].inc if q == p][0]
            if key[0] == 'p':
                base, off = self.E.addr(x)
                if off:
                    raise Bad(self.f.vals[pid], 'the loop starts %s bytes into the vector' % alg.show(off))
                if base == ('arg', key[1]):
                    at.add(None)
                elif base[0] == 'cur':
                    at.add(base[2])
                else:
                    raise Unknown('start')
            else:
                q = self.E.one(x)
                if not q:
                    at.add(None)
                else:
                    ivs = [a for a in alg.atoms(q) if a[0] == 'x']
                    if len(ivs) == 1 and alg.same(q, A(*ivs[0])):
                        at.add(ivs[0][2])
                    else:
                        raise Unknown('start')
        if len(at) != 1:
            raise Bad(self.f.vals[list(self.cur[b].values())[0]], 'the inputs are not at the same element when the loop is entered')
        return at.pop()

    # -- the theorem --------------------------------------------------------------
    def total(self, R, term, ins):
        """R (normal form of the result) equals the sum of term(j) over all elements"""
        self.loops = 0
        bl = {self.f.vals[a[1]].block for a in alg.atoms(R) if a[0] == 'v'}
        bl = {b for b in bl if b in self.cur}
        if not bl:
            raise Bad(ins, 'the result does not depend on the elements') if alg.is_const(R) else Unknown('result %s' % alg.show(R)[:80])
        if len(bl) != 1:
            raise Unknown('result from several loops')
        b = bl.pop()
        if b not in self.f.loops:
            raise Unknown('result selected after the loops')
        self.at(b, R, term, True, 0)

    def at(self, b, R, term, last, depth):
        f = self.f
        if depth > 6:
            raise Unknown('depth')
        if b in f.loops:
            self.loops += 1
            s = self.step(b)
            self.check_bound(b, s, last)
            body = f.loops[b]
            for p in f.pred[b]:
                if p in body:
                    d = sub(self.incoming(R, b, p), R)
                    w = {}
                    for j in range(s):
                        w = add(w, term(j))
                    # lanes may be assigned in any order
                    if not alg.same(d, w):
                        raise Bad(f.blocks[b][0], 'one iteration adds %s instead of %s' % (alg.show(d)[:260], alg.show(w)[:200]))
            preds = [p for p in f.pred[b] if p not in body]
        else:
            preds = f.pred[b]
        for p in preds:
            r = self.incoming(R, b, p)
            q = self.start(b, p)
            if q is None:
                if not alg.is_zero(r):
                    raise Bad(f.blocks[b][0], 'the sum does not start from zero but from %s' % alg.show(r)[:120])
            else:
                self.at(q, r, term, False, depth + 1)

    def incoming(self, R, b, p):
        f = self.f

        def g(a):
            if a[0] == 'v' and f.vals[a[1]].block == b and f.vals[a[1]].op == 'phi':
                x = [y for y, q in f.vals[a[1]].inc if q == p][0]
                l = self.E.lanes(x)
                return l[a[2]] if len(a) > 2 and len(l) > 1 else l[0]
            return None
        return alg.rebuild(R, g)

    # -- element-wise update ------------------------------------------------------
    def update(self, out, term):
        """every element j of array `out` becomes term(j); nothing else is stored"""
        f = self.f
        heads = [h for h in f.loops if h in self.cur]
        if not heads or len(heads) != len(f.loops):
            raise Unknown('loops')
        rets = f.rets
        self.loops = 0
        last = [h for h in heads if all(f.dominates(h, r.block) for r in rets)]
        last = [h for h in last if not any(x != h and f.dominates(h, x) and x not in f.loops[h] for x in last)]
        if len(last) != 1:
            raise Unknown('last loop')
        for i in f.instrs:
            if i.op == 'store' and not any(i.block in f.loops[h] for h in heads):
                if self.E.addr(i.ops[1])[0][0] != 'alloca':
                    raise Bad(i, 'stores outside the loops')
        self.upd(last[0], out, term, True, 0)

    def upd(self, b, out, term, lastp, depth):
        f = self.f
        if depth > 6:
            raise Unknown('depth')
        if b in f.loops:
            self.loops += 1
            s = self.step(b)
            self.check_bound(b, s, lastp)
            body = f.loops[b]
            done = {}
            for blk in body:
                for i in f.blocks[blk]:
                    if i.op != 'store':
                        continue
                    base, off = self.E.addr(i.ops[1])
                    val = self.E.lanes(i.ops[0])
                    j0 = None
                    if base[0] == 'cur' and alg.is_const(off):
                        j0 = int(alg.cval(off)) // self.esz
                    elif base[0] == 'arg':
                        iv = A('x', 'iv', b)
                        r = sub(off, scale(iv, self.esz))
                        if alg.is_const(r):
                            j0 = int(alg.cval(r)) // self.esz
                    if j0 is None:
                        raise Unknown('store')
                    if base[1] != out:
                        raise Bad(i, 'stores into an array that is only an input')
                    if not all(f.dominates(blk, p) for p in f.pred[b] if p in body):
                        raise Unknown('conditional store')
                    for l in f.instrs:
                        if l.op == 'load' and l.block in body and not f.idominates(l, i):
                            lb = self.E.addr(l.ops[0])[0]
                            if lb[0] in ('cur', 'arg') and lb[1] == out:
                                raise Unknown('load after store')
                    for j, p in enumerate(val):
                        if j0 + j in done:
                            raise Unknown('two stores')
                        done[j0 + j] = (p, i)
            if set(done) != set(range(s)):
                raise Bad(f.blocks[b][0], 'an iteration consumes %d elements but writes elements %s' % (s, sorted(done)))
            for j, (p, i) in done.items():
                if not alg.same(p, term(j)):
                    raise Bad(i, 'element becomes %s instead of %s' % (alg.show(p)[:260], alg.show(term(j))[:200]))
            preds = [p for p in f.pred[b] if p not in body]
        else:
            preds = f.pred[b]
        for p in preds:
            q = self.start(b, p)
            if q is not None:
                self.upd(q, out, term, False, depth + 1)

    # -- alignment ------------------------------------------------------------------
    def aligned(self):
        """[(access, array, alignment, guarded)] of the accesses that need an aligned address"""
        f, out = self.f, []
        for h in f.loops:
            if h not in self.cur:
                continue
            for b in f.loops[h]:
                for i in f.blocks[b]:
                    if i.op not in ('load', 'store'):
                        continue
                    ty = i.ty if i.op == 'load' else i.sty
                    if not (ty or '').startswith('<') or (i.al or 1) < 16:
                        continue
                    base, off = self.E.addr(i.ops[0] if i.op == 'load' else i.ops[1])
                    if base[0] != 'cur':
                        raise Unknown('aligned access')
                    cond = {}
                    c = self.E.reach(0, h)
                    for p in f.pred[h]:
                        if p not in f.loops[h]:
                            cond = add(cond, alg.mul(c[p], self.E.edge(p, h)))
                    x = sorted(([A('base', ('arg', base[1]))], [C(i.al - 1)]), key=repr)
                    e = alg.eq0(alg.fn('and', x[0][0], x[1][0]))
                    a = next(iter(alg.atoms(e)))
                    ok = alg.is_zero(alg.subst_atom(cond, a, {}))
                    st = self.step(h)
                    ok = ok and (st * self.esz) % i.al == 0 and alg.cval(off) % i.al == 0
                    out.append((i, base[1], i.al, ok))
        return out
