"""Loop kernels: every store of a function as  (loop nest, address, value, guard)  in closed form, compared with a specification up to the names,
order and direction of the loops."""
import itertools
import alg, scev
from alg import C, A, add, sub, mul, same, freeze, thaw, Unknown


def I(n):
    return A('I', n)


def ld(base, off):
    return A('ld', base, freeze(off))


class Store:
    def __init__(self, ins, base, off, val, chain, guard, size):
        self.ins, self.base, self.off, self.val, self.chain, self.guard, self.size = ins, base, off, val, chain, guard, size

    def show(self):
        return '%s[%s] = %s, iterations %s%s' % (alg.showb(self.base), alg.show(self.off), alg.show(self.val), ' x '.join(alg.show(n) if n is not None else '?' for _, n in self.chain) or '1',
                                                 '' if self.guard is None or same(self.guard, C(1)) else ', when %s' % alg.show(self.guard))


class Spec:
    """loops: [(name, count)] outermost first; counts may mention outer names"""
    def __init__(self, name, loops, base, off, val, guard=None, fixed=False, rev=True, facts=None):
        self.name, self.loops, self.base, self.off, self.val, self.guard, self.fixed, self.rev, self.facts = name, loops, base, off, val, guard, fixed, rev, facts or {}


def chain_of(E, b, early=True):
    f = E.f
    hs = sorted([h for h in f.loops if b in f.loops[h]], key=lambda h: -len(f.loops[h]))
    out = []
    for h in hs:
        n = E.exit_it(h)
        if n is None and early:
            n = E.header_it(h)
        out.append((h, n))
    return out


def guard_of(E, b):
    """condition under which b runs in an iteration of its innermost loop (or in the call), loop exits of the header left out"""
    f = E.f
    hs = [h for h in f.loops if b in f.loops[h]]
    if hs:
        h = min(hs, key=lambda h: len(f.loops[h]))
        if h == b:
            return C(1)
        start = h
        g = E.reach(h, b)[b]
        # entering the body of a while loop is not a guard
        ex = E.exits(h)
        if any(x == h for x, _ in ex):
            e = C(1)
            ins = [s for s in f.succ[h] if s in f.loops[h]]
            if len(ins) == 1:
                c = E.edge(h, ins[0])
                g2 = alg.mul(g, C(1))
                at = {a for m in g2 for a, _ in m}
                if ins[0] == b or same(g, c):
                    return C(1)
                g = E.reach(ins[0], b)[b] if f.dominates(ins[0], b) else g
        return g
    return E.reach(f.rpo()[0], b)[b] if b != f.rpo()[0] else C(1)


def forwarding(E):
    """loads that follow a store to the same address in their block yield the value stored"""
    f = E.f
    pos = {i.id: k for k, i in enumerate(f.instrs)}
    bypos = f.instrs

    def g(v, b, off, n, sz):
        if n != 1 or v.id not in pos:
            return None
        k = pos[v.id] - 1
        while k >= 0 and bypos[k].block == v.block:
            s = bypos[k]
            if s.op == 'store':
                try:
                    sb, so = E.addr_at(s.ops[1], s.block)
                    vb, vo = E.addr_at(v.ops[0], v.block)
                    if sb == vb and same(so, vo):
                        return [E.at(s.ops[0], s.block)]
                except Unknown:
                    return None
            elif s.op == 'call':
                return None
            k -= 1
        return None
    E.loadat = g
    return E


def stores(E, want=None, early=True, guards=True):
    """[Store] in program order; raises Unknown when an address cannot be written down"""
    out = []
    for i in E.f.instrs:
        if i.op != 'store':
            continue
        base, off = E.addr_at(i.ops[1], i.block)
        if want is not None and not want(base):
            continue
        n = alg.nlanes(E.tyof(i.ops[0])) if isinstance(i.ops[0], int) else 1
        if n != 1:
            raise Unknown('vector store')
        val = E.at(i.ops[0], i.block)
        g = None
        if guards:
            g = E.leave_psum(guard_of(E, i.block), i.block)
        out.append(Store(i, base, off, val, chain_of(E, i.block, early), g, None))
    return out


def fit(st, sp):
    """does the store have the address, value and iteration space of the specification"""
    if st.base != sp.base or len(st.chain) != len(sp.loops):
        return False
    hs = [h for h, _ in st.chain]
    cn = dict(st.chain)
    if any(n is None for n in cn.values()):
        return False
    names = [n for n, _ in sp.loops]
    want = dict(sp.loops)
    perms = [tuple(names)] if sp.fixed else itertools.permutations(names)
    for p in perms:
        for rev in itertools.product((False, True), repeat=len(hs)):
            if any(rev) and not sp.rev:
                continue
            m = {}
            ok = True
            sub_ = lambda a: m[a] if a in m else sp.facts.get(a)
            for h, nm, r in zip(hs, p, rev):
                n = scev.mapatoms(cn[h], sub_)
                if not same(n, want[nm]):
                    ok = False
                    break
                m[('it', h)] = sub(sub(want[nm], C(1)), I(nm)) if r else I(nm)
            if not ok:
                continue
            if same(scev.mapatoms(st.off, sub_), sp.off) and any(same(scev.mapatoms(st.val, sub_), v) for v in (sp.val if isinstance(sp.val, list) else [sp.val])):
                if sp.guard is None or st.guard is None or same(scev.mapatoms(st.guard, sub_), sp.guard):
                    return True
    return False


KNOWN = {'ld', 'base', 'arg', 'it', 'eq0', 'gt0', 'inv', 'fn', 'sum', 'psum', 'bv', 'I', 'glob'}


def recognised(st, vocab=KNOWN):
    ps = [st.off, st.val] + [n for _, n in st.chain if n is not None] + ([st.guard] if st.guard is not None else [])
    if any(n is None for _, n in st.chain):
        return False
    return all(a[0] in vocab for p in ps for a in scev.deep_atoms(p))


def compare(rep, kind, fname, loc, sts, specs, vocab=None):
    """match stores against specifications one to one"""
    left = list(sts)
    miss = []
    for sp in specs:
        hit = next((s for s in left if fit(s, sp)), None)
        if hit is not None:
            left.remove(hit)
            rep.ok(kind, '%s %s' % (fname, sp.name))
        else:
            miss.append(sp)
    if not miss and not left:
        return True
    if len(left) == len(miss) and all(recognised(s, vocab or KNOWN) for s in left) and all(len(s.chain) == len(p.loops) for s, p in zip(left, miss)):
        for s, p in zip(left, miss):
            rep.bad(kind, '%s %s' % (fname, p.name), s.ins.loc(), '%s: %s does not follow its definition: %s' % (fname, p.name, s.show()[:300]), key='%s:%s' % (fname, p.name))
        return False
    if not left:
        for p in miss:
            rep.bad(kind, '%s %s' % (fname, p.name), loc, '%s: %s is not computed' % (fname, p.name), key='%s:%s' % (fname, p.name))
        return False
    rep.skip(kind, fname, 'shape (%d stores, %d expected; unmatched: %s)' % (len(sts), len(specs), '; '.join(s.show()[:200] for s in left)))
    return False


def when(E, b, start=None):
    """condition under which block b runs: the conditions of every nesting level, the loops' own tests left out (from block start, which dominates b)"""
    f = E.f
    hs = sorted([h for h in f.loops if b in f.loops[h] and not (start is not None and start in f.loops[h])], key=lambda h: -len(f.loops[h]))
    g = C(1)
    at = f.rpo()[0] if start is None else start
    if start in f.loops and b in f.loops[start] and b != start:
        ins = [s for s in f.succ[start] if s in f.loops[start]]
        if len(ins) == 1 and any(x == start for x, _ in E.exits(start)) and f.dominates(ins[0], b):
            at = ins[0]
    for h in hs + [None]:
        t = b if h is None else h
        if t != at:
            g = alg.mul(g, E.reach(at, t)[t])
        if h is None:
            break
        at = h
        ins = [s for s in f.succ[h] if s in f.loops[h]]
        if len(ins) == 1 and any(x == h for x, _ in E.exits(h)) and f.dominates(ins[0], b):
            at = ins[0]
            if len(f.pred[at]) == 1 and at == b:
                break
    return E.leave_psum(g, b)


def SUM(body, n, d=0):
    """sum of body(i) over i = 0 .. n-1 in the form scev gives it"""
    t = body(A('bv', d))
    out = {}
    for mono, c in t.items():
        ins = tuple((a, k) for a, k in mono if ('bv', d) in scev.deep_atoms({((a, 1),): 1}))
        rest = tuple((a, k) for a, k in mono if (a, k) not in ins)
        out = add(out, mul({rest: c}, n if not ins else A('sum', d, freeze({ins: alg.Fraction(1)}), freeze(n))))
    return out


class Best:
    """outcome of a search loop: idx/val start as idx0/val0 and are replaced by newidx/newval while running over n iterations when newval is
    greater (kind 'max') or smaller ('min') than val; strict tells how ties are treated; frozen: val is never replaced"""
    pass


def best(E, vid):
    """the search loop whose result index (or value) is the header phi vid; None if it is not one"""
    f = E.f
    v = f.vals[vid]
    h = v.block
    if v.op != 'phi' or h not in f.loops:
        return None
    X = E.inner(h)
    phis = [p for p in f.blocks[h] if p.op == 'phi' and p.ty != 'ptr']
    cl = {p.id: E.close(p) for p in f.blocks[h] if p.op == 'phi'}

    def cf(p):
        def g(a):
            if a[0] == 'v' and cl.get(a[1]):
                return cl[a[1]][1]
            if a[0] == 'ld' and isinstance(a[1], tuple) and a[1][0] == 'pv' and cl.get(a[1][1]):
                _, b, o = cl[a[1][1]]
                return A('ld', b, freeze(add(o, cf(thaw(a[2])))), *a[3:])
            return None
        return scev.mapatoms(p, g)
    free = [p for p in phis if not cl[p.id]]
    nxt, ini = {}, {}
    try:
        for p in free:
            i = [(o, q) for o, q in p.inc if q in f.loops[h]]
            o = [(o, q) for o, q in p.inc if q not in f.loops[h]]
            if len(i) != 1 or len(o) != 1:
                return None
            nxt[p.id] = cf(X.at(*i[0]))
            ini[p.id] = E.at(*o[0])
    except Unknown:
        return None
    n = E.exit_it(h)
    if vid in nxt:
        P = A('v', vid)
        for a in scev.deep_atoms(nxt[vid]):
            if a[0] == 'gt0' and ('it', h) in scev.deep_atoms(thaw(a[1])) and not any(('v', p.id) in scev.deep_atoms(thaw(a[1])) for p in free):
                cand = [scev.mapatoms(nxt[vid], lambda z: C(k) if z == a else ({} if z[0] == 'eq0' and (same(thaw(z[1]), thaw(a[1])) or same(thaw(z[1]), alg.scale(thaw(a[1]), -1))) else None)) for k in (0, 1)]
                new = [c for c in cand if ('v', vid) not in scev.deep_atoms(c)]
                if len(new) == 1 and any(same(c, P) for c in cand):
                    R = Best()
                    R.h, R.n, R.frozen, R.idx0, R.newidx, R.idxphi = h, n, True, ini[vid], new[0], vid
                    return R
    for w in sorted(free, key=lambda p: p.id != vid):
        W = A('v', w.id)
        for a in scev.deep_atoms(nxt[w.id]):
            if a[0] != 'gt0' or ('v', w.id) not in scev.deep_atoms(thaw(a[1])):
                continue
            d = thaw(a[1])
            for sign in (1, -1):
                new = add(alg.scale(d, sign), W)
                if ('v', w.id) in scev.deep_atoms(new):
                    continue
                D = sub(new, W)
                for kind, strict, c in (('max', True, alg.gt0(D)), ('max', False, alg.ge0(D)), ('min', True, alg.gt0(alg.scale(D, -1))), ('min', False, alg.ge0(alg.scale(D, -1)))):
                    if same(nxt[w.id], alg.sel(c, new, W)):
                        R = Best()
                        R.frozen = False
                        R.h, R.n, R.kind, R.strict, R.val0, R.newval, R.valphi = h, n, kind, strict, ini[w.id], new, w.id
                        R.idx0 = R.newidx = R.idxphi = None
                        for p in free:
                            if p is w:
                                continue
                            P = A('v', p.id)
                            for one in (1, 0):
                                cand = scev.mapatoms(nxt[p.id], lambda z: C(one) if z == a else ({} if z[0] == 'eq0' and (same(thaw(z[1]), d) or same(thaw(z[1]), alg.scale(d, -1))) else None))
                                if ('v', p.id) not in scev.deep_atoms(cand) and same(nxt[p.id], alg.sel(c, cand, P)) and (R.idxphi is None or p.id == vid):
                                    R.idx0, R.newidx, R.idxphi = ini[p.id], cand, p.id
                                    break
                        return R
    return None


def before(E, i, j):
    """in every iteration of the loops they share, instruction i is never executed after instruction j"""
    f = E.f
    com = [h for h in f.loops if i.block in f.loops[h] and j.block in f.loops[h]]
    top = min(com, key=lambda h: len(f.loops[h])) if com else None

    def rep(b):
        own = [h for h in f.loops if b in f.loops[h] and h not in com]
        return max(own, key=lambda h: len(f.loops[h])) if own else b
    a, b = rep(i.block), rep(j.block)
    if a == b:
        return i.block != j.block or f.instrs.index(i) < f.instrs.index(j)

    def reaches(x, y):
        seen, st = set(), [x]
        while st:
            q = st.pop()
            for s in f.succ[q]:
                if s == top:
                    continue
                if s == y:
                    return True
                if s in seen or (top is not None and s not in f.loops[top]):
                    continue
                seen.add(s)
                st.append(s)
        return False
    return not reaches(b, a)
