"""C31: the binary heap and the quicksort of heap-def.h and qsort-def.h keep their order for every element type, comparison and number of elements."""
import ir, alg, report, scev, kern
from alg import C, A, add, sub, scale, fn, same, thaw, freeze
from nat import S, sign, settle, natural, orders

RULE = ('events (comparisons, exchanges, recursive calls) of one step of every template operation with the condition under which they happen, compared with the specified step in every case of '
        'a finite partition: missing/present children or parity of the node times the orderings of the elements involved; exchange and comparison functions in closed form')
DEBUG = False


def canon(E, v):
    a, b = E.one(v.ops[1]), E.one(v.ops[2])
    if str(freeze(a)) > str(freeze(b)):
        return [scale(fn('cmp', b, a), -1)]
    return [fn('cmp', a, b)]


def order(p):
    """comparisons with their arguments in canonical order"""
    def f(a):
        if a[:2] == ('fn', 'cmp') and str(a[2]) > str(a[3]):
            return scale(fn('cmp', thaw(a[3]), thaw(a[2])), -1)
    return scev.mapatoms(p, f)


class Step:
    """calls of one function, as events with the condition under which they happen"""
    def __init__(self, f, kinds):
        self.f = f
        self.E = scev.Scev(f, calls={'st_hcmp': canon, 'st_qcmp': canon})
        self.ev = []
        for i in f.instrs:
            if i.op == 'call' and not (i.callee_name() or '').startswith(('llvm.dbg', 'llvm.lifetime')):
                k = kinds.get(i.callee_name())
                if k is None:
                    raise alg.Unknown('call of %s' % i.callee_name())
                self.ev.append((k, i, [self.E.at(o, i.block) for o in i.ops[1:] if not (isinstance(o, int) and f.vals.get(o) is not None and f.vals[o].ty == 'ptr')], kern.when(self.E, i.block)))

    def of(self, k):
        return [e for e in self.ev if e[0] == k]


def cases(st, facts, ranks):
    """events of the case: facts give the size and the index, ranks the elements (list of (index, rank)); conditions must come out 0 or 1"""
    def f(a):
        if a in facts:
            return facts[a]
        return None

    def g(a):
        if a[:2] == ('fn', 'cmp') and ranks is not None:
            x = [settle(thaw(t)) for t in a[2:]]
            r = [next((k for i, k in ranks if same(i, y)), None) for y in x]
            if None not in r:
                d = r[0] - r[1]
                return {} if d == 0 else add(C(1), S('p')) if d > 0 else sub(C(-1), S('p'))
        return None

    def h(p):
        p = settle(scev.mapatoms(p, f))
        for _ in range(3):
            p = settle(scev.mapatoms(p, g))
        return p
    out = []
    open_ = None
    for k, i, args, w in st.ev:
        w = h(w)
        if not w:
            continue
        if not same(w, C(1)):
            open_ = open_ or i
            continue
        out.append((k, i, [h(x) for x in args]))
    for k, i, args in out:
        if k == 'cmp' and not all(any(same(x, y) for y, _ in ranks) for x in args) and all(natural(a) for x in args for a in scev.deep_atoms(x)):
            return 'outside', (i, args)
    return (out, None) if open_ is None else (None, open_)


def pair(x, y, args):
    return len(args) == 2 and (same(args[0], x) and same(args[1], y) or same(args[0], y) and same(args[1], x))


def fresh(rep, kd, st):
    """every comparison is made before the elements move"""
    for c in st.of('cmp'):
        for s in st.of('swap'):
            if not kern.before(st.E, c[1], s[1]):
                rep.skip(kd, st.f.name, 'compared after an exchange')
                return False
    return True


def heap_up(rep, m):
    kd = 'moving an element towards the leaves'
    f = m.F('st_heap_up')
    st = Step(f, {'st_hcmp': 'cmp', 'st_hswap': 'swap', 'st_heap_up': 'rec'})
    if not st.of('rec') or f.loops:
        return rep.skip(kd, f.name, 'not recursive')
    if not fresh(rep, kd, st):
        return
    i, l, r = S('i'), add(scale(S('i'), 2), C(1)), add(scale(S('i'), 2), C(2))
    for nm, n, kids in (('no children', l, []), ('no children', sub(sub(l, C(1)), S('k')), []), ('a left child only', r, [l]), ('two children', add(add(r, C(1)), S('k')), [l, r])):
        facts = {('arg', 1): n, ('arg', 2): i}
        for rk in orders(1 + len(kids)):
            ranks = list(zip([i] + kids, rk))
            got, why = cases(st, facts, ranks)
            inst = '%s, ranks %s' % (nm, ''.join(map(str, rk)))
            if got == 'outside':
                rep.bad(kd, inst, why[0].loc(), 'an element outside the heap (or an unrelated one) is compared: elements %s of a node with %s' % (', '.join(map(alg.show, why[1])), nm), key='heap_up:%s:cmp' % nm)
                continue
            if got is None:
                rep.skip(kd, inst, 'condition of the call at %s' % why.loc())
                continue
            rep.count('cases')
            key = 'heap_up:%s:%s' % (nm, ''.join(map(str, rk)))
            loc = (got[0][1] if got else f).loc() if got else f.loc()
            sw = [e for e in got if e[0] == 'swap']
            rc = [e for e in got if e[0] == 'rec']
            least = min(rk[1:], default=None)
            if least is None or rk[0] < least:
                rep.check(kd, inst, not sw and not rc, loc, 'a node with %s that is smaller than its children is moved' % nm, key=key)
            elif rk[0] == least:
                good = all(any(pair(i, y, e[2]) and k == least for y, k in ranks[1:]) for e in sw)
                rep.check(kd, inst, good and len(sw) <= 1 and len(rc) <= len(sw), loc, 'a node with %s that equals its smallest child is moved elsewhere' % nm, key=key)
            else:
                t = [y for y, k in ranks[1:] if k == least]
                good = len(sw) == 1 and any(pair(i, y, sw[0][2]) for y in t)
                rep.check(kd, inst, good, loc, 'a node with %s that is larger than its smallest child is not exchanged with it' % nm, key=key)
                if good:
                    y = next(y for y in t if pair(i, y, sw[0][2]))
                    rec = [e for e in rc if len(e[2]) == 2 and same(e[2][0], n) and same(e[2][1], y)]
                    if len(kids) == 1:
                        rep.check(kd, inst + ' goes on', len(rec) == len(rc), loc, 'the operation goes on at another node than the child it moved the element to', key=key + ':rec')
                    else:
                        rep.check(kd, inst + ' goes on', len(rec) == len(rc) == 1 and kern.before(st.E, sw[0][1], rec[0][1]), loc, 'the operation does not go on at the child it moved the element to', key=key + ':rec')


def heap_down(rep, m):
    kd = 'moving an element towards the root'
    f = m.F('st_heap_down')
    st = Step(f, {'st_hcmp': 'cmp', 'st_hswap': 'swap', 'st_heap_down': 'rec'})
    if not st.of('rec') or f.loops:
        return rep.skip(kd, f.name, 'not recursive')
    if not fresh(rep, kd, st):
        return
    i, par = S('i'), S('m')
    for nm, at in (('the root', {}), ('a left child', add(scale(par, 2), C(1))), ('a right child', add(scale(par, 2), C(2)))):
        for rk in orders(2):
            ranks = [(at, rk[0]), (par, rk[1])] if at else []
            got, why = cases(st, {('arg', 1): at}, ranks)
            inst = '%s, ranks %s' % (nm, ''.join(map(str, rk)))
            if got == 'outside':
                rep.bad(kd, inst, why[0].loc(), 'an element outside the heap (or an unrelated one) is compared: elements %s of a node that is %s' % (', '.join(map(alg.show, why[1])), nm), key='heap_down:%s:cmp' % nm)
                continue
            if got is None:
                rep.skip(kd, inst, 'condition of the call at %s' % why.loc())
                continue
            rep.count('cases')
            key = 'heap_down:%s:%s' % (nm, ''.join(map(str, rk)))
            loc = got[0][1].loc() if got else f.loc()
            sw = [e for e in got if e[0] == 'swap']
            rc = [e for e in got if e[0] == 'rec']
            if not at:
                rep.check(kd, inst, not [e for e in sw if not same(e[2][0], e[2][1])] and not rc, loc, 'the root is moved', key='heap_down:root')
            elif rk[0] > rk[1]:
                rep.check(kd, inst, not sw and not rc, loc, '%s larger than its parent is moved' % nm, key=key)
            elif rk[0] == rk[1]:
                rep.check(kd, inst, all(pair(at, par, e[2]) for e in sw) and len(sw) <= 1 and len(rc) <= len(sw), loc, '%s equal to its parent is moved elsewhere' % nm, key=key)
            else:
                rep.check(kd, inst, len(sw) == 1 and pair(at, par, sw[0][2]), loc, '%s smaller than its parent is not exchanged with it' % nm, key=key)
                rep.check(kd, inst + ' goes on', len(rc) == 1 and len(rc[0][2]) == 1 and same(rc[0][2][0], par) and bool(sw) and kern.before(st.E, sw[0][1], rc[0][1]), loc, 'the operation does not go on at the parent', key=key + ':rec')


def heap_ops(rep, m):
    if any(m.F(n) is None or not any(i.op == 'call' and i.callee_name() == n for i in m.F(n).instrs) for n in ('st_heap_up', 'st_heap_down')):
        return rep.skip('operations', 'heap', 'not recursive')
    kinds = {'st_hcmp': 'cmp', 'st_hswap': 'swap', 'st_heap_up': 'up', 'st_heap_down': 'down'}
    kd = 'adding an element'
    f = m.F('st_heap_use_push')
    st = Step(f, kinds)
    n = kern.ld(('arg', 1), {})
    sts = kern.stores(st.E)
    size = post(st.E, f, sts[0]) if len(sts) == 1 else None
    if size is None or [e[0] for e in st.ev] != ['down']:
        return rep.skip(kd, f.name, 'shape')
    ok = same(st.ev[0][3], C(1)) and same(size(st.ev[0][1].ops[1], st.ev[0][1]), n)
    rep.check(kd, 'position', ok, (st.ev[0][1] if st.ev else f).loc(), 'the element added, of index heapSize, is not moved to its place from there', key='push:down')
    rep.check(kd, 'size', len(sts) == 1 and sts[0].base == ('arg', 1) and same(sts[0].val, add(n, C(1))) and same(kern.when(st.E, sts[0].ins.block), C(1)), (st.ev[0][1] if st.ev else f).loc(), 'the heap does not grow by one element', key='push:size')
    kd = 'removing the smallest element'
    f = m.F('st_heap_use_pop')
    st = Step(f, kinds)
    new = sub(n, C(1))
    sts = kern.stores(st.E)
    rep.check(kd, 'size', len(sts) == 1 and sts[0].base == ('arg', 1) and same(sts[0].val, new) and same(kern.when(st.E, sts[0].ins.block), C(1)), (st.ev[0][1] if st.ev else f).loc(), 'the heap does not shrink by one element', key='pop:size')
    sw, up = st.of('swap'), st.of('up')

    size = post(st.E, f, sts[0]) if len(sts) == 1 else None
    if size is None:
        return rep.skip(kd, f.name, 'size')
    a = [size(o, sw[0][1]) for o in sw[0][1].ops[1:]] if len(sw) == 1 else []
    rep.check(kd, 'exchange', len(sw) == 1 and same(sw[0][3], C(1)) and pair({}, new, a), (st.ev[0][1] if st.ev else f).loc(), 'the root is not exchanged with the last element (%s)' % ', '.join(map(alg.show, a)), key='pop:swap')
    ok = len(up) >= 1
    for k in (2, 3):
        # the heap has k or more elements left: the new root must be moved to its place
        w = [settle(scev.mapatoms(size(None, e[1], e[3]), lambda x: add(C(k + 1), S('k')) if x == atom(n) else None)) for e in up]
        ok = ok and same(sumup(w), C(1))
    rep.check(kd, 'restored', ok, (st.ev[0][1] if st.ev else f).loc(), 'the element that replaces the root is not moved to its place', key='pop:up')
    for e in up:
        a = [size(o, e[1]) for o in e[1].ops[1:]]
        rep.check(kd, 'restored from the root', len(a) == 2 and same(a[0], new) and same(a[1], {}) and bool(sw) and kern.before(st.E, sw[0][1], e[1]), e[1].loc(), 'the heap is restored with size, index %s' % ', '.join(map(alg.show, a)), key='pop:args')
    for r in f.instrs:
        if r.op == 'ret' and r.ops:
            v = size(r.ops[0], r)
            rep.check(kd, 'result', same(v, new), r.loc(), 'index %s is returned' % alg.show(v), key='pop:ret')
    kd = 'updating an element'
    f = m.F('st_heap_use_update')
    st = Step(f, kinds)
    up, dn = st.of('up'), st.of('down')
    rep.check(kd, 'towards the leaves', any(same(e[3], C(1)) and len(e[2]) == 2 and same(e[2][0], A('arg', 1)) and same(e[2][1], A('arg', 2)) for e in up), (st.ev[0][1] if st.ev else f).loc(), 'a changed element is not moved towards the leaves', key='update:up')
    rep.check(kd, 'towards the root', any(same(e[3], C(1)) and len(e[2]) == 1 and same(e[2][0], A('arg', 2)) for e in dn), (st.ev[0][1] if st.ev else f).loc(), 'a changed element is not moved towards the root', key='update:down')
    rep.check(kd, 'nothing else', not st.of('swap') and len(up) == len(dn) == 1, (st.ev[0][1] if st.ev else f).loc(), 'elements are moved otherwise', key='update:else')


def sumup(ps):
    t = {}
    for p in ps:
        t = add(t, p)
    return t


def atom(p):
    return next(iter(p))[0][0]


def post(E, f, s):
    """evaluator that reads the cell of store s as its new value after the store"""
    n = atom(kern.ld(('arg', 1), {}))

    X = scev.Scev(f)
    old = X.load

    def load(v):
        r = old(v)
        if len(r) == 1 and same(r[0], {((n, 1),): 1}) and kern.before(E, s.ins, v):
            return [s.val]
        return r
    X.load = load

    def size(o, at, p=None):
        if p is not None:
            return kern.when(X, at.block)
        return X.at(o, at.block)
    return size


def qsort(rep, m):
    kd = 'sorting'
    f = m.F('st_qs_sort_recursive')
    st = Step(f, {'st_qcmp': 'cmp', 'st_qswap': 'swap', 'st_qs_sort_recursive': 'rec'})
    b, e = A('arg', 1), A('arg', 2)
    cmps, sws, recs = st.of('cmp'), st.of('swap'), st.of('rec')
    if len(cmps) != 1 or len(sws) != 3 or len(f.loops) != 1 or not recs:
        return rep.skip(kd, f.name, 'shape')
    E = st.E
    h = next(iter(f.loops))
    cmp_ = cmps[0]
    inl = [s for s in sws if s[1].block in f.loops[h]]
    pre = [s for s in sws if s[1].block not in f.loops[h] and kern.before(E, s[1], cmp_[1])]
    post = [s for s in sws if s[1].block not in f.loops[h] and s not in pre]
    if len(inl) != 1 or len(pre) != 1 or len(post) != 1 or cmp_[1].block not in f.loops[h]:
        return rep.skip(kd, f.name, 'shape')
    a = pre[0][2]
    if any(same(x, e) for x in a):
        p = next(x for x in a if not same(x, e)) if not all(same(x, e) for x in a) else e
        res = set()
        for k in range(18):
            ends = {('arg', 1): S('i'), ('arg', 2): add(S('i'), C(k))}
            q = settle(scev.mapatoms(p, ends.get))
            lo, hi = sign(sub(q, S('i'))), sign(sub(add(S('i'), C(k)), q))
            res.add(None if None in (lo, hi) else lo in ('0', '+', '0+') and hi in ('0', '+', '0+'))
        if False in res:
            rep.bad(kd, 'pivot', pre[0][1].loc(), 'the pivot is element %s of %s..%s' % (alg.show(p), alg.show(b), alg.show(e)), key='qsort:pivot')
        elif None in res:
            rep.skip(kd, 'pivot', alg.show(p))
        else:
            rep.ok(kd, 'pivot')
    else:
        rep.bad(kd, 'pivot', pre[0][1].loc(), 'the pivot is not put last', key='qsort:pivot')
    it = A('it', h)
    n = E.exit_it(h)
    rep.check(kd, 'scan', n is not None and same(n, sub(e, b)), cmp_[1].loc(), 'the elements scanned are %s from the first on' % (alg.show(n) if n else '?'), key='qsort:scan')
    x = cmp_[2]
    rep.check(kd, 'compared', len(x) == 2 and pair(add(b, it), e, x) and same(cmp_[3], C(1)), cmp_[1].loc(), 'elements %s and %s are compared instead of each one with the pivot' % tuple(map(alg.show, x)), key='qsort:cmp')
    c = fn('cmp', add(b, it), e) if str(freeze(add(b, it))) <= str(freeze(e)) else scale(fn('cmp', e, add(b, it)), -1)
    tgt = [y for y in inl[0][2] if not same(y, add(b, it))]
    if len(tgt) != 1:
        return rep.skip(kd, f.name, 'target of the move')
    d = sub(tgt[0], add(b, it))
    # exchanging an element with itself may be left out
    w = scev.mapatoms(inl[0][3], lambda a: {} if a[0] == 'eq0' and (same(thaw(a[1]), d) or same(thaw(a[1]), scale(d, -1))) else C(1) if a[0] == 'gt0' and same(thaw(a[1]), scale(d, -1)) else None)
    le, lt = alg.ge0(scale(c, -1)), alg.gt0(scale(c, -1))
    mv = next((q for q in (le, lt) if same(order(w), order(q))), None)
    rep.check(kd, 'moved', mv is not None, inl[0][1].loc(), 'an element goes to the low part when %s' % alg.show(w)[:200], key='qsort:when')
    if mv is None:
        return
    # the target counts the elements moved so far
    low = tgt[0]
    X = E.inner(h)
    phi = None
    for p in f.blocks[h]:
        if p.op == 'phi' and p.ty != 'ptr' and same(E.at(p.id, inl[0][1].block), low):
            phi = p
    if phi is None:
        return rep.skip(kd, f.name, 'low part')
    ini = [E.at(o, q) for o, q in phi.inc if q not in f.loops[h]]
    nxt = [X.at(o, q) for o, q in phi.inc if q in f.loops[h]]
    if len(ini) != 1 or len(nxt) != 1:
        return rep.skip(kd, f.name, 'low part')
    # inside the loop the counter of the scan may be a variable of its own
    cl = {p.id: E.close(p) for p in f.blocks[h] if p.op == 'phi' and p.id != phi.id}
    step = scev.mapatoms(sub(nxt[0], A('v', phi.id)), lambda a: cl[a[1]][1] if a[0] == 'v' and cl.get(a[1]) else None)
    rep.check(kd, 'low part starts', same(ini[0], b), phi.loc(), 'the low part starts at %s' % alg.show(ini[0]), key='qsort:low0')
    step, mv = order(step), order(mv)
    rep.check(kd, 'low part grows', same(step, mv), phi.loc(), 'the low part grows by %s' % alg.show(step)[:200], key='qsort:low')
    # after the scan
    end = [y for y in post[0][2] if not same(y, e)]
    fin = E.at(phi.id, post[0][1].block)
    d = sub(fin, e)
    w = scev.mapatoms(post[0][3], lambda a: {} if a[0] == 'eq0' and (same(thaw(a[1]), d) or same(thaw(a[1]), scale(d, -1))) else C(1) if a[0] == 'gt0' and same(thaw(a[1]), scale(d, -1)) else None)
    rep.check(kd, 'pivot placed', len(post[0][2]) == 2 and any(same(y, e) for y in post[0][2]) and (not end or same(end[0], fin)) and same(w, C(1)), post[0][1].loc(), 'the pivot is not put right after the low part', key='qsort:place')
    lo = [r for r in recs if len(r[2]) == 2 and same(r[2][0], b)]
    hi = [r for r in recs if len(r[2]) == 2 and same(r[2][1], e)]
    rep.check(kd, 'two parts', len(lo) == 1 and len(hi) == 1 and lo[0] is not hi[0] and len(recs) == 2, recs[0][1].loc(), 'the parts sorted are not the two sides of the pivot', key='qsort:parts')
    if len(lo) == 1 and len(hi) == 1 and lo[0] is not hi[0]:
        rep.check(kd, 'low side', same(lo[0][2][1], sub(fin, C(1))), lo[0][1].loc(), 'the low side ends at %s' % alg.show(lo[0][2][1])[:200], key='qsort:lo')
        rep.check(kd, 'high side', same(hi[0][2][0], add(fin, C(1))), hi[0][1].loc(), 'the high side starts at %s' % alg.show(hi[0][2][0])[:200], key='qsort:hi')
        # a side that has two elements or more is sorted, an empty one is not: sizes L and H of the sides, from 0 to 16 and beyond
        cnt = [a for a in alg.atoms(fin) if a[0] in ('sum', 'psum')]
        k = fin.get(((cnt[0], 1),), 0) if len(cnt) == 1 else 0
        for nm, r, lo_ in (('low side', lo[0], True), ('high side', hi[0], False)):
            if not k:
                rep.skip(kd, nm, 'size')
                continue
            rest = sub(fin, scale({((cnt[0], 1),): 1}, k))
            seen = {}
            for x in range(18):
                for y in range(18):
                    L = add(C(x), S('p')) if x == 17 else C(x)
                    H = add(C(y), S('q')) if y == 17 else C(y)
                    ends = {('arg', 1): S('i'), ('arg', 2): add(S('i'), add(L, H))}
                    num = scale(sub(add(S('i'), L), scev.mapatoms(rest, ends.get)), 1 / k)
                    w = settle(scev.mapatoms(scev.mapatoms(r[3], lambda a: num if a == cnt[0] else None), ends.get))
                    n = x if lo_ else y
                    if n == 1 or set(w) - {()}:
                        if n != 1:
                            seen['open'] = True
                        continue
                    seen.setdefault((n > 1, same(w, C(1))), (x, y))
            rep.check(kd, nm + ' empty', (False, True) not in seen, r[1].loc(), 'an empty %s is sorted: the index before the first element wraps around' % nm, key='qsort:%s:empty' % nm)
            rep.check(kd, nm + ' sorted', (True, False) not in seen, r[1].loc(), 'the %s is not sorted when the two sides have %s elements' % (nm, ' and '.join(map(str, seen.get((True, False), ())))), key='qsort:%s:when' % nm)
            if 'open' in seen:
                rep.skip(kd, nm, 'condition')
            rep.check(kd, nm + ' after', kern.before(E, post[0][1], r[1]), r[1].loc(), 'the %s is sorted before the pivot is placed' % nm, key='qsort:%s:order' % nm)
    f = m.F('st_qs_use_sort')
    st = Step(f, {'st_qs_sort_recursive': 'rec'})
    r = st.ev
    rep.check(kd, 'whole array', len(r) == 1 and same(r[0][2][0], {}) and same(r[0][2][1], sub(A('arg', 1), C(1))) and same(r[0][3], C(1)), f.loc(), 'the part sorted first is not the whole array', key='qsort:all')


def exchange(rep, kd, f, swap_name, E, sts):
    """two stores that exchange two elements"""
    if len(sts) != 2:
        return rep.skip(kd, swap_name, '%d stores' % len(sts))
    x, y = sts
    for st in sts:
        todo, seen = [st.ins.ops[0]], set()
        while todo:
            o = todo.pop()
            v = f.vals.get(o) if isinstance(o, int) else None
            if v is None or not hasattr(v, 'op') or v.id in seen or v.op == 'load':
                continue
            seen.add(v.id)
            if v.op in ('trunc', 'fptrunc'):
                rep.check(kd, swap_name + ' width', width(v.ty) >= width(f.vals[st.ins.ops[0]].ty), v.loc(), '%s loses part of the element' % swap_name, key='swap:width:' + swap_name)
            todo += [x for x in v.ops if isinstance(x, int)]
    okx = same(x.val, kern.ld(y.base, y.off)) and same(y.val, kern.ld(x.base, x.off))
    args = {a for s in sts for a in scev.deep_atoms(s.off) if a[0] == 'arg'}
    rep.check(kd, swap_name, okx and x.base == y.base and not same(x.off, y.off) and ('arg', 1) in args and ('arg', 2) in args
              and same(scev.mapatoms(x.off, flip), y.off), x.ins.loc(), '%s does not exchange elements a and b: %s; %s' % (swap_name, x.show()[:150], y.show()[:150]), key='swap:' + swap_name)
    rep.count('exchange functions')


def width(ty):
    return {'float': 32, 'double': 64}.get(ty) or (int(ty[1:]) if ty[:1] == 'i' and ty[1:].isdigit() else 0)


def flip(a):
    return A('arg', 2) if a == ('arg', 1) else A('arg', 1) if a == ('arg', 2) else None


def compare(rep, kd, name, f, E, v):
    """v(a, b) = key(a) - key(b)"""
    pos = {mm: k for mm, k in v.items() if ('arg', 1) in scev.deep_atoms({mm: k}) and ('arg', 2) not in scev.deep_atoms({mm: k})}
    neg = sub(v, pos)
    good = bool(pos) and same(scale(scev.mapatoms(pos, flip), -1), neg) and all(k > 0 for k in pos.values())
    rep.check(kd, name, good, f.loc(), '%s is %s, not the key of a minus the key of b' % (name, alg.show(v)[:200]), key='cmp:' + name)
    rep.count('comparison functions')


def defaults(rep, m):
    for nm in ('dh_use_swap', 'dq_use_swap', 'dq2_use_swap'):
        f = m.F(nm)
        E = kern.forwarding(scev.Scev(f))
        exchange(rep, 'default exchange', f, nm, E, kern.stores(E))
    for nm in ('dh_use_cmp', 'dq_use_cmp', 'dh2_use_cmp'):
        f = m.F(nm)
        E = scev.Scev(f)
        r = [i for i in f.instrs if i.op == 'ret']
        compare(rep, 'default comparison', nm, f, E, E.at(r[0].ops[0], r[0].block))


def instances(rep):
    """comparison and exchange functions of the library's own quicksorts"""
    m = ir.lib()
    n = 0
    for f in m.defined():
        if not f.name.endswith('_sort_recursive'):
            continue
        cs = {}
        for i in f.instrs:
            if i.op == 'call' and i.callee_name() and i.callee_name() != f.name and not i.callee_name().startswith('llvm') and len(i.ops) == 3:
                cs[i.callee_name()] = i
        for nm in sorted(cs):
            g = m.F(nm)
            if g is None or not g.blocks:
                continue
            n += 1
            E = kern.forwarding(scev.Scev(g))
            try:
                if cs[nm].ty in (None, 'void'):
                    exchange(rep, 'exchange of an instance', g, nm, E, kern.stores(E))
                else:
                    r = [i for i in g.instrs if i.op == 'ret']
                    compare(rep, 'comparison of an instance', nm, g, E, E.at(r[0].ops[0], r[0].block))
            except (alg.Unknown, KeyError, IndexError) as e:
                if DEBUG:
                    raise
                rep.skip('instance', nm, str(e))
    rep.floor('comparison and exchange functions of instances', n, 6)


def run():
    rep = report.Report('C31', RULE, 'closed forms of template operations under a finite case partition')
    m = list(ir.load('stub+i').values())[0]
    for g in (heap_up, heap_down, heap_ops, qsort, defaults):
        try:
            g(rep, m)
        except (alg.Unknown, KeyError, IndexError, StopIteration, AttributeError) as e:
            if DEBUG:
                raise
            rep.skip(g.__name__, 'stub', str(e))
    instances(rep)
    return rep
