"""C46: hierarchical integer k-means"""
import ir, report, alg, kern, spec, scev, let
from alg import C, A, same
from spec import Obl
import sift_detect as sd
DEBUG = False
RULE = ('hierarchical integer k-means: each node clusters its data and each child exactly the data assigned to its center, as many levels as asked for and with no more centers than data; '
        'a datum pushed down the tree goes from each node to the child of its nearest center and the indexes of the centers are the path that is stored')
a = lambda n: ('arg', n)


def offs():
    t = {k: int(alg.cval(o)) for k, o in spec.offsets('vl/hikmeans.h', 'VlHIKMTree', ('M', 'K', 'depth', 'max_niters', 'method', 'root')).items()}
    n = {k: int(alg.cval(o)) for k, o in spec.offsets('vl/hikmeans.h', 'VlHIKMNode', ('filter', 'children')).items()}
    return t, n


class Fun:
    def __init__(self, m, name):
        self.name = name
        self.f = m.F(name)
        self.L = let.Let(self.f, m)
        self.E = self.L.E
        self.sts = kern.stores(self.E, guards=False)

    def calls(self, name):
        return [i for i in self.f.instrs if i.op == 'call' and i.callee_name() == name]

    def one(self, name):
        c = self.calls(name)
        if len(c) != 1:
            raise alg.Unknown('%d calls of %s' % (len(c), name))
        return c[0]

    def ptr(self, o, i):
        """base and offset of a pointer operand"""
        if isinstance(o, list):
            return ('null',), {}
        return self.E.addr_at(o, i.block)

    def val(self, o, i, env):
        return spec.num(self.E.at(o, i.block), env)

    def env(self, args, tabs, its={}):
        return self.L.env({**{a(k): v for k, v in args.items()}, **its}, let.fields(self.E, tabs))


def deref(b, o=0):
    """base of the pointer stored at b + o"""
    return ('*', b, alg.freeze(C(o) if o else {}))


def is_zero(o):
    return same(o, {})


def loops_of(f, i):
    return sorted((h for h in f.loops if i.block in f.loops[h]), key=lambda h: -len(f.loops[h]))


def carried(F, h, exprs, value):
    """the counter of loop h, under all names it has in the expressions"""
    r, seen, todo = {}, set(), list(exprs)
    while todo:
        for x in scev.deep_atoms(todo.pop()):
            if x in seen:
                continue
            seen.add(x)
            if x[0] == 'psum' and x[1] == h:
                r[x] = value
            elif x[0] == 'v' and x[1] in F.L.ids:
                todo.append(F.L.define(x[1]))
    return r


def push(rep, m):
    O, N = offs()
    F = Fun(m, 'vl_hikm_push')
    f, L, E = F.f, F.L, F.E
    T = Obl(rep, 'hikmeans', F.name)
    c = F.one('vl_ikm_push')
    hs = loops_of(f, c)
    if len(hs) != 2:
        return T.skip('push', '%d loops' % len(hs))
    il, dl = hs
    bad = None
    st = [s for s in F.sts if s.base == a(1)]
    best = F.ptr(c.ops[1], c)
    if len(st) != 1 or [h for h, _ in st[0].chain] != [il, dl]:
        return T.skip('push', '%d stores' % len(st))
    s = st[0]
    node = [p for p in f.blocks[dl] if p.op == 'phi' and p.ty == 'ptr' and F.ptr(c.ops[0], c)[0] == deref(('pv', p.id), N['filter'])]
    # the path
    for M, D, n in ((3, 2, 4), (5, 3, 2)):
        for i in range(n):
            for d in range(D):
                e = F.env({3: n}, {a(0): {O['M']: M, O['depth']: D, O['K']: 4}, best[0]: lambda o: 7}, {('it', il): i, ('it', dl): d})
                e0 = F.env({3: n}, {a(0): {O['M']: M, O['depth']: D, O['K']: 4}}, {})
                if let.trips(L, il, e0) != n:
                    bad = bad or 'not all data are pushed'
                if best[0] == a(1):
                    if spec.num(best[1], e) != 4 * (i * D + d):
                        bad = bad or 'entry %d of datum %d' % (d, i)
                else:
                    if spec.num(s.off, e) != 4 * (i * D + d):
                        bad = bad or 'the center of level %d of datum %d is stored at %s' % (d, i, spec.num(s.off, e))
                    if spec.num(s.val, e) != 7:
                        bad = bad or 'another value than the center is stored'
                b, o = F.ptr(c.ops[2], c)
                if b != a(2) or spec.num(o, e) != i * M or F.val(c.ops[3], c, e) != 1:
                    bad = bad or 'datum %d is at %s' % (i, spec.num(o, e))
    T('path', bad is None, s.ins, 'the index of the nearest center of each level is stored in the row of the datum: %s' % bad)
    T('path after', kern.before(E, c, s.ins), s.ins, 'what is stored has been computed')
    if len(node) != 1:
        return T.skip('descent', '%d nodes' % len(node))
    p = node[0]
    ini = [F.E.addr_at(o, q) if not isinstance(o, list) else None for o, q in p.inc if q not in f.loops[dl]]
    nxt = [F.E.addr_at(o, q) if not isinstance(o, list) else None for o, q in p.inc if q in f.loops[dl]]
    T('root', ini == [(deref(a(0), O['root']), {})], c, 'the descent starts from the root: %s' % ini)
    kids = deref(('pv', p.id), N['children'])
    ok = []
    for x in nxt:
        if x is None or x[0][0] != '*' or x[0][1] != kids or not is_zero(x[1]):
            ok.append(False)
            continue
        off = dict(x[0][2])
        e = F.env({3: 4}, {a(0): {O['M']: 3, O['depth']: 2, O['K']: 4}, best[0]: lambda o: 3, a(1): lambda o: 3 if o == 12 else 1}, {('it', il): 1, ('it', dl): 1})
        ok.append(spec.num(off, e) == 24)
    T('descent', len(ok) == 1 and ok[0], c, 'the datum goes to the child of its nearest center')


def subset(rep, m):
    F = Fun(m, 'vl_hikm_copy_subset')
    f, L, E = F.f, F.L, F.E
    T = Obl(rep, 'hikmeans', F.name)
    mc = [i for i in f.instrs if i.op == 'call' and (i.callee_name() or '').startswith('llvm.memcpy')]
    al = F.one('vl_malloc')
    if len(mc) != 1:
        return T.skip('copy', '%d copies' % len(mc))
    mc = mc[0]
    h = loops_of(f, mc)
    if len(h) != 1:
        return T.skip('copy', 'loops')
    h = h[0]
    D, S = F.ptr(mc.ops[0], mc), F.ptr(mc.ops[1], mc)
    bad = None
    cnt = [x for x in scev.deep_atoms(D[1]) if x[0] == 'v']
    if not cnt and D[0] == ('call', al.id) and not any(x[0] in ('psum', 'pv', 'sum') for x in scev.deep_atoms(D[1])):
        return T('copy', False, mc, 'the place of a copy is that of the number of data copied before')
    if len(cnt) != 1 or f.vals[cnt[0][1]].op != 'phi' or f.vals[cnt[0][1]].block != h:
        return T.skip('copy', 'position')
    p = f.vals[cnt[0][1]]
    ini = [(o, q) for o, q in p.inc if q not in f.loops[h]]
    nxt = [(o, q) for o, q in p.inc if q in f.loops[h]]
    ids = [4, 2, 4, 4, 0, 5, 4, 9]
    for M in (1, 3):
        for n in (1, 8):
            base = {2: n, 3: M, 4: 4}
            tabs = {a(1): lambda o: ids[int(o) // 4]}
            if let.trips(L, h, F.env(base, tabs)) != n:
                bad = bad or 'not all data are looked at'
                continue
            for i in range(n):
                for k in (0, 2):
                    e = F.env(base, tabs, {('it', h): i, ('v', p.id): k, **carried(F, h, [E.at(*nxt[0])], k)})
                    r = let.reached(L, mc.block, h, e, sd.walk)
                    if r != (ids[i] == 4):
                        bad = bad or 'a datum of center %d %s copied for center 4' % (ids[i], 'is' if r else 'is not')
                        continue
                    if r and (D[0] != ('call', al.id) or S[0] != a(0) or spec.num(D[1], e) != k * M or spec.num(S[1], e) != i * M or F.val(mc.ops[2], mc, e) != M):
                        bad = bad or 'datum %d is copied from %s to %s' % (i, spec.num(S[1], e), spec.num(D[1], e))
                    v = spec.num(E.at(*nxt[0]), e)
                    if v != k + (1 if r else 0):
                        bad = bad or 'the number of copied data goes from %d to %s' % (k, v)
    if not is_zero(E.at(*ini[0])):
        bad = bad or 'the copy does not start at the beginning'
    T('copy', bad is None, mc, 'the data of the center and no others are copied one after the other: %s' % bad)
    # the number and the buffer
    last = [s for s in F.sts if s.base == a(5)]
    bad = None
    cs = set()
    szs = [x for x in scev.deep_atoms(E.at(al.ops[0], al.block)) if x[0] == 'v']
    for s in last:
        v = [x for x in scev.deep_atoms(s.val) if x[0] == 'v']
        if len(v) != 1 or not same(s.val, A('v', v[0][1])) or s.chain:
            return T.skip('count', 'value')
        cs.add(v[0][1])
    cs |= {x[1] for x in szs}
    if not last or len(szs) != 1:
        return T.skip('count', '%d stores' % len(last))
    for k in cs:
        q = f.vals[k]
        if q.op != 'phi' or q.block not in f.loops:
            return T.skip('count', 'counter')
        g = q.block
        i0 = [(o, b) for o, b in q.inc if b not in f.loops[g]]
        n0 = [(o, b) for o, b in q.inc if b in f.loops[g]]
        if not is_zero(E.at(*i0[0])):
            bad = bad or 'it does not start from zero'
        base, tabs = {2: 8, 3: 2, 4: 4}, {a(1): lambda o: ids[int(o) // 4]}
        if let.trips(L, g, F.env(base, tabs)) != 8:
            bad = bad or 'not all data are counted'
        for i in range(8):
            e = F.env(base, tabs, {('it', g): i, ('v', k): 1, **carried(F, g, [E.at(*n0[0])], 1)})
            if spec.num(E.at(*n0[0]), e) != 1 + (ids[i] == 4):
                bad = bad or 'a datum of center %d changes the number for center 4 by %s' % (ids[i], spec.num(E.at(*n0[0]), e) - 1)
    T('count', bad is None, last[-1].ins, 'the number of data of a center: %s' % bad)
    e = F.env({2: 5, 3: 7, 4: 4}, {a(1): lambda o: 0}, {('v', szs[0][1]): 3})
    T('room', spec.num(E.at(al.ops[0], al.block), e) == 21, al, 'there is room for the data of the center')
    rets = [b[-1] for b in f.blocks if b and b[-1].op == 'ret']
    T('result', all(F.ptr(r.ops[0], r) == (('call', al.id), {}) for r in rets), rets[0], 'the copy is returned')


def build(rep, m):
    O, N = offs()
    F = Fun(m, 'xmeans')
    f, L, E = F.f, F.L, F.E
    T = Obl(rep, 'hikmeans', F.name)
    al = F.calls('vl_malloc')
    nw = F.one('vl_ikm_new')
    tr, pu, ini, sub, rec = (F.one(n) for n in ('vl_ikm_train', 'vl_ikm_push', 'vl_ikm_init_rand_data', 'vl_hikm_copy_subset', 'xmeans'))
    ret = [b[-1] for b in f.blocks if b and b[-1].op == 'ret']
    node = F.ptr(ret[0].ops[0], ret[0])[0] if len(ret) == 1 else None
    if node not in [('call', i.id) for i in al]:
        return T.skip('node', 'node')
    filt = {deref(node, N['filter']), ('call', nw.id)}
    tabs = {a(0): {O['M']: 3, O['K']: 5, O['depth']: 4, O['max_niters']: 17, O['method']: 1}}
    env = lambda its={}, t={}: F.env({2: 11, 3: 5, 4: 3}, {**tabs, **t}, its)
    e = env()
    st = [s for s in F.sts if s.base == node and spec.num(s.off, e) == N['filter']]
    T('filter', len(st) == 1 and any(x[0] in ('callv', 'base') and nw.id in x for x in scev.deep_atoms(st[0].val)) and F.val(nw.ops[0], nw, e) == 1, nw, 'a node has a quantiser of the method of the tree')
    T('initial centers', F.ptr(ini.ops[0], ini)[0] in filt and F.ptr(ini.ops[1], ini) == (a(1), {}) and [F.val(o, ini, e) for o in ini.ops[2:5]] == [3, 11, 5], ini, 'centers are chosen among the data of the node')
    T('train', F.ptr(tr.ops[0], tr)[0] in filt and F.ptr(tr.ops[1], tr) == (a(1), {}) and F.val(tr.ops[2], tr, e) == 11, tr, 'a node is trained with all its data')
    ids = F.ptr(pu.ops[1], pu)
    T('assign', F.ptr(pu.ops[0], pu)[0] in filt and ids[0] in [('call', i.id) for i in al] and is_zero(ids[1]) and F.ptr(pu.ops[2], pu) == (a(1), {}) and F.val(pu.ops[3], pu, e) == 11, pu, 'all data of a node are assigned to its centers')
    T('phases', f.idominates(ini, tr) and f.idominates(tr, pu) and f.idominates(pu, sub) and f.idominates(sub, rec), pu, 'a node chooses centers, is trained, assigns its data and then builds its children')
    mi = F.calls('vl_ikm_set_max_niters')
    T('iterations', len(mi) == 1 and F.ptr(mi[0].ops[0], mi[0])[0] in filt and F.val(mi[0].ops[1], mi[0], e) == 17 and f.idominates(mi[0], tr), tr, 'training has the number of iterations of the tree')
    for i in al:
        if ('call', i.id) == ids[0]:
            T('room for assignments', F.val(i.ops[0], i, e) >= 44, i, 'one assignment for each datum')
        elif ('call', i.id) != node and i.block not in {b for h in f.loops for b in f.loops[h]}:
            T('room for children', F.val(i.ops[0], i, e) >= 40, i, 'one child for each center')
    # the children
    hs = loops_of(f, rec)
    if len(hs) != 1 or loops_of(f, sub) != hs:
        return T.skip('children', 'loops')
    h = hs[0]
    out = F.ptr(sub.ops[5], sub)
    bad = None
    kids = [s for s in F.sts if [g for g, _ in s.chain] == [h] and any(x[0] in ('callv', 'base') and rec.id in x for x in scev.deep_atoms(s.val))]
    if len(kids) != 1:
        return T.skip('children', '%d stores' % len(kids))
    if let.trips(L, h, e) != 5:
        bad = 'not all children are built'
    done = set()
    for it in range(5):
        for n in (0, 1, 4, 5, 9):
            e = env({('it', h): it}, {out[0]: lambda o: n})
            k = int(F.val(sub.ops[4], sub, e))
            done.add(k)
            if F.ptr(sub.ops[0], sub) != (a(1), {}) or F.ptr(sub.ops[1], sub) != ids or [F.val(sub.ops[j], sub, e) for j in (2, 3, 4)] != [11, 3, k]:
                bad = bad or 'child %d has the data of %s' % (k, F.val(sub.ops[4], sub, e))
            got = [F.val(rec.ops[j], rec, e) for j in (2, 3, 4)]
            if F.ptr(rec.ops[0], rec) != (a(0), {}) or F.ptr(rec.ops[1], rec) != (('call', sub.id), {}) or got != [n, min(5, n), 2]:
                bad = bad or 'a child with %d data is built with data, centers, levels %s instead of %s' % (n, [int(x) for x in got], [n, min(5, n), 2])
            if spec.num(kids[0].off, e) != 8 * k:
                bad = bad or 'child %d is stored at %s' % (k, spec.num(kids[0].off, e))
    if done != set(range(5)):
        bad = bad or 'children %s are built' % sorted(done)
    T('children', bad is None, rec, 'each child is built from the data assigned to its center: %s' % bad)
    T('children base', kids[0].base in {deref(node, N['children'])} | {('call', i.id) for i in al} | {x[0] for x in [kids[0]] if x.base[0] in ('pv', 'v')}, kids[0].ins, 'children belong to the node')
    # the last level
    for lv, n in ((1, 11), (1, 3), (2, 11), (2, 5), (2, 3), (3, 2)):
        e = F.env({2: n, 3: min(n, 5), 4: lv}, tabs)
        r = sd.walk(L, 0, {rec.block, sub.block, h} & {h}, {b for b in range(len(f.blocks)) if f.blocks[b] and f.blocks[b][-1].op == 'ret'}, e)
        if len(r) == 1:
            T('levels %d of %d' % (lv, n), r == {lv > 1}, rec, 'a node of level %d %s children' % (lv, 'has' if True in r else 'has no'))
        else:
            T.skip('levels', 'undecided')
        q = [s for s in F.sts if s.base == node and spec.num(s.off, e) == N['children']]
        if len(q) != 1:
            T.skip('child array', '%d stores' % len(q))
            continue
        o = q[0].ins.ops[0]
        p = f.vals[o] if not isinstance(o, list) else None
        if p is None or p.op not in ('phi', 'select'):
            T.skip('child array', 'shape')
            continue
        if p.op == 'phi':
            null = None
            for x, b in p.inc:
                r = sd.walk(L, 0, {b}, {p.block}, e)
                if r == {True}:
                    null = isinstance(x, list)
            if null is not None:
                T('child array %d of %d' % (lv, n), null == (lv == 1), q[0].ins, 'a node has a child array exactly when it is not of the last level')


def root(rep, m):
    O, N = offs()
    F = Fun(m, 'vl_hikm_train')
    T = Obl(rep, 'hikmeans', F.name)
    c = F.one('xmeans')
    st = [s for s in F.sts if s.base == a(0)]
    bad = None
    for K, n in ((3, 9), (9, 3), (4, 4)):
        e = F.env({2: n}, {a(0): {O['M']: 3, O['K']: K, O['depth']: 4}})
        got = [F.val(c.ops[j], c, e) for j in (2, 3, 4)]
        if F.ptr(c.ops[0], c) != (a(0), {}) or F.ptr(c.ops[1], c) != (a(1), {}) or got != [n, min(K, n), 4]:
            bad = bad or '%d data, %d centers: %s' % (n, K, [int(x) for x in got])
        if len(st) != 1 or spec.num(st[0].off, e) != O['root'] or not any(c.id in x for x in scev.deep_atoms(st[0].val)):
            bad = bad or 'the root is not the new tree'
    T('tree', bad is None, c, 'the tree is built from all data, with no more centers than data, as deep as asked for: %s' % bad)
    F = Fun(m, 'vl_hikm_init')
    T = Obl(rep, 'hikmeans', F.name)
    by = {int(spec.num(s.off, {})): s for s in F.sts if s.base == a(0) and alg.is_const(s.off)}
    for n, k in (('M', 1), ('K', 2), ('depth', 3)):
        s = by.get(O[n])
        if s is None:
            T.skip(n, 'store')
        else:
            T(n, same(s.val, A('arg', k)), s.ins, 'the tree remembers its %s' % n)


def run():
    rep = report.Report('C46', RULE, 'closed forms of all stores and call arguments')
    m = ir.libm()
    guard = spec.guarded(lambda: DEBUG)
    guard(rep, push, m)
    guard(rep, subset, m)
    guard(rep, build, m)
    guard(rep, root, m)
    return rep
