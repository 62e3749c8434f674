"""C40: the kd-tree forest: every step of building and searching keeps the invariants that make the search exact, for every data set."""
import ir, alg, report, scev, kern, build, nat
from alg import C, A, add, sub, mul, scale, NOT, eq0, gt0, ge0, fn, same, thaw, freeze
from kern import ld, I
from nat import S, Case, settle, sign, known

RULE = ('one step of every recursive or iterative procedure of the kd-tree (node creation, split, child ranges, bounds, descent, leaf scan, pruning, main loop) evaluated in closed form in every case of a '
        'finite partition (data type, distance, thresholding method, region of the query coordinate, free or full result list) and compared with the invariant it must keep')
DEBUG = False
FIELDS = {'VlKDTreeNode': ['parent', 'lowerChild', 'upperChild', 'splitDimension', 'splitThreshold', 'lowerBound', 'upperBound'],
          'VlKDTreeSplitDimension': ['dimension', 'mean', 'variance'],
          'VlKDTreeDataIndexEntry': ['index', 'value'],
          'VlKDForestNeighbor': ['distance', 'index'],
          'VlKDTree': ['nodes', 'numUsedNodes', 'numAllocatedNodes', 'dataIndex', 'depth'],
          'VlKDForestSearchState': ['tree', 'nodeIndex', 'distanceLowerBound'],
          'VlKDForest': ['dimension', 'rand', 'dataType', 'data', 'numData', 'distance', 'distanceFunction', 'trees', 'numTrees', 'thresholdingMethod', 'splitHeapArray', 'splitHeapNumNodes', 'splitHeapSize',
                         'maxNumNodes', 'searchMaxNumComparisons', 'headSearcher'],
          'VlKDForestSearcher': ['next', 'searchIdBook', 'searchHeapArray', 'forest', 'searchNumComparisons', 'searchHeapNumNodes', 'searchId']}
ENUMS = ['VL_TYPE_FLOAT', 'VL_TYPE_DOUBLE', 'VlDistanceL1', 'VlDistanceL2', 'VL_KDTREE_MEDIAN', 'VL_KDTREE_MEAN']


class Layout:
    def __init__(self):
        names = ['offsetof(struct _%s,%s)' % (s, f) for s in FIELDS for f in FIELDS[s]] + ['sizeof(struct _%s)' % s for s in FIELDS] + ENUMS
        K = build.constants('vl/kdtree.h', names)
        self.ok = len(K) == len(names)
        if not self.ok:
            return
        for e in ENUMS:
            setattr(self, e, K[e])
        self.size = {s: K['sizeof(struct _%s)' % s] for s in FIELDS}
        k2 = build.constants('vl/kdtree.h', ['VL_KDTREE_SPLIT_HEAP_SIZE', 'VL_KDTREE_VARIANCE_EST_NUM_SAMPLES'])
        self.heap, self.samples = k2.get('VL_KDTREE_SPLIT_HEAP_SIZE', 0), k2.get('VL_KDTREE_VARIANCE_EST_NUM_SAMPLES', 1024)
        self.off = {(s, f): K['offsetof(struct _%s,%s)' % (s, f)] for s in FIELDS for f in FIELDS[s]}

    def o(self, s, f):
        return C(self.off[s, f])

    def f(self, base, s, f, i=None):
        """field f of element i of an array of s at base"""
        off = self.o(s, f)
        if i is not None:
            off = add(scale(i, self.size[s]), off)
        return ld(base, off)

    def ptr(self, base, s, f):
        """the object a pointer field points to"""
        return ('*', base, freeze(self.o(s, f)))


def one(p):
    """the atom a polynomial consists of"""
    (m, k), = p.items()
    assert k == 1 and len(m) == 1 and m[0][1] == 1
    return m[0][0]


def typesub(L, t, forest):
    return {one(L.f(forest, 'VlKDForest', 'dataType')): C(L.VL_TYPE_FLOAT if t == 'f' else L.VL_TYPE_DOUBLE)}


def calls(f, blocks=None):
    return [i for i in f.instrs if i.op == 'call' and not (i.callee_name() or '').startswith(('llvm.dbg', 'llvm.lifetime')) and (blocks is None or i.block in blocks)]


def stores(E, c=None):
    """stores as (instr, base, off)"""
    out = []
    for i in E.f.instrs:
        if i.op == 'store' and (c is None or c.may(i.block)):
            try:
                b, o = E.addr_at(i.ops[1], i.block)
            except alg.Unknown:
                continue
            out.append((i, b, o if c is None else c.ev(o)))
    return out


def find(m, caller, pred):
    f = m.F(caller)
    if f is None:
        return None
    for i in calls(f):
        g = m.F(i.callee_name() or '')
        if g is not None and g.blocks and pred(g):
            return g
    return None


def recursive(g):
    return any(i.callee_name() == g.name for i in calls(g))


def slice_loads(f, o):
    """loads in the computation of operand o"""
    out, seen, todo = [], set(), [o]
    while todo:
        x = todo.pop()
        v = f.vals.get(x) if isinstance(x, int) else None
        if v is None or getattr(v, 'ops', None) is None or v.id in seen:
            continue
        seen.add(v.id)
        if v.op == 'load':
            out.append(v)
        todo += [q for q in ([x for x, _ in v.inc] if v.op == 'phi' else v.ops) if isinstance(q, int)]
    return out


class Obl:
    """obligations of one function; exceptions leave it undecided"""
    def __init__(self, rep, kd, name):
        self.rep, self.kd, self.name = rep, kd, name

    def __call__(self, what, good, loc, msg):
        return self.rep.check(self.kd, '%s: %s' % (self.name, what), good, loc.loc() if hasattr(loc, 'loc') else loc, '%s: %s' % (self.name, msg), key='%s:%s' % (self.kd, what))

    def skip(self, what, why=''):
        self.rep.skip(self.kd, '%s: %s' % (self.name, what), why)


def guard(rep, fun, *a):
    try:
        fun(rep, *a)
    except (alg.Unknown, KeyError, IndexError, StopIteration, AttributeError, AssertionError, ValueError, TypeError) as e:
        if DEBUG:
            raise
        rep.skip(fun.__name__, str(a[2:])[:60], '%s: %s' % (type(e).__name__, e))


# ------------------------------------------------------------------ bounds of the nodes

def bounds(rep, m, L):
    f = find(m, 'vl_kdforest_build', lambda g: recursive(g) and not any(i.callee_name() == 'qsort' for i in calls(g)))
    if f is None or f.loops:
        return rep.skip('node bounds', 'recursion', 'not found')
    T = Obl(rep, 'node bounds', 'bounds of the nodes')
    E = scev.Scev(f)
    nodes, sb = L.ptr(('arg', 0), 'VlKDTree', 'nodes'), ('arg', 2)
    n = A('arg', 1)
    fld = {k: L.f(nodes, 'VlKDTreeNode', k, n) for k in FIELDS['VlKDTreeNode']}
    at = {k: add(scale(n, L.size['VlKDTreeNode']), L.o('VlKDTreeNode', k)) for k in fld}
    d16 = scale(fld['splitDimension'], 16)
    rec = [i for i in calls(f) if i.callee_name() == f.name]
    if len(rec) != 2 or calls(f) != rec:
        return T.skip('shape')
    lo = [i for i in rec if same(E.at(i.ops[1], i.block), fld['lowerChild'])]
    hi = [i for i in rec if same(E.at(i.ops[1], i.block), fld['upperChild'])]
    T('both children', len(lo) == len(hi) == 1, f, 'the bounds are not computed for both children')
    if not (len(lo) == len(hi) == 1):
        return
    st = stores(E)
    for nm, off in (('lowerBound', C(0)), ('upperBound', C(8))):
        s = [i for i, b, o in st if b == nodes and same(o, at[nm])]
        ok = len(s) == 1 and same(E.at(s[0].ops[0], s[0].block), ld(sb, add(d16, off))) and Case(E, {}).must(s[0].block) and all(kern.before(E, s[0], r) for r in rec)
        T(nm, ok, s[0] if s else f, 'the %s of a node is not the current bound of its split dimension' % nm)
        if ok:
            # the bound is read before it is narrowed
            for l in slice_loads(f, s[0].ops[0]):
                b, o = E.addr_at(l.ops[0], l.block)
                if b == sb:
                    T(nm + ' read first', all(kern.before(E, l, i) for i, b2, o2 in st if b2 == sb), l, 'the bound of a node is read after it was narrowed')
    child = {'lowerChild': (lo[0], C(8), 'upperBound'), 'upperChild': (hi[0], C(0), 'lowerBound')}
    for nm, (r, off, back) in child.items():
        for kind, v in (('an inner node', add(C(1), S('k'))), ('a leaf', sub(C(-1), S('k')))):
            c = Case(E, {one(fld[nm]): v})
            if kind == 'an inner node':
                T('%s of %s' % (nm, kind), c.must(r.block), r, 'the bounds of child nodes are not computed')
            else:
                T('%s of %s' % (nm, kind), not c.may(r.block), r, 'the range of a leaf is taken for a child node')
        a = [E.addr_at(r.ops[0], r.block), E.addr_at(r.ops[2], r.block)]
        T(nm + ' arguments', a[0] == (('arg', 0), {}) and a[1] == (sb, {}), r, 'the recursion uses another tree or other bounds')
        near = [(i, o) for i, b, o in st if b == sb and (i.block == r.block or f.dominates(i.block, r.block) or f.dominates(r.block, i.block))]
        mine = [(i, o) for i, o in near if i.block == r.block or not any(i.block == q.block for q in rec)]
        pre = [(i, o) for i, o in mine if kern.before(E, i, r)]
        post = [(i, o) for i, o in mine if not kern.before(E, i, r)]
        ok = len(pre) == 1 and same(pre[0][1], add(d16, off)) and same(E.at(pre[0][0].ops[0], pre[0][0].block), fld['splitThreshold'])
        if len(pre) > 1:
            T.skip(nm + ' narrowed', 'several stores')
        else:
            T(nm + ' narrowed', ok, r, 'the bounds passed to the %s are not narrowed at the split threshold' % nm)
        v = E.at(post[0][0].ops[0], post[0][0].block) if len(post) == 1 else None
        ok = v is not None and same(post[0][1], add(d16, off)) and (same(v, fld[back]) or same(v, ld(sb, add(d16, off))) and
                                                                   all(kern.before(E, l, pre[0][0]) for l in slice_loads(f, post[0][0].ops[0]) if E.addr_at(l.ops[0], l.block)[0] == sb))
        if len(post) > 1:
            T.skip(nm + ' restored', 'several stores')
        else:
            T(nm + ' restored', ok, r, 'the bounds are not restored after the %s' % nm)
    rep.count('steps')


# ------------------------------------------------------------------ descent and leaf scan

def coord(L, dist, d):
    return mul(d, d) if dist == 'L2' else d


def query(rep, m, L, t, dist):
    f = find(m, 'vl_kdforestsearcher_query', lambda g: recursive(g) and len(g.args) == 8)
    if f is None:
        return rep.skip('descent', 'recursion', 'not found')
    T = Obl(rep, 'descent', 'search of a node (%s, %s)' % (t, dist))
    E = scev.Scev(f)
    se, tree, nb = ('arg', 0), ('arg', 1), ('arg', 3)
    fo = L.ptr(se, 'VlKDForestSearcher', 'forest')
    nodes = L.ptr(tree, 'VlKDTree', 'nodes')
    node = {k: L.f(nodes, 'VlKDTreeNode', k, A('arg', 2)) for k in FIELDS['VlKDTreeNode']}
    dim = node['splitDimension']
    w = 4 if t == 'f' else 8
    x = ld(('arg', 7), scale(dim, w))
    base = {**typesub(L, t, fo), one(L.f(fo, 'VlKDForest', 'distance')): C(L.VlDistanceL1 if dist == 'L1' else L.VlDistanceL2)}
    added, num = ld(('arg', 5), {}), A('arg', 4)
    nb0 = L.f(nb, 'VlKDForestNeighbor', 'distance', {})
    rec = [i for i in calls(f) if i.callee_name() == f.name]
    inner = {one(node['lowerChild']): add(C(1), S('l')), one(node['upperChild']): add(C(1), S('u'))}
    if len(rec) != 1:
        return T.skip('shape')
    r = rec[0]
    # ---- inner nodes
    state = L.ptr(se, 'VlKDForestSearcher', 'searchHeapArray')
    hn = L.f(se, 'VlKDForestSearcher', 'searchHeapNumNodes')
    regions = {'below the cell': ('lower', sub(sub(S('X'), S('A')), S('B')), sub(S('X'), S('B')), S('X'), add(S('X'), S('E'))),
               'in the lower part': ('lower', sub(S('X'), S('B')), sub(sub(S('X'), S('B')), S('A')), S('X'), add(S('X'), S('E'))),
               'in the upper part': ('upper', add(S('X'), S('B')), sub(S('X'), S('D')), S('X'), add(add(S('X'), S('B')), S('A'))),
               'above the cell': ('upper', add(add(S('X'), S('B')), S('A')), sub(S('X'), S('D')), S('X'), add(S('X'), S('B'))),
               'at the threshold': ('lower', S('X'), sub(S('X'), S('A')), S('X'), add(S('X'), S('E'))),
               'at the lower bound': ('lower', sub(S('X'), S('B')), sub(S('X'), S('B')), S('X'), add(S('X'), S('E'))),
               'at the upper bound': ('upper', add(S('X'), S('B')), sub(S('X'), S('D')), S('X'), add(S('X'), S('B')))}
    # the threshold is a free value: differences decide
    B, A_ = S('B'), S('A')
    spec = {'below the cell': sub(coord(L, dist, add(A_, B)), coord(L, dist, A_)), 'in the lower part': coord(L, dist, B), 'in the upper part': coord(L, dist, B),
            'above the cell': sub(coord(L, dist, add(A_, B)), coord(L, dist, A_)), 'at the threshold': {}, 'at the lower bound': coord(L, dist, B), 'at the upper bound': coord(L, dist, B)}
    for nm, (child, q, x1, x2, x3) in regions.items():
        facts = {**base, **inner, one(x): q, one(node['lowerBound']): x1, one(node['splitThreshold']): x2, one(node['upperBound']): x3}
        lb = add(A('arg', 6), spec[nm])
        best = {'nearer than the neighbors': add(lb, S('P')), 'farther than the neighbors': sub(lb, S('P'))}
        for full in (False, True):
            for rel, v in best.items():
                c = Case(E, {**facts, one(added): S('a'), one(num): S('a') if full else add(add(S('a'), C(1)), S('k')), one(nb0): v})
                rep.count('cases')
                inst = 'query coordinate ' + nm
                ok = c.must(r.block)
                T(inst + ', goes on', ok, r, 'the search does not go on in a child (query coordinate %s)' % nm)
                if not ok:
                    continue
                ch = c.val(r.ops[2], r.block)
                sym = {k: inner[one(node[k + 'Child'])] for k in ('lower', 'upper')}
                other = {'lower': 'upper', 'upper': 'lower'}
                took = next((k for k in sym if same(ch, sym[k])), None)
                if nm == 'at the threshold':
                    T(inst, took is not None, r, 'the search goes on in node %s' % alg.show(ch)[:120])
                else:
                    T(inst, took == child, r, 'the search goes on in the %s child (query coordinate %s)' % (took or alg.show(ch)[:100], nm))
                if took is None:
                    continue
                a = {k: E.addr_at(r.ops[k], r.block) for k in (0, 1, 3, 5, 7)}
                T('arguments', all(a[k] == (('arg', k), {}) for k in a) and same(c.val(r.ops[4], r.block), c.ev(num)), r, 'the recursion has other arguments than the call')
                T('distance of the child', same(c.val(r.ops[6], r.block), A('arg', 6)), r, 'the distance bound of the child searched next is %s' % alg.show(c.val(r.ops[6], r.block))[:200])
                st = [(i, o) for i, b, o in stores(E, c) if b == state]
                must = [(i, o) for i, o in st if c.must(i.block)]
                need = not full or rel == 'nearer than the neighbors'
                if need:
                    slot = scale(hn, L.size['VlKDForestSearchState'])
                    got = {}
                    for i, o in must:
                        for k in FIELDS['VlKDForestSearchState']:
                            if same(o, c.ev(add(slot, L.o('VlKDForestSearchState', k)))):
                                got[k] = i
                    T(inst + ', other child kept', set(got) == set(FIELDS['VlKDForestSearchState']) and len(st) == 3, r, 'the other child is not put into the queue although it may hold a neighbor (query coordinate %s)' % nm)
                    if len(got) == 3:
                        v = c.val(got['nodeIndex'].ops[0], got['nodeIndex'].block)
                        T(inst + ', node kept', same(v, sym[other[took]]), got['nodeIndex'], 'the node kept for later is %s' % alg.show(v)[:100])
                        v = c.val(got['distanceLowerBound'].ops[0], got['distanceLowerBound'].block)
                        T(inst + ', bound', same(v, lb) or same(v, A('arg', 6)), got['distanceLowerBound'],
                          'the distance bound of the node kept is %s, expected %s (query coordinate %s)' % (alg.show(v)[:200], alg.show(lb)[:100], nm))
                        T('tree kept', E.addr_at(got['tree'].ops[0], got['tree'].block) == (tree, {}), got['tree'], 'another tree is kept with the node')
                        pushed(T, c, E, f, state, hn, (se, L.o('VlKDForestSearcher', 'searchHeapNumNodes')), list(got.values()), r)
    # ---- leaves
    b0 = S('b')
    h = [h for h in f.loops]
    if len(h) != 1:
        return T.skip('leaf loop', '%d loops' % len(h))
    h = h[0]
    leaf = {one(node['lowerChild']): sub(C(-1), b0)}
    for nm, e in (('empty', {}), ('with points', add(C(1), S('k')))):
        c = Case(E, {**base, **leaf, one(node['upperChild']): sub(sub(C(-1), b0), e)}, stop=[h])
        T('leaf', c.must(h) and not c.may(r.block), r, 'a leaf is searched as an inner node')
    it = A('it', h)
    di = L.f(L.ptr(tree, 'VlKDTree', 'dataIndex'), 'VlKDTreeDataIndexEntry', 'index', add(b0, it))
    book = L.ptr(se, 'VlKDForestSearcher', 'searchIdBook')
    sid, cell = L.f(se, 'VlKDForestSearcher', 'searchId'), ld(book, scale(di, 8))
    mx, nc = L.f(fo, 'VlKDForest', 'searchMaxNumComparisons'), L.f(se, 'VlKDForestSearcher', 'searchNumComparisons')
    more = {one(node['upperChild']): sub(sub(sub(C(-1), b0), it), add(C(1), S('k')))}
    done = {one(node['upperChild']): sub(sub(C(-1), b0), it)}
    exact = {one(mx): {}}
    limit = {'comparisons left': {one(mx): add(add(S('n'), C(1)), S('k')), one(nc): S('n')}, 'no limit': {**exact, one(nc): S('n')}}
    over = {one(mx): add(S('n'), C(1)), one(nc): add(S('n'), C(1))}
    dc = [i for i in f.instrs if i.op == 'call' and i.callee_name() is None]
    cell_atom = one(cell)

    def same_cell(fresh):
        v = add(add(S('s'), C(1)), S('k')) if fresh else S('s')

        def g(a):
            if a == one(sid):
                return v
            if a[0] == 'ld' and a[1] == book:
                return S('s')
            if a[0] == 'callv' and any(i.id == a[1] for i in dc):
                return A('sym', 'Z')
            return None
        return g

    def both(d, g):
        return lambda a: d[a] if a in d else g(a)
    for lim, lf in limit.items():
        for seen in (False, True):
            for room in ('room', 'full, nearer', 'full, farther'):
                z = S('Z')
                d = {**base, **leaf, **more, **lf, one(added): S('a'), one(num): add(add(S('a'), C(1)), S('k')) if room == 'room' else S('a'),
                     one(nb0): add(z, S('P')) if room == 'full, nearer' else sub(z, S('P'))}
                c = Case(E, both(d, same_cell(not seen)), start=h)
                rep.count('cases')
                inst = 'leaf point (%s, %s)' % ('seen before' if seen else 'new', lim)
                body = [i for i in dc if c.must(i.block)]
                if c.open:
                    T.skip(inst, 'condition at %s' % f.blocks[c.open[0][0]][-1].loc())
                    continue
                if seen:
                    T(inst, not [i for i in dc if c.may(i.block)] and not [i for i, b, o in stores(E, c) if b == nb], f.blocks[h][-1], 'a point of another tree already compared in this query is added again')
                    T(inst + ' goes on', ('again', h) in sum(c.succ.values(), []) and not any(e not in f.loops[h] for e in c.succ), f.blocks[h][-1], 'the scan of a leaf ends at a point seen before')
                    continue
                T(inst, len(body) == 1, f.blocks[h][-1], 'a point of a leaf is not compared with the query')
                if len(body) != 1:
                    continue
                T(inst + ' goes on', ('again', h) in sum(c.succ.values(), []) and not any(e not in f.loops[h] for e in c.succ), f.blocks[h][-1], 'the scan of a leaf ends early')
                p = body[0]
                args = [c.ev(alg.add({}, E.at(p.ops[0], p.block)))] + [E.addr_at(o, p.block) for o in p.ops[1:3]]
                pt = {(('arg', 7), freeze({})), (L.ptr(fo, 'VlKDForest', 'data'), freeze(scale(mul(di, L.f(fo, 'VlKDForest', 'dimension')), w)))}
                got = {(b, freeze(c.ev(o))) for b, o in args[1:]}
                want = {(b, freeze(c.ev(thaw(o)))) for b, o in pt}
                T('compared', got == want and same(args[0], c.ev(L.f(fo, 'VlKDForest', 'dimension'))), p, 'the distance is not that of the query to the point of the leaf: %s' % ', '.join(str(b) + '[' + alg.show(thaw(o)) + ']' for b, o in got)[:300])
                cal = callee(f, p)
                if cal is not None:
                    bb, oo = E.addr_at(cal.ops[0], cal.block)
                    T('distance function', bb == fo and same(oo, L.o('VlKDForest', 'distanceFunction')), p, 'another function than the distance of the forest is called')
                # book
                bk = [(i, o) for i, b, o in stores(E, c) if b == book and c.must(i.block)]
                T('marked', len(bk) == 1 and same(bk[0][1], c.ev(scale(di, 8))) and same(c.val(bk[0][0].ops[0], bk[0][0].block), c.ev(sid)), p, 'a point compared is not marked as seen in this query')
                cn = [i for i, b, o in stores(E, c) if b == se and same(o, L.o('VlKDForestSearcher', 'searchNumComparisons'))]
                T('counted', len(cn) == 1 and c.must(cn[0].block) and same(c.val(cn[0].ops[0], cn[0].block), add(S('n'), C(1))), p, 'the comparison is not counted once')
                ns = [(i, o) for i, b, o in stores(E, c) if b == nb]
                if room == 'full, farther':
                    T('farther point', not ns, p, 'a neighbor found is replaced by a farther point')
                    continue
                slot = S('a') if room == 'room' else {}
                got = {}
                for i, o in ns:
                    for k in FIELDS['VlKDForestNeighbor']:
                        if same(o, c.ev(add(scale(slot, L.size['VlKDForestNeighbor']), L.o('VlKDForestNeighbor', k)))) and c.must(i.block):
                            got[k] = i
                T('result (%s)' % room, len(got) == 2 and len(ns) == 2, p, 'a nearer point is not put into the result list' if room != 'room' else 'a point is not put into the next free place of the result list')
                if len(got) != 2:
                    continue
                T('index of the result (%s)' % room, same(c.val(got['index'].ops[0], got['index'].block), c.ev(di)), got['index'], 'the index put into the result list is %s' % alg.show(c.val(got['index'].ops[0], got['index'].block))[:150])
                T('distance of the result (%s)' % room, same(c.val(got['distance'].ops[0], got['distance'].block), S('Z')), got['distance'], 'the distance put into the result list is %s' % alg.show(c.val(got['distance'].ops[0], got['distance'].block))[:150])
                if room == 'room':
                    pushed(T, c, E, f, nb, added, (('arg', 5), {}), list(got.values()), None, 'results')
                else:
                    hc = [i for i in calls(f) if c.must(i.block) and i is not p and i.callee_name() not in (None, f.name)]
                    up = [i for i in hc if len(i.ops) == 3 and E.addr_at(i.ops[0], i.block) == (nb, {}) and same(c.val(i.ops[1], i.block), S('a')) and same(c.val(i.ops[2], i.block), {})]
                    T('order of the results', len(up) == 1 and all(kern.before(E, s, up[0]) for s in got.values()), p, 'the list of results is not reordered after a replacement')
    # the scan ends only after the last point or at the limit of the comparisons
    c = Case(E, both({**base, **leaf, **done, **exact}, same_cell(True)), start=h)
    T('end of a leaf', not [i for i in dc if c.may(i.block)], f.blocks[h][-1], 'the scan of a leaf goes beyond its last point')
    c = Case(E, both({**base, **leaf, **more, **over}, same_cell(True)), start=h)
    T('limit', not [i for i in dc if c.may(i.block)], f.blocks[h][-1], 'more points are compared than the limit')


def callee(f, i):
    """the load that yields the function pointer of an indirect call"""
    o = i.d.get('callee') if hasattr(i, 'd') else None
    o = getattr(i, 'callee', o)
    v = f.vals.get(o) if isinstance(o, int) else None
    return v if v is not None and getattr(v, 'op', None) == 'load' else None


def pushed(T, c, E, f, base, count, cell, before, after, what='queue'):
    """the element written at position count is added to the heap: moved to its place, count incremented"""
    val = c.ev(count)
    hc = [i for i in calls(f) if c.must(i.block) and len(i.ops) == 2 and i.callee_name() not in (None, f.name)]
    dn = []
    for i in hc:
        try:
            if E.addr_at(i.ops[0], i.block) == (base, {}) and same(c.val(i.ops[1], i.block), val):
                dn.append(i)
        except alg.Unknown:
            pass
    inc = [i for i, b, o in stores(E, c) if b == cell[0] and same(o, cell[1])]
    good = len(inc) == 1 and c.must(inc[0].block) and same(c.val(inc[0].ops[0], inc[0].block), add(val, C(1)))
    T('%s grows' % what, good, inc[0] if inc else f, 'the number of elements of the %s does not grow by one' % what)
    T('%s ordered' % what, len(dn) == 1 and all(kern.before(E, s, dn[0]) for s in before), dn[0] if dn else f, 'a new element of the %s is not moved to its place' % what)



# ------------------------------------------------------------------ one query

def loop_of(f, blocks):
    """the innermost loop that contains the blocks"""
    hs = [h for h in f.loops if all(b in f.loops[h] for b in blocks)]
    return min(hs, key=lambda h: len(f.loops[h])) if hs else None


def loads_at(E, o, base, off):
    """loads of base[off] in the computation of o"""
    out = []
    for l in slice_loads(E.f, o):
        b, k = E.addr_at(l.ops[0], l.block)
        if b == base and same(k, off):
            out.append(l)
    return out


def searcher_query(rep, m, L):
    f = m.F('vl_kdforestsearcher_query')
    g = find(m, 'vl_kdforestsearcher_query', lambda g: recursive(g) and len(g.args) == 8)
    if f is None or g is None:
        return rep.skip('query', 'vl_kdforestsearcher_query', 'not found')
    T = Obl(rep, 'query', 'vl_kdforestsearcher_query')
    E = scev.Scev(f)
    se, nb = ('arg', 0), ('arg', 1)
    fo = L.ptr(se, 'VlKDForestSearcher', 'forest')
    state = L.ptr(se, 'VlKDForestSearcher', 'searchHeapArray')
    F = {k: L.f(se, 'VlKDForestSearcher', k) for k in FIELDS['VlKDForestSearcher']}
    hn, nc, mx = F['searchHeapNumNodes'], F['searchNumComparisons'], L.f(fo, 'VlKDForest', 'searchMaxNumComparisons')
    st = stores(E)

    def fld(k):
        return [i for i, b, o in st if b == se and same(o, L.o('VlKDForestSearcher', k))]
    rec = [i for i in calls(f) if i.callee_name() == g.name]
    if len(rec) != 1 or not any(rec[0].block in f.loops[h] for h in f.loops):
        return T.skip('search loop')
    r = rec[0]
    H = max((h for h in f.loops if r.block in f.loops[h]), key=lambda h: len(f.loops[h]))
    slot = {k: add(scale(hn, L.size['VlKDForestSearchState']), L.o('VlKDForestSearchState', k)) for k in FIELDS['VlKDForestSearchState']}
    # a query of its own
    s = fld('searchId')
    T('new query', len(s) == 1 and same(E.at(s[0].ops[0], s[0].block), add(F['searchId'], C(1))) and Case(E, {}, stop=[H]).must(s[0].block) and not any(s[0].block in f.loops[h] for h in f.loops),
      s[0] if s else f, 'a query does not get a mark of its own: points compared in earlier queries are taken for seen')
    for k in ('searchNumComparisons', 'searchHeapNumNodes'):
        s = [i for i in fld(k) if not E.at(i.ops[0], i.block) and not any(i.block in f.loops[h] for h in f.loops)]
        T(k + ' starts at 0', len(s) == 1 and Case(E, {}, stop=[H]).must(s[0].block), f, '%s is not reset by a query' % k)
        if s:
            T(k + ' reset first', all(kern.before(E, s[0], i) for i in fld(k) + [r] if i is not s[0]), s[0], '%s is reset after it was used' % k)
    ab, ao = E.addr_at(r.ops[5], r.block)
    if ab[0] != 'alloca':
        return T.skip('number of results', str(ab))
    s = [i for i, b, o in st if b == ab and not E.at(i.ops[0], i.block)]
    T('results start at 0', len(s) == 1 and all(kern.before(E, s[0], i) for i, b, o in st if b == ab and i is not s[0]) and kern.before(E, s[0], r), f, 'the number of results found is not reset by a query')
    # roots
    root = [i for i, b, o in st if b == state and i.block not in f.loops[H]]
    h0 = loop_of(f, [i.block for i in root]) if root else None
    if h0 is None:
        T('roots', bool(root), f, 'the roots of the trees are not put into the queue')
        return
    n = E.exit_it(h0)
    if n is None:
        T.skip('roots', 'loop')
    else:
        T('every tree', same(n, L.f(fo, 'VlKDForest', 'numTrees')), f.blocks[h0][-1], 'roots of %s trees are put into the queue' % alg.show(n)[:80])
    c = Case(E, {}, start=h0)
    got = {k: i for i, b, o in st for k in slot if i in root and same(o, slot[k])}
    T('root state', set(got) == set(slot) and all(inbody(E, h0, i.block) for i in got.values()), root[0], 'the root of a tree is not put at the end of the queue')
    if set(got) == set(slot):
        tp = ld(L.ptr(fo, 'VlKDForest', 'trees'), scale(A('it', h0), 8))
        T('root tree', same(E.at(got['tree'].ops[0], got['tree'].block), tp), got['tree'], 'the tree of the i-th root is %s' % alg.show(E.at(got['tree'].ops[0], got['tree'].block))[:150])
        T('root node', not E.at(got['nodeIndex'].ops[0], got['nodeIndex'].block), got['nodeIndex'], 'the search does not start at node 0')
        v = E.at(got['distanceLowerBound'].ops[0], got['distanceLowerBound'].block)
        T('root bound', not v or sign(v) in ('-', '0-'), got['distanceLowerBound'], 'the distance bound of a root is not 0')
        ic = [i for i in fld('searchHeapNumNodes') if i.block in f.loops[h0]]
        T('roots counted', len(ic) == 1 and same(E.at(ic[0].ops[0], ic[0].block), add(hn, C(1))) and inbody(E, h0, ic[0].block), root[0], 'the queue does not grow by one for every root')
        dn = [i for i in calls(f) if i.block in f.loops[h0] and len(i.ops) == 2 and E.addr_at(i.ops[0], i.block) == (state, {}) and same(E.at(i.ops[1], i.block), hn)]
        T('roots ordered', len(dn) == 1 and inbody(E, h0, dn[0].block) and all(kern.before(E, i, dn[0]) for i in root), root[0], 'the root of a tree is not moved to its place in the queue')
    # main loop
    cnt, num, nb0 = ld(ab, ao), A('arg', 2), L.f(nb, 'VlKDForestNeighbor', 'distance', {})
    bound = ld(state, slot['distanceLowerBound'])
    some = {one(hn): add(add(S('h'), C(1)), C(1))}
    exact = {one(mx): {}, one(nc): S('n')}
    left = {one(mx): add(add(S('n'), C(1)), S('k')), one(nc): S('n')}
    over = {one(mx): add(S('n'), C(1)), one(nc): add(S('n'), C(1))}
    room = {one(cnt): add(S('a'), C(1)), one(num): add(add(S('a'), C(2)), S('k'))}
    none = {one(cnt): {}, one(num): add(C(1), S('k'))}
    full = {one(cnt): add(S('a'), C(1)), one(num): add(S('a'), C(1))}
    near = {one(nb0): add(S('D'), S('P')), one(bound): S('D')}
    # the exit condition may have been computed before the loop
    for lim, lf in (('exact', exact), ('comparisons left', left)):
        for nm, rf in (('no neighbor yet', none), ('list not full', {**room, **near}), ('list not full, farther', {**room, one(nb0): S('D'), one(bound): add(S('D'), S('P'))}), ('a nearer cell', {**full, **near})):
            c = Case(E, {**some, **lf, **rf}, start=H)
            rep.count('cases')
            what = 'search goes on (%s, %s)' % (lim, nm)
            op = [x for x in c.open if x[0] in f.loops[H]]
            if op:
                T.skip(what, 'condition at %s' % f.blocks[op[0][0]][-1].loc())
                continue
            T(what, c.must2(r.block) and all(x in f.loops[H] for x in c.succ), r, 'the search ends although the queue holds a cell that may contain a neighbor (%s, %s)' % (lim, nm))
        c = Case(E, {one(hn): {}, **lf, **room}, start=H)
        T('empty queue (%s)' % lim, not c.may(r.block), r, 'a cell is taken from an empty queue')
    c = Case(E, {**some, **over, **room}, start=H)
    T('limit', not c.may(r.block), r, 'the search goes on after the maximum number of comparisons')
    dec = [i for i in fld('searchHeapNumNodes') if i.block in f.loops[H]]
    good = len(dec) == 1 and same(E.at(dec[0].ops[0], dec[0].block), sub(hn, C(1))) and kern.before(E, dec[0], r) and Case(E, {**some, **exact, **room}, start=H).must2(dec[0].block)
    T('cell removed', good, dec[0] if dec else r, 'the cell taken is not removed from the queue')
    a = {k: E.addr_at(r.ops[k], r.block) for k in (0, 3, 7)}
    T('search arguments', a[0] == (se, {}) and a[3] == (nb, {}) and a[7] == (('arg', 3), {}) and same(E.at(r.ops[4], r.block), num), r, 'a cell is searched with other arguments than those of the query')
    for k, nm in ((1, 'tree'), (2, 'nodeIndex'), (6, 'distanceLowerBound')):
        v = E.at(r.ops[k], r.block)
        w = ld(state, slot[nm])
        T('cell %s' % nm, same(v, w), r, 'the %s searched is %s, not that of the cell taken' % (nm, alg.show(v)[:150]))
        if same(v, w) and good:
            for l in loads_at(E, r.ops[k], se, L.o('VlKDForestSearcher', 'searchHeapNumNodes')):
                T('cell %s taken' % nm, kern.before(E, dec[0], l), r, 'the cell searched is not the one taken from the queue')
    # places not used, order
    after = [(i, b, o) for i, b, o in st if b == nb and i.block not in f.loops[H] and any(i.block in f.loops[h] for h in f.loops)]
    W = L.size['VlKDForestNeighbor']
    fill = {}
    for i, b, o in after:
        h = loop_of(f, [i.block])
        for k in FIELDS['VlKDForestNeighbor']:
            if same(o, add(add(scale(add(cnt, A('it', h)), W), L.o('VlKDForestNeighbor', k)), {})):
                fill[k] = (i, h)
    if after or not [i for i in calls(f) if i.block not in f.loops[H] and any(isinstance(x, int) and E.f.vals.get(x) is not None and safe(E, x, i) == nb for x in i.ops) and (i.callee_name() or '').startswith('llvm.memset')]:
        T('unused places', set(fill) == {'index', 'distance'}, f, 'the places of the result list that are not used are not marked')
    for k, (i, h) in fill.items():
        n = E.exit_it(h)
        if n is None:
            T.skip('unused places', 'loop')
        else:
            T('unused places to the end', same(n, sub(num, cnt)) and inbody(E, h, i.block), i, 'not all unused places of the result list are marked')
        T('unused places after the search', kern.before(E, r, i), i, 'the places of the result list are marked as unused before the search ends')
        o = i.ops[0]
        if k == 'index':
            T('unused index', alg_int(o) == -1, i, 'an unused place has the index %s' % (o,))
        else:
            T('unused distance', isinstance(o, (list, tuple)) and 'nan' in str(o[-1]).lower(), i, 'an unused place does not have the distance NaN')
    srt = [h for h in f.loops if h != H and any(i.block in f.loops[h] for i, b, o in st if b == ab)]
    users = [i for i in calls(f) if i.block not in f.loops[H] and any(safe(E, x, i) == nb for x in i.ops if isinstance(x, int)) and kern.before(E, r, i)]
    if len(srt) != 1:
        if users:
            T.skip('order', '%d loops' % len(srt))
        else:
            T('order', False, f, 'the result list is not sorted')
    else:
        h = srt[0]
        c0, c1 = Case(E, {one(cnt): {}}, start=h), Case(E, {one(cnt): add(S('a'), C(2))}, start=h)
        d = [i for i, b, o in st if b == ab and i.block in f.loops[h]]
        T('sorting ends', not any(c0.may(i.block) for i in d), f.blocks[h][-1], 'the sorting of the results goes on with an empty list')
        T('sorting goes on', len(d) == 1 and c1.must2(d[0].block) and same(E.at(d[0].ops[0], d[0].block), sub(cnt, C(1))), f.blocks[h][-1], 'the sorting of the results does not take out every result')
        T('sorting after the search', all(kern.before(E, r, i) for i in d), f.blocks[h][-1], 'the results are sorted before the search ends')
        up = [i for i in calls(f) if i.block in f.loops[h] and len(i.ops) == 3 and safe(E, i.ops[0], i) == nb]
        T('sorted', len(up) == 1 and c1.must2(up[0].block) and same(E.at(up[0].ops[1], up[0].block), cnt) and not E.at(up[0].ops[2], up[0].block), f.blocks[h][-1], 'the list of results is not reordered after the farthest was taken out')
        for k, (i, _) in fill.items():
            T('unused places before sorting', all(kern.before(E, l, x) for x in d for l in loads_at(E, i.ops[1], ab, ao)), i, 'the number of results is changed before the unused places are marked')
    # answer
    for b in f.rpo():
        t = f.blocks[b][-1]
        if t.op == 'ret' and t.ops:
            T('answer', same(E.at(t.ops[0], b), nc), t, 'the query returns %s, not the number of comparisons' % alg.show(E.at(t.ops[0], b))[:100])


def inbody(E, h, b):
    """block b runs in every iteration of loop h"""
    f = E.f
    return b in f.loops[h] and all(f.dominates(b, l) for l in E.latches(h))


def safe(E, o, i):
    try:
        return E.addr_at(o, i.block)[0]
    except (alg.Unknown, KeyError):
        return None


def alg_int(o):
    import ir as _ir
    return _ir.const_int(o)


def front(rep, m, L):
    f = m.F('vl_kdforest_query')
    T = Obl(rep, 'query', 'vl_kdforest_query')
    q = [i for i in calls(f) if i.callee_name() == 'vl_kdforestsearcher_query'] if f is not None else []
    if len(q) != 1:
        return T.skip('call')
    E = scev.Scev(f)
    r = q[0]
    T('query arguments', E.addr_at(r.ops[1], r.block) == (('arg', 1), {}) and same(E.at(r.ops[2], r.block), A('arg', 2)) and E.addr_at(r.ops[3], r.block) == (('arg', 3), {}), r, 'the query is passed on with other arguments')
    for b in f.rpo():
        t = f.blocks[b][-1]
        if t.op == 'ret' and t.ops:
            T('query answer', same(E.at(t.ops[0], b), E.at(r.id, r.block)), t, 'the number of comparisons is not returned')


def with_array(rep, m, L, t):
    f = m.F('vl_kdforest_query_with_array')
    T = Obl(rep, 'queries', 'vl_kdforest_query_with_array (%s)' % t)
    if f is None:
        return T.skip('function')
    E = scev.Scev(f)
    q = [i for i in calls(f) if i.callee_name() == 'vl_kdforestsearcher_query']
    tv = {('callv', i.id, i.callee_name()): C(L.VL_TYPE_FLOAT if t == 'f' else L.VL_TYPE_DOUBLE) for i in calls(f) if i.callee_name() == 'vl_kdforest_get_data_type'}
    dim = [A('callv', i.id, i.callee_name()) for i in calls(f) if i.callee_name() == 'vl_kdforest_get_data_dimension']
    if not q or len(tv) != 1 or not dim:
        return T.skip('shape')
    (ta, tval), = tv.items()
    facts = {ta: tval, **typesub(L, t, ('arg', 0)), ('base', ('arg', 4)): add(S('p'), C(1))}
    hq = [h for h in f.loops if all(i.block in f.loops[h] for i in q)]
    if len(hq) != 1:
        return T.skip('queries', '%d loops' % len(hq))
    hq = hq[0]
    n = E.exit_it(hq)
    if n is None:
        T.skip('number of queries')
    else:
        T('number of queries', same(n, A('arg', 3)), f.blocks[hq][-1], '%s queries are made' % alg.show(n)[:80])
    c = Case(E, facts, start=hq)
    mine = [i for i in q if c.may(i.block)]
    w = 4 if t == 'f' else 8
    T('one query', len(mine) == 1 and c.each(mine[0].block), f.blocks[hq][-1], 'a query point is not looked up once')
    if len(mine) != 1:
        return
    r = mine[0]
    b, o = E.addr_at(r.ops[3], r.block)
    v = c.ev(o)
    ok = b == ('arg', 5) and any(same(v, c.ev(scale(mul(A('it', hq), d), w))) for d in dim)
    T('query point', ok, r, 'the i-th query looks up %s[%s]' % (b, alg.show(v)[:120]))
    nbb, nbo = E.addr_at(r.ops[1], r.block)
    T('query neighbors', same(E.at(r.ops[2], r.block), A('arg', 2)), r, 'another number of neighbors is looked up')
    want = {('arg', 1): (4, 'index'), ('arg', 4): (w, 'distance')}
    for base, (sz, k) in want.items():
        ss = [(i, o) for i, b, o in stores(E, c) if b == base]
        if len(ss) != 1:
            T(k + ' stored', bool(ss), r, 'the %s of the neighbors is not stored' % k) if not ss else T.skip(k)
            continue
        i, o = ss[0]
        hi = loop_of(f, [i.block])
        n = E.exit_it(hi)
        if n is None or hi == hq:
            T.skip(k, 'loop')
            continue
        T(k + ' count', same(n, A('arg', 2)), i, 'the %s of %s neighbors is stored' % (k, alg.show(n)[:60]))
        x = Case(E, facts, start=hi)
        T(k + ' always', x.each(i.block), i, 'the %s of a neighbor is not stored' % k)
        o = c.ev(E.addr_at(i.ops[1], i.block)[1])
        T(k + ' place', same(o, scale(add(mul(A('arg', 2), A('it', hq)), A('it', hi)), sz)), i, 'the %s of neighbor j of query i is stored at offset %s' % (k, alg.show(o)[:100]))
        v = x.val(i.ops[0], i.block)
        good = same(v, ld(nbb, add(nbo, add(scale(A('it', hi), L.size['VlKDForestNeighbor']), L.o('VlKDForestNeighbor', k)))))
        T(k + ' value', good, i, 'the %s stored is %s' % (k, alg.show(v)[:100]))
        T(k + ' after the query', kern.before(E, r, i), i, 'results are stored before the query')
    x = Case(E, {**facts, ('base', ('arg', 4)): {}}, start=hq)
    T('distances wanted', not [i for i, b, o in stores(E, x) if b == ('arg', 4)], r, 'distances are stored although none are wanted')


# ------------------------------------------------------------------ construction

def build_all(rep, m, L):
    f = m.F('vl_kdforest_build')
    T = Obl(rep, 'construction', 'vl_kdforest_build')
    E = scev.Scev(f)
    fo = ('arg', 0)
    st = stores(E)
    g = find(m, 'vl_kdforest_build', lambda g: recursive(g) and any(i.callee_name() == 'qsort' for i in calls(g)))
    bnd = find(m, 'vl_kdforest_build', lambda g: recursive(g) and not any(i.callee_name() == 'qsort' for i in calls(g)))
    n = A('arg', 1)
    trees = L.ptr(fo, 'VlKDForest', 'trees')
    set_ = {one(L.f(fo, 'VlKDForest', 'numData')): n}
    for k, v in (('numData', n), ('data', A('base', ('arg', 2)))):
        s = [i for i, b, o in st if b == fo and same(o, L.o('VlKDForest', k))]
        T(k, len(s) == 1 and same(E.at(s[0].ops[0], s[0].block), v) and Case(E, {}).must(s[0].block), s[0] if s else f, '%s of the forest is not that of the call' % k)
    rc = [i for i in calls(f) if g is not None and i.callee_name() == g.name]
    if len(rc) != 1:
        return T.skip('recursion')
    r = rc[0]
    h = loop_of(f, [r.block])
    tree = ('*', trees, freeze(scale(A('it', h), 8)))
    cnt = E.exit_it(h)
    nt = L.f(fo, 'VlKDForest', 'numTrees')
    T('every tree', cnt is not None and same(cnt, nt) and inbody(E, h, r.block), r, 'not every tree is built') if cnt is not None else T.skip('trees')
    tv = {k: L.f(tree, 'VlKDTree', k) for k in FIELDS['VlKDTree']}
    ts = {k: [i for i, b, o in st if b == tree and same(o, L.o('VlKDTree', k))] for k in tv}

    def ev(p):
        for _ in range(4):
            p = scev.mapatoms(p, {**set_, **known_}.get)
        return p
    known_ = {}
    al = ts['numAllocatedNodes']
    if len(al) == 1:
        known_[one(tv['numAllocatedNodes'])] = E.at(al[0].ops[0], al[0].block)
    for k in ('numUsedNodes', 'depth'):
        z = [i for i in ts[k] if not ev(E.at(i.ops[0], i.block))]
        T(k + ' starts at 0', len(z) == 1 and inbody(E, h, z[0].block) and all(kern.before(E, z[0], i) for i in ts[k] + [r] if i is not z[0]), f, 'the %s of a tree does not start at 0' % k)
    # memory of a tree
    for k, need, per in (('nodes', sub(scale(n, 2), C(1)), L.size['VlKDTreeNode']), ('dataIndex', n, L.size['VlKDTreeDataIndexEntry'])):
        s = ts[k]
        mc = f.vals.get(s[0].ops[0]) if len(s) == 1 and isinstance(s[0].ops[0], int) else None
        if mc is None or getattr(mc, 'op', None) != 'call':
            T.skip('memory of ' + k)
            continue
        sz = C(1)
        for o in mc.ops:
            sz = mul(sz, ev(E.at(o, mc.block)))
        d = nat.sign(scev.mapatoms(sub(sz, scale(need, per)), {one(n): add(S('n'), C(1))}.get))
        if d is None:
            T.skip('memory of ' + k, alg.show(sz)[:80])
        else:
            T('memory of ' + k, d in ('0', '0+', '+') and (mc.callee_name() or '').startswith('vl_'), s[0], 'a tree has memory for %s bytes of %s, %s needed' % (alg.show(sz)[:80], k, alg.show(scale(need, per))))
    ix = [(i, o) for i, b, o in st if b == ('*', tree, freeze(L.o('VlKDTree', 'dataIndex')))]
    if len(ix) == 1:
        i, o = ix[0]
        hi = loop_of(f, [i.block])
        c = E.exit_it(hi)
        if hi == h or c is None:
            T.skip('points')
        else:
            T('points', same(ev(c), n) and same(o, add(scale(A('it', hi), L.size['VlKDTreeDataIndexEntry']), L.o('VlKDTreeDataIndexEntry', 'index'))) and same(E.at(i.ops[0], i.block), A('it', hi)) and inbody(E, hi, i.block)
              and kern.before(E, i, r), i, 'a tree does not start with every point once')
    else:
        T('points', bool(ix), f, 'a tree is built without points') if not ix else T.skip('points')
    ok = E.addr_at(r.ops[0], r.block) == (fo, {}) and same(E.at(r.ops[1], r.block), ld(trees, scale(A('it', h), 8)))
    T('root call', ok, r, 'the tree built is not the i-th of the forest')
    T('root range', not E.at(r.ops[3], r.block) and same(ev(E.at(r.ops[4], r.block)), n), r, 'the root does not contain all points')
    T('root depth', not E.at(r.ops[5], r.block), r, 'the depth of the root is not 0')
    new_node(T, E, L, tree, E.at(r.ops[2], r.block), r.ops[2], [r], C(0))
    # nodes of all trees
    s = [i for i, b, o in st if b == fo and same(o, L.o('VlKDForest', 'maxNumNodes'))]
    if len(s) == 1:
        v = E.at(s[0].ops[0], s[0].block)
        t1 = kern.SUM(lambda i: L.f(('*', trees, freeze(scale(i, 8))), 'VlKDTree', 'numUsedNodes'), nt)
        t2 = kern.SUM(lambda i: L.f(('*', trees, freeze(scale(i, 8))), 'VlKDTree', 'numAllocatedNodes'), nt)
        if same(v, t1) or same(v, t2):
            T('number of nodes', True, s[0], '')
        elif not v or any(a[0] == 'sum' for m_ in v for a, _ in m_) or known(v):
            T('number of nodes', False, s[0], 'the size of the search queue is %s, not the number of nodes of all trees' % alg.show(v)[:200])
        else:
            # a running value: one more tree must add its nodes
            p = f.vals.get(one(v)[1]) if len(v) == 1 and one(v)[0] in ('v', 'exit') else None
            nx = [(o, b) for o, b in p.inc if b in f.loops.get(p.block, ())] if p is not None and getattr(p, 'op', None) == 'phi' else []
            q = settle(scev.mapatoms(E.at(*nx[0]), lambda a: C(3) if a == ('v', p.id) else C(2) if a[0] == 'ld' and a[1][0] == '*' else None)) if len(nx) == 1 else None
            if q is not None and known(q):
                T('number of nodes', q.get((), 0) >= 5, s[0], 'the size of the search queue is not the number of nodes of all trees: %s after trees of 3 and 2 nodes' % alg.show(q))
            else:
                T.skip('number of nodes', alg.show(v)[:100])
    else:
        T('number of nodes', bool(s), f, 'the size of the search queue is not set')
    # bounds
    bc = [i for i in calls(f) if bnd is not None and i.callee_name() == bnd.name]
    if len(bc) != 1:
        T('bounds', bool(bc), f, 'the bounds of the nodes are not computed') if not bc else T.skip('bounds')
    else:
        c = bc[0]
        hb = loop_of(f, [c.block])
        k = E.exit_it(hb) if hb is not None else None
        if k is None:
            T.skip('bounds', 'loop')
        else:
            T('bounds of every tree', same(k, nt) and inbody(E, hb, c.block) and same(E.at(c.ops[0], c.block), ld(trees, scale(A('it', hb), 8))) and not E.at(c.ops[1], c.block), c, 'the bounds are not computed from the root of every tree')
            T('bounds after construction', kern.before(E, r, c), c, 'the bounds are computed before the tree is built')
            sb = E.addr_at(c.ops[2], c.block)[0]
            ss = [(i, o) for i, b, o in st if b == sb]
            if not ss and sb[0] != 'call':
                T.skip('initial bounds')
            else:
                for off, sg in ((0, '-'), (8, '')):
                    hit = None
                    for i, o in ss:
                        hl = loop_of(f, [i.block])
                        for stp in (16,):
                            if same(o, add(scale(A('it', hl), stp), C(off))):
                                hit = (i, hl)
                    T('initial bounds %d' % off, hit is not None, c, 'a bound of the root is not initialised')
                    if hit:
                        i, hl = hit
                        kk = E.exit_it(hl)
                        d = L.f(fo, 'VlKDForest', 'dimension')
                        full = None
                        if kk is not None:
                            full = same(kk, d) or same(settle(scev.mapatoms(kk, {one(d): S('d')}.get)), S('d'))
                        if full is None:
                            T.skip('initial bounds', 'loop')
                        else:
                            T('initial bounds complete', full, i, 'the bounds of %s dimensions are initialised' % alg.show(kk)[:80])
                        T('initial bounds of every tree', hb in [x for x in f.loops if i.block in f.loops[x]] and kern.before(E, i, c) and i.block in f.loops[hb], i, 'the bounds are not initialised for every tree')
                        v = i.ops[0]
                        sv = str(v[-1]) if isinstance(v, (list, tuple)) else ''
                        T('initial bounds value %d' % off, sv.lower() in (sg + 'inf', '+inf' if not sg else '-inf') or sv.lower() == sg + 'infinity', i, 'the initial bound is %s' % (v,))
    # searchers made before
    for nm, fn_, need in (('searchHeapArray', 'queue', scale(L.f(fo, 'VlKDForest', 'maxNumNodes'), L.size['VlKDForestSearchState'])), ('searchIdBook', 'marks', scale(n, 8))):
        s = [i for i, b, o in st if b[0] in ('pv', '*') and b != tree and same(o, L.o('VlKDForestSearcher', nm)) and any(i.block in f.loops[x] for x in f.loops) and i.block not in f.loops[h]]
        T('searchers: ' + fn_, bool(s), f, 'searchers made before a rebuild keep the memory of the old forest (%s)' % nm)
        for i in s:
            mc = f.vals.get(i.ops[0]) if isinstance(i.ops[0], int) else None
            if mc is not None and mc.op == 'call':
                sz = C(1)
                for o in mc.ops:
                    sz = mul(sz, E.at(o, mc.block))
                v = ev(sz)
                mn = [E.at(q.ops[0], q.block) for q, b, o in st if b == fo and same(o, L.o('VlKDForest', 'maxNumNodes'))]
                T('searchers: size of ' + fn_, same(v, ev(need)) or any(same(v, scale(x, L.size['VlKDForestSearchState'])) for x in mn), i, 'the searchers get %s bytes for %s' % (alg.show(v)[:80], nm))


def new_searcher(rep, m, L):
    f = m.F('vl_kdforest_new_searcher')
    T = Obl(rep, 'searcher', 'vl_kdforest_new_searcher')
    E = scev.Scev(f)
    fo = ('arg', 0)
    for nm, need in (('searchHeapArray', scale(L.f(fo, 'VlKDForest', 'maxNumNodes'), L.size['VlKDForestSearchState'])), ('searchIdBook', scale(L.f(fo, 'VlKDForest', 'numData'), 8))):
        s = [i for i, b, o in stores(E) if b[0] == 'call' and same(o, L.o('VlKDForestSearcher', nm))]
        mc = f.vals.get(s[0].ops[0]) if len(s) == 1 and isinstance(s[0].ops[0], int) else None
        if mc is None or getattr(mc, 'op', None) != 'call':
            T.skip(nm)
            continue
        sz = C(1)
        for o in mc.ops:
            sz = mul(sz, E.at(o, mc.block))
        d = nat.sign(scev.mapatoms(sub(sz, need), {one(L.f(fo, 'VlKDForest', 'maxNumNodes')): S('m'), one(L.f(fo, 'VlKDForest', 'numData')): S('n')}.get))
        if d is None:
            T.skip(nm, alg.show(sz)[:80])
        else:
            T(nm + ' size', d in ('0', '0+', '+') and Case(E, {}).must(s[0].block), s[0], '%s has %s bytes, %s needed' % (nm, alg.show(sz)[:80], alg.show(need)[:80]))
        if nm == 'searchIdBook':
            z = any((i.callee_name() or '').startswith('llvm.memset') for i in f.instrs if i.op == 'call')
            T('marks cleared', mc.callee_name() in ('vl_calloc', 'calloc') or z, s[0], 'the marks of a new searcher are not cleared')
    s = [i for i, b, o in stores(E) if b[0] == 'call' and same(o, L.o('VlKDForestSearcher', 'forest'))]
    T('forest', len(s) == 1 and same(E.at(s[0].ops[0], s[0].block), A('base', fo)), f, 'a new searcher does not belong to the forest')


def new_forest(rep, m, L):
    f = m.F('vl_kdforest_new')
    T = Obl(rep, 'forest', 'vl_kdforest_new')
    E = scev.Scev(f)
    st = [(i, b, o) for i, b, o in stores(E) if b[0] == 'call']
    for k, v in (('dataType', A('arg', 0)), ('dimension', A('arg', 1)), ('numTrees', A('arg', 2)), ('distance', A('arg', 3))):
        s = [i for i, b, o in st if same(o, L.o('VlKDForest', k))]
        T(k, len(s) == 1 and same(E.at(s[0].ops[0], s[0].block), v), s[0] if s else f, 'the %s of a new forest is not the one wanted' % k)
    s = [i for i, b, o in st if same(o, L.o('VlKDForest', 'splitHeapSize'))]
    if len(s) == 1 and L.heap:
        for t in (1, L.heap, L.heap + 1, 1000):
            v = settle(scev.mapatoms(E.at(s[0].ops[0], s[0].block), {('arg', 2): C(t)}.get))
            if not known(v):
                T.skip('number of candidates', alg.show(v)[:80])
                break
            T('number of candidates', 1 <= v.get((), 0) <= L.heap, s[0], '%s candidate dimensions are kept in an array of %d (%d trees)' % (v.get((), 0), L.heap, t))
    for t, nm in (('f', 'vl_get_vector_comparison_function_f'), ('d', 'vl_get_vector_comparison_function_d')):
        tv = C(L.VL_TYPE_FLOAT if t == 'f' else L.VL_TYPE_DOUBLE)
        sub_ = {('arg', 0): tv}
        for i, b, o in st:
            if same(o, L.o('VlKDForest', 'dataType')):
                sub_[one(ld(b, o))] = tv
        c = Case(E, sub_)
        s = [i for i, b, o in st if same(o, L.o('VlKDForest', 'distanceFunction')) and c.may(i.block)]
        if len(s) != 1:
            T.skip('distance function')
            continue
        mc = f.vals.get(s[0].ops[0]) if isinstance(s[0].ops[0], int) else None
        live = mc
        if mc is not None and mc.op == 'phi':
            lv = [x for x, p in mc.inc if c.may(p)]
            live = f.vals.get(lv[0]) if len(lv) == 1 else None
        if live is None or live.op != 'call':
            T.skip('distance function')
            continue
        T('distance function', live.callee_name() == nm and same(E.at(live.ops[0], live.block), A('arg', 3)), s[0], 'a forest of type %s compares with %s' % (t, live.callee_name()))


def new_node(T, E, L, tree, idx, op, users, parent):
    """the node created is the next free one, empty, and counted before the next is created"""
    f = E.f
    used = L.f(tree, 'VlKDTree', 'numUsedNodes')
    incs = [i for i, b, o in stores(E) if b == tree and same(o, L.o('VlKDTree', 'numUsedNodes')) and same(E.at(i.ops[0], i.block), add(used, C(1)))]
    T('nodes counted', len(incs) == len(users), f, 'the number of nodes does not grow by one with every node')
    return incs


def build_node(rep, m, L, t):
    f = find(m, 'vl_kdforest_build', lambda g: recursive(g) and any(i.callee_name() == 'qsort' for i in calls(g)))
    T = Obl(rep, 'split', 'construction of a node (%s)' % t)
    if f is None or len(f.args) != 6:
        rec = find(m, 'vl_kdforest_build', lambda g: recursive(g) and len(g.args) == 6)
        if rec is not None:
            T('sorted', False, rec, 'the points of a node are not sorted along the split dimension')
        return T.skip('function')
    E = scev.Scev(f)
    fo, tree, nn, B, N = ('arg', 0), ('arg', 1), A('arg', 2), A('arg', 3), A('arg', 4)
    nodes, di = L.ptr(tree, 'VlKDTree', 'nodes'), L.ptr(tree, 'VlKDTree', 'dataIndex')
    fld = {k: L.f(nodes, 'VlKDTreeNode', k, nn) for k in FIELDS['VlKDTreeNode']}
    at = {k: add(scale(nn, L.size['VlKDTreeNode']), L.o('VlKDTreeNode', k)) for k in fld}
    used, depth = L.f(tree, 'VlKDTree', 'numUsedNodes'), L.f(tree, 'VlKDTree', 'depth')
    hn, hs = L.f(fo, 'VlKDForest', 'splitHeapNumNodes'), L.f(fo, 'VlKDForest', 'splitHeapSize')
    heap = L.off['VlKDForest', 'splitHeapArray']
    rec = [i for i in calls(f) if i.callee_name() == f.name]
    st = stores(E)
    base = typesub(L, t, fo)
    b = S('b')
    if len(rec) != 2:
        return T.skip('recursion', '%d calls' % len(rec))
    # ---- leaves
    for nm, e, hf in (('no point', {}, {}), ('one point', C(1), {}), ('overlapping points', add(C(2), S('k')), {one(hn): {}})):
        for dn, df in (('deeper', {one(depth): S('d'), ('arg', 5): add(add(S('d'), C(1)), S('j'))}), ('not deeper', {one(depth): add(add(S('d'), C(1)), S('j')), ('arg', 5): S('d')})):
            c = Case(E, {**base, ('arg', 3): b, ('arg', 4): add(b, e), **hf, **df})
            rep.count('cases')
            T('leaf (%s)' % nm, not any(c.may(r.block) for r in rec), rec[0], 'a node with %s is split' % nm)
            for k, v in (('lowerChild', sub(sub({}, b), C(1))), ('upperChild', sub(sub({}, add(b, e)), C(1)))):
                s = [i for i, bb, o in st if bb == nodes and same(o, at[k]) and c.may(i.block)]
                if len(s) != 1:
                    T('%s of a leaf (%s)' % (k, nm), bool(s), f, 'the points of a leaf are not recorded') if not s else T.skip('leaf')
                    continue
                T('%s of a leaf (%s)' % (k, nm), c.must(s[0].block) and same(c.val(s[0].ops[0], s[0].block), v), s[0], 'the %s of a leaf is %s' % (k, alg.show(c.val(s[0].ops[0], s[0].block))[:100]))
            s = [i for i, bb, o in st if bb == tree and same(o, L.o('VlKDTree', 'depth')) and c.may(i.block)]
            if dn == 'deeper':
                ok = len(s) == 1 and c.must(s[0].block) and same(c.val(s[0].ops[0], s[0].block), c.ev(A('arg', 5)))
                T('depth (%s)' % nm, ok, s[0] if s else f, 'the depth of the tree is not raised to that of a deeper leaf (%s)' % nm)
            else:
                ok = not s or all(same(c.val(i.ops[0], i.block), c.ev(depth)) for i in s)
                T('depth kept (%s)' % nm, ok, s[0] if s else f, 'a leaf that is not the deepest changes the depth of the tree')
    # ---- a node is split
    reset = [i for i, bb, o in st if bb == fo and same(o, L.o('VlKDForest', 'splitHeapNumNodes')) and not E.at(i.ops[0], i.block)]
    heaps = [i for i, bb, o in st if bb == fo and any(('it', h) in scev.deep_atoms(E.at(i.ops[0], i.block)) for h in f.loops) and any(i.block in f.loops[h] for h in f.loops)]
    hd = loop_of(f, [i.block for i in heaps]) if heaps else None
    if hd is not None:
        T('candidates start empty', len(reset) == 1 and reset[0].block not in f.loops[hd] and all(kern.before(E, reset[0], i) for i in heaps) and f.dominates(reset[0].block, hd), f.blocks[hd][-1],
          'the candidates for the split dimension are not reset: those of another node remain')
        candidates(rep, T, E, f, L, t, hd, base, heap, hn, hs, di, fo)
    else:
        T.skip('candidates')
    # the dimension chosen
    s = [i for i, bb, o in st if bb == nodes and same(o, at['splitDimension'])]
    if len(s) != 1:
        T('split dimension', bool(s), f, 'the split dimension of a node is not recorded') if not s else T.skip('split dimension')
        return
    X = None
    for nm, hf in (('free places', {one(hn): add(S('h'), C(1)), one(hs): add(add(S('h'), C(2)), S('k'))}), ('all places used', {one(hn): add(S('h'), C(1)), one(hs): add(S('h'), C(1))})):
        c = Case(E, {**base, ('arg', 3): b, ('arg', 4): add(b, add(C(2), S('j'))), **hf})
        T('split', all(c.must(r.block) for r in rec), rec[0], 'a node with several points and a varying dimension is not split')
        T('split dimension recorded', c.must(s[0].block), s[0], 'the split dimension of a node is not recorded')
        v = c.val(s[0].ops[0], s[0].block)
        try:
            a = one(v)
            assert a[0] == 'ld' and a[1] == fo
            off = sub(thaw(a[2]), C(heap + L.off['VlKDTreeSplitDimension', 'dimension']))
            X = scale(off, alg.Fraction(1, L.size['VlKDTreeSplitDimension'])) if hasattr(alg, 'Fraction') else {k: q / L.size['VlKDTreeSplitDimension'] for k, q in off.items()}
        except (AssertionError, ValueError):
            T.skip('split dimension', alg.show(v)[:100])
            return
        if known(X):
            T('candidate chosen', X.get((), 0) == 0, s[0], 'candidate %s is chosen' % alg.show(X))
        else:
            a = one(X)
            if a[:2] != ('fn', 'urem'):
                T.skip('candidate chosen', alg.show(X)[:100])
            else:
                d = sign(sub(thaw(a[3]), c.ev(hn)))
                if d is None:
                    T.skip('candidate chosen', alg.show(X)[:100])
                else:
                    T('candidate chosen', d in ('0', '-', '0-'), s[0], 'a split dimension beyond the candidates of the node can be chosen (%s)' % nm)
    # ---- values and order
    q = [i for i in calls(f) if i.callee_name() == 'qsort']
    if len(q) != 1:
        return T.skip('sort')
    q = q[0]
    bb, o = E.addr_at(q.ops[0], q.block)
    W = L.size['VlKDTreeDataIndexEntry']
    T('sorted', bb == di and same(o, scale(B, W)) and same(E.at(q.ops[1], q.block), sub(N, B)) and same(E.at(q.ops[2], q.block), C(W)), q, 'not exactly the points of the node are sorted')
    c = Case(E, {**base, ('arg', 3): b, ('arg', 4): add(b, add(C(2), S('j'))), one(hn): add(S('h'), C(1)), one(hs): add(add(S('h'), C(2)), S('k'))})
    T('sort always', c.must(q.block) and all(kern.before(E, q, r) for r in rec), q, 'the points of a node are not sorted before it is split')
    vs = [(i, o) for i, bb, o in st if bb == di]
    if len(vs) != 1:
        T('coordinates', bool(vs), q, 'the coordinates of the points along the split dimension are not computed') if not vs else T.skip('coordinates')
    else:
        i, o = vs[0]
        h = loop_of(f, [i.block])
        n = E.exit_it(h) if h is not None else None
        if n is None:
            T.skip('coordinates', 'loop')
        else:
            it = A('it', h)
            T('coordinates', same(o, add(scale(add(B, it), W), L.o('VlKDTreeDataIndexEntry', 'value'))) and same(n, sub(N, B)) and inbody(E, h, i.block), i, 'the coordinates are not those of exactly the points of the node')
            w = 4 if t == 'f' else 8
            sdim = E.at(s[0].ops[0], s[0].block)
            pt = L.f(di, 'VlKDTreeDataIndexEntry', 'index', add(B, it))
            data, D = L.ptr(fo, 'VlKDForest', 'data'), L.f(fo, 'VlKDForest', 'dimension')
            x = Case(E, base, start=h)
            v = x.val(i.ops[0], i.block)
            ok = any(same(v, x.ev(ld(data, scale(add(mul(pt, D), z), w)))) for z in (sdim, fld['splitDimension']))
            T('coordinate', ok, i, 'the coordinate of a point is %s' % alg.show(v)[:250])
            T('coordinates before the sort', kern.before(E, i, q), i, 'the points are sorted before their coordinates are known')
    comparator(T, m, L, q)
    threshold(rep, T, E, f, L, t, rec, st, nodes, at, fld, di, q, base, hn, hs, s[0], heap, fo)
    # ---- children
    lo = [i for i, bb, o in st if bb == nodes and same(o, at['lowerChild']) and any(same(E.at(i.ops[0], i.block), used) for _ in (0,))]
    hi = [i for i, bb, o in st if bb == nodes and same(o, at['upperChild']) and any(same(E.at(i.ops[0], i.block), used) for _ in (0,))]
    T('children recorded', len(lo) == len(hi) == 1, rec[0], 'the children of a node are not the nodes created for it')
    incs = new_node(T, E, L, tree, None, None, rec, nn)
    if len(lo) == len(hi) == 1 and len(incs) == 2:
        rl = [r for r in rec if same(E.at(r.ops[3], r.block), B)]
        rh = [r for r in rec if same(E.at(r.ops[4], r.block), N)]
        if len(rl) == len(rh) == 1 and rl[0] is not rh[0]:
            rl, rh = rl[0], rh[0]
            pairs = {'lower': (lo[0], rl), 'upper': (hi[0], rh)}
            first = 'lower' if kern.before(E, rl, rh) else 'upper'
            second = 'upper' if first == 'lower' else 'lower'
            seq = sorted(incs, key=f.instrs.index)
            marks = {}
            for k in pairs:
                s_, r = pairs[k]
                ls = loads_at(E, s_.ops[0], tree, L.o('VlKDTree', 'numUsedNodes'))
                marks[k] = ls
                v = E.at(r.ops[2], r.block)
                fl = fld[k + 'Child']
                ok = same(v, fl) or same(v, used)
                T('%s child built' % k, ok, r, 'the recursion for the %s points builds node %s' % (k, alg.show(v)[:100]))
                if ok:
                    ls2 = loads_at(E, r.ops[2], tree, L.o('VlKDTree', 'numUsedNodes')) if same(v, used) else loads_at(E, r.ops[2], nodes, at[k + 'Child'])
                    if same(v, fl):
                        T('%s child known' % k, all(kern.before(E, s_, l) for l in ls2), r, 'the recursion for the %s points reads the node before it is recorded' % k)
                    else:
                        marks[k] = ls + [l for l in ls2 if l not in ls]
            T('first child is a new node', all(kern.before(E, l, seq[0]) for l in marks[first]) and kern.before(E, seq[0], pairs[first][1]), pairs[first][1], 'the %s child is not the next free node' % first)
            T('second child is a new node', all((kern.before(E, pairs[first][1], l) or kern.before(E, seq[0], l) and kern.before(E, seq[1], pairs[first][1])) and kern.before(E, l, seq[1]) for l in marks[second])
              and kern.before(E, seq[1], pairs[second][1]), pairs[second][1], 'the %s child is not the next free node' % second)
    for r in rec:
        T('depth of a child', same(E.at(r.ops[5], r.block), add(A('arg', 5), C(1))), r, 'the depth of a child is %s' % alg.show(E.at(r.ops[5], r.block))[:60])
        T('tree of a child', E.addr_at(r.ops[0], r.block) == (fo, {}) and E.addr_at(r.ops[1], r.block) == (tree, {}), r, 'the child belongs to another tree')
    init = {k: [i for i, bb, o in st if bb == nodes and same(o, add(scale(used, L.size['VlKDTreeNode']), L.o('VlKDTreeNode', k)))] for k in ('parent', 'splitDimension')}
    T('new nodes', all(not E.at(i.ops[0], i.block) for i in init['splitDimension']) and len(init['splitDimension']) == 2, rec[0], 'the split dimension of a new node is not initialised (read for leaves, too)')
    T('parent', all(same(E.at(i.ops[0], i.block), nn) for i in init['parent']) and len(init['parent']) == 2, rec[0], 'the parent of a new node is not the node split')


def comparator(T, m, L, q):
    o = q.ops[3]
    name = o[1] if isinstance(o, (list, tuple)) and o and o[0] == 'g' else None
    g = m.F(name) if name else None
    if g is None or not g.blocks:
        g = m.F('hdr$%s' % name) if name else None
    if g is None or not g.blocks or len(g.args) != 2:
        return T.skip('order', 'comparator')
    E = scev.Scev(g)
    va, vb = (ld(('arg', k), L.o('VlKDTreeDataIndexEntry', 'value')) for k in (0, 1))
    F = alg.Fraction
    tests = [('less', sub(S('X'), S('P')), S('X'), ('-',)), ('equal', S('X'), S('X'), ('0',)), ('greater', add(S('X'), S('P')), S('X'), ('+',))]
    for e in (F(1, 10 ** 12), F(1, 3), F(10 ** 6)):
        tests += [('less', {}, C(e), ('-',)), ('greater', C(e), {}, ('+',))]
    for nm, x, y, want in tests:
        c = Case(E, {one(va): x, one(vb): y})
        for b in g.rpo():
            t = g.blocks[b][-1]
            if t.op == 'ret' and t.ops and c.may(b):
                v = c.val(t.ops[0], b)
                for _ in range(3):
                    v = settle(v, lambda a: C(int(thaw(a[2]).get((), 0))) if a[0] == 'fn' and a[1] in ('fptosi', 'int') and not set(thaw(a[2])) - {()} else None)
                d = sign(v)
                if d is None:
                    T.skip('order', alg.show(v)[:80])
                else:
                    T('order (%s)' % nm, d in want, t, 'the comparison of coordinates gives %s for a coordinate that is %s' % (alg.show(v)[:60], nm))


def candidates(rep, T, E, f, L, t, hd, base, heap, hn, hs, di, fo):
    """the most varying dimensions are kept"""
    D, data = L.f(fo, 'VlKDForest', 'dimension'), L.ptr(fo, 'VlKDForest', 'data')
    n = E.exit_it(hd)
    if n is None:
        T.skip('dimensions', 'loop')
    else:
        T('dimensions', same(n, D), f.blocks[hd][-1], 'the variance of %s dimensions is estimated' % alg.show(n)[:60])
    o3 = {k: L.off['VlKDTreeSplitDimension', k] for k in FIELDS['VlKDTreeSplitDimension']}
    W = L.size['VlKDTreeSplitDimension']
    M = C(5)
    small = {**base, ('arg', 3): S('b'), ('arg', 4): add(S('b'), M)}
    inn = [h for h in f.loops if h != hd and f.loops[h] <= f.loops[hd]]
    if len(inn) != 1:
        return T.skip('variance', '%d loops' % len(inn))
    hi = inn[0]
    # moments
    c = Case(E, small, start=hd)
    mine = [(i, o) for i, b, o in stores(E, c) if b == fo and i.block in f.loops[hd]]
    slot = scale(hn, W)
    got = {k: [i for i, o in mine if same(o, c.ev(add(slot, C(heap + o3[k]))))] for k in o3}
    if not all(len(x) == 1 for x in got.values()):
        T('candidate kept', any(got.values()), f.blocks[hd][-1], 'a varying dimension is not put at the end of the candidates') if not any(got.values()) else T.skip('candidate kept')
        return
    mean, var = (c.ev(E.at(got[k][0].ops[0], got[k][0].block)) for k in ('mean', 'variance'))
    phis = {a[1] for v in (mean, var) for a in scev.deep_atoms(v) if a[0] == 'v'}
    phis = [f.vals[p] for p in phis if f.vals[p].op == 'phi' and f.vals[p].block == hi]
    m1 = m2 = None
    nin = E.exit_it(hi)
    if nin is None:
        return T.skip('samples', 'loop')
    x = Case(E, small, start=hi)
    it = A('it', hi)
    T('samples', same(c.ev(nin), M), f.blocks[hi][-1], 'the variance of 5 points is estimated from %s' % alg.show(c.ev(nin))[:60])
    w = 4 if t == 'f' else 8
    pt = L.f(di, 'VlKDTreeDataIndexEntry', 'index', add(S('b'), it))
    datum = x.ev(ld(data, scale(add(mul(pt, D), A('it', hd)), w)))
    for p in phis:
        ini = [o for o, b in p.inc if b not in f.loops[hi]]
        nxt = [(o, b) for o, b in p.inc if b in f.loops[hi]]
        if len(ini) != 1 or len(nxt) != 1 or E.at(ini[0], hd):
            continue
        try:
            d = sub(x.val(*nxt[0]), A('v', p.id))
        except alg.Unknown:
            continue
        if same(d, datum):
            m1 = p
        elif same(d, mul(datum, datum)):
            m2 = p
    if len(phis) == 2 and (m1 is None or m2 is None):
        T('moments', False, phis[0], 'the first and second moment of the points of the node are not accumulated along the dimension')
        return
    if m1 is None or m2 is None:
        return T.skip('moments')
    n1, n2 = A('v', m1.id), A('v', m2.id)
    inv = C(alg.Fraction(1, 5))
    T('mean', same(mean, mul(n1, inv)), got['mean'][0], 'the mean recorded is %s' % alg.show(mean)[:150])
    T('variance', same(var, sub(mul(n2, inv), mul(mul(n1, inv), mul(n1, inv)))), got['variance'][0], 'the variance recorded is %s' % alg.show(var)[:150])
    # many points: samples among those of the node
    big = {**base, ('arg', 3): S('b'), ('arg', 4): add(S('b'), C(L.samples + 1))}
    xb = Case(E, big, start=hi)
    for l in [i for i in f.instrs if i.op == 'load' and i.block in f.loops[hi]]:
        b, o = E.addr_at(l.ops[0], l.block)
        if b == di:
            v = xb.ev(o)
            j = {k: q / L.size['VlKDTreeDataIndexEntry'] for k, q in sub(v, scale(S('b'), L.size['VlKDTreeDataIndexEntry'])).items()}
            try:
                a = one(j)
            except (ValueError, AssertionError):
                T.skip('sample', alg.show(v)[:80])
                continue
            if a[:2] == ('fn', 'urem') and known(thaw(a[3])):
                T('sample', thaw(a[3]).get((), 0) <= L.samples + 1, l, 'a sample is taken beyond the points of the node')
            else:
                T.skip('sample', alg.show(v)[:80])
    # which dimensions are kept
    V = S('V')
    five = {('v', m1.id): {}, ('v', m2.id): scale(V, 5)}
    top = ld(fo, C(heap + o3['variance']))
    for nm, hf in (('free place', {one(hn): S('h'), one(hs): add(add(S('h'), C(1)), S('k'))}),
                   ('more varying', {one(hn): add(S('h'), C(1)), one(hs): add(S('h'), C(1)), one(top): sub(V, S('P'))}),
                   ('less varying', {one(hn): add(S('h'), C(1)), one(hs): add(S('h'), C(1)), one(top): add(V, S('P'))}),
                   ('constant', {one(hn): S('h'), one(hs): add(add(S('h'), C(1)), S('k')), ('v', m2.id): {}})):
        c = Case(E, {**small, **five, **hf}, start=hd)
        rep.count('cases')
        op = [x for x in c.open if x[0] in f.loops[hd] and x[0] not in f.loops[hi] and x[0] != hd]
        if op:
            T.skip('candidate (%s)' % nm, 'condition at %s' % f.blocks[op[0][0]][-1].loc())
            continue
        mine = [(i, o) for i, b, o in stores(E, c) if b == fo and i.block in f.loops[hd] and not same(o, L.o('VlKDForest', 'splitHeapNumNodes'))]
        if nm in ('less varying', 'constant'):
            T('candidate (%s)' % nm, not mine, f.blocks[hd][-1], 'a %s dimension becomes a candidate' % nm)
            continue
        pos = S('h') if nm == 'free place' else {}
        got = {k: [i for i, o in mine if same(o, add(scale(pos, W), C(heap + o3[k]))) and must_in(c, E, hd, i.block)] for k in o3}
        T('candidate (%s)' % nm, all(len(x) == 1 for x in got.values()) and len(mine) == 3, f.blocks[hd][-1], 'a varying dimension is not kept as a candidate (%s)' % nm)
        if not all(len(x) == 1 for x in got.values()):
            continue
        i = got['dimension'][0]
        T('candidate dimension (%s)' % nm, same(c.val(i.ops[0], i.block), A('it', hd)), i, 'another dimension is recorded')
        i = got['variance'][0]
        T('candidate variance (%s)' % nm, same(c.val(i.ops[0], i.block), V), i, 'another variance is recorded')
        i = got['mean'][0]
        cm = Case(E, {**small, ('v', m1.id): scale(S('Q'), 5), **hf}, start=hd)
        T('candidate mean (%s)' % nm, same(cm.ev(E.at(i.ops[0], i.block)), S('Q')), i, 'another mean is recorded')
        hc = [i for i in calls(f) if c.may(i.block) and i.block in f.loops[hd] and i.ops and safe(E, i.ops[0], i) == fo and same(E.addr_at(i.ops[0], i.block)[1], C(heap))]
        if nm == 'free place':
            dn = [i for i in hc if len(i.ops) == 2 and same(c.val(i.ops[1], i.block), S('h'))]
            inc = [i for i, b, o in stores(E, c) if b == fo and i.block in f.loops[hd] and same(o, L.o('VlKDForest', 'splitHeapNumNodes'))]
            T('candidates grow', len(inc) == 1 and must_in(c, E, hd, inc[0].block) and same(c.val(inc[0].ops[0], inc[0].block), add(S('h'), C(1))), inc[0] if inc else i, 'the number of candidates does not grow by one')
            T('candidates ordered', len(dn) == 1 and must_in(c, E, hd, dn[0].block) and all(kern.before(E, x[0], dn[0]) for x in got.values()), i, 'a new candidate is not moved to its place')
        else:
            up = [i for i in hc if len(i.ops) == 3 and same(c.val(i.ops[1], i.block), add(S('h'), C(1))) and not c.val(i.ops[2], i.block)]
            T('candidates reordered', len(up) == 1 and must_in(c, E, hd, up[0].block) and all(kern.before(E, x[0], up[0]) for x in got.values()), i, 'the candidates are not reordered after a replacement')


def must_in(c, E, h, b):
    return c.each(b)


def threshold(rep, T, E, f, L, t, rec, st, nodes, at, fld, di, q, base, hn, hs, sd, heap, fo):
    """the points of the two parts lie on their side of the threshold, and both parts are smaller than the node"""
    B, N, b = A('arg', 3), A('arg', 4), S('b')
    meth = L.f(fo, 'VlKDForest', 'thresholdingMethod')
    W, vo = L.size['VlKDTreeDataIndexEntry'], L.o('VlKDTreeDataIndexEntry', 'value')
    sa = one(E.at(sd.ops[0], sd.block))
    mean = None
    if sa[0] == 'ld' and sa[1] == fo:
        mean = ld(fo, add(thaw(sa[2]), C(L.off['VlKDTreeSplitDimension', 'mean'] - L.off['VlKDTreeSplitDimension', 'dimension'])))
    ths = [i for i, bb, o in st if bb == nodes and same(o, at['splitThreshold'])]
    scan = [h for h in f.loops if kern.before(E, q, f.blocks[h][-1]) and any(i.op == 'load' and safe(E, i.ops[0], i) == di for x in f.loops[h] for i in f.blocks[x])]
    cases = []
    for par in (0, 1):
        half = add(S('j'), C(1))
        n = add(scale(half, 2), C(par))
        cases.append(('median', 'an even number' if not par else 'an odd number', n, {}, half if not par else add(half, C(1)), None))
        if len(scan) == 1:
            ex = ('exit', scan[0])
            cases.append(('mean', 'no point below', n, {ex: {}}, half if not par else add(half, C(1)), None))
            cases.append(('mean', 'no point below, first point of the data', n, {ex: {}, ('arg', 3): {}, ('arg', 4): n}, half if not par else add(half, C(1)), None))
            cases.append(('mean', 'all points below', n, {ex: n}, half if not par else add(half, C(1)), None))
    if len(scan) == 1:
        n = add(add(S('i'), S('j')), C(2))
        cases.append(('mean', 'points on both sides', n, {('exit', scan[0]): add(S('i'), C(1))}, add(S('i'), C(1)), mean))
        cases.append(('mean', 'one point below', add(S('j'), C(2)), {('exit', scan[0]): C(1)}, C(1), mean))
        cases.append(('mean', 'one point above', add(S('j'), C(2)), {('exit', scan[0]): add(S('j'), C(1))}, add(S('j'), C(1)), mean))
    else:
        T.skip('mean', '%d loops' % len(scan))
    for me, nm, n, ef, cut, thr in cases:
        facts = {**base, one(meth): C(L.VL_KDTREE_MEDIAN if me == 'median' else L.VL_KDTREE_MEAN), ('arg', 3): b, ('arg', 4): add(b, n), one(hn): add(S('h'), C(1)), one(hs): add(add(S('h'), C(2)), S('k')), **ef}
        c = Case(E, facts)
        b0 = facts['arg', 3]
        rep.count('cases')
        what = '%s, %s' % (me, nm)
        op = [x for x in c.open if not any(x[0] in f.loops[h] for h in f.loops)]
        if op:
            T.skip(what, 'condition at %s' % f.blocks[op[0][0]][-1].loc())
            continue
        ends = {}
        for r in rec:
            ends[r.id] = (sub(c.val(r.ops[3], r.block), b0), sub(c.val(r.ops[4], r.block), b0))
        v = list(ends.values())
        lo = [e for e in v if not e[0]]
        hi = [e for e in v if same(e[1], n)]
        ok = len(lo) == len(hi) == 1 and lo[0] is not hi[0] and same(lo[0][1], hi[0][0])
        T('parts (%s)' % what, ok, rec[0], 'the parts of a node are [%s) of %s points (%s)' % ('), ['.join('%s, %s' % (alg.show(x)[:60], alg.show(y)[:60]) for x, y in v), alg.show(n), what))
        if not ok:
            continue
        k = lo[0][1]
        d = sign(k), sign(sub(n, k))
        if None in d:
            T.skip('both parts (%s)' % what, alg.show(k)[:80])
            continue
        T('both parts (%s)' % what, d == ('+', '+') or (sign(sub(k, C(1))) in ('0', '0+', '+') and sign(sub(sub(n, k), C(1))) in ('0', '0+', '+')), rec[0], 'a part of a node is empty: %s of %s points (%s)' % (alg.show(k)[:80], alg.show(n), what))
        live = [i for i in ths if c.may(i.block)]
        last = [i for i in live if c.must(i.block) and all(x is i or kern.before(E, x, i) for x in live)]
        if not last:
            T('threshold (%s)' % what, bool(live), rec[0], 'a node is split without a threshold') if not live else T.skip('threshold')
            continue
        i = last[0]
        v = c.val(i.ops[0], i.block)
        v1, v2 = (c.ev(ld(di, add(scale(add(b0, z), W), vo))) for z in (sub(k, C(1)), k))
        if thr is not None:
            good = same(v, c.ev(thr)) and same(k, cut)
        else:
            good = any(same(v, z) for z in (v1, v2, scale(add(v1, v2), alg.Fraction(1, 2))))
        if not good and not any(a[0] == 'ld' and a[1] in (di, fo) for a in scev.deep_atoms(v)) and v:
            T.skip('threshold (%s)' % what, alg.show(v)[:100])
        else:
            T('threshold (%s)' % what, good, i, 'the threshold does not separate the two parts: %s points below %s (%s)' % (alg.show(k)[:60], alg.show(v)[:150], what))
            for l in slice_loads(f, i.ops[0]):
                if safe(E, l.ops[0], l) == di:
                    T('threshold of the sorted points', kern.before(E, q, l), l, 'the threshold is taken before the points are sorted')
    if len(scan) == 1 and mean is not None:
        h = scan[0]
        it = A('it', h)
        val = ld(di, add(scale(add(b, it), W), vo))
        pre = [i for i in ths if same(E.at(i.ops[0], i.block), mean)]
        tf = {one(fld['splitThreshold']): S('X'), one(mean): S('X')}
        nn = {('arg', 3): b, ('arg', 4): add(add(b, it), add(C(1), S('k'))), **base}
        cell = one(val)
        for nm, x, go in (('below', sub(S('X'), S('P')), True), ('above', add(S('X'), S('P')), False)):
            d = {**nn, **tf}
            c = Case(E, lambda a, d=d, x=x: d[a] if a in d else x if a[0] == 'ld' and a[1] == di and same(scev.mapatoms(thaw(a[2]), d.get), add(scale(add(b, it), W), vo)) else None, start=h)
            again = ('again', h) in sum(c.succ.values(), [])
            out = any(y not in f.loops[h] for y in c.succ)
            if again and out:
                T.skip('mean: a point %s' % nm, 'condition')
                continue
            T('mean: a point %s the threshold' % nm, again == go, f.blocks[h][-1], 'a point %s the mean is put into the other part' % nm)
        c = Case(E, {**base, **tf, ('arg', 3): b, ('arg', 4): add(b, it)}, start=h)
        T('mean: end of the points', ('again', h) not in sum(c.succ.values(), []), f.blocks[h][-1], 'the search for the split position goes beyond the points of the node')


def run():
    rep = report.Report('C40', RULE, 'closed forms of one step under a finite case partition (conditional constant propagation)')
    m = ir.libi()
    L = Layout()
    if not L.ok:
        rep.skip('structure', 'vl/kdtree.h', 'constants')
        return rep
    guard(rep, bounds, m, L)
    for t in 'fd':
        for dist in ('L1', 'L2'):
            guard(rep, query, m, L, t, dist)
        guard(rep, with_array, m, L, t)
        guard(rep, build_node, m, L, t)
    for g in (searcher_query, front, build_all, new_searcher, new_forest):
        guard(rep, g, m, L)
    return rep
