"""C37: k-means quantisation, refinement and repetition follow their definitions for every data set, dimension and number of clusters."""
import ir, alg, report, scev, kern, build, c36
from alg import C, A, add, sub, mul, scale, NOT, eq0, gt0, ge0, sel, fn, same, inv, freeze, thaw, maxv, minv
from kern import I, ld, Spec, SUM
from fractions import Fraction as Q

RULE = ('closed forms (address, value, iteration space, condition) of every store into assignments, distances, cluster masses, centers and distance bounds; '
        'search loops that select the nearest center; stopping condition and returned energy; conditions under which a distance computation is skipped')


DEBUG = False
SHORT = False


def atom(p):
    m = next(iter(p), ())
    return m[0][0] if m else ('',)


class Fun:
    """a function under the assumptions `facts`: its live stores and calls"""
    def __init__(self, f, facts, memo={}):
        self.f, self.facts = f, facts
        if memo.get('f') is not f:
            memo.clear()
            memo.update(f=f, E=kern.forwarding(scev.Scev(f)))
        self.E = memo['E']
        self.live = {}
        self.stores, self.calls, self.lost = [], [], []
        for i in f.instrs:
            if i.op not in ('store', 'call', 'ret') or not self.alive(i.block):
                continue
            if i.op == 'call':
                if not (i.callee_name() or '').startswith(('llvm.dbg', 'llvm.lifetime')):
                    self.calls.append(i)
            elif i.op == 'store':
                try:
                    base, off = self.E.addr_at(i.ops[1], i.block)
                except alg.Unknown as e:
                    self.lost.append((i, str(e)))
                    continue
                s = kern.Store(i, base, off, None, None, None, None)
                self.stores.append(s)

    def alive(self, b):
        """is block b reached along edges whose condition is not excluded by the assumptions"""
        if not self.live:
            todo = [self.f.rpo()[0]]
            self.live[todo[0]] = True
            while todo:
                x = todo.pop()
                ss = self.f.succ[x]
                for s in ss:
                    if s not in self.live and (len(ss) == 1 or self.edge(x, s)):
                        self.live[s] = True
                        todo.append(s)
        return b in self.live

    def edge(self, x, s):
        try:
            return not same(c36.sub_facts(self.E.edge(x, s), self.facts), {})
        except alg.Unknown:
            return True

    def val(self, s):
        if s.val is None:
            s.val = self.E.at(s.ins.ops[0], s.ins.block)
        return s.val

    def ptr(self, o, b):
        """base and offset of a pointer operand, None when it has none"""
        try:
            return self.E.addr_at(o, b)
        except alg.Unknown:
            return None, None

    def into(self, base, H=None, start=None):
        """stores into a buffer inside loop H, chains and conditions relative to it"""
        out = []
        for s in self.stores:
            if s.base == base and (H is None or s.ins.block in self.f.loops[H]):
                out.append(self.relative(s, H, start))
        return out

    def relative(self, s, H=None, start=None):
        self.val(s)
        r = kern.Store(s.ins, s.base, c36.sub_facts(s.off, self.facts), c36.sub_facts(s.val, self.facts), None, None, None)
        ch = kern.chain_of(self.E, s.ins.block)
        if H is not None:
            ch = [(h, n) for h, n in ch if h != H and h in self.f.loops[H]]
        r.chain = ch
        r.when = c36.sub_facts(kern.when(self.E, s.ins.block, H if start is None else start), self.facts)
        return r

    def memsets(self, base, H=None):
        out = []
        for i in self.calls:
            if (i.callee_name() or '').startswith(('llvm.memset', 'memset')) and (H is None or i.block in self.f.loops[H]) and self.ptr(i.ops[0], i.block)[0] == base:
                out.append(i)
        return out


def dom(f, H, blocks):
    """nearest block of loop H that dominates all the blocks"""
    c = [b for b in f.loops[H] if all(f.dominates(b, x) for x in blocks)]
    return next((b for b in c if all(f.dominates(x, b) for x in c)), H)


def nonnull(p):
    """buffers exist"""
    return scev.mapatoms(p, lambda a: {} if a[0] == 'eq0' and len(thaw(a[1])) == 1 and atom(thaw(a[1]))[0] in ('base', 'callv') else None)


def redraw(p, n):
    """a random index below n is one symbol"""
    return scev.mapatoms(p, lambda a: I('r') if a[:2] == ('fn', 'urem') and len(a) == 4 and same(thaw(a[3]), n) else None)


def constants():
    return build.constants('vl/kmeans.h', ['VL_TYPE_FLOAT', 'VL_TYPE_DOUBLE', 'VlDistanceL1', 'VlDistanceL2', 'VlKMeansLloyd', 'VlKMeansElkan', 'VlKMeansANN', 'VlKMeansRandomSelection', 'VlKMeansPlusPlus',
                                           'offsetof(VlKMeans,dataType)', 'offsetof(VlKMeans,dimension)', 'offsetof(VlKMeans,numCenters)', 'offsetof(VlKMeans,algorithm)', 'offsetof(VlKMeans,distance)',
                                           'offsetof(VlKMeans,minEnergyVariation)', 'offsetof(VlKMeans,maxNumIterations)', 'offsetof(VlKMeans,centers)', 'offsetof(VlKMeans,centerDistances)',
                                           'offsetof(VlKMeans,numRepetitions)', 'offsetof(VlKMeans,initialization)', 'offsetof(VlKMeans,energy)'])


class KM:
    def __init__(self):
        K = constants()
        self.ok = len(K) == 21
        if not self.ok:
            return
        self.K = K
        self.o = {k[len('offsetof(VlKMeans,'):-1]: v for k, v in K.items() if k.startswith('offsetof')}
        self.me = ('arg', 0)

    def fld(self, n):
        return ld(self.me, C(self.o[n]))

    def obj(self, n):
        return ('*', self.me, freeze(C(self.o[n])))

    def facts(self, t, algo=None):
        K = self.K
        out = {}
        for n in ('VL_TYPE_FLOAT', 'VL_TYPE_DOUBLE'):
            out[atom(eq0(sub(self.fld('dataType'), C(K[n]))))] = C(1) if (n == 'VL_TYPE_FLOAT') == (t == 'f') else {}
        if algo:
            for n in ('VlKMeansLloyd', 'VlKMeansElkan', 'VlKMeansANN'):
                out[atom(eq0(sub(self.fld('algorithm'), C(K[n]))))] = C(1) if n == algo else {}
        return out


def isinf(p):
    return len(p) == 1 and any('inf' in str(a) for a in alg.atoms(p)) and list(p.values())[0] == 1


def nearest(rep, kd, name, F, k, X, cen, N, D, NC, sz, outA, outD, H, t, dist, facts):
    """the assignment step:  outA[x] = argmin_c dist(x, c), outD[x] = min, ties to the first center"""
    f, E = F.f, F.E
    loc = f.instrs[0].loc()
    ev = 'vl_eval_vector_comparison_on_all_pairs_' + t
    cs = [i for i in F.calls if i.callee_name() == ev and (H is None or i.block in f.loops[H]) and not (same(E.at(i.ops[5], i.block), {}))]
    st = F.into(outA, H) if outA else []
    if not st:
        rep.skip(kd, name, 'no assignment')
        return
    if not cs:
        rep.skip(kd, name, 'distances not computed by ' + ev)
        return
    c = cs[0]
    xs = [h for h, n in kern.chain_of(E, c.block) if H is None or (h != H and h in f.loops[H])]
    ok = len(cs) == 1 and len(xs) == 1 and E.exit_it(xs[0]) is not None and same(E.exit_it(xs[0]), N)
    if len(xs) != 1:
        rep.skip(kd, name, 'shape of the loop over the data')
        return
    x = A('it', xs[0])
    buf = F.ptr(c.ops[0], c.block)
    dat = F.ptr(c.ops[2], c.block)
    cn = F.ptr(c.ops[4], c.block)
    want = [same(E.at(c.ops[1], c.block), D), dat[0] == X and same(dat[1], scale(mul(x, D), sz)), same(E.at(c.ops[3], c.block), C(1)), cn[0] == cen and same(cn[1], {}), same(E.at(c.ops[5], c.block), NC),
            same(c36.sub_facts(kern.when(E, c.block, H), facts), C(1)) if H is None else True]
    d = f.vals.get(c.ops[6]) if isinstance(c.ops[6], int) else None
    want.append(d is not None and d.op == 'call' and (d.callee_name() or '') == 'vl_get_vector_comparison_function_' + t and same(E.at(d.ops[0], d.block), dist))
    rep.check(kd, name + ' distances to the centers', ok and all(want), c.loc(), '%s: the distances of every point to all the centers are not computed (%s)' % (
        name, ', '.join(w for w, o in zip(('dimension', 'point', 'number of points', 'centers', 'number of centers', 'condition', 'distance function'), want) if not o) or 'range of the loop'), key=name + ':distances')
    if buf[0] is None:
        rep.skip(kd, name, 'buffer of the distances')
        return
    # the search
    B = None
    if len(st) == 1:
        s = st[0]
        if len(s.chain) == 2:
            ph = [a for a in scev.deep_atoms(s.when) if a[0] == 'v']
            B = kern.best(E, ph[0][1]) if len(ph) == 1 and isinstance(ph[0][1], int) else None
            h = s.chain[1][0]
            inl = True
            if s.chain[0][0] != xs[0]:
                B = None
        elif len(s.chain) == 1:
            a = alg.atoms(s.val)
            B = kern.best(E, atom(s.val)[1]) if len(s.val) == 1 and atom(s.val)[0] == 'v' else None
            inl = False
    if B is None or B.frozen:
        rep.skip(kd, name + ' search', 'shape of the search: %s' % st[0].show()[:200])
        return
    h = B.h
    cand = ld(buf[0], add(buf[1], scale(A('it', h), sz)))
    g = [same(B.newval, cand), B.kind == 'min', B.strict, isinf(B.val0), B.n is not None and same(B.n, NC), f.dominates(c.block, h), c.block not in f.loops[h]]
    lab = ['candidate', 'smallest', 'first of equal centers', 'initial value', 'number of centers', 'order', 'order']
    if inl:
        g += [same(s.val, A('it', h)), same(s.when, gt0(sub(A('v', B.valphi), cand))) or any(same(s.when, mul(w, gt0(sub(A('v', B.valphi), cand)))) for w in [c36.sub_facts(kern.when(E, xs[0], H), facts)])]
        lab += ['index', 'index is stored']
    else:
        g += [B.newidx is not None and same(B.newidx, A('it', h)), same(s.when, c36.sub_facts(kern.when(E, xs[0], H), facts))]
        lab += ['index', 'index is stored']
    g += [same(s.off, scale(x, 4))]
    lab += ['address']
    rep.check(kd, name + ' nearest center', all(g), s.ins.loc(), '%s: a point is not assigned to its nearest center (%s)' % (name, ', '.join(sorted({l for l, o in zip(lab, g) if not o}))), key=name + ':nearest')
    ds = F.into(outD, H)
    if not ds:
        rep.bad(kd, name + ' distance', loc, '%s: the distance to the nearest center is not stored' % name, key=name + ':distance')
        return
    if len(ds) != 1 or len(ds[0].chain) != 1:
        rep.skip(kd, name + ' distance', 'shape')
        return
    s = ds[0]
    w = c36.sub_facts(kern.when(E, xs[0], H), facts)
    s.when = nonnull(s.when)
    o = same(s.off, scale(x, sz)) and s.chain[0][0] == xs[0] and same(s.val, A('v', B.valphi)) and same(s.when, nonnull(w))
    rep.check(kd, name + ' distance', o, s.ins.loc(), '%s: the distance stored is not that of the nearest center: %s, when %s' % (name, s.show()[:200], alg.show(s.when)[:150]), key=name + ':distance')


def quantize(rep, m, k, t):
    kd = 'quantisation'
    name = 'vl_kmeans_quantize (%s)' % ('float' if t == 'f' else 'double')
    f = m.F('vl_kmeans_quantize')
    if f is None or len(f.args) != 5:
        rep.skip(kd, name, 'not defined')
        return
    try:
        facts = k.facts(t)
        F = Fun(f, facts)
        nearest(rep, kd, name, F, k, ('arg', 3), k.obj('centers'), A('arg', 4), k.fld('dimension'), k.fld('numCenters'), 4 if t == 'f' else 8, ('arg', 1), ('arg', 2), None, t, k.fld('distance'), facts)
        rep.count('stores', len(F.stores))
    except (alg.Unknown, KeyError, StopIteration, IndexError) as e:
        if DEBUG:
            raise
        rep.skip(kd, name, str(e))


# -- refinement ---------------------------------------------------------------------

def refine(rep, m, k, t, algo):
    kd = 'refinement'
    name = '%s refinement (%s)' % (algo[len('VlKMeans'):], 'float' if t == 'f' else 'double')
    f = m.F('vl_kmeans_refine_centers')
    if f is None or len(f.args) != 3:
        rep.skip(kd, name, 'not defined')
        return
    sz = 4 if t == 'f' else 8
    try:
        facts = k.facts(t, algo)
        F = Fun(f, facts)
        E = F.E
        N, D, NC = A('arg', 2), k.fld('dimension'), k.fld('numCenters')
        data = ('arg', 1)
        cen = k.obj('centers')
        tops = [h for h in f.loops if not any(h in f.loops[g] and g != h for g in f.loops) and E.exit_it(h) is None and F.alive(h)]
        # masses:  M[A[x]] += 1
        found = []
        for s in F.stores:
            if len(s.off) == 1:
                a = atom(s.off)
                if a[0] == 'ld' and thaw(a[2]) and same(s.off, scale({((a, 1),): Q(1)}, 8)) and isinstance(s.ins.ops[0], int):
                    H = [h for h in tops if s.ins.block in f.loops[h]]
                    if H and a[1][0] in ('call', 'pv') and same(F.val(s), add(ld(s.base, s.off), C(1))) and len(thaw(a[2])) == 1 and atom(thaw(a[2]))[0] == 'it':
                        found.append((s, a[1], H[0]))
        if len({(s.base, b, H) for s, b, H in found}) != 1:
            rep.skip(kd, name, 'cluster masses not identified (%d)' % len(found))
            return
        ms, asg, H = found[0]
        M = ms.base
        bases = {s.base for s in F.stores if s.ins.block in f.loops[H]}
        new = cen
        if algo == 'VlKMeansElkan':
            new = next((b for b in bases if b[0] == 'pv' and any(s.base == b and data in [a[1] for a in scev.deep_atoms(F.val(s)) if a[0] == 'ld'] for s in F.stores if s.ins.block in f.loops[H])), None)
            if new is None:
                rep.skip(kd, name, 'buffer of the new centers')
                return
        up = [s for s in F.stores if s.base in (new, M) and s.ins.block in f.loops[H]]
        ms_ = F.memsets(M, H)
        T = dom(f, H, [s.ins.block for s in up] + [i.block for i in ms_])
        update(rep, kd, name, F, k, H, T, new, M, asg, data, N, D, NC, sz)
        if algo == 'VlKMeansLloyd':
            dist = None
            for i in F.calls:
                pass
            E0, prev, ini = stop(rep, kd, name, F, k, H, T, N, sz)
            if E0 is not None:
                nearest(rep, kd, name, F, k, data, cen, N, D, NC, sz, asg, E0, H, t, k.fld('distance'), facts)
        elif algo == 'VlKMeansANN':
            E0, prev, ini = stop(rep, kd, name, F, k, H, T, N, sz)
            if E0 is not None:
                approximate(rep, kd, name, F, k, H, data, N, D, NC, sz, asg, E0, cen, t, facts)
        else:
            elkan(rep, kd, name, F, k, H, T, new, asg, data, N, D, NC, sz, t, facts)
        rep.count('stores', len(F.stores))
    except (alg.Unknown, KeyError, StopIteration, IndexError) as e:
        if DEBUG:
            raise
        rep.skip(kd, name, str(e))


def update(rep, kd, name, F, k, H, T, new, M, asg, data, N, D, NC, sz):
    """centers from assignments"""
    E, f = F.E, F.f
    K = k.K
    x, c, d = I('x'), I('c'), I('d')
    L1 = eq0(sub(k.fld('distance'), C(K['VlDistanceL1'])))
    L2 = eq0(sub(k.fld('distance'), C(K['VlDistanceL2'])))
    a1, a2 = atom(L1), atom(L2)
    cl, st = clears(F.into(M, H, T), scale(NC, 8), 8)
    ax = ld(asg, scale(x, 4))
    facts = {}
    c36.passes(rep, kd, name + ' cluster masses', f, E, st, [('count of the points', [[(Spec('', [('x', N)], M, scale(ax, 8), add(ld(M, scale(ax, 8)), C(1)), facts=facts), C(1))]])], VOC)
    zero(rep, kd, name + ' cluster masses', F, H, T, M, scale(NC, 8), st, C(1), cl=cl)
    for dist, nm, mine, other in (('L2', 'mean', a2, a1), ('L1', 'median', a1, a2)):
        fc = {mine: C(1), other: {}}
        al = [s for s in F.into(new, H, T)]
        ss = []
        for s in al:
            s.when = c36.sub_facts(s.when, fc)
            s.val = redraw(s.val, N)
            if not same(s.when, {}):
                ss.append(s)
        cl, ss = clears(ss, scale(mul(NC, D), sz), sz) if dist == 'L2' else ([], ss)
        nn = '%s %s' % (name, nm)
        cell = scale(add(mul(c, D), d), sz)
        mass = ld(M, scale(c, 8))
        empty = [eq0(mass), NOT(gt0(mass))]
        some = [NOT(eq0(mass)), gt0(mass)]
        restart = ('re-seeding of empty clusters', [[(Spec('', [('c', NC), ('d', D)], new, cell, ld(data, scale(add(mul(I('r'), D), d), sz)), facts=fc), empty)]])
        if dist == 'L2':
            at = scale(add(mul(ax, D), d), sz)
            c36.passes(rep, kd, nn, f, E, ss, [
                ('sum of the points', [[(Spec('', [('x', N), ('d', D)], new, at, add(ld(new, at), ld(data, scale(add(mul(x, D), d), sz))), facts=fc), C(1))]]),
                ('division by the mass', [[(Spec('', [('c', NC), ('d', D)], new, cell, mul(ld(new, cell), inv(mass)), facts=fc), some)]]),
                restart + (['sum of the points'],)], VOC)
            zero(rep, kd, nn, F, H, T, new, scale(mul(NC, D), sz), [s for s in ss if len(s.chain) == 2], C(1), fc, cl=cl)
        else:
            ps = [s for s in ss if s.off and any(a[0] == 'ld' and a[1] == asg for a in alg.atoms(s.off))]
            perm = next((a[1] for s in ps for a in scev.deep_atoms(s.off) if a[0] == 'ld' and a[1] not in (asg, new, k.me)), None)
            seen = next((a[1] for s in ps for a in scev.deep_atoms(s.when) if a[0] == 'ld' and a[1] not in (asg, new, M, perm, k.me)), None)
            if perm is None or seen is None:
                rep.skip(kd, nn, 'shape of the median')
                continue
            p = ld(perm, scale(add(mul(N, d), x), 4))
            ap = ld(asg, scale(p, 4))
            at = scale(add(mul(ap, D), d), sz)
            sp, mp = ld(seen, scale(ap, 8)), ld(M, scale(ap, 8))
            half = gt0(sub(mp, scale(sp, 2)))
            c36.passes(rep, kd, nn, f, E, ss, [
                ('median of the points', [[(Spec('', [('d', D), ('x', N)], new, at, ld(data, scale(add(mul(p, D), d), sz)), facts=fc, rev=False), HALF(mp, sp))]]),
                restart + ([],)], VOC)
            s2 = F.into(seen, H, T)
            for s in s2:
                s.when = c36.sub_facts(s.when, fc)
            s2 = [s for s in s2 if not same(s.when, {})]
            cl, s2 = clears(s2, scale(NC, 8), 8, 1)
            c36.passes(rep, kd, nn, f, E, s2, [('points seen so far', [[(Spec('', [('d', D), ('x', N)], seen, scale(ap, 8), add(sp, C(1)), facts=fc), C(1))]])], VOC)
            zero(rep, kd, nn + ' points seen', F, H, T, seen, scale(NC, 8), s2, C(1), fc, [('d', D)], cl=cl)
            for s in ps:
                for q in s2:
                    o = kern.before(E, s.ins, q.ins) and s.ins.block in inner(f, q.ins.block)
                    rep.check(kd, nn + ' point is counted after its use', o, q.ins.loc(), '%s: a point is counted before it is compared with half of the mass' % name, key=nn + ':order:seen')
            order(rep, kd, nn, F, perm, data, N, D, sz, fc)


VOC = kern.KNOWN | {'pv'}


def HALF(m, s):
    """fewer than half of the points seen (or at most half: the upper median of an even number)"""
    return [gt0(sub(m, scale(s, 2))), NOT(ge0(sub(scale(s, 2), m))), ge0(sub(m, scale(s, 2)))]


def inner(f, b):
    hs = [h for h in f.loops if b in f.loops[h]]
    return f.loops[min(hs, key=lambda h: len(f.loops[h]))] if hs else set(range(len(f.blocks)))


def clears(st, size, es, lead=0):
    """the stores that set all of a buffer to zero by a loop (inside `lead` other loops), and the others"""
    out, rest = [], []
    for s in st:
        ch = s.chain[lead:]
        ok = same(s.val, {}) and len(ch) in (1, 2) and all(n is not None for _, n in ch)
        if ok and len(ch) == 1:
            ok = same(s.off, scale(A('it', ch[0][0]), es)) and same(scale(ch[0][1], es), size)
        elif ok:
            (h, n), (g, m) = ch
            ok = same(scale(mul(n, m), es), size) and (same(s.off, scale(add(mul(A('it', h), m), A('it', g)), es)) or same(s.off, scale(add(mul(A('it', g), n), A('it', h)), es)))
        (out if ok else rest).append(s)
    return out, rest


def zero(rep, kd, nm, F, H, T, base, size, st, w, fc=None, loops=(), cl=()):
    """memset to zero of `size` bytes (or a loop, cl) before the stores st"""
    E, f = F.E, F.f
    ok = False
    ms = F.memsets(base, H)
    zs = [s for s in st if same(s.val, {})]
    why = 'not done'
    for i in [x for x in ms] + [s.ins for s in cl]:
        g = c36.sub_facts(c36.sub_facts(kern.when(E, i.block, T), F.facts), fc or {})
        if same(g, {}):
            continue
        ch = [n for h, n in kern.chain_of(E, i.block) if h != H and h in f.loops[H]]
        if i.op == 'store':
            full, ch = True, ch[:len(loops)]
        else:
            full = same(F.ptr(i.ops[0], i.block)[1], {}) and ir.const_int(i.ops[1]) == 0 and same(E.at(i.ops[2], i.block), size)
        if full and same(g, w) and all(kern.before(E, i, s.ins) for s in st) and len(ch) == len(loops) and all(n is not None and same(n, l[1]) for n, l in zip(ch, loops)):
            ok = True
        else:
            why = '%s bytes, when %s' % (alg.show(size if i.op == 'store' else E.at(i.ops[2], i.block)), alg.show(g)[:100])
    if not ok and zs:
        rep.skip(kd, nm + ' start from zero', 'shape')
        return
    rep.check(kd, nm + ' start from zero', ok, (ms[0].loc() if ms else st[0].ins.loc() if st else f.instrs[0].loc()), '%s are not reset before they are accumulated (%s)' % (nm, why), key=nm + ':zero')


def order(rep, kd, nn, F, perm, data, N, D, sz, fc):
    """the permutations of every dimension start from the identity and are sorted by that dimension"""
    E, f = F.E, F.f
    cs = [i for i in F.calls if (i.callee_name() or '').endswith('_qsort_sort_recursive')]
    if len(cs) != 1:
        rep.skip(kd, nn + ' sorting', '%d calls' % len(cs))
        return
    i = cs[0]
    base, off = F.ptr(i.ops[0], i.block)
    hs = [h for h in f.loops if i.block in f.loops[h]]
    if base is None or base[0] != 'alloca' or off or len(hs) != 1:
        rep.skip(kd, nn + ' sorting', 'shape of the call')
        return
    H = hs[0]
    d = A('it', H)
    st = [s for s in F.into(base) if len(s.chain) == 1 and s.chain[0][0] == H]
    ptr = {}
    for s in st:
        b = [a for a in alg.atoms(s.val) if a[0] == 'base']
        ptr[b[0][1] if len(b) == 1 else None] = (sub(s.val, A(*b[0])) if len(b) == 1 else s.val, s)
    pp = [(b, o) for b, (o, s) in ptr.items() if b is not None and b != ('arg', 1)]
    if len(pp) != 1 or set(ptr) != {None, ('arg', 1), pp[0][0]}:
        rep.skip(kd, nn + ' sorting', 'shape of the array')
        return
    pb, po = pp[0]
    n = E.exit_it(H)
    a = [E.at(o, i.block) for o in i.ops[1:3]]
    ok = same(po, scale(mul(N, d), 4)) and same(ptr[('arg', 1)][0], scale(d, sz)) and same(ptr[None][0], D) and all(kern.before(E, s.ins, i) for _, s in ptr.values())
    ok = ok and n is not None and same(n, D) and same(a[0], {}) and same(a[1], sub(N, C(1)))
    rep.check(kd, nn + ' sorting', ok, i.loc(), '%s: the points are not sorted by every dimension' % nn, key=nn + ':sort')
    fill = [F.relative(s) for s in F.stores if s.ins.block in f.loops[H] and s.base[0] in ('*', 'call', 'v')]
    fill = [s for s in fill if len(s.chain) == 2 and s.chain[0][0] == H]
    if len(fill) != 1 or fill[0].chain[1][1] is None:
        rep.skip(kd, nn + ' identity', '%d stores' % len(fill))
        return
    s = fill[0]
    x = A('it', s.chain[1][0])
    at_ = scale(x, 4) if s.base[0] == '*' else add(scale(x, 4), po)
    ok = same(s.val, x) and same(s.off, at_) and same(s.chain[1][1], N) and kern.before(E, s.ins, i)
    rep.check(kd, nn + ' identity', ok, s.ins.loc(), '%s: the permutation that is sorted is not that of all points' % nn, key=nn + ':identity')


def stop(rep, kd, name, F, k, H, T, N, sz):
    """energy and stopping condition; returns the buffer of the distances"""
    E, f = F.E, F.f
    none = (None, None, None)
    # energy = sum of a buffer over the data
    ph = [p for p in f.blocks[H] if p.op == 'phi' and not E.close(p)]
    prev = ini = buf = en = None
    for p in ph:
        i = [(o, q) for o, q in p.inc if q in f.loops[H]]
        o = [(o, q) for o, q in p.inc if q not in f.loops[H]]
        if len(i) != 1 or len(o) != 1 or p.ty not in ('double', 'float'):
            continue
        v = E.at(*i[0])
        if len(v) == 1 and atom(v)[0] == 'sum':
            lds = {a[1] for a in scev.deep_atoms(v) if a[0] == 'ld' and a[1] != ('arg', 0)}
            if len(lds) == 1:
                b = next(iter(lds))
                if same(v, SUM(lambda q: ld(b, scale(q, sz)), N)):
                    prev, buf, en = p, b, v
                    rep.check(kd, name + ' energy before the first iteration', isinf(E.at(*o[0])), p.loc() or f.instrs[0].loc(), '%s: the previous energy starts from %s' % (name, alg.show(E.at(*o[0]))), key=name + ':energy0')
    if prev is None:
        rep.skip(kd, name + ' energy', 'shape of the energy')
        return none
    rep.ok(kd, name + ' energy')
    it = A('it', H)
    go = c36.sub_facts(E.reach(H, T)[T], F.facts)
    for p in ph:
        if p is prev or p.ty != 'double':
            continue
        i = [(o, q) for o, q in p.inc if q in f.loops[H]]
        v = c36.sub_facts(E.at(*i[0]), F.facts)
        P = A('v', p.id)
        if any(x in scev.deep_atoms(go) for x in alg.atoms(P)):
            ini = p
            rep.check(kd, name + ' initial energy', cases(mul(go, v), mul(go, sel(eq0(it), en, P))), f.instrs[0].loc(), '%s: the initial energy is %s' % (name, alg.show(v)[:200]), key=name + ':initial')
    if ini is None:
        rep.skip(kd, name + ' stopping rule', 'initial energy')
        return buf, prev, ini
    mx, mn = k.fld('maxNumIterations'), k.fld('minEnergyVariation')
    pv, iv = A('v', prev.id), A('v', ini.id)
    more = NOT(ge0(sub(it, mx)))
    diff = NOT(eq0(sub(en, pv)))
    rate = mul(sub(pv, en), inv(sub(iv, en)))
    c2 = ge0(sub(rate, mn))
    specs = [mul(mul(more, diff), sub(C(1), mul(nz, NOT(c2)))) for nz in (NOT(eq0(it)), gt0(it))]
    ok = any(same(go, s) for s in specs)
    if not ok:
        # compare case by case
        ok = cases(go, specs[0])
    late = [(x, y) for x, y in E.exits(H) if x == T or f.dominates(T, x)]
    rep.check(kd, name + ' single stopping rule', not late, f.blocks[late[0][0]][-1].loc() if late else f.instrs[0].loc(), '%s: stops after the centers are updated' % name, key=name + ':late')
    rep.check(kd, name + ' stopping rule', ok, f.blocks[T][0].loc(), '%s: goes on when %s' % (name, alg.show(go)[:300]), key=name + ':stop')
    # nothing but the assignment changes inside; the energy returned
    rets = returned(F, k)
    if rets is None:
        rep.skip(kd, name + ' returned energy', 'shape')
    else:
        o = all(same(v, en) for v in rets) and rets
        rep.check(kd, name + ' returned energy', bool(o), f.instrs[-1].loc(), '%s: returns %s' % (name, '; '.join(alg.show(v)[:100] for v in rets)), key=name + ':return')
    return buf, prev, ini


def cases(a, b, depth=0):
    """two conditions with the same value for every truth value of their atoms"""
    at = sorted({x for p in (a, b) for x in alg.atoms(p) if x[0] in ('eq0', 'gt0')}, key=str)
    if not at or depth > 8:
        return same(a, b)
    x = at[0]
    for v in (C(1), {}):
        if not cases(scev.mapatoms(a, lambda z: v if z == x else None), scev.mapatoms(b, lambda z: v if z == x else None), depth + 1):
            return False
    return True


def returned(F, k):
    """values of the energy under the assumptions"""
    f, E = F.f, F.E
    st = [s for s in F.stores if s.base == ('arg', 0) and same(s.off, C(k.o['energy']))]
    if not st:
        return None
    out, seen = [], set()

    def go(o, b):
        v = f.vals.get(o) if isinstance(o, int) else None
        if v is not None and v.op == 'phi' and v.block not in f.loops:
            for w, q in v.inc:
                if F.alive(q) and (len(f.succ[q]) == 1 or F.edge(q, v.block)) and (w, q) not in seen:
                    seen.add((w, q))
                    go(w, q)
            return
        out.append(E.at(o, b))
    for s in st:
        go(s.ins.ops[0], s.ins.block)
    return out


def called(F, D, t):
    """value of a call of the comparison function: a function of the two points"""
    f, E = F.f, F.E
    memo = {}

    def g(a):
        if a[0] == 'callv' and isinstance(a[1], int) and a[2] in ('?', None):
            if a not in memo:
                memo[a] = None
                i = f.vals[a[1]]
                d = f.vals.get(i.callee) if isinstance(i.callee, int) else None
                if len(i.ops) >= 3 and d is not None and d.op == 'call' and d.callee_name() == 'vl_get_vector_comparison_function_' + t and same(E.at(i.ops[0], i.block), D):
                    try:
                        (b1, o1), (b2, o2) = E.addr_at(i.ops[1], i.block), E.addr_at(i.ops[2], i.block)
                        memo[a] = fn('dist', add(A('base', b1), o1), add(A('base', b2), o2))
                    except alg.Unknown:
                        pass
            return memo[a]
    return g


def at(b, off):
    return add(A('base', b), off)


def resolve(p, g):
    return scev.mapatoms(p, g)


def approximate(rep, kd, name, F, k, H, data, N, D, NC, sz, asg, dis, cen, t, facts, upd=None):
    """assignment to the neighbour found by the forest; in later passes only when it is closer than the present center"""
    f, E = F.f, F.E
    qs = [i for i in F.calls if i.callee_name() == 'vl_kdforestsearcher_query' and (H is None or i.block in f.loops[H])]
    if len(qs) != 1:
        rep.skip(kd, name, 'query of the forest')
        return
    q = qs[0]
    xs = [h for h, n in kern.chain_of(E, q.block) if H is None or (h != H and h in f.loops[H])]
    if len(xs) != 1:
        rep.skip(kd, name, 'loop over the data')
        return
    X = xs[0]
    x = A('it', X)
    nb, no = F.ptr(q.ops[1], q.block)
    p = F.ptr(q.ops[3], q.block)
    fo = None
    d = f.vals.get(q.ops[0]) if isinstance(q.ops[0], int) else None
    if d is not None and d.op == 'call' and d.callee_name() == 'vl_kdforest_new_searcher':
        fo = d.ops[0]
    n = E.exit_it(X)
    rep.check(kd, name + ' query', n is not None and same(n, N) and p[0] == data and same(p[1], scale(mul(x, D), sz)) and same(E.at(q.ops[2], q.block), C(1)), q.loc(), '%s: the forest is not asked for the neighbour of every point' % name, key=name + ':query')
    bs = [i for i in F.calls if i.callee_name() == 'vl_kdforest_build' and i.ops[0] == fo and fo is not None]
    if fo is None or len(bs) != 1:
        rep.skip(kd, name, 'forest')
        return
    b = bs[0]
    w = f.vals.get(fo) if isinstance(fo, int) else None
    mk = w is not None and w.op == 'call' and w.callee_name() == 'vl_kdforest_new' and all(same(E.at(o, w.block), k.fld(z)) for o, z in zip((w.ops[0], w.ops[1], w.ops[3]), ('dataType', 'dimension', 'distance')))
    bc = F.ptr(b.ops[2], b.block)
    rep.check(kd, name + ' forest', mk and same(E.at(b.ops[1], b.block), NC) and bc[0] == cen and same(bc[1], {}) and kern.before(E, b, q) and (H is None or b.block in f.loops[H]), b.loc(),
              '%s: the forest is not built on the present centers' % name, key=name + ':forest')
    g = called(F, D, t)
    cmt = [a for a in F.calls if a.callee_name() == 'vl_kdforest_set_max_num_comparisons' and a.ops[0] == fo]
    K2 = build.constants('vl/kmeans.h', ['offsetof(VlKMeans,maxNumComparisons)'])
    rep.check(kd, name + ' comparisons', len(cmt) == 1 and same(E.at(cmt[0].ops[1], cmt[0].block), ld(k.me, C(list(K2.values())[0]))), (cmt[0] if cmt else b).loc(), '%s: the bound on the number of comparisons is not that of the object' % name, key=name + ':comparisons')
    best, idx = ld(nb, add(no, C(0))), ld(nb, add(no, C(8)))
    own = fn('dist', at(data, scale(mul(x, D), sz)), at(cen, scale(mul(ld(asg, scale(x, 4)), D), sz)))
    later = gt0(A('it', H)) if H is not None else upd
    has = C(1) if H is not None else NOT(eq0(A('base', dis)))
    w0 = C(1)
    specs = {'assignment': (asg, 4, [(idx, None)]), 'distance': (dis, sz, [(best, None), (own, None)])}
    closer = gt0(sub(own, best))
    for nm, base, es, when_idx in (('assignment', asg, 4, None), ('distance', dis, sz, None)):
        st = F.into(base, H)
        good = True
        tot = {}
        for s in st:
            s.when = resolve(nonnull(s.when) if H is not None else s.when, g)
            v = resolve(s.val, g)
            if [h for h, _ in s.chain] != [X] or not same(s.off, scale(x, es)):
                good = False
            tot = add(tot, mul(s.when, v))
        old = ld(base, scale(x, es))
        fresh = NOT(later)
        if nm == 'assignment':
            take = sub(C(1), mul(has, mul(later, NOT(closer))))
            want = mul(take, idx)
        else:
            want = mul(has, add(mul(fresh, best), mul(later, sel(closer, best, own))))
        ws = {}
        for s in st:
            ws = add(ws, s.when)
        wwant = take if nm == 'assignment' else has
        rep.check(kd, '%s %s' % (name, nm), bool(st) and good and cases(tot, want) and cases(ws, wwant), (st[0].ins if st else q).loc(), '%s: the %s is not that of the closer of the present center and the neighbour found: %s' % (name, nm, alg.show(tot)[:250]), key='%s:%s' % (name, nm))
    for i in F.calls:
        if not i.callee_name() and (H is None or i.block in f.loops[H]):
            for s in F.into(asg, H):
                if s.ins.block in f.loops[X] and i.block in f.loops[X]:
                    rep.check(kd, name + ' present center', kern.before(E, i, s.ins), s.ins.loc(), '%s: the assignment is replaced before the distance to the present center is computed' % name, key=name + ':present')


def quantize_ann(rep, m, k, t):
    kd = 'quantisation'
    name = 'vl_kmeans_quantize_ann (%s)' % ('float' if t == 'f' else 'double')
    f = m.F('vl_kmeans_quantize_ann')
    if f is None or len(f.args) != 6:
        rep.skip(kd, name, 'not defined')
        return
    try:
        facts = k.facts(t)
        F = Fun(f, facts)
        approximate(rep, kd, name, F, k, None, ('arg', 3), A('arg', 4), k.fld('dimension'), k.fld('numCenters'), 4 if t == 'f' else 8, ('arg', 1), ('arg', 2), k.obj('centers'), t, facts, NOT(eq0(A('arg', 5))))
        rep.count('stores', len(F.stores))
    except (alg.Unknown, KeyError, StopIteration, IndexError) as e:
        if DEBUG:
            raise
        rep.skip(kd, name, str(e))


def elkan(rep, kd, name, F, k, H, T, new, asg, data, N, D, NC, sz, t, facts):
    """bounds on the distances and the reassignments they leave out"""
    E, f = F.E, F.f
    K = k.K
    x, c, j = I('x'), I('c'), I('j')
    cen = k.obj('centers')
    cd = k.obj('centerDistances')
    L1 = eq0(sub(k.fld('distance'), C(K['VlDistanceL1'])))
    L2 = eq0(sub(k.fld('distance'), C(K['VlDistanceL2'])))
    a1, a2 = atom(L1), atom(L2)
    g = called(F, D, t)
    fin = lambda s: relabel(s, g)

    def dist(px, pc, b=cen):
        return fn('dist', at(data, scale(mul(px, D), sz)), at(b, scale(mul(pc, D), sz)))
    # the buffers, by what is first put into them
    pre = [fin(F.relative(s)) for s in F.stores if s.base[0] == 'call' and s.ins.block not in f.loops[H]]
    pre = [s for s in pre if not any(a[0] == 'ld' and a[1][0] == 'alloca' for a in scev.deep_atoms(s.off))]
    d0 = dist(x, {})
    UB = LB = ST = None
    for s in pre:
        if len(s.chain) == 1:
            m = {('it', s.chain[0][0]): x}
            v, o = scev.mapatoms(s.val, m.get), scev.mapatoms(s.off, m.get)
            if same(v, d0) and same(o, scale(x, sz)):
                UB = s.base
            elif same(v, d0) and same(o, scale(mul(x, NC), sz)):
                LB = s.base
            elif same(v, C(1)) and same(o, scale(x, 4)) and s.base != asg:
                ST = s.base
    if LB is None or UB is None:
        # only one of the two is where it belongs: the other is recognised by being zeroed
        z = {F.ptr(i.ops[0], i.block)[0] for i in F.calls if (i.callee_name() or '').startswith(('llvm.memset', 'memset')) and i.block not in f.loops[H]}
        two = []
        for s in pre:
            if len(s.chain) == 1 and same(scev.mapatoms(s.val, {('it', s.chain[0][0]): x}.get), d0) and s.base not in two:
                two.append(s.base)
        if len(two) == 2 and len([b for b in two if b in z]) == 1:
            LB = next(b for b in two if b in z)
            UB = next(b for b in two if b not in z)
    if UB is None or LB is None or ST is None:
        rep.skip(kd, name, 'bounds not identified')
        return
    ub, lb = ld(UB, scale(x, sz)), lambda q: ld(LB, scale(add(mul(x, NC), q), sz))
    ax = ld(asg, scale(x, 4))
    two = sel(L1, C(2), C(4))
    cx = lambda q: ld(cd, scale(add(mul(ax, NC), q), sz))
    far = lambda q, u: ge0(sub(cx(q), mul(two, u)))
    c1 = add(c, C(1))
    loops = [('x', N), ('c', sub(NC, C(1)))]
    d1 = dist(x, c1)
    need = NOT(far(c1, ub))
    VO = VOC | {'base', 'fpconst'}
    grp = lambda b: [s for s in pre if s.base == b]
    for nm, b, first, v1, more in (('upper bound', UB, d0, d1, mul(need, gt0(sub(ub, d1)))), ('assignment', asg, {}, c1, mul(need, gt0(sub(ub, d1))))):
        es = 4 if b == asg else sz
        c36.passes(rep, kd, '%s initial %s' % (name, nm), f, E, grp(b), [('first center', [[(Spec('', [('x', N)], b, scale(x, es), first), C(1))]]),
                                                                           ('closer center', [[(Spec('', loops, b, scale(x, es), v1), more)]])], VO)
    c36.passes(rep, kd, name + ' initial lower bound', f, E, [s for s in grp(LB) if not same(s.val, {})], [
        ('first center', [[(Spec('', [('x', N)], LB, scale(mul(x, NC), sz), d0), C(1))]]),
        ('other centers', [[(Spec('', loops, LB, scale(add(mul(x, NC), c1), sz), d1), need)]])], VO)
    ms = [i for i in F.memsets(LB) if same(E.at(i.ops[2], i.block), scale(mul(N, NC), sz)) and ir.const_int(i.ops[1]) == 0 and all(kern.before(E, i, s.ins) for s in grp(LB))]
    rep.check(kd, name + ' lower bounds start from zero', bool(ms), (F.memsets(LB) or [f.instrs[0]])[0].loc(), '%s: the lower bounds are not all zero before the distances are known' % name, key=name + ':lb0')
    c36.passes(rep, kd, name + ' initial strictness', f, E, grp(ST), [('first center', [[(Spec('', [('x', N)], ST, scale(x, 4), C(1)), C(1))]])], VO)
    # in every iteration
    known = mul(sub(C(1), L1), sub(C(1), L2))
    fc = {}
    body = [fin(F.relative(s, H, T)) for s in F.stores if s.ins.block in f.loops[H]]
    CN = next((s.base for s in body if len(s.chain) == 1 and same(scev.mapatoms(s.val, {('it', s.chain[0][0]): c}.get), fn('dist', at(new, scale(mul(c, D), sz)), at(cen, scale(mul(c, D), sz))))), None)
    NX = next((s.base for s in body if len(s.chain) == 1 and isinf(s.val)), None)
    if CN is None:
        rep.bad(kd, name + ' movement of the centers', f.instrs[0].loc(), '%s: the distance between the old and the new position of every center is not computed' % name, key=name + ':movement')
        return
    if NX is None:
        rep.skip(kd, name, 'distance to the next center')
        return
    for nm, mine, other in (('L2', a2, a1), ('L1', a1, a2)):
        fc = {mine: C(1), other: {}}
        bd = []
        for s in body:
            r = kern.Store(s.ins, s.base, s.off, c36.sub_facts(s.val, fc), s.chain, None, None)
            r.when = c36.sub_facts(s.when, fc)
            if not same(r.when, {}):
                bd.append(r)
        G = lambda b: [s for s in bd if s.base == b]
        nn = '%s %s' % (name, nm)
        mv = lambda q: ld(CN, scale(q, sz))
        c36.passes(rep, kd, nn + ' movement of the centers', f, E, G(CN), [('distance to the new center', [[(Spec('', [('c', NC)], CN, scale(c, sz), fn('dist', at(new, scale(mul(c, D), sz)), at(cen, scale(mul(c, D), sz))), facts=fc), C(1))]])], VO)
        swap = [s for s in bd if s.base == k.me and same(s.off, C(k.o['centers']))]
        ok = len(swap) == 1 and same(swap[0].when, C(1)) and not swap[0].chain and F.ptr(swap[0].ins.ops[0], swap[0].ins.block) == (new, {}) and all(kern.before(E, s.ins, swap[0].ins) for s in bd if s.base in (CN, new)) and bool(swap)
        rep.check(kd, nn + ' new centers become current', ok, (swap[0].ins if swap else f.instrs[0]).loc(), '%s: the new centers are not made current after they are computed' % nn, key=nn + ':swap')
        ev = 'vl_eval_vector_comparison_on_all_pairs_' + t
        cs = [i for i in F.calls if i.callee_name() == ev and i.block in f.loops[H]]
        ok = False
        for i in cs:
            o, s1 = F.ptr(i.ops[0], i.block), F.ptr(i.ops[2], i.block)
            w = c36.sub_facts(c36.sub_facts(kern.when(E, i.block, T), F.facts), fc)
            if o == (cd, {}) and s1 == (cen, {}) and same(E.at(i.ops[1], i.block), D) and same(E.at(i.ops[3], i.block), NC) and same(E.at(i.ops[5], i.block), {}) and same(w, C(1)) and all(kern.before(E, z.ins, i) for z in swap) and all(kern.before(E, i, z.ins) for z in G(NX)):
                ok = True
        rep.check(kd, nn + ' distances between the centers', ok, (cs[0] if cs else f.instrs[0]).loc(), '%s: the distances between the new centers are not recomputed' % nn, key=nn + ':between')
        pr = ld(cd, scale(add(mul(c, NC), j), sz))
        nx = ld(NX, scale(c, sz))
        other_ = NOT(eq0(sub(c, j)))
        c36.passes(rep, kd, nn + ' distance to the next center', f, E, G(NX), [
            ('start', [[(Spec('', [('c', NC)], NX, scale(c, sz), A('fpconst', 'inf') if not any(isinf(s.val) for s in G(NX)) else next(s.val for s in G(NX) if isinf(s.val)), facts=fc), C(1))]]),
            ('smallest', [[(Spec('', [('c', NC), ('j', NC)], NX, scale(c, sz), [minv(nx, pr), minv(pr, nx)], facts=fc), other_)],
                          [(Spec('', [('c', NC), ('j', NC)], NX, scale(c, sz), pr, facts=fc), [mul(other_, gt0(sub(nx, pr)))])]])], VO)
        u, b = ub, mv(ax)
        root = fn('sqrt', mul(u, b))
        grown = add(u, b) if nm == 'L1' else add(add(u, b), scale(root, 2))
        q = lb(c)
        bc = mv(c)
        shr = sub(q, bc) if nm == 'L1' else sub(add(q, bc), scale(fn('sqrt', mul(q, bc)), 2))
        # the loop of reassignments
        rs = [s for s in bd if s.base == asg]
        if len(rs) != 1 or len(rs[0].chain) != 2:
            rep.skip(kd, nn, 'reassignment')
            continue
        R = rs[0]
        X, Cc = R.chain[0][0], R.chain[1][0]
        late = lambda s: s.ins.block in f.loops[X]
        c36.passes(rep, kd, nn + ' upper bound', f, E, [s for s in G(UB) if not late(s)], [('movement of the center', [[(Spec('', [('x', N)], UB, scale(x, sz), grown, facts=fc), C(1))]])], VO)
        c36.passes(rep, kd, nn + ' lower bound', f, E, [s for s in G(LB) if not late(s)], [
            ('movement of the center', [[(Spec('', [('x', N), ('c', NC)], LB, scale(add(mul(x, NC), c), sz), {}, facts=fc), gt0(sub(bc, q))), (Spec('', [('x', N), ('c', NC)], LB, scale(add(mul(x, NC), c), sz), shr, facts=fc), NOT(gt0(sub(bc, q))))],
                                        [(Spec('', [('x', N), ('c', NC)], LB, scale(add(mul(x, NC), c), sz), sel(gt0(sub(bc, q)), {}, shr), facts=fc), C(1))]])], VO)
        c36.passes(rep, kd, nn + ' strictness', f, E, [s for s in G(ST) if not late(s)], [('reset', [[(Spec('', [('x', N)], ST, scale(x, 4), {}, facts=fc), C(1))]])], VO)
        for bnd in (UB, LB):
            for s in G(bnd):
                for r in G(bnd):
                    if not late(s) and late(r):
                        rep.check(kd, nn + ' bounds before reassignment', kern.before(E, s.ins, r.ins), s.ins.loc(), '%s: bounds are updated after the points are reassigned' % nn, key=nn + ':order')
        two_ = C(2) if nm == 'L1' else C(4)
        reassign(rep, kd, nn, F, k, H, T, [s for s in bd if late(s)], R, X, Cc, UB, LB, ST, NX, cd, asg, dist, two_, N, NC, sz, fc, g)
    done(rep, kd, name, F, k, H, asg, X)
    r = returned(F, k)
    if not r:
        rep.skip(kd, name + ' returned energy', 'shape')
    else:
        tot = SUM(lambda q: fn('dist', at(data, scale(mul(q, D), sz)), at(cen, scale(mul(ld(asg, scale(q, 4)), D), sz))), N)
        v = [resolve(p, g) for p in r]
        if all(same(p, tot) for p in v):
            rep.ok(kd, name + ' returned energy')
        elif all(total(E, F, p, g, dist, asg, N) for p in r):
            rep.ok(kd, name + ' returned energy')
        else:
            rep.skip(kd, name + ' returned energy', '; '.join(alg.show(p)[:150] for p in v))


def total(E, F, p, g, dist, asg, N):
    """running sum of the distances in a loop over the data"""
    f = F.f
    if len(p) != 1 or atom(p)[0] != 'v':
        return False
    v = f.vals.get(atom(p)[1])
    if v is None or v.op != 'phi' or v.block not in f.loops:
        return False
    h = v.block
    i = [(o, q) for o, q in v.inc if q in f.loops[h]]
    o = [(o, q) for o, q in v.inc if q not in f.loops[h]]
    if len(i) != 1 or len(o) != 1:
        return False
    x = A('it', h)
    n = E.exit_it(h)
    nx = resolve(sub(E.inner(h).at(*i[0]), A('v', v.id)), g)
    return n is not None and same(n, N) and same(E.at(*o[0]), {}) and same(nx, dist(x, ld(asg, scale(x, 4))))


def relabel(s, g):
    s.val, s.when, s.off = resolve(s.val, g), resolve(s.when, g), resolve(s.off, g)
    return s


def reassign(rep, kd, nn, F, k, H, T, st, R, X, Cc, UB, LB, ST, NX, cd, asg, dist, two, N, NC, sz, fc, g):
    """stores of the reassignment loop, and the tests that leave a distance out"""
    E, f = F.E, F.f
    x, c = A('it', X), A('it', Cc)
    nX, nC = E.exit_it(X), E.exit_it(Cc)
    rep.check(kd, nn + ' reassignment loops', nX is not None and nC is not None and same(nX, N) and same(nC, NC), R.ins.loc(), '%s: not every pair of a point and a center is examined' % nn, key=nn + ':pairs')
    ax = ld(asg, scale(x, 4))
    ub = ld(UB, scale(x, sz))
    own, oth = dist(x, ax), dist(x, c)
    lbc = ld(LB, scale(add(mul(x, NC), c), sz))
    cdx = ld(cd, scale(add(mul(ax, NC), c), sz))
    nx = ld(NX, scale(ax, sz))
    # values
    ok = [(asg, scale(x, 4), c, 'new assignment'), (UB, scale(x, sz), oth, 'new upper bound'), (LB, scale(add(mul(x, NC), c), sz), oth, 'new lower bound'),
          (UB, scale(x, sz), own, 'refreshed upper bound'), (LB, scale(add(mul(x, NC), ax), sz), own, 'refreshed lower bound'), (ST, scale(x, 4), C(1), 'strictness')]
    found = {}
    for s in st:
        if s.base not in (asg, UB, LB, ST):
            continue
        hit = [z for z in ok if z[0] == s.base and same(z[1], s.off) and same(z[2], s.val)]
        if not hit:
            (rep.bad if kern.recognised(s, VOC) else lambda kd_, i_, *a, **kw: rep.skip(kd_, i_, 'shape'))(kd, nn + ' reassignment', s.ins.loc(), '%s: %s is no distance of the point' % (nn, s.show()[:250]), key=nn + ':reassign')
        else:
            found[hit[0][3]] = s
    for z in ok[:2]:
        rep.check(kd, '%s %s' % (nn, z[3]), z[3] in found, R.ins.loc(), '%s: the %s is not stored' % (nn, z[3]), key='%s:%s' % (nn, z[3]))
    if 'new upper bound' in found and 'new assignment' in found:
        a, b = found['new upper bound'], found['new assignment']
        rep.check(kd, nn + ' assignment and bound together', same(a.when, b.when), b.ins.loc(), '%s: the assignment and its upper bound are not changed together' % nn, key=nn + ':together')
    # strictness is only claimed with the true distance
    if 'strictness' in found:
        s = found['strictness']
        rep.check(kd, nn + ' strict bounds are true distances', 'refreshed upper bound' in found and same(found['refreshed upper bound'].when, s.when), s.ins.loc(), '%s: the upper bound is marked as exact without being recomputed' % nn, key=nn + ':strict')
    # every test between the loop over points and the assignment:  leaving out is right only for these reasons
    strict = NOT(eq0(ld(ST, scale(x, 4))))
    valid = []
    for u in (ub, own):
        valid += [ge0(sub(cdx, mul(two, u))), ge0(sub(lbc, u)), ge0(sub(nx, mul(two, u))), ge0(sub(oth, u)), gt0(sub(cdx, mul(two, u))), gt0(sub(lbc, u)), gt0(sub(nx, mul(two, u)))]
    valid += [eq0(sub(ax, c)), eq0(sub(c, ax))]
    tb = R.ins.block
    region = [b for b in f.loops[X] if b != X]

    def reach(s, stop):
        seen, todo = set(), [s]
        while todo:
            q = todo.pop()
            if q in seen or q not in f.loops[X] or q in stop:
                continue
            seen.add(q)
            todo += f.succ[q]
        return seen
    for b in region:
        ss = [s for s in f.succ[b] if F.edge(b, s)]
        if len(set(f.succ[b])) < 2 or not F.alive(b) or b == Cc:
            continue
        get = [tb in reach(s, {Cc} if b in f.loops[Cc] else {X}) or s == tb for s in f.succ[b]]
        if not any(get) or all(get):
            continue
        out = f.succ[b][get.index(False)]
        cond = c36.sub_facts(c36.sub_facts(E.edge(b, out), F.facts), fc)
        if not same(cond, {}) and same(c36.sub_facts(cond, fc), C(1)):
            continue
        cond = resolve(cond, g)
        if same(cond, {}):
            continue
        good = any(same(cond, v) for v in valid) or any(same(mul(cond, v), cond) for v in valid)
        known = all(a[0] in VOC | {'base'} for a in scev.deep_atoms(cond))
        if good:
            rep.ok(kd, nn + ' test')
        elif known:
            rep.bad(kd, nn + ' test', f.blocks[b][-1].loc(), '%s: a center is left out when %s, which does not exclude that it is closer' % (nn, alg.show(cond)[:250]), key=nn + ':test')
        else:
            rep.skip(kd, nn + ' test', alg.show(cond)[:200])
    # the exact bound is used for the final comparison: loose bounds are refreshed first
    if 'refreshed upper bound' in found:
        s = found['refreshed upper bound']
        loose = [b for b in region if len(set(f.succ[b])) == 2 and F.alive(b) and any(a[0] == 'eq0' and same(thaw(a[1]), ld(ST, scale(x, 4))) for a in alg.atoms(resolve(E.edge(b, f.succ[b][0]), g)))]
        for b in loose:
            go = next((q for q in f.succ[b] if same(resolve(E.edge(b, q), g), eq0(ld(ST, scale(x, 4))))), None)
            rep.check(kd, nn + ' loose bounds are refreshed', go is not None and (go == s.ins.block or f.dominates(go, s.ins.block)), f.blocks[b][-1].loc(), '%s: the upper bound is recomputed when it is exact instead of when it is loose' % nn, key=nn + ':loose')


def done(rep, kd, name, F, k, H, asg, X):
    """stopping: as many iterations as allowed, or no assignment changed"""
    E, f = F.E, F.f
    ex = [(a, b) for a, b in E.exits(H)]
    it = A('it', H)
    mx = k.fld('maxNumIterations')
    R = next(s for s in F.stores if s.base == asg and s.ins.block in f.loops[X])
    limit = flag = 0
    for a, b in ex:
        c = c36.sub_facts(E.edge(a, b), F.facts)
        if any(same(c, ge0(sub(add(it, C(1)), mx))) for _ in (0,)) or same(c, NOT(gt0(sub(sub(mx, it), C(1))))):
            limit += 1
            continue
        vs = [z for z in scev.deep_atoms(c) if z[0] == 'v']
        if len(vs) == 1 and same(c, NOT(eq0(A('v', vs[0][1])))):
            web, todo, leaves = set(), [vs[0][1]], []
            while todo:
                q = todo.pop()
                if q in web:
                    continue
                web.add(q)
                p = f.vals[q]
                if p.op != 'phi':
                    leaves.append((None, p.block, None))
                    continue
                for o, blk in p.inc:
                    if isinstance(o, int) and f.vals[o].op == 'phi':
                        todo.append(o)
                    leaves.append((o, blk, p))
            okc = True
            cleared = False
            for o, blk, p in leaves:
                cv = ir.const_int(o) if not isinstance(o, int) else None
                after = blk == R.ins.block or f.dominates(R.ins.block, blk)
                if after and blk in f.loops[X]:
                    okc = okc and cv == 0
                    cleared = True
                elif cv is not None:
                    okc = okc and (cv == 1 and blk not in f.loops[X])
            flag += 1
            rep.check(kd, name + ' convergence', okc and cleared, f.blocks[a][-1].loc(), '%s: stops although assignments changed' % name, key=name + ':converged')
        else:
            rep.skip(kd, name + ' exit', alg.show(c)[:200])
    rep.check(kd, name + ' iteration limit', limit == 1, f.blocks[H][0].loc(), '%s: does not stop after the maximum number of iterations' % name, key=name + ':limit') if limit or flag == len(ex) else rep.skip(kd, name + ' iteration limit', 'shape')


# -- initialisation -----------------------------------------------------------------

def started(rep, kd, name, F, k, dim, cnt, t):
    """object reset, sizes stored, room for the centers; returns True when the buffer of centers is known"""
    E, f = F.E, F.f
    sz = 4 if t == 'f' else 8
    rs = [i for i in F.calls if i.callee_name() == 'vl_kmeans_reset']
    fs = {n: [s for s in F.into(k.me) if same(s.off, C(k.o[n]))] for n in ('dimension', 'numCenters', 'centers')}
    for n, v in (('dimension', dim), ('numCenters', cnt)):
        ok = len(fs[n]) == 1 and same(fs[n][0].val, v) and same(fs[n][0].when, C(1)) and not fs[n][0].chain
        rep.check(kd, '%s %s' % (name, n), ok, (fs[n][0].ins if fs[n] else f.instrs[0]).loc(), '%s: the %s of the object is not set to that of the centers' % (name, n), key='%s:%s' % (name, n))
    c = fs['centers']
    w = f.vals.get(c[0].ins.ops[0]) if len(c) == 1 and isinstance(c[0].ins.ops[0], int) else None
    ok = w is not None and w.op == 'call' and w.callee_name() in ('vl_malloc', 'malloc') and same(E.at(w.ops[0], w.block), scale(mul(dim, cnt), sz)) and all(f.dominates(i.block, c[0].ins.block) for i in rs) and rs
    rep.check(kd, name + ' room for the centers', bool(ok), (c[0].ins if c else f.instrs[0]).loc(), '%s: the centers are not stored in a new buffer of their size' % name, key=name + ':room')
    return len(c) == 1


def copies(F, k):
    """copies into the centers"""
    out = []
    for i in F.calls:
        if (i.callee_name() or '').startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy')):
            d = F.ptr(i.ops[0], i.block)
            if d[0] == k.obj('centers') or (d[0] and d[0][0] == 'call' and any(s.base == k.me and same(s.off, C(k.o['centers'])) and s.ins.ops[0] == d[0][1] for s in F.stores)):
                out.append((i, d[1], F.ptr(i.ops[1], i.block), F.E.at(i.ops[2], i.block)))
    return out


def set_centers(rep, m, k, t):
    kd = 'initialisation'
    name = 'vl_kmeans_set_centers (%s)' % ('float' if t == 'f' else 'double')
    f = m.F('vl_kmeans_set_centers')
    if f is None or len(f.args) != 4:
        rep.skip(kd, name, 'not defined')
        return
    try:
        F = Fun(f, k.facts(t))
        D, NC = A('arg', 2), A('arg', 3)
        started(rep, kd, name, F, k, D, NC, t)
        cs = copies(F, k)
        if not cs:
            rep.skip(kd, name, 'copy of the centers')
            return
        i, do, src, n = cs[0]
        ok = len(cs) == 1 and same(do, {}) and src[0] == ('arg', 1) and same(src[1], {}) and same(n, scale(mul(D, NC), 4 if t == 'f' else 8)) and same(c36.sub_facts(kern.when(F.E, i.block), F.facts), C(1)) and not kern.chain_of(F.E, i.block)
        rep.check(kd, name + ' copy', ok, i.loc(), '%s: not all the centers are copied (%s bytes)' % (name, alg.show(n)), key=name + ':copy')
    except (alg.Unknown, KeyError, StopIteration, IndexError) as e:
        if DEBUG:
            raise
        rep.skip(kd, name, str(e))


def random_data(rep, m, k, t):
    kd = 'initialisation'
    name = 'vl_kmeans_init_centers_with_rand_data (%s)' % ('float' if t == 'f' else 'double')
    f = m.F('vl_kmeans_init_centers_with_rand_data')
    if f is None or len(f.args) != 5:
        rep.skip(kd, name, 'not defined')
        return
    sz = 4 if t == 'f' else 8
    try:
        F = Fun(f, k.facts(t))
        E = F.E
        D, N, NC = A('arg', 2), A('arg', 3), A('arg', 4)
        started(rep, kd, name, F, k, D, NC, t)
        cs = copies(F, k)
        hs = [h for h in f.loops if cs and cs[0][0].block in f.loops[h]]
        if len(cs) != 1 or len(hs) != 1:
            rep.skip(kd, name, 'copy of the centers')
            return
        i, do, src, n = cs[0]
        H = hs[0]
        # source: data[D * perm[it]]; perm: identity, then shuffled
        P = next((a[1] for a in scev.deep_atoms(src[1]) if a[0] == 'ld' and a[1] not in (k.me,)), None)
        it = A('it', H)
        ok = src[0] == ('arg', 1) and P is not None and same(src[1], scale(mul(D, ld(P, scale(it, 8))), sz)) and same(n, scale(D, sz))
        rep.check(kd, name + ' points', bool(ok), i.loc(), '%s: a center is not the next point of the random order' % name, key=name + ':point')
        kp = [p for p in f.blocks[H] if p.op == 'phi' and not E.close(p) and ('v', p.id) in alg.atoms(do)]
        if len(kp) != 1:
            rep.skip(kd, name, 'number of centers found')
            return
        p = kp[0]
        kk = A('v', p.id)
        o = [(x, q) for x, q in p.inc if q not in f.loops[H]]
        ins = [(x, q) for x, q in p.inc if q in f.loops[H]]
        w = c36.sub_facts(kern.when(E, i.block, H), F.facts)
        nx = [E.at(x, q) for x, q in ins]
        ok = same(do, scale(mul(D, kk), sz)) and len(o) == 1 and same(E.at(*o[0]), {}) and len(nx) == 1 and cases(nx[0], add(kk, head(E, f, H, i)))
        rep.check(kd, name + ' consecutive centers', ok, i.loc(), '%s: accepted points are not stored one after the other' % name, key=name + ':consecutive')
        ex = [E.edge(a, b) for a, b in E.exits(H)]
        rep.check(kd, name + ' number of centers', len(ex) == 1 and same(ex[0], ge0(sub(kk, NC))), f.blocks[H][-1].loc(), '%s: goes on until %s' % (name, '; '.join(alg.show(c) for c in ex)), key=name + ':count')
        # duplicates are only skipped when enough points are left
        spare = gt0(sub(sub(N, it), sub(NC, kk)))
        hw = head(E, f, H, i)
        inb = [q for q in f.loops[H] if q != H]
        dup = [a for a in alg.atoms(hw) if a[0] == 'eq0' and len(thaw(a[1])) == 1 and atom(thaw(a[1]))[0] == 'v']
        ok = len(dup) == 1 and cases(hw, sub(C(1), mul(spare, NOT({((dup[0], 1),): Q(1)}))))
        if len(dup) == 1:
            rep.check(kd, name + ' duplicates', ok, i.loc(), '%s: a point is taken when %s' % (name, alg.show(hw)[:200]), key=name + ':duplicates')
        else:
            rep.skip(kd, name + ' duplicates', alg.show(hw)[:200])
        # the search for duplicates compares the point with the centers found so far
        ev = [c for c in F.calls if c.callee_name() == 'vl_eval_vector_comparison_on_all_pairs_' + t and c.block in f.loops[H]]
        if len(ev) == 1:
            e = ev[0]
            pt, cn = F.ptr(e.ops[2], e.block), F.ptr(e.ops[4], e.block)
            q = f.vals[atom(thaw(dup[0][1]))[1]] if len(dup) == 1 else None
            if q is not None and q.op == 'phi' and q.block in f.loops:
                J = q.block
                z = eq0(ld(F.ptr(e.ops[0], e.block)[0], scale(A('it', J), sz)))
                V = A('v', q.id)
                nj = E.exit_it(J)
                out = [E.at(x, b) for x, b in q.inc if b not in f.loops[J]]
                upd = [E.at(x, b) for x, b in q.inc if b in f.loops[J]]
                ok = len(out) == 1 and same(out[0], {}) and nj is not None and same(nj, kk) and len(upd) == 1 and any(same(upd[0], v) for v in (fn('or', z, V), fn('or', V, z), add(z, mul(NOT(z), V)), sel(z, C(1), V))) and kern.before(E, e, q)
                rep.check(kd, name + ' duplicates of any center', ok, q.loc() or e.loc(), '%s: not every center is compared with the point: %s in %s iterations' % (name, '; '.join(alg.show(u)[:200] for u in upd), alg.show(nj) if nj is not None else '?'), key=name + ':any')
            else:
                rep.skip(kd, name + ' duplicates of any center', 'shape')
            ok = same(E.at(e.ops[1], e.block), D) and pt == src and same(E.at(e.ops[3], e.block), C(1)) and cn[0] in (k.obj('centers'),) and same(cn[1], {}) and same(E.at(e.ops[5], e.block), kk)
            rep.check(kd, name + ' comparison with the centers', ok, e.loc(), '%s: the point is not compared with the centers found so far' % name, key=name + ':compare')
        if P is not None:
            st = [s for s in F.into(P)]
            init = [s for s in st if len(s.chain) == 1 and same(s.val, A('it', s.chain[0][0])) and same(s.off, scale(A('it', s.chain[0][0]), 8)) and s.chain[0][1] is not None and same(s.chain[0][1], N)]
            rep.check(kd, name + ' all points in order', bool(init), (st[0].ins if st else i).loc(), '%s: the random order does not start from all the points' % name, key=name + ':identity')
    except (alg.Unknown, KeyError, StopIteration, IndexError) as e:
        if DEBUG:
            raise
        rep.skip(kd, name, str(e))


def head(E, f, H, i):
    """condition of instruction i in an iteration of H, the loop test left out"""
    ins = [s for s in f.succ[H] if s in f.loops[H]]
    at_ = ins[0] if len(ins) == 1 and any(x == H for x, _ in E.exits(H)) else H
    return E.reach(at_, i.block)[i.block] if i.block not in (at_, H) else C(1)


def plus_plus(rep, m, k, t):
    kd = 'initialisation'
    name = 'vl_kmeans_init_centers_plus_plus (%s)' % ('float' if t == 'f' else 'double')
    f = m.F('vl_kmeans_init_centers_plus_plus')
    if f is None or len(f.args) != 5:
        rep.skip(kd, name, 'not defined')
        return
    sz = 4 if t == 'f' else 8
    try:
        F = Fun(f, k.facts(t))
        E = F.E
        D, N, NC = A('arg', 2), A('arg', 3), A('arg', 4)
        started(rep, kd, name, F, k, D, NC, t)
        cs = copies(F, k)
        hs = [h for h in f.loops if cs and cs[0][0].block in f.loops[h]]
        if len(cs) != 1 or len(hs) != 1:
            rep.skip(kd, name, 'copy of the centers')
            return
        i, do, src, n = cs[0]
        H = hs[0]
        it = A('it', H)
        xs = [a for a in alg.atoms(src[1]) if a[0] == 'v']
        ok = len(xs) == 1 and src[0] == ('arg', 1) and same(src[1], scale(mul(D, A(*xs[0])), sz)) and same(n, scale(D, sz)) and same(do, scale(mul(D, it), sz)) and same(head(E, f, H, i), C(1))
        rep.check(kd, name + ' center', ok, i.loc(), '%s: the center is not the selected point' % name, key=name + ':center')
        if len(xs) != 1:
            return
        xp = f.vals[xs[0][1]]
        o = [E.at(x, q) for x, q in xp.inc if q not in f.loops[H]]
        nx = [(x, q) for x, q in xp.inc if q in f.loops[H]]
        rep.check(kd, name + ' first center', len(o) == 1 and same(redraw(o[0], N), I('r')), i.loc(), '%s: the first center is not a random point' % name, key=name + ':first')
        ex = [(a, b) for a, b in E.exits(H)]
        rep.check(kd, name + ' number of centers', len(ex) == 1 and (same(E.edge(*ex[0]), eq0(sub(add(it, C(1)), NC))) or same(E.edge(*ex[0]), ge0(sub(add(it, C(1)), NC)))) and f.dominates(i.block, ex[0][0]), i.loc(), '%s: does not select the number of centers' % name, key=name + ':count')
        ev = [c for c in F.calls if c.callee_name() == 'vl_eval_vector_comparison_on_all_pairs_' + t and c.block in f.loops[H]]
        if len(ev) != 1:
            rep.skip(kd, name, 'distances')
            return
        e = ev[0]
        dist = F.ptr(e.ops[0], e.block)[0]
        pt, dt = F.ptr(e.ops[2], e.block), F.ptr(e.ops[4], e.block)
        ok = same(E.at(e.ops[1], e.block), D) and pt[0] == k.obj('centers') and same(pt[1], do) and same(E.at(e.ops[3], e.block), C(1)) and dt[0] == ('arg', 1) and same(dt[1], {}) and same(E.at(e.ops[5], e.block), N) and kern.before(E, i, e)
        rep.check(kd, name + ' distances to the new center', ok, e.loc(), '%s: the distances of all points to the new center are not computed' % name, key=name + ':distances')
        ms = [s for s in F.stores if s.base[0] == 'call' and s.base != dist and s.ins.block in f.loops[H] and not any(a[0] == 'v' for a in alg.atoms(s.off))]
        if len({s.base for s in ms}) != 1:
            rep.skip(kd, name, 'smallest distances')
            return
        MD = ms[0].base
        x = I('x')
        md, dd = ld(MD, scale(x, sz)), ld(dist, scale(x, sz))
        st = F.into(MD, H)
        c36.passes(rep, kd, name + ' smallest distances', f, E, st, [('minimum', [[(Spec('', [('x', N)], MD, scale(x, sz), [minv(md, dd), minv(dd, md)]), None)], [(Spec('', [('x', N)], MD, scale(x, sz), dd), gt0(sub(md, dd)))]])], VOC)
        before_ = [s for s in F.into(MD) if s.ins.block not in f.loops[H]]
        ok = len(before_) == 1 and isinf(before_[0].val) and len(before_[0].chain) == 1 and before_[0].chain[0][1] is not None and same(before_[0].chain[0][1], N)
        rep.check(kd, name + ' initial distances', ok, (before_[0].ins if before_ else i).loc(), '%s: the smallest distances do not start from infinity' % name, key=name + ':start')
        # selection:  smallest x with  md[0] + .. + md[x] >= thresh * energy
        v = E.at(*nx[0])
        if len(v) != 1 or atom(v)[0] != 'exit':
            rep.skip(kd, name + ' selection', alg.show(v)[:200])
            return
        S = atom(v)[1]
        si = A('it', S)
        mdl = lambda q: ld(MD, scale(q, sz))
        run_ = add(mdl(si), A('psum', S, freeze(mdl(si))))
        mn = lambda q: minv(mdl(q), ld(dist, scale(q, sz)))
        mn2 = lambda q: minv(ld(dist, scale(q, sz)), mdl(q))
        en = [SUM(g, N) for g in (mn, mn2)] + [SUM(mdl, N)]
        hit = lim = False
        for a, b in E.exits(S):
            c = E.edge(a, b)
            us = {z for z in scev.deep_atoms(c) if z[0] == 'callv' and z[2] == 'vl_rand_uint32'}
            if not us:
                lim = same(c, ge0(sub(si, sub(N, C(1))))) or lim
                continue
            for u in us:
                for one in (Q(1, 2 ** 32 - 1), Q(1 / (2 ** 32 - 1)), Q(repr(1 / (2 ** 32 - 1)))):
                    th = scale(A(*u), one)
                    hit = hit or any(same(c, ge0(sub(run_, mul(th, q)))) for q in en)
        rep.check(kd, name + ' selection', hit and lim and len(E.exits(S)) == 2, f.blocks[S][0].loc(), '%s: the next center is not drawn with probability proportional to the smallest distances' % name, key=name + ':selection')
        b4 = all(kern.before(E, e, s.ins) for s in st) and all(kern.before(E, s.ins, f.blocks[S][-1]) for s in st)
        rep.check(kd, name + ' order', b4, e.loc(), '%s: distances are used before they are updated' % name, key=name + ':order')
    except (alg.Unknown, KeyError, StopIteration, IndexError) as e:
        if DEBUG:
            raise
        rep.skip(kd, name, str(e))


def cluster(rep, m, k, t):
    kd = 'repetitions'
    name = 'vl_kmeans_cluster (%s)' % ('float' if t == 'f' else 'double')
    f = m.F('vl_kmeans_cluster')
    if f is None or len(f.args) != 5:
        rep.skip(kd, name, 'not defined')
        return
    try:
        F = Fun(f, k.facts(t))
        E = F.E
        K = k.K
        mine = K['VL_TYPE_FLOAT' if t == 'f' else 'VL_TYPE_DOUBLE']

        def ty(p):
            """the type of the data is known"""
            dt = k.fld('dataType')

            def g(a):
                if a[0] == 'eq0':
                    q = sub(thaw(a[1]), dt)
                    q2 = add(thaw(a[1]), dt)
                    for z in (q, scale(q2, -1)):
                        if all(mn == () for mn in z):
                            return C(1) if -z.get((), Q(0)) == mine else {}
                return None
            return scev.mapatoms(p, g)
        rc = [i for i in F.calls if i.callee_name() == 'vl_kmeans_refine_centers']
        if len(rc) != 1:
            rep.skip(kd, name, 'refinement')
            return
        r = rc[0]
        hs = [h for h in f.loops if r.block in f.loops[h]]
        if len(hs) != 1:
            rep.skip(kd, name, 'loop over the repetitions')
            return
        H = hs[0]
        it = A('it', H)
        n = E.exit_it(H)
        rep.check(kd, name + ' number of repetitions', n is not None and same(n, k.fld('numRepetitions')), f.blocks[H][-1].loc(), '%s: does not run the number of repetitions' % name, key=name + ':count')
        a = [E.at(o, r.block) for o in r.ops[:3]]
        rep.check(kd, name + ' refinement', same(a[0], A('base', k.me)) and same(a[1], A('base', ('arg', 1))) and same(a[2], A('arg', 3)), r.loc(), '%s: the centers are not refined on the data' % name, key=name + ':refine')
        for what, fun in (('VlKMeansRandomSelection', 'vl_kmeans_init_centers_with_rand_data'), ('VlKMeansPlusPlus', 'vl_kmeans_init_centers_plus_plus')):
            cs = [i for i in F.calls if i.callee_name() == fun]
            ok = len(cs) == 1 and all(same(E.at(o, cs[0].block), z) for o, z in zip(cs[0].ops, (A('base', k.me), A('base', ('arg', 1)), A('arg', 2), A('arg', 3), A('arg', 4)))) and kern.before(E, cs[0], r)
            w = ty(c36.sub_facts(head(E, f, H, cs[0]), F.facts)) if len(cs) == 1 else {}
            ok = ok and same(w, eq0(sub(k.fld('initialization'), C(K[what]))))
            rep.check(kd, '%s %s' % (name, what), ok, (cs[0] if cs else r).loc(), '%s: the initialisation %s is not carried out when it is selected' % (name, what), key='%s:%s' % (name, what))
        init = add(eq0(sub(k.fld('initialization'), C(K['VlKMeansRandomSelection']))), eq0(sub(k.fld('initialization'), C(K['VlKMeansPlusPlus']))))
        w = notnull(ty(c36.sub_facts(head(E, f, H, r), F.facts)))
        rep.check(kd, name + ' refined always', same(w, C(1)) or cases(w, init), r.loc(), '%s: the centers are refined only when %s' % (name, alg.show(w)[:200]), key=name + ':always')
        e = A('callv', r.id, 'vl_kmeans_refine_centers')
        st = F.into(k.me)
        fin = [s for s in st if same(s.off, C(k.o['energy'])) and s.ins.block not in f.loops[H]]
        ret = next(i for i in f.instrs if i.op == 'ret')
        rv = E.at(ret.ops[0], ret.block)
        if len(rv) != 1 or atom(rv)[0] != 'v' or f.vals[atom(rv)[1]].block != H:
            rep.skip(kd, name, 'energy returned')
            return
        p = f.vals[atom(rv)[1]]
        P = A('v', p.id)
        rep.check(kd, name + ' energy', len(fin) == 1 and same(fin[0].val, P) and not fin[0].chain, (fin[0].ins if fin else ret).loc(), '%s: the energy kept is not that returned' % name, key=name + ':energy')
        o = [E.at(x, q) for x, q in p.inc if q not in f.loops[H]]
        nx = [(x, q) for x, q in p.inc if q in f.loops[H]]
        better = [sub(C(1), mul(NOT(gt0(sub(P, e))), NOT(eq0(it))))]
        if len(nx) != 1:
            rep.skip(kd, name, 'best energy')
            return
        go = ty(c36.sub_facts(E.reach(H, nx[0][1]).get(nx[0][1], {}), F.facts))
        v = ty(c36.sub_facts(E.at(*nx[0]), F.facts))
        c = lambda p_: notnull(p_)
        ok = len(o) == 1 and isinf(o[0]) and any(cases(c(v), c(sel(b, e, P))) for b in better)
        rep.check(kd, name + ' best energy', ok, ret.loc(), '%s: the energy kept is not the smallest: %s' % (name, alg.show(v)[:200]), key=name + ':best')
        sw = [s for s in st if same(s.off, C(k.o['centers'])) and s.ins.block in f.loops[H]]
        end = [s for s in st if same(s.off, C(k.o['centers'])) and s.ins.block not in f.loops[H]]
        if len(sw) != 1 or len(end) != 1:
            rep.skip(kd, name, 'centers kept')
            return
        w = notnull(ty(c36.sub_facts(head(E, f, H, sw[0].ins), F.facts)))
        init = add(eq0(sub(k.fld('initialization'), C(K['VlKMeansRandomSelection']))), eq0(sub(k.fld('initialization'), C(K['VlKMeansPlusPlus']))))
        rep.check(kd, name + ' best centers', any(cases(w, b) or cases(w, mul(init, b)) for b in better), sw[0].ins.loc(), '%s: the centers are kept when %s' % (name, alg.show(w)[:200]), key=name + ':when')
        q = f.vals.get(end[0].ins.ops[0]) if isinstance(end[0].ins.ops[0], int) else None
        ok = None
        if q is not None and q.op == 'phi' and q.block == H:
            ok = True
            todo, seen, took = [(x, b) for x, b in q.inc if b in f.loops[H]], set(), False
            while todo:
                x, b = todo.pop()
                if x == q.id:
                    ok = ok and not (b == sw[0].ins.block or f.dominates(sw[0].ins.block, b))
                    continue
                y = f.vals.get(x) if isinstance(x, int) else None
                if y is None:
                    ok = False
                elif y.op == 'phi' and y.id not in seen:
                    seen.add(y.id)
                    todo += y.inc
                elif y.op == 'load':
                    yb, yo = E.addr_at(y.ops[0], y.block)
                    took = True
                    ok = ok and yb == k.me and same(yo, C(k.o['centers'])) and kern.before(E, y, sw[0].ins) and kern.before(E, r, y) and (b == sw[0].ins.block or f.dominates(sw[0].ins.block, b))
                elif y.op != 'phi':
                    ok = None
                    break
            ok = ok and took if ok is not None else None
        if ok is None:
            rep.skip(kd, name, 'centers kept')
        else:
            rep.check(kd, name + ' centers kept', ok, end[0].ins.loc(), '%s: the centers kept are not those of the smallest energy' % name, key=name + ':kept')
        rep.count('stores', len(F.stores))
    except (alg.Unknown, KeyError, StopIteration, IndexError) as e:
        if DEBUG:
            raise
        rep.skip(kd, name, str(e))


def notnull(p):
    return scev.mapatoms(p, lambda a: {} if a[0] == 'eq0' and len(thaw(a[1])) == 1 and atom(thaw(a[1]))[0] == 'base' else None)


def run():
    rep = report.Report('C37', RULE, 'closed-form verification of loop kernels and search loops')
    m = ir.libi()
    k = KM()
    if not k.ok:
        rep.skip('structure', 'vl/kmeans.h', 'constants')
        return rep
    for t in 'fd':
        quantize(rep, m, k, t)
        quantize_ann(rep, m, k, t)
        set_centers(rep, m, k, t)
        random_data(rep, m, k, t)
        plus_plus(rep, m, k, t)
        cluster(rep, m, k, t)
        for a in () if SHORT else ('VlKMeansLloyd', 'VlKMeansElkan', 'VlKMeansANN'):
            refine(rep, m, k, t, a)
    return rep
