"""C38: Gaussian mixtures: every step of EM computes the quantity the model defines, for every data set."""
import itertools
import ir, alg, report, scev, kern, build, nat
from alg import C, A, add, sub, mul, scale, NOT, eq0, gt0, ge0, fn, same, thaw, freeze, sel
from kern import ld, I, SUM
from nat import S, Case
from c40 import one, calls

RULE = ('closed form of every value stored by the expectation step, the maximization step, the restart of empty modes and the initialisations, over all modes, points and dimensions (loops as iteration '
        'spaces, temporaries by role), compared with the formula of the model; guards, order of the phases and conditions of the EM loop included')
DEBUG = False
FIELDS = ['dataType', 'dimension', 'numClusters', 'numData', 'maxNumIterations', 'numRepetitions', 'means', 'covariances', 'priors', 'posteriors', 'sigmaLowBound', 'initialization', 'kmeansInit', 'LL',
          'kmeansInitIsOwner']
ENUMS = ['VL_TYPE_FLOAT', 'VL_TYPE_DOUBLE', 'VlDistanceMahalanobis', 'VlDistanceL2', 'VlGMMKMeans', 'VlGMMRand', 'VlGMMCustom']
MIN_POST, MIN_PRIOR, MIN_MASS, MIN_SUM, EPS = 1e-2, 1e-6, 1e-6, 1e-12, 0.00001
NEGINF = A('fpconst', '-inf')


def guard(rep, fun, *a):
    try:
        fun(rep, *a)
    except (alg.Unknown, KeyError, IndexError, StopIteration, AttributeError, AssertionError, ValueError, TypeError) as e:
        if DEBUG:
            raise
        rep.skip(fun.__name__, str(a[2:])[:60], '%s: %s' % (type(e).__name__, e))


def num(x):
    return C(alg.Fraction('%.17g' % x) if isinstance(x, float) else x)


class Layout:
    def __init__(self, m):
        K = build.constants('vl/gmm.h', ENUMS)
        K.update(build.constants('vl/kmeans.h', ['VlDistanceMahalanobis', 'VlDistanceL2']))
        self.ok = all(e in K for e in ENUMS)
        for e in K:
            setattr(self, e, K[e])
        mem = {n: (o, sz, t) for n, o, sz, t in m.struct_members('_VlGMM')}
        self.ok = self.ok and all(k in mem for k in FIELDS)
        if not self.ok:
            return
        self.off = {k: C(mem[k][0]) for k in FIELDS}
        self.g = ('arg', 0)
        self.D, self.K, self.N = (ld(self.g, self.off[k]) for k in ('dimension', 'numClusters', 'numData'))
        for k in ('means', 'covariances', 'priors', 'posteriors', 'sigmaLowBound'):
            setattr(self, k, ('*', self.g, freeze(self.off[k])))

    def sub(self, t):
        return {one(ld(self.g, self.off['dataType'])): C(self.VL_TYPE_FLOAT if t == 'f' else self.VL_TYPE_DOUBLE)}


def rename(p, mp):
    """bases renamed"""
    def base(b):
        if b in mp:
            return mp[b]
        if isinstance(b, tuple) and b and b[0] == '*':
            return ('*', base(b[1]), freeze(rename(thaw(b[2]), mp)[0]))
        return b

    def g(a):
        if a[0] == 'ld':
            return A('ld', base(a[1]), freeze(scev.mapatoms(thaw(a[2]), g)), *a[3:])
        if a[0] == 'base':
            return A('base', base(a[1]))
        if a[0] == 'callv' and ('call', a[1]) in mp:
            return A('base', mp[('call', a[1])])
        return None
    return scev.mapatoms(p, g), base


class Phase:
    """the stores of a stretch of code: bases by role, loops around the stretch left out"""
    def __init__(self, E, ins, outer=(), mp=None, start=None):
        self.E = E
        self.st = []
        self.mp = mp or {}
        for i in ins:
            b, o = E.addr_at(i.ops[1], i.block)
            v = E.at(i.ops[0], i.block)
            ch = [(h, n) for h, n in kern.chain_of(E, i.block) if h not in outer]
            g = kern.when(E, i.block, start)
            self.st.append(kern.Store(i, b, o, v, ch, g, None))

    def mapped(self, mp):
        out = []
        for s in self.st:
            base = rename({}, mp)[1]
            out.append(kern.Store(s.ins, base(s.base), rename(s.off, mp)[0], rename(s.val, mp)[0], [(h, rename(n, mp)[0] if n is not None else None) for h, n in s.chain],
                                  rename(s.guard, mp)[0] if s.guard is not None else None, None))
        return out

    def bind(self, roles, specs, fixed=None):
        """assignment of the temporaries to the roles under which most specifications are met"""
        temps = []
        for s in self.st:
            if s.base[0] == 'call' and s.base not in temps and s.base not in (fixed or {}):
                temps.append(s.base)
        best = (-1, None)
        if len(temps) > len(roles):
            raise alg.Unknown('%d temporaries' % len(temps))
        for p in itertools.permutations(roles, len(temps)):
            mp = dict(fixed or {})
            mp.update({t: ('role', r) for t, r in zip(temps, p)})
            ms = self.mapped(mp)
            n = sum(any(kern.fit(s, sp) for s in ms) for sp in specs)
            if n > best[0]:
                best = (n, mp)
        return best[1]


def merge(sts):
    """stores to the same place in the same loops under exclusive conditions that cover every case become one"""
    out = []
    for s in sts:
        for q in out:
            if q.base == s.base and same(q.off, norm(s, q, s.off)) and len(q.chain) == len(s.chain) and q.guard is not None and s.guard is not None \
                    and [h for h, _ in q.chain] == [h for h, _ in s.chain] and same(add(q.guard, s.guard), C(1)):
                q.val = add(mul(q.guard, q.val), mul(s.guard, s.val))
                q.guard = C(1)
                break
        else:
            out.append(s)
    return out


def norm(s, q, p):
    return p


VOC = kern.KNOWN | {'callv', 'fpconst', 'role', 'v', 'call', 'sym'}


class Obl:
    def __init__(self, rep, kd, name):
        self.rep, self.kd, self.name = rep, kd, name

    def __call__(self, what, good, loc, msg):
        return self.rep.check(self.kd, '%s: %s' % (self.name, what), good, loc.loc() if hasattr(loc, 'loc') else loc, '%s: %s' % (self.name, msg), key='%s:%s:%s' % (self.kd, self.name, what))

    def skip(self, what, why=''):
        self.rep.skip(self.kd, '%s: %s' % (self.name, what), why)

    def compare(self, loc, sts, specs):
        return kern.compare(self.rep, self.kd, self.name, loc.loc() if hasattr(loc, 'loc') else loc, sts, specs, VOC)


def sig(L, base, w, k, j, D=None):
    return ld(base, scale(add(mul(k, D if D is not None else L.D), j), w))


# ------------------------------------------------------------------ expectation

def posteriors(rep, m, L, t):
    f = m.F('vl_get_gmm_data_posteriors_' + t)
    T = Obl(rep, 'expectation', 'posteriors (%s)' % t)
    if f is None:
        return T.skip('function', 'not found')
    E = scev.Scev(f)
    w = 4 if t == 'f' else 8
    K, N, D = A('arg', 1), A('arg', 2), A('arg', 5)
    i, k, j = I('i'), I('k'), I('j')
    pri, mea, cov, dat, post = ('arg', 3), ('arg', 4), ('arg', 6), ('arg', 7), ('arg', 0)
    lw, iv, lc = ('role', 'logw'), ('role', 'inv'), ('role', 'logdet')
    prior = ld(pri, scale(k, w))
    cv = ld(cov, scale(add(mul(k, D), j), w))
    dist = [c for c in f.instrs if c.op == 'call' and c.callee_name() is None]
    if len(dist) != 1:
        return T.skip('distance', '%d indirect calls' % len(dist))
    dist = dist[0]
    P = add(ld(post, scale(add(mul(i, K), k), w)), {})
    MX = A('sym', 'max')
    # the maximum of a row
    mxs = []
    for h in f.loops:
        for v in f.blocks[h]:
            if v.op == 'phi' and v.ty != 'ptr':
                b = None
                try:
                    b = kern.best(E, v.id)
                except alg.Unknown:
                    pass
                if b is not None and not b.frozen and b.valphi == v.id:
                    mxs.append((v, b))
    if len(mxs) != 1:
        return T.skip('maximum', '%d search loops' % len(mxs))
    mx, mb = mxs[0]
    T('largest density', mb.kind == 'max', mx, 'the smallest of the densities of a point is subtracted before exponentiation instead of the largest: overflow')
    sts = [s for s in f.instrs if s.op == 'store']
    ph = Phase(E, sts)
    ll2pi = fn('log', {(): alg.Fraction(2)}) if False else None
    logw = ld(lw, scale(k, w))
    pval = None
    specs = [kern.Spec('log-weight of a mode', [('k', K)], lw, scale(k, w), sel(ge0(sub(prior, num(MIN_PRIOR))), fn('log', prior), NEGINF), C(1)),
             kern.Spec('inverse variances', [('k', K), ('j', D)], iv, scale(add(mul(k, D), j), w), alg.inv(cv), C(1)),
             kern.Spec('log-determinant of a mode', [('k', K)], lc, scale(k, w), SUM(lambda v: fn('log', ld(cov, scale(add(mul(k, D), v), w))), D), C(1))]
    mp = ph.bind(['logw', 'inv', 'logdet'], specs)
    ms = merge(ph.mapped(mp))
    tmp = [s for s in ms if s.base[0] == 'role']
    T.compare(f, tmp, specs)
    rest = [s for s in ms if s.base == post]
    other = [s for s in ms if s not in tmp and s not in rest]
    T('nothing else written', not other, other[0].ins if other else f, 'other memory is written: %s' % (other[0].show()[:200] if other else ''))
    MXA = ('v', mx.id)

    def rn(a):
        if a == MXA:
            return MX
        if a[0] == 'callv' and a[1] == dist.id:
            return A('sym', 'dist')
        return None
    for s in rest:
        s.val = scev.mapatoms(s.val, rn)
        s.off = scev.mapatoms(s.off, rn)
    c2 = [c for m_ in [s.val for s in rest] for c in m_.items() if c[0] == ((('arg', 5), 1),)]
    half = None
    for mono, co in c2:
        half = co
    import math
    ok = half is not None and abs(float(half) + 0.5 * math.log(2 * math.pi)) < 1e-6
    if half is None:
        # the constant may also be kept as the logarithm it is
        lg = fn('log', num(2 * math.pi))
        half_p = mul(scale(lg, alg.Fraction(-1, 2)), D)
    else:
        half_p = scale(D, half)
        T('normalisation constant', ok, rest[0].ins, 'the log-density contains %s D instead of -log(2 pi)/2 D' % float(half))
    pv = add(add(add(logw, half_p), scale(ld(lc, scale(k, w)), alg.Fraction(-1, 2))), scale(A('sym', 'dist'), alg.Fraction(-1, 2)))
    off = scale(add(mul(i, K), k), w)
    p1 = kern.Spec('log-density of a point', [('i', N), ('k', K)], post, off, pv, C(1))
    cell = ld(post, off)
    expc = fn('exp', sub(cell, MX))
    p2 = kern.Spec('shifted density', [('i', N), ('k', K)], post, off, expc, C(1))
    tot = SUM(lambda v: fn('exp', sub(ld(post, scale(add(mul(i, K), v), w)), MX)), K)
    tot2 = SUM(lambda v: ld(post, scale(add(mul(i, K), v), w)), K)
    p3 = kern.Spec('posterior', [('i', N), ('k', K)], post, off, [mul(cell, alg.inv(tot)), mul(cell, alg.inv(tot2))], C(1))
    T.compare(f, rest, [p1, p2, p3])
    fit = {}
    for sp in (p1, p2, p3):
        fit[sp.name] = next((s for s in rest if kern.fit(s, sp)), None)
    if all(fit.values()):
        a, b, c = fit[p1.name], fit[p2.name], fit[p3.name]
        T('order', kern.before(E, a.ins, b.ins) and kern.before(E, b.ins, c.ins) and (a.chain[0][0] == b.chain[0][0] == c.chain[0][0]), a.ins, 'the passes over the modes of a point are not in order')
        for s in tmp:
            T('tables first', kern.before(E, s.ins, a.ins) and s.chain[0][0] != a.chain[0][0], s.ins, 'the tables of the modes are not complete when the densities are computed')
        # the distance: arguments in the iteration space of the store
        (hi, _), (hk, _) = a.chain
        r = {('it', hi): i, ('it', hk): k}
        for v in f.blocks[hi]:
            if v.op == 'phi' and v.ty != 'ptr' and E.close(v):
                try:
                    r[('v', v.id)] = scev.mapatoms(E.at(v.id, hi), lambda z: r.get(z))
                except alg.Unknown:
                    pass
        args = []
        for o in dist.ops[1:4]:
            bb, oo = E.addr_at(o, dist.block)
            args.append((rename({}, mp)[1](bb), scev.mapatoms(oo, lambda z: r.get(z))))
        want = [(dat, scale(mul(i, D), w)), (mea, scale(mul(k, D), w)), (iv, scale(mul(k, D), w))]
        want2 = [want[1], want[0], want[2]]

        def eq(ws):
            return all(x[0] == y[0] and same(x[1], y[1]) for x, y in zip(args, ws))
        T('distance', same(E.at(dist.ops[0], dist.block), D) and (eq(want) or eq(want2)), dist, 'the distance is not that of point i and mode k: %s' % str([(alg.showb(x), alg.show(y)) for x, y in args])[:200])
        T('maximum', mb.h == hk and same(scev.mapatoms(rename(mb.newval, mp)[0], lambda z: r.get(z) or rn(z)), pv) and same(mb.val0, NEGINF) and mb.n is not None and same(mb.n, K), dist,
          'the value subtracted before exponentiation is not the maximum over all modes')
        # log-likelihood
        X = E.inner(hi)
        acc = []
        for v in f.blocks[hi]:
            if v.op == 'phi' and v.ty in ('double', 'float'):
                nx = [o for o, q in v.inc if q in f.loops[hi]]
                ini = [(o, q) for o, q in v.inc if q not in f.loops[hi]]
                if len(nx) == 1 and len(ini) == 1:
                    q = [q for o, q in v.inc if q in f.loops[hi]][0]
                    acc.append((v, E.at(*ini[0]), scev.mapatoms(X.at(nx[0], q), lambda z: r.get(z) or rn(z))))
        leaf = {o for rr in f.rets for o in leaves(f, rr.ops[0])}
        if len(acc) != 1:
            T.skip('log-likelihood', '%d accumulators' % len(acc))
        else:
            v, ini, nx = acc[0]
            inc = sub(nx, A('v', v.id))
            T('log-likelihood', same(ini, {}) and (same(inc, add(fn('log', tot), MX)) or same(inc, add(fn('log', tot2), MX))), v,
              'a point contributes %s to the log-likelihood instead of log(sum of the shifted densities) + maximum' % alg.show(inc)[:200])
            T('log-likelihood returned', leaf == {v.id}, f, 'the value returned is not the log-likelihood of all points')
    # the comparison function
    src = [v for v in leaves(f, dist.callee if not isinstance(dist.callee, (list, tuple)) else dist.callee[1])] if isinstance(dist.callee, int) else []
    cs = [f.vals[v] for v in src if isinstance(v, int) and getattr(f.vals.get(v), 'op', None) == 'call']
    if len(cs) == 1 and len(src) == 1:
        T('Mahalanobis distance', cs[0].callee_name() == 'vl_get_vector_3_comparison_function_' + t and same(E.at(cs[0].ops[0], cs[0].block), C(L.VlDistanceMahalanobis)), cs[0],
          'the distance of a point to a mode is not the Mahalanobis distance')
    else:
        T.skip('Mahalanobis distance', str(src))
    rep.count('steps')


def leaves(f, o, seen=None):
    seen = set() if seen is None else seen
    v = f.vals.get(o) if isinstance(o, int) else None
    if v is None:
        return [str(o)] if not isinstance(o, int) else [o]
    if v.op == 'phi' and not (v.block in f.loops):
        if v.id in seen:
            return []
        seen.add(v.id)
        return [x for q, _ in v.inc for x in leaves(f, q, seen)]
    return [v.id]


# ------------------------------------------------------------------ maximization

def insts(f, L, E, t):
    """calls that copy the means of the model to fresh memory: where a maximization step starts"""
    out = []
    for c in calls(f):
        if not (c.callee_name() or '').startswith(('llvm.memcpy', 'memcpy')):
            continue
        try:
            d, s = E.addr_at(c.ops[0], c.block), E.addr_at(c.ops[1], c.block)
        except alg.Unknown:
            continue
        if s == (L.means, {}) and d[0][0] == 'call' and not d[1]:
            out.append((c, d[0]))
    return out


def typed(f, L, E, t):
    """blocks that run for a data type"""
    c = Case(E, L.sub(t))
    return c


def assumed(p, truth):
    """p with the boolean conditions on the results of calls decided: truth(callee) -> bool or None"""
    def g(a):
        if a[0] in ('eq0', 'gt0'):
            at = {x for x in scev.deep_atoms(thaw(a[1])) if x[0] == 'callv'}
            if len(at) == 1 and len(thaw(a[1])) == 1:
                (x,) = at
                v = truth(x[2])
                if v is not None:
                    return C(1 if v == (a[0] == 'gt0') else 0)
        return None
    return scev.mapatoms(p, g)


def mstep(rep, m, L, t, name, f, E, inst, old, case, others, N):
    w = 4 if t == 'f' else 8
    T = Obl(rep, 'maximization', '%s (%s)' % (name, t))
    K, D = L.K, L.D
    i, k, j = I('i'), I('k'), I('j')
    start = inst.block
    own = lambda b: f.dominates(start, b) and not any(o.block != start and f.dominates(start, o.block) and f.dominates(o.block, b) for o in others) and b in case
    outer = [h for h in f.loops if start in f.loops[h]]
    inreg = lambda b: own(b) and all(b in f.loops[h] for h in outer)
    sts = [s for s in f.instrs if s.op == 'store' and inreg(s.block)]
    ph = Phase(E, sts, outer, start=start)
    mass, sm, sc, om = ('role', 'mass'), ('role', 'sums'), ('role', 'squares'), ('role', 'old')
    P = ld(L.posteriors, scale(add(mul(i, K), k), w))
    x = ld(('arg', 1), scale(add(mul(i, D), j), w))
    at = scale(add(mul(k, D), j), w)
    mu = ld(om, at)
    d = sub(x, mu)
    g = ge0(sub(P, mul(num(MIN_POST), alg.inv(K))))
    pk = ld(L.priors, scale(k, w))
    has = ge0(sub(pk, mul(num(MIN_MASS), alg.inv(K))))
    tot = SUM(lambda v: ld(L.priors, scale(v, w)), K)
    top = sel(gt0(sub(tot, num(MIN_SUM))), tot, num(MIN_SUM))
    me, co = ld(L.means, at), ld(L.covariances, at)
    lb = ld(L.sigmaLowBound, scale(j, 8))
    dd = sub(me, mu)
    kd = [('k', K), ('j', D)]
    nkd = [('i', N)] + kd
    S1 = [kern.Spec('mass of a mode', [('i', N), ('k', K)], mass, scale(k, w), add(ld(mass, scale(k, w)), P), g),
          kern.Spec('weighted sum of the points', nkd, sm, at, add(ld(sm, at), mul(P, x)), None),
          kern.Spec('weighted squares', nkd, sc, at, add(ld(sc, at), mul(P, mul(d, d))), None)]
    S2 = [kern.Spec('total mass', [('k', K)], L.priors, scale(k, w), add(pk, ld(mass, scale(k, w))), C(1)),
          kern.Spec('total sum', kd, L.means, at, add(me, ld(sm, at)), C(1)),
          kern.Spec('total squares', kd, L.covariances, at, add(co, ld(sc, at)), C(1))]
    S3 = [kern.Spec('mean', kd, L.means, at, mul(me, alg.inv(pk)), has),
          kern.Spec('second moment about the old mean', kd, L.covariances, at, mul(co, alg.inv(pk)), has)]
    S4 = [kern.Spec('variance about the new mean', kd, L.covariances, at, sub(co, mul(dd, dd)), has)]
    S5 = [kern.Spec('lower bound of the variances', kd, L.covariances, at, lb, gt0(sub(lb, co)))]
    S6 = [kern.Spec('prior', [('k', K)], L.priors, scale(k, w), mul(pk, alg.inv(top)), C(1))]
    specs = S1 + S2 + S3 + S4 + S5 + S6
    mp = ph.bind(['mass', 'sums', 'squares'], specs, {old: om})
    ms = ph.mapped(mp)
    inv = {v: b for b, v in mp.items()}
    post = [s for s in ms if s.base == L.posteriors]
    ms = [s for s in ms if s not in post]
    if not T.compare(inst, ms, specs):
        return
    T('posteriors kept', not post, post[0].ins if post else inst, 'the posteriors are changed by the maximization step')
    hit = {sp.name: next((s for s in ms if kern.fit(s, sp)), None) for sp in specs}
    # order of the phases
    groups = [S1, S2, S3, S4, S5, S6]
    for a, b in zip(groups, groups[1:]):
        for p in a:
            for q in b:
                if p in S4 + S5 and q in S6:
                    continue
                T('order', kern.before(E, hit[p.name].ins, hit[q.name].ins), hit[q.name].ins, '%s is computed before %s' % (q.name, p.name))
    for q in (S3 + S4):
        T('order', kern.before(E, hit[q.name].ins, hit['prior'].ins), hit['prior'].ins, 'the priors are normalised before the mass is used for %s' % q.name)
    # a mode's values are not normalised while points are still added
    hs = {n: hit[n].chain for n in hit}
    for q in S2:
        T('accumulated first', not ({h for h, _ in hit[q.name].chain} & {h for h, _ in hit['weighted squares'].chain}), hit[q.name].ins, 'sums are added to the totals before all points are visited')
    # memory
    init = {}
    for c in f.instrs:
        if c.op != 'call' or not inreg(c.block):
            continue
        nm = c.callee_name() or ''
        try:
            if nm.startswith('llvm.memset') or nm == 'memset':
                b, o = E.addr_at(c.ops[0], c.block)
                if b in (L.priors, L.means, L.covariances) and not o:
                    init.setdefault(b, []).append((c, E.at(c.ops[1], c.block), E.at(c.ops[2], c.block)))
            elif nm == 'vl_calloc' and ('call', c.id) in mp:
                init.setdefault(mp[('call', c.id)], []).append((c, {}, mul(E.at(c.ops[0], c.block), E.at(c.ops[1], c.block))))
            elif nm == 'vl_malloc' and ('call', c.id) in mp:
                init.setdefault((mp[('call', c.id)], 'malloc'), []).append((c, None, E.at(c.ops[0], c.block)))
        except alg.Unknown:
            continue
    sz = {L.priors: scale(K, w), mass: scale(K, w)}
    first = {L.priors: 'total mass', L.means: 'total sum', L.covariances: 'total squares', mass: 'mass of a mode', sm: 'weighted sum of the points', sc: 'weighted squares'}
    for b, nm in first.items():
        need = sz.get(b, scale(mul(K, D), w))
        c = init.get(b, [])
        if not c and (b, 'malloc') in init:
            T.skip('zeroed: ' + nm, 'allocated without being zeroed')
            continue
        ok = len(c) == 1 and same(c[0][1], {}) and same(c[0][2], need) and kern.before(E, c[0][0], hit[nm].ins) and same(kern.when(E, c[0][0].block, start), C(1)) \
            and not any(c[0][0].block in f.loops[h] for h in f.loops if h not in outer)
        T('zeroed: ' + nm, ok, c[0][0] if c else hit[nm].ins, 'the %s does not start from zero for every mode and dimension' % nm)
    ok = same(E.at(inst.ops[2], inst.block), scale(mul(K, D), w))
    T('old means', ok and all(kern.before(E, inst, c[0]) for c in init.get(L.means, [])), inst, 'the old means are not all kept')
    # scalar and vector code
    acc = [hit['weighted sum of the points'], hit['weighted squares']]
    (hi, _), (hk, _), (hj, _) = acc[0].chain
    r = {('it', hi): i, ('it', hk): k, ('it', hj): j}
    vec = {}
    for c in calls(f):
        n2 = c.callee_name() or ''
        if n2.startswith('_vl_weighted_') and inreg(c.block):
            vec.setdefault(n2, []).append(c)
    zero = lambda p: scev.mapatoms(p, lambda a: r.get(a) if a != ('it', hj) else {})
    for isa in ('avx', 'sse2'):
        for q, role in (('mean', sm), ('sigma', sc)):
            n2 = '_vl_weighted_%s_%s_%s' % (q, isa, t)
            cs = vec.pop(n2, [])
            if not cs:
                continue
            c = cs[0]
            a = [(rename({}, mp)[1](b), zero(o)) for b, o in (E.addr_at(o, c.block) for o in c.ops[1:-1])]
            row = lambda u: scale(mul(u, D), w)
            want = [(role, row(k)), (('arg', 1), row(i))] + ([(om, row(k))] if q == 'sigma' else [])
            T('vector code', len(cs) == 1 and same(E.at(c.ops[0], c.block), D) and same(zero(E.at(c.ops[-1], c.block)), P) and len(a) == len(want) and all(x[0] == y[0] and same(x[1], y[1]) for x, y in zip(a, want)), c,
              '%s is applied to other data than the scalar code' % n2)
    T('vector code', not vec, next(iter(vec.values()))[0] if vec else inst, '%s is used for data of type %s' % (next(iter(vec), ''), t))
    alt = {'mean': [acc[0].ins], 'sigma': [acc[1].ins]}
    for c in calls(f):
        n2 = c.callee_name() or ''
        for q in alt:
            if n2.startswith('_vl_weighted_%s_' % q) and inreg(c.block):
                alt[q].append(c)
    for q, cs in alt.items():
        ws = [zero(rename(kern.when(E, c.block, start), mp)[0]) for c in cs]
        for simd, avx, sse in itertools.product((False, True), repeat=3):
            tr = {'vl_get_simd_enabled': simd, 'vl_cpu_has_avx': avx, 'vl_cpu_has_sse2': sse}
            tot_ = {}
            for x_ in ws:
                tot_ = add(tot_, assumed(x_, lambda n_: tr.get(n_)))
            T('skipped associations', same(tot_, g), acc[0].ins, 'a point is added to the %ss of a mode under the condition %s instead of posterior >= %g / number of modes' % (q, alg.show(tot_)[:200], MIN_POST))
    rep.count('steps')


def mcases(rep, m, L, fname, t):
    f = m.F(fname)
    if f is None:
        return rep.skip('maximization', fname, 'not found')
    E = scev.Scev(f)
    c = Case(E, L.sub(t))
    case = set(c.succ)
    ii = [(x, o) for x, o in insts(f, L, E, t) if c.may(x.block)]
    want = {'vl_gmm_em': 2, 'vl_gmm_init_with_kmeans': 1}[fname]
    if len(ii) != want:
        return rep.skip('maximization', '%s (%s)' % (fname, t), '%d maximization steps found' % len(ii))
    for n, (x, o) in enumerate(ii):
        last = not any(x is not y and kern.before(E, x, y) for y, _ in ii)
        N = A('arg', 2) if last else L.N
        mstep(rep, m, L, t, fname[3:] + ('' if last else ', restart'), f, E, x, o, case, [y for y, _ in ii if y is not x], N)


# ------------------------------------------------------------------ EM loop

def prepared(T, f, E, L, t, c):
    """posteriors are made for the data"""
    w = 4 if t == 'f' else 8
    N = A('arg', 2)
    for nm, v in (('larger data', sub(sub(N, C(1)), S('k'))), ('other data', N)):
        cc = Case(E, {**L.sub(t), one(L.N): v})
        st = [i for i in f.instrs if i.op == 'store' and cc.may(i.block)]
        nd, po = [], []
        for i in st:
            b, o = E.addr_at(i.ops[1], i.block)
            if b == L.g and same(o, L.off['numData']):
                nd.append(i)
            if b == L.g and same(o, L.off['posteriors']):
                po.append(i)
        T('number of data', len(nd) == 1 and same(cc.val(nd[0].ops[0], nd[0].block), N) and cc.must(nd[0].block), nd[0] if nd else f, 'the number of data points is not set to that of the call')
        if nm == 'larger data':
            ok = len(po) == 1 and cc.must(po[0].block)
            T('posteriors allocated', ok, po[0] if po else f, 'no posteriors are allocated for data larger than before')
            if ok:
                mal = f.vals.get(po[0].ops[0])
                if mal is not None and mal.op == 'call' and mal.callee_name() == 'vl_malloc':
                    T('size of the posteriors', same(cc.val(mal.ops[0], mal.block), scale(mul(N, L.K), w)), mal, 'the posteriors have %s bytes' % alg.show(cc.val(mal.ops[0], mal.block))[:150])
                else:
                    T.skip('size of the posteriors')


def em(rep, m, L, t):
    f = m.F('vl_gmm_em')
    T = Obl(rep, 'EM', 'EM (%s)' % t)
    E = scev.Scev(f)
    w = 4 if t == 'f' else 8
    c = Case(E, L.sub(t))
    ec = [i for i in calls(f) if (i.callee_name() or '').startswith('vl_get_gmm_data_posteriors_') and c.may(i.block)]
    if len(ec) != 1:
        return T.skip('expectation step', '%d calls' % len(ec))
    ec = ec[0]
    hs = [h for h in f.loops if ec.block in f.loops[h]]
    if len(hs) != 1:
        return T.skip('loop', '%d loops' % len(hs))
    h = hs[0]
    a = [E.at(o, ec.block) for o in ec.ops]
    fl = lambda k: ld(L.g, L.off[k])
    want = [fl('posteriors'), L.K, A('arg', 2), fl('priors'), fl('means'), L.D, fl('covariances'), A('base', ('arg', 1))]
    want[2] = [A('arg', 2), L.N]
    T('arguments of the expectation step', ec.callee_name().endswith('_' + t) and all(any(same(x, z) for z in (y if isinstance(y, list) else [y])) for x, y in zip(a, want)), ec,
      'the expectation step is not applied to the model and the data: %s' % [alg.show(x)[:60] for x in a])
    prepared(T, f, E, L, t, c)
    ii = [(x, o) for x, o in insts(f, L, E, t) if c.may(x.block)]
    last = [x for x, _ in ii if not any(x is not y and kern.before(E, x, y) for y, _ in ii)]
    first = [x for x, _ in ii if x not in last]
    if len(last) != 1:
        return T.skip('maximization step', '%d' % len(last))
    mst = last[0]
    it = A('it', h)
    prev = []
    for v in f.blocks[h]:
        if v.op == 'phi' and v.ty == 'double':
            ins = [o for o, q in v.inc if q in f.loops[h]]
            out = [E.at(o, q) for o, q in v.inc if q not in f.loops[h]]
            if out and all(same(o, NEGINF) for o in out):
                prev.append(v)
                T('previous log-likelihood', {x for o in ins for x in leaves(f, o)} == {ec.id}, v, 'the log-likelihood compared with is not always that of the previous iteration')
    LL = A('callv', ec.id, ec.callee_name())
    mx = ld(L.g, L.off['maxNumIterations'])
    more = gt0(sub(mx, it))
    if len(prev) != 1:
        return T.skip('previous log-likelihood', '%d candidates' % len(prev))
    pv = A('v', prev[0].id)
    near = gt0(sub(num(EPS), alg.absv(sub(C(1), mul(pv, alg.inv(LL))))))
    cont = mul(more, NOT(mul(NOT(eq0(it)), near)))
    got = kern.when(E, mst.block, h)
    T('termination', same(got, cont), mst, 'the model is updated under another condition than: iterations left, and first iteration or relative variation of the log-likelihood >= 1e-5')
    tot = {}
    for b, s in E.exits(h):
        tot = add(tot, mul(E.reach(h, b)[b], E.edge(b, s)))
        T('expectation first', f.dominates(ec.block, b), f.blocks[b][-1], 'EM ends without having assigned the data to the current model')
    T('end', same(tot, NOT(cont)), f.blocks[h][-1], 'EM ends under another condition than: no iterations left, or relative variation of the log-likelihood below 1e-5')
    T('expectation before maximization', f.dominates(ec.block, mst.block) and mst.block in f.loops[h], mst, 'the model is updated before the data are assigned')
    # nothing of the model changes after the expectation step of the last iteration
    bad = []
    for b, s in E.exits(h):
        for i in f.instrs:
            if i.op == 'store' and not (i.block in f.loops[h]) and f.dominates(s, i.block):
                bb, o = E.addr_at(i.ops[1], i.block)
                if bb in (L.means, L.covariances, L.priors, L.posteriors):
                    bad.append(i)
    T('posteriors of the final model', not bad, bad[0] if bad else f, 'the model changes after the posteriors were computed')
    lv = set()
    for r in f.rets:
        lv |= {x for x in leaves(f, r.ops[0]) if isinstance(x, int)}
    others = {i.id for i in calls(f) if (i.callee_name() or '').startswith('vl_get_gmm_data_posteriors_')}
    T('log-likelihood returned', ec.id in lv and lv <= others, f, 'EM does not return the log-likelihood of the last iteration')
    # bounds before the first iteration
    i_, k, j = I('i'), I('k'), I('j')
    at = scale(add(mul(k, L.D), j), w)
    lb, co = ld(L.sigmaLowBound, scale(j, 8)), ld(L.covariances, at)
    pre = []
    for i in f.instrs:
        if i.op == 'store' and c.may(i.block) and i.block not in f.loops[h] and f.dominates(i.block, i.block):
            b, o = E.addr_at(i.ops[1], i.block)
            if b in (L.covariances, L.means, L.priors):
                pre.append(i)
    ph = [kern.Store(i, *E.addr_at(i.ops[1], i.block), E.at(i.ops[0], i.block), kern.chain_of(E, i.block), kern.guard_of(E, i.block), None) for i in pre]
    T.compare(f, ph, [kern.Spec('variances bounded before the first iteration', [('k', L.K), ('j', L.D)], L.covariances, at, lb, gt0(sub(lb, co)))])
    for i in pre:
        top = max([x for x in f.loops if i.block in f.loops[x]], key=lambda x: len(f.loops[x]), default=i.block)
        T('variances bounded first', f.dominates(top, h), i, 'the variances are not always bounded before the first iteration')
    rep.count('steps')
    restart(rep, m, L, t, f, E, c, h, first, cont, it)


def restart(rep, m, L, t, f, E, c, h, first, cont, it):
    T = Obl(rep, 'restart', 'restart of empty modes (%s)' % t)
    if len(first) != 1:
        return T.skip('maximization', '%d' % len(first))
    mst = first[0]
    w = 4 if t == 'f' else 8
    hm = [x for x in f.loops if mst.block in f.loops[x] and x != h]
    if len(hm) != 1:
        return T.skip('loops', '%d' % len(hm))
    hm = hm[0]
    e = A('it', hm)
    T('every mode', E.exit_it(hm) is not None and same(E.exit_it(hm), L.K), f.blocks[hm][-1], 'not every mode is looked at')
    region = lambda b: b in f.loops[h] and b in c.succ and not f.dominates(mst.block, b)
    sts = [i for i in f.instrs if i.op == 'store' and region(i.block) and kern.before(E, i, mst) and not kern.before(E, mst, i)]
    P = lambda i, k: ld(L.posteriors, scale(add(mul(i, L.K), k), w))
    ms, re = [], []
    for i in sts:
        b, o = E.addr_at(i.ops[1], i.block)
        (ms if b[0] == 'call' else re if b == L.posteriors else []).append(i)
    i_, k, d = I('i'), I('k'), I('d')
    if len(ms) != 1:
        return T.skip('mass', '%d stores' % len(ms))
    mbase = E.addr_at(ms[0].ops[1], ms[0].block)[0]
    mst_ = kern.Store(ms[0], *E.addr_at(ms[0].ops[1], ms[0].block), E.at(ms[0].ops[0], ms[0].block), [x for x in kern.chain_of(E, ms[0].block) if x[0] != h], kern.guard_of(E, ms[0].block), None)
    cell = ld(mbase, scale(k, w))
    T.compare(ms[0], [mst_], [kern.Spec('mass of a mode', [('i', L.N), ('k', L.K)], mbase, scale(k, w), add(cell, P(i_, k)), C(1))])
    al = f.vals[mbase[1]]
    if al.callee_name() == 'vl_calloc':
        T('mass starts from zero', same(mul(E.at(al.ops[0], al.block), E.at(al.ops[1], al.block)), scale(L.K, w)), al, 'the masses are not one zero per mode')
    T('condition', same(kern.when(E, al.block, h), mul(cont, mul(gt0(sub(it, C(1))), gt0(sub(L.K, C(1)))))), al, 'empty modes are restarted under another condition than: third iteration or later, two modes or more')
    # the mode to split
    cand = set()
    for i in re:
        for a in scev.deep_atoms(E.addr_at(i.ops[1], i.block)[1]):
            if a[0] == 'v':
                cand.add(a[1])
    if len(cand) != 1:
        return T.skip('mode to split', '%d candidates' % len(cand))
    bid = cand.pop()
    bv = f.vals[bid]
    hb = bv.block
    if hb not in f.loops or E.exit_it(hb) is None:
        return T.skip('mode to split', 'not a search loop')
    X = E.inner(hb)
    cl = {}
    for v in f.blocks[hb]:
        if v.op == 'phi' and v.ty != 'ptr' and E.close(v):
            cl[('v', v.id)] = E.at(v.id, hb)
    free = [v for v in f.blocks[hb] if v.op == 'phi' and ('v', v.id) not in cl and v.ty != 'ptr']
    nx = {v.id: scev.mapatoms(X.at(*[(o, q) for o, q in v.inc if q in f.loops[hb]][0]), cl.get) for v in free}
    ini = {v.id: E.at(*[(o, q) for o, q in v.inc if q not in f.loops[hb]][0]) for v in free}
    val = [v for v in free if v.id != bid]
    if len(val) != 1:
        return T.skip('mode to split', '%d values' % len(val))
    W = A('v', val[0].id)
    q = A('it', hb)
    pr = ld(L.priors, scale(q, w))
    import math
    score = mul(pr, sub(add(mul(L.D, num(0.5 * (1 + math.log(2 * math.pi)))), scale(SUM(lambda v: fn('log', ld(L.covariances, scale(add(mul(q, L.D), v), w))), L.D), alg.Fraction(1, 2))), fn('log', pr)))
    # constants folded by the compiler differ in the last digits: the score as computed, when it is equal to the definition
    for a in scev.deep_atoms(nx[val[0].id]):
        if a[0] == 'gt0' and thaw(a[1]).get(((('v', val[0].id), 1),)):
            dd_ = thaw(a[1])
            sc_ = add(scale(dd_, -1 / dd_[((('v', val[0].id), 1),)]), W)
            if same(sc_, score):
                score = sc_
                break
    cnd = mul(ge0(sub(pr, num(MIN_PRIOR))), gt0(sub(score, W)))
    ok = same(nx[val[0].id], sel(cnd, score, W)) and same(ini[val[0].id], NEGINF)
    T('score of a mode', ok, val[0], 'the mode to split does not maximise prior * (entropy of the mode - log prior)')
    T('mode to split', same(nx[bid], sel(cnd, q, A('v', bid))) and same(E.exit_it(hb), L.K) and same(ini[bid], C(-1)), bv, 'the mode to split is not the one with the largest score')
    B = A('v', bid)
    ppm = mul(L.N, alg.inv(L.K))
    w_ = kern.when(E, mst.block, hm)
    emp = [gt0(sub(mul(num(MIN_POST), sel(z(sub(ppm, C(1))), ppm, C(1))), ld(mbase, scale(e, w)))) for z in (gt0, ge0)]
    T('empty mode', any(same(w_, mul(x, mul(NOT(eq0(sub(B, e))), ge0(B)))) for x in emp), mst,
      'a mode is restarted under another condition than: mass < %g max(1, points per mode), and another mode can be split' % MIN_POST)
    # the dimension
    dims = set()
    for i in re:
        g = kern.when(E, i.block, hm)
        for a in scev.deep_atoms(g):
            if a[0] == 'v' and a[1] not in (bid, val[0].id):
                dims.add(a[1])
    if len(dims) != 1:
        return T.skip('dimension', '%d candidates' % len(dims))
    did = dims.pop()
    bb = kern.best(E, did)
    if bb is None or bb.idxphi != did:
        return T.skip('dimension', 'not a search loop')
    dq = A('it', bb.h)
    T('dimension', bb.kind == 'max' and same(bb.newval, ld(L.covariances, scale(add(mul(B, L.D), dq), w))) and same(bb.n, L.D) and same(bb.val0, NEGINF) and same(bb.newidx, dq), f.vals[did],
      'a mode is not split along the dimension of largest variance')
    # points to one mode or the other
    dd = A('v', did)
    hp = {max([x for x in f.loops if i.block in f.loops[x]], key=lambda x: -len(f.loops[x])) for i in re}
    if len(hp) != 1:
        return T.skip('points', '%d loops' % len(hp))
    hp = hp.pop()
    p = A('it', hp)
    T('every point', E.exit_it(hp) is not None and same(E.exit_it(hp), L.N), f.blocks[hp][-1], 'not every point is assigned to one of the two modes')
    both = add(P(p, B), P(p, e))
    low = gt0(sub(ld(L.means, scale(add(mul(B, L.D), dd), w)), ld(('arg', 1), scale(add(mul(p, L.D), dd), w))))
    for nm, mode, spec in (('points below the mean', e, mul(low, both)), ('other points', B, mul(NOT(low), both))):
        mine = [i for i in re if same(E.addr_at(i.ops[1], i.block)[1], scale(add(mul(p, L.K), mode), w))]
        tot, cov = {}, {}
        for i in mine:
            g = kern.when(E, i.block, hp)
            tot, cov = add(tot, mul(g, E.at(i.ops[0], i.block))), add(cov, g)
        T(nm, same(cov, C(1)) and same(tot, spec), mine[0] if mine else mst, 'the posterior of the %s becomes %s' % ('restarted mode' if mode is e else 'mode split', alg.show(tot)[:250]))
        for i in mine:
            from c40 import slice_loads
            for l in slice_loads(f, i.ops[0]):
                if E.addr_at(l.ops[0], l.block)[0] == L.posteriors:
                    T('posteriors read first', all(kern.before(E, l, x) for x in re), l, 'a posterior is read after it was changed')
    T('nothing else written', all(any(same(E.addr_at(i.ops[1], i.block)[1], scale(add(mul(p, L.K), z), w)) for z in (e, B)) for i in re) and len(re) + len(ms) == len(sts), mst, 'other values are changed')
    for i in re:
        T('estimation last', kern.before(E, i, mst), i, 'the modes are estimated before the points are assigned')
    rep.count('steps')


# ------------------------------------------------------------------ initialisation

def copies(f, E, c, pred):
    out = []
    for i in calls(f):
        if (i.callee_name() or '').startswith(('llvm.memcpy', 'memcpy', 'llvm.memset', 'memset')) and c.may(i.block):
            try:
                b, o = E.addr_at(i.ops[0], i.block)
            except alg.Unknown:
                continue
            if pred(b, o):
                out.append(i)
    return out


def ptrv(E, o, b):
    """a pointer value as the address it points to"""
    return E.addr_at(o, b)


def initkmeans(rep, m, L, t):
    f = m.F('vl_gmm_init_with_kmeans')
    T = Obl(rep, 'initialization', 'initialization with k-means (%s)' % t)
    E = scev.Scev(f)
    w = 4 if t == 'f' else 8
    c = Case(E, L.sub(t))
    prepared(T, f, E, L, t, c)
    ii = [x for x, _ in insts(f, L, E, t) if c.may(x.block)]
    cc = [i for i in calls(f) if i.callee_name() == 'vl_kmeans_cluster' and c.may(i.block)]
    qq = [i for i in calls(f) if i.callee_name() == 'vl_kmeans_quantize' and c.may(i.block)]
    if not (len(ii) == len(cc) == len(qq) == 1):
        return T.skip('shape', '%d %d %d' % (len(ii), len(cc), len(qq)))
    ii, cc, qq = ii[0], cc[0], qq[0]
    N = A('arg', 2)
    km = ld(L.g, L.off['kmeansInit'])
    asg = E.addr_at(qq.ops[1], qq.block)
    at = lambda z, k: E.at(z.ops[k], z.block)
    T('clusters', same(at(cc, 0), km) and E.addr_at(cc.ops[1], cc.block) == (('arg', 1), {}) and same(at(cc, 2), L.D) and same(at(cc, 3), N) and same(at(cc, 4), L.K), cc, 'the data are not clustered into one cluster per mode')
    T('assignments', same(at(qq, 0), km) and E.addr_at(qq.ops[3], qq.block) == (('arg', 1), {}) and same(at(qq, 4), N) and asg[0][0] == 'call' and not asg[1], qq, 'the data are not assigned to the clusters')
    post = [i for i in f.instrs if i.op == 'store' and c.may(i.block) and E.addr_at(i.ops[1], i.block)[0] == L.posteriors]
    sp = kern.Spec('posterior of the assigned mode', [('i', N)], L.posteriors, scale(add(mul(I('i'), L.K), ld(asg[0], scale(I('i'), 4))), w), C(1), C(1))
    st = [kern.Store(i, *E.addr_at(i.ops[1], i.block), E.at(i.ops[0], i.block), kern.chain_of(E, i.block), kern.guard_of(E, i.block), None) for i in post]
    if T.compare(qq, st, [sp]):
        z = copies(f, E, c, lambda b, o: b == L.posteriors and not o)
        T('other posteriors', len(z) == 1 and same(at(z[0], 1), {}) and same(at(z[0], 2), scale(mul(N, L.K), w)) and kern.before(E, z[0], post[0]) and c.must(z[0].block), z[0] if z else qq, 'the other posteriors are not all zero')
        T('order', all(kern.before(E, a, b) for a, b in ((cc, qq), (qq, post[0]), (post[0], ii))), post[0], 'clustering, assignment, posteriors and estimation are not done in this order')
    T('always', all(c.must(z.block) for z in (cc, qq, ii)), cc, 'k-means or the estimation of the model is not always done')
    # a k-means object given by the caller is the one used
    rep.count('steps')


def initrand(rep, m, L, t):
    f = m.F('vl_gmm_init_with_rand_data')
    T = Obl(rep, 'initialization', 'random initialization (%s)' % t)
    E = scev.Scev(f)
    w = 4 if t == 'f' else 8
    c = Case(E, L.sub(t))
    prepared(T, f, E, L, t, c)
    N = A('arg', 2)
    i, k, j = I('i'), I('k'), I('j')
    K, D = L.K, L.D
    x = ld(('arg', 1), scale(add(mul(i, D), j), w))
    mu, cj = ld(('role', 'mean'), scale(j, w)), ld(L.covariances, scale(j, w))
    d = sub(x, mu)
    specs = [kern.Spec('prior', [('k', K)], L.priors, scale(k, w), alg.inv(K), None),
             kern.Spec('sum of the data', [('j', D), ('i', N)], ('role', 'mean'), scale(j, w), add(mu, x), None),
             kern.Spec('mean of the data', [('j', D)], ('role', 'mean'), scale(j, w), mul(mu, alg.inv(N)), None),
             kern.Spec('sum of squares of the data', [('j', D), ('i', N)], L.covariances, scale(j, w), add(cj, mul(d, d)), None),
             kern.Spec('variance of the data', [('j', D)], L.covariances, scale(j, w), mul(cj, alg.inv(sub(N, C(1)))), None),
             kern.Spec('variances of the other modes', [('k', sub(K, C(1))), ('j', D)], L.covariances, scale(add(mul(add(k, C(1)), D), j), w), cj, None)]
    sts = []
    for s in f.instrs:
        if s.op == 'store' and c.may(s.block):
            b, o = E.addr_at(s.ops[1], s.block)
            if b != L.g:
                sts.append(s)
    ph = Phase(E, sts)
    for s in ph.st:
        s.guard = None
    mp = ph.bind(['mean'], specs)
    ms = ph.mapped(mp)
    if T.compare(f, ms, specs):
        hit = {sp.name: next(s for s in ms if kern.fit(s, sp)).ins for sp in specs}
        names = [sp.name for sp in specs]
        for a, b in list(zip(names[1:], names[2:])):
            T('order', kern.before(E, hit[a], hit[b]), hit[b], '%s is computed before %s' % (b, a))
        for nm, v in (('one point', C(1)), ('no points', {})):
            cc = Case(E, {**L.sub(t), one(N): v})
            for n2 in names:
                few = n2 in names[1:5]
                if few:
                    T('variance of one point', not cc.may(hit[n2].block), hit[n2], 'the variance is computed for a single point')
        cc = Case(E, {**L.sub(t), one(N): add(C(2), S('k')), one(K): add(C(2), S('a')), one(D): add(C(1), S('d'))})
        for n2 in names:
            top = max([q for q in f.loops if hit[n2].block in f.loops[q]], key=lambda q: len(f.loops[q]), default=hit[n2].block)
            T('always: ' + n2, cc.must(top), hit[n2], '%s is not always computed' % n2)
        z = copies(f, E, c, lambda b, o: b == L.covariances and not o)
        ok = len(z) == 1 and same(E.at(z[0].ops[1], z[0].block), {}) and any(same(E.at(z[0].ops[2], z[0].block), q) for q in (scale(D, w), scale(mul(D, K), w))) and kern.before(E, z[0], hit[names[3]])
        T('variances start from zero', ok, z[0] if z else f, 'the variances do not start from zero')
        rb = [b for b, r in mp.items() if r == ('role', 'mean')]
        z = copies(f, E, c, lambda b, o: b in rb and not o)
        if rb and f.vals[rb[0][1]].callee_name() == 'vl_malloc':
            ok = len(z) == 1 and same(E.at(z[0].ops[1], z[0].block), {}) and same(E.at(z[0].ops[2], z[0].block), scale(D, w)) and kern.before(E, z[0], hit[names[1]])
            T('mean starts from zero', ok, z[0] if z else f, 'the mean of the data does not start from zero')
    pp = [q for q in calls(f) if q.callee_name() == 'vl_kmeans_init_centers_plus_plus' and c.may(q.block)]
    cp = copies(f, E, c, lambda b, o: b == L.means)
    if len(pp) != 1 or len(cp) != 1:
        return T.skip('means', '%d %d' % (len(pp), len(cp)))
    pp, cp = pp[0], cp[0]
    at = lambda z, n: E.at(z.ops[n], z.block)
    kn = f.vals.get(pp.ops[0])
    T('means', c.must(pp.block) and E.addr_at(pp.ops[1], pp.block) == (('arg', 1), {}) and same(at(pp, 2), D) and same(at(pp, 3), N) and same(at(pp, 4), K), pp, 'the means are not picked from the data, one per mode')
    if kn is not None and kn.op == 'call' and kn.callee_name() == 'vl_kmeans_new':
        T('type and distance', same(c.val(kn.ops[0], kn.block), C(L.VL_TYPE_FLOAT if t == 'f' else L.VL_TYPE_DOUBLE)) and same(at(kn, 1), C(L.VlDistanceL2)), kn, 'the means are picked with another type or distance')
        gc = f.vals.get(cp.ops[1])
        if gc is not None and gc.op == 'call':
            T('centers copied', gc.callee_name() == 'vl_kmeans_get_centers' and gc.ops[0] == kn.id and kern.before(E, pp, gc), cp, 'the means are not the centers picked')
        else:
            co = build.constants('vl/kmeans.h', ['offsetof(struct _VlKMeans,centers)'])
            src = E.at(cp.ops[1], cp.block)
            T('centers copied', same(src, ld(('call', kn.id), C(co['offsetof(struct _VlKMeans,centers)']))) and kern.before(E, pp, cp), cp, 'the means are not the centers picked')
    T('all means', same(at(cp, 2), scale(mul(K, D), w)) and c.must(cp.block), cp, 'not all means are set')
    rep.count('steps')


# ------------------------------------------------------------------ repetitions

def cluster(rep, m, L):
    f = m.F('vl_gmm_cluster')
    T = Obl(rep, 'clustering', 'repetitions')
    E = scev.Scev(f)
    ec = [i for i in calls(f) if i.callee_name() == 'vl_gmm_em']
    if len(ec) != 1:
        return T.skip('EM', '%d calls' % len(ec))
    ec = ec[0]
    hs = [h for h in f.loops if ec.block in f.loops[h]]
    if len(hs) != 1:
        return T.skip('loop', '%d' % len(hs))
    h = hs[0]
    it = A('it', h)
    T('arguments', [E.addr_at(ec.ops[k], ec.block) for k in (0, 1)] == [(('arg', 0), {}), (('arg', 1), {})] and same(E.at(ec.ops[2], ec.block), A('arg', 2)), ec, 'EM is not run on the data given')
    n = E.exit_it(h)
    if n is None:
        T.skip('number of repetitions')
    else:
        good = same(n, ld(L.g, L.off['numRepetitions']))
        custom = scev.mapatoms(n, lambda a: C(L.VlGMMCustom) if a == one(ld(L.g, L.off['initialization'])) else None)
        rest = scev.mapatoms(n, lambda a: C(L.VlGMMRand) if a == one(ld(L.g, L.off['initialization'])) else None)
        swaps = [i for i in f.instrs if i.op == 'store' and i.block in f.loops[h] and E.addr_at(i.ops[1], i.block) == (L.g, L.off['means'])]
        if good and swaps:
            T('repetitions from a given model', False, swaps[0], 'with a model given by the user the repetitions after the first start from memory that was never written')
        T('number of repetitions', good or same(rest, ld(L.g, L.off['numRepetitions'])) and same(custom, C(1)), f.blocks[h][-1], 'the number of runs is %s' % alg.show(n)[:100])
    ini = one(ld(L.g, L.off['initialization']))
    names = {L.VlGMMKMeans: 'vl_gmm_init_with_kmeans', L.VlGMMRand: 'vl_gmm_init_with_rand_data', L.VlGMMCustom: None}
    for v, nm in names.items():
        cc = Case(E, {ini: C(v)}, start=h)
        T('EM in every repetition', cc.each(ec.block), ec, 'a repetition does not run EM')
        for n2 in set(names.values()) - {None}:
            q = [i for i in calls(f) if i.callee_name() == n2]
            if n2 == nm:
                ok = len(q) == 1 and cc.each(q[0].block) and kern.before(E, q[0], ec) and E.addr_at(q[0].ops[0], q[0].block) == (('arg', 0), {}) and E.addr_at(q[0].ops[1], q[0].block) == (('arg', 1), {}) \
                    and same(E.at(q[0].ops[2], q[0].block), A('arg', 2))
                T('initialization', ok, q[0] if q else ec, 'the model is not initialised as chosen before EM')
            else:
                T('initialization', not any(cc.may(i.block) for i in q), q[0] if q else ec, 'the model is initialised by %s although another initialisation was chosen' % n2)
    LL = A('callv', ec.id, 'vl_gmm_em')
    acc = [v for v in f.blocks[h] if v.op == 'phi' and v.ty == 'double']
    if len(acc) != 1:
        return T.skip('best log-likelihood', '%d' % len(acc))
    acc = acc[0]
    BL = A('v', acc.id)
    better = alg.NOT(mul(NOT(gt0(sub(LL, BL))), NOT(eq0(it))))
    X = E.inner(h)
    cl = {}
    for v in f.blocks[h]:
        if v.op == 'phi' and v.ty != 'ptr' and v is not acc and E.close(v):
            cl[('v', v.id)] = E.at(v.id, h)
    o, q = [(o, q) for o, q in acc.inc if q in f.loops[h]][0]
    T('best log-likelihood', same(scev.mapatoms(X.at(o, q), cl.get), sel(better, LL, BL)), acc, 'the log-likelihood kept is not the largest of the repetitions')
    fields = {}
    for i in f.instrs:
        if i.op == 'store':
            b, o = E.addr_at(i.ops[1], i.block)
            for k in ('priors', 'means', 'covariances', 'posteriors', 'LL'):
                if b == L.g and same(o, L.off[k]):
                    fields.setdefault(k, []).append(i)
    for k in ('priors', 'means', 'covariances', 'posteriors'):
        ins = [i for i in fields.get(k, []) if i.block in f.loops[h]]
        out = [i for i in fields.get(k, []) if i.block not in f.loops[h]]
        if len(ins) != 1 or len(out) != 1:
            T.skip(k, '%d %d stores' % (len(ins), len(out)))
            continue
        i, o_ = ins[0], out[0]
        ph = f.vals.get(i.ops[0])
        lv = leaves(f, o_.ops[0])
        ok = ph is not None and ph.op == 'phi' and ph.block == h and lv == [ph.id]
        T('best %s kept' % k, ok, o_, 'the %s at the end are not those of the best repetition' % k)
        if not ok:
            continue
        nx = {x for o, q in ph.inc if q in f.loops[h] for x in leaves(f, o)}
        lds = [f.vals[x] for x in nx if isinstance(x, int) and x != ph.id]
        ok = len(lds) == 1 and lds[0].op == 'load' and E.addr_at(lds[0].ops[0], lds[0].block) == (L.g, L.off[k]) and kern.before(E, lds[0], i) and kern.before(E, ec, lds[0]) and same(kern.when(E, i.block, ec.block), better)
        T('best %s kept' % k, ok and nx == {ph.id, lds[0].id}, i, 'the %s of a repetition are not kept exactly when its log-likelihood is the best so far' % k)
    ls = [i for i in fields.get('LL', [])]
    T('log-likelihood', len(ls) == 1 and leaves(f, ls[0].ops[0]) == [acc.id], ls[0] if ls else f, 'the log-likelihood of the object is not that of the best repetition')
    T('log-likelihood returned', {x for r in f.rets for x in leaves(f, r.ops[0])} == {acc.id}, f, 'the value returned is not the log-likelihood of the best repetition')
    rep.count('steps')


def setters(rep, m, L):
    size = lambda t: 4 if t == 'f' else 8
    for nm, base, n in (('vl_gmm_set_means', L.means, mul(L.K, L.D)), ('vl_gmm_set_covariances', L.covariances, mul(L.K, L.D)), ('vl_gmm_set_priors', L.priors, L.K)):
        f = m.F(nm)
        T = Obl(rep, 'setters', nm)
        E = scev.Scev(f)
        for t in 'fd':
            c = Case(E, L.sub(t))
            cp = copies(f, E, c, lambda b, o: True)
            if len(cp) != 1:
                T.skip('copy', '%d' % len(cp))
                continue
            cp = cp[0]
            T('copy', E.addr_at(cp.ops[0], cp.block) == (base, {}) and E.addr_at(cp.ops[1], cp.block) == (('arg', 1), {}) and same(c.val(cp.ops[2], cp.block), scale(n, size(t))) and c.must(cp.block), cp,
              'the values given are not all copied to the model')
    f = m.F('vl_gmm_set_covariance_lower_bounds')
    T = Obl(rep, 'setters', 'vl_gmm_set_covariance_lower_bounds')
    E = scev.Scev(f)
    cp = copies(f, E, Case(E, {}), lambda b, o: True)
    if len(cp) == 1:
        cp = cp[0]
        T('copy', E.addr_at(cp.ops[0], cp.block) == (L.sigmaLowBound, {}) and E.addr_at(cp.ops[1], cp.block) == (('arg', 1), {}) and same(E.at(cp.ops[2], cp.block), scale(L.D, 8)), cp, 'the bounds given are not all copied')
    else:
        T.skip('copy', '%d' % len(cp))
    f = m.F('vl_gmm_set_covariance_lower_bound')
    T = Obl(rep, 'setters', 'vl_gmm_set_covariance_lower_bound')
    E = scev.Scev(f)
    T.compare(f, kern.stores(E), [kern.Spec('bound', [('j', L.D)], L.sigmaLowBound, scale(I('j'), 8), A('arg', 1), C(1))])
    rep.count('steps')


def run():
    m = ir.libi()
    L = Layout(m)
    rep = report.Report('C38', RULE, 'closed forms of stores over symbolic iteration spaces, compared up to loop names, order and direction')
    if not L.ok:
        rep.skip('layout', 'VlGMM', 'members or constants not found')
        return rep
    for t in 'fd':
        guard(rep, posteriors, m, L, t)
        guard(rep, mcases, m, L, 'vl_gmm_init_with_kmeans', t)
        guard(rep, mcases, m, L, 'vl_gmm_em', t)
        guard(rep, em, m, L, t)
        guard(rep, initkmeans, m, L, t)
        guard(rep, initrand, m, L, t)
    guard(rep, cluster, m, L)
    guard(rep, setters, m, L)
    rep.floor('steps', rep.counts.get('steps', 0), 2) if hasattr(rep, 'counts') else None
    return rep
