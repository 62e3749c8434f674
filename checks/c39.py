"""C39: quick shift"""
import math
import ir, report, alg, kern, spec, scev, let
from alg import C, A, same
from spec import Obl
import sift_detect as sd
import sift_refine
from sift_desc import hsh, near, withv
Fr = alg.Fraction
DEBUG = False
ME = ('arg', 0)
BIG = 10 ** 15
RULE = ('quick shift: the density is the Parzen estimate over the window of three kernel sizes, computed anew for every image; each pixel is linked to the nearest pixel of greater density within the maximum distance, or to itself (infinite distance) '
        'when there is none; medoid shift links each pixel to the pixel of its window nearest to its weighted neighbors')



class Search:
    """nest of two search loops carrying a state; the state is what leaves the outer one"""
    def __init__(self, L, sts):
        f, E = L.f, L.E
        self.L, self.f, self.E = L, f, E
        outer = [h for h, _ in sts[0].chain]
        seen, todo, ph = set(), [s.val for s in sts], {}
        while todo:
            for a in scev.deep_atoms(todo.pop()):
                if a[0] != 'v' or a in seen:
                    continue
                seen.add(a)
                v = f.vals[a[1]]
                if v.op == 'phi' and v.block in f.loops and v.block not in outer:
                    ph[v.id] = v
                elif a[1] in L.ids:
                    todo.append(L.define(a[1]))
        hs = {v.block for v in ph.values()}
        if len(hs) != 1:
            raise alg.Unknown('search loops %s' % sorted(hs))
        self.g = g = hs.pop()
        self.PO = [p for p in f.blocks[g] if p.op == 'phi' and self.free(E, p)]
        ins = [h for h in f.loops if h != g and h in f.loops[g]]
        top = [h for h in ins if not any(h in f.loops[k] and k != h for k in ins)]
        top = [h for h in top if any(p.op == 'phi' and any(o in [q.id for q in self.PO] for o, _ in p.inc) for p in f.blocks[h])]
        if len(top) != 1:
            raise alg.Unknown('inner search loops %d' % len(top))
        self.h = h = top[0]
        self.PI = [p for p in f.blocks[h] if p.op == 'phi' and self.free(E, p)]
        self.link = {}
        for p in self.PI:
            o = [o for o, q in p.inc if q not in f.loops[h]]
            if len(o) != 1 or o[0] not in [q.id for q in self.PO]:
                raise alg.Unknown('start of the inner search')
            self.link[o[0]] = p.id
        if set(self.link) != {p.id for p in self.PO}:
            raise alg.Unknown('states')
        for p in self.PO:
            n = [o for o, q in p.inc if q in f.loops[g]]
            if n != [self.link[p.id]] and not (len(n) == 1 and self.passes(n[0]) == self.link[p.id]):
                raise alg.Unknown('end of the inner search')
        self.ini = {p.id: [(o, q) for o, q in p.inc if q not in f.loops[g]][0] for p in self.PO}
        self.nxt = {p.id: [(o, q) for o, q in p.inc if q in f.loops[h]][0] for p in self.PI}

    def passes(self, o):
        v = self.f.vals[o] if isinstance(o, int) else None
        while v is not None and v.op == 'phi' and len(v.inc) == 1:
            o = v.inc[0][0]
            v = self.f.vals[o]
        return o

    @staticmethod
    def free(E, p):
        if p.ty == 'ptr':
            return False
        return E.close(p) is None

    def start(self, env):
        r = {}
        for k, (o, q) in self.ini.items():
            if isinstance(o, (list, tuple)) and str(o[2]) in ('inf', '+inf', 'Infinity'):
                r[k] = BIG
            else:
                r[k] = spec.num(self.E.at(o, q), env)
        return r

    def step(self, state, mk, its):
        """state (of the outer phis) after one iteration"""
        e = mk(its)
        for k, v in state.items():
            e[('v', self.link[k])] = v
        new = {}
        for k, i in self.link.items():
            o, q = self.nxt[i]
            new[k] = self.value(o, q, e)
        return new

    def value(self, o, q, e, depth=0):
        """value of an incoming value; merged values are followed along the branches taken"""
        E = self.E
        return spec.num(E.at(o, q), e)

    def result(self, s, state, mk, its):
        e = mk(its)
        for k, v in state.items():
            e[('v', k)] = v
        return spec.num(s.val, e)


def process(rep, m):
    name = 'vl_quickshift_process'
    f = m.F(name)
    T = Obl(rep, 'quickshift', name)
    O = offs()
    P = {n: spec.ptr(ME, C(O[n])) for n in ('image', 'parents', 'dists', 'density')}
    L = let.Let(f, m)
    E = L.E
    sts = kern.stores(E, guards=False)
    by = lambda b: [s for s in sts if s.base == b]
    known = set(P.values())
    img = lambda o: hsh(('i', int(o)), 0, 3)

    def filt(w):
        return {O['height']: w['N1'], O['width']: w['N2'], O['channels']: w['K'], O['medoid']: w['medoid'], O['sigma']: w['sigma'], O['tau']: w['tau']}

    def mk_(w, tabs):
        t = {ME: filt(w), P['image']: img}
        t.update(tabs)
        return lambda its: L.env(its, let.fields(E, t))
    I = lambda w, a, b, k: float(img(8 * (a + w['N1'] * b + w['N1'] * w['N2'] * k)))
    dist = lambda w, i, j: (i[0] - j[0]) ** 2 + (i[1] - j[1]) ** 2 + sum((I(w, *i, k) - I(w, *j, k)) ** 2 for k in range(w['K']))
    window = lambda w, i, R: [(a, b) for b in range(max(i[1] - R, 0), min(i[1] + R, w['N2'] - 1) + 1) for a in range(max(i[0] - R, 0), min(i[0] + R, w['N1'] - 1) + 1)]
    W = [dict(N1=5, N2=4, K=2, sigma=Fr(1, 2), tau=Fr(13, 10), medoid=0), dict(N1=3, N2=6, K=1, sigma=Fr(1, 3), tau=Fr(5, 2), medoid=0), dict(N1=4, N2=4, K=3, sigma=Fr(3, 2), tau=2, medoid=0), dict(N1=4, N2=3, K=0, sigma=Fr(2, 5), tau=Fr(7, 2), medoid=0)]

    # density
    D = by(P['density'])
    zero = [s for s in D if same(s.val, {})]
    D = [s for s in D if s not in zero]
    if not D:
        return T.skip('density', 'no store')
    mem = [i for i in f.instrs if i.op == 'call' and (i.callee_name() or '').startswith('llvm.memset') and E.addr_at(i.ops[0], i.block)[0] == P['density']]
    bad = None
    acc = False
    for w in W:
        R = math.ceil(3 * w['sigma'])
        tot = {}
        for off in (0, 5):
            mk = mk_(w, {P['density']: lambda o: off})
            for s, o, v in let.effects(L, D, sd.walk, {}, mk, guards=False):
                tot.setdefault(o, {}).setdefault(off, []).append((s, v))
        for a in range(w['N1']):
            for b in range(w['N2']):
                t = tot.pop(8 * (a + w['N1'] * b), None)
                if t is None:
                    bad = bad or (D[0], 'the density of pixel (%d, %d) is not computed' % (a, b))
                    continue
                got = 0.0
                for (s, v), (_, v5) in zip(t[0], t[5]):
                    k = v5 - v
                    acc = acc or abs(k) > 1e-6
                    if abs(k) > 1e-6 and abs(k - 5) > 1e-6:
                        bad = bad or (s, 'the density of a pixel is scaled')
                    got = got + float(v) if abs(k) > 1e-6 else float(v)
                want = sum(math.exp(-dist(w, (a, b), j) / (2 * float(w['sigma']) ** 2)) for j in window(w, (a, b), R))
                if not near(got, want):
                    bad = bad or (t[0][0][0], 'the density of pixel (%d, %d) of a %d x %d image with kernel size %.3g is %.6g instead of %.6g' % (a, b, w['N1'], w['N2'], float(w['sigma']), got, want))
        if tot:
            bad = bad or (D[0], 'densities outside the image')
    T('density', bad is None, bad[0].ins if bad else D[0].ins, 'Parzen estimate over the window of three kernel sizes: %s' % (bad[1] if bad else ''))
    if acc:
        n = alg.mul(A('ld', ME, alg.freeze(C(O['height']))), A('ld', ME, alg.freeze(C(O['width']))))
        full = [i for i in mem if same(E.at(i.ops[1], i.block), {}) and all(kern.before(E, i, s.ins) for s in D)]
        if zero and not mem:
            ok = all(any(kern.before(E, z.ins, s.ins) for z in zero) for s in D)
            bad = None
            for w in W:
                at_ = {o for s, o, v in let.effects(L, zero, sd.walk, {}, mk_(w, {P['density']: lambda o: 0}), guards=False)}
                if at_ != {8 * q for q in range(w['N1'] * w['N2'])}:
                    bad = 'not all pixels'
            T('anew', ok and bad is None, zero[0].ins, 'the density starts from zero: %s' % bad)
        else:
            T('anew', bool(full), D[0].ins, 'the density is computed anew for each image: it starts from zero, not from the density of the image before')
            for i in full:
                bad = None
                for w in W:
                    if spec.num(E.at(i.ops[2], i.block), mk_(w, {})({})) != 8 * w['N1'] * w['N2']:
                        bad = 'size'
                T('anew all', bad is None and same(E.addr_at(i.ops[0], i.block)[1], {}), i, 'all densities are cleared')
    # links
    par = by(P['parents'])
    dst = by(P['dists'])
    cond = lambda s: phase(L, f, s, sts, O, mk_, W)
    for med in (0, 1):
        ps, ds = [s for s in par if cond(s) in (med, None)], [s for s in dst if cond(s) in (med, None)]
        what = 'medoid' if med else 'quick'
        if len(ps) != 1 or len(ds) != 1 or [h for h, _ in ps[0].chain] != [h for h, _ in ds[0].chain] or len(ps[0].chain) != 2:
            T.skip(what, '%d, %d stores' % (len(ps), len(ds)))
            continue
        try:
            (medoid if med else quick)(T, L, f, m, P, O, ps[0], ds[0], mk_, W, I, dist, window, D, sts, known)
        except alg.Unknown as e:
            T.skip(what, str(e)[:150])


def phase(L, f, s, sts, O, mk_, W):
    """the mode (medoid or not) in which the loops of a store are entered"""
    h = s.chain[0][0] if s.chain else s.ins.block
    r = set()
    for med in (0, 1):
        e = mk_(dict(W[0], medoid=med), {})({})
        try:
            x = sd.walk(L, 0, {h}, set(), e)
        except alg.Unknown:
            return None
        if True in x:
            r.add(med)
    return r.pop() if len(r) == 1 else None


def pixels(L, s, w, mk, T):
    """{pixel: iterations} of the nest of a store"""
    out = {}
    hs = [h for h, _ in s.chain]
    n = [let.trips(L, h, mk({})) for h in hs]
    for x in range(n[0]):
        for y in range(n[1]):
            its = {('it', hs[0]): x, ('it', hs[1]): y}
            o = spec.num(s.off, mk(its))
            out.setdefault(o, []).append(its)
    return out


def cells(w):
    return [(a, b) for b in range(w['N2']) for a in range(w['N1'])]


def some(w):
    a, b = w['N1'], w['N2']
    return [(0, 0), (a - 1, 0), (a // 2, b // 2), (0, b - 1), (a - 1, b - 1)]


def iterate(S, mk, its):
    n = let.trips(S.L, S.g, mk(its))
    for x in range(n):
        i1 = {**its, ('it', S.g): x}
        k = let.trips(S.L, S.h, mk(i1))
        for y in range(k):
            yield {**i1, ('it', S.h): y}


def quick(T, L, f, m, P, O, p, d, mk_, W, I, dist, window, D, sts, known):
    S = Search(L, [p, d])
    S_E = S
    bad = None
    for w in W:
        tR = math.ceil(w['tau'])
        tau2 = float(w['tau']) ** 2
        den = lambda o: hsh(('e', int(o)), 0, 9)
        ed = lambda i: den(8 * (i[0] + w['N1'] * i[1]))
        mk = mk_(w, {P['density']: den})
        high = {}
        px = pixels(L, p, w, mk, T)
        dx = pixels(L, d, w, mk, T)
        if sorted(px) != [4 * q for q in range(w['N1'] * w['N2'])] or sorted(dx) != [8 * q for q in range(w['N1'] * w['N2'])]:
            T('all pixels', False, p.ins, 'parents and distances are stored for all pixels')
            return
        for i in cells(w) if w is W[0] else some(w):
            at = i[0] + w['N1'] * i[1]
            its = px[4 * at][0]
            if dx[8 * at][0] != its:
                bad = bad or 'parent and distance belong to different pixels'
                break
            st = S.start(mk(its))
            if S.result(p, st, mk, its) != at or max(st.values()) != BIG:
                bad = bad or 'the search of pixel %s does not start from itself at infinite distance' % (i,)
                break
            # nothing is linked where all densities are equal
            flat = mk_(w, {P['density']: lambda o: 3})
            for it in iterate(S, flat, its):
                new = S_E.step(st, flat, it)
                if S.result(p, new, flat, its) != at or max(new.values()) != BIG:
                    bad = bad or 'pixel %s of an image of equal densities is linked at a finite distance' % (i,)
                    break
            if bad:
                break
            # every candidate replaces a worse one exactly when it has greater density and is within the maximum distance
            win = window(w, i, tR)
            for ds in ('inf', 'less', 'more'):
                if bad:
                    break
                seen = []
                for it in iterate(S, mk, its):
                    # which candidate is it: taken when it has greater density, the pixels beyond the maximum distance never are

                    def load_all(its2, top=at):
                        e = mk(its2)
                        old = e['load']
                        e['load'] = lambda b, o: (0 if o == 8 * top else 1) if b == P['density'] else old(b, o)
                        return e
                    e = load_all(it)
                    j = candidate(S, S_E, st, it, load_all, p, its)
                    if j is None:
                        continue
                    j = (int(j) % w['N1'], int(j) // w['N1'])
                    seen.append(j)
                    if j == i:
                        continue
                    dj = dist(w, i, j)
                    if dj > tau2:
                        bad = bad or 'pixel %s is linked to %s at squared distance %.3g (maximum %.3g)' % (i, j, dj, tau2)
                        break
                    state = dict(st)
                    k0 = next(k for k in st if st[k] == BIG)
                    if ds != 'inf':
                        state[k0] = Fr(round((dj + (.01 if ds == 'more' else -.01)) * 10 ** 6), 10 ** 6)
                    if ds == 'less' and state[k0] <= 0:
                        continue
                    new = S_E.step(state, mk, it)
                    take = ed(j) > ed(i) and dj <= tau2 and dj < state[k0]
                    want = (j[0] + w['N1'] * j[1], math.sqrt(dj)) if take else (at, None)
                    if S.result(p, new, mk, its) != want[0]:
                        bad = bad or 'pixel %s of density %.3g %s linked to %s of density %.3g at squared distance %.3g (maximum %.3g, best so far %s)' % (i, float(ed(i)), 'is not' if take else 'is', j, float(ed(j)), dj, tau2, 'none' if ds == 'inf' else '%.3g' % float(state[k0]))
                    elif take and not near(S.result(d, new, mk, its), want[1]):
                        bad = bad or 'the distance to the parent is %.5g instead of %.5g' % (float(S.result(d, new, mk, its)), want[1])
                    elif not take and new[k0] != state[k0]:
                        bad = bad or 'the best distance changes without a link'
                miss = [j for j in win if j != i and j not in seen and dist(w, i, j) <= tau2]
                if miss:
                    bad = bad or 'pixel %s is not linked to %s of greater density at squared distance %.3g (maximum %.3g)' % (i, miss[0], dist(w, i, miss[0]), tau2)
            if bad:
                break
    T('link', bad is None, p.ins, 'each pixel is linked to the nearest pixel of greater density within the maximum distance: %s' % bad)
    T('distance after', all(kern.before(L.E, x.ins, p.ins) for x in D), p.ins, 'links are searched when all densities are known')


def candidate(S, S_E, st, it, mk, p, its):
    """the parent after a step in which every density is greater"""
    new = S_E.step(st, mk, it)
    if new == st:
        return None
    return S.result(p, new, mk, its)


def closed(S, m):
    """the same search with next values in full closed form"""
    import copy
    X = copy.copy(S)
    X.E = S.L.plain
    return X


def medoid(T, L, f, m, P, O, p, d, mk_, W, I, dist, window, D, sts, known):
    E = L.E
    S = Search(L, [p, d])
    S_E = S
    tmp = [s for s in sts if s.base not in known and s.base != ME]
    nb = {s.base for s in tmp if len(s.chain) == 2}
    Mb = {s.base for s in tmp if len(s.chain) > 2}
    if len(nb) != 1 or len(Mb) != 1 or nb == Mb:
        return T.skip('medoid', 'temporaries %s %s' % (nb, Mb))
    nb, Mb = nb.pop(), Mb.pop()
    bad = None
    W = [dict(w, medoid=1) for w in W[:2]]
    for w in W:
        N = w['N1'] * w['N2']
        R = math.ceil(3 * w['sigma'])
        # inner products and weighted sums
        mk = mk_(w, {Mb: lambda o: 0, nb: lambda o: 0})
        got = {}
        for s, o, v in let.effects(L, [s for s in tmp if s.base == nb], sd.walk, {}, mk, guards=False):
            got[o] = v
        for i in cells(w):
            want = i[0] ** 2 + i[1] ** 2 + sum(I(w, *i, k) ** 2 for k in range(w['K']))
            if not near(got.get(8 * (i[0] + w['N1'] * i[1]), -1), want):
                bad = bad or (tmp[0], 'squared norm of pixel %s' % (i,))
        got = {}
        for s, o, v in let.effects(L, [s for s in tmp if s.base == Mb], sd.walk, {}, mk, guards=False):
            got[o] = got.get(o, 0) + v
        for i in cells(w):
            for k in range(w['K'] + 2):
                want = -sum((j[k] if k < 2 else I(w, *j, k - 2)) * math.exp(-dist(w, i, j) / (2 * float(w['sigma']) ** 2)) for j in window(w, i, R))
                if not near(got.get(8 * (i[0] + w['N1'] * i[1] + N * k), 1), want):
                    bad = bad or (next(s for s in tmp if s.base == Mb), 'component %d of the weighted sum of pixel %s' % (k, i))
    T('moments', bad is None, bad[0].ins if bad else p.ins, 'squared norms and weighted sums of the pixels of the window: %s' % (bad[1] if bad else ''))
    bad = None
    for w in W:
        N = w['N1'] * w['N2']
        R = math.ceil(3 * w['sigma'])
        h = {P['density']: lambda o: hsh(('e', int(o)), 1, 9), nb: lambda o: hsh(('n', int(o)), 0, 4), Mb: lambda o: -hsh(('m', int(o)), 5, 9)}
        mk = mk_(w, h)
        px = pixels(L, p, w, mk, T)
        for i in some(w):
            at = i[0] + w['N1'] * i[1]
            if len(px.get(4 * at, [])) != 1:
                bad = bad or 'parents are not stored for all pixels'
                break
            its = px[4 * at][0]
            st = S.start(mk(its))
            if S.result(p, st, mk, its) != at:
                bad = bad or 'the search does not start from the pixel itself'
            seen = []
            for it in iterate(S, mk, its):
                low = dict(st)
                k0 = [k for k in st if ('v', k) in names(L, d.val)]
                if len(k0) != 1:
                    raise alg.Unknown('score')
                k0 = k0[0]
                low[k0] = -BIG
                new = S_E.step(low, mk, it)
                j = int(S.result(p, new, mk, its))
                j = (j % w['N1'], j // w['N1'])
                seen.append(j)
                Q = -float(h[nb](8 * (j[0] + w['N1'] * j[1]))) * float(h[P['density']](8 * at)) - 2 * sum((j[k] if k < 2 else I(w, *j, k - 2)) * float(h[Mb](8 * (at + N * k))) for k in range(w['K'] + 2))
                if not near(new[k0], Q):
                    bad = bad or 'the score of %s for %s is %.5g instead of %.5g' % (j, i, float(new[k0]), Q)
                    break
                for dq in (.01, -.01):
                    low[k0] = Fr(round((Q + dq) * 10 ** 6), 10 ** 6)
                    n2 = S_E.step(low, mk, it)
                    if (S.result(p, n2, mk, its) != at) != (dq < 0 and j != i):
                        bad = bad or 'the best score is not kept'
            if sorted(seen) != sorted(window(w, i, R)):
                bad = bad or 'pixel %s is compared with %s' % (i, seen)
            if bad:
                break
    T('medoid', bad is None, p.ins, 'each pixel is linked to the pixel of the window of largest score: %s' % bad)


def names(L, p):
    out, todo = set(), [p]
    while todo:
        for a in scev.deep_atoms(todo.pop()):
            if a[0] == 'v' and a not in out:
                out.add(a)
                if a[1] in L.ids:
                    todo.append(L.define(a[1]))
    return out


def new(rep, m):
    name = 'vl_quickshift_new'
    f = m.F(name)
    T = Obl(rep, 'quickshift', name)
    E = spec.scev_of(f, m)
    O = offs()
    al = [i for i in f.instrs if i.op == 'call' and i.callee_name() == 'vl_malloc']
    sts = [s for s in kern.stores(E, guards=False) if al and s.base == ('a', al[0].id) or s.base[0] not in ('arg',)]
    by = {}
    for s in sts:
        if alg.is_const(s.off):
            by.setdefault(int(alg.cval(s.off)), []).append(s)
    a = lambda n: A('arg', n)
    for n, v in (('image', spec.P(('arg', 0))), ('height', a(1)), ('width', a(2)), ('channels', a(3)), ('medoid', {})):
        q = by.get(O[n], [])
        if len(q) != 1:
            T.skip(n, '%d stores' % len(q))
        else:
            T(n, same(q[0].val, v), q[0].ins, 'the object remembers its %s: %s' % (n, alg.show(q[0].val)[:100]))
    for i in f.instrs:
        if i.op == 'call' and i.callee_name() == 'vl_calloc':
            n = alg.mul(E.at(i.ops[0], i.block), E.at(i.ops[1], i.block))
            q = {k for k in O if O[k] in by and any(s.ins.ops[0] == i.id for s in by[O[k]])}
            w = 4 if q == {'parents'} else 8
            if len(q) == 1:
                T('size of %s' % min(q), same(n, alg.scale(alg.mul(a(1), a(2)), w)), i, 'one entry per pixel: %s' % alg.show(n)[:100])
            else:
                T.skip('buffer', str(q))


def offs():
    return {n: int(alg.cval(o)) if isinstance(o, dict) else int(o) for n, o in spec.offsets('vl/quickshift.h', 'VlQS', ('image', 'height', 'width', 'channels', 'medoid', 'sigma', 'tau', 'parents', 'dists', 'density')).items()}


def run():
    rep = report.Report('C39', RULE, 'closed forms of all stores and of the search steps')
    m = ir.libm()
    guard = spec.guarded(lambda: DEBUG)
    guard(rep, process, m)
    guard(rep, new, m)
    return rep
