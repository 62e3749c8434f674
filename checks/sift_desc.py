"""C41, part: gradients, orientations and descriptors of SIFT keypoints"""
import itertools, math, random
import alg, kern, spec, scev, let
from alg import C, A, add, sub, mul, scale, fn, same, thaw
from kern import ld, I, Spec, SUM
from spec import Obl, P, ptr
import sift_detect as sd
import sift_refine
Fr = alg.Fraction
ME = ('arg', 0)
TWO = 2 * math.pi


def off(l, n):
    o = l.off[n]
    return int(alg.cval(o)) if isinstance(o, dict) else int(o)


def kof(l, n):
    o = l.kp[n]
    return int(alg.cval(o)) if isinstance(o, dict) else int(o)


def hsh(k, lo=0.0, hi=1.0):
    return Fr(round((lo + (hi - lo) * random.Random('%s' % (k,)).random()) * 10 ** 6), 10 ** 6)


def near(x, y, tol=1e-5):
    return abs(float(x) - float(y)) <= tol * max(1e-3, abs(float(x)), abs(float(y)))


def filt(l, **kw):
    v = dict(s_min=-1, s_max=4, S=3, o_min=-1, O=4, o_cur=1, octave_width=20, octave_height=18, width=40, height=36, magnif=3, windowSize=2, norm_thresh=0, grad_o=0, sigma0=Fr(8, 5))
    v.update(kw)
    return {off(l, n): x for n, x in v.items()}


def keyp(l, **kw):
    v = dict(o=1, ix=0, iy=0, x=Fr(1987, 100), y=Fr(1631, 100), s=Fr(21, 10), sigma=Fr(311, 100))
    v['is'] = 2
    v.update(kw)
    return {kof(l, n): x for n, x in v.items()}


def gradient(rep, m, l, name):
    f = m.F(name)
    T = Obl(rep, 'gradient', name)
    L = let.Let(f, m)
    sts = kern.stores(L.E, guards=False)
    G = [s for s in sts if s.base == l.gradP]
    if not G:
        return T.skip('stores', 'no gradient is stored')
    for w, h in ((5, 4), (3, 3), (4, 6), (2, 2)):
        img = lambda o: hsh(('img', int(o)), 0, 9)
        load = let.fields(L.E, {ME: filt(l, octave_width=w, octave_height=h), l.octaveP: img})
        got = {}
        bad = None
        for s, o, v in let.effects(L, G, sd.walk, {}, lambda its: L.env(its, load), guards=False):
            if o in got:
                bad = (s, 'two values are stored for one pixel')
            got[o] = (s, v)
        wh = w * h
        for lev in range(3):
            p = lambda x, y: float(img(4 * (wh * (lev + 1) + x + y * w)))
            for y in range(h):
                for x in range(w):
                    gx = p(1, y) - p(0, y) if x == 0 else p(x, y) - p(x - 1, y) if x == w - 1 else (p(x + 1, y) - p(x - 1, y)) / 2
                    gy = p(x, 1) - p(x, 0) if y == 0 else p(x, y) - p(x, y - 1) if y == h - 1 else (p(x, y + 1) - p(x, y - 1)) / 2
                    at = 8 * (wh * lev + x + y * w)
                    for o, v, nm in ((at, math.hypot(gx, gy), 'modulus'), (at + 4, math.atan2(gy, gx) % TWO, 'angle')):
                        if o not in got:
                            bad = bad or (None, 'the %s at (%d, %d) of level %d is not computed' % (nm, x, y, lev))
                        elif not near(got[o][1], v) and not (nm == 'angle' and near(abs(float(got[o][1]) - v), TWO)):
                            bad = bad or (got[o][0], 'the %s of the gradient at (%d, %d) of level %d is not that of the differences' % (nm, x, y, lev))
        if not bad and len(got) != 6 * wh:
            bad = (None, '%d values outside the levels' % (len(got) - 6 * wh))
        T('%d x %d' % (w, h), bad is None, bad[0].ins if bad and bad[0] else f, 'octave of %d x %d pixels: %s' % (w, h, bad[1] if bad else ''))
    # brought up to date exactly when they are those of another octave
    done = [s for s in sts if s.base == ME and same(s.off, C(off(l, 'grad_o')))]
    T('marked', len(done) == 1 and same(done[0].val, l.o_cur), done[0].ins if done else f, 'the gradients are marked as those of the current octave')
    k = ('arg', 2)
    tgt = {s.ins.block for s in G} | {b for b in f.loops if any(s.ins.block in f.loops[b] for s in G)}
    for go in (0, 1, 2):
        e = L.env({}, let.fields(L.E, {ME: filt(l, grad_o=go), k: keyp(l)}))
        r = sd.walk(L, 0, tgt, {b for b in range(len(f.blocks)) if f.blocks[b] and hist_block(f, b)}, e)
        if len(r) != 1:
            T.skip('current %d' % go, 'undecided')
        else:
            T('current %d' % go, r == {go != 1}, f, 'the gradients are computed anew exactly when the octave has changed')
    ms = [b for b in range(len(f.blocks)) if hist_block(f, b)]
    for d in done:
        T('before use', all(kern.before(L.E, d.ins, f.blocks[b][-1]) for b in ms), d.ins, 'the gradients are up to date before they are used')


def hist_block(f, b):
    return any(i.op == 'call' and (i.callee_name() or '').startswith('llvm.memset') for i in f.blocks[b])


def entry(T, L, l, f, k, cases, ms):
    for nm, want, fk, kk in cases:
        e = L.env({}, let.fields(L.E, {ME: filt(l, **fk), k: keyp(l, **kk)}))
        r = sd.walk(L, 0, set(ms), set(), e)
        if len(r) != 1:
            T.skip('entry %s' % nm, 'undecided')
        else:
            T('entry %s' % nm, r == {want}, f, 'the keypoint is %s: %s' % ('used' if want else 'ignored', nm))


def table(tab):
    def g(o):
        k = Fr(o) / 8
        if k.denominator != 1 or not 0 <= k < tab['n']:
            return 10 ** 9  # a value that counts only if the entry is used
        return let.frac(math.exp(-float(k) * float(tab['step'])))
    return g


ENTRY = [('a keypoint of the current octave', True, {}, {}), ('of another octave', False, {}, dict(o=2)), ('of another octave (previous)', False, {}, dict(o=0)),
         ('left of the image', False, {}, dict(x=Fr(-31, 10))), ('left border', True, {}, dict(x=Fr(1, 10))), ('right of the image', False, {}, dict(x=Fr(402, 10))), ('right border', True, {}, dict(x=Fr(378, 10))),
         ('above the image', False, {}, dict(y=Fr(-31, 10))), ('upper border', True, {}, dict(y=Fr(1, 10))), ('below the image', False, {}, dict(y=Fr(362, 10))), ('lower part', True, {}, dict(y=Fr(322, 10))),
         ('lowest level', True, {}, {'is': 0}), ('below the levels', False, {}, {'is': -1}), ('highest level', True, {}, {'is': 2}), ('above the levels', False, {}, {'is': 3})]


def compare(T, nm, L, stores, msg, ref, mk, outer, samples, ins):
    """effects of the stores in one iteration of the outer loops against ref(sample, a, b) -> {offset: increment}; a, b: the iterations of the outer loops in the order of the definition"""
    combos = list(itertools.product((0, 1), (0, 1), (0, 1)))
    err = None
    alive = {c: None for c in combos}
    for smp in samples:
        env0 = mk(smp, {})
        n = {}
        for h in outer:
            n[h] = let.trips(L, h, mk(smp, {}))
        N = ref(smp, None, None)
        for c in combos:
            if alive[c] is not None:
                continue
            h1, h2 = (outer[0], outer[1]) if not c[0] else (outer[1], outer[0])
            if (n[h1], n[h2]) != N:
                alive[c] = 'iterations %s x %s instead of %s x %s' % (n[h1], n[h2], *N)
                continue
            for a, b in smp['at']:
                a, b = a % N[0], b % N[1]
                fixed = {h1: N[0] - 1 - a if c[1] else a, h2: N[1] - 1 - b if c[2] else b}
                got = {}
                e = mk(smp, {('it', h): k for h, k in fixed.items()})
                for s, o, v in let.effects(L, stores, sd.walk, fixed, lambda its: mk(smp, its)):
                    old = e['load'](s.base, o)
                    got[int(o)] = got.get(int(o), 0) + (v - old)
                got = {o: v for o, v in got.items() if abs(v) > 1e-14}
                want = {o: v for o, v in ref(smp, a, b).items() if abs(v) > 1e-14}
                if set(got) != set(want):
                    alive[c] = 'bins %s instead of %s' % (sorted(got), sorted(want))
                    break
                d = [o for o in got if not near(got[o], want[o], 4e-3)]
                if d:
                    alive[c] = 'bin %d receives %.6g instead of %.6g' % (d[0] , float(got[d[0]]), float(want[d[0]]))
                    break
    ok = any(v is None for v in alive.values())
    T(nm, ok, ins, '%s: %s' % (msg, next((v for v in alive.values() if v), '')))


def orientations(rep, m, l, tab):
    name = 'vl_sift_calc_keypoint_orientations'
    f = m.F(name)
    T = Obl(rep, 'orientation', name)
    base = {}
    E0 = sift_refine.closed(spec.scev_of(f, m), m)
    L = let.Let(f, m, base={k: v for k, v in E0.subst.items() if f.vals[k].block in f.loops})
    sts = kern.stores(L.E, guards=False)
    k = ('arg', 2)
    ms = [i for i in f.instrs if i.op == 'call' and (i.callee_name() or '').startswith('llvm.memset')]
    if len(ms) != 1:
        return T.skip('histogram', '%d memsets' % len(ms))
    H = L.E.addr_at(ms[0].ops[0], ms[0].block)[0]
    T('cleared', same(L.E.at(ms[0].ops[1], ms[0].block), {}) and same(L.E.at(ms[0].ops[2], ms[0].block), C(288)), ms[0], 'the histogram of 36 orientations starts from zero')
    entry(T, L, l, f, k, ENTRY, {ms[0].block})
    # votes
    V = [s for s in sts if s.base == H and len(s.chain) == 2 and l.gradP in bases(L, s)]
    if not V or len({tuple(h for h, _ in s.chain) for s in V}) != 1:
        return T.skip('votes', '%d stores' % len(V))
    outer = [h for h, _ in V[0].chain]
    T('cleared first', all(kern.before(L.E, ms[0], s.ins) for s in V), ms[0], 'the histogram is cleared before votes are cast')

    def geo(s):
        px = Fr(2) ** s['o']
        x, y, sg = s['x'] / px, s['y'] / px, s['sigma'] / px
        xi, yi = int(x + Fr(1, 2)), int(y + Fr(1, 2))
        W = max(int(math.floor(Fr(9, 2) * sg)), 1)
        return x, y, sg, xi, yi, W

    def mk(s, its):
        w, h = s['w'], s['h']
        gr = lambda o: hsh(('g', int(o)), 0, 6.28) if int(o) % 8 == 4 else hsh(('g', int(o)), 1, 3)
        hist = lambda o: hsh(('h', int(o)), 1, 2)
        T_ = {ME: filt(l, o_cur=s['o'], octave_width=w, octave_height=h), k: keyp(l, o=s['o'], x=s['x'], y=s['y'], sigma=s['sigma'], **{'is': s['is']}), l.gradP: gr, H: hist}
        if tab:
            T_[tab['base']] = table(tab)
        return L.env(its, let.fields(L.E, T_))

    def ref(s, a, b):
        x, y, sg, xi, yi, W = geo(s)
        w, h = s['w'], s['h']
        x0, x1, y0, y1 = max(-W, -xi), min(W, w - 1 - xi), max(-W, -yi), min(W, h - 1 - yi)
        if a is None:
            return (y1 - y0 + 1, x1 - x0 + 1)
        ys, xs = y0 + a, x0 + b
        dx, dy = xi + xs - x, yi + ys - y
        r2 = float(dx * dx + dy * dy)
        if r2 >= W * W + 0.6:
            return {}
        z = r2 / (2 * float(Fr(3, 2) * sg) ** 2)
        wgt = math.exp(-z) if z < 25 else 0
        o = 8 * (xi + xs + (yi + ys) * w + w * h * (s['is'] + 1 - 1))
        mod, ang = float(hsh(('g', o), 1, 3)), float(hsh(('g', o + 4), 0, 6.28))
        fb = 36 * ang / TWO
        bn = math.floor(fb - .5)
        rb = fb - bn - .5
        return {8 * ((bn + 36) % 36): (1 - rb) * mod * wgt, 8 * ((bn + 1) % 36): rb * mod * wgt}
    smp = [dict(o=1, x=Fr(1987, 100), y=Fr(1631, 100), sigma=Fr(311, 100), w=20, h=18, at=[(3, 4), (7, 7), (0, 0), (6, 1), (9, 9), (12, 7), (7, 13), (1, 6), (0, 7), (7, 0)]),
           dict(o=-1, x=Fr(71, 100), y=Fr(402, 100), sigma=Fr(91, 100), w=21, h=10, at=[(0, 0), (4, 3), (8, 6), (2, 9), (5, 1)]),
           dict(o=0, x=Fr(81, 10), y=Fr(22, 10), sigma=Fr(1, 10), w=10, h=9, at=[(0, 0), (1, 1), (2, 2), (1, 2), (0, 1), (2, 1)])]
    for s, i in zip(smp, (2, 1, 0)):
        s['is'] = i
    if True:
        compare(T, 'votes', L, V, 'each gradient in the circular window votes for the two nearest orientations with its modulus and a Gaussian weight', ref, mk, outer, smp, V[0].ins)
    # smoothing
    S2 = [s for s in sts if s.base == H and s not in V and len(s.chain) == 2]
    S1 = [s for s in sts if s.base == H and s not in V and len(s.chain) == 1]
    smooth(T, L, f, H, S2, S1, V)
    peaks(T, L, l, f, H, sts, S1)


def bases(L, s):
    """bases of the loads a value depends on through names"""
    out, seen, todo = set(), set(), [s.val]
    while todo:
        for a in scev.deep_atoms(todo.pop()):
            if a[0] == 'ld':
                out.add(a[1])
            if a[0] == 'v' and a[1] in L.ids and a not in seen:
                seen.add(a)
                try:
                    todo.append(L.define(a[1]))
                except alg.Unknown:
                    pass
    return out


def smooth(T, L, f, H, S2, S1, V):
    E = L.E
    if len(S2) != 1 or len(S1) != 1:
        return T.skip('smoothing', '%d, %d stores' % (len(S2), len(S1)))
    a, z = small(L.plain, f, S2)[0], small(L.plain, f, S1)[0]
    h6, h35 = a.chain[0][0], a.chain[1][0]
    it = A('it', h35)
    n6, n35 = a.chain[0][1], a.chain[1][1]
    T('smoothed six times', n6 is not None and same(n6, C(6)) and z.chain[0][0] == h6, a.ins, 'the histogram is smoothed six times')
    T('all bins', n35 is not None and same(n35, C(35)) and same(a.off, scale(it, 8)) and same(z.off, C(280)), a.ins, 'all bins are smoothed')
    pv = [x for x in sift_refine.vatoms(a.val) if x[1] not in L.ids]
    if len(pv) != 1 or f.vals[pv[0][1]].op != 'phi' or f.vals[pv[0][1]].block != h35:
        return T.skip('previous bin', alg.show(a.val)[:200])
    p = f.vals[pv[0][1]]
    ini = [(o, q) for o, q in p.inc if q not in f.loops[h35]]
    nxt = [(o, q) for o, q in p.inc if q in f.loops[h35]]
    ok = all(same(E.at(o, q), ld(H, C(280))) for o, q in ini) and all(same(E.at(o, q), ld(H, scale(it, 8))) for o, q in nxt)
    T('previous bin', ok, p, 'the bin before the first is the last, and bins are smoothed from the values of the previous round')
    import c41
    for o, q in nxt:
        T('previous value', all(not (v.block == a.ins.block and kern.before(E, a.ins, v)) for v in c41.deps(f, [o]) if getattr(v, 'op', None) == 'load' and v.block in f.loops[h35]), p, 'the previous value is read before it is replaced')
    bad = None
    try:
        for k in (0, 3, 34):
            hist = {8 * i: hsh(('b', i), 1, 5) for i in range(36)}
            e = L.env({('it', h35): k, ('it', h6): 2, pv[0]: Fr(7)}, let.fields(E, {H: hist}))
            if not near(spec.num(a.val, e), (Fr(7) + hist[8 * k] + hist[8 * (k + 1)]) / 3):
                bad = 'bin %d' % k
            if not near(spec.num(z.val, e), (Fr(7) + hist[280] + hist[0]) / 3):
                bad = 'last bin'
    except alg.Unknown as e:
        return T.skip('mean', str(e)[:100])
    T('mean', bad is None, a.ins, 'each bin becomes the mean of itself and its two neighbors around the circle: %s' % bad)
    first = [v for v in c41.deps(f, z.ins.ops[:1]) if getattr(v, 'op', None) == 'load' and addr(E, v) == (H, 0)]
    T('first bin', bool(first) and all(v.block not in f.loops[h35] and kern.before(E, v, a.ins) for v in first), z.ins, 'the last bin uses the value the first one had before this round')
    T('after votes', all(kern.before(E, v.ins, a.ins) for v in V), a.ins, 'the histogram is smoothed after all votes')


def addr(E, v):
    try:
        b, o = E.addr_at(v.ops[0], v.block)
        return b, int(alg.cval(o)) if alg.is_const(o) else None
    except alg.Unknown:
        return None


def peaks(T, L, l, f, H, sts, S1):
    E = L.E
    A_ = [s for s in sts if s.base == ('arg', 1)]
    if len(A_) != 1 or len(A_[0].chain) != 1:
        return T.skip('peaks', '%d stores' % len(A_))
    s = A_[0]
    h = s.chain[0][0]
    it = ('it', h)
    cnt = [x for x in sift_refine.vatoms(s.off) if x[1] not in L.ids]
    if len(cnt) != 1 or not same(s.off, scale(A(*cnt[0]), 8)):
        return T.skip('angles', alg.show(s.off)[:200])
    cp = f.vals[cnt[0][1]]
    bad = None
    try:
        for k in (0, 1, 17, 35):
            hist = {8 * i: hsh(('p', i), 1, 3) for i in range(36)}
            hist[8 * k] = Fr(9)
            e = L.env({it: k, cnt[0]: 1}, let.fields(E, {H: hist}))
            hm, hp, h0 = float(hist[8 * ((k - 1) % 36)]), float(hist[8 * ((k + 1) % 36)]), 9.0
            th = TWO * (k - .5 * (hp - hm) / (hp + hm - 2 * h0) + .5) / 36
            if not near(spec.num(s.val, e), th):
                bad = 'bin %d' % k
    except alg.Unknown as e:
        return T.skip('angle', str(e)[:100])
    T('angle', bad is None, s.ins, 'the angle is that of the vertex of the parabola through the peak and its neighbors: %s' % bad)
    # the maximum
    mx = [p for b in f.loops for p in f.blocks[b] if p.op == 'phi' and p.ty == 'double' and b != h and L.E.exit_it(b) is not None and same(L.E.exit_it(b), C(36))]
    if len(mx) != 1:
        return T.skip('maximum', '%d candidates' % len(mx))
    p = mx[0]
    hb = p.block
    try:
        ini = [E.at(o, q) for o, q in p.inc if q not in f.loops[hb]]
        nx = [E.at(o, q) for o, q in p.inc if q in f.loops[hb]]
        bad = None
        for k in (0, 35):
            for v in (1, 5):
                e = L.env({('it', hb): k, ('v', p.id): Fr(3)}, let.fields(E, {H: {8 * k: Fr(v)}}))
                e2 = dict(e)
                for x in nx:
                    if spec.num(x, withv(e2, ('v', p.id), Fr(3))) != max(3, v):
                        bad = 'value %d' % v
        T('maximum', bad is None and all(alg.is_const(x) and alg.cval(x) <= 0 for x in ini), p, 'the maximum is that of all 36 bins: %s' % bad)
    except alg.Unknown as e:
        T.skip('maximum', str(e)[:100])
    # which bins are peaks
    st = sd.body(f, h)
    bad = None
    for k in (0, 20, 35):
        for h0, hm, hp, mxv, want in ((9, 5, 6, 9, True), (9, 5, 6, 11, True), (9, 5, 6, Fr(113, 10), False), (9, 10, 6, 10, False), (9, 6, 10, 10, False), (9, 9, 6, 9, False), (9, 6, 9, 9, False)):
            hist = {8 * k: Fr(h0), 8 * ((k - 1) % 36): Fr(hm), 8 * ((k + 1) % 36): Fr(hp)}
            e = withv(L.env({it: k, cnt[0]: 1}, let.fields(E, {H: hist})), ('v', p.id), Fr(mxv))
            r = sd.walk(L, st, {s.ins.block}, {h}, e)
            if len(r) != 1:
                return T.skip('peak', 'undecided')
            if r != {want}:
                bad = 'value %s next to %s and %s with maximum %s in bin %d' % (h0, hm, hp, mxv, k)
    T('peak', bad is None, s.ins, 'a peak exceeds both neighbors and 0.8 times the maximum: %s' % bad)
    # how many
    try:
        ini = [E.at(o, q) for o, q in cp.inc if q not in f.loops[h]]
        T('number start', all(same(x, {}) for x in ini), cp, 'the list of angles starts empty')
        exits = {t for b in f.loops[h] for t in (getattr(f.blocks[b][-1], 'succ', None) or []) if t not in f.loops[h] and b != h}
        exits |= {t for t in (getattr(f.blocks[s.ins.block][-1], 'succ', None) or []) if t not in f.loops[h]}
        for n in (0, 2, 3):
            e = L.env({it: 5, cnt[0]: n}, let.fields(E, {H: lambda o: Fr(1)}))
            e = withv(e, cnt[0], n)
            r = sd.walk(L, s.ins.block, exits, {h}, e) if exits else {False}
            if len(r) == 1:
                T('at most four %d' % n, r == {n == 3}, s.ins, 'up to four orientations are returned')
            else:
                T.skip('at most four %d' % n, 'undecided')
        nx = [f.vals[o] for o, q in cp.inc if q in f.loops[h] and isinstance(o, int)]
        for v in nx:
            if v.op == 'phi':
                inc = {True: [], False: []}
                for o, q in v.inc:
                    inc[o == cp.id].append((o, q))
                ok = len(inc[True]) >= 1 and inc[False] and all(same(E.at(o, q), add(A(*cnt[0]), C(1))) for o, q in inc[False])
                T('counted', ok, v, 'each peak is counted once')
            else:
                T.skip('counted', v.op)
    except alg.Unknown as e:
        T.skip('number', str(e)[:100])
    # what is returned
    ret = [b[-1] for b in f.blocks if b and b[-1].op == 'ret']
    if len(ret) == 1 and ret[0].ops:
        vals = leaves(f, ret[0].ops[0], cp.id)
        T('returned', vals <= {'0', 'count', 'next'}, ret[0], 'the number of angles is returned: %s' % sorted(vals))


def withv(e, a, v):
    """the environment with a value for one more name"""
    e = dict(e)
    e[a] = v
    return e


def leaves(f, o, cnt, seen=None):
    seen = seen if seen is not None else set()
    if isinstance(o, (list, tuple)):
        return {str(o[2]) if o[0] == 'c' else str(o)}
    if o in seen:
        return set()
    seen.add(o)
    if o == cnt:
        return {'count'}
    v = f.vals[o]
    if v.op == 'phi':
        return set().union(*[leaves(f, x, cnt, seen) for x, _ in v.inc])
    if v.op == 'add' and cnt in v.ops:
        return {'next'}
    return {'other'}


def descriptor(rep, m, l, tab, raw):
    name = 'vl_sift_calc_raw_descriptor' if raw else 'vl_sift_calc_keypoint_descriptor'
    f = m.F(name)
    T = Obl(rep, 'descriptor', name)
    L = let.Let(f, m)
    E = L.E
    sts = kern.stores(E, guards=False)
    D = ('arg', 2) if raw else ('arg', 1)
    G = ('arg', 1) if raw else l.gradP
    k = ('arg', 2)
    ms = [i for i in f.instrs if i.op == 'call' and (i.callee_name() or '').startswith('llvm.memset') and E.addr_at(i.ops[0], i.block)[0] == D]
    if len(ms) != 1:
        return T.skip('cleared', '%d memsets' % len(ms))
    T('cleared', same(E.at(ms[0].ops[1], ms[0].block), {}) and same(E.at(ms[0].ops[2], ms[0].block), C(512)) and same(E.addr_at(ms[0].ops[0], ms[0].block)[1], {}), ms[0], 'the 128 bins start from zero')
    a = lambda n: next(iter(A('arg', n)))[0][0]
    if not raw:
        entry(T, L, l, f, k, ENTRY, {ms[0].block})
    else:
        for nm, want, x, y in (('inside', True, 9, 8), ('left of the image', False, -3, 8), ('right of the image', False, 21, 8), ('right border', True, Fr(191, 10), 8), ('left border', True, Fr(1, 10), 8), ('above', False, 9, -3),
                               ('below', False, 9, 19), ('upper border', True, 9, Fr(1, 10))):
            e = L.env({a(3): 20, a(4): 18, a(5): Fr(x), a(6): Fr(y), a(7): 1, a(8): Fr(1, 3)}, let.fields(E, {ME: filt(l)}))
            r = sd.walk(L, 0, {ms[0].block}, set(), e)
            if len(r) != 1:
                T.skip('entry %s' % nm, 'undecided')
            else:
                T('entry %s' % nm, r == {want}, f, 'a point is %s: %s' % ('used' if want else 'ignored', nm))
    V = [s for s in sts if s.base == D and len(s.chain) >= 2 and G in bases(L, s)]
    if not V or len({tuple(h for h, _ in s.chain[:2]) for s in V}) != 1:
        return T.skip('votes', '%d stores' % len(V))
    outer = [h for h, _ in V[0].chain[:2]]
    T('cleared first', all(kern.before(E, ms[0], s.ins) for s in V), ms[0], 'the bins are cleared before votes are cast')

    def geo(s):
        px = Fr(1) if raw else Fr(2) ** s['o']
        x, y, sg = s['x'] / px, s['y'] / px, s['sigma'] / px
        SBP = float(s['magnif'] * sg) + 2.2e-16
        return x, y, int(x + Fr(1, 2)), int(y + Fr(1, 2)), SBP, math.floor(math.sqrt(2) * SBP * 5 / 2 + .5)

    def mk(s, its):
        w, h = s['w'], s['h']
        gr = lambda o: hsh(('g', int(o)), 0, 6.28) if int(o) % 8 == 4 else hsh(('g', int(o)), 1, 3)
        T_ = {ME: filt(l, o_cur=s['o'], octave_width=w, octave_height=h, magnif=s['magnif'], windowSize=s['ws']), G: gr, D: (lambda o: hsh(('h', int(o)), 1, 2))}
        v = dict(its)
        if raw:
            v.update({a(3): w, a(4): h, a(5): s['x'], a(6): s['y'], a(7): s['sigma'], a(8): s['ang']})
        else:
            T_[k] = keyp(l, o=s['o'], x=s['x'], y=s['y'], sigma=s['sigma'], **{'is': s['is']})
            v[a(3)] = s['ang']
        if tab:
            T_[tab['base']] = table(tab)
        return L.env(v, let.fields(E, T_))

    def ref(s, i, j):
        x, y, xi, yi, SBP, W = geo(s)
        w, h = s['w'], s['h']
        e = 0 if raw else 1
        x0, x1, y0, y1 = max(-W, e - xi), min(W, w - xi - 1 - e), max(-W, e - yi), min(W, h - yi - 1 - e)
        if i is None:
            return (y1 - y0 + 1, x1 - x0 + 1)
        py, px_ = yi + y0 + i, xi + x0 + j
        dx, dy = float(px_ - x), float(py - y)
        c_, s_ = math.cos(s['ang']), math.sin(s['ang'])
        nx, ny = (c_ * dx + s_ * dy) / SBP, (-s_ * dx + c_ * dy) / SBP
        o = 8 * (px_ + py * w + (0 if raw else w * h * s['is']))
        mod, ang = float(hsh(('g', o), 1, 3)), float(hsh(('g', o + 4), 0, 6.28))
        nt = 8 * ((ang - float(s['ang'])) % TWO) / TWO
        z = (nx * nx + ny * ny) / (2 * float(s['ws']) ** 2)
        win = math.exp(-z) if z < 25 else 0
        bx, by, bt = math.floor(nx - .5), math.floor(ny - .5), math.floor(nt)
        rx, ry, rt = nx - bx - .5, ny - by - .5, nt - bt
        out = {}
        for p in (0, 1):
            for q in (0, 1):
                for t in (0, 1):
                    if -2 <= bx + p < 2 and -2 <= by + q < 2:
                        n = 4 * (((bt + t) % 8) + 8 * (bx + p + 2) + 32 * (by + q + 2))
                        out[n] = out.get(n, 0) + win * mod * abs(1 - p - rx) * abs(1 - q - ry) * abs(1 - t - rt)
        return out
    smp = [dict(o=1, x=Fr(1987, 100), y=Fr(1631, 100), sigma=Fr(111, 100), w=20, h=18, ang=Fr(7, 10), magnif=3, ws=2, at=[(3, 4), (6, 7), (0, 0), (6, 1), (9, 9), (5, 5), (4, 8)]),
           dict(o=-1, x=Fr(171, 100), y=Fr(402, 100), sigma=Fr(31, 100), w=21, h=14, ang=Fr(-23, 10), magnif=3, ws=Fr(3, 2), at=[(0, 0), (4, 3), (7, 6), (2, 5)]),
           dict(o=0, x=Fr(81, 10), y=Fr(42, 10), sigma=Fr(13, 10), w=14, h=15, ang=Fr(19, 10), magnif=2, ws=Fr(3, 10), at=[(4, 8), (1, 1), (5, 7), (6, 6)])]
    for s, i in zip(smp, (2, 1, 0)):
        s['is'] = i
        if raw:
            s['x'], s['y'], s['sigma'] = [v / Fr(2) ** s['o'] for v in (s['x'], s['y'], s['sigma'])]
    # a distance at the end of the table of the exponential
    q = dict(smp[0], at=[(5, 3)])
    x, y, xi, yi, SBP, W = geo(q)
    e = 0 if raw else 1
    d2 = float((xi + max(-W, e - xi) + 3 - x) ** 2 + (yi + max(-W, e - yi) + 5 - y) ** 2) / SBP ** 2
    for z in (24.99, 25.3):
        smp.append(dict(q, ws=Fr(round(math.sqrt(d2 / (2 * z)) * 10 ** 9), 10 ** 9)))
    if True:
        compare(T, 'votes', L, V, 'each gradient of the window votes for the eight nearest bins of position and orientation, in the frame of the keypoint, with linear and Gaussian weights', ref, mk, outer, smp, V[0].ins)
    normal(T, L, l, f, D, sts, V, raw, geo)


def normal(T, L, l, f, D, sts, V, raw, geo):
    E = L.E
    S = [s for s in sts if s.base == D and s not in V]
    i = I('i')
    e_ = ld(D, scale(i, 4))
    nr = mul(e_, alg.inv(add(fn('sqrt', SUM(lambda q: mul(ld(D, scale(q, 4)), ld(D, scale(q, 4))), C(128))), C(Fr('1.1920929e-07')))))
    E1 = spec.scev_of(f, L.m)
    byi = {s.ins: s for s in (kern.stores_of(E1, S) if hasattr(kern, 'stores_of') else small(E1, f, S))}
    norms, rest = [], []
    for s in S:
        q = byi.get(s.ins)
        if q is not None and kern.fit(kern.Store(q.ins, q.base, q.off, spec.rnd(q.val, 6), q.chain, None, None), Spec('normalised', [('i', C(128))], D, scale(i, 4), spec.rnd(nr, 6))):
            norms.append(q)
        else:
            rest.append(s)
    if len(norms) != 2:
        w = [s for s in rest if not alg.is_const(s.val)]
        w2 = [s for s in w if s.ins in byi and not any(s.ins is q.ins for q in norms)]
        if len(norms) == 1 and not w2 and len(S) == 3:
            T('normalised', False, norms[0].ins, 'the descriptor is normalised again after it is clamped')
        elif len(S) == 4 and w:
            T('normalised', False, w[0].ins, 'the descriptor is divided by its norm, twice: %s' % byi[w[0].ins].show()[:300] if w[0].ins in byi else '')
        else:
            T.skip('normalised', '%d normalisations' % len(norms))
        return
    a, b = norms if kern.before(E, norms[0].ins, norms[1].ins) else norms[::-1]
    T('normalised', True, a.ins, '')
    T('after votes', all(kern.before(E, v.ins, a.ins) for v in V), a.ins, 'the descriptor is normalised after all votes')
    zero = [s for s in rest if same(s.val, {})]
    clamp = [s for s in rest if s not in zero]
    if len(zero) != 1 or len(clamp) != 1 or len(zero[0].chain) != 1 or len(clamp[0].chain) != 1:
        return T.skip('clamped', '%d stores' % len(rest))
    z, c = zero[0], clamp[0]
    T('clamped before', kern.before(E, a.ins, c.ins) and kern.before(E, c.ins, b.ins), c.ins, 'the descriptor is clamped between the two normalisations')
    it = lambda s: A('it', s.chain[0][0])
    for s, nm in ((z, 'zeroed'), (c, 'clamped')):
        T('%s all' % nm, s.chain[0][1] is not None and same(s.chain[0][1], C(128)) and (same(s.off, scale(it(s), 4)) or same(s.off, scale(sub(C(127), it(s)), 4))), s.ins, 'all 128 bins are %s' % nm)
    H = c.chain[0][0]
    bad = None
    try:
        for v in (Fr(0), Fr(19, 100), Fr(21, 100), Fr(9, 10)):
            e = L.env({('it', H): 5}, let.fields(E, {D: lambda o: v}))
            r = spec.num(c.val, e) if let.reached(L, c.ins.block, H, e, sd.walk) else v
            if not near(r, min(v, Fr(1, 5))):
                bad = '%s becomes %s' % (float(v), float(r))
        T('clamped', bad is None, c.ins, 'values above 0.2 are replaced by 0.2: %s' % bad)
    except alg.Unknown as x:
        T.skip('clamped', str(x)[:100])
    # descriptors of low norm are zero
    ha = a.chain[0][0]
    after = {t for q in f.loops[ha] for t in (getattr(f.blocks[q][-1], 'succ', None) or []) if t not in f.loops[ha]}
    if len(after) != 1:
        return T.skip('threshold', 'exits')
    g = lambda n: next(iter(A('arg', n)))[0][0]
    x, y, sg = Fr(93, 10), Fr(41, 10), Fr(8, 10)
    W = math.floor(math.sqrt(2) * float(3 * sg) * 2.5 + .5)
    n = (min(W, 20 - 9 - 1) - max(-W, -9) + 1) * (min(W, 18 - 4 - 1) - max(-W, -4) + 1) if raw else 1
    for thr, want in ((Fr(0), False), (Fr(1, 2), False), (Fr(3, 2), True)):
        thr = thr / n
        L2 = Eplain(E1, L)
        e = L2.env({g(3): 20, g(4): 18, g(5): x, g(6): y, g(7): sg, g(8): Fr(1, 3)} if raw else {g(3): Fr(1, 3)}, let.fields(E, {ME: filt(l, norm_thresh=thr), ('arg', 2): keyp(l)}))
        e['sum'] = lambda t: Fr(1)
        r = sd.walk(L2, next(iter(after)), {z.ins.block, z.chain[0][0]}, {c.ins.block, H}, e)
        if len(r) != 1:
            T.skip('threshold %s' % float(thr), 'undecided')
        else:
            T('threshold %s' % float(thr), r == {want}, z.ins, 'the descriptor is zero exactly when there is a threshold and its norm is below')


def small(E, f, S):
    out = []
    for s in S:
        try:
            b, o = E.addr_at(s.ins.ops[1], s.ins.block)
            out.append(kern.Store(s.ins, b, o, E.at(s.ins.ops[0], s.ins.block), s.chain, None, None))
        except alg.Unknown:
            pass
    return out


class Eplain:
    """conditions in full closed form"""
    def __init__(self, E, L):
        self.E, self.f, self.L = E, L.f, L

    def at(self, o, b):
        return self.E.at(o, b)

    def env(self, v, load):
        return self.L.env(v, load)


def all_(rep, m, l, tab=None):
    guard = spec.guarded(lambda: __import__('c41').DEBUG)
    for n in ('vl_sift_calc_keypoint_orientations', 'vl_sift_calc_keypoint_descriptor'):
        guard(rep, gradient, m, l, n)
    guard(rep, orientations, m, l, tab)
    guard(rep, descriptor, m, l, tab, False)
    guard(rep, descriptor, m, l, tab, True)
