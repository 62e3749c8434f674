"""C44: histograms of oriented gradients: cells, block normalisation, flip permutation and glyphs are those documented, for every image."""
import itertools
import ir, alg, report, kern, build, spec, nat, scev
from alg import C, A, add, sub, mul, scale, fn, same, freeze, thaw
from kern import ld, I, SUM, Spec
from spec import Obl, P, ptr, region

RULE = ('closed form of every value stored on the way from the image to the cell histograms and from these to the features, over all pixels, cells and orientations, border cells apart, compared with the definition; '
        'the search of the two closest orientations decided over all outcomes of its comparisons; the flip permutation evaluated for every number of orientations from 4 to 12')
DEBUG = False
guard = spec.guarded(lambda: DEBUG)
H = 'vl/hog.h'
ME = ('arg', 0)
N = ['variant', 'dimension', 'numOrientations', 'transposed', 'useBilinearOrientationAssigment', 'permutation', 'glyphs', 'glyphSize', 'orientationX', 'orientationY', 'hog', 'hogNorm', 'hogWidth', 'hogHeight']
PI = alg.Fraction('3.141592653589793')
half = alg.Fraction(1, 2)
rnd = spec.rnd


class L:
    def __init__(self):
        self.off = spec.offsets(H, 'VlHog', N)
        K = build.constants(H, ['VlHogVariantUoctti', 'VlHogVariantDalalTriggs', 'sizeof(vl_index)'])
        self.ok = bool(self.off) and len(K) == 3
        if self.ok:
            self.U, self.D, self.isz = K['VlHogVariantUoctti'], K['VlHogVariantDalalTriggs'], K['sizeof(vl_index)']
            self.at = lambda n, base=ME: ld(base, self.off[n])
            self.p = lambda n, base=ME: ptr(base, self.off[n])


def full(E, s):
    return E.leave_psum(kern.when(E, s.ins.block), s.ins.block)


def new(rep, m, o):
    f = m.F('vl_hog_new')
    E = kern.forwarding(spec.scev_of(f, m))
    T = Obl(rep, 'object', 'vl_hog_new')
    objs = {s.base for s in kern.stores(E, guards=False) if s.base[0] == 'call'}
    if len(objs) != 1:
        return T.skip('object', '%d allocations' % len(objs))
    me = objs.pop()
    sts = kern.stores(E)
    rep.count('stores', len(sts))
    off = o.off
    mem = lambda n: [s for s in sts if s.base == me and same(s.off, off[n])]
    arr = lambda n: [s for s in sts if s.base == o.p(n, me)]
    n, v, tr, G = (o.at(x, me) for x in ('numOrientations', 'variant', 'transposed', 'glyphSize'))
    for x, k in (('variant', 0), ('numOrientations', 1), ('transposed', 2)):
        s = mem(x)
        if T(x, len(s) >= 1 and same(s[-1].val, A('arg', k)), s[0].ins if s else f, 'the object keeps %s' % x):
            pass
    s = mem('useBilinearOrientationAssigment')
    T('default assignment', len(s) == 1 and same(s[0].val, {}), s[0].ins if s else f, 'orientations are assigned to the closest bin unless asked otherwise')
    sy = {next(iter(z))[0][0]: A('sym', c) for z, c in ((n, 'n'), (v, 'v'), (tr, 't'))}
    sy.update({('arg', 0): A('sym', 'v'), ('arg', 1): A('sym', 'n'), ('arg', 2): A('sym', 't')})
    unm = lambda p: spec.sub_(p, sy)
    n, v, tr = A('sym', 'n'), A('sym', 'v'), A('sym', 't')
    # dimension
    for name, val, want in (('Uoctti', o.U, add(scale(n, 3), C(4))), ('DalalTriggs', o.D, scale(n, 4))):
        on = [s for s in mem('dimension') if not same(spec.sub_(unm(full(E, s)), {('sym', 'v'): C(val)}), {})]
        T('dimension ' + name, len(on) == 1 and same(unm(on[0].val), want), on[0].ins if on else f, 'a %s descriptor has %s entries: %s' % (name, alg.show(want), [alg.show(s.val) for s in on]))
    # orientation vectors
    for x in ('orientationX', 'orientationY'):
        for t in (0, 1, 2):
            on = [s for s in arr(x) if not same(spec.sub_(unm(full(E, s)), {('sym', 't'): C(t)}), {})]
            good = False
            if len(on) == 1 and len(on[0].chain) == 1:
                q = on[0]
                c = q.chain[0]
                ang = scale(mul(A('it', c[0]), alg.inv(n)), PI)
                val = rnd(spec.sub_(unm(q.val), {('sym', 't'): C(t)}))
                good = c[1] is not None and same(unm(c[1]), n) and same(q.off, scale(A('it', c[0]), 4)) and same(val, rnd(fn('cos' if (x[-1] == 'X') == (t == 0) else 'sin', ang)))
            T('%s%s' % (x, ['', ' transposed', ' transposed (any true value)'][t]), good, on[0].ins if on else f,
              'orientation k is the unit vector at angle k pi / numOrientations (x and y swapped for transposed images): %s' % [alg.show(unm(s.val)) for s in on][:2])
    # sizes
    for i in f.instrs:
        if i.op == 'call' and i.callee_name() in ('vl_malloc', 'vl_calloc'):
            for x, cells in (('permutation', o.isz), ('orientationX', 4), ('orientationY', 4), ('glyphs', 4)):
                q = [s for s in mem(x) if s.ins.ops[0] == i.id]
                if q:
                    args = [unm(E.at(z, i.block)) for z in i.ops[:2 if i.callee_name() == 'vl_calloc' else 1]]
                    tot = args[0] if len(args) == 1 else mul(*args)
                    tot = spec.sub_(tot, {('ld', me, freeze(off['dimension'])): A('sym', 'd')})
                    want = {'permutation': scale(A('sym', 'd'), cells), 'glyphs': scale(mul(mul(G, G), n), 4)}.get(x, scale(n, 4))
                    ok = any(same(tot, w) for w in (want, spec.sub_(want, {next(iter(G))[0][0]: C(21)})))
                    if x == 'permutation' and not ok:
                        ok = ('sym', 'd') not in scev.deep_atoms(tot) and all(same(rnd(spec.sub_(tot, {('sym', 'v'): C(vv)})), scale(d, cells)) for vv, d in ((o.U, add(scale(n, 3), C(4))), (o.D, scale(n, 4))))
                    T('size of ' + x, ok, i, '%s has the size of its contents: %s' % (x, alg.show(tot)))
    # permutation
    for name, vv in (('Uoctti', o.U), ('DalalTriggs', o.D)):
        bad = None
        for nn in range(4, 13):
            env = {('sym', 'n'): nn, ('sym', 'v'): vv}
            t, where = {}, f
            for s in arr('permutation'):
                ns = [k for _, k in s.chain]
                if any(k is None for k in ns):
                    return T.skip('permutation', 'loops')
                g = unm(full(E, s))
                so, sv = unm(s.off), unm(s.val)

                def go(k, e):
                    if k == len(s.chain):
                        if spec.num(g, e) != 0:
                            t[spec.num(so, e) / o.isz] = spec.num(sv, e)
                        return
                    for i in range(int(spec.num(unm(ns[k]), e))):
                        e2 = dict(e)
                        e2[('it', s.chain[k][0])] = i
                        go(k + 1, e2)
                if spec.num(spec.sub_(g, {a: C(1) for a in scev.deep_atoms(g) if a[0] == 'it'}), dict(env)) == 0:
                    continue
                where = s.ins
                go(0, env)
            if vv == o.U:
                want = {k: (nn - k) % (2 * nn) for k in range(2 * nn)}
                want.update({2 * nn + k: 2 * nn + (-k) % nn for k in range(nn)})
                want.update({3 * nn + k: 3 * nn + (k ^ 1) for k in range(4)})
            else:
                want = {k * nn + j: (k ^ 1) * nn + (-j) % nn for k in range(4) for j in range(nn)}
            if t != want:
                k = next((k for k in sorted(set(t) | set(want)) if t.get(k) != want.get(k)))
                bad = bad or (nn, str(k), str(t.get(k)), str(want.get(k)))
            rep.count('permutations')
        T('flip permutation ' + name, bad is None, where, 'with %s orientations entry %s of the flip permutation is %s, should be %s' % (bad or ('', '', '', '')))
    glyphs(rep, E, f, arr('glyphs'), unm, G, n)


def glyphs(rep, E, f, sts, unm, G, n):
    T = Obl(rep, 'glyph', 'vl_hog_new')
    for t in (0, 1, 2):
        on = []
        for s in sts:
            g = spec.sub_(unm(full(E, s)), {('sym', 't'): C(t)})
            if not same(g, {}):
                on.append((s, g))
        if len(on) != 2:
            return T.skip('bars', '%d stores' % len(on))
        for s, g in on:
            if len(s.chain) != 2:
                return T.skip('bars', '%d loops' % len(s.chain))
            # which of the loops runs over orientations
            oi = [h for h, c in s.chain if c is not None and same(unm(c), n)]
            if len(oi) != 1:
                return T.skip('bars', 'loop over orientations')
            oo = I('o')
            st_ = lambda p: spec.sub_(p, {('it', oi[0]): I('o')})
            ang = fn('fmod', add(scale(mul(oo, alg.inv(n)), PI), C(PI / 2)), C(PI))
            ang = rnd(ang)
            c_, s_ = fn('cos', ang), fn('sin', ang)
            r = lambda p: rnd(unm(p))
            g = st_(g)
            aa = next(iter(ang))[0][0]
            res = {}
            for val, horizontal in ((0, 1), (.3, 1), (.785, 1), (.786, 0), (1.2, 0), (2.0, 0), (2.356, 0), (2.3563, 1), (3.1, 1)):
                res[horizontal] = res.get(horizontal, set()) | {bool(spec.num(rnd(g), {aa: alg.Fraction(str(val))}))}
            nm = 'horizontal' if res[1] == {True} else 'vertical'
            good = res in ({1: {True}, 0: {False}}, {1: {False}, 0: {True}})
            T('choice of axis' + (' transposed' if t else ''), good, s.ins, 'bars within 45 degrees of the x axis are drawn column by column, the others row by row')
            c1, c2 = (c_, s_) if nm == 'horizontal' else (s_, c_)
            slope = mul(c2, alg.inv(c1))
            offs = scale(mul(sub(C(1), slope), sub(G, C(1))), half)
            skip = fn('int', scale(mul(sub(C(1), alg.absv(c1) if nm == 'horizontal' else c1), G), half))
            u = add(I('i'), skip)
            w = fn('round', add(mul(slope, u), offs))
            x, y = (u, w) if nm == 'horizontal' else (w, u)
            if t:
                x, y = y, x
            q = kern.Store(s.ins, s.base, r(s.off), r(s.val), [(h, r(k)) for h, k in s.chain], None, None)
            T('%s bar%s' % (nm, ' transposed' if t else ''), kern.fit(q, Spec('bar', [('o', n), ('i', rnd(sub(G, scale(skip, 2))))], s.base, rnd(scale(add(add(x, mul(G, y)), mul(mul(G, G), oo)), 4)), C(1))), s.ins,
              'the glyph of an orientation is the line through its centre orthogonal to the gradient: %s' % q.show()[:500])


def prepare(rep, m, o, name, w, h, cell):
    """the grid and its clearing"""
    f = m.F(name)
    E = spec.scev_of(f, m)
    T = Obl(rep, 'cells', name)
    off = o.off
    rd = lambda x: fn('udiv', add(x, fn('udiv', cell, C(2))), cell)
    W, Hh, n = rd(w), rd(h), o.at('numOrientations')
    sts = [s for s in kern.stores(E) if s.base == ME and not s.chain]
    mem = lambda x: [s for s in sts if same(s.off, off[x])]
    for x, want in (('hogWidth', W), ('hogHeight', Hh)):
        for s in mem(x):
            T(x, same(s.val, want), s.ins, 'the image has (size + cellSize/2)/cellSize cells: %s' % alg.show(s.val))
        if not mem(x):
            T.skip(x, 'not stored')
    acc = [s for s in kern.stores(E, guards=False) if s.base == o.p('hog') and len(s.chain) >= 2]
    # either cleared in place or allocated clear, whatever the buffers were
    ms = [i for i in f.instrs if i.op == 'call' and ((i.callee_name() or '').startswith('llvm.memset') or i.callee_name() == 'memset')]
    al = [(x, s) for x in ('hog', 'hogNorm') for s in mem(x) if isinstance(s.ins.ops[0], int) and f.vals.get(s.ins.ops[0]) is not None and f.vals[s.ins.ops[0]].op == 'call' and f.vals[s.ins.ops[0]].callee_name() in ('vl_calloc', 'vl_malloc')]
    cond = {}
    for x in ('hog', 'hogNorm'):
        tot = mul(mul(W, Hh), scale(n, 8)) if x == 'hog' else scale(mul(W, Hh), 4)
        g = {}
        ok = True
        where = f
        sames = {next(iter(o.at('hogWidth')))[0][0]: W, next(iter(o.at('hogHeight')))[0][0]: Hh}
        for i in ms:
            st = spec.callst(E, i, (0, 1, 2))
            if same(st.val, fn('args', P(*o_ptr(o, x)), {}, tot)) or same(spec.sub_(st.val, sames), fn('args', P(*o_ptr(o, x)), {}, tot)):
                if all(kern.before(E, i, a.ins) for a in acc):
                    g = add(g, E.leave_psum(kern.when(E, i.block), i.block))
                    where = i
        for y, s in al:
            if y != x:
                continue
            c = f.vals[s.ins.ops[0]]
            args = [E.at(z, c.block) for z in c.ops[:2 if c.callee_name() == 'vl_calloc' else 1]]
            size = mul(*args) if len(args) == 2 else args[0]
            cleared = c.callee_name() == 'vl_calloc'
            T('size of ' + x, same(size, tot) or same(spec.sub_(size, sames), tot), c, 'the buffer has one number for every cell (and directed orientation): %s' % alg.show(size))
            if cleared:
                g = add(g, full(E, s))
        cond[x] = (g, where)
    g, where = cond['hog']
    if acc:
        # the conditions under which the histogram is cleared in place and allocated clear add up to all
        T('histogram cleared', same(g, C(1)), where, 'the histogram is clear when accumulation starts, whether its buffer is new or not: cleared when %s' % alg.show(g)[:300])
        for x in ('hog',):
            for y, s in al:
                if y == x:
                    c = f.vals[s.ins.ops[0]]
                    T('buffer reused', not same(spec.sub_(full(E, s), {}), {}), c, 'a buffer of another size is replaced')
                    # reuse needs the same size
                    ww, hh = nat.S('W'), nat.S('H')
                    for dw, dh in ((1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (1, -1)):
                        mp = {next(iter(W))[0][0]: add(ww, C(2)), next(iter(Hh))[0][0]: add(hh, C(2)), next(iter(o.at('hogWidth')))[0][0]: add(ww, C(2 + dw)), next(iter(o.at('hogHeight')))[0][0]: add(hh, C(2 + dh))}
                        v = nat.settle(spec.sub_(full(E, s), mp))
                        T('replaced when the grid differs (%+d, %+d)' % (dw, dh), same(v, C(1)), c, 'a buffer is only reused for a grid of the same size: %s' % alg.show(v)[:200])


def o_ptr(o, x):
    return (o.p(x), {})


def spread(rep, T, E, o, acc, loops, mp, px, py, cell, mag, kind):
    """the four contributions of a pixel; mag(orientation weight) its total weight"""
    W, Hh = o.at('hogWidth'), o.at('hogHeight')
    pos = lambda p: sub(mul(add(p, C(half)), alg.inv(cell)), C(half))
    X, Y = fn('floor', pos(px)), fn('floor', pos(py))
    aX, aY = (next(iter(p))[0][0] for p in (X, Y))
    rx, ry = sub(pos(px), X), sub(pos(py), Y)
    res, seen, bins, wts = [], {}, set(), set()
    for s in acc:
        off, v = spec.sub_(s.off, mp), spec.sub_(s.val, mp)
        b = {a for m_ in off for a, _ in m_ if a[0] == 'ld' and a[1][0] == 'alloca'}
        w = {a for m_ in v for a, _ in m_ if a[0] == 'ld' and a[1][0] == 'alloca'}
        if len(b) != 1 or len(w) != 1:
            raise alg.Unknown('%d bins, %d weights' % (len(b), len(w)))
        b, w = b.pop(), w.pop()
        bins.add(b)
        wts.add(w)
        ob, ow = {((b, 1),): alg.Fraction(1)}, {((w, 1),): alg.Fraction(1)}
        q = sub(off, scale(mul(ob, mul(W, Hh)), 4))
        hit = next(((a, c) for a in (0, 1) for c in (0, 1) if same(q, scale(add(add(X, C(a)), mul(W, add(Y, C(c)))), 4))), None)
        if hit is None or hit in seen:
            res.append(('cell at %s' % s.ins.loc(), False, s.ins, 'a contribution goes to none of the four nearest cells (or twice to one): %s' % alg.show(off)[:300]))
            continue
        seen[hit] = s
        a, c = hit
        nm = 'cell (+%d, +%d)' % hit
        bil = mul(rx if a else sub(C(1), rx), ry if c else sub(C(1), ry))
        d = sub(v, ld(o.p('hog'), off))
        res.append((nm + ' weight', same(d, mul(bil, mul(ow, mag))), s.ins, 'the contribution to cell %s is the gradient modulus times the weights of orientation and position: %s' % (hit, alg.show(d)[:300])))
        g = spec.sub_(full(E, s), mp)
        bad = None
        W_, H_ = (add(C(4), nat.S(t)) for t in 'wh')
        aW, aH = next(iter(W))[0][0], next(iter(Hh))[0][0]
        some = lambda k: [C(-1), {}, C(1), sub(k, C(2)), sub(k, C(1))]
        extra = kind(mp)
        for i, xx in enumerate(some(W_)):
            for j, yy in enumerate(some(H_)):
                for bn in (-1, 0, 1):
                    e = nat.settle(spec.sub_(g, {aX: xx, aY: yy, aW: W_, aH: H_, b: C(bn), **extra}))
                    want = (0 <= i - 1 + a if i < 3 else i - 5 + a < 0) and (0 <= j - 1 + c if j < 3 else j - 5 + c < 0) and bn >= 0
                    if not alg.is_const(e):
                        raise alg.Unknown('condition %s' % alg.show(e)[:200])
                    if bool(alg.cval(e)) != want:
                        bad = bad or (alg.show(xx), alg.show(yy), bn)
        res.append((nm + ' condition', bad is None, s.ins, 'the contribution to cell %s is made exactly when the cell exists and the orientation is assigned (wrong at nearest cell, orientation %s of a grid of 4+w by 4+h)' % (hit, bad)))
    res.append(('four cells', len(seen) == 4, acc[0].ins, 'a pixel contributes to its four nearest cells'))
    if len(bins) != 1 or len(wts) != 1:
        raise alg.Unknown('orientation arrays')
    return res, bins.pop(), wts.pop()


def accumulate(rep, m, o, name, w, h, cell, border, mag, kind):
    """the accumulation: (E, arrays of bins and weights, loops, substitution)"""
    f = m.F(name)
    E = kern.forwarding(spec.scev_of(f, m))
    T = Obl(rep, 'contributions', name)
    acc = [s for s in kern.stores(E, guards=False) if s.base == o.p('hog') and len(s.chain) >= 2]
    rep.count('stores', len(acc))
    if len(acc) != 4 or any(len(s.chain) != 3 or [c[0] for c in s.chain] != [c[0] for c in acc[0].chain] for s in acc):
        T.skip('contributions', '%d stores' % len(acc))
        return None
    ch = acc[0].chain
    if any(c is None for _, c in ch):
        T.skip('loops', '')
        return None
    two = [k for k, c in ch if same(c, C(2))]
    if len(two) != 1:
        T.skip('two orientations', 'loops')
        return None
    px = [(k, c) for k, c in ch if k != two[0]]
    ww, hh = sub(w, C(2 * border)), sub(h, C(2 * border))
    # counted down to zero with a guard at zero or the like: the counts are those of the image
    if same(px[0][1], hh) and same(px[1][1], ww):
        iy, ix = px[0][0], px[1][0]
    elif same(px[0][1], ww) and same(px[1][1], hh):
        ix, iy = px[0][0], px[1][0]
    else:
        T('all pixels', False, acc[0].ins, 'all pixels%s contribute: %s' % (' but those of the border' if border else '', [alg.show(c) for _, c in px]))
        return None
    T('all pixels', True, f, '')
    best = None
    for ry in (0, 1):
        for rx in (0, 1):
            mp = {('it', iy): sub(sub(hh, C(1)), I('y')) if ry else I('y'), ('it', ix): sub(sub(ww, C(1)), I('x')) if rx else I('x')}
            mp2 = dict(mp)
            g, extra = mag(E, mp2)
            r = spread(rep, T, E, o, acc, ch, mp, add(I('x'), C(border)), add(I('y'), C(border)), cell, spec.sub_(g, mp), kind)
            n = len([1 for q in r[0] if not q[1]])
            if best is None or n < best[0]:
                best = (n, r, mp, extra)
    for what, good, loc, msg in best[1][0]:
        T(what, good, loc, msg)
    return E, f, best[1][1], best[1][2], two[0], (ix, iy), best[2], best[3], acc


def image(rep, m, o):
    name = 'vl_hog_put_image'
    w, h, nc, cell = (A('arg', k) for k in (2, 3, 4, 5))
    found = {}

    def mag(E, mp):
        # the modulus is the square root of a maximum
        f = E.f
        if 'g' not in found:
            c = []
            for s in kern.stores(E, guards=False):
                if s.base == o.p('hog') and len(s.chain) == 3:
                    c += [a for a in scev.deep_atoms(s.val) if a[0] == 'fn' and a[1] == 'sqrt']
            c = set(c)
            if len(c) != 1:
                raise alg.Unknown('%d square roots' % len(c))
            found['g'] = c.pop()
        a = found['g']
        return {((a, 1),): alg.Fraction(1)}, a
    r = accumulate(rep, m, o, name, w, h, cell, 1, mag, lambda mp: {})
    if r is None:
        return
    E, f, b, wt, ol, (ix, iy), mp, g, acc = r
    T = Obl(rep, 'gradient', name)
    arg = thaw(g[2])
    if len(arg) != 1:
        return T.skip('gradient', 'modulus')
    v = next(iter(arg))[0][0]
    if v[0] != 'v':
        return T.skip('gradient', 'modulus')
    B = kern.best(E, v[1])
    if B is None or B.frozen:
        return T.skip('gradient', 'search')
    t = A('it', B.h)
    pix = lambda x, y: spec.sub_(ld(('arg', 1), scale(add(add(x, mul(w, y)), mul(mul(w, h), t)), 4)), {})
    x0, y0 = add(I('x'), C(1)), add(I('y'), C(1))
    gx = sub(pix(add(x0, C(1)), y0), pix(sub(x0, C(1)), y0))
    gy = sub(pix(x0, add(y0, C(1))), pix(x0, sub(y0, C(1))))
    sq = add(mul(gx, gx), mul(gy, gy))
    loc = f.vals[B.valphi]
    rev = {('it', B.h): sub(sub(nc, C(1)), t)}
    fw = same(spec.sub_(B.newval, mp), sq)
    bw = same(spec.sub_(B.newval, mp), spec.sub_(sq, rev))
    T('squared modulus', fw or bw, loc, 'the squared modulus of a channel is the sum of the squares of its central differences: %s' % alg.show(B.newval)[:300])
    T('channels', B.n is not None and same(B.n, nc), loc, 'all channels are considered: %s' % (alg.show(B.n) if B.n is not None else '?'))
    T('strongest', B.kind == 'max' and same(B.val0, {}), loc, 'the channel with the largest gradient is selected, starting from zero: %s from %s' % (B.kind, alg.show(B.val0)))
    if not fw:
        gx, gy = spec.sub_(gx, rev), spec.sub_(gy, rev)
    # the components that go with it
    comp = {}
    h0 = B.h
    phis = [p for p in f.blocks[h0] if p.op == 'phi' and p.id != B.valphi and p.ty not in ('ptr',)]
    for p in phis:
        R = kern.best(E, p.id)
        if R is None or R.idxphi != p.id:
            continue
        nv = spec.sub_(R.newidx, mp)
        for nm, q in (('x', gx), ('y', gy)):
            if same(nv, q):
                comp[nm] = ('v', p.id)
                T('component %s starts at zero' % nm, same(R.idx0, {}), p, 'without gradient the component is zero')
    vs = {a for s in kern.stores(E) if s.base[0] == 'alloca' for p_ in (s.val, s.guard) if p_ is not None for a in scev.deep_atoms(p_) if a[0] == 'v'} - {v}
    vs = {a for a in vs if f.vals[a[1]].block == h0}
    T('components', len(comp) == 2 and vs == set(comp.values()), loc, 'the components of the gradient are those of the strongest channel (%s of 2 found)' % len(comp))
    if len(comp) != 2:
        return
    orient(rep, E, f, o, name, b, wt, ol, comp, g, acc)


def m_globals(E, name):
    g = E.f.mod.globals.get(name)
    i = g.get('init') if g and g.get('const') else None
    if not i or i[0] != 'agg' or any(z[0] not in ('c', 'cf') for z in i[2:]):
        return None
    return [alg.Fraction(z[2]) for z in i[2:]]


def orient(rep, E, f, o, name, b, wt, ol, comp, g, acc):
    """the two closest orientations"""
    T = Obl(rep, 'orientation', name)
    n = o.at('numOrientations')
    ob, ow = b[1], wt[1]
    T('arrays', same(thaw(b[2]), scale(A('it', ol), 8)) and same(thaw(wt[2]), scale(A('it', ol), 4)), f, 'bin and weight of the same orientation are used')
    sts = [s for s in kern.stores(E) if s.base in (ob, ow)]
    outer = [c[0] for c in acc[0].chain if c[0] != ol]
    depth = lambda s: [c for c in s.chain if c[0] not in outer]
    init = [s for s in sts if not depth(s) and all(kern.before(E, s.ins, q.ins) for q in sts if depth(q))]
    srch = [s for s in sts if depth(s)]
    post = [s for s in sts if not depth(s) and s not in init]
    lp = {tuple(c[0] for c in depth(s)) for s in srch}
    if len(lp) != 1 or len(next(iter(lp))) != 1:
        return T.skip('search', 'loops')
    hk = next(iter(lp))[0]
    cnt = depth(srch[0])[0][1]
    T('all orientations', cnt is not None and same(cnt, n), srch[0].ins, 'all orientations are considered: %s' % (alg.show(cnt) if cnt is not None else '?'))
    k = A('it', hk)

    def order(xs):
        r = []
        for s in xs:
            i = 0
            while i < len(r) and not kern.before(E, s.ins, r[i].ins):
                i += 1
            r.insert(i, s)
        return r
    pos = {}

    def run(xs, env, state):
        """state after the stores"""
        new = dict(state)
        e = dict(env)
        e['load'] = lambda base, of: state.get((base, of)) if base in (ob, ow) else env['load'](base, of)
        memo = {}
        for s in order(xs):
            gd = s.guard if s.guard is not None else C(1)
            if spec.num(gd, e, {}) != 0:
                new[(s.base, spec.num(s.off, e, {}))] = spec.num(s.val, e, {})
        return new
    s0 = {}
    ini = kern.Store
    for s in init:
        try:
            s0[(s.base, alg.cval(s.off))] = alg.cval(s.val)
        except Exception:
            return T.skip('search', 'start')
    # arrays of constants may be copied or cleared by calls
    for i in f.instrs:
        if i.op != 'call' or not (i.callee_name() or '').startswith('llvm.mem') or len(s0) == 4:
            continue
        try:
            bb, oo = E.addr_at(i.ops[0], i.block)
        except alg.Unknown:
            continue
        if bb not in (ob, ow):
            continue
        sz = 8 if bb == ob else 4
        if 'memset' in i.callee_name():
            val, nb = alg.cval(E.at(i.ops[1], i.block)), alg.cval(E.at(i.ops[2], i.block))
            if val in (0, 255, -1) and (bb == ob or val == 0):
                for q in range(int(nb) // sz):
                    s0.setdefault((bb, q * sz), 0 if val == 0 else -1)
        elif isinstance(i.ops[1], list) and i.ops[1][0] == 'g':
            g0 = m_globals(E, i.ops[1][1])
            for q, z in enumerate(g0 or []):
                s0.setdefault((bb, q * sz), z)
    T('no orientation at first', len(s0) == 4 and all(s0[q] < 0 for q in s0), srch[0].ins, 'both orientations are unassigned at first: %s' % {str(q): str(x) for q, x in s0.items()}) if len(s0) == 4 else T.skip('start', '%d values' % len(s0))
    X, Y = ld(o.p('orientationX'), scale(k, 4)), ld(o.p('orientationY'), scale(k, 4))
    aX, aY = next(iter(X))[0][0], next(iter(Y))[0][0]
    nn, kk = 9, 3
    nums = {next(iter(n))[0][0]: nn, ('it', hk): kk}
    bad = None
    cases = 0
    Z = alg.Fraction
    # all relations of the score to the two best so far, both signs, with the product on either axis
    for w0, w1 in ((Z(5), Z(3)), (Z(5), Z(5)), (Z(5), Z(-1)), (Z(-1), Z(-1)), (Z(0), Z(-1)), (Z(0), Z(0))):
        for sc in (7, 5, 4, 3, 2, 0, -2, -3, -4, -5, -7):
            for gxv, gyv, ox, oy in ((Z(1), Z(0), Z(sc), Z(9)), (Z(0), Z(1), Z(9), Z(sc)), (Z(2), Z(-1), Z(sc), Z(sc)), (Z(1), Z(1), Z(sc + 2), Z(-2))):
                env = dict(nums)
                env.update({aX: ox, aY: oy, comp['x']: gxv, comp['y']: gyv})
                env['load'] = lambda base, of: None
                st = {(ob, 0): Z(1), (ob, 8): Z(2), (ow, 0): w0, (ow, 4): w1}
                if w1 < 0:
                    st[(ob, 8)] = Z(-1)
                if w0 < 0:
                    st[(ob, 0)] = Z(-1)
                new = run(srch, env, dict(st))
                cases += 1
                a = abs(sc)
                me = kk + (nn if sc < 0 else 0)
                # ties may go either way
                ok = []
                if a >= w0:
                    ok.append({(ob, 0): me, (ob, 8): st[(ob, 0)], (ow, 0): a, (ow, 4): w0})
                if a <= w0 and a >= w1:
                    ok.append({(ob, 0): st[(ob, 0)], (ob, 8): me, (ow, 0): w0, (ow, 4): a})
                if a <= w1:
                    ok.append(st)
                zero = sc == 0
                if zero:
                    ok += [{q: (x if x != kk else kk + nn) for q, x in d.items()} for d in ok]
                if new not in ok:
                    bad = bad or (sc, str(w0), str(w1), {('bin' if q[0] == ob else 'score') + str(q[1] // (8 if q[0] == ob else 4)): str(x) for q, x in new.items()})
    rep.count('cases', cases)
    T('two closest orientations', bad is None, srch[0].ins, 'the two orientations with the largest absolute scores are kept, with opposite direction when negative; score %s against %s and %s gives %s' % (bad or ('', '', '', '')))
    # weights
    uses = {a for s in srch for p_ in (s.val, s.guard) if p_ is not None for a in scev.deep_atoms(p_) if a[0] == 'ld' and a[1] in (o.p('orientationX'), o.p('orientationY'))}
    T('orientation vectors', uses == {aX, aY}, srch[0].ins, 'orientation k is compared with vector k')
    flag = o.at('useBilinearOrientationAssigment')
    af = next(iter(flag))[0][0]
    w0 = ld(ow, {})
    gg = {((g, 1),): alg.Fraction(1)}
    tiny = C(alg.Fraction('1e-10'))
    acs = []
    for mx in (alg.maxv(gg, tiny), alg.maxv(tiny, gg)):
        ratio = mul(w0, alg.inv(mx))
        for mn in (alg.minv(ratio, C(1)), alg.minv(C(1), ratio)):
            acs.append(scale(mul(n, fn('acos', mn)), 1 / PI))
    for on in (0, 1):
        st = {}
        for s in order(post):
            gd = spec.sub_(s.guard if s.guard is not None else C(1), {af: C(on)})
            if same(gd, {}):
                continue
            if not same(gd, C(1)):
                return T.skip('weights', 'conditions')
            st[(s.base, alg.cval(s.off))] = s
        get = lambda q: st[q].val if q in st else ld(*((q[0], C(q[1])) if q[1] else (q[0], {})))
        R = lambda p: rnd(p)
        v0, v1 = R(spec.sub_(get((ow, 0)), {af: C(on)})), R(spec.sub_(get((ow, 4)), {af: C(on)}))
        at0, at1 = get((ob, 0)), get((ob, 8))
        loc = st[(ow, 0)].ins if (ow, 0) in st else f
        if on:
            T('bilinear weights', any(same(v1, R(ac)) and same(v0, R(sub(C(1), ac))) for ac in acs), loc, 'the second orientation has weight acos(cos angle)/(pi/n), the first the rest: %s and %s' % (alg.show(v1)[:300], alg.show(v0)[:300]))
            T('both orientations', (ob, 0) not in st and (ob, 8) not in st, loc, 'both orientations are used')
        else:
            T('hard assignment', same(v0, C(1)) and (ob, 0) not in st, loc, 'the closest orientation has weight 1: %s' % alg.show(v0)[:200])
            T('only the closest', alg.is_const(at1) and alg.cval(at1) < 0 or same(v1, {}), loc, 'the second orientation is not used')
    T('weights before use', all(kern.before(E, s.ins, a.ins) for s in post for a in acc), f, 'weights are computed before they are used')


def polar(rep, m, o):
    name = 'vl_hog_put_polar_field'
    w, h, cell = (A('arg', k) for k in (4, 5, 6))
    at = lambda k, mp=None: ld(('arg', k), scale(add(I('x'), mul(w, I('y'))), 4))

    def mag(E, mp):
        return at(1), None
    r = accumulate(rep, m, o, name, w, h, cell, 0, mag, lambda mp: {next(iter(at(1)))[0][0]: C(1)})
    if r is None:
        return
    E, f, b, wt, ol, _, mp, _, acc = r
    T = Obl(rep, 'orientation', name)
    M = next(iter(at(1)))[0][0]
    for z in (0, -1):
        T('no gradient %d' % z, all(same(spec.sub_(spec.sub_(full(E, s), mp), {M: C(z)}), {}) for s in acc), acc[0].ins, 'pixels without gradient do not contribute')
    ob, ow = b[1], wt[1]
    T('arrays', same(thaw(b[2]), scale(A('it', ol), 8)) and same(thaw(wt[2]), scale(A('it', ol), 4)), f, 'bin and weight of the same orientation are used')
    n = o.at('numOrientations')
    sts = [s for s in kern.stores(E) if s.base in (ob, ow) and len(s.chain) == 2]
    af = next(iter(o.at('useBilinearOrientationAssigment')))[0][0]
    pos = rnd(scale(mul(at(2), n), 1 / PI))
    fl = fn('floor', pos)
    fr = sub(pos, fl)
    af_l = next(iter(fl))[0][0]
    for on in (0, 1):
        st = {}
        for s in sts:
            gd = spec.sub_(spec.sub_(s.guard if s.guard is not None else C(1), mp), {af: C(on), M: C(1)})
            if same(gd, {}):
                continue
            if not same(gd, C(1)):
                return T.skip('weights', 'conditions %s' % alg.show(gd)[:200])
            q = (s.base, alg.cval(s.off))
            if q in st and not kern.before(E, st[q].ins, s.ins):
                continue
            st[q] = s
        if (ow, 0) not in st or (ob, 0) not in st or (ob, 8) not in st:
            return T.skip('weights', 'stores')
        val = lambda q: rnd(spec.sub_(spec.sub_(st[q].val, mp), {af: C(on), M: C(1)}))
        nm = 'bilinear' if on else 'closest'
        if on:
            T('weights', same(val((ow, 0)), sub(C(1), fr)) and same(val((ow, 4)), fr), st[(ow, 0)].ins, 'the two orientations around the angle are weighted linearly: %s and %s' % (alg.show(val((ow, 0)))[:200], alg.show(val((ow, 4)))[:200]))
        else:
            T('weight', same(val((ow, 0)), C(1)) and same(val((ob, 8)), C(-1)), st[(ow, 0)].ins, 'the closest orientation has weight 1 and there is no second: %s, %s' % (alg.show(val((ow, 0))), alg.show(val((ob, 8)))))
        # bins, for angles of all sizes
        aN = next(iter(n))[0][0]
        aA = next(iter(at(2)))[0][0]
        aD = ('arg', 3)
        bad = unk = None
        for directed in (0, 1, 2):
            for nn in (4, 9):
                for k in range(-2 * nn - 1, 5 * nn):
                    for frac in (alg.Fraction(1, 4), alg.Fraction(3, 4), alg.Fraction(1, 2)):
                        per = nn * (2 if directed else 1)
                        env = {aN: nn, aD: directed, aA: (k + frac) * PI / nn, af_l: k}

                        def turns(a):
                            # the lifted positions go through the closed form of the loop variable until they are not negative
                            ps = [p for p in f.blocks[a[1]] if p.op == 'phi' and p.ty != 'ptr']
                            if len(ps) != 1:
                                raise alg.Unknown('lift')
                            q = rnd(spec.sub_(E.at(ps[0].id, a[1]), mp))
                            e2 = dict(env)
                            for z in range(20):
                                e2[('it', a[1])] = z
                                if spec.num(q, dict(e2)) >= 0:
                                    return z
                            raise alg.Unknown('lift')
                        env['exit'] = turns
                        try:
                            b0 = spec.num(val((ob, 0)), dict(env))
                            want = [k % per] if on or frac < half else [(k + 1) % per] if frac > half else [k % per, (k + 1) % per]
                            if b0 not in want:
                                bad = bad or (directed, nn, k, str(frac), str(b0), want)
                            if on:
                                b1 = spec.num(val((ob, 8)), dict(env))
                                if b1 != (k + 1) % per:
                                    bad = bad or (directed, nn, k, str(frac), str(b1), (k + 1) % per)
                        except alg.Unknown as e:
                            unk = str(e)
        rep.count('cases')
        if unk and bad is None:
            T.skip('bins ' + nm, unk)
            continue
        T('bins ' + nm, bad is None, st[(ob, 0)].ins, 'the orientations around an angle are its position in units of pi/n, wrapped at 2 pi (directed) or pi; directed, n, position, fraction: %s' % (bad,))
    # negative angles are lifted until they are not negative
    ex = {a for s in sts for a in scev.deep_atoms(s.val) if a[0] == 'exit'}
    for a in ex:
        g = lift(E, a[1], fl, n, mp)
        if g is None:
            T.skip('negative angles', 'loop')
        else:
            T('negative angles', g, f.blocks[a[1]][0], 'negative positions are lifted by whole turns until they are not negative')


def lift(E, h, fl, n, mp):
    """does the loop at h run until floor + 2 n k >= 0"""
    ex = list(E.exits(h))
    if len(ex) != 1:
        return None
    x, y = ex[0]
    t = E.f.blocks[x][-1]
    if t.op != 'br' or t.cond is None:
        return None
    c = rnd(spec.sub_(E.at(t.cond, x), mp))
    k = A('it', h)
    v = add(fl, scale(mul(n, k), 2))
    if not same(rnd(spec.sub_(E.at(next(p for p in E.f.blocks[h] if p.op == 'phi').id, h), mp)), v):
        return False
    for neg in (alg.gt0(scale(v, -1)), sub(C(1), alg.ge0(v)), alg.ge0(v), sub(C(1), alg.gt0(scale(v, -1)))):
        if same(c, neg):
            return True
    # the test after the step (rotated loop)
    w = add(v, scale(n, 2))
    for neg in (alg.gt0(scale(w, -1)), alg.ge0(w)):
        if same(c, neg):
            return True
    return None


def place(cs):
    """substitution that puts coordinates (atom, extent, value, position, its extent) in place, deciding comparisons"""
    vals = {c[0]: c[2] for c in cs}
    vals.update({c[1]: c[5] for c in cs if c[5] is not None})
    dec = {}
    for c in cs:
        dec[c[0]] = c[3]
        dec[c[1]] = c[4]

    def f(x):
        if x in vals:
            return vals[x]
        if x[0] in ('eq0', 'gt0'):
            p = thaw(x[1])
            if not any(a in dec for m_ in p for a, _ in m_) or any(a not in dec and a[0] not in ('eq0', 'gt0') for m_ in p for a, _ in m_):
                return None
            d = nat.settle(spec.sub_({((x, 1),): alg.Fraction(1)}, dec))
            return d if alg.is_const(d) else None
        return None
    return lambda p: scev.mapatoms(p, f)


def noeq(p):
    """terms that vanish where their condition q = 0 holds are left out"""
    for e in sorted({a for m_ in p for a, _ in m_ if a[0] == 'eq0'}, key=repr):
        q = thaw(e[1])
        hs = [(m_, c) for m_, c in q.items() if any(a[0] == 'ld' for a, _ in m_)]
        for m_, c in hs[:1]:
            h = next(a for a, k in m_ if a[0] == 'ld' and k == 1)
            co = {tuple((a, -k) for a, k in m_ if a != h): 1 / c}
            rest = {x: y for x, y in q.items() if x != m_}
            sol = mul(scale(rest, -1), co)
            r = {tuple(z for z in x if z[0] != e): y for x, y in p.items() if e in dict(x)}
            if same(spec.sub_(r, {h: sol}), {}):
                p = {x: y for x, y in p.items() if e not in dict(x)}
    return p


def summand(p, n):
    """what is added up over all orientations"""
    r = {}
    for m_, c in p.items():
        s_ = [a for a, k in m_ if a[0] == 'sum']
        na = next(iter(n))[0][0]
        if not s_ and dict(m_).get(na, 0) == 1:
            r = add(r, {tuple(x for x in m_ if x[0] != na): c})
            continue
        if len(s_) != 1 or dict(m_)[s_[0]] != 1 or not any(same(thaw(x), n) for x in s_[0][1:] if isinstance(x, tuple)):
            raise alg.Unknown('sum over orientations')
        b = [x for x in s_[0][1:] if isinstance(x, tuple) and not same(thaw(x), n)]
        if len(b) != 1:
            raise alg.Unknown('sum over orientations')
        body = spec.sub_(thaw(b[0]), {('bv', s_[0][1]): I('k')})
        t = {tuple(x for x in m_ if x[0] != s_[0]): c}
        r = add(r, mul(t, body))
    return r


def extract(rep, m, o):
    name = 'vl_hog_extract'
    f = m.F(name)
    E = spec.scev_of(f, m)
    T = Obl(rep, 'features', name)
    W, Hh, n, vr, tr = (o.at(x) for x in ('hogWidth', 'hogHeight', 'numOrientations', 'variant', 'transposed'))
    S = mul(W, Hh)
    aW, aH, aV, aT = (next(iter(x))[0][0] for x in (W, Hh, vr, tr))
    hog = lambda c, k: ld(o.p('hog'), scale(add(c, mul(S, k)), 4))
    nrm = lambda x, y: ld(o.p('hogNorm'), scale(add(x, mul(W, y)), 4))
    sts = kern.stores(E)
    rep.count('stores', len(sts))
    ns = [s for s in sts if s.base == o.p('hogNorm')]
    out = [s for s in sts if s.base == ('arg', 1)]
    # norms
    q = Obl(rep, 'norms', name)
    sq = lambda c, k: mul(add(hog(c, k), hog(c, add(k, n))), add(hog(c, k), hog(c, add(k, n))))
    c = I('c')
    one = Spec('n', [('k', n), ('c', S)], o.p('hogNorm'), scale(c, 4), add(ld(o.p('hogNorm'), scale(c, 4)), sq(c, I('k'))))
    x, y = I('x'), I('y')
    cxy = add(x, mul(W, y))
    two = Spec('n', [('k', n), ('y', Hh), ('x', W)], o.p('hogNorm'), scale(cxy, 4), add(ld(o.p('hogNorm'), scale(cxy, 4)), sq(cxy, I('k'))))
    tot = [Spec('n', [('c', S)], o.p('hogNorm'), scale(c, 4), [SUM(lambda k: sq(c, k), n), add(ld(o.p('hogNorm'), scale(c, 4)), SUM(lambda k: sq(c, k), n))]), Spec('n', [('y', Hh), ('x', W)], o.p('hogNorm'), scale(cxy, 4), [SUM(lambda k: sq(cxy, k), n), add(ld(o.p('hogNorm'), scale(cxy, 4)), SUM(lambda k: sq(cxy, k), n))])]
    zero = [s for s in ns if same(s.val, {})]
    acc = [s for s in ns if s not in zero]
    if len(acc) != 1:
        q.skip('norms', '%d stores' % len(acc))
    else:
        a = acc[0]
        if kern.recognised(a, spec.VOC):
            q('squared norm', any(kern.fit(a, z) for z in [one, two] + tot), a.ins, 'the norm of a cell is that of its histogram folded to undirected orientations: %s' % a.show()[:400])
        else:
            q.skip('squared norm', a.show()[:200])
        self_ = ('ld', a.base, freeze(a.off)) in scev.deep_atoms(a.val)
        cl = False
        for i in f.instrs:
            if i.op == 'call' and ((i.callee_name() or '').startswith('llvm.memset') or i.callee_name() == 'memset'):
                st = spec.callst(E, i, (0, 1, 2))
                if same(st.val, fn('args', P(o.p('hogNorm')), {}, scale(S, 4))) and kern.before(E, i, a.ins) and same(kern.when(E, i.block), C(1)):
                    cl = True
        for z in zero:
            if (kern.fit(z, Spec('z', [('c', S)], o.p('hogNorm'), scale(c, 4), {})) or kern.fit(z, Spec('z', [('y', Hh), ('x', W)], o.p('hogNorm'), scale(cxy, 4), {}))) and kern.before(E, z.ins, a.ins):
                cl = True
        q('cleared', cl or not self_, a.ins, 'the norms do not accumulate from one extraction to the next')
        q('norms first', all(kern.before(E, a.ins, s.ins) for s in out), a.ins, 'norms are complete before they are used')
    # positions: coordinate, its neighbors limited to the grid, and how it is placed
    def coord(a, N):
        r = []
        q = A(*a)
        p_, q_ = nat.S('p' + a[1]), nat.S('q' + a[1])
        for l, left in ((0, {}), (1, C(1)), (2, add(C(2), p_))):
            for e, right in ((0, {}), (1, C(1)), (2, add(C(2), q_))):
                c_ = C(l) if l < 2 else sub(N, C(1 + e)) if e < 2 else q
                r.append((c_, c_ if l == 0 else sub(c_, C(1)), c_ if e == 0 else add(c_, C(1)), ('%s from the start, %s from the end' % (l if l < 2 else '2+', e if e < 2 else '2+'), left, add(add(left, right), C(1)), C(l + e + 1) if l < 2 and e < 2 else None)))
        return r
    xs, ys = coord(('I', 'x'), W), coord(('I', 'y'), Hh)
    where = [(a_, ys[8]) for a_ in xs] + [(xs[8], b_) for b_ in ys[:8]] + [(xs[i], ys[j]) for i in (2, 6) for j in (2, 6)] + [(xs[0], ys[0])]
    # features
    eps = C(alg.Fraction('1e-4'))
    cap = C(alg.Fraction('0.2'))
    rs = lambda p: alg.inv(fn('sqrt', p)) if False else None
    for vname, vv in (('Uoctti', o.U), ('DalalTriggs', o.D)):
        for t in (0, 1, 2):
            on = [s for s in out if not same(spec.sub_(full(E, s), {aV: C(vv)}), {})]
            for s in on:
                if any(c_ is None for _, c_ in s.chain) or not same(spec.sub_(full(E, s), {aV: C(vv), aT: C(t)}), C(1)):
                    return T.skip('features', 'conditions')
            per = {}
            hy = hx = None
            for s in on:
                # loops over rows and columns
                cn = dict(s.chain)
                ks = [k for k in cn if same(cn[k], n)]
                rows = [k for k in cn if same(cn[k], Hh)]
                cols = [k for k in cn if same(cn[k], W)]
                if len(rows) != 1 or len(cols) != 1 or len(s.chain) != 2 + len(ks) or len(ks) > 1:
                    return T('all cells', False, s.ins, 'all cells and orientations are visited: %s' % [alg.show(z) for z in cn.values()])
                mp = {('it', rows[0]): y, ('it', cols[0]): x, aV: C(vv), aT: C(t)}
                if ks:
                    mp[('it', ks[0])] = I('k')
                of, va = spec.sub_(s.off, mp), spec.sub_(s.val, mp)
                base = sub(of, scale(cxy, 4))
                hit = None
                if ks:
                    hit = next((j for j in range(4) if same(base, scale(mul(S, add(I('k'), scale(n, j))), 4))), None)
                else:
                    hit = next((j + 4 for j in range(4) if same(base, scale(mul(S, add(scale(n, 3), C(j))), 4))), None)
                if hit is None or hit in per:
                    T('place of a feature %s' % vname, False, s.ins, 'a feature is stored at %s' % alg.show(of)[:300])
                    continue
                per[hit] = (s, va)
            want = {0, 1, 2, 4, 5, 6, 7} if vv == o.U else {0, 1, 2, 3}
            T('features %s' % vname, set(per) == want, f, 'a descriptor has %d components for every orientation%s: %s' % (3 if vv == o.U else 4, ' and four more' if vv == o.U else '', sorted(per)))
            for hit, (s, va) in sorted(per.items()):
                for (xc, xm, xp, dx), (yc, ym, yp, dy) in where:
                    rx, ry = dx[0], dy[0]
                    reg = place([(('I', 'x'), aW) + (xc,) + dx[1:], (('I', 'y'), aH) + (yc,) + dy[1:]])
                    blk = lambda u, v_: mul(C(1), alg.inv(fn('sqrt', add(add(add(nrm(u, v_), nrm(xc, v_)), add(nrm(u, yc), nrm(xc, yc))), eps))))
                    fac = [blk(xm, ym), blk(xp, ym), blk(xm, yp), blk(xp, yp)]
                    if t:
                        fac = [fac[0], fac[2], fac[1], fac[3]]
                    cc = add(xc, mul(W, yc))
                    ha = lambda k: hog(cc, k)
                    hb = lambda k: hog(cc, add(k, n))
                    hc = lambda k: add(ha(k), hb(k))
                    mn = lambda a_, z: alg.minv(mul(a_, z), cap)
                    mn2 = lambda a_, z: alg.minv(cap, mul(a_, z))
                    k = I('k')
                    def wanted(mn):
                        if vv == o.U and hit < 3:
                            z = (ha, hb, hc)[hit](k)
                            r_ = {}
                            for q_ in fac:
                                r_ = add(r_, scale(mn(q_, z), half))
                            return rnd(reg(r_))
                        if vv == o.D:
                            return rnd(reg(mn(fac[hit], hc(k))))
                        return rnd(reg(scale(mn(fac[hit - 4], hc(k)), alg.Fraction('0.23570226039551584'))))
                    if t == 2 and (rx, ry) != (xs[8][3][0], ys[8][3][0]):
                        continue
                    got = rnd(reg(va if hit < 4 else summand(va, n)))
                    T('%s%s %d at column %s, row %s' % (vname, ['', ' transposed', ' transposed (any true value)'][t], hit, rx, ry), same(got, wanted(mn)) or same(got, wanted(mn2)) or same(noeq(got), noeq(wanted(mn))), s.ins,
                      'component %d of a cell is the truncated block-normalised histogram: %s, should be %s' % (hit, alg.show(got)[:300], alg.show(wanted(mn))[:300]))


def render(rep, m, o):
    name = 'vl_hog_render'
    f = m.F(name)
    E = spec.scev_of(f, m)
    T = Obl(rep, 'image', name)
    G, n, vr = o.at('glyphSize'), o.at('numOrientations'), o.at('variant')
    aV = next(iter(vr))[0][0]
    w, h = A('arg', 3), A('arg', 4)
    img, d = ('arg', 1), ('arg', 2)
    sts = [s for s in kern.stores(E) if s.base == img]
    x, y, k, u, v = (I(z) for z in 'xykuv')
    off = scale(add(add(u, mul(G, x)), mul(mul(w, G), add(v, mul(G, y)))), 4)
    acc = [s for s in sts if len(s.chain) == 5]
    lim = [s for s in sts if len(s.chain) == 4]
    if len(acc) != 1 or len(lim) != 1 or len(sts) != 2:
        return T.skip('stores', '%d' % len(sts))
    rep.count('stores', 2)
    gl = ld(o.p('glyphs'), scale(add(add(u, mul(G, v)), mul(mul(G, G), k)), 4))
    wt = lambda kk, j: {a: b for a, b in add({}, ld(d, scale(add(add(x, mul(w, y)), mul(mul(w, h), add(kk, scale(n, j)))), 4))).items()}
    weights = {}
    for vname, vv, cnt in (('Uoctti', o.U, 3), ('DalalTriggs', o.D, 4)):
        ww = {}
        for j in range(cnt):
            ww = add(ww, wt(k, j))
        weights[vv] = ww
        a = acc[0]
        q = kern.Store(a.ins, a.base, spec.sub_(a.off, {aV: C(vv)}), spec.sub_(a.val, {aV: C(vv)}), [(z, None if c is None else spec.sub_(c, {aV: C(vv)})) for z, c in a.chain], None, None)
        sp = Spec('acc', [('y', h), ('x', w), ('k', n), ('v', G), ('u', G)], img, off, add(ld(img, off), mul(ww, gl)))
        if kern.recognised(q, spec.VOC):
            T('glyphs ' + vname, kern.fit(q, sp), a.ins, 'the image of a cell is the sum of the glyphs of all orientations weighted by the components of the descriptor: %s' % q.show()[:500])
        else:
            T.skip('glyphs ' + vname, q.show()[:200])
    # limits
    l = lim[0]
    vs = {a for a in scev.deep_atoms(l.val) if a[0] == 'v'}
    cur = next((a for a in scev.deep_atoms(l.val) if a[0] == 'ld' and a[1] == img), None)
    if len(vs) != 2 or cur is None:
        return T.skip('limits', '%d' % len(vs))
    roles = {}
    for a in vs:
        B = kern.best(E, a[1])
        if B is None or B.frozen or B.n is None:
            return T.skip('limits', 'search')
        roles[B.kind] = (a, B)
    if set(roles) != {'max', 'min'}:
        return T('limits', False, l.ins, 'the range of the image of a cell is that of its weights: %s' % list(roles))
    for kd, (a, B) in roles.items():
        T('%s weight' % kd, same(B.val0, {}) and same(B.n, n), f.vals[a[1]], 'the %s weight starts from zero and covers all orientations: %s over %s' % (kd, alg.show(B.val0), alg.show(B.n)))
        for vname, vv, _ in (('Uoctti', o.U, 3), ('DalalTriggs', o.D, 4)):
            got = spec.sub_(B.newval, {aV: C(vv)})
            its = [z for z, _ in l.chain]
            cn = dict(l.chain)
            ry = [z for z in its if cn[z] is not None and same(cn[z], h)]
            rx = [z for z in its if cn[z] is not None and same(cn[z], w)]
            if len(rx) != 1 or len(ry) != 1:
                return T.skip('limits', 'loops')
            mp = {('it', ry[0]): y, ('it', rx[0]): x, ('it', B.h): k}
            T('%s weight %s' % (kd, vname), same(spec.sub_(got, mp), weights[vv]), f.vals[a[1]], 'the weight of an orientation: %s' % alg.show(got)[:300])
    bad = None
    for lo, hi, c in itertools.product((-3, 0), (0, 2), (-5, -3, -1, 0, 1, 2, 4)):
        r = spec.num(l.val, {roles['min'][0]: lo, roles['max'][0]: hi, cur: c})
        if r != max(lo, min(hi, c)):
            bad = bad or (lo, hi, c, str(r))
    T('clamped', bad is None, l.ins, 'values of the image are limited to the range of the weights: %s' % (bad,))
    q = kern.Store(l.ins, l.base, l.off, C(1), l.chain, None, None)
    T('all values', kern.fit(q, Spec('lim', [('y', h), ('x', w), ('v', G), ('u', G)], img, off, C(1))) and same(thaw(cur[2]), l.off), l.ins, 'every value of the image of the cell is limited in place: %s' % q.show()[:300])
    T('after accumulation', kern.before(E, acc[0].ins, l.ins), l.ins, 'values are limited when they are complete')


def run():
    rep = report.Report('C44', RULE, 'closed-form value graph of the compiled source against the definition of the descriptors')
    m = ir.libm()
    o = L()
    if not o.ok:
        rep.skip('layout', 'VlHog', 'members')
        return rep
    guard(rep, new, m, o)
    guard(rep, prepare, m, o, 'vl_hog_put_image', A('arg', 2), A('arg', 3), A('arg', 5))
    guard(rep, prepare, m, o, 'vl_hog_put_polar_field', A('arg', 4), A('arg', 5), A('arg', 6))
    guard(rep, image, m, o)
    guard(rep, polar, m, o)
    guard(rep, extract, m, o)
    guard(rep, render, m, o)
    rep.floor('obligations', len(rep.obl), 30)
    return rep
