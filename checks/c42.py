"""C42: dense SIFT: every number of the descriptors is the documented function of the image, for every image and geometry."""
import ir, alg, report, kern, build, spec, nat, scev
from alg import C, A, add, sub, mul, scale, fn, same, freeze, thaw
from kern import ld, I, SUM, Spec
from spec import Obl, P, ptr, region, fold

RULE = ('closed form of every value stored and of every argument passed on the way from the image to the descriptors and keypoints, over all pixels, frames, spatial and orientation bins, '
        'image regions (first, inner and last row and column) apart, compared with the definition of the descriptor')
DEBUG = False
guard = spec.guarded(lambda: DEBUG)
H = 'vl/dsift.h'
N = ['imWidth', 'imHeight', 'stepX', 'stepY', 'boundMinX', 'boundMinY', 'boundMaxX', 'boundMaxY', 'geom.numBinT', 'geom.numBinX', 'geom.numBinY', 'geom.binSizeX', 'geom.binSizeY', 'useFlatWindow',
     'windowSize', 'numFrames', 'descrSize', 'frames', 'descrs', 'grads', 'convTmp1', 'convTmp2']
ME = ('arg', 0)
FEPS, CLAMP = 1.19209290e-07, 0.2


def F(x):
    return C(alg.Fraction('%.9g' % x))


class L:
    def __init__(self, m):
        self.off = spec.offsets(H, 'VlDsiftFilter', N)
        self.kp = spec.offsets(H, 'VlDsiftKeypoint', ['x', 'y', 'norm'])
        K = build.constants(H, ['sizeof(VlDsiftKeypoint)'])
        K.update(build.constants('vl/imopv.h', ['VL_PAD_BY_CONTINUITY|VL_TRANSPOSE']))
        self.ok = self.off and self.kp and len(K) == 2
        if not self.ok:
            return
        self.kpsize, self.flags = K['sizeof(VlDsiftKeypoint)'], K['VL_PAD_BY_CONTINUITY|VL_TRANSPOSE']
        for n in N:
            setattr(self, n.replace('geom.', ''), ld(ME, self.off[n]))
        for n in ('frames', 'descrs', 'grads', 'convTmp1', 'convTmp2'):
            setattr(self, n + 'P', ptr(ME, self.off[n]))
        self.rx = sub(sub(self.boundMaxX, self.boundMinX), mul(sub(self.numBinX, C(1)), self.binSizeX))
        self.ry = sub(sub(self.boundMaxY, self.boundMinY), mul(sub(self.numBinY, C(1)), self.binSizeY))
        self.nx = add(fn('udiv', self.rx, self.stepX), C(1))
        self.ny = add(fn('udiv', self.ry, self.stepY), C(1))


def unsign(a):
    """quotients of numbers that are not negative"""
    if a[0] == 'fn' and a[1] == 'sdiv':
        return fn('udiv', *[scev.mapatoms(thaw(x), unsign) for x in a[2:]])
    return None


def window(b, n, i, ws, x):
    """Gaussian window at offset x from the centre of bin i"""
    z = mul(sub(x, mul(b, sub(i, scale(sub(n, C(1)), alg.Fraction(1, 2))))), alg.inv(mul(b, ws)))
    return fn('exp', scale(mul(z, z), alg.Fraction(-1, 2)))


def kernel(rep, m):
    E = spec.scev_of(m.F('_vl_dsift_new_kernel'), m)
    T = Obl(rep, 'window', '_vl_dsift_new_kernel')
    sts = kern.stores(E)
    if len(sts) != 1 or len(sts[0].chain) != 1 or sts[0].base[0] != 'call':
        return T.skip('kernel', '%d stores' % len(sts))
    s = sts[0]
    B, n, k = nat.S('B'), nat.S('N'), nat.S('K')
    x = ('it', s.chain[0][0])
    w = nat.S('W')
    base = {('arg', 0): B, ('arg', 1): n, ('arg', 3): w}
    T('extent', same(spec.sub_(s.chain[0][1], base), sub(scale(B, 2), C(1))) and same(s.off, scale(A(*x), 4)), s.ins, 'the kernel extends from -binSize+1 to binSize-1')
    for side in (-1, 1):
        for idx, what in ((nat.S('I'), 'bin'), ({}, 'first bin'), (C(-1), 'flat')):
            mp = dict(base)
            mp[('arg', 2)] = idx
            mp[x] = add(sub(B, C(1)), scale(k, side))
            v = nat.settle(spec.sub_(s.val, mp))
            tri = sub(C(1), mul(k, alg.inv(B)))
            want = mul(tri, window(B, n, idx, w, scale(k, side))) if what != 'flat' else tri
            T('weight %s %s' % (what, 'left' if side < 0 else 'right'), same(v, want), s.ins, 'the weight at distance k of the centre is (1 - k/binSize) times the Gaussian window of the bin: %s' % alg.show(v)[:200])
    for i in spec.calls(E.f, 'vl_malloc'):
        T('allocated', same(spec.sub_(E.at(i.ops[0], i.block), base), scale(sub(scale(B, 2), C(1)), 4)), i, 'the buffer holds 2 binSize - 1 floats')


def gradients(rep, E, l, sts):
    T = Obl(rep, 'gradient', 'vl_dsift_process')
    g = [s for s in sts if isinstance(s.base, tuple) and s.base[0] == '*' and s.base[1] == l.gradsP]
    if len(g) != 2 or any(len(s.chain) != 2 or any(n is None for _, n in s.chain) for s in g):
        return T.skip('gradient', '%d stores' % len(g))
    W, Hh, Tn = l.imWidth, l.imHeight, l.numBinT
    h = g[0].chain
    if [x for x, _ in h] != [x for x, _ in g[1].chain]:
        return T.skip('gradient', 'two loops')
    cnt = [n for _, n in h]
    ok = same(cnt[0], Hh) and same(cnt[1], W) or same(cnt[0], W) and same(cnt[1], Hh)
    if not T('pixels', ok, g[0].ins, 'every pixel of the image is visited: %s' % [alg.show(n) for n in cnt]):
        return
    iy, ix = (h[0][0], h[1][0]) if same(cnt[0], Hh) else (h[1][0], h[0][0])
    if same(W, Hh):
        return T.skip('gradient', 'indistinct')

    def want(py, px, y, x):
        at = lambda dx, dy: ld(('arg', 1), scale(add(add(x, C(dx)), mul(add(y, C(dy)), W)), 4))
        one = lambda which, dx, dy: sub(at(dx, dy), at(0, 0)) if which == 'first' else sub(at(0, 0), at(-dx, -dy)) if which == 'last' else scale(sub(at(dx, dy), at(-dx, -dy)), alg.Fraction(1, 2))
        gx, gy = one(px, 1, 0), one(py, 0, 1)
        mod = fn('sqrt', add(mul(gx, gx), mul(gy, gy)))
        nt = mul(fn('mod2pi', fn('atan2', gy, gx)), scale(Tn, alg.Fraction('0.15915494309189535')))
        b = fn('floor', nt)
        r = sub(nt, b)
        off = scale(add(x, mul(y, W)), 4)
        return [(scale(fn('srem', b, Tn), 8), off, mul(sub(C(1), r), mod)), (scale(fn('srem', add(b, C(1)), Tn), 8), off, mul(r, mod))]
    y, x = A('it', iy), A('it', ix)
    urem = lambda a: fn('srem', *[scev.mapatoms(thaw(q), urem) for q in a[2:]]) if a[0] == 'fn' and a[1] == 'urem' else fn('srem', *[scev.mapatoms(thaw(q), urem) for q in a[2:]]) if a[0] == 'fn' and a[1] == 'srem' else None
    res = []
    for fy in (0, 1):
        for fx in (0, 1):
            mp = {}
            if fy:
                mp[('it', iy)] = sub(sub(Hh, C(1)), y)
            if fx:
                mp[('it', ix)] = sub(sub(W, C(1)), x)
            gg = [(spec.sub_(thaw(s.base[2]), mp), spec.sub_(s.off, mp), spec.sub_(s.val, mp)) for s in g]
            out = []
            for py in ('first', 'mid', 'last'):
                for px in ('first', 'mid', 'last'):
                    ry, rx = region(py, ('it', iy), Hh), region(px, ('it', ix), W)
                    R = lambda p: spec.rnd(scev.mapatoms(rx(ry(p)), urem))
                    yy = {} if py == 'first' else sub(Hh, C(1)) if py == 'last' else y
                    xx = {} if px == 'first' else sub(W, C(1)) if px == 'last' else x
                    left = list(gg)
                    good = True
                    for o, off, v in want(py, px, yy, xx):
                        hit = next((s for s in left if same(R(s[1]), R(off)) and same(R(s[0]), R(o)) and same(R(s[2]), R(v))), None)
                        good = good and hit is not None
                        if hit is not None:
                            left.remove(hit)
                    out.append((py, px, good))
            res.append(out)
            if all(q for _, _, q in out):
                break
        else:
            continue
        break
    for py, px, good in max(res, key=lambda o: sum(q for _, _, q in o)):
        T('%s row, %s column' % (py, px), good, g[0].ins, 'in the %s row and %s column the gradient (one-sided at the border, central inside) is not split as documented over the two nearest orientations' % (py, px))
    # cleared before
    ms = [i for i in E.f.instrs if i.op == 'call' and (i.callee_name() or '').startswith('llvm.memset')]
    ms = [i for i in ms if E.addr_at(i.ops[0], i.block)[0][:2] == ('*', l.gradsP)]
    if len(ms) == 1:
        st = spec.callst(E, ms[0], (0, 1, 2))
        sp = Spec('cleared', [('t', Tn)], ('calls', 'llvm.memset.p0.i64'), {}, fn('args', P(('*', l.gradsP, freeze(scale(I('t'), 8)))), {}, scale(mul(W, Hh), 4)))
        T('cleared', kern.fit(st, sp) and kern.before(E, ms[0], g[0].ins) and nat_true(kern.when(E, ms[0].block)), ms[0], 'every orientation channel is cleared, over its whole extent, before each image: %s' % st.show()[:200])
    elif not ms:
        z = [s for s in sts if s not in g and s.base[0] == '*' and s.base[1] == l.gradsP]
        if not z:
            T('cleared', False, g[0].ins, 'the orientation channels are not cleared before an image is processed')
    return g


def nat_true(g):
    return g is not None and same(g, C(1))


def flat(l, g, v):
    """condition g with the flat window off (0) or on"""
    e = freeze(l.useFlatWindow)

    def f(a):
        if a[0] == 'eq0' and same(thaw(a[1]), l.useFlatWindow):
            return {} if v else C(1)
        return None
    return scev.mapatoms(g, f)


def windows(rep, E, l, sts, g):
    T = Obl(rep, 'spatial bins', 'vl_dsift_process')
    D = [s for s in sts if s.base == l.descrsP and len(s.chain) == 5]
    if len(D) != 2:
        return T.skip('descriptor stores', '%d' % len(D))
    t, bx, by, fx, fy = (I(c) for c in ('t', 'bx', 'by', 'fx', 'fy'))
    dst = scale(add(add(add(t, mul(bx, l.numBinT)), mul(by, mul(l.numBinX, l.numBinT))), mul(l.descrSize, add(fx, mul(fy, l.nx)))), 4)
    px = add(add(l.boundMinX, mul(fx, l.stepX)), mul(bx, l.binSizeX))
    py = add(add(l.boundMinY, mul(fy, l.stepY)), mul(by, l.binSizeY))
    src = ld(l.convTmp2P, scale(add(px, mul(py, l.imWidth)), 4))
    loops = [('by', l.numBinY), ('bx', l.numBinX), ('t', l.numBinT), ('fy', l.ny), ('fx', l.nx)]

    def mean(b, n, i):
        k = sub(scale(b, 2), C(1))
        return mul(mul(SUM(lambda j: window(b, n, i, l.windowSize, sub(add(j, C(1)), b)), k), alg.inv(k)), b)
    w = mul(mean(l.binSizeX, l.numBinX, bx), mean(l.binSizeY, l.numBinY, by))
    for val, on, what in ((src, 0, 'Gaussian window'), (mul(w, src), 1, 'flat window')):
        mine = [s for s in D if not same(flat(l, kern.when(E, s.ins.block), on), {})]
        if len(mine) != 1:
            T('%s selected' % what, False, D[0].ins, 'the %s code runs exactly when it is %s (%d stores)' % (what, 'requested' if on else 'not replaced by the flat window', len(mine)))
            continue
        s = spec.subst(mine[0], unsign)
        T(what, kern.fit(s, Spec('bins', loops, l.descrsP, dst, val)), s.ins, 'each bin of each frame takes the smoothed channel at the centre of the bin: %s' % s.show()[:600]) \
            if kern.recognised(s, spec.VOC) else T.skip(what, s.show()[:300])
        convolutions(rep, E, l, s, on, g, what)


def convolutions(rep, E, l, s, on, g, what):
    T = Obl(rep, 'spatial bins', what)
    f = E.f
    name = 'vl_imconvcoltri_f' if on else 'vl_imconvcol_vf'
    ker = {('call', i.id): fn('ker', *[E.at(o, i.block) for o in i.ops]) for i in spec.calls(f, '_vl_dsift_new_kernel')}
    cs = []
    for i in spec.calls(f, name):
        st = spec.callst(E, i)
        cs.append(spec.subst(st, lambda a: ker.get(a[1]) if a[0] == 'base' else None))
    if len(cs) != 2:
        return T.skip('convolutions', '%d calls' % len(cs))
    t, bx, by = I('t'), I('bx'), I('by')
    W, Hh, fl = l.imWidth, l.imHeight, C(l.flags)
    ky = fn('ker', l.binSizeY, l.numBinY, by, l.windowSize)
    kx = fn('ker', l.binSizeX, l.numBinX, bx, l.windowSize)
    src = P(('*', l.gradsP, freeze(scale(t, 8))))
    b1, b2 = P(l.convTmp1P), P(l.convTmp2P)
    if on:
        a1 = [b1, Hh, src, W, Hh, W, l.binSizeY, C(1), fl]
        a2 = [b2, W, b1, Hh, W, Hh, l.binSizeX, C(1), fl]
        loops = [('t', l.numBinT)]
    else:
        r = lambda b: [sub(C(1), b), sub(b, C(1))]
        a1 = [b1, Hh, src, W, Hh, W, ky] + r(l.binSizeY) + [C(1), fl]
        a2 = [b2, W, b1, Hh, W, Hh, kx] + r(l.binSizeX) + [C(1), fl]
        loops = [('by', l.numBinY), ('bx', l.numBinX), ('t', l.numBinT)]
    if any(len(c.ins.ops) != len(a1) for c in cs):
        return T.skip('convolutions', 'arguments')
    hit = []
    for a, nm in ((a1, 'columns'), (a2, 'rows')):
        x = next((c for c in cs if kern.fit(c, Spec(nm, loops, ('calls', name), {}, fn('args', *a)))), None)
        T(nm, x is not None, cs[len(hit) % 2].ins, 'the %s of each orientation channel are smoothed with the kernel of their bin: %s' % (nm, cs[len(hit) % 2].show()[:500]))
        hit.append(x)
    if all(hit):
        T('order', kern.before(E, hit[0].ins, hit[1].ins) and kern.before(E, hit[1].ins, s.ins), s.ins, 'columns, then rows, then the bins are read')
        T('iterations', [h for h, _ in hit[0].chain] == [h for h, _ in hit[1].chain] == [h for h, _ in s.chain][:len(hit[0].chain)] or not on and set(h for h, _ in hit[0].chain) <= set(h for h, _ in s.chain),
          s.ins, 'a bin is read in the iteration that smooths its channel')
    if g:
        T('after the gradients', all(kern.before(E, q.ins, c.ins) for q in g for c in cs), cs[0].ins, 'the channels are smoothed after they are filled')


def frames(rep, E, l, sts):
    T = Obl(rep, 'keypoints', 'vl_dsift_process')
    fx, fy = I('fx'), I('fy')
    loops = [('fy', l.ny), ('fx', l.nx)]
    at = lambda k: add(scale(add(fx, mul(fy, l.nx)), l.kpsize), l.kp[k])
    half = alg.Fraction(1, 2)
    vx = add(add(l.boundMinX, mul(fx, l.stepX)), scale(mul(l.binSizeX, sub(l.numBinX, C(1))), half))
    vy = add(add(l.boundMinY, mul(fy, l.stepY)), scale(mul(l.binSizeY, sub(l.numBinY, C(1))), half))
    area = mul(add(mul(l.binSizeX, sub(l.numBinX, C(1))), C(1)), add(mul(l.binSizeY, sub(l.numBinY, C(1))), C(1)))
    base = mul(l.descrSize, add(fx, mul(fy, l.nx)))
    mass = mul(SUM(lambda j: ld(l.descrsP, scale(add(base, j), 4)), l.descrSize), alg.inv(area))
    F_ = [spec.subst(s, unsign) for s in sts if s.base == l.framesP]
    T.compare(E.f, F_, [Spec('x', loops, l.framesP, at('x'), vx), Spec('y', loops, l.framesP, at('y'), vy), Spec('norm', loops, l.framesP, at('norm'), mass)])
    # normalise, clamp, normalise
    T = Obl(rep, 'normalisation', 'vl_dsift_process')
    D = [spec.subst(s, unsign) for s in sts if s.base == l.descrsP and len(s.chain) == 3]
    d = lambda j: ld(l.descrsP, scale(add(base, j), 4))
    j = I('j')
    nrm = mul(d(j), alg.inv(add(fn('sqrt', SUM(lambda k: mul(d(k), d(k)), l.descrSize)), F(FEPS))))
    loops = loops + [('j', l.descrSize)]
    sp = Spec('unit length', loops, l.descrsP, scale(add(base, j), 4), nrm)
    NN = [s for s in D if kern.fit(s, sp)]
    CL = [s for s in D if s not in NN]
    if len(D) != 3:
        if D and all(kern.recognised(s, spec.VOC) for s in D) and len(D) < 3 and (len(NN) == len(D) or len(CL) == 1 and len(NN) == 1 and clamp(l, CL[0], loops, base)):
            return T('steps', False, D[0].ins, 'a descriptor is normalised, clamped at %s and normalised again' % CLAMP)
        return T.skip('steps', '%d stores' % len(D))
    if len(NN) != 2 or len(CL) != 1:
        if all(kern.recognised(s, spec.VOC) for s in D):
            return T('unit length', False, CL[0].ins if CL else D[0].ins, 'each descriptor is divided by its Euclidean norm, before and after clamping: %s' % '; '.join(s.show()[:200] for s in CL))
        return T.skip('unit length', '; '.join(s.show()[:200] for s in CL))
    c = clamp(l, CL[0], loops, base)
    if c is None:
        T.skip('clamp', CL[0].show()[:200])
    else:
        T('clamp', c, CL[0].ins, 'entries above %s are set to %s, others are kept: %s' % (CLAMP, CLAMP, CL[0].show()[:300]))
    n1, n2 = sorted(NN, key=lambda s: kern.before(E, NN[1].ins, s.ins))
    if kern.before(E, n2.ins, n1.ins):
        n1, n2 = n2, n1
    c = CL[0]
    B = lambda a, b: kern.before(E, a, b)
    acc2 = spec.sumphis(E, n2.ins.ops[0], n2.ins.block)
    T('order', B(n1.ins, c.ins) and B(c.ins, n2.ins) and all(B(c.ins, p) for p in acc2), c.ins, 'the order is normalise, clamp, normalise')
    ns = [s for s in F_ if same(s.off, at('norm')) or len(s.chain) == 2]
    for s in F_:
        for p in spec.sumphis(E, s.ins.ops[0], s.ins.block):
            T('norm of the keypoint', B(p, n1.ins), s.ins, 'the norm of a keypoint is taken before its descriptor is normalised')
    for s in sts:
        if s.base == l.descrsP and len(s.chain) == 5:
            T('after the bins %s' % s.ins.loc(), B(s.ins, n1.ins), s.ins, 'descriptors are normalised after they are computed')


def clamp(l, s, loops, base):
    """is the store a clamp of every entry (None: not recognised)"""
    hs = [h for h, _ in s.chain]
    if any(n is None for _, n in s.chain) or not same(s.chain[2][1], l.descrSize):
        return None if any(n is None for _, n in s.chain) else False
    good = True
    ref = scale(add(mul(l.descrSize, add(A('it', hs[1]), mul(A('it', hs[0]), l.nx))), A('it', hs[2])), 4)
    if not same(s.off, ref):
        return False
    a = next(iter(ld(l.descrsP, ref)))[0][0]
    lim = C(alg.Fraction(str(CLAMP)))
    for d, what in ((nat.S('P'), lim), ({}, lim), (scale(nat.S('P'), -1), None)):
        x = add(lim, d)
        e = nat.settle(spec.sub_(spec.rnd(s.guard), {a: x})) if s.guard is not None else C(1)
        v = nat.settle(spec.sub_(spec.rnd(s.val), {a: x}))
        if not alg.is_const(e):
            return None
        eff = v if same(e, C(1)) else x
        good = good and same(eff, what if what is not None else x)
    return good


def buffers(rep, m, l):
    E = spec.scev_of(m.F('_vl_dsift_update_buffers'), m)
    T = Obl(rep, 'frame count', '_vl_dsift_update_buffers')
    sts = {freeze(s.off): s for s in kern.stores(E) if s.base == ME}
    s = sts.get(freeze(l.off['descrSize']))
    T('descriptor size', s is not None and same(s.val, mul(l.numBinT, mul(l.numBinX, l.numBinY))) and nat_true(s.guard), s.ins if s else E.f, 'a descriptor has numBinT numBinX numBinY entries')
    s = sts.get(freeze(l.off['numFrames']))
    if s is None:
        return T('number of frames', False, E.f, 'the number of frames is updated')
    one = lambda p: next(iter(p))[0][0]
    for sx in (1, 0, -1):
        for sy in (1, 0, -1):
            rx = scale(nat.S('R'), sx)
            ry = scale(nat.S('Q'), sy)
            mp = {one(l.boundMaxX): add(add(rx, l.boundMinX), mul(sub(l.numBinX, C(1)), l.binSizeX)), one(l.boundMaxY): add(add(ry, l.boundMinY), mul(sub(l.numBinY, C(1)), l.binSizeY))}
            v = fold(scev.mapatoms(nat.settle(spec.sub_(s.val, mp)), unsign))
            want = mul(count(rx, l.stepX), count(ry, l.stepY)) if sx >= 0 and sy >= 0 else {}
            T('number of frames %+d %+d' % (sx, sy), same(v, want), s.ins, 'the frames are those that fit into the bounds (none if the descriptor does not): %s' % alg.show(v)[:200])


def count(r, step):
    return add(fn('udiv', r, step) if r else {}, C(1))


def interface(rep, m, l):
    fs = {f.name: f for f in m.defined()}
    for name, fields in (('vl_dsift_set_steps', ['stepX', 'stepY']), ('vl_dsift_set_bounds', ['boundMinX', 'boundMinY', 'boundMaxX', 'boundMaxY'])):
        f = fs.get('hdr$' + name)
        T = Obl(rep, 'settings', name)
        if f is None:
            T.skip('function', 'missing')
            continue
        E = spec.scev_of(f, m)
        sts = kern.stores(E)
        up = spec.calls(f, '_vl_dsift_update_buffers')
        for k, n in enumerate(fields):
            hit = [s for s in sts if s.base == ME and same(s.off, l.off[n]) and same(s.val, A('arg', k + 1)) and nat_true(s.guard)]
            T(n, bool(hit), f, '%s is set from argument %d' % (n, k + 2))
            if hit:
                T('%s counted' % n, any(E.addr_at(u.ops[0], u.block)[0] == ME and nat_true(kern.when(E, u.block)) and kern.before(E, hit[0].ins, u) for u in up), hit[0].ins,
                  'the number of frames follows the setting')
        T('others kept', all(any(same(s.off, l.off[n]) for n in fields) for s in sts), f, 'other settings are kept')
    f = fs.get('hdr$vl_dsift_set_geometry')
    if f is not None:
        E = spec.scev_of(f, m)
        T = Obl(rep, 'settings', 'vl_dsift_set_geometry')
        mc = [i for i in f.instrs if i.op == 'call' and (i.callee_name() or '').startswith('llvm.memcpy')]
        up = spec.calls(f, '_vl_dsift_update_buffers')
        T('counted', bool(up) and nat_true(kern.when(E, up[0].block)), f, 'the number of frames and the descriptor size follow the geometry')
        if len(mc) == 1 and up:
            st = spec.callst(E, mc[0], (0, 1, 2))
            T('copied', same(st.val, fn('args', P(ME, l.off['geom.numBinT']), P(('arg', 1)), C(20))) and kern.before(E, mc[0], up[0]), mc[0], 'the whole geometry is copied: %s' % st.show()[:200])
    f = fs.get('hdr$vl_dsift_transpose_descriptor')
    if f is not None:
        T = Obl(rep, 'transpose', 'vl_dsift_transpose_descriptor')
        E = spec.scev_of(f, m)
        sts = kern.stores(E)
        if len(sts) != 1 or len(sts[0].chain) != 3:
            return T.skip('store', '%d stores' % len(sts))
        s = sts[0]
        X, Y, Tn = A('arg', 3), A('arg', 4), A('arg', 2)
        for n in (4, 8, 16):
            for k in range(n):
                good = False
                for perm in ((0, 1, 2), (1, 0, 2), (0, 2, 1), (2, 0, 1), (1, 2, 0), (2, 1, 0)):
                    hy, hx, ht = (s.chain[p] for p in perm)
                    if not (same(hy[1], Y) and same(hx[1], X) and same(ht[1], Tn)):
                        continue
                    y, x = A('it', hy[0]), A('it', hx[0])
                    mp = {('arg', 2): C(n), ('it', ht[0]): C(k)}
                    o, v = fold(spec.sub_(s.off, mp)), fold(spec.sub_(s.val, mp))
                    good = good or (s.base == ('arg', 0) and same(o, scale(add(scale(add(y, mul(x, Y)), n), C((n // 4 - k) % n)), 4))
                                    and same(v, ld(('arg', 1), scale(add(scale(add(x, mul(y, X)), n), C(k)), 4))))
                T('orientation %d of %d' % (k, n), good, s.ins, 'bin (x, y, t) goes to bin (y, x, numBinT/4 - t): %s' % s.show()[:200])


def creation(rep, m, l):
    E = spec.scev_of(m.F('vl_dsift_new'), m)
    T = Obl(rep, 'settings', 'vl_dsift_new')
    r = [i for i in E.f.instrs if i.op == 'ret'][0]
    me = E.addr_at(r.ops[0], r.block)[0]
    sts = kern.stores(E)
    w, h = A('arg', 0), A('arg', 1)
    want = {'imWidth': w, 'imHeight': h, 'stepX': C(5), 'stepY': C(5), 'boundMinX': {}, 'boundMinY': {}, 'boundMaxX': sub(w, C(1)), 'boundMaxY': sub(h, C(1)), 'geom.numBinX': C(4), 'geom.numBinY': C(4),
            'geom.numBinT': C(8), 'geom.binSizeX': C(5), 'geom.binSizeY': C(5), 'useFlatWindow': {}, 'windowSize': C(2)}
    for k, v in want.items():
        hit = [s for s in sts if s.base == me and same(s.off, l.off[k])]
        T(k, bool(hit) and same(hit[-1].val, v), hit[-1].ins if hit else E.f, 'the default of %s is %s' % (k, alg.show(v)))
    up = spec.calls(E.f, '_vl_dsift_update_buffers')
    T('counted', any(all(kern.before(E, s.ins, u) for s in sts if s.base == me and any(same(s.off, l.off[k]) for k in want)) for u in up), E.f, 'the number of frames is computed from the defaults')
    E = spec.scev_of(m.F('vl_dsift_new_basic'), m)
    T = Obl(rep, 'settings', 'vl_dsift_new_basic')
    c = spec.calls(E.f, 'vl_dsift_new')
    if len(c) != 1:
        return T.skip('constructor', '%d' % len(c))
    T('size', same(E.at(c[0].ops[0], c[0].block), w) and same(E.at(c[0].ops[1], c[0].block), h), c[0], 'width and height are passed on')
    me = ('call', c[0].id)
    sts = kern.stores(E)
    for k, v in (('stepX', 2), ('stepY', 2), ('geom.binSizeX', 3), ('geom.binSizeY', 3)):
        hit = [s for s in sts if s.base == me and same(s.off, l.off[k])]
        if not hit and k.startswith('geom'):
            T.skip(k, 'copied')
            continue
        T(k, bool(hit) and same(hit[-1].val, A('arg', v)), hit[-1].ins if hit else E.f, '%s is argument %d' % (k, v + 1))
    up = spec.calls(E.f, '_vl_dsift_update_buffers')
    T('counted', any(all(kern.before(E, s.ins, u) for s in sts if s.base == me) for u in up), E.f, 'the number of frames follows')


def process(rep, m, l):
    E = spec.scev_of(m.F('vl_dsift_process'), m)
    rep.count('functions')
    sts = kern.stores(E, lambda b: b in (l.framesP, l.descrsP) or isinstance(b, tuple) and b[:2] == ('*', l.gradsP), guards=False)
    for s in sts:
        if len(s.chain) == 3:
            s.guard = E.leave_psum(kern.guard_of(E, s.ins.block), s.ins.block)
    rep.count('stores', len(sts))
    sts = [s for s in sts if not (s.base[1] == l.gradsP and s.val and next(iter(s.val)) and False)]
    g = []

    def grad(rep):
        x = gradients(rep, E, l, [s for s in sts])
        if x:
            g.extend(x)
    guard(rep, grad)
    guard(rep, windows, E, l, sts, g)
    guard(rep, frames, E, l, sts)
    T = Obl(rep, 'frame count', 'vl_dsift_process')
    up = spec.calls(E.f, '_vl_dsift_update_buffers')
    T('updated', any(nat_true(kern.when(E, u.block)) for u in up), E.f, 'sizes are brought up to date before an image is processed')


def run():
    rep = report.Report('C42', RULE, 'closed-form value graph of the compiled source compared with the definition of the descriptor')
    m = ir.libm()
    l = L(m)
    if not l.ok:
        rep.skip('layout', 'VlDsiftFilter', 'members')
        return rep
    for fun in (kernel,):
        guard(rep, fun, m)
    for fun in (process, buffers, interface, creation):
        guard(rep, fun, m, l)
    rep.floor('obligations', len(rep.obl), 40)
    return rep
