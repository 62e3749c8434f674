"""C41: SIFT: scale space, keypoints, orientations and descriptors are the documented functions of the image, for every image, geometry and history."""
import re
import ir, alg, report, kern, build, spec, nat, scev
from alg import C, A, add, sub, mul, scale, fn, same, freeze, thaw
from kern import ld, I, SUM, Spec
from spec import Obl, P, ptr, region, fold, rnd, sub_

RULE = ('closed form of every value stored and of every argument passed on the way from the image to the keypoints, orientations and descriptors, with the sign of the first octave and the '
        'image regions apart, compared with the definition; the decisions of the detector followed for every single comparison that can fail')
DEBUG = False
guard = spec.guarded(lambda: DEBUG)
H = 'vl/sift.h'
N = ['sigman', 'sigma0', 'sigmak', 'dsigma0', 'width', 'height', 'O', 'S', 'o_min', 's_min', 's_max', 'o_cur', 'temp', 'octave', 'dog', 'octave_width', 'octave_height', 'gaussFilter',
     'gaussFilterSigma', 'gaussFilterWidth', 'keys', 'nkeys', 'keys_res', 'peak_thresh', 'edge_thresh', 'norm_thresh', 'magnif', 'windowSize', 'grad', 'grad_o']
K = ['o', 'ix', 'iy', 'is', 'x', 'y', 's', 'sigma']
ME = ('arg', 0)
HALF = alg.Fraction(1, 2)
PI2 = alg.Fraction('6.283185307179586')
EPS = alg.Fraction('2.220446049250313e-16')
FEPS = alg.Fraction('1.19209290e-07')
LOG2 = alg.Fraction('0.693147180559945')
ANG = ('fn', 'toint')


def F(x):
    return C(alg.Fraction(str(x)))


class L:
    def __init__(self, m):
        self.off = spec.offsets(H, 'VlSiftFilt', N)
        self.kp = spec.offsets(H, 'VlSiftKeypoint', K)
        cs = build.constants(H, ['sizeof(VlSiftKeypoint)'])
        cs.update(build.constants('vl/imopv.h', ['VL_PAD_BY_CONTINUITY|VL_TRANSPOSE']))
        self.ok = bool(self.off and self.kp and len(cs) == 2)
        if not self.ok:
            return
        self.kpsize, self.flags = cs['sizeof(VlSiftKeypoint)'], cs['VL_PAD_BY_CONTINUITY|VL_TRANSPOSE']
        for n in N:
            setattr(self, n, ld(ME, self.off[n]))
            setattr(self, n + '_a', next(iter(ld(ME, self.off[n])))[0][0])
            setattr(self, n + 'P', ptr(ME, self.off[n]))
        self.wh = mul(self.octave_width, self.octave_height)

    def level(self, s):
        """offset of level s of the octave"""
        return scale(mul(self.wh, sub(s, self.s_min)), 4)


def one(p):
    return next(iter(p))[0][0]


def true(g):
    return g is not None and same(g, C(1))


def ints(p):
    """conversions to integer as floors (of numbers that are not negative) left as they are named"""
    return p


def final(E, sts, want):
    """{offset: last store} of the unconditional stores outside loops"""
    return {n: [s for s in sts if s.base == ME and same(s.off, want[n])] for n in want}


def new(rep, m, l):
    f = m.F('vl_sift_new')
    E = spec.scev_of(f, m)
    T = Obl(rep, 'constructor', 'vl_sift_new')
    sts = kern.stores(E)
    objs = {s.base for s in sts if s.base[0] == 'call'}
    if len(objs) != 1:
        return T.skip('object', '%d objects' % len(objs))
    o = next(iter(objs))
    at = {n: [s for s in sts if s.base == o and same(s.off, l.off[n])] for n in N}
    w, h, O, S, om = (A('arg', k) for k in range(5))
    fld = {n: ld(o, l.off[n]) for n in N}
    known = {}
    for n in N:
        if len(at[n]) == 1:
            known[one(fld[n])] = at[n][0].val

    def val(n):
        v = at[n][0].val
        for _ in range(4):
            v = sub_(v, known)
        return rnd(v, 6)
    k = fn('pow', C(2), alg.inv(S))
    want = dict(sigman=C(HALF), sigmak=k, sigma0=mul(F(1.6), k), dsigma0=mul(mul(F(1.6), k), fn('sqrt', sub(C(1), alg.inv(mul(k, k))))), width=w, height=h, S=S, o_min=om, s_min=C(-1),
                s_max=add(S, C(1)), o_cur=om, peak_thresh={}, edge_thresh=C(10), norm_thresh={}, magnif=C(3), windowSize=C(2), nkeys={}, keys={}, keys_res={}, grad_o=sub(om, C(1)),
                gaussFilter={}, gaussFilterSigma={}, octave_width={}, octave_height={})
    for n in sorted(want):
        if len(at[n]) != 1:
            if not at[n]:
                T(n, False, f, 'field %s is not initialised' % n)
            else:
                T.skip(n, '%d stores' % len(at[n]))
            continue
        T(n, same(val(n), rnd(want[n], 6)) and true(at[n][0].guard), at[n][0].ins, 'field %s has its documented initial value, not %s' % (n, alg.show(val(n))[:200]))
    # number of octaves
    if len(at['O']) == 1:
        v = at['O'][0].val
        for sw in (1, -1, 0):
            lo = w if sw > 0 else h
            d = nat.S('D') if sw else {}
            mp = {('arg', 1): add(w, d)} if sw > 0 else {('arg', 0): add(h, d)}
            auto = sub(sub(fn('floor', scale(fn('log', lo), 1 / LOG2)), om), C(3))
            for so, r in ((nat.S('P'), nat.S('P')), ({}, {}), (scale(nat.S('P'), -1), alg.maxv(auto, C(1)))):
                mm = dict(mp)
                mm[('arg', 2)] = so
                got = rnd(untoint(nat.settle(sub_(v, mm))), 5)
                T('octaves %s %s' % (sw, alg.show(so)), same(got, rnd(r, 5)), at['O'][0].ins,
                  'the number of octaves is the given one, or the largest possible (at least one) when negative: %s' % alg.show(got)[:300])
    else:
        T.skip('octaves', '%d stores' % len(at['O']))
    # buffers
    for so, r in ((1, lambda x: fn('ashr', x, nat.S('P'))), (0, lambda x: x), (-1, lambda x: fn('shl', x, nat.S('P')))):
        nel = mul(r(w), r(h))
        for n, c in (('temp', C(1)), ('octave', add(S, C(3))), ('dog', add(S, C(2))), ('grad', scale(add(S, C(2)), 2))):
            if len(at[n]) != 1:
                T.skip(n, '%d stores' % len(at[n]))
                continue
            cs = [i for i in spec.calls(f, 'vl_malloc', 'vl_calloc') if ('call', i.id) == E.addr(at[n][0].ins.ops[0])[0] or same(E.at(at[n][0].ins.ops[0], at[n][0].ins.block), A('callv', i.id, i.callee_name()))]
            if len(cs) != 1:
                T.skip(n, 'allocation')
                continue
            a = C(1)
            for x in cs[0].ops:
                a = mul(a, E.at(x, cs[0].block))
            for _ in range(4):
                a = sub_(a, known)
            a = shifts(nat.settle(sub_(a, {('arg', 4): scale(nat.S('P'), so)})))
            d = sub(a, scale(mul(nel, c), 4))
            enough = nat.sign(d) in ('0', '+', '0+') if same(d, {}) or nat.sign(d) else same(d, {})
            if same(d, {}) or enough:
                T('%s %+d' % (n, so), True, cs[0], '')
            elif all(k_ == -1 for k_ in ()) or nat.sign(scale(d, -1)) in ('+',) or kern_known(d):
                T('%s %+d' % (n, so), False, cs[0], 'the buffer %s holds %s bytes for an octave of the image, not %s' % (n, alg.show(a)[:200], alg.show(scale(mul(nel, c), 4))[:200]))
            else:
                T.skip('%s %+d' % (n, so), alg.show(a)[:200])
    # table of the exponential
    tab = [s for s in sts if s.base[0] == 'g']
    table(rep, E, tab)


def kern_known(p):
    return all(a[0] in ('arg', 'fn', 'sym', 'it') for a in scev.deep_atoms(p))


def untoint(p):
    """conversion to integer of floors and integers dropped"""
    def f(a):
        if a[:2] == ('fn', 'toint') or a[:2] == ('fn', 'int'):
            return scev.mapatoms(thaw(a[2]), f)
        return None
    return scev.mapatoms(p, f)


def shifts(p):
    def f(a):
        if a[0] == 'fn' and a[1] in ('shl', 'ashr', 'lshr') and len(a) == 4:
            x, d = scev.mapatoms(thaw(a[2]), f), scev.mapatoms(thaw(a[3]), f)
            if same(d, {}):
                return x
            return fn(a[1], x, d)
        return None
    return scev.mapatoms(p, f)


TAB = {}


def table(rep, E, tab):
    T = Obl(rep, 'exponential', 'vl_sift_new')
    TAB.clear()
    if len(tab) != 1 or len(tab[0].chain) != 1 or tab[0].chain[0][1] is None or not alg.is_const(tab[0].chain[0][1]):
        return T.skip('table', '%d stores' % len(tab))
    s = tab[0]
    n = int(alg.cval(s.chain[0][1]))
    i = A('it', s.chain[0][0])
    r = sub_(s.val, {('it', s.chain[0][0]): C(1)})
    step = None
    for a in scev.deep_atoms(r):
        if a[:2] == ('fn', 'exp') and alg.is_const(thaw(a[2])):
            step = -alg.cval(thaw(a[2]))
    if step is None or step <= 0:
        return T.skip('table', s.show()[:200])
    T('table', same(s.val, fn('exp', scale(i, -step))) and same(s.off, scale(i, 8)), s.ins, 'entry k of the table is exp(-k step): %s' % s.show()[:200])
    TAB.update(base=s.base, n=n, step=step)


def keypoint(rep, m, l):
    f = m.F('vl_sift_keypoint_init')
    E = spec.scev_of(f, m)
    T = Obl(rep, 'keypoint', 'vl_sift_keypoint_init')
    sts = [s for s in kern.stores(E) if s.base == ('arg', 1)]
    got = {}
    for k in K:
        c = [q for q in sts if same(q.off, l.kp[k])]
        if len(c) != 1:
            T(k, False, f, 'the field %s is not set' % k) if not c else T.skip(k, '%d stores' % len(c))
            continue
        if not true(c[0].guard):
            T(k, False, c[0].ins, 'the field %s is always set' % k)
            continue
        got[k] = c[0]
    logs = {a for c in got.values() for a in scev.deep_atoms(c.val) if a[:2] == ('fn', 'log')}
    if len(logs) != 1:
        return T.skip('logarithm', '%d' % len(logs))
    lg = next(iter(logs))
    T('scale', same(rnd(thaw(lg[2]), 5), rnd(mul(add(A('arg', 4), C(EPS)), alg.inv(l.sigma0)), 5)), got['o'].ins, 'octave and level follow from the logarithm of sigma / sigma0: %s' % alg.show(thaw(lg[2])))
    X, Y = alg.Fraction(77, 2), alg.Fraction(43, 4)
    bad = {}
    Fr = alg.Fraction
    for S in (1, 3):
        for om, O in ((-1, 3), (0, 1), (2, 4)):
            for q in range(-33, 60, 2):
                phi = Fr(q, 8) + Fr(1, 64)
                env = {one(A('arg', 2)): X, one(A('arg', 3)): Y, one(A('arg', 4)): 5, l.o_min_a: om, l.O_a: O, l.S_a: S, l.s_min_a: -1, l.s_max_a: S + 1, l.sigma0_a: 2, lg: phi * LOG2}
                o = (phi - Fr(-1, 2) / S).__floor__()
                o = max(min(o, om + O - 1), om)
                s = S * (phi - o)
                i = int(s + HALF)
                xp = Fr(2) ** o
                want = {'o': o, 'ix': int(X / xp + HALF), 'iy': int(Y / xp + HALF), 'is': max(min(i, S - 1), 0), 'x': X, 'y': Y, 's': s, 'sigma': 5}
                for k, c in got.items():
                    if k in bad and bad[k] is not None:
                        continue
                    bad.setdefault(k, None)
                    v = spec.num(c.val, dict(env))
                    if abs(v - want[k]) > Fr(1, 10 ** 6):
                        bad[k] = 'S=%d, o_min=%d, O=%d, log2(sigma/sigma0)=%s: %s instead of %s' % (S, om, O, phi, v, want[k])
    rep.count('cases', 2 * 3 * 47)
    for k in got:
        T(k, bad[k] is None, got[k].ins, 'the field %s of the keypoint is not the documented function of position and scale: %s' % (k, bad[k]))


def named(p):
    """floors converted to integer are floors; other conversions are named toint"""
    def f(a):
        if a[0] == 'fn' and a[1] in ('toint', 'int'):
            q = scev.mapatoms(thaw(a[2]), f)
            if alg.integral(q) or all(all(x[:2] in (('fn', 'floor'), ('fn', 'ceil')) or x[0] in ('gt0', 'eq0', 'ld', 'arg') and x[0] != 'arg' for x, _ in m) and c.denominator == 1 for m, c in q.items()):
                return q
            return fn('toint', q)
        return None
    return scev.mapatoms(p, f)


def clampsame(p, q):
    return same(p, q)


def deps(f, ops):
    """instructions a value is computed from"""
    seen, todo = set(), list(ops)
    while todo:
        x = todo.pop()
        if not isinstance(x, int) or x in seen or x not in f.vals:
            continue
        seen.add(x)
        v = f.vals[x]
        todo += list(getattr(v, 'ops', None) or []) + [y for y, _ in (getattr(v, 'inc', None) or [])]
    return [f.vals[x] for x in seen]


def loads_of(E, vs, off):
    out = []
    for v in vs:
        if getattr(v, 'op', None) == 'load':
            try:
                b, o = E.addr_at(v.ops[0], v.block)
            except alg.Unknown:
                continue
            if b == ME and same(o, off if isinstance(off, dict) else C(off)):
                out.append(v)
    return out


def octaves(rep, m, l, name):
    f = m.F(name)
    E = spec.scev_of(f, m)
    first = name.endswith('first_octave')
    T = Obl(rep, 'octave', name)
    sts = kern.stores(E)
    mine = {n: [s for s in sts if s.base == ME and same(s.off, l.off[n])] for n in N}
    one_ = {}
    for n in ('o_cur', 'nkeys', 'octave_width', 'octave_height'):
        if not mine[n]:
            T(n, False, f, 'field %s is updated' % n)
        elif len(mine[n]) > 1:
            T.skip(n, '%d stores' % len(mine[n]))
        else:
            one_[n] = mine[n][0]
    if len(one_) < 4:
        return
    # the last octave is the end
    rets = [b[-1] for b in f.blocks if b and b[-1].op == 'ret']
    more = sub(C(1), alg.eq0(sub(l.o_cur, sub(add(l.o_min, l.O), C(1))))) if not first else None
    T('octave index', same(one_['o_cur'].val, l.o_min if first else add(l.o_cur, C(1))), one_['o_cur'].ins, 'the %s octave is made current: %s' % ('first' if first else 'next', alg.show(one_['o_cur'].val)))
    T('keypoints', same(one_['nkeys'].val, {}), one_['nkeys'].ins, 'the keypoints of the previous octave are forgotten')
    if not first:
        for n, s in one_.items():
            T('end %s' % n, s.guard is not None and same(s.guard, more), s.ins, 'there is a next octave exactly when the current one is not o_min + O - 1: %s' % alg.show(s.guard)[:200])
    for n, src in (('octave_width', l.width), ('octave_height', l.height)):
        s = one_[n]
        T(n, all(same(shifts(nat.settle(sub_(s.val, {l.o_cur_a: scale(nat.S('P'), k), l.o_min_a: scale(nat.S('P'), k)}))), r) for k, r in ((1, fn('ashr', src, nat.S('P'))), (0, src), (-1, fn('shl', src, nat.S('P'))))),
          s.ins, 'the octave has the size of the image, halved or doubled once per octave: %s' % alg.show(s.val)[:200])
        T(n + ' after', all(kern.before(E, one_['o_cur'].ins, x) for x in loads_of(E, deps(f, s.ins.ops[:1]), l.off['o_cur'])), s.ins, 'the size is that of the new octave')
    if first:
        g = mine['grad_o']
        inv = [s for s in g if not s.chain and true(s.guard) and same(sub_(s.val, {l.o_cur_a: l.o_min}), sub(l.o_min, C(1)))]
        T('gradients', bool(inv), f, 'the gradients of the previous image are invalidated')
    else:
        T('gradients', all(not same(s.val, add(l.o_cur, C(1))) for s in mine['grad_o']), f, 'the gradients are not marked up to date')
    wv, hv = one_['octave_width'].val, one_['octave_height'].val
    lsz = lambda p: scev.mapatoms(p, lambda a: None)

    def size(p):
        """the size of the octave under its name"""
        for v, n in ((wv, l.octave_width), (hv, l.octave_height)):
            if same(p, v):
                return n
        return p
    # smoothing
    cs = [spec.callst(E, i) for i in spec.calls(f, 'vl_imconvcol_vf')]
    lo = [c for c in cs if not c.chain]
    hi = [c for c in cs if len(c.chain) == 1]
    sc, sn = l.sigmak, l.s_min
    pw = lambda k: fn('pow', l.sigmak, k)
    inv = lambda p: sub_(p, {l.s_min_a: C(-1), l.s_max_a: add(l.S, C(1))})
    if not first:
        lo = [c for c in lo if c.guard is None or not same(inv(plain(c.guard)), {})]
    if len(lo) + len(hi) not in (len(cs), len(cs) - 2) or len(hi) != 2 or len(lo) not in ((2,) if first else (0, 2)):
        T.skip('smoothing', '%d + %d of %d convolutions' % (len(lo), len(hi), len(cs)))
        return E, l, sts, one_, None
    sa = mul(l.sigma0, pw(l.s_min))
    best = alg.minv(add(l.s_min, l.S), l.s_max)
    sb = mul(l.sigman, fn('pow', C(2), scale(l.o_min, -1))) if first else mul(l.sigma0, pw(sub(best, l.S)))
    sd = fn('sqrt', sub(mul(sa, sa), mul(sb, sb)))
    lev = lambda s: add(P(l.octaveP), l.level(s))
    k = add(I('s'), add(l.s_min, C(1)))
    c1 = convolve(rep, E, l, name, 'first level', lo, sts, [], lev(l.s_min), lev(l.s_min), sd, size, f) if lo else None
    c2 = convolve(rep, E, l, name, 'levels', hi, sts, [('s', sub(l.s_max, l.s_min))], lev(sub(k, C(1))), lev(k), mul(l.dsigma0, pw(k)), size, f)
    for c in c2 or []:
        ops = [o for o in c.ins.ops if isinstance(o, int) and {l.octave_width_a, l.octave_height_a} & set(scev.deep_atoms(spec.argv(E, o, c.ins)))]
        T('size of the new octave %s' % c.ins.loc(), all(kern.before(E, one_[n].ins, v) for n in ('octave_width', 'octave_height') for v in loads_of(E, deps(f, ops), l.off[n])), c.ins, 'the levels have the size of the new octave')
    if c1 and c2:
        T('order of levels', kern.before(E, c1[1].ins, c2[0].ins), c2[0].ins, 'the first level is smoothed before the others are computed from it')
        # condition of the first smoothing
        need = alg.gt0(sub(sa, sb))
        g = c1[0].guard
        if not first:
            g = sub_(g, {}) if g is not None else None
        ok = None
        if g is not None:
            r = lambda p: plain(p)
            base = sub(C(1), alg.eq0(l.O)) if first else more
            ok = all(same(case(r(g), l, sa, sb, z, first), C(1) if z > 0 else {}) for z in (1, 0, -1))
        T('first smoothing', ok is not False, c1[0].ins, 'the first level is smoothed exactly when its scale exceeds that of its source: %s' % alg.show(g)[:300])
    source(rep, E, l, name, sts, one_, (lo + hi)[0] if (lo + hi) else None, inv, first, size, more)
    return E, l, sts, one_, (c1, c2)


def source(rep, E, l, name, sts, one_, smooth, inv, first, size, more):
    """the first level before it is smoothed"""
    T = Obl(rep, 'resampling', name)
    f = E.f
    base = lambda s: s.base in (l.octaveP, l.tempP)
    W = [s for s in sts if base(s) and kern.before(E, s.ins, smooth.ins)]
    if not first:
        w, h = l.octave_width, l.octave_height
        y, x = I('y'), I('x')
        lev = mul(mul(w, h), l.S)
        val = ld(l.octaveP, scale(add(add(scale(x, 2), scale(mul(y, w), 2)), lev), 4))
        half = lambda n, k: fn('udiv', add(n, C(k)), C(2))
        v = [spec.subst(s, lambda a: {l.s_min_a: C(-1), l.s_max_a: add(l.S, C(1))}.get(a)) for s in W]
        hit = None
        for hh in (half(h, 1), half(h, 0)):
            hit = hit or next((s for s in v if kern.fit(s, Spec('half', [('y', hh), ('x', half(w, 0))], l.octaveP, scale(add(x, mul(y, half(w, 0))), 4), val, rev=False))), None)
        if len(W) != 1:
            return T.skip('downsampling', '%d stores' % len(W))
        s = v[0]
        if hit is None and not kern.recognised(s, spec.VOC):
            return T.skip('downsampling', s.show()[:300])
        T('downsampling', hit is not None, s.ins, 'the next octave starts from every second pixel of the level with twice the base smoothing: %s' % s.show()[:500])
        lds = [v_ for n in ('octave_width', 'octave_height') for v_ in loads_of(E, deps(f, list(s.ins.ops) + [c for h_, _ in s.chain for x_ in f.loops[h_] for c in [f.blocks[x_][-1].cond] if f.blocks[x_][-1].op == 'br' and c is not None]), l.off[n])]
        T('old size', all(kern.before(E, v_, one_['octave_width'].ins) and kern.before(E, v_, one_['octave_height'].ins) for v_ in lds), s.ins, 'the level that is halved has the size of the previous octave')
        return
    # o_min = 0: copied; > 0: every 2^o_min-th pixel; < 0: doubled
    w, h, om = l.width, l.height, l.o_min
    for k in (0, 1, -1):
        mp = {l.o_min_a: scale(nat.S('P'), k), l.o_cur_a: scale(nat.S('P'), k)}
        alive = [s for s in W if not same(condition(E, s.ins.block, l, mp), {})]
        copies = [i for i in f.instrs if i.op == 'call' and (i.callee_name() or '').startswith('llvm.memcpy') and kern.before(E, i, smooth.ins) and E.addr_at(i.ops[1], i.block)[0] == ('arg', 1)
                  and not same(condition(E, i.block, l, mp), {})]
        if k == 0:
            st = [spec.callst(E, i, (0, 1, 2)) for i in copies]
            if len(st) == 1:
                T('copy', same(st[0].val, fn('args', P(l.octaveP), P(('arg', 1)), scale(mul(w, h), 4))), copies[0], 'with o_min = 0 the octave starts from the image: %s' % st[0].show()[:300])
            elif not alive:
                T('copy', False, f, 'with o_min = 0 the octave starts from the image')
            else:
                T.skip('copy', '%d copies, %d stores' % (len(st), len(alive)))
            T('copy only', len(st) != 1 or not alive, f, 'with o_min = 0 the image is neither doubled nor halved')
        elif k == 1:
            if copies or len(alive) != 1:
                T.skip('downsampling', '%d copies, %d stores' % (len(copies), len(alive)))
                continue
            s = alive[0]
            q = fn('shl', C(1), nat.S('P'))
            s = spec.subst(s, lambda a: mp.get(a))
            y, x = I('y'), I('x')
            q_ = fn('shl', C(1), om)
            nx = add(fn('udiv', sub(w, q), q), C(1))
            hit = None
            for ny in (add(fn('udiv', sub(h, C(1)), q), C(1)), add(fn('udiv', sub(h, q), q), C(1)), fn('udiv', h, q)):
                for n in (nx, fn('udiv', w, q)):
                    hit = hit or kern.fit(s, Spec('down', [('y', ny), ('x', n)], l.octaveP, scale(add(x, mul(y, n)), 4), ld(('arg', 1), scale(mul(q, add(x, mul(y, w))), 4)), rev=False))
            if not hit and not kern.recognised(s, spec.VOC | {'sym'}):
                T.skip('downsampling', s.show()[:300])
            else:
                T('downsampling', hit, s.ins, 'with o_min > 0 the octave starts from every 2^o_min-th pixel: %s' % s.show()[:500])
        else:
            if copies:
                T('doubling', False, copies[0], 'with o_min < 0 the image is doubled')
                continue
            doubling(rep, E, l, name, [s for s in alive])


def condition(E, b, l, mp):
    """does block b run for this sign of the first octave (there is an octave, the image is not empty)"""
    g = kern.when(E, b)
    if g is None:
        return A('open')
    return nat.settle(sub_(g, {**mp, l.O_a: nat.S('O'), l.width_a: nat.S('W'), l.height_a: nat.S('H')}))


def doubling(rep, E, l, name, W):
    """each instance doubles the rows of its source and transposes"""
    T = Obl(rep, 'doubling', name)
    w, h = l.width, l.height
    k = I('k')
    out = []
    g = {}
    for s in W:
        g.setdefault((s.base, len(s.chain), tuple(x for x, _ in s.chain[:-1]) if False else None), []).append(s)
    # four stores per instance, two of them in a loop over the pixels of the row
    inst = {}
    for s in W:
        inst.setdefault(group(E, s), []).append(s)
    specs = []
    up = lambda n, sh: mul(n, C(2)) if sh is None else fn('shl', n, sh)
    kk = add(I('o'), C(1))
    want = [('first rows', [], l.tempP, ('arg', 1), w, h, C(1)), ('first columns', [], l.octaveP, l.tempP, h, scale(w, 2), C(1)),
            ('more rows', [('o', sub(scale(l.o_min, -1), C(1)))], l.tempP, l.octaveP, fn('shl', w, kk), fn('shl', h, kk), C(1)),
            ('more columns', [('o', sub(scale(l.o_min, -1), C(1)))], l.octaveP, l.tempP, fn('shl', h, kk), scale(fn('shl', w, kk), 2), C(1))]
    used = set()
    order = []
    for nm, lp, dst, src, cw, ch, _ in want:
        y, x = I('y'), I('x')
        row = lambda i: ld(src, scale(add(i, mul(y, cw)), 4))
        at = lambda i: scale(add(y, mul(ch, i)), 4)
        last = sub(cw, C(1))
        S4 = [Spec('even', lp + [('y', ch), ('x', last)], dst, at(scale(x, 2)), row(x), rev=True), Spec('odd', lp + [('y', ch), ('x', last)], dst, at(add(scale(x, 2), C(1))), scale(add(row(x), row(add(x, C(1)))), HALF)),
              Spec('last even', lp + [('y', ch)], dst, at(scale(last, 2)), row(last)), Spec('last odd', lp + [('y', ch)], dst, at(add(scale(last, 2), C(1))), row(last))]
        mine = [s for s in W if s.base == dst and len(s.chain) in (len(lp) + 1, len(lp) + 2) and id(s) not in used and (len(s.chain) - len(lp) == 1 or True)]
        mine = [s for s in mine if depth_ok(E, s, len(lp))]
        hit = {}
        for sp in S4:
            c = next((s for s in mine if id(s) not in used and kern.fit(s, sp)), None)
            hit[sp.name] = c
            if c is not None:
                used.add(id(c))
        if all(v is None for v in hit.values()) and len(mine) != 4:
            T.skip(nm, '%d stores' % len(mine))
            continue
        rest = [s for s in mine if id(s) not in used]
        for sp in S4:
            if hit[sp.name] is None and (not rest or not all(kern.recognised(r, spec.VOC) for r in rest)):
                T.skip('%s %s' % (nm, sp.name), rest[0].show()[:300] if rest else 'not found')
            else:
                c = hit[sp.name] or rest[0]
                T('%s %s' % (nm, sp.name), hit[sp.name] is not None, c.ins, 'each row is doubled: its pixels, the means of neighbors between them and the last one twice, stored as a column: %s' % c.show()[:400])
        if all(hit.values()):
            order.append([hit[sp.name].ins for sp in S4])
    for a, b in zip(order, order[1:]):
        T('order %s' % b[0].loc(), all(kern.before(E, p, q) for p in a for q in b), b[0], 'rows and columns are doubled in turn')


def group(E, s):
    return s.base


def depth_ok(E, s, n):
    """is the store inside n loops besides its rows and pixels"""
    hs = [h for h, _ in s.chain]
    inner = len(hs) - n
    return inner in (1, 2) and (inner == 2 or not any(len(E.f.loops[h]) > len(E.f.loops[hs[-1]]) for h in hs[-1:])) 


def plain(p):
    """powf is pow"""
    return scev.mapatoms(p, lambda a: fn('pow', *[plain(thaw(x)) for x in a[2:]]) if a[:2] == ('fn', 'powf') else None)


def case(g, l, sa, sb, z, first):
    """condition g when sa - sb has sign z and there is an octave, and the Gaussian has a width"""
    d = sub(sa, sb)

    def f(a):
        if a[0] in ('eq0', 'gt0'):
            p = plain(thaw(a[1]))
            for k in (1, -1):
                if same(p, scale(d, k)):
                    return C(1 if (a[0] == 'gt0' and z * k > 0) or (a[0] == 'eq0' and z == 0) else 0)
            if same(p, l.O) and a[0] == 'eq0':
                return {}
            e = sub(sub(add(l.o_min, l.O), C(1)), l.o_cur)
            if a[0] == 'eq0' and (same(p, e) or same(p, scale(e, -1))):
                return {}
            if same(p, l.gaussFilterWidth):
                return {} if a[0] == 'eq0' else C(1)
        return None
    return scev.mapatoms(g, f)


def convolve(rep, E, l, name, what, cs, sts, loops, src, dst, sd, size, f):
    T = Obl(rep, 'smoothing', '%s: %s' % (name, what))
    w, h = l.octave_width, l.octave_height
    gw, ker = l.gaussFilterWidth, P(l.gaussFilterP)
    tmp = P(l.tempP)
    fl = C(l.flags)

    def args(c):
        return kern.Store(c.ins, c.base, c.off, fn('args', *[size(plain(spec.argv(E, o, c.ins))) for o in c.ins.ops]), c.chain, None, None)
    A1 = [tmp, h, src, w, h, w, ker, scale(gw, -1), gw, C(1), fl]
    A2 = [dst, w, tmp, h, w, h, ker, scale(gw, -1), gw, C(1), fl]
    cs = [args(c) for c in cs]
    hit = []
    left = list(cs)
    for nm, a in (('columns', A1), ('rows', A2)):
        x = next((c for c in left if kern.fit(c, Spec(nm, loops, c.base, {}, fn('args', *a)))), None)
        if x is not None:
            left.remove(x)
        hit.append(x)
    for (nm, a), x in zip((('columns', A1), ('rows', A2)), hit):
        y = x or left[0]
        if x is None and not all(kern.recognised(c, spec.VOC) for c in left):
            T.skip(nm, y.show()[:300])
            continue
        T(nm, x is not None, y.ins, 'the level is the previous one (or itself) smoothed along %s with the Gaussian, borders continued: %s' % (nm, y.show()[:600]))
    if None in hit:
        return None
    byid = {c.ins: c for c in cs}
    T('order', kern.before(E, hit[0].ins, hit[1].ins), hit[1].ins, 'columns are smoothed before rows')
    # the kernel
    fo = {n: [s for s in sts if s.base == ME and same(s.off, l.off[n]) and len(s.chain) == len(loops)] for n in ('gaussFilter', 'gaussFilterSigma', 'gaussFilterWidth')}
    G = [s for s in sts if s.base == l.gaussFilterP and len(s.chain) == len(loops) + 1]
    if any(len(v) != 1 for v in fo.values()) or len(G) != 2:
        T.skip('kernel', '%s stores' % [len(v) for v in fo.values()] + ', %d' % len(G))
        return [c for c in hit]
    pl = lambda s: spec.subst(s, lambda a: fn('pow', *[plain(thaw(x)) for x in a[2:]]) if a[:2] == ('fn', 'powf') else None)
    lp = list(loops)
    s = pl(fo['gaussFilterSigma'][0])
    T('sigma', kern.fit(s, Spec('sigma', lp, ME, C(l.off['gaussFilterSigma']) if not isinstance(l.off['gaussFilterSigma'], dict) else l.off['gaussFilterSigma'], sd)), s.ins, 'the smoothing is that between the two levels: %s' % s.show()[:300])
    new = fo['gaussFilterSigma'][0].guard
    s = pl(fo['gaussFilterWidth'][0])
    s2 = spec.subst(s, lambda a: thaw(a[2]) if a[:2] == ('fn', 'int') and kern.integral_(thaw(a[2])) else None) if hasattr(kern, 'integral_') else kern.Store(s.ins, s.base, s.off, untoint(s.val), s.chain, s.guard, None)
    T('width', kern.fit(s2, Spec('width', lp, ME, C(l.off['gaussFilterWidth']) if not isinstance(l.off['gaussFilterWidth'], dict) else l.off['gaussFilterWidth'], alg.maxv(fn('ceil', scale(sd, 4)), C(1)))), s.ins,
      'the Gaussian extends over max(ceil(4 sigma), 1) pixels on either side: %s' % s.show()[:300])
    j = I('j')
    n = add(scale(gw, 2), C(1))
    z = mul(sub(j, gw), alg.inv(sd))
    e = ld(l.gaussFilterP, scale(j, 4))
    nrm = mul(e, alg.inv(SUM(lambda q: ld(l.gaussFilterP, scale(q, 4)), n)))
    ex = fn('exp', scale(mul(z, z), -HALF))
    nrm2 = mul(e, alg.inv(SUM(lambda q: fn('exp', scale(mul(mul(sub(q, gw), alg.inv(sd)), mul(sub(q, gw), alg.inv(sd))), -HALF)), n)))
    gs = [pl(x) for x in G]
    gauss = next((x for x in gs if kern.fit(x, Spec('gauss', lp + [('j', n)], l.gaussFilterP, scale(j, 4), ex))), None)
    norm = next((x for x in gs if x is not gauss and kern.fit(x, Spec('norm', lp + [('j', n)], l.gaussFilterP, scale(j, 4), [nrm, nrm2]))), None)
    for nm, x in (('Gaussian', gauss), ('normalised', norm)):
        y = x or next(q for q in gs if q is not gauss and q is not norm)
        if x is None and not kern.recognised(y, spec.VOC):
            T.skip(nm, y.show()[:300])
        else:
            T(nm, x is not None, y.ins, 'the kernel is exp(-(j/sigma)^2/2) divided by its sum: %s' % y.show()[:500])
    if gauss and norm:
        ws = fo['gaussFilterWidth'][0]
        T('kernel order', kern.before(E, gauss.ins, norm.ins) and kern.before(E, norm.ins, hit[0].ins) and kern.before(E, ws.ins, gauss.ins) and all(kern.before(E, p, norm.ins) or p.block == norm.ins.block for p in []), norm.ins, 'the kernel is computed, then normalised, then used')
    # computed anew exactly when sigma changes
    dd = sub(sd, l.gaussFilterSigma)

    def changed(p, yes):
        def ff(a):
            if a[0] == 'eq0':
                q = plain(thaw(a[1]))
                q = scev.mapatoms(q, lambda x: None)
                at = {x for x in scev.deep_atoms(q)}
                if l.gaussFilterSigma_a in at:
                    return {} if yes else C(1)
            return None
        return scev.mapatoms(p, ff)
    for st in (fo['gaussFilterSigma'][0], fo['gaussFilterWidth'][0]):
        g = st.guard
        if g is None:
            continue
        a, b = changed(g, True), changed(g, False)
        T('updated %s' % st.ins.loc(), not same(a, {}) and same(b, {}), st.ins, 'the kernel is computed anew exactly when the smoothing changes: %s' % alg.show(g)[:300])
        T('same condition %s' % st.ins.loc(), same(g, new), st.ins, 'kernel, width and sigma change together')
    for i in spec.calls(f, 'vl_malloc'):
        if same(fo['gaussFilter'][0].val, A('callv', i.id, i.callee_name())) or E.addr(fo['gaussFilter'][0].ins.ops[0])[0] == ('call', i.id):
            T('allocated %s' % i.loc(), same(E.at(i.ops[0], i.block), add(scale(gw, 8), C(4))) and kern.before(E, fo['gaussFilterWidth'][0].ins, i), i, 'the kernel holds 2 width + 1 numbers of the new width')
    return [c for c in (next(q for q in [spec.callst(E, x.ins) for x in hit] if q.ins is h_.ins) for h_ in hit)]


def run():
    m = ir.libm()
    rep = report.Report('C41', RULE, 'closed forms of stores and call arguments over symbolic iteration spaces; decisions of the detector by enumeration of the comparisons')
    l = L(m)
    if not l.ok:
        rep.skip('structures', 'VlSiftFilt', 'fields')
        return rep
    guard(rep, new, m, l)
    guard(rep, keypoint, m, l)
    for n in ('vl_sift_process_first_octave', 'vl_sift_process_next_octave'):
        guard(rep, octaves, m, l, n)
    import sift_detect
    import sift_desc
    guard(rep, sift_detect.detect, m, l)
    sift_desc.all_(rep, m, l, TAB or None)
    rep.floor('obligations', len(rep.obl), 30)
    return rep
