"""C41, part: the detector of SIFT keypoints"""
import sys
import alg, kern, spec, scev
from alg import C, A, add, sub, mul, scale, fn, same, freeze, thaw
from kern import ld, I, Spec
from spec import Obl, P
Fr = alg.Fraction


def walk(E, start, target, stop, env, sub=None):
    """which of reaching target (True) and passing it by (False) the branches decided by env leave possible"""
    f, seen, todo, out = E.f, set(), [(start, None)], set()

    def value(o, b, frm):
        """value of a condition in block b reached from frm"""
        if isinstance(o, (list, tuple)):
            if o[0] == 'c':
                return int(o[2])
            raise alg.Unknown('constant')
        v = f.vals[o]
        op = getattr(v, 'op', None)
        if op == 'phi' and v.block == b and b not in f.loops:
            if frm is None:
                raise alg.Unknown('path')
            x = next(y for y, q in v.inc if q == frm)
            if isinstance(x, (list, tuple)):
                return value(x, frm, None)
            o, b = x, frm
        elif op in ('zext', 'trunc', 'freeze', 'sext'):
            return value(v.ops[0], b, frm)
        elif op == 'icmp' and v.pred == 'ne' and isinstance(v.ops[1], (list, tuple)) and v.ops[1][0] == 'c' and str(v.ops[1][2]) == '0' and not isinstance(v.ops[0], (list, tuple)) and v.block == b \
                and getattr(f.vals[v.ops[0]], 'op', None) in ('phi', 'zext'):
            return value(v.ops[0], b, frm)
        c = E.at(o, b)
        return spec.num(sub(c) if sub else c, env)
    while todo:
        b, frm = todo.pop()
        if b in target:
            out.add(True)
            continue
        if b in stop and (frm is not None or b != start):
            out.add(False)
            continue
        if (b, frm) in seen:
            continue
        seen.add((b, frm))
        t = f.blocks[b][-1]
        if t.op == 'ret':
            out.add(False)
            continue
        if t.op != 'br':
            raise alg.Unknown('terminator %s' % t.op)
        if getattr(t, 'cond', None) is None:
            todo.append((t.succ[0], b))
            continue
        try:
            todo.append((t.succ[0] if value(t.cond, b, frm) else t.succ[1], b))
        except alg.Unknown:
            todo += [(x, b) for x in t.succ]
    return out


def around(l, base, c, p, name='n'):
    """loads within one step of offset c named by their steps"""
    def f(a):
        if a[0] == 'ld' and a[1] == base:
            d = scale(sub(thaw(a[2]), c), Fr(1, 4))
            for z in (0, 1, -1):
                for y in (0, 1, -1):
                    for x in (0, 1, -1):
                        if same(d, add(add(C(x), scale(l.octave_width, y)), scale(l.wh, z))):
                            return A('sym', name, x, y, z)
        return None
    return scev.mapatoms(p, f)


def inner(f, b):
    hs = [h for h in f.loops if b in f.loops[h]]
    return min(hs, key=lambda h: len(f.loops[h])) if hs else None


def body(f, h):
    """first block of an iteration"""
    t = f.blocks[h][-1]
    if getattr(t, 'cond', None) is None:
        return t.succ[0]
    i = [s for s in t.succ if s in f.loops[h]]
    return i[0] if len(i) == 1 else None


def extrema(rep, m, l, f, E, sts):
    T = Obl(rep, 'extrema', 'vl_sift_detect')
    w, h = l.octave_width, l.octave_height
    dog = [s for s in sts if s.base == l.dogP]
    if len(dog) != 1:
        return T.skip('difference of Gaussians', '%d stores' % len(dog))
    s, i = I('s'), I('i')
    lev = lambda k: ld(l.octaveP, scale(add(mul(l.wh, k), i), 4))
    y, x = I('y'), I('x')
    sp = Spec('dog', [('s', sub(l.s_max, l.s_min)), ('i', l.wh)], l.dogP, scale(add(mul(l.wh, s), i), 4), sub(lev(add(s, C(1))), lev(s)))
    lv2 = lambda k: ld(l.octaveP, scale(add(add(mul(l.wh, k), mul(y, w)), x), 4))
    sp2 = Spec('dog', [('s', sub(l.s_max, l.s_min)), ('y', h), ('x', w)], l.dogP, scale(add(add(mul(l.wh, s), mul(y, w)), x), 4), sub(lv2(add(s, C(1))), lv2(s)))
    ok = kern.fit(dog[0], sp) or kern.fit(dog[0], sp2)
    if not ok and not kern.recognised(dog[0], spec.VOC):
        T.skip('difference of Gaussians', dog[0].show()[:300])
    else:
        T('difference of Gaussians', ok, dog[0].ins, 'the pyramid of differences holds the difference of each two successive levels: %s' % dog[0].show()[:400])
    # the three coordinates of an extremum
    at = {n: [q for q in sts if q.base == l.keysP and len(q.chain) == 3 and same(q.off, add(scale(l.nkeys, l.kpsize), l.kp[n] if isinstance(l.kp[n], dict) else C(l.kp[n])))] for n in ('ix', 'iy', 'is')}
    if any(len(v) != 1 for v in at.values()):
        return T.skip('coordinates', '%s' % {n: len(v) for n, v in at.items()})
    at = {n: v[0] for n, v in at.items()}
    loops = [('s', sub(sub(l.s_max, l.s_min), C(2))), ('y', sub(h, C(2))), ('x', sub(w, C(2)))]
    for n, v in (('ix', add(x, C(1))), ('iy', add(y, C(1))), ('is', add(add(s, l.s_min), C(1)))):
        q = at[n]
        o = kern.fit(q, Spec(n, loops, q.base, q.off, v, rev=True))
        if not o and not kern.recognised(q, spec.VOC):
            T.skip(n, q.show()[:300])
        else:
            T(n, o, q.ins, 'every pixel inside the differences is examined and its coordinates are kept: %s' % q.show()[:300])
    T('dog first', kern.before(E, dog[0].ins, at['ix'].ins), dog[0].ins, 'extrema are searched for after the differences are computed')
    b = at['ix'].ins.block
    H = inner(f, b)
    start = body(f, H)
    if start is None:
        return T.skip('test', 'loop')
    c = scale(add(add(at['ix'].val, mul(at['iy'].val, w)), mul(sub(at['is'].val, l.s_min), l.wh)), 4)
    memo = {}

    def sb(p):
        k = id(p)
        if k not in memo:
            memo[k] = (around(l, l.dogP, c, p), p)
        return memo[k][0]
    N27 = [(dx, dy, dz) for dx in (-1, 0, 1) for dy in (-1, 0, 1) for dz in (-1, 0, 1)]
    cond = {}

    def decide(vals, tp):
        env = {A_('n', *k): v for k, v in vals.items()}
        env[l.peak_thresh_a] = tp
        return walk(cE, start, {b}, {H}, env, sb)

    class cE:
        pass
    cE = Cached(E)
    A_ = lambda *k: next(iter(A('sym', *k)))[0][0]
    n = 0
    for sg, nm in ((1, 'maximum'), (-1, 'minimum')):
        def case(tag, vals, tp, want, msg):
            o = decide(vals, tp)
            if o == {want}:
                T('%s %s' % (nm, tag), True, at['ix'].ins, '')
            elif len(o) == 1:
                T('%s %s' % (nm, tag), False, at['ix'].ins, '%s (%s)' % (msg, nm))
            else:
                T.skip('%s %s' % (nm, tag), 'undecided')
        good = {k: Fr(sg) for k in N27}
        good[0, 0, 0] = Fr(10 * sg)
        case('all', good, Fr(1), True, 'a value beyond all its 26 neighbors and the threshold is an extremum')
        case('above threshold', good, Fr(249, 20), True, 'a value beyond 0.8 times the peak threshold is an extremum')
        case('below threshold', good, Fr(251, 20), False, 'a value below 0.8 times the peak threshold is no extremum')
        case('zero', {k: v - 10 * sg for k, v in good.items()}, Fr(0), True, 'an extremum of value zero passes a threshold of zero')
        case('wrong sign', {k: v - 11 * sg for k, v in good.items()}, Fr(0), False, 'a maximum is positive and a minimum is negative')
        for k in N27:
            if k == (0, 0, 0):
                continue
            for v, t in ((Fr(10 * sg), 'equal'), (Fr(11 * sg), 'beyond')):
                d = dict(good)
                d[k] = v
                case('%s %s' % (k, t), d, Fr(1), False, 'a value with a neighbor %s %s it is no extremum' % (k, t))
    # the list of extrema
    nk = [q for q in sts if q.base == ('arg', 0) and same(q.off, l.off['nkeys'])]
    inc = [q for q in nk if q.ins.block in f.loops[H]]
    clr = [q for q in nk if not q.chain and same(q.val, {})]
    if len(inc) == 1:
        T('counted', same(inc[0].val, add(l.nkeys, C(1))) and inc[0].ins.block == b, inc[0].ins, 'each extremum is counted')
    else:
        T.skip('counted', '%d stores' % len(inc))
    T('cleared', any(kern.before(E, q.ins, at['ix'].ins) for q in clr), f, 'the list starts empty')
    # room for it
    grow = [q for q in sts if q.base == ('arg', 0) and same(q.off, l.off['keys_res']) and q.ins.block in f.loops[H]]
    ptrs = [q for q in sts if q.base == ('arg', 0) and same(q.off, l.off['keys']) and q.ins.block in f.loops[H]]
    if len(grow) != 1 or not ptrs:
        T.skip('room', '%d, %d stores' % (len(grow), len(ptrs)))
    else:
        g = grow[0]
        d = sub(g.val, l.keys_res)
        T('more room', alg.is_const(d) and alg.cval(d) >= 1 or not alg.is_const(d) and same(g.val, scale(l.keys_res, 2)) or not kern_known(d), g.ins, 'the list grows: %s' % alg.show(g.val)[:200])
        for full, want in ((1, True), (0, True), (-1, False)):
            env = {l.nkeys_a: 500 + full, l.keys_res_a: 500}
            for k in N27:
                env[A_('n', *k)] = Fr(10 if k == (0, 0, 0) else 1)
            env[l.peak_thresh_a] = Fr(1)
            o = walk(cE, start, {g.ins.block}, {H}, env, sb)
            if len(o) == 1:
                T('grows %+d' % full, o == {want}, g.ins, 'the list grows exactly when it is full')
            else:
                T.skip('grows %+d' % full, 'undecided')
        for q in ptrs:
            cs = [j for j in spec.calls(f, 'vl_realloc', 'vl_malloc') if same(q.val, A('callv', j.id, j.callee_name())) or q.ins.ops[0] == j.id]
            if len(cs) != 1:
                T.skip('list %s' % q.ins.loc(), q.show()[:200])
                continue
            a = E.at(cs[0].ops[-1], cs[0].block)
            T('list %s' % q.ins.loc(), same(a, scale(l.keys_res, l.kpsize)) and kern.before(E, g.ins, cs[0]), cs[0], 'the new list has room for keys_res keypoints: %s' % alg.show(a)[:200])
            T('before use %s' % q.ins.loc(), not kern.before(E, at['ix'].ins, q.ins), q.ins, 'the list is enlarged before the keypoint is stored')


def kern_known(p):
    return all(a[0] in ('arg', 'fn', 'sym', 'it', 'ld') for a in scev.deep_atoms(p))


class Cached:
    """closed forms of branch conditions, computed once"""
    def __init__(self, E):
        self.E, self.f, self.memo = E, E.f, {}

    def at(self, v, b):
        k = (v, b)
        if k not in self.memo:
            try:
                self.memo[k] = self.E.at(v, b)
            except alg.Unknown as e:
                self.memo[k] = e
        r = self.memo[k]
        if isinstance(r, Exception):
            raise r
        return r


def detect(rep, m, l):
    f = m.F('vl_sift_detect')
    E = spec.scev_of(f, m)
    import sift_refine
    E = sift_refine.closed(E, m)
    sts = kern.stores(E, guards=False)
    extrema(rep, m, l, f, E, sts)
    sift_refine.refine(rep, m, l, f, E, sts, sys.modules[__name__])
