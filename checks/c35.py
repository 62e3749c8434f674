"""C35: image convolution, smoothing, gradients, integral images, triangular filtering and distance transforms compute their definitions at every pixel."""
import ir, alg, report, scev, kern
from ir import const_int
from alg import C, A, add, sub, mul, scale, NOT, eq0, gt0, ge0, sel, fn, same, absv, inv, freeze, minv, maxv
from kern import I, ld, Spec
from fractions import Fraction as Q

RULE = ('closed forms (address, value, iteration space, condition) of every store of the loop nests; column convolution: inductive invariants of the three tap loops (position in the filter, position in the column, sum, bounds) '
        'and of the walk over the destination; recurrences of the lower envelope of the distance transform')
SZ = {'f': 4, 'd': 8}


def web(f, o, stop, seen=None):
    """operands that reach o through merge points; phis in `stop` are not followed"""
    seen = set() if seen is None else seen
    if isinstance(o, int) and f.vals[o].op == 'phi' and o not in stop:
        if o in seen:
            return []
        seen.add(o)
        out = []
        for x, _ in f.vals[o].inc:
            out += web(f, x, stop, seen)
        return out
    return [o]


def guard_in(E, h, b):
    """condition under which block b runs in an iteration of the loop with header h (the header's own test left out)"""
    f = E.f
    ins = [s for s in f.succ[h] if s in f.loops[h]]
    st = ins[0] if len(ins) == 1 and f.dominates(ins[0], b) else h
    return C(1) if st == b else E.reach(st, b)[b]


def convcol(rep, m, t, name):
    kd = 'column convolution'
    f = m.F(name)
    if f is None or len(f.args) != 11:
        rep.skip(kd, name, 'not defined')
        return
    E = scev.Scev(f)
    sz = SZ[t]
    W, H, stride, fb, fe, step, flags = (A('arg', k) for k in (3, 4, 5, 7, 8, 9, 10))
    n = add(sub(fe, fb), C(1))
    zp, tr = eq0(fn('and', flags, C(3))), NOT(eq0(fn('and', flags, C(4))))
    trat = ('eq0', next(iter(eq0(fn('and', flags, C(4)))))[0][0][1])
    filt, src = ('arg', 6), ('arg', 2)
    inner = [h for h in f.loops if not any(g != h and g in f.loops[h] for g in f.loops)]
    nests = {}
    for h in inner:
        par = sorted([g for g in f.loops if h in f.loops[g] and g != h], key=lambda g: len(f.loops[g]))
        has = any(i.op == 'load' and alg.nlanes(i.ty) >= 1 and E.addr(i.ops[0])[0] == filt for b in f.loops[h] for i in f.blocks[b])
        if has and len(par) == 2:
            nests.setdefault((par[0], par[1]), []).append(h)
    if not nests or any(len(v) != 3 for v in nests.values()) or len({x for _, x in nests}) != 1:
        rep.skip(kd, name, 'loops: %s' % nests)
        return
    xh = next(iter(nests))[1]
    XE = E.inner(xh)
    order = {b: k for k, b in enumerate(f.rpo())}
    # the column and the destination pointer carried by the outer loop
    xs = [v for v in f.blocks[xh] if v.op == 'phi' and v.ty in ('i64', 'i32')]
    ds = [v for v in f.blocks[xh] if v.op == 'phi' and v.ty == 'ptr']
    if len(ds) != 1 or not xs:
        rep.skip(kd, name, 'outer loop')
        return
    dphi = ds[0]
    t0 = f.blocks[xh][-1]
    try:
        stay = XE.one(t0.cond)
        if t0.succ[0] not in f.loops[xh]:
            stay = NOT(stay)
        xv = [v for v in xs if same(stay, gt0(sub(W, A('v', v.id)))) or same(stay, NOT(eq0(sub(W, A('v', v.id)))))]
    except alg.Unknown as e:
        rep.skip(kd, name, str(e))
        return
    if len(xv) != 1:
        if all(a[0] in ('arg', 'v', 'gt0', 'eq0') for a in scev.deep_atoms(stay)) and len(xs) == 1:
            rep.bad(kd, name + ' columns', t0.loc(), '%s goes on while %s' % (name, alg.show(stay)), key=name + ':columns')
        else:
            rep.skip(kd, name, 'column loop: ' + alg.show(stay))
        return
    xphi = xv[0]
    X = A('v', xphi.id)
    rep.ok(kd, name + ' columns')
    ini = [(o, p) for o, p in xphi.inc if p not in f.loops[xh]]
    rep.check(kd, name + ' first column', all(const_int(o) == 0 for o, _ in ini), xphi.loc(), '%s does not start at column 0' % name, key=name + ':col0')
    dini = [E.addr_at(o, p) for o, p in dphi.inc if p not in f.loops[xh]]
    rep.check(kd, name + ' first element', all(b == ('arg', 0) and same(o, {}) for b, o in dini), dphi.loc(), '%s does not start writing at dst' % name, key=name + ':dst0')
    def fact(p, truth):
        return scev.mapatoms(p, lambda a: C(1 if truth else 0) if a == trat else None)
    rows = add(fn('udiv', sub(H, C(1)), step), C(1))
    tot = 0
    for (yh, _), hs in sorted(nests.items()):
        hs.sort(key=order.get)
        part = name + (' rows of column blocks' if any(alg.nlanes(v.ty) > 1 for v in f.blocks[hs[0]] if v.op == 'phi') else '')
        try:
            tot += 1
            L = max(alg.nlanes(v.ty) for v in f.blocks[hs[0]] if v.op == 'phi')
            if L > 1:
                block(rep, kd, part, f, XE, xh, yh, X, L)
            nest(rep, kd, part, f, E, XE, xh, yh, hs, X, t, fact, n, zp)
        except (alg.Unknown, KeyError, IndexError) as e:
            rep.skip(kd, part, str(e))
    # outer step: x and dst move together
    lx = [(o, p) for o, p in xphi.inc if p in f.loops[xh]]
    ld_ = {p: o for o, p in dphi.inc if p in f.loops[xh]}
    pairs = []
    for o, p in lx:
        pairs += zip_web(f, o, ld_[p], p)
    for xo, do, p in pairs:
        try:
            dx = sub(XE.at(xo, p), X)
            b, off = XE.addr_at(do, p)
            for truth, nm in ((True, 'plain'), (False, 'transposed')):
                want = scale(mul(dx, A('arg', 1)), sz) if truth is False else scale(dx, sz)
                # trat is the condition "not transposed"
                rep.check(kd, '%s next column (%s)' % (name, nm), b == ('pv', dphi.id) and same(fact(off, truth), want), f.blocks[p][-1].loc(),
                          '%s (%s): after %s columns dst has moved by %s instead of %s bytes' % (name, nm, alg.show(dx), alg.show(fact(off, truth)), alg.show(want)), key='%s:next:%s:%s' % (name, nm, alg.show(dx)))
        except alg.Unknown as e:
            rep.skip(kd, name + ' next column', str(e))


def block(rep, kd, part, f, XE, xh, yh, X, L):
    """L columns at once only when there are L columns left and the vectors are aligned"""
    g = guard_in(XE, xh, yh)
    left = [D for D in range(1, L) if not same(scev.mapatoms(g, lambda a: add(X, C(D)) if a == ('arg', 3) else None), {})]
    rep.check(kd, part + ': columns left', not left, f.blocks[yh][0].loc(), '%s: %d columns are computed at once with %s columns left' % (part, L, left), key=part + ':left')
    if not any(i.op == 'load' and alg.nlanes(i.ty) == L and (getattr(i, 'al', None) or 16) >= 16 and XE.addr(i.ops[0])[0] != ('arg', 6) for b in f.loops[yh] for i in f.blocks[b]):
        return
    bytes_ = {('arg', 2): False, ('arg', 5): False}
    for k in bytes_:
        def off(a):
            if a[0] == 'eq0':
                inn = scev.deep_atoms(alg.thaw(a[1]))
                if any(x[0] == 'fn' and x[1] == 'and' for x in inn) and (k in inn or ('base', k) in inn):
                    return {}
        bytes_[k] = same(scev.mapatoms(g, off), {})
    rep.check(kd, part + ': aligned', all(bytes_.values()), f.blocks[yh][0].loc(), '%s: aligned vectors are read without testing the alignment of %s' % (part, [k for k, v in bytes_.items() if not v]), key=part + ':aligned')


def zip_web(f, a, b, p):
    """pairs of values that reach a and b over the same arms of a merge point"""
    va, vb = f.val(a) if isinstance(a, int) else None, f.val(b) if isinstance(b, int) else None
    if va is not None and va.op == 'phi' and va.block not in f.loops:
        bo = {q: o for o, q in vb.inc} if vb is not None and vb.op == 'phi' and vb.block == va.block else None
        out = []
        for o, q in va.inc:
            out += zip_web(f, o, bo[q] if bo else b, q)
        return out
    if vb is not None and vb.op == 'phi' and vb.block not in f.loops and len(vb.inc) > 1 and False:
        return []
    return [(a, b, p)]


def nest(rep, kd, part, f, E, XE, xh, yh, hs, X, t, fact, n, zp):
    sz = SZ[t]
    H, stride, fb, fe, step = (A('arg', k) for k in (4, 5, 7, 8, 9))
    filt, src = ('arg', 6), ('arg', 2)
    rows = add(fn('udiv', sub(H, C(1)), step), C(1))
    cnt = XE.exit_it(yh)
    rep.check(kd, part + ': rows', cnt is not None and same(cnt, rows), f.blocks[yh][0].loc(), '%s visits %s rows instead of (height-1)/step+1' % (part, alg.show(cnt) if cnt else '?'), key=part + ':rows')
    Y = mul(step, A('it', yh))
    low = sub(fe, Y)
    stops = [[minv(low, n), minv(n, low)], [sub(add(fe, C(1)), maxv(fb, add(sub(Y, H), C(1)))), minv(n, add(low, H)), minv(add(low, H), n)], [n]]
    roles = []
    allphi = {v.id for h in hs for v in f.blocks[h] if v.op == 'phi'}
    flast = scale(sub(fe, fb), sz)
    for k, h in enumerate(hs):
        Z = Scoped(XE, h)
        ph = [v for v in f.blocks[h] if v.op == 'phi']
        lat = [p for p in f.pred[h] if p in f.loops[h]]
        if len(lat) != 1:
            raise alg.Unknown('latch')
        nxt = {v.id: next(o for o, p in v.inc if p == lat[0]) for v in ph}
        what = ('taps above the image', 'taps inside the image', 'taps below the image')[k]
        # sum: next - current = weight * filter element
        acc = fil = None
        for v in ph:
            if v.ty == 'ptr' or elt(v.ty) not in ('float', 'double'):
                continue
            L = alg.nlanes(v.ty)
            cur = [A('v', v.id)] if L == 1 else [A('v', v.id, j) for j in range(L)]
            try:
                d = [sub(a, b) for a, b in zip(Z.lanes(nxt[v.id]), cur)]
            except alg.Unknown:
                continue
            fps = {a for p in d for a in scev.deep_atoms(p) if a[0] == 'ld' and a[1][0] == 'pv' and f.vals[a[1][1]].op == 'phi' and E.addr(a[1][1])[0] == filt}
            if fps and not any(x in scev.deep_atoms(p) for p in d for c in cur for x in [next(iter(c))[0][0]]):
                acc, diff = v, d
                fil = {a[1][1] for a in fps}
        if acc is None:
            raise alg.Unknown('sum of ' + what)
        if len(fil) != 1:
            raise alg.Unknown('filter position')
        F = f.vals[next(iter(fil))]
        L = alg.nlanes(acc.ty)
        fpv = ('pv', F.id)
        b, o = Z.addr(nxt[F.id])
        rep.check(kd, '%s: %s: filter position' % (part, what), b == fpv and same(o, C(-sz)), F.loc(), '%s, %s: the filter position moves by %s bytes' % (part, what, alg.show(o)), key='%s:%d:fstep' % (part, k))
        S = None
        for v in ph:
            if v.ty == 'ptr' and v.id != F.id:
                S = v
        c = ld(fpv, {})
        hi = add(X, mul(sub(H, C(1)), stride))
        for j in range(L):
            if k == 0:
                w = [mul(NOT(zp), ld(src, scale(add(X, C(j)), sz)))]
            elif k == 1:
                w = [ld(('pv', S.id), C(j * sz))] if S is not None else []
            else:
                w = [mul(NOT(zp), ld(src, scale(add(hi, C(j)), sz)))]
            g = diff[j]
            if k == 2 and any(a[0] == 'v' for a in scev.deep_atoms(g)):
                # the value kept from the last iteration of the loop inside the image
                pass
            rep.check(kd, '%s: %s: term %d' % (part, what, j), any(same(g, mul(x, c)) for x in w), acc.loc(), '%s, %s: adds %s' % (part, what, alg.show(g)[:200]), key='%s:%d:term' % (part, k))
        if S is not None and k < 2:
            b, o = Z.addr(nxt[S.id])
            rep.check(kd, '%s: %s: image position' % (part, what), b == ('pv', S.id) and same(o, scale(stride, sz)), S.loc(), '%s, %s: the image position moves by %s bytes' % (part, what, alg.show(o)), key='%s:%d:sstep' % (part, k))
        # bound
        tb = f.blocks[h][-1]
        if tb.op != 'br' or tb.cond is None:
            raise alg.Unknown('tap loop test')
        stay = Z.one(tb.cond)
        if tb.succ[0] not in f.loops[h]:
            stay = NOT(stay)
        pos = sub(sub(A('base', fpv), A('base', filt)), flast)
        ok = any(same(stay, gt0(add(pos, scale(s, sz)))) for s in stops[k])
        rep.check(kd, '%s: %s: bound' % (part, what), ok, tb.loc(), '%s, %s: goes on while %s' % (part, what, alg.show(stay)[:250]), key='%s:%d:bound' % (part, k))
        if k == 0:
            g = guard_in(XE, yh, h)
            oks = [C(1)] + [x for s in stops[0] + [low] for x in (gt0(s), ge0(s))]
            rep.check(kd, '%s: %s: entered' % (part, what), any(same(g, x) for x in oks), tb.loc(), '%s, %s: entered when %s' % (part, what, alg.show(g)[:200]), key='%s:%d:enter' % (part, k))
        roles.append((F, acc, S))
        # hand-over from the previous loop
        stop = allphi
        def inits(v):
            out = []
            for o, p in v.inc:
                if p not in f.loops[h]:
                    out += web(f, o, stop)
            return out
        pv = roles[k - 1] if k else (None, None, None)
        bad = None
        seen = False
        for o in inits(F):
            if pv[0] is not None and o == pv[0].id:
                seen = True
            else:
                bb, oo = XE.addr(o)
                if not (k < 2 and bb == filt and same(oo, flast)):
                    bad = o
        rep.check(kd, '%s: %s: first tap' % (part, what), bad is None and (seen or k == 0), F.loc(), '%s, %s: does not go on where the previous taps ended' % (part, what), key='%s:%d:ffirst' % (part, k))
        bad, seen = None, False
        for o in inits(acc):
            if pv[1] is not None and o == pv[1].id:
                seen = True
            else:
                z = XE.lanes(o)
                if not (k < 2 and all(same(q, {}) for q in z)):
                    bad = o
        rep.check(kd, '%s: %s: partial sum' % (part, what), bad is None and (seen or k == 0), acc.loc(), '%s, %s: the sum of the previous taps is lost' % (part, what), key='%s:%d:afirst' % (part, k))
        if k < 2 and S is not None:
            bad, seen = None, False
            for o in inits(S):
                if pv[2] is not None and o == pv[2].id:
                    seen = True
                else:
                    bb, oo = XE.addr(o)
                    if not (bb == src and same(oo, scale(sub(X, mul(low, stride)), sz))):
                        bad = o
            rep.check(kd, '%s: %s: first row' % (part, what), bad is None and (seen or k == 0 or roles[0][2] is None), S.loc(), '%s, %s: the image position does not match the filter position' % (part, what), key='%s:%d:sfirst' % (part, k))
    # result
    accid = roles[2][1].id
    L = alg.nlanes(roles[2][1].ty)
    s = dict(XE.subst)
    s[accid] = [A('acc', j) for j in range(L)]
    R = scev.Scev(f, s, XE.calls, parent=XE.parent)
    st = [i for b in f.loops[yh] for i in f.blocks[b] if i.op == 'store']
    got = {True: {}, False: {}}
    trat = None
    for i in st:
        b, off = R.addr_at(i.ops[1], i.block)
        v = R.one(i.ops[0]) if alg.nlanes(R.tyof(i.ops[0])) == 1 else None
        g = guard_in(R, yh, i.block)
        lane = [j for j in range(L) if v is not None and same(v, A('acc', j))]
        for truth in (True, False):
            gg = fact(g, truth)
            if same(gg, {}):
                continue
            want = [scale(add(mul(A('it', yh), A('arg', 1)), C(j)), sz) if truth else scale(add(A('it', yh), mul(C(j), A('arg', 1))), sz) for j in range(L)]
            ok = same(gg, C(1)) and b[0] == 'pv' and lane and same(fact(off, truth), want[lane[0]])
            nm = 'plain' if truth else 'transposed'
            rep.check(kd, '%s: result (%s)' % (part, nm), ok, i.loc(), '%s (%s): lane %s is stored %s bytes from the start of the column, under %s' % (part, nm, lane, alg.show(fact(off, truth))[:200], alg.show(gg)[:80]), key='%s:store:%s' % (part, nm))
            if lane:
                got[truth][lane[0]] = i
    for truth in (True, False):
        rep.check(kd, '%s: all results (%s)' % (part, 'plain' if truth else 'transposed'), len(got[truth]) == L, f.blocks[yh][0].loc(), '%s: only lanes %s are stored' % (part, sorted(got[truth])), key='%s:stores:%s' % (part, truth))


def elt(ty):
    return alg.elt(ty)


class Scoped(scev.Scev):
    """like XE, with the header phis of one more loop left open"""
    def __init__(self, XE, h):
        s = dict(XE.subst)
        for v in XE.f.blocks[h]:
            if v.op == 'phi':
                s[v.id] = ('ptr', ('pv', v.id), {}) if v.ty == 'ptr' else ([A('v', v.id)] if alg.nlanes(v.ty) == 1 else [A('v', v.id, j) for j in range(alg.nlanes(v.ty))])
        super().__init__(XE.f, s, XE.calls, parent=XE.parent)



# -- gradients ----------------------------------------------------------------------

def regions(W, H):
    """the nine regions of an image at least 2 x 2: (name, loops, x, y, horizontal kind, vertical kind)"""
    out = []
    for cn, cl, x in (('first column', None, {}), ('middle columns', ('i', sub(W, C(2))), add(I('i'), C(1))), ('last column', None, sub(W, C(1)))):
        for rn, rl, y in (('first row', None, {}), ('middle rows', ('j', sub(H, C(2))), add(I('j'), C(1))), ('last row', None, sub(H, C(1)))):
            out.append(('%s, %s' % (rn, cn), [l for l in (rl, cl) if l], x, y, cn[0], rn[0]))
    return out


def diffs(base, sz, stride, x, y, ck, rk):
    s = lambda dx, dy: ld(base, scale(add(add(x, C(dx)), mul(add(y, C(dy)), stride)), sz))
    gx = {'f': sub(s(1, 0), s(0, 0)), 'm': scale(sub(s(1, 0), s(-1, 0)), Q(1, 2)), 'l': sub(s(0, 0), s(-1, 0))}[ck]
    gy = {'f': sub(s(0, 1), s(0, 0)), 'm': scale(sub(s(0, 1), s(0, -1)), Q(1, 2)), 'l': sub(s(0, 0), s(0, -1))}[rk]
    return gx, gy


def gradient(rep, m, ml, t):
    W, H, stride = (A('arg', k) for k in (5, 6, 7))
    sz = SZ[t]
    for name, view in (('vl_imgradient_' + t, m), ('vl_imgradient_polar_' + t, ml)):
        kd = 'gradient'
        f = view.F(name)
        if f is None or len(f.args) != 8:
            rep.skip(kd, name, 'not defined')
            continue
        calls = {}
        for u in 'fd':
            for n, k in (('vl_fast_sqrt_', 'fsqrt'), ('vl_sqrt_', 'fsqrt'), ('vl_fast_atan2_', 'fatan2'), ('vl_mod_2pi_', 'mod2pi')):
                calls[n + u] = lambda E, v, k=k: [fn(k, *[E.one(o) for o in v.ops])]
        calls['sqrt'] = calls['sqrtf'] = calls['llvm.sqrt.f64'] = calls['llvm.sqrt.f32'] = lambda E, v: [fn('fsqrt', E.one(v.ops[0]))]
        for c in f.calls():
            n = c.callee_name() or ''
            if n.split('.')[0] in calls:
                calls[n] = calls[n.split('.')[0]]
        try:
            E = scev.Scev(f, calls=calls)
            st = kern.stores(E, want=lambda b: b in (('arg', 0), ('arg', 1)), guards=False)
            other = [s for s in kern.stores(E, guards=False) if s.base not in (('arg', 0), ('arg', 1))]
        except alg.Unknown as e:
            rep.skip(kd, name, str(e))
            continue
        if any(s.base[0] == 'pv' for s in other):
            rep.skip(kd, name, 'address of a store')
            continue
        polar = 'polar' in name
        sp = {0: [], 1: []}
        for rn, loops, x, y, ck, rk in regions(W, H):
            gx, gy = diffs(('arg', 4), sz, stride, x, y, ck, rk)
            off = scale(add(mul(x, A('arg', 2)), mul(y, A('arg', 3))), sz)
            if polar:
                vals = [fn('fsqrt', add(mul(gx, gx), mul(gy, gy)))], [fn('mod2pi', add(fn('fatan2', gy, gx), C(Q(p)))) for p in TWOPI]
            else:
                vals = [gx], [gy]
            for k in (0, 1):
                sp[k].append(Spec('%s (%s)' % ((('modulus', 'angle') if polar else ('x component', 'y component'))[k], rn), loops, ('arg', k), off, vals[k]))
        if polar:
            # the constant 2 pi as the compiler rounds it
            for s in st:
                for a in scev.deep_atoms(s.val):
                    if a[0] == 'fn' and a[1] == 'mod2pi':
                        d = alg.thaw(a[2]).get((), Q(0))
                        if abs(float(d) - 6.283185307179586) < 1e-5:
                            for p in sp[1]:
                                p.val.append(scev.mapatoms(p.val[0], lambda z: fn('mod2pi', add(sub(alg.thaw(z[2]), C(alg.thaw(z[2]).get((), Q(0)))), C(d))) if z[0] == 'fn' and z[1] == 'mod2pi' else None))
                        break
                break
        for k in (0, 1):
            kern.compare(rep, kd, name, f.loc(), [s for s in st if s.base == ('arg', k)], sp[k])
        rep.count('stores', len(st))


TWOPI = ['6.2831853071795862', '6.283185307179586']


def integral(rep, m):
    kd = 'integral image'
    for suf, sz in (('f', 4), ('d', 8), ('ui32', 4), ('i32', 4)):
        name = 'vl_imintegral_' + suf
        f = m.F(name)
        if f is None or len(f.args) != 6:
            rep.skip(kd, name, 'not defined')
            continue
        try:
            E = scev.Scev(f)
            st = kern.stores(E, guards=False)
        except alg.Unknown as e:
            rep.skip(kd, name, str(e))
            continue
        W, H = A('arg', 3), A('arg', 4)
        facts = {('gt0', freeze(H)): C(1), ('eq0', freeze(H)): {}}
        hs = [s.chain[-1][0] for s in st if s.chain]
        ok = []
        for s in st:
            if not s.chain:
                continue
            h = s.chain[-1][0]
            it = A('it', h)
            row = {} if len(s.chain) == 1 else add(I('y'), C(1))
            cell = lambda r: scale(add(mul(r, A('arg', 5)), it), sz)
            # running sum of the row up to and with the current pixel
            r = {} if len(s.chain) == 1 else add(A('it', s.chain[0][0]), C(1))
            fx = lambda p: scev.mapatoms(p, lambda a: facts.get(a))
            run = []
            for v in f.blocks[h]:
                if v.op == 'phi' and v.ty != 'ptr':
                    init = [E.at(o, p) for o, p in v.inc if p not in f.loops[h]]
                    nxt = [E.at(o, p) for o, p in v.inc if p in f.loops[h]]
                    try:
                        cur = E.one(v.id)
                    except alg.Unknown:
                        continue
                    if all(same(z, {}) for z in init) and len(cur) == 1 and all(a[0] in ('v', 'psum') for a in alg.atoms(cur)) and all(set(alg.atoms(cur)) <= set(alg.atoms(z)) for z in nxt):
                        run.append((fx(cur), nxt))
            term = ld(('arg', 2), cell(r))
            loops = [('x', W)] if len(s.chain) == 1 else [('y', sub(H, C(1))), ('x', W)]
            if len(run) == 1:
                acc, nxt = run[0]
                prev = {} if len(s.chain) == 1 else ld(('arg', 0), scale(add(mul(sub(r, C(1)), A('arg', 1)), it), sz))
                good = same(fx(s.val), add(prev, add(acc, term))) and all(same(fx(z), add(acc, term)) for z in nxt)
                at = same(fx(s.off), scale(add(mul(r, A('arg', 1)), it), sz))
                cnt = [n for _, n in s.chain]
                cn = all(n is not None and same(fx(n), w) for n, (_, w) in zip(cnt, loops))
                nm = '%s %s' % (name, 'first row' if len(s.chain) == 1 else 'other rows')
                rep.check(kd, nm + ' value', good and s.base == ('arg', 0), s.ins.loc(), '%s: stores %s' % (nm, s.show()[:260]), key=nm + ':value')
                rep.check(kd, nm + ' address', at, s.ins.loc(), '%s: stores at %s' % (nm, alg.show(fx(s.off))[:200]), key=nm + ':addr')
                rep.check(kd, nm + ' pixels', cn, s.ins.loc(), '%s: covers %s pixels' % (nm, ' x '.join(alg.show(n) if n else '?' for n in cnt)), key=nm + ':count')
                ok.append(len(s.chain))
            elif kern.recognised(s) and len(st) == 2:
                nm = '%s %s' % (name, 'first row' if len(s.chain) == 1 else 'other rows')
                rep.bad(kd, nm + ' value', s.ins.loc(), '%s: stores %s' % (nm, s.show()[:260]), key=nm + ':value')
        if sorted(ok) != [1, 2] and not any(k.startswith(name) for k in rep.viol):
            rep.skip(kd, name, 'shape')


def triangular(rep, m, t):
    kd = 'triangular filter'
    name = 'vl_imconvcoltri_' + t
    f = m.F(name)
    if f is None or len(f.args) != 9:
        rep.skip(kd, name, 'not defined')
        return
    sz = SZ[t]
    dst, src = ('arg', 0), ('arg', 2)
    W, H, stride, n, step, flags = (A('arg', k) for k in (3, 4, 5, 6, 7, 8))
    trat = next(iter(eq0(fn('and', flags, C(4)))))[0][0]
    zpat = next(iter(eq0(fn('and', flags, C(3)))))[0][0]
    E = kern.forwarding(scev.Scev(f))
    try:
        st = kern.stores(E)
    except alg.Unknown as e:
        rep.skip(kd, name, str(e))
        return
    bufs = {s.base for s in st if s.base[0] == 'call'}
    if len(bufs) != 1:
        rep.skip(kd, name, 'buffer')
        return
    buf = bufs.pop()
    i, y = I('i'), I('y')
    x = ('x', W)
    X = I('x')
    B = lambda k: ld(buf, scale(add(k, n), sz))
    at = lambda k: scale(add(k, n), sz)
    img = lambda r: ld(src, scale(add(X, mul(r, stride)), sz))
    top = lambda k: sub(sub(H, C(2)), k)
    sc = mul(inv(n), inv(n))
    zp = {((zpat, 1),): Q(1)}
    rows = add(fn('udiv', sub(H, C(1)), step), C(1))
    back = mul(step, sub(sub(rows, C(1)), y))
    sp = [Spec('last sample', [x], buf, at(sub(H, C(1))), img(sub(H, C(1)))),
          Spec('backward integral', [x, ('y', sub(H, C(1)))], buf, at(top(y)), add(B(add(top(y), C(1))), img(top(y))), fixed=True, rev=False),
          Spec('backward integral above the image (zero padding)', [x, ('y', n)], buf, at(sub(scale(y, -1), C(1))), B(scale(y, -1)), rev=False, fixed=True),
          Spec('backward integral above the image (continuity)', [x, ('y', n)], buf, at(sub(scale(y, -1), C(1))), add(B(scale(y, -1)), img({})), rev=False, fixed=True),
          Spec('forward difference', [x, ('y', H)], buf, at(sub(y, n)), sub(B(sub(y, n)), B(y)), rev=False, fixed=True),
          Spec('forward difference below the image (continuity)', [x, ('y', n)], buf, at(add(sub(H, n), y)), [add(B(add(sub(H, n), y)), mul(y, B(sub(H, C(1)))))], fixed=True, rev=False),
          Spec('forward integral', [x, ('y', sub(add(H, n), C(1)))], buf, at(add(sub(y, n), C(1))), add(B(add(sub(y, n), C(1))), B(sub(y, n))), rev=False, fixed=True)]
    outs = [s for s in st if s.base == dst]
    kern.compare(rep, kd, name, f.loc(), [s for s in st if s.base == buf], sp)
    # conditions of the padding loops
    for s in st:
        if s.base != buf or len(s.chain) != 2:
            continue
        h = s.chain[-1][0]
        try:
            g = guard_in(E, s.chain[0][0], h)
        except alg.Unknown:
            continue
        for z, p in ((zp, sp[2]), (NOT(zp), sp[3]), (NOT(zp), sp[5])):
            if kern.fit(s, p):
                rep.check(kd, '%s %s: padding mode' % (name, p.name), same(g, z), s.ins.loc(), '%s: the %s is done when %s' % (name, p.name, alg.show(g)[:160]), key='%s:mode:%s' % (name, p.name))
        for p in (sp[0], sp[1], sp[4], sp[6]):
            if kern.fit(s, p):
                rep.check(kd, '%s %s: padding mode' % (name, p.name), same(g, C(1)), s.ins.loc(), '%s: the %s is done only when %s' % (name, p.name, alg.show(g)[:160]), key='%s:mode:%s' % (name, p.name))
    for truth, nm in ((True, 'plain'), (False, 'transposed')):
        fx = lambda p: scev.mapatoms(p, lambda a: C(1 if truth else 0) if a == trat else None)
        so = [kern.Store(s.ins, s.base, fx(s.off), fx(s.val), [(h, fx(c) if c is not None else None) for h, c in s.chain], fx(s.guard), None) for s in outs]
        so = [s for s in so if not same(s.guard, {})]
        yy = sub(sub(rows, C(1)), y)
        off = scale(add(X, mul(yy, A('arg', 1))), sz) if truth else scale(add(mul(X, A('arg', 1)), yy), sz)
        rr = mul(step, yy)
        kern.compare(rep, kd, name + ' (%s)' % nm, f.loc(), so, [Spec('result', [x, ('y', rows)], dst, off, mul(sc, sub(B(rr), B(sub(rr, n)))), guard=C(1))])
    # order of the stages
    pos = {}
    for s in st:
        for k, p in enumerate(sp):
            if kern.fit(s, p):
                pos.setdefault(k, s.chain[-1][0])
    pos[7] = outs[0].chain[-1][0] if outs else None
    order = {b: k for k, b in enumerate(f.rpo())}
    seq = [pos[k] for k in sorted(pos) if pos[k] is not None]
    if len(pos) == 8 and None not in pos.values():
        rep.check(kd, name + ' order of the stages', all(order[a] < order[b] for a, b in zip([pos[k] for k in (0, 1, 2, 4, 5, 6)], [pos[k] for k in (1, 2, 4, 5, 6, 7)])), f.loc(), '%s: the stages are not in the order backward integral, difference, forward integral, difference' % name, key=name + ':order')
    al = next((c for c in f.calls() if c.id == buf[1]), None)
    if al is not None and al.callee_name() == 'vl_malloc':
        rep.check(kd, name + ' buffer', same(E.at(al.ops[0], al.block), scale(add(H, n), sz)), al.loc(), '%s: the buffer has %s bytes' % (name, alg.show(E.at(al.ops[0], al.block))), key=name + ':buffer')


def smooth(rep, m, t):
    kd = 'Gaussian smoothing'
    name = 'vl_imsmooth_' + t
    f = m.F(name)
    if f is None or len(f.args) != 8:
        rep.skip(kd, name, 'not defined')
        return
    sz = SZ[t]
    W, H, stride, sx, sy = (A('arg', k) for k in (3, 4, 5, 6, 7))
    E = scev.Scev(f, calls={'exp': lambda E, v: [fn('exp', E.one(v.ops[0]))], 'llvm.exp.f64': lambda E, v: [fn('exp', E.one(v.ops[0]))], 'expf': lambda E, v: [fn('exp', E.one(v.ops[0]))]})
    try:
        st = kern.stores(E, guards=False)
    except alg.Unknown as e:
        rep.skip(kd, name, str(e))
        return
    cs = [c for c in f.calls() if c.callee_name() == 'vl_imconvcol_v' + t]
    if len(cs) != 2 or not f.dominates(cs[0].block, cs[1].block):
        rep.skip(kd, name, 'convolutions')
        return
    same_s = {((('eq0', freeze(sub(sx, sy))), 1),): Q(1)}
    eqat = next(iter(eq0(sub(sx, sy))))[0][0]
    filters = {}
    for b in {s.base for s in st if s.base[0] == 'call'}:
        mine = [s for s in st if s.base == b]
        sig = sx if any(('arg', 6) in scev.deep_atoms(x) for s in mine for x in (s.off, s.val)) else sy
        width = None
        for s in mine:
            if not s.chain:
                for w in (fn('int', fn('ceil', scale(sig, 3))), fn('int', fn('ceil', mul(sig, C(3))))):
                    if same(s.off, scale(w, sz)):
                        width = w
        if width is None:
            c0 = [s for s in mine if not s.chain]
            if len(c0) == 1 and kern.recognised(c0[0], kern.KNOWN | {'callv'}):
                rep.bad(kd, name + ' filter centre', c0[0].ins.loc(), '%s: the centre of the filter is at %s' % (name, alg.show(c0[0].off)), key='%s:centre:%s' % (name, alg.show(sig)))
            else:
                rep.skip(kd, name, 'filter')
            continue
        k = add(I('i'), C(1))
        g = fn('exp', scale(mul(mul(k, k), mul(inv(sig), inv(sig))), Q(-1, 2)))
        hs = {s.chain[0][0] for s in mine if s.chain}
        gb = fn('exp', scale(mul(mul(add(A('bv', 0), C(1)), add(A('bv', 0), C(1))), mul(inv(sig), inv(sig))), Q(-1, 2)))
        mass = add(C(1), scale(A('sum', 0, freeze(gb), freeze(width)), 2))
        nm = name + (' filter x' if sig == sx else ' filter y')
        sp = [Spec('centre', [], b, scale(width, sz), C(1)), Spec('left half', [('i', width)], b, scale(sub(width, k), sz), g), Spec('right half', [('i', width)], b, scale(add(width, k), sz), g),
              Spec('normalisation', [('i', add(scale(width, 2), C(1)))], b, scale(I('i'), sz), mul(ld(b, scale(I('i'), sz)), inv(mass)))]
        kern.compare(rep, kd, nm, f.loc(), mine, sp, vocab=kern.KNOWN | {'callv'})
        al = f.vals[b[1]]
        rep.check(kd, nm + ' length', same(E.at(al.ops[0], al.block), scale(add(scale(width, 2), C(1)), sz)), al.loc(), '%s: the filter has %s bytes' % (nm, alg.show(E.at(al.ops[0], al.block))), key=nm + ':alloc')
        filters[sig is sx] = (b, width)
    for b, sig in list(filters.items()):
        pass
    if set(filters) != {True, False}:
        rep.skip(kd, name, 'filters found: %s' % sorted(filters))
        return
    fxb, fxw = filters[True]
    fyb, fyw = filters[False]
    eqs = lambda truth: (lambda p: scev.mapatoms(p, lambda a: C(1 if truth else 0) if a == eqat else None))
    try:
        args = [[E.at(o, c.block) if k not in (0, 2, 6) else E.addr_at(o, c.block) for k, o in enumerate(c.ops)] for c in cs]
    except alg.Unknown as e:
        rep.skip(kd, name, str(e))
        return
    tmp = args[0][0][0]
    base = lambda b: A('base', b)
    for k, (a, c) in enumerate(zip(args, cs)):
        nm = '%s pass %d' % (name, k + 1)
        vertical = k == 0
        rep.check(kd, nm + ' images', (a[0][0], a[2][0]) == ((tmp, ('arg', 2)) if vertical else (('arg', 0), tmp)) and same(a[0][1], {}) and same(a[2][1], {}), c.loc(), '%s: reads %s and writes %s' % (nm, a[2][0], a[0][0]), key=nm + ':img')
        want = [H, W, H, stride] if vertical else [A('arg', 1), H, W, H]
        got = [a[1], a[3], a[4], a[5]]
        rep.check(kd, nm + ' geometry', all(same(x, y) for x, y in zip(got, want)), c.loc(), '%s: strides and size %s instead of %s' % (nm, [alg.show(x) for x in got], [alg.show(x) for x in want]), key=nm + ':geo')
        w = fyw if vertical else fxw
        ok = True
        for truth in (True, False):
            ww = w if not (truth and vertical) else fxw
            lo, hi = eqs(truth)(a[7]), eqs(truth)(a[8])
            lo, hi = rediv(lo), rediv(hi)
            ok = ok and same(lo, scale(ww, -1)) and same(hi, ww)
        rep.check(kd, nm + ' support', ok, c.loc(), '%s: the support of the filter is [%s, %s]' % (nm, alg.show(a[7]), alg.show(a[8])), key=nm + ':supp')
        rep.check(kd, nm + ' step', same(a[9], C(1)), c.loc(), '%s: step %s' % (nm, alg.show(a[9])), key=nm + ':step')
        rep.check(kd, nm + ' flags', same(a[10], C(5)), c.loc(), '%s: flags %s instead of continuity and transposition' % (nm, alg.show(a[10])), key=nm + ':flags')
        fo = c.ops[6]
        leaves = web(f, fo, set())
        bs = {E.addr(o)[0] for o in leaves}
        rep.check(kd, nm + ' filter', bs == ({fxb, fyb} if vertical else {fxb}), c.loc(), '%s: uses the filter of the other direction' % nm, key=nm + ':filt')
        if vertical and len(leaves) == 2 and isinstance(fo, int) and f.vals[fo].op == 'phi':
            v = f.vals[fo]
            d = f.idom[v.block]
            try:
                cond = E.reach(d, v.block)
                for o, p in v.inc:
                    g = mul(cond[p], E.edge(p, v.block))
                    want = eq0(sub(sx, sy)) if E.addr(o)[0] == fxb else NOT(eq0(sub(sx, sy)))
                    rep.check(kd, nm + ' filter choice', same(g, want), v.loc(), '%s: the filter of the x direction is used when %s' % (nm, alg.show(g)), key=nm + ':choice')
            except (alg.Unknown, KeyError):
                pass
    al = f.vals[tmp[1]] if tmp[0] == 'call' else None
    if al is not None and al.op == 'call' and al.callee_name() == 'vl_malloc':
        rep.check(kd, name + ' buffer', same(E.at(al.ops[0], al.block), scale(mul(W, H), sz)), al.loc(), '%s: the buffer has %s bytes' % (name, alg.show(E.at(al.ops[0], al.block))), key=name + ':buffer')


def rediv(p):
    """quotients simplified again after a substitution"""
    return scev.mapatoms(p, lambda a: fn(a[1], alg.thaw(a[2]), alg.thaw(a[3])) if a[0] == 'fn' and a[1] in ('udiv', 'sdiv') else None)


# -- distance transform -------------------------------------------------------------

def distance(rep, m, t):
    kd = 'distance transform'
    name = 'vl_image_distance_transform_' + t
    f = m.F(name)
    if f is None or len(f.args) != 9:
        rep.skip(kd, name, 'not defined')
        return
    sz = SZ[t]
    img, out, idx = ('arg', 0), ('arg', 5), ('arg', 6)
    W, H, cs, rs, co, of = (A('arg', k) for k in (1, 2, 3, 4, 7, 8))
    E = scev.Scev(f)
    inner = [h for h in f.loops if not any(g != h and g in f.loops[h] for g in f.loops)]
    par = {h: sorted([g for g in f.loops if h in f.loops[g] and g != h], key=lambda g: len(f.loops[g])) for h in inner}
    order = {b: k for k, b in enumerate(f.rpo())}
    inner.sort(key=lambda h: order[par[h][0]] if par[h] else 0)
    if len(inner) != 2 or any(len(par[h]) != 2 for h in inner) or par[inner[0]][1] != par[inner[1]][1] or par[inner[0]][0] == par[inner[1]][0]:
        rep.skip(kd, name, 'loops')
        return
    P, Qh = inner
    x1, x2, yl = par[P][0], par[Qh][0], par[P][1]
    Y = A('it', yl)
    for h, n, w in ((yl, 'rows', H), (x1, 'columns', W), (x2, 'columns of the result', W)):
        c = E.exit_it(h)
        rep.check(kd, '%s %s' % (name, n), c is not None and same(c, w), f.blocks[h][0].loc(), '%s: %s %s' % (name, alg.show(c) if c is not None else '?', n), key='%s:count:%s' % (name, n))
    try:
        N1 = [v for v in f.blocks[x1] if v.op == 'phi' and v.ty == 'i64' and E.close(v) is None]
        NP = [v for v in f.blocks[P] if v.op == 'phi' and v.ty == 'i64' and E.close(v) is not None]
        NQ = [v for v in f.blocks[Qh] if v.op == 'phi' and v.ty == 'i64']
        N2 = [v for v in f.blocks[x2] if v.op == 'phi' and v.ty == 'i64' and E.close(v) is None]
        if not (len(N1) == len(N2) == len(NQ) == 1) or len(NP) != 1:
            rep.skip(kd, name, 'counters')
            return
        N1, NP, NQ, N2 = N1[0], NP[0], NQ[0], N2[0]
        s = dict(E.subst)
        for v in (N1, NP, NQ, N2):
            s[v.id] = [A('v', v.id)]
        Z = scev.Scev(f, s, E.calls)
        num, k = A('v', NP.id), A('v', NQ.id)
        X1, X2 = A('it', x1), A('it', x2)
        # roles of the four buffers by what is stored in the first pass
        st = [i for b in f.loops[x1] for i in f.blocks[b] if i.op == 'store']
        role = {}
        cell = lambda b, x, z: ld(b, scale(add(mul(x, cs), mul(Y, rs)), z))
        for i in st:
            b, off = Z.addr_at(i.ops[1], i.block)
            v = Z.at(i.ops[0], i.block)
            if b[0] != 'call':
                raise alg.Unknown('store at %s into %s' % (i.loc(), b))
            if same(v, X1):
                role['which'] = b
            elif same(v, cell(img, X1, sz)):
                role['base'] = b
            elif same(v, cell(idx, X1, 8)):
                role['indexes'] = b
            else:
                role.setdefault('from', b)
            z = 8 if f.vals[i.ops[0]].ty == 'i64' else sz
            rep.check(kd, '%s store %s' % (name, 'of parabola %d' % st.index(i)), same(off, scale(num, z)), i.loc(), '%s: a parabola is stored at %s instead of the next free place' % (name, alg.show(off)), key='%s:place:%d' % (name, st.index(i)))
        if set(role) != {'which', 'base', 'from', 'indexes'} or len(set(role.values())) != 4:
            vals = [Z.at(i.ops[0], i.block) for i in st]
            if len(st) == 4 and len(set(role.values())) != 4 or len(st) == 4:
                rep.bad(kd, name + ' parabola', st[0].loc(), '%s: a parabola is not described by its position, height, index and left end (%s found)' % (name, sorted(role)), key=name + ':roles')
            else:
                rep.skip(kd, name, 'parabola: %s' % sorted(role))
            return
        rep.ok(kd, name + ' parabola: position, height, index, left end')
        for n, b in role.items():
            al = f.vals[b[1]]
            if al.op == 'call' and al.callee_name() == 'vl_malloc':
                w = {'from': scale(add(W, C(1)), sz), 'base': scale(W, sz)}.get(n, scale(W, 8))
                rep.check(kd, '%s buffer %s' % (name, n), same(E.at(al.ops[0], al.block), w), al.loc(), '%s: the buffer of the %s has %s bytes' % (name, n, alg.show(E.at(al.ops[0], al.block))), key='%s:buf:%s' % (name, n))
        # intersection with the last parabola kept
        last = sub(num, C(1))
        xp = ld(role['which'], scale(last, 8))
        r, rp = cell(img, X1, sz), cell(img, xp, sz)
        cmps = [i for b in f.loops[P] for i in f.blocks[b] if i.op == 'fcmp' and any(same(q, ld(role['from'], scale(last, sz))) for q in safe(Z, i))]
        if len(cmps) != 1:
            rep.skip(kd, name, 'test of the last parabola')
            return
        c = cmps[0]
        l, rr = [Z.one(o) for o in c.ops]
        side = same(rr, ld(role['from'], scale(last, sz)))
        inter = l if side else rr
        eps = [a for a in (C(Q('1.1920928955078125e-07')), C(Q('2.2204460492503131e-16')))]
        inf = A('fpconst', 'inf')
        flat = [sel(gt0(sub(rp, r)), A('fpconst', '-inf'), A('fpconst', 'inf'))]
        infs = {a for a in scev.deep_atoms(inter) if a[0] == 'fpconst'}
        pin, nin = A('fpconst', 'inf'), A('fpconst', '-inf')
        for x in infs:
            if x[1].startswith('-'):
                nin = {((x, 1),): Q(1)}
            else:
                pin = {((x, 1),): Q(1)}
        mid = add(scale(add(X1, xp), Q(1, 2)), of)
        gen = add(mul(mul(add(sub(r, rp), mul(co, sub(mul(X1, X1), mul(xp, xp)))), inv(sub(X1, xp))), inv(scale(co, 2))), of)
        small = sel(gt0(sub(rp, r)), nin, pin)
        ek = [a for a in scev.deep_atoms(inter) if a[0] == 'gt0' and set(alg.atoms(alg.thaw(a[1]))) == {('arg', 7)}]
        thr = -alg.thaw(ek[0][1]).get((), Q(0)) / alg.thaw(ek[0][1])[((('arg', 7), 1),)] if ek else Q(-1)
        rep.check(kd, name + ' flat parabolas', 0 <= thr < Q(1, 10**5), c.loc(), '%s: parabolas are taken for flat below a coefficient of %g' % (name, float(thr)), key=name + ':flat')
        big = {((ek[0], 1),): Q(1)} if ek else C(1)
        # the three cases are told apart and have their own value
        eqr = eq0(sub(r, rp))
        want = sel(eqr, mid, sel(big, gen, small))
        e = next(iter(eqr))[0][0]
        cases = ((((e, True),), mid, 'equal heights'), (((e, False),) + (((ek[0], True),) if ek else ()), gen, 'different heights'), (((e, False),) + (((ek[0], False),) if ek else ()), small, 'flat parabolas'))
        for facts, w, n in cases:
            g, ww = inter, w
            if facts[0][1]:
                facts += tuple((a, False) for a in alg.atoms(gt0(sub(rp, r))) if a[0] == 'gt0')
            for a, tr in facts:
                g, ww = scev.mapatoms(g, lambda z: C(1 if tr else 0) if z == a else None), scev.mapatoms(ww, lambda z: C(1 if tr else 0) if z == a else None)
            rep.check(kd, '%s intersection, %s' % (name, n), same(g, ww), c.loc(), '%s: the parabolas (%s) are taken to intersect at %s' % (name, n, alg.show(g)[:240]), key='%s:inter:%s' % (name, n))
        # drop the last parabola exactly when the intersection is at or left of its left end
        tb = f.blocks[c.block][-1]
        lat = {p for p in f.pred[P] if p in f.loops[P]}
        drop = [s for s in tb.succ if s in f.loops[P]]
        if isinstance(tb.cond, int) and f.vals[tb.cond] is c and len(drop) == 1:
            q = c.pred[1:] if c.pred not in ('oeq', 'one') else c.pred
            if not side:
                q = {'le': 'ge', 'lt': 'gt', 'ge': 'le', 'gt': 'lt'}.get(q, q)
            if tb.succ[0] != drop[0]:
                q = {'le': 'gt', 'lt': 'ge', 'ge': 'lt', 'gt': 'le'}.get(q, q)
            rep.check(kd, name + ' parabola dropped', q in ('le', 'lt'), c.loc(), '%s: the last parabola is dropped when the intersection is %s its left end' % (name, q), key=name + ':drop')
        else:
            rep.skip(kd, name, 'test of the last parabola')
        nx = [Z.at(o, p) for o, p in NP.inc if p in f.loops[P]]
        rep.check(kd, name + ' parabola removed', all(same(z, last) for z in nx), NP.loc(), '%s: %s parabolas left after one is dropped' % (name, alg.show(nx[0])), key=name + ':pop')
        i0 = [Z.at(o, p) for o, p in NP.inc if p not in f.loops[P]]
        rep.check(kd, name + ' parabolas so far', all(same(z, A('v', N1.id)) for z in i0), NP.loc(), '%s: the search starts at parabola %s' % (name, alg.show(i0[0])), key=name + ':start')
        tp = f.blocks[P][-1]
        if tp.op == 'br' and tp.cond is not None:
            st_ = Z.one(tp.cond)
            if tp.succ[0] not in f.loops[P]:
                st_ = NOT(st_)
            rep.check(kd, name + ' first parabola', any(same(st_, z) for z in (gt0(num), ge0(sub(num, C(1))), NOT(eq0(num)))), tp.loc(), '%s: earlier parabolas are looked at while %s' % (name, alg.show(st_)), key=name + ':first')
        ni = [Z.at(o, p) for o, p in N1.inc if p not in f.loops[x1]]
        nn = [Z.at(o, p) for o, p in N1.inc if p in f.loops[x1]]
        rep.check(kd, name + ' counter', all(same(z, {}) for z in ni) and all(same(z, add(num, C(1))) for z in nn), N1.loc(), '%s: the number of parabolas starts at %s and becomes %s' % (name, alg.show(ni[0]), alg.show(nn[0])), key=name + ':counter')
        # left end: minus infinity for the first, the intersection otherwise
        fr = next(i for i in st if Z.addr_at(i.ops[1], i.block)[0] == role['from'])
        lv = web(f, fr.ops[0], set())
        kinds = []
        for o in lv:
            p = Z.one(o)
            at = [a for a in alg.atoms(p)]
            kinds.append('-inf' if len(at) == 1 and at[0][0] == 'fpconst' and str(at[0][1]).startswith('-') else 'inter' if same(p, inter) else alg.show(p)[:60])
        iv = web(f, c.ops[0 if side else 1], set())
        rest = [z for z, o in zip(kinds, lv) if o not in iv and z not in ('-inf', 'inter')]
        rep.check(kd, name + ' left end', '-inf' in kinds and not rest, fr.loc(), '%s: the left end of a new parabola is one of %s' % (name, kinds), key=name + ':left')
        # sentinel
        se = [i for b in f.loops[yl] if b not in f.loops[x1] and b not in f.loops[x2] for i in f.blocks[b] if i.op == 'store']
        sn = [i for i in se if Z.addr_at(i.ops[1], i.block)[0] == role['from']]
        if len(sn) == 1:
            b, off = Z.addr_at(sn[0].ops[1], sn[0].block)
            v = Z.one(sn[0].ops[0])
            a = list(alg.atoms(v))
            rep.check(kd, name + ' right end', same(off, scale(A('v', N1.id), sz)) and len(a) == 1 and a[0][0] == 'fpconst' and not str(a[0][1]).startswith('-') and v == A(*a[0]), sn[0].loc(), '%s: the right end of the last parabola is %s at %s' % (name, alg.show(v), alg.show(off)), key=name + ':sentinel')
        else:
            rep.check(kd, name + ' right end', False, f.blocks[x2][0].loc(), '%s: the last parabola has no right end' % name, key=name + ':sentinel')
        # second pass
        tq = f.blocks[Qh][-1]
        cq = f.val(tq.cond)
        ops = safe(Z, cq)
        nxt = ld(role['from'], scale(add(k, C(1)), sz))
        if len(ops) == 2 and cq.op == 'fcmp' and any(same(o, nxt) for o in ops):
            q = cq.pred[1:]
            if same(ops[0], nxt):
                q = {'le': 'ge', 'lt': 'gt', 'ge': 'le', 'gt': 'lt'}[q]
            if tq.succ[0] not in f.loops[Qh]:
                q = {'le': 'gt', 'lt': 'ge', 'ge': 'lt', 'gt': 'le'}[q]
            rep.check(kd, name + ' envelope', q in ('ge', 'gt') and any(same(o, X2) for o in ops), cq.loc(), '%s: the next parabola is taken when x is %s its left end' % (name, q), key=name + ':adv')
        elif cq.op == 'fcmp' and all(a[0] in kern.KNOWN | {'v'} for o in ops for a in scev.deep_atoms(o)):
            rep.bad(kd, name + ' envelope', cq.loc(), '%s: the next parabola is taken by comparing %s' % (name, [alg.show(o) for o in ops]), key=name + ':adv')
        else:
            rep.skip(kd, name, 'envelope')
        nx = [Z.at(o, p) for o, p in NQ.inc if p in f.loops[Qh]]
        i2 = [Z.at(o, p) for o, p in N2.inc if p not in f.loops[x2]]
        n2 = [Z.at(o, p) for o, p in N2.inc if p in f.loops[x2]]
        iq = [Z.at(o, p) for o, p in NQ.inc if p not in f.loops[Qh]]
        rep.check(kd, name + ' envelope position', all(same(z, add(k, C(1))) for z in nx) and all(same(z, {}) for z in i2) and all(same(z, k) for z in n2) and all(same(z, A('v', N2.id)) for z in iq), NQ.loc(), '%s: the position in the envelope is not kept from pixel to pixel' % name, key=name + ':pos')
        # stores of the result, the loops' counters left open
        res = {}
        for b in f.loops[x2]:
            for i in f.blocks[b]:
                if i.op == 'store':
                    res[Z.addr_at(i.ops[1], i.block)[0]] = (Z.addr_at(i.ops[1], i.block)[1], Z.at(i.ops[0], i.block), i)
        d = sub(sub(X2, ld(role['which'], scale(k, 8))), of)
        o, v, i = res.get(out, (None, None, None))
        rep.check(kd, name + ' distance', i is not None and same(o, scale(add(mul(X2, cs), mul(Y, rs)), sz)) and same(v, add(ld(role['base'], scale(k, sz)), mul(co, mul(d, d)))), (i or cq).loc(), '%s: the result is %s' % (name, alg.show(v)[:240] if v is not None else 'not stored'), key=name + ':dist')
        o, v, i = res.get(idx, (None, None, None))
        rep.check(kd, name + ' index', i is not None and same(o, scale(add(mul(X2, cs), mul(Y, rs)), 8)) and same(v, ld(role['indexes'], scale(k, 8))), (i or cq).loc(), '%s: the index is %s' % (name, alg.show(v)[:240] if v is not None else 'not stored'), key=name + ':idx')
    except (alg.Unknown, KeyError, StopIteration) as e:
        rep.skip(kd, name, str(e))


def safe(Z, i):
    out = []
    for o in i.ops:
        try:
            out.append(Z.one(o))
        except alg.Unknown:
            pass
    return out


def run():
    rep = report.Report('C35', RULE, 'inductive loop invariants and scalar-evolution closed forms of address and value')
    m = ir.libi()
    for t in 'fd':
        convcol(rep, m, t, 'vl_imconvcol_v' + t)
        convcol(rep, m, t, '_vl_imconvcol_v%s_sse2' % t)
    ml = ir.lib()
    for t in 'fd':
        gradient(rep, m, ml, t)
        triangular(rep, m, t)
        smooth(rep, m, t)
        distance(rep, m, t)
    integral(rep, m)
    rep.floor('obligations', len(rep.obl), 20)
    return rep
