"""C41, part: refinement of SIFT keypoints"""
import alg, kern, spec, scev
from alg import C, A, add, sub, mul, scale, fn, same, freeze, thaw
from kern import ld, I, Spec
from spec import Obl, P
Fr = alg.Fraction


def resolve(f, vid, seen=()):
    """the value of the last iteration that a variable of a loop holds after the loop, which runs at least once"""
    if not isinstance(vid, int) or vid not in f.vals or vid in seen:
        return {vid} if not (isinstance(vid, int) and vid in seen) else set()
    v = f.vals[vid]
    if getattr(v, 'op', None) != 'phi':
        return {vid}
    if v.block in f.loops:
        inc = [o for o, b in v.inc if b in f.loops[v.block]]
        return set().union(*[resolve(f, o, (*seen, vid)) if isinstance(o, int) else {str(o)} for o in inc])
    return set().union(*[resolve(f, o, (*seen, vid)) if isinstance(o, int) else {str(o)} for o, b in v.inc])


def leaving(f, h):
    """variables of the blocks after loop h that merge its exits, with their values in the last iteration"""
    out = {}
    L = f.loops[h]
    pred = {}
    for b in range(len(f.blocks)):
        for t in getattr(f.blocks[b][-1], 'succ', None) or []:
            pred.setdefault(t, []).append(b)
    for i in f.instrs:
        if i.op != 'phi' or i.block in L or len(i.inc) < 2 or not all(b in L or len(f.blocks[b]) == 1 and all(q in L for q in pred.get(b, [])) for _, b in i.inc):
            continue
        r = resolve(f, i.id)
        if len(r) == 1 and isinstance(next(iter(r)), int):
            out[i.id] = next(iter(r))
    return out


def outermost(f, h):
    return max((g for g in f.loops if h in f.loops[g]), key=lambda g: len(f.loops[g]))


def closed(E, m):
    """closed forms with the values of loops that can be left early"""
    f = E.f
    for h in f.loops:
        for p in f.blocks[h]:
            if p.op != 'phi':
                continue
            for o, b in p.inc:
                v = f.vals.get(o) if isinstance(o, int) else None
                if b in f.loops[h] and v is not None and getattr(v, 'op', None) in ('phi', 'select') and v.block != h and v.block not in f.loops and \
                        p.id in ([x for x, _ in v.inc] if v.op == 'phi' else v.ops):
                    # advanced in some iterations only
                    if p.ty == 'ptr':
                        E.subst[p.id] = ('ptr', ('pv', p.id), {})
                    elif f.blocks[h] is not None and h == outermost(f, h):
                        E.subst[p.id] = [A('v', p.id)]
    for h in sorted(f.loops, key=lambda h: len(f.loops[h])):
        brs = [b for b in f.loops[h] if any(t not in f.loops[h] for t in (getattr(f.blocks[b][-1], 'succ', None) or []))]
        if len(brs) < 2:
            continue
        E2 = spec.scev_of(f, m)
        E2.subst.update(E.subst)
        for p, v in leaving(f, h).items():
            try:
                if f.vals[p].ty == 'ptr':
                    b, o = E.addr_at(v, f.vals[v].block)
                    E2.subst[p] = ('ptr', b, o)
                else:
                    E2.subst[p] = [E.at(v, f.vals[v].block)]
            except alg.Unknown:
                pass
        E = E2
    return E


def powers(p):
    """pow(b, x + y) as pow(b, x) pow(b, y)"""
    def f(a):
        if a[:2] in (('fn', 'pow'), ('fn', 'powf')) and len(a) == 4:
            b, x = powers(thaw(a[2])), powers(thaw(a[3]))
            r = C(1)
            for m, c in x.items():
                r = mul(r, fn('pow', b, {m: c}))
            return r
        return None
    return scev.mapatoms(p, f)


def vatoms(p):
    return [a for a in scev.deep_atoms(p) if a[0] == 'v']


def refine(rep, m, l, f, E, sts, sd):
    T = Obl(rep, 'refinement', 'vl_sift_detect')
    w, h = l.octave_width, l.octave_height
    kpo = lambda n: l.kp[n] if isinstance(l.kp[n], dict) else C(l.kp[n])
    out = [s for s in sts if s.base[0] == 'pv' and len(s.chain) == 1]
    bases = {s.base for s in out}
    if len(bases) != 1:
        return T.skip('keypoints', '%d lists' % len(bases))
    K = next(iter(bases))
    fld = {n: [s for s in out if same(s.off, kpo(n))] for n in l.kp}
    for n, v in fld.items():
        if not v:
            T('%s stored' % n, False, f, 'the field %s of each keypoint is set' % n)
    if any(len(v) != 1 for v in fld.values()):
        return T.skip('fields', '%s' % {n: len(v) for n, v in fld.items()})
    fld = {n: v[0] for n, v in fld.items()}
    H = fld['o'].chain[0][0]
    it = A('it', H)
    X, Y, S = fld['ix'].val, fld['iy'].val, fld['is'].val
    key = lambda n: ld(l.keysP, add(scale(it, l.kpsize), kpo(n)))
    T('all', fld['o'].chain[0][1] is not None and same(fld['o'].chain[0][1], l.nkeys), fld['o'].ins, 'every extremum is refined')
    T('level', same(S, key('is')), fld['is'].ins, 'the level of the keypoint is that of its extremum: %s' % alg.show(S)[:200])
    # the iteration: the loop inside that holds the equations
    eq = [s for s in sts if s.base[0] == 'alloca' and len(s.chain) == 2 and s.chain[0][0] == H and not same(s.val, {})]
    al = {}
    for s in eq:
        al.setdefault(s.base, []).append(s)
    mats = [b for b, v in al.items() if len(v) == 9]
    rhss = [b for b, v in al.items() if len(v) == 3]
    if len(mats) != 1 or len(rhss) != 1:
        return T.skip('equations', '%s stores' % [len(v) for v in al.values()])
    AM, BV = mats[0], rhss[0]
    h2 = al[AM][0].chain[1][0]
    its = al[AM][0].chain[1][1]
    T('iterations', its is not None and same(its, C(5)), al[AM][0].ins, 'the extremum is refined at most five times: %s' % alg.show(its)[:100])
    c = scale(add(add(X, mul(Y, w)), mul(sub(S, l.s_min), l.wh)), 4)
    g = lambda *k: A('sym', 'n', *k)
    D1 = [scale(sub(g(1, 0, 0), g(-1, 0, 0)), Fr(1, 2)), scale(sub(g(0, 1, 0), g(0, -1, 0)), Fr(1, 2)), scale(sub(g(0, 0, 1), g(0, 0, -1)), Fr(1, 2))]
    ax = [(1, 0, 0), (0, 1, 0), (0, 0, 1)]
    pl = lambda a, b, s, t: tuple(s * x + t * y for x, y in zip(a, b))
    D2 = {}
    for i in range(3):
        for j in range(3):
            if i == j:
                D2[i, j] = sub(add(g(*ax[i]), g(*[-x for x in ax[i]])), scale(g(0, 0, 0), 2))
            else:
                D2[i, j] = scale(sub(add(g(*pl(ax[i], ax[j], 1, 1)), g(*pl(ax[i], ax[j], -1, -1))), add(g(*pl(ax[i], ax[j], 1, -1)), g(*pl(ax[i], ax[j], -1, 1)))), Fr(1, 4))
    near = lambda p: sd.around(l, l.dogP, c, p)
    names = 'xys'
    for j in range(3):
        for i in range(3):
            q = [s for s in al[AM] if same(s.off, C(8 * (i + 3 * j)))]
            if len(q) != 1:
                T.skip('second derivative %s%s' % (names[i], names[j]), '%d stores' % len(q))
                continue
            v = near(q[0].val)
            decided(T, 'second derivative %s%s' % (names[i], names[j]), same(v, D2[i, j]), q[0], v, 'the matrix of the equations holds the finite differences of second order at the current position')
        q = [s for s in al[BV] if same(s.off, C(8 * j))]
        if len(q) == 1:
            v = near(q[0].val)
            decided(T, 'first derivative %s' % names[j], same(v, scale(D1[j], -1)), q[0], v, 'the right side of the equations holds the opposite of the finite differences at the current position')
        else:
            T.skip('first derivative %s' % names[j], '%d stores' % len(q))
    b = [ld(BV, C(8 * j)) for j in range(3)]
    position(T, E, f, l, sts, H, h2, X, Y, b, key, sd, BV)
    solve(rep, E, f, l, sts, H, h2, AM, BV, al, sd)
    accept(T, E, f, l, H, h2, X, Y, S, b, fld, near, sd, BV, g)
    # the fields
    sn = add(S, b[2])
    px = fn('pow', C(2), l.o_cur)
    for n, v in (('o', l.o_cur), ('s', sn), ('x', mul(add(X, b[0]), px)), ('y', mul(add(Y, b[1]), px)), ('sigma', mul(mul(l.sigma0, fn('pow', C(2), mul(sn, alg.inv(l.S)))), px))):
        decided(T, 'field %s' % n, same(powers(fld[n].val), powers(v)), fld[n], fld[n].val, 'the field %s of the keypoint is the refined one, in the frame of the image' % n)
    # the list
    p = f.vals[K[1]]
    ini = [(o, q) for o, q in p.inc if q not in f.loops[H]]
    nxt = [(o, q) for o, q in p.inc if q in f.loops[H]]
    if p.block != H or len(ini) != 1 or len(nxt) != 1:
        return T.skip('list', 'pointer')
    try:
        a = E.addr_at(*ini[0])
        T('list start', a[0] == l.keysP and same(a[1], {}), p, 'keypoints replace extrema from the start of the list')
        v = f.vals[nxt[0][0]]
        adv = [(o, q) for o, q in v.inc if o != p.id] if v.op == 'phi' else []
        if len(adv) == 1:
            a = E.addr_at(adv[0][0], adv[0][1])
            T('list step', a[0] == K and same(a[1], C(l.kpsize)), v, 'each accepted keypoint takes one entry of the list')
        else:
            T.skip('list step', 'pointer')
    except alg.Unknown as e:
        T.skip('list', str(e)[:100])
    last = [s for s in sts if s.base == ('arg', 0) and same(s.off, l.off['nkeys']) and not s.chain and kern.before(E, fld['o'].ins, s.ins)]
    if len(last) == 1:
        ok = same(last[0].val, fn('sdiv', sub(A('base', K), A('base', l.keysP)), C(l.kpsize))) or same(last[0].val, scale(sub(A('base', K), A('base', l.keysP)), Fr(1, l.kpsize)))
        decided(T, 'number', ok, last[0], last[0].val, 'the number of keypoints is the number of entries written')
    else:
        (T.skip if last else (lambda a, b: T(a, False, f, 'the number of accepted keypoints is kept')))('number', '%d stores' % len(last))


def decided(T, nm, ok, s, v, msg):
    if ok:
        T(nm, True, s.ins, '')
    elif all(a[0] in ('arg', 'ld', 'sym', 'it', 'v', 'gt0', 'eq0', 'inv', 'base') or a[0] == 'fn' and a[1] in ('pow', 'powf', 'sqrt', 'floor', 'sdiv', 'toint', 'udiv') for a in scev.deep_atoms(v)):
        T(nm, False, s.ins, '%s: %s' % (msg, alg.show(v)[:300]))
    else:
        T.skip(nm, alg.show(v)[:200])


def position(T, E, f, l, sts, H, h2, X, Y, b, key, sd, BV):
    """the position is moved by one pixel while the offset exceeds 0.6"""
    cE = sd.Cached(E)
    pos = {}
    for nm, V, n, dim in (('ix', X, 'ix', l.octave_width), ('iy', Y, 'iy', l.octave_height)):
        vs = vatoms(V)
        ph = [f.vals[a[1]] for a in vs]
        if not (len(vs) == 2 and same(V, add(A(*vs[0]), A(*vs[1]))) and all(p.op == 'phi' and p.block == h2 for p in ph)):
            T.skip('position %s' % nm, alg.show(V)[:200])
            return
        try:
            st = [{'ini': [E.at(o, q) for o, q in p.inc if q not in f.loops[h2]], 'nxt': [(o, q) for o, q in p.inc if q in f.loops[h2]]} for p in ph]
        except alg.Unknown:
            return T.skip('position %s' % nm, 'start')
        k = next((i for i in (0, 1) if all(same(E.at(*x), V) for x in st[i]['nxt'])), None)
        if k is None:
            return T.skip('position %s' % nm, 'step')
        base, step = st[k], st[1 - k]
        T('position %s' % nm, all(same(x, key(n)) for x in base['ini']) and all(same(x, {}) for x in step['ini']), ph[k], 'the refinement starts at the extremum')
        if len(step['nxt']) != 1:
            return T.skip('step %s' % nm, 'paths')
        pos[nm] = (vs[k], vs[1 - k], step['nxt'][0], ph[1 - k], dim)
    LOW, HIGH = Fr(59, 100), Fr(61, 100)

    def env(bx, by, x, y):
        e = {pos['ix'][0]: x, pos['ix'][1]: 0, pos['iy'][0]: y, pos['iy'][1]: 0, l.octave_width_a: 20, l.octave_height_a: 30}
        e['load'] = lambda base, off: {0: bx, 8: by, 16: Fr(1, 3)}.get(off) if base == BV else None
        return e

    def want(v, x, n):
        return (1 if v > Fr(6, 10) and x < n - 2 else 0) - (1 if v < -Fr(6, 10) and x > 1 else 0)
    outside = {t for q in f.loops[h2] for t in (getattr(f.blocks[q][-1], 'succ', None) or []) if t not in f.loops[h2] and q != h2}
    start = sd.body(f, h2)
    vals = (-Fr(2), -HIGH, -LOW, Fr(0), LOW, HIGH, Fr(2))
    for nm, n in (('ix', 20), ('iy', 30)):
        o = pos[nm][2]
        bad = None
        try:
            d = E.at(*o)
            for v in vals:
                for x in (1, 2, 7, n - 3, n - 2):
                    e = env(v, Fr(0), x, 9) if nm == 'ix' else env(Fr(0), v, 9, x)
                    r = spec.num(d, e)
                    if r != want(v, x, n):
                        bad = 'offset %s at %d of %d moves by %s' % (v, x, n, r)
            T('step %s' % nm, bad is None, pos[nm][3], 'the position moves by one pixel when the offset exceeds 0.6 and there is room: %s' % bad)
        except alg.Unknown as e:
            T.skip('step %s' % nm, str(e)[:100])
    if not outside:
        return T.skip('until', 'the iteration is not left early')
    bad = None
    for v in vals:
        for u in vals:
            for x, y in ((7, 9), (1, 1), (18, 28)):
                o = sd.walk(cE, start, outside, {h2}, env(v, u, x, y))
                stay = want(v, x, 20) == 0 and want(u, y, 30) == 0
                if len(o) != 1:
                    return T.skip('until', 'undecided')
                if o != {stay}:
                    bad = 'offsets %s, %s at (%d, %d) of 20 x 30' % (v, u, x, y)
    T('until', bad is None, f, 'the iteration ends exactly when the position does not move: %s' % bad)


def accept(T, E, f, l, H, h2, X, Y, S, b, fld, near, sd, BV, g):
    blk = fld['o'].ins.block
    outs = sorted({t for q in f.loops[h2] for t in (getattr(f.blocks[q][-1], 'succ', None) or []) if t not in f.loops[h2]})
    a1 = lambda p: next(iter(p))[0][0]
    memo = {}

    def sb(p):
        if id(p) not in memo:
            memo[id(p)] = (spec.sub_(near(p), {a1(S): A('sym', 'S')} if len(S) == 1 else {}), p)
        return memo[id(p)][0]
    cE = sd.Cached(E)
    xs, ys = vatoms(X), vatoms(Y)
    if len(S) != 1:
        return T.skip('acceptance', 'level')

    def run(x=5, y=6, s=1, bb=(Fr(1, 10), Fr(1, 5), Fr(3, 10)), tp=1, te=10, hess=(-4, -6, 1), sign=1):
        e = {a: 0 for a in xs + ys}
        e[xs[0]], e[ys[0]] = x, y
        e.update({l.octave_width_a: 20, l.octave_height_a: 30, l.s_min_a: -1, l.s_max_a: 4, l.peak_thresh_a: Fr(tp), l.edge_thresh_a: Fr(te), a1(A('sym', 'S')): s})
        e['load'] = lambda base, off: {0: bb[0], 8: bb[1], 16: bb[2]}.get(off) if base == BV else None
        D = (2, -1, 3)
        n = {(dx, dy, dz): Fr(dx * dx * 7 + dy * 5 + dz * dx * 3) for dx in (-1, 0, 1) for dy in (-1, 0, 1) for dz in (-1, 0, 1)}
        n[0, 0, 0] = Fr(10)
        for k, (ax, d2) in enumerate(zip(((1, 0, 0), (0, 1, 0), (0, 0, 1)), (hess[0], hess[1], -5))):
            n[ax] = Fr(20 + d2, 2) + D[k]
            n[tuple(-t for t in ax)] = Fr(20 + d2, 2) - D[k]
        n[1, 1, 0], n[-1, -1, 0], n[1, -1, 0], n[-1, 1, 0] = Fr(4 * hess[2]) + 3, Fr(0), Fr(2), Fr(1)
        for k, v in n.items():
            e[a1(g(*k))] = sign * v
        r = set()
        for o in outs:
            r |= sd.walk(cE, o, {blk}, {H}, e, sb)
        return r
    z = Fr(1, 100)
    cases = [('good', True, {}, 'a stable, well localised, contrasted point is kept'),
             ('contrast', True, dict(tp=Fr(1044, 100)), 'a point is kept when the refined value exceeds the peak threshold'),
             ('low contrast', False, dict(tp=Fr(1046, 100)), 'a point is dropped when the refined value does not exceed the peak threshold'),
             ('minimum', True, dict(tp=Fr(1044, 100), sign=-1), 'minima are kept like maxima'), ('low minimum', False, dict(tp=Fr(1046, 100), sign=-1), 'minima are dropped like maxima'),
             ('round', True, dict(te=Fr(18, 10)), 'a point is kept when its edge score is below (t+1)^2/t'), ('edge', False, dict(te=Fr(175, 100)), 'a point on an edge is dropped'),
             ('saddle', False, dict(hess=(-4, 6, 0)), 'a saddle point is dropped'), ('saddle 2', False, dict(hess=(4, -6, 1)), 'a saddle point is dropped'), ('degenerate', False, dict(hess=(-1, -1, 2)), 'a saddle point is dropped')]
    for k in range(3):
        for v in (Fr(149, 100), -Fr(149, 100), Fr(151, 100), -Fr(151, 100)):
            bb = [Fr(1, 10), Fr(1, 5), Fr(3, 10)]
            bb[k] = v
            tp = Fr(1)
            cases.append(('offset %s %s' % ('xys'[k], v), abs(v) < Fr(3, 2), dict(bb=tuple(bb), s=2), 'offsets of 1.5 or more are rejected'))
    for nm, k, lo, hi in (('x', 0, 0, 19), ('y', 1, 0, 29), ('s', 2, -1, 4)):
        for at, d, ok in ((lo + 1, -1 - z, False), (lo + 1, -1 + z, True), (hi - 1, 1 + z, False), (hi - 1, 1 - z, True)):
            bb = [Fr(1, 10), Fr(1, 5), Fr(3, 10)]
            bb[k] = Fr(d)
            cases.append(('range %s %s' % (nm, Fr(at) + d), ok, {nm: at, 'bb': tuple(bb)}, 'refined points outside the octave are dropped'))
    for nm, want, kw, msg in cases:
        r = run(**kw)
        if len(r) != 1:
            T.skip('acceptance %s' % nm, 'undecided')
        else:
            T('acceptance %s' % nm, r == {want}, fld['o'].ins, msg)


def solve(rep, E, f, l, sts, H, h2, AM, BV, al, sd):
    """elimination with the largest pivot, then substitution"""
    T = Obl(rep, 'linear system', 'vl_sift_detect')
    inn = [s for s in sts if s.base in (AM, BV) and len(s.chain) > 2]
    piv = {a for s in inn for p in (s.off, s.val) for a in vatoms(p) if f.vals[a[1]].op == 'phi' and f.vals[a[1]].block in f.loops and f.vals[a[1]].block != h2}
    if len(piv) not in (1, 2):
        return T.skip('pivot', '%d variables' % len(piv))
    g = f.vals[next(iter(piv))[1]].block
    hj = next((s.chain[2][0] for s in inn if any(a in vatoms(s.off) for a in piv)), None)
    if hj is None:
        return T.skip('pivot', 'no exchange')
    row = [a for a in piv if any(a in vatoms(s.off) for s in inn)]
    if len(row) != 1:
        return T.skip('pivot', 'row')
    row = row[0]
    val = next((a for a in piv if a != row), None)
    j = A('it', hj)
    pre = [('k', l.nkeys), ('t', C(5)), ('j', C(3))]
    J, k, q = I('j'), I('c'), I('r')
    M = lambda r, c_: ld(AM, scale(add(r, scale(c_, 3)), 8))
    o = lambda r, c_: scale(add(r, scale(c_, 3)), 8)
    R = A(*row)
    pv = [alg.inv(A(*val))] if val else [alg.inv(M(J, J))]
    col, ii = add(J, k), add(add(J, q), C(1))
    left = list(inn)
    found = {}
    back = [('k', l.nkeys), ('t', C(5)), ('i', C(2)), ('r', sub(C(2), I('i')))]
    bi, br = sub(C(2), I('i')), sub(sub(C(1), I('i')), I('r'))
    specs = [('exchange 1', pre + [('c', sub(C(3), J))], AM, o(R, col), M(J, col)), ('exchange 2', pre + [('c', sub(C(3), J))], AM, o(J, col), M(R, col)),
             ('scaling', pre + [('c', sub(C(3), J))], AM, o(J, col), [mul(M(J, col), x) for x in pv]),
             ('right exchange 1', pre, BV, scale(R, 8), ld(BV, scale(J, 8))), ('right exchange 2', pre, BV, scale(J, 8), ld(BV, scale(R, 8))), ('right scaling', pre, BV, scale(J, 8), [mul(ld(BV, scale(J, 8)), x) for x in pv]),
             ('elimination', pre + [('r', sub(C(2), J)), ('c', sub(C(3), J))], AM, o(ii, col), sub(M(ii, col), mul(M(ii, J), M(J, col)))),
             ('right elimination', pre + [('r', sub(C(2), J))], BV, scale(ii, 8), sub(ld(BV, scale(ii, 8)), mul(M(ii, J), ld(BV, scale(J, 8))))),
             ('substitution', back, BV, scale(br, 8), sub(ld(BV, scale(br, 8)), mul(ld(BV, scale(bi, 8)), M(br, bi))))]
    for nm, lp, bs, off, v in specs:
        s = next((s for s in left if kern.fit(s, Spec(nm, lp, bs, off, v))), None)
        if s is not None:
            left.remove(s)
            found[nm] = s
    merged = ('scaling' not in found, 'right scaling' not in found)
    if len(inn) != 9 + 0:
        return T.skip('stores', '%d stores' % len(inn))
    for nm, *_ in specs:
        if nm in found:
            T(nm, True, found[nm].ins, '')
        else:
            T(nm, False, left[0].ins, 'the equations are solved by elimination: no step of the code is the %s: %s' % (nm, left[0].show()[:300]))
    if left:
        return

    def values(s):
        out = []
        for v in kern_deps(f, s.ins.ops[:1]):
            if getattr(v, 'op', None) == 'load':
                try:
                    out.append((v, *E.addr_at(v.ops[0], v.block)))
                except alg.Unknown:
                    pass
        return out
    F_ = found
    for a, c_ in (('exchange 1', 'exchange 2'), ('right exchange 1', 'right exchange 2')):
        first, second = (F_[a], F_[c_]) if kern.before(E, F_[a].ins, F_[c_].ins) else (F_[c_], F_[a])
        T('%s order' % a, all(kern.before(E, v, first.ins) for v, _, _ in values(second)), second.ins, 'the value exchanged is read before it is overwritten')
    for a, c_ in (('exchange 2', 'scaling'), ('right exchange 2', 'right scaling'), ('exchange 1', 'scaling'), ('right exchange 1', 'right scaling'), ('scaling', 'elimination'), ('right scaling', 'right elimination'),
                  ('elimination', 'substitution'), ('right elimination', 'substitution')):
        T('%s before %s' % (a, c_), kern.before(E, F_[a].ins, F_[c_].ins), F_[c_].ins, 'the steps of the elimination are in order')
    e = F_['elimination']
    hc = e.chain[-1][0]
    for s in (e, F_['right elimination']):
        lds = [v for v, b_, o_ in values(s) if b_ == AM and not any(hc == a[1] for a in scev.deep_atoms(o_) if a[0] == 'it')]
        T('%s factor' % ('matrix' if s is e else 'right'), bool(lds) and all(v.block not in f.loops[hc] and not kern.before(E, e.ins, v) for v in lds), s.ins, 'the factor of the elimination is read before the elimination overwrites it')
    for s in al[AM] + al[BV]:
        T('set up %s' % s.ins.id, kern.before(E, s.ins, F_['exchange 1'].ins), s.ins, 'the equations are set up before they are solved')
    # the pivot
    ph = [p for p in f.blocks[g] if p.op == 'phi' and p.ty != 'ptr']
    upd = {}
    try:
        for p in ph:
            n = [(o_, q_) for o_, q_ in p.inc if q_ in f.loops[g]]
            i = [(o_, q_) for o_, q_ in p.inc if q_ not in f.loops[g]]
            if len(n) == 1 and len(i) == 1:
                upd[p.id] = (E.at(*i[0]), E.at(*n[0]))
        cnt = E.exit_it(g)
    except alg.Unknown as x:
        return T.skip('pivot', str(x)[:100])
    T('pivot candidates', cnt is not None and same(cnt, sub(C(3), j)), f.vals[row[1]], 'the pivot is looked for in all remaining rows')
    best = [p for p in upd if p not in (row[1], val[1] if val else None) and not same(upd[p][1], {}) and any(a == ('v', p) for a in scev.deep_atoms(upd[p][1]))]
    if len(best) != 1:
        return T.skip('pivot', '%d variables' % len(best))
    best = best[0]
    T('pivot start', same(upd[best][0], {}), f.vals[best], 'the search for the pivot starts from zero')
    bad = None
    try:
        for jj in (0, 1):
            for n in (0, 1):
                for a in (5, -5, 2, -2, 3, -3):
                    e = {('it', hj): jj, ('it', g): n, ('v', best): 3, row: 77}
                    if val:
                        e[val] = 78
                    e['load'] = lambda b_, o_: Fr(a) if b_ == AM and o_ == 32 * jj + 8 * n else (Fr(1000) if b_ == AM else None)
                    r = [spec.num(upd[x][1], dict(e)) for x in ([best, row[1], val[1]] if val else [best, row[1]])]
                    w = ([abs(a), jj + n, a] if abs(a) > 3 else [3, 77, 78])[:len(r)]
                    if r != w and not (abs(a) == 3 and r == [3, jj + n, a][:len(r)]):
                        bad = 'entry %s after %s: %s' % (a, 3, r)
        T('pivot', bad is None, f.vals[best], 'the pivot is the entry of largest modulus: %s' % bad)
    except alg.Unknown as x:
        T.skip('pivot', str(x)[:100])
    # a singular system leaves the position where it is
    Z = [s for s in sts if s.base == BV and len(s.chain) == 2 and same(s.val, {})]
    after = [t for q_ in f.loops[g] for t in (getattr(f.blocks[q_][-1], 'succ', None) or []) if t not in f.loops[g]]
    if sorted(alg.cval(s.off) if alg.is_const(s.off) else -1 for s in Z) != [0, 8, 16] or len({s.ins.block for s in Z}) != 1 or len(set(after)) != 1:
        return T.skip('singular', '%d stores' % len(Z))
    cE = sd.Cached(E)
    for v, want in ((Fr(9, 10 ** 11), True), (Fr(0), True), (Fr(11, 10 ** 11), False), (Fr(1), False)):
        e = {('v', best): v}
        if val:
            e[val] = -v
        r = sd.walk(cE, after[0], {Z[0].ins.block}, {F_['exchange 1'].ins.block, hj}, e)
        if len(r) != 1:
            T.skip('singular %s' % v, 'undecided')
        else:
            T('singular %s' % float(v), r == {want}, Z[0].ins, 'the offset is zero exactly when the equations are singular')


def kern_deps(f, ops):
    import c41
    return c41.deps(f, ops)
