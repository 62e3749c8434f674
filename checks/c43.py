"""C43: local binary patterns: table, patterns, interpolation and normalisation are those documented, for every image."""
import itertools
import ir, alg, report, kern, build, spec, nat, scev
from alg import C, A, add, sub, mul, scale, fn, same, freeze, thaw
from kern import ld, I, SUM, Spec
from spec import Obl, P

RULE = ('the mapping table in closed form, evaluated for all 256 patterns and both storage orders, against the definition of uniform patterns; the pattern of a pixel for all outcomes of its eight comparisons '
        '(ties included); address, weight and condition of every contribution to a cell for all positions of the pixel relative to the grid; normalisation in closed form')
DEBUG = False
guard = spec.guarded(lambda: DEBUG)
H = 'vl/lbp.h'


def table(transposed):
    """definition: the run of ones of length j that starts at neighbor i (E, SE, S, ... in storage order) has code 7 i + j - 1"""
    t = [57] * 256
    t[0] = t[255] = 56
    for i in range(8):
        for j in range(1, 8):
            bits = [(i + k) % 8 for k in range(j)]
            if transposed:
                bits = [(2 - b) % 8 for b in bits]      # E <-> S, NE <-> SW, ...
            t[sum(1 << b for b in bits)] = 7 * i + j - 1
    return t


def mapping(rep, m, off, K):
    f = m.F('vl_lbp_new')
    E = spec.scev_of(f, m)
    T = Obl(rep, 'mapping', 'vl_lbp_new')
    r = [i for i in f.instrs if i.op == 'ret']
    c = spec.calls(f, 'vl_malloc')
    if len(c) != 1:
        return T.skip('object', '%d allocations' % len(c))
    me = ('call', c[0].id)
    sts = [s for s in kern.stores(E) if s.base == me]
    rep.count('stores', len(sts))
    dim = [s for s in sts if same(s.off, off['dimension'])]
    T('dimension', len(dim) == 1 and same(dim[0].val, C(58)), dim[0].ins if dim else f, 'there are 58 codes')
    tr = [s for s in sts if same(s.off, off['transposed'])]
    T('storage order', len(tr) == 1 and same(tr[0].val, A('arg', 1)), tr[0].ins if tr else f, 'the object remembers whether images are transposed')
    tab = [s for s in sts if s not in dim and s not in tr]
    for i in f.instrs:
        if i.op == 'call' and (i.callee_name() or '').startswith('llvm.memset'):
            b, o = E.addr_at(i.ops[0], i.block)
            if b == me:
                n = E.at(i.ops[2], i.block)
                hs = kern.chain_of(E, i.block) + [('bytes', n)]
                tab.append(kern.Store(i, b, add(o, A('it', 'bytes')), E.at(i.ops[1], i.block), hs, E.leave_psum(kern.guard_of(E, i.block), i.block), None))
    # the order in which entries are written
    order = []
    for s in tab:
        k = 0
        while k < len(order) and kern.before(E, order[k].ins, s.ins):
            k += 1
        order.insert(k, s)
    o0 = alg.cval(off['mapping'])
    for transposed in (0, 1, 2):
        env = {'call1': lambda a: None, 'callv': lambda a: 4096, ('arg', 0): K['VlLbpUniform'], ('arg', 1): transposed,
               'load': lambda b, o: transposed if b == me and o == alg.cval(off['transposed']) else None}
        t = {}
        for s in order:
            ns = [n for _, n in s.chain]
            if any(n is None for n in ns):
                return T.skip('table', 'loops')
            hs = [h for h, _ in s.chain]

            def go(k, e):
                if k == len(hs):
                    if s.guard is not None and spec.num(s.guard, e) == 0:
                        return
                    x = spec.num(s.off, e) - o0
                    t[int(x)] = int(spec.num(s.val, e))
                    return
                for i in range(int(spec.num(ns[k], e))):
                    e2 = dict(e)
                    e2[('it', hs[k])] = i
                    go(k + 1, e2)
            go(0, env)
        want = table(bool(transposed))
        bad = [k for k in range(256) if t.get(k) != want[k]]
        rep.count('patterns', 256)
        T('table%s' % (' transposed' if transposed else '') + (' (any true value)' if transposed == 2 else ''), not bad and set(t) == set(range(256)), order[-1].ins,
          'code of pattern %s is %s, should be %s (%d patterns)' % (format(bad[0], '08b') if bad else '', t.get(bad[0]) if bad else '', want[bad[0]] if bad else '', len(bad)))


def process(rep, m, off):
    f = m.F('vl_lbp_process')
    E = spec.scev_of(f, m)
    w, h, c = (A('arg', k) for k in (3, 4, 5))
    cw, ch = fn('udiv', w, c), fn('udiv', h, c)
    cs = mul(cw, ch)
    img = lambda x, y: ld(('arg', 2), scale(add(x, mul(w, y)), 4))
    out = ('arg', 1)
    T = Obl(rep, 'patterns', 'vl_lbp_process')
    sts = [s for s in kern.stores(E, guards=False) if s.base == out]
    rep.count('stores', len(sts))
    acc = [s for s in sts if len(s.chain) == 2]
    nrm = [s for s in sts if len(s.chain) == 3]
    if len(acc) != 4 or len(nrm) != 1 or len(sts) != 5:
        return T.skip('contributions', '%d and %d stores' % (len(acc), len(nrm)))
    dims = ld(('arg', 0), off['dimension'])
    # normalisation
    k, x, y = I('k'), I('x'), I('y')
    at = lambda k: ld(out, scale(add(add(mul(k, cs), mul(y, cw)), x), 4))
    n = nrm[0]
    N = Obl(rep, 'normalisation', 'vl_lbp_process')
    val = mul(fn('sqrt', at(k)), alg.inv(add(fn('sqrt', SUM(at, dims)), C(alg.Fraction('1e-10')))))
    n2 = kern.Store(n.ins, n.base, n.off, spec.rnd(n.val), n.chain, None, None)
    N('square root of the normalised histogram', kern.fit(n2, Spec('n', [('y', ch), ('x', cw), ('k', dims)], out, scale(add(add(mul(k, cs), mul(y, cw)), x), 4), spec.rnd(val))), n.ins,
      'each entry is the square root of its share of the histogram of the cell: %s' % n.show()[:400]) if kern.recognised(n, spec.VOC) else N.skip('value', n.show()[:300])
    for p in spec.sumphis(E, n.ins.ops[0], n.ins.block):
        N('sum first', kern.before(E, p, n.ins), n.ins, 'the histogram is summed before its entries change')
    N('after all contributions', all(kern.before(E, s.ins, n.ins) for s in acc), n.ins, 'cells are normalised when they are complete')
    # cleared
    ms = [i for i in f.instrs if i.op == 'call' and (i.callee_name() or '').startswith('llvm.memset')]
    if len(ms) == 1:
        st = spec.callst(E, ms[0], (0, 1, 2))
        T('cleared', same(st.val, fn('args', P(out), {}, scale(mul(dims, cs), 4))) and all(kern.before(E, ms[0], s.ins) for s in acc), ms[0], 'the whole output is cleared first: %s' % st.show()[:200])
    elif not ms and not spec.calls(f, 'memset'):
        T('cleared', False, f, 'the output is not cleared')
    # contributions
    hs = [q for q, _ in acc[0].chain]
    if any([q for q, _ in s.chain] != hs for s in acc):
        return T.skip('contributions', 'loops')
    cnt = [q for _, q in acc[0].chain]
    hh, ww = sub(h, C(2)), sub(w, C(2))
    if same(cnt[0], hh) and same(cnt[1], ww):
        iy, ix = hs
    elif same(cnt[1], hh) and same(cnt[0], ww):
        ix, iy = hs
    else:
        return T('inner pixels', False, acc[0].ins, 'all pixels but those of the border are visited: %s' % [alg.show(q) if q is not None else '?' for q in cnt]) if all(q is not None for q in cnt) else T.skip('loops', '')
    T('inner pixels', True, f, '')
    # one way through the loops or the other
    px, py = add(I('x'), C(1)), add(I('y'), C(1))
    nb = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)]
    half = alg.Fraction(1, 2)
    pos = lambda p: sub(mul(add(p, C(half)), alg.inv(c)), C(half))
    best = None
    for ry in (0, 1):
        for rx in (0, 1):
            mp = {('it', iy): sub(sub(hh, C(1)), I('y')) if ry else I('y'), ('it', ix): sub(sub(ww, C(1)), I('x')) if rx else I('x')}
            r = contributions(rep, E, acc, mp, px, py, img, nb, pos, cw, ch, cs, off, out)
            if best is None or len([1 for q in r if not q[1]]) < len([1 for q in best if not q[1]]):
                best = r
            if all(q[1] for q in r):
                break
        else:
            continue
        break
    for what, good, loc, msg in best:
        (T if what.startswith('pattern') else Obl(rep, 'interpolation', 'vl_lbp_process'))(what, good, loc, msg)


def contributions(rep, E, acc, mp, px, py, img, nb, pos, cw, ch, cs, off, out):
    res = []
    X, Y = fn('floor', pos(px)), fn('floor', pos(py))
    aX, aY = (next(iter(p))[0][0] for p in (X, Y))
    rx, ry = sub(pos(px), X), sub(pos(py), Y)
    seen = {}
    memo = {}
    for s in acc:
        o = spec.sub_(s.off, mp)
        v = spec.sub_(s.val, mp)
        # the code of the pixel
        codes = {a for m_ in o for a, _ in m_ if a[0] == 'ld' and a[1] == ('arg', 0) and not same(thaw(a[2]), off['dimension'])}
        if len(codes) != 1:
            raise alg.Unknown('%d codes' % len(codes))
        code = codes.pop()
        q = spec.sub_(o, {code: A('sym', 'bin')})
        cell = sub(q, scale(mul(cs, A('sym', 'bin')), 4))
        hit = next(((a, b) for a in (0, 1) for b in (0, 1) if same(cell, scale(add(add(X, C(a)), mul(cw, add(Y, C(b)))), 4))), None)
        if hit is None or hit in seen:
            res.append(('cell at %s' % s.ins.loc(), False, s.ins, 'a contribution goes to none of the four nearest cells (or twice to one): %s' % alg.show(cell)[:300]))
            continue
        seen[hit] = s
        a, b = hit
        nm = 'cell (+%d, +%d)' % hit
        wgt = mul(rx if a else sub(C(1), rx), ry if b else sub(C(1), ry))
        res.append((nm + ' weight', same(sub(v, ld(out, o)), wgt), s.ins, 'the contribution to cell %s is weighted bilinearly: %s' % (hit, alg.show(sub(v, ld(out, o)))[:300])))
        g = spec.sub_(E.leave_psum(kern.when(E, s.ins.block), s.ins.block), mp)
        bad = None
        W_, H_ = (add(C(4), nat.S(t)) for t in 'wh')
        cwa, cha = next(iter(cw))[0][0], next(iter(ch))[0][0]
        some = lambda n: [C(-1), {}, C(1), sub(n, C(2)), sub(n, C(1)), n]
        for i, xx in enumerate(some(W_)):
            for j, yy in enumerate(some(H_)):
                e = nat.settle(spec.sub_(g, {aX: xx, aY: yy, cwa: W_, cha: H_}))
                want = (0 <= i - 1 + a if i < 3 else True) and (i - 5 + a < 0 if i >= 3 else True)
                wnty = (0 <= j - 1 + b if j < 3 else True) and (j - 5 + b < 0 if j >= 3 else True)
                if not alg.is_const(e):
                    raise alg.Unknown('condition %s' % alg.show(e)[:200])
                if bool(alg.cval(e)) != (want and wnty):
                    bad = bad or (alg.show(xx), alg.show(yy))
        res.append((nm + ' condition', bad is None, s.ins, 'the contribution to cell %s is made exactly when the cell exists (wrong at nearest cell %s of a grid of 4+w by 4+h)' % (hit, bad)))
        # the pattern
        key = code[2]
        if key not in memo:
            memo[key] = pattern(thaw(key), px, py, img, nb, off)
        good, msg = memo[key]
        res.append(('pattern (+%d, +%d)' % hit, good, s.ins, msg))
    res.append(('four cells', len(seen) == 4, acc[0].ins, 'a pixel contributes to its four nearest cells'))
    return res


def pattern(idx, px, py, img, nb, off):
    idx = sub(idx, off['mapping'])
    cen = next(iter(img(px, py)))[0][0]
    ns = [next(iter(img(add(px, C(a)), add(py, C(b)))))[0][0] for a, b in nb]
    other = [a for a in scev.deep_atoms(idx) if a[0] == 'ld' and a != cen and a not in ns]
    if other:
        return False, 'the pattern of a pixel depends on a value that is not one of its eight neighbors: %s' % alg.show({((other[0], 1),): alg.Fraction(1)})[:200]
    signs = list(itertools.product((1, -1), repeat=8))
    signs += [tuple(0 if k == i else v for k in range(8)) for i in range(8) for v in (1, -1)] + [(0,) * 8]
    for sg in signs:
        env = {cen: 0}
        env.update(zip(ns, sg))
        v = spec.num(idx, env)
        want = sum(1 << k for k in range(8) if sg[k] > 0)
        if v != want:
            return False, 'neighbors (E, SE, S, SW, W, NW, N, NE) compared with the pixel as %s give pattern %s, should be %s' % (sg, format(int(v), '08b'), format(want, '08b'))
    return True, ''


def run():
    rep = report.Report('C43', RULE, 'closed-form value graph of the compiled source evaluated over all patterns and grid positions')
    m = ir.libm()
    off = spec.offsets(H, 'VlLbp', ['dimension', 'mapping', 'transposed'])
    K = build.constants(H, ['VlLbpUniform'])
    if not off or not K:
        rep.skip('layout', 'VlLbp', 'members')
        return rep
    guard(rep, mapping, m, off, K)
    guard(rep, process, m, off)
    rep.floor('obligations', len(rep.obl), 8)
    return rep
