"""C34: vl_gaussian_elimination, vl_solve_linear_system_2/3, vl_svd2 and vl_lapack_dlasv2 compute what they are documented to compute."""
import ir, alg, report, scev, kern
from ir import const_int
from alg import C, A, add, sub, mul, scale, NOT, eq0, gt0, sel, fn, same, absv, inv, freeze
from kern import I, ld, Spec
from fractions import Fraction as Q

RULE = ('closed forms (address, value, iteration space) of every store of the elimination, pivot-search recurrence by its loop-carried values, exact data flow of the copies into and out of the augmented matrix, '
        'value-graph identities of the factors written by vl_svd2 and of the cases of vl_lapack_dlasv2 cut at its merge points')


def gauss(rep, m):
    f = m.F('vl_gaussian_elimination')
    if f is None or len(f.args) != 3:
        rep.skip('elimination', 'vl_gaussian_elimination', 'not defined')
        return
    E = kern.forwarding(scev.Scev(f))
    a, n, q = ('arg', 0), A('arg', 1), A('arg', 2)

    def at(r, c):
        return scale(add(r, mul(c, n)), 8)
    try:
        sts = kern.stores(E, want=lambda b: b == a, guards=False)
    except alg.Unknown as e:
        rep.skip('elimination', 'vl_gaussian_elimination', str(e))
        return
    # the pivot row and value: loop-carried values of the search loop
    vs = {x for s in sts for p in (s.off, s.val) for x in scev.deep_atoms(p) if x[0] == 'v'}
    hs = {f.vals[x[1]].block for x in vs if f.vals[x[1]].op == 'phi'}
    if len(hs) != 1 or not all(f.vals[x[1]].op == 'phi' for x in vs):
        rep.skip('elimination', 'vl_gaussian_elimination', 'pivot search')
        return
    h = next(iter(hs))
    outer = [x for x in f.loops if h in f.loops[x] and x != h]
    if h not in f.loops or len(outer) != 1:
        rep.skip('elimination', 'vl_gaussian_elimination', 'pivot search loop')
        return
    J = A('it', outer[0])
    cnt = E.exit_it(h)
    X = E.inner(h)
    phis = [v for v in f.blocks[h] if v.op == 'phi']
    # closed-form phis (the row index) are substituted by their closed form
    idx = {v.id: E.close(v) for v in phis}
    def cf(p):
        return scev.mapatoms(p, lambda x: idx[x[1]][1] if x[0] == 'v' and idx.get(x[1]) else None)
    free = [v for v in phis if not idx[v.id]]
    nxt = {}
    ini = {}
    try:
        for v in free:
            ins = [o for o, p in v.inc if p in f.loops[h]]
            outs = [o for o, p in v.inc if p not in f.loops[h]]
            bl = [p for o, p in v.inc if p in f.loops[h]]
            nxt[v.id] = cf(X.at(ins[0], bl[0]))
            ini[v.id] = E.at(outs[0], [p for o, p in v.inc if p not in f.loops[h]][0])
    except alg.Unknown as e:
        rep.skip('elimination', 'pivot search', str(e))
        return
    rowit = [v for v in phis if idx[v.id] and v.ty in ('i64', 'i32')]
    it = A('it', h)
    cell = ld(a, at(add(J, it), J))
    # which loop-carried value plays which part
    best = row = mag = None
    for v in free:
        t = A('v', v.id)
        for w in free:
            c = gt0(sub(absv(cell), A('v', w.id)))
            if same(nxt[v.id], sel(c, absv(cell), t)) and v is w:
                mag = v
    if mag is None:
        # |best| compared instead of a separate magnitude
        for v in free:
            t = A('v', v.id)
            if same(nxt[v.id], sel(gt0(sub(absv(cell), absv(t))), cell, t)):
                mag = best = v
    loc = (free or phis or [f.instrs[0]])[0].loc()
    known = all(x[0] in ('ld', 'it', 'arg', 'v', 'eq0', 'gt0', 'fn', 'abs', 'base') for v in free for x in scev.deep_atoms(nxt[v.id]))
    if mag is None:
        if known and len(free) == 3:
            rep.bad('elimination', 'pivot search', loc, 'the pivot search does not keep the element of largest modulus of column j among rows j..: %s' % '; '.join(alg.show(nxt[v.id])[:160] for v in free), key='pivot:max')
        else:
            rep.skip('elimination', 'pivot search', 'recurrence: ' + '; '.join(alg.show(nxt[v.id])[:160] for v in free))
        return
    m0 = A('v', mag.id)
    c = gt0(sub(absv(cell), absv(m0) if best is mag else m0))
    for v in free:
        t = A('v', v.id)
        if v is mag:
            continue
        if same(nxt[v.id], sel(c, cell, t)):
            best = v
        elif same(nxt[v.id], sel(c, add(J, it), t)):
            row = v
    rep.check('elimination', 'pivot search range', cnt is not None and same(cnt, sub(n, J)), loc, 'the pivot search covers %s rows instead of numRows - j' % (alg.show(cnt) if cnt is not None else '?'), key='pivot:range')
    rep.check('elimination', 'pivot search start', alg.is_const(ini[mag.id]) and (-1 <= alg.cval(ini[mag.id]) <= 0), loc, 'the pivot search starts from a modulus of %s' % alg.show(ini[mag.id]), key='pivot:start')
    rep.check('elimination', 'pivot value and row', best is not None and row is not None, loc, 'the pivot search does not record the value and the row of the largest element together', key='pivot:rec')
    if best is None or row is None:
        return
    P, R = A('v', best.id), A('v', row.id)
    j, k, i = I('j'), I('k'), I('i')
    cc = add(j, k)
    sp = [Spec('swap (pivot row receives row j)', [('j', n), ('k', sub(q, j))], a, at(R, cc), ld(a, at(j, cc)), rev=False),
          Spec('swap (row j receives the pivot row)', [('j', n), ('k', sub(q, j))], a, at(j, cc), ld(a, at(R, cc)), rev=False),
          Spec('normalisation of the pivot row', [('j', n), ('k', sub(q, j))], a, at(j, cc), [mul(ld(a, at(j, cc)), inv(P)), mul(ld(a, at(R, cc)), inv(P))], rev=False)]
    r = add(add(j, i), C(1))
    el = [Spec('elimination', [('j', n), ('i', sub(sub(n, j), C(1))), ('k', sub(q, j))], a, at(r, cc), sub(ld(a, at(r, cc)), mul(ld(a, at(r, j)), ld(a, at(j, cc))))),
          Spec('elimination', [('j', n), ('i', sub(sub(n, j), C(1))), ('k', sub(sub(q, j), C(1)))], a, at(r, add(cc, C(1))), sub(ld(a, at(r, add(cc, C(1)))), mul(ld(a, at(r, j)), ld(a, at(j, add(cc, C(1)))))))]
    bi = sub(sub(n, C(1)), j)
    bk = sub(sub(bi, C(1)), i)
    rhs = add(n, k)
    bs = [Spec('back substitution', [('j', sub(n, C(1))), ('i', bi), ('k', sub(q, n))], a, at(bk, rhs), sub(ld(a, at(bk, rhs)), mul(ld(a, at(bk, bi)), ld(a, at(bi, rhs))))),
          Spec('back substitution', [('j', sub(n, C(1))), ('i', bi), ('k', sub(q, j))], a, at(bk, add(bi, k)), sub(ld(a, at(bk, add(bi, k))), mul(ld(a, at(bk, bi)), ld(a, at(bi, add(bi, k))))))]
    el = next((e for e in el if any(kern.fit(s, e) for s in sts)), el[0])
    bs = next((e for e in bs if any(kern.fit(s, e) for s in sts)), bs[0])
    inplace = [s for s in sts if kern.fit(s, sp[2])]
    # a fused swap and normalisation writes row j once
    if not any(kern.fit(s, sp[1]) for s in sts) and inplace and any(same(s.val, mul(v, inv(P))) for s in inplace for v in [ld(a, s.off)]) is False:
        sp.pop(1)
    kern.compare(rep, 'elimination', 'vl_gaussian_elimination', f.loc(), sts, sp + [el, bs], vocab=kern.KNOWN | {'v'})
    # the multiplier is read before the row it belongs to is overwritten
    for s, spec in [(s, e) for s in sts for e in (el, bs) if kern.fit(s, e)]:
        inner = s.chain[-1][0]
        st, seen, bad = [s.ins.ops[0]], set(), None
        cols = set()
        for o in walk(f, s.ins.ops[0]):
            if o.op != 'load' or o.block not in f.loops[inner]:
                continue
            b, off = E.addr_at(o.ops[0], o.block)
            if b == a and ('it', inner) not in scev.deep_atoms(off):
                # invariant element read inside the loop: overwritten by it?
                first = {('it', inner): C(0)}
                w = scev.mapatoms(s.off, lambda x: C(0) if x == ('it', inner) else None)
                if same(w, off):
                    bad = o
        rep.check('elimination', spec.name + ': multiplier', bad is None, (bad or s.ins).loc(), 'the multiplier of the row operation is read from the row while the row is being overwritten', key='mult:' + spec.name)
    # order within an iteration: the rows are exchanged before the pivot row is used
    seq = [next((x.name for x in sp + [el, bs] if kern.fit(s, x)), None) for s in sts]
    if 'elimination' in seq and 'normalisation of the pivot row' in seq:
        a0 = sts[seq.index('normalisation of the pivot row')].chain[-1][0]
        b0 = sts[seq.index('elimination')].chain[-2][0]
        rep.check('elimination', 'order of the steps', f.dominates(a0, b0), f.loc(), 'rows are eliminated before the pivot row is normalised', key='order')
    mags = [v for v in free if v is mag or same(nxt[v.id], sel(c, absv(cell), A('v', v.id)))]
    singular(rep, f, E, h, mags, outer[0])


def walk(f, o, seen=None):
    """instructions the operand is computed from, loop-carried values not followed"""
    out, st, seen = [], [o], set()
    while st:
        x = st.pop()
        if not isinstance(x, int) or x in seen:
            continue
        seen.add(x)
        v = f.vals[x]
        out.append(v)
        if v.op == 'phi' and v.block in f.loops:
            continue
        if v.op == 'load':
            continue
        st += [y for y, _ in v.inc] if v.op == 'phi' else [y for y in v.ops if isinstance(y, int)]
    return out


def singular(rep, f, E, h, mags, outer):
    """after the search: a pivot below a tiny positive bound makes the function return non-zero before any division"""
    ret = f.rets
    tests = []
    for b in f.blocks:
        t = b[-1]
        if t.op != 'br' or t.cond is None:
            continue
        c = f.val(t.cond) if isinstance(t.cond, int) else None
        if c is None or c.op != 'fcmp' or b[0].block not in f.loops[outer] or b[0].block in f.loops[h]:
            continue
        ops = []
        for o in c.ops:
            try:
                ops.append(E.one(o))
            except alg.Unknown:
                ops.append(None)
        if any(p is not None and alg.is_const(p) for p in ops) and any(p is not None and (same(p, A('v', g.id)) or same(p, absv(A('v', g.id)))) for p in ops for g in mags):
            k = 0 if not alg.is_const(ops[0]) else 1
            thr = alg.cval(ops[1 - k])
            pred = c.pred[1:]
            if k == 1:
                pred = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}[pred]
            small = {'lt': 0, 'le': 0, 'eq': 0, 'gt': 1, 'ge': 1, 'ne': 1}.get(pred)
            tests.append((b[-1].block, t.succ[small], t.succ[1 - small], thr, pred))
    loc = f.blocks[h][0].loc()
    divs = [i for i in f.instrs if i.op == 'fdiv']
    if not tests:
        rep.check('elimination', 'singular matrices', False, loc, 'no test rejects a vanishing pivot', key='singular:test')
        return
    b, small, big, thr, pred = tests[0]
    rep.check('elimination', 'singular matrices: bound', 0 <= thr <= Q(1, 10**6) and not (thr == 0 and pred == 'lt'), f.blocks[b][-1].loc(), 'pivots are rejected below %g' % float(thr), key='singular:bound')
    rep.check('elimination', 'singular matrices: before dividing', all(f.dominates(big, i.block) for i in divs if i.block in f.loops[outer]), f.blocks[b][-1].loc(), 'a vanishing pivot is divided by', key='singular:div')
    rep.check('elimination', 'singular matrices: leaves', small not in f.loops[outer] or all(s not in f.loops[outer] for s in f.succ[small]), f.blocks[b][-1].loc(), 'the elimination goes on after a vanishing pivot', key='singular:leave')
    # value returned along the early exit and at the end
    vals = retvals(f, small, b)
    rep.check('elimination', 'singular matrices: reported', vals and all(x is not None and x != 0 for x in vals), f.blocks[b][-1].loc(), 'a singular matrix is reported as %s' % vals, key='singular:ret')


def retvals(f, blk, frm):
    """constants returned when control goes from block frm to blk and straight on (merge points followed, branches on phi constants resolved)"""
    env, seen = {}, set()
    prev, cur = frm, blk
    for _ in range(60):
        for i in f.blocks[cur]:
            if i.op == 'phi':
                o = dict((p, x) for x, p in i.inc).get(prev)
                env[i.id] = const_int(o) if not isinstance(o, int) else env.get(o)
            elif i.op == 'ret':
                o = i.ops[0]
                return [const_int(o) if not isinstance(o, int) else env.get(o)]
            elif i.op == 'icmp' and env.get(i.ops[0]) is not None and const_int(i.ops[1]) is not None:
                x, y = env[i.ops[0]], const_int(i.ops[1])
                env[i.id] = int({'eq': x == y, 'ne': x != y}.get(i.pred, False)) if i.pred in ('eq', 'ne') else None
        t = f.blocks[cur][-1]
        if t.op == 'switch':
            x = env.get(t.cond)
            if x is None:
                return []
            nx = next((b for k, b in t.cases if int(k) == x), t.default)
        elif t.cond is None:
            nx = t.succ[0]
        else:
            x = env.get(t.cond)
            if x is None:
                return []
            nx = t.succ[0] if x else t.succ[1]
        prev, cur = cur, nx
    return []


def systems(rep, m):
    for n in (2, 3):
        name = 'vl_solve_linear_system_%d' % n
        f = m.F(name)
        if f is None:
            rep.skip('linear systems', name, 'not defined')
            continue
        E = scev.Scev(f)
        cs = [c for c in f.calls() if c.callee_name() == 'vl_gaussian_elimination']
        if len(cs) != 1:
            rep.skip('linear systems', name, 'calls')
            continue
        c = cs[0]
        try:
            mb, mo = E.addr_at(c.ops[0], c.block)
            rows, cols = (E.at(o, c.block) for o in c.ops[1:3])
            rep.check('linear systems', name + ' size', same(rows, C(n)) and same(cols, C(n + 1)), c.loc(), '%s solves a %s x %s system' % (name, alg.show(rows), alg.show(cols)), key=name + ':size')
            src, out = {}, {}
            copies = [i for i in f.calls() if (i.callee_name() or '').startswith('llvm.memcpy') or i.callee_name() in ('memcpy', 'memmove')]
            for i in copies:
                b, o = E.addr_at(i.ops[0], i.block)
                sb, so = E.addr_at(i.ops[1], i.block)
                l = const_int(i.ops[2])
                if not alg.is_const(o) or not alg.is_const(so) or l is None:
                    raise alg.Unknown('copy')
                for k in range(0, l, 8):
                    (src if b == mb else out if b == ('arg', 0) else {})[alg.cval(o) + k] = (sb, alg.cval(so) + k, i)
            for s in kern.stores(E, guards=False):
                ks = expand(s)
                for off, val in ks:
                    at = [a for mm in val for a, _ in mm]
                    v = None
                    if len(val) == 1 and len(at) == 1 and at[0][0] == 'ld' and list(val.values())[0] == 1:
                        v = (at[0][1], alg.cval(alg.thaw(at[0][2])), s.ins)
                    (src if s.base == mb else out if s.base == ('arg', 0) else {})[off] = v
        except (alg.Unknown, ValueError) as e:
            rep.skip('linear systems', name, str(e))
            continue
        for k in range(n * (n + 1)):
            want = (('arg', 1), 8 * k) if k < n * n else (('arg', 2), 8 * (k - n * n))
            g = src.get(8 * k)
            rep.check('linear systems', '%s entry %d' % (name, k), g is not None and g[:2] == want and comesbefore(f, g[2], c), (g[2] if g else c).loc(), '%s: entry %d of the augmented matrix is not %s' % (name, k, 'A[%d]' % k if k < n * n else 'b[%d]' % (k - n * n)), key='%s:M%d' % (name, k))
        for k in range(n):
            g = out.get(8 * k)
            rep.check('linear systems', '%s solution %d' % (name, k), g is not None and g[:2] == (mb, 8 * (n * n + k)) and comesbefore(f, c, g[2]), (g[2] if g else c).loc(), '%s: x[%d] is not taken from the last column of the reduced matrix' % (name, k), key='%s:x%d' % (name, k))
        if len(f.rets) == 1:
            o = f.rets[0].ops[0]
            rep.check('linear systems', name + ' error', o == c.id or (isinstance(o, int) and c.id in [x.id for x in walk(f, o)]), f.rets[0].loc(), '%s does not return the result of the elimination' % name, key=name + ':err')


def comesbefore(f, i, j):
    if i.block == j.block:
        return f.instrs.index(i) < f.instrs.index(j)
    return any(f.dominates(x, j.block) and j.block not in f.loops.get(x, ()) or x == i.block and f.dominates(x, j.block) for x in [i.block] + [h for h in f.loops if i.block in f.loops[h]])


def expand(s):
    """store in constant-trip loops as (offset, value) pairs"""
    envs = [{}]
    for h, n in s.chain:
        if n is None:
            raise alg.Unknown('loop')
        out = []
        for e in envs:
            k = scev.mapatoms(n, lambda a: e.get(a))
            if not alg.is_const(k):
                raise alg.Unknown('loop count')
            for x in range(int(alg.cval(k))):
                out.append(dict(e, **{}) | {('it', h): C(x)})
        envs = out
    r = []
    for e in envs:
        off = scev.mapatoms(s.off, lambda a: e.get(a))
        val = scev.mapatoms(s.val, lambda a: e.get(a))
        if not alg.is_const(off):
            raise alg.Unknown('offset')
        r.append((alg.cval(off), val))
    return r


def svd2(rep, m):
    f = m.F('vl_svd2')
    if f is None:
        rep.skip('2x2 SVD', 'vl_svd2', 'not defined')
        return
    E = scev.Scev(f)
    cs = [c for c in f.calls() if c.callee_name() == 'vl_lapack_dlasv2']
    if len(cs) != 1:
        rep.skip('2x2 SVD', 'vl_svd2', 'calls')
        return
    c = cs[0]
    M = [ld(('arg', 3), C(8 * k)) for k in range(4)]
    nrm = fn('sqrt', add(mul(M[0], M[0]), mul(M[1], M[1])))
    try:
        fgh = [E.at(o, c.block) for o in c.ops[6:9]]
        res = [E.addr_at(o, c.block) for o in c.ops[:6]]
        pos = gt0(nrm)
        n2 = lambda p: p
        cu, su = sel(pos, mul(M[0], inv(nrm)), C(1)), sel(pos, mul(M[1], inv(nrm)), {})
        want = [add(mul(cu, M[0]), mul(su, M[1])), add(mul(cu, M[2]), mul(su, M[3])), sub(mul(cu, M[3]), mul(su, M[2]))]
        for nm, g, w in zip('fgh', fgh, want):
            rep.check('2x2 SVD', 'triangular factor ' + nm, same(g, w) or (nm == 'f' and same(g, nrm)), c.loc(), 'vl_svd2: entry %s of the triangular factor is %s' % (nm, alg.show(g)[:200]), key='svd2:' + nm)
        if any(not b or b[0] != 'alloca' or not alg.is_const(o) for b, o in res) or len(set((b, freeze(o)) for b, o in res)) != 6:
            rep.skip('2x2 SVD', 'results', 'where the results of vl_lapack_dlasv2 go')
            return
        smin, smax, sv, cv, su2, cu2 = (ld(b, o) for b, o in res)
        outs = {}
        for s in kern.stores(E, want=lambda b: b in (('arg', 0), ('arg', 1), ('arg', 2))):
            if not alg.is_const(s.off):
                raise alg.Unknown('store')
            outs[(s.base[1], int(alg.cval(s.off)) // 8)] = s
        spec = {(0, 0): smax, (0, 1): {}, (0, 2): {}, (0, 3): smin,
                (1, 0): sub(mul(cu, cu2), mul(su, su2)), (1, 1): add(mul(su, cu2), mul(cu, su2)),
                (1, 2): scale(add(mul(cu, su2), mul(su, cu2)), -1), (1, 3): sub(mul(cu, cu2), mul(su, su2)),
                (2, 0): cv, (2, 1): sv, (2, 2): scale(sv, -1), (2, 3): cv}
        for (k, e), w in spec.items():
            s = outs.get((k, e))
            nm = 'SUV'[k]
            rep.check('2x2 SVD', '%s[%d]' % (nm, e), s is not None and same(s.val, w), (s.ins if s else c).loc(), 'vl_svd2: %s[%d] is %s' % (nm, e, alg.show(s.val)[:200] if s else 'not written'), key='svd2:%s%d' % (nm, e))
            if s is not None and comesbefore(f, s.ins, c) and k != 0:
                rep.bad('2x2 SVD', '%s[%d] order' % (nm, e), s.ins.loc(), 'written before the decomposition is known', key='svd2:o%s%d' % (nm, e))
    except alg.Unknown as e:
        rep.skip('2x2 SVD', 'vl_svd2', str(e))


class Cut(alg.Eval):
    """every merge point is an unknown of its own"""

    def phi(self, v):
        if sum(1 for w in self.f.blocks[v.block] if w.op == 'phi') == 1:
            try:                                    # sign and modulus helpers
                ps = [self.one(o) for o, _ in v.inc]
                if all(alg.is_const(p) and abs(alg.cval(p)) == 1 for p in ps) or len(ps) == 2 and same(ps[0], scale(ps[1], -1)):
                    return super().phi(v)
            except alg.Unknown:
                pass
        return [A('v', v.id)]

    def call(self, v):
        n = v.callee_name() or ''
        if n.startswith('llvm.fabs') or n in ('fabs', 'vl_abs_d', 'hdr$vl_abs_d'):
            return [absv(self.one(v.ops[0]))]
        if n in ('sqrt', 'llvm.sqrt.f64', 'vl_sqrt_d'):
            return [fn('sqrt', self.one(v.ops[0]))]
        return super().call(v)


def leaves(f, v, seen=None):
    """(operand, block the arm comes from, block of the merge) for every arm of a web of merge points; undefined arms left out"""
    seen = set() if seen is None else seen
    if v.id in seen:
        return []
    seen.add(v.id)
    out = []
    for o, p in v.inc:
        if isinstance(o, list) and o[0] == 'undef':
            continue
        if isinstance(o, int) and f.vals[o].op == 'phi':
            out += leaves(f, f.vals[o], seen)
        else:
            out.append((o, p, v.block))
    return out


def armed(f, E, p, s):
    """closest branch decision that leads into the edge p -> s: (condition polynomial)"""
    t = f.blocks[p][-1]
    if t.op == 'br' and t.cond is not None and t.succ[0] != t.succ[1]:
        return E.edge(p, s)
    x = p
    while True:
        ps = f.pred[x]
        if not ps:
            return None
        if len(ps) > 1:
            x = f.idom[x]
            continue
        t = f.blocks[ps[0]][-1]
        if t.op == 'br' and t.cond is not None and t.succ[0] != t.succ[1]:
            return E.edge(ps[0], x)
        x = ps[0]


def dlasv2(rep, m):
    f = m.F('vl_lapack_dlasv2')
    kd = 'triangular SVD'
    if f is None or len(f.args) != 9 or f.loops:
        rep.skip(kd, 'vl_lapack_dlasv2', 'not defined')
        return
    E = Cut(f)
    F, G, H = (A('arg', k) for k in (6, 7, 8))
    fa, ga, ha = absv(F), absv(G), absv(H)
    try:
        val = {v.id: leaves(f, v) for v in f.instrs if v.op == 'phi'}
        pol = {k: [E.one(o) for o, _, _ in l] for k, l in val.items()}
        # f and h exchanged so that |f| >= |h|
        role = {}
        sw = gt0(sub(ha, fa))
        for v in f.instrs:
            if v.op != 'phi' or len(v.inc) != 2:
                continue
            d = f.idom[v.block]
            try:
                conds = E.reach(d, v.block)
                arms = [(E.one(o), mul(conds[p], E.edge(p, v.block))) for o, p in v.inc if not (isinstance(o, list) and o[0] == 'undef')]
            except (alg.Unknown, KeyError):
                continue
            if len(arms) != 2 or not any(same(c, sw) for _, c in arms):
                continue
            (t, e) = [x for x, c in arms if same(c, sw)], [x for x, c in arms if same(c, NOT(sw))]
            if len(t) != 1 or len(e) != 1:
                continue
            t, e = t[0], e[0]
            for n, x, y in (('FT', H, F), ('HT', F, H), ('FA', ha, fa), ('HA', fa, ha), ('SW', C(1), {}), ('PM', C(3), C(1))):
                if same(t, x) and same(e, y):
                    role[n] = A('v', v.id)
        if len(set(role) - {'PM', 'SW'}) < 4:
            got = [v for v in f.instrs if v.op == 'phi' and same(armed(f, E, v.inc[0][1], v.block) or {}, sw)]
            rep.skip(kd, 'vl_lapack_dlasv2', 'exchange of f and h: found %s' % sorted(role))
            return
        for n in ('SW',):
            if n not in role:
                rep.skip(kd, 'vl_lapack_dlasv2', 'exchange flag ' + n)
                return
        FT, HT, FA, HA = role['FT'], role['HT'], role['FA'], role['HA']
        rep.ok(kd, 'exchange of f and h')
        # merge points of the regular case
        fmh = sub(FA, HA)
        q = mul(G, inv(FT))
        def find(name, want):
            """merge point whose arms are the wanted values (in any order)"""
            for k, ps in pol.items():
                if len(ps) == len(want) and all(any(same(p, w) for p in ps) for w in want):
                    role[name] = A('v', k)
                    return A('v', k)
            return None
        d = find('d', [C(1), mul(fmh, inv(FA))])
        D = d or A('v', -1)
        s = sub(C(2), D)
        spq = fn('sqrt', add(mul(s, s), mul(q, q)))
        dpq = find('dpq', [absv(q), fn('sqrt', add(mul(D, D), mul(q, q)))])
        P = dpq or A('v', -2)
        a = scale(add(spq, P), Q(1, 2))
        sg = lambda x: sub(C(1), scale(gt0(scale(x, -1)), 2))
        tw = [scale(mul(sg(FT), sg(G)), 2), add(mul(G, inv(mul(sg(FT), fmh))), mul(q, inv(s))), mul(add(mul(q, inv(add(spq, s))), mul(q, inv(add(P, D)))), add(C(1), a))]
        tmp = find('tmp', tw)
        T = tmp or A('v', -3)
        tt = fn('sqrt', add(mul(T, T), C(4)))
        cvn, svn = scale(inv(tt), 2), mul(T, inv(tt))
        cut = find('cut', [C(1), C(1), mul(add(cvn, mul(svn, q)), inv(a))])
        cutw, sutw, cvtw, svtw = ([C(1), mul(add(cvn, mul(svn, q)), inv(a))], [{}, mul(HT, inv(G)), mul(mul(mul(HT, inv(FT)), svn), inv(a))],
                                  [C(1), mul(FT, inv(G)), cvn], [{}, C(1), svn])
        fin = {}
        stores = [i for i in f.instrs if i.op == 'store']
        loc = f.loc()
        def miss(name, want, what):
            if role.get(name) is not None:
                rep.ok(kd, what)
                return True
            rep.bad(kd, what, loc, 'vl_lapack_dlasv2: no merge of the values %s' % ' and '.join(alg.show(w)[:120] for w in want), key='dlasv2:' + name)
            return False
        nm = sum(1 for v in f.instrs if v.op == 'phi')
        if nm != 22 and not (d and dpq and tmp):
            rep.skip(kd, 'vl_lapack_dlasv2', '%d merge points' % nm)
            return
        if not (miss('d', [C(1), mul(fmh, inv(FA))], 'relative difference d') and miss('dpq', [absv(q), fn('sqrt', add(mul(D, D), mul(q, q)))], 'sqrt(d^2 + q^2)') and miss('tmp', tw, 'tangent of the right rotation')):
            return
        # outputs cu, su, cv, sv: written twice, exchanged when f and h were
        names = {2: 'sv', 3: 'cv', 4: 'su', 5: 'cu'}
        byarg = {}
        for i in stores:
            b, o = E.addr(i.ops[1])
            if b[0] != 'arg' or not same(o, {}):
                raise alg.Unknown('store')
            byarg.setdefault(b[1], []).append(i)
        if any(len(byarg.get(k, ())) != 2 for k in names):
            rep.skip(kd, 'vl_lapack_dlasv2', 'stores of the singular vectors')
            return
        swp = {}
        for k in names:
            for i in byarg[k]:
                c = armed(f, E, i.block, i.block) if f.blocks[i.block][-1].cond is not None else None
                p = f.pred[i.block]
                e = E.edge(p[0], i.block) if len(p) == 1 else None
                w = e is not None and same(e, eq0(sub(role['SW'], C(1))))
                u = e is not None and (same(e, NOT(eq0(sub(role['SW'], C(1))))) or same(e, eq0(role['SW'])))
                if same(e or {}, NOT(eq0(role['SW']))):
                    w, u = True, False
                if not (w or u):
                    raise alg.Unknown('exchange of the singular vectors')
                swp[(k, w)] = i
        webs = {5: cutw, 4: sutw, 3: cvtw, 2: svtw}
        for k, n in names.items():
            i = swp[(k, False)]
            v = f.val(i.ops[0])
            got = pol.get(v.id, []) if v is not None and v.op == 'phi' else [E.one(i.ops[0])]
            ok = all(any(same(g, w) for g in got) for w in webs[k]) and all(any(same(g, w) for w in webs[k]) for g in got)
            rep.check(kd, n, ok, i.loc(), 'vl_lapack_dlasv2: %s is one of %s' % (n, '; '.join(alg.show(g)[:120] for g in got)), key='dlasv2:' + n)
        for k, o in ((5, 2), (4, 3), (3, 4), (2, 5)):
            x, y = swp[(k, True)], swp[(o, False)]
            rep.check(kd, names[k] + ' after an exchange', x.ops[0] == y.ops[0], x.loc(), 'vl_lapack_dlasv2: after exchanging f and h, %s is not the %s of the exchanged problem' % (names[k], names[o]), key='dlasv2:x' + names[k])
        # singular values before and after the sign correction
        for k, n, want in ((1, 'smax', [FA, ga, mul(FA, a)]), (0, 'smin', [HA, mul(FA, inv(mul(ga, inv(HA)))), mul(mul(FA, inv(ga)), HA), mul(HA, inv(a))])):
            vals = [(i, E.one(i.ops[0])) for i in byarg.get(k, ())]
            last = [x for x in vals if ('ld', ('arg', k), ()) in alg.atoms(x[1]) or any(y[0] == 'ld' for y in scev.deep_atoms(x[1]))]
            rest = [x for x in vals if x not in last]
            for i, p in rest:
                rep.check(kd, n + ' case', any(same(p, w) for w in want), i.loc(), 'vl_lapack_dlasv2: %s is set to %s' % (n, alg.show(p)[:160]), key='dlasv2:%s:%d' % (n, rest.index((i, p))))
            rep.check(kd, n + ' cases', all(any(same(p, w) for _, p in rest) for w in want), loc, 'vl_lapack_dlasv2: a case of %s is missing' % n, key='dlasv2:cases:' + n)
            if len(last) != 1:
                rep.skip(kd, n, 'sign correction')
                continue
            i, p = last[0]
            ts = [x for x in scev.deep_atoms(p) if x[0] == 'v' and x not in [next(iter(r))[0][0] for r in role.values()]]
            if len(ts) != 1:
                rep.skip(kd, n, 'sign')
                continue
            t = {((ts[0], 1),): Q(1)}
            w = mul(sg(t if k == 1 else mul(mul(t, sg(F)), sg(H))), ld(('arg', k), {}))
            rep.check(kd, n + ' sign', same(p, w), i.loc(), 'vl_lapack_dlasv2: the sign of %s is set by %s' % (n, alg.show(p)[:160]), key='dlasv2:sign:' + n)
            if k == 1:
                sv_, cv_, su_, cu_ = (ld(('arg', x), {}) for x in (2, 3, 4, 5))
                lw = [mul(mul(sg(cv_), sg(cu_)), sg(F)), mul(mul(sg(sv_), sg(cu_)), sg(G)), mul(mul(sg(sv_), sg(su_)), sg(H))]
                lv = val.get(ts[0][1], [])
                got = pol.get(ts[0][1], [])
                ok = len(got) == 3 and all(any(same(g, x) for g in got) for x in lw)
                rep.check(kd, 'sign of the largest entry', ok, i.loc(), 'vl_lapack_dlasv2: the sign comes from %s' % '; '.join(alg.show(g)[:100] for g in got), key='dlasv2:tsign')
                if ok:
                    for (o, p_, b_), g in zip(lv, got):
                        n3 = next(x for x, y in enumerate(lw) if same(g, y)) + 1
                        c = armed(f, E, p_, b_)
                        pm = [x for x in scev.deep_atoms(c or {}) if x[0] == 'v']
                        rep.check(kd, 'sign when entry %d is the largest' % n3, len(pm) == 1 and same(c, eq0(sub({((pm[0], 1),): Q(1)}, C(n3)))), f.vals[o].loc(), 'vl_lapack_dlasv2: the sign of entry %d is used when %s' % (n3, alg.show(c or {})), key='dlasv2:pmax%d' % n3)
                        if len(pm) == 1 and n3 == 1:
                            lv2 = val.get(pm[0][1], [])
                            cs = sorted(const_int(o) if const_int(o) is not None else -1 for o, _, _ in lv2)
                            rep.check(kd, 'largest entry', set(cs) == {1, 2, 3}, f.vals[pm[0][1]].loc(), 'vl_lapack_dlasv2: the largest entry is one of %s' % cs, key='dlasv2:pm')
                            for o, p3, b3 in lv2:
                                if const_int(o) == 2:
                                    c2 = armed(f, E, p3, b3)
                                    rep.ok(kd, 'entry 2 largest') if c2 is None else None
        # decisions taken
        br = []
        for b in f.blocks:
            t = b[-1]
            if t.op == 'br' and t.cond is not None:
                br.append((E.one(t.cond), t))
        eps = Q('2.2204460492503131e-16')
        want = {'|f| < |h|': sw, 'g = 0': eq0(ga), '|g| > |f|': gt0(sub(ga, FA)), '|g| much larger': gt0(sub(C(eps), mul(FA, inv(ga)))), '|h| > 1': gt0(sub(HA, C(1))),
                'infinite': eq0(sub(fmh, FA)), 'd = 0': eq0(D), 'q^2 = 0': eq0(mul(q, q))}
        for n, w in want.items():
            hit = [t for c, t in br if same(c, w) or same(c, NOT(w)) or (n == 'g = 0' and (same(c, eq0(G)) or same(c, NOT(eq0(G)))))]
            rep.check(kd, 'case ' + n, hit, loc, 'vl_lapack_dlasv2: the case "%s" is not told apart' % n, key='dlasv2:case:' + n)
        # every case is computed under its own condition
        def under(i, w, what):
            c = armed(f, E, i[1], i[2])
            rep.check(kd, what, c is not None and (same(c, w) or what == 'diagonal' and same(c, eq0(G))), loc, 'vl_lapack_dlasv2: %s is used when %s' % (what, alg.show(c or {})[:160]), key='dlasv2:under:' + what)
        for k, ps in pol.items():
            for i, p in zip(val[k], ps):
                if A('v', k) == role['d']:
                    under(i, eq0(sub(fmh, FA)) if same(p, C(1)) else NOT(eq0(sub(fmh, FA))), 'd = 1' if same(p, C(1)) else 'd = (|f|-|h|)/|f|')
                if A('v', k) == role['dpq']:
                    z = same(p, absv(q))
                    under(i, eq0(D) if z else NOT(eq0(D)), 'sqrt(d^2+q^2) when d %s 0' % ('=' if z else '!='))
                if A('v', k) == role['tmp']:
                    z = next(x for x, w in enumerate(tw) if same(p, w))
                    under(i, [eq0(D), NOT(eq0(D)), NOT(eq0(mul(q, q)))][z], 'tangent, case %d' % z)
        for i in byarg.get(1, ()):
            p = E.one(i.ops[0])
            pr = f.pred[i.block]
            if len(pr) == 1 and (same(p, FA) or same(p, ga)):
                under((None, i.block if False else pr[0], i.block), eq0(ga) if same(p, FA) else gt0(sub(C(eps), mul(FA, inv(ga)))), 'diagonal' if same(p, FA) else 'very large g')
    except (alg.Unknown, ValueError, KeyError, StopIteration, ZeroDivisionError) as e:
        rep.skip(kd, 'vl_lapack_dlasv2', str(e))


def run():
    rep = report.Report('C34', RULE, 'closed forms of loop nests + value-graph identities')
    m = ir.libi()
    gauss(rep, m)
    systems(rep, m)
    svd2(rep, m)
    dlasv2(rep, m)
    rep.count('functions', 5)
    rep.floor('obligations', len(rep.obl), 45)
    return rep
