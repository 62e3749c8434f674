"""C16: scalar arithmetic helpers, type tables, byte order helpers and the all-pairs comparison equal their definitions."""
import ir, alg, report, scev
from ir import const_int
from alg import C, A, add, sub, mul, scale, NOT, eq0, gt0, ge0, sel, fn, same, is_zero, absv, inv
from fractions import Fraction as Q
from c33 import evalpoly

RULE = ('value-graph identity of the returned value with the definition (piecewise rational functions of the argument, integer square root recurrence, 2*pi reduction), finite tables evaluated at every enumerator, '
        'byte permutations, closed forms of the addresses in the all-pairs comparison')
PI2 = 6.283185307179586


def F(m, n):
    return m.F('hdr$' + n) or m.F(n)


SUB = {}
for _t in 'fd':
    for _n, _k in (('abs', 'fabs'), ('sqrt', 'sqrt'), ('log2', 'log2'), ('floor', 'ifloor'), ('ceil', 'iceil'), ('round', 'lround')):
        SUB['vl_%s_%s' % (_n, _t)] = _k
SUB['__builtin_lroundf'] = SUB['lroundf'] = SUB['lround'] = 'lround'


def subcalls(skip):
    d = {}
    for n, k in SUB.items():
        if n == skip:
            continue
        if k == 'fabs':
            d[n] = lambda E, v: [absv(E.one(v.ops[0]))]
        else:
            d[n] = lambda E, v, k=k: [fn(k, E.one(v.ops[0]))]
    for t in ('f32', 'f64'):
        d['llvm.is.fpclass.' + t] = lambda E, v: [fn('fpclass', E.one(v.ops[0]), C(const_int(v.ops[1])))]
    for t in 'fd':
        if skip != 'vl_fast_resqrt_' + t:
            d['vl_fast_resqrt_' + t] = lambda E, v, t=t: [newton(E.one(v.ops[0]), MAGIC[t])]
    return d


MAGIC = {'f': 0x5f3759df, 'd': 0x5fe6ec85e7de30da}


def newton(x, k, steps=2):
    u = fn('frombits', sub(C(k), fn('asr', fn('bits', x), C(2))))
    for _ in range(steps):
        u = mul(u, sub(C(Q(3, 2)), mul(scale(x, Q(1, 2)), mul(u, u))))
    return u


def deepnames(p):
    out = set()
    for a in scev.deep_atoms(p):
        out.add(a[1] if a[0] == 'fn' else a[0])
    return out


def scalar(rep, m):
    x, y = A('arg', 0), A('arg', 1)
    xi = fn('int', x)
    floors = [sub(xi, gt0(sub(xi, x))), sel(add(ge0(x), sub(eq0(sub(xi, x)), mul(ge0(x), eq0(sub(xi, x))))), xi, sub(xi, C(1))), fn('int', fn('floor', x)), fn('ifloor', x)]
    ceils = [add(xi, gt0(sub(x, xi))), fn('int', fn('ceil', x)), fn('iceil', x)]
    rounds = [fn('lround', x), fn('int', fn('round', x)), sel(ge0(x), fn('int', fn('floor', add(x, C(Q(1, 2))))), fn('int', fn('ceil', sub(x, C(Q(1, 2))))))]
    spec = {}
    for t in 'fd':
        spec['vl_floor_' + t] = floors
        spec['vl_ceil_' + t] = ceils
        spec['vl_round_' + t] = rounds
        spec['vl_abs_' + t] = [absv(x)]
        spec['vl_sqrt_' + t] = [fn('sqrt', x)]
        spec['vl_log2_' + t] = [fn('log2', x)]
        spec['vl_is_nan_' + t] = [fn('fpclass', x, C(3)), A('fn', 'isnan', alg.freeze(x), alg.freeze(x)), A('fn', 'isnan', alg.freeze(x), alg.freeze({}))]
        spec['vl_is_inf_' + t] = [fn('fpclass', x, C(516))]
        # atan2
        e = C(Q(2)**-23 if t == 'f' else Q(2)**-52)
        v, u = x, y                     # first argument y, second x
        ay = add(absv(v), e)
        c1, c3 = C(Q('0.9675')), C(Q('0.1821'))

        def ang(r, a):
            return add(C(a), mul(sub(mul(c3, mul(r, r)), c1), r))
        ge = ge0(u)
        p1 = ang(mul(sub(u, ay), inv(add(u, ay))), Q(PI2) / 8)
        p2 = ang(mul(add(u, ay), inv(sub(ay, u))), 3 * Q(PI2) / 8)
        r = sel(ge, p1, p2)
        spec['vl_fast_atan2_' + t] = [mul(r, sub(C(1), scale(gt0(scale(v, -1)), 2)))]
        spec['vl_fast_sqrt_' + t] = [mul(mul(x, newton(x, MAGIC[t])), NOT(gt0(sub(C(Q('1e-8')), x)))), mul(mul(x, newton(x, MAGIC[t])), gt0(sub(x, C(Q('1e-8')))))]
    vocab = {'int', 'ifloor', 'iceil', 'floor', 'ceil', 'round', 'lround', 'trunc', 'rint', 'lrint', 'arg', 'eq0', 'gt0', 'inv', 'fpclass', 'isnan', 'sqrt', 'log', 'log2', 'log10', 'exp2', 'frombits', 'bits', 'ashr', 'asr', 'udiv'}
    for n, forms in spec.items():
        f = F(m, n)
        if f is None or len(f.rets) != 1:
            rep.skip('scalar functions', n, 'not defined')
            continue
        E = alg.Eval(f, calls=subcalls(n))
        try:
            got = E.one(f.rets[0].ops[0])
            if 'fast_sqrt' in n:
                forms = [alg.rebuild(w, lambda a: None) for w in forms]
            good = any(same(got, w) for w in forms)
            if not good and not deepnames(got) <= vocab:
                rep.skip('scalar functions', n, 'shape')
                continue
            if not good and n.startswith('vl_is_inf') and alg.atoms(got) and all(a[0] == 'eq0' for a in alg.atoms(got)):
                rep.skip('scalar functions', n, 'shape')
                continue
            rep.check('scalar functions', n, good, f.rets[0].loc(), '%s returns %s' % (n, alg.show(got)[:160]), key=n)
            want = ('float' if n.endswith('_f') else 'double')
            for k, a in enumerate(f.args):
                rep.check('scalar functions', '%s argument %d' % (n, k), a.ty == want, f.loc(), 'argument %d of %s is a %s: the value is rounded or truncated' % (k + 1, n, a.ty), key='%s:arg%d' % (n, k))
            narrow = [i for i in f.instrs if (i.op == 'fptrunc' and want == 'double') or (i.op in ('trunc', 'fptosi', 'fptoui') and i.ty in ('i8', 'i16', 'i32'))]
            rep.check('scalar functions', n + ' precision', not narrow, (narrow or f.rets)[0].loc(), '%s loses precision on the way to the result' % n, key=n + ':narrow')
        except (alg.Unknown, ValueError) as e:
            rep.skip('scalar functions', n, str(e))
    for t in 'fd':
        n = 'vl_fast_resqrt_' + t
        f = F(m, n)
        if f is None or len(f.rets) != 1:
            rep.skip('scalar functions', n, 'not defined')
            continue
        E = alg.Eval(f, calls=subcalls(n))
        try:
            got = E.one(f.rets[0].ops[0])
            ks = {a for a in scev.deep_atoms(got) if a[0] == 'fn' and a[1] == 'frombits'}
            if len(ks) != 1:
                raise alg.Unknown('initial guess')
            g = alg.thaw(next(iter(ks))[2])
            k = alg.cval(g)
            near = abs(k - MAGIC[t]) <= (4096 if t == 'f' else 1 << 42)
            rep.check('scalar functions', n, any(same(got, newton(x, k, s)) for s in (2, 3)), f.rets[0].loc(), '%s does not refine its initial guess by two Newton steps for 1/sqrt(x)' % n, key=n)
            rep.check('scalar functions', n + ' guess', near, f.rets[0].loc(), 'the initial guess of %s uses the constant %#x' % (n, int(k)), key=n + ':guess')
        except (alg.Unknown, ValueError) as e:
            rep.skip('scalar functions', n, str(e))


def mod2pi(rep, m):
    """the result is x plus a multiple of 2 pi; the subtraction is repeated while x > 2 pi, the addition while x < 0"""
    for t in 'fd':
        n = 'vl_mod_2pi_' + t
        f = F(m, n)
        if f is not None and len(f.loops) < 2 and not any(i.op in ('call', 'frem', 'fptosi', 'fptoui', 'fdiv') for i in f.instrs):
            rep.bad('2 pi reduction', n + ' any angle', f.loc(), '%s reduces by a bounded number of turns: large angles stay outside [0, 2 pi]' % n, key=n + ':any')
            continue
        if f is None or len(f.rets) != 1 or len(f.loops) != 2:
            rep.skip('2 pi reduction', n, 'shape')
            continue
        E = scev.Scev(f)
        try:
            hs = sorted(f.loops, key=f.rpo().index)
            info = []
            for h in hs:
                ph = [v for v in f.blocks[h] if v.op == 'phi']
                ex = E.exits(h)
                if len(ph) != 1 or len(ex) != 1 or len(f.loops_of(h)) != 1:
                    raise alg.Unknown('loop')
                I = E.inner(h)
                v = A('v', ph[0].id)
                st = {alg.freeze(sub(I.one(o), v)) for o, p in ph[0].inc if p in f.loops[h]}
                init = [o for o, p in ph[0].inc if p not in f.loops[h]]
                b, s = ex[0]
                stay = I.edge(b, [q for q in f.succ[b] if q in f.loops[h]][0])
                if len(st) != 1 or b != h:
                    raise alg.Unknown('loop')
                info.append((ph[0], alg.thaw(next(iter(st))), init, stay, v))
            tol = Q(1, 10**6) if t == 'f' else Q(1, 10**14)
            chain = info[0][2] == [0] and info[1][2] == [info[0][0].id] and f.rets[0].ops[0] == info[1][0].id
            if not chain:
                raise alg.Unknown('order')
            kinds = []
            for ph, st, init, stay, v in info:
                if not alg.is_const(st):
                    raise alg.Unknown('step')
                c = alg.cval(st)
                kinds.append(c > 0)
                rep.check('2 pi reduction', '%s step %s' % (n, 'up' if c > 0 else 'down'), abs(abs(c) - Q(PI2)) <= tol, ph.loc(), '%s changes the angle by %.12g, not 2 pi' % (n, float(c)), key='%s:step%d' % (n, c > 0))
                if c > 0:
                    good = is_zero(sub(stay, gt0(scale(v, -1))))
                else:
                    good = any(is_zero(sub(stay, g)) for g in (gt0(sub(v, C(-c))), ge0(sub(v, C(-c)))))
                rep.check('2 pi reduction', '%s range %s' % (n, 'up' if c > 0 else 'down'), good, ph.loc(), '%s continues while %s: the result may be outside [0, 2 pi]' % (n, alg.show(stay)), key='%s:range%d' % (n, c > 0))
            rep.check('2 pi reduction', n + ' both sides', len(set(kinds)) == 2, f.loc(), '%s reduces on one side only' % n, key=n + ':sides')
        except alg.Unknown as e:
            rep.skip('2 pi reduction', n, str(e))


def intsqrt(rep, m):
    """y' = 2y + c, x' = x - c t, c = [x >= t], t = (2 (2y) + 1) 2^k for k = bits-2, bits-4 .. 0: the digit recurrence of the integer square root"""
    for bits in (8, 16, 32, 64):
        n = 'vl_fast_sqrt_ui%d' % bits
        f = F(m, n)
        if f is None or len(f.rets) != 1 or len(f.loops) != 1:
            rep.skip('integer square root', n, 'shape')
            continue
        try:
            h = next(iter(f.loops))
            S = scev.Scev(f)
            I = S.inner(h)
            ph = [v for v in f.blocks[h] if v.op == 'phi']
            nxt = {v.id: [I.one(o) for o, p in v.inc if p in f.loops[h]] for v in ph}
            ini = {v.id: [S.one(o) for o, p in v.inc if p not in f.loops[h]] for v in ph}
            if any(len(x) != 1 for x in list(nxt.values()) + list(ini.values())):
                raise alg.Unknown('phi')
            Y = f.val(f.rets[0].ops[0])
            while Y is not None and Y.op in ('trunc', 'zext'):
                Y = f.val(Y.ops[0])
            if Y is None or Y.id not in nxt:
                raise alg.Unknown('result')
            X = [v for v in ph if ini[v.id][0] == A('arg', f.args[0].id)]
            if len(X) != 1:
                raise alg.Unknown('residual')
            X = X[0]
            y, x = A('v', Y.id), A('v', X.id)
            others = [v for v in ph if v not in (X, Y)]
            sh = [a for a in scev.deep_atoms(nxt[X.id][0]) if a[0] == 'fn' and a[1] == 'shl']
            if len(sh) == 1:
                k = alg.thaw(sh[0][3])
                t = A(*sh[0])
                m_ = alg.thaw(sh[0][2])
                rep.check('integer square root', n + ' bound', same(m_, add(scale(y, 4), C(1))), X.loc(), 'the bound compared with the residual is (%s) 2^k' % alg.show(m_), key=n + ':bound')
                closed = alg.rebuild(k, lambda a: S.one(a[1]) if a[0] == 'v' else None)
                it = A('it', h)
                rep.check('integer square root', n + ' digits', same(closed, sub(C(bits - 2), scale(it, 2))), X.loc(), 'the digits are determined from position %s' % alg.show(closed), key=n + ':digits')
            else:
                raise alg.Unknown('bound')
            c = ge0(sub(x, t))
            rep.check('integer square root', n + ' residual', is_zero(sub(nxt[X.id][0], sub(x, mul(t, c)))), X.loc(), 'the residual becomes %s' % alg.show(nxt[X.id][0])[:150], key=n + ':residual')
            rep.check('integer square root', n + ' root', is_zero(sub(nxt[Y.id][0], add(scale(y, 2), c))), Y.loc(), 'the root becomes %s' % alg.show(nxt[Y.id][0])[:150], key=n + ':root')
            rep.check('integer square root', n + ' start', ini[Y.id][0] == {}, Y.loc(), 'the root starts at %s' % alg.show(ini[Y.id][0]), key=n + ':start')
            e = S.exit_it(h)
            rep.check('integer square root', n + ' steps', e is not None and same(e, C(bits // 2)), X.loc(), '%s of %d digits are determined' % (alg.show(e) if e is not None else '?', bits // 2), key=n + ':steps')
            bad = [i for i in f.instrs if i.op == 'icmp' and i.pred[0] == 's' and (f.vals[i.ops[0]].ty if isinstance(i.ops[0], int) else '') == 'i%d' % bits and any(a[0] == 'fn' for a in scev.deep_atoms(I.one(i.ops[0])) | scev.deep_atoms(I.one(i.ops[1])))]
            bad += [i for i in f.instrs if i.op == 'trunc' and int(i.ty[1:]) < bits]
            rep.check('integer square root', n + ' width', not bad, (bad or f.rets)[0].loc(), '%s is computed in a type that cannot hold every value' % n, key=n + ':width')
        except (alg.Unknown, StopIteration, KeyError) as e:
            rep.skip('integer square root', n, str(e))


TYPES = {1: ('float', 4), 2: ('double', 8), 3: ('int8', 1), 4: ('uint8', 1), 5: ('int16', 2), 6: ('uint16', 2), 7: ('int32', 4), 8: ('uint32', 4), 9: ('int64', 8), 10: ('uint64', 8)}
NAMES = {0: 'l1', 1: 'l2', 2: 'chi2', 5: 'mahalanobis', 6: 'kl1', 7: 'kl2', 8: 'kchi2'}


def text(m, g):
    i = (m.globals.get(g) or {}).get('init')
    return i[1].rstrip('\0') if i and i[0] == 's' else None


def tables(rep, m):
    f = F(m, 'vl_get_type_size')
    if f is None or len(f.rets) != 1:
        rep.skip('type tables', 'vl_get_type_size', 'not defined')
    else:
        try:
            p = alg.Eval(f).one(f.rets[0].ops[0])
            for k, (nm, sz) in TYPES.items():
                got = evalpoly(p, {('arg', 0): k})
                rep.check('type tables', 'size of ' + nm, got == sz, f.rets[0].loc(), 'the size of type %s is reported as %s' % (nm, got), key='size:' + nm)
        except alg.Unknown as e:
            rep.skip('type tables', 'vl_get_type_size', str(e))
    for fname, tab in (('vl_get_type_name', {k: v[0] for k, v in TYPES.items()}), ('vl_get_vector_comparison_type_name', NAMES)):
        f = F(m, fname)
        if f is None or len(f.rets) != 1:
            rep.skip('type tables', fname, 'not defined')
            continue
        E = alg.Eval(f)
        E.gate_ptr = True
        try:
            p = E.one(f.rets[0].ops[0])
            gs = sorted({a for a in alg.atoms(p) if a[0] == 'g'})
            for k, nm in tab.items():
                hit = [g for j, g in enumerate(gs) if evalpoly(p, dict([(('arg', 0), k)] + [(x, 1 if x == g else 0) for x in gs]))]
                got = text(m, hit[0][1]) if len(hit) == 1 else None
                rep.check('type tables', '%s(%d)' % (fname, k), got == nm, f.rets[0].loc(), 'the name of %s is reported as %s' % (nm, got), key='%s:%d' % (fname, k))
        except alg.Unknown as e:
            rep.skip('type tables', fname, str(e))


def swaps(rep, m):
    for n in (2, 4, 8):
        name = 'vl_swap_host_big_endianness_%d' % n
        f = F(m, name)
        if f is None:
            rep.skip('byte order', name, 'not defined')
            continue
        E = scev.Scev(f)
        try:
            got = {}
            for i in f.instrs:
                if i.op != 'store':
                    continue
                b, o = E.addr_at(i.ops[1], i.block)
                if b != ('arg', 0) or alg.size_of(f.vals[i.ops[0]].ty if isinstance(i.ops[0], int) else 'i64') != 1:
                    raise alg.Unknown('store')
                v = f.val(i.ops[0])
                if v is None or v.op != 'load':
                    raise alg.Unknown('value')
                b2, o2 = E.addr_at(v.ops[0], v.block)
                if b2 != ('arg', 1):
                    raise alg.Unknown('source')
                hs = f.loops_of(i.block)
                if not hs:
                    got[evalpoly(o, {})] = (evalpoly(o2, {}), i)
                elif len(hs) == 1 and E.body_count(hs[0], i.block) is not None:
                    for k in range(evalpoly(E.body_count(hs[0], i.block), {})):
                        e = {('it', hs[0]): k}
                        got[evalpoly(o, e)] = (evalpoly(o2, e), i)
                else:
                    raise alg.Unknown('loop')
            for k in range(n):
                s = got.get(k, (None, f))
                rep.check('byte order', '%s byte %d' % (name, k), s[0] == n - 1 - k, s[1].loc(), 'byte %d of the result is byte %s of the source' % (k, s[0]), key='%s:%d' % (name, k))
            rep.check('byte order', name + ' extent', all(0 <= k < n for k in got), f.loc(), 'bytes outside the value are written', key=name + ':extent')
        except alg.Unknown as e:
            rep.skip('byte order', name, str(e))


def allpairs(rep, m):
    for t, sz in (('f', 4), ('d', 8)):
        n = 'vl_eval_vector_comparison_on_all_pairs_' + t
        f = m.F(n)
        if f is None:
            rep.skip('all pairs', n, 'not defined')
            continue
        E = scev.Scev(f)
        D, NX, NY = A('arg', f.args[1].id), A('arg', f.args[3].id), A('arg', f.args[5].id)
        X, Y, R = ('arg', f.args[2].id), ('arg', f.args[4].id), ('arg', f.args[0].id)
        try:
            calls = [i for i in f.instrs if i.op == 'call' and i.callee_name() is None]
            if not calls:
                raise alg.Unknown('no comparison')
            seen = set()
            for c in calls:
                hs = f.loops_of(c.block)
                if len(hs) != 2:
                    raise alg.Unknown('loops')
                (b1, o1), (b2, o2) = E.addr_at(c.ops[1], c.block), E.addr_at(c.ops[2], c.block)
                its = [A('it', h) for h in hs]
                xi = scale(mul(o1, inv(D)), Q(1, sz))
                yi = scale(mul(o2, inv(D)), Q(1, sz))
                both = b2 == Y
                kind = 'two sets' if both else 'one set'
                seen.add(kind)
                rep.check('all pairs', '%s dimension, %s' % (n, kind), same(E.at(c.ops[0], c.block), D), c.loc(), 'the comparison function is called with dimension %s' % alg.show(E.at(c.ops[0], c.block)), key='%s:%s:dim' % (n, kind))
                if not (b1 == X and b2 in (X, Y)):
                    raise alg.Unknown('vectors')
                if xi not in its or yi not in its or xi == yi:
                    if any(a[0] not in ('it', 'arg') for a in scev.deep_atoms(xi) | scev.deep_atoms(yi)):
                        raise alg.Unknown('vector positions')
                    rep.bad('all pairs', '%s vectors, %s' % (n, kind), c.loc(), 'vectors at offsets %s and %s are compared' % (alg.show(o1), alg.show(o2)), key='%s:%s:vec' % (n, kind))
                    continue
                rep.ok('all pairs', '%s vectors, %s' % (n, kind))
                hx, hy = [list(p)[0][0][0][1] for p in (xi, yi)]
                cx, cy = E.body_count(hx, c.block), E.body_count(hy, c.block)
                if cx is None or cy is None:
                    raise alg.Unknown('loop bounds')
                if both:
                    full = same(cx, NX) and same(cy, NY)
                else:
                    full = (same(cx, NX) and same(cy, NX)) or (same(cx, add(yi, C(1))) and same(cy, NX)) or (same(cy, add(xi, C(1))) and same(cx, NX))
                rep.check('all pairs', '%s every pair, %s' % (n, kind), full, c.loc(), 'the pairs compared are %s by %s' % (alg.show(cx), alg.show(cy)), key='%s:%s:range' % (n, kind))
                st = []
                for i in f.instrs:
                    if i.op == 'store' and i.block in f.loops[hs[0]] and f.loops_of(i.block) == hs:
                        v = f.val(i.ops[0])
                        if v is c:
                            b, o = E.addr_at(i.ops[1], i.block)
                            if b != R:
                                raise alg.Unknown('result')
                            st.append((scale(o, Q(1, sz)), i))
                a1, a2 = add(xi, mul(NX, yi)), add(yi, mul(NX, xi))
                for p, i in st:
                    rep.check('all pairs', '%s position, %s' % (n, kind), same(p, a1) or (not both and same(p, a2)), i.loc(), 'the comparison of vectors (%s, %s) is stored at position %s' % (alg.show(xi), alg.show(yi), alg.show(p)), key='%s:%s:pos' % (n, kind))
                need = [a1] + ([a2] if not both and not (same(cx, NX) and same(cy, NX)) else [])
                for a in need:
                    rep.check('all pairs', '%s stored, %s' % (n, kind), any(same(p, a) for p, _ in st), c.loc(), 'the comparison of vectors (%s, %s) is not stored at position %s' % (alg.show(xi), alg.show(yi), alg.show(a)), key='%s:%s:stored' % (n, kind))
            if seen == {'two sets', 'one set'}:
                rep.ok('all pairs', n + ' both forms')
        except alg.Unknown as e:
            rep.skip('all pairs', n, str(e))


def run():
    rep = report.Report('C16', RULE, 'value graphs and closed forms')
    m = ir.libi()
    scalar(rep, m)
    mod2pi(rep, m)
    intsqrt(rep, m)
    tables(rep, m)
    swaps(rep, m)
    allpairs(rep, m)
    rep.count('helper laws', len(rep.obl))
    rep.floor('helper laws', len(rep.obl), 20)
    return rep
