"""C36: VLAD and Fisher vector encodings and the homogeneous kernel map compute their definitions for every data set, size and option."""
import ir, alg, report, scev, kern, build
from alg import C, A, add, sub, mul, scale, NOT, eq0, gt0, ge0, sel, fn, same, inv, freeze, thaw, maxv
from kern import I, ld, Spec, SUM
from fractions import Fraction as Q

RULE = ('closed forms (address, value, iteration space, condition) of every store into the encoding, the order of the passes over it, initialisation and calls; table of the kernel map: '
        'closed forms of every entry, of the spectrum and of the interpolation')
PI = Q('3.141592653589793')


def sto(E, base):
    """stores into one buffer with their full conditions"""
    st = kern.stores(E, want=lambda b: b == base, guards=False)
    for s in st:
        s.when = kern.when(E, s.ins.block)
        s.guard = None
    return st


def sub_facts(p, facts, n=3):
    for _ in range(n):
        q = scev.mapatoms(p, lambda a: facts.get(a))
        if same(q, p):
            return q
        p = q
    return p


def atom(p):
    """the atom of a condition that consists of one"""
    return next(iter(p))[0][0]


def positive(*ps):
    """facts that make each p greater than zero"""
    out = {}
    for p in ps:
        for a in alg.atoms(gt0(sub(C(1), p))):
            if a[0] == 'gt0':
                out[a] = {} if same(thaw(a[1]), sub(C(1), p)) else sub(C(1), eq0(sub(p, C(1))))
        for a in alg.atoms(gt0(p)):
            if a[0] == 'gt0':
                out[a] = C(1) if same(thaw(a[1]), p) or any(same(thaw(a[1]), scale(p, k)) for k in (Q(1, 2), 2)) else {}
        for a in alg.atoms(eq0(p)):
            if a[0] == 'eq0':
                out[a] = {}
    return out


def one(rep, kd, f, st, specs):
    """match the stores of one buffer with a list of passes (each a list of alternative lists of (Spec, when)) and check the order of the passes"""
    left = list(st)
    hit = []
    for nm, alts, *_ in specs:
        done = None
        for alt in alts:
            got = []
            for sp, w in alt:
                c = [s for s in left if s not in got and kern.fit(s, sp) and cond(s, sp, w)]
                if not c:
                    break
                got.append(c[0])
            else:
                done = got
                break
        hit.append((nm, done))
        if done:
            left = [s for s in left if s not in done]
    return hit, left


def cond(s, sp, w):
    """the condition of the store in terms of the loop names of the specification"""
    if w is None:
        return True
    return any(same(x, y) for x in named(s, sp) for y in (w if isinstance(w, list) else [w]))


def named(s, sp):
    """conditions of a store that fits sp, its counters replaced by the names (every assignment that fits)"""
    import itertools
    hs = [h for h, _ in s.chain]
    out = []
    for p in itertools.permutations([n for n, _ in sp.loops]):
        m = {('it', h): I(n) for h, n in zip(hs, p)}
        g = lambda a: m[a] if a in m else sp.facts.get(a)
        if same(scev.mapatoms(s.off, g), sp.off):
            out.append(scev.mapatoms(scev.mapatoms(s.when, g), lambda a: sp.facts.get(a)))
    return out


def merge(st):
    """stores into the same cell in branches that exclude each other are one store of the value selected"""
    out = []
    for s in st:
        for i, r in enumerate(out):
            if r.base == s.base and [h for h, _ in r.chain] == [h for h, _ in s.chain] and same(r.off, s.off) and r.when is not None and s.when is not None and same(mul(r.when, s.when), {}):
                n = kern.Store(r.ins, r.base, r.off, None, r.chain, None, r.size)
                n.when = add(r.when, s.when)
                n.val = mul(r.when, r.val)
                n.val = add(n.val, mul(s.when, s.val))
                out[i] = n
                break
        else:
            out.append(s)
    return out


def passes(rep, kd, name, f, E, st, specs, vocab=None):
    hit, left = one(rep, kd, f, st, specs)
    if left and not all(d for _, d in hit):
        m = merge(st)
        if len(m) < len(st):
            h2, l2 = one(rep, kd, f, m, specs)
            if len(l2) < len(left):
                hit, left = h2, l2
    known = all(kern.recognised(s, vocab or kern.KNOWN) for s in left)
    got = []
    good = True
    for nm, done in hit:
        if done:
            rep.ok(kd, '%s %s' % (name, nm))
            got.append((nm, done))
            continue
        good = False
        if left and known and len(left) in (sum(len(a[0]) for n, a, *_ in specs if n in [x for x, d in hit if not d]), len([1 for x, d in hit if not d])):
            s = left[0]
            rep.bad(kd, '%s %s' % (name, nm), s.ins.loc(), '%s: %s does not follow its definition: %s%s' % (name, nm, s.show()[:300], ', when ' + alg.show(s.when)[:200]), key='%s:%s' % (name, nm))
        elif not left:
            rep.bad(kd, '%s %s' % (name, nm), f.instrs[0].loc(), '%s: %s is missing' % (name, nm), key='%s:%s' % (name, nm))
        else:
            rep.skip(kd, '%s %s' % (name, nm), 'shape: %s' % '; '.join(s.show()[:200] for s in left))
    if good and left:
        if known:
            rep.bad(kd, name + ' other stores', left[0].ins.loc(), '%s: %s is no part of the definition' % (name, left[0].show()[:300]), key=name + ':extra')
        else:
            rep.skip(kd, name, 'other stores')
    after = {n: (r[0] if r else [x[0] for x in specs[max(k - 1, 0):k]]) for k, (n, _, *r) in enumerate(specs)}
    done = dict(got)
    for a, b in [((x, done[x]), (n, d)) for n, d in got for x in after[n] if x in done]:
        o = all(kern.before(E, x.ins, y.ins) for x in a[1] for y in b[1])
        rep.check(kd, '%s %s before %s' % (name, a[0], b[0]), o, b[1][0].ins.loc(), '%s: %s happens before %s' % (name, b[0], a[0]), key='%s:order:%s' % (name, b[0]))
    return good


def zeroed(rep, kd, name, f, E, base, size, st, facts, w):
    """the buffer is filled with zeros before anything is added"""
    ms = []
    for b in range(len(f.blocks)):
        for i in f.blocks[b]:
            if i.op == 'call' and (i.callee_name() or '').startswith(('llvm.memset', 'memset')):
                try:
                    if E.addr_at(i.ops[0], b)[0] == base:
                        ms.append(i)
                except alg.Unknown:
                    pass
    zs = [s for s in st if same(s.val, {})]
    if not ms and zs:
        return zs
    ok = False
    for i in ms:
        b, off = E.addr_at(i.ops[0], i.block)
        if same(off, {}) and ir.const_int(i.ops[1]) == 0 and same(E.at(i.ops[2], i.block), size):
            if same(sub_facts(kern.when(E, i.block), facts), w) and all(kern.before(E, i, s.ins) for s in st):
                ok = True
    rep.check(kd, name + ' starts from zero', ok, (ms[0] if ms else f.instrs[0]).loc(), '%s: the %s elements of the encoding are not set to zero first' % (name, alg.show(scale(size, Q(1, 1)))), key=name + ':zero')
    return []


def root(enc, z):
    """signed square root as one store or as two"""
    return fn('sqrt', z), scale(fn('sqrt', scale(z, -1)), -1)


def tiny(st):
    """bounds below 1e-6 used with a maximum"""
    out = {Q(1, 10**12)}
    for s in st:
        for a in scev.deep_atoms(s.val):
            if a[0] == 'gt0':
                p = thaw(a[1])
                c = abs(p.get((), Q(0)))
                if len(p) == 2 and 0 < c < Q(1, 10**6):
                    k = [abs(x) for m, x in p.items() if m != ()][0]
                    out.add(c / k)
    return [C(c) for c in sorted(out)]


def normalise(enc, at, cells, n, eps):
    """alternatives of  enc / max(norm, 1e-12)"""
    nrm = fn('sqrt', SUM(lambda t: mul(ld(enc, cells(t)), ld(enc, cells(t))), n))
    z = ld(enc, at)
    return [mul(z, inv(maxv(nrm, e))) for e in eps] + [mul(z, inv(maxv(e, nrm))) for e in eps]


def squared(enc, nm, loops, off, w, facts):
    z = ld(enc, off)
    pos = NOT(gt0(scale(z, -1)))
    a, b = root(enc, z)
    return [[(Spec(nm, loops, enc, off, a, facts=facts), mul(w, ge0(z))), (Spec(nm, loops, enc, off, b, facts=facts), mul(w, NOT(ge0(z))))],
            [(Spec(nm, loops, enc, off, a, facts=facts), mul(w, gt0(z))), (Spec(nm, loops, enc, off, b, facts=facts), mul(w, NOT(gt0(z))))],
            [(Spec(nm, loops, enc, off, [sel(ge0(z), a, b), sel(gt0(z), a, b)], facts=facts), w)]]


def flag(o, v):
    return NOT(eq0(fn('and', o, C(v))))


# -- VLAD ---------------------------------------------------------------------------

def vlad(rep, m, t):
    kd = 'VLAD'
    f = m.F('vl_vlad_encode')
    name = 'vl_vlad_encode (%s)' % ('float' if t == 'f' else 'double')
    if f is None or len(f.args) != 9:
        rep.skip(kd, name, 'not defined')
        return
    K = build.constants('vl/vlad.h', ['VL_TYPE_FLOAT', 'VL_TYPE_DOUBLE', 'VL_VLAD_FLAG_NORMALIZE_COMPONENTS', 'VL_VLAD_FLAG_SQUARE_ROOT', 'VL_VLAD_FLAG_UNNORMALIZED', 'VL_VLAD_FLAG_NORMALIZE_MASS'])
    if len(K) != 6:
        rep.skip(kd, name, 'constants')
        return
    sz = 4 if t == 'f' else 8
    enc, mu, data, asg = (('arg', k) for k in (0, 2, 5, 7))
    D, NC, ND, fl = (A('arg', k) for k in (3, 4, 6, 8))
    ty = eq0(sub(A('arg', 1), C(K['VL_TYPE_FLOAT' if t == 'f' else 'VL_TYPE_DOUBLE'])))
    facts = {}
    other = atom(eq0(sub(A('arg', 1), C(K['VL_TYPE_DOUBLE' if t == 'f' else 'VL_TYPE_FLOAT']))))
    mine = atom(ty)
    facts[other], facts[mine] = {}, C(1)
    for n in (D, NC, ND):
        facts.update(positive(n))
    E = kern.forwarding(scev.Scev(f))
    try:
        al = sto(E, enc)
        st = []
        for s in al:
            s.when = sub_facts(s.when, facts)
            if not same(s.when, {}):
                st.append(s)
        i, d, j = I('i'), I('d'), I('j')
        cell = scale(add(mul(i, D), d), sz)
        q = ld(asg, scale(add(mul(j, NC), i), sz))
        qt = lambda k: ld(asg, scale(add(mul(k, NC), i), sz))
        mass = SUM(lambda k: mul(gt0(qt(k)), qt(k)), ND)
        z = ld(enc, cell)
        one_ = C(1)
        m2 = ld(mu, cell)
        nm_ = flag(fl, K['VL_VLAD_FLAG_NORMALIZE_MASS'])
        L2 = [('i', NC), ('d', D)]
        has = gt0(mass)
        eps = tiny(st)
        specs = [
            ('sum of the assigned vectors', [[(Spec('', [('i', NC), ('j', ND), ('d', D)], enc, cell, add(z, mul(q, ld(data, scale(add(mul(j, D), d), sz)))), facts=facts), gt0(q))]]),
            ('mean of the cluster (normalised mass)', [[(Spec('', L2, enc, cell, mul(z, inv(mass)), facts=facts), mul(has, nm_)), (Spec('', L2, enc, cell, [sub(mul(z, inv(mass)), m2), sub(z, m2)], facts=facts), mul(has, nm_))],
                                                       [(Spec('', L2, enc, cell, sub(mul(z, inv(mass)), m2), facts=facts), mul(has, nm_))]]),
            ('mean of the cluster', [[(Spec('', L2, enc, cell, sub(z, mul(mass, m2)), facts=facts), [mul(has, NOT(nm_)), NOT(nm_)])]]),
            ('signed square root', squared(enc, '', L2, cell, flag(fl, K['VL_VLAD_FLAG_SQUARE_ROOT']), facts)),
            ('component normalisation', [[(Spec('', L2, enc, cell, normalise(enc, cell, lambda k: scale(add(mul(i, D), k), sz), D, eps), facts=facts), flag(fl, K['VL_VLAD_FLAG_NORMALIZE_COMPONENTS']))]]),
            ('global normalisation', [[(Spec('', [('d', mul(D, NC))], enc, scale(d, sz), normalise(enc, scale(d, sz), lambda k: scale(k, sz), mul(D, NC), eps), facts=facts), NOT(flag(fl, K['VL_VLAD_FLAG_UNNORMALIZED'])))]]),
        ]
        zs = zeroed(rep, kd, name, f, E, enc, scale(mul(D, NC), sz), st, facts, one_)
        passes(rep, kd, name, f, E, [s for s in st if s not in zs], specs)
        rep.count('stores', len(st))
    except (alg.Unknown, KeyError, StopIteration) as e:
        rep.skip(kd, name, str(e))


# -- Fisher -------------------------------------------------------------------------

def fisher(rep, m, t):
    kd = 'Fisher vector'
    f = m.F('vl_fisher_encode')
    name = 'vl_fisher_encode (%s)' % ('float' if t == 'f' else 'double')
    if f is None or len(f.args) != 10:
        rep.skip(kd, name, 'not defined')
        return
    K = build.constants('vl/fisher.h', ['VL_TYPE_FLOAT', 'VL_TYPE_DOUBLE', 'VL_FISHER_FLAG_SQUARE_ROOT', 'VL_FISHER_FLAG_NORMALIZED', 'VL_FISHER_FLAG_FAST'])
    if len(K) != 5:
        rep.skip(kd, name, 'constants')
        return
    sz = 4 if t == 'f' else 8
    enc, mu, cov, pri, data = (('arg', k) for k in (0, 2, 5, 6, 7))
    D, NC, ND, fl = (A('arg', k) for k in (3, 4, 8, 9))
    ty = eq0(sub(A('arg', 1), C(K['VL_TYPE_FLOAT' if t == 'f' else 'VL_TYPE_DOUBLE'])))
    facts = {atom(eq0(sub(A('arg', 1), C(K['VL_TYPE_DOUBLE' if t == 'f' else 'VL_TYPE_FLOAT'])))): {}, atom(ty): C(1)}
    for n in (D, NC, ND):
        facts.update(positive(n))
    E = kern.forwarding(scev.Scev(f))
    try:
        # the posteriors and the scales
        call = [i for b in range(len(f.blocks)) for i in f.blocks[b] if i.op == 'call' and i.callee_name() == 'vl_get_gmm_data_posteriors_' + t]
        if len(call) != 1:
            rep.skip(kd, name, 'posteriors')
            return
        call = call[0]
        post, off = E.addr_at(call.ops[0], call.block)
        want = [('num', NC), ('num', ND), ('ptr', pri), ('ptr', mu), ('num', D), ('ptr', cov), ('ptr', data)]
        ok = same(off, {})
        for o, (k, w) in zip(call.ops[1:], want):
            if k == 'num':
                ok = ok and same(E.at(o, call.block), w)
            else:
                bb, oo = E.addr_at(o, call.block)
                ok = ok and bb == w and same(oo, {})
        rep.check(kd, name + ' posteriors', ok and same(sub_facts(kern.when(E, call.block), facts), C(1)), call.loc(), '%s: vl_get_gmm_data_posteriors_%s is called with other arguments' % (name, t), key=name + ':post')
        allst = [s for s in kern.stores(E, want=lambda b: True, guards=False)]
        for s in allst:
            s.when = sub_facts(kern.when(E, s.ins.block), facts)
        allst = [s for s in allst if not same(s.when, {})]
        i, d, j = I('i'), I('d'), I('j')
        cell = scale(add(mul(i, D), d), sz)
        half = scale(mul(D, NC), sz)
        acc = [s for s in allst if s.base == enc and len(s.chain) == 3]
        scal = [s for s in allst if s.base not in (enc, post)]
        if scal:
            sg = scal[0].base
            sig = ld(sg, cell)
            kern.compare(rep, kd, name, f.instrs[0].loc(), scal, [Spec('scale of every component', [('i', NC), ('d', D)], sg, cell, [fn('sqrt', inv(ld(cov, cell))), inv(fn('sqrt', ld(cov, cell)))], facts=facts)])
            rep.check(kd, name + ' scales first', all(kern.before(E, x.ins, y.ins) for x in scal for y in acc), scal[0].ins.loc(), '%s: the scales are used before they are computed' % name, key=name + ':scales')
            for b, nmb, size in ((sg, 'scales', scale(mul(D, NC), sz)), (post, 'posteriors', scale(mul(ND, NC), sz))):
                al = f.vals.get(b[1]) if b[0] == 'call' else None
                if al is not None and al.callee_name() == 'vl_malloc':
                    rep.check(kd, '%s buffer of the %s' % (name, nmb), same(E.at(al.ops[0], al.block), size), al.loc(), '%s: the buffer of the %s has %s bytes' % (name, nmb, alg.show(E.at(al.ops[0], al.block))), key='%s:buf:%s' % (name, nmb))
        else:
            sig = None
        sigs = [sig] if sig is not None else [fn('sqrt', inv(ld(cov, cell))), inv(fn('sqrt', ld(cov, cell)))]
        # hard assignment
        ps = [s for s in allst if s.base == post]
        fast = flag(fl, K['VL_FISHER_FLAG_FAST'])
        hard(rep, kd, name, f, E, ps, post, NC, ND, sz, fast, facts, t)
        rep.check(kd, name + ' posteriors first', all(kern.before(E, call, s.ins) for s in ps + acc) and all(kern.before(E, x.ins, y.ins) for x in ps for y in acc), call.loc(), '%s: the posteriors are used before they are computed' % name, key=name + ':postfirst')
        # thresholds below which components and posteriors are left out
        st = [s for s in allst if s.base == enc]
        th = dict(facts)
        bad = None
        for s in st:
            for a in scev.deep_atoms(s.when):
                if a[0] in ('gt0', 'eq0'):
                    p = thaw(a[1])
                    lds = [x for x in alg.atoms(p) if x[0] == 'ld' and x[1] in (pri, post)]
                    if len(lds) == 1 and len([x for x in alg.atoms(p)]) == 1 and all(len(mn) <= 1 for mn in p):
                        k = p.get(((lds[0], 1),), Q(0))
                        cst = -p.get((), Q(0)) / k if k else None
                        if cst is None or not 0 <= cst <= Q(1, 10**5):
                            bad = (s, cst)
                        th[a] = {} if a[0] == 'eq0' else (C(1) if k > 0 else {})
        rep.check(kd, name + ' negligible components and posteriors', bad is None, (bad[0] if bad else st[0]).ins.loc(), '%s: components or posteriors up to %s are left out' % (name, bad and float(bad[1])), key=name + ':small')
        for s in st:
            s.when = sub_facts(s.when, th)
        p = ld(post, scale(add(i, mul(j, NC)), sz))
        u, v = ld(enc, cell), ld(enc, add(half, cell))
        diff = [mul(sub(ld(data, scale(add(mul(j, D), d), sz)), ld(mu, cell)), x) for x in sigs]
        L3 = [('i', NC), ('j', ND), ('d', D)]
        L2 = [('i', NC), ('d', D)]
        w1 = C(1)
        upre = [inv(mul(ND, fn('sqrt', ld(pri, scale(i, sz)))))]
        two = scale(ld(pri, scale(i, sz)), 2)
        vpre = [inv(mul(ND, fn('sqrt', two)))]
        sp = lambda *a: Spec('', *a, facts=facts)
        tot = scale(mul(D, NC), 2)
        eps = tiny(st)
        specs = [
            ('first order sum', [[(sp(L3, enc, cell, [add(u, mul(p, x)) for x in diff]), w1)]], []),
            ('second order sum', [[(sp(L3, enc, add(half, cell), [add(v, mul(p, sub(mul(x, x), C(1)))) for x in diff]), w1)]], []),
            ('first order scale', [[(sp(L2, enc, cell, [mul(u, x) for x in upre]), w1)]], ['first order sum']),
            ('second order scale', [[(sp(L2, enc, add(half, cell), [mul(v, x) for x in vpre]), w1)]], ['second order sum']),
            ('signed square root', squared(enc, '', [('d', tot)], scale(d, sz), flag(fl, K['VL_FISHER_FLAG_SQUARE_ROOT']), facts), ['first order scale', 'second order scale']),
            ('normalisation', [[(sp([('d', tot)], enc, scale(d, sz), normalise(enc, scale(d, sz), lambda k: scale(k, sz), tot, eps)), flag(fl, K['VL_FISHER_FLAG_NORMALIZED']))]]),
        ]
        zs = zeroed(rep, kd, name, f, E, enc, scale(mul(D, NC), 2 * sz), st, facts, C(1))
        passes(rep, kd, name, f, E, [s for s in st if s not in zs], specs)
        rep.count('stores', len(allst))
        counted(rep, kd, name, f, E, pri, post, facts, NC, ND, sz)
    except (alg.Unknown, KeyError, StopIteration) as e:
        rep.skip(kd, name, str(e))


def negligible(a, bases):
    """(load, sense) of a comparison of one prior or posterior with a small constant"""
    if a[0] in ('gt0', 'eq0'):
        p = thaw(a[1])
        at = alg.atoms(p)
        if len(at) == 1 and all(len(mn) <= 1 for mn in p):
            x = next(iter(at))
            k = p.get(((x, 1),), Q(0))
            if x[0] == 'ld' and x[1] in bases and k:
                return x, k > 0, a[0]
    return None


def counted(rep, kd, name, f, E, pri, post, facts, NC, ND, sz):
    """the value returned is the number of pairs of component and vector that were averaged"""
    def norm(a):
        q = negligible(a, (pri, post))
        if q is None:
            return facts.get(a)
        x, up, k = q
        z = A('big', freeze(A(*x)))
        return {} if k == 'eq0' else (z if up else sub(C(1), z))
    big = lambda p: A('big', freeze(p))
    empty = lambda a: {} if a[0] == 'sum' and not a[2] else None
    for b in range(len(f.blocks)):
        for i in f.blocks[b]:
            if i.op == 'ret' and i.ops:
                v = E.at(i.ops[0], b)
                v = scev.mapatoms(scev.mapatoms(scev.mapatoms(scev.mapatoms(v, norm), norm), empty), empty)
                w = SUM(lambda k: mul(big(ld(pri, scale(k, sz))), SUM(lambda j: big(ld(post, scale(add(k, mul(j, NC)), sz))), ND)), NC, 1)
                if any(a[0] in ('v', 'pick', 'undef') for a in scev.deep_atoms(v)):
                    rep.skip(kd, name + ' number of averaging operations', alg.show(v)[:200])
                else:
                    rep.check(kd, name + ' number of averaging operations', same(v, w), i.loc(), '%s: the value returned is %s' % (name, alg.show(v)[:300]), key=name + ':count')


def hard(rep, kd, name, f, E, ps, post, NC, ND, sz, fast, facts, t):
    """the largest posterior of every vector becomes one, the others zero"""
    if len(ps) != 1:
        rep.skip(kd, name + ' hard assignment', 'shape')
        return
    s = ps[0]
    vs = [a for a in scev.deep_atoms(s.val) if a[0] == 'v']
    R = kern.best(E, vs[0][1]) if len(vs) == 1 else None
    if R is None or len(s.chain) != 2:
        rep.skip(kd, name + ' hard assignment', s.show()[:200])
        return
    if R.frozen:
        rep.bad(kd, name + ' hard assignment: largest posterior', f.vals[vs[0][1]].loc(), '%s: the search compares every posterior with the same value' % name, key=name + ':best')
        return
    js = s.chain[0][0]
    J, B = A('it', js), A('v', vs[0][1])
    at = lambda k: ld(post, scale(add(k, mul(J, NC)), sz))
    it = A('it', R.h)
    good = R.kind == 'max' and R.newidx is not None and vs[0][1] == R.idxphi and same(R.newval, at(R.newidx))
    first = R.newidx is not None and same(R.idx0, {})
    k0 = sub(R.newidx, it) if R.newidx is not None else None
    lowest = bool(k0 is not None and all(a[0] == 'fpconst' for a in alg.atoms(R.val0)) and len(R.val0) == 1) or (R.val0 == {()} if False else False)
    full = k0 is not None and R.n is not None and ((same(k0, C(1)) and same(R.n, sub(NC, C(1))) and same(R.val0, at({}))) or (same(k0, {}) and same(R.n, NC) and (same(R.val0, at({})) or lowest or same(R.val0, C(-1)))))
    rep.check(kd, name + ' hard assignment: largest posterior', good and first and full, f.vals[vs[0][1]].loc(), '%s: the search does not return the largest of the %s posteriors of a vector' % (name, 'numClusters'), key=name + ':best')
    out = s.chain[1][0]
    c = eq0(sub(A('it', out), B))
    ok = same(s.val, c) and same(s.off, scale(add(A('it', out), mul(J, NC)), sz)) and same(sub_facts(s.chain[0][1], facts), ND) and same(sub_facts(s.chain[1][1], facts), NC)
    rep.check(kd, name + ' hard assignment', ok, s.ins.loc(), '%s: with VL_FISHER_FLAG_FAST the posteriors become %s' % (name, s.show()[:200]), key=name + ':hard')
    rep.check(kd, name + ' hard assignment: option', same(s.when, fast), s.ins.loc(), '%s: the posteriors are made hard when %s' % (name, alg.show(s.when)[:200]), key=name + ':fast')


# -- homogeneous kernel map ----------------------------------------------------------

def norm(x):
    """hashable form of a polynomial with rounded constants (constants folded by the compiler differ in the last digit)"""
    if isinstance(x, Q):
        return '%.9e' % float(x)
    if isinstance(x, tuple):
        t = tuple(norm(y) for y in x)
        return tuple(sorted(t, key=repr)) if x and all(isinstance(y, tuple) for y in x) else t
    return x


def const(p):
    return Q(0) if not p else p[()] if list(p) == [()] else None


def near(p, q):
    return norm(freeze(p)) == norm(freeze(q))


def fields(rep, kd, f, E, obj):
    """offsets of the map's fields by the role of the values the constructor stores"""
    out = {}
    for s in kern.stores(E, want=lambda b: b == obj, guards=False):
        k = const(s.off)
        if k is None:
            return None
        v, c = s.val, const(s.val)
        role = None
        for a, r in ((0, 'kernel'), (1, 'gamma'), (2, 'order'), (4, 'window')):
            if same(v, A('arg', a)):
                role = r
        at = scev.deep_atoms(v)
        if role is None and c is not None:
            role = 'min' if c < 0 else 'max'
        elif role is None and any(a[0] == 'base' or a[0] == 'callv' for a in at):
            role = 'table'
        elif role is None and ('arg', 3) in at:
            role = 'period'
        elif role is None and len(v) == 1 and all(x[0] == 'inv' or k_ < 0 for x, k_ in next(iter(v))):
            role = 'step'
        elif role is None and ('arg', 2) in at:
            role = 'steps'
        if role is None or role in out:
            return None
        out[role] = (int(k), s)
    return out if len(out) == 10 else None


DEFAULT = {('VlHomogeneousKernelMapWindowUniform', 'VlHomogeneousKernelChi2'): (Q('5.86'), 'sqrt', Q(0), Q('3.65')),
           ('VlHomogeneousKernelMapWindowUniform', 'VlHomogeneousKernelJS'): (Q('6.64'), 'sqrt', Q(0), Q('7.24')),
           ('VlHomogeneousKernelMapWindowUniform', 'VlHomogeneousKernelIntersection'): (Q('2.38'), 'log', Q('0.8'), Q('5.6')),
           ('VlHomogeneousKernelMapWindowRectangular', 'VlHomogeneousKernelChi2'): (Q('8.80'), 'sqrt', Q('4.44'), Q('-12.6')),
           ('VlHomogeneousKernelMapWindowRectangular', 'VlHomogeneousKernelJS'): (Q('9.63'), 'sqrt', Q('1'), Q('-2.93')),
           ('VlHomogeneousKernelMapWindowRectangular', 'VlHomogeneousKernelIntersection'): (Q('2'), 'log', Q('0.99'), Q('3.52'))}
KERNELS = ['VlHomogeneousKernelIntersection', 'VlHomogeneousKernelChi2', 'VlHomogeneousKernelJS']
WINDOWS = ['VlHomogeneousKernelMapWindowUniform', 'VlHomogeneousKernelMapWindowRectangular']


def spectrum(k, w):
    e = add(fn('exp', scale(w, PI)), fn('exp', scale(w, -PI)))
    if k == 'VlHomogeneousKernelIntersection':
        return scale(inv(add(C(1), scale(mul(w, w), 4))), 2 / PI)
    if k == 'VlHomogeneousKernelChi2':
        return scale(inv(e), 2)
    import math
    return scale(mul(inv(e), inv(add(C(1), scale(mul(w, w), 4)))), 4 / Q(math.log(4)))


def given(atom_, values, val):
    """facts: the option (a polynomial consisting of one atom) has the value val"""
    out = {}
    for v in values:
        out[atom(eq0(sub(atom_, C(v))))] = C(1) if v == val else {}
    return out


def homkermap(rep, m):
    kd = 'homogeneous kernel map'
    name = 'vl_homogeneouskernelmap_new'
    f = m.F(name)
    if f is None or len(f.args) != 5:
        rep.skip(kd, name, 'not defined')
        return
    K = build.constants('vl/homkermap.h', KERNELS + WINDOWS)
    if len(K) != 5:
        rep.skip(kd, name, 'constants')
        return
    try:
        E = scev.Scev(f)
        objs = {s.base for s in kern.stores(E, guards=False) if s.base[0] == 'call' and same(s.val, A('arg', 1))}
        if len(objs) != 1:
            rep.skip(kd, name, 'object')
            return
        obj = objs.pop()
        F = fields(rep, kd, f, E, obj)
        if F is None:
            rep.skip(kd, name, 'fields')
            return
        off = {r: k for r, (k, s) in F.items()}
        order, gamma = A('arg', 2), A('arg', 1)
        # the range of the table
        lo, hi = const(F['min'][1].val), const(F['max'][1].val)
        rep.check(kd, name + ' range', lo == -20 and hi == 8, F['min'][1].ins.loc(), '%s: the table covers [2^%s, 2^%s)' % (name, lo, hi), key=name + ':range')
        steps = F['steps'][1].val
        rep.check(kd, name + ' step', near(F['step'][1].val, inv(steps)) or near(F['step'][1].val, inv(ld(obj, C(off['steps'])))), F['step'][1].ins.loc(),
                  '%s: the subdivision is %s, not one over the number of subdivisions' % (name, alg.show(F['step'][1].val)), key=name + ':step')
        # the period
        p = F['period'][1]
        for w in WINDOWS:
            for k in KERNELS:
                facts = given(A('arg', 0), [K[x] for x in KERNELS], K[k])
                facts.update(given(A('arg', 4), [K[x] for x in WINDOWS], K[w]))
                c, g, x, y = DEFAULT[w, k]
                want = add(scale(fn(g, add(order, C(x))), c), C(y))
                v = sub_facts(p.val, facts)
                lbl = 'default period (%s, %s)' % (k[len('VlHomogeneousKernel'):], w[len('VlHomogeneousKernelMapWindow'):])
                P3 = A('arg', 3)
                cases = {'negative': dict(facts), 'null': None, 'positive': dict(facts)}
                for a in alg.atoms(gt0(P3)) | alg.atoms(gt0(scale(P3, -1))):
                    up = same(thaw(a[1]), P3) if a[0] == 'gt0' else None
                    if a[0] == 'gt0':
                        cases['negative'][a] = {} if up else C(1)
                        cases['positive'][a] = C(1) if up else {}
                cases['negative'][atom(eq0(P3))] = cases['positive'][atom(eq0(P3))] = {}
                for case in ('negative', 'null', 'positive'):
                    if case == 'null':
                        z = sub_facts(scev.mapatoms(p.val, lambda a: {} if a == ('arg', 3) else None), facts)
                    else:
                        z = sub_facts(p.val, cases[case])
                    if any(a[0] in ('v', 'pick', 'undef') for a in scev.deep_atoms(z)):
                        rep.skip(kd, '%s %s %s' % (name, lbl, case), 'shape')
                        continue
                    if case == 'positive':
                        rep.check(kd, '%s period (%s, %s)' % (name, k[len('VlHomogeneousKernel'):], w[len('VlHomogeneousKernelMapWindow'):]), near(z, P3), p.ins.loc(), '%s: a positive period becomes %s' % (name, alg.show(z)[:200]), key='%s:period:%s:%s' % (name, k, w))
                    else:
                        rep.check(kd, '%s %s, %s' % (name, lbl, case), near(z, maxv(want, C(1))) or near(z, maxv(C(1), want)), p.ins.loc(),
                                  '%s: with a %s period the %s is %s' % (name, case, lbl, alg.show(z)[:200]), key='%s:%s:%s' % (name, lbl, case))
        # the table
        tab = E.addr_at(F['table'][1].ins.ops[0], F['table'][1].ins.block)[0]
        fw = {}
        for r in ('kernel', 'gamma', 'order', 'window', 'steps', 'step', 'min', 'max'):
            fw[ld(obj, C(off[r])).keys().__iter__().__next__()[0][0]] = F[r][1].val
        tabs = (tab, next(iter(ld(('*', obj, freeze(C(off['table']))), {})))[0][0][1])
        def fwd(a):
            if a in fw:
                return fw[a]
            if a[0] == 'ld' and a[1] in tabs[1:]:
                return scev.mapatoms(ld(tab, thaw(a[2])), lambda z: fwd(z) if z != a else None)
            return None
        sub_ = lambda q: scev.mapatoms(scev.mapatoms(q, fwd), fwd)
        st = [s for s in kern.stores(E, guards=False) if s.base in tabs]
        for s in st:
            s.base = tab
            s.off, s.val = sub_(s.off), sub_(s.val)
            s.chain = [(h, n if n is None else sub_(n)) for h, n in s.chain]
        W = mul(steps, C(hi - lo + 1))
        feat = add(scale(order, 2), C(1))
        kap = mul(W, feat)
        frq = add(kap, add(order, C(1)))
        al = f.vals.get(tab[1])
        size = sub_(E.at(al.ops[0], al.block))
        room = sub(size, scale(add(frq, add(order, C(1))), 8))
        rep.check(kd, name + ' size of the table', all(c >= 0 for c in room.values()), al.loc(), '%s: the table has %s bytes, less than its entries need' % (name, alg.show(size)), key=name + ':size')
        P = ld(obj, C(off['period']))
        i, o, j = I('i'), I('o'), I('j')
        x = fn('ldexp', add(C(1), mul(i, inv(steps))), add(o, C(lo)))
        row = scale(mul(add(mul(o, steps), i), feat), 8)
        ks = lambda k: ld(tab, scale(add(kap, k), 8))
        fs = lambda k: ld(tab, scale(add(frq, k), 8))
        j1 = add(j, C(1))
        specs = []
        rows = [s for s in st if len(s.chain) >= 2]
        spec_rows = []
        for q in (P, F['period'][1].val):
            Lx = scale(mul(fn('pow', x, gamma), inv(q)), 2 * PI)
            arg = scale(mul(fs(j1), mul(inv(q), fn('log', x))), 2 * PI)
            amp = fn('sqrt', scale(mul(Lx, ks(j1)), 2))
            spec_rows.append([('constant component', [('o', C(hi - lo + 1)), ('i', steps)], row, fn('sqrt', mul(Lx, ks({})))),
                              ('cosine components', [('o', C(hi - lo + 1)), ('i', steps), ('j', order)], add(row, scale(add(scale(j, 2), C(1)), 8)), mul(amp, fn('cos', arg))),
                              ('sine components', [('o', C(hi - lo + 1)), ('i', steps), ('j', order)], add(row, scale(add(scale(j, 2), C(2)), 8)), mul(amp, fn('sin', arg)))])
        left = list(rows)
        for alts in zip(*spec_rows):
            nm = alts[0][0]
            c = [s for s in left for a in alts if fits(s, a)]
            if c:
                left.remove(c[0])
                rep.ok(kd, '%s %s' % (name, nm))
                specs.append((nm, c[0]))
            else:
                specs.append((nm, None))
        for nm, s in specs:
            if s is None:
                lost = [t for t in left if len(t.chain) == (2 if nm.startswith('const') else 3)]
                if lost and all(kern.recognised(t, KNOWN) for t in left) and len(left) == sum(1 for _, z in specs if z is None):
                    rep.bad(kd, '%s %s' % (name, nm), lost[0].ins.loc(), '%s: the %s of the table are not as defined: %s' % (name, nm, lost[0].show()[:300]), key='%s:%s' % (name, nm))
                else:
                    rep.skip(kd, '%s %s' % (name, nm), '; '.join(t.show()[:200] for t in left))
        pre = [s for s in st if len(s.chain) == 1]
        rep.check(kd, name + ' spectrum first', all(kern.before(E, a.ins, b.ins) for a in pre for b in rows), f.instrs[0].loc(), '%s: the table is filled before the spectrum is sampled' % name, key=name + ':order')
        spectra(rep, kd, name, f, E, pre, kap, frq, order, P, F['period'][1].val, K, fw)
    except (alg.Unknown, KeyError, StopIteration, ValueError) as e:
        rep.skip(kd, name, str(e))
        return
    rep.count('stores', len(st))
    for t in 'fd':
        evaluate(rep, kd, m, t, off)


KNOWN = kern.KNOWN | {'callv'}


def fits(s, spec):
    import itertools
    nm, loops, off, val = spec
    if len(s.chain) != len(loops) or any(n is None for _, n in s.chain):
        return False
    for p in itertools.permutations(loops):
        m = {('it', h): I(n) for (h, _), (n, _) in zip(s.chain, p)}
        g = lambda a: m.get(a)
        if all(near(scev.mapatoms(n, g), w) for (_, n), (_, w) in zip(s.chain, p)) and near(scev.mapatoms(s.off, g), off) and near(scev.mapatoms(s.val, g), val):
            return True
    return False


def spectra(rep, kd, name, f, E, pre, kap, frq, order, P, pv, K, fw):
    """samples of the spectrum and their frequencies"""
    vs = {a for s in pre for a in alg.atoms(s.off) if a[0] == 'v'}
    if len(pre) == 2 and not vs and all(n is not None for s in pre for _, n in s.chain):
        if any(same(s.off, scale(add(b, A('it', s.chain[0][0])), 8)) for s in pre for b in (kap, frq)):
            rep.bad(kd, name + ' spectrum', pre[0].ins.loc(), '%s: frequencies at which the spectrum vanishes are kept as samples' % name, key=name + ':spectrum')
            return
    if len(pre) != 2 or len(vs) != 1:
        rep.skip(kd, name + ' spectrum', '; '.join(s.show()[:100] for s in pre))
        return
    v = vs.pop()
    V = A(*v)
    ks = [s for s in pre if same(s.off, scale(add(kap, V), 8))]
    fq = [s for s in pre if same(s.off, scale(add(frq, V), 8))]
    if len(ks) != 1 or len(fq) != 1:
        rep.bad(kd, name + ' spectrum', pre[0].ins.loc(), '%s: the samples of the spectrum and their frequencies are not stored at the positions the table is computed from' % name, key=name + ':spectrum')
        return
    ks, fq = ks[0], fq[0]
    h = ks.chain[0][0]
    it = A('it', h)
    if any(a[0] in ('v', 'pick', 'undef') and a != v for a in scev.deep_atoms(fq.val)):
        rep.skip(kd, name + ' frequencies', alg.show(fq.val)[:200])
        return
    rep.check(kd, name + ' frequencies', same(fq.val, it), fq.ins.loc(), '%s: the frequency of a sample is %s' % (name, alg.show(fq.val)), key=name + ':freq')
    phi = f.vals[v[1]]
    ini = [E.at(*z) for z in phi.inc if z[1] not in f.loops[h]]
    stay = [E.reach(h, x)[x] for x in f.succ[h] if x in f.loops[h]]
    X = E.inner(h)
    ok = phi.block == h and len(ini) == 1 and same(ini[0], {})
    rep.check(kd, name + ' first sample', ok, phi.loc(), '%s: the samples of the spectrum do not start with the null frequency' % name, key=name + ':first')
    if len(stay) == 1 and len(E.exits(h)) == 1 and E.exits(h)[0][0] == h:
        rep.check(kd, name + ' number of samples', same(scev.mapatoms(stay[0], lambda a: fw.get(a)), ge0(sub(order, V))), phi.loc(), '%s: samples of the spectrum are taken while %s' % (name, alg.show(stay[0])), key=name + ':count')
    import math
    for k in KERNELS:
        for w in WINDOWS:
            # a sample of one kernel and window
            lbl = '%s spectrum (%s, %s)' % (name, k[len('VlHomogeneousKernel'):], w[len('VlHomogeneousKernelMapWindow'):])
            facts = {}
            for a in scev.deep_atoms(ks.val):
                if a[0] == 'eq0':
                    p = thaw(a[1])
                    at = alg.atoms(p)
                    if len(at) == 1:
                        z = next(iter(at))
                        kk = p.get(((z, 1),))
                        if kk and len(p) <= 2 and set(p) <= {((z, 1),), ()}:
                            c = -p.get((), Q(0)) / kk
                            if z == ('arg', 0):
                                facts[a] = C(1) if c == K[k] else {}
                            elif z == ('arg', 4):
                                facts[a] = C(1) if c == K[w] else {}
            val = sub_facts(ks.val, facts)
            done = False
            for q in (P, pv):
                om = scale(mul(it, inv(q)), 2 * PI)
                if w.endswith('Uniform'):
                    done = done or near(val, spectrum(k, om))
                else:
                    done = done or smoothed(E, f, val, k, om, q)
            if any(a[0] in ('v', 'pick', 'undef') and a != v for a in scev.deep_atoms(val)):
                rep.skip(kd, lbl, alg.show(val)[:200])
            else:
                rep.check(kd, lbl, done, ks.ins.loc(), '%s: sample of the spectrum: %s' % (lbl, alg.show(val)[:400]), key=lbl)


def smoothed(E, f, val, k, om, P):
    """max(d * sum over u in [-R, R] step d of sinc(P u / 2) P / (2 pi) S(u + om), 0)"""
    gs = [thaw(a[1]) for a in scev.deep_atoms(val) if a[0] == 'gt0']
    for body in gs:
        for sgn in (1, -1):
            z = scale(body, sgn)
            ex = [a for a in scev.deep_atoms(z) if a[0] == 'exit']
            if len(set(ex)) != 1:
                continue
            n = A(*ex[0])
            hh = ex[0][1]
            # the step from the loop's stay test
            for arg in [thaw(a[2]) for a in scev.deep_atoms(z) if a[0] == 'fn' and a[1] == 'sin']:
                u = scale(mul(arg, inv(P)), 2)
                bv = [a for a in alg.atoms(u) if a[0] == 'bv']
                if len(bv) != 1:
                    continue
                B = A(*bv[0])
                d = {tuple((a, e) for a, e in mono if a != bv[0]): c for mono, c in u.items() if any(a == bv[0] for a, e in mono)}
                R = scale(sub(u, mul(d, B)), -1)
                stay = [E.reach(hh, x)[x] for x in f.succ[hh] if x in f.loops[hh]]
                itp = lambda p: scev.mapatoms(p, lambda a: A('it', hh) if a == bv[0] else None)
                r, dd = mul(R, P), mul(d, P)
                if const(r) is None or const(dd) is None or not (const(r) >= 50 and 0 < const(dd) <= 1):
                    continue
                Pm = [P]
                ok = len(stay) == 1 and any(near(stay[0], ge0(mul(y, sub(R, itp(u))))) for y in [C(1), P, inv(P)])
                if not ok:
                    continue
                sv = lambda b: scev.mapatoms(u, lambda a: b if a == bv[0] else None)
                lanes = bv[0][1]
                def term(b):
                    a_ = scale(mul(sv(b), P), Q(1, 2))
                    sinc = sel(eq0(a_), C(1), mul(fn('sin', a_), inv(a_)))
                    return mul(mul(sinc, scale(P, 1 / (2 * PI))), spectrum(k, add(sv(b), om)))
                total = mul(d, SUM(term, n, lanes))
                for t in (total,):
                    for w in (maxv(t, {}), maxv({}, t)):
                        if near(val, w):
                            return True
    return False


def evaluate(rep, kd, m, t, off):
    """interpolated evaluation from the table"""
    f = m.F('vl_homogeneouskernelmap_evaluate_' + t)
    name = 'vl_homogeneouskernelmap_evaluate_' + t
    if f is None or len(f.args) != 4:
        rep.skip(kd, name, 'not defined')
        return
    E = scev.Scev(f)
    try:
        st = kern.stores(E, guards=False)
        dst = [s for s in st if s.base == ('arg', 1)]
        oth = [s for s in st if s.base != ('arg', 1)]
        fr = [i for b in range(len(f.blocks)) for i in f.blocks[b] if i.op == 'call' and i.callee_name() in ('frexp', 'frexpf')]
        if len(fr) != 1:
            rep.skip(kd, name, 'decomposition')
            return
        fr = fr[0]
        rep.check(kd, name + ' decomposition', same(E.at(fr.ops[0], fr.block), A('arg', 3)), fr.loc(), '%s: the number decomposed is not x' % name, key=name + ':frexp')
        M = E.at(fr.id, fr.block)
        cell, co = E.addr_at(fr.ops[1], fr.block)
        ex = ld(cell, co)
        if len(oth) == 1 and oth[0].base == cell and same(oth[0].off, co) and same(oth[0].val, sub(ex, C(1))) and not oth[0].chain:
            # the cell is decremented once, before every other use
            own = {i.id for b in range(len(f.blocks)) for i in f.blocks[b] if i.op == 'load' and E.addr_at(i.ops[0], i.block)[0] == cell}
            w = oth[0].ins
            late = [i for i in own if not (f.instrs.index(f.vals[i]) > f.instrs.index(w) if f.vals[i].block == w.block else f.dominates(w.block, f.vals[i].block))]
            if len(late) != 1 or not f.dominates(fr.block, w.block):
                rep.skip(kd, name, 'exponent')
                return
            e1 = ex
        elif not oth:
            e1 = sub(ex, C(1))
        else:
            rep.skip(kd, name, 'exponent')
            return
        obj = ('arg', 0)
        g = lambda r: ld(obj, C(off[r]))
        order, N, step, lo, hi = g('order'), g('steps'), g('step'), g('min'), g('max')
        feat = add(scale(order, 2), C(1))
        tab = ('*', obj, freeze(C(off['table'])))
        tab = next(iter(ld(tab, {})))[0][0][1]
        zero = [s for s in dst if same(s.val, {})]
        vals = [s for s in dst if s not in zero]
        if len(zero) != 1 or len(vals) != 1 or len(vals[0].chain) != 1 or len(zero[0].chain) != 1:
            rep.skip(kd, name, 'stores')
            return
        z, v = zero[0], vals[0]
        sz = 4 if t == 'f' else 8
        for s, nm in ((z, 'values out of range'), (v, 'values')):
            it = A('it', s.chain[0][0])
            n = s.chain[0][1]
            rep.check(kd, '%s %s: components' % (name, nm), n is not None and same(n, feat) and same(s.off, scale(mul(it, A('arg', 2)), sz)), s.ins.loc(), '%s: the components written are %s' % (name, s.show()[:200]), key='%s:%s' % (name, nm))
        zw, vw = kern.when(E, z.ins.block), kern.when(E, v.ins.block)
        outside = sub(C(1), mul(NOT(gt0(sub(lo, e1))), NOT(ge0(sub(e1, hi)))))
        for sg in (1, 0, -1):
            pos = {}
            if sg:
                for a in scev.deep_atoms(v.val) | scev.deep_atoms(zw) | scev.deep_atoms(vw):
                    if a[0] == 'gt0' and len(thaw(a[1])) == 1 and alg.atoms(thaw(a[1])) == alg.atoms(M):
                        c = next(iter(thaw(a[1]).values()))
                        pos[a] = C(1) if c * sg > 0 else {}
                    elif a[0] == 'eq0' and len(thaw(a[1])) == 1 and alg.atoms(thaw(a[1])) == alg.atoms(M):
                        pos[a] = {}
            else:
                pos[atom(M)] = {}
                pos[('arg', 3)] = {}
            def at(p):
                for _ in range(4):
                    p = scev.mapatoms(p, lambda a: pos.get(a) if a in pos else again(a, M, sg))
                return p
            nm = {1: 'positive', 0: 'null', -1: 'negative'}[sg]
            lbl = '%s %s values' % (name, nm)
            a, b = at(zw), at(vw)
            wa = C(1) if sg == 0 else outside
            if any(x[0] in ('v', 'pick', 'undef') for x in scev.deep_atoms(a) | scev.deep_atoms(b)):
                rep.skip(kd, lbl, 'condition')
                continue
            rep.check(kd, lbl + ': range', same(a, wa) and same(b, sub(C(1), wa)), z.ins.loc(), '%s: %s values map to zero when %s' % (name, nm, alg.show(a)[:300]), key='%s:%s:range' % (name, nm))
            if sg == 0:
                continue
            val = at(v.val)
            exs = [x for x in scev.deep_atoms(val) if x[0] == 'exit']
            if len(exs) != 1:
                rep.skip(kd, lbl, 'mantissa')
                continue
            hh = exs[0][1]
            k = A(*exs[0])
            mu = sub(scale(M, 2 * sg), C(1))
            stay = [at(E.reach(hh, y)[y]) for y in f.succ[hh] if y in f.loops[hh]]
            want = ge0(sub(sub(mu, mul(A('it', hh), step)), step))
            if len(stay) != 1 or E.exits(hh)[0][0] != hh or len(E.exits(hh)) != 1:
                rep.skip(kd, lbl, 'mantissa')
                continue
            rep.check(kd, lbl + ': subdivision', same(stay[0], at(want)), f.blocks[hh][0].loc(), '%s: the subdivision is advanced while %s' % (name, alg.show(stay[0])), key='%s:%s:stay' % (name, nm))
            it = A('it', v.chain[0][0])
            base = scale(add(mul(add(mul(sub(e1, lo), N), k), feat), it), 8)
            f1, f2 = ld(tab, base), ld(tab, add(base, scale(feat, 8)))
            alts = [scale(add(mul(sub(f2, f1), mul(y, sub(mu, mul(k, step)))), f1), sg) for y in (N, inv(step))]
            rep.check(kd, lbl, any(same(val, y) for y in alts), v.ins.loc(), '%s: %s values map to %s' % (name, nm, alg.show(val)[:400]), key='%s:%s' % (name, nm))
    except (alg.Unknown, KeyError, StopIteration) as e:
        rep.skip(kd, name, str(e))


def again(a, M, sg):
    """comparisons of the mantissa that only simplify after substitution"""
    if a[0] in ('gt0', 'eq0'):
        p = thaw(a[1])
        if (alg.atoms(p) == alg.atoms(M) or alg.atoms(p) == {('arg', 3)}) and len(p) == 1 and sg:
            c = next(iter(p.values()))
            return {} if a[0] == 'eq0' else (C(1) if c * sg > 0 else {})
    return None


def run():
    rep = report.Report('C36', RULE, 'scalar-evolution closed forms of address, value, iteration space and condition; pass order over the control-flow graph')
    m = ir.libi()
    for t in 'fd':
        vlad(rep, m, t)
        fisher(rep, m, t)
    homkermap(rep, m)
    rep.floor('obligations', len(rep.obl), 20)
    return rep
