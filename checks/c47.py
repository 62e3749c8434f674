"""C47: agglomerative information bottleneck"""
import math
import ir, report, alg, kern, spec, scev, let
from alg import C, A, same
from spec import Obl
import sift_detect as sd
from c46 import Fun, deref, is_zero, loops_of, carried
DEBUG = False
RULE = ('agglomerative information bottleneck: marginals and information follow their definition, the cost of merging two entries is the loss of information, '
        'closest entries are updated exactly by lower costs, merging adds the probabilities and keeps all entries, and the pair of least cost is merged until one or only null entries remain')
a = lambda n: ('arg', n)
ME = a(0)
FIELDS = ('nodes', 'nentries', 'beta', 'bidx', 'which', 'nwhich', 'Pcx', 'Px', 'Pc', 'nvalues', 'nlabels', 'parents', 'costs', 'verbosity')
BIG = 10 ** 300


def offs():
    return {k: int(alg.cval(o)) for k, o in spec.offsets('vl/aib.h', 'VlAIB', FIELDS).items()}


def near(x, y):
    return abs(float(x) - float(y)) <= 1e-9 * (1 + abs(float(y)))


def frac(x):
    return alg.Fraction(x).limit_denominator(10 ** 12)


class World:
    def __init__(self, n, C_, zero):
        self.n, self.C = n, C_
        p = [[(3 * r * r + 5 * c + 2 * r * c) % 7 + (1 if r != 1 or c else 0) for c in range(C_)] for r in range(n)]
        for r, c in zero:
            p[r][c] = 0
        if C_ == 2:
            p[2][1] = 10 ** 8
        self.s = sum(map(sum, p))
        self.p = [[alg.Fraction(x, self.s) for x in q] for q in p]
        self.px = [sum(q) for q in self.p]
        self.pc = [sum(q[c] for q in self.p) for c in range(C_)]

    def joint(self, o):
        o = int(o) // 8
        return self.p[o // self.C][o % self.C]

    def own(self, r):
        """sum_c p log (p / px)"""
        return sum(float(x) * math.log(float(x) / float(self.px[r])) for x in self.p[r] if x)

    def cost(self, i, j):
        pl = lambda x: float(x) * math.log(float(x)) if x else 0
        return self.own(i) + self.own(j) - sum(pl(x + y) for x, y in zip(self.p[i], self.p[j])) + pl(self.px[i] + self.px[j])


WORLDS = [World(4, 3, [(2, 1), (3, 1)]), World(3, 2, []), World(5, 3, [(1, 0), (3, 0), (3, 1), (3, 2)])]


def mem(O, w, extra=None):
    t = {ME: {O['nentries']: w.n, O['nvalues']: w.n, O['nlabels']: w.C, O['nwhich']: w.n, O['verbosity']: 0},
         deref(ME, O['Pcx']): w.joint, deref(ME, O['Px']): lambda o: w.px[int(o) // 8], deref(ME, O['Pc']): lambda o: w.pc[int(o) // 8]}
    t.update(extra or {})
    return t


def marginals(rep, m):
    O = offs()
    F = Fun(m, 'vl_aib_normalize_P')
    T = Obl(rep, 'aib', F.name)
    if len(F.sts) == 1 and len(F.sts[0].chain) == 1:
        s = F.sts[0]
        P = [3, 1, 0, 4]
        got = {o: v for _, o, v in let.effects(F.L, [s], sd.walk, {}, lambda its: F.env({1: 4}, {a(0): lambda o: P[int(o) // 8]}, its))}
        T('normalised', s.base == a(0) and {int(o): float(v) for o, v in got.items()} == {8 * i: P[i] / 8 for i in range(4)}, s.ins, 'every element is divided by the sum of all: %s' % sorted(got.items())[:3])
    else:
        T.skip('normalised', '%d stores' % len(F.sts))
    for name, want, n in (('vl_aib_new_Px', 'px', 'n'), ('vl_aib_new_Pc', 'pc', 'C')):
        F = Fun(m, name)
        T = Obl(rep, 'aib', name)
        if len(F.sts) != 1 or F.sts[0].base[0] != 'call':
            T.skip('marginal', '%d stores' % len(F.sts))
            continue
        s = F.sts[0]
        bad = None
        for w in WORLDS:
            e = lambda its: F.env({1: w.n, 2: w.C}, {a(0): w.joint}, its)
            got = {int(o): v for _, o, v in let.effects(F.L, [s], sd.walk, {}, e)}
            exp = {8 * i: x for i, x in enumerate(getattr(w, want))}
            if got != exp:
                bad = bad or 'for %d values and %d labels' % (w.n, w.C)
            al = next(i for i in F.f.instrs if i.id == s.base[1])
            if F.val(al.ops[0], al, e({})) < 8 * getattr(w, n):
                bad = bad or 'no room for %d sums' % getattr(w, n)
        T('marginal', bad is None, s.ins, 'the sums of the table: %s' % bad)
    F = Fun(m, 'vl_aib_new_nodelist')
    T = Obl(rep, 'aib', F.name)
    if len(F.sts) == 1 and F.sts[0].base[0] == 'call':
        s = F.sts[0]
        got = {int(o): int(v) for _, o, v in let.effects(F.L, [s], sd.walk, {}, lambda its: F.env({0: 6}, {}, its))}
        al = next(i for i in F.f.instrs if i.id == s.base[1])
        T('list', got == {4 * i: i for i in range(6)} and F.val(al.ops[0], al, F.env({0: 6}, {})) >= 24, s.ins, 'the list of all entries')


def information(rep, m):
    O = offs()
    F = Fun(m, 'vl_aib_calculate_information')
    T = Obl(rep, 'aib', F.name)
    for k, name in ((1, 'information'), (2, 'entropy')):
        st = [s for s in F.sts if s.base == a(k)]
        acc = [s for s in st if s.chain]
        z = [s for s in st if not s.chain]
        if not acc or not z:
            T.skip(name, '%d stores' % len(st))
            continue
        bad = None
        for w in WORLDS:
            mk = lambda its: F.env({}, mem(O, w, {a(1): lambda o: 0, a(2): lambda o: 0}), its)
            tot = sum(float(v) for _, o, v in let.effects(F.L, acc, sd.walk, {}, mk))
            if k == 1:
                want = sum(float(x) * math.log(float(x) / float(w.px[r] * w.pc[c])) for r in range(w.n) for c, x in enumerate(w.p[r]) if x)
            else:
                want = -sum(float(x) * math.log(float(x)) for x in w.px if x)
            if not near(tot, want):
                bad = bad or '%.6g instead of %.6g' % (tot, want)
        T(name, bad is None, acc[0].ins, 'the %s of the entries: %s' % (name, bad))
        T('%s start' % name, all(is_zero(s.val) and kern.before(F.E, s.ins, x.ins) for s in z for x in acc), acc[0].ins, 'the sum starts from zero')


def costs(rep, m):
    O = offs()
    F = Fun(m, 'vl_aib_update_beta')
    f, L, E = F.f, F.L, F.E
    T = Obl(rep, 'aib', F.name)
    B, X = deref(ME, O['beta']), deref(ME, O['bidx'])
    bs = [s for s in F.sts if s.base == B]
    xs = [s for s in F.sts if s.base == X]
    tm = [s for s in F.sts if s.base[0] == 'call']
    if len(bs) != 2 or len(xs) != 2 or not tm or any(len(s.chain) != 2 for s in bs + xs):
        return T.skip('costs', '%d, %d stores' % (len(bs), len(xs)))
    tmp = tm[0].base
    # sums of each entry
    bad = None
    for w in WORLDS:
        mk = lambda its: F.env({}, mem(O, w, {tmp: lambda o: 0}), its)
        got = {}
        for s in tm:
            try:
                for _, o, v in let.effects(L, [s], sd.walk, {}, mk):
                    got[int(o) // 8] = got.get(int(o) // 8, 0) + float(v)
            except (ZeroDivisionError, ValueError):
                bad = bad or 'logarithm of or division by zero'
        if bad is None and not (sorted(got) == list(range(w.n)) and all(abs(got[r] - w.own(r)) <= 1e-6 * abs(w.own(r)) + 1e-15 for r in got)):
            bad = 'sums %s instead of %s' % ({k: round(v, 4) for k, v in got.items()}, [round(w.own(r), 4) for r in range(w.n)])
        al = next(i for i in f.instrs if i.id == tmp[1])
        one = F.env({}, mem(O, w, {ME: {O['nentries']: w.n, O['nvalues']: w.n + 1, O['nlabels']: 1, O['nwhich']: 1, O['verbosity']: 0}}))
        if F.val(al.ops[0], al, one) < 8 * w.n:
            bad = bad or 'no room'
    T('sums', bad is None, tm[-1].ins, 'the sum of p log (p / P) of each entry: %s' % bad)
    T('sums before', all(kern.before(E, t.ins, s.ins) for t in tm for s in bs), tm[-1].ins, 'costs use complete sums')
    il, bl = [h for h, _ in bs[0].chain]
    ca = [x for x in scev.deep_atoms(bs[0].val) if x[0] == 'v']
    if len(ca) != 1 or f.vals[ca[0][1]].op != 'phi' or f.vals[ca[0][1]].block not in f.loops:
        return T.skip('costs', 'cost')
    p = f.vals[ca[0][1]]
    cl = p.block
    ini = [(o, q) for o, q in p.inc if q not in f.loops[cl]]
    nxt = [(o, q) for o, q in p.inc if q in f.loops[cl]]
    bad = None
    # the sum after one label, by the way the sum is carried there
    o, q = nxt[0]
    v = None if isinstance(o, (list, tuple)) else f.vals[o]
    way = [(o, q)]
    if getattr(v, 'op', None) == 'phi' and v.block in f.loops[cl] and v.block not in f.loops:
        way = v.inc
    way = [(o, q) for o, q in way if o != p.id]
    ex = [y for s in bs + xs for y in (s.val, s.off)] + [L.at(o, q) for o, q in way]
    K = lambda v, ini=0: {('v', p.id): v, **carried(F, cl, ex, v - ini)}
    for w in WORLDS:
        which = lambda o: (int(o) // 4 + 1) % w.n
        base = {tmp: lambda o: frac(w.own(int(o) // 8)), deref(ME, O['which']): which}
        mk = lambda its, t={}: F.env({}, mem(O, w, {**base, **t}), its)
        if let.trips(L, il, mk({})) != w.n or let.trips(L, bl, mk({('it', il): 0})) != w.n or let.trips(L, cl, mk({('it', il): 0, ('it', bl): 0})) != w.C:
            bad = bad or 'not all pairs and labels are looked at'
            continue
        for i in range(w.n):
            ea = which(4 * i)
            for b in range(w.n):
                its = {('it', il): i, ('it', bl): b}
                skip = ea == b or w.px[ea] == 0 or w.px[b] == 0
                e = mk({**its, **K(0)}, {B: lambda o: BIG})
                r = sd.walk(L, sd.body(f, bl), {cl}, {bl, il}, e)
                if len(r) == 1 and r != {not skip}:
                    bad = bad or 'the pair of entries %d and %d %s looked at' % (ea, b, 'is' if True in r else 'is not')
                    continue
                if skip:
                    continue
                t0 = tot = frac(spec.num(E.at(*ini[0]), e))
                for c in range(w.C):
                    e = mk({**its, ('it', cl): c, **K(tot, t0)})
                    new = []
                    for o, q in way:
                        r = sd.walk(L, sd.body(f, cl), {q}, {cl}, e)
                        if len(r) != 1:
                            return T.skip('costs', 'undecided')
                        if True in r:
                            try:
                                new.append(spec.num(L.at(o, q), e))
                            except (ZeroDivisionError, ValueError):
                                new.append(BIG)
                                bad = bad or 'logarithm of zero for entries %d and %d' % (ea, b)
                    tot = frac(new[-1]) if new else tot
                if not near(tot, w.cost(ea, b)):
                    bad = bad or 'the cost of merging entries %d and %d is %.6g instead of %.6g' % (ea, b, tot, w.cost(ea, b))
                # both entries keep the better of what they have and this cost
                for ba, bb in ((5, 5), (5, 2), (2, 5), (2, 2), (3, 3)):
                    e = mk({**its, **K(3, t0)}, {B: lambda o: ba if int(o) // 8 == ea else bb if int(o) // 8 == b else 99})
                    got = {}
                    for s in bs + xs:
                        r = sd.walk(L, p.block, {s.ins.block}, {bl, il}, e)
                        if len(r) != 1:
                            return T.skip('costs', 'undecided')
                        if True in r:
                            got[(s.base == B, int(spec.num(s.off, e)) // (8 if s.base == B else 4))] = spec.num(s.val, e)
                    want = {}
                    for k, q, o in ((ea, ba, b), (b, bb, ea)):
                        if 3 < q:
                            want[(True, k)] = 3
                            want[(False, k)] = o
                    if got != want:
                        bad = bad or 'entries %d and %d of least costs %d and %d become %s with a cost of 3' % (ea, b, ba, bb, {('cost' if k[0] else 'closest', k[1]): int(v) for k, v in got.items()})
    T('costs', bad is None, bs[0].ins, 'the cost of a pair is the information lost by merging it, and lower costs replace higher ones: %s' % bad)


def merge(rep, m):
    O = offs()
    F = Fun(m, 'vl_aib_merge_nodes')
    f, L, E = F.f, F.L, F.E
    T = Obl(rep, 'aib', F.name)
    W = World(6, 2, [])
    names = {deref(ME, O[n]): n for n in ('Px', 'beta', 'nodes', 'Pcx', 'bidx', 'which')}
    size = {'Px': 8, 'beta': 8, 'nodes': 4, 'Pcx': 8, 'bidx': 4, 'which': 4}
    tok = {'Px': 100, 'beta': 200, 'nodes': 300, 'Pcx': 400, 'bidx': 500, 'which': 600}
    tabs = {b: (lambda o, n=n: tok[n] + int(o) // size[n]) for b, n in names.items()}
    loop = [s for s in F.sts if s.chain and s.base in names and names[s.base] in ('bidx', 'which', 'beta')]
    head = [s for s in F.sts if s not in loop and s.base in names]
    cnt = [s for s in F.sts if s.base == ME]
    hs = {s.chain[0][0] for s in loop}
    if len(hs) != 1:
        return T.skip('merge', 'loops')
    h = hs.pop()
    bad = None
    for i, j in ((1, 3), (3, 1), (0, 5), (5, 2), (4, 5)):
        lo, hi, last = min(i, j), max(i, j), 5
        mk = lambda its: F.env({1: i, 2: j, 3: 77}, {ME: {O['nentries']: 6, O['nlabels']: 2, O['nwhich']: 2}, **tabs}, its)
        got = {}
        for s in head:
            for _, o, v in let.effects(L, [s], sd.walk, {}, mk):
                n = names[s.base]
                got.setdefault((n, int(o) // size[n]), []).append((s, v))
        want = {}
        for n in ('Px', 'Pcx'):
            C_ = 2 if n == 'Pcx' else 1
            for c in range(C_):
                want[(n, lo * C_ + c)] = tok[n] + lo * C_ + c + tok[n] + hi * C_ + c
                want[(n, hi * C_ + c)] = tok[n] + last * C_ + c
        for n in ('beta', 'nodes', 'bidx'):
            want[(n, hi)] = tok[n] + last
        want[('nodes', lo)] = 77
        for k, v in want.items():
            if k not in got:
                bad = bad or (None, '%s of entry %d is not set when entries %d and %d of 6 are merged' % (k[0], k[1], i, j))
            elif len(got[k]) != 1:
                return T.skip('merge', 'several stores')
            elif got[k][0][1] != v:
                bad = bad or (got[k][0][0], '%s of entry %d becomes %s instead of %s when entries %d and %d of 6 are merged' % (k[0], k[1], got[k][0][1], v, i, j))
        for k in got:
            if k not in want and k != ('beta', lo):
                bad = bad or (got[k][0][0], '%s of entry %d changes when entries %d and %d of 6 are merged' % (k[0], k[1], i, j))
        # sums are made before the second entry is replaced
        for n in ('Px', 'Pcx'):
            for k, v in got.items():
                for k2, v2 in got.items():
                    if bad is None and k[0] == k2[0] == n and lo * (2 if n == 'Pcx' else 1) <= k[1] < (lo + 1) * (2 if n == 'Pcx' else 1) and k2[1] >= hi * (2 if n == 'Pcx' else 1):
                        if not kern.before(E, v[0][0].ins, v2[0][0].ins):
                            bad = (v[0][0], '%s of an entry is replaced before it is added' % n)
        # closest entries
        for q in (lo, hi, last, 2):
            e = mk({('it', h): 0})
            mb = {**tabs, deref(ME, O['bidx']): lambda o: q}
            for n in (0, 3):
                e = F.env({1: i, 2: j, 3: 77}, {ME: {O['nentries']: 6, O['nlabels']: 2, O['nwhich']: 2}, **mb}, {('it', h): n})
                out = {}
                for s in loop + [s for s in cnt if s.chain]:
                    if let.reached(L, s.ins.block, h, e, sd.walk):
                        n_ = names.get(s.base, 'field')
                        o = int(spec.num(s.off, e))
                        out[(n_, o // size[n_] if n_ in size else o)] = spec.num(s.val, e)
                redo = q in (lo, hi)
                if redo:
                    ok = out.get(('beta', n), 0) >= 10 ** 300 and out.get(('which', 2)) == n and out.get(('field', O['nwhich'])) == 3 and not any(k[0] == 'bidx' and k[1] != n for k in out)
                elif q == last:
                    ok = out == {('bidx', n): hi}
                else:
                    ok = not out
                if not ok:
                    bad = bad or (loop[0], 'an entry whose closest entry is %d gets %s when entries %d and %d of 6 are merged' % (q, {k: int(min(v, 10 ** 9)) for k, v in out.items()}, i, j))
    T('merge', bad is None, (bad[0] if bad and bad[0] else loop[0]).ins, 'probabilities are added, the last entry takes the free place and closest entries are kept or marked: %s' % (bad[1] if bad else ''))
    e = F.env({1: 1, 2: 3, 3: 77}, {ME: {O['nentries']: 6, O['nlabels']: 2, O['nwhich']: 2}})
    fl = {}
    for s in cnt:
        if not s.chain:
            fl.setdefault(int(spec.num(s.off, e)), []).append(s)
    q = fl.get(O['nentries'], [])
    T('one less', len(q) == 1 and spec.num(q[0].val, e) == 5 and kern.before(E, q[0].ins, loop[0].ins), (q or loop)[0].ins, 'there is one entry less')
    q = fl.get(O['nwhich'], [])
    T('marks', len(q) == 1 and spec.num(q[0].val, e) == 0 and kern.before(E, q[0].ins, loop[0].ins), (q or loop)[0].ins, 'entries to update are collected anew')


def least(rep, m):
    O = offs()
    F = Fun(m, 'vl_aib_min_beta')
    f, L, E = F.f, F.L, F.E
    T = Obl(rep, 'aib', F.name)
    ins = [s for s in F.sts if s.chain]
    ini = [s for s in F.sts if not s.chain]
    hs = {s.chain[0][0] for s in ins}
    if len(hs) != 1 or len(ins) != 3 or {s.base for s in ins} != {a(1), a(2), a(3)}:
        return T.skip('least', '%d stores' % len(ins))
    h = hs.pop()
    mem_ = lambda best, v, i=0: {ME: {O['nentries']: 4}, deref(ME, O['beta']): (lambda o: v[int(o) // 8]), deref(ME, O['bidx']): (lambda o: 3 - int(o) // 4), a(3): lambda o: best, a(1): lambda o: (i + 2) % 4, a(2): lambda o: (i + 1) % 4}
    bad = None
    if let.trips(L, h, F.env({}, mem_(0, [0] * 4))) < 3:
        bad = 'not all entries are looked at'
    for i in range(4):
        for best in (3, 7):
            v = [9, 9, 9, 9]
            v[i] = 5
            e = F.env({}, mem_(best, v, i), {('it', h): i})
            got = {}
            for s in ins:
                if let.reached(L, s.ins.block, h, e, sd.walk):
                    got[s.base[1]] = spec.num(s.val, e)
            n = let.trips(L, h, F.env({}, mem_(0, v)))
            if n == 4 and got != ({1: i, 2: 3 - i, 3: 5} if 5 < best else {}):
                bad = bad or 'entry %d of cost 5 after one of cost %d gives %s' % (i, best, {k: int(x) for k, x in got.items()})
    e = F.env({}, mem_(0, [5, 6, 7, 8]))
    st = {s.base[1]: spec.num(s.val, e) for s in ini if s.base[0] == 'arg'}
    if st and st != {1: 0, 2: 3, 3: 5}:
        bad = bad or 'the search starts from %s' % {k: int(x) for k, x in st.items()}
    T('least', bad is None, ins[0].ins, 'the entry of least cost and its closest entry: %s' % bad)


def process(rep, m):
    O = offs()
    F = Fun(m, 'vl_aib_process')
    f, L, E = F.f, F.L, F.E
    T = Obl(rep, 'aib', F.name)
    up, mi, me = (F.one(n) for n in ('vl_aib_update_beta', 'vl_aib_min_beta', 'vl_aib_merge_nodes'))
    inf = F.calls('vl_aib_calculate_information')
    hs = loops_of(f, me)
    if len(hs) != 1 or len(inf) != 2:
        return T.skip('process', 'shape')
    h = hs[0]
    first = next((i for i in inf if not loops_of(f, i)), None)
    each = next((i for i in inf if loops_of(f, i) == [h]), None)
    if first is None or each is None:
        return T.skip('process', 'information')
    T('order', f.idominates(up, mi) and f.idominates(mi, me) and f.idominates(me, each) and loops_of(f, up) == [h] == loops_of(f, mi), me, 'costs are updated, the least is found, the pair is merged and the information computed, in this order')
    bi, bj, bm = (F.ptr(o, mi)[0] for o in mi.ops[1:4])
    I0, I1 = F.ptr(first.ops[1], first)[0], F.ptr(each.ops[1], each)[0]
    node = lambda o: 40 + int(o) // 4
    t = {ME: {O['nvalues']: 6, O['nentries']: 6, O['verbosity']: 0}, bi: lambda o: 1, bj: lambda o: 4, bm: lambda o: 2, I1: lambda o: 9, deref(ME, O['nodes']): node}
    par = [s for s in F.sts if s.base == deref(ME, O['parents'])]
    cost = [s for s in F.sts if s.base == deref(ME, O['costs'])]
    bad = None
    for k in range(5):
        e = F.env({}, {**t, ME: {**t[ME], O['nentries']: 6 - k}}, {('it', h): k})
        got = {}
        for s in par:
            got[int(spec.num(s.off, e)) // 4] = spec.num(s.val, e)
        if got.get(41) != 6 + k or got.get(44) != 6 + k or any(n not in (41, 44, 6 + k) for n in got):
            bad = bad or 'the parents of nodes 41 and 44 in round %d are %s' % (k, {n: int(v) for n, v in got.items()})
        x = [F.val(o, me, e) for o in me.ops[1:4]]
        if sorted(x[:2]) != [1, 4] or x[2] != 6 + k:
            bad = bad or 'entries %s are merged' % [int(v) for v in x]
        c = [s for s in cost if [g for g, _ in s.chain] == [h]]
        if len(c) != 1:
            return T.skip('process', 'costs')
        if spec.num(c[0].off, e) != 8 * (k + 1) or spec.num(c[0].val, e) != 9:
            bad = bad or 'the information after merge %d is stored at %s' % (k + 1, spec.num(c[0].off, e))
    T('merges', bad is None, me, 'the nodes of the least pair get the new node as parent and are merged into it: %s' % bad)
    T('parents before', all(kern.before(E, s.ins, me) for s in par), me, 'nodes are looked up before they are merged')
    T('information after', all(f.idominates(each, s.ins) for s in c), c[0].ins, 'the information stored is that after the merge')
    for v, want in ((2, True), (10 ** 200, True), (None, False)):
        e = F.env({}, {**t, bm: lambda o: 17976931348623157 * 10 ** 292 if v is None else v}, {('it', h): 2})
        r = sd.walk(L, sd.body(f, h), {me.block}, {h}, e)
        if len(r) == 1:
            T('end %s' % v, r == {want}, me, 'merging %s with a least cost of %s' % ('goes on' if True in r else 'ends', v if v else 'infinity'))
    try:
        n = F.L.E.exit_it(h) or F.L.plain.exit_it(h)
        T('rounds', n is None or spec.num(n, F.env({}, t)) == 5, me, 'one merge less than values')
    except alg.Unknown:
        pass
    z = [s for s in cost if not s.chain]
    T('first cost', len(z) == 1 and is_zero(z[0].off) and spec.num(z[0].val, F.env({}, {**t, I0: lambda o: 8})) == 8 and f.idominates(first, z[0].ins), first, 'the first cost is the information of the data')
    nan = [s for s in cost if s.chain and [g for g, _ in s.chain] != [h]]
    if len(nan) == 1:
        s = nan[0]
        g = s.chain[0][0]
        ex = {x for y in (s.off, s.chain[0][1]) for x in scev.deep_atoms(y) if x[0] == 'exit'}
        if len(ex) == 1:
            x = ex.pop()
            got = set()
            for k in (0, 2, 5):
                got = {spec.num(s.off, F.env({}, t, {('it', g): q, x: k})) for q in range(max(0, int(spec.num(s.chain[0][1], F.env({}, t, {x: k})))))}
                T('unused costs %d' % k, got == {8 * (q + 1) for q in range(k, 5)} and any(y[0] == 'fpconst' for y in scev.deep_atoms(s.val)), s.ins, 'costs of merges that do not happen are not numbers')


def new(rep, m):
    O = offs()
    F = Fun(m, 'vl_aib_new')
    f, L, E = F.f, F.L, F.E
    T = Obl(rep, 'aib', F.name)
    ret = [b[-1] for b in f.blocks if b and b[-1].op == 'ret']
    me = F.ptr(ret[0].ops[0], ret[0])[0]
    t = {me: {O['nvalues']: 6, O['nlabels']: 3, O['nentries']: 6, O['nwhich']: 6}}
    e = F.env({1: 6, 2: 3}, t)
    by = {}
    for s in F.sts:
        if s.base == me and not s.chain:
            by.setdefault(int(spec.num(s.off, e)), []).append(s)
    for n, v in (('nvalues', 6), ('nlabels', 3), ('nentries', 6), ('nwhich', 6)):
        q = by.get(O[n], [])
        if len(q) == 1:
            T(n, spec.num(q[0].val, e) == v, q[0].ins, '%s at the start' % n)
        else:
            T.skip(n, '%d stores' % len(q))
    for n, k in (('beta', 48), ('bidx', 24), ('parents', 44), ('costs', 48)):
        q = by.get(O[n], [])
        i = next((i for i in F.calls('vl_malloc') if len(q) == 1 and any(i.id in x for x in scev.deep_atoms(q[0].val))), None)
        if i is None:
            T.skip('room for %s' % n, 'allocation')
        else:
            T('room for %s' % n, F.val(i.ops[0], i, e) >= k, i, '%s has %s bytes for 6 values, %d are used' % (n, F.val(i.ops[0], i, e), k))
    for n, cond in (('beta', lambda v: v >= 10 ** 300), ('parents', lambda v: v == 12)):
        q = [s for s in F.sts if s.chain and s.base in {deref(me, O[n])} | {('call', i.id) for i in F.calls('vl_malloc') if by.get(O[n]) and any(i.id in x for x in scev.deep_atoms(by[O[n]][0].val))}]
        if len(q) != 1:
            T.skip('%s at the start' % n, '%d stores' % len(q))
            continue
        got = {int(o): v for _, o, v in let.effects(L, q, sd.walk, {}, lambda its: F.env({1: 6, 2: 3}, t, its))}
        w = 8 if n == 'beta' else 4
        T('%s at the start' % n, set(got) == {w * i for i in range(6 if n == 'beta' else 11)} and all(map(cond, got.values())), q[0].ins, 'all %s are unknown at the start' % n)
    for fn, k in (('vl_aib_normalize_P', [18]), ('vl_aib_new_Px', [6, 3]), ('vl_aib_new_Pc', [6, 3])):
        c = F.calls(fn)
        if len(c) == 1:
            T(fn, [F.val(o, c[0], e) for o in c[0].ops[1:1 + len(k)]] == k and F.ptr(c[0].ops[0], c[0])[0] in (a(0), deref(me, O['Pcx'])), c[0], 'the whole table is used')
    n = F.calls('vl_aib_normalize_P')
    T('normalised first', not n or all(f.idominates(n[0], c) for g in ('vl_aib_new_Px', 'vl_aib_new_Pc') for c in F.calls(g)), ret[0], 'marginals are those of the normalised table')


def run():
    rep = report.Report('C47', RULE, 'closed forms of all stores and call arguments')
    m = ir.libm()
    guard = spec.guarded(lambda: DEBUG)
    for g in (marginals, information, costs, merge, least, process, new):
        guard(rep, g, m)
    return rep
