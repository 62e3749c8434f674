"""C45: integer k-means"""
import itertools, math, random
import ir, report, alg, kern, spec, scev, let
from alg import C, A, add, mul, scale, same
from spec import Obl
import sift_detect as sd
from c39 import iterate
Fr = alg.Fraction
DEBUG = False
ME = ('arg', 0)
MAX = 2 ** 31 - 1
RULE = ('integer k-means: data go to a nearest center (first of equals) whichever algorithm, whatever pruning is used; centers become the means of the data assigned to them by integer division; '
        'bounds of the pruned algorithm bound the distances; training goes on until no assignment changes or the number of iterations is reached; buffers have the size of what is stored in them')


def offs():
    n = ('M', 'K', 'max_niters', 'method', 'centers', 'inter_dist')
    return {k: int(alg.cval(o)) for k, o in spec.offsets('vl/ikmeans.h', 'VlIKMFilt', n).items()}


def rnd(k, lo, hi):
    return random.Random('%s' % (k,)).randint(lo, hi)


class World:
    """sizes, centers and data"""
    def __init__(self, seed, M, K, N):
        self.M, self.K, self.N = M, K, N
        wide = seed == 2  # centers outside the range of data
        self.c = [[rnd(('c', seed, k, i), *((-300, 600) if wide else (0, 40))) for i in range(M)] for k in range(K)]
        self.x = [[rnd(('x', seed, j, i), 0, 255 if wide else 40) for i in range(M)] for j in range(N)]
        if not wide:
            for j in range(min(K, N - 1)):
                self.x[j] = list(self.c[j])  # data equal to a center
        if K > 2:
            self.c[2] = list(self.c[0])  # equal centers

    def d(self, j, k):
        return sum((a - b) ** 2 for a, b in zip(self.x[j], self.c[k]))

    def inter(self, k, q):
        return sum((a - b) ** 2 for a, b in zip(self.c[k], self.c[q])) >> 2

    def data(self, o):
        o = int(o)
        if not 0 <= o < self.N * self.M:
            raise alg.Unknown('data out of bounds')
        return self.x[o // self.M][o % self.M]

    def centers(self, o):
        o = int(o) // 4
        if not 0 <= o < self.K * self.M:
            raise alg.Unknown('center out of bounds')
        return self.c[o // self.M][o % self.M]

    def interm(self, o):
        o = int(o) // 4
        if not 0 <= o < self.K * self.K:
            raise alg.Unknown('pair out of bounds')
        return self.inter(o // self.K, o % self.K)


WORLDS = [World(1, 3, 4, 6), World(2, 2, 5, 4), World(3, 1, 2, 5), World(4, 4, 1, 3)]


class Loop:
    """one search loop carrying a state"""
    def __init__(self, L, vals, outer):
        f, E = L.f, L.E
        self.L, self.f, self.E = L, f, E
        seen, todo, ph = set(), list(vals), {}
        while todo:
            for a in scev.deep_atoms(todo.pop()):
                if a[0] != 'v' or a in seen:
                    continue
                seen.add(a)
                v = f.vals[a[1]]
                if v.op == 'phi' and v.block in f.loops and v.block not in outer:
                    ph[v.id] = v
                elif a[1] in L.ids:
                    todo.append(L.define(a[1]))
        hs = {v.block for v in ph.values()}
        if len(hs) != 1:
            raise alg.Unknown('search loops %s' % sorted(hs))
        self.h = h = hs.pop()
        self.P = [p for p in f.blocks[h] if p.op == 'phi' and p.ty != 'ptr' and E.close(p) is None]
        self.nxt = {p.id: [(o, q) for o, q in p.inc if q in f.loops[h]] for p in self.P}
        self.ini = {p.id: [(o, q) for o, q in p.inc if q not in f.loops[h]] for p in self.P}
        if any(len(x) != 1 for x in list(self.nxt.values()) + list(self.ini.values())):
            raise alg.Unknown('search loop')

    def start(self, env):
        r = {}
        for k, i in self.ini.items():
            try:
                r[k] = spec.num(self.E.at(*i[0]), env)
            except alg.Unknown:
                r[k] = 12345  # carried over from the loop around
        return r

    def step(self, st, mk, its):
        e = mk(its)
        for k, v in st.items():
            e[('v', k)] = v
        return {k: spec.num(self.E.at(*i[0]), e) for k, i in self.nxt.items()}

    def result(self, val, st, mk, its):
        e = mk(its)
        for k, v in st.items():
            e[('v', k)] = v
        return spec.num(val, e)


def nearest(T, what, L, val, outer, mk, point, W, ins, dval=None, pruned=False):
    """val is the first of the nearest centers: each step of the search, from every state that can occur, keeps the better of best and candidate"""
    S = Loop(L, [val] + ([dval] if dval is not None else []), outer)
    bad = None
    for w in W:
        m = mk(w)
        for its, j in point(w):
            n = let.trips(L, S.h, m(its))
            st0 = S.start(m(its))
            dd = [w.d(j, k) for k in range(w.K)]
            after = lambda st, c: S.step(st, m, {**its, ('it', S.h): c})
            res = lambda st: int(S.result(val, st, m, its))
            s0 = res(st0)
            none = not (0 <= s0 < w.K) or dval is None and n == w.K
            if n != w.K and not (n == w.K - 1 and not none and s0 == 0):
                bad = bad or '%d candidates for %d centers' % (n, w.K)
                break
            one = [after(st0, c) for c in range(n)]
            cand = [res(x) for x in one] if none else [c + w.K - n for c in range(n)]
            if none and sorted(cand) != list(range(w.K)):
                bad = bad or 'the candidates are %s' % cand
                break
            # from each state that one step can reach, each later candidate replaces the best exactly when it is nearer
            for c0 in range(-1, n):
                st = one[c0] if c0 >= 0 else st0
                if c0 < 0 and none:
                    continue
                k = res(st)
                want = k if none else (cand[c0] if dd[cand[c0]] < dd[0] else 0) if c0 >= 0 else 0
                if k != want:
                    bad = bad or 'a datum at squared distances %s goes to center %s' % (dd, k)
                    break
                if dval is not None and S.result(dval, st, m, its) != dd[k]:
                    bad = bad or 'the distance of the center is %s instead of %s' % (S.result(dval, st, m, its), dd[k])
                for c in range(c0 + 1, n):
                    x = res(after(st, c))
                    want = min((dd[k], k), (dd[cand[c]], cand[c]))[1]
                    if x != want:
                        bad = bad or 'center %s at squared distance %d is compared with %s at %d: the best is %s' % (cand[c], dd[cand[c]], k, dd[k], x)
            if bad:
                break
    T(what, bad is None, ins, 'each datum goes to the first of its nearest centers: %s' % bad)
    return S


def means(T, L, what, sts, asgn, counts, cen, m, W, E, top, O):
    """counts and sums over the assignment, then division"""
    f = L.f
    cs = [s for s in sts if s.base == counts and alg.is_const(alg.sub(s.val, A('ld', counts, alg.freeze(s.off))))]
    acc = [s for s in sts if s.base == cen and any(a[0] == 'ld' and a[1] == ('arg', 1) for a in scev.deep_atoms(s.val))]
    div = [s for s in sts if s.base == cen and s not in acc and len(s.chain) == 3 and s.chain[0][0] == top and not any(a[0] == 'ld' and a[1] == ('arg', 1) for a in scev.deep_atoms(s.val))]
    if len(cs) != 1 or len(acc) != 1 or len(div) != 1:
        return T.skip('%s means' % what, '%d, %d, %d stores' % (len(cs), len(acc), len(div)))
    cs, acc, div = cs[0], acc[0], div[0]
    bad = None
    for w in W:
        asg = [rnd(('a', j), 0, w.K - 1) for j in range(w.N)]
        if w.K > 1:
            asg = [a if a != 1 else 0 for a in asg]  # a center without data
        A_ = lambda o: asg[int(o) // 4]
        n = {k: asg.count(k) for k in range(w.K)}
        mk = lambda tabs: (lambda its: L.env({**its, ('arg', 2): w.N}, let.fields(E, {ME: {O['M']: w.M, O['K']: w.K, O['max_niters']: 9}, ('arg', 1): w.data, asgn: A_, **tabs})))
        got = {}
        for s, o, v in let.effects(L, [cs], sd.walk, {top: 1}, mk({counts: lambda o: 0}), guards=False):
            got[o] = got.get(o, 0) + v
        if {int(o) // 4: v for o, v in got.items() if v} != {k: v for k, v in n.items() if v}:
            bad = bad or (cs, 'the counts are %s instead of %s' % (sorted(got.items())[:4], n))
        got = {}
        for s, o, v in let.effects(L, [acc], sd.walk, {top: 1}, mk({cen: lambda o: 0}), guards=False):
            got[o] = got.get(o, 0) + v
        want = {}
        for j, a in enumerate(asg):
            for i in range(w.M):
                want[4 * (a * w.M + i)] = want.get(4 * (a * w.M + i), 0) + w.x[j][i]
        if {o: v for o, v in got.items() if v} != {o: v for o, v in want.items() if v}:
            bad = bad or (acc, 'the sums are not those of the data of each center')
        cm = mk({cen: lambda o: 100 + int(o), counts: lambda o: n[int(o) // 4]})
        hs = [h for h, _ in div.chain]
        seen = set()
        for k in range(let.trips(L, hs[1], cm({('it', top): 1}))):
            for i in range(let.trips(L, hs[2], cm({('it', top): 1, ('it', hs[1]): k}))):
                e = cm({('it', top): 1, ('it', hs[1]): k, ('it', hs[2]): i})
                o = int(spec.num(div.off, e))
                c = o // 4 // w.M
                seen.add(o)
                if n.get(c):
                    if not (let.reached(L, hs[2], hs[1], e, sd.walk) and let.reached(L, div.ins.block, hs[2], e, sd.walk)):
                        bad = bad or (div, 'a center with %d data is not divided' % n[c])
                    elif spec.num(div.val, e) != (100 + o) // n[c]:
                        bad = bad or (div, 'a sum of %d over %d data becomes %s' % (100 + o, n[c], spec.num(div.val, e)))
                elif let.reached(L, hs[2], hs[1], e, sd.walk) and let.reached(L, div.ins.block, hs[2], e, sd.walk):
                    bad = bad or (div, 'a center without data is divided by zero')
        if seen != {4 * q for q in range(w.M * w.K)}:
            bad = bad or (div, 'not all centers are divided')
    T('%s means' % what, bad is None, (bad[0] if bad else div).ins, 'centers become the means of their data: %s' % (bad[1] if bad else ''))
    T('%s order' % what, kern.before(E, acc.ins, div.ins) and kern.before(E, cs.ins, div.ins), div.ins, 'sums and counts are complete when they are divided')
    # both start from zero in each round
    for b, nm, n in ((counts, 'counts', lambda w: 4 * w.K), (cen, 'sums', lambda w: 4 * w.K * w.M)):
        mem = [i for i in f.instrs if i.op == 'call' and (i.callee_name() or '').startswith('llvm.memset') and E.addr_at(i.ops[0], i.block)[0] == b and i.block in f.loops[top]]
        use = cs if nm == 'counts' else acc
        z = [s for s in sts if s.base == b and same(s.val, {}) and s.ins.block in f.loops[top]]
        if not mem and z:
            T('%s %s cleared' % (what, nm), kern.before(E, z[0].ins, use.ins), z[0].ins, 'the %s start from zero in each round' % nm)
            continue
        T('%s %s cleared' % (what, nm), bool(mem) and all(kern.before(E, i, use.ins) for i in mem[:1]), use.ins, 'the %s start from zero in each round' % nm)
        for i in mem:
            ok = same(E.at(i.ops[1], i.block), {}) and f.dominates(i.block, use.ins.block) and all(spec.num(E.at(i.ops[2], i.block), L.env({('arg', 2): w.N}, let.fields(E, {ME: {O['M']: w.M, O['K']: w.K}}))) == n(w) for w in W)
            T('%s %s all cleared' % (what, nm), ok, i, 'all %s start from zero' % nm)


def sizes(T, L, E, m, sts, al, O):
    """every temporary is as large as what is stored in it"""
    f = L.f
    for i in al:
        b = ('call', i.id)
        mx = {}
        for w in (World(7, 3, 9, 2), World(8, 2, 3, 11)):
            env = lambda its: L.env({**its, ('arg', 2): w.N}, let.fields(E, {ME: {O['M']: w.M, O['K']: w.K}, **{('call', q.id): (lambda o: w.K - 1) for q in al}}))
            have = spec.num(E.at(i.ops[0], i.block), env({}))
            need = 0
            for c in f.instrs:
                if c.op == 'call' and (c.callee_name() or '').startswith('llvm.memset') and E.addr_at(c.ops[0], c.block)[0] == b:
                    need = max(need, spec.num(E.at(c.ops[2], c.block), env({})))
            for s in sts:
                if s.base != b:
                    continue
                its = {}
                sz = {'i8': 1, 'i32': 4, 'i64': 8}.get(getattr(s.ins, 'ty', None) if getattr(s.ins, 'ty', None) not in (None, 'void') else None, 4 if have % 4 == 0 and not same(s.off, A('it', s.chain[-2][0] if len(s.chain) > 1 else 0)) else 1)
                try:
                    for h, _ in s.chain:
                        try:
                            its[('it', h)] = let.trips(L, h, env(its)) - 1
                        except alg.Unknown:
                            its[('it', h)] = 0
                    need = max(need, spec.num(s.off, env(its)) + 1)
                except alg.Unknown:
                    pass
            mx[(w.N, w.K)] = (have, need)
        ok = all(n <= h for h, n in mx.values())
        T('size of buffer %s' % al.index(i), ok, i, 'a buffer holds what is stored in it: %s bytes, %s needed for %s data and centers' % next(((h, n, k) for k, (h, n) in mx.items() if n > h), (0, 0, 0)))


def train(rep, m):
    name = 'vl_ikm_train'
    f = m.F(name)
    O = offs()
    P = {n: spec.ptr(ME, C(O[n])) for n in ('centers', 'inter_dist')}
    L = let.Let(f, m)
    E = L.E
    sts = kern.stores(E, guards=False)
    al = [i for i in f.instrs if i.op == 'call' and i.callee_name() == 'vl_malloc']
    T = Obl(rep, 'ikmeans', name)
    sizes(T, L, E, m, sts, al, O)
    # assignment arrays: what receives the index of the nearest center, one per datum
    tops = [h for h in f.loops if not any(h in f.loops[k] and k != h for k in f.loops)]
    lloyd(T, L, f, m, O, P, sts, tops)
    elkan(T, L, f, m, O, P, sts, tops)


def mkw(L, O, P, w, tabs=None, iters=9):
    t = {ME: {O['M']: w.M, O['K']: w.K, O['max_niters']: iters}, P['centers']: w.centers, P['inter_dist']: w.interm, ('arg', 1): w.data}
    t.update(tabs or {})
    return lambda its: L.env({("arg", 2): w.N, **its}, let.fields(L.E, t))


def lloyd(T, L, f, m, O, P, sts, tops):
    E = L.E
    acc = [s for s in sts if s.base == P['centers'] and any(a[0] == 'ld' and a[1] == ('arg', 1) for a in scev.deep_atoms(s.val)) and len(s.chain) == 3]
    if len(acc) != 1:
        return T.skip('lloyd', '%d accumulations' % len(acc))
    top = acc[0].chain[0][0]
    asg = [a for a in scev.deep_atoms(acc[0].off) if a[0] == 'ld' and a[1][0] == 'call']
    if len(asg) != 1:
        return T.skip('lloyd', 'assignment')
    asgn = asg[0][1]
    st = [s for s in sts if s.base == asgn]
    cn = {s.base for s in sts if s.base[0] == 'call' and s.base != asgn and s.chain and s.chain[0][0] == top and any(a[0] == 'ld' and a[1] == asgn for a in scev.deep_atoms(s.off))}
    if len(st) != 1 or len(cn) != 1 or len(st[0].chain) != 2:
        return T.skip('lloyd', '%d stores of the assignment' % len(st))
    s = st[0]
    jl = s.chain[1][0]
    pt = lambda w: [({('it', top): 1, ('it', jl): j}, int(spec.num(s.off, mkw(L, O, P, w)({('it', top): 1, ('it', jl): j}))) // 4) for j in range(w.N)]
    S = nearest(T, 'lloyd nearest', L, s.val, [top, jl], lambda w: mkw(L, O, P, w), pt, WORLDS, s.ins)
    w = WORLDS[0]
    bad = None
    for j in range(w.N):
        if spec.num(s.off, mkw(L, O, P, w)({('it', top): 1, ('it', jl): j})) not in [4 * q for q in range(w.N)]:
            bad = 'datum %d' % j
    T('lloyd all data', bad is None and let.trips(L, jl, mkw(L, O, P, w)({('it', top): 1})) == w.N, s.ins, 'all data are assigned: %s' % bad)
    changed(T, L, f, 'lloyd', s, S, top, jl, asgn, lambda w, tabs: mkw(L, O, P, w, tabs), O, P, acc[0], first=True)
    means(T, L, 'lloyd', sts, asgn, cn.pop(), P['centers'], m, WORLDS, E, top, O)


def changed(T, L, f, what, s, S, top, jl, asgn, mk, O, P, acc, first):
    """training ends exactly when no assignment has changed or after the number of iterations; nothing is compared with an assignment that has not been made"""
    E = L.E
    w = WORLDS[0]
    # the flag: header phi of the datum loop that is no counter
    flags = [p for p in f.blocks[jl] if p.op == 'phi' and p.ty != 'ptr' and E.close(p) is None]
    if len(flags) != 1:
        return T.skip('%s flag' % what, '%d' % len(flags))
    p = flags[0]
    o, q = [(o, q) for o, q in p.inc if q in f.loops[jl]][0]
    i0, q0 = [(o, q) for o, q in p.inc if q not in f.loops[jl]][0]
    res = {}
    for it in (0, 2):
        for old, new in ((1, 1), (1, 3), (0, 0)):
            for fl in (0, 1):
                st = dict.fromkeys(S.ini, new)
                e = mk(w, {asgn: lambda o: old})({('it', top): it, ('it', jl): 2})
                for k in st:
                    e[('v', k)] = new
                e[('v', p.id)] = fl
                res[it, old, new, fl] = spec.num(E.at(o, q), e)
    ini = {it: spec.num(E.at(i0, q0), mk(w, {})({('it', top): it})) for it in (0, 2)}
    bad = None
    if ini[2] != 1:
        bad = 'it is not set before a round'
    for (it, old, new, fl), v in res.items():
        if it and v != (1 if fl == 1 and old == new else 0):
            bad = 'assignment %d -> %d with flag %d gives %s' % (old, new, fl, v)
    T('%s changes' % what, bad is None, p, 'training goes on exactly when an assignment has changed: %s' % bad)
    if first:
        go = ini[0] == 0 and all(v == 0 for (it, old, new, fl), v in res.items() if it == 0 and fl == 0) or all(v == 0 for (it, old, new, fl), v in res.items() if it == 0)
        ini_ = [i for i in f.instrs if i.op == 'call' and (i.callee_name() or '').startswith('llvm.memset') and E.addr_at(i.ops[0], i.block)[0] == asgn]
        T('%s first round' % what, go, s.ins, 'the first assignment is not compared with what the buffer held before')
    # the assignment is stored whenever it differs
    r = {}
    for it, old, new in ((0, 1, 3), (2, 1, 3), (0, 2, 0)):
        e = mk(w, {asgn: lambda o: old})({('it', top): it, ('it', jl): 2})
        for k in S.ini:
            e[('v', k)] = new
        e[('v', p.id)] = 1
        if s.ins.block != S.h:
            out = {t for b in f.loops[S.h] for t in (getattr(f.blocks[b][-1], 'succ', None) or []) if t not in f.loops[S.h]}
            r[it, old, new] = sd.walk(L, min(out), {s.ins.block}, {jl}, e) if len(out) == 1 else {True}
    T('%s stored' % what, all(x == {True} for x in r.values()), s.ins, 'an assignment that differs is stored')
    # end of the rounds
    out = {t for b in f.loops[jl] for t in (getattr(f.blocks[b][-1], 'succ', None) or []) if t not in f.loops[jl]}
    if len(out) != 1:
        return T.skip('%s end' % what, 'exits')
    ended(T, L, f, what, p, out.pop(), top, acc, O, P)


def ended(T, L, f, what, p, start, top, acc, O, P):
    mk = lambda w, t: mkw(L, O, P, w)
    w = WORLDS[0]
    bad = None
    for it, fl, want in ((0, 0, True), (3, 0, True), (3, 1, False), (9, 0, False), (8, 0, True), (9, 1, False)):
        e = mk(w, {})({('it', top): it})
        e[('v', p.id)] = fl
        leave = {t for b in f.loops[top] for t in (getattr(f.blocks[b][-1], 'succ', None) or []) if t not in f.loops[top]}
        r = sd.walk(L, start, {acc.ins.block, top} | {h for h, _ in acc.chain[1:]}, leave, e)
        if len(r) != 1:
            return T.skip('%s end' % what, 'undecided')
        if r != {want}:
            bad = 'round %d of 9 with%s changes' % (it, 'out' if fl else '')
    T('%s end' % what, bad is None, f.blocks[start][-1], 'training goes on until nothing changes or the number of iterations is reached: %s' % bad)


def elkan(T, L, f, m, O, P, sts, tops):
    E = L.E
    asg = [s for s in sts if s.base[0] == 'call' and len(s.chain) == 1 and s.base not in (P['centers'],) and names_center(L, s)]
    lows = [s for s in sts if s.base[0] == 'call' and len(s.chain) == 2 and any(('arg', 1) == a[1] for a in scev.deep_atoms(s.val) if a[0] == 'ld') and not same(s.off, {})]
    if not asg:
        return T.skip('elkan', 'assignment')
    jl = asg[0].chain[0][0]
    asg = [s for s in asg if s.chain[0][0] == jl]
    # assignment and upper bound of the first round
    mk = lambda w: mkw(L, O, P, w)
    a = d = None
    w = WORLDS[0]
    for s in asg:
        try:
            S = Loop(L, [s.val], [jl])
        except alg.Unknown:
            continue
        e = mk(w)({('it', jl): 1})
        st = dict(S.start(e))
        for c in range(let.trips(L, S.h, e)):
            st = S.step(st, mk(w), {('it', jl): 1, ('it', S.h): c})
        v = S.result(s.val, st, mk(w), {('it', jl): 1})
        if v < w.K and same(s.off, scale(A('it', jl), 4)) and len([x for x in S.P]) and any(q.base == s.base and len(q.chain) == 3 for q in sts):
            if a is None and is_index(L, S, s):
                a = s
            else:
                d = s
        else:
            d = s
    if a is None or d is None:
        return T.skip('elkan', 'first round')
    pt = lambda w: [({('it', jl): j}, j) for j in range(w.N)]
    nearest(T, 'elkan first nearest', L, a.val, [jl], mk, pt, WORLDS, a.ins, d.val)
    asgn, up = a.base, d.base
    # the rounds
    acc = [s for s in sts if s.base[0] == 'call' and len(s.chain) == 3 and any(x[0] == 'ld' and x[1] == asgn for x in scev.deep_atoms(s.off)) and any(x[0] == 'ld' and x[1] == ('arg', 1) for x in scev.deep_atoms(s.val))]
    if len(acc) != 1:
        return T.skip('elkan', '%d accumulations' % len(acc))
    top, cen = acc[0].chain[0][0], acc[0].base
    cn = {s.base for s in sts if s.base[0] == 'call' and s.base not in (asgn, cen) and s.chain and s.chain[0][0] == top and any(x[0] == 'ld' and x[1] == asgn for x in scev.deep_atoms(s.off))}
    if len(cn) == 1:
        means(T, L, 'elkan', sts, asgn, cn.pop(), cen, m, WORLDS, E, top, O)
    else:
        T.skip('elkan means', 'counts')
    # new centers
    cp = [s for s in sts if s.base == P['centers'] and s.chain and s.chain[0][0] == top]
    if len(cp) == 1 and len(cp[0].chain) == 3:
        s = cp[0]
        got = {}
        bad = None
        for w in WORLDS:
            for q, o, v in let.effects(L, [s], sd.walk, {top: 1}, mkw(L, O, P, w, {cen: lambda o: 7 + int(o)}), guards=False):
                if v != 7 + o:
                    bad = 'entry %d' % o
                got[o] = v
            if {4 * q for q in range(w.K * w.M)} - set(got):
                bad = 'some centers'
        T('elkan centers', bad is None, s.ins, 'the means become the centers: %s' % bad)
    else:
        T.skip('elkan centers', '%d stores' % len(cp))
    bounds(T, L, f, O, P, sts, top, asgn, up, cen)
    inter(T, L, f, O, P, [s for s in sts if s.base == P['inter_dist']], 'elkan')
    low = [s for s in sts if s.base[0] == 'call' and len(s.chain) == 3 and s.chain[0][0] == top and s.base not in (asgn, up, cen) and any(x[0] == 'ld' and x[1] == s.base for x in scev.deep_atoms(deep(L, s.val)))]
    if len(low) == 1:
        lower(T, L, f, O, P, [q for q in sts if q.base == low[0].base and q is not low[0] and not same(q.val, {})])
    rounds(T, L, f, O, P, sts, top, asgn, up, acc[0], low[0] if len({s.base for s in low}) == 1 else None)


def lower(T, L, f, O, P, sts):
    """a lower bound that is computed is at most the distance between the datum and the center of its entry"""
    for n, s in enumerate(sts):
        bad = None
        hs = [h for h, _ in s.chain]
        try:
            for w in WORLDS:
                m = mkw(L, O, P, w)

                def at(k, its):
                    nonlocal bad
                    e = m(its)
                    for h in hs:
                        for p in f.blocks[h]:
                            if p.op == 'phi' and p.ty != 'ptr' and L.E.close(p) is None:
                                e[('v', p.id)] = 0
                    if k == len(hs):
                        o = spec.num(s.off, e)
                        if o % 4 or not 0 <= o < 4 * w.N * w.K:
                            bad = 'offset %s' % o
                            return
                        v = spec.num(s.val, e)
                        c, x = divmod(int(o) // 4, w.N)
                        if v > w.d(x, c):
                            bad = 'the bound of datum %d and center %d is %s, their squared distance is %d' % (x, c, v, w.d(x, c))
                        return
                    N = 2 if k == 0 and len(hs) == 3 else let.trips(L, hs[k], e)
                    for j in range(N):
                        at(k + 1, {**its, ('it', hs[k]): j})
                at(0, {})
        except alg.Unknown as x:
            T.skip('lower bounds', str(x)[:100])
            continue
        T('lower bounds %d' % n, bad is None, s.ins, 'a lower bound is at most the squared distance: %s' % bad)


def deep(L, p):
    """the atoms of a value and of the names in it, as one sum"""
    r, seen, todo = dict(p), set(), [p]
    while todo:
        for a in scev.deep_atoms(todo.pop()):
            if a[0] == 'v' and a[1] in L.ids and a not in seen:
                seen.add(a)
                try:
                    d = L.define(a[1])
                except alg.Unknown:
                    continue
                todo.append(d)
                r = add(r, mul(d, A('sym', 'deep', len(seen))))
    return r


def is_index(L, S, s):
    """is the value an index: does it not depend on the data given the state"""
    return s.ins.ops and any(True for _ in [0]) and not any(x[0] == 'ld' for x in scev.deep_atoms(s.val)) and integer_width(L, s)


def integer_width(L, s):
    """the index is a truncated counter, a distance is not"""
    v = L.f.vals[s.ins.ops[1]] if isinstance(s.ins.ops[1], int) else None
    o = s.ins.ops[0]
    x = L.f.vals[o] if isinstance(o, int) else None
    return x is not None and x.op == 'trunc'


def names_center(L, s):
    return any(a[0] == 'v' for a in scev.deep_atoms(s.val))


def inter(T, L, f, O, P, sts, what):
    """a quarter of the squared distances between centers, for all pairs"""
    E = L.E
    if not sts:
        return T.skip('%s pairs' % what, 'no store')
    groups = {}
    for s in sts:
        groups.setdefault(tuple(h for h, _ in s.chain), []).append(s)
    for hs, ss in groups.items():
        bad = None
        fixed = {h: 1 for h in hs[:-2]}
        for w in WORLDS:
            got = {}
            for s, o, v in let.effects(L, ss, sd.walk, fixed, mkw(L, O, P, w), guards=False):
                got.setdefault(int(o) // 4, set()).add(v)
            for k in range(w.K):
                for q in range(w.K):
                    v = got.get(k * w.K + q)
                    if v != {w.inter(k, q)}:
                        bad = bad or 'pair (%d, %d): %s instead of %d' % (k, q, v, w.inter(k, q))
        T('%s pairs %d' % (what, len(hs)), bad is None, ss[0].ins, 'a quarter of the squared distance of each pair of centers: %s' % bad)


def bounds(T, L, f, O, P, sts, top, asgn, up, cen):
    """after the centers moved the bounds still bound"""
    E = L.E
    low = [s for s in sts if s.base[0] == 'call' and len(s.chain) == 3 and s.chain[0][0] == top and s.base not in (asgn, up, cen) and any(a[0] == 'v' for a in scev.deep_atoms(s.val))]
    u = [s for s in sts if s.base == up and len(s.chain) == 3 and s.chain[0][0] == top and any(x[0] == 'ld' and x[1] == up for x in scev.deep_atoms(s.val))]
    if len(low) != 1 or len(u) != 1:
        return T.skip('bounds', '%d, %d stores' % (len(low), len(u)))
    s, u = low[0], u[0]
    strict = [q for q in sts if q.ins.block == u.ins.block and q.base[0] == 'call' and q is not u and same(q.val, C(1))]
    bad = None
    for w in WORLDS:
        for mv in (0, 1, 6):
            old = lambda k, i: w.c[k][i]
            nw = lambda k, i: w.c[k][i] + rnd(('mv', k, i, mv), -mv, mv)
            cells = lambda g: (lambda o: g(int(o) // 4 // w.M, int(o) // 4 % w.M))
            for l, ub, a in ((0, 0, 0), (7, 50, 1), (400, 90, w.K - 1), (2500, 1600, 0)):
                mk = mkw(L, O, P, w, {P['centers']: cells(old), cen: cells(nw), s.base: lambda o: l, up: lambda o: ub, asgn: lambda o: a})
                hs = [h for h, _ in s.chain]
                hu = [h for h, _ in u.chain]
                for k in range(w.K):
                    e = mk({('it', hs[0]): 1, ('it', hs[1]): k, ('it', hs[2]): 0})
                    o = int(spec.num(s.off, e)) // 4
                    if o % w.N or not let.reached(L, hs[2], hs[1], e, sd.walk) or not let.reached(L, s.ins.block, hs[2], e, sd.walk):
                        bad = bad or (s, 'the lower bound of center %d is not brought up to date' % k)
                        continue
                    c = o // w.N
                    d = sum((old(c, i) - nw(c, i)) ** 2 for i in range(w.M))
                    v = spec.num(s.val, e)
                    if v > max(0.0, math.sqrt(l) - math.sqrt(d)) ** 2 + 1e-9:
                        bad = bad or (s, 'a squared distance of at least %d to a center that moves by a squared distance of %d becomes at least %d' % (l, d, v))
                    e = mk({('it', hu[0]): 1, ('it', hu[1]): k, ('it', hu[2]): 0})
                    r = let.reached(L, hu[2], hu[1], e, sd.walk) and let.reached(L, u.ins.block, hu[2], e, sd.walk)
                    if r != (k == a):
                        bad = bad or (u, 'the upper bound of a datum of center %d %s when center %d moves' % (a, 'changes' if r else 'does not change', k))
                    elif r and spec.num(u.val, e) < (math.sqrt(ub) + math.sqrt(d)) ** 2 - 1e-9:
                        bad = bad or (u, 'a squared distance of at most %d to a center that moves by a squared distance of %d becomes at most %s' % (ub, d, spec.num(u.val, e)))
    T('bounds', bad is None, (bad[0] if bad else s).ins, 'after the centers moved the bounds still bound the distances: %s' % (bad[1] if bad else ''))
    T('bounds stale', len(strict) == 1, u.ins, 'an upper bound that was moved is marked as such')
    T('bounds before', all(kern.before(E, q.ins, x.ins) for q in sts if q.base == cen and len(q.chain) == 3 for x in (s, u)), s.ins, 'bounds are moved by the new means')


def rounds(T, L, f, O, P, sts, top, asgn, up, acc, low):
    """a datum goes to another center exactly when that is nearer, whatever the bounds"""
    E = L.E
    re = [s for s in sts if s.base == asgn and len(s.chain) == 3 and s.chain[0][0] == top]
    if len(re) != 1:
        return T.skip('elkan round', '%d stores' % len(re))
    s = re[0]
    _, xl, cl = [h for h, _ in s.chain]
    ups = [q for q in sts if q.base == up and q.ins.block == s.ins.block]
    stale = [q for q in sts if q.base[0] == 'call' and q.chain and q.chain[0][0] == top and q.base not in (asgn, up) and same(q.val, {}) and xl in [h for h, _ in q.chain]]
    near_ = [q for q in sts if q.base[0] == 'call' and q.chain and q.chain[0][0] == top and len(q.chain) == 2 and q.base not in (asgn, up) and q.base != (stale[0].base if stale else None)
             and any(a[0] == 'fn' and a[1] == 'asr' or a[0] == 'v' for a in scev.deep_atoms(q.val))]
    if len(stale) != 1 or len(ups) != 1 or low is None:
        return T.skip('elkan round', 'bounds')
    st = [p for p in f.blocks[cl] if p.op == 'phi' and p.ty != 'ptr' and E.close(p) is None]
    ini = {p.id: [(o, q) for o, q in p.inc if q not in f.loops[cl]][0] for p in st}
    nxt = {p.id: [(o, q) for o, q in p.inc if q in f.loops[cl]][0] for p in st}
    T('elkan candidates', all(let.trips(L, cl, mkw(L, O, P, w)({('it', top): 1, ('it', xl): 0})) == w.K for w in WORLDS) and all(let.trips(L, xl, mkw(L, O, P, w)({('it', top): 1})) == w.N for w in WORLDS), s.ins, 'all data and centers are looked at')
    if len(near_) > 1:
        return T.skip('elkan round', '%d distances to the nearest center' % len(near_))
    # the upper bound among what is carried from center to center
    reread = any(i.op == 'load' and i.block in f.loops[cl] and E.addr_at(i.ops[0], i.block)[0] == asgn for i in f.instrs)
    bad = None
    roles = {}
    n = 0
    for w in WORLDS[:3]:
        half = lambda o: min(w.inter(int(o) // 4, q) for q in range(w.K) if q != int(o) // 4)
        for j in range(w.N):
            for a in range(w.K):
                da = w.d(j, a)
                for rs, slack in ((0, 0), (1, 0), (1, 37), (1, 5000)):
                    for c in range(w.K):
                        dc = w.d(j, c)
                        for lb in {0, dc, max(0, dc - 3)}:
                            tabs = {asgn: lambda o: a, up: lambda o: da + slack, stale[0].base: lambda o: rs, low.base: lambda o: lb}
                            if near_:
                                tabs[near_[0].base] = half
                            mk = mkw(L, O, P, w, tabs)
                            its = {('it', top): 1, ('it', xl): j, ('it', cl): c}
                            e = mk(its)
                            if not roles:
                                for k, (o, q) in ini.items():
                                    try:
                                        x = E.at(o, q)
                                        roles[k] = next((r for r, b in (('ux', up), ('cx', asgn)) if any(y[0] == 'ld' and y[1] == b for y in scev.deep_atoms(x))), 'other')
                                    except alg.Unknown:
                                        roles[k] = 'other'
                            for k, r in roles.items():
                                e[('v', k)] = {'ux': da + slack, 'cx': a}.get(r, 1)
                            n += 1
                            must = c != a and dc < da
                            if must and sd.walk(L, sd.body(f, xl), {cl}, {xl}, e) != {True}:
                                bad = bad or (s, 'a datum at squared distance %d from its center is not compared with one at %d' % (da, dc))
                            r = sd.walk(L, sd.body(f, cl), {s.ins.block}, {cl, xl}, e)
                            if r != {must}:
                                if len(r) != 1:
                                    return T.skip('elkan round', 'undecided')
                                bad = bad or (s, 'a datum at squared distance %d from its center (known to be at most %d) %s to one at %d (known to be at least %d)' % (da, da + slack, 'goes' if True in r else 'does not go', dc, lb))
                            if must and not bad:
                                if spec.num(s.val, e) != c or spec.num(ups[0].val, e) != dc:
                                    bad = (s, 'the new center or its distance is not stored')
                                if not any(spec.num(E.at(*nxt[k]), e) == 0 for k, x in roles.items() if x == 'other'):
                                    bad = bad or (s, 'the change is not noticed')
                                for k, x in roles.items():
                                    if x == 'ux' and spec.num(E.at(*nxt[k]), e) != dc:
                                        bad = bad or (s, 'the next centers are compared with another distance')
                                # the centers that follow are compared with the new one
                                st2 = {k: spec.num(E.at(*i), e) for k, i in nxt.items()}
                                for c2 in range(w.K):
                                    if bad or c2 == c:
                                        continue
                                    d2 = w.d(j, c2)
                                    for lb in {0, d2}:
                                        t2 = dict(tabs)
                                        t2.update({asgn: (lambda o: c) if reread else (lambda o: a), up: lambda o: dc, stale[0].base: lambda o: 0, low.base: lambda o: lb})
                                        e2 = mkw(L, O, P, w, t2)({('it', top): 1, ('it', xl): j, ('it', cl): c2})
                                        for k, v in st2.items():
                                            e2[('v', k)] = v
                                        r = sd.walk(L, sd.body(f, cl), {s.ins.block}, {cl, xl}, e2)
                                        if len(r) != 1:
                                            return T.skip('elkan round', 'undecided')
                                        if r != {d2 < dc}:
                                            bad = bad or (s, 'a datum that has just gone to a center at squared distance %d %s to one at %d' % (dc, 'goes' if True in r else 'does not go', d2))
                            if bad:
                                break
                        if bad:
                            break
                    if bad:
                        break
    T('elkan round', bad is None, (bad[0] if bad else s).ins, 'a datum goes to another center exactly when that is nearer, whatever the bounds: %s' % (bad[1] if bad else ''))
    # distances of the nearest other center
    if near_:
        q = near_[0]
        bad = None
        kl = q.chain[1][0]
        try:
            S = Loop(L, [q.val], [top, kl])
            for w in WORLDS[:3]:
                m = mkw(L, O, P, w)
                for k in range(w.K):
                    its = {('it', top): 1, ('it', kl): k}
                    if spec.num(q.off, m(its)) != 4 * k:
                        raise alg.Unknown('order')
                    if let.trips(L, S.h, m(its)) != w.K:
                        bad = 'not all centers'
                    st0 = S.start(m(its))
                    for x in range(w.K):
                        s1 = S.step(st0, m, {**its, ('it', S.h): x})
                        for y in range(w.K):
                            s2 = S.step(s1, m, {**its, ('it', S.h): y})
                            v = S.result(q.val, s2, m, its)
                            for z in (x, y):
                                if z != k and v > w.inter(k, z):
                                    bad = bad or 'center %d is nearer to %d than %s' % (z, k, v)
            T('elkan nearest center', bad is None, q.ins, 'the distance to the nearest other center: %s' % bad)
        except alg.Unknown as x:
            T.skip('elkan nearest center', str(x)[:100])
    # the end
    out = {t for b in f.loops[xl] for t in (getattr(f.blocks[b][-1], 'succ', None) or []) if t not in f.loops[xl]}
    flags = [p for p in f.blocks[xl] if p.op == 'phi' and p.ty != 'ptr' and E.close(p) is None and any(o == p.id for k in ini for o in [ini[k][0]])]
    flags = [p for p in flags if [o for o, q in p.inc if q not in f.loops[xl] and isinstance(o, (list, tuple)) and str(o[2]) == '1']]
    if len(flags) != 1 or len(out) != 1:
        return T.skip('elkan end', '%d flags' % len(flags))
    ended(T, L, f, 'elkan', flags[0], out.pop(), top, acc, O, P)


def push(rep, m):
    O = offs()
    P = {n: spec.ptr(ME, C(O[n])) for n in ('centers', 'inter_dist')}
    f = m.F('vl_ikm_push_one')
    L = let.Let(f, m)
    T = Obl(rep, 'ikmeans', 'vl_ikm_push_one')
    ret = [b[-1] for b in f.blocks if b and b[-1].op == 'ret']
    val = L.E.at(ret[0].ops[0], ret[0].block)
    a = lambda n: ('arg', n)

    def mk(w):
        return lambda its: L.env({**{k: v for k, v in its.items() if k != 'j'}, a(2): w.M, a(3): w.K}, let.fields(L.E, {a(0): w.centers, a(1): (lambda o: w.x[its['j']][int(o)])}))
    nearest(T, 'nearest', L, val, [], mk, lambda w: [({'j': j}, j) for j in range(w.N)], WORLDS, ret[0])
    f = m.F('vl_ikm_push')
    L = let.Let(f, m)
    T = Obl(rep, 'ikmeans', 'vl_ikm_push')
    for s in kern.stores(L.E, guards=False):
        if s.base != ('arg', 1) or len(s.chain) != 1:
            T.skip('push', s.show()[:100])
            continue
        jl = s.chain[0][0]
        o = s.ins.ops[0]
        while isinstance(o, int) and f.vals[o].op in ('trunc', 'zext', 'sext'):
            o = f.vals[o].ops[0]
        cl = [i for i in f.instrs if i.id == o and i.op == 'call' and i.callee_name() == 'vl_ikm_push_one']
        call = cl
        if call and cl:
            for c in cl:
                bad = None
                for w in WORLDS:
                    e = lambda j: mkw(L, O, P, w)({('it', jl): j, ('arg', 3): w.N})
                    if let.trips(L, jl, e(0)) != w.N:
                        bad = 'not all data'
                    for j in range(w.N):
                        o = int(spec.num(s.off, e(j))) // 4
                        b, q = L.E.addr_at(c.ops[1], c.block)
                        if b != ('arg', 2) or spec.num(q, e(j)) != o * w.M:
                            bad = 'datum %d' % j
                        x = [spec.num(L.E.at(c.ops[k], c.block), e(j)) for k in (2, 3)]
                        if x != [w.M, w.K] or L.E.addr_at(c.ops[0], c.block) != (P['centers'], {}):
                            bad = 'arguments'
                T('push all', bad is None, c, 'each datum is pushed to the centers: %s' % bad)
        else:
            def mk2(w):
                t = {ME: {O['M']: w.M, O['K']: w.K}, P['centers']: w.centers, P['inter_dist']: w.interm, ('arg', 2): w.data}
                return lambda its: L.env({**its, ('arg', 3): w.N}, let.fields(L.E, t))
            pt = lambda w: [({('it', jl): j}, int(spec.num(s.off, mk2(w)({('it', jl): j}))) // 4) for j in range(let.trips(L, jl, mk2(w)({})))]
            for w in WORLDS:
                if sorted(j for _, j in pt(w)) != list(range(w.N)):
                    T('push data', False, s.ins, 'all data are assigned')
            nearest(T, 'nearest', L, s.val, [jl], mk2, pt, WORLDS, s.ins)
    f = m.F('vl_ikm_init')
    L = let.Let(f, m)
    T = Obl(rep, 'ikmeans', 'vl_ikm_init')
    inter(T, L, f, O, P, [s for s in kern.stores(L.E, guards=False) if s.base == P['inter_dist']], 'init')


def run():
    rep = report.Report('C45', RULE, 'closed forms of all stores and of the search steps')
    m = ir.libm()
    guard = spec.guarded(lambda: DEBUG)
    guard(rep, push, m)
    guard(rep, train, m)
    return rep
