"""C33: the random number generator is MT19937 and the derived numbers and permutations follow their definitions."""
import ir, alg, report, flow, gf2
from ir import const_int
from alg import C, A, add, sub, mul, scale, NOT, eq0, gt0, ge0, sel, fn, same, is_zero

RULE = ('bit-linear normal forms over GF(2) of the generation and tempering of every word, polynomial identity modulo 2^32 of the seeding recurrences, coverage of the state by the loops; '
        'value-graph identity of the derived numbers; loop and swap structure of the permutation')
N, M = 624, 397
MTI = 2496


def evalpoly(p, env):
    tot = 0
    for mono, c in p.items():
        t = c
        for a, k in mono:
            t *= evalatom(a, env) ** k
        tot += t
    if tot != int(tot):
        raise alg.Unknown('index')
    return int(tot)


def evalatom(a, env):
    if a in env:
        return env[a]
    if a[0] == 'gt0':
        return 1 if evalpoly(alg.thaw(a[1]), env) > 0 else 0
    if a[0] == 'eq0':
        return 1 if evalpoly(alg.thaw(a[1]), env) == 0 else 0
    if a[0] == 'fn' and a[1] in ('urem', 'srem', 'udiv', 'sdiv'):
        x, y = evalpoly(alg.thaw(a[2]), env), evalpoly(alg.thaw(a[3]), env)
        if y > 0 and x >= 0:
            return x % y if a[1].endswith('rem') else x // y
    raise alg.Unknown('index')


def loop_range(f, E, h, seen=()):
    """(induction phi, [values]) of a loop with constant bounds and one exit test at its header or latch"""
    import loops
    ind = loops.induction(f, h)
    body = f.loops[h]
    exits = [(b, s) for b in body for s in f.succ[b] if s not in body]
    if len(exits) != 1 or h in seen:
        return None
    b, s = exits[0]
    t = f.blocks[b][-1]
    c = f.val(t.cond) if t.op == 'br' else None
    if c is None or c.op != 'icmp':
        return None
    stay = E.edge(b, [x for x in t.succ if x in body][0])
    for pid, (init, step, nxt) in ind.items():
        try:
            start = E.one(init)
            at = [a for a in alg.atoms(start) if a[0] == 'v']
            env = {}
            for a in at:
                hh = f.vals[a[1]].block
                r = loop_range(f, E, hh, seen + (h,)) if hh in f.loops else None
                if r is None or r[0] != a[1]:
                    raise alg.Unknown('init')
                env[a] = r[2]
            k = evalpoly(start, env)
            vals = []
            while len(vals) < 5000:
                go = evalpoly(stay, {('v', pid): k})
                if b == h:
                    if not go:
                        return pid, vals, k
                    vals.append(k)
                    k += step
                else:
                    vals.append(k)
                    k += step
                    if not go:
                        return pid, vals, k
        except alg.Unknown:
            continue
    return None


def mod32(p):
    out = {}
    for m, c in p.items():
        if c != int(c):
            return p
        m = tuple((modatom(a), k) for a, k in m)
        out = add(out, {m: int(c) % 2**32})
    return {m: c % 2**32 for m, c in out.items() if c % 2**32}


def modatom(a):
    if a[0] == 'fn' and a[1] in ('xor', 'and', 'or'):
        x, y = mod32(alg.thaw(a[2])), mod32(alg.thaw(a[3]))
        x, y = sorted((alg.freeze(x), alg.freeze(y)), key=repr)
        return ('fn', a[1], x, y)
    return a


def same32(p, q):
    return mod32(sub(mod32(p), mod32(q))) == {}


def stem(i):
    n = (i.callee_name() or '').replace('hdr$', '')
    h, _, t = n.rpartition('.')
    return h if h and t.isdigit() else n


class Ev(alg.Eval):
    """loads of the state as words mt[...], counter mti; calls as ordered draws"""
    draws = ()

    def loadat(self, v, b, off, n, sz):
        if n == 1 and b == ('arg', self.f.args[0].id):
            if same(off, C(MTI)):
                return [A('mti')]
            if sz == 4:
                return [A('mt', alg.freeze(off))]
        return None

    def call(self, v):
        n = stem(v)
        if n in ('vl_rand_uint32', 'vl_rand_uint64', 'vl_rand_uindex'):
            if n == 'vl_rand_uindex':
                return [A('index', v.id)]
            k = [i.id for i in self.f.instrs if i.op == 'call' and stem(i) == n and i.block in self.peers(v.block)].index(v.id)
            return [A('draw', '64' if '64' in n else '32', k)]
        return super().call(v)

    def peers(self, b):
        return [b]


def xorp(a, b):
    x, y = sorted((a, b), key=repr)
    return fn('xor', x, y)


def word(off):
    return A('mt', alg.freeze(off))


def state_stores(f, E):
    """[(store, offset poly)] into the state, None if a store cannot be placed"""
    out = []
    for i in f.instrs:
        if i.op != 'store':
            continue
        b, off = E.addr(i.ops[1])
        if b == ('arg', f.args[0].id):
            if same(off, C(MTI)):
                continue
            w = f.val(i.ops[0])
            if w is not None and w.op == 'load':
                b2, off2 = E.addr(w.ops[0])
                if b2 == b and same(off2, off):
                    continue                    # mt[i] &= 0xffffffff
            out.append((i, off))
        elif b[0] == 'pv' or b[0] == 'arg':
            raise alg.Unknown('store through another pointer')
    return out


def mti_stores(f, E):
    return [i for i in f.instrs if i.op == 'store' and E.addr(i.ops[1]) == (('arg', f.args[0].id), C(MTI))]


def generator(rep, m):
    f = m.F('vl_rand_uint32')
    if f is None or len(f.rets) != 1:
        rep.skip('generation', 'vl_rand_uint32', 'not defined')
        return
    E = Ev(f)

    def leaf(v):
        if v.op == 'load' and v.ty == 'i32':
            b, off = E.addr(v.ops[0])
            if b == ('arg', f.args[0].id) and not same(off, C(MTI)):
                return alg.freeze(off)
        if v.op == 'phi' and v.block in f.loops and v.ty == 'i32':
            return carried(f, E, v)
        return None

    def table(v):
        b, off = E.addr(v.ops[0])
        if b[0] != 'g':
            return None
        g = m.globals.get(b[1])
        if not g or not g.get('init') or g['init'][0] != 'agg':
            return None
        vals = [const_int(x) for x in g['init'][2:]]
        a = f.val(v.ops[0])
        if any(x is None for x in vals) or a is None or a.op != 'getelementptr':
            return None
        if any(i.op == 'store' and isinstance(i.ops[1], (int, list)) and E.addr(i.ops[1])[0] == b for i in f.instrs):
            return None
        idx = [s[1] for s in a.path if s[0] == 'i' and s[2] == 4]
        return ([x & 0xffffffff for x in vals], idx[0]) if len(idx) == 1 else None
    B = gf2.Bits(f, leaf, table)
    # tempering
    try:
        got = B.val(f.rets[0].ops[0])
        ws = {e[0] for x in got for e in x if e != gf2.ONE}
        if len(ws) != 1:
            raise gf2.Not('result depends on %d words' % len(ws))
        w = next(iter(ws))
        y = gf2.word(w, 32)
        y = gf2.xor(y, gf2.lshr(y, 11))
        y = gf2.xor(y, gf2.andc(gf2.shl(y, 7), 0x9d2c5680))
        y = gf2.xor(y, gf2.andc(gf2.shl(y, 15), 0xefc60000))
        y = gf2.xor(y, gf2.lshr(y, 18))
        rep.check('generation', 'tempering', got == y, f.rets[0].loc(), 'the tempering of the state word is not that of MT19937', key='temper')
        # the word is mt[mti], then mti is advanced by one
        X = A('mti')
        ix = scale(alg.thaw(w), alg.Fraction(1, 4))
        adv = [i for i in mti_stores(f, E) if f.dominates(i.block, f.rets[0].block)]
        if len(adv) == 1:
            nv = E.one(adv[0].ops[0])
            if any(a[0] == 'v' for a in alg.atoms(ix)) or any(a[0] not in ('mti', 'gt0', 'eq0') for a in alg.atoms(ix)):
                rep.skip('generation', 'position', 'shape')
            else:
                rep.check('generation', 'position', same(nv, add(ix, C(1))), adv[0].loc(), 'a word is taken at %s and the position becomes %s' % (alg.show(ix), alg.show(nv)), key='position')
        elif not adv:
            rep.bad('generation', 'position', f.rets[0].loc(), 'the position in the state is not advanced', key='position')
        else:
            rep.skip('generation', 'position', 'shape')
    except (gf2.Not, alg.Unknown, ValueError) as e:
        rep.skip('generation', 'tempering', str(e))
    # regeneration
    try:
        st = state_stores(f, E)
        if not st:
            rep.skip('generation', 'state recurrence', 'no store')
            return
        st.sort(key=lambda s: depth(f, (f.loops_of(s[0].block) or [s[0].block])[-1]))
        covered, good, where = [], True, None
        for i, off in st:
            hs = f.loops_of(i.block)
            if len(hs) > 1:
                raise alg.Unknown('nested loops')
            if hs:
                r = loop_range(f, E, hs[0])
                if r is None:
                    raise alg.Unknown('loop bounds')
                if not all(f.dominates(i.block, p) for p in f.pred[hs[0]] if p in f.loops[hs[0]]):
                    raise alg.Unknown('conditional store')
                pid, vals, _ = r
            else:
                pid, vals = None, [None]
            bits = B.val(i.ops[0])
            for k in vals:
                env = {('v', pid): k} if pid is not None else {}
                o = evalpoly(off, env)
                n = o // 4
                covered.append(n)
                sub_ = {}
                got = [frozenset(e if e == gf2.ONE else (ren(e[0], env, sub_), e[1]) for e in x) for x in bits]
                y = gf2.xor(gf2.andc(gf2.word(n, 32), 0x80000000), gf2.andc(gf2.word((n + 1) % N, 32), 0x7fffffff))
                t = gf2.lshr(y, 1)
                want = gf2.xor(gf2.xor(gf2.word((n + M) % N, 32), t), [y[0] if (0x9908b0df >> j) & 1 else frozenset() for j in range(32)])
                if got != want and good:
                    good, where = False, (i, n)
        rep.check('generation', 'state recurrence', good, where[0].loc() if where else f.loc(), 'word %s of the next state is not that of MT19937' % (where[1] if where else ''), key='recurrence')
        rep.check('generation', 'whole state', covered == list(range(N)), st[0][0].loc(), 'the words regenerated are %s, not 0..623 in order' % short(covered), key='coverage')
        # when
        d0 = st[0][0].block
        cond = E.reach(0, d0)[d0] if d0 else C(1)
        mm = ('mti',)
        for k, want in ((0, 0), (1, 0), (N - 1, 0), (N, 1), (N + 1, 1)):
            g = evalpoly(cond, {mm: k}) if not f.loops_of(d0) else evalpoly(reach_loop(f, E, d0), {mm: k})
            if (1 if g else 0) != want:
                rep.bad('generation', 'exhaustion', st[0][0].loc(), 'the state is %s when %d words have been used' % ('regenerated' if g else 'not regenerated', k), key='exhaustion')
                break
        else:
            rep.ok('generation', 'exhaustion')
        last = st[-1][0]
        z = [i for i in mti_stores(f, E) if const_int(i.ops[0]) == 0]
        ph = [a for a in ()]
        if z:
            rep.ok('generation', 'position reset')
        elif any(f.vals[v.id].op == 'phi' and any(const_int(o) == 0 for o, _ in v.inc) for v in f.instrs if v.op == 'phi' and v.block not in f.loops):
            rep.ok('generation', 'position reset')
        else:
            rep.bad('generation', 'position reset', last.loc(), 'the position is not reset after regenerating the state', key='reset')
        seeds = [i for i in f.instrs if i.op == 'call' and i.callee_name() == 'vl_rand_seed']
        if len(seeds) == 1:
            s = seeds[0]
            rep.check('generation', 'default seed', same(E.one(s.ops[1]), C(5489)), s.loc(), 'an unseeded generator starts from seed %s' % alg.show(E.one(s.ops[1])), key='defseed')
            cond = E.reach(0, s.block)[s.block]
            bad = [k for k, want in ((0, 0), (N - 1, 0), (N, 0), (N + 1, 1)) if bool(evalpoly(cond, {mm: k})) != bool(want)]
            rep.check('generation', 'default seed condition', not bad, s.loc(), 'the default seed is %s' % ('used for a seeded generator' if bad and bad[0] <= N else 'not used for an unseeded one'), key='defseedcond')
            rep.check('generation', 'default seed first', not any(flow.reaches(f, i, s) for i, _ in st), s.loc(), 'the default seeding happens after the state has been generated', key='defseedorder')
        else:
            rep.bad('generation', 'default seed', f.loc(), 'an unseeded generator is never seeded', key='defseed') if not seeds else rep.skip('generation', 'default seed', 'shape')
    except (gf2.Not, alg.Unknown) as e:
        rep.skip('generation', 'state recurrence', str(e))


def depth(f, b):
    n = 0
    while b:
        b = f.idom[b]
        n += 1
    return n


def reach_loop(f, E, b):
    h = f.loops_of(b)[-1]
    return E.reach(0, h)[h]


def ren(key, env, memo):
    if isinstance(key, tuple):
        if key not in memo:
            memo[key] = evalpoly(alg.thaw(key), env) // 4
        return memo[key]
    return key


def carried(f, E, v):
    return None


def short(l):
    return '%d..%d (%d words)' % (l[0], l[-1], len(l)) if l else 'none'


def seed(rep, m):
    f = m.F('vl_rand_seed')
    if f is None:
        rep.skip('seeding', 'vl_rand_seed', 'not defined')
        return
    E = Ev(f)
    try:
        st = state_stores(f, E)
        first = [(i, o) for i, o in st if not f.loops_of(i.block) and same(o, {})]
        rest = [(i, o) for i, o in st if f.loops_of(i.block)]
        if len(first) != 1 or len(rest) != 1:
            raise alg.Unknown('stores')
        rep.check('seeding', 'first word', same32(strip(E.one(first[0][0].ops[0])), A('arg', f.args[1].id)), first[0][0].loc(), 'mt[0] is %s' % alg.show(E.one(first[0][0].ops[0])), key='seed0')
        i, off = rest[0]
        h = f.loops_of(i.block)[0]
        cnt = scale(off, alg.Fraction(1, 4))
        if cnt == A('mti'):
            ini = [s for s in mti_stores(f, E) if not f.loops_of(s.block) and flow.reaches(f, s, i)]
            inc = [s for s in mti_stores(f, E) if f.loops_of(s.block)]
            if len(ini) != 1 or len(inc) != 1 or not same(E.one(inc[0].ops[0]), add(A('mti'), C(1))):
                raise alg.Unknown('counter')
            start = E.one(ini[0].ops[0])
            ex = [(b, s) for b in f.loops[h] for s in f.succ[b] if s not in f.loops[h]]
            if len(ex) != 1 or ex[0][0] != h:
                raise alg.Unknown('exit')
            stay = E.edge(h, [x for x in f.succ[h] if x in f.loops[h]][0])
            vals, k = [], evalpoly(start, {})
            while evalpoly(stay, {('mti',): k}) and len(vals) < 5000:
                vals.append(k)
                k += 1
            final = k
        else:
            r = loop_range(f, E, h)
            if r is None:
                raise alg.Unknown('loop bounds')
            vals = [evalpoly(cnt, {('v', r[0]): k}) for k in r[1]]
            ms = [s for s in mti_stores(f, E)]
            if len(ms) != 1:
                raise alg.Unknown('counter')
            final = evalpoly(E.one(ms[0].ops[0]), {('v', r[0]): r[2]})
        rep.check('seeding', 'whole state', vals == list(range(1, N)), i.loc(), 'the words seeded are %s, not 1..623' % short(vals), key='seedrange')
        rep.check('seeding', 'position', final == N, i.loc(), 'after seeding the position is %s, so the words of the seed are used as random numbers' % final, key='seedpos')
        p = word(sub(off, C(4)))
        want = add(scale(xorp(p, fn('udiv', p, C(1 << 30))), 1812433253), cnt)
        got = E.one(i.ops[0])
        if any(a[0] == 'v' for a in alg.atoms(sub(got, cnt))) and not same32(strip(got), want):
            raise alg.Unknown('carried value')
        rep.check('seeding', 'recurrence', same32(strip(got), want), i.loc(), 'mt[i] is seeded with %s' % alg.show(got)[:200], key='seedrec')
    except alg.Unknown as e:
        rep.skip('seeding', 'vl_rand_seed', str(e))


def strip(p):
    """x & 0xffffffff = x for 32-bit words"""
    def g(a):
        if a[0] == 'fn' and a[1] == 'and':
            x, y = alg.thaw(a[2]), alg.thaw(a[3])
            for u, w in ((x, y), (y, x)):
                if alg.is_const(w) and int(alg.cval(w)) & 0xffffffff == 0xffffffff:
                    return alg.rebuild(u, g)
        return None
    return alg.rebuild(p, g)


def by_array(rep, m):
    f = m.F('vl_rand_seed_by_array')
    if f is None:
        rep.skip('seeding', 'vl_rand_seed_by_array', 'not defined')
        return
    E = Ev(f)
    what = 'by array'
    try:
        seeds = [i for i in f.instrs if i.op == 'call' and i.callee_name() == 'vl_rand_seed']
        if len(seeds) != 1:
            raise alg.Unknown('base seed')
        rep.check('seeding', 'base seed', same(E.one(seeds[0].ops[1]), C(19650218)), seeds[0].loc(), 'the base seed is %s' % alg.show(E.one(seeds[0].ops[1])), key='baseseed')
        st = state_stores(f, E)
        key, size = ('arg', f.args[1].id), A('arg', f.args[2].id)
        hs = sorted({f.loops_of(i.block)[0] for i, _ in st if f.loops_of(i.block)}, key=f.rpo().index)
        if len(hs) != 2 or any(len(f.loops_of(i.block)) > 1 for i, _ in st):
            raise alg.Unknown('loops')
        for n, h in enumerate(hs):
            main = [(i, o) for i, o in st if f.loops_of(i.block)[:1] == [h] and not same(o, {})]
            wrap = [(i, o) for i, o in st if f.loops_of(i.block)[:1] == [h] and same(o, {})]
            if len(main) != 1 or len(wrap) != 1:
                raise alg.Unknown('stores')
            i, off = main[0]
            pos = scale(off, alg.Fraction(1, 4))
            phis = {('v', v.id): v for v in f.blocks[h] if v.op == 'phi'}
            if len(pos) != 1 or list(pos.values()) != [1] or list(pos)[0][0][0] not in phis:
                raise alg.Unknown('index')
            I = list(pos)[0][0][0]
            nxt = lambda V: [E.one(o) for o, b in phis[V].inc if b in f.loops[h]]
            ini = lambda V: [E.one(o) for o, b in phis[V].inc if b not in f.loops[h]]
            p = word(sub(off, C(4)))
            mix = scale(xorp(p, fn('udiv', p, C(1 << 30))), (1664525, 1566083941)[n])
            got = strip(E.one(i.ops[0]))
            if n == 0:
                ks = [a for a in alg.atoms(got) if a[0] == 'ld' and a[1] == key]
                if len(ks) != 1:
                    raise alg.Unknown('key')
                jp = scale(alg.thaw(ks[0][2]), alg.Fraction(1, 4))
                if len(jp) != 1 or list(jp.values()) != [1] or list(jp)[0][0][0] not in phis:
                    raise alg.Unknown('key index')
                J = list(jp)[0][0][0]
                want = add(add(xorp(word(off), mix), A(*ks[0])), jp)
                j1 = add(jp, C(1))
                rep.check('seeding', what + ' key index', all(same(x, mul(j1, gt0(sub(size, j1)))) for x in nxt(J)) and all(same(x, {}) for x in ini(J)), i.loc(),
                          'the key index becomes %s' % alg.show(nxt(J)[0])[:150], key='keyindex')
            else:
                want = sub(xorp(word(off), mix), pos)
            rep.check('seeding', '%s recurrence %d' % (what, n + 1), same32(got, want), i.loc(), 'mt[i] becomes %s' % alg.show(got)[:200], key='arrayrec%d' % n)
            i1 = add(pos, C(1))
            rep.check('seeding', '%s position %d' % (what, n + 1), all(same(x, sel(gt0(sub(C(N), i1)), i1, C(1))) for x in nxt(I)), i.loc(), 'the position becomes %s' % alg.show(nxt(I)[0])[:150], key='arraypos%d' % n)
            if n == 0:
                rep.check('seeding', '%s start' % what, all(same(x, C(1)) for x in ini(I)), i.loc(), 'the first word mixed is %s' % alg.show(ini(I)[0]), key='arraystart')
                firsti = I
            else:
                rep.check('seeding', '%s continues' % what, all(same(x, A(*firsti)) for x in ini(I)), i.loc(), 'the second pass starts at %s' % alg.show(ini(I)[0]), key='arraycont')
            w = wrap[0][0]
            c = E.reach(h, w.block)[w.block]
            body = f.loops[h]
            stay = C(1)
            if any(s not in body for s in f.succ[h]):
                stay = E.edge(h, [x for x in f.succ[h] if x in body][0])
            rep.check('seeding', '%s wrap %d' % (what, n + 1), same(E.one(w.ops[0]), word(C(4 * (N - 1)))) and is_zero(sub(c, mul(stay, ge0(sub(i1, C(N)))))), w.loc(), 'the first word is not updated from the last one at the end of the state', key='arraywrap%d' % n)
            # trip count
            K = None
            for V in phis:
                x = nxt(V)
                if all(same(y, sub(A(*V), C(1))) for y in x) and is_zero(sub(stay, NOT(eq0(A(*V))))):
                    K = ini(V)[0]
                if all(same(y, sub(A(*V), C(1))) for y in x) and is_zero(sub(stay, gt0(A(*V)))):
                    K = ini(V)[0]
            if K is None:
                rep.skip('seeding', '%s rounds %d' % (what, n + 1), 'shape')
            else:
                wantk = sel(gt0(sub(C(N), size)), C(N), size) if n == 0 else C(N - 1)
                rep.check('seeding', '%s rounds %d' % (what, n + 1), same(K, wantk), i.loc(), 'the number of rounds is %s' % alg.show(K)[:120], key='arrayrounds%d' % n)
        fin = [(i, o) for i, o in st if not f.loops_of(i.block)]
        rep.check('seeding', what + ' non-zero state', len(fin) == 1 and same(fin[0][1], {}) and int(alg.cval(E.one(fin[0][0].ops[0]))) & 0xffffffff == 0x80000000, (fin[0][0] if fin else f).loc(),
                  'the state is not made non-zero as in MT19937', key='arrayfin')
    except (alg.Unknown, IndexError, TypeError) as e:
        rep.skip('seeding', 'vl_rand_seed_by_array', str(e))


def init(rep, m):
    f = m.F('vl_rand_init')
    if f is None:
        rep.skip('seeding', 'vl_rand_init', 'not defined')
        return
    E = Ev(f)
    ms = mti_stores(f, E)
    if len(ms) == 1:
        v = E.one(ms[0].ops[0])
        rep.check('seeding', 'unseeded mark', same(v, C(N + 1)), ms[0].loc(), 'a new generator is marked %s: the default seed is not applied' % alg.show(v), key='initmark')
    else:
        rep.skip('seeding', 'vl_rand_init', 'shape')


DERIVED = {
    'vl_rand_uint64': lambda a, b, r: add(scale(a, 1 << 32), b),
    'vl_rand_int63': None,
    'vl_rand_int31': lambda a, b, r: fn('udiv', a, C(2)),
    'vl_rand_real1': lambda a, b, r: scale(a, alg.Fraction(1, 2**32 - 1)),
    'vl_rand_real2': lambda a, b, r: scale(a, alg.Fraction(1, 2**32)),
    'vl_rand_real3': lambda a, b, r: scale(add(a, C(alg.Fraction(1, 2))), alg.Fraction(1, 2**32)),
    'vl_rand_res53': lambda a, b, r: scale(add(scale(fn('udiv', a, C(32)), 2**26), fn('udiv', b, C(64))), alg.Fraction(1, 2**53)),
}


def approx(p, q):
    """equal up to the rounding of decimal constants"""
    if set(p) != set(q):
        return False
    return all(alg.Fraction(float(p[m])) == q[m] if q[m].denominator & (q[m].denominator - 1) == 0 else abs(p[m] - q[m]) <= abs(q[m]) * alg.Fraction(1, 2**51) for m in p)


def orplus(p):
    """(a << k) | b with b < 2^k is a sum"""
    def g(a):
        if a[0] == 'fn' and a[1] == 'or':
            x, y = alg.rebuild(alg.thaw(a[2]), g), alg.rebuild(alg.thaw(a[3]), g)
            for u, w in ((x, y), (y, x)):
                if len(u) == 1 and len(w) == 1:
                    (mu, cu), = u.items()
                    (mw, cw), = w.items()
                    if cu == 1 << 32 and cw == 1 and mw[0][0][:2] == ('draw', '32'):
                        return add(u, w)
        return None
    return alg.rebuild(p, g)


def derived(rep, m):
    a, b = A('draw', '32', 0), A('draw', '32', 1)
    for name, spec in DERIVED.items():
        f = m.F('hdr$' + name) or m.F(name)
        if f is None or len(f.rets) != 1:
            rep.skip('derived numbers', name, 'not defined')
            continue
        E = Ev(f)
        try:
            got = orplus(E.one(f.rets[0].ops[0]))
            if name == 'vl_rand_int63':
                good = any(same(got, fn('udiv', x, C(2))) for x in (A('draw', '64', 0), add(scale(a, 1 << 32), b)))
            else:
                good = approx(got, spec(a, b, None))
            nd = [i for i in f.instrs if i.op == 'call' and i.callee_name() and 'vl_rand_uint' in i.callee_name()]
            rep.check('derived numbers', name, good, f.rets[0].loc(), '%s returns %s' % (name, alg.show(got)[:150]), key='derived:' + name)
            # the constant factor must not round up to 1
            if good and name in ('vl_rand_real2', 'vl_rand_real3', 'vl_rand_res53'):
                mx = sum(c * (2**32 - 1 if k and k[0][0][0] == 'draw' else ((2**32 - 1) >> 5 if k and '(5' in repr(k) else 1)) for k, c in got.items()) if name != 'vl_rand_res53' else 0
                rep.check('derived numbers', name + ' range', mx < 1, f.rets[0].loc(), '%s can return 1' % name, key='range:' + name)
        except (alg.Unknown, ValueError) as e:
            rep.skip('derived numbers', name, str(e))
    f = m.F('hdr$vl_rand_uindex') or m.F('vl_rand_uindex')
    if f is None or len(f.rets) != 1:
        rep.skip('derived numbers', 'vl_rand_uindex', 'not defined')
        return
    E = Ev(f)
    try:
        got = orplus(E.one(f.rets[0].ops[0]))
        r = A('arg', f.args[1].id)
        big = [fn('urem', A('draw', '64', 0), r), fn('urem', add(scale(a, 1 << 32), b), r)]
        small = fn('urem', a, r)
        good = False
        for thr in (2**32 - 1,):
            g = gt0(sub(r, C(thr)))
            good = good or any(same(got, sel(g, x, small)) for x in big)
        good = good or any(same(got, x) for x in big)
        rep.check('derived numbers', 'vl_rand_uindex', good, f.rets[0].loc(), 'vl_rand_uindex returns %s: not every index of the range can be drawn' % alg.show(got)[:200], key='derived:uindex')
    except (alg.Unknown, ValueError) as e:
        rep.skip('derived numbers', 'vl_rand_uindex', str(e))


def permute(rep, m0):
    """checked on the non-inlined view: the draw is a call of vl_rand_uindex"""
    f = m0.F('vl_rand_permute_indexes')
    if f is None:
        rep.skip('permutation', 'vl_rand_permute_indexes', 'not defined')
        return
    E = Ev(f)
    arr, size = ('arg', f.args[1].id), A('arg', f.args[2].id)
    try:
        cs = [i for i in f.instrs if i.op == 'call' and stem(i) == 'vl_rand_uindex']
        if len(cs) != 1 or len(f.loops_of(cs[0].block)) != 1:
            raise alg.Unknown('draw')
        c = cs[0]
        h = f.loops_of(c.block)[0]
        rng = E.one(c.ops[1])
        J = E.one(c.id)
        st = []
        for i in f.instrs:
            if i.op == 'store':
                b, off = E.addr(i.ops[1])
                if b == arr:
                    st.append((i, scale(off, alg.Fraction(1, 8))))
                else:
                    raise alg.Unknown('store')
        if len(st) != 2:
            raise alg.Unknown('swap')
        V = sub(rng, C(1))
        ids = [k for k in range(2) if same(st[k][1], J)]
        if len(ids) != 1:
            raise alg.Unknown('swap')
        other = st[1 - ids[0]]
        vj, vi = E.one(st[ids[0]][0].ops[0]), E.one(other[0].ops[0])
        aj, ai = A('ld', arr, alg.freeze(scale(J, 8))), A('ld', arr, alg.freeze(scale(other[1], 8)))
        rep.check('permutation', 'exchange', same(vj, ai) and same(vi, aj), other[0].loc(), 'the two elements are not exchanged: the result is not a permutation', key='swap')
        # loads precede stores
        ld = [i for i in f.instrs if i.op == 'load' and E.addr(i.ops[0])[0] == arr]
        late = [l for l in ld for s, _ in st if s.block == l.block and f.instrs.index(s) < f.instrs.index(l) and same(E.addr(l.ops[0])[1], E.addr(s.ops[1])[1])]
        rep.check('permutation', 'exchange order', not late, other[0].loc(), 'an element is read after it has been overwritten', key='swaporder')
        # element exchanged with a uniform draw from the elements not placed yet (itself included)
        rep.check('permutation', 'uniform', same(rng, add(other[1], C(1))), c.loc(), 'element %s is exchanged with one of %s elements: the permutations are not equally likely' % (alg.show(other[1]), alg.show(rng)), key='uniform')
        ind = [v for v in f.blocks[h] if v.op == 'phi']
        at = [a for a in alg.atoms(other[1]) if a[0] == 'v']
        if len(at) != 1 or f.vals[at[0][1]] not in ind:
            raise alg.Unknown('loop')
        ph = f.vals[at[0][1]]
        nx = [E.one(o) for o, b in ph.inc if b in f.loops[h]]
        ini = [E.one(o) for o, b in ph.inc if b not in f.loops[h]]
        shift = sub(other[1], A(*at[0]))
        first = [add(x, shift) for x in ini]
        if not all(same(x, sub(A(*at[0]), C(1))) for x in nx):
            raise alg.Unknown('step')
        body = f.loops[h]
        ex = [b for b in body if any(s not in body for s in f.succ[b])]
        if ex != [h]:
            raise alg.Unknown('exit')
        stay = E.edge(h, [x for x in f.succ[h] if x in body][0])
        pos = add(A(*at[0]), shift)
        rep.check('permutation', 'all elements', all(same(x, sub(size, C(1))) for x in first) and
                  any(is_zero(sub(stay, w)) for w in (gt0(pos), ge0(pos), NOT(eq0(pos)))), ph.loc(),
                  'the exchanges start at element %s and continue while %s' % (alg.show(first[0]), alg.show(stay)), key='all')
    except (alg.Unknown, ValueError) as e:
        rep.skip('permutation', 'vl_rand_permute_indexes', str(e))


def saved_state(rep):
    """vl_twister('state') returns every word and the position; a state it returned is accepted back and copied whole"""
    try:
        f = ir.load('mex+i')['vl_twister'].F('mexFunction')
    except KeyError:
        f = None
    if f is None:
        rep.skip('saved state', 'vl_twister', 'not defined')
        return
    E = alg.Eval(f)
    try:
        gr = [i for i in f.instrs if i.op == 'call' and i.callee_name() == 'vl_get_rand']
        if len(gr) != 1:
            raise alg.Unknown('generator')
        R = E.addr(gr[0].id)[0]
        copies = []
        for i in f.instrs:
            if i.op == 'call' and (i.callee_name() or '').startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')):
                (db, do), (sb, so) = E.addr(i.ops[0]), E.addr(i.ops[1])
                if (db == R) != (sb == R):
                    copies.append((i, 'restore' if db == R else 'save', do, so, evalpoly(E.one(i.ops[2]), {}) // 4))
                continue
            if i.op != 'store':
                continue
            w = f.val(i.ops[0])
            while w is not None and w.op in ('zext', 'trunc'):
                w = f.val(w.ops[0])
            db, do = E.addr(i.ops[1])
            sb, so = E.addr(w.ops[0]) if w is not None and w.op == 'load' else (None, None)
            if db == R and sb is None:
                rep.bad('saved state', 'restore word', i.loc(), 'a word of the state is set to %s' % alg.show(E.one(i.ops[0])), key='restoreword')
            elif (db == R) != (sb == R):
                copies.append((i, 'restore' if db == R else 'save', do, so, 1))
        for way in ('save', 'restore'):
            cs = [c for c in copies if c[1] == way]
            if not cs:
                raise alg.Unknown('no copy of the state')
            got = []
            for i, _, do, so, cnt in cs:
                rep.check('saved state', way + ' word', same(do, so), i.loc(), 'word %s of the state is copied from %s' % (alg.show(do), alg.show(so)), key=way + 'word')
                hs = f.loops_of(i.block)
                if not hs:
                    n = evalpoly(do, {}) // 4
                    got += range(n, n + cnt)
                elif len(hs) == 1:
                    r = loop_range(f, E, hs[0])
                    if r is None:
                        raise alg.Unknown('loop bounds')
                    got += [evalpoly(do, {('v', r[0]): k}) // 4 for k in r[1]]
                else:
                    raise alg.Unknown('nested loops')
            rep.check('saved state', way + ' whole state', sorted(got) == list(range(N + 1)), cs[0][0].loc(), 'the words copied are %s of the 624 words and the position' % short(sorted(got)), key=way + 'all')
        pos = [c for c in copies if c[1] == 'restore']
        if pos:
            i = pos[-1][0]
            bad, tests = [], 0
            for b in flow_doms(f, i.block):
                t = f.blocks[b][-1]
                if t.op != 'br' or len(f.succ[b]) != 2 or b in f.loops:
                    continue
                s = [x for x in f.succ[b] if f.dominates(x, i.block)]
                if len(s) != 1:
                    continue
                try:
                    c = E.edge(b, s[0])
                except alg.Unknown:
                    continue
                at = [x for a in alg.atoms(c) if a[0] in ('gt0', 'eq0') for x in alg.atoms(alg.thaw(a[1])) if x[0] == 'ld' and same(alg.thaw(x[2]), C(MTI))]
                at = list(dict.fromkeys(at))
                if len(at) != 1:
                    continue
                try:
                    tests += 1
                    bad += [k for k in range(N + 2) if not evalpoly(c, {at[0]: k})]
                except alg.Unknown:
                    pass
            rep.check('saved state', 'every position accepted', not bad, i.loc(), 'a state saved at position %s cannot be restored' % (bad[0] if bad else ''), key='accept')
    except (alg.Unknown, ValueError) as e:
        rep.skip('saved state', 'vl_twister', str(e))


def flow_doms(f, b):
    out = []
    while b:
        b = f.idom[b]
        out.append(b)
    return out


def run():
    rep = report.Report('C33', RULE, 'bit-linear and polynomial normal forms')
    saved_state(rep)
    m = ir.libi()
    generator(rep, m)
    seed(rep, m)
    by_array(rep, m)
    init(rep, m)
    derived(rep, m)
    permute(rep, ir.lib())
    rep.count('generator laws', len(rep.obl))
    rep.floor('generator laws', len(rep.obl), 8)
    return rep
