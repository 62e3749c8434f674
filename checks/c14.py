"""C14: SIMD code runs only when the CPU has it and SIMD is enabled, and does what the portable code does."""
import re
import ir, alg, report
from ir import const_int
from alg import C, A, add, sub, mul, scale, NOT, eq0
from checks import c15

RULE = ('every call or address of an *_sse2*/*_avx* function outside the SIMD files lies behind conditions that are impossible when vl_get_simd_enabled() or the matching '
        'vl_cpu_has_*() is false; the feature flags are the CPUID bits of their feature; with SIMD off every dispatcher still returns a portable function; '
        'the operands of a SIMD call equal those of the portable code it replaces')

SIMD = re.compile(r'_(sse2|sse3|avx)(_|$)')
BITS = {'hasSSE2': (1, 3, 26), 'hasSSE3': (1, 2, 0), 'hasAVX': (1, 2, 28), 'hasSSE': (1, 3, 25), 'hasMMX': (1, 3, 23), 'hasSSE41': (1, 2, 19), 'hasSSE42': (1, 2, 20)}
QUERY = {'vl_cpu_has_avx': 'hasAVX', 'vl_cpu_has_sse3': 'hasSSE3', 'vl_cpu_has_sse2': 'hasSSE2'}


def zeroed(p, flag):
    """p with the flag replaced by 0"""
    def f(a):
        if a[0] == 'fn' and a[1] == flag:
            return {}
        if a[0] == 'fn' and a[1] == 'and':
            xs = [alg.rebuild(alg.thaw(x), f) for x in a[2:]]
            if any(not x for x in xs):
                return {}
        return None
    return alg.rebuild(p, f)


def guards(E, b):
    """conditions known to hold in block b, from the branches that dominate it"""
    f = E.f
    out, unk = [], []
    x = b
    while x != 0:
        d = f.idom[x]
        t = f.blocks[d][-1]
        if t.op == 'br' and t.cond is not None and t.succ[0] != t.succ[1] and x in t.succ and \
                all(p == d or f.dominates(x, p) for p in f.pred[x]):
            try:
                out.append(E.edge(d, x))
            except alg.Unknown as e:
                unk.append(str(e))
        elif t.op == 'switch' and x in [c[1] for c in t.cases] and all(p == d or f.dominates(x, p) for p in f.pred[x]):
            pass
        x = d
    return out, unk


def impossible(conds, flag):
    p = C(1)
    for c in conds:
        c = zeroed(c, flag)
        if not c:
            return True
        # keep only conditions that involve calls (the flags): keeps the product small
        if any(a for a in alg.atoms(c)):
            try:
                p = mul(p, c) if len(p) * len(c) < 4000 else p
            except alg.Unknown:
                pass
    return alg.is_zero(p)


def relevant(c):
    return 'vl_cpu_has' in repr(c) or 'vl_get_simd' in repr(c)


def uses_of(f):
    """(instruction, operand name, block in which the use takes place)"""
    for b in f.blocks:
        for i in b:
            n = i.callee_name() if i.op == 'call' else None
            if n:
                yield i, n, i.block, True
            if i.op == 'phi':
                for o, p in i.inc:
                    for g in gl(o):
                        yield i, g, p, False
            else:
                for o in i.ops or ():
                    for g in gl(o):
                        yield i, g, i.block, False


def gl(o):
    if isinstance(o, list) and o and o[0] == 'g':
        yield o[1]
    elif isinstance(o, dict):
        for x in o.get('ops', ()):
            yield from gl(x)


def strip(f, o):
    v = f.val(o)
    while v is not None and v.op in ('bitcast', 'sext', 'zext', 'trunc') and isinstance(v.ops[0], int):
        o = v.ops[0]
        v = f.val(o)
    return o


def features(rep, m):
    f = m.F('_vl_x86cpu_info_init')
    if f is None:
        rep.skip('feature bit', '_vl_x86cpu_info_init', 'not defined')
    else:
        E = {}
        for b in f.blocks:
            for i in b:
                if i.op != 'store':
                    continue
                g = f.val(i.ops[1])
                if g is None or g.op != 'getelementptr':
                    continue
                fl = [s for s in g.path if s[0] == 'f']
                if not fl:
                    continue
                n = m.field_name(fl[-1][1], fl[-1][2])
                if n in BITS:
                    E[n] = i
        for n, (leaf, reg, bit) in BITS.items():
            i = E.get(n)
            if i is None:
                if n in QUERY.values():
                    rep.skip('feature bit', n, 'no store found')
                continue
            r = cpubit(f, i.ops[0])
            if r is None:
                rep.skip('feature bit', n, 'not a masked CPUID register')
                continue
            rep.check('feature bit', '%s = CPUID(%d)[%d] bit %d' % (n, leaf, reg, bit), r == (leaf, reg, 1 << bit), i.loc(),
                      '%s is taken from CPUID leaf %s register %s mask %#x' % ((n,) + r), key='bit:' + n)
    for q, n in QUERY.items():
        f = m.F(q)
        if f is None or len(f.rets) != 1:
            rep.skip('feature query', q, 'not defined')
            continue
        v = f.val(strip(f, f.rets[0].ops[0]))
        got = None
        if v is not None and v.op == 'load':
            a = v.ops[0]
            path = a['path'] if isinstance(a, dict) and a.get('ce') == 'getelementptr' else getattr(f.val(a), 'path', None) if f.val(a) is not None else None
            for s in path or ():
                if s[0] == 'f':
                    got = m.field_name(ir.norm_struct(s[1]), s[2])
        if got is None:
            rep.skip('feature query', q, 'shape')
        else:
            rep.check('feature query', q, got == n, v.loc(), '%s returns %s' % (q, got))


def cpubit(f, o):
    """(leaf, register index, mask) of a value (cpuid register & mask), a shifted bit, or a comparison of it with 0"""
    v = f.val(strip(f, o))
    mask = None
    sh = 0
    for _ in range(8):
        if v is None:
            return None
        if v.op == 'and':
            k = [const_int(x) for x in v.ops]
            c = k[1] if k[1] is not None else k[0]
            if c is None:
                return None
            mask = (c & 0xffffffff) << sh if mask is None else mask
            v = f.val(strip(f, v.ops[0] if k[1] is not None else v.ops[1]))
        elif v.op in ('lshr', 'ashr') and const_int(v.ops[1]) is not None:
            sh += const_int(v.ops[1])
            if mask is not None:
                mask <<= const_int(v.ops[1])
            v = f.val(strip(f, v.ops[0]))
        elif v.op == 'icmp' and v.pred == 'ne' and const_int(v.ops[1]) == 0:
            v = f.val(strip(f, v.ops[0]))
        elif v.op == 'extractvalue':
            c = f.val(v.ops[0])
            if c is None or c.op != 'call':
                return None
            leaf = const_int(c.ops[0])
            return (leaf, v.xi[0], mask) if mask is not None and leaf is not None else None
        else:
            return None
    return None


def dispatchers(rep, m):
    flags = ('vl_get_simd_enabled', 'vl_cpu_has_sse2', 'vl_cpu_has_avx', 'vl_cpu_has_sse3')
    en = m.enum_members('VlVectorComparisonType') or m.enum_members('_VlVectorComparisonType')
    handled = set()
    for s in 'fd':
        for disp, tab in (('vl_get_vector_comparison_function_' + s, c15.FORMULA), ('vl_get_vector_3_comparison_function_' + s, c15.F3)):
            f = m.F(disp)
            if f is None or not en:
                continue
            for t in tab:
                inst = '%s(%s)' % (disp, t)
                try:
                    tg, p = c15.targets(m, f, 0, en[t])
                    for n, cond in sorted(tg.items()):
                        isa = SIMD.search(n)
                        if isa:
                            handled.add((disp, n))
                            for fl in ('vl_get_simd_enabled', 'vl_cpu_has_' + isa.group(1)):
                                rep.check('guarded', '%s -> %s' % (inst, n), alg.is_zero(zeroed(cond, fl)), f.loc(),
                                          '%s may be returned although %s() is false' % (n, fl), key='guard:%s:%s:%s' % (disp, n, fl))
                    off = p
                    for fl in flags[:1]:
                        off = zeroed(off, fl)
                    gs = [a for a in alg.atoms(off) if a[0] == 'g']
                    if len(gs) == 1 and not SIMD.search(gs[0][1]) and alg.same(off, A(*gs[0])):
                        rep.ok('portable fallback', inst, gs[0][1])
                    elif any(a[0] not in ('g', 'eq0', 'gt0') for a in alg.atoms(off)):
                        rep.skip('portable fallback', inst, alg.show(off)[:100])
                    else:
                        rep.bad('portable fallback', inst, f.loc(), 'with SIMD off %s yields %s' % (t, alg.show(off)[:160] or 'no function'))
                except alg.Unknown as e:
                    rep.skip('guarded', inst, str(e))
    return handled


def simd_file(f):
    return bool(re.search(r'_(sse2|avx)\.c$', f.file or ''))


def forwarded(rep, m, f, c, n):
    """column convolution: the SIMD version gets the caller's own arguments, and nothing else is done"""
    for k, o in enumerate(c.ops):
        o = strip(f, o)
        a = f.val(o)
        if a is not None and a.op == 'arg':
            rep.check('same operands', '%s in %s: %s' % (n, f.src, f.args[k].name), a.id == k, c.loc(),
                      'argument %d of %s is %s, not %s' % (k, n, f.args[a.id].name, f.args[k].name), key='op:%s:%d' % (n, k))
        else:
            rep.bad('same operands', '%s in %s: %s' % (n, f.src, f.args[k].name), c.loc(), 'argument %d of %s is not the caller\'s %s' % (k, n, f.args[k].name), key='op:%s:%d' % (n, k))
    # nothing may be stored through the arguments afterwards
    after = f.reach(c.block)
    after = {b for b in after if b != c.block}
    bad = [i for b in after for i in f.blocks[b] if i.op == 'store' and not isinstance(i.ops[0], list)]
    bad += [i for i in f.blocks[c.block][f.blocks[c.block].index(c) + 1:] if i.op == 'store']
    rep.check('same operands', '%s replaces the portable code' % n, not bad, (bad[0] if bad else c).loc(), 'the portable code also runs after %s' % n, key='after:' + n)


def weighted(rep, m, f, c, n, esz):
    """out[k] += w * term(in[k]) by the SIMD call; the portable loop of the same function must do the same"""
    E = alg.Eval(f, calls=c15.CALLS)
    kind = 'mean' if 'weighted_mean' in n else 'sigma'
    try:
        N = E.one(c.ops[0])
        out = E.addr(c.ops[1])
        ins = [E.addr(o) for o in c.ops[2:-1]]
        w = E.one(c.ops[-1])
    except alg.Unknown as e:
        rep.skip('same operands', '%s in %s' % (n, f.src), str(e))
        return
    cand, why, good = 0, '', None
    for b in f.blocks:
        for i in b:
            if i.op != 'store' or i.ty == 'ptr' and False:
                continue
            try:
                bb, off = E.addr(i.ops[1])
                if bb != out[0]:
                    continue
                v = E.one(i.ops[0])
            except alg.Unknown:
                continue
            d = sub(off, out[1])
            ld = lambda p: A('ld', p[0], alg.freeze(p[1]))
            if alg.same(v, {}) or not any(a[0] == 'ld' and a[1] == bb for a in alg.atoms(v)):
                continue
            L = next((l for l in f.loops_of(i.block)), None)
            if L is None:
                continue
            ph = [a for mo in d for a, k in mo if a[0] == 'v']
            # the innermost counter of the loop that contains the store
            iv = [a for a in alg.atoms(d) if a[0] == 'v' and f.vals[a[1]].block == L]
            if f.loops_of(i.block) and f.loops_of(c.block) and L in f.loops_of(c.block):
                continue
            anyiv = [a for a in alg.atoms(off) if a[0] == 'v' and f.vals[a[1]].block == L]
            if not anyiv:
                continue
            if not any(x in f.loops_of(i.block) for x in f.loops_of(c.block)):
                continue
            cand += 1
            if len(iv) != 1 or not alg.same(d, scale(A(*iv[0]), esz)):
                why = 'the portable loop updates %s' % alg.show(off)[:120]
                continue
            k = d
            at = lambda p: A('ld', p[0], alg.freeze(add(p[1], k)))
            if kind == 'mean':
                want = add(at(out), mul(w, at(ins[0])))
            else:
                x = sub(at(ins[0]), at(ins[1]))
                want = add(at(out), mul(w, mul(x, x)))
            if alg.same(v, want):
                good = (i, iv[0], L)
            else:
                why = 'the portable loop computes %s' % alg.show(v)[:200]
    inst = '%s in %s' % (n, f.src)
    if good:
        i, iv, L = good
        ok, why = counts(E, f, iv, L, N)
        if ok is None:
            rep.skip('same operands', inst, why)
        else:
            rep.check('same operands', inst, ok, c.loc(), why or '', key='op:' + n)
    elif cand:
        rep.bad('same operands', inst, c.loc(), '%s does not do what the portable code does: %s' % (n, why), key='op:' + n)
    else:
        rep.skip('same operands', inst, 'no portable counterpart found')


def counts(E, f, iv, L, N):
    """loop variable runs 0, 1, ..., N-1"""
    v = f.vals[iv[1]]
    for o, p in v.inc:
        x = E.one(o)
        if f.dominates(L, p):
            if not alg.same(sub(x, A(*iv)), C(1)):
                return None, 'step'
        elif not alg.same(x, {}):
            return (False if alg.is_const(x) else None), 'the portable loop starts at %s, the SIMD call at 0' % alg.show(x)
    t = f.blocks[L][-1]
    if t.op != 'br' or t.cond is None:
        return None, 'exit'
    body = f.loops[L]
    s = t.succ[0] if t.succ[0] in body else t.succ[1]
    c = E.edge(L, s)
    if alg.same(c, alg.gt0(sub(N, A(*iv)))):
        return True, ''
    return False, 'the SIMD call handles %s elements, the portable loop runs while %s' % (alg.show(N)[:80], alg.show(c)[:80])


def run():
    rep = report.Report('C14', RULE, 'control-dependence query over every use of a SIMD function; value-graph identity of operands and of feature bits')
    m = ir.libi()
    features(rep, m)
    handled = dispatchers(rep, m)
    nuse = 0
    for f in m.defined():
        if simd_file(f) or SIMD.search(f.name):
            continue
        E = None
        for i, n, b, iscall in uses_of(f):
            g = SIMD.search(n)
            if not g or n in c15.CALLS or not n.startswith(('_vl', 'vl')):
                continue
            nuse += 1
            if (f.name, n) not in handled:
                E = E or alg.Eval(f, calls=c15.CALLS)
                gs, unk = guards(E, b)
                gs = [c for c in gs if relevant(c)]
                for fl in ('vl_get_simd_enabled', 'vl_cpu_has_' + g.group(1)):
                    inst = '%s in %s: %s' % (n, f.src, fl)
                    if impossible(gs, fl):
                        rep.ok('guarded', inst)
                    elif unk:
                        rep.skip('guarded', inst, unk[0])
                    else:
                        rep.bad('guarded', inst, i.loc(), '%s is used although %s() may be false' % (n, fl), key='guard:%s:%s:%s' % (f.src, n, fl))
            if iscall:
                if n.startswith('_vl_imconvcol'):
                    forwarded(rep, m, f, i, n)
                elif '_weighted_' in n:
                    weighted(rep, m, f, i, n, 4 if n.endswith('_f') else 8)
    rep.count('uses of SIMD functions', nuse)
    rep.floor('uses of SIMD functions', nuse, 20)
    return rep
