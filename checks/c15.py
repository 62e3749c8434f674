"""C15: every vector comparison function computes its formula, scalar or SIMD, for every length and alignment."""
import re
import ir, alg, stream, report
from alg import C, A, add, sub, mul, scale, inv, NOT, eq0, fn, absv, minv, maxv

RULE = ('value-graph identity: for each function a vector comparison type can resolve to (any type, float and double, with or without SSE2/AVX) and for '
        'the SIMD weighted mean/sigma updates: inputs are consumed in lockstep, never past the end, all elements are consumed, each loop adds the '
        'documented term of the elements it consumes, the sum starts at zero and is returned with the documented factor; aligned loads are guarded by '
        'an alignment test of that very pointer; the dispatcher returns, for every type, only functions proved for that type')


def log2(p):
    return fn('log2', p)


def els(*ks):
    return lambda j: [A('el', k, j) for k in ks]


def guard(x, t):
    return mul(NOT(eq0(x)), t)


def f_l2(x, y):
    return mul(sub(x, y), sub(x, y))


def f_l1(x, y):
    return absv(sub(x, y))


def f_chi2(x, y):
    return guard(add(x, y), mul(f_l2(x, y), inv(add(x, y))))


def f_hell(x, y):
    return sub(add(x, y), scale(fn('sqrt', mul(x, y)), 2))


def js(x, y):
    return guard(x, mul(x, log2(add(C(1), mul(y, inv(x))))))


def f_js(x, y):
    a = sub(guard(x, x), js(x, y))
    b = sub(guard(y, y), js(y, x))
    return add(a, b)


def k_l2(x, y):
    return mul(x, y)


def k_l1(x, y):
    return scale(sub(add(absv(x), absv(y)), absv(sub(x, y))), alg.Fraction(1, 2))


def k_chi2(x, y):
    return guard(add(x, y), mul(scale(mul(x, y), 2), inv(add(x, y))))


def k_hell(x, y):
    return fn('sqrt', mul(x, y))


def k_js(x, y):
    return scale(add(js(x, y), js(y, x)), alg.Fraction(1, 2))


FORMULA = {'VlDistanceL2': f_l2, 'VlDistanceL1': f_l1, 'VlDistanceChi2': f_chi2, 'VlDistanceHellinger': f_hell, 'VlDistanceJS': f_js,
           'VlKernelL2': k_l2, 'VlKernelL1': k_l1, 'VlKernelChi2': k_chi2, 'VlKernelHellinger': k_hell, 'VlKernelJS': k_js}
F3 = {'VlDistanceMahalanobis': lambda x, m, s: mul(f_l2(x, m), s)}


def prove(rep, m, name, formula, nargs, esz, inst, what):
    f = m.F(name)
    if f is None:
        rep.bad('defined', inst, 'vl/mathop.c:0', '%s is not defined' % name)
        return
    try:
        S = stream.Stream(f, 0, esz)
        term = lambda j: formula(*[A('el', k, j) for k in range(1, 1 + nargs)])
        if len(f.rets) != 1:
            raise alg.Unknown('several returns')
        S.total(S.E.one(f.rets[0].ops[0]), term, f.rets[0])
        rep.ok('formula', inst, '%s, %d loops' % (what, S.loops))
        rep.count('loops proved', S.loops)
    except stream.Bad as e:
        rep.bad('formula', inst, e.ins.loc(), '%s (%s): %s' % (name, what, e.msg), key='formula:' + name)
        return
    except alg.Unknown as e:
        rep.skip('formula', inst, '%s: %s' % (name, e))
        return
    align(rep, S, f, inst)


def align(rep, S, f, inst):
    try:
        for i, k, al, ok in S.aligned():
            rep.check('alignment is tested', '%s: %s' % (inst, f.args[k].name or k), ok, i.loc(),
                      'loads %d-byte aligned from a pointer whose alignment was not tested' % al, key='align:%s:%s' % (f.src, k))
    except alg.Unknown as e:
        rep.skip('alignment is tested', inst, str(e))


def updates(rep, m, esz, s):
    """S += w (x-y)^2,  MU += w x"""
    for isa in ('sse2', 'avx'):
        for base, out, term in (
                ('weighted_sigma', 1, lambda j: add(A('el', 1, j), mul(A('arg', 4), f_l2(A('el', 2, j), A('el', 3, j))))),
                ('weighted_mean', 1, lambda j: add(A('el', 1, j), mul(A('arg', 3), A('el', 2, j))))):
            n = '_vl_%s_%s_%s' % (base, isa, s)
            f = m.F(n)
            if f is None:
                rep.skip('formula', n, 'not defined')
                continue
            try:
                S = stream.Stream(f, 0, esz)
                S.update(out, term)
                rep.ok('formula', n, '%d loops' % S.loops)
                rep.count('loops proved', S.loops)
                align(rep, S, f, n)
            except stream.Bad as e:
                rep.bad('formula', n, e.ins.loc(), '%s: %s' % (n, e.msg), key='formula:' + n)
            except alg.Unknown as e:
                rep.skip('formula', n, str(e))


class DEv(alg.Eval):
    gate_ptr = True


def flag(name):
    return lambda E, v: [A('fn', name)]


CALLS = {n: flag(n) for n in ('vl_cpu_has_sse2', 'vl_cpu_has_avx', 'vl_get_simd_enabled', 'vl_cpu_has_sse3')}


def targets(m, f, arg, val):
    """[(function name, condition)] that f can return for this value of its argument"""
    E = DEv(f, {arg: [C(val)]}, calls=CALLS)
    r = f.rets[0].ops[0]
    p = E.one(r)
    out = []
    for mo, c in p.items():
        g = [a for a, k in mo if a[0] == 'g']
        rest = tuple(x for x in mo if x[0][0] != 'g')
        if len(g) > 1:
            raise alg.Unknown('dispatch')
        if g:
            out.append((g[0][1], {rest: c}))
    d = {}
    for n, c in out:
        d[n] = add(d.get(n, {}), c)
    return {n: c for n, c in d.items() if c}, p


def needs(cond, flagname):
    """condition is impossible when the flag is zero"""
    e = eq0(A('fn', flagname))
    return alg.is_zero(alg.subst_atom(cond, next(iter(alg.atoms(e))), C(1)))


def run():
    rep = report.Report('C15', RULE, 'gated value graph of each kernel, lane-wise, compared with the formula by polynomial identity')
    m = ir.libi()
    done = set()
    en = m.enum_members('VlVectorComparisonType') or m.enum_members('_VlVectorComparisonType')
    for s, esz in (('f', 4), ('d', 8)):
        for disp, tab, nargs in (('vl_get_vector_comparison_function_' + s, FORMULA, 2), ('vl_get_vector_3_comparison_function_' + s, F3, 3)):
            f = m.F(disp)
            if f is None or not en:
                rep.bad('dispatch', disp, 'vl/mathop.c:0', 'the dispatcher is not defined')
                continue
            for t, formula in tab.items():
                if t not in en:
                    rep.bad('dispatch', '%s %s' % (disp, t), f.loc(), 'enumerator missing')
                    continue
                inst = '%s(%s)' % (disp, t)
                try:
                    tg, p = targets(m, f, 0, en[t])
                except alg.Unknown as e:
                    rep.skip('dispatch', inst, str(e))
                    tg = {}
                    for cand in ('_vl_' + {'VlDistance': 'distance_', 'VlKernel': 'kernel_'}[t[:10] if t.startswith('VlDistance') else 'VlKernel'] + t[10 if t.startswith('VlDistance') else 8:].lower(),):
                        if m.F(cand + '_' + s):
                            tg[cand + '_' + s] = None
                if not tg:
                    rep.bad('dispatch', inst, f.loc(), 'no function is returned for %s' % t)
                    continue
                rep.count('dispatched functions', len(tg))
                for n, cond in sorted(tg.items()):
                    rep.check('element type', '%s -> %s' % (inst, n), n.endswith('_' + s), f.loc(), '%s is returned for vectors of %s' % (n, 'float' if s == 'f' else 'double'), key='etype:%s:%s' % (inst, n))
                    if n.endswith('_' + s):
                        prove(rep, m, n, formula, nargs, esz, '%s = %s' % (inst, n), t)
                        done.add(n)
        n = '_vl_dot_sse2_' + s
        if m.F(n):
            prove(rep, m, n, k_l2, 2, esz, n, 'dot product')
        updates(rep, m, esz, s)
    rep.count('functions proved', len(done))
    rep.floor('dispatched functions', rep.analysed.get('dispatched functions', 0), 20)
    rep.floor('loops proved', rep.analysed.get('loops proved', 0), 40)
    return rep
