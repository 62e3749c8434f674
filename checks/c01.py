"""C01: what a setter or constructor is given is what the getter reports."""
import re
import ir, effects, flow, api, report
from ir import const_int

# getter/setter or constructor/getter pairs whose transfer is documented not to be the identity
CLAMPED = {'vl_ikm_set_verbosity'}            # stored as max(0, verb)
RATIO = {'vl_svm_set_bias'}                   # stored as bias / multiplier, reported as bias * multiplier
# constructor parameter -> getter whose name differs from the parameter's
CTOR_GETTERS = {
    'vl_kmeans_new': {0: 'vl_kmeans_get_data_type', 1: 'vl_kmeans_get_distance'},
    'vl_gmm_new': {0: 'vl_gmm_get_data_type', 1: 'vl_gmm_get_dimension', 2: 'vl_gmm_get_num_clusters'},
    'vl_kdforest_new': {0: 'vl_kdforest_get_data_type', 1: 'vl_kdforest_get_data_dimension', 2: 'vl_kdforest_get_num_trees'},
    'vl_kdforest_new_searcher': {0: 'vl_kdforestsearcher_get_forest'},
    'vl_homogeneouskernelmap_new': {0: 'vl_homogeneouskernelmap_get_kernel_type', 2: 'vl_homogeneouskernelmap_get_order',
                                    4: 'vl_homogeneouskernelmap_get_window_type'},
    'vl_sift_new': {2: 'vl_sift_get_noctaves', 3: 'vl_sift_get_nlevels', 4: 'vl_sift_get_octave_first'},
    'vl_svmdataset_new': {1: 'vl_svmdataset_get_data', 3: 'vl_svmdataset_get_num_data', 2: 'vl_svmdataset_get_dimension'},
    'vl_svm_new_with_abstract_data': {0: 'vl_svm_get_solver', 2: 'vl_svm_get_dimension', 3: 'vl_svm_get_num_data', 5: 'vl_svm_get_lambda'},
    'vl_svm_new_with_dataset': {0: 'vl_svm_get_solver', 3: 'vl_svm_get_lambda'},
    'vl_svm_new': {0: 'vl_svm_get_solver', 5: 'vl_svm_get_lambda'},
    'vl_liopdesc_new': {0: 'vl_liopdesc_get_num_neighbours', 1: 'vl_liopdesc_get_num_spatial_bins',
                        2: 'vl_liopdesc_get_neighbourhood_radius'},
    'vl_scalespace_new_with_geometry': {0: 'vl_scalespace_get_geometry'},
    'vl_array_new': {0: 'vl_array_get_data_type', 1: 'vl_array_get_num_dimensions'},
    'vl_array_new_envelope': {0: 'vl_array_get_data', 1: 'vl_array_get_data_type', 2: 'vl_array_get_num_dimensions'},
    'vl_array_new_matrix': {0: 'vl_array_get_data_type'},
    'vl_array_new_matrix_envelope': {0: 'vl_array_get_data', 1: 'vl_array_get_data_type'},
}
# parameter used as given unless negative, in which case a default is computed
AUTO_IF_NEGATIVE = {('vl_sift_new', 2)}
# init functions that record parameters
INIT_GETTERS = {
    'vl_ikm_init': {2: 'vl_ikm_get_ndims', 3: 'vl_ikm_get_K'},
    'vl_ikm_init_rand': {1: 'vl_ikm_get_ndims', 2: 'vl_ikm_get_K'},
    'vl_ikm_init_rand_data': {4: 'vl_ikm_get_K', 2: 'vl_ikm_get_ndims'},
    'vl_hikm_init': {1: 'vl_hikm_get_ndims', 2: 'vl_hikm_get_K', 3: 'vl_hikm_get_depth'},
}


def getter_slots(an, g):
    """-> list of (kind, location) reported by a getter: kind 'value' (scalar member),
    'address' (address of a member), 'pointee' (pointer member); or None if not that simple"""
    fi = an.info[g.name]
    out = []
    if len(g.rets) >= 1 and g.ret != 'void':
        locs = set()
        for r in g.rets:
            if narrows(g, r.ops[0]):
                return None
            o = flow.strip_casts(g, r.ops[0])
            v = g.val(o)
            if v is None:
                return None
            if v.op == 'load':
                for l in fi.access(v.ops[0]):
                    locs.add(('value', l))
            elif v.op == 'getelementptr' and ir.const_int(v.ops[-1]) is not None and ir.is_null is not None and g.ret.startswith('ptr'):
                for l in fi.pts(o):
                    locs.add(('address', l))
            elif v.op == 'phi' or v.op == 'call' or v.op == 'select':
                return None
            else:
                return None
        if len(locs) != 1:
            return None
        return list(locs)
    # out parameters, or a structure returned through sret
    if g.args and g.args[0].sret:
        for i in g.instrs:
            if i.op == 'call' and (effects.EXT.get(i.callee_name()) or {}).get('copy'):
                src = fi.pts(i.ops[1])
                if len(src) == 1:
                    return [('value', next(iter(src)))]
        return None
    slots = {}
    for i in g.instrs:
        if i.op == 'store':
            acc = fi.access(i.ops[1])
            v = g.val(flow.strip_casts(g, i.ops[0]))
            if len(acc) == 1 and next(iter(acc))[0][0] == 'arg' and next(iter(acc))[1] == () and v is not None and v.op == 'load':
                src = fi.access(v.ops[0])
                if len(src) == 1:
                    slots.setdefault(next(iter(acc))[0][1], set()).add(('value', next(iter(src))))
    if slots and all(len(s) == 1 for s in slots.values()):
        return [next(iter(slots[k])) for k in sorted(slots)]
    return None


WIDTH = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'float': 24, 'double': 53, 'ptr': 64}


def narrows(f, o):
    """a chain of casts that squeezes the value through a type narrower than both its ends"""
    tys = []
    while isinstance(o, int):
        v = f.vals[o]
        tys.append(v.ty)
        if v.op in flow.CASTS:
            o = v.ops[0]
        else:
            break
    w = [WIDTH.get(t) for t in tys]
    if None in w or len(w) < 3:
        return False
    return min(w) < min(w[0], w[-1]) or (tys[0] == tys[-1] and tys[0] in ('float', 'double') and any(t[0] == 'i' for t in tys))


def value_is_param(f, o, p):
    """SSA operand is exactly parameter p (through casts / phis of it)"""
    seen = set()
    st = [o]
    hit = False
    while st:
        x = st.pop()
        if narrows(f, x):
            return False
        x = flow.strip_casts(f, x)
        if isinstance(x, int):
            if x in seen:
                continue
            seen.add(x)
            v = f.vals[x]
            if v.op == 'arg':
                if v.id != p:
                    return False
                hit = True
            elif v.op == 'phi':
                st.extend(a for a, _ in v.inc)
            elif v.op == 'select':
                st.extend(v.ops[1:])
            else:
                return False
        else:
            return False
    return hit


def desc(f, vals):
    out = []
    for v in sorted(vals, key=str):
        if v[0] == 'init':
            out.append('left unchanged on some path')
        elif v[0] == 'store':
            out.append('assigned at %s' % v[1].loc())
        else:
            out.append('%s at %s' % (v[0], v[1].loc()))
    return '; '.join(out)


def run():
    rep = report.Report('C01', 'for every getter/setter and constructor/getter pair, on every path of the writer to a return the '
                        'member the getter reports holds exactly the value passed in, and the getter reports it unmodified and writes nothing',
                        'must-value dataflow of member locations over SSA, access-path aliasing')
    m, an = ir.libi(), effects.libi_analysis()
    T = api.table(m)
    rep.count('functions analysed', len(T))
    pairs = []
    for n in sorted(T):
        if '_set_' in n and n.startswith('vl_'):
            g = n.replace('_set_', '_get_')
            if g in T:
                pairs.append((n, g))
    npairs = 0
    for s, g in pairs:
        S, G = T[s], T[g]
        if not S.args or not G.args or S.args[0].ty != 'ptr':
            continue
        selfS = 0
        slots = getter_slots(an, G)
        # getters must not write
        wr = [l for l in an.sum[G.name].writes if not (l[0][0] == 'arg' and G.args[l[0][1]].sret) and not
              (l[0][0] == 'arg' and l[0][1] > 0 and l[1] == ())]
        if wr:
            rep.bad('getter-pure', g, G.loc(), 'getter modifies %s' % effects.fmt(wr[0]))
        else:
            rep.ok('getter-pure', g)
        if s in RATIO:
            check_ratio(rep, an, S, G)
            npairs += 1
            continue
        if not slots:
            # a getter that no longer reports one member unmodified
            rep.bad('getter-reports-member', g, G.loc(), 'getter does not report a stored member unmodified for setter %s' % s) \
                if simple_shape(G) else rep.skip('pair', s, 'getter shape not recognised')
            continue
        params = [a for a in S.args if a.id != 0]
        if len(params) < len(slots):
            rep.skip('pair', s, 'fewer parameters than reported values')
            continue
        npairs += 1
        for k, (kind, L) in enumerate(slots):
            L = remap_self(L, G)
            p = params[k]
            inst = '%s/%s%s' % (s, g, '[%d]' % k if len(slots) > 1 else '')
            vals = flow.exit_values(an, S, L)
            good = bool(vals)
            for v in vals:
                if v[0] == 'store':
                    st = v[1]
                    if value_is_param(S, st.ops[0], p.id):
                        w, gt = WIDTH.get(st.sty, 64), getter_type(G, k)
                        if w < min(WIDTH.get(p.ty, 0), WIDTH.get(gt, 0)):
                            good = False
                        continue
                    if s in CLAMPED and clamp_of(S, st.ops[0], p.id):
                        continue
                    good = False
                elif v[0] == 'copy':
                    if v[2][0] == ('arg', p.id):
                        continue
                    good = False
                elif v[0] == 'call' and via_call(an, S, v[1], L, p.id):
                    continue
                else:
                    good = False
            if not good and p.ty == 'ptr':
                # parameter block copied into the buffer / structure the getter exposes
                if copied_from_param(an, S, L, p.id):
                    good = True
            if good:
                rep.ok('round-trip', inst, effects.fmt(L))
            else:
                rep.bad('round-trip', inst, S.loc(), '%s does not leave parameter %s in %s, which %s reports (%s)' %
                        (s, p.name, effects.fmt(L), g, desc(S, vals)))
    # struct parameter passed by value / pointer: dsift geometry and friends have no separate getter pairs above
    nct = 0
    for table in (CTOR_GETTERS, INIT_GETTERS):
        for c, mp in sorted(table.items()):
            C = T.get(c)
            if C is None:
                if mp:
                    rep.skip('ctor', c, 'constructor not found')
                continue
            for idx, g in sorted(mp.items()):
                G = T.get(g)
                if G is None or idx >= len(C.args):
                    rep.skip('ctor', c, 'getter %s not found' % g)
                    continue
                nct += check_ctor(rep, an, C, idx, G, table is INIT_GETTERS)
    rep.count('getter/setter pairs', npairs)
    rep.count('constructor/getter pairs', nct)
    rep.floor('getter/setter pairs', npairs, 40)
    rep.floor('constructor/getter pairs', nct, 18)
    rep.note('values are compared before narrowing conversions: a setter whose member type is narrower than its parameter is identity up to that conversion')
    return rep


def getter_type(G, k):
    if G.ret not in (None, 'void'):
        return G.ret
    return None


def simple_shape(G):
    return len(G.instrs) <= 12 and not any(i.op == 'call' for i in G.instrs)


def remap_self(L, G):
    # self is always argument 0 of setter; of the getter argument 0 (or 1 after sret)
    r, p = L
    if r[0] == 'arg' and G.args[0].sret and r[1] == 1:
        return (('arg', 0), p)
    return L


def clamp_of(f, o, p):
    """max/min of parameter and a constant"""
    o = flow.strip_casts(f, o)
    v = f.val(o)
    if v is None or v.op not in ('phi', 'select', 'call'):
        return False
    parts = [x for x, _ in v.inc] if v.op == 'phi' else (v.ops[1:] if v.op == 'select' else v.ops)
    par = [x for x in parts if const_int(x) is None]
    return bool(par) and all(value_is_param(f, x, p) for x in par) and any(const_int(x) == 0 for x in parts)


def copied_from_param(an, S, L, p):
    fi = an.info[S.name]
    D = (L[0], L[1] + ('*',))
    hits = []
    for i in S.instrs:
        if i.op == 'call':
            e = effects.EXT.get(i.callee_name()) or {}
            if 'copy' in e:
                d, s = e['copy']
                if any(x in (D, L) for x in fi.pts(i.ops[d])) and any(x[0] == ('arg', p) for x in fi.pts(i.ops[s])):
                    hits.append(i)
    return bool(hits) and all(flow.must_before(S, hits, r) for r in S.rets)


def check_ratio(rep, an, S, G):
    """setter stores param / M, getter reports stored * M (same member M)"""
    fs, fg = an.info[S.name], an.info[G.name]
    inst = '%s/%s' % (S.src, G.src)
    g = G.val(flow.strip_casts(G, G.rets[0].ops[0]))
    ok = False
    if g is not None and g.op == 'fmul':
        gl = [frozenset(fg.access(G.val(x).ops[0])) if G.val(x) is not None and G.val(x).op == 'load' else None for x in g.ops]
        for i in S.instrs:
            if i.op == 'store' and frozenset(fs.access(i.ops[1])) in gl:
                v = S.val(i.ops[0])
                if v is not None and v.op == 'fdiv' and value_is_param(S, v.ops[0], 1):
                    d = S.val(v.ops[1])
                    if d is not None and d.op == 'load' and frozenset(fs.access(d.ops[0])) in gl and \
                            frozenset(fs.access(d.ops[0])) != frozenset(fs.access(i.ops[1])):
                        ok = True
                    else:
                        ok = False
                        break
                else:
                    ok = False
                    break
    if ok:
        rep.ok('round-trip', inst, 'stored as b/m, reported as b*m')
    elif g is not None and g.op in ('fmul', 'load', 'fdiv', 'fadd', 'fsub'):
        rep.bad('round-trip', inst, S.loc(), 'setter transform and getter transform are not inverse of each other')
    else:
        rep.skip('round-trip', inst, 'shape not recognised')


def check_ctor(rep, an, C, idx, G, init):
    slots = getter_slots(an, G)
    inst = '%s(%s)/%s' % (C.src, C.args[idx].name or idx, G.src)
    if not slots and G.src in ('vl_svmdataset_get_dimension',):
        # dimension is multiplied by the feature-map dimension when a map is attached
        fi = an.info[G.name]
        locs = set()
        for i in G.instrs:
            if i.op == 'load' and i.ty == 'i64':
                locs |= {l for l in fi.access(i.ops[0]) if l[0] == ('arg', 0)}
        slots = [('value', sorted(locs)[0])] if len(locs) == 1 else None
    if not slots:
        rep.skip('ctor', inst, 'getter shape not recognised')
        return 0
    kind, L = slots[0]
    bad = []
    n = 0
    if init:
        roots = [(('arg', 0), None)]
    else:
        roots = []
        for r in C.rets:
            for loc in an.info[C.name].pts(r.ops[0]):
                if loc[0][0] == 'call' and loc[1] == ():
                    roots.append((loc[0], r))
    # a constructor that returns another constructor's object must hand its parameter on
    for root in [r for r, _ in roots if r[0] == 'call']:
        call = C.vals[root[1]]
        cn = call.callee_name()
        sub = {k: v for k, v in CTOR_GETTERS.get(cn, {}).items() if v == G.src}
        if cn in CTOR_GETTERS:
            n_ok = any(value_is_param(C, call.ops[k], idx) for k in sub)
            if sub and n_ok:
                rep.ok('ctor-records', inst, 'handed on to ' + cn)
            elif sub:
                rep.bad('ctor-records', inst, call.loc(), 'parameter is not handed on to %s' % cn)
            return 1 if sub else 0
    for root, r in dict(roots).items():
        vals = flow.exit_values(an, C, (root, L[1]))
        if not vals:
            continue
        n += 1
        for v in vals:
            if v[0] == 'store' and value_is_param(C, v[1].ops[0], idx):
                if WIDTH.get(v[1].sty, 64) < min(WIDTH.get(C.args[idx].ty, 0), WIDTH.get(G.ret, 0)):
                    bad.append(v)
                continue
            if v[0] == 'copy' and v[2][0] == ('arg', idx):
                continue
            if v[0] == 'call' and via_call(an, C, v[1], (root, L[1]), idx):
                continue
            if v[0] == 'store' and (C.src, idx) in AUTO_IF_NEGATIVE and auto_negative(C, v[1].ops[0], idx):
                continue
            if v[0] == 'init':
                if C.F if False else _null_path(C, root):
                    continue
            bad.append(v)
    if not n:
        rep.skip('ctor', inst, 'allocated object not recognised')
        return 0
    if bad:
        rep.bad('ctor-records', inst, C.loc(), 'constructor does not leave its parameter in %s, which %s reports (%s)' %
                (effects.fmt(L), G.src, desc(C, bad)))
    else:
        rep.ok('ctor-records', inst, effects.fmt(L))
    return 1


def _null_path(C, root):
    """some return gives back NULL or the object was not allocated on that path"""
    for r in C.rets:
        if r.ops and ir.is_null(r.ops[0]):
            return True
        v = C.val(r.ops[0]) if r.ops else None
        if v is not None and v.op == 'phi' and any(ir.is_null(x) for x, _ in v.inc):
            return True
    return False


def via_call(an, f, c, L, p, depth=0):
    """call c stores f's parameter p into L on every path of the callee"""
    sub = flow.callee_exit(an, f, c, L)
    if sub is None or depth > 4:
        return False
    g, L2, vals = sub
    qs = [k for k, o in enumerate(c.ops) if value_is_param(f, o, p)]
    for v in vals:
        if v[0] == 'store' and any(value_is_param(g, v[1].ops[0], q) for q in qs):
            continue
        if v[0] == 'call' and any(via_call(an, g, v[1], L2, q, depth + 1) for q in qs):
            continue
        return False
    return bool(vals)


def auto_negative(C, o, p):
    o = flow.strip_casts(C, o)
    v = C.val(o)
    if v is None or v.op not in ('phi', 'select'):
        return False
    parts = [x for x, _ in v.inc] if v.op == 'phi' else v.ops[1:]
    if not any(value_is_param(C, x, p) for x in parts):
        return False
    # the other value must be chosen only under param < 0
    for i in C.instrs:
        if i.op == 'icmp' and any(value_is_param(C, x, p) for x in i.ops if isinstance(x, int)):
            k = [const_int(x) for x in i.ops if const_int(x) is not None]
            if (i.pred, k) in (('slt', [0]), ('sge', [0]), ('sgt', [-1]), ('sle', [-1])):
                return True
    return False
