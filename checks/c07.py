"""C07: inputs are not modified, borrowed pointers only where documented, queries leave the model unchanged."""
import re
import ir, effects, api, report

RULE = ('(a) no public function writes or frees memory reached directly through a pointer-to-const parameter; (b) a caller\'s pointer is '
        'stored in an object only by the documented functions; (c) query functions write only search scratch and result members')

# documented to keep the caller's pointer: (function, object member)
KEEPS = {
    'vl_array_init_envelope': {'data'}, 'vl_array_init_matrix_envelope': {'data'},
    'vl_array_new_envelope': {'data'}, 'vl_array_new_matrix_envelope': {'data'},
    'vl_gmm_init_with_kmeans': {'kmeansInit'}, 'vl_gmm_set_kmeans_init_object': {'kmeansInit'},
    'vl_kdforest_build': {'data'}, 'vl_kdforest_new': {'distanceFunction'},
    'vl_svm_set_conjugate_loss_function': {'conjugateLossFn'}, 'vl_svm_set_dca_update_function': {'dcaUpdateFn'},
    'vl_svm_set_diagnostic_function': {'diagnosticFn', 'diagnosticFnData'},
    'vl_svm_set_loss_derivative_function': {'lossDerivativeFn'}, 'vl_svm_set_loss_function': {'lossFn'},
    'vl_svm_set_data_functions': {'innerProductFn', 'accumulateFn'}, 'vl_svm_set_weights': {'weights'},
    'vl_svmdataset_set_homogeneous_kernel_map': {'hom'},
    'vl_svmdataset_new': {'data'},
    'vl_svm_new': {'data', 'labels'}, 'vl_svm_new_with_dataset': {'data', 'labels'},
    'vl_svm_new_with_data': {'data', 'labels'}, 'vl_svm_new_with_abstract_data': {'data', 'labels'},
    'vl_kdforest_new_searcher': {'forest', 'headSearcher', 'next', 'previous'},
    'vl_kdforest_query': {'headSearcher', 'forest', 'next', 'previous', 'searcher', 'searchers'},
    'vl_aib_new': {'Pcx'}, 'vl_quickshift_new': {'image'},
    'getopt_long': None, 'vl_set_alloc_func': None, 'vl_set_printf_func': None,
}
# inputs documented as such although the signature lacks const
INPUTS = {('vl_lbp_process', 'image'), ('vl_svmdataset_new', 'data'), ('vl_svm_new_with_abstract_data', 'data'),
          ('vl_array_init_envelope', 'data'), ('vl_array_init_matrix_envelope', 'data'), ('vl_array_new_envelope', 'data'),
          ('vl_array_new_matrix_envelope', 'data'), ('vl_covdet_extract_affine_shape_for_frame', 'frame'),
          ('vl_covdet_extract_laplacian_scales_for_frame', 'frame'), ('vl_covdet_extract_orientations_for_frame', 'frame'),
          ('vl_covdet_extract_patch_for_frame', 'frame'), ('vl_swap_host_big_endianness_2', 'src'),
          ('vl_swap_host_big_endianness_4', 'src'), ('vl_swap_host_big_endianness_8', 'src')}
SEARCH = {'searchHeapArray', 'searchIdBook', 'searchHeapNumNodes', 'searchId', 'searchNumComparisons', 'searchNumRecursions',
          'searchNumSimplifications', 'nodeIndex', 'distanceLowerBound', 'tree', 'forest', 'next', 'previous', 'headSearcher', 'numSearchers'}
PATCH = {'patch', 'patchBufferSize', 'aaPatch', 'aaPatchX', 'aaPatchY', 'lapPatch', 'scales', 'orientations', 'angle', 'score', 'scale'}
QUERY = {
    'vl_hikm_push': set(), 'vl_ikm_push': set(), 'vl_kmeans_quantize': set(), 'vl_kmeans_quantize_ann': set(),
    'vl_lbp_process': set(), 'vl_scalespace_get_level': set(), 'vl_scalespace_new_copy': set(),
    'vl_scalespace_new_shallow_copy': set(), 'vl_kmeans_new_copy': set(), 'vl_gmm_new_copy': set(),
    'vl_kdforest_query': SEARCH, 'vl_kdforest_query_with_array': SEARCH, 'vl_kdforestsearcher_query': SEARCH,
    'vl_hog_extract': {'hogNorm'}, 'vl_hog_render': set(),
    'vl_liopdesc_process': {'neighIntensities', 'neighPermutation', 'patchIntensities', 'patchPermutation', 'neighSamplesX'},
    'vl_sift_calc_keypoint_orientations': {'grad', 'grad_o'}, 'vl_sift_calc_keypoint_descriptor': {'grad', 'grad_o'},
    'vl_sift_calc_raw_descriptor': set(), 'vl_sift_keypoint_init': set(), 'vl_sift_detect': {
        'dog', 'keys', 'keys_res', 'nkeys', 'is', 'ix', 'iy', 'o', 's', 'x', 'y', 'sigma'},
    'vl_covdet_extract_patch_for_frame': PATCH, 'vl_covdet_extract_affine_shape_for_frame': PATCH,
    'vl_covdet_extract_laplacian_scales_for_frame': PATCH, 'vl_covdet_extract_orientations_for_frame': PATCH,
    'vl_quickshift_process': {'density', 'dists', 'parents'},
    'vl_homogeneouskernelmap_evaluate_f': set(), 'vl_homogeneouskernelmap_evaluate_d': set(),
}


def const_chain(m, t):
    """for each level of indirection: is the pointee const (type id t is a pointer type)"""
    out = []
    while t is not None and t >= 0 and m.pointee(t) is not None and len(out) < 4:
        out.append(m.pointee_const(t))
        t = m.pointee(t)
    return out


def members(path):
    return [s.rsplit('.', 1)[-1] for s in path if s != '*']


def run():
    m, an = ir.libi(), effects.libi_analysis()
    rep = report.Report('C07', RULE, 'interprocedural mod/ref and pointer-retention analysis against const-qualified public signatures')
    T = api.table(m)
    nconst = nq = nget = 0
    for n, f in sorted(T.items()):
        if f.decl:
            continue
        s = an.sum[f.name]
        rep.count('public functions')
        for a in f.args:
            if not a.ty.startswith('ptr') or a.sret:
                continue
            t = m.arg_type(f, a.id)
            ch = const_chain(m, t)
            if (n, a.name) in INPUTS or (n, a.id) in INPUTS:
                ch = [True]
            if not any(ch):
                continue
            if n == 'getopt_long':
                continue
            nconst += 1
            # a write is against the signature when the object it lands in is the const-qualified level, i.e. the
            # number of pointers followed equals a const level (members reached through further pointers belong to other objects)
            bad = []
            for tab, what in ((s.writes, 'written'), (s.frees, 'freed')):
                for l, i in tab.items():
                    if l[0] != ('arg', a.id):
                        continue
                    d = sum(1 for x in l[1] if x == '*')
                    through = any(x != '*' for x in l[1])
                    if (through and ch[0]) or (not through and d < len(ch) and ch[d]):
                        bad.append((l, what, i))
            if bad:
                l, what, i = bad[0]
                rep.bad('const parameter untouched', '%s(%s)' % (n, a.name), i.loc(), 'memory reached through const parameter `%s` is %s (%s)'
                        % (a.name, what, effects.fmt(l)))
            else:
                rep.ok('const parameter untouched', '%s(%s)' % (n, a.name))
        # retention
        kept = {}
        for d, src in s.argstores:
            if src == 'fresh' or src[0][0] != 'arg' or d[0] == src[0]:
                continue
            if src[1] and members(src[1])[-1:] == members(d[1])[-1:]:
                continue                       # the same member passed along
            if d[0][0] == 'arg' and not d[1]:
                continue                       # out-parameter
            kept.setdefault((members(d[1]) or ['<global>'])[-1], (d, src))
        for d, src, i in fresh_keeps(m, an, f):
            kept.setdefault((members(d[1]) or ['<object>'])[-1], (d, src))
        allow = KEEPS.get(n, set())
        for k, (d, src) in sorted(kept.items()):
            nm = f.args[src[0][1]].name
            inst = '%s: %s kept in %s' % (n, nm, k)
            if allow is None or k in allow:
                rep.ok('borrowed pointer', inst)
            elif k in SEARCH and 'kdforest' in n:
                rep.ok('borrowed pointer', inst)
            else:
                rep.bad('borrowed pointer', inst, f.loc(), 'the caller\'s pointer `%s` is kept in `%s` after the call returns (%s)' % (nm, k, effects.fmt(d)))
        # queries
        isget = (re.search(r'_(get|is|has)_', n) and m.record_name(m.arg_type(f, 0)) if f.args and f.args[0].ty.startswith('ptr') else False)
        if n in QUERY or isget:
            allow = QUERY.get(n, set())
            w = []
            for tab in (s.writes, s.frees):
                for l, i in tab.items():
                    if l[0] == ('arg', 0) and not (tab is s.frees and not l[1]):
                        mem = members(l[1])
                        if not (mem and mem[-1] in allow):
                            w.append((l, i))
            nq += n in QUERY
            nget += bool(isget)
            if w:
                l, i = sorted(w, key=lambda x: repr(x[0]))[0]
                rep.bad('query leaves model unchanged', n, i.loc(), 'writes %s' % effects.fmt(l))
            else:
                rep.ok('query leaves model unchanged', n)
    rep.floor('const pointer parameters', nconst, 250)
    rep.floor('query functions', nq, 14)
    rep.floor('getters', nget, 60)
    return rep


def fresh_keeps(m, an, f):
    """pointer arguments stored inside the object a constructor returns"""
    fi = an.info[f.name]
    roots = set()
    for r in f.rets:
        if r.ops:
            for l in fi.pts(r.ops[0]):
                if l[0][0] == 'call' and not l[1]:
                    roots.add(l[0])
    if not roots:
        return
    for d, vals in fi.stores.items():
        if d[0] in roots:
            for v in vals:
                if v[0][0] == 'arg' and v[1] == ():
                    yield d, v, None
