"""C02: settings change only through their own setter, and every algorithm that takes a setting consults it."""
import ir, effects, api, report, flow

# setting (struct.member) -> (functions that define it, algorithms that must consult it).
# Confirmed by reading each module; internal strategy implementations are listed where one public
# entry point dispatches over several of them.
KM = ['_vl_kmeans_refine_centers_lloyd_f', '_vl_kmeans_refine_centers_lloyd_d', '_vl_kmeans_refine_centers_ann_f',
      '_vl_kmeans_refine_centers_ann_d', '_vl_kmeans_refine_centers_elkan_f', '_vl_kmeans_refine_centers_elkan_d']
KML = [f for f in KM if 'elkan' not in f]
KMA = [f for f in KM if 'ann' in f]
SVM = ['_vl_svm_sgd_train', '_vl_svm_sdca_train']
S = {
    'VlDsiftFilter_.boundMinX': (['vl_dsift_set_bounds'], ['vl_dsift_process', '_vl_dsift_update_buffers']),
    'VlDsiftFilter_.boundMinY': (['vl_dsift_set_bounds'], ['vl_dsift_process', '_vl_dsift_update_buffers']),
    'VlDsiftFilter_.boundMaxX': (['vl_dsift_set_bounds'], ['vl_dsift_process', '_vl_dsift_update_buffers']),
    'VlDsiftFilter_.boundMaxY': (['vl_dsift_set_bounds'], ['vl_dsift_process', '_vl_dsift_update_buffers']),
    'VlDsiftFilter_.stepX': (['vl_dsift_set_steps'], ['vl_dsift_process', '_vl_dsift_update_buffers']),
    'VlDsiftFilter_.stepY': (['vl_dsift_set_steps'], ['vl_dsift_process', '_vl_dsift_update_buffers']),
    'VlDsiftFilter_.geom': (['vl_dsift_set_geometry'], []),
    'VlDsiftFilter_.useFlatWindow': (['vl_dsift_set_flat_window'], ['vl_dsift_process']),
    'VlDsiftFilter_.windowSize': (['vl_dsift_set_window_size'], ['_vl_dsift_with_flat_window', '_vl_dsift_with_gaussian_window']),
    'VlHog_.useBilinearOrientationAssigment': (['vl_hog_set_use_bilinear_orientation_assignments'],
                                               ['vl_hog_put_image', 'vl_hog_put_polar_field']),
    'VlHog_.transposed': ([], ['vl_hog_extract']),
    'VlHog_.variant': ([], ['vl_hog_extract', 'vl_hog_render']),
    'VlHog_.numOrientations': ([], ['vl_hog_put_image', 'vl_hog_put_polar_field', 'vl_hog_extract', 'vl_hog_render']),
    'VlSvmDataset_.hom': (['vl_svmdataset_set_homogeneous_kernel_map'],
                          ['vl_svmdataset_get_inner_product_function', 'vl_svmdataset_get_accumulate_function', 'vl_svmdataset_get_dimension']),
    'VlSvm_.accumulateFn': (['vl_svm_set_data_functions'], SVM),
    'VlSvm_.innerProductFn': (['vl_svm_set_data_functions'], SVM),
    'VlSvm_.biasLearningRate': (['vl_svm_set_bias_learning_rate'], ['_vl_svm_sgd_train']),
    'VlSvm_.biasMultiplier': (['vl_svm_set_bias_multiplier'], SVM + ['vl_svm_get_bias', 'vl_svm_set_bias']),
    'VlSvm_.conjugateLossFn': (['vl_svm_set_conjugate_loss_function', 'vl_svm_set_loss'], ['_vl_svm_sdca_train']),
    'VlSvm_.dcaUpdateFn': (['vl_svm_set_dca_update_function', 'vl_svm_set_loss'], ['_vl_svm_sdca_train']),
    'VlSvm_.lossDerivativeFn': (['vl_svm_set_loss_derivative_function', 'vl_svm_set_loss'], ['_vl_svm_sgd_train']),
    'VlSvm_.lossFn': (['vl_svm_set_loss_function', 'vl_svm_set_loss'], SVM),
    'VlSvm_.diagnosticFn': (['vl_svm_set_diagnostic_function'], SVM),
    'VlSvm_.diagnosticFnData': (['vl_svm_set_diagnostic_function'], SVM),
    'VlSvm_.diagnosticFrequency': (['vl_svm_set_diagnostic_frequency'], SVM),
    'VlSvm_.epsilon': (['vl_svm_set_epsilon'], SVM),
    'VlSvm_.maxNumIterations': (['vl_svm_set_max_num_iterations'], SVM),
    'VlSvm_.weights': (['vl_svm_set_weights'], SVM),
    'VlSvm_.lambda': (['vl_svm_set_lambda'], SVM),
    'VlSvm_.solver': ([], ['vl_svm_train']),
    'VlSvm_.labels': ([], SVM),
    'VlSvm_.numData': ([], SVM),
    'VlSvm_.dimension': ([], SVM),
    '_VlAIB.verbosity': (['vl_aib_set_verbosity'], ['vl_aib_process']),
    '_VlCovDet.aaAccurateSmoothing': (['vl_covdet_set_aa_accurate_smoothing'], ['vl_covdet_extract_affine_shape_for_frame']),
    '_VlCovDet.allowPaddedWarping': (['vl_covdet_set_allow_padded_warping'], ['vl_covdet_extract_patch_for_frame', 'vl_covdet_detect']),
    '_VlCovDet.baseScale': (['vl_covdet_set_base_scale'], ['vl_covdet_put_image']),
    '_VlCovDet.edgeThreshold': (['vl_covdet_set_edge_threshold'], ['vl_covdet_detect']),
    '_VlCovDet.firstOctave': (['vl_covdet_set_first_octave'], ['vl_covdet_put_image']),
    '_VlCovDet.lapPeakThreshold': (['vl_covdet_set_laplacian_peak_threshold'], ['vl_covdet_extract_laplacian_scales_for_frame']),
    '_VlCovDet.maxNumOrientations': (['vl_covdet_set_max_num_orientations'], ['vl_covdet_extract_orientations_for_frame']),
    '_VlCovDet.method': ([], ['vl_covdet_detect']),
    '_VlCovDet.nonExtremaSuppression': (['vl_covdet_set_non_extrema_suppression_threshold'], ['vl_covdet_detect']),
    '_VlCovDet.numOctaves': (['vl_covdet_set_num_octaves'], ['vl_covdet_put_image']),
    '_VlCovDet.octaveResolution': (['vl_covdet_set_octave_resolution'], ['vl_covdet_put_image']),
    '_VlCovDet.peakThreshold': (['vl_covdet_set_peak_threshold'], ['vl_covdet_detect']),
    '_VlCovDet.transposed': (['vl_covdet_set_transposed'],
                             ['vl_covdet_extract_affine_shape_for_frame', 'vl_covdet_extract_orientations_for_frame']),
    '_VlGMM.initialization': (['vl_gmm_set_initialization'], ['vl_gmm_cluster']),
    '_VlGMM.maxNumIterations': (['vl_gmm_set_max_num_iterations'], ['vl_gmm_em']),
    '_VlGMM.numRepetitions': (['vl_gmm_set_num_repetitions'], ['vl_gmm_cluster']),
    '_VlGMM.verbosity': (['vl_gmm_set_verbosity'], ['vl_gmm_em', 'vl_gmm_cluster']),
    '_VlGMM.sigmaLowBound': ([], ['vl_gmm_em']),
    '_VlGMM.dataType': ([], ['vl_gmm_em', 'vl_gmm_cluster']),
    '_VlGMM.dimension': ([], ['vl_gmm_em', 'vl_gmm_cluster']),
    '_VlGMM.numClusters': ([], ['vl_gmm_em', 'vl_gmm_cluster']),
    '_VlHIKMTree.max_niters': (['vl_hikm_set_max_niters'], ['vl_hikm_train']),
    '_VlHIKMTree.verb': (['vl_hikm_set_verbosity'], ['vl_hikm_train']),
    '_VlHIKMTree.method': ([], ['vl_hikm_train']),
    '_VlIKMFilt.max_niters': (['vl_ikm_set_max_niters'], ['vl_ikm_train_lloyd', 'vl_ikm_train_elkan']),
    '_VlIKMFilt.verb': (['vl_ikm_set_verbosity'], ['vl_ikm_train_lloyd', 'vl_ikm_train_elkan']),
    '_VlIKMFilt.method': ([], ['vl_ikm_train', 'vl_ikm_push']),
    '_VlKDForest.searchMaxNumComparisons': (['vl_kdforest_set_max_num_comparisons'], ['vl_kdforestsearcher_query']),
    '_VlKDForest.thresholdingMethod': (['vl_kdforest_set_thresholding_method'], ['vl_kdforest_build']),
    '_VlKDForest.dataType': ([], ['vl_kdforest_build', 'vl_kdforestsearcher_query']),
    '_VlKDForest.numTrees': ([], ['vl_kdforest_build', 'vl_kdforestsearcher_query']),
    '_VlKDForest.dimension': ([], ['vl_kdforest_build', 'vl_kdforestsearcher_query']),
    '_VlKDForest.distance': ([], []),
    '_VlKDForest.distanceFunction': ([], ['vl_kdforestsearcher_query']),
    '_VlKMeans.algorithm': (['vl_kmeans_set_algorithm'], ['vl_kmeans_refine_centers', 'vl_kmeans_cluster']),
    '_VlKMeans.initialization': (['vl_kmeans_set_initialization'], ['vl_kmeans_cluster']),
    '_VlKMeans.maxNumComparisons': (['vl_kmeans_set_max_num_comparisons'], KMA + ['vl_kmeans_quantize_ann']),
    '_VlKMeans.maxNumIterations': (['vl_kmeans_set_max_num_iterations'], KM),
    '_VlKMeans.minEnergyVariation': (['vl_kmeans_set_min_energy_variation'], KML),
    '_VlKMeans.numRepetitions': (['vl_kmeans_set_num_repetitions'], ['vl_kmeans_cluster']),
    '_VlKMeans.numTrees': (['vl_kmeans_set_num_trees'], KMA + ['vl_kmeans_quantize_ann']),
    '_VlKMeans.verbosity': (['vl_kmeans_set_verbosity'], KM + ['vl_kmeans_cluster']),
    '_VlKMeans.distance': ([], ['vl_kmeans_quantize', 'vl_kmeans_quantize_ann', 'vl_kmeans_refine_centers'] + KM),
    '_VlKMeans.dataType': ([], ['vl_kmeans_quantize', 'vl_kmeans_quantize_ann', 'vl_kmeans_refine_centers', 'vl_kmeans_cluster']),
    '_VlLiopDesc.intensityThreshold': (['vl_liopdesc_set_intensity_threshold'], ['vl_liopdesc_process']),
    '_VlLiopDesc.numNeighbours': ([], ['vl_liopdesc_process']),
    '_VlLiopDesc.numSpatialBins': ([], ['vl_liopdesc_process']),
    '_VlMserFilt.delta': (['vl_mser_set_delta'], ['vl_mser_process']),
    '_VlMserFilt.max_area': (['vl_mser_set_max_area'], ['vl_mser_process']),
    '_VlMserFilt.max_variation': (['vl_mser_set_max_variation'], ['vl_mser_process']),
    '_VlMserFilt.min_area': (['vl_mser_set_min_area'], ['vl_mser_process']),
    '_VlMserFilt.min_diversity': (['vl_mser_set_min_diversity'], ['vl_mser_process']),
    '_VlQS.medoid': (['vl_quickshift_set_medoid'], ['vl_quickshift_process']),
    '_VlQS.sigma': (['vl_quickshift_set_kernel_size'], ['vl_quickshift_process']),
    '_VlQS.tau': (['vl_quickshift_set_max_dist'], ['vl_quickshift_process']),
    '_VlSiftFilt.edge_thresh': (['vl_sift_set_edge_thresh'], ['vl_sift_detect']),
    '_VlSiftFilt.peak_thresh': (['vl_sift_set_peak_thresh'], ['vl_sift_detect']),
    '_VlSiftFilt.magnif': (['vl_sift_set_magnif'], ['vl_sift_calc_raw_descriptor', 'vl_sift_calc_keypoint_descriptor']),
    '_VlSiftFilt.norm_thresh': (['vl_sift_set_norm_thresh'], ['vl_sift_calc_raw_descriptor', 'vl_sift_calc_keypoint_descriptor']),
    '_VlSiftFilt.windowSize': (['vl_sift_set_window_size'], ['vl_sift_calc_raw_descriptor', 'vl_sift_calc_keypoint_descriptor']),
    '_VlHomogeneousKernelMap.order': ([], ['vl_homogeneouskernelmap_evaluate_f', 'vl_homogeneouskernelmap_evaluate_d']),
}

PRINT_ONLY = {'fprintf', 'printf', 'mexPrintf'}


def setting_of(path):
    for s in reversed(path):
        if s != '*':
            return s
    return None


def useful_read(an, f, S_, depth=0, seen=None):
    """does f (or a callee it hands the object to) load member S_ and use the value for something
    other than printing?  -> instruction or None"""
    seen = seen if seen is not None else set()
    if f.name in seen:
        return None
    seen.add(f.name)
    fi = an.info[f.name]
    for i in f.instrs:
        if i.op == 'load':
            for r, p in fi.access(i.ops[0]):
                if p and setting_of(p) == S_ or p and S_ in p:
                    if flows_to_use(f, i):
                        return i
        elif i.op == 'call':
            e = effects.EXT.get(i.callee_name()) or {}
            if 'copy' in e:
                for r, p in fi.pts(i.ops[e['copy'][1]]):
                    if S_ in p:
                        return i
    for i in f.instrs:
        if i.op == 'call':
            for n in an.targets(f, i):
                g = f.mod.funcs.get(n)
                if g is not None and not g.decl:
                    if an.sum[n].reads and any(S_ in l[1] for l in an.sum[n].reads):
                        h = useful_read(an, g, S_, depth + 1, seen)
                        if h is not None:
                            return h
                        if g.name in seen and depth == 0 and False:
                            return i
    return None


def flows_to_use(f, ins):
    st, seen = [ins.id], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for u in f.uses.get(x, ()):
            if u.op == 'call':
                n = u.callee_name()
                if n is None and isinstance(u.callee, int):
                    v = f.vals.get(u.callee)
                    if x == u.callee:
                        return True
                    # printf hook: indirect call through a function returned by vl_get_printf_func
                    if v is not None and v.op == 'call' and v.callee_name() == 'vl_get_printf_func':
                        continue
                    return True
                if n in PRINT_ONLY:
                    continue
                return True
            if u.op in ('br', 'switch', 'store', 'ret', 'icmp', 'fcmp'):
                return True
            st.append(u.id)
    return False


def run():
    rep = report.Report('C02', 'a member that records a setting is written only by its own setter (or construction/copy), '
                        'and each algorithm the setting governs reads it and uses the value',
                        'interprocedural mod/ref summaries over access paths; def-use of setting loads')
    m, an = ir.libi(), effects.libi_analysis()
    T = api.table(m)
    n_iso = n_use = 0
    members = set()
    for sn in m.structs:
        for nm, *_ in m.struct_members(sn):
            members.add(sn + '.' + nm)
    # A. who may write
    for n, f in sorted(T.items()):
        for (root, path), ins in an.sum[f.name].writes.items():
            if root[0] != 'arg' or not path:
                continue
            s = setting_of(path)
            if s not in S or path[-1] == '*':
                continue
            n_iso += 1
            writers = S[s][0]
            if n in writers or is_ctor_like(n, s) or any(w in via(f, ins) for w in writers):
                rep.ok('written-only-by-setter', '%s <- %s' % (s, n))
            else:
                rep.bad('written-only-by-setter', '%s <- %s' % (s, n), ins.loc(),
                        '%s modifies the setting %s of an existing object; only %s may' % (n, s, ', '.join(writers) or 'construction'))
    # every public function was checked against the table, count the negatives too
    rep.count('public functions whose write set was checked', len(T))
    # B. consulted
    ml, al = ir.lib(), effects.lib_analysis()
    for s, (w, readers) in sorted(S.items()):
        if s not in members:
            rep.skip('setting', s, 'member not found (renamed?)')
            continue
        for r in readers:
            f = T.get(r)
            A = an
            if f is None:
                A = al
                f = al.m.F(r)
            if f is None:
                rep.skip('consults', '%s in %s' % (s, r), 'function not found')
                continue
            n_use += 1
            hit = useful_read(A, f, s)
            if hit is None and A is al:
                # an internal implementation may receive the value from the caller that reads it
                for c in ml.callers.get(f.name, []):
                    g = c.fn
                    if any(l for l in direct_reads(al, g) if s in l[1]):
                        hit = c
            if hit is not None:
                rep.ok('consults', '%s in %s' % (s, r), hit.loc())
            else:
                rep.bad('consults', '%s in %s' % (s, r), f.loc(), '%s no longer uses the setting %s' % (r, s))
    rep.count('setting writes classified', n_iso)
    rep.count('setting/algorithm obligations', n_use)
    rep.floor('setting/algorithm obligations', n_use, 100)
    rep.floor('setting writes', n_iso, 35)
    rep.note('uses are at the level of member reads whose value reaches a computation, branch, store or non-printing call')
    return rep


def direct_reads(an, f):
    fi = an.info[f.name]
    out = set()
    for i in f.instrs:
        if i.op == 'load':
            out |= fi.access(i.ops[0])
    return out


def via(f, ins):
    """setter called by f at ins"""
    return {ins.callee_name() and ins.fn.mod.funcs[ins.callee_name()].src} if ins.op == 'call' and ins.callee_name() in ins.fn.mod.funcs else set()


def is_ctor_like(n, s):
    base = ('_new', '_init', '_delete', '_dealloc')
    if s.startswith('_VlIKMFilt') or s.startswith('_VlHIKMTree') or s.startswith('_VlArray') or s.startswith('_VlScaleSpace'):
        return '_init' in n or '_new' in n or '_delete' in n
    if s in ('_VlGMM.kmeansInit',):
        return True
    return '_new' in n or n.endswith('_delete')
