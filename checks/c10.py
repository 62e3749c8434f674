"""C10: every heap block goes through the registered allocation functions, and goes back the way it came."""
import ir, effects, flow, api, report, expr

RULE = ('(a) vl_malloc/vl_realloc/vl_calloc/vl_free forward their arguments unchanged to the function registered in their own slot; (b) library code '
        'uses no other allocation function; (c) what is given to vl_free comes from the vl_ allocators (never from malloc, a stack or '
        'static object, the inside of a block or the caller) and what comes from malloc is given to free')

RAW_ALLOC = {'malloc', 'calloc', 'realloc', 'strdup', 'strndup', 'aligned_alloc', 'posix_memalign', 'memalign', 'valloc', 'reallocarray', '_mm_malloc', '__builtin_malloc'}
RAW_FREE = {'free', 'cfree', '_mm_free'}
VL = {'vl_malloc', 'vl_calloc', 'vl_realloc'}
# documented users of the C allocator: the per-thread library state (library design notes, "The global library state is an
# exception") and the per-thread scratch of the parallel quantizer
RAW_OK = {'_vl_create_thread_specific_state', '_vl_delete_thread_specific_state', '_vl_thread_specific_state_new', '_vl_thread_specific_state_delete',
          'vl_thread_specific_state_new', 'vl_thread_specific_state_delete', 'vl_kmeans_quantize', '_vl_kmeans_quantize_f', '_vl_kmeans_quantize_d',
          'vl_thread_destructor', 'vl_thread_constructor'}
ORDER = ['vl_malloc', 'vl_realloc', 'vl_calloc', 'vl_free']


def callers(m):
    c = {}
    for f in m.defined():
        for i in f.instrs:
            if i.op == 'call' and i.callee_name():
                c.setdefault(i.callee_name(), set()).add(f.name)
    return c


def allowed(m, cg, n, seen=()):
    f = m.funcs[n]
    if f.src in RAW_OK or n in RAW_OK:
        return True
    if n in seen or not f.internal or f.file == '':
        return False
    cs = cg.get(n, set())
    return bool(cs) and all(allowed(m, cg, x, seen + (n,)) for x in cs)


def run():
    m, an = ir.lib(), effects.lib_analysis()
    rep = report.Report('C10', RULE, 'call-graph query plus allocation-origin analysis of every release; forwarding check of the wrappers')
    T = api.table(m)
    cg = callers(m)
    wrappers = {}
    for n in ORDER:
        f = T.get(n)
        if f is None:
            rep.skip('wrapper', n, 'not found')
            continue
        check_wrapper(rep, an, f, wrappers)
    S = T.get('vl_set_alloc_func')
    if S is not None and len(S.args) == 4:
        fi = an.info[S.name]
        got = {}
        for i in S.instrs:
            if i.op == 'store' and effects.is_ptr(i.sty):
                v = S.val(flow.strip_casts(S, i.ops[0]))
                if v is not None and v.op == 'arg':
                    for l in fi.access(i.ops[1]):
                        got[l] = v.id
        for k, n in enumerate(ORDER):
            l = wrappers.get(n)
            if l is None:
                continue
            if got.get(l) == k:
                rep.ok('registration', n, 'slot written by parameter %d of vl_set_alloc_func' % k)
            elif any(i.op == 'store' and l in fi.access(i.ops[1]) for i in S.instrs) or not any(i.op == 'call' for i in S.instrs) or got:
                rep.bad('registration', n, S.loc(), '%s calls the function stored in %s, but vl_set_alloc_func does not store its parameter `%s` there'
                        % (n, effects.fmt(l), S.args[k].name))
            else:
                rep.skip('registration', n, 'vl_set_alloc_func not recognised')
    nfree = ncall = 0
    for f in m.defined():
        if not f.file.startswith('vl/') or f.src in ORDER:
            continue
        fi = an.info[f.name]
        for i in f.instrs:
            if i.op != 'call':
                continue
            n = i.callee_name()
            if n in RAW_ALLOC or n in RAW_FREE:
                ncall += 1
                if allowed(m, cg, f.name):
                    rep.ok('registered allocators only', '%s: %s' % (f.src, n), 'documented exception')
                else:
                    rep.bad('registered allocators only', '%s: %s' % (f.src, n), i.loc(), 'calls %s directly; memory must go through the functions registered with vl_set_alloc_func' % n)
            elif n in VL:
                ncall += 1
                rep.ok('registered allocators only', '%s: %s at %s' % (f.src, n, i.loc()))
            if n in ('vl_free', 'vl_realloc') or n in RAW_FREE:
                nfree += 1
                check_release(rep, m, an, f, fi, i, n)
    rep.floor('releases', nfree, 100)
    rep.floor('allocator calls', ncall, 120)
    rep.floor('wrappers', len(wrappers), 2)
    return rep


def check_wrapper(rep, an, f, wrappers):
    fi = an.info[f.name]
    ind = [i for i in f.instrs if i.op == 'call' and i.callee_name() is None]
    direct = [i for i in f.instrs if i.op == 'call' and i.callee_name() in (RAW_ALLOC | RAW_FREE)]
    if direct:
        rep.bad('wrapper forwards', f.src, direct[0].loc(), 'uses %s instead of the registered function' % direct[0].callee_name())
        return
    if len(ind) != 1:
        rep.skip('wrapper forwards', f.src, '%d indirect calls' % len(ind))
        return
    c = ind[0]
    ld = f.val(c.callee)
    if ld is None or ld.op != 'load':
        rep.skip('wrapper forwards', f.src, 'callee not loaded from the state')
        return
    acc = fi.access(ld.ops[0])
    if len(acc) == 1:
        wrappers[f.src] = next(iter(acc))
    args = [f.val(o) for o in c.ops]
    if len(args) == len(f.args) and all(a is not None and a.op == 'arg' and a.id == k for k, a in enumerate(args)) and \
            flow.path_avoiding(f, {c.block}, set()) is None:
        r = all(not x.ops or f.val(x.ops[0]) is c for x in f.rets)
        if r:
            rep.ok('wrapper forwards', f.src)
            return
    rep.bad('wrapper forwards', f.src, c.loc(), 'does not hand its arguments and result through unchanged')


def origins(m, an, f, fi, o, seen=None):
    """where a pointer value comes from: set of (kind, detail)"""
    out = set()
    for (r, p) in fi.pts(o):
        if r[0] == 'call' and p == ():
            c = f.vals[r[1]]
            n = c.callee_name()
            if n in VL:
                out.add(('vl', n))
            elif n in RAW_ALLOC:
                out.add(('raw', n))
            elif n is not None and not (m.funcs.get(n) and not m.funcs[n].decl):
                out.add(('ext', n))
            else:
                out.add(('fn', n))
        elif r[0] == 'call':
            out.add(('mem', effects.fmt((r, p))))
        elif r[0] == 'alloca' and '*' not in p:
            out.add(('stack', effects.fmt((r, p))))
        elif r[0] == 'glob' and '*' not in p and not r[1].startswith('<'):
            out.add(('static', effects.fmt((r, p))))
        elif p and p[-1] != '*' and '*' in p:
            out.add(('inside', effects.fmt((r, p))))
        elif p == () and r[0] == 'arg':
            out.add(('param', r[1]))
        else:
            out.add(('mem', effects.fmt((r, p))))
    return out


def interior(an, f, o):
    """the released pointer is visibly offset from the start of its block"""
    N = expr.Norm(an, f)
    idx = N.index(o)
    for _ in range(20):
        v = f.val(o)
        if v is None:
            return False
        if v.op == 'getelementptr':
            if any(s[0] == 'f' and s[2] != 0 for s in v.path):
                return True
            o = v.ops[0]
        elif v.op in ('bitcast', 'freeze'):
            o = v.ops[0]
        else:
            break
    return bool(idx)


def check_release(rep, m, an, f, fi, i, n):
    o = i.ops[0]
    inst = '%s: %s at line %s' % (f.src, n, i.ln)
    key = 'release:%s:%s' % (f.src, n)
    org = origins(m, an, f, fi, o)
    bad = [x for x in org if x[0] in ('stack', 'static', 'inside')]
    want = 'raw' if n in RAW_FREE else 'vl'
    other = [x for x in org if x[0] in ('raw', 'vl') and x[0] != want]
    if bad:
        rep.bad('release matches allocation', inst, i.loc(), '%s is given memory that no allocator returned (%s %s)' % (n, bad[0][0], bad[0][1]), key=key)
    elif other:
        rep.bad('release matches allocation', inst, i.loc(), '%s is given memory obtained from %s' % (n, other[0][1]), key=key)
    elif interior(an, f, o):
        rep.bad('release matches allocation', inst, i.loc(), '%s is given a pointer into the middle of a block' % n, key=key)
    else:
        rep.ok('release matches allocation', inst, ', '.join(sorted({x[0] for x in org})))
