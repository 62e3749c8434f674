"""C13: results are a function of the inputs and of the seeded generator."""
import ir, effects, flow, api, report, c11

RULE = ('library code calls no source of nondeterminism; clock readings reach only messages and the reported elapsed time; addresses are never '
        'turned into data; the shared random generator is advanced only by the documented randomised functions; library code keeps no '
        'mutable static state besides the library state, constant tables and option parsing; the generator functions touch only their '
        'own generator')

NONDET = {'rand', 'random', 'srand', 'srandom', 'rand_r', 'random_r', 'drand48', 'erand48', 'lrand48', 'nrand48', 'mrand48', 'srand48', 'arc4random', 'getrandom',
          'getentropy', 'time', 'gettimeofday', 'clock_gettime', 'times', 'getrusage', 'ftime', 'getpid', 'getppid', 'gettid', 'getuid', 'getenv', 'secure_getenv',
          'mktemp', 'tmpnam', 'tmpfile', 'mkstemp', 'uname', 'gethostname', 'rdtsc', 'llvm.readcyclecounter', 'llvm.x86.rdtsc', 'sched_getcpu', 'localtime', 'ctime'}
CLOCK = {'clock', 'vl_get_cpu_time', 'vl_toc'}
CLOCKFN = {'vl_get_cpu_time', 'vl_tic', 'vl_toc'}
TIME_MEMBERS = {'elapsedTime', 'ticMark'}
# documented as randomised
RANDOM = {'vl_gmm_cluster', 'vl_gmm_init_with_kmeans', 'vl_gmm_init_with_rand_data', 'vl_hikm_train', 'vl_ikm_init_rand', 'vl_ikm_init_rand_data',
          'vl_kdforest_build', 'vl_kmeans_cluster', 'vl_kmeans_init_centers_plus_plus', 'vl_kmeans_init_centers_with_rand_data',
          'vl_kmeans_refine_centers', 'vl_kmeans_quantize_ann', 'vl_svm_train', 'vl_rand_init', 'vl_rand_seed', 'vl_rand_seed_by_array'}
# mutable statics that exist by design
STATICS = {'_vl_state', 'expn_tab', 'optarg', 'optind', 'opterr', 'optopt', 'optreset', 'place', 'getopt_long.place'}


def run():
    m, an = ir.lib(), effects.lib_analysis()
    rep = report.Report('C13', RULE, 'source/sink taint analysis, call-graph query and interprocedural mod/ref summaries')
    T = api.table(m)
    ncall = nclock = nptr = nrand = 0
    for f in m.defined():
        if not f.file.startswith('vl/'):
            continue
        rep.count('functions')
        fi = an.info[f.name]
        for i in f.instrs:
            if i.op == 'call':
                n = i.callee_name()
                ncall += 1
                if n in NONDET:
                    rep.bad('no nondeterminism source', '%s: %s' % (f.src, n), i.loc(), 'the result depends on %s' % n)
                elif n == 'clock' and f.src not in CLOCKFN:
                    rep.bad('no nondeterminism source', '%s: clock' % f.src, i.loc(), 'reads the clock outside the time functions')
                if n in CLOCK:
                    nclock += 1
                    bad = clock_flow(f, fi, i)
                    inst = '%s: %s at line %s' % (f.src, n, i.ln)
                    if bad is None:
                        rep.ok('clock reaches only messages and timings', inst)
                    else:
                        rep.bad('clock reaches only messages and timings', inst, bad.loc(), 'a clock reading influences %s' % bad.op, key='clock:%s' % f.src)
            elif i.op == 'load' and i.ty == 'double' and f.src not in CLOCKFN and \
                    any(l[1] and l[1][-1].rsplit('.', 1)[-1] in TIME_MEMBERS for l in fi.access(i.ops[0])):
                bad = clock_flow(f, fi, None, 0, i.id)
                inst = '%s: elapsed time read at line %s' % (f.src, i.ln)
                if bad is None or bad.op == 'ret':
                    rep.ok('clock reaches only messages and timings', inst)
                else:
                    rep.bad('clock reaches only messages and timings', inst, bad.loc(), 'a clock reading influences %s' % bad.op, key='clock:%s' % f.src)
            elif i.op == 'ptrtoint':
                nptr += 1
                bad = ptr_flow(f, i)
                inst = '%s: address as integer, line %s' % (f.src, i.ln)
                if bad is None:
                    rep.ok('addresses are not data', inst)
                else:
                    rep.bad('addresses are not data', inst, bad.loc(), 'a memory address is used as a number (%s)' % bad.op, key='ptr:%s' % f.src)
        # writes to globals by this function itself
        for i in f.instrs:
            if i.op in ('store', 'atomicrmw', 'cmpxchg'):
                for l in fi.access(i.ops[1] if i.op == 'store' else i.ops[0]):
                    if l[0][0] == 'glob' and not l[0][1].startswith('<'):
                        check_static(rep, m, f, i, l)
            elif i.op == 'call':
                e = effects.EXT.get(i.callee_name())
                if e:
                    for k in e.get('w', ()):
                        if k < len(i.ops):
                            for l in fi.pts(i.ops[k]):
                                if l[0][0] == 'glob' and not l[0][1].startswith('<') and '*' not in l[1]:
                                    check_static(rep, m, f, i, l)
    WRITTEN.clear()
    for f in m.defined():
        WRITTEN.update(l[0][1] for l in an.sum[f.name].writes if l[0][0] == 'glob')
    for n, f in sorted(T.items()):
        s = an.sum[f.name]
        w = [l for l in s.writes if l[0] == ('glob', '<vl_get_rand>') or (l[0][0] == 'glob' and any(x.endswith('Rand.mt') for x in l[1]))]
        own = n.startswith('vl_rand_')
        nrand += bool(w)
        if w and n not in RANDOM and not own:
            rep.bad('generator advanced only where documented', n, f.loc(), 'advances the random generator shared with the caller (%s)' % effects.fmt(w[0]))
        else:
            rep.ok('generator advanced only where documented', n)
        if own:
            w = [l for l in s.writes if l[0] != ('arg', 0) and not (l[0][0] == 'arg' and l[1] == ())]
            if w:
                rep.bad('generator state is self-contained', n, f.loc(), 'writes %s, which does not belong to the generator it was given' % effects.fmt(w[0]))
            else:
                rep.ok('generator state is self-contained', n)
            r = [l for l in s.reads if l[0][0] == 'glob' and not const_glob(m, l[0][1])]
            if r:
                rep.bad('generator state is self-contained', n + ' reads', f.loc(), 'depends on %s besides the generator it was given' % effects.fmt(r[0]))
    rep.floor('library calls', ncall, 800)
    rep.floor('clock readings', nclock, 6)
    rep.floor('random functions', nrand, 8)
    return rep


def const_glob(m, g):
    x = m.globals.get(g)
    return bool(x and x.get('const')) or g.startswith('.str') or g not in WRITTEN


WRITTEN = set()


def check_static(rep, m, f, i, l):
    g = l[0][1]
    base = g.split('.')[0] if not g.startswith('.') else g
    nm = g.rsplit('.', 1)[-1] if '.' in g and not g.rsplit('.', 1)[-1].isdigit() else base
    inst = '%s writes %s' % (f.src, g)
    if '*' in l[1]:
        return
    if base in STATICS or g in STATICS or nm in STATICS or f.src == 'getopt_long':
        rep.ok('no hidden static state', inst)
        return
    rep.bad('no hidden static state', inst, i.loc(), 'the static variable %s carries state from one call to the next' % g)


def clock_flow(f, fi, c, depth=0, start=None):
    """first instruction a clock reading reaches that is neither a message nor a timing"""
    if f.src in CLOCKFN:
        return None
    an = fi.an
    seen, st = set(), [c.id if start is None else start]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for u in f.uses.get(x, ()):
            if u.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'phi', 'select', 'fneg', 'sub', 'add') or u.op in flow.CASTS:
                st.append(u.id)
            elif u.op == 'store':
                acc = fi.access(u.ops[1])
                if not all(l[1] and l[1][-1].rsplit('.', 1)[-1] in TIME_MEMBERS or l[0][0] == 'alloca' and not l[1] for l in acc):
                    return u
            elif u.op == 'call':
                if c11.is_print(f, u) or u.callee_name() in ('snprintf', 'fprintf'):
                    continue
                g = f.mod.funcs.get(u.callee_name() or '')
                if g is None or g.decl or depth > 4:
                    return u
                for k, o in enumerate(u.ops):
                    if o == x and k < len(g.args):
                        bad = clock_flow(g, an.info[g.name], None, depth + 1, g.args[k].id)
                        if bad is not None:
                            return bad
            elif u.op == 'ret':
                if not f.internal or depth > 4:
                    return u
                for h in f.mod.defined():
                    for i in h.calls(f.name):
                        bad = clock_flow(h, an.info[h.name], i, depth + 1)
                        if bad is not None:
                            return bad
            else:
                return u
    return None


def ptr_flow(f, c):
    """first use of an address as a number: only differences of addresses, alignment tests and comparisons are fine"""
    seen, st = set(), [c.id]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for u in f.uses.get(x, ()):
            if u.op in ('icmp', 'inttoptr', 'br', 'switch'):
                continue
            if u.op == 'sub' and all((f.val(o) is not None and f.val(o).op == 'ptrtoint') for o in u.ops):
                continue
            if u.op in ('and', 'urem'):
                for w in f.uses.get(u.id, ()):
                    if w.op not in ('icmp', 'or', 'and', 'trunc', 'zext', 'sub', 'inttoptr', 'add'):
                        return w
                    if w.op in ('trunc', 'zext', 'or', 'and', 'sub', 'add'):
                        st.append(w.id)
                continue
            if u.op in ('add', 'or', 'phi', 'select', 'sub'):
                st.append(u.id)
            else:
                return u
    return None
