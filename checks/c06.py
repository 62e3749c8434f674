"""C06: copies are complete and independent of the original."""
import ir, effects, flow, api, report
import c03, expr, loops

# members that a copy deliberately does not carry over: per-fit transient data documented as discarded
TRANSIENT = {
    '_VlGMM': {'posteriors', 'numData', 'kmeansInit', 'kmeansInitIsOwner'},
}
# shape members fixed by the constructor arguments: equality is checked through the constructor call
SHALLOW = {'vl_scalespace_new_shallow_copy': {'octaves'}}


def field_locs(m, S, root):
    return [(root, (S + '.' + n,)) for (n, o, sz, t) in m.struct_members(S)], {n: t for (n, o, sz, t) in m.struct_members(S)}


def copies(m, T):
    for n, f in sorted(T.items()):
        if '_new' in n and n.endswith('_copy') and f.args:
            S = m.record_name(m.ret_type(f))
            if S and m.record_name(m.arg_type(f, 0)) == S:
                yield n, f, S


def run():
    rep = report.Report('C06', 'in every copy constructor, each member of the new object receives the value of the same member of the source; owned '
                        'buffers are duplicated into fresh memory filled from the source buffer with the size it was allocated with, and never shared',
                        'exit-value dataflow of the new object\'s members against the source object')
    m, an = ir.libi(), effects.libi_analysis()
    T = api.table(m)
    own = c03.owned_paths(m, an, T)
    nc = 0
    for n, f, S in copies(m, T):
        nc += 1
        fi = an.info[f.name]
        roots = set()
        for r in f.rets:
            if r.ops:
                roots |= {x[0] for x in fi.pts(r.ops[0]) if x[0][0] == 'call' and x[1] == ()}
        if len(roots) != 1:
            rep.skip('copy-root', n, 'the new object is not a single allocation')
            continue
        root = next(iter(roots))
        ctor = f.vals[root[1]]
        owned = {p[0] for p in own.get(S, {}) if p and len([x for x in p if x != '*']) == 1}
        for (fn, off, sz, ty) in m.struct_members(S):
            mem = S + '.' + fn
            inst = '%s: %s' % (n, fn)
            L = (root, (mem,))
            if fn in TRANSIENT.get(S, ()):
                continue
            if fn in SHALLOW.get(n, ()):
                continue
            struct_m = m.record_name(ty) if not m.is_pointer(ty) else None
            if mem in owned:
                check_buffer(rep, m, an, f, n, root, mem, inst)
                continue
            check_scalar(rep, m, an, f, n, root, ctor, mem, inst, struct_m)
    rep.count('copy constructors', nc)
    rep.floor('copy constructors', nc, 3)
    return rep


def from_source(an, f, o, mem, depth=0):
    """value o is (a cast / clamp-free copy of) the source object's member"""
    v = f.val(o)
    if v is None:
        return False
    if v.op == 'load':
        acc = an.info[f.name].access(v.ops[0])
        return acc == {(('arg', 0), (mem,))}
    if v.op in flow.CASTS and depth < 4:
        return from_source(an, f, v.ops[0], mem, depth + 1)
    if v.op == 'call' and depth < 4:
        # accessor of the source object
        n = v.callee_name()
        g = f.mod.funcs.get(n) if n else None
        if g is not None and not g.decl and v.ops and an.info[f.name].pts(v.ops[0]) == {(('arg', 0), ())}:
            return all(r.ops and from_source(an, g, r.ops[0], mem, depth + 1) for r in g.rets)
    if v.op in ('phi',) and depth < 4:
        return bool(v.inc) and all(from_source(an, f, x, mem, depth + 1) for x, _ in v.inc)
    return False


def check_scalar(rep, m, an, f, n, root, ctor, mem, inst, struct_m):
    L = (root, (mem,))
    ev = flow.success_values(an, f, L, root)
    # whole-object or member-wise aggregate copies
    if struct_m:
        # nested structure: every store/copy below it must come from the same place in the source
        subs = [(fn) for (fn, o, s, t) in m.struct_members(struct_m)]
        bad = None
        for fn in subs:
            L2 = (root, (mem, struct_m + '.' + fn))
            for v in flow.success_values(an, f, L2, root):
                if v[0] == 'copy' and v[2] == (('arg', 0), L2[1]):
                    continue
                if v[0] == 'store' and sub_from_source(an, f, v[1], L2[1]):
                    continue
                if v[0] in ('call', 'init') and ctor_gets(an, f, ctor, L2[1]):
                    continue
                bad = (fn, v)
        if bad:
            rep.bad('member-copied', inst, f.loc(), 'member %s of the copy does not receive the source\'s value' % bad[0])
        else:
            rep.ok('member-copied', inst)
        return
    for v in ev:
        if v[0] == 'copy' and v[2] == (('arg', 0), (mem,)):
            continue
        if v[0] == 'store' and from_source(an, f, v[1].ops[0], mem):
            continue
        if v[0] in ('init', 'call') and ctor_gets(an, f, ctor, (mem,)):
            continue
        where = v[1].loc() if len(v) > 1 else f.loc()
        if v[0] == 'init':
            msg = 'the member is left at its initial value instead of the source\'s value'
        else:
            msg = 'the member does not receive the source\'s value of the same member'
        rep.bad('member-copied', inst, where, msg)
        return
    rep.ok('member-copied', inst)


def sub_from_source(an, f, st, path):
    v = f.val(st.ops[0])
    while v is not None and v.op in flow.CASTS:
        v = f.val(v.ops[0])
    return v is not None and v.op == 'load' and an.info[f.name].access(v.ops[0]) == {(('arg', 0), path)}


def ctor_gets(an, f, ctor, path):
    """the object was built by another constructor that stores one of its parameters there, and that
    parameter is the source's member"""
    n = ctor.callee_name()
    g = f.mod.funcs.get(n) if n else None
    if g is None or g.decl or n in effects.ALLOC:
        return False
    gi = an.info[g.name]
    roots = set()
    for r in g.rets:
        if r.ops:
            roots |= {x[0] for x in gi.pts(r.ops[0]) if x[0][0] == 'call' and x[1] == ()}
    if len(roots) != 1:
        return False
    r0 = next(iter(roots))
    L = (r0, path)
    ev = flow.success_values(an, g, L, r0)
    good = bool(ev)
    for v in ev:
        if v[0] == 'store':
            o = flow.strip_casts(g, v[1].ops[0])
            a = g.val(o)
            if a is not None and a.op == 'arg':
                src = ctor.ops[a.id]
                sv = f.val(flow.strip_casts(f, src))
                if sv is not None and sv.op == 'load' and an.info[f.name].access(sv.ops[0]) == {(('arg', 0), path)}:
                    continue
                if from_source(an, f, src, path[-1]):
                    continue
            if a is not None and a.op == 'load' and gi.access(a.ops[0]) and all(l[0][0] == 'arg' for l in gi.access(a.ops[0])):
                # parameter passed by reference (structure arguments)
                okk = True
                for l in gi.access(a.ops[0]):
                    mapped = {an.info[f.name].canon(x) for x in an.instantiate(an.info[f.name], ctor, l)}
                    for x in mapped:
                        if x != (('arg', 0), path) and not local_copy_of(an, f, x, path):
                            okk = False
                if okk:
                    continue
        if v[0] == 'copy':
            mapped = {an.info[f.name].canon(x) for x in an.instantiate(an.info[f.name], ctor, v[2])} if v[2][0][0] == 'arg' else set()
            if mapped and all(x == (('arg', 0), path) or local_copy_of(an, f, x, path) for x in mapped):
                continue
        if v[0] in ('init', 'call') and ctor.ops and an.info[f.name].pts(ctor.ops[0]) == {(('arg', 0), ())} and \
                r0[0] == 'call' and ctor_gets(an, g, g.vals[r0[1]], path):
            continue
        # computed by the constructor from members that are themselves copied: pure function of its parameters
        if v[0] == 'store' and g.val(flow.strip_casts(g, v[1].ops[0])) is not None and g.val(flow.strip_casts(g, v[1].ops[0])).op != 'arg' and derived(an, g, v[1].ops[0], ctor, f):
            continue
        good = False
    return good


def local_copy_of(an, f, x, path):
    return any(v[0] == 'copy' and v[2] == (('arg', 0), path) for v in flow.exit_values(an, f, x)) if x[0][0] == 'alloca' else False


def derived(an, g, o, ctor, f, depth=0):
    if depth > 8:
        return False
    v = g.val(o)
    if v is None:
        return True
    if v.op == 'arg':
        src = ctor.ops[v.id] if v.id < len(ctor.ops) else None
        s = f.val(flow.strip_casts(f, src))
        if s is None:
            return False
        if s.op == 'load':
            acc = an.info[f.name].access(s.ops[0])
            return bool(acc) and all(l[0] == ('arg', 0) for l in acc)
        if s.op == 'call':
            return True
        return False
    if v.op == 'load':
        acc = an.info[g.name].access(v.ops[0])
        return bool(acc)
    if v.op in flow.CASTS or v.op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'fadd', 'fmul', 'fsub', 'fdiv', 'icmp', 'fcmp', 'select', 'shl', 'phi'):
        ops = list(v.ops) + [x for x, _ in (v.inc or [])]
        return all(derived(an, g, x, ctor, f, depth + 1) for x in ops)
    return False


def buffers(an, f, root, mem):
    """fresh allocations stored in the copy's member (anywhere in the copy or the constructor it calls)"""
    fi = an.info[f.name]
    return {x for x in fi.stores.get((root, (mem,)), ()) }


def check_buffer(rep, m, an, f, n, root, mem, inst):
    fi = an.info[f.name]
    src_slot = (('arg', 0), (mem,))
    src_buf = (('arg', 0), (mem, '*'))
    # never shared
    shared = [x for x in fi.stores.get((root, (mem,)), ()) if x[0] == ('arg', 0)]
    if shared:
        rep.bad('buffer-independent', inst, f.loc(), 'the copy shares this buffer with the source object')
        return
    # filled from the source: a memcpy or element copies from the source's buffer
    dsts = {(root, (mem, '*')), (root, (mem, '*', '*'))} | {x for x in fi.stores.get((root, (mem,)), ()) if x[0][0] == 'call'}
    filled, sizes = False, []
    for i in f.instrs:
        if i.op == 'call':
            e = effects.EXT.get(i.callee_name())
            if e and 'copy' in e:
                d, s = e['copy']
                if fi.pts(i.ops[d]) & dsts and fi.pts(i.ops[s]) & {src_buf, (src_buf[0], src_buf[1] + ('*',))}:
                    filled = True
                    sizes.append(i)
            else:
                g = f.mod.funcs.get(i.callee_name() or '')
                if g is not None and not g.decl:
                    r, w, fr, st = an.call_effects(fi, i)
                    if any(x[0] == root and x[1][:2] == (mem, '*') or x in dsts for x in w) and any(x[0] == ('arg', 0) and x[1][:2] == (mem, '*') for x in r):
                        filled = True
        elif i.op == 'store':
            acc = fi.access(i.ops[1])
            if any(x in dsts or (x[0] == root and x[1][:2] == (mem, '*')) or (x[0], ()) in dsts for x in acc):
                v = f.val(flow.strip_casts(f, i.ops[0]))
                if v is not None and v.op == 'load' and any(l[0] == ('arg', 0) and l[1][:2] == (mem, '*') for l in fi.access(v.ops[0])):
                    filled = True
    if not filled:
        rep.bad('buffer-copied', inst, f.loc(), 'the contents of this buffer are not copied from the source object')
        return
    # arrays of buffers: element k is filled from element k, over the size it was allocated with
    N = expr.Norm(an, f)
    for c in sizes:
        da, sa = loaded_from(f, c.ops[0]), loaded_from(f, c.ops[1])
        if da is None or sa is None:
            continue
        if N.index(da) != N.index(sa):
            rep.bad('buffer-copied', inst, c.loc(), 'an element buffer is filled from a different element of the source')
            return
        want, wr = element_alloc(an, m, f, root, mem) or (None, None)
        gr = named_range(N, c)
        if gr is not None and wr is not None and gr != wr:
            rep.bad('buffer-copied', inst, c.loc(), 'only elements %s are copied, the object holds elements %s' % (gr, wr))
            return
        if want is not None:
            got = expr.by_name(N.op(c.ops[2]))
            if clean(got) and got != want:
                rep.bad('buffer-extent', inst, c.loc(), 'copies %s bytes, the buffer was allocated with %s' % (expr.show(got), expr.show(want)))
                return
    # extent: the memcpy length equals the allocation size
    for c in sizes:
        al = [f.vals[x[0][1]] for x in fi.pts(c.ops[0]) if x[0][0] == 'call' and x[1] == ()]
        al = [a for a in al if a.callee_name() in effects.ALLOC]
        if len(al) == 1 and al[0].callee_name() in ('vl_malloc', 'malloc'):
            if size_key(an, f, al[0].ops[0], root) != size_key(an, f, c.ops[2], root):
                rep.bad('buffer-extent', inst, c.loc(), 'the copied extent differs from the size the buffer was allocated with')
                return
        # source extent through the constructor: product of the same dimensions
        k = size_key(an, f, c.ops[2], root)
        exp = EXTENT.get(mem)
        if exp is not None and k is not None and k[0] == 'prod':
            names = sorted(x for x in k[1])
            if names != sorted(exp):
                rep.bad('buffer-extent', inst, c.loc(), 'the copied extent is %s, the buffer holds %s' % (' * '.join(names), ' * '.join(exp)))
                return
    rep.ok('buffer-copied', inst)


EXTENT = {
    '_VlGMM.means': ['dimension', 'numClusters', 'size'],
    '_VlGMM.covariances': ['dimension', 'numClusters', 'size'],
    '_VlGMM.priors': ['numClusters', 'size'],
    '_VlGMM.sigmaLowBound': ['8', 'dimension'],
    '_VlKMeans.centers': ['dimension', 'numCenters', 'size'],
    '_VlKMeans.centerDistances': ['numCenters', 'numCenters', 'size'],
}


def size_key(an, f, o, root):
    out = []

    def go(x):
        c = ir.const_int(x)
        if c is not None:
            if c != 1:
                out.append(str(c))
            return
        v = f.val(x)
        if v is None:
            out.append('?')
            return
        if v.op == 'mul':
            go(v.ops[0])
            go(v.ops[1])
        elif v.op == 'shl' and ir.const_int(v.ops[1]) is not None:
            out.append(str(1 << ir.const_int(v.ops[1])))
            go(v.ops[0])
        elif v.op in flow.CASTS:
            go(v.ops[0])
        elif v.op == 'load':
            acc = an.info[f.name].access(v.ops[0])
            if len(acc) == 1:
                l = next(iter(acc))
                out.append('.'.join(s.split('.')[-1] for s in l[1]))
            else:
                out.append('v%d' % v.id)
        elif v.op == 'call':
            n = v.callee_name() or ''
            g = f.mod.funcs.get(n)
            out.append('size' if n.endswith('vl_get_type_size') else 'v%d' % v.id)
        elif v.op in ('phi',) and is_type_size(f, v):
            out.append('size')
        else:
            out.append('v%d' % v.id)
    go(o)
    return ('prod', tuple(sorted(out)))


def is_type_size(f, v):
    """inlined type-size switch: a phi of small constants"""
    seen, st, ks = set(), [v], []
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        for o, _ in x.inc:
            c = ir.const_int(o)
            if c is not None:
                ks.append(c)
            else:
                w = f.val(o)
                if w is None or w.op != 'phi':
                    return False
                st.append(w)
    return set(ks) <= {0, 1, 2, 4, 8} and {4, 8} <= set(ks)


def clean(p):
    return all(isinstance(a, str) for m in p for a, k in m)


def loaded_from(f, o):
    v = f.val(flow.strip_casts(f, o))
    return v.ops[0] if v is not None and v.op == 'load' else None


def element_alloc(an, m, f, root, mem, depth=0):
    """size (named polynomial) of the buffers the constructor stores in the elements of member `mem`"""
    g = m.funcs.get(f.vals[root[1]].callee_name() or '')
    if g is None or g.decl or depth > 3:
        return None
    gi = an.info[g.name]
    N = expr.Norm(an, g)
    for i in g.instrs:
        if i.op == 'store' and effects.is_ptr(i.sty):
            acc = gi.access(i.ops[1])
            v = g.val(i.ops[0])
            if v is not None and v.op == 'call' and v.callee_name() in effects.ALLOC and \
                    any((l[1] and l[1][-1] == '*' and l[1][-2:-1] == (mem,)) or elem_of(gi, l, mem) for l in acc):
                sz = N.op(v.ops[0])
                if len(v.ops) == 2:
                    sz = expr.mul(sz, N.op(v.ops[1]))
                sz = expr.by_name(sz)
                return (sz if clean(sz) else None), named_range(N, i)
    for r in g.rets:
        if r.ops:
            for x in gi.pts(r.ops[0]):
                if x[0][0] == 'call' and x[1] == ():
                    return element_alloc(an, m, g, x[0], mem, depth + 1)
    return None


def elem_of(gi, l, mem):
    return l[1] == () and any(k[1] and k[1][-1] == mem and (l[0], ()) in vs for k, vs in gi.stores.items())


def named_range(N, i):
    hs = N.f.loops_of(i.block)
    if not hs:
        return None
    r = loops.range_of(N, hs[0])
    if r is None:
        return None
    a, b = expr.by_name(r[1]), expr.by_name(r[3])
    if not clean(a) or not clean(b) or r[2] != 1:
        return None
    return '[%s, %s)' % (expr.show(a), expr.show(b))
