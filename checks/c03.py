"""C03: deleting an object releases everything it owns, once; buffers are released before being replaced."""
from collections import defaultdict
import ir, effects, flow, api, report

# ownership is conditional on a flag of the same object: release is required unless the flag says "not mine"
FLAGS = {'_VlGMM.kmeansInit': ('_VlGMM.kmeansInitIsOwner', True),   # owned when the flag is set
         '_VlArray.data': ('_VlArray.isEnvelope', False)}           # owned when the flag is clear


def pname(p):
    return ''.join('->' + s.split('.')[-1] if s != '*' else '' for s in p)


def owned_paths(m, an, T):
    """struct -> {path: set of functions storing freshly allocated memory there}"""
    own = defaultdict(lambda: defaultdict(set))
    for n, f in T.items():
        s = an.sum[f.name]
        for (r, p), src in s.argstores:
            if r[0] == 'arg' and p and src == 'fresh':
                S = m.record_name(m.arg_type(f, r[1]))
                if S:
                    own[S][p].add(n)
        fi = an.info[f.name]
        for ret in f.rets:
            if not ret.ops:
                continue
            for (r, p) in fi.pts(ret.ops[0]):
                if r[0] == 'call' and p == ():
                    S = m.record_name(m.ret_type(f))
                    for loc, vals in fi.stores.items():
                        if S and loc[0] == r and loc[1] and any(v[0][0] == 'call' for v in vals):
                            own[S][loc[1]].add(n)
    return own


def is_link(m, S, p):
    """the member points to another object of the structure that contains it (list / tree link)"""
    last = [s for s in p if s != '*'][-1]
    St, fn = last.split('.', 1)
    return m.record_name(m.field_type(St, fn)) == St


def list_head(m, p):
    """the member points to elements of a linked list (their struct has a pointer to its own kind)"""
    St, fn = p[-1].split('.', 1)
    R = m.record_name(m.field_type(St, fn))
    return R is not None and any(m.is_pointer(t) and m.record_name(t) == R for (n, o, sz, t) in m.struct_members(R))


class Rel:
    def __init__(self, an):
        self.an, self.memo = an, {}

    def events(self, f, loc):
        """instructions releasing what the pointer stored at loc points to"""
        an = self.an
        fi = an.info[f.name]
        out = []
        tgt = (loc[0], loc[1] + ('*',))
        for i in f.instrs:
            if i.op != 'call':
                continue
            r, w, fr, st = an.call_effects(fi, i)
            if tgt not in fr:
                continue
            n = i.callee_name()
            if n in effects.FREE or n in effects.REALLOC:
                out.append(i)
                continue
            g = f.mod.funcs.get(n) if n else None
            if g is None or g.decl:
                continue
            okk = False
            for k, o in enumerate(i.ops):
                if k < len(g.args) and g.args[k].ty.startswith('ptr'):
                    for (r2, p2) in fi.pts(o):
                        if r2 == loc[0] and p2 == tgt[1]:
                            okk |= self.must_free_arg(g, k)
                        elif r2 == loc[0] and loc[1][:len(p2)] == p2:
                            okk |= self.must(g, (('arg', k), loc[1][len(p2):])) is None
            if okk:
                out.append(i)
        return out

    def must_free_arg(self, g, k):
        """g releases the object its k-th argument points to on every path where it is not NULL"""
        key = (g.name, 'arg', k)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = True
        fi = self.an.info[g.name]
        ev = set()
        for i in g.instrs:
            if i.op == 'call':
                n = i.callee_name()
                if n in effects.FREE and (('arg', k), ()) in fi.pts(i.ops[0]):
                    ev.add(i.block)
                else:
                    h = g.mod.funcs.get(n) if n else None
                    if h is not None and not h.decl:
                        for kk, o in enumerate(i.ops):
                            if (('arg', k), ()) in fi.pts(o) and kk < len(h.args) and self.must_free_arg(h, kk) and \
                                    (('arg', kk), ()) in self.an.sum[h.name].frees:
                                ev.add(i.block)
        cut = flow.null_edges(self.an, g, lambda l: l == ('ARG', k))
        self.memo[key] = flow.path_avoiding(g, ev, cut) is None
        return self.memo[key]

    def must(self, f, loc):
        """None if every path of f to a return releases what loc owns (paths on which loc, or something that
        leads to it, is NULL or not owned excepted); else a witness path"""
        key = (f.name, loc)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        ev = set()
        lh = f.loops
        for i in self.events(f, loc):
            ev.add(i.block)
            for h, body in lh.items():
                if i.block in body:
                    ev.add(h)
        prefixes = {(loc[0], loc[1][:k]) for k in range(1, len(loc[1]) + 1)}
        cut = flow.null_edges(self.an, f, lambda l: l in prefixes or (l[0] == 'ARG' and ('arg', l[1]) == loc[0]))
        for s in loc[1]:
            if s in FLAGS:
                fl, owned = FLAGS[s]
                cut |= flow.flag_edges(self.an, f, lambda l: l[1] and l[1][-1] == fl, not owned)
        w = flow.path_avoiding(f, ev, cut)
        self.memo[key] = w
        return w


def run():
    rep = report.Report('C03', 'every member into which any library function stores freshly allocated memory is released on every path of the '
                        'object\'s delete function (unless NULL or flagged as borrowed), the object itself is released, nothing is released '
                        'twice or used after release, and a member holding memory is released before it is overwritten',
                        'ownership discovery from allocation flow; must-release path analysis; typestate of members')
    m, an = ir.libi(), effects.libi_analysis()
    T = api.table(m)
    own = owned_paths(m, an, T)
    dels = {}
    for n, f in T.items():
        if n.endswith('_delete') and f.args and f.args[0].ty.startswith('ptr'):
            S = m.record_name(m.arg_type(f, 0))
            if S:
                dels[S] = f
    rel = Rel(an)
    nown = 0
    for S, D in sorted(dels.items()):
        rep.count('delete functions')
        # the object itself
        if rel.must_free_arg(D, 0) and (('arg', 0), ()) in an.sum[D.name].frees:
            rep.ok('object-released', D.src)
        else:
            rep.bad('object-released', D.src, D.loc(), '%s does not release the object itself on every path' % D.src)
        for p in sorted(own.get(S, {})):
            # only what belongs to S: stop at members that are themselves objects with a delete function
            inst = '%s%s' % (S.strip('_'), pname(p))
            if any(s in ('_VlKDForest.rand',) for s in p):
                continue
            if is_link(m, S, p):
                continue
            nested = nested_object(m, dels, S, p)
            if nested:
                continue
            nown += 1
            who = sorted(own[S][p])[0]
            if (('arg', 0), p + ('*',)) not in an.sum[D.name].frees:
                rep.bad('member-released', inst, D.loc(), 'memory stored in this member by %s is never released by %s' % (who, D.src))
                continue
            w = rel.must(D, (('arg', 0), p))
            if w is None:
                rep.ok('member-released', inst, 'allocated in %s' % who)
            else:
                rep.bad('member-released', inst, ret_loc(D, w), '%s can return without releasing this member (allocated in %s)' % (D.src, who))
    rep.count('owned members', nown)
    rep.floor('owned members', nown, 60)
    rep.floor('delete functions', len(dels), 20)
    # double release / use after release inside the delete functions and resetters
    nf = 0
    for f in api.libfuncs(m):
        if f.name.startswith('hdr$'):
            continue
        nf += 1
        double_and_uaf(rep, an, f)
    rep.count('functions checked for double release / use after release of members', nf)
    # replacement
    nrep = 0
    for S in sorted(own):
        for p in own[S]:
            if len([s for s in p if s != '*']) != 1 or p[-1] == '*' or is_link(m, S, p) or list_head(m, p):
                continue
            for f in api.libfuncs(m):
                nrep += replace(rep, m, an, rel, f, p[0])
    rep.count('member replacement sites', nrep)
    rep.floor('member replacement sites', nrep, 25)
    rep.note('ownership is at the granularity of members: array elements of one member are one location; list links are released through their list head')
    return rep


def nested_object(m, dels, S, p):
    """p leads through a member that is an object with its own delete function"""
    steps = [s for s in p if s != '*']
    for s in steps[:-1]:
        St, fn = s.split('.', 1)
        if m.record_name(m.field_type(St, fn)) in dels:
            return True
    return False


def ret_loc(f, w):
    b = f.blocks[w[-1]][-1]
    return '%s:%d' % (f.file, b.ln or f.line)


def free_sites(an, f):
    """(instr, exact locations released)"""
    fi = an.info[f.name]
    for i in f.instrs:
        if i.op == 'call':
            n = i.callee_name()
            if n in effects.FREE:
                p = fi.pts(i.ops[0])
                if p:
                    yield i, p


def double_and_uaf(rep, an, f):
    fi = an.info[f.name]
    frees = list(free_sites(an, f))
    # release through the library's own delete functions counts too
    for i in f.instrs:
        if i.op == 'call':
            n = i.callee_name()
            g = f.mod.funcs.get(n) if n else None
            if g is not None and not g.decl and n not in effects.FREE and n not in effects.REALLOC and g.src.endswith('_delete'):
                p = fi.pts(i.ops[0]) if i.ops else ()
                if p:
                    frees.append((i, p))
    if not frees:
        return
    for i, locs in frees:
        if len(locs) != 1:
            continue
        L = next(iter(locs))
        if L[0][0] not in ('arg', 'call', 'alloca'):
            continue
        # stores that refresh the pointer the release went through
        if L[1] and L[1][-1] == '*':
            slot = (L[0], L[1][:-1])
            kills = [x for x in f.instrs if x.op == 'store' and slot in fi.access(x.ops[1])]
            kills += [x for x in f.instrs if x.op == 'call' and x is not i and any(slot == w or w == slot for w in an.call_effects(fi, x)[1])]
        else:
            slot, kills = None, []
            if L[1] == () and L[0][0] == 'call':
                kills = [f.vals[L[0][1]]]       # a new allocation by the same call site
        loopy = any(i.block in b for b in f.loops.values())
        for j, locs2 in frees:
            if len(locs2) != 1 or next(iter(locs2)) != L:
                continue
            if j is i:
                if loopy and slot is None and L[0][0] == 'arg':
                    pass
                continue
            if element_like(f, i) or element_like(f, j):
                continue
            same_alias = True
            if flow.reaches(f, i, j, kills) and not guarded_reload(an, f, i, j, slot, kills):
                rep.bad('released-once', '%s:%s' % (f.src, effects.fmt(L)), j.loc(), 'memory already released at %s is released again' % i.loc())
                return
        # use after release of the object the function was given / allocated
        if slot is None:
            for u in f.instrs:
                if u is i or not flow.reaches(f, i, u, kills):
                    continue
                acc = set()
                if u.op == 'load':
                    acc = fi.access(u.ops[0])
                elif u.op == 'store':
                    acc = fi.access(u.ops[1])
                elif u.op == 'call' and u.callee_name() not in effects.FREE:
                    r, w, fr, st = an.call_effects(fi, u)
                    acc = {x for x in (r | w) if x[0] == L[0]}
                if acc and all(x[0] == L[0] for x in acc) and any(x[0] == L[0] and '*' not in x[1] for x in acc):
                    if loopy and same_iter_realloc(f, i, u, L):
                        continue
                    rep.bad('no-use-after-release', '%s:%s' % (f.src, effects.fmt(L)), u.loc(), 'object released at %s is used' % i.loc())
                    return
    rep.ok('released-once', f.src, '%d release sites' % len(frees))


def element_like(f, i):
    """release of an indexed element (a different one each time)"""
    o = i.ops[0]
    v = f.val(o)
    seen = 0
    while v is not None and seen < 8:
        seen += 1
        if v.op == 'load':
            v = f.val(v.ops[0])
        elif v.op == 'getelementptr':
            if any(s[0] == 'i' and ir.const_int(s[1]) is None for s in v.path):
                return True
            v = f.val(v.ops[0])
        elif v.op == 'phi':
            return True
        else:
            return False
    return False


def guarded_reload(an, f, i, j, slot, kills):
    return False


def same_iter_realloc(f, i, u, L):
    return False


def replace(rep, m, an, rel, f, member):
    """each store to an owned member of an existing object must be preceded by the release of the old
    value, a test that it is NULL, or an earlier store"""
    fi = an.info[f.name]
    n = 0
    for s in f.instrs:
        if s.op != 'store' or not effects.is_ptr(s.sty):
            continue
        acc = fi.access(s.ops[1])
        if len(acc) != 1:
            continue
        L = next(iter(acc))
        if L[0][0] != 'arg' or not L[1] or L[1][-1] != member:
            continue
        if is_initialiser(f, member):
            continue
        n += 1
        inst = '%s: %s' % (f.src, member.strip('_'))
        ev = set()
        evi = list(rel.events(f, L))
        for x in f.instrs:
            if x.op == 'store' and x is not s and L in fi.access(x.ops[1]):
                evi.append(x)
            # realloc(old) or a local that keeps the old pointer
            if x.op == 'load' and L in fi.access(x.ops[0]) and handed_on(an, f, x, s):
                evi.append(x)
            if x.op == 'call' and x.callee_name() not in effects.EXT:
                r, w, fr, st = an.call_effects(fi, x)
                if L in w:
                    evi.append(x)
        prefixes = {L}
        cut = flow.null_edges(an, f, lambda l: l in prefixes)
        if member in FLAGS:
            fl, owned = FLAGS[member]
            cut |= flow.flag_edges(an, f, lambda l: l[1] and l[1][-1] == fl, not owned)
        ok = any(x.block == s.block and x.idx < s.idx for x in evi)
        if not ok:
            evb = {x.block for x in evi}
            for x in evi:
                for h, body in f.loops.items():
                    if x.block in body and s.block not in body:
                        evb.add(h)
            if s.block in evb and not any(x.block == s.block and x.idx < s.idx for x in evi):
                evb.discard(s.block)
            w = flow.path_avoiding(f, evb, cut, goals={s.block})
            ok = w is None
        if ok:
            rep.ok('released-before-replaced', inst, s.loc())
        else:
            rep.bad('released-before-replaced', inst, s.loc(), 'the member is overwritten while it may still hold memory that was not released')
    return n


def handed_on(an, f, load, st):
    """the loaded old pointer is passed to realloc, or stored elsewhere / released later"""
    seen, work = set(), [load.id]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        for u in f.uses.get(x, ()):
            if u.op == 'call' and (u.callee_name() in effects.REALLOC or u.callee_name() in effects.FREE):
                return True
            if u.op == 'store' and u.ops[0] == x and u is not st:
                return True
            if u.op in ('phi', 'select', 'bitcast'):
                work.append(u.id)
    return False


def is_initialiser(f, member):
    """functions that build a fresh object in caller-provided storage"""
    n = f.src
    return '_init' in n and (member.startswith('_VlArray') or member.startswith('_VlIKMFilt')) or '_new' in n
