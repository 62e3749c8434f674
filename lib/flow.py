"""Small dataflow helpers on top of ir/effects."""
import effects, ir
from ir import const_int

CASTS = ('zext', 'sext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze')


def strip_casts(f, o):
    while isinstance(o, int):
        v = f.vals[o]
        if v.op in CASTS:
            o = v.ops[0]
        else:
            break
    return o


def exit_values(an, f, L, at=None):
    """possible values of scalar location L at each normal return (or before
    instruction `at`): set of ('init',) ('store', instr) ('copy', instr, srcloc) ('call', instr)"""
    fi = an.info[f.name]
    IN = {0: frozenset([('init',)])}

    def prefix_of(a, b):
        return a[0] == b[0] and b[1][:len(a[1])] == a[1]

    def transfer(i, st):
        if i.op == 'store':
            acc = fi.access(i.ops[1])
            if L in acc:
                return frozenset([('store', i)]) if len(acc) == 1 else st | {('store', i)}
        elif i.op == 'call':
            n = i.callee_name()
            e = effects.EXT.get(n)
            if e and 'copy' in e:
                d, s = e['copy']
                dst = [sub_object(fi, x, const_int(i.ops[2])) for x in fi.pts(i.ops[d])]
                hit = [x for x in dst if prefix_of(x, L)]
                if hit:
                    rest = L[1][len(hit[0][1]):]
                    srcs = fi.pts(i.ops[s])
                    new = frozenset(('copy', i, fi.canon((r, p + rest))) for r, p in srcs) or frozenset([('call', i)])
                    return new if len(dst) == 1 else st | new
                return st
            r, w, fr, ss = an.call_effects(fi, i)
            if any(x == L or prefix_of(x, L) for x in w):
                sub = callee_exit(an, f, i, L)
                if sub is not None and not any(v[0] == 'init' for v in sub[2]):
                    return frozenset([('call', i)])
                return frozenset([('call', i)]) | st
        return st
    work = [0]
    outs = {}
    res = set()
    while work:
        b = work.pop()
        st = IN[b]
        for i in f.blocks[b]:
            if at is not None and i is at:
                res |= st
            st = transfer(i, st)
        if at is None and f.blocks[b][-1].op == 'ret' and f.blocks[b][-1] in f.rets:
            res |= st
        for s in f.succ[b]:
            n = IN.get(s, frozenset()) | st
            if n != IN.get(s):
                IN[s] = n
                work.append(s)
    return res


def sub_object(fi, loc, size):
    """the (first) member a block copy of `size` bytes to loc really fills"""
    for _ in range(3):
        S = fi.loc_struct(loc)
        st = fi.m.structs.get(S) if S else None
        if not st or size is None or not st['fields']:
            return loc
        mem = fi.m.struct_members(S)
        if not mem or max(o + z for (n, o, z, t) in mem) <= size or mem[0][2] != size:
            return loc
        loc = (loc[0], loc[1] + (S + '.' + mem[0][0],))
    return loc


def success_values(an, f, L, root):
    """exit_values restricted to the returns (or return branches) that hand out the object `root`"""
    fi = an.info[f.name]
    out = set()

    def go(o, at, seen):
        v = f.val(o)
        if v is not None and v.op == 'phi' and v.id not in seen:
            for x, p in v.inc:
                if not ir.is_null(x):
                    go(x, f.blocks[p][-1], seen | {v.id})
            return
        if any(x[0] == root for x in fi.pts(o)):
            out.update(exit_values(an, f, L, at=at))
    for r in f.rets:
        if r.ops:
            go(r.ops[0], r, set())
    return out


def callee_exit(an, f, c, L):
    """(callee, mapped location, its exit values) when call c's callee sees L through exactly one argument"""
    n = c.callee_name()
    g = f.mod.funcs.get(n) if n else None
    if g is None or g.decl or g is f:
        return None
    fi = an.info[f.name]
    for k, o in enumerate(c.ops):
        if k < len(g.args) and g.args[k].ty.startswith('ptr'):
            pt = fi.pts(o)
            if len(pt) == 1:
                r, p = next(iter(pt))
                if r == L[0] and L[1][:len(p)] == p:
                    L2 = (('arg', k), L[1][len(p):])
                    return g, L2, exit_values(an, g, L2)
    return None


def must_before(f, targets, at):
    """does every path from entry to instruction `at` pass one of the target instructions?"""
    tb = {}
    for t in targets:
        tb.setdefault(t.block, []).append(t.idx)
    if any(x < at.idx for x in tb.get(at.block, [])):
        return True
    seen, st = set(), list(f.pred[at.block])
    if at.block == 0:
        return False
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if b in tb:
            continue
        if b == 0:
            return False
        st.extend(f.pred[b])
    return True


def reaches(f, a, b, avoid=()):
    """is there a CFG path from instruction a to instruction b (exclusive), not crossing instrs in avoid"""
    av = {}
    for t in avoid:
        av.setdefault(t.block, []).append(t.idx)
    if a.block == b.block and a.idx < b.idx:
        if not any(a.idx < x < b.idx for x in av.get(a.block, [])):
            return True
    if any(x > a.idx for x in av.get(a.block, [])):
        return False
    seen, st = set(), list(f.succ[a.block])
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == b.block:
            if not any(y < b.idx for y in av.get(x, [])):
                return True
        if x in av:
            continue
        st.extend(f.succ[x])
    return False


# ---------------------------------------------------------------------------
# null / flag guarded edges

def cond_edges(f, b):
    """for a block ending in a conditional branch: (cond instr/operand, true succ, false succ)"""
    t = f.blocks[b][-1]
    if t.op == 'br' and t.cond is not None and len(t.succ) == 2:
        return t.cond, t.succ[0], t.succ[1]
    return None


def null_edges(an, f, is_loc):
    """CFG edges (block, succ) taken only when a pointer loaded from a location satisfying is_loc
    (or an SSA pointer value satisfying it) is NULL"""
    fi = an.info[f.name]
    out = set()
    for b in f.live:
        ce = cond_edges(f, b)
        if not ce:
            continue
        c, t, e = ce
        v = f.val(c)
        neg = False
        while v is not None and v.op == 'xor':
            neg = not neg
            v = f.val(v.ops[0])
        if v is None:
            continue
        if v.op == 'icmp' and v.pred in ('eq', 'ne'):
            a, bb = v.ops
            if ir.is_null(a):
                a, bb = bb, a
            if ir.is_null(bb) and ptr_value_matches(fi, a, is_loc):
                eq = (v.pred == 'eq') != neg
                out.add((b, t if eq else e))
    return out


def ptr_value_matches(fi, o, is_loc, seen=None):
    """the pointer value o was loaded from a matching location (phis: every incoming value)"""
    seen = set() if seen is None else seen
    v = fi.f.val(o)
    if v is None:
        return False
    if v.op in ('bitcast', 'freeze'):
        return ptr_value_matches(fi, v.ops[0], is_loc, seen)
    if v.op == 'load':
        acc = fi.access(v.ops[0])
        return bool(acc) and all(is_loc(l) for l in acc)
    if v.op == 'arg':
        return is_loc(('ARG', v.id))
    if v.op == 'phi':
        if v.id in seen:
            return True
        seen.add(v.id)
        return bool(v.inc) and all(ir.is_null(x) or ptr_value_matches(fi, x, is_loc, seen) for x, _ in v.inc)
    return False


def flag_edges(an, f, is_loc, value):
    """edges taken only when the integer/boolean loaded from a location satisfying is_loc is
    (value=False) zero or (value=True) non-zero"""
    fi = an.info[f.name]
    out = set()
    for b in f.live:
        ce = cond_edges(f, b)
        if not ce:
            continue
        c, t, e = ce
        v = f.val(c)
        neg = False
        while v is not None and v.op == 'xor':
            neg = not neg
            v = f.val(v.ops[0])
        if v is None:
            continue
        if v.op == 'trunc':
            ld, truth = f.val(v.ops[0]), True
        elif v.op == 'icmp' and v.pred in ('eq', 'ne'):
            k = [const_int(x) for x in v.ops]
            others = [x for x in v.ops if isinstance(x, int)]
            if len(others) != 1:
                continue
            ld = f.val(strip_casts(f, others[0]))
            kk = [x for x in k if x is not None]
            if not kk:
                continue
            truth = (v.pred == 'ne') if kk[0] == 0 else (v.pred == 'eq')
        else:
            continue
        if ld is None or ld.op != 'load':
            continue
        acc = fi.access(ld.ops[0])
        if not acc or not all(is_loc(l) for l in acc):
            continue
        if neg:
            truth = not truth
        nz, z = (t, e) if truth else (e, t)
        out.add((b, nz if value else z))
    return out


def path_avoiding(f, event_blocks, cut_edges, start=0, goals=None):
    """a list of blocks from start to a goal (default: returns) that avoids event_blocks and cut_edges, or None"""
    goals = goals if goals is not None else {r.block for r in f.rets}
    prev = {start: None}
    st = [start]
    if start in event_blocks:
        return None
    while st:
        b = st.pop()
        if b in goals:
            p = []
            while b is not None:
                p.append(b)
                b = prev[b]
            return p[::-1]
        for s in f.succ[b]:
            if s in prev or (b, s) in cut_edges or s in event_blocks:
                continue
            prev[s] = b
            st.append(s)
    return None
