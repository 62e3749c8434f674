"""C04: temporaries, files and helper objects are released on every way out of a function."""
import ir, effects, flow, api, report

NEWSUF = ('_new',)


def is_new(m, an, n):
    """library function that returns freshly allocated memory the caller owns"""
    s = an.summary(n)
    return s is not None and s.fresh and not s.ret and (('_new' in n) or n in ('fopen',))


class Leak:
    def __init__(self, an):
        self.an = an

    def resources(self, f):
        for i in f.instrs:
            if i.op != 'call':
                continue
            n = i.callee_name()
            if n in effects.ALLOC or n in effects.REALLOC or n == 'fopen':
                yield i, n
            elif n and effects.is_ptr(i.ty):
                g = f.mod.funcs.get(n)
                s = self.an.summary(n)
                if s is not None and s.fresh and n not in PERTHREAD and not self.born_owned(f, i, s):
                    yield i, n

    def born_owned(self, f, c, s):
        """the callee also stores the object it returns in memory reachable from its arguments"""
        m = f.mod
        g = m.funcs.get(c.callee_name())
        R = m.record_name(m.ret_type(g)) if g is not None else None
        if not R:
            return False
        for d, src in s.argstores:
            if src == 'fresh' and d[0][0] == 'arg' and d[1]:
                St, fn = d[1][-1].split('.', 1) if '.' in d[1][-1] else (None, None)
                if St and m.record_name(m.field_type(St, fn)) == R:
                    return True
        return False

    def aliases(self, f, c):
        """SSA values that may hold the resource; returns (set of ids, escapes: list of instrs storing it away)"""
        fi = self.an.info[f.name]
        me = ('call', c.id)
        vals = {c.id}
        work = [c.id]
        while work:
            x = work.pop()
            for u in f.uses.get(x, ()):
                if u.op in ('bitcast', 'getelementptr', 'phi', 'select', 'freeze', 'ptrtoint', 'inttoptr') and u.id not in vals:
                    if u.op == 'getelementptr' and u.ops[0] != x:
                        continue
                    vals.add(u.id)
                    work.append(u.id)
        return vals

    def consume(self, f, c, kind):
        fi = self.an.info[f.name]
        me = ('call', c.id)
        out = []
        for i in f.instrs:
            if i.op == 'call' and i is not c:
                n = i.callee_name()
                if n == 'fclose':
                    if (me, ()) in fi.pts(i.ops[0]):
                        out.append(i)
                    continue
                r, w, fr, st = self.an.call_effects(fi, i)
                if (me, ()) in fr:
                    out.append(i)
                    continue
                # handed over to another object
                if any(me == l[0] and l[1] == () for o in i.ops for l in fi.pts(o)):
                    g = f.mod.funcs.get(n) if n else None
                    if n is None or (g is not None and g.decl and n not in effects.EXT and self.an.summary(n) is None and
                                     not n.startswith(('llvm.', 'mx', 'mex')) and n not in PURE):
                        out.append(i)      # unknown external
                        continue
                    s = self.an.summary(n) if n else None
                    if s is not None:
                        for d, src in s.argstores:
                            if src == 'fresh':
                                continue
                            if any(x[0] == me and x[1] == () for x in self.an.instantiate(fi, i, src)):
                                for l in self.an.instantiate(fi, i, d):
                                    if l[0] != me and self.outlives(f, l):
                                        out.append(i)
            elif i.op == 'store' and effects.is_ptr(i.sty):
                if any(x[0] == me and x[1] == () for x in fi.pts(i.ops[0])):
                    for l in fi.access(i.ops[1]):
                        if l[0] != me and self.outlives(f, l):
                            out.append(i)
                            break
            elif i.op == 'ret' and i.ops:
                if any(x[0] == me for x in fi.pts(i.ops[0])):
                    out.append(i)
        return out

    def outlives(self, f, l):
        """stored into memory that is itself a tracked resource, the caller's, or global"""
        return l[0][0] in ('arg', 'glob', 'call')

    def cut(self, f, c):
        """edges not feasible after the resource was obtained: the resource (or the variable holding it) is NULL"""
        fi = self.an.info[f.name]
        vals = self.aliases(f, c)
        me = ('call', c.id)
        out = set()
        slots = set()
        for i in f.instrs:
            if i.op == 'store' and any(x == (me, ()) for x in fi.pts(i.ops[0])):
                slots |= fi.access(i.ops[1])
        for b in f.live:
            ce = flow.cond_edges(f, b)
            if not ce:
                continue
            cnd, t, e = ce
            v = f.val(cnd)
            if v is None or v.op != 'icmp' or v.pred not in ('eq', 'ne'):
                continue
            a, bb = v.ops
            if ir.is_null(a):
                a, bb = bb, a
            if not ir.is_null(bb):
                # compared with a pointer that cannot be this resource
                ia, ib = isinstance(a, int) and a in vals, isinstance(bb, int) and bb in vals
                if ia != ib:
                    out.add((b, t if v.pred == 'eq' else e))
                continue
            av = f.val(a)
            hit = isinstance(a, int) and a in vals
            if not hit and av is not None and av.op == 'load':
                acc = fi.access(av.ops[0])
                hit = bool(acc & slots)
            if hit:
                out.add((b, t if v.pred == 'eq' else e))
        # conditions known to hold where the resource was obtained
        for (p, s) in all_control_deps(f, c.block):
            key = cond_key(self.an, f, p)
            if key is None:
                continue
            for b in f.live:
                if b != p and cond_key(self.an, f, b) is not None and cond_key(self.an, f, b)[0] == key[0]:
                    k2 = cond_key(self.an, f, b)
                    taken_true = (s == f.blocks[p][-1].succ[0]) != key[1]
                    ts, es = f.blocks[b][-1].succ
                    if k2[1]:
                        ts, es = es, ts
                    out.add((b, es if taken_true else ts))
        return out


def all_control_deps(f, b):
    out, work = set(), [b]
    seen = set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        for (p, s) in f.control_deps(x):
            out.add((p, s))
            work.append(p)
    # a dominating branch with only one edge leading here also counts
    res = set()
    for (p, s) in out:
        if f.dominates(p, b):
            others = [x for x in f.succ[p] if x != s]
            if not any(b in f.reach(o, avoid={p}) for o in others):
                res.add((p, s))
    return res


def expr_key(an, f, o, depth=0):
    if isinstance(o, list):
        return tuple(str(x) for x in o)
    if isinstance(o, dict) or depth > 6:
        return None
    v = f.val(o)
    if v is None:
        return None
    if v.op == 'arg':
        return ('arg', v.id)
    if v.op == 'load':
        acc = an.info[f.name].access(v.ops[0])
        if len(acc) == 1:
            l = next(iter(acc))
            if l[0][0] in ('arg',) and not written(an, f, l):
                return ('load', l)
        return ('v', v.id)
    if v.op in ('icmp', 'and', 'or', 'xor', 'add', 'sub', 'trunc', 'zext', 'sext', 'shl', 'lshr', 'fcmp'):
        ks = [expr_key(an, f, x, depth + 1) for x in v.ops]
        if None in ks:
            return None
        return (v.op, v.pred) + tuple(ks)
    return ('v', v.id)


_w = {}


def written(an, f, l):
    k = f.name
    if k not in _w:
        fi = an.info[f.name]
        s = set()
        for i in f.instrs:
            if i.op == 'store':
                s |= fi.access(i.ops[1])
            elif i.op == 'call':
                s |= an.call_effects(fi, i)[1]
        _w[k] = s
    return any(w[0] == l[0] and (w[1] == l[1][:len(w[1])] or l[1] == w[1][:len(l[1])]) for w in _w[k])


INEG = {'ne': 'eq', 'uge': 'ult', 'ugt': 'ule', 'sge': 'slt', 'sgt': 'sle'}
FNEG = {'une': 'oeq', 'uge': 'olt', 'ugt': 'ole', 'ult': 'oge', 'ule': 'ogt', 'uno': 'ord'}


def cond_key(an, f, b):
    """(canonical condition, negated?) of a conditional branch"""
    ce = flow.cond_edges(f, b)
    if not ce:
        return None
    o, neg = ce[0], False
    v = f.val(o)
    while v is not None and v.op == 'xor' and any(ir.const_int(x) in (1, -1) for x in v.ops):
        o = v.ops[0]
        neg = not neg
        v = f.val(o)
    neg_of = {'icmp': INEG, 'fcmp': FNEG}.get(v.op, {}) if v is not None else {}
    if v is not None and v.pred in neg_of:
        ks = [expr_key(an, f, x) for x in v.ops]
        if None in ks:
            return None
        return (v.op, neg_of[v.pred]) + tuple(ks), not neg
    k = expr_key(an, f, o)
    return None if k is None else (k, neg)


PERTHREAD = {'vl_get_thread_specific_state', 'vl_get_state', 'vl_get_rand'}
PURE = set('''printf fprintf fread fwrite fgetc ungetc fscanf __isoc23_fscanf strlen strcmp strncmp snprintf fflush feof ferror
              fputs puts putchar abort exit memcmp'''.split())


def check_unit(rep, m, an, funcs, label):
    L = Leak(an)
    n = 0
    for f in funcs:
        for c, kind in L.resources(f):
            n += 1
            inst = '%s: %s' % (f.src, ('result of %s' % kind) + nth(f, c, kind))
            if c in f.uses and False:
                pass
            ev = L.consume(f, c, kind)
            evb = {}
            for e in ev:
                evb.setdefault(e.block, []).append(e.idx)
            if any(e.block == c.block and e.idx > c.idx for e in ev):
                rep.ok('released-or-handed-over', inst, c.loc())
                continue
            blocks = set(evb)
            blocks.discard(c.block) if not any(e.block == c.block for e in ev) else None
            for e in ev:
                for h, body in f.loops.items():
                    if e.block in body and c.block not in body:
                        blocks.add(h)
            cut = L.cut(f, c)
            goals = {r.block for r in f.rets}
            # start after the allocation
            wit = None
            if c.block in goals:
                wit = [c.block]
            else:
                for s in f.succ[c.block]:
                    if (c.block, s) in cut or s in blocks:
                        continue
                    w = flow.path_avoiding(f, blocks - {c.block}, cut, start=s, goals=goals | ({c.block} if False else set()))
                    if w:
                        wit = [c.block] + w
                        break
            # obtained again in a loop without release
            regrow = kind in effects.REALLOC and any(x[0] == ('call', c.id) for x in an.info[f.name].pts(c.ops[0]))
            if wit is None and not regrow:
                for s in f.succ[c.block]:
                    if (c.block, s) in cut or s in blocks:
                        continue
                    w = flow.path_avoiding(f, blocks - {c.block}, cut, start=s, goals={c.block})
                    if w:
                        wit = [c.block] + w
                        break
            if wit is None:
                rep.ok('released-or-handed-over', inst, c.loc())
            else:
                t = f.blocks[wit[-1]][-1]
                rep.bad('released-or-handed-over', inst, c.loc(), 'obtained here, but a path to %s:%d neither releases it nor hands it over (through lines %s)' %
                        (f.file, t.ln or 0, ','.join(str(f.blocks[b][-1].ln) for b in wit[:12])))
    return n


def nth(f, c, kind):
    same = [i for i in f.instrs if i.op == 'call' and i.callee_name() == kind]
    return '' if len(same) == 1 else ' (#%d)' % (same.index(c) + 1)


def run():
    rep = report.Report('C04', 'every allocation, opened file or helper object obtained by a library function is, on every path to a return, '
                        'released, returned, or stored in memory that outlives the call', 'resource typestate over all paths with interprocedural release/hand-over summaries')
    m, an = ir.lib(), effects.lib_analysis()
    funcs = [f for f in api.libfuncs(m) if not f.name.startswith('hdr$')]
    n = check_unit(rep, m, an, funcs, 'lib')
    rep.count('library resources', n)
    rep.floor('library resources', n, 60)
    k = 0
    for name, u in sorted(ir.load('src').items()):
        if name.startswith('test_'):
            continue
        ua = effects.Analysis(u, extra=(an,))
        k += check_unit(rep, u, ua, [f for f in u.defined() if f.file.startswith('src/')], name)
    rep.count('command line driver resources', k)
    rep.note('MEX units are excluded: their memory comes from mxMalloc, which the host reclaims when the MEX call ends')
    return rep
