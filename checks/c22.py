"""C22: parallel regions are free of data races and obey the library's thread settings."""
import re
import ir, alg, effects, report
from ir import const_int
from alg import C, A, add, sub, mul, scale

RULE = ('every OpenMP parallel region of the library (as outlined by the compiler): each write is to memory private to the thread, inside a critical section, a reduction or an atomic '
        'update, or to the elements of a shared array owned by the current iteration of the work-sharing loop (address = base + iteration * row + index inside the row); shared data written '
        'in the region are read only under the same protection; allocation through the registered functions is inside a critical section; each region asks for vl_get_max_threads() threads '
        'and OpenMP\'s own settings are never changed')

KM = '__kmpc_'
ALLOCF = {'vl_malloc', 'vl_calloc', 'vl_realloc', 'vl_free'}
OMPSET = re.compile(r'^(omp_set_|kmp_set_)')


def regions(m):
    """[(outlined function, fork call, parent)]"""
    out = []
    for f in m.defined():
        if not f.file.startswith('vl/'):
            continue
        for i in f.instrs:
            if i.op == 'call' and (i.callee_name() or '').startswith('__kmpc_fork_call'):
                g = next((o[1] for o in i.ops if isinstance(o, list) and o[0] == 'g' and o[1] in m.funcs), None)
                if g:
                    out.append((m.F(g), i, f))
    return out


def locks_held(f):
    """{instr id: frozenset of critical locks certainly held before it}"""
    IN = {0: frozenset()}
    res = {}
    work = [0]
    n = 0
    while work:
        b = work.pop()
        n += 1
        if n > 5000:
            break
        st = IN[b]
        for i in f.blocks[b]:
            res[i] = st
            if i.op == 'call':
                c = i.callee_name() or ''
                if c in ('__kmpc_critical', '__kmpc_critical_with_hint', '__kmpc_end_critical'):
                    k = repr(i.ops[2])
                    st = st - {k} if 'end' in c else st | {k}
                elif c in ('omp_set_lock', 'omp_unset_lock'):
                    k = repr(i.ops[0])
                    st = st - {k} if 'unset' in c else st | {k}
        for s in f.succ[b]:
            new = st if s not in IN else IN[s] & st
            if s not in IN or new != IN[s]:
                IN[s] = new
                work.append(s)
    return res


def exclusive_blocks(f):
    """blocks executed by one thread (single, master), or combining a reduction under the runtime's protection"""
    ex = set()
    for i in f.instrs:
        c = i.callee_name() if i.op == 'call' else None
        if not c:
            continue
        if c in ('__kmpc_single', '__kmpc_master', '__kmpc_masked'):
            for b in range(len(f.blocks)):
                t = f.blocks[f.idom[b]][-1] if b else None
                if b and t is not None and t.op == 'br' and t.cond is not None and f.dominates(i.block, b):
                    v = f.val(t.cond)
                    if v is not None and v.op == 'icmp' and v.ops[0] == i.id and t.succ[0] == b:
                        ex |= {x for x in range(len(f.blocks)) if f.dominates(b, x)}
        elif c in ('__kmpc_reduce', '__kmpc_reduce_nowait'):
            # 1: this thread combines under the lock; 2: atomic combination
            for b in range(len(f.blocks)):
                t = f.blocks[b][-1]
                if t.op == 'switch' and t.cond == i.id:
                    for k, s in t.cases:
                        if int(k) in (1, 2):
                            ex |= {x for x in range(len(f.blocks)) if f.dominates(s, x)}
    return ex


def ws_loops(f):
    """{header block: (phi id, bound)} of the work-sharing loops"""
    out = {}
    for i in f.instrs:
        if i.op == 'call' and (i.callee_name() or '').startswith(('__kmpc_for_static_init', '__kmpc_dispatch_init')):
            lb = i.ops[4] if 'static' in i.callee_name() else None
            for h in f.loops:
                for p in f.blocks[h]:
                    if p.op != 'phi':
                        continue
                    for o, q in p.inc:
                        v = f.val(o)
                        while v is not None and v.op in ('sext', 'zext', 'trunc'):
                            v = f.val(v.ops[0])
                        if v is not None and v.op == 'load' and (v.ops[0] == lb or lb is None):
                            out[h] = p.id
    return out


class Region:
    def __init__(self, m, an, f, fork, parent):
        self.m, self.an, self.f, self.fork, self.parent = m, an, f, fork, parent
        self.fi = an.info[f.name]
        self.E = alg.Eval(f, calls={'__kmpc_global_thread_num': lambda E, v: [A('tid')]})
        self.held = locks_held(f)
        self.excl = exclusive_blocks(f)
        self.ws = ws_loops(f)
        self.sharedrec = set()
        k = len(fork.ops) - len(f.args) + 0
        for a in f.args[2:]:
            t = m.arg_type(f, a.id) if hasattr(m, 'arg_type') else None
            n = self.recname(t)
            if n:
                self.sharedrec.add(n)
        self.name = re.sub(r'\.omp_outlined.*', '', f.src or f.name)

    def recname(self, t):
        m = self.m
        for _ in range(4):
            if t is None:
                return None
            try:
                n = m.record_name(t)
            except Exception:
                n = None
            if n:
                return n
            t = m.pointee(t)
        return None

    def wsof(self, i):
        """work-sharing phi of the loop that encloses i"""
        for h in self.f.loops_of(i.block):
            if h in self.ws:
                return self.ws[h], h
        return None, None

    def private(self, o, d=0):
        """pointer to memory that only this thread knows"""
        v = self.f.val(o)
        if v is None or d > 30:
            return False
        if v.op == 'alloca':
            return True
        if v.op in ('getelementptr', 'bitcast'):
            return self.private(v.ops[0], d + 1)
        if v.op == 'call':
            n = v.callee_name()
            if n in ('vl_malloc', 'vl_calloc', 'malloc', 'calloc', 'realloc', 'vl_realloc'):
                return True
            s = self.an.summary(n) if n else None
            return bool(s and s.fresh and not s.ret)
        if v.op == 'phi':
            if v.id in self._busy:
                return True
            self._busy.add(v.id)
            r = all(self.private(x, d + 1) or (isinstance(x, list) and x[0] == 'null') for x, _ in v.inc)
            self._busy.discard(v.id)
            return r
        if v.op == 'select':
            return all(self.private(x, d + 1) for x in v.ops[1:])
        if v.op == 'load':
            # pointer kept in a local variable of the thread
            a = self.f.val(v.ops[0])
            if a is not None and a.op == 'alloca':
                st = [i for i in self.f.instrs if i.op == 'store' and i.ops[1] == a.id]
                return bool(st) and all(self.private(i.ops[0], d + 1) for i in st)
            return False
        return False

    _busy = set()

    def bound(self, at):
        """N with 0 <= value < N for a loop counter, else None"""
        f, E = self.f, self.E
        v = f.vals.get(at[1])
        if v is None or v.op != 'phi' or v.block not in f.loops:
            return None
        L = v.block
        for o, p in v.inc:
            x = E.one(o)
            if f.dominates(L, p):
                if not alg.same(sub(x, A(*at)), C(1)):
                    return None
            elif not alg.is_const(x) or alg.cval(x) < 0:
                return None
        t = f.blocks[L][-1]
        if t.op != 'br' or t.cond is None:
            return None
        s = t.succ[0] if t.succ[0] in f.loops[L] else t.succ[1]
        c = E.edge(L, s)
        for mo in [c]:
            if len(c) == 1:
                (mm, k), = c.items()
                if k == 1 and len(mm) == 1 and mm[0][0][0] == 'gt0':
                    d = alg.thaw(mm[0][0][1])
                    # canonical form of N - iv up to a positive factor
                    co = d.get(((at, 1),))
                    if co is not None and co < 0:
                        return add(scale(d, -1 / co), A(*at))
        # not (x > 0 or x == 0) forms: 1 - gt0(iv - N) - eq0(iv - N)
        n = None
        for a in alg.atoms(c):
            if a[0] in ('gt0', 'eq0'):
                d = alg.thaw(a[1])
                co = d.get(((at, 1),))
                if co:
                    N = add(scale(d, -1 / co), A(*at))
                    if alg.same(c, alg.gt0(sub(N, A(*at)))):
                        n = N
        return n

    def owned(self, i, base, off):
        """(ok|None, why): the address belongs to the current iteration alone"""
        iv, h = self.wsof(i)
        if iv is None:
            return False, 'every thread of the team writes it'
        at = ('v', iv)
        co, rest = {}, {}
        for mo, c in off.items():
            e = dict(mo)
            if at in e:
                if e[at] != 1:
                    return None, 'not linear'
                co = add(co, {tuple(x for x in mo if x[0] != at): c})
            elif any(at in self.nested(a) for a in e if a[0] != 'ld'):
                return None, 'the index depends on the iteration in an unknown way'
            else:
                rest = add(rest, {mo: c})
        if not co:
            return False, 'all iterations write the same element'
        # loop counters in the rest must stay inside a row
        row = [a for a in alg.atoms(rest) if a[0] == 'v' and self.f.vals[a[1]].op == 'phi' and self.f.vals[a[1]].block in self.f.loops]
        span = {}
        for a in row:
            N = self.bound(a)
            if N is None:
                return None, 'bounds of the inner index not recognised'
            c = rest.get(((a, 1),))
            if c is None:
                return None, 'inner index not linear'
            span = add(span, scale(sub(N, C(1)), c))
        esz = alg.size_of(i.ty or '') if i.op == 'load' else (alg.size_of(self.tyof(i.ops[0])) or 1)
        if row:
            need = add(span, C(esz or 1))
            d = sub(co, need)
            if alg.same(d, {}):
                return True, ''
            if alg.is_const(d) and alg.cval(d) >= 0:
                return True, ''
            return False, 'rows of %s bytes are written with a stride of %s bytes per iteration' % (alg.show(need), alg.show(co))
        return True, ''

    def tyof(self, o):
        v = self.f.val(o)
        if v is not None:
            return v.ty
        return o[1] if isinstance(o, list) and len(o) > 1 and isinstance(o[1], str) else 'i8'

    def nested(self, a):
        out = set()
        st = [a]
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                if len(x) >= 2 and x[0] == 'v':
                    out.add(x[:2])
                st.extend(x)
        return out

    def shown(self, base):
        """readable name of a base"""
        f = self.f
        if base[0] == 'arg':
            return f.args[base[1]].name or 'arg%d' % base[1]
        if base[0] == '*':
            return '*' + self.shown(base[1])
        return '.'.join(str(x) for x in base)


def check_region(rep, R):
    f, E = R.f, R.E
    writes = {}
    nw = 0
    for b in f.blocks:
        for i in b:
            if i.op == 'store':
                if R.private(i.ops[1]):
                    continue
                nw += 1
                try:
                    base, off = E.addr(i.ops[1])
                except alg.Unknown as e:
                    rep.skip('owned write', '%s line %s' % (R.name, i.ln), str(e))
                    continue
                inst = '%s writes %s (line %s)' % (R.name, R.shown(base), i.ln)
                held = R.held.get(i, frozenset())
                if held or i.block in R.excl:
                    rep.ok('owned write', inst, 'critical, single or reduction')
                    writes.setdefault(base, []).append((i, held, off, i.block in R.excl))
                    continue
                try:
                    ok, why = R.owned(i, base, off)
                except alg.Unknown as e:
                    ok, why = None, str(e)
                if ok is None:
                    rep.skip('owned write', inst, why)
                else:
                    rep.check('owned write', inst, ok, i.loc(), 'data race: %s' % why, key='race:%s:%s' % (R.name, R.shown(base)))
                writes.setdefault(base, []).append((i, frozenset(), off, False))
            elif i.op == 'call':
                n = i.callee_name() or ''
                if n.startswith(('llvm.', '__kmpc', 'omp_')) and not n.startswith(('llvm.mem',)):
                    continue
                calls(rep, R, i, n)
    rep.count('writes to shared memory', nw)
    reads(rep, R, writes)
    return nw


def calls(rep, R, i, n):
    f = R.f
    inst = '%s calls %s (line %s)' % (R.name, n or 'a function pointer', i.ln)
    rd, W, Fr, St = R.an.call_effects(R.fi, i)
    held = R.held.get(i, frozenset())
    if (n in ALLOCF or transitively_allocates(R.an, R.fi, i)):
        rep.check('allocation is serialised', inst, bool(held) or i.block in R.excl, i.loc(),
                  'the registered allocation functions (which need not be thread safe) are called outside a critical section', key='alloc:%s:%s' % (R.name, n))
    bad = None
    for loc in W | Fr:
        root, path = loc
        if root[0] in ('alloca', 'unk'):
            continue
        if root[0] == 'call':
            s = shared_field(R, path)
            if s is None:
                continue
            bad = loc
        elif root[0] == 'arg' and root[1] < 2:
            continue
        elif root[0] == 'glob' and root[1].startswith('<'):
            continue                       # thread specific
        else:
            bad = loc
        if bad and (held or i.block in R.excl):
            bad = None
            continue
        if bad:
            # does the operand select the part owned by the iteration?
            at = None
            iv, h = R.wsof(i)
            for o in i.ops:
                v = f.val(o)
                if v is None or not (v.ty or '').startswith('ptr'):
                    continue
                if loc in {(r, p) for r, p in R.fi.pts(o)} or any(l[0] == loc[0] for l in R.fi.pts(o)):
                    try:
                        base, off = R.E.addr(o)
                        if iv is not None and any(('v', iv) in R.nested(a) for a in alg.atoms(off)):
                            at = True
                    except alg.Unknown:
                        at = True
            if at:
                rep.skip('calls write private memory', inst, 'extent of the write in %s' % effects.fmt(loc))
                return
            break
    if W or Fr:
        rep.check('calls write private memory', inst, bad is None, i.loc(), 'data race: %s is modified by every thread' % (effects.fmt(bad) if bad else ''), key='race:%s:%s' % (R.name, n))


def shared_field(R, path):
    for k, s in enumerate(path[:-1]):
        if '.' in s and path[k + 1] == '*':
            st, fl = s.rsplit('.', 1)
            t = R.m.field_type(st, fl)
            n = R.recname(t)
            if n and n in R.sharedrec:
                return s
    return None


_alloc = {}


def transitively_allocates(an, fi, i, depth=0):
    for n in an.targets(fi.f, i):
        if callee_allocates(an, n, set()):
            return True
    return False


def callee_allocates(an, n, seen):
    if n in _alloc:
        return _alloc[n]
    if n in seen:
        return False
    seen.add(n)
    g = an.m.F(n)
    r = False
    if g is not None and n not in ('vl_set_last_error',):
        for c in g.instrs:
            if c.op != 'call':
                continue
            k = c.callee_name()
            if k in ALLOCF:
                r = True
            elif k and callee_allocates(an, k, seen):
                r = True
            if r:
                break
    _alloc[n] = r
    return r


def reads(rep, R, writes):
    f, E = R.f, R.E
    for b in f.blocks:
        for i in b:
            if i.op != 'load' or R.private(i.ops[0]):
                continue
            try:
                base, off = E.addr(i.ops[0])
            except alg.Unknown:
                continue
            if base not in writes:
                continue
            inst = '%s reads %s (line %s)' % (R.name, R.shown(base), i.ln)
            held = R.held.get(i, frozenset())
            for w, wl, woff, excl in writes[base]:
                if excl and i.block in R.excl:
                    continue
                if wl:
                    rep.check('protected read', inst, bool(held & wl) or i.block in R.excl, i.loc(),
                              'data race: %s is updated in a critical section (line %s) and read outside it' % (R.shown(base), w.ln), key='read:%s:%s' % (R.name, R.shown(base)))
                    break
                if excl:
                    if after_barrier(f, w, i):
                        continue
                    rep.check('protected read', inst, i.block in R.excl, i.loc(), 'data race: %s is also combined at line %s' % (R.shown(base), w.ln), key='read:%s:%s' % (R.name, R.shown(base)))
                    break
                iv, h = R.wsof(i)
                wiv, wh = R.wsof(w)
                if h != wh or iv is None:
                    continue
                try:
                    ok, why = R.owned(i, base, off)
                except alg.Unknown as e:
                    ok, why = None, str(e)
                if ok and not samerow(off, woff, ('v', iv)):
                    ok, why = None, 'other row shape'
                if ok is None:
                    rep.skip('protected read', inst, why)
                else:
                    rep.check('protected read', inst, ok, i.loc(), 'data race: reads an element another iteration may write (%s)' % why, key='read:%s:%s' % (R.name, R.shown(base)))
                break


def samerow(a, b, at):
    co = lambda p: {tuple(x for x in mo if x[0] != at): c for mo, c in p.items() if at in dict(mo)}
    return alg.same(co(a), co(b))


def after_barrier(f, w, i):
    return any(c.op == 'call' and c.callee_name() == '__kmpc_barrier' and f.dominates(w.block, c.block) and f.dominates(c.block, i.block) for c in f.instrs)


def nthreads(rep, m, R):
    """the fork is preceded by a request for vl_get_max_threads() threads"""
    f, c = R.parent, R.fork
    b = f.blocks[c.block]
    k = b.index(c)
    req = None
    for i in reversed(b[:k]):
        if i.op == 'call' and i.callee_name() == '__kmpc_push_num_threads':
            req = i
            break
        if i.op == 'call' and (i.callee_name() or '').startswith('__kmpc_fork'):
            break
    inst = '%s, line %s' % (R.name, c.ln)
    ok = False
    if req is not None:
        v = f.val(req.ops[2])
        while v is not None and v.op in ('trunc', 'sext', 'zext', 'phi') and v.op != 'phi':
            v = f.val(v.ops[0])
        if v is not None and v.op == 'call' and v.callee_name() == 'vl_get_max_threads':
            ok = True
        elif v is not None and v.op == 'load' and 'numThreads' in str(R.an.info[f.name].access(v.ops[0])):
            ok = True
    rep.check('uses at most vl_get_max_threads() threads', inst, ok, c.loc(), 'the region does not request vl_get_max_threads() threads', key='nt:%s' % R.name)


def settings(rep, m, an):
    n = 0
    for f in m.defined():
        if not f.file.startswith('vl/'):
            continue
        for i in f.instrs:
            if i.op == 'call' and (i.callee_name() or '').startswith('omp_'):
                n += 1
                rep.check('OpenMP settings untouched', '%s: %s' % (f.src, i.callee_name()), not OMPSET.match(i.callee_name()), i.loc(), 'changes the application\'s OpenMP settings', key='omp:%s:%s' % (f.src, i.callee_name()))
    # vl_set_num_threads / vl_get_max_threads
    f = m.F('vl_set_num_threads')
    if f is not None:
        st = [i for i in f.instrs if i.op == 'store']
        ok = None
        if len(st) == 1:
            E = alg.Eval(f, calls={'omp_get_max_threads': lambda E, v: [A('ompmax')]})
            try:
                v = E.one(st[0].ops[0])
                a0 = A('arg', 0)
                ok = alg.same(v, alg.sel(alg.eq0(a0), A('ompmax'), a0))
                tgt = any('numThreads' in s for l in an.info[f.name].access(st[0].ops[1]) for s in l[1])
                ok = ok and tgt
            except alg.Unknown as e:
                rep.skip('thread limit', 'vl_set_num_threads', str(e))
        if ok is not None:
            rep.check('thread limit', 'vl_set_num_threads', ok, f.loc(), 'does not store its argument (or the OpenMP maximum when it is 0) as the limit')
        elif len(st) != 1:
            rep.skip('thread limit', 'vl_set_num_threads', '%d stores' % len(st))
    f = m.F('vl_get_max_threads')
    if f is not None and len(f.rets) == 1:
        v = f.val(f.rets[0].ops[0])
        if v is not None and v.op == 'load':
            ok = any('numThreads' in s for l in an.info[f.name].access(v.ops[0]) for s in l[1])
            rep.check('thread limit', 'vl_get_max_threads', ok, f.loc(), 'does not return the limit')
        else:
            rep.skip('thread limit', 'vl_get_max_threads', 'shape')
    return n


def run():
    rep = report.Report('C22', RULE, 'race analysis of the compiler-outlined parallel regions: ownership of memory, critical sections, affine partition of shared arrays')
    m = list(ir.load('omp+i').values())[0]
    an = effects.Analysis(m)
    rs = regions(m)
    nw = 0
    for f, c, p in rs:
        R = Region(m, an, f, c, p)
        rep.count('parallel regions')
        rep.count('work-sharing loops', len(R.ws))
        nw += check_region(rep, R)
        nthreads(rep, m, R)
    settings(rep, m, an)
    rep.note('Distinct pointer variables of a region are assumed to designate distinct arrays; an index read from data (an assignment) is assumed to stay inside its row.')
    rep.floor('parallel regions', len(rs), 12)
    rep.floor('writes to shared memory', nw, 30)
    return rep
