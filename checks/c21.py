"""C21: library-wide and per-thread state: the state lock, lazily created thread state, error reporting, registered functions."""
import ir, report, build
from ir import const_int, is_null

RULE = ('typestate of the recursive state lock (ownership count x owner x own depth, exact finite domain, fixpoint over every path of every public function); the thread state is reached only through the '
        'thread key, created and registered when absent, fully initialised; each global field is written only by its setter; getters, setters and allocation wrappers use the field they name')

WRITERS = {
    'malloc_func': {'vl_set_alloc_func'}, 'realloc_func': {'vl_set_alloc_func'}, 'calloc_func': {'vl_set_alloc_func'}, 'free_func': {'vl_set_alloc_func'},
    'printf_func': {'vl_set_printf_func'}, 'simdEnabled': {'vl_set_simd_enabled'}, 'numThreads': {'vl_set_num_threads'}, 'numCPUs': set(), 'cpuInfo': set(),
    'threadKey': set(), 'mutex': set(), 'mutexCondition': set(),
}
LOCK = ('mutexCount', 'mutexOwner')


def place(f, o):
    """('state', field) | ('ts', base operand, field) | None for a pointer operand"""
    if isinstance(o, list):
        if o[:2] == ['g', '_vl_state']:
            return ('state', first(f.mod, '_VlState'))
        return None
    if isinstance(o, dict):
        if o.get('ce') == 'getelementptr' and o['ops'][0] == ['g', '_vl_state']:
            return fieldpath(f, ('state',), o['path'])
        return None
    v = f.val(o)
    if v is None:
        return None
    if v.op == 'getelementptr':
        if any(p[0] == 'f' and p[1] == '_VlState' for p in v.path) or v.ops[0] == ['g', '_vl_state']:
            return fieldpath(f, ('state',), v.path)
        if any(p[0] == 'f' and p[1] == 'VlThreadState' or p[0] == 'f' and p[1] == '_VlThreadState' for p in v.path):
            return fieldpath(f, ('ts', v.ops[0]), v.path)
    return None


def first(m, s):
    ms = m.struct_members(s)
    return ms[0][0] if ms else '#0'


def fieldpath(f, pre, path):
    fl = [p for p in path if p[0] == 'f']
    if not fl:
        return None
    return pre + (f.mod.field_name(fl[0][1], fl[0][2]),)


# ------------------------------------------------------------------ lock typestate
class Giveup(Exception):
    pass


class Lock:
    """states: (held, D, count, owner, section, sig, pend, env)
       section: (D, count, owner) at the start of the critical section; env: known values of SSA names"""
    CAP = 3

    def __init__(self, rep, f, ctor):
        self.rep, self.f, self.ctor = rep, f, ctor
        self.bad = {}
        self.n = 0

    def err(self, key, i, msg):
        self.bad.setdefault(key, (i.loc(), msg))

    def havoc(self, D, env):
        if D:
            yield D, 'S'
        else:
            for o in 'SO':
                yield 0, o
            for c in (1, 2):
                yield c, 'O'

    def run(self):
        f = self.f
        start = frozenset([(0, 0, None, None, None, False, False, frozenset())])
        inn = {0: set(start)}
        work = [0]
        live = self.relevant()
        while work:
            b = work.pop()
            outs = set()
            for st in inn[b]:
                cur = [st]
                for i in f.blocks[b]:
                    if i.op == 'phi' or i.op in ('br', 'switch'):
                        continue
                    cur = [n for s in cur for n in self.step(s, i, live)]
                outs |= set(cur)
            self.n += len(outs)
            if self.n > 60000:
                raise Giveup('too many states')
            t = f.blocks[b][-1]
            for st in outs:
                for s in self.targets(t, st, b):
                    env = dict(st[7])
                    new = {}
                    for i in f.blocks[s]:
                        if i.op != 'phi':
                            break
                        if i.id in live:
                            for o, p in i.inc:
                                if p == b:
                                    v = self.value(o, env)
                                    if v is not None:
                                        new[i.id] = v
                                    else:
                                        new[i.id] = None
                    for k, v in new.items():
                        if v is None:
                            env.pop(k, None)
                        else:
                            env[k] = v
                    ns = st[:7] + (frozenset(env.items()),)
                    if ns not in inn.setdefault(s, set()):
                        inn[s].add(ns)
                        if s not in work:
                            work.append(s)

    def relevant(self):
        """values that may depend on the lock fields or thread identity"""
        f = self.f
        live = set()
        ch = True
        while ch:
            ch = False
            for i in f.instrs:
                if i.id in live:
                    continue
                hit = False
                if i.op == 'load':
                    p = place(f, i.ops[0])
                    hit = p is not None and p[0] == 'state' and p[1] in LOCK
                elif i.op == 'call':
                    hit = i.callee_name() in ('pthread_self',) or (i.callee_name() == 'pthread_equal')
                elif i.op in ('icmp', 'add', 'sub', 'and', 'or', 'xor', 'select', 'zext', 'trunc', 'sext', 'phi'):
                    hit = any(isinstance(o, int) and o in live for o in i.all_ops())
                if hit:
                    live.add(i.id)
                    ch = True
        return live

    def value(self, o, env):
        c = const_int(o)
        if c is not None:
            return c
        return env.get(o) if isinstance(o, int) else None

    def targets(self, t, st, b):
        if t.op == 'br' and t.cond is not None:
            v = self.value(t.cond, dict(st[7]))
            if v is not None:
                return [t.succ[0] if v else t.succ[1]]
        if t.op == 'switch':
            v = self.value(t.ops[0] if t.ops else t.cond, dict(st[7]))
            if v is not None:
                for c in t.cases:
                    cv = c[0] if isinstance(c[0], int) else const_int(c[0])
                    if cv is None:
                        try:
                            cv = int(c[0])
                        except (TypeError, ValueError):
                            return self.f.succ[b]
                    if cv == v:
                        return [c[1]]
                return [t.default]
        return self.f.succ[b]

    def step(self, st, i, live):
        held, D, cnt, own, sec, sig, pend, envf = st
        f = self.f

        def mk(**k):
            d = dict(held=held, D=D, cnt=cnt, own=own, sec=sec, sig=sig, pend=pend, env=envf)
            d.update(k)
            e = d['env']
            return (d['held'], d['D'], d['cnt'], d['own'], d['sec'], d['sig'], d['pend'], e if isinstance(e, frozenset) else frozenset(e.items()))

        def put(v):
            if i.id not in live:
                return [st]
            e = dict(envf)
            if v is None:
                e.pop(i.id, None)
            else:
                e[i.id] = v
            return [mk(env=e)]

        op = i.op
        if op == 'call':
            n = i.callee_name()
            if n in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_cond_wait', 'pthread_cond_signal', 'pthread_cond_broadcast'):
                want = 'mutex' if 'mutex' in n else 'mutexCondition'
                p = place(f, i.ops[0])
                if p is None:
                    raise Giveup('lock object not recognised')
                if p != ('state', want):
                    self.err('object', i, '%s is applied to %s' % (n, p[-1]))
                    return []
            if n == 'pthread_mutex_lock':
                if held:
                    self.err('relock', i, 'the (non recursive) state mutex is locked again by its holder: deadlock')
                    return []
                return [mk(held=1, cnt=c, own=o, sec=(D, c, o), sig=False) for c, o in self.havoc(D, envf)]
            if n == 'pthread_mutex_unlock':
                if not held:
                    self.err('unlock', i, 'the state mutex is unlocked but not held')
                    return []
                r = self.close(st, i)
                return [] if r is None else [mk(held=0, D=r[0], cnt=None, own=None, sec=None, sig=False, pend=r[1])]
            if n == 'pthread_cond_wait':
                p = place(f, i.ops[1])
                if p is None:
                    raise Giveup('mutex of wait not recognised')
                if p != ('state', 'mutex') or not held:
                    self.err('wait', i, 'waits on the state condition without holding the state mutex')
                    return []
                r = self.close(st, i)
                if r is None:
                    return []
                if r[0]:
                    self.err('selfwait', i, 'a thread that owns the state lock waits for it to be released: deadlock')
                    return []
                if cnt == 0:
                    self.err('freewait', i, 'waits although the state lock is free: nobody will wake the thread up')
                    return []
                return [mk(D=r[0], cnt=c, own=o, sec=(r[0], c, o), sig=False, pend=r[1]) for c, o in self.havoc(r[0], envf)]
            if n in ('pthread_cond_signal', 'pthread_cond_broadcast'):
                return [mk(sig=True, pend=False)]
            if n == 'pthread_self':
                return put('self')
            if n == 'pthread_equal':
                a, b = (self.value(o, dict(envf)) for o in i.ops[:2])
                if a is None or b is None:
                    return put(None)
                return put(1 if a == b else 0)
            if n and n.startswith('pthread_') and ('mutex' in n or 'cond' in n) and not self.ctor:
                raise Giveup(n)
            if n and i.noreturn:
                return []
            return put(None)
        if op == 'load':
            p = place(f, i.ops[0])
            if p and p[0] == 'state' and p[1] in LOCK:
                if not held:
                    if not self.ctor:
                        self.err('read:' + p[1], i, '%s is read without holding the state mutex' % p[1])
                    return put(None)
                return put(cnt if p[1] == 'mutexCount' else {'S': 'self', 'O': 'other'}[own])
            return put(None)
        if op == 'store':
            p = place(f, i.ops[1])
            if p and p[0] == 'state':
                if p[1] in LOCK:
                    if self.ctor:
                        return [st]
                    if not held:
                        self.err('write:' + p[1], i, '%s is changed without holding the state mutex' % p[1])
                        return []
                    v = self.value(i.ops[0], dict(envf))
                    if v is None:
                        raise Giveup('stored lock value unknown')
                    if p[1] == 'mutexCount':
                        return [mk(cnt=v)]
                    return [mk(own='S' if v == 'self' else 'O')]
                if p[1].endswith('alloc_func') or p[1] == 'free_func':
                    if not self.ctor and not D and not held:
                        self.err('register', i, '%s is changed without holding the state lock' % p[1])
            return [st]
        if op == 'ret':
            if not self.ctor:
                if held:
                    self.err('ret:held', i, 'returns with the state mutex held')
                elif D:
                    self.err('ret:owned', i, 'returns without releasing the state lock')
                elif pend:
                    self.err('ret:signal', i, 'releases the state lock without waking a thread that waits for it')
            return []
        if i.id in live and i.ops:
            e = dict(envf)
            vs = [self.value(o, e) for o in i.ops]
            if op == 'select':
                return put(None if vs[0] is None else vs[1] if vs[0] else vs[2])
            if any(v is None for v in vs):
                return put(None)
            if op in ('zext', 'trunc', 'sext', 'bitcast'):
                return put(vs[0])
            a, b = vs[0], vs[1] if len(vs) > 1 else None
            if op == 'icmp':
                if isinstance(a, str) or isinstance(b, str):
                    return put(None if i.pred not in ('eq', 'ne') else int((a == b) == (i.pred == 'eq')))
                r = {'eq': a == b, 'ne': a != b, 'ugt': a % 2**64 > b % 2**64, 'uge': a % 2**64 >= b % 2**64, 'ult': a % 2**64 < b % 2**64, 'ule': a % 2**64 <= b % 2**64,
                     'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b}.get(i.pred)
                return put(None if r is None else int(r))
            if isinstance(a, str) or isinstance(b, str) or b is None:
                return put(None)
            r = {'add': a + b, 'sub': a - b, 'and': a & b, 'or': a | b, 'xor': a ^ b}.get(op)
            if r is not None and i.ty == 'i1':
                r &= 1
            return put(r)
        return [st]

    def close(self, st, i):
        """end of a critical section: the change of the lock must be a legal transition; (new D, signal pending)"""
        held, D, cnt, own, sec, sig, pend, env = st
        D0, c0, o0 = sec
        if cnt == c0 and (own == o0 or cnt == 0):
            return D0, pend
        if D0 == 0 and c0 == 0 and cnt == 1:
            if own != 'S':
                self.err('owner', i, 'the state lock is taken without recording its owner')
                return None
            return 1, pend
        if D0 and cnt == c0 + 1 and own == 'S':
            if D0 + 1 > self.CAP:
                self.err('depth', i, 'the state lock is taken more often than it is released')
                return None
            return D0 + 1, pend
        if D0 and cnt == c0 - 1 and (own == 'S' or cnt == 0):
            return D0 - 1, pend if cnt else (not sig)
        if D0 == 0 and c0 > 0:
            self.err('steal', i, 'the lock is changed (count %s -> %s) while another thread owns it' % (c0, cnt))
        elif D0 == 0:
            self.err('count', i, 'the free lock goes from count 0 to %s with no matching acquisition' % cnt)
        else:
            self.err('count', i, 'the owner changes the lock count from %s to %s' % (c0, cnt))
        return None


# ------------------------------------------------------------------ thread state
def strip(f, o):
    v = f.val(o)
    while v is not None and v.op in ('bitcast', 'addrspacecast') and isinstance(v.ops[0], int):
        o = v.ops[0]
        v = f.val(o)
    return o


def is_key(f, o):
    v = f.val(strip(f, o))
    return v is not None and v.op == 'load' and place(f, v.ops[0]) == ('state', 'threadKey')


ALLOC = ('malloc', 'calloc', 'vl_malloc', 'vl_calloc')


class Thread:
    def __init__(self, rep, f, size):
        self.rep, self.f, self.size = rep, f, size
        self.get = [i for i in f.calls('pthread_getspecific')]
        self.set = [i for i in f.calls('pthread_setspecific')]

    def leaves(self, o, seen=None):
        """the values a pointer may be: instructions that are not phi/select/casts; None for null"""
        seen = seen if seen is not None else set()
        f = self.f
        if is_null(o):
            return {None}
        o = strip(f, o)
        if not isinstance(o, int):
            return {('c', repr(o))}
        if o in seen:
            return set()
        seen.add(o)
        v = f.val(o)
        if v.op == 'phi':
            r = set()
            for x, _ in v.inc:
                r |= self.leaves(x, seen)
            return r
        if v.op == 'select':
            return self.leaves(v.ops[1], seen) | self.leaves(v.ops[2], seen)
        return {v.id}

    def is_T(self, o):
        L = self.leaves(o)
        ids = {g.id for g in self.get} | {a.id for a in self.fresh()}
        return bool(L) and all(x in ids for x in L)

    def fresh(self):
        out = []
        for i in self.f.calls(ALLOC):
            n = const_int(i.ops[0])
            if i.callee_name().endswith('calloc') and n is not None and const_int(i.ops[1]) is not None:
                n *= const_int(i.ops[1])
            if n == self.size:
                out.append(i)
        return out

    def null_edges(self):
        """edges taken only when the value of pthread_getspecific is null"""
        f = self.f
        ids = {g.id for g in self.get}
        out = set()
        for b in f.live:
            t = f.blocks[b][-1]
            if t.op != 'br' or t.cond is None or t.succ[0] == t.succ[1]:
                continue
            v = f.val(t.cond)
            neg = False
            while v is not None and v.op == 'xor' and const_int(v.ops[1]) in (1, -1):
                neg = not neg
                v = f.val(v.ops[0])
            if v is None or v.op != 'icmp' or v.pred not in ('eq', 'ne'):
                continue
            a, c = v.ops
            if is_null(a):
                a, c = c, a
            if not is_null(c) or self.leaves(a) - ids:
                continue
            isnull = (v.pred == 'eq') != neg
            out.add((b, t.succ[0] if isnull else t.succ[1]))
        return out

    def run(self):
        f, rep = self.f, self.rep
        for g in self.get:
            rep.check('thread key', 'getspecific in %s' % f.src, is_key(f, g.ops[0]), g.loc(), 'the thread state is looked up with something other than the thread key', key='key:get:' + f.src)
        for s in self.set:
            rep.check('thread key', 'setspecific in %s' % f.src, is_key(f, s.ops[0]), s.loc(), 'the thread state is registered with something other than the thread key', key='key:set:' + f.src)
        ne = self.null_edges()
        for a in self.fresh():
            inst = 'thread state created in %s' % f.src
            b = a.block
            dom = any(f.dominates(e[1], b) and all(p == e[0] or f.dominates(e[1], p) for p in f.pred[e[1]]) for e in ne)
            rep.check('create once', inst, dom, a.loc(), 'a new thread state is created although the thread may already have one (its errors, random generator and timer are lost)', key='once:' + f.src)
            # registered on all paths
            ev = {s.block for s in self.set if a.id in self.leaves(s.ops[1])}
            okreg = a.block in ev and any(s.block == a.block and s.idx > a.idx for s in self.set if a.id in self.leaves(s.ops[1]))
            import flow
            path = None if okreg else flow.path_avoiding(f, ev - {a.block}, set(), start=a.block)
            rep.check('registered', inst, path is None, a.loc(), 'the new thread state is not registered with the thread key on some path (it leaks and every call makes another)', key='reg:' + f.src)
            self.init(a, inst)
        # setspecific must not drop or replace an existing state
        for s in self.set:
            L = self.leaves(s.ops[1])
            ids = {g.id for g in self.get} | {a.id for a in self.fresh()}
            if L == {None}:
                continue
            rep.check('registered value', 'setspecific in %s' % f.src, L <= ids, s.loc(), 'the value registered for the thread is not the thread state', key='regval:' + f.src)

    def init(self, a, inst):
        """every field with a defined initial value is set before the new object meets other code"""
        f, rep = self.f, self.rep
        m = f.mod
        zero = a.callee_name().endswith('calloc')
        done = {}
        for i in f.instrs:
            if i.op == 'store':
                p = place(f, i.ops[1])
                if p and p[0] == 'ts' and self.leaves(p[1]) == {a.id}:
                    z = const_int(i.ops[0]) == 0
                    done.setdefault(p[2], []).append((i, z))
                elif strip(f, i.ops[1]) == a.id:
                    done.setdefault('lastError', []).append((i, const_int(i.ops[0]) == 0))
            elif i.op == 'call':
                n = i.callee_name() or ''
                if n.startswith('llvm.memset') and self.leaves(i.ops[0]) == {a.id} and const_int(i.ops[1]) == 0 and (const_int(i.ops[2]) or 0) >= self.size:
                    zero = True
                if n == 'vl_rand_init':
                    p = place(f, i.ops[0])
                    if p and p[0] == 'ts' and self.leaves(p[1]) == {a.id}:
                        done.setdefault('rand', []).append((i, True))
        for fld, what in (('lastError', 'the last error is not cleared'), ('lastErrorMessage', 'the error message is not empty'), ('ticMark', 'the timer is not set'), ('rand', 'the random generator is not initialised')):
            ev = {i.block for i, z in done.get(fld, ()) if z}
            import flow
            good = (zero and fld != 'rand') or (a.block in ev) or (ev and flow.path_avoiding(f, ev, set(), start=a.block) is None)
            rep.check('initial state', '%s: %s' % (inst, fld), good, a.loc(), 'in a new thread state %s' % what, key='init:%s:%s' % (f.src, fld))


# ------------------------------------------------------------------ accessors
def loads_field(f, o, fld, T=None):
    """is operand o the value of the named field?"""
    v = f.val(strip(f, o))
    if v is None or v.op != 'load':
        return None
    p = place(f, v.ops[0])
    if p is None:
        if T is not None and T.is_T(v.ops[0]):
            return 'lastError'
        return None
    if p[0] == 'ts' and (T is None or not T.is_T(p[1])):
        return None
    return p[-1]


def accessors(rep, m):
    def ret1(name):
        f = m.F(name)
        if f is None:
            rep.skip('accessor', name, 'not defined')
            return None
        return f

    def leaves_ret(f):
        T = Thread(rep, f, 0)
        s = set()
        for r in f.rets:
            if r.ops:
                s |= T.leaves(r.ops[0])
        return s

    for name, fld in (('vl_get_simd_enabled', 'simdEnabled'), ('vl_get_printf_func', 'printf_func'), ('vl_get_num_cpus', 'numCPUs')):
        f = ret1(name)
        if f is None:
            continue
        got = {loads_field(f, x, fld) for x in leaves_ret(f)}
        if None in got:
            rep.skip('accessor', name, 'shape')
            continue
        rep.check('accessor', name, got == {fld}, f.loc(), '%s returns %s instead of %s' % (name, got, fld), key='get:' + name)
    # setters
    for name, mp in (('vl_set_simd_enabled', {'simdEnabled': 0}), ('vl_set_printf_func', {'printf_func': 0}),
                     ('vl_set_alloc_func', {'malloc_func': 0, 'realloc_func': 1, 'calloc_func': 2, 'free_func': 3})):
        f = ret1(name)
        if f is None:
            continue
        T = Thread(rep, f, 0)
        st = {}
        for i in f.instrs:
            if i.op == 'store':
                p = place(f, i.ops[1])
                if p and p[0] == 'state' and p[1] not in LOCK:
                    st.setdefault(p[1], []).append(i)
        for fld, k in mp.items():
            inst = '%s sets %s' % (name, fld)
            arg = f.args[k].id
            import flow
            ev = {i.block for i in st.get(fld, ())}
            missing = flow.path_avoiding(f, ev, set()) is not None
            if not rep.check('accessor', inst, not missing, f.loc(), '%s does not store its argument in %s on every path' % (name, fld), key='set:%s:%s' % (name, fld)):
                continue
            for i in st[fld]:
                if f.args[k].ty == 'ptr':
                    L = T.leaves(i.ops[0])
                    if fld == 'printf_func':
                        # null registers a function that prints nothing
                        good = arg in L and all(x == arg or isinstance(x, tuple) for x in L) or all(isinstance(x, tuple) for x in L)
                        rep.check('accessor', inst + ' value', good and None not in L, i.loc(), 'the registered print function is not the argument', key='setv:%s:%s' % (name, fld))
                        if good and L == {arg}:
                            guarded_null(rep, f, i, arg, name)
                        continue
                    rep.check('accessor', inst + ' value', L == {arg}, i.loc(), '%s stores another value in %s' % (name, fld), key='setv:%s:%s' % (name, fld))
                else:
                    v = i.ops[0]
                    good = strip(f, v) == arg
                    vv = f.val(v)
                    if not good and (vv is None or vv.op not in ('zext', 'icmp', 'phi', 'select')):
                        rep.bad('accessor', inst + ' value', i.loc(), '%s stores another value in %s' % (name, fld), key='setv:%s:%s' % (name, fld))
                    elif good:
                        rep.ok('accessor', inst + ' value')
                    else:
                        rep.skip('accessor', inst + ' value', 'shape')
    # allocation wrappers
    for name, fld, k in (('vl_malloc', 'malloc_func', 1), ('vl_realloc', 'realloc_func', 2), ('vl_calloc', 'calloc_func', 2), ('vl_free', 'free_func', 1)):
        f = ret1(name)
        if f is None:
            continue
        ind = [i for i in f.instrs if i.op == 'call' and i.callee_name() is None]
        if len(ind) != 1:
            rep.skip('accessor', name, '%d indirect calls' % len(ind))
            continue
        i = ind[0]
        got = loads_field(f, i.callee, fld)
        if got is None:
            rep.skip('accessor', name, 'callee shape')
            continue
        rep.check('accessor', name, got == fld, i.loc(), '%s calls the registered %s' % (name, got), key='alloc:' + name)
        rep.check('accessor', name + ' arguments', [strip(f, o) for o in i.ops[:k]] == [a.id for a in f.args[:k]], i.loc(), '%s does not pass its arguments on unchanged' % name, key='allocargs:' + name)
        if name != 'vl_free':
            rep.check('accessor', name + ' result', leaves_ret(f) == {i.id}, i.loc(), '%s does not return what the registered function returned' % name, key='allocret:' + name)


def guarded_null(rep, f, i, arg, name):
    """storing the raw argument: only where it is known to be non-null"""
    b = i.block
    x = b
    ok = False
    while x != 0:
        d = f.idom[x]
        t = f.blocks[d][-1]
        if t.op == 'br' and t.cond is not None:
            v = f.val(t.cond)
            if v is not None and v.op == 'icmp' and v.pred in ('eq', 'ne') and arg in [strip(f, o) for o in v.ops] and any(is_null(o) for o in v.ops):
                e = t.succ[0] if v.pred == 'ne' else t.succ[1]
                if f.dominates(e, b):
                    ok = True
        x = d
    rep.check('accessor', name + ' null', ok, i.loc(), '%s(NULL) registers a null function, which the next message calls' % name, key='setnull:' + name)


def errors(rep, m, size):
    f = m.F('vl_set_last_error')
    if f is None:
        rep.skip('error state', 'vl_set_last_error', 'not defined')
    else:
        T = Thread(rep, f, size)
        import flow
        ev, msg = set(), set()
        for i in f.instrs:
            if i.op == 'store':
                p = place(f, i.ops[1])
                if (p and p[0] == 'ts' and p[2] == 'lastError' and T.is_T(p[1])) or (p is None and T.is_T(i.ops[1])):
                    if strip(f, i.ops[0]) == f.args[0].id:
                        ev.add(i.block)
                if p and p[0] == 'ts' and p[2] == 'lastErrorMessage' and T.is_T(p[1]) and const_int(i.ops[0]) == 0:
                    msg.add(i.block)
            elif i.op == 'call' and i.callee_name() in ('vsnprintf', 'snprintf', 'strncpy', 'vsprintf', '__vsnprintf_chk', 'sprintf', 'strcpy'):
                p = place(f, i.ops[0])
                if p and p[0] == 'ts' and p[2] == 'lastErrorMessage':
                    fl = m.struct_members('VlThreadState') or m.struct_members('_VlThreadState')
                    cap = [x[2] for x in fl if x[0] == 'lastErrorMessage']
                    n = const_int(i.ops[1]) if 'snprintf' in i.callee_name() else None
                    rep.check('error state', 'message bounded', bool(cap) and n is not None and n <= cap[0] and n > 1, i.loc(), 'the error message is written with bound %s into %s bytes' % (n, cap), key='errbound')
                    if 'snprintf' in i.callee_name():
                        fo = strip(f, i.ops[2] if i.callee_name() != '__vsnprintf_chk' else i.ops[4])
                        rep.check('error state', 'message format', fo == f.args[1].id, i.loc(), 'the message is not formatted from the given format', key='errfmt')
                        msg.add(i.block)
        rep.check('error state', 'code stored', flow.path_avoiding(f, ev, set()) is None, f.loc(), 'vl_set_last_error does not record the error code on some path', key='errcode')
        rep.check('error state', 'message stored', flow.path_avoiding(f, msg, set()) is None, f.loc(), 'vl_set_last_error leaves the message of an earlier error on some path', key='errmsg')
        good = all(r.ops and strip(f, r.ops[0]) == f.args[0].id for r in f.rets)
        if not good:
            good = all(r.ops and loads_field(f, r.ops[0], 'lastError', T) == 'lastError' for r in f.rets)
        rep.check('error state', 'code returned', good, f.loc(), 'vl_set_last_error does not return the error code', key='errret')
    for name, fld, addr in (('vl_get_last_error', 'lastError', False), ('vl_get_last_error_message', 'lastErrorMessage', True), ('vl_get_rand', 'rand', True)):
        f = m.F(name)
        if f is None:
            rep.skip('thread getter', name, 'not defined')
            continue
        T = Thread(rep, f, size)
        for r in f.rets:
            if addr:
                p = place(f, r.ops[0])
                if p is None:
                    rep.skip('thread getter', name, 'shape')
                    continue
                rep.check('thread getter', name, p[0] == 'ts' and p[2] == fld and T.is_T(p[1]), r.loc(), '%s does not return the calling thread\'s %s' % (name, fld), key='tget:' + name)
            else:
                g = loads_field(f, r.ops[0], fld, T)
                if g is None:
                    rep.skip('thread getter', name, 'shape')
                    continue
                rep.check('thread getter', name, g == fld, r.loc(), '%s does not return the calling thread\'s %s' % (name, fld), key='tget:' + name)


def timer(rep, m, size):
    import alg
    f = m.F('vl_tic')
    if f is not None:
        T = Thread(rep, f, size)
        st = [i for i in f.instrs if i.op == 'store' and (place(f, i.ops[1]) or (0,))[0] == 'ts' and place(f, i.ops[1])[2] == 'ticMark' and T.is_T(place(f, i.ops[1])[1])]
        st = [i for i in st if const_int(i.ops[0]) is None]
        good = st and all((f.val(i.ops[0]) is not None and f.val(i.ops[0]).op == 'call' and f.val(i.ops[0]).callee_name() == 'clock') for i in st)
        import flow
        rep.check('timer', 'vl_tic', bool(good) and flow.path_avoiding(f, {i.block for i in st}, set()) is None, f.loc(), 'vl_tic does not record the time in the calling thread\'s state', key='tic')
    f = m.F('vl_toc')
    if f is not None and len(f.rets) == 1:
        T = Thread(rep, f, size)
        ck = [i for i in f.calls('clock')]
        ld = [i for i in f.instrs if i.op == 'load' and (place(f, i.ops[0]) or (0,))[0] == 'ts' and place(f, i.ops[0])[2] == 'ticMark' and T.is_T(place(f, i.ops[0])[1])]
        if len(ck) == 1 and len(ld) == 1:
            E = alg.Eval(f, subst={ck[0].id: [alg.A('now')], ld[0].id: [alg.A('mark')]})
            try:
                r = E.one(f.rets[0].ops[0])
                want = alg.scale(alg.sub(alg.A('now'), alg.A('mark')), alg.Fraction(1, 1000000))
                rep.check('timer', 'vl_toc', alg.same(r, want), f.rets[0].loc(), 'vl_toc returns %s instead of the seconds since vl_tic' % alg.show(r)[:120], key='toc')
            except alg.Unknown as e:
                rep.skip('timer', 'vl_toc', str(e))
        else:
            rep.skip('timer', 'vl_toc', 'shape')


def ctor(rep, m, lm):
    """constructor / destructor"""
    f = m.F('vl_constructor')
    import flow
    if f is None:
        rep.skip('constructor', 'vl_constructor', 'not defined')
    else:
        calls = {}
        for i in f.instrs:
            if i.op == 'call' and i.callee_name():
                p = place(f, i.ops[0]) if i.ops else None
                calls.setdefault((i.callee_name(), p[1] if p and p[0] == 'state' else None), []).append(i)
        for n, fld in (('pthread_key_create', 'threadKey'), ('pthread_mutex_init', 'mutex'), ('pthread_cond_init', 'mutexCondition'), ('_vl_x86cpu_info_init', 'cpuInfo')):
            c = calls.get((n, fld))
            good = bool(c) and flow.path_avoiding(f, {x.block for x in c}, set()) is None
            rep.check('constructor', '%s(%s)' % (n, fld), good, f.loc(), 'the library constructor does not initialise %s' % fld, key='ctor:' + fld)
            if good and n == 'pthread_mutex_init':
                rep.check('constructor', 'mutex attributes', all(is_null(x.ops[1]) for x in c), c[0].loc(), 'unexpected mutex attributes', key='ctor:attr') if all(is_null(x.ops[1]) for x in c) else rep.skip('constructor', 'mutex attributes', 'non default')
            if good and n == 'pthread_key_create':
                d = c[0].ops[1]
                if isinstance(d, list) and d[0] == 'null':
                    rep.bad('constructor', 'key destructor', c[0].loc(), 'the thread state of a finished thread is never freed', key='keydtor')
                elif isinstance(d, list) and d[0] == 'g':
                    fr = {'malloc': ('free',), 'calloc': ('free',), 'vl_malloc': ('vl_free',), 'vl_calloc': ('vl_free',)}
                    made = {a.callee_name() for g in m.defined() for a in Thread(rep, g, tsize(m)).fresh() if list(g.calls('pthread_getspecific'))}
                    want = {y for x in made for y in fr[x]}
                    g = m.F(d[1])
                    if d[1] in ('free', 'vl_free'):
                        rep.check('constructor', 'key destructor', want == {d[1]}, c[0].loc(), 'the thread state is made by %s but released by %s' % (made, d[1]), key='keydtor')
                    elif g is None:
                        rep.skip('constructor', 'key destructor', 'not defined')
                    else:
                        fc = [i for i in g.calls(('free', 'vl_free')) if strip(g, i.ops[0]) == g.args[0].id]
                        # a null test around free is fine
                        path = flow.path_avoiding(g, {i.block for i in fc}, nullcut(g))
                        rep.check('constructor', 'key destructor', bool(fc) and path is None and {i.callee_name() for i in fc} == want, g.loc(),
                                  'the thread state of a finished thread is not released with the function matching %s' % made, key='keydtor')
                else:
                    rep.skip('constructor', 'key destructor', 'shape')
        st = {}
        for i in f.instrs:
            if i.op == 'store':
                p = place(f, i.ops[1])
                if p and p[0] == 'state':
                    st.setdefault(p[1], []).append(i)
        for fld, g in (('malloc_func', 'malloc'), ('realloc_func', 'realloc'), ('calloc_func', 'calloc'), ('free_func', 'free'), ('printf_func', 'printf')):
            s = st.get(fld, [])
            good = s and flow.path_avoiding(f, {x.block for x in s}, set()) is None and all(x.ops[0] == ['g', g] for x in s)
            rep.check('constructor', fld + ' = ' + g, bool(good), (s[0] if s else f).loc(), 'the default %s is not %s' % (fld, g), key='ctor:' + fld)
        for fld, want in (('simdEnabled', 1), ('numThreads', 1)):
            s = st.get(fld, [])
            vals = [const_int(x.ops[0]) for x in s]
            if s and None in vals:
                rep.skip('constructor', fld, 'not a constant')
                continue
            good = s and flow.path_avoiding(f, {x.block for x in s}, set()) is None and all(v == want for v in vals)
            rep.check('constructor', '%s = %d' % (fld, want), bool(good), (s[0] if s else f).loc(), 'the default %s is %s' % (fld, vals), key='ctor:' + fld)
        s = st.get('numCPUs', [])
        good = None
        for x in s:
            v = f.val(strip(f, x.ops[0]))
            if v is not None and v.op == 'call' and v.callee_name() == 'sysconf':
                good = const_int(v.ops[0]) == 84
        if good is None and s:
            rep.skip('constructor', 'numCPUs', 'shape')
        else:
            rep.check('constructor', 'numCPUs', bool(good), (s[0] if s else f).loc(), 'the number of CPUs is not the number of online processors', key='ctor:numCPUs')
    g = m.globals.get('llvm.global_ctors'), m.globals.get('llvm.global_dtors')
    f = m.F('vl_destructor')
    if f is None:
        rep.skip('constructor', 'vl_destructor', 'not defined')
        return
    for n, fld in (('pthread_cond_destroy', 'mutexCondition'), ('pthread_mutex_destroy', 'mutex')):
        c = [i for i in f.calls(n) if place(f, i.ops[0]) == ('state', fld)]
        rep.check('destructor', fld, bool(c), f.loc(), 'the library destructor does not destroy %s' % fld, key='dtor:' + fld)
    c = [i for i in f.calls('pthread_key_delete') if is_key(f, i.ops[0])]
    rep.check('destructor', 'threadKey', bool(c), f.loc(), 'the library destructor does not delete the thread key (threads that end later call an unloaded destructor)', key='dtor:key')
    T = Thread(rep, f, tsize(m))
    fr = [i for i in f.calls(('free', 'vl_free')) if T.is_T(i.ops[0])]
    rep.check('destructor', 'thread state freed', bool(fr), f.loc(), 'the thread state of the unloading thread leaks', key='dtor:ts')
    cl = [i for i in f.calls('pthread_setspecific') if is_null(i.ops[1])]
    kd = [i for i in f.calls('pthread_key_delete')]
    if fr:
        # the freed state must not stay registered: either unregistered, or the key deleted, after freeing
        good = all(flow.path_avoiding(f, {x.block for x in cl + kd}, set(), start=i.block) is None or any(x.block == i.block for x in cl + kd) for i in fr)
        rep.check('destructor', 'no dangling state', good, fr[0].loc(), 'the freed thread state stays registered', key='dtor:dangling')


def nullcut(g):
    cut = set()
    for b in g.live:
        t = g.blocks[b][-1]
        if t.op == 'br' and t.cond is not None:
            v = g.val(t.cond)
            if v is not None and v.op == 'icmp' and v.pred in ('eq', 'ne') and any(is_null(o) for o in v.ops) and g.args[0].id in v.ops:
                cut.add((b, t.succ[0] if v.pred == 'eq' else t.succ[1]))
    return cut


def tsize(m):
    for n in ('VlThreadState', '_VlThreadState'):
        s = m.structs.get(n)
        if s:
            return s['size'] if 'size' in s else s.get('sz')
    return None


def threads(rep):
    """OpenMP view: vl_set_num_threads / vl_get_max_threads"""
    m = list(ir.load('omp+i').values())[0]
    f = m.F('vl_set_num_threads')
    if f is None:
        rep.skip('thread limit', 'vl_set_num_threads', 'not defined')
    else:
        st = [i for i in f.instrs if i.op == 'store' and place(f, i.ops[1]) == ('state', 'numThreads')]
        import flow, alg
        rep.check('thread limit', 'stored', bool(st) and flow.path_avoiding(f, {i.block for i in st}, set()) is None, f.loc(), 'vl_set_num_threads does not store the limit on every path', key='thr:store')
        omp = [i.id for i in f.calls('omp_get_max_threads')]
        for i in st:
            try:
                v = alg.Eval(f, calls={'omp_get_max_threads': lambda *a: [alg.A('ompmax')]}, subst={o: [alg.A('ompmax')] for o in omp}).one(i.ops[0])
            except alg.Unknown as e:
                rep.skip('thread limit', 'value', str(e))
                continue
            x = alg.A('arg', f.args[0].id)
            z = alg.eq0(x)
            want = alg.sel(z, alg.A('ompmax'), x)
            rep.check('thread limit', 'value', alg.same(v, want), i.loc(), 'vl_set_num_threads(n) stores %s' % alg.show(v)[:100], key='thr:value')
    f = m.F('vl_get_max_threads')
    if f is not None and len(f.rets) == 1:
        g = loads_field(f, f.rets[0].ops[0], 'numThreads')
        rep.check('thread limit', 'vl_get_max_threads', g == 'numThreads', f.loc(), 'vl_get_max_threads does not return the stored limit', key='thr:get') if g else rep.skip('thread limit', 'vl_get_max_threads', 'shape')
    f = m.F('vl_constructor')
    if f is not None:
        for i in f.instrs:
            if i.op == 'store' and place(f, i.ops[1]) == ('state', 'numThreads'):
                v = f.val(strip(f, i.ops[0]))
                while v is not None and v.op in ('sext', 'zext'):
                    v = f.val(v.ops[0])
                if v is not None and v.op == 'call' or const_int(i.ops[0]) is not None:
                    rep.check('thread limit', 'default', v is not None and v.callee_name() == 'omp_get_max_threads', i.loc(), 'the default number of threads is not the OpenMP maximum', key='thr:default')


def run():
    rep = report.Report('C21', RULE, 'typestate fixpoint')
    m = ir.libi()
    size = tsize(m)
    nl = nt = 0
    for f in m.defined():
        ctorf = f.src in ('vl_constructor', 'vl_destructor')
        uses = any(i.op == 'call' and (i.callee_name() or '') in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_cond_wait', 'pthread_mutex_trylock') for i in f.instrs) or \
            any((place(f, o) or (0, 0))[1] in LOCK for i in f.instrs if i.op in ('load', 'store') for o in i.ops[-1:])
        stores = []
        for i in f.instrs:
            if i.op == 'store':
                p = place(f, i.ops[1])
                if p and p[0] == 'state' and p[1] not in LOCK:
                    stores.append((i, p[1]))
        for i, fld in stores:
            if ctorf:
                continue
            w = WRITERS.get(fld)
            if w is None:
                rep.skip('global field', fld, 'not in the table')
                continue
            rep.check('global field', '%s written in %s' % (fld, f.src), f.src in w or not m.is_public(f) and not w, i.loc(), '%s changes the library-wide %s' % (f.src, fld), key='write:%s:%s' % (f.src, fld))
        if uses or stores:
            L = Lock(rep, f, ctorf)
            try:
                L.run()
                nl += 1
                rep.count('lock states explored', L.n)
                if not L.bad:
                    rep.ok('lock typestate', f.src)
                for k, (loc, msg) in L.bad.items():
                    rep.bad('lock typestate', '%s: %s' % (f.src, k), loc, msg, key='lock:%s:%s' % (f.src, k))
            except Giveup as e:
                rep.skip('lock typestate', f.src, str(e))
        if list(f.calls('pthread_getspecific')) or list(f.calls('pthread_setspecific')):
            nt += 1
            T = Thread(rep, f, size)
            T.run()
            if not ctorf:
                for i in f.instrs:
                    if i.op in ('load', 'store'):
                        p = place(f, i.ops[-1])
                        if p and p[0] == 'ts':
                            rep.check('thread state access', '%s.%s in %s' % ('thread state', p[2], f.src), T.is_T(p[1]), i.loc(), '%s accesses a thread state that is not the calling thread\'s' % f.src, key='ts:%s:%s' % (f.src, p[2]))
    rep.count('functions with lock operations', nl)
    rep.count('functions reaching the thread state', nt)
    rep.floor('functions with lock operations', nl, 3)
    rep.floor('functions reaching the thread state', nt, 4)
    accessors(rep, m)
    errors(rep, m, size)
    timer(rep, m, size)
    ctor(rep, m, ir.lib())
    threads(rep)
    return rep
