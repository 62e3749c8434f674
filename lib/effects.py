"""Access-path origins and interprocedural mod/ref/free summaries.

A location is (root, path).  root: ('arg',i) ('glob',name) ('call',id)
('alloca',id) ('unk',).  path: tuple of steps, 'S.f' (member f of struct S) or
'*' (follow the pointer stored at the location).  Array indices are not
distinguished (one location per array)."""
from collections import defaultdict
from ir import const_int, is_null, op_refs
import ir

MAXPATH = 8

ALLOC = {'vl_malloc', 'vl_calloc', 'malloc', 'calloc', 'mxMalloc', 'mxCalloc'}
REALLOC = {'vl_realloc', 'realloc', 'mxRealloc'}
FREE = {'vl_free': 0, 'free': 0, 'mxFree': 0}

MX_FRESH = {'mxCreateCellMatrix', 'mxCreateDoubleMatrix', 'mxCreateDoubleScalar', 'mxCreateNumericArray', 'mxCreateNumericMatrix',
            'mxCreateString', 'mxCreateStructArray', 'mxCreateStructMatrix', 'mxDuplicateArray'}
# external functions: reads = deref'd args read, writes = deref'd args written
EXT = {
    'llvm.memcpy.p0.p0.i64': dict(w=[0], r=[1], copy=(0, 1)), 'llvm.memmove.p0.p0.i64': dict(w=[0], r=[1], copy=(0, 1)),
    'memcpy': dict(w=[0], r=[1], copy=(0, 1), ret=0), 'memmove': dict(w=[0], r=[1], copy=(0, 1), ret=0),
    'llvm.memset.p0.i64': dict(w=[0]), 'memset': dict(w=[0], ret=0),
    'fread': dict(w=[0, 3]), 'fwrite': dict(r=[0], w=[3]), 'fgetc': dict(w=[0]), 'ungetc': dict(w=[1]),
    'fclose': dict(w=[0]), 'fprintf': dict(w=[0], rest='r'), 'vfprintf': dict(w=[0], rest='r'), 'fflush': dict(w=[0]),
    '__isoc23_fscanf': dict(w=[0], rest='w'), '__isoc23_sscanf': dict(r=[0, 1], rest='w'),
    'frexp': dict(w=[1]), 'snprintf': dict(w=[0], rest='r'), 'vsnprintf': dict(w=[0], rest='r'), 'qsort': dict(w=[0], cb=3),
    'strchr': dict(r=[0], ret=0), 'strstr': dict(r=[0, 1], ret=0), 'strlen': dict(r=[0]), 'strcmp': dict(r=[0, 1]),
    'strncmp': dict(r=[0, 1]), 'strcspn': dict(r=[0, 1]),
    'pthread_mutex_init': dict(w=[0]), 'pthread_mutex_destroy': dict(w=[0]), 'pthread_mutex_lock': dict(w=[0]),
    'pthread_mutex_unlock': dict(w=[0]), 'pthread_cond_init': dict(w=[0]), 'pthread_cond_destroy': dict(w=[0]),
    'pthread_cond_signal': dict(w=[0]), 'pthread_cond_wait': dict(w=[0, 1]), 'pthread_key_create': dict(w=[0]),
    'mxGetPr': dict(ret=0), 'mxGetData': dict(ret=0), 'mxGetIr': dict(ret=0), 'mxGetJc': dict(ret=0), 'mxGetLogicals': dict(ret=0),
    'mxGetField': dict(ret=0), 'mxGetDimensions': dict(ret=0), 'mxGetString': dict(w=[1], r=[0]),
    'mxSetDimensions': dict(w=[0]), 'mxSetM': dict(w=[0]), 'mxSetN': dict(w=[0]), 'mxSetPr': dict(w=[0]), 'mxSetData': dict(w=[0]),
    'mxSetCell': dict(w=[0]), 'mxSetField': dict(w=[0]), 'mxSetFieldByNumber': dict(w=[0]), 'mexCallMATLAB': dict(w=[1]),
}


def is_ptr(ty):
    return ty is not None and ty.startswith('ptr')


class FnInfo:
    """per-function origin computation"""

    def __init__(self, an, f):
        self.an, self.f, self.m = an, f, f.mod
        self.cache = {}
        self.stores = defaultdict(set)     # location -> set of locations (pointer values stored there)
        self._hints = {}
        self.busy = set()

    # pointer value -> set of locations it points to
    def pts(self, o):
        f = self.f
        if isinstance(o, list):
            if o[0] == 'g':
                return frozenset([(('glob', o[1]), ())])
            return frozenset()
        if isinstance(o, dict):
            base = self.pts(o['ops'][0]) if o.get('ops') else frozenset()
            if o.get('ce') == 'getelementptr':
                return frozenset((r, p + self._gep_steps(o['path'])) for r, p in base)
            return base
        if o in self.cache:
            return self.cache[o]
        if o in self.busy:
            return frozenset()
        v = f.vals.get(o)
        self.busy.add(o)
        r = self._pts(v)
        self.busy.discard(o)
        if not self.busy:
            self.cache[o] = r
        return r

    def _gep_steps(self, path):
        out = []
        for s in path:
            if s[0] == 'f':
                out.append(s[1] + '.' + self.m.field_name(s[1], s[2]))
        return tuple(out)

    def _pts(self, v):
        op = v.op
        if op == 'arg':
            return frozenset([(('arg', v.id), ())]) if is_ptr(v.ty) else frozenset()
        if op == 'alloca':
            return frozenset([(('alloca', v.id), ())])
        if op == 'getelementptr':
            st = self._gep_steps(v.path)
            return frozenset((r, (p + st)[:MAXPATH]) for r, p in self.pts(v.ops[0]))
        if op in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint', 'freeze'):
            return self.pts(v.ops[0])
        if op in ('add', 'sub', 'and', 'or') and v.ty == 'i64':
            # pointer arithmetic through integers
            r = frozenset()
            for x in v.ops:
                if isinstance(x, int):
                    w = self.f.vals.get(x)
                    if w is not None and w.op in ('ptrtoint', 'add', 'sub', 'and', 'or', 'phi', 'select'):
                        r |= self.pts(x)
            return r
        if op == 'phi':
            if not (is_ptr(v.ty) or v.ty == 'i64'):
                return frozenset()
            r = frozenset()
            for x, _ in v.inc:
                r |= self.pts(x)
            return r
        if op == 'select':
            if not (is_ptr(v.ty) or v.ty == 'i64'):
                return frozenset()
            return self.pts(v.ops[1]) | self.pts(v.ops[2])
        if op == 'load':
            if not is_ptr(v.ty):
                return frozenset()
            r = set()
            for loc in self.access(v.ops[0]):
                r |= self.deref(loc)
            return frozenset(r)
        if op == 'extractvalue' or op == 'insertvalue':
            return frozenset()
        if op == 'call':
            if not is_ptr(v.ty):
                return frozenset()
            return self.an.call_result(self, v)
        return frozenset()

    def deref(self, loc):
        """locations pointed to by the pointer stored at loc"""
        root, path = loc
        r = set()
        if root[0] != 'alloca' or not self.stores.get(loc):
            if len(path) < MAXPATH:
                r.add((root, path + ('*',)))
            else:
                r.add((root, path))
        r |= self.stores.get(loc, set())
        return r

    # typing ---------------------------------------------------------------
    def root_type(self, root):
        """type id or struct name of the memory the root points to"""
        m, f = self.m, self.f
        if root[0] == 'arg':
            if f.args[root[1]].sret:
                return m.ret_type(f)
            t = m.arg_type(f, root[1])
            if f.args[root[1]].byval and t >= 0:
                return t
            rn = m.pointee(t)
            if rn is not None and m.strip(rn) >= 0:
                return rn
        elif root[0] == 'glob':
            g = m.globals.get(root[1])
            if g and g.get('ditype', -1) >= 0:
                return g['ditype']
            return None
        elif root[0] == 'call':
            c = f.vals[root[1]]
            n = c.callee_name()
            g = m.funcs.get(n) if n else None
            if g is not None and g.ditypes:
                t = m.pointee(m.ret_type(g))
                if t is not None and m.strip(t) >= 0:
                    return t
            return self._hint(root[1])
        elif root[0] == 'alloca':
            v = f.vals[root[1]]
            t = v.aty or ''
            if t.startswith('%'):
                return ir.norm_struct(t[1:].strip('"'))
            return self._hint(root[1])
        return None

    def _hint(self, vid):
        if vid not in self._hints:
            h = None
            st = [vid]
            seen = set()
            while st and h is None:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                for u in self.f.uses.get(x, ()):
                    if u.op == 'getelementptr' and u.ops[0] == x and u.path:
                        for s in u.path:
                            if s[0] == 'f':
                                h = s[1]
                                break
                        if h is None and (u.src or '').startswith('%'):
                            h = ir.norm_struct(u.src[1:].strip('"'))
                        if h:
                            break
                    if u.op in ('phi', 'bitcast'):
                        st.append(u.id)
            self._hints[vid] = h
        return self._hints[vid]

    def loc_type(self, loc):
        root, path = loc
        m = self.m
        t = self.root_type(root)
        for s in path:
            if s == '*':
                if isinstance(t, str) or t is None:
                    return None
                t = self._noarr(t)
                t = m.pointee(t)
            else:
                S, fn = s.split('.', 1) if not s.startswith('anon') else s.rsplit('.', 1)
                ft = m.field_type(S, fn)
                t = ft if ft >= 0 else None
        return t

    def _noarr(self, t):
        m = self.m
        t = m.strip(t)
        while t is not None and t >= 0 and m.types[t]['tag'] == 'DW_TAG_array_type':
            t = m.strip(m.types[t].get('base', -1))
        return t

    def loc_struct(self, loc):
        t = self.loc_type(loc)
        if isinstance(t, str):
            return t
        if t is None:
            return None
        t = self._noarr(t)
        if t is None or t < 0:
            return None
        ty = self.m.types[t]
        if ty['tag'] == 'DW_TAG_structure_type':
            return ty.get('name') or self.m._anon_name(t)
        return None

    def access(self, o):
        """locations accessed by a scalar load/store through pointer operand o
        (first member made explicit)"""
        out = set()
        for loc in self.pts(o):
            out.add(self.first_member(loc))
        return out

    def canon(self, loc):
        """insert the first-member steps a cast pointer skipped"""
        root, path = loc
        out = ()
        for s in path:
            if s != '*':
                S = s.split('.', 1)[0] if not s.startswith('anon') else s.rsplit('.', 1)[0]
                for _ in range(3):
                    cur = self.loc_struct((root, out))
                    if cur is None or cur == S:
                        break
                    st = self.m.structs.get(cur)
                    if not st or not st['fields']:
                        break
                    out += (cur + '.' + self.m.field_name(cur, 0),)
            out += (s,)
        return (root, out)

    def first_member(self, loc):
        for _ in range(4):
            S = self.loc_struct(loc)
            if S and self.m.structs.get(S) and self.m.structs[S]['fields']:
                loc = (loc[0], loc[1] + (S + '.' + self.m.field_name(S, 0),))
            else:
                break
        return loc


class Summary:
    __slots__ = ('reads', 'writes', 'frees', 'ret', 'fresh', 'argstores', 'calls_unknown')

    def __init__(self):
        self.reads, self.writes, self.frees = {}, {}, {}
        self.ret = set()          # locations (arg/glob rooted) that may be returned
        self.fresh = False        # may return newly allocated memory
        self.argstores = set()    # (dest loc, src loc | 'fresh'): pointer stores visible to the caller
        self.calls_unknown = set()


class Analysis:
    """whole-module summaries"""

    def __init__(self, mod, extra=()):
        self.m = mod
        self.extra = extra            # other Analysis objects resolving external names (library for MEX units)
        self.info = {f.name: FnInfo(self, f) for f in mod.defined()}
        self.sum = {f.name: Summary() for f in mod.defined()}
        self._taken = None
        self._indirect = {}
        self.run()

    # indirect calls -------------------------------------------------------
    def taken(self):
        if self._taken is None:
            t = set()
            for f in self.m.defined():
                for i in f.instrs:
                    for o in (i.ops + ([x[0] for x in i.inc] if i.inc else [])):
                        for g in _globs(o):
                            if g in self.m.funcs:
                                t.add(g)
            for g in self.m.globals.values():
                if g.get('init'):
                    for n in _globs(g['init']):
                        if n in self.m.funcs:
                            t.add(n)
            self._taken = t
        return self._taken

    def targets(self, f, i):
        """possible callee names of a call (list); None entry = unknown"""
        n = i.callee_name()
        if n:
            return [n]
        if not isinstance(i.callee, int):
            return []
        key = (f.name, i.id)
        if key not in self._indirect:
            # signature match: argument type list and return type
            sig = [a for a in (i.aty or [])]
            out = []
            for t in sorted(self.taken()):
                g = self.m.funcs[t]
                if g.vararg or g.decl:
                    continue
                if [a.ty for a in g.args] == sig and (g.ret == (i.ty or 'void')):
                    out.append(t)
            self._indirect[key] = out
        return self._indirect[key]

    def summary(self, name):
        s = self.sum.get(name)
        if s is not None:
            return s
        for e in self.extra:
            s = e.sum.get(name)
            if s is not None:
                return s
        return None

    # call results ---------------------------------------------------------
    def call_result(self, fi, c):
        out = set()
        me = ('call', c.id)
        for n in self.targets(fi.f, c) or [None]:
            if n is None:
                out.add((me, ()))
                continue
            if n in ('vl_get_state', 'vl_get_thread_specific_state', 'vl_get_rand', 'pthread_getspecific'):
                out.add((('glob', '<%s>' % n), ()))
                continue
            if n in ALLOC or n in MX_FRESH or n == 'fopen':
                out.add((me, ()))
                continue
            if n in REALLOC:
                out.add((me, ()))
                continue
            e = EXT.get(n)
            if e is not None:
                if 'ret' in e:
                    for r, p in fi.pts(c.ops[e['ret']]):
                        out.add((r, p + ('*',) if n.startswith('mxGet') and len(p) < MAXPATH else p))
                else:
                    out.add((me, ()))
                continue
            s = self.summary(n)
            if s is None:
                out.add((me, ()))
                continue
            if s.fresh or not s.ret:
                out.add((me, ()))
            for loc in s.ret:
                out |= self.instantiate(fi, c, loc)
        return frozenset(out)

    def instantiate(self, fi, c, loc):
        """map a callee location to caller locations at call c"""
        root, path = loc
        if root[0] == 'glob':
            return {(root, path)}
        if root[0] != 'arg' or root[1] >= len(c.ops):
            return set()
        cur = set(fi.pts(c.ops[root[1]]))
        for s in path:
            nxt = set()
            for (r, p) in cur:
                if s == '*':
                    nxt |= fi.deref((r, p))
                else:
                    if p and p[-1] == s:      # recursion guard
                        nxt.add((r, p))
                    else:
                        nxt.add((r, (p + (s,))[:MAXPATH]))
            cur = nxt
            if len(cur) > 40:
                break
        return cur

    # fixpoint ---------------------------------------------------------------
    def run(self):
        order = self.bottom_up()
        for rnd in range(15):
            changed = False
            for f in order:
                if self.step(f):
                    changed = True
            if not changed:
                break
        self.rounds = rnd + 1

    def bottom_up(self):
        out, seen = [], set()
        for root in self.m.defined():
            st = [(root, None)]
            while st:
                f, it = st[-1]
                if it is None:
                    if f.name in seen:
                        st.pop()
                        continue
                    seen.add(f.name)
                    cs = []
                    for i in f.instrs:
                        if i.op == 'call':
                            for n in self.targets(f, i):
                                g = self.m.funcs.get(n)
                                if g is not None and not g.decl and n not in seen:
                                    cs.append(g)
                    it = iter(cs)
                    st[-1] = (f, it)
                for g in it:
                    if g.name not in seen:
                        st.append((g, None))
                        break
                else:
                    out.append(f)
                    st.pop()
        return out

    def step(self, f):
        fi = self.info[f.name]
        old = self.sum[f.name]
        s = self.sum[f.name] = Summary()
        fi.stores = defaultdict(set)
        before = self._step(f, fi, s) or True
        return (old.reads.keys(), old.writes.keys(), old.frees.keys(), old.ret, old.fresh, old.argstores) != \
            (s.reads.keys(), s.writes.keys(), s.frees.keys(), s.ret, s.fresh, s.argstores)

    def _step(self, f, fi, s):
        before = (len(s.reads), len(s.writes), len(s.frees), len(s.ret), s.fresh, len(s.argstores), sum(map(len, fi.stores.values())))
        for _ in range(6):
            fi.cache.clear()
            n0 = sum(map(len, fi.stores.values()))
            for i in f.instrs:
                if i.op == 'store' and is_ptr(i.sty):
                    vals = fi.pts(i.ops[0])
                    if vals:
                        for l in fi.access(i.ops[1]):
                            fi.stores[l] |= vals
                elif i.op == 'call':
                    self._call_stores(fi, i)
            if sum(map(len, fi.stores.values())) == n0:
                break
        vis = ('arg', 'glob')
        for i in f.instrs:
            if i.op == 'load':
                for l in fi.access(i.ops[0]):
                    if l[0][0] in vis:
                        s.reads.setdefault(l, i)
            elif i.op == 'store':
                for l in fi.access(i.ops[1]):
                    if l[0][0] in vis:
                        s.writes.setdefault(l, i)
                if is_ptr(i.sty):
                    for src in self._store_srcs(fi, i.ops[0]):
                        for l in fi.access(i.ops[1]):
                            if l[0][0] in vis:
                                s.argstores.add((l, src))
            elif i.op in ('atomicrmw', 'cmpxchg'):
                for l in fi.access(i.ops[0]):
                    if l[0][0] in vis:
                        s.writes.setdefault(l, i)
                        s.reads.setdefault(l, i)
            elif i.op == 'call':
                r, w, fr, st = self.call_effects(fi, i)
                for l in r:
                    if l[0][0] in vis:
                        s.reads.setdefault(l, i)
                for l in w:
                    if l[0][0] in vis:
                        s.writes.setdefault(l, i)
                for l in fr:
                    if l[0][0] in vis:
                        s.frees.setdefault(l, i)
                for d, x in st:
                    if d[0][0] in vis:
                        s.argstores.add((d, x))
            elif i.op == 'ret' and i.ops:
                o = i.ops[0]
                for src in self._store_srcs(fi, o):
                    if src == 'fresh':
                        s.fresh = True
                    else:
                        s.ret.add(src)
        after = (len(s.reads), len(s.writes), len(s.frees), len(s.ret), s.fresh, len(s.argstores), sum(map(len, fi.stores.values())))
        return before != after

    def _store_srcs(self, fi, o):
        out = set()
        for (r, p) in fi.pts(o):
            if r[0] in ('arg', 'glob'):
                out.add((r, p))
            elif r[0] == 'call':
                out.add('fresh')
        return out

    def _call_stores(self, fi, c):
        for n in self.targets(fi.f, c):
            if n in ALLOC or n in FREE or n in REALLOC or n in EXT:
                continue
            s = self.summary(n)
            if s is None:
                continue
            for d, src in s.argstores:
                if d[0][0] != 'arg':
                    continue
                for l in self.instantiate(fi, c, d):
                    if src == 'fresh':
                        fi.stores[l].add((('call', c.id), ('out%d' % d[0][1],) if False else ()))
                    else:
                        fi.stores[l] |= self.instantiate(fi, c, src)

    def call_effects(self, fi, c):
        """(reads, writes, frees, pointer stores) in caller locations"""
        R, W, Fr, St = set(), set(), set(), set()
        for n in self.targets(fi.f, c):
            if n in ALLOC:
                continue
            if n in FREE:
                Fr |= set(fi.pts(c.ops[0]))
                continue
            if n in REALLOC:
                Fr |= set(fi.pts(c.ops[0]))
                continue
            e = EXT.get(n)
            if e is not None:
                for k in e.get('r', ()):
                    if k < len(c.ops):
                        R |= set(fi.pts(c.ops[k]))
                for k in e.get('w', ()):
                    if k < len(c.ops):
                        W |= set(fi.pts(c.ops[k]))
                if e.get('rest'):
                    top = max(e.get('w', []) + e.get('r', []))
                    for k in range(top + 1, len(c.ops)):
                        (W if e['rest'] == 'w' else R).update(fi.pts(c.ops[k]))
                continue
            s = self.summary(n)
            if s is None:
                continue
            for l in s.reads:
                R |= self.instantiate(fi, c, l)
            for l in s.writes:
                W |= self.instantiate(fi, c, l)
            for l in s.frees:
                Fr |= self.instantiate(fi, c, l)
            for d, src in s.argstores:
                for l in self.instantiate(fi, c, d):
                    if src == 'fresh':
                        St.add((l, 'fresh'))
                    else:
                        for x in self.instantiate(fi, c, src):
                            if x[0][0] in ('arg', 'glob'):
                                St.add((l, x))
                            elif x[0][0] == 'call':
                                St.add((l, 'fresh'))
        return R, W, Fr, St


def _globs(o):
    if isinstance(o, list):
        if o and o[0] == 'g':
            yield o[1]
        elif o and o[0] == 'agg':
            for x in o[2:]:
                yield from _globs(x)
    elif isinstance(o, dict):
        for x in o.get('ops', []):
            yield from _globs(x)


_cache = {}


def lib_analysis():
    if 'lib' not in _cache:
        _cache['lib'] = Analysis(ir.lib())
    return _cache['lib']


def libi_analysis():
    if 'libi' not in _cache:
        _cache['libi'] = Analysis(ir.libi())
    return _cache['libi']


def fmt(loc):
    root, path = loc
    s = {'arg': 'arg%s', 'glob': '%s', 'call': 'new#%s', 'alloca': 'local#%s'}.get(root[0], '%s') % (root[1] if len(root) > 1 else '?')
    for p in path:
        s = '(*%s)' % s if p == '*' else s + '.' + p
    return s
