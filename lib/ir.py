"""In-memory model of the exported program: functions, CFG, dominators, loops,
types, debug names, call graph."""
import re
from collections import defaultdict
import build

_sfx = re.compile(r'\.\d+$')


def norm_struct(n):
    if n.startswith('struct.') or n.startswith('union.'):
        n = n.split('.', 1)[1]
    if n.startswith('anon'):
        return n
    return _sfx.sub('', n)


def norm_const(o):
    if isinstance(o, dict):
        for p in o.get('path') or ():
            if p[0] == 'f':
                p[1] = norm_struct(p[1])
        for x in o.get('ops') or ():
            norm_const(x)


class Instr:
    __slots__ = ('fn', 'id', 'op', 'ty', 'ln', 'fl', 'inl', 'ops', 'pred', 'block', 'idx', 'path', 'src', 'ssz', 'inc',
                 'cond', 'succ', 'default', 'cases', 'callee', 'aty', 'asz', 'from_', 'sty', 'mask', 'xi', 'noreturn', 'al')

    def __init__(self, fn, d, block, idx):
        self.fn = fn
        self.id = d['id']
        self.op = d['op']
        self.ty = d.get('ty')
        self.ln = d.get('ln', 0)
        self.fl = d.get('fl')
        self.inl = d.get('inl')
        self.ops = d.get('ops', [])
        for o in self.ops:
            if isinstance(o, dict):
                norm_const(o)
        self.pred = d.get('pred')
        self.block = block
        self.idx = idx
        self.path = d.get('path')
        if self.path:
            for p in self.path:
                if p[0] == 'f':
                    p[1] = norm_struct(p[1])
        self.src = d.get('src')
        self.ssz = d.get('ssz')
        self.inc = d.get('inc')
        self.cond = d.get('cond')
        self.succ = d.get('succ')
        self.default = d.get('default')
        self.cases = d.get('cases')
        self.callee = d.get('callee')
        self.aty = d.get('aty')
        self.asz = d.get('asz')
        self.from_ = d.get('from')
        self.sty = d.get('sty')
        self.mask = d.get('mask')
        self.xi = d.get('xi')
        self.al = d.get('al')
        self.noreturn = d.get('noreturn', False)

    @property
    def file(self):
        return self.fl or self.fn.file

    def loc(self):
        f = self.file or '?'
        return '%s:%d' % (relfile(f), self.ln or 0)

    def callee_name(self):
        c = self.callee
        if isinstance(c, list) and c and c[0] == 'g':
            return c[1]
        return None

    def all_ops(self):
        """every operand (raw encodings)"""
        r = list(self.ops)
        if self.inc:
            r += [x[0] for x in self.inc]
        if self.cond is not None:
            r.append(self.cond)
        if self.callee is not None:
            r.append(self.callee)
        return r

    def __repr__(self):
        return '<%s #%d %s %s>' % (self.fn.name, self.id, self.op, self.loc())


def relfile(f):
    if f.startswith(build.REPO + '/'):
        return f[len(build.REPO) + 1:]
    return f[2:] if f.startswith('./') else f


class Arg:
    __slots__ = ('fn', 'id', 'ty', 'name', 'op', 'byval', 'dino', 'sret')

    def __init__(self, fn, i, d):
        self.fn, self.id, self.ty, self.name, self.op = fn, i, d['type'], d.get('name'), 'arg'
        self.byval = d.get('byval')
        self.dino = d.get('dino')
        self.sret = d.get('sret', False)

    def __repr__(self):
        return '<%s arg%d %s>' % (self.fn.name, self.id, self.name)


class Func:
    def __init__(self, mod, d):
        self.mod = mod
        self.name = d['name']
        self.decl = d['decl']
        self.internal = d['internal']
        self.hidden = d['hidden']
        self.vararg = d['vararg']
        self.ret = d['ret']
        self.feat = d.get('feat', '')
        self.src = d.get('dname') or self.name
        self.file = relfile(d.get('file') or '')
        self.line = d.get('line', 0)
        self.ditypes = d.get('ditypes')
        self.noreturn = d.get('noreturn')
        self.args = [Arg(self, i, a) for i, a in enumerate(d['args'])]
        self.vnames = {int(k): v for k, v in d['vnames'].items()}
        self.blocks = []
        self.vals = {a.id: a for a in self.args}
        self.instrs = []
        if not self.decl:
            for bi, b in enumerate(d['blocks']):
                bl = []
                for ii, x in enumerate(b):
                    i = Instr(self, x, bi, ii)
                    bl.append(i)
                    self.vals[i.id] = i
                self.blocks.append(bl)
            self._cfg()
        self._uses = None
        self._dom = None
        self._pdom = None
        self._loops = None
        self._reach = None
        self._idom = None

    # -- CFG ---------------------------------------------------------------
    def _cfg(self):
        n = len(self.blocks)
        succ = []
        for b in self.blocks:
            t = b[-1]
            if t.op == 'br':
                s = list(t.succ)
            elif t.op == 'switch':
                s = [t.default] + [c[1] for c in t.cases]
            else:
                s = []
            # calls to noreturn functions end the block
            if any(i.op == 'call' and i.noreturn for i in b):
                s = []
            succ.append(list(dict.fromkeys(s)))
        live = set()
        st = [0]
        while st:
            x = st.pop()
            if x in live:
                continue
            live.add(x)
            st.extend(succ[x])
        self.live = live
        self.succ = [succ[i] if i in live else [] for i in range(n)]
        self.pred = [[] for _ in range(n)]
        for i in live:
            for s in self.succ[i]:
                self.pred[s].append(i)
        for i in range(n):
            if i in live:
                for x in self.blocks[i]:
                    self.instrs.append(x)
        for x in self.instrs:
            if x.op == 'phi':
                x.inc = [p for p in x.inc if p[1] in live and x.block in self.succ[p[1]]]
        self.rets = [b[-1] for i, b in enumerate(self.blocks) if i in live and b[-1].op == 'ret'
                     and not any(x.op == 'call' and x.noreturn for x in b)]

    def rpo(self):
        seen, out = set(), []

        def go(s):
            st = [(s, iter(self.succ[s]))]
            seen.add(s)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(self.succ[y])))
                        break
                else:
                    out.append(x)
                    st.pop()
        go(0)
        return out[::-1]

    @property
    def idom(self):
        if self._idom is None:
            order = self.rpo()
            num = {b: i for i, b in enumerate(order)}
            idom = {0: 0}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    ps = [p for p in self.pred[b] if p in idom]
                    n = ps[0]
                    for p in ps[1:]:
                        a = p
                        while a != n:
                            while num[a] > num[n]:
                                a = idom[a]
                            while num[n] > num[a]:
                                n = idom[n]
                    if idom.get(b) != n:
                        idom[b] = n
                        ch = True
            self._idom = idom
        return self._idom

    def dominates(self, a, b):
        """block a dominates block b"""
        d = self.idom
        if b not in d or a not in d:
            return False
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = d[b]

    def idominates(self, x, y):
        """instruction x dominates instruction y"""
        if x.block == y.block:
            return x.idx < y.idx
        return self.dominates(x.block, y.block)

    @property
    def pdom(self):
        """block -> set of post-dominators (over blocks that reach an exit)"""
        if self._pdom is None:
            exits = [b for b in self.live if not self.succ[b]]
            allb = set(self.live)
            pd = {b: ({b} if b in exits else set(allb)) for b in self.live}
            order = self.rpo()[::-1]
            ch = True
            while ch:
                ch = False
                for b in order:
                    if self.succ[b]:
                        n = set.intersection(*[pd[s] for s in self.succ[b]]) | {b}
                        if n != pd[b]:
                            pd[b] = n
                            ch = True
            self._pdom = pd
        return self._pdom

    def control_deps(self, b):
        """set of (branch block, successor) pairs on which block b is directly control dependent"""
        out = set()
        for p in self.live:
            if len(self.succ[p]) > 1:
                for s in self.succ[p]:
                    if b in self.pdom[s] and not (b in self.pdom[p] and b != p):
                        out.add((p, s))
        return out

    def reach(self, b, avoid=()):
        seen, st = set(), [b]
        while st:
            x = st.pop()
            if x in seen or x in avoid:
                continue
            seen.add(x)
            st.extend(self.succ[x])
        return seen

    @property
    def loops(self):
        """header -> set of blocks (natural loops, merged per header)"""
        if self._loops is None:
            L = {}
            for b in self.live:
                for s in self.succ[b]:
                    if self.dominates(s, b):
                        body = L.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x)
                                st.extend(self.pred[x])
            self._loops = L
        return self._loops

    def loops_of(self, b):
        """headers of loops containing b, innermost first"""
        return [h for h, body in sorted(self.loops.items(), key=lambda kv: len(kv[1])) if b in body]

    @property
    def uses(self):
        if self._uses is None:
            u = defaultdict(list)
            for i in self.instrs:
                for o in i.all_ops():
                    for r in op_refs(o):
                        u[r].append(i)
                if i.path and i.op != 'getelementptr':
                    pass
            self._uses = u
        return self._uses

    def val(self, o):
        """operand encoding -> Instr/Arg or None for constants"""
        if isinstance(o, int):
            return self.vals.get(o)
        return None

    def calls(self, name=None):
        for i in self.instrs:
            if i.op == 'call':
                c = i.callee_name()
                if name is None or c == name or (isinstance(name, (set, frozenset, tuple, list)) and c in name):
                    yield i

    def loc(self):
        return '%s:%d' % (self.file, self.line)

    def __repr__(self):
        return '<Func %s>' % self.name


def op_refs(o):
    if isinstance(o, int):
        yield o
    elif isinstance(o, dict):
        for x in o.get('ops', []):
            yield from op_refs(x)


def const_int(o):
    if isinstance(o, list) and o and o[0] == 'c':
        return int(o[2])
    return None


def const_fp(o):
    if isinstance(o, list) and o and o[0] == 'cf':
        return float(o[2])
    return None


def is_null(o):
    return isinstance(o, list) and o and o[0] == 'null'


class Module:
    def __init__(self, name, d):
        self.name = name
        self.types = d['ditypes']
        self.structs = {}
        for s in d['structs']:
            self.structs.setdefault(norm_struct(s['name']), s)
        self.globals = {g['name']: g for g in d['globals']}
        self.funcs = {}
        for f in d['functions']:
            F = Func(self, f)
            self.funcs[F.name] = F
        # struct name -> DI composite with members
        self.di = {}
        for t in self.types:
            if t.get('tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type') and t.get('elements'):
                if t.get('name'):
                    self.di.setdefault(t['name'], t)
        for t in self.types:
            if t.get('tag') == 'DW_TAG_typedef' and t.get('base', -1) >= 0:
                b = self.types[t['base']]
                if b.get('tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type') and b.get('elements') and not b.get('name'):
                    self.di.setdefault(t['name'], b)
        self._fname = {}
        self._ftype = {}
        self._callers = None

    def defined(self):
        return [f for f in self.funcs.values() if not f.decl]

    def F(self, name):
        f = self.funcs.get(name)
        return f if f is not None and not f.decl else None

    # -- types -------------------------------------------------------------
    def struct_members(self, sname):
        """list of (name, byteoff, bytesize, ditype) using debug info"""
        t = self.di.get(sname)
        if not t:
            return []
        return [(e['name'], e['off'] // 8, e['size'] // 8, e['type']) for e in t['elements'] if 'off' in e]

    def field_name(self, sname, idx):
        k = (sname, idx)
        if k not in self._fname:
            s = self.structs.get(sname)
            nm = '#%d' % idx
            if s and idx < len(s['fields']):
                off = s['fields'][idx]['off']
                for (n, o, sz, t) in self.struct_members(sname):
                    if o == off:
                        nm = n or nm
                        break
            self._fname[k] = nm
        return self._fname[k]

    def field_type(self, sname, fname):
        for (n, o, sz, t) in self.struct_members(sname):
            if n == fname:
                return t
        return -1

    def strip(self, tid, quals=True):
        """strip typedefs (and cv qualifiers)"""
        while tid is not None and tid >= 0:
            t = self.types[tid]
            if t['tag'] == 'DW_TAG_typedef' or (quals and t['tag'] in ('DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type')):
                tid = t.get('base', -1)
            else:
                return tid
        return -1

    def tstr(self, tid):
        if tid is None or tid < 0:
            return 'void'
        t = self.types[tid]
        g = t['tag']
        if g == 'DW_TAG_pointer_type':
            return self.tstr(t.get('base', -1)) + '*'
        if g == 'DW_TAG_const_type':
            return 'const ' + self.tstr(t.get('base', -1))
        if g in ('DW_TAG_volatile_type', 'DW_TAG_restrict_type'):
            return self.tstr(t.get('base', -1))
        if t.get('name'):
            return t['name']
        return g

    def is_pointer(self, tid):
        tid = self.strip(tid)
        return tid >= 0 and self.types[tid]['tag'] == 'DW_TAG_pointer_type'

    def pointee(self, tid):
        tid = self.strip(tid)
        if tid >= 0 and self.types[tid]['tag'] == 'DW_TAG_pointer_type':
            return self.types[tid].get('base', -1)
        return None

    def pointee_const(self, tid):
        """is this 'T const *' (looking through typedefs)?"""
        b = self.pointee(tid)
        while b is not None and b >= 0:
            t = self.types[b]
            if t['tag'] == 'DW_TAG_const_type':
                return True
            if t['tag'] in ('DW_TAG_typedef', 'DW_TAG_volatile_type'):
                b = t.get('base', -1)
            else:
                return False
        return False

    def record_name(self, tid):
        """name of the struct a type (or its pointee) denotes"""
        tid = self.strip(tid)
        if tid >= 0 and self.types[tid]['tag'] == 'DW_TAG_pointer_type':
            tid = self.strip(self.types[tid].get('base', -1))
        if tid >= 0 and self.types[tid]['tag'] in ('DW_TAG_structure_type', 'DW_TAG_union_type'):
            return self.types[tid].get('name') or self._anon_name(tid)
        return None

    def _anon_name(self, tid):
        for n, t in self.di.items():
            if t['id'] == tid:
                return n
        return None

    def arg_type(self, f, i):
        """DI type id of IR argument i (an sret slot has type 'pointer to result': -1)"""
        if not f.ditypes or i >= len(f.args):
            return -1
        a = f.args[i]
        if a.sret:
            return -1
        k = a.dino or (i + 1 - (1 if f.args and f.args[0].sret else 0))
        return f.ditypes[k] if k < len(f.ditypes) else -1

    def ret_type(self, f):
        return f.ditypes[0] if f.ditypes else -1

    def enum_members(self, name):
        for t in self.types:
            if t.get('tag') == 'DW_TAG_enumeration_type' and t.get('name') == name:
                return {e['name']: int(e['val']) for e in t['elements']}
        for t in self.types:
            if t.get('tag') == 'DW_TAG_typedef' and t.get('name') == name and t.get('base', -1) >= 0:
                b = self.types[t['base']]
                if b['tag'] == 'DW_TAG_enumeration_type':
                    return {e['name']: int(e['val']) for e in b['elements']}
        return None

    # -- globals / strings ---------------------------------------------------
    def cstring(self, o):
        """constant C string an operand points to, or None"""
        if isinstance(o, dict) and o.get('ce') == 'getelementptr':
            if all((p[0] == 'f' and p[2] == 0) or (p[0] == 'i' and const_int(p[1]) == 0) for p in o['path']):
                o = o['ops'][0]
        if isinstance(o, list) and o and o[0] == 'g':
            g = self.globals.get(o[1])
            if g and g.get('const') and g.get('init'):
                i = g['init']
                if i[0] == 's':
                    s = i[1]
                    return s.split('\0')[0]
                if i[0] == 'zero':
                    return ''
        return None

    @property
    def callers(self):
        if self._callers is None:
            c = defaultdict(list)
            for f in self.defined():
                for i in f.instrs:
                    if i.op == 'call':
                        n = i.callee_name()
                        if n:
                            c[n].append(i)
            self._callers = c
        return self._callers

    def is_public(self, f):
        return not f.internal and not f.hidden and not f.decl


_cache = {}


def load(view):
    if view not in _cache:
        _cache[view] = {k: Module(k, d) for k, d in build.load(view).items()}
    return _cache[view]


def lib():
    return load('lib')['lib']


def libi():
    return load('lib+i')['lib']


def libm():
    return load('lib+m')['lib']
