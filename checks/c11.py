"""C11: the library prints only through the registered function, only when asked to, and asking changes no result."""
import ir, effects, flow, api, report
from ir import const_int

RULE = ('every printing call in the library goes through the function registered with vl_set_printf_func; every path from a public function to a '
        'progress message crosses a branch that requires a positive verbosity; code reached only with a positive verbosity has no '
        'effect but printing and reading the clock, leaves no value behind and rejoins the quiet path')

RAW_OUT = {'printf', 'puts', 'putchar', 'putc', 'fprintf', 'vprintf', 'vfprintf', 'fputs', 'fputc', 'perror', '_IO_putc', 'write', 'fwrite'}
GETOPT = {'getopt_long'}
VERB = ('verbosity', 'verb')
QUIETSAFE = {'vl_get_cpu_time', 'vl_tic', 'vl_toc', 'vl_get_printf_func', 'clock', 'vl_get_state', 'vl_get_type_name'}
DIAG_ONLY = {'vl_set_last_error'}


def is_verb_loc(l):
    return bool(l[1]) and l[1][-1].rsplit('.', 1)[-1] in VERB


def is_print(f, i):
    if i.op != 'call' or i.callee_name():
        return False
    c = f.val(i.callee)
    return c is not None and c.op == 'call' and (c.callee_name() or '').endswith('vl_get_printf_func')


class V:
    def __init__(self, m, an):
        self.m, self.an = m, an
        self.vparam = self.verbosity_params()

    def verbosity_params(self):
        """(function, parameter) that only ever receive a verbosity"""
        out = set()
        for _ in range(3):
            for f in self.m.defined():
                if not f.file.startswith('vl/'):
                    continue
                for a in f.args:
                    if a.ty in ('i32', 'i8', 'i64', 'i1') and (f.name, a.id) not in out:
                        if f.internal:
                            sites = [(g, i) for g in self.m.defined() for i in g.calls(f.name)]
                            if sites and all(a.id < len(i.ops) and self.verb_value(g, i.ops[a.id], out) for g, i in sites):
                                out.add((f.name, a.id))
        return out

    def verb_value(self, f, o, vp=None):
        """value derived only from a verbosity (and constants)"""
        vp = self.vparam if vp is None else vp
        o = flow.strip_casts(f, o)
        v = f.val(o)
        if v is None:
            return False
        if v.op == 'arg':
            return (f.name, v.id) in vp
        if v.op == 'load':
            acc = self.an.info[f.name].access(v.ops[0])
            return bool(acc) and all(is_verb_loc(l) for l in acc)
        if v.op in ('sub', 'add'):
            return any(self.verb_value(f, x, vp) for x in v.ops if isinstance(x, int)) and all(const_int(x) is not None or self.verb_value(f, x, vp) for x in v.ops)
        if v.op == 'call':
            n = v.callee_name() or ''
            return n.endswith('_get_verbosity')
        if v.op == 'icmp' and not getattr(self, 'nest', False):
            self.nest = True
            save, self.vparam = self.vparam if hasattr(self, 'vparam') else set(), vp
            r = self.implies(f, v.id, True)
            self.vparam = save
            self.nest = False
            return r
        return False

    def implies(self, f, o, truth, depth=0):
        """condition o == truth can only hold when some verbosity is positive (non-zero)"""
        v = f.val(o)
        if v is None or depth > 8:
            return False
        if v.op == 'xor' and const_int(v.ops[1]) is not None:
            return self.implies(f, v.ops[0], not truth, depth + 1)
        if v.op in ('zext', 'sext', 'trunc', 'freeze'):
            return self.implies(f, v.ops[0], truth, depth + 1)
        if v.op in ('and', 'or'):
            if (v.op == 'and') == truth:
                return any(self.implies(f, x, truth, depth + 1) for x in v.ops)
            return all(self.implies(f, x, truth, depth + 1) for x in v.ops)
        if v.op == 'select':
            c, a, b = v.ops
            if truth and const_int(b) == 0:
                return self.implies(f, c, True, depth + 1) or self.implies(f, a, True, depth + 1)
            return False
        if v.op == 'phi':
            ok = []
            for x, p in v.inc:
                k = const_int(x)
                if k is not None and bool(k) != truth:
                    continue
                # value arrives over an edge that already needs verbosity, or implies it itself
                ok.append(self.implies(f, x, truth, depth + 1) if k is None else False)
            return bool(ok) and all(ok)
        if v.op == 'call':
            g = self.m.funcs.get(v.callee_name() or '')
            return g is not None and not g.decl and g.internal and len(g.rets) == 1 and bool(g.rets[0].ops) and self.implies(g, g.rets[0].ops[0], truth, depth + 1)
        if self.verb_value(f, o):
            return truth
        if v.op == 'icmp':
            a, b = v.ops
            pred = v.pred
            if self.verb_value(f, b) and not self.verb_value(f, a):
                a, b, pred = b, a, {'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge', 'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge'}.get(pred, pred)
            pred = pred.replace('ugt', 'sgt').replace('ult', 'slt').replace('uge', 'sge').replace('ule', 'sle')
            k = const_int(b)
            if not self.verb_value(f, a):
                if k == 0 and pred in ('ne', 'eq'):
                    return self.implies(f, a, (pred == 'ne') == truth, depth + 1)
                return False
            if k is None:
                return (pred in ('sgt', 'sge')) == truth and pred in ('sgt', 'sge', 'slt', 'sle')
            t = {('ne', 0): True, ('eq', 0): False}.get((pred, k))
            if t is not None:
                return t == truth
            if pred == 'sgt' and k >= 0 or pred == 'sge' and k >= 1:
                return truth
            if pred == 'slt' and k <= 1 or pred == 'sle' and k <= 0:
                return not truth
            if pred == 'eq' and k > 0:
                return truth
        return False

    def edges(self, f):
        out = set()
        for b in f.live:
            ce = flow.cond_edges(f, b)
            if not ce:
                t = f.blocks[b][-1]
                if t.op == 'switch' and self.verb_value(f, t.cond):
                    for c in t.cases:
                        if c[0] not in (0, '0'):
                            out.add((b, c[1]))
                continue
            c, t, e = ce
            if t == e:
                continue
            if self.implies(f, c, True):
                out.add((b, t))
            if self.implies(f, c, False):
                out.add((b, e))
        return out

    def quiet_blocks(self, f):
        """blocks reachable without crossing an edge that needs verbosity"""
        cut = self.edges(f)
        seen, st = set(), [0]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            st.extend(s for s in f.succ[b] if (b, s) not in cut)
        return seen


def run():
    m, an = ir.lib(), effects.lib_analysis()
    rep = report.Report('C11', RULE, 'guard-reachability over the call graph; effect and value-escape analysis of verbosity-only regions')
    V_ = V(m, an)
    quiet = {}
    fs = [f for f in m.defined() if f.file.startswith('vl/')]
    for f in fs:
        quiet[f.name] = V_.quiet_blocks(f)
    # functions that may be entered with verbosity zero: public, address taken, or called from a quiet block of such
    entered = {f.name for f in fs if m.is_public(f) or f.name in an.taken()}
    work = list(entered)
    via = {}
    while work:
        n = work.pop()
        f = m.funcs[n]
        for b in quiet[n]:
            for i in f.blocks[b]:
                if i.op == 'call':
                    c = i.callee_name()
                    if c in quiet and c not in entered:
                        entered.add(c)
                        via[c] = i
                        work.append(c)
    nprint = nregion = 0
    for f in fs:
        for i in f.instrs:
            if i.op != 'call':
                continue
            n = i.callee_name()
            if n in RAW_OUT and f.src not in GETOPT:
                fi = an.info[f.name]
                if n in ('fprintf', 'fputs', 'fputc', 'fwrite', 'vfprintf', 'putc', '_IO_putc'):
                    stream = i.ops[{'fprintf': 0, 'vfprintf': 0, 'fputs': 1, 'fputc': 1, 'fwrite': 3, 'putc': 1, '_IO_putc': 1}[n]]
                    sv = f.val(stream)
                    std = any(x[0][0] == 'glob' and x[0][1] in ('stdout', 'stderr') for x in (fi.pts(sv.ops[0]) if sv is not None and sv.op == 'load' else fi.pts(stream)))
                    if not std:
                        continue
                if n == 'write':
                    continue
                rep.bad('registered output only', '%s: %s' % (f.src, n), i.loc(), 'writes to the terminal with %s instead of the function registered with vl_set_printf_func' % n)
            if is_print(f, i):
                nprint += 1
                inst = '%s: message at line %s' % (f.src, i.ln)
                if f.name in entered and i.block in quiet[f.name]:
                    if not any(r.block in f.reach(i.block) for r in f.rets):
                        continue           # internal error: the program is about to be aborted
                    rep.bad('silent unless asked', inst, i.loc(), 'this message is printed even when the verbosity is zero', key='silent:%s:%s' % (f.src, fmt_of(m, f, i)))
                else:
                    rep.ok('silent unless asked', inst)
        nregion += regions(rep, V_, m, an, f, quiet[f.name])
        verbosity_uses(rep, V_, an, f)
    # registration
    T = api.table(m)
    S, G = T.get('vl_set_printf_func'), T.get('vl_get_printf_func')
    if S is not None and G is not None and len(S.args) == 1:
        rep.count('printf registration')
        vals = set()
        for i in S.instrs:
            if i.op == 'store' and effects.is_ptr(i.sty):
                vals.add(S.val(flow.strip_casts(S, i.ops[0])) is S.args[0] or (S.val(i.ops[0]) is not None and S.val(i.ops[0]).op in ('phi', 'select')))
        if vals and True in vals:
            rep.ok('printf registration', 'vl_set_printf_func')
        elif vals or not any(i.op == 'call' for i in S.instrs):
            rep.bad('printf registration', 'vl_set_printf_func', S.loc(), 'the parameter is not the function that gets registered')
    rep.floor('progress messages', nprint, 40)
    rep.floor('verbosity-only regions', nregion, 25)
    return rep


def fmt_of(m, f, i):
    o = i.ops[0] if i.ops else None
    if isinstance(o, list) and o and o[0] == 'g':
        g = m.globals.get(o[1])
        if g and g.get('init'):
            return str(g['init'])[:60]
    return 'line'


def regions(rep, V_, m, an, f, quiet):
    fi = an.info[f.name]
    loud = [b for b in f.live if b not in quiet]
    if not loud or not quiet:
        return 0
    n = 0
    cut = V_.edges(f)
    for b in loud:
        for i in f.blocks[b]:
            inst = '%s at line %s' % (f.src, i.ln)
            if i.op in ('store', 'atomicrmw', 'cmpxchg'):
                acc = fi.access(i.ops[1] if i.op == 'store' else i.ops[0])
                if not all(l[0][0] == 'alloca' for l in acc):
                    rep.bad('verbosity changes nothing', inst, i.loc(), 'memory is written only when the verbosity is positive (%s)' % ', '.join(map(effects.fmt, list(acc)[:2])),
                            key='region:%s:store' % f.src)
            elif i.op == 'call':
                c = i.callee_name()
                if is_print(f, i) or c in QUIETSAFE or (c or '').startswith('llvm.'):
                    continue
                s = an.summary(c) if c else None
                if s is not None:
                    r, w, fr, st = an.call_effects(fi, i)
                    w = [l for l in list(w) + list(fr) if l[0][0] != 'alloca' and not l[0][1:] == ('_vl_state',)]
                    if w:
                        rep.bad('verbosity changes nothing', inst, i.loc(), '%s is called only when the verbosity is positive and writes %s' % (c, effects.fmt(w[0])),
                                key='region:%s:%s' % (f.src, c))
    # values leaking out, and where the region rejoins
    for (b, s) in sorted(cut):
        if b not in quiet or s in quiet:
            continue
        n += 1
        reg = set()
        st = [s]
        while st:
            x = st.pop()
            if x in reg or x in quiet:
                continue
            reg.add(x)
            st.extend(f.succ[x])
        exits = {y for x in reg for y in f.succ[x] if y in quiet}
        other = [y for y in f.succ[b] if y != s]
        inst = '%s, branch at line %s' % (f.src, f.blocks[b][-1].ln)
        ends = [x for x in reg if not f.succ[x]]
        if ends and any(f.blocks[x][-1].op == 'ret' for x in ends):
            rep.bad('verbosity changes nothing', inst, f.blocks[b][-1].loc(), 'the function returns from code reached only with a positive verbosity', key='region:%s:ret' % f.src)
            continue
        o = other[0] if other else None
        skipped = skip_empty(f, o)
        if any(skip_empty(f, x) != skipped for x in exits):
            # the quiet side has code of its own: it must rejoin without effects
            js = {skip_empty(f, x) for x in exits}
            bad = quiet_side(f, fi, o, js, quiet) if len(js) == 1 else o
            if bad is not None:
                rep.bad('verbosity changes nothing', inst, f.blocks[b][-1].loc(), 'with a positive verbosity the code continues at line %s, otherwise at line %s' %
                        (next((i.ln for x in exits for i in f.blocks[x] if i.ln), '?'), next((i.ln for i in f.blocks[o] if i.ln), '?')), key='region:%s:flow' % f.src)
                continue
        # values
        leak = None
        for x in exits:
            for v in f.blocks[x]:
                if v.op != 'phi':
                    continue
                loud_in = [flow.strip_casts(f, y) for y, p in v.inc if p in reg]
                q_in = [flow.strip_casts(f, y) for y, p in v.inc if p not in reg]
                if any(y not in q_in for y in loud_in) and not harmless(V_, f, v, quiet):
                    leak = v
        if leak is not None:
            rep.bad('verbosity changes nothing', inst, f.blocks[b][-1].loc(), 'variable `%s` gets a different value when the verbosity is positive' % (f.vnames.get(leak.id) or '?'),
                    key='region:%s:value' % f.src)
        else:
            rep.ok('verbosity changes nothing', inst)
    return n


def skip_empty(f, b):
    for _ in range(6):
        if b is None:
            return None
        x = [i for i in f.blocks[b] if i.op != 'phi']
        if len(x) == 1 and x[0].op == 'br' and len(f.succ[b]) == 1 and not any(i.op == 'phi' for i in f.blocks[b]):
            b = f.succ[b][0]
        else:
            break
    return b


def quiet_side(f, fi, o, joins, quiet):
    """None when the quiet branch reaches the joins without effects"""
    seen, st = set(), [o]
    while st:
        x = st.pop()
        if x in seen or x in joins or skip_empty(f, x) in joins:
            continue
        seen.add(x)
        if len(seen) > 6:
            return x
        for i in f.blocks[x]:
            if i.op in ('store', 'call', 'ret'):
                return x
        st.extend(f.succ[x])
        if not f.succ[x]:
            return x
    return None


def harmless(V_, f, v, quiet):
    """the value only ever reaches printing code"""
    seen, st = set(), [v.id]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for u in f.uses.get(x, ()):
            if u.block not in quiet:
                continue
            if u.op in ('phi', 'select', 'fadd', 'fsub', 'add', 'sub', 'fmul', 'fdiv', 'mul') or u.op in flow.CASTS:
                st.append(u.id)
            elif is_print(f, u):
                continue
            elif u.op == 'icmp' and all(w.op == 'br' and not any(quiet_effect for quiet_effect in [1]) for w in f.uses.get(u.id, ())):
                return False
            else:
                return False
    return True


def verbosity_uses(rep, V_, an, f):
    fi = an.info[f.name]
    for i in f.instrs:
        if i.op != 'load':
            continue
        acc = fi.access(i.ops[0])
        if not acc or not all(is_verb_loc(l) for l in acc):
            continue
        bad = None
        seen, st = set(), [i.id]
        while st and bad is None:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for u in f.uses.get(x, ()):
                if u.op in ('add', 'sub') or u.op in flow.CASTS or u.op == 'phi':
                    st.append(u.id)
                elif u.op == 'icmp':
                    for w in closure_conds(f, u):
                        if w.op in ('br', 'switch'):
                            pass
                        elif w.op == 'ret' and f.internal:
                            pass
                        elif w.op == 'call' and any((w.callee_name(), j) in V_.vparam for j in range(len(w.ops))):
                            pass
                        else:
                            bad = w
                    t = [w for w in closure_conds(f, u) if w.op == 'br' and w.cond is not None]
                    for w in t:
                        if not (V_.implies(f, w.cond, True) or V_.implies(f, w.cond, False)):
                            bad = w
                elif u.op == 'store':
                    if not all(is_verb_loc(l) or l[0][0] == 'alloca' for l in fi.access(u.ops[1])):
                        bad = u
                elif u.op == 'ret':
                    if 'verb' not in f.src and not f.internal:
                        bad = u
                elif u.op == 'call':
                    n = u.callee_name() or ''
                    if is_print(f, u) or n.endswith('_set_verbosity'):
                        continue
                    k = [j for j, o in enumerate(u.ops) if o == x]
                    if all((n, j) in V_.vparam for j in k):
                        continue
                    bad = u
                elif u.op == 'switch':
                    pass
                else:
                    bad = u
        inst = '%s: verbosity read at line %s' % (f.src, i.ln)
        if bad is not None:
            rep.bad('verbosity only controls messages', inst, bad.loc(), 'the verbosity is used for something other than deciding whether to print (%s)' % bad.op,
                    key='use:%s:%s' % (f.src, bad.op))
        else:
            rep.ok('verbosity only controls messages', inst)


def closure_conds(f, u):
    """final users of a condition through boolean operations"""
    out, seen, st = [], set(), [u.id]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for w in f.uses.get(x, ()):
            if w.op in ('and', 'or', 'xor', 'zext', 'sext', 'trunc', 'select', 'phi', 'icmp', 'freeze'):
                st.append(w.id)
            else:
                out.append(w)
    return out
