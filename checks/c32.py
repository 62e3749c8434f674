"""C32: the SVM losses, their derivatives, conjugates and coordinate updates, and the update laws of the solvers, equal their definitions."""
import copy
import ir, alg, report, flow
from ir import const_int, is_null
from alg import C, A, add, sub, mul, scale, NOT, eq0, gt0, ge0, sel, fn, inv, maxv, minv, absv, same, is_zero
from checks import c14

RULE = ('algebraic identity (piecewise normal forms over the reals) of every loss, derivative, conjugate and coordinate-ascent step with its definition; of the arguments of every callback and of every update '
        'of alpha, model, bias and statistics in the solvers with the algorithm; vl_svm_set_loss installs the four functions of the requested loss')

INF = 'inf'


# ------------------------------------------------------------------ scalar functions
def specs():
    """name -> (arity, function(args, label) -> poly, labels, kinks(args,label) -> list of polys where any value is right)"""
    def lse(w):
        return fn('log', add(C(1), fn('exp', w)))

    def xlogx(x):
        return mul(gt0(x), mul(x, fn('log', x)))
    inf = A('inf')
    T = {}
    pm = (1, -1)
    z = lambda a, y: scale(a[0], y)
    T['vl_svm_hinge_loss'] = (lambda a, y: maxv(sub(C(1), z(a, y)), {}), pm, None)
    T['vl_svm_hinge2_loss'] = (lambda a, y: mul(maxv(sub(C(1), z(a, y)), {}), maxv(sub(C(1), z(a, y)), {})), pm, None)
    T['vl_svm_l1_loss'] = (lambda a, y: absv(sub(y, a[0])), None, None)
    T['vl_svm_l2_loss'] = (lambda a, y: mul(sub(y, a[0]), sub(y, a[0])), None, None)
    T['vl_svm_logistic_loss'] = (lambda a, y: lse(scale(a[0], -y)), pm, None)
    T['vl_svm_hinge_loss_derivative'] = (lambda a, y: mul(gt0(sub(C(1), z(a, y))), C(-y)), pm, lambda a, y: [sub(C(1), z(a, y))])
    T['vl_svm_hinge2_loss_derivative'] = (lambda a, y: mul(gt0(sub(C(1), z(a, y))), scale(sub(C(1), z(a, y)), -2 * y)), pm, None)
    T['vl_svm_l1_loss_derivative'] = (lambda a, y: sub(gt0(sub(a[0], y)), gt0(sub(y, a[0]))), None, lambda a, y: [sub(a[0], y)])
    T['vl_svm_l2_loss_derivative'] = (lambda a, y: scale(sub(a[0], y), 2), None, None)
    T['vl_svm_logistic_loss_derivative'] = (lambda a, y: scale(inv(add(C(1), fn('exp', z(a, y)))), -y), pm, None)
    band = lambda a, y: mul(ge0(add(z(a, y), C(1))), ge0(scale(z(a, y), -1)))
    T['vl_svm_hinge_conjugate_loss'] = (lambda a, y: sel(band(a, y), z(a, y), inf), pm, None)
    T['vl_svm_hinge2_conjugate_loss'] = (lambda a, y: sel(ge0(scale(z(a, y), -1)), add(z(a, y), scale(mul(a[0], a[0]), alg.Fraction(1, 4))), inf), pm, None)
    T['vl_svm_l1_conjugate_loss'] = (lambda a, y: sel(ge0(sub(C(1), absv(a[0]))), mul(y, a[0]), inf), None, None)
    T['vl_svm_l2_conjugate_loss'] = (lambda a, y: add(mul(y, a[0]), scale(mul(a[0], a[0]), alg.Fraction(1, 4))), None, None)
    T['vl_svm_logistic_conjugate_loss'] = (lambda a, y: sel(band(a, y), add(xlogx(scale(z(a, y), -1)), xlogx(add(C(1), z(a, y)))), inf), pm, None)
    # args: alpha, inner, norm2
    half = alg.Fraction(1, 2)

    def st(a, y):
        return add(mul(sub(y, a[1]), inv(a[2])), a[0])

    def st2(a, y):
        return add(mul(sub(sub(y, a[1]), scale(a[0], half)), inv(add(a[2], C(half)))), a[0])
    T['vl_svm_hinge_dca_update'] = (lambda a, y: sub(scale(maxv({}, minv(C(1), scale(st(a, C(y)), y))), y), a[0]), pm, None)
    T['vl_svm_hinge2_dca_update'] = (lambda a, y: sub(scale(maxv({}, scale(st2(a, C(y)), y)), y), a[0]), pm, None)
    T['vl_svm_l1_dca_update'] = (lambda a, y: sel(ge0(sub(C(1), absv(a[0]))), sub(maxv(C(-1), minv(C(1), st(a, y))), a[0]), inf), None, None)
    T['vl_svm_l2_dca_update'] = (lambda a, y: sub(st2(a, y), a[0]), None, None)
    return T


def snap(p):
    """thresholds within 1e-6 of an integer are guards against a singularity: compared as that integer"""
    def f(a):
        if a[0] in alg.BOOL:
            q = alg.rebuild(alg.thaw(a[1]), f)
            c = q.get(alg.ONE)
            if c is not None:
                r = round(c)
                if abs(c - r) < alg.Fraction(1, 10**6) and c != r:
                    q = dict(q)
                    q.pop(alg.ONE)
                    q = add(q, C(r))
            return eq0(q) if a[0] == 'eq0' else gt0(q)
        return None
    return alg.rebuild(p, f)


def normlog(p):
    """log(1 + e^w) and 1/(1 + e^w) with the leading coefficient of w positive; infinities unified"""
    def f(a):
        if a == ('fpconst', 'Infinity') or a[0] == 'fpconst' and str(a[1]).lower().startswith('inf'):
            return A('inf')
        if a[0] == 'fn' and a[1] in ('log', 'log1p'):
            x = alg.rebuild(alg.thaw(a[2]), f)
            if a[1] == 'log1p':
                x = add(x, C(1))
            w = expone(x)
            if w is not None and w and alg.lead(w) < 0:
                return add(w, fn('log', add(C(1), fn('exp', scale(w, -1)))))
            return fn('log', x)
        if a[0] == 'inv':
            x = alg.rebuild(alg.thaw(a[1]), f)
            w = expone(x)
            if w is not None and w and alg.lead(w) < 0:
                return sub(C(1), inv(add(C(1), fn('exp', scale(w, -1)))))
            return inv(x)
        return None
    return alg.rebuild(p, f)


def expone(x):
    """w if x = 1 + exp(w)"""
    r = sub(x, C(1))
    if len(r) == 1:
        (m, c), = r.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'fn' and m[0][0][1] == 'exp':
            return alg.thaw(m[0][0][2])
    return None


def infs(p):
    """1/0-like constants: infinity as an atom; FP constants of the IR are hexadecimal"""
    return p


def scalar(rep, m):
    for name, (spec, labels, kinks) in specs().items():
        f = m.F(name)
        if f is None:
            rep.skip('loss formula', name, 'not defined')
            continue
        if len(f.rets) != 1:
            rep.skip('loss formula', name, 'several returns')
            continue
        dca = name.endswith('dca_update')
        for y in labels or (None,):
            yy = A('arg', 9) if y is None else C(y)
            ly = 3 if dca else 1
            sb = {f.args[ly].id: [yy]}
            E = SvmEval(f, subst=sb)
            try:
                got = E.one(f.rets[0].ops[0])
                a = [A('arg', f.args[k].id) for k in range(3 if dca else 1)]
                want = spec(a, yy if y is None else y)
                got, want = normlog(snap(got)), normlog(snap(want))
                d = sub(got, want)
                for k in (kinks(a, yy if y is None else y) if kinks else ()):
                    d = mul(d, NOT(eq0(k)))
                good = is_zero(d)
            except alg.Unknown as e:
                rep.skip('loss formula', name, str(e))
                break
            if has_opaque(got):
                rep.skip('loss formula', name, 'opaque value')
                break
            rep.check('loss formula', '%s label %s' % (name, y if y is not None else 'any'), good, f.loc(),
                      '%s computes %s, not %s' % (name, alg.show(got)[:160], alg.show(want)[:160]), key='loss:' + name)
            if name == 'vl_svm_logistic_loss':
                stable(rep, f, E, got, a[0])


def has_opaque(p):
    bad = [False]

    def f(a):
        if a[0] in ('v', 'undef'):
            bad[0] = True
        return None
    alg.rebuild(p, f)
    return bad[0]


def stable(rep, f, E, got, z):
    """every exponential inside a logarithm has a non-positive argument where it is used"""
    raw = E.one(f.rets[0].ops[0])
    for mono in raw:
        for a, k in mono:
            if a[0] == 'fn' and a[1] in ('log', 'log1p'):
                for b in alg.atoms(alg.thaw(a[2])):
                    if b[0] == 'fn' and b[1] == 'exp':
                        w = alg.thaw(b[2])
                        # coefficient of log(...) must vanish where w > 0
                        co = {}
                        for m2, c in raw.items():
                            if dict(m2).get(a, 0) == 1:
                                co = add(co, {tuple(x for x in m2 if x[0] != a): c})
                        rep.check('no overflow', 'vl_svm_logistic_loss: exp(%s)' % alg.show(w), is_zero(mul(co, gt0(w))), f.loc(),
                                  'the logistic loss evaluates exp(%s) for positive arguments: a large margin gives an infinite loss' % alg.show(w), key='overflow:logistic')


class SvmEval(alg.Eval):
    """loads of VlSvm fields and results of its callbacks by name"""
    gate_ptr = False
    noexit = ()

    def edge(self, p, s):
        """exit tests of the loops in noexit count as true (inside the loop they are)"""
        for body in self.noexit:
            if p in body and any(x not in body for x in self.f.succ[p]):
                return C(1)
        return super().edge(p, s)

    def loadat(self, v, b, off, n, sz):
        if b == getattr(self, 'obj', None) and alg.is_const(off):
            nm = self.layout.get(int(alg.cval(off)))
            if nm:
                return [A('x', 'f', nm)]
        if isinstance(b, tuple) and b[0] == '*' and b[1] == getattr(self, 'obj', None):
            o = dict(b[2])
            if alg.is_const(o) and int(alg.cval(o)) in self.layout:
                return [A('el', self.layout[int(alg.cval(o))], alg.freeze(off))]
        return None

    def call(self, v):
        if v.callee_name() is None:
            nm = self.cbname(v)
            if nm:
                return [A('el', nm, *[alg.freeze(x) for x in self.cbargs(v)])]
        if v.ty == 'ptr':
            return [A('base', ('call', v.id))]
        return super().call(v)

    def cbname(self, v):
        c = self.f.val(v.callee)
        if c is not None and c.op == 'load':
            try:
                b, off = self.addr(c.ops[0])
            except alg.Unknown:
                return None
            if b == getattr(self, 'obj', None) and alg.is_const(off):
                return self.layout.get(int(alg.cval(off)))
        return None

    def cbargs(self, v):
        return [self.one(x) for x in v.ops]


def mkeval(f):
    E = SvmEval(f)
    E.obj = ('arg', f.args[0].id) if f.args else None
    lay = {}
    for n, o, sz, t in f.mod.struct_members('VlSvm_'):
        lay[o] = n
        if n == 'statistics':
            for n2, o2, s2, t2 in f.mod.struct_members('VlSvmStatistics_') or ():
                lay[o + o2] = 'statistics.' + n2
    E.layout = lay
    return E


def field(n):
    return A('x', 'f', n)


def cbs(f, E, name):
    return [i for i in f.instrs if i.op == 'call' and i.callee_name() is None and E.cbname(i) == name]


def ptr_base(E, o):
    return E.addr(o)


def argfield(E, x):
    """value of self->field passed as an argument"""
    for n, k in (('data', None),):
        pass
    return x


class Law:
    def __init__(self, rep, f, what):
        self.rep, self.f, self.what = rep, f, what
        self.E = mkeval(f)

    def val(self, o):
        return self.E.one(o)

    def eq(self, name, i, got, want, cond=None):
        """got == want wherever cond holds"""
        try:
            d = sub(got, want)
            if cond is not None:
                d = mul(d, cond)
            good = is_zero(d)
        except alg.Unknown as e:
            self.rep.skip(self.what, name, str(e))
            return None
        return self.rep.check(self.what, name, good, i.loc(), '%s is %s, not %s' % (name, alg.show(got)[:150], alg.show(want)[:150]), key='%s:%s' % (self.what, name))

    def cond(self, b):
        """condition under which b is reached in one iteration of its outermost loop (exit tests excluded)"""
        if not hasattr(self, 'conds'):
            self.conds = {}
        if b not in self.conds:
            self.conds[b] = self._cond(b)
        return self.conds[b]

    def _cond(self, b):
        f = self.f
        ls = f.loops_of(b)
        d = ls[-1] if ls else 0
        if d == b:
            return C(1)
        E = copy.copy(self.E)
        E.memo, E.busy, E.noexit = {}, set(), [f.loops[h] for h in ls]
        return E.reach(d, b)[b]

    def stores(self, fld=None, array=None):
        out = []
        for i in self.f.instrs:
            if i.op != 'store':
                continue
            try:
                b, off = self.E.addr(i.ops[1])
            except alg.Unknown:
                continue
            if fld and b == self.E.obj and alg.is_const(off) and self.E.layout.get(int(alg.cval(off))) == fld:
                out.append((i, off))
            if array and isinstance(b, tuple) and b[0] == '*' and b[1] == self.E.obj:
                o = dict(b[2])
                if alg.is_const(o) and self.E.layout.get(int(alg.cval(o))) == array:
                    out.append((i, off))
        return out


def weight(idx):
    w = A('x', 'f', 'weights')
    return sel(eq0(w), C(1), A('el', 'weights', alg.freeze(scale(idx, 8))))


def el(n, idx):
    return A('el', n, alg.freeze(scale(idx, 8)))


def cb(n, *a):
    return A('el', n, *[alg.freeze(x) for x in a])


def fixptr(p):
    """pointer values base(* obj off) -> named field"""
    return p


def sdca(rep, m):
    fs = [f for f in m.defined() if f.file == 'vl/svm.c' and f.args and cbs(f, mkeval(f), 'dcaUpdateFn')]
    if not fs:
        rep.skip('dual ascent', 'solver', 'no call of the update callback')
    for f in fs:
        L = Law(rep, f, 'dual ascent')
        E = L.E
        for c in cbs(f, E, 'dcaUpdateFn'):
            try:
                a = E.cbargs(c)
                lab = a[3]
                idx = index_of(lab, 'labels')
                if idx is not None:
                    sampling(rep, L, idx, c)
                if idx is None:
                    rep.check('dual ascent', 'label', not plain(lab), c.loc(), 'the update is given %s instead of the label of the sample' % alg.show(lab)[:80], key='dual ascent:label') if plain(lab) else rep.skip('dual ascent', 'label', 'shape')
                    continue
                p = weight(idx)
                cond = L.cond(c.block)
                if not is_zero(mul(cond, NOT(gt0(p)))):
                    rep.bad('dual ascent', 'weight positive', c.loc(), 'samples with a non-positive weight are updated (division by zero weight)', key='dual ascent:positive')
                else:
                    rep.ok('dual ascent', 'weight positive')
                data, model = field('data'), field('model')
                want = [mul(el('alpha', idx), inv(p)), add(cb('innerProductFn', data, idx, model), mul(field('bias'), field('biasMultiplier')))]
                L.eq('dual variable', c, mul(a[0], p), mul(want[0], p), cond)
                L.eq('score', c, a[1], want[1], cond)
                n2 = divide(a[2], p, cond)
                nb = norm_array(f, E, n2, idx) if n2 is not None else None
                if nb is None:
                    rep.skip('dual ascent', 'norm', 'shape: ' + alg.show(a[2])[:100])
                else:
                    rep.ok('dual ascent', 'norm')
                    norm2(rep, L, nb)
                # application
                res = A('el', 'dcaUpdateFn', *[alg.freeze(x) for x in a])
                delta = mul(gt0(p), mul(p, res))
                st = L.stores(array='alpha')
                st = [(i, o) for i, o in st if alg.same(o, scale(idx, 8))]
                if len(st) != 1:
                    rep.skip('dual ascent', 'alpha', '%d stores' % len(st)) if st else rep.bad('dual ascent', 'alpha', c.loc(), 'the dual variable of the sample is not updated', key='dual ascent:alpha')
                    continue
                i, off = st[0]
                cd = L.cond(i.block)
                v = L.val(i.ops[0])
                L.eq('alpha', i, v, add(el('alpha', idx), delta), cd)
                rep.check('dual ascent', 'alpha always', is_zero(mul(NOT(cd), delta)), i.loc(), 'a non-zero update of the dual variable can be skipped', key='dual ascent:always')
                mult = mul(delta, inv(mul(field('lambda'), field('numData'))))
                ac = [x for x in cbs(f, E, 'accumulateFn') if plainmodel(E, x)]
                if len(ac) != 1:
                    rep.bad('dual ascent', 'model', c.loc(), 'the model is not updated', key='dual ascent:model') if not ac else rep.skip('dual ascent', 'model', 'shape')
                else:
                    x = ac[0]
                    ca = E.cbargs(x)
                    cx = L.cond(x.block)
                    L.eq('model update sample', x, ca[1], idx, cx)
                    L.eq('model update data', x, ca[0], data, cx)
                    L.eq('model update step', x, ca[3], mult, cx)
                    rep.check('dual ascent', 'model always', is_zero(mul(NOT(cx), delta)), x.loc(), 'the model update can be skipped', key='dual ascent:modelalways')
                bs = L.stores(fld='bias')
                if len(bs) != 1:
                    rep.skip('dual ascent', 'bias', 'shape') if bs else rep.bad('dual ascent', 'bias', c.loc(), 'the bias is not updated', key='dual ascent:bias')
                else:
                    x = bs[0][0]
                    cx = L.cond(x.block)
                    L.eq('bias', x, L.val(x.ops[0]), add(field('bias'), mul(field('biasMultiplier'), mult)), cx)
                    rep.check('dual ascent', 'bias always', is_zero(mul(NOT(cx), delta)), x.loc(), 'the bias update can be skipped', key='dual ascent:biasalways')
            except alg.Unknown as e:
                rep.skip('dual ascent', 'solver', str(e))
        stopping(rep, L, 'dualityGap')


def plainmodel(E, x):
    try:
        return E.one(x.ops[2]) == field('model')
    except alg.Unknown:
        return False


def plain(p):
    """a single known field element"""
    return atom1(p) and list(p)[0][0][0][0] in ('el', 'x')


def atom1(p):
    return len(p) == 1 and list(p.values()) == [1] and len(list(p)[0]) == 1 and list(p)[0][0][1] == 1


def index_of(p, arr):
    if plain(p):
        a = list(p)[0][0][0]
        if a[0] == 'el' and a[1] == arr:
            return scale(alg.thaw(a[2]), alg.Fraction(1, 8))
    return None


def divide(v, p, cond):
    """the load atom x with v = p * x under cond"""
    for a in allatoms(v):
        if a[0] == 'ld':
            try:
                if is_zero(mul(cond, sub(v, mul(p, A(*a))))):
                    return a
            except alg.Unknown:
                pass
    return None


def allatoms(p):
    s = set()

    def f(a):
        s.add(a)
        return None
    alg.rebuild(p, f)
    return s


def norm_array(f, E, a, idx):
    """base of the local array whose element idx is read"""
    off = alg.thaw(a[2])
    return a[1] if same(off, scale(idx, 8)) else None


def norm2(rep, L, base):
    f, E = L.f, L.E
    n = 0
    for i in f.instrs:
        if i.op != 'store':
            continue
        try:
            b, off = E.addr(i.ops[1])
            if b != base:
                continue
            v = L.val(i.ops[0])
        except alg.Unknown as e:
            rep.skip('dual ascent', 'squared norm', str(e))
            continue
        n += 1
        idx = scale(off, alg.Fraction(1, 8))
        # innerProductFn(data, idx, buffer)
        ips = [a for a in allatoms(v) if a[0] == 'el' and a[1] == 'innerProductFn']
        if len(ips) != 1:
            rep.skip('dual ascent', 'squared norm', 'shape') if len(ips) > 1 else rep.bad('dual ascent', 'squared norm', i.loc(), 'the squared norm of the sample is %s' % alg.show(v)[:100], key='dual ascent:norm2')
            continue
        ip = ips[0]
        bm = field('biasMultiplier')
        want = mul(add(A(*ip), mul(bm, bm)), inv(mul(field('lambda'), field('numData'))))
        L.eq('squared norm', i, v, want)
        L.eq('squared norm sample', i, alg.thaw(ip[3]), idx)
        # the buffer holds the sample: cleared, then accumulated once with factor 1
        buf = alg.thaw(ip[4])
        ac = [x for x in cbs(f, E, 'accumulateFn') if E.one(x.ops[2]) == buf]
        if len(ac) == 1:
            ca = E.cbargs(ac[0])
            L.eq('buffered sample', ac[0], ca[1], idx)
            L.eq('buffered sample factor', ac[0], ca[3], C(1))
            # cleared in the same iteration
            ms = [x for x in f.instrs if x.op == 'call' and (x.callee_name() or '').startswith('llvm.memset') and E.one(x.ops[0]) == buf]
            lp = f.loops_of(ac[0].block)
            inl = [x for x in ms if lp and f.loops_of(x.block) == lp and f.idominates(x, ac[0])]
            loopst = [x for x in f.instrs if x.op == 'store' and lp and x.block in f.loops[lp[0]] and addr_base(E, x.ops[1]) == bufbase(buf)]
            alloc_in = [x for x in f.instrs if x.op == 'call' and x.callee_name() == 'vl_calloc' and lp and x.block in f.loops[lp[0]]]
            if inl:
                x = inl[0]
                L.eq('buffer cleared', x, E.one(x.ops[2]), scale(field('dimension'), 8))
            elif loopst or alloc_in:
                rep.skip('dual ascent', 'buffer cleared', 'shape')
            else:
                rep.bad('dual ascent', 'buffer cleared', ac[0].loc(), 'the buffer still holds the previous samples when the norm of a sample is computed', key='dual ascent:buffer')
        else:
            rep.skip('dual ascent', 'buffered sample', '%d accumulations' % len(ac))
    if n == 0:
        rep.skip('dual ascent', 'squared norm', 'no store found')


def addr_base(E, o):
    try:
        return E.addr(o)[0]
    except alg.Unknown:
        return None


def bufbase(buf):
    if len(buf) == 1:
        a = list(buf)[0][0][0]
        if a[0] == 'base':
            return a[1]
    return None


def stopping(rep, L, crit):
    """status after the statistics: converged iff criterion < epsilon, else out of iterations iff t+1 == maxNumIterations, else still training"""
    f, E = L.f, L.E
    st = L.stores(fld='statistics.status')
    vals = {}
    for i, _ in st:
        k = const_int(i.ops[0])
        if k is None:
            rep.skip(L.what, 'status', 'shape')
            return
        vals.setdefault(k, []).append(i)
    enum = {'Training': 1, 'Converged': 2, 'MaxNumIterationsReached': 3}
    en = enumerators(f.mod, 'VlSvmStatus')
    if en:
        enum = {k.replace('VlSvmStatus', ''): v for k, v in en.items()}
    cv = vals.get(enum.get('Converged'), [])
    if not cv:
        rep.bad(L.what, 'converged', f.loc(), 'the solver never reports convergence', key='%s:converged' % L.what)
        return
    for i in cv:
        try:
            gs, unk = c14.guards(E, i.block)
        except alg.Unknown as e:
            rep.skip(L.what, 'converged', str(e))
            continue
        want = gt0(sub(field('epsilon'), field('statistics.' + crit)))
        w2 = ge0(sub(field('epsilon'), field('statistics.' + crit)))
        rel = [g for g in gs if any(a == ('x', 'f', 'epsilon') for a in allatoms(g))]
        if not rel:
            if unk:
                rep.skip(L.what, 'converged', unk[0])
            else:
                rep.bad(L.what, 'converged', i.loc(), 'convergence is reported without testing the criterion against epsilon', key='%s:converged' % L.what)
            continue
        rep.check(L.what, 'converged', any(same(g, want) or same(g, w2) for g in rel), i.loc(), 'convergence is reported when %s, not when %s < epsilon' % (alg.show(rel[0])[:120], crit), key='%s:converged' % L.what)
    mx = vals.get(enum.get('MaxNumIterationsReached'), [])
    rep.check(L.what, 'iteration limit', bool(mx), f.loc(), 'the solver ignores the maximum number of iterations', key='%s:max' % L.what)
    for i in mx:
        gs, unk = c14.guards(E, i.block)
        rel = [g for g in gs if ('x', 'f', 'maxNumIterations') in allatoms(g)]
        # t + 1 == maxNumIterations for the sample counter t
        good = False
        for g in rel:
            for a in alg.atoms(g):
                if a[0] in alg.BOOL:
                    d = alg.thaw(a[1])
                    if ('x', 'f', 'maxNumIterations') in alg.atoms(d):
                        vs = [b for b in alg.atoms(d) if b[0] == 'v']
                        if len(vs) == 1:
                            t = A(*vs[0])
                            if same(g, eq0(sub(add(t, C(1)), field('maxNumIterations')))) or same(g, ge0(sub(add(t, C(1)), field('maxNumIterations')))):
                                good = True
        if rel:
            rep.check(L.what, 'iteration limit reached', good, i.loc(), 'the iteration limit is tested as %s' % alg.show(rel[0])[:120], key='%s:limit' % L.what)
        else:
            rep.skip(L.what, 'iteration limit reached', 'guard not found')


def enumerators(m, name):
    for t in m.types:
        if t.get('tag') == 'DW_TAG_enumeration_type' and t.get('elements'):
            es = {e['name']: e.get('value') for e in t['elements'] if e.get('name') and e['name'].startswith(name)}
            if es and all(v is not None for v in es.values()):
                return es
    return None


def sgd(rep, m):
    fs = [f for f in m.defined() if f.file == 'vl/svm.c' and f.args and cbs(f, mkeval(f), 'lossDerivativeFn')]
    if not fs:
        rep.skip('gradient descent', 'solver', 'no call of the derivative callback')
    for f in fs:
        L = Law(rep, f, 'gradient descent')
        E = L.E
        offset(rep, L)
        for c in cbs(f, E, 'lossDerivativeFn'):
            try:
                a = E.cbargs(c)
                idx = index_of(a[1], 'labels')
                if idx is None:
                    rep.bad('gradient descent', 'label', c.loc(), 'the derivative is given %s instead of the label' % alg.show(a[1])[:80], key='gradient descent:label') if plain(a[1]) else rep.skip('gradient descent', 'label', 'shape')
                    continue
                data, model = field('data'), field('model')
                ip = cb('innerProductFn', data, idx, model)
                bb = mul(field('bias'), field('biasMultiplier'))
                # inner = F * ip + G * bias * biasMultiplier with loop variables F, G
                vs = [x for x in alg.atoms(a[0]) if x[0] == 'v']
                FG = None
                for F in vs:
                    for G in vs:
                        if same(a[0], add(mul(A(*F), ip), mul(A(*G), bb))):
                            FG = F, G
                if FG is None:
                    if len(vs) == 2:
                        rep.bad('gradient descent', 'score', c.loc(), 'the score of the sample is %s' % alg.show(a[0])[:160], key='gradient descent:score')
                    else:
                        rep.skip('gradient descent', 'score', 'shape')
                    continue
                rep.ok('gradient descent', 'score')
                sampling(rep, L, idx, c)
                variation(rep, L, idx, a[0], c)
                F, G = FG
                p = maxv({}, weight(idx))
                res = A('el', 'lossDerivativeFn', *[alg.freeze(x) for x in a])
                grad = mul(p, res)
                lam = field('lambda')
                ac = [x for x in cbs(f, E, 'accumulateFn') if plainmodel(E, x)]
                if len(ac) != 1:
                    rep.bad('gradient descent', 'model', c.loc(), 'the model is not updated', key='gradient descent:model') if not ac else rep.skip('gradient descent', 'model', 'shape')
                    continue
                x = ac[0]
                ca = E.cbargs(x)
                cx = L.cond(x.block)
                # rate = 1/(lambda (t + t0))
                rates = [q for q in allatoms(ca[3]) if q[0] == 'inv']
                tv, t0 = rate_atoms(f, E, ca[3], F)
                if tv is None:
                    rep.skip('gradient descent', 'rate', 'shape: ' + alg.show(ca[3])[:120])
                    continue
                rate = mul(inv(lam), inv(add(A(*tv), t0)))
                F1 = mul(A(*F), sub(C(1), mul(lam, rate)))
                want = scale(mul(mul(grad, rate), inv(F1)), -1)
                L.eq('model update step', x, ca[3], want, cx)
                L.eq('model update sample', x, ca[1], idx, cx)
                rep.check('gradient descent', 'model always', is_zero(mul(NOT(cx), grad)), x.loc(), 'a non-zero gradient can be skipped', key='gradient descent:always')
                brate = mul(rate, field('biasLearningRate'))
                G1 = mul(A(*G), sub(C(1), mul(lam, brate)))
                bwant = add(field('bias'), scale(mul(mul(mul(field('biasMultiplier'), grad), brate), inv(G1)), -1))
                bs = L.stores(fld='bias')
                vals = [(i, L.val(i.ops[0]), L.cond(i.block)) for i, _ in bs]
                upd = [(i, v, cd) for i, v, cd in vals if any(t[0] == 'el' and t[1] == 'lossDerivativeFn' for t in allatoms(v))]
                if len(upd) != 1:
                    rep.bad('gradient descent', 'bias', c.loc(), 'the bias is not updated with the gradient', key='gradient descent:bias') if not upd else rep.skip('gradient descent', 'bias', 'shape')
                else:
                    L.eq('bias', upd[0][0], upd[0][1], bwant, upd[0][2])
                # realisation of the factors
                rz = [(i, v) for i, v, cd in vals if i is not (upd[0][0] if upd else None)]
                for i, v in rz:
                    L.eq('bias realised', i, v, mul(field('bias'), G1))
                if not rz:
                    rep.bad('gradient descent', 'bias realised', c.loc(), 'the bias factor is never applied to the bias', key='gradient descent:biasreal')
                ms = L.stores(array='model')
                for i, off in ms:
                    L.eq('model realised', i, L.val(i.ops[0]), mul(A('el', 'model', alg.freeze(off)), F1))
                if not ms and any(not known_base(L, i) for i in f.instrs if i.op == 'store' and f.loops_of(i.block)):
                    rep.skip('gradient descent', 'model realised', 'shape')
                elif not ms:
                    rep.bad('gradient descent', 'model realised', c.loc(), 'the scaling factor is never applied to the model', key='gradient descent:modelreal')
                # next values of the factors: realised -> 1, else F1
                for nm, V, V1 in (('factor', F, F1), ('bias factor', G, G1)):
                    ph = f.vals[V[1]]
                    for o, pb in ph.inc:
                        if f.dominates(ph.block, pb):
                            try:
                                v = E.one(o)
                            except alg.Unknown as e:
                                rep.skip('gradient descent', nm, str(e))
                                continue
                            # every value that reaches the next iteration is either 1 (after realisation) or V1
                            for x, b in leaves(f, o, pb):
                                try:
                                    v = E.one(x)
                                except alg.Unknown as e:
                                    rep.skip('gradient descent', nm, str(e))
                                    continue
                                g = mul(sub(v, C(1)), sub(v, V1))
                                rep.check('gradient descent', nm, is_zero(g), ph.loc(), 'the %s becomes %s' % (nm, alg.show(v)[:140]), key='gradient descent:' + nm)
                            reset = [i for i, v2 in rz] if nm == 'bias factor' else [i for i, o2 in ms]
                            if reset:
                                resetcheck(rep, L, nm, o, pb, ph, reset, V1)
                        else:
                            L.eq(nm + ' initial', ph, E.one(o), C(1))
            except alg.Unknown as e:
                rep.skip('gradient descent', 'solver', str(e))
        stopping(rep, L, 'scoresVariation')


def leaves(f, o, b, d=0):
    """the values a merge outside loop headers chooses from, with the blocks they come from"""
    w = f.val(o)
    if w is not None and w.op == 'phi' and w.block not in f.loops and d < 6:
        return [l for x, p in w.inc for l in leaves(f, x, p, d + 1)]
    return [(o, b)]


def resetcheck(rep, L, nm, o, pb, ph, reset, V1):
    """where the factor has been applied the next value is 1, elsewhere it is not"""
    f, E = L.f, L.E
    for x, b in leaves(f, o, pb):
        v = E.one(x)
        meets = [r for r in reset if (r.block == b or flow.reaches(f, r, f.blocks[b][-1], avoid=[ph])) and not is_zero(mul(once(L, r), L.cond(b)))]
        if same(v, C(1)):
            if not meets:
                rep.bad('gradient descent', nm + ' reset', ph.loc(), 'the %s is reset without having been applied' % nm, key='gradient descent:reset:' + nm)
                return
        elif same(v, V1):
            if meets:
                rep.bad('gradient descent', nm + ' reset', ph.loc(), 'the %s is applied and then kept: it is applied twice' % nm, key='gradient descent:reset:' + nm)
                return
        else:
            rep.skip('gradient descent', nm + ' reset', 'shape')
            return
    rep.ok('gradient descent', nm + ' reset')


def known_base(L, i):
    r = array_of(L, i.ops[1])
    return r is not None and (r[0] == L.E.obj or r[0][0] in ('call', 'alloca', 'g') or r[0][0] == '*' and r[0][1] == L.E.obj)


def once(L, r):
    """condition under which the (possibly looped) instruction runs, assuming its own loop runs"""
    f = L.f
    ls = f.loops_of(r.block)
    return L.cond(ls[-2] if len(ls) > 1 else r.block)


def offset(rep, L):
    """the iteration offset t0 of the learning rate becomes one symbol; it must be at least 2"""
    f, E = L.f, L.E
    for i in f.instrs:
        if i.ty in ('i64', 'i32', 'double') and i.op in ('phi', 'select', 'call') and not f.loops_of(i.block):
            try:
                v = E.one(i.id)
            except alg.Unknown:
                continue
            if not any(a[0] in alg.BOOL for a in alg.atoms(v)):
                continue
            if not any(a[0] == 'fn' and a[1] in ('ceil', 'vl_ceil', 'int', 'floor') for a in allatoms(v)) or ('x', 'f', 'lambda') not in allatoms(v):
                continue
            if is_zero(gt0(sub(C(2), v))):
                rep.ok('gradient descent', 'first step bounded')
            elif same(v, spec_t0()):
                rep.ok('gradient descent', 'first step bounded')
            else:
                rep.bad('gradient descent', 'first step bounded', i.loc(), 'the learning rate offset %s may be below 2: the scaling factor can become zero' % alg.show(v)[:120], key='gradient descent:t0')
            E.subst[i.id] = [A('x', 't0')]
    E.memo.clear()


def spec_t0():
    return maxv(C(2), fn('int', fn('ceil', inv(A('x', 'f', 'lambda')))))


def rate_atoms(f, E, step, F):
    """(counter phi atom, t0 poly) from the learning rate 1/(lambda (t + t0)) inside the step"""
    T = ('x', 't0')
    for a in allatoms(step):
        if a[0] == 'inv' and T in alg.atoms(alg.thaw(a[1])):
            vs = [b for b in alg.atoms(alg.thaw(a[1])) if b[0] == 'v' and b != F]
            if len(vs) == 1:
                return vs[0], A(*T)
    return None, None


def stats(rep, m):
    fs = [f for f in m.defined() if f.file == 'vl/svm.c' and f.args and cbs(f, mkeval(f), 'lossFn')]
    if not fs:
        rep.skip('objective', 'statistics', 'no call of the loss callback')
    for f in fs:
        L = Law(rep, f, 'objective')
        E = L.E
        S = lambda n: field('statistics.' + n)
        for c in cbs(f, E, 'lossFn'):
            try:
                a = E.cbargs(c)
                idx = index_of(a[1], 'labels')
                if idx is None:
                    rep.bad('objective', 'label', c.loc(), 'the loss is given %s instead of the label' % alg.show(a[1])[:80], key='objective:label') if plain(a[1]) else rep.skip('objective', 'label', 'shape')
                    continue
                p = weight(idx)
                cd = L.cond(c.block)
                inner = add(cb('innerProductFn', field('data'), idx, field('model')), mul(field('bias'), field('biasMultiplier')))
                L.eq('score', c, a[0], inner)
                ordering(rep, L, c)
                res = A('el', 'lossFn', *[alg.freeze(x) for x in a])
                upd(rep, L, 'statistics.loss', [add(S('loss'), mul(p, res)), mul(S('loss'), inv(field('numData')))], c, 'loss', neg=False)
                for i, off in L.stores(array='scores'):
                    L.eq('stored score', i, L.val(i.ops[0]), inner)
                    L.eq('stored score index', i, off, scale(idx, 8))
                cc = cbs(f, E, 'conjugateLossFn')
                for k in cc:
                    b = E.cbargs(k)
                    ck = L.cond(k.block)
                    rep.check('objective', 'conjugate weight positive', is_zero(mul(ck, NOT(gt0(p)))), k.loc(), 'the conjugate is evaluated at alpha/weight for samples whose weight is not positive', key='objective:conjpos')
                    L.eq('conjugate argument', k, mul(b[0], p), scale(el('alpha', idx), -1), mul(ck, gt0(p)))
                    L.eq('conjugate label', k, b[1], el('labels', idx))
                    rc = A('el', 'conjugateLossFn', *[alg.freeze(x) for x in b])
                    upd(rep, L, 'statistics.dualLoss', [sub(S('dualLoss'), mul(p, rc)), mul(S('dualLoss'), inv(field('numData')))], k, 'dual loss')
                w = field('model')
                half = alg.Fraction(1, 2)
                # regularizer
                st = L.stores(fld='statistics.regularizer')
                got = [(i, L.val(i.ops[0])) for i, _ in st]
                ok3 = [0, 0, 0]
                other = None
                for i, v in got:
                    if same(v, mul(field('bias'), field('bias'))):
                        ok3[0] = 1
                    elif same(v, scale(mul(S('regularizer'), field('lambda')), half)):
                        ok3[2] = 1
                    else:
                        ms = [x for x in allatoms(v) if x[0] == 'el' and x[1] == 'model']
                        if len(ms) == 1 and same(v, add(S('regularizer'), mul(A(*ms[0]), A(*ms[0])))):
                            ok3[1] = 1
                        else:
                            other = (i, v)
                if other is not None and any(x[0] == 'v' for x in allatoms(other[1])):
                    rep.skip('objective', 'regularizer', 'shape')
                else:
                    rep.check('objective', 'regularizer', other is None and ok3 == [1, 1, 1], (other[0] if other else c).loc(), 'the regularizer is not lambda/2 (|w|^2 + b^2)' + (': ' + alg.show(other[1])[:100] if other else ''), key='objective:regularizer')
                single(rep, L, 'statistics.objective', add(S('regularizer'), S('loss')), c)
                if cc:
                    single(rep, L, 'statistics.dualObjective', sub(S('dualLoss'), S('regularizer')), c)
                    single(rep, L, 'statistics.dualityGap', sub(S('objective'), S('dualObjective')), c)
            except alg.Unknown as e:
                rep.skip('objective', 'statistics', str(e))


def array_of(L, o):
    """(base, offset) of an address when the base is a local array"""
    try:
        b, off = L.E.addr(o)
    except alg.Unknown:
        return None
    return (b, off)


def sampling(rep, L, idx, c):
    """the visited sample is element t % numData of an array that starts as the identity and is only permuted"""
    f, E = L.f, L.E
    N = field('numData')
    if not (atom1(idx) and list(idx)[0][0][0][0] == 'ld'):
        rep.skip(L.what, 'sample order', 'shape')
        return
    a = list(idx)[0][0][0]
    base, off = a[1], alg.thaw(a[2])
    pos = scale(off, alg.Fraction(1, 8))
    if atom1(pos):
        q = list(pos)[0][0][0]
        if q[0] == 'fn' and q[1] == 'urem':
            rep.check(L.what, 'sample order', same(alg.thaw(q[3]), N), c.loc(), 'samples are taken modulo %s, not modulo the number of samples' % alg.show(alg.thaw(q[3]))[:80], key=L.what + ':modulo')
    writes = []
    for i in f.instrs:
        if i.op == 'store':
            r = array_of(L, i.ops[1])
            if r and r[0] == base:
                try:
                    v = L.val(i.ops[0])
                except alg.Unknown:
                    rep.skip(L.what, 'sample permutation', 'shape')
                    return
                if same(scale(v, 8), r[1]):
                    writes.append(i)
                elif all(x[0] in ('v', 'x') or x[:2] in (('fn', 'udiv'), ('fn', 'sdiv'), ('fn', 'urem'), ('fn', 'srem')) for x in alg.atoms(v)) and not any(len(k) == 1 and k[0][0][0] == 'v' and abs(c2) == 1 for k, c2 in v.items()):
                    rep.bad(L.what, 'sample permutation', i.loc(), 'the order of the samples starts as %s at position %s' % (alg.show(v)[:60], alg.show(scale(r[1], alg.Fraction(1, 8)))[:60]), key=L.what + ':identity')
                    return
                else:
                    rep.skip(L.what, 'sample permutation', 'shape')
                    return
        elif i.op == 'call' and i.callee_name() not in ('vl_free', 'vl_calloc', 'vl_malloc') and any(array_of(L, o) == (base, {}) for o in i.ops if isinstance(o, int) and i.callee_name()):
            n = i.callee_name()
            if n == 'vl_rand_permute_indexes':
                L.eq('permuted samples', i, L.val(i.ops[2]), N)
            else:
                rep.skip(L.what, 'sample permutation', 'call of ' + n)
                return
    if writes:
        rep.ok(L.what, 'sample permutation')
    else:
        rep.skip(L.what, 'sample permutation', 'no initialisation')


def variation(rep, L, idx, inner, c):
    """convergence is measured between the last two scores of every sample"""
    f, E = L.f, L.E
    S = field('statistics.scoresVariation')
    acc = None
    for i, _ in L.stores(fld='statistics.scoresVariation'):
        v = L.val(i.ops[0])
        if any(x[0] == 'v' for x in alg.atoms(v)):
            rep.skip(L.what, 'scores variation', 'shape')
            return
        d = sub(v, S)
        ls = sorted([x for x in allatoms(d) if x[0] == 'ld'], key=repr)
        if len(ls) == 2 and is_zero(sub(d, mul(sub(A(*ls[0]), A(*ls[1])), sub(A(*ls[0]), A(*ls[1]))))) and (ls[0][1] != ls[1][1] or ls[0][2] != ls[1][2]):
            acc = ls
        elif same(v, mul(fn('sqrt', S), inv(field('numData')))):
            rep.ok(L.what, 'scores variation mean')
        elif not same(v, C(0)):
            rep.bad(L.what, 'scores variation', i.loc(), 'the variation of the scores becomes %s' % alg.show(v)[:140], key=L.what + ':variation')
            return
    if acc is None:
        rep.skip(L.what, 'scores variation', 'shape')
        return
    o8 = scale(idx, 8)
    cur = prev = None
    for i in f.instrs:
        if i.op != 'store':
            continue
        r = array_of(L, i.ops[1])
        if r and r[0] == ('arg', f.args[0].id):
            continue
        if r:
            v = L.val(i.ops[0])
            if same(v, inner) and f.loops_of(i.block):
                cur = (i, r)
    if cur is None:
        rep.skip(L.what, 'scores variation', 'the current score is not stored')
        return
    # the other of the two arrays must receive the old value of the current one, read before it is overwritten
    for i in f.instrs:
        if i.op == 'store' and i is not cur[0]:
            w = f.val(i.ops[0])
            if w is not None and w.op == 'load' and w.ty == 'double':
                r = array_of(L, w.ops[0])
                if r and r[0] == cur[1][0] and same(r[1], cur[1][1]) and array_of(L, i.ops[1]) is not None and array_of(L, i.ops[1])[0] != L.E.obj:
                    prev = (i, w)
    if prev is None:
        rep.skip(L.what, 'scores variation', 'the previous score is not kept')
        return
    ph = [f.blocks[h][0] for h in f.loops_of(cur[0].block)[-1:]]
    rep.check(L.what, 'scores variation', not flow.reaches(f, cur[0], prev[1], avoid=ph), prev[0].loc(), 'the previous score of the sample is read after it has been overwritten: the variation is always 0', key=L.what + ':variation')


def ordering(rep, L, c):
    """sums start at 0 and the combined values are computed after their parts are final"""
    f, E = L.f, L.E
    ini = []
    for i in f.instrs:
        if i.op == 'call' and i.callee_name() and 'memset' in i.callee_name():
            r = array_of(L, i.ops[0])
            if r and r[0] == E.obj and alg.is_const(r[1]) and same(L.val(i.ops[1]), C(0)):
                n = L.val(i.ops[2])
                if alg.is_const(n):
                    ini.append((i, int(alg.cval(r[1])), int(alg.cval(r[1])) + int(alg.cval(n))))
    off = {n: o for o, n in E.layout.items()}
    for part in ('loss', 'dualLoss', 'regularizer'):
        fld = 'statistics.' + part
        st = [i for i, _ in L.stores(fld=fld)]
        acc = [i for i in st if ('x', 'f', fld) in allatoms(L.val(i.ops[0]))]
        fresh = [i for i in st if i not in acc] + [i for i, a, b in ini if a <= off[fld] < b]
        if not acc:
            continue
        rep.check('objective', 'statistics.%s starts afresh' % part, all(any(dom(f, z, i) for z in fresh) for i in acc), acc[0].loc(),
                  '%s accumulates onto the value of an earlier evaluation' % fld, key='objective:fresh:' + part)
    for comb, parts in (('objective', ('loss', 'regularizer')), ('dualObjective', ('dualLoss', 'regularizer')), ('dualityGap', ('objective', 'dualObjective'))):
        for i, _ in L.stores(fld='statistics.' + comb):
            rd = [x for x in allatoms(L.val(i.ops[0]))]
            for p in parts:
                if ('x', 'f', 'statistics.' + p) not in rd:
                    continue
                st = [k for k, _ in L.stores(fld='statistics.' + p)]
                late = [k for k in st if flow.reaches(f, i, k)]
                rep.check('objective', '%s after %s' % (comb, p), not late, i.loc(), 'statistics.%s is computed before statistics.%s is final' % (comb, p), key='objective:order:%s:%s' % (comb, p))


def dom(f, a, b):
    return f.instrs.index(a) < f.instrs.index(b) if a.block == b.block else f.dominates(a.block, b.block)


def bias_access(rep, m):
    B, M = field('bias'), field('biasMultiplier')
    f = m.F('vl_svm_get_bias')
    if f is not None and len(f.rets) == 1:
        L = Law(rep, f, 'bias access')
        L.eq('vl_svm_get_bias', f.rets[0], L.val(f.rets[0].ops[0]), mul(B, M))
    f = m.F('vl_svm_set_bias')
    if f is not None:
        L = Law(rep, f, 'bias access')
        st = L.stores(fld='bias')
        for i, _ in st:
            L.eq('vl_svm_set_bias', i, mul(L.val(i.ops[0]), M), A('arg', f.args[1].id), NOT(eq0(M)))
        if not st:
            rep.bad('bias access', 'vl_svm_set_bias', f.loc(), 'vl_svm_set_bias does not store the bias', key='bias:set')
    f = m.F('vl_svm_new_with_abstract_data')
    if f is not None:
        E = mkeval(f)
        got = {}
        for i in f.instrs:
            if i.op == 'store' and isinstance(i.ops[0], list) and i.ops[0][0] == 'g':
                r = None
                try:
                    r = E.addr(i.ops[1])
                except alg.Unknown:
                    continue
                if isinstance(r[0], tuple) and r[0][0] == 'call' and alg.is_const(r[1]):
                    nm = E.layout.get(int(alg.cval(r[1])))
                    if nm in SUFFIX:
                        got[nm] = i.ops[0][1]
        if len(got) == 4:
            stems = {v[:-len(SUFFIX[k])] for k, v in got.items() if v.endswith(SUFFIX[k])}
            rep.check('loss selection', 'default', len(stems) == 1 and all(v.endswith(SUFFIX[k]) for k, v in got.items()), f.loc(), 'a new object mixes the functions of different losses: %s' % sorted(got.values()), key='select:default')
        else:
            rep.skip('loss selection', 'default', 'shape')


SUFFIX = {'lossFn': '_loss', 'lossDerivativeFn': '_loss_derivative', 'conjugateLossFn': '_conjugate_loss', 'dcaUpdateFn': '_dca_update'}


def single(rep, L, fld, want, c):
    st = L.stores(fld=fld)
    if not st:
        rep.bad('objective', fld, c.loc(), '%s is never computed' % fld, key='objective:' + fld)
    for i, _ in st:
        v = L.val(i.ops[0])
        if any(x[0] == 'v' for x in allatoms(v)):
            rep.skip('objective', fld, 'shape')
        else:
            L.eq(fld, i, v, want)


def upd(rep, L, fld, wants, c, nm, neg=True):
    st = L.stores(fld=fld)
    seen = [False] * len(wants)
    for i, _ in st:
        v = L.val(i.ops[0])
        if any(x[0] == 'v' for x in alg.atoms(v)):
            rep.skip('objective', nm, 'shape')
            return
        hit = False
        cd = L.cond(i.block)
        for k, w in enumerate(wants):
            if is_zero(mul(cd, sub(v, w))):
                seen[k] = hit = True
        if not hit and not (alg.is_const(v) and alg.cval(v) == 0):
            rep.bad('objective', nm, i.loc(), '%s becomes %s' % (fld, alg.show(v)[:140]), key='objective:' + nm)
            return
    rep.check('objective', nm, all(seen), c.loc(), '%s is not the weighted mean over the data' % fld, key='objective:' + nm)


SETTER = {'lossFn': 'vl_svm_set_loss_function', 'lossDerivativeFn': 'vl_svm_set_loss_derivative_function', 'conjugateLossFn': 'vl_svm_set_conjugate_loss_function', 'dcaUpdateFn': 'vl_svm_set_dca_update_function'}


def dispatch(rep, m):
    f = m.F('vl_svm_set_loss')
    if f is None:
        rep.skip('loss selection', 'vl_svm_set_loss', 'not defined')
        return
    en = enumerators(m, 'VlSvmLoss') or {'VlSvmLossHinge': 0, 'VlSvmLossHinge2': 1, 'VlSvmLossL1': 2, 'VlSvmLossL2': 3, 'VlSvmLossLogistic': 4}
    E = mkeval(f)
    want = {}
    for fld, suf in (('lossFn', '_loss'), ('lossDerivativeFn', '_loss_derivative'), ('conjugateLossFn', '_conjugate_loss'), ('dcaUpdateFn', '_dca_update')):
        st = []
        for i in f.instrs:
            if i.op == 'store':
                try:
                    b, off = E.addr(i.ops[1])
                except alg.Unknown:
                    continue
                if b == E.obj and alg.is_const(off) and E.layout.get(int(alg.cval(off))) == fld:
                    st.append((i, i.ops[0]))
            elif i.op == 'call' and i.callee_name() == SETTER[fld] and i.ops[0] == f.args[0].id:
                st.append((i, i.ops[1]))
        for e, k in en.items():
            nm = 'vl_svm_' + e[len('VlSvmLoss'):].lower() + suf
            tot = {}
            try:
                for i, o in st:
                    cond = E.reach(0, i.block)[i.block] if i.block != 0 else C(1)
                    v = E.one(o) if not isinstance(o, int) else gated(E, o)
                    tot = add(tot, mul(cond, v))
            except alg.Unknown as ex:
                rep.skip('loss selection', '%s %s' % (e, fld), str(ex))
                continue
            x = ('arg', f.args[1].id)
            tot = alg.rebuild(tot, lambda a: C(k) if a == x else None)
            rep.check('loss selection', '%s %s' % (e, fld), same(tot, A('g', nm)), f.loc(), '%s installs %s as %s' % (e, alg.show(tot)[:80], fld), key='select:%s:%s' % (e, fld))


def gated(E, o):
    old = E.gate_ptr
    E.gate_ptr = True
    try:
        return E.one(o)
    finally:
        E.gate_ptr = old


def logistic_dca(rep, m):
    f = m.F('vl_svm_logistic_dca_update')
    if f is None or len(f.rets) != 1:
        rep.skip('loss formula', 'vl_svm_logistic_dca_update', 'not defined')
        return
    E = alg.Eval(f)
    al, ip, n2, y = (A('arg', a.id) for a in f.args[:4])
    what = 'vl_svm_logistic_dca_update'

    def der(b):
        return add(add(mul(n2, b), mul(y, sub(ip, mul(n2, al)))), sub(fn('log', b), fn('log', sub(C(1), b))))
    import itertools
    done = 0
    for h in sorted(f.loops):
        ph = [i for i in f.blocks[h] if i.op == 'phi' and i.ty == 'double']
        try:
            nxt, ini = {}, {}
            for p in ph:
                for o, b in p.inc:
                    if b in f.loops[h]:
                        nxt[p.id] = E.one(o)
                    else:
                        ini[p.id] = E.one(o)
        except alg.Unknown as e:
            rep.skip('loss formula', what, str(e))
            return
        good = None
        if len(ph) == 3:
            good = False
            for b, lo, hi in itertools.permutations(ph):
                B, LO, HI = A('v', b.id), A('v', lo.id), A('v', hi.id)
                for g in (ge0(der(B)), gt0(der(B))):
                    h1, l1 = sel(g, B, HI), sel(g, LO, B)
                    if same(nxt[hi.id], h1) and same(nxt[lo.id], l1) and same(nxt[b.id], scale(add(h1, l1), alg.Fraction(1, 2))) and \
                            same(ini[lo.id], {}) and same(ini[hi.id], C(1)) and same(ini[b.id], C(alg.Fraction(1, 2))):
                        good = True
        elif len(ph) == 1:
            B = A('v', ph[0].id)
            dd = add(n2, inv(mul(B, sub(C(1), B))))
            n = sub(B, mul(der(B), inv(dd)))
            good = same(nxt[ph[0].id], maxv({}, minv(C(1), n)))
        if good is None:
            rep.skip('loss formula', what, 'loop shape')
        else:
            done += 1
            rep.check('loss formula', '%s loop %d' % (what, done), good, f.blocks[h][0].loc(), 'the %s step towards the optimal dual variable is wrong' % ('bisection' if len(ph) == 3 else 'Newton'), key='loss:%s:%d' % (what, len(ph)))
    try:
        r = E.one(f.rets[0].ops[0])
        vs = [a for a in alg.atoms(r) if a[0] == 'v']
        if len(vs) == 1:
            rep.check('loss formula', what + ' result', same(r, sub(mul(y, A(*vs[0])), al)), f.rets[0].loc(), 'the step is %s' % alg.show(r), key='loss:%s:ret' % what)
        else:
            rep.skip('loss formula', what + ' result', 'shape')
    except alg.Unknown as e:
        rep.skip('loss formula', what + ' result', str(e))


def run():
    rep = report.Report('C32', RULE, 'algebraic normal forms')
    m = ir.libi()
    scalar(rep, m)
    logistic_dca(rep, m)
    dispatch(rep, m)
    sdca(rep, m)
    sgd(rep, m)
    stats(rep, m)
    bias_access(rep, m)
    rep.count('formulas compared', len(rep.obl))
    rep.floor('formulas compared', len(rep.obl), 40)
    return rep
