"""Counted loops: induction variables and their ranges as polynomials."""
import ir, flow, expr
from ir import const_int


def induction(f, h):
    """header phis of the form x = phi(init outside, x + step inside): {phi id: (init operand, step int, next ids)}"""
    body = f.loops[h]
    out = {}
    for v in f.blocks[h]:
        if v.op != 'phi':
            continue
        ins = [(o, p) for o, p in v.inc if p in body]
        outs = [(o, p) for o, p in v.inc if p not in body]
        if len(ins) < 1 or len({repr(o) for o, p in outs}) != 1:
            continue
        step, nxt, good = None, set(), True
        for o, p in ins:
            w = f.val(flow.strip_casts(f, o))
            if w is None or w.op not in ('add', 'sub'):
                good = False
                break
            a, b = w.ops
            base = flow.strip_casts(f, a)
            k = const_int(b)
            if k is None and w.op == 'add':
                base, k = flow.strip_casts(f, b), const_int(a)
            if base != v.id or k is None:
                good = False
                break
            k = -k if w.op == 'sub' else k
            if step not in (None, k):
                good = False
                break
            step = k
            nxt.add(w.id)
        if good and step:
            out[v.id] = (outs[0][0], step, nxt)
    return out


FLIP = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'eq': 'eq', 'ne': 'ne'}
NEG = {'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule', 'eq': 'ne', 'ne': 'eq'}


def range_of(N, h):
    """(phi id, init poly, step, end poly (exclusive)) of the loop whose single exit test compares its induction
    variable, or None"""
    f = N.f
    body = f.loops[h]
    ind = induction(f, h)
    exits = [(b, s) for b in body for s in f.succ[b] if s not in body]
    res = None
    for b, s in exits:
        t = f.blocks[b][-1]
        if t.op != 'br' or t.cond is None:
            continue
        c = f.val(t.cond)
        if c is None or c.op != 'icmp':
            continue
        pred = c.pred if t.succ[0] in body else NEG[c.pred]
        x, y = flow.strip_casts(f, c.ops[0]), flow.strip_casts(f, c.ops[1])
        for (a, o, pr) in ((x, c.ops[1], pred), (y, c.ops[0], FLIP[pred])):
            for pid, (init, step, nxt) in ind.items():
                off = None
                if a == pid:
                    off = 0
                elif isinstance(a, int) and a in nxt:
                    off = step
                if off is None:
                    continue
                bound = N.op(o)
                if any(isinstance(at, tuple) and at[0] == 'v' and at[1] in {i.id for bb in body for i in f.blocks[bb]} for m in bound for at, k in m):
                    continue
                init_p = N.op(init)
                end = None
                if step > 0 and pr in ('slt', 'ult', 'ne'):
                    end = bound
                elif step > 0 and pr in ('sle', 'ule'):
                    end = expr.add(bound, expr.const(1))
                elif step < 0 and pr in ('sgt', 'ugt', 'ne'):
                    end = bound
                elif step < 0 and pr in ('sge', 'uge'):
                    end = expr.add(bound, expr.const(-1))
                if end is None:
                    continue
                if off:
                    # test on the incremented value: bottom-tested loop; still visits init .. end (non-empty)
                    pass
                res = (pid, init_p, step, end, b)
    return res
