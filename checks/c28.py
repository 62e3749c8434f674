"""C28: formats match their arguments."""
import re
import ir, effects, flow, api, report, c11

RULE = ('for every call of a printf/scanf style function (library messages through the registered function, error messages, drivers, MEX '
        'messages) with a literal format: as many arguments as conversions, each of the kind its conversion reads (integer, floating, '
        'string, pointer; for scanf the size of the object written), and no %n; a format that is not literal never carries outside text')

# name -> index of the format operand
FMT = {'printf': 0, 'fprintf': 1, 'snprintf': 2, 'sprintf': 1, 'mexPrintf': 0, 'mexErrMsgIdAndTxt': 1, 'mexWarnMsgIdAndTxt': 1,
       'vl_set_last_error': 1, 'vlmxError': 1, 'vlmxWarning': 1, 'mexErrMsgTxt': None, '__printf_chk': 1, '__fprintf_chk': 2}
SCAN = {'__isoc23_fscanf': 1, '__isoc23_sscanf': 1, 'fscanf': 1, 'sscanf': 1, '__isoc99_fscanf': 1, '__isoc99_sscanf': 1}
# call through a user-changeable wrapper with the same contract
CONV = re.compile(r'%(?:(%)|([-+ #0\']*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|q|j|z|t|L)?([diouxXeEfFgGaAcspnSC]))')
SCONV = re.compile(r'%(?:(%)|(\*)?(\d+)?(hh|h|ll|l|q|j|z|t|L)?([diouxXeEfFgGaAcspn]|\[\^?\]?[^\]]*\]))')
INT = {'i1', 'i8', 'i16', 'i32', 'i64'}


def want(s):
    """list of kinds a printf format consumes, or None if malformed"""
    out = []
    pos = 0
    while True:
        k = s.find('%', pos)
        if k < 0:
            return out
        mm = CONV.match(s, k)
        if not mm:
            return None
        pos = mm.end()
        if mm.group(1):
            continue
        if mm.group(3) == '*':
            out.append('int')
        if mm.group(4) == '*':
            out.append('int')
        c, L = mm.group(6), mm.group(5)
        if c in 'diouxXc':
            out.append('int64' if L in ('l', 'll', 'z', 't', 'j', 'q') else 'int')
        elif c in 'eEfFgGaA':
            out.append('double')
        elif c in 'sS':
            out.append('str')
        elif c == 'p':
            out.append('ptr')
        else:
            out.append('n')


def kind_ok(k, ty):
    if k == 'int':
        return ty in INT            # a 64 bit value printed with %d shows its low half: tolerated, see DESIGN
    if k == 'int64':
        return ty == 'i64'
    if k == 'double':
        return ty in ('double', 'x86_fp80')
    if k in ('str', 'ptr'):
        return ty.startswith('ptr')
    return False


def optype(f, o):
    if isinstance(o, int):
        return f.vals[o].ty or ''
    if isinstance(o, list):
        if o[0] == 'c':
            return o[1] if isinstance(o[1], str) else 'i%s' % o[1]
        if o[0] == 'cf':
            return o[1]
        if o[0] in ('g', 'null'):
            return 'ptr'
    if isinstance(o, dict):
        return 'ptr'
    return ''


def check_mod(rep, m, an, prefix, where):
    n = 0
    for f in m.defined():
        if prefix and not f.file.startswith(prefix):
            continue
        for i in f.instrs:
            if i.op != 'call':
                continue
            c = i.callee_name()
            if c in FMT and FMT[c] is not None:
                k = FMT[c]
            elif c11.is_print(f, i):
                k = 0
            elif c in SCAN:
                n += scan(rep, m, f, i, SCAN[c])
                continue
            else:
                continue
            if k >= len(i.ops):
                continue
            n += 1
            s = m.cstring(i.ops[k])
            inst = '%s line %s' % (f.src, i.ln)
            if s is None:
                v = f.val(i.ops[k])
                if ir.is_null(i.ops[k]):
                    rep.ok('format', inst, 'no message')
                elif v is not None and v.op == 'arg' and v.id == k and c in FMT:
                    rep.ok('format', inst, 'forwarded by a variadic wrapper')
                elif literal_choice(m, f, i.ops[k]):
                    for t in literal_choice(m, f, i.ops[k]):
                        one(rep, f, i, k, t, inst)
                elif v is not None and v.op == 'arg' and arg_literals(m, f, v):
                    for t in arg_literals(m, f, v):
                        one(rep, f, i, k, t, inst)
                elif v is not None and from_table(m, f, v):
                    rep.skip('format', inst, 'format chosen from a constant table of strings')
                elif v is not None:
                    rep.bad('format is literal', inst, i.loc(), 'the format is not a literal: text from outside would be interpreted as conversions', key='fmt:%s:nonliteral' % f.src)
                continue
            one(rep, f, i, k, s, inst)
    return n


def literal_choice(m, f, o):
    v = f.val(o)
    if v is None or v.op not in ('phi', 'select'):
        return None
    parts = [x for x, _ in v.inc] if v.op == 'phi' else v.ops[1:]
    t = [m.cstring(x) for x in parts]
    return None if any(x is None for x in t) else t


def arg_literals(m, f, v):
    """the literals every caller of a helper passes in this argument, or None"""
    out, seen = [], 0
    for g in m.defined():
        for c in g.instrs:
            if c.op == 'call' and c.callee_name() == f.name:
                seen += 1
                if v.id >= len(c.ops):
                    return None
                t = m.cstring(c.ops[v.id])
                if t is None:
                    return None
                out.append(t)
    return out if seen else None


def from_table(m, f, v):
    if v.op != 'load':
        return False
    b = v.ops[0]
    for _ in range(6):
        if isinstance(b, list) and b[0] == 'g':
            g = m.globals.get(b[1]) if hasattr(m, 'globals') else None
            return bool(g)
        w = f.val(b)
        if w is None or w.op != 'gep':
            return False
        b = w.ops[0]
    return False


def one(rep, f, i, k, s, inst):
    w = want(s)
    args = i.ops[k + 1:]
    key = 'fmt:%s:%s' % (f.src, s[:40])
    if w is None:
        rep.bad('format', inst, i.loc(), 'malformed conversion in "%s"' % s[:60], key=key)
        return
    if len(args) < len(w):
        rep.bad('format', inst, i.loc(), '"%s" needs %d arguments, %d given' % (s[:60], len(w), len(args)), key=key)
        return
    if len(args) > len(w):
        rep.bad('format', inst, i.loc(), '"%s" uses %d arguments, %d given' % (s[:60], len(w), len(args)), key=key)
        return
    for j, (x, o) in enumerate(zip(w, args)):
        t = optype(f, o)
        if t and not kind_ok(x, t):
            rep.bad('format', inst, i.loc(), '"%s": conversion %d reads a%s %s, the argument is %s' % (s[:60], j + 1, 'n' if x[0] == 'i' else '', x, t), key=key)
            return
    rep.ok('format', inst, s[:40])


def scan(rep, m, f, i, k):
    s = m.cstring(i.ops[k])
    inst = '%s line %s' % (f.src, i.ln)
    if s is None:
        return 0
    w = []
    pos = 0
    while True:
        p = s.find('%', pos)
        if p < 0:
            break
        mm = SCONV.match(s, p)
        if not mm:
            rep.bad('scan format', inst, i.loc(), 'malformed conversion in "%s"' % s)
            return 1
        pos = mm.end()
        if mm.group(1) or mm.group(2):
            continue
        w.append((mm.group(5), mm.group(4), mm.group(3)))
    args = i.ops[k + 1:]
    if len(w) != len(args):
        rep.bad('scan format', inst, i.loc(), '"%s" stores %d values, %d addresses given' % (s, len(w), len(args)))
        return 1
    for (c, L, width), o in zip(w, args):
        sz = pointee_size(f, o)
        if c in 'diouxX':
            need = {'hh': 1, 'h': 2, 'l': 8, 'll': 8, 'z': 8, 'j': 8, 't': 8}.get(L, 4)
        elif c in 'eEfFgGaA':
            need = {'l': 8, 'L': 16}.get(L, 4)
        elif c == 's' or c[0] == '[':
            if width is None:
                rep.bad('scan format', inst, i.loc(), 'unbounded %%%s' % c)
                return 1
            continue
        else:
            continue
        if sz is not None and sz != need:
            rep.bad('scan format', inst, i.loc(), '"%s" writes %d bytes through the address of a %d byte object' % (s, need, sz))
            return 1
    rep.ok('scan format', inst, s)
    return 1


SZ = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'float': 4, 'double': 8}


def pointee_size(f, o):
    v = f.val(o)
    if v is not None and v.op == 'alloca':
        return SZ.get(v.aty)
    return None


def run():
    rep = report.Report('C28', RULE, 'query over every variadic formatting call of the typed program')
    m, an = ir.lib(), effects.lib_analysis()
    a = check_mod(rep, m, an, 'vl/', 'library')
    b = sum(check_mod(rep, x, None, '', 'drivers') for k, x in ir.load('src').items() if 'test_' not in k)
    c = sum(check_mod(rep, x, None, '', 'mex') for x in ir.load('mex').values())
    rep.count('library formatting calls', a)
    rep.count('driver formatting calls', b)
    rep.count('MEX formatting calls', c)
    rep.floor('library formatting calls', a, 50)
    rep.floor('driver formatting calls', b, 80)
    rep.floor('MEX formatting calls', c, 200)
    return rep
