"""The library's public surface, as compiled."""
import re, ir


def table(m):
    """source name -> Func for every public function (exported or header inline)"""
    t = {}
    for f in m.defined():
        if f.name.startswith('hdr$') and f.file.startswith('vl/'):
            t.setdefault(f.src, f)
    for f in m.defined():
        if m.is_public(f):
            t[f.src] = f
    return t


def libfuncs(m):
    """every distinct library function (drops duplicate header-inline copies)"""
    seen = set()
    out = []
    for f in m.defined():
        if not f.file.startswith('vl/'):
            continue
        k = (f.file, f.src, f.line) if f.file.endswith('.h') and not f.file.endswith('-def.h') else f.name
        if f.file in ('vl/mathop.h', 'vl/generic.h', 'vl/random.h', 'vl/kmeans.h', 'vl/sift.h', 'vl/dsift.h', 'vl/covdet.h'):
            k = (f.file, f.src)
        if k in seen:
            continue
        seen.add(k)
        out.append(f)
    return out
