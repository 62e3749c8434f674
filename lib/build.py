"""Build driver: compiles /repo's current sources to LLVM bitcode (no code is
run), applies mem2reg-class clean-up and exports the resolved program as JSON.

Views
  lib      every vl/*.c, linked into one module, plus one synthetic unit that
           emits every static inline function of vl/*.h out of line
  libi     the same with every internal (static) function inlined
  omp      vl/*.c compiled with OpenMP on (own stub omp.h), linked
  mex:<n>  one toolbox MEX unit;   src:<n> one src/*.c driver / test program
  stub     instances of the header templates (stubs/containers.c)
  (suffix '+i' = static functions inlined; '+m' = the same, the inline mathematical helpers of mathop.h left as calls)
"""
import os, sys, re, glob, hashlib, json, subprocess, pickle, shutil, gc
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
CLANG = '/usr/bin/clang-18'
CLANGXX = '/usr/bin/clang++-18'
JOBS = 8


class AnalysisBroken(Exception):
    pass


def _sha(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def tool_hash():
    return _sha([os.path.join(VERIF, 'tools/irx.cpp')])


def ensure_tool():
    out = os.path.join(BUILD, 'irx-' + tool_hash())
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + '.tmp%d' % os.getpid()
        r = subprocess.run([CLANGXX, '-O1', '-fno-rtti', '-std=c++17', '-I/usr/lib/llvm-18/include',
                            os.path.join(VERIF, 'tools/irx.cpp'), '-o', tmp,
                            '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('cannot build tools/irx.cpp:\n' + r.stderr[:2000])
        os.rename(tmp, out)
    return out


def sources():
    s = {}
    s['vl'] = sorted(glob.glob(REPO + '/vl/*.c'))
    s['hdr'] = sorted(glob.glob(REPO + '/vl/*.h') + glob.glob(REPO + '/vl/*.def') + glob.glob(REPO + '/vl/*.tc'))
    s['src'] = sorted(glob.glob(REPO + '/src/*.c'))
    s['srch'] = sorted(glob.glob(REPO + '/src/*.h'))
    s['mex'] = sorted(glob.glob(REPO + '/toolbox/*/*.c'))
    s['mexh'] = sorted(glob.glob(REPO + '/toolbox/*.h') + glob.glob(REPO + '/toolbox/*/*.h') + glob.glob(REPO + '/toolbox/*/*.def'))
    return s


COMMON = ['-std=c99', '-DNDEBUG', '-m64', '-D_GNU_SOURCE', '-fno-stack-protector', '-fvisibility=hidden', '-fPIC',
          '-pthread', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-g', '-emit-llvm', '-c', '-w',
          '-fno-builtin-memset' if False else '-fno-inline-functions', '-Wno-unused-command-line-argument']


def mex_inc():
    try:
        o = subprocess.run(['mkoctfile', '-p', 'INCFLAGS'], capture_output=True, text=True, timeout=60).stdout.split()
    except Exception:
        o = []
    if not o:
        c = sorted(glob.glob('/usr/include/octave-*/octave'))
        o = ['-I' + x for x in c]
    return o


def flags_for(path, kind):
    base = os.path.basename(path)
    f = list(COMMON)
    if kind in ('vl', 'omp'):
        f += ['-DVL_BUILD_DLL', '-I' + REPO]
        f += ['-DVL_DISABLE_OPENMP'] if kind == 'vl' else ['-fopenmp', '-I' + os.path.join(VERIF, 'stubs')]
        if base.endswith('_sse2.c'):
            f += ['-msse2']
        if base.endswith('_avx.c'):
            f += ['-mavx']
    elif kind == 'src':
        f += ['-I' + REPO]
    elif kind == 'mex':
        f += ['-DVL_DISABLE_OPENMP', '-I' + REPO, '-I' + REPO + '/toolbox', '-DMWSIZE_MAX=2147483647',
              '-DMATLAB_MEX_FILE'] + mex_inc()
    elif kind == 'stub':
        f += ['-DVL_DISABLE_OPENMP', '-I' + REPO]
    elif kind == 'hdr':
        f += ['-DVL_BUILD_DLL', '-DVL_DISABLE_OPENMP', '-I' + REPO, '-Xclang', '-femit-all-decls']
    return f


def _compile(job):
    path, kind, out = job
    r = subprocess.run([CLANG] + flags_for(path, kind) + [path, '-o', out], capture_output=True, text=True, cwd=REPO)
    if r.returncode:
        return (path, kind, r.stderr[:1500])
    return None


def _keep_recent(n=int(os.environ.get('VP_KEEP', '6'))):
    def age(d):
        try:
            return os.path.getmtime(d)
        except OSError:
            return 0  # removed by another run
    ds = sorted(glob.glob(BUILD + '/v-*'), key=age)
    for d in ds[:-n]:
        shutil.rmtree(d, ignore_errors=True)


def _workdir():
    s = sources()
    allf = sum(s.values(), [])
    h = _sha(allf, tool_hash() + open(os.path.abspath(__file__)).read() +
             ''.join(open(p).read() for p in glob.glob(VERIF + '/stubs/*')) + REPO)
    d = os.path.join(BUILD, 'v-' + h)
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    _keep_recent()
    return d, s


INLINE_HEADERS = ['generic', 'host', 'mathop', 'imopv', 'kmeans', 'hikmeans', 'ikmeans', 'kdtree', 'sift', 'dsift',
                  'mser', 'quickshift', 'covdet', 'scalespace', 'gmm', 'vlad', 'fisher', 'hog', 'homkermap', 'lbp',
                  'liop', 'svm', 'svmdataset', 'random', 'rodrigues', 'slic', 'stringop', 'pgm', 'array', 'aib',
                  'getopt_long']


def compile_kind(kind):
    """-> {basename: bc path}"""
    d, s = _workdir()
    files = {'vl': s['vl'], 'omp': s['vl'], 'src': s['src'], 'mex': s['mex'], 'stub': [os.path.join(VERIF, 'stubs/containers.c')]}.get(kind)
    if kind == 'hdr':
        p = os.path.join(d, 'headers.c')
        names = [os.path.basename(h) for h in s['hdr']
                 if h.endswith('.h') and not h.endswith('-def.h') and '_sse2' not in h and '_avx' not in h
                 and not h.endswith('float.h')]
        with open(p, 'w') as f:
            f.write(''.join('#include <vl/%s>\n' % n for n in sorted(names, key=lambda n: (n != 'generic.h', n))))
        files = [p]
    if kind == 'mex' and not files or kind == 'vl' and len(files) < 30:
        raise AnalysisBroken('sources missing for ' + kind)
    jobs, out = [], {}
    for f in files:
        o = os.path.join(d, kind + '-' + os.path.basename(f)[:-2] + '.bc')
        out[os.path.basename(f)[:-2]] = o
        if not os.path.exists(o):
            jobs.append((f, kind, o))
    if jobs:
        with ThreadPoolExecutor(JOBS) as ex:
            errs = [e for e in ex.map(_compile, jobs) if e]
        if errs:
            raise AnalysisBroken('front end failed on %s (%s):\n%s' % errs[0])
    return out


KEEP = ['vl_%s_%s' % (n, t) for n in ('mod_2pi', 'floor', 'ceil', 'round', 'fast_sqrt', 'fast_resqrt', 'fast_atan2') for t in 'fd'] + ['vl_fast_sqrt_ui%d' % n for n in (8, 16, 32, 64)]


def _irx(out, ins, inline, keep=()):
    if os.path.exists(out):
        return
    tool = ensure_tool()
    tmp = out + '.tmp%d' % os.getpid()
    r = subprocess.run([tool] + (['-inline'] if inline else []) + (['-keep=' + ','.join(keep)] if keep else []) + [tmp] + ins, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('irx failed: ' + r.stderr[:1500])
    os.rename(tmp, out)


def export(view):
    """view -> list of JSON paths (one per module)"""
    keep = KEEP if view.endswith('+m') else []
    inl = view.endswith('+i') or bool(keep)
    base = view[:-2] if inl else view
    d, s = _workdir()
    sfx = '.m.json' if keep else '.i.json' if inl else '.json'
    if base in ('lib', 'omp'):
        bc = compile_kind('vl' if base == 'lib' else 'omp')
        ins = [bc[k] for k in sorted(bc)]
        if base == 'lib':
            ins += compile_kind('hdr').values()
        o = os.path.join(d, base + sfx)
        _irx(o, ins, inl, keep)
        return {base: o}
    if base in ('mex', 'src', 'stub'):
        bc = compile_kind(base)
        ensure_tool()
        res = {k: os.path.join(d, base + '-' + k + sfx) for k in bc}
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda k: _irx(res[k], [bc[k]], inl, keep), sorted(bc)))
        return res
    raise ValueError(view)


def load(view):
    """-> {name: raw json dict}"""
    out = {}
    gc.disable()
    try:
        for k, p in export(view).items():
            with open(p) as f:
                out[k] = json.load(f)
    finally:
        gc.enable()
    return out


if __name__ == '__main__':
    if sys.argv[1:] == ['tool']:
        print(ensure_tool())
    else:
        for v in sys.argv[1:]:
            for k, p in export(v).items():
                print(k, p, os.path.getsize(p))


def constants(header, names):
    """{name: value} of integer macros and enumerators of a public header"""
    src = '#include <stddef.h>\n#include <%s>\n' % header + ''.join('const long long c_%d = (long long)(%s) ;\n' % (k, n) for k, n in enumerate(names))
    r = subprocess.run([CLANG, '-I' + REPO, '-w', '-x', 'c', '-S', '-emit-llvm', '-o', '-', '-'], input=src, capture_output=True, text=True)
    out = {}
    for m in re.finditer(r'@c_(\d+) = [^\n]*?i64 (-?\d+)', r.stdout):
        out[names[int(m.group(1))]] = int(m.group(2))
    return out
