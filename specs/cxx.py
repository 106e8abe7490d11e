"""Helpers shared by the specifications of the C++ sources."""
import atexit, json, shutil, subprocess, tempfile, hashlib
from .common import *
from vcg.cxxfe import CxxModule, CxxExec, NPtr, ItV, Stream, PairV, Types, NPOS, M64, BIG


def cxxunit(src, contract, contracts=None, models=None, records=None, replay=None, timeout=8000, name=None, check='prove', typedefs=None, others=(), setup=None):
    nm = name or contract.qual

    def gen(prover):
        m = CxxModule.load(REPO, src)
        ex = CxxExec(m, prover, contracts=dict(contracts or {}), models=dict(models or {}), records=dict(records or {}), check=check, typedefs=typedefs,
                     others=[CxxModule.load(REPO, o) for o in others])
        if setup:
            setup(ex)
        obls = ex.verify(contract)
        return obls, {'inlined': ex.inlined, 'models': ex.called_models}
    return Unit(nm, src, gen, replay=replay or nm, timeout=timeout)


def local(L, ty, name=None):
    """the local variable of that type: the only one, or else the one of that name"""
    c = [(n, v) for n, v in L.vars_of(ty)]
    if len(c) == 1:
        return c[0][1]
    for n, v in c:
        if n == name:
            return v
    raise KeyError(name)


# --------------------------------------------------------- replay harnesses
HFLAGS = ['-std=c++17', '-w', '-O0', '-fno-exceptions', '-fno-rtti', '-I' + REPO, '-I/usr/lib/llvm-20/include', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS',
          '-DIWYU_GIT_REV="rev"', '-DIWYU_RESOURCE_BINARY_PATH=""', '-DIWYU_RESOURCE_DIR=""']
LIBS = ['-no-pie', '-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,lazy', '-L/usr/lib/llvm-20/lib', '-lLLVM', '/usr/lib/llvm-20/lib/libclang-cpp.so.20.1', '-Wl,-rpath,/usr/lib/llvm-20/lib']
_built = {}


def harness(main, sources, dirs=()):
    """compile the real sources and a driver into a scratch directory; path of the executable"""
    key = (main, tuple(sources))
    if key in _built:
        return _built[key]
    d = tempfile.mkdtemp(prefix='vharness')
    pid = os.getpid()
    atexit.register(lambda: shutil.rmtree(d, ignore_errors=True) if os.getpid() == pid else None)
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    srcs = [os.path.join(root, 'harness', main)] + [os.path.join(REPO, s) for s in sources]
    ps = []
    objs = []
    for i, s in enumerate(srcs):
        o = os.path.join(d, '%d.o' % i)
        objs.append(o)
        ps.append(subprocess.Popen(['clang++-20'] + HFLAGS + ['-c', s, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
    errs = [(p.communicate()[1], p.returncode) for p in ps]
    if any(rc for _, rc in errs):
        raise RuntimeError('harness does not compile: ' + ''.join(e for e, _ in errs)[:1500])
    exe = os.path.join(d, 'h')
    r = subprocess.run(['clang++-20'] + objs + ['-o', exe] + LIBS, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise RuntimeError('harness does not link: ' + r.stderr[:1500])
    _built[key] = exe
    return exe


def esc(s):
    b = s if isinstance(s, bytes) else s.encode('latin-1')
    return ''.join('%%%02X' % c if c <= 32 or c == 37 or c >= 127 else chr(c) for c in b) or '%'


def unesc(t):
    if t == '%':
        return ''
    out, i = [], 0
    while i < len(t):
        if t[i] == '%':
            out.append(chr(int(t[i + 1:i + 3], 16)))
            i += 3
        else:
            out.append(t[i])
            i += 1
    return ''.join(out)


def ask(exe, cmds, cwd='/', timeout=60):
    """results of the commands; 'DIED' from the command on which the process ended"""
    inp = '\n'.join('\t'.join([c[0]] + [esc(x) for x in c[1:]]) for c in cmds) + '\n'
    try:
        r = subprocess.run([exe], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=cwd, timeout=timeout)
        out = r.stdout.decode().split('\n')[:-1]
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode().split('\n')[:-1]
    return out + ['DIED'] * (len(cmds) - len(out))


def aslist(t):
    f = t.split('\t')
    if not f[0].isdigit():
        return t
    return [unesc(x) for x in f[1:]]


PICKER_SRCS = ['iwyu_include_picker.cc', 'iwyu_path_util.cc', 'iwyu_regex.cc', 'iwyu_verrs.cc', 'iwyu_port.cc']


def picker_harness():
    return harness('picker.cc', PICKER_SRCS)
