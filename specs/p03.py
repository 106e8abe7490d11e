"""P03 rewriting of a compile command into an analysis command."""
from .common import *

ENTRY = REC('Entry', {'command': OPT(STR), 'arguments': OPT(LIST(STR)), 'directory': STR}, isdict=True)
INV = REC('Invocation', {'command': LIST(STR), 'cwd': STR})
F = 'iwyu_tool.py'
EXE = z3.String('IWYU_EXECUTABLE')
WRAPPERS = ['ccache']


def split(v):
    r = uf('split_command', LIST(STR), v)
    return r


def models(m):
    return {'const:IWYU_EXECUTABLE': vstr(EXE)}


def contracts(m):
    def sp(ex, s, args, kw):
        r = split(ex.rv(s, args[0]))
        s.add(r.len >= 1)
        return [(s, s.new_cell(r, 'words'))]
    return {'split_command': sp}


def words(e):
    """the command line of an entry: the list form wins over the string form"""
    return ite(e.f('arguments').some, e.f('arguments').val, split(e.f('command').val))


def is_cl(x):
    return Or(z3.SuffixOf(S('cl.exe'), x), z3.SuffixOf(S('clang-cl'), x))


def pre(c):
    e = c.old('entry')
    w = words(e)
    wrapped = Or([w.at(0).t == S(x) for x in WRAPPERS])
    return [Implies(e.f('arguments').some, e.f('arguments').val.len >= 1), w.len >= 1, Implies(wrapped, w.len >= 2), c.old('extra_args').len >= 0]


def post(c):
    e = c.old('entry')
    x = c.old('extra_args')
    w = words(e)
    r = c.retval().f('command')
    wrapped = Or([w.at(0).t == S(k) for k in WRAPPERS])
    h = If(wrapped, I(1), I(0))
    comp = If(wrapped, w.at(1).t, w.at(0).t)
    d = If(is_cl(comp), I(1), I(0))
    base = 1 + d + x.len
    return [('entry-has-a-command', Or(e.f('arguments').some, e.f('command').some)),
            ('runs-the-analyser', r.at(0).t == EXE),
            ('cl-driver-mode-exactly-for-cl-drivers', Implies(is_cl(comp), r.at(1).t == S('--driver-mode=cl'))),
            ('user-arguments-kept-in-order', forall(1, lambda i: Implies(within(i, x.len), r.at(1 + d + i).t == x.at(i).t), lambda i: [x.at(i).t])),
            *[('compile-arguments-kept-in-order[%d%d]' % (hv, dv), Implies(And(h == hv, d == dv), forall(1, lambda i: Implies(
                And(0 <= i, i < w.len - hv - 1), r.at(1 + dv + x.len + i).t == w.at(hv + 1 + i).t)))) for hv in (0, 1) for dv in (0, 1)],
            ('nothing-added-or-lost', r.len == base + w.len - h - 1),
            ('runs-in-the-entry-directory', c.retval().f('cwd').t == e.f('directory').t),
            ('shared-arguments-not-changed', eq(c.new('extra_args'), x))]


def raises(c, exc):
    e = c.old('entry')
    return [('only-entries-without-command-are-rejected', And(exc == 'ValueError', Not(e.f('arguments').some), Not(e.f('command').some)))]


# ------------------------------------------------------------- main
MENTRY = REC('Entry', {'id': INT}, isdict=True)
MINV = REC('Invocation', {'id': INT})


def main_models(m):
    def isdir(ex, s, a, k):
        return [(s, uf('isdir', BOOL, ex.rv(s, a[0])))]

    def opn(ex, s, a, k):
        bad = s.copy()
        ok = z3.Bool('db_readable')
        bad.add(Not(ok))
        g = s.ghost['opened']
        s.ghost['opened'] = ex.rv(s, a[0])
        s.add(ok)
        return [(s, s.new_cell(REC('File', {'n': STR}).fresh('file'), 'f')), (bad, ('exc', 'IOError', None))]

    def load(ex, s, a, k):
        r = uf('db_of', LIST(MENTRY), s.ghost['opened'])
        s.add(r.len >= 0)
        return [(s, s.new_cell(r, 'db'))]
    one = lambda nm: (lambda ex, s, a, k: [(s, uf(nm, STR, *[ex.rv(s, x) for x in a]))])
    return {'os.path.isdir': isdir, 'builtin:open': opn, 'json.load': load, 'os.path.realpath': one('realpath'), 'os.path.join': one('pathjoin'),
            'const:IWYU_EXECUTABLE': Val(OPT(STR), (z3.Bool('have_exe'), EXE)), 'builtin:print': lambda ex, s, a, k: [(s, Val(UNIT, ()))]}


def main_contracts(m):
    def fix(ex, s, a, k):
        v = ex.rv(s, a[0])
        r = uf('fixed', LIST(MENTRY), v)
        s.add(r.len == v.len)
        return [(s, s.new_cell(r, 'db'))]

    def sl(ex, s, a, k):
        r = uf('sliced', LIST(MENTRY), ex.rv(s, a[0]), ex.rv(s, a[1]))
        s.add(r.len >= 0)
        return [(s, s.new_cell(r, 'db'))]

    def fcc(ex, s, a, k):
        # (class, entry, extra args)
        e = ex.rv(s, a[1])
        x = ex.rv(s, a[2])
        return [(s, s.new_cell(Val(MINV, (uf('inv_of', INT, e.f('id'), x).t,)), 'inv'))]

    def execute(ex, s, a, k):
        names = ['invocations', 'verbose', 'formatter', 'jobs', 'max_load_average']
        d = dict(zip(names, a))
        d.update(k)
        s.ghost['ran'] = ex.rv(s, d['invocations'])
        s.ghost['jobs'] = ex.rv(s, d['jobs'])
        s.ghost['nexec'] = vint(s.ghost['nexec'].t + 1)
        return [(s, vint(z3.Int('status')))]
    return {'fixup_compilation_db': fix, 'slice_compilation_db': sl, 'Invocation.from_compile_command': fcc, 'execute': execute}


def main_ghost(ex, st):
    return {'opened': STR.fresh('opened'), 'ran': LIST(MINV).fresh('ran'), 'jobs': vint(0), 'nexec': vint(0)}


def main_post(c):
    r = c.retval().t
    p = c.old('compilation_db_path')
    path = If(uf('isdir', BOOL, p).t, uf('pathjoin', STR, p, vstr('compile_commands.json')).t, p.t)
    db = uf('db_of', LIST(MENTRY), uf('realpath', STR, vstr(path)))
    sel = uf('sliced', LIST(MENTRY), uf('fixed', LIST(MENTRY), db), c.old('source_files'))
    ok = And(z3.Bool('have_exe'), EXE != S(''), z3.Bool('db_readable'))
    ran = c.ghost('ran')
    x = c.old('extra_args')
    return [('failure-to-start-is-reported', Implies(Not(ok), And(r != 0, c.ghost('nexec').t == 0))),
            ('status-of-the-runs-is-the-status', Implies(ok, And(r == z3.Int('status'), c.ghost('nexec').t == 1))),
            ('one-run-per-selected-entry', Implies(ok, And(ran.len == sel.len, forall(1, lambda i: Implies(within(i, sel.len), ran.at(i).f('id').t == uf('inv_of', INT, sel.at(i).f('id'), x).t))))),
            ('job-count-passed-on', Implies(ok, c.ghost('jobs').t == c.old('jobs').t))]


# ------------------------------------------------------------- find exe
def find_models(m):
    def which(ex, s, a, k):
        p = k.get('path')
        r = uf('which_in', OPT(STR), ex.rv(s, a[0]), ex.rv(s, p)) if p is not None else uf('which', OPT(STR), ex.rv(s, a[0]))
        s.add(Implies(r.some, r.val.t != S('')))
        return [(s, r)]
    return {'os.environ.get': lambda ex, s, a, k: [(s, uf('getenv', OPT(STR), ex.rv(s, a[0])))], 'shutil.which': which,
            'os.path.dirname': lambda ex, s, a, k: [(s, uf('dirname', STR, ex.rv(s, a[0])))],
            'os.path.realpath': lambda ex, s, a, k: [(s, uf('realpath', STR, ex.nn(s, a[0])))], 'const:__file__': vstr(z3.String('__file__'))}


def find_post(c):
    r = c.retval(OPT(STR))
    env = uf('getenv', OPT(STR), vstr('IWYU_BINARY'))
    nm = vstr('include-what-you-use')
    here = uf('which_in', OPT(STR), nm, uf('dirname', STR, vstr(z3.String('__file__'))))
    path = uf('which', OPT(STR), nm)
    isset = And(env.some, env.val.t != S(''))
    rp = lambda v: uf('realpath', STR, v.val).t
    return [('environment-override-first', Implies(isset, And(r.some, r.val.t == rp(env)))),
            ('then-next-to-the-script', Implies(And(Not(isset), here.some), And(r.some, r.val.t == rp(here)))),
            ('then-the-search-path', Implies(And(Not(isset), Not(here.some)), And(r.some == path.some, Implies(path.some, r.val.t == rp(path)))))]


# ------------------------------------------------------------- command line
PARSER = REF('Parser')
FMTS = MAP(STR, REF('Formatter'))
FM = Val(FMTS, FMTS.fresh('formatters').ls)
ARGS = REC('Args', {'dbpath': STR, 'source': LIST(STR), 'verbose': BOOL, 'output_format': STR, 'jobs': INT, 'load': REAL})


def boot_models(m):
    nop = lambda ex, s, *a: [(s, Val(UNIT, ()))]

    def parse(ex, s, o, a, k):
        s.ghost['own'] = ex.rv(s, a[0])
        r = ARGS.fresh('args')
        for n in ('dbpath', 'verbose', 'output_format', 'jobs', 'load'):
            s.add(r.f(n).t == z3.Const('arg_' + n, r.f(n).t.sort()))
        s.add(r.f('source').len >= 0)
        s.add(FM.ls[0][r.f('output_format').t])   # choices=FORMATTERS.keys()
        s.ghost['source'] = r.f('source')
        return [(s, s.new_cell(r, 'args'))]

    def cpus(ex, s, a, k):
        r = Val(OPT(INT), (z3.Bool('cpus_known'), z3.Int('cpus')))
        s.add(Implies(r.some, r.val.t >= 1))
        return [(s, r)]
    return {'argparse.ArgumentParser': lambda ex, s, a, k: [(s, PARSER.fresh('parser'))], 'method:ref:Parser.add_argument': lambda ex, s, o, a, k: [(s, Val(UNIT, ()))],
            'method:ref:Parser.parse_args': parse, 'os.cpu_count': cpus, 'opaque:ref:Parser': True, 'local:customize_usage': nop, 'local:customize_help': nop,
            'const:FORMATTERS': FM}


def boot_contracts(m):
    def main(ex, s, a, k):
        names = ['compilation_db_path', 'source_files', 'verbose', 'formatter', 'jobs', 'max_load_average', 'extra_args']
        d = dict(zip(names, a))
        d.update(k)
        for n in names:
            if n != 'formatter':
                s.ghost['m_' + n] = ex.coerce(ex.nn(s, d[n]), s.ghost['m_' + n].ty)
        s.ghost['n'] = vint(s.ghost['n'].t + 1)
        return [(s, vint(z3.Int('main_status')))]
    return {'main': main}


def boot_ghost(ex, st):
    g = {'own': LIST(STR).fresh('own'), 'source': LIST(STR).fresh('src'), 'n': vint(0)}
    for n, t in (('compilation_db_path', STR), ('source_files', LIST(STR)), ('verbose', BOOL), ('jobs', INT), ('max_load_average', REAL), ('extra_args', LIST(STR))):
        g['m_' + n] = t.fresh(n)
    return g


def boot_post(c):
    v = c.old('sys_argv')
    own, x = c.ghost('own'), c.ghost('m_extra_args')
    dd = S('--')
    # d: position of the first double dash after the program name
    d = lambda d_: And(1 <= d_, d_ < v.len, v.at(d_).t == dd, forall(1, lambda i: Implies(And(1 <= i, i < d_), v.at(i).t != dd)))
    split_at = lambda d_: And(own.len == d_ - 1, x.len == v.len - d_ - 1)
    none = forall(1, lambda i: Implies(And(1 <= i, i < v.len), v.at(i).t != dd))
    same = lambda a, b: eq(a, b)
    jobs = z3.Int('arg_jobs')
    return [('everything-is-the-tools-own-without-a-double-dash', Implies(none, And(own.len == v.len - 1, x.len == 0))),
            ('split-at-the-first-double-dash', Implies(Not(none), And(own.len + 1 < v.len, v.at(own.len + 1).t == dd, forall(1, lambda i: Implies(And(1 <= i, i <= own.len), v.at(i).t != dd)),
                                                                     x.len == v.len - own.len - 2))),
            ('own-arguments-in-order', forall(1, lambda i: Implies(within(i, own.len), own.at(i).t == v.at(i + 1).t), lambda i: [own.at(i).t])),
            ('extra-arguments-in-order', forall(1, lambda i: Implies(within(i, x.len), x.at(i).t == v.at(own.len + 2 + i).t), lambda i: [x.at(i).t])),
            ('runs-once-and-returns-its-status', And(c.ghost('n').t == 1, c.retval(INT).t == z3.Int('main_status'))),
            ('at-least-one-job', Implies(jobs >= 0, c.ghost('m_jobs').t >= 1)),
            ('requested-number-of-jobs', Implies(jobs > 0, c.ghost('m_jobs').t == jobs)),
            ('options-passed-on', And(c.ghost('m_compilation_db_path').t == z3.String('arg_dbpath'), c.ghost('m_verbose').t == z3.Bool('arg_verbose'),
                                      c.ghost('m_max_load_average').t == z3.Const('arg_load', c.ghost('m_max_load_average').t.sort()), same(c.ghost('m_source_files'), c.ghost('source'))))]


def boot_pre(c):
    return [c.old('sys_argv').len >= 1]


def replay_boot(seed, tier):
    m = realmod(F)
    rnd = random.Random(seed)
    got = []

    def fake(dbpath, sources, verbose, formatter, jobs, load, extra):
        got.append((dbpath, list(sources), verbose, formatter, jobs, load, list(extra)))
        return 42
    m.main = fake
    for k in range(400):
        own = ['-p', 'build']
        exp = ['build', [], False, 'iwyu', 1, 0, []]
        if rnd.random() < .4:
            own.append(rnd.choice(['-v', '--verbose']))
            exp[2] = True
        if rnd.random() < .5:
            j = rnd.choice([0, 1, 2, 7])
            own += ['-j', str(j)]
            exp[4] = j or os.cpu_count() or 1
        if rnd.random() < .3:
            own += ['-l', '2.5']
            exp[5] = 2.5
        if rnd.random() < .5:
            f = rnd.choice(['iwyu', 'clang', 'clang-warning'])
            own += ['-o', f]
            exp[3] = f
        if rnd.random() < .5:
            exp[1] = [rnd.choice(['a.cc', 'dir', './x']) for _ in range(rnd.randint(1, 3))]
            own = own + exp[1] if own[-1] not in ('-j',) else own
        argv = ['iwyu_tool.py'] + own
        if rnd.random() < .6:
            exp[6] = [rnd.choice(['-Xiwyu', '--mapping_file=x', '--', '-p', 'a.cc', '-v']) for _ in range(rnd.randint(0, 4))]
            argv += ['--'] + exp[6]
        got.clear()
        try:
            with silent():
                r = m._bootstrap(list(argv))
        except SystemExit as e:
            r = 'exit %s' % e.code
        g = list(got[0]) if got else None
        if g:
            names = [n for n, f in m.FORMATTERS.items() if f is g[3]]
            g[3] = names[0] if names else None
        if r != 42 or g != exp:
            return {'call': '_bootstrap', 'argv': argv, 'returned': r, 'main_called_with': g, 'expected': exp}
    return None


# ------------------------------------------------------------- starting
FILE, POPEN = REF('File'), REF('Popen')
PROC = REC('Process', {'proc': POPEN, 'outfile': FILE, 'output': OPT(STR)})


def start_models(m):
    def popen(ex, s, a, k):
        k = dict(k)
        s.ghost['argv'] = ex.rv(s, a[0])
        cwd = k.pop('cwd', None)
        s.ghost['cwd'] = ex.rv(s, cwd) if cwd is not None else STR.fresh('cwd')
        so, se = k.pop('stdout', None), k.pop('stderr', None)
        so = ex.rv(s, so) if so is not None else None
        ok = isinstance(so, Val) and so.ty == FILE and se is not None and not k and len(a) == 1
        s.ghost['captured'] = Val(BOOL, (And(so.t == s.ghost['tmp'].t, ex.rv(s, se).t == -2) if ok else z3.BoolVal(False),))
        s.ghost['nstart'] = vint(s.ghost['nstart'].t + 1)
        r = POPEN.fresh('popen')
        s.ghost['popen'] = r
        return [(s, r)]

    def tmp(ex, s, a, k):
        r = FILE.fresh('outfile')
        s.ghost['tmp'] = r
        return [(s, r)]
    return {'subprocess.Popen': popen, 'tempfile.TemporaryFile': tmp, 'builtin:print': lambda ex, s, a, k: [(s, Val(UNIT, ()))],
            'method:Invocation.__str__': lambda ex, s, o, a, k: [(s, STR.fresh('text'))]}


def start_ghost(ex, st):
    return {'argv': LIST(STR).fresh('argv'), 'cwd': STR.fresh('cwd'), 'captured': Val(BOOL, (z3.BoolVal(False),)), 'nstart': vint(0), 'popen': POPEN.fresh('p'), 'tmp': FILE.fresh('t')}


def start_post(c):
    i = c.old('self')
    cmd, ran = i.f('command'), c.ghost('argv')
    r = c.retval()
    return [('started-once', c.ghost('nstart').t == 1),
            ('with-exactly-the-arguments-of-the-entry', And(ran.len == cmd.len, forall(1, lambda k: Implies(within(k, cmd.len), ran.at(k).t == cmd.at(k).t), lambda k: [ran.at(k).t]))),
            ('in-the-directory-of-the-entry', c.ghost('cwd').t == i.f('cwd').t),
            ('both-output-streams-captured', c.ghost('captured').t),
            ('handle-of-that-process', And(r.f('proc').t == c.ghost('popen').t, r.f('outfile').t == c.ghost('tmp').t, Not(r.f('output').some)))]


def replay_start(seed, tier):
    m = realmod(F)
    rnd = random.Random(seed)
    import subprocess

    class Sub:
        PIPE, STDOUT, DEVNULL = subprocess.PIPE, subprocess.STDOUT, subprocess.DEVNULL
        calls = []

        def Popen(self, *a, **k):
            self.calls.append((a, k))
            return 'proc'

        def __getattr__(self, n):
            return getattr(subprocess, n)
    for k in range(200):
        m.subprocess = Sub()
        m.subprocess.calls = []
        cmd = [rnd.choice(['a', '-I', 'x y', '']) for _ in range(rnd.randint(1, 5))]
        inv = m.Invocation(list(cmd), '/d%d' % rnd.randint(0, 9))
        p = call(inv.start, rnd.random() < .5)
        cs = m.subprocess.calls
        ok = len(cs) == 1
        if ok:
            a, kw = cs[0]
            argv = a[0] if a else kw.get('args')
            ok = list(argv) == cmd and kw.get('cwd') == inv.cwd and kw.get('stdout') is not None and kw.get('stderr') in (subprocess.STDOUT, kw.get('stdout')) \
                and not kw.get('shell') and getattr(p, 'proc', None) == 'proc'
        if not ok:
            return {'call': 'Invocation.start', 'command': cmd, 'cwd': inv.cwd, 'popen_calls': repr(cs), 'result': repr(p)}
    return None


# ------------------------------------------------------------- replays
def replay_fcc(seed, tier):
    m = realmod(F)
    m.IWYU_EXECUTABLE = '/opt/iwyu'
    rnd = random.Random(seed)
    drivers = ['cc', 'g++', '/usr/bin/clang-cl', 'clang-cl', 'cl.exe', 'C:/x/clang-cl.exe', 'clang-cl-18', 'ccl', 'xcl.exe', '/usr/bin/ccache', 'cl', 'clang', 'clang-cl.py', 'clang-clx']
    args = ['-c', 'a.cc', '-DX=1', '-I', 'inc', '--', '', '-o', 'ccache', '-std=c++17', 'clang-cl', '@rsp', '-x', 'c++']
    for k in range(6000):
        w = ([] if rnd.random() < .6 else ['ccache']) + [rnd.choice(drivers)] + [rnd.choice(args) for _ in range(rnd.randint(0, 5))]
        extra = [rnd.choice(['-Xiwyu', '--verbose=3', '-w', '--driver-mode=cl']) for _ in range(rnd.randint(0, 3))]
        mode = rnd.randint(0, 3)
        e = {'directory': '/d%d' % rnd.randint(0, 3), 'file': 'a.cc'}
        import shlex
        if mode in (0, 2):
            e['arguments'] = list(w)
        if mode == 1:
            e['command'] = ' '.join(shlex.quote(x) for x in w)
        if mode == 2:
            e['command'] = 'other -c thing'
        x0 = list(extra)
        r = call(m.Invocation.from_compile_command, e, extra)
        if mode == 3:
            if not (isinstance(r, tuple) and r[1] == 'ValueError'):
                return {'call': 'from_compile_command', 'entry': e, 'returned': str(r), 'expected': 'rejected'}
            continue
        v = w[1:] if w[0] in WRAPPERS else w
        cl = v[0].endswith('cl.exe') or v[0].endswith('clang-cl')
        exp = ['/opt/iwyu'] + (['--driver-mode=cl'] if cl else []) + x0 + v[1:]
        got = getattr(r, 'command', r)
        if got != exp or getattr(r, 'cwd', None) != e['directory'] or extra != x0:
            return {'call': 'from_compile_command', 'entry': e, 'words': w, 'extra_args': x0, 'returned': got, 'cwd': getattr(r, 'cwd', None), 'expected': exp,
                    'extra_args_after': extra}
    return None


def replay_main(seed, tier):
    import tempfile, shutil, json
    m = realmod(F)
    rnd = random.Random(seed)
    d = os.path.realpath(tempfile.mkdtemp(prefix='p03'))
    try:
        for k in range(200):
            m.IWYU_EXECUTABLE = rnd.choice(['/opt/iwyu'] * 5 + [None])
            names = ['f%d.cc' % i for i in range(rnd.randint(0, 4))]
            for n in names:
                open(os.path.join(d, n), 'w').close()
            db = [{'directory': d, 'file': n, 'arguments': ['cc', '-c', n, '-D%d' % i]} for i, n in enumerate(names)]
            have = rnd.random() < .85
            p = os.path.join(d, 'compile_commands.json')
            if os.path.exists(p):
                os.unlink(p)
            if have:
                with open(p, 'w') as f:
                    json.dump(db, f)
            ran = []
            st = rnd.choice([0, 1, 2, -6])

            def fake(invs, verbose, formatter, jobs, mla=0):
                ran.append(([i.command for i in invs], jobs))
                return st
            m.execute = fake
            sel = [os.path.join(d, n) for n in names if rnd.random() < .4]
            extra = ['-w'] if rnd.random() < .5 else []
            r = call(m.main, rnd.choice([d, p]), list(sel), False, str, 3, 0, list(extra))
            if not m.IWYU_EXECUTABLE or not have:
                good = isinstance(r, int) and r != 0 and not ran
                exp = 'non-zero, nothing run'
            else:
                cmds = [['/opt/iwyu'] + extra + e['arguments'][1:] for e in db if not sel or os.path.join(d, e['file']) in sel]
                good = r == st and ran == [(cmds, 3)]
                exp = (st, cmds)
            if not good:
                return {'call': 'main', 'db': db, 'selection': sel, 'executable': m.IWYU_EXECUTABLE, 'db_present': have, 'returned': repr(r), 'ran': ran, 'expected': repr(exp)}
    finally:
        shutil.rmtree(d)
    return None


def replay_find(seed, tier):
    m = realmod(F)
    here = os.path.dirname(m.__file__)

    class Sh:
        pass
    for env in (None, '', '/e/iwyu'):
        for a in (None, '/here/iwyu'):
            for b in (None, '/path/iwyu'):
                sh = Sh()
                sh.which = lambda n, path=None: (a if path is not None else b) if n == 'include-what-you-use' and path in (None, here) else None
                m.shutil = sh
                os.environ.pop('IWYU_BINARY', None)
                if env is not None:
                    os.environ['IWYU_BINARY'] = env
                r = call(m.find_include_what_you_use)
                os.environ.pop('IWYU_BINARY', None)
                exp = env or a or b
                if r != exp:
                    return {'call': 'find_include_what_you_use', 'IWYU_BINARY': env, 'next_to_script': a, 'on_path': b, 'returned': r, 'expected': exp}
    return None


def build():
    params = {'cls': lambda ex, st: Conc(('class', 'Invocation')), 'entry': ENTRY, 'extra_args': LIST(STR)}
    units = [pyunit(F, Contract('Invocation.from_compile_command', params, pre=pre, post=post, raises=raises, check_bounds=True, split=True), models=models, contracts=contracts, records={'Invocation': INV}, timeout=12000),
             pyunit(F, Contract('main', {'compilation_db_path': STR, 'source_files': LIST(STR), 'verbose': BOOL, 'formatter': REF('Formatter'), 'jobs': INT, 'max_load_average': REAL, 'extra_args': LIST(STR)},
                                post=main_post, ghost=main_ghost), models=main_models, contracts=main_contracts, records={'Invocation': MINV}),
             pyunit(F, Contract('Invocation.start', {'self': INV, 'verbose': BOOL}, post=start_post, ghost=start_ghost), models=start_models, records={'Invocation': INV, 'Process': PROC}),
             pyunit(F, Contract('_bootstrap', {'sys_argv': LIST(STR)}, pre=boot_pre, post=boot_post, ghost=boot_ghost), models=boot_models, contracts=boot_contracts),
             pyunit(F, Contract('find_include_what_you_use', {}, post=find_post), models=find_models)]
    return Spec('P03', units, replays={'_bootstrap': replay_boot, 'Invocation.start': replay_start, 'Invocation.from_compile_command': replay_fcc, 'main': replay_main, 'find_include_what_you_use': replay_find},
                assumptions=['splitting of a command string is the platform splitter (its Windows variant is property P04, shlex is trusted)', 'a compile command is not empty'])
