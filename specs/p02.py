"""P02 selection of compilation database entries."""
from .common import *

ENTRY = REC('Entry', {'file': STR, 'directory': OPT(STR), 'id': INT}, isdict=True)
SEP = '/'


def libs(m):
    def f(name, n):
        def h(ex, s, args, kw):
            return [(s, uf(name, STR, *[ex.rv(s, a) for a in args]))]
        return h

    def b(name):
        def h(ex, s, args, kw):
            return [(s, uf(name, BOOL, *[ex.rv(s, a) for a in args]))]
        return h
    return {'os.path.realpath': f('realpath', 1), 'os.path.join': f('pathjoin', 2), 'os.path.isabs': b('isabs'), 'os.path.exists': b('exists'),
            'builtin:print': lambda ex, s, a, k: [(s, Val(UNIT, ()))]}


# ---------------------------------------------------------- is_subpath_of
def sub_pre(c):
    p, q = c.old('path').t, c.old('parent').t
    canon = lambda x: And(z3.PrefixOf(S('/'), x), Or(x == S('/'), Not(z3.SuffixOf(S('/'), x))))
    return [canon(p), canon(q)]


def sub_post(c):
    p, q = c.old('path').t, c.old('parent').t
    r = c.truth()
    inside = If(q == S('/'), z3.BoolVal(True), z3.PrefixOf(z3.Concat(q, S('/')), p))
    return [('equal-or-below', Implies(r, Or(p == q, inside))), ('everything-below-is-found', Implies(Or(p == q, inside), r))]


# ---------------------------------------------------------- fixup
def rp(x):
    return uf('realpath', STR, x)


def fixed_file(e):
    f, d = e.f('file'), e.f('directory')
    rel = And(d.some, Not(uf('isabs', BOOL, f).t))
    return If(rel, rp(uf('pathjoin', STR, d.val, f)).t, rp(f).t)


def fix_post(c):
    o = c.old('db')
    r = c.retval()
    return [('same-number-of-entries', r.len == o.len),
            ('file-resolved-against-its-directory', forall(1, lambda i: Implies(within(i, o.len), r.at(i).f('file').t == fixed_file(o.at(i))), lambda i: [r.at(i).f('file').t])),
            ('rest-of-entry-untouched', forall(1, lambda i: Implies(within(i, o.len), And(r.at(i).f('id').t == o.at(i).f('id').t, eq(r.at(i).f('directory'), o.at(i).f('directory')))),
                                               lambda i: [r.at(i).f('id').t]))]


def entry_pats(v, i):
    return [v.at(i).f('file').t]


fix_inv = [
    lambda L: L.new('db').len == L.old('db').len,
    lambda L: forall(1, lambda i: Implies(within(i, L.idx), L.new('db').at(i).f('file').t == fixed_file(L.old('db').at(i))), lambda i: [L.new('db').at(i).f('file').t]),
    lambda L: forall(1, lambda i: Implies(And(L.idx <= i, i < L.old('db').len), L.new('db').at(i).f('file').t == L.old('db').at(i).f('file').t), lambda i: [L.new('db').at(i).f('file').t]),
]


# ---------------------------------------------------------- slice
def below(e, p):
    return uf('subpath', BOOL, e.f('file'), p).t


def slice_post(c):
    db, sel = c.old('db'), c.old('selection')
    r = c.retval()
    n, m = db.len, sel.len
    chosen = lambda i, s: And(uf('exists', BOOL, rp(sel.at(s))).t, below(db.at(i), rp(sel.at(s))))
    same = lambda a, b: And(a.f('id').t == b.f('id').t, a.f('file').t == b.f('file').t)
    return [('no-selection-means-everything', Implies(m == 0, And(r.len == n, forall(1, lambda i: Implies(within(i, n), same(r.at(i), db.at(i))))))),
            ('only-selected-entries', Implies(m > 0, forall(1, lambda k: Implies(within(k, r.len), exists(2, lambda i, s: And(within(i, n), within(s, m), chosen(i, s), same(r.at(k), db.at(i)))))))),
            ('every-selected-entry', forall(2, lambda i, s: Implies(And(within(i, n), within(s, m), chosen(i, s)), exists(1, lambda k: And(within(k, r.len), same(r.at(k), db.at(i)))))))]


def out(L):
    c = [v for n, v in L.vars_of(LIST(ENTRY)) if n == 'new_db']
    if c:
        return c[0]
    arg = L.old('db')
    c = [v for n, v in L.vars_of(LIST(ENTRY)) if not same_leaves(v, arg)]
    return c[0]


def idx(L):
    return L.idx


def same(a, b):
    return And(a.f('id').t == b.f('id').t, a.f('file').t == b.f('file').t)


def chosen(L, i, s):
    db, sel = L.old('db'), L.old('selection')
    return And(uf('exists', BOOL, rp(sel.at(s))).t, below(db.at(i), rp(sel.at(s))))


slice_inv = [
    lambda L: out(L).len >= 0,
    lambda L: forall(1, lambda k: Implies(within(k, out(L).len), exists(2, lambda i, s: And(within(i, L.old('db').len), within(s, L.idx), chosen(L, i, s), same(out(L).at(k), L.old('db').at(i))))),
                     lambda k: [out(L).at(k).f('file').t]),
    lambda L: forall(2, lambda i, s: Implies(And(within(i, L.old('db').len), within(s, L.idx), chosen(L, i, s)), exists(1, lambda k: And(within(k, out(L).len), same(out(L).at(k), L.old('db').at(i))))),
                     lambda i, s: [below(L.old('db').at(i), rp(L.old('selection').at(s)))]),
]


def sub_contract(ex, s, args, kw):
    return [(s, uf('subpath', BOOL, ex.rv(s, args[0]), ex.rv(s, args[1])))]


# ------------------------------------------------------------------ replays
def oracle_below(path, parent):
    pp = [x for x in path.split('/') if x]
    qq = [x for x in parent.split('/') if x]
    return pp[:len(qq)] == qq


def rpath(rnd):
    return '/' + '/'.join(rnd.choice(['a', 'b', 'ab', 'abc', 'a.c', 'a b', 'A', 'src', 'src2', '..a', 'x']) for _ in range(rnd.randint(0, 4)))


def replay_sub(seed, tier):
    m = realmod('iwyu_tool.py')
    rnd = random.Random(seed)
    for k in range(20000):
        parent = rpath(rnd)
        path = rnd.choice([rpath(rnd), parent, parent + rnd.choice(['x', '/x', '2/y', '.c', '/a/b/c', ' '])])
        path = path if path == '/' else path.replace('//', '/')
        r = call(m.is_subpath_of, path, parent)
        if not isinstance(r, bool) and not (isinstance(r, tuple) and r and r[0] == 'EXC'):
            r = bool(r)
        if r != oracle_below(path, parent):
            return {'call': 'is_subpath_of', 'path': path, 'parent': parent, 'returned': r, 'expected': oracle_below(path, parent)}
    return None


def tree(d, rnd):
    """a scratch directory with files and symbolic links"""
    dirs = ['']
    for n in ['src', 'src2', 'src/a', 'src/ab', 'inc', 'src/a/deep']:
        os.makedirs(os.path.join(d, n), exist_ok=True)
        dirs.append(n)
    files = []
    for n in dirs:
        for f in ['x.cc', 'a.cc', 'ab.cc', 'a.c']:
            p = os.path.join(n, f)
            open(os.path.join(d, p), 'w').close()
            files.append(p)
    os.symlink(os.path.join(d, 'src', 'a'), os.path.join(d, 'lnk'))
    os.symlink(os.path.join(d, 'src', 'x.cc'), os.path.join(d, 'inc', 'xl.cc'))
    dirs.append('lnk')
    files += ['lnk/x.cc', 'inc/xl.cc']
    return dirs, files


def replay_db(seed, tier):
    import tempfile, shutil
    m = realmod('iwyu_tool.py')
    rnd = random.Random(seed)
    d = os.path.realpath(tempfile.mkdtemp(prefix='p02'))
    try:
        dirs, files = tree(d, rnd)
        for k in range(1500):
            db = []
            for j in range(rnd.randint(0, 6)):
                base = rnd.choice(dirs)
                f = rnd.choice(files)
                e = {'command': 'cc %d' % j, 'id': j}
                mode = rnd.randint(0, 4)
                if mode == 0:
                    e['file'] = os.path.join(d, f)
                    e['directory'] = os.path.join(d, base)
                elif mode == 1:
                    e['file'] = os.path.relpath(os.path.join(d, f), os.path.realpath(os.path.join(d, base)))
                    e['directory'] = os.path.realpath(os.path.join(d, base))
                elif mode == 2:
                    e['file'] = 'gone%d.cc' % rnd.randint(0, 2)
                    e['directory'] = os.path.join(d, base)
                elif mode == 4:
                    # climbs out of a symbolic link
                    e['file'] = rnd.choice(['lnk/../x.cc', 'lnk/../ab/a.c', './lnk/../a.cc'])
                    e['directory'] = d
                else:
                    e['file'] = os.path.join(d, '.', f)
                db.append(e)
            sel = []
            for j in range(rnd.choice([0, 1, 1, 1, 2, 3])):
                sel.append(rnd.choice([lambda: os.path.join(d, rnd.choice(files)), lambda: os.path.join(d, rnd.choice(dirs)), lambda: os.path.join(d, 'src', '..', 'src'),
                                       lambda: os.path.join(d, 'nope'), lambda: os.path.relpath(os.path.join(d, rnd.choice(files))), lambda: os.path.join(d, 'src') + '/'])())
            import copy
            exp_full = []
            for e in copy.deepcopy(db):
                f = e['file']
                if 'directory' in e and not f.startswith('/'):
                    f = e['directory'] + '/' + f
                exp_full.append(dict(e, file=os.path.realpath(f)))
            got_full = call(m.fixup_compilation_db, copy.deepcopy(db))
            if got_full != exp_full:
                return {'call': 'fixup_compilation_db', 'db': db, 'returned': got_full, 'expected': exp_full}
            got = call(m.slice_compilation_db, copy.deepcopy(exp_full), list(sel))
            if not sel:
                ok = got == exp_full
                exp = exp_full
            else:
                rs = [os.path.realpath(x) for x in sel]
                exp = [e for e in exp_full if any(os.path.exists(x) and oracle_below(e['file'], x) for x in rs)]
                key = lambda l: sorted({e['id'] for e in l})
                ok = isinstance(got, list) and key(got) == key(exp)
            if not ok:
                return {'call': 'slice_compilation_db', 'db': exp_full, 'selection': sel, 'returned': got, 'expected': exp}
    finally:
        shutil.rmtree(d)
    return None


def build():
    f = 'iwyu_tool.py'
    units = [
        pyunit(f, Contract('is_subpath_of', {'path': STR, 'parent': STR}, pre=sub_pre, post=sub_post), models=libs, timeout=20000),
        pyunit(f, Contract('fixup_compilation_db', {'db': LIST(ENTRY)}, post=fix_post, inv=fix_inv), models=libs),
        pyunit(f, Contract('slice_compilation_db', {'db': LIST(ENTRY), 'selection': LIST(STR)}, post=slice_post, inv=slice_inv), models=libs,
               contracts={'is_subpath_of': sub_contract}, timeout=12000)]
    return Spec('P02', units, replays={'is_subpath_of': replay_sub, 'fixup_compilation_db': replay_db, 'slice_compilation_db': replay_db},
                assumptions=['os.path.realpath/join/isabs/exists are deterministic functions of their arguments during one run',
                             'paths handed to the subpath test are canonical (the callers pass results of realpath)'])
