"""P08 which files are edited, isolation of failures, dry runs."""
from .fixrec import *

# ------------------------------------------------------------ NormalizeFilePath
isabs = lambda x: uf('isabs', BOOL, vstr(x)).t
joined = lambda b, x: uf('normpath', STR, uf('pathjoin', STR, vstr(b), vstr(x))).t


def norm(b, x):
    """b : OPT(STR)"""
    return If(And(b.some, b.val.t != S(''), Not(isabs(x))), joined(b.val.t, x), x)


def nrm(b, x):
    """the value of norm, opaque in the callers of NormalizeFilePath"""
    return uf('norm', STR, b, vstr(x)).t


def path_models(m):
    one = lambda nm, ty=STR: (lambda ex, s, a, k: [(s, uf(nm, ty, *[ex.nn(s, x) for x in a]))])
    return {'os.path.isabs': one('isabs', BOOL), 'os.path.join': one('pathjoin'), 'os.path.normpath': one('normpath')}


def norm_post(c):
    return [('relative-names-are-taken-from-the-base-directory', c.retval().t == norm(c.old('basedir'), c.old('filename').t))]


def norm_contract(ex, s, a, k):
    b = ex.coerce(ex.rv(s, a[0] if a else k['basedir']), OPT(STR))
    f = ex.nn(s, a[1] if len(a) > 1 else k['filename'])
    r = vstr(nrm(b, f.t))
    return [(s, r)]


# ------------------------------------------------------------ ProcessIWYUOutput
# outcome of the k-th attempt to parse a record: 0 end of input, 1 record, 2 malformed
KIND = z3.Function('outcome', z3.IntSort(), z3.IntSort())
RFN = z3.Function('record_file', z3.IntSort(), z3.StringSort())
AREC = REC('IWYUOutputRecord', {'filename': STR, 'abs': INT})
# contents accumulated for a file after k outcomes
HAS = z3.Function('seen', z3.StringSort(), z3.IntSort(), z3.BoolSort())
ACC = z3.Function('merged', z3.StringSort(), z3.IntSort(), z3.IntSort())
MERGE = z3.Function('merge', z3.IntSort(), z3.IntSort(), z3.IntSort())
CONTENT = z3.Function('contentful', z3.IntSort(), z3.BoolSort())
MFN = z3.Function('merged_file', z3.IntSort(), z3.StringSort())
FLAGS = REC('Flags', {'basedir': OPT(STR), 'ignore_re': OPT(STR), 'only_re': OPT(STR), 'update_comments': BOOL, 'dry_run': BOOL})
PARSER = REC('IWYUOutputParser', {'dummy': INT})
NUM = z3.Int('fix_many_result')


def matches(pat, x):
    return uf('re.search', BOOL, pat, vstr(x)).t


def selected(c, fn):
    fl, fs, cwd = c.old('flags'), c.old('files_to_process'), c.old('cwd')
    listed = Or(Not(fs.some), exists(1, lambda i: And(within(i, fs.val.len), nrm(vsome(cwd), fs.val.at(i).t) == fn)))
    nonempty = lambda o: And(o.some, o.val.t != S(''))
    return And(listed, Not(And(nonempty(fl.f('ignore_re')), matches(fl.f('ignore_re').val, fn))),
               Or(Not(nonempty(fl.f('only_re'))), matches(fl.f('only_re').val, fn)))


def defs(c, k):
    fn = nrm(c.old('flags').f('basedir'), RFN(k))
    now = lambda x: And(KIND(k) == 1, x == fn, selected(c, fn))
    return [0 <= KIND(k), KIND(k) <= 2,
            allk([z3.StringSort()], lambda x: HAS(x, k + 1) == Or(HAS(x, k), now(x)), lambda x: [HAS(x, k + 1)]),
            allk([z3.StringSort()], lambda x: ACC(x, k + 1) == If(now(x), If(HAS(x, k), MERGE(ACC(x, k), k), k), ACC(x, k)), lambda x: [ACC(x, k + 1)])]


def proc_pre(c):
    return [allk([z3.StringSort()], lambda x: Not(HAS(x, 0)), lambda x: [HAS(x, 0)]),
            Implies(c.old('files_to_process').some, c.old('files_to_process').val.len >= 0)]


def proc_models(m):
    def search(ex, s, a, k):
        return [(s, uf('re.search', BOOL, ex.nn(s, a[0]), ex.rv(s, a[1])))]

    def parse(ex, s, o, a, k):
        n = s.ghost['calls'].t
        s.ghost['calls'] = vint(n + 1)
        s.add(0 <= KIND(n), KIND(n) <= 2)
        bad = s.assume(KIND(n) == 2)
        s = s.assume(KIND(n) != 2)
        r = Val(AREC, (RFN(n), n))
        end = s.assume(KIND(n) == 0)
        rec = s.assume(KIND(n) == 1)
        return [(end, Val(UNIT, ())), (rec, rec.new_cell(r, 'rec')), (bad, ('exc', 'FixIncludesError', None))]

    def mg(ex, s, o, a, k):
        v = s.load(o) if isinstance(o, Ptr) else o
        w = ex.rv(s, a[0])
        if isinstance(v.ty, OPT):
            v = v.val
        s.store(o, Val(AREC, (v.f('filename').t, MERGE(v.f('abs').t, w.f('abs').t))))
        return [(s, Val(UNIT, ()))]

    def cont(ex, s, o, a, k):
        return [(s, Val(BOOL, (CONTENT(ex.nn(s, o).f('abs').t),)))]
    d = path_models(m)
    d.update({'re.search': search, 'method:IWYUOutputParser.ParseOneRecord': parse, 'method:IWYUOutputRecord.Merge': mg,
              'method:IWYUOutputRecord.HasContentfulChanges': cont})
    return d


def proc_contracts(m):
    def many(ex, s, a, k):
        l = ex.rv(s, a[0])
        if l.ty == LIST(OPT(AREC)):
            ex.oblige('only-real-records-are-fixed', s, forall(1, lambda i: Implies(within(i, l.len), l.at(i).some)))
            l = Val(LIST(AREC), (l.ls[0],) + tuple(l.ls[2:]))
        s.ghost['fixed'] = ex.coerce(l, LIST(AREC))
        s.ghost['nfix'] = vint(s.ghost['nfix'].t + 1)
        return [(s, vint(NUM))]
    return {'FixManyFiles': many, 'NormalizeFilePath': norm_contract, 'IWYUOutputParser': lambda ex, s, a, k: [(s, s.new_cell(PARSER.fresh('parser'), 'parser'))]}


def proc_ghost(ex, st):
    return {'calls': vint(0), 'fixed': LIST(AREC).fresh('fixed'), 'nfix': vint(0)}


def eligible(c, x, n):
    return And(HAS(x, n), Or(c.old('flags').f('update_comments').t, CONTENT(ACC(x, n))))


def proc_post(c):
    n = c.ghost('calls').t - 1
    fx = c.ghost('fixed')
    return [('every-record-read', KIND(n) == 0),
            ('every-selected-file-with-changes-is-fixed', allk([z3.StringSort()], lambda x: Implies(eligible(c, x, n), exists(1, lambda i: And(within(i, fx.len), fx.at(i).f('abs').t == ACC(x, n)))))),
            ('only-selected-files-with-changes-are-fixed', forall(1, lambda i: Implies(within(i, fx.len), And(eligible(c, keyof(c, fx.at(i)), n), fx.at(i).f('abs').t == ACC(keyof(c, fx.at(i)), n))))),
            ('fixed-in-one-go', And(c.ghost('nfix').t == 1, c.retval(INT).t == NUM))]


def keyof(c, r):
    return nrm(c.old('flags').f('basedir'), r.f('filename').t)


def recs(L):
    v = L.vars_of(MAP(STR, AREC)) or L.vars_of(MAP(STR, OPT(AREC)))
    return v[0][1]


def val(mp, x):
    v = mp.get(x)
    return (v.some, v.val) if isinstance(v.ty, OPT) else (z3.BoolVal(True), v)


proc_inv = [
    lambda L: L.ghost('calls').t == L.idx if L.it is None else None,
    lambda L: allk([z3.StringSort()], lambda x: recs(L).has(x) == HAS(x, L.idx), lambda x: [recs(L).has(x)]) if L.it is None else None,
    lambda L: allk([z3.StringSort()], lambda x: Implies(recs(L).has(x), And(val(recs(L), x)[0], val(recs(L), x)[1].f('abs').t == ACC(x, L.idx))), lambda x: [recs(L).has(x)]) if L.it is None else None,
    lambda L: allk([z3.StringSort()], lambda x: Implies(And(recs(L).has(x), val(recs(L), x)[0]), keyof(L, val(recs(L), x)[1]) == x), lambda x: [recs(L).has(x)]),
    # clearing the records without contentful changes
    lambda L: allk([z3.StringSort()], lambda x: recs(L).has(x) == HAS(x, L.ghost('calls').t - 1), lambda x: [recs(L).has(x)]) if L.it is not None else None,
    lambda L: forall(1, lambda i: Implies(within(i, L.it.n), val(recs(L), L.it.src.at(i).t)[0] == Or(i >= L.idx, CONTENT(ACC(L.it.src.at(i).t, L.ghost('calls').t - 1)))),
                     lambda i: [L.it.src.at(i).t]) if L.it is not None else None,
    lambda L: allk([z3.StringSort()], lambda x: Implies(And(recs(L).has(x), val(recs(L), x)[0]), val(recs(L), x)[1].f('abs').t == ACC(x, L.ghost('calls').t - 1)), lambda x: [recs(L).has(x)]) if L.it is not None else None,
]


# ------------------------------------------------------------------ FixManyFiles
# what the parts do: a file is identified by its name, the fixed text by the record
OPENS = z3.Function('can_open', z3.StringSort(), z3.BoolSort())
READS = z3.Function('can_read', z3.StringSort(), z3.BoolSort())
BADREC = z3.Function('out_of_date', z3.IntSort(), z3.BoolSort())
CNT = z3.Function('changed_before', z3.IntSort(), z3.IntSort())
AFI = REC('FileInfo', {'of': STR})
old_of = lambda i: uf('old_lines_of', LIST(STR), vint(i))
new_of = lambda i: uf('new_lines_of', LIST(STR), vint(i))
text_of = lambda fn: uf('text_of', LIST(STR), vstr(fn))
DIFF = z3.Function('differs', z3.IntSort(), z3.BoolSort())


def fixable(i):
    return And(OPENS(MFN(i)), READS(MFN(i)), text_of(MFN(i)).len > 0, Not(BADREC(i)), DIFF(i))


def many_defs(c, k):
    i = c.old('iwyu_records').at(k).f('abs').t
    o, n = old_of(i), new_of(i)
    same = And(o.len == n.len, forall(1, lambda j: Implies(within(j, o.len), o.at(j).t == n.at(j).t)))
    return [CNT(k + 1) == CNT(k) + If(fixable(i), 1, 0), DIFF(i) == Not(same), o.len >= 0, n.len >= 0, text_of(MFN(i)).len >= 0]


def many_contracts(m):
    def wr(ex, s, a, k):
        fn, fi, lines = [ex.rv(s, x) for x in a]
        i = s.ghost['cur'].t
        g = s.ghost['written']
        s.ghost['written'] = Val(g.ty, (z3.Store(g.t, i, g.t[i] + 1),))
        ex.oblige('writes-the-fixed-text-of-that-file', s, And(fn.t == MFN(i), eq(lines, new_of(i)), fi.f('of').t == fn.t))
        ex.oblige('dry-run-never-writes', s, Not(ex.args_dry))
        return [(s, Val(UNIT, ()))]

    def rd(ex, s, a, k):
        fn, fi = [ex.nn(s, x) for x in a]
        ex.oblige('reads-with-the-encoding-of-that-file', s, fi.f('of').t == fn.t)
        s.add(text_of(fn.t).len >= 0)
        return [(s, Val(OPT(LIST(STR)), (READS(fn.t),) + text_of(fn.t).ls))]

    def parse(ex, s, a, k):
        fn = ex.nn(s, a[0])
        bad = s.assume(Not(OPENS(fn.t)))
        s = s.assume(OPENS(fn.t))
        return [(s, s.new_cell(Val(AFI, (fn.t,)), 'fi')), (bad, ('exc', 'IOError', None))]

    def one(ex, s, a, k):
        rec, text, fl, fi = [ex.nn(s, x) for x in a]
        i = rec.f('abs').t
        ex.oblige('fixes-the-text-of-the-file', s, And(eq(text, text_of(MFN(i))), fi.f('of').t == MFN(i)))
        bad = s.assume(BADREC(i))
        s = s.assume(Not(BADREC(i)))
        s.ghost['cur'] = vint(i)
        return [(s, PTuple([s.new_cell(old_of(i), 'o'), s.new_cell(new_of(i), 'n')])), (bad, ('exc', 'FixIncludesError', None))]
    return {'_WriteFile': wr, '_ReadFile': rd, 'FixOneFile': one, 'FileInfo.parse': parse, 'PrintFileDiff': nop_contract}


def nop_contract(ex, s, a, k):
    return [(s, Val(UNIT, ()))]


CNTARR = Prim('cnt', z3.ArraySort(z3.IntSort(), z3.IntSort()))


def many_ghost(ex, st):
    ex.args_dry = ex.args['flags'].ty and ex.rv(st, ex.args['flags']).f('dry_run').t
    return {'written': Val(CNTARR, (z3.K(z3.IntSort(), I(0)),)), 'cur': vint(-1)}


def many_pre(c):
    v = c.old('iwyu_records')
    return [CNT(0) == 0, forall(1, lambda i: Implies(within(i, v.len), And(v.at(i).f('abs').t == i, v.at(i).f('filename').t == MFN(i))), lambda i: [v.at(i).f('abs').t])]


def many_post(c):
    v = c.old('iwyu_records')
    w = c.ghost('written').t
    dry = c.old('flags').f('dry_run').t
    return [('every-fixable-file-written-once', Implies(Not(dry), forall(1, lambda i: Implies(And(within(i, v.len), fixable(i)), w[i] == 1)))),
            ('nothing-else-written', forall(1, lambda i: Implies(Or(dry, Not(within(i, v.len)), Not(fixable(i))), w[i] == 0))),
            ('counts-the-files-that-change', c.retval(INT).t == CNT(v.len))]


many_inv = [
    lambda L: L.vars_of(INT)[0][1].t == CNT(L.idx),
    lambda L: forall(1, lambda i: L.ghost('written').t[i] == If(And(within(i, L.idx), Not(L.old('flags').f('dry_run').t), fixable(i)), 1, 0), lambda i: [L.ghost('written').t[i]]),
]


# ------------------------------------------------------- SortIncludesInFiles
def sort_models(m):
    return path_models(m)


def sort_contracts(m):
    def many(ex, s, a, k):
        s.ghost['fixed'] = ex.coerce(ex.rv(s, a[0]), LIST(RECORD))
        s.ghost['nfix'] = vint(s.ghost['nfix'].t + 1)
        return [(s, vint(NUM))]
    return {'FixManyFiles': many, 'NormalizeFilePath': norm_contract}


def empty_record(r):
    k, a, b = z3.Const('ek', z3.StringSort()), z3.Int('ea'), z3.Int('eb')
    return And(z3.ForAll([a], And(Not(r.f('lines_to_delete').has(a)), Not(r.f('some_include_lines').has(a)))),
               z3.ForAll([a, b], And(Not(r.f('seen_forward_declare_lines').has(a, b)), Not(r.f('nested_forward_declare_lines').has(a, b)))),
               z3.ForAll([k], And(Not(r.f('includes_and_forward_declares_to_add').f('storage').has(k)), Not(r.f('full_include_lines').has(k)))))


def sort_post(c):
    fs, fx = c.old('files_to_process'), c.ghost('fixed')
    b = c.old('flags').f('basedir')
    return [('one-record-per-file', And(c.ghost('nfix').t == 1, fx.len == fs.len)),
            ('named-after-the-file', forall(1, lambda i: Implies(within(i, fs.len), fx.at(i).f('filename').t == nrm(b, fs.at(i).t)))),
            ('sorting-adds-and-removes-nothing', forall(1, lambda i: Implies(within(i, fs.len), empty_record(fx.at(i))))),
            ('returns-the-count', c.retval(INT).t == NUM)]


def rl(L):
    return L.vars_of(LIST(RECORD))[0][1]


sort_inv = [
    lambda L: rl(L).len == L.idx,
    lambda L: forall(1, lambda i: Implies(within(i, L.idx), rl(L).at(i).f('filename').t == nrm(L.old('flags').f('basedir'), L.old('files_to_process').at(i).t)), lambda i: [rl(L).at(i).f('filename').t]),
    lambda L: forall(1, lambda i: Implies(within(i, L.idx), empty_record(rl(L).at(i))), lambda i: [rl(L).at(i).f('filename').t]),
]


# -------------------------------------------------------------------- replays
def mkflags(**kw):
    import argparse
    d = dict(blank_lines=True, comments=False, update_comments=False, safe_headers=True, reorder=False, sort_only=False, dry_run=False, ignore_re=None, only_re=None,
             separate_project_includes=None, keep_iwyu_namespace_format=False, basedir=None, quoted_includes_first=False, files=[])
    d.update(kw)
    return argparse.Namespace(**d)


TEXT = '#include "a.h"\n\nint x;\n'


def one_record(fn, kind, inc):
    if kind == 'correct':
        return '(%s has correct #includes/fwd-decls)\n\n' % fn
    if kind == 'malformed':
        return '%s should remove these lines:\n\n' % fn
    add = '#include "%s"\n' % inc if kind in ('add', 'stale') else ''
    tot = '#include "a.h"  // lines %s\n' % ('3-3' if kind == 'stale' else '1-1')
    return '%s should add these lines:\n%s\n%s should remove these lines:\n\nThe full include-list for %s:\n%s%s---\n\n' % (fn, add, fn, fn, tot, add)


def replay_process(seed, tier):
    import tempfile, re, io
    m = real()
    rnd = random.Random(seed)
    for _ in range(250):
        with tempfile.TemporaryDirectory() as top:
            top = os.path.realpath(top)
            names = ['f0.cc', 'f1.h', 'sub_f2.cc', 'f3.cc', 'f4.cc']
            state = {n: rnd.choice(['file', 'file', 'file', 'missing', 'empty']) for n in names}
            for n in names:
                if state[n] != 'missing':
                    with open(os.path.join(top, n), 'w') as f:
                        f.write(TEXT if state[n] == 'file' else '')
            base = rnd.random() < .5
            spell = (lambda n: n) if base else (lambda n: os.path.join(top, n))
            fl = dict(basedir=top if base else None, dry_run=rnd.random() < .3, update_comments=rnd.random() < .2,
                      ignore_re=rnd.choice([None, None, None, 'f1', 'f[34]', r'\.h$']), only_re=rnd.choice([None, None, None, r'\.cc$', 'f0|f3', 'sub']))
            text, adds, stale = '', {n: [] for n in names}, set()
            for _i in range(rnd.randint(0, 7)):
                n, kind, inc = rnd.choice(names), rnd.choice(['add', 'add', 'add', 'correct', 'malformed', 'none', 'stale']), rnd.choice(['m.h', 'n.h', 'o.h'])
                if kind == 'stale' and (stale or rnd.random() < .5):
                    kind = 'add'
                text += one_record(spell(n), kind, inc)
                if kind in ('add', 'stale'):
                    adds[n].append(inc)
                if kind == 'stale':
                    stale.add(n)
            listed = None if rnd.random() < .5 else [rnd.choice([os.path.join(top, n), n]) for n in names if rnd.random() < .6]
            want = {}
            for n in names:
                full = os.path.join(top, n)
                sel = (listed is None or n in listed or full in listed) and not (fl['ignore_re'] and re.search(fl['ignore_re'], full)) and (not fl['only_re'] or re.search(fl['only_re'], full))
                want[n] = bool(sel and adds[n] and n not in stale and state[n] == 'file')
            got = call(m.ProcessIWYUOutput, iter(text.splitlines(True)), listed, mkflags(**fl), top)
            desc = {'call': 'ProcessIWYUOutput', 'analyser output': text, 'files': state, 'listed': listed, 'flags': fl, 'returned': repr(got)}
            if isinstance(got, tuple) or got != sum(want.values()):
                return dict(desc, expected='%d files reported as fixed' % sum(want.values()))
            for n in names:
                p = os.path.join(top, n)
                now = open(p).read() if os.path.exists(p) else None
                orig = {'file': TEXT, 'empty': '', 'missing': None}[state[n]]
                if want[n] and not fl['dry_run']:
                    if now is None or any(now.count('"%s"' % i) != 1 for i in adds[n]) or 'int x;' not in now:
                        return dict(desc, file=n, now=now, expected='gets ' + ','.join(adds[n]))
                elif now != orig:
                    return dict(desc, file=n, now=now, expected='unchanged')
    return None


def replay_sort(seed, tier):
    import tempfile
    m = real()
    rnd = random.Random(seed)
    for _ in range(80):
        with tempfile.TemporaryDirectory() as top:
            fs, orig = [], {}
            for n in ['p.cc', 'q.h', 'r.cc']:
                t = ['#include %s\n' % x for x in rnd.sample(['<b>', '<a>', '"z.h"', '"c.h"', '<unistd.h>'], rnd.randint(1, 4))] + ['int x;\n']
                orig[n] = ''.join(t)
                open(os.path.join(top, n), 'w').write(orig[n])
                if rnd.random() < .7:
                    fs.append(n)
            if rnd.random() < .3:
                fs.insert(0, 'nosuch.cc')
            dry = rnd.random() < .3
            got = call(m.SortIncludesInFiles, fs, mkflags(basedir=top, dry_run=dry, reorder=True, blank_lines=False))
            desc = {'call': 'SortIncludesInFiles', 'files': fs, 'before': orig, 'dry_run': dry, 'returned': repr(got)}
            ch = 0
            for n in orig:
                now = open(os.path.join(top, n)).read()
                ch += now != orig[n]
                if now != orig[n] and (dry or n not in fs):
                    return dict(desc, file=n, expected='unchanged', now=now)
                if sorted(now.split()) != sorted(orig[n].split()):
                    return dict(desc, file=n, expected='the same lines in another order', now=now)
            if isinstance(got, tuple) or (not dry and got != ch):
                return dict(desc, expected='%d files changed' % ch)
    return None


def replay_norm(seed, tier):
    m = real()
    for b in (None, '', '/w', '/w/x', 'rel'):
        for f in ('a.cc', '/q/a.cc', './a.cc', '../a.cc', 's/../a.cc', '/q/../a.cc'):
            want = os.path.normpath(os.path.join(b, f)) if b and not f.startswith('/') else f
            got = call(m.NormalizeFilePath, b, f)
            if got != want:
                return {'call': 'NormalizeFilePath', 'basedir': b, 'filename': f, 'returned': repr(got), 'expected': want}
    return None


def build():
    C = Contract
    recs1 = {'IWYUOutputRecord': AREC, 'IWYUOutputParser': PARSER, 'Flags': FLAGS, 'FileInfo': AFI}
    # the record being fixed is tracked in a ghost variable set when the loop fetches it
    mc = C('FixManyFiles', {'iwyu_records': LIST(AREC), 'flags': FLAGS}, pre=many_pre, post=many_post, ghost=many_ghost, inv=many_inv, defs=many_defs)
    units = [funit(C('NormalizeFilePath', {'basedir': OPT(STR), 'filename': STR}, post=norm_post), models=path_models),
             funit(C('ProcessIWYUOutput', {'f': REF('Stream'), 'files_to_process': OPT(LIST(STR)), 'flags': FLAGS, 'cwd': STR}, pre=proc_pre, post=proc_post, ghost=proc_ghost, inv=proc_inv, defs=defs),
                   models=proc_models, contracts=proc_contracts, records=recs1, timeout=15000),
             funit(C('SortIncludesInFiles', {'files_to_process': LIST(STR), 'flags': FLAGS}, post=sort_post, inv=sort_inv, ghost=proc_ghost_sort), contracts=sort_contracts, models=sort_models, records={'Flags': FLAGS}),
             funit(mc, contracts=many_contracts, records=recs1)
             ]
    return Spec('P08', units, replays={'ProcessIWYUOutput': replay_process, 'FixManyFiles': replay_process, 'SortIncludesInFiles': replay_sort, 'NormalizeFilePath': replay_norm},
                assumptions=['os.path functions and re.search are uninterpreted; the parsing, fixing, reading and writing of one file are the contracts of P07-P14'])


def proc_ghost_sort(ex, st):
    return {'fixed': LIST(RECORD).fresh('fixed'), 'nfix': vint(0)}
