"""P05 the compiler-style report."""
from .common import *
import re

F = 'iwyu_tool.py'
ST = z3.Function('spec_section', z3.IntSort(), z3.IntSort())   # 0 general, 1 add, 2 remove, 3 list
FL = z3.Function('spec_file', z3.IntSort(), z3.StringSort())
N = z3.Function('spec_n', z3.IntSort(), z3.IntSort())
OUT = z3.Function('spec_out', z3.IntSort(), z3.StringSort())

PAT = {'correct': r'^\((.*?) has correct #includes/fwd-decls\)$', 'should_add': r'^(.*?) should add these lines:$', 'add': '^(.*?) +// (.*)$',
       'should_remove': r'^(.*?) should remove these lines:$', 'full': r'The full include-list for (.*?):$', 'end': r'^---$',
       'lines': r'^- (.*?)  // lines ([0-9]+)-[0-9]+$'}


def hit(p, l):
    pt = re.compile(PAT[p])
    return uf('re.hit.match:%s:%d' % (pt.pattern, pt.flags), BOOL, vstr(l)).t


def grp(p, k, l):
    pt = re.compile(PAT[p])
    return uf('re.grp%d.match:%s:%d' % (k, pt.pattern, pt.flags), STR, vstr(l)).t


def lines(c):
    return uf('str.splitlines', LIST(STR), c.old('output'))


def blank(l):
    return uf('str.strip', STR, vstr(l)).t == S('')


def cat(*xs):
    return z3.Concat(*[S(x) if isinstance(x, str) else x for x in xs])


def step(c, k):
    l = lines(c).at(k).t
    style = c.old('style').t
    keep = And(ST(k + 1) == ST(k), FL(k + 1) == FL(k))
    emit = lambda t: And(N(k + 1) == N(k) + 1, OUT(N(k)) == t)
    quiet = N(k + 1) == N(k)
    sect = lambda code, p: And(ST(k + 1) == code, FL(k + 1) == grp(p, 1, l), quiet)
    f = If(hit('correct', l), And(keep, emit(cat(grp('correct', 1, l), ':1:1: note: #includes/fwd-decls are correct'))),
        If(hit('should_add', l), sect(1, 'should_add'),
        If(hit('should_remove', l), sect(2, 'should_remove'),
        If(hit('full', l), sect(3, 'full'),
        If(hit('end', l), And(ST(k + 1) == 0, quiet),
        If(blank(l), And(keep, quiet),
        If(ST(k) == 0, And(keep, emit(l)),
        If(ST(k) == 1, And(keep, If(hit('add', l), emit(cat(FL(k), ':1:1: ', style, ": add '", grp('add', 1, l), "' (", grp('add', 2, l), ')')),
                                    emit(cat(FL(k), ':1:1: ', style, ": add '", l, "'")))),
        If(ST(k) == 2, And(keep, If(hit('lines', l), emit(cat(FL(k), ':', grp('lines', 2, l), ':1: ', style, ": superfluous '", grp('lines', 1, l), "'")),
                                    emit(cat(FL(k), ':1:1: ', style, ": superfluous '", l, "'")))),
           And(keep, quiet))))))))))
    return [Implies(within(k, lines(c).len), f), N(k) >= 0, 0 <= ST(k), ST(k) <= 3]


def pre(c):
    return [ST(0) == 0, N(0) == 0, lines(c).len >= 0]


def post(c):
    r = c.retval()
    t = r.t
    n = lines(c).len
    if t.decl().name() != 'str.join' or t.num_args() != 3:
        return [('report-is-joined-lines', z3.BoolVal(False))]
    lst_ = Val(LIST(STR), (t.arg(1), t.arg(2)))
    return [('one-line-per-finding', lst_.len == N(n)),
            ('every-line-as-specified', forall(1, lambda j: Implies(within(j, N(n)), lst_.at(j).t == OUT(j)), lambda j: [OUT(j)])),
            ('joined-by-line-separator', t.arg(0) == S(os.linesep))]


def state(L):
    for n, v in L.st.env.items():
        if n[0] == L.fid and isinstance(v, Val) and isinstance(v.ty, TUP) and len(v.ty.ts) == 2:
            return v
    raise KeyError


def code(L):
    v = state(L).item(0)
    return v.t


def fil(L):
    v = state(L).item(1)
    return v


def lst(L):
    return L.vars_of(LIST(STR))[0][1]


inv = [lambda L: code(L) == ST(L.idx),
       lambda L: Implies(ST(L.idx) != 0, And(fil(L).some, fil(L).val.t == FL(L.idx))),
       lambda L: lst(L).len == N(L.idx),
       lambda L: forall(1, lambda j: Implies(within(j, lst(L).len), lst(L).at(j).t == OUT(j)), lambda j: [lst(L).at(j).t]),
       lambda L: forall(1, lambda j: Implies(within(j, lst(L).len), lst(L).at(j).t == OUT(j)), lambda j: [OUT(j)])]


# the same with the section kept in two variables
ival = lambda L, k: [v for n, v in L.vars_of(INT)][k].t
fval = lambda L, k: [v for n, v in L.vars_of(OPT(STR))][k]
for _k in range(3):
    inv += [lambda L, k=_k: ival(L, k) == ST(L.idx),
            lambda L, k=_k: Implies(Or(ST(L.idx) == 1, ST(L.idx) == 2), And(fval(L, k).some, fval(L, k).val.t == FL(L.idx)))]


# -------------------------------------------------------------------- replay
def oracle(output, style):
    res, sec, fn = [], 0, None

    def after(l, suffix):
        return l[:-len(suffix)] if l.endswith(suffix) else None
    for l in output.splitlines():
        if l.startswith('(') and l.endswith(' has correct #includes/fwd-decls)'):
            res.append(l[1:-len(' has correct #includes/fwd-decls)')] + ':1:1: note: #includes/fwd-decls are correct')
        elif after(l, ' should add these lines:') is not None:
            sec, fn = 1, after(l, ' should add these lines:')
        elif after(l, ' should remove these lines:') is not None:
            sec, fn = 2, after(l, ' should remove these lines:')
        elif l.startswith('The full include-list for ') and l.endswith(':'):
            sec, fn = 3, None
        elif l == '---':
            sec = 0
        elif not l.strip():
            pass
        elif sec == 0:
            res.append(l)
        elif sec == 1:
            i = l.find(' // ')
            if i > 0:
                res.append("%s:1:1: %s: add '%s' (%s)" % (fn, style, l[:i].rstrip(' '), l[i + 4:]))
            else:
                res.append("%s:1:1: %s: add '%s'" % (fn, style, l))
        elif sec == 2:
            inc, no = l, '1'
            j = l.find('  // lines ')
            if l.startswith('- ') and j >= 2:
                a, _, b = l[j + len('  // lines '):].partition('-')
                if a.isdigit() and b.isdigit():
                    inc, no = l[2:j], a
            res.append("%s:%s:1: %s: superfluous '%s'" % (fn, no, style, inc))
    return os.linesep.join(res)


def gen_output(rnd):
    out = []
    for _ in range(rnd.randint(1, 4)):
        fn = rnd.choice(['a.cc', 'dir/b.h', 'x y.h', '/abs/c.cc'])
        r = rnd.random()
        if r < .15:
            out.append('(%s has correct #includes/fwd-decls)' % fn)
        elif r < .3:
            out.append(rnd.choice(['warning: something', 'clang: error: no such file', 'a.cc:1:2: error: x // y', '- #include <z>', 'x should add']))
        else:
            out.append('%s should add these lines:' % fn)
            for _ in range(rnd.randint(0, 3)):
                out.append(rnd.choice(['#include <vector>  // for vector', '#include "b.h"', 'class X;', 'namespace n { class Y; }  // for Y, Z', '#include "q.h"       // for Q // R']))
            if rnd.random() < .8:
                out.append('')
            out.append('%s should remove these lines:' % fn)
            for _ in range(rnd.randint(0, 3)):
                out.append(rnd.choice(['- #include <list>  // lines 3-3', '- class Z;  // lines 12-14', '- #include "no_lines.h"', '- namespace a { class B; }  // lines 100-104']))
            out.append('')
            if rnd.random() < .9:
                out.append('The full include-list for %s:' % fn)
                for _ in range(rnd.randint(0, 2)):
                    out.append(rnd.choice(['#include <vector>  // for vector', 'class X;']))
            if rnd.random() < .9:
                out.append('---')
        if rnd.random() < .3:
            out.append('  ')
        if rnd.random() < .2:
            out.append('unrelated text')
    mangle = rnd.random()
    if mangle < .3:
        # a truncated or interleaved report
        out = [l for l in out if rnd.random() < .8]
    elif mangle < .45:
        rnd.shuffle(out)
    return '\n'.join(out) + rnd.choice(['', '\n'])


def replay(seed, tier):
    m = realmod(F)
    rnd = random.Random(seed)
    for k in range(5000):
        o = gen_output(rnd)
        st = rnd.choice(['error', 'warning'])
        r = call(m.clang_formatter, o, st)
        if r != oracle(o, st):
            return {'call': 'clang_formatter', 'output': o, 'style': st, 'returned': r, 'expected': oracle(o, st)}
    if m.FORMATTERS['iwyu']('a\nb') != 'a\nb':
        return {'call': "FORMATTERS['iwyu']", 'output': 'a\nb', 'returned': m.FORMATTERS['iwyu']('a\nb')}
    for nm, st in (('clang', 'error'), ('clang-warning', 'warning')):
        o = 'a.cc should add these lines:\n#include <x>\n'
        if m.FORMATTERS[nm](o) != oracle(o, st):
            return {'call': 'FORMATTERS[%r]' % nm, 'output': o, 'returned': m.FORMATTERS[nm](o)}
    return None


def build():
    return Spec('P05', [pyunit(F, Contract('clang_formatter', {'output': STR, 'style': STR}, pre=pre, defs=step, post=post, inv=inv, inv_timeout=6000), timeout=12000)],
                replays={'clang_formatter': replay},
                assumptions=['regular-expression matching is a deterministic function of the pattern text and the line; the seven patterns are pinned by their text',
                             'str.join and str.splitlines are the library functions'])
