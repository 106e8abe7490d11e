"""P04 splitting of Windows command lines."""
from .common import *

F = 'iwyu_tool.py'
BS = '\\'
Q = z3.Function('spec_inquote', z3.IntSort(), z3.BoolSort())      # inside quotes after k characters
B = z3.Function('spec_backslashes', z3.IntSort(), z3.IntSort())   # pending backslashes after k characters
A = z3.Function('spec_arg', z3.IntSort(), z3.StringSort())        # argument so far, without the pending backslashes
N = z3.Function('spec_nargs', z3.IntSort(), z3.IntSort())         # complete arguments after k characters
OUT = z3.Function('spec_out', z3.IntSort(), z3.StringSort())      # the j-th argument


def rep(n):
    return uf('str.repeat', STR, vstr(BS), vint(n)).t


def base(c):
    L = z3.Length(c.old('cmdline').t)
    return [Not(Q(0)), B(0) == 0, A(0) == S(''), N(0) == 0, rep(I(0)) == S(''),
            # the last argument is complete at the end of the text
            Implies(z3.Concat(A(L), rep(B(L))) != S(''), OUT(N(L)) == z3.Concat(A(L), rep(B(L))))]


def step_at(c, k):
    """definition of the splitter's state after k + 1 characters"""
    s = c.old('cmdline').t
    L = z3.Length(s)
    ch = s.at(k)
    dq, bs = S('"'), S(BS)
    ws = And(Or(ch == S(' '), ch == S('\t')), Not(Q(k)))
    flush = z3.Concat(A(k), rep(B(k)))
    same = lambda: And(Q(k + 1) == Q(k), N(k + 1) == N(k))
    step = If(ch == bs, And(same(), B(k + 1) == B(k) + 1, A(k + 1) == A(k)),
           If(ch == dq, And(N(k + 1) == N(k), B(k + 1) == 0,
                            If(B(k) % 2 == 1, And(Q(k + 1) == Q(k), A(k + 1) == z3.Concat(A(k), rep(B(k) / 2), dq)),
                               And(Q(k + 1) == Not(Q(k)), A(k + 1) == z3.Concat(A(k), rep(B(k) / 2))))),
           If(ws, And(Q(k + 1) == Q(k), B(k + 1) == 0, A(k + 1) == S(''),
                      If(flush != S(''), And(N(k + 1) == N(k) + 1, OUT(N(k)) == flush), N(k + 1) == N(k))),
              And(same(), B(k + 1) == 0, A(k + 1) == z3.Concat(flush, ch)))))
    return [Implies(within(k, L), step), B(k) >= 0, N(k) >= 0]


def post(c):
    r = c.retval(LIST(STR))
    L = z3.Length(c.old('cmdline').t)
    last = z3.Concat(A(L), rep(B(L))) != S('')
    return [('number-of-arguments', r.len == N(L) + If(last, 1, 0)),
            ('complete-arguments', forall(1, lambda j: Implies(within(j, N(L)), r.at(j).t == OUT(j)), lambda j: [OUT(j)])),
            ('last-argument', Implies(last, r.at(N(L)).t == z3.Concat(A(L), rep(B(L)))))]


def nth(L, ty, k):
    v = [x for n, x in L.vars_of(ty) if not n.startswith('$')]
    return v[k].t


def ylist(L):
    v = [x for n, x in L.vars_of(LIST(STR))]
    return v[0]


inv = []
for k in range(3):
    inv += [lambda L, k=k: nth(L, BOOL, k) == Q(L.idx), lambda L, k=k: nth(L, BOOL, k) == Not(Q(L.idx)), lambda L, k=k: nth(L, INT, k) == B(L.idx),
            lambda L, k=k: nth(L, STR, k) == A(L.idx)]
inv += [lambda L: ylist(L).len == N(L.idx),
        lambda L: forall(1, lambda j: Implies(within(j, ylist(L).len), ylist(L).at(j).t == OUT(j)), lambda j: [ylist(L).at(j).t]),
        lambda L: forall(1, lambda j: Implies(within(j, ylist(L).len), ylist(L).at(j).t == OUT(j)), lambda j: [OUT(j)])]


# -------------------------------------------------------------------- replay
def oracle(s):
    """the documented rules, word by word, looking ahead from each run of backslashes"""
    out, i, n = [], 0, len(s)
    inq, arg = False, ''
    while i < n:
        if s[i] == BS:
            j = i
            while j < n and s[j] == BS:
                j += 1
            k = j - i
            if j < n and s[j] == '"':
                arg += BS * (k // 2)
                if k % 2:
                    arg += '"'
                else:
                    inq = not inq
                i = j + 1
            else:
                arg += BS * k
                i = j
        elif s[i] == '"':
            inq = not inq
            i += 1
        elif s[i] in ' \t' and not inq:
            if arg:
                out.append(arg)
            arg = ''
            i += 1
        else:
            arg += s[i]
            i += 1
    if arg:
        out.append(arg)
    return out


def replay(seed, tier):
    m = realmod(F)
    rnd = random.Random(seed)
    import itertools as it

    def cases():
        for n in range(0, 7):
            for t in it.product('\\" a', repeat=n):
                yield ''.join(t)
        for _ in range(20000):
            yield ''.join(rnd.choice('\\\\" \tab=/') for _ in range(rnd.randint(5, 24)))
    for s in cases():
        r = call(m.win_split, s)
        if r != oracle(s):
            return {'call': 'win_split', 'cmdline': s, 'returned': r, 'expected': oracle(s)}
    return None


def replay_split(seed, tier):
    m = realmod(F)
    import shlex
    rnd = random.Random(seed)
    for _ in range(3000):
        s = ''.join(rnd.choice("\\'\" \tab=/") for _ in range(rnd.randint(0, 16)))
        exp = call(shlex.split, s)
        real = sys.platform
        try:
            r = call(m.split_command, s)
            sys.platform = 'win32'
            w = call(m.split_command, s)
        finally:
            sys.platform = real
        if r != exp:
            return {'call': 'split_command', 'cmdstr': s, 'returned': r, 'expected': exp}
        if w != oracle(s):
            return {'call': 'split_command on win32', 'cmdstr': s, 'returned': w, 'expected': oracle(s)}
    return None


def split_models(m):
    return {'sys.platform.startswith': lambda ex, s, a, k: [(s, vbool(z3.PrefixOf(ex.rv(s, a[0]).t, z3.String('platform'))))], 'const:sys.platform': vstr(z3.String('platform')), 'shlex.split': lambda ex, s, a, k: [(s, s.new_cell(uf('shlex.split', LIST(STR), ex.rv(s, a[0])), 'l'))]}


def split_contracts(m):
    return {'win_split': lambda ex, s, a, k: [(s, s.new_cell(uf('win_split', LIST(STR), ex.rv(s, a[0])), 'l'))]}


def split_post(c):
    win = z3.PrefixOf(S('win'), z3.String('platform'))
    x = c.old('cmdstr')
    r = c.retval()
    sm = lambda a, b: And(*[p == q for p, q in zip(a.ls, b.ls)])
    return [('windows-rules-on-windows', Implies(win, sm(r, uf('win_split', LIST(STR), x)))), ('shell-rules-elsewhere', Implies(Not(win), sm(r, uf('shlex.split', LIST(STR), x))))]


def build():
    return Spec('P04', [pyunit(F, Contract('win_split', {'cmdline': STR}, pre=base, defs=step_at, post=post, inv=inv, inv_timeout=5000), timeout=12000),
                        pyunit(F, Contract('split_command', {'cmdstr': STR}, post=split_post), models=split_models, contracts=split_contracts)],
                replays={'win_split': replay, 'split_command': replay_split},
                assumptions=['shlex.split (standard library) implements POSIX shell quoting'])
