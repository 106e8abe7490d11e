"""P10 clean-up deletes only what became empty or is a duplicate."""
import ast
from .fixrec import *

LINES = LIST(LINE)
IDX = z3.IntSort()
NIF = z3.Function('if_depth', IDX, IDX)           # conditionals open before a line
MARK = z3.Function('bound', IDX, z3.BoolSort())         # true everywhere; it only tells the solver which bounds to try
NNS = z3.Function('ns_depth', IDX, IDX)           # namespaces open before a line


def tycode(c, name):
    return I(c.ex.codes.code(getattr(c.ex.m.mod, name)))


def isty(c, t, *names):
    return Or(*[t == tycode(c, n) for n in names])


def typ(c, k):
    return c.old('file_lines').at(k).f('type').t


def gone0(c, k):
    return c.old('file_lines').at(k).f('deleted').t


def gone(c, k):
    return c.new('file_lines').at(k).f('deleted').t


FILLER = ('_COMMENT_LINE_RE', '_BLANK_LINE_RE')
IFS = ('_IF_RE', '_HEADER_GUARD_RE')


def braces(c, k, ch):
    """the number of braces on a line, at least one (macros have none)"""
    n = uf('str.count', INT, c.old('file_lines').at(k).f('line').val, vstr(S(ch))).t
    return If(n > 1, n, 1)


def if_weight(c, k):
    return If(gone0(c, k), 0, If(isty(c, typ(c, k), *IFS), 1, If(typ(c, k) == tycode(c, '_ENDIF_RE'), -1, 0)))


def ns_weight(c, k):
    t = typ(c, k)
    return If(gone0(c, k), 0, If(isty(c, t, '_NAMESPACE_START_RE', '_NAMESPACE_START_MIXED_RE'), braces(c, k, '{'),
              If(t == tycode(c, '_NAMESPACE_CONTINUE_ALLMAN_MIXED_RE'), 1, If(t == tycode(c, '_NAMESPACE_END_RE'), -braces(c, k, '}'), 0))))


def file_pre(c):
    v = c.old('file_lines')
    return [v.len >= 1, Not(v.at(I(0)).f('line').some), v.at(I(0)).f('type').t == c.ex.code_none, Not(gone0(c, I(0))),
            forall(1, lambda k: Implies(And(1 <= k, k < v.len), v.at(k).f('line').some), lambda k: [v.at(k).f('line').some])]


def indexing(L):
    """names used in an index or as the bound of a range, anywhere in the file"""
    d = L.ex.__dict__
    if 'indexing' not in d:
        d['indexing'] = set()
        for x in ast.walk(L.ex.m.tree):
            y = [x.slice] if isinstance(x, ast.Subscript) else x.args if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'range' else []
            for z in y:
                d['indexing'] |= {w.id for w in ast.walk(z) if isinstance(w, ast.Name)}
    return d['indexing']


def int_vars(L, idx=True):
    return sorted((n, v.t) for n, v in L.vars_of(INT) if not idx or n in indexing(L))


# --------------------------------------------------------- neighbouring lines
def prev_post(c):
    v, n = c.old('file_lines'), c.old('line_number').t
    r = c.retval(OPT(INT))
    return [('previous-line-that-is-kept', If(r.some, And(0 <= r.val.t, r.val.t < n, Not(gone0(c, r.val.t)), forall(1, lambda k: Implies(And(r.val.t < k, k < n), gone0(c, k)))),
                                              forall(1, lambda k: Implies(And(0 <= k, k < n), gone0(c, k)))))]


def next_post(c):
    v, n = c.old('file_lines'), c.old('line_number').t
    r = c.retval(OPT(INT))
    return [('next-line-that-is-kept', If(r.some, And(n < r.val.t, r.val.t < v.len, Not(gone0(c, r.val.t)), forall(1, lambda k: Implies(And(n < k, k < r.val.t), gone0(c, k)))),
                                          forall(1, lambda k: Implies(And(n < k, k < v.len), gone0(c, k)))))]


def near_pre(c):
    v, n = c.old('file_lines'), c.old('line_number').t
    return [0 <= n, n < v.len]


def scanned(L):
    """every line a counting loop has passed is deleted"""
    a, b = L.it.at(L.st, I(0)).t, L.it.at(L.st, L.idx).t
    return forall(1, lambda k: Implies(Or(And(a <= k, k < b), And(b < k, k <= a)), gone0(L, k)), lambda k: [gone0(L, k)])


def counted(L):
    """the same for a loop that counts by hand; v is where it stands"""
    n = L.old('line_number').t
    out = []
    for x, v in int_vars(L):
        out.append((slot(L, x), And(v < n, v >= -1, forall(1, lambda k: Implies(And(v < k, k < n), gone0(L, k)), lambda k: [gone0(L, k)]))))
        out.append((6 + slot(L, x), And(v > n, v <= L.old('file_lines').len, forall(1, lambda k: Implies(And(n < k, k < v), gone0(L, k)), lambda k: [gone0(L, k)]))))
    return out


def bounds(L):
    """the lines a loop over consecutive lines has passed: [first, next)"""
    src = L.it.src
    if isinstance(src, Val) and isinstance(src.ty, LIST) and isinstance(src.ty.t, core.ELEMREF):
        a = src.at(I(0)).ls[0]
        return a, a + L.idx
    return L.it.at(L.st, I(0)).t, L.it.at(L.st, L.idx).t


def comments_post(c):
    v, n = c.old('file_lines'), c.old('line_number').t
    r = c.retval(INT).t
    com = lambda k: typ(c, k) == tycode(c, '_COMMENT_LINE_RE')
    allcom = lambda a: forall(1, lambda k: Implies(And(a <= k, k < n), com(k)))
    return [('only-comments-are-taken-along', And(r <= n, allcom(r))),
            ('never-the-comment-at-the-top-of-the-file', Or(r == n, r >= 2)),
            ('all-the-preceding-comments', Implies(r >= 1, Or(Not(com(r - 1)), And(r == n, Or(allcom(I(1)), allcom(I(0))))))) ]


def slot(L, *names):
    """a stable number for a combination of variables"""
    d = L.ex.__dict__.setdefault('slots', {})
    n = 0
    for x in names:
        n = n * 6 + d.setdefault(x, len(d))
    return n


def nth(f, i):
    """the candidate for the i-th combination of variables"""
    def g(L):
        d = L.__dict__.setdefault('memo', {})
        if f not in d:
            d[f] = {}
            d[f] = dict(f(L))
        return d[f].get(i)
    return g


def many(f, n):
    return [nth(f, i) for i in range(n)]


def down(L, names, depth=None):
    out = []
    for n, v in int_vars(L):
        try:
            p = L.prevar(n).t
        except KeyError:
            continue
        body = lambda k: And(isty(L, typ(L, k), *names), *( [depth(k) == depth(p)] if depth is not None else []))
        out.append((slot(L, n), And(v <= p, v >= 0, forall(1, lambda k: Implies(And(v <= k, k < p), body(k)), lambda k: [typ(L, k)]), *([depth(v) == depth(p)] if depth is not None else []))))
    return out


# --------------------------------------------------- empty #ifdefs, namespaces
def block(c, k, depth, extra, now):
    """k lies in a completely deleted block [s, e) that opens and closes the same scopes"""
    s, e, j = z3.Int(fresh_name('s')), z3.Int(fresh_name('e')), z3.Int(fresh_name('j'))
    n = c.old('file_lines').len
    return z3.Exists([s, e], And(MARK(s), MARK(e), 0 <= s, s <= k, k < e, e <= n, depth(s) == depth(e),
                                 FA([j], Implies(And(s <= j, j < e), And(now(j), depth(j) >= depth(s), extra(s, j))), patterns=[depth(j)])),
                     patterns=[z3.MultiPattern(MARK(s), MARK(e))])


def if_extra(c):
    return lambda s, j: Implies(And(typ(c, j) == tycode(c, '_ELSE_RE'), Not(gone0(c, j))), NIF(j) > NIF(s))


def no_extra(c):
    return lambda s, j: z3.BoolVal(True)


IFTYPES = FILLER + IFS + ('_ELSE_RE', '_ENDIF_RE')
NSTYPES = FILLER + ('_NAMESPACE_START_RE', '_NAMESPACE_START_ALLMAN_RE', '_NAMESPACE_START_MIXED_RE', '_NAMESPACE_CONTINUE_ALLMAN_MIXED_RE', '_NAMESPACE_END_RE')


def clean_post(depth, types, extra):
    def post(c):
        fresh = lambda k: And(within(k, c.old('file_lines').len), gone(c, k), Not(gone0(c, k)))
        return [kept(c), ('nothing-is-restored', forall(1, lambda k: Implies(And(within(k, c.old('file_lines').len), gone0(c, k)), gone(c, k)))),
                ('only-such-lines-are-deleted', forall(1, lambda k: Implies(fresh(k), isty(c, typ(c, k), *types)))),
                ('only-whole-balanced-blocks-are-deleted', forall(1, lambda k: Implies(fresh(k), block(c, k, depth, extra(c), lambda j: gone(c, j)))))]
    return post


def clean_inv(depth, types, extra, lower):
    def monotone(L):
        return forall(1, lambda k: Implies(gone0(L, k), gone(L, k)), lambda k: [gone(L, k)])

    def kinds(L):
        return forall(1, lambda k: Implies(And(gone(L, k), Not(gone0(L, k))), And(within(k, L.old('file_lines').len), isty(L, typ(L, k), *types))), lambda k: [gone(L, k)])

    def blocks(L):
        return forall(1, lambda k: Implies(And(gone(L, k), Not(gone0(L, k))), block(L, k, depth, extra(L), lambda j: gone(L, j))), lambda k: [gone(L, k)])

    def behind(L):
        return [(slot(L, n), And(0 <= v, forall(1, lambda k: Implies(And(k >= v, gone(L, k)), gone0(L, k)), lambda k: [gone(L, k)]))) for n, v in int_vars(L)]

    def between(L):
        out = []
        for n, v in int_vars(L):
            for m, w in int_vars(L):
                if n != m:
                    out.append((slot(L, n, m), And(0 <= v, v < w, w <= L.old('file_lines').len,
                                   forall(1, lambda k: Implies(And(v <= k, k < w), And(Or(gone0(L, k), isty(L, typ(L, k), *types)), extra(L)(v, k))), lambda k: [typ(L, k)]),
                                   lower(v, w, L))))
        return out

    def marking(L):
        a, b = bounds(L)
        p = L.pre.load(L.args['file_lines'])
        return forall(1, lambda k: gone(L, k) == Or(p.at(k).f('deleted').t, And(a <= k, k < b)), lambda k: [gone(L, k)])
    return [monotone, kinds, blocks, marking] + many(behind, 6) + many(between, 36) + \
           many(lambda L: down(L, FILLER, depth), 6)


def if_lower(v, w, L):
    return forall(1, lambda k: Implies(And(v < k, k <= w), NIF(k) == NIF(v) + 1), lambda k: [NIF(k)])


def ns_lower(v, w, L):
    return forall(1, lambda k: Implies(And(v <= k, k <= w), NNS(k) >= NNS(v)), lambda k: [NNS(k)])


def ns_count(L):
    out = []
    vs = int_vars(L)
    for n, d in int_vars(L, False):
        for m, s in vs:
            for q, e in vs:
                if len({n, m, q}) == 3 and n not in indexing(L):
                    out.append((slot(L, n, m, q), And(d >= 0, d == NNS(e) - NNS(s))))
    return out


def depth_defs(depth, weight):
    def defs(L, k):
        out = [MARK(v) for _, v in int_vars(L)]
        for _, v in int_vars(L) + [('', k)]:
            for x in (v - 1, v):
                out.append(Implies(within(x, L.old('file_lines').len), depth(x + 1) == depth(x) + weight(L, x)))
        return out
    return defs


def count_model(ex, s, o, a, k):
    r = uf('str.count', INT, ex.nn(s, o), ex.nn(s, a[0]))
    s.add(r.t >= 0)
    return [(s, r)]


# ------------------------------------------------- duplicates and blank lines
def modular(C, ret=None, writes=(), define=None, only=None):
    """A call is replaced by the contract of the callee (define: meaning of symbols the contract introduces)."""
    def f(ex, s, a, k):
        args = {n: (a[i] if i < len(a) else k[n]) for i, n in enumerate(C.params)}
        args = {n: v if isinstance(v, Ptr) else ex.coerce(ex.rv(s, v) if isinstance(C.params[n], OPT) else ex.nn(s, v), C.params[n]) for n, v in args.items()}
        s0 = s.copy()
        for g in (define(Ctx(ex, s0, args)) if define else []):
            s.add(g)
        for g in (C.pre(Ctx(ex, s0, args)) if C.pre else []):
            if define and any(z3.eq(g, x) for x in s.pc):
                continue
            ex.oblige('%s-is-called-correctly' % C.qual, s, g)
        for p, w in writes:
            v = s.load(args[p])
            leaf = v.at(I(0)).f(w).t.arg(0)
            s.store(args[p], Val(v.ty, [z3.Const(fresh_name('h'), x.sort()) if z3.eq(x, leaf) else x for x in v.ls]))
        r = ret.fresh('r') if ret is not None else Val(UNIT, ())
        if isinstance(ret, LIST):
            s.add(r.len >= 0)
            r = s.new_cell(r, 'r')
        for nm, g in C.post(Ctx(ex, s0, args, s, r)):
            if only is None or nm in only:
                s.add(g)
        return [(s, r)]
    return f


def kept(c):
    """only the deletion mark of a line changes"""
    v, w = c.old('file_lines'), c.new('file_lines')
    leaf = v.at(I(0)).f('deleted').t.arg(0)
    return ('only-the-deletion-mark-changes', And(*[x == y for x, y in zip(v.ls, w.ls) if not z3.eq(x, leaf)]))


def span(c, k):
    m = c.old('file_lines').at(k).f('move_span')
    return m.some, m.val.item(0).t, m.val.item(1).t


def spans_pre(c):
    """move spans are what _CalculateMoveSpans makes of them"""
    n = c.old('file_lines').len

    def ok(k):
        some, a, b = span(c, k)
        return Implies(And(within(k, n), some), And(1 <= a, a <= k, k < b, b <= n))

    def same(k, j):
        some, a, b = span(c, k)
        some2, a2, b2 = span(c, j)
        return Implies(And(within(k, n), some, a <= j, j < b), And(some2, a2 == a, b2 == b))
    return [forall(1, ok, lambda k: [span(c, k)[0]]), forall(2, same, lambda k, j: [z3.MultiPattern(span(c, k)[0], span(c, j)[0])])]


INR = z3.Function('in_the_ranges', IDX, z3.BoolSort())
TXT = z3.Function('text_of_span', IDX, z3.StringSort())     # of the move span that starts at a line, without comments
TMARK = z3.Function('text', z3.StringSort(), z3.BoolSort())
REND = z3.Function('end_of_range_before', IDX, IDX)


def clean(c, k):
    p = c.ex.m.mod._COMMENT_RE
    return uf('re.sub.sub:%s:%d' % (p.pattern, p.flags), STR, vstr(S('')), uf('str.strip', STR, c.old('file_lines').at(k).f('line').val)).t


def rng(c, r):
    v = c.old('line_ranges').at(r)
    return v.item(0).t, v.item(1).t


def starts(c, k):
    """k starts a span the function looks at"""
    some, a, b = span(c, k)
    return And(INR(k), Not(isty(c, typ(c, k), *FILLER)), some, a == k)


def dup_meaning(c):
    """INR(k): some range has line k; REND(i): the end of the range before range i"""
    r = c.old('line_ranges')
    inr = lambda i, k: And(within(i, r.len), rng(c, i)[0] <= k, k < rng(c, i)[1])
    i, k = z3.Int('r_i'), z3.Int('r_k')
    return [REND(0) == 0, FA([i], Implies(within(i, r.len), REND(i + 1) == rng(c, i)[1]), patterns=[rng(c, i)[0]]),
            FA([i, k], Implies(inr(i, k), INR(k)), patterns=[z3.MultiPattern(rng(c, i)[0], INR(k))]), FA([k], Implies(INR(k), z3.Exists([i], inr(i, k))), patterns=[INR(k)])]


def dup_req(c):
    """the ranges are sorted, do not overlap, and the lines in them have move spans"""
    v, r = c.old('file_lines'), c.old('line_ranges')
    return [
        forall(1, lambda i: Implies(within(i, r.len), And(1 <= rng(c, i)[0], rng(c, i)[0] <= rng(c, i)[1], rng(c, i)[1] <= v.len)), lambda i: [rng(c, i)[0]]),
        forall(2, lambda i, k: Implies(And(0 <= i, i < k, k < r.len), rng(c, i)[1] <= rng(c, k)[0]), lambda i, k: [z3.MultiPattern(rng(c, i)[1], rng(c, k)[0])]),
        forall(1, lambda k: Implies(And(INR(k), Not(isty(c, typ(c, k), *FILLER))), span(c, k)[0]), lambda k: [span(c, k)[0]])]


def dup_pre(c):
    return file_pre(c) + spans_pre(c) + dup_meaning(c) + dup_req(c)


def twin(c, h, p=None):
    g = z3.Int(fresh_name('g'))
    return z3.Exists([g], And(starts(c, g), g != h, Not(gone(c, g)), TXT(g) == TXT(h), *([0 <= g, g < p] if p is not None else [])), patterns=[TXT(g)])


def gap(c, i):
    """no range has a line between two ranges"""
    r = c.old('line_ranges')
    return And(Implies(within(i, r.len), And(REND(i) <= rng(c, i)[0], forall(1, lambda k: Implies(And(REND(i) <= k, k < rng(c, i)[0]), Not(INR(k))), lambda k: [INR(k)]))),
               Implies(And(1 <= i, i <= r.len), REND(i) == rng(c, i - 1)[1]))


def gap_lemma(prover):
    v, r = LINES.fresh('file_lines'), LIST(SPAN).fresh('line_ranges')
    from types import SimpleNamespace as NS
    m = PyModule(os.path.join(REPO, F), 'fix_includes_vc')
    ex = PyExec(m, prover, records=RECS)
    c = NS(old=lambda n: {'file_lines': v, 'line_ranges': r}[n], ex=ex)
    i = z3.Int('i')
    pc = [r.len >= 0] + dup_meaning(c) + dup_req(c)
    from vcg.core import Obligation
    return [Obligation('gaps-between-the-ranges-are-outside-of-them', pc, Implies(And(0 <= i, i <= r.len), gap(c, i)), '')], {}


def dup_new(c, p=None):
    """every newly deleted line belongs to a deleted span that has a kept twin"""
    fresh = lambda k: And(gone(c, k), Not(gone0(c, k)))

    def f(k):
        some, a, b = span(c, k)
        return Implies(fresh(k), And(within(k, c.old('file_lines').len), some, starts(c, a), forall(1, lambda j: Implies(And(a <= j, j < b), gone(c, j)), lambda j: [gone(c, j)])))

    def g(k):
        some, a, b = span(c, k)
        return Implies(fresh(k), And(some, twin(c, a, p)))
    return f, g


def dup_post(c):
    f, g = dup_new(c)
    n = c.old('file_lines').len
    return [kept(c), ('nothing-is-restored', forall(1, lambda k: Implies(And(within(k, n), gone0(c, k)), gone(c, k)))),
            ('only-whole-spans-in-the-ranges-are-deleted', forall(1, lambda k: Implies(within(k, n), f(k)))),
            ('only-spans-of-which-a-copy-is-kept-are-deleted', forall(1, lambda k: Implies(within(k, n), g(k)))),
            ('no-two-copies-remain', forall(2, lambda h, k: Implies(And(starts(c, h), starts(c, k), h < k, Not(gone(c, h)), Not(gone(c, k))), TXT(h) != TXT(k))))]


def front(L):
    """the line the scan has reached"""
    if isinstance(L.it.src, Val) and same_src(L.it.src, L.old('line_ranges')):
        return REND(L.idx)
    if L.it.src is None:
        return L.it.at(L.st, L.idx).t
    return None


def same_src(a, b):
    return a.ty == b.ty and all(z3.eq(x, y) for x, y in zip(a.ls, b.ls))


def seen_inv(L):
    p, vs = front(L), L.vars_of(SET(STR))
    if p is None or not vs:
        return None
    seen = vs[0][1]
    h = z3.Int(fresh_name('h'))
    x = z3.Const(fresh_name('x'), z3.StringSort())
    return FA([x], Implies(seen.has(x), z3.Exists([h], And(0 <= h, h < p, starts(L, h), Not(gone(L, h)), TXT(h) == x), patterns=[TXT(h)])), patterns=[seen.has(x)])


def seen_all(L):
    p, vs = front(L), L.vars_of(SET(STR))
    if p is None or not vs:
        return None
    seen = vs[0][1]
    return forall(1, lambda h: Implies(And(0 <= h, h < p, starts(L, h), Not(gone(L, h))), seen.has(TXT(h))), lambda h: [TXT(h)])


def no_twins(L):
    p = front(L)
    if p is None:
        return None
    return forall(2, lambda h, k: Implies(And(starts(L, h), starts(L, k), 0 <= h, h < k, k < p, Not(gone(L, h)), Not(gone(L, k))), TXT(h) != TXT(k)), lambda h, k: [z3.MultiPattern(TXT(h), TXT(k))])


def untouched(L):
    """nothing beyond the scan has changed, except in spans"""
    return None


def restored(L):
    return forall(1, lambda k: Implies(gone0(L, k), gone(L, k)), lambda k: [gone(L, k)])


def dup_a(L):
    return forall(1, dup_new(L)[0], lambda k: [gone(L, k)]) if front(L) is not None else None


def dup_b(L):
    return forall(1, dup_new(L, front(L))[1], lambda k: [gone(L, k)]) if front(L) is not None else None


def marked(L):
    """a loop that marks consecutive lines"""
    if L.it.src is None:
        if len(L.outer) < 2:
            return None
        a = L.it.at(L.st, I(0)).t
    elif isinstance(L.it.src.ty.t, core.ELEMREF):
        a = L.it.src.at(I(0)).ls[0]
    else:
        return None
    p = L.pre.load(L.args['file_lines'])
    return forall(1, lambda k: gone(L, k) == Or(p.at(k).f('deleted').t, And(a <= k, k < a + L.idx)), lambda k: [gone(L, k)])


def dup_defs(L, k):
    if isinstance(L.it.src, Val) and same_src(L.it.src, L.old('line_ranges')):
        return [Implies(And(0 <= k, k <= L.old('line_ranges').len), gap(L, k))]      # proved as a lemma of its own
    try:
        v = L.it.at(L.st, k)
        if v.ty == INT:
            return [TMARK(TXT(v.t))]
    except Exception:
        pass
    return []


def dup_models(m):
    def join(ex, s, o, a, k):
        l = ex.rv(s, a[0])
        r = uf('str.join', STR, ex.nn(s, o), l)
        c = Ctx(ex, None, ex.args)
        c.st0 = ex.entry
        h = z3.Int(fresh_name('h'))
        some, x, y = span(c, h)
        s.add(FA([h], Implies(And(some, x == h, l.len == y - x, forall(1, lambda i: Implies(within(i, l.len), l.at(i).t == clean(c, h + i)))), r.t == TXT(h)), patterns=[TXT(h)]))
        return [(s, r)]

    def strip(ex, s, o, a, k):
        return [(s, uf('str.strip', STR, ex.nn(s, o)))]
    return {'method:str.join': join, 'method:str.strip': strip, 'elemrefs': True}


dup_inv = [restored, seen_inv, seen_all, no_twins, dup_a, dup_b, marked]


# trailing blank lines
def blank_pre(c):
    v, r = c.old('file_lines'), c.old('line_range')
    a, b = r.item(0).t, r.item(1).t
    return [v.len >= 1, 0 <= a, a < b, b <= v.len]


def blank_post(c):
    v, r = c.old('file_lines'), c.old('line_range')
    a, b, n = r.item(0).t, r.item(1).t, v.len
    fresh = lambda k: And(within(k, n), gone(c, k), Not(gone0(c, k)))
    return [kept(c), ('nothing-is-restored', forall(1, lambda k: Implies(And(within(k, n), gone0(c, k)), gone(c, k)))),
            ('nothing-changes-unless-the-whole-range-is-deleted', forall(2, lambda j, k: Implies(And(a <= j, j < b, Not(gone0(c, j))), Not(fresh(k))))),
            ('only-blank-lines-after-the-range-are-deleted', forall(1, lambda k: Implies(fresh(k), And(k >= b, typ(c, k) == tycode(c, '_BLANK_LINE_RE'))))),
            ('only-blank-lines-next-to-the-range-are-deleted', forall(2, lambda j, k: Implies(And(fresh(k), b <= j, j < k), gone(c, j)))),
            ('a-blank-line-before-the-range-is-kept', forall(1, lambda k: Implies(fresh(k), exists(1, lambda j: And(0 <= j, j < a, Not(gone(c, j)), typ(c, j) == tycode(c, '_BLANK_LINE_RE'))))))]


def blank_inv():
    def all_deleted(L):
        a, b = L.it.at(L.st, I(0)).t, L.it.at(L.st, L.idx).t
        return forall(1, lambda k: Implies(And(a <= k, k < b), gone0(L, k)), lambda k: [gone0(L, k)])

    def rest(L):
        r = L.old('line_range')
        b = r.item(1).t
        return forall(1, lambda k: Implies(And(gone(L, k), Not(gone0(L, k))), And(k >= b, within(k, L.old('file_lines').len), typ(L, k) == tycode(L, '_BLANK_LINE_RE'))), lambda k: [gone(L, k)])

    def optvars(L):
        return sorted((n, v) for n, v in L.vars_of(OPT(INT)))

    def near(L):
        r = L.old('line_range')
        b, n = r.item(1).t, L.old('file_lines').len
        return [(slot(L, nm), If(v.some, And(b <= v.val.t, v.val.t < n, Not(gone(L, v.val.t)), forall(1, lambda k: Implies(And(v.val.t <= k, gone(L, k)), gone0(L, k)), lambda k: [gone(L, k)]),
                                             forall(1, lambda k: Implies(And(b <= k, k < v.val.t), gone(L, k)), lambda k: [gone(L, k)])),
                                 forall(1, lambda k: Implies(And(b <= k, k < n), gone(L, k)), lambda k: [gone(L, k)]))) for nm, v in optvars(L)]

    def before(L):
        r = L.old('line_range')
        return [(slot(L, nm), Implies(v.some, And(0 <= v.val.t, v.val.t < r.item(0).t, Not(gone(L, v.val.t))))) for nm, v in optvars(L)]

    def keptblank(L):
        r = L.old('line_range')
        j = z3.Int(fresh_name('j'))
        return forall(1, lambda k: Implies(And(gone(L, k), Not(gone0(L, k))), z3.Exists([j], And(MARK(j), 0 <= j, j < r.item(0).t, Not(gone(L, j)), typ(L, j) == tycode(L, '_BLANK_LINE_RE')), patterns=[MARK(j)])), lambda k: [gone(L, k)])
    return [restored, rest, keptblank, all_deleted] + many(near, 6) + many(before, 6)


# ------------------------------------------------------------- the whole clean-up
def reorder(c, k):
    m = c.old('file_lines').at(k).f('reorder_span')
    return m.some, m.val.item(0).t, m.val.item(1).t


def reorder_pre(c):
    """reorder spans are what _CalculateReorderSpans makes of them"""
    n = c.old('file_lines').len

    def ok(k):
        some, a, b = reorder(c, k)
        return Implies(And(within(k, n), some), And(1 <= a, a <= k, k < b, b <= n))

    def same(k, j):
        some, a, b = reorder(c, k)
        some2, a2, b2 = reorder(c, j)
        return Implies(And(within(k, n), some, a <= j, j < b), And(some2, a2 == a, b2 == b))
    return [forall(1, ok, lambda k: [reorder(c, k)[0]]), forall(2, same, lambda k, j: [z3.MultiPattern(reorder(c, k)[0], reorder(c, j)[0])]),
            forall(1, lambda k: Implies(And(within(k, n), reorder(c, k)[0], Not(isty(c, typ(c, k), *FILLER))), span(c, k)[0]), lambda k: [span(c, k)[0]])]


def spans_post(c):
    """_GetToplevelReorderSpans: some of the reorder spans of the file, in order"""
    n, r = c.old('file_lines').len, c.retval(LIST(SPAN))
    sp = lambda i: (r.at(i).item(0).t, r.at(i).item(1).t)
    k = z3.Int(fresh_name('k'))

    def real_one(i):
        some, a, b = reorder(c, sp(i)[0])
        return Implies(within(i, r.len), And(within(sp(i)[0], n), some, a == sp(i)[0], b == sp(i)[1]))
    return [('spans-of-the-file', forall(1, real_one, lambda i: [sp(i)[0]])),
            ('in-order', forall(2, lambda i, j: Implies(And(0 <= i, i < j, j < r.len), c.ex.lex(r.at(i), r.at(j), True)), lambda i, j: [z3.MultiPattern(sp(i)[1], sp(j)[0])]))]


def todo(c):
    return c.old('iwyu_record').f('lines_to_delete')


def asked(c, k):
    """k is in the move span of a line that is to go"""
    n = z3.Int(fresh_name('n'))
    some, a, b = span(c, n)
    return z3.Exists([n], And(todo(c).has(n), a <= k, k < b), patterns=[todo(c).has(n)])


def all_pre(c):
    v = c.old('file_lines')
    return file_pre(c) + spans_pre(c) + reorder_pre(c) + [forall(1, lambda n: Implies(todo(c).has(n), And(within(n, v.len), span(c, n)[0])), lambda n: [todo(c).has(n)])]


def all_post(c):
    n = c.old('file_lines').len
    fresh = lambda k: And(within(k, n), gone(c, k), Not(gone0(c, k)))
    cleanup = lambda k: isty(c, typ(c, k), *(IFTYPES + NSTYPES))

    def dup(k):
        some, a, b = span(c, k)
        return And(some, starts(c, a), twin(c, a))
    return [kept(c), ('nothing-is-restored', forall(1, lambda k: Implies(And(within(k, n), gone0(c, k)), gone(c, k)))),
            ('every-requested-line-is-deleted', forall(2, lambda l, k: Implies(And(todo(c).has(l), span(c, l)[1] <= k, k < span(c, l)[2]), gone(c, k)))),
            ('only-requested-emptied-or-duplicate-lines-are-deleted', forall(1, lambda k: Implies(fresh(k), Or(asked(c, k), cleanup(k), dup(k)))))]


def all_inv():
    def src(L):
        return L.it.src if L.it is not None and isinstance(L.it.src, Val) and L.it.src.ty == LIST(INT) else None

    def done(L):
        q = src(L)
        return forall(2, lambda i, k: Implies(And(within(i, L.idx), span(L, q.at(i).t)[1] <= k, k < span(L, q.at(i).t)[2]), gone(L, k)), lambda i, k: [z3.MultiPattern(q.at(i).t, gone(L, k))]) if q is not None else None

    def only(L):
        if L.it is None or L.it.src is not None and L.it.src.ty == LIST(SPAN):
            return None
        return forall(1, lambda k: Implies(And(within(k, L.old('file_lines').len), gone(L, k), Not(gone0(L, k))), asked(L, k)), lambda k: [gone(L, k)])

    def cleaned(L):
        return forall(1, lambda k: Implies(And(within(k, L.old('file_lines').len), gone(L, k), Not(gone0(L, k))), Or(asked(L, k), isty(L, typ(L, k), *(IFTYPES + NSTYPES)))), lambda k: [gone(L, k)])

    def mono(L):
        p = L.pre.load(L.args['file_lines'])
        return forall(1, lambda k: Implies(And(within(k, L.old('file_lines').len), p.at(k).f('deleted').t), gone(L, k)), lambda k: [gone(L, k)])

    def blanks(L):
        if L.it is None or L.it.src is None or L.it.src.ty != LIST(SPAN):
            return None
        p = L.pre.load(L.args['file_lines'])
        return forall(1, lambda k: Implies(And(within(k, L.old('file_lines').len), gone(L, k), Not(p.at(k).f('deleted').t)), And(isty(L, typ(L, k), '_BLANK_LINE_RE'))), lambda k: [gone(L, k)])

    def shifting(L):
        if L.it is None or L.it.src is not None and not isinstance(getattr(L.it.src.ty, 't', None), core.ELEMREF):
            return None
        a, b = bounds(L)
        p = L.pre.load(L.args['file_lines'])
        return forall(1, lambda k: gone(L, k) == Or(p.at(k).f('deleted').t, And(a <= k, k < b)), lambda k: [gone(L, k)])

    def restored(L):
        return forall(1, lambda k: Implies(And(within(k, L.old('file_lines').len), gone0(L, k)), gone(L, k)), lambda k: [gone(L, k)])

    def first(L):
        return Not(gone(L, I(0)))
    return [restored, mono, done, only, cleaned, blanks, shifting, first]


def lunit(c, models=None, **k):
    f = models if callable(models) else (lambda m: models or {})
    return funit(c, models=lambda m: dict(f(m), elemrefs=True), **k)


def build():
    C = Contract
    units = [
        lunit(C('_PreviousNondeletedLine', {'file_lines': LINES, 'line_number': INT}, pre=near_pre, post=prev_post, inv=[scanned] + many(counted, 12))),
        lunit(C('_NextNondeletedLine', {'file_lines': LINES, 'line_number': INT}, pre=near_pre, post=next_post, inv=[scanned] + many(counted, 12))),
        lunit(C('_LineNumberStartingPrecedingComments', {'file_lines': LINES, 'line_number': INT}, pre=near_pre, post=comments_post,
                inv=many(lambda L: down(L, ('_COMMENT_LINE_RE',)), 6))),
        lunit(C('_DeleteEmptyIfdefs', {'file_lines': LINES}, pre=file_pre, post=clean_post(NIF, IFTYPES, if_extra),
                inv=clean_inv(NIF, IFTYPES, if_extra, if_lower), defs=depth_defs(NIF, if_weight), cons='brief')),
        lunit(C('_DeleteEmptyNamespaces', {'file_lines': LINES}, pre=file_pre, post=clean_post(NNS, NSTYPES, no_extra),
                inv=clean_inv(NNS, NSTYPES, no_extra, ns_lower) + many(ns_count, 216), defs=depth_defs(NNS, ns_weight), cons='brief'), models={'method:str.count': count_model}),
    ]
    prev, nxt = units[0].contract, units[1].contract
    near = {'_PreviousNondeletedLine': modular(prev, OPT(INT)), '_NextNondeletedLine': modular(nxt, OPT(INT))}
    units += [
        Unit('_DeleteDuplicateLines/lemma', F, gap_lemma, replay='_DeleteDuplicateLines'),
        lunit(C('_DeleteDuplicateLines', {'file_lines': LINES, 'line_ranges': LIST(SPAN)}, pre=dup_pre, post=dup_post, inv=dup_inv, defs=dup_defs), models=dup_models),
        lunit(C('_DeleteExtraneousBlankLines', {'file_lines': LINES, 'line_range': SPAN}, pre=blank_pre, post=blank_post, inv=blank_inv(), defs=lambda L, k: [MARK(v.val.t) for _, v in L.vars_of(OPT(INT))]), contracts=near),
    ]
    few = ('only-the-deletion-mark-changes', 'nothing-is-restored', 'only-such-lines-are-deleted')
    gspans = C('_GetToplevelReorderSpans', {'file_lines': LINES}, pre=lambda c: file_pre(c) + reorder_pre(c), post=spans_post)
    callees = {'_DeleteEmptyNamespaces': modular(units[4].contract, INT, [('file_lines', 'deleted')], only=few),
               '_DeleteEmptyIfdefs': modular(units[3].contract, INT, [('file_lines', 'deleted')], only=few),
               '_GetToplevelReorderSpans': modular(gspans, LIST(SPAN)),
               '_DeleteDuplicateLines': modular(units[6].contract, None, [('file_lines', 'deleted')], define=dup_meaning),
               '_DeleteExtraneousBlankLines': modular(units[7].contract, None, [('file_lines', 'deleted')])}
    units += [lunit(C('_DeleteLinesAccordingToIwyu', {'iwyu_record': RECORD, 'file_lines': LINES}, pre=all_pre, post=all_post, inv=all_inv(), cons='brief'), contracts=callees)]
    from . import p10_replay as R
    return Spec('P10', units, replays={
        '_PreviousNondeletedLine': R.replay_near, '_NextNondeletedLine': R.replay_near, '_LineNumberStartingPrecedingComments': R.replay_comments,
        '_DeleteEmptyIfdefs': R.replay_empty('_DeleteEmptyIfdefs', ['if', 'else', 'endif', 'guard', 'define', 'blank', 'comment', 'inc', 'code']),
        '_DeleteEmptyNamespaces': R.replay_empty('_DeleteEmptyNamespaces', ['ns', 'nsend', 'mac', 'blank', 'comment', 'inc', 'allman', 'cont', 'code']),
        '_DeleteDuplicateLines': R.replay_dups, '_DeleteExtraneousBlankLines': R.replay_blank, '_DeleteLinesAccordingToIwyu': R.replay_all},
        assumptions=['the move spans and reorder spans of a file do not overlap and lie inside it (made so by ParseOneFile)',
                     'line 0 is the dummy line ParseOneFile adds; every other line has a text'],
        trusted=['_GetToplevelReorderSpans returns reorder spans of the file in increasing order (used by _DeleteLinesAccordingToIwyu; only its replay is run)'])
