"""P18 mappings are expanded and closed before any lookup."""
from .picker import *
from . import pickermodel

C = Contract
Z, B, ST = z3.IntSort(), z3.BoolSort(), z3.StringSort()
F = z3.Function

# ------------------------------------------------------------- ExpandOnce
# The nodes and, after each, its children: position (i, 0) is node i, (i, j + 1) its child j.
# W(q) is the first position with name q; N(i, j) counts the first occurrences before (i, j).
N_ = F('firsts_before', Z, Z, Z)
WI, WJ = F('first_i', ST, Z), F('first_j', ST, Z)
PI, PJ = F('nth_first_i', Z, Z), F('nth_first_j', Z, Z)


def q_of(x):
    return x.f('quoted_include').t


def p_of(x):
    return x.f('path').t


WD = F('width', Z, Z)
NQ, NP = F('name_at', Z, Z, ST), F('path_at', Z, Z, ST)


class Seq:
    def __init__(self, c):
        self.nodes, self.m = c.old('nodes'), c.old('m')

    def defs(self, i, j):
        """the definitions of WD, NQ and NP at (i, j), j > 0, and at (i, 0)"""
        n = self.nodes.at(i)
        k = q_of(n)
        x = self.m.get(k).at(j - 1)
        return [WD(i) == 1 + If(self.m.has(k), self.m.get(k).len, 0), self.m.get(k).len >= 0, NQ(i, 0) == k, NP(i, 0) == p_of(n),
                Implies(0 < j, And(NQ(i, j) == q_of(x), NP(i, j) == p_of(x)))]

    def is_elem(self, x, i, j):
        return And(q_of(x) == NQ(i, j), p_of(x) == NP(i, j))

    def valid(self, i, j):
        return And(0 <= i, i < self.nodes.len, 0 <= j, j < WD(i))

    def first(self, i, j):
        q = NQ(i, j)
        return And(WI(q) == i, WJ(q) == j)


def lex(a, b, c, d):
    return Or(a < c, And(a == c, b < d))


def eo_pre(c):
    s = Seq(c)
    i, j = z3.Ints('i! j!')
    q = NQ(i, j)
    return [N_(0, 0) == 0,
            # the first position of a name (a definition: the least one in lexicographic order)
            FA([i, j], Implies(s.valid(i, j), And(s.valid(WI(q), WJ(q)), Not(lex(i, j, WI(q), WJ(q))), NQ(WI(q), WJ(q)) == q)), patterns=[q])]


def pos(L):
    """the position reached in the sequence"""
    if L.outer:
        return L.outer[-1][0], L.idx + 1
    return L.idx, I(0)


def eo_defs(L, k):
    s = Seq(L)

    def step(i, j):
        f = s.first(i, j)
        return s.defs(i, j) + [N_(i, j) >= 0, N_(i, j + 1) == N_(i, j) + If(f, I(1), I(0)), Implies(And(s.valid(i, j), f), And(PI(N_(i, j)) == i, PJ(N_(i, j)) == j))]
    if L.outer:
        return step(L.outer[-1][0], k + 1)
    return step(k, I(0)) + [N_(k + 1, 0) == N_(k, WD(k))]


def rv_(L):
    return local(L, LIST(MI), 'nodes_and_children')


def sn_(L):
    return local(L, SET(STR), 'seen_nodes_and_children')


def complete(s, r, i, j):
    return forall(2, lambda a, b: Implies(And(s.valid(a, b), lex(a, b, i, j), s.first(a, b)), And(0 <= N_(a, b), N_(a, b) < r.len, s.is_elem(r.at(N_(a, b)), a, b))),
                  lambda a, b: [N_(a, b)])


def exact(s, r, i, j):
    return forall(1, lambda p: Implies(within(p, r.len), And(s.valid(PI(p), PJ(p)), lex(PI(p), PJ(p), i, j), s.first(PI(p), PJ(p)), N_(PI(p), PJ(p)) == p, s.is_elem(r.at(p), PI(p), PJ(p)))),
                  lambda p: [PI(p)])


def eo_seen(L):
    s, sn = Seq(L), sn_(L)
    i, j = pos(L)
    q = z3.Const(fresh_name('q'), ST)
    return FA([q], sn.has(q) == And(s.valid(WI(q), WJ(q)), NQ(WI(q), WJ(q)) == q, lex(WI(q), WJ(q), i, j)), patterns=[sn.has(q)])


eo_inv = [lambda L: rv_(L).len == N_(*pos(L)), eo_seen,
          lambda L: complete(Seq(L), rv_(L), *pos(L)),
          lambda L: exact(Seq(L), rv_(L), *pos(L)),
          lambda L: And(*[Val(LIST(MI), L.new('nodes').ls).ls[k] == L.old('nodes').ls[k] for k in range(3)])]


def eo_post(c):
    s, r = Seq(c), c.new('nodes')
    n = s.nodes.len
    W = lambda q: N_(WI(q), WJ(q))
    return [('every-node-and-every-child-once', And(r.len == N_(n, 0), complete(s, r, n, I(0)))), ('nothing-else-in-order', exact(s, r, n, I(0))),
            # what the callers use
            ('every-name-is-there', forall(2, lambda i, j: Implies(s.valid(i, j), And(within(W(NQ(i, j)), r.len), q_of(r.at(W(NQ(i, j)))) == NQ(i, j))), lambda i, j: [NQ(i, j)])),
            ('every-entry-is-a-node-or-a-child', forall(1, lambda p: Implies(within(p, r.len), And(s.valid(PI(p), PJ(p)), s.is_elem(r.at(p), PI(p), PJ(p)))), lambda p: [PI(p)])),
            ('no-name-twice', forall(2, lambda a, b: Implies(And(within(a, r.len), within(b, r.len), q_of(r.at(a)) == q_of(r.at(b))), a == b), lambda a, b: [z3.MultiPattern(q_of(r.at(a)), q_of(r.at(b)))]))]


# ------------------------------------------------- transitive closure
REACH = F('replaces', ST, ST, ST, B)     # (header, its replacement, path of the replacement): recorded, or through other replacements


def NS(l):
    """the names in a list of headers"""
    return uf('names', SET(STR), l)


def CARD(x):
    return uf('cardinality', INT, x).t


def D(l):
    """no name appears twice"""
    return uf('distinct', BOOL, l).t


def c_expand(ex, s, a):
    m, np_ = ex.rv(s, a[0]), a[1]
    ex.oblige('pointer-not-null', s, np_.some, 'implicit') if isinstance(np_, NPtr) else None
    ptr = np_.ptr if isinstance(np_, NPtr) else np_
    o = s.load(ptr)
    r = LIST(MI).fresh('expanded')
    s.store(ptr, r)
    s.add(*expand_facts(m, o, r))
    return [(s, Val(UNIT, ()))]


def expand_facts(m, o, r):
    q, x = z3.Const(fresh_name('q'), ST), z3.Const(fresh_name('x'), ST)
    p = z3.Int(fresh_name('p'))
    si, sj = F(fresh_name('si'), Z, Z), F(fresh_name('sj'), Z, Z)
    k = o.at(si(p))
    ch = m.get(q_of(k))
    c = ch.at(sj(p) - 1)
    return [r.len >= 0, D(r),
            FA([q], Implies(NS(o).has(q), NS(r).has(q)), patterns=[NS(r).has(q)]),
            FA([q], Implies(NS(o).has(q), NS(r).has(q)), patterns=[NS(o).has(q)]),
            FA([x, q], Implies(And(NS(o).has(x), m.has(x), NS(m.get(x)).has(q)), NS(r).has(q)), patterns=[NS(m.get(x)).has(q)]),
            FA([p], Implies(within(p, r.len), And(within(si(p), o.len), 0 <= sj(p), Or(And(sj(p) == 0, mi_eq(r.at(p), k)), And(sj(p) > 0, m.has(q_of(k)), sj(p) <= ch.len, mi_eq(r.at(p), c))))),
               patterns=[r.at(p).ls[0]]),
            # finite sets: distinct lists have as many names as entries; equal cardinality and inclusion give equality
            CARD(NS(r)) == r.len, Implies(D(o), CARD(NS(o)) == o.len), Implies(CARD(NS(r)) == CARD(NS(o)), And(*[a == b for a, b in zip(NS(r).ls, NS(o).ls)]))]


def trans():
    a, b, c, p1, p2 = [z3.Const(n, ST) for n in ('a!', 'b!', 'c!', 'p1!', 'p2!')]
    return FA([a, b, p1, c, p2], Implies(And(REACH(a, b, p1), REACH(b, c, p2)), REACH(a, c, p2)), patterns=[z3.MultiPattern(REACH(a, b, p1), REACH(b, c, p2))])


def K():
    return z3.Const(fresh_name('k'), ST)


def sound(m):
    k, p = K(), z3.Int(fresh_name('p'))
    x = m.get(k).at(p)
    return FA([k, p], Implies(And(m.has(k), within(p, m.get(k).len)), REACH(k, q_of(x), p_of(x))), patterns=[x.ls[0]])


def lens(m):
    k = K()
    return FA([k], m.get(k).len >= 0, patterns=[m.get(k).len])


def samedom(m, o):
    k = K()
    return FA([k], m.has(k) == o.has(k), patterns=[m.has(k)])


def grows(m, o):
    k, q = K(), K()
    return FA([k, q], Implies(And(o.has(k), NS(o.get(k)).has(q)), NS(m.get(k)).has(q)), patterns=[NS(m.get(k)).has(q)])


UNU, CALC, DONE = 0, 1, 2


def stat(st, k):
    return If(st.has(k), st.get(k).t, I(UNU))


def done_distinct(m, st):
    k = K()
    return FA([k], Implies(And(m.has(k), stat(st, k) == DONE), D(m.get(k))), patterns=[D(m.get(k))])


def samelist(a, b):
    return And(*[x == y for x, y in zip(a.ls, b.ls)])


def mnt_effect(m, o, st, so):
    k = K()
    return [('keys-unchanged', samedom(m, o)), ('only-reachable-replacements', sound(m)), ('nothing-lost', grows(m, o)),
            ('open-nodes-untouched', FA([k], Implies(stat(so, k) == CALC, samelist(m.get(k), o.get(k))), patterns=[m.get(k).len])),
            ('open-nodes-stay-open', FA([k], (stat(st, k) == CALC) == (stat(so, k) == CALC), patterns=[st.has(k)])),
            ('finished-nodes-stay-finished', FA([k], Implies(stat(so, k) == DONE, stat(st, k) == DONE), patterns=[st.has(k)])),
            ('finished-without-duplicates', done_distinct(m, st)), ('lists', lens(m))]


def mnt_pre(c):
    m, st = c.old('filename_map'), c.old('seen_nodes')
    return [trans(), sound(m), lens(m), done_distinct(m, st)]


def mnt_post(c):
    m, o, st, so = c.new('filename_map'), c.old('filename_map'), c.new('seen_nodes'), c.old('seen_nodes')
    key = c.old('key').t
    return mnt_effect(m, o, st, so) + [('this-node-finished', Implies(stat(so, key) != CALC, stat(st, key) == DONE)), ('stack-balanced', c.new('node_stack').len == c.old('node_stack').len)]


def cells(ex, s, a):
    out = []
    for x in a:
        if isinstance(x, NPtr):
            ex.oblige('pointer-not-null', s, x.some, 'implicit')
            x = x.ptr
        out.append(x)
    return out


def c_mnt(ex, s, a):
    mp, sp, np_, kp = cells(ex, s, a)
    o, so, no, key = s.load(mp), s.load(sp), s.load(np_), ex.rv(s, kp).t
    for nm, g in zip(('only-reachable-replacements', 'lists', 'finished-without-duplicates'), (sound(o), lens(o), done_distinct(o, so))):
        ex.oblige('call(MakeNodeTransitive):' + nm, s, g, 'implicit')
    m, st, n = o.ty.fresh('m'), so.ty.fresh('st'), no.ty.fresh('stack')
    s.store(mp, m)
    s.store(sp, st)
    s.store(np_, n)
    s.add(*[g for _, g in mnt_effect(m, o, st, so)])
    s.add(n.len == no.len, n.len >= 0, Implies(stat(so, key) != CALC, stat(st, key) == DONE))
    return [(s, Val(UNIT, ()))]


def mnt_open(L):
    """the loop leaves this node open and untouched"""
    m, o, st, so = L.new('filename_map'), L.old('filename_map'), L.new('seen_nodes'), L.old('seen_nodes')
    key = L.old('key').t
    return And(stat(st, key) == CALC, samelist(m.get(key), o.get(key)), m.has(key))


def mnt_inv(i):
    def f(L):
        m, o, st, so = L.new('filename_map'), L.old('filename_map'), L.new('seen_nodes'), L.old('seen_nodes')
        key = L.old('key').t
        if i == 4:      # open nodes: those open at entry and this one
            k = K()
            return FA([k], (stat(st, k) == CALC) == Or(stat(so, k) == CALC, k == key), patterns=[st.has(k)])
        return mnt_effect(m, o, st, so)[i][1]
    return f


mnt_invs = [mnt_inv(i) for i in range(8)] + [mnt_open, lambda L: L.new('node_stack').len == L.old('node_stack').len]


def mmt_pre(c):
    m = c.old('filename_map')
    return [trans(), sound(m), lens(m)]


def closed(m, only=None):
    k, x, q = K(), K(), K()
    g = And(m.has(k), NS(m.get(k)).has(x), m.has(x), NS(m.get(x)).has(q))
    return FA([k, x, q], Implies(And(g, only(k)) if only else g, NS(m.get(k)).has(q)), patterns=[z3.MultiPattern(NS(m.get(k)).has(x), NS(m.get(x)).has(q))])


def alldistinct(m):
    k = K()
    return FA([k], Implies(m.has(k), D(m.get(k))), patterns=[D(m.get(k))])


def mmt_effect(m, o):
    return [('keys-unchanged', samedom(m, o)), ('only-reachable-replacements', sound(m)), ('nothing-lost', grows(m, o)), ('no-duplicates', alldistinct(m)), ('lists', lens(m))]


def mmt_post(c):
    m, o = c.new('filename_map'), c.old('filename_map')
    return mmt_effect(m, o) + [('closed', closed(m))]


def changed(L):
    return local(L, BOOL, 'changed').t


def seen_(L):
    return local(L, MAP(STR, INT), 'seen_nodes')


def enum_has(L, k):
    """k is among the keys already visited"""
    i = z3.Int(fresh_name('i'))
    return z3.Exists([i], And(within(i, L.idx), L.it.src.at(i).t == k))


def mmt_inv(i):
    def f(L):
        return mmt_effect(L.new('filename_map'), L.old('filename_map'))[i][1]
    return f


def visited(L, body):
    k = z3.Int(fresh_name('i'))
    x = L.it.src.at(k).t
    return FA([k], Implies(within(k, L.idx), body(x)), patterns=[x])


def inv_nocalc(L):
    st, k = seen_(L), K()
    return FA([k], stat(st, k) != CALC, patterns=[st.has(k)])


def inv_same(L):
    """nothing has been added in this round"""
    m, o, k = L.new('filename_map'), L.pre.load(L.args['filename_map']), K()
    return Implies(Not(changed(L)), FA([k], Implies(o.has(k), And(*[a == b for a, b in zip(NS(m.get(k)).ls, NS(o.get(k)).ls)])), patterns=[NS(m.get(k)).ls[0]]))


def inv_closed(L):
    m, q, y = L.new('filename_map'), K(), K()
    i = z3.Int(fresh_name('i'))
    x = L.it.src.at(i).t
    return Implies(Not(changed(L)), FA([i, y, q], Implies(And(within(i, L.idx), NS(m.get(x)).has(y), m.has(y), NS(m.get(y)).has(q)), NS(m.get(x)).has(q)), patterns=[z3.MultiPattern(NS(m.get(x)).has(y), NS(m.get(y)).has(q))]))


mmt_invs = [mmt_inv(i) for i in range(5)] + [inv_nocalc, lambda L: visited(L, lambda x: stat(seen_(L), x) == DONE), lambda L: done_distinct(L.new('filename_map'), seen_(L)),
                                             lambda L: inv_same(L) if L.it else None, lambda L: inv_closed(L) if L.it else None, lambda L: None if L.it else Implies(Not(changed(L)), closed(L.new('filename_map')))]


# ------------------------------------------------------- regex expansion
def cq_post(c):
    l, q = c.old('mapped_includes'), c.old('quoted_include').t
    return [('exactly-when-listed', c.retval(BOOL).t == exists(1, lambda p: And(within(p, l.len), q_of(l.at(p)) == q)))]


def cq_inv(L):
    l, q = L.old('mapped_includes'), L.old('quoted_include').t
    return forall(1, lambda p: Implies(within(p, L.idx), q_of(l.at(p)) != q))


def c_contains(ex, s, a):
    return [(s, vbool(NS(ex.rv(s, a[0])).has(ex.rv(s, a[1]).t)))]


def at_key(k):
    return z3.PrefixOf(S('@'), k)


def rkeys(m):
    return uf('regex_keys', LIST(STR), Val(SET(STR), m.ls[:1]))


def rrank(m, k):
    return uf('regex_key_rank', INT, Val(SET(STR), m.ls[:1]), Val(STR, (k,))).t


def c_extract(ex, s, a):
    m = ex.rv(s, a[0])
    r, k, i = rkeys(m), K(), z3.Int(fresh_name('i'))
    w = rrank(m, k)
    s.add(r.len >= 0, FA([k], Implies(And(m.has(k), at_key(k)), And(within(w, r.len), r.at(w).t == k)), patterns=[w]),
          FA([i], Implies(within(i, r.len), And(m.has(r.at(i).t), at_key(r.at(i).t), rrank(m, r.at(i).t) == i)), patterns=[r.at(i).t]))
    return [(s, r)]


def ek_post(c):
    m, r = c.old('m'), c.retval(LIST(STR))
    k = K()
    return [('only-pattern-keys', forall(1, lambda i: Implies(within(i, r.len), And(m.has(r.at(i).t), at_key(r.at(i).t))))),
            ('every-pattern-key', FA([k], Implies(And(m.has(k), at_key(k)), And(within(EK(ERANK(k)), r.len), r.at(EK(ERANK(k))).t == k)), patterns=[m.has(k)])),
            ('no-key-twice', forall(2, lambda i, j: Implies(And(within(i, r.len), within(j, r.len), r.at(i).t == r.at(j).t), i == j)))]


EK = F('pattern_keys_before', Z, Z)
ERANK = F('rank_of_key', ST, Z)


def ek_defs(L, k):
    x = L.it.src.at(k).t
    return [EK(0) == 0, EK(k) >= 0, EK(k + 1) == EK(k) + If(at_key(x), I(1), I(0)), Implies(within(k, L.it.n), ERANK(x) == k)]


def ek_r(L):
    return local(L, LIST(STR), 'regex_keys')


ek_inv = [lambda L: ek_r(L).len == EK(L.idx),
          lambda L: forall(1, lambda i: Implies(within(i, ek_r(L).len), And(L.old('m').has(ek_r(L).at(i).t), at_key(ek_r(L).at(i).t), ERANK(ek_r(L).at(i).t) < L.idx))),
          lambda L: forall(1, lambda i: Implies(And(within(i, L.idx), at_key(L.it.src.at(i).t)), And(EK(i) < ek_r(L).len, EK(i) >= 0, ek_r(L).at(EK(i)).t == L.it.src.at(i).t)), lambda i: [L.it.src.at(i).t]),
          lambda L: forall(1, lambda i: Implies(within(i, L.idx), ERANK(L.it.src.at(i).t) == i), lambda i: [L.it.src.at(i).t]),
          lambda L: forall(1, lambda i: Implies(within(i, ek_r(L).len), EK(ERANK(ek_r(L).at(i).t)) == i), lambda i: [ek_r(L).at(i).t])]


def match(d, h, rx):
    return uf('regex_match', BOOL, d, Val(STR, (h,)), Val(STR, (rx,))).t


def subst(d, h, rx, to):
    return uf('regex_replace', STR, d, Val(STR, (h,)), Val(STR, (rx,)), Val(STR, (to,))).t


def rx_of(k):
    return z3.SubString(k, 1, z3.Length(k) - 1)


def c_match(ex, s, a):
    return [(s, vbool(match(ex.rv(s, a[0]), ex.rv(s, a[1]).t, ex.rv(s, a[2]).t)))]


def c_subst(ex, s, a):
    r = subst(ex.rv(s, a[0]), ex.rv(s, a[1]).t, ex.rv(s, a[2]).t, ex.rv(s, a[3]).t)
    return [(s, Val(STR, (r,)))]


def c_mark(ex, s, a):
    """MarkVisibility returns only if the recorded visibility agrees (P17)"""
    if len(a) == 4:
        ex.oblige('check-holds(not yet finalised)', s, Not(s.load(a[0]).f('has_called_finalize_added_include_lines_').t), 'implicit')
        a = a[1:]
    mp, = cells(ex, s, a[:1])
    k, v = ex.rv(s, a[1]), ex.rv(s, a[2])
    m = s.load(mp)
    s.add(Implies(m.has(k.t), m.get(k.t).t == v.t))
    s.store(mp.sub(('k', k.ls), INT), v) if False else s.store(mp, Val(m.ty, (z3.Store(m.ls[0], k.t, z3.BoolVal(True)), z3.Store(m.ls[1], k.t, v.t))))
    return [(s, Val(UNIT, ()))]


WP = F('where_put', ST, ST, Z, Z)                 # header, pattern, target -> position in the header's list
SK, SJ = F('from_pattern', ST, Z, ST), F('from_target', ST, Z, Z)
SFK = F('friend_from', ST, ST, ST)


class RX:
    """the expansion of patterns: what was recorded before, what is recorded now"""

    def __init__(self, c):
        p = c.old('this')
        n = c.new('this')
        self.M, self.m = p.f('filepath_include_map_'), n.f('filepath_include_map_')
        self.Fr, self.fr = p.f('friend_to_headers_map_'), n.f('friend_to_headers_map_')
        self.V, self.v = p.f('include_visibility_map_'), n.f('include_visibility_map_')
        self.seen = p.f('quoted_includes_to_quoted_includers_')
        self.d = p.f('regex_dialect')

    def len0(self, h):
        return If(self.M.has(h), self.M.get(h).len, 0)

    def len1(self, h):
        return If(self.m.has(h), self.m.get(h).len, 0)

    def hit(self, h, k):
        return And(self.seen.has(h), self.M.has(k), at_key(k), match(self.d, h, rx_of(k)), Not(NS(self.M.get(k)).has(h)))

    def fhit(self, h, k):
        return And(self.seen.has(h), self.Fr.has(k), at_key(k), match(self.d, h, rx_of(k)))

    def to(self, h, k, j):
        return subst(self.d, h, rx_of(k), q_of(self.M.get(k).at(j)))

    def quoted(self):
        """every target is a quoted include after substitution (the user's part of the bargain)"""
        h, k, j = K(), K(), z3.Int(fresh_name('j'))
        return FA([h, k, j], Implies(And(self.hit(h, k), within(j, self.M.get(k).len)), isq(self.to(h, k, j))), patterns=[self.to(h, k, j)])

    def vis_of(self, k):
        return If(self.V.has(k), self.V.get(k).t, I(UNUSED))

    # done(h, k, j): have the targets of pattern k up to j been added for header h
    def kept(self):
        h = K()
        i = z3.Int(fresh_name('i'))
        return And(FA([h, i], Implies(And(self.M.has(h), within(i, self.M.get(h).len)), And(self.m.get(h).len >= self.M.get(h).len, mi_eq(self.m.get(h).at(i), self.M.get(h).at(i)))), patterns=[self.m.get(h).at(i).ls[0]]),
                   FA([h], Implies(self.M.has(h), And(self.m.has(h), self.m.get(h).len >= self.M.get(h).len)), patterns=[self.M.has(h)]))

    def others(self):
        h = K()
        return FA([h], Implies(Not(self.seen.has(h)), And(self.m.has(h) == self.M.has(h), samelist(self.m.get(h), self.M.get(h)))), patterns=[self.m.get(h).len])

    def put(self, done, vdone=None):
        h, k, j = K(), K(), z3.Int(fresh_name('j'))
        w = WP(h, k, j)
        x = self.m.get(h).at(w)
        return FA([h, k, j], Implies(And(self.hit(h, k), within(j, self.M.get(k).len), done(h, k, j)), And(self.m.has(h), self.len0(h) <= w, w < self.m.get(h).len, q_of(x) == self.to(h, k, j), p_of(x) == S(''),
                                                                                                         )), patterns=[w])

    def inorder(self, done):
        h, k, j, i = K(), K(), z3.Int(fresh_name('j')), z3.Int(fresh_name('i'))
        return FA([h, k, i, j], Implies(And(self.hit(h, k), 0 <= i, i < j, j < self.M.get(k).len, done(h, k, j)), WP(h, k, i) < WP(h, k, j)), patterns=[z3.MultiPattern(WP(h, k, i), WP(h, k, j))])

    def only(self, done):
        h, p = K(), z3.Int(fresh_name('p'))
        k, j = SK(h, p), SJ(h, p)
        x = self.m.get(h).at(p)
        return FA([h, p], Implies(And(self.m.has(h), self.len0(h) <= p, p < self.m.get(h).len), And(self.hit(h, k), within(j, self.M.get(k).len), done(h, k, j), WP(h, k, j) == p,
                                                                                                    q_of(x) == self.to(h, k, j), p_of(x) == S(''))), patterns=[x.ls[0]])

    def newkeys(self):
        h = K()
        return FA([h], Implies(And(self.m.has(h), Not(self.M.has(h))), And(self.seen.has(h), self.m.get(h).len > 0)), patterns=[self.m.has(h)])

    def visible(self, done):
        h, k = K(), K()
        return FA([h, k], Implies(And(self.hit(h, k), done(h, k)), And(self.v.has(h), self.v.get(h).t == self.vis_of(k))), patterns=[z3.MultiPattern(self.v.has(h), rrank(self.M, k))])

    def vkept(self):
        h = K()
        return FA([h], Implies(self.V.has(h), And(self.v.has(h), self.v.get(h).t == self.V.get(h).t)), patterns=[self.v.has(h)])

    def vnew(self):
        """a visibility that was not recorded before belongs to a matched header (patterns without one read as unset)"""
        h = K()
        return FA([h], Implies(And(self.v.has(h), Not(self.V.has(h))), Or(And(at_key(h), self.v.get(h).t == UNUSED), And(self.seen.has(h), self.hit(h, SV(h)), self.v.get(h).t == self.vis_of(SV(h))))), patterns=[self.v.has(h)])

    def fput(self, done):
        h, k, f = K(), K(), K()
        return FA([h, k, f], Implies(And(self.fhit(h, k), z3.Select(self.Fr.get(k).t, f), done(h, k)), And(self.fr.has(h), z3.Select(self.fr.get(h).t, f))),
                  patterns=[z3.MultiPattern(z3.Select(self.fr.get(h).t, f), rrank(self.Fr, k))])

    def fonly(self, done):
        h, f = K(), K()
        k = SFK(h, f)
        return FA([h, f], Implies(And(self.fr.has(h), z3.Select(self.fr.get(h).t, f)), Or(And(self.Fr.has(h), z3.Select(self.Fr.get(h).t, f)), And(self.fhit(h, k), done(h, k), z3.Select(self.Fr.get(k).t, f)))),
                  patterns=[z3.Select(self.fr.get(h).t, f)])

    def fkept(self):
        h, f = K(), K()
        return FA([h, f], Implies(And(self.Fr.has(h), z3.Select(self.Fr.get(h).t, f)), And(self.fr.has(h), z3.Select(self.fr.get(h).t, f))), patterns=[z3.Select(self.fr.get(h).t, f)])

    def fothers(self):
        h = K()
        return FA([h], Implies(Not(self.seen.has(h)), And(self.fr.has(h) == self.Fr.has(h), self.fr.get(h).t == self.Fr.get(h).t)), patterns=[self.fr.get(h).t])


SV = F('visibility_from', ST, ST)
T_ = lambda *a: z3.BoolVal(True)


def where(L):
    """(level, rank of header, current header, current pattern, index) for the loop at hand"""
    r = RX(L)
    A, Bf = rkeys(r.M), rkeys(r.Fr)
    stack = L.outer + [(L.idx, L.it)]
    h = stack[0]
    if h[1] is None or h[1].src is None:
        return None
    rank = L.ex.enum_rank.get(h[1].src.ls[0].get_id())
    if rank is None:
        return None
    cur = h[1].src.at(h[0]).t
    lev = 'H'
    k = j = kidx = None
    if len(stack) > 1 and stack[1][1] is not None:
        kidx = stack[1][0]
        src = stack[1][1].src
        lev = 'A' if src is not None and same_leaves(src, A) else 'F'
        k = src.at(kidx).t
    if len(stack) > 2:
        lev, j = 'T', stack[2][0]
    return lev, rank, h[0], cur, k, kidx, j


def done_m(L):
    w = where(L)
    lev, rank, hi, cur, k, kidx, j = w
    M = RX(L).M

    def f(h, kk, jj):
        if lev == 'H':
            return rank(h) < hi
        if lev == 'F':
            return rank(h) <= hi
        if lev == 'A':
            return Or(rank(h) < hi, And(h == cur, rrank(M, kk) < kidx))
        return Or(rank(h) < hi, And(h == cur, Or(rrank(M, kk) < kidx, And(kk == k, jj < j))))
    return f


def done_v(L):
    lev, rank, hi, cur, k, kidx, j = where(L)
    M = RX(L).M

    def f(h, kk):
        if lev == 'H':
            return rank(h) < hi
        if lev == 'F':
            return rank(h) <= hi
        return Or(rank(h) < hi, And(h == cur, rrank(M, kk) < kidx))
    return f


def done_f(L):
    lev, rank, hi, cur, k, kidx, j = where(L)
    Fr = RX(L).Fr

    def f(h, kk):
        if lev == 'F':
            return Or(rank(h) < hi, And(h == cur, rrank(Fr, kk) < kidx))
        return rank(h) < hi
    return f


def er_defs(L, n):
    w = where(L)
    if w is None:
        return []
    lev, rank, hi, cur, k, kidx, j = w
    r = RX(L)
    if lev == 'T':
        l = r.len1(cur)
        return [WP(cur, k, n) == l, SK(cur, l) == k, SJ(cur, l) == n]
    if lev == 'A':
        return [Implies(And(r.hit(cur, k), Not(r.v.has(cur))), SV(cur) == k)]
    if lev == 'F':
        f = K()
        return [FA([f], Implies(And(r.fhit(cur, k), z3.Select(r.Fr.get(k).t, f), Not(And(r.fr.has(cur), z3.Select(r.fr.get(cur).t, f)))), SFK(cur, f) == k), patterns=[SFK(cur, f)])]
    return []


def er_pre(c):
    p = c.old('this')
    k = K()
    r = RX(c)
    i = z3.Int(fresh_name('i'))
    return [Not(finalized(p)), FA([k], Implies(r.seen.has(k), isq(k)), patterns=[r.seen.has(k)]), lens(r.M), r.quoted()] + wf_map(r.M)


def finalized(p):
    return p.f('has_called_finalize_added_include_lines_').t


er_inv = [lambda L: RX(L).kept(), lambda L: RX(L).others(), lambda L: RX(L).put(done_m(L)), lambda L: RX(L).only(done_m(L)), lambda L: RX(L).newkeys(), lambda L: RX(L).inorder(done_m(L)),
          lambda L: RX(L).visible(done_v(L)), lambda L: RX(L).vkept(), lambda L: RX(L).vnew(), lambda L: RX(L).fput(done_f(L)), lambda L: RX(L).fonly(done_f(L)), lambda L: RX(L).fkept(), lambda L: RX(L).fothers(),
          lambda L: lens(RX(L).m)]


def er_post(c):
    r = RX(c)
    return [('nothing-recorded-before-is-lost', r.kept()), ('other-headers-untouched', r.others()), ('every-matching-pattern-applied', r.put(T_)), ('only-matching-patterns-applied', r.only(T_)),
            ('targets-keep-their-order', r.inorder(T_)), ('visibility-of-the-pattern', r.visible(T_)), ('visibilities-kept', r.vkept()), ('no-other-visibility', r.vnew()),
            ('friends-of-matching-patterns', r.fput(T_)), ('no-other-friends', r.fonly(T_)), ('friends-kept', r.fkept()), ('other-friends-untouched', r.fothers())]


# ------------------------------------------------------------- Finalize
SREACH = F('suggests', ST, ST, ST, B)      # (symbol, header, path): recorded for the symbol, or a replacement of such a header


def strans():
    a, b, c, p1, p2 = [z3.Const(n, ST) for n in ('sa!', 'sb!', 'sc!', 'sp1!', 'sp2!')]
    return FA([a, b, p1, c, p2], Implies(And(SREACH(a, b, p1), REACH(b, c, p2)), SREACH(a, c, p2)), patterns=[z3.MultiPattern(SREACH(a, b, p1), REACH(b, c, p2))])


def ssound(m):
    k, p = K(), z3.Int(fresh_name('p'))
    x = m.get(k).at(p)
    return FA([k, p], Implies(And(m.has(k), within(p, m.get(k).len)), SREACH(k, q_of(x), p_of(x))), patterns=[x.ls[0]])


def listed(l):
    i = z3.Int(fresh_name('i'))
    return FA([i], Implies(within(i, l.len), NS(l).has(q_of(l.at(i)))), patterns=[q_of(l.at(i))])


def c_expand_sym(ex, s, a):
    m, ptr = ex.rv(s, a[0]), cells(ex, s, a)[1]
    o = s.load(ptr)
    res = c_expand(ex, s, a)
    r = s.load(ptr)
    q, k, j = K(), K(), z3.Int(fresh_name('j'))
    w = F(fresh_name('where'), ST, Z)
    x = m.get(k).at(j)
    s.add(listed(o), FA([q], Implies(NS(r).has(q), And(within(w(q), r.len), q_of(r.at(w(q))) == q)), patterns=[NS(r).has(q)]),
          FA([k, j], Implies(And(m.has(k), within(j, m.get(k).len)), NS(m.get(k)).has(q_of(x))), patterns=[x.ls[0]]))
    return res


def c_er(ex, s, a):
    this = a[0]
    o = s.load(this)

    class V:
        def __init__(self, st):
            self.st = st

        def old(self, _):
            return o

        def new(self, _):
            return self.st.load(this)
    for g in er_pre(V(s)):
        ex.oblige('call(ExpandRegexes)', s, g, 'implicit')
    for f in ('filepath_include_map_', 'friend_to_headers_map_', 'include_visibility_map_'):
        s.store(this.sub(('f', f), PICKER.fields[f]), PICKER.fields[f].fresh(f))
    for _, g in er_post(V(s)):
        s.add(g)
    m = s.load(this).f('filepath_include_map_')
    s.add(lens(m), sound(m))        # (REACH: any transitive relation that contains the recorded mappings after pattern expansion)
    s.ghost['expanded'] = m
    return [(s, Val(UNIT, ()))]


def c_mmt(ex, s, a):
    mp, = cells(ex, s, a)
    o = s.load(mp)
    for nm, g in (('only-reachable-replacements', sound(o)), ('lists', lens(o))):
        ex.oblige('call(MakeMapTransitive):' + nm, s, g, 'implicit')
    m = o.ty.fresh('closedmap')
    s.store(mp, m)
    s.add(*[g for _, g in mmt_effect(m, o)], closed(m))
    return [(s, Val(UNIT, ()))]


def fin_pre(c):
    p = c.old('this')
    sy = p.f('symbol_include_map_')
    return er_pre(c) + [trans(), strans(), ssound(sy), lens(sy)]


def sclosed(sy, m, only=None):
    k, x, q = K(), K(), K()
    g = And(sy.has(k), NS(sy.get(k)).has(x), m.has(x), NS(m.get(x)).has(q))
    return FA([k, x, q], Implies(And(g, only(k)) if only else g, NS(sy.get(k)).has(q)), patterns=[z3.MultiPattern(NS(sy.get(k)).has(x), NS(m.get(x)).has(q))])


def fin_post(c):
    p, n = c.old('this'), c.new('this')
    so, sy, m = p.f('symbol_include_map_'), n.f('symbol_include_map_'), n.f('filepath_include_map_')
    e = c.st.ghost['expanded']
    return [('finalised', finalized(n))] + mmt_effect(m, e)[:-1] + [('closed-under-replacement', closed(m)),
            ('symbols-unchanged', samedom(sy, so)), ('symbol-headers-kept', grows(sy, so)), ('symbol-headers-closed-under-replacement', sclosed(sy, m)), ('symbol-headers-only-reachable', ssound(sy)),
            ('symbol-headers-once', alldistinct(sy))]


def vrank(L):
    return L.ex.enum_rank.get(L.it.src.ls[0].get_id()) if L.it is not None and L.it.src is not None else None


def symap(L):
    return L.new('this').f('symbol_include_map_'), L.old('this').f('symbol_include_map_')


def fin_inv(f):
    def g(L):
        r = vrank(L)
        if r is None:
            return None
        sy, so = symap(L)
        return f(L, sy, so, r)
    return g


def fi_rest(L, sy, so, r):
    k = K()
    return FA([k], Implies(Not(And(so.has(k), r(k) < L.idx)), samelist(sy.get(k), so.get(k))), patterns=[sy.get(k).len])


fin_invs = [fin_inv(lambda L, sy, so, r: samedom(sy, so)), fin_inv(lambda L, sy, so, r: lens(sy)), fin_inv(fi_rest), fin_inv(lambda L, sy, so, r: ssound(sy)), fin_inv(lambda L, sy, so, r: grows(sy, so)),
            fin_inv(lambda L, sy, so, r: sclosed(sy, L.new('this').f('filepath_include_map_'), lambda k: r(k) < L.idx)),
            fin_inv(lambda L, sy, so, r: visited(L, lambda x: D(sy.get(x))))]


def build():
    R = dict(records=RECS, replay='picker', typedefs={'TransitiveStatus': 'int'})
    RX_ = dict(PATHS, ContainsQuotedInclude=c_contains, ExtractKeysMarkedAsRegexes=c_extract, RegexMatch=c_match, RegexReplace=c_subst, **{'IncludePicker::MarkVisibility': c_mark})
    units = [cxxunit(SRC, C('ExpandOnce', {'m': IMAP, 'nodes': LIST(MI)}, pre=eo_pre, post=eo_post, inv=eo_inv, defs=eo_defs), **R),
             cxxunit(SRC, C('MakeNodeTransitive', {'filename_map': IMAP, 'seen_nodes': MAP(STR, INT), 'node_stack': LIST(STR), 'key': STR}, pre=mnt_pre, post=mnt_post, inv=mnt_invs),
                     contracts={'ExpandOnce': c_expand, 'MakeNodeTransitive': c_mnt}, **R),
             cxxunit(SRC, C('MakeMapTransitive', {'filename_map': IMAP}, pre=mmt_pre, post=mmt_post, inv=mmt_invs), contracts={'ExpandOnce': c_expand, 'MakeNodeTransitive': c_mnt}, **R),
             cxxunit(SRC, C('ContainsQuotedInclude', {'mapped_includes': LIST(MI), 'quoted_include': STR}, post=cq_post, inv=[cq_inv]), **R),
             cxxunit(SRC, C('ExtractKeysMarkedAsRegexes@vector<', {'m': IMAP}, pre=lambda c: [EK(0) == 0], post=ek_post, inv=ek_inv, defs=ek_defs), **R),
             cxxunit(SRC, C('ExtractKeysMarkedAsRegexes@set<', {'m': MAP(STR, SET(STR))}, pre=lambda c: [EK(0) == 0], post=ek_post, inv=ek_inv, defs=ek_defs), **R),
             cxxunit(SRC, C('IncludePicker::ExpandRegexes', {'this': PICKER}, pre=er_pre, post=er_post, inv=er_inv, defs=er_defs), contracts=RX_, **R)]
    units.append(cxxunit(SRC, C('IncludePicker::FinalizeAddedIncludes', {'this': PICKER}, pre=fin_pre, post=fin_post, inv=fin_invs), **dict(R, contracts={
        'IncludePicker::ExpandRegexes': c_er, 'MakeMapTransitive': c_mmt, 'ExpandOnce': c_expand_sym, 'PrintMappings': lambda ex, s, a: [(s, Val(UNIT, ()))]})))
    return Spec('P18', units, replays={'picker': lambda seed, tier: pickermodel.replay(seed, tier)})
