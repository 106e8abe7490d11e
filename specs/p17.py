"""P17 what is recorded in the include picker, and what is never lost or overwritten."""
from .picker import *
from . import pickermodel
from .p18 import samelist, cells, finalized, K, F, Z, B, ST, q_of, p_of, UNUSED

C = Contract
ENTRY = REC('IncludeMapEntry', {'map_from': STR, 'from_visibility': INT, 'map_to': STR, 'to_visibility': INT})


def map_same_but(n, o, *keys):
    """the maps agree on every key but these"""
    k = K()
    return FA([k], Implies(And(*[k != x for x in keys]), And(n.has(k) == o.has(k), *[z3.Select(a, k) == z3.Select(b, k) for a, b in zip(n.ls[1:], o.ls[1:])])), patterns=[n.has(k)])


def same(n, o):
    return And(*[a == b for a, b in zip(n.ls, o.ls)])


def frame(c, *changed):
    o, n = c.old('this'), c.new('this')
    return ('nothing-else-changes', And(*[same(n.f(f), o.f(f)) for f in PICKER.fields if f not in changed]))


def appended(n, o, k, *items):
    """the list of key k is what it was followed by the items; other keys unchanged"""
    l0 = If(o.has(k), o.get(k).len, 0)
    l = n.get(k)
    j = z3.Int(fresh_name('j'))
    return And(n.has(k), l.len == l0 + len(items), FA([j], Implies(And(0 <= j, j < l0), mi_eq(l.at(j), o.get(k).at(j))), patterns=[l.at(j).ls[0]]),
               *[mi_eq(l.at(l0 + i), x) for i, x in enumerate(items)], map_same_but(n, o, k))


def lens_ok(p):
    out = []
    for f in ('symbol_include_map_', 'filepath_include_map_'):
        k = K()
        out.append(FA([k], p.f(f).get(k).len >= 0, patterns=[p.f(f).get(k).len]))
    return out


def base_pre(c):
    return lens_ok(c.old('this')) + [Not(finalized(c.old('this')))]


def agrees(m, k, v):
    return Implies(m.has(k), m.get(k).t == v)


def marked(n, o, k, v):
    return And(n.has(k), n.get(k).t == v, map_same_but(n, o, k))


def pattern(t):
    return Or(isq(t), z3.PrefixOf(S('@'), t))


def mv_pre(c):
    return [Not(finalized(c.old('this'))), agrees(c.old('map'), c.old('key').t, c.old('visibility').t)]


def mv_post(c):
    return [('recorded', marked(c.new('map'), c.old('map'), c.old('key').t, c.old('visibility').t)), frame(c)]


def c_mark(ex, s, a):
    """MarkVisibility: returns only if the recorded visibility agrees (it ends the program otherwise)"""
    ex.oblige('check-holds(not yet finalised)', s, Not(finalized(s.load(a[0]))), 'implicit')
    mp, = cells(ex, s, a[1:2])
    k, v = ex.rv(s, a[2]), ex.rv(s, a[3])
    m = s.load(mp)
    s.add(Implies(m.has(k.t), m.get(k.t).t == v.t))
    s.store(mp, Val(m.ty, (z3.Store(m.ls[0], k.t, z3.BoolVal(True)), z3.Store(m.ls[1], k.t, v.t))))
    return [(s, Val(UNIT, ()))]


MARK = {'IncludePicker::MarkVisibility': c_mark}
FMAP, SMAP, IVIS, PVIS, FRM = 'filepath_include_map_', 'symbol_include_map_', 'include_visibility_map_', 'path_visibility_map_', 'friend_to_headers_map_'


def on(c, f):
    return c.new('this').f(f), c.old('this').f(f)


def am_post(c):
    return [('mapping-added-last', appended(*on(c, FMAP), c.old('from').t, c.old('to'))), frame(c, FMAP)]


def aim_post(c):
    n, o = on(c, IVIS)
    a, b = c.old('from').t, q_of(c.old('to'))
    return [('mapping-added-last', appended(*on(c, FMAP), a, c.old('to'))), ('both-visibilities-recorded', And(n.has(a), n.get(a).t == c.old('fv').t, n.has(b), n.get(b).t == c.old('tv').t)),
            ('other-visibilities-kept', map_same_but(n, o, a, b)), frame(c, FMAP, IVIS)]


def asm_post(c):
    n, o = on(c, IVIS)
    return [('mapping-added-last', appended(*on(c, SMAP), c.old('from').t, c.old('to'))), ('visibility-recorded', marked(n, o, q_of(c.old('to')), c.old('tv').t)), frame(c, SMAP, IVIS)]


def priv_post(f, key):
    def post(c):
        n, o = on(c, f)
        return [('private', marked(n, o, c.old(key).t, I(PRIVATE))), frame(c, f)]
    return post


def fr_post(c):
    n, o = on(c, FRM)
    k = z3.Concat(S('@'), c.old('regex').t)
    f = K()
    return [('friend-added', And(n.has(k), FA([f], z3.Select(n.get(k).t, f) == Or(f == c.old('file').t, And(o.has(k), z3.Select(o.get(k).t, f))), patterns=[z3.Select(n.get(k).t, f)]))),
            ('other-friends-kept', map_same_but(n, o, k)), frame(c, FRM)]


# ------------------------------------------------------------ tables
LOGE = REC('LogEntry', {'kind': INT, 'from': STR, 'fv': INT, 'to': STR, 'tv': INT})


def log(s, kind, fr, fv, to, tv):
    s.ghost['log'] = list_append(s.ghost['log'], Val(LOGE, (I(kind), fr, fv, to, tv)))


def c_aim(ex, s, a):
    t = ex.rv(s, a[3])
    log(s, 1, ex.rv(s, a[1]).t, ex.rv(s, a[2]).t, q_of(t), ex.rv(s, a[4]).t)
    s.add(p_of(t) == S('')) if False else None
    ex.oblige('no-path', s, p_of(t) == S(''), 'implicit')
    return [(s, Val(UNIT, ()))]


def c_asm(ex, s, a):
    t = ex.rv(s, a[2])
    log(s, 2, ex.rv(s, a[1]).t, I(0), q_of(t), ex.rv(s, a[3]).t)
    ex.oblige('no-path', s, p_of(t) == S(''), 'implicit')
    return [(s, Val(UNIT, ()))]


def c_mark_log(ex, s, a):
    log(s, 3, ex.rv(s, a[2]).t, ex.rv(s, a[3]).t, S(''), I(0))
    ex.oblige('include-visibility', s, z3.BoolVal(isinstance(a[1], (NPtr, Ptr)) and (a[1].ptr if isinstance(a[1], NPtr) else a[1]).path[-1:] == (('f', IVIS),)), 'implicit')
    return [(s, Val(UNIT, ()))]


def table_log(entry):
    def ok(c, n):
        l = c.st.ghost['log'] if hasattr(c, 'st') else None
        return And(l.len == n, forall(1, lambda i: Implies(within(i, n), And(*[x == y for x, y in zip(l.at(i).ls, entry(c, i))]))))
    return ok


def tab_pre(c):
    e = c.old('entries')
    return [c.old('count').t == e.len, forall(1, lambda i: Implies(within(i, e.len), isq(e.at(i).f('map_to').t)), lambda i: [e.at(i).f('map_to').t])]


def inc_entry(c, i):
    e = c.old('entries').at(i)
    return [I(1)] + [e.f(f).t for f in ('map_from', 'from_visibility', 'map_to', 'to_visibility')]


def sym_entry(c, i):
    e = c.old('entries').at(i)
    return [I(2), e.f('map_from').t, I(0), e.f('map_to').t, e.f('to_visibility').t]


def pub_entry(c, i):
    return [I(3), c.old('entries').at(i).t, I(PUBLIC), S(''), I(0)]


def tab(name, entry, params, calls, pre=tab_pre):
    ok = table_log(entry)
    return cxxunit(SRC, C('IncludePicker::' + name, dict({'this': PICKER}, **params), pre=pre, post=lambda c: [('every-entry-once-in-order', ok(c, c.old('count').t))],
                          inv=[lambda L: ok(L, L.idx), lambda L: L.idx <= L.old('count').t], ghost=lambda ex, st: {'log': empty_list(LOGE)}), records=RECX, contracts=dict(PATHS, **calls), replay='picker')


RECX = dict(RECS, IncludeMapEntry=ENTRY)


# ---------------------------------------------------- direct includes
def ad_post(c):
    a, b, w = c.old('includer'), c.old('includee'), c.old('written')
    qa, qb = conv(a, '').t, conv(b, '').t
    pos = z3.IndexOf(qb, S('internal/'), 0)
    internal = And(pos >= 0, Or(pos == 0, z3.SubString(qb, pos - 1, 1) == S('/')))
    asm = z3.PrefixOf(S('<asm-'), qb)
    built = a.t == S('<built-in>')
    slash = z3.IndexOf(qb, S('/'), 0)
    rest = If(slash >= 0, z3.SubString(qb, slash + 1, z3.Length(qb) - slash - 1), qb)
    pub = z3.Concat(S('<asm/'), rest)
    (sn, so), (wn, wo), (vn, vo), (mn, mo), (fn, fo) = [on(c, f) for f in ('quoted_includes_to_quoted_includers_', 'includer_and_includee_to_include_as_written_', IVIS, FMAP, FRM)]
    x, q, u, v = K(), K(), K(), K()
    BI = S('"<built-in>"')
    kf = z3.Concat(S('@'), z3.SubString(qb, 0, pos), S('.*'))
    priv = lambda q: Or(And(q == qb, Or(internal, asm)), And(q == BI, built))
    me, pubm = mi(qa, a), Val(MI, (pub, S('')))
    l0 = If(mo.has(qb), mo.get(qb).len, 0)
    return [('seen-with-its-includer', And(sn.has(qb), FA([x], z3.Select(sn.get(qb).t, x) == Or(x == qa, And(so.has(qb), z3.Select(so.get(qb).t, x))), patterns=[z3.Select(sn.get(qb).t, x)]), map_same_but(sn, so, qb))),
            ('spelling-recorded', And(wn.has(a.t, b.t), wn.get(a.t, b.t).t == w.t,
                                      FA([u, v], Implies(Or(u != a.t, v != b.t), And(wn.has(u, v) == wo.has(u, v), wn.get(u, v).t == wo.get(u, v).t)), patterns=[wn.has(u, v)]))),
            ('internal-and-asm-headers-private', FA([q], Implies(priv(q), And(vn.has(q), vn.get(q).t == PRIVATE)), patterns=[vn.has(q)])),
            ('other-visibilities-kept', FA([q], Implies(Not(priv(q)), And(vn.has(q) == vo.has(q), vn.get(q).t == vo.get(q).t)), patterns=[vn.has(q)])),
            ('internal-header-maps-to-its-includer', Implies(And(internal, Not(asm)), appended(mn, mo, qb, me))),
            ('asm-header-maps-to-asm', Implies(And(asm, Not(internal)), appended(mn, mo, qb, pubm))),
            ('both', Implies(And(asm, internal), appended(mn, mo, qb, me, pubm))),
            ('no-other-mapping', Implies(Not(Or(asm, internal)), same(mn, mo))),
            ('siblings-of-internal-are-friends', Implies(internal, And(fn.has(kf), FA([x], z3.Select(fn.get(kf).t, x) == Or(x == b.t, And(fo.has(kf), z3.Select(fo.get(kf).t, x))), patterns=[z3.Select(fn.get(kf).t, x)]), map_same_but(fn, fo, kf)))),
            ('no-other-friends', Implies(Not(internal), same(fn, fo))),
            frame(c, 'quoted_includes_to_quoted_includers_', 'includer_and_includee_to_include_as_written_', IVIS, FMAP, FRM)]


# --------------------------------------------------------- mapping files
def pvis_post(c):
    t, r = c.old('visibility').t, c.retval(INT).t
    return [('named-visibility', r == If(t == S('private'), I(PRIVATE), If(t == S('public'), I(PUBLIC), I(UNUSED))))]


def ext_post(c):
    l, x, r = c.old('search_path'), c.old('new_path').t, c.retval(LIST(STR))
    has = exists(1, lambda i: And(within(i, l.len), l.at(i).t == x))
    return [('path-kept', And(r.len >= l.len, forall(1, lambda i: Implies(within(i, l.len), r.at(i).t == l.at(i).t)))),
            ('added-last-unless-there', And(Implies(has, r.len == l.len), Implies(Not(has), And(r.len == l.len + 1, r.at(l.len).t == x))))]


def isabs(t):
    return uf('isabs', BOOL, Val(STR, (t,))).t


def exists_(t):
    return uf('file_exists', BOOL, Val(STR, (t,))).t


def joined(d, f):
    return uf('abs2', STR, Val(STR, (d,)), Val(STR, (f,))).t


def ff_post(c):
    l, f, r = c.old('search_path'), c.old('filename').t, c.retval(STR).t
    there = lambda i: exists_(joined(l.at(i).t, f))
    i, j = z3.Ints('ff_i ff_j')
    return [('existing-name-wins', Implies(exists_(f), r == uf('abs1', STR, c.old('filename')).t)),
            ('absolute-names-are-not-searched', Implies(And(Not(exists_(f)), isabs(f)), r == f)),
            ('first-directory-that-has-it', Implies(And(Not(exists_(f)), Not(isabs(f))), Or(And(r == f, ForAll([i], Implies(within(i, l.len), Not(there(i))))),
             Exists([i], And(within(i, l.len), there(i), r == joined(l.at(i).t, f), ForAll([j], Implies(And(0 <= j, j < i), Not(there(j))))))))) ]


def ff_inv(L):
    l, f = L.old('search_path'), L.old('filename').t
    return forall(1, lambda i: Implies(within(i, L.idx), Not(exists_(joined(l.at(i).t, f)))))


FS = {'ctor:Twine': lambda ex, s, a, *r: [(s, ex.rv(s, a[0]))], 'fn:exists': lambda ex, s, a, *r: [(s, vbool(exists_(ex.rv(s, a[0]).t)))]}


NODE, SEQN, MAPN, KVN, FBUF, ERR = [REC(n, {'id': INT}) for n in ('Node', 'SequenceNode', 'MappingNode', 'KeyValueNode', 'FileBuffer', 'ErrorCode')]
STREAM, DOCIT = REC('YamlStream', {'id': INT}), REC('document_iterator', {'id': INT})
MF, MS = z3.StringSort(), z3.IntSort()
OPEN, DOC, ROOT = F('can_open', ST, B), F('has_document', ST, B), F('yaml_root', ST, Z)
FID, FNAME = F('file_id', ST, Z), F('file_name', Z, ST)
ISSEQ, ISMAP, NITEMS, NPAIRS = F('is_sequence', Z, B), F('is_mapping', Z, B), F('items', Z, Z), F('pairs', Z, Z)
ITEM, PAIR, KEYN, VALN = F('item', Z, Z, Z), F('pair', Z, Z, Z), F('key_node', Z, Z), F('value_node', Z, Z)
TT, TI, TJ = F('directives_before', Z, Z, Z), F('directive_item', Z, Z), F('directive_pair', Z, Z)


def scalar(i):
    return uf('scalar', STR, Val(INT, (i,)))


def seqval(i):
    return uf('sequence', LIST(STR), Val(INT, (i,)))


def visof(t):
    return If(t == S('private'), I(PRIVATE), If(t == S('public'), I(PUBLIC), I(UNUSED)))


class Doc:
    """the directives of a mapping file: (i, j) is pair j of item i; an item that is no mapping is one bad directive"""

    def __init__(self, c):
        self.name = uf('found', STR, c.old('search_path'), c.old('filename')).t
        self.root = ROOT(self.name)
        self.n = NITEMS(self.root)
        self.readable = And(OPEN(self.name), DOC(self.name), ISSEQ(self.root))

    def item(self, i):
        return ITEM(self.root, i)

    def width(self, i):
        return If(ISMAP(self.item(i)), NPAIRS(self.item(i)), I(1))

    def valid(self, i, j):
        return And(within(i, self.n), within(j, self.width(i)))

    def parts(self, i, j):
        p = PAIR(self.item(i), j)
        return scalar(KEYN(p)).t, seqval(VALN(p)), scalar(VALN(p)).t

    def good(self, i, j):
        d, v, f = self.parts(i, j)
        sym = And(v.len == 4, visof(v.at(I(3)).t) != UNUSED, isq(v.at(I(2)).t))
        inc = And(sym, visof(v.at(I(1)).t) != UNUSED, pattern(v.at(I(0)).t))
        return And(ISMAP(self.item(i)), Or(And(d == S('symbol'), sym), And(d == S('include'), inc), And(d == S('ref'), f != S(''))))

    def entry(self, i, j):
        d, v, f = self.parts(i, j)
        sym = [I(2), v.at(I(0)).t, I(0), v.at(I(2)).t, visof(v.at(I(3)).t)]
        inc = [I(1), v.at(I(0)).t, visof(v.at(I(1)).t), v.at(I(2)).t, visof(v.at(I(3)).t)]
        ref = [I(4), f, I(0), S(''), I(0)]
        return [If(d == S('symbol'), a, If(d == S('include'), b, c)) for a, b, c in zip(sym, inc, ref)]


def handler_read(f):
    return lambda ex, s, a: [(s, f(ex, s, a))]


def nodeptr(s, some, ty, i):
    return NPtr(some, s.new_cell(Val(ty, (i,)), ty.name))


def rid(ex, s, v):
    if isinstance(v, NPtr):
        v = v.ptr
    return ex.rv(s, v).ls[0]


def m_dyncast(ex, s, a):
    t = ex.types
    from vcg.cxxfe import qtype
    q = qtype(ex.callnode)
    i = rid(ex, s, a[0])
    ty, p = (SEQN, ISSEQ) if 'SequenceNode' in q else (SCN, ISSC) if 'ScalarNode' in q else (MAPN, ISMAP)
    return [(s, nodeptr(s, p(i), ty, i))]


def m_range(count, elem, ty):
    def h(ex, s, v):
        i = v.ls[0]
        n = count(i)
        s.add(n >= 0)
        return Iter(n, lambda s2, k: s2.new_cell(Val(ty, (elem(i, k),)), 'node'))
    return h


YAML = {'fn:dyn_cast': m_dyncast, 'range:SequenceNode': m_range(NITEMS, ITEM, NODE), 'range:MappingNode': m_range(NPAIRS, PAIR, KVN),
        'fn:getFile': lambda ex, s, a: [(s, Val(FBUF, (FID(ex.rv(s, a[0]).t),)))],
        'method:ErrorOr::getError': lambda ex, s, o, a: [(s, Val(ERR, (ex.rv(s, o).ls[0],)))], 'method:error_code::operator bool': lambda ex, s, o, a: [(s, vbool(Not(OPEN(FNAME(ex.rv(s, o).ls[0])))))],
        'method:error_code::message': lambda ex, s, o, a: [(s, STR.fresh('message'))],
        'method:ErrorOr::get': lambda ex, s, o, a: [(s, NPtr(z3.BoolVal(True), ex.ptr(s, o)))], 'method:unique_ptr::operator->': lambda ex, s, o, a: [(s, o)],
        'method:MemoryBuffer::getMemBufferRef': lambda ex, s, o, a: [(s, ex.rv(s, o))], 'method:FileBuffer::getMemBufferRef': lambda ex, s, o, a: [(s, ex.rv(s, o))],
        'ctor:SourceMgr': lambda ex, s, a: [(s, Val(REC('SourceMgr', {'id': INT}), (I(0),)))],
        'ctor:Stream': lambda ex, s, a: [(s, Val(STREAM, (ex.rv(s, a[0]).ls[0],)))],
        'method:Stream::begin': lambda ex, s, o, a: [(s, Val(DOCIT, (ex.rv(s, o).ls[0],)))], 'method:Stream::end': lambda ex, s, o, a: [(s, Val(DOCIT, (I(-1),)))],
        'op:==:document_iterator': lambda ex, s, a: [(s, vbool(Not(DOC(FNAME(ex.rv(s, a[0]).ls[0])))))],
        'method:Document::getRoot': lambda ex, s, o, a: [(s, nodeptr(s, z3.BoolVal(True), NODE, ROOT(FNAME(rid(ex, s, o)))))],
        'method:Stream::printError': lambda ex, s, o, a: [(s, Val(UNIT, ()))],
        'method:KeyValueNode::getKey': lambda ex, s, o, a: [(s, nodeptr(s, z3.BoolVal(True), NODE, KEYN(rid(ex, s, o))))],
        'method:KeyValueNode::getValue': lambda ex, s, o, a: [(s, nodeptr(s, z3.BoolVal(True), NODE, VALN(rid(ex, s, o))))]}


MFREC = {'Node': NODE, 'SequenceNode': SEQN, 'MappingNode': MAPN, 'KeyValueNode': KVN, 'ErrorOr<unique_ptr<MemoryBuffer>>': FBUF, 'error_code': ERR, 'Stream': STREAM, 'document_iterator': DOCIT}
ISSC = F('is_scalar', Z, B)
SCN = REC('ScalarNode', {'id': INT})
MFREC['ScalarNode'] = SCN


def sc_post(c):
    i = c.old('node').ls[0]
    return [('text-of-a-scalar', c.retval(STR).t == If(ISSC(i), uf('yaml_text', STR, Val(INT, (i,))).t, S('')))]


def sq_inv(L):
    r, i = local(L, LIST(STR), 'result'), L.old('node').ls[0]
    return And(r.len == L.idx, forall(1, lambda j: Implies(within(j, r.len), r.at(j).t == scalar(ITEM(i, j)).t), lambda j: [r.at(j).t]))


def sq_post(c):
    r, i = c.retval(LIST(STR)), c.old('node').ls[0]
    return [('every-item-in-order', And(r.len == If(ISSEQ(i), NITEMS(i), 0), forall(1, lambda j: Implies(within(j, r.len), r.at(j).t == scalar(ITEM(i, j)).t), lambda j: [r.at(j).t])))]


YAML2 = dict(YAML, **{'method:ScalarNode::getValue': lambda ex, s, o, a: [(s, uf('yaml_text', STR, Val(INT, (rid(ex, s, o),))))],
                      'ctor:SmallString': lambda ex, s, a: [(s, vstr(''))]})


def c_seqval(ex, s, a):
    r = seqval(rid(ex, s, a[0]))
    s.add(r.len >= 0)
    return [(s, r)]


def c_found(ex, s, a):
    r = uf('found', STR, ex.rv(s, a[0]), ex.rv(s, a[1]))
    # names of files, by identity
    s.add(FNAME(FID(r.t)) == r.t)
    return [(s, r)]


def c_ext(ex, s, a):
    r = uf('extended', LIST(STR), ex.rv(s, a[0]), ex.rv(s, a[1]))
    s.add(r.len >= 0)
    return [(s, r)]


def c_rec(ex, s, a):
    f, p = ex.rv(s, a[1]), ex.rv(s, a[2])
    c = ex.entry_ctx
    me = uf('found', STR, c.old('search_path'), c.old('filename'))
    want = uf('extended', LIST(STR), c.old('search_path'), uf('parent', STR, me))
    ex.oblige('referenced-file-searched-from-its-referrer', s, And(*[x == y for x, y in zip(p.ls, want.ls)]), 'implicit')
    log(s, 4, f.t, I(0), S(''), I(0))
    return [(s, Val(UNIT, ()))]


def lg(c):
    return c.st.ghost['log']


def entries_ok(c):
    d, l = Doc(c), lg(c)
    return forall(1, lambda p: Implies(within(p, l.len), And(d.valid(TI(p), TJ(p)), TT(TI(p), TJ(p)) == p, d.good(TI(p), TJ(p)), *[x == y for x, y in zip(l.at(p).ls, d.entry(TI(p), TJ(p)))])), lambda p: [l.at(p).ls[0]])


def mf_post(c):
    d, l = Doc(c), lg(c)
    n = l.len
    return [('unreadable-files-record-nothing', Implies(Not(d.readable), n == 0)), ('directives-in-order', entries_ok(c)),
            ('stops-only-at-a-malformed-directive', Implies(d.readable, Or(n == TT(d.n, 0), And(d.valid(TI(n), TJ(n)), TT(TI(n), TJ(n)) == n, Not(d.good(TI(n), TJ(n))))))),
            ('nothing-recorded-directly', And(*[same(c.new('this').f(f), c.old('this').f(f)) for f in PICKER.fields]))]


def mf_pos(L):
    return (L.outer[-1][0], L.idx) if L.outer else (L.idx, I(0))


def mf_defs(L, k):
    d = Doc(L)
    if L.outer:
        i = L.outer[-1][0]
        return [TT(i, k + 1) == TT(i, k) + 1, TT(i, k) >= 0, Implies(d.valid(i, k), And(TI(TT(i, k)) == i, TJ(TT(i, k)) == k))]
    return [TT(0, 0) == 0, TT(k, 0) >= 0, TT(k + 1, 0) == TT(k, d.width(k)), Implies(d.valid(k, I(0)), And(TI(TT(k, 0)) == k, TJ(TT(k, 0)) == 0))]


mf_inv = [lambda L: lg(L).len == TT(*mf_pos(L)), lambda L: entries_ok(L), lambda L: same(L.new('this'), L.old('this'))]


def build():
    P = PICKER
    R = dict(records=RECX, replay='picker')

    def u(name, params, post, pre=base_pre, contracts=None, **kw):
        return cxxunit(SRC, C(name, params, pre=pre, post=post, **kw), contracts=dict(PATHS, **(contracts or {})), models=FS, **R)
    IPN = 'IncludePicker::'
    units = [
        u(IPN + 'MarkVisibility', {'this': P, 'map': VMAP, 'key': STR, 'visibility': INT}, mv_post, mv_pre),
        u(IPN + 'AddMapping', {'this': P, 'from': STR, 'to': MI}, am_post, lambda c: base_pre(c) + [pattern(c.old('from').t)]),
        u(IPN + 'AddIncludeMapping', {'this': P, 'from': STR, 'fv': INT, 'to': MI, 'tv': INT}, aim_post, lambda c: base_pre(c) + [pattern(c.old('from').t)], MARK),
        u(IPN + 'AddSymbolMapping', {'this': P, 'from': STR, 'to': MI, 'tv': INT}, asm_post, base_pre, MARK),
        u(IPN + 'MarkIncludeAsPrivate', {'this': P, 'q': STR}, priv_post(IVIS, 'q'), lambda c: base_pre(c) + [pattern(c.old('q').t)], MARK),
        u(IPN + 'MarkPathAsPrivate', {'this': P, 'path': STR}, priv_post(PVIS, 'path'), base_pre, MARK),
        u(IPN + 'AddFriendRegex', {'this': P, 'file': STR, 'regex': STR}, fr_post),
        tab('AddIncludeMappings', inc_entry, {'entries': LIST(ENTRY), 'count': INT}, {IPN + 'AddIncludeMapping': c_aim}),
        tab('AddSymbolMappings', sym_entry, {'entries': LIST(ENTRY), 'count': INT}, {IPN + 'AddSymbolMapping': c_asm}),
        tab('AddPublicIncludes', pub_entry, {'entries': LIST(STR), 'count': INT}, {IPN + 'MarkVisibility': c_mark_log}, pre=lambda c: [c.old('count').t == c.old('entries').len]),
        u(IPN + 'AddDirectInclude', {'this': P, 'includer': STR, 'includee': STR, 'written': STR}, ad_post, base_pre, MARK),
        u(IPN + 'ParseVisibility', {'this': P, 'visibility': STR}, pvis_post, lambda c: []),
        u('ExtendMappingFileSearchPath', {'search_path': LIST(STR), 'new_path': STR}, ext_post, lambda c: [isabs(c.old('new_path').t)]),
        u('FindFileInSearchPath', {'search_path': LIST(STR), 'filename': STR}, ff_post, lambda c: [], inv=[ff_inv]),
    ]
    def ectx(ex, st):
        from vcg.pyfe import Ctx
        ex.entry_ctx = Ctx(ex, st.copy(), ex.args, st)
        return {'log': empty_list(LOGE)}
    units.append(cxxunit(SRC, C(IPN + 'AddMappingsFromFile/2', {'this': P, 'filename': STR, 'search_path': LIST(STR)}, pre=lambda c: [TT(0, 0) == 0], post=mf_post, inv=mf_inv, defs=mf_defs, ghost=ectx),
                         records=dict(RECX, **MFREC), models=dict(FS, **YAML), replay='picker',
                         contracts=dict(PATHS, **{IPN + 'AddMappingsFromFile/2': c_rec, IPN + 'AddSymbolMapping': c_asm, IPN + 'AddIncludeMapping': c_aim, 'FindFileInSearchPath': c_found, 'ExtendMappingFileSearchPath': c_ext,
                                                  'GetScalarValue': lambda ex, s, a: [(s, scalar(rid(ex, s, a[0])))], 'GetSequenceValue': c_seqval})))
    RD = dict(records=dict(RECX, **MFREC), models=YAML2, replay='picker')
    units.append(cxxunit(SRC, C('GetScalarValue', {'node': NODE}, pre=lambda c: [], post=sc_post), **RD))
    units.append(cxxunit(SRC, C('GetSequenceValue', {'node': NODE}, pre=lambda c: [], post=sq_post, inv=[sq_inv]), contracts={'GetScalarValue': lambda ex, s, a: [(s, scalar(rid(ex, s, a[0])))]}, **RD))
    return Spec('P17', units, replays={'picker': lambda seed, tier: pickermodel.replay(seed, tier)})
