"""P16 suggested headers are public whenever possible."""
from .picker import *
from . import pickermodel

C = Contract


def vis_post(c):
    p, x, d = c.old('this'), c.old('include'), c.old('default').t
    return [('include-name-first-then-path-then-default', c.retval(INT).t == vis(p, x.f('quoted_include').t, x.f('path').t, d))]


CNT = z3.Function('public_among_first', z3.IntSort(), z3.IntSort())


def ispub(c, x):
    return vis(c.old('this'), x.f('quoted_include').t, x.f('path').t, I(PUBLIC)) == PUBLIC


def pv_defs(L, k):
    v = L.old('m').get(L.old('key').t)
    return [CNT(0) == 0, CNT(k) >= 0, CNT(k) <= k, CNT(k + 1) == CNT(k) + If(ispub(L, v.at(k)), I(1), I(0))]


def pv_post(c):
    m, key = c.old('m'), c.old('key').t
    r, v = c.retval(LIST(MI)), m.get(key)
    n = If(m.has(key), v.len, 0)
    return [('only-public-headers', forall(1, lambda i: Implies(within(i, r.len), ispub(c, r.at(i))))),
            ('every-public-header-in-order', forall(1, lambda i: Implies(And(within(i, n), ispub(c, v.at(i))), And(CNT(i) < r.len, mi_eq(r.at(CNT(i)), v.at(i)))))),
            ('nothing-else', r.len == CNT(n))]


def pv_pre(c):
    return wf_map(c.old('m')) + [Not(z3.PrefixOf(S('@'), c.old('key').t)), CNT(0) == 0]


def rl(L):
    return local(L, LIST(MI), 'retval')


pv_inv = [lambda L: rl(L).len == CNT(L.idx),
          lambda L: forall(1, lambda i: Implies(within(i, rl(L).len), ispub(L, rl(L).at(i)))),
          lambda L: forall(1, lambda i: Implies(And(within(i, L.idx), ispub(L, L.old('m').get(L.old('key').t).at(i))),
                                                And(CNT(i) < rl(L).len, CNT(i) >= 0, mi_eq(rl(L).at(CNT(i)), L.old('m').get(L.old('key').t).at(i)))))]



def public(p, x):
    return vis(p, x.f('quoted_include').t, x.f('path').t, I(PUBLIC)) == PUBLIC


def all_public(p, r):
    return forall(1, lambda i: Implies(within(i, r.len), public(p, r.at(i))))


def same_list(r, v, off=0):
    return And(r.len == v.len + off, forall(1, lambda i: Implies(within(i, v.len), mi_eq(r.at(i + off), v.at(i)))))


def finalized(p):
    return p.f('has_called_finalize_added_include_lines_').t


def pre(c):
    p = c.old('this')
    return wf(p) + [finalized(p)] + ([Not(z3.PrefixOf(S('@'), c.old('symbol').t))] if 'symbol' in c.ex.args else [])


def sym_post(c):
    r = c.retval(LIST(MI))
    return [('the-public-headers-recorded-for-the-symbol', same_list(r, pv(c.old('this').f('symbol_include_map_'), c.old('symbol')))), ('only-public-headers', all_public(c.old('this'), r))]


def self_header(c, f, i):
    q = Val(STR, (If(i.t == S(''), conv(f, '').t, conv(f, incdir(i)).t),))
    return mi(q, f)


def file_cands(p, f, i):
    """(list of mapped public headers, the header itself, is the header itself an option)"""
    m = pv(p.f('filepath_include_map_'), conv(f, ''))
    d = self_header(None, f, i)
    return m, d, Or(m.len == 0, public(p, d))


def file_post(c):
    p, f, i, r = c.old('this'), c.old('filepath'), c.old('including'), c.retval(LIST(MI))
    m, d, own = file_cands(p, f, i)
    return [('never-empty', r.len > 0),
            ('private-header-only-without-public-alternative', Or(all_public(p, r), And(r.len == 1, m.len == 0, mi_eq(r.at(I(0)), d)))),
            ('the-header-itself-first-if-it-may-be-used', Implies(own, mi_eq(r.at(I(0)), d))),
            ('then-every-public-replacement-in-order', And(Implies(own, same_list(r, m, 1)), Implies(Not(own), same_list(r, m))))]


def c_file(ex, s, a):
    p, f = ex.rv(s, a[0]), ex.rv(s, a[1])
    i = ex.rv(s, a[2]) if len(a) > 2 else vstr('')
    ex.oblige('check-holds(finalized)', s, finalized(p), 'implicit')
    r = uf('file_cands', LIST(MI), p, f, i)
    q = z3.Int(fresh_name('i'))
    s.add(r.len > 0, FA([q], Implies(within(q, r.len), isq(r.at(q).f('quoted_include').t)), patterns=[r.at(q).f('quoted_include').t]))
    return [(s, r)]


def c_sym(ex, s, a):
    p, f = ex.rv(s, a[0]), ex.rv(s, a[1])
    ex.oblige('check-holds(finalized)', s, finalized(p), 'implicit')
    r = pv(p.f('symbol_include_map_'), f)
    s.add(r.len >= 0)
    return [(s, r)]


def spelled(p, x, i):
    """how includer i spells the mapped include x (the spelling rules are P19)"""
    return uf('spelled', STR, p.f('includer_and_includee_to_include_as_written_'), x, i).t


def same_spelled(r, p, l, i):
    return And(r.len == l.len, forall(1, lambda j: Implies(within(j, l.len), r.at(j).t == spelled(p, l.at(j), i))))


def c_best(ex, s, a):
    p, l, i = [ex.rv(s, x) for x in a]
    r = LIST(STR).fresh('best')
    j = z3.Int(fresh_name('j'))
    s.add(r.len == l.len, r.len >= 0, FA([j], Implies(within(j, l.len), r.at(j).t == spelled(p, l.at(j), i)), patterns=[r.at(j).t]))
    return [(s, r)]


def same_strs(r, v):
    return And(r.len == v.len, forall(1, lambda i: Implies(within(i, v.len), r.at(i).t == v.at(i).t)))


def symfrom_post(c):
    p = c.old('this')
    return [('spelled-for-the-includer', same_spelled(c.retval(LIST(STR)), p, pv(p.f('symbol_include_map_'), c.old('symbol')), c.old('including')))]


def from_post(c):
    p, f, i, r = c.old('this'), c.old('included'), c.old('including'), c.retval(LIST(STR))
    dir = incdir(i)
    fm = p.f('friend_to_headers_map_')
    k = conv(i, dir).t
    friend = And(fm.has(k), z3.Select(fm.get(k).t, f.t))
    one = lst(mi(conv(f, dir), f))
    return [('a-friend-may-use-the-header-itself', Implies(friend, same_spelled(r, p, one, i))),
            ('everyone-else-gets-the-candidates', Implies(Not(friend), same_spelled(r, p, uf('file_cands', LIST(MI), p, f, i), i)))]


def c_symfrom(ex, s, a):
    p = ex.rv(s, a[0])
    r = uf('sym_cands', LIST(STR), *[ex.rv(s, x) for x in a])
    s.add(r.len >= 0)
    return [(s, r)]


def c_from(ex, s, a):
    r = uf('from_cands', LIST(STR), *[ex.rv(s, x) for x in a])
    s.add(r.len >= 0)
    return [(s, r)]


def pub_post(c):
    p, sy, u, d, r = c.old('this'), c.old('symbol'), c.old('use'), c.old('decl'), c.retval(LIST(STR))
    sm = uf('sym_cands', LIST(STR), p, sy, u)
    return [('symbol-mapping-wins', Implies(sm.len > 0, same_strs(r, sm))), ('otherwise-the-declaring-file', Implies(sm.len == 0, same_strs(r, uf('from_cands', LIST(STR), p, d, u))))]


def has_post(c):
    p, a, b = c.old('this'), conv(c.old('from'), '').t, conv(c.old('to'), '').t
    v = p.f('filepath_include_map_').get(a)
    w = p.f('filepath_include_map_')
    return [('exactly-when-mapped-or-the-same-header', c.retval(BOOL).t == Or(a == b, And(w.has(a), exists(1, lambda i: And(within(i, v.len), v.at(i).f('quoted_include').t == b)))))]


def has_inv(L):
    v = L.old('this').f('filepath_include_map_').get(conv(L.old('from'), '').t)
    return forall(1, lambda i: Implies(within(i, L.idx), v.at(i).f('quoted_include').t != conv(L.old('to'), '').t))


FILE = REC('FileRef', {'path': STR, 'valid': BOOL})


def ispublic_post(c):
    p, f = c.old('this'), c.old('file').f('path')
    q = conv(f, '').t
    return [('exactly-when-known-public', c.retval(BOOL).t == (vis(p, q, f.t, I(UNUSED)) == PUBLIC))]


def fin(name, **kw):
    return cxxunit(SRC, C('IncludePicker::' + name, kw['params'], pre=kw.get('pre', pre), post=kw['post'], inv=kw.get('inv') or []), records=RECS,
                   contracts=dict(PATHS, **{'IncludePicker::' + k: v for k, v in kw.get('calls', {}).items()}), models=kw.get('models'), replay='picker')


def build():
    P = PICKER
    getpath = {'GetFilePath': lambda ex, s, a: [(s, ex.rv(s, a[0]).f('path'))]}
    units = [cxxunit(SRC, C('IncludePicker::GetVisibility', {'this': PICKER, 'include': MI, 'default': INT}, post=vis_post), records=RECS, replay='picker'),
             cxxunit(SRC, C('IncludePicker::GetPublicValues', {'this': PICKER, 'm': IMAP, 'key': STR}, pre=pv_pre, post=pv_post, inv=pv_inv, defs=pv_defs), records=RECS, contracts=PATHS, replay='picker'),
             fin('GetCandidateHeadersForSymbol', params={'this': P, 'symbol': STR}, post=sym_post, calls={'GetPublicValues': c_pv}),
             fin('GetCandidateHeadersForSymbolUsedFrom', params={'this': P, 'symbol': STR, 'including': STR}, post=symfrom_post, calls={'GetCandidateHeadersForSymbol': c_sym, 'BestQuotedIncludesForIncluder': c_best}),
             fin('GetCandidateHeadersForFilepath', params={'this': P, 'filepath': STR, 'including': STR}, post=file_post, calls={'GetPublicValues': c_pv}),
             fin('GetCandidateHeadersForFilepathIncludedFrom', params={'this': P, 'included': STR, 'including': STR}, post=from_post, calls={'GetCandidateHeadersForFilepath': c_file, 'BestQuotedIncludesForIncluder': c_best}),
             fin('GetMappedPublicHeaders', params={'this': P, 'symbol': STR, 'use': STR, 'decl': STR}, post=pub_post, calls={'GetCandidateHeadersForSymbolUsedFrom': c_symfrom, 'GetCandidateHeadersForFilepathIncludedFrom': c_from}),
             fin('HasMapping', params={'this': P, 'from': STR, 'to': STR}, post=has_post, inv=[has_inv]),
             ]
    units.append(cxxunit(SRC, C('IncludePicker::IsPublic', {'this': P, 'file': FILE}, pre=lambda c: wf(c.old('this')) + [c.old('file').f('valid').t], post=ispublic_post),
                         records=dict(RECS, **{'CustomizableOptional<FileEntryRef>': FILE, 'OptionalFileEntryRef': FILE}),
                         contracts=dict(PATHS, GetFilePath=getpath['GetFilePath']), models={'method:CustomizableOptional::operator bool': lambda ex, s, o, a: [(s, ex.rv(s, o).f('valid'))]}, replay='picker'))
    return Spec('P16', units, replays={'picker': lambda seed, tier: pickermodel.replay(seed, tier)})
