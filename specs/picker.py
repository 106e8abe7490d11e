"""Records, invariants and vocabulary of iwyu_include_picker."""
from .cxx import *

SRC = 'iwyu_include_picker.cc'
MI = REC('MappedInclude', {'quoted_include': STR, 'path': STR})
IMAP = MAP(STR, LIST(MI))
VMAP = MAP(STR, INT)
PSS = Types().pair(STR, STR)
PICKER = REC('IncludePicker', {'symbol_include_map_': IMAP, 'filepath_include_map_': IMAP, 'include_visibility_map_': VMAP, 'path_visibility_map_': VMAP,
                               'quoted_includes_to_quoted_includers_': MAP(STR, SET(STR)), 'includer_and_includee_to_include_as_written_': MAP(PSS, STR),
                               'friend_to_headers_map_': MAP(STR, SET(STR)), 'has_called_finalize_added_include_lines_': BOOL, 'regex_dialect': INT})
RECS = {'MappedInclude': MI, 'IncludePicker': PICKER}
UNUSED, PUBLIC, PRIVATE = 0, 1, 2


def isq(t):
    """is the text a quoted include"""
    def q(a, b):
        return And(z3.PrefixOf(S(a), t), z3.SuffixOf(S(b), t))
    return And(z3.Length(t) >= 2, Or(q('<', '>'), q('"', '"')))


def vis(p, q, path, dflt):
    """documented visibility: by include name first, by path second, else the default"""
    im, pm = p.f('include_visibility_map_'), p.f('path_visibility_map_')
    return If(im.has(q), im.get(q).t, If(pm.has(path), pm.get(path).t, dflt))


def wf_map(m):
    """every target is a quoted include (checked when it is recorded)"""
    k, i = z3.Const(fresh_name('k'), z3.StringSort()), z3.Int(fresh_name('i'))
    v = m.get(k)
    return [FA([k, i], Implies(And(m.has(k), 0 <= i, i < v.len), isq(v.at(i).f('quoted_include').t)), patterns=[v.at(i).f('quoted_include').t]),
            FA([k], v.len >= 0, patterns=[v.len])]


def wf(p):
    return wf_map(p.f('symbol_include_map_')) + wf_map(p.f('filepath_include_map_'))


def conv(f, i):
    return uf('conv', STR, vstr(f) if isinstance(f, str) else f, vstr(i) if isinstance(i, str) else i)


def c_conv(ex, s, a):
    f, i = ex.rv(s, a[0]), (ex.rv(s, a[1]) if len(a) > 1 else vstr(''))
    r = conv(f, i)
    s.add(isq(r.t))
    return [(s, r)]


def opaque(name, ty=STR):
    def h(ex, s, a):
        return [(s, uf(name, ty, *[ex.rv(s, x) for x in a]))]
    return h


PATHS = {'IsQuotedInclude': lambda ex, s, a: [(s, vbool(isq(ex.rv(s, a[0]).t)))], 'ConvertToQuotedInclude': c_conv, 'GetParentPath': opaque('parent'), 'MakeAbsolutePath/1': opaque('abs1'), 'MakeAbsolutePath/2': opaque('abs2'), 'IsAbsolutePath': opaque('isabs', BOOL)}
def incdir(f):
    return uf('abs1', STR, uf('parent', STR, f))


def pv(m, key):
    return uf('public_values', LIST(MI), m, key)


def c_pv(ex, s, a):
    this, m, key = a[0], ex.rv(s, a[1]), ex.rv(s, a[2])
    ex.oblige('check-holds(the key is not a pattern)', s, Not(z3.PrefixOf(S('@'), key.t)), 'implicit')
    r = pv(m, key)
    p = ex.rv(s, this)
    i = z3.Int(fresh_name('i'))
    x = r.at(i)
    s.add(r.len >= 0, FA([i], Implies(And(0 <= i, i < r.len), And(isq(x.f('quoted_include').t), vis(p, x.f('quoted_include').t, x.f('path').t, I(PUBLIC)) == PUBLIC)),
                         patterns=[x.f('quoted_include').t]))
    return [(s, r)]


def mi_eq(a, b):
    return And(a.f('quoted_include').t == b.f('quoted_include').t, a.f('path').t == b.f('path').t)


def mi(q, p):
    return Val(MI, (q.t if isinstance(q, Val) else q, p.t if isinstance(p, Val) else p))
