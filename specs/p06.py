"""P06 several reports about one file are combined conservatively."""
from .fixrec import *

INTS, SPANS, STRS = [z3.IntSort()], [z3.IntSort()] * 2, [z3.StringSort()]


def merge_pre(c):
    return [c.old('self').f('filename').t == c.old('other').f('filename').t]


def merge_post(c):
    a, b, r = c.old('self'), c.old('other'), c.new('self')
    D, I_, FW, N = 'lines_to_delete', 'some_include_lines', 'seen_forward_declare_lines', 'nested_forward_declare_lines'
    ad = lambda v, k: v.f('includes_and_forward_declares_to_add').f('storage').has(k)
    full = lambda v: v.f('full_include_lines')
    un = lambda f, s: allk(s, lambda *k: r.f(f).has(*k) == Or(a.f(f).has(*k), b.f(f).has(*k)))
    return [('removed-only-if-every-report-removes-it', allk(INTS, lambda k: Implies(r.f(D).has(k), And(a.f(D).has(k), b.f(D).has(k))))),
            ('removed-if-every-report-removes-it', allk(INTS, lambda k: Implies(And(a.f(D).has(k), b.f(D).has(k)), r.f(D).has(k)))),
            ('added-if-any-report-adds-it', allk(STRS, lambda k: Implies(Or(ad(a, k), ad(b, k)), ad(r, k)))),
            ('added-only-if-some-report-adds-it', allk(STRS, lambda k: Implies(ad(r, k), Or(ad(a, k), ad(b, k))))),
            ('known-include-lines-united', un(I_, INTS)), ('known-declarations-united', un(FW, SPANS)), ('known-nested-declarations-united', un(N, SPANS)),
            ('include-texts-united', allk(STRS, lambda k: And(full(r).has(k) == Or(full(a).has(k), full(b).has(k)),
                                                               Implies(full(r).has(k), Or(And(full(a).has(k), full(r).get(k).t == full(a).get(k).t),
                                                                                          And(full(b).has(k), full(r).get(k).t == full(b).get(k).t)))))),
            ('same-file', r.f('filename').t == a.f('filename').t)]


def content_post(c):
    a = c.old('self')
    k, n = z3.Const('ks', z3.StringSort()), z3.Int('kn')
    has = Or(z3.Exists([k], a.f('includes_and_forward_declares_to_add').f('storage').has(k)), z3.Exists([n], a.f('lines_to_delete').has(n)))
    return [('something-to-do-iff-something-added-or-removed', c.truth() == has)]


# ------------------------------------------------------ ordered set of strings
def has(v, k):
    return v.f('storage').has(k)


def os_add_post(c):
    a, r, x = c.old('self'), c.new('self'), c.old('value').t
    return [('adds-exactly-the-value', allk(STRS, lambda k: has(r, k) == Or(has(a, k), k == x)))]


def os_bin(f):
    return lambda c: [('exactly', allk(STRS, lambda k: has(c.new('self'), k) == f(has(c.old('self'), k), has(c.old('other'), k))))]


def os_in_post(c):
    return [('membership', c.truth() == has(c.old('self'), c.old('value').t))]


def set_of(v):
    return v.f('storage') if v.ty == OSET else v.f('includes_and_forward_declares_to_add').f('storage')


def filling(L):
    """a loop that copies the other set element by element"""
    if L.it is None or not isinstance(L.it.src, Val) or L.it.src.ty != LIST(STR):
        return None
    now, pre, oth = set_of(L.new('self')), set_of(L.pre.load(L.args['self'])), set_of(L.old('other'))
    q = L.it.src
    return And(forall(1, lambda i: Implies(within(i, L.idx), now.has(q.at(i).t)), lambda i: [q.at(i).t]),
               FA([z3.String('fk')], Implies(pre.has(z3.String('fk')), now.has(z3.String('fk'))), patterns=[pre.has(z3.String('fk'))]),
               FA([z3.String('fk')], Implies(now.has(z3.String('fk')), Or(pre.has(z3.String('fk')), oth.has(z3.String('fk')))), patterns=[now.has(z3.String('fk'))]))


# -------------------------------------------------------------------- replays
def mkrec(m, rnd, fn='f.cc'):
    r = m.IWYUOutputRecord(fn)
    r.lines_to_delete = {rnd.randint(1, 9) for _ in range(rnd.choice([0, 0, 1, 3]))}
    r.some_include_lines = {rnd.randint(1, 9) for _ in range(rnd.randint(0, 3))}
    for _ in range(rnd.randint(0, 3)):
        a = rnd.randint(1, 6)
        r.seen_forward_declare_lines.add((a, a + rnd.randint(1, 2)))
    for s in list(r.seen_forward_declare_lines):
        if rnd.random() < .3:
            r.nested_forward_declare_lines.add(s)
    for _ in range(rnd.choice([0, 0, 1, 3])):
        r.includes_and_forward_declares_to_add.add(rnd.choice(['#include <a>', '#include "b.h"', 'class X;', 'class Y;', '#include <c>']))
    for _ in range(rnd.randint(0, 3)):
        k = rnd.choice(['<a>', '"b.h"', '<c>'])
        r.full_include_lines[k] = '#include %s%s' % (k, rnd.choice(['', '  // for q', '  // for z']))
    return r


def dump(r):
    return {'delete': sorted(r.lines_to_delete), 'includes': sorted(r.some_include_lines), 'fwd': sorted(r.seen_forward_declare_lines), 'nested': sorted(r.nested_forward_declare_lines),
            'add': sorted(r.includes_and_forward_declares_to_add), 'full': dict(r.full_include_lines), 'file': r.filename}


def replay(seed, tier):
    m = real()
    rnd = random.Random(seed)
    for _ in range(4000):
        a, b = mkrec(m, rnd), mkrec(m, rnd)
        da, db = dump(a), dump(b)
        hc = call(a.HasContentfulChanges)
        if bool(hc) != bool(da['add'] or da['delete']):
            return {'call': 'HasContentfulChanges', 'record': da, 'returned': repr(hc)}
        e = call(a.Merge, b)
        r = dump(a)
        ok = r['delete'] == sorted(set(da['delete']) & set(db['delete']))
        for k in ('includes', 'fwd', 'nested', 'add'):
            ok = ok and r[k] == sorted(set(da[k]) | set(db[k]))
        ok = ok and set(r['full']) == set(da['full']) | set(db['full']) and all(v in (da['full'].get(k), db['full'].get(k)) for k, v in r['full'].items())
        ok = ok and dump(b) == db and e is None
        if not ok:
            return {'call': 'Merge', 'first': da, 'second': db, 'merged': r, 'returned': repr(e)}
    return None


def replay_set(seed, tier):
    m = real()
    rnd = random.Random(seed)
    for _ in range(3000):
        a, b = [[rnd.choice('abcde') for _ in range(rnd.randint(0, 5))] for _ in 'xy']
        for op, f in (('intersection_update', lambda x, y: x & y), ('update', lambda x, y: x | y), ('difference', lambda x, y: x - y)):
            s, t = m.OrderedSet(a), m.OrderedSet(b)
            r = call(getattr(s, op), t)
            r = s if r is None else r
            if isinstance(r, tuple) or set(r) != f(set(a), set(b)) or len(r) != len(set(r)) or set(t) != set(b):
                return {'call': 'OrderedSet.' + op, 'left': a, 'right': b, 'result': repr(r) if isinstance(r, tuple) else list(r)}
        s = m.OrderedSet(a)
        s.add('z')
        if set(s) != set(a) | {'z'} or ('z' not in s) or ('y' in s) or list(m.OrderedSet(a)) != list(dict.fromkeys(a)):
            return {'call': 'OrderedSet', 'values': a, 'result': list(s)}
    return None


def build():
    C = Contract
    units = [funit(C('IWYUOutputRecord.Merge', {'self': RECORD, 'other': RECORD}, pre=merge_pre, post=merge_post, inv=[filling])),
             funit(C('IWYUOutputRecord.HasContentfulChanges', {'self': RECORD}, post=content_post)),
             funit(C('OrderedSet.add', {'self': OSET, 'value': STR}, post=os_add_post), replay='OrderedSet'),
             funit(C('OrderedSet.update', {'self': OSET, 'other': OSET}, post=os_bin(Or), inv=[filling]), replay='OrderedSet'),
             funit(C('OrderedSet.intersection_update', {'self': OSET, 'other': OSET}, post=os_bin(And)), replay='OrderedSet'),
             funit(C('OrderedSet.__contains__', {'self': OSET, 'value': STR}, post=os_in_post), replay='OrderedSet')]
    return Spec('P06', units, replays={'IWYUOutputRecord.Merge': replay, 'IWYUOutputRecord.HasContentfulChanges': replay, 'OrderedSet': replay_set},
                assumptions=['insertion order of the ordered containers is not modelled'])
