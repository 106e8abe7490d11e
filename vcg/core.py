"""Core of the verification-condition generator: types, values, symbolic
states and the obligation discharger.  Both front-ends (pyfe, cxxfe) share it.

A value of every type is a fixed tuple of SMT terms ("leaves"); containers lift
the leaves of their element type to arrays.  Machine integers are mathematical
integers (stated as an assumption in the evidence)."""
import itertools, os, subprocess, tempfile, time
import z3

_counter = itertools.count()
_BOOLOPS = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_ITE, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ}


def pattern_ok(p):
    if isinstance(p, z3.PatternRef):
        return True
    todo, seen = [p], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t) or (z3.is_app(t) and t.decl().kind() in _BOOLOPS):
            return False
        todo += t.children()
    return True


def FA(xs, body, patterns=()):
    """Universal quantifier; patterns the solver would reject are left out."""
    ps = [p for p in patterns if pattern_ok(p)]
    if ps and len(ps) == len(patterns):
        try:
            return z3.ForAll(xs, body, patterns=ps)
        except z3.Z3Exception:
            pass
    return z3.ForAll(xs, body)


def fresh_name(prefix):
    return '%s!%d' % (prefix, next(_counter))


class Unsupported(Exception):
    """The code left the subset the generator can translate."""


# --------------------------------------------------------------------- types
class Ty:
    mutable = False

    def sorts(self):
        raise NotImplementedError

    def __eq__(self, o):
        return isinstance(o, Ty) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return str(self.key())

    def fresh(self, prefix):
        n = fresh_name(prefix)
        ss = self.sorts()
        if len(ss) == 1:
            return Val(self, (z3.Const(n, ss[0]),))
        return Val(self, tuple(z3.Const('%s.%d' % (n, i), s) for i, s in enumerate(ss)))


class Prim(Ty):
    def __init__(self, name, sort):
        self.name, self.sort = name, sort

    def sorts(self):
        return [self.sort]

    def key(self):
        return self.name


INT = Prim('int', z3.IntSort())
BOOL = Prim('bool', z3.BoolSort())
STR = Prim('str', z3.StringSort())
REAL = Prim('real', z3.RealSort())
CODE = Prim('code', z3.IntSort())     # enumerated constants (regex objects, None, enum)


_sorts = {}


def REF(name):
    if name not in _sorts:
        _sorts[name] = z3.DeclareSort(name)
    return Prim('ref:' + name, _sorts[name])


class _Unit(Ty):
    def sorts(self):
        return []

    def key(self):
        return 'unit'


UNIT = _Unit()


class ELEMREF(Ty):
    """A reference to an element of the list in the given cell."""

    def __init__(self, cell, t):
        self.cell, self.t = cell, t

    def sorts(self):
        return [z3.IntSort()]

    def key(self):
        return ('elemref', self.cell, self.t.key())


class OPT(Ty):
    def __init__(self, t):
        self.t = t

    def sorts(self):
        return [z3.BoolSort()] + self.t.sorts()

    def key(self):
        return ('opt', self.t.key())


class TUP(Ty):
    def __init__(self, *ts):
        self.ts = list(ts)

    def sorts(self):
        return [s for t in self.ts for s in t.sorts()]

    def key(self):
        return ('tup',) + tuple(t.key() for t in self.ts)

    def span(self, i):
        off = sum(len(t.sorts()) for t in self.ts[:i])
        return off, off + len(self.ts[i].sorts())


class REC(Ty):
    mutable = True

    def __init__(self, name, fields, isdict=False):
        # isdict: a dictionary with a fixed set of possible string keys
        self.name, self.fields, self.isdict = name, dict(fields), isdict

    def sorts(self):
        return [s for t in self.fields.values() for s in t.sorts()]

    def key(self):
        return ('rec', self.name)

    def span(self, f):
        off = 0
        for n, t in self.fields.items():
            k = len(t.sorts())
            if n == f:
                return off, off + k
            off += k
        raise Unsupported('field %s of %s' % (f, self.name))


def lift(sorts, idx):
    return [z3.ArraySort(*(list(idx) + [s])) for s in sorts]


class LIST(Ty):
    mutable = True

    def __init__(self, t):
        self.t = t

    def sorts(self):
        return [z3.IntSort()] + lift(self.t.sorts(), [z3.IntSort()])

    def key(self):
        return ('list', self.t.key())


class SET(Ty):
    mutable = True

    def __init__(self, k):
        self.k = k

    def sorts(self):
        return [z3.ArraySort(*(self.k.sorts() + [z3.BoolSort()]))]

    def key(self):
        return ('set', self.k.key())


class MAP(Ty):
    mutable = True

    def __init__(self, k, v):
        self.k, self.v = k, v

    def sorts(self):
        ks = self.k.sorts()
        return [z3.ArraySort(*(ks + [z3.BoolSort()]))] + lift(self.v.sorts(), ks)

    def key(self):
        return ('map', self.k.key(), self.v.key())


# -------------------------------------------------------------------- values
class Val:
    __slots__ = ('ty', 'ls')

    def __init__(self, ty, ls):
        self.ty, self.ls = ty, tuple(ls)

    def __repr__(self):
        return 'Val(%s,%s)' % (self.ty, list(self.ls))

    @property
    def t(self):
        assert len(self.ls) == 1, self
        return self.ls[0]

    # generic accessors used by specifications
    def f(self, name):
        a, b = self.ty.span(name)
        return Val(self.ty.fields[name], self.ls[a:b])

    def item(self, i):
        a, b = self.ty.span(i)
        return Val(self.ty.ts[i], self.ls[a:b])

    @property
    def some(self):
        return self.ls[0]

    @property
    def val(self):
        return Val(self.ty.t, self.ls[1:])

    @property
    def len(self):
        return self.ls[0]

    def at(self, i):
        i = z3.IntVal(i) if isinstance(i, int) else i
        return Val(self.ty.t, [z3.Select(a, i) for a in self.ls[1:]])

    def has(self, *ks):
        return z3.Select(self.ls[0], *ks)

    def get(self, *ks):
        return Val(self.ty.v, [z3.Select(a, *ks) for a in self.ls[1:]])


class Ptr:
    """Reference to a mutable location."""
    __slots__ = ('cell', 'path', 'ty')

    def __init__(self, cell, path, ty):
        self.cell, self.path, self.ty = cell, tuple(path), ty

    def __repr__(self):
        return 'Ptr(%s%s:%s)' % (self.cell, self.path, self.ty)

    def sub(self, step, ty):
        return Ptr(self.cell, self.path + (step,), ty)

    def same(self, o):
        if not isinstance(o, Ptr) or self.cell != o.cell or len(self.path) != len(o.path):
            return False
        for a, b in zip(self.path, o.path):
            if a[0] != b[0]:
                return False
            if a[0] == 'f':
                if a[1] != b[1]:
                    return False
            elif not all(z3.eq(x, y) for x, y in zip(a[1], b[1])):
                return False
        return True


class NPtr:
    """A pointer value that may be null (some: not null)."""

    def __init__(self, some, ptr):
        self.some, self.ptr = some, ptr

    def __repr__(self):
        return 'NPtr(%r)' % (self.ptr,)


class Conc:
    """A concrete Python-level object (module, class, function, regex, ...)."""

    def __init__(self, obj, **kw):
        self.obj = obj
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Conc(%r)' % (self.obj,)


class _Undef:
    def __repr__(self):
        return 'Undef'


UNDEF = _Undef()


def vint(n):
    return Val(INT, (z3.IntVal(n) if isinstance(n, int) else n,))


def vbool(b):
    return Val(BOOL, (z3.BoolVal(b) if isinstance(b, bool) else b,))


def zstr(s):
    # z3.StringVal understands \u{..} escapes; escape non printable characters
    out = []
    for c in s:
        if 32 <= ord(c) < 127 and c != '\\':
            out.append(c)
        else:
            out.append('\\u{%x}' % ord(c))
    return z3.StringVal(''.join(out))


def vstr(s):
    return Val(STR, (zstr(s) if isinstance(s, str) else s,))


def vsome(v):
    return Val(OPT(v.ty), (z3.BoolVal(True),) + v.ls)


def default_term(sort):
    k = sort.kind()
    if k == z3.Z3_INT_SORT:
        return z3.IntVal(0)
    if k == z3.Z3_BOOL_SORT:
        return z3.BoolVal(False)
    if k == z3.Z3_REAL_SORT:
        return z3.RealVal(0)
    if sort == z3.StringSort():
        return z3.StringVal('')
    if k == z3.Z3_ARRAY_SORT:
        # multi-dim arrays cannot use K; use a fixed constant
        return z3.Const('dflt!' + str(sort).replace(' ', ''), sort)
    return z3.Const('dflt!' + str(sort), sort)


def vnone(t):
    return Val(OPT(t), (z3.BoolVal(False),) + tuple(default_term(s) for s in t.sorts()))


def vtup(*vs):
    return Val(TUP(*[v.ty for v in vs]), [l for v in vs for l in v.ls])


def empty_list(t):
    return Val(LIST(t), [z3.IntVal(0)] + [z3.Const(fresh_name('el'), s) for s in lift(t.sorts(), [z3.IntSort()])])


def const_array(idx, v):
    """Constant array over possibly several index sorts."""
    if len(idx) == 1:
        return z3.K(idx[0], v)
    xs = [z3.Const(fresh_name('k'), s) for s in idx]
    return z3.Lambda(xs, v)


def empty_set(k):
    return Val(SET(k), [const_array(k.sorts(), z3.BoolVal(False))])


def empty_map(k, v):
    ks = k.sorts()
    return Val(MAP(k, v), [const_array(ks, z3.BoolVal(False))] + [z3.Const(fresh_name('em'), s) for s in lift(v.sorts(), ks)])


def list_append(l, v):
    n = l.ls[0]
    return Val(l.ty, [n + 1] + [z3.Store(a, n, x) for a, x in zip(l.ls[1:], v.ls)])


def lst(*vals):
    r = empty_list(vals[0].ty)
    for v in vals:
        r = list_append(r, v)
    return r


def eq(a, b):
    """Equality of two values of the same shape (lists up to their length)."""
    if a.ty != b.ty:
        if isinstance(a.ty, OPT) and a.ty.t == b.ty:
            return z3.And(a.some, eq(a.val, b))
        if isinstance(b.ty, OPT) and b.ty.t == a.ty:
            return z3.And(b.some, eq(b.val, a))
        if {a.ty, b.ty} <= {INT, CODE}:
            return a.t == b.t
        if {a.ty, b.ty} <= {INT, REAL}:
            return a.t == b.t
        raise Unsupported('equality %s / %s' % (a.ty, b.ty))
    t = a.ty
    if isinstance(t, Prim):
        return a.t == b.t
    if isinstance(t, OPT):
        return z3.And(a.some == b.some, z3.Implies(a.some, eq(a.val, b.val)))
    if isinstance(t, TUP):
        return z3.And([eq(a.item(i), b.item(i)) for i in range(len(t.ts))])
    if isinstance(t, REC):
        return z3.And([eq(a.f(n), b.f(n)) for n in t.fields])
    if isinstance(t, LIST):
        if all(z3.eq(x, y) for x, y in zip(a.ls, b.ls)):
            return z3.BoolVal(True)
        i = z3.Int(fresh_name('i'))
        na, nb = z3.simplify(a.len), z3.simplify(b.len)
        if z3.is_int_value(na) and z3.is_int_value(nb):
            if na.as_long() != nb.as_long():
                return z3.BoolVal(False)
            return z3.And([eq(a.at(j), b.at(j)) for j in range(na.as_long())])
        body = z3.Implies(z3.And(0 <= i, i < a.len), eq(a.at(i), b.at(i)))
        return z3.And(a.len == b.len, z3.ForAll([i], body))
    if isinstance(t, SET):
        return a.t == b.t
    if isinstance(t, MAP):
        ks = [z3.Const(fresh_name('k'), s) for s in t.k.sorts()]
        return z3.And(a.ls[0] == b.ls[0],
                      z3.ForAll(ks, z3.Implies(a.has(*ks), eq(a.get(*ks), b.get(*ks)))))
    if t == UNIT:
        return z3.BoolVal(True)
    raise Unsupported('equality of %s' % (t,))


def same_leaves(a, b):
    return a.ty == b.ty and all(z3.eq(x, y) for x, y in zip(a.ls, b.ls))


def ite(c, a, b, defs=None):
    """c ? a : b.  With a list of definitions, containers get a name (which keeps
    quantifier patterns free of boolean structure)."""
    if same_leaves(a, b):
        return a
    if defs is not None:
        out = []
        for x, y in zip(a.ls, b.ls):
            if z3.eq(x, y):
                out.append(x)
                continue
            t = z3.If(c, x, y)
            if x.sort().kind() == z3.Z3_ARRAY_SORT:
                n = z3.Const(fresh_name('mg'), x.sort())
                defs.append(n == t)
                t = n
            out.append(t)
        return Val(a.ty, out)
    return Val(a.ty, [x if z3.eq(x, y) else z3.If(c, x, y) for x, y in zip(a.ls, b.ls)])


# --------------------------------------------------------------------- state
class State:
    __slots__ = ('env', 'cells', 'pc', 'ghost')

    def __init__(self):
        self.env = {}       # name -> Val | Ptr | Conc | UNDEF
        self.cells = {}     # id -> Val
        self.pc = ()        # tuple of z3 Bool
        self.ghost = {}     # name -> Val

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.cells = dict(self.cells)
        s.pc = self.pc
        s.ghost = dict(self.ghost)
        return s

    def assume(self, *fs):
        s = self.copy()
        s.pc = self.pc + tuple(f for f in fs if not z3.is_true(f))
        return s

    def add(self, *fs):
        self.pc = self.pc + tuple(f for f in fs if not z3.is_true(f))

    # mutable locations -----------------------------------------------------
    def new_cell(self, val, hint='c'):
        cid = fresh_name(hint)
        self.cells[cid] = val
        return Ptr(cid, (), val.ty)

    def load(self, p):
        if isinstance(p, Val):
            return p
        if not isinstance(p, Ptr):
            raise Unsupported('cannot load %r' % (p,))
        v = self.cells[p.cell]
        for step in p.path:
            v = _sub(v, step)
        return v

    def store(self, p, val):
        v = self.cells[p.cell]
        self.cells[p.cell] = _upd(v, p.path, val)


def _sub(v, step):
    k = step[0]
    if k == 'f':
        return v.f(step[1])
    if k == 'i':
        return v.at(step[1][0])
    if k == 'k':
        return v.get(*step[1])
    if k == 't':
        return v.item(step[1])
    if k == 'o':
        return v.val
    raise Unsupported('path step %s' % (step,))


def _store(a, ks, x):
    # writing back what is there leaves the array (and the write set) alone
    if z3.eq(x, z3.Select(a, *ks)):
        return a
    return z3.Store(a, *(list(ks) + [x]))


def _upd(v, path, val):
    if not path:
        if val.ty != v.ty:
            val = coerce(val, v.ty)
        return val
    step = path[0]
    new = _upd(_sub(v, step), path[1:], val)
    k = step[0]
    if k == 'f' or k == 't':
        a, b = v.ty.span(step[1])
        return Val(v.ty, v.ls[:a] + new.ls + v.ls[b:])
    if k == 'i':
        return Val(v.ty, (v.ls[0],) + tuple(_store(a, step[1][:1], x) for a, x in zip(v.ls[1:], new.ls)))
    if k == 'k':
        return Val(v.ty, (z3.Store(v.ls[0], *(list(step[1]) + [z3.BoolVal(True)])),) +
                   tuple(_store(a, step[1], x) for a, x in zip(v.ls[1:], new.ls)))
    if k == 'o':
        return Val(v.ty, (v.ls[0],) + new.ls)
    raise Unsupported('path update %s' % (step,))


def coerce(v, ty):
    """Convert v to type ty where an implicit conversion exists."""
    if v.ty == ty:
        return v
    if isinstance(ty, OPT):
        if v.ty == UNIT:
            return vnone(ty.t)
        if isinstance(v.ty, OPT):
            if v.ty.t == UNIT:
                return vnone(ty.t)
            c = coerce(v.val, ty.t)
            return Val(ty, (v.some,) + c.ls)
        return vsome(coerce(v, ty.t))
    if ty == REAL and v.ty == INT:
        return Val(REAL, (z3.ToReal(v.t),))
    if ty == CODE and v.ty == INT:
        return Val(CODE, v.ls)
    if ty == INT and v.ty == CODE:
        return Val(INT, v.ls)
    if ty == BOOL and v.ty == INT:
        return vbool(v.t != 0)
    if ty == INT and v.ty == BOOL:
        return vint(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(ty, LIST) and isinstance(v.ty, LIST):
        if isinstance(v.ty.t, _Unit) or (z3.is_int_value(z3.simplify(v.len)) and z3.simplify(v.len).as_long() == 0):
            return empty_list(ty.t)
        n = z3.simplify(v.len)
        if z3.is_int_value(n):
            return lst(*[coerce(v.at(i), ty.t) for i in range(n.as_long())])
    if isinstance(ty, SET) and isinstance(v.ty, SET) and v.ty.k == UNIT:
        return empty_set(ty.k)
    if isinstance(ty, MAP) and isinstance(v.ty, MAP) and v.ty.k == UNIT:
        return empty_map(ty.k, ty.v)
    if isinstance(ty, MAP) and isinstance(v.ty, MAP) and ty.k == v.ty.k and ty.v == OPT(v.ty.v):
        return Val(ty, (v.ls[0], const_array(ty.k.sorts(), z3.BoolVal(True))) + tuple(v.ls[1:]))
    if isinstance(ty, TUP) and isinstance(v.ty, TUP) and len(ty.ts) == len(v.ty.ts):
        return vtup(*[coerce(v.item(i), ty.ts[i]) for i in range(len(ty.ts))])
    raise Unsupported('coerce %s to %s' % (v.ty, ty))


def join_types(a, b):
    if a == b:
        return a
    if isinstance(a, OPT) or isinstance(b, OPT) or a == UNIT or b == UNIT:
        ia = a.t if isinstance(a, OPT) else a
        ib = b.t if isinstance(b, OPT) else b
        if ia == UNIT:
            return OPT(ib)
        if ib == UNIT:
            return OPT(ia)
        j = join_types(ia, ib)
        return OPT(j) if j is not None else None
    if {a, b} == {INT, REAL}:
        return REAL
    if isinstance(a, TUP) and isinstance(b, TUP) and len(a.ts) == len(b.ts):
        ts = [join_types(x, y) for x, y in zip(a.ts, b.ts)]
        return TUP(*ts) if all(t is not None for t in ts) else None
    return None


def prefix_len(p, q):
    n = 0
    for a, b in zip(p, q):
        if a is b or z3.eq(a, b):
            n += 1
        else:
            break
    return n


def merge_values(c, a, b, sa, sb, out):
    """Merge value a (under c) with b.  Returns merged value or None."""
    if a is b:
        return a
    if a is b:
        return a
    if a is UNDEF or b is UNDEF:
        return None
    if isinstance(a, NPtr) and isinstance(b, NPtr):
        if a.ptr is None or b.ptr is None or a.ptr.same(b.ptr):
            return NPtr(z3.simplify(z3.If(c, a.some, b.some)), a.ptr if a.ptr is not None else b.ptr)
        return None
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.same(b):
            return a
        # two private cells of equal type: merge into a new cell
        if a.ty == b.ty and not a.path and not b.path and a.cell != b.cell:
            return ('newcell', a, b)
        return None
    if isinstance(a, Conc) and isinstance(b, Conc):
        return a if (a.obj is b.obj or (isinstance(a.obj, tuple) and a.obj == b.obj)) else None
    if isinstance(a, Val) and isinstance(b, Val):
        if a.ty == b.ty:
            return ite(c, a, b)
        j = join_types(a.ty, b.ty)
        if j is None:
            return None
        try:
            return ite(c, coerce(a, j), coerce(b, j))
        except Unsupported:
            return None
    return None


def merge_states(pairs, allow_undef=True):
    """pairs: list of (State, value or None).  Greedily merges compatible states;
    value is merged along."""
    out = []
    for st, v in pairs:
        done = False
        for i, (s2, v2) in enumerate(out):
            m = _merge2(s2, v2, st, v, allow_undef)
            if m is not None:
                out[i] = m
                done = True
                break
        if not done:
            out.append((st, v))
    return out


def _merge2(s1, v1, s2, v2, allow_undef):
    n = prefix_len(s1.pc, s2.pc)
    suf1, suf2 = s1.pc[n:], s2.pc[n:]
    if not suf1 and not suf2:
        c = z3.BoolVal(True)
    if not suf1 or not suf2:
        return None
    c = z3.And(*suf1) if len(suf1) > 1 else suf1[0]
    d = z3.And(*suf2) if len(suf2) > 1 else suf2[0]
    m = State()
    newcells = []
    defs = []

    def mv(a, b):
        r = merge_values(c, a, b, s1, s2, m)
        if isinstance(r, tuple):
            cid = fresh_name('mc')
            newcells.append((cid, r[1].cell, r[2].cell))
            return Ptr(cid, (), a.ty)
        return r

    if (v1 is None) != (v2 is None):
        return None
    v = None
    if v1 is not None:
        v = mv(v1, v2)
        if v is None:
            return None
    keys = list(s1.env) + [k for k in s2.env if k not in s1.env]
    for k in keys:
        a, b = s1.env.get(k, UNDEF), s2.env.get(k, UNDEF)
        if a is UNDEF and b is UNDEF:
            m.env[k] = UNDEF
            continue
        r = mv(a, b)
        if r is None:
            if allow_undef and (a is UNDEF or b is UNDEF):
                m.env[k] = UNDEF
                continue
            return None
        m.env[k] = r
    if set(s1.ghost) != set(s2.ghost):
        return None
    for k in s1.ghost:
        m.ghost[k] = ite(c, s1.ghost[k], s2.ghost[k], defs)
    for k in list(s1.cells) + [k for k in s2.cells if k not in s1.cells]:
        a, b = s1.cells.get(k), s2.cells.get(k)
        if a is None:
            m.cells[k] = b
        elif b is None:
            m.cells[k] = a
        else:
            if a.ty != b.ty:
                return None
            m.cells[k] = ite(c, a, b, defs)
    for cid, c1, c2 in newcells:
        m.cells[cid] = ite(c, s1.cells[c1], s2.cells[c2], defs)
    both = []
    # the disjunction of the two suffixes
    if len(suf1) == 1 and len(suf2) == 1 and (z3.eq(suf2[0], z3.Not(suf1[0])) or z3.eq(suf1[0], z3.Not(suf2[0]))):
        pass
    else:
        both = [z3.Or(c, d)]
    m.pc = s1.pc[:n] + tuple(both) + tuple(defs)
    return (m, v)


# ------------------------------------------------------------------- solving
class Obligation:
    __slots__ = ('name', 'pc', 'goal', 'where', 'info')

    def __init__(self, name, pc, goal, where='', info=None):
        self.name, self.pc, self.goal, self.where, self.info = name, pc, goal, where, info


class Stats:
    def __init__(self):
        self.generated = 0
        self.discharged = 0
        self.by_backend = {}
        self.solver_s = 0.0
        self.failed = []         # (Obligation, 'sat'|'unknown', model)
        self.aux = 0             # invariant (initiation/consecution) checks discharged
        self.covers = 0

    def add(self, be, n=1):
        self.by_backend[be] = self.by_backend.get(be, 0) + n


CVC5 = 'cvc5'
Z3NEW = 'z3-new'


def _symbols(t, cache={}):
    k = t.get_id()
    if k in cache and z3.eq(cache[k][0], t):
        return cache[k][1]
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo += x.children()
    cache[k] = (t, out)
    return out


def relevant(pc, goal, depth):
    """hypotheses within so many steps of the goal's symbols"""
    syms = set(_symbols(goal))
    keep = set()
    for _ in range(depth):
        new = [i for i, f in enumerate(pc) if i not in keep and _symbols(f) & syms]
        keep |= set(new)
        for i in new:
            syms |= _symbols(pc[i])
    return [pc[i] for i in sorted(keep)]


def guarded(s, ms):
    """The solver runs in a child process: it sometimes ignores its time limit, and it may crash.

    Returns the verdict and, when the solver gave up, the problem as it had preprocessed it."""
    import select, signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            v = s.check()
            with os.fdopen(w, 'wb') as f:
                f.write(b'u' if v == z3.unsat else b's' if v == z3.sat else b'?' + s.to_smt2().encode())
        finally:
            os._exit(0)
    os.close(w)
    ans, end = b'', time.time() + ms / 500 + 6
    try:
        while select.select([r], [], [], max(0, end - time.time()))[0]:
            x = os.read(r, 1 << 16)
            if not x:
                break
            ans += x
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
    if ans[:1] == b'u':
        return z3.unsat, None
    if ans[:1] == b's':
        return z3.sat, None
    return z3.unknown, ans[1:].decode() or None


def _model(s):
    try:
        return s.model() if s.check() == z3.sat else None
    except Exception:
        return None


class Prover:
    def __init__(self, timeout_ms=8000, axioms=()):
        self.timeout = timeout_ms
        self.axioms = list(axioms)
        self.stats = Stats()

    def check_sat(self, fs, timeout=None):
        """Satisfiability with the in-process solver."""
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        for a in self.axioms:
            s.add(a)
        for f in fs:
            s.add(f)
        t0 = time.time()
        r, self.text = guarded(s, timeout or self.timeout)
        self.stats.solver_s += time.time() - t0
        return r, s

    def infeasible(self, pc, extra=(), timeout=800):
        r, _ = self.check_sat(list(pc) + list(extra), timeout=timeout)
        return r == z3.unsat

    def prove(self, pc, goal, timeout=None, fallback=True):
        """Returns (verdict, backend, model). verdict in proved/sat/unknown."""
        goal = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        if z3.is_true(goal):
            return 'proved', 'z3-simplify', None
        # a short attempt in process, then every solver at once on the full budget
        tmo = timeout or self.timeout
        r, s = self.check_sat(list(pc) + [z3.Not(goal)], min(tmo, 2500) if fallback else tmo)
        if r == z3.unsat:
            return 'proved', 'z3', None
        if r == z3.sat:
            return 'sat', 'z3', _model(s)
        if fallback:
            text = self.text or s.to_smt2()
            be = self._external(text, 4 if fallback == 'brief' else max(4, self.timeout // 1000))
            if be == 'sat':
                return 'sat', 'external', None
            if be:
                return 'proved', be, None
            if fallback == 'brief':
                return 'unknown', None, None
            be = self._second(list(pc), goal, text, max(8, 2 * self.timeout // 1000))
            if be:
                return 'proved', be, None
        return 'unknown', None, None

    def _second(self, pc, goal, full, tmo):
        """Other seeds and fewer hypotheses (dropping hypotheses is sound)."""
        jobs = [('z3-5.3-seed', full, ['z3-new', 'smt.random_seed=7', '-T:%d' % tmo]), ('z3-4.8-seed', full, ['z3', 'smt.random_seed=3', '-T:%d' % tmo]),
                ('cvc5-sat', full, ['cvc5', '--lang=smt2', '--strings-exp', '--full-saturate-quant', '--tlimit=%d' % (tmo * 1000)])]
        for depth in (1, 2):
            keep = relevant(pc, goal, depth)
            if len(keep) == len(pc):
                break
            s = z3.Solver()
            for f in keep + [z3.Not(goal)]:
                s.add(f)
            t = s.to_smt2()
            jobs.append(('z3-5.3-slice%d' % depth, t, ['z3-new', '-T:%d' % tmo]))
            jobs.append(('z3-4.8-slice%d' % depth, t, ['z3', '-T:%d' % tmo]))
        files, procs, t0 = [], {}, time.time()
        try:
            for name, txt, cmd in jobs:
                with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                    f.write(txt)
                files.append(f.name)
                procs[name] = subprocess.Popen(cmd + [f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            while procs and time.time() - t0 < tmo + 5:
                for name in list(procs):
                    p = procs[name]
                    if p.poll() is not None:
                        o = p.stdout.read().strip()
                        del procs[name]
                        if o.startswith('unsat'):
                            return name
                time.sleep(0.01)
            return None
        finally:
            for p in procs.values():
                p.kill()
                p.wait()
            self.stats.solver_s += time.time() - t0
            for n in files:
                os.unlink(n)

    def _external(self, smt, tmo):
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(smt)
        ms = tmo * 1000
        procs = {}
        t0 = time.time()
        try:
            for name, cmd in (('cvc5', ['cvc5', '--lang=smt2', '--strings-exp', '--tlimit=%d' % ms, f.name]),
                              ('z3-5.3', ['z3-new', '-T:%d' % tmo, f.name]),
                              ('z3-4.8', ['z3', '-T:%d' % tmo, f.name]),
                              ('cvc5-enum', ['cvc5', '--lang=smt2', '--strings-exp', '--enum-inst', '--tlimit=%d' % ms, f.name])):
                try:
                    procs[name] = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                except OSError:
                    pass
            while procs and time.time() - t0 < tmo + 5:
                for name in list(procs):
                    p = procs[name]
                    if p.poll() is not None:
                        o = p.stdout.read().strip()
                        del procs[name]
                        if o.startswith('unsat'):
                            return name
                        if o.startswith('sat'):
                            return 'sat'
                time.sleep(0.01)
            return None
        finally:
            for p in procs.values():
                p.kill()
                p.wait()
            self.stats.solver_s += time.time() - t0
            os.unlink(f.name)
