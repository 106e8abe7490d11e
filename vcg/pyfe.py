"""Python front-end: symbolic execution of the functions found in the current
source text of a module (via the ast module), cutting loops with invariants and
calls with contracts (or inlining the callee when it has none)."""
import ast, importlib.util, re, sys, itertools
import z3
from .core import *
from . import core, norm
import os
DEBUG = os.environ.get('VCG_DEBUG')


class Codes:
    """Numbering of enumerated constants (None, regex objects, ...)."""

    def __init__(self):
        self.objs = []

    def code(self, o):
        for i, x in enumerate(self.objs):
            if x is o or (type(x) is type(o) and not isinstance(o, re.Pattern) and x == o):
                return i
        self.objs.append(o)
        return len(self.objs) - 1


_ufs = {}


def uf_raw(name, in_sorts, out_sort):
    name = name.replace('\\', '~b').replace('|', '~p')          # no such characters in SMT-LIB symbols
    key = (name, tuple(str(s) for s in in_sorts), str(out_sort))
    if key not in _ufs:
        if in_sorts:
            _ufs[key] = z3.Function(name, *(list(in_sorts) + [out_sort]))
        else:
            _ufs[key] = z3.Const(name, out_sort)
    return _ufs[key]


def uf(name, ty, *vals):
    """Uninterpreted (pure, deterministic) function application on values."""
    args = [l for v in vals for l in (v.ls if isinstance(v, Val) else (v,))]
    out = []
    for i, s in enumerate(ty.sorts()):
        f = uf_raw(name if len(ty.sorts()) == 1 else '%s.%d' % (name, i), [a.sort() for a in args], s)
        out.append(f(*args) if args else f)
    return Val(ty, out)


class Iter:
    """An abstract finite sequence being iterated."""

    def __init__(self, n, at, src=None, facts=()):
        self.n, self.at, self.src, self.facts = n, at, src, list(facts)


class PyModule:
    def __init__(self, path, name, variant=None):
        self.path, self.name = path, name
        self.src = open(path, encoding='utf-8').read()
        self.tree = ast.parse(self.src)
        self.changed = set()
        if variant is not None:
            # an equivalent text of the same module (norm.py)
            vs = norm.variants(self.tree)
            if variant < len(vs):
                self.tree, self.changed = vs[variant]
        self.funcs = {}
        self.classes = {}
        for n in self.tree.body:
            if isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = n
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = n
                for m in n.body:
                    if isinstance(m, ast.FunctionDef):
                        self.funcs[n.name + '.' + m.name] = m
        self.mod = load_module(path, name)
        # functions defined conditionally at module level: the one that is live
        for n in self.tree.body:
            if isinstance(n, (ast.If, ast.Try)):
                for d in ast.walk(n):
                    if isinstance(d, ast.FunctionDef):
                        live = getattr(self.mod, d.name, None)
                        code = getattr(live, '__code__', None)
                        if code is not None and code.co_firstlineno == d.lineno:
                            self.funcs[d.name] = d


def load_module(path, name):
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    old = sys.dont_write_bytecode
    sys.dont_write_bytecode = True
    try:
        spec.loader.exec_module(m)
    finally:
        sys.dont_write_bytecode = old
    return m


class Contract:
    """Specification of one function.

    params : name -> Ty | callable(ex, st) -> value
    pre    : fn(c) -> list of formulas          (assumed at entry, proved at modular call sites)
    post   : fn(c) -> list of (name, formula)   (c.ret, c.old(), c.new())
    raises : fn(c, exc) -> list of (name, formula) or None when no exception may escape
    inv    : fn(L) -> list of formulas          (candidate loop invariants, for any loop reached)
    """

    def __init__(self, qual, params, post, pre=None, raises=None, inv=None, ret=None,
                 ghost=None, closure=None, check_bounds=False, asserts='prove', setup=None, timeout=8000,
                 nonvacuous=True, merge_ret=True, inv_timeout=2500, replay=None, split=False, defs=None, cons=True):
        self.__dict__.update(locals())


class Ctx:
    """What a specification sees."""

    def __init__(self, ex, st0, args, st=None, ret=None):
        self.ex, self.st0, self.args, self.st, self.ret = ex, st0, args, st, ret

    def old(self, name):
        a = self.args[name]
        return self.st0.load(a) if isinstance(a, Ptr) else a

    def new(self, name):
        a = self.args[name]
        return self.st.load(a) if isinstance(a, Ptr) else a

    def retval(self, ty=None):
        r = self.ret
        r = self.st.load(r) if isinstance(r, Ptr) else r
        if isinstance(r, Conc):
            r = self.ex.conc_val(r)
        if ty is not None:
            r = self.ex.coerce(r, ty)
        return r

    def ghost(self, n):
        return self.st.ghost[n]

    def truth(self):
        return self.ex.truth(self.st, self.ret)


def consts_of(e):
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        else:
            todo += x.children()
    return out


class LoopCtx:
    def __init__(self, ex, st0, fentry, args, st, idx, it, pre, fid):
        self.ex, self.st0, self.args, self.st, self.idx, self.it, self.pre, self.fid = ex, fentry, args, st, idx, it, pre, fid
        self.outer = list(ex.loopstack)     # (iteration count, sequence) of the enclosing loops

    @property
    def n(self):
        return self.it.n if self.it else None

    def old(self, name):
        a = self.args[name]
        return self.st0.load(a) if isinstance(a, Ptr) else a

    def new(self, name):
        a = self.args[name]
        return self.st.load(a) if isinstance(a, Ptr) else a

    def ghost(self, n):
        return self.st.ghost[n]

    def var(self, name):
        """Value of a local variable at the current point of the loop."""
        v = self.ex.lookup_local(self.st, self.fid, name)
        if v is UNDEF or v is None:
            raise KeyError(name)
        if isinstance(v, Ptr):
            return self.st.load(v)
        return v

    def prevar(self, name):
        v = self.ex.lookup_local(self.pre, self.fid, name)
        if v is UNDEF or v is None:
            raise KeyError(name)
        return self.pre.load(v) if isinstance(v, Ptr) else v

    def vars_of(self, ty):
        out = []
        for (fid, n), v in self.st.env.items():
            if fid != self.fid:
                continue
            if isinstance(v, Ptr) and v.ty == ty:
                out.append((n, self.st.load(v)))
            elif isinstance(v, Val) and v.ty == ty:
                out.append((n, v))
        return out

    def is_over(self, val):
        """Is this loop a foreach over the sequence val (same leaves)?"""
        return self.it is not None and self.it.src is not None and same_leaves(self.it.src, val)


class Closure:
    def __init__(self, node, fid, cls=None, qual=None):
        self.node, self.fid, self.cls, self.qual = node, fid, cls, qual


class PyExec:
    MAXDEPTH = 24

    def __init__(self, module, prover, contracts=None, models=None, records=None, codes=None, field_hook=None, strict_uf=True):
        self.m = module
        self.p = prover
        self.contracts = contracts or {}      # modular contracts used at call sites: qual -> fn(ex, st, args, kw) -> [(st,val)]
        self.models = models or {}            # library models
        self.records = records or {}          # class name -> REC
        self.codes = codes or Codes()
        self.code_none = self.codes.code(None)
        self.quiet = 0
        self.obls = []
        self.fidc = itertools.count()
        self.loop_keep = {}
        self.enum_rank = {}
        self.refcells = set()
        self.copycells = set()
        self.perms = {}
        self.loopstack = []
        self.cur = None
        self.depth = 0
        self.inlined = set()
        self.called_models = set()
        self.fieldhook = field_hook
        self.nbody = 0

    # ---------------------------------------------------------------- helpers
    def oblige(self, name, st, goal, where=''):
        if self.quiet or (where == 'implicit' and z3.is_true(z3.simplify(goal))):
            return
        self.obls.append(Obligation(name, st.pc, goal, where))

    def conc_val(self, c):
        o = c.obj
        if isinstance(o, bool):
            return vbool(o)
        if isinstance(o, int):
            return vint(o)
        if isinstance(o, str):
            return vstr(o)
        if isinstance(o, float):
            return Val(REAL, (z3.RealVal(o),))
        if o is None:
            return Val(UNIT, ())
        if isinstance(o, re.Pattern):
            return Val(CODE, (z3.IntVal(self.codes.code(o)),))
        if isinstance(o, tuple):
            return vtup(*[self.conc_val(Conc(x)) for x in o])
        raise Unsupported('no value for %r' % (o,))

    def lit(self, o):
        if isinstance(o, (bool, int, str, float)) or o is None:
            return self.conc_val(Conc(o))
        return Conc(o)

    def coerce(self, v, ty):
        if isinstance(v, Conc):
            if ty == CODE:
                return Val(CODE, (z3.IntVal(self.codes.code(v.obj)),))
            v = self.conc_val(v)
        if v.ty == ty:
            return v
        if ty == CODE:
            if v.ty == UNIT:
                return Val(CODE, (z3.IntVal(self.code_none),))
            if isinstance(v.ty, OPT) and v.ty.t == CODE:
                return Val(CODE, (z3.If(v.some, v.val.t, self.code_none),))
        return core.coerce(v, ty)

    def rv(self, st, v):
        if isinstance(v, Ptr):
            return st.load(v)
        if isinstance(v, Conc):
            return self.conc_val(v)
        if v is UNDEF:
            raise Unsupported('use of undefined variable')
        return v

    @staticmethod
    def deref(v):
        """an element of a list of references stands for the object it refers to"""
        if isinstance(v, Val) and isinstance(v.ty, core.ELEMREF):
            return Ptr(v.ty.cell, (('i', (v.t,)),), v.ty.t)
        return v

    def truth(self, st, v):
        if isinstance(v, Conc):
            return z3.BoolVal(bool(v.obj))
        if isinstance(v, Ptr):
            t = v.ty
            if isinstance(t, REC):
                h = self.models.get('truth:' + t.name)
                if h:
                    return h(self, st, v)
                return z3.BoolVal(True)
            v = st.load(v)
        t = v.ty
        if t == BOOL:
            return v.t
        if t == INT:
            return v.t != 0
        if t == REAL:
            return v.t != 0
        if t == STR:
            return z3.Length(v.t) > 0
        if t == UNIT:
            return z3.BoolVal(False)
        if t == CODE:
            return v.t != self.code_none
        if isinstance(t, OPT):
            return z3.And(v.some, self.truth(st, v.val))
        if isinstance(t, LIST):
            return v.len > 0
        if isinstance(t, (SET, MAP)):
            ks = [z3.Const(fresh_name('k'), s) for s in t.k.sorts()]
            return z3.Exists(ks, z3.Select(v.ls[0], *ks))
        if isinstance(t, (TUP, REC)):
            return z3.BoolVal(True)
        if isinstance(t, Prim):
            return z3.BoolVal(True)
        raise Unsupported('truth of %s' % (t,))

    def lookup_local(self, st, fid, name):
        while fid is not None:
            if (fid, name) in st.env:
                return st.env[(fid, name)]
            fid = self.parents.get(fid)
        return None

    def lookup(self, st, fid, name):
        v = self.lookup_local(st, fid, name)
        if v is not None:
            return v
        if name in self.m.funcs:
            return Conc(('func', name))
        if name in self.m.classes:
            return Conc(('class', name))
        if 'const:' + name in self.models:
            return self.models['const:' + name]
        if hasattr(self.m.mod, name):
            o = getattr(self.m.mod, name)
            if isinstance(o, type(sys)):
                return Conc(('mod', name))
            return self.lit(o)
        if name in ('len', 'min', 'max', 'range', 'print', 'int', 'str', 'list', 'set', 'sorted', 'enumerate', 'reversed',
                    'isinstance', 'tuple', 'any', 'all', 'zip', 'frozenset', 'dict', 'bool', 'next', 'open', 'abs', 'sum', 'iter', 'super', 'map', 'filter', 'divmod'):
            return Conc(('builtin', name))
        if name in ('float', 'bytes'):
            return Conc(('builtin', name))
        if name.endswith('Error') or name.endswith('Exception') or name in ('StopIteration', 'object'):
            return Conc(('excclass', name))
        raise Unsupported('name %s' % name)

    # ------------------------------------------------------------- statements
    def block(self, stmts, st, fid):
        """-> list of (state, outcome); outcome is ('next',) etc."""
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for c in cur:
                for st2, oc in self.stmt(s, c, fid):
                    if oc[0] == 'next':
                        nxt.append(st2)
                    else:
                        done.append((st2, oc))
            cur = self.merge(nxt)
            if len(cur) > 1:
                # drop infeasible paths
                cur = [c for c in cur if not self.dead(c)]
            if len(cur) > 40:
                raise Unsupported('too many paths')
            if not cur:
                break
        return [(c, ('next',)) for c in cur] + self.merge_oc(done)

    def dead(self, st):
        return self.p.infeasible(st.pc, timeout=120 if self.quiet else 800)

    def merge(self, sts):
        if len(sts) <= 1 or (self.cur is not None and self.cur.split):
            return sts
        return [s for s, _ in merge_states([(s, None) for s in sts])]

    def merge_oc(self, ocs):
        by = {}
        order = []
        for s, oc in ocs:
            k = oc[0] if oc[0] != 'raise' else ('raise', oc[1])
            if k not in by:
                by[k] = []
                order.append(k)
            by[k].append((s, oc))
        out = []
        for k in order:
            l = by[k]
            if k in ('break', 'continue', 'next'):
                out += [(s, (k,)) for s in self.merge([s for s, _ in l])]
            elif k == 'return':
                ms = [(s, oc[1]) for s, oc in l]
                if not (self.cur is not None and self.cur.split):
                    ms = merge_states(ms)
                out += [(s, ('return', v)) for s, v in ms]
            else:
                out += l
        return out

    def stmt(self, n, st, fid):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s line %s' % (type(n).__name__, n.lineno))
        return m(n, st, fid)

    def s_Pass(self, n, st, fid):
        return [(st, ('next',))]

    s_Global = s_Nonlocal = s_Import = s_ImportFrom = s_Pass

    def s_Expr(self, n, st, fid):
        if isinstance(n.value, (ast.Constant,)):
            return [(st, ('next',))]
        if isinstance(n.value, ast.Yield):
            out = []
            for s, v in self.ev(n.value.value, st, fid):
                if isinstance(v, tuple) and v and v[0] == 'exc':
                    out.append((s, ('raise',) + v[1:]))
                    continue
                p = s.env[(fid, '$yield')]
                s = s.copy()
                self._append(s, p, v)
                out.append((s, ('next',)))
            return out
        return [(s, ('raise',) + v[1:]) if self.isexc(v) else (s, ('next',)) for s, v in self.ev(n.value, st, fid)]

    @staticmethod
    def isexc(v):
        return isinstance(v, tuple) and len(v) > 0 and v[0] == 'exc'

    def _append(self, s, p, v):
        cur = s.load(p)
        v = self.rv(s, v)
        if cur.ty.t == UNIT:
            # list of unknown element type: retype
            if p.path:
                raise Unsupported('retype nested list')
            s.cells[p.cell] = list_append(empty_list(v.ty), v)
            self.retype(s, p.cell, LIST(v.ty))
            return
        s.store(p, list_append(cur, self.coerce(v, cur.ty.t)))

    def retype(self, s, cell, ty):
        for k, v in list(s.env.items()):
            if isinstance(v, Ptr) and v.cell == cell and not v.path:
                s.env[k] = Ptr(cell, (), ty)

    def s_Assign(self, n, st, fid):
        out = []
        for s, v in self.ev(n.value, st, fid):
            if self.isexc(v):
                out.append((s, ('raise',) + v[1:]))
                continue
            res = [s.copy()]
            for t in n.targets:
                nr = []
                for x in res:
                    nr += self.assign(t, v, x, fid)
                res = nr
            out += [(x, ('next',)) for x in res]
        return out

    def s_AnnAssign(self, n, st, fid):
        if n.value is None:
            return [(st, ('next',))]
        return self.s_Assign(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n), st, fid)

    def s_AugAssign(self, n, st, fid):
        load = ast.copy_location(_to_load(n.target), n)
        out = []
        # in-place extension of a list, in-place set operations
        setop = {ast.BitOr: 'update', ast.BitAnd: 'intersection_update', ast.Sub: 'difference_update'}.get(type(n.op))
        if (isinstance(n.op, ast.Add) or setop) and isinstance(n.target, (ast.Name, ast.Attribute)):
            r = self.ev(load, st.copy(), fid)
            if len(r) == 1 and isinstance(r[0][1], Ptr) and (isinstance(r[0][1].ty, SET) if setop else isinstance(r[0][1].ty, LIST)):
                c = ast.Call(func=ast.Attribute(value=load, attr=setop or 'extend', ctx=ast.Load()), args=[n.value], keywords=[])
                ast.copy_location(c, n)
                ast.fix_missing_locations(c)
                return self.stmt(ast.copy_location(ast.Expr(c), n), st, fid)
        for s, v in self.ev(ast.copy_location(ast.BinOp(left=load, op=n.op, right=n.value), n), st, fid):
            if self.isexc(v):
                out.append((s, ('raise',) + v[1:]))
                continue
            for x in self.assign(n.target, v, s.copy(), fid):
                out.append((x, ('next',)))
        return out

    def setlocal(self, st, fid, name, v):
        # nonlocal write-through for closures that declare nonlocal
        nl = self.nonlocals.get(fid)
        if nl and name in nl:
            f = self.parents.get(fid)
            while f is not None:
                if (f, name) in st.env:
                    st.env[(f, name)] = v
                    return
                f = self.parents.get(f)
        hint = self.vartypes.get(name)
        st.env[(fid, name)] = v

    def assign(self, t, v, st, fid):
        """mutates/forks st; returns list of states"""
        if isinstance(t, ast.Name):
            self.setlocal(st, fid, t.id, v)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            parts = self.unpack(st, v, len(t.elts))
            sts = [st]
            for e, x in zip(t.elts, parts):
                ns = []
                for s in sts:
                    ns += self.assign(e, x, s, fid)
                sts = ns
            return sts
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st, fid):
                s = s.copy()
                if isinstance(o, Ptr) and isinstance(o.ty, REC):
                    if t.attr not in o.ty.fields:
                        raise Unsupported('field %s.%s' % (o.ty.name, t.attr))
                    if o.cell in self.copycells and o.path and o.path[0][0] == 'i':
                        raise Unsupported('object changed through a slice')
                    fty = o.ty.fields[t.attr]
                    s.store(o.sub(('f', t.attr), fty), self.coerce(self.rvc(s, v), fty))
                    out.append(s)
                elif isinstance(o, Val) and 'opaque:%s' % tyname(o.ty) in self.models:
                    out.append(s)
                else:
                    raise Unsupported('attribute store on %r' % (o,))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, o in self.ev(t.value, st, fid):
                for s, k in self.ev(t.slice, s, fid):
                    s = s.copy()
                    if isinstance(o, Ptr) and isinstance(o.ty, MAP):
                        if o.ty.k == UNIT:
                            kv = self.rv(s, k)
                            vv = self.rv(s, v)
                            s.cells[o.cell] = empty_map(kv.ty, vv.ty)
                            nt = MAP(kv.ty, vv.ty)
                            for kk, x in list(s.env.items()):
                                if isinstance(x, Ptr) and x.cell == o.cell and not x.path:
                                    s.env[kk] = Ptr(o.cell, (), nt)
                            o = Ptr(o.cell, (), nt)
                        if not isinstance(o.ty.v, OPT) and not o.path and not isinstance(v, (Conc, PTuple)) and (self.rvc(s, v).ty == UNIT or isinstance(self.rvc(s, v).ty, OPT)):
                            nt = MAP(o.ty.k, OPT(o.ty.v))
                            s.cells[o.cell] = core.coerce(s.cells[o.cell], nt)
                            self.retype(s, o.cell, nt)
                            o = Ptr(o.cell, (), nt)
                        kv = self.coerce(self.rvc(s, k), o.ty.k)
                        s.store(o.sub(('k', kv.ls), o.ty.v), self.coerce(self.rvc(s, v), o.ty.v))
                        out.append(s)
                    elif isinstance(o, Ptr) and isinstance(o.ty, LIST):
                        i = self.index(s, s.load(o), self.nn(s, k, 'index').t, t)
                        s.store(o.sub(('i', (i,)), o.ty.t), self.coerce(self.rvc(s, v), o.ty.t))
                        out.append(s)
                    elif isinstance(o, Ptr) and isinstance(o.ty, REC) and o.ty.isdict:
                        f = self.dictkey(s, o.ty, k)
                        fty = o.ty.fields[f]
                        s.store(o.sub(('f', f), fty), self.coerce(self.rvc(s, v), fty))
                        out.append(s)
                    else:
                        raise Unsupported('subscript store')
            return out
        raise Unsupported('assign target %s' % type(t).__name__)

    def dictkey(self, st, ty, k):
        kv = z3.simplify(self.rv(st, k).t)
        if not z3.is_string_value(kv):
            raise Unsupported('symbolic key of %s' % ty.name)
        k = unz(kv)
        if k not in ty.fields:
            raise Unsupported('key %s of %s' % (k, ty.name))
        return k

    def nn(self, st, v, what='argument'):
        """value of an argument that must not be None"""
        v = self.rv(st, v)
        if isinstance(v.ty, OPT):
            self.oblige('%s-is-not-None' % what, st, v.some, 'implicit')
            st.add(v.some)
            v = v.val
        return v

    def rvc(self, st, v):
        """rvalue but keep Conc (for CODE coercions)"""
        return v if isinstance(v, Conc) else self.rv(st, v)

    def index(self, st, lv, i, node):
        j = z3.If(i < 0, i + lv.len, i)
        j = z3.simplify(j)
        ok = z3.And(0 <= j, j < lv.len)
        if self.cur and self.cur.check_bounds:
            self.oblige('index-in-bounds@%d' % getattr(node, 'lineno', 0), st, ok)
        st.add(ok)
        return j

    def unpack(self, st, v, n):
        if isinstance(v, Conc) and isinstance(v.obj, (tuple, list)):
            return [self.lit(x) if not isinstance(x, (Val, Ptr, Conc)) else x for x in v.obj]
        if isinstance(v, Conc) and isinstance(v.obj, tuple):
            return list(v.obj)
        if isinstance(v, PTuple):
            return v.items
        v = self.nn(st, v, 'unpacked')
        if isinstance(v.ty, TUP):
            return [v.item(i) for i in range(n)]
        if isinstance(v.ty, LIST):
            return [v.at(i) for i in range(n)]
        raise Unsupported('unpack %s' % v.ty)

    def s_If(self, n, st, fid):
        out = []
        for s, c in self.cond(n.test, st, fid):
            if self.isexc(c):
                out.append((s, ('raise',) + c[1:]))
                continue
            c = z3.simplify(c)
            if z3.is_true(c):
                out += self.block(n.body, s, fid)
            elif z3.is_false(c):
                out += self.block(n.orelse, s, fid)
            else:
                a, b = s.assume(c), s.assume(z3.Not(c))
                ra = self.block(n.body, a, fid) if not self.dead(a) else []
                rb = self.block(n.orelse, b, fid) if not self.dead(b) else []
                out += ra + rb
        nx = self.merge([s for s, oc in out if oc[0] == 'next'])
        return [(s, ('next',)) for s in nx] + [x for x in out if x[1][0] != 'next']

    def cond(self, e, st, fid):
        """-> [(state, z3 Bool)]"""
        out = []
        for s, v in self.ev(e, st, fid):
            out.append((s, v if self.isexc(v) else self.truth(s, v)))
        return out

    def s_Return(self, n, st, fid):
        if n.value is None:
            return [(st, ('return', Val(UNIT, ())))]
        return [(s, ('raise',) + v[1:]) if self.isexc(v) else (s, ('return', v)) for s, v in self.ev(n.value, st, fid)]

    def s_Break(self, n, st, fid):
        return [(st, ('break',))]

    def s_Continue(self, n, st, fid):
        return [(st, ('continue',))]

    def s_FunctionDef(self, n, st, fid):
        s = st.copy()
        s.env[(fid, n.name)] = Conc(('closure', Closure(n, fid)), _k=id(n))
        return [(s, ('next',))]

    def s_Delete(self, n, st, fid):
        return [(st, ('next',))]

    def s_Assert(self, n, st, fid):
        out = []
        for s, c in self.cond(n.test, st, fid):
            if self.isexc(c):
                out.append((s, ('raise',) + c[1:]))
                continue
            if self.cur is None or self.cur.asserts == 'prove':
                self.oblige('assert@%d' % n.lineno, s, c)
            out.append((s.assume(c), ('next',)))
        return out

    def s_Raise(self, n, st, fid):
        if n.exc is None:
            return [(st, ('raise', 'reraise', None))]
        name = None
        e = n.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        return [(st, ('raise', name or '?', None))]

    def exc_matches(self, hname, ename):
        if hname in ('Exception', 'BaseException', None):
            return True
        if hname == ename:
            return True
        bases = {'FixIncludesError': ['Exception'], 'UnicodeDecodeError': ['UnicodeError', 'ValueError'],
                 'IOError': ['OSError', 'IOError'], 'OSError': ['OSError', 'IOError'], 'FileNotFoundError': ['OSError', 'IOError'],
                 'UnicodeError': ['ValueError'], 'KeyError': ['LookupError'], 'IndexError': ['LookupError']}
        return hname in bases.get(ename, [])

    def s_Try(self, n, st, fid):
        out = []
        for s, oc in self.block(n.body, st, fid):
            if oc[0] == 'raise':
                handled = False
                for h in n.handlers:
                    names = []
                    if h.type is None:
                        names = [None]
                    elif isinstance(h.type, ast.Tuple):
                        names = [getattr(x, 'id', getattr(x, 'attr', '?')) for x in h.type.elts]
                    else:
                        names = [getattr(h.type, 'id', getattr(h.type, 'attr', '?'))]
                    if any(self.exc_matches(nm, oc[1]) for nm in names):
                        s2 = s.copy()
                        if h.name:
                            s2.env[(fid, h.name)] = Conc(('excval', oc[1]))
                        out += self.block(h.body, s2, fid)
                        handled = True
                        break
                if not handled:
                    out.append((s, oc))
            elif oc[0] == 'next' and n.orelse:
                out += self.block(n.orelse, s, fid)
            else:
                out.append((s, oc))
        if n.finalbody:
            o2 = []
            for s, oc in out:
                for s3, oc3 in self.block(n.finalbody, s, fid):
                    o2.append((s3, oc if oc3[0] == 'next' else oc3))
            out = o2
        nx = self.merge([s for s, oc in out if oc[0] == 'next'])
        return [(s, ('next',)) for s in nx] + [x for x in out if x[1][0] != 'next']

    def s_With(self, n, st, fid):
        sts = [(st, None)]
        out = []
        for item in n.items:
            ns = []
            for s, _ in sts:
                for s2, v in self.ev(item.context_expr, s, fid):
                    if self.isexc(v):
                        out.append((s2, ('raise',) + v[1:]))
                        continue
                    if item.optional_vars is not None:
                        for s3 in self.assign(item.optional_vars, v, s2.copy(), fid):
                            ns.append((s3, None))
                    else:
                        ns.append((s2, None))
            sts = ns
        for s, _ in sts:
            out += self.block(n.body, s, fid)
        return out

    # ------------------------------------------------------------------ loops
    def s_For(self, n, st, fid):
        out = []
        for s, itv in self.ev(n.iter, st, fid):
            if self.isexc(itv):
                out.append((s, ('raise',) + itv[1:]))
                continue
            h = self.iter_hook(s, itv, n, fid)
            if h is not None:
                out += h
                continue
            s = s.copy()
            it = self.to_iter(s, itv)
            for f in it.facts:
                s.add(f)
            nn = z3.simplify(it.n)
            if z3.is_int_value(nn) and nn.as_long() <= 24 and (it.src is None or nn.as_long() == 0 or isinstance(itv, (Conc, PTuple))):
                out += self.unroll(n, s, fid, it, nn.as_long())
            else:
                def body(s, idx):
                    s = s.copy()
                    rs = self.assign(n.target, it.at(s, idx), s, fid)
                    o = []
                    for r in rs:
                        o += self.block(n.body, r, fid)
                    return o
                out += self.loop(n, s, fid, it, None, body, n.orelse)
        return out

    def iter_hook(self, s, itv, n, fid):
        """Iteration over an iterator object (position persists after a break)."""
        if isinstance(itv, Ptr) and isinstance(itv.ty, REC) and itv.ty.name == '$lineiter':
            # while pos < len(lines): line = lines[pos]; pos += 1; body
            def condf(s, fid):
                v = s.load(itv)
                return [(s, v.f('pos').t < v.f('lines').len)]

            def body(s, idx):
                s = s.copy()
                v = s.load(itv)
                x = v.f('lines').at(v.f('pos').t)
                s.store(itv.sub(('f', 'pos'), INT), vint(v.f('pos').t + 1))
                o = []
                for r in self.assign(n.target, x, s, fid):
                    o += self.block(n.body, r, fid)
                return o
            return self.loop(n, s, fid, None, condf, body, n.orelse)
        return None

    def unroll(self, n, st, fid, it, cnt):
        cur = [st]
        done = []
        for i in range(cnt):
            nxt = []
            for s in cur:
                s = s.copy()
                for r in self.assign(n.target, it.at(s, z3.IntVal(i)), s, fid):
                    for s2, oc in self.block(n.body, r, fid):
                        if oc[0] in ('next', 'continue'):
                            nxt.append(s2)
                        elif oc[0] == 'break':
                            done.append((s2, ('next',)))
                        else:
                            done.append((s2, oc))
            cur = [c for c in self.merge(nxt)]
            if len(cur) > 1:
                cur = [c for c in cur if not self.dead(c)]
        for s in cur:
            done += self.block(n.orelse, s, fid) if n.orelse else [(s, ('next',))]
        nx = self.merge([s for s, oc in done if oc[0] == 'next'])
        return [(s, ('next',)) for s in nx] + [x for x in done if x[1][0] != 'next']

    def s_While(self, n, st, fid):
        def body(s, idx):
            return self.block(n.body, s, fid)
        return self.loop(n, st, fid, None, lambda s, f: self.cond(n.test, s, f), body, n.orelse)

    def havoc(self, st, written, pre):
        """fresh values for everything the loop may write."""
        h = st.copy()
        for kind, key, leaf in written:
            if kind == 'cell':
                if key not in h.cells:
                    continue
                v = h.cells[key]
                ls = list(v.ls)
                if leaf < len(ls):
                    ls[leaf] = z3.Const(fresh_name('h'), ls[leaf].sort())
                h.cells[key] = Val(v.ty, ls)
            elif kind == 'ghost':
                h.ghost[key] = h.ghost[key].ty.fresh('g_' + key)
            elif kind == 'env':
                cur = h.env.get(key, UNDEF)
                if leaf == 'undef':
                    h.env[key] = UNDEF
                elif isinstance(leaf, tuple) and leaf[0] == 'val':
                    h.env[key] = leaf[1].fresh('v_%s' % key[1])
                    self.range_facts(h, h.env[key])
                elif isinstance(leaf, tuple) and leaf[0] == 'ptr':
                    h.env[key] = h.new_cell(leaf[1].fresh('p_%s' % key[1]), 'hp')
                    self.range_facts(h, h.load(h.env[key]))
        for kind, key, leaf in written:
            if kind == 'cell' and leaf == 0 and key in h.cells and isinstance(h.cells[key].ty, LIST):
                h.add(h.cells[key].len >= 0)
        return h

    def range_facts(self, st, v):
        if isinstance(v.ty, LIST):
            st.add(v.len >= 0)

    def diff(self, a, b, fid, written):
        """what changed between loop head state a and back-edge state b"""
        ch = set()
        for k, va in a.cells.items():
            vb = b.cells.get(k)
            if vb is None or vb is va:
                continue
            if vb.ty != va.ty:
                raise RetypeNeeded(k, vb.ty)
            for i, (x, y) in enumerate(zip(va.ls, vb.ls)):
                if not z3.eq(x, y):
                    ch.add(('cell', k, i))
        for k, ga in a.ghost.items():
            if not same_leaves(ga, b.ghost[k]):
                ch.add(('ghost', k, 0))
        live = set(self.frames_live)
        for k, vb in b.env.items():
            if k[0] not in live:
                continue
            va = a.env.get(k, UNDEF)
            if va is vb:
                continue
            if va is UNDEF:
                if isinstance(vb, Val):
                    ch.add(('env', k, ('val', vb.ty)))
                elif isinstance(vb, Ptr) and not vb.path:
                    ch.add(('env', k, 'undef'))
                else:
                    ch.add(('env', k, 'undef'))
                continue
            if isinstance(va, Val) and isinstance(vb, Val):
                if va.ty == vb.ty:
                    if not same_leaves(va, vb):
                        ch.add(('env', k, ('val', va.ty)))
                else:
                    j = join_types(va.ty, vb.ty)
                    if j is None:
                        ch.add(('env', k, 'undef'))
                    else:
                        ch.add(('env', k, ('val', j)))
            elif isinstance(va, Ptr) and isinstance(vb, Ptr):
                if not va.same(vb):
                    if va.ty == vb.ty and not vb.path:
                        ch.add(('env', k, ('ptr', va.ty)))
                    elif va.ty == vb.ty:
                        ch.add(('env', k, 'undef'))
                    elif isinstance(va.ty, LIST) and va.ty.t == UNIT:
                        ch.add(('env', k, ('ptr', vb.ty)))
                    else:
                        ch.add(('env', k, 'undef'))
            elif isinstance(va, Conc) and isinstance(vb, Conc) and va.obj is vb.obj:
                pass
            else:
                ch.add(('env', k, 'undef'))
        return ch

    def loop(self, node, st, fid, it, condf, body, orelse):
        for attempt in range(4):
            try:
                return self._loop(node, st, fid, it, condf, body, orelse)
            except RetypeNeeded as r:
                # an empty container of unknown element type got its type inside the loop
                st = st.copy()
                old = st.cells.get(r.cell)
                if old is None:
                    raise Unsupported('retype')
                st.cells[r.cell] = core.coerce(old, r.ty) if not isinstance(r.ty, LIST) else (
                    empty_list(r.ty.t) if isinstance(old.ty.t, core._Unit) else core.coerce(old, r.ty))
                self.retype(st, r.cell, r.ty)
        raise Unsupported('loop retype')

    def inloop(self, body, s, idx, it):
        self.loopstack.append((idx, it))
        try:
            return body(s, idx)
        finally:
            self.loopstack.pop()

    def _loop(self, node, st, fid, it, condf, body, orelse):
        # 1. discovery of the write set
        written = set()
        self.quiet += 1
        try:
            for _ in range(8):
                h = self.havoc(st, written, st)
                idx = z3.Int(fresh_name('idx'))
                h.add(idx >= 0)
                starts = []
                if it is not None:
                    starts = [h.assume(idx < it.n)]
                else:
                    for s, c in condf(h, fid):
                        if not self.isexc(c):
                            starts.append(s.assume(c))
                new = set()
                backs = []
                for s in starts:
                    for s2, oc in self.inloop(body, s, idx, it):
                        if oc[0] in ('next', 'continue'):
                            new |= self.diff(h, s2, fid, written)
                            backs.append(s2)
                if it is None:
                    for s, c in condf(h, fid):
                        new |= self.diff(h, s, fid, written)
                add = {w for w in new if w not in written}
                # an undef record supersedes others for the same variable
                und = {(w[0], w[1]) for w in written | add if w[2] == 'undef'}
                add = {w for w in add if w[2] == 'undef' or (w[0], w[1]) not in und}
                if not add:
                    break
                written = {w for w in written if w[0] != 'env' or w[2] == 'undef' or (w[0], w[1]) not in und} | add
                # several types for one variable: keep the joined one
                byvar = {}
                for w in list(written):
                    if w[0] == 'env' and isinstance(w[2], tuple) and w[2][0] == 'val':
                        if w[1] in byvar:
                            j = join_types(byvar[w[1]][2][1], w[2][1])
                            written.discard(w)
                            written.discard(byvar[w[1]])
                            nw = ('env', w[1], ('val', j)) if j is not None else ('env', w[1], 'undef')
                            written.add(nw)
                            byvar[w[1]] = nw
                        else:
                            byvar[w[1]] = w
            else:
                raise Unsupported('loop write-set does not stabilise')
        finally:
            self.quiet -= 1
        # joined types at entry
        st = st.copy()
        for w in written:
            if w[0] == 'env' and isinstance(w[2], tuple) and w[2][0] == 'val':
                cur = st.env.get(w[1], UNDEF)
                if isinstance(cur, Val) and cur.ty != w[2][1]:
                    st.env[w[1]] = self.coerce(cur, w[2][1])
        # 2. candidate invariants
        counters = self.counters(written, h, backs)
        limits = self.limits(written, h, fid, condf, counters) if it is None and counters else []
        kkey = (node if hasattr(node, "n") else id(node), self.depth)
        keep = []
        if not self.quiet:
            cached = self.loop_keep.get(kkey)
            for i, f in enumerate(self.cands(st, fid, z3.IntVal(0), it, st, counters, limits)):
                if f is None or (cached is not None and i not in cached):
                    continue
                v, be, _ = self.p.prove(st.pc, f, timeout=self.cur.inv_timeout, fallback='brief')
                if v == 'proved':
                    keep.append(i)
                elif DEBUG:
                    print('INIT drop', i, 'line', getattr(node, 'lineno', '?'), v)
        while True:
            mark = len(self.obls)
            h = self.havoc(st, written, st)
            idx = z3.Int(fresh_name('idx'))
            h.add(idx >= 0)
            if it is not None:
                h.add(idx <= z3.If(it.n > 0, it.n, 0))
            if self.cur and self.cur.defs:
                # instances of the recursive definitions of specification functions
                L = LoopCtx(self, None, self.entry, self.args, h, idx, it, st, fid)
                for d in self.cur.defs(L, idx):
                    h.add(d)
            cands = self.cands(h, fid, idx, it, st, counters, limits)
            for i in keep:
                if i < len(cands) and cands[i] is not None:
                    h.add(cands[i])
            outs = []
            starts, exits = [], []
            if it is not None:
                starts = [h.assume(idx < it.n)]
                exits = [h.assume(idx == z3.If(it.n > 0, it.n, 0))]
            else:
                for s, c in condf(h, fid):
                    if self.isexc(c):
                        outs.append((s, ('raise',) + c[1:]))
                        continue
                    c = z3.simplify(c)
                    if not z3.is_false(c):
                        starts.append(s.assume(c))
                    if not z3.is_true(c):
                        exits.append(s.assume(z3.Not(c)))
            back = []
            for s in starts:
                if self.dead(s):
                    continue
                for s2, oc in self.inloop(body, s, idx, it):
                    if oc[0] in ('next', 'continue'):
                        back.append(s2)
                    elif oc[0] == 'break':
                        outs.append((s2, ('next',)))
                    else:
                        outs.append((s2, oc))
            back = self.merge(back)
            bad = set()
            for s2 in back:
                cs = self.cands(s2, fid, idx + 1, it, st, counters, limits)
                for i in keep:
                    if i in bad:
                        continue
                    if i >= len(cs) or cs[i] is None:
                        bad.add(i)
                        continue
                    v, be, _ = self.p.prove(s2.pc, cs[i], timeout=self.cur.inv_timeout, fallback=self.cur.cons)
                    if v != 'proved':
                        bad.add(i)
                        if DEBUG:
                            print('CONS drop', i, 'line', getattr(node, 'lineno', '?'), v)
                            sv = z3.Solver()
                            sv.add(*s2.pc)
                            sv.add(z3.Not(cs[i]))
                            open('/tmp/cons_%d_%s.smt2' % (i, getattr(node, 'lineno', '?')), 'w').write(sv.to_smt2())
            if not bad:
                if not self.quiet:
                    self.loop_keep[kkey] = keep
                    self.p.stats.aux += len(keep) * (1 + len(back))
                break
            keep = [i for i in keep if i not in bad]
            del self.obls[mark:]
        for s in exits:
            if it is None and self.dead(s):
                continue
            if it is not None and isinstance(node, ast.For) and isinstance(node.target, ast.Name):
                s = s.copy()
                key = (fid, node.target.id)
                last = it.at(s, it.n - 1)
                cur = st.env.get(key, UNDEF)
                if isinstance(last, Val) and isinstance(cur, Val) and cur.ty == last.ty:
                    s.env[key] = ite(it.n > 0, last, cur)
                elif isinstance(last, Val):
                    s.env[key] = last       # (unbound when the sequence is empty)
                else:
                    s.env[key] = UNDEF
            outs += self.block(orelse, s, fid) if orelse else [(s, ('next',))]
        nx = self.merge([s for s, oc in outs if oc[0] == 'next'])
        return [(s, ('next',)) for s in nx] + [x for x in outs if x[1][0] != 'next']

    def counters(self, written, h, backs):
        """integer variables that every iteration moves by plus or minus one"""
        out = []
        if not backs or not self.cur or not self.cur.inv:
            return out
        for w in sorted(written, key=str):
            get = (lambda s: s.cells.get(w[1])) if w[0] == 'cell' else (lambda s: s.env.get(w[1])) if w[0] == 'env' else (lambda s: None)
            a = get(h)
            if not isinstance(a, Val) or a.ty != INT:
                continue
            for d in (1, -1):
                if all(isinstance(get(b), Val) and get(b).ty == INT and self.moves(a.t, get(b).t, d) for b in backs):
                    out.append((w, d))
        return out

    @staticmethod
    def moves(a, b, d):
        x = z3.simplify(b - a)
        if z3.is_int_value(x):
            return x.as_long() == d
        if b.num_args() != 3:
            return False
        sv = z3.Solver()        # unsigned arithmetic away from its ends
        sv.set('timeout', 200)
        sv.add(a > 0, a < 2 ** 31, b != a + d)
        return sv.check() == z3.unsat

    def cands(self, st, fid, idx, it, pre, counters, limits):
        """the candidate invariants: those of the contract, then counters that move by one per iteration"""
        out = self.inv_at(st, fid, idx, it, pre)
        for (kind, key, _), d in counters:
            a = pre.cells.get(key) if kind == 'cell' else pre.env.get(key)
            b = st.cells.get(key) if kind == 'cell' else st.env.get(key)
            if isinstance(a, Val) and isinstance(b, Val) and a.ty == INT and b.ty == INT:
                out.append(b.t == a.t + d * idx)
            else:
                out.append(None)
        for w, d, t in limits:
            b = st.cells.get(w[1]) if w[0] == 'cell' else st.env.get(w[1])
            out.append((b.t <= t if d > 0 else b.t >= t) if isinstance(b, Val) and b.ty == INT else None)
        return out

    def limits(self, written, h, fid, condf, counters):
        """the terms, unchanged by the loop, that its condition compares a counter with"""
        val = lambda w: h.cells.get(w[1]) if w[0] == 'cell' else h.env.get(w[1])
        fresh = set()
        for w in written:
            if w[0] in ('cell', 'env') and isinstance(val(w), Val):
                for l in val(w).ls:
                    fresh |= consts_of(l)
        out = []
        self.quiet += 1
        try:
            conds = [c for s, c in condf(h, fid) if not self.isexc(c)]
        except Unsupported:
            conds = []
        finally:
            self.quiet -= 1
        seen = set()

        def walk(e):
            if e.get_id() in seen or z3.is_quantifier(e):
                return
            seen.add(e.get_id())
            if z3.is_eq(e) or z3.is_le(e) or z3.is_ge(e) or z3.is_lt(e) or z3.is_gt(e) or z3.is_distinct(e):
                a, b = e.children()[:2]
                for x, y in ((a, b), (b, a)):
                    for w, d in counters:
                        if x.eq(val(w).t) and not (consts_of(y) & fresh):
                            out.append((w, d, y))
            for k in e.children():
                walk(k)
        for c in conds:
            walk(c)
        return out[:6]

    def inv_at(self, st, fid, idx, it, pre):
        if not self.cur or not self.cur.inv:
            return []
        L = LoopCtx(self, None, self.entry, self.args, st, idx, it, pre, fid)
        out = []
        for f in self.cur.inv:
            try:
                r = f(L)
                if isinstance(r, bool):
                    r = z3.BoolVal(r)
            except (KeyError, Unsupported, AttributeError, TypeError, z3.Z3Exception, IndexError, AssertionError) as e:
                if DEBUG:
                    import traceback; print("INV error", type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-3:])
                r = None
            out.append(r)
        return out

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fid):
        """-> list of (state, value | ('exc', name, val))"""
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s line %s' % (type(e).__name__, getattr(e, 'lineno', '?')))
        return m(e, st, fid)

    def evs(self, es, st, fid):
        """evaluate a list of expressions -> [(state, [values])] (exceptions propagate as ('exc',..))"""
        cur = [(st, [])]
        exc = []
        for e in es:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(e, s, fid):
                    if self.isexc(v):
                        exc.append((s2, v))
                    else:
                        nxt.append((s2, vs + [v]))
            cur = nxt
        return cur, exc

    def e_Constant(self, e, st, fid):
        return [(st, self.lit(e.value))]

    def e_Name(self, e, st, fid):
        v = self.lookup(st, fid, e.id)
        if v is UNDEF:
            raise Unsupported('maybe-undefined variable %s' % e.id)
        return [(st, v)]

    def e_Tuple(self, e, st, fid):
        cur, exc = self.evs(e.elts, st, fid)
        out = []
        for s, vs in cur:
            if all(isinstance(v, (Conc,)) for v in vs) or any(isinstance(v, (Conc, Ptr)) for v in vs):
                out.append((s, PTuple(vs)))
            else:
                out.append((s, vtup(*vs) if vs else PTuple([])))
        return out + exc

    def e_List(self, e, st, fid):
        cur, exc = self.evs(e.elts, st, fid)
        out = []
        for s, vs in cur:
            s = s.copy()
            if not vs:
                out.append((s, s.new_cell(Val(LIST(UNIT), (z3.IntVal(0),)), 'l')))
            elif all(isinstance(v, Conc) and isinstance(v.obj, re.Pattern) for v in vs):
                out.append((s, PTuple(vs)))
            else:
                rs = [self.rv(s, v) for v in vs]
                t = rs[0].ty
                for r in rs[1:]:
                    t = join_types(t, r.ty)
                    if t is None:
                        out.append((s, PTuple(vs)))
                        break
                else:
                    out.append((s, s.new_cell(lst(*[self.coerce(r, t) for r in rs]), 'l')))
        return out + exc

    def e_Set(self, e, st, fid):
        cur, exc = self.evs(e.elts, st, fid)
        out = []
        for s, vs in cur:
            s = s.copy()
            rs = [self.rv(s, v) for v in vs]
            v = empty_set(rs[0].ty)
            for r in rs:
                v = Val(v.ty, (z3.Store(v.t, *(list(r.ls) + [z3.BoolVal(True)])),))
            out.append((s, s.new_cell(v, 's')))
        return out + exc

    def e_Dict(self, e, st, fid):
        if not e.keys:
            s = st.copy()
            return [(s, s.new_cell(Val(MAP(UNIT, UNIT), (z3.Const('emptymap', z3.ArraySort(z3.IntSort(), z3.BoolSort())),)), 'm'))]
        raise Unsupported('dict literal')

    def e_BoolOp(self, e, st, fid):
        isand = isinstance(e.op, ast.And)

        def rec(i, s):
            rs = self.ev(e.values[i], s, fid)
            if i == len(e.values) - 1:
                return rs
            out = []
            for s2, v in rs:
                if self.isexc(v):
                    out.append((s2, v))
                    continue
                c = z3.simplify(self.truth(s2, v))
                go = c if isand else z3.Not(c)
                if z3.is_true(z3.simplify(go)):
                    out += rec(i + 1, s2)
                elif z3.is_false(z3.simplify(go)):
                    out.append((s2, v))
                else:
                    a = s2.assume(go)
                    stay = s2.assume(z3.Not(go))
                    if self.dead(a):
                        out.append((s2, v))
                        continue
                    rest = rec(i + 1, a)
                    # value of the short-circuited operand: as a bool when types differ
                    alls = [(stay, v)] + rest
                    mg = merge_states(alls)
                    if len(mg) > 1:
                        # fall back on truth values (exact for conditions)
                        conv = []
                        ok = all(not self.isexc(x[1]) for x in alls)
                        if ok:
                            conv = [(x, Val(BOOL, (self.truth(x, y),))) for x, y in alls]
                            mg2 = merge_states(conv)
                            if len(mg2) < len(mg):
                                mg = mg2
                    out += mg
            return out
        return rec(0, st)

    def e_UnaryOp(self, e, st, fid):
        out = []
        for s, v in self.ev(e.operand, st, fid):
            if self.isexc(v):
                out.append((s, v))
                continue
            if isinstance(e.op, ast.Not):
                out.append((s, vbool(z3.Not(self.truth(s, v)))))
            elif isinstance(e.op, ast.USub):
                out.append((s, Val(v.ty, (-v.t,))))
            elif isinstance(e.op, ast.UAdd):
                out.append((s, v))
            else:
                raise Unsupported('unary')
        return out

    def e_IfExp(self, e, st, fid):
        out = []
        for s, c in self.cond(e.test, st, fid):
            if self.isexc(c):
                out.append((s, c))
                continue
            c = z3.simplify(c)
            if z3.is_true(c):
                out += self.ev(e.body, s, fid)
                continue
            if z3.is_false(c):
                out += self.ev(e.orelse, s, fid)
                continue
            a, b = s.assume(c), s.assume(z3.Not(c))
            rs = []
            if not self.dead(a):
                rs += self.ev(e.body, a, fid)
            if not self.dead(b):
                rs += self.ev(e.orelse, b, fid)
            out += self.merge_vals(rs)
        return out

    def merge_vals(self, rs):
        ex = [r for r in rs if self.isexc(r[1])]
        ok = [r for r in rs if not self.isexc(r[1])]
        # PTuple with identical layout: keep separate
        return merge_states(ok) + ex

    def e_Compare(self, e, st, fid):
        cur, exc = self.evs([e.left] + e.comparators, st, fid)
        out = list(exc)
        for s, vs in cur:
            fs = []
            for op, a, b in zip(e.ops, vs, vs[1:]):
                fs.append(self.compare(s, op, a, b))
            out.append((s, vbool(z3.And(*fs) if len(fs) > 1 else fs[0])))
        return out

    def pyeq(self, st, a, b):
        if isinstance(a, Conc) and isinstance(b, Conc):
            return z3.BoolVal(a.obj is b.obj or (not isinstance(a.obj, re.Pattern) and a.obj == b.obj))
        if isinstance(a, PTuple) or isinstance(b, PTuple):
            ia = a.items if isinstance(a, PTuple) else self.unpack(st, a, len(b.items))
            ib = b.items if isinstance(b, PTuple) else self.unpack(st, b, len(a.items))
            if len(ia) != len(ib):
                return z3.BoolVal(False)
            return z3.And([self.pyeq(st, x, y) for x, y in zip(ia, ib)])
        if isinstance(a, Conc) or isinstance(b, Conc):
            c, v = (a, b) if isinstance(a, Conc) else (b, a)
            v = self.rv(st, v)
            if v.ty == CODE:
                return v.t == self.codes.code(c.obj)
            if isinstance(v.ty, OPT) and v.ty.t == CODE:
                return z3.And(v.some, v.val.t == self.codes.code(c.obj))
            if v.ty == UNIT:
                return z3.BoolVal(False)
            return self.pyeq(st, v, self.conc_val(c))
        a, b = self.rv(st, a), self.rv(st, b)
        if a.ty == b.ty:
            return eq(a, b)
        if a.ty == UNIT or b.ty == UNIT:
            return self.is_none(st, b if a.ty == UNIT else a)
        ia = a.ty.t if isinstance(a.ty, OPT) else a.ty
        ib = b.ty.t if isinstance(b.ty, OPT) else b.ty
        if isinstance(ia, LIST) and isinstance(ib, LIST) and (ia.t == UNIT or ib.t == UNIT):
            return a.len == b.len
        if isinstance(ia, Prim) and isinstance(ib, Prim) and ia != ib and not ({ia, ib} <= {INT, REAL, BOOL, CODE}):
            return z3.BoolVal(False)
        if {ia, ib} == {INT, BOOL}:
            return self.coerce(a, INT).t == self.coerce(b, INT).t
        if {ia, ib} == {INT, REAL} and ia is a.ty and ib is b.ty:
            return self.coerce(a, REAL).t == self.coerce(b, REAL).t
        return eq(a, b)

    def is_none(self, st, v):
        if isinstance(v, Conc):
            return z3.BoolVal(v.obj is None)
        if isinstance(v, (Ptr, PTuple)):
            return z3.BoolVal(False)
        if v.ty == UNIT:
            return z3.BoolVal(True)
        if v.ty == CODE:
            return v.t == self.code_none
        if isinstance(v.ty, OPT):
            return z3.Not(v.some)
        return z3.BoolVal(False)

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_none(st, a) if (isinstance(b, Val) and b.ty == UNIT) else self.pyeq(st, a, b)
            return z3.Not(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, ast.Eq):
            return self.pyeq(st, a, b)
        if isinstance(op, ast.NotEq):
            return z3.Not(self.pyeq(st, a, b))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(st, b, a)
            return z3.Not(r) if isinstance(op, ast.NotIn) else r
        a, b = self.rv(st, a), self.rv(st, b)
        if a.ty == STR and b.ty == STR:
            x = {ast.Lt: lambda: a.t < b.t, ast.LtE: lambda: a.t <= b.t, ast.Gt: lambda: b.t < a.t, ast.GtE: lambda: b.t <= a.t}
            return x[type(op)]()
        if isinstance(a.ty, OPT):
            a = a.val
        if isinstance(b.ty, OPT):
            b = b.val
        if a.ty == CODE:
            a = Val(INT, a.ls)
        if b.ty == CODE:
            b = Val(INT, b.ls)
        if a.ty != b.ty:
            j = join_types(a.ty, b.ty)
            if j is None:
                raise Unsupported('compare %s %s' % (a.ty, b.ty))
            a, b = self.coerce(a, j), self.coerce(b, j)
        if isinstance(op, ast.Lt):
            return a.t < b.t
        if isinstance(op, ast.LtE):
            return a.t <= b.t
        if isinstance(op, ast.Gt):
            return a.t > b.t
        if isinstance(op, ast.GtE):
            return a.t >= b.t
        raise Unsupported('compare op')

    def contains(self, st, c, x):
        if isinstance(c, PTuple):
            fs = [self.pyeq(st, x, y) for y in c.items]
            return z3.Or(fs) if fs else z3.BoolVal(False)
        if isinstance(c, Conc):
            o = c.obj
            if isinstance(o, (tuple, list, frozenset, set, dict)):
                items = sorted(o, key=repr) if isinstance(o, (set, frozenset)) else list(o)
                fs = [self.pyeq(st, x, self.lit(y)) for y in items]
                return z3.Or(fs) if fs else z3.BoolVal(False)
            raise Unsupported('in %r' % (o,))
        v = self.rv(st, c)
        t = v.ty
        if isinstance(t, REC):
            h = self.models.get('in:' + t.name)
            if h:
                return h(self, st, c, x)
            if t.isdict:
                f = self.dictkey(st, t, x)
                return v.f(f).some if isinstance(t.fields[f], OPT) else z3.BoolVal(True)
            if 'storage' in t.fields:
                return self.contains(st, v.f('storage'), x)
        if isinstance(t, (SET, MAP)):
            if t.k == UNIT:
                return z3.BoolVal(False)
            k = self.coerce(self.rvc(st, x), t.k)
            return z3.Select(v.ls[0], *k.ls)
        if t == STR:
            return z3.Contains(v.t, self.rv(st, x).t)
        if isinstance(t, LIST):
            n = z3.simplify(v.len)
            if t.t == UNIT:
                return z3.BoolVal(False)
            if z3.is_int_value(n):
                return z3.Or([self.pyeq(st, x, v.at(i)) for i in range(n.as_long())])
            i = z3.Int(fresh_name('i'))
            xv = self.coerce(self.rvc(st, x), t.t)
            return z3.Exists([i], z3.And(0 <= i, i < v.len, eq(v.at(i), xv)))
        if isinstance(t, OPT):
            return self.contains(st, v.val, x)
        if isinstance(t, TUP):
            return z3.Or([self.pyeq(st, x, v.item(i)) for i in range(len(t.ts))])
        raise Unsupported('in %s' % (t,))

    def e_BinOp(self, e, st, fid):
        cur, exc = self.evs([e.left, e.right], st, fid)
        out = list(exc)
        for s, (a, b) in cur:
            out += self.binop(s.copy(), e.op, a, b, e)
        return out

    def binop(self, s, op, a, b, e):
        if isinstance(op, ast.Mod):
            if isinstance(a, Val) and a.ty == STR:
                return [(s, self.fmt(s, a, b, e))]
        if isinstance(op, ast.Mult) and isinstance(a, Ptr) and isinstance(a.ty, LIST):
            return [(s, s.new_cell(self.repeat(s, s.load(a), self.rv(s, b).t), 'l'))]
        if isinstance(a, PTuple) and isinstance(b, PTuple):
            return [(s, PTuple(a.items + b.items))]
        x, y = self.rv(s, a), self.rv(s, b)
        if isinstance(x.ty, OPT):
            x = x.val
        if isinstance(y.ty, OPT):
            y = y.val
        if isinstance(op, ast.Add):
            if x.ty == STR and y.ty == STR:
                return [(s, vstr(z3.Concat(x.t, y.t)))]
            if isinstance(x.ty, LIST):
                return [(s, s.new_cell(self.concat(s, x, y), 'l'))]
            if isinstance(x.ty, TUP):
                return [(s, vtup(*([x.item(i) for i in range(len(x.ty.ts))] + [y.item(i) for i in range(len(y.ty.ts))])))]
        if x.ty == STR and isinstance(op, ast.Mult):
            k = z3.simplify(y.t)
            return [(s, self.strrep(s, x, y))]
        if x.ty == BOOL:
            x = self.coerce(x, INT)
        if y.ty == BOOL:
            y = self.coerce(y, INT)
        if x.ty != y.ty:
            j = join_types(x.ty, y.ty)
            if j is None:
                raise Unsupported('binop %s %s' % (x.ty, y.ty))
            x, y = self.coerce(x, j), self.coerce(y, j)
        if isinstance(x.ty, SET):
            nm = {ast.BitOr: 'union', ast.BitAnd: 'intersection', ast.Sub: 'difference'}.get(type(op))
            if nm is None:
                raise Unsupported('set binop')
            return self.set_method(s, x, nm, [y])
        if isinstance(op, ast.Add):
            return [(s, Val(x.ty, (x.t + y.t,)))]
        if isinstance(op, ast.Sub):
            return [(s, Val(x.ty, (x.t - y.t,)))]
        if isinstance(op, ast.Mult):
            return [(s, Val(x.ty, (x.t * y.t,)))]
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            d = z3.simplify(y.t)
            if not (z3.is_int_value(d) and d.as_long() > 0):
                raise Unsupported('division by non-constant')
            return [(s, vint(x.t / y.t if isinstance(op, ast.FloorDiv) else x.t % y.t))]
        raise Unsupported('binop %s' % type(op).__name__)

    def strrep(self, s, x, y):
        """x * n for a one-character string: a string of n such characters"""
        r = uf('str.repeat', STR, x, y)
        n = y.t
        s.add(z3.Implies(n <= 0, r.t == z3.StringVal('')))
        s.add(z3.Implies(n == 1, r.t == x.t))
        return r

    def repeat(self, s, l, n):
        if z3.simplify(l.len).eq(z3.IntVal(1)):
            v = l.at(0)
            return Val(l.ty, [z3.If(n > 0, n, 0)] + [z3.K(z3.IntSort(), x) for x in v.ls])
        raise Unsupported('list repetition')

    def concat(self, s, x, y):
        if x.ty.t == UNIT:
            return y
        if y.ty.t == UNIT:
            return x
        ny = z3.simplify(y.len)
        if z3.is_int_value(ny) and ny.as_long() <= 6:
            r = x
            for i in range(ny.as_long()):
                r = list_append(r, self.coerce(y.at(i), x.ty.t))
            return r
        nx = z3.simplify(x.len)
        r = LIST(y.ty.t).fresh('cat')
        s.add(r.len == x.len + y.len)
        i = z3.Int(fresh_name('i'))
        if z3.is_int_value(nx) and nx.as_long() <= 6:
            for j in range(nx.as_long()):
                s.add(eq(r.at(j), self.coerce(x.at(j), y.ty.t)))
        else:
            s.add(FA([i], z3.Implies(z3.And(0 <= i, i < x.len), z3.And([p == q for p, q in zip(r.at(i).ls, x.at(i).ls)])),
                            patterns=[r.at(i).ls[0]]))
        s.add(FA([i], z3.Implies(z3.And(0 <= i, i < y.len), z3.And([p == q for p, q in zip(r.at(x.len + i).ls, y.at(i).ls)])),
                        patterns=[y.at(i).ls[0]]))
        s.add(FA([i], z3.Implies(z3.And(x.len <= i, i < r.len), z3.And([p == q for p, q in zip(r.at(i).ls, y.at(i - x.len).ls)])),
                        patterns=[r.at(i).ls[0]]))
        return r

    def to_str(self, s, v):
        v = self.rv(s, v) if not isinstance(v, PTuple) else v
        if isinstance(v, PTuple):
            return uf('str.of_tuple', STR)
        if v.ty == STR:
            return v
        if v.ty == INT:
            return vstr(z3.If(v.t >= 0, z3.IntToStr(v.t), z3.Concat(z3.StringVal('-'), z3.IntToStr(-v.t))))
        if isinstance(v.ty, OPT) and v.ty.t == STR:
            return vstr(z3.If(v.some, v.val.t, z3.StringVal('None')))
        if v.ty == UNIT:
            return vstr('None')
        return uf('str.of.%s' % (v.ty,), STR, *[Val(v.ty, v.ls)])

    def fmt(self, s, a, b, e):
        f = z3.simplify(a.t)
        if not z3.is_string_value(f):
            return uf('str.fmt', STR, a)
        fs = unz(f)
        parts = re.split(r'(%[sdr%])', fs)
        n = sum(1 for p in parts if p in ('%s', '%d', '%r'))
        if isinstance(b, PTuple):
            args = b.items
        elif isinstance(b, Val) and isinstance(b.ty, TUP):
            args = [b.item(i) for i in range(len(b.ty.ts))]
        else:
            args = [b]
        if len(args) != n:
            return STR.fresh('fmt')
        out, k = [], 0
        for p in parts:
            if p in ('%s', '%d', '%r'):
                x = args[k]
                k += 1
                if isinstance(x, Conc) and not isinstance(x.obj, (int, str, type(None))):
                    out.append(z3.StringVal('<obj>'))
                    continue
                if isinstance(x, Ptr):
                    out.append(STR.fresh('fmt').t)
                    continue
                out.append(self.to_str(s, x).t if p != '%r' else STR.fresh('repr').t)
            elif p == '%%':
                out.append(z3.StringVal('%'))
            elif p:
                out.append(zstr(p))
        if not out:
            return vstr('')
        return vstr(z3.Concat(*out) if len(out) > 1 else out[0])

    def e_JoinedStr(self, e, st, fid):
        cur = [(st, [])]
        for v in e.values:
            nxt = []
            for s, acc in cur:
                if isinstance(v, ast.Constant):
                    nxt.append((s, acc + [zstr(v.value)]))
                else:
                    for s2, x in self.ev(v.value, s, fid):
                        nxt.append((s2, acc + [self.to_str(s2, x).t]))
            cur = nxt
        return [(s, vstr(z3.Concat(*a) if len(a) > 1 else (a[0] if a else z3.StringVal('')))) for s, a in cur]

    def e_Lambda(self, e, st, fid):
        return [(st, Conc(('closure', Closure(e, fid))))]

    def e_Attribute(self, e, st, fid):
        dn = dotted(e)
        if dn and self.lookup_local(st, fid, dn.split('.')[0]) is None:
            if 'const:' + dn in self.models:
                return [(st, self.models['const:' + dn])]
            if dn in self.models and '.' in dn:
                return [(st, Conc(('lib', dn)))]
            root = dn.split('.')[0]
            if hasattr(self.m.mod, root) and isinstance(getattr(self.m.mod, root), type(sys)):
                o = getattr(self.m.mod, root)
                parts = dn.split('.')[1:]
                for i, p in enumerate(parts):
                    if isinstance(o, str) and i == len(parts) - 1:
                        return [(st, Conc(('method', self.lit(o), p)))]
                    o = getattr(o, p)
                if isinstance(o, (str, int)):
                    return [(st, self.lit(o))]
                return [(st, Conc(('lib', dn)))]
        out = []
        for s, o in self.ev(e.value, st, fid):
            if self.isexc(o):
                out.append((s, o))
                continue
            out += self.getattr(s, o, e.attr, fid, e)
        return out

    def getattr(self, s, o, attr, fid, node):
        if isinstance(o, Ptr) and isinstance(o.ty, REC):
            if attr in o.ty.fields:
                ft = o.ty.fields[attr]
                p = o.sub(('f', attr), ft)
                if ft.mutable:
                    return [(s, p)]
                return [(s, s.load(p))]
            q = o.ty.name + '.' + attr
            if q in self.m.funcs:
                fn = self.m.funcs[q]
                if any(isinstance(d, ast.Name) and d.id == 'property' for d in fn.decorator_list):
                    return self.call_func(s, q, [o], {}, fid, node)
            cls = self.m.classes.get(o.ty.name)
            if cls is not None and hasattr(getattr(self.m.mod, o.ty.name), attr) and q not in self.m.funcs:
                v = getattr(getattr(self.m.mod, o.ty.name), attr)
                if not callable(v):
                    return [(s, self.lit(v))]
            return [(s, Conc(('method', o, attr)))]
        if isinstance(o, Val) and isinstance(o.ty, REC):
            if attr in o.ty.fields:
                return [(s, o.f(attr))]
            q = o.ty.name + '.' + attr
            h = self.models.get('attr:' + q)
            if h:
                return h(self, s, o)
        if isinstance(o, Val) and 'attr:%s.%s' % (o.ty, attr) in self.models:
            return self.models['attr:%s.%s' % (o.ty, attr)](self, s, o)
        if isinstance(o, Conc):
            c = o.obj
            if isinstance(c, tuple) and c and c[0] == 'class':
                q = c[1] + '.' + attr
                if q in self.m.funcs:
                    return [(s, Conc(('func', q), cls=c[1]))]
                v = getattr(getattr(self.m.mod, c[1]), attr)
                return [(s, self.lit(v))]
            if isinstance(c, re.Pattern) and attr == 'groups':
                return [(s, vint(c.groups))]
        return [(s, Conc(('method', o, attr)))]

    def e_Subscript(self, e, st, fid):
        if isinstance(e.slice, ast.Slice):
            return self.slice(e, st, fid)
        cur, exc = self.evs([e.value, e.slice], st, fid)
        out = list(exc)
        for s, (o, k) in cur:
            s = s.copy()
            if isinstance(o, PTuple):
                i = z3.simplify(self.rv(s, k).t)
                out.append((s, o.items[i.as_long()]))
                continue
            if isinstance(o, Conc) and isinstance(o.obj, (dict, list, tuple)):
                out.append((s, self.conc_index(s, o.obj, k)))
                continue
            h = None
            if isinstance(o, (Ptr, Val)):
                t = o.ty
                if isinstance(t, OPT) and isinstance(o, Val):
                    o, t = o.val, t.t
                if isinstance(t, REC):
                    h = self.models.get('getitem:' + t.name)
                    if h:
                        out += h(self, s, o, k)
                        continue
                    if t.isdict:
                        f = self.dictkey(s, t, k)
                        fv = self.rv(s, o).f(f)
                        if isinstance(fv.ty, OPT):
                            miss = s.assume(z3.Not(fv.some))
                            if not self.dead(miss):
                                out.append((miss, ('exc', 'KeyError', None)))
                            s = s.assume(fv.some)
                            fv = fv.val
                        if fv.ty.mutable:
                            fv = s.new_cell(fv, 'dv')
                        out.append((s, fv))
                        continue
                    raise Unsupported('getitem %s' % t.name)
                if isinstance(t, LIST):
                    lv = self.rv(s, o)
                    i = self.index(s, lv, self.nn(s, k, 'index').t, e)
                    if isinstance(o, Ptr) and t.t.mutable:
                        out.append((s, o.sub(('i', (i,)), t.t)))
                    else:
                        out.append((s, self.deref(lv.at(i))))
                    continue
                if isinstance(t, MAP):
                    mv = self.rv(s, o)
                    kv = self.coerce(self.rvc(s, k), t.k)
                    pres = z3.Select(mv.ls[0], *kv.ls)
                    miss = s.assume(z3.Not(pres))
                    if not self.dead(miss):
                        out.append((miss, ('exc', 'KeyError', None)))
                    s = s.assume(pres)
                    if isinstance(o, Ptr) and t.v.mutable:
                        out.append((s, o.sub(('k', kv.ls), t.v)))
                    else:
                        out.append((s, mv.get(*kv.ls)))
                    continue
                if isinstance(t, TUP):
                    i = z3.simplify(self.rv(s, k).t)
                    i = i.as_long()
                    if i < 0:
                        i += len(t.ts)
                    out.append((s, self.rv(s, o).item(i)))
                    continue
                if t == STR:
                    i = self.rv(s, k).t
                    v = self.rv(s, o)
                    j = z3.simplify(z3.If(i < 0, i + z3.Length(v.t), i))
                    ok = z3.And(0 <= j, j < z3.Length(v.t))
                    if self.cur and self.cur.check_bounds:
                        self.oblige('index-in-bounds@%d' % e.lineno, s, ok)
                    s.add(ok)
                    out.append((s, vstr(z3.SubString(v.t, j, 1))))
                    continue
            raise Unsupported('subscript of %r' % (o,))
        return out

    def conc_index(self, s, obj, k):
        if isinstance(obj, (list, tuple)):
            i = z3.simplify(self.rv(s, k).t)
            return self.lit(obj[i.as_long()])
        if isinstance(k, Conc):
            return self.lit(obj[k.obj])
        kv = self.rv(s, k)
        vals = list(obj.items())
        # symbolic key into a constant dict: ite chain
        res = None
        conds = []
        for kk, vv in vals:
            c = self.pyeq(s, kv, self.lit(kk))
            conds.append(c)
            v = self.lit(vv)
            if isinstance(v, Conc):
                if isinstance(v.obj, frozenset):
                    v = Val(SET(CODE), (self.fs_array(v.obj),))
                else:
                    v = self.conc_val(v)
            if isinstance(v, Val) and v.ty == UNIT:
                v = None
            if res is None:
                res = [(c, v)]
            else:
                res.append((c, v))
        s.add(z3.Or(conds))
        tys = {v.ty for c, v in res if v is not None}
        if len(tys) != 1:
            raise Unsupported('heterogeneous constant dict')
        ty = tys.pop()
        opt = any(v is None for c, v in res)
        acc = None
        for c, v in reversed(res):
            x = (vnone(ty) if v is None else vsome(v)) if opt else v
            acc = x if acc is None else ite(c, x, acc)
        return acc

    def fs_array(self, fs):
        a = z3.K(z3.IntSort(), z3.BoolVal(False))
        for o in sorted(fs, key=repr):
            a = z3.Store(a, z3.IntVal(self.codes.code(o)), z3.BoolVal(True))
        return a

    def slice(self, e, st, fid):
        sl = e.slice
        es = [e.value] + [x for x in (sl.lower, sl.upper) if x is not None]
        if sl.step is not None:
            raise Unsupported('slice step')
        cur, exc = self.evs(es, st, fid)
        out = list(exc)
        for s, vs in cur:
            s = s.copy()
            o = vs[0]
            k = 1
            lo = hi = None
            if sl.lower is not None:
                lo = self.rv(s, vs[k]).t
                k += 1
            if sl.upper is not None:
                hi = self.rv(s, vs[k]).t
            if isinstance(o, PTuple):
                a = 0 if lo is None else z3.simplify(lo).as_long()
                b = len(o.items) if hi is None else z3.simplify(hi).as_long()
                out.append((s, PTuple(o.items[a:b])))
                continue
            if isinstance(o, Conc):
                raise Unsupported('slice of constant')
            v = self.rv(s, o)
            if isinstance(v.ty, OPT):
                v = v.val
            n = z3.Length(v.t) if v.ty == STR else v.len
            L = self.clamp(lo, n, z3.IntVal(0))
            H = self.clamp(hi, n, n)
            if v.ty == STR:
                out.append((s, vstr(z3.SubString(v.t, L, z3.If(H > L, H - L, 0)))))
            elif 'elemrefs' in self.models and isinstance(v.ty, LIST) and isinstance(o, Ptr) and not o.path and isinstance(v.ty.t, REC) and v.ty.t.mutable and not isinstance(v.ty.t, core.ELEMREF):
                # the elements of the slice are the elements of the list, not copies
                if lo is not None and hi is not None and self.p.prove(s.pc, z3.And(0 <= lo, lo <= hi, hi <= n), timeout=1500, fallback=False)[0] == 'proved':
                    self.refcells.add(o.cell)
                    i = z3.Int(fresh_name('sl'))
                    out.append((s, s.new_cell(Val(LIST(core.ELEMREF(o.cell, v.ty.t)), (hi - lo, z3.Lambda([i], i + lo))), 'sl')))
                    continue
                self.refcells.add(o.cell)
                i = z3.Int(fresh_name('sl'))
                out.append((s, s.new_cell(Val(LIST(core.ELEMREF(o.cell, v.ty.t)), (z3.simplify(z3.If(H > L, H - L, 0)), z3.Lambda([i], i + L))), 'sl')))
            elif isinstance(v.ty, LIST):
                p = s.new_cell(self.sublist(s, v, L, H), 'sl')
                self.copycells.add(p.cell)
                out.append((s, p))
            else:
                raise Unsupported('slice of %s' % v.ty)
        return out

    def clamp(self, x, n, dflt):
        if x is None:
            return dflt
        xs = z3.simplify(x)
        if z3.is_int_value(xs):
            k = xs.as_long()
            if k >= 0:
                return z3.IntVal(0) if k == 0 else z3.If(n < k, n, z3.IntVal(k))
            return z3.If(n + k < 0, z3.IntVal(0), n + k)
        y = z3.If(x < 0, x + n, x)
        return z3.If(y < 0, 0, z3.If(y > n, n, y))

    def sublist(self, s, v, L, H):
        if v.ty.t == UNIT:
            return v
        ln = z3.simplify(z3.If(H > L, H - L, 0))
        if z3.eq(z3.simplify(L), z3.IntVal(0)):
            return Val(v.ty, (ln,) + v.ls[1:])
        r = v.ty.fresh('sub')
        i = z3.Int(fresh_name('i'))
        s.add(r.len == ln)
        s.add(FA([i], z3.Implies(z3.And(0 <= i, i < r.len), z3.And([p == q for p, q in zip(r.at(i).ls, v.at(L + i).ls)])),
                        patterns=[r.at(i).ls[0]]))
        # and the other direction for triggering
        s.add(FA([i], z3.Implies(z3.And(L <= i, i < H), z3.And([p == q for p, q in zip(r.at(i - L).ls, v.at(i).ls)])),
                        patterns=[v.at(i).ls[0]]))
        return r

    # --- comprehensions
    def e_ListComp(self, e, st, fid):
        return self.comp(e, st, fid, 'list')

    def e_GeneratorExp(self, e, st, fid):
        return self.comp(e, st, fid, 'list')

    def e_SetComp(self, e, st, fid):
        return self.comp(e, st, fid, 'set')

    def comp(self, e, st, fid, kind):
        try:
            return self.comp_pure(e, st, fid, kind)
        except EffectInComp:
            pass
        # an element expression with an effect: translated as the loop it is
        fn = ast.FunctionDef(name='$comp', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=[], decorator_list=[])
        f = self.newframe(fid)
        s = st.copy()
        s.env[(f, '$comp')] = s.new_cell(Val(LIST(UNIT), (z3.IntVal(0),)), 'cp')
        app = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id='$comp', ctx=ast.Load()), attr='append', ctx=ast.Load()), args=[e.elt], keywords=[]))
        body = [app]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        key = id(e)
        if key not in self.comp_nodes:
            self.comp_nodes[key] = ast.fix_missing_locations(ast.Module(body=body, type_ignores=[])).body
            for n in self.comp_nodes[key]:
                for y in ast.walk(n):
                    if hasattr(y, 'lineno'):
                        y.lineno = e.lineno
        out = []
        self.depth += 1
        try:
            for s2, oc in self.block(self.comp_nodes[key], s, f):
                if oc[0] == 'raise':
                    out.append((self.pop(s2, f), ('exc',) + oc[1:]))
                else:
                    v = s2.env[(f, '$comp')]
                    s3 = self.pop(s2, f)
                    if kind == 'set':
                        v = s3.new_cell(self.set_of_list(s3, s3.load(v)), 'sc')
                    out.append((s3, v))
        finally:
            self.depth -= 1
            self.frames_live.remove(f)
        return out

    def comp_pure(self, e, st, fid, kind):
        if len(e.generators) != 1:
            raise EffectInComp()
        g = e.generators[0]
        out = []
        for s, itv in self.ev(g.iter, st, fid):
            if self.isexc(itv):
                out.append((s, itv))
                continue
            s = s.copy()
            if isinstance(itv, Ptr) and isinstance(itv.ty, LIST) and itv.ty.t == UNIT:
                out.append((s, s.new_cell(Val(LIST(UNIT), (z3.IntVal(0),)), 'l')))
                continue
            it = self.to_iter(s, itv)
            for f in it.facts:
                s.add(f)
            cf = self.newframe(fid)
            i0 = z3.Int(fresh_name('ci'))
            base = s.copy()
            base.add(0 <= i0, i0 < it.n)
            mark = core.fresh_name('mark')
            k0 = int(mark.split('!')[1])
            b = base.copy()
            bs = self.assign(g.target, it.at(b, i0), b, cf)
            conds = []
            cur = bs
            for c in g.ifs:
                nx = []
                for x in cur:
                    for x2, cc in self.cond(c, x, cf):
                        if self.isexc(cc):
                            raise EffectInComp()
                        nx.append((x2, cc))
                if len(nx) != 1:
                    raise EffectInComp()
                conds.append(nx[0][1])
                cur = [nx[0][0].assume(nx[0][1])]
            res = []
            for x in cur:
                res += self.ev(e.elt, x, cf)
            res = self.merge_vals(res)
            ghook = self.models.get('comp-effects')
            if len(res) != 1 or self.isexc(res[0][1]):
                raise EffectInComp()
            fs, fv = res[0]
            if ghook:
                h = ghook(self, s, base, fs, i0, it, conds, fv)
                if h is not None:
                    out += h
                    continue
            # no side effects allowed
            for k in base.cells:
                if k in fs.cells and not same_leaves(base.cells[k], fs.cells[k]):
                    raise EffectInComp()
            for k in base.ghost:
                if not same_leaves(base.ghost[k], fs.ghost[k]):
                    raise EffectInComp()
            if 'elemrefs' in self.models and isinstance(fv, Ptr) and isinstance(fv.ty, REC) and len(fv.path) == 1 and fv.path[0][0] == 'i' and fv.cell in s.cells:
                self.refcells.add(fv.cell)
                ev = Val(core.ELEMREF(fv.cell, fv.ty), (fv.path[0][1][0],))
            else:
                ev = self.rv(fs, fv)
            extra = [f for f in fs.pc[len(base.pc):] if not any(z3.eq(f, c) for c in conds)]
            if conds and isinstance(ev.ty, OPT) and self.p.prove(fs.pc, ev.some, timeout=500, fallback=False)[0] == 'proved':
                ev = ev.val
            c = z3.And(*conds) if len(conds) > 1 else (conds[0] if conds else None)
            # lift constants created during the element evaluation
            terms = list(ev.ls) + extra + ([c] if c is not None else [])
            fresh = fresh_consts(terms, k0, i0)
            subs = []
            for fc in fresh:
                arr = z3.Const(fresh_name('lift'), z3.ArraySort(z3.IntSort(), fc.sort()))
                subs.append((fc, z3.Select(arr, i0)))

            def at(t, i):
                t = z3.substitute(t, *subs) if subs else t
                return z3.substitute(t, (i0, i))
            i = z3.Int(fresh_name('i'))
            for f in extra:
                s.add(FA([i], z3.Implies(z3.And(0 <= i, i < it.n), at(f, i))))
            if c is None:
                r = LIST(ev.ty).fresh('comp')
                s.add(r.len == z3.If(it.n > 0, it.n, 0))
                s.add(FA([i], z3.Implies(z3.And(0 <= i, i < it.n), z3.And([p == at(q, i) for p, q in zip(r.at(i).ls, ev.ls)])),
                                patterns=[r.at(i).ls[0]] if ev.ls else []))
                # trigger from the source side
                src_t = it.src.at(i).ls[0] if (it.src is not None and isinstance(it.src.ty, LIST) and it.src.at(i).ls) else None
                if src_t is not None and not z3.eq(src_t, r.at(i).ls[0]):
                    s.add(FA([i], z3.Implies(z3.And(0 <= i, i < it.n), z3.And([p == at(q, i) for p, q in zip(r.at(i).ls, ev.ls)])),
                                    patterns=[src_t]))
            else:
                r = LIST(ev.ty).fresh('filt')
                gm = z3.Const(fresh_name('fg'), z3.ArraySort(z3.IntSort(), z3.IntSort()))
                hm = z3.Const(fresh_name('fh'), z3.ArraySort(z3.IntSort(), z3.IntSort()))
                k, l = z3.Int(fresh_name('k')), z3.Int(fresh_name('l'))
                s.add(r.len >= 0, r.len <= z3.If(it.n > 0, it.n, 0))
                s.add(FA([k], z3.Implies(z3.And(0 <= k, k < r.len),
                                                z3.And([0 <= gm[k], gm[k] < it.n, at(c, gm[k]), hm[gm[k]] == k] +
                                                       [p == at(q, gm[k]) for p, q in zip(r.at(k).ls, ev.ls)])),
                                patterns=[r.at(k).ls[0]]))
                s.add(FA([k, l], z3.Implies(z3.And(0 <= k, k < l, l < r.len), gm[k] < gm[l]),
                                patterns=[z3.MultiPattern(gm[k], gm[l])]))
                body = z3.Implies(z3.And(0 <= k, k < it.n, at(c, k)), z3.And([0 <= hm[k], hm[k] < r.len, gm[hm[k]] == k] +
                                                                            [p == at(q, k) for p, q in zip(r.at(hm[k]).ls, ev.ls)]))
                pats = []
                src_t = it.src.at(k).ls[0] if (it.src is not None and isinstance(it.src.ty, LIST) and it.src.at(k).ls) else None
                if src_t is not None:
                    pats = [src_t]
                s.add(FA([k], body, patterns=pats) if pats else FA([k], body))
                self.filters[str(r.ls[0])] = (gm, hm)
            if kind == 'set':
                out.append((s, s.new_cell(self.set_of_list(s, r), 'sc')))
            else:
                out.append((s, s.new_cell(r, 'lc')))
        return out

    def set_of_list(self, s, r):
        if r.ty.t == UNIT:
            return empty_set(UNIT) if False else Val(SET(UNIT), (z3.Const('emptyset', z3.ArraySort(z3.IntSort(), z3.BoolSort())),))
        n = z3.simplify(r.len)
        if z3.is_int_value(n) and n.as_long() <= 8:
            v = empty_set(r.ty.t)
            for i in range(n.as_long()):
                v = Val(v.ty, (z3.Store(v.t, *(list(r.at(i).ls) + [z3.BoolVal(True)])),))
            return v
        sv = SET(r.ty.t).fresh('setof')
        i = z3.Int(fresh_name('i'))
        s.add(FA([i], z3.Implies(z3.And(0 <= i, i < r.len), sv.has(*r.at(i).ls)), patterns=[r.at(i).ls[0]]))
        ks = [z3.Const(fresh_name('k'), x) for x in r.ty.t.sorts()]
        w = uf_raw(fresh_name('wit'), [x.sort() for x in ks], z3.IntSort())
        s.add(FA(ks, z3.Implies(sv.has(*ks), z3.And([0 <= w(*ks), w(*ks) < r.len] + [p == q for p, q in zip(r.at(w(*ks)).ls, ks)])),
                        patterns=[sv.has(*ks)]))
        return sv

    def map_of_pairs(self, s, v):
        r = self.rv(s, v) if not isinstance(v, Iter) else self.materialise(s, v)
        r = self.rv(s, r)
        if isinstance(r.ty, MAP):
            return r
        if r.ty == UNIT or (isinstance(r.ty, LIST) and r.ty.t == UNIT):
            return Val(MAP(UNIT, UNIT), (z3.Const('emptymap', z3.ArraySort(z3.IntSort(), z3.BoolSort())),))
        if not (isinstance(r.ty, LIST) and isinstance(r.ty.t, TUP) and len(r.ty.t.ts) == 2):
            raise Unsupported('dict from %s' % (r.ty,))
        kt, vt = r.ty.t.ts
        m = MAP(kt, vt).fresh('mapof')
        key = lambda i: r.at(i).item(0).ls
        val = lambda i: r.at(i).item(1).ls
        i, j = z3.Int(fresh_name('i')), z3.Int(fresh_name('j'))
        ks = [z3.Const(fresh_name('k'), x) for x in kt.sorts()]
        w = uf_raw(fresh_name('last'), [x.sort() for x in ks], z3.IntSort())
        s.add(FA([i], z3.Implies(z3.And(0 <= i, i < r.len), z3.And(m.has(*key(i)), w(*key(i)) >= i)), patterns=[key(i)[0]]))
        s.add(FA(ks, z3.Implies(m.has(*ks), z3.And([0 <= w(*ks), w(*ks) < r.len] + [p == q for p, q in zip(key(w(*ks)), ks)] +
                                                   [p == q for p, q in zip(m.get(*ks).ls, val(w(*ks)))])), patterns=[m.has(*ks)]))
        return m

    def list_of_set(self, s, sv):
        """an arbitrary enumeration of a set without repetition"""
        r = LIST(sv.ty.k).fresh('enum')
        ks = [z3.Const(fresh_name('k'), x) for x in sv.ty.k.sorts()]
        w = uf_raw(fresh_name('pos'), [x.sort() for x in ks], z3.IntSort())
        i = z3.Int(fresh_name('i'))
        s.add(r.len >= 0)
        s.add(FA([i], z3.Implies(z3.And(0 <= i, i < r.len), z3.And(sv.has(*r.at(i).ls), w(*r.at(i).ls) == i)), patterns=[r.at(i).ls[0]]))
        s.add(FA(ks, z3.Implies(sv.has(*ks), z3.And([0 <= w(*ks), w(*ks) < r.len] + [p == q for p, q in zip(r.at(w(*ks)).ls, ks)])),
                        patterns=[sv.has(*ks)]))
        self.enum_rank[r.ls[0].get_id()] = w
        return r

    def to_iter(self, s, v):
        if isinstance(v, Iter):
            return v
        if isinstance(v, PTuple):
            def at(s, i):
                i = z3.simplify(i)
                return v.items[i.as_long()]
            return Iter(z3.IntVal(len(v.items)), at, None)
        if isinstance(v, Conc):
            o = v.obj
            if isinstance(o, dict):
                o = list(o.items()) if False else list(o)
            if isinstance(o, (list, tuple, frozenset, set)):
                items = [self.lit(x) for x in o]
                return self.to_iter(s, PTuple(items))
            raise Unsupported('iterate %r' % (o,))
        rv = self.rv(s, v)
        if isinstance(rv.ty, OPT):
            rv = rv.val
        t = rv.ty
        if isinstance(t, LIST):
            if t.t == UNIT:
                return Iter(z3.IntVal(0), lambda s, i: Val(UNIT, ()), rv)

            def at(s, i):
                if isinstance(v, Ptr) and t.t.mutable:
                    return v.sub(('i', (i,)), t.t)
                return self.deref(rv.at(i))
            return Iter(rv.len, at, rv)
        if isinstance(t, SET):
            l = self.list_of_set(s, rv)
            return Iter(l.len, lambda s, i: l.at(i), l)
        if isinstance(t, MAP):
            l = self.list_of_set(s, Val(SET(t.k), rv.ls[:1]))
            return Iter(l.len, lambda s, i: l.at(i), l)
        if t == STR:
            return Iter(z3.Length(rv.t), lambda s, i: vstr(rv.t.at(i)), rv)
        if isinstance(t, REC):
            h = self.models.get('iter:' + t.name)
            if h:
                return h(self, s, v)
            if 'storage' in t.fields:
                return self.to_iter(s, rv.f('storage'))
        if isinstance(t, TUP):
            return self.to_iter(s, PTuple([rv.item(i) for i in range(len(t.ts))]))
        raise Unsupported('iterate %s' % (t,))

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, fid):
        out = []
        for s, f in self.ev(e.func, st, fid):
            if self.isexc(f):
                out.append((s, f))
                continue
            argn = []
            star = None
            for a in e.args:
                if isinstance(a, ast.Starred):
                    star = a.value
                else:
                    argn.append(a)
            kwn = [(k.arg, k.value) for k in e.keywords]
            cur, exc = self.evs(argn + ([star] if star is not None else []) + [v for _, v in kwn], s, fid)
            out += exc
            for s2, vs in cur:
                args = list(vs[:len(argn)])
                rest = vs[len(argn):]
                if star is not None:
                    sv = rest[0]
                    rest = rest[1:]
                    if isinstance(sv, PTuple):
                        args += sv.items
                    else:
                        v = self.rv(s2, sv)
                        if isinstance(v.ty, OPT):
                            s2 = s2.assume(v.some)
                            v = v.val
                        if not isinstance(v.ty, TUP):
                            raise Unsupported('*args of %s' % v.ty)
                        args += [v.item(i) for i in range(len(v.ty.ts))]
                kw = {k: v for (k, _), v in zip(kwn, rest)}
                out += self.call(s2, f, args, kw, fid, e)
        return out

    def call(self, s, f, args, kw, fid, node):
        s = s.copy()
        if not isinstance(f, Conc):
            h = isinstance(f, Val) and self.models.get('call:%s' % (f.ty,))
            if h:
                return h(self, s, [f] + args, kw)
            raise Unsupported('call of %r' % (f,))
        o = f.obj
        if isinstance(o, tuple):
            k = o[0]
            if k == 'func':
                q = o[1]
                cls = q.split('.')[0] if '.' in q else None
                fn = self.m.funcs[q]
                if any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in fn.decorator_list):
                    args = [Conc(('class', cls))] + args
                return self.call_func(s, q, args, kw, fid, node)
            if k == 'closure':
                return self.inline(s, o[1].node, args, kw, o[1].fid, node)
            if k == 'class':
                return self.construct(s, o[1], args, kw, fid, node)
            if k == 'builtin':
                return self.builtin(s, o[1], args, kw, fid, node)
            if k == 'lib':
                h = self.models.get(o[1])
                if h is None:
                    raise Unsupported('library call %s' % o[1])
                self.called_models.add(o[1])
                return h(self, s, args, kw)
            if k == 'excclass':
                return [(s, Conc(('excval', o[1])))]
            if k == 'method':
                return self.method(s, o[1], o[2], args, kw, fid, node)
        if isinstance(o, type) and issubclass(o, dict) and (args or kw):
            if kw or len(args) != 1:
                raise Unsupported('dict construction')
            return [(s, s.new_cell(self.map_of_pairs(s, args[0]), 'm'))]
        if isinstance(o, type) and issubclass(o, dict):
            return [(s, s.new_cell(Val(MAP(UNIT, UNIT), (z3.Const('emptymap', z3.ArraySort(z3.IntSort(), z3.BoolSort())),)), 'm'))]
        if callable(o):
            nm = getattr(o, '__name__', '?')
            h = self.models.get('callable:' + nm)
            if h:
                return h(self, s, args, kw)
        raise Unsupported('call of %r' % (o,))

    def call_func(self, s, q, args, kw, fid, node):
        h = self.contracts.get(q)
        if h is not None and not (self.cur is not None and self.cur.qual == q and self.depth == 0):
            self.called_models.add('contract:' + q)
            return h(self, s, args, kw)
        self.inlined.add(q)
        return self.inline(s, self.m.funcs[q], args, kw, None, node)

    def newframe(self, parent):
        f = next(self.fidc)
        self.parents[f] = parent
        self.frames_live.append(f)
        return f

    def inline(self, s, fn, args, kw, parent, node):
        if self.depth > self.MAXDEPTH:
            raise Unsupported('call depth')
        f = self.newframe(parent)
        s = s.copy()
        self.bind(s, fn, args, kw, f, parent)
        self.depth += 1
        try:
            if isinstance(fn, ast.Lambda):
                res = self.ev(fn.body, s, f)
                return [(self.pop(s2, f), v) for s2, v in res]
            isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_fn(fn))
            if isgen:
                s.env[(f, '$yield')] = s.new_cell(Val(LIST(UNIT), (z3.IntVal(0),)), 'y')
            nl = set()
            for x in walk_fn(fn):
                if isinstance(x, ast.Nonlocal):
                    nl |= set(x.names)
            if nl:
                self.nonlocals[f] = nl
            out = []
            rets = []
            for s2, oc in self.block(fn.body, s, f):
                if oc[0] == 'return':
                    rets.append((s2, s2.env[(f, '$yield')] if isgen else oc[1]))
                elif oc[0] == 'next':
                    rets.append((s2, s2.env[(f, '$yield')] if isgen else Val(UNIT, ())))
                elif oc[0] == 'raise':
                    out.append((self.pop(s2, f), ('exc',) + oc[1:]))
                else:
                    raise Unsupported('outcome %s' % (oc,))
            rets = [(self.pop(s2, f), v) for s2, v in rets]
            return self.merge_vals(rets) + out
        finally:
            self.depth -= 1
            if f in self.frames_live:
                self.frames_live.remove(f)

    def pop(self, s, f):
        s = s.copy()
        for k in [k for k in s.env if k[0] == f]:
            v = s.env[k]
            del s.env[k]
        return s

    def bind(self, s, fn, args, kw, f, parent):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        defaults = a.defaults
        vals = dict(zip(names, args))
        if len(args) > len(names):
            raise Unsupported('too many arguments')
        for k, v in kw.items():
            vals[k] = v
        for i, nme in enumerate(names):
            if nme not in vals:
                j = i - (len(names) - len(defaults))
                if j < 0:
                    raise Unsupported('missing argument %s' % nme)
                rs = self.ev(defaults[j], s, parent)
                vals[nme] = rs[0][1]
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if k.arg not in vals:
                vals[k.arg] = self.ev(d, s, parent)[0][1]
        for k, v in vals.items():
            s.env[(f, k)] = v

    def construct(self, s, cls, args, kw, fid, node):
        h = self.contracts.get(cls)
        if h:
            self.called_models.add('contract:' + cls)
            return h(self, s, args, kw)
        if cls not in self.records:
            bases = [getattr(b, 'id', '') for b in self.m.classes[cls].bases]
            if any('Exception' in b or 'Error' in b for b in bases):
                return [(s, Conc(('excval', cls)))]
            raise Unsupported('class %s' % cls)
        rec = self.records[cls]
        p = s.new_cell(rec.fresh('new' + cls), 'o')
        q = cls + '.__init__'
        out = []
        if q in self.m.funcs:
            for s2, v in self.inline(s, self.m.funcs[q], [p] + args, kw, None, node):
                out.append((s2, v if self.isexc(v) else p))
            return out
        return [(s, p)]

    # ---- builtin functions
    def builtin(self, s, name, args, kw, fid, node):
        h = self.models.get('builtin:' + name)
        if h:
            return h(self, s, args, kw)
        if name == 'print':
            return [(s, Val(UNIT, ()))]
        if name == 'len':
            a = args[0]
            if isinstance(a, PTuple):
                return [(s, vint(len(a.items)))]
            if isinstance(a, Conc):
                return [(s, vint(len(a.obj)))]
            v = self.rv(s, a)
            if isinstance(v.ty, OPT):
                v = v.val
            if v.ty == STR:
                return [(s, vint(z3.Length(v.t)))]
            if isinstance(v.ty, LIST):
                return [(s, vint(v.len))]
            if isinstance(v.ty, (SET, MAP)):
                n = INT.fresh('size')
                s.add(n.t >= 0, (n.t > 0) == self.truth(s, v))
                return [(s, n)]
            raise Unsupported('len of %s' % (v.ty,))
        if name in ('min', 'max') and len(args) >= 2:
            vs = [self.rv(s, a) for a in args]
            t = vs[0].ty
            for v in vs:
                t = join_types(t, v.ty)
            vs = [self.coerce(v, t) for v in vs]
            r = vs[0]
            for v in vs[1:]:
                c = (v.t < r.t) if name == 'min' else (v.t > r.t)
                r = ite(c, v, r)
            return [(s, r)]
        if name == 'range':
            vs = [self.rv(s, a).t for a in args]
            if len(vs) == 1:
                lo, hi, step = z3.IntVal(0), vs[0], 1
            elif len(vs) == 2:
                lo, hi, step = vs[0], vs[1], 1
            else:
                lo, hi = vs[0], vs[1]
                step = z3.simplify(vs[2]).as_long()
            if step == 1:
                n = z3.If(hi > lo, hi - lo, 0)
                return [(s, Iter(n, lambda s, i: vint(lo + i)))]
            if step == -1:
                n = z3.If(lo > hi, lo - hi, 0)
                return [(s, Iter(n, lambda s, i: vint(lo - i)))]
            raise Unsupported('range step')
        if name == 'enumerate':
            it = self.to_iter(s, args[0])
            start = self.rv(s, args[1]).t if len(args) > 1 else (self.rv(s, kw['start']).t if 'start' in kw else z3.IntVal(0))
            return [(s, Iter(it.n, lambda s, i: PTuple([vint(i + start), it.at(s, i)]), it.src, it.facts))]
        if name == 'zip':
            its = [self.to_iter(s, a) for a in args]
            n = its[0].n
            for it in its[1:]:
                n = z3.If(it.n < n, it.n, n)
            return [(s, Iter(n, lambda s, i: PTuple([it.at(s, i) for it in its]), None, [f for it in its for f in it.facts]))]
        if name == 'reversed':
            it = self.to_iter(s, args[0])
            return [(s, Iter(it.n, lambda s, i: it.at(s, it.n - 1 - i), None, it.facts))]
        if name in ('list', 'tuple'):
            if not args:
                return [(s, s.new_cell(Val(LIST(UNIT), (z3.IntVal(0),)), 'l'))]
            a = args[0]
            if isinstance(a, Iter):
                return [(s, s.new_cell(self.materialise(s, a), 'l'))]
            if isinstance(a, (PTuple,)):
                return [(s, a)]
            v = self.rv(s, a)
            if isinstance(v.ty, LIST):
                return [(s, s.new_cell(v, 'l'))]
            it = self.to_iter(s, a)
            return [(s, s.new_cell(self.materialise(s, it), 'l'))]
        if name == 'set':
            if not args:
                return [(s, s.new_cell(Val(SET(UNIT), (z3.Const('emptyset', z3.ArraySort(z3.IntSort(), z3.BoolSort())),)), 's'))]
            v = self.rv(s, args[0])
            if isinstance(v.ty, SET):
                return [(s, s.new_cell(v, 's'))]
            if isinstance(v.ty, LIST):
                return [(s, s.new_cell(self.set_of_list(s, v), 's'))]
        if name == 'int':
            v = self.rv(s, args[0])
            if v.ty == INT:
                return [(s, v)]
            if v.ty == REAL:
                r = z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t))
                return [(s, vint(r))]
            if v.ty == STR:
                return [(s, vint(z3.StrToInt(v.t)))]
            if isinstance(v.ty, OPT) and v.ty.t == STR:
                return [(s, vint(z3.StrToInt(v.val.t)))]
            if v.ty == BOOL:
                return [(s, self.coerce(v, INT))]
        if name == 'str':
            return [(s, self.to_str(s, args[0]))]
        if name == 'bool':
            return [(s, vbool(self.truth(s, args[0])))]
        if name in ('any', 'all'):
            v = self.rv(s, args[0])
            i = z3.Int(fresh_name('i'))
            n = z3.simplify(v.len)
            g = z3.And(0 <= i, i < v.len)
            b = self.truth(s, v.at(i))
            r = z3.Exists([i], z3.And(g, b)) if name == 'any' else FA([i], z3.Implies(g, b))
            return [(s, vbool(r))]
        if name == 'sorted':
            if len(args) != 1 or kw:
                raise Unsupported('sorted with a key')
            v = self.rv(s, args[0])
            i, j = z3.Int(fresh_name('i')), z3.Int(fresh_name('j'))
            if isinstance(v.ty, SET):
                r = self.list_of_set(s, v)
                s.add(FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < r.len), self.lex(r.at(i), r.at(j), True)), patterns=[z3.MultiPattern(r.at(i).ls[0], r.at(j).ls[0])]))
            elif isinstance(v.ty, LIST) and v.ty.t != UNIT:
                r = self.permutation(s, v)
                s.add(FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < r.len), self.lex(r.at(i), r.at(j), False)), patterns=[z3.MultiPattern(r.at(i).ls[0], r.at(j).ls[0])]))
            else:
                raise Unsupported('sorted %s' % (v.ty,))
            return [(s, s.new_cell(r, 'srt'))]
        if name == 'isinstance':
            raise Unsupported('isinstance')
        if name == 'divmod':
            x, y = self.rv(s, args[0]), self.rv(s, args[1])
            return [(s, vtup(self.binop(s, ast.FloorDiv(), x, y, None)[0][1], self.binop(s, ast.Mod(), x, y, None)[0][1]))]
        if name == 'abs':
            v = self.rv(s, args[0])
            return [(s, Val(v.ty, (z3.If(v.t < 0, -v.t, v.t),)))]
        raise Unsupported('builtin %s' % name)

    def lex(self, a, b, strict):
        """a < b (or a <= b) as Python orders such values"""
        if a.ty == INT:
            return a.t < b.t if strict else a.t <= b.t
        if a.ty == STR:
            return a.t < b.t if strict else z3.Or(a.t < b.t, a.t == b.t)
        if isinstance(a.ty, TUP):
            n = len(a.ty.ts)
            out = z3.BoolVal(not strict)
            for i in reversed(range(n)):
                x, y = a.item(i), b.item(i)
                out = z3.Or(self.lex(x, y, True), z3.And(eq(x, y), out))
            return out
        raise Unsupported('order of %s' % (a.ty,))

    def permutation(self, s, v):
        """a list with the same elements in some order; also the two index maps"""
        r = LIST(v.ty.t).fresh('perm')
        p = uf_raw(fresh_name('from'), [z3.IntSort()], z3.IntSort())
        q = uf_raw(fresh_name('to'), [z3.IntSort()], z3.IntSort())
        i = z3.Int(fresh_name('i'))
        s.add(r.len == v.len)
        s.add(FA([i], z3.Implies(z3.And(0 <= i, i < r.len), z3.And([0 <= p(i), p(i) < v.len, q(p(i)) == i] + [x == y for x, y in zip(r.at(i).ls, v.at(p(i)).ls)])),
                 patterns=[r.at(i).ls[0]]))
        s.add(FA([i], z3.Implies(z3.And(0 <= i, i < v.len), z3.And([0 <= q(i), q(i) < v.len, p(q(i)) == i] + [x == y for x, y in zip(v.at(i).ls, r.at(q(i)).ls)])),
                 patterns=[v.at(i).ls[0]]))
        self.perms[r.ls[0].get_id()] = (p, q)
        return r

    def materialise(self, s, it):
        i = z3.Int(fresh_name('i'))
        x = self.rv(s, it.at(s, i)) if not isinstance(it.at(s, i), PTuple) else vtup(*[self.rv(s, y) for y in it.at(s, i).items])
        r = LIST(x.ty).fresh('mat')
        for f in it.facts:
            s.add(f)
        s.add(r.len == z3.If(it.n > 0, it.n, 0))
        s.add(FA([i], z3.Implies(z3.And(0 <= i, i < it.n), z3.And([p == q for p, q in zip(r.at(i).ls, x.ls)])),
                        patterns=[r.at(i).ls[0]]))
        return r

    # ---- methods
    def method(self, s, o, name, args, kw, fid, node):
        if isinstance(o, Conc) and isinstance(o.obj, re.Pattern):
            h = self.models.get('re:' + name)
            if h:
                return h(self, s, o.obj, args, kw)
            return self.re_method(s, o.obj, name, args)
        if isinstance(o, Conc) and isinstance(o.obj, tuple) and o.obj[0] == 'mod':
            raise Unsupported('module method %s.%s' % (o.obj[1], name))
        if isinstance(o, Conc) and isinstance(o.obj, dict):
            if name == 'items':
                return [(s, PTuple([PTuple([self.lit(k), self.lit(v)]) for k, v in o.obj.items()]))]
            if name == 'keys':
                return [(s, PTuple([self.lit(k) for k in o.obj]))]
            if name == 'values':
                return [(s, PTuple([self.lit(v) for v in o.obj.values()]))]
        if isinstance(o, Conc) and isinstance(o.obj, (list, tuple)):
            if name == 'index' and isinstance(o.obj, list):
                return [(s, INT.fresh('index'))]
        if isinstance(o, Conc):
            h = self.models.get('cmethod:' + name)
            if h:
                return h(self, s, o, args, kw)
            raise Unsupported('method %s of %r' % (name, o))
        if isinstance(o, PTuple):
            raise Unsupported('method %s of tuple' % name)
        if isinstance(o, Iter):
            if name == '__iter__':
                return [(s, o)]
            raise Unsupported('iter method %s' % name)
        t = o.ty
        if isinstance(t, OPT) and isinstance(o, Val):
            # calling a method on None would raise AttributeError
            self.oblige('receiver-is-not-None@%d(%s)' % (getattr(node, 'lineno', 0), name), s, o.some, 'implicit')
            s = s.assume(o.some)
            return self.method(s, o.val, name, args, kw, fid, node)
        if isinstance(t, MatchRec):
            o = self.rv(s, o)
            if name == 'group':
                k = z3.simplify(self.rv(s, args[0]).t).as_long() if args else 0
                if k == 0:
                    return [(s, STR.fresh('group0'))]
                return [(s, o.f('g%d' % k))]
            if name == 'groups':
                return [(s, vtup(*[o.f(n) for n in t.fields if n[0] == 'g']))]
            if name == 'start':
                return [(s, o.f('start'))]
            raise Unsupported('match.%s' % name)
        if isinstance(t, REC):
            q = t.name + '.' + name
            h = self.models.get('method:' + q)
            if h:
                return h(self, s, o, args, kw)
            if q in self.m.funcs:
                return self.call_func(s, q, [o] + args, kw, fid, node)
            raise Unsupported('method %s' % q)
        h = self.models.get('method:%s.%s' % (tyname(t), name))
        if h:
            return h(self, s, o, args, kw)
        if t == STR:
            return self.str_method(s, o, name, args, kw)
        if isinstance(t, LIST):
            return self.list_method(s, o, name, args, kw)
        if isinstance(t, SET):
            return self.set_method(s, o, name, args)
        if isinstance(t, MAP):
            return self.map_method(s, o, name, args)
        raise Unsupported('method %s of %s' % (name, t))

    def str_method(self, s, o, name, args, kw):
        x = o.t
        av = [self.rv(s, a) if isinstance(a, (Val, Ptr)) else a for a in args]
        if name in ('startswith', 'endswith'):
            f = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
            a = av[0]
            if isinstance(a, PTuple):
                return [(s, vbool(z3.Or([f(self.rv(s, y).t, x) for y in a.items])))]
            if isinstance(a, Conc):
                return [(s, vbool(z3.Or([f(zstr(y), x) for y in a.obj])))]
            return [(s, vbool(f(a.t, x)))]
        if name in ('find',):
            st = av[1].t if len(av) > 1 else z3.IntVal(0)
            return [(s, vint(z3.IndexOf(x, av[0].t, st)))]
        if name in ('strip', 'rstrip', 'lstrip'):
            chars = None
            if av:
                c = z3.simplify(av[0].t)
                chars = unz(c) if z3.is_string_value(c) else None
                if chars is None:
                    raise Unsupported('strip of symbolic chars')
            return [(s, self.strip(s, o, name, chars))]
        if name == 'count':
            r = uf('str.count', INT, o, av[0])
            s.add(r.t >= 0, (r.t > 0) == z3.Contains(x, av[0].t))
            return [(s, r)]
        if name in ('lower', 'upper'):
            return [(s, uf('str.' + name, STR, o))]
        if name == 'join':
            l = av[0]
            if l.ty.t == UNIT:
                return [(s, vstr(''))]
            return [(s, uf('str.join', STR, o, l))]
        if name == 'splitlines':
            r = uf('str.splitlines', LIST(STR), o)
            s.add(r.len >= 0)
            return [(s, s.new_cell(r, 'sp'))]
        if name == 'split':
            r = uf('str.split', LIST(STR), o, *av)
            s.add(r.len >= 1)
            s.add(z3.Implies(z3.Not(z3.Contains(x, av[0].t)), z3.And(r.len == 1, r.at(0).t == x)) if av else z3.BoolVal(True))
            if av:
                k = z3.IndexOf(x, av[0].t, 0)
                s.add(z3.Implies(k >= 0, r.at(0).t == z3.SubString(x, 0, k)))
            return [(s, s.new_cell(r, 'sp'))]
        if name == 'replace':
            return [(s, uf('str.replace', STR, o, *av))]
        if name in ('encode',):
            return [(s, uf('str.encode', STR, o, *av))]
        raise Unsupported('str.%s' % name)

    def strip(self, s, o, name, chars):
        key = 'str.%s%s' % (name, '' if chars is None else '.' + chars)
        r = uf(key, STR, o)
        cs = chars if chars is not None else ' \t\n\r\x0b\x0c'
        ws = z3.Star(z3.Union(*[z3.Re(zstr(c)) for c in cs]) if len(cs) > 1 else z3.Re(zstr(cs)))
        pre = uf(key + '.pre', STR, o).t
        post = uf(key + '.post', STR, o).t
        if name == 'rstrip':
            s.add(o.t == z3.Concat(r.t, post), z3.InRe(post, ws))
            s.add(z3.Not(z3.Or([z3.SuffixOf(zstr(c), r.t) for c in cs])))
        elif name == 'lstrip':
            s.add(o.t == z3.Concat(pre, r.t), z3.InRe(pre, ws))
            s.add(z3.Not(z3.Or([z3.PrefixOf(zstr(c), r.t) for c in cs])))
        else:
            s.add(o.t == z3.Concat(pre, r.t, post), z3.InRe(pre, ws), z3.InRe(post, ws))
            s.add(z3.Not(z3.Or([z3.PrefixOf(zstr(c), r.t) for c in cs] + [z3.SuffixOf(zstr(c), r.t) for c in cs])))
        return r

    def list_method(self, s, o, name, args, kw):
        if isinstance(o, Ptr) and o.cell in self.refcells and not o.path and name in ('insert', 'pop', 'remove', 'sort', 'reverse', 'clear'):
            raise Unsupported('elements move while they are referred to')
        if not isinstance(o, Ptr):
            o = s.new_cell(o, 'tmp')
        if name == 'append':
            self._append(s, o, args[0])
            return [(s, Val(UNIT, ()))]
        if name == 'extend':
            cur = s.load(o)
            a = args[0]
            if isinstance(a, Iter):
                a = s.new_cell(self.materialise(s, a), 'x')
            if isinstance(a, PTuple):
                for x in a.items:
                    self._append(s, o, x)
                return [(s, Val(UNIT, ()))]
            y = self.rv(s, a)
            if cur.ty.t == UNIT:
                if not o.path:
                    s.cells[o.cell] = y
                    self.retype(s, o.cell, y.ty)
                    return [(s, Val(UNIT, ()))]
            s.store(o, self.concat(s, cur, y))
            return [(s, Val(UNIT, ()))]
        if name == 'remove':
            cur = s.load(o)
            x = self.coerce(self.rvc(s, args[0]), cur.ty.t)
            p = z3.Int(fresh_name('rm'))
            i = z3.Int(fresh_name('i'))
            s.add(0 <= p, p < cur.len, eq(cur.at(p), x))
            s.add(FA([i], z3.Implies(z3.And(0 <= i, i < p), z3.Not(eq(cur.at(i), x))), patterns=[cur.at(i).ls[0]]))
            r = cur.ty.fresh('rem')
            s.add(r.len == cur.len - 1)
            up = z3.Const(fresh_name('up'), z3.ArraySort(z3.IntSort(), z3.IntSort()))
            dn = z3.Const(fresh_name('dn'), z3.ArraySort(z3.IntSort(), z3.IntSort()))
            s.add(FA([i], z3.Implies(z3.And(0 <= i, i < r.len),
                                            z3.And([a == b for a, b in zip(r.at(i).ls, cur.at(up[i]).ls)] + [up[i] == z3.If(i < p, i, i + 1), dn[up[i]] == i])),
                            patterns=[r.at(i).ls[0]]))
            s.add(FA([i], z3.Implies(z3.And(0 <= i, i < cur.len, i != p),
                                            z3.And([b == a for b, a in zip(cur.at(i).ls, r.at(dn[i]).ls)] + [dn[i] == z3.If(i < p, i, i - 1), up[dn[i]] == i])),
                            patterns=[cur.at(i).ls[0]]))
            s.store(o, r)
            return [(s, Val(UNIT, ()))]
        if name == 'sort':
            h = self.models.get('list.sort')
            if h:
                return h(self, s, o, args, kw)
        if name == 'index':
            cur = s.load(o)
            x = self.coerce(self.rvc(s, args[0]), cur.ty.t)
            p = z3.Int(fresh_name('ix'))
            i = z3.Int(fresh_name('i'))
            pres = z3.Exists([i], z3.And(0 <= i, i < cur.len, eq(cur.at(i), x)))
            miss = s.assume(z3.Not(pres))
            s.add(pres, 0 <= p, p < cur.len, eq(cur.at(p), x))
            s.add(FA([i], z3.Implies(z3.And(0 <= i, i < p), z3.Not(eq(cur.at(i), x)))))
            return [(s, vint(p)), (miss, ('exc', 'ValueError', None))]
        if name == 'pop':
            cur = s.load(o)
            i = self.rv(s, args[0]).t if args else z3.IntVal(-1)
            j = self.index(s, cur, i, None)
            v = cur.at(j)
            a = self.sublist(s, cur, z3.IntVal(0), j)
            b = self.sublist(s, cur, j + 1, cur.len)
            s.store(o, self.concat(s, a, b))
            return [(s, v)]
        raise Unsupported('list.%s' % name)

    def set_method(self, s, o, name, args):
        if not isinstance(o, Ptr):
            o = s.new_cell(o, 'tmp')
        cur = s.load(o)
        if name == 'add':
            x = self.rvc(s, args[0])
            x = self.coerce(x, cur.ty.k) if cur.ty.k != UNIT else (self.conc_val(x) if isinstance(x, Conc) else x)
            if cur.ty.k == UNIT:
                nv = empty_set(x.ty)
                s.cells[o.cell] = nv
                self.retype(s, o.cell, nv.ty)
                o = Ptr(o.cell, o.path, nv.ty)
                cur = nv
            s.store(o, Val(cur.ty, (z3.Store(cur.t, *(list(x.ls) + [z3.BoolVal(True)])),)))
            return [(s, Val(UNIT, ()))]
        if name in ('intersection_update', 'update', 'difference_update', 'union', 'intersection', 'difference', 'discard', 'remove'):
            if name in ('discard', 'remove'):
                x = self.coerce(self.rvc(s, args[0]), cur.ty.k)
                s.store(o, Val(cur.ty, (z3.Store(cur.t, *(list(x.ls) + [z3.BoolVal(False)])),)))
                return [(s, Val(UNIT, ()))]
            b = self.rv(s, args[0])
            if isinstance(b.ty, LIST):
                b = self.set_of_list(s, b)
            ks = [z3.Const(fresh_name('k'), x) for x in cur.ty.k.sorts()]
            if b.ty != cur.ty:
                raise Unsupported('set op types')
            p, q = z3.Select(cur.t, *ks), z3.Select(b.t, *ks)
            f = {'intersection_update': z3.And(p, q), 'intersection': z3.And(p, q), 'update': z3.Or(p, q), 'union': z3.Or(p, q),
                 'difference_update': z3.And(p, z3.Not(q)), 'difference': z3.And(p, z3.Not(q))}[name]
            r = cur.ty.fresh('setop')
            s.add(FA(ks, z3.Select(r.t, *ks) == f, patterns=[z3.Select(r.t, *ks)]))
            if name in ('union', 'intersection', 'difference'):
                return [(s, s.new_cell(r, 's'))]
            s.store(o, r)
            return [(s, Val(UNIT, ()))]
        raise Unsupported('set.%s' % name)

    def map_method(self, s, o, name, args):
        m = self.rv(s, o)
        if name == 'get':
            if m.ty.k == UNIT:
                return [(s, args[1] if len(args) > 1 else Val(UNIT, ()))]
            k = self.coerce(self.rvc(s, args[0]), m.ty.k)
            v = m.get(*k.ls)
            if len(args) > 1:
                d = self.coerce(self.rvc(s, args[1]), v.ty)
                r = ite(m.has(*k.ls), v, d)
                return [(s, s.new_cell(r, 'g') if r.ty.mutable else r)]
            return [(s, Val(OPT(v.ty), (m.has(*k.ls),) + v.ls))]
        if name == 'keys':
            return [(s, s.new_cell(Val(SET(m.ty.k), m.ls[:1]), 'keys'))]
        if name == 'values':
            l = self.list_of_set(s, Val(SET(m.ty.k), m.ls[:1]))
            return [(s, Iter(l.len, lambda s, i: m.get(*l.at(i).ls), None))]
        if name == 'items':
            l = self.list_of_set(s, Val(SET(m.ty.k), m.ls[:1]))
            return [(s, Iter(l.len, lambda s, i: vtup(l.at(i), m.get(*l.at(i).ls)), None))]
        if name == 'setdefault' and isinstance(o, Ptr):
            k = self.coerce(self.rvc(s, args[0]), m.ty.k)
            d = self.coerce(self.rvc(s, args[1]), m.ty.v)
            nv = ite(m.has(*k.ls), m.get(*k.ls), d)
            p = o.sub(('k', k.ls), m.ty.v)
            s.store(p, nv)
            return [(s, p if m.ty.v.mutable else nv)]
        if name == 'update':
            b = self.rv(s, args[0])
            if b.ty != m.ty:
                raise Unsupported('map update')
            ks = [z3.Const(fresh_name('k'), x) for x in m.ty.k.sorts()]
            r = m.ty.fresh('mapupd')
            s.add(FA(ks, r.has(*ks) == z3.Or(m.has(*ks), b.has(*ks)), patterns=[r.has(*ks)]))
            for x, y, w in zip(r.ls[1:], m.ls[1:], b.ls[1:]):
                s.add(FA(ks, z3.Select(x, *ks) == z3.If(b.has(*ks), z3.Select(w, *ks), z3.Select(y, *ks)), patterns=[z3.Select(x, *ks)]))
            s.store(o, r)
            return [(s, Val(UNIT, ()))]
        raise Unsupported('dict.%s' % name)

    def rename(self, pat):
        for n, v in vars(self.m.mod).items():
            if v is pat:
                return n
        for cn in self.m.classes:
            c = getattr(self.m.mod, cn, None)
            for n, v in vars(c).items() if c else ():
                if v is pat:
                    return cn + '.' + n
        return 'anon:' + pat.pattern

    def re_method(self, s, pat, name, args):
        """match/search: uninterpreted result per pattern *text*; groups are strings
        contained in the subject."""
        key = '%s:%s:%d' % (name, pat.pattern, pat.flags)
        sub = self.rv(s, args[-1])
        if isinstance(sub.ty, OPT):
            sub = sub.val
        if name in ('match', 'search', 'fullmatch'):
            hit = uf('re.hit.' + key, BOOL, sub)
            gs = [uf('re.grp%d.%s' % (i + 1, key), STR, sub) for i in range(pat.groups)]
            ty = REC('$match', {'pat': CODE, 'start': INT, 'subject': STR, 'groups': TUP(*[STR] * pat.groups)})
            ty = match_ty(pat.groups)
            st = uf('re.start.' + key, INT, sub)
            s.add(z3.Implies(hit.t, z3.And(st.t >= 0, st.t <= z3.Length(sub.t))))
            v = Val(ty, (z3.IntVal(self.codes.code(pat)),) + st.ls + tuple(l for g in gs for l in g.ls))
            return [(s, Val(OPT(ty), (hit.t,) + v.ls))]
        if name == 'sub':
            a = [self.rv(s, x) for x in args]
            return [(s, uf('re.sub.' + key, STR, *a))]
        if name == 'findall':
            r = uf('re.findall.' + key, LIST(STR), sub)
            s.add(r.len >= 0)
            return [(s, s.new_cell(r, 'fa'))]
        raise Unsupported('re.%s' % name)

    # -------------------------------------------------------------- top level
    def setup(self):
        self.parents = {}
        self.frames_live = []
        self.nonlocals = {}
        self.vartypes = {}
        self.filters = {}
        self.comp_nodes = {}

    def verify(self, c):
        """Generate the obligations of one contract; returns list of Obligation."""
        self.setup()
        self.obls = []
        self.cur = c
        self.depth = 0
        if c.qual not in self.m.funcs:
            raise Unsupported('function %s not found' % c.qual)
        fn = self.m.funcs[c.qual]
        st = State()
        f = self.newframe(None)
        self.args = {}
        formal = [a.arg for a in fn.args.posonlyargs + fn.args.args]
        given = list(c.params.items())
        # parameters are matched by position, so renaming one changes nothing
        if len(formal) < len(given):
            raise Unsupported('signature of %s changed' % c.qual)
        for (pname, ty), fname in zip(given, formal):
            if isinstance(ty, Ty):
                v = ty.fresh(pname)
                self.range_facts(st, v)
                if ty.mutable:
                    v = st.new_cell(v, pname)
            else:
                v = ty(self, st)
            self.args[pname] = v
            st.env[(f, fname)] = v
        for i in range(len(given), len(formal)):
            j = i - (len(formal) - len(fn.args.defaults))
            if j < 0:
                raise Unsupported('signature of %s changed' % c.qual)
            st.env[(f, formal[i])] = self.ev(fn.args.defaults[j], st, None)[0][1]
        if c.ghost:
            for k, v in c.ghost(self, st).items():
                st.ghost[k] = v
        ctx = Ctx(self, st, self.args, st)
        if c.pre:
            for p in c.pre(ctx):
                st.add(p)
        self.entry = st.copy()
        ctx.st0 = self.entry
        # vacuity guard: the assumptions must be satisfiable
        r, _ = self.p.check_sat(st.pc)
        if r == z3.unsat:
            raise Unsupported('contradictory precondition for %s' % c.qual)
        isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_fn(fn))
        if isgen:
            st.env[(f, '$yield')] = st.new_cell(Val(LIST(UNIT), (z3.IntVal(0),)), 'y')
        nret = 0
        for s, oc in self.block(fn.body, st, f):
            if oc[0] in ('next', 'return'):
                nret += 1
                ret = Val(UNIT, ()) if oc[0] == 'next' else oc[1]
                if isgen:
                    ret = s.env[(f, '$yield')]
                cx = Ctx(self, self.entry, self.args, s, ret)
                for nm, g in c.post(cx):
                    self.oblige(nm, cx.st, g, c.qual)
            elif oc[0] == 'raise':
                cx = Ctx(self, self.entry, self.args, s, None)
                cx.exc = oc[1]
                if c.raises is None:
                    self.oblige('no-exception(%s)' % oc[1], s, z3.BoolVal(False), c.qual)
                else:
                    for nm, g in c.raises(cx, oc[1]):
                        self.oblige(nm, s, g, c.qual)
        self.inlined.discard(c.qual)
        return self.obls


class EffectInComp(Exception):
    pass


class RetypeNeeded(Exception):
    def __init__(self, cell, ty):
        self.cell, self.ty = cell, ty


_match_tys = {}


def match_ty(n):
    if n not in _match_tys:
        _match_tys[n] = REC('$match%d' % n, dict([('pat', CODE), ('start', INT)] + [('g%d' % (i + 1), STR) for i in range(n)]))
        _match_tys[n].mutable = False
        _match_tys[n].__class__ = MatchRec
    return _match_tys[n]


class MatchRec(REC):
    mutable = False


class PTuple:
    """A tuple holding non-value members (regexes, references)."""

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return 'PTuple(%r)' % (self.items,)


def tyname(t):
    if isinstance(t, REC):
        return t.name
    return str(t)


def _to_load(n):
    n = ast.parse(ast.unparse(n), mode='eval').body
    return n


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        d = dotted(e.value)
        return d + '.' + e.attr if d else None
    return None


def walk_fn(fn):
    """nodes of a function body, not descending into nested functions"""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda)):
                todo.append(c)


def unz(t):
    s = t.as_string()
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def fresh_consts(terms, k0, i0):
    out, seen = {}, set()
    todo = list(terms)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = t.decl().name()
                m = re.search(r'!(\d+)', nm)
                if m and int(m.group(1)) > k0 and not z3.eq(t, i0):
                    out[nm] = t
            todo += t.children()
    return list(out.values())
