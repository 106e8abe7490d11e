"""Equivalent texts of a Python module: a loop that only appends to a list, read as
the comprehension it spells out, and the other way round.  A unit whose proof fails
on the text as written is tried once on these; each rewriting keeps the behaviour."""
import ast, copy


def _names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def _append(st):
    """(list name, element) for `v.append(E)`"""
    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and not st.value.keywords and len(st.value.args) == 1 \
            and isinstance(st.value.func, ast.Attribute) and st.value.func.attr == 'append' and isinstance(st.value.func.value, ast.Name) \
            and not isinstance(st.value.args[0], ast.Starred):
        return st.value.func.value.id, st.value.args[0]
    return None


def _cond_body(body):
    """(condition or None, list, element) for the bodies `v.append(E)`, `if C: v.append(E)`, `if not C: continue; v.append(E)`"""
    if len(body) == 1:
        a = _append(body[0])
        if a:
            return (None,) + a
        b = body[0]
        if isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
            a = _append(b.body[0])
            if a:
                return (b.test,) + a
    if len(body) == 2 and isinstance(body[0], ast.If) and not body[0].orelse and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Continue):
        a = _append(body[1])
        if a:
            return (ast.UnaryOp(ast.Not(), body[0].test),) + a
    return None


def _bad(n):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(n))


def _leaks(fn, loop, names):
    """is a loop variable read outside this loop other than below a binding of its own?"""
    hit = False

    def walk(n, bound):
        nonlocal hit
        if n is loop:
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names - bound:
            hit = True
        if isinstance(n, (ast.For,)):
            walk(n.iter, bound)
            b = bound | _names(n.target)
            for c in n.body:
                walk(c, b)
            for c in n.orelse:
                walk(c, bound)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = set(bound)
            for g in n.generators:
                walk(g.iter, frozenset(b))
                b |= _names(g.target)
                for c in g.ifs:
                    walk(c, frozenset(b))
            for c in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                walk(c, frozenset(b))
            return
        for c in ast.iter_child_nodes(n):
            walk(c, bound)
    for s in fn.body:
        walk(s, frozenset())
    return hit


class ToComp(ast.NodeTransformer):
    def __init__(self):
        self.fn, self.tries, self.changed = [], 0, set()

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_Try(self, n):
        self.tries += 1
        self.generic_visit(n)
        self.tries -= 1
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if not self.fn or self.tries or n.orelse:
            return n
        r = _cond_body(n.body)
        if not r:
            return n
        cond, v, elt = r
        parts = [n.iter, elt] + ([cond] if cond is not None else [])
        if any(v in _names(p) or _bad(p) for p in parts) or v in _names(n.target) or _leaks(self.fn[-1], n, _names(n.target)):
            return n
        comp = ast.ListComp(elt=elt, generators=[ast.comprehension(target=n.target, iter=n.iter, ifs=[cond] if cond is not None else [], is_async=0)])
        self.changed.add(self.fn[0].name)
        return ast.copy_location(ast.Expr(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), 'extend', ast.Load()), [comp], [])), n)


def _merge_empty(fn, changed):
    """v = []; ...; v.extend(L)  ->  v = L   when the two stand next to each other"""
    class M(ast.NodeTransformer):
        def go(self, body):
            out = []
            for s in body:
                if out and isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'extend' \
                        and isinstance(s.value.func.value, ast.Name) and isinstance(s.value.args[0], ast.ListComp):
                    v = s.value.func.value.id
                    p = out[-1]
                    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and p.targets[0].id == v \
                            and isinstance(p.value, ast.List) and not p.value.elts:
                        out[-1] = ast.copy_location(ast.Assign([ast.Name(v, ast.Store())], s.value.args[0]), s)
                        continue
                out.append(s)
            return out

        def generic_visit(self, n):
            super().generic_visit(n)
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(n, f, None)
                if isinstance(b, list):
                    setattr(n, f, self.go(b))
            return n
    M().visit(fn)


class ToLoop(ast.NodeTransformer):
    """v = [E for x in it if C]  ->  v = []; for x': if C: v.append(E)"""

    def __init__(self):
        self.fn, self.changed, self.k = [], set(), 0

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_Assign(self, n):
        if not self.fn or len(n.targets) != 1 or not isinstance(n.targets[0], ast.Name) or not isinstance(n.value, ast.ListComp) or len(n.value.generators) != 1:
            return n
        c, v = n.value, n.targets[0].id
        if v in _names(c) or _bad(c):
            return n
        g = c.generators[0]
        inner = [x for x in ast.walk(c) if x is not c and isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Lambda))]
        if inner:
            return n
        self.k += 1
        ren = {x: '%s__c%d' % (x, self.k) for x in _names(g.target)}

        class R(ast.NodeTransformer):
            def visit_Name(self, m):
                return ast.copy_location(ast.Name(ren.get(m.id, m.id), m.ctx), m)
        e, t = R().visit(copy.deepcopy(c.elt)), R().visit(copy.deepcopy(g.target))
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), 'append', ast.Load()), [e], []))]
        for i in reversed(g.ifs):
            body = [ast.If(R().visit(copy.deepcopy(i)), body, [])]
        self.changed.add(self.fn[0].name)
        return [ast.copy_location(ast.Assign([ast.Name(v, ast.Store())], ast.List([], ast.Load())), n),
                ast.copy_location(ast.For(t, g.iter, body, [], None), n)]


def variants(tree):
    """[(rewritten tree, names of the functions it changed)]"""
    out = []
    t = copy.deepcopy(tree)
    v = ToComp()
    t = v.visit(t)
    if v.changed:
        _merge_empty(t, v.changed)
        ast.fix_missing_locations(t)
        out.append((t, v.changed))
    t = copy.deepcopy(tree)
    v = ToLoop()
    t = v.visit(t)
    if v.changed:
        ast.fix_missing_locations(t)
        out.append((t, v.changed))
    return out
