"""C++ front-end: symbolic execution of function bodies taken from clang's syntax
tree of the current source (clang -ast-dump=json), sharing loops, merging and
proving with the Python front-end.

Objects (every variable of object type) are cells, references are aliases of
cells, expressions of class type are values; clang's own implicit casts, copy
constructions and materialisations say where a copy happens."""
import ast as pyast
import hashlib, json, os, re, subprocess, tempfile
import z3
from .core import *
from .core import FA
from . import core
from .pyfe import PyExec, Contract, Ctx, LoopCtx, Iter, uf, uf_raw, Codes

CLANG = 'clang++-20'
FLAGS = ['-std=c++17', '-w', '-fno-exceptions', '-fno-rtti', '-I/usr/lib/llvm-20/include', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS',
         '-DIWYU_GIT_REV="rev"', '-DIWYU_RESOURCE_BINARY_PATH=""', '-DIWYU_RESOURCE_DIR=""', '-DNDEBUG']
NPOS = z3.IntVal(2 ** 64 - 1)
M64 = z3.IntVal(2 ** 64)
BIG = z3.IntVal(2 ** 60)
FUN = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')
INTS = {'int', 'unsigned int', 'unsigned', 'long', 'unsigned long', 'size_t', 'size_type', 'short', 'unsigned short', 'long long', 'unsigned long long', 'char', 'unsigned char', 'signed char',
        'std::size_t', 'difference_type', 'ptrdiff_t'}
UNSIGNED = {'unsigned int', 'unsigned', 'unsigned long', 'size_t', 'size_type', 'unsigned long long', 'std::size_t'}


def docs(text):
    d = json.JSONDecoder()
    i, n = 0, len(text)
    while True:
        while i < n and text[i] in ' \n\r\t':
            i += 1
        if i >= n:
            return
        if text[i] != '{':
            i = text.find('\n', i) + 1
            if i == 0:
                return
            continue
        o, i = d.raw_decode(text, i)
        yield o


class CxxModule:
    """The declarations of namespace include_what_you_use seen by one source file."""
    _cache = {}

    @classmethod
    def load(cls, repo, name):
        key = (repo, name)
        if key not in cls._cache:
            cls._cache[key] = cls(repo, name)
        return cls._cache[key]

    def __init__(self, repo, name):
        self.path = os.path.join(repo, name)
        r = subprocess.run([CLANG] + FLAGS + ['-I' + repo, '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=include_what_you_use', '-fsyntax-only', self.path],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode != 0:
            raise Unsupported('%s does not compile: %s' % (name, r.stderr[:500]))
        self.byid = {}       # declaration id -> node
        self.qual = {}       # declaration id -> qualified name (without the namespace)
        self.funcs = {}      # qualified name -> [definitions]
        self.defs = {}       # id of any declaration -> definition node
        self.records = {}    # qualified name -> node
        self.enums = {}      # enumerator id -> value
        self.globals = {}    # qualified name -> VarDecl
        seen = set()
        for d in docs(r.stdout):
            if d.get('id') in seen:
                continue
            seen.add(d.get('id'))
            self.index(d, [], None)
        for i, n in list(self.byid.items()):
            p = n.get('previousDecl')
            while p and p in self.byid and 'previousDecl' in self.byid[p]:
                p = self.byid[p]['previousDecl']
            if n['kind'] in FUN and self.has_body(n):
                j = i
                while j:
                    self.defs[j] = n
                    j = self.byid.get(j, {}).get('previousDecl')
        # declarations made after the definition
        for i, n in list(self.byid.items()):
            if n['kind'] in FUN and i not in self.defs:
                j = n.get('previousDecl')
                while j:
                    if j in self.defs:
                        self.defs[i] = self.defs[j]
                        break
                    j = self.byid.get(j, {}).get('previousDecl')

    @staticmethod
    def has_body(n):
        return any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', []))

    def index(self, n, path, rec):
        k = n.get('kind')
        name = n.get('name')
        i = n.get('id')
        if i and k and (k.endswith('Decl')):
            old = self.byid.get(i)
            if old is None or ('inner' in n and 'inner' not in old):
                self.byid[i] = n
            p = list(path)
            if k in FUN and rec is None and n.get('parentDeclContextId') in self.qual:
                # a method defined outside its class
                p = self.qual[n['parentDeclContextId']].split('::')
            q = '::'.join([x for x in p + ([name] if name else [])])
            self.qual[i] = q
            if k in FUN and self.has_body(n):
                n['$qual'] = q
                l = self.funcs.setdefault(q, [])
                if not any(x.get('id') == i for x in l):
                    l.append(n)
            elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') and n.get('completeDefinition'):
                self.records[q] = n
            elif k == 'VarDecl':
                n['$qual'] = q
                self.globals.setdefault(q, n)
                if any(True for _ in n.get('inner', [])):
                    self.globals[q] = n
        if k == 'EnumDecl':
            v = -1
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    ce = c.get('inner', [])
                    val = next((int(x['value']) for x in ce if x.get('kind') == 'ConstantExpr' and 'value' in x), None)
                    v = v + 1 if val is None else val
                    self.enums[c['id']] = v
                    self.qual[c['id']] = c['name']
            return
        sub = path
        if k == 'NamespaceDecl':
            sub = path if name in (None, 'include_what_you_use') else path + [name]
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl') and name:
            sub = path + [name]
        if k in FUN:
            # parameters and local declarations are found through their uses
            for c in n.get('inner', []):
                if c.get('kind') == 'ParmVarDecl':
                    self.byid[c['id']] = c
            return
        for c in n.get('inner', []):
            if isinstance(c, dict) and (c.get('kind', '').endswith('Decl')):
                self.index(c, sub, n if 'Record' in str(k) or 'Specialization' in str(k) else None)

    def find(self, q):
        """'name' or 'name/number-of-parameters'; the definition"""
        want = None
        if '@' in q:
            # an instance of a template, by a part of its parameter types
            q, sub = q.split('@')
            l = [f for f in self.funcs.get(q, []) if any(sub in json.dumps(p['type']) for p in params(f))]
            if len(l) != 1:
                raise Unsupported('%d instances of %s' % (len(l), q))
            return l[0]
        if '/' in q:
            q, want = q.rsplit('/', 1)
        l = self.funcs.get(q, [])
        if want is not None:
            l = [f for f in l if len(params(f)) == int(want)]
        if len(l) != 1:
            raise Unsupported('%d definitions of %s' % (len(l), q))
        return l[0]


def params(f):
    return [c for c in f.get('inner', []) if c.get('kind') == 'ParmVarDecl']


def body_of(f):
    return next(c for c in f['inner'] if c.get('kind') == 'CompoundStmt')


def qtype(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType') or ''


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


TYPEDEFS = {'IncludePicker::IncludeMap': 'map<string, vector<MappedInclude>>', 'IncludeMap': 'map<string, vector<MappedInclude>>',
            'VisibilityMap': 'map<string, IncludeVisibility>', 'IncludePicker::VisibilityMap': 'map<string, IncludeVisibility>'}


def clean(t):
    t = t.replace('std::', '').replace('include_what_you_use::', '').replace('__cxx11::', '').replace('(anonymous namespace)::', '').replace('llvm::', '').replace('clang::', '')
    t = re.sub(r'\b(const|volatile|class|struct|enum|typename)\b ?', '', t).strip()
    t = re.sub(r'\bconst\b', '', t).strip()
    return t


class Types:
    def __init__(self, records=None, enums=(), typedefs=None):
        self.records = records or {}
        self.typedefs = dict(TYPEDEFS)
        self.typedefs.update(typedefs or {})

    pairs = {}

    def isptr(self, t):
        t = clean(t)
        return t.endswith('*') and not re.match(r'^char ?\*$', t)

    def isref(self, t):
        return t.rstrip().endswith('&')

    def ty(self, t):
        """type of the values of an object of C++ type t (references stripped)"""
        t = clean(t).rstrip('& ').strip()
        if t in self.typedefs:
            return self.ty(self.typedefs[t])
        if t in ('string', 'basic_string<char>', 'char *', 'char*', 'StringRef', 'basic_string', 'string_view') or t.startswith('basic_string<char,') or re.match(r'^char ?\[\d*\]$', t) or t.startswith('SmallString<'):
            return STR
        if t == 'bool':
            return BOOL
        if t in INTS or t.endswith('size_type'):
            return INT
        if t == 'void':
            return UNIT
        m = re.match(r'^(\w+)<(.*)>$', t)
        if m:
            n, a = m.group(1), split_args(m.group(2))
            if n in ('vector', 'initializer_list', 'SmallVector', 'list', 'ArrayRef'):
                return LIST(self.ty(a[0]))
            if n in ('set', 'unordered_set'):
                return SET(self.ty(a[0]))
            if n in ('map', 'unordered_map'):
                return MAP(self.ty(a[0]), self.ty(a[1]))
            if n == 'pair':
                return self.pair(self.ty(a[0]), self.ty(a[1]))
        m = re.match(r'^(.*?) ?\[(\d*)\]$', t)
        if m:
            return LIST(self.ty(m.group(1)))
        if t in self.records:
            return self.records[t]
        s = t.split('::')[-1]
        if s in self.records:
            return self.records[s]
        if t.endswith('*') and self.ty(t[:-1].strip()) == STR and False:
            return STR
        if re.match(r'^[A-Za-z_][\w:]*( ?\*)?$', t):
            return REF(s.replace('*', '').strip())
        raise Unsupported('type %s' % t)

    def pair(self, a, b):
        k = (a.key(), b.key())
        if k not in self.pairs:
            r = REC('pair<%s,%s>' % (a.key(), b.key()), {'first': a, 'second': b})
            self.pairs[k] = r
        return self.pairs[k]


class ItV:
    """An iterator (or, in a range-for over a map, a reference to an element)."""

    def __init__(self, kind, cont, key=None, some=None, idx=None):
        self.kind, self.cont, self.key, self.some, self.idx = kind, cont, key, some, idx


class Stream:
    """An output stream: text that is only diagnostic, or collected in a cell."""

    def __init__(self, cell=None):
        self.cell = cell


STREAMS = ('raw_ostream', 'raw_fd_ostream', 'ostream')


def lit(s):
    """value of a C string literal as printed by clang"""
    m = re.match(r'^(u8|u|U|L)?R?"', s)
    b = s[s.index('"'):]
    out = pyast.literal_eval('b' + b if all(ord(c) < 128 for c in b) else 'b' + repr(b)[1:-1])
    return out.decode('latin-1')


def strtext(s):
    """z3 constant for a byte string"""
    return zstr(s)


class CxxExec(PyExec):
    def __init__(self, module, prover, contracts=None, models=None, records=None, check='prove', typedefs=None, others=()):
        self.funcs = {}
        super().__init__(module, prover, contracts, models, records)
        self.types = Types(records, typedefs=typedefs)
        self.check = check
        self.others = list(others)
        self.dropped = set()

    # ------------------------------------------------------------- utilities
    def ty(self, n):
        return self.types.ty(qtype(n))

    def tyq(self, q):
        return self.types.ty(q)

    def rv(self, st, v):
        if isinstance(v, Ptr):
            return st.load(v)
        if isinstance(v, ItV):
            return self.deref_it(st, v, load=True)
        return super().rv(st, v)

    def val(self, st, v, ty=None):
        v = self.rv(st, v)
        if ty is not None and isinstance(v, Val) and v.ty != ty:
            v = self.coerce(v, ty)
        return v

    def ptr(self, st, v, hint='tmp'):
        if isinstance(v, Ptr):
            return v
        if isinstance(v, Val):
            return st.new_cell(v, hint)
        raise Unsupported('no object for %r' % (v,))

    def key(self, fid, decl):
        """name of a local variable: its source name unless shadowed"""
        m = self.names.setdefault(fid, {})
        i, name = decl['id'], decl.get('name') or '_'
        if i not in m:
            if name in m.values():
                name = '%s#%d' % (name, len(m))
            m[i] = name
        return (fid, m[i])

    def wrap(self, t, x):
        """value of an unsigned 64-bit sum or difference"""
        t = clean(t)
        if t in ('unsigned long', 'size_t', 'size_type', 'unsigned long long') or t.endswith('size_type'):
            return z3.simplify(z3.If(x >= M64, x - M64, z3.If(x < 0, x + M64, x)))
        if t in ('unsigned int', 'unsigned'):
            w = z3.IntVal(2 ** 32)
            return z3.simplify(z3.If(x >= w, x - w, z3.If(x < 0, x + w, x)))
        return z3.simplify(x)

    # ------------------------------------------------------------- statements
    def block(self, stmts, st, fid):
        return super().block(stmts, st, fid)

    def stmt(self, n, st, fid):
        k = n.get('kind')
        m = getattr(self, 's_' + str(k), None)
        if m is not None:
            return m(n, st, fid)
        if k is None:
            return [(st, ('next',))]
        return [(s, ('next',)) if not self.isexc(v) else (s, ('raise',) + v[1:]) for s, v in self.ev(n, st, fid)]

    def s_NullStmt(self, n, st, fid):
        return [(st, ('next',))]

    def s_CompoundStmt(self, n, st, fid):
        return self.block([c for c in n.get('inner', [])], st, fid)

    def s_DeclStmt(self, n, st, fid):
        cur = [st]
        for d in n['inner']:
            if d['kind'] in ('UsingDecl', 'TypedefDecl', 'UsingDirectiveDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'CXXRecordDecl', 'EnumDecl', 'BuiltinTemplateDecl', 'UsingShadowDecl'):
                continue
            if d['kind'] != 'VarDecl':
                raise Unsupported('declaration %s' % d['kind'])
            nxt = []
            for s in cur:
                nxt += self.declare(d, s, fid)
            cur = nxt
        return [(s, ('next',)) for s in cur]

    def declare(self, d, st, fid):
        q = qtype(d)
        init = [c for c in d.get('inner', []) if c.get('kind') and not c['kind'].endswith('Attr')]
        if d.get('storageClass') == 'static':
            raise Unsupported('static local %s' % d.get('name'))
        k = self.key(fid, d)
        if not init:
            st = st.copy()
            if self.types.isptr(q):
                st.env[k] = UNDEF
                return [st]
            if clean(q).startswith('raw_'):
                raise Unsupported('stream without target')
            t = self.types.ty(q)
            st.env[k] = st.new_cell(self.default(t) if not isinstance(t, Prim) else t.fresh(d['name']), d['name'])
            return [st]
        out = []
        for s, v in self.ev(init[0], st, fid):
            s = s.copy()
            s.env[k] = self.bind_value(s, q, v, d.get('name', '_'))
            out.append(s)
        return out

    def bind_value(self, s, q, v, name):
        """what a variable or parameter of type q holds when initialised with v"""
        if isinstance(v, (Closure, Stream)):
            return v
        if self.types.isref(q):
            if isinstance(v, (Ptr, ItV, NPtr)):
                return v
            return s.new_cell(v, name)
        if isinstance(v, (NPtr, ItV)) and not (isinstance(v, ItV) and v.kind == 'elem'):
            return v
        if self.types.isptr(q) and isinstance(v, Ptr):
            # the value of an opaque pointer
            return s.load(v) if isinstance(v.ty, Prim) else NPtr(z3.BoolVal(True), v)
        x = self.rv(s, v)
        try:
            t = self.types.ty(q)
            x = self.coerce(x, t)
        except Unsupported:
            pass
        return s.new_cell(x, name)

    def default(self, t):
        if t == STR:
            return vstr('')
        if isinstance(t, LIST):
            return empty_list(t.t)
        if isinstance(t, SET):
            return empty_set(t.k)
        if isinstance(t, MAP):
            return empty_map(t.k, t.v)
        if t == INT:
            return vint(0)
        if t == BOOL:
            return vbool(False)
        if isinstance(t, REC):
            return Val(t, tuple(l for f in t.fields.values() for l in self.default(f).ls))
        if isinstance(t, OPT):
            return vnone(t.t)
        return t.fresh('dflt')

    def s_IfStmt(self, n, st, fid):
        ch = list(n['inner'])
        pre = []
        if n.get('hasInit'):
            pre.append(ch.pop(0))
        if n.get('hasVar'):
            pre.append(ch.pop(0))
        cond, then = ch[0], ch[1]
        els = ch[2] if len(ch) > 2 else None
        cur = [st]
        for p in pre:
            nx = []
            for s in cur:
                nx += [s2 for s2, _ in self.stmt(p, s, fid)]
            cur = nx
        out = []
        for s0 in cur:
            for s, c in self.cond(cond, s0, fid):
                c = z3.simplify(c)
                for br, cc in ((then, c), (els, z3.simplify(z3.Not(c)))):
                    if z3.is_false(cc):
                        continue
                    b = s.assume(cc)
                    if not z3.is_true(cc) and self.dead(b):
                        continue
                    out += self.stmt(br, b, fid) if br is not None else [(b, ('next',))]
        nx = self.merge([s for s, oc in out if oc[0] == 'next'])
        return [(s, ('next',)) for s in nx] + [x for x in out if x[1][0] != 'next']

    def cond(self, e, st, fid):
        out = []
        for s, v in self.ev(e, st, fid):
            out.append((s, self.truthv(s, v)))
        return out

    def truthv(self, s, v):
        if isinstance(v, NPtr):
            return v.some
        v = self.rv(s, v)
        if v.ty == BOOL:
            return v.t
        if v.ty == INT:
            return v.t != 0
        h = self.models.get('truth:%s' % (v.ty,))
        if h:
            return h(self, s, v)
        if isinstance(v.ty, OPT):
            return v.some
        if v.ty == STR:
            return z3.BoolVal(True)     # a character pointer to a literal
        raise Unsupported('condition of type %s' % (v.ty,))

    def s_ReturnStmt(self, n, st, fid):
        if not n.get('inner'):
            return [(st, ('return', Val(UNIT, ())))]
        return [(s, ('return', v)) if not self.isexc(v) else (s, ('raise',) + v[1:]) for s, v in self.ev(n['inner'][0], st, fid)]

    def s_BreakStmt(self, n, st, fid):
        return [(st, ('break',))]

    def s_ContinueStmt(self, n, st, fid):
        return [(st, ('continue',))]

    def s_WhileStmt(self, n, st, fid):
        ch = n['inner']
        if n.get('hasVar'):
            raise Unsupported('while with declaration')
        return self.loop(N(n), st, fid, None, lambda s, f: self.cond(ch[0], s, f), lambda s, i: self.stmt(ch[1], s, fid), None)

    def s_DoStmt(self, n, st, fid):
        body, cond = n['inner'][0], n['inner'][1]
        out, nxt = [], []
        for s, oc in self.stmt(body, st, fid):
            if oc[0] in ('next', 'continue'):
                nxt.append(s)
            elif oc[0] == 'break':
                out.append((s, ('next',)))
            else:
                out.append((s, oc))
        for s in self.merge(nxt):
            out += self.loop(N(n), s, fid, None, lambda s2, f: self.cond(cond, s2, f), lambda s2, i: self.stmt(body, s2, fid), None)
        sts = self.merge([s for s, oc in out if oc[0] == 'next'])
        return [(s, ('next',)) for s in sts] + [x for x in out if x[1][0] != 'next']

    def s_ForStmt(self, n, st, fid):
        init, cv, cond, inc, body = n['inner']
        out = []
        for s, oc in self.stmt(init, st, fid) if init.get('kind') else [(st, ('next',))]:
            def step(s2, idx):
                res = []
                nxt = []
                for s3, o in self.stmt(body, s2, fid):
                    if o[0] in ('next', 'continue'):
                        nxt.append(s3)
                    else:
                        res.append((s3, o))
                for s3 in self.merge(nxt):
                    for s4, v in self.ev(inc, s3, fid) if inc.get('kind') else [(s3, None)]:
                        res.append((s4, ('next',)))
                return res
            out += self.loop(N(n), s, fid, None, (lambda s2, f: self.cond(cond, s2, f)) if cond.get('kind') else (lambda s2, f: [(s2, z3.BoolVal(True))]), step, None)
        return out

    def s_CXXForRangeStmt(self, n, st, fid):
        ch = n['inner']
        rng = ch[1]['inner'][0]['inner'][0]
        var, body = ch[6]['inner'][0], ch[7]
        out = []
        for s, r in self.ev(rng, st, fid):
            s = s.copy()
            v = self.rv(s, r) if isinstance(r, (Ptr, Val)) else r
            if not isinstance(v, Val):
                raise Unsupported('range %r' % (v,))
            byref = self.types.isref(qtype(var))
            if isinstance(v.ty, REC) and 'range:' + v.ty.name in self.models:
                it = self.models['range:' + v.ty.name](self, s, v)
            elif isinstance(v.ty, LIST):
                n_ = v.len
                at = (lambda s2, i: r.sub(('i', (i,)), v.ty.t)) if isinstance(r, Ptr) and byref else (lambda s2, i: v.at(i))
                it = Iter(n_, at, v)
            elif v.ty == STR:
                it = Iter(z3.Length(v.t), lambda s2, i: vint(z3.StrToCode(z3.SubString(v.t, i, 1))), v)
            elif isinstance(v.ty, (SET, MAP)):
                ks = v if isinstance(v.ty, SET) else Val(SET(v.ty.k), v.ls[:1])
                l = self.list_of_set(s, ks)
                if isinstance(v.ty, SET):
                    it = Iter(l.len, lambda s2, i: l.at(i), l)
                else:
                    m = self.ptr(s, r)
                    it = Iter(l.len, lambda s2, i: ItV('elem', m, l.at(i).ls, z3.BoolVal(True)), l)
            else:
                raise Unsupported('range over %s' % (v.ty,))
            it.cont = v

            def step(s2, idx):
                s2 = s2.copy()
                s2.env[self.key(fid, var)] = self.bind_value(s2, qtype(var), it.at(s2, idx), var['name'])
                return self.stmt(body, s2, fid)
            nn = z3.simplify(it.n)
            if z3.is_int_value(nn) and nn.as_long() <= 24:
                out += self.unrollc(step, s, nn.as_long())
            else:
                out += self.loop(N(n), s, fid, it, None, step, None)
        return out

    def unrollc(self, step, st, cnt):
        cur, done = [st], []
        for i in range(cnt):
            nxt = []
            for s in cur:
                for s2, oc in step(s, z3.IntVal(i)):
                    if oc[0] in ('next', 'continue'):
                        nxt.append(s2)
                    elif oc[0] == 'break':
                        done.append((s2, ('next',)))
                    else:
                        done.append((s2, oc))
            cur = self.merge(nxt)
            if len(cur) > 1:
                cur = [c for c in cur if not self.dead(c)]
        done += [(s, ('next',)) for s in cur]
        nx = self.merge([s for s, oc in done if oc[0] == 'next'])
        return [(s, ('next',)) for s in nx] + [x for x in done if x[1][0] != 'next']

    def s_SwitchStmt(self, n, st, fid):
        cond, body = n['inner'][-2], n['inner'][-1]
        # flatten: [(labels or None, [statements])]
        groups = []
        for c in body.get('inner', []):
            labels = []
            while c.get('kind') in ('CaseStmt', 'DefaultStmt'):
                labels.append(None if c['kind'] == 'DefaultStmt' else c['inner'][0])
                c = c['inner'][-1]
            if labels:
                groups.append((labels, [c]))
            elif groups:
                groups[-1][1].append(c)
        out = []
        for s, v in self.ev(cond, st, fid):
            v = self.rv(s, v)
            rest = s
            lv = []
            for labels, _ in groups:
                l = []
                for x in labels:
                    l.append(None if x is None else self.rv(s, self.ev(x, s, fid)[0][1]).t)
                lv.append(l)
            alll = [x for l in lv for x in l if x is not None]
            taken = []
            for i, l in enumerate(lv):
                c = [v.t == x for x in l if x is not None]
                if None in l:
                    c.append(z3.Not(z3.Or([v.t == x for x in alll])) if alll else z3.BoolVal(True))
                taken.append((i, z3.simplify(z3.Or(c))))
            for i, c in taken:
                b = s.assume(c)
                if self.dead(b):
                    continue
                stm = [x for _, g in groups[i:] for x in g]
                for s2, oc in self.block(stm, b, fid):
                    out.append((s2, ('next',) if oc[0] == 'break' else oc))
            if not any(None in l for l in lv):
                b = s.assume(z3.Not(z3.Or([c for _, c in taken])))
                if not self.dead(b):
                    out.append((b, ('next',)))
        nx = self.merge([s for s, oc in out if oc[0] == 'next'])
        return [(s, ('next',)) for s in nx] + [x for x in out if x[1][0] != 'next']

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, fid):
        k = n.get('kind')
        m = getattr(self, 'e_' + str(k), None)
        if m is None:
            raise Unsupported('expression %s' % k)
        return m(n, st, fid)

    def evl(self, ns, st, fid):
        cur = [(st, [])]
        for n in ns:
            nx = []
            for s, vs in cur:
                for s2, v in self.ev(n, s, fid):
                    nx.append((s2, vs + [v]))
            cur = nx
        return cur

    def one(self, n, st, fid):
        return self.ev(n['inner'][0], st, fid)

    def e_CXXDefaultArgExpr(self, n, st, fid):
        """a default argument of a library function is only a value if something asks for it"""
        try:
            return self.one(n, st, fid)
        except Unsupported as e:
            return [(st, Conc(('default-argument', str(e))))]

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = e_CXXDefaultInitExpr = e_FullExpr = one

    def e_IntegerLiteral(self, n, st, fid):
        return [(st, vint(int(n['value'])))]

    def e_CharacterLiteral(self, n, st, fid):
        return [(st, vint(int(n['value'])))]

    def e_CXXBoolLiteralExpr(self, n, st, fid):
        return [(st, vbool(bool(n['value'])))]

    def e_StringLiteral(self, n, st, fid):
        return [(st, vstr(lit(n['value'])))]

    def e_CXXNullPtrLiteralExpr(self, n, st, fid):
        return [(st, NPtr(z3.BoolVal(False), None))]

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_MaterializeTemporaryExpr(self, n, st, fid):
        out = []
        for s, v in self.one(n, st, fid):
            if isinstance(v, Val):
                s = s.copy()
                v = s.new_cell(v, 'tmp')
            out.append((s, v))
        return out

    def e_CXXThisExpr(self, n, st, fid):
        return [(st, NPtr(z3.BoolVal(True), st.env[(fid, '$this')]))]

    def e_DeclRefExpr(self, n, st, fid):
        d = n['referencedDecl']
        k = d['kind']
        if k == 'EnumConstantDecl':
            v = self.m.enums.get(d['id'])
            if v is None:
                h = self.models.get('enum:' + d['name'])
                if h is None:
                    raise Unsupported('enumerator %s' % d['name'])
                v = h
            return [(st, vint(v))]
        if k in FUN:
            return [(st, Conc(('cfunc', d['id'], d.get('name'))))]
        f = fid
        while f is not None:
            nm = self.names.get(f, {}).get(d['id'])
            if nm is not None and (f, nm) in st.env:
                v = st.env[(f, nm)]
                if v is UNDEF:
                    raise Unsupported('use of undefined variable %s' % nm)
                return [(st, v)]
            f = self.parents.get(f)
        if d['name'] == 'npos':
            return [(st, Val(INT, (NPOS,)))]
        g = self.models.get('global:' + d['name'])
        if g is not None:
            return [(st, g(self, st) if callable(g) else g)]
        gd = self.m.globals.get(self.m.qual.get(d['id'], d['name']))
        if gd is not None:
            init = [c for c in gd.get('inner', []) if c.get('kind')]
            if init and ('const' in qtype(gd) or 'char *[' in qtype(gd)):
                return self.ev(init[0], st, fid)
        raise Unsupported('variable %s' % d.get('name'))

    def e_MemberExpr(self, n, st, fid):
        out = []
        name = n['name']
        for s, o in self.one(n, st, fid):
            if n.get('isArrow') and not isinstance(o, ItV):
                s, o = self.deref(s, o)
            if isinstance(o, PairV):
                out.append((s, o.first if name == 'first' else o.second))
                continue
            if isinstance(o, ItV):
                if name == 'first':
                    out.append((s, Val(self.rv(s, o.cont).ty.k, o.key)))
                    continue
                if name == 'second':
                    self.it_ok(s, o)
                    out.append((s, o.cont.sub(('k', tuple(o.key)), o.cont.ty.v)))
                    continue
                x = self.deref_it(s, o)
                o = x
            h = self.models.get('field:%s.%s' % (tyn(o.ty), name))
            if h:
                out += h(self, s, o)
                continue
            if isinstance(o, Val):
                if isinstance(o.ty, REC) and name in o.ty.fields:
                    out.append((s, o.f(name)))
                    continue
                raise Unsupported('member %s of %s' % (name, o.ty))
            if isinstance(o.ty, REC) and name in o.ty.fields:
                fty = o.ty.fields[name]
                p = o.sub(('f', name), fty)
                if isinstance(fty, REC) and fty.name.startswith('$ptr'):
                    out.append((s, p))
                else:
                    out.append((s, p))
                continue
            raise Unsupported('member %s of %s' % (name, o.ty))
        return out

    def deref(self, s, o):
        """object behind a pointer value"""
        if isinstance(o, NPtr):
            if not z3.is_true(o.some):
                s = s.copy()
                self.oblige('no-null-dereference', s, o.some, 'implicit')
                s.add(o.some)
            if o.ptr is None:
                raise Unsupported('null dereference')
            return s, o.ptr
        if isinstance(o, Ptr):
            return s, o
        if isinstance(o, Val):
            return s, o
        raise Unsupported('dereference of %r' % (o,))

    def it_ok(self, s, o):
        if o.some is not None and not z3.is_true(o.some):
            self.oblige('iterator-is-dereferenceable', s, o.some, 'implicit')
            s.add(o.some)

    def deref_it(self, s, o, load=False):
        if o.kind in ('vec', 'str'):
            c = s.load(o.cont)
            ln = c.len if o.kind == 'vec' else z3.Length(c.t)
            self.oblige('iterator-is-dereferenceable', s, z3.And(0 <= o.idx, o.idx < ln), 'implicit')
            if o.kind == 'str':
                return vint(z3.StrToCode(z3.SubString(c.t, o.idx, 1)))
            p = o.cont.sub(('i', (o.idx,)), c.ty.t)
            return s.load(p) if load else p
        if o.kind in ('map', 'elem'):
            self.it_ok(s, o)
            c = s.load(o.cont)
            t = self.types.pair(c.ty.k, c.ty.v)
            return Val(t, tuple(o.key) + c.get(*o.key).ls)
        if o.kind == 'set':
            self.it_ok(s, o)
            c = s.load(o.cont)
            return Val(c.ty.k, o.key)
        raise Unsupported('dereference of %s iterator' % o.kind)

    def e_ImplicitCastExpr(self, n, st, fid):
        ck = n.get('castKind')
        out = []
        for s, v in self.one(n, st, fid):
            out.append((s, self.cast(ck, n, s, v)))
        return out

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def cast(self, ck, n, s, v):
        if ck == 'LValueToRValue':
            if isinstance(v, ItV):
                return self.deref_it(s, v, load=True) if v.kind == 'elem' else v
            return self.rv(s, v) if isinstance(v, Ptr) else v
        if ck in ('NoOp', 'FunctionToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'ArrayToPointerDecay', 'BuiltinFnToFnPtr', 'BitCast'):
            return v
        if ck == 'NullToPointer':
            return NPtr(z3.BoolVal(False), None)
        if ck in ('PointerToBoolean', 'IntegralToBoolean'):
            return vbool(self.truthv(s, v))
        if ck == 'IntegralCast':
            x = self.rv(s, v)
            if x.ty == BOOL:
                return vint(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
            src = clean(qtype(n['inner'][0]))
            dst = clean(qtype(n))
            if dst in UNSIGNED and src not in UNSIGNED:
                return vint(self.wrap(dst, x.t))
            return x
        if ck == 'ToVoid':
            return Val(UNIT, ())
        raise Unsupported('cast %s' % ck)

    def e_UnaryOperator(self, n, st, fid):
        op = n['opcode']
        out = []
        for s, v in self.one(n, st, fid):
            if op == '!':
                out.append((s, vbool(z3.simplify(z3.Not(self.truthv(s, v))))))
            elif op == '&':
                if isinstance(v, (Ptr,)):
                    out.append((s, NPtr(z3.BoolVal(True), v)))
                elif isinstance(v, (Conc, NPtr)):
                    out.append((s, v))
                elif isinstance(v, Val):
                    s = s.copy()
                    out.append((s, NPtr(z3.BoolVal(True), s.new_cell(v, 'adr'))))
                else:
                    raise Unsupported('address of %r' % (v,))
            elif op == '*':
                if isinstance(v, ItV):
                    out.append((s, v if v.kind in ('map', 'elem') else self.deref_it(s, v)))
                else:
                    out.append(self.deref(s, v))
            elif op in ('++', '--'):
                s = s.copy()
                d = 1 if op == '++' else -1
                old = self.rv(s, v)
                new = vint(self.wrap(qtype(n), old.t + d))
                s.store(v, new)
                out.append((s, v if not n.get('isPostfix') else old))
            elif op == '-':
                out.append((s, vint(-self.rv(s, v).t)))
            elif op == '+':
                out.append((s, self.rv(s, v)))
            else:
                raise Unsupported('unary %s' % op)
        return out

    def e_BinaryOperator(self, n, st, fid):
        op = n['opcode']
        a, b = n['inner']
        if op in ('&&', '||'):
            out = []
            for s, v in self.ev(a, st, fid):
                c = z3.simplify(self.truthv(s, v))
                go = c if op == '&&' else z3.simplify(z3.Not(c))
                rs = []
                if not z3.is_true(go):
                    rs.append((s.assume(z3.Not(go)), vbool(op == '||')))
                if not z3.is_false(go):
                    g = s.assume(go)
                    if z3.is_true(go) or not self.dead(g):
                        for s2, w in self.ev(b, g, fid):
                            rs.append((s2, vbool(z3.simplify(self.truthv(s2, w)))))
                out += self.merge_vals(rs)
            return out
        if op == '=':
            return self.assignc(a, b, st, fid)
        if op == ',':
            out = []
            for s, _ in self.ev(a, st, fid):
                out += self.ev(b, s, fid)
            return out
        out = []
        for s, (x, y) in self.evl([a, b], st, fid):
            out.append((s, self.binary(s, op, x, y, qtype(n))))
        return out

    def assignc(self, a, b, st, fid):
        out = []
        for s, v in self.ev(b, st, fid):
            # a pointer variable is rebound, an object is overwritten
            if a.get('kind') == 'DeclRefExpr' and self.types.isptr(qtype(a)) and not isinstance(v, Val):
                s = s.copy()
                d = a['referencedDecl']
                f = fid
                while f is not None and d['id'] not in self.names.get(f, {}):
                    f = self.parents.get(f)
                if f is None:
                    raise Unsupported('assignment to global pointer')
                s.env[self.key(f, d)] = v
                out.append((s, v))
                continue
            for s2, p in self.lval(a, s, fid):
                s2 = s2.copy()
                x = self.rv(s2, v) if not isinstance(v, NPtr) else self.nptr_val(s2, v, p)
                s2.store(p, self.coerce(x, p.ty))
                out.append((s2, p))
        return out

    def nptr_val(self, s, v, p):
        raise Unsupported('pointer stored in an object')

    def lval(self, a, st, fid):
        out = []
        for s, p in self.ev(a, st, fid):
            if isinstance(p, ItV):
                p = self.deref_it(s, p)
            if not isinstance(p, Ptr):
                raise Unsupported('assignment to %r' % (p,))
            out.append((s, p))
        return out

    def e_CompoundAssignOperator(self, n, st, fid):
        a, b = n['inner']
        out = []
        for s, (p, v) in self.evl([a, b], st, fid):
            s = s.copy()
            r = self.binary(s, n['opcode'][:-1], s.load(p), v, qtype(n))
            s.store(p, r)
            out.append((s, p))
        return out

    def binary(self, s, op, x, y, t):
        if isinstance(x, NPtr) or isinstance(y, NPtr):
            return vbool(self.ptr_eq(s, op, x, y))
        if isinstance(x, ItV) or isinstance(y, ItV):
            return self.it_op(s, op, x, y)
        a, b = self.rv(s, x), self.rv(s, y)
        if a.ty == BOOL and op in ('==', '!=', '|', '&', '^') and b.ty == BOOL:
            f = {'==': a.t == b.t, '!=': a.t != b.t, '|': z3.Or(a.t, b.t), '&': z3.And(a.t, b.t), '^': z3.Xor(a.t, b.t)}[op]
            return vbool(f)
        if op in ('==', '!='):
            e = eq(a, b) if a.ty == b.ty else eq(a, self.coerce(b, a.ty))
            return vbool(z3.simplify(e if op == '==' else z3.Not(e)))
        if a.ty == BOOL:
            a = vint(z3.If(a.t, z3.IntVal(1), z3.IntVal(0)))
        if b.ty == BOOL:
            b = vint(z3.If(b.t, z3.IntVal(1), z3.IntVal(0)))
        if a.ty == STR and b.ty == STR:
            f = {'<': a.t < b.t, '>': b.t < a.t, '<=': a.t <= b.t, '>=': b.t <= a.t}
            if op in f:
                return vbool(f[op])
        if a.ty != INT or b.ty != INT:
            raise Unsupported('%s on %s and %s' % (op, a.ty, b.ty))
        if op in ('<', '>', '<=', '>='):
            return vbool({'<': a.t < b.t, '>': a.t > b.t, '<=': a.t <= b.t, '>=': a.t >= b.t}[op])
        if op in ('+', '-'):
            return vint(self.wrap(t, a.t + b.t if op == '+' else a.t - b.t))
        if op == '*':
            return vint(a.t * b.t)
        if op == '/':
            self.oblige('no-division-by-zero', s, b.t != 0, 'implicit')
            return vint(z3.If(a.t >= 0, a.t / b.t, -((-a.t) / b.t)))
        if op == '%':
            self.oblige('no-division-by-zero', s, b.t != 0, 'implicit')
            return vint(a.t % b.t)
        raise Unsupported('operator %s' % op)

    def ptr_eq(self, s, op, x, y):
        if isinstance(x, Ptr):
            x = NPtr(z3.BoolVal(True), x)
        if isinstance(y, Ptr):
            y = NPtr(z3.BoolVal(True), y)
        if isinstance(x, Val) and isinstance(y, NPtr) and y.ptr is None:
            e = z3.Not(self.truthv(s, x))
        elif isinstance(y, Val) and isinstance(x, NPtr) and x.ptr is None:
            e = z3.Not(self.truthv(s, y))
        elif x.ptr is None or y.ptr is None:
            e = z3.And(z3.Not(x.some), z3.Not(y.some)) if x.ptr is None and y.ptr is None else z3.Not(x.some if y.ptr is None else y.some)
        else:
            raise Unsupported('comparison of pointers')
        return z3.simplify(e if op == '==' else z3.Not(e))

    def it_op(self, s, op, x, y):
        if op in ('+', '-') and isinstance(x, ItV) and x.kind in ('vec', 'str'):
            if isinstance(y, ItV):
                return vint(x.idx - y.idx)
            d = self.rv(s, y).t
            return ItV(x.kind, x.cont, idx=z3.simplify(x.idx + d if op == '+' else x.idx - d))
        if op in ('==', '!='):
            if x.kind in ('vec', 'str') and y.kind in ('vec', 'str'):
                e = x.idx == y.idx
            elif y.kind == 'end' or x.kind == 'end':
                o = x if y.kind == 'end' else y
                if o.kind == 'end':
                    e = z3.BoolVal(True)
                else:
                    e = z3.Not(o.some)
            elif x.kind == y.kind:
                e = z3.Or(z3.And(z3.Not(x.some), z3.Not(y.some)), z3.And([x.some, y.some] + [a == b for a, b in zip(x.key, y.key)]))
            else:
                raise Unsupported('iterator comparison')
            return vbool(z3.simplify(e if op == '==' else z3.Not(e)))
        raise Unsupported('iterator %s' % op)

    def e_ConditionalOperator(self, n, st, fid):
        c, a, b = n['inner']
        if clean(qtype(n)) == 'void' and 'FatalMessageEmitter' in json.dumps(b):
            out = []
            for s, f in self.cond(c, st, fid):
                if self.check == 'prove':
                    self.oblige('check-holds(%s)' % check_text(b), s, f, 'implicit')
                out.append((s.assume(z3.simplify(f)), Val(UNIT, ())))
            return out
        out = []
        for s, f in self.cond(c, st, fid):
            f = z3.simplify(f)
            rs = []
            if not z3.is_false(f):
                rs += self.ev(a, s.assume(f), fid)
            if not z3.is_true(f):
                rs += self.ev(b, s.assume(z3.Not(f)), fid)
            if n.get('valueCategory') == 'lvalue':
                out += rs
            else:
                out += self.merge_vals(rs)
        return out

    def e_ArraySubscriptExpr(self, n, st, fid):
        out = []
        for s, (a, i) in self.evl(n['inner'], st, fid):
            out += self.subscript(s, a, i, n)
        return out

    def subscript(self, s, a, i, n):
        s = s.copy()
        if isinstance(a, NPtr):
            s, a = self.deref(s, a)
        v = self.rv(s, a)
        if v.ty == STR:
            j = self.rv(s, i).t
            # s[s.size()] is the terminating zero
            self.oblige('index-in-range', s, z3.And(0 <= j, j <= z3.Length(v.t)), 'implicit')
            ch = z3.SubString(v.t, j, 1)
            return [(s, vint(z3.If(j == z3.Length(v.t), z3.IntVal(0), z3.StrToCode(ch))))]
        if isinstance(v.ty, LIST):
            j = self.rv(s, i).t
            self.oblige('index-in-range', s, z3.And(0 <= j, j < v.len), 'implicit')
            if isinstance(a, Ptr):
                return [(s, a.sub(('i', (j,)), v.ty.t))]
            return [(s, v.at(j))]
        if isinstance(v.ty, MAP) and isinstance(a, Ptr):
            k = self.coerce(self.rv(s, i), v.ty.k)
            d = ite(v.has(*k.ls), v.get(*k.ls), self.default(v.ty.v))
            p = a.sub(('k', k.ls), v.ty.v)
            s.store(p, d)
            return [(s, p)]
        raise Unsupported('subscript of %s' % (v.ty,))

    def e_CXXConstructExpr(self, n, st, fid):
        t = clean(qtype(n))
        args = [c for c in n.get('inner', [])]
        out = []
        if t.startswith('raw_string_ostream'):
            return [(s, Stream(self.deref(s, a[0])[1])) for s, a in self.evl(args[:1], st, fid)]
        h = self.models.get('ctor:' + t.split('::')[-1])
        if h:
            return [r for s, a in self.evl(args, st, fid) for r in h(self, s.copy(), a)]
        # default arguments (allocators, comparators) carry no value
        args = [c for c in args if not re.match(r'^(allocator|less|hash|equal_to)<', clean(qtype(c)).split('::')[-1])]
        for s, a in self.evl(args, st, fid):
            out += self.construct_value(n, t, s, a, fid)
        return out

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct_value(self, n, t, s, a, fid):
        if len(a) == 1 and isinstance(a[0], (NPtr, Closure, Stream)) or (len(a) == 1 and isinstance(a[0], ItV) and a[0].kind != 'elem'):
            return [(s, a[0])]
        ty = self.types.ty(t)
        if not a:
            if isinstance(ty, REC) and not ty.name.startswith('pair<'):
                r = self.ctor(n, ty, t, s, a, fid)
                if r is not None:
                    return r
            return [(s, self.default(ty))]
        if len(a) == 1 and not isinstance(a[0], ItV):
            v = self.rv(s, a[0])
            if v.ty == ty:
                return [(s, v)]
            if isinstance(v.ty, LIST) and isinstance(ty, SET):
                s = s.copy()
                return [(s, self.set_of_list(s, v))]
            if ty == STR and v.ty == INT:
                raise Unsupported('string from int')
            if ty == STR and v.ty == STR:
                return [(s, v)]
            if isinstance(ty, LIST) and v.ty == INT:
                raise Unsupported('vector of a given size')
            if not isinstance(ty, REC):
                return [(s, self.coerce(v, ty))]
        if ty == STR and len(a) == 2 and all(isinstance(x, ItV) for x in a):
            base = s.load(a[0].cont).t
            i, j = a[0].idx, a[1].idx
            s = s.copy()
            self.oblige('range-in-string', s, z3.And(0 <= i, i <= j, j <= z3.Length(base)), 'implicit')
            return [(s, Val(STR, (z3.SubString(base, i, j - i),)))]
        if ty == STR and len(a) == 2 and self.rv(s, a[0]).ty == STR and self.rv(s, a[1]).ty == INT:
            b, k = self.rv(s, a[0]).t, self.rv(s, a[1]).t
            s = s.copy()
            self.oblige('range-in-string', s, z3.And(0 <= k, k <= z3.Length(b)), 'implicit')
            return [(s, Val(STR, (z3.SubString(b, 0, k),)))]
        if ty == STR and len(a) == 2 and self.rv(s, a[0]).ty == INT:
            s = s.copy()
            return [(s, self.repeat_char(s, self.rv(s, a[0]).t, self.rv(s, a[1]).t))]
        if isinstance(ty, REC) and ty.name.startswith('pair<') and len(a) == 2:
            x, y = [self.rv(s, q) for q in a]
            x, y = self.coerce(x, ty.fields['first']), self.coerce(y, ty.fields['second'])
            return [(s, Val(ty, x.ls + y.ls))]
        if isinstance(ty, (LIST, SET)) and len(a) == 2 and all(isinstance(x, ItV) for x in a):
            s = s.copy()
            return [(s, self.coll_range(s, ty, a[0], a[1]))]
        r = self.ctor(n, ty, t, s, a, fid)
        if r is not None:
            return r
        raise Unsupported('construction of %s from %d arguments' % (t, len(a)))

    def coll_range(self, s, ty, b, e):
        c = s.load(b.cont)
        if b.kind == 'vec' and e.kind == 'vec':
            v = self.sublist(s, c, b.idx, e.idx)
            return v if isinstance(ty, LIST) else self.set_of_list(s, v)
        if b.kind == 'begin' and e.kind == 'end' and isinstance(c.ty, SET):
            if isinstance(ty, SET):
                return c
            l = self.list_of_set(s, c)
            return l
        raise Unsupported('range of %s' % b.kind)

    def ctor(self, n, ty, t, s, a, fid):
        if not isinstance(ty, REC):
            return None
        rec = self.m.records.get(t) or next((r for q, r in self.m.records.items() if q.split('::')[-1] == ty.name), None)
        if rec is None:
            return None
        want = n.get('ctorType', {}).get('qualType')
        cands = []
        for i, d in self.m.byid.items():
            if d['kind'] == 'CXXConstructorDecl' and d.get('name') == ty.name and self.m.has_body(d) and len(params(d)) >= len(a):
                if want is None or d['type']['qualType'].replace(' noexcept', '') == want.replace(' noexcept', ''):
                    cands.append(d)
        if not cands:
            return None
        d = cands[0]
        p = s.new_cell(Val(ty, tuple(l for f in ty.fields.values() for l in (self.default(f) if not isinstance(f, Prim) else f.fresh('uninit')).ls)), 'obj')
        f = self.newframe(None)
        s = s.copy()
        s.env[(f, '$this')] = p
        self.bindparams(d, a, s, f)
        cur = [s]
        for c in d['inner']:
            if c.get('kind') != 'CXXCtorInitializer':
                continue
            fld = c.get('anyInit', {}).get('name')
            nx = []
            for s1 in cur:
                for s2, v in self.ev(c['inner'][0], s1, f):
                    s2 = s2.copy()
                    if fld in ty.fields:
                        s2.store(p.sub(('f', fld), ty.fields[fld]), self.coerce(self.rv(s2, v), ty.fields[fld]))
                    nx.append(s2)
            cur = nx
        self.depth += 1
        out = []
        try:
            for s1 in cur:
                for s2, oc in self.block([body_of(d)], s1, f):
                    if oc[0] in ('next', 'return'):
                        out.append((self.pop(s2, f), s2.load(p)))
        finally:
            self.depth -= 1
            self.frames_live.remove(f)
        self.inlined.add(self.m.qual.get(d['id'], ty.name))
        return out

    def e_InitListExpr(self, n, st, fid):
        ty = self.ty(n)
        out = []
        for s, a in self.evl(n.get('inner', []), st, fid):
            if isinstance(ty, LIST):
                vs = [self.coerce(self.rv(s, x), ty.t) for x in a]
                out.append((s, lst(*vs) if vs else empty_list(ty.t)))
            elif isinstance(ty, REC):
                fs = list(ty.fields.values())
                vs = [self.coerce(self.rv(s, x), f) for x, f in zip(a, fs)]
                vs += [self.default(f) for f in fs[len(vs):]]
                out.append((s, Val(ty, tuple(l for v in vs for l in v.ls))))
            elif len(a) == 1:
                out.append((s, self.rv(s, a[0])))
            elif not a:
                out.append((s, self.default(ty)))
            else:
                raise Unsupported('initialiser of %s' % (ty,))
        return out

    def e_CXXStdInitializerListExpr(self, n, st, fid):
        return self.one(n, st, fid)

    def e_ImplicitValueInitExpr(self, n, st, fid):
        return [(st, self.default(self.ty(n)))]

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_LambdaExpr(self, n, st, fid):
        rec = n['inner'][0]
        for c in rec.get('inner', []):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                return [(st, Closure(c, fid))]
            if c.get('kind') == 'FunctionTemplateDecl':
                insts = [x for x in c['inner'] if x.get('kind') == 'CXXMethodDecl' and CxxModule.has_body(x)]
                if insts:
                    return [(st, Closure(insts[-1], fid))]
        raise Unsupported('lambda')

    def e_UnaryExprOrTypeTraitExpr(self, n, st, fid):
        raise Unsupported('sizeof')

    # ------------------------------------------------------------------ calls
    def e_CXXOperatorCallExpr(self, n, st, fid):
        ch = n['inner']
        ref = ch[0]
        while ref.get('kind') != 'DeclRefExpr':
            ref = ref['inner'][0]
        op = ref['referencedDecl']['name'].replace('operator', '').strip()
        args = ch[1:]
        if op == '<<' and (clean(qtype(args[0])).split('::')[-1] in STREAMS or 'ostream' in clean(qtype(args[0]))):
            out = []
            for s, v in self.ev(args[0], st, fid):
                if isinstance(v, Stream) and v.cell is None:
                    self.dropped.add('diagnostic output')
                    out.append((s, v))
                    continue
                for s2, x in self.ev(args[1], s, fid):
                    s2 = s2.copy()
                    s2.store(v.cell, Val(STR, (z3.Concat(s2.load(v.cell).t, self.text(s2, x)),)))
                    out.append((s2, v))
            return out
        if op == '&' and 'OstreamVoidifier' in clean(qtype(args[0])):
            return [(st, Val(UNIT, ()))]
        if ref['referencedDecl']['id'] in self.m.defs:
            q = self.m.defs[ref['referencedDecl']['id']]['$qual']
            out = []
            for s, a in self.evl(args, st, fid):
                if ref['referencedDecl']['kind'] == 'CXXMethodDecl':
                    out += self.invoke(s, q, self.m.defs[ref['referencedDecl']['id']], a[1:], fid, this=self.ptr(s, a[0]))
                else:
                    out += self.invoke(s, q, self.m.defs[ref['referencedDecl']['id']], a, fid)
            return out
        out = []
        for s, a in self.evl(args, st, fid):
            s = s.copy()
            out += self.opcall(s, op, a, n, fid)
        return out

    def text(self, s, v):
        v = self.rv(s, v)
        if v.ty == STR:
            return v.t
        if v.ty == INT:
            return z3.If(v.t >= 0, z3.IntToStr(v.t), z3.Concat(strtext('-'), z3.IntToStr(-v.t)))
        raise Unsupported('output of %s' % (v.ty,))

    def opcall(self, s, op, a, n, fid):
        if op == '[]':
            return self.subscript(s, a[0], a[1], n)
        if op == '()':
            if isinstance(a[0], Closure):
                return self.apply(s, a[0], a[1:], fid)
        if op == '=':
            p = a[0]
            if isinstance(p, NPtr):
                p = p.ptr
            if isinstance(p, Ptr):
                v = self.rv(s, a[1])
                if p.ty == STR and v.ty == INT:
                    v = Val(STR, (z3.StrFromCode(v.t),))
                s.store(p, self.coerce(v, p.ty))
                return [(s, p)]
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if not any(isinstance(x, (ItV, NPtr)) for x in a):
                h = self.models.get('op:%s:%s' % (op, tyn(self.rv(s, a[0]).ty)))
                if h:
                    return h(self, s, a)
            return [(s, self.binary(s, op, a[0], a[1], 'bool'))]
        if op == '!' and len(a) == 1:
            return [(s, vbool(z3.Not(self.truthv(s, a[0]))))]
        if op in ('+', '+='):
            if any(isinstance(x, ItV) for x in a):
                return [(s, self.it_op(s, op, a[0], a[1]))]
            x, y = [self.rv(s, q) for q in a]
            tx = x.t if x.ty == STR else z3.StrFromCode(x.t)
            ty_ = y.t if y.ty == STR else z3.StrFromCode(y.t)
            if STR not in (x.ty, y.ty):
                raise Unsupported('+ on %s' % (x.ty,))
            r = Val(STR, (z3.Concat(tx, ty_),))
            if op == '+=':
                s.store(a[0], r)
                return [(s, a[0])]
            return [(s, r)]
        if op == '-' and isinstance(a[0], ItV):
            return [(s, self.it_op(s, op, a[0], a[1]))]
        if op in ('*', '->') and len(a) == 1:
            if isinstance(a[0], ItV):
                return [(s, a[0] if op == '->' or a[0].kind in ('map', 'elem') else self.deref_it(s, a[0]))]
            if isinstance(a[0], Ptr) and isinstance(a[0].ty, OPT):
                v = s.load(a[0])
                self.oblige('optional-has-a-value', s, v.some, 'implicit')
                return [(s, a[0].sub(('o',), a[0].ty.t))]
            return [self.deref(s, a[0])]
        h = self.models.get('op:' + op)
        if h:
            return h(self, s, a)
        raise Unsupported('operator%s on %s' % (op, [getattr(x, 'ty', x) for x in a]))

    def e_CallExpr(self, n, st, fid):
        ch = n['inner']
        ref = ch[0]
        while ref.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            ref = ref['inner'][0]
        if ref.get('kind') != 'DeclRefExpr':
            raise Unsupported('call through %s' % ref.get('kind'))
        d = ref['referencedDecl']
        name = d.get('name')
        if d['kind'] not in FUN:
            out = []
            for s, a in self.evl(ch[1:], st, fid):
                f = self.ev(ref, s, fid)[0][1]
                out += self.apply(s, f, a, fid)
            return out
        q = self.m.qual.get(d['id'], name)
        dn = self.m.defs.get(d['id'])
        if dn is not None:
            q = dn['$qual']
        h = self.contract_for(q, len(ch) - 1)
        if h is None and name in ('errs', 'outs') and dn is None:
            return [(st, Stream())]
        if h is None and dn is None and name in ('GetVerboseLevel', 'ShouldPrint'):
            # only decides about diagnostics: any value
            return [(st, (INT if name == 'GetVerboseLevel' else BOOL).fresh('verbosity'))]
        if h is None and 'fn:' + name in self.models and dn is None:
            out = []
            for s, a in self.evl(ch[1:], st, fid):
                self.called_models.add(name)
                self.callnode = n
                out += self.models['fn:' + name](self, s.copy(), a)
            return out
        if h is None and dn is None:
            m = getattr(self, 'std_' + name, None)
            if m is not None:
                return [r for s, a in self.evl(ch[1:], st, fid) for r in m(s.copy(), a, n, fid)]
            for o in self.others:
                l = [f for f in o.funcs.get(q, []) if len(params(f)) == len(ch) - 1]
                if len(l) == 1:
                    return [r for s, a in self.evl(ch[1:], st, fid) for r in self.foreign(s, o, q, l[0], a, fid)]
            raise Unsupported('call of %s' % q)
        out = []
        for s, a in self.evl(ch[1:], st, fid):
            out += self.invoke(s, q, dn, a, fid)
        return out

    def foreign(self, s, mod, q, fn, args, fid):
        """a function defined in another source file"""
        saved = self.m
        self.m = mod
        try:
            return self.invoke(s, q, fn, args, fid)
        finally:
            self.m = saved

    def contract_for(self, q, n):
        if self.cur is not None and self.depth == 0 and False:
            return None
        return self.contracts.get('%s/%d' % (q, n)) or self.contracts.get(q)

    def invoke(self, s, q, fn, args, fid, this=None):
        h = self.contract_for(q, len(args))
        if h is not None:
            self.called_models.add('contract:' + q)
            return h(self, s.copy(), ([this] if this is not None else []) + list(args))
        if fn is None:
            raise Unsupported('no body for %s' % q)
        self.inlined.add(q)
        return self.inlinec(s, fn, args, this, None)

    def apply(self, s, f, args, fid):
        if isinstance(f, Closure):
            return self.inlinec(s, f.node, args, None, f.fid)
        if isinstance(f, Conc) and f.obj[0] == 'cfunc':
            dn = self.m.defs.get(f.obj[1])
            return self.invoke(s, dn['$qual'] if dn else f.obj[2], dn, args, fid)
        raise Unsupported('call of %r' % (f,))

    def bindparams(self, fn, args, s, f):
        ps = params(fn)
        for i, p in enumerate(ps):
            if i < len(args):
                v = args[i]
            else:
                d = [c for c in p.get('inner', []) if c.get('kind')]
                if not d:
                    raise Unsupported('missing argument')
                rs = self.ev(d[0], s, f)
                s2, v = rs[0]
                s.cells.update(s2.cells)
            s.env[self.key(f, p)] = self.bind_value(s, qtype(p), v, p.get('name', '_'))

    def inlinec(self, s, fn, args, this, parent):
        if self.depth > self.MAXDEPTH:
            raise Unsupported('call depth')
        f = self.newframe(parent)
        s = s.copy()
        if this is not None:
            s.env[(f, '$this')] = this
        elif parent is not None and (parent, '$this') in s.env:
            s.env[(f, '$this')] = s.env[(parent, '$this')]
        self.bindparams(fn, args, s, f)
        self.depth += 1
        try:
            rets = []
            byval = self.returns_value(fn)
            for s2, oc in self.block([body_of(fn)], s, f):
                if oc[0] == 'next':
                    rets.append((self.pop(s2, f), Val(UNIT, ())))
                elif oc[0] == 'return':
                    v = oc[1]
                    if byval and isinstance(v, Ptr):
                        v = s2.load(v)
                    rets.append((self.pop(s2, f), v))
                else:
                    raise Unsupported('outcome %s' % (oc,))
            if any(isinstance(v, Ptr) for _, v in rets):
                return rets
            return self.merge_vals(rets)
        finally:
            self.depth -= 1
            if f in self.frames_live:
                self.frames_live.remove(f)

    @staticmethod
    def returns_value(fn):
        t = fn['type']['qualType']
        d = 0
        for i, c in enumerate(t):
            if c == '<':
                d += 1
            elif c == '>':
                d -= 1
            elif c == '(' and d == 0:
                r = t[:i].strip()
                return not r.endswith('&') and not r.endswith('*')
        return True

    def e_CXXMemberCallExpr(self, n, st, fid):
        me = n['inner'][0]
        while me.get('kind') != 'MemberExpr':
            me = me['inner'][0]
        name = me['name']
        argn = n['inner'][1:]
        out = []
        for s, o in self.ev(me['inner'][0], st, fid):
            if me.get('isArrow') and not isinstance(o, ItV):
                s = s.copy()
                s, o = self.deref(s, o)
            if isinstance(o, ItV) and (me.get('isArrow') or o.kind == 'elem'):
                o = self.deref_it(s, o)
            for s2, a in self.evl([x for x in argn if x.get('kind') != 'CXXDefaultArgExpr' or x.get('inner')], s, fid):
                out += self.membercall(s2.copy(), o, name, a, me, n, fid)
        return out

    def membercall(self, s, o, name, a, me, n, fid):
        base = clean(qtype(me['inner'][0])).rstrip('* &').split('<')[0].split('::')[-1]
        ty = o.ty if isinstance(o, (Ptr, Val)) else None
        rid = me.get('referencedMemberDecl')
        dn = self.m.defs.get(rid)
        h = self.models.get('method:%s::%s' % (base, name)) or (ty is not None and isinstance(ty, REC) and self.models.get('method:%s::%s' % (ty.name, name)))
        if h:
            self.called_models.add('%s::%s' % (base, name))
            return h(self, s, o, a)
        if isinstance(o, Stream):
            if name == 'str' and o.cell is not None:
                return [(s, s.load(o.cell))]
            if name in ('flush',):
                return [(s, Val(UNIT, ()))]
            raise Unsupported('stream.%s' % name)
        q = self.m.qual.get(rid)
        if dn is not None or (q is not None and self.contract_for(q, len(a))):
            q = dn['$qual'] if dn is not None else q
            this = o if isinstance(o, Ptr) else self.ptr(s, o)
            return self.invoke(s, q, dn, a, fid, this=this)
        if ty == STR:
            return self.str_call(s, o, name, a, n)
        if isinstance(ty, LIST):
            return self.vec_call(s, o, name, a)
        if isinstance(ty, SET):
            return self.set_call(s, o, name, a)
        if isinstance(ty, MAP):
            return self.map_call(s, o, name, a)
        if isinstance(o, NPtr) and name == 'get':
            return [(s, o)]
        raise Unsupported('method %s::%s' % (base, name))

    # ---- std::string
    def str_call(self, s, o, name, a, n):
        x = self.rv(s, o)
        ln = z3.Length(x.t)
        if name in ('size', 'length'):
            s.add(ln <= BIG)
            return [(s, vint(ln))]
        if name == 'empty':
            return [(s, vbool(ln == 0))]
        if name in ('c_str', 'data', 'str'):
            return [(s, x)]
        if name == 'substr':
            p = self.rv(s, a[0]).t if a else z3.IntVal(0)
            k = self.rv(s, a[1]).t if len(a) > 1 else NPOS
            self.oblige('substr-in-range', s, z3.And(0 <= p, p <= ln), 'implicit')
            s.add(ln <= BIG)
            return [(s, Val(STR, (z3.simplify(z3.SubString(x.t, p, z3.If(z3.Or(k > ln - p), ln - p, k))),)))]
        if name in ('find', 'rfind'):
            y = self.rv(s, a[0])
            t = y.t if y.ty == STR else z3.StrFromCode(y.t)
            p = self.rv(s, a[1]).t if len(a) > 1 else None
            if name == 'find':
                i = z3.IndexOf(x.t, t, p if p is not None else z3.IntVal(0))
            else:
                if p is not None and not z3.eq(z3.simplify(p), NPOS):
                    raise Unsupported('rfind with position')
                i = z3.LastIndexOf(x.t, t)
            s.add(ln <= BIG)
            return [(s, vint(z3.If(i < 0, NPOS, i)))]
        if name == 'compare':
            y = self.rv(s, a[0])
            return [(s, vint(z3.If(x.t == y.t, z3.IntVal(0), z3.If(x.t < y.t, z3.IntVal(-1), z3.IntVal(1)))))]
        if name in ('back', 'front', 'at'):
            i = z3.IntVal(0) if name == 'front' else (ln - 1 if name == 'back' else self.rv(s, a[0]).t)
            self.oblige('index-in-range', s, z3.And(0 <= i, i < ln), 'implicit')
            return [(s, vint(z3.StrToCode(z3.SubString(x.t, i, 1))))]
        if name in ('begin', 'end', 'cbegin', 'cend'):
            return [(s, ItV('str', self.ptr(s, o), idx=z3.IntVal(0) if 'begin' in name else ln))]
        if name in ('starts_with', 'endswith', 'ends_with', 'startswith'):
            y = self.rv(s, a[0])
            t = y.t if y.ty == STR else z3.StrFromCode(y.t)
            return [(s, vbool(z3.PrefixOf(t, x.t) if name.startswith('start') else z3.SuffixOf(t, x.t)))]
        if isinstance(o, Ptr):
            if name == 'clear':
                s.store(o, vstr(''))
                return [(s, Val(UNIT, ()))]
            if name == 'append' and len(a) == 1:
                y = self.rv(s, a[0])
                s.store(o, Val(STR, (z3.Concat(x.t, y.t),)))
                return [(s, o)]
            if name == 'push_back':
                s.store(o, Val(STR, (z3.Concat(x.t, z3.StrFromCode(self.rv(s, a[0]).t)),)))
                return [(s, Val(UNIT, ()))]
            if name == 'pop_back':
                self.oblige('not-empty', s, ln > 0, 'implicit')
                s.store(o, Val(STR, (z3.SubString(x.t, 0, ln - 1),)))
                return [(s, Val(UNIT, ()))]
            if name == 'swap':
                y = s.load(a[0])
                s.store(a[0], x)
                s.store(o, y)
                return [(s, Val(UNIT, ()))]
            if name == 'reserve':
                return [(s, Val(UNIT, ()))]
            if name == 'replace' and len(a) == 3 and not isinstance(a[0], ItV):
                p, k, y = [self.rv(s, q).t for q in a]
                self.oblige('substr-in-range', s, z3.And(0 <= p, p <= ln), 'implicit')
                e = z3.If(k > ln - p, ln, p + k)
                s.store(o, Val(STR, (z3.Concat(z3.SubString(x.t, 0, p), y, z3.SubString(x.t, e, ln - e)),)))
                return [(s, o)]
            if name == 'erase' and a and not isinstance(a[0], ItV):
                p = self.rv(s, a[0]).t
                k = self.rv(s, a[1]).t if len(a) > 1 else NPOS
                self.oblige('substr-in-range', s, z3.And(0 <= p, p <= ln), 'implicit')
                e = z3.If(k > ln - p, ln, p + k)
                s.store(o, Val(STR, (z3.Concat(z3.SubString(x.t, 0, p), z3.SubString(x.t, e, ln - e)),)))
                return [(s, o)]
        raise Unsupported('string.%s' % name)

    # ---- std::vector
    def vec_call(self, s, o, name, a):
        v = self.rv(s, o)
        if name == 'size':
            s.add(v.len >= 0, v.len <= BIG)
            return [(s, vint(v.len))]
        if name == 'empty':
            s.add(v.len >= 0)
            return [(s, vbool(v.len == 0))]
        if name in ('begin', 'end', 'cbegin', 'cend'):
            p = self.ptr(s, o)
            return [(s, ItV('vec', p, idx=z3.IntVal(0) if 'begin' in name else v.len))]
        if name in ('front', 'back', 'at'):
            i = z3.IntVal(0) if name == 'front' else (v.len - 1 if name == 'back' else self.rv(s, a[0]).t)
            self.oblige('index-in-range', s, z3.And(0 <= i, i < v.len), 'implicit')
            return [(s, o.sub(('i', (i,)), v.ty.t) if isinstance(o, Ptr) else v.at(i))]
        if name == 'data':
            return [(s, o)]
        if isinstance(o, Ptr):
            if name in ('push_back', 'emplace_back') and len(a) == 1:
                x = self.coerce(self.rv(s, a[0]), v.ty.t)
                s.add(v.len >= 0)
                s.store(o, list_append(v, x))
                return [(s, Val(UNIT, ()))]
            if name == 'pop_back':
                self.oblige('not-empty', s, v.len > 0, 'implicit')
                s.store(o, Val(v.ty, (v.len - 1,) + tuple(v.ls[1:])))
                return [(s, Val(UNIT, ()))]
            if name == 'clear':
                s.store(o, empty_list(v.ty.t))
                return [(s, Val(UNIT, ()))]
            if name == 'reserve':
                return [(s, Val(UNIT, ()))]
            if name == 'swap':
                p = a[0]
                w = s.load(p)
                s.store(p, v)
                s.store(o, w)
                return [(s, Val(UNIT, ()))]
            if name == 'insert' and isinstance(a[0], ItV) and len(a) == 2:
                x = self.coerce(self.rv(s, a[1]), v.ty.t)
                i = a[0].idx
                r = self.concat(s, list_append(self.sublist(s, v, z3.IntVal(0), i), x), self.sublist(s, v, i, v.len))
                s.store(o, r)
                return [(s, ItV('vec', o, idx=i))]
            if name == 'insert' and len(a) == 3 and all(isinstance(x, ItV) for x in a):
                i = a[0].idx
                y = self.coll_range(s, v.ty, a[1], a[2])
                r = self.concat(s, self.concat(s, self.sublist(s, v, z3.IntVal(0), i), y), self.sublist(s, v, i, v.len))
                s.store(o, r)
                return [(s, ItV('vec', o, idx=i))]
            if name == 'erase' and len(a) == 1:
                i = a[0].idx
                self.oblige('iterator-is-dereferenceable', s, z3.And(0 <= i, i < v.len), 'implicit')
                s.store(o, self.concat(s, self.sublist(s, v, z3.IntVal(0), i), self.sublist(s, v, i + 1, v.len)))
                return [(s, ItV('vec', o, idx=i))]
        raise Unsupported('vector.%s' % name)

    # ---- std::set
    def set_call(self, s, o, name, a):
        v = self.rv(s, o)
        if name in ('find', 'count', 'contains'):
            k = self.coerce(self.rv(s, a[0]), v.ty.k)
            has = z3.Select(v.t, *k.ls)
            if name == 'find':
                return [(s, ItV('set', self.ptr(s, o), k.ls, has))]
            return [(s, vint(z3.If(has, z3.IntVal(1), z3.IntVal(0))) if name == 'count' else vbool(has))]
        if name in ('end', 'cend'):
            return [(s, ItV('end', self.ptr(s, o)))]
        if name in ('begin', 'cbegin'):
            return [(s, ItV('begin', self.ptr(s, o)))]
        if name == 'empty':
            ks = [z3.Const(fresh_name('k'), x) for x in v.ty.k.sorts()]
            return [(s, vbool(z3.Not(z3.Exists(ks, z3.Select(v.t, *ks)))))]
        if name == 'size':
            l = self.list_of_set(s, v)
            return [(s, vint(l.len))]
        if isinstance(o, Ptr):
            if name in ('insert', 'emplace') and len(a) == 1:
                k = self.coerce(self.rv(s, a[0]), v.ty.k)
                had = z3.Select(v.t, *k.ls)
                s.store(o, Val(v.ty, (z3.Store(v.t, *(list(k.ls) + [z3.BoolVal(True)])),)))
                return [(s, PairV(ItV('set', o, k.ls, z3.BoolVal(True)), vbool(z3.Not(had))))]
            if name == 'insert' and len(a) == 2:
                y = self.coll_range(s, v.ty, a[0], a[1])
                ks = [z3.Const(fresh_name('k'), x) for x in v.ty.k.sorts()]
                r = v.ty.fresh('ins')
                s.add(FA(ks, z3.Select(r.t, *ks) == z3.Or(z3.Select(v.t, *ks), z3.Select(y.t, *ks)), patterns=[z3.Select(r.t, *ks)]))
                s.store(o, r)
                return [(s, Val(UNIT, ()))]
            if name == 'erase' and not isinstance(a[0], ItV):
                k = self.coerce(self.rv(s, a[0]), v.ty.k)
                had = z3.Select(v.t, *k.ls)
                s.store(o, Val(v.ty, (z3.Store(v.t, *(list(k.ls) + [z3.BoolVal(False)])),)))
                return [(s, vint(z3.If(had, z3.IntVal(1), z3.IntVal(0))))]
            if name == 'clear':
                s.store(o, empty_set(v.ty.k))
                return [(s, Val(UNIT, ()))]
        raise Unsupported('set.%s' % name)

    # ---- std::map
    def map_call(self, s, o, name, a):
        v = self.rv(s, o)
        if name in ('find', 'count', 'contains'):
            k = self.coerce(self.rv(s, a[0]), v.ty.k)
            has = v.has(*k.ls)
            if name == 'find':
                return [(s, ItV('map', self.ptr(s, o), k.ls, has))]
            return [(s, vint(z3.If(has, z3.IntVal(1), z3.IntVal(0))) if name == 'count' else vbool(has))]
        if name in ('end', 'cend'):
            return [(s, ItV('end', self.ptr(s, o)))]
        if name == 'empty':
            ks = [z3.Const(fresh_name('k'), x) for x in v.ty.k.sorts()]
            return [(s, vbool(z3.Not(z3.Exists(ks, v.has(*ks)))))]
        if name == 'at':
            k = self.coerce(self.rv(s, a[0]), v.ty.k)
            self.oblige('key-present', s, v.has(*k.ls), 'implicit')
            return [(s, o.sub(('k', k.ls), v.ty.v) if isinstance(o, Ptr) else v.get(*k.ls))]
        if isinstance(o, Ptr):
            if name in ('insert', 'emplace') and len(a) == 1:
                p = self.rv(s, a[0])
                k, x = self.coerce(p.f('first'), v.ty.k), self.coerce(p.f('second'), v.ty.v)
                had = v.has(*k.ls)
                s.store(o.sub(('k', k.ls), v.ty.v), ite(had, v.get(*k.ls), x))
                return [(s, PairV(ItV('map', o, k.ls, z3.BoolVal(True)), vbool(z3.Not(had))))]
            if name == 'erase' and not isinstance(a[0], ItV):
                k = self.coerce(self.rv(s, a[0]), v.ty.k)
                had = v.has(*k.ls)
                s.store(o, Val(v.ty, (z3.Store(v.ls[0], *(list(k.ls) + [z3.BoolVal(False)])),) + tuple(v.ls[1:])))
                return [(s, vint(z3.If(had, z3.IntVal(1), z3.IntVal(0))))]
            if name == 'clear':
                s.store(o, empty_map(v.ty.k, v.ty.v))
                return [(s, Val(UNIT, ()))]
        raise Unsupported('map.%s' % name)

    # ---- free functions of the standard library
    def std_make_pair(self, s, a, n, fid):
        x, y = [self.rv(s, q) for q in a]
        t = self.types.pair(x.ty, y.ty)
        return [(s, Val(t, x.ls + y.ls))]

    def std_move(self, s, a, n, fid):
        return [(s, a[0])]

    std_forward = std_move

    def std_strlen(self, s, a, n, fid):
        x = self.rv(s, a[0])
        s.add(z3.Length(x.t) <= BIG)
        return [(s, vint(z3.Length(x.t)))]

    def std_isspace(self, s, a, n, fid):
        c = self.rv(s, a[0]).t
        return [(s, vint(z3.If(z3.Or(c == 32, z3.And(9 <= c, c <= 13)), z3.IntVal(1), z3.IntVal(0))))]

    def std_max(self, s, a, n, fid):
        x, y = [self.rv(s, q).t for q in a]
        return [(s, vint(z3.If(x < y, y, x)))]

    def std_min(self, s, a, n, fid):
        x, y = [self.rv(s, q).t for q in a]
        return [(s, vint(z3.If(y < x, y, x)))]

    def std_swap(self, s, a, n, fid):
        x, y = s.load(a[0]), s.load(a[1])
        s.store(a[0], y)
        s.store(a[1], x)
        return [(s, Val(UNIT, ()))]

    def std_find(self, s, a, n, fid):
        b, e = a[0], a[1]
        if not (isinstance(b, ItV) and b.kind == 'vec'):
            raise Unsupported('std::find')
        c = s.load(b.cont)
        x = self.coerce(self.rv(s, a[2]), c.ty.t)
        r = z3.Int(fresh_name('found'))
        i = z3.Int(fresh_name('i'))
        s.add(b.idx <= r, r <= e.idx, z3.Implies(r < e.idx, eq(c.at(r), x)))
        s.add(FA([i], z3.Implies(z3.And(b.idx <= i, i < r), z3.Not(eq(c.at(i), x))), patterns=[c.at(i).ls[0]]))
        return [(s, ItV('vec', b.cont, idx=r))]

    # -------------------------------------------------------------- top level
    def setup(self):
        super().setup()
        self.names = {}

    def verify(self, c):
        self.setup()
        self.obls = []
        self.cur = c
        self.depth = 0
        if getattr(c, 'check', None):
            self.check = c.check
        fn = self.m.find(c.qual)
        st = State()
        f = self.newframe(None)
        self.args = {}
        given = list(c.params.items())
        if given and given[0][0] == 'this':
            t = given[0][1]
            v = t.fresh('this') if isinstance(t, Ty) else t(self, st)
            self.range_facts(st, v) if isinstance(v, Val) else None
            p = st.new_cell(v, 'this') if isinstance(v, Val) else v
            st.env[(f, '$this')] = p
            self.args['this'] = p
            given = given[1:]
        ps = params(fn)
        if len(ps) != len(given):
            raise Unsupported('signature of %s changed' % c.qual)
        for (pname, ty), p in zip(given, ps):
            v = ty.fresh(pname) if isinstance(ty, Ty) else ty(self, st)
            if isinstance(v, Val):
                self.range_facts(st, v)
                q = qtype(p)
                if v.ty == INT and (clean(q) in ('unsigned long', 'size_t', 'unsigned int', 'unsigned') or clean(q).endswith('size_type')):
                    st.add(v.t >= 0, v.t < M64)
                if self.types.isptr(q) and not isinstance(v.ty, Prim):
                    cell = st.new_cell(v, pname)
                    self.args[pname] = cell
                    st.env[self.key(f, p)] = NPtr(z3.BoolVal(True), cell)
                    continue
                if self.types.isptr(q) and v.ty in (STR, INT, BOOL):
                    cell = st.new_cell(v, pname)
                    self.args[pname] = cell
                    st.env[self.key(f, p)] = NPtr(z3.BoolVal(True), cell)
                    continue
                v = st.new_cell(v, pname)
            self.args[pname] = v
            st.env[self.key(f, p)] = v
        if c.ghost:
            for k, v in c.ghost(self, st).items():
                st.ghost[k] = v
        ctx = Ctx(self, st, self.args, st)
        if c.pre:
            for p in c.pre(ctx):
                st.add(p)
        self.entry = st.copy()
        ctx.st0 = self.entry
        r, _ = self.p.check_sat(st.pc)
        if r == z3.unsat:
            raise Unsupported('contradictory precondition for %s' % c.qual)
        self.inlined = set()
        for s, oc in self.block([body_of(fn)], st, f):
            if oc[0] not in ('next', 'return'):
                raise Unsupported('outcome %s' % (oc,))
            ret = Val(UNIT, ()) if oc[0] == 'next' else oc[1]
            cx = Ctx(self, self.entry, self.args, s, ret)
            for nm, g in c.post(cx):
                self.oblige(nm, cx.st, g, c.qual)
        return self.obls


class PairV:
    """The result of insert()."""

    def __init__(self, first, second):
        self.first, self.second = first, second


class N:
    """Loop identity for the shared loop rule."""

    def __init__(self, n):
        self.n = n
        loc = n.get('range', {}).get('begin', {})
        self.lineno = loc.get('line', loc.get('expansionLoc', {}).get('line', '?'))

    def __hash__(self):
        return hash(self.n['id'])

    def __eq__(self, o):
        return isinstance(o, N) and o.n['id'] == self.n['id']


class Closure:
    def __init__(self, node, fid):
        self.node, self.fid = node, fid


def tyn(t):
    return t.name if isinstance(t, REC) else str(t)


def check_text(n):
    """the condition text of a CHECK_"""
    out = []

    def walk(x):
        if x.get('kind') == 'StringLiteral':
            out.append(x['value'])
        for c in x.get('inner', []):
            walk(c)
    walk(n)
    return (out[1] if len(out) > 1 else '?').strip('"')[:60].replace('\\"', "'")
