"""An independent reference for the include picker, written from its documentation,
used only to search failing inputs for failed obligations (replay)."""
import re, os, random, tempfile, shutil, json
from .cxx import ask, aslist, unesc, picker_harness


def norm(p):
    lead = '/' if p.startswith('/') else ''
    out = []
    for c in p.split('/'):
        if c in ('', '.'):
            continue
        if c == '..':
            if out and out[-1] != '..':
                out.pop()
                continue
            if lead:
                continue
        out.append(c)
    return lead + '/'.join(out)


def normdir(p):
    r = norm(p)
    return r if not r or r.endswith('/') else r + '/'


def parent(p):
    i = p.rfind('/')
    return p[:i] if i > 0 else ('/' if i == 0 else '')


def absolute(p):
    return p if p.startswith('/') else ('/' + p if p else '/')


class Conflict(Exception):
    pass


class Model:
    def __init__(self, dialect, search):
        self.dialect, self.search = dialect, search
        self.sym, self.inc, self.ivis, self.pvis, self.seen, self.written, self.friends = {}, {}, {}, {}, set(), {}, {}

    def conv(self, f, includer=''):
        if f == '<built-in>':
            return f
        p = norm(absolute(f))
        for d, k in self.search:
            if p.startswith(d):
                p = p[len(d):]
                return '<%s>' % p if k == 'sys' else '"%s"' % p
        if includer:
            d = normdir(includer)
            if p.startswith(d):
                p = p[len(d):]
        return '"%s"' % p

    def mark(self, m, k, v):
        if m.setdefault(k, v) != v:
            raise Conflict()

    def map(self, a, q, path=''):
        self.inc.setdefault(a, []).append((q, path))

    def direct(self, a, b, w):
        qa, qb = self.conv(a), self.conv(b)
        self.seen.add(qb)
        self.written[(a, b)] = w
        if a == '<built-in>':
            self.mark(self.ivis, '"<built-in>"', 2)
        i = qb.find('internal/')
        if i == 0 or (i > 0 and qb[i - 1] == '/'):
            self.mark(self.ivis, qb, 2)
            self.friend(b, qb[:i] + '.*')
            self.map(qb, qa, a)
        if qb.startswith('<asm-'):
            self.mark(self.ivis, qb, 2)
            self.map(qb, '<asm/' + (qb.split('/', 1)[1] if '/' in qb else qb))

    def friend(self, f, rx):
        self.friends.setdefault('@' + rx, set()).add(f)

    def match(self, s, rx):
        return re.fullmatch(rx, s, re.S) is not None

    def sub(self, s, rx, to):
        m = re.fullmatch(rx, s, re.S)
        def r(x):
            return m.group(int(x.group(1)))
        return re.sub(r'\\(\d)' if self.dialect == 'llvm' else r'\$(\d)', r, to)

    def fin(self):
        rk = [k for k in sorted(self.inc) if k.startswith('@')]
        fk = [k for k in sorted(self.friends) if k.startswith('@')]
        for h in sorted(self.seen):
            for k in rk:
                to = list(self.inc[k])
                if self.match(h, k[1:]) and h not in [q for q, _ in to]:
                    for q, _ in to:
                        self.map(h, self.sub(h, k[1:], q))
                    self.mark(self.ivis, h, self.ivis.setdefault(k, 0))
            for k in fk:
                if self.match(h, k[1:]):
                    self.friends.setdefault(h, set()).update(self.friends[k])
        self.base = {k: list(v) for k, v in self.inc.items()}
        self.cyclic = False

        def closure(k):
            out, names = [], set()

            def go(n, stack):
                for q, p in self.base.get(n, []):
                    if q in stack or q == k:
                        self.cyclic = True
                    if q not in names:
                        names.add(q)
                        out.append((q, p))
                        go(q, stack + [q])
            go(k, [k])
            return out
        self.clo = {k: closure(k) for k in self.inc}
        self.csym = {}
        for s, v in self.sym.items():
            out, names = [], set()
            for q, p in v:
                for x in [(q, p)] + self.clo.get(q, []):
                    if x[0] not in names:
                        names.add(x[0])
                        out.append(x)
            self.csym[s] = out

    def vis(self, q, p, d):
        return self.ivis[q] if q in self.ivis else self.pvis.get(p, d)

    def public(self, l):
        return [(q, p) for q, p in l if self.vis(q, p, 1) == 1]

    def cand_sym(self, s):
        return self.public(self.csym.get(s, []))

    def cand(self, f, i):
        r = self.public(self.clo.get(self.conv(f), []))
        me = (self.conv(f, absolute(parent(i))) if i else self.conv(f), f)
        if not r or self.vis(me[0], me[1], 1) == 1:
            r = [me] + r
        return r

    def best(self, l, i):
        out = []
        d = absolute(parent(i))
        for q, p in l:
            w = self.written.get((i, p), '')
            if w:
                out.append(w)
            elif q.startswith('"') and q[1:2] == '/' and p:
                out.append(self.conv(p, d))
            else:
                out.append(q)
        return out

    def candfrom(self, f, i):
        d = absolute(parent(i))
        if f in self.friends.get(self.conv(i, d), ()):
            l = [(self.conv(f, d), f)]
        else:
            l = self.cand(f, i)
        return self.best(l, i)

    def pub(self, s, u, f):
        return self.best(self.cand_sym(s), u) or self.candfrom(f, u)

    def hasmap(self, a, b):
        qa, qb = self.conv(a), self.conv(b)
        return qa == qb or qb in [q for q, _ in self.clo.get(qa, [])]


FILES = ['/r/a.h', '/r/b.h', '/r/sub/c.h', '/r/p/internal/q.h', '/r/internal/z.h', '/s/x', '/s/bits/y.h', '/s/asm-gen/f.h', '/o/d.h', '/o/e.h', '/r/main.cc', '/o/t.cc', '/r/p/k.cc', '/s/sub/w.h', '/r/p/internal/v/internal/n.h', '/r/p/v/api.h']
SEARCH = [[('/r/sub/', 'user'), ('/r/', 'user'), ('/s/', 'sys')], [('/s/', 'sys')], [('/r/', 'user')], [], [('/s/bits/', 'sys'), ('/s/', 'sys'), ('/r/', 'sys')]]
SYMS = ['std::f', 'N::g', 'NULL']


def scenario(rnd, d, n):
    """commands with the expected answer of each (None: not compared)"""
    dialect = rnd.choice(['llvm', 'llvm', 'ecma'])
    search = rnd.choice(SEARCH)
    m = Model(dialect, search)
    cmds = [(('search',) + tuple(x for e in search for x in e), 'ok'), (('new', dialect, 'none', 'none'), 'ok')]
    names = [m.conv(f) for f in FILES] + ['<ext>', '"other.h"']
    vischoice = {q: rnd.choice([1, 2]) for q in names}
    rx = ['@"sub/.*"', '@<bits/.*>', '@"(.*)b[.]h"', '@["<](.*)/y.h[">]', '@"(a|x).h"', '@"c.h"']
    dense = rnd.random() < .2       # many mappings among few headers: chains, diamonds and cycles
    if dense:
        names = names[:5]
    if not dense and rnd.random() < .3:
        # several files befriend patterns that the same seen files match
        for k in range(rnd.randint(2, 4)):
            a = rnd.choice(FILES)
            r = rnd.choice(['"p/.*"', '".*"', '"p/.*h"', '"sub/.*"', '".*[.]h"', '"main.cc"'])
            m.friend(a, r)
            cmds.append((('friend', a, r), 'ok'))
            if rnd.random() < .7:
                m.mark(m.pvis, a, 2)
                m.map(m.conv(a), '<ext>', '')
                cmds += [(('privpath', a), 'ok'), (('map', m.conv(a), '<ext>'), 'ok')]
    for k in range(rnd.randint(0, 9)):
        t = rnd.choice([2, 2, 2, 3, 4]) if dense else rnd.randint(0, 7)
        a, b = rnd.choice(FILES), rnd.choice(FILES)
        qa, qb = rnd.choice(names), rnd.choice(names)
        if t <= 1:
            w = rnd.choice([m.conv(b), m.conv(b, parent(a)), '"../weird.h"'])
            m.direct(a, b, w)
            cmds.append((('direct', a, b, w), 'ok'))
        elif t == 2:
            m.map(qa, qb, '')
            cmds.append((('map', qa, qb), 'ok'))
        elif t == 3:
            p = rnd.choice(FILES)
            q = m.conv(p)
            m.map(qa, q, p)
            cmds.append((('map', qa, q, p), 'ok'))
        elif t == 4:
            q = rnd.choice(names)
            if rnd.random() < .5:
                m.mark(m.ivis, q, 2)
                cmds.append((('privinc', q), 'ok'))
            else:
                m.mark(m.pvis, a, 2)
                cmds.append((('privpath', a), 'ok'))
        elif t == 5:
            r = rnd.choice(['"main.cc"', '".*"', '"p/.*"', '".*[.]cc"'])
            m.friend(a, r)
            cmds.append((('friend', a, r), 'ok'))
        else:
            # a mapping file (possibly through a reference)
            ds, stop = [], False
            for j in range(rnd.randint(1, 3)):
                e = rnd.randint(0, 3)
                va, vb = rnd.choice([(2, 1), (2, 1), (2, 2), (1, 1)])
                vn = {1: 'public', 2: 'private'}
                s = rnd.choice(SYMS)
                x, y = rnd.choice(names + rx), rnd.choice(names)
                if x[0] == '@' and '(' in x and rnd.random() < .5:
                    y = '"gen/%s1.h"' % ('\\' if dialect == 'llvm' else '$')
                bad = rnd.random() < .08
                if e == 0:
                    ds.append({'symbol': [s, rnd.choice(['private', 'public']), y, vn[vb]] if not bad else [s, 'private', y]})
                    if not bad and not stop:
                        m.sym.setdefault(s, []).append((y, ''))
                        m.mark(m.ivis, y, vb)
                else:
                    ds.append({'include': [x, vn[va], y, vn[vb] if not bad else 'secret']})
                    if not bad and not stop:
                        m.map(x, y)
                        m.mark(m.ivis, x, va)
                        m.mark(m.ivis, y, vb)
                stop = stop or bad
            os.makedirs(os.path.join(d, 'n%d' % n, 'in'), exist_ok=True)
            f = os.path.join(d, 'n%d' % n, 'm%d.imp' % k)
            if rnd.random() < .4:
                g = os.path.join(d, 'n%d' % n, 'in', 'r%d.imp' % k)
                if rnd.random() < .4:
                    open(os.path.join(d, 'n%d' % n, 'in', 's%d.imp' % k), 'w').write(json.dumps(ds))
                    ds = [{'ref': 's%d.imp' % k}]
                open(g, 'w').write(json.dumps(ds))
                ds = [{'ref': rnd.choice(['in/r%d.imp' % k, g])}]
            open(f, 'w').write(json.dumps(ds))
            cmds.append((('file', f), 'ok'))
    m.fin()
    cmds.append((('fin',), 'ok'))
    flat = lambda l: [x for e in l for x in e]
    for k in range(14):
        a, b, s = rnd.choice(FILES), rnd.choice(FILES), rnd.choice(SYMS)
        cmds += [(('cand', a, rnd.choice(['', b])), None), (('candfrom', a, b), m.candfrom(a, b)), (('sym', s), flat(m.cand_sym(s))), (('symfrom', s, b), m.best(m.cand_sym(s), b)),
                 (('pub', s, a, b), m.pub(s, a, b)), (('pub', 'plain', a, b), m.pub('plain', a, b)), (('hasmap', a, b), '1' if m.hasmap(a, b) else '0')]
        c = cmds[-7]
        cmds[-7] = (c[0], flat(m.cand(c[0][1], c[0][2])))
    return m, cmds


def compare(got, want, cyclic, q):
    if want is None:
        return True
    if isinstance(want, list):
        g = aslist(got)
        if g == want:
            return True
        # inside a cycle of mappings the order of the closure (hence which of two paths for one name) is not specified
        if cyclic and q[0] in ('cand', 'sym'):
            return isinstance(g, list) and sorted(g[::2]) == sorted(want[::2])
        return cyclic
    return got == want


def replay(seed, tier):
    exe = picker_harness()
    rnd = random.Random(seed)
    d = tempfile.mkdtemp(prefix='vpick')
    try:
        batch = []
        for n in range(3000 if tier == 'quick' else 9000):
            try:
                m, cmds = scenario(rnd, d, n)
            except (Conflict, re.error):
                continue
            batch.append((m, cmds))
        allc = [c for _, cs in batch for c, _ in cs]
        got = ask(exe, allc)
        i = 0
        for m, cs in batch:
            hist = []
            for c, w in cs:
                g = got[i]
                i += 1
                if not compare(g, w, m.cyclic, c):
                    files = {x[1]: open(x[1]).read() for x in hist if x[0] == 'file'}
                    return {'history': hist, 'mapping_files': files, 'query': c, 'returned': aslist(g) if isinstance(w, list) else g, 'expected': w}
                if c[0] not in ('cand', 'candfrom', 'sym', 'symfrom', 'pub', 'hasmap'):
                    hist.append(c)
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)
