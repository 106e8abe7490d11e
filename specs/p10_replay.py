"""Failing inputs for the clean-up functions: random files run through the real code and judged by the statements of P10."""
from .fixrec import *

KINDS = [('if', '#if A\n', '_IF_RE'), ('else', '#else\n', '_ELSE_RE'), ('endif', '#endif\n', '_ENDIF_RE'), ('guard', '#ifndef G_H_\n', '_HEADER_GUARD_RE'),
         ('define', '#define G_H_\n', '_HEADER_GUARD_DEFINE_RE'), ('blank', '\n', '_BLANK_LINE_RE'), ('comment', '// hi\n', '_COMMENT_LINE_RE'), ('inc', '#include "a.h"\n', '_INCLUDE_RE'),
         ('inc', '#include "b.h"  // why\n', '_INCLUDE_RE'), ('ns', 'namespace a {\n', '_NAMESPACE_START_RE'), ('ns', 'namespace a { namespace b {\n', '_NAMESPACE_START_RE'),
         ('nsend', '}  // namespace\n', '_NAMESPACE_END_RE'), ('nsend', '} }\n', '_NAMESPACE_END_RE'), ('code', 'int x;\n', None), ('fwd', 'class F;\n', '_FORWARD_DECLARE_RE'),
         ('mac', 'NAMESPACE_BEGIN\n', '_NAMESPACE_START_RE'), ('allman', 'namespace a\n', '_NAMESPACE_START_ALLMAN_RE'), ('cont', '{\n', '_NAMESPACE_CONTINUE_ALLMAN_MIXED_RE')]


def have(m, n):
    return n is None or hasattr(m, n)


def line(m, text, ty, deleted=False):
    li = m.LineInfo(text)
    li.type = getattr(m, ty) if ty else None
    li.deleted = deleted
    return li


def rand_lines(m, rnd, names=None, gone=.3, n=9):
    ks = [k for k in KINDS if have(m, k[2]) and (names is None or k[0] in names)]
    out = [line(m, None, None)]
    for _ in range(rnd.randint(1, n)):
        k = rnd.choice(ks)
        out.append(line(m, k[1], k[2], rnd.random() < gone))
    return out


def flags_of(ls):
    return [l.deleted for l in ls]


def show(m, ls, before):
    return [(l.line, 'deleted' if b else '') for l, b in zip(ls, before)]


def frame(m, ls, before, snap):
    for i, l in enumerate(ls):
        if {k: v for k, v in vars(l).items() if k != 'deleted'} != snap[i]:
            return 'line %d changes in more than its deletion mark' % i
        if before[i] and not l.deleted:
            return 'line %d is restored' % i
    return None


def snap(ls):
    return [{k: v for k, v in vars(l).items() if k != 'deleted'} for l in ls]


def replay_near(seed, tier):
    m = real()
    rnd = random.Random(seed)
    for _ in range(3000):
        ls = rand_lines(m, rnd, gone=.5)
        n = rnd.randrange(len(ls))
        for nm, want in (('_PreviousNondeletedLine', next((i for i in range(n - 1, -1, -1) if not ls[i].deleted), None)),
                         ('_NextNondeletedLine', next((i for i in range(n + 1, len(ls)) if not ls[i].deleted), None))):
            got = call(getattr(m, nm), ls, n)
            if got != want:
                return {'call': nm, 'deleted': flags_of(ls), 'line': n, 'result': repr(got), 'expected': want}
    return None


def replay_comments(seed, tier):
    m = real()
    rnd = random.Random(seed)
    for _ in range(3000):
        ls = rand_lines(m, rnd, ['comment', 'comment', 'blank', 'inc'], gone=0)
        n = rnd.randrange(len(ls))
        com = lambda i: ls[i].type is m._COMMENT_LINE_RE
        got = call(m._LineNumberStartingPrecedingComments, ls, n)
        bad = None
        if isinstance(got, tuple) or got > n or not all(com(i) for i in range(got, n)):
            bad = 'takes along a line that is no comment'
        elif got != n and got < 2:
            bad = 'takes the comment at the top of the file'
        elif got >= 1 and com(got - 1) and not (got == n and all(com(i) for i in range(1, n))):
            bad = 'leaves a preceding comment behind'
        if bad:
            return {'call': '_LineNumberStartingPrecedingComments', 'lines': [l.line for l in ls], 'line': n, 'result': repr(got), 'expected': bad}
    return None


def depth_of(ls, before, up, down):
    d, out = 0, [0]
    for l, b in zip(ls, before):
        if not b:
            d += up(l) - down(l)
        out.append(d)
    return out


def replay_empty(fn, kinds):
    def f(seed, tier):
        m = real()
        rnd = random.Random(seed)
        T = lambda *ns: [getattr(m, n) for n in ns if hasattr(m, n)]
        from .p10 import IFTYPES, NSTYPES, IFS
        if fn == '_DeleteEmptyIfdefs':
            types, up, down = T(*IFTYPES), lambda l: l.type in T(*IFS), lambda l: l.type is m._ENDIF_RE
        else:
            types = T(*NSTYPES)
            up = lambda l: max(l.line.count('{'), 1) if l.type in T('_NAMESPACE_START_RE', '_NAMESPACE_START_MIXED_RE') else l.type in T('_NAMESPACE_CONTINUE_ALLMAN_MIXED_RE')
            down = lambda l: max(l.line.count('}'), 1) if l.type is m._NAMESPACE_END_RE else 0
        for _ in range(6000):
            ls = rand_lines(m, rnd, kinds, gone=.25, n=10)
            before, sn = flags_of(ls), snap(ls)
            got = call(getattr(m, fn), ls)
            if isinstance(got, tuple):
                continue                     # lines that do not nest
            D = depth_of(ls, before, up, down)
            bad = frame(m, ls, before, sn)
            n = len(ls)
            for k in range(n):
                if bad or before[k] or not ls[k].deleted:
                    continue
                if ls[k].type not in types:
                    bad = 'line %d is deleted' % k
                elif not any(D[s] == D[e] and all(ls[j].deleted and D[j] >= D[s] and not (fn == '_DeleteEmptyIfdefs' and ls[j].type is m._ELSE_RE and not before[j] and D[j] <= D[s]) for j in range(s, e))
                             for s in range(k + 1) for e in range(k + 1, n + 1)):
                    bad = 'line %d is deleted without the block it belongs to' % k
            if bad:
                return {'call': fn, 'lines': show(m, ls, before), 'deleted afterwards': flags_of(ls), 'expected': 'not: ' + bad}
        return None
    return f


def replay_dups(seed, tier):
    m = real()
    rnd = random.Random(seed)
    FIL = [m._BLANK_LINE_RE, m._COMMENT_LINE_RE]
    for _ in range(4000):
        ls, rs = [line(m, None, None)], []
        for _r in range(rnd.randint(1, 3)):
            if rnd.random() < .4:
                ls.append(line(m, 'int x;\n', None))
            a = len(ls)
            for _s in range(rnd.randint(1, 3)):
                s = len(ls)
                for _c in range(rnd.choice([0, 0, 0, 1])):
                    ls.append(line(m, '// hi\n', '_COMMENT_LINE_RE'))
                k = rnd.choice(['#include "a.h"\n', '#include "b.h"\n', '#include "a.h"  // why\n', '  #include "a.h"\n', '#include "c.h"\n'])
                if s != len(ls):
                    for i in range(s, len(ls)):
                        pass
                ls.append(line(m, k, '_INCLUDE_RE'))
                if rnd.random() < .3:
                    ls.append(line(m, '#include "z.h"\n', '_INCLUDE_RE'))
                for i in range(s, len(ls)):
                    ls[i].move_span = (s, len(ls))
                if rnd.random() < .25:
                    for i in range(s, len(ls)):
                        ls[i].deleted = True
                if rnd.random() < .3:
                    ls.append(line(m, '\n', '_BLANK_LINE_RE'))
            if rnd.random() < .85:
                rs.append((a, len(ls)))
        before, sn = flags_of(ls), snap(ls)
        got = call(m._DeleteDuplicateLines, ls, rs)
        start = [k for a, b in rs for k in range(a, b) if ls[k].type not in FIL and ls[k].move_span and ls[k].move_span[0] == k]
        txt = lambda h: ' '.join(m._COMMENT_RE.sub('', ls[i].line.strip()) for i in range(*ls[h].move_span))
        bad = repr(got) if isinstance(got, tuple) else frame(m, ls, before, sn)
        for k in range(len(ls)):
            if bad or before[k] or not ls[k].deleted:
                continue
            h = ls[k].move_span and ls[k].move_span[0]
            if not h or h not in start or not all(ls[j].deleted for j in range(*ls[h].move_span)):
                bad = 'line %d is deleted' % k
            elif not any(g != h and txt(g) == txt(h) and not ls[g].deleted for g in start):
                bad = 'line %d is deleted and no copy is kept' % k
        kept = [txt(h) for h in start if not ls[h].deleted]
        if not bad and len(set(kept)) != len(kept):
            bad = 'two copies remain'
        if bad:
            return {'call': '_DeleteDuplicateLines', 'lines': show(m, ls, before), 'move spans': [l.move_span for l in ls], 'ranges': rs, 'deleted afterwards': flags_of(ls), 'expected': 'not: ' + bad}
    return None


def replay_blank(seed, tier):
    m = real()
    rnd = random.Random(seed)
    for _ in range(5000):
        ls = rand_lines(m, rnd, ['blank', 'blank', 'inc', 'code'], gone=.3, n=9)
        a = rnd.randrange(len(ls))
        b = rnd.randint(a + 1, len(ls))
        if rnd.random() < .8:
            for i in range(a, b):
                ls[i].deleted = True
        before, sn = flags_of(ls), snap(ls)
        got = call(m._DeleteExtraneousBlankLines, ls, (a, b))
        new = [k for k in range(len(ls)) if ls[k].deleted and not before[k]]
        bad = repr(got) if isinstance(got, tuple) else frame(m, ls, before, sn)
        if not bad and new:
            if not all(before[a:b]):
                bad = 'lines are deleted although the range is not'
            elif any(k < b or ls[k].type is not m._BLANK_LINE_RE for k in new):
                bad = 'other lines than the blank ones after the range are deleted'
            elif any(not ls[j].deleted for k in new for j in range(b, k)):
                bad = 'a blank line further away is deleted'
            elif not any(not ls[j].deleted and ls[j].type is m._BLANK_LINE_RE for j in range(a)):
                bad = 'no blank line is left'
        if bad:
            return {'call': '_DeleteExtraneousBlankLines', 'lines': show(m, ls, before), 'range': (a, b), 'deleted afterwards': flags_of(ls), 'expected': 'not: ' + bad}
    return None


def replay_all(seed, tier):
    """whole files through the analysis and _DeleteLinesAccordingToIwyu"""
    m = real()
    rnd = random.Random(seed)
    from .p10 import IFTYPES, NSTYPES
    types = [getattr(m, n) for n in IFTYPES + NSTYPES if hasattr(m, n)]
    pool = ['#include "a.h"\n', '#include "b.h"\n', '#include "a.h"  // x\n', 'class F;\n', 'class G;\n', '\n', '\n', '// hi\n', 'int x;\n', '#if A\n', '#else\n', '#endif\n', 'namespace n {\n', '}  // namespace n\n', 'class H;\n']
    for _ in range(4000):
        text = []
        depth = []
        for _i in range(rnd.randint(2, 12)):
            t = rnd.choice(pool)
            if t.startswith('#endif') or t.startswith('#else'):
                if not depth or depth[-1] != 'if':
                    continue
                if t.startswith('#endif'):
                    depth.pop()
            elif t.startswith('}'):
                if not depth or depth[-1] != 'ns':
                    continue
                depth.pop()
            elif t.startswith('#if'):
                depth.append('if')
            elif t.startswith('namespace'):
                depth.append('ns')
            text.append(t)
        while depth:
            text.append('#endif\n' if depth.pop() == 'if' else '}  // namespace n\n')
        rec = m.IWYUOutputRecord('f.cc')
        for i, t in enumerate(text):
            if t.startswith('#include'):
                rec.some_include_lines.add(i + 1)
                if rnd.random() < .5:
                    rec.lines_to_delete.add(i + 1)
            elif t.startswith('class'):
                rec.seen_forward_declare_lines.add((i + 1, i + 1))
                if rnd.random() < .5:
                    rec.lines_to_delete.add(i + 1)
        m_in = call(m.ParseOneFile, list(text), rec) if hasattr(m, 'ParseOneFile') else None
        if not isinstance(m_in, list):
            continue
        ls = m_in
        before, sn = flags_of(ls), snap(ls)
        got = call(m._DeleteLinesAccordingToIwyu, rec, ls)
        bad = repr(got) if isinstance(got, tuple) else frame(m, ls, before, sn)
        req = {k for n in rec.lines_to_delete for k in range(*ls[n].move_span)}
        if not bad and not all(ls[k].deleted for k in req):
            bad = 'a requested line stays'
        txt = lambda h: ' '.join(m._COMMENT_RE.sub('', ls[i].line.strip()) for i in range(*ls[h].move_span))
        for k in range(len(ls)):
            if bad or before[k] or not ls[k].deleted or k in req or ls[k].type in types:
                continue
            h = ls[k].move_span and ls[k].move_span[0]
            if not h or not any(ls[g].move_span and ls[g].move_span[0] == g != h and not ls[g].deleted and txt(g) == txt(h) for g in range(1, len(ls))):
                bad = 'line %d is deleted' % k
        if bad:
            return {'call': '_DeleteLinesAccordingToIwyu', 'file': text, 'lines to delete': sorted(rec.lines_to_delete), 'deleted afterwards': flags_of(ls), 'expected': 'not: ' + bad}
    return None
