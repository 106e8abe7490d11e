"""P01 exit status of iwyu_tool."""
from .common import *

INV = REC('Invocation', {'id': INT})
PROC = REC('Process', {'id': INT})
RC = z3.Array('rc', z3.IntSort(), z3.IntSort())


def dom(e, r):
    return And(Implies(r < 0, e <= r), Implies(r >= 0, Or(e < 0, e >= r)))


def worst(a, b):
    return If(Or(a < 0, b < 0), If(a < b, a, b), If(a > b, a, b))


def models(m):
    def start(ex, s, o, args, kw):
        i = s.load(o).f('id').t if isinstance(o, Ptr) else o.f('id').t
        g = s.ghost['started']
        s.ghost['started'] = Val(g.ty, (z3.Store(g.t, i, g.t[i] + 1),))
        fl = s.ghost['inflight'].t + 1
        ex.oblige('never-more-than-the-requested-number-at-once', s, fl <= ex.entry_jobs)
        s.ghost['inflight'] = vint(fl)
        return [(s, s.new_cell(Val(PROC, (i,)), 'proc'))]

    def poll(ex, s, o, args, kw):
        return [(s, OPT(INT).fresh('poll'))]

    def getout(ex, s, o, args, kw):
        i = ex.rv(s, o).f('id').t
        g = s.ghost['waited']
        s.ghost['inflight'] = vint(s.ghost['inflight'].t - If(g.t[i], I(0), I(1)))
        s.ghost['waited'] = Val(g.ty, (z3.Store(g.t, i, True),))
        return [(s, uf('output_of', STR, vint(i)))]

    def pr(ex, s, args, kw):
        # ghost: number of times the formatted output of run i was printed
        if 'file' not in kw and len(args) == 1:
            v = ex.rv(s, args[0])
            g = s.ghost['printed']
            hit = z3.Const(fresh_name('which'), z3.IntSort())
            if v.ty == STR and v.t.decl().name() == 'fmt_of' and v.t.num_args() == 1 and v.t.arg(0).decl().name() == 'output_of':
                i = v.t.arg(0).arg(0)
                s.ghost['printed'] = Val(g.ty, (z3.Store(g.t, i, g.t[i] + 1),))
            else:
                s.ghost['printed'] = g.ty.fresh('printed_unknown')
        return [(s, Val(UNIT, ()))]

    def rcode(ex, s, v):
        i = ex.rv(s, v).f('id').t
        w = s.ghost['waited'].t[i]
        return [(s, Val(OPT(INT), (w, RC[i])))]

    def fmt(ex, s, args, kw):
        return [(s, uf('fmt_of', STR, args[1]))]

    return {'method:Invocation.start': start, 'method:Process.poll': poll, 'method:Process.get_output': getout,
            'builtin:print': pr, 'call:ref:Formatter': fmt,
            'os.getloadavg': lambda ex, s, a, k: [(s, TUP(REAL, REAL, REAL).fresh('load'))],
            'time.sleep': lambda ex, s, a, k: [(s, Val(UNIT, ()))]}


def contracts(m):
    def w(ex, s, args, kw):
        a = list(args)
        if kw:
            a = [kw.get('worst', a[0] if a else None), kw.get('cur', a[-1] if a else None)]
        x = ex.rv(s, a[0])
        y = ex.rv(s, a[1])
        if isinstance(y.ty, OPT):
            # an exit status that is not known yet must not be used
            ex.oblige('exit-status-known-before-use', s, y.some)
            s.add(y.some)
            y = y.val
        r = INT.fresh('worst')
        s.add(r.t == worst(x.t, y.t))
        return [(s, r)]

    def rc(ex, s, args, kw):
        return models(m)['attr'](ex, s, args[0])

    def prop_returncode(ex, s, args, kw):
        i = ex.rv(s, args[0]).f('id').t
        return [(s, Val(OPT(INT), (s.ghost['waited'].t[i], RC[i])))]

    return {'worst_exit_code': w, 'Process.returncode': prop_returncode}


CNT = Prim('cnt', z3.ArraySort(z3.IntSort(), z3.IntSort()))
FLG = Prim('flg', z3.ArraySort(z3.IntSort(), z3.BoolSort()))


def zero_ghost(ex, st):
    z = z3.K(z3.IntSort(), I(0))
    ex.entry_jobs = ex.args['jobs'].t
    return {'inflight': vint(0), 'started': Val(CNT, (z,)), 'printed': Val(CNT, (z,)), 'waited': Val(FLG, (z3.K(z3.IntSort(), z3.BoolVal(False)),))}


def code(L):
    """the running exit code: by its name, or else the only candidate integer local"""
    try:
        return L.var('exit_code').t
    except KeyError:
        c = [v for n, v in L.vars_of(INT) if not n.startswith('$')]
        c = [v for v in c if True]
        if not c:
            raise
        return c[0].t


def exec_post(c):
    n = c.old('invocations').len
    r = c.retval(INT).t
    st, pr = c.ghost('started').t, c.ghost('printed').t
    return [('every-run-started-exactly-once', forall(1, lambda i: Implies(within(i, n), st[i] == 1))),
            ('every-output-printed-exactly-once', forall(1, lambda i: Implies(within(i, n), pr[i] == 1))),
            ('status-dominates-every-run', forall(1, lambda i: Implies(within(i, n), dom(r, RC[i])))),
            ('status-is-zero-or-some-run', Or(r == 0, exists(1, lambda i: And(within(i, n), r == RC[i]))))]


def pend(L):
    try:
        v = L.var('pending')
    except KeyError:
        c = L.vars_of(LIST(PROC))
        v = c[0][1]
    return v


def pat(v, i):
    return [v.at(i).ls[0]]


def inv_list():
    fs = []
    N = lambda L: L.old('invocations').len
    # attained / dominates
    fs.append(lambda L: Or(code(L) == 0, exists(1, lambda i: And(within(i, N(L)), code(L) == RC[i], L.ghost('printed').t[i] == 1))))
    fs.append(lambda L: forall(1, lambda i: Implies(L.ghost('printed').t[i] >= 1, dom(code(L), RC[i])), lambda i: [L.ghost('printed').t[i]]))
    # serial loop
    ser = lambda L: L.is_over(L.old('invocations'))
    fs.append(lambda L: forall(1, lambda i: L.ghost('printed').t[i] == If(within(i, L.idx), 1, 0), lambda i: [L.ghost('printed').t[i]]) if ser(L) else None)
    fs.append(lambda L: forall(1, lambda i: L.ghost('started').t[i] == If(within(i, L.idx), 1, 0), lambda i: [L.ghost('started').t[i]]) if ser(L) else None)
    # work list: what is left is a suffix of the input
    rem = lambda L: L.var('invocations')
    par = lambda L: not ser(L)
    fs.append(lambda L: And(0 <= rem(L).len, rem(L).len <= N(L)) if par(L) else None)
    fs.append(lambda L: forall(1, lambda i: Implies(within(i, rem(L).len), rem(L).at(i).ls[0] == N(L) - rem(L).len + i), lambda i: pat(rem(L), i)) if par(L) else None)
    # comprehension that starts the runs of a prefix of the remaining work
    comp = lambda L: L.var('$comp')

    def in_comp(L):
        try:
            comp(L)
            return True
        except KeyError:
            return False
    base = lambda L: L.it.src.at(0).ls[0]
    fs.append(lambda L: comp(L).len == L.idx if in_comp(L) else None)
    fs.append(lambda L: forall(1, lambda i: Implies(within(i, comp(L).len), comp(L).at(i).ls[0] == L.it.src.at(i).ls[0]), lambda i: pat(comp(L), i)) if in_comp(L) else None)
    pre_started = lambda L: L.pre.ghost['started'].t
    fs.append(lambda L: forall(1, lambda i: L.ghost('started').t[i] == pre_started(L)[i] + If(And(L.idx > 0, base(L) <= i, i < base(L) + L.idx), 1, 0),
                               lambda i: [L.ghost('started').t[i]]) if in_comp(L) else None)
    # main parallel loop
    mainl = lambda L: L.it is None and not in_comp(L)
    fs.append(lambda L: forall(1, lambda i: L.ghost('started').t[i] == If(within(i, N(L) - rem(L).len), 1, 0), lambda i: [L.ghost('started').t[i]]) if mainl(L) else None)
    P = pend
    # runs taken from the pending list to be collected: not yet printed, all distinct
    inner = lambda L: L.it is not None and not ser(L) and not in_comp(L)
    pr = lambda L: L.ghost('printed').t
    off = lambda L: (L.idx if inner(L) else None)
    dist = lambda L, v: forall(2, lambda i, j: Implies(And(0 <= i, i < j, j < v.len), v.at(i).ls[0] != v.at(j).ls[0]),
                               lambda i, j: [z3.MultiPattern(v.at(i).ls[0], v.at(j).ls[0])])
    fs.append(lambda L: dist(L, P(L)) if (mainl(L) or inner(L)) else None)
    fs.append(lambda L: P(L).len >= 0 if (mainl(L) or inner(L)) else None)
    fs.append(lambda L: forall(1, lambda i: Implies(within(i, P(L).len), And(within(P(L).at(i).ls[0], N(L) - rem(L).len), pr(L)[P(L).at(i).ls[0]] == 0)),
                               lambda i: pat(P(L), i)) if (mainl(L) or inner(L)) else None)
    # every started run is either printed once or still pending
    # (the last disjunct is an instance of the one before it: it hands the solver the witness)
    fs.append(lambda L: forall(1, lambda j: Implies(within(j, N(L) - rem(L).len), Or(
        pr(L)[j] == 1, exists(1, lambda i: And(within(i, P(L).len), P(L).at(i).ls[0] == j)),
        And(within(P(L).len - (N(L) - rem(L).len) + j, P(L).len), P(L).at(P(L).len - (N(L) - rem(L).len) + j).ls[0] == j))),
                               lambda j: [pr(L)[j]]) if (mainl(L) or inner(L)) else None)
    fs.append(lambda L: forall(1, lambda j: Implies(Not(within(j, N(L) - rem(L).len)), pr(L)[j] == 0), lambda j: [pr(L)[j]]) if (mainl(L) or inner(L)) else None)
    # collected so far were exactly the first idx of the iterated list; the rest is still pending
    src = lambda L: L.it.src
    fs.append(lambda L: forall(1, lambda k: Implies(And(L.idx <= k, k < L.it.n), exists(1, lambda i: And(within(i, P(L).len), P(L).at(i).ls[0] == src(L).at(k).ls[0]))),
                               lambda k: pat(src(L), k)) if inner(L) else None)
    fs.append(lambda L: dist(L, src(L)) if inner(L) else None)
    fl = lambda L: L.ghost('inflight').t
    fs.append(lambda L: fl(L) == 0 if ser(L) else None)
    fs.append(lambda L: forall(1, lambda i: L.ghost('waited').t[i] == (L.ghost('printed').t[i] >= 1), lambda i: [L.ghost('waited').t[i]]) if not in_comp(L) else None)
    fs.append(lambda L: And(fl(L) == P(L).len, P(L).len <= L.old('jobs').t) if (mainl(L) or inner(L)) else None)
    fs.append(lambda L: fl(L) == L.pre.ghost['inflight'].t + L.idx if in_comp(L) else None)
    return fs


def exec_contract(serial):
    def pre(c):
        v = c.old('invocations')
        jobs = c.old('jobs').t
        return [forall(1, lambda i: Implies(within(i, v.len), v.at(i).ls[0] == i), lambda i: pat(v, i)),
                jobs == 1 if serial else jobs > 1]
    return Contract('execute', {'invocations': LIST(INV), 'verbose': BOOL, 'formatter': REF('Formatter'), 'jobs': INT, 'max_load_average': REAL},
                    post=exec_post, pre=pre, ghost=zero_ghost, inv=inv_list())


# ------------------------------------------------------------------- replays
def oracle_worst(codes):
    neg = [c for c in codes if c < 0]
    return min(neg) if neg else max([0] + list(codes))


def replay_worst(seed, tier):
    m = realmod('iwyu_tool.py')
    for a in range(-4, 5):
        for b in range(-4, 5):
            r = call(m.worst_exit_code, a, b)
            exp = min(a, b) if min(a, b) < 0 else max(a, b)
            if r != exp:
                return {'call': 'worst_exit_code(%d, %d)' % (a, b), 'returned': r, 'expected': exp}
    rnd = random.Random(seed)
    for _ in range(3000):
        a, b = rnd.randint(-300, 300), rnd.randint(-300, 300)
        r = call(m.worst_exit_code, a, b)
        exp = min(a, b) if min(a, b) < 0 else max(a, b)
        if r != exp:
            return {'call': 'worst_exit_code(%d, %d)' % (a, b), 'returned': r, 'expected': exp}
    return None


class FakeProc:
    def __init__(self, log, i, rc, delay):
        self.log, self.i, self.rc, self.delay = log, i, rc, delay
        self.returncode = None
        log['started'].append(i)
        log['live'] = log.get('live', 0) + 1
        log['peak'] = max(log.get('peak', 0), log['live'])
        self.read = False

    def poll(self):
        if self.delay > 0:
            self.delay -= 1
            return None
        self.returncode = self.rc
        return self.rc

    def get_output(self):
        self.returncode = self.rc
        if not self.read:
            self.read = True
            self.log['live'] -= 1
        return 'out%d' % self.i


class FakeInv:
    def __init__(self, log, i, rc, delay):
        self.log, self.i, self.rc, self.delay = log, i, rc, delay

    def start(self, verbose):
        return FakeProc(self.log, self.i, self.rc, self.delay)


def replay_execute(seed, tier):
    import signal
    m = realmod('iwyu_tool.py')
    m.time = type('T', (), {'sleep': staticmethod(lambda x: None), 'time': staticmethod(lambda: 0)})
    rnd = random.Random(seed)

    class Slow(Exception):
        pass

    def onalarm(*a):
        raise Slow()
    signal.signal(signal.SIGALRM, onalarm)
    for k in range(600):
        n = k % 10
        codes = [rnd.choice([0, 0, 1, 2, 3, -6, -11, 77]) for _ in range(n)]
        delays = [rnd.choice([0, 0, 1, 2, 5]) for _ in range(n)]
        jobs = rnd.choice([1, 1, 2, 3, 8])
        mla = rnd.choice([0, 0, 0, 0.5, 2.0, 48.5, 100.0])
        la = rnd.choice([0.0, 0.4, 1.7, 4.0, 50.0])
        log = {'started': []}
        invs = [FakeInv(log, i, codes[i], delays[i]) for i in range(n)]
        if hasattr(m.os, 'getloadavg'):
            class OS:
                def __getattr__(self, x):
                    if x == 'getloadavg':
                        return lambda: (la, 0.0, 0.0)
                    return getattr(os, x)
            m.os = OS()
        signal.setitimer(signal.ITIMER_REAL, 3)
        try:
            with silent() as o:
                r = m.execute(invs, False, lambda s: '<' + s + '>', jobs, mla)
            out = o.getvalue().split()
        except Slow:
            r, out = 'does not terminate', []
        except Exception as e:
            r, out = ('EXC', repr(e)), []
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        exp = oracle_worst(codes)
        if r != exp or sorted(log['started']) != list(range(n)) or sorted(out) != sorted('<out%d>' % i for i in range(n)) or log.get('peak', 0) > jobs:
            return {'call': 'execute', 'at_once': log.get('peak', 0), 'exit_codes': codes, 'poll_delays': delays, 'jobs': jobs, 'max_load_average': mla, 'load': la,
                    'returned': r, 'expected': exp, 'started': log['started'], 'printed': out}
    return None


def worst_post(c):
    a, b = c.old('worst').t, c.old('cur').t
    r = c.retval().t
    return [('negative-status-wins', Implies(Or(a < 0, b < 0), r == If(a < b, a, b))),
            ('largest-status-otherwise', Implies(And(a >= 0, b >= 0), r == If(a > b, a, b)))]


# ------------------------------------------------- the process wrapper
FILE, POPEN, BYTES = REF('File'), REF('Popen'), REF('Bytes')
PR = REC('Process', {'proc': POPEN, 'outfile': FILE, 'output': OPT(STR)})
NOTHING = lambda ex, s: Val(UNIT, ())


def proc_models(m):
    def wait(ex, s, o, a, k):
        s.ghost['ended'] = Val(BOOL, (z3.BoolVal(True),))
        return [(s, INT.fresh('rc'))]

    def seek(ex, s, o, a, k):
        s.ghost['pos'] = vint(ex.rv(s, a[0]).t) if len(a) == 1 else INT.fresh('pos')
        return [(s, INT.fresh('pos'))]

    def read(ex, s, o, a, k):
        whole = And(s.ghost['ended'].t, s.ghost['pos'].t == 0, not a, Not(s.ghost['closed'].t))
        r = BYTES.fresh('bytes')
        s.add(Implies(whole, r.t == z3.Const('everything_written', BYTES.fresh('x').t.sort())))
        s.ghost['pos'] = INT.fresh('pos')
        return [(s, r)]

    def decode(ex, s, o, a, k):
        enc = [ex.rv(s, x) for x in a] or [vstr('utf-8')]
        return [(s, uf('decode', STR, o, *enc))]

    def close(ex, s, o, a, k):
        s.ghost['closed'] = Val(BOOL, (z3.BoolVal(True),))
        return [(s, NOTHING(ex, s))]

    def tmp(ex, s, a, k):
        s.ghost['closed'] = Val(BOOL, (z3.BoolVal(False),))
        return [(s, FILE.fresh('outfile'))]
    return {'method:ref:Popen.wait': wait, 'method:ref:File.seek': seek, 'method:ref:File.read': read, 'method:ref:Bytes.decode': decode, 'method:ref:File.close': close,
            'method:ref:Popen.poll': lambda ex, s, o, a, k: [(s, uf('popen_poll', OPT(INT), o))]}


def out_ghost(ex, st):
    return {'ended': BOOL.fresh('ended'), 'pos': INT.fresh('pos'), 'closed': Val(BOOL, (z3.BoolVal(False),))}


def out_post(c):
    o = c.old('self').f('output')
    n = c.new('self').f('output')
    cached = And(o.some, o.val.t != S(''))
    want = uf('decode', STR, Val(BYTES, (z3.Const('everything_written', BYTES.fresh('x').t.sort()),)), vstr('utf-8')).t
    r = c.retval(OPT(STR))
    some, r = r.some, r.val
    return [('everything-the-process-wrote', And(some, Implies(Not(cached), r.t == want))),
            ('asked-again-the-same-answer', And(n.some, n.val.t == r.t, Implies(cached, r.t == o.val.t))),
            ('process-has-ended', Implies(Not(cached), c.ghost('ended').t))]


def out_pre(c):
    # the file is read once: when the output is cached it is the output, and an empty
    # cached output is only ever asked for once
    s = c.old('self').f('output')
    return [Implies(s.some, s.val.t != S(''))]


def poll_post(c):
    r, e = c.retval(OPT(INT)), uf('popen_poll', OPT(INT), c.old('self').f('proc'))
    return [('status-of-the-process-itself', And(r.some == e.some, Implies(r.some, r.val.t == e.val.t)))]


def replay_process(seed, tier):
    import subprocess
    m = realmod('iwyu_tool.py')
    rnd = random.Random(seed)
    for k in range(40):
        text = ''.join(rnd.choice(['a', 'b\n', 'é', ' ', '%']) for _ in range(rnd.choice([0, 1, 5, 50, 3000])))
        code = rnd.choice([0, 1, 2, 77, 255, -6, -11])
        prog = 'import sys,os,time\nsys.stdout.buffer.write(%r)\nsys.stdout.flush()\ntime.sleep(%r)\nsys.stderr.write("E")\nsys.stderr.flush()\n' % (text.encode(), rnd.choice([0, .02]))
        prog += 'os.kill(os.getpid(), %d)' % -code if code < 0 else 'os._exit(%d)' % code
        inv = m.Invocation([sys.executable, '-S', '-E', '-c', prog], '/')
        with silent():
            p = inv.start(False)
        r = call(p.get_output)
        r2 = call(p.get_output) if r else r
        st = (p.poll(), p.returncode)
        if r != text + 'E' or r2 != r or st != (code, code):
            return {'call': 'Process', 'written': text[:200] + 'E', 'exit': code, 'output': r[:200] if isinstance(r, str) else r, 'status': st}
    return None


def build():
    recs = {'Invocation': INV, 'Process': PROC}
    units = [pyunit('iwyu_tool.py', Contract('worst_exit_code', {'worst': INT, 'cur': INT}, post=worst_post)),
             pyunit('iwyu_tool.py', exec_contract(True), contracts=contracts, models=models, records=recs),
             pyunit('iwyu_tool.py', exec_contract(False), contracts=contracts, models=models, records=recs, timeout=12000)]
    units[1].name = 'execute[serial]'
    units[2].name = 'execute[parallel]'
    precs = {'Process': PR}
    units += [pyunit('iwyu_tool.py', Contract('Process.get_output', {'self': PR}, pre=out_pre, post=out_post, ghost=out_ghost), models=proc_models, records=precs, replay='process'),
              pyunit('iwyu_tool.py', Contract('Process.poll', {'self': PR}, post=poll_post), models=proc_models, records=precs, replay='process')]
    return Spec('P01', units, replays={'process': replay_process, 'worst_exit_code': replay_worst, 'execute': replay_execute},
                assumptions=['subprocess: poll() answers arbitrarily, the exit status is defined once the output has been read to the end'])
