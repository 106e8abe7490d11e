"""Runs the obligations of one property against the current source, reports the
verdict and writes the evidence file."""
import json, os, sys, time, traceback, multiprocessing as mp, importlib, glob
sys.setrecursionlimit(20000)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Unit:
    """One function under contract.

    gen(prover) -> (list of Obligation, info dict); replay: name of a replay key."""

    def __init__(self, name, where, gen, replay=None, timeout=8000, kind='contract'):
        self.name, self.where, self.gen, self.replay, self.timeout, self.kind = name, where, gen, replay, timeout, kind


class Bounded:
    """A labelled bounded stand-in: run(seed, tier) -> (evaluations, failing input dict or None, bound text)"""

    def __init__(self, name, where, run, bound):
        self.name, self.where, self.run, self.bound = name, where, run, bound


class Spec:
    def __init__(self, prop, units, replays=None, bounded=(), assumptions=(), trusted=(), known=None):
        self.prop, self.units, self.replays, self.bounded = prop, units, replays or {}, list(bounded)
        self.assumptions, self.trusted = list(assumptions), list(trusted)
        self.known = known


def failed_result(r):
    return r['error'] is not None or any(o['verdict'] != 'proved' for o in r['obls'])


def attempt(u, tier, variant=None, touched=()):
    res = {'unit': u.name, 'where': u.where, 'obls': [], 'error': None, 'inlined': [], 'models': [], 'aux': 0, 'solver_s': 0, 'backends': {}}
    try:
        from . import core
        pr = core.Prover(timeout_ms=u.timeout * (3 if tier == 'thorough' else 1))
        if variant is None:
            obls, info = u.gen(pr)
        else:
            g = u.gen(pr, variant, touched)
            if g is None:
                return None
            obls, info = g
        res['inlined'] = sorted(info.get('inlined', []))
        res['models'] = sorted(info.get('models', []))
        failures = 0
        for o in obls:
            # after two unprovable obligations the unit has failed: do not spend long on the rest
            if failures >= 2:
                v, be, model = pr.prove(o.pc, o.goal, timeout=1500, fallback=False)
            else:
                v, be, model = pr.prove(o.pc, o.goal)
            if v != 'proved':
                failures += 1
            d = {'name': o.name, 'verdict': v, 'backend': be, 'where': o.where}
            if v == 'sat':
                try:
                    d['model'] = str(model)[:3000]
                except Exception:
                    d['model'] = '?'
            res['obls'].append(d)
            if v == 'proved':
                res['backends'][be] = res['backends'].get(be, 0) + 1
            elif variant is not None:
                return res
        res['aux'] = pr.stats.aux
        res['solver_s'] = pr.stats.solver_s
        if not obls:
            res['error'] = 'no obligations generated'
    except core_unsupported() as e:
        res['error'] = 'translation: %s' % e
    except Exception as e:
        res['error'] = 'generator: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    return res


def _work(args):
    q, unit_idx, spec, tier = args
    u = spec.units[unit_idx]
    t0 = time.time()
    res = attempt(u, tier)
    # the same proof on equivalent texts of the function (norm.py)
    for k in range(getattr(u, 'variants', 0)):
        if not failed_result(res):
            break
        r = attempt(u, tier, k, None if res['error'] else [u.name.split('[')[0]] + res['inlined'])
        if r is not None and not failed_result(r):
            r['variant'] = k
            res = r
    res['wall'] = time.time() - t0
    q.put((unit_idx, res))


def core_unsupported():
    from . import core
    return core.Unsupported


def retry_units(spec, tier, results, t0, replayed):
    """Units that failed without a failing input are tried once more with more time."""
    bad = [i for i, r in enumerate(results) if (r['error'] and not r['error'].startswith('translation')) or any(o['verdict'] != 'proved' for o in r['obls'])]
    if not bad or time.time() - t0 > 240 or replayed():
        return results
    sub = Spec(spec.prop, [spec.units[i] for i in bad])
    for u in sub.units:
        u.timeout = u.timeout * 2
    for i, r in zip(bad, run_units(sub, tier, 400)):
        results[i] = r
    return results


def run_units(spec, tier, budget):
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    pend = list(range(len(spec.units)))
    live = {}
    results = {}
    nproc = 8
    t0 = time.time()
    while pend or live:
        while pend and len(live) < nproc:
            i = pend.pop(0)
            p = ctx.Process(target=_work, args=((q, i, spec, tier),))
            p.start()
            live[i] = (p, time.time())
        try:
            i, r = q.get(timeout=0.5)
            results[i] = r
            p, _ = live.pop(i)
            p.join(5)
        except Exception:
            pass
        for i in list(live):
            p, ts = live[i]
            dead = not p.is_alive() and i not in results and time.time() - ts > 2
            over = time.time() - t0 > budget
            if over:
                p.terminate()
            if dead or over:
                # drain once more
                try:
                    while True:
                        j, r = q.get(timeout=0.5)
                        results[j] = r
                        if j in live:
                            live.pop(j)
                except Exception:
                    pass
                if i in live:
                    live.pop(i)
                    results[i] = {'unit': spec.units[i].name, 'where': spec.units[i].where, 'obls': [], 'inlined': [], 'models': [],
                                  'error': 'time budget exhausted' if over else 'worker died', 'aux': 0, 'solver_s': 0, 'backends': {}, 'wall': 0}
        if time.time() - t0 > budget:
            for i in pend:
                results[i] = {'unit': spec.units[i].name, 'where': spec.units[i].where, 'obls': [], 'inlined': [], 'models': [],
                              'error': 'time budget exhausted', 'aux': 0, 'solver_s': 0, 'backends': {}, 'wall': 0}
            pend = []
    return [results[i] for i in sorted(results)]


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(l[len('finding: property=%s ' % prop):])
    return out


def main(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    evd = os.path.join(ROOT, 'evidence')
    os.makedirs(os.path.join(evd, 'replay'), exist_ok=True)
    failed = []
    try:
        specmod = importlib.import_module('specs.' + prop.lower())
        spec = specmod.build()
    except Exception as e:
        # the current source cannot even be loaded: nothing holds
        tb = traceback.format_exc()
        spec = Spec(prop, [])
        results = []
        failed = [{'obligation': 'source-loads', 'unit': '-', 'detail': tb[-3000:], 'replay': None}]
        specmod = None
    else:
        results = run_units(spec, tier, 400 if tier == 'quick' else 3000)
        rcache = {}

        def replayed():
            for k, r in spec.replays.items():
                if k not in rcache:
                    try:
                        rcache[k] = r(seed, tier)
                    except Exception:
                        rcache[k] = None
            return any(v is not None for v in rcache.values())
        results = retry_units(spec, tier, results, t0, replayed)
    gen = sum(len(r['obls']) for r in results)
    disch = sum(1 for r in results for o in r['obls'] if o['verdict'] == 'proved')
    backends = {}
    for r in results:
        for k, v in r['backends'].items():
            backends[k] = backends.get(k, 0) + v
    for r, u in zip(results, spec.units):
        bad = [o for o in r['obls'] if o['verdict'] != 'proved']
        if r['error']:
            failed.append({'obligation': 'translate:%s' % u.name, 'unit': u.name, 'detail': r['error'], 'replay': u.replay})
        for o in bad:
            failed.append({'obligation': '%s/%s' % (u.name, o['name']), 'unit': u.name, 'detail': 'solver verdict %s; model: %s' % (o['verdict'], o.get('model')), 'replay': u.replay})
    bres = []
    for b in spec.bounded:
        try:
            n, bad, extra = b.run(seed, tier)
        except Exception as e:
            n, bad, extra = 0, {'harness': traceback.format_exc()[-2000:]}, ''
        bres.append({'name': b.name, 'function': b.where, 'bound': b.bound, 'evaluations': n, 'ok': bad is None})
        if bad is not None:
            nf = 'harness' in bad
            failed.append({'obligation': 'bounded:%s' % b.name, 'unit': b.name, 'detail': json.dumps(bad, default=repr)[:4000], 'replay': None,
                           'found': None if nf else bad})
    # replay: search a failing input on the real code for every failed obligation
    viol = 0
    known = known_findings(prop)
    printed = []
    if failed:
        groups = {}
        for f in failed:
            groups.setdefault(f['replay'] or f['unit'], []).append(f)
        cache = {}
        hits, misses = [], []
        for k, fs in groups.items():
            found = next((f['found'] for f in fs if f.get('found')), None)
            if found is None and fs[0]['replay'] and fs[0]['replay'] in spec.replays:
                try:
                    found = spec.replays[fs[0]['replay']](seed, tier)
                except Exception as e:
                    found = None
                    fs[0]['replay_error'] = traceback.format_exc()[-1500:]
            (hits if found is not None else misses).append((k, fs, found))
        if not hits:
            # a failed obligation may show through another function's behaviour
            for k, r in spec.replays.items():
                if k in groups:
                    continue
                try:
                    found = r(seed, tier)
                except Exception:
                    found = None
                if found is not None:
                    hits.append((k, misses[0][1] if misses else [], found))
                    break
        n = 0
        for k, fs, found in hits + misses:
            n += 1
            path = os.path.join(evd, 'replay', '%s-%d.json' % (prop, n))
            with open(path, 'w') as fo:
                json.dump({'property': prop, 'failed_obligations': fs, 'failing_input': found}, fo, indent=1, default=repr)
            for f in fs:
                print('FAILED OBLIGATION property=%s %s' % (prop, f['obligation']))
            viol += 1
            if found is not None:
                printed.append('VIOLATION property=%s replay=%s' % (prop, path))
            elif not hits:
                printed.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': gen, 'discharged': disch,
            'checker_cmd': 'python3-vt check.py %s' % prop,
            'trusted_base': TRUSTED + spec.trusted,
            'functions_under_contract': [{'function': r['unit'], 'file': r['where'], 'obligations': len(r['obls']),
                                          'discharged': sum(1 for o in r['obls'] if o['verdict'] == 'proved'),
                                          'invariant_checks': r['aux'], 'inlined_callees': r['inlined'], 'assumed_contracts': r['models'],
                                          'solver_s': round(r['solver_s'], 2)} for r in results],
            'discharged_by_backend': backends,
            'invariant_checks_discharged': sum(r['aux'] for r in results),
            'solver_time_s': round(sum(r['solver_s'] for r in results), 2),
            'bounded_stand_ins': bres,
            'failed': [f['obligation'] for f in failed],
        },
        'assumptions': ASSUMPTIONS + spec.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': viol,
    }
    with open(os.devnull if os.environ.get('VERIF_NOEVID') else os.path.join(evd, prop + '.json'), 'w') as fo:
        json.dump(ev, fo, indent=1)
    for k in known:
        # a recorded finding is re-demonstrated by its own probe
        probe = getattr(specmod, 'probe_finding', None)
        if probe is None or probe(k):
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
    print('%s: %d/%d obligations discharged over %d functions, %d invariant checks, %.1fs' % (
        prop, disch, gen, len(results), ev['coverage']['invariant_checks_discharged'], time.time() - t0))
    for l in printed:
        print(l)
    sys.stdout.flush()
    return 1 if failed else 0


TRUSTED = ['the verification-condition generator in /verif/vcg (translation of the source syntax tree to SMT)',
           'z3 5.3, z3 4.8.12, cvc5 1.1.2']
ASSUMPTIONS = ['machine integers are treated as mathematical integers',
               'partial correctness: termination and resource exhaustion are not proved',
               'elements stored in a container are not aliased from outside it']
