"""Helpers shared by the specifications."""
import os, sys, random, importlib.util, itertools, io, contextlib
import z3
from vcg.core import *
from vcg import core
from vcg.core import FA
from vcg.pyfe import PyModule, PyExec, Contract, Ctx, uf, uf_raw, load_module, Iter, PTuple, Codes, unz
from vcg.run import Unit, Bounded, Spec, REPO

And, Or, Not, Implies, If, ForAll, Exists = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.ForAll, z3.Exists
I = z3.IntVal


def S(x):
    return zstr(x)


def pyunit(modfile, contract, contracts=None, models=None, records=None, replay=None, timeout=8000, setup=None):
    name = contract.qual

    def gen(prover, variant=None, touched=()):
        m = PyModule(os.path.join(REPO, modfile), modfile[:-3] + '_vc', variant)
        if variant is not None and touched is None and not m.changed:
            return None
        if variant is not None and touched is not None and not {x.split('.')[-1] for x in touched} & m.changed:
            return None
        mk = models(m) if callable(models) else (models or {})
        ct = contracts(m) if callable(contracts) else (contracts or {})
        ex = PyExec(m, prover, contracts=ct, models=mk, records=records(m) if callable(records) else (records or {}))
        if setup:
            setup(ex)
        obls = ex.verify(contract)
        return obls, {'inlined': ex.inlined, 'models': ex.called_models}
    u = Unit(name, modfile, gen, replay=replay or name, timeout=timeout)
    u.contract = contract
    u.variants = 2
    return u


def forall(sorts_or_n, f, pats=None):
    xs = [z3.Int(fresh_name('q')) for _ in range(sorts_or_n)]
    body = f(*xs)
    return FA(xs, body, patterns=pats(*xs) if pats else ())


def exists(n, f):
    xs = [z3.Int(fresh_name('q')) for _ in range(n)]
    return z3.Exists(xs, f(*xs))


def within(i, n):
    return And(0 <= i, i < n)


def realmod(modfile):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return load_module(os.path.join(REPO, modfile), modfile[:-3] + '_real')


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()) as o, contextlib.redirect_stderr(io.StringIO()):
        yield o


def call(f, *a, **k):
    """(value) or ('EXC', type name)"""
    try:
        with silent():
            return f(*a, **k)
    except TypeError as e:
        if e.__traceback__.tb_next is None and 'argument' in str(e):
            # the call itself does not fit any more (another signature): not a failing input
            raise
        return ('EXC', type(e).__name__, str(e)[:200])
    except Exception as e:
        return ('EXC', type(e).__name__, str(e)[:200])
