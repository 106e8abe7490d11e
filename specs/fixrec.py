"""Record types and helpers shared by the specifications of fix_includes."""
from .common import *

F = 'fix_includes.py'
OSET = REC('OrderedSet', {'storage': MAP(STR, UNIT)})
SPAN = TUP(INT, INT)
RECORD = REC('IWYUOutputRecord', {'filename': STR, 'lines_to_delete': SET(INT), 'some_include_lines': SET(INT), 'seen_forward_declare_lines': SET(SPAN),
                                  'nested_forward_declare_lines': SET(SPAN), 'includes_and_forward_declares_to_add': OSET, 'full_include_lines': MAP(STR, STR)})
LINE = REC('LineInfo', {'line': OPT(STR), 'type': CODE, 'is_first_line_of_this_type': BOOL, 'deleted': BOOL, 'move_span': OPT(SPAN), 'reorder_span': OPT(SPAN),
                        'key': OPT(STR), 'is_nested_forward_declaration': BOOL})
RECS = {'OrderedSet': OSET, 'IWYUOutputRecord': RECORD, 'LineInfo': LINE}


def oset_truth(ex, s, v):
    v = ex.rv(s, v)
    k = z3.Const(fresh_name('k'), z3.StringSort())
    return z3.Exists([k], v.f('storage').has(k))


def nop(ex, s, *a):
    return [(s, Val(UNIT, ()))]


BASE_MODELS = {'truth:OrderedSet': oset_truth, 'builtin:print': nop}


def fmodels(extra=None):
    def f(m):
        d = dict(BASE_MODELS)
        d.update(extra(m) if callable(extra) else (extra or {}))
        return d
    return f


def funit(contract, contracts=None, models=None, replay=None, timeout=8000, records=None):
    return pyunit(F, contract, contracts=contracts, models=fmodels(models), records=dict(RECS, **(records or {})), replay=replay, timeout=timeout)


def allk(sorts, f, pats=None):
    ks = [z3.Const(fresh_name('k'), s) for s in sorts]
    return FA(ks, f(*ks), patterns=pats(*ks) if pats else ())


def real():
    return realmod(F)
