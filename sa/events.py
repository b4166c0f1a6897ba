"""Questions about the sequence of client callbacks a call makes."""
from . import terms as t
from .terms import T, D, TRUE, FALSE, ZERO, ONE

def peq(a, b):
    def f(x, y):
        if x is y: return TRUE
        if x.op == "obj" and y.op == "obj": return FALSE
        return t.b_atom(t.mk("peq", x, y))
    return t.apply("peq", f, a, b)
def _openk(k, evs):
    return evs
def count(trace, name, who=None):
    """number of calls of `name` (on receiver who) in the trace, as a term"""
    tot = ZERO
    for g, kind, x in trace:
        if kind == "for":
            k, n, inner = x
            c = count(inner, name, who)
            c = t.Sum(n, k, c)
        elif kind == "unk": c = x[0]
        elif kind == "call" and x[0] == name:
            c = ONE if who is None else t.ite(peq(x[1], who), ONE, ZERO)
        else: continue
        tot = t.add(tot, t.ite(g, c, ZERO))
    return tot
def every(trace, name, pred):
    """every call of `name` satisfies pred(args)"""
    ok = TRUE
    for g, kind, x in trace:
        if kind == "for":
            k, n, inner = x
            c = t.b_not(t.Exists(n, k, t.b_not(every(inner, name, pred))))
        elif kind == "unk": c = t.eq(t.num(x[0]), ZERO)
        elif kind == "call" and x[0] == name: c = pred(x)
        else: continue
        ok = t.b_and(ok, t.b_or(t.b_not(g), c))
    return ok
