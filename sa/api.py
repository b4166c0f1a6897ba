"""Sessions: bind the specification to the code through its public constructors and methods."""
from . import terms as t
from .terms import T, D, TRUE, FALSE, NULL, ZERO, ONE
from .interp import Interp, State, Frame, Lval, Struct, Clo
from .prog import Prog
from . import lib

NS = "OptionPricer::"
_prog = None
def prog():
    global _prog
    if _prog is None: _prog = Prog()
    return _prog

class AnchorMissing(Exception):
    """an API the property is stated over is gone: the check has no answer"""

class Outcome:
    """what a call does: normal condition/value/state plus exceptional outcomes"""
    def __init__(self, pc, val, st, throws):
        self.pc, self.val, self.st, self.throws = pc, val, st, throws
    def thrown(self, P=None, kind=None):
        c = FALSE
        for pc, et, v, s in self.throws:
            if kind is None or P is None or exc_is(P, et, kind): c = t.b_or(c, pc)
        return c

from .interp import exc_isa
def exc_is(P, et, kind): return exc_isa(P, et, kind)

class Sess:
    def __init__(self, P=None):
        self.P = P or prog()
        self.I = Interp(self.P)
        self.st = State()
        tu = self.P.tus[0]
        self.fr = Frame(tu)
    def cls(self, name):
        q = name if name.startswith(NS) or name.startswith("std::") else NS + name
        if q not in self.P.records: raise AnchorMissing("class " + name)
        return q
    def ptr(self, cls, name, exact=False):
        p = t.sym(name)
        q = self.cls(cls)
        self.I.ptype[p] = q
        self.I.nonnull.add(p)
        if exact: self.I.exact[p] = q
        return p
    def num(self, name, isint=False, pos=False, nonneg=False):
        s = t.sym(name, isint)
        if pos: t.POS.add(s); t.NONNEG.add(s)
        if nonneg: t.NONNEG.add(s)
        return t.poly(s)
    def arr(self, name): return t.sym(name)
    def fork(self):
        s = Sess.__new__(Sess)
        s.P, s.I, s.fr = self.P, self.I, self.fr
        s.st = self.st.copy()
        return s
    def run(self, f):
        """run f(state) -> Outcome, with self.st advanced to the normal continuation"""
        I = self.I
        old = I.throws
        I.throws = []
        pc0 = self.st.pc
        v = f(self.st)
        th = I.throws
        I.throws = old
        return Outcome(self.st.pc, v, self.st, th)
    def new(self, cls, *args):
        q = self.cls(cls)
        if self.P.records[q][0]["abstract"]: raise AnchorMissing("class %s is abstract" % cls)
        o = self.run(lambda st: lib.make(self.I, q, list(args), st, self.fr))
        return o
    def method(self, cls, name, nargs=None):
        ks = self.P.find_method(self.cls(cls), name, nargs)
        if not ks: raise AnchorMissing("method %s::%s" % (cls, name))
        return ks
    def call(self, p, cls, name, *args):
        ks = self.method(cls, name, len(args))
        if len(ks) > 1: ks = self.pick(ks, args)
        return self.callk(p, ks[0], *args)
    def callk(self, p, key, *args):
        fn, tu = self.P.funcs[key]
        virt = bool(fn.get("virt"))
        fr = Frame(tu)
        def go(st):
            v = self.I.call_fn(key, p, list(args), st, fr, virt, {"l": 0})
            if isinstance(v, Lval) and fn["kind"] != "ctor" and tu.types[fn["ret"]].get("ref") and self.I.tkind(tu.types[fn["ret"]]) == "rec":
                return self.I.lref(v)      # a reference to an object is handed out as its address
            return self.I.rval(v, st)
        return self.run(go)
    def ref(self, p): return self.I.deref(p)
    def pick(self, ks, args):
        best = []
        for k in ks:
            fn, tu = self.P.funcs[k]
            sc = 1
            for a, p in zip(args, fn["pt"]):
                s1 = lib.arg_score(self.I, a, self.I.rval(a, self.st), tu.types[p], tu, self.st)
                if s1 == 0: sc = 0; break
                sc += s1
            if sc: best.append((sc, k))
        best.sort(key=lambda x: -x[0])
        return [b[1] for b in best] or ks
    def get(self, p, cls, name, *args):
        o = self.call(p, cls, name, *args)
        return o.val
    def enum(self, qn):
        q = NS + qn
        e = q.rsplit("::", 1)[0]
        if e not in self.P.enums or q not in self.P.enums[e]: raise AnchorMissing("enumerator " + qn)
        return t.mk("enumc", q)
    def static(self, cls, name, *args):
        return self.call(None, cls, name, *args)
