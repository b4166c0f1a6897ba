"""Options: factories, parameters, construction."""
from ..chk import check
from .. import terms as t, events, lib
from ..terms import TRUE, FALSE, ZERO, ONE, ite, T, D
from ..api import AnchorMissing, NS
from ..interp import Struct
from .market import UPD, opt
from .payoffs import tcase, pos, flag, types

DIR = "BarrierDirection"
def var(kind, v):
    k = {"d": "double", "s": "string", "i": "int", "dir": NS + DIR}[kind]
    return t.apply(("var", k), lambda x: t.mk("var", k, x), v)

class Kind:
    def __init__(self, cls, payoff, par, fac=None):
        self.cls, self.payoff, self.par = cls, payoff, par
        self.fac = fac or cls + "Factory"
KINDS = [Kind("EuropeanOption", "PayoffVanilla", ("K",)), Kind("DigitalOption", "PayoffDigital", ("K",)),
         Kind("DoubleDigitalOption", "PayoffDoubleDigital", ("K1", "K2")), Kind("AmericanOption", "PayoffVanilla", ("K",)),
         Kind("ArithmeticAsianOption", "PayoffVanilla", ("K",)), Kind("GeometricAsianOption", "PayoffVanilla", ("K",)),
         Kind("KnockInBarrierOption", "PayoffVanilla", ("K", "B", "direction")), Kind("KnockOutBarrierOption", "PayoffVanilla", ("K", "B", "direction")),
         Kind("FloatingStrikeLookbackOption", "PayoffLookbackFloatingStrike", ()), Kind("FixedStrikeLookbackOption", "PayoffVanilla", ("K",))]
BYCLS = {k.cls: k for k in KINDS}

class Env:
    """the shared market with an arbitrary content, plus a parameter object"""
    def __init__(self, c, s=None):
        self.c = c
        s = self.s = s or c.sess()
        s.I.forced.add(UPD); s.I.forced_all.add(UPD)
        a = s.static("MarketData", "getInstance")
        self.md = a.val
        s.st.pc = TRUE
        self.tk = t.sym("ticker")
        # an arbitrary accepted quote for the ticker
        o, h, x = opt(s, "c0")
        self.S, self.v, self.h, self.x = s.num("S0"), s.num("v0"), h, x
        s.call(self.md, "MarketData", "addStock", self.tk, self.S, self.v, o)
        s.call(self.md, "MarketData", "setR", s.num("r0"))
        s.st.pc = TRUE
        self.valid = t.b_all(t.gt(self.S, 0), t.ge(self.v, 0), t.b_or(t.b_not(h), t.b_and(t.ge(x, 0), t.le(x, 1))))
        self.cpn = ite(h, x, ZERO)
        self.r = s.num("r0")
    def params(self, kind, skip=(), wrong=(), tk=None):
        s = self.s
        p = s.new("ParameterObject").val
        vals = {"ticker": ("s", tk or self.tk), "T": ("d", s.num("T"))}
        for n in kind.par: vals[n] = ("dir", t.sym("direction")) if n == "direction" else ("d", s.num(n))
        for n, (k, v) in vals.items():
            if n in skip: continue
            if n in wrong: k, v = ("i", s.num("bad", True)) if k != "i" else ("d", v)
            s.call(p, "ParameterObject", "setParameter", t.mk("str", n), var(k, v))
        s.st.pc = TRUE
        return p
    def make(self, kind, call, p):
        s = self.s
        f = s.new(kind.fac).val
        s.st.pc = TRUE
        r = s.call(f, kind.fac, "createCallOption" if call else "createPutOption", s.ref(p))
        return r
    def domain(self, kind):
        s = self.s
        u = t.ge(s.num("T"), 0)
        for n in kind.par:
            if n in ("K", "K1", "K2"): u = t.b_and(u, t.ge(s.num(n), 0))
        return u

def pay(kind, s, call, S, X=None):
    K = s.num("K")
    if kind.payoff == "PayoffVanilla": return pos(S - K) if call else pos(K - S)
    if kind.payoff == "PayoffDigital": return flag(t.gt(S, K)) if call else flag(t.gt(K, S))
    if kind.payoff == "PayoffDoubleDigital": return flag(t.b_and(t.le(s.num("K1"), S), t.le(S, s.num("K2"))))
    return pos(S - X) if call else pos(X - S)

def reached(s, B, dom):
    """the barrier condition, by direction"""
    e = NS + DIR
    if e not in s.P.enums: raise AnchorMissing("enumeration " + DIR)
    m = {e + "::Up": t.ge(dom, B), e + "::Down": t.le(dom, B)}
    d = s.P.enums[e]
    return t.enum_case(t.sym("direction"), d, [m.get(x, FALSE) for x in d])

@check("C09")
def factories(c):
    c.rule = "value graph of the option a factory returns, read through its public accessors, equals the requested contract"
    for kind in KINDS:
        for call in (True, False):
            def g():
                e = Env(c)
                s = e.s
                p = e.params(kind)
                n0 = len(s.st.trace)
                f = s.fork()
                e.s = f
                r = e.make(kind, call, p)
                e.s = s
                u = t.b_and(e.valid, e.domain(kind))
                lab = "%s %s" % (kind.cls, "call" if call else "put")
                w = c.where(kind.fac, "createSpecificOption")
                c.holds(lab + ": a valid request succeeds", r.pc, w, u, s)
                o = r.val
                q = f.fork(); q.st = r.st.copy(); q.st.pc = TRUE
                get = lambda name, *a: q.fork().get(o, "Option", name, *a)
                c.eq(lab + ": maturity", get("getT"), s.num("T"), w, u, s)
                c.fact(lab + ": kind", all(s.I.exact_class(l, q.st) == NS + kind.cls for l in t.leaves(o)) if not o.unk else None, w, "", {"built": [str(s.I.exact_class(l, q.st)) for l in t.leaves(o)]})
                S, X = s.num("S"), s.num("extreme")
                two = kind.payoff == "PayoffLookbackFloatingStrike"
                c.eq(lab + ": payoff", get("payoff", S, X) if two else get("payoff", S), pay(kind, s, call, S, X), w, u, s)
                c.eq(lab + ": underlying", lib.keyeq(get("getID"), e.tk), TRUE, w, u, s)
                if kind.payoff != "PayoffDoubleDigital":
                    py = get("getPayoff")
                    ty = q.fork().get(py, "Payoff", "getPayoffType")
                    c.eq(lab + ": payoff type", tcase(s, ty, ONE, t.const(2), t.const(3)), ONE if call else t.const(2), w, u, s)
                if "B" in kind.par:
                    hit = reached(s, s.num("B"), S)
                    c.eq(lab + ": barrier condition", q.fork().get(o, kind.cls, "isActive", S), hit if "KnockIn" in kind.cls else t.b_not(hit), c.where(kind.cls, "isActive"), u, s)
                # registered with the market: a later change of its stock reaches it exactly once
                tr = q.fork()
                m0 = len(tr.st.trace)
                k = tr.call(e.md, "MarketData", "notifyObserver", e.tk)
                c.eq(lab + ": registered with the market", events.count(k.st.trace[m0:], UPD, o), ONE, c.where("Option", "initialize"), u, s)
            c.group("%s/%s" % (kind.cls, call), g)

BADARG = "std::invalid_argument"
def strs(s, *names): return [t.sym(n) for n in names]

@check("C10")
def requests(c):
    c.rule = "exception outcomes of the factory's value graph; state of the market after them"
    for kind in KINDS:
        for call in (True, False):
            def g():
                lab = "%s %s" % (kind.cls, "call" if call else "put")
                e = Env(c)
                s = e.s
                w = c.where(kind.fac, "createOption")
                # an observer that was there before
                ob = s.ptr("MarketDataObserver", "ob0")
                s.call(e.md, "MarketData", "addObserver", ob)
                s.st.pc = TRUE
                base = s.st
                def attempt(**kw):
                    e.s = s.fork()
                    p = e.params(kind, **kw)
                    f = e.s
                    r = e.make(kind, call, p)
                    e.s = s
                    return f, r
                names = ("ticker", "T") + kind.par
                tkobs = s.fork().get(ob, "MarketDataObserver", "getID")
                def refused(what, f, r, under):
                    c.holds("%s: %s is refused with an argument error" % (lab, what), r.thrown(s.P, BADARG), w, under, s)
                    for pc, et, v, st in r.throws:
                        q = s.fork(); q.st = st.copy(); q.st.pc = TRUE
                        m0 = len(q.st.trace)
                        k = q.call(e.md, "MarketData", "notifyObserver", e.tk)
                        n = events.count(k.st.trace[m0:], UPD)
                        one = events.count(k.st.trace[m0:], UPD, ob)
                        c.eq("%s: %s leaves no option registered" % (lab, what), n, one, w, t.b_all(under, pc), s)
                u = t.b_and(e.valid, e.domain(kind))
                for n in names:
                    f, r = attempt(skip=(n,))
                    refused("missing " + n, f, r, u)
                    f, r = attempt(wrong=(n,))
                    refused("mistyped " + n, f, r, u)
                f, r = attempt()
                refused("out-of-range maturity or strike", f, r, t.b_and(e.valid, t.b_not(e.domain(kind))))
                other = t.sym("other")
                listed = s.fork().call(e.md, "MarketData", "getStockData", other).pc
                f, r = attempt(tk=other)
                refused("unlisted ticker", f, r, t.b_all(u, t.b_not(listed)))
            c.group("%s/%s" % (kind.cls, call), g)
    def lookup():
        s = c.sess()
        ks = s.method("ParameterObject", "getParameter")
        w = c.where("ParameterObject", "getParameter")
        a, b, q = strs(s, "name1", "name2", "query")
        vals = {"i": s.num("iv", True), "d": s.num("dv"), "s": t.sym("sv"), "dir": t.sym("direction")}
        short = lambda ty: "s" if "string" in ty else {"int": "i", "double": "d", NS + DIR: "dir"}.get(ty)
        for k1 in vals:
            for k2 in vals:
                f = s.fork()
                p = f.new("ParameterObject").val
                f.call(p, "ParameterObject", "setParameter", a, var(k1, vals[k1]))
                x2 = vals[k2] if k1 != k2 else {"i": s.num("iw", True), "d": s.num("dw"), "s": t.sym("sw"), "dir": t.sym("direction2")}[k2]
                f.call(p, "ParameterObject", "setParameter", b, var(k2, x2))
                f.st.pc = TRUE
                qa, qb = lib.keyeq(q, a), lib.keyeq(q, b)
                has = f.fork().get(p, "ParameterObject", "hasParameter", q)
                if k1 == "d" and k2 == "d":
                    c.eq("a parameter exists iff it was set", t.asbool(has), t.b_or(qa, qb), c.where("ParameterObject", "hasParameter"), TRUE, s)
                for k in ks:
                    ty = short(s.P.funcs[k][0]["targs"][0])
                    if ty is None: continue
                    g2 = f.fork()
                    r = g2.callk(p, k, q)
                    ok = t.b_or(qb if ty == k2 else FALSE, t.b_all(t.b_not(qb), qa) if ty == k1 else FALSE)
                    lab = "reading %s after storing %s then %s" % (ty, k1, k2)
                    c.holds(lab + ": fails with an argument error iff absent or of another type", t.b_iff(r.thrown(s.P, BADARG), t.b_not(ok)) if hasattr(t, "b_iff") else ite(ok, t.b_not(r.thrown()), r.thrown(s.P, BADARG)), w, TRUE, s)
                    if ty in (k1, k2):
                        want = x2 if ty != k1 else (vals[k1] if ty != k2 else ite(qb, x2, vals[k1]))
                        c.eq(lab + ": value", lib.valeq(s.I, r.val, want) if ty != "d" else t.eq(r.val, want), TRUE, w, ok, s)
    c.group("parameter lookup", lookup)
