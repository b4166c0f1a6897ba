"""Monte Carlo estimators."""
from ..chk import check
from .. import terms as t, events, lib
from ..terms import TRUE, FALSE, ZERO, ONE, ite, T, D, Lam, Sum, Rec, Exists, Filt
from ..api import AnchorMissing, NS
from . import models as mo
from .payoffs import tcase
from .options import reached, DIR, BYCLS, Env, pay

def idx(n):
    k = t.fresh(n, True); t.NONNEG.add(k)
    return k, t.poly(k)

def _pathlen(a):
    """a path has one price per step (C11), a regression one coefficient per basis function (C29)"""
    if a.op == "draw" and a.args[0].endswith("::simulatePrices"):
        f = STEPS.get(a.args[2])
        return f if f is not None else None
    if a.op.startswith("call:") and a.op.endswith("Regression::solve"): return lib.mcols(a.args[1])
    return None
STEPS = {}
lib.LENRULES.append(_pathlen)

class Desk:
    """a market, a model and an option, as a client holds them"""
    def __init__(self, c, M=None, v=None):
        self.c = c
        self.dom = {}
        self.r1 = None
        if M is None:
            s = self.s = c.sess()
            self.md = s.ptr("MarketData", "md", True)
            self.model = s.ptr("StockModel", "model")
            self.mm = None
            STEPS[self.model] = s.fork().get(self.model, "StockModel", "getSteps")
        else:
            mm, disc = mo.build(c, M, v or mo.variants(M)[0])
            self.mm = mm
            s = self.s = mm.s
            self.md, self.model = mm.m.md, mm.model
            self.dom = dict(mm.dom)
        self.N = s.num("N", True, pos=True)
        self.name = "any model" if M is None else M.cls
    def option(self, cls):
        s = self.s
        self.o = s.ptr(cls, "option", True)
        self.T = s.fork().get(self.o, "Option", "getT")
        t.POS.update(a for a in self.T.free) if False else None
        return self.o
    def under(self, n=None):
        s = self.s
        u = t.b_all(t.gt(self.T, 0), t.gt(self.steps(), 0), t.gt(self.N, 0))
        if self.mm is not None:
            S, v, r, cp, d = self.mm.m.quotes()
            u = t.b_and(u, self.mm.ok((S, v, r, cp, d), self.T))
        return u
    def steps(self): return self.s.fork().get(self.model, "StockModel", "getSteps")
    def rate(self): return self.s.fork().get(self.md, "MarketData", "getR")
    def sim(self, name, *args, at):
        """what the model simulates inside the loops whose indices are given"""
        f = self.s.fork()
        f.st.dr = tuple(f.st.dr) + tuple(({}, k) for k in at) if isinstance(f.st.dr, tuple) else list(f.st.dr) + [({}, k) for k in at]
        return f.get(self.model, "StockModel", name, *args)
    def pay(self, *a): return self.s.fork().get(self.o, "Option", "payoff", *a)
    def iscall(self):
        s = self.s
        p = s.fork().get(self.o, "Option", "getPayoff")
        ty = s.fork().get(p, "Payoff", "getPayoffType")
        return ty
    def mean(self, i, x, df): return df * Sum(self.N, i, x) / self.N
    def df(self): return t.exp(-self.rate() * self.T)

def single(d, i, pi):
    S = d.sim("simulatePriceAtMaturity", d.T, at=[i])
    return d.pay(S)
def onpath(f):
    def g(d, i, pi):
        P = d.sim("simulatePrices", d.T, at=[i])
        n = d.steps()
        j, pj = idx("j")
        return f(d, lambda k: t.num(t.sel(P, k)), n, j, pj)
    return g
def byType(d, a, b):
    return tcase(d.s, d.iscall(), a, b, ZERO)
def arith(d, P, n, j, pj): return d.pay(Sum(n, j, P(pj)) / n)
def geom(d, P, n, j, pj): return d.pay(t.exp(Sum(n, j, t.log(P(pj))) / n))
def hi(n, j, x): return t.Fold("maxf", n, j, x)
def lo(n, j, x): return t.Fold("minf", n, j, x)
def fixed(d, P, n, j, pj): return byType(d, d.pay(hi(n, j, P(pj))), d.pay(lo(n, j, P(pj))))
def floating(d, P, n, j, pj): return byType(d, d.pay(P(n - 1), lo(n, j, P(pj))), d.pay(P(n - 1), hi(n, j, P(pj))))
def active(d, cls, x): return t.asbool(d.s.fork().get(d.o, cls, "isActive", x))
def kin(d, P, n, j, pj): return ite(Exists(n, j, active(d, "KnockInBarrierOption", P(pj))), d.pay(P(n - 1)), ZERO)
def kout(d, P, n, j, pj): return ite(Exists(n, j, t.b_not(active(d, "KnockOutBarrierOption", P(pj)))), ZERO, d.pay(P(n - 1)))

CASES = [("SinglePathMCPricer", "EuropeanOption", single, "the mean of payoffs at maturity"),
         ("SinglePathMCPricer", "DigitalOption", single, "the mean of payoffs at maturity"),
         ("SinglePathMCPricer", "DoubleDigitalOption", single, "the mean of payoffs at maturity"),
         ("ArithmeticAsianMCPricer", "ArithmeticAsianOption", onpath(arith), "the mean of payoffs of path averages"),
         ("GeometricAsianMCPricer", "GeometricAsianOption", onpath(geom), "the mean of payoffs of geometric path averages"),
         ("FixedStrikeLookbackMCPricer", "FixedStrikeLookbackOption", onpath(fixed), "the mean of payoffs at the path's extremum"),
         ("FloatingStrikeLookbackMCPricer", "FloatingStrikeLookbackOption", onpath(floating), "the mean of payoffs against the path's extremum"),
         ("KnockInBarrierMCPricer", "KnockInBarrierOption", onpath(kin), "the mean of terminal payoffs of activated paths"),
         ("KnockOutBarrierMCPricer", "KnockOutBarrierOption", onpath(kout), "the mean of terminal payoffs of surviving paths")]

def typed(d, oc):
    """payoffs of these options are calls or puts"""
    if oc == "DoubleDigitalOption": return TRUE
    return t.asbool(tcase(d.s, d.iscall(), TRUE, TRUE, FALSE))

def confirm(c, f):
    """f(model or None): decided first for an arbitrary model; a difference there is reported only if it
    shows for one of the library's models"""
    n0 = len(c.obs)
    f(None)
    new = c.obs[n0:]
    if not any(o.status == "VIOLATED" for o in new): return
    c.obs = c.obs[:n0]
    n, c.samples = c.samples, min(c.samples, 40)
    try:
        for M in mo.MODELS:
            f(M)
            if any(o.status == "VIOLATED" for o in c.obs[n0:]): break
    finally: c.samples = n

@check("C20")
def estimators(c):
    c.rule = "value graph of a pricer's result equals the discounted mean of the contract's payoff over N independent simulations of the model"
    for pc, oc, f, what in CASES:
        def g():
            def run(M):
                for moved in (False, True) if M is None else (True,):
                    d = Desk(c, M)
                    s = d.s
                    o = d.option(oc)
                    p = s.new(pc, o, d.md, d.model).val
                    s.st.pc = TRUE
                    if moved:
                        if d.mm is not None: d.mm.m.requote()
                        else: s.call(d.md, "MarketData", "setR", s.num("r1"))
                        s.st.pc = TRUE
                    r = s.fork().call(p, "MCPricer", "calculatePrice", d.N)
                    i, pi = idx("i")
                    spec = d.mean(i, f(d, i, pi), d.df())
                    u = t.b_all(d.under(), typed(d, oc))
                    if moved and d.mm is not None: u = t.b_and(u, d.mm.m.live)
                    lab = "%s/%s, %s%s: " % (pc, oc, d.name, ", rate changed after the pricer was made" if moved else "")
                    w = c.where(pc, "calculatePrice")
                    dom = dict(d.dom)
                    c.eq(lab + "price is the discounted value of " + what, r.val, spec, w, u, s, dom)
                    c.holds(lab + "pricing succeeds", r.pc, w, u, s, dom)
            confirm(c, run)
        c.group("%s/%s" % (pc, oc), g)

@check("C21")
def barriers(c):
    c.rule = "value graphs of knock-in and knock-out prices of the same contract on the same simulations: each equals its definition by barrier events, and they add up to the vanilla price"
    for call in (True, False):
        def g():
            e = Env(c)
            s = e.s
            kin, kout = BYCLS["KnockInBarrierOption"], BYCLS["KnockOutBarrierOption"]
            prm = e.params(kin)
            oi = e.make(kin, call, prm).val; s.st.pc = TRUE
            oo = e.make(kout, call, prm).val; s.st.pc = TRUE
            d = Desk.__new__(Desk)
            d.c, d.s, d.md, d.mm, d.dom = c, s, e.md, None, {}
            d.model = s.ptr("StockModel", "model")
            STEPS[d.model] = d.steps()
            d.N = s.num("N", True, pos=True)
            d.T = s.num("T")
            d.o = oi
            pi_ = s.new("KnockInBarrierMCPricer", oi, e.md, d.model).val
            po_ = s.new("KnockOutBarrierMCPricer", oo, e.md, d.model).val
            s.st.pc = TRUE
            s.call(e.md, "MarketData", "setR", s.num("r1")); s.st.pc = TRUE
            a = s.fork().call(pi_, "MCPricer", "calculatePrice", d.N)
            b = s.fork().call(po_, "MCPricer", "calculatePrice", d.N)
            i, pi = idx("i"); j, pj = idx("j")
            P = d.sim("simulatePrices", d.T, at=[i])
            n = d.steps()
            hit = Exists(n, j, reached(s, s.num("B"), t.num(t.sel(P, pj))))
            van = pay(kin, s, call, t.num(t.sel(P, n - 1)))
            df = t.exp(-s.num("r1") * d.T)
            u = t.b_all(e.valid, e.domain(kin), t.gt(d.T, 0), t.gt(n, 0))
            lab = "call" if call else "put"
            c.eq(lab + ": knock-in pays when the barrier was reached", a.val, d.mean(i, ite(hit, van, ZERO), df), c.where("KnockInBarrierMCPricer", "calculatePrice"), u, s)
            c.eq(lab + ": knock-out pays when it never was", b.val, d.mean(i, ite(hit, ZERO, van), df), c.where("KnockOutBarrierMCPricer", "calculatePrice"), u, s)
            c.eq(lab + ": in plus out is the vanilla", t.add(a.val, b.val), d.mean(i, van, df), c.where("BarrierMCPricer", "calculatePrice"), u, s)
        c.group("barrier %s" % call, g)

def american_spec(d, basis, reg, bridge):
    """exercise dates t_1..t_n = T; values are carried back one date at a time, discounted by one step, replaced by the
    immediate payoff where that is positive and exceeds the regression estimate of continuing; finally discounted to today"""
    s, N, n = d.s, d.N, d.steps()
    dt = d.T / n
    df = t.exp(-d.rate() * dt)
    i, pi = idx("i"); k, pk = idx("k"); ii, pii = idx("ii")
    A = t.fresh("A"); P = t.fresh("P")
    def induct(price, Aarr):
        """one exercise date; price(index) is the price of that path at that date"""
        x = price(pi, i)
        ex = d.pay(x)
        itm = t.gt(ex, 0)
        X = Filt(N, i, itm, x)
        Y = Filt(N, i, itm, df * t.num(t.sel(Aarr, pi)))
        f = s.fork()
        B = f.get(basis, "BasisFunction", "generate", X)
        co = f.get(reg, "Regression", "solve", B, Y)
        rank = Sum(pi, ii, ite(t.subst(itm, {i: pii}), ONE, ZERO))
        m, pm = idx("m")
        cont = Sum(lib.mcols(B), m, t.num(lib.at2(B, rank, pm)) * t.num(t.sel(co, pm)))
        return Lam(N, i, ite(t.b_and(itm, t.gt(ex, cont)), ex, df * t.num(t.sel(Aarr, pi))))
    if not bridge:
        date = lambda a: lambda p, q: t.num(t.sel(d.sim("simulatePrices", d.T, at=[q]), a))
        A0 = Lam(N, i, d.pay(date(n - 1)(pi, i)))
        step = induct(date(n - 2 - pk), A)
        R = Rec(0, n - 1, k, [A], [A0], [step], [(False, False)])
    else:
        P0 = Lam(N, i, d.sim("simulatePriceAtMaturity", d.T, at=[i]))
        A0 = Lam(N, i, d.pay(t.num(t.sel(P0, pi))))
        j = n - 1 - pk
        P1 = Lam(N, i, d.sim("simulatePriceBackward", t.num(t.sel(P, pi)), j * dt, (j + 1) * dt, at=[k, i]))
        step = induct(lambda p, q: t.num(t.sel(P1, p)), A)
        R = Rec(1, n - 1, k, [P, A], [P0, A0], [P1, step], [(False, False), (False, False)])
    return df * Sum(N, i, t.num(t.sel(R, pi))) / N

@check("C22")
def american(c):
    c.rule = "value graph of the American price equals Longstaff-Schwartz backward induction for an arbitrary basis and regression"
    def one(lab, model, exact, gen, bridge):
        def g():
            for moved in (False, True):
                s = c.sess()
                d = Desk.__new__(Desk)
                d.c, d.s, d.mm, d.dom, d.name = c, s, None, {}, lab
                d.md = s.ptr("MarketData", "md", True)
                d.model = s.ptr(model, "model", exact)
                if exact:
                    for m in ("simulatePriceAtMaturity", "simulatePrices", "simulatePriceBackward"): s.I.forced_all.add(NS + "StockModel::" + m)
                STEPS[d.model] = d.steps()
                d.N = s.num("N", True, pos=True)
                g0 = s.fork().get(d.model, "StockModel", "getGenerator")
                if gen:
                    s.I.exact[g0] = s.cls(gen); s.I.ptype[g0] = s.cls(gen); s.I.nonnull.add(g0)
                o = d.option("AmericanOption")
                basis, reg = s.ptr("BasisFunction", "basis"), s.ptr("Regression", "regression")
                p = s.new("AmericanMCPricer", o, d.md, d.model, basis, reg).val
                s.st.pc = TRUE
                if moved: s.call(d.md, "MarketData", "setR", s.num("r1")); s.st.pc = TRUE
                r = s.fork().call(p, "MCPricer", "calculatePrice", d.N)
                u = d.under()
                w = c.where("AmericanMCPricer", "calculatePrice")
                nm = "%s%s: backward induction" % (lab, ", rate changed later" if moved else "")
                c.any_of(nm, [lambda b=b: c.eq(nm, r.val, american_spec(d, basis, reg, b), w, u, s) for b in ((True, False) if bridge else (False,))])
                c.holds("%s%s: pricing succeeds" % (lab, ", rate changed later" if moved else ""), r.pc, w, u, s)
        c.group(lab, g)
    one("lognormal model with pseudo-random numbers", "GeometricBrownianMotionModel", True, "PseudoRandomNumberGenerator", True)
    one("lognormal model with Sobol numbers", "GeometricBrownianMotionModel", True, "SobolGenerator", False)
    one("lognormal model with Faure numbers", "GeometricBrownianMotionModel", True, "FaureGenerator", False)
    for M in mo.MODELS[1:]:
        one("%s with pseudo-random numbers" % M.cls, M.cls, True, "PseudoRandomNumberGenerator", False)
