"""Stock models: paths, one-step laws, variance schemes, parameter validation, bridges."""
from ..chk import check
from .. import terms as t, events
from ..terms import TRUE, FALSE, ZERO, ONE, ite, T, D, Lam, Sum, Rec
from ..api import AnchorMissing, NS
from ..interp import Struct
from ..evalt import families
from .market import UPD, some, NONE, opt

def draw(law, params, *labels, isint=False):
    return t.poly(t.mk("draw", law, len(params), *params, *[l if isinstance(l, T) else t.const(l) for l in labels], isint=isint))

UPDATE = NS + "CIRDiscretization::update"

class Mkt:
    """a market with an arbitrary listed stock, optionally re-quoted after `then` was done"""
    def __init__(self, c):
        s = self.s = c.sess()
        s.I.forced.add(UPD)
        self.md = s.ptr("MarketData", "md", True)
        self.gen = s.ptr("PseudoRandomNumberGenerator", "gen", True)
        self.tk = t.sym("ticker")
        o = s.fork().call(self.md, "MarketData", "getStockData", self.tk)
        self.listed = o.pc
        self.h = o.val
    def requote(self):
        """every quote is changed through the public interface"""
        s, md, tk = self.s, self.md, self.tk
        o, h, x = opt(s, "c1")
        s.call(md, "MarketData", "updateStockPrice", tk, s.num("S1"))
        s.call(md, "MarketData", "updateStockSigma", tk, s.num("v1"))
        s.call(md, "MarketData", "updateStockCoupon", tk, o)
        s.call(md, "MarketData", "setR", s.num("r1"))
        s.st.pc = TRUE
        self.live = t.b_and(t.b_and(t.gt(s.num("S1"), 0), t.ge(s.num("v1"), 0)), t.b_or(t.b_not(h), t.b_and(t.ge(x, 0), t.le(x, 1))))
    def quotes(self):
        s = self.s.fork()
        S = s.get(self.h, "StockData", "getPrice")
        v = s.get(self.h, "StockData", "getSigma")
        co = s.get(self.h, "StockData", "getCoupon")
        if not isinstance(co, Struct): raise AnchorMissing("optional coupon")
        cpn = ite(t.asbool(co.fields["has"]), co.fields["val"], ZERO)
        r = s.get(self.md, "MarketData", "getR")
        dom = t.b_and(self.listed, t.b_and(t.gt(S, 0), t.ge(v, 0)))
        return S, v, r, cpn, dom
    def steps(self, m):
        return self.s.fork().get(m, "StockModel", "getSteps")

class Model:
    cls = None
    par = ()
    disc = False
    dom = {}
    def domain(self, p, q): return TRUE
    def steplaw(self, p, q, dt, k, V):
        """log-return of step k"""
        raise NotImplementedError
def z(k, i=0): return draw("N01", (), 0, k, i)

class GBM(Model):
    cls = "GeometricBrownianMotionModel"
    def steplaw(self, p, q, dt, k, V):
        S, v, r, c = q
        return (r - c - v * v / 2) * dt + v * t.sqrt(dt) * z(k)
class Kou(Model):
    cls, par = "KouModel", ("lambda", "p", "eta1", "eta2")
    dom = {"p": (0, 1), "eta1": (1.25, 4), "eta2": (.25, 4), "lambda": (.25, 2)}
    def domain(self, p, q):
        l, pp, a, b = p
        return t.b_all(t.ge(pp, 0), t.le(pp, 1), t.gt(a, 1), t.gt(b, 0))
    sim = lambda self, p: t.gt(p[0], 0)
    def steplaw(self, p, q, dt, k, V):
        S, v, r, c = q
        l, pp, a, b = p
        n = draw("Poi", (l * dt,), 0, k, 0, isint=True)
        j = t.fresh("j", True)
        e = draw("E1", (), 0, k, 0, t.poly(j), 0)
        u = draw("U01", (), 0, k, 0, t.poly(j), 0)
        jumps = Sum(n, j, ite(t.lt(u, pp), e / a, -e / b))
        comp = l * (pp * a / (a - 1) + (ONE - pp) * b / (b + 1) - 1)
        return (r - c - v * v / 2 - comp) * dt + v * t.sqrt(dt) * z(k) + jumps
class Merton(Model):
    cls, par = "MertonJumpDiffusionModel", ("lambda", "muJ", "sigmaJ")
    dom = {"lambda": (.25, 2), "sigmaJ": (.125, 1.5)}
    def domain(self, p, q): return t.gt(p[2], 0)
    sim = lambda self, p: t.gt(p[0], 0)
    def jumps(self, l, m, sj, dt, k, lab=1):
        n = draw("Poi", (l * dt,), 0, k, 0, isint=True)
        j = t.fresh("j", True)
        nj = Sum(n, j, m + sj * draw("N01", (), 0, k, lab, t.poly(j), 0))
        return nj, l * (t.exp(m + sj * sj / 2) - 1)
    def steplaw(self, p, q, dt, k, V):
        S, v, r, c = q
        nj, comp = self.jumps(*p, dt, k)
        return (r - c - v * v / 2 - comp) * dt + v * t.sqrt(dt) * z(k) + nj
class VG(Model):
    cls, par = "VarianceGammaModel", ("nu", "theta")
    dom = {"nu": (.125, 1), "theta": (-1, .5)}
    def domain(self, p, q):
        nu, th = p
        return t.b_and(t.gt(nu, 0), t.gt(ONE - th * nu - q[1] * q[1] * nu / 2, 0))
    sim = lambda self, p: TRUE
    def steplaw(self, p, q, dt, k, V):
        S, v, r, c = q
        nu, th = p
        g = nu * draw("Gam", (dt / nu,), 0, k, 0)
        om = t.log(ONE - th * nu - v * v * nu / 2) / nu
        return (r - c + om) * dt + th * g + v * t.sqrt(g) * z(k)
class Heston(Model):
    cls, par, disc = "HestonModel", ("kappa", "theta", "sigma_v", "rho", "v0"), True
    dom = {"kappa": (.25, 3), "theta": (0, 1), "sigma_v": (0.125, 2), "rho": (-1, 1), "v0": (.125, 1)}
    err = "std::logic_error"
    def domain(self, p, q):
        ka, th, sv, rho, v0 = p[:5]
        return t.b_all(t.ge(rho, -1), t.le(rho, 1), t.ge(v0, 0), t.ge(sv, 0))
    def steplaw(self, p, q, dt, k, V):
        S, v, r, c = q
        rho = p[3]
        Vp = t.maxv(V, ZERO)
        zs = rho * z(k, 0) + t.sqrt(ONE - rho * rho) * z(k, 1)
        return (r - c - Vp / 2) * dt + t.sqrt(Vp * dt) * zs
class Bates(Heston):
    cls, par = "BatesModel", ("kappa", "theta", "sigma_v", "rho", "v0", "lambda", "muJ", "sigmaJ")
    dom = dict(Heston.dom, **Merton.dom)
    err = None
    def domain(self, p, q):
        ka, th, sv, rho, v0, l, m, sj = p
        return t.b_all(t.ge(rho, -1), t.le(rho, 1), t.gt(v0, 0), t.gt(sv, 0), t.gt(ka, 0), t.gt(sj, 0))
    sim = lambda self, p: t.gt(p[5], 0)
    def steplaw(self, p, q, dt, k, V):
        S, v, r, c = q
        nj, comp = Merton().jumps(p[5], p[6], p[7], dt, k, 2)
        return super().steplaw(p, q, dt, k, V) - comp * dt + nj

MODELS = [GBM(), Kou(), Merton(), VG(), Heston(), Bates()]

class Made:
    """a model built through its constructor in an arbitrary market"""
    def __init__(self, c, M, disc=None, null=False):
        m = self.m = Mkt(c)
        s = self.s = m.s
        self.M = M
        self.p = [s.num(x) for x in M.par]
        args = [m.tk, m.md, m.gen] + self.p
        self.d = None
        if M.disc:
            if null: args.append(t.NULL)
            else:
                self.d = s.ptr(disc or "CIRDiscretization", "scheme", bool(disc))
                args.append(self.d)
        self.q0 = m.quotes()
        self.o = s.new(M.cls, *args)
        s.st.pc = TRUE
        self.model = self.o.val
        self.dom = {t.sym(k): v for k, v in M.dom.items()}
        self.dom.update({t.sym("S1"): (.5, 3), t.sym("v1"): (0, 1), t.sym("c1"): (0, 1)})
    def accept(self): return t.b_and(self.q0[4], self.M.domain(self.p, self.q0))
    def ok(self, q, T):
        """everything simulation needs"""
        M = self.M
        u = t.b_all(q[4], self.accept(), M.domain(self.p, q), t.gt(T, 0), t.gt(self.m.steps(self.model), 0))
        if hasattr(M, "sim"): u = t.b_and(u, M.sim(self.p))
        return u

def scheme_step(s, d, V, dt, p, zv, concrete):
    """what the supplied scheme does to V (public interface of the scheme)"""
    from ..interp import Lval
    f = s.fork()
    f.st = f.st.copy(); f.st.pc = TRUE
    lv = Lval(("spec", t._nid()), ())
    f.I.store(f.st, lv, V)
    f.call(d, concrete or "CIRDiscretization", "update", lv, dt, p[0], p[1], p[2], zv)
    return f.I.rval(lv, f.st)

def path_spec(mm, T, concrete=None, nosteps=False):
    """the array of prices the model's stochastic differential equation prescribes on the equidistant grid"""
    s, M = mm.s, mm.M
    S, v, r, cpn, dom = mm.m.quotes()
    q = (S, v, r, cpn)
    n = mm.m.steps(mm.model)
    dt = T / n
    i = t.fresh("i", True); t.NONNEG.add(i)
    k = t.fresh("k", True); t.NONNEG.add(k)
    V = None
    if M.disc:
        b = t.fresh("b", True); t.NONNEG.add(b)
        vs = t.fresh("V")
        nx = scheme_step(s, mm.d if mm.d is not None else mm.dflt, t.poly(vs), dt, mm.p, z(t.poly(b), 0), concrete)
        V = Rec(0, t.poly(i), b, [vs], [mm.p[4]], [nx], [(False, True)])
    x = M.steplaw(mm.p, q, dt, t.poly(i), V)
    return Lam(n, k, S * t.exp(Sum(t.poly(k), i, x) + t.subst(x, {i: t.poly(k)}))), mm.ok((S, v, r, cpn, dom), T), n

def variants(M):
    """(label, scheme class or None, null scheme)"""
    if not M.disc: return [("", None, False)]
    return [(" with the caller's scheme", None, False), (" with the Euler scheme", "CIRExplicitEulerDiscretization", False),
            (" with the Milstein scheme", "CIRMilsteinDiscretization", False), (" without a scheme given", None, True)]

def build(c, M, v, requote=False):
    lab, disc, null = v
    mm = Made(c, M, disc, null)
    if null: mm.dflt = mm.s.ptr("CIRExplicitEulerDiscretization", "euler", True); disc = "CIRExplicitEulerDiscretization"
    if requote:
        mm.m.requote()
    return mm, disc

@check("C12")
def laws(c):
    c.rule = "value graph of a simulated path, as a function of the generator's draws and the live quotes, equals the model's risk-neutral dynamics"
    for M in MODELS:
        for v in variants(M):
            for rq in (False, True):
                def g():
                    mm, disc = build(c, M, v, rq)
                    T = mm.s.num("T", nonneg=True)
                    spec, under, n = path_spec(mm, T, disc)
                    if rq: under = t.b_and(under, mm.m.live)
                    r = mm.s.fork().call(mm.model, M.cls, "simulatePrices", T)
                    c.eq("%s%s%s: the path follows the model's dynamics" % (M.cls, v[0], " after the market moved" if rq else ""), r.val, spec, c.where(M.cls, "simulatePrices"), under, mm.s, mm.dom)
                c.group(M.cls + v[0], g)

@check("C11")
def paths(c):
    c.rule = "array length, last element, scaling in the live spot, positivity and history-freedom of a simulated path's value graph"
    for M in MODELS:
        def g():
            mm, disc = build(c, M, variants(M)[0])
            s, m = mm.s, mm.m
            T = s.num("T", nonneg=True)
            w = c.where(M.cls, "simulatePrices")
            S, v, r, cpn, qd = m.quotes()
            under = mm.ok((S, v, r, cpn, qd), T)
            n = m.steps(mm.model)
            c.eq("%s: steps are the generator's dimension" % M.cls, n, s.fork().get(m.gen, "NumberGenerator", "getDim"), c.where("StockModel", "getSteps"), TRUE, s)
            a = s.fork()
            p1 = a.call(mm.model, M.cls, "simulatePrices", T)
            c.eq("%s: one price per step" % M.cls, t.alen(p1.val), n, w, under, s, mm.dom)
            c.holds("%s: simulation succeeds on accepted parameters" % M.cls, p1.pc, w, under, s, mm.dom)
            k = t.fresh("k", True); t.NONNEG.add(k)
            c.holds("%s: prices stay positive" % M.cls, t.b_not(t.Exists(n, k, t.le(t.sel(p1.val, t.poly(k)), 0))), w, under, s, mm.dom)
            a.st.pc = TRUE
            p2 = a.call(mm.model, M.cls, "simulatePrices", T)
            c.eq("%s: a second path has the law of the first" % M.cls, p2.val, p1.val, w, under, s, mm.dom)
            shared = families(p1.val) & families(p2.val)
            c.fact("%s: a second path uses fresh draws" % M.cls, not shared if not (p1.val.unk or p2.val.unk) else None, w, "", {"draws used twice": sorted(map(str, shared))})
            e = s.fork().call(mm.model, M.cls, "simulatePriceAtMaturity", T)
            c.eq("%s: the maturity price is the last one of a path" % M.cls, e.val, t.sel(p1.val, n - 1), c.where(M.cls, "simulatePriceAtMaturity"), t.b_and(under, t.gt(n, 0)), s, mm.dom)
            b = s.fork()
            S1 = s.num("S1")
            b.call(m.md, "MarketData", "updateStockPrice", m.tk, S1)
            b.st.pc = TRUE
            p3 = b.call(mm.model, M.cls, "simulatePrices", T)
            j = t.fresh("k", True); t.NONNEG.add(j)
            c.eq("%s: paths start from the live price" % M.cls, p3.val, Lam(n, j, t.sel(p1.val, t.poly(j)) * S1 / S), w, t.b_and(under, t.gt(S1, 0)), s, mm.dom)
        c.group(M.cls, g)

@check("C13")
def variance(c):
    c.rule = "value graph of one scheme step equals the truncated scheme; the model's variance recursion applies exactly the scheme it was given, once per step"
    for cls, mil in (("CIRExplicitEulerDiscretization", 0), ("CIRMilsteinDiscretization", 1)):
        def g():
            s = c.sess()
            d = s.ptr(cls, "scheme", True)
            V, dt, zz = s.num("V"), s.num("dt", nonneg=True), s.num("z")
            p = [s.num(x) for x in ("kappa", "theta", "sigma_v")]
            nx = scheme_step(s, d, V, dt, p, zz, cls)
            Vp = t.maxv(V, ZERO)
            spec = V + p[0] * (p[1] - Vp) * dt + p[2] * t.sqrt(Vp * dt) * zz
            if mil: spec = spec + p[2] * p[2] * dt * (zz * zz - 1) / 4
            c.eq(cls + ": one step, also from a negative variance", nx, spec, c.where(cls, "update"), TRUE, s)
        c.group(cls, g)
    for M in MODELS:
        if not M.disc: continue
        for v in variants(M):
            def g():
                mm, disc = build(c, M, v)
                T = mm.s.num("T", nonneg=True)
                spec, under, n = path_spec(mm, T, disc)
                f = mm.s.fork()
                r = f.call(mm.model, M.cls, "simulatePrices", T)
                w = c.where(M.cls, "simulatePrices")
                c.eq("%s%s: the variance follows that scheme from v0" % (M.cls, v[0]), r.val, spec, w, under, mm.s, mm.dom)
                c.holds("%s%s: no failure, whatever the variance becomes" % (M.cls, v[0]), r.pc, w, under, mm.s, mm.dom)
            c.group(M.cls + v[0], g)

@check("C14")
def params(c):
    c.rule = "constructor's acceptance condition equals the stated parameter domain; every rejection is an argument or logic error"
    for M in MODELS:
        def g():
            mm, disc = build(c, M, variants(M)[0])
            s, m = mm.s, mm.m
            w = c.where(M.cls)
            acc = t.b_and(m.listed, M.domain(mm.p, mm.q0))
            dom = {}
            qd = t.b_or(t.b_not(m.listed), mm.q0[4])
            c.eq("%s: accepted iff the parameters are admissible and the stock is listed" % M.cls, mm.o.pc, acc, w, qd, s, dom)
            c.eq("%s: rejection is a logic error" % M.cls, mm.o.thrown(s.P, "std::logic_error"), t.b_not(acc), w, qd, s, dom)
            if isinstance(M, VG):
                m.requote()
                T = s.num("T", nonneg=True)
                q = m.quotes()
                r = s.fork().call(mm.model, M.cls, "simulatePrices", T)
                u = t.b_all(q[4], m.live, mm.accept(), t.gt(T, 0), t.gt(m.steps(mm.model), 0))
                c.eq("VarianceGammaModel: refuses to simulate once the live volatility leaves the admissible region", r.pc, M.domain(mm.p, q), c.where(M.cls, "simulatePrices"), u, s, mm.dom)
        c.group(M.cls, g)

@check("C15")
def bridge(c):
    c.rule = "value graph of the backward step equals the Brownian-bridge conditional law with the live quotes; models without a bridge refuse"
    for M in MODELS:
        for rq in (False, True):
            def g():
                mm, disc = build(c, M, variants(M)[0], rq)
                s = mm.s
                X, a, b = s.num("S_next", pos=True), s.num("t_j", nonneg=True), s.num("t_next", pos=True)
                S, v, r, cpn, qd = mm.m.quotes()
                w = c.where(M.cls, "simulatePriceBackward")
                o = s.fork().call(mm.model, "StockModel", "simulatePriceBackward", X, a, b)
                u = t.b_and(qd, mm.accept())
                if rq: u = t.b_and(u, mm.m.live)
                tail = " after the market moved" if rq else ""
                if isinstance(M, GBM):
                    u = t.b_all(u, t.le(a, b))
                    spec = S * t.exp(a / b * t.log(X / S) + v * t.sqrt(a * (b - a) / b) * draw("N01", (), 0))
                    c.eq("GeometricBrownianMotionModel: backward step is the bridge to the live spot" + tail, o.val, spec, w, u, s, mm.dom)
                    c.holds("GeometricBrownianMotionModel: backward step never fails" + tail, o.pc, w, u, s, mm.dom)
                elif not rq:
                    c.holds("%s: a bridge it does not have is refused" % M.cls, o.thrown(s.P, "std::logic_error"), w, u, s, mm.dom)
            c.group(M.cls, g)
