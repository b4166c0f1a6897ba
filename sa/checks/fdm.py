"""Finite differences: the Black-Scholes equation, the schemes, the march, the grid."""
from ..chk import check
from .. import terms as t, lib
from ..terms import TRUE, FALSE, ZERO, ONE, ite, Lam
from ..api import AnchorMissing, NS
from ..interp import Struct
from .mc import idx
from .options import Env, BYCLS, pay
from .market import opt
from .numeric import at

O1 = "OneFactor::"
PDE = "PDE::OneFactor::ConvectionDiffusionPDE"
BASE = "FDM::OneFactor::FDMSolver"
# scheme, weight of the new time level
SCHEMES = [("FDM::OneFactor::EulerExplicitFDM", ZERO), ("FDM::OneFactor::EulerImplicitFDM", ONE), ("FDM::OneFactor::CrankNicolsonFDMSolver", t.const(1) / t.const(2))]
half = t.const(1) / t.const(2)
C = "call:" + NS + PDE + "::"
# coefficients for which the implicit systems are diagonally dominant: elliptic, not convection dominated, no source growth
ELLIPTIC = {C + "diffusion": (1.5, 3.0), C + "convection": (-.5, .5), C + "reaction": (-2.0, 0.0), C + "rightHandSide": (-2.0, 2.0),
            C + "boundaryLeft": (-2.0, 3.0), C + "boundaryRight": (-2.0, 3.0), C + "initialCondition": (-2.0, 3.0)}

@check("C24")
def equation(c):
    c.rule = "value graphs of the PDE coefficients, boundary values and initial condition equal the Black-Scholes problem in time to expiry, for the quotes in force"
    B = "PDE::OneFactor::BlackScholesPDE"
    kind = BYCLS["EuropeanOption"]
    for call in (True, False):
        for moved in (False, True):
            def g():
                e = Env(c)
                s = e.s
                r = e.make(kind, call, e.params(kind))
                s.st.pc = TRUE
                p = s.new(B, r.val, e.md).val
                s.st.pc = TRUE
                K, sig, rate, cpn = s.num("K"), e.v, e.r, e.cpn
                valid = t.b_and(e.valid, e.domain(kind))
                if moved:
                    o, h, x = opt(s, "c1")
                    for f, a in (("updateStockPrice", s.num("S1")), ("updateStockSigma", s.num("v1")), ("updateStockCoupon", o)):
                        s.call(e.md, "MarketData", f, e.tk, a); s.st.pc = TRUE
                    s.call(e.md, "MarketData", "setR", s.num("r1")); s.st.pc = TRUE
                    sig, rate, cpn = s.num("v1"), s.num("r1"), ite(h, x, ZERO)
                    valid = t.b_all(valid, t.gt(s.num("S1"), 0), t.ge(sig, 0), t.b_or(t.b_not(h), t.b_and(t.ge(x, 0), t.le(x, 1))))
                tt, xx = s.num("t"), s.num("x")
                u = t.b_all(valid, t.ge(tt, 0), t.ge(xx, 0))
                dK, dx = K * t.exp(-rate * tt), xx * t.exp(-cpn * tt)
                spec = [("diffusion", (tt, xx), half * sig * sig * xx * xx), ("convection", (tt, xx), (rate - cpn) * xx), ("reaction", (tt, xx), -rate),
                        ("rightHandSide", (tt, xx), ZERO), ("initialCondition", (xx,), pay(kind, s, call, xx))]
                lab = "%s%s: " % ("call" if call else "put", ", quotes changed after construction" if moved else "")
                for name, args, v in spec:
                    r = s.fork().call(p, PDE, name, *args)
                    c.eq(lab + name, r.val, v, c.where(B, name), u, s)
                    c.holds(lab + name + " is defined", r.pc, c.where(B, name), u, s)
                # far boundaries: what the contract is worth where exercise is certain or impossible
                for name, x, v in (("boundaryLeft", ZERO, ZERO if call else dK), ("boundaryRight", xx, dx - dK if call else ZERO)):
                    r = s.fork().call(p, PDE, name, tt, x)
                    c.eq(lab + name, r.val, v, c.where(B, name), u, s)
                    c.holds(lab + name + " is defined", r.pc, c.where(B, name), u, s)
                l = s.fork().get(p, PDE, "boundaryLeft", ZERO, ZERO)
                c.eq(lab + "left boundary starts at the payoff", l, pay(kind, s, call, ZERO), c.where(B, "boundaryLeft"), u, s)
                x2 = K + t.exp(s.num("far"))
                l = s.fork().get(p, PDE, "boundaryRight", ZERO, x2)
                c.eq(lab + "right boundary starts at the payoff", l, pay(kind, s, call, x2), c.where(B, "boundaryRight"), u, s)
            c.group("%s %s" % (call, moved), g)

class Grid:
    """a solver on a grid of p+1 points h apart and q+1 times k apart, for an arbitrary equation"""
    def __init__(self, c, cls, theta, q=None):
        self.c, self.cls, self.theta = c, cls, theta
        s = self.s = c.sess()
        self.p = s.num("inner", True, nonneg=True) + 2; self.q = q if q is not None else s.num("q", True, pos=True)
        self.h = s.num("h", pos=True); self.k = s.num("k", pos=True)
        self.pde = s.ptr(PDE, "pde")
        self.ms = s.ptr("MatrixSolver", "solver")
        self.ip = s.ptr("Interpolation", "interpolation")
        s.I.open.update((self.pde, self.ms, self.ip))
        self.used = set()
        def solve(I, e, fn, obj, args, st, fr):
            A, b = I.rval(args[0], st), I.rval(args[1], st)
            self.used.add(I.rval(obj, st) if not isinstance(obj, (T_, D_)) else obj)
            return t.apply("linsolve", lambda x, y: t.mk("linsolve", x, y), A, b)
        s.I.hooks[NS + "MatrixSolver::solve"] = solve
        self.md = s.ptr("MarketData", "md", True)
        self.o = s.ptr("EuropeanOption", "option", True)
    def make(self, ip=None, ms=None):
        s = self.s
        a = [self.h * self.p, self.p + 1, self.k * self.q, self.q + 1, self.pde, self.o, self.md, self.ip if ip is None else ip]
        if self.theta is not ZERO: a.append(self.ms if ms is None else ms)
        r = s.new(self.cls, *a)
        s.st.pc = TRUE
        self.f = r.val
        return r
    def under(self): return t.b_all(t.ge(self.p, 2), t.ge(self.q, 1), t.gt(self.h, 0), t.gt(self.k, 0))
    def co(self, name, tt, j): return self.s.fork().get(self.pde, PDE, name, tt, self.h * j) if name != "initialCondition" else self.s.fork().get(self.pde, PDE, name, self.h * j)
    def u0(self):
        j, pj = idx("j")
        return Lam(self.p + 1, j, self.co("initialCondition", None, pj))
    def L(self, u, tt, j):
        """the discretised operator at point j"""
        a, b, r = (self.co(n, tt, j) for n in ("diffusion", "convection", "reaction"))
        um, uc, up = at(u, j - 1), at(u, j), at(u, j + 1)
        return a * (up - 2 * uc + um) / (self.h * self.h) + b * (up - um) / (2 * self.h) + r * uc
    def step(self, u, t0, t1):
        """values at t1 from those at t0: weight theta on the new level, boundary values at t1"""
        h, k, p, th = self.h, self.k, self.p, self.theta
        bl = self.co("boundaryLeft", t1, ZERO); br = self.co("boundaryRight", t1, p)
        j, pj = idx("j"); i, pi = idx("i"); l, pl = idx("l")
        f = lambda j: th * self.co("rightHandSide", t1, j) + (1 - th) * self.co("rightHandSide", t0, j)
        rhs = lambda j: at(u, j) + k * ((1 - th) * self.L(u, t0, j) - f(j))
        if th is ZERO: mid = rhs
        else:
            lo = lambda j: -th * k * (self.co("diffusion", t1, j) / (h * h) - self.co("convection", t1, j) / (2 * h))
            up = lambda j: -th * k * (self.co("diffusion", t1, j) / (h * h) + self.co("convection", t1, j) / (2 * h))
            di = lambda j: 1 + th * k * (2 * self.co("diffusion", t1, j) / (h * h) - self.co("reaction", t1, j))
            n = p - 1
            A = lib.mkrows(Lam(n, i, Lam(n, l, ite(t.eq(pi, pl), di(pi + 1), ite(t.eq(pi, pl + 1), lo(pi + 1), ite(t.eq(pi + 1, pl), up(pi + 1), ZERO))))))
            b = Lam(n, i, rhs(pi + 1) - ite(t.eq(pi, 0), lo(ONE) * bl, ZERO) - ite(t.eq(pi, n - 1), up(n) * br, ZERO))
            x = t.mk("linsolve", A, b)
            mid = lambda j: at(x, j - 1)
        return Lam(p + 1, j, ite(t.eq(pj, 0), bl, ite(t.eq(pj, p), br, mid(pj))))
    def march(self):
        n, pn = idx("n"); u = t.fresh("u")
        return t.Rec(0, self.q, n, [u], [self.u0()], [self.step(u, pn * self.k, (pn + 1) * self.k)], [(False, False)])

from ..terms import T as T_, D as D_

@check("C25")
def schemes(c):
    c.rule = "value graph of one time step, for arbitrary equation coefficients, satisfies the theta-scheme's difference equation at every inner point and the boundary values at the new time"
    for cls, th in SCHEMES:
        w = c.where(cls, "calculateInnerDomain") if c.P.find_method(NS + cls, "calculateInnerDomain") else c.where(BASE, "solve")
        def g():
            G = Grid(c, cls, th, q=ONE)
            s = G.s
            G.make()
            r = s.fork().call(G.f, BASE, "solve")
            lab = cls.split("::")[-1] + ": "
            u1, u0 = r.val, G.u0()
            j = s.num("j", True, nonneg=True)
            u = t.b_all(G.under(), t.ge(j, 1), t.lt(j, G.p))
            f = lambda tt: G.co("rightHandSide", tt, j)
            new, old = G.L(u1, G.k, j) - f(G.k), G.L(u0, ZERO, j) - f(ZERO)
            c.eq(lab + "the scheme's difference equation holds at inner points", at(u1, j), at(u0, j) + G.k * (th * new + (1 - th) * old), w, u, s, ELLIPTIC)
            c.eq(lab + "left boundary value at the new time", at(u1, ZERO), G.co("boundaryLeft", G.k, ZERO), w, G.under(), s, ELLIPTIC)
            c.eq(lab + "right boundary value at the new time", at(u1, G.p), G.co("boundaryRight", G.k, G.p), w, G.under(), s, ELLIPTIC)
            c.eq(lab + "one value per grid point", t.alen(u1), G.p + 1, w, G.under(), s, ELLIPTIC)
            c.holds(lab + "the step succeeds", r.pc, w, G.under(), s, ELLIPTIC)
            if th is not ZERO:
                c.fact(lab + "the caller's matrix solver is the one used", G.used == {G.ms} if G.used else None, w, "", {"receivers": [t.show(x) for x in G.used]})
        c.group(cls, g)
        def later():
            # the same of the steps that follow: level q-1 is the grid of a solver that stops there
            n, c.samples = c.samples, min(c.samples, 80)
            try:
                lab = cls.split("::")[-1] + ": "
                us = {}
                for q in (1, 2, 3):
                    G = Grid(c, cls, th, q=t.const(q))
                    G.make()
                    s = G.s
                    us[q] = s.fork().call(G.f, BASE, "solve")
                    if q == 1: continue
                    u1, u0 = us[q].val, us[q - 1].val
                    t0, t1 = G.k * (q - 1), G.k * q
                    j = s.num("j", True, nonneg=True)
                    u = t.b_all(G.under(), t.ge(j, 1), t.lt(j, G.p))
                    f = lambda tt: th * G.co("rightHandSide", t1, j) + (1 - th) * G.co("rightHandSide", t0, j)
                    mid = th * G.L(u1, t1, j) + (1 - th) * G.L(u0, t0, j) - f(None)
                    c.eq(lab + "the difference equation holds at step %d" % q, at(u1, j), at(u0, j) + G.k * mid, w, u, s, ELLIPTIC)
                    c.eq(lab + "left boundary value at step %d" % q, at(u1, ZERO), G.co("boundaryLeft", t1, ZERO), w, G.under(), s, ELLIPTIC)
                    c.eq(lab + "right boundary value at step %d" % q, at(u1, G.p), G.co("boundaryRight", t1, G.p), w, G.under(), s, ELLIPTIC)
                    c.holds(lab + "step %d succeeds" % q, us[q].pc, w, G.under(), s, ELLIPTIC)
            finally: c.samples = n
        c.group(cls + " later steps", later)

@check("C26")
def march(c):
    c.rule = "value graph of the solved grid equals the scheme iterated over all time levels; of the price, its interpolation at the stock's current price; construction is possible exactly on valid domains"
    for cls, th in SCHEMES:
        lab = cls.split("::")[-1] + ": "
        w, wp, wc = c.where(BASE, "solve"), c.where(BASE, "calculatePrice"), c.where(cls)
        def grid():
            s = c.sess()
            G = Grid(c, cls, th)
            s = G.s
            X, T = s.num("X"), s.num("T")
            J, N = s.num("J", True, nonneg=True), s.num("N", True, nonneg=True)
            r = s.fork().new(cls, *([X, J, T, N, G.pde, G.o, G.md, G.ip] + ([] if th is ZERO else [G.ms])))
            ok = t.b_all(t.gt(X, 0), t.ge(T, 0), t.ge(J, 3), t.ge(N, 2))
            c.eq(lab + "construction succeeds iff the domain and grid are valid", r.pc, ok, wc, TRUE, s)
            c.eq(lab + "an invalid domain or grid is an argument error", r.thrown(s.P, "std::invalid_argument"), t.b_not(ok), wc, TRUE, s)
        c.group(lab + "grid", grid)
        def values():
            G = Grid(c, cls, th)
            s = G.s
            G.make()
            n, c.samples = c.samples, min(c.samples, 60)
            try:
                r = s.fork().call(G.f, BASE, "solve")
                spec = G.march()
                c.eq(lab + "the grid is the scheme iterated over every time level", r.val, spec, w, G.under(), s, ELLIPTIC)
                c.holds(lab + "solving succeeds", r.pc, w, G.under(), s, ELLIPTIC)
                # asking again, after pricing, gives the same grid
                f = s.fork()
                f.call(G.f, BASE, "solve"); f.st.pc = TRUE
                f.call(G.f, BASE, "calculatePrice"); f.st.pc = TRUE
                r2 = f.call(G.f, BASE, "solve")
                c.eq(lab + "solving again gives the same grid", r2.val, r.val, w, G.under(), s, ELLIPTIC)
            finally: c.samples = n
        c.group(lab + "values", values)
        def price():
            for first in (False, True):
                G = Grid(c, cls, th)
                s = G.s
                # the price is the interpolation of the grid at the live quote: the grid itself is decided above
                seen = []
                def ip(I, e, fn, obj, args, st, fr):
                    X, Y, x = (I.rval(a, st) for a in args)
                    seen.append((obj, X, Y, x))
                    return s.num("interpolated")
                s.I.hooks[NS + "Interpolation::interpolate"] = ip
                G.make()
                if first:
                    s.call(G.f, BASE, "calculatePrice"); s.st.pc = TRUE
                    del seen[:]
                id_ = s.fork().get(G.o, "Option", "getID")
                s.call(G.md, "MarketData", "updateStockPrice", id_, s.num("S1")); s.st.pc = TRUE
                h = s.fork().call(G.md, "MarketData", "getStockData", id_)
                listed = h.pc
                r = s.fork().call(G.f, BASE, "calculatePrice")
                u = t.b_all(G.under(), listed, t.gt(s.num("S1"), 0))
                l2 = lab + ("again, " if first else "")
                if not seen:
                    c.add(l2 + "price", "OPEN", wp, "no interpolation was requested"); continue
                obj, X, Y, x = seen[-1]
                j, pj = idx("j")
                c.eq(l2 + "interpolates at the stock's current price", x, s.num("S1"), wp, u, s, ELLIPTIC)
                c.eq(l2 + "over the grid's points", X, Lam(G.p + 1, j, G.h * pj), wp, u, s, ELLIPTIC)
                n, c.samples = c.samples, min(c.samples, 30)
                try: c.eq(l2 + "of the values at the last time level", Y, G.march(), wp, u, s, ELLIPTIC)
                finally: c.samples = n
                c.eq(l2 + "and returns that", r.val, s.num("interpolated"), wp, u, s, ELLIPTIC)
                c.holds(l2 + "pricing succeeds", r.pc, wp, u, s, ELLIPTIC)
                c.fact(l2 + "with the caller's interpolation", all(s.I.rval(q[0], s.st) is G.ip for q in seen), wp, "", {"receivers": [t.show(s.I.rval(q[0], s.st)) for q in seen]})
        c.group(lab + "price", price)
        def defaults():
            G = Grid(c, cls, th)
            s = G.s
            got = []
            def note(name):
                def f(I, e, fn, obj, args, st, fr):
                    got.append((name, I.exact_class(I.rval(obj, st), st)))
                    return NotImplemented if name == "i" else t.mk("linsolve", I.rval(args[0], st), I.rval(args[1], st))
                return f
            s.I.hooks[NS + "MatrixSolver::solve"] = note("m")
            s.I.hooks[NS + "Interpolation::interpolate"] = note("i")
            G.make(t.NULL, t.NULL)
            r = s.fork().call(G.f, BASE, "calculatePrice")
            for name, base in (("i", "Interpolation"),) + ((("m", "MatrixSolver"),) if th is not ZERO else ()):
                k = {x for n, x in got if n == name}
                c.fact(lab + "without a %s of the caller's, a library one is used" % base, (all(x and s.P.derives(x, NS + base) for x in k)) if k else None, wc, "", {"classes": [str(x) for x in k]})
        c.group(lab + "defaults", defaults)
