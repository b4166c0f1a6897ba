"""Computations are repeatable and leave no trace; parameters, equality, lifetimes."""
from ..chk import check
from .. import terms as t, events, lib
from ..terms import TRUE, FALSE, ZERO, ONE, ite
from ..api import AnchorMissing, NS
from ..interp import Struct
from . import models as mo, mc
from .mc import Desk, STEPS, CASES, idx, typed, confirm
from .market import UPD
from .numeric import at, grid, values, tri, design, DOMINANT
from .fdm import Grid, SCHEMES, ELLIPTIC, BASE
from .options import Env, KINDS

def again(c, lab, s, first, second, obj, fresh, w, u=TRUE, dom=None, between=None):
    """what `second` computes with obj after `first` was computed with it, against a fresh object in the same situation"""
    f = s.fork()
    f.st.pc = TRUE
    n0 = len(f.st.trace)
    first(f, obj)
    f.st.pc = TRUE
    done = f.fork(), n0
    if between: between(f); f.st.pc = TRUE
    a, b = f.fork(), f.fork()
    x = second(a, obj)
    o = fresh(b)
    b.st.pc = TRUE
    dr = [(dict(k), i) for k, i in b.st.dr]
    y = second(b, o)
    c.eq(lab + "a later computation is that of a fresh object", x.val, y.val, w, t.b_all(u, x.pc, y.pc), s, dom)
    c.eq(lab + "a later computation succeeds when that of a fresh object does", x.pc, y.pc, w, u, s, dom)
    g = s.fork()
    g.st.pc = TRUE
    if between: between(g); g.st.pc = TRUE
    o = fresh(g); g.st.pc = TRUE
    g.st.dr = [(dict(k), i) for k, i in dr]      # numbered like the draws of the later computation
    v = second(g, o)
    c.eq(lab + "a fresh object computes as if nothing had been computed before", y.val, v.val, w, t.b_all(u, v.pc, y.pc), s, dom)
    return done

def quotes(s, md, tk):
    q = s.fork().call(md, "MarketData", "getStockData", tk)
    h = q.val
    g = s.fork()
    co = g.get(h, "StockData", "getCoupon")
    if not isinstance(co, Struct): raise AnchorMissing("optional coupon")
    return [("price", g.get(h, "StockData", "getPrice"), q.pc), ("volatility", g.get(h, "StockData", "getSigma"), q.pc),
            ("coupon", ite(t.asbool(co.fields["has"]), co.fields["val"], -ONE), q.pc), ("listing", ite(q.pc, ONE, ZERO), TRUE),
            ("rate", s.fork().get(md, "MarketData", "getR"), TRUE)]

def untouched(c, lab, s, run, md, w, u=TRUE, dom=None, option=None):
    """nothing a computation may only read has changed, nobody was notified"""
    tk = t.sym("any ticker")
    f = s.fork()
    f.st.pc = TRUE
    n0 = len(f.st.trace)
    if isinstance(run, tuple): f, n0 = run
    else: run(f)
    f.st.pc = TRUE
    for (n, x, px), (_, y, py) in zip(quotes(s, md, tk), quotes(f, md, tk)):
        c.eq(lab + "the %s is untouched" % n, y, x, w, t.b_and(u, px), s, dom)
    c.eq(lab + "nobody is notified", events.count(f.st.trace[n0:], UPD), ZERO, w, u, s, dom)
    if option is not None:
        x = s.num("spot")
        for n in ("getT",):
            c.eq(lab + "the option's maturity is untouched", f.get(option, "Option", n), s.fork().get(option, "Option", n), w, u, s, dom)

@check("C30")
def notrace(c):
    c.rule = "value graph of a later computation equals that of a freshly built object in the same situation; heap reads of quotes, rate and contract after a computation equal those before; no client callback in its event sequence"
    c.boot = True
    for pc, oc, f, what in CASES:
        def g():
            def run(M):
                d = Desk(c, M)
                s = d.s
                s.I.forced.add(UPD)
                o = d.option(oc)
                p = s.new(pc, o, d.md, d.model).val
                s.st.pc = TRUE
                w = c.where(pc, "calculatePrice")
                u = t.b_all(d.under(), typed(d, oc))
                N1 = s.num("N_before", True, pos=True)
                lab = "%s/%s, %s: " % (pc, oc, d.name)
                price = lambda n: lambda z, q: z.call(q, "MCPricer", "calculatePrice", n)
                between = (lambda z: z.call(d.md, "MarketData", "setR", s.num("r1")))
                o2 = s.ptr(oc, "option2", True)
                def first(z, q):
                    price(N1)(z, q); z.st.pc = TRUE
                    q2 = z.new(pc, o2, d.md, d.model).val; z.st.pc = TRUE
                    price(N1)(z, q2)
                r = again(c, lab, s, first, price(d.N), p, lambda z: z.new(pc, o, d.md, d.model).val, w, u, d.dom, between)
                untouched(c, lab, s, r, d.md, w, u, d.dom, o)
            confirm(c, run)
        c.group("%s/%s" % (pc, oc), g)
    def american(M, gen):
        def g():
            s = c.sess()
            s.I.forced.add(UPD)
            d = Desk.__new__(Desk)
            d.c, d.s, d.mm, d.dom = c, s, None, {}
            d.md = s.ptr("MarketData", "md", True)
            d.model = s.ptr(M, "model", True)
            for m in ("simulatePriceAtMaturity", "simulatePrices", "simulatePriceBackward"): s.I.forced_all.add(NS + "StockModel::" + m)
            STEPS[d.model] = d.steps()
            d.N = s.num("N", True, pos=True)
            g0 = s.fork().get(d.model, "StockModel", "getGenerator")
            s.I.exact[g0] = s.cls(gen); s.I.ptype[g0] = s.cls(gen); s.I.nonnull.add(g0)
            o = d.option("AmericanOption")
            basis, reg = s.ptr("BasisFunction", "basis"), s.ptr("Regression", "regression")
            mk = lambda z: z.new("AmericanMCPricer", o, d.md, d.model, basis, reg).val
            p = mk(s); s.st.pc = TRUE
            price = lambda n: lambda z, q: z.call(q, "MCPricer", "calculatePrice", n)
            w = c.where("AmericanMCPricer", "calculatePrice")
            lab = "AmericanMCPricer, %s, %s: " % (M, gen)
            r = again(c, lab, s, price(s.num("N_before", True, pos=True)), price(d.N), p, mk, w, d.under(), None, lambda z: z.call(d.md, "MarketData", "setR", s.num("r1")))
            untouched(c, lab, s, r, d.md, w, d.under(), None, o)
        c.group("american %s %s" % (M, gen), g)
    american("GeometricBrownianMotionModel", "PseudoRandomNumberGenerator")
    american("GeometricBrownianMotionModel", "SobolGenerator")
    american("HestonModel", "PseudoRandomNumberGenerator")
    for M in mo.MODELS:
        for v in mo.variants(M):
            def g():
                mm, disc = mo.build(c, M, v)
                s = mm.s
                T0, T = s.num("T_before", nonneg=True), s.num("T", nonneg=True)
                S, vv, r, cp, qd = mm.m.quotes()
                calls = [("simulatePrices", (T,)), ("simulatePriceAtMaturity", (T,))]
                if M.cls[0] == "G": calls.append(("simulatePriceBackward", (s.num("S_next", pos=True), s.num("t_j", nonneg=True), s.num("t_next", pos=True))))
                def first(z, m):
                    for n, a in calls:
                        z.call(m, "StockModel", n, *((T0,) if len(a) == 1 else (s.num("S_b", pos=True), s.num("t_a", nonneg=True), s.num("t_b", pos=True)))); z.st.pc = TRUE
                def fresh(z):
                    a = [mm.m.tk, mm.m.md, mm.m.gen] + mm.p
                    if M.disc: a.append(t.NULL if v[2] else mm.d)
                    return z.new(M.cls, *a).val
                def moved(z):
                    ss, z2 = mm.s, z
                    mm.m.s = z
                    try: mm.m.requote()
                    finally: mm.m.s = ss
                for n, a in calls:
                    for rq in (False, True):
                        lab = "%s%s, %s%s: " % (M.cls, v[0], n, " once the market moved" if rq else "")
                        u = mm.ok((S, vv, r, cp, qd), T)
                        if len(a) == 3: u = t.b_and(u, t.le(a[1], a[2]))
                        w = c.where(M.cls, n)
                        def btw(z): 
                            if rq: moved(z)
                        f = s.fork(); first(f, mm.model); f.st.pc = TRUE; btw(f); f.st.pc = TRUE
                        if rq: u = t.b_and(u, mm.m.live)
                        mm.m.s = f
                        try: u = t.b_and(u, mm.ok(mm.m.quotes(), T))
                        finally: mm.m.s = s
                        done = again(c, lab, s, first, lambda z, m: z.call(m, "StockModel", n, *a), mm.model, fresh, w, u, mm.dom, btw)
                untouched(c, "%s%s: " % (M.cls, v[0]), s, done, mm.m.md, c.where(M.cls, "simulatePrices"), mm.ok((S, vv, r, cp, qd), T), mm.dom)
            c.group(M.cls + v[0], g)
    for cls, th in SCHEMES:
        def g():
            G = Grid(c, cls, th, q=ONE)
            s = G.s
            s.I.forced.add(UPD)
            G.make()
            lab = cls.split("::")[-1] + ": "
            id_ = s.fork().get(G.o, "Option", "getID")
            listed = s.fork().call(G.md, "MarketData", "getStockData", id_).pc
            def twice(z, f):
                z.call(f, BASE, "solve"); z.st.pc = TRUE
                return z.call(f, BASE, "calculatePrice")
            w = c.where(BASE, "calculatePrice")
            u = t.b_and(G.under(), listed)
            n, c.samples = c.samples, min(c.samples, 60)
            try:
                done = again(c, lab, s, twice, lambda z, f: z.call(f, BASE, "calculatePrice"), G.f, lambda z: fresh_grid(G, z), w, u, ELLIPTIC)
                untouched(c, lab, s, done, G.md, w, u, ELLIPTIC, G.o)
            finally: c.samples = n
        c.group(cls, g)
    def numerics():
        for cls in ("LinearInterpolation", "QuadraticInterpolation"):
            s = c.sess()
            n, m = s.num("n", True, pos=True), s.num("m", True, pos=True)
            X, Y, X2, Y2 = grid(s, n, "x"), values(n, "y"), grid(s, m, "x2"), values(m, "y2")
            o = s.new(cls).val; s.st.pc = TRUE
            go = lambda *a: lambda z, q: z.call(q, "Interpolation", "interpolate", *a)
            again(c, cls + ": ", s, go(X2, Y2, s.num("v0")), go(X, Y, s.num("v")), o, lambda z: z.new(cls).val, c.where(cls, "interpolate"), t.b_and(t.ge(n, 2), t.ge(m, 2)))
        for cls in ("ThomasAlgorithm", "LUDecompositionSolver", "PartialPivotingLUSolver"):
            s = c.sess()
            n, m = s.num("n", True, pos=True), s.num("m", True, pos=True)
            o = s.new(cls).val; s.st.pc = TRUE
            go = lambda k, b: lambda z, q: z.call(q, "MatrixSolver", "solve", tri(s, k), values(k, b))
            again(c, cls + ": ", s, go(m, "b0"), go(n, "b"), o, lambda z: z.new(cls).val, c.where(cls, "solve"), t.b_and(t.ge(n, 2), t.ge(m, 2)), DOMINANT)
        for cls in ("MonomialBasisFunction", "LaguerreBasisFunction", "LegendreBasisFunction", "ChebyshevBasisFunction"):
            s = c.sess()
            k, n, m = s.num("k", True, pos=True), s.num("n", True, pos=True), s.num("m", True, pos=True)
            o = s.new(cls, k).val; s.st.pc = TRUE
            go = lambda k, b: lambda z, q: z.call(q, "BasisFunction", "generate", values(k, b))
            k0 = s.num("k0", True, pos=True)
            def first(z, q):
                go(m, "x0")(z, q); z.st.pc = TRUE
                o2 = z.new(cls, k0).val; z.st.pc = TRUE
                go(m, "x1")(z, o2)
            again(c, cls + ": ", s, first, go(n, "x"), o, lambda z: z.new(cls, k).val, c.where(cls, "generate"))
        for cls in ("LeastSquaresRegression", "RidgeRegression", "LassoRegression"):
            s = c.sess()
            n, m, n0, m0 = (s.num(z, True, pos=True) for z in ("n", "m", "n0", "m0"))
            a = [] if cls[1] == "e" else [s.num("lambda", nonneg=True)]
            o = s.new(cls, *a).val; s.st.pc = TRUE
            go = lambda k, l, b: lambda z, q: z.call(q, "Regression", "solve", design(s, k, l), values(k, b))
            def first(z, q):
                go(n0, m0, "y0")(z, q); z.st.pc = TRUE
                o2 = z.new(cls, *[s.num("lambda0", nonneg=True) for _ in a]).val; z.st.pc = TRUE
                go(n0, m0, "y1")(z, o2)
            again(c, cls + ": ", s, first, go(n, m, "y"), o, lambda z: z.new(cls, *a).val, c.where(cls, "solve"), t.b_and(t.ge(n, m), t.ge(n0, m0)))
    c.group("numerical building blocks", numerics)
    for kind in KINDS:
        def g():
            e = Env(c)
            s = e.s
            prm = e.params(kind)
            for call in (True, False):
                r = e.make(kind, call, prm); s.st.pc = TRUE
                two = kind.payoff == "PayoffLookbackFloatingStrike"
                x = [s.num("spot")] + ([s.num("extremum")] if two else [])
                x0 = [s.num("spot0")] + ([s.num("extremum0")] if two else [])
                pay = lambda a: lambda z, q: z.call(q, "Option", "payoff", *a)
                u = t.b_and(e.valid, e.domain(kind))
                lab = "%s %s: " % (kind.cls, "call" if call else "put")
                fresh = lambda z: z.call(z.new(kind.fac).val, kind.fac, "createCallOption" if call else "createPutOption", z.ref(prm)).val
                done = again(c, lab, s, pay(x0), pay(x), r.val, fresh, c.where(kind.cls, "payoff"), u)
                untouched(c, lab, s, done, e.md, c.where(kind.cls, "payoff"), u, None, r.val)
        c.group(kind.cls, g)

def fresh_grid(G, z):
    s, G.s = G.s, z
    f0 = G.f
    try:
        G.make()
        return G.f
    finally: G.s, G.f = s, f0
