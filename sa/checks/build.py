"""Builders and the Monte Carlo solver: configuration is honoured, whatever the order and history of calls."""
from ..chk import check
from .. import terms as t, lib
from ..terms import TRUE, FALSE, ZERO, ONE, ite
from ..api import AnchorMissing, NS
from .mc import Desk, STEPS, idx
from . import models as mo

BUILD = [("MCSinglePathBuilder", "SinglePathMCPricer", ("EuropeanOption", "DigitalOption", "DoubleDigitalOption")),
         ("ArithmeticAsianMCBuilder", "ArithmeticAsianMCPricer", ("ArithmeticAsianOption",)),
         ("GeometricAsianMCBuilder", "GeometricAsianMCPricer", ("GeometricAsianOption",)),
         ("KnockInBarrierMCBuilder", "KnockInBarrierMCPricer", ("KnockInBarrierOption",)),
         ("KnockOutBarrierMCBuilder", "KnockOutBarrierMCPricer", ("KnockOutBarrierOption",)),
         ("FloatingStrikeLookbackMCBuilder", "FloatingStrikeLookbackMCPricer", ("FloatingStrikeLookbackOption",)),
         ("FixedStrikeLookbackMCBuilder", "FixedStrikeLookbackMCPricer", ("FixedStrikeLookbackOption",)),
         ("AmericanMCBuilder", "AmericanMCPricer", ("AmericanOption",))]
ALL = [o for _, _, os in BUILD for o in os]

def price(s, p, N):
    f = s.fork()
    return f.call(p, "MCPricer", "calculatePrice", N)

@check("C23")
def builders(c):
    c.rule = "value graph of the price computed by a built pricer equals that of a pricer constructed directly from the settings last made; exception outcomes of the builder's methods"
    for b, pr, ocs in BUILD:
        am = pr == "AmericanMCPricer"
        def direct(s, o, md, m, basis=None, reg=None):
            a = [o, md, m]
            if am: a += [basis if basis is not None else s.new("MonomialBasisFunction", t.const(3)).val, reg if reg is not None else s.new("LeastSquaresRegression").val]
            p = s.new(pr, *a).val
            s.st.pc = TRUE
            return p
        def default(s, o, md):
            g = s.new("PseudoRandomNumberGenerator", t.const(52)).val
            i = s.fork().get(o, "Option", "getID")
            m = s.new("GeometricBrownianMotionModel", i, md, g)
            s.st.pc = TRUE
            return m
        for oc in ocs:
            def g():
                lab = "%s/%s: " % (b, oc)
                w = c.where(b, "build")
                def start():
                    s = c.sess()
                    bl = s.new(b).val
                    s.st.pc = TRUE
                    md = s.ptr("MarketData", "md", True)
                    o1, o2 = s.ptr(oc, "option", True), s.ptr(oc, "option2", True)
                    N = s.num("N", True, pos=True)
                    return s, bl, md, o1, o2, N
                def st(s, bl, name, x):
                    r = s.call(bl, b, name, x)
                    s.st.pc = TRUE
                    return r
                def opaque(s, name="model"):
                    m = s.ptr("StockModel", name)
                    STEPS[m] = s.fork().get(m, "StockModel", "getSteps")
                    return m
                def build(s, bl):
                    r = s.call(bl, b, "build")
                    s.st.pc = TRUE
                    return r
                def same(what, s, p, q, N, u=TRUE, dom=None, first=None):
                    x, y = price(s, p, N), price(s, q, N)
                    c.eq(lab + what, x.val, y.val, w, t.b_all(u, y.pc), s, dom)
                    c.eq(lab + what + " (outcome)", x.pc, y.pc, w, u, s, dom)
                # everything given, in two orders
                for order in (0, 1):
                    s, bl, md, o1, o2, N = start()
                    m = opaque(s)
                    sets = [("setOption", o1), ("setMarketData", md), ("setStockPriceModel", m)]
                    for n, x in (sets if not order else reversed(sets)): st(s, bl, n, x)
                    r = build(s, bl)
                    c.holds(lab + "building succeeds once an option of the right kind is set", r.pc, w, TRUE, s)
                    same("option, market and model are the ones set%s" % (", in any order" if order else ""), s, r.val, direct(s, o1, md, m), N)
                # reuse: the second product is configured by the later settings, the first is unaffected
                m2 = opaque(s, "model2")
                p1 = r.val
                st(s, bl, "setOption", o2)
                r2 = build(s, bl)
                same("a builder used again prices the new option", s, r2.val, direct(s, o2, md, m), N)
                same("an earlier product keeps its option", s, p1, direct(s, o1, md, m), N)
                st(s, bl, "setStockPriceModel", m2)
                r3 = build(s, bl)
                same("a builder used again takes the new model", s, r3.val, direct(s, o2, md, m2), N)
                same("an earlier product keeps its model", s, r2.val, direct(s, o2, md, m), N)
                if am:
                    bs, rg = s.ptr("BasisFunction", "basis"), s.ptr("Regression", "reg")
                    st(s, bl, "setBasisFunctionStrategy", bs); st(s, bl, "setRegressionStrategy", rg)
                    r4 = build(s, bl)
                    same("basis and regression are the ones set", s, r4.val, direct(s, o2, md, m2, bs, rg), N)
                    r5 = build(s, bl)
                    same("building again keeps basis and regression", s, r5.val, direct(s, o2, md, m2, bs, rg), N)
                    same("an earlier product keeps its basis and regression", s, r4.val, direct(s, o2, md, m2, bs, rg), N)
            c.group("%s/%s" % (b, oc), g)
            def g2():
                lab = "%s/%s: " % (b, oc)
                w = c.where(b, "build")
                # no model given: lognormal model on the option's own stock, in the builder's market, 52 steps
                s = c.sess()
                bl = s.new(b).val
                s.st.pc = TRUE
                md = s.ptr("MarketData", "md", True)
                o1, o2 = s.ptr(oc, "option", True), s.ptr(oc, "option2", True)
                s.call(bl, b, "setMarketData", md); s.st.pc = TRUE
                prods = []
                for k, o in enumerate((o1, o2)):
                    s.call(bl, b, "setOption", o); s.st.pc = TRUE
                    f = s.fork()
                    dm = default(f, o, md)
                    r = s.call(bl, b, "build")
                    c.eq(lab + "default model %d: building succeeds iff the option's stock is listed" % (k + 1), r.pc, dm.pc, w, TRUE, s)
                    s.st.pc = TRUE
                    prods.append((o, r.val, dm.pc))
                for k, (o, p, ok) in enumerate(prods):
                    # compare what the two products simulate with: the model's observable behaviour
                    f = s.fork()
                    dm = default(f, o, md).val
                    q = direct(f, o, md, dm)
                    u = t.b_all(ok, prods[0][2], t.gt(f.fork().get(o, "Option", "getT"), 0))
                    if am:
                        # backward induction itself is C22; here: which model, basis and regression it uses
                        cfg(c, lab + "default configuration %d" % (k + 1), f, p, q, w, u)
                    else:
                        N = t.const(2)
                        x, y = price(f, p, N), price(f, q, N)
                        c.eq(lab + "default model %d: price" % (k + 1), x.val, y.val, w, t.b_all(u, y.pc), f, None, 12)
            c.group("%s/%s default" % (b, oc), g2)
        def g3():
            lab = b + ": "
            s = c.sess()
            bl = s.new(b).val
            s.st.pc = TRUE
            r = s.fork().call(bl, b, "build")
            c.holds(lab + "building without an option is refused with a logic error", r.thrown(s.P, "std::logic_error"), c.where(b, "build"), TRUE, s)
            for oc in ALL:
                o = s.ptr(oc, "opt_" + oc, True)
                r = s.fork().call(bl, b, "setOption", o)
                if oc in ocs: c.holds(lab + "accepts " + oc, r.pc, c.where(b, "setOption"), TRUE, s)
                else: c.holds(lab + "refuses %s with an argument error" % oc, r.thrown(s.P, "std::invalid_argument"), c.where(b, "setOption"), TRUE, s)
        c.group(b + " refusals", g3)

def cfg(c, lab, s, p, q, w, u):
    """two pricers hold configurations that behave alike"""
    a, b = s.I.load(s.st, s.I.deref(p)), s.I.load(s.st, s.I.deref(q))
    T, X = s.num("T", pos=True), t.sym("xs")
    def comp(v, suffix):
        for n, x in v.fields.items():
            if n.endswith(suffix): return x
        return None
    for cls, meths in (("StockModel", [("simulatePrices", (T,))]), ("BasisFunction", [("generate", (X,))])):
        xs = [[x for x in v.fields.values() if isinstance(x, (t.T, t.D)) and all(k for k in [s.I.exact_class(l, s.st) and s.P.derives(s.I.exact_class(l, s.st), NS + cls) for l in t.leaves(x)])] for v in (a, b)]
        if len(xs[1]) == 1 and not xs[0]:
            name = [n for n, x in b.fields.items() if x is xs[1][0]][0]
            if a.fields.get(name) is t.NULL:
                c.fact(lab + ": " + cls, False, w, "no %s held" % cls, {"field": name}); continue
        if not all(len(x) == 1 for x in xs):
            c.add(lab + ": " + cls, "OPEN", w, "no single %s held" % cls); continue
        for m, args in meths:
            r1, r2 = s.fork().call(xs[0][0], cls, m, *args), s.fork().call(xs[1][0], cls, m, *args)
            c.eq("%s: %s::%s" % (lab, cls, m), r1.val, r2.val, w, t.b_all(u, r2.pc), s, None, 12)
    cls = "Regression"
    ks = [[s.I.exact_class(l, s.st) for x in v.fields.values() if isinstance(x, (t.T, t.D)) for l in t.leaves(x) if s.I.exact_class(l, s.st) and s.P.derives(s.I.exact_class(l, s.st), NS + cls)] for v in (a, b)]
    c.fact(lab + ": regression", (ks[0] == ks[1]) if ks[0] else None, w, str(ks))

@check("C32")
def solver(c):
    c.rule = "value graph of MCSolver::solve as a function of the history of its settings"
    def g():
        s = c.sess()
        w = c.where("MCSolver", "solve")
        N0, N1 = s.num("N0", True, nonneg=True), s.num("N1", True, nonneg=True)
        p1, p2 = s.ptr("MCPricer", "pricer1"), s.ptr("MCPricer", "pricer2")
        ref = lambda f, p, n: f.fork().get(p, "MCPricer", "calculatePrice", n)
        r = s.new("MCSolver", N0)
        c.eq("construction succeeds iff there is at least one simulation", r.pc, t.gt(N0, 0), c.where("MCSolver"), TRUE, s)
        c.eq("zero simulations is an argument error", r.thrown(s.P, "std::invalid_argument"), t.eq(N0, 0), c.where("MCSolver"), TRUE, s)
        s.st.pc = TRUE
        sv = r.val
        x = s.fork().call(sv, "MCSolver", "solve")
        c.holds("solving without a pricer is a logic error", x.thrown(s.P, "std::logic_error"), w, t.gt(N0, 0), s)
        s.call(sv, "MCSolver", "setPricer", p1); s.st.pc = TRUE
        x = s.fork().call(sv, "MCSolver", "solve")
        c.eq("result is the pricer's price for the number of simulations set", x.val, ref(s, p1, N0), w, t.gt(N0, 0), s)
        c.holds("solving succeeds", x.pc, w, t.gt(N0, 0), s)
        f = s.fork()
        a = f.call(sv, "MCSolver", "setN", N1)
        c.eq("a new number of simulations is accepted iff positive", a.pc, t.gt(N1, 0), c.where("MCSolver", "setN"), t.gt(N0, 0), s)
        c.eq("a rejected number is an argument error", a.thrown(s.P, "std::invalid_argument"), t.eq(N1, 0), c.where("MCSolver", "setN"), t.gt(N0, 0), s)
        f.st.pc = TRUE
        c.eq("the last number of simulations counts", f.fork().get(sv, "MCSolver", "solve"), ref(f, p1, N1), w, t.b_and(t.gt(N0, 0), t.gt(N1, 0)), s)
        for pc, et, v, st in a.throws:
            q = s.fork(); q.st = st.copy(); q.st.pc = TRUE
            c.eq("after a rejected number the old one counts", q.fork().get(sv, "MCSolver", "solve"), ref(q, p1, N0), w, t.b_and(t.gt(N0, 0), pc), s)
        f = s.fork()
        f.call(sv, "MCSolver", "setPricer", p2); f.st.pc = TRUE
        c.eq("the last pricer counts", f.fork().get(sv, "MCSolver", "solve"), ref(f, p2, N0), w, t.gt(N0, 0), s)
        # solving twice asks the pricer twice
        f = s.fork()
        f.call(sv, "MCSolver", "solve"); f.st.pc = TRUE
        h = s.fork(); h.call(p1, "MCPricer", "calculatePrice", N0); h.st.pc = TRUE
        c.eq("every solve is a fresh estimate", f.get(sv, "MCSolver", "solve"), h.get(p1, "MCPricer", "calculatePrice", N0), w, t.gt(N0, 0), s)
        f = s.fork()
        d = f.new("MCSolver")
        if d.val is not None:
            f.st.pc = TRUE
            f.call(d.val, "MCSolver", "setPricer", p1); f.st.pc = TRUE
            c.eq("the default is one hundred thousand simulations", f.fork().get(d.val, "MCSolver", "solve"), ref(f, p1, t.const(100000)), w, TRUE, s)
    c.group("MCSolver", g)
