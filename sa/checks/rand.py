"""Random numbers: reproducibility, laws, low-discrepancy traversal, the normal quantile."""
from ..chk import check
from .. import terms as t, lib
from ..terms import TRUE, FALSE, ZERO, ONE, ite
from ..api import AnchorMissing, NS
from ..evalt import Hint
from . import models as mo
from .mc import STEPS, idx

GENS = ("PseudoRandomNumberGenerator", "SobolGenerator", "FaureGenerator")
# name, parameters, admissible, law
def q(x): return t.const(x)
DISTR = [("ContinuousUniformDistribution", ("a", "b"), lambda a, b: t.lt(a, b), lambda U, a, b: a + (b - a) * U("U01")),
         ("ExponentialDistribution", ("lam",), lambda l: t.gt(l, 0), lambda U, l: U("E1") / l),
         ("GammaDistribution", ("shape", "rate"), lambda a, b: t.b_and(t.gt(a, 0), t.gt(b, 0)), lambda U, a, b: U("Gam", a) / b),
         ("NormalDistribution", ("mu", "sigma"), lambda m, v: t.gt(v, 0), lambda U, m, v: m + v * U("N01")),
         ("PoissonDistribution", ("lam",), lambda l: t.gt(l, 0), lambda U, l: U("Poi", l)),
         ("StandardNormalDistribution", (), lambda: TRUE, lambda U: U("N01"))]

def dists(c, s):
    """distribution objects to draw with: an arbitrary client one and the library's"""
    out = [("a client's distribution", lambda f, tag: f.ptr("Distribution", "dist"), TRUE)]
    for cls, ps, ok, law in DISTR:
        xs = [s.num("%s_%s" % (cls, p)) for p in ps]
        out.append((cls, lambda f, tag, cls=cls, xs=xs: f.new(cls, *xs).val, ok(*xs)))
    return out

def draw(s, g, d):
    r = s.call(g, "NumberGenerator", "operator()", s.ref(d))
    return r

@check("C16")
def seeds(c):
    c.rule = "value graphs of draws as functions of the engine's state: equal graphs for equal seeds and call sequences, whatever else was drawn in between; the seed enters, every draw advances the state"
    for G in GENS:
        def g():
            w = c.where(G, "operator()")
            wc = c.where(G)
            s0 = c.sess()
            s0.I.engines = True
            n = s0.num("dim", True, nonneg=True); seed = s0.num("seed", True, nonneg=True); other = s0.num("seed2", True, nonneg=True)
            r = s0.fork().new(G, n, seed)
            c.eq("%s: seeded construction succeeds iff there is a dimension" % G, r.pc, t.gt(n, 0), wc, TRUE, s0)
            c.eq("%s: dimension zero is an argument error" % G, r.thrown(s0.P, "std::invalid_argument"), t.eq(n, 0), wc, TRUE, s0)
            f = s0.fork(); f.st.pc = TRUE
            r = f.new(G, n)
            c.eq("%s: unseeded construction succeeds iff there is a dimension" % G, r.pc, t.gt(n, 0), wc, TRUE, s0)
            c.eq("%s: dimension zero is an argument error (unseeded)" % G, r.thrown(s0.P, "std::invalid_argument"), t.eq(n, 0), wc, TRUE, s0)
            f.st.pc = TRUE
            c.eq("%s: reports its dimension" % G, f.get(r.val, "NumberGenerator", "getDim"), n, wc, t.gt(n, 0), s0)
            for lab, mk, ok in dists(c, s0):
                if G != GENS[0] and lab not in ("a client's distribution", "StandardNormalDistribution"): continue   # no inverse
                for K, dim in ((4, t.const(2)), (2, n)):
                    s = s0.fork(); s.st.pc = TRUE
                    u = t.b_and(ok, t.gt(n, 0))
                    g1 = s.new(G, dim, seed).val; s.st.pc = TRUE
                    d1 = mk(s, 1); s.st.pc = TRUE
                    A = []
                    for i in range(K):
                        A.append(draw(s, g1, d1).val); s.st.pc = TRUE
                    # the same again, among draws of a third generator, with a distribution object of its own
                    g3 = s.new(G, dim, other).val; s.st.pc = TRUE
                    d3 = mk(s, 3); s.st.pc = TRUE
                    g2 = s.new(G, dim, seed).val; s.st.pc = TRUE
                    d2 = mk(s, 2); s.st.pc = TRUE
                    B, C = [], []
                    for i in range(K):
                        B.append(draw(s, g2, d2).val); s.st.pc = TRUE
                        C.append(draw(s, g3, d3).val); s.st.pc = TRUE
                    nm = "%s, %s, %s: " % (G, "two dimensions" if dim is not n else "any dimension", lab)
                    for i in range(K):
                        c.eq(nm + "draw %d is reproduced by the same seed" % (i + 1), B[i], A[i], w, u, s)
                        c.fact(nm + "draw %d depends on the seed" % (i + 1), uses(A[i], seed), wc, "the drawn number does not involve the seed", {"draw": t.show(A[i])[:200]})
                    for i in range(1, K):
                        c.fact(nm + "draw %d is a new number" % (i + 1), differs(A[i], A[:i]), w, "same number drawn again", {"draw": t.show(A[i])[:200]})
            # unseeded generators are seeded independently
            s = s0.fork(); s.st.pc = TRUE
            d = s.ptr("Distribution", "dist")
            g1 = s.new(G, n).val; s.st.pc = TRUE
            g2 = s.new(G, n).val; s.st.pc = TRUE
            a = draw(s, g1, d).val; s.st.pc = TRUE
            b = draw(s, g2, d).val; s.st.pc = TRUE
            c.fact("%s: generators without a seed are seeded independently" % G, differs(a, [b]), wc, "two unseeded generators draw the same number", {"draw": t.show(a)[:200]})
        c.group(G, g)
    for M in mo.MODELS:
        def g():
            models(c, M)
        c.group(M.cls, g)

def models(c, M):
    """two models of the same stock and parameters on generators of the same seed, a third one simulating in between"""
    w = c.where(M.cls, "simulatePrices")
    for meth, what in (("simulatePrices", "path"), ("simulatePriceAtMaturity", "price at maturity")):
        m = mo.Mkt(c)
        s = m.s
        s.I.engines = True
        n = s.num("dim", True, pos=True)
        seed = s.num("seed", True, nonneg=True); other = s.num("seed2", True, nonneg=True)
        par = [s.num(x) for x in M.par]
        T = s.num("T", pos=True)
        def make(sd):
            g = s.new("PseudoRandomNumberGenerator", n, sd).val; s.st.pc = TRUE
            a = [m.tk, m.md, g] + par
            if M.disc: a.append(s.new("CIRExplicitEulerDiscretization").val); s.st.pc = TRUE
            o = s.new(M.cls, *a); s.st.pc = TRUE
            return o
        def sim(o):
            r = s.call(o.val, "StockModel", meth, T); s.st.pc = TRUE
            return r
        q = m.quotes()
        a, x, b = make(seed), make(other), make(seed)
        u = t.b_all(q[4], M.domain(par, q), M.sim(par) if hasattr(M, "sim") else TRUE)
        dom = {t.sym(k): v for k, v in M.dom.items()}
        A = sim(a); sim(x); B = sim(b)
        nm = M.cls + ": "
        c.eq(nm + "the same seed reproduces the %s" % what, B.val, A.val, w, t.b_all(u, A.pc), s, dom)
        c.fact(nm + "the %s involves the seed" % what, uses(A.val, seed), w, "no draw of the model's generator enters", {"value": t.show(A.val)[:200]})
        if M.cls not in SLOW:
            A2 = sim(a)
            c.fact(nm + "the next %s is a new one" % what, differs(A2.val, [A.val]), w, "the same %s again" % what, {"value": t.show(A.val)[:200]})
            B2 = sim(b)
            c.eq(nm + "the same seed reproduces the second %s" % what, B2.val, A2.val, w, t.b_all(u, A.pc, A2.pc), s, dom)
SLOW = ("KouModel", "BatesModel", "MertonJumpDiffusionModel")

def uses(v, s):
    a = next(iter(t.leaves(s))) if not isinstance(s, t.T) else s
    syms = set(a.free)
    if v.unk: return None
    return bool(syms & set(v.free))

def differs(v, others):
    if v.unk: return None
    return not any(v is o for o in others)

@check("C18")
def quasi(c):
    c.rule = "value graph of the k-th number drawn equals the inverse distribution function at the k-th output of the seeded engine, normalised"
    for G, eng in (("SobolGenerator", "sobol_engine"), ("FaureGenerator", "faure_engine")):
        def g():
            w = c.where(G, "operator()")
            s0 = c.sess()
            N = s0.num("dim", True, pos=True); seed = s0.num("seed", True, nonneg=True); other = s0.num("seed2", True, nonneg=True)
            for dim, K in ((N, 3), (t.const(1), 3), (t.const(2), 6), (t.const(3), 8), (t.const(5), 12), (t.const(64), 130), (t.const(365), 368)):
                big = dim is not N and K > 100     # draws around the end of a point
                for dl in ("a client's distribution", "the standard normal")[:1 if big else 2]:
                    s = s0.fork(); s.st.pc = TRUE
                    r = s.new(G, dim, seed); s.st.pc = TRUE
                    r2 = s.new(G, N, other); s.st.pc = TRUE
                    mk = (lambda: s.ptr("Distribution", "dist")) if dl[0] == "a" else (lambda: s.new("StandardNormalDistribution").val)
                    d = mk(); d2 = mk(); s.st.pc = TRUE
                    E = lib.qseed(t.mk("qrng", t.mk("str", eng), t.poly(dim)), seed)
                    for k in range(K if dl[0] == "a" else 2):
                        x = draw(s, r.val, d); s.st.pc = TRUE
                        if big and (k + 2) % t.const_val(dim) > 3: continue
                        draw(s, r2.val, d2); s.st.pc = TRUE
                        u = lib.qpt(E, t.const(k)) / lib.qmax(None, eng)
                        y = s.fork().call(d, "Distribution", "inv_cdf", u)
                        nm = "%s, %s, %s: number %d is the next coordinate of the sequence" % (G, "any dimension" if dim is N else "dimension %d" % t.const_val(dim), dl, k + 1)
                        c.eq(nm, x.val, y.val, w, t.b_all(t.gt(u, 0), t.lt(u, 1), y.pc), s)
        c.group(G, g)
        def g2():
            # any two coordinates of one point come from one point, also when the point is the second one
            s = c.sess()
            n = s.num("dim", True, pos=True)
            r = s.new(G, n)
            w = c.where(G)
            c.holds("%s: an unseeded generator starts" % G, r.pc, w, t.gt(n, 0), s)
            s.st.pc = TRUE
            d = s.ptr("Distribution", "dist")
            x = draw(s, r.val, d)
            c.holds("%s: an unseeded generator draws" % G, x.pc, w, t.gt(n, 0), s)
        c.group(G + " unseeded", g2)

@check("C17")
def laws(c):
    c.rule = "value graph of a draw, over standard variates of the distribution's law, equals its location-scale form; acceptance region of the constructor; exception outcomes of the inverse"
    for cls, ps, ok, law in DISTR:
        def g():
            s = c.sess()
            w, wc = c.where(cls, "operator()"), c.where(cls)
            xs = [s.num(p) for p in ps]
            r = s.new(cls, *xs)
            c.eq("%s: accepted iff the law exists" % cls, r.pc, ok(*xs), wc, TRUE, s)
            c.eq("%s: otherwise an argument error" % cls, r.thrown(s.P, "std::invalid_argument"), t.b_not(ok(*xs)), wc, TRUE, s)
            s.st.pc = TRUE
            from ..interp import Lval
            from .models import draw as law_draw
            E = t.sym("engine")
            lv = Lval(("spec", t._nid()), ())
            s.st.mem[lv.root] = E
            for k in range(3):
                f = s.fork()
                lawv = {}
                def U(name, *prm):
                    return t.num(f.I.draw(f.st, name, list(prm), name == "Poi"))
                spec = law(U, *xs)
                x = s.call(r.val, "Distribution", "operator()", lv); s.st.pc = TRUE
                c.eq("%s: draw %d has the law with the given parameters" % (cls, k + 1), x.val, spec, w, ok(*xs), s)
                c.holds("%s: draw %d succeeds" % (cls, k + 1), x.pc, w, ok(*xs), s)
            # the numbers come from the engine handed in
            s.I.engines = True
            s.st.mem[lv.root] = E
            d = s.new(cls, *xs).val; s.st.pc = TRUE
            prev = []
            for k in range(3):
                e0 = s.st.mem[lv.root]
                x = s.call(d, "Distribution", "operator()", lv); s.st.pc = TRUE
                e1 = s.st.mem[lv.root]
                c.fact("%s: draw %d is made with the engine handed in" % (cls, k + 1), None if x.val.unk else E in x.val.free, w, "engine does not enter the number", {"value": t.show(x.val)[:200]})
                c.fact("%s: draw %d advances that engine" % (cls, k + 1), e1 is not e0, w, "engine is left as it was", {"engine": t.show(e0)[:200]})
                c.fact("%s: draw %d is a new number" % (cls, k + 1), differs(x.val, prev), w, "the number drawn before", {"value": t.show(x.val)[:200]})
                prev.append(x.val)
            s.I.engines = False
            if cls == "StandardNormalDistribution": return
            u = s.num("u")
            x = s.fork().call(r.val, "Distribution", "inv_cdf", u)
            c.holds("%s: an inverse that is not implemented refuses with a logic error" % cls, x.thrown(s.P, "std::logic_error"), c.where(cls, "inv_cdf"), ok(*xs), s)
        c.group(cls, g)
    def defaults():
        s = c.sess()
        r = s.new("ContinuousUniformDistribution")
        c.holds("ContinuousUniformDistribution: standard uniform by default", r.pc, c.where("ContinuousUniformDistribution"), TRUE, s)
    c.group("defaults", defaults)

MORO_A = ("2.50662823884", "-18.61500062529", "41.39119773534", "-25.44106049637")
MORO_B = ("-8.47351093090", "23.08336743743", "-21.06224101826", "3.13082909833")
MORO_C = ("0.3374754822726147", "0.9761690190917186", "0.1607979714918209", "0.0276438810333863", "0.0038405729373609",
          "0.0003951896511919", "0.0000321767881768", "0.0000002888167364", "0.0000003960315187")

def horner(cs, x):
    from fractions import Fraction as F
    v = ZERO
    for a in reversed(cs): v = v * x + t.const(F(a))
    return v

def moro(u):
    """Beasley-Springer-Moro approximation, Glasserman (2004), fig. 2.12-2.13"""
    from fractions import Fraction as F
    y = u - t.const(F(1, 2))
    r2 = y * y
    mid = y * horner(MORO_A, r2) / (ONE + r2 * horner(MORO_B, r2))
    def tail(p): return horner(MORO_C, t.log(-t.log(p)))
    return ite(t.lt(t.absv(y), t.const(F("0.42"))), mid, ite(t.gt(y, 0), tail(ONE - u), -tail(u)))

@check("C19")
def quantile(c):
    c.rule = "value graph of the normal inverse equals the published approximation, is odd about one half, and exists exactly on (0,1)"
    def g():
        s = c.sess()
        cls = "StandardNormalDistribution"
        w = c.where(cls, "inv_cdf")
        d = s.new(cls).val; s.st.pc = TRUE
        u = s.num("u")
        dom = {t.sym("u"): (-.25, 1.25)}
        inside = t.b_and(t.gt(u, 0), t.lt(u, 1))
        r = s.fork().call(d, "Distribution", "inv_cdf", u)
        c.eq("exists exactly strictly between zero and one", r.pc, inside, w, TRUE, s, dom)
        c.eq("otherwise an argument error", r.thrown(s.P, "std::invalid_argument"), t.b_not(inside), w, TRUE, s, dom)
        reg = lambda lo, hi: Hint(lambda rnd, env: lo + (hi - lo) * rnd.random())
        for lab, dm in (("lower tail", reg(1e-9, .0799)), ("far lower tail", reg(1e-14, 1e-6)), ("lower centre", reg(.0801, .5)), ("upper centre", reg(.5, .9199)), ("upper tail", reg(.9201, 1 - 1e-9))):
            dd = {t.sym("u"): dm}
            c.eq("%s: the published approximation" % lab, r.val, moro(u), w, inside, s, dd)
            r1 = s.fork().call(d, "Distribution", "inv_cdf", ONE - u)
            c.eq("%s: odd about one half" % lab, r1.val, t.neg(r.val), w, inside, s, dd)
        for lab, x in (("centre", t.const(1) / 2), ("near the switch", t.const(2) / 25), ("near the upper switch", t.const(23) / 25)):
            c.eq("%s" % lab, s.fork().call(d, "Distribution", "inv_cdf", x).val, moro(x), w, TRUE, s)
    c.group("inverse", g)
