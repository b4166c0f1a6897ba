"""Numerical building blocks: interpolation, linear solvers, regressions, polynomial bases."""
from ..chk import check
from .. import terms as t, lib
from ..terms import TRUE, FALSE, ZERO, ONE, ite
from .mc import idx

def at(a, i): return t.num(t.sel(a, i))

def grid(s, n, name):
    """an arbitrary strictly increasing grid of n points: a start and positive steps"""
    k, pk = idx("k"); j, pj = idx("j")
    return t.Lam(n, k, s.num(name + "0") + t.Sum(pk, j, t.exp(at(t.sym(name + "gap"), pj))))

def values(n, name):
    k, pk = idx("k")
    return t.Lam(n, k, at(t.sym(name), pk))

@check("C27")
def interpolation(c):
    c.rule = "value graph of interpolate() on an arbitrary increasing grid equals the piecewise polynomial through the grid points, flat outside"
    for cls in ("LinearInterpolation", "QuadraticInterpolation"):
        w = c.where(cls, "interpolate")
        def setup():
            s = c.sess()
            n = s.num("n", True, pos=True)
            X, Y = grid(s, n, "x"), values(n, "y")
            o = s.new(cls).val; s.st.pc = TRUE
            return s, n, X, Y, o
        def run(s, o, X, Y, x):
            return s.fork().call(o, "Interpolation", "interpolate", X, Y, x)
        def inside():
            s, n, X, Y, o = setup()
            x = s.num("x")
            j, pj = idx("j")
            k = t.First(n - 1, j, t.lt(x, at(X, pj + 1)))
            x1, x2, y1, y2 = at(X, k), at(X, k + 1), at(Y, k), at(Y, k + 1)
            lin = y1 + (x - x1) * (y2 - y1) / (x2 - x1)
            x0, y0 = at(X, k - 1), at(Y, k - 1)
            quad = (y0 * (x - x1) * (x - x2) / ((x0 - x1) * (x0 - x2)) + y1 * (x - x0) * (x - x2) / ((x1 - x0) * (x1 - x2))
                    + y2 * (x - x0) * (x - x1) / ((x2 - x0) * (x2 - x1)))
            val = lin if cls[0] == "L" else ite(t.b_or(t.eq(k, 0), t.eq(k, n - 2)), lin, quad)
            u = t.b_all(t.ge(n, 2), t.lt(at(X, ZERO), x), t.lt(x, at(X, n - 1)))
            r = run(s, o, X, Y, x)
            c.eq("%s: value inside the grid" % cls, r.val, val, w, u, s)
            c.holds("%s: a point of the grid's range is always found" % cls, r.pc, w, u, s)
            out = t.b_or(t.le(x, at(X, ZERO)), t.ge(x, at(X, n - 1)))
            c.eq("%s: flat outside the grid" % cls, r.val, ite(t.le(x, at(X, ZERO)), at(Y, ZERO), at(Y, n - 1)), w, t.b_and(t.ge(n, 2), out), s)
            c.holds("%s: points outside the grid are accepted" % cls, r.pc, w, t.b_and(t.ge(n, 2), out), s)
        c.group(cls + " inside", inside)
        def nodes():
            s, n, X, Y, o = setup()
            m = s.num("m", True, nonneg=True)
            r = run(s, o, X, Y, at(X, m))
            u = t.b_all(t.ge(n, 2), t.lt(m, n))
            c.eq("%s: reproduces the grid values" % cls, r.val, at(Y, m), w, u, s)
            c.holds("%s: a grid point is always found" % cls, r.pc, w, u, s)
        c.group(cls + " nodes", nodes)
        def lines():
            s, n, X, _, o = setup()
            p, q = s.num("p"), s.num("q")
            x = s.num("x")
            k, pk = idx("k")
            r = run(s, o, X, t.Lam(n, k, p + q * at(X, pk)), x)
            u = t.b_all(t.ge(n, 2), t.lt(at(X, ZERO), x), t.lt(x, at(X, n - 1)))
            c.eq("%s: exact for straight lines" % cls, r.val, p + q * x, w, u, s)
        c.group(cls + " lines", lines)

# ------------------------------------------------------------------ linear systems
def tri(s, n):
    i, pi = idx("i"); j, pj = idx("j")
    lo, up, d = (t.sym(x) for x in ("lower", "upper", "diagonal"))
    a = at(lo, pi); b = at(up, pi); dd = at(d, pi)
    e = ite(t.eq(pi, pj), dd, ite(t.eq(pi, pj + 1), a, ite(t.eq(pi + 1, pj), b, ZERO)))
    return lib.mkrows(t.Lam(n, i, t.Lam(n, j, e)))

# diagonally dominant: no pivot vanishes
DOMINANT = {("sel", t.sym("lower")): (-2.0, 2.0), ("sel", t.sym("upper")): (-2.0, 2.0),
            ("sel", t.sym("diagonal")): lambda r, env: r.choice((-1, 1)) * (6 + r.randint(0, 128) / 64)}

def dense(s, n):
    i, pi = idx("i"); j, pj = idx("j")
    return lib.mkrows(t.Lam(n, i, t.Lam(n, j, at(t.sel(t.sym("M"), pi), pj) + ite(t.eq(pi, pj), s.num("shift"), ZERO))))

@check("C28")
def solvers(c):
    c.rule = "value graph of solve(A, b) equals the solution of the linear system on an arbitrary non-singular matrix of the solver's class"
    for cls in ("ThomasAlgorithm", "LUDecompositionSolver", "PartialPivotingLUSolver"):
        w = c.where(cls, "solve")
        for shape in ("tridiagonal", "general"):
            if cls[0] == "T" and shape == "general": continue
            def g():
                s = c.sess()
                n = s.num("n", True, pos=True)
                A = tri(s, n) if shape[0] == "t" else dense(s, n)
                b = values(n, "b")
                o = s.new(cls).val; s.st.pc = TRUE
                r = s.fork().call(o, "MatrixSolver", "solve", A, b)
                u = t.ge(n, 2)
                x = t.mk("linsolve", A, b)
                lab = "%s, %s system: " % (cls, shape)
                dom = DOMINANT if shape[0] == "t" else None
                c.eq(lab + "solution", r.val, x, w, u, s, dom)
                c.eq(lab + "one value per unknown", t.alen(r.val), n, w, u, s, dom)
                if shape[0] == "t": c.holds(lab + "non-singular systems are solved", r.pc, w, u, s, dom)
                m, pm = idx("m"); j, pj = idx("j")
                res = t.Lam(n, m, t.Sum(n, j, lib.at2(A, pm, pj) * at(r.val, pj)))
                c.eq(lab + "the residual vanishes", res, b, w, u, s, dom)
            c.group("%s %s" % (cls, shape), g)
    def small():
        s = c.sess()
        A = tri(s, ONE)
        o = s.new("ThomasAlgorithm").val; s.st.pc = TRUE
        r = s.fork().call(o, "MatrixSolver", "solve", A, values(ONE, "b"))
        c.eq("ThomasAlgorithm: a 1x1 system is an argument error or is solved", t.b_or(r.thrown(s.P, "std::invalid_argument"), r.pc), TRUE, c.where("ThomasAlgorithm", "solve"), TRUE, s)
    c.group("small", small)
    def singular():
        s = c.sess()
        n = s.num("n", True, pos=True)
        i, pi = idx("i"); j, pj = idx("j")
        A = lib.mkrows(t.Lam(n, i, t.Lam(n, j, at(t.sym("u"), pi) * at(t.sym("v"), pj))))
        o = s.new("LUDecompositionSolver").val; s.st.pc = TRUE
        r = s.fork().call(o, "MatrixSolver", "solve", A, values(n, "b"))
        w = c.where("LUDecompositionSolver", "solve")
        c.eq("LUDecompositionSolver: a singular system is reported", r.thrown(s.P, "std::runtime_error"), TRUE, w, t.ge(n, 2), s)
    c.group("singular", singular)

# ------------------------------------------------------------------ regressions and bases
def design(s, n, m):
    i, pi = idx("i"); j, pj = idx("j")
    return lib.mkrows(t.Lam(n, i, t.Lam(m, j, at(t.sel(t.sym("M"), pi), pj))))

def binom(n, k):
    j, pj = idx("j")
    return t.Prod(k, j, (n - pj) / (pj + 1))
def power(x, k):
    j, pj = idx("j")
    return t.Prod(k, j, x)
def monomial(x, n): return power(x, n)
def laguerre(x, n):
    k, pk = idx("k"); j, pj = idx("j")
    return t.Sum(n + 1, k, binom(n, pk) * t.Prod(pk, j, -x / (pj + 1)))
def legendre(x, n):
    k, pk = idx("k")
    return t.Sum(n + 1, k, binom(n, pk) * binom(n + pk, pk) * power((x - 1) / 2, pk))
def chebyshev(x, n):
    k, pk = idx("k")
    return t.Sum(n + 1, k, ite(t.le(2 * pk, n), binom(n, 2 * pk) * power(x * x - 1, pk) * power(x, n - 2 * pk), ZERO))
BASES = [("MonomialBasisFunction", monomial, "x^n"), ("LaguerreBasisFunction", laguerre, "L_n(x)"),
         ("LegendreBasisFunction", legendre, "P_n(x)"), ("ChebyshevBasisFunction", chebyshev, "T_n(x)")]

@check("C29")
def regress(c):
    c.rule = "value graphs of basis matrices equal the explicit polynomial sums; of regression coefficients, the solution of the (penalised) normal equations"
    for cls, f, what in BASES:
        def g():
            s = c.sess()
            m = s.num("m", True, nonneg=True); n = s.num("n", True, pos=True)
            w, wc = c.where(cls, "generate"), c.where(cls)
            r = s.new(cls, m)
            c.eq("%s: construction succeeds iff there is a function" % cls, r.pc, t.gt(m, 0), wc, TRUE, s)
            c.eq("%s: no function at all is an argument error" % cls, r.thrown(s.P, "std::invalid_argument"), t.eq(m, 0), wc, TRUE, s)
            s.st.pc = TRUE
            X = values(n, "x")
            q = s.fork().call(r.val, "BasisFunction", "generate", X)
            i, pi = idx("i"); j, pj = idx("j")
            spec = lib.mkrows(t.Lam(n, i, t.Lam(m, j, f(at(X, pi), pj))))
            c.eq("%s: column n is %s" % (cls, what), q.val, spec, w, t.gt(m, 0), s)
            c.eq("%s: one row per point" % cls, lib.mrows(q.val), n, w, t.gt(m, 0), s)
            c.eq("%s: one column per function" % cls, lib.mcols(q.val), m, w, t.gt(m, 0), s)
            c.holds("%s: generation succeeds" % cls, q.pc, w, t.gt(m, 0), s)
        c.group(cls, g)
    for cls in ("LeastSquaresRegression", "RidgeRegression", "LassoRegression"):
        def g():
            s = c.sess()
            n = s.num("n", True, pos=True); m = s.num("m", True, pos=True)
            lam = s.num("lambda")
            w, wc = c.where(cls, "solve"), c.where(cls)
            if cls[1] == "e": o = s.new(cls).val; ok = TRUE
            else:
                r = s.new(cls, lam); o = r.val
                ok = t.ge(lam, 0)
                c.eq("%s: construction succeeds iff the penalty is not negative" % cls, r.pc, ok, wc, TRUE, s)
                c.eq("%s: a negative penalty is an argument error" % cls, r.thrown(s.P, "std::invalid_argument"), t.lt(lam, 0), wc, TRUE, s)
            s.st.pc = TRUE
            A, y = design(s, n, m), values(n, "y")
            r = s.fork().call(o, "Regression", "solve", A, y)
            At = lib.transpose(A)
            ls = t.mk("lsq", A, y)
            k, pk = idx("k"); i, pi = idx("i"); j, pj = idx("j")
            if cls[1] == "e": spec = ls
            elif cls[0] == "R":
                N = lib.matmul(At, A)
                N = lib.mkrows(t.Lam(m, i, t.Lam(m, j, lib.at2(N, pi, pj) + ite(t.eq(pi, pj), lam, ZERO))))
                spec = t.mk("linsolve", N, lib.matvec(At, y))
            else:
                b = at(ls, pk)
                spec = t.Lam(m, k, ite(t.gt(b, lam), b - lam, ite(t.lt(b, -lam), b + lam, ZERO)))
            u = t.b_all(ok, t.ge(n, m))
            what = {"e": "least squares fit", "i": "ridge fit", "a": "soft-thresholded least squares fit"}[cls[1]]
            c.eq("%s: coefficients are the %s" % (cls, what), r.val, spec, w, u, s)
            c.eq("%s: one coefficient per function" % cls, t.alen(r.val), m, w, u, s)
            c.holds("%s: fitting succeeds" % cls, r.pc, w, u, s)
        c.group(cls, g)
