"""Payoffs: values, construction, equality, cloning."""
from ..chk import check
from .. import terms as t
from ..terms import TRUE, FALSE, ZERO, ONE, ite
from ..api import AnchorMissing

def types(s):
    e = "OptionPricer::PayoffType"
    if e not in s.P.enums: raise AnchorMissing("enumeration PayoffType")
    return s.P.enums[e]
def tcase(s, ty, call, put, dd):
    m = {"OptionPricer::PayoffType::Call": call, "OptionPricer::PayoffType::Put": put, "OptionPricer::PayoffType::DoubleDigital": dd}
    dom = types(s)
    return t.enum_case(ty, dom, [m.get(d, dd) for d in dom])
def callput(s, ty): return tcase(s, ty, TRUE, TRUE, FALSE)

def mk(s, cls, suf=""):
    """symbolic construction: (outcome, parameters, accept condition)"""
    if cls == "PayoffDoubleDigital":
        a, b = s.num("KL" + suf), s.num("KU" + suf)
        return s.new(cls, a, b), (a, b), t.b_and(t.ge(a, 0), t.ge(b, 0))
    ty = t.sym("type" + suf)
    if cls == "PayoffLookbackFloatingStrike":
        return s.new(cls, ty), (ty,), callput(s, ty)
    K = s.num("K" + suf)
    return s.new(cls, ty, K), (ty, K), t.b_and(callput(s, ty), t.ge(K, 0))

ALL = ("PayoffVanilla", "PayoffDigital", "PayoffDoubleDigital", "PayoffLookbackFloatingStrike")
def pos(x): return t.maxv(x, ZERO)
def flag(c): return ite(c, ONE, ZERO)

def value(s, cls, p, S, X):
    if cls == "PayoffVanilla": return tcase(s, p[0], pos(S - p[1]), pos(p[1] - S), ZERO)
    if cls == "PayoffDigital": return tcase(s, p[0], flag(t.gt(S, p[1])), flag(t.gt(p[1], S)), ZERO)
    if cls == "PayoffDoubleDigital": return flag(t.b_and(t.le(p[0], S), t.le(S, p[1])))
    return tcase(s, p[0], pos(S - X), pos(X - S), ZERO)

@check("C06")
def payoff_values(c):
    c.rule = "value graph of the payoff operator, through its public constructor, equals the contract's closed formula"
    for cls in ALL:
        def g():
            s = c.sess()
            o, p, acc = mk(s, cls)
            S, X = s.num("S"), s.num("extremeS")
            two = cls == "PayoffLookbackFloatingStrike"
            r = s.fork().call(o.val, "Payoff", "operator()", *([S, X] if two else [S]))
            w = c.where(cls, "operator()")
            c.eq("%s pays its contractual amount" % cls, r.val, value(s, cls, p, S, X), w, acc, s)
            c.holds("%s evaluation never fails" % cls, t.b_not(r.thrown()), w, acc, s)
            r = s.fork().call(o.val, "Payoff", "operator()", *([S] if two else [S, X]))
            c.holds("%s: the evaluation that does not apply is refused" % cls, r.thrown(s.P, "std::logic_error"), w, acc, s)
        c.group(cls, g)

@check("C07")
def payoff_construction(c):
    c.rule = "constructor's rejection condition equals the stated one; accepted parameters are reported back unchanged"
    for cls in ALL:
        def g():
            s = c.sess()
            o, p, acc = mk(s, cls)
            w = c.where(cls)
            c.eq("%s rejects exactly the invalid parameters" % cls, o.thrown(s.P, "std::invalid_argument"), t.b_not(acc), w, TRUE, s)
            c.eq("%s accepts the valid parameters" % cls, o.pc, acc, w, TRUE, s)
            ty = s.fork().get(o.val, "Payoff", "getPayoffType")
            want = s.enum("PayoffType::DoubleDigital") if cls == "PayoffDoubleDigital" else p[0]
            dom = types(s)
            for i, d in enumerate(dom):
                c.eq("%s reports its kind (%s)" % (cls, d.rsplit("::", 1)[1]), t.enum_case(ty, dom, [t.boolc(j == i) for j in range(len(dom))]),
                     t.enum_case(want, dom, [t.boolc(j == i) for j in range(len(dom))]), c.where("Payoff", "getPayoffType"), acc, s)
            if cls in ("PayoffVanilla", "PayoffDigital"):
                c.eq("%s reports its strike" % cls, s.fork().get(o.val, cls, "getK"), p[1], c.where(cls, "getK"), acc, s)
            if cls == "PayoffDoubleDigital":
                c.eq("%s reports its lower strike" % cls, s.fork().get(o.val, cls, "getKL"), p[0], c.where(cls, "getKL"), acc, s)
                c.eq("%s reports its upper strike" % cls, s.fork().get(o.val, cls, "getKU"), p[1], c.where(cls, "getKU"), acc, s)
        c.group(cls, g)

def same_params(s, cls, p, q):
    if cls == "PayoffDoubleDigital": return t.b_and(t.eq(p[0], q[0]), t.eq(p[1], q[1]))
    dom = types(s)
    r = t.enum_case(p[0], dom, [t.enum_case(q[0], dom, [t.boolc(i == j) for j in range(len(dom))]) for i in range(len(dom))])
    return r if len(p) == 1 else t.b_and(r, t.eq(p[1], q[1]))

@check("C08")
def payoff_equality(c):
    c.rule = "operator== over every ordered pair of concrete payoff classes equals (same class and same parameters); clone is equal to, and independent of, its source"
    for a in ALL:
        for b in ALL:
            def g():
                s = c.sess()
                oa, pa, acca = mk(s, a, "1")
                ob, pb, accb = mk(s, b, "2")
                acc = t.b_and(acca, accb)
                want = same_params(s, a, pa, pb) if a == b else FALSE
                w = c.where("Payoff", "operator==")
                r = s.fork().call(oa.val, "Payoff", "operator==", s.ref(ob.val))
                c.eq("%s == %s iff same contract" % (a, b), r.val, want, w, acc, s)
                r = s.fork().call(oa.val, "Payoff", "operator!=", s.ref(ob.val))
                c.eq("%s != %s is the negation" % (a, b), r.val, t.b_not(want), c.where("Payoff", "operator!="), acc, s)
            c.group(a + "/" + b, g)
    for a in ALL:
        def g():
            s = c.sess()
            o, p, acc = mk(s, a)
            S, X = s.num("S"), s.num("extremeS")
            r = s.call(o.val, "Payoff", "clone")
            w = c.where(a, "clone")
            two = a == "PayoffLookbackFloatingStrike"
            v = s.fork().call(r.val, "Payoff", "operator()", *([S, X] if two else [S]))
            c.eq("clone of %s pays the same" % a, v.val, value(s, a, p, S, X), w, acc, s)
            e = s.fork().call(o.val, "Payoff", "operator==", s.ref(r.val))
            c.holds("clone of %s equals its source" % a, e.val, w, acc, s)
            c.fact("clone of %s is a separate object" % a, None if (r.val is None or getattr(r.val, "unk", False)) else r.val is not o.val, w)
        c.group("clone " + a, g)
