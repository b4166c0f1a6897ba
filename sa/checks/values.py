"""Value semantics: equality of quotes and options, destruction through interfaces."""
import re
from ..chk import check
from .. import terms as t, lib
from ..terms import TRUE, FALSE, ZERO, ONE, ite
from ..api import AnchorMissing, NS
from .market import opt, Quote, ok_price, ok_sigma, ok_coupon, UPD
from .payoffs import same_params
from .options import Env, KINDS, var

def same(a, b):
    return t.b_all(t.eq(a.S, b.S), t.eq(a.v, b.v), t.iff(a.h, b.h) if hasattr(t, "iff") else t.b_or(t.b_and(a.h, b.h), t.b_and(t.b_not(a.h), t.b_not(b.h))),
                   t.b_or(t.b_not(t.b_and(a.h, b.h)), t.eq(a.c, b.c)))

@check("C35")
def equality(c):
    c.rule = "value graph of operator== / operator!= equals equality of what the public accessors report, in both orders of comparison"
    def quotes():
        s = c.sess()
        mk = lambda i: (s.num("S%d" % i), s.num("v%d" % i)) + opt(s, "c%d" % i)
        (S1, v1, o1, h1, x1), (S2, v2, o2, h2, x2) = mk(1), mk(2)
        a = s.new("StockData", S1, v1, o1).val; s.st.pc = TRUE
        b = s.new("StockData", S2, v2, o2).val; s.st.pc = TRUE
        u = t.b_all(ok_price(S1), ok_sigma(v1), ok_coupon(h1, x1), ok_price(S2), ok_sigma(v2), ok_coupon(h2, x2))
        want = t.b_all(t.eq(S1, S2), t.eq(v1, v2), t.b_or(t.b_and(h1, h2), t.b_and(t.b_not(h1), t.b_not(h2))), t.b_or(t.b_not(h1), t.eq(x1, x2)))
        w = c.where("StockData", "operator==")
        for n, p, q in (("", a, b), (" (other order)", b, a)):
            c.eq("quotes are equal iff price, volatility and dividend are" + n, s.fork().call(p, "StockData", "operator==", s.ref(q)).val, want, w, u, s)
            c.eq("quotes differ iff they are not equal" + n, s.fork().call(p, "StockData", "operator!=", s.ref(q)).val, t.b_not(want), c.where("StockData", "operator!="), u, s)
        c.holds("a quote equals itself", s.fork().call(a, "StockData", "operator==", s.ref(a)).val, w, u, s)
    c.group("StockData", quotes)
    def options(ka, kb):
        s = c.sess()
        for n in ("S0", "S2", "S3"): s.num(n, pos=True)
        for n in ("v0", "v2", "c0", "d0", "T", "T2", "K", "K2", "K1", "K12", "K22"): s.num(n, nonneg=True)
        e = Env(c, s)
        k2 = t.sym("ticker2")
        oc, h, x = opt(s, "d0")
        S2, v2 = s.num("S2"), s.num("v2")
        s.call(e.md, "MarketData", "addStock", k2, S2, v2, oc); s.st.pc = TRUE
        u = t.b_all(e.valid, ok_price(S2), ok_sigma(v2), ok_coupon(h, x))
        def build(kind, suf, tk, call):
            p = s.new("ParameterObject").val
            vals = {"ticker": ("s", tk), "T": ("d", s.num("T" + suf))}
            for n in kind.par: vals[n] = ("dir", t.sym("direction")) if n == "direction" else ("d", s.num(n if n == "B" else n + suf))
            for n, (k, v) in vals.items(): s.call(p, "ParameterObject", "setParameter", t.mk("str", n), var(k, v))
            s.st.pc = TRUE
            o = s.new(kind.fac).val; s.st.pc = TRUE
            r = s.call(o, kind.fac, "createCallOption" if call else "createPutOption", s.ref(p))
            s.st.pc = TRUE
            nn = t.b_all(t.ge(s.num("T" + suf), 0), *[t.ge(s.num(n + suf), 0) for n in kind.par if n[0] == "K"])
            return r.val, nn, [s.num(n + suf) for n in kind.par if n[0] == "K"]
        for ca, cb in ((True, True), (True, False), (False, False)):
            lab = "%s %s / %s %s: " % (ka.cls, "call" if ca else "put", kb.cls, "call" if cb else "put")
            f = s
            a, na, pa = build(ka, "", e.tk, ca)
            b, nb, pb = build(kb, "2", k2, cb)
            pay = t.boolc(ka.payoff == kb.payoff)
            if ka.payoff == kb.payoff:
                if ka.payoff != "PayoffDoubleDigital" and ca != cb: pay = FALSE
                for p, q in zip(pa, pb): pay = t.b_and(pay, t.eq(p, q))
            w = c.where("Option", "operator==")
            def compare(s, when):
                g = lambda k: Quote(s, s.st, s.fork().call(e.md, "MarketData", "getStockData", k).val)
                want = t.b_all(t.eq(s.num("T"), s.num("T2")), pay, same(g(e.tk), g(k2)))
                uu = t.b_all(u, na, nb)
                for n, p, q in (("", a, b), (" (other order)", b, a)):
                    r = s.fork().call(p, "Option", "operator==", s.ref(q)).val
                    if ka is kb: c.eq(lab + "equal iff maturity, payoff and underlying's quote are%s%s" % (n, when), r, want, w, uu, s)
                    else: c.holds(lab + "equal only if maturity, payoff and underlying's quote are%s%s" % (n, when), t.b_or(t.b_not(t.asbool(r)), want), w, uu, s)
                    if when: return
                    c.eq(lab + "differ iff not equal%s%s" % (n, when), s.fork().call(p, "Option", "operator!=", s.ref(q)).val, t.b_not(t.asbool(r)), c.where("Option", "operator!="), uu, s)
                c.holds(lab + "equal to itself" + when, s.fork().call(a, "Option", "operator==", s.ref(a)).val, w, uu, s)
            compare(s, "")
            f = s.fork()
            f.call(e.md, "MarketData", "updateStockPrice", e.tk, f.num("S3")); f.st.pc = TRUE
            u0, u = u, t.b_and(u, ok_price(s.num("S3")))
            compare(f, " after a re-quote")
            u = u0
    for i, k in enumerate(KINDS):
        c.group(k.cls, lambda: options(k, k))
        c.group(k.cls + "/other", lambda: options(k, KINDS[(i + 1) % len(KINDS)]))

def libfuncs(P):
    """every function of the library with a body, once"""
    out = []
    for k in sorted(P.funcs):
        fn, tu = P.funcs[k]
        d = P.find_def(k)
        if d is None or not d.d["file"].startswith((P.repo + "/src/", P.repo + "/include/")): continue
        out.append((k, d))
    return out

def library_records(P):
    for q, (r, tu) in sorted(P.records.items()):
        if q.startswith(NS) and q == r["qn"] or q.startswith(NS) and "<" in q: yield q, r, tu

@check("C33")
def widths(c):
    from .. import ranges
    c.rule = ranges.RULE
    P = c.P
    byfile = {}
    def functions():
        for k, d in libfuncs(P):
            out, n, _ = ranges.scan(P, k)
            e = byfile.setdefault(c.rel(d.d["file"]), [0, 0, {}])
            e[0] += 1; e[1] += n
            c.analysed.add(k)
            for l, w, kind in out: e[2].setdefault((d.fn["qn"], l, w), 0)
        for f, (nf, n, bad) in sorted(byfile.items()):
            if not bad: c.add("amounts and counts keep their range in " + f, "PROVED", f, "%d functions, %d constructs" % (nf, n))
            for qn, l, w in sorted(bad, key=str):
                at = "%s (%s:%s)" % (qn, f, l)
                c.add("amounts and counts keep their range in " + f, "VIOLATED", at, "", {"construct": w, "at": at})
    c.group("functions", functions)
    def members():
        n, bad = 0, []
        for q, r, tu in library_records(P):
            for f in r.get("fields", []):
                T = tu.types[f["t"]]
                n += 1
                if T["k"] == "f" and T.get("w") == 32 or re.search(r"[<, (]float[ >,)&*]", " " + T["s"] + " "): bad.append("%s::%s is kept in single precision (%s)" % (q, f["n"], T["s"]))
                if T["k"] in "iu" and 1 < T.get("w", 32) < 32 and "char" not in T["s"]: bad.append("%s::%s has %d bits (%s)" % (q, f["n"], T["w"], T["s"]))
        c.fact("no member is narrower than what it holds", not bad, "%d members" % n, "", bad)
    c.group("members", members)

@check("C31")
def lifetimes(c):
    c.rule = "class hierarchy and member types of the resolved program: destructors of interfaces are virtual, members own or share what they keep, smart pointers take over only what nobody owns, and no function hands out a reference into its own frame"
    P = c.P
    def dtors():
        for q, r, tu in library_records(P):
            if not P.subs.get(q) or not r.get("poly"): continue
            c.fact("%s: an object may be destroyed through this interface" % q, bool(r.get("vdtor")) or r.get("dtoraccess", 0) != 0, q, "",
                   "non-virtual public destructor with %d derived classes" % len(P.subs[q]))
    c.group("destructors", dtors)
    def members():
        for q, r, tu in library_records(P):
            bad = [("%s %s" % (tu.types[f["t"]]["s"], f["n"])) for f in r.get("fields", []) if borrowed(tu.types[f["t"]]["s"])]
            c.fact("%s: owns or shares what it keeps" % q, not bad, q, "%d members" % len(r.get("fields", [])), bad)
    c.group("members", members)

    def pointers():
        made, lent, n = [], [], 0
        for k, d in libfuncs(P):
            n += 1
            c.analysed.add(k)
            ty, at = d.tu.types, lambda l: "%s (%s:%s)" % (d.fn["qn"], c.rel(d.d["file"]), l)
            for x in nodes([d.d.get("inits"), d.d["body"]]):
                if x.get("k") == "ctor" and smart(ty[x["t"]]["s"]) and x["args"] and not_owned(d, core(x["args"][0])):
                    made.append(at(x.get("l")))
            if d.fn.get("ret") is not None and re.search(r"[&*]$", ty[d.fn["ret"]]["s"].strip()):
                own = {y["d"]: y for y in nodes(d.d["body"], False) if "k" not in y and "d" in y and "t" in y} | {y["d"]: y for y in d.d["params"] if "d" in y}
                for x in nodes(d.d["body"], False):
                    if x.get("k") != "ret" or x.get("e") is None: continue
                    e = core(x["e"])
                    if e.get("k") == "un" and e.get("op") == "&": e = core(e["e"])
                    if e.get("k") == "call" and isinstance(e.get("obj"), dict) and (e.get("opn") == "*" or d.tu.funcs[e["fn"]]["name"] == "get" if isinstance(e.get("fn"), int) else False):
                        o = core(e["obj"])
                        v = own.get(o.get("d")) if o.get("k") == "ref" else None
                        if v is not None and not v.get("static") and re.match(r"(const )?std::unique_ptr<[^&*]*$", ty[v["t"]]["s"]): lent.append(at(x.get("l")))
                    v = own.get(e.get("d")) if e.get("k") == "ref" else None
                    if v is not None and not v.get("static") and "t" in v and not re.search(r"[&*]", ty[v["t"]]["s"][-2:]): lent.append(at(x.get("l")))
                    if e.get("k") == "mat": lent.append(at(x.get("l")))
        c.fact("no object is owned by two unrelated owners", not made, "%d functions" % n, "", made)
        c.fact("no function hands out a reference into its own frame", not lent, "%d functions" % n, "", lent)
    c.group("pointers", pointers)

def nodes(x, closures=True):
    if isinstance(x, list):
        for y in x: yield from nodes(y, closures)
    elif isinstance(x, dict) and (closures or x.get("k") != "lambda"):
        yield x
        for y in x.values():
            if isinstance(y, (list, dict)): yield from nodes(y, closures)

def core(n):
    while isinstance(n, dict) and n.get("k") in ("cast", "rv", "paren", "bind") and isinstance(n.get("e"), dict): n = n["e"]
    return n

def smart(s): return bool(re.match(r"(const )?std::(shared_ptr|unique_ptr)<", s))

def not_owned(d, e):
    """a pointer to something somebody else owns"""
    if e.get("k") == "this": return True
    if e.get("k") == "un" and e.get("op") == "&": return True
    if e.get("k") == "call" and isinstance(e.get("fn"), int):
        f = d.tu.funcs[e["fn"]]
        return f["name"] == "get" and smart_rec(f)
    return False
def smart_rec(f): return bool(re.search(r"std::(__)?(shared_ptr|unique_ptr)", f["qn"]))

def borrowed(s):
    if re.search(r"\bstd::weak_ptr<", s): return "MarketDataObserver" not in s
    if re.search(r"\bstd::(function|basic_function)<", s): return False
    return bool(re.search(r"[&*]\s*(const)?\s*$|\bstd::(basic_string_view|span|reference_wrapper)<|\bEigen::(Map|Ref)<", s.replace("std::string_view", "std::basic_string_view<"))) or \
        bool(re.search(r"\b(vector|array|map|optional|pair|tuple|deque|list|set)<.*[&*]\s*[,>]", s) and "(" not in s)
