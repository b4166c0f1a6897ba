"""Market data: validity, atomic rejection, notification, the shared instance, observers."""
import re
from ..chk import check
from .. import terms as t, events, lib
from ..terms import TRUE, FALSE, ZERO, ONE, ite, T, D
from ..api import AnchorMissing, NS
from ..interp import Struct

UPD = NS + "MarketDataObserver::update"

def some(v): return Struct("std::optional", {"has": TRUE, "val": v})
NONE = Struct("std::optional", {"has": FALSE, "val": ZERO})

def opt(s, name):
    """an arbitrary optional value"""
    h = t.b_atom(t.sym(name + "_has"))
    return Struct("std::optional", {"has": h, "val": s.num(name)}), h, s.num(name)

def ok_price(S): return t.gt(S, 0)
def ok_sigma(v): return t.ge(v, 0)
def ok_coupon(h, c): return t.b_or(t.b_not(h), t.b_and(t.ge(c, 0), t.le(c, 1)))

class Quote:
    """what a handle on a stock reports"""
    def __init__(self, s, st, h):
        f = s.fork(); f.st = st.copy(); f.st.pc = TRUE
        self.S = f.get(h, "StockData", "getPrice")
        self.v = f.get(h, "StockData", "getSigma")
        c = f.get(h, "StockData", "getCoupon")
        if not isinstance(c, Struct): raise AnchorMissing("optional coupon")
        self.h, self.c = t.asbool(c.fields["has"]), c.fields["val"]

def same_quote(c, name, q, S, v, h, x, where, under, s):
    c.eq(name + ": price", q.S, S, where, under, s)
    c.eq(name + ": volatility", q.v, v, where, under, s)
    c.eq(name + ": dividend presence", q.h, h, where, under, s)
    c.eq(name + ": dividend", ite(q.h, q.c, ZERO), ite(h, x, ZERO), where, under, s)

def market(c):
    s = c.sess()
    s.I.forced.add(UPD)
    md = s.ptr("MarketData", "md", True)
    return s, md

def listed(s, md, tk="tk", suf=""):
    """a market of arbitrary prior content in which ticker tk carries an arbitrary accepted quote"""
    k = t.sym(tk)
    o, h, x = opt(s, "c0" + suf)
    S, v = s.num("S0" + suf), s.num("v0" + suf)
    s.call(md, "MarketData", "addStock", k, S, v, o)
    s.st.pc = TRUE
    acc = t.b_and(t.b_and(ok_price(S), ok_sigma(v)), ok_coupon(h, x))
    return k, S, v, h, x, acc

def updates(s):
    c1, h1, x1 = opt(s, "c1")
    S1, v1 = s.num("S1"), s.num("v1")
    return [("updateStockPrice", [S1], ok_price(S1)), ("updateStockSigma", [v1], ok_sigma(v1)), ("updateStockCoupon", [c1], ok_coupon(h1, x1))]
def after(s, name, old):
    S, v, h, x = old
    n = s.num
    return {"updateStockPrice": (n("S1"), v, h, x), "updateStockSigma": (S, n("v1"), h, x),
            "updateStockCoupon": (S, v, t.b_atom(t.sym("c1_has")), n("c1"))}[name]

@check("C01")
def validity(c):
    c.rule = "acceptance condition of every market-data entry point equals the stated domain; in the state of every exceptional exit all quotes are the ones before the call"
    def ctor():
        s = c.sess()
        o, h, x = opt(s, "c1")
        S, v = s.num("S1"), s.num("v1")
        r = s.new("StockData", S, v, o)
        acc = t.b_and(t.b_and(ok_price(S), ok_sigma(v)), ok_coupon(h, x))
        w = c.where("StockData")
        c.eq("a quote is accepted iff it is valid", r.pc, acc, w, TRUE, s)
        c.eq("an invalid quote is an argument error", r.thrown(s.P, "std::invalid_argument"), t.b_not(acc), w, TRUE, s)
        same_quote(c, "accepted quote", Quote(s, r.st, r.val), S, v, h, x, w, acc, s)
    c.group("StockData", ctor)
    def add(nargs):
        s, md = market(c)
        k = t.sym("tk")
        S, v = s.num("S1"), s.num("v1")
        if nargs == 2: args, h, x = [], FALSE, ZERO
        elif nargs == 3: x = s.num("q1"); args, h = [x], TRUE
        else:
            o, h, x = opt(s, "c1"); args = [o]
        acc = t.b_and(t.b_and(ok_price(S), ok_sigma(v)), ok_coupon(h, x))
        r = s.call(md, "MarketData", "addStock", k, S, v, *args)
        w = c.where("MarketData", "addStock")
        c.eq("addStock/%d accepts exactly valid quotes" % nargs, r.pc, acc, w, TRUE, s)
        c.eq("addStock/%d rejection is an argument error" % nargs, r.thrown(s.P, "std::invalid_argument"), t.b_not(acc), w, TRUE, s)
        f = s.fork(); f.st.pc = TRUE
        g = f.call(md, "MarketData", "getStockData", k)
        c.holds("addStock/%d makes the ticker available" % nargs, t.b_not(g.thrown()), w, acc, s)
        same_quote(c, "addStock/%d" % nargs, Quote(s, g.st, g.val), S, v, h, x, w, acc, s)
    for n in (2, 3, 4): c.group("addStock/%d" % n, lambda: add(n))
    def readd():
        s, md = market(c)
        k, S, v, h, x, acc0 = listed(s, md)
        hd = s.call(md, "MarketData", "getStockData", k).val
        s.st.pc = TRUE
        o, h1, x1 = opt(s, "c1")
        S1, v1 = s.num("S1"), s.num("v1")
        acc = t.b_and(t.b_and(ok_price(S1), ok_sigma(v1)), ok_coupon(h1, x1))
        r = s.call(md, "MarketData", "addStock", k, S1, v1, o)
        w = c.where("MarketData", "addStock")
        c.eq("re-adding a ticker accepts exactly valid quotes", r.pc, acc, w, acc0, s)
        same_quote(c, "handle obtained before a re-add reports the new quote", Quote(s, r.st, hd), S1, v1, h1, x1, w, t.b_and(acc0, acc), s)
        for pc, et, _, st in r.throws:
            if pc is FALSE: continue
            same_quote(c, "rejected re-add leaves the quote", Quote(s, st, hd), S, v, h, x, w, t.b_and(acc0, pc), s)
    c.group("re-add", readd)
    def upd(i):
        s, md = market(c)
        k, S, v, h, x, acc0 = listed(s, md)
        hd = s.call(md, "MarketData", "getStockData", k).val
        s.st.pc = TRUE
        name, args, acc = updates(s)[i]
        w = c.where("MarketData", name)
        r = s.fork().call(md, "MarketData", name, k, *args)
        c.eq("%s accepts exactly valid values" % name, r.pc, acc, w, acc0, s)
        c.eq("%s rejection is an argument error" % name, r.thrown(s.P, "std::invalid_argument"), t.b_not(acc), w, acc0, s)
        new = after(s, name, (S, v, h, x))
        u = t.b_and(acc0, acc)
        same_quote(c, "%s is visible through earlier handles" % name, Quote(s, r.st, hd), *new, w, u, s)
        f = s.fork(); f.st = r.st.copy(); f.st.pc = TRUE
        same_quote(c, "%s is visible through new handles" % name, Quote(s, r.st, f.get(md, "MarketData", "getStockData", k)), *new, w, u, s)
        for pc, et, _, st in r.throws:
            if pc is FALSE: continue
            same_quote(c, "rejected %s leaves the quote" % name, Quote(s, st, hd), S, v, h, x, w, t.b_and(acc0, pc), s)
    for i in range(3): c.group("update %d" % i, lambda: upd(i))
    def unknown(i):
        s, md = market(c)
        k2 = t.sym("other")
        k, S, v, h, x, acc0 = listed(s, md)
        hd = s.call(md, "MarketData", "getStockData", k).val
        s.st.pc = TRUE
        name, args, acc = updates(s)[i]
        w = c.where("MarketData", name)
        g = s.fork().call(md, "MarketData", "getStockData", k2)
        absent = g.thrown(s.P, "std::invalid_argument")
        r = s.fork().call(md, "MarketData", name, k2, *args)
        c.holds("%s of an unlisted ticker is an argument error" % name, r.thrown(s.P, "std::invalid_argument"), w, t.b_and(acc0, absent), s)
        ne = t.b_not(lib.keyeq(k, k2))
        dom = {t.sym("tk"): [("str", "tok0")], t.sym("other"): [("str", "tok1")]}
        c.eq("%s touches no other ticker: price" % name, Quote(s, r.st, hd).S, S, w, t.b_and(acc0, r.pc), s, dom)
        q = Quote(s, r.st, hd)
        c.eq("%s touches no other ticker: volatility" % name, q.v, v, w, t.b_and(acc0, r.pc), s, dom)
        c.eq("%s touches no other ticker: dividend" % name, ite(q.h, q.c, ZERO), ite(h, x, ZERO), w, t.b_and(acc0, r.pc), s, dom)
    for i in range(3): c.group("unlisted %d" % i, lambda: unknown(i))
    def rate():
        s, md = market(c)
        k, S, v, h, x, acc0 = listed(s, md)
        hd = s.call(md, "MarketData", "getStockData", k).val
        s.st.pc = TRUE
        r1 = s.num("r1")
        r = s.call(md, "MarketData", "setR", r1)
        w = c.where("MarketData", "setR")
        c.eq("the rate set is the rate reported", s.fork().get(md, "MarketData", "getR"), r1, w, TRUE, s)
        same_quote(c, "setting the rate leaves quotes", Quote(s, r.st, hd), S, v, h, x, w, acc0, s)
    c.group("rate", rate)
    def equality():
        s = c.sess()
        q = []
        for i in "12":
            o, h, x = opt(s, "c" + i); S, v = s.num("S" + i), s.num("v" + i)
            r = s.new("StockData", S, v, o); s.st.pc = TRUE
            q.append((r.val, S, v, h, x, t.b_and(t.b_and(ok_price(S), ok_sigma(v)), ok_coupon(h, x))))
        a, b = q
        want = t.b_and(t.eq(a[1], b[1]), t.eq(a[2], b[2]))
        want = t.b_and(want, ite(a[3], t.b_and(b[3], t.eq(a[4], b[4])), t.b_not(b[3])))
        u = t.b_and(a[5], b[5])
        c.eq("quotes compare equal iff all their data are", s.fork().get(a[0], "StockData", "operator==", s.ref(b[0])), want, c.where("StockData", "operator=="), u, s)
        c.eq("quotes compare unequal iff some datum differs", s.fork().get(a[0], "StockData", "operator!=", s.ref(b[0])), t.b_not(want), c.where("StockData", "operator!="), u, s)
    c.group("quote equality", equality)

def quote_of(s, md, k):
    """recorder: what the market reports at the moment of a callback"""
    def f(st):
        f2 = s.fork(); f2.st = st; f2.st.pc = TRUE
        h = f2.get(md, "MarketData", "getStockData", k)
        q = Quote(s, f2.st, h)
        r = f2.get(md, "MarketData", "getR")
        return t.apply("quote", lambda *xs: t.mk("tup", "quote", ("S", "c", "h", "r", "v"), *xs), q.S, ite(q.h, q.c, ZERO), ite(q.h, ONE, ZERO), r, q.v)
    return f

@check("C02")
def notification(c):
    c.rule = "callback trace of every mutator: each live registered observer of the affected ticker is called exactly once per registration, after the new value is readable; others never; failed mutators call nobody"
    dom = {t.sym("tk"): [("str", "tok0")]}
    TIMES = (t.const(2), ONE)
    def sid(s, ob):
        return s.fork().get(ob, "MarketDataObserver", "getID")
    def base():
        s, md = market(c)
        k, S, v, h, x, acc0 = listed(s, md)
        obs = [s.ptr("MarketDataObserver", "ob%d" % i) for i in (1, 2)]
        for o in obs + obs[:1]: s.call(md, "MarketData", "addObserver", o)      # the first one twice
        s.st.pc = TRUE
        n0 = len(s.st.trace)
        return s, md, k, (S, v, h, x), acc0, obs, n0
    def upd(i):
        s, md, k, old, acc0, obs, n0 = base()
        if i < 3: name, args, acc = updates(s)[i]
        else:
            o, h1, x1 = opt(s, "c1"); S1, v1 = s.num("S1"), s.num("v1")
            name, args, acc = "addStock", [S1, v1, o], t.b_and(t.b_and(ok_price(S1), ok_sigma(v1)), ok_coupon(h1, x1))
        w = c.where("MarketData", name)
        s.I.watch = quote_of(s, md, k)
        r = s.fork().call(md, "MarketData", name, k, *args)
        s.I.watch = None
        tr = r.st.trace[n0:]
        new = after(s, name, old) if i < 3 else (s.num("S1"), s.num("v1"), t.b_atom(t.sym("c1_has")), s.num("c1"))
        u = t.b_and(acc0, acc)
        for j, ob in enumerate(obs):
            alive = t.b_atom(t.mk("alive", ob))
            match = lib.keyeq(sid(s, ob), k)
            c.eq("%s notifies observer %d once per registration iff alive and watching the ticker" % (name, j + 1),
                 events.count(tr, UPD, ob), ite(t.b_and(alive, match), TIMES[j], ZERO), w, u, s, dom)
        want = t.apply("quote", lambda *xs: t.mk("tup", "quote", ("S", "c", "h", "v"), *xs), new[0], ite(new[2], new[3], ZERO), ite(new[2], ONE, ZERO), new[1])
        def seen(x):
            g = lambda n: t.apply(("prjq", n), lambda y: y.args[2 + y.args[1].index(n)] if y.op == "tup" else t.poly(t.mk("prj", n, y)), x[-1])
            ok = TRUE
            for n, val in (("S", new[0]), ("v", new[1]), ("h", ite(new[2], ONE, ZERO)), ("c", ite(new[2], new[3], ZERO))):
                ok = t.b_and(ok, t.eq(g(n), val))
            return ok
        c.holds("%s: observers are called when the new quote is already readable" % name, events.every(tr, UPD, seen), w, u, s, dom)
        for pc, et, _, st in r.throws:
            if pc is FALSE: continue
            for j, ob in enumerate(obs):
                c.eq("rejected %s notifies nobody (%d)" % (name, j + 1), events.count(st.trace[n0:], UPD, ob), ZERO, w, t.b_and(acc0, pc), s, dom)
    for i in range(4): c.group("update %d" % i, lambda: upd(i))
    def rate():
        s, md, k, old, acc0, obs, n0 = base()
        r1 = s.num("r1")
        s.I.watch = quote_of(s, md, k)
        r = s.fork().call(md, "MarketData", "setR", r1)
        s.I.watch = None
        w = c.where("MarketData", "setR")
        tr = r.st.trace[n0:]
        for j, ob in enumerate(obs):
            c.eq("a rate change notifies live observer %d once per registration, whatever its ticker" % (j + 1), events.count(tr, UPD, ob),
                 ite(t.b_atom(t.mk("alive", ob)), TIMES[j], ZERO), w, acc0, s, dom)
        def seen(x):
            return t.eq(t.apply("prjr", lambda y: y.args[2 + y.args[1].index("r")] if y.op == "tup" else t.poly(t.mk("prj", "r", y)), x[-1]), r1)
        c.holds("observers of a rate change already read the new rate", events.every(tr, UPD, seen), w, acc0, s, dom)
    c.group("rate", rate)
    def explicit():
        s, md, k, old, acc0, obs, n0 = base()
        w = c.where("MarketData", "notifyObserver")
        tr = s.fork().call(md, "MarketData", "notifyObserver", k).st.trace[n0:]
        for j, ob in enumerate(obs):
            alive = t.b_atom(t.mk("alive", ob))
            c.eq("notifying a ticker reaches observer %d once per registration iff alive and watching it" % (j + 1), events.count(tr, UPD, ob),
                 ite(t.b_and(alive, lib.keyeq(sid(s, ob), k)), TIMES[j], ZERO), w, acc0, s, dom)
        tr = s.fork().call(md, "MarketData", "notifyObservers").st.trace[n0:]
        for j, ob in enumerate(obs):
            c.eq("notifying everybody reaches live observer %d once per registration" % (j + 1), events.count(tr, UPD, ob),
                 ite(t.b_atom(t.mk("alive", ob)), TIMES[j], ZERO), c.where("MarketData", "notifyObservers"), acc0, s, dom)
    c.group("explicit", explicit)

@check("C03")
def one_instance(c):
    c.rule = "value graph of the accessor: two calls yield the same non-null object; lock-set of every access to mutable static storage on the accessor's path is non-empty"
    def g():
        s = c.sess()
        a = s.static("MarketData", "getInstance")
        na = len(s.I.gaccess)
        b = s.static("MarketData", "getInstance")
        w = c.where("MarketData", "getInstance")
        c.eq("two requests return the same market", events.peq(a.val, b.val), TRUE, w, TRUE, s)
        c.holds("the market returned is never null", s.I.truthy(b.val, s.st), w, TRUE, s)
        c.holds("obtaining the market cannot fail", t.b_not(t.b_or(a.thrown(), b.thrown())), w, TRUE, s)
        s.call(a.val, "MarketData", "setR", s.num("r1"))
        d = s.static("MarketData", "getInstance")
        c.eq("data set through one handle is read through another", s.get(d.val, "MarketData", "getR"), s.num("r1"), w, TRUE, s)
        acc = [x for x in s.I.gaccess if x[3] is not FALSE]
        vars_ = sorted({x[0] for x in acc})
        n = 0
        for v in vars_:
            if "static:" in v: continue      # initialisation of a function-local static is synchronised by the language
            if s.P.globals.get(v) and "mutex" in s.P.globals[v][1].types[s.P.globals[v][0]["t"]]["s"]: continue
            if s.P.globals.get(v) and "atomic" in s.P.globals[v][1].types[s.P.globals[v][0]["t"]]["s"]: continue
            bad = [x for x in acc if x[0] == v and not x[2]]
            n += 1
            c.fact("every access to %s is made under a lock" % v, not bad, w, "%d accesses" % len([x for x in acc if x[0] == v]),
                   {"unlocked": ["%s of %s when %s" % ("write" if x[1] == "w" else "read", v, x[3]) for x in bad[:4]]})
            ls = [frozenset(x[2]) for x in acc if x[0] == v and x[2]]
            if ls:
                common = frozenset.intersection(*ls)
                c.fact("one lock protects %s" % v, bool(common), w, "locks %s" % sorted(map(str, common)))
    c.group("accessor", g)
    def writers():
        # who else touches the storage of the instance
        P = c.P
        insts = [q for q, (gl, tu) in P.globals.items() if "shared_ptr" in tu.types[gl["t"]]["s"] and "MarketData" in tu.types[gl["t"]]["s"] or
                 "unique_ptr" in tu.types[gl["t"]]["s"] and "MarketData" in tu.types[gl["t"]]["s"]]
        found = []
        for q in insts:
            for k, df in P.defs.items():
                if uses_global(df.d, q): found.append((q, df))
        n = 0
        for q, df in found:
            n += 1
            c.fact("%s is reached only through the accessor (%s)" % (q, df.fn["qn"]), df.fn["name"] == "getInstance" or df.fn.get("access") != "public" or None,
                   "%s (%s)" % (df.fn["qn"], c.rel(df.loc)))
    c.group("writers", writers)

def uses_global(x, q):
    if isinstance(x, dict):
        if x.get("g") == q: return True
        return any(uses_global(v, q) for v in x.values())
    if isinstance(x, list): return any(uses_global(v, q) for v in x)
    return False

@check("C05")
def observers(c):
    c.rule = "callback traces across registration, clean-up and destruction; type-level ownership of the observer list"
    dom = {t.sym("tk"): [("str", "tok0")]}
    def cleanup():
        s, md = market(c)
        k, S, v, h, x, acc0 = listed(s, md)
        ob = [s.ptr("MarketDataObserver", "ob%d" % i) for i in (1, 2, 3)]
        for o in ob[:2]: s.call(md, "MarketData", "addObserver", o)
        s.call(md, "MarketData", "removeObserver")
        s.call(md, "MarketData", "addObserver", ob[2])
        s.st.pc = TRUE
        n0 = len(s.st.trace)
        tr = s.fork().call(md, "MarketData", "notifyObservers").st.trace[n0:]
        w = c.where("MarketData", "removeObserver")
        for j, o in enumerate(ob):
            c.eq("after clean-up live observer %d is still notified exactly once and a dead one never" % (j + 1), events.count(tr, UPD, o),
                 ite(t.b_atom(t.mk("alive", o)), ONE, ZERO), w, acc0, s, dom)
        bad = FALSE
        for f in s.I.faults: bad = t.b_or(bad, f[0])
        c.holds("no null observer is dereferenced", t.b_not(bad), w, acc0, s, dom)
    c.group("clean-up", cleanup)
    def own():
        P = c.P
        q = NS + "MarketData"
        if q not in P.records: raise AnchorMissing("class MarketData")
        bad, seen = [], 0
        obs = {x for x in P.all_subs(NS + "MarketDataObserver")}
        for r in [q] + P.bases.get(q, []):
            if r not in P.records: continue
            rec, tu = P.records[r]
            for f in rec["fields"]:
                s = tu.types[f["t"]]["s"]
                seen += 1
                if re.search(r"(shared_ptr|unique_ptr)<(const )?(%s)[>,]" % "|".join(re.escape(o) for o in obs), s): bad.append("%s %s" % (s, f["n"]))
        c.fact("the market does not keep observers alive", not bad, q, "%d members" % seen, bad)
    c.group("ownership", own)
