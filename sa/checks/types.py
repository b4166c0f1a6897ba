"""Type-level guarantees: what client programs can and cannot be written against the public headers."""
import os, re, subprocess, tempfile, shutil
from ..chk import check
from ..api import AnchorMissing, NS
from .. import front

def nonconst_methods(P, q):
    return sorted({k for k, (f, tu) in P.funcs.items() if f.get("rec") == q and f["kind"] == "method" and not f.get("static") and not f.get("const")
                   and f["name"] != "operator="})

def ptypes(P, k):
    fn, tu = P.funcs[k]
    return [tu.types[t]["s"] for t in fn["pt"]]

def val(ty):
    return "std::declval<%s>()" % ty

class Tu:
    """a translation unit of named compile-time facts, decided by the compiler's front end"""
    def __init__(self, c):
        self.c, self.items = c, []
    def add(self, name, where, expr): self.items.append((name, where, expr))
    def run(self):
        c = self.c
        repo = front.REPO
        root = os.path.realpath(repo)
        # the library's headers, in the order its own units include them (not all are self-contained)
        out = ["#include <%s>" % h for h in ("type_traits", "utility", "memory", "string", "optional", "vector", "concepts")]
        seen = set()
        src = [f for f in front.source_files(root) if "/multi_factor/" not in f]
        for f in [f for f in src if f.startswith(root + "/src/")] + [None]:
            if f is None: hs = [h for h in src if h.startswith(root + "/include/")]
            else: hs = [os.path.join(d, m) for m in re.findall(r'^[ \t]*#[ \t]*include[ \t]+"([^"]+)"', front.read(f).decode(errors="replace"), re.M) for d in (os.path.dirname(f), root + "/include")]
            for h in hs:
                h = os.path.normpath(h)
                if h not in seen and os.path.exists(h) and h.endswith((".h", ".hpp", ".hxx")):
                    seen.add(h); out.append('#include "%s"' % h)
        out.append('static_assert(sizeof(int) == 0, "FACT -1");')   # shows that the compiler got here
        out.append("""
using namespace OptionPricer;
template<class H> consteval bool readonly() {
    if constexpr (requires(H h) { *h; }) return std::is_const_v<std::remove_reference_t<decltype(*std::declval<H&>())>>;
    else if constexpr (std::is_lvalue_reference_v<H>) return std::is_const_v<std::remove_reference_t<H>>;
    else return true;
}
""")
        for i, (name, where, expr) in enumerate(self.items):
            out.append("template<class X> consteval bool f%d() { return bool(%s); }" % (i, expr))
            out.append('static_assert(f%d<void>(), "FACT %d");' % (i, i))
        d = tempfile.mkdtemp(prefix="sa-w-")
        try:
            p = os.path.join(d, "witness.cpp")
            out = "\n".join(out).split("\n")
            open(p, "w").write("\n".join(out) + "\n")
            cdb = front.compile_commands(os.path.realpath(repo))
            e = next(e for e in cdb if e["file"].startswith(os.path.realpath(repo) + "/src/"))
            e = dict(e, command=e["command"].replace(e["file"], p), file=p)
            a = front.tu_args(e)
            for x in cdb:     # every include path of the library's targets
                b = front.tu_args(x)
                for i, o in enumerate(b):
                    new = [o] if o.startswith("-I") and len(o) > 2 else b[i:i + 2] if o in ("-isystem", "-I") else []
                    if new and " ".join(new) not in " ".join(a): a += new
            r = subprocess.run(["clang++-18", "-fsyntax-only", "-ferror-limit=0"] + a + [p], capture_output=True, text=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if os.environ.get("SA_WIT"): print(r.stderr)
        bad = {}
        other = []
        for m in re.finditer(r"^(\S+?):(\d+):\d+: error: (.*)$", r.stderr, re.M):
            q = re.search(r"static assertion failed.*FACT (-?\d+)", m.group(3))
            if q: bad[int(q.group(1))] = True
            else: other.append(m.group(0)[:300])
        if not bad.pop(-1, None): other.append("the compiler did not reach the witnesses: " + r.stderr[-200:])
        # an error inside one witness leaves that witness undecided; elsewhere, all of them
        und = set()
        for o in other:
            q = re.search(r"witness\.cpp:(\d+):", o)
            ln = int(q.group(1)) - 1 if q else None
            w = re.match(r"template<class X> consteval bool f(\d+)\(|static_assert\(f(\d+)", out[ln]) if ln is not None and ln < len(out) else None
            if w: und.add(int(w.group(1) or w.group(2)))
            else: und |= set(range(len(self.items)))
        for i, (name, where, expr) in enumerate(self.items):
            ok = None if i in und else (i not in bad)
            c.fact(name, ok, where, "compiler: " + expr[:200] if ok is not None else "does not parse: " + "; ".join(other)[:300], {"expression": expr})

@check("C04")
def closed(c):
    c.rule = "compile-time witnesses decided by the compiler's front end on the current headers, generated from the resolved program's constructors and methods"
    P = c.P
    T = Tu(c)
    for q in ("MarketData", "IMarketData", "StockData", "Option", "Payoff", "ParameterObject"):
        if NS + q not in P.records: raise AnchorMissing(q)
    # quotes are handed out read-only
    md, imd, sd, op = (NS + x for x in ("MarketData", "IMarketData", "StockData", "Option"))
    owners = sorted(x for x in P.records if x.startswith(NS) and not x.startswith(NS + "StockData") and "<" not in x and P.records[x][1] is not None)
    handles = []
    for k, (fn, tu) in sorted(P.funcs.items()):
        q = fn.get("rec")
        if q not in owners or fn["kind"] != "method" or fn.get("access", 0) != 0 or fn.get("tmpl"): continue
        rt = tu.types[fn["ret"]]["s"]
        if not re.search(r"\bStockData\b", rt) or re.search(r"\bMarketData\b", rt): continue
        handles.append((k, fn, q))
    for k, fn, q in handles:
        rt = P.funcs[k][1].types[fn["ret"]]["s"]
        c.fact("%s::%s leads to no changeable quote" % (q[len(NS):], fn["name"]), not re.search(r"<[^<>]*(?<!const )OptionPricer::StockData\b(?! const)|(?<!const )OptionPricer::StockData [&*]", rt), c.where(q[len(NS):], fn["name"]), rt, {"returns": rt})
        call = "std::declval<%s&>().%s(%s)" % (q, fn["name"], ", ".join(val(x) for x in ptypes(P, k)))
        w = c.where(q[len(NS):], fn["name"])
        T.add("the quotes %s::%s hands out are read-only" % (q[len(NS):], fn["name"]), w, "readonly<decltype(%s)>()" % call)
        for m in nonconst_methods(P, sd):
            mn = P.funcs[m][0]["name"]
            T.add("no %s through what %s::%s hands out" % (mn, q[len(NS):], fn["name"]), w,
                  "!requires(std::conditional_t<std::is_void_v<X>, decltype(%s), X> h) { h->%s(%s); }" % (call, mn, ", ".join(val(x) for x in ptypes(P, m))))
        T.add("no assignment through what %s::%s hands out" % (q[len(NS):], fn["name"]), w,
              "!requires(std::conditional_t<std::is_void_v<X>, decltype(%s), X> h, const StockData& d) { *h = d; }" % call)
        if fn["name"] == "getStockData": T.add("%s::%s can be read" % (q[len(NS):], fn["name"]), w,
              "requires(std::conditional_t<std::is_void_v<X>, decltype(%s), X> h) { { h->getPrice() } -> std::convertible_to<double>; { h->getSigma() } -> std::convertible_to<double>; h->getCoupon().has_value(); }" % call)
    if not handles: raise AnchorMissing("no function hands out quotes")
    for q in ("MarketData", "StockData"):
        r, tu = P.records[NS + q]
        w = c.where(q)
        if q == "MarketData": c.fact("%s has no public data" % q, not any(f.get("access", 2) == 0 for f in r.get("fields", [])), w, "", {"fields": [f["n"] for f in r.get("fields", []) if f.get("access", 2) == 0]})
        if q == "StockData":
            c.fact("a constant StockData has no part that can change", not any(f.get("mutable") for f in r.get("fields", [])), w, "", {"fields": [f["n"] for f in r.get("fields", []) if f.get("mutable")]})
    # one market: no way to make another
    w = c.where("MarketData")
    X = "std::conditional_t<std::is_void_v<X>, MarketData, X>"
    for what, e in (("made by default", "!std::is_default_constructible_v<%s>" % X), ("copied", "!std::is_copy_constructible_v<%s> && !std::is_constructible_v<%s, MarketData&>" % (X, X)),
                    ("moved", "!std::is_move_constructible_v<%s>" % X), ("copy-assigned", "!std::is_copy_assignable_v<%s> && !std::is_assignable_v<%s&, MarketData&>" % (X, X)),
                    ("move-assigned", "!std::is_move_assignable_v<%s>" % X)):
        T.add("a market cannot be %s by clients" % what, w, e)
    for k in P.ctors(md):
        T.add("a market cannot be constructed from (%s)" % ", ".join(ptypes(P, k)), w, "!std::is_constructible_v<%s>" % ", ".join(["MarketData"] + ptypes(P, k)))
    T.add("a market cannot be made by deriving from it", w, "std::is_final_v<MarketData> || !std::is_default_constructible_v<MarketData>")
    T.add("the market is obtained from getInstance", w, "requires { { std::conditional_t<std::is_void_v<X>, MarketData, X>::getInstance()->getR() } -> std::convertible_to<double>; }")
    T.add("the market can be changed through its updates", w, "requires(std::conditional_t<std::is_void_v<X>, MarketData, X>& m, const std::string& t, double x, std::optional<double> o) { m.addStock(t, x, x); m.addStock(t, x, x, o); m.updateStockPrice(t, x); m.updateStockSigma(t, x); m.updateStockCoupon(t, o); m.setR(x); m.getStockData(t); }")
    # options come from factories only
    for q in sorted(P.all_subs(op)):
        if q not in P.records or "<" in q: continue
        n = q[len(NS):]
        w = c.where(n)
        for k in P.ctors(q):
            ts = ptypes(P, k)
            T.add("%s cannot be created without a factory" % n, w, "!std::is_constructible_v<%s>" % ", ".join([q] + ts))
        T.add("%s cannot be created from nothing, copied, moved or assigned" % n, w,
              "!std::is_default_constructible_v<{0}> && !std::is_copy_constructible_v<{0}> && !std::is_move_constructible_v<{0}> && !std::is_copy_assignable_v<{0}> && !std::is_move_assignable_v<{0}>".format(q))
        T.add("%s shows its payoff read-only" % n, w, "readonly<decltype(std::declval<%s&>().getPayoff())>() && std::is_reference_v<decltype(std::declval<%s&>().getPayoff())>" % (q, q))
    from .options import KINDS
    for kind in KINDS:
        f = kind.fac
        if NS + f not in P.records: continue
        T.add("%s creates calls and puts" % f, c.where(f),
              "requires(std::conditional_t<std::is_void_v<X>, %s, X>& f, const ParameterObject& p) { { f.createCallOption(p) } -> std::convertible_to<std::shared_ptr<Option>>; { f.createPutOption(p) } -> std::convertible_to<std::shared_ptr<Option>>; }" % (NS + f))
    # interfaces cannot be instantiated
    for q in ABSTRACT:
        if NS + q not in P.records: raise AnchorMissing(q)
        T.add("%s is an interface" % q, c.where(q), "std::is_abstract_v<%s>" % (NS + q))
    T.run()

ABSTRACT = ["IMarketData", "MarketDataObserver", "Option", "Payoff", "StockModel", "CIRDiscretization", "Distribution", "NumberGenerator", "BasisFunction", "Regression",
            "Interpolation", "MatrixSolver", "Solver", "PDE::OneFactor::ConvectionDiffusionPDE", "FDM::OneFactor::FDMSolver", "MCPricer", "MCBuilder",
            "AsianMCPricer", "BarrierMCPricer", "LookbackMCPricer"]
