"""Deciding an equality between what the code computes and what the property states.

PROVED    the two value graphs have the same normal form (under the stated assumption)
AGREES    normal forms differ syntactically, but no random interpretation separates them
OPEN      the graph contains constructs outside the analysed fragment: no verdict, no alarm
VIOLATED  a concrete interpretation separates them (reported as the counterexample)
"""
import decimal, itertools, os, random, time
from . import terms as t
from .terms import T, D, TRUE, FALSE
from . import evalt, gates
from .interp import Struct

class Verdict:
    def __init__(self, status, detail="", witness=None, samples=0):
        self.status, self.detail, self.witness, self.samples = status, detail, witness, samples
    def __repr__(self): return "%s(%s)" % (self.status, self.detail)

def _tops(v):
    seen, st = set(), [v]
    while st:
        x = st.pop()
        if isinstance(x, D) and x.id not in seen: seen.add(x.id); st.extend(x.kids)
    return len(seen)

def conflict(code, spec, under):
    """decision graph whose true leaves are the pairs of different leaves of the two graphs: every way
    through its decisions is a situation in which they have to be compared"""
    if not isinstance(code, D) and not isinstance(spec, D): return None
    if _tops(code) * _tops(spec) * max(1, _tops(under)) > 60000: return None
    c = t.apply("conflict", lambda a, b: FALSE if a is b else TRUE, code, spec)
    c = t.b_and(under, c)
    return c if isinstance(c, D) else None

def syms_of(v, acc=None):
    return sorted((x for x in v.free if x.op == "sym"), key=lambda x: str(x.args[0]))

def drawperms(code, spec, limit=48):
    """renamings of the draw families of the code into those of the specification, law by law"""
    fc, fs = evalt.families(code), evalt.families(spec)
    if fc == fs: yield None
    shape = lambda f: (f[0], f[1], sum(x is None for x in f[2]))
    laws = sorted({shape(f) for f in fc | fs}, key=repr)
    per = []
    for L in laws:
        a = sorted([f for f in fc if shape(f) == L], key=repr)
        b = sorted([f for f in fs if shape(f) == L], key=repr)
        if len(a) > 4 or len(b) > 4 or not b or not a:
            per.append([{}]); continue
        opts = []
        if len(a) > len(b):
            for p in itertools.permutations(a, len(b)):      # two families never become one
                if not any(x in b and x not in p for x in a): opts.append(dict(zip(p, b)))
        else:
            for p in itertools.permutations(b, len(a)): opts.append(dict(zip(a, p)))
        per.append(opts)
    seen = 0
    for combo in itertools.product(*per):
        al = {}
        for d in combo: al.update(d)
        if fc == fs and all(k == v for k, v in al.items()): continue
        yield al
        seen += 1
        if seen > limit: return

def equal(code, spec, under=TRUE, I=None, dom=None, samples=300, seed=1, name=""):
    """is code = spec whenever `under` holds?"""
    if isinstance(code, Struct) or isinstance(spec, Struct):
        return Verdict("OPEN", "record value")
    if code is spec: return Verdict("PROVED")
    if under is not TRUE:
        if under is FALSE: return Verdict("PROVED", "vacuous")
        if t.ite(under, code, t.ZERO) is t.ite(under, spec, t.ZERO): return Verdict("PROVED")
    best = None
    for alias in drawperms(code, spec):
        v = sample(code, spec, under, I, dom, samples, seed, alias)
        if v.status != "VIOLATED": return v
        best = best or v
    if best is None:
        best = sample(code, spec, under, I, dom, samples, seed, None)
    return best

SUSPECTS = [20.0] # seconds per check for exact interpretations of small differences
BUDGET = 4.0      # seconds of directed search per obligation
TOTAL = 150.0     # and per check

def sample(code, spec, under, I, dom, samples, seed, alias):
    eff, taint, why = 0, 0, ""
    cover, at, count, first = {}, {}, {}, {}
    last = [None]
    prod = conflict(code, spec, under) if alias is None else None
    def setup(env): env.cover = {}; env.extra = prod; last[0] = env
    for i in range(samples * 6):
        if eff >= samples: break
        if i > samples * 2 and eff == 0 and taint > samples: break
        s = seed * 1000003 + i
        r = one(code, spec, under, I, dom, s, alias, 9, setup)
        if r[0] == "skip": continue
        if r[0] == "taint": taint += 1; why = r[1]; continue
        eff += 1
        for i_, o in last[0].cover.items():
            for q in o:
                n = count[i_, q] = count.get((i_, q), 0) + 1
                if n <= 2: first.setdefault((i_, q), []).append(s)
            if not o <= cover.setdefault(i_, set()): cover[i_] |= o
            l = at.setdefault(i_, [])
            if len(l) < 3: l.append(s)
        if r[0] == "diff":
            # confirm under other roundings of the identity of arguments
            if all(one(code, spec, under, I, dom, s, alias, d)[0] == "diff" for d in (7, 8, 10)) \
                    and stable(lambda f: one(code, spec, under, I, dom, s, alias, 9, f)):
                return Verdict("VIOLATED", "value graphs differ", r[1], eff)
    if eff == 0: return Verdict("OPEN", why or "no sample satisfied the assumption", samples=0)
    global TOTAL
    if TOTAL > 0:
        t0 = time.time()
        a, b = gates.decisions(code), gates.decisions(spec, under)
        pr = {i: v for i, v in gates.tops(prod).items() if i not in b}
        bv = {v.var.id for v in b.values()}
        rank = lambda v: (v.var.id in bv) + (v.id in b) if v.id not in pr else 0.5
        a.update(pr)
        decs = sorted(a.values(), key=lambda v: (rank(v), v.id if v.id not in pr else -v.id)) + [v for i, v in sorted(b.items()) if i not in a]
        d = gates.Directed(one, code, spec, under, I, dom, seed, alias, cover, at, min(BUDGET, max(1.0, TOTAL)), prod, count, first, {i for i in a if i not in b})
        w = d.search(decs, {v.id for v in a.values() if v.var.id not in bv})
        TOTAL -= time.time() - t0
        if w is not None: return Verdict("VIOLATED", "value graphs differ", w, eff + d.reached)
        eff += d.reached
        if os.environ.get("SA_GAPS"):
            for v, o in d.gaps: print("   gap %s outcome %d %s" % (str(v.var.args[0])[:150], o, "" if v.var.id in bv else "FOREIGN"))
            print("   reached %d gaps %d  %.1fs" % (d.reached, len(d.gaps), time.time() - t0))
    return Verdict("AGREES", "%d interpretations%s" % (eff, ", %d reached unmodelled code" % taint if taint else ""), samples=eff)

def stable(run):
    """the two values still differ when the graphs are interpreted with 300 digits: not a matter of rounding"""
    evalt.HP = True
    try:
        with decimal.localcontext(evalt.CTX): return run(lambda env: setattr(env, "deadline", time.time() + 20))[0] == "diff"
    finally: evalt.HP = False

def one(code, spec, under, I, dom, s, alias, digits, setup=None):
    env = evalt.Env(s, I, dom, digits)
    env.maxint = 4 + s % 3
    if setup: setup(env)
    try:
        if under is not TRUE and not evalt.boolean(env, env.ev(under)): return ("skip",)
        b = env.ev(spec)
        b = settle(env, b)
        env.alias = alias
        m = env.memo
        if alias: env.memo = {}
        try:
            a = env.ev(code)
            a = settle(env, a)
        except evalt.Undefd as e:
            return ("diff", {"code": "undefined: %s" % e, "expected": shown(env, b), "inputs": inputs(env, code, spec)})
        eq = evalt.same(env, a, b, env.tol)
        if eq and env.suspect and not env.lossy and not evalt.HP and SUSPECTS[0] > 0:
            t0 = time.time()
            box = [("ok",)]
            def more(e):
                if setup: setup(e)
                e.want, e.touch = None, None
            def run(f):
                box[0] = one(code, spec, under, I, dom, s, alias, digits, lambda e: (more(e), f(e), setattr(e, "deadline", time.time() + 3)))
                return box[0]
            if stable(run): return box[0]
            SUSPECTS[0] -= time.time() - t0
        if eq:
            if env.extra is not None:
                try: env.ev(env.extra)
                except (evalt.Discard, evalt.Undefd, ArithmeticError, evalt.Tainted, RecursionError): pass
            return ("ok",)
        return ("diff", {"code": shown(env, a), "expected": shown(env, b), "inputs": inputs(env, code, spec)})
    except (evalt.Discard, ArithmeticError): return ("skip",)
    except evalt.Tainted as e: return ("taint", str(e))
    except RecursionError: return ("taint", "depth")

def settle(env, x):
    if isinstance(x, evalt.Arr):
        for i in range(int(min(x.n, env.cap))): settle(env, x.get(i))
    if isinstance(x, evalt.Mat):
        for i in range(int(x.r)):
            for j in range(int(x.c)): x.get(i, j)
    return x

def shown(env, x):
    if isinstance(x, evalt.Arr): return [shown(env, x.get(i)) for i in range(int(min(x.n, 8)))]
    if isinstance(x, evalt.Mat): return [[shown(env, x.get(i, j)) for j in range(int(x.c))] for i in range(int(x.r))]
    if isinstance(x, evalt.Opq): x = evalt.num(x)
    if isinstance(x, evalt.Decimal): return float(x)
    if isinstance(x, tuple): return [shown(env, y) if not isinstance(y, (str, tuple)) else y for y in x]
    return x
def inputs(env, *vs):
    out = {}
    for v in vs:
        for a in v.free:
            if a.op == "sym" and "#" not in str(a.args[0]) and a.args[0] != "inf":
                try: out[str(a.args[0])] = shown(env, env.ev(a))
                except Exception: pass
    return out

def always(cond, under=TRUE, I=None, dom=None, samples=300, seed=1):
    """does the boolean graph hold whenever `under` does?"""
    return equal(t.asbool(cond), TRUE, under, I, dom, samples, seed)
