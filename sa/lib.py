"""Meaning of the library functions the code base uses (std, Eigen, Boost), as operations on
value graphs.  Anything not listed becomes an explicit unknown that taints what depends on it."""
from fractions import Fraction as F
import re
from . import terms as t
from .terms import T, D, TRUE, FALSE, NULL, ZERO, ONE
from .interp import Struct, Lval, Clo, SMART, STRINGS, ARRAYS, MAPS, eigen_shape

MATS = set()

# ------------------------------------------------------------------ matrices
def is_mat(x): return isinstance(x, T) and (x in MATS or x.op in ("rows", "cols", "mat0", "spmat"))
def anymat(v): return isinstance(v, (T, D)) and any(is_mat(x) for x in t.leaves(v))

def rowsof(M): return t.apply("rowsof", _rowsof, M)
def colsof(M): return t.apply("colsof", _colsof, M)
def _rowsof(M):
    if M.op == "rows": return M.args[0]
    r = t.mk("rowsof", M); t.NONNUM.add(r); return r
def _colsof(M):
    if M.op == "cols": return M.args[0]
    r = t.mk("colsof", M); t.NONNUM.add(r); return r
def mkrows(a): return t.apply("mkrows", _mkrows, a)
def mkcols(a): return t.apply("mkcols", _mkcols, a)
def _mkrows(a): return a.args[0] if a.op == "rowsof" else t.mk("rows", a)
def _mkcols(a): return a.args[0] if a.op == "colsof" else t.mk("cols", a)
def mrows(M): return t.apply("mrows", _mrows, M)
def mcols(M): return t.apply("mcols", _mcols, M)
def _inner(a):
    while a.op in ("upd", "amap", "arec"): a = a.args[1] if a.op == "arec" else a.args[0]
    if a.op == "rec":
        i = a.args[3][a.args[2]]
        if isinstance(i, T): return _inner(i)
    if a.op == "lam": return t.alen(t.inst1(a, ZERO))
    if a.op == "rowsof": return mcols(a.args[0])
    if a.op == "colsof": return mrows(a.args[0])
    return t.alen(t.sel(a, ZERO))
def _mrows(M):
    if M.op == "rows": return t.alen(M.args[0])
    if M.op == "cols": return _inner(M.args[0])
    if M.op in ("mat0", "spmat"): return M.args[-2]
    if M.op == "rec" and isinstance(M.args[3][M.args[2]], T): return mrows(M.args[3][M.args[2]])
    return t.poly(t.mk("mrows", M, isint=True))
def _mcols(M):
    if M.op == "cols": return t.alen(M.args[0])
    if M.op == "rows": return _inner(M.args[0])
    if M.op in ("mat0", "spmat"): return M.args[-1]
    if M.op == "rec" and isinstance(M.args[3][M.args[2]], T): return mcols(M.args[3][M.args[2]])
    return t.poly(t.mk("mcols", M, isint=True))
t.REBUILD.update(rowsof=rowsof, colsof=colsof, rows=mkrows, cols=mkcols, mrows=mrows, mcols=mcols)

def at2(M, i, j):
    def f(m, i, j):
        if m.op == "cols": return t.sel(t.sel(m.args[0], j), i)
        if m.op == "rows": return t.sel(t.sel(m.args[0], i), j)
        return t.poly(t.mk("sel2", m, i, j))
    return t.apply("at2", f, M, t.num(i), t.num(j))
t.sel2 = at2
def _selhook(a, i):
    """sel(sel(rowsof M, r), c)"""
    if a.op == "sel" and a.args[0].op == "rowsof": return at2(a.args[0].args[0], a.args[1], i)
    if a.op == "sel" and a.args[0].op == "colsof": return at2(a.args[0].args[0], i, a.args[1])
    if a.op == "rowsof":
        M = a.args[0]
        if M.op == "cols":
            j = t.fresh("c", True); t.NONNEG.add(j)
            return t.Lam(mcols(M), j, t.sel(t.sel(M.args[0], t.poly(j)), i))
    if a.op == "colsof":
        M = a.args[0]
        if M.op == "rows":
            j = t.fresh("c", True); t.NONNEG.add(j)
            return t.Lam(mrows(M), j, t.sel(t.sel(M.args[0], t.poly(j)), i))
    if a.op == "cat":
        n0 = t.alen(a.args[0])
        return t.ite(t.cmp("<", i, n0), t.sel(a.args[0], i), t.sel(a.args[1], t.sub(i, n0)))
    return None
t.SELHOOK = _selhook
def _lenhook(a):
    if a.op == "sel" and a.args[0].op == "rowsof": return mcols(a.args[0].args[0])
    if a.op == "sel" and a.args[0].op == "colsof": return mrows(a.args[0].args[0])
    if a.op == "rowsof": return mrows(a.args[0])
    if a.op == "colsof": return mcols(a.args[0])
    if a.op == "cat": return t.add(t.alen(a.args[0]), t.alen(a.args[1]))
    if a.op == "linsolve" or a.op == "lsq": return mcols(a.args[0])
    if a.op == "svdfit": return mcols(a.args[0].args[0])
    if a.op == "arr0": return a.args[0]
    if a.op == "rec":
        # a recurrence over arrays whose steps keep the length
        i = a.args[3][a.args[2]]
        b = a.args[4][a.args[2]]
        if isinstance(i, T) and all(keeps_len(x, a.args[0], a.args[2]) for x in t.leaves(b)): return t.alen(i)
    for r in LENRULES:
        v = r(a)
        if v is not None: return v
    return None
def keeps_len(x, h, which):
    while x.op in ("upd", "amap"): x = x.args[0]
    return x.op == "bv" and x.args[0] == h and x.args[1] == which + 1
LENRULES = []
t.LENHOOK = _lenhook

def concat(a, b):
    def f(x, y):
        if x is t.NIL: return y
        if y is t.NIL: return x
        return t.mk("cat", x, y)
    return t.apply("cat", f, a, b)
t.REBUILD["cat"] = concat

def mat_get(I, M, s):
    k = s[0]
    if k == "row": return t.sel(rowsof(M), s[1])
    if k == "col": return t.sel(colsof(M), s[1])
    if k == "ij": return at2(M, s[1], s[2])
    if k == "diag":
        i = t.fresh("g", True); t.NONNEG.add(i)
        return t.Lam(t.minv(mrows(M), mcols(M)), i, at2(M, t.poly(i), t.poly(i)))
    return I.unk("matrix " + k)
def mat_set(I, M, s, v):
    k = s[0]
    if k == "row": return mkrows(t.upd(rowsof(M), s[1], v))
    if k == "col": return mkcols(t.upd(colsof(M), s[1], v))
    if k == "ij":
        cols = all(x.op == "cols" for x in t.leaves(M))
        if cols: return mkcols(t.upd(colsof(M), s[2], t.upd(t.sel(colsof(M), s[2]), s[1], v)))
        return mkrows(t.upd(rowsof(M), s[1], t.upd(t.sel(rowsof(M), s[1]), s[2], v)))
    if k == "diag":
        i, j = t.fresh("g", True), t.fresh("g", True)
        t.NONNEG.add(i); t.NONNEG.add(j)
        return mkrows(t.Lam(mrows(M), i, t.Lam(mcols(M), j, t.ite(t.cmp("==", t.poly(i), t.poly(j)), t.num(t.sel(v, t.poly(i))), at2(M, t.poly(i), t.poly(j))))))
    return I.unk("matrix store " + k)
def mat_flat(I, M, n): return I.unk("flat matrix")

# ------------------------------------------------------------------ maps
def keyeq(a, b):
    def f(x, y):
        if x is y: return TRUE
        if x.op == "str" and y.op == "str": return FALSE
        if x.op == "poly" or y.op == "poly": return t.cmp("==", x, y)
        if x.id > y.id: x, y = y, x
        return t.b_atom(t.mk("streq", x, y))
    return t.apply("streq", f, a, b)
def mhas(m, k):
    def f(m, k):
        if m.op == "mempty": return FALSE
        if m.op == "mput": return t.b_or(keyeq(m.args[1], k), mhas(m.args[0], k))
        return t.b_atom(t.mk("mhas", m, k))
    return t.apply("mhas", f, m, k)
MAPELEM = {}     # map atom -> pointee class of its values
def mget(I, m, k):
    def f(m, k):
        if m.op == "mput":
            return t.ite(keyeq(m.args[1], k), m.args[2], mget(I, m.args[0], k))
        if m.op == "mempty": return NULL
        r = t.mk("mget", m, k)
        c = map_class(I, m)
        if c:
            I.ptype[r] = c
            I.nonnull.add(r)
        return r
    return t.apply("mget", f, m, k)
def map_class(I, m):
    if m.op == "fld":
        ty, tu = I.field_type(None, m.args[1])
        if ty is not None:
            ta = ty.get("targs") or []
            if len(ta) > 1:
                s = str(ta[1])
                for w in ("std::shared_ptr<", "std::unique_ptr<"):
                    if s.startswith(w): return s[len(w):].rstrip("> ").replace("const ", "").strip()
    return None
def mput(I, m, k, v):
    def f(m, k):
        if m.op == "mput" and m.args[1] is k: m = m.args[0]
        return t.mk("mput", m, k, v)
    return t.apply(("mput", v.id), f, m, k)

# ------------------------------------------------------------------ iterators
def as_iter(I, v):
    if isinstance(v, Struct): return v
    if isinstance(v, T) and v.op == "lref":
        lv = I.lrefs[v]
        if lv.path and lv.path[-1][0] == "i":
            return Struct("iter", {"c": I.lref(Lval(lv.root, lv.path[:-1])), "i": lv.path[-1][1]})
    return v
def iter_arith(I, op, a, b):
    op = op.replace("=", "") if op in ("+=", "-=") else op
    if isinstance(a, Struct) and a.cls == "iter":
        if isinstance(b, Struct) and b.cls == "iter":
            if op == "-": return t.sub(a.fields["i"], b.fields["i"])
            return I.unk("iterator op")
        if isinstance(b, (T, D)):
            return a.set("i", t.add(a.fields["i"], b) if op == "+" else t.sub(a.fields["i"], b))
    if isinstance(b, Struct) and b.cls == "iter" and op == "+" and isinstance(a, (T, D)):
        return b.set("i", t.add(b.fields["i"], a))
    return I.unk("iterator arithmetic")
def tied(I, v, st):
    if not (isinstance(v, Struct) and v.cls == "std::tie"): return v
    d = {}
    for i, p in v.fields.items():
        x = I.load(st, I.deref(p))
        if isinstance(x, Struct) and x.cls not in ("std::optional", "std::pair", "std::tuple"): x = I.unk("tied " + x.cls)
        d[i] = x
    return Struct("std::tuple", d)

def struct_cmp(I, op, a, b):
    if a.cls == "iter" and b.cls == "iter":
        return t.cmp(op, a.fields["i"], b.fields["i"])
    if a.cls == "miter" and b.cls == "miter":
        if b.fields["end"] is TRUE: e = a.fields["end"]
        elif a.fields["end"] is TRUE: e = b.fields["end"]
        else: return I.unk("map iterator comparison")
        return e if op == "==" else t.b_not(e)
    if op in ("==", "!=") and a.cls == b.cls:
        a, b = I.materialise(a), I.materialise(b)
        if a.cls == "std::optional":    # equal: both empty, or both hold equal values
            ha, hb = t.asbool(I.getf(a, "has")), t.asbool(I.getf(b, "has"))
            x, y = I.getf(a, "val"), I.getf(b, "val")
            if isinstance(x, Struct) and isinstance(y, Struct): q = struct_cmp(I, "==", x, y)
            elif isinstance(x, (T, D)) and isinstance(y, (T, D)): q = valeq(I, x, y)
            else: return I.unk("comparison")
            both = t.b_and(ha, hb)
            r = t.b_or(t.b_and(both, q), t.b_and(t.b_not(ha), t.b_not(hb)))
            return r if op == "==" else t.b_not(r)
        r = TRUE
        for n in sorted(set(a.fields) | set(b.fields)):
            x, y = I.getf(a, n), I.getf(b, n)
            if isinstance(x, Struct) and isinstance(y, Struct): q = struct_cmp(I, "==", x, y)
            elif isinstance(x, (T, D)) and isinstance(y, (T, D)): q = valeq(I, x, y)
            else: return I.unk("comparison")
            r = t.b_and(r, q)
        return r if op == "==" else t.b_not(r)
    return I.unk("struct comparison")
def valeq(I, x, y):
    def f(a, b):
        if a is b: return TRUE
        if a in (TRUE, FALSE) or b in (TRUE, FALSE):
            if b in (TRUE, FALSE): a, b = b, a
            if b in (TRUE, FALSE): return FALSE
            return t.b_atom(b) if a is TRUE else t.b_not(t.b_atom(b))
        if a.op == "poly" or b.op == "poly": return t.cmp("==", t.num(a), t.num(b))
        if a.op in ("str",) and b.op in ("str",): return FALSE
        if a.op == "ti" and b.op == "ti": return FALSE
        if a.op == "enumc" and b.op == "enumc": return FALSE
        if a.id > b.id: a, b = b, a
        return t.b_atom(t.mk("veq", a, b))
    return t.apply("veq", f, x, y)

# ------------------------------------------------------------------ pointers
def dyncast(I, p, cls, st):
    cls = (cls or "").replace("const ", "").strip()
    if cls not in I.prog.records: return I.unk("dynamic cast to " + cls)
    def f(x):
        if x is NULL: return NULL
        c = I.exact_class(x, st)
        if c is not None and (x.op in ("obj", "lref") or x in I.exact):
            return x if I.prog.derives(c, cls) else NULL
        pt = I.ptype.get(x)
        if pt and pt in I.prog.records and I.prog.derives(pt, cls): return x
        if pt and pt in I.prog.records:
            if not any(I.prog.derives(c2, cls) for c2 in I.prog.concrete(pt)): return NULL
        return t.ite(t.b_atom(t.mk("isa", x, cls)), x, NULL)
    if not isinstance(p, (T, D)): return I.unk("dynamic cast")
    return I.lift_ptr(p, f)

def moved(I, fn, args, st):
    """value of args[0]; a moved-from smart pointer becomes null"""
    a = args[0]
    v = I.rval(a, st)
    return v
def take(I, fn, ftu, a, st, i=0):
    v = I.rval(a, st)
    if isinstance(a, Lval) and st.pc is not FALSE:
        p = ftu.types[fn["pt"][i]]
        if p.get("ref") == "&&" and isinstance(v, (T, D)):
            I.store(st, a, NULL)
    return v

def strip_ty(s): return str(s).replace("const ", "").replace("&", "").strip()

def arg_score(I, a, v, pty, ptu, st):
    """0 impossible, else goodness of passing value v for parameter type"""
    if pty.get("ref"): pty = ptu.types[pty["to"]]
    k = I.tkind(pty)
    if isinstance(v, Clo): return 1
    if isinstance(v, Struct):
        if v.cls == "std::optional": return 3 if k == "opt" else 0
        if k == "opt": return 1 if v.cls == "std::optional" else 0
        if k == "rec": return 3 if I.prog.derives(v.cls, pty["rec"]) else 0
        return 1 if k in ("o", "var") else 0
    if not isinstance(v, (T, D)): return 0
    ls = t.leaves(v)
    if k in ("f", "i", "u"):
        return 3 if any(x.op == "poly" for x in ls) else (1 if all(x in (TRUE, FALSE) for x in ls) else 0)
    if k == "opt": return 2 if any(x.op == "poly" for x in ls) else 0
    if any(x.op == "poly" for x in ls): return 0
    if k == "b": return 2
    if k == "s": return 2 if any(x.op in ("str", "cat", "strcat") for x in ls) or all(x not in I.ptype for x in ls) else 0
    if k == "p":
        want = I.pointee(pty, ptu)
        sc = 2
        for x in ls:
            if x.op in ("str",): return 0
            c = I.exact_class(x, st) if x.op in ("obj",) or x in I.exact else I.ptype.get(x)
            if c and want and want in I.prog.records and c in I.prog.records and not I.prog.derives(c, want): return 0
        return sc
    return 1

def pick_ctor(I, cls, args, st, fr):
    n = len(args)
    vals = [I.rval(a, st) for a in args]
    seen = set()
    c = cls
    while c is not None and c not in seen:
        seen.add(c)
        best = None
        for key in I.prog.ctors(c):
            fn, tu = I.prog.funcs[key]
            if not (fn["min"] <= n <= len(fn["pt"])): continue
            sc = 1
            for a, v, p in zip(args, vals, fn["pt"]):
                s1 = arg_score(I, a, v, tu.types[p], tu, st)
                if s1 == 0: sc = 0; break
                sc += s1
            if sc and (best is None or sc > best[0]): best = (sc, key)
        if best: return best[1], c
        bs = I.prog.bases.get(c, [])
        c = bs[0] if bs and bs[0] in I.prog.records else None
    return None, None

def make(I, cls, args, st, fr, mfn=None):
    from .interp import Frame
    if cls not in I.prog.records:
        return I.unk("make " + cls)
    I.nobj += 1
    p = t.mk("obj", I.nobj, cls)
    if len(args) == 1:
        v = I.rval(args[0], st)
        if isinstance(v, Struct) and I.prog.derives(v.cls, cls):
            cp = [k for k, (fn, tu) in I.prog.funcs.items() if fn["kind"] == "ctor" and fn.get("rec") == cls and fn.get("copy")]
            st.mem[p] = Struct(cls, {}, None)
            if cp and I.prog.find_def(cp[0], fr.tu):
                fn, tu = I.prog.funcs[cp[0]]
                I.construct(fn, p, args, st, fr, cls)
            else:
                v = I.materialise(v)
                names = set(I.all_fields(cls))
                st.mem[p] = Struct(cls, {n: x for n, x in v.fields.items() if n in names}, p)
            return p
    key, owner = pick_ctor(I, cls, args, st, fr)
    st.mem[p] = Struct(cls, {}, None)
    if key is None:
        if not args:
            I.default_fields(cls, p, st, True)
            return p
        return I.unk("constructor of " + cls)
    fn, tu = I.prog.funcs[key]
    df = I.prog.find_def(key)
    fr2 = Frame(df.tu if df else tu, fr.this, fr.defn)
    if mfn:     # forwarded: a parameter taken by value is move-constructed from an rvalue argument, which becomes null
        args = list(args)
        for i, a in enumerate(args):
            if i < len(mfn["pt"]) and i < len(fn["pt"]) and isinstance(a, Lval) and fr.tu.types[mfn["pt"][i]].get("ref") == "&&":
                pt = tu.types[fn["pt"][i]]
                if not pt.get("ref") and pt["s"].replace("const ", "").startswith(("std::shared_ptr", "std::unique_ptr", "std::weak_ptr")):
                    v = I.rval(a, st)
                    if isinstance(v, (T, D)): I.store(st, a, NULL); args[i] = v
    I.construct(fn, p, args, st, fr2, cls)
    chain = []
    c = cls
    while c != owner:
        chain.append(c)
        c = I.prog.bases[c][0]
    for c in reversed(chain):       # an inherited constructor: bases first, then the class's own member initialisers
        if st.pc is not FALSE: I.default_fields(c, p, st)
    return p

# ------------------------------------------------------------------ constructors
DISTS = {"std::normal_distribution": ("a", "b"), "std::exponential_distribution": ("a",), "std::gamma_distribution": ("a", "b"),
         "std::uniform_real_distribution": ("a", "b"), "std::poisson_distribution": ("a",),
         "std::uniform_int_distribution": ("a", "b"), "std::lognormal_distribution": ("a", "b"), "std::bernoulli_distribution": ("a",)}
DIST_DEF = {"std::normal_distribution": (ZERO, ONE), "std::exponential_distribution": (ONE,), "std::gamma_distribution": (ONE, ONE),
            "std::uniform_real_distribution": (ZERO, ONE), "std::poisson_distribution": (ONE,),
            "std::uniform_int_distribution": (ZERO, ZERO), "std::lognormal_distribution": (ZERO, ONE), "std::bernoulli_distribution": (t.const(F(1, 2)),)}

def vnum(I, v):
    if isinstance(v, Struct) and v.cls in ("Earr", "Erow"): v = v.fields["v"]
    return t.num(v) if isinstance(v, (T, D)) else I.unk("number")

def ctor(I, e, fn, ty, args, st, fr):
    rec = fn.get("rec") or ty.get("rec") or ""
    ftu = fr.tu
    n = len(args)
    if rec in SMART:
        if n == 0: return NULL
        return take(I, fn, ftu, args[0], st)
    if rec in STRINGS:
        if n == 0: return t.mk("str", "")
        v = I.rval(args[0], st)
        return v if isinstance(v, (T, D)) else I.unk("string")
    if rec.startswith("std::") and rec in EXC:
        m = I.rval(args[0], st) if n else t.mk("str", "")
        return t.mk("exc", rec) if not isinstance(m, T) else t.mk("exc", rec, m)
    if rec in ("std::vector", "std::valarray", "std::deque", "std::list"):
        if n == 0: return t.NIL
        if fn.get("copy") or fn.get("move"):
            v = I.rval(args[0], st)
            if fn.get("move") and isinstance(args[0], Lval) and st.pc is not FALSE: I.store(st, args[0], t.NIL)
            return v
        a0 = I.rval(args[0], st)
        pt = [ftu.types[x] for x in fn["pt"]]
        if isinstance(a0, Struct) and a0.cls == "iter":
            lv, lo, cnt = rng(I, a0, I.rval(args[1], st))
            arr = I.load(st, lv)
            k = t.fresh("g", True); t.NONNEG.add(k)
            r = t.Lam(cnt, k, t.sel(arr, t.add(lo, t.poly(k))))
            return r
        if "initializer_list" in pt[0]["s"]:
            return a0
        if pt[0]["k"] in "iu" or pt[0]["s"].endswith("size_type"):
            m = vnum(I, a0)
            et = str((ty.get("targs") or ["double"])[0])
            if n >= 2 and pt[1]["s"].find("allocator") < 0:
                v = I.totermv(I.rval(args[1], st))
            else: v = zero_of(I, et)
            k = t.fresh("g", True); t.NONNEG.add(k)
            return t.Lam(m, k, v)
        return a0
    if rec == "std::initializer_list": return I.rval(args[0], st) if n else t.NIL
    if rec in MAPS: return t.mk("mempty") if n == 0 else I.rval(args[0], st)
    if rec == "std::optional":
        if n == 0: return Struct("std::optional", {"has": FALSE, "val": ZERO})
        v = I.rval(args[0], st)
        if isinstance(v, Struct) and v.cls == "std::optional": return v
        if "nullopt" in ftu.types[fn["pt"][0]]["s"]: return Struct("std::optional", {"has": FALSE, "val": ZERO})
        return Struct("std::optional", {"has": TRUE, "val": v})
    if rec == "std::nullopt_t": return t.mk("nullopt")
    if rec == "std::variant":
        if fn.get("copy") or fn.get("move") or n == 0: return I.rval(args[0], st) if n else I.unk("variant")
        return mkvar(I, I.rval(args[0], st), ftu.types[fn["pt"][0]])
    if rec == "std::pair" or rec == "std::tuple":
        if fn.get("copy") or fn.get("move"): return I.rval(args[0], st)
        return Struct(rec, {str(i): I.rval(a, st) for i, a in enumerate(args)})
    if rec in DISTS:
        names = DISTS[rec]
        vals = list(DIST_DEF[rec])
        for i, a in enumerate(args):
            v = I.rval(a, st)
            if isinstance(v, Struct) and v.cls == rec: return v
            vals[i] = vnum(I, v)
        return Struct(rec, dict(zip(names, vals)))
    if rec in ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock"):
        a = args[0] if args else None
        key = mutex_key(I, a)
        return t.mk("lock", key)
    if rec in ("std::mersenne_twister_engine", "std::linear_congruential_engine"):
        if n == 0: return t.mk("mt", t.const(5489))
        v = I.rval(args[0], st)
        if isinstance(v, Struct): return v
        return t.app("mt", v)
    if rec == "std::random_device":
        return t.mk("rdev")
    if rec in ("std::allocator", "Eigen::Stride", "std::enable_shared_from_this", "Eigen::InnerStride", "std::mutex"): return t.mk("nothing")
    if rec in ("boost::random::faure_engine", "boost::random::sobol_engine"):
        return t.app("qrng", t.mk("str", rec.split("::")[-1]), t.num(I.rval(args[0], st))) if n else I.unk(rec)
    if rec.startswith("Eigen::"): return eigen_ctor(I, e, fn, rec, ty, args, st, fr)
    if rec == "std::function":
        return I.rval(args[0], st) if n else NULL
    if rec.startswith("std::reverse_iterator") or rec.endswith("__normal_iterator"):
        return I.rval(args[0], st)
    if fn.get("copy") or fn.get("move"): return I.rval(args[0], st)
    return I.unk("constructor " + rec)

EXC = {"std::invalid_argument", "std::logic_error", "std::runtime_error", "std::out_of_range", "std::domain_error", "std::length_error",
       "std::range_error", "std::overflow_error", "std::exception", "std::bad_alloc", "std::underflow_error"}

def zero_of(I, et):
    et = et.replace("const ", "")
    if et == "bool": return FALSE
    if et in ("double", "float", "int", "unsigned int", "long", "unsigned long", "size_t", "long double"): return ZERO
    if et.startswith("std::vector"): return t.NIL
    if et.startswith(("std::shared_ptr", "std::unique_ptr")): return NULL
    if et.startswith("std::basic_string") or et == "std::string": return t.mk("str", "")
    return I.unk("default element " + et)

def mutex_key(I, a):
    if isinstance(a, Lval):
        if isinstance(a.root, tuple) and a.root[0] == "g": return a.root[1]
        if a.path and a.path[-1][0] == "f": return a.path[-1][1]
    return "?"

def mkvar(I, v, pty):
    s = strip_ty(pty["s"])
    if isinstance(v, Struct): return I.unk("variant of record")
    if s.startswith("char") or "basic_string" in s: s = "string"
    return t.apply(("var", s), lambda x: t.mk("var", s, x), v)

def rng(I, a, b):
    lv = I.deref(a.fields["c"])
    return lv, a.fields["i"], t.sub(b.fields["i"], a.fields["i"])

# ------------------------------------------------------------------ calls
MATH1 = {"exp": t.exp, "log": t.log, "sqrt": t.sqrt, "fabs": t.absv, "abs": t.absv, "fabsf": t.absv}

def call(I, e, fn, obj, args, st, fr):
    if st.pc is FALSE: return I.unk("dead")
    rec = fn.get("rec") or ""
    name = fn["name"]
    qn = fn["qn"]
    n = len(args)
    if rec == "":
        return free_call(I, e, fn, name, qn, args, st, fr)
    if fn["kind"] == "ctor": return ctor(I, e, fn, fr.tu.types[e["t"]], args, st, fr)
    if fn["kind"] == "dtor": return None
    if rec.startswith("std::ranges::") and name == "operator()": return ranges_call(I, e, fn, rec, args, st, fr)
    R = lambda i: I.rval(args[i], st)
    if "mutex" in rec and name in ("lock", "unlock", "lock_shared", "unlock_shared", "try_lock"):
        key = mutex_key(I, obj)
        if name == "unlock" or name == "unlock_shared": st.locks = st.locks - {key}
        elif name != "try_lock": st.locks = st.locks | {key}
        return None if name != "try_lock" else I.unk("try_lock")
    if rec in ("std::unique_lock", "std::shared_lock") and name in ("lock", "unlock"):
        v = I.rval(obj, st)
        if isinstance(v, T) and v.op == "lock":
            st.locks = st.locks | {v.args[0]} if name == "lock" else st.locks - {v.args[0]}
            return None
        return I.unk("lock")
    if rec in SMART or rec in ("std::__shared_ptr_access", "std::__shared_ptr", "std::__weak_ptr", "std::__weak_ptr_access"):
        ov = I.rval(obj, st)
        if name == "operator->" or name == "get": return ov
        if name == "operator*":
            if not isinstance(ov, (T, D)): return I.unk("deref")
            I.nullcheck(ov, st, fr, e)
            return I.deref(ov)
        if name == "operator bool": return I.truthy(ov, st)
        if name == "operator=":
            v = take(I, fn, fr.tu, args[0], st) if "nullptr" not in fr.tu.types[fn["pt"][0]]["s"] else NULL
            I.store(st, I.lval(obj, st), v)
            return obj
        if name == "reset":
            I.store(st, I.lval(obj, st), R(0) if n else NULL)
            return None
        if name == "lock":
            def f(x):
                if x is NULL: return NULL
                if x.op == "obj": return x
                return t.ite(t.b_atom(t.mk("alive", x)), x, NULL)
            if isinstance(ov, (T, D)):
                for x in t.leaves(ov): I.nonnull.add(x)
                return I.lift_ptr(ov, f)
            return I.unk("lock")
        if name == "expired":
            return I.lift_ptr(ov, lambda x: TRUE if x is NULL else FALSE if x.op == "obj" else t.b_not(t.b_atom(t.mk("alive", x))))
        if name == "swap":
            a, b = I.lval(obj, st), I.lval(args[0], st)
            va, vb = I.load(st, a), I.load(st, b)
            I.store(st, a, vb); I.store(st, b, va)
            return None
        if name == "release":
            I.store(st, I.lval(obj, st), NULL)
            return ov
        if name in ("use_count", "unique"): return I.unk("use_count")
        return I.unk("smart pointer " + name)
    if rec == "std::enable_shared_from_this":
        p = I.rval(obj, st) if e.get("arrow") else I.lref(I.lval(obj, st))
        return p
    if rec in ("std::vector", "std::array", "std::deque", "std::initializer_list", "std::_Vector_base", "std::span", "std::list"):
        return vec_call(I, e, fn, name, obj, args, st, fr)
    if rec in MAPS or rec.startswith("std::_Rb_tree") or rec == "std::__detail::_Map_base":
        lv = I.lval(obj, st)
        m = I.load(st, lv)
        if not isinstance(m, (T, D)): return I.unk("map")
        c = I.lref(lv)
        if name == "find":
            k = I.rval(args[0], st)
            return Struct("miter", {"c": c, "k": k, "end": t.b_not(mhas(m, k))})
        if name in ("end", "cend"): return Struct("miter", {"c": c, "k": t.mk("nokey"), "end": TRUE})
        if name in ("contains", "count"):
            r = mhas(m, R(0))
            return r if name == "contains" else t.ite(r, ONE, ZERO)
        if name == "at":
            k = R(0)
            I.throw_if(st, t.b_not(mhas(m, k)), "std::out_of_range")
            return lv.sub("map", k)
        if name == "operator[]": return lv.sub("map", R(0))
        if name in ("insert_or_assign",):
            I.store(st, lv.sub("map", R(0)), R(1))
            return None
        if name in ("emplace", "try_emplace", "insert") and (n == 2 or n == 1 and name != "try_emplace"):
            if n == 1:
                kv = R(0)
                if not (isinstance(kv, Struct) and kv.cls == "std::pair"): return I.unk("map insert")
                k, v = [kv.fields.get(a, kv.fields.get(b)) for a, b in (("0", "first"), ("1", "second"))]
                if k is None or v is None: return I.unk("map insert")
                v = I.totermv(v)
            else: k, v = R(0), I.totermv(R(1))
            old = mget(I, m, k)
            h = mhas(m, k)
            I.store(st, lv, t.ite(h, m, mput(I, m, k, v)))
            return Struct("std::pair", {"0": Struct("miter", {"c": c, "k": k, "end": FALSE}), "1": t.b_not(h)})
        if name == "empty": return t.b_atom(t.mk("mapempty", m)) if isinstance(m, T) and m.op not in ("mempty", "mput") else t.boolc(m is t.mk("mempty"))
        if name == "size": return t.fn("mapsize", m, isint=True)
        if name == "operator=":
            I.store(st, lv, R(0)); return lv
        if name == "clear":
            I.store(st, lv, t.mk("mempty")); return None
        return I.unk("map " + name)
    if rec in ("std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator", "std::__detail::_Node_iterator_base", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator"):
        v = I.rval(obj, st)
        if name in ("operator->", "operator*"): return v
        return I.unk("map iterator " + name)
    if rec.endswith("__normal_iterator"):
        v = I.rval(obj, st)
        if not isinstance(v, Struct): return I.unk("iterator")
        if name == "operator*": return I.deref(v.fields["c"]).sub("i", v.fields["i"])
        if name == "operator->": return I.lref(I.deref(v.fields["c"]).sub("i", v.fields["i"]))
        if name == "operator[]": return I.deref(v.fields["c"]).sub("i", t.add(v.fields["i"], vnum(I, R(0))))
        if name in ("operator++", "operator--"):
            d = ONE if name == "operator++" else t.M1
            new = v.set("i", t.add(v.fields["i"], d))
            I.store(st, I.lval(obj, st), new)
            return v if n else obj
        if name in ("operator+", "operator-"): return iter_arith(I, name[8:], v, R(0))
        if name in ("operator+=", "operator-="):
            I.store(st, I.lval(obj, st), iter_arith(I, name[8:9], v, R(0))); return obj
        return I.unk("iterator " + name)
    if rec == "std::optional":
        v = I.rval(obj, st)
        if not isinstance(v, Struct): return I.unk("optional")
        if name in ("has_value", "operator bool"): return v.fields["has"]
        if name == "value":
            I.throw_if(st, t.b_not(v.fields["has"]), "std::bad_optional_access")
            return v.fields["val"]
        if name == "operator*": return v.fields["val"]
        if name == "value_or":
            d = R(0)
            return I.comb([v.fields["val"], d], lambda xs: t.ite(v.fields["has"], t.num(xs[0]), t.num(xs[1])))
        if name == "reset":
            I.store(st, I.lval(obj, st), Struct("std::optional", {"has": FALSE, "val": ZERO})); return None
        if name == "operator=" or name == "emplace":
            x = R(0) if n else ZERO
            if isinstance(x, Struct) and x.cls == "std::optional": new = x
            elif isinstance(x, T) and x.op == "nullopt": new = Struct("std::optional", {"has": FALSE, "val": ZERO})
            else: new = Struct("std::optional", {"has": TRUE, "val": x})
            I.store(st, I.lval(obj, st), new)
            return obj
        return I.unk("optional " + name)
    if rec == "std::variant":
        if name == "operator=":
            p = fr.tu.types[fn["pt"][0]]
            v = R(0)
            if not (fn.get("copy") or fn.get("move")) and not p["s"].startswith(("const std::variant", "std::variant")):
                v = mkvar(I, v, p)
            I.store(st, I.lval(obj, st), v)
            return obj
        return I.unk("variant " + name)
    if rec == "std::_Bit_reference":
        if name == "operator bool": return I.rval(obj, st)
        if name == "operator=":
            I.store(st, I.lval(obj, st), R(0)); return obj
    if rec in STRINGS:
        v = I.rval(obj, st)
        if name in ("c_str", "data"): return v
        if name == "operator=":
            I.store(st, I.lval(obj, st), R(0)); return obj
        if name in ("operator+=", "append"):
            I.store(st, I.lval(obj, st), t.app("strcat", v, R(0))); return obj
        if name == "empty": return keyeq(v, t.mk("str", ""))
        return t.mk("stringop", name, *[x for x in [v] + [I.rval(a, st) for a in args] if isinstance(x, T)])
    if rec == "std::type_info":
        v = I.rval(obj, st)
        if name in ("operator==", "operator!="):
            w = R(0)
            r = valeq(I, v, w)
            return r if name == "operator==" else t.b_not(r)
        return t.app("tiname", v)
    if rec in DISTS and name == "operator()":
        v = I.rval(obj, st)
        if not isinstance(v, Struct):
            v = Struct(rec, {x: t.poly(t.mk("distpar", x, v)) for x in DISTS[rec]})
        return dist_draw(I, rec, v, st) if not I.engines else eng_draw(I, rec, v, st, obj, args)
    if rec in DISTS and name == "reset":
        v = I.rval(obj, st)
        if isinstance(v, Struct): I.store(st, I.lval(obj, st), v.set("saved", ZERO))
        return None
    if rec == "std::random_device": return t.poly(t.fresh("rdev", True))
    if rec in ("std::mersenne_twister_engine",):
        if name == "seed":
            I.store(st, I.lval(obj, st), t.app("mt", R(0)) if n else t.mk("mt", t.const(5489)))
            return None
        if name == "operator()":
            if not I.engines: return I.draw(st, "mtraw", [], True)
            E = I.rval(obj, st)
            I.store(st, I.lval(obj, st), t.app("estep", E, t.mk("str", "raw"), ZERO))
            return t.fn("eraw", E, isint=True)
        if name == "discard" and I.engines:
            I.store(st, I.lval(obj, st), t.app("ediscard", I.rval(obj, st), R(0)))
            return None
        return I.unk("mt " + name)
    if rec == "std::numeric_limits":
        return t.poly(t.mk("lim", name, fr.tu.types[fn["ret"]]["s"]))
    if "ostream" in rec or "ostringstream" in rec or "ios" in rec: return t.mk("ostream")
    if rec in EXC or rec == "std::exception":
        return t.mk("excwhat")
    if rec == "std::mutex": return None
    if rec == "std::function":
        v = I.rval(obj, st)
        if name == "operator()": return I.call_clo(v, args, st, fr)
        return I.unk("function " + name)
    if rec.startswith("boost::random::"):
        return qrng_call(I, e, fn, name, obj, args, st, fr)
    if rec.startswith("Eigen::"): return eigen_call(I, e, fn, rec, name, obj, args, st, fr)
    if rec in ("std::pair", "std::tuple") and name == "operator=" and isinstance(I.rval(obj, st), Struct) and I.rval(obj, st).cls == "std::tie":
        v, w = I.rval(obj, st), tied(I, R(0), st)
        if not isinstance(w, Struct) or sorted(v.fields) != sorted(w.fields): return I.unk("tie =")
        for i in sorted(v.fields): I.store(st, I.deref(v.fields[i]), w.fields[i])
        return obj
    if rec in ("std::pair", "std::tuple") and name == "operator=":
        I.store(st, I.lval(obj, st), R(0)); return obj
    return I.unk("library %s::%s" % (rec, name))

def dist_draw(I, rec, v, st):
    f = v.fields
    if rec == "std::normal_distribution": return t.add(f["a"], t.mul(f["b"], t.num(I.draw(st, "N01", []))))
    if rec == "std::lognormal_distribution": return t.exp(t.add(f["a"], t.mul(f["b"], t.num(I.draw(st, "N01", [])))))
    if rec == "std::exponential_distribution": return t.div(t.num(I.draw(st, "E1", [])), f["a"])
    if rec == "std::gamma_distribution": return t.mul(f["b"], t.num(I.draw(st, "Gam", [f["a"]])))
    if rec == "std::uniform_real_distribution": return t.add(f["a"], t.mul(t.sub(f["b"], f["a"]), t.num(I.draw(st, "U01", []))))
    if rec == "std::poisson_distribution": return t.num(I.draw(st, "Poi", [f["a"]], True))
    if rec == "std::bernoulli_distribution": return t.cmp("<", t.num(I.draw(st, "U01", [])), f["a"])
    return I.unk(rec)

def eng_draw(I, rec, v, st, obj, args):
    """the same number for the same engine state, parameters and values saved in the distribution object"""
    if len(args) != 1: return I.unk("draw with own parameters")
    E = I.rval(args[0], st)
    if not isinstance(E, (T, D)): return I.unk("engine")
    ps = [v.fields[x] for x in DISTS[rec]]
    sv = v.fields.get("saved", ZERO)
    key = [t.mk("str", rec)] + ps + [sv]
    I.store(st, I.lval(args[0], st), t.app("estep", E, *key))
    I.store(st, I.lval(obj, st), v.set("saved", t.app("dsaved", E, *key)))
    return t.fn("edraw", E, *key, isint=rec == "std::poisson_distribution")

def new_elem(I, arr, v): return t.push(arr, I.totermv(v))

def vec_call(I, e, fn, name, obj, args, st, fr):
    n = len(args)
    R = lambda i: I.rval(args[i], st)
    lv = I.lval(obj, st)
    if e.get("arrow"):
        lv = I.deref(I.rval(obj, st))
    arr = I.load(st, lv)
    if not isinstance(arr, (T, D)): return I.unk("vector")
    if name == "size": return t.alen(arr)
    if name == "empty": return t.cmp("==", t.alen(arr), ZERO)
    if name == "operator[]": return lv.sub("i", vnum(I, R(0)))
    if name == "at":
        i = vnum(I, R(0))
        I.throw_if(st, t.cmp(">=", i, t.alen(arr)), "std::out_of_range")
        return lv.sub("i", i)
    if name == "front": return lv.sub("i", ZERO)
    if name == "back": return lv.sub("i", t.sub(t.alen(arr), ONE))
    if name in ("begin", "cbegin"): return Struct("iter", {"c": I.lref(lv), "i": ZERO})
    if name in ("end", "cend"): return Struct("iter", {"c": I.lref(lv), "i": t.alen(arr)})
    if name == "data": return Struct("iter", {"c": I.lref(lv), "i": ZERO})
    if name in ("reserve", "shrink_to_fit"): return None
    if name == "capacity": return I.unk("capacity")
    if name == "push_back":
        v = take(I, fn, fr.tu, args[0], st) if isinstance(I.rval(args[0], st), T) and I.rval(args[0], st).op in ("obj",) else R(0)
        I.store(st, lv, new_elem(I, arr, v))
        return None
    if name == "emplace_back":
        vals = [I.rval(a, st) for a in args]
        if n == 1: v = vals[0]
        else:
            ty = fr.tu.types[fn["rect"]] if isinstance(fn.get("rect"), int) else {}
            el = str((ty.get("targs") or ["?"])[0])
            if el.startswith("Eigen::Triplet"): v = Struct("Eigen::Triplet", {str(i): x for i, x in enumerate(vals)})
            elif el.startswith("std::pair"): v = Struct("std::pair", {str(i): x for i, x in enumerate(vals)})
            elif el in I.prog.records:
                p = make(I, el, args, st, fr)
                v = st.mem.get(p) if isinstance(p, T) and p in st.mem else I.unk("emplace")
            else: v = I.unk("emplace_back " + el)
        I.store(st, lv, new_elem(I, arr, v))
        return lv.sub("i", t.alen(arr))
    if name == "pop_back":
        k = t.fresh("g", True); t.NONNEG.add(k)
        I.store(st, lv, t.Lam(t.sub(t.alen(arr), ONE), k, t.sel(arr, t.poly(k))))
        return None
    if name == "clear":
        I.store(st, lv, t.NIL); return None
    if name == "resize":
        m = vnum(I, R(0))
        old = t.alen(arr)
        fill = I.totermv(R(1)) if n > 1 else ZERO
        k = t.fresh("g", True); t.NONNEG.add(k)
        if old is ZERO: r = t.Lam(m, k, fill)
        else:
            r = t.Lam(m, k, t.ite(t.cmp("<", t.poly(k), old), t.sel(arr, t.poly(k)), fill))
            if old is m: r = arr
        I.store(st, lv, r)
        return None
    if name == "assign" and n == 2:
        a0 = R(0)
        if isinstance(a0, Struct) and a0.cls == "iter":
            l2, lo, cnt = rng(I, a0, R(1))
            a = I.load(st, l2)
            k = t.fresh("g", True); t.NONNEG.add(k)
            I.store(st, lv, t.Lam(cnt, k, t.sel(a, t.add(lo, t.poly(k)))))
        else:
            k = t.fresh("g", True); t.NONNEG.add(k)
            I.store(st, lv, t.Lam(vnum(I, a0), k, I.totermv(R(1))))
        return None
    if name == "operator=":
        v = R(0)
        I.store(st, lv, v)
        if isinstance(args[0], Lval) and fr.tu.types[fn["pt"][0]].get("ref") == "&&" and isinstance(args[0].root, tuple): I.store(st, args[0], t.NIL)
        return lv
    if name == "swap":
        b = I.lval(args[0], st)
        vb = I.load(st, b)
        I.store(st, lv, vb); I.store(st, b, arr)
        return None
    if name == "fill":
        k = t.fresh("g", True); t.NONNEG.add(k)
        I.store(st, lv, t.Lam(t.alen(arr), k, I.totermv(R(0)))); return None
    if name == "erase" and n == 2:
        a, b = R(0), R(1)
        if isinstance(a, Struct) and a.fields.get("remove") and st.pc is not FALSE:
            return a
    return I.unk("vector " + name)

def free_call(I, e, fn, name, qn, args, st, fr):
    if name == "call_once":
        key = mutex_key(I, args[0])
        mk = ("once", key)
        st.locks = st.locks | {("once", key)}
        if mk not in st.mem:
            st.mem[mk] = TRUE
            I.call_clo(I.rval(args[1], st), list(args[2:]), st, fr)
        return None
    n = len(args)
    R = lambda i: I.rval(args[i], st)
    if name in ("move", "forward", "as_const", "addressof") and n == 1:
        return I.lref(I.lval(args[0], st)) if name == "addressof" else args[0]
    if name in MATH1 and n == 1:
        v = R(0)
        if isinstance(v, Struct) and v.cls == "Earr": return emap(lambda x: MATH1[name](x), v)
        return MATH1[name](vnum(I, v))
    if name == "pow" and n == 2: return t.power(vnum(I, R(0)), vnum(I, R(1)))
    if name == "fma": return t.add(t.mul(vnum(I, R(0)), vnum(I, R(1))), vnum(I, R(2)))
    if name in ("log1p",): return t.log(t.add(ONE, vnum(I, R(0))))
    if name in ("expm1",): return t.sub(t.exp(vnum(I, R(0))), ONE)
    if name == "exp2": return t.power(t.const(2), vnum(I, R(0)))
    if name == "hypot" and n == 2: return t.sqrt(t.add(t.mul(vnum(I, R(0)), vnum(I, R(0))), t.mul(vnum(I, R(1)), vnum(I, R(1)))))
    if name == "cbrt": return t.npow(vnum(I, R(0)), F(1, 3))
    if name in ("erf", "erfc", "sin", "cos", "tan", "atan", "floor", "ceil", "round", "lround", "llround", "tgamma", "lgamma", "acos", "asin", "sinh", "cosh", "tanh", "trunc"):
        return t.fn("m_" + name, vnum(I, R(0)), isint=name in ("lround", "llround"))
    if name in ("isnan", "isinf", "isfinite", "signbit"):
        v = vnum(I, R(0))
        if name == "signbit": return t.cmp("<", v, ZERO)
        return t.boolc(name == "isfinite") if True else None
    if name in ("fmax", "max") and n == 2: return t.maxv(vnum(I, R(0)), vnum(I, R(1)))
    if name in ("fmin", "min") and n == 2: return t.minv(vnum(I, R(0)), vnum(I, R(1)))
    if name == "midpoint" and n == 2: return t.div(t.add(vnum(I, R(0)), vnum(I, R(1))), t.const(2))
    if name == "lerp" and n == 3: return t.add(vnum(I, R(0)), t.mul(vnum(I, R(2)), t.sub(vnum(I, R(1)), vnum(I, R(0)))))
    if name in ("max", "min") and n == 1:
        a = R(0)
        if isinstance(a, (T, D)): return minmax_arr(I, name, a)
    if name == "clamp" and n == 3:
        x, lo, hi = (vnum(I, R(i)) for i in range(3))
        return t.ite(t.cmp("<", x, lo), lo, t.ite(t.cmp("<", hi, x), hi, x))
    if name == "swap" and n == 2:
        a, b = I.lval(args[0], st), I.lval(args[1], st)
        va, vb = I.load(st, a), I.load(st, b)
        I.store(st, a, vb); I.store(st, b, va)
        return None
    if name == "exchange" and n == 2:
        a = I.lval(args[0], st)
        old = I.load(st, a)
        I.store(st, a, R(1))
        return old
    if name in ("make_shared", "make_unique"):
        cls = strip_ty((fn.get("targs") or ["?"])[0])
        return make(I, cls, args, st, fr, fn)
    if name in ("dynamic_pointer_cast",):
        return dyncast(I, R(0), str((fn.get("targs") or ["?"])[0]), st)
    if name in ("const_pointer_cast", "static_pointer_cast"): return R(0)
    if name == "get" and n == 1 and (fn.get("targs") or [None])[0] is not None:
        v = R(0)
        ta = str(fn["targs"][0])
        if isinstance(v, Struct) and v.cls in ("std::pair", "std::tuple"):
            if isinstance(args[0], Lval): return args[0].sub("f", ta)
            return v.fields.get(ta, I.unk("get"))
        rt = fr.tu.types[fn["ret"]]
        return varget(I, v, ta, rt, st)
    if name == "holds_alternative":
        ta = varname(str(fn["targs"][0]))
        return t.apply(("holds", ta), lambda x: t.boolc(x.args[0] == ta) if x.op == "var" else t.b_atom(t.mk("holds", x, ta)), R(0))
    if name == "get_if":
        # read only: the pointer designates a copy of the value held; null when another alternative is held
        p = R(0)
        if not isinstance(p, (T, D)) or p.op == "null": return I.unk("get_if")
        ta = varname(str(fn["targs"][0]))
        v = I.load(st, I.deref(p))
        if not isinstance(v, (T, D)): return I.unk("get_if")
        h = t.apply(("holds", ta), lambda x: t.boolc(x.args[0] == ta) if x.op == "var" else t.b_atom(t.mk("holds", x, ta)), v)
        return t.ite(h, I.lref(Lval(I.temp_root(varval(t, v, ta)))), NULL)
    if name in ("operator==", "operator!=") and n == 2:
        a, b = tied(I, R(0), st), tied(I, R(1), st)
        if isinstance(a, Struct) and isinstance(b, Struct): r = struct_cmp(I, "==", a, b)
        elif isinstance(a, Struct) and a.cls == "std::optional" or isinstance(b, Struct) and b.cls == "std::optional":
            o, x = (a, b) if isinstance(a, Struct) else (b, a)
            h = t.asbool(o.fields["has"])
            if isinstance(x, T) and x.op == "nullopt": r = t.b_not(h)
            elif isinstance(x, (T, D)) and isinstance(o.fields["val"], (T, D)): r = t.b_and(h, valeq(I, o.fields["val"], x))
            else: r = I.unk("operator==")
        elif isinstance(a, (T, D)) and isinstance(b, (T, D)):
            ta = fr.tu.types[fn["pt"][0]]
            s = ta["s"]
            if "shared_ptr" in s or "unique_ptr" in s or "nullptr" in s: r = I.ptr_eq(a, b)
            else: r = valeq(I, a, b)
        else: r = I.unk("operator==")
        if not isinstance(r, (T, D)): return r
        r = t.asbool(r)
        return r if name == "operator==" else t.b_not(r)
    if name in ("operator<", "operator>", "operator<=", "operator>=", "operator<=>") and n == 2:
        a, b = R(0), R(1)
        if isinstance(a, Struct) and isinstance(b, Struct) and name != "operator<=>": return struct_cmp(I, name[8:], a, b)
        return I.unk(name)
    if name == "operator<<": return t.mk("ostream")
    if name in ("to_string",): return t.app("tostr", t.num(R(0)))
    if name == "operator+" and n == 2:
        a, b = R(0), R(1)
        s = fr.tu.types[fn["ret"]]["s"]
        if "basic_string" in s: return t.app("strcat", a, b) if isinstance(a, (T, D)) and isinstance(b, (T, D)) else I.unk("string +")
        if isinstance(a, Struct) and a.cls == "iter" or isinstance(b, Struct) and b.cls == "iter": return iter_arith(I, "+", a, b)
    if name == "operator-" and n == 2:
        a, b = R(0), R(1)
        if isinstance(a, Struct) and a.cls == "iter": return iter_arith(I, "-", a, b)
    if name in ("begin", "end", "cbegin", "cend", "size", "data", "empty") and n == 1:
        return vec_call(I, e, fn, name.replace("ssize", "size"), args[0], [], st, fr)
    if name in ("next", "prev"):
        a = R(0)
        d = vnum(I, R(1)) if n > 1 else ONE
        return iter_arith(I, "+" if name == "next" else "-", a, d)
    if name == "distance": return iter_arith(I, "-", R(1), R(0))
    if name == "make_pair": return Struct("std::pair", {"0": R(0), "1": R(1)})
    if name == "make_tuple": return Struct("std::tuple", {str(i): R(i) for i in range(n)})
    if name in ("tie", "forward_as_tuple"):     # references: read when compared, written when assigned to
        if not all(isinstance(a, Lval) for a in args): return I.unk(name)
        return Struct("std::tie", {str(i): I.lref(a) for i, a in enumerate(args)})
    if name in ("__cxa_demangle", "free"): return t.mk("demangled")
    if qn.startswith("Eigen::") or any(s in fr.tu.types[p]["s"] for p in fn["pt"] for s in ("Eigen::",)):
        if name in ("operator*", "operator+", "operator-", "operator/"):
            return ebin(I, name[8:], R(0), R(1))
    r = algo(I, e, fn, name, args, st, fr)
    if r is not NotImplemented: return r
    return I.unk("library " + qn.split("<")[0])

def varname(ta):
    return "string" if "string" in ta else ta.replace("const ", "").strip()
def varget(I, v, ta, rt, st):
    ta = varname(ta)
    if not isinstance(v, (T, D)): return I.unk("variant get")
    def ok(x):
        if x.op == "var": return t.boolc(x.args[0] == ta)
        return t.b_atom(t.mk("holds", x, ta))
    c = t.apply(("holds", ta), ok, v)
    I.throw_if(st, t.b_not(c), "std::bad_variant_access")
    return varval(t, v, ta)

def varval(t, v, ta):
    def f(x):
        if x.op == "var" and x.args[0] == ta: return x.args[1]
        if x.op == "var": return ZERO if ta in ("int", "double") else t.mk("badvariant")
        isint = ta in ("int", "unsigned int", "long", "unsigned long")
        a = t.mk("varget", x, ta, isint=isint)
        return t.poly(a) if isint or ta == "double" else t.b_atom(a) if ta == "bool" else a
    return t.apply(("varget", ta), f, v)

def minmax_arr(I, name, a):
    k = t.fresh("g", True); t.NONNEG.add(k)
    n = t.alen(a)
    if t.is_const(n) if isinstance(n, T) else False:
        c = int(t.const_val(n))
        v = t.num(t.sel(a, ZERO))
        for i in range(1, c): v = (t.maxv if name == "max" else t.minv)(v, t.num(t.sel(a, t.const(i))))
        return v
    return t.Fold("maxf" if name == "max" else "minf", n, k, t.sel(a, t.poly(k)))

def ranges_call(I, e, fn, rec, args, st, fr):
    """std::ranges algorithm objects: the same algorithms over [begin, end), with the default order and projection"""
    m = re.match(r"std::ranges::__(\w+?)_fn$", rec)
    if not m: return I.unk("library " + rec)
    name = m.group(1)
    ts = [fr.tu.types[p] for p in fn["pt"]]
    full = lambda ty: (fr.tu.types[ty["to"]] if ty.get("ref") and "to" in ty else ty)["s"]
    keep = [i for i in range(len(args)) if i >= len(ts) or not re.search(r"(std::identity|std::ranges::less)\b", full(ts[i]))]
    args = [args[i] for i in keep]
    v = I.rval(args[0], st)
    if not (isinstance(v, Struct) and v.cls == "iter"):
        if not isinstance(args[0], Lval) or not isinstance(v, (T, D)):
            if not isinstance(v, (T, D)): return I.unk("library " + rec)
            r = I.newroot("rng"); st.mem[r] = v
            lv = Lval(r)
        else: lv = args[0]
        its = [Struct("iter", {"c": I.lref(lv), "i": ZERO}), Struct("iter", {"c": I.lref(lv), "i": t.alen(v)})]
        args = its + args[1:]
    if name in ("max", "min") and len(args) == 2:
        r = algo(I, e, fn, name + "_element", args, st, fr)
        return I.load(st, I.deref(r.fields["c"]).sub("i", r.fields["i"])) if isinstance(r, Struct) else I.unk("library " + rec)
    if name not in ("for_each", "max_element", "min_element", "any_of", "all_of", "none_of", "find_if", "find_if_not", "count_if", "find", "count",
                    "lower_bound", "upper_bound", "generate", "fill"): return I.unk("library " + rec)
    r = algo(I, e, fn, name, args, st, fr)
    return I.unk("library " + rec) if r is NotImplemented else r

def fcall(I, f, args, st, fr):
    """call a function object value"""
    if isinstance(f, Clo): return I.rval(I.call_clo(f, args, st, fr), st)
    if isinstance(f, T) and f.op == "functor":
        a = [vnum(I, I.rval(x, st)) for x in args]
        return {"plus": t.add, "multiplies": t.mul, "minus": t.sub}[f.args[0]](*a)
    if isinstance(f, Struct):
        for nm, op in (("std::plus", t.add), ("std::multiplies", t.mul), ("std::minus", t.sub)):
            if f.cls and str(f.cls).startswith(nm): return op(*[vnum(I, I.rval(x, st)) for x in args])
    return I.unk("function object")

def algo(I, e, fn, name, args, st, fr):
    n = len(args)
    R = lambda i: I.rval(args[i], st)
    if name == "erase_if" and n == 2:
        lv = I.lval(args[0], st)
        arr = I.load(st, lv)
        f = R(1)
        k = t.fresh("k", True); t.NONNEG.add(k)
        c = I.truthy(fcall(I, f, [lv.sub("i", t.poly(k))], st.copy(), fr))
        I.store(st, lv, t.Filt(t.alen(arr), k, t.b_not(c), t.sel(arr, t.poly(k))))
        return I.unk("erase_if count") if False else t.alen(arr)
    its = [I.rval(a, st) for a in args]
    if not its or not (isinstance(its[0], Struct) and its[0].cls == "iter"): return NotImplemented
    if n < 2 or not (isinstance(its[1], Struct) and its[1].cls == "iter"):
        if name in ("fill_n",) and n == 3:
            lv = I.deref(its[0].fields["c"]); lo = its[0].fields["i"]; cnt = vnum(I, its[1])
            k = t.fresh("g", True); t.NONNEG.add(k)
            I.store(st, lv, t.AMap(I.load(st, lv), lo, cnt, k, I.totermv(its[2])))
            return None
        return NotImplemented
    lv, lo, cnt = rng(I, its[0], its[1])
    el = lambda kk: lv.sub("i", t.add(lo, kk))
    def loop(body): I.loops.counted(I, st, fr, cnt, body, e)
    def tmp(v):
        r = I.newroot("alg")
        st.mem[r] = v
        return Lval(r)
    if name in ("accumulate", "reduce"):
        acc = tmp(I.conv(R(2), fr.tu.types[fn["ret"]]) if n > 2 else ZERO)
        f = its[3] if n > 3 else None
        def body(x, k):
            if f is None: v = t.add(t.num(I.load(x, acc)), t.num(I.load(x, el(k))))
            else: v = fcall(I, f, [I.load(x, acc), el(k)], x, fr)
            v = I.conv(v, fr.tu.types[fn["ret"]]) if isinstance(v, (T, D)) else v
            I.store(x, acc, v)
        loop(body)
        return I.load(st, acc)
    if name in ("transform_reduce", "inner_product") and n >= 4:
        if isinstance(its[2], Struct) and its[2].cls == "iter":
            l2, lo2 = I.deref(its[2].fields["c"]), its[2].fields["i"]
            acc = tmp(its[3])
            fs = its[4:]
            def body(x, k):
                a, b = el(k), l2.sub("i", t.add(lo2, k))
                m = fcall(I, fs[1], [a, b], x, fr) if len(fs) > 1 else t.mul(t.num(I.load(x, a)), t.num(I.load(x, b)))
                s = fcall(I, fs[0], [I.load(x, acc), m], x, fr) if len(fs) > 1 else t.add(t.num(I.load(x, acc)), m)
                I.store(x, acc, s)
            loop(body)
            return I.load(st, acc)
        acc = tmp(its[2])
        def body(x, k):
            m = fcall(I, its[4], [el(k)], x, fr)
            I.store(x, acc, fcall(I, its[3], [I.load(x, acc), m], x, fr))
        loop(body)
        return I.load(st, acc)
    if name in ("max_element", "min_element") and n == 2:
        # value-level: iterator to an element holding the extremum
        arr = I.load(st, lv)
        k = t.fresh("g", True); t.NONNEG.add(k)
        v = t.Fold("maxf" if name == "max_element" else "minf", cnt, k, t.sel(arr, t.add(lo, t.poly(k))))
        cell = tmp(t.push(t.NIL, v))
        return Struct("iter", {"c": I.lref(cell), "i": ZERO})
    if name == "for_each":
        loop(lambda x, k: fcall(I, its[2], [el(k)], x, fr))
        return None
    if name in ("fill", "iota"):
        k = t.fresh("g", True); t.NONNEG.add(k)
        v = I.totermv(its[2])
        if name == "iota": v = t.add(t.num(v), t.poly(k))
        I.store(st, lv, t.AMap(I.load(st, lv), lo, cnt, k, v))
        return None
    if name == "generate":
        def body(x, k): I.store(x, el(k), fcall(I, its[2], [], x, fr))
        loop(body)
        return None
    if name == "copy" and n == 3 and isinstance(its[2], Struct):
        l2, lo2 = I.deref(its[2].fields["c"]), its[2].fields["i"]
        def body(x, k): I.store(x, l2.sub("i", t.add(lo2, k)), I.load(x, el(k)))
        loop(body)
        return its[2].set("i", t.add(lo2, cnt))
    if name == "transform" and isinstance(its[2], Struct) and its[2].cls == "iter":
        if n == 4:
            l2, lo2 = I.deref(its[2].fields["c"]), its[2].fields["i"]
            def body(x, k): I.store(x, l2.sub("i", t.add(lo2, k)), fcall(I, its[3], [el(k)], x, fr))
            loop(body)
            return its[2].set("i", t.add(lo2, cnt))
        if n == 5 and isinstance(its[3], Struct):
            lb, lob = I.deref(its[2].fields["c"]), its[2].fields["i"]
            l2, lo2 = I.deref(its[3].fields["c"]), its[3].fields["i"]
            def body(x, k): I.store(x, l2.sub("i", t.add(lo2, k)), fcall(I, its[4], [el(k), lb.sub("i", t.add(lob, k))], x, fr))
            loop(body)
            return None
    if name in ("any_of", "all_of", "none_of", "find_if", "count_if", "find", "count", "find_if_not"):
        k = t.fresh("k", True); t.NONNEG.add(k)
        s2 = st.copy(); s2.pc = TRUE
        if name in ("find", "count"): c = valeq(I, I.load(s2, el(t.poly(k))), I.rval(args[2], st))
        else: c = I.truthy(fcall(I, its[2], [el(t.poly(k))], s2, fr))
        c = t.asbool(c)
        if s2.trace != st.trace or s2.dr != st.dr or any(I.loops.live_root(I, st, r) and next(iter(I.loops.diff(I, st.mem.get(r, s2.mem[r]), s2.mem[r])), None) is not None for r in list(s2.mem)):
            # the predicate has effects: elements are visited one by one, up to the deciding one
            if name == "count_if":
                acc = tmp(ZERO)
                def body(x, kk): I.store(x, acc, t.add(t.num(I.load(x, acc)), t.ite(t.asbool(I.truthy(fcall(I, its[2], [el(kk)], x, fr))), ONE, ZERO)))
                loop(body)
                return I.load(st, acc)
            stop = tmp(cnt)
            def body(x, kk):
                b = t.asbool(I.truthy(fcall(I, its[2], [el(kk)], x, fr)))
                if name in ("all_of", "find_if_not"): b = t.b_not(b)
                y = x.copy(); y.pc = t.b_and(x.pc, b)
                if y.pc is not FALSE:
                    I.store(y, stop, kk)
                    fr.brks.append((y.pc, y, None))
                x.pc = t.b_and(x.pc, t.b_not(b))
            loop(body)
            at = t.num(I.load(st, stop))
            if name in ("find_if", "find_if_not"): return its[0].set("i", t.add(lo, at))
            found = t.cmp("<", at, cnt)
            return found if name == "any_of" else t.b_not(found)
        if name == "any_of": return t.Exists(cnt, k, c)
        if name == "none_of": return t.b_not(t.Exists(cnt, k, c))
        if name == "all_of": return t.b_not(t.Exists(cnt, k, t.b_not(c)))
        if name in ("count_if", "count"): return t.Sum(cnt, k, t.ite(c, ONE, ZERO))
        if name == "find_if_not": c = t.b_not(c)
        return its[0].set("i", t.add(lo, t.First(cnt, k, c)))
    if name in ("lower_bound", "upper_bound") and n == 3:
        k = t.fresh("k", True); t.NONNEG.add(k)
        v = t.num(I.load(st, el(t.poly(k)))); x = vnum(I, its[2])
        c = t.cmp(">=" if name == "lower_bound" else ">", v, x)
        # on a sorted range this is the first element not less than / greater than the key
        return its[0].set("i", t.add(lo, t.First(cnt, k, c)))
    if name == "partial_sum" and n in (3, 4) and isinstance(its[2], Struct):
        l2, lo2 = I.deref(its[2].fields["c"]), its[2].fields["i"]
        acc = tmp(ZERO)
        def body(x, k):
            v = t.num(I.load(x, el(k)))
            if n == 3: v = t.add(t.num(I.load(x, acc)), v)
            else: v = t.ite(t.eq(k, ZERO), v, t.num(I.rval(fcall(I, its[3], [I.load(x, acc), v], x, fr), x)))
            I.store(x, acc, v)
            I.store(x, l2.sub("i", t.add(lo2, k)), v)
        loop(body)
        return its[2].set("i", t.add(lo2, cnt))
    return NotImplemented

# ------------------------------------------------------------------ Eigen
def ev(v):
    return v.fields["v"] if isinstance(v, Struct) and v.cls in ("Earr", "Erow") else v
def is_arr(v):
    if isinstance(v, Struct): return v.cls in ("Earr", "Erow")
    return isinstance(v, (T, D)) and not any(x.op == "poly" or x in (TRUE, FALSE) for x in t.leaves(v))
def emap(f, v, wrap="Earr"):
    a = ev(v)
    if anymat(a):
        r = mmap(f, a)
        return Struct(wrap, {"v": r}) if wrap else r
    k = t.fresh("g", True); t.NONNEG.add(k)
    r = t.Lam(t.alen(a), k, f(t.num(t.sel(a, t.poly(k)))))
    return Struct(wrap, {"v": r}) if wrap else r
def fit(pairs, x):
    """x where the sizes agree, undefined otherwise"""
    c = TRUE
    for a, b in pairs:
        if a is not b: c = t.b_and(c, t.eq(a, b))
    return x if c is TRUE else t.ite(c, x, t.mk("undef", "operands of different size"))
def mmap(f, *Ms):
    i, j = t.fresh("g", True), t.fresh("g", True)
    t.NONNEG.add(i); t.NONNEG.add(j)
    b = f(*[at2(M, t.poly(i), t.poly(j)) for M in Ms])
    for M in Ms[1:]: b = fit([(mrows(Ms[0]), mrows(M)), (mcols(Ms[0]), mcols(M))], b)
    return mkrows(t.Lam(mrows(Ms[0]), i, t.Lam(mcols(Ms[0]), j, b)))
def matmul(A, B):
    i, j, k = (t.fresh("g", True) for _ in range(3))
    for x in (i, j, k): t.NONNEG.add(x)
    return mkrows(t.Lam(mrows(A), i, t.Lam(mcols(B), j, fit([(mcols(A), mrows(B))], t.Sum(mcols(A), k, t.mul(at2(A, t.poly(i), t.poly(k)), at2(B, t.poly(k), t.poly(j))))))))
def matvec(A, v):
    i, k = (t.fresh("g", True) for _ in range(2))
    for x in (i, k): t.NONNEG.add(x)
    return t.Lam(mrows(A), i, fit([(mcols(A), t.alen(v))], t.Sum(mcols(A), k, t.mul(at2(A, t.poly(i), t.poly(k)), t.num(t.sel(v, t.poly(k)))))))
def transpose(A):
    i, j = t.fresh("g", True), t.fresh("g", True)
    t.NONNEG.add(i); t.NONNEG.add(j)
    return mkrows(t.Lam(mcols(A), i, t.Lam(mrows(A), j, at2(A, t.poly(j), t.poly(i)))))
def dot(a, b):
    k = t.fresh("g", True); t.NONNEG.add(k)
    return fit([(t.alen(a), t.alen(b))], t.Sum(t.alen(a), k, t.mul(t.num(t.sel(a, t.poly(k))), t.num(t.sel(b, t.poly(k))))))
SCAL = {"+": t.add, "-": t.sub, "*": t.mul, "/": t.div}
def ebin(I, op, a, b):
    aw = isinstance(a, Struct) and a.cls == "Earr"
    bw = isinstance(b, Struct) and b.cls == "Earr"
    if isinstance(a, Struct) and a.cls not in ("Earr", "Erow") or isinstance(b, Struct) and b.cls not in ("Earr", "Erow"): return I.unk("eigen " + op)
    am, bm = anymat(ev(a)), anymat(ev(b))
    aa, ba = is_arr(a), is_arr(b)
    f = SCAL[op]
    if am or bm:
        if op == "*" and not aw and not bw:
            if am and bm: return matmul(ev(a), ev(b))
            if am and ba: return matvec(ev(a), ev(b))
        W = (lambda x: Struct("Earr", {"v": x})) if aw or bw else (lambda x: x)
        if am and bm: return W(mmap(f, ev(a), ev(b)))
        if am and not ba: return W(mmap(lambda x: f(x, t.num(b)), ev(a)))
        if bm and not aa: return W(mmap(lambda x: f(t.num(a), x), ev(b)))
        return I.unk("eigen matrix " + op)
    wrap = "Earr" if aw or bw else None
    if aa and ba:
        if op == "*" and not wrap:
            return I.unk("eigen outer product") if isinstance(b, Struct) and b.cls == "Erow" else dot(ev(a), ev(b))
        x, y = ev(a), ev(b)
        k = t.fresh("g", True); t.NONNEG.add(k)
        r = t.Lam(t.alen(x), k, fit([(t.alen(x), t.alen(y))], f(t.num(t.sel(x, t.poly(k))), t.num(t.sel(y, t.poly(k))))))
        return Struct(wrap, {"v": r}) if wrap else r
    if aa: return emap(lambda x: f(x, t.num(b)), a, wrap)
    if ba: return emap(lambda x: f(t.num(a), x), b, wrap)
    return f(t.num(a), t.num(b))

LSQC = tuple("Eigen::" + x for x in ("JacobiSVD", "BDCSVD", "HouseholderQR", "ColPivHouseholderQR", "FullPivHouseholderQR", "CompleteOrthogonalDecomposition"))

def eigen_ctor(I, e, fn, rec, ty, args, st, fr):
    n = len(args)
    sh = eigen_shape(ty)
    R = lambda i: I.rval(args[i], st)
    if rec in ("Eigen::Matrix", "Eigen::Array"):
        if n == 0: return t.mk("mat0", ZERO, ZERO) if sh == "mat" else t.NIL
        v = R(0)
        if n == 1:
            if isinstance(v, Struct) and v.cls == "Emap": return v.fields["v"]
            if isinstance(v, Struct): return ev(v)
            if isinstance(v, (T, D)):
                if is_arr(v): return v
                m = t.num(v)
                k = t.fresh("g", True); t.NONNEG.add(k)
                return t.app("arr0", m)
        if n == 2 and sh == "mat": return t.app("mat0", vnum(I, v), vnum(I, R(1)))
        return I.unk("Eigen matrix constructor")
    if rec == "Eigen::Map":
        d = R(0)
        if isinstance(d, Struct) and d.cls == "iter":
            cnt = vnum(I, R(1))
            arr = I.load(st, I.deref(d.fields["c"]))
            lo = d.fields["i"]
            if lo is ZERO and t.alen(arr) is cnt: return arr
            k = t.fresh("g", True); t.NONNEG.add(k)
            return t.Lam(cnt, k, t.sel(arr, t.add(lo, t.poly(k))))
        return I.unk("Eigen::Map")
    if rec == "Eigen::SparseMatrix":
        if n == 0: return t.mk("mat0", ZERO, ZERO)
        if n == 2: return spm(t.NIL, vnum(I, R(0)), vnum(I, R(1)))
        return R(0)
    if rec in ("Eigen::PartialPivLU", "Eigen::FullPivLU", "Eigen::LDLT", "Eigen::LLT", "Eigen::SparseLU") + LSQC and not (fn.get("copy") or fn.get("move")):
        op = "svd" if rec in LSQC else "lu"
        if not n or fr.tu.types[fn["pt"][0]]["k"] in "iu": return t.mk(op + "0")     # nothing decomposed yet
        return t.app(op, R(0))
    if rec == "Eigen::Triplet":
        return Struct("Eigen::Triplet", {str(i): I.rval(a, st) for i, a in enumerate(args)})
    if fn.get("copy") or fn.get("move"): return R(0)
    return I.unk("constructor " + rec)

def spm(tr, n, m): return t.apply(("spm",), lambda a, x, y: t.mk("spmat", a, x, y), tr, n, m)
t.REBUILD["spmat"] = spm

def _nnz(x):
    if x.op == "spmat" and x.args[0] is t.NIL: return ZERO
    return t.poly(t.mk("nnz", x, isint=True))
def nnz(v): return t.apply("nonzeros", _nnz, v)
t.REBUILD["nnz"] = nnz

def eigen_call(I, e, fn, rec, name, obj, args, st, fr):
    n = len(args)
    R = lambda i: I.rval(args[i], st)
    if name in ("Identity", "Zero", "Ones", "Constant") and obj is None or e.get("obj") is None and name in ("Identity", "Zero", "Ones", "Constant"):
        nums = [vnum(I, R(i)) for i in range(n)]
        i, j = t.fresh("g", True), t.fresh("g", True)
        t.NONNEG.add(i); t.NONNEG.add(j)
        val = {"Zero": ZERO, "Ones": ONE, "Constant": nums[-1] if nums else ZERO}.get(name)
        if name == "Constant": nums = nums[:-1]
        if len(nums) == 2:
            b = val if val is not None else t.ite(t.cmp("==", t.poly(i), t.poly(j)), ONE, ZERO)
            return mkrows(t.Lam(nums[0], i, t.Lam(nums[1], j, b)))
        if len(nums) == 1 and val is not None: return t.Lam(nums[0], i, val)
        return I.unk("Eigen::" + name)
    lv = obj if isinstance(obj, Lval) else None
    v = I.rval(obj, st)
    if isinstance(v, Struct) and v.cls not in ("Earr", "Erow"): return I.unk("eigen object " + str(v.cls))
    mat = anymat(ev(v)) if isinstance(ev(v), (T, D)) else False
    def L(): return lv if lv is not None else I.lval(v, st)
    if name in ("operator()", "operator[]", "coeff", "coeffRef", "insert"):
        if n == 2: return L().sub("ij", vnum(I, R(0)), vnum(I, R(1)))
        return L().sub("i", vnum(I, R(0)))
    if name == "col": return L().sub("col", vnum(I, R(0)))
    if name == "row": return L().sub("row", vnum(I, R(0)))
    if name in ("head", "tail", "segment") and not mat:
        a = ev(v)
        if name == "head": return L().sub("seg", ZERO, vnum(I, R(0)))
        if name == "tail": return L().sub("seg", t.sub(t.alen(a), vnum(I, R(0))), vnum(I, R(0)))
        return L().sub("seg", vnum(I, R(0)), vnum(I, R(1)))
    if name == "array": return lv.sub("arr") if lv is not None and not isinstance(v, Struct) else Struct("Earr", {"v": ev(v)})
    if name == "diagonal" and mat: return L().sub("diag")
    if lv is None and name in ("operator=", "operator+=", "operator-=", "operator*=", "operator/=", "setOnes", "setZero", "setConstant", "fill", "swap"):
        # an assignment to an expression is one through a view of something else
        I.havoc(st)
        return I.unk("Eigen view " + name)
    if name in ("matrix", "eval", "derived", "noalias"): return (lv if lv is not None and name == "noalias" else ev(v))
    if name == "size" or name == "rows" and not mat: return t.alen(ev(v)) if not mat else t.mul(mrows(v), mcols(v))
    if name == "rows": return mrows(v)
    if name == "cols": return mcols(v) if mat else ONE
    if name == "transpose": return transpose(v) if mat else Struct("Erow", {"v": ev(v)})
    if name == "dot": return dot(ev(v), ev(R(0)))
    if name in ("sum", "mean", "prod", "maxCoeff", "minCoeff", "norm", "squaredNorm") and not mat:
        a = ev(v)
        k = t.fresh("g", True); t.NONNEG.add(k)
        x = t.num(t.sel(a, t.poly(k)))
        m = t.alen(a)
        if name == "sum": return t.Sum(m, k, x)
        if name == "mean": return t.div(t.Sum(m, k, x), m)
        if name == "squaredNorm": return t.Sum(m, k, t.mul(x, x))
        if name == "norm": return t.sqrt(t.Sum(m, k, t.mul(x, x)))
        if name == "maxCoeff": return t.Fold("maxf", m, k, x)
        if name == "minCoeff": return t.Fold("minf", m, k, x)
    if name == "setOnes" or name == "setZero" or name == "setConstant" or name == "fill":
        c = ONE if name == "setOnes" else ZERO if name == "setZero" else vnum(I, R(n - 1))
        if n >= 1 and name in ("setOnes", "setZero"): return I.unk("sized set")
        if mat: I.store(st, L(), mmap(lambda x: c, v))
        else:
            k = t.fresh("g", True); t.NONNEG.add(k)
            I.store(st, L(), t.Lam(t.alen(ev(v)), k, c))
        return L()
    if name == "unaryExpr" or name == "cwiseMax" or name == "cwiseMin" or name in ("cwiseProduct", "cwiseQuotient", "cwiseAbs"):
        if name == "cwiseProduct": return ev(ebin(I, "*", Struct("Earr", {"v": ev(v)}), R(0)))
        if name == "cwiseQuotient": return ev(ebin(I, "/", Struct("Earr", {"v": ev(v)}), R(0)))
        if name == "cwiseAbs": return emap(t.absv, v, None)
        if name in ("cwiseMax", "cwiseMin"):
            f = t.maxv if name == "cwiseMax" else t.minv
            b = R(0)
            wrap = "Earr" if isinstance(v, Struct) else None
            if is_arr(b):
                a = ev(v); bb = ev(b)
                k = t.fresh("g", True); t.NONNEG.add(k)
                r = t.Lam(t.alen(a), k, f(t.num(t.sel(a, t.poly(k))), t.num(t.sel(bb, t.poly(k)))))
                return Struct(wrap, {"v": r}) if wrap else r
            return emap(lambda x: f(x, t.num(b)), v, wrap)
        g = R(0)
        wrap = "Earr" if isinstance(v, Struct) else None
        def f(x):
            s2 = st.copy(); s2.pc = TRUE
            r = fcall(I, g, [x], s2, fr)
            return t.num(r) if isinstance(r, (T, D)) else I.unk("unaryExpr")
        if mat: return mmap(f, v)
        return emap(f, v, wrap)
    if name in ("exp", "log", "sqrt", "abs") and n == 0: return emap(MATH1[name], v, "Earr")
    if name == "square": return emap(lambda x: t.mul(x, x), v, "Earr")
    if name in ("max", "min") and n == 1:
        f = t.maxv if name == "max" else t.minv
        b = R(0)
        if is_arr(b):
            a = ev(v); bb = ev(b)
            k = t.fresh("g", True); t.NONNEG.add(k)
            return Struct("Earr", {"v": t.Lam(t.alen(a), k, f(t.num(t.sel(a, t.poly(k))), t.num(t.sel(bb, t.poly(k)))))})
        return emap(lambda x: f(x, t.num(b)), v, "Earr")
    if name == "pow":
        p = vnum(I, R(0))
        return emap(lambda x: ipow(x, p), v, "Earr")
    if name == "inverse" and isinstance(v, Struct): return emap(lambda x: t.div(ONE, x), v, "Earr")
    if name in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=") and n == 1 and isinstance(v, Struct) and v.cls == "Earr":
        op = name[8:]       # coefficient-wise: an array of ones and zeros
        f = lambda x, y: t.ite(t.cmp(op, x, y), ONE, ZERO)
        b = R(0)
        if is_arr(b):
            if anymat(ev(v)): return Struct("Earr", {"v": mmap(f, ev(v), ev(b))})
            k = t.fresh("g", True); t.NONNEG.add(k)
            x, y = ev(v), ev(b)
            return Struct("Earr", {"v": t.Lam(t.alen(x), k, fit([(t.alen(x), t.alen(y))], f(t.num(t.sel(x, t.poly(k))), t.num(t.sel(y, t.poly(k))))))})
        return emap(lambda x: f(x, t.num(b)), v, "Earr")
    if name == "select" and n == 2 and isinstance(v, Struct) and v.cls == "Earr":
        a, b = R(0), R(1)
        ops = [ev(v)] + [ev(x) for x in (a, b) if is_arr(x)]
        wrap = "Earr" if any(isinstance(x, Struct) and x.cls == "Earr" for x in (a, b)) or not is_arr(a) and not is_arr(b) else None
        def f(*xs):
            xs = list(xs); c = xs.pop(0)
            p = xs.pop(0) if is_arr(a) else t.num(a)
            q = xs.pop(0) if is_arr(b) else t.num(b)
            return t.ite(t.cmp("!=", t.num(c), ZERO), t.num(p), t.num(q))
        if any(anymat(x) for x in ops):
            if not all(anymat(x) for x in ops): return I.unk("select")
            r = mmap(f, *ops)
        else:
            k = t.fresh("g", True); t.NONNEG.add(k)
            r = t.Lam(t.alen(ops[0]), k, f(*[t.num(t.sel(x, t.poly(k))) for x in ops]))
        return Struct(wrap, {"v": r}) if wrap else r
    if name in ("any", "all", "count") and n == 0 and isinstance(v, Struct) and v.cls == "Earr" and not mat:
        a = ev(v)
        k = t.fresh("g", True); t.NONNEG.add(k)
        cnt = t.Sum(t.alen(a), k, t.ite(t.cmp("!=", t.num(t.sel(a, t.poly(k))), ZERO), ONE, ZERO))
        return cnt if name == "count" else t.cmp(">", cnt, ZERO) if name == "any" else t.cmp("==", cnt, t.alen(a))
    if name == "nonZeros" and n == 0 and mat:
        if isinstance(v, (T, D)): return nnz(v)
    if name == "setThreshold" and n == 1 and isinstance(v, (T, D)):
        I.store(st, L(), t.apply("svdthr", lambda x, y: t.mk("svd", t.mk("withthreshold", x.args[0] if x.op == "svd" else x, y)), v, vnum(I, R(0))))
        return L()
    if name in ("operator+", "operator-", "operator*", "operator/"):
        if n == 0: return emap(t.neg, v, "Earr" if isinstance(v, Struct) else None) if not mat else mmap(t.neg, v)
        return ebin(I, name[8:], v, R(0))
    if name in ("operator+=", "operator-=", "operator*=", "operator/="):
        x = ev(ebin(I, name[8], Struct("Earr", {"v": ev(v)}) if isinstance(v, Struct) else v, R(0)))
        I.store(st, L(), x)
        return L()
    if name == "operator=":
        x = R(0)
        I.store(st, L(), ev(x))
        return L()
    if name in ("resize", "conservativeResize"):
        if n == 1: I.store(st, L(), t.app("arr0", vnum(I, R(0))))
        elif rec == "Eigen::SparseMatrix": I.store(st, L(), spm(t.NIL, vnum(I, R(0)), vnum(I, R(1))))
        else: I.store(st, L(), t.app("mat0", vnum(I, R(0)), vnum(I, R(1))))
        return None
    if name in ("jacobiSvd", "bdcSvd"): return t.app("svd", v)
    if name in ("ldlt", "llt", "lu", "partialPivLu", "fullPivLu"): return t.app("lu", v)
    if name in ("colPivHouseholderQr", "householderQr", "fullPivHouseholderQr", "completeOrthogonalDecomposition"): return t.app("svd", v)
    if name == "compute" and rec in LSQC:
        def f(x, A):
            if x.op == "svd" and isinstance(x.args[0], T) and x.args[0].op == "withthreshold": A = t.mk("withthreshold", A, x.args[0].args[1])
            return t.mk("svd", A)
        I.store(st, L(), t.apply("svdof", f, v, ev(R(0))) if isinstance(v, (T, D)) else I.unk("compute"))
        return L()
    if name == "compute" and rec == "Eigen::SVDBase" or name in ("compute", "factorize") and "QR" in rec: return I.unk("compute of " + rec)
    if name in ("compute", "factorize"):
        I.store(st, L(), t.app("lu", R(0)))
        return L()
    if name == "analyzePattern": return None
    if name == "info" and (rec in LSQC or rec == "Eigen::SVDBase"): return I.unk("info of " + rec)
    if name == "info":
        return t.app("luinfo", v) if isinstance(v, (T, D)) else I.unk("info")
    if name == "solve":
        b = ev(R(0))
        def f(x, y):
            if x.op == "lu": return t.mk("linsolve", x.args[0], y)
            if x.op == "svd":
                A = x.args[0]
                if isinstance(A, T) and A.op == "withthreshold":   # singular values below the threshold are dropped: another fit
                    return t.app("svdfit", A, y)
                return t.mk("lsq", A, y)
            return t.mk("linsolve", t.mk("luof", x), y)
        return t.apply("esolve", f, v, b)
    if name == "setFromTriplets":
        a, b = R(0), R(1)
        l2, lo, cnt = rng(I, a, b)
        arr = I.load(st, l2)
        cur = v
        I.store(st, L(), spm(arr, mrows(cur), mcols(cur)))
        return None
    if name.startswith("operator ") and isinstance(v, (T, D)): return v
    if name in ("makeCompressed", "reserve"): return None
    return I.unk("Eigen %s" % name)

def ipow(x, p):
    def f(a, b):
        if t.is_const(b): return t.ppow(a, t.const_val(b))
        return t.poly(t.mk("ipow", a, b))
    return t.apply("ipow", f, t.num(x), t.num(p))
t.REBUILD["ipow"] = ipow

# ------------------------------------------------------------------ Boost quasi-random engines
# an engine is a position in a sequence: qseed(engine, seed) is a start, qadv(start, c) the position c outputs later
def qbase(e):
    return e.args if e.op == "qadv" else (e, ZERO)
def qadv(e, c): return t.apply("qadv", _qadv, e, t.num(c))
def _qadv(e, c):
    b, o = qbase(e)
    return t.mk("qadv", b, t.padd(t.poly(o), t.poly(c)))
def qpt(e, k): return t.apply("qpt", _qpt, e, t.num(k))
def _qpt(e, k):
    b, o = qbase(e)
    return t.poly(t.mk("qpt", b, t.padd(t.poly(o), t.poly(k)), isint=True))
def qseed(e, s):
    def f(x, y):
        b, o = qbase(x)
        while b.op == "qseed": b = b.args[0]
        return t.mk("qseed", b, t.poly(y))
    return t.apply("qseed", f, e, t.num(s))
def qmax(e, name):
    return t.poly(t.mk("qmax", t.mk("str", "sobol_engine" if name == "gray_coded_qrng" else name)))
t.REBUILD["qadv"] = qadv; t.REBUILD["qpt"] = qpt; t.REBUILD["qseed"] = qseed
def qrng_call(I, e, fn, name, obj, args, st, fr):
    if name == "max": return qmax(None, fn["rec"].split("::")[-1])
    if name == "min": return ZERO
    lv = I.lval(obj, st)
    v = I.load(st, lv)
    if name == "seed":
        s = I.rval(args[0], st) if args else ZERO
        I.store(st, lv, qseed(v, s))
        return None
    if name == "generate":
        a, b = I.rval(args[0], st), I.rval(args[1], st)
        if not (isinstance(a, Struct) and a.cls == "iter"): return I.unk("generate")
        l2, lo, cnt = rng(I, a, b)
        k = t.fresh("g", True); t.NONNEG.add(k)
        I.store(st, l2, t.AMap(I.load(st, l2), lo, cnt, k, qpt(v, t.poly(k))))
        I.store(st, lv, qadv(v, cnt))
        return None
    if name == "operator()":
        I.store(st, lv, qadv(v, ONE))
        return qpt(v, ZERO)
    if name == "discard":
        I.store(st, lv, qadv(v, t.num(I.rval(args[0], st))))
        return None
    return I.unk("qrng " + name)
