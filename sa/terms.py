"""Value-flow terms: hash-consed, with numeric leaves in a canonical (fingerprint-interned)
Laurent-polynomial normal form and conditionals in canonical multi-terminal decision
diagrams.  No paths are enumerated: control-flow joins become decision nodes."""
import hashlib
from fractions import Fraction as F
from functools import reduce
from math import gcd, isqrt

PRIME = (1 << 127) - 1

def h128(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=16).digest(), "big") % PRIME

# ------------------------------------------------------------------ nodes
class T:
    __slots__ = ("op", "args", "id", "free", "height", "unk", "isint", "fpv", "_poly")
    def __repr__(self):
        return show(self)

class D:
    """decision node: var is a T of op 'sgn' | 'bool' | 'enum'; kids: tuple aligned with domain(var)"""
    __slots__ = ("var", "kids", "id", "free", "height", "unk")
    def __repr__(self):
        return show(self)

class NoValue(Exception):
    pass

_tab = {}
_dtab = {}
_cnt = [0]
EMPTY = frozenset()

def _nid():
    _cnt[0] += 1
    return _cnt[0]

def _scan(x, acc):
    # acc = [free set, height, unk]
    if isinstance(x, (T, D)):
        if x.free: acc[0] = acc[0] | x.free
        if x.height > acc[1]: acc[1] = x.height
        if x.unk: acc[2] = True
    elif isinstance(x, tuple):
        for y in x: _scan(y, acc)

BINDERS = {"prod", "sum", "exists", "minf", "maxf", "lam", "first", "filt", "rec", "arec", "fold"}

def key_of(x):
    if isinstance(x, T): return ("t", x.id)
    if isinstance(x, D): return ("d", x.id)
    if isinstance(x, tuple): return tuple(key_of(y) for y in x)
    return x

def mk(op, *args, isint=False):
    k = (op, isint) + tuple(key_of(a) for a in args)
    t = _tab.get(k)
    if t is not None: return t
    t = T()
    t.op, t.args, t.id, t.isint, t._poly = op, args, _nid(), isint, None
    acc = [EMPTY, 0, False]
    for a in args: _scan(a, acc)
    fr = acc[0]
    if op in ("sym", "bv"): fr = fr | {t}
    if op in BINDERS:
        h = acc[1] + 1
        fr = frozenset(v for v in fr if not (v.op == "bv" and v.args[0] == _bh(op, args)))
        t.height = h
    else:
        t.height = acc[1]
    t.free = fr
    t.unk = acc[2] or op == "unk"
    t.fpv = None
    _tab[k] = t
    return t

def _bh(op, args):
    return args[0]   # first arg of a binder is its bound-variable height

TRUE = mk("bool", True)
FALSE = mk("bool", False)
NULL = mk("null")

def boolc(b): return TRUE if b else FALSE

def sym(name, isint=False):
    return mk("sym", name, isint=isint)

_fresh = [0]
def fresh(name, isint=False):
    _fresh[0] += 1
    return mk("sym", "%s#%d" % (name, _fresh[0]), isint=isint)

def unk(why):
    _fresh[0] += 1
    return mk("unk", why, _fresh[0])

# ------------------------------------------------------------------ sign facts about atoms
POS = set()      # T atoms known > 0
NONNEG = set()   # T atoms known >= 0

def declare_pos(v):
    for a in _single(v): POS.add(a); NONNEG.add(a)
    return v
def declare_nonneg(v):
    for a in _single(v): NONNEG.add(a)
    return v
def _single(v):
    p = poly(v)
    out = []
    for m, c in p.args[0]:
        for a, e in m: out.append(a)
    return out

POSLAWS = ("E1", "Gam", "U01")
def is_price(a):
    """what a stock model simulates is positive (established model by model, property C11)"""
    if a.op == "sel": a = a.args[0]
    return isinstance(a, T) and a.op == "draw" and "StockModel::simulatePrice" in a.args[0]
def is_pos(a):
    return a in POS or is_price(a) or a.op in ("E", "cst") or (a.op == "draw" and a.args[0] in POSLAWS) or (a.op == "pol" and poly_sign(a.args[0]) == 1)
def is_nonneg(a):
    return is_pos(a) or a in NONNEG or a.op in ("len", "mrows", "mcols") or (a.op == "draw" and a.args[0] == "Poi") or (a.op == "bv" and a.isint and a.args[1] == 0) or (a.op == "pol" and poly_sign(a.args[0]) in (0.5, 1))

# ------------------------------------------------------------------ polynomials
# poly T: op 'poly', args ( ((mono, coef), ...) ) sorted ; mono = ((atom, exp), ...)
_ptab = {}

def _fp_atom(a):
    if a.fpv is None:
        if a.op == "pol": a.fpv = fp(a.args[0])
        else: a.fpv = h128("atom", a.id) or 1
    return a.fpv

def _fp_mono(m):
    v = 1
    for a, e in m:
        if isinstance(e, F) and e.denominator != 1:
            fl = e.numerator // e.denominator
            v = v * h128("frac", a.id, str(e - fl)) % PRIME
            e = fl
        e = int(e)
        b = _fp_atom(a)
        v = v * pow(b, e, PRIME) % PRIME if e >= 0 else v * pow(pow(b, -e, PRIME), PRIME - 2, PRIME) % PRIME
    return v

def fp(p):
    if p.fpv is None:
        s = 0
        for m, c in p.args[0]:
            s = (s + (c.numerator * pow(c.denominator, PRIME - 2, PRIME)) % PRIME * _fp_mono(m)) % PRIME
        p.fpv = s
    return p.fpv

def _mkey(m): return tuple((a.id, e) for a, e in m)

def mkpoly(d):
    """d: {mono: coef}"""
    items = [(m, F(c)) for m, c in d.items() if c != 0]
    # expand positive integer powers of 'pol' atoms and fold integer powers of constants
    for m, c in items:
        for a, e in m:
            if a.op == "pol" and e >= 1:
                k = int(e) if e == int(e) else int(e // 1)
                rest = {}
                m2 = tuple((x, y) for x, y in m if x is not a)
                fr = e - k
                if fr: m2 = _mmul(m2, ((a, fr),))
                q = mkpoly({m2: c})
                for _ in range(k): q = pmul(q, a.args[0])
                others = {mm: cc for mm, cc in items if mm is not m}
                return padd(q, mkpoly(others))
            if a.op == "cst" and (e >= 1 or e < 0):
                k = e // 1
                m2 = tuple((x, y) for x, y in m if x is not a)
                if e - k: m2 = _mmul(m2, ((a, e - k),))
                others = {mm: cc for mm, cc in items if mm is not m}
                return padd(mkpoly({m2: c * (a.args[0] ** int(k))}), mkpoly(others))
    items.sort(key=lambda mc: (-_deg(mc[0]), _mkey(mc[0])))
    tup = tuple(items)
    k = tuple((_mkey(m), c) for m, c in tup)
    t = _ptab.get(k)
    if t is not None: return t
    t = T()
    t.op, t.args, t.id, t._poly = "poly", (tup,), _nid(), None
    acc = [EMPTY, 0, False]
    isint = True
    for m, c in tup:
        if c.denominator != 1: isint = False
        for a, e in m:
            _scan(a, acc)
            if not a.isint or e < 0 or (isinstance(e, F) and e.denominator != 1): isint = False
    t.free, t.height, t.unk, t.isint, t.fpv = acc[0], acc[1], acc[2], isint, None
    f = fp(t)
    other = _tab.get(("polyfp", f))
    if other is None:
        _tab[("polyfp", f)] = t
    else:
        t = other
    _ptab[k] = t
    return t

def _deg(m):
    return sum((e for a, e in m), F(0))

def const(q): return mkpoly({(): F(q)})

def poly(v):
    """numeric T -> poly T"""
    if v.op == "poly": return v
    if v._poly is None:
        if v.op == "bool": v._poly = const(1 if v.args[0] else 0)
        else: v._poly = mkpoly({((v, F(1)),): F(1)})
    return v._poly

def is_const(p): return p.op == "poly" and (len(p.args[0]) == 0 or (len(p.args[0]) == 1 and p.args[0][0][0] == ()))
def const_val(p): return p.args[0][0][1] if p.args[0] else F(0)

ZERO = const(0)
ONE = const(1)

def padd(a, b):
    d = dict(a.args[0])
    for m, c in b.args[0]:
        d[m] = d.get(m, 0) + c
    return mkpoly(d)

def pscale(a, q): return mkpoly({m: c * q for m, c in a.args[0]})
def pneg(a): return pscale(a, F(-1))
def psub(a, b): return padd(a, pneg(b))

def _mmul(m1, m2):
    d = {}
    for a, e in m1: d[a] = d.get(a, 0) + e
    for a, e in m2: d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, F(e)) for a, e in d.items() if e != 0), key=lambda x: x[0].id))

def pmul(a, b):
    if len(a.args[0]) > len(b.args[0]): a, b = b, a
    if len(a.args[0]) * len(b.args[0]) > 4000:
        return poly(mk("bigmul", a, b))
    d = {}
    for m1, c1 in a.args[0]:
        for m2, c2 in b.args[0]:
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return mkpoly(d)

def _content(p):
    """p = c * m * p' with p' leading coef 1 and no common monomial factor"""
    items = p.args[0]
    c = items[0][1]
    common = None
    for m, _ in items:
        dm = dict(m)
        if common is None: common = dict(dm)
        else:
            for a in list(common):
                e = dm.get(a, F(0))
                common[a] = min(common[a], e)
            for a, e in dm.items():
                if a not in common and e < 0: common[a] = e
    # atoms absent somewhere with positive min -> 0
    mono = tuple(sorted(((a, e) for a, e in common.items() if e != 0), key=lambda x: x[0].id))
    inv = tuple((a, -e) for a, e in mono)
    p2 = mkpoly({_mmul(m, inv): k / c for m, k in items})
    return c, mono, p2

def ppow(p, e):
    """p ** e for rational e; returns Value (may be a decision diagram because of |x|)"""
    e = F(e)
    if e == 0: return ONE
    if e.denominator == 1 and e > 0:
        r = p
        for _ in range(int(e) - 1): r = pmul(r, p)
        return r
    if not p.args[0]:
        return ZERO if e > 0 else poly(mk("div0"))
    if len(p.args[0]) == 1:
        (m, c), = p.args[0]
        coef = F(1)
        mono = ()
        extra = None
        if e.denominator == 1: coef = c ** int(e)
        else:
            if c < 0: return poly(mk("powneg", p, e))
            coef, cm = _cpow(c, e)
            mono = cm
        for a, k in m:
            if e.denominator == 2 and k == int(k) and int(k) % 2 == 0 and (k * e) % 2 == 1 and not is_nonneg(a):
                ab = absv(ppow_atom(a, 1))
                f = npow(ab, k * e)
                extra = f if extra is None else mul(extra, f)
            else:
                mono = _mmul(mono, ((a, k * e),))
        r = mkpoly({mono: coef})
        return r if extra is None else mul(r, extra)
    c, mono, p2 = _content(p)
    if e.denominator != 1 and c < 0:
        c, p2 = -c, None
        p2 = mkpoly({_mmul(m, tuple((a, -x) for a, x in mono)): k / c for m, k in p.args[0]})
    a = mk("pol", p2)
    outer = ppow(mkpoly({mono: c}), e)
    return mul(outer, mkpoly({((a, e),): F(1)}))

def ppow_atom(a, e): return mkpoly({((a, F(e)),): F(1)})

def _cpow(c, e):
    # c>0 rational, e rational non-integer
    if e.denominator == 2:
        n = isqrt(c.numerator); d = isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return F(n, d) ** int(e.numerator), ()
    if c == 1: return F(1), ()
    return F(1), ((mk("cst", c), e),)

def npow(v, e): return lift1(lambda t: ppow(poly(t), e), v, ("npow", e))

# ------------------------------------------------------------------ decision diagrams
def domain(var):
    if var.op == "sgn": return (-1, 0, 1)
    if var.op == "bool": return (False, True)
    return var.args[1]

def dvar_bool(atom): return mk("boolv", atom) if False else _bv(atom)
_bvt = {}
def _bv(atom):
    v = _bvt.get(atom.id)
    if v is None:
        v = T()
        v.op, v.args, v.id, v.isint, v._poly = "bool", (atom,), _nid(), False, None
        v.free, v.height, v.unk, v.fpv = atom.free, atom.height, atom.unk, None
        _bvt[atom.id] = v
    return v

def mkd(var, kids):
    k0 = kids[0]
    if var.op == "sgn":
        e = var.args[0]
        n, z, p = kids
        z = subst_zero(z, e)
        if n is p:
            if n is z or subst_zero(n, e) is z: return n
        kids = (n, z, p)
    elif all(k is k0 for k in kids):
        return k0
    key = (var.id,) + tuple(k.id for k in kids)
    d = _dtab.get(key)
    if d is not None: return d
    d = D()
    d.var, d.kids, d.id = var, kids, _nid()
    acc = [var.free, var.height, var.unk]
    for k in kids: _scan(k, acc)
    d.free, d.height, d.unk = acc
    _dtab[key] = d
    return d

_szmemo = {}
def subst_zero(v, e):
    a = zero_atom(e)
    if a is None or a[0] not in _atoms_of(v): return v
    k = (v.id, e.id)
    r = _szmemo.get(k)
    if r is None:
        r = rewrite_atom(v, a[0], a[1])
        _szmemo[k] = r
    return r

_zamemo = {}
def zero_atom(e):
    """atom a and poly r with (e = 0) <=> (a = r), a not occurring in r"""
    if e.id in _zamemo: return _zamemo[e.id]
    cands = []
    for m, c in e.args[0]:
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.op in ("pol", "cst", "E"): continue
            rest = mkpoly({mm: -cc / c for mm, cc in e.args[0] if mm is not m})
            if a in _atoms_of(rest): continue
            cands.append((a, rest))
    # prefer to eliminate: compound/latest symbols first, bound variables never preferred
    best = max(cands, key=lambda x: x[0].id) if cands else None
    _zamemo[e.id] = best
    return best

_aomemo = {}
def _atoms_of(v):
    """all atoms occurring (at any depth outside binder scopes too) in v"""
    r = _aomemo.get(v.id)
    if r is not None: return r
    s = set()
    if isinstance(v, D):
        s |= _atoms_of(v.var)
        for k in v.kids: s |= _atoms_of(k)
    elif v.op == "poly":
        for m, c in v.args[0]:
            for a, e in m: s.add(a); s |= _atoms_of(a)
    else:
        s.add(v)
        for a in v.args: s |= _atoms_args(a)
    r = frozenset(s)
    _aomemo[v.id] = r
    return r
def _atoms_args(a):
    if isinstance(a, (T, D)): return _atoms_of(a)
    if isinstance(a, tuple):
        s = set()
        for x in a: s |= _atoms_args(x)
        return s
    return EMPTY

_amemo = {}
def apply(name, f, *vals):
    """lift a leaf function over decision diagrams"""
    if all(isinstance(v, T) for v in vals): return f(*vals)
    k = (name,) + tuple(v.id for v in vals)
    r = _amemo.get(k)
    if r is not None: return r
    var = min((v.var for v in vals if isinstance(v, D)), key=lambda x: x.id)
    kids = []
    for i in range(len(domain(var))):
        kids.append(apply(name, f, *[v.kids[i] if isinstance(v, D) and v.var is var else v for v in vals]))
    r = build(var, kids)
    _amemo[k] = r
    return r

def build(var, kids):
    """node with ordering repair: kids may contain variables ordered before var (after leaf functions create conditions)"""
    kids = list(kids)
    def minvar(v): return v.var.id if isinstance(v, D) else 1 << 60
    if all(minvar(k) > var.id for k in kids): return mkd(var, tuple(kids))
    # some kid has a smaller-or-equal root: re-sort
    top = min((k.var for k in kids if isinstance(k, D)), key=lambda x: x.id)
    if top.id == var.id:
        kids = [restrict(k, var, i) for i, k in enumerate(kids)]
        return build(var, kids)
    out = []
    for i in range(len(domain(top))):
        out.append(build(var, [restrict(k, top, i) for k in kids]))
    return build(top, out)

_rmemo = {}
def restrict(v, var, i):
    if isinstance(v, T): return v
    if v.var is var: return restrict(v.kids[i], var, i)
    if v.var.id > var.id and not _hasvar(v, var): return v
    k = (v.id, var.id, i)
    r = _rmemo.get(k)
    if r is None:
        r = build(v.var, [restrict(x, var, i) for x in v.kids])
        _rmemo[k] = r
    return r

_vsmemo = {}
def dvars(v):
    if isinstance(v, T): return EMPTY
    r = _vsmemo.get(v.id)
    if r is None:
        s = {v.var}
        for k in v.kids: s |= dvars(k)
        r = _vsmemo[v.id] = frozenset(s)
    return r
def _hasvar(v, var): return var in dvars(v)

def lift1(f, v, name):
    return apply(name, f, v)

def leaves(v, acc=None):
    if acc is None: acc = []
    if isinstance(v, D):
        for k in v.kids: leaves(k, acc)
    elif v not in acc: acc.append(v)
    return acc

# booleans
def b_not(v): return apply("not", lambda a: FALSE if a is TRUE else TRUE if a is FALSE else b_not(b_atom(a)), v)
def b_atom(a):
    """opaque boolean leaf -> decision diagram"""
    if a is TRUE or a is FALSE: return a
    if a.op == "poly": return sign_in(a, (-1, 1))
    return mkd(_bv(a), (FALSE, TRUE))
def asbool(v):
    return apply("asbool", b_atom, v)
def b_all(*xs):
    r = TRUE
    for x in xs: r = b_and(r, x)
    return r
def b_and(a, b):
    if a is FALSE or b is FALSE: return FALSE
    if a is TRUE: return b
    if b is TRUE: return a
    return apply("and", lambda x, y: y if x is TRUE else FALSE, a, b)
def b_or(a, b):
    if a is TRUE or b is TRUE: return TRUE
    if a is FALSE: return b
    if b is FALSE: return a
    return apply("or", lambda x, y: TRUE if x is TRUE else y, a, b)

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    def f(x, y, z):
        if x is TRUE: return y
        if x is FALSE: return z
        return ite(b_atom(x), y, z)
    return apply("ite", f, c, a, b)

# ------------------------------------------------------------------ numeric ops on Values
def num(v):
    """any numeric/bool Value -> Value with poly leaves"""
    return apply("num", lambda t: t if t.op == "poly" else poly(t), v)
def add(a, b): return apply("add", lambda x, y: padd(poly(x), poly(y)), a, b)
def sub(a, b): return apply("sub", lambda x, y: psub(poly(x), poly(y)), a, b)
def mul(a, b): return apply("mul", lambda x, y: pmul(poly(x), poly(y)), a, b)
def neg(a): return apply("neg", lambda x: pneg(poly(x)), a)
def div(a, b): return apply("div", _div, a, b)
def _div(x, y):
    x, y = poly(x), poly(y)
    if is_const(y) and const_val(y) != 0: return pscale(x, 1 / const_val(y))
    # exact cancellation c*m*P'/P'
    if len(x.args[0]) > 1 and len(x.args[0]) == len(y.args[0]):
        c1, m1, p1 = _content(x); c2, m2, p2 = _content(y)
        if p1 is p2: return mul(mkpoly({m1: c1 / c2}), ppow(mkpoly({m2: F(1)}), -1))
    return mul(x, ppow(y, -1))
def idiv(a, b):
    def f(x, y):
        x, y = poly(x), poly(y)
        if is_const(x) and is_const(y) and const_val(y) != 0:
            q = const_val(x) / const_val(y)
            return const(int(q))
        if y is ONE: return x
        return poly(mk("idiv", x, y, isint=True))
    return apply("idiv", f, a, b)
def imod(a, b):
    def f(x, y):
        x, y = poly(x), poly(y)
        if is_const(x) and is_const(y) and const_val(y) != 0:
            m = abs(const_val(x)) % abs(const_val(y))
            return const(m if const_val(x) >= 0 else -m)
        return poly(mk("imod", x, y, isint=True))
    return apply("imod", f, a, b)

def exp(a): return apply("exp", _exp, a)
def _exp(x):
    x = poly(x)
    mono = {}
    out = ONE
    for m, c in x.args[0]:
        if len(m) == 1 and m[0][0].op == "log" and m[0][1] == 1:
            out = mul(out, ppow(m[0][0].args[0], c))
            continue
        base = mkpoly({m: F(1)})
        mono[mk("E", base)] = c
    mm = tuple(sorted(((a, F(e)) for a, e in mono.items()), key=lambda z: z[0].id))
    return mul(out, mkpoly({mm: F(1)}))
def log(a): return apply("log", _log, a)
def _log(x):
    x = poly(x)
    if is_const(x) and const_val(x) == 1: return ZERO
    if len(x.args[0]) == 1 and x.args[0][0][1] > 0:
        (m, c), = x.args[0]
        r = ZERO if c == 1 else poly(mk("log", const(c)))
        for a, e in m:
            if a.op == "E": r = padd(r, pscale(a.args[0], e))
            else: r = padd(r, pscale(poly(mk("log", ppow_atom(a, 1))), e))
        return r
    return poly(mk("log", x))
def sqrt(a): return npow(a, F(1, 2))
def power(a, b):
    def f(x, y):
        x, y = poly(x), poly(y)
        if is_const(y): return ppow(x, const_val(y))
        if poly_sign(x) != 1 and isint_poly(y): return poly(mk("ipow", x, y))
        return exp(mul(y, log(x)))
    return apply("power", f, a, b)

def isint_poly(p):
    return all(c.denominator == 1 and all(a.isint and e > 0 and e.denominator == 1 for a, e in m) for m, c in p.args[0])

def fn(name, *vals, isint=False):
    """opaque pure numeric function lifted over diagrams"""
    def f(*ts): return poly(mk(name, *[t if t.op not in ("bool",) else t for t in ts], isint=isint))
    return apply(("fn", name, isint), f, *vals)
def app(op, *vals):
    """opaque non-numeric application lifted over diagrams"""
    return apply(("app", op), lambda *ts: mk(op, *ts), *vals)
def bapp(op, *vals):
    """opaque predicate"""
    return asbool(app(op, *vals))

# signs
def poly_sign(p):
    """1: >0, 0.5: >=0, -1: <0, -0.5: <=0, 0: zero, None unknown"""
    if not p.args[0]: return 0
    # the extreme doubles dominate every finite quantity (they only occur as neutral starting values)
    big = [(m[0][0].args[0], c) for m, c in p.args[0] if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "lim" and m[0][0].args[1] in ("double", "float", "long double")
           and m[0][0].args[0] in ("infinity", "max", "lowest")]
    if len(big) == 1 and not any(a.op in ("lim", "bv") for m, c in p.args[0] for a, e in m if not (len(m) == 1 and a.op == "lim" and e == 1)):
        nm, c = big[0]
        return 1 if (c > 0) == (nm != "lowest") else -1
    sg = set()
    strict = False
    for m, c in p.args[0]:
        s = 1
        st = True
        for a, e in m:
            if is_pos(a): continue
            if a.op == "pol" and False: continue
            ev = isinstance(e, int) and e % 2 == 0 or (e == int(e) and int(e) % 2 == 0)
            if is_nonneg(a) or ev or (isinstance(e, F) and e.denominator % 2 == 0):
                st = False
            else: return None
        sg.add(1 if c > 0 else -1)
        strict = strict or st
    if len(sg) > 1: return None
    s = sg.pop()
    return s if strict else s * 0.5

_sgmemo = {}
def sgn_dd(p):
    """Value with leaves const(-1/0/1): the sign of poly p"""
    r = _sgmemo.get(p.id)
    if r is not None: return r
    r = _sgn_dd(p)
    _sgmemo[p.id] = r
    return r
M1 = const(-1)
def _sgn_dd(p):
    if is_const(p):
        c = const_val(p)
        return ONE if c > 0 else M1 if c < 0 else ZERO
    s = poly_sign(p)
    if s == 1: return ONE
    if s == -1: return M1
    if len(p.args[0]) == 1:
        (m, c), = p.args[0]
        fs = [(a, e) for a, e in m if not is_pos(a)]
        if len(fs) == 1 and fs[0][1] == 1 and c == 1 and len(m) == 1:
            pass
        else:
            r = ONE if c > 0 else M1
            for a, e in fs:
                sa = sgn_dd(a.args[0]) if a.op == "pol" else sgn_dd(ppow_atom(a, 1))
                if e == int(e) and int(e) % 2 == 1: r = mul(r, sa)
                else: r = mul(r, mul(sa, sa))
            return r
    else:
        c, mono, p2 = _content(p)
        if mono:
            r = sgn_dd(mkpoly({mono: c}))
            return mul(r, sgn_dd(p2))
        if c != 1:
            # primitive scaling
            r = sgn_dd(p2)
            return r if c > 0 else neg(r)
    s = poly_sign(p)
    var = mk("sgn", p)
    lo, hi = M1, ONE
    if s == 0.5: lo = ZERO if False else M1
    n = mkd(var, (M1, ZERO, ONE)) if s is None else None
    if s == 0.5: n = mkd(var, (ZERO, ZERO, ONE))
    if s == -0.5: n = mkd(var, (M1, ZERO, ZERO))
    return n

def sign_in(p, S):
    return apply(("signin", S), lambda t: boolc(int(const_val(t)) in S), sgn_dd(p))
def cmp(op, a, b):
    S = {"<": (-1,), "<=": (-1, 0), ">": (1,), ">=": (0, 1), "==": (0,), "!=": (-1, 1)}[op]
    return apply(("cmp", op), lambda x, y: sign_in(psub(poly(x), poly(y)), S), a, b)
def maxv(a, b): return ite(cmp("<", a, b), b, a)
def minv(a, b): return ite(cmp("<", b, a), b, a)
def absv(a): return ite(cmp("<", a, ZERO), neg(a), a)

# ------------------------------------------------------------------ substitution
def rewrite_atom(v, a, r):
    """replace every occurrence of atom a (an opaque or symbol T) by Value r"""
    return _subst(v, {a: r}, {}, False)

def subst(v, mp):
    return _subst(v, mp, {}, True)

def _touch(v, mp, byfree):
    if byfree: return any(k in v.free for k in mp)
    at = _atoms_of(v)
    return any(k in at for k in mp)

def _subst(v, mp, memo, byfree):
    if isinstance(v, (T, D)):
        if not _touch(v, mp, byfree): return v
    r = memo.get(v.id)
    if r is not None: return r
    if isinstance(v, D):
        # rebuild the variable as a diagram, then recombine
        var = v.var
        kids = [_subst(k, mp, memo, byfree) for k in v.kids]
        if var.op == "sgn":
            e = _subst(var.args[0], mp, memo, byfree)
            s = apply("sgnv", lambda t: sgn_dd(poly(t)), e)
            r = apply("sel3", lambda t, n, z, p: n if const_val(t) < 0 else p if const_val(t) > 0 else z, s, *kids)
        elif var.op == "bool":
            c = _subst_atom(var.args[0], mp, memo, byfree)
            r = ite(asbool(c), kids[1], kids[0])
        else:
            c = _subst_atom(var.args[0], mp, memo, byfree)
            r = enum_case(c, var.args[1], kids)
        memo[v.id] = r
        return r
    r = _subst_atom(v, mp, memo, byfree)
    memo[v.id] = r
    return r

def _subst_atom(v, mp, memo, byfree):
    if v in mp: return mp[v]
    if v.op == "poly":
        tot = ZERO
        for m, c in v.args[0]:
            t = const(c)
            for a, e in m:
                if not _touch(a, mp, byfree): b = ppow_atom(a, e); t = mul(t, b); continue
                b = _subst(a.args[0], mp, memo, byfree) if a.op == "pol" else _subst(a, mp, memo, byfree)
                t = mul(t, npow(num(b), e))
            tot = add(tot, t)
        return tot
    if not _touch(v, mp, byfree): return v
    if v.op in BINDERS:
        return _subst_binder(v, mp, memo, byfree)
    args = []
    for a in v.args:
        args.append(_subst_arg(a, mp, memo, byfree))
    return rebuild(v, args)

def _subst_arg(a, mp, memo, byfree):
    if isinstance(a, (T, D)): return _subst(a, mp, memo, byfree)
    if isinstance(a, tuple): return tuple(_subst_arg(x, mp, memo, byfree) for x in a)
    return a

def rebuild(v, args):
    op = v.op
    if op == "E": return exp(args[0])
    if op == "log": return log(args[0])
    if op == "pol": return args[0]
    if op == "sel": return sel(args[0], args[1])
    if op == "len": return alen(args[0])
    if op == "sel2": return globals()["sel2"](*args)
    if op == "upd": return upd(*args)
    if op == "push": return push(*args)
    if op == "idiv": return idiv(*args)
    if op == "imod": return imod(*args)
    if op == "bigmul": return mul(args[0], args[1])
    if op == "amap": return apply("amap", _amap, *args)
    h = REBUILD.get(op)
    if h: return h(*args)
    return lift_mk(v, args)

REBUILD = {}

def lift_mk(v, args):
    # lift over diagrams found directly in args (tuples must not contain diagrams that changed)
    idx = [i for i, a in enumerate(args) if isinstance(a, (T, D))]
    if any(isinstance(args[i], D) for i in idx) and not v.op in BINDERS:
        def f(*ts):
            a2 = list(args)
            for i, t in zip(idx, ts): a2[i] = t
            return mk(v.op, *a2, isint=v.isint)
        return apply(("rb", v.op, v.isint, tuple(key_of(a) for i, a in enumerate(args) if i not in idx)), f, *[args[i] for i in idx])
    return mk(v.op, *args, isint=v.isint)

def enum_case(c, dom, kids):
    def f(t, *ks):
        if t.op == "enumc":
            return ks[dom.index(t.args[0])] if t.args[0] in dom else unk("enum constant " + t.args[0])
        var = mk("enum", t, dom)
        return mkd(var, tuple(ks)) if all(not isinstance(k, D) or k.var.id > var.id for k in ks) else build(var, ks)
    # kids stay diagrams: only lift over c
    def g(t): return f(t, *kids)
    if isinstance(c, T): return build_enum(c, dom, kids)
    out = apply(("enumidx", dom), lambda t: enum_index(t, dom), c)
    return apply(("pick", len(kids)), lambda i, *ks: ks[int(const_val(i))], out, *kids)

def enum_index(t, dom):
    if t.op == "enumc":
        return const(dom.index(t.args[0])) if t.args[0] in dom else unk("enum constant")
    var = mk("enum", t, dom)
    return mkd(var, tuple(const(i) for i in range(len(dom))))
def build_enum(t, dom, kids):
    i = enum_index(t, dom)
    if isinstance(i, T) and i.op == "unk": return i
    return apply(("pick", len(kids)), lambda j, *ks: ks[int(const_val(j))], i, *kids)

# ------------------------------------------------------------------ binders
# binder layout: (op, height, ...); bodies refer to bv(height[,slot])
def bvar(h, slot=0, isint=False): return mk("bv", h, slot, isint=isint)

def close(vals, syms, isints):
    """abstract syms out of vals; returns (height, bodies)"""
    h = 0
    for v in vals:
        h = max(h, v.height)
    h += 1
    mp = {s: (poly(bvar(h, i, ii)) if num_ else bvar(h, i, ii)) for i, (s, (ii, num_)) in enumerate(zip(syms, isints))}
    return h, tuple(subst(v, mp) for v in vals)

def open_(body, h, vals, isints):
    mp = {}
    for i, (v, (ii, num_)) in enumerate(zip(vals, isints)):
        mp[bvar(h, i, ii)] = v
    return subst(body, mp)

IDX = (True, True)    # (isint, numeric)

def _bind1(op, n, k, body, extra=(), isint=False):
    h, (b,) = close([body], [k], [IDX])
    return mk(op, h, n, b, *extra, isint=isint)

def inst1(t, i):
    """instantiate a 1-index binder body at i"""
    return open_(t.args[2], t.args[0], [i], [IDX])

def Sum(n, k, body):
    """sum_{k<n} body ; n Value int, k sym, body Value"""
    n = num(n); body = num(body)
    if isinstance(n, D): return apply(("Sum", k.id, body.id), lambda t: Sum(t, k, body), n)
    if is_const(n):
        c = int(const_val(n))
        if c <= 0: return ZERO
        if c == 1: return subst(body, {k: ZERO})
    if k not in body.free: return mul(n_nonneg(n), body)
    if isinstance(body, T):
        # linearity: pull out k-free factors
        tot = ZERO
        grouped = {}
        for m, c in body.args[0]:
            out = tuple((a, e) for a, e in m if k not in a.free)
            inn = tuple((a, e) for a, e in m if k in a.free)
            d = grouped.setdefault(inn, {})
            d[out] = d.get(out, 0) + c
        for inn, d in grouped.items():
            coef = mkpoly(d)
            if not inn: tot = add(tot, mul(coef, n_nonneg(n))); continue
            b = mkpoly({inn: F(1)})
            if len(inn) == 1 and inn[0][0] is k and inn[0][1] == 1:
                tot = add(tot, mul(coef, mul(const(F(1, 2)), mul(n_nonneg(n), sub(n, ONE))))); continue
            t = _bind1("sum", n, k, b, isint=b.isint)
            tot = add(tot, mul(coef, poly(t)))
        return tot
    # conditional body: split conditions that do not depend on k out
    for var in sorted(dvars(body), key=lambda x: x.id):
        if k not in var.free:
            return build(var, [Sum(n, k, restrict(body, var, i)) for i in range(len(domain(var)))])
    t = _bind1("sum", n, k, body, isint=all(l.isint for l in leaves(body)))
    return poly(t)

def n_nonneg(n):
    s = apply("nn", lambda t: t if poly_sign(t) in (1, 0.5, 0) else (ite(sign_in(t, (1,)), t, ZERO)), n)
    return s

def Prod(n, k, body):
    n = num(n); body = num(body)
    if isinstance(n, D): return apply(("Prod", k.id, body.id), lambda t: Prod(t, k, body), n)
    if is_const(n) and const_val(n) <= 0: return ONE
    return poly(_bind1("prod", n, k, body))

def Exists(n, k, body):
    n = num(n); body = asbool(body)
    if body is FALSE: return FALSE
    if isinstance(n, D): return apply(("Exists", k.id, body.id), lambda t: Exists(t, k, body), n)
    if is_const(n) and const_val(n) <= 0: return FALSE
    if is_const(n) and const_val(n) == 1: return subst(body, {k: ZERO})
    if k not in body.free: return b_and(cmp(">", n, ZERO), body)
    for var in sorted(dvars(body), key=lambda x: x.id):
        if k not in var.free:
            return build(var, [Exists(n, k, restrict(body, var, i)) for i in range(len(domain(var)))])
    f = _first_threshold(n, k, body)
    if f is not None: return b_and(cmp(">", n, ZERO), cmp("<", f, n))
    return b_atom(_bind1("exists", n, k, body))

def _first_threshold(n, k, body):
    """closed form when the condition only compares k with an integer quantity"""
    if not (isinstance(body, D) and body.var.op == "sgn" and all(x is TRUE or x is FALSE for x in body.kids)): return None
    p, c = body.var.args[0], None
    for m, co in p.args[0]:
        if any(k is a or k in a.free for a, e in m):
            if len(m) != 1 or m[0][0] is not k or m[0][1] != 1 or co not in (1, -1): return None
            c = int(co)
    if c is None or not isint_poly(p): return None
    q = sub(poly(k), poly(p)) if c == 1 else add(poly(p), poly(k))   # the quantity k is compared with
    lt, at, gt_ = [x is TRUE for x in (body.kids if c == 1 else body.kids[::-1])]   # k < q, k = q, k > q
    r = maxv(add(q, ONE), ZERO) if gt_ else n
    if at: r = ite(cmp(">=", q, ZERO), q, r)
    if lt: r = ite(cmp(">", q, ZERO), ZERO, r)
    return minv(n, r)

def First(n, k, body):
    """least k<n with body, else n"""
    n = num(n); body = asbool(body)
    if body is FALSE: return n
    if isinstance(n, D): return apply(("First", k.id, body.id), lambda t: First(t, k, body), n)
    if is_const(n) and const_val(n) <= 0: return n
    for var in sorted(dvars(body), key=lambda x: x.id):
        if k not in var.free:
            return build(var, [First(n, k, restrict(body, var, i)) for i in range(len(domain(var)))])
    if body is TRUE: return ite(cmp(">", n, ZERO), ZERO, n)
    f = _first_threshold(n, k, body)
    if f is not None: return f
    t = _bind1("first", n, k, body, isint=True)
    NONNEG.add(t)
    return poly(t)

def Fold(op, n, k, body):
    n = num(n); body = num(body)
    if isinstance(n, D): return apply(("Fold", op, k.id, body.id), lambda t: Fold(op, t, k, body), n)
    if is_const(n) and const_val(n) == 1: return subst(body, {k: ZERO})
    return poly(_bind1(op, n, k, body))

def Lam(n, k, body):
    n = num(n)
    if isinstance(n, D): return apply(("Lam", k.id, body.id), lambda t: Lam(t, k, body), n)
    # eta: lam(len(a), sel(a,k)) = a
    if isinstance(body, T):
        b = body
        if b.op == "poly" and len(b.args[0]) == 1 and b.args[0][0][1] == 1 and len(b.args[0][0][0]) == 1 and b.args[0][0][0][0][1] == 1:
            b = b.args[0][0][0][0][0]
        if b.op == "sel" and b.args[1] is poly(k) and k not in b.args[0].free and alen(b.args[0]) is n:
            return b.args[0]
    for var in sorted(dvars(body), key=lambda x: x.id):
        if k not in var.free:
            return build(var, [Lam(n, k, restrict(body, var, i)) for i in range(len(domain(var)))])
    return _bind1("lam", n, k, body)

def Filt(n, k, cond, val):
    """vector of val(k) for the k<n with cond(k), in order"""
    n = num(n)
    if cond is TRUE: return Lam(n, k, val)
    if isinstance(n, D): return apply(("Filt", k.id, cond.id, val.id), lambda t: Filt(t, k, cond, val), n)
    h, (c, v) = close([cond, val], [k], [IDX])
    r = mk("filt", h, n, c, v)
    if any(isinstance(l, T) and l.op in ("sel", "obj", "sym", "fld", "null") for l in leaves(val)): NONNUM.add(r)
    return r

def Rec(which, n, k, states, inits, steps, kinds):
    """value number `which` after n iterations of states' = steps(k, states); kinds: (isint, numeric) per state"""
    if isinstance(n, D): return apply(("Rec", which, k.id, tuple(key_of(s) for s in states), tuple(key_of(s) for s in inits), tuple(key_of(s) for s in steps)), lambda t: Rec(which, t, k, states, inits, steps, kinds), n)
    n = num(n)
    if is_const(n) and const_val(n) <= 0: return inits[which]
    h, bodies = close(list(steps), [k] + list(states), [IDX] + list(kinds))
    ii, numeric = kinds[which]
    t = mk("rec", h, n, which, tuple(inits), bodies, tuple(kinds), isint=ii)
    return poly(t) if numeric else t

def _subst_binder(v, mp, memo, byfree):
    op = v.op
    S = lambda x: _subst(x, mp, memo, byfree)
    k = fresh("b", True)
    pk = poly(k)
    if op in ("sum", "exists", "first", "minf", "maxf", "lam", "prod"):
        n = S(v.args[1])
        body = _subst(inst1(v, pk), mp, {}, byfree)
        return {"sum": Sum, "prod": Prod, "exists": Exists, "first": First, "lam": Lam,
                "minf": lambda n, k, b: Fold("minf", n, k, b), "maxf": lambda n, k, b: Fold("maxf", n, k, b)}[op](n, k, body)
    if op == "filt":
        h, n, c, b = v.args
        c2 = _subst(open_(c, h, [pk], [IDX]), mp, {}, byfree)
        b2 = _subst(open_(b, h, [pk], [IDX]), mp, {}, byfree)
        return Filt(S(n), k, c2, b2)
    if op == "rec":
        h, n, which, inits, bodies, kinds = v.args
        ss = [fresh("s", ii) for ii, nm in kinds]
        vals = [pk] + [poly(s) if nm else s for s, (ii, nm) in zip(ss, kinds)]
        bs = [_subst(open_(b, h, vals, [IDX] + list(kinds)), mp, {}, byfree) for b in bodies]
        ins = tuple(S(i) for i in inits)
        return Rec(which, S(n), k, ss, ins, bs, kinds)
    if op == "arec":
        h, arr0, lo, n, step, body = v.args
        a = fresh("self")
        b2 = _subst(open_(body, h, [pk, a], [IDX, (False, False)]), mp, {}, byfree)
        return ARec(S(arr0), S(lo), S(n), step, k, a, b2)
    raise NoValue("binder " + op)

def ARec(arr0, lo, n, step, k, self, body):
    """array after: for j<n: arr[lo+step*j] = body(j, arr)"""
    def f(a0, l, nn):
        h, (b,) = close([body], [k, self], [IDX, (False, False)])
        return mk("arec", h, a0, l, nn, step, b)
    return apply(("ARec", step, k.id, self.id, body.id), f, arr0, num(lo), num(n))

# ------------------------------------------------------------------ arrays
def alen(a): return apply("alen", _alen, a)
def _alen(a):
    if a.op == "lam": return a.args[1]
    if a.op == "upd": return alen(a.args[0])
    if a.op == "push": return add(alen(a.args[0]), ONE)
    if a.op == "arec": return alen(a.args[1])
    if a.op == "amap": return alen(a.args[0])
    if a.op == "filt":
        k = fresh("c", True)
        c = open_(a.args[2], a.args[0], [poly(k)], [IDX])
        return Sum(a.args[1], k, ite(c, ONE, ZERO))
    if a.op == "nil": return ZERO
    if LENHOOK is not None:
        r = LENHOOK(a)
        if r is not None: return r
    t = mk("len", a, isint=True)
    return poly(t)

NIL = mk("nil")
LENHOOK = None
SELHOOK = None

def sel(a, i): return apply("sel", _sel, a, num(i))
def _sel(a, i):
    if a.op == "lam": return inst1(a, i)
    if a.op == "upd": return ite(cmp("==", i, a.args[1]), a.args[2], sel(a.args[0], i))
    if a.op == "push":
        return ite(cmp("==", i, alen(a.args[0])), a.args[1], sel(a.args[0], i))
    if a.op == "amap":
        arr0, lo, n, f = a.args        # f is a lam over j<n : element lo+j
        j = sub(i, lo)
        inr = b_and(cmp(">=", j, ZERO), cmp("<", j, n))
        return ite(inr, sel(f, j), sel(arr0, i))
    if SELHOOK is not None:
        r = SELHOOK(a, i)
        if r is not None: return r
    t = mk("sel", a, i)
    return t if a in NONNUM else poly(t)

NONNUM = set()   # array terms whose elements are not numbers

def upd(a, i, v): return apply("upd", _upd, a, num(i), v) if not isinstance(v, D) else apply(("updD", v.id), lambda x, y: mk("upd", x, y, v), a, num(i))
def _upd(a, i, v):
    if a.op == "upd" and a.args[1] is i: a = a.args[0]
    return mk("upd", a, i, v)
def push(a, v):
    return apply(("push", v.id), lambda x: mk("push", x, v), a)
def _amap(a0, l, nn, f):
    if is_const(nn) and const_val(nn) <= 0: return a0
    if l is ZERO and (a0 is NIL or alen(a0) is nn): return f
    return mk("amap", a0, l, nn, f)
def AMap(arr0, lo, n, k, body):
    """arr0 with elements lo..lo+n-1 replaced by body(j)"""
    def f(a0, l, nn):
        return apply("amap", _amap, a0, l, nn, Lam(nn, k, body))
    return apply(("AMap", k.id, body.id), f, arr0, num(lo), num(n))

# matrices: opaque term with sel2; modifications via rowset/colset arrays
def sel2(m, i, j): return apply("sel2", _sel2, m, num(i), num(j))
def _sel2(m, i, j):
    if m.op == "upd2": return ite(b_and(cmp("==", i, m.args[1]), cmp("==", j, m.args[2])), m.args[3], sel2(m.args[0], i, j))
    if m.op == "cols":   # matrix given as an array of columns
        return sel(sel(m.args[0], j), i)
    if m.op == "rows":
        return sel(sel(m.args[0], i), j)
    return poly(mk("sel2", m, i, j))

# ------------------------------------------------------------------ display
def show(v, depth=0):
    if depth > 14: return "…"
    if isinstance(v, D):
        if v.var.op == "sgn":
            e = show(v.var.args[0], depth + 1)
            n, z, p = v.kids
            S = lambda x: show(x, depth + 1)
            if n is z: return "(%s>0 ? %s : %s)" % (e, S(p), S(n))
            if z is p: return "(%s<0 ? %s : %s)" % (e, S(n), S(p))
            if n is p: return "(%s==0 ? %s : %s)" % (e, S(z), S(n))
            return "(sgn %s ? <0:%s =0:%s >0:%s)" % (e, S(n), S(z), S(p))
        if v.var.op == "bool":
            return "(%s ? %s : %s)" % (show(v.var.args[0], depth + 1), show(v.kids[1], depth + 1), show(v.kids[0], depth + 1))
        return "(%s {%s})" % (show(v.var.args[0], depth + 1), "; ".join("%s: %s" % (d.split("::")[-1], show(k, depth + 1)) for d, k in zip(v.var.args[1], v.kids)))
    if v.op == "poly":
        if not v.args[0]: return "0"
        out = []
        for m, c in v.args[0]:
            s = []
            for a, e in m:
                x = show(a, depth + 1)
                if e != 1: x = "%s^%s" % (x, e)
                s.append(x)
            if c != 1 or not s:
                s.insert(0, str(c))
            out.append("*".join(s))
        return out[0] if len(out) == 1 else "(" + " + ".join(out) + ")"
    if v.op == "sym": return str(v.args[0])
    if v.op == "bv": return "k%d.%d" % (v.args[0], v.args[1]) if v.args[1] else "k%d" % v.args[0]
    if v.op == "bool": return str(v.args[0])
    if v.op == "null": return "null"
    if v.op == "enumc": return v.args[0].split("::")[-1]
    if v.op == "str": return repr(v.args[0])
    if v.op == "unk": return "⊤[%s]" % v.args[0]
    if v.op == "pol": return show(v.args[0], depth + 1)
    if v.op == "E": return "exp(%s)" % show(v.args[0], depth + 1)
    if v.op == "fld": return "%s.%s" % (show(v.args[0], depth + 1), v.args[1])
    if v.op == "obj": return "new#%s:%s" % (v.args[0], str(v.args[1]).split("::")[-1])
    def sa(a):
        if isinstance(a, (T, D)): return show(a, depth + 1)
        if isinstance(a, tuple): return "[" + ",".join(sa(x) for x in a) + "]"
        return str(a).split("::")[-1]
    args = v.args[1:] if v.op in BINDERS else v.args
    return "%s(%s)" % (v.op, ", ".join(sa(a) for a in args))

# ------------------------------------------------------------------ operator sugar for specifications
def _lift(x): return x if isinstance(x, (T, D)) else const(x)
for _C in (T, D):
    _C.__add__ = lambda a, b: add(a, _lift(b)); _C.__radd__ = lambda a, b: add(_lift(b), a)
    _C.__sub__ = lambda a, b: sub(a, _lift(b)); _C.__rsub__ = lambda a, b: sub(_lift(b), a)
    _C.__mul__ = lambda a, b: mul(a, _lift(b)); _C.__rmul__ = lambda a, b: mul(_lift(b), a)
    _C.__truediv__ = lambda a, b: div(a, _lift(b)); _C.__rtruediv__ = lambda a, b: div(_lift(b), a)
    _C.__neg__ = lambda a: neg(a)
def lt(a, b): return cmp("<", _lift(a), _lift(b))
def le(a, b): return cmp("<=", _lift(a), _lift(b))
def gt(a, b): return cmp(">", _lift(a), _lift(b))
def ge(a, b): return cmp(">=", _lift(a), _lift(b))
def eq(a, b): return cmp("==", _lift(a), _lift(b))
def ne(a, b): return cmp("!=", _lift(a), _lift(b))
