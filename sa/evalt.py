"""Random interpretation of value graphs (Gulwani–Necula style): every free symbol and every
uninterpreted operation gets a consistent random meaning, and two graphs are compared under
it.  Only graphs are interpreted; no program code is run."""
import decimal, hashlib, math, random, struct, time
from decimal import Decimal
from fractions import Fraction as F
from . import terms as t
from .terms import T, D, TRUE, FALSE, NULL

class Discard(Exception): pass
class Undefd(Discard): pass     # the real-valued expression has no value (division by zero, root or log of a negative)
class Tainted(Exception): pass

GRID = [-2.0, -1.0, -0.5, 0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0]
PGRID = [0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 2.0, 3.0]
CAP = 80

# high precision: a difference seen in double precision counts only if it is still there with 300 digits
HP = False
CTX = decimal.Context(prec=300, Emin=-10**8, Emax=10**8, traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow])
NUM = (int, float, Decimal)
def coef(c):
    if not HP: return float(c)
    c = F(c)
    return Decimal(c.numerator) / Decimal(c.denominator) if c.denominator != 1 else Decimal(c.numerator)
def power(y, e):
    """y to a rational power; y >= 0 unless e is whole"""
    if not HP: return float(y) ** (int(e) if e == int(e) else float(e))
    y = Decimal(y)
    if e == int(e): return y ** int(e)
    if y == 0: return Decimal(0)
    return y.sqrt() ** int(2 * e) if 2 * e == int(2 * e) else y ** coef(e)
def tie(): return Decimal("1e-250") if HP else 1e-11
def tiny(): return Decimal("1e-200") if HP else 1e-12

class Hint:
    """a sampling distribution that is not an assumption"""
    def __init__(self, f): self.f = f
    def __call__(self, *a): return self.f(*a)

class Arr:
    __slots__ = ("n", "f", "memo", "tok")
    def __init__(self, n, f, tok=None): self.n, self.f, self.memo, self.tok = n, f, {}, tok
    def get(self, i):
        if i not in self.memo: self.memo[i] = self.f(i)
        return self.memo[i]
class Mat:
    __slots__ = ("r", "c", "f", "memo", "tok", "nnz")
    def __init__(self, r, c, f, tok=None): self.r, self.c, self.f, self.memo, self.tok = r, c, f, {}, tok
    def get(self, i, j):
        if (i, j) not in self.memo: self.memo[(i, j)] = self.f(i, j)
        return self.memo[(i, j)]
class Map_:
    __slots__ = ("base", "puts")
    def __init__(self, base, puts): self.base, self.puts = base, puts

def sig(x, d):
    if x == 0 or x != x or x in (math.inf, -math.inf): return repr(x)
    return "%.*e" % (d, x)

class Env:
    def __init__(self, seed, I=None, dom=None, digits=9):
        self.seed, self.I, self.dom, self.digits = seed, I, dom or {}, digits
        self.rnd = random.Random(seed)
        self.memo = {}
        self.alias = None
        self.drawdom = None
        self.steps = 0
        self.used = {}
        self.maxint = 4
        self.cap, self.maxsteps = CAP, 400000
        self.tol = 1e-7
        self.deadline = None
        self.force = {}      # meaning key -> value imposed on that free quantity
        self.touch = None    # meaning keys read (dict key -> kind) while recording
        self.cover = None    # decision id -> set of outcomes reached
        self.want = None     # decision id -> environment in which it was reached (filled in)
        self.pin = {}        # meaning key -> random number its value is made of, kept from another interpretation
        self.next = self.cur = None
        self.made = {}       # meaning key -> that number, while recording
        self.extra = None    # decision graph read for coverage only
        self.suspect = False # values so small that the tolerance may hide a difference
        self.lossy = False   # a function was interpreted in double precision only
        self.binders = {}
        self.recs = {}
    def leaf(self, k, kind):
        if self.touch is not None: self.touch.setdefault(k, kind)
        x = self.force.get(k)
        self.next = self.pin.get(k) if self.pin and x is None else None
        self.cur = k if self.touch is not None and x is None else None
        return x
    # ------------------------------------------------------------ hashing
    def key(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, NUM): return sig(float(v), self.digits)
        if isinstance(v, Arr):
            if v.tok is not None: return v.tok
            return ("arr", v.n) + tuple(self.key(v.get(i)) for i in range(int(min(v.n, self.cap))))
        if isinstance(v, Mat):
            if v.tok is not None: return v.tok
            return ("mat", v.r, v.c) + tuple(self.key(v.get(i, j)) for i in range(int(v.r)) for j in range(int(v.c)))
        if isinstance(v, Map_): return ("map", self.key(v.base)) + tuple((self.key(a), self.key(b)) for a, b in v.puts)
        if isinstance(v, tuple): return tuple(self.key(x) for x in v)
        return v
    def h(self, *parts):
        if self.next is not None:
            x, self.next = self.next, None
            if self.cur is not None: self.made[self.cur], self.cur = x, None
            return x
        if self.cur is not None:
            k, self.cur = self.cur, None
            x = self.made[k] = self.h(*parts)
            return x
        return int.from_bytes(hashlib.blake2b(repr((self.seed,) + parts).encode(), digest_size=8).digest(), "big")
    def numval(self, hv, pos=False, nonneg=False):
        r = random.Random(hv)
        if pos: return r.choice(PGRID) if r.random() < .5 else r.randint(8, 192) / 64
        if nonneg: return r.choice([0.0] + PGRID) if r.random() < .5 else r.randint(0, 192) / 64
        return r.choice(GRID) if r.random() < .5 else r.randint(-160, 192) / 64
    # ------------------------------------------------------------ evaluation
    def ev(self, v, b=()):
        """b: tuple of (height, values)"""
        self.steps += 1
        if self.deadline and not self.steps & 1023 and time.time() > self.deadline: raise Discard("time")
        if self.steps > self.maxsteps: raise Discard("too large")
        if isinstance(v, D):
            while isinstance(v, D):
                r = self.choose(v.var, b)
                if self.cover is not None: self.cover.setdefault(v.id, set()).add(r)
                if self.want is not None and self.want.get(v.id, 0) is None: self.want[v.id] = (b, dict(self.binders))
                v = v.kids[r]
            return self.ev(v, b)
        if v.op == "poly": return self.poly(v, b)
        fb = [x for x in v.free if x.op == "bv"]
        if not fb:
            mk = v.id
        else:
            hs = {x.args[0] for x in fb}
            mk = (v.id,) + tuple((h, self.key(vals)) for h, vals in b if h in hs)
        if mk in self.memo: return self.memo[mk]
        r = self.atom(v, b)
        self.memo[mk] = r
        return r
    def bv(self, v, b):
        for h, vals in reversed(b):
            if h == v.args[0]: return vals[v.args[1]]
        raise Tainted("unbound")
    def choose(self, var, b):
        if var.op == "sgn":
            x, sc = self.polys(var.args[0], b)
            if x != x: raise Discard("nan")
            if abs(x) > 1e300: r = 0 if x < 0 else 2
            elif abs(x) <= tie() * sc: r = 1
            else: r = 0 if x < 0 else 2
            return r
        if var.op == "bool":
            x = self.ev(var.args[0], b)
            if not isinstance(x, bool):
                if isinstance(x, NUM): x = x != 0
                else:
                    k = self.key(x)
                    y = self.leaf(("choose", k), ("choice", (0, 1)))
                    x = bool(self.h("b", k) & 1) if y is None else y
            return 1 if x else 0
        x = self.ev(var.args[0], b)
        dom = var.args[1]
        if isinstance(x, tuple) and x[0] == "enumc" and x[1] in dom: return dom.index(x[1])
        k = self.key(x)
        y = self.leaf(("choose", k), ("choice", tuple(range(len(dom)))))
        return self.h("enum", k) % len(dom) if y is None else y
    def poly(self, p, b): return self.polys(p, b)[0]
    def count(self, v, b):
        n = self.ev(v, b)
        n = num(n)
        if n == math.inf: return self.cap + 1
        return int(round(n))
    def body1(self, v, b):
        h = v.args[0]
        return lambda i, x: self.ev(x, b + ((h, (i,)),))
    def atom(self, v, b):
        m = getattr(self, "a_" + v.op, None)
        if m is not None: return m(v, b)
        args = []
        for a in v.args:
            if isinstance(a, (T, D)): args.append(self.key(self.ev(a, b)))
            elif isinstance(a, tuple): args.append(tuple(self.key(self.ev(x, b)) if isinstance(x, (T, D)) else x for x in a))
            else: args.append(a)
        return self.opaque(v, tuple(args))
    def opaque(self, v, args):
        """meaning of an uninterpreted application; result kind is decided by the consumer"""
        d = self.domof(v)
        if d is not None: return self.fromdom(d, (v.op,) + args)
        if v.isint:
            x = self.leaf(("int", v.op) + args, "inn")
            return x if x is not None else self.h("int", v.op, args) % (self.maxint + 1)
        return Opq(self, (v.op,) + args, v in t.POS, v in t.NONNEG)
    def domof(self, v):
        d = self.dom.get(v)
        if d is None: d = self.dom.get(v.op)
        if d is None and v.op == "fld": d = self.dom.get(("fld", v.args[1]))
        if d is None and v.op.startswith("call:"): d = self.dom.get(v.op)
        return d
    def fromdom(self, d, k):
        # ranges of symbols only steer the sampling (assumptions are stated by `under`)
        num_ = isinstance(d, tuple) and len(d) == 2 and not isinstance(d[0], str) and k[0] == "sym"
        if num_:
            x = self.leaf(k, "pos" if d[0] > 0 else "nn" if d[0] == 0 else "any")
            if x is not None: return x
        if isinstance(d, (tuple, list)) and not num_ and k[0] == "sym" and (len(d) != 2 or isinstance(d[0], (str, bool, tuple))):
            x = self.leaf(k, ("choice", tuple(d)))
            if x is not None: return x
        r = random.Random(self.h("dom", k))
        if callable(d):
            x = d(r, self)
            if isinstance(x, float) and isinstance(d, Hint):
                y = self.leaf(k, "any")
                self.next = self.cur = None
                if y is not None: return y
            return x
        if isinstance(d, tuple) and len(d) == 2 and not isinstance(d[0], str): return d[0] + (d[1] - d[0]) * r.randint(0, 64) / 64
        return r.choice(d)
    # ------------------------------------------------------------ leaves
    def a_sym(self, v, b):
        nm = v.args[0]
        if nm == "inf": return math.inf
        d = self.domof(v)
        if d is not None: return self.fromdom(d, ("sym", nm))
        if v.isint:
            x = self.leaf(("sym", nm), "ipos" if v in t.POS else "inn" if v in t.NONNEG else "int")
            if x is not None: return x
        if v.isint and v in t.POS: return self.h("sym", nm) % self.maxint + 1
        if v.isint:
            return self.h("sym", nm) % (self.maxint + 1) if v in t.NONNEG else self.h("sym", nm) % (self.maxint + 3) - 2
        return Opq(self, ("sym", nm), v in t.POS, v in t.NONNEG)
    def a_bv(self, v, b): return self.bv(v, b)
    def a_bool(self, v, b): return v.args[0]
    def a_null(self, v, b): return ("null",)
    def a_str(self, v, b): return ("str", v.args[0])
    def a_enumc(self, v, b): return ("enumc", v.args[0])
    def a_unk(self, v, b): raise Tainted(str(v.args[0]))
    def a_undef(self, v, b): raise Tainted("uninitialised value " + str(v.args[0])) if False else Undef()
    def a_div0(self, v, b): raise Undefd("division by zero")
    def a_powneg(self, v, b):
        x = self.ev(v.args[0], b)
        x = num(x)
        if -tiny() < x < 0: raise Discard("rounding")
        if x < 0: raise Undefd("root of a negative number")
        if x == 0 and v.args[1] < 0: raise Undefd("division by zero")
        return power(x, v.args[1])
    def a_cst(self, v, b): return coef(v.args[0])
    def a_pol(self, v, b): return self.poly(v.args[0], b)
    def a_E(self, v, b):
        x = num(self.ev(v.args[0], b))
        if x > 300: raise Discard("overflow")
        if self.force and (x < -40 or x > 60): raise Discard("rounding")
        return Decimal(x).exp() if HP else math.exp(x)
    def a_log(self, v, b):
        x = num(self.ev(v.args[0], b))
        if x <= 0: raise Undefd("logarithm of a non-positive number")
        return Decimal(x).ln() if HP else math.log(x)
    def a_bigmul(self, v, b): return num(self.ev(v.args[0], b)) * num(self.ev(v.args[1], b))
    def a_ipow(self, v, b):
        x, n = num(self.ev(v.args[0], b)), num(self.ev(v.args[1], b))
        try:
            if x == 0 and n < 0: raise Discard("div0")
            z = (Decimal(x) ** n if x != 0 or n != 0 else Decimal(1)) if HP else float(x) ** (int(n) if n == int(n) else n)
            if isinstance(z, complex): raise Discard("complex")
            return z
        except OverflowError: raise Discard("overflow")
    def a_idiv(self, v, b):
        x, y = self.ev(v.args[0], b), self.ev(v.args[1], b)
        if y == 0: raise Discard("div0")
        return math.trunc(F(int(round(x)), int(round(y))))
    def a_imod(self, v, b):
        x, y = int(round(self.ev(v.args[0], b))), int(round(self.ev(v.args[1], b)))
        if y == 0: raise Discard("mod0")
        r = abs(x) % abs(y)
        return r if x >= 0 else -r
    def a_trunc(self, v, b):
        x = self.ev(v.args[0], b)
        x = num(x)
        if abs(x) > 1e15: raise Discard("trunc")
        r = round(x)
        return r if abs(x - r) < 1e-9 else math.trunc(x)
    def a_narrow(self, v, b):
        x = int(round(self.ev(v.args[1], b)))
        w = v.args[0]
        return x & ((1 << w) - 1) if x >= 0 else x
    def a_f32(self, v, b):
        self.lossy = True
        return struct.unpack("f", struct.pack("f", float(num(self.ev(v.args[0], b)))))[0]
    def a_lim(self, v, b):
        nm, ty = v.args
        if nm in ("infinity",): return math.inf
        if "int" in ty or "long" in ty:
            bits = 64 if "long" in ty else 32
            if "unsigned" in ty: return {"max": 2 ** bits - 1}.get(nm, 0)
            return {"max": 2 ** (bits - 1) - 1}.get(nm, -2 ** (bits - 1))
        return {"max": 1.7976931348623157e308, "lowest": -1.7976931348623157e308, "min": 2.2250738585072014e-308, "epsilon": 2.220446049250313e-16}.get(nm, math.inf)
    def mfn(self, v, b, f):
        self.lossy = True
        try: return f(float(num(self.ev(v.args[0], b))))
        except (ValueError, OverflowError): raise Discard("math")
    def a_m_erf(self, v, b): return self.mfn(v, b, math.erf)
    def a_m_erfc(self, v, b): return self.mfn(v, b, math.erfc)
    def a_m_sin(self, v, b): return self.mfn(v, b, math.sin)
    def a_m_cos(self, v, b): return self.mfn(v, b, math.cos)
    def a_m_floor(self, v, b): return self.mfn(v, b, math.floor)
    def a_m_ceil(self, v, b): return self.mfn(v, b, math.ceil)
    # ------------------------------------------------------------ binders
    def prefix(self, v, b, start, op):
        """partial folds are shared between occurrences that differ in the upper bound only"""
        self.binders[v.args[0]] = (v, b)
        n = self.count(v.args[1], b)
        if n > self.cap: raise Tainted("unbounded " + v.op)
        h, body = v.args[0], v.args[2]
        hs = self.recs.get(v)
        if hs is None: hs = self.recs[v] = {x.args[0] for x in body.free if x.op == "bv"} - {h}
        mk = (v.op, h, body.id) + tuple((hh, self.key(vals)) for hh, vals in b if hh in hs)
        part = self.memo.get(mk)
        if part is None: part = self.memo[mk] = [start]
        while len(part) <= n:
            part.append(op(part[-1], num(self.ev(body, b + ((h, (len(part) - 1,)),)))))
        return part[max(n, 0)]
    def a_sum(self, v, b): return self.prefix(v, b, 0, lambda x, y: x + y)
    def a_prod(self, v, b): return self.prefix(v, b, 1, lambda x, y: x * y)
    def a_exists(self, v, b):
        self.binders[v.args[0]] = (v, b)
        n = self.count(v.args[1], b); f = self.body1(v, b)
        for i in range(min(n, self.cap)):
            if boolean(self, f(i, v.args[2])): return True
        if n > self.cap: raise Tainted("unbounded loop")
        return False
    def a_first(self, v, b):
        self.binders[v.args[0]] = (v, b)
        n = self.count(v.args[1], b); f = self.body1(v, b)
        for i in range(min(n, self.cap)):
            if boolean(self, f(i, v.args[2])): return i
        if n > self.cap: raise Tainted("unbounded loop")
        return n
    def a_minf(self, v, b):
        self.binders[v.args[0]] = (v, b)
        n = self.count(v.args[1], b); f = self.body1(v, b)
        if n <= 0 or n > self.cap: raise Discard("empty fold")
        return min(num(f(i, v.args[2])) for i in range(n))
    def a_maxf(self, v, b):
        self.binders[v.args[0]] = (v, b)
        n = self.count(v.args[1], b); f = self.body1(v, b)
        if n <= 0 or n > self.cap: raise Discard("empty fold")
        return max(num(f(i, v.args[2])) for i in range(n))
    def a_lam(self, v, b):
        self.binders[v.args[0]] = (v, b)
        n = self.count(v.args[1], b)
        f = self.body1(v, b)
        return Arr(max(n, 0), lambda i: f(i, v.args[2]))
    def a_filt(self, v, b):
        h, nn, c, x = v.args
        self.binders[h] = (v, b)
        n = self.count(nn, b)
        if n > self.cap: raise Tainted("unbounded loop")
        idx = [i for i in range(n) if boolean(self, self.ev(c, b + ((h, (i,)),)))]
        return Arr(len(idx), lambda i: self.ev(x, b + ((h, (idx[i],)),)) if 0 <= i < len(idx) else self.oob("filt", i))
    def a_rec(self, v, b):
        h, nn, which, inits, bodies, kinds = v.args
        self.binders[h] = (v, b)
        n = self.count(nn, b)
        if n > self.cap: raise Tainted("unbounded loop")
        key = self.recs.get((h, inits, bodies))
        if key is None:
            hs = {x.args[0] for q in inits + bodies if isinstance(q, (T, D)) for x in q.free if x.op == "bv"} - {h}
            key = self.recs[(h, inits, bodies)] = (tuple(x.id if isinstance(x, (T, D)) else repr(x) for x in inits + bodies), hs)
        ids, hs = key
        mk = ("rec", h, ids) + tuple((hh, self.key(vals)) for hh, vals in b if hh in hs)
        states = self.memo.get(mk)
        if states is None: states = self.memo[mk] = [[self.ev(x, b) for x in inits]]
        while len(states) <= n:
            i = len(states) - 1
            bb = b + ((h, (i,) + tuple(states[i])),)
            states.append([force(self.ev(x, bb)) for x in bodies])
        st = states[max(n, 0)]
        return st[which]
    def a_arec(self, v, b):
        h, a0, lo, nn, step, body = v.args
        self.binders[h] = (v, b)
        n = self.count(nn, b)
        cur = self.arr(self.ev(a0, b)); l = self.count(lo, b)
        for j in range(n):
            val = self.ev(body, b + ((h, (j, cur)),))
            cur = self.updated(cur, l + step * j, val)
        return cur
    # ------------------------------------------------------------ arrays
    def oob(self, *k): return self.numval(self.h("oob", k))
    def arr(self, x):
        if isinstance(x, Arr): return x
        if isinstance(x, Opq):
            return Arr(self.oplen(x), lambda i: Opq(self, ("sel", x.k, i), x.pos, False), x.k)
        if isinstance(x, Undef): return Arr(0, lambda i: x)
        k = self.key(x)
        return Arr(self.h("len", k) % 4 + 1, lambda i: Opq(self, ("sel", k, i), False, False), k)
    def oplen(self, x):
        n = self.leaf(("len", x.k), "ipos")
        return n if n is not None else self.h("len", x.k) % 4 + 1
    def updated(self, a, i, v):
        return Arr(a.n, lambda j: v if j == i else a.get(j))
    def a_nil(self, v, b): return Arr(0, lambda i: self.oob("nil", i))
    def a_arr0(self, v, b):
        n = self.count(v.args[0], b)
        return Arr(n, lambda i: Undef())
    def a_len(self, v, b):
        return self.arr(self.ev(v.args[0], b)).n
    def a_sel(self, v, b):
        a = self.arr(self.ev(v.args[0], b)); i = self.count(v.args[1], b)
        d = self.dom.get(("sel", v.args[0]))
        if d is not None and a.tok is not None: return self.fromdom(d, ("sel", a.tok, i))
        return a.get(i)
    def a_upd(self, v, b):
        a = self.arr(self.ev(v.args[0], b)); i = self.count(v.args[1], b)
        val = self.ev(v.args[2], b)
        return self.updated(a, i, val)
    def a_push(self, v, b):
        a = self.arr(self.ev(v.args[0], b))
        val = self.ev(v.args[1], b)
        return Arr(a.n + 1, lambda j: val if j == a.n else a.get(j))
    def a_amap(self, v, b):
        a = self.arr(self.ev(v.args[0], b)); lo = self.count(v.args[1], b); n = self.count(v.args[2], b)
        f = self.arr(self.ev(v.args[3], b))
        return Arr(a.n, lambda j: f.get(j - lo) if lo <= j < lo + n else a.get(j))
    def a_cat(self, v, b):
        a, c = self.arr(self.ev(v.args[0], b)), self.arr(self.ev(v.args[1], b))
        return Arr(a.n + c.n, lambda j: a.get(j) if j < a.n else c.get(j - a.n))
    def a_tup(self, v, b): return ("tup", v.args[0], v.args[1]) + tuple(self.ev(x, b) for x in v.args[2:])
    def a_prj(self, v, b):
        x = self.ev(v.args[1], b)
        if isinstance(x, tuple) and x[0] == "tup" and v.args[0] in x[2]: return x[3 + x[2].index(v.args[0])]
        return Opq(self, ("prj", v.args[0], self.key(x)), False, False)
    # ------------------------------------------------------------ matrices
    def mat(self, x):
        if isinstance(x, Mat): return x
        if isinstance(x, Undef): return Mat(0, 0, lambda i, j: x)
        k = self.key(x)
        return Mat(self.h("mr", k) % 3 + 1, self.h("mc", k) % 3 + 1, lambda i, j: self.numval(self.h("m2", k, i, j)), k)
    def a_mat0(self, v, b): return Mat(self.count(v.args[0], b), self.count(v.args[1], b), lambda i, j: Undef())
    def a_rows(self, v, b):
        a = self.arr(self.ev(v.args[0], b))
        w = self.arr(a.get(0)).n if a.n > 0 else 0
        return Mat(a.n, w, lambda i, j: self.arr(a.get(i)).get(j))
    def a_cols(self, v, b):
        a = self.arr(self.ev(v.args[0], b))
        w = self.arr(a.get(0)).n if a.n > 0 else 0
        return Mat(w, a.n, lambda i, j: self.arr(a.get(j)).get(i))
    def a_rowsof(self, v, b):
        M = self.mat(self.ev(v.args[0], b))
        return Arr(M.r, lambda i: Arr(M.c, lambda j: M.get(i, j)))
    def a_colsof(self, v, b):
        M = self.mat(self.ev(v.args[0], b))
        return Arr(M.c, lambda j: Arr(M.r, lambda i: M.get(i, j)))
    def a_sel2(self, v, b):
        M = self.mat(self.ev(v.args[0], b))
        return M.get(self.count(v.args[1], b), self.count(v.args[2], b))
    def a_mrows(self, v, b): return self.mat(self.ev(v.args[0], b)).r
    def a_mcols(self, v, b): return self.mat(self.ev(v.args[0], b)).c
    def a_spmat(self, v, b):
        tr = self.arr(self.ev(v.args[0], b))
        d = {}
        for i in range(int(tr.n)):
            x = tr.get(i)
            if not (isinstance(x, tuple) and x[0] == "tup"): raise Tainted("triplet")
            r, c, val = x[3], x[4], num(x[5])
            k = (int(round(num(r))), int(round(num(c))))
            d[k] = d.get(k, 0) + val
        M = Mat(self.count(v.args[1], b), self.count(v.args[2], b), lambda i, j: d.get((i, j), 0.0))
        M.nnz = len(d)
        return M
    def a_nnz(self, v, b):
        M = self.mat(self.ev(v.args[0], b))
        if getattr(M, "nnz", None) is None: raise Discard("stored coefficients")
        return M.nnz
    def a_linsolve(self, v, b):
        M = self.mat(self.ev(v.args[0], b)); y = self.arr(self.ev(v.args[1], b))
        n = int(M.r)
        if n > 8: raise Discard("size")
        A = [[num(M.get(i, j)) for j in range(n)] + [num(y.get(i))] for i in range(n)]
        x = gauss(A)
        return Arr(n, lambda i: x[i] if 0 <= i < n else self.oob("ls", i))
    def a_lsq(self, v, b):
        M = self.mat(self.ev(v.args[0], b)); y = self.arr(self.ev(v.args[1], b))
        r, c = int(M.r), int(M.c)
        if r * c * c > 300000: raise Discard("size")
        A = [[num(M.get(i, j)) for j in range(c)] for i in range(r)]
        Y = [num(y.get(i)) for i in range(r)]
        N = [[sum(A[k][i] * A[k][j] for k in range(r)) for j in range(c)] + [sum(A[k][i] * Y[k] for k in range(r))] for i in range(c)]
        x = gauss(N)
        return Arr(c, lambda i: x[i] if 0 <= i < c else self.oob("lsq", i))
    # ------------------------------------------------------------ randomness
    def a_draw(self, v, b):
        law, n = v.args[0], v.args[1]
        ps = tuple(self.key(self.ev(x, b)) for x in v.args[2:2 + n])
        labs = tuple(int(round(num(self.ev(x, b)))) for x in v.args[2 + n:])
        if self.alias:
            fam = family(v)
            if fam in self.alias:
                pat = self.alias[fam]
                idx = iter([l for p, l in zip(fam[2], labs) if p is None])
                labs = tuple(p if p is not None else next(idx) for p in pat[2])
        if law.startswith("call:"):
            if v.isint:
                x = self.leaf(("draw", law, ps, labs), "inn")
                return x if x is not None else self.h("draw", law, ps, labs) % (self.maxint + 1)
            return Opq(self, ("draw", law, ps, labs), t.is_price(v), False)
        x = self.leaf(("draw", law, ps, labs), {"U01": "unit", "E1": "pos", "Gam": "pos", "Poi": "inn"}.get(law, "any"))
        if x is not None: return x
        hv = self.h("draw", law, ps, labs)
        r = random.Random(hv)
        if law == "N01": return r.choice([-1.0, -0.5, 0.5, 1.0, 0.0, 1.5]) if r.random() < .3 else r.randint(-128, 128) / 64
        if law == "U01": return r.randint(1, 63) / 64
        if law in ("E1", "Gam"): return r.randint(4, 128) / 64
        if law == "Poi": return r.randint(0, 3)
        return self.numval(hv)
    # ------------------------------------------------------------ maps, strings, pointers
    def strval(self, x):
        if isinstance(x, Opq): return ("str", "tok%d" % (self.h("strtok", x.k) % 3))
        return x
    def a_streq(self, v, b):
        return self.strval(self.ev(v.args[0], b)) == self.strval(self.ev(v.args[1], b))
    def a_veq(self, v, b):
        x, y = self.ev(v.args[0], b), self.ev(v.args[1], b)
        if isinstance(x, tuple) and x and x[0] == "str" or isinstance(y, tuple) and y and y[0] == "str":
            return self.strval(x) == self.strval(y)
        return self.key(x) == self.key(y)
    def a_peq(self, v, b): return self.key(self.ev(v.args[0], b)) == self.key(self.ev(v.args[1], b))
    def a_mempty(self, v, b): return Map_(("mempty",), ())
    def mapv(self, x): return x if isinstance(x, Map_) else Map_(x, ())
    def a_mput(self, v, b):
        m = self.mapv(self.ev(v.args[0], b))
        return Map_(m.base, m.puts + ((self.strval(self.ev(v.args[1], b)), self.ev(v.args[2], b)),))
    def a_mhas(self, v, b):
        m = self.mapv(self.ev(v.args[0], b)); k = self.strval(self.ev(v.args[1], b))
        if any(a == k for a, _ in m.puts): return True
        if m.base == ("mempty",): return False
        return bool(self.h("mhas", self.key(m.base), self.key(k)) & 1)
    def a_mget(self, v, b):
        m = self.mapv(self.ev(v.args[0], b)); k = self.strval(self.ev(v.args[1], b))
        for a, x in reversed(m.puts):
            if a == k: return x
        return Opq(self, ("mget", self.key(m.base), self.key(k)), False, False)
    def a_isa(self, v, b):
        x = self.ev(v.args[0], b)
        pt = self.I.ptype.get(v.args[0]) if self.I else None
        if self.I and pt in self.I.prog.records:
            cs = self.I.prog.concrete(pt)
            if cs:
                c = cs[self.h("cls", self.key(x)) % len(cs)]
                return self.I.prog.derives(c, v.args[1])
        return bool(self.h("isa", self.key(x), v.args[1]) & 1)
    def a_luinfo(self, v, b):
        """a factorisation succeeds iff the matrix is not singular"""
        x = v.args[0]
        if x.op != "lu": raise Tainted("factorisation state")
        M = self.mat(self.ev(x.args[0], b))
        n = int(M.r)
        if n > 8: raise Discard("size")
        try: gauss([[num(M.get(i, j)) for j in range(n)] + [0] for i in range(n)])
        except Discard: return ("enumc", "Eigen::NumericalIssue")
        return ("enumc", "Eigen::Success")
    def a_obj(self, v, b): return ("obj", v.args[0], v.args[1])
    def a_lref(self, v, b): return ("lref", v.args[0])

class Undef:
    pass

class Opq:
    """uninterpreted value: behaves as a number, flag, array or identity depending on use"""
    __slots__ = ("env", "k", "pos", "nn", "_v")
    def __init__(self, env, k, pos, nn): self.env, self.k, self.pos, self.nn, self._v = env, k, pos, nn, None

def _opq_num(o):
    x = o.env.leaf(o.k, "pos" if o.pos else "nn" if o.nn else "any")
    if x is not None: return x
    if o._v is None: o._v = o.env.numval(o.env.h("num", o.k), o.pos, o.nn)
    o.env.next = o.env.cur = None
    return o._v

def num(x):
    if isinstance(x, bool): return 1 if x else 0
    if isinstance(x, float): return Decimal(x) if HP else x
    if isinstance(x, NUM): return x
    if isinstance(x, Opq): return num(_opq_num(x))
    if isinstance(x, Undef): raise Tainted("uninitialised")
    if isinstance(x, tuple): return len(repr(x))
    raise Discard("not a number")
def boolean(env, x):
    if isinstance(x, bool): return x
    if isinstance(x, NUM): return x != 0
    return bool(env.h("b", env.key(x)) & 1)
def force(x): return x

def gauss(A):
    n = len(A)
    if HP: A = [[Decimal(x) for x in r] for r in A]
    big = max([abs(x) for r in A for x in r[:n]] or [0])
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(A[r][c]))
        if abs(A[p][c]) < big / 100000 or big == 0: raise Discard("singular")
        A[c], A[p] = A[p], A[c]
        for r in range(n):
            if r != c:
                f = A[r][c] / A[c][c]
                if f:
                    for k in range(c, n + 1): A[r][k] -= f * A[c][k]
    return [A[i][n] / A[i][i] for i in range(n)]

# Opq needs to be usable where numbers / arrays are expected
_key0 = Env.key
def _key(self, v):
    if isinstance(v, Opq): return ("o",) + v.k
    if isinstance(v, Undef): return ("undef",)
    return _key0(self, v)
Env.key = _key
def _ev_num(self, v, b):
    x = self.ev(v, b)
    return num(x) if isinstance(x, (Opq, Undef)) else x
def _polys(self, p, b):
    tot, sc = 0, 0
    for m, c in p.args[0]:
        x = coef(c)
        neg, why = 0, None
        for a, e in m:
            y = num(self.ev(a, b))
            try:
                if e == 1: x *= y
                else:
                    if y == 0 and e < 0: why = "division by zero"; continue
                    if y < 0 and e != int(e):
                        if y > -tiny(): raise Discard("rounding")
                        why = why or "root of a negative number"; continue
                    x *= power(y, e)
            except OverflowError: raise Discard("overflow")
        if why:
            # the normal form may split the root of a product: only a single negative factor is conclusive
            if neg > 1: raise Discard("complex")
            if x == 0: raise Discard("0 * undefined")
            raise Undefd(why)
        tot += x
        sc += abs(x)
    if tot != tot: raise Discard("nan")
    return tot, sc
Env.polys = _polys

def family(v):
    """(law, nparams, label pattern) with loop indices as None"""
    n = v.args[1]
    return (v.args[0], n, tuple(int(t.const_val(x)) if isinstance(x, T) and t.is_const(x) else None for x in v.args[2 + n:]))

def families(v, acc=None, seen=None):
    if acc is None: acc, seen = set(), set()
    def go(x):
        if isinstance(x, (T, D)):
            if x.id in seen: return
            seen.add(x.id)
            if isinstance(x, D):
                go(x.var)
                for k in x.kids: go(k)
                return
            if x.op == "poly":
                for m, c in x.args[0]:
                    for a, e in m: go(a)
                return
            if x.op == "draw": acc.add(family(x))
            for a in x.args: go(a)
        elif isinstance(x, tuple):
            for a in x: go(a)
    go(v)
    return acc

def same(env, x, y, tol=1e-7):
    """structural equality of evaluated values"""
    if isinstance(x, Opq) and isinstance(y, Opq): return x.k == y.k or (abs(num(x) - num(y)) <= tol and False)
    if isinstance(x, Undef) or isinstance(y, Undef): return isinstance(x, Undef) and isinstance(y, Undef)
    if isinstance(x, Arr) or isinstance(y, Arr):
        a, b = env.arr(x), env.arr(y)
        if a.tok is not None and a.tok == b.tok: return True
        if a.n != b.n: return False
        return all(same(env, a.get(i), b.get(i), tol) for i in range(int(min(a.n, env.cap))))
    if isinstance(x, Mat) or isinstance(y, Mat):
        a, b = env.mat(x), env.mat(y)
        if a.tok is not None and a.tok == b.tok: return True
        if (a.r, a.c) != (b.r, b.c): return False
        return all(same(env, a.get(i, j), b.get(i, j), tol) for i in range(int(a.r)) for j in range(int(a.c)))
    if isinstance(x, bool) or isinstance(y, bool):
        return boolean(env, x) == boolean(env, y)
    if isinstance(x, NUM + (Opq,)) and isinstance(y, NUM + (Opq,)):
        a, b = num(x), num(y)
        if a in (math.inf, -math.inf) or b in (math.inf, -math.inf):
            if a == b: return True
            raise Discard("inf")
        if abs(a - b) > num(tol) * max(1, abs(a), abs(b)): return False
        # within the tolerance: small values may still differ; only exact interpretation can tell
        big = max(abs(a), abs(b))
        if HP: return env.lossy or big < 1e-200 or abs(a - b) <= num(tol) * big
        if big > 1e-150 and abs(a - b) > 1e-4 * big: env.suspect = True
        return True
    if isinstance(x, tuple) and isinstance(y, tuple):
        if x and y and x[0] == "tup" and y[0] == "tup":
            return x[1:3] == y[1:3] and len(x) == len(y) and all(same(env, p, q, tol) for p, q in zip(x[3:], y[3:]))
    return env.key(x) == env.key(y)
