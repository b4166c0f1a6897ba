"""Gated value-flow construction over the resolved AST: every function is turned into a
value graph over its inputs (conditions stay decision nodes, loops become summarised
recurrences).  Nothing is executed and no path is enumerated."""
from fractions import Fraction as F
from . import terms as t
from .terms import T, D, TRUE, FALSE, NULL, ZERO, ONE

class Lval:
    __slots__ = ("root", "path")
    def __init__(self, root, path=()):
        self.root, self.path = root, path
    def __repr__(self): return "Lval(%r,%r)" % (self.root, self.path)
    def sub(self, *step): return Lval(self.root, self.path + (step,))

class Struct:
    __slots__ = ("cls", "fields", "base", "tu")
    def __init__(self, cls, fields=None, base=None):
        self.cls, self.fields, self.base = cls, fields or {}, base
    def set(self, f, v):
        d = dict(self.fields); d[f] = v
        return Struct(self.cls, d, self.base)
    def __repr__(self): return "%s{%s}%s" % (str(self.cls).split("::")[-1], ", ".join("%s=%r" % kv for kv in self.fields.items()), "@%r" % self.base if self.base else "")

class Clo:
    __slots__ = ("e", "tu", "env", "this", "ctx")
    def __init__(self, e, tu, env, this):
        self.e, self.tu, self.env, self.this = e, tu, env, this

class Unsupported(Exception):
    pass

class State:
    __slots__ = ("mem", "pc", "dr", "trace", "locks")
    def __init__(self):
        self.mem, self.pc, self.dr, self.trace, self.locks = {}, TRUE, [({}, None)], (), frozenset()
    def copy(self):
        s = State()
        s.mem, s.pc, s.dr, s.trace, s.locks = dict(self.mem), self.pc, [(dict(c), k) for c, k in self.dr], self.trace, self.locks
        return s
    def become(self, o):
        self.mem, self.pc, self.dr, self.trace, self.locks = o.mem, o.pc, o.dr, o.trace, o.locks

class Frame:
    __slots__ = ("tu", "env", "this", "rets", "brks", "conts", "defn", "exc")
    def __init__(self, tu, this=None, defn=None):
        self.tu, self.this, self.defn = tu, this, defn
        self.env, self.rets, self.brks, self.conts, self.exc = {}, [], None, None, None

SMART = {"std::shared_ptr", "std::unique_ptr", "std::weak_ptr", "std::__shared_ptr", "std::__weak_ptr"}
STRINGS = {"std::basic_string", "std::basic_string_view"}
ARRAYS = {"std::vector", "std::array", "std::valarray", "std::deque", "std::initializer_list", "std::span", "std::list"}
MAPS = {"std::unordered_map", "std::map"}

EXC_PARENT = {"std::invalid_argument": "std::logic_error", "std::domain_error": "std::logic_error",
              "std::length_error": "std::logic_error", "std::out_of_range": "std::logic_error",
              "std::logic_error": "std::exception", "std::runtime_error": "std::exception",
              "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error",
              "std::underflow_error": "std::runtime_error", "std::bad_variant_access": "std::exception",
              "std::bad_optional_access": "std::exception", "std::bad_alloc": "std::exception",
              "std::bad_cast": "std::exception", "std::bad_weak_ptr": "std::exception", "std::bad_function_call": "std::exception"}

def exc_isa(prog, a, b):
    while a:
        if a == b: return True
        p = EXC_PARENT.get(a)
        if p is None:
            bs = prog.bases.get(a, [])
            p = bs[0] if bs else None
        a = p
    return False

def eigen_shape(ty):
    """'vec' | 'mat' | 'sparse' | None for a plain Eigen object type"""
    s = ty["s"]
    if ty.get("rec") == "Eigen::Matrix" or ty.get("rec") == "Eigen::Array":
        ta = ty.get("targs") or []
        if len(ta) >= 3: return "vec" if ta[1] == 1 or ta[2] == 1 else "mat"
    if ty.get("rec") == "Eigen::SparseMatrix": return "sparse"
    return None

class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.exact = {}        # pointer T -> dynamic class
        self.nonnull = set()
        self.rtype = {}        # local root -> (type, tu)
        self.throws = []
        self.nroot = 0
        self.nobj = 0
        self.lrefs = {}        # T -> Lval
        self.depth = 0
        self.stack = []
        self.faults = []       # (pc, kind, where)
        self.unknowns = set()
        self.analysed = set()  # keys of definitions inlined
        self.ptype = {}        # pointer T -> pointee record
        self.statics = {}
        self.boot = False           # the history starts with the process: statics and globals hold their initial values
        self.ginit = {}
        self.watch = None      # st -> value recorded with every client callback
        self.forced_all = set()  # calls recorded as events whoever receives them
        self.open = set()      # objects of a client's own class: their virtual functions are arbitrary
        self.forced = set()    # virtual methods a client may override in classes of its own
        self.engines = False   # model random engines as deterministic state machines instead of fresh draws
        self.hooks = {}        # function key/qn -> python handler
        self.gaccess = []      # (global qn, 'r'|'w', locks, where)
        self.lenrules = []
        from . import lib, loops
        self.lib = lib
        self.loops = loops
        self._drawing = None

    # ------------------------------------------------------------ misc
    def where(self, e, fr):
        f = fr.defn.d["file"] if fr.defn else fr.tu.file
        return "%s:%s" % (f, e.get("l", "?") if isinstance(e, dict) else "?")
    def unk(self, why):
        self.unknowns.add(why)
        return t.unk(why)
    def ty(self, fr, e): return fr.tu.types[e["t"]]
    def newroot(self, tag="l"):
        self.nroot += 1
        return (tag, self.nroot)

    # ------------------------------------------------------------ symbolic initial values
    def tkind(self, ty):
        k = ty["k"]
        if k == "r":
            r = ty["rec"]
            if r in SMART: return "p"
            if r in STRINGS: return "s"
            if r in ARRAYS: return "arr"
            if r in MAPS: return "map"
            if r == "std::optional": return "opt"
            if r == "std::variant": return "var"
            es = eigen_shape(ty)
            if es: return {"vec": "arr", "mat": "mat", "sparse": "mat"}[es]
            if r in self.prog.records and self.prog.records[r][1] is not None and self.prog.records[r][0]["file"].startswith(self.prog.repo):
                return "rec"
            return "o"
        if k == "n": return "p"
        return k
    def elem_numeric(self, ty):
        ta = ty.get("targs") or []
        if not ta: return True
        s = str(ta[0])
        return s in ("double", "float", "int", "unsigned int", "long", "unsigned long", "bool", "long double", "short", "char") or s.startswith(("Eigen::Matrix", "std::vector<double"))
    def initv(self, atom_args, ty, tu, name=None):
        """symbolic value of the given type; atom_args = ('fld', ptr, name) etc."""
        k = self.tkind(ty)
        if k == "f": return t.poly(t.mk(*atom_args))
        if k == "i": return t.poly(t.mk(*atom_args, isint=True))
        if k == "u":
            a = t.mk(*atom_args, isint=True)
            t.NONNEG.add(a)
            return t.poly(a)
        if k == "b": return t.b_atom(t.mk(*atom_args))
        if k == "opt":
            a = t.mk(*atom_args)
            inner = (ty.get("targs") or ["double"])[0]
            ii = inner in ("int", "long", "unsigned int", "unsigned long")
            return Struct("std::optional", {"has": t.b_atom(t.mk("has", a)), "val": t.poly(t.mk("optval", a, isint=ii))})
        if k == "rec":
            a = t.mk(*atom_args)
            return Struct(ty["rec"], {}, a)
        a = t.mk(*atom_args)
        if k == "o" and ty.get("rec") in self.lib.DISTS:
            return Struct(ty["rec"], {x: t.poly(t.mk("distpar", x, a)) for x in self.lib.DISTS[ty["rec"]] + ("saved",)})
        if k == "arr" and not self.elem_numeric(ty): t.NONNUM.add(a)
        if k == "p":
            pt = self.pointee(ty, tu)
            if pt: self.ptype[a] = pt
        if k == "mat": self.lib.MATS.add(a)
        return a
    def pointee(self, ty, tu):
        if ty["k"] == "p":
            to = ty.get("to")
            return tu.types[to].get("rec") if to is not None else None
        ta = ty.get("targs")
        if ta: return str(ta[0]).replace("const ", "").strip()
        return None
    def field_type(self, cls, name):
        rq, f = name.rsplit(".", 1)
        r = self.prog.records.get(rq)
        if r is None: return None, None
        for fd in r[0]["fields"]:
            if fd["n"] == f: return r[1].types[fd["t"]], r[1]
        return None, None
    def init_field(self, base, cls, name):
        ty, tu = self.field_type(cls, name)
        if ty is None: return t.mk("fld", base, name)
        return self.initv(("fld", base, name), ty, tu)

    # ------------------------------------------------------------ memory
    def lref(self, lv):
        if not lv.path and isinstance(lv.root, (T, D)): return lv.root
        key = (lv.root if not isinstance(lv.root, (T, D)) else ("t", lv.root.id),
               tuple(tuple(x.id if isinstance(x, (T, D)) else x for x in s) for s in lv.path))
        p = t.mk("lref", repr(key))
        self.lrefs[p] = lv
        return p
    def deref(self, p, fr=None, e=None):
        if isinstance(p, Lval): return p
        if not isinstance(p, (T, D)): return Lval(self.temp_root(p))
        if isinstance(p, T) and p.op == "lref": return self.lrefs[p]
        return Lval(p)
    def temp_root(self, v):
        r = self.newroot("tmp")
        self._tmpmem[r] = v
        return r
    _tmpmem = {}
    def load_root(self, st, root):
        if isinstance(root, tuple):
            v = st.mem.get(root)
            if v is None: v = self._tmpmem.get(root)
            if v is None: return self.unk("unset variable")
            return v
        if isinstance(root, D):
            return self.lift_ptr(root, lambda p: self.load(st, self.deref(p)))
        v = st.mem.get(root)
        if v is None:
            if root is NULL or root.op == "nullderef":
                return t.mk("nullderef")
            cls = self.exact_class(root, st) or self.ptype.get(root)
            return Struct(cls, {}, root)
        return v
    def lift_ptr(self, d, f):
        if isinstance(d, T): return f(d)
        kids = [self.lift_ptr(k, f) for k in d.kids]
        return self.comb(kids, lambda xs: t.build(d.var, xs))
    def comb(self, vals, f):
        v0 = vals[0]
        if all(v is v0 for v in vals): return v0
        if all(isinstance(v, (T, D)) for v in vals): return f(list(vals))
        if all(isinstance(v, Struct) for v in vals) and len({v.cls for v in vals}) == 1:
            names = []
            for v in vals:
                for n in v.fields:
                    if n not in names: names.append(n)
            base = v0.base if all(v.base is v0.base for v in vals) else None
            if base is None and any(v.base is not None for v in vals):
                # materialise
                for n in self.all_fields(v0.cls):
                    if n not in names: names.append(n)
            out = {n: self.comb([self.getf(v, n) for v in vals], f) for n in names}
            return Struct(v0.cls, out, base)
        if all(isinstance(v, Clo) for v in vals) and all(v.e is v0.e for v in vals): return v0
        return self.unk("join of unlike values")
    def all_fields(self, cls):
        out = []
        r = self.prog.records.get(cls)
        if r is None: return out
        for b in self.prog.bases.get(cls, []): out += self.all_fields(b)
        out += ["%s.%s" % (cls, fd["n"]) for fd in r[0]["fields"]]
        return out
    def getf(self, v, name):
        if isinstance(v, Struct):
            x = v.fields.get(name)
            if x is None:
                if v.base is not None: x = self.init_field(v.base, v.cls, name)
                else: x = t.mk("undef", name)
            return x
        if isinstance(v, D): return self.lift_ptr(v, lambda p: self.getf(p, name))
        if isinstance(v, T):
            if v.op == "tup":
                names = v.args[1]
                return v.args[2 + names.index(name)] if name in names else t.mk("undef", name)
            if v.op == "nullderef": return v
            r = t.mk("prj", name, v)
            return t.poly(r) if name in NUMERIC_PRJ else r
        return self.unk("field of non-record")
    def project(self, st, v, step):
        k = step[0]
        if k == "f": return self.getf(v, step[1])
        if isinstance(v, Struct) and v.cls in ("Earr", "Erow"): v = v.fields["v"]
        if isinstance(v, Struct) and v.cls in ("std::pair", "std::tuple") and k == "i": return v.fields[str(step[1])]
        if not isinstance(v, (T, D)): return self.unk("element of non-array")
        if k == "i": return t.sel(v, step[1])
        if k in ("row", "col", "ij", "diag"): return self.lib.mat_get(self, v, step)
        if k == "map": return self.lib.mget(self, v, step[1])
        if k == "seg":
            kk = t.fresh("g", True); t.NONNEG.add(kk)
            return t.Lam(step[2], kk, t.sel(v, t.add(t.poly(kk), step[1])))
        if k == "all": return v
        if k == "arr": return Struct("Earr", {"v": v})
        if k == "flat": return self.lib.mat_flat(self, v, step[1])
        return self.unk("project " + k)
    def load(self, st, lv):
        v = self.load_root(st, lv.root)
        for s in lv.path: v = self.project(st, v, s)
        return v
    def setpath(self, st, v, path, val):
        if not path: return val
        s, rest = path[0], path[1:]
        new = self.setpath(st, self.project(st, v, s), rest, val) if rest else val
        k = s[0]
        if k == "f":
            if isinstance(v, Struct): return v.set(s[1], new)
            if isinstance(v, T) and v.op == "tup":
                names = v.args[1]
                a = list(v.args)
                a[2 + names.index(s[1])] = new
                return t.mk(*(["tup"] + a))
            return self.unk("field store to opaque value")
        new = self.totermv(new)
        wrap = None
        if isinstance(v, Struct) and v.cls in ("Earr", "Erow"): wrap = v.cls; v = v.fields["v"]
        if isinstance(v, Struct) and v.cls in ("std::pair", "std::tuple") and k == "i": return v.set(str(s[1]), new)
        if not isinstance(v, (T, D)): return self.unk("element store to non-array")
        if k == "i": r = t.upd(v, s[1], new)
        elif k in ("row", "col", "ij", "diag"): r = self.lib.mat_set(self, v, s, new)
        elif k == "map": r = self.lib.mput(self, v, s[1], new)
        elif k == "seg":
            kk = t.fresh("g", True); t.NONNEG.add(kk)
            r = t.AMap(v, s[1], s[2], kk, t.sel(new, t.poly(kk)))
        elif k in ("all", "arr"): r = new
        else: r = self.unk("store " + k)
        return r
    def store(self, st, lv, val):
        if st.pc is FALSE: return
        if isinstance(val, Struct) and val.cls in ("Earr", "Erow") : val = val.fields["v"]
        root = lv.root
        if isinstance(root, D):
            for lf in t.leaves(root):
                c = t.apply(("isleaf", lf.id), lambda x: t.boolc(x is lf), root)
                l2 = self.deref(lf)
                l3 = Lval(l2.root, l2.path + lv.path)
                old = self.load(st, l3)
                self.store(st, l3, self.comb([val, old], lambda xs: t.ite(c, xs[0], xs[1])))
            return
        if isinstance(root, T) and root.op == "lref":
            l2 = self.lrefs[root]
            return self.store(st, Lval(l2.root, l2.path + lv.path), val)
        if isinstance(root, T) and root is NULL:
            return
        if isinstance(root, tuple) and root[0] == "g": self.gnote(root[1], "w", st)
        if not lv.path:
            if isinstance(root, T) and isinstance(val, Struct):
                # whole-object assignment keeps identity
                val = Struct(self.exact_class(root, st) or self.ptype.get(root) or val.cls, dict(self.materialise(val).fields), root)
            st.mem[root] = val
            return
        st.mem[root] = self.setpath(st, self.load_root(st, root), lv.path, val)
    def materialise(self, s):
        if s.base is None: return s
        out = {n: self.getf(s, n) for n in self.all_fields(s.cls)}
        out.update(s.fields)
        return Struct(s.cls, out, None)
    def totermv(self, v):
        """value as a single term (for storing in arrays)"""
        if isinstance(v, (T, D)): return v
        if isinstance(v, Struct):
            if v.cls in ("Earr", "Erow"): return v.fields["v"]
            v = self.materialise(v)
            names = tuple(sorted(v.fields))
            vals = [self.totermv(v.fields[n]) for n in names]
            return t.apply(("tup", v.cls, names), lambda *xs: t.mk("tup", v.cls, names, *xs), *vals) if vals else t.mk("tup", v.cls, names)
        return self.unk("closure in container")
    def gnote(self, qn, mode, st):
        self.gaccess.append((qn, mode, st.locks, st.pc))

    # ------------------------------------------------------------ merge
    def merge(self, c, a, b):
        if a.pc is FALSE: return b
        if b.pc is FALSE: return a
        s = State()
        s.pc = t.b_or(a.pc, b.pc)
        s.locks = a.locks & b.locks
        s.dr = []
        for (ca, k), (cb, _) in zip(a.dr, b.dr):
            d = dict(ca)
            for x, n in cb.items(): d[x] = max(d.get(x, 0), n)
            s.dr.append((d, k))
        if a.trace is b.trace: s.trace = a.trace
        else:
            n = 0
            while n < len(a.trace) and n < len(b.trace) and a.trace[n] is b.trace[n]: n += 1
            nc = t.b_not(c)
            s.trace = a.trace[:n] + tuple((t.b_and(c, g), k, x) for g, k, x in a.trace[n:]) \
                + tuple((t.b_and(nc, g), k, x) for g, k, x in b.trace[n:])
        f = lambda xs: t.ite(c, xs[0], xs[1])
        for r in list(a.mem) + [x for x in b.mem if x not in a.mem]:
            va, vb = a.mem.get(r), b.mem.get(r)
            if va is vb: s.mem[r] = va; continue
            if va is None or vb is None:
                if isinstance(r, tuple) and r[0] != "g":
                    s.mem[r] = va if vb is None else vb
                    continue
                if isinstance(r, tuple):
                    g = self.global_init(r)
                    va = g if va is None else va
                    vb = g if vb is None else vb
                else:
                    e = Struct((va if vb is None else vb).cls if isinstance(va if vb is None else vb, Struct) else None, {}, r)
                    va = e if va is None else va
                    vb = e if vb is None else vb
                    if r.op == "obj":       # allocated on one side only
                        s.mem[r] = b.mem.get(r) if a.mem.get(r) is None else a.mem[r]
                        continue
            s.mem[r] = self.comb([va, vb], f)
        return s
    def merge_many(self, lst):
        """[(pc, state, val)] with disjoint pcs -> (state, val)"""
        lst = [x for x in lst if x[0] is not FALSE]
        if not lst: return None, None
        pc, st, val = lst[-1]
        for pc2, st2, v2 in reversed(lst[:-1]):
            m = self.merge(pc2, st2, st)
            if v2 is not None or val is not None:
                if isinstance(v2, Lval) or isinstance(val, Lval):
                    if isinstance(v2, Lval) and isinstance(val, Lval) and v2.root is val.root and v2.path == val.path: pass
                    else:
                        a = self.load(st2, v2) if isinstance(v2, Lval) else v2
                        b = self.load(st, val) if isinstance(val, Lval) else val
                        val = self.comb([a, b], lambda xs: t.ite(pc2, xs[0], xs[1]))
                elif v2 is None: pass
                elif val is None: val = v2
                else: val = self.comb([v2, val], lambda xs: t.ite(pc2, xs[0], xs[1]))
            st = m
        return st, val

    # ------------------------------------------------------------ dynamic class
    def exact_class(self, p, st):
        if p in self.exact: return self.exact[p]
        if p.op == "obj": return p.args[1]
        if p.op == "lref":
            v = self.load(st, self.lrefs[p])
            if isinstance(v, Struct): return v.cls if v.base is None or v.base in self.exact or True else None
            return None
        return None
    def is_local_struct(self, p): return p.op == "lref"

    def truthy(self, v, st=None):
        """pointer / number / bool -> bool Value"""
        if isinstance(v, (Struct, Clo)):
            if isinstance(v, Struct) and v.cls == "std::optional": return v.fields["has"]
            return TRUE
        def f(x):
            if x is TRUE or x is FALSE: return x
            if x.op == "poly": return t.sign_in(x, (-1, 1))
            if x is NULL: return FALSE
            if x.op in ("obj", "lref") or x in self.nonnull: return TRUE
            return t.b_atom(t.mk("nonnull", x))
        # note: terms memoised on name; nonnull set is part of it
        return t.apply(("truthy", id(self), len(self.nonnull)), f, v)
    def ptr_eq(self, a, b):
        def f(x, y):
            if x is y: return TRUE
            if x is NULL: return t.b_not(self.truthy(y))
            if y is NULL: return t.b_not(self.truthy(x))
            fresh = ("obj", "lref")
            if x.op in fresh or y.op in fresh: return FALSE
            a, b = (x, y) if x.id < y.id else (y, x)
            return t.b_atom(t.mk("peq", a, b))
        return t.apply(("peq", id(self), len(self.nonnull)), f, a, b)
    def enum_eq(self, a, b, ety):
        dom = self.prog.enums.get(ety["s"].replace("const ", "").replace("&", "").strip())
        if dom is None: return t.bapp("eneq", a, b)
        ia = t.apply(("eidx", dom), lambda x: t.enum_index(x, dom), a)
        ib = t.apply(("eidx", dom), lambda x: t.enum_index(x, dom), b)
        return t.cmp("==", ia, ib)
    def str_eq(self, a, b):
        def f(x, y):
            if x is y: return TRUE
            if x.op == "str" and y.op == "str": return FALSE
            x, y = (x, y) if x.id < y.id else (y, x)
            return t.b_atom(t.mk("streq", x, y))
        return t.apply("streq", f, a, b)

    # ------------------------------------------------------------ expressions
    def rval(self, x, st):
        if isinstance(x, Lval):
            if isinstance(x.root, tuple) and x.root[0] == "g": self.gnote(x.root[1], "r", st)
            return self.load(st, x)
        return x
    def lval(self, x, st):
        if isinstance(x, Lval): return x
        r = self.newroot("tmp")
        st.mem[r] = x
        return Lval(r)
    def coerce(self, v, ty):
        k = ty["k"]
        if not isinstance(v, (T, D)): return v
        if k == "b":
            return t.apply("cob", lambda x: x if x in (TRUE, FALSE) else t.b_atom(x), v)
        if k in "iuf":
            return t.num(v)
        return v
    def R(self, e, st, fr):
        """rvalue of expression"""
        v = self.rval(self.E(e, st, fr), st)
        return v
    def RN(self, e, st, fr):
        v = self.R(e, st, fr)
        if isinstance(v, Struct) and v.cls in ("Earr", "Erow"): v = v.fields["v"]
        if not isinstance(v, (T, D)): return self.unk("number expected")
        return t.num(v)
    def B(self, e, st, fr):
        return self.truthy(self.R(e, st, fr), st)

    def E(self, e, st, fr):
        if e is None: return None
        m = getattr(self, "e_" + e["k"], None)
        if m is None: return self.unk("expr " + e["k"])
        return m(e, st, fr)

    def e_unk(self, e, st, fr): return self.unk("unsupported syntax %s at %s" % (e.get("what"), self.where(e, fr)))
    def e_mat(self, e, st, fr): return self.E(e["e"], st, fr)
    def e_int(self, e, st, fr): return t.const(int(e["v"]))
    def e_flt(self, e, st, fr):
        try: q = F(e["src"].rstrip("fFlL").replace("'", ""))
        except (ValueError, ZeroDivisionError): q = F(e["v"])
        ty = self.ty(fr, e)
        if ty.get("w") == 32 and q != F(float(q)) and True:
            return t.fn("f32", t.const(q)) if q.denominator & (q.denominator - 1) else t.const(q)
        return t.const(q)
    def e_bool(self, e, st, fr): return t.boolc(bool(e["v"]))
    def e_str(self, e, st, fr): return t.mk("str", e.get("v", ""))
    def e_null(self, e, st, fr): return NULL
    def e_this(self, e, st, fr): return fr.this if fr.this is not None else self.unk("this")
    def e_enum(self, e, st, fr):
        return t.mk("enumc", e["qn"])
    def e_ref(self, e, st, fr):
        lv = fr.env.get(e["d"])
        if lv is not None: return lv
        if "ci" in e: return self.R(e["ci"], st, fr)
        if "g" in e:
            r = ("g", e["g"])
            if r not in st.mem:
                g = self.prog.globals.get(e["g"])
                if g and "const" in g[1].types[g[0]["t"]]["s"] and "init" in g[0]:
                    f2 = Frame(g[1])
                    return self.R(g[0]["init"], st, f2)
                st.mem[r] = self.global_init(r, self.ty(fr, e), fr.tu)
            return Lval(r)
        return self.unk("variable " + e["n"])
    def global_init(self, r, ty=None, tu=None):
        g = self.prog.globals.get(r[1])
        if g: ty, tu = g[1].types[g[0]["t"]], g[1]
        if ty is None and r in self.ginit: return self.ginit[r]
        if self.boot and g and r not in self.ginit:
            v = None
            if g[0].get("init") is not None and not ty.get("ref"):
                s2 = State()
                nt, nf = len(self.throws), len(self.faults)
                v = self.rval(self.E(g[0]["init"], s2, Frame(tu)), s2)
                if isinstance(v, (T, D)): v = self.coerce(v, ty)
                vv = self.totermv(v)
                if not (isinstance(vv, (T, D)) and not vv.free and not vv.unk): v = None
                del self.throws[nt:]; del self.faults[nf:]
            elif not ty.get("ref"): v = self.default_value(ty, tu, State())
            if v is not None: self.ginit[r] = v
        if self.boot and r in self.ginit: return self.ginit[r]
        if ty is None: return t.mk("gvar", r[1])
        return self.initv(("gvar", r[1]), ty, tu)
    def e_fref(self, e, st, fr): return Clo({"fref": e["fn"]}, fr.tu, {}, None)
    def e_mfref(self, e, st, fr): return self.unk("member function reference")
    def e_bind(self, e, st, fr):
        lv = fr.env.get(e["d"])
        return lv if lv is not None else self.unk("binding")
    def e_mem(self, e, st, fr):
        b = self.E(e["b"], st, fr)
        name = "%s.%s" % (e["rec"], e["f"])
        if e["rec"] == "std::pair": name = {"first": "0", "second": "1"}[e["f"]]
        if e.get("arrow"):
            p = self.rval(b, st)
            if isinstance(p, Struct) and p.cls == "miter":
                lv = self.deref(p.fields["c"])
                return p.fields["k"] if e["f"] == "first" else lv.sub("map", p.fields["k"])
            if not isinstance(p, (T, D)): return self.unk("arrow on non-pointer")
            self.nullcheck(p, st, fr, e)
            lv = self.deref(p)
        else:
            if not isinstance(b, Lval):
                return self.getf(b, name)
            lv = b
            if e["rec"] == "std::pair":
                v = self.rval(b, st)
                if isinstance(v, Struct) and v.cls == "miter": return v.fields["k"] if name == "0" else self.deref(v.fields["c"]).sub("map", v.fields["k"])
        return lv.sub("f", name)
    def nullcheck(self, p, st, fr, e):
        ls = t.leaves(p)
        if NULL in ls and st.pc is not FALSE:
            c = t.apply("isnull", lambda x: t.boolc(x is NULL), p)
            c = t.b_and(st.pc, c)
            if c is not FALSE: self.faults.append((c, "null dereference", self.where(e, fr), tuple(self.stack)))
    def e_sub(self, e, st, fr):
        b = self.E(e["b"], st, fr)
        i = self.RN(e["i"], st, fr)
        if isinstance(b, Lval):
            v = self.rval(b, st)
            if isinstance(v, T) and v.op in ("lref", "obj") or isinstance(v, Struct) and v.cls == "iter": b = v
            else: return b.sub("i", i)
        if isinstance(b, Struct) and b.cls == "iter":
            return self.deref(b.fields["c"]).sub("i", t.add(b.fields["i"], i))
        if isinstance(b, T) and b.op == "lref": return self.deref(b).sub("i", i)
        return self.unk("subscript")
    def e_un(self, e, st, fr):
        op = e["op"]
        if op == "*":
            p = self.R(e["e"], st, fr)
            if isinstance(p, Struct) and p.cls == "iter": return self.deref(p.fields["c"]).sub("i", p.fields["i"])
            if isinstance(p, (T, D)):
                self.nullcheck(p, st, fr, e)
                return self.deref(p)
            return self.unk("deref")
        if op == "&":
            x = self.E(e["e"], st, fr)
            return self.lref(self.lval(x, st))
        if op in ("++", "--"):
            lv = self.lval(self.E(e["e"], st, fr), st)
            old = self.load(st, lv)
            if isinstance(old, Struct) and old.cls == "iter":
                new = old.set("i", t.add(old.fields["i"], ONE if op == "++" else t.M1))
            elif isinstance(old, (T, D)): new = t.add(t.num(old), ONE if op == "++" else t.M1)
            else: new = self.unk("++")
            self.store(st, lv, new)
            return old if e["post"] else lv
        if op == "!": return t.b_not(self.B(e["e"], st, fr))
        if op == "-": return t.neg(self.RN(e["e"], st, fr))
        if op == "+": return self.R(e["e"], st, fr)
        if op == "~": return t.fn("bitnot", self.RN(e["e"], st, fr), isint=True)
        return self.unk("unary " + op)
    def arith(self, op, a, b, ty):
        if not isinstance(a, (T, D)) or not isinstance(b, (T, D)): return self.unk("arith on structs")
        a, b = t.num(a), t.num(b)
        if op == "+": return t.add(a, b)
        if op == "-": return t.sub(a, b)
        if op == "*": return t.mul(a, b)
        if op == "/":
            return t.idiv(a, b) if ty["k"] in "iub" else t.div(a, b)
        if op == "%": return t.imod(a, b)
        if op in ("&", "|", "^", "<<", ">>"): return t.fn("bit" + op, a, b, isint=True)
        return self.unk("op " + op)
    def e_bin(self, e, st, fr):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.B(e["a"], st, fr)
            c = a if op == "&&" else t.b_not(a)
            s2 = st.copy()
            s2.pc = t.b_and(st.pc, c)
            if s2.pc is FALSE and c is FALSE: return a
            b = self.B(e["b"], s2, fr)
            s1 = st.copy()
            s1.pc = t.b_and(st.pc, t.b_not(c))
            st.become(self.merge(c, s2, s1))
            return t.b_and(a, b) if op == "&&" else t.b_or(a, b)
        if op == ",":
            self.E(e["a"], st, fr)
            return self.E(e["b"], st, fr)
        a = self.R(e["a"], st, fr)
        b = self.R(e["b"], st, fr)
        ta, tb = self.ty(fr, e["a"]), self.ty(fr, e["b"])
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.compare(op, a, b, ta, tb)
        if isinstance(a, Struct) and a.cls == "iter" or isinstance(b, Struct) and b.cls == "iter":
            return self.lib.iter_arith(self, op, a, b)
        if ta["k"] == "p" or tb["k"] == "p": return self.lib.iter_arith(self, op, self.lib.as_iter(self, a), self.lib.as_iter(self, b))
        return self.arith(op, a, b, self.ty(fr, e))
    def compare(self, op, a, b, ta, tb):
        if isinstance(a, Struct) and isinstance(b, Struct): return self.lib.struct_cmp(self, op, a, b)
        if not isinstance(a, (T, D)) or not isinstance(b, (T, D)): return self.unk("compare")
        if ta["k"] in "pn" or tb["k"] in "pn" or ta["k"] == "r" and ta.get("rec") in SMART:
            r = self.ptr_eq(a, b)
            if op == "==": return r
            if op == "!=": return t.b_not(r)
            return self.unk("pointer order")
        if ta["k"] == "e":
            if op in ("==", "!="):
                r = self.enum_eq(a, b, ta)
                return r if op == "==" else t.b_not(r)
            return self.unk("enum order")
        if ta["k"] == "b" and tb["k"] == "b":
            a, b = t.asbool(a), t.asbool(b)
            eq = t.ite(a, b, t.b_not(b))
            if op == "==": return eq
            if op == "!=": return t.b_not(eq)
        if ta["k"] == "u" and tb["k"] == "u":
            if op == ">=" and t.num(b) is ZERO: return TRUE
            if op == "<" and t.num(b) is ZERO: return FALSE
            if op == "<=" and t.num(a) is ZERO: return TRUE
        return t.cmp(op, t.num(a), t.num(b))
    def conv(self, v, ty):
        if isinstance(v, Struct) or not isinstance(v, (T, D)): return v
        k = ty["k"]
        if k == "b": return self.truthy(v)
        if k in "iu":
            v = t.num(v)
            w = ty.get("w", 32)
            def f(x):
                if x.isint or t.is_const(x) and t.const_val(x).denominator == 1:
                    return x if w >= 32 or t.is_const(x) else t.poly(t.mk("narrow", w, x, isint=True))
                if t.is_const(x): return t.const(int(t.const_val(x)))
                return t.poly(t.mk("trunc", x, isint=True))
            return t.apply(("conv", k, w), f, v)
        if k == "f":
            v = t.num(v)
            if ty.get("w") == 32: return t.fn("f32", v)
            return v
        return v
    def e_cast(self, e, st, fr):
        ck = e["ck"]
        ty = self.ty(fr, e)
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "NoOp", "BitCast"):
            return self.E(e["e"], st, fr)
        if ck == "Dynamic":
            x = self.E(e["e"], st, fr)
            if ty["k"] == "p":
                return self.lib.dyncast(self, self.rval(x, st), self.pointee(ty, fr.tu), st)
            return x
        if ck == "NullToPointer":
            self.E(e["e"], st, fr)
            return NULL
        if ck == "ToVoid":
            self.E(e["e"], st, fr)
            return None
        if ck in ("PointerToBoolean", "IntegralToBoolean", "FloatingToBoolean", "MemberPointerToBoolean"):
            return self.B(e["e"], st, fr)
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "FloatingCast", "BooleanToSignedIntegral"):
            v = self.R(e["e"], st, fr)
            sty = self.ty(fr, e["e"])
            if ty["k"] == "e":
                dom = self.prog.enums.get(ty["s"].replace("const ", "").strip())
                return self.unk("integer to enum")
            if sty["k"] == "e":
                dom = self.prog.enums.get(sty["s"].replace("const ", "").replace("&", "").strip())
                if dom and isinstance(v, (T, D)): return t.apply(("eidx", dom), lambda x: t.enum_index(x, dom), v)
                return self.unk("enum to integer")
            return self.conv(v, ty)
        return self.unk("cast " + ck)
    def e_rv(self, e, st, fr):
        v = self.rval(self.E(e["e"], st, fr), st)
        return self.coerce(v, self.ty(fr, e))
    def e_asg(self, e, st, fr):
        v = self.R(e["b"], st, fr)
        lv = self.lval(self.E(e["a"], st, fr), st)
        self.store(st, lv, self.coerce(v, self.ty(fr, e["a"])))
        return lv
    def e_cas(self, e, st, fr):
        b = self.R(e["b"], st, fr)
        lv = self.lval(self.E(e["a"], st, fr), st)
        a = self.load(st, lv)
        if isinstance(a, Struct) and a.cls == "iter":
            self.store(st, lv, self.lib.iter_arith(self, e["op"], a, b))
            return lv
        ty = self.ty(fr, e["a"])
        ct = fr.tu.types[e["ct"]]
        if ty["k"] == "b" and e["op"] in ("|", "&") and isinstance(a, (T, D)) and isinstance(b, (T, D)):
            x, y = t.asbool(a), t.asbool(b)
            v = t.b_or(x, y) if e["op"] == "|" else t.b_and(x, y)
        else:
            v = self.conv(self.arith(e["op"], a, b, ct), ty) if ty["k"] in "iufb" else self.arith(e["op"], a, b, ct)
        self.store(st, lv, v)
        return lv
    def e_cond(self, e, st, fr):
        c = self.B(e["c"], st, fr)
        if c is TRUE: return self.E(e["a"], st, fr)
        if c is FALSE: return self.E(e["b"], st, fr)
        sa, sb = st.copy(), st.copy()
        sa.pc = t.b_and(st.pc, c)
        sb.pc = t.b_and(st.pc, t.b_not(c))
        a = self.E(e["a"], sa, fr)
        b = self.E(e["b"], sb, fr)
        pa, pb = sa.pc, sb.pc
        if pa is FALSE and pb is FALSE:
            st.become(sa); return a if a is not None else b
        if pa is FALSE: st.become(sb); return b
        if pb is FALSE: st.become(sa); return a
        if isinstance(a, Lval) and isinstance(b, Lval):
            if isinstance(a.root, tuple) and a.root == b.root and a.path == b.path:
                st.become(self.merge(c, sa, sb))
                return a
        va, vb = self.rval(a, sa), self.rval(b, sb)
        if va is None or vb is None: v = None
        else:
            if isinstance(va, (T, D)) and isinstance(vb, (T, D)):
                ty = self.ty(fr, e)
                va, vb = self.coerce(va, ty), self.coerce(vb, ty)
            v = self.comb([va, vb], lambda xs: t.ite(c, xs[0], xs[1]))
        st.become(self.merge(c, sa, sb))
        return v
    def e_zero(self, e, st, fr):
        ty = self.ty(fr, e)
        return self.zero(ty)
    def zero(self, ty):
        k = self.tkind(ty)
        if k in "iuf": return ZERO
        if k == "b": return FALSE
        if k == "p": return NULL
        if k == "e":
            dom = self.prog.enums.get(ty["s"].replace("const ", "").strip())
            return t.mk("enumc", dom[0]) if dom else self.unk("enum zero")
        return self.unk("zero " + ty["s"])
    def e_ilist(self, e, st, fr):
        ty = self.ty(fr, e)
        k = self.tkind(ty)
        if k in "iufbpe" :
            if not e["args"]: return self.zero(ty)
            return self.R(e["args"][0], st, fr)
        vals = [self.R(a, st, fr) for a in e["args"]]
        if k == "rec":
            names = self.all_fields(ty["rec"])
            f = {}
            for n, v in zip(names, vals): f[n] = v
            return Struct(ty["rec"], f, None)
        if ty["k"] == "a" or k in ("arr", "o"):
            a = t.NIL
            for v in vals: a = t.push(a, self.totermv(v))
            n = ty.get("n")
            return a
        return self.unk("init list " + ty["s"])
    def e_typeid(self, e, st, fr):
        if "ty" in e: return t.mk("ti", fr.tu.types[e["ty"]]["s"])
        x = self.E(e["e"], st, fr)
        p = self.lref(self.lval(x, st))
        def f(q):
            c = self.exact_class(q, st) if q.op != "null" else None
            return t.mk("ti", c) if c and (q.op == "obj" or q in self.exact or q.op == "lref") else t.mk("tid", q)
        return self.lift_ptr(p, f) if isinstance(p, (T, D)) else self.unk("typeid")
    def e_throw(self, e, st, fr):
        if e.get("e") is None:
            if fr.exc is not None:
                self.throws.append((st.pc, fr.exc[0], fr.exc[1], st.copy()))
                st.pc = FALSE
                return None
            st.pc = FALSE
            return self.unk("rethrow")
        v = self.R(e["e"], st, fr)
        ty = fr.tu.types[e["et"]]
        et = ty.get("rec") or ty["s"]
        if st.pc is not FALSE: self.throws.append((st.pc, et, v, st.copy()))
        st.pc = FALSE
        return None
    def throw(self, st, et, msg=""):
        if st.pc is not FALSE: self.throws.append((st.pc, et, t.mk("str", msg), st.copy()))
    def throw_if(self, st, c, et):
        """conditional library exception"""
        p = t.b_and(st.pc, c)
        if p is not FALSE:
            s2 = st.copy(); s2.pc = p
            self.throws.append((p, et, t.mk("str", "lib"), s2))
        st.pc = t.b_and(st.pc, t.b_not(c))
    def e_del(self, e, st, fr):
        self.R(e["e"], st, fr)
        return None
    def e_lambda(self, e, st, fr):
        if e.get("generic"): return self.unk("generic lambda")
        env = {}
        for c in e["caps"]:
            if c.get("this"): continue
            if "init" in c:
                r = self.newroot()
                st.mem[r] = self.R(c["init"], st, fr)
                env[c["d"]] = Lval(r)
            elif c.get("byref"):
                if c["d"] in fr.env: env[c["d"]] = fr.env[c["d"]]
            else:
                if c["d"] in fr.env:
                    r = self.newroot()
                    st.mem[r] = self.load(st, fr.env[c["d"]])
                    env[c["d"]] = Lval(r)
        cl = Clo(e, fr.tu, env, fr.this)
        cl.ctx = fr.defn
        return cl
    def e_new(self, e, st, fr):
        if e.get("arr"): return self.unk("array new")
        ty = fr.tu.types[e["at"]]
        if e.get("e") is not None and e["e"]["k"] == "ctor":
            return self.new_obj(e["e"], ty["rec"], st, fr)
        r = self.newroot("h")
        st.mem[r] = self.R(e["e"], st, fr) if e.get("e") is not None else self.unk("new")
        return self.lref(Lval(r))
    def new_obj(self, ce, cls, st, fr):
        self.nobj += 1
        p = t.mk("obj", self.nobj, cls)
        args = [self.E(a, st, fr) for a in ce["args"]]
        fn = fr.tu.funcs[ce["fn"]]
        st.mem[p] = Struct(cls, {}, None)
        self.construct(fn, p, args, st, fr, cls)
        return p
    def e_ctor(self, e, st, fr):
        fn = fr.tu.funcs[e["fn"]]
        ty = self.ty(fr, e)
        if not fn["repo"]:
            args = [self.E(a, st, fr) for a in e["args"]]
            return self.lib.ctor(self, e, fn, ty, args, st, fr)
        args = [self.E(a, st, fr) for a in e["args"]]
        if (fn.get("copy") or fn.get("move")) and self.prog.find_def(fn["key"], fr.tu) is None:
            v = self.rval(args[0], st)
            if isinstance(v, Clo): return v
            if isinstance(v, Struct):
                v = self.materialise(v)
                return Struct(fn["rec"] if not self.prog.derives(v.cls, fn["rec"]) else fn["rec"], dict(v.fields), None)
            return v
        if "(lambda" in (fn.get("rec") or "") or "lambda at" in ty["s"]:
            return self.rval(args[0], st)
        r = self.newroot("t")
        st.mem[r] = Struct(fn["rec"], {}, None)
        self.construct(fn, self.lref(Lval(r)), args, st, fr, fn["rec"])
        return self.load(st, Lval(r)) if st.pc is not FALSE else Struct(fn["rec"], {}, None)

    # ------------------------------------------------------------ calls
    def e_call(self, e, st, fr):
        if "callee" in e:
            c = self.rval(self.E(e["callee"], st, fr), st)
            args = [self.E(a, st, fr) for a in e["args"]]
            return self.call_clo(c, args, st, fr)
        fn = fr.tu.funcs[e["fn"]]
        obj = self.E(e["obj"], st, fr) if e.get("obj") is not None else None
        if isinstance(obj, Lval):
            ov = self.load(st, obj) if isinstance(obj.root, tuple) else None
            if isinstance(ov, Clo): obj = ov
        if isinstance(obj, Clo):
            args = [self.E(a, st, fr) for a in e["args"]]
            return self.call_clo(obj, args, st, fr)
        args = [self.E(a, st, fr) for a in e["args"]]
        h = self.hooks.get(fn["qn"])
        if h is not None:
            r = h(self, e, fn, obj, args, st, fr)
            if r is not NotImplemented: return r
        if not fn["repo"]:
            return self.libcall(e, fn, obj, args, st, fr)
        this = None
        if e.get("obj") is not None:
            if e.get("arrow"):
                this = self.rval(obj, st)
            else:
                this = self.lref(self.lval(obj, st))
            if not isinstance(this, (T, D)): this = self.unk("object pointer")
            self.nullcheck(this, st, fr, e)
        virt = fn.get("virt") and not e.get("qual")
        return self.call_fn(fn["key"], this, args, st, fr, virt, e)
    def libcall(self, e, fn, obj, args, st, fr):
        r = self.lib.call(self, e, fn, obj, args, st, fr)
        x = r.fields.get("v") if isinstance(r, Struct) and r.cls in ("Earr", "Erow") else r
        if isinstance(x, T) and x.op == "unk":
            # what an unmodelled function may have written is unknown from here on
            why = str(x.args[0])
            if any(isinstance(a, Clo) for a in args):
                self.havoc(st)
                st.trace = st.trace + ((TRUE, "unk", (x,)),)
            if fn["kind"] == "method" and not fn.get("const") and isinstance(obj, Lval): self.store(st, obj, self.unk(why))
            for a, p in zip(args, fn["pt"]):
                ty = fr.tu.types[p]
                if isinstance(a, Lval) and ty.get("ref") == "&" and not fr.tu.types[ty["to"]]["const"]: self.store(st, a, self.unk(why))
                v = self.rval(a, st) if isinstance(a, Lval) else a
                if isinstance(v, Struct) and v.cls == "iter" and isinstance(v.fields.get("c"), (T, D)): self.store(st, self.deref(v.fields["c"]), self.unk(why))
        return r
    def call_clo(self, c, args, st, fr):
        if not isinstance(c, Clo): return self.unk("call of unknown function value")
        if "fref" in c.e:
            fn = c.tu.funcs[c.e["fref"]]
            if not fn["repo"]: return self.libcall({"t": fn["ret"], "l": 0, "args": []}, fn, None, args, st, Frame(c.tu))
            return self.call_fn(fn["key"], None, args, st, fr, False, None)
        f2 = Frame(c.tu, c.this, getattr(c, "ctx", None))
        f2.env = dict(c.env)
        return self.run_body(f2, c.e["params"], c.e["body"], args, st, c.tu.types[c.e["ret"]])
    def call_fn(self, key, this, args, st, fr, virt=False, e=None):
        if st.pc is FALSE: return self.unk("dead")
        if isinstance(this, D) and (virt or True):
            ls = t.leaves(this)
            if len(ls) > 1:
                out = []
                P = st.pc
                for lf in ls:
                    c = t.apply(("isleaf", lf.id), lambda x: t.boolc(x is lf), this)
                    s2 = st.copy(); s2.pc = t.b_and(P, c)
                    if s2.pc is FALSE: continue
                    if lf is NULL: continue
                    v = self.call_fn(key, lf, args, s2, fr, virt, e)
                    out.append((c, s2, v))
                live = [(c, s, v) for c, s, v in out if s.pc is not FALSE]
                if not live:
                    st.pc = FALSE
                    return self.unk("dead")
                s, v = self.merge_many(live)
                st.become(s)
                return v
        fn, ftu = self.prog.funcs[key]
        if virt:
            tgt = self.resolve(this, key, st)
            if tgt is None: return self.opaque(key, this, args, st, fr, e)
            key = tgt
            fn, ftu = self.prog.funcs[key]
        h = self.hooks.get(fn["qn"])
        if h is not None and virt:
            r = h(self, e, fn, this, args, st, fr)
            if r is not NotImplemented: return r
        df = self.prog.find_def(key, fr.tu if fr else None)
        if df is None:
            if fn.get("defaulted") or fn.get("implicit"):
                if fn["name"] == "operator=":
                    v = self.rval(args[0], st)
                    lv = self.deref(this)
                    if isinstance(v, Struct):
                        v = self.materialise(v)
                        cur = self.load(st, lv)
                        if isinstance(cur, Struct):
                            new = cur
                            for n, x in v.fields.items(): new = new.set(n, x)
                            self.store(st, lv, new)
                            return lv
                    self.store(st, lv, v)
                    return lv
                if fn["kind"] == "dtor": return None
                if fn["name"] == "operator==" or fn["name"] == "operator!=":
                    a, b = self.load(st, self.deref(this)), self.rval(args[0], st)
                    return self.lib.struct_cmp(self, fn["name"][8:], a, b)
            if fn.get("pure"): return self.opaque(key, this, args, st, fr, e)
            return self.unk("no body for " + fn["qn"])
        if fn["kind"] == "dtor": return None
        if fn.get("static") : this = None
        return self.inline(df, this, args, st)
    def resolve(self, this, key, st):
        cls = self.exact_class(this, st) if isinstance(this, T) else None
        fn = self.prog.funcs[key][0]
        if isinstance(this, T) and this in self.open: return None
        if self.forced_all and self.opaque_name(key) in self.forced_all: return None
        if self.forced and self.opaque_name(key) in self.forced and not (isinstance(this, T) and this.op == "obj"): return None
        if cls is not None and (this.op in ("obj", "lref") or this in self.exact):
            return self.prog.dispatch(cls, key)
        static = fn.get("rec")
        pt = self.ptype.get(this)
        if pt and pt in self.prog.records and self.prog.derives(pt, static): static = pt
        tg = {self.prog.dispatch(c, key) for c in self.prog.concrete(static)}
        tg.discard(None)
        if len(tg) == 1: return tg.pop()
        return None
    def opaque_name(self, key):
        r = sorted(self.prog.root_keys(key))[0]
        return self.prog.funcs[r][0]["qn"] if r in self.prog.funcs else r
    def opaque(self, key, this, args, st, fr, e):
        """virtual call with an unknown receiver: an uninterpreted (possibly random) function of its inputs"""
        fn, ftu = self.prog.funcs[key]
        name = self.opaque_name(key)
        vals = [self.totermv(self.rval(a, st)) for a in args]
        pts = [ftu.types[x] for x in fn["pt"]]
        rty = ftu.types[fn["ret"]]
        draw = key in self.drawing() and not (self.engines and any("mersenne_twister" in x["s"] for x in pts))
        base = [this] + vals
        if draw:
            atom = self.draw(st, "call:" + name, base)
        if not fn.get("const") and not draw:
            w = ()
            if self.watch is not None:
                f, self.watch = self.watch, None
                w = (f(st.copy()),)
                self.watch = f
            st.trace = st.trace + ((TRUE, "call", (name, this) + tuple(vals) + w),)
        # out parameters
        for i, (a, p) in enumerate(zip(args, pts)):
            if p.get("ref") == "&" and not p["const"] and not ftu.types[p["to"]]["const"] and isinstance(a, Lval):
                self.store(st, a, self.opq_val("call:%s$%d" % (name, i), base, p, ftu))
        if rty["k"] == "v": return None
        if draw:
            return self.lift_ptr(atom, lambda x: self.wrap_atom(x, rty, ftu)) if isinstance(atom, D) else self.wrap_atom(atom, rty, ftu)
        return self.opq_val("call:" + name, base, rty, ftu)
    def opq_val(self, op, vals, ty, tu):
        v = t.app(op, *[t.num(x) if self.isnum(x) else x for x in vals])
        return self.lift_ptr(v, lambda x: self.wrap_atom(x, ty, tu))
    def isnum(self, v): return any(x.op == "poly" for x in t.leaves(v))
    def wrap_atom(self, a, ty, tu):
        k = self.tkind(ty)
        if k == "f": return t.poly(a)
        if k in "iu":
            if a.isint: return t.poly(a)
            b = t.mk(a.op, *a.args, isint=True)
            if k == "u": t.NONNEG.add(b)
            return t.poly(b)
        if k == "b": return t.b_atom(a)
        if k == "p":
            pt = self.pointee(ty, tu)
            if pt: self.ptype[a] = pt
        if k == "mat": self.lib.MATS.add(a)
        if k == "arr" and not self.elem_numeric(ty): t.NONNUM.add(a)
        if k == "opt": return Struct("std::optional", {"has": t.b_atom(t.mk("has", a)), "val": t.poly(t.mk("optval", a))})
        if k == "rec": return Struct(ty["rec"], {}, a)
        return a
    def drawing(self):
        """functions that may consume random numbers (call graph closure)"""
        if self._drawing is None:
            calls = {}
            for key, df in self.prog.defs.items():
                s = set()
                collect_calls(df.d, df.tu, s)
                calls[key] = s
            gens = {k for k, (fn, tu) in self.prog.funcs.items() if fn["name"] == "operator()" and fn.get("virt")
                    and any("Distribution" in tu.types[x]["s"] for x in fn["pt"])}
            gens |= {k for k, (fn, tu) in self.prog.funcs.items() if fn["name"] == "operator()" and fn.get("virt")
                     and any("mersenne_twister" in tu.types[x]["s"] for x in fn["pt"])}
            d = set(gens)
            ch = True
            while ch:
                ch = False
                for k, s in calls.items():
                    if k in d: continue
                    if any(x in d or (self.prog.overriders(x) & d if x in self.prog.over else False) for x in s):
                        d.add(k); ch = True
            # a virtual method draws if some override draws
            full = set(d)
            for k in list(self.prog.over):
                if self.prog.overriders(k) & d: full.add(k)
            self._drawing = full
        return self._drawing
    def draw(self, st, law, params, isint=False):
        """a fresh random variable: labelled by law, parameters, and position in the draw order of that law"""
        ps = [self.totermv(p) if not isinstance(p, (T, D)) else p for p in params]
        key = (law,) + tuple(p.id for p in ps)
        lab = []
        for i, (c, k) in enumerate(st.dr):
            if i: lab.append(t.poly(k))
            lab.append(t.const(c.get(key, 0)))
        c = st.dr[-1][0]
        c[key] = c.get(key, 0) + 1
        n = len(ps)
        return t.apply(("draw", law, n, isint), lambda *xs: t.mk("draw", law, n, *xs, isint=isint), *(ps + lab))

    def inline(self, df, this, args, st):
        if self.depth > 80 or self.stack.count(df.key) > 2: return self.unk("recursion in " + df.fn["qn"])
        self.analysed.add(df.key)
        f2 = Frame(df.tu, this, df)
        if df.fn["kind"] == "ctor": raise Unsupported("ctor via inline")
        self.stack.append(df.key); self.depth += 1
        try:
            return self.run_body(f2, df.d["params"], df.d["body"], args, st, df.tu.types[df.fn["ret"]])
        finally:
            self.stack.pop(); self.depth -= 1
    def bind(self, f2, params, args, st):
        for i, p in enumerate(params):
            ty = f2.tu.types[p["t"]]
            if i < len(args): a = args[i]
            elif "def" in p: a = self.E(p["def"], st, f2)
            else: a = self.unk("missing argument")
            if ty.get("ref"):
                f2.env[p["d"]] = self.lval(a, st)
            else:
                r = self.newroot()
                v = self.rval(a, st)
                st.mem[r] = self.coerce(v, ty) if isinstance(v, (T, D)) else v
                self.rtype[r] = (ty, f2.tu)
                f2.env[p["d"]] = Lval(r)
    def under(self, nf, P):
        """faults found in a callee happen under the condition of the call"""
        self.faults[nf:] = [x for x in ((t.b_and(P, f[0]),) + f[1:] for f in self.faults[nf:]) if x[0] is not FALSE]
    def run_body(self, f2, params, body, args, st, rty):
        self.bind(f2, params, args, st)
        P = st.pc
        old = self.throws
        self.throws = []
        st.pc = TRUE
        locks = st.locks
        nf = len(self.faults)
        self.S(body, st, f2)
        self.under(nf, P)
        th = self.throws
        self.throws = old
        for pc, et, v, s in th: old.append((t.b_and(P, pc), et, v, s))
        for pc, et, v, s in th: s.pc = t.b_and(P, pc)
        outs = [(pc, s, v) for pc, s, v in f2.rets]
        if st.pc is not FALSE: outs.append((st.pc, st.copy(), None))
        if not outs:
            st.pc = FALSE
            return self.unk("dead")
        if not rty.get("ref"):
            outs = [(pc, s, self.rval(v, s) if isinstance(v, Lval) else v) for pc, s, v in outs]
            if rty["k"] in "iufb": outs = [(pc, s, self.coerce(v, rty) if isinstance(v, (T, D)) else v) for pc, s, v in outs]
        s, v = self.merge_many(outs)
        st.become(s)
        pcs = FALSE
        for pc, _, _ in outs: pcs = t.b_or(pcs, pc)
        st.pc = t.b_and(P, pcs)
        st.locks = locks
        return v

    def construct(self, fn, this, args, st, fr, cls, base=False):
        """run constructor fn on object this"""
        key = fn["key"]
        df = self.prog.find_def(key, fr.tu)
        if df is None:
            if (fn.get("copy") or fn.get("move")) and args:
                v = self.rval(args[0], st)
                lv = self.deref(this)
                if isinstance(v, Struct):
                    cur = self.load(st, lv)
                    v = self.materialise(v)
                    for n, x in v.fields.items(): cur = cur.set(n, x)
                    self.store(st, lv, cur)
                return
            if fn.get("inh") is not None and fr is not None:
                base_fn = fr.tu.funcs[fn["inh"]]
                self.construct(base_fn, this, args, st, fr, cls)
                if st.pc is not FALSE: self.default_fields(fn["rec"], this, st)
                return
            if not args or fn.get("defaulted"):
                self.default_fields(fn["rec"], this, st, recurse=True)
                return
            if st.pc is not FALSE:
                self.unknowns.add("no body for constructor " + fn["qn"])
                self.store(st, self.deref(this), Struct(cls, {}, self.unk("no body for constructor " + fn["qn"])))
            return
        self.analysed.add(key)
        f2 = Frame(df.tu, this, df)
        self.stack.append(key); self.depth += 1
        try:
            P = st.pc
            old = self.throws
            self.throws = []
            st.pc = TRUE
            nf = len(self.faults)
            self.bind(f2, df.d["params"], args, st)
            for i in df.d.get("inits", []):
                e = i.get("e")
                if "base" in i or i.get("deleg"):
                    if e is None: continue
                    if e["k"] == "inhctor":
                        self.construct(df.tu.funcs[e["fn"]], this, [self.fwd(f2.env[p["d"]], p, f2, st) for p in df.d["params"]], st, f2, cls)
                    elif e["k"] == "ctor":
                        cf = df.tu.funcs[e["fn"]]
                        a2 = [self.E(a, st, f2) for a in e["args"]]
                        if cf["repo"]: self.construct(cf, this, a2, st, f2, cls)
                    elif e["k"] in ("zero", "ilist"): pass
                    continue
                if "f" in i:
                    name = "%s.%s" % (i.get("rec") or df.fn["rec"], i["f"])
                    fty, ftu = self.field_type(cls, name)
                    if e is None: continue
                    x = self.E(e, st, f2)
                    if fty is not None and fty.get("ref"):
                        v = self.lref(self.lval(x, st))
                    else:
                        v = self.rval(x, st)
                        if fty is not None and isinstance(v, (T, D)): v = self.coerce(v, fty)
                    lv = self.deref(this)
                    if st.pc is not FALSE: self.store(st, lv.sub("f", name), v)
            self.S(df.d["body"], st, f2)
            self.under(nf, P)
            outs = [(pc, s, None) for pc, s, v in f2.rets]
            if st.pc is not FALSE: outs.append((st.pc, st.copy(), None))
            th = self.throws
            self.throws = old
            for pc, et, v, s in th:
                s.pc = t.b_and(P, pc)
                old.append((s.pc, et, v, s))
            if not outs:
                st.pc = FALSE
                return
            s, _ = self.merge_many(outs)
            st.become(s)
            pcs = FALSE
            for pc, _, _ in outs: pcs = t.b_or(pcs, pc)
            st.pc = t.b_and(P, pcs)
        finally:
            self.stack.pop(); self.depth -= 1
    def fwd(self, lv, p, f2, st):
        ty = f2.tu.types[p["t"]]
        if ty.get("ref"): return lv
        return self.load(st, lv)
    def default_fields(self, cls, this, st, recurse=False):
        r = self.prog.records.get(cls)
        if r is None: return
        if recurse:
            for b in self.prog.bases.get(cls, []): self.default_fields(b, this, st, True)
        rec, tu = r
        f2 = Frame(tu, this)
        for fd in rec["fields"]:
            name = "%s.%s" % (cls, fd["n"])
            ty = tu.types[fd["t"]]
            if fd.get("init") is not None: v = self.R(fd["init"], st, f2)
            else: v = self.default_value(ty, tu, st)
            if v is not None: self.store(st, self.deref(this).sub("f", name), v)
    def default_value(self, ty, tu, st):
        k = self.tkind(ty)
        if k == "p" and ty["k"] == "r": return NULL
        if k == "arr": return t.NIL
        if k == "map": return t.mk("mempty")
        if k == "s": return t.mk("str", "")
        if k == "opt": return Struct("std::optional", {"has": FALSE, "val": ZERO})
        if k == "rec":
            s = Struct(ty["rec"], {}, None)
            r = self.newroot("t")
            st.mem[r] = s
            self.default_fields(ty["rec"], self.lref(Lval(r)), st, True)
            return st.mem[r]
        return None

    # ------------------------------------------------------------ statements
    def S(self, s, st, fr):
        if s is None or st.pc is FALSE: return
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            self.unknowns.add("stmt " + s["k"])
            st.pc = FALSE
            fr.rets.append((TRUE, st.copy(), self.unk("stmt " + s["k"])))
            return
        m(s, st, fr)
    def s_blk(self, s, st, fr):
        locks = st.locks
        for x in s["s"]:
            if st.pc is FALSE: break
            self.S(x, st, fr)
        st.locks = locks
    def s_nop(self, s, st, fr): pass
    def s_expr(self, s, st, fr): self.E(s["e"], st, fr)
    def s_unk(self, s, st, fr):
        self.unknowns.add("statement %s at %s" % (s.get("what"), self.where(s, fr)))
        self.havoc(st)
    def havoc(self, st):
        for r in list(st.mem): st.mem[r] = self.unk("havoc")
    def declare(self, v, st, fr):
        ty = fr.tu.types[v["t"]]
        if v.get("static"):
            # initialised once, by whichever call came first: only an initialiser that cannot
            # depend on this call's inputs has a value known here
            qn = "static:%s:%s" % (fr.defn.fn["qn"] if fr.defn else "?", v["n"])
            r = ("g", qn)
            const = ty["const"] or "const" in ty["s"].split()[:1]
            if self.boot and len(st.dr) == 1 and not ty.get("ref"):
                done = ("g", qn + "#initialised")
                flag = st.mem.get(done, FALSE)
                self.ginit[done] = FALSE
                self.ginit.setdefault(r, self.initv(("gvar", qn), ty, fr.tu))
                self.rtype[r] = (ty, fr.tu)
                if flag is not TRUE:
                    a, b = st.copy(), st.copy()
                    a.pc, b.pc = t.b_and(st.pc, t.b_not(flag)), t.b_and(st.pc, flag)
                    if a.pc is not FALSE:
                        val = self.rval(self.E(v["init"], a, fr), a) if v.get("init") is not None else self.default_value(ty, fr.tu, a)
                        if isinstance(val, (T, D)): val = self.coerce(val, ty)
                        a.mem[r] = val if val is not None else self.initv(("gvar", qn), ty, fr.tu)
                        a.mem[done] = TRUE
                    st.become(self.merge(t.b_not(flag), a, b))
                fr.env[v["d"]] = Lval(r)
                return
            if r not in st.mem:
                val = None
                if v.get("init") is not None and not ty.get("ref"):
                    s2 = st.copy()
                    nt, nf2 = len(self.throws), len(self.faults)
                    val = self.rval(self.E(v["init"], s2, fr), s2)
                    if isinstance(val, (T, D)): val = self.coerce(val, ty)
                    fresh = isinstance(val, T) and val.op == "obj" and ("obj", val.args[0]) not in st.mem and not any(k is val for k in st.mem)
                    vv = self.totermv(val)
                    closed = isinstance(vv, (T, D)) and not vv.free and not vv.unk and not any(a.op in ("fld", "draw", "gvar") for a in t._atoms_of(vv))
                    if (closed and const) or fresh: st.become(s2)
                    elif closed and isinstance(val, Struct):
                        val = self.frozen(val, self.initv(("gvar", qn), ty, fr.tu))
                    else: val = None; del self.throws[nt:]; del self.faults[nf2:]
                st.mem[r] = val if val is not None else self.initv(("gvar", qn), ty, fr.tu)
                self.statics[qn] = (v, fr)
                self.ginit[r] = st.mem[r]
            self.rtype[r] = (ty, fr.tu)
            fr.env[v["d"]] = Lval(r)
            return
        x = self.E(v["init"], st, fr) if v.get("init") is not None else None
        if ty.get("ref"):
            fr.env[v["d"]] = self.lval(x, st)
            return self.bindings(v, st, fr)
        r = self.newroot()
        self.rtype[r] = (ty, fr.tu)
        fr.env[v["d"]] = Lval(r)
        if x is None:
            d = self.default_value(ty, fr.tu, st)
            st.mem[r] = d if d is not None else t.mk("undef", v["n"])
        else:
            val = self.rval(x, st)
            if isinstance(val, (T, D)): val = self.coerce(val, ty)
            if isinstance(val, Struct) and val.cls in ("Earr", "Erow") and eigen_shape(ty): val = val.fields["v"]
            if ty.get("rec", "") in ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock") and isinstance(val, T) and val.op == "lock":
                st.locks = st.locks | {val.args[0]}
            st.mem[r] = val
        self.bindings(v, st, fr)
    def frozen(self, val, opq):
        """an object initialised once from constants, at any later time: fields nothing but a constructor writes keep their
        value, the rest is unknown; a library distribution keeps its parameters (no repository code calls param())"""
        if isinstance(val, Struct) and val.cls in self.lib.DISTS:
            return opq.set("saved", opq.fields.get("saved", ZERO)) if not isinstance(opq, Struct) else \
                Struct(val.cls, {n: val.fields[n] if n != "saved" and n in val.fields else x for n, x in opq.fields.items()}, opq.base)
        out = opq
        for n, x in val.fields.items():
            if isinstance(x, Struct):
                o = self.getf(opq, n)
                if isinstance(o, Struct): out = out.set(n, self.frozen(x, o))
            elif n not in self.prog.written(): out = out.set(n, x)
        return out
    def bindings(self, v, st, fr):
        if v.get("binds"):
            for i, b in enumerate(v["binds"]):
                h = b.get("hold")
                if h is not None:
                    base = fr.env[v["d"]]
                    fr.env[b["d"]] = base.sub("f", str(i))
                    fr.env[h["d"]] = base.sub("f", str(i))
                elif b.get("e") is not None:
                    fr.env[b["d"]] = self.lval(self.E(b["e"], st, fr), st)
    def s_decl(self, s, st, fr):
        for v in s["v"]:
            if st.pc is FALSE: return
            self.declare(v, st, fr)
    def s_if(self, s, st, fr):
        if s.get("init") is not None: self.S(s["init"], st, fr)
        if s.get("cv") is not None: self.declare(s["cv"], st, fr)
        if s.get("cx") and "cxv" in s:
            self.S(s["a"] if s["cxv"] else s.get("b"), st, fr)
            return
        c = self.B(s["c"], st, fr)
        if st.pc is FALSE: return
        if c is TRUE: return self.S(s["a"], st, fr)
        if c is FALSE: return self.S(s.get("b"), st, fr)
        sa, sb = st.copy(), st.copy()
        sa.pc = t.b_and(st.pc, c)
        sb.pc = t.b_and(st.pc, t.b_not(c))
        self.S(s["a"], sa, fr)
        self.S(s.get("b"), sb, fr)
        if sa.pc is FALSE and sb.pc is FALSE: st.pc = FALSE; return
        st.become(self.merge(c, sa, sb))
    def s_ret(self, s, st, fr):
        v = self.E(s["e"], st, fr) if s.get("e") is not None else None
        if st.pc is FALSE: return
        fr.rets.append((st.pc, st.copy(), v))
        st.pc = FALSE
    def s_break(self, s, st, fr):
        fr.brks.append((st.pc, st.copy(), None)); st.pc = FALSE
    def s_continue(self, s, st, fr):
        fr.conts.append((st.pc, st.copy(), None)); st.pc = FALSE
    def s_try(self, s, st, fr):
        old = self.throws
        self.throws = []
        self.S(s["body"], st, fr)
        th = self.throws
        self.throws = old
        outs = []
        for pc, et, v, ts in th:
            done = False
            for h in s["h"]:
                ht = None if h["all"] else fr.tu.types[h["t"]]
                hn = None if ht is None else (ht.get("rec") or ht["s"])
                if h["all"] or exc_isa(self.prog, et, hn):
                    s2 = ts.copy(); s2.pc = pc
                    f_exc = fr.exc
                    fr.exc = (et, v)
                    if h.get("var"):
                        r = self.newroot()
                        s2.mem[r] = v if v is not None else self.unk("exc")
                        fr.env[h["var"]["d"]] = Lval(r)
                    self.S(h["body"], s2, fr)
                    fr.exc = f_exc
                    if s2.pc is not FALSE: outs.append((s2.pc, s2, None))
                    done = True
                    break
            if not done: self.throws.append((pc, et, v, ts))
        if st.pc is not FALSE: outs.append((st.pc, st.copy(), None))
        if not outs: st.pc = FALSE; return
        m, _ = self.merge_many(outs)
        st.become(m)
    def s_switch(self, s, st, fr):
        if s.get("init") is not None: self.S(s["init"], st, fr)
        c = self.R(s["c"], st, fr)
        cty = self.ty(fr, s["c"])
        body = s["body"]
        flat = []      # list of ('label', values|None) and ('stmt', s)
        def fl(x):
            if x is None: return
            if x["k"] in ("case", "default"):
                flat.append(("label", x.get("v") if x["k"] == "case" else None, x))
                fl(x.get("s"))
            elif x["k"] == "blk" and x is body:
                for y in x["s"]: fl(y)
            else: flat.append(("stmt", x, None))
        fl(body)
        labels = [(i, l[1]) for i, l in enumerate(flat) if l[0] == "label"]
        conds = []
        rest = TRUE
        enumt = cty["k"] == "e"
        inner = s["c"]
        while inner.get("k") == "cast" and not enumt:
            inner = inner["e"]
            if self.ty(fr, inner)["k"] == "e":
                cty = self.ty(fr, inner); c = self.R(inner, st.copy(), fr); enumt = True
        for i, v in labels:
            if v is None: conds.append((i, None)); continue
            ve = v
            if enumt:
                while ve.get("k") == "cast" or ve.get("k") == "mat": ve = ve["e"]
                eq = self.enum_eq(c, self.R(ve, st, fr), cty)
            else: eq = t.cmp("==", t.num(c), t.num(self.R(ve, st, fr)))
            eq = t.b_and(rest, eq)
            rest = t.b_and(rest, t.b_not(eq))
            conds.append((i, eq))
        conds = [(i, rest if q is None else q) for i, q in conds]
        if not any(l[1] is None for l in labels): conds.append((len(flat), rest))
        outs = []
        P = st.pc
        for i, q in conds:
            s2 = st.copy(); s2.pc = t.b_and(P, q)
            if s2.pc is FALSE: continue
            ob = fr.brks
            fr.brks = []
            for kind, x, _ in flat[i:]:
                if s2.pc is FALSE: break
                if kind == "stmt": self.S(x, s2, fr)
            br = fr.brks
            fr.brks = ob
            if s2.pc is not FALSE: br.append((s2.pc, s2, None))
            outs += [(pc, ss, None) for pc, ss, _ in br]
        if not outs: st.pc = FALSE; return
        for pc, ss, _ in outs: ss.pc = pc
        m, _ = self.merge_many(outs)
        st.become(m)
    def s_for(self, s, st, fr):
        if s.get("init") is not None: self.S(s["init"], st, fr)
        self.loops.run(self, st, fr,
                       (lambda x: self.B(s["c"], x, fr)) if s.get("c") is not None else (lambda x: TRUE),
                       lambda x: self.S(s["body"], x, fr),
                       (lambda x: self.E(s["inc"], x, fr)) if s.get("inc") is not None else None, s)
    def s_while(self, s, st, fr):
        def cond(x):
            if s.get("cv") is not None: self.declare(s["cv"], x, fr)
            return self.B(s["c"], x, fr)
        self.loops.run(self, st, fr, cond, lambda x: self.S(s["body"], x, fr), None, s)
    def s_do(self, s, st, fr):
        def body(x):
            oc, fr.conts = fr.conts, []
            self.S(s["body"], x, fr)
            outs = fr.conts + ([(x.pc, x.copy(), None)] if x.pc is not FALSE else [])
            fr.conts = oc
            if not outs: x.pc = FALSE; return
            for pc, y, _ in outs: y.pc = pc
            m, _ = self.merge_many(outs)
            x.become(m)
            c = self.B(s["c"], x, fr)
            if c is TRUE: return
            y = x.copy()
            y.pc = t.b_and(x.pc, t.b_not(c))
            if y.pc is not FALSE: fr.brks.append((y.pc, y, None))
            x.pc = t.b_and(x.pc, c)
        self.loops.run(self, st, fr, None, body, None, s)
    def s_rfor(self, s, st, fr):
        if s.get("init") is not None: self.S(s["init"], st, fr)
        rng = self.E(s["range"], st, fr)
        lv = self.lval(rng, st)
        arr = self.load(st, lv)
        if isinstance(arr, Struct) and arr.cls in ("Earr", "Erow"): arr = arr.fields["v"]
        if not isinstance(arr, (T, D)):
            self.unknowns.add("range-for over " + repr(arr)[:60]); self.havoc(st); return
        n = t.alen(arr)
        vd = s["var"]
        def body(x, k):
            ty = fr.tu.types[vd["t"]]
            el = lv.sub("i", k)
            if ty.get("ref"): fr.env[vd["d"]] = el
            else:
                r = self.newroot()
                self.rtype[r] = (ty, fr.tu)
                v = self.load(x, el)
                x.mem[r] = self.coerce(v, ty) if isinstance(v, (T, D)) else v
                fr.env[vd["d"]] = Lval(r)
            self.bindings(vd, x, fr)
            self.S(s["body"], x, fr)
        self.loops.counted(self, st, fr, n, body, s)

NUMERIC_PRJ = set()

def collect_calls(node, tu, out):
    if isinstance(node, dict):
        if node.get("k") in ("call", "ctor", "inhctor") and "fn" in node: out.add(tu.funcs[node["fn"]]["key"])
        for v in node.values(): collect_calls(v, tu, out)
    elif isinstance(node, list):
        for v in node: collect_calls(v, tu, out)
