"""Loop summarisation: the carried locations of a loop are found by a fixpoint, each gets a
recurrence, and recurrences are solved into closed binders (sums, folds, maps, filters,
first/exists) or kept as an explicit recurrence term."""
from . import terms as t
from .terms import T, D, TRUE, FALSE, NULL, ZERO, ONE
from .interp import Struct, Lval, Clo, State

INF = t.mk("sym", "inf", isint=True)
t.NONNEG.add(INF)

def run(I, st, fr, cond, body, inc, node):
    core(I, st, fr, cond, lambda x, k: body(x), inc, node, None)

def counted(I, st, fr, n, body, node):
    core(I, st, fr, None, body, None, node, t.num(n))

def diff(I, a, b, path=()):
    """leaf paths where values a and b differ"""
    if a is b: return
    if isinstance(a, Struct) and isinstance(b, Struct) and a.cls == b.cls:
        for n in list(a.fields) + [x for x in b.fields if x not in a.fields]:
            yield from diff(I, I.getf(a, n), I.getf(b, n), path + (("f", n),))
        return
    yield path

def getloc(I, st, loc):
    root, path = loc
    v = st.mem.get(root)
    if v is None:
        if isinstance(root, tuple) and root[0] == "g": v = I.global_init(root)
        elif isinstance(root, tuple): return I.unk("loc")
        else: v = I.load_root(st, root)
    for s in path: v = I.project(st, v, s)
    return v
def setloc(I, st, loc, v):
    root, path = loc
    if not path:
        st.mem[root] = v
        return
    cur = st.mem.get(root)
    if cur is None: cur = I.load_root(st, root) if not (isinstance(root, tuple) and root[0] == "g") else I.global_init(root)
    st.mem[root] = I.setpath(st, cur, path, v)

class Mu:
    __slots__ = ("loc", "s", "V", "kind", "isint", "init")

def mk_mu(I, st, loc, newval):
    m = Mu()
    m.loc = loc
    m.init = getloc(I, st, loc)
    ty = None
    if not loc[1]:
        if loc[0] in I.rtype: ty = I.rtype[loc[0]][0]
    elif loc[1][-1][0] == "f" and "." in loc[1][-1][1]:
        ty = I.field_type(None, loc[1][-1][1])[0]
    k = I.tkind(ty) if ty is not None else None
    vals = [v for v in (m.init, newval) if isinstance(v, (T, D))]
    lv = [x for v in vals for x in t.leaves(v)]
    if k is None or k == "o":
        if not vals: k = "x"
        elif all(x is TRUE or x is FALSE for x in lv): k = "b"
        elif any(x.op == "poly" for x in lv): k = "f" if not all(x.op == "poly" and x.isint for x in lv) else "i"
        else: k = "x"
    m.isint = k in "iu" and len(k) == 1
    m.s = t.fresh("mu", m.isint)
    if k in ("f", "i", "u"): m.kind = "num"; m.V = t.poly(m.s)
    elif k == "b": m.kind = "bool"; m.V = t.b_atom(m.s)
    else:
        m.kind = "obj"; m.V = m.s
        if k == "arr" and ty is not None and not I.elem_numeric(ty): t.NONNUM.add(m.s)
        if k == "mat": I.lib.MATS.add(m.s)
        if k is None or k == "x":
            if any(x in t.NONNUM for x in lv): t.NONNUM.add(m.s)
            if any(I.lib.is_mat(x) for x in lv): I.lib.MATS.add(m.s)
        if isinstance(m.init, Struct): m.V = None
    return m

def live_root(I, base, r):
    if r in base.mem: return True
    if isinstance(r, tuple): return r[0] == "g"
    return r.op not in ("obj",)

def sv(I, v, mp):
    """substitute in any value"""
    if isinstance(v, (T, D)): return t.subst(v, mp)
    if isinstance(v, Struct):
        return Struct(v.cls, {n: sv(I, x, mp) for n, x in v.fields.items()}, t.subst(v.base, mp) if isinstance(v.base, (T, D)) else v.base)
    return v

def sub_events(I, evs, mp):
    out = []
    for g, k, x in evs:
        if k == "for":
            kk, n, inner = x
            out.append((t.subst(g, mp), k, (kk, t.subst(n, mp), sub_events(I, inner, mp))))
        else:
            out.append((t.subst(g, mp), k, tuple(t.subst(y, mp) if isinstance(y, (T, D)) else y for y in x)))
    return tuple(out)

def core(I, st, fr, cond, body, inc, node, n):
    if st.pc is FALSE: return
    P = st.pc
    base = st.copy()
    k = t.fresh("k", True)
    t.NONNEG.add(k)
    pk = t.poly(k)
    W = {}
    nf = len(I.faults)
    ng = len(I.gaccess)
    for rnd in range(14):
        del I.faults[nf:]
        del I.gaccess[ng:]
        s = base.copy()
        s.pc = TRUE
        s.dr = s.dr + [({}, k)]
        s.trace = ()
        for m in W.values(): setloc(I, s, m.loc, m.V)
        start = s.copy()
        ob, oc, orr, oth = fr.brks, fr.conts, fr.rets, I.throws
        fr.brks, fr.conts, fr.rets, I.throws = [], [], [], []
        c = cond(s) if cond else TRUE
        top = s.copy()
        s.pc = t.b_and(s.pc, c)
        if s.pc is not FALSE: body(s, pk)
        outs = list(fr.conts)
        if s.pc is not FALSE: outs.append((s.pc, s, None))
        end = None
        if outs:
            for pc, x, _ in outs: x.pc = pc
            end, _ = I.merge_many(outs)
            if inc and end is not None and end.pc is not FALSE: inc(end)
            if end is not None and end.pc is FALSE: end = None
        brks, rets, ths = fr.brks, fr.rets, I.throws
        fr.brks, fr.conts, fr.rets, I.throws = ob, oc, orr, oth
        new = False
        for e2 in [x for x in (end, top) if x is not None]:
            for r in list(e2.mem):
                if not live_root(I, base, r): continue
                a = start.mem.get(r)
                if a is None:
                    if isinstance(r, tuple): a = I.global_init(r)
                    else: a = Struct(e2.mem[r].cls if isinstance(e2.mem[r], Struct) else None, {}, r)
                for p in diff(I, a, e2.mem[r]):
                    loc = (r, p)
                    if loc in W: continue
                    # a wider location subsumes narrower ones
                    nv = getloc(I, e2, loc)
                    m = mk_mu(I, base, loc, nv)
                    if m.V is None:
                        I.unknowns.add("loop-carried record")
                        m.V = I.unk("loop-carried record"); m.kind = "unk"
                    W[loc] = m
                    new = True
        if not new: break
    else:
        I.unknowns.add("loop fixpoint")
        for m in W.values(): setloc(I, st, m.loc, I.unk("loop fixpoint"))
        return
    # drop locations nested under another carried location
    for loc in list(W):
        if any(l2 is not loc and l2[0] == loc[0] and len(l2[1]) < len(loc[1]) and loc[1][:len(l2[1])] == l2[1] for l2 in W):
            del W[loc]

    step = {}
    for loc, m in W.items():
        step[loc] = getloc(I, end, loc) if end is not None else m.V
    exits = [("brk", pc, x, None) for pc, x, _ in brks]
    exits += [("ret", pc, x, (I.rval(v, x) if isinstance(v, Lval) and not live_lv(I, base, v) else v)) for pc, x, v in rets]
    exits += [("thr", pc, x, (et, v)) for pc, et, v, x in ths]
    # values seen by exits
    exlocs = []
    for kind, pc, x, v in exits:
        ch = {}
        for r in list(x.mem):
            if not live_root(I, base, r): continue
            a = base.mem.get(r)
            if a is None:
                a = I.global_init(r) if isinstance(r, tuple) else Struct(x.mem[r].cls if isinstance(x.mem[r], Struct) else None, {}, r)
            for p in diff(I, a, x.mem[r]): ch[(r, p)] = getloc(I, x, (r, p))
        exlocs.append(ch)

    # what evaluating the condition itself writes (it is evaluated once more than the body runs)
    chtop = {}
    for r in list(top.mem):
        if not live_root(I, base, r): continue
        a = start.mem.get(r)
        if a is None:
            a = I.global_init(r) if isinstance(r, tuple) else Struct(top.mem[r].cls if isinstance(top.mem[r], Struct) else None, {}, r)
        for p in diff(I, a, top.mem[r]): chtop[(r, p)] = getloc(I, top, (r, p))

    # flag-controlled loops: `while (k < n && !done)` becomes an exit at the end of the iteration
    pre = {}
    for loc, m in list(W.items()):
        if m.kind != "bool" or end is None: continue
        var = t._bv(m.s)
        if var not in t.dvars(c): continue
        for v0, idx in ((FALSE, 1), (TRUE, 0)):
            if m.init is v0 and t.restrict(c, var, idx) is FALSE:
                pre[m.s] = v0
                sval = t.subst(step[loc], {m.s: v0})
                stop = t.b_not(sval) if v0 is TRUE else sval
                if stop is not FALSE:
                    ch = {}
                    for l2, m2 in W.items():
                        ch[l2] = step[l2]
                    for r in list(end.mem):
                        if not live_root(I, base, r): continue
                        a = base.mem.get(r)
                        if a is None:
                            a = I.global_init(r) if isinstance(r, tuple) else Struct(end.mem[r].cls if isinstance(end.mem[r], Struct) else None, {}, r)
                        for p in diff(I, a, end.mem[r]): ch[(r, p)] = getloc(I, end, (r, p))
                    exits.append(("brk", t.b_and(end.pc, stop), end, None))
                    exlocs.append(ch)
                del W[loc]
                base_flag = loc
                break
    if pre:
        c = t.subst(c, pre)
        step = {l: sv(I, v, pre) for l, v in step.items() if l in W}
        exits = [(kd, t.subst(pc, pre), x, v) for kd, pc, x, v in exits]
        exlocs = [{l: sv(I, v, pre) for l, v in ch.items()} for ch in exlocs]
        chtop = {l: sv(I, v, pre) for l, v in chtop.items()}

    # closed forms
    mus = {m.s for m in W.values()}
    cf = solve(I, W, step, k, pk)
    c = t.subst(c, cf)
    N = n if n is not None else trip(I, c, k, pk)
    ev_c = c

    def at(v, val):   # closed form, then iteration index := val
        return sv(I, sv(I, v, cf), {k: val})

    exits2 = []
    X = FALSE
    for (kind, pc, x, v), ch in zip(exits, exlocs):
        q = t.subst(pc, cf)
        if c is not TRUE and n is None: q = drop(q, c)
        if q is FALSE: continue
        exits2.append((kind, q, x, v, ch))
        X = t.b_or(X, q)
    if X is FALSE:
        ex, Fi = FALSE, N
    else:
        ex = t.Exists(N, k, X)
        Fi = t.First(N, k, X)
        if c is TRUE and n is None:     # no bound of its own: the exits are the bound
            lim = trip(I, t.b_not(X), k, pk)
            if INF not in getattr(lim, "free", (INF,)): ex, Fi = TRUE, lim

    used = {}
    for x in [y for y in (end, top) if y is not None] + [y[2] for y in exits2]:
        for L in x.dr[-1][0]: used[L] = 1
    def after(vals, idx, extra_tr=(), tripn=None):
        s = base.copy()
        for L in used: s.dr[-1][0][L] = s.dr[-1][0].get(L, 0) + 1
        for loc, v in vals.items(): setloc(I, s, loc, v)
        if end is not None and end.trace:
            evs = sub_events(I, end.trace, cf)
            s.trace = s.trace + ((TRUE, "for", (k, tripn if tripn is not None else idx, evs)),)
        if extra_tr: s.trace = s.trace + extra_tr
        return s

    outs = []
    vals = {loc: sv(I, cf[m.s], {k: N}) if m.s in cf else m.V for loc, m in W.items()}
    for loc, v in chtop.items(): vals[loc] = at(v, N)
    if ex is not TRUE:
        etr = sub_events(I, sub_events(I, top.trace, cf), {k: N}) if top.trace else ()
        s = after(vals, N, etr)
        s.pc = t.b_and(P, t.b_not(ex))
        outs.append((t.b_not(ex), s, None))
    for kind, q, x, v, ch in exits2:
        qq = ex if len(exits2) == 1 else t.b_and(ex, t.subst(q, {k: Fi}))
        vv = {loc: at(val, Fi) for loc, val in ch.items()}
        etr = sub_events(I, sub_events(I, x.trace, cf), {k: Fi}) if x.trace and x is not end else ()
        s = after(vv, Fi, etr)
        s.pc = t.b_and(P, qq)
        if kind == "brk": outs.append((qq, s, None))
        elif kind == "ret":
            if isinstance(v, Lval): rv = v
            else: rv = at(v, Fi) if v is not None else None
            fr.rets.append((s.pc, s, rv))
        else:
            I.throws.append((s.pc, v[0], at(v[1], Fi) if isinstance(v[1], (T, D)) else v[1], s))
    for i in range(nf, len(I.faults)):
        pc, kd, wh, sk = I.faults[i]
        I.faults[i] = (t.b_and(P, t.Exists(N, k, t.subst(pc, cf))), kd, wh, sk)
    if not outs:
        st.pc = FALSE
        return
    m, _ = I.merge_many(outs)
    pc = m.pc
    st.become(m)

def live_lv(I, base, lv): return live_root(I, base, lv.root) if not isinstance(lv.root, D) else True

def drop(q, c):
    """q under the assumption c (q was built as c && rest)"""
    if q is c: return TRUE
    for var in sorted(t.dvars(c), key=lambda x: x.id):
        dom = t.domain(var)
        ok = [i for i in range(len(dom)) if t.restrict(c, var, i) is not FALSE]
        if not ok or len(ok) == len(dom): continue
        if len(ok) == 1: q = t.restrict(q, var, ok[0])
        else:
            rs = [t.restrict(q, var, i) for i in ok]
            bad = [t.restrict(q, var, i) for i in range(len(dom)) if i not in ok]
            if all(b is FALSE for b in bad):
                if all(r is rs[0] for r in rs): q = rs[0]
    return q

def trip(I, c, k, pk):
    """number of iterations until c(k) first fails"""
    if c is TRUE: return t.First(t.poly(INF), k, FALSE) if False else t.poly(INF)
    if c is FALSE: return ZERO
    # hoist k-independent conditions
    for var in sorted(t.dvars(c), key=lambda x: x.id):
        if k not in var.free:
            return t.build(var, [trip(I, t.restrict(c, var, i), k, pk) for i in range(len(t.domain(var)))])
    for var in sorted(t.dvars(c), key=lambda x: x.id):
        if var.op != "sgn": continue
        e = var.args[0]
        lin = linear(e, k)
        if lin is None: continue
        a, b = lin
        r = [t.restrict(c, var, i) for i in range(3)]
        # direction: e increases with k when b > 0
        if b < 0: r = r[::-1]; a, b = t.pneg(a), -b
        if not a.isint or b.denominator != 1: continue
        # e = a + b*k ; r = [value when e<0, e==0, e>0]
        if r[2] is FALSE and r[1] is FALSE and r[0] is not FALSE: lim = t.neg(a); d = r[0]      # a+bk < 0
        elif r[2] is FALSE and r[0] is not FALSE and r[1] is r[0]: lim = t.sub(ONE, a); d = r[0]  # a+bk <= 0
        elif r[1] is FALSE and r[0] is r[2] and r[0] is not FALSE: lim = t.neg(a); d = r[0]      # !=
        else: continue
        if b != 1: lim = t.idiv(t.add(lim, t.const(b - 1)), t.const(b))
        n = t.n_nonneg(lim)
        if d is TRUE: return n
        return t.First(n, k, t.b_not(d))
    return t.First(t.poly(INF), k, t.b_not(c))

def linear(e, k):
    """e = a + b*k with constant b and k not in a"""
    b = None
    rest = {}
    for m, c in e.args[0]:
        if any(k in a.free for a, _ in m):
            if len(m) == 1 and m[0][0] is k and m[0][1] == 1: b = c
            else: return None
        else: rest[m] = c
    if b is None: return None
    return t.mkpoly(rest), b

# ------------------------------------------------------------------ recurrences
def solve(I, W, step, k, pk):
    cf = {}
    unres = dict(W)
    by = {m.s: m for m in W.values()}
    for m in list(unres.values()):
        if m.kind == "unk":
            cf[m.s] = m.V; del unres[m.loc]
    while unres:
        prog = False
        for loc in list(unres):
            m = unres[loc]
            f = step[loc]
            if not isinstance(f, (T, D)) or not isinstance(m.init, (T, D)):
                if isinstance(f, Clo) and f is m.init: cf[m.s] = m.init
                else: cf[m.s] = I.unk("loop-carried non-scalar")
                del unres[loc]; prog = True
                continue
            f = t.subst(f, cf)
            others = {x.s for x in unres.values() if x is not m}
            if any(o in f.free for o in others): continue
            r = classify(I, m, f, k, pk)
            if r is None: continue
            cf[m.s] = r
            del unres[loc]
            prog = True
        if prog: continue
        # generic recurrence for a minimal strongly connected group
        deps = {}
        for loc, m in unres.items():
            f = t.subst(step[loc], cf)
            deps[m.s] = {x.s for x in unres.values() if x.s in f.free}
        def reach(s):
            seen, todo = set(), [s]
            while todo:
                x = todo.pop()
                if x in seen: continue
                seen.add(x)
                todo += deps[x]
            return seen
        rs = {s: reach(s) for s in deps}
        grp = min(rs.values(), key=len)
        ms = [m for m in unres.values() if m.s in grp]
        st_ = [m.s for m in ms]
        kinds = [(m.isint, m.kind == "num") for m in ms]
        inits = [m.init for m in ms]
        steps = [t.subst(step[m.loc], cf) for m in ms]
        res = {}
        for i, m in enumerate(ms):
            # order: this state first
            order = [i] + [j for j in range(len(ms)) if j != i]
            v = t.Rec(0, pk, k, [st_[j] for j in order], [inits[j] for j in order], [steps[j] for j in order], tuple(kinds[j] for j in order))
            if m.kind == "bool": v = t.asbool(v)
            if m.s in t.NONNUM:
                for x in t.leaves(v): t.NONNUM.add(x)
            if m.s in I.lib.MATS:
                for x in t.leaves(v): I.lib.MATS.add(x)
            res[m.s] = v
        cf.update(res)
        for m in ms: del unres[m.loc]
    return cf

def shift(v, k, val): return t.subst(v, {k: val})

def classify(I, m, f, k, pk):
    s = m.s
    init = m.init
    if f is m.V: return init
    j = t.fresh("j", True); t.NONNEG.add(j); pj = t.poly(j)
    if s not in f.free:
        if k not in f.free:
            return t.ite(t.cmp("==", pk, ZERO), init, f)
        return t.ite(t.cmp("==", pk, ZERO), init, t.subst(f, {k: t.sub(pk, ONE)}))
    if m.kind == "num":
        g = t.sub(f, m.V)
        if s not in g.free:
            return t.add(init, t.Sum(pk, j, t.subst(g, {k: pj})))
        # mixed additive: per-leaf differences under conditions free of s
        if all(s not in v.free for v in t.dvars(f)):
            ls = t.leaves(f)
            if all((x is m.V or s not in t.psub(t.poly(x), m.V).free) for x in ls):
                g = t.apply(("muadd", s.id), lambda x: t.psub(t.poly(x), m.V), f)
                return t.add(init, t.Sum(pk, j, t.subst(g, {k: pj})))
            q = t.apply(("mudiv", s.id), lambda x: t.div(x, m.V), f)
            if s not in q.free:
                if all(isinstance(x, T) and t.poly_sign(t.poly(x)) == 1 for x in t.leaves(q)):
                    return t.mul(init, t.exp(t.Sum(pk, j, t.subst(t.log(q), {k: pj}))))
                if k not in q.free: return t.mul(init, powk(q, pk))
                return t.mul(init, t.poly(t._bind1("prod", pk, j, t.subst(q, {k: pj})))) if isinstance(q, T) else None
        # min / max
        for v in sorted(t.dvars(f), key=lambda x: x.id):
            if v.op == "sgn" and s in v.free:
                e = v.args[0]
                lin = [c for mm, c in e.args[0] if len(mm) == 1 and mm[0][0] is s and mm[0][1] == 1]
                if len(lin) != 1 or abs(lin[0]) == 0: continue
                g = t.sub(m.V, t.pscale(e, 1 / lin[0]))
                if s in g.free: continue
                for op, mf in (("maxf", t.maxv), ("minf", t.minv)):
                    if mf(m.V, g) is f:
                        fold = t.Fold(op, pk, j, t.subst(g, {k: pj}))
                        return fold_with_init(op, mf, init, fold, pk, j, t.subst(g, {k: pj}))
    if m.kind == "bool":
        var = t._bv(s)
        f1, f0 = t.restrict(f, var, 1), t.restrict(f, var, 0)
        if s not in f1.free and s not in f0.free:
            if f1 is TRUE:
                return t.b_or(init, t.Exists(pk, j, t.subst(f0, {k: pj})))
            if f0 is FALSE:
                return t.b_and(init, t.b_not(t.Exists(pk, j, t.subst(t.b_not(f1), {k: pj}))))
    # latch of a loop-invariant value
    if all(s not in v.free for v in t.dvars(f)):
        ls = [x for x in t.leaves(f)]
        other = [x for x in ls if x is not m.V]
        if len(other) == 1 and len(ls) == 2 and s not in other[0].free and k not in other[0].free:
            o = other[0]
            cnd = t.apply(("isl", o.id), lambda x: t.boolc(x is o), f)
            return t.ite(t.Exists(pk, j, t.subst(cnd, {k: pj})), o, init)
    if m.kind == "obj" and isinstance(f, T) and f.op == "qadv" and f.args[0] is s and s not in f.args[1].free:
        return I.lib.qadv(init, t.Sum(pk, j, t.subst(f.args[1], {k: pj})))      # a sequence position
    if m.kind == "obj":
        return classify_arr(I, s, init, f, k, pk)
    return None

def powk(q, pk):
    def f(x): return t.poly(t.mk("ipow", t.poly(x), pk))
    return t.apply(("powk", pk.id), f, q)

def fold_with_init(op, mf, init, fold, n, j, g):
    # absorb the initial value when it is element -1 of the folded sequence
    gm1 = t.subst(g, {j: t.M1})
    if gm1 is init:
        g2 = t.subst(g, {j: t.sub(t.poly(j), ONE)})
        return t.Fold(op, t.add(n, ONE), j, g2)
    return t.ite(t.cmp(">", n, ZERO), mf(init, fold), init)

def classify_arr(I, s, init, f, k, pk):
    if all(s not in v.free for v in t.dvars(f)):
        ls = t.leaves(f)
    else:
        return arr_selfcond(I, s, init, f, k, pk)
    j = t.fresh("j", True); t.NONNEG.add(j); pj = t.poly(j)
    # filtered push_back
    if all(x is s or (x.op == "push" and x.args[0] is s and s not in x.args[1].free) for x in ls):
        cnd = t.apply(("ispush", s.id), lambda x: t.boolc(x is not s), f)
        pv = [x for x in ls if x is not s]
        val = t.apply(("pushval", s.id), lambda x: pv[0].args[1] if x is s else x.args[1], f)
        r = t.Filt(pk, j, t.subst(cnd, {k: pj}), t.subst(val, {k: pj}))
        if init is t.NIL: return r
        return I.lib.concat(init, r)
    return arr_selfcond(I, s, init, f, k, pk)

def arr_selfcond(I, s, init, f, k, pk):
    """arr[lo +- k] = val(k, arr[lo +- k])"""
    ls = t.leaves(f)
    idx = None
    wrap = None
    for x in ls:
        if x is s: continue
        y = x
        if y.op in ("rows", "cols"):
            w = y.op
            y = y.args[0]
            own = (I.lib.rowsof if w == "rows" else I.lib.colsof)(s)
        else: w = None; own = s
        if wrap is not None and w != wrap[0]: return None
        wrap = (w, own)
        if not (y.op == "upd" and y.args[0] is own): return None
        if idx is None: idx = y.args[1]
        elif idx is not y.args[1]: return None
    if idx is None or s in idx.free: return None
    w, own = wrap
    j = t.fresh("j", True); t.NONNEG.add(j); pj = t.poly(j)
    init2 = init if w is None else (I.lib.rowsof if w == "rows" else I.lib.colsof)(init)
    back = (lambda a: a) if w is None else (I.lib.mkrows if w == "rows" else I.lib.mkcols)
    unw = lambda x: x if w is None else x.args[0]
    if k not in idx.free:
        # same slot rewritten every iteration: recurse on the slot
        sub = t.fresh("mu")
        elem = t.apply(("slot", s.id), lambda x: t.sel(own, idx) if x is s else unw(x).args[2], f)
        e0 = t.sel(own, idx)
        cand = e0
        if isinstance(cand, T) and cand.op == "poly": return None
        body = t.rewrite_atom(elem, cand, sub)
        if s in body.free: return None
        if own in t.NONNUM and False: t.NONNUM.add(sub)
        r = classify_arr(I, sub, t.sel(init2, idx), body, k, pk)
        if r is None: return None
        return back(t.ite(t.cmp("==", pk, ZERO), init2, t.upd(init2, idx, r)))
    lin = linear(idx, k)
    if lin is None or abs(lin[1]) != 1: return None
    lo, sg = lin
    def val(x):
        if x is s: return t.sel(own, idx)
        return unw(x).args[2]
    v = t.apply(("upval", s.id), val, f)
    own_el = t.sel(own, idx)
    oa = own_el
    if isinstance(oa, T) and oa.op == "poly":
        oa = oa.args[0][0][0][0][0]
    ph = t.fresh("el", oa.isint if isinstance(oa, T) else False)
    if isinstance(oa, T) and oa in t._atoms_of(v):
        v = t.rewrite_atom(v, oa, t.poly(ph) if own_el.op == "poly" else ph)
    if s in v.free: return None
    def inst(kk):
        i2 = t.add(lo, t.mul(t.const(sg), kk))
        return t.subst(t.subst(v, {k: kk}), {ph: t.sel(init2, i2)})
    if sg == 1: r = t.AMap(init2, lo, pk, j, inst(pj))
    else: r = t.AMap(init2, t.add(t.sub(lo, pk), ONE), pk, j, inst(t.sub(t.sub(pk, ONE), pj)))
    return back(r)
