"""Gate-directed interpretation.

Random interpretation alone seldom reaches a branch guarded by an unusual constant.  The
decision variables of a value graph are known statically, so for every outcome (<, =, >) of
every decision that the random interpretations did not reach, a free quantity the decided
expression depends on is given the value that produces the outcome, and the two graphs are
compared there as well.  Nothing is executed: the values only interpret the graphs."""
import math, os, re, time
from . import terms as t, evalt
from .terms import T, D

NUMBER = re.compile(r"-?\d\.\d+e[-+]\d+$")

def decisions(*vs):
    """id -> decision node on a sign, anywhere in the graphs"""
    out, seen = {}, set()
    st = list(vs)
    while st:
        x = st.pop()
        if isinstance(x, tuple): st.extend(x); continue
        if not isinstance(x, (T, D)) or x.id in seen: continue
        seen.add(x.id)
        if isinstance(x, D):
            out[x.id] = x
            st.append(x.var); st.extend(x.kids)
        elif x.op == "poly":
            for m, c in x.args[0]:
                for a, e in m: st.append(a)
        else:
            st.extend(x.args)
    return out

def tops(v):
    """decisions at the top of a graph"""
    out, st = {}, [v]
    while st:
        x = st.pop()
        if isinstance(x, D) and x.id not in out:
            out[x.id] = x
            st.extend(x.kids)
    return out

def constants(x, limit=400):
    out, seen, st = set(), set(), [x]
    while st and len(seen) < limit:
        x = st.pop()
        if isinstance(x, tuple): st.extend(x); continue
        if not isinstance(x, (T, D)) or x.id in seen: continue
        seen.add(x.id)
        if isinstance(x, D): st.append(x.var); st.extend(x.kids); continue
        if x.op == "poly":
            cs = [abs(float(c)) for m, c in x.args[0]]
            for c in cs: out.add(c)
            out |= {c / d for c in cs for d in cs if d}
            for m, c in x.args[0]:
                for a, e in m: st.append(a)
        else: st.extend(x.args)
    return out

LADDER = [.01, .1, .5, 1., 2., 5., 10., 50., 100., 1e3, 1e4, 1e5, 1e6, 1e8]

def candidates(kind, cs):
    if isinstance(kind, tuple): return list(kind[1])
    base = set()
    for c in sorted(cs)[:24]:
        base |= {c, c * 1.01, c * .99, 1.5 * c, 2 * c, c / 2, c + 1, c + 2, c - 1}
    base |= set(LADDER)
    base.add(0.0)
    out = set()
    for c in base:
        for x in (c, -c):
            if kind == "unit":
                if 0 < x < 1: out.add(x)
                continue
            if kind in ("pos", "ipos") and x <= 0: continue
            if kind in ("nn", "inn") and x < 0: continue
            if kind in ("ipos", "inn", "int"):
                if abs(x) > 2990 and not any(c > 2990 and c <= abs(x) <= 2 * c + 2 for c in cs): continue
                out |= {math.floor(x), math.ceil(x)} if kind != "ipos" else {max(1, math.floor(x)), math.ceil(x)}
            else: out.add(float(x))
    if kind == "unit": out |= {1e-12, 1e-6, .001, .02, .05, .2, .35, .65, .8, .95, .98, .999, 1 - 1e-6, 1 - 1e-12}
    return sorted(out, key=lambda x: (abs(x), x))

class Run:
    """one interpretation: seed plus imposed values"""
    def __init__(self, D, seed, plan=()):
        self.D, self.seed, self.plan = D, seed, plan

def rough(k):
    """name of a quantity, whatever the number of digits its arguments are identified by"""
    if isinstance(k, tuple): return tuple(rough(x) for x in k)
    if isinstance(k, str) and NUMBER.match(k): return "%.4e" % float(k)
    return k

class Pins:
    def __init__(self, d): self.d = d
    def get(self, k): return self.d.get(rough(k))
    def __len__(self): return len(self.d)

class Directed:
    def __init__(self, one, code, spec, under, I, dom, seed, alias, cover, at, budget, extra=None, count=None, first=None, prod=()):
        self.one_, self.code, self.spec, self.under, self.I, self.dom = one, code, spec, under, I, dom
        self.seed, self.alias, self.cover, self.budget = seed, alias, cover, budget
        self.reached, self.at, self.extra = 0, at, extra
        self.count, self.first, self.prod = count or {}, first or {}, prod
        self.gaps = []
        self.atp = {}        # decisions first met under imposed values: there
        from .decide import stable
        self.stable = stable
        self.big = set()     # unusual integer constants of the decisions only the code makes
    # -------------------------------------------------------------
    def ev(self, s, force, digits=9, want=None, big=True, more=None, pin=None, cover=None):
        def setup(env):
            if pin: env.pin = pin
            env.force = force
            env.extra = self.extra
            env.cover = cover if cover is not None else self.cover if digits == 9 else None
            env.want = want
            env.tol = 1e-5
            env.deadline = time.time() + max(.5, min(4.0, self.budget / 2))
            if big: env.cap, env.maxsteps = 3000, 1500000
            if more: more(env)
        return self.one_(self.code, self.spec, self.under, self.I, self.dom, s, self.alias, digits, setup)
    def capture(self, var, s, force, digits):
        """environment in which a decision is reached under (s, force)"""
        w = {var.id: None}
        self.ev(s, force, digits, w)
        return w[var.id]
    def fresh(self, s, force, digits):
        env = evalt.Env(s, self.I, self.dom, digits)
        env.maxint = 4 + s % 3
        env.force = force
        env.alias = self.alias
        env.cap, env.maxsteps = 3000, 200000
        return env
    def leaves(self, var, ctx, s, force, digits, pin=None):
        """free quantities the decided expression depends on, in reading order"""
        b, binders = ctx
        env = self.fresh(s, force, digits)
        env.touch = {}
        if pin is not None: env.pin = pin
        try: env.choose(var.var, b)
        except (evalt.Discard, evalt.Tainted, RecursionError): pass
        direct = dict(env.touch)
        done, todo = set(), [x for x in var.var.args[0].free if x.op == "bv"]
        while todo:
            x = todo.pop()
            h = x.args[0]
            if h in done or h not in binders: continue
            done.add(h)
            v, b0 = binders[h]
            parts = [v.args[1]] if v.op not in ("rec", "arec") else [v.args[1], v.args[3]] if v.op == "rec" else [v.args[1], v.args[3], v.args[2]]
            env2 = self.fresh(s, force, digits)
            env2.touch = env.touch
            if pin is not None: env2.pin, env2.made = pin, env.made
            for p in parts:
                for q in (p if isinstance(p, tuple) else (p,)):
                    try: env2.ev(q, b0)
                    except (evalt.Discard, evalt.Tainted, RecursionError): pass
                    if isinstance(q, (T, D)): todo += [y for y in q.free if y.op == "bv"]
        if pin is not None: return list(env.touch.items()), set(direct), env.made
        return list(env.touch.items()), set(direct)
    def sign(self, var, ctx, s, force):
        env = self.fresh(s, force, 9)
        if var.var.op != "sgn": return env.choose(var.var, ctx[0]), float("nan")
        x, sc = env.polys(var.var.args[0], ctx[0])
        if x != x: raise evalt.Discard("nan")
        return (1 if abs(x) <= 1e-11 * sc else 0 if x < 0 else 2), x
    def goals(self, decs):
        out = []
        for v in decs:
            for o in ((0, 2, 1) if v.var.op == "sgn" else range(len(v.kids))):
                if o not in self.cover.get(v.id, ()): out.append((v, o))
        return out
    # -------------------------------------------------------------
    def search(self, decs, foreign):
        self.foreign = foreign
        for v in decs:
            if v.id in foreign: self.big |= {c for c in constants(v.var.args[0]) if c > 8 and c == int(c) and c < 2990}
        if len(self.big) > 6: self.big = set(sorted(self.big)[:6])
        t0 = time.time()
        w = self.rare(decs)
        if w is not None: return w
        ctxs = []
        for rnd in range(3):
            todo = self.goals(decs)
            if not todo: break
            progress = False
            share = max(.1, (self.budget - (time.time() - t0)) / max(1, len(todo)))
            for var, out in todo:
                if time.time() - t0 > self.budget: break
                if out in self.cover.get(var.id, ()): continue
                r = self.reach(var, out, [(s, (), {}) for s in self.at.get(var.id, ())] + ([self.atp[var.id]] if var.id in self.atp else []) + ctxs, max(share, .6) if var.id in foreign else share)
                if r is None: continue
                progress = True
                self.reached += 1
                plan, s, force, res = r
                for i in self.cover:
                    if i not in self.at and i not in self.atp: self.atp[i] = (s, plan, force)
                if res[0] == "diff":
                    w = self.confirm(plan, s, res[1])
                    if w is not None: return w
                ctxs = [(s, plan, force)] + ctxs[:8]
            if not progress: break
        self.gaps = [(v, o) for v, o in self.goals(decs)]
        return None
    def pins(self, nodes, s):
        """the free quantities the decisions depend on, with the random numbers their values are made of"""
        pin, todo = {}, list(nodes)
        while todo:
            for v in todo:
                w = {v.id: None}
                self.ev(s, {}, 9, w, pin=pin)
                if w[v.id] is not None: break
            else: break
            todo.remove(v)
            lv, _, made = self.leaves(v, w[v.id], s, {}, 9, pin)
            for k, kind in lv:
                if k not in pin and k in made: pin[k] = made[k]
        return Pins({rough(k): x for k, x in pin.items()})
    def whole(self, s, pin):
        """every random number the interpretation is made of"""
        envs = []
        def more(env):
            env.touch = {}
            envs.append(env)
        self.ev(s, {}, pin=pin, more=more)
        return Pins({rough(k): x for k, x in envs[0].made.items()})
    def rare(self, decs):
        """situations of the code's own decisions that chance met seldom: the quantities they depend on are kept, the others redrawn"""
        t0 = time.time()
        own = {v.id: v for v in decs if v.id in self.foreign or v.id in self.prod}
        todo = sorted((n, i, o) for (i, o), n in self.count.items() if i in own and n <= 6)
        done = set()
        for n, i, o in todo[:40]:
            for s in self.first.get((i, o), ()):
                if time.time() - t0 > self.budget / 3: return None
                cov = {}
                self.ev(s, {}, cover=cov)
                nodes = [v for j, v in own.items() if any(self.count.get((j, q), 99) <= 6 for q in cov.get(j, ()))]
                key = (s, frozenset(v.id for v in nodes))
                if key in done or not nodes: continue
                done.add(key)
                pin = self.pins(nodes, s)
                eff = 0
                for j in range(1, 61):
                    if eff >= 8 or time.time() - t0 > self.budget / 2: break
                    s2 = s + 3 * (1000 + j)
                    r = self.ev(s2, {}, pin=pin)
                    eff += r[0] in ("ok", "diff")
                    if r[0] == "diff":
                        full = self.whole(s2, pin)
                        if all(self.ev(s2, {}, d, pin=full)[0] == "diff" for d in (9, 7, 8, 10)) \
                                and self.stable(lambda m: self.ev(s2, {}, 9, None, True, m, full)): return r[1]
        return None
    def reach(self, var, out, ctxs, share):
        t0 = time.time()
        first = None
        more = out == 1 and var.var.op == "sgn" and var.id in self.foreign     # a tie only the code tells apart: look at it in more places
        if more: ctxs = ctxs + [(self.seed * 1000003 + 9000 + j, (), {}) for j in range(8)]
        for s, plan, force in ctxs:
            if time.time() - t0 > share: break
            ctx = self.capture(var, s, force, 9)
            if ctx is None: continue
            lv, direct = self.leaves(var, ctx, s, force, 9)
            cs = constants(var.var.args[0]) | self.big
            for idx, (k, kind) in enumerate(lv[:8]):
                if time.time() - t0 > share: return first
                if k in force: continue
                good, seen = [], []
                if k in direct:
                    for x in candidates(kind, cs):
                        try: sg, val = self.sign(var, ctx, s, {**force, k: x})
                        except (evalt.Discard, evalt.Tainted, RecursionError, OverflowError): continue
                        seen.append((x, val))
                        if sg == out: good.append(x)
                    if not good: good = self.solve(var, ctx, s, force, k, kind, seen, out)
                    good = good[:24]
                else:
                    if isinstance(kind, tuple): good = candidates(kind, ())[:6]
                    elif kind in ("ipos", "inn", "int"):
                        near = sorted({x for c in self.big for x in (c + 1, c + 2, c)}, reverse=True)[:9]
                        good = [int(x) for x in near] + [30, 100, 3, 1]
                    else: good = candidates(kind, {c for c in cs if c > 1})[::3]
                hit, tried = None, 0
                for x in good:
                    if tried >= 3: break
                    if time.time() - t0 > share: break
                    f2 = {**force, k: x}
                    r = self.ev(s, f2)
                    if r[0] in ("ok", "diff"):
                        tried += k in direct
                        p2 = plan + ((var, idx, x, k),)
                        if r[0] == "diff": return p2, s, f2, r
                        if out in self.cover.get(var.id, ()):
                            hit = hit or (p2, s, f2, r)
                            # the same outcome with the other quantities redrawn
                            for j in range(6):
                                if time.time() - t0 > share: break
                                r2 = self.ev(self.seed * 1000003 + 7000 + j, f2)
                                if r2[0] == "diff": return p2, self.seed * 1000003 + 7000 + j, f2, r2
                if hit and not more: return hit
                if hit:
                    first = first or hit
                    break
        return first
    def solve(self, var, ctx, s, force, k, kind, seen, out):
        """a value between two known ones where the expression changes sign, or just beyond"""
        isint = kind in ("ipos", "inn", "int")
        pts = sorted((x, v) for x, v in seen if v == v and abs(v) < 1e300)
        for (a, fa), (b, fb) in zip(pts, pts[1:]):
            if fa * fb >= 0: continue
            for _ in range(60):
                m = (a + b) / 2
                if isint: m = math.floor(m)
                if m in (a, b): break
                try: sg, fm = self.sign(var, ctx, s, {**force, k: m})
                except (evalt.Discard, evalt.Tainted, RecursionError, OverflowError): break
                if sg == out: return [m]
                if fm == 0: break
                if fa * fm < 0: b, fb = m, fm
                else: a, fa = m, fm
        return []
    def force_of(self, plan, s, digits):
        force = {}
        for var, idx, x, k in plan:
            if k[0] == "sym":
                force[k] = x
                continue
            ctx = self.capture(var, s, force, digits)
            if ctx is None: return None
            lv, _ = self.leaves(var, ctx, s, force, digits)
            if idx >= len(lv): return None
            force[lv[idx][0]] = x
        return force
    def confirm(self, plan, s, wit):
        for d in (7, 8, 10):
            f = self.force_of(plan, s, d)
            if f is None: return None
            if self.ev(s, f, d)[0] != "diff": return None
        f = self.force_of(plan, s, 9)
        if f is None or not self.stable(lambda m: self.ev(s, f, 9, None, True, m)): return None
        wit = dict(wit)
        wit["reached by"] = [{"decision": str(v.var.args[0])[:120], "value": x} for v, i, x, k in plan]
        return wit
