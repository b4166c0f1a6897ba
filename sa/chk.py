"""Check runner: obligations, verdicts, evidence, replay files and exit codes.

exit 0  every obligation holds or is undecided-with-reason (and at least one is decided)
exit 1  a VIOLATION line was printed
exit 2  no answer (an API the property is stated over is gone, the sources do not parse,
        or nothing could be decided)
"""
import json, os, signal, sys, time, traceback
from . import front, terms as t, decide, api, ranges
from .api import Sess, AnchorMissing, prog, NS
from .terms import TRUE, FALSE

VERIF = front.VERIF
EVID = os.environ.get("SA_EVID") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")

# the representation rule does not bear on who is notified, on types, on locks, or on which requests are refused
NORANGE = {"C02", "C03", "C04", "C05", "C10", "C14", "C30", "C31", "C33"}
NOFLOAT = {"C08", "C11", "C16", "C23"}

class Slow(BaseException): pass

DEADLINE = {"quick": 540, "thorough": 780}      # seconds of wall time after which a check stops taking up obligations

class Ob:
    def __init__(self, name, status, where, rule, detail="", witness=None, samples=0):
        self.name, self.status, self.where, self.rule, self.detail, self.witness, self.samples = name, status, where, rule, detail, witness, samples
    def js(self):
        d = {"obligation": self.name, "status": self.status, "construct": self.where, "rule": self.rule}
        if self.detail: d["detail"] = self.detail
        if self.samples: d["interpretations"] = self.samples
        if self.witness is not None: d["witness"] = self.witness
        return d

class Chk:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = []
        self.missing = []
        self.crashes = []
        self.sessions = []
        self.analysed = set()
        self.unknowns = {}
        self.rule = ""
        self.samples = 200 if tier == "quick" else 2000
        self.budget = 100 if tier == "quick" else 600
        self.notes = []
        self.boot = False
        self.started = time.time()
    @property
    def P(self): return prog()
    def sess(self):
        s = Sess()
        s.I.boot = self.boot
        self.sessions.append(s)
        return s
    # ------------------------------------------------------------ where
    def where(self, cls, name=None):
        P = self.P
        q = cls if cls.startswith(NS) else NS + cls
        if name is None:
            name = q.rsplit("::", 1)[1]
            for k, (fn, tu) in sorted(P.funcs.items()):
                if fn["kind"] == "ctor" and fn.get("rec") == q and not fn.get("copy") and not fn.get("move"):
                    d = P.find_def(k)
                    if d: return "%s (%s)" % (fn["qn"], self.rel(d.loc))
            return q
        for k in P.find_method(q, name):
            d = P.find_def(k)
            fn = P.funcs[k][0]
            if d: return "%s (%s)" % (fn["qn"], self.rel(d.loc))
            return fn["qn"]
        return q + "::" + name
    def rel(self, loc):
        return loc[len(self.P.repo) + 1:] if loc.startswith(self.P.repo + "/") else loc
    # ------------------------------------------------------------ obligations
    def add(self, name, status, where, detail="", witness=None, samples=0):
        self.obs.append(Ob(name, status, where, self.rule, detail, witness, samples))
        return status
    def eq(self, name, code, spec, where, under=TRUE, s=None, dom=None, samples=None):
        if code is None: return self.add(name, "OPEN", where, "no value")
        v = decide.equal(code, spec, under, s.I if s is not None else None, dom, samples or self.samples, self.seed)
        return self.add(name, v.status, where, v.detail, v.witness, v.samples)
    def holds(self, name, cond, where, under=TRUE, s=None, dom=None):
        return self.eq(name, t.asbool(cond), TRUE, where, under, s, dom)
    def fact(self, name, ok, where, detail="", witness=None):
        """a structural rule over the resolved program; ok: True/False/None(undecided)"""
        st = "PROVED" if ok else ("OPEN" if ok is None else "VIOLATED")
        return self.add(name, st, where, detail, witness if not ok else None)
    def any_of(self, name, alts):
        """alts: list of callables each running obligations in a sub-check; the obligation is
        violated only if every alternative specification is violated"""
        best = None
        for f in alts:
            n0 = len(self.obs)
            f()
            new, self.obs = self.obs[n0:], self.obs[:n0]
            if not any(o.status == "VIOLATED" for o in new):
                self.obs += new; return
            best = best or new
        self.obs += best
    def ranges(self, pid):
        """representation rule over every function whose value graph the obligations used"""
        P, fns, sites, bad = self.P, 0, 0, []
        rule, self.rule = self.rule, ranges.RULE
        for k in sorted(self.analysed):
            out, n, d = ranges.scan(P, k)
            if d is None or not d.fn.get("repo", True): continue
            fns += 1; sites += n
            bad += [(d, l, w) for l, w, kind in out if kind == "i" or pid not in NOFLOAT]
        seen = set()
        for d, l, w in bad:
            f = "%s (%s:%s)" % (d.fn["qn"], self.rel(d.d["file"] + ":").rstrip(":"), l)
            if (f, w) in seen: continue
            seen.add((f, w))
            self.add("amounts and counts keep their range", "VIOLATED", f, "", {"construct": w, "at": f})
        if fns and not bad: self.add("amounts and counts keep their range", "PROVED", "%d functions, %d constructs" % (fns, sites))
        self.rule = rule
    # ------------------------------------------------------------ groups
    def group(self, label, f):
        left = DEADLINE.get(self.tier, 780) - (time.time() - self.started)
        if left < 1: return self.add(label, "OPEN", label, "time of the check used up")
        def onalarm(sig, frm): raise Slow()
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(int(min(self.budget, left)) + 1)
        n0 = len(self.obs)
        t0 = time.time()
        try:
            f()
            if os.environ.get("SA_TIME"): print("   %6.1fs %s" % (time.time() - t0, label))
        except AnchorMissing as e:
            self.missing.append("%s: %s" % (label, e))
        except Slow:
            self.add(label, "OPEN", label, "analysis budget of %d s used up" % self.budget)
        except RecursionError:
            self.add(label, "OPEN", label, "value graph too deep")
        except Exception as e:
            self.crashes.append("%s: %s" % (label, traceback.format_exc()[-1500:]))
            self.add(label, "OPEN", label, "construct outside the analysed fragment (%s: %s)" % (type(e).__name__, str(e)[:160]))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

def known(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property=%s " % pid): out.append(line.split(" ", 2)[2])
    return out

REG = {}
def check(pid, title=""):
    def d(f):
        REG[pid] = f
        return f
    return d

def run(pid, tier="quick", seed=1, verbose=True):
    sys.setrecursionlimit(20000)
    t0 = time.time()
    c = Chk(pid, tier, seed)
    try:
        P = c.P
        REG[pid](c)
    except front.FrontError as e:
        print("no answer: %s" % e); return 2
    except AnchorMissing as e:
        c.missing.append(str(e))
    for s in c.sessions:
        c.analysed |= set(s.I.analysed)
        for u in s.I.unknowns: c.unknowns[str(u)] = c.unknowns.get(str(u), 0) + 1
    if pid not in NORANGE and c.obs: c.ranges(pid)
    n = {}
    for o in c.obs: n[o.status] = n.get(o.status, 0) + 1
    viol = [o for o in c.obs if o.status == "VIOLATED"]
    kn = known(pid)
    listed = [o for o in viol if any(k.split("|")[0].strip() == o.name for k in kn)]
    viol = [o for o in viol if o not in listed]
    decided = n.get("PROVED", 0) + n.get("AGREES", 0) + n.get("VIOLATED", 0)
    os.makedirs(EVID, exist_ok=True)
    rp = os.path.join(EVID, "%s.replay.json" % pid)
    if viol:
        json.dump({"property": pid, "seed": seed, "tier": tier, "rerun": "cd %s && python3 -m sa check %s --tier %s" % (VERIF, pid, tier),
                   "violations": [o.js() for o in viol]}, open(rp, "w"), indent=1, default=str)
    elif os.path.exists(rp): os.unlink(rp)
    fns = sorted({P.funcs[k][0]["qn"] if k in P.funcs else str(k) for k in c.analysed})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": {
              "explanation": "Static analysis of /repo's current sources (rule and obligations below): %d obligations, %d closed by identical normal forms or structural rule (PROVED), %d by random interpretation of the value graphs (AGREES), %d undecided." % (len(c.obs), n.get("PROVED", 0), n.get("AGREES", 0), n.get("OPEN", 0)),
              "obligations": len(c.obs), "proved": n.get("PROVED", 0), "agrees": n.get("AGREES", 0), "open": n.get("OPEN", 0),
              "violated": len(viol) + len(listed), "interpretations": sum(o.samples for o in c.obs),
              "units_parsed": P.stats["units"], "source_files": P.stats["files"], "functions_analysed": len(fns),
              "functions": fns[:400], "unmodelled_constructs": c.unknowns,
              "items": [o.js() for o in c.obs]},
          "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "assumptions": ["real arithmetic in place of IEEE doubles (rounding is not modelled)",
                          "library functions (std, Eigen, Boost) mean what their documentation says (sa/lib.py)"] + c.notes}
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1, default=str)
    print("%s: %d obligations over %d functions: %s (%.1fs)" % (pid, len(c.obs), len(fns), ", ".join("%s=%d" % kv for kv in sorted(n.items())), time.time() - t0))
    if verbose:
        for o in [o for o in c.obs if o.status == "OPEN"][:15]:
            print("  undecided: %s at %s: %s" % (o.name, o.where, o.detail))
    for m in c.missing: print("  missing: " + m)
    for m in c.crashes: print("  analysis stopped: " + m.splitlines()[-1][:300])
    for o in listed: print("KNOWN-FINDING: property=%s %s at %s" % (pid, o.name, o.where))
    if viol:
        if len(viol) > 8: print("  %d violated obligations; the first:" % len(viol))
        for o in viol[:8]:
            print("  violated: %s\n    at %s\n    rule: %s\n    %s" % (o.name, o.where, o.rule, str(o.witness)[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if c.missing:
        print("no answer: the interface the property is stated over is gone"); return 2
    if not decided:
        print("no answer: nothing could be decided"); return 2
    return 0
