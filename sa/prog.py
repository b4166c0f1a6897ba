"""The merged, resolved program: functions, records, enums of all extracted translation units."""
import os
from . import front

class TU:
    __slots__ = ("file", "funcs", "types", "records", "globals", "enums", "defs")
    def __init__(self, file, d):
        self.file = file
        self.funcs = d["funcs"]; self.types = d["types"]; self.records = d["records"]
        self.globals = d["globals"]; self.enums = d["enums"]
        self.defs = {}

class Def:
    __slots__ = ("tu", "fn", "d", "key")
    def __init__(self, tu, fn, d):
        self.tu, self.fn, self.d, self.key = tu, fn, d, fn["key"]
    def __repr__(self): return "Def(%s)" % self.fn["qn"]
    @property
    def loc(self): return "%s:%s" % (self.d["file"], self.d["line"])

def strip(t):
    """drop references and const for naming"""
    s = t["s"]
    s = s.replace("&", "").strip()
    return s

class Prog:
    def __init__(self, repo=None):
        self.repo = os.path.realpath(repo or front.REPO)
        units, self.stats = front.extract(self.repo)
        self.tus = []
        self.defs = {}
        self.funcs = {}      # key -> (fn, tu)
        self.records = {}    # qn -> (rec, tu)
        self.enums = {"Eigen::ComputationInfo": ("Eigen::Success", "Eigen::NumericalIssue", "Eigen::NoConvergence", "Eigen::InvalidInput")}
        self.globals = {}
        for f in sorted(units):
            d = units[f]
            tu = TU(f, d)
            self.tus.append(tu)
            for fn in tu.funcs:
                if fn["key"] not in self.funcs: self.funcs[fn["key"]] = (fn, tu)
            for df in d["defs"]:
                fn = tu.funcs[df["fn"]]
                D = Def(tu, fn, df)
                tu.defs[fn["key"]] = D
                if fn["key"] not in self.defs: self.defs[fn["key"]] = D
            for r in tu.records:
                key = tu.types[r["t"]]["s"]
                for k in (r["qn"], key):
                    old = self.records.get(k)
                    if old is None or len(old[0].get("fields", [])) < len(r.get("fields", [])): self.records[k] = (r, tu)
            for e in tu.enums: self.enums[e["qn"]] = tuple(e["consts"])
            for g in tu.globals:
                old = self.globals.get(g["qn"])
                if old is None or ("init" in g and "init" not in old[0]): self.globals[g["qn"]] = (g, tu)
        # class hierarchy
        self.bases = {}
        self.subs = {}
        for q, (r, tu) in list(self.records.items()):
            bs = []
            for b in r["bases"]:
                t = b["t"] if isinstance(b, dict) else b
                bs.append(tu.types[t].get("rec") or tu.types[t]["s"])
            self.bases[q] = bs
        for q, bs in self.bases.items():
            for b in bs: self.subs.setdefault(b, set()).add(q)
        # methods per record: root-key -> key
        self.over = {}
        for k, (fn, tu) in self.funcs.items():
            for o in fn.get("over", []) or []: self.over.setdefault(o, set()).add(k)

    def written(self):
        """fields that something other than a constructor may write: every mention that is not a plain read"""
        if self._written is None:
            w = set()
            def go(n, read):
                if isinstance(n, list):
                    for x in n: go(x, False)
                    return
                if not isinstance(n, dict): return
                if n.get("k") == "mem" and not read: w.add("%s.%s" % (n.get("rec"), n.get("f")))
                for kk, x in n.items():
                    if isinstance(x, (dict, list)): go(x, n.get("k") == "rv" and kk == "e")
            for df in self.defs.values():
                if df.fn["kind"] == "ctor": continue
                go(df.d["body"], False)
            self._written = w
        return self._written
    _written = None
    def find_def(self, key, tu=None):
        if tu is not None:
            d = tu.defs.get(key)
            if d is not None: return d
        return self.defs.get(key)

    def derives(self, a, b):
        if a == b: return True
        return any(self.derives(x, b) for x in self.bases.get(a, ()))

    def all_subs(self, c):
        out, todo = set(), [c]
        while todo:
            x = todo.pop()
            if x in out: continue
            out.add(x)
            todo.extend(self.subs.get(x, ()))
        return out

    def concrete(self, c):
        return sorted(x for x in self.all_subs(c) if x in self.records and not self.records[x][0]["abstract"])

    def root_keys(self, key):
        """base-most overridden methods"""
        fn = self.funcs[key][0]
        ov = fn.get("over") or []
        if not ov: return [key]
        out = []
        for o in ov:
            out += self.root_keys(o) if o in self.funcs else [o]
        return out

    def overriders(self, key):
        out, todo = set(), [key]
        while todo:
            x = todo.pop()
            if x in out: continue
            out.add(x)
            todo.extend(self.over.get(x, ()))
        return out

    def dispatch(self, cls, key):
        """final overrider of method `key` for dynamic class cls"""
        cands = self.overriders(key)
        best = None
        todo = [cls]
        seen = set()
        while todo:
            nxt = []
            for c in todo:
                if c in seen: continue
                seen.add(c)
                for k in cands:
                    if self.funcs[k][0].get("rec") == c: return k
                nxt += self.bases.get(c, [])
            todo = nxt
        return None

    def methods(self, cls, name):
        """keys of methods of class cls (not inherited) with that name"""
        return [k for k, (fn, tu) in self.funcs.items() if fn.get("rec") == cls and fn["name"] == name and fn["kind"] in ("method", "conv")]

    def find_method(self, cls, name, nargs=None):
        todo = [cls]
        while todo:
            nxt = []
            for c in todo:
                ks = self.methods(c, name)
                if nargs is not None: ks = [k for k in ks if self.funcs[k][0]["min"] <= nargs <= len(self.funcs[k][0]["pt"])]
                if ks: return sorted(ks)
                nxt += self.bases.get(c, [])
            todo = nxt
        return []

    def ctors(self, cls):
        return sorted(k for k, (fn, tu) in self.funcs.items() if fn["kind"] == "ctor" and fn.get("rec") == cls
                      and not fn.get("copy") and not fn.get("move"))
