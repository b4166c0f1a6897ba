"""Representation rule: amounts stay in double precision, counts in a type they fit in.

The value graphs compute with exact numbers, so a value squeezed through a narrower type is found
here, on the resolved syntax tree: every conversion and counter of the functions a check analysed."""
import re

RULE = "no double is kept in single precision, no counter or number narrowed below its range (resolved syntax tree)"
INT = "iu"
def _const(n):
    while isinstance(n, dict) and n.get("k") in ("cast", "mat", "rv"): n = n.get("e")
    return isinstance(n, dict) and (n.get("k") in ("int", "flt", "bool", "str", "enum", "zero") or n.get("k") == "un" and _const(n.get("e")))

def _core(n):
    while isinstance(n, dict) and n.get("k") in ("mat", "rv", "paren"): n = n.get("e")
    return n

def scan(P, key):
    """[(line, what)] of the narrowing constructs of one function, and the number of constructs looked at"""
    d = P.find_def(key)
    if d is None: return [], 0, None
    ty = d.tu.types
    out, cnt = [], [0]
    params = {p.get("d") for p in d.d["params"]}
    def go(n):
        if isinstance(n, list):
            for x in n: go(x)
            return
        if not isinstance(n, dict): return
        k = n.get("k")
        T = ty[n["t"]] if isinstance(n.get("t"), int) and k else None
        if k in ("cast", "un", "cas", "decl", "var", "ref", "mem", "call", "ctor"): cnt[0] += 1
        if T is not None and k != "flt" and (T["k"] == "f" and T.get("w") == 32 or re.search(r"[<, (]float[ >,)&*]", T["s"] + " ") and T["k"] == "r") and not _const(n):
            out.append((n.get("l"), "a value kept in single precision (%s)" % T["s"], "f"))
        if k == "cast" and n["ck"] in ("IntegralCast", "FloatingToIntegral") and T is not None and T["k"] in INT and not _const(n["e"]):
            S = ty[n["e"]["t"]]
            w, sw = T.get("w", 32), S.get("w", 32)
            if T["s"].replace("const ", "") != "char":
                if 1 < w < 32 and (sw > w or n["ck"] == "FloatingToIntegral"): out.append((n.get("l"), "a number squeezed into %d bits (%s from %s)" % (w, T["s"], S["s"]), "i"))
                elif w == 32 and sw == 64 and S["k"] in INT:
                    c = _core(n["e"])
                    if c.get("k") == "mem" or c.get("k") == "ref" and c.get("d") in params: out.append((n.get("l"), "a 64-bit number squeezed into 32 bits (%s from %s)" % (T["s"], S["s"]), "i"))
        if k == "un" and n["op"] in ("++", "--") and T is not None and T["k"] in INT and 1 < T.get("w", 32) < 32:
            out.append((n.get("l"), "a %d-bit counter (%s)" % (T["w"], T["s"]), "i"))
        for kk, x in n.items():
            if isinstance(x, (dict, list)): go(x)
    go(d.d.get("inits")); go(d.d["body"])
    return out, cnt[0], d
