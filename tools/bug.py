#!/usr/bin/env python3
"""bug.py make ID PROP NEEDS BREAKS FILE OLD NEW [FILE OLD NEW ...]   (demo.cpp on stdin)  -> seeded/ID
   bug.py try ID ...    build, tests, demo on clean and patched scratch trees, then the property's check
   bug.py check ID ...  only the check(s) on the patched scratch tree (--all: every check)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, C = "/tmp/w", "/tmp/wc"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def tree(d):
    if not os.path.isdir(d): sh("git -C /repo worktree prune; git clone -q /repo %s" % d)
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    r = sh("git -C %s fetch -q origin && git -C %s checkout -q -f %s && git -C %s clean -fdq -e _build -e lib -e bin" % (d, d, head, d))
    if r.returncode: sys.exit(r.stderr)
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right; run with cwd = the built repository
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
g++ -std=c++20 -O1 -w -include cmath -include stdexcept -Iinclude -I/usr/include/eigen3 "$here/demo.cpp" -o "$w/demo" \\
  -Llib -lsolver -lmodel -lnumerical_analysis -loption -lrandom -lpayoff -lmarketdata -lboost_random -lpthread -Wl,-rpath,"$PWD/lib" || exit 3
timeout 120 "$w/demo"
'''
def build(d):
    s = open("/opt/vp/build.sh").read().replace("/repo", d)
    open("/tmp/build_%s.sh" % os.path.basename(d), "w").write(s)
    return sh("bash /tmp/build_%s.sh" % os.path.basename(d))
def tests(d):
    out = set(); bad = set()
    for b in ("Unit_tests", "Integration_tests"):
        r = sh("timeout 300 %s/bin/%s" % (d, b))
        for l in r.stdout.splitlines():
            if l.startswith("[       OK ] "): out.add(l.split()[3].replace(".", "::"))
            if l.startswith("[  FAILED  ] ") and "." in l: bad.add(l.split()[3].rstrip(",").replace(".", "::"))
    return out, bad
def make(a):
    ID, prop, needs, what = a[:4]
    tree(W)
    ed = a[4:]
    for i in range(0, len(ed), 3):
        p = os.path.join(W, ed[i]); s = open(p).read()
        if s.count(ed[i + 1]) != 1: sys.exit("%s: %d matches of %r" % (ed[i], s.count(ed[i + 1]), ed[i + 1]))
        open(p, "w").write(s.replace(ed[i + 1], ed[i + 2]))
    d = os.path.join(V, "seeded", ID); os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % W).stdout)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    src = sys.stdin.read()
    if src.strip(): open(d + "/demo.cpp", "w").write(src)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    print("made", ID)
def base():
    b = json.load(open("/opt/vp/BASELINE.json"))
    x = b.get("stable") or b.get("passed") or b.get("tests")
    return set(x)
def apply(ID):
    tree(W)
    r = sh("git -C %s apply %s/seeded/%s/patch.diff" % (W, V, ID))
    if r.returncode: print(ID, "patch does not apply", r.stderr); return False
    return True
def check(ID, allc=False):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, ID)))
    r = sh("cd %s && SA_REPO=%s timeout 900 python3 -m sa %s" % (V, W, "all" if allc else "check " + m["property"]))
    return m["property"], r
def tr(ID, quick=False):
    if not quick:
        tree(C)
        if build(C).returncode: print("clean tree does not build"); return
    if not apply(ID): return
    if not quick:
        b = build(W)
        if b.returncode: print(ID, "does not build", b.stdout[-1500:]); return
        ok, bad = tests(W)
        miss = sorted(base() - ok)
        d = "%s/seeded/%s/demo.sh" % (V, ID)
        c0 = sh("cd %s && bash %s" % (C, d)); c1 = sh("cd %s && bash %s" % (W, d))
        print(ID, "tests missing:", miss[:3], "demo clean", c0.returncode, "patched", c1.returncode, (c0.stdout + c0.stderr)[-300:] if c0.returncode else "", c1.stdout[-200:])
    p, r = check(ID)
    print(ID, p, "check exit", r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else "MISSED", [l.strip() for l in r.stdout.splitlines() if "violated:" in l][:3], r.stdout[-300:] if r.returncode != 1 else "", r.stderr[-500:])
if __name__ == "__main__":
    a = sys.argv[2:]
    if sys.argv[1] == "make": make(a)
    elif sys.argv[1] == "try":
        for i in a or sorted(os.listdir(V + "/seeded")): tr(i)
    elif sys.argv[1] == "check":
        for i in [x for x in a if x != "--all"] or sorted(os.listdir(V + "/seeded")):
            if "--all" in a:
                apply(i); p, r = check(i, True); print(i, p, [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")])
            else: tr(i, True)
