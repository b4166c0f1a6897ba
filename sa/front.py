"""Front end: builds the resolved-program extractor, obtains the real compile commands from
the repository's own CMake project and extracts every library translation unit."""
import concurrent.futures, hashlib, json, os, shlex, shutil, subprocess, sys, tempfile, pickle, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
PROBES = os.path.join(VERIF, "probes")
EXTRACT_SRC = os.path.join(VERIF, "extractor", "extract.cpp")

class FrontError(Exception):
    pass

def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()

def read(p):
    with open(p, "rb") as f:
        return f.read()

def build_extractor():
    os.makedirs(CACHE, exist_ok=True)
    key = _sha(read(EXTRACT_SRC))[:16]
    out = os.path.join(CACHE, "extract-" + key)
    if os.path.exists(out):
        return out
    with open(os.path.join(CACHE, "build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        flags = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True, check=True).stdout.split()
        flags = [f for f in flags if not f.startswith("-std=") and f != "-fno-exceptions"]
        tmp = out + ".tmp%d" % os.getpid()
        cmd = ["clang++-18", "-std=c++17", "-O0", "-fno-rtti"] + flags + [EXTRACT_SRC, "-o", tmp,
               "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-l:libclang-cpp.so.18.1"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise FrontError("extractor build failed:\n" + r.stderr[-4000:])
        os.rename(tmp, out)
    return out

def source_files(repo):
    res = []
    for top in ("src", "include"):
        for d, _, fs in os.walk(os.path.join(repo, top)):
            for f in fs:
                if f.endswith((".cpp", ".h", ".hpp", ".cc", ".cxx", ".hxx", ".inl", ".ipp", ".tpp")):
                    res.append(os.path.join(d, f))
    return sorted(res)

def compile_commands(repo):
    tmp = tempfile.mkdtemp(prefix="sa-cdb-")
    try:
        env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++")
        r = subprocess.run(["cmake", "-S", repo, "-B", tmp, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                            "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON",
                            "-DCMAKE_CXX_FLAGS=-Wno-error -include cmath -include stdexcept"],
                           capture_output=True, text=True, env=env)
        p = os.path.join(tmp, "compile_commands.json")
        if r.returncode != 0 or not os.path.exists(p):
            raise FrontError("cmake configure failed:\n" + r.stderr[-3000:])
        return json.load(open(p))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def tu_args(entry):
    a = shlex.split(entry["command"])[1:]
    out, i = [], 0
    while i < len(a):
        if a[i] in ("-o", "-c", "-MF", "-MT", "-MQ"):
            i += 2; continue
        if a[i] in ("-MD", "-MMD") or a[i].startswith(("-O", "-g", "-fPIC")):
            i += 1; continue
        out.append(a[i]); i += 1
    return out + ["-Wno-everything", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]

def _run_one(job):
    exe, repo, entry, out = job
    r = subprocess.run([exe, repo + "/", out, entry["file"], "--"] + tu_args(entry), capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        return entry["file"], None, r.stderr[-3000:]
    d = json.load(open(out))
    os.unlink(out)
    if d.get("error"):
        return entry["file"], None, r.stderr[-3000:]
    return entry["file"], d, ""

def batches(entries, n):
    """groups of units compiled with the same flags, parsed together (headers are read once)"""
    by = {}
    for e in entries:
        by.setdefault(tuple(x for x in tu_args(e) if x != e["file"]), []).append(e)
    total = len(entries)
    out = []
    for es in by.values():
        k = max(1, round(n * len(es) / total))
        out += [es[i::k] for i in range(k)]
    return [b for b in out if b]

def extract(repo=None):
    """Returns (units: [tu-json], stats)."""
    repo = os.path.realpath(repo or REPO)
    files = source_files(repo)
    probes = sorted(os.path.join(PROBES, f) for f in os.listdir(PROBES) if f.endswith(".cpp"))
    key = _sha(read(EXTRACT_SRC), read(__file__), repo, *[x for f in probes + files + [os.path.join(repo, "CMakeLists.txt")] for x in (f, read(f))])[:24]
    cdir = os.path.join(CACHE, "ex")
    os.makedirs(cdir, exist_ok=True)
    cpath = os.path.join(cdir, key + ".pkl")
    if os.path.exists(cpath):
        try:
            return pickle.load(open(cpath, "rb"))
        except Exception:
            pass
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fe, fc = ex.submit(build_extractor), ex.submit(compile_commands, repo)
        exe, cdb = fe.result(), fc.result()
    seen, entries = set(), []
    for e in cdb:
        f = e["file"]
        if f in seen or not f.startswith(repo + "/src/"):
            continue
        seen.add(f); entries.append(e)
    if not entries:
        raise FrontError("no library translation units in the compilation database")
    tmp = tempfile.mkdtemp(prefix="sa-ex-")
    units, bad, cnt = [], [], [0]
    def job(e):
        cnt[0] += 1
        return _run_one((exe, repo, e, os.path.join(tmp, "%d.json" % cnt[0])))
    def asentry(e, path):
        d = dict(e); d["command"] = e["command"].replace(e["file"], path); d["file"] = path
        return d
    def batch(es):
        if len(es) == 1: return [job(es[0])]
        cnt[0] += 1
        u = os.path.join(tmp, "batch%d.cpp" % cnt[0])
        with open(u, "w") as f:
            for e in es: f.write('#include "%s"\n' % e["file"])
        r = job(asentry(es[0], u))
        if r[1] is not None: return [r]
        # names that clash when units are parsed together: one by one
        return [job(e) for e in es]
    def probe(p):
        return [job(asentry(entries[0], p))]
    try:
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            fs = [ex.submit(probe, p) for p in probes] + [ex.submit(batch, b) for b in batches(entries, os.cpu_count() or 4)]
            for ft in fs:
                for f, d, err in ft.result():
                    if d is None and f in probes:
                        bad.append(f); continue   # the client-side use no longer compiles
                    if d is None:
                        raise FrontError("cannot parse %s:\n%s" % (f, err))
                    units.append((f, d))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    res = (dict(units), {"units": len(entries), "files": len(files), "bad_probes": bad})
    old = sorted((os.path.join(cdir, x) for x in os.listdir(cdir)), key=os.path.getmtime)
    for x in old[:-6]:
        try: os.unlink(x)
        except OSError: pass
    t = cpath + ".tmp%d" % os.getpid()
    pickle.dump(res, open(t, "wb"), protocol=4)
    os.rename(t, cpath)
    return res

if __name__ == "__main__":
    import time
    t = time.time()
    u, s = extract()
    print(s, time.time() - t, sum(len(d["defs"]) for d in u.values()))
