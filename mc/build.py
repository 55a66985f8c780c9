"""Compiles /repo's sources (and harnesses) with content-addressed caching and links harness binaries."""
import hashlib, os, re, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
OUT = os.environ.get("MC_BUILD", os.path.join(VERIF, ".build"))
CACHE = os.path.join(OUT, "cache")

# Sources of other platforms; everything else below a module's directories is compiled.
SKIP = re.compile(r"(win32|_win\.|w32|_mac[._]|android|kqueue|jni|ble_wcomplete_|_nslog_impl|m_io_hid_mac|m_io_bluetooth_android"
                  r"|m_hash_stridx_|tre-match|autotools|oracle|odbc|db2|mysql|postgresql|m_time_tz_win)")
KEEP = {"log/m_log_android.c", "log/m_log_nslog.c"}
DROP = {"base/hash/m_hash_strbin_old.c"}
# Files present in the tree but not in the Linux build.
NOTLINUX = {"io/m_io_hid_notimpl.c", "text/re/mtre/xmalloc.c", "thread/m_pollemu.c"}
MODULES = {
    "base": ["base"], "thread": ["thread"], "io": ["io"], "tls": ["tls"], "net": ["net"], "log": ["log"],
    "sql": ["sql"], "sqlite": ["sql/sqlite"], "text": ["text"], "formats": ["formats"], "backtrace": ["backtrace"],
}
DEPS = {"base": [], "thread": ["base"], "io": ["base", "thread", "text"], "tls": ["io"], "net": ["io", "tls", "formats", "text"],
        "log": ["io", "thread"], "sql": ["thread", "io", "formats", "text"], "sqlite": ["sql"], "text": ["base"], "formats": ["text", "base"], "backtrace": ["base"]}
LIBS = {"thread": ["-lpthread", "-ldl", "-lrt"], "io": ["-lcares"], "tls": ["-lssl", "-lcrypto"], "sql": ["-ldl"], "sqlite": ["-lsqlite3"], "base": ["-lm"]}

FLAVORS = {
    "seq":   (["gcc"], ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fno-sanitize-recover=all"], ["-fsanitize=address"]),
    "sched": (["gcc"], ["-O1", "-g1", "-fno-omit-frame-pointer", "-fno-pie", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove", "-fsanitize=thread", "--param=tsan-distinguish-volatile=1"], ["-no-pie"]),
    "plain": (["gcc"], ["-O1", "-g1", "-fno-omit-frame-pointer", "-fno-pie"], ["-no-pie"]),
    "tsan":  (["gcc"], ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"], ["-fsanitize=thread"]),
}
BASEFLAGS = ["-w", "-std=gnu11", "-DNDEBUG", "-D_GNU_SOURCE", "-D_POSIX_C_SOURCE=199309L", "-D_XOPEN_SOURCE=600",
             "-DMSTDLIB_STATIC", "-DNET_HTTP_VERSION=\"1.24.0\"", "-fno-strict-aliasing"]

def sources(mod):
    out = []
    for d in MODULES[mod]:
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            rel = os.path.relpath(root, REPO)
            if mod == "sql" and rel != "sql":
                continue
            dirs[:] = sorted(d for d in dirs if d != "test")
            for f in sorted(files):
                r = os.path.normpath(os.path.join(rel, f))
                if not f.endswith(".c") or r in NOTLINUX or r in DROP:
                    continue
                if SKIP.search(f) and r not in KEEP:
                    continue
                if "android_ifaddrs" in r:
                    continue
                out.append(r)
    return out

def all_mods(mods):
    seen = []
    def add(m):
        if m in seen: return
        for d in DEPS[m]: add(d)
        seen.append(m)
    for m in mods: add(m)
    return seen

_hh = None
def headers_hash():
    global _hh
    if _hh is None:
        h = hashlib.sha256()
        for base in (REPO, os.path.join(VERIF, "mc")):
            for root, dirs, files in os.walk(base):
                dirs[:] = sorted(d for d in dirs if d not in (".git", "_build", "test", "doc", "build"))
                for f in sorted(files):
                    if f.endswith((".h", ".inc")):
                        p = os.path.join(root, f)
                        h.update(os.path.relpath(p, base).encode()); h.update(open(p, "rb").read())
        _hh = h.hexdigest()
    return _hh

def incs(mod):
    d = [os.path.join(VERIF, "mc", "conf"), os.path.join(VERIF, "mc"), REPO, os.path.join(REPO, "base"), os.path.join(REPO, "include")]
    if mod in MODULES: d.append(os.path.join(REPO, mod if mod != "sqlite" else "sql/sqlite"))
    return ["-I" + x for x in d]

def key(cmd, path):
    h = hashlib.sha256()
    h.update("\0".join(cmd).encode()); h.update(path.encode()); h.update(open(path, "rb").read()); h.update(headers_hash().encode())
    return h.hexdigest()[:32]

def compile_one(job):
    path, flags, cc = job
    cmd = cc + flags
    k = key(cmd, path)
    obj = os.path.join(CACHE, k[:2], k + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run(cmd + ["-c", path, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise SystemExit("compile failed: %s\n%s\n%s" % (path, r.stdout[-2000:], "\n".join([l for l in r.stdout.splitlines() if "error:" in l][:10])))
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj

def gc():
    """Keep the cache below ~3 GB."""
    fs = [os.path.join(r, f) for r, _, ff in os.walk(CACHE) for f in ff]
    st = sorted(((os.stat(f).st_mtime, os.stat(f).st_size, f) for f in fs), reverse=True)
    tot = 0
    for _, sz, f in st:
        tot += sz
        if tot > 3 << 30:
            try: os.unlink(f)
            except OSError: pass

def meta(src):
    m = {"MODS": [], "MODE": ["seq"], "LIBS": [], "WRAP": [], "EXTRA": [], "FLAGS": []}
    for line in open(src):
        g = re.match(r"\s*(?://|/?\*)\s*(MODS|MODE|LIBS|WRAP|EXTRA|FLAGS):\s*(.*?)\s*(\*/)?$", line)
        if g: m[g.group(1)] += g.group(2).split()
        elif not line.startswith(("/", " *", "\n")): break
    m["MODE"] = m["MODE"][-1]
    return m

SCHED_WRAP = None
def sched_wraps():
    global SCHED_WRAP
    if SCHED_WRAP is None:
        t = open(os.path.join(VERIF, "mc", "sched.c")).read()
        SCHED_WRAP = sorted(set(re.findall(r"\b__wrap_(\w+)\(", t)))
    return SCHED_WRAP

def build(harness, jobs=None):
    """Builds harness/<harness>.c, returns the path of the binary."""
    src = os.path.join(VERIF, "harness", harness + ".c")
    m = meta(src)
    mode = m["MODE"]
    cc, cf, lf = FLAVORS[mode]
    mods = all_mods(m["MODS"])
    work = []
    for mod in mods:
        for s in sources(mod):
            work.append((os.path.join(REPO, s), BASEFLAGS + cf + incs(mod), cc))
    hflags = [f for f in BASEFLAGS if f != "-w"] + ["-Wall", "-Wno-unused", "-Wno-format-truncation", "-Wno-stringop-truncation"] + cf + m["FLAGS"]
    hinc = incs("-") + ["-I" + os.path.join(VERIF, "harness")]
    work.append((src, hflags + hinc, cc))
    for e in m["EXTRA"]:
        work.append((os.path.join(VERIF, e) if not e.startswith("repo:") else os.path.join(REPO, e[5:]), hflags + hinc, cc))
    # the engine itself is never instrumented
    eflags = [f for f in BASEFLAGS if f != "-w"] + ["-Wall", "-Wno-unused", "-Wno-format-truncation", "-O2", "-g1"] + (["-fno-pie"] if mode in ("sched", "plain") else [])
    work.append((os.path.join(VERIF, "mc", "mc.c"), eflags + hinc, ["gcc"]))
    if mode == "sched":
        work.append((os.path.join(VERIF, "mc", "sched.c"), eflags + hinc, ["gcc"]))
    with ThreadPoolExecutor(jobs or os.cpu_count() or 4) as ex:
        objs = list(ex.map(compile_one, work))
    libs = []
    for mod in reversed(mods): libs += LIBS.get(mod, [])
    wraps = list(m["WRAP"])
    if mode == "sched": wraps += sched_wraps()
    ld = cc + lf + ["-o", None] + objs + ["-Wl,--wrap=" + w for w in wraps] + m["LIBS"] + libs + ["-lpthread", "-lm", "-ldl"]
    h = hashlib.sha256("\0".join(str(x) for x in ld).encode()).hexdigest()[:16]
    exe = os.path.join(OUT, "bin", harness + "-" + h)
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        for old in glob.glob(os.path.join(OUT, "bin", harness + "-" + "?" * 16)):
            try: os.unlink(old)
            except OSError: pass
        tmp = exe + ".%d.tmp" % os.getpid()
        ld[ld.index(None)] = tmp
        r = subprocess.run(ld, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise SystemExit("link failed: %s\n%s" % (harness, r.stdout[-6000:]))
        os.replace(tmp, exe)
    return exe

if __name__ == "__main__":
    for h in sys.argv[1:]:
        print(build(h))
    gc()
