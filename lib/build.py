"""Builds the harness programs from /repo's current working tree."""
import concurrent.futures as cf, fcntl, glob, hashlib, os, re, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(ROOT, ".cache")
HARN = os.path.join(ROOT, "harness")


class BuildError(Exception):
    pass


def _xml2():
    try:
        return subprocess.check_output(["xml2-config", "--cflags"], text=True).split()
    except Exception:
        return ["-I/usr/include/libxml2"]


def _gen(dst):
    """config.h and version.h as the project's own build would generate them."""
    os.makedirs(dst, exist_ok=True)
    ver = {}
    for cm in ("CMakeLists.txt", "libiqxmlrpc/CMakeLists.txt"):
        p = os.path.join(REPO, cm)
        if os.path.exists(p):
            for k, v in re.findall(r"(?im)^\s*set\s*\(\s*(\w+)\s+\"?([^\s\")]+)\"?\s*\)", open(p).read()):
                ver[k] = v

    def value(k):
        v = ver.get(k, "")
        for _ in range(4):
            v = re.sub(r"\$\{(\w+)\}", lambda m: ver.get(m.group(1), ""), v)
        return v or ("Libiqxmlrpc" if "PACKAGE" in k.upper() or "NAME" in k.upper() else "0.13.6")

    for t in glob.glob(os.path.join(REPO, "libiqxmlrpc", "*.h.in")):
        s = open(t).read()
        s = re.sub(r"#\s*cmakedefine01\s+(\w+)", r"#define \1 1", s)
        s = re.sub(r"#\s*cmakedefine\s+(\w+)[^\n]*", r"#define \1", s)
        s = re.sub(r"@(\w+)@|\$\{(\w+)\}", lambda m: value(m.group(1) or m.group(2)), s)
        out = os.path.join(dst, os.path.basename(t)[:-3])
        if not os.path.exists(out) or open(out).read() != s:
            open(out, "w").write(s)


LIBS = ["-lxml2", "-lssl", "-lcrypto", "-lboost_thread", "-lboost_date_time", "-lboost_system", "-lpthread", "-ldl"]


def _sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def build(which=("iqhost", "iqvalue")):
    """Returns {program: path}."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(which)


def _build(which):
    gen = os.path.join(CACHE, "gen")
    obj = os.path.join(CACHE, "obj")
    binr = os.path.join(CACHE, "bin")
    for d in (obj, binr):
        os.makedirs(d, exist_ok=True)
    _gen(gen)
    env = dict(os.environ, CCACHE_DIR=os.path.join(CACHE, "ccache"), CCACHE_MAXSIZE="2G", CCACHE_NOHASHDIR="1",
               CCACHE_SLOPPINESS="include_file_ctime,include_file_mtime,time_macros")
    env.pop("CCACHE_DISABLE", None)
    cc = (["ccache"] if shutil.which("ccache") else []) + ["g++"]
    inc = ["-I" + gen, "-I" + REPO, "-I" + os.path.join(REPO, "libiqxmlrpc")] + _xml2()
    common = ["-std=gnu++14", "-w", "-g1", "-fno-omit-frame-pointer", "-DNDEBUG"]
    san = ["-fsanitize=address"]
    jobs = []   # (key, src, obj, flags)
    # iqmem is iqhost with switches at memory accesses: the thread sanitizer's calls without its runtime
    libs = {"lib": ("lib", san + ["-fsanitize-coverage=trace-pc"]), "libm": ("libm", ["-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"])}
    need = set("libm" if p == "iqmem" else "lib" for p in which)
    for src in sorted(glob.glob(os.path.join(REPO, "libiqxmlrpc", "*.cc"))):
        b = os.path.basename(src)[:-3]
        for k in sorted(need):
            jobs.append((k, src, os.path.join(obj, "%s_%s.o" % (libs[k][0], b)), common + ["-O1"] + libs[k][1] + inc))
    hsrc = {"iqhost": ["vsched.cc", "iqhost.cc"], "iqvalue": ["iqvalue.cc"], "iqmem": ["vsched.cc", "iqhost.cc", "memhook.cc"]}
    for prog in which:
        for s in hsrc[prog]:
            jobs.append((prog, os.path.join(HARN, s), os.path.join(obj, "h_%s_%s.o" % (prog, s[:-3])),
                         common + ["-O1"] + (san if prog != "iqmem" else []) + inc))
    have = set(j[2] for j in jobs)
    for f in [f for k in need for f in glob.glob(os.path.join(obj, libs[k][0] + "_*.o"))]:
        if f not in have:
            os.unlink(f)

    def one(j):
        r = subprocess.run(cc + j[3] + ["-c", j[1], "-o", j[2]], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        return j, r

    errs = []
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        # big ones first
        jobs.sort(key=lambda j: -os.path.getsize(j[1]) - (10 ** 9 if j[0] not in libs else 0))
        for j, r in ex.map(one, jobs):
            if r.returncode:
                errs.append("%s\n%s" % (j[1], r.stdout[-3000:]))
    if errs:
        raise BuildError("compilation failed:\n" + "\n".join(errs[:3]))
    res = {}

    def link(prog):
        # the scheduler's copies of inline functions are its own, then come the library's, which are instrumented
        objs = sorted((j[2] for j in jobs if j[0] in ("libm" if prog == "iqmem" else "lib", prog)),
                      key=lambda o: (1 if not os.path.basename(o).startswith("h_") else 0 if "_vsched" in o or "_memhook" in o else 2, o))
        h = hashlib.sha256("".join(_sha(o) for o in sorted(objs)).encode()).hexdigest()[:20]
        out = os.path.join(binr, "%s-%s" % (prog, h))
        if not os.path.exists(out):
            tmp = out + ".tmp"
            r = subprocess.run(["g++"] + (san if prog != "iqmem" else []) + ["-rdynamic", "-o", tmp] + objs + LIBS,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode:
                raise BuildError("link failed:\n" + r.stdout[-3000:])
            os.rename(tmp, out)
        else:
            os.utime(out)
        old = sorted(glob.glob(os.path.join(binr, prog + "-*")), key=os.path.getmtime)
        for o in old[:-6]:
            os.unlink(o)
        return out

    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        for p, o in zip(which, ex.map(link, which)):
            res[p] = o
    return res


if __name__ == "__main__":
    try:
        print(build(tuple(sys.argv[1:]) or ("iqhost", "iqvalue")))
    except BuildError as e:
        print(e)
        sys.exit(2)
