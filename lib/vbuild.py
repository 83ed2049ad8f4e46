"""Builds the symbolic engine, the bitcode of /repo plus a harness, and the native replay binary."""
import fcntl, glob, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LEARNLOG_REPO", "/repo")
B = os.path.join(VERIF, ".build")
CLANG = next(p for p in ("/usr/bin/clang++-18", "/usr/lib/llvm-18/bin/clang++", "clang++") if os.path.exists(p) or p == "clang++")
LINK = "/usr/lib/llvm-18/bin/llvm-link"
# clang calls itself gcc 4.2, for which the library turns thread_local off; the project is built with gcc 13
GNUC = "-fgnuc-version=6.5.0"
VARIANTS = {"": [GNUC, "-DLEARNLOG_USE_TLS", "-DLEARNLOG_USE_BUNDLED_FMT"], "debug": [GNUC, "-DLEARNLOG_USE_TLS", "-DLEARNLOG_USE_BUNDLED_FMT", "-UNDEBUG"], "notls": [GNUC, "-DLEARNLOG_USE_BUNDLED_FMT"]}


class BuildError(Exception):
    pass


class lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.p = os.path.join(B, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout.decode(errors="replace")


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def engine():
    src = glob.glob(VERIF + "/engine/*")
    with lock("engine"):
        stamp, want = os.path.join(B, "engine", "stamp"), digest(src)
        exe = os.path.join(B, "engine", "engine")
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want:
            return exe
        run(["make", "-j8", "-B", "-C", VERIF + "/engine", "B=" + os.path.join(B, "engine")])
        open(stamp, "w").write(want)
        return exe


def repo_files():
    out = []
    for d in ("base", "include", "sinks", "src", "cmake"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(root, f) for f in fs]
    return out


def repo_sources():
    out = []
    for d in ("base", "src", "sinks"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            for f in fs:
                p = os.path.join(root, f)
                if f.endswith(".cpp") or (f.endswith(".cc") and f == "format.cc"):
                    out.append(p)
    return sorted(out)


def incdir(d):
    """version.h is generated by cmake; provide it if the build has not been run here."""
    inc = os.path.join(d, "inc")
    os.makedirs(inc, exist_ok=True)
    if not os.path.exists(REPO + "/include/version.h"):
        t = open(REPO + "/cmake/version.h.in").read()
        import re
        t = re.sub(r"@[A-Za-z_]*MAJOR@", "1", t)
        t = re.sub(r"@[A-Za-z_]*MINOR@", "0", t)
        t = re.sub(r"@[A-Za-z_]*PATCH@", "3", t)
        t = re.sub(r"@[A-Za-z_]*@", "1.0.3", t)
        open(inc + "/version.h", "w").write(t)
    return inc


def overlay(d):
    """Spinning before a semaphore wait is an optimisation; the encoding uses 1 spin where the headers say 10000."""
    dirn = REPO + "/base/concurrentqueue"
    items = []
    for f in sorted(glob.glob(dirn + "/*.h")):
        t = open(f).read()
        n = re.sub(r"(\w*spins\w*\s*=\s*)10000\b", r"\g<1>1", t, flags=re.I)
        if n != t:
            out = os.path.join(d, os.path.basename(f))
            open(out, "w").write(n)
            items.append('{"name":"%s","type":"file","external-contents":"%s"}' % (os.path.basename(f), out))
    if not items:
        return []
    y = os.path.join(d, "overlay.yaml")
    open(y, "w").write('{"version":0,"use-external-names":false,"roots":[{"name":"%s","type":"directory","contents":[%s]}]}' % (dirn, ",".join(items)))
    return ["-ivfsoverlay", y]


def bitcode(harness, variant=""):
    """all.bc for one harness, rebuilt whenever /repo, the runtime or the harness changed"""
    rt = glob.glob(VERIF + "/rt/*") + [VERIF + "/harness/hx.h"]
    key = digest(repo_files() + rt, "bc6" + variant + " ".join(VARIANTS[variant]) + str(os.path.exists(REPO + "/include/version.h")))
    d = os.path.join(B, "bc-" + key)
    hsrc = VERIF + "/harness/%s.cpp" % harness
    with lock("bc" + variant):
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, "all_%s_%s.bc" % (harness, digest([hsrc] + glob.glob(VERIF + "/harness/*.h"))))
        if os.path.exists(out):
            return out
        base = ["-O1", "-fno-pic", "-fno-pie", "-fno-vectorize", "-fno-slp-vectorize", "-emit-llvm", "-c", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DNDEBUG"] + VARIANTS[variant] + \
               ["-I" + REPO, "-I" + REPO + "/include", "-I" + VERIF, "-I" + incdir(d), "-gline-tables-only", "-fno-builtin-fprintf", "-fno-builtin-printf", "-Wno-everything"] + overlay(d)
        jobs = []
        objs = []
        for s in repo_sources():
            o = os.path.join(d, s[len(REPO) + 1:].replace("/", "_") + ".bc")
            objs.append(o)
            if not os.path.exists(o):
                jobs.append([CLANG, "-std=c++11"] + base + [s, "-o", o])
        for s, x in ((VERIF + "/rt/rt_std.cpp", ["-std=c++17", "-fno-access-control"]), (VERIF + "/rt/rt_libc.cpp", ["-std=c++17", "-fno-builtin"]), (VERIF + "/rt/env.cpp", ["-std=c++11"]), (hsrc, ["-std=c++11"])):
            o = os.path.join(d, "V_" + os.path.basename(s) + ".bc")
            objs.append(o)
            if s == hsrc or not os.path.exists(o):
                jobs.append([CLANG] + x + base + [s, "-o", o])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda c: run(c), [[*j[:-1], j[-1] + ".tmp"] for j in jobs]))
        for j in jobs:
            os.rename(j[-1] + ".tmp", j[-1])
        run([LINK] + objs + ["-o", out + ".tmp"])
        os.rename(out + ".tmp", out)
        return out


def native(harness, variant=""):
    rt = glob.glob(VERIF + "/rt/*") + [VERIF + "/harness/hx.h"]
    key = digest(repo_files() + rt, "nat4" + variant + " ".join(VARIANTS[variant]) + str(os.path.exists(REPO + "/include/version.h")))
    d = os.path.join(B, "nat-" + key)
    hsrc = VERIF + "/harness/%s.cpp" % harness
    with lock("nat" + variant):
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, "nat_%s_%s" % (harness, digest([hsrc] + glob.glob(VERIF + "/harness/*.h"))))
        if os.path.exists(out):
            return out
        base = ["-std=c++11", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-ftrivial-auto-var-init=pattern", "-DNDEBUG"] + VARIANTS[variant] + \
               ["-I" + REPO, "-I" + REPO + "/include", "-I" + VERIF, "-I" + incdir(d), "-Wno-everything"]
        jobs, objs = [], []
        for s in repo_sources() + [VERIF + "/rt/env.cpp", VERIF + "/rt/native.cpp", hsrc]:
            o = os.path.join(d, s.replace("/", "_") + ".o")
            objs.append(o)
            if s == hsrc or not os.path.exists(o):
                jobs.append([CLANG] + base + ["-c", s, "-o", o])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda c: run(c), [[*j[:-1], j[-1] + ".tmp"] for j in jobs]))
        for j in jobs:
            os.rename(j[-1] + ".tmp", j[-1])
        wraps = ["-Wl,--wrap=" + w for w in open(VERIF + "/rt/wraps.txt").read().split()]
        run([CLANG, "-fsanitize=address,undefined"] + objs + wraps + ["-pthread", "-o", out + ".tmp"])
        os.rename(out + ".tmp", out)
        return out


if __name__ == "__main__":
    print(engine())
