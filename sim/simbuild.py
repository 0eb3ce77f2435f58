"""Builds the package from /repo's current working tree, linked against the
simulator runtime, into /verif/.build/<content key>."""
import hashlib, os, shutil, subprocess, sys, time, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, ".build"))

WRAPS = """Rf_allocVector Rf_allocArray Rf_allocSExp Rf_cons Rf_lcons Rf_lang1 Rf_lang2 Rf_lang3 Rf_lang4
Rf_list1 Rf_list2 Rf_mkChar Rf_mkCharCE Rf_mkCharLenCE Rf_mkString Rf_mkNamed Rf_ScalarInteger Rf_ScalarReal
Rf_ScalarString Rf_duplicate Rf_shallow_duplicate Rf_coerceVector Rf_lengthgets Rf_xlengthgets R_alloc
Rf_translateChar Rf_translateCharUTF8 Rf_getAttrib Rf_setAttrib Rf_copyMostAttrib Rf_defineVar R_NewEnv
R_MakeExternalPtr R_new_altrep Rf_asCharacterFactor Rf_match R_lsInternal3 Rf_eval INTEGER LOGICAL REAL COMPLEX
RAW INTEGER_RO LOGICAL_RO REAL_RO COMPLEX_RO RAW_RO STRING_PTR STRING_PTR_RO DATAPTR_RO STRING_ELT""".split()

TREE = ["DESCRIPTION", "NAMESPACE", "LICENSE", "LICENSE.md", "NEWS.md", "R", "src", "inst", "data", "tools"]


def _files(root):
    for top in TREE:
        p = os.path.join(root, top)
        if os.path.isfile(p):
            yield top
        elif os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith((".o", ".so", ".d")):
                        continue
                    yield os.path.relpath(os.path.join(d, f), root)


def content_key(extra=""):
    h = hashlib.sha256()
    for f in _files(REPO):
        h.update(f.encode() + b"\0")
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    for f in ("simrt.c", "simbuild.py", "pkg/simpkg/R/a.R", "pkg/simpkg/NAMESPACE", "pkg/simpkg/DESCRIPTION"):
        with open(os.path.join(HERE, f), "rb") as fh:
            h.update(fh.read())
    h.update(extra.encode())
    return h.hexdigest()[:16]


def build(coverage=False, log=None):
    """Returns (libdir, seconds). Raises RuntimeError with the log on failure."""
    t0 = time.time()
    key = content_key("cov" if coverage else "")
    os.makedirs(BUILD, exist_ok=True)
    dest = os.path.join(BUILD, key)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(dest, "ok")):
            return dest, time.time() - t0
        # keep at most a few older builds
        olds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d != "lock" and not d.startswith("run") and d != key),
                      key=os.path.getmtime)
        for d in olds[:-6]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(dest, ignore_errors=True)
        pkg = os.path.join(dest, "pkg")
        os.makedirs(pkg)
        os.makedirs(os.path.join(dest, "lib"))
        for f in _files(REPO):
            t = os.path.join(pkg, f)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, f), t)
        out = []

        def run(cmd, env=None):
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out.append(p.stdout)
            if p.returncode != 0:
                raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))

        rt = os.path.join(dest, "rt")
        os.makedirs(rt)
        run(["gcc", "-O2", "-g", "-fno-omit-frame-pointer", "-fPIC", "-shared", "-Wall", "-I/usr/share/R/include",
             os.path.join(HERE, "simrt.c"), "-o", os.path.join(rt, "libsimrt.so"), "-ldl"])
        mk = os.path.join(dest, "Makevars.user")
        with open(mk, "w") as fh:
            fh.write("CPPFLAGS += -DVCTRS_SIM\n")
            fh.write("CFLAGS = -O2 -g1 -fno-omit-frame-pointer -fPIC -std=gnu11 %s\n" % ("--coverage" if coverage else ""))
            fh.write("PKG_LIBS = %s -L%s -lsimrt -Wl,-rpath,%s %s\n" % (
                " ".join("-Wl,--wrap=" + w for w in WRAPS), rt, rt, "--coverage" if coverage else ""))
        env = dict(os.environ, LC_ALL="C.UTF-8", TZ="UTC", R_MAKEVARS_USER=mk, MAKEFLAGS="-j8",
                   R_LIBS=os.path.join(dest, "lib"), R_LIBS_USER="/nonexistent",
                   R_PROFILE_USER="/nonexistent", R_ENVIRON_USER="/nonexistent")
        run(["R", "CMD", "INSTALL", "--no-docs", "--no-multiarch", "--no-lock", "--no-test-load", "--no-staged-install",
             "--library=" + os.path.join(dest, "lib"), pkg], env)
        run(["R", "CMD", "INSTALL", "--no-docs", "--no-multiarch", "--no-lock", "--no-test-load", "--no-staged-install", "--no-byte-compile",
             "--library=" + os.path.join(dest, "lib"), os.path.join(HERE, "pkg", "simpkg")], env)
        if not coverage:
            shutil.rmtree(pkg, ignore_errors=True)
        with open(os.path.join(dest, "ok"), "w") as fh:
            fh.write("".join(out)[-2000:])
        return dest, time.time() - t0
    finally:
        lock.close()


def image(dest):
    """The simulator's own R code, byte-compiled once per build."""
    h = hashlib.sha256()
    d = os.path.join(HERE, "R")
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f), "rb") as fh:
            h.update(f.encode() + b"\0" + fh.read() + b"\0")
    out = os.path.join(dest, "sim-%s.rds" % h.hexdigest()[:16])
    if not os.path.exists(out):
        tmp = "%s.%d" % (out, os.getpid())
        p = subprocess.run(["Rscript", "--vanilla", os.path.join(d, "compile.R"), os.path.join(dest, "lib"), d, tmp],
                           env=dict(os.environ, LC_ALL="C.UTF-8", TZ="UTC"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise RuntimeError("compiling the simulator failed:\n" + p.stdout[-4000:])
        os.replace(tmp, out)
    return out


if __name__ == "__main__":
    d, s = build("--coverage" in sys.argv)
    print(d, "%.1fs" % s)
