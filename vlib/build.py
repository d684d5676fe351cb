"""Builds what the checks need from the working tree of the repository under test (default /repo).
Objects are kept in a content-addressed cache outside the repository; nothing is written below the repository."""
import concurrent.futures as cf, hashlib, os, re, shutil, subprocess, threading
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
NJ = max(2, os.cpu_count() or 8)
ENV = dict(os.environ, LC_ALL="C", OMPI_FC="gfortran", OMPI_CC="gcc")
FFLAGS = "-fPIC -cpp -D FFTW=1 -I/usr/include -fallow-argument-mismatch -w"


class BuildError(Exception):
    pass


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"\0")
    return m.hexdigest()[:32]


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])
    return r.stdout.decode(errors="replace")


def _fsources(extra):
    src = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        if "multi_physics" in d or os.path.basename(d) == "profiling":
            continue
        src += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".F90")]
    return sorted(src) + list(extra)


def fortran(kind, extra=(), flags="", out="lib", exclude=(), link="", mods_of=None):
    """Compile every Fortran source of the repository (except `exclude` basenames) plus the files `extra`
    (absolute paths in /verif) and link a shared library (out='lib') or a program (out='exe'). Returns the path."""
    flags = (FFLAGS + " " + flags).split()
    src = [s for s in _fsources(extra) if os.path.basename(s) not in exclude]
    text = {f: open(f, "rb").read() for f in src}
    mods, uses = {}, {}
    for f in src:
        t = text[f].decode("latin-1").lower()
        for m in re.findall(r"^\s*module\s+(?!procedure\b)(\w+)\s*(?:!.*)?$", t, re.M):
            mods[m] = f
        uses[f] = set(re.findall(r"^\s*use\s*(?:,\s*\w+\s*::|::)?\s*(\w+)", t, re.M))
    deps = {f: {mods[u] for u in uses[f] if u in mods} - {f} for f in src}
    clos = {}

    def closure(f, stack=()):
        if f in clos:
            return clos[f]
        if f in stack:
            raise BuildError("module cycle at " + f)
        s = set()
        for d in deps[f]:
            s |= {d} | closure(d, stack + (f,))
        clos[f] = s
        return s
    for f in src:
        closure(f)
    key = {f: _h(text[f], *[text[d] for d in sorted(clos[f])], *flags, os.path.basename(f)) for f in src}
    root = os.path.join(CACHE, "f")
    os.makedirs(root, exist_ok=True)
    ev = {f: threading.Event() for f in src}
    fail = []
    sem = threading.Semaphore(NJ)

    def comp(f):
        try:
            for d in deps[f]:
                ev[d].wait()
            if fail:
                return
            e = os.path.join(root, key[f])
            if not os.path.exists(os.path.join(e, "o.o")):
                with sem:
                    tmp = "%s.tmp%d" % (e, os.getpid())
                    shutil.rmtree(tmp, ignore_errors=True)
                    os.makedirs(tmp)
                    inc = ["-I" + os.path.join(root, key[d]) for d in sorted(clos[f])]
                    _run(["mpif90"] + flags + ["-J" + tmp] + inc + ["-c", f, "-o", tmp + "/o.o"])
                    try:
                        os.rename(tmp, e)
                    except OSError:
                        shutil.rmtree(tmp, ignore_errors=True)
        except BaseException as x:  # reported below
            fail.append(x)
        finally:
            ev[f].set()
    # longest files first so that the tail is short
    order = sorted(src, key=lambda f: -len(text[f]))
    with cf.ThreadPoolExecutor(len(src)) as ex:
        list(ex.map(comp, order))
    if fail:
        raise fail[0]
    objs = [os.path.join(root, key[f], "o.o") for f in src]
    k = _h(kind, out, link, *[key[f] for f in sorted(src)])
    odir = os.path.join(CACHE, "out")
    os.makedirs(odir, exist_ok=True)
    path = os.path.join(odir, "%s-%s%s" % (kind, k, ".so" if out == "lib" else ""))
    if not os.path.exists(path):
        tmp = path + ".tmp%d" % os.getpid()
        cmd = ["mpif90"] + (["-shared", "-Wl,-Bsymbolic"] if out == "lib" else []) + \
            [x for x in flags if x.startswith(("-O", "-fopenmp", "-fsanitize"))] + ["-o", tmp] + objs + link.split() + \
            ["-lfftw3_mpi", "-lfftw3_omp", "-lfftw3", "-lgomp", "-lm"]
        _run(cmd)
        os.rename(tmp, path)
    return path


def fortran_lib(shim=("fshim.F90",)):
    """libpxr.so: all routines, no main program; -O1 keeps the build short."""
    return fortran("pxr", [os.path.join(VERIF, "fsrc", "stubs.F90")] + [os.path.join(VERIF, "fsrc", s) for s in shim],
                   "-O1 -finit-real=snan", "lib", exclude=("main.F90",))


def fortran_driver(omp=False, opt="-O1 -finit-real=snan"):
    if os.environ.get("VERIF_SAN"):
        opt += " " + os.environ["VERIF_SAN"]
    return fortran("drv" + ("omp" if omp else ""), [os.path.join(VERIF, "fsrc", "driver.F90")],
                   opt + (" -fopenmp" if omp else ""), "exe", exclude=("main.F90",))


def fortran_main():
    """The repository's own program, unmodified (main.F90) with the step hooks it leaves to the linker."""
    return fortran("main", [os.path.join(VERIF, "fsrc", "stubs.F90")], "-O1", "exe")


def cxx(name, src, flags="-std=c++11 -O1", libs="", shared=True, cc="g++"):
    """Compile one /verif C++ file against the repository's QED headers."""
    inc = os.path.join(REPO, "src/multi_physics/QED/src")
    data = [open(os.path.join(inc, f), "rb").read() for f in sorted(os.listdir(inc))]
    vdir = os.path.join(VERIF, "cxx")
    data += [open(os.path.join(vdir, f), "rb").read() for f in sorted(os.listdir(vdir))]
    k = _h(name, src, flags, libs, cc, shared, *data)
    odir = os.path.join(CACHE, "out")
    os.makedirs(odir, exist_ok=True)
    path = os.path.join(odir, "%s-%s%s" % (name, k, ".so" if shared else ""))
    if not os.path.exists(path):
        tmp = path + ".tmp%d" % os.getpid()
        _run([cc] + flags.split() + ["-w", "-I" + inc, "-I" + vdir] + (["-shared", "-fPIC"] if shared else []) +
             [os.path.join(vdir, src), "-o", tmp] + libs.split())
        os.rename(tmp, path)
    return path


def parallel(*thunks):
    with cf.ThreadPoolExecutor(len(thunks)) as ex:
        return [f.result() for f in [ex.submit(t) for t in thunks]]
