"""Runs the scripted driver (fsrc/driver.F90): the repository's own start-up and PIC phases, in a scratch directory."""
import os, shutil, signal, struct, subprocess, tempfile, time
import numpy as np
from . import build
from .harness import Violation

MPIENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1",
              OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none",
              OMPI_MCA_plm_rsh_agent="false", OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1",
              OMPI_MCA_io="romio321")  # the default collective-write component of Open MPI 4.1.6 (vulcan) corrupts files at random
BIN = {}
C = 2.99792458e8
QE = 1.6021764620000001e-19
ME = 9.10938291e-31
EPS0 = 8.854187817620389e-12
MU0 = 1.2566370614359173e-06


def prepare(omp=False, main=False, serial=True):
    th = []
    if serial:
        th.append(lambda: BIN.__setitem__("drv", build.fortran_driver()))
    if omp:
        th.append(lambda: BIN.__setitem__("omp", build.fortran_driver(omp=True)))
    if main:
        th.append(lambda: BIN.__setitem__("main", build.fortran_main()))
    build.parallel(*th)


def fmt(v):
    if isinstance(v, bool):
        return ".TRUE." if v else ".FALSE."
    if isinstance(v, (int, np.integer)):
        return "%d" % v
    if isinstance(v, str):
        return v
    return repr(float(v))


def deck(sections):
    """sections: list of (name, {key: value})."""
    out = []
    for name, d in sections:
        out.append("section::" + name)
        for k, v in d.items():
            out.append("%s = %s" % (k, fmt(v)))
        out.append("end::" + name)
        out.append("")
    return "\n".join(out) + "\n"


class Dump:
    """One process's dump: scalars as floats, arrays as (lb, array in Fortran index order)."""

    def __init__(self, path):
        self.s, self.a, self.lb = {}, {}, {}
        b = open(path, "rb").read()
        o = 0
        while o < len(b):
            name = b[o:o + 16].decode().strip()
            nd = struct.unpack_from("<q", b, o + 16)[0]
            o += 24
            if nd == 0:
                self.s[name] = struct.unpack_from("<d", b, o)[0]
                o += 8
                continue
            bb = struct.unpack_from("<%dq" % (2 * nd), b, o)
            o += 16 * nd
            lb, ub = bb[0::2], bb[1::2]
            shp = [max(0, u - l + 1) for l, u in zip(lb, ub)]
            n = int(np.prod(shp))
            self.a[name] = np.frombuffer(b, "<f8", n, o).reshape(shp, order="F")
            self.lb[name] = lb
            o += 8 * n

    def __getitem__(self, k):
        return self.s[k]

    def i(self, k):
        return int(round(self.s[k]))

    def cells(self, name, nodes=0):
        """Interior (0..n-1 (+nodes)) of a field."""
        a, lb = self.a[name], self.lb[name]
        n = [self.i("nx"), self.i("ny"), self.i("nz")]
        if self.i("c_dim") == 2:
            n[1] = 1
            return a[-lb[0]:-lb[0] + n[0] + nodes, -lb[1]:-lb[1] + 1, -lb[2]:-lb[2] + n[2] + nodes]
        return a[-lb[0]:-lb[0] + n[0] + nodes, -lb[1]:-lb[1] + n[1] + nodes, -lb[2]:-lb[2] + n[2] + nodes]

    def tiles(self, sp):
        """{(ix, iy, iz): (info, rows)}; rows: x y z ux uy uz g ex ey ez bx by bz pid.."""
        r = {}
        for k, v in self.a.items():
            if k.startswith("p%d." % sp):
                t = tuple(int(q) for q in k.split(".")[1:])
                r[t] = (self.a["i" + k[1:]], v.T)
        return r

    def parts(self, sp):
        t = self.tiles(sp)
        if not t:
            return np.zeros((0, 16))
        return np.concatenate([r for _, r in t.values()])


class Result:
    def __init__(self, d, nproc):
        self.d, self.n = d, nproc

    def dumps(self, name):
        return [Dump(os.path.join(self.d, "%s.%d" % (name, r))) for r in range(self.n)]

    def text(self, name):
        return open(os.path.join(self.d, name)).read()

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def glob(dumps, name):
    """Assembles the global periodic array (cells 0..n-1) from the interiors of all processes."""
    d0 = dumps[0]
    n = [d0.i("nx_global"), d0.i("ny_global"), d0.i("nz_global")]
    if d0.i("c_dim") == 2:
        n[1] = 1
    g = np.full(n, np.nan)
    for d in dumps:
        c = d.cells(name)
        o = [d.i("cxmin"), d.i("cymin"), d.i("czmin")]
        g[o[0]:o[0] + c.shape[0], o[1]:o[1] + c.shape[1], o[2]:o[2] + c.shape[2]] = c
    return g


def wparts(path, rows):
    """rows: species, x, y, z, ux, uy, uz, gaminv, pid..."""
    r = np.asarray(rows, "<f8")
    if r.size == 0:
        r = r.reshape(0, 11)
    with open(path, "wb") as f:
        f.write(struct.pack("<2q", r.shape[0], r.shape[1]))
        f.write(np.ascontiguousarray(r).tobytes())


def wfield(path, g):
    g = np.asarray(g, "<f8")
    with open(path, "wb") as f:
        f.write(struct.pack("<3q", *g.shape))
        f.write(g.tobytes(order="F"))


def run(decktext, ops, nproc=1, files=None, args=(), which="drv", threads=1, timeout=60, env=None, allow_fail=False):
    """files: {name: ('p', rows) | ('f', array) | text}. Raises Violation when the program does not come to its end."""
    d = tempfile.mkdtemp(prefix="sim", dir=os.environ.get("VERIF_WORK"))
    with open(os.path.join(d, "input_file.pixr"), "w") as f:
        f.write(decktext)
    if ops is not None:
        with open(os.path.join(d, "ops.txt"), "w") as f:
            f.write("\n".join(ops) + "\n")
    for k, v in (files or {}).items():
        p = os.path.join(d, k)
        if isinstance(v, str):
            open(p, "w").write(v)
        elif v[0] == "p":
            wparts(p, v[1])
        else:
            wfield(p, v[1])
    e = dict(os.environ, **MPIENV, OMP_NUM_THREADS=str(threads), OMP_STACKSIZE="64M", TMPDIR=d, **(env or {}))
    cmd = [BIN[which]] + list(args)
    if nproc > 1:
        cmd = ["mpirun", "-np", str(nproc)] + cmd
    log = open(os.path.join(d, "log"), "wb")
    p = subprocess.Popen(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=log, stderr=log, start_new_session=True)
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        rc = "timeout"
    except BaseException:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise
    log.close()
    r = Result(d, nproc)
    r.rc = rc
    r.ok = rc == 0 and (ops is None or os.path.exists(os.path.join(d, "done.txt")))
    if not r.ok and not allow_fail:
        t = open(os.path.join(d, "log"), errors="replace").read()
        t = "\n".join(l for l in t.splitlines() if l.strip())[-1200:]
        r.close()
        raise Violation("the run did not reach its end (exit %s): ...%s" % (rc, t))
    return r
