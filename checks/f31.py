"""F31: the post-processing readers give back what the program wrote."""
from checks.whole import *
from checks import f19, f20
import contextlib, io, os, struct, types
PID = "F31"
JOBS = 6
RULE = ("A case is a generated simulation with a generated selection of field files and temporal diagnostics, whose files are read by the readers of "
        "utils/postprocessing and compared with the state recorded in memory and with an independent reading: non-trivial when a file with values that "
        "are not all equal was read. Distinct = distinct case parameters.")
ASSUMPTIONS = ["temporal diagnostics in the binary format (the reader knows no other)", "plotting functions are not exercised; matplotlib is replaced by an empty module"]
CTX = {}


def prepare():
    sim.prepare()
    for m in ("matplotlib", "matplotlib.pyplot", "mpl_toolkits", "mpl_toolkits.mplot3d", "matplotlib.gridspec"):
        if m not in sys.modules:
            sys.modules[m] = types.ModuleType(m)
            sys.modules[m].__path__ = []
    sys.modules["mpl_toolkits.mplot3d"].Axes3D = object
    for nm in ("Field", "PyLoadArrayPicsar"):
        g = {"__name__": nm}
        with open(os.path.join(build.REPO, "utils", "postprocessing", nm + ".py")) as h:
            exec(compile(h.read(), nm, "exec"), g)
        CTX[nm] = g


@st.composite
def case(draw, dim):
    c = draw(f20.case(dim).filter(lambda q: q.get("out")))
    t = draw(f19.case(dim))
    return dict(c, dump=[], act=t["act"], freq=t["freq"])


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def run(c):
    dim, n, d, o = c["dim"], c["n"], c["d"], c["out"]
    v = dict(c["v"])
    v["extra"] = [("output", dict({"output_frequency": o["f"], "output_step_min": o["lo"], "output_step_max": o["hi"]}, **{f20.FI[k]: 1 for k in o["act"]})),
                  ("temporal", dict({"frequency": c["freq"], "format": 0}, **{f19.TD[k]: 1 for k in c["act"]}))]
    ops = []
    for k in range(c["steps"]):
        ops += ["step 1", "dumpf i%d" % k]
    N = [n[0], n[1] if dim == 3 else 1, n[2]]
    rich, labels = False, set()
    with simulate(c, v, ops=ops) as res:
        R = os.path.join(res.d, "RESULTS")
        D0 = res.dumps("i0")
        for k in range(c["steps"]):
            D = res.dumps("i%d" % k)
            for a in o["act"]:
                p = os.path.join(R, "%s%d.pxr" % (f20.FI[a], k))
                if not os.path.exists(p):
                    continue
                nm = "%s of step %d" % (f20.FI[a], k)
                F_ = quiet(CTX["Field"]["Field"], p)
                b = open(p, "rb").read()
                raw = np.frombuffer(b[60:], "<f8").reshape(N[::-1])  # z, y, x
                if [F_.nx, F_.ny, F_.nz] != N:
                    raise Violation("%s: %r cells read instead of %r" % (nm, [F_.nx, F_.ny, F_.nz], N))
                for x in range(3):
                    if x == 1 and dim == 2:
                        continue
                    ax = "xyz"[x]
                    g = getattr(F_, ax)
                    close(g, c["org"][x] + d[x] * np.arange(n[x]), 1e-11 * n[x] * d[x], "%s: nodes along %s" % (nm, ax))
                    close([getattr(F_, "d" + ax, np.nan)], [d[x]], 1e-9 * d[x], "%s: spacing along %s" % (nm, ax))
                    close([getattr(F_, ax + "min"), getattr(F_, ax + "max")], [c["org"][x], c["org"][x] + n[x] * d[x]], 1e-11 * n[x] * d[x], nm + ": limits")
                A3 = quiet(CTX["PyLoadArrayPicsar"]["LoadBinNumPyArray3D"], p, *N)
                for w, got in (("Field", np.asarray(F_.f)), ("LoadBinNumPyArray3D", np.asarray(A3).T)):
                    if got.shape != raw.shape or not np.array_equal(got, raw):
                        raise Violation("%s read by %s: shape %r instead of %r, or other values" % (nm, w, got.shape, raw.shape))
                if f20.FI[a] in EB + CUR + ["rho"]:
                    mem = sim.glob(D, f20.FI[a])
                    if not np.array_equal(np.asarray(F_.f), np.transpose(mem)):
                        raise Violation("%s: the values read are not those of the simulation" % nm)
                rich |= bool(np.ptp(raw) > 0)
                labels.add("fields")
        dt = float(np.ravel(D0[0]["dt"])[0])
        for a in c["act"]:
            p = os.path.join(R, f19.TD[a])
            b = open(p, "rb").read()
            nc = len(c["sp"]) if a == 0 else 1
            raw = np.frombuffer(b[12:], "<f8").reshape(-1, nc)
            if len(raw) != (c["steps"] - 1) // c["freq"] + 1:
                raise Violation("%s: %d records" % (f19.TD[a], len(raw)))
            t, A = quiet(CTX["PyLoadArrayPicsar"]["read_picsar_temporal_diags"], p)
            A = np.asarray(A, float).reshape(nc, -1)
            if A.shape != raw.T.shape or not np.array_equal(A, raw.T):
                raise Violation("%s: %r values read instead of %r, or other values" % (f19.TD[a], A.shape, raw.T.shape))
            close(t, np.arange(len(raw)) * c["freq"] * dt, 1e-12 * dt * (1 + len(raw) * c["freq"]), f19.TD[a] + ": times")
            rich |= bool(np.ptp(raw) > 0)
            labels.add("temporal")
    return {"nontrivial": rich, "labels": sorted(labels) + ["%dD" % dim]}


PARTS = [Part("run3d", case(3), run, quick=36, thorough=1500, shards=3), Part("run2d", case(2), run, quick=36, thorough=1500, shards=3)]
