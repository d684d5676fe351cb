from checks.whole import *
from checks.f24 import charge, div, species
import struct, os
PID = "F20"
RULE = ("A case is a generated periodic simulation with a generated selection of output files (fields, divergences, densities with period and range of "
        "steps; particle dumps with a period and a filter; time statistics with period and buffer): non-trivial when at least one file is due.")
ASSUMPTIONS = ["at most one dump section per species (a second one would have the same file name)", "iteration numbers below 100000 (five digits in the file names)"]
FI = EB + CUR + ["rho", "dive", "divj", "divb"]


def prepare():
    sim.prepare()


@st.composite
def case(draw, dim):
    s = draw(splits(dim, draw(st.booleans())))
    c = draw(problem(dim, split=s, steps=(1, 6), npart=(1, 120)))
    v = {"split": list(s), "tiles": [draw(st.integers(1, 3)) for _ in range(3)], "topology": draw(st.integers(0, 2)),
         "currdepo": draw(st.integers(0, 2)), "mpicom_curr": draw(st.integers(0, 1)), "partcom": draw(st.integers(0, 2))}
    c = dict(c, v=v, norder=2, l_plasma=True, amp=draw(st.sampled_from([.01, .3])))
    if draw(st.integers(0, 3)):
        lo = draw(st.integers(0, 3))
        c["out"] = dict(f=draw(st.integers(1, 3)), lo=lo, hi=draw(st.integers(max(0, lo - 1), 6)), act=sorted(draw(st.one_of(st.sets(st.integers(0, 12), min_size=1), st.just(set(range(13)))))))
    c["dump"] = []
    for k in range(len(c["sp"])):
        if draw(st.booleans()):
            def box(lo, hi):
                if draw(st.integers(0, 2)) == 0:
                    return None
                a, b = sorted([draw(st.integers(0, 20)) / 20., draw(st.integers(0, 20)) / 20.])
                return [lo + (hi - lo) * a, lo + (hi - lo) * b]
            U = 3 * C * max(c["hot"], 1e-3)
            x = [box(c["org"][a], c["org"][a] + c["n"][a] * c["d"][a]) for a in range(3)]
            if dim == 2:
                x[1] = [-1., 1.]
            u = [box(-U, U) for _ in range(3)]
            u = [[-1e12, 1e12] if q is None or draw(st.integers(0, 2)) else q for q in u]
            c["dump"].append({"s": k, "T": draw(st.integers(1, 3)), "x": x, "u": u})
    if draw(st.integers(0, 5)) == 0:
        c.update(out=None, dump=[])
        c["ts"] = {"T": draw(st.integers(1, 3)), "buf": draw(st.integers(1, 4))}
    return c


def run(c):
    dim, n, d, v = c["dim"], c["n"], c["d"], dict(c["v"])
    ex = []
    if c.get("out"):
        o = c["out"]
        ex.append(("output", dict({"output_frequency": o["f"], "output_step_min": o["lo"], "output_step_max": o["hi"]}, **{FI[k]: 1 for k in o["act"]})))
    for q in c["dump"]:
        e = {"species_name": "s%d" % q["s"], "diag_period": q["T"]}
        for a in range(3):
            if q["x"][a]:
                e["dump_%s_min" % "xyz"[a]], e["dump_%s_max" % "xyz"[a]] = q["x"][a]
            e["dump_u%s_min" % "xyz"[a]], e["dump_u%s_max" % "xyz"[a]] = q["u"][a]
        ex.append(("particle_dump", e))
    if c.get("ts"):
        ex.append(("timestat", {"activation": 1, "period": c["ts"]["T"], "it_start": 0, "buffersize": c["ts"]["buf"]}))
    v["extra"] = ex
    ops = []
    if c.get("ts"):
        ops = ["step %d" % c["steps"]]
    else:
        for k in range(c["steps"]):
            ops += ["step 1", "dumpf i%d" % k, "dumpp q%d" % k]
    due = set()
    labels = []
    with simulate(dict(c, sp=c["sp"]), v, ops=ops) as res:
        R = os.path.join(res.d, "RESULTS")
        for k in range(c["steps"] if not c.get("ts") else 0):
            D = res.dumps("i%d" % k)
            L = res.dumps("q%d" % k)
            P = species(c, L)
            o = c.get("out")
            if o and o["lo"] <= k <= o["hi"] and (k - o["lo"]) % o["f"] == 0:
                f = {q: sim.glob(D, q) for q in EB + CUR + ["rho"]}
                rs = sum(charge(c, P[s], QE) for s in range(len(P))).max()
                rho = sum(charge(c, P[s], c["sp"][s][0] * QE) for s in range(len(P)))
                close(f["rho"], rho, 1e-10 * rs, "charge density of step %d" % k)
                f["dive"] = div(c, [f["ex"], f["ey"], f["ez"]], d, -1)
                f["divj"] = div(c, [f["jx"], f["jy"], f["jz"]], d, -1)
                f["divb"] = div(c, [f["bx"], f["by"], f["bz"]], d, 1)
                h = min(d[a] for a in ([0, 1, 2] if dim == 3 else [0, 2]))
                tol = {q: 0 for q in f}
                for q, g in (("dive", EB[:3]), ("divj", CUR), ("divb", EB[3:])):
                    tol[q] = 1e-13 * max(np.abs(f[w]).max() for w in g) / h
                for a in o["act"]:
                    q = FI[a]
                    fn = "%s%d.pxr" % (q, k)
                    due.add(fn)
                    labels.append(q)
                    p = os.path.join(R, fn)
                    if not os.path.exists(p):
                        raise Violation("no file %s (there are %r)" % (fn, sorted(os.listdir(R))[:20]))
                    b = open(p, "rb").read()
                    w = 60 + 8 * int(np.prod(f[q].shape))
                    if len(b) != w:
                        raise Violation("%s has %d bytes instead of %d" % (fn, len(b), w))
                    for x in range(3):
                        lo, hi, m = struct.unpack_from("<ddi", b, 20 * x)
                        if m != (n[x] if x != 1 or dim == 3 else 1):
                            raise Violation("%s: header gives %d cells along %s instead of %d" % (fn, m, "xyz"[x], n[x]))
                        if x == 1 and dim == 2:
                            continue
                        if abs(lo - c["org"][x]) > 1e-12 * n[x] * d[x] or abs(hi - c["org"][x] - n[x] * d[x]) > 1e-12 * n[x] * d[x]:
                            raise Violation("%s: header gives the box %.17g to %.17g along %s" % (fn, lo, hi, "xyz"[x]))
                    a3 = np.frombuffer(b[60:], "<f8").reshape(f[q].shape, order="F")
                    close(a3, f[q], tol[q], "%s of step %d in its file" % (q, k))
            for q in c["dump"]:
                if k % q["T"]:
                    continue
                fn = "s%d_it_%d" % (q["s"], k)
                due.add(fn)
                labels.append("particles")
                A = np.concatenate([g.parts(q["s"] + 1) for g in L])
                m = np.ones(len(A), bool)
                for a in range(3):
                    x = q["x"][a] or [c["org"][a], c["org"][a] + n[a] * d[a]]
                    m &= (A[:, a] > float(repr(x[0]))) & (A[:, a] < float(repr(x[1])))
                    m &= (A[:, 3 + a] > q["u"][a][0]) & (A[:, 3 + a] < q["u"][a][1])
                W = A[m][:, [0, 1, 2, 3, 4, 5, 13]]
                p = os.path.join(R, fn)
                if not os.path.exists(p):
                    raise Violation("no file %s (there are %r)" % (fn, sorted(os.listdir(R))[:20]))
                b = open(p, "rb").read()
                if len(b) != 56 * len(W):
                    raise Violation("%s has %d bytes, %d particles of %d pass the filter" % (fn, len(b), len(W), len(A)))
                G = np.frombuffer(b, "<f8").reshape(7, -1).T
                if sorted(map(tuple, G.tolist())) != sorted(map(tuple, W.tolist())):
                    raise Violation("%s: the %d particles written are not those that pass the filter" % (fn, len(W)))
                if len(W):
                    labels.append("some" if len(W) < len(A) else "all")
        if c.get("ts"):
            due.add("time_stat")
            labels.append("time_stat")
            b = open(os.path.join(R, "time_stat"), "rb").read()
            want = len([k for k in range(c["steps"]) if k % c["ts"]["T"] == 0])
            if struct.unpack_from("<i", b)[0] != 13:
                raise Violation("time_stat announces %d values" % struct.unpack_from("<i", b)[0])
            if len(b) != 12 + 13 * 8 * want:
                raise Violation("time_stat has %d bytes instead of %d: %d records" % (len(b), 12 + 104 * want, want))
            t = np.frombuffer(b[12:], "<f8").reshape(-1, 13)
            if not (np.all(np.isfinite(t)) and np.all(t >= 0) and np.all(t < 120)):
                raise Violation("time_stat holds times out of range: %r" % t[~((t >= 0) & (t < 120))][:3])
            if np.any(np.diff(t, axis=0) < 0):
                raise Violation("cumulated times decrease from one record to the next")
        here = set(os.listdir(R))
        if here != due:
            raise Violation("files %r in the output folder, expected %r" % (sorted(here - due)[:5], sorted(due - here)[:5]))
    return {"nontrivial": len(due) > 0, "labels": sorted(set(labels))}


PARTS = [Part("run3d", case(3), run, quick=70, thorough=3000, shards=4), Part("run2d", case(2), run, quick=50, thorough=2000, shards=3)]
JOBS = 6
