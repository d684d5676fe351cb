"""F17: pseudo-spectral solver against the exact solution, mode by mode, on the box each transform covers."""
from checks.whole import *
from checks.f24 import charge, div, species
PID = "F17"
RULE = ("A case is a generated grid, stencil order (0 = infinite), process split, solver mode (transforms per process, per group of processes, over the "
        "whole domain; GPSTD matrix or direct push; transposed transforms) and random global E, B, J, rho and earlier rho, pushed 1-3 steps (part push), or "
        "a whole simulation with particles, every step of which is compared with the exact solution for the deposited sources (part step). Non-trivial when "
        "the fields are non-zero and at least two axes have several cells; step: when particles move.")
ASSUMPTIONS = ["guard cells of currents equal those of the fields (as in every example deck)", "tolerance 2e-11 of the largest value"]
EB = ["ex", "ey", "ez", "bx", "by", "bz"]
SRC = ["jx", "jy", "jz", "rho", "rhoold"]


def prepare():
    sim.prepare(omp=True)


def weights(o):
    """Fornberg's staggered weights, from the Lagrange conditions (exact rationals)."""
    from fractions import Fraction as Q
    p = o // 2
    A = [[Q(2 * j - 1, 2) ** (2 * i + 1) * 2 for j in range(1, p + 1)] + [Q(1 if i == 0 else 0)] for i in range(p)]
    for i in range(p):
        k = next(r for r in range(i, p) if A[r][i] != 0)
        A[i], A[k] = A[k], A[i]
        A[i] = [x / A[i][i] for x in A[i]]
        for r in range(p):
            if r != i and A[r][i] != 0:
                A[r] = [x - A[r][i] * y for x, y in zip(A[r], A[i])]
    return [float(r[-1]) for r in A]


def wave(n, d, o, half):
    """Wave numbers of the derivative along one axis, and the half-cell shift; half: only the non-negative ones."""
    j = np.arange(n // 2 + 1) if half else np.arange(n)
    j = np.where(j > n // 2, j - n, j)
    th = 2 * np.pi * j / n
    if o == 0:
        k = th / d
        if n % 2 == 0:
            k = np.where(j == n // 2, -k, k)
    else:
        k = sum(2 / d * w * np.sin((i + 0.5) * th) for i, w in enumerate(weights(o)))
    return k, np.exp(0.5j * th)


def exact(box, d, o, dt, dim):
    """One step of the exact solution (J constant, rho linear in time) on a periodic box; box: {name: array}."""
    n = box["ex"].shape
    K = [wave(n[a], d[a], o[a], a == 0) for a in range(3)]
    if dim == 2:
        K[1] = (np.zeros(1), np.ones(1))
    sh = [(-1, 1, 1), (1, -1, 1), (1, 1, -1)]
    k = [K[a][0].reshape(sh[a]) for a in range(3)]
    up = [k[a] * K[a][1].reshape(sh[a]) for a in range(3)]          # from nodes to centres: Faraday, gradient of rho
    dn = [k[a] * np.conj(K[a][1]).reshape(sh[a]) for a in range(3)]  # from centres to nodes: Ampere
    h = {q: np.fft.rfftn(v, axes=(2, 1, 0)) for q, v in box.items()}
    kk = np.sqrt(sum(np.abs(q) ** 2 for q in k))
    w = C * dt * kk
    with np.errstate(all="ignore"):
        S = np.where(kk == 0, C * dt, np.sin(w) / kk)          # sin(kct)/k
        Q = 2 * np.where(kk == 0, 0.5 * C * dt, np.sin(w / 2) / kk) ** 2  # (1-cos)/k^2
        r1 = np.where(w < 1e-3, -1 / 6. + w * w / 120, (np.sin(w) / w - 1) / (w * w)) * (C * dt) ** 2
        r0 = np.where(w < 1e-3, -1 / 3. + w * w / 30, (np.cos(w) - np.sin(w) / w) / (w * w)) * (C * dt) ** 2
    Cc = np.cos(w)
    cross = lambda a, f, i: a[(i + 1) % 3] * f[(i + 2) % 3] - a[(i + 2) % 3] * f[(i + 1) % 3]
    E, B, J = [[h[p + q] for q in "xyz"] for p in "ebj"]
    out = {}
    for i in range(3):
        out["e" + "xyz"[i]] = (Cc * E[i] + 1j * C * S * cross(dn, B, i) - MU0 * C * S * J[i]
                               + 1j * up[i] / EPS0 * (r0 * h["rhoold"] + r1 * h["rho"]))
        out["b" + "xyz"[i]] = Cc * B[i] - 1j * S / C * cross(up, E, i) + 1j * MU0 * Q * cross(up, J, i)
    return {q: np.fft.irfftn(v, s=(n[2], n[1], n[0]), axes=(2, 1, 0)) for q, v in out.items()}


@st.composite
def case(draw):
    dim = draw(st.sampled_from([3, 3, 2]))
    mode = draw(st.sampled_from(["local", "local", "global", "hybrid"]))
    if mode == "local":
        split = draw(splits(dim))
    elif mode == "global":
        split = [1, 1, draw(st.sampled_from([1, 2, 3, 4]))]
    else:
        split = draw(splits(dim, True))
    g = [draw(st.integers(2, 4)) for _ in range(3)]
    n = [draw(st.integers(max(6, g[a] + 1) * split[a], max(10, g[a] + 4) * split[a] if split[a] > 1 else 16)) for a in range(3)]
    c = dict(dim=dim, mode=mode, split=split, g=g, n=n, d=[draw(st.sampled_from([1e-6, 0.7e-6, 2.5e-6])) for _ in range(3)],
             o=[draw(st.sampled_from([0, 2, 4, 6, 16])) for _ in range(3)], gs=draw(st.booleans()), steps=draw(st.sampled_from([1, 1, 2, 3])),
             seed=draw(SEED), omp=draw(st.sampled_from([0, 0, 2])), org=[draw(st.sampled_from([0., -3e-6])) for _ in range(3)], tr=draw(st.booleans()), ng=1, gz=0,
             mc=draw(st.sampled_from([1, 1, 0, 2])))
    if mode == "hybrid":
        c["ng"] = draw(st.sampled_from([k for k in range(1, split[2] + 1) if split[2] % k == 0]))
        c["gz"] = draw(st.sampled_from([0, g[2], g[2] + 1]))
        n[2] = max(n[2], 2 * max(c["gz"], g[2]) + 1)  # both enforced by the program
        n[1] = max(n[1], 2 * g[1] + 1)
        if split[2] == 2 and c["ng"] == 1:
            n[2] += n[2] % 2  # known finding: see known_findings.json
    return c


def solver(c):
    s = dict(l_spectral=True, g_spectral=bool(c["gs"]), norderx=c["o"][0], nordery=c["o"][1], norderz=c["o"][2])
    if c["mode"] != "local":
        s["fftw_with_mpi"] = True
        if c["tr"] and c["dim"] == 3:
            s["fftw_mpi_tr"] = True
    if c["mode"] == "hybrid":
        s.update(fftw_hybrid=True, nb_group_z=c["ng"])
    return s


def run_deck(c, ops, files, **kw):
    main = dict(nsteps=100)
    if c.get("gz"):
        main.update(ngguards_x=c["g"][0], ngguards_y=c["g"][1], ngguards_z=c["gz"])
    dk = mkdeck(c["dim"], c["n"], c["split"], d=c["d"], org=c["org"], guards=c["g"], solver=solver(c), main=main, cpu=dict(mpicom_curr=c.get("mc", 1)), species=kw.pop("species", ()))
    return sim.run(dk, ops, int(np.prod(c["split"])), files, which="omp" if c["omp"] else "drv", threads=c["omp"] or 1, timeout=120)


def boxes(c, D):
    """Parts of the grid (first cell, cells) and the box (first cell, cells, guard cells included) of the transform which covers each of them:
    per process, or per group of processes, the groups sharing the cells along z out evenly, whatever cells their processes own."""
    g = list(c["g"])
    if c["dim"] == 2:
        g[1] = 0
    if c["mode"] == "global":
        N = [c["n"][0], c["n"][1] if c["dim"] == 3 else 1, c["n"][2]]
        return [([0, 0, 0], N, ([0, 0, 0], N))]
    per = c["split"][2] // c.get("ng", 1)
    out = []
    for q in D:
        lo = [q.i("cxmin"), q.i("cymin"), q.i("czmin")]
        n = [q.i("nx"), q.i("ny"), q.i("nz")]
        gz = g[2]
        if c["dim"] == 2:
            lo[1], n[1] = 0, 1
        if c["mode"] == "hybrid" and per > 1:  # one process per group: no wider guard zone to fill
            gz = c["gz"] or g[2]
            sizes = cut(c["n"][2], c.get("ng", 1))
            k = q.i("z_coords") // per
            lo[2], n[2] = sum(sizes[:k]), sizes[k]
        gg = [g[0], g[1], gz]
        out.append((lo, n, ([lo[a] - gg[a] for a in range(3)], [n[a] + 2 * gg[a] for a in range(3)])))
    return out


def run(c):
    rng = np.random.default_rng(c["seed"])
    N = [c["n"][0], c["n"][1] if c["dim"] == 3 else 1, c["n"][2]]
    dmin = min(c["d"]) if c["dim"] == 3 else min(c["d"][0], c["d"][2])
    dt = dmin / C
    sc = dict(e=1., b=1 / C, j=EPS0 / dt, r=EPS0 / dmin)
    f = {}
    for nm in EB + SRC:
        f[nm] = rng.standard_normal(N) * sc[nm[0]]
        if rng.random() < 0.1:
            f[nm] = np.zeros(N)
    fl, ops = {}, []
    for nm, a in f.items():
        fl[nm + ".bin"] = ("f", a if c["dim"] == 3 else a)
        ops.append("loadf %s %s.bin" % (nm, nm))
    ops.append("dumpf d0")
    for s in range(c["steps"]):
        ops += ["call push_psatd_ebfield", "call efield_bcs", "call bfield_bcs", "dumpf d%d" % (s + 1)]
    with run_deck(c, ops, fl) as r:
        D = [r.dumps("d%d" % s) for s in range(c["steps"] + 1)]
    if abs(D[0][0]["dt"] - dt) > 1e-12 * dt:
        raise Violation("time step %r instead of %r" % (D[0][0]["dt"], dt))
    B = boxes(c, D[0])
    cur = {k: v for k, v in f.items()}
    memo = {}
    for s in range(c["steps"]):
        memo.clear()
        new = {k: np.full(N, np.nan) for k in EB}
        for (lo, n, (bl, bn)) in B:
            key = (tuple(bl), tuple(bn))
            if key not in memo:
                ix = np.ix_(*[(bl[a] + np.arange(bn[a])) % N[a] for a in range(3)])
                memo[key] = exact({k: v[ix] for k, v in cur.items()}, c["d"], c["o"], dt, c["dim"])
            sl = tuple(slice(lo[a] - bl[a], lo[a] - bl[a] + n[a]) for a in range(3))
            for k in EB:
                new[k][tuple(slice(lo[a], lo[a] + n[a]) for a in range(3))] = memo[key][k][sl]
        for k in EB:
            tol = 2e-11 * max(max(np.abs(new[q]).max() * (C if q[0] == "b" else 1) for q in EB), 1e-30) / (C if k[0] == "b" else 1)
            close(sim.glob(D[s + 1], k), new[k], tol, "%s after %d steps" % (k, s + 1))
        for k in SRC:
            if not np.array_equal(sim.glob(D[s + 1], k), f[k]):
                raise Violation("the field push changed " + k)
        cur.update(new)
    return {"nontrivial": sum(q > 1 for q in N) >= 2, "labels": [c["mode"], "%dD" % c["dim"], "matrix" if c["gs"] else "direct", "omp" if c["omp"] else "serial"]
            + (["transposed"] if c["tr"] and c["mode"] != "local" and c["dim"] == 3 else []) + (["groups%d" % c["ng"]] if c["mode"] == "hybrid" else [])}




@st.composite
def stepcase(draw):
    c = draw(case())
    g = 3
    p = draw(problem(c["dim"], steps=(2, 4), orders=[1, 2], split=tuple(c["split"]), nmin=6, nmax=10, npart=(1, 60)))
    n = p["n"]
    if c["mode"] == "hybrid":
        n[2] = max(n[2], 2 * max(c["gz"], p["g"][2]) + 1)
        n[1] = max(n[1], 2 * p["g"][1] + 1)
        if c["split"][2] == 2 and c["ng"] == 1:
            n[2] += n[2] % 2
    c["gz"] = 0
    o = [draw(st.sampled_from([2, 2, 4, 0]))] * 3
    p.update(jg=p["g"], spectral=dict(solver(dict(c, o=o))), o=o, norder=o[0])
    for k in ("mode", "split", "ng", "gz", "gs", "omp", "tr"):
        p[k] = c[k]
    p["v"] = {"split": list(c["split"]), "tiles": [draw(st.integers(1, 2)) for _ in range(3)], "currdepo": draw(st.sampled_from([0, 2, 3] if c["dim"] == 3 else [0, 1, 2])),
              "rhodepo": draw(st.integers(0, 2)), "which": "omp" if c["omp"] else "drv", "threads": c["omp"] or 1}
    if p["v"]["currdepo"] == 3 and len(set(p["no"])) > 1:
        p["v"]["currdepo"] = 4
    return p


def runstep(c):
    N = [c["n"][0], c["n"][1] if c["dim"] == 3 else 1, c["n"][2]]
    names, ops = ["i0"], ["dumpf i0"]
    for k in range(c["steps"]):
        names.append("i%d" % (k + 1))
        ops += ["step 1", "dumpf i%d" % (k + 1), "dumpp q%d" % (k + 1)]
    with simulate(c, c["v"], ops=ops) as res:
        prev = None
        for k, nm in enumerate(names):
            D = res.dumps(nm)
            f = {q: sim.glob(D, q) for q in EB + SRC}
            if prev is not None:
                dt = D[0]["dt"]
                P = species(c, res.dumps("q%d" % k))
                if max([np.abs(p[:, 3:6]).max() for p in P if len(p)] or [0]) > 1e6 * C:
                    raise Discard()
                rho = sum(charge(c, P[s], c["sp"][s][0] * QE) for s in range(len(P)))
                ro = sum(charge(c, P[s], abs(c["sp"][s][0]) * QE) for s in range(len(P))).max()
                close(f["rho"], rho, 1e-9 * ro, "charge density at step %d" % k)
                if not np.array_equal(f["rhoold"], prev["rho"]):
                    raise Violation("step %d: the earlier charge density is not the one of the last step" % k)
                if c["v"]["currdepo"] < 3 and k > 1:
                    e = (f["rho"] - f["rhoold"]) / dt + div(c, [f["jx"], f["jy"], f["jz"]], c["d"], -1)
                    close(e, 0 * e, 1e-8 * ro / dt, "continuity at step %d" % k)
                new, memo = {q: np.full(N, np.nan) for q in EB}, {}
                src = dict({q: prev[q] for q in EB}, **{q: f[q] for q in SRC})
                for (lo, n, (bl, bn)) in boxes(c, D):
                    key = (tuple(bl), tuple(bn))
                    if key not in memo:
                        ix = np.ix_(*[(bl[a] + np.arange(bn[a])) % N[a] for a in range(3)])
                        memo[key] = exact({q: a[ix] for q, a in src.items()}, c["d"], c["o"], dt, c["dim"])
                    sl = tuple(slice(lo[a] - bl[a], lo[a] - bl[a] + n[a]) for a in range(3))
                    for q in EB:
                        new[q][tuple(slice(lo[a], lo[a] + n[a]) for a in range(3))] = memo[key][q][sl]
                m = max(max(np.abs(new[q]).max() * (C if q[0] == "b" else 1) for q in EB), np.abs(f["rho"]).max() / EPS0 * min(c["d"]), 1e-30)
                for q in EB:
                    close(f[q], new[q], 1e-9 * m / (C if q[0] == "b" else 1), "%s at step %d" % (q, k))
            prev = f
    return {"nontrivial": moved(c), "labels": [c["mode"], "%dD" % c["dim"], "matrix" if c["gs"] else "direct", "currdepo%d" % c["v"]["currdepo"]]}


PARTS = [Part("push", case(), run, quick=64, thorough=4000, shards=8),
         Part("step", stepcase(), runstep, quick=48, thorough=3000, shards=8)]
