from checks.whole import *
PID = "F24"
RULE = ("A case is a generated periodic particle-in-cell problem (2D or 3D, shape orders, 1-3 species, random fields), process split, tiling and "
        "charge-conserving deposition routine, run for 1-6 steps with the state recorded after every step; or a problem whose exact solution is known "
        "(particles at rest without fields, opposite charges moving together): non-trivial when particles move, or when the exact solution is compared.")
ASSUMPTIONS = ["differences below 1e-9 of the largest charge density or divergence are rounding", "second-order field solver (the one for which the deposition is exact)"]


def prepare():
    sim.prepare()


def shape(no, x):
    """Nodes and weights of a B-spline of the given order at x (cells)."""
    if no == 1:
        i = np.floor(x); f = x - i
        return i, [1 - f, f]
    if no == 2:
        i = np.floor(x + 0.5); f = x - i
        return i - 1, [0.5 * (0.5 - f) ** 2, 0.75 - f ** 2, 0.5 * (0.5 + f) ** 2]
    i = np.floor(x); f = x - i
    return i - 1, [(1 - f) ** 3 / 6, 2 / 3 - f ** 2 * (1 - f / 2), 2 / 3 - (1 - f) ** 2 * (1 - (1 - f) / 2), f ** 3 / 6]


def charge(c, P, q):
    """Charge density of the particles on the nodes of the periodic box."""
    ax = [0, 1, 2] if c["dim"] == 3 else [0, 2]
    n = [c["n"][0], c["n"][1] if c["dim"] == 3 else 1, c["n"][2]]
    rho = np.zeros(n)
    vol = np.prod([c["d"][k] for k in ax])
    sh = {}
    for k in ax:
        sh[k] = shape(c["no"][k], (P[:, k] - c["org"][k]) / c["d"][k])
    one = (np.zeros(len(P)), [np.ones(len(P))])
    s = [sh.get(k, one) for k in range(3)]
    for a in range(len(s[0][1])):
        for b in range(len(s[1][1])):
            for e in range(len(s[2][1])):
                np.add.at(rho, tuple((s[k][0] + o).astype(int) % n[k] for k, o in ((0, a), (1, b), (2, e))), q * P[:, 13] * s[0][1][a] * s[1][1][b] * s[2][1][e] / vol)
    return rho


def div(c, f, d, sgn):
    """Centred divergence on the staggered grid: sgn -1 at the nodes, +1 at the cell centres."""
    r = 0
    for k in ([0, 1, 2] if c["dim"] == 3 else [0, 2]):
        r = r + (f[k] - np.roll(f[k], 1, k) if sgn < 0 else np.roll(f[k], -1, k) - f[k]) / d[k]
    return r


def species(c, D):
    out = []
    for s in range(len(c["sp"])):
        P = np.concatenate([q.parts(s + 1) for q in D])
        out.append(P[np.argsort(P[:, 14], kind="stable")])
    return out


@st.composite
def case(draw, dim, kind):
    s = draw(splits(dim, False))
    c = draw(problem(dim, split=s, steps=(1, 6)))
    v = {"split": list(s), "tiles": [draw(st.integers(1, 3)) for _ in range(3)], "partcom": draw(st.integers(0, 2)),
         "fg_p_pp_separated": draw(st.integers(0, 2)), "currdepo": draw(st.sampled_from([0, 1, 2] if dim == 2 else [0, 1, 2, 6])),
         "fieldgathe": draw(st.integers(0, 2)), "rhodepo": draw(st.integers(0, 2)), "mpicom_curr": draw(st.integers(0, 1)),
         "topology": draw(st.integers(0, 2))}
    if draw(st.integers(0, 3)) == 0:
        v["sorting"] = draw(sorting())
    c = dict(c, v=v, norder=2, kind=kind)
    if kind == "gauss":
        c["hot"] = draw(st.sampled_from([0.01, 0.3, 1., 30.]))
    elif kind == "rest":
        c.update(hot=0., amp=0.)
    else:
        N = draw(st.integers(1, 80))
        c.update(amp=0., hot=draw(st.sampled_from([0.01, 1., 30.])), sp=[[-1., 1., N], [1., draw(st.sampled_from([1., 10.])), N]])
    return c


def run(c):
    v = c["v"]
    ax = [0, 1, 2] if c["dim"] == 3 else [0, 2]
    names, ops = ["i0"], ["dumpf i0", "dumpp q0"]
    for k in range(c["steps"]):
        names.append("i%d" % (k + 1))
        ops += ["step 1", "dumpf i%d" % (k + 1), "dumpp q%d" % (k + 1)]
    files = None
    if c["kind"] == "pairs":  # the second species sits on the first one and moves with it
        r, _ = setup(c)
        m = {int(p[9]): p for p in r if p[0] == 1}
        for p in r:
            if p[0] == 2:
                o = m[int(p[9]) - 10000]
                p[1:9] = o[1:9]
        files = {"p0.bin": ("p", r)}
    d = c["d"]
    with simulate(c, v, ops=ops, files=files) as res:
        st0 = None
        for k, nm in enumerate(names):
            D = res.dumps(nm)
            f = {q: sim.glob(D, q) for q in EB + CUR}
            P = species(c, res.dumps("q%d" % k))
            dt = D[0]["dt"]
            dt = float(np.ravel(dt)[0])
            rho = sum(charge(c, P[s], c["sp"][s][0] * QE) for s in range(len(P)))
            ro = sum(charge(c, P[s], QE) for s in range(len(P)))
            gE = div(c, [f["ex"], f["ey"], f["ez"]], d, -1) - rho / EPS0
            gB = div(c, [f["bx"], f["by"], f["bz"]], d, 1)
            cnt = [len(p) for p in P]
            Q = [np.sort(p[:, 13]).tolist() for p in P]
            if k == 0:
                st0 = (gE, gB, cnt, Q, f, P)
                mE = np.abs(ro).max() / EPS0 + max(np.abs(f[q]).max() for q in EB[:3]) / min(d[a] for a in ax)
                mB = max(np.abs(f[q]).max() for q in EB[3:]) / min(d[a] for a in ax) + mE / C
                if cnt != [s[2] for s in c["sp"]]:
                    raise Violation("loaded %r particles, %r are there" % ([s[2] for s in c["sp"]], cnt))
                continue
            what = "after %d steps with %r: " % (k, v)
            mE = max(mE, np.abs(ro).max() / EPS0 + max(np.abs(f[q]).max() for q in EB[:3]) / min(d[a] for a in ax))
            mB = max(mB, max(np.abs(f[q]).max() for q in EB[3:]) / min(d[a] for a in ax) + mE / C)
            if cnt != st0[2] or Q != st0[3]:
                raise Violation(what + "%r particles with their weights became %r" % (st0[2], cnt))
            close(gE, st0[0], 1e-9 * mE, what + "div E - rho/eps0 against its initial value")
            close(gB, st0[1], 1e-9 * mB, what + "div B against its initial value")
            if c["kind"] == "gauss":
                continue
            js = jscale(c)
            lim = 0. if c["kind"] == "rest" else 1e-9
            for q in CUR:
                close(f[q], np.zeros_like(f[q]), lim * js, what + q + " of charges that make no current")
            for q in EB:
                close(f[q], np.zeros_like(f[q]), lim * js * dt * k / EPS0 / (1 if q[0] == "e" else C), what + q + " without sources")
            for s, p in enumerate(P):
                p0 = st0[5][s]
                if c["kind"] == "rest":
                    if not np.array_equal(p[:, [q for q in range(7) if q != 1 or c["dim"] == 3]], p0[:, [q for q in range(7) if q != 1 or c["dim"] == 3]]):
                        raise Violation(what + "a particle at rest without fields moved")
                    continue
                close(p[:, 3:6], p0[:, 3:6], 1e-8 * C * max(c["hot"], 1e-2), what + "momentum of a free particle")
                for a in ax:
                    e = p[:, a] - p0[:, a] - p0[:, 3 + a] / np.sqrt(1 + (p0[:, 3:6] ** 2).sum(1) / C ** 2) * dt * k
                    L = c["n"][a] * d[a]
                    e = e - np.round(e / L) * L
                    close(e, np.zeros_like(e), 1e-8 * d[a], what + "free motion along %s" % "xyz"[a])
    return {"nontrivial": moved(c) or c["kind"] != "gauss", "labels": ["currdepo%d" % v["currdepo"], "order%d%d%d" % tuple(c["no"]), "steps%d" % c["steps"]]}


PARTS = [Part("gauss3d", case(3, "gauss"), run, quick=40, thorough=2500, shards=3), Part("gauss2d", case(2, "gauss"), run, quick=30, thorough=2000, shards=2),
         Part("rest3d", case(3, "rest"), run, quick=6, thorough=300), Part("rest2d", case(2, "rest"), run, quick=6, thorough=300),
         Part("pairs3d", case(3, "pairs"), run, quick=14, thorough=600), Part("pairs2d", case(2, "pairs"), run, quick=12, thorough=600)]
JOBS = 6
