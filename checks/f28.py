"""F28: loading of the plasma: where the macro-particles of a deck are, how many, their weights and velocities."""
from checks.simc import *
PID = "F28"
JOBS = 6
RULE = ("A case is a generated deck (grid, process split, tiling, plasma density, up to three species with bounds, particles per cell, drift and thermal "
        "velocities, kind of distribution) of which the particles loaded at start-up are recorded: non-trivial when a species has particles in some "
        "but not all cells, or there are several processes. Distinct = distinct case parameters.")
ASSUMPTIONS = ["thermal velocities up to 0.08 c and drifts up to 0.3 c per axis, so that no particle is faster than light",
               "bounds of a species at least a tenth of a cell from the middle of a cell, where rounding decides",
               "the variance of the thermal velocity is not checked, only its mean and its bound"]


def prepare():
    sim.prepare()


@st.composite
def case(draw, dim):
    split = draw(splits(dim, True))
    n = [draw(st.integers(4 * s, 4 * s + 6)) for s in split]
    if dim == 2:
        n[1] = 0
    sp = []
    for k in range(draw(st.integers(1, 3))):
        full = draw(st.integers(0, 3)) == 0
        lo, hi = [], []
        for a in range(3):
            N = max(n[a], 1)
            x, y = draw(st.integers(-2, N - 1)), draw(st.integers(1, N + 2))
            lo.append(-1 if full else min(x, y))
            hi.append(N + 1 if full else max(x, y))
        sp.append(dict(lo=lo, hi=hi, off=[draw(st.sampled_from([0., 0., 0.3, -0.3, 0.1])) for _ in range(6)], npc=draw(st.sampled_from([1, 1, 2, 3, 5])),
                       vd=[draw(st.sampled_from([0., 0., 0.3, -0.17])) for _ in range(3)], vt=[draw(st.sampled_from([0., 0., 0.08, 1e-3])) for _ in range(3)],
                       q=draw(st.sampled_from([-1., 1., 6.])), m=draw(st.sampled_from([1., 1836., 22000.]))))
    return dict(dim=dim, split=split, n=n, d=[draw(st.sampled_from([1e-6, 0.3e-6, 2e-3])) for _ in range(3)], org=[draw(st.sampled_from([0, -3, 7.5])) for _ in range(3)],
                tiles=[draw(st.integers(1, 3)) for _ in range(3)], sp=sp, pd=draw(st.sampled_from([1, 1, 2, 3])), nlab=draw(st.sampled_from([1e23, 3e25, 1e10])),
                g0=draw(st.sampled_from([1., 1., 10.])), seed=0)


def run(c):
    dim, n, d = c["dim"], c["n"], c["d"]
    org = [c["org"][a] * d[a] for a in range(3)]
    ax = [0, 1, 2] if dim == 3 else [0, 2]
    species = []
    for k, s in enumerate(c["sp"]):
        o = dict(name="s%d" % k, mass=s["m"], charge=s["q"], nppcell=s["npc"])
        for a in range(3):
            o["%s_min" % "xyz"[a]] = org[a] + (s["lo"][a] + s["off"][a]) * d[a]
            o["%s_max" % "xyz"[a]] = org[a] + (s["hi"][a] + s["off"][3 + a]) * d[a]
            o["vdrift_%s" % "xyz"[a]] = s["vd"][a]
            o["vth_%s" % "xyz"[a]] = s["vt"][a]
        species.append(o)
    dk = mkdeck(dim, n, c["split"], d=d, org=org, tiles=c["tiles"], species=species, plasma=dict(nlab=c["nlab"], gamma0=c["g0"], pdistr=c["pd"]))
    dens = c["nlab"] * c["g0"]
    vol = np.prod([d[a] for a in ax])
    some = False
    with sim.run(dk, ["dumpp p"], int(np.prod(c["split"]))) as r:
        D = r.dumps("p")
        for k, s in enumerate(c["sp"]):
            total = 0
            W = dens * vol / s["npc"]
            for p, f in enumerate(D):
                what = "species %d of process %d" % (k + 1, p)
                lo, ln = [f["%sminl" % "xyz"[a]] for a in ax], [f.i("n" + "xyz"[a]) for a in ax]
                # cells of the species in this process
                a0, a1 = [], []
                for q, a in enumerate(ax):
                    first = int(round((lo[q] - org[a]) / d[a]))
                    # cell j is filled when its number lies between the rounded bounds
                    b0, b1 = int(round(s["lo"][a] + s["off"][a])), int(round(s["hi"][a] + s["off"][3 + a]))
                    a0.append(min(max(b0 - first, 0), ln[q]))
                    a1.append(min(max(b1 - first, a0[-1]), ln[q]))
                cells = int(np.prod([y - x for x, y in zip(a0, a1)]))
                some |= 0 < cells < int(np.prod(ln)) or len(D) > 1
                R = f.parts(k + 1)
                if len(R) != cells * s["npc"] or f.i("npart%d" % (k + 1)) != len(R):
                    raise Violation("%s: %d particles (counted %d) instead of %d in %d cells" % (what, len(R), f.i("npart%d" % (k + 1)), cells * s["npc"], cells))
                total += len(R)
                if not len(R):
                    continue
                close(R[:, 13], np.full(len(R), W), 1e-13 * W, what + ": weight")
                X = R[:, ax]
                if c["pd"] == 1:
                    pos = np.array(np.meshgrid(*[np.arange(x, y) for x, y in zip(a0, a1)], indexing="ij")).reshape(len(ax), -1).T
                    h = (np.arange(s["npc"]) + (0.5 if dim == 3 else 0.)) / s["npc"]
                    e = np.array(lo) + (pos[:, None, :] + h[None, :, None]).reshape(-1, len(ax)) * np.array(d)[ax]
                    key = lambda v: v[np.lexsort(np.round((v - np.array(lo)) / np.array(d)[ax] * 64).T)]
                    close(key(X), key(e), 1e-12 * (np.abs(lo).max() + max(d[a] * n[a] for a in ax)), what + ": positions")
                else:
                    for q, a in enumerate(ax):
                        b = lo[q] + np.array([a0[q], a1[q]]) * d[a]
                        e = 1e-12 * (abs(b).max() + d[a])
                        if X[:, q].min() < b[0] - e or X[:, q].max() > b[1] + e:
                            raise Violation("%s: positions along %s from %g to %g, outside the bounds %g to %g" %
                                            (what, "xyz"[a], X[:, q].min(), X[:, q].max(), b[0], b[1]))
                        # not crowded in a part of the region
                        if len(R) >= 60:
                            u = (X[:, q] - b[0]) / (b[1] - b[0])
                            if abs(u.mean() - 0.5) > 7 / np.sqrt(12 * len(R)) or abs((u < 0.5).mean() - 0.5) > 7 * 0.5 / np.sqrt(len(R)):
                                raise Violation("%s: mean position along %s is %g of the bounds" % (what, "xyz"[a], u.mean()))
                # velocities
                gi, U = R[:, 6], R[:, 3:6]
                close(gi, 1 / np.sqrt(1 + (U ** 2).sum(axis=1) / C ** 2), 1e-13, what + ": inverse gamma")
                V = U * gi[:, None] / C
                vd, vt = np.array(s["vd"]), np.array(s["vt"])
                if c["pd"] == 3:
                    # a given speed in a random direction about the drift
                    close(np.sqrt(((V - vd) ** 2).sum(axis=1)), np.full(len(R), vt[0]), 1e-11, what + ": speed")
                    vt = vt[[0, 0, 0]]
                elif (np.abs(V - vd) > vt * 6.8 + 1e-13).any():
                    raise Violation("%s: velocity %s for drift %s and thermal %s" % (what, V[np.argmax(np.abs(V - vd).max(axis=1))], vd, vt))
                if len(R) >= 60:
                    for q in range(3):
                        if abs(V[:, q].mean() - vd[q]) > 8 * vt[q] / np.sqrt(len(R)) + 1e-12 or (vt[q] > 0 and V[:, q].std() < 0.2 * vt[q]):
                            raise Violation("%s: velocity along %s has mean %g (drift %g) and spread %g (thermal %g)" %
                                            (what, "xyz"[q], V[:, q].mean(), vd[q], V[:, q].std(), vt[q]))
                # tiles: a particle is within half a cell of its tile
                for t, (info, rows) in f.tiles(k + 1).items():
                    for a in ax:
                        if len(rows) and (rows[:, a].min() < info[8 + 2 * a] - 0.51 * d[a] or rows[:, a].max() > info[9 + 2 * a] + 0.51 * d[a]):
                            raise Violation("%s: particles outside tile %s along %s" % (what, t, "xyz"[a]))
            g = 1
            for a in ax:
                b0, b1 = int(round(s["lo"][a] + s["off"][a])), int(round(s["hi"][a] + s["off"][3 + a]))
                g *= max(0, min(b1, n[a]) - max(b0, 0))
            if total != g * s["npc"]:
                raise Violation("species %d: %d particles on all processes instead of %d" % (k + 1, total, g * s["npc"]))
    return {"nontrivial": bool(some), "labels": ["%dD" % dim, "distribution %d" % c["pd"], "%d processes" % np.prod(c["split"])]}


PARTS = [Part("load3d", case(3), run, quick=80, thorough=2000, shards=4),
         Part("load2d", case(2), run, quick=80, thorough=2000, shards=4)]
