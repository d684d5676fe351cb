"""F30: moving the box: the limits of grid, processes and tiles follow, and the simulation is the one it would have been elsewhere."""
from checks.whole import *
PID = "F30"
JOBS = 6
RULE = ("A case is a generated periodic problem, process split and tiling, and a history of steps and displacements of the box: either the particles are "
        "displaced with the box and the run is compared with the one that was never moved (ride), or they stay and the particle boundary conditions are "
        "applied after each displacement of less than a cell per axis (window). Non-trivial when a displacement is not zero and particles move or change "
        "owner. Distinct = distinct case parameters.")
ASSUMPTIONS = ["between two applications of the boundary conditions the box moves less than one cell per axis, as particles do",
               "a particle on a limit is on either side, by rounding"]
AX = "xyz"


def prepare():
    sim.prepare()


@st.composite
def ride(draw, dim):
    split = draw(splits(dim, True))
    c = draw(problem(dim, split=split, steps=(1, 3), nmax=12))
    c["split"] = split
    c["tiles"] = [draw(st.integers(1, 2)) for _ in range(3)]
    for k in range(3):
        c["n"][k] = max(c["n"][k], split[k] * c["tiles"][k] * 4) if dim == 3 or k != 1 else c["n"][k]
    mv = st.one_of(st.floats(-3, 3), st.sampled_from([0., 1., -1., 200.]))
    c["moves"] = [[draw(mv) for _ in range(3)] for _ in range(draw(st.integers(1, 3)))]
    c["after"] = draw(st.integers(1, 2))
    return c


def run_ride(c):
    v = dict(split=c["split"], tiles=c["tiles"])
    ax = [0, 1, 2] if c["dim"] == 3 else [0, 2]
    d = np.array(c["d"])
    a_ops, b_ops, tot = [], [], np.zeros(3)
    for m in c["moves"]:
        w = [m[k] * d[k] if k in ax else 0. for k in range(3)]
        tot += w
        a_ops.append("step %d" % c["steps"])
        b_ops += ["step %d" % c["steps"], "moveb %.17g %.17g %.17g 1" % tuple(w)]
    fin = ["step %d" % c["after"], "dumpf end", "dumpp pend"]
    with simulate(c, v, ops=a_ops + fin) as r:
        a = state(c, r)
        lim = [[q[x] for x in limits(ax)] for q in r.dumps("end")]
    with simulate(c, v, ops=b_ops + fin) as r:
        b = state(c, r)
        got = [[q[x] for x in limits(ax)] for q in r.dumps("end")]
    n = len(limits(ax)) // len(ax)
    want = np.array(lim) + np.repeat(tot[ax], n)[None, :]
    close(got, want, 1e-11 * (np.abs(want).max() + np.abs(tot).max()), "limits after the displacements")
    for k in ax:
        b["P"][:, k] -= tot[k]
    far = max(1.0, np.abs(tot / d).max() / 10)
    compare(c, a, b, "the run displaced by %r cells" % [float(x) for x in tot / d], tol=1e-8 * far)
    return {"nontrivial": bool(np.any(tot[ax]) and moved(c)), "labels": ["%dD" % c["dim"], "np%d" % np.prod(c["split"])] + (["tiles"] if max(c["tiles"]) > 1 else [])}


def limits(ax):
    return [AX[k] + s for k in ax for s in ("min", "max", "minl", "maxl", "min_part", "max_part", "minl_part", "maxl_part", "gmin", "gmax", "gminl", "gmaxl")]


@st.composite
def window(draw, dim):
    sp = draw(splits(dim, True))
    t = [draw(st.integers(1, 3)) for _ in range(3)]
    n = [p * draw(st.integers(max(4, 4 * q), 4 * q + 5)) + draw(st.integers(0, p - 1)) for p, q in zip(sp, t)]
    mv = st.one_of(st.floats(-0.95, 0.95), st.sampled_from([0., 0.5, -0.5]))
    return {"dim": dim, "split": sp, "tiles": t, "n": n, "np": draw(st.integers(1, 200)), "d": [draw(st.floats(0.3, 3)) * 1e-6 for _ in range(3)],
            "org": [draw(st.sampled_from([0., -1., 1.])) * n[k] * 1e-6 for k in range(3)], "seed": draw(st.integers(0, 2 ** 31)),
            "moves": [[draw(mv) for _ in range(3)] for _ in range(draw(st.integers(1, 6)))]}


def run_window(c):
    dim, n, d, org, sp, N = c["dim"], np.array(c["n"]), np.array(c["d"]), np.array(c["org"]), c["split"], c["np"]
    ax = [0, 1, 2] if dim == 3 else [0, 2]
    rng = np.random.default_rng(c["seed"])
    L = n * d
    rows = np.zeros((N, 11))
    rows[:, 0] = rng.integers(1, 3, N)
    for k in ax:
        rows[:, 1 + k] = org[k] + rng.random(N) * L[k] * (1 - 1e-12)
    rows[:, 4:7] = rng.normal(size=(N, 3))
    rows[:, 7] = rng.random(N)
    rows[:, 8] = rng.random(N) + 0.5
    rows[:, 9] = np.arange(1, N + 1)
    ops = ["loadp p0.bin"]
    for r, m in enumerate(c["moves"]):
        w = [m[k] * d[k] if k in ax else 0. for k in range(3)]
        ops += ["moveb %.17g %.17g %.17g 0" % tuple(w), "call particle_bcs" + ("_2d" if dim == 2 else ""), "dumpp o%d" % r]
    dk = mkdeck(dim, c["n"], sp, d=c["d"], org=c["org"], tiles=c["tiles"], guards=(3, 3, 3), species=[dict(name="s0"), dict(name="s1")])
    tot = np.zeros(3)
    owner, changed = {}, False
    with sim.run(dk, ops, int(np.prod(sp)), {"p0.bin": ("p", rows)}) as res:
        for r, m in enumerate(c["moves"]):
            tot = tot + np.array([m[k] * d[k] if k in ax else 0. for k in range(3)])
            eps = 1e-11 * (np.abs(org) + L + np.abs(tot))
            seen = np.zeros(N, int)
            D = res.dumps("o%d" % r)
            for k in ax:
                for q in D:
                    a = org[k] + tot[k]
                    if abs(q[AX[k] + "min"] - a) > eps[k] or abs(q[AX[k] + "max"] - a - L[k]) > eps[k]:
                        raise Violation("the box is [%r, %r] along %s, should be [%r, %r]" % (q[AX[k] + "min"], q[AX[k] + "max"], AX[k], a, a + L[k]))
            for pr, q in enumerate(D):
                for s in (1, 2):
                    for tix, (info, rw) in q.tiles(s).items():
                        for p in rw:
                            i = int(round(p[14])) - 1
                            if not 0 <= i < N:
                                raise Violation("a particle with unknown attributes appeared: %r" % (list(p),))
                            seen[i] += 1
                            who = "particle %d, displacement %d (total %r cells)" % (i + 1, r + 1, [float(x) for x in tot / d])
                            if rows[i, 0] != s or p[13] != rows[i, 8] or not np.array_equal(p[3:7], rows[i, 4:8]):
                                raise Violation("%s: its attributes changed" % who)
                            changed |= owner.setdefault(i, (pr, tix)) != (pr, tix)
                            for k in ax:
                                b0, b1 = q[AX[k] + "minl"], q[AX[k] + "maxl"]
                                if not b0 - eps[k] <= p[k] <= b1 + eps[k]:
                                    raise Violation("%s: stored at %r by the process that holds [%r, %r] along %s" % (who, list(p[:3]), b0, b1, AX[k]))
                                t0, t1 = info[8 + 2 * k], info[9 + 2 * k]
                                if not t0 - eps[k] <= p[k] <= t1 + eps[k]:
                                    raise Violation("%s: stored at %r in tile %s which holds [%r, %r] along %s" % (who, list(p[:3]), tix, t0, t1, AX[k]))
                                e = (p[k] - rows[i, 1 + k]) / L[k]
                                if abs(e - round(e)) * L[k] > eps[k]:
                                    raise Violation("%s: its place along %s changed from %r to %r, not by periods of the box" % (who, AX[k], rows[i, 1 + k], p[k]))
            if not np.all(seen == 1):
                raise Violation("displacement %d: particles lost or doubled: %r" % (r + 1, [(int(i) + 1, int(seen[i])) for i in np.nonzero(seen != 1)[0][:5]]))
    return {"nontrivial": bool(changed), "labels": ["%dD" % dim, "np%d" % np.prod(sp), "moves%d" % len(c["moves"])]}


PARTS = [Part("ride3d", ride(3), run_ride, quick=36, thorough=1200, shards=3, timeout=200), Part("ride2d", ride(2), run_ride, quick=36, thorough=1200, shards=3, timeout=200),
         Part("window3d", window(3), run_window, quick=40, thorough=1500, shards=3, timeout=200), Part("window2d", window(2), run_window, quick=40, thorough=1500, shards=3, timeout=200)]
