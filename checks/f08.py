from checks.simc import *
PID = "F08"
RULE = ("A case is one run of the program's own start-up on generated grids, guard widths, process grids, topologies and communication "
        "modes, then a generated history of E/B exchanges and J/rho reductions of arrays filled with distinct small integers (guards "
        "and shared nodes included; sums are exact): non-trivial when the process grid has more than one process.")
ASSUMPTIONS = ["every subdomain has more cells per axis than guard cells (the exchange is to the nearest neighbour only)",
               "periodic field boundaries", "MPI itself is correct"]


def prepare():
    sim.prepare()


PH = {"e": ("efield_bcs", ("ex", "ey", "ez")), "b": ("bfield_bcs", ("bx", "by", "bz")),
      "j": ("current_bcs", ("jx", "jy", "jz")), "r": ("charge_bcs", ("rho",))}


@st.composite
def case(draw, dim, big=False):
    sp = draw(splits(dim, big))
    g = [draw(st.integers(1, 4)) for _ in range(3)]
    jg = g if draw(st.booleans()) else [draw(st.integers(1, 4)) for _ in range(3)]
    n = [p * (max(a, b) + 1 + draw(st.integers(0, 3))) + draw(st.integers(0, p - 1)) for p, a, b in zip(sp, g, jg)]
    hist = draw(st.lists(st.tuples(st.sampled_from("ebjr"), st.integers(0, 2)), min_size=2, max_size=6))
    return {"dim": dim, "split": sp, "n": n, "g": g, "jg": jg, "topology": draw(st.integers(0, 2)),
            "mode": draw(st.integers(0, 2)), "switch": draw(st.booleans()), "seed": draw(st.integers(1, 10 ** 6)),
            "hist": [list(h) for h in hist]}


def index(d, name):
    a, lb = d.a[name], d.lb[name]
    N = [d.i("nx_global"), d.i("ny_global"), d.i("nz_global")]
    o = [d.i("cxmin"), d.i("cymin"), d.i("czmin")]
    return [(np.arange(a.shape[k]) + lb[k] + o[k]) % N[k] for k in range(3)], N


def run(case):
    dim = case["dim"]
    dk = mkdeck(dim, case["n"], case["split"], guards=case["g"], jguards=case["jg"],
                cpu=dict(topology=case["topology"], mpicom_curr=case["mode"]), species=[dict(name="electron")])
    ops, log = [], []
    mode = case["mode"]
    for k, (ph, m) in enumerate(case["hist"]):
        if case["switch"] and mode != 2:
            mode = m % 2
            ops.append("set mpicom_curr %d" % mode)
        name, fl = PH[ph]
        for q, f in enumerate(fl):
            ops.append("hashf %s %d" % (f, case["seed"] * 31 + k * 7 + q))
        ops += ["dumpf a%d" % k, "call " + name, "dumpf b%d" % k]
        if ph == "j":
            ops.append("set it 1")   # persistent requests are set up at step 0 only
        log.append((k, ph, fl, mode))
    np_ = int(np.prod(case["split"]))
    with sim.run(dk, ops, np_) as r:
        for k, ph, fl, mode in log:
            A, B = r.dumps("a%d" % k), r.dumps("b%d" % k)
            for f in fl:
                idx = [index(d, f) for d in A]
                N = idx[0][1]
                G = np.zeros(N)
                ys = slice(None)
                if dim == 2:
                    ys = slice(0, 1)
                if ph in "eb":
                    cover = np.zeros(N, int)
                    for d, (ii, _) in zip(A, idx):
                        c = d.cells(f)
                        o = [d.i("cxmin"), d.i("cymin"), d.i("czmin")]
                        s = tuple(slice(q, q + w) for q, w in zip(o, c.shape))
                        G[s] = c
                        cover[s] += 1
                    if (cover != 1).any():
                        raise Violation("the subdomains do not tile the grid: %s" % [(d["cxmin"], d["nx"]) for d in A])
                else:
                    for d, (ii, _) in zip(A, idx):
                        # in 2D the second y plane is a copy of the first: not a contribution
                        np.add.at(G, np.ix_(ii[0], ii[1][ys], ii[2]), d.a[f][:, ys])
                for d, (ii, _) in zip(B, idx):
                    want = G[np.ix_(ii[0], ii[1][ys], ii[2])]
                    got = d.a[f][:, ys]
                    if not np.array_equal(want, got):
                        w = tuple(int(q) for q in np.argwhere(want != got)[0])
                        raise Violation("%s after %s (mode %d), process at %s: %d cells wrong, first at index %s: %g instead of %g" % (
                            f, PH[ph][0], mode, [d.i("x_coords"), d.i("y_coords"), d.i("z_coords")], int((want != got).sum()),
                            [q + l for q, l in zip(w, d.lb[f])], got[w], want[w]))
    return {"nontrivial": np_ > 1, "labels": ["np%d" % np_, "mode%d" % case["mode"], "topo%d" % case["topology"]]}


PARTS = [Part("exchange3d", case(3), run, quick=48, thorough=1500, shards=3),
         Part("exchange2d", case(2), run, quick=32, thorough=1000, shards=2),
         Part("exchange3d_wide", case(3, True), run, quick=0, thorough=500),
         Part("exchange2d_wide", case(2, True), run, quick=0, thorough=400)]
JOBS = 5
