from checks.common import *
PID = "F01"
RULE = ("A case is one call of one charge-deposition routine on a generated tile (1-3 species calls may accumulate): "
        "non-trivial when at least two particles or a prior non-zero density are present and the routine must "
        "distribute charge over several nodes. Distinct = distinct case parameters.")
ASSUMPTIONS = ["particles lie inside the tile (callers apply particle boundaries first)",
               "guard cells >= 3 (>= what the callers allocate)", "experimental kernels (DEV-only or never called) excluded"]
CTX = {}


def prepare():
    CTX["F"] = F(build.fortran_lib())


K3 = [("depose_rho_scalar_1_1_1", 1), ("depose_rho_scalar_2_2_2", 2), ("depose_rho_scalar_3_3_3", 3),
      ("depose_rho_vechvv2_1_1_1", 1), ("depose_rho_vechvv2_2_2_2", 2), ("depose_rho_vechvv4_3_3_3", 3)]
GEN3 = ["pxr_depose_rho_n"]

case3 = st.fixed_dictionaries({
    "n": st.tuples(st.integers(1, 9), st.integers(1, 9), st.integers(1, 9)), "g": st.tuples(*[st.integers(3, 5)] * 3),
    "np": NP, "seed": SEED, "pos": POSK, "lvect": LVECT, "h": SCALE, "asp": st.tuples(ASPECT, ASPECT, ASPECT),
    "org": st.tuples(*[st.sampled_from([0.0, -3.0, 17.0, -100.5])] * 3), "prior": st.booleans(), "qneg": st.booleans(),
    "wk": st.sampled_from(["one", "wide", "zero"]), "ncalls": st.integers(1, 2)})


def mk(case, dims):
    rng = np.random.default_rng(case["seed"])
    d = np.array(case["asp"][:dims]) * case["h"]
    org = np.array(case["org"][:dims]) * d
    n = list(case["n"][:dims])
    npart = case["np"]
    u = [positions(rng, case["pos"], npart, n[k]) for k in range(dims)]
    x = [pad1(org[k] + u[k] * d[k]) for k in range(dims)]
    w = {"one": np.ones(npart), "wide": 10 ** rng.uniform(-3, 6, npart), "zero": rng.integers(0, 2, npart).astype(float)}[case["wk"]]
    q = -1.602e-19 if case["qneg"] else 3.1
    return rng, d, org, n, x, pad1(w), q


def check_rho(arr, prior, ref, scale, what, tol=2e-11):
    if not arr.canary():
        raise Violation(what + ": memory outside the density array was written")
    err = np.abs(arr.v - prior - ref)
    lim = tol * scale + 4e-15 * np.abs(prior)
    if not np.all(err <= lim):
        i = np.unravel_index(np.nanargmax(np.where(np.isnan(err), np.inf, err)), err.shape)
        raise Violation("%s: node %s got %r expected %r (prior %r)" % (
            what, [int(a + l) for a, l in zip(i, arr.lo)], float(arr.v[i]), float(ref[i] + prior[i]), float(prior[i])))


def run3(name, order):
    def run(case):
        rng, d, org, n, x, w, q = mk(case, 3)
        g = case["g"]
        arr = Arr([-a for a in g], [a + b for a, b in zip(n, g)])
        iv = 1.0 / np.prod(d)
        S = np.sum(np.abs(q * w)) * iv
        prior = (rng.normal(size=arr.v.shape) * S if case["prior"] else np.zeros(arr.v.shape))
        arr.v[...] = prior
        for _ in range(case["ncalls"]):
            if name == "pxr_depose_rho_n":
                nn = order(case)
                CTX["F"](name, arr.flat, case["np"], *x, w, q, *map(float, org), *map(float, d), *n, *g, *nn, True, False)
            else:
                nn = (order,) * 3
                CTX["F"](name, arr.flat, case["np"], *x, w, q, *map(float, org), *map(float, d), *n, *g, case["lvect"])
        W = [weights(nn[k], (x[k] - org[k]) / d[k], arr.nodes(k)) for k in range(3)]
        ref = case["ncalls"] * np.einsum("p,pi,pj,pk->ijk", q * w * iv, *W, optimize=True)
        check_rho(arr, prior, ref, S, name)
        tot = (arr.v - prior).sum() / iv
        Q = case["ncalls"] * np.sum(q * w)
        if abs(tot - Q) > 1e-10 * (np.sum(np.abs(q * w)) + np.abs(prior).sum() / iv * 1e-4):
            raise Violation("%s: total charge %r instead of %r" % (name, tot, Q))
        return {"nontrivial": (case["np"] > 1 or case["prior"]) and bool(np.any(w)), "labels": [case["pos"], "rem" if case["np"] % case["lvect"] else "full"]}
    return run


def case2():
    return case3


def run2(name):
    def run(case):
        rng, d, org, n, x, w, q = mk(case, 2)
        g = case["g"][:2]
        nn = case["no2"]
        arr = Arr([-a for a in g], [a + b for a, b in zip(n, g)])
        iv = 1.0 / np.prod(d)
        S = np.sum(np.abs(q * w)) * iv
        prior = (rng.normal(size=arr.v.shape) * S if case["prior"] else np.zeros(arr.v.shape))
        arr.v[...] = prior
        y = pad1(rng.normal(size=case["np"]))
        u, gi = momenta(rng, "wide", case["np"])
        dt = case["cdt"] * float(min(d)) / C
        for _ in range(case["ncalls"]):
            if name == "pxr_depose_rho_n_2dxz":
                CTX["F"](name, arr.flat, case["np"], x[0], y, x[1], w, q, *map(float, org), *map(float, d), *n, *g, *nn,
                         True, False, False, 0)
                xs = x
            else:
                CTX["F"](name, arr.flat, case["np"], x[0], x[1], pad1(u[0]), pad1(u[1]), pad1(u[2]), pad1(gi), w, q,
                         *map(float, org), dt, *map(float, d), *n, *g, *nn, True, False)
                xs = [x[0] - u[0] * gi * dt, x[1] - u[2] * gi * dt]
        W = [weights(nn[k], (xs[k] - org[k]) / d[k], arr.nodes(k)) for k in range(2)]
        ref = case["ncalls"] * np.einsum("p,pi,pk->ik", q * w * iv, *W, optimize=True)
        check_rho(arr, prior, ref, S, name)
        return {"nontrivial": (case["np"] > 1 or case["prior"]) and bool(np.any(w)), "labels": [case["pos"], "o%d%d" % tuple(nn)]}
    return run


def _with(extra):
    return st.tuples(case3, st.fixed_dictionaries(extra)).map(lambda t: {**t[0], **t[1]})


ORD = st.integers(1, 3)
PARTS = [Part(k, case3, run3(k, o), quick=2500, thorough=30000) for k, o in K3]
PARTS += [Part("rho_n", _with({"no": st.tuples(ORD, ORD, ORD)}), run3("pxr_depose_rho_n", lambda c: tuple(c["no"])), quick=2500, thorough=30000)]
PARTS += [Part(k, _with({"no2": st.tuples(ORD, ORD), "cdt": st.floats(0.05, 0.99)}), run2("pxr_" + k), quick=2500, thorough=30000)
          for k in ("depose_rho_n_2dxz", "depose_rhoold_n_2dxz")]
