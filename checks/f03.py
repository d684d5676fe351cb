from checks.common import *
PID = "F03"
RULE = ("A case is one or two calls of one charge-conserving deposition routine on a generated tile: non-trivial when at least two "
        "weighted particles move, and (labelled) some of them change cell.")
ASSUMPTIONS = ["displacement below one cell per step (the time step is below the light crossing time of the smallest cell)",
               "the current array has as many guard cells as the callers allocate (>= order + 1)",
               "kernels compiled only with -D DEV are out of scope"]
CTX = {}


def prepare():
    CTX["F"] = F(build.fortran_lib())


case = st.fixed_dictionaries(PART_CASE)
ORD = st.integers(1, 3)


def widx(k, dims):
    return k if dims == 3 else (0, 2)[k]


def expected(P, arrs, no, calls):
    """Esirkepov's decomposition with the reference shapes: W built from S0 and DS."""
    D = P.dims
    S1 = [P.shape(k, no[k], arrs[0]) for k in range(D)]
    S0 = [P.shape(k, no[k], arrs[0], 0.0, 1.0) for k in range(D)]
    DS = [b - a for a, b in zip(S0, S1)]
    q = calls * P.qw * P.iv
    out = []
    for c in range(3):
        along = c if D == 3 else {0: 0, 2: 1}.get(c)
        if along is None:  # 2D, out-of-plane component
            W = (np.einsum("pi,pk->pik", S0[0], S0[1]) + 0.5 * np.einsum("pi,pk->pik", DS[0], S0[1]) +
                 0.5 * np.einsum("pi,pk->pik", S0[0], DS[1]) + np.einsum("pi,pk->pik", DS[0], DS[1]) / 3.0)
            out.append(np.einsum("p,pik->ik", q * P.vel[1], W))
            continue
        oth = [k for k in range(D) if k != along]
        flux = -np.cumsum(DS[along], axis=1) * (P.d[along] / P.dt)
        if D == 2:
            o = oth[0]
            T = S0[o] + 0.5 * DS[o]
            out.append(np.einsum("p,pi,pk->ik", q, flux, T) if along == 0 else np.einsum("p,pi,pk->ik", q, T, flux))
        else:
            a, b = oth
            T = (np.einsum("pi,pj->pij", S0[a], S0[b]) + 0.5 * np.einsum("pi,pj->pij", DS[a], S0[b]) +
                 0.5 * np.einsum("pi,pj->pij", S0[a], DS[b]) + np.einsum("pi,pj->pij", DS[a], DS[b]) / 3.0)
            ex = {0: "p,pi,pjk->ijk", 1: "p,pj,pik->ijk", 2: "p,pk,pij->ijk"}[along]
            out.append(np.einsum(ex, q, flux, T, optimize=True))
    return out, S0, S1


def run(name, order, kind):
    dims = 2 if kind.startswith("2d") else 3

    def f(case):
        P = Parts(case, dims)
        no = [order] * dims if order else list(case["no"])[:dims]
        P.g = [max(g, o + 1) for g, o in zip(P.g, no)]
        P.unchanged(name)
        calls = case["ncalls"]
        V = max(float(np.max(np.abs(np.array(P.vel)))), float(max(P.d)) / P.dt)
        S = max(1e-300, float(np.sum(np.abs(P.qw))) * P.iv * V * calls)
        arrs = [P.arr(S, case["prior"]) for _ in range(3)]
        ga, nv = ints(P.g), ints([n + 1 for n in P.n])
        head = sum([[a.flat, ga, nv] for a in arrs], [])
        mid = [*P.p, P.gi, P.w, P.q, *P.org, P.dt, *P.d]
        if kind == "3d":
            args = [*head, P.np, *P.x, *mid]
        elif kind == "3dn":
            args = [*head, P.np, *P.x, *mid, *no, True, False]
        elif kind == "3dg":
            args = [*head, P.np, *P.x, *mid, *no, False, case["algo"]]
        elif kind == "2d":
            args = [*head, P.np, P.x[0], P.x[1], *mid, case["lvect"], True, False, False, 0]
        elif kind == "2dn":
            args = [*head, P.np, P.x[0], P.y, P.x[1], *mid, *no, True, False, False, 0]
        elif kind == "2dg":
            args = [*head, P.np, P.x[0], P.y, P.x[1], *mid, *no, False, case["lvect"], case["algo"]]
        for _ in range(calls):
            CTX["F"](name, *args)
        ref, S0, S1 = expected(P, arrs, no, calls)
        for c in range(3):
            rel_err(arrs[c], arrs[c].prior, ref[c], S, "%s J%s" % (name, "xyz"[c]))
        P.unchanged(name)
        # discrete continuity, with densities from the reference shapes
        ein = "p,pi,pj,pk->ijk" if dims == 3 else "p,pi,pk->ik"
        q = calls * P.qw * P.iv
        drho = np.einsum(ein, q, *S1, optimize=True) - np.einsum(ein, q, *S0, optimize=True)
        div = np.zeros_like(drho)
        for k in range(dims):
            J = arrs[widx(k, dims)]
            dj = J.v - J.prior
            div += np.diff(dj, axis=k, prepend=0.0) / P.d[k]
        err = np.max(np.abs(div + drho / P.dt))
        lim = 5e-10 * S / float(min(P.d)) * (20 if case["prior"] else 1)
        if not err <= lim:
            raise Violation("%s: continuity broken by %g (allowed %g)" % (name, err, lim))
        for c in range(3):
            tot = (arrs[c].v - arrs[c].prior).sum() / P.iv
            want = calls * float(np.sum(P.qw * P.vel[c]))
            if not abs(tot - want) <= 2e-9 * S / P.iv * (20 if case["prior"] else 1):
                raise Violation("%s: total J%s is %r, q w v is %r" % (name, "xyz"[c], tot, want))
        u0 = [np.floor(P.u[k] - P.vel[widx(k, dims)] * P.dt / P.d[k]) for k in range(dims)]
        cross = sum(int(np.sum(a != np.floor(b))) for a, b in zip(u0, P.u))
        return {"nontrivial": int(np.count_nonzero(P.qw)) > 1 and case["mom"] != "cold",
                "labels": [case["pos"], "crossing" if cross else "same cell"]}
    return f


def w(extra):
    return st.fixed_dictionaries(dict(PART_CASE, **extra))


KW = dict(quick=2500, thorough=60000)
N3 = {"no": st.tuples(ORD, ORD, ORD)}
PARTS = [Part("esir3d_%d" % o, case, run("depose_jxjyjz_esirkepov_%d_%d_%d" % (o, o, o), o, "3d"), **KW) for o in (1, 2, 3)]
PARTS += [Part("esir3d_n", w(N3), run("pxr_depose_jxjyjz_esirkepov_n", 0, "3dn"), quick=3000, thorough=90000)]
PARTS += [Part("esir2d_%d" % o, case, run("pxr_depose_jxjyjz_esirkepov2d_%d_%d" % (o, o), o, "2d"), **KW) for o in (1, 2, 3)]
PARTS += [Part("esir2d_n", w(N3), run("pxr_depose_jxjyjz_esirkepov2d_n", 0, "2dn"), quick=3000, thorough=90000)]
PARTS += [Part("generic3d", w(dict(N3, algo=st.sampled_from([0, 1]))), run("depose_jxjyjz_generic", 0, "3dg"), quick=2500, thorough=60000)]
PARTS += [Part("generic2d", w(dict(N3, algo=st.sampled_from([0, 1, 2]))), run("depose_jxjyjz_generic_2d", 0, "2dg"), quick=2500, thorough=60000)]
