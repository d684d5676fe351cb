from checks.common import *
PID = "F02"
RULE = ("A case is one or two calls of one direct current-deposition routine on a generated tile: non-trivial when at least two "
        "particles with non-zero weight and velocity contribute. Distinct = distinct case parameters.")
ASSUMPTIONS = ["particles inside the tile at the new time, moving less than one cell per step", "guard cells >= 3",
               "kernels compiled only with -D DEV are out of scope"]
CTX = {}


def prepare():
    CTX["F"] = F(build.fortran_lib())


case = st.fixed_dictionaries(dict(PART_CASE, nodal=st.booleans()))
vcase = st.fixed_dictionaries(dict(PART_CASE, nodal=st.booleans(), inner=st.booleans()))


def reference(P, arrs, order, nodal, calls):
    s = 0.0 if nodal else 0.5
    out = []
    for c in range(3):
        W = []
        for k in range(P.dims):
            own = c == (k if P.dims == 3 else (0, 2)[k])
            W.append(P.shape(k, order, arrs[c], s if own else 0.0, 0.5))
        qv = calls * P.qw * P.vel[c] * P.iv
        out.append(np.einsum("p,pi,pj,pk->ijk", qv, *W, optimize=True) if P.dims == 3 else
                   np.einsum("p,pi,pk->ik", qv, *W, optimize=True))
    return out


def scale(P, calls=1):
    return max(1e-300, float(np.sum(np.abs(P.qw)[None] * np.abs(np.array(P.vel)))) * P.iv * calls)


def check(P, case, arrs, refs, S, name):
    for c in range(3):
        rel_err(arrs[c], arrs[c].prior, refs[c], S, "%s J%s" % (name, "xyz"[c]))
    P.unchanged(name)
    return {"nontrivial": int(np.count_nonzero(P.qw)) > 1 and case["mom"] != "cold",
            "labels": [case["pos"], case["mom"], "nodal" if case["nodal"] else "staggered"]}


def run_direct(name, order, algo=None):
    dims = 2 if "2d" in name else 3

    def run(case):
        P = Parts(case, dims)
        P.unchanged(name)
        S = scale(P, case["ncalls"])
        arrs = [P.arr(S, case["prior"]) for _ in range(3)]
        ga, nv = ints(P.g), ints([n + 1 for n in P.n])
        head = sum([[a.flat, ga, nv] for a in arrs], [])
        for _ in range(case["ncalls"]):
            if dims == 3:
                args = [*head, P.np, *P.x, *P.p, P.gi, P.w, P.q, *P.org, P.dt, *P.d]
                args += [case["nodal"]] if algo is None else [order, order, order, case["nodal"], algo]
            else:
                args = [*head, P.np, P.x[0]] + ([P.y] if algo is not None else []) + [P.x[1], *P.p, P.gi, P.w, P.q, *P.org, P.dt, *P.d]
                args += [case["nodal"]] if algo is None else [order, order, case["nodal"], case["lvect"], algo]
            CTX["F"](name, *args)
        return check(P, case, arrs, reference(P, arrs, order, case["nodal"], case["ncalls"]), S, name)
    return run


def run_vnr(order):
    dn = {1: (3, 3, 3), 2: (5, 5, 5), 3: (6, 5, 3)}[order]

    def run(case):
        P = Parts(case, 3)
        name = "depose_jxjyjz_vechv_vnr_%d_%d_%d" % ((order,) * 3)
        P.unchanged(name)
        S = scale(P, case["ncalls"])
        arrs = [P.arr(S, case["prior"]) for _ in range(3)]
        nc = [a + b for a, b in zip(P.n, dn)]
        ncells = int(np.prod(nc))
        cells = [Arr((1, 1), (8, ncells)) for _ in range(3)]
        for _ in range(case["ncalls"]):
            CTX["F"](name, *[c.flat for c in cells], P.np, ncells, *P.x, *P.p, P.gi, P.w, P.q, *P.org, P.dt, *P.d, *P.n, *P.g,
                     *nc, case["lvect"], case["nodal"])
        for c in cells:
            if not c.canary():
                raise Violation(name + ": wrote outside the per-cell array")
        CTX["F"]("current_reduction_%d_%d_%d" % ((order,) * 3), *[a.flat for a in arrs], *[c.flat for c in cells], ncells, *P.n,
                 *P.g, *nc)
        return check(P, case, arrs, reference(P, arrs, order, case["nodal"], case["ncalls"]), S, name)
    return run


KW = dict(quick=2500, thorough=80000)
PARTS = [Part("scalar_%d" % o, case, run_direct("depose_jxjyjz_scalar_%d_%d_%d" % (o, o, o), o), **KW) for o in (1, 2, 3)]
PARTS += [Part("vec_%d" % o, case, run_direct("depose_jxjyjz_%s_%d_%d_%d" % (v, o, o, o), o), **KW)
          for o, v in ((1, "vechvv2"), (2, "vechvv2"), (3, "vechvv3"))]
PARTS += [Part("cells_%d" % o, vcase, run_vnr(o), **KW) for o in (1, 2, 3)]
PARTS += [Part("scalar2d_%d" % o, case, run_direct("depose_jxjyjz_scalar2d_%d_%d_%d" % (o, o, o), o), **KW) for o in (1, 2, 3)]
PARTS += [Part("generic%d_%d" % (a, o), case, run_direct("depose_jxjyjz_generic", o, a), quick=600, thorough=20000)
          for a in (2, 3) for o in (1, 2, 3)]
PARTS += [Part("generic_2d_%d" % o, case, run_direct("depose_jxjyjz_generic_2d", o, 3), quick=600, thorough=20000) for o in (1, 2, 3)]
