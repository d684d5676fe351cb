from checks.common import *
PID = "F26"
RULE = ("A case is one call of a transformation routine on generated fields or particles: non-trivial when the boost velocity is "
        "not zero and at least one record is transformed. Distinct = distinct case parameters.")
ASSUMPTIONS = ["boosts along z (the only direction the routines offer), |beta| < 0.9999", "the two snapshots of a particle "
               "are at different times in the target frame (otherwise its interpolation is undefined)"]
CTX = {}


def prepare():
    CTX["F"] = F(build.fortran_lib())


def boost(beta):
    return 1.0 / math.sqrt(1.0 - beta * beta), beta


def eb(E, B, be, ga):
    """Fields in the frame in which the moving frame has velocity +beta c e_z: independent formula via the field tensor."""
    n = E.shape[1:]
    Fm = np.zeros((4, 4) + n)
    Ec = E / C
    for i in range(3):
        Fm[0, i + 1] = -Ec[i]
        Fm[i + 1, 0] = Ec[i]
    Fm[1, 2], Fm[2, 1] = -B[2], B[2]
    Fm[1, 3], Fm[3, 1] = B[1], -B[1]
    Fm[2, 3], Fm[3, 2] = -B[0], B[0]
    L = np.eye(4)
    L[0, 0] = L[3, 3] = ga
    L[0, 3] = L[3, 0] = ga * be
    G = np.einsum("ab,cd,bd...->ac...", L, L, Fm)
    return np.array([G[i + 1, 0] * C for i in range(3)]), np.array([-G[2, 3], G[1, 3], -G[1, 2]]), L


def close(a, b, scale, what, tol=1e-12):
    e = np.abs(np.asarray(a) - b)
    if not np.all(e <= tol * scale):
        i = int(np.argmax(np.where(np.isnan(e), np.inf, e)))
        raise Violation("%s: record %d is %r, expected %r" % (what, i, float(np.ravel(a)[i]), float(np.ravel(np.broadcast_to(b, np.shape(a)))[i])))


def run_grid(dim):
    def run(c):
        rng = np.random.default_rng(c["seed"])
        n = c["n"][:dim - 1]
        N = int(np.prod(n))
        be = c["beta"]
        ga, _ = boost(be)
        E = rng.normal(size=(3, N)) * 10 ** c["le"]
        B = rng.normal(size=(3, N)) * 10 ** c["le"] / C * (0 if c["zero"] == "B" else 1)
        if c["zero"] == "E":
            E[:] = 0
        J = rng.normal(size=(3, N)) * 10 ** c["lj"]
        rho = rng.normal(size=N) * 10 ** c["lj"] / C
        buf = np.full(10 * N + 64, -8e55)
        f = buf[32:32 + 10 * N].reshape((10, N), order="F")
        f[0:3], f[3:6], f[6:9], f[9] = E, B, J, rho
        f0 = f.copy()

        def call(b):
            g, _ = boost(b)
            CTX["F"]("__diagnostics_MOD_transform_lorentz%dd" % dim, 10, *n, f, g, b * C, b / C)
        call(be)
        if not (np.all(buf[:32] == -8e55) and np.all(buf[-32:] == -8e55)):
            raise Violation("memory outside the fields was written")
        E2, B2, L = eb(E, B, be, ga)
        se = ga * (np.max(np.abs(E)) + C * np.max(np.abs(B))) + 1e-300
        J4 = np.einsum("ab,b...->a...", L, np.array([rho * C, *J]))
        sj = ga * np.max(np.abs(J4)) + 1e-300
        nm = ["Ex", "Ey", "Ez", "Bx", "By", "Bz", "Jx", "Jy", "Jz", "rho"]
        for k in range(3):
            close(f[k], E2[k], se, nm[k])
            close(f[3 + k], B2[k], se / C, nm[3 + k])
            close(f[6 + k], J4[1 + k], sj, nm[6 + k])
        close(f[9], J4[0] / C, sj / C, "rho")
        inv = lambda E, B: (np.sum(E * E, 0) - C * C * np.sum(B * B, 0), np.sum(E * B, 0))
        a, b = inv(E, B), inv(f[0:3], f[3:6])
        close(b[0], a[0], se * se, "E^2-c^2B^2", 1e-10)
        close(b[1], a[1], se * se / C, "E.B", 1e-10)
        call(-be)
        for k in range(10):
            sc = ga * ga * (np.max(np.abs(f0[0:3])) + C * np.max(np.abs(f0[3:6])) if k < 6 else C * np.max(np.abs(f0[9])) + np.max(np.abs(f0[6:9]))) + 1e-300
            close(f[k], f0[k], sc / (C if k in (3, 4, 5, 9) else 1), "opposite boost does not restore " + nm[k], 1e-11)
        return {"nontrivial": be != 0, "labels": ["zero " + c["zero"]]}
    return run


def run_parts(fields):
    def run(c):
        rng = np.random.default_rng(c["seed"])
        n, be = c["np"], c["beta"]
        ga, _ = boost(be)
        dt = c["dt"]
        time = c["t"] * dt
        x = {}
        u, gi = momenta(rng, c["mom"], n)
        u2, gi2 = (u, gi) if c["same"] else momenta(rng, c["mom"], n)
        pos = rng.normal(size=(3, n)) * C * dt * c["L"]
        # previous position: moved back by at most the light distance, so that times differ in every frame
        mv = rng.uniform(-0.95, 0.95, size=(3, n)) * C * dt
        posp = pos - mv
        fl = {k: rng.normal(size=n) * (1e9 if k[0] == "e" else 3.0) for k in
              ("exc", "excp", "eyc", "eycp", "ezc", "ezcp", "bxc", "bxcp", "byc", "bycp", "bzc", "bzcp")}
        v = {"xc": pos[0], "xcp": posp[0], "yc": pos[1], "ycp": posp[1], "zc": pos[2], "zcp": posp[2],
             "uxc": u[0], "uxcp": u2[0], "uyc": u[1], "uycp": u2[1], "uzc": u[2], "uzcp": u2[2], "gc": 1 / gi, "gcp": 1 / gi2}
        if fields:
            v.update(fl)
        v = {k: pad1(np.array(a)) for k, a in v.items()}
        o = {k: np.array(a) for k, a in v.items()}
        # snapshot time between the two times of most particles
        tl = lambda z, t: ga * (t + be * z / C)
        tn, tp = tl(o["zc"], time), tl(o["zcp"], time - dt)
        f = c["frac"]
        tout = float(np.median(tp) * (1 - f) + np.median(tn) * f)
        order = ["xc", "xcp", "yc", "ycp", "zc", "zcp", "uxc", "uxcp", "uyc", "uycp", "uzc", "uzcp", "gc", "gcp"]
        if fields:
            order += list(fl)
        CTX["F"]("__diagnostics_MOD_lorentz_transform_parts_" + ("with_fields" if fields else "without_fields"), n, ga, be,
                 time, dt, tout, *[v[k] for k in order])
        wn = (tout - tp) / (tn - tp)
        wp = (tn - tout) / (tn - tp)
        L = np.array([[ga, ga * be], [ga * be, ga]])
        r = {}
        for s, t in (("", time), ("p", time - dt)):
            r["zc" + s] = ga * (o["zc" + s] + be * C * t)
            m = L @ np.array([o["gc" + s] * C, o["uzc" + s]])
            r["gc" + s], r["uzc" + s] = m[0] / C, m[1]
            for k in ("xc", "yc", "uxc", "uyc"):
                r[k + s] = o[k + s]
            if fields:
                E2, B2, _ = eb(np.array([o["e%sc%s" % (a, s)] for a in "xyz"]), np.array([o["b%sc%s" % (a, s)] for a in "xyz"]), be, ga)
                for i, a in enumerate("xyz"):
                    r["e%sc%s" % (a, s)], r["b%sc%s" % (a, s)] = E2[i], B2[i]
        wsc = np.abs(wn) + np.abs(wp)
        tsc = (np.abs(tn) + np.abs(tp) + abs(tout)) / np.abs(tn - tp)
        es = ga * 1e10
        for k in [q for q in order if not q.endswith("p")]:
            a, b = r[k + "p"], r[k]
            sc = {"x": C * dt * (1 + c["L"]), "y": C * dt * (1 + c["L"]), "z": ga * C * (dt * (1 + c["L"]) + abs(time)), "u": 4 * ga * ga * C * np.maximum(o["gc"], o["gcp"]),
                  "g": 4 * ga * ga * np.maximum(o["gc"], o["gcp"]), "e": es, "b": es / C}[k[0]]
            close(v[k], a * wp + b * wn, sc * (wsc + tsc) * 10, k)
        if c["same"]:
            # equal momenta in both snapshots: the particle stays on the mass shell
            m = v["gc"] ** 2 - 1 - (v["uxc"] ** 2 + v["uyc"] ** 2 + v["uzc"] ** 2) / C ** 2
            close(m, 0.0, 20 * (ga * ga * o["gc"]) ** 2 * (wsc + tsc) ** 2, "mass shell", 1e-13 * 10)
        for k in [q for q in order if not q.startswith(("z", "u", "g")) and q.endswith("p") and q not in ("excp", "eycp", "bxcp", "bycp")]:
            if not np.array_equal(v[k], o[k]):
                raise Violation("previous value %s changed" % k)
        return {"nontrivial": be != 0, "labels": ["same momenta" if c["same"] else "different momenta"]}
    return run


BETA = st.one_of(st.floats(-0.9999, 0.9999), st.floats(-0.5, 0.5), st.sampled_from([0.0, 0.9999, -0.9999, 1e-6, 0.5]))
gc_ = st.fixed_dictionaries({"seed": SEED, "n": st.tuples(st.integers(1, 40), st.integers(1, 9)), "beta": BETA, "le": st.floats(-3, 12),
                             "lj": st.floats(-3, 12), "zero": st.sampled_from(["", "", "", "E", "B"])})
pc = st.fixed_dictionaries({"seed": SEED, "np": NP, "beta": BETA, "mom": MOMK, "dt": st.sampled_from([1e-15, 1e-9, 2.5e-16]), "t": st.floats(0, 50),
                            "L": st.floats(0.01, 50), "frac": st.floats(-0.1, 1.1), "same": st.booleans()})
PARTS = [Part("grid2d", gc_, run_grid(2), quick=3000, thorough=60000), Part("grid3d", gc_, run_grid(3), quick=3000, thorough=60000),
         Part("particles", pc, run_parts(False), quick=4000, thorough=80000), Part("particles_fields", pc, run_parts(True), quick=4000, thorough=80000)]
