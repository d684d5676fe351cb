from checks.whole import *
import struct, os
from checks.f24 import charge, div, species
PID = "F19"
RULE = ("A case is a generated periodic simulation whose diagnostics (energies, norms, particle counts and extracted quantities, the files of the "
        "temporal diagnostics with a generated selection, period and format) are recomputed from the recorded fields and particles, or one call of "
        "a divergence, energy, norm or plane-crossing routine on generated arrays: non-trivial when some compared value is not zero.")
ASSUMPTIONS = ["sums are compared within 1e-10 relative", "kinetic energies of the temporal diagnostics are in units of the electron mass for all species, as documented in the code",
               "index_particle is zeroed by the caller of load_test_plane"]
CTX = {}
TD = ["kinE", "exE", "eyE", "ezE", "bxE", "byE", "bzE", "divE-rho", "rho", "divE"]


def prepare():
    sim.prepare()
    CTX["F"] = F(build.fortran_lib())


def rel(a, b, scale, what, tol=1e-10):
    if not abs(a - b) <= tol * abs(scale) + 1e-290:
        raise Violation("%s is %.17g instead of %.17g" % (what, a, b))


@st.composite
def case(draw, dim):
    s = draw(splits(dim, False))
    c = draw(problem(dim, split=s, steps=(1, 5), npart=(1, 120)))
    v = {"split": list(s), "tiles": [draw(st.integers(1, 3)) for _ in range(3)], "topology": draw(st.integers(0, 2)),
         "currdepo": draw(st.integers(0, 2)), "mpicom_curr": draw(st.integers(0, 1))}
    act = draw(st.one_of(st.sets(st.integers(0, 9), min_size=1), st.sampled_from([{0}, {9}, {0, 1}, set(range(10)), {7, 8, 9}])))
    return dict(c, v=v, norder=2, l_plasma=True, act=sorted(act), freq=draw(st.integers(1, 3)), fmt=draw(st.integers(0, 1)), amp=draw(st.sampled_from([0., .01, .3])))


def run(c):
    dim, n, d = c["dim"], c["n"], c["d"]
    ax = [0, 1, 2] if dim == 3 else [0, 2]
    V = np.prod([d[k] for k in ax])
    v = dict(c["v"], extra=[("temporal", dict({"frequency": c["freq"], "format": c["fmt"]}, **{TD[k]: 1 for k in c["act"]}))])
    ops = []
    for k in range(c["steps"]):
        ops += ["step 1", "dumpf i%d" % k, "dumpp q%d" % k]
    nsp = len(c["sp"])
    ops += ["diags dg"] + ["quant qq%d %d" % (s + 1, s + 1) for s in range(nsp)]
    nz = 0
    with simulate(c, v, ops=ops) as res:
        want = {k: [] for k in c["act"]}
        for k in range(c["steps"]):
            D = res.dumps("i%d" % k)
            f = {q: sim.glob(D, q) for q in EB}
            P = species(c, res.dumps("q%d" % k))
            rho = sum(charge(c, P[s], c["sp"][s][0] * QE) for s in range(nsp))
            ro = sum(charge(c, P[s], QE) for s in range(nsp))
            kin = [float((p[:, 13] * (1 / p[:, 6] - 1)).sum()) for p in P]
            en = {q: 0.5 * float((f[q] ** 2).sum()) * V for q in EB}
            dE = div(c, [f["ex"], f["ey"], f["ez"]], d, -1)
            mE = max(np.abs(f[q]).max() for q in EB[:3]) / min(d[a] for a in ax)
            ex = [[x * ME * C ** 2 for x in kin]] + [[en[q] * (EPS0 if q[0] == "e" else 1 / MU0)] for q in EB] + [
                [np.sqrt(((dE * EPS0 - rho) ** 2).sum())], [np.sqrt((rho ** 2).sum())], [np.sqrt((dE ** 2).sum())]]
            N = np.sqrt(rho.size)
            sc = [[max(abs(x), ME * C ** 2 * 1e-5 * float(P[i][:, 13].sum())) for i, x in enumerate(ex[0])]] + ex[1:7] + [
                [N * (mE * EPS0 + ro.max())], [N * ro.max()], [N * mE]]
            if k % c["freq"] == 0:
                for a in c["act"]:
                    want[a].append((ex[a], sc[a]))
        dt = float(np.ravel(D[0]["dt"])[0])
        # the files
        here = sorted(os.listdir(os.path.join(res.d, "RESULTS")))
        if here != sorted(TD[a] for a in c["act"]):
            raise Violation("files %r for the active diagnostics %r" % (here, [TD[a] for a in c["act"]]))
        for a in c["act"]:
            b = open(os.path.join(res.d, "RESULTS", TD[a]), "rb").read()
            w = nsp if a == 0 else 1
            if c["fmt"] == 1:
                t = [float(x) for x in b.decode().split()]
            else:
                t = [struct.unpack_from("<i", b)[0]] + list(np.frombuffer(b[4:], "<f8"))
            if len(t) != 2 + w * len(want[a]):
                raise Violation("%s: %d values instead of %d records of %d" % (TD[a], len(t) - 2, len(want[a]), w))
            if t[0] != w:
                raise Violation("%s: header announces %g values per record instead of %d" % (TD[a], t[0], w))
            rel(t[1], c["freq"] * dt, dt, TD[a] + ": period in the header")
            for k, (x, s) in enumerate(want[a]):
                for i in range(w):
                    rel(t[2 + k * w + i], x[i], s[i], "%s, record %d, value %d" % (TD[a], k, i + 1))
                    nz += x[i] != 0
        # the routines
        G = res.dumps("dg")
        for s in range(nsp):
            sk = max(kin[s], 1e-5 * float(P[s][:, 13].sum()))
            for r, g in enumerate(G):
                rel(g["kin%d" % (s + 1)], kin[s], sk, "get_kinetic_energy of species %d on rank %d" % (s + 1, r))
                if g.i("ntot%d" % (s + 1)) != len(P[s]):
                    raise Violation("%d particles in species %d on rank %d instead of %d" % (g.i("ntot%d" % (s + 1)), s + 1, r, len(P[s])))
            rel(sum(g["kinl%d" % (s + 1)] for g in G), kin[s], sk, "sum of get_loc_kinetic_energy of species %d" % (s + 1))
            L = res.dumps("q%d" % (c["steps"] - 1))
            for r, q in enumerate(res.dumps("qq%d" % (s + 1))):
                p = L[r].parts(s + 1)
                if G[r].i("nloc%d" % (s + 1)) != len(p):
                    raise Violation("rank %d: %d particles of species %d counted, %d there" % (r, G[r].i("nloc%d" % (s + 1)), s + 1, len(p)))
                cols = [np.ravel(q.a["q%d" % (k + 1)]) for k in range(6)] + [np.ravel(q.a["pid%d" % (k + 1)]) for k in range(2)]
                a = np.array(cols).T.reshape(-1, 8)
                b = p[:, [0, 1, 2, 3, 4, 5, 13, 14]]
                o, m = np.argsort(a[:, 7], kind="stable"), np.argsort(b[:, 7], kind="stable")
                if a.shape != b.shape or not np.array_equal(a[o], b[m]):
                    raise Violation("rank %d: the quantities extracted for species %d are not those of its particles" % (r, s + 1))
        for q in EB:
            for r, g in enumerate(G):
                rel(g["en_" + q], en[q], en[q], "field energy of %s on rank %d" % (q, r))
            rel(sum(g["enl_" + q] for g in G), en[q], en[q], "sum of the local energies of %s" % q)
            if dim == 3:
                rel(sum(g["n2l_" + q] for g in G), 2 * en[q] / V, 2 * en[q] / V, "sum of the local squares of %s" % q)
        if dim == 3:
            e = np.sqrt(((dE * EPS0 - rho) ** 2).sum())
            for r, g in enumerate(G):
                rel(g["divErho"], e, N * (mE * EPS0 + ro.max()), "get_norm_divErho on rank %d" % r)
            close(sim.glob(G, "dive"), dE, 1e-11 * mE, "divergence of E")
    return {"nontrivial": nz > 0, "labels": ["diags%d" % len(c["act"]), "fmt%d" % c["fmt"]] + [TD[a] for a in c["act"]]}


@st.composite
def kcase(draw):
    return {"k": draw(st.sampled_from(["div", "divb", "plane", "energy", "energy2"])), "n": [draw(st.integers(1, 6)) for _ in range(3)], "g": [draw(st.integers(1, 3)) for _ in range(3)],
            "np": draw(st.sampled_from([0, 1, 2, 17, 60])), "seed": draw(st.integers(0, 2 ** 31)), "e": draw(st.integers(-8, 8)), "cross": draw(st.sampled_from([0., 0.3, 1.]))}


def krun(c):
    rng = np.random.default_rng(c["seed"])
    call = CTX["F"]
    n, g = c["n"], c["g"]
    sh = [n[k] + 1 + 2 * g[k] for k in range(3)]
    f = [np.asfortranarray(rng.normal(size=sh) * 10. ** c["e"]) for _ in range(3)]
    d = [float(x) for x in rng.uniform(0.3, 3, 3) * 1e-6]
    nz = True
    if c["k"] in ("div", "divb"):
        out = np.asfortranarray(np.full(sh, -7e77))
        call("__diagnostics_MOD_calc_field_" + c["k"], out, *f, *n, *g, *d)
        sgn = -1 if c["k"] == "div" else 1
        ref = 0
        for k in range(3):
            ref = ref + ((f[k] - np.roll(f[k], 1, k)) if sgn < 0 else (np.roll(f[k], -1, k) - f[k])) / d[k]
        top = [n[k] + (1 if sgn < 0 else (1 if g[k] >= 1 else 0)) for k in range(3)]
        I = tuple(slice(g[k], g[k] + n[k]) for k in range(3))
        close(out[I], ref[I], 1e-12 * sum(np.abs(f[k]).max() / d[k] for k in range(3)), "calc_field_" + c["k"])
        J = tuple(slice(g[k], g[k] + top[k]) for k in range(3))
        o = np.ones(sh, bool)
        o[tuple(slice(g[k], g[k] + n[k] + 1) for k in range(3))] = False
        if not np.all(out[o] == -7e77):
            raise Violation("calc_field_%s wrote in the guard cells" % c["k"])
    elif c["k"] == "energy":
        I = tuple(slice(g[k] + 1, g[k] + n[k] + 1) for k in range(3))
        e = np.zeros(1)
        call("__diagnostics_MOD_get_loc_field_energy", f[0], *n, *d, *g, e)
        x = 0.5 * (f[0][I] ** 2).sum() * np.prod(d)
        rel(e[0], x, x, "field energy")
        call("__diagnostics_MOD_get_loc_norm_2", f[0], *n, *g, e)
        x = (f[0][I] ** 2).sum()
        rel(e[0], x, x, "norm")
        call("__diagnostics_MOD_get_loc_norm_diverho", f[0], f[1] * EPS0, *n, *g, e)
        x = ((f[0][I] * EPS0 - f[1][I] * EPS0) ** 2).sum()
        rel(e[0], x, ((np.abs(f[0][I]) + np.abs(f[1][I])) ** 2).sum() * EPS0 ** 2, "norm of div E eps0 - rho")
    elif c["k"] == "energy2":
        a = np.asfortranarray(f[0][:, :1, :])
        e = np.zeros(1)
        call("__diagnostics_MOD_get_loc_field_energy_2d", a, n[0], n[2], d[0], d[2], g[0], g[2], e)
        x = 0.5 * (a[g[0] + 1:g[0] + n[0] + 1, 0, g[2] + 1:g[2] + n[2] + 1] ** 2).sum() * d[0] * d[2]
        rel(e[0], x, x, "2D field energy")
    else:
        N = c["np"]
        nv = rng.normal(size=3)
        nv /= np.sqrt((nv ** 2).sum())
        p0, p1 = rng.normal(size=3), rng.normal(size=3)
        a, b = rng.normal(size=(3, N)), rng.normal(size=(3, N))
        hit = rng.random(N) < c["cross"]
        s0 = ((a.T - p0) @ nv)
        s1 = ((b.T - p1) @ nv)
        a = a + np.outer(nv, np.where(hit, -np.abs(s0) - s0, 0))  # move some behind the old plane and ahead of the new one
        b = b + np.outer(nv, np.where(hit, np.abs(s1) - s1, 0))
        x0, x1 = nv @ (a - p0[:, None]), nv @ (b - p1[:, None])
        if N and min(np.abs(x0).min(), np.abs(x1).min()) < 1e-12:
            raise Discard()
        idx = np.zeros(N, "<i8")
        r1, r0 = np.zeros(N), np.zeros(N)
        cnt = np.zeros(1, "<i8")
        call("__diagnostics_MOD_load_test_plane", N, p1.copy(), p0.copy(), nv.copy(), *[b[k].copy() for k in range(3)], *[a[k].copy() for k in range(3)], cnt, idx, r1, r0)
        got = np.nonzero(idx)[0]
        want = np.nonzero((x0 <= 0) & (x1 > 0))[0]
        if not np.array_equal(got, want) or cnt[0] != len(want):
            raise Violation("particles crossing the plane: %r (count %d) instead of %r" % (got.tolist(), cnt[0], want.tolist()))
        close(r1, x1, 1e-13 * 10, "distance to the plane")
        close(r0, x0, 1e-13 * 10, "former distance to the plane")
        m = len(want)
        q0, q1 = rng.normal(size=N), rng.normal(size=N)
        sel = np.full(m, -7e77)
        call("__diagnostics_MOD_select_quantity", N, m, idx, q1, sel)
        if not np.array_equal(sel, q1[want]):
            raise Violation("select_quantity returned other particles")
        cap = np.full(m, -7e77)
        call("__diagnostics_MOD_interpolate_quantity", idx, N, m, q0, q1, r1, r0, cap)
        t = -x0[want] / (x1[want] - x0[want])
        close(cap, q0[want] + t * (q1[want] - q0[want]), 1e-11, "quantity where the particle crosses the plane")
        nz = m > 0
    return {"nontrivial": nz, "labels": [c["k"]]}


PARTS = [Part("run3d", case(3), run, quick=60, thorough=2000, shards=3), Part("run2d", case(2), run, quick=50, thorough=1500, shards=3),
         Part("kernels", kcase(), krun, quick=400, thorough=20000)]
JOBS = 6
