"""Whole-program simulations: generator of a particle-in-cell problem, its run under a variant, comparison of the end states."""
from checks.simc import *

EB = ["ex", "ey", "ez", "bx", "by", "bz"]
CUR = ["jx", "jy", "jz"]


@st.composite
def problem(draw, dim, steps=(1, 4), orders=None, big=False, same=False, split=(1, 1, 1), nmin=6, nmax=16, npart=(1, 300), spectral=False):
    ax = [0, 1, 2] if dim == 3 else [0, 2]
    o = orders or [1, 2, 3]
    same = same or draw(st.booleans())
    no = [draw(st.sampled_from(o))] * 3 if same else [draw(st.sampled_from(o)) for _ in range(3)]
    g = max(no) + 2 - (max(no) == 1)
    g = [g + draw(st.integers(0, 2)) for _ in range(3)]
    jg = [min(max(no) + 1 + draw(st.integers(0, 2)), g[k]) for k in range(3)]  # tiles read the fields with the guard cells of the currents
    n = [split[k] * max(nmin, g[k] + 1, jg[k] + 1) + draw(st.integers(0, nmax - nmin)) if k in ax else 4 for k in range(3)]
    ns = draw(st.integers(1, 3))
    return {"dim": dim, "n": n, "no": no, "g": g, "jg": jg, "d": [draw(st.sampled_from([1., 0.7, 1.3])) * 1e-7 for _ in range(3)],
            "org": [draw(st.sampled_from([0., -0.5, 0.37])) * n[k] * 1e-7 for k in range(3)],
            "sp": [[draw(st.sampled_from([-1., 1., 2.])), draw(st.sampled_from([1., 1., 1836.])), draw(st.integers(*npart))] for _ in range(ns)],
            "hot": draw(st.sampled_from([0., 0.01, 1., 30.])), "amp": draw(st.sampled_from([0., 0.01, 0.3])), "wp": draw(st.sampled_from([0.05, 0.3])),
            "pusher": draw(st.sampled_from([0, 1])), "norder": draw(st.sampled_from([2, 2, 4])),
            "lower": draw(st.booleans()), "steps": draw(st.integers(*steps)), "seed": draw(st.integers(0, 2 ** 31))}


def setup(c):
    """Rows of particles and initial fields of a problem."""
    rng = np.random.default_rng(c["seed"])
    d, n, org = np.array(c["d"]), np.array(c["n"]), np.array(c["org"])
    ax = [0, 1, 2] if c["dim"] == 3 else [0, 2]
    w0 = c["wp"] * C / min(d[k] for k in ax)
    dens = w0 ** 2 * EPS0 * ME / QE ** 2
    V = np.prod([n[k] * d[k] for k in ax])
    rows = []
    for s, (q, m, N) in enumerate(c["sp"]):
        r = np.zeros((N, 11))
        r[:, 0] = s + 1
        for k in ax:
            r[:, 1 + k] = org[k] + rng.random(N) * n[k] * d[k]
        u = rng.normal(size=(N, 3)) * c["hot"] / (1 if m == 1 else 40.)
        r[:, 4:7] = u * C
        r[:, 7] = 1 / np.sqrt(1 + (u ** 2).sum(1))
        r[:, 8] = dens * V / N * (0.5 + rng.random(N))
        r[:, 9] = s * 10000 + np.arange(1, N + 1)
        rows.append(r)
    rows = np.concatenate(rows)
    rng.shuffle(rows)
    E0 = c["amp"] * ME * C / QE / (0.5 * min(d[k] for k in ax) / C)
    nf = [n[0], n[1] if c["dim"] == 3 else 1, n[2]]
    f = {k: rng.uniform(-1, 1, nf) * E0 / (1 if k[0] == "e" else C) for k in EB} if E0 else {}
    return rows, f


def simulate(c, v=None, extra_ops=(), dumps=("end",), ops=None, files=None):
    """Runs problem c under variant v; the Result is left open for the caller."""
    v = dict({"split": [1, 1, 1], "tiles": [1, 1, 1]}, **(v or {}))
    rows, f = setup(c)
    fl = {"p0.bin": ("p", rows)}
    o = []
    for k, a in f.items():
        fl[k + ".bin"] = ("f", a)
        o.append("loadf %s %s.bin" % (k, k))
    o.append("loadp p0.bin")
    o.append("set l_lower_order_in_v %d" % c["lower"])
    if ops is None:
        o += list(extra_ops) + ["step %d" % c["steps"], "dumpf end", "dumpp pend"]
    else:
        o += ops
    fl.update(files or {})
    cpu = dict(topology=v.get("topology", 0))
    for k in ("mpicom_curr", "partcom", "fg_p_pp_separated", "lvec_curr_depo", "lvec_charge_depo", "lvec_fieldgathe", "mpi_buf_size"):
        if k in v:
            cpu[k] = v[k]
    sol = dict(norderx=c["norder"], nordery=c["norder"], norderz=c["norder"], nox=c["no"][0], noy=c["no"][1], noz=c["no"][2])
    for k in ("currdepo", "fieldgathe", "rhodepo"):
        if k in v:
            sol[k] = v[k]
    if c.get("spectral"):
        sol.update(c["spectral"])
    pl = dict(particle_pusher=c["pusher"])
    extra = list(v.get("extra", ()))
    if v.get("sorting"):
        s = v["sorting"]
        extra.append(("sorting", dict(activation=1, dx=s["d"][0], dy=s["d"][1], dz=s["d"][2], shiftx=s["s"][0], shifty=s["s"][1], shiftz=s["s"][2])))
    sps = []
    for k, (q, m, N) in enumerate(c["sp"]):
        s = dict(name="s%d" % k, charge=q, mass=m)
        if v.get("sorting"):
            s.update(sorting_period=v["sorting"]["period"], sorting_start=v["sorting"]["start"])
        sps.append(s)
    main = dict(l_plasma=1) if c.get("l_plasma") else None
    if v.get("main"):
        main = dict(main or {}, **v["main"])
    dk = mkdeck(c["dim"], c["n"], v["split"], d=c["d"], org=c["org"], guards=c["g"], jguards=c["jg"], tiles=v["tiles"], species=sps,
                cpu=cpu, solver=sol, plasma=pl, extra=extra)
    return sim.run(dk, o, int(np.prod(v["split"])), fl, which=v.get("which", "drv"), threads=v.get("threads", 1), timeout=v.get("timeout", 120))


def state(c, res, end="end", pend="pend", fields=tuple(EB + CUR)):
    D = res.dumps(end)
    s = {k: sim.glob(D, k) for k in fields}
    P = []
    for q in res.dumps(pend):
        for k in range(len(c["sp"])):
            P.append(q.parts(k + 1))
    P = np.concatenate(P)
    P = P[np.argsort(P[:, 14], kind="stable")]
    s["ids"] = P[:, 14]
    s["P"] = P
    return s


def compare(c, a, b, what, tol=1e-9, fields=tuple(EB + CUR)):
    """a is the reference state."""
    ids = np.sort(np.concatenate([s * 10000 + np.arange(1, N + 1) for s, (_, _, N) in enumerate(c["sp"])]))
    for s, w in ((a, "the reference run"), (b, what)):
        if not np.array_equal(np.sort(s["ids"]), ids):
            miss = sorted(set(ids) - set(s["ids"]))[:3]
            raise Violation("%s: %d particles instead of %d, missing %r" % (w, len(s["ids"]), len(ids), miss))
    P, Q = a["P"], b["P"]
    L = np.array(c["n"]) * np.array(c["d"])
    for k in ([0, 1, 2] if c["dim"] == 3 else [0, 2]):
        e = np.abs(P[:, k] - Q[:, k])
        e = np.minimum(e, np.abs(e - L[k]))
        i = int(np.argmax(e))
        if not e[i] <= tol * c["d"][k]:
            raise Violation("%s: particle %d ends at %s = %.17g instead of %.17g" % (what, P[i, 14], "xyz"[k], Q[i, k], P[i, k]))
    us = np.sqrt((P[:, 3:6] ** 2).sum(1)).max() + 1e-30
    if not us < C * 1e6:
        raise Discard()
    for k in (3, 4, 5):
        e = np.abs(P[:, k] - Q[:, k])
        i = int(np.argmax(e))
        if not e[i] <= tol * us:
            raise Violation("%s: particle %d ends with u%s = %.17g instead of %.17g" % (what, P[i, 14], "xyz"[k - 3], Q[i, k], P[i, k]))
    close(Q[:, 6], P[:, 6], tol, what + ": inverse gamma")
    if not np.array_equal(P[:, 13], Q[:, 13]):
        raise Violation("%s: weights differ" % what)
    for grp in (EB[:3], EB[3:], CUR, ["rho"]):
        grp = [g for g in grp if g in fields]
        if not grp:
            continue
        m = max(np.abs(a[g]).max() for g in grp)
        if grp[0] == "jx":  # currents of opposite particles cancel: scale of one particle's contribution
            m = max(m, jscale(c))
        if grp[0] == "bx":
            m = max(m, max(np.abs(a[g]).max() for g in EB[:3]) / C)
        for g in grp:
            close(b[g], a[g], tol * m + 1e-300, "%s: %s at the end" % (what, g))


def jscale(c):
    ax = [0, 1, 2] if c["dim"] == 3 else [0, 2]
    w0 = c["wp"] * C / min(c["d"][k] for k in ax)
    dens = w0 ** 2 * EPS0 * ME / QE ** 2
    N = min(x[2] for x in c["sp"])
    return dens * QE * C * np.prod([c["n"][k] for k in ax]) / N


@st.composite
def sorting(draw):
    return {"d": [draw(st.sampled_from([0.5, 1.0, 2.0])) for _ in range(3)], "s": [draw(st.sampled_from([0., 0.5, -0.3])) for _ in range(3)],
            "period": draw(st.integers(1, 2)), "start": draw(st.integers(0, 1))}


def moved(c):
    return c["hot"] > 0 or c["amp"] > 0
