from checks.common import *
PID = "F25"
RULE = ("A case is one call of a cylindrical kernel on a set of particles or on a grid: non-trivial when it has at least two azimuthal "
        "modes or, for the kernels with a single mode, when a particle is within two cells of the axis or the grid begins on the axis. "
        "Distinct = distinct case parameters.")
ASSUMPTIONS = ["displacement below one cell along r and z in one step, as the time step limits it",
               "modes are the coefficients of exp(-i m theta); Er, Bt, Bz half a cell off in r and Ez, Br, Bt half a cell off in z, as "
               "the field solver of the same code has them",
               "modified radial shapes (type 2) on grids that begin on the axis, order 1 in r",
               "values in the guard cells below the axis are not defined after the division by the volume"]
CTX = {}
C = 299792458.0


def prepare():
    CTX["F"] = F(build.fortran_lib())


class Grid:
    """Complex or real array (r, z[, mode]) with guards, in a buffer with canaries behind and in front."""
    def __init__(self, g, n, m=None, init=None):
        self.g, self.n = g, n
        shape = (n[0] + 2 * g[0], n[1] + 2 * g[1]) + (() if m is None else (m,))
        t = float if m is None else complex
        k = int(np.prod(shape))
        self.buf = np.full(k + 4096, -7.25e77, t)
        self.v = self.buf[2048:2048 + k].reshape(shape, order="F")
        self.v[...] = 0 if init is None else init
        self.gg, self.nn = np.array(g, np.int64), np.array(n, np.int64)

    @property
    def args(self):
        return [self.buf[2048:], self.gg, self.nn]

    def ok(self, what):
        k = self.v.size
        if not (np.all(self.buf[:2048] == -7.25e77) and np.all(self.buf[2048 + k:] == -7.25e77)):
            raise Violation(what + ": written outside the array")

    def nodes(self, d):
        return np.arange(-self.g[d], self.n[d] + self.g[d])


def same(a, b, tol, what):
    bad = ~(np.abs(a - b) <= tol)
    if bad.any():
        k = tuple(int(q) for q in np.argwhere(bad)[0])
        raise Violation("%s: %d of %d values differ, first at %s: %s instead of %s (allowed %g)" %
                        (what, int(bad.sum()), a.size, k, a[k], b[k], tol))


SCALE = st.sampled_from([1.0, 1.0, 1e-6, 3e4])


@st.composite
def grid_case(draw, modes=True):
    return dict(nr=draw(st.integers(4, 14)), nz=draw(st.integers(4, 12)), g=[draw(st.integers(3, 5)), draw(st.integers(3, 5))],
                nmodes=draw(st.integers(1, 5)) if modes else 1, dr=draw(st.floats(0.3, 2.0)), dz=draw(st.floats(0.3, 2.0)),
                unit=draw(SCALE), rmin=draw(st.sampled_from([0, 0, 0, 1, 2.5, 7])), zmin=draw(st.floats(-5, 5)), seed=draw(SEED))


# ------------------------------------------------------------------ particles
@st.composite
def dep_case(draw, modes=True):
    c = draw(grid_case(modes))
    c.update(np=draw(NP), nox=draw(st.integers(0, 3)), noz=draw(st.integers(0, 3)), near=draw(st.booleans()),
             own=draw(st.booleans()), cfl=draw(st.sampled_from([0.95, 0.5, 0.1, 1e-3])), q=draw(st.sampled_from([1.0, -1.0, 3.7])))
    c["type"] = draw(st.sampled_from([0, 0, 1, 2])) if c["rmin"] == 0 and c["nox"] == 1 else draw(st.sampled_from([0, 1]))
    return c


def setup(c):
    r = np.random.default_rng(c["seed"])
    u = c["unit"]
    dr, dz = c["dr"] * u, c["dz"] * u
    rmin, zmin = c["rmin"] * dr, c["zmin"] * u
    n = c["np"]
    R = 1.2 if c["near"] else c["nr"] - 1.5
    # the new radius in cells from the start of the grid; the old one stays inside the guards
    t = np.where(r.random(n) < 0.2, r.random(n) * 1e-3, r.random(n) * R)
    if c["rmin"]:
        t += 1.0
    rad = rmin + t * dr
    th = r.random(n) * 2 * np.pi
    th = np.where(r.random(n) < 0.15, np.round(th / (np.pi / 2)) * (np.pi / 2), th)
    x, y = rad * np.cos(th), rad * np.sin(th)
    z = zmin + (1.0 + r.random(n) * (c["nz"] - 2.5)) * dz
    dt = c["cfl"] * min(dr, dz) / C
    b = r.random(n) * 0.99
    d = r.standard_normal((n, 3))
    d /= np.linalg.norm(d, axis=1)[:, None]
    if r.random() < 0.2:
        d[:, 0], d[:, 1], d[:, 2] = np.cos(th), np.sin(th), 0
        d *= np.where(r.random(n) < .5, -1, 1)[:, None]
    gam = 1 / np.sqrt(1 - b ** 2)
    ux, uy, uz = (gam * b * C)[None, :] * d.T
    w = r.uniform(0.5, 2.0, n)
    P = [pad1(np.ascontiguousarray(a)) for a in (x, y, z, ux, uy, uz, 1 / gam, w)]
    return dr, dz, rmin, zmin, dt, P


def kin(c, dr, dz, rmin, zmin, dt, P):
    x, y, z, ux, uy, uz, gi, w = P
    vx, vy, vz = ux * gi, uy * gi, uz * gi
    xo, yo, zo = x - dt * vx, y - dt * vy, z - dt * vz
    W = c["q"] * (w if c["own"] else np.full_like(w, w[0]))
    k = dict(rn=np.hypot(x, y), ro=np.hypot(xo, yo), zn=z, zo=zo, xm=x - dt * vx / 2, ym=y - dt * vy / 2, vx=vx, vy=vy, vz=vz, W=W,
             tn=np.arctan2(y, x), to=np.arctan2(yo, xo))
    k["rm"] = np.hypot(k["xm"], k["ym"])
    k["tm"] = np.arctan2(k["ym"], k["xm"])
    if np.any(np.abs(k["rn"] - k["ro"]) >= dr * 0.999) or np.any(np.abs(zo - z) >= dz * 0.999):
        raise Discard()
    return k


def rshape(c, u, nodes):
    if c["type"] == 2:
        i = np.floor(u)
        t = u - i
        s0 = 1 - t + (t * t - t) / (4 * i + 2)
        d = nodes[None, :] - i[:, None]
        return np.where(d == 0, s0[:, None], 0) + np.where(d == 1, 1 - s0[:, None], 0)
    return weights(c["nox"], u, nodes)


def ref_j(c, dr, dz, rmin, zmin, dt, k, G, theta):
    """Currents before the division by the volume, with the azimuth `theta` for the azimuthal current of mode 0."""
    ri, zi = G.nodes(0), G.nodes(1)
    Sn, So = rshape(c, (k["rn"] - rmin) / dr, ri), rshape(c, (k["ro"] - rmin) / dr, ri)
    Zn, Zo = weights(c["noz"], (k["zn"] - zmin) / dz, zi), weights(c["noz"], (k["zo"] - zmin) / dz, zi)
    W, M = k["W"], c["nmodes"]
    ph = lambda t, m: np.exp(1j * m * t)
    fr = np.cumsum(So - Sn, axis=1)
    fz = np.cumsum(Zo - Zn, axis=1)
    jr, jt, jz = [np.zeros(G.v.shape if G.v.ndim == 3 else G.v.shape + (1,), complex) for _ in range(3)]
    vt = -k["vx"] * np.sin(theta) + k["vy"] * np.cos(theta)
    for m in range(M):
        a = W * (1.0 if m == 0 else 2.0) * ph(k["tm"], m)
        jr[:, :, m] = np.einsum("p,pi,pk->ik", a / (dt * dz), fr, (Zn + Zo) / 2)
        jz[:, :, m] = np.einsum("p,pi,pk->ik", a / (dt * dr), (Sn + So) / 2, fz)
        if m == 0:
            s = (np.einsum("p,pi,pk->ik", W * vt, Sn, Zn) + np.einsum("p,pi,pk->ik", W * vt, So, Zo)) / 3 + \
                (np.einsum("p,pi,pk->ik", W * vt, Sn, Zo) + np.einsum("p,pi,pk->ik", W * vt, So, Zn)) / 6
            jt[:, :, 0] = s / (dr * dz)
        else:
            s = np.einsum("p,pi,pk->ik", W * (ph(k["tn"], m) - ph(k["tm"], m)), Sn, Zn) + \
                np.einsum("p,pi,pk->ik", W * (ph(k["tm"], m) - ph(k["to"], m)), So, Zo)
            jt[:, :, m] = -2j * (ri + rmin / dr)[:, None] / (dt * dz * m) * s
    return jr, jt, jz


def ref_rho(c, dr, dz, rmin, zmin, r, th, z, W, G, M):
    S = rshape(c, (r - rmin) / dr, G.nodes(0))
    Z = weights(c["noz"], (z - zmin) / dz, G.nodes(1))
    o = np.zeros(G.v.shape[:2] + (M,), complex)
    for m in range(M):
        o[:, :, m] = np.einsum("p,pi,pk->ik", W * (1.0 if m == 0 else 2.0) * np.exp(1j * m * th), S, Z) / (dr * dz)
    return o


def edge(c, k, dr, dz, rmin, zmin):
    """Particles on a boundary between cells, where rounding decides: order 0 shapes jump there."""
    for u, o in (((k["rn"] - rmin) / dr, c["nox"]), ((k["ro"] - rmin) / dr, c["nox"]), ((k["zn"] - zmin) / dz, c["noz"]),
                 ((k["zo"] - zmin) / dz, c["noz"])):
        if o == 0 and np.any(np.abs((u + 0.5) % 1) < 1e-9):
            raise Discard()


def volumes(c, G, rmin, dr, typ):
    r = np.abs(rmin + G.nodes(0) * dr)
    v = 2 * np.pi * r
    if rmin == 0:
        v[G.g[0]] = np.pi * dr / (3 if typ == 1 else 4)
    return v


def fold(a, G, sign, half):
    """Adds what is below the axis to the cells above it."""
    o, g = a.copy(), G.g[0]
    for j in range(1, g + 1):
        if half:
            o[g + j - 1] += sign * a[g - j]
        else:
            o[g + j] += sign * a[g - j]
    return o


def tolj(ref, more=1.0):
    return 2e-12 * more * (np.abs(ref).max() + 1e-300)


def run_circ(c):
    dr, dz, rmin, zmin, dt, P = setup(c)
    k = kin(c, dr, dz, rmin, zmin, dt, P)
    edge(c, k, dr, dz, rmin, zmin)
    M = c["nmodes"]
    n, g = (c["nr"], c["nz"]), c["g"]
    J = [Grid(g, n, M) for _ in range(3)]
    names = ["Jr", "Jtheta", "Jz"]
    w0 = P[-1].copy()
    CTX["F"]("pxr_depose_jrjtjz_esirkepov_n_2d_circ", *J[0].args, *J[1].args, *J[2].args, M, c["np"], *P[:7], P[7], c["q"], rmin, zmin,
             dt, dr, dz, c["nox"], c["noz"], c["own"], c["type"])
    R = ref_j(c, dr, dz, rmin, zmin, dt, k, J[0], k["tm"])
    # scales: charge crossing a cell in one step
    Wmax = np.abs(k["W"]).sum()
    S = [Wmax / (dt * dz), Wmax / (dt * dr) * (c["nr"] + c["rmin"] + 4), Wmax / (dt * dr)]
    # a position is rounded to eps * its distance from the origin, and so is the displacement
    eps = 1e-14 * (1 + c["rmin"] + c["nr"] + abs(c["zmin"]) / c["dz"] + c["nz"]) * 4
    # the azimuth of a middle position next to the axis is not well defined
    near = np.min([k["rm"], k["rn"], k["ro"]], axis=0) / dr
    if np.any(near < 1e-6):
        raise Discard()
    loss = 1 + 1.0 / near.min() * 1e-1
    for q in range(3):
        J[q].ok(names[q])
        same(J[q].v, R[q], eps * S[q] * M * loss, "deposited " + names[q])
    # totals of mode 0: charge times velocity
    W = k["W"]
    tot = [(J[0].v[:, :, 0].sum(), (W * (k["rn"] - k["ro"]) / dt).sum(), S[0] * dr * dz), (J[2].v[:, :, 0].sum(), (W * k["vz"]).sum(), S[2] * dr * dz),
           (J[1].v[:, :, 0].sum(), (W * (k["vy"] * np.cos(k["tm"]) - k["vx"] * np.sin(k["tm"]))).sum(), Wmax * C)]
    for (a, b, s), what, o in zip(tot, ("Jr", "Jz", "Jtheta"), (c["nox"], c["noz"], 1)):
        # shapes of order 0 (and the modified ones along r) do not carry the position to first moment
        if o > 0 and not (what == "Jr" and c["type"] == 2):
            same(np.array([a * dr * dz]), np.array([b + 0j]), eps * s * loss * 1e1, "total " + what)
    # continuity of every mode, before and after the division by the volume
    rn = ref_rho(c, dr, dz, rmin, zmin, k["rn"], k["tn"], k["zn"], W, J[0], M)
    ro = ref_rho(c, dr, dz, rmin, zmin, k["ro"], k["to"], k["zo"], W, J[0], M)
    cont(c, J, rn, ro, dr, dz, rmin, dt, eps * loss * M, "deposited current", False)
    V = [Grid(g, n, M, q.v.copy()) for q in J]
    CTX["F"]("apply_2dcirc_volume_scaling_j", *V[0].args, *V[1].args, *V[2].args, M, rmin, dr, c["type"])
    G = J[0]
    g0 = G.g[0]
    ri = rmin + G.nodes(0) * dr
    vol = volumes(c, G, rmin, dr, c["type"])
    vh = 2 * np.pi * np.abs(ri + 0.5 * dr)
    for m in range(M):
        s = (-1) ** m if rmin == 0 else 0
        e = [fold(J[0].v[:, :, m], G, -s, True) / vh[:, None], fold(J[1].v[:, :, m], G, -s, False), fold(J[2].v[:, :, m], G, s, False)]
        with np.errstate(all="ignore"):
            e[1] = e[1] / vol[:, None]
            e[2] = e[2] / vol[:, None]
        if rmin == 0:
            if m:
                e[2][g0] = 0
            e[1][g0] = -1j * e[0][g0] if m == 1 else 0
        for q in range(3):
            V[q].ok(names[q] + " after the division")
            a, b = V[q].v[g0:, :, m], e[q][g0:]
            same(a, b, 1e-14 * (np.abs(b).max() + np.abs(J[q].v[:, :, m]).max() / (dr * 0.5)), "%s mode %d divided by the volume" % (names[q], m))
    if rmin == 0:
        # what is on the grid afterwards is what was deposited
        a = (V[2].v[g0:, :, 0] * vol[g0:, None]).sum()
        b = J[2].v[:, :, 0].sum()
        same(np.array([a]), np.array([b]), 1e-13 * np.abs(J[2].v).sum() + 1e-300, "total Jz after the division by the volume")
        fn = np.stack([fold(rn[:, :, m], G, (-1) ** m, False) for m in range(M)], axis=2)
        fo = np.stack([fold(ro[:, :, m], G, (-1) ** m, False) for m in range(M)], axis=2)
        U = [Grid(g, n, M, V[q].v * (vh if q == 0 else vol)[:, None, None]) for q in range(3)]
        cont(c, U, fn, fo, dr, dz, rmin, dt, eps * loss * M, "divided current", True)
    return {"nontrivial": M > 1, "labels": ["modes=%d" % M, "order %d %d" % (c["nox"], c["noz"]), "type %d" % c["type"],
                                            "axis" if rmin == 0 else "rmin"]}


def cont(c, J, rn, ro, dr, dz, rmin, dt, eps, what, folded):
    G = J[0]
    g0 = G.g[0]
    ri = rmin + G.nodes(0) * dr
    lo = g0 + 1 if folded else 1
    sel = np.arange(lo, len(ri) - 1)
    sel = sel[np.abs(ri[sel]) > 0.5 * dr] if rmin == 0 else sel[np.abs(ri[sel]) > 1e-9 * dr]
    zs = np.arange(1, G.v.shape[1])
    for m in range(rn.shape[2]):
        d = (J[0].v[sel, :, m] - J[0].v[sel - 1, :, m]) / dr
        if m:
            d = d - 1j * m * J[1].v[sel, :, m] / ri[sel][:, None]
        d = d[:, zs] + (J[2].v[sel][:, zs, m] - J[2].v[sel][:, zs - 1, m]) / dz
        r = -(rn - ro)[sel][:, zs, m] / dt
        s = (np.abs(rn).sum() + np.abs(ro).sum()) / dt * 4
        same(d, r, eps * s + 1e-300, "%s, mode %d: divergence against the change of charge" % (what, m))


def run_mono(c):
    c = dict(c, own=True)
    dr, dz, rmin, zmin, dt, P = setup(c)
    k = kin(c, dr, dz, rmin, zmin, dt, P)
    edge(c, k, dr, dz, rmin, zmin)
    n, g = (c["nr"], c["nz"]), c["g"]
    J = [Grid(g, n) for _ in range(3)]
    names = ["Jr", "Jtheta", "Jz"]
    if c["type"] == 2:
        CTX["F"]("pxr_depose_jxjyjz_esirkepov2d_n", *J[0].args, *J[1].args, *J[2].args, c["np"], *P, c["q"], rmin, zmin, dt, dr, dz,
                 c["nox"], c["noz"], True, False, True, 2)
    else:
        CTX["F"]("depose_jrjtjz_generic_rz", *J[0].args, *J[1].args, *J[2].args, c["np"], *P, c["q"], rmin, zmin, dt, dr, dz, c["nox"],
                 c["noz"], 8, 3 if c["seed"] % 2 else 0)
    near = np.min([k["rm"], k["rn"], k["ro"]], axis=0) / dr
    if np.any(near < 1e-6):
        raise Discard()
    loss = 1 + 1.0 / near.min() * 1e-1
    Wmax = np.abs(k["W"]).sum()
    S = [Wmax / (dt * dz), Wmax * C / (dr * dz), Wmax / (dt * dr)]
    eps = 1e-14 * (1 + c["rmin"] + c["nr"] + abs(c["zmin"]) / c["dz"] + c["nz"]) * 4
    # the azimuthal velocity: azimuth somewhere between the start and the end of the step
    R = ref_j(dict(c, nmodes=1), dr, dz, rmin, zmin, dt, k, J[0], k["tm"])
    Rn = ref_j(dict(c, nmodes=1), dr, dz, rmin, zmin, dt, k, J[0], k["tn"])
    for q in range(3):
        J[q].ok(names[q])
        if q != 1:
            same(J[q].v + 0j, R[q][:, :, 0], eps * S[q] * loss, "deposited " + names[q])
    a, b = R[1][:, :, 0], Rn[1][:, :, 0]
    # each particle may take any azimuth in the interval; the turn in half a step bounds the difference
    turn = np.abs((k["tn"] - k["tm"] + np.pi) % (2 * np.pi) - np.pi)
    if turn.max() < 0.05:
        same(J[1].v + 0j, a, 1.02 * turn.max() * S[1] + eps * S[1] * loss, "deposited Jtheta")
    same(J[1].v + 0j, b, eps * S[1] * loss * 10, "deposited Jtheta (azimuth at the end of the step)")
    rho = []
    for x, y, z in ((P[0], P[1], P[2]), (P[0] - dt * k["vx"], P[1] - dt * k["vy"], P[2] - dt * k["vz"])):
        rg = Grid(g, n)
        rm = P[7]
        CTX["F"]("pxr_depose_rho_n_2dxz", rg.buf[2048:], c["np"], pad1(x), pad1(y), pad1(z), rm, c["q"], rmin, zmin, dr, dz, n[0] - 1,
                 n[1] - 1, g[0], g[1], c["nox"], c["noz"], True, False, True, c["type"])
        rg.ok("rho")
        rho.append(rg)
    e = ref_rho(c, dr, dz, rmin, zmin, k["rn"], k["tn"], k["zn"], k["W"], J[0], 1)
    same(rho[0].v + 0j, e[:, :, 0], eps * Wmax / (dr * dz), "deposited charge")
    tot = rho[0].v.sum() * dr * dz
    same(np.array([tot]), np.array([k["W"].sum()]), eps * Wmax, "total charge")
    JJ = [Grid(g, n, 1, q.v[:, :, None]) for q in J]
    cont(dict(c, nmodes=1), JJ, rho[0].v[:, :, None] + 0j, rho[1].v[:, :, None] + 0j, dr, dz, rmin, dt, eps * loss, "deposited current", False)
    # division by the volume
    V = [Grid(g, n, None, q.v.copy()) for q in J]
    Q = Grid(g, n, None, rho[0].v.copy())
    CTX["F"]("apply_rz_volume_scaling_j", *V[0].args, *V[1].args, *V[2].args, rmin, dr, c["type"])
    CTX["F"]("apply_rz_volume_scaling_rho", *Q.args, rmin, dr, c["type"])
    G = J[0]
    g0 = G.g[0]
    ri = rmin + G.nodes(0) * dr
    vol = volumes(c, G, rmin, dr, c["type"])
    vh = 2 * np.pi * np.abs(ri + 0.5 * dr)
    s = 1 if rmin == 0 else 0
    with np.errstate(all="ignore"):
        e = [fold(J[0].v, G, -s, True) / vh[:, None], fold(J[1].v, G, -s, False) / vol[:, None], fold(J[2].v, G, s, False) / vol[:, None],
             fold(rho[0].v, G, s, False) / vol[:, None]]
    if rmin == 0:
        e[1][g0] = 0
    for q, (a, o) in enumerate(zip(V + [Q], J + [rho[0]])):
        what = (names + ["rho"])[q]
        a.ok(what + " after the division")
        same(a.v[g0:], e[q][g0:], 1e-14 * (np.abs(e[q][g0:]).max() + np.abs(o.v).max() / (dr * 0.5)), what + " divided by the volume")
    if rmin == 0:
        for a, o, what in ((V[2], J[2], "Jz"), (Q, rho[0], "charge")):
            same(np.array([(a.v[g0:] * vol[g0:, None]).sum()]), np.array([o.v.sum()]), 1e-13 * np.abs(o.v).sum() + 1e-300,
                 "total %s after the division by the volume" % what)
    return {"nontrivial": bool(rmin == 0 and np.min(k["rn"]) < 2 * dr), "labels": ["order %d %d" % (c["nox"], c["noz"]), "type %d" % c["type"],
                                                                                "axis" if rmin == 0 else "rmin"]}


# ------------------------------------------------------------------ gathering
@st.composite
def gat_case(draw):
    c = draw(grid_case())
    c.update(np=draw(NP), nox=draw(st.integers(1, 3)), noz=draw(st.integers(1, 3)), lower=draw(st.booleans()), nodal=draw(st.sampled_from([False, False, True])),
             near=draw(st.booleans()), kind=draw(st.sampled_from(["random", "random", "uniform"])), man=draw(st.booleans()))
    return c


def run_gat(c):
    r = np.random.default_rng(c["seed"])
    u = c["unit"]
    dr, dz = c["dr"] * u, c["dz"] * u
    rmin, zmin = c["rmin"] * dr, c["zmin"] * u
    M, n, g, np_ = c["nmodes"], (c["nr"], c["nz"]), c["g"], c["np"]
    if c["man"]:
        g = [g[0], g[1]]
    R = 1.2 if c["near"] else c["nr"] - 1.5
    t = r.random(np_) * R
    rad = rmin + t * dr
    th = r.random(np_) * 2 * np.pi
    x, y = pad1(rad * np.cos(th)), pad1(rad * np.sin(th))
    if c["rmin"] == 0 and r.random() < 0.3:
        x[0] = y[0] = 0.0
    z = pad1(zmin + (0.5 + r.random(np_) * (c["nz"] - 2)) * dz)
    rad, th = np.hypot(x, y), np.arctan2(y, x)
    sh = 0.0 if c["nodal"] else 0.5
    U = r.standard_normal(6)
    # Er Et Ez Br Bt Bz
    half = [(1, 0), (0, 0), (0, 1), (0, 1), (1, 1), (1, 0)]
    A = [Grid(g, n, M) for _ in range(6)]
    if c["kind"] == "random":
        for a in A:
            a.v[...] = r.standard_normal(a.v.shape) + 1j * r.standard_normal(a.v.shape)
    else:
        # the same vector everywhere: Fx cos + Fy sin and -Fx sin + Fy cos are in mode 1, Fz in mode 0
        for k in (0, 3):
            if M > 1:
                A[k].v[:, :, 1] = U[k] + 1j * U[k + 1]
                A[k + 1].v[:, :, 1] = U[k + 1] - 1j * U[k]
            A[k + 2].v[:, :, 0] = U[k + 2]
    start = r.standard_normal((6, np_))
    out = [pad1(s.copy()) for s in start]
    if c["man"]:
        CTX["F"]("geteb2dcirc_energy_conserving", np_, x, y, z, *out, rmin, zmin, dr, dz, n[0] - 1, n[1] - 1, M, g[0], g[1], c["nox"],
                 c["noz"], c["lower"], c["nodal"], *[a.buf[2048:] for a in A])
    else:
        CTX["F"]("geteb2dcirc_energy_conserving_generic", np_, x, y, z, *out, rmin, zmin, dr, dz, M, c["nox"], c["noz"], c["lower"],
                 c["nodal"], *[v for a in A for v in a.args])
    W = []
    for a, (hr, hz) in zip(A, half):
        o = [c["nox"], c["noz"]]
        s = [0.0, 0.0]
        for q, h in enumerate((hr, hz)):
            if h:
                o[q] -= 1 if c["lower"] else 0
                s[q] = sh
        uu = [(rad - rmin) / dr - s[0], (z - zmin) / dz - s[1]]
        for q in range(2):
            if o[q] == 0 and np.any(np.abs((uu[q] + 0.5) % 1) < 1e-7):
                raise Discard()
        wr, wz = weights(o[0], uu[0], a.nodes(0)), weights(o[1], uu[1], a.nodes(1))
        W.append(sum(np.real(np.einsum("pi,pk,ik->p", wr, wz, a.v[:, :, m]) * np.exp(-1j * m * th)) for m in range(M)))
    exp_ = []
    for k in (0, 3):
        exp_ += [W[k] * np.cos(th) - W[k + 1] * np.sin(th), W[k] * np.sin(th) + W[k + 1] * np.cos(th), W[k + 2]]
    for k in range(6):
        tol = 1e-13 * M * (c["rmin"] + c["nr"] + abs(c["zmin"]) / c["dz"] + 10) * (np.abs(A[k].v).max() + 5)
        same(out[k] - start[k], exp_[k], tol, "gathered %s" % "Ex Ey Ez Bx By Bz".split()[k])
        if c["kind"] == "uniform" and M > 1:
            same(out[k] - start[k], np.full(np_, U[k]), tol * 10, "uniform field, gathered %s" % "Ex Ey Ez Bx By Bz".split()[k])
    return {"nontrivial": M > 1, "labels": ["modes=%d" % M, "order %d %d" % (c["nox"], c["noz"]), c["kind"], "lower" if c["lower"] else "full",
                                            "nodal" if c["nodal"] else "yee"]}


# ------------------------------------------------------------------ field solver
@st.composite
def fdtd_case(draw):
    c = draw(grid_case())
    c.update(multi=draw(st.booleans()), cut=[draw(st.integers(0, 1)) for _ in range(4)], which=draw(st.sampled_from(["e", "b"])))
    return c


def run_fdtd(c):
    r = np.random.default_rng(c["seed"])
    u = c["unit"]
    dr, dz = c["dr"] * u, c["dz"] * u
    M = c["nmodes"] if c["multi"] else 1
    rmin = c["rmin"] * dr
    dt = 0.3 * min(dr, dz) / C
    nr, nz = c["nr"], c["nz"]
    lo, hi = (-2, -2), (nr + 2, nz + 2)
    shape = (hi[0] - lo[0] + 1, hi[1] - lo[1] + 1, M)
    B6 = []
    for k in range(9):
        a = np.asfortranarray(r.standard_normal(shape) + 1j * r.standard_normal(shape))
        if not c["multi"]:
            a = np.asfortranarray(a.real[:, :, 0])
        B6.append(a)
    names = "Er Et Ez Br Bt Bz Jr Jt Jz".split()
    old = [a.copy().reshape(shape) for a in B6]
    bl, bh = np.array(lo, np.int64), np.array(hi, np.int64)
    # box to advance, on or after the axis
    x0, x1 = c["cut"][0], nr - c["cut"][1]
    z0, z1 = c["cut"][2], nz - c["cut"][3]
    l, h = np.array([x0, z0], np.int64), np.array([x1, z1], np.int64)
    boxes = [l, h] * 3
    f = lambda k: [B6[k], bl, bh]
    mu = 4e-7 * np.pi * C * C * dt
    suf = "_multimode" if c["multi"] else ""
    head = boxes + ([M] if c["multi"] else [])
    if c["which"] == "b":
        CTX["F"]("pxrpush_emrz_bvec" + suf, *head, *[v for k in range(6) for v in f(k)], dt / dr, 0.0, dt / dz, rmin, dr)
    else:
        k2 = C * C * dt
        CTX["F"]("pxrpush_emrz_evec" + suf, *head, *[v for k in range(9) for v in f(k)], mu, k2 / dr, 0.0, k2 / dz, rmin, dr)
    new = [a.reshape(shape) for a in B6]
    J = np.arange(x0, x1 + 1) - lo[0]
    K = np.arange(z0, z1 + 1) - lo[1]
    jj, kk = np.ix_(J, K)
    ra = rmin + (J + lo[0])[:, None] * dr
    rh = ra + dr / 2
    exp_ = [o.copy() for o in old]
    er, et, ez, br, bt, bz, jr, jt, jz = old
    axis = rmin == 0 and x0 == 0
    with np.errstate(all="ignore"):
        for m in range(M):
            im = 1j * m if c["multi"] else 0
            if c["which"] == "b":
                d = im * ez[jj, kk, m] / ra if m else 0
                d = d + (et[jj, kk + 1, m] - et[jj, kk, m]) / dz
                exp_[3][jj, kk, m] += dt * d
                if axis and c["multi"]:
                    if m == 1:
                        exp_[3][J[0], K, m] = br[J[0], K, m] + dt * (1j * ez[J[0] + 1, K, m] / dr + (et[J[0], K + 1, m] - et[J[0], K, m]) / dz)
                    else:
                        exp_[3][J[0], K, m] = 0
                exp_[4][jj, kk, m] += dt * ((ez[jj + 1, kk, m] - ez[jj, kk, m]) / dr - (er[jj, kk + 1, m] - er[jj, kk, m]) / dz)
                exp_[5][jj, kk, m] -= dt * (((ra + dr) * et[jj + 1, kk, m] - ra * et[jj, kk, m]) / (rh * dr) + im * er[jj, kk, m] / rh)
            else:
                c2 = C * C * dt
                exp_[0][jj, kk, m] += -c2 * (im * bz[jj, kk, m] / rh + (bt[jj, kk, m] - bt[jj, kk - 1, m]) / dz) - mu * jr[jj, kk, m]
                exp_[1][jj, kk, m] += c2 * (-(bz[jj, kk, m] - bz[jj - 1, kk, m]) / dr + (br[jj, kk, m] - br[jj, kk - 1, m]) / dz) - mu * jt[jj, kk, m]
                d = (rh * bt[jj, kk, m] - (rh - dr) * bt[jj - 1, kk, m]) / (ra * dr) + (im * br[jj, kk, m] / ra if m else 0)
                exp_[2][jj, kk, m] += c2 * d - mu * jz[jj, kk, m]
                if axis:
                    j = J[0]
                    if c["multi"]:
                        exp_[1][j, K, m] = -1j * exp_[0][j, K, m] if m == 1 else 0
                    else:
                        exp_[1][j, K, m] = et[j, K, m]
                    # flux of the circulation around the axis cell
                    exp_[2][j, K, m] = ez[j, K, m] + c2 * 4 * bt[j, K, m] / dr - mu * jz[j, K, m] if m == 0 else 0
    s = max(1.0, C * C * dt / min(dr, dz)) if c["which"] == "e" else 1.0
    s = (s + mu) if c["which"] == "e" else 1.0 + dt / min(dr, dz)
    for k in range(9):
        same(new[k] + 0j, exp_[k] + 0j, 1e-13 * (s * (6 + M + 2 * c["nr"]) + 10), "%s after the push of %s" % (names[k], c["which"].upper()))
    # divergence: the push of B changes no div B; away from the axis the push of E changes div E only through the current
    if x1 - x0 > 2 and z1 - z0 > 2:
        jn = J[1:-1]
        ks = K[1:-1]
        a, b = np.ix_(jn, ks)
        R0 = rmin + (jn + lo[0])[:, None] * dr
        RH = R0 + dr / 2
        for m in range(M):
            im = 1j * m if c["multi"] else 0
            if c["which"] == "b":
                D = [n_ - o for n_, o in zip(new[3:6], old[3:6])]
                div = ((R0 + dr) * D[0][a + 1, b, m] - R0 * D[0][a, b, m]) / (RH * dr) - im * D[1][a, b, m] / RH + (D[2][a, b + 1, m] - D[2][a, b, m]) / dz
                same(div + 0j, 0 * div + 0j, 1e-11 * s * (M + 2) * (1 + 1 / dr + 1 / dz) * 10, "change of div B, mode %d" % m)
            else:
                D = [n_ - o + mu * q for n_, o, q in zip(new[:3], old[:3], old[6:])]
                div = (RH * D[0][a, b, m] - (RH - dr) * D[0][a - 1, b, m]) / (R0 * dr) - im * D[1][a, b, m] / R0 + (D[2][a, b, m] - D[2][a, b - 1, m]) / dz
                same(div + 0j, 0 * div + 0j, 1e-11 * s * (M + 2) * (1 + 1 / dr + 1 / dz) * 10, "change of div E without current, mode %d" % m)
    return {"nontrivial": M > 1 or axis, "labels": ["modes=%d" % M, "push " + c["which"], "axis" if axis else "off axis"]}


PARTS = [Part("current", dep_case(), run_circ, quick=2000, thorough=40000, shards=2, thorough_shards=4),
         Part("single", dep_case(False), run_mono, quick=2000, thorough=40000, shards=2, thorough_shards=4),
         Part("gather", gat_case(), run_gat, quick=2000, thorough=40000, shards=2, thorough_shards=4),
         Part("fields", fdtd_case(), run_fdtd, quick=2000, thorough=40000, shards=1, thorough_shards=4)]
