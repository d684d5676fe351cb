"""F23: absorbing layers: one step of the split fields against the exact push and the damping; a pulse leaves the box without coming back."""
from checks.simc import *
from checks.f17 import wave, boxes
from checks.f24 import charge
PID = "F23"
RULE = ("step: random split fields (guard cells of the absorbing sides included), currents and densities on generated grids, stencil orders, process splits and "
        "subsets of absorbing axes; 1-3 whole solver steps (push, exchange, damping, merge). sigma: same domains, layers of other widths. absorb: a localised "
        "pulse at a generated place in the middle of the box, until it has left. Non-trivial when at least one axis absorbs "
        "and the fields are non-zero.")
ASSUMPTIONS = ["transforms per process (the mode of the example decks)", "guard cells of currents equal those of the fields", "tolerance 2e-11 of the largest value",
               "absorb: layers of at least 8 cells within the guard cells, pulse of at least 8 cells length"]
SPL = ["exy", "exz", "eyx", "eyz", "ezx", "ezy", "bxy", "bxz", "byx", "byz", "bzx", "bzy"]
SRC = ["jx", "jy", "jz", "rho", "rhoold"]


def prepare():
    sim.prepare(omp=True)


def push(box, d, o, dt, dim):
    """Exact step of the split fields on a periodic box."""
    n = box["exy"].shape
    K = [wave(n[a], d[a], o[a], a == 0) for a in range(3)]
    if dim == 2:
        K[1] = (np.zeros(1), np.ones(1))
    sh = [(-1, 1, 1), (1, -1, 1), (1, 1, -1)]
    k = [K[a][0].reshape(sh[a]) for a in range(3)]
    up = [k[a] * K[a][1].reshape(sh[a]) for a in range(3)]
    dn = [k[a] * np.conj(K[a][1]).reshape(sh[a]) for a in range(3)]
    h = {q: np.fft.rfftn(v, axes=(2, 1, 0)) for q, v in box.items()}
    kk = np.sqrt(sum(np.abs(q) ** 2 for q in k))
    w = C * dt * kk
    with np.errstate(all="ignore"):
        S = np.where(kk == 0, C * dt, np.sin(w) / kk)
        Q = 2 * np.where(kk == 0, 0.5 * C * dt, np.sin(w / 2) / kk) ** 2
        r1 = np.where(w < 1e-3, -1 / 6. + w * w / 120, (np.sin(w) / w - 1) / (w * w)) * (C * dt) ** 2
        r0 = np.where(w < 1e-3, -1 / 3. + w * w / 30, (np.cos(w) - np.sin(w) / w) / (w * w)) * (C * dt) ** 2
    Cc = np.cos(w)
    ax = "xyz"
    full = {f + p: h[f + p + [q for q in ax if q != p][0]] + h[f + p + [q for q in ax if q != p][1]] for f in "eb" for p in ax}
    J = [h["j" + p] for p in ax]
    out = {}
    for i in range(3):
        for a in [q for q in range(3) if q != i]:       # derivative along a
            t = 3 - i - a
            s = 1 if (i, a, t) in ((0, 1, 2), (1, 2, 0), (2, 0, 1)) else -1
            e, b = "e" + ax[i] + ax[a], "b" + ax[i] + ax[a]
            out[e] = Cc * h[e] + s * 1j * C * S * dn[a] * full["b" + ax[t]]
            out[b] = Cc * h[b] - s * 1j * S / C * up[a] * full["e" + ax[t]]
        f = {0: "exy", 1: "eyx", 2: "ezx"}[i]
        out[f] = out[f] - MU0 * C * S * J[i] + 1j * up[i] / EPS0 * (r0 * h["rhoold"] + r1 * h["rho"])
        f = "b" + f[1:]
        j, l = (i + 1) % 3, (i + 2) % 3
        out[f] = out[f] + 1j * MU0 * Q * (up[j] * J[l] - up[l] * J[j])
    return {q: np.fft.irfftn(v, s=(n[2], n[1], n[0]), axes=(2, 1, 0)) for q, v in out.items()}


@st.composite
def domain(draw):
    dim = draw(st.sampled_from([3, 3, 2]))
    ab = draw(st.sampled_from([[1, 1, 1], [0, 0, 1], [1, 0, 0], [0, 1, 0], [1, 1, 0], [0, 1, 1], [1, 0, 1]]))
    if dim == 2:
        ab = [ab[0], 0, ab[2]] if ab[0] or ab[2] else [1, 0, 1]
    split = draw(splits(dim))
    g = [draw(st.integers(2, 5)) for _ in range(3)]
    n = [draw(st.integers(max(6, g[a] + 1) * split[a], max(12, g[a] + 4) * split[a] if split[a] > 1 else 16)) for a in range(3)]
    return dict(dim=dim, mode="local", ab=ab, split=split, g=g, n=n, d=[draw(st.sampled_from([1e-6, 0.7e-6, 2.5e-6])) for _ in range(3)],
                o=[draw(st.sampled_from([0, 2, 4, 16])) for _ in range(3)],
                pml=[draw(st.integers(1, min(n[a], n[a] // 2 + g[a]))) for a in range(3)], seed=draw(SEED), omp=draw(st.sampled_from([0, 0, 2])))


def deck(c, **main):
    s = dict(l_spectral=True, norderx=c["o"][0], nordery=c["o"][1], norderz=c["o"][2])
    for a in range(3):
        if c["ab"][a]:
            s["absorbing_bcs_" + "xyz"[a]] = True
        s["n%s_pml" % "xyz"[a]] = c["pml"][a]
    return mkdeck(c["dim"], c["n"], c["split"], d=c["d"], guards=c["g"], solver=s, main=dict(dict(nsteps=1000), **main))


def simulate(c, ops, files, **main):
    return sim.run(deck(c, **main), ops, int(np.prod(c["split"])), files, which="omp" if c["omp"] else "drv", threads=c["omp"] or 1, timeout=120)


def sigmas(c, D):
    """Damping factors of the whole domain; array index = cell + guards. Checks that they are a symmetric layer."""
    out = {}
    for a in range(3):
        if c["dim"] == 2 and a == 1:
            continue
        ax, g, N = "xyz"[a], c["g"][a], c["n"][a]
        for f in "eb":
            s = np.full(N + 2 * g, np.nan)
            nm = "sigma_%s_%s" % (ax, f)
            for q in D:
                lo, m = q.i("c%smin" % ax), q.i("n" + ax)
                v = q.a[nm].ravel()
                if v.size != m + 2 * g:
                    raise Violation("%s has %d values for %d cells and %d guards" % (nm, v.size, m, g))
                old = s[lo:lo + m + 2 * g]
                if (~np.isnan(old) & (old != v)).any():
                    raise Violation("%s differs between processes at the same cell" % nm)
                s[lo:lo + m + 2 * g] = v
            out[ax + f] = s
            if not c["ab"][a]:
                if not np.array_equal(s, np.ones_like(s)):
                    raise Violation("%s damps along an axis without absorbing layer" % nm)
                continue
            if not ((s > 0) & (s <= 1)).all():
                raise Violation("%s is not between 0 and 1" % nm)
        if c["ab"][a]:
            e, b = out[ax + "e"], out[ax + "b"][:-1]
            w = np.empty(e.size + b.size)
            w[0::2], w[1::2] = e, b       # along the axis: node, centre, node ...
            if not np.allclose(w, w[::-1], rtol=1e-12, atol=0):
                raise Violation("the layers of the two sides along %s differ" % ax)
            p = c["pml"][a]
            h = w[:w.size // 2 + 1]
            if p <= N // 2:
                if not (h[2 * p:] == 1).all():
                    raise Violation("fields are damped outside the %d cells of the layer along %s" % (p, ax))
                if not (np.diff(h) >= 0).all() or not (h[:2 * p - 1] < 1).all():
                    raise Violation("the damping along %s does not grow towards the edge, over %d cells: %s" % (ax, p, h[:2 * p + 1]))
    return out


class Ext:
    """The whole domain with the guard cells of the absorbing sides: places of cells in such an array."""

    def __init__(self, c):
        self.dim, self.ab, self.g = c["dim"], c["ab"], list(c["g"])
        self.N = [c["n"][0], c["n"][1] if c["dim"] == 3 else 1, c["n"][2]]
        if self.dim == 2:
            self.g[1] = 0
        self.G = [self.g[a] if self.ab[a] else 0 for a in range(3)]
        self.M = [self.N[a] + 2 * self.G[a] for a in range(3)]

    def idx(self, lo, n):
        return np.ix_(*[(np.arange(lo[a], lo[a] + n[a]) + self.G[a]) % self.M[a] if self.ab[a] else np.arange(lo[a], lo[a] + n[a]) % self.N[a] for a in range(3)])

    def own(self, lo, n):
        """First cell and number of cells of the part a process is alone to know."""
        l = [-self.G[a] if lo[a] == 0 else lo[a] for a in range(3)]
        u = [self.N[a] + self.G[a] if lo[a] + n[a] == self.N[a] else lo[a] + n[a] for a in range(3)]
        return l, [u[a] - l[a] for a in range(3)]

    def where(self, q):
        return ([q.i("cxmin"), q.i("cymin") if self.dim == 3 else 0, q.i("czmin")], [q.i("nx"), q.i("ny") if self.dim == 3 else 1, q.i("nz")])

    def glob(self, D, k):
        out = np.full(self.M, np.nan)
        for q in D:
            lo, n = self.where(q)
            pl, pn = self.own(lo, n)
            out[self.idx(pl, pn)] = q.a[k][tuple(slice(pl[a] - lo[a] + self.g[a], pl[a] - lo[a] + self.g[a] + pn[a]) for a in range(3))]
        return out


def advance(c, X, D, f, sg, dt):
    """One solver step of the split fields f (arrays of X), in the boxes of the processes of D."""
    new = {k: np.full(X.M, np.nan) for k in SPL}
    for (lo, n, (bl, bn)) in boxes(c, D):
        box = {k: f[k][X.idx(bl, bn)] for k in SPL + SRC}
        for a in range(3):      # the wall: no magnetic field between the last node and, periodically, the first
            if X.ab[a] and lo[a] + n[a] == X.N[a]:
                w = [slice(None)] * 3
                w[a] = -1
                for q in SPL[6:]:
                    if q[1] != "xyz"[a]:
                        box[q][tuple(w)] = 0
        res = push(box, c["d"], c["o"], dt, c["dim"])
        pl, pn = X.own(lo, n)
        for k in SPL:
            new[k][X.idx(pl, pn)] = res[k][tuple(slice(pl[a] - bl[a], pl[a] - bl[a] + pn[a]) for a in range(3))]
    for k in SPL:
        a = "xyz".index(k[2])
        if X.dim == 2 and a == 1:
            continue
        v = sg[k[2] + k[0]]
        v = v if X.ab[a] else v[X.g[a]:X.g[a] + X.N[a]]
        sh = [1, 1, 1]
        sh[a] = -1
        new[k] = new[k] * v.reshape(sh)
    return new


def expect(c, X, D, f, tol0, when):
    """Every value of every process, guard cells included, is the one of the split fields f and of their sums."""
    ref = dict(f)
    for F in "eb":
        for p in "xyz":
            q = [x for x in "xyz" if x != p]
            ref[F + p] = f[F + p + q[0]] + f[F + p + q[1]]
    top = max(max(np.abs(f[q]).max() * (C if q[0] == "b" else 1) for q in SPL), tol0[1])
    for q in D:
        lo, n = X.where(q)
        ix = X.idx([lo[a] - X.g[a] for a in range(3)], [n[a] + 2 * X.g[a] for a in range(3)])
        for k in SPL + ["ex", "ey", "ez", "bx", "by", "bz"] + tol0[2]:
            have = q.a[k][tuple(slice(0, n[a] + 2 * X.g[a]) for a in range(3))]
            close(have, ref[k][ix], 0 if k in SRC else tol0[0] * top / (C if k[0] == "b" else 1), "%s of process %s %s" % (k, lo, when))


def load(X, f, ops):
    fl = {}
    for nm in f:
        # one more plane for the upper guards, which reach one node further
        big = np.zeros([X.M[a] + (1 if X.ab[a] else 0) for a in range(3)])
        big[:X.M[0], :X.M[1], :X.M[2]] = f[nm]
        for a in range(3):
            big = np.roll(big, -X.G[a], a)               # index 0 = cell 0, guards wrapped
        fl[nm + ".bin"] = ("f", big)
        ops.append("loadf %s %s.bin" % (nm, nm))
    return fl


def labels(c):
    return ["%dD" % c["dim"], "absorbing " + "".join("xyz"[a] for a in range(3) if c["ab"][a]), "%d processes" % np.prod(c["split"])]


def run_step(c):
    rng = np.random.default_rng(c["seed"])
    X = Ext(c)
    dmin = min(c["d"]) if c["dim"] == 3 else min(c["d"][0], c["d"][2])
    dt = dmin / C
    sc = dict(e=1., b=1 / C, j=EPS0 / dt, r=EPS0 / dmin)
    f = {}
    for nm in SPL + SRC:
        f[nm] = rng.standard_normal(X.M) * sc[nm[0]]      # index 0 = cell -G
        if rng.random() < 0.1:
            f[nm] = np.zeros(X.M)
    ops = []
    fl = load(X, f, ops)
    ops.append("dumpf d0")
    for s in range(c["steps"]):
        ops += ["call push_psatd_ebfield", "call efield_bcs", "call bfield_bcs", "call field_damping_bcs", "call merge_fields", "dumpf d%d" % (s + 1)]
    with simulate(c, ops, fl) as r:
        D = [r.dumps("d%d" % s) for s in range(c["steps"] + 1)]
    if abs(D[0][0]["dt"] - dt) > 1e-12 * dt:
        raise Violation("time step %r instead of %r" % (D[0][0]["dt"], dt))
    sg = sigmas(c, D[0])
    for s in range(c["steps"]):
        f.update(advance(c, X, D[0], f, sg, dt))
        expect(c, X, D[s + 1], f, (2e-11, 1e-30, SRC), "after %d steps" % (s + 1))
    return {"nontrivial": True, "labels": labels(c)}


@st.composite
def step(draw):
    c = draw(domain())
    c["steps"] = draw(st.sampled_from([1, 1, 2, 3]))
    return c


def run_sigma(c):
    with simulate(c, ["dumpf d0"], {}) as r:
        sigmas(c, r.dumps("d0"))
    return {"nontrivial": True}


@st.composite
def absorb(draw, dim):
    ab = draw(st.sampled_from([[1, 1, 1], [0, 0, 1], [1, 0, 0], [0, 1, 0], [1, 0, 1]] if dim == 3 else [[1, 0, 1], [1, 0, 0], [0, 0, 1]]))
    one = sum(ab) == 1
    g = [draw(st.integers(8, 12)) if ab[a] else 3 for a in range(3)]
    big = draw(st.sampled_from([32, 40])) if one else 28 if dim == 2 else 20
    n = [big if ab[a] else draw(st.integers(4, 6)) for a in range(3)]
    split = [1, 1, 1]
    if draw(st.booleans()):
        a = draw(st.sampled_from([k for k in range(3) if ab[k]]))
        split[a] = 2
        g[a] = min(g[a], n[a] // 2 - 1)         # guards of a process within its neighbour
    return dict(dim=dim, mode="local", ab=ab, split=split, g=g, n=n, d=[1e-6] * 3, o=[draw(st.sampled_from([2, 8, 16, 0]))] * 3,
                pml=[g[a] if ab[a] else 0 for a in range(3)], w=draw(st.floats(2.2, 3.)), pol=draw(st.integers(0, 2)),
                pos=[draw(st.floats(-2., 2.)) for _ in range(3)], omp=draw(st.sampled_from([0, 2])))


def run_absorb(c):
    X = Ext(c)
    N, G, M = X.N, X.G, X.M
    # electric field of a blob of vector potential: transverse
    psi = []
    K = [wave(M[a], c["d"][a], 0, a == 0) for a in range(3)]
    if c["dim"] == 2:
        K[1] = (np.zeros(1), np.ones(1))
    sh = [(-1, 1, 1), (1, -1, 1), (1, 1, -1)]
    k = [(K[a][0] * np.conj(K[a][1])).reshape(sh[a]) for a in range(3)]
    b = []
    for t in range(3):
        r2 = 0.
        for a in range(3):
            if X.ab[a]:
                x = np.arange(M[a]) - G[a] + (0.5 if a != t else 0.) - (N[a] - 1) / 2. - c["pos"][a]
                r2 = r2 + (x.reshape(sh[a]) / c["w"]) ** 2
        b.append(np.fft.rfftn(np.broadcast_to((1. if t == c["pol"] else 0.3) * np.exp(-r2 / 2) * np.ones(M), M), axes=(2, 1, 0)))
    f = {q: np.zeros(M) for q in SPL}
    for i in range(3):
        v = 1j * (k[(i + 1) % 3] * b[(i + 2) % 3] - k[(i + 2) % 3] * b[(i + 1) % 3])
        v = np.fft.irfftn(v, s=(M[2], M[1], M[0]), axes=(2, 1, 0))
        q = [x for x in "xyz" if x != "xyz"[i]]
        q = [x for x in q if c["ab"]["xyz".index(x)]] or q      # the part that the absorbing axes damp
        for p in q:
            f["e" + "xyz"[i] + p] = v / len(q)
    ops = []
    fl = load(X, f, ops)
    L = max(N[a] + 2 * G[a] for a in range(3) if X.ab[a])
    n = int(1.6 * L * (np.sqrt(sum(X.ab))))
    marks = [0] + [int(q * n) for q in (0.1, 0.2, 0.3, 0.5, 0.75, 1.)]
    ops.append("dumpf e0")
    for i in range(1, len(marks)):
        ops += ["step %d" % (marks[i] - marks[i - 1]), "dumpf e%d" % i]
    # the fields the particles see are those of the split ones
    ops.insert(len(ops) - 2 * (len(marks) - 1) - 1, "call merge_fields")
    W = []
    with simulate(c, ops, fl) as r:
        for i in range(len(marks)):
            D = r.dumps("e%d" % i)
            W.append(sum((sim.glob(D, q) ** 2).sum() * (C * C if q[0] == "b" else 1) for q in ["ex", "ey", "ez", "bx", "by", "bz"]))
    if W[0] == 0:
        return {"nontrivial": False}
    W = np.array(W) / W[0]
    if not W.max() <= 1.01:
        raise Violation("the energy grows from 1 to %g" % W.max())
    for k, lim in ((4, 1e-3), (5, 5e-4), (6, 2e-4)) if sum(c["ab"]) > 1 else ((4, 1e-3), (5, 2e-5), (6, 2e-6)):
        if not W[k] < lim:
            raise Violation("after %d steps, when the pulse should be gone, %.3g of the energy is still in the box (allowed %g); history %s"
                            % (marks[k], W[k], lim, ["%.2e" % x for x in W]))
    return {"nontrivial": True, "labels": labels(c)}


@st.composite
def simcase(draw):
    c = draw(domain())
    o = draw(st.sampled_from([1, 2, 3]))
    g = o + 2
    c["g"] = [g + draw(st.integers(0, 2)) for _ in range(3)]
    c["n"] = [draw(st.integers(max(16, (g + 3) * c["split"][a]), max(20, (g + 5) * c["split"][a]))) if c["ab"][a] else max(c["n"][a], (g + 3) * c["split"][a]) for a in range(3)]
    c["pml"] = [draw(st.integers(1, c["g"][a] + 2)) for a in range(3)]
    c.update(no=[o] * 3, org=[0.] * 3, steps=draw(st.integers(1, 4)), npart=draw(st.integers(1, 30)), hot=draw(st.sampled_from([0.05, 1., 20.])),
             amp=draw(st.sampled_from([0., 0.01])), tiles=[draw(st.integers(1, 2)) for _ in range(3)])
    return c


def run_sim(c):
    rng = np.random.default_rng(c["seed"])
    X = Ext(c)
    ax = [0, 1, 2] if c["dim"] == 3 else [0, 2]
    m = c["npart"]
    rows = np.zeros((2 * m, 11))
    rows[:, 0] = np.repeat([1, 2], m)
    for a in ax:
        x = rng.uniform(5.5, c["n"][a] - 5.5, 2 * m) if c["ab"][a] else rng.uniform(0, c["n"][a], 2 * m)
        rows[:, 1 + a] = x * c["d"][a]
    u = rng.normal(size=(2 * m, 3)) * c["hot"]
    rows[:, 4:7] = u * C
    rows[:, 7] = 1 / np.sqrt(1 + (u ** 2).sum(1))
    rows[:, 8] = 1e6 * (0.5 + rng.random(2 * m))
    E0 = c["amp"] * ME * C / QE / (min(c["d"]) / C)
    f = {k: rng.uniform(-1, 1, X.M) * E0 / (1 if k[0] == "e" else C) for k in SPL}
    ops = []
    fl = load(X, f, ops)
    fl["p.bin"] = ("p", rows)
    ops += ["loadp p.bin", "call merge_fields", "dumpf d0"]
    for s in range(c["steps"]):
        ops += ["step 1", "dumpf d%d" % (s + 1), "dumpp q%d" % (s + 1)]
    s = dict(l_spectral=True, norderx=c["o"][0], nordery=c["o"][1], norderz=c["o"][2], nox=c["no"][0], noy=c["no"][1], noz=c["no"][2])
    for a in range(3):
        if c["ab"][a]:
            s["absorbing_bcs_" + "xyz"[a]] = True
        s["n%s_pml" % "xyz"[a]] = c["pml"][a]
    dk = mkdeck(c["dim"], c["n"], c["split"], d=c["d"], guards=c["g"], solver=s, tiles=c["tiles"], species=[dict(name="a"), dict(name="b", charge=1., mass=1836.)])
    with sim.run(dk, ops, int(np.prod(c["split"])), fl, which="omp" if c["omp"] else "drv", threads=c["omp"] or 1, timeout=120) as r:
        D = [r.dumps("d%d" % s) for s in range(c["steps"] + 1)]
        Q = [None] + [r.dumps("q%d" % (s + 1)) for s in range(c["steps"])]
    sg = sigmas(c, D[0])
    dt = D[0][0]["dt"]
    for s in range(c["steps"]):
        src = {k: X.glob(D[s + 1], k) for k in SRC}
        P = [np.concatenate([q.parts(k + 1) for q in Q[s + 1]]) for k in range(2)]
        if len(P[0]) != m or len(P[1]) != m:
            raise Violation("step %d: %d + %d particles instead of %d of each, all far from the absorbing sides" % (s + 1, len(P[0]), len(P[1]), m))
        rho = charge(c, P[0], -QE) + charge(c, P[1], QE)
        top = (charge(c, P[0], QE) + charge(c, P[1], QE)).max()
        inner = tuple(slice(X.G[a], X.G[a] + X.N[a]) for a in range(3))
        close(src["rho"][inner], rho, 1e-9 * top, "charge density at step %d" % (s + 1))
        for k in SRC:
            e = src[k].copy()
            e[inner] = 0
            if e.any():
                raise Violation("step %d: %s is not zero in the absorbing guard cells, far from all particles" % (s + 1, k))
        f.update(src)
        f.update(advance(c, X, D[0], f, sg, dt))
        expect(c, X, D[s + 1], f, (1e-9, top / EPS0 * min(c["d"]), []), "after %d steps" % (s + 1))
    return {"nontrivial": True, "labels": labels(c)}


PARTS = [Part("step", step(), run_step, 64, 1500, shards=8),
         Part("sigma", domain(), run_sigma, 40, 400, shards=4),
         Part("sim", simcase(), run_sim, 40, 800, shards=8),
         Part("absorb3d", absorb(3), run_absorb, 12, 160, shards=4),
         Part("absorb2d", absorb(2), run_absorb, 24, 400, shards=4)]
