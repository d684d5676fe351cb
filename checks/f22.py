"""F22: laser antennas: particles, their prescribed motion, and the wave they emit."""
from checks.simc import *
PID = "F22"
RULE = ("A case is a generated antenna (plane along an axis or oblique, in-plane polarisation, spot, wavelength, waist, duration, envelope, amplitudes and "
        "phase between the two polarisations), grid, process split and tiling. Part antenna: every antenna particle after every step against the analytic "
        "plane, weight and displacement; non-trivial when particles exist and have moved. Part wave: the field emitted by a wide antenna in a vacuum against "
        "the analytic pulse (the field opposes the motion of the positive particles) on both sides of the plane; non-trivial when the pulse has left the antenna.")
ASSUMPTIONS = ["even envelope orders (odd ones diverge before the peak)", "polarisation orthogonal to the wave vector", "one wavelength is at least 24 cells in part wave; the wave is compared to 12 %"]


def prepare():
    sim.prepare()


def unit(v):
    return np.array(v, float) / np.sqrt(np.sum(np.array(v, float) ** 2))


@st.composite
def antenna(draw, dim, oblique=True):
    if oblique and draw(st.booleans()):
        v = [draw(st.sampled_from([0., 1., -1., 0.5, 2.])) for _ in range(3)]
        if dim == 2:
            v[1] = 0.
        if not any(v):
            v = [0., 0., 1.]
    else:
        a = draw(st.sampled_from([0, 1, 2, 2] if dim == 3 else [0, 2]))
        v = [0., 0., 0.]
        v[a] = draw(st.sampled_from([1., -1., 3.]))
    n = unit(v)
    th = draw(st.sampled_from([0., 0.25, 0.5, 0.125, 0.1, 0.8])) * 2 * np.pi
    if dim == 2:
        th = draw(st.sampled_from([0., 0.25, 0.5, 0.75])) * 2 * np.pi
    b = np.array([0., 1., 0.]) if abs(n[1]) < 0.9 else np.array([1., 0., 0.])
    t1 = unit(np.cross(n, b))
    t2 = np.cross(n, t1)
    p = np.round(np.cos(th) * t1 + np.sin(th) * t2, 12) + 0.
    return {"v": v, "p": [float(x) for x in p]}


@st.composite
def case(draw, dim):
    split = draw(splits(dim))
    n = [split[k] * 6 + draw(st.integers(0, 4)) if k != 1 or dim == 3 else 4 for k in range(3)]
    d = [draw(st.sampled_from([1e-6, 0.7e-6, 1.6e-6])) for _ in range(3)]
    org = [draw(st.sampled_from([0., -0.5, 0.37])) * n[k] * d[k] for k in range(3)]
    w = draw(st.sampled_from([0, 0, 1]))
    return dict(draw(antenna(dim)), dim=dim, split=split, n=n, d=d, org=org, tiles=[draw(st.integers(1, 2)) for _ in range(3)],
                spot=[org[k] + draw(st.floats(0.1, 0.9)) * n[k] * d[k] for k in range(3)], lam=draw(st.sampled_from([5e-6, 8e-6, 1.3e-5])),
                w0=draw(st.sampled_from([3e-6, 1e-5, 1.])), ctau=draw(st.sampled_from([2e-6, 6e-6])), tp=draw(st.sampled_from([2e-15, 1e-14, 3e-15])),
                order=draw(st.sampled_from([0, 2, 2, 4])), win=w, a=draw(st.sampled_from([[1., 0.], [0., 1.], [0.5, 2.], [1., 1.], [1e-3, 0.]])),
                pa=draw(st.sampled_from([0., 0.25, 0.1])), steps=draw(st.integers(1, 5)), partcom=draw(st.integers(0, 2)), two=draw(st.booleans()))


def section(c):
    r = {}
    for k, q in enumerate("xyz"):
        r["vector_" + q] = c["v"][k]
        r["pvec_" + q] = c["p"][k]
        r["spot_" + q] = c["spot"][k]
    r.update(lambda_laser=c["lam"], laser_ctau=c["ctau"], t_peak=c["tp"], laser_a_1=c["a"][0], laser_a_2=c["a"][1], laser_w0=c["w0"],
             polangle=c["pa"], temporal_order=c["order"], window=c["win"])
    return r


def model(c):
    v = np.array(c["v"])
    sp = np.array(c["spot"])
    if c["dim"] == 2:
        sp[1] = 0
    n, p1 = unit(v), unit(c["p"])
    p2 = np.cross(n, p1)
    k0 = 2 * np.pi / c["lam"]
    e1, e2 = [a * C ** 2 * ME * k0 / QE for a in c["a"]]
    return n, p1, p2, sp, k0, e1, e2, np.hypot(e1, e2)


def amp(c, x1, x2, t):
    """Field of the pulse on the antenna: vector, at transverse coordinates x1, x2 and time t."""
    n, p1, p2, sp, k0, e1, e2, em = model(c)
    g = np.exp(-(x1 ** 2 + x2 ** 2) / c["w0"] ** 2)
    ph = k0 * C * (t - c["tp"])
    if c["win"]:
        w = np.where(t <= 2 * c["tp"], np.sin(np.pi * t / (2 * c["tp"])) ** 2, 0.)
        f = np.cos
    else:
        w = np.exp(-(np.abs(t - c["tp"]) / (c["ctau"] / C)) ** c["order"]) if c["order"] else 1.
        f = np.sin
    a1, a2 = e1 * w * g * f(ph), e2 * w * g * f(ph + 2 * np.pi * c["pa"])
    return np.multiply.outer(a1, p1) + np.multiply.outer(a2, p2)


def dk(c, nsteps=10, **kw):
    extra = [("antenna", section(c))]
    if c.get("two"):
        extra.append(("antenna", section(c)))
    return mkdeck(c["dim"], c["n"], c["split"], d=c["d"], org=c["org"], guards=[4] * 3, tiles=c["tiles"], species=[dict(name="e")] if c.get("sp") else (),
                  extra=extra, **kw)


def run(c):
    ops = ["dumpp q0"]
    for s in range(c["steps"]):
        ops += ["step 1", "dumpf f%d" % (s + 1), "dumpp q%d" % (s + 1)]
    n, p1, p2, sp, k0, e1, e2, em = model(c)
    d, N, org = np.array(c["d"]), c["n"], np.array(c["org"])
    inz = 2 if c["v"][2] else (1 if c["v"][1] else 0)
    ax = [k for k in range(3) if k != inz and (c["dim"] == 3 or k != 1)]
    g = np.meshgrid(*[org[k] + (np.arange(N[k]) + 0.5) * d[k] for k in ax], indexing="ij")
    pos = np.zeros((g[0].size, 3))
    for k, q in zip(ax, g):
        pos[:, k] = q.ravel()
    pos[:, inz] = (n @ sp - pos @ n + 0) / n[inz]
    u = (pos[:, inz] - org[inz]) / d[inz]
    if len(pos) and np.min(np.abs(u - np.round(u))) < 1e-6:
        raise Discard()  # a particle on a cell boundary may go either way
    keep = (u > 0) & (u < N[inz])
    # with several processes, rounding of process boundaries is met only at cell boundaries, excluded above
    pos = pos[keep]
    area = np.prod([d[k] for k in ax]) / abs(n[inz])
    W = EPS0 * em / 0.01 * area
    P1, P2 = (pos - sp) @ p1, (pos - sp) @ p2
    if not (np.isfinite(W) and len(pos)):
        return {"nontrivial": False, "labels": ["empty"]}
    with sim.run(dk(c, cpu=dict(partcom=c["partcom"])), ops, int(np.prod(c["split"])), timeout=120) as r:
        dt = r.dumps("f1")[0]["dt"]
        disp = np.zeros((len(pos), 3))
        for s in range(c["steps"] + 1):
            D = r.dumps("q%d" % s)
            if s:
                v = amp(c, P1, P2, (s - 1) * dt - dt / 2) * 0.01 * C / em
                disp = disp + v * dt
            for k in range(4 if c["two"] else 2):
                q = (-1) ** k
                A = np.concatenate([x.parts(k + 1) for x in D])
                if len(A) != len(pos):
                    raise Violation("step %d: antenna species %d has %d particles instead of %d" % (s, k + 1, len(A), len(pos)))
                # match by the coordinates in the antenna plane, which never change
                i0 = sp + np.multiply.outer(A[:, 14], p1) + np.multiply.outer(A[:, 15], p2)
                key = lambda x: np.lexsort([np.round((x[:, a] - org[a]) / d[a] * 2).astype(int) for a in ax])
                A, B = A[key(i0)], key(pos)
                tol = 1e-9 * max(d)
                close(A[:, 13], np.full(len(A), W), 1e-9 * W, "weight of antenna particles")
                close(A[:, 14], P1[B], tol, "first coordinate in the antenna plane")
                close(A[:, 15], P2[B], tol, "second coordinate in the antenna plane")
                want = pos[B] + q * disp[B]
                for a in range(3):
                    if a == 1 and c["dim"] == 2:
                        continue
                    L = N[a] * d[a]
                    e = np.abs(A[:, a] - want[:, a])
                    e = np.minimum(e, np.abs(e - L))
                    if e.max() > 1e-8 * d[a]:
                        j = int(np.argmax(e))
                        raise Violation("step %d, charge %+d: antenna particle at %s = %.12g instead of %.12g" % (s, q, "xyz"[a], A[j, a], want[j, a]))
                    if s:
                        close(A[:, 3 + a], q * v[B][:, a], 1e-8 * 0.01 * C, "step %d: velocity %s of the antenna" % (s, "xyz"[a]))
    return {"nontrivial": bool(np.abs(disp).max() > 0), "labels": ["axis" if np.sum(np.array(c["v"]) != 0) == 1 else "oblique", "hanning" if c["win"] else "order%d" % c["order"]]}


@st.composite
def wavecase(draw, dim):
    c = draw(antenna(dim, oblique=False))
    a = [k for k in range(3) if c["v"][k]][0]
    n = [6, 6 if dim == 3 else 4, 6]
    split, big = [1, 1, 1], draw(st.sampled_from([144, 192]))
    n[a] = big
    split[a] = draw(st.sampled_from([1, 2]))
    d = [1e-6] * 3
    d[a] = draw(st.sampled_from([1e-6, 0.7e-6]))
    cells = draw(st.sampled_from([24, 32]))
    lam = cells * d[a]
    spot = [n[k] * d[k] / 2 for k in range(3)]
    spot[a] += draw(st.floats(-0.4, 0.4)) * d[a]
    tau = draw(st.sampled_from([0.75, 1.0])) * lam
    return dict(c, dim=dim, split=split, n=n, d=d, org=[0., 0., 0.], tiles=[1, 1, 1], spot=spot, lam=lam, w0=1., ctau=tau, axis=a,
                tp=draw(st.sampled_from([1.0, 1.5])) * tau / C, order=2, win=draw(st.integers(0, 1)), a=draw(st.sampled_from([[1e-3, 0.], [0., 1e-3], [1e-3, 2e-3]])),
                pa=draw(st.sampled_from([0., 0.25])), go=draw(st.floats(0.3, 0.42)))


def runwave(c):
    a, N, d = c["axis"], c["n"], c["d"]
    n, p1, p2, sp, k0, e1, e2, em = model(c)
    ax = [0, 1, 2] if c["dim"] == 3 else [0, 2]
    # stop before the wave meets itself around the periodic box
    dtg = 0.7 / (C * np.sqrt(sum(1 / d[k] ** 2 for k in ax)))
    steps = int(c["go"] * N[a] * d[a] / C / dtg)
    with sim.run(dk(c, plasma=dict()), ["step %d" % steps, "dumpf f"], int(np.prod(c["split"])), timeout=240) as r:
        D = r.dumps("f")
        dt = D[0]["dt"]
        f = {k: sim.glob(D, k) for k in ["ex", "ey", "ez", "bx", "by", "bz"]}
    t = steps * dt
    if C * t > 0.49 * N[a] * d[a]:
        raise Discard()
    best = 0
    for k, q in enumerate("xyz"):
        F = f["e" + q]
        if max(np.abs(F - F.take([0], axis=x)).max() for x in ax if x != a) > 0.05 * em:
            raise Violation("the wave of a wide antenna is not uniform across it")
        line = F[tuple(slice(None) if x == a else 2 if F.shape[x] > 2 else 0 for x in range(3))]
        z = (np.arange(N[a]) + (0.5 if k == a else 0.)) * d[a]
        dz = np.abs(z - sp[a])
        want = -amp(c, 0., 0., t - dt - dz / C)
        want = np.where((t - dt - dz / C)[:, None] > -dt / 2, want, 0.)[:, k] * 1.
        # the antenna starts abruptly: cells near the front are not compared
        ok = (dz > 3 * d[a]) & (np.abs(t - dz / C) > 6 * d[a] / C)
        e = np.abs(line - want)[ok]
        best = max(best, np.abs(want[ok]).max() / em)
        if e.max() > 0.12 * em:
            j = int(np.argmax(e))
            raise Violation("emitted e%s is %.4g instead of %.4g (amplitude %.4g) at %.3g wavelengths from the antenna after %d steps"
                            % (q, line[ok][j], want[ok][j], em, dz[ok][j] / c["lam"], steps))
    return {"nontrivial": bool(best > 0.2), "labels": ["axis%d" % a, "win%d" % c["win"]]}


PARTS = [Part("antenna3d", case(3), run, quick=120, thorough=3000, shards=4),
         Part("antenna2d", case(2), run, quick=100, thorough=3000, shards=4),
         Part("wave3d", wavecase(3), runwave, quick=24, thorough=600, shards=4),
         Part("wave2d", wavecase(2), runwave, quick=30, thorough=600, shards=4)]
