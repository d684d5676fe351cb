from checks.whole import *
PID = "F27"
RULE = ("A case is a generated periodic particle-in-cell problem, a transformation that the equations are invariant under (translation by cells, "
        "permutation of the axes, mirror images, change of all charges' sign, change of the unit of length, exchange of charge and mass against weight, "
        "splitting of macro-particles, order of the species, a plane problem repeated along the third axis) and a tiling for the transformed run, both "
        "run for 1-4 steps: non-trivial when particles move and the transformation changes the input.")
ASSUMPTIONS = ["differences below 1e-8 of the largest value of the kind are rounding"]
TOL = 1e-8
F = EB + CUR + ["rho"]


def prepare():
    sim.prepare()


class Prob:
    """Problem, its particles, its fields (global periodic arrays), and the history of numbering."""
    def __init__(s, c):
        s.c = dict(c)
        s.rows, s.f = setup(c)


def vec(nm):
    return "xyz".index(nm[1])


def stagger(nm):
    """Axes along which the quantity sits half a cell above the node."""
    if nm == "rho":
        return ()
    k = vec(nm)
    return (k,) if nm[0] in "ej" else tuple(q for q in range(3) if q != k)


def t_shift(p, a):
    c = p.c
    r = p.rows.copy()
    for k in ([0, 1, 2] if c["dim"] == 3 else [0, 2]):
        L = c["n"][k] * c["d"][k]
        x = r[:, 1 + k] - c["org"][k] + a[k] * c["d"][k]
        r[:, 1 + k] = np.clip(x - np.floor(x / L) * L, 0, L * (1 - 1e-15)) + c["org"][k]
    fw = lambda nm, g: np.roll(g, [a[k] if c["dim"] == 3 or k != 1 else 0 for k in range(3)], (0, 1, 2))
    return c, r, fw


def t_perm(p, s):
    """Axis k of the new problem is axis s[k] of the old one."""
    c = dict(p.c)
    for q in ("n", "d", "no", "g", "jg", "org"):
        c[q] = [p.c[q][s[k]] for k in range(3)]
    if c["dim"] == 2:
        for q in ("n", "no", "g", "jg"):
            c[q][1] = p.c[q][1]
    r = p.rows.copy()
    for k in range(3):
        r[:, 1 + k] = p.rows[:, 1 + s[k]]
        r[:, 4 + k] = p.rows[:, 4 + s[k]]
    odd = np.linalg.det(np.eye(3)[list(s)]) < 0
    inv = [list(s).index(k) for k in range(3)]

    def fw(nm, g):
        g = np.transpose(g, s)
        return -g if odd and nm[0] == "b" else g
    fw.name = lambda nm: nm if nm == "rho" else nm[0] + "xyz"[inv[vec(nm)]]
    return c, r, fw


def t_mirror(p, m):
    c = p.c
    r = p.rows.copy()
    for k in range(3):
        if not m[k]:
            continue
        r[:, 4 + k] *= -1
        if k != 1 or c["dim"] == 3:
            L = c["n"][k] * c["d"][k]
            x = L - (r[:, 1 + k] - c["org"][k])
            r[:, 1 + k] = np.where(x >= L, 0, np.clip(x, 0, L * (1 - 1e-15))) + c["org"][k]

    def fw(nm, g):
        sg = 1
        for k in range(3):
            if not m[k]:
                continue
            if nm != "rho":
                if (nm[0] in "ej") == (vec(nm) == k):
                    sg = -sg
            if g.shape[k] > 1:
                g = np.flip(g, k)
                if k not in stagger(nm):
                    g = np.roll(g, 1, k)
        return sg * g
    return c, r, fw


def t_conj(p, _):
    c = dict(p.c, sp=[[-q, m, N] for q, m, N in p.c["sp"]])
    return c, p.rows.copy(), lambda nm, g: -g


def t_scale(p, lam):
    c = dict(p.c)
    c["d"] = [lam * q for q in c["d"]]
    c["org"] = [lam * q for q in c["org"]]
    r = p.rows.copy()
    r[:, 1:4] *= lam
    if c["dim"] == 3:
        r[:, 8] *= lam
    return c, r, lambda nm, g: g / (lam if nm[0] in "eb" else lam ** 2)


def t_heavy(p, a):
    c = dict(p.c, sp=[[q * a, m * a, N] for q, m, N in p.c["sp"]])
    r = p.rows.copy()
    r[:, 8] /= a
    return c, r, lambda nm, g: g


def t_split(p, parts):
    """Every particle becomes several with the same place and momentum that share its weight; its first part keeps the number."""
    out = []
    for k, w in enumerate(parts):
        q = p.rows.copy()
        q[:, 8] *= w
        q[:, 9] += k * 1e6
        out.append(q)
    return p.c, np.concatenate(out), lambda nm, g: g


def t_species(p, s):
    ns = len(p.c["sp"])
    s = [k for k in s if k < ns]
    c = dict(p.c, sp=[p.c["sp"][k] for k in s])
    r = p.rows[::-1].copy()
    new = np.array([s.index(k) + 1 for k in range(ns)])
    r[:, 0] = new[p.rows[::-1][:, 0].astype(int) - 1]
    return c, r, lambda nm, g: g


T = {"shift": t_shift, "perm": t_perm, "mirror": t_mirror, "conj": t_conj, "scale": t_scale, "heavy": t_heavy, "split": t_split, "species": t_species}


@st.composite
def arg(draw, dim, name):
    if name == "shift":
        return [draw(st.integers(-6, 6)) for _ in range(3)]
    if name == "perm":
        return draw(st.sampled_from([[1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]] if dim == 3 else [[2, 1, 0]]))
    if name == "mirror":
        return draw(st.sampled_from([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1]]))
    if name == "scale":
        return draw(st.sampled_from([0.1, 3.7, 1000., 2.e6]))
    if name == "heavy":
        return draw(st.sampled_from([0.5, 3., 100.]))
    if name == "split":
        return draw(st.sampled_from([[0.5, 0.5], [0.75, 0.25], [0.25, 0.25, 0.5], [1.5, -0.5]]))
    if name == "species":
        return list(draw(st.permutations([0, 1, 2])))
    return 0


@st.composite
def variant(draw, dim):
    return {"tiles": [draw(st.integers(1, 3)) for _ in range(3)], "fg_p_pp_separated": draw(st.integers(0, 2)),
            "fieldgathe": draw(st.integers(0, 2)), "rhodepo": draw(st.integers(0, 2)), "partcom": draw(st.integers(0, 2))}


@st.composite
def case(draw, dim):
    c = draw(problem(dim, npart=(1, 120)))
    if draw(st.integers(0, 4)):
        c["hot"] = draw(st.sampled_from([0.3, 1., 30.]))
    cd = [0, 1, 2] if dim == 2 else [0, 1, 2, 6] + ([3, 4, 5] if len(set(c["no"])) == 1 else [])
    v = draw(variant(dim))
    v["currdepo"] = draw(st.sampled_from(cd))
    ts = [draw(st.sampled_from(sorted(T))) for _ in range(draw(st.integers(1, 2)))]
    return dict(c, v=v, ts=[[t, draw(arg(dim, t))] for t in ts], l_plasma=1)


def finish(p, res):
    D = res.dumps("end")
    f = {k: sim.glob(D, k) for k in F}
    P = np.concatenate([np.concatenate([np.concatenate([q.parts(s + 1), np.full((len(q.parts(s + 1)), 1), s + 1.)], 1) for q in res.dumps("pend")]) for s in range(len(p.c["sp"]))])
    return f, P[np.argsort(P[:, 14], kind="stable")]


def go(p, v):
    fl = {"p0.bin": ("p", p.rows)}
    o = []
    for k, a in p.f.items():
        fl[k + ".bin"] = ("f", a)
        o.append("loadf %s %s.bin" % (k, k))
    o += ["loadp p0.bin", "set l_lower_order_in_v %d" % p.c["lower"]]
    if "dt" in p.c:
        o.append("set dt %.17g" % p.c["dt"])
    o += ["step %d" % p.c["steps"], "dumpf end", "dumpp pend"]
    c = p.c
    cpu = {k: v[k] for k in ("partcom", "fg_p_pp_separated") if k in v}
    sol = dict(norderx=c["norder"], nordery=c["norder"], norderz=c["norder"], nox=c["no"][0], noy=c["no"][1], noz=c["no"][2])
    sol.update({k: v[k] for k in ("currdepo", "fieldgathe", "rhodepo") if k in v})
    dk = mkdeck(c["dim"], c["n"], [1, 1, 1], d=c["d"], org=c["org"], guards=c["g"], jguards=c["jg"], tiles=v.get("tiles", [1, 1, 1]),
                species=[dict(name="s%d" % k, charge=q, mass=m) for k, (q, m, N) in enumerate(c["sp"])], cpu=cpu, solver=sol,
                plasma=dict(particle_pusher=c["pusher"]))
    with sim.run(dk, o, 1, fl) as r:
        return finish(p, r)


def same(c, got, want, what, tol=TOL):
    f, P = got
    g, Q = want
    if not np.array_equal(P[:, 14], Q[:, 14]):
        raise Violation("%s: %d particles instead of %d" % (what, len(P), len(Q)))
    for k in ([0, 1, 2] if c["dim"] == 3 else [0, 2]):
        L = c["n"][k] * c["d"][k]
        e = (P[:, k] - Q[:, k]) / L
        e = (e - np.round(e)) * L
        i = int(np.argmax(np.abs(e)))
        if not abs(e[i]) <= tol * c["d"][k]:
            raise Violation("%s: particle %d ends at %s = %.17g instead of %.17g" % (what, P[i, 14], "xyz"[k], P[i, k], Q[i, k]))
    us = np.sqrt((Q[:, 3:6] ** 2).sum(1)).max() + 1e-30
    if not us < C * 1e6:
        raise Discard()
    for k in (3, 4, 5):
        close(P[:, k], Q[:, k], tol * us, what + ": u" + "xyz"[k - 3] + " of the particles")
    if not np.array_equal(P[:, -1], Q[:, -1]):
        raise Violation(what + ": species of particles differ")
    for grp in (EB[:3], EB[3:], CUR, ["rho"]):
        m = max(np.abs(g[q]).max() for q in grp)
        if grp[0] == "jx":
            m = max(m, max(abs(s[0]) for s in c["sp"]) * QE * np.abs(Q[:, 13]).max() * C / np.prod([c["d"][k] for k in ([0, 1, 2] if c["dim"] == 3 else [0, 2])]))
        if grp[0] == "rho":
            m = max(m, max(abs(s[0]) for s in c["sp"]) * QE * np.abs(Q[:, 13]).max() / np.prod([c["d"][k] for k in ([0, 1, 2] if c["dim"] == 3 else [0, 2])]))
        if grp[0] == "bx":
            m = max(m, max(np.abs(g[q]).max() for q in EB[:3]) / C)
        for q in grp:
            close(f[q], g[q], tol * m + 1e-300, "%s: %s at the end" % (what, q))


def apply(p, name, a):
    """The transformed problem, and the map of an end state of p to the end state it must give."""
    c, r, fw = T[name](p, a)
    nm = getattr(fw, "name", lambda k: k)
    q = Prob.__new__(Prob)
    q.c, q.rows = c, r
    q.f = {nm(k): np.ascontiguousarray(fw(k, g)) for k, g in p.f.items()}

    def out(stt):
        f, P = stt
        R = np.zeros((len(P), 11))
        R[:, 0] = P[:, -1]
        R[:, 1:4], R[:, 4:7], R[:, 7], R[:, 8:11] = P[:, :3], P[:, 3:6], P[:, 6], P[:, 13:16]
        t = Prob.__new__(Prob)
        t.c, t.rows = p.c, R
        _, R2, _ = T[name](t, a)
        Q = np.zeros((len(R2), P.shape[1]))
        Q[:, :3], Q[:, 3:6], Q[:, 6], Q[:, 13:16], Q[:, -1] = R2[:, 1:4], R2[:, 4:7], R2[:, 7], R2[:, 8:11], R2[:, 0]
        return {nm(k): fw(k, g) for k, g in f.items()}, Q[np.argsort(Q[:, 14], kind="stable")]
    return q, out


def run(c):
    p = Prob(c)
    ref = go(p, {"currdepo": c["v"]["currdepo"]})
    q, want, what = p, ref, []
    for name, a in c["ts"]:
        q, out = apply(q, name, a)
        want = out(want)
        what.append("%s %r" % (name, a))
    got = go(q, c["v"])
    same(q.c, got, want, "problem after " + ", ".join(what))
    return {"nontrivial": moved(c), "labels": [t for t, _ in c["ts"]] + ["currdepo%d" % c["v"]["currdepo"]]}


@st.composite
def plane(draw):
    c = draw(problem(2, npart=(1, 40), nmax=12))
    c["lower"] = True  # the 2D program always gathers at lower order in the field's direction
    if draw(st.integers(0, 4)):
        c["hot"] = draw(st.sampled_from([0.3, 1., 30.]))
    v = draw(variant(3))
    v["currdepo"] = draw(st.sampled_from([0, 1, 2, 6]))
    ny = max(c["g"][1] + 1, c["jg"][1] + 1, 6) + draw(st.integers(0, 2))
    return dict(c, v=v, v2=draw(st.integers(0, 2)), ny=ny, yo=draw(st.sampled_from([0., 0.3, 0.5, 0.8])), l_plasma=1)


def run_plane(c):
    p = Prob(c)
    d3 = np.array(c["d"])
    dt = 0.6 / (C * np.sqrt((1 / d3 ** 2).sum()))
    p.c["dt"] = dt
    a, P = go(p, {"currdepo": c["v2"]})
    q = Prob.__new__(Prob)
    ny = c["ny"]
    q.c = dict(p.c, dim=3, n=[c["n"][0], ny, c["n"][2]])
    rows = []
    for k in range(ny):
        r = p.rows.copy()
        r[:, 2] = c["org"][1] + (k + c["yo"]) * d3[1]
        r[:, 8] *= d3[1]
        r[:, 9] += k * 1e6
        rows.append(r)
    q.rows = np.concatenate(rows)
    q.f = {k: np.repeat(g, ny, 1) for k, g in p.f.items()}
    b, Q = go(q, c["v"])
    want = np.concatenate([P for _ in range(ny)])
    want[:, 14] += np.repeat(np.arange(ny), len(P)) * 1e6
    want[:, 13] *= d3[1]
    # y is not part of the plane problem: the copies keep the distance of one cell
    o = Q[:len(P)]
    y0 = c["org"][1] + c["yo"] * d3[1]
    L = ny * d3[1]
    for k in range(ny):
        e = (Q[k * len(P):(k + 1) * len(P), 1] - o[:, 1] - k * d3[1]) / L
        close((e - np.round(e)) * L, np.zeros(len(P)), TOL * d3[1], "copies along y: distance")
    want[:, 1] = Q[:, 1]
    same(q.c, (b, Q), ({k: np.repeat(g, ny, 1) for k, g in a.items()}, want), "plane problem repeated along y, compared with the 2D program")
    return {"nontrivial": moved(c), "labels": ["currdepo%d/%d" % (c["v"]["currdepo"], c["v2"])]}


PARTS = [Part("sym3d", case(3), run, quick=60, thorough=2500, shards=3), Part("sym2d", case(2), run, quick=50, thorough=2500, shards=2),
         Part("plane", plane(), run_plane, quick=30, thorough=1500, shards=2)]
JOBS = 7
