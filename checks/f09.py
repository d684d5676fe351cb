from checks.simc import *
PID = "F09"
RULE = ("A case is one start of the program on a generated grid, process grid, tiling and particle communication variant, particles of 1-3 species with "
        "distinct attributes, then 1-3 rounds of moving every particle by less than a cell and applying the particle boundary conditions: "
        "non-trivial when a particle changed process or left the box.")
ASSUMPTIONS = ["a reinjected particle, which is put back into the tile it was in, is only required to end inside the grid, not inside boundaries with an offset",
               "particles move less than one cell per axis between two boundary calls (the time step guarantees it)",
               "opposite sides of an axis are both periodic or both not", "a particle that crosses several non-periodic sides in one step is only required to "
               "end inside the grid"]


def prepare():
    sim.prepare(omp=True)


AX = "xyz"


@st.composite
def case(draw, dim, bnd, big=False):
    sp = draw(splits(dim, big))
    t = [draw(st.integers(1, 3)) for _ in range(3)]
    n = [p * draw(st.integers(max(4, 4 * q), 4 * q + 5)) + draw(st.integers(0, p - 1)) for p, q in zip(sp, t)]
    kinds = [[0, 0] for _ in range(3)]
    off = [[0., 0.] for _ in range(3)]
    if bnd:
        for k in range(3):
            if k == 1 and dim == 2:
                continue
            if draw(st.integers(0, 3)):
                kinds[k] = [draw(st.integers(1, 3)), draw(st.integers(1, 3))]
                for s in (0, 1):
                    if kinds[k][s] != 2 and draw(st.integers(0, 2)) == 0:
                        off[k][s] = draw(st.floats(0.05, 0.95)) * (n[k] / sp[k] / 2 - 1)
    return {"dim": dim, "split": sp, "tiles": t, "n": n, "topology": draw(st.integers(0, 2)), "partcom": draw(st.integers(0, 2)),
            "mpicom": draw(st.integers(0, 1)), "which": draw(st.sampled_from(["drv", "omp"])), "threads": draw(st.integers(1, 3)),
            "ns": draw(st.integers(1, 3)), "np": draw(st.sampled_from([0, 1, 3, 20, 60, 200])), "rounds": draw(st.integers(1, 3)),
            "kinds": kinds, "off": off, "seed": draw(st.integers(0, 2 ** 31)), "edge": draw(st.booleans()),
            "d": [draw(st.floats(0.3, 3)) * 1e-6 for _ in range(3)], "org": [draw(st.sampled_from([0., -1., 1.])) * draw(st.floats(0, 2)) * n[k] * 1e-6 for k in range(3)]}


def run(c):
    dim, n, d, org, sp = c["dim"], c["n"], np.array(c["d"]), np.array(c["org"]), c["split"]
    rng = np.random.default_rng(c["seed"])
    ax = [0, 1, 2] if dim == 3 else [0, 2]
    ns, N = c["ns"], c["np"]
    lo, hi = org, org + np.array(n) * d
    L = hi - lo
    plo, phi = lo.copy(), hi.copy()
    pre = []
    for k in ax:
        for s, nm in ((0, "min"), (1, "max")):
            pre.append("pbound_%s_%s %d" % (AX[k], nm, c["kinds"][k][s]))
            o = c["off"][k][s] * d[k] * (1 - 2 * s)
            if o:
                pre.append("offset_%s_%s %.17g" % (AX[k], nm, o))
                (phi if s else plo)[k] += o
    # particles: most of them near faces of cells, processes and the box
    x = np.zeros((N, 3))
    for k in ax:
        w = rng.random(N)
        near = rng.random(N) < 0.5
        faces = np.concatenate([[0], np.cumsum(cut(n[k], sp[k]))])
        w = np.where(near, (faces[rng.integers(0, len(faces), N)] + rng.uniform(-1, 1, N)) / n[k], w)
        if c["edge"]:
            w = np.where(rng.random(N) < 0.3, np.round(w * n[k] * 2) / 2 / n[k], w)
        x[:, k] = np.clip(lo[k] + w * L[k], plo[k], plo[k] + (phi[k] - plo[k]) * (1 - 1e-9))
    rows = np.zeros((N, 11))
    rows[:, 0] = rng.integers(1, ns + 1, N)
    rows[:, 1:4] = x
    rows[:, 4:7] = rng.normal(size=(N, 3))
    rows[:, 7] = rng.random(N)
    rows[:, 8] = rng.random(N) + 0.5
    rows[:, 9] = np.arange(1, N + 1)
    rows[:, 10] = rng.normal(size=N)
    files = {"p0.bin": ("p", rows), "pre.txt": "\n".join(pre) + "\n"}
    ops = ["set partcom %d" % c["partcom"], "set mpicom_curr %d" % c["mpicom"], "loadp p0.bin"]
    cur = rows.copy()
    alive = np.ones(N, bool)
    free = np.ones(N, bool)  # position fully determined by the model
    plan = []
    moved = False
    for r in range(c["rounds"]):
        new = cur.copy()
        st_ = np.zeros(N, int)  # 0 kept, 1 absorbed, 2 touched by a non-periodic side
        multi = np.zeros(N, int)
        outs = np.zeros(N, int)
        for k in ax:
            dx = rng.uniform(-0.98, 0.98, N) * d[k]
            if c["edge"]:
                z = rng.random(N) < 0.2
                dx = np.where(z, np.round((cur[:, 1 + k] + dx - lo[k]) / d[k]) * d[k] + lo[k] - cur[:, 1 + k], dx)
                dx = np.where(np.abs(dx) < 0.99 * d[k], dx, 0.0)
            new[:, 1 + k] = cur[:, 1 + k] + dx
            if r + 1 < c["rounds"]:  # which end of the box holds a particle that sits on a side is a matter of rounding: the next move could not be planned
                for b in (plo[k], phi[k]):
                    new[:, 1 + k] = np.where(np.abs(new[:, 1 + k] - b) < 1e-6 * d[k], b - 1e-3 * d[k], new[:, 1 + k])
        new[:, 4:7] = rng.normal(size=(N, 3))
        new[:, 7] = rng.random(N)
        ops.append("movep m%d.bin" % r)
        files["m%d.bin" % r] = ("p", new.copy())
        exp = new.copy()
        rest = np.zeros(N, bool)
        for k in ax:
            for s in (0, 1):
                out = (new[:, 1 + k] < plo[k]) if s == 0 else (new[:, 1 + k] >= phi[k])
                kd = c["kinds"][k][s]
                outs += out
                if kd == 0:
                    exp[out, 1 + k] = new[out, 1 + k] + (L[k] if s == 0 else -L[k])
                else:
                    multi += out
                    if kd == 1:
                        st_[out] = 1
                    elif kd == 2:
                        exp[out, 4 + k] = -new[out, 4 + k]
                        st_[out] = np.maximum(st_[out], 2)
                    else:
                        rest |= out
                        st_[out] = np.where(st_[out] == 1, 1, 3)
                moved |= bool(out[alive].any())
        exp[rest, 4:7] = 0
        wild = rest & (outs > 1)  # reinjected in its old tile whatever the other sides say
        plan.append((new, exp, st_, multi, wild))
        ops += ["call particle_bcs" + ("_2d" if dim == 2 else ""), "dumpp o%d" % r]
        if ((multi > 0) & alive).any() and r + 1 < c["rounds"]:
            c = dict(c, rounds=r + 1)  # what happened to those is checked; the next moves would not be defined by the model
            break
        cur = exp.copy()
        for k in ax:
            cur[:, 1 + k] = np.clip(cur[:, 1 + k], plo[k], plo[k] + (phi[k] - plo[k]) * (1 - 1e-15))
    np_ = int(np.prod(sp))
    dk = mkdeck(dim, n, sp, d=d, org=org, tiles=c["tiles"], guards=(3, 3, 3), cpu=dict(topology=c["topology"]),
                species=[dict(name="s%d" % k) for k in range(ns)])
    eps = 1e-11 * (np.abs(lo) + np.abs(hi))
    owner = {}
    with sim.run(dk, ops, np_, files, which=c["which"], threads=c["threads"]) as res:
        for r in range(c["rounds"]):
            new, exp, st_, multi, wild = plan[r]
            seen = np.zeros(N, int)
            D = res.dumps("o%d" % r)
            for pr, q in enumerate(D):
                tot = 0
                for s in range(1, ns + 1):
                    cnt = 0
                    for tix, (info, rw) in q.tiles(s).items():
                        cnt += len(rw)
                        for p in rw:
                            i = int(round(p[14])) - 1
                            if not 0 <= i < N:
                                raise Violation("round %d: a particle with unknown attributes appeared: %r" % (r, list(p)))
                            seen[i] += 1
                            who = "particle %d (species %d), moved from inside the box to %r, round %d" % (i + 1, s, [float(v) for v in new[i, 1:4]], r)
                            if rows[i, 0] != s or p[13] != rows[i, 8] or p[15] != rows[i, 10]:
                                raise Violation("%s: now species %d, attributes %r instead of species %d, %r" % (who, s, list(p[13:16]), rows[i, 0], list(rows[i, 8:11])))
                            if st_[i] == 1 and multi[i] == 1:
                                raise Violation("%s is beyond an absorbing side but still there, at %r" % (who, list(p[:3])))
                            if owner.get(i, pr) != pr:
                                moved = True
                            owner[i] = pr
                            for k in ax:
                                b0, b1 = q[AX[k] + "minl"], q[AX[k] + "maxl"]
                                if st_[i] != 3 and multi[i] < 2:
                                    b0, b1 = max(b0, plo[k]), min(b1, phi[k])
                                if not b0 - eps[k] <= p[k] <= b1 + eps[k]:
                                    raise Violation("%s: stored at %r by the process that holds [%r, %r] along %s" % (who, list(p[:3]), b0, b1, AX[k]))
                                t0, t1 = info[8 + 2 * k], info[9 + 2 * k]
                                if multi[i] == 0 and not t0 - eps[k] <= p[k] <= t1 + eps[k]:
                                    raise Violation("%s: stored at %r in tile %s which holds [%r, %r] along %s" % (who, list(p[:3]), tix, t0, t1, AX[k]))
                                if multi[i] == 0:
                                    e = abs(p[k] - exp[i, 1 + k])
                                    if not min(e, abs(e - L[k])) <= eps[k]:
                                        raise Violation("%s: position along %s is %r, should be %r" % (who, AX[k], p[k], exp[i, 1 + k]))
                                elif not wild[i] and not abs(p[k] - new[i, 1 + k]) <= 2.001 * d[k] and not abs(abs(p[k] - new[i, 1 + k]) - L[k]) <= 2.001 * d[k]:
                                    raise Violation("%s: sent far away, to %r" % (who, list(p[:3])))
                            if multi[i] == 0 or multi[i] == 1 and st_[i] in (2, 3):
                                if not np.array_equal(p[3:6], exp[i, 4:7]):
                                    raise Violation("%s: momentum %r instead of %r" % (who, list(p[3:6]), list(exp[i, 4:7])))
                            if multi[i] == 0 and p[6] != new[i, 7]:
                                raise Violation("%s: inverse gamma %r instead of %r" % (who, p[6], new[i, 7]))
                    if cnt != q.i("npart%d" % s):
                        raise Violation("round %d: process %d says it has %d particles of species %d, its tiles hold %d" % (r, pr, q.i("npart%d" % s), s, cnt))
            for i in range(N):
                w = 0 if st_[i] == 1 and multi[i] == 1 else 1
                if multi[i] > 1 and (1 in [kk for ks in c["kinds"] for kk in ks]):
                    continue
                if seen[i] != w:
                    raise Violation("round %d: particle %d moved to %r is there %d times instead of %d (kinds of the sides: %r)" % (
                        r, i + 1, [float(v) for v in new[i, 1:4]], seen[i], w, c["kinds"]))
    return {"nontrivial": bool(moved), "labels": ["np%d" % np_, "partcom%d.%d" % (c["partcom"], c["mpicom"]), c["which"]] + sorted({"side%d" % kk for ks in c["kinds"] for kk in ks})}


PARTS = [Part("migration3d", case(3, False), run, quick=36, thorough=1200, shards=3), Part("migration2d", case(2, False), run, quick=24, thorough=800, shards=2),
         Part("sides3d", case(3, True), run, quick=40, thorough=1200, shards=3), Part("sides2d", case(2, True), run, quick=24, thorough=800, shards=2),
         Part("migration_wide", case(3, False, True), run, quick=0, thorough=400)]
JOBS = 5
