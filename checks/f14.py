from checks.simc import *
from vlib import build, fort
from collections import Counter
PID = "F14"
RULE = ("A case is a generated particle list with bins (sorted by the kernel), or a generated deck with tiles, species and sorting settings, whose "
        "particles are sorted by the program during steps: non-trivial when the list was not already in bin order.")
ASSUMPTIONS = ["particles whose distance to a bin face is below rounding may be counted in either bin", "the order inside a bin is not specified",
               "fields stored at the particles are not part of the record (they are gathered anew at every step)"]
CTX = {}


def prepare():
    CTX["F"] = fort.F(build.fortran_lib())
    sim.prepare()


@st.composite
def kcase(draw):
    dim = draw(st.sampled_from([2, 3]))
    n = draw(st.sampled_from([0, 1, 2, 3, 10, 50, 200]))
    return {"dim": dim, "n": n, "cells": [draw(st.integers(1, 9)) for _ in range(3)], "d": [draw(st.sampled_from([1., 0.5, 2., 0.3, 7.])) for _ in range(3)],
            "shift": [draw(st.sampled_from([0., -0.5, 0.5, -3.2, 1.7])) for _ in range(3)], "org": [draw(st.sampled_from([0., -5., 1e3])) for _ in range(3)],
            "npid": draw(st.integers(1, 4)), "lumps": draw(st.booleans()), "u": draw(st.sampled_from([1., 1e-6])), "seed": draw(st.integers(0, 2 ** 31))}


def ordered(rec, lo, d, nb, what, k):
    """rec: positions in storage order; bins counted along the axes k, first axis fastest."""
    lim = [[], []]
    for a in k:
        y = (rec[:, a] - lo[a]) / d[a]
        e = 1e-9 + 1e-13 * (np.abs(rec[:, a]) + abs(lo[a])) / d[a]
        lim[0].append(np.maximum(np.floor(y - e), 0))
        lim[1].append(np.maximum(np.floor(y + e), 0))
    if any((b >= nb[i]).any() for i, b in enumerate(lim[1])):
        return None
    b = [sum(q[i] * np.prod(nb[:i]) for i in range(len(k))) for q in lim]
    # smallest possible bin so far may not exceed the largest possible one
    m = np.maximum.accumulate(b[0])
    bad = b[1] < m
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation("%s: record %d is in bin %d after one in bin %d" % (what, i + 1, b[1][i], m[i]))
    return b[0]


def krun(c):
    rng = np.random.default_rng(c["seed"])
    n, dim = c["n"], c["dim"]
    d = np.array(c["d"]) * c["u"]
    lo = np.array(c["org"]) * c["u"]
    L = np.array(c["cells"]) * c["u"]
    x = rng.random((n, 3)) * (1 - 1e-12)
    if c["lumps"] and n:
        x[:, rng.integers(0, 3)] = rng.random(3)[rng.integers(0, 3, n)]
        x[rng.random(n) < .3] = x[0]
    x = lo + x * L
    if dim == 2:
        x[:, 1] = 0
    mn = lo + np.array(c["shift"]) * d
    mx = lo + L + d
    if any(mx[k] - mn[k] < d[k] for k in range(3)):
        raise Discard()
    u = rng.normal(size=(n, 3))
    g = rng.random(n)
    pid = np.asfortranarray(rng.normal(size=(n, c["npid"])))
    a = [np.ascontiguousarray(x[:, k]) for k in range(3)] + [np.ascontiguousarray(u[:, k]) for k in range(3)] + [g.copy(), pid.copy(order="F")]
    before = np.concatenate([x, u, g[:, None], pid], 1)
    if dim == 3:
        CTX["F"]("__sorting_MOD_pxr_particle_bin_sorting", n, *a, c["npid"], *[float(v) for v in mn], *[float(v) for v in mx], *[float(v) for v in d])
    else:
        CTX["F"]("__sorting_MOD_pxr_particle_bin_sorting_2d", n, a[0], *a[2:], c["npid"], float(mn[0]), float(mn[2]), float(mx[0]), float(mx[2]), float(d[0]), float(d[2]))
    after = np.concatenate([np.stack(a[:3], 1), np.stack(a[3:6], 1), a[6][:, None], a[7]], 1)
    if Counter(map(tuple, before)) != Counter(map(tuple, after)):
        lost = list((Counter(map(tuple, before)) - Counter(map(tuple, after))).elements())
        raise Violation("%d records were altered, e.g. %r" % (len(lost), [float(v) for v in lost[0]]))
    ax = [0, 1, 2] if dim == 3 else [0, 2]
    nb = [int(np.ceil((mx[k] - mn[k]) / d[k])) for k in ax]
    if n:
        ordered(after, mn, d, nb, "kernel", ax)
    return {"nontrivial": bool(n > 1 and not np.array_equal(before, after)), "labels": ["%dD" % dim]}


@st.composite
def pcase(draw, dim):
    s = draw(splits(dim, False).filter(lambda s: np.prod(s) <= 2))
    t = [draw(st.integers(1, 3)) for _ in range(3)]
    n = [s[k] * max(6, 4 * t[k]) + draw(st.integers(0, 4)) for k in range(3)]
    ns = draw(st.integers(1, 2))
    return {"dim": dim, "split": s, "tiles": t, "n": n, "ns": ns, "np": draw(st.integers(1, 300)), "steps": draw(st.integers(1, 4)), "on": draw(st.integers(0, 4)) > 0,
            "d": [draw(st.sampled_from([0.5, 1., 2., 1.5])) for _ in range(3)], "shift": [draw(st.sampled_from([0., -0.5, 0.5, -1.])) for _ in range(3)],
            "per": [draw(st.integers(-1, 3)) for _ in range(ns)], "start": [draw(st.integers(0, 3)) for _ in range(ns)], "seed": draw(st.integers(0, 2 ** 31))}


def prun(c):
    rng = np.random.default_rng(c["seed"])
    dim, n, ns = c["dim"], c["n"], c["ns"]
    ax = [0, 1, 2] if dim == 3 else [0, 2]
    d = np.array([1e-6, 0.8e-6, 1.2e-6])
    org = np.array([0., -2e-6, 5e-6])
    N = c["np"]
    rows = np.zeros((N, 11))
    rows[:, 0] = rng.integers(1, ns + 1, N)
    for k in ax:
        rows[:, 1 + k] = org[k] + rng.random(N) * n[k] * d[k] * (1 - 1e-9)
    rows[:, 4:7] = rng.normal(size=(N, 3))
    rows[:, 7:11] = rng.random((N, 4))
    rows[:, 9] = np.arange(1, N + 1)
    sp = [dict(name="s%d" % k, sorting_period=c["per"][k], sorting_start=c["start"][k]) for k in range(ns)]
    srt = dict(activation=int(c["on"]), dx=c["d"][0], dy=c["d"][1], dz=c["d"][2], shiftx=c["shift"][0], shifty=c["shift"][1], shiftz=c["shift"][2])
    dk = mkdeck(dim, n, c["split"], d=d, org=org, tiles=c["tiles"], species=sp, extra=[("sorting", srt)])
    ops = ["loadp p.bin"]
    for it in range(c["steps"]):
        m = rows.copy()  # new momenta, and positions permuted: the tiles keep their region
        ops += ["dumpp a%d" % it, "set it %d" % it, "call pxr_particle_sorting", "dumpp b%d" % it]
    key = lambda p: tuple(p[:7]) + tuple(p[13:16])
    moved = False
    with sim.run(dk, ops, int(np.prod(c["split"])), {"p.bin": ("p", rows)}) as res:
        for it in range(c["steps"]):
            A, B = res.dumps("a%d" % it), res.dumps("b%d" % it)
            for pr, (a, b) in enumerate(zip(A, B)):
                for s in range(1, ns + 1):
                    due = c["on"] and c["per"][s - 1] > 0 and it >= c["start"][s - 1] and it % c["per"][s - 1] == 0
                    ta, tb = a.tiles(s), b.tiles(s)
                    if a.i("npart%d" % s) != b.i("npart%d" % s):
                        raise Violation("sorting changed the number of particles of species %d from %d to %d" % (s, a.i("npart%d" % s), b.i("npart%d" % s)))
                    for t in ta:
                        ra, rb = [key(p) for p in ta[t][1]], [key(p) for p in tb[t][1]]
                        what = "step %d, process %d, species %d, tile %s: " % (it, pr, s, t)
                        if Counter(ra) != Counter(rb):
                            lost = list((Counter(ra) - Counter(rb)).elements())
                            raise Violation(what + "%d of %d records were altered, e.g. %r" % (len(lost), len(ra), [float(v) for v in lost[0]]))
                        if not due:
                            if ra != rb:
                                raise Violation(what + "sorted although not due (period %d, start %d, activation %d)" % (c["per"][s - 1], c["start"][s - 1], c["on"]))
                            continue
                        if len(rb) < 2:
                            continue
                        moved |= ra != rb
                        info = ta[t][0]
                        dd = np.array(c["d"]) * d
                        lo = np.array([info[8], info[10], info[12]]) + np.array(c["shift"]) * d
                        nb = [int(np.ceil((info[9 + 2 * k] + dd[k] - lo[k]) / dd[k] - 1e-9)) for k in ax]
                        if dim == 2:
                            lo[1] = 0
                        ordered(np.array(rb)[:, :3], lo, dd, nb, what, ax)
    return {"nontrivial": bool(moved), "labels": ["%dD" % dim, "on" if c["on"] else "off"]}


PARTS = [Part("kernel", kcase(), krun, quick=3000, thorough=200000, shards=1, thorough_shards=4), Part("program3d", pcase(3), prun, quick=30, thorough=1500, shards=2),
         Part("program2d", pcase(2), prun, quick=24, thorough=1200, shards=2)]
JOBS = 5
