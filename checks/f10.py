from checks.whole import *
PID = "F10"
RULE = ("A case is a generated particle-in-cell problem (2D or 3D grid, shape orders, solver order, 1-3 species of particles with random "
        "positions, momenta and weights, random fields) run for 1-4 steps on one tile with default settings and again under generated tilings, "
        "vector lengths and sorting settings: non-trivial when particles move and a variant has more than one tile, or sorts.")
ASSUMPTIONS = ["differences below 1e-9 of the largest value of the kind are rounding"]


def prepare():
    sim.prepare()


@st.composite
def case(draw, dim, **k):
    c = draw(problem(dim, **k))
    vs = []
    for _ in range(2):
        v = {"tiles": [draw(st.integers(1, 4)) for _ in range(3)]}
        if draw(st.booleans()):
            v["lvec_curr_depo"] = draw(st.sampled_from([1, 2, 3, 4, 7, 8, 16, 32, 64]))
            v["lvec_charge_depo"] = draw(st.sampled_from([1, 2, 3, 4, 7, 8, 16, 32, 64, 256]))
            v["lvec_fieldgathe"] = draw(st.sampled_from([1, 2, 3, 4, 7, 8, 16, 32, 64, 256]))
        if draw(st.integers(0, 2)) == 0:
            v["sorting"] = draw(sorting())
        vs.append(v)
    return dict(c, vs=vs, l_plasma=1)


def run(c):
    ref = None
    for v in [{}] + c["vs"]:
        with simulate(c, v) as r:
            s = state(c, r, fields=EB + CUR + ["rho"])
        if ref is None:
            ref = s
        else:
            compare(c, ref, s, "with %r" % {k: v[k] for k in sorted(v)}, fields=EB + CUR + ["rho"])
    return {"nontrivial": moved(c) and any(max(v["tiles"]) > 1 or "sorting" in v for v in c["vs"]),
            "labels": ["order%d%d%d" % tuple(c["no"]), "sorted" if any("sorting" in v for v in c["vs"]) else "unsorted"]}


PARTS = [Part("tiles3d", case(3), run, quick=60, thorough=2500, shards=4), Part("tiles2d", case(2), run, quick=50, thorough=2000, shards=3)]
JOBS = 7
