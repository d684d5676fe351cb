from checks.whole import *
PID = "F11"
RULE = ("A case is a generated particle-in-cell problem run for 1-4 steps on one process and again on 2-8 processes under a generated split of the "
        "domain, rank topology, tiling and choice of communication routines: non-trivial when particles move.")
ASSUMPTIONS = ["differences below 1e-9 of the largest value of the kind are rounding"]


def prepare():
    sim.prepare()


@st.composite
def case(draw, dim, **k):
    s = draw(splits(dim, True).filter(lambda s: np.prod(s) > 1))
    c = draw(problem(dim, split=s, **k))
    v = {"split": list(s), "tiles": [draw(st.integers(1, 3)) for _ in range(3)], "topology": draw(st.integers(0, 2)),
         "mpicom_curr": draw(st.integers(0, 2)), "partcom": draw(st.integers(0, 2)), "fg_p_pp_separated": draw(st.integers(0, 2))}
    if draw(st.integers(0, 3)) == 0:
        v["sorting"] = draw(sorting())
    return dict(c, v=v, l_plasma=1)


def run(c):
    F = EB + CUR + ["rho"]
    with simulate(c) as r:
        a = state(c, r, fields=F)
    with simulate(c, c["v"]) as r:
        b = state(c, r, fields=F)
    compare(c, a, b, "with %r" % c["v"], fields=F)
    return {"nontrivial": moved(c), "labels": ["x".join(map(str, c["v"]["split"])), "topology%d" % c["v"]["topology"], "partcom%d" % c["v"]["partcom"]]}


PARTS = [Part("mpi3d", case(3), run, quick=50, thorough=2000, shards=3), Part("mpi2d", case(2), run, quick=40, thorough=2000, shards=2)]
JOBS = 5
