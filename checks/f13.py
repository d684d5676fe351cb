from checks.whole import *
PID = "F13"
RULE = ("A case is a generated particle-in-cell problem run for 1-4 steps by the program built without OpenMP and by the program built with OpenMP on "
        "1-6 threads, with the same generated split, tiling and algorithms: non-trivial when particles move and there are several tiles and threads.")
ASSUMPTIONS = ["differences below 1e-9 of the largest value of the kind are rounding", "schedules are those the OpenMP runtime takes on this machine"]


def prepare():
    sim.prepare(omp=True)


@st.composite
def case(draw, dim, **k):
    s = draw(splits(dim, False).filter(lambda s: np.prod(s) <= 2))
    c = draw(problem(dim, split=s, nmin=9, nmax=20, **k))
    v = {"split": list(s), "tiles": [draw(st.integers(1, 4)) for _ in range(3)], "partcom": draw(st.integers(0, 2)),
         "fg_p_pp_separated": draw(st.integers(0, 2)), "currdepo": draw(st.sampled_from([0, 1, 2, 3, 4, 6])),
         "fieldgathe": draw(st.integers(0, 2)), "rhodepo": draw(st.integers(0, 2)), "mpicom_curr": draw(st.integers(0, 1))}
    if draw(st.integers(0, 3)) == 0:
        v["sorting"] = draw(sorting())
    return dict(c, v=v, threads=[draw(st.integers(2, 6)), draw(st.integers(1, 4))], l_plasma=1)


def run(c):
    F = EB + CUR + ["rho"]
    with simulate(c, c["v"]) as r:
        a = state(c, r, fields=F)
    for t in c["threads"]:
        with simulate(c, dict(c["v"], which="omp", threads=t)) as r:
            b = state(c, r, fields=F)
        compare(c, a, b, "OpenMP on %d threads" % t, fields=F)
    return {"nontrivial": moved(c) and max(c["threads"]) > 1 and max(c["v"]["tiles"]) > 1,
            "labels": ["threads%d" % max(c["threads"]), "currdepo%d" % c["v"]["currdepo"], "partcom%d" % c["v"]["partcom"]]}


PARTS = [Part("omp3d", case(3), run, quick=30, thorough=2000, shards=3), Part("omp2d", case(2), run, quick=26, thorough=1500, shards=2)]
JOBS = 4
