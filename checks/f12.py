from checks.whole import *
PID = "F12"
RULE = ("A case is a generated particle-in-cell problem run for 1-4 steps with the default algorithms and again with generated choices among the "
        "algorithms that the code offers for the same operation (deposition of currents and charge, gathering, separate or fused gather and push, "
        "exchange of currents and particles): non-trivial when particles move.")
ASSUMPTIONS = ["differences below 1e-9 of the largest value of the kind are rounding",
               "variants of the current deposition are compared within one family (charge-conserving or direct)"]


def prepare():
    sim.prepare()


@st.composite
def case(draw, dim, **k):
    s = draw(splits(dim, False))
    c = draw(problem(dim, split=s, **k))
    same = len(set(c["no"])) == 1
    fam = [0, 1, 2] if dim == 2 else [3, 4, 5] if same and draw(st.booleans()) else [0, 1, 2, 6]
    base = {"split": list(s), "tiles": [draw(st.integers(1, 2)) for _ in range(3)], "currdepo": fam[-1]}
    vs = []
    for _ in range(2):
        v = dict(base)
        v["currdepo"] = draw(st.sampled_from(fam))
        v["fieldgathe"] = draw(st.integers(0, 2))
        v["rhodepo"] = draw(st.integers(0, 2))
        v["fg_p_pp_separated"] = draw(st.integers(0, 2))
        v["mpicom_curr"] = draw(st.integers(0, 2))
        v["partcom"] = draw(st.integers(0, 2))
        vs.append(v)
    base.update(fieldgathe=2, rhodepo=2, fg_p_pp_separated=2, mpicom_curr=1, partcom=1)
    return dict(c, base=base, vs=vs, l_plasma=1)


def run(c):
    F = EB + CUR + ["rho"]
    with simulate(c, c["base"]) as r:
        a = state(c, r, fields=F)
    for v in c["vs"]:
        with simulate(c, v) as r:
            b = state(c, r, fields=F)
        compare(c, a, b, "with %r" % {k: v[k] for k in v if v[k] != c["base"][k]}, fields=F)
    return {"nontrivial": moved(c), "labels": ["currdepo%d" % v["currdepo"] for v in c["vs"]] + ["order%d%d%d" % tuple(c["no"])]}


PARTS = [Part("alg3d", case(3), run, quick=45, thorough=2000, shards=4), Part("alg2d", case(2), run, quick=40, thorough=2000, shards=3)]
JOBS = 7
