from checks.qgen import *
PID = "Q03"
RULE = ("A case is one set of pairs drawn from a generated or engine-built table (static form, engine and copy), or one evaluation of the "
        "cumulative distribution: non-trivial when the quantum parameter is inside the table or the probability is strictly between 0 "
        "and 1. Distinct = distinct case parameters.")
ASSUMPTIONS = ASSUME + ["reference distributions: numerical integration of the published pair spectra (own code, converged to 1e-12)",
                        "parents with a positive quantum parameter; random numbers in [0, 1)"]
PARTS = make_gen("bw")


def prepare():
    prepare_qed(False, True)
