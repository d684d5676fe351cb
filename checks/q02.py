from checks.qrates import *
PID = "Q02"
RULE = ("A case is one rate evaluation, one engine-built table with several look-ups, one history of optical-depth steps, or one set of "
        "initial depths: non-trivial when the rate is positive, a look-up falls inside the table, or the history contains an event. "
        "Distinct = distinct case parameters.")
ASSUMPTIONS = ASSUME + ["reference rates: numerical integration of the published pair-production spectra (own code, converged to 1e-12)",
                        "accuracy required of computed rates: see checks/qrates.py (tol)"]
PARTS = make("bw")


def prepare():
    prepare_qed(False, True)
