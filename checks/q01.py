from checks.qed import *
PID = "Q01"
RULE = ("A case is one momentum and field evaluated as photon and as charged particle in one unit system and precision: non-trivial "
        "when momentum and field are not zero. Distinct = distinct case parameters.")
ASSUMPTIONS = ASSUME + ["momenta between 1e-6 and 1e9 m c, fields between 1e-12 and 10 critical fields",
                        "a charged particle at rest has quantum parameter zero, as the code defines"]


def prepare():
    prepare_qed(True)


def call(v, lep, p, f, lam, dflt=0):
    o = np.full(1, np.nan)
    v.B.chi(int(lep), 1, A(*p), A(*f), float(lam), dflt, o)
    return float(o[0])


def one(v, lep, p, f, lam, lam_eff, dflt=0):
    got = call(v, lep, p, f, lam, dflt)
    want, tol = chi_ref(v, lep, p, f, lam_eff)
    what = "%s quantum parameter (%s)" % ("lepton" if lep else "photon", v.nm)
    if not math.isfinite(got) or got < 0:
        raise Violation("%s is %r" % (what, got))
    if not abs(got - want) <= tol * 1.01 + 10 * v.tiny:
        raise Violation("%s is %r, definition gives %r (tolerance %.2g)" % (what, got, want, tol))
    return got, want, tol


def run(c):
    v = VAR[c["v"]]
    lam = c["lam"]
    p = v.mom(c["p"])
    f = v.fld(mkfield(c["f"], c["p"]), lam)
    if v.flt:
        if not v.norm and 0 < np.linalg.norm(c["p"]) < 10 or np.linalg.norm(c["p"]) > 1e15:
            raise Discard()
        if np.max(np.abs(f)) > 1e18 or np.max(np.abs(f)) and np.max(np.abs(f)) < 1e-15:
            raise Discard()
    rel = 0
    for lep in (0, 1):
        got, want, tol = one(v, lep, p, f, lam, lam)
        rel = max(rel, 1 if want and tol < 1e-2 * want else 0)
        # doubled fields: exactly twice the parameter
        if want > 1e-25 and np.max(np.abs(f)) < 1e17:
            g2 = call(v, lep, p, 2 * f, lam)
            if not abs(g2 - 2 * got) <= 64 * v.u * abs(got) + 2 * tol:
                raise Violation("quantum parameter of doubled fields is %r, not twice %r (%s)" % (g2, got, v.nm))
        # the normalisation length: default one, no effect in SI units
        if v.norm and lam == 1.0 or not v.norm:
            if call(v, lep, p, f, lam, 1) != got:
                raise Violation("the default normalisation length is not one (%s)" % v.nm)
        if not v.norm and call(v, lep, p, f, lam * 7.25) != got:
            raise Violation("the normalisation length changes the quantum parameter in SI units (%s)" % v.nm)
        # reversed momentum and magnetic field (time reversal); permuted axes
        if call(v, lep, -p, f * A(1, 1, 1, -1, -1, -1), lam) != got:
            raise Violation("the quantum parameter changes under time reversal (%s)" % v.nm)
        r = A(f[1], f[2], f[0], f[4], f[5], f[3])
        one(v, lep, A(p[1], p[2], p[0]), r, lam, lam)
    nz = bool(np.any(p)) and bool(np.any(f))
    return {"nontrivial": nz, "labels": [c["v"], c["f"]["kind"], "sharp" if rel else "ill-conditioned"]}


case = st.fixed_dictionaries({"v": VN, "lam": LAM, "p": mom3(-6, 9, True), "f": fields(-12, 1)})
# physically usual range: large momenta across strong fields
hot = st.fixed_dictionaries({"v": VN, "lam": LAM, "p": mom3(1, 5), "f": fields(-6, 0)})
PARTS = [Part("definition", case, run, quick=6000, thorough=200000, shards=3), Part("strong", hot, run, quick=6000, thorough=200000, shards=3)]
