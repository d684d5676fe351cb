from checks.qed import *
PID = "Q11"
RULE = ("A case is one particle in one field, with one drawn table per engine, computed by the four builds, two normalisation lengths and engines whose length was "
        "changed after construction: non-trivial when the quantum parameter is positive. Distinct = distinct case parameters.")
ASSUMPTIONS = ASSUME + ["relative deviations between precisions are bounded by the conditioning of the quantum parameter (checks/qed.py, chi_ref)",
                        "energies above 10 m c^2, so that the pair energies are determined to the stated accuracy"]


def prepare():
    prepare_qed(True, True)


PHYS = [(7, "electron mass", ME), (8, "elementary charge", QE), (9, "light speed", C_), (10, "reduced Planck constant", HB), (11, "vacuum permittivity", EPS0), (12, "fine structure constant", AL)]
UNITS = [1e9, 1e6, 1e3, 1.0, 0.1, 0.01, 1e-3, 1e-6, 1e-9, 1e-12, 1e-15]


def run_const(c):
    v = VAR[c["v"]]
    o = np.zeros(24)
    v.B.constants(o)
    for i, nm, w in PHYS:
        if not abs(o[i] - w) <= 1e-6 * w:
            raise Violation("%s is %r, should be %r (%s)" % (nm, o[i], w, v.nm))
    for i, w in enumerate(UNITS):
        if not abs(o[13 + i] - w) <= 1e-12 * w:
            raise Violation("length unit %d is %r, should be %r (%s)" % (i, o[13 + i], w, v.nm))
    if not abs(o[6] - math.pi) <= 1e-15 * 4:
        raise Violation("pi is %r" % o[6])
    # the units of each build describe the same constants
    if not (o[0] == (1 if v.norm else o[9]) and o[1] == (1 if v.norm else o[7])):
        raise Violation("light speed %r and electron mass %r in the units of the build (%s)" % (o[0], o[1], v.nm))
    return {"nontrivial": True, "labels": [v.nm]}


def run_case(c):
    rng = np.random.default_rng(c["seed"])
    pp = c["p"]
    F = mkfield(c["f"], pp)
    n1, na, nb = 5, 4, 9
    ctrl0 = A(1e-6, 1e-2, 1e2, n1, 1e-2, 1e2, na, nb)
    xs = np.linspace(math.log(1e-2), math.log(1e2), n1)
    ys = np.cumsum(rng.uniform(-1, 1, n1))
    ca = np.linspace(math.log(1e-2), math.log(1e2), na)
    cbw = np.linspace(0, 0.5, nb)
    cqs = np.log(np.geomspace(1e-4, 1, nb))
    # smooth laws which differ from row to row: the results depend on the quantum parameter
    ex = 0.7 + np.cumsum(rng.uniform(0.1, 0.6, na))
    ex = ex[rng.permutation(na)] if c["seed"] % 2 else ex
    x0 = np.linspace(0.02, 1, nb)
    tbw = np.log(0.5 * x0[None, :] ** ex[:, None])
    tqs = np.log(x0[None, :] ** ex[:, None])
    uu = c["u"]
    ref = None
    for v in VARS:
        for k, lam in enumerate(c["lam"] if v.norm else (1.0, 1.0)):
            lam = float(v.r(lam))
            p, f = v.mom(pp), v.fld(F, lam)
            if v.flt and (np.max(np.abs(f)) > 1e18 or np.any((f != 0) & (np.abs(f) < 1e-30)) or np.max(np.abs(v.unmom(p) - pp)) > 1e-5 * np.max(np.abs(pp))):
                continue
            late = bool(k) and v.norm  # the length is set after construction
            l0 = 3e-6 if late else lam
            q = v.unmom(p)
            d = 0 if not v.flt or v.norm else 4 * v.tiny / float((p * p).sum())
            r = {}
            cc = [0, 0]
            o = np.zeros(1)
            for lep in (0, 1):
                v.B.chi(lep, 1, p, f, lam, 0, o)
                w, dw = chi_ref(v, lep, p, f, lam)
                cc[lep] = (w, dw)
                r["chi %s" % ("lepton" if lep else "photon")] = (o[0], dw + 40 * v.u * w)
            g2 = float((q * q).sum())
            for pre in ("bw", "qs"):
                E = lambda nm, *a: getattr(v.E, pre + "_" + nm)(*a)
                chi, dchi = cc[0 if pre == "bw" else 1]
                if dchi > 1e-3 * chi or not chi > 1e-4 or pre == "bw" and not 0.05 < chi < 50 or pre == "qs" and not 1e-3 < chi < 50:
                    continue
                en = math.sqrt(g2 + (pre == "qs"))
                ctrl = np.array(v.r(ctrl0))
                us = v.r(A(uu))
                tab = tbw if pre == "bw" else tqs
                h = E("raw", ctrl, l0, us, 1, n1, v.r(xs), v.r(ys), na, v.r(ca), nb, v.r(cbw if pre == "bw" else cqs), np.ascontiguousarray(v.r(tab)).ravel())
                if late:
                    E("set_lambda", h, lam)
                if E("lambda", h) != (lam if v.norm else 1.0):
                    raise Violation("normalisation length %r, set %r (%s)" % (E("lambda", h), lam, v.nm))
                ct = 1 / v.rate(1.0, lam)  # seconds^-1 per unit of the build
                rel = 4 * dchi / chi * (3 / chi + 2 if pre == "bw" else 3) + 3e3 * v.u * (1 + 3 / chi if pre == "bw" else 1) + 4 * d
                w = E("interp", h, v.energy(en), float(v.r(chi)))
                if w and ct * w < 1e36:
                    r[pre + " table rate"] = (w * ct, rel * w * ct)
                # direct rate: separately integrated, to the tolerance of the quadratures
                if c["direct"] and (pre == "qs" or chi > 0.1):
                    w = E("dndt", h, v.energy(en), float(v.r(chi)))
                    r[pre + " rate"] = (w * ct, (rel + (1.2e-2 if v.flt else 1e-7 if pre == "qs" else 5e-6)) * w * ct)
                dt = float(v.r(v.time(c["dt"] / (bw_rate(1, 1, 1) / en), lam)))
                if 1e-33 < dt < 1e30:
                    e = A(1.0, 9, 9)
                    E("evolve", h, p, f, dt, e)
                    r[pre + " depth step"] = (1 - e[0], rel * abs(1 - e[0]) + 8 * v.u)
                    # relative to the step
                    if abs(e[0]) > 1e-3:
                        r[pre + " event"] = (e[1], 0.0)
                        r[pre + " event time"] = (e[2] / dt, (rel + 40 * v.u) * 2)
                if en > 10:
                    if pre == "bw":
                        out = np.zeros(10)
                        E("gen", h, 0, p, f, 1.0, 1, us, out)
                        for j, nm in ((0, "electron"), (4, "positron")):
                            r["pair " + nm] = (v.unmom(out[j:j + 3]), (rel + 1e3 * v.u) * en * 5)
                    else:
                        out, p2 = np.zeros(6), p.copy()
                        E("gen", h, 0, p2, f, 1.0, 1, us, out)
                        r["photon"] = (v.unmom(out[0:3]), (rel + 1e3 * v.u) * en * 5)
                        r["recoiled lepton"] = (v.unmom(p2), (rel + 1e3 * v.u) * en * 5)
                E("del", h)
            # Schwinger pairs per volume and time
            if c["f"]["kind"] != "null":
                h = v.B.sw_new(l0, A(uu), 1)
                if late:
                    v.B.sw_set_lambda(h, lam)
                w = v.B.sw_rate(h, f)
                v.B.sw_del(h)
                s = 2 * np.pi / lam if v.norm else 1.0
                w = w * s ** 4 * C_ if v.norm else w
                # exp(-pi/eps): conditioned by the invariants of the field
                S2 = float((F * F).sum())
                a = float((F[:3] ** 2).sum() - (F[3:] ** 2).sum()) / 2
                b = float(F[:3] @ F[3:])
                ep = math.sqrt(math.sqrt(a * a + b * b) + a) if a > 0 else abs(b) / math.sqrt(math.sqrt(a * a + b * b) - a) if b * b > 0 else 0.0
                if ep > 0.05 and ep * ep > 0.05 * S2 and w < 1e34 * (1e300 if not v.flt else 1):
                    r["Schwinger rate"] = (w, w * v.u * (400 + 2000 * (1 + math.pi / ep)) * (1 + S2 / ep / ep))
            if ref is None:
                ref = r
            for nm in r:
                if nm not in ref:
                    continue
                (x, dx), (y, dy) = np.array(r[nm], dtype=object), np.array(ref[nm], dtype=object)
                if not np.all(np.abs(x - y) <= dx + dy):
                    raise Violation("%s is %r in %s (length %r%s), %r in %s" % (nm, x, v.nm, lam, ", set later" if late else "", y, VARS[0].nm))
    if ref is None:
        raise Discard()
    return {"nontrivial": any(k in ref for k in ("bw depth step", "qs depth step")), "labels": sorted(ref)}


fl = st.fixed_dictionaries({"kind": st.sampled_from(["random", "random", "perp", "E", "B", "parallel"]), "E": LOG(-4, 0.5), "B": LOG(-4, 0.5), "e": unit3, "b": unit3})
cs = st.fixed_dictionaries({"seed": SEED, "p": mom3(1.2, 4.5), "f": fl, "lam": st.tuples(LAM, LOG(-9, 0)), "u": st.floats(0.02, 0.98).filter(lambda u: abs(u - .5) > 0.02),
                            "dt": LOG(-3, 1.5), "direct": st.sampled_from([False, False, False, True])})
PARTS = [Part("constants", st.fixed_dictionaries({"v": VN}), run_const, quick=8, thorough=8), Part("physics", cs, run_case, quick=1800, thorough=80000, shards=6)]
