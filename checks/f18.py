from checks.common import *
import ctypes
PID = "F18"
RULE = ("A case is one evaluation of the coefficients at a step ratio, or one application of the filter to a random field: "
        "non-trivial when the ratio lies strictly between two entries of the table, or the filtered range is not empty and the "
        "stencil has more than one coefficient. Distinct = distinct case parameters.")
ASSUMPTIONS = ["the table of Godfrey's coefficients is compared to a copy frozen in data/godfrey.json (published constants)",
               "step ratios in [0, 1]"]
CTX = {}


def prepare():
    path = build.fortran_lib()
    CTX["F"] = F(path)
    L = CTX["F"].L
    CTX["tab"] = {k: np.array(v)[:100] for k, v in json.load(open(os.path.join(build.VERIF, "data", "godfrey.json"))).items()}
    f = L.init_godfrey_filter_coeffs
    f.restype = None
    f.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int32, ctypes.c_double, ctypes.c_int32]
    CTX["init"] = f


def coeffs(r):
    ex, by = np.full(9, -4.5e33), np.full(9, -4.5e33)
    CTX["init"](ex[2:].ctypes.data, by[2:].ctypes.data, 5, r, 1)
    for a in (ex, by):
        if not (np.all(a[:2] == -4.5e33) and np.all(a[7:] == -4.5e33)):
            raise Violation("coefficients written outside the stencil array")
    return {"ex": ex[2:7], "by": by[2:7]}


def table(nm, r):
    t = CTX["tab"][nm]
    n = len(t)
    i = min(int(np.floor(n * r + 1e-12)), n - 2)
    w = n * r - i
    return (1 - w) * t[i] + w * t[i + 1]


def run_coef(c):
    r = c["r"]
    got = coeffs(r)
    for nm in ("ex", "by"):
        s, p = got[nm], table(nm, r)
        norm = s[0] + 2 * s[1:].sum()
        if not abs(norm - 1) < 1e-11:
            raise Violation("%s stencil at c dt/dz = %g: coefficients sum to %r, not 1" % (nm, r, float(norm)))
        for k in np.linspace(0, np.pi, 9):
            X = np.sin(k / 2) ** 2
            want = 1 + p[0] * X + p[1] * X ** 2 + p[2] * X ** 3 + p[3] * X ** 4
            have = s[0] + 2 * sum(s[j] * np.cos(j * k) for j in range(1, 5))
            if not abs(have - want) < 5e-6:
                raise Violation("%s stencil at c dt/dz = %r: transfer function at k dz = %.3f is %r, the tabulated polynomial gives %r"
                                % (nm, r, k, float(have), float(want)))
        # continuous and consistent in the step ratio
        e = coeffs(min(max(r + c["eps"], 0), 1.0))[nm]
        if np.max(np.abs(e - s)) > 100 * abs(c["eps"]) + 1e-6:
            raise Violation("%s stencil jumps by %g between step ratios %r and %r" % (nm, float(np.max(np.abs(e - s))), r, r + c["eps"]))
    x = r * 100
    return {"nontrivial": abs(x - round(x)) > 1e-9, "labels": ["upper" if r >= 0.99 else "lower" if r < 0.01 else "mid"]}


def run_apply(dim):
    def run(c):
        rng = np.random.default_rng(c["seed"])
        ns = c["ns"]
        lo, n, g = c["lo"][:dim], c["n"][:dim], c["g"][:dim]
        hi = [l + m - 1 for l, m in zip(lo, n)]
        ex, eo = c["exi"][:dim], c["exo"][:dim]
        ilo = [l - e - (ns - 1 if k == dim - 1 else 0) for k, (l, e) in enumerate(zip(lo, ex))]
        ihi = [h + e + (ns - 1 if k == dim - 1 else 0) for k, (h, e) in enumerate(zip(hi, ex))]
        olo, ohi = [l - e for l, e in zip(lo, eo)], [h + e for h, e in zip(hi, eo)]
        fin, fou = Arr(ilo, ihi), Arr(olo, ohi)
        fin.v[...] = rng.normal(size=fin.v.shape) if c["field"] == "random" else 3.25
        fou.v[...] = rng.normal(size=fou.v.shape)
        prior, fin0 = fou.v.copy(), fin.v.copy()
        if c["sten"] == "table":
            s = coeffs(c["r"])["ex" if c["seed"] % 2 else "by"]
            s = np.array(list(s)[:ns] + [0.0] * max(0, ns - 5))
        else:
            s = rng.normal(size=ns)
        i4 = lambda v: np.array(v, dtype=np.int32)
        CTX["F"].L["apply_godfrey_filter_z_%dd" % dim].restype = None
        a = [i4(lo), i4(hi), fou.v, i4(olo), i4(ohi), fin.v, i4(ilo), i4(ihi), s, i4([ns])]
        CTX["F"].L["apply_godfrey_filter_z_%dd" % dim](*[ctypes.c_void_p(x.ctypes.data) for x in a])
        want = prior.copy()
        sl = lambda al, sh=0: tuple(slice(l - a + (sh if k == dim - 1 else 0), h - a + 1 + (sh if k == dim - 1 else 0))
                                    for k, (l, h, a) in enumerate(zip(lo, hi, al)))
        acc = s[0] * fin0[sl(ilo)]
        for j in range(1, ns):
            acc = acc + s[j] * (fin0[sl(ilo, -j)] + fin0[sl(ilo, j)])
        want[sl(olo)] = acc
        if not np.array_equal(fin.v, fin0):
            raise Violation("the filter changed its input")
        rel_err(fou, 0.0, want, 1e-2 * (1 + np.abs(s).sum()), "filtered field %dD" % dim)
        if c["field"] == "const" and c["sten"] == "table" and ns == 5 and n[0] and not np.allclose(fou.v[sl(olo)], 3.25, rtol=1e-11):
            raise Violation("a constant field is not preserved by the tabulated stencil")
        return {"nontrivial": min(n) > 0 and ns > 1, "labels": [c["sten"], c["field"]]}
    return run


ratio = st.one_of(st.floats(0, 1), st.floats(0.98, 1), st.integers(0, 100).map(lambda k: k / 100), st.floats(0, 0.02))
cc = st.fixed_dictionaries({"r": ratio, "eps": st.sampled_from([1e-9, -1e-9, 1e-4, -1e-4, 1e-2])})
I3 = lambda a, b: st.tuples(*[st.integers(a, b)] * 3)
ac = st.fixed_dictionaries({"seed": SEED, "ns": st.sampled_from([5, 5, 5, 1, 2, 3, 7]), "lo": I3(-7, 9), "n": I3(1, 9), "g": I3(0, 3),
                            "exi": I3(0, 3), "exo": I3(0, 3), "r": ratio, "sten": st.sampled_from(["table", "random"]),
                            "field": st.sampled_from(["random", "random", "const"])})
PARTS = [Part("coefficients", cc, run_coef, quick=4000, thorough=100000, shards=2),
         Part("apply2d", ac, run_apply(2), quick=3000, thorough=60000), Part("apply3d", ac, run_apply(3), quick=3000, thorough=60000)]
