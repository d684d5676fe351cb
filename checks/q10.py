from checks.qed import *
from scipy.stats import poisson as PO
from scipy.special import kve, gammaincc, gamma as G_
PID = "Q10"
RULE = ("A case is one call (or one stream of draws): non-trivial when the inputs are in the domain where a value is determined (and not the empty result of "
        "refused inputs). Distinct = distinct case parameters.")
ASSUMPTIONS = ["ranges: the spacing is resolved by the precision; logarithmic ranges: n^2 eps < ln(max/min)/4; log-lin-log: three points or more, min < max/10",
               "Poisson: means up to 700 (double) or 80 (single), the range of exp; larger means are a known finding",
               "root finding: smooth monotone functions, the guess within a factor 2000 of the root and of its sign",
               "quadrature: smooth positive integrands (with an integrable power at the lower end for the tanh-sinh rule), to the square root of the precision",
               "Bessel functions: orders multiples of 1/3 and 1/4 up to 3 (the standard library is inaccurate next to integer orders), arguments 1e-3..700"]
VR = [VAR["nmd"], VAR["nmf"]]
prepare = __import__("checks.q09", fromlist=["prepare"]).prepare


def rng_(v, kind, a, b, n):
    o = np.full(5000, np.nan)
    k = v.B.range(kind, a, b, n, o)
    return o[:min(k, 5000)], k


def run_range(c):
    v, kind, n = VAR[c["v"]], c["kind"], c["n"]
    a = float(v.r(c["a"] if kind == 0 else abs(c["a"]) if c["a"] else 1.0))
    b = float(v.r(a + c["w"] if kind == 0 else a * (1 + c["w"])))
    if kind == 0 and c["sw"] % 4 == 1:
        a, b = b, a  # refused
    if kind == 1 and c["sw"] % 8 == 1:
        a, b = b, a
    if kind < 2 and c["sw"] % 8 == 4:
        b = a
    if kind == 1 and c["sw"] % 8 == 2:
        a = 0.0
    if kind == 1 and c["sw"] % 8 == 3:
        a, b = -b, b
    if kind < 2 and (n < 2 or a >= b or kind == 1 and a <= 0):
        o, k = rng_(v, kind, a, b, n)
        if k:
            raise Violation("range %d from %r to %r with %d points is not refused (%s)" % (kind, a, b, n, v.nm))
        return {"nontrivial": False, "labels": ["refused"]}
    eps = 2 * v.u
    if kind == 0 and not (b - a) / (n - 1) > 16 * v.u * max(abs(a), abs(b)):
        raise Discard()
    if kind == 1 and not n * n * eps < math.log(b / a) / 4 or b > 1e-3 * v.max or kind and a < 1e-30:
        raise Discard()
    if kind == 2 and (n < 3 or not a < 0.0999 * b or not math.log(b / 10 / a) / n > 64 * v.u * (1 + math.log(b / a)) or n > 1e-3 / v.u):
        raise Discard()
    x, k = rng_(v, kind, a, b, n)
    nm = "%s range of %d points from %r to %r (%s)" % (("linear", "logarithmic", "log-lin-log")[kind], n, a, b, v.nm)
    if k != n:
        raise Violation("%s has %d points" % (nm, k))
    if x[0] != a or x[-1] != b:
        raise Violation("%s starts at %r and ends at %r" % (nm, x[0], x[-1]))
    if not np.all(np.diff(x) > 0):
        i = int(np.nonzero(~(np.diff(x) > 0))[0][0])
        raise Violation("%s does not increase at %d: %r, %r" % (nm, i, x[i], x[i + 1]))
    if kind == 0:
        w = np.linspace(a, b, n)
        e = 8 * v.u * (max(abs(a), abs(b)) + b - a)
    elif kind == 1:
        w = np.exp(np.linspace(math.log(a), math.log(b), n))
        e = 4 * (n + math.log(b / a) + 8) * v.u * w
    else:
        k1 = n // 3
        k3 = n - 2 * k1
        w = np.concatenate([a * (b / 10 / a) ** (np.arange(k1) / k1), b / 10 + 0.8 * b * np.arange(k1) / k1,
                            b * (0.9) ** (np.arange(k3 - 1, -1, -1) / max(k3 - 1, 1))])
        e = (16 + 8 * math.log(b / a)) * v.u * w
        w[-1] = b
    if not np.all(np.abs(x - w) <= e):
        i = int(np.argmax(np.abs(x - w) / (e + 1e-300)))
        raise Violation("%s: point %d is %r, should be %r" % (nm, i, x[i], w[i]))
    return {"nontrivial": n > 2, "labels": [("linear", "logarithmic", "loglinlog")[kind], v.nm]}


def run_search(c):
    v = VAR[c["v"]]
    x = np.sort(v.r(np.array(c["x"], float)))
    for q in c["q"]:
        q = float(v.r(x[int(q * (len(x) - 1))] if len(x) and q >= 0 else -q * 10 - 50))
        for z in (q, float(np.nextafter(v.dt(q), v.dt(np.inf))), float(np.nextafter(v.dt(q), v.dt(-np.inf)))):
            k = v.B.ubound(len(x), x if len(x) else A(0), z)
            w = int(np.searchsorted(x, z, side="right"))
            if k != w:
                raise Violation("first element above %r in %r is at %d, not %d (%s)" % (z, list(x), w, k, v.nm))
    return {"nontrivial": len(x) > 1, "labels": [v.nm, "%d" % min(len(x), 10)]}


def run_poisson(c):
    v = VAR[c["v"]]
    l, u = float(v.r(c["lam"])), float(v.r(c["u"]))
    if u >= 1:
        raise Discard()
    k = int(v.B.poisson(l, u))
    tol = 8 * (l + 30 + 12 * math.sqrt(l)) * v.u
    ok = (k == 0 or PO.cdf(k - 1, l) - tol < u) and u <= PO.cdf(k, l) + tol
    # at the other end of the tolerance the count may not run away
    ok = ok and k <= l + 14 * math.sqrt(l) + 200
    if not ok:
        raise Violation("Poisson draw of mean %r for the uniform number %r is %d, the quantile is %d (%s)" % (l, u, k, PO.ppf(u, l), v.nm))
    return {"nontrivial": k > 0, "labels": [v.nm]}


CBT = ctypes.CFUNCTYPE(DP, DP)


def run_root(c):
    v = VAR[c["v"]]
    x0, k, fam, s = c["x0"], c["k"], c["fam"], -1.0 if c["fall"] else 1.0
    if v.flt and not 1e-4 < x0 < 1e4:
        raise Discard()
    x0 = float(v.r(x0))
    f = {"pow": lambda x: (abs(x) / x0) ** k * (1 if x > 0 else -1) - 1, "log": lambda x: math.log(x / x0) if x > 0 else -700.0,
         "exp": lambda x: math.expm1(min((x - x0) / x0, 300.0)), "lin": lambda x: (x - x0) * k}[fam]
    g = float(v.r(x0 * c["g"]))
    r = v.B.root(CBT(lambda x: s * f(x)), g, int(s > 0))
    if not abs(r - x0) <= 24 * v.u * x0:
        raise Violation("root of a %s %s function at %r from the guess %r: %r (%s)" % ("falling" if s < 0 else "rising", fam, x0, g, r, v.nm))
    return {"nontrivial": g != x0, "labels": [fam, v.nm]}


def run_quad(c):
    v, kind = VAR[c["v"]], c["kind"]
    a, b = float(v.r(c["a"])), float(v.r(c["a"] + c["w"]))
    nan = [0]
    if kind == 0:
        co = c["co"]
        f = lambda x: sum(q * x ** i for i, q in enumerate(co))
        F = lambda x: sum(q * x ** (i + 1) / (i + 1) for i, q in enumerate(co))
        a, b = abs(a), abs(a) + (b - a)
        w, tol, d = F(b) - F(a), (3e-3 if v.flt else 1e-6), "polynomial %r" % co
    elif kind == 1:
        p = c["p"]
        f = lambda x: (x - a) ** p if x > a else (nan.__setitem__(0, 1) or 0.0)
        a = 0.0
        b = float(v.r(c["w"]))
        w, tol, d = b ** (p + 1) / (p + 1), (2e-2 if v.flt and p < -0.3 else 2e-3 if v.flt else 1e-6), "power %r" % p
    else:
        s, k = c["s"], c["n"]
        a = abs(a) * s * 0.3
        a = float(v.r(a))
        f = lambda x: (x / s) ** k * math.exp(-min(x / s, 740.0))
        w, tol, d = s * G_(k + 1) * gammaincc(k + 1, a / s), (5e-3 if v.flt else 1e-6), "x^%d exp(-x/%r)" % (k, s)
    r = v.B.quad(kind, CBT(f), a, b)
    if not abs(r - w) <= tol * abs(w):
        raise Violation("%s quadrature of the %s from %r to %r: %r, exact %r (%s)" % (("trapezoid", "tanh-sinh", "semi-infinite")[kind], d, a, b if kind < 2 else "infinity", r, w, v.nm))
    return {"nontrivial": True, "labels": [("trapezoid", "tanh-sinh", "semi-infinite")[kind], v.nm]}


def run_bessel(c):
    v = VAR[c["v"]]
    nu, x = float(v.r(c["nu"])), float(v.r(c["x"]))
    g, w = v.B.besselk(nu, x), kve(nu, x) * math.exp(-x)
    if v.flt:
        if w > 1e38:
            raise Discard()
        tol = 2e-5 * w + 3e-45 + 4 * v.u * x * w
    else:
        tol = 1e-11 * w + 1e-307
    if not abs(g - w) <= tol:
        raise Violation("K_%r(%r) is %r, reference %r (%s)" % (nu, x, g, w, v.nm))
    return {"nontrivial": w > 1e-40, "labels": [v.nm, "x>80" if x > 80 else "x<=80"]}


def run_vec(c):
    v = VAR[c["v"]]
    a, b, s = v.r(A(*c["a"])), v.r(A(*c["b"])), float(v.r(c["s"]))
    if s == 0:
        raise Discard()
    o = np.zeros(21)
    v.B.vecops(a, b, s, o)
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    t = 1e-37 if v.flt else 1e-300
    chk = [("squared norm", o[0], na * na, na * na), ("norm", o[1], na, na), ("dot product", o[2], a @ b, na * nb), ("cross product", o[3:6], np.cross(a, b), na * nb),
           ("vector times number", o[6:9], a * s, abs(a * s)), ("number times vector", o[9:12], a * s, abs(a * s)), ("vector over number", o[12:15], a / s, abs(a / s)),
           ("sum", o[15:18], a + b, abs(a) + abs(b)), ("difference", o[18:21], a - b, abs(a) + abs(b))]
    for nm, g, w, m in chk:
        if np.max(np.abs(w)) > 0.1 * v.max or np.max(m) > 0.1 * v.max:
            continue
        if not np.all(np.abs(g - w) <= 6 * v.u * m + (math.sqrt(t) if nm == "norm" else t)):
            raise Violation("%s of %r, %r, %r: %r, should be %r (%s)" % (nm, list(a), list(b), s, g, w, v.nm))
    return {"nontrivial": bool(na and nb), "labels": [v.nm]}


def run_rng(c):
    v, n = VAR[c["v"]], c["n"]
    ab = v.r(A(c["a"], c["a"] + c["w"]) if c["how"] == 0 else A(c["w"], 0))
    if c["how"] == 0 and not ab[1] - ab[0] > 1e3 * v.u * max(abs(ab)):
        raise Discard()
    sd = c["seed"]
    o, o2 = np.zeros((4, n)), np.zeros((4, n))
    v.B.rng_run(ctypes.c_uint64(sd), c["how"], n, ab, o)
    v.B.rng_run(ctypes.c_uint64(sd + 1), c["how"], n, ab, o2)
    for k, nm in enumerate(("", "an adopted generator", "a copied generator", "an assigned generator")):
        if k and not np.array_equal(o[k], o[0]):
            raise Violation("%s of the same state draws other numbers: %r, %r (%s)" % (nm, o[k][:3], o[0][:3], v.nm))
    x = o[0]
    if n > 2 and np.array_equal(x, o2[0]):
        raise Violation("seeds %d and %d draw the same numbers" % (sd, sd + 1))
    if c["how"] == 0:
        if not (np.all(x >= ab[0]) and np.all(x <= ab[1])):
            raise Violation("uniform draws outside [%r, %r): %r (%s)" % (ab[0], ab[1], x, v.nm))
        z = (x - ab[0]) / (ab[1] - ab[0])
        m, sg = 0.5, math.sqrt(1 / 12)
        u = z
    else:
        if not (np.all(x >= 0) and np.all(np.isfinite(x))):
            raise Violation("exponential draws %r (%s)" % (x, v.nm))
        z = x * ab[0]
        m, sg = 1.0, 1.0
        u = -np.expm1(-z)
    if n >= 100:
        if not abs(z.mean() - m) <= 7 * sg / math.sqrt(n) + 8 * v.u * abs(ab[0] / (ab[1] - ab[0])):
            raise Violation("mean of %d draws (%s, %r) is %r standard deviations off (%s)" % (n, "uniform" if c["how"] == 0 else "exponential", list(ab), (z.mean() - m) / sg * math.sqrt(n), v.nm))
        ks = np.max(np.abs(np.sort(u) - (np.arange(n) + 0.5) / n))
        if not ks <= 3.2 / math.sqrt(n):
            raise Violation("distribution of %d draws is off by %r (%s)" % (n, ks, v.nm))
    return {"nontrivial": n >= 100, "labels": ["uniform" if c["how"] == 0 else "exponential", v.nm]}


VN2 = st.sampled_from(["nmd", "nmf"])
NN = st.one_of(st.integers(0, 12), st.integers(2, 60), st.integers(2, 3000))
rg = st.fixed_dictionaries({"v": VN2, "kind": st.integers(0, 2), "a": st.one_of(st.floats(-100, 100), st.just(0.0), LOG(-6, 4)), "w": LOG(-2, 5), "n": NN, "sw": st.integers(0, 31)})
se = st.fixed_dictionaries({"v": VN2, "x": st.lists(st.one_of(st.floats(-50, 50), st.integers(-5, 5)), max_size=40), "q": st.lists(st.floats(-10, 1).filter(lambda x: x < -1 or x >= 0), min_size=1, max_size=6)})
U01 = st.one_of(st.floats(0, 0.99999994), st.just(0.0), LOG(-16, -1), LOG(-7, -1).map(lambda x: 1 - x), st.just(1 - 2.0 ** -53), st.just(1 - 2.0 ** -24))
pn = st.one_of(st.fixed_dictionaries({"v": st.just("nmd"), "lam": st.one_of(LOG(-8, 2.84), st.floats(0, 700)), "u": U01}),
               st.fixed_dictionaries({"v": st.just("nmf"), "lam": st.one_of(LOG(-8, 1.9), st.floats(0, 80)), "u": U01}))
rt = st.fixed_dictionaries({"v": VN2, "x0": LOG(-8, 8), "k": st.sampled_from([0.5, 1.0, 1.5, 2.0, 3.0]), "fam": st.sampled_from(["pow", "log", "lin", "exp"]), "fall": st.booleans(),
                            "g": st.one_of(LOG(-1, 1), LOG(-3.3, 3.3), st.just(1.0), st.just(2.0))})
qd = st.fixed_dictionaries({"v": VN2, "kind": st.integers(0, 2), "a": st.floats(-5, 5), "w": LOG(-2, 1), "co": st.lists(st.floats(0.1, 5), min_size=1, max_size=5), "p": st.floats(-0.7, 3),
                            "s": LOG(-1, 1), "n": st.integers(0, 4)})
bs = st.fixed_dictionaries({"v": VN2, "nu": st.sampled_from([1 / 3, 2 / 3, 5 / 3, 0.0, 1.0, 2.0, 0.25, 0.5, 4 / 3, 1.5, 7 / 3, 2.75]), "x": st.one_of(LOG(-3, 2), st.floats(1, 760))})
V3 = st.lists(st.one_of(st.floats(-1e3, 1e3), LOG(-12, 12), st.just(0.0)), min_size=3, max_size=3)
vc = st.fixed_dictionaries({"v": VN2, "a": V3, "b": V3, "s": st.one_of(st.floats(-1e3, 1e3), LOG(-10, 10))})
rn = st.fixed_dictionaries({"v": VN2, "seed": st.integers(0, 2 ** 63), "how": st.integers(0, 1), "n": st.sampled_from([1, 5, 200, 1000]), "a": st.floats(-10, 10), "w": LOG(-2, 2)})
PARTS = [Part("ranges", rg, run_range, quick=3000, thorough=80000, shards=2), Part("search", se, run_search, quick=1500, thorough=50000), Part("poisson", pn, run_poisson, quick=2500, thorough=80000),
         Part("root", rt, run_root, quick=2000, thorough=40000), Part("quadrature", qd, run_quad, quick=800, thorough=15000), Part("bessel", bs, run_bessel, quick=2000, thorough=50000),
         Part("vectors", vc, run_vec, quick=2000, thorough=50000), Part("streams", rn, run_rng, quick=600, thorough=10000)]
