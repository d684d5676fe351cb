from checks.qed import *
from scipy.stats import poisson as PO
PID = "Q06"
RULE = ("A case is one field and cell evaluated in one unit system and precision (rate, single and multiple draw, engine and static "
        "forms): non-trivial when the field has an electric invariant. Distinct = distinct case parameters.")
ASSUMPTIONS = ASSUME + ["expected pair numbers per draw up to 600 in double and 60 in single precision (see the known finding on Q10)",
                        "the weight is compared with what the code documents in its own use: one over the cell volume"]


def prepare():
    prepare_qed(True)


def rate_ref(v, f, lam):
    """bounds of the rate in SI (1/m^3/s), from the field the code sees"""
    F = np.array(v.unfld(f, lam), LD)
    E, B = F[:3], F[3:]
    e2, b2, g = (E * E).sum(), (B * B).sum(), (E * B).sum()
    ff = (e2 - b2) / 2
    inner = np.sqrt(ff * ff + g * g)
    ep2 = inner + ff if ff >= 0 else (g * g / (inner - ff) if inner > 0 else LD(0))
    et2 = inner - ff if ff <= 0 else (g * g / (inner + ff) if inner > 0 else LD(0))
    S2 = float((e2 + b2) / 2)
    # products of two field components that are too small for the precision
    und = 0.0
    if v.flt:
        un = 1.2e-38 * (float(C_ ** 2) if not v.norm else 1.0) + 1.2e-38
        sc = 1 / (2 * ES * ES) if not v.norm else (2 * np.pi * HB / (ME * C_ * lam)) ** 2 / 2
        und = 4 * un * sc + 1.2e-38 * 4
        und = max(und, math.sqrt(4e-45))
    d = 24 * v.u * S2 + und
    co = QE ** 2 * ES ** 2 / (4 * np.pi ** 2 * HB ** 2 * C_)

    def rate(a, b):
        if a <= 0:
            return 0.0
        a, b = math.sqrt(a), math.sqrt(max(b, 0))
        if math.pi / a > 11000:
            return 0.0
        x = math.pi * b / a
        k = a * a / math.pi if x < 1e-9 else a * b / math.tanh(x)
        return co * k * math.exp(-min(math.pi / a, 740.0)) if math.pi / a < 740 else 0.0
    a, b = float(ep2), float(et2)
    lo, mid, hi = rate(a - d, b - d), rate(a, b), rate(a + d, b + d)
    x = math.pi / math.sqrt(a) if a > 0 else 0
    r = 30 * v.u * (1 + x)
    return lo * max(0.0, 1 - r), mid, hi * (1 + r), co


def run(c):
    v = VAR[c["v"]]
    lam = c["lam"] if v.norm else 1.0
    f = v.fld(mkfield(c["f"]), lam)
    if v.flt and np.max(np.abs(f)) > 1e18:
        raise Discard()
    L = v.B
    lamr = float(v.r(lam))
    lo, mid, hi, co = rate_ref(v, f, lamr)
    unit = (lamr / (2 * np.pi)) ** 4 / C_ if v.norm else 1.0
    us = np.array(c["u"], float)
    h = L.sw_new(lamr if v.norm else float(c["lam"]), us, len(us))
    rates = [L.sw_rate(h, f), L.sw_rate_static(f, lamr if v.norm else float(c["lam"]))]
    hd, h1 = L.sw_new_default(us, len(us)), L.sw_new(1.0, us, len(us))
    if L.sw_lambda(hd) != 1.0 or not np.allclose(L.sw_rate(hd, f), L.sw_rate(h1, f), rtol=1e4 * v.u, atol=0, equal_nan=True):
        raise Violation("engine built without a normalisation length has %r (%s)" % (L.sw_lambda(hd), v.nm))
    L.sw_del(hd)
    L.sw_del(h1)
    h2 = L.sw_copy(h)
    rates.append(L.sw_rate(h2, f))
    h3 = L.sw_new(0.123, us, len(us))
    L.sw_set_lambda(h3, lamr)
    rates.append(L.sw_rate(h3, f))
    # flush: the smallest normal number times the coefficient
    floor = (co * unit * (4 * v.tiny + (math.exp(-87) * 1e-30 if v.flt else 0)) + 2 * v.tiny)
    for r in rates:
        if not (math.isfinite(r) and lo * unit * (1 - 1e-12) - floor <= r <= hi * unit * (1 + 1e-12) + floor):
            if hi * unit > 0.9 * v.max:
                raise Discard()
            raise Violation("rate %r (%s), Schwinger formula %r in [%r, %r]" % (r, v.nm, mid * unit, lo * unit, hi * unit))
    if not np.allclose(rates, rates[0], rtol=1e4 * v.u, atol=2 * v.tiny):
        raise Violation("engine, static form, copy and reset normalisation length disagree: %r" % rates)
    rate = rates[0]
    if L.sw_lambda(h) != (lamr if v.norm else 1.0) or L.sw_lambda(h2) != L.sw_lambda(h) or L.sw_lambda(h3) != L.sw_lambda(h):
        raise Violation("normalisation length not kept")
    # parity and rotation
    for q in (-f, A(f[1], f[2], f[0], f[4], f[5], f[3]), f * A(-1, -1, -1, 1, 1, 1), A(f[1], -f[0], f[2], f[4], -f[3], f[5])):
        r = L.sw_rate(h, q)
        if not (lo * unit * (1 - 1e-12) - floor <= r <= hi * unit * (1 + 1e-12) + floor):
            raise Violation("rate changes from %r to %r under a rotation or reflection (%s)" % (rate, r, v.nm))
    # cell and step so that the expected number takes the wanted value
    cap = 60.0 if v.flt else 600.0
    if rate > 1e-30 and rate < (1e36 if v.flt else 1e290):
        V = 1.0
        d = [c["dx"][0], c["dx"][1], c["dx"][2]]
        d = [x * (2 * np.pi / lamr if v.norm else 1.0) for x in d]
        vol = d[0] * d[1] * d[2]
        dt = c["mean"] / rate / vol
    else:
        d, dt = [1.0, 2.0, 0.5], c["mean"]
    dd = v.r(A(d[0], d[1], d[2], dt))
    if bad(dd) or np.any(dd <= (1e-36 if v.flt else 1e-290)):
        raise Discard()
    vol = dd[0] * dd[1] * dd[2]
    if v.flt and not 1e-36 < vol < 1e36 or v.flt and not (rate == 0 or 1e-36 < rate * vol < 1e36):
        raise Discard()
    mean = rate * vol * dd[3]
    if mean > cap:
        raise Discard()
    labels = [c["v"], c["f"]["kind"], "counts" if mean > 1e-3 else "rare"]
    ur = [float(v.r(x)) for x in us]
    hs = L.sw_new(lamr, us, len(us))
    hm = L.sw_move(L.sw_new(lamr, us, len(us)))
    o = np.zeros(2)
    for k, u in enumerate(ur):
        for form in (0, 1):
            o[:] = -9
            if form:
                L.sw_single_static(f, dd, lamr, u, o)
            else:
                L.sw_single(hs, f, dd, o)
            if abs(u - mean) > 8 * v.u * mean + 4 * v.tiny and bool(o[0]) != (u < mean):
                raise Violation("single draw: event=%d for probability %r and random number %r (%s)" % (o[0], mean, u, v.nm))
            if not abs(o[1] * vol - 1) < 8 * v.u:
                raise Violation("weight of a single pair %r, cell volume %r" % (o[1], vol))
            o[:] = -9
            if form:
                L.sw_multi_static(f, dd, lamr, u, o)
            else:
                L.sw_multi(hm, f, dd, o)
            n = o[0]
            m = mean
            tolu = (60 + 8 * m + 4 * math.sqrt(m) * 4) * v.u
            c1 = float(PO.cdf(n - 1, m)) if n > 0 else 0.0
            c2 = float(PO.cdf(n, m))
            if n < 0 or not (c1 - tolu <= u and (u <= c2 + tolu)):
                raise Violation("multiple draw: %d pairs for mean %r and random number %r (cumulative probability %r .. %r; %s)" % (n, m, u, c1, c2, v.nm))
            if not abs(o[1] * vol - 1) < 8 * v.u:
                raise Violation("weight of multiple pairs %r, cell volume %r" % (o[1], vol))
    # positions: three independent uniform numbers in the order drawn
    q = np.zeros(3)
    hp = L.sw_new(lamr, us, len(us))
    for k in range(3):
        L.sw_pos(hp, q)
        want = [ur[(3 * k + i) % len(ur)] for i in range(3)]
        if list(q) != want:
            raise Violation("position draws %r, random numbers %r" % (list(q), want))
    for x in (h, h2, h3, hs, hm, hp):
        L.sw_del(x)
    return {"nontrivial": mid > 0, "labels": labels}


U = st.one_of(st.floats(0, 0.999), st.sampled_from([0.0, 0.5, 0.999999]), LOG(-12, -1))
case = st.fixed_dictionaries({"v": VN, "lam": LAM, "f": fields(-3, 1), "u": st.lists(U, min_size=1, max_size=4), "dx": st.tuples(LOG(-9, -5), LOG(-9, -5), LOG(-9, -5)),
                              "mean": st.one_of(LOG(-3, 2.7), st.floats(0, 3), LOG(-12, 0))})
PARTS = [Part("rates_and_draws", case, run, quick=8000, thorough=250000, shards=6)]
