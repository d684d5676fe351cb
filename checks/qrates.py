"""Rates and optical depths of the two engines (Q02: Breit-Wheeler, Q04: quantum synchrotron)."""
from checks.qed import *
A0, B0 = 0.16, 4.0 / 3.0


class Eng:
    def __init__(self, pre):
        self.pre = pre
        self.bw = pre == "bw"

    def __call__(self, v, fn, *a):
        return getattr(v.E, self.pre + "_" + fn)(*a)

    def func(self, chi):
        return TT(chi) if self.bw else KK(chi)

    def rate(self, v, chi, en, fval, lam):
        """rate in the units of the build, from the spectrum function, energy in m c^2"""
        return v.rate(bw_rate(chi, en, fval) if self.bw else qs_rate(en, fval), lam)

    def tol(self, v, chi):
        if self.bw:
            t = 2e-6 if chi < 150 else 4e-4
            return t + (8e-3 + 2e-5 / chi if v.flt else 0)
        return 5e-3 if v.flt else 1e-8


def interp_nodes(xs, ys, x):
    i = min(max(int(np.searchsorted(xs, x, side="right")) - 1, 0), len(xs) - 2)
    w = (x - xs[i]) / (xs[i + 1] - xs[i])
    return (1 - w) * ys[i] + w * ys[i + 1], i


def make(pre):
    E = Eng(pre)
    DEF = ("chi_min", "tmin", "tmax", "n1")
    cache = {}

    def table_ref(v, tmin, tmax, n):
        return np.array([float(x) for x in np.exp(np.linspace(math.log(tmin), math.log(tmax), n))])

    def model_rate(v, chi, en, lam, ctrl, xs, ys):
        """what the documented evaluation gives for a table of logarithms (xs, ys); returns rate and relative slack"""
        lo, hi = ctrl[1], ctrl[2]
        if chi == 0 or en == 0:
            return 0.0, 0.0
        du = 8 * v.u
        if E.bw and chi <= lo:
            e = 2 * B0 / chi
            return E.rate(v, chi, en, math.pi * A0 / (2 * B0) * chi * chi * math.exp(-e) if e < 740 else 0.0, lam), du * (4 + e)
        if E.bw and chi >= hi:
            return E.rate(v, chi, en, A0 * chi * (Gam(1 / 3) / 2) ** 2 * (2 * chi / B0) ** (2 / 3), lam), du * 8
        c = min(max(chi, lo), hi)
        y, i = interp_nodes(xs, ys, math.log(c))
        m = abs(ys[i]) + abs(ys[i + 1])
        sl = abs(ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i])
        xm = max(abs(xs[0]), abs(xs[-1]), abs(math.log(c)))
        return E.rate(v, c if E.bw else chi, en, math.exp(y), lam), du * (4 + 2 * m + 6 * sl * (xm + 1))

    # -------- the rate against the theory
    def run_theory(c):
        v, chi, en, lam = VAR[c["v"]], c["chi"], c["en"], c["lam"]
        chi = float(v.r(chi))
        lam = float(v.r(lam)) if v.norm else 1.0
        if E.bw and chi < (0.05 if v.flt else 0.01) or not E.bw and chi < 1e-4:
            raise Discard()
        h = E(v, "new", None, 0, lam, A(.5), 1)
        ev = v.energy(en)
        got = E(v, "dndt", h, ev, chi)
        want = E.rate(v, chi, en, E.func(chi), lam)
        tol = E.tol(v, chi) + 8 * v.u
        if want > 0.3 * v.max or v.flt and 0 < want < 1e-33:
            raise Discard()
        if not (math.isfinite(got) and abs(got - want) <= tol * want):
            raise Violation("rate %r, theory %r (relative difference %.3g; %s)" % (got, want, got / want - 1 if want else 0, v.nm))
        # inversely proportional to the energy; zero without energy or field
        g2 = E(v, "dndt", h, 2 * ev, chi)
        if not abs(2 * g2 - got) <= 8 * v.u * got:
            raise Violation("rate at twice the energy %r, at the energy %r (%s)" % (g2, got, v.nm))
        for a, b in ((0.0, chi), (ev, 0.0), (0.0, 0.0)):
            if E(v, "dndt", h, a, b) != 0 or E(v, "interp", h, a, b) != 0:
                raise Violation("rate without energy or quantum parameter is not zero (%s)" % v.nm)
        # a normalisation length set later has the same effect
        h2 = E(v, "new", None, 0, 3.0, A(.5), 1)
        E(v, "set_lambda", h2, lam)
        if E(v, "dndt", h2, ev, chi) != got or E(v, "lambda", h2) != (lam if v.norm else 1.0):
            raise Violation("rate after setting the normalisation length differs (%s)" % v.nm)
        E(v, "del", h)
        E(v, "del", h2)
        # without a normalisation length it is one
        h1, h2 = E(v, "new", None, 2, 7.0, A(.5), 1), E(v, "new", None, 0, 1.0, A(.5), 1)
        if E(v, "lambda", h1) != 1.0 or E(v, "dndt", h1, ev, chi) != E(v, "dndt", h2, ev, chi):
            raise Violation("engine built without a normalisation length has %r (%s)" % (E(v, "lambda", h1), v.nm))
        E(v, "del", h1)
        E(v, "del", h2)
        return {"nontrivial": True, "labels": [c["v"]]}

    # -------- the table built by the engine
    def run_table(c):
        v = VAR[c["v"]]
        lam = float(v.r(c["lam"])) if v.norm else 1.0
        tmin = float(v.r(c["tmin"]))
        tmax = float(v.r(min(c["tmin"] * c["ratio"], 500.0 if E.bw else 1000.0)))
        if not tmax > 1.5 * tmin or E.bw and tmin < (0.05 if v.flt else 0.012):
            raise Discard()
        n = c["n"]
        ctrl = A(1e-3, tmin, tmax, n, 0.01, 500, 4, 4)
        h = E(v, "new", ctrl, 0, lam, A(.5), 1)
        E(v, "tab1", h)
        o = np.zeros(15)
        E(v, "innards", h, o, None)
        if not (o[9] == o[10] == n):
            raise Violation("table has %d coordinates and %d data, %d requested" % (o[9], o[10], n))
        arr = [np.zeros(max(1, int(k))) for k in (o[9], o[10], o[11], o[12], o[13])]
        E(v, "innards", h, o, np.array([a.ctypes.data for a in arr], dtype=np.uint64))
        xs, ys = arr[0], arr[1]
        if not np.allclose(o[:4], v.r(ctrl[:4]), rtol=0) or o[8] != (lam if v.norm else 1.0):
            raise Violation("exported parameters differ from the given ones")
        wx = np.linspace(math.log(tmin), math.log(tmax), n)
        if not np.max(np.abs(xs - wx)) <= 40 * n * v.u * (1 + np.max(np.abs(wx))):
            raise Violation("table coordinates are not logarithmically spaced between the limits: %r" % (xs - wx))
        for x, y in zip(xs, ys):
            w = math.log(E.func(math.exp(x)))
            if not abs(y - w) <= E.tol(v, math.exp(x)) + 16 * v.u * (1 + abs(w)) + 4 * v.u * abs(x) * (3 + 3 / math.exp(x) if E.bw else 1):
                raise Violation("table value at %r is exp(%r), theory exp(%r) (%s)" % (math.exp(x), y, w, v.nm))
        for q in c["q"]:
            chi = float(v.r(math.exp(math.log(tmin) + q * math.log(tmax / tmin))))
            en = c["en"]
            ev = v.energy(en)
            got = E(v, "interp", h, ev, chi)
            want, sl = model_rate(v, chi, en, lam, ctrl, xs, ys)
            if want < 1e-34 or want > 0.3 * v.max:
                continue
            if not abs(got - want) <= (sl + 20 * v.u) * want:
                raise Violation("interpolated rate at chi=%r is %r, table or asymptotic form gives %r (%s, limits %r %r)" % (chi, got, want, v.nm, tmin, tmax))
        E(v, "del", h)
        return {"nontrivial": any(0 < q < 1 for q in c["q"]), "labels": [c["v"], "%d points" % n]}

    # -------- the default table against the theory
    def run_default(c):
        v = VAR[c["v"]]
        if v.nm not in cache:
            o = np.zeros(8)
            E(v, "defctrl", o)
            doc = A(1e-3, .1, 500, 50, .01, 500, 50, 50) if E.bw else A(1e-3, 1e-3, 200, 64, 1e-3, 200, 64, 256)
            if not np.array_equal(o, v.r(doc)):
                raise Violation("default parameters %r, documented %r (%s)" % (list(o), list(doc), v.nm))
            h = E(v, "new", None, 0, 1.0, A(.5), 1)
            E(v, "tab1", h)
            cache[v.nm] = h
        h = cache[v.nm]
        chi = float(v.r(c["chi"]))
        got = E(v, "interp", h, v.energy(c["en"]), chi)
        if E.bw:
            want = E.rate(v, chi, c["en"], TT(chi), 1.0)
            tol = 0.25 if chi <= 0.1 else 0.12 if chi < 1 else 0.05
        else:
            want = E.rate(v, chi, c["en"], KK(min(max(chi, 1e-3), 200.0)), 1.0)
            tol = 0.01
        if want > 0.3 * v.max or want < 1e-30:
            raise Discard()
        if not abs(got - want) <= tol * want:
            raise Violation("default table gives rate %r at chi=%r, theory %r (%s)" % (got, chi, want, v.nm))
        return {"nontrivial": True, "labels": [c["v"]]}

    # -------- optical depth histories
    def run_evolve(c):
        v = VAR[c["v"]]
        rng = np.random.default_rng(c["seed"])
        lam = float(v.r(c["lam"])) if v.norm else 1.0
        n = c["n"]
        ctrl = np.array(v.r(A(c["cmin"], c["tmin"], c["tmin"] * c["ratio"], n, 0.01, 500, 3, 3)))
        xs = np.array(v.r(np.linspace(math.log(ctrl[1]), math.log(ctrl[2]), n)))
        xs[0], xs[-1] = v.r(math.log(ctrl[1])), v.r(math.log(ctrl[2]))
        ys = np.array(v.r(rng.uniform(-3, 3, n)))  # any table: the evolution must follow it
        z = A(0, 1, 2)
        us = A(.5)
        h = E(v, "raw", ctrl, lam, us, 1, n, xs, ys, 3, z, 3, z, np.zeros(9))
        hs = [h, E(v, "dup", h, 0), E(v, "dup", h, 2)]
        opt = float(v.r(c["opt"]))
        ev, noop = 0, 0
        labels = set()
        for s in c["steps"]:
            p = v.mom(s["p"])
            f = v.fld(mkfield(s["f"], s["p"]), lam)
            if v.flt and np.max(np.abs(f)) > 1e18:
                raise Discard()
            chi, dchi = chi_ref(v, not E.bw, p, f, lam)
            q = v.unmom(p)
            g = math.sqrt(float((q * q).sum()))
            d = 0 if not v.flt or v.norm or not g else 4 * v.tiny / float((p * p).sum())
            en = g if E.bw else math.sqrt(1 + g * g)
            thr = float(v.r(ctrl[0]))
            under = chi + dchi <= thr or (E.bw and en * (1 + 16 * v.u + d) < 2)
            over = chi - dchi > thr and (not E.bw or en * (1 - 16 * v.u - d) > 2)
            lo_r = hi_r = 0.0
            if over:
                # the model rate at both ends of the uncertainty of chi
                rs = []
                for x in (chi - dchi, chi, chi + dchi):
                    r, sl = model_rate(v, max(x, 1e-300), en, lam, ctrl, xs, ys)
                    rs += [r * (1 - sl - 20 * v.u - 2 * d), r * (1 + sl + 20 * v.u + 2 * d)]
                # between the ends the interpolation may bend at table nodes and limits
                for k in [ctrl[1], ctrl[2]] + list(np.exp(xs)):
                    if chi - dchi <= k * (1 + 1e-6) and k * (1 - 1e-6) <= chi + dchi:
                        for kk in (k * (1 - 2e-6), k * (1 + 2e-6)):
                            r, sl = model_rate(v, kk, en, lam, ctrl, xs, ys)
                            rs += [r * (1 - sl - 20 * v.u - 2 * d), r * (1 + sl + 20 * v.u + 2 * d)]
                lo_r, hi_r = max(0.0, min(rs)), max(rs)
                if E.bw and v.flt and chi < 0.045:
                    lo_r = 0.0  # the exponential leaves the range of the precision
                if hi_r > 0.01 * v.max or v.flt and hi_r < 1e-28:
                    continue
            dt = s["frac"] * max(abs(opt), 0.1) / hi_r if hi_r > 0 else s["frac"]
            dt = float(v.r(dt))
            if dt > 1e-3 * v.max or dt < 1e-33:
                continue
            o = A(opt, 9, 9)
            outs = []
            for k, hh in enumerate(hs):
                o = A(opt, 9, 9)
                E(v, "evolve", hh, p, f, dt, o)
                outs.append(tuple(o))
            o = A(opt, 9, 9)
            ok = E(v, "evolve_static", h, p, f, dt, o)
            outs.append(tuple(o))
            if not ok:
                raise Violation("the static evolution reports a missing table")
            ri = [E(v, "interp", hh, v.energy(en), float(v.r(chi))) for hh in hs] + [E(v, "interp_static", h, v.energy(en), float(v.r(chi)))]
            if not np.allclose(ri, [ri[0]] * 4, rtol=1e4 * v.u, atol=0, equal_nan=True):
                raise Violation("member, copy, rebuilt and static interpolated rates disagree: %r (%s)" % (ri, v.nm))
            near = lambda q: abs(q[0] - outs[0][0]) <= 1e4 * v.u * (abs(opt) + abs(outs[0][0])) and (
                q[1] == outs[0][1] and abs(q[2] - outs[0][2]) <= 1e4 * v.u * dt or abs(q[0]) <= 1e4 * v.u * abs(opt))
            if not all(near(q) for q in outs):
                raise Violation("member, copy, rebuilt and static evolution disagree: %r (%s)" % (outs, v.nm))
            new, event, edt = outs[0]
            if bad(new) or bad(edt):
                raise Violation("optical depth %r, event time %r (%s)" % (new, edt, v.nm))
            if under:
                if not (new == opt and not event and edt == 0):
                    raise Violation("optical depth evolved from %r to %r below the threshold (chi=%r, limit %r; %s)" % (opt, new, chi, thr, v.nm))
                noop += 1
                continue
            if not over:
                continue
            sl = 8 * v.u * (abs(opt) + hi_r * dt) + 4 * v.tiny
            if not opt - hi_r * dt - sl <= new <= opt - lo_r * dt + sl:
                raise Violation("optical depth decreased by %r, rate x step is %r .. %r (chi=%r, energy=%r; %s)" % (opt - new, lo_r * dt, hi_r * dt, chi, en, v.nm))
            if bool(event) != (new < 0):
                raise Violation("event %d for optical depth %r (%s)" % (event, new, v.nm))
            if event:
                ev += 1
                # fraction of the step at which the depth passed zero
                if opt > 0:
                    w = dt * opt / (opt - new)
                    # 4u*|new|/rate of absolute error
                    if not abs(edt - w) <= 32 * v.u * (dt + abs(opt) / max(lo_r, 1e-300)) + 1e-12 * w:
                        raise Violation("event at %r within a step of %r, depth passes zero at %r (%s)" % (edt, dt, w, v.nm))
                    if not -32 * v.u * dt <= edt <= dt * (1 + 32 * v.u):
                        raise Violation("event at %r outside the step %r (%s)" % (edt, dt, v.nm))
                opt = float(v.r(s["re"]))
            else:
                if edt != 0:
                    raise Violation("event time %r without event" % edt)
                opt = new
        if not E(v, "ok", h):
            raise Violation("the evolution wrote outside its tables")
        for x in reversed(hs):
            E(v, "del", x)
        return {"nontrivial": ev > 0, "labels": [c["v"]] + (["event"] if ev else []) + (["below threshold"] if noop else [])}

    # -------- without a table
    def run_bare(c):
        v = VAR[c["v"]]
        lam = float(v.r(c["lam"])) if v.norm else 1.0
        p = v.mom(c["p"])
        f = v.fld(mkfield(c["f"], c["p"]), lam)
        chi, dchi = chi_ref(v, not E.bw, p, f, lam)
        q = v.unmom(p)
        g = math.sqrt(float((q * q).sum()))
        en = g if E.bw else math.sqrt(1 + g * g)
        if not (0.1 if E.bw else 2e-3) < chi < 100 or dchi > 1e-3 * chi or g < 30 or v.flt and np.max(np.abs(f)) > 1e18:
            raise Discard()
        h = E(v, "new", None, 0, lam, A(.5), 1)
        w = E.rate(v, chi, en, E.func(chi), lam)
        dt = float(v.r(c["k"] / w))
        if dt < 1e-33 or w > 1e34:
            raise Discard()
        o = A(1, 9, 9)
        E(v, "evolve", h, p, f, dt, o)
        rel = E.tol(v, chi) + dchi / chi * 4 * (1 + (3 / chi if E.bw else 0)) + 30 * v.u
        if not abs(1 - o[0] - w * dt) <= rel * w * dt + 8 * v.u:
            raise Violation("optical depth without table decreased by %r, theory %r (chi=%r; %s)" % (1 - o[0], w * dt, chi, v.nm))
        if bool(o[1]) != (o[0] < 0):
            raise Violation("event %d for optical depth %r" % (o[1], o[0]))
        if o[1] and not abs(o[2] - dt / (1 - o[0])) <= 1e-4 * dt or not o[1] and o[2] != 0:
            raise Violation("event time %r, depth passes zero at %r" % (o[2], dt / (1 - o[0])))
        hs = E(v, "raw", A(1e-3, .1, 10, 4, .1, 10, 2, 2), lam, A(.5), 1, 0, A(0), A(0), 0, A(0), 0, A(0), A(0))
        o2 = A(1, 9, 9)
        if E(v, "evolve_static", hs, p, f, dt, o2) or o2[0] != 1 or o2[1] != 0:
            raise Violation("the static evolution without table reports success or changed the depth: %r" % o2)
        # threshold without table
        o2 = A(1, 9, 9)
        E(v, "evolve", h, p, f * 0, dt, o2)
        if o2[0] != 1 or o2[1] or o2[2]:
            raise Violation("optical depth evolved without a field")
        E(v, "del", h)
        E(v, "del", hs)
        return {"nontrivial": True, "labels": [c["v"], "event" if o[1] else "no event"]}

    # -------- initial optical depth
    def run_depth(c):
        v = VAR[c["v"]]
        us = v.r(np.array(c["u"]))
        us = us[us < 1]
        if not len(us):
            raise Discard()
        h = E(v, "new", None, 2, 1.0, us, len(us))
        for u in list(us) + list(us):
            g = E(v, "optd", h)
            if g != u:
                raise Violation("optical depth %r, the exponential draw of rate one is %r" % (g, u))
        prev = None
        for u in sorted(us):
            g = E(v, "optd_static", float(u))
            w = -math.log1p(-float(u))
            if not (g >= 0 and abs(g - w) <= 4 * v.u * (1 + w)):
                raise Violation("optical depth of the uniform number %r is %r, not %r (%s)" % (u, g, w, v.nm))
            if prev is not None and g < prev:
                raise Violation("optical depths are not monotone in the uniform number")
            prev = g
        E(v, "del", h)
        return {"nontrivial": any(u > 0 for u in us), "labels": [c["v"]]}

    CH = LOG(-1.3, 2.69) if E.bw else LOG(-3, 2.3)
    EN = LOG(0.31, 6)
    th = st.fixed_dictionaries({"v": VN, "lam": LAM, "chi": st.one_of(CH, LOG(-2 if E.bw else -4, 3)), "en": EN})
    tb = st.fixed_dictionaries({"v": VN, "lam": LAM, "tmin": LOG(-1.9, 1) if E.bw else LOG(-4, 1), "ratio": LOG(0.2, 4), "n": st.integers(2, 9), "en": EN,
                                "q": st.lists(st.one_of(st.floats(-0.2, 1.2), st.sampled_from([0.0, 1.0, 0.5])), min_size=3, max_size=12)})
    df = st.fixed_dictionaries({"v": VN, "chi": LOG(-1.2, 3.5) if E.bw else LOG(-3.5, 3), "en": EN})
    fl = st.fixed_dictionaries({"kind": st.sampled_from(["random", "random", "random", "perp", "E", "B", "zero", "parallel"]),
                                "E": LOG(-5, 0), "B": LOG(-5, 0), "e": unit3, "b": unit3})
    step = st.fixed_dictionaries({"p": st.one_of(mom3(1.5, 5), mom3(1.5, 5), mom3(-0.3, 1.5, True)), "f": fl, "frac": st.one_of(st.floats(0, 1.5), LOG(-4, 2)),
                                  "re": st.one_of(st.floats(0, 10), LOG(-5, 1))})
    evs = st.fixed_dictionaries({"v": VN, "seed": SEED, "lam": LAM, "n": st.integers(2, 12), "cmin": LOG(-3, 0), "tmin": LOG(-2, 0.5), "ratio": LOG(0.3, 4),
                                 "opt": st.one_of(st.floats(0, 10), LOG(-5, 1)), "steps": st.lists(step, min_size=1, max_size=8)})
    br = st.fixed_dictionaries({"v": VN, "lam": LAM, "p": mom3(2, 4), "f": fl, "k": LOG(-2, 1)})
    dp = st.fixed_dictionaries({"v": VN, "u": st.lists(st.one_of(st.floats(0, 0.9999999), LOG(-12, -1), LOG(-6, -1).map(lambda x: 1 - x)), min_size=1, max_size=12)})
    return [Part("theory", th, run_theory, quick=600, thorough=30000, shards=3), Part("table", tb, run_table, quick=80 if E.bw else 60, thorough=3000, shards=3),
            Part("default_table", df, run_default, quick=300, thorough=8000), Part("evolve", evs, run_evolve, quick=4000, thorough=120000, shards=4),
            Part("no_table", br, run_bare, quick=600, thorough=6000), Part("depth", dp, run_depth, quick=1000, thorough=20000)]
