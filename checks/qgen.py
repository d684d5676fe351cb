"""Generated particles of the two engines (Q03: pairs, Q05: photons)."""
from checks.qrates import *


def make_gen(pre):
    E = Eng(pre)
    K = 8 if E.bw else 4

    def rows(v, ca, tab, chi, lo, hi):
        """interpolated rows (linear in the logarithms) at a quantum parameter, clamped to the table"""
        x = math.log(min(max(chi, lo), hi))
        x = min(max(x, ca[0]), ca[-1])
        i = min(max(int(np.searchsorted(ca, x, side="right")) - 1, 0), len(ca) - 2)
        w = (x - ca[i]) / (ca[i + 1] - ca[i])
        if w == 0:
            y = tab[i]
        elif w == 1:
            y = tab[i + 1]
        else:
            y = (1 - w) * tab[i] + w * tab[i + 1]
        return y

    def row_range(v, ca, tab, chi, dchi, lo, hi):
        """bounds of the rows for a quantum parameter known to +- dchi, with rounding"""
        ys = []
        for x in (chi - dchi, chi, chi + dchi):
            if x > 0:
                x = math.log(min(max(x, lo), hi))
                for y in (x, x - 8 * v.u * (1 + abs(x)), x + 8 * v.u * (1 + abs(x))):
                    ys.append(rows(v, ca, tab, math.exp(y), 0.0, 1e300))
        for k in list(np.exp(ca)) + [lo, hi]:
            if chi - dchi < k < chi + dchi:
                ys.append(rows(v, ca, tab, k, lo, hi))
        ymin, ymax = np.min(ys, 0), np.max(ys, 0)
        with np.errstate(invalid="ignore"):
            fin = np.where(np.isfinite(tab), np.abs(tab), 0).max(0)
            sl = np.where(np.isfinite(tab), tab, 0)
            g = np.abs(np.diff(sl, axis=0)).max(0) / np.min(np.diff(ca))
        e = v.u * (12 + 12 * fin + 12 * g * (1 + np.max(np.abs(ca))))
        return np.exp(ymin - e), np.exp(ymax + e)

    def inv(row, fr, prob):
        """first entry above prob, linear in between"""
        j = int(np.searchsorted(row, prob, side="right"))
        if j >= len(row):
            return fr[-1]
        if j == 0:
            return fr[0]
        return fr[j - 1] + (prob - row[j - 1]) * (fr[j] - fr[j - 1]) / (row[j] - row[j - 1])

    def check_generated(v, p, f, lam, w, us, ctrl, ca, cb, tab, out, pend, what):
        """out: K values per sample"""
        n = len(us)
        q = v.unmom(p)
        g1 = math.sqrt(float((q * q).sum()))
        nhat = q / g1
        d = 0 if not v.flt or v.norm else 4 * v.tiny / float((p * p).sum())
        chi, dchi = chi_ref(v, not E.bw, p, f, lam)
        lo, hi = float(v.r(ctrl[4])), float(v.r(ctrl[5]))
        rlo, rhi = row_range(v, ca, tab, chi, dchi, lo, hi)
        gam = g1 if E.bw else math.sqrt(1 + g1 * g1)
        eg = 20 * v.u + 3 * d
        if bad(out):
            raise Violation("%s: not finite: %r" % (what, out[:8]))
        tot = np.zeros(3)
        for s in range(n):
            o = out[K * s:K * s + K]
            parts = [(o[0:3], o[3]), (o[4:7], o[7])] if E.bw else [(o[0:3], o[3])]
            gs = []
            for pp, ww in parts:
                if not abs(ww - w / n) <= 4 * v.u * w / n:
                    raise Violation("%s: weight %r, parent %r over %d samples" % (what, ww, w, n))
                r = v.unmom(pp)
                a = float(np.dot(r, nhat))
                if not np.max(np.abs(r - a * nhat)) <= (12 * v.u + 3 * d) * abs(a) + 40 * v.tiny / (1 if v.norm else ME * C_) or a < 0:
                    raise Violation("%s: momentum %r not along the parent %r" % (what, list(r), list(q)))
                gs.append(a)
                tot += np.array(pp) / n
            u = us[s]
            if E.bw:
                ge, gp = math.sqrt(1 + gs[0] ** 2), math.sqrt(1 + gs[1] ** 2)
                if not abs(ge + gp - gam) <= eg * gam:
                    raise Violation("%s: electron %r plus positron %r, photon energy %r" % (what, ge, gp, gam))
                pr = u - 0.5 if u >= 0.5 else u
                flo, fhi = inv(rhi, cb, pr), inv(rlo, cb, pr)
                if u >= 0.5:
                    flo, fhi = 1 - fhi, 1 - flo
                slack = eg * gam + 8 * v.u * (gam - 2)
                x = ge - 1
                if not flo * (gam - 2) - slack <= x <= fhi * (gam - 2) + slack:
                    raise Violation("%s: electron fraction %r for random number %r, cumulative distribution gives %r .. %r" %
                                    (what, x / max(gam - 2, 1e-300), u, flo, fhi))
            else:
                m = len(cb) - 1
                j = min(int(math.floor(m * u)), m - 1)
                t = (u - cb[j]) / (cb[j + 1] - cb[j])
                flo, fhi = rlo[j] + t * (rlo[j + 1] - rlo[j]), rhi[j] + t * (rhi[j + 1] - rhi[j])
                sl = 8 * v.u * (m + 2) * (rhi[j + 1] + rhi[j])
                kin = g1 * g1 / (gam + 1)
                ek = (8 * v.u + 3 * d) * gam + 8 * v.u * kin
                fr = gs[0]
                if not (flo - sl) * kin - ek * fhi <= fr <= (fhi + sl) * kin + ek * (fhi + sl):
                    raise Violation("%s: photon energy fraction %r for random number %r, table gives %r .. %r" % (what, fr / kin, u, flo, fhi))
                if fr > kin * (1 + sl) + ek:
                    raise Violation("%s: photon energy %r above the kinetic energy %r" % (what, fr, kin))
        if not E.bw:
            want = np.array(p) - tot
            if not np.max(np.abs(np.array(pend) - want)) <= 8 * v.u * (n + 2) * np.linalg.norm(p):
                raise Violation("%s: residual momentum %r, initial minus photons %r" % (what, list(pend), list(want)))

    def gen(v, h, stat, p, f, w, us):
        out = np.full(K * len(us) + 2, np.nan)
        if E.bw:
            v.E.bw_gen(h, stat, p, f, w, len(us), us, out)
            if out[K * len(us)] != len(us) or out[K * len(us) + 1] != len(us):
                raise Violation("number of generated pairs %r, sampling %d, or write outside the outputs" % (out[-2:], len(us)))
            return out[:-2], p
        pp = np.array(p)
        v.E.qs_gen(h, stat, pp, f, w, len(us), us, out)
        if out[K * len(us)] != len(us):
            raise Violation("number of generated photons %r, sampling %d, or write outside the outputs" % (out[-2], len(us)))
        return out[:-2], pp

    def particle(c, v):
        lam = float(v.r(c["lam"])) if v.norm else 1.0
        p = v.mom(c["p"])
        f = v.fld(mkfield(c["f"], c["p"]), lam)
        if v.flt and np.max(np.abs(f)) > 1e18:
            raise Discard()
        g = float(np.linalg.norm(v.unmom(p)))
        d = 0 if not v.flt or v.norm else 4 * v.tiny / float((p * p).sum())
        chi, dchi = chi_ref(v, not E.bw, p, f, lam)
        if chi <= dchi or chi < 1e-12 or d > 0.02:
            raise Discard()
        if E.bw and g * (1 - 16 * v.u - 2 * d) < 2:
            raise Discard()
        if chi > 1e6 or dchi > 0.3 * chi:
            raise Discard()
        us = v.r(np.array(c["u"]))
        us = us[us < 1]
        if not len(us):
            raise Discard()
        return lam, p, f, us, chi

    def mktable(c, v):
        rng = np.random.default_rng(c["seed"])
        na, nb = c["na"], c["nb"]
        lo, hi = c["lo"], c["lo"] * c["ratio"]
        lo, hi = float(v.r(lo)), float(v.r(hi))
        ca = v.r(np.linspace(math.log(lo), math.log(hi), na))
        if E.bw:
            cb = v.r(np.linspace(0, 0.5, nb))
            t = np.cumsum(rng.uniform(0.01, 1, (na, nb)) ** c["pw"], 1)
            t[:, 0] = 0
            t = t / t[:, -1:] * 0.5
            # null probabilities at the start of some rows
            for i in range(na):
                if c["null"] and nb > 2:
                    t[i, :rng.integers(1, nb - 1)] = 0
            t[:, -1] = 0.5
        else:
            cb = v.r(np.linspace(0, 1, nb))
            t = np.sort(10.0 ** rng.uniform(-6, 0, (na, nb)), 1)
            if c["null"]:
                t[:, -1] = 1.0
        with np.errstate(divide="ignore"):
            tab = v.r(np.log(t))
        return A(1e-3, .1, 10, 4, lo, hi, na, nb), ca, cb, tab

    # generated particles for arbitrary tables
    def run_gen(c):
        v = VAR[c["v"]]
        lam, p, f, us, chi = particle(c, v)
        ctrl, ca, cb, tab = mktable(c, v)
        if E.bw and len(cb) == 2 and c["null"]:
            raise Discard()
        h = E(v, "raw", ctrl, lam, us, len(us), 2, A(0, 1), A(0, 1), len(ca), ca, len(cb), cb, np.ascontiguousarray(tab).ravel())
        w = float(v.r(c["w"]))
        h2 = E(v, "dup", h, 0)
        outs = []
        for hh, stat in ((h, 1), (h, 0), (h2, 0)):
            out, pend = gen(v, hh, stat, p, f, w, us)
            check_generated(v, p, f, lam, w, us, ctrl, ca, cb, tab, out, pend, "%s %s" % (v.nm, "static" if stat else "engine"))
            outs.append((tuple(out), tuple(pend)))
        if len({len(q[0]) for q in outs}) != 1:  # each is compared with the reference
            raise Violation("static form, engine and copy disagree (%s)" % v.nm)
        if not E(v, "ok", h):
            raise Violation("the generation wrote outside its tables")
        E(v, "del", h2)
        E(v, "del", h)
        pos = "below table" if chi < ctrl[4] else "above table" if chi > ctrl[5] else "inside"
        return {"nontrivial": pos == "inside", "labels": [c["v"], pos]}

    # the distribution computed without tables
    def run_cum(c):
        v = VAR[c["v"]]
        chi = float(v.r(c["chi"]))
        fr = c["fr"] * (0.5 if E.bw else 1.0)
        x = float(v.r(fr * chi))
        fr = x / chi
        if fr < 1e-7:
            raise Discard()
        h = E(v, "new", None, 0, 1.0, A(.5), 1)
        if E.bw:
            got = E(v, "cum", h, chi, x)
            want = tt_num(chi, fr) / TT(chi)
            tol = (1e-4 * want + 1e-6 if chi < 150 else 5e-4 * want + 1e-7) + (2e-2 * want + 3e-4 if v.flt else 0)
        else:
            got = E(v, "cum", h, x, chi)
            want = kk_small(chi, fr) / KK(chi) if 0 < fr < 1 else float(fr >= 1)
            tol = 1e-2 * want + 1e-6 if v.flt else 1e-8
        if not (math.isfinite(got) and abs(got - want) <= tol and got <= 1 + tol):
            raise Violation("cumulative probability %r up to the fraction %r at chi=%r, theory %r (%s)" % (got, fr, chi, want, v.nm))
        E(v, "del", h)
        return {"nontrivial": 1e-6 < want < 1 - 1e-6, "labels": [c["v"]]}

    # tables computed by the engine, and particles drawn from them
    def run_table(c):
        v = VAR[c["v"]]
        lam, p, f, us, chi = particle(c, v)
        lo = float(v.r(c["lo"]))
        hi = float(v.r(min(c["lo"] * c["ratio"], 400.0)))
        if not hi > 2 * lo or (E.bw and lo < (0.08 if v.flt else 0.02)):
            raise Discard()
        na, nb = c["na"], c["nb"]
        ctrl = A(1e-3, .1, 10, 4, lo, hi, na, nb)
        h = E(v, "new", ctrl, 0, lam, us, len(us))
        E(v, "tab2", h)
        o = np.zeros(15)
        E(v, "innards", h, o, None)
        if (o[11], o[12], o[13]) != (na, nb, na * nb):
            raise Violation("table has sizes %r, requested %r" % (list(o[11:14]), (na, nb)))
        arr = [np.zeros(max(1, int(k))) for k in (o[9], o[10], o[11], o[12], o[13])]
        E(v, "innards", h, o, np.array([a.ctypes.data for a in arr], dtype=np.uint64))
        ca, cb, tab = arr[2], arr[3], arr[4].reshape(na, nb)
        wa = np.linspace(math.log(lo), math.log(hi), na)
        if not np.max(np.abs(ca - wa)) <= 40 * na * v.u * (1 + np.max(np.abs(wa))) or \
                not np.max(np.abs(cb - np.linspace(0, .5 if E.bw else 1, nb))) <= 8 * v.u:
            raise Violation("table coordinates %r %r" % (ca, cb))
        for i in range(na):
            x = math.exp(ca[i])
            tot = TT(x) if E.bw else KK(x)
            for j in range(nb):
                if E.bw:
                    want = 0.0 if j == 0 else 0.5 if j == nb - 1 else tt_num(x, cb[j]) / tot
                    got = math.exp(tab[i, j]) if tab[i, j] > -700 else 0.0
                    tol = (1e-4 * want + 1e-6 if x < 150 else 5e-4 * want + 1e-7) + (2e-2 * want + 3e-4 if v.flt else 0)
                else:
                    want = cb[1] / 10 if j == 0 else 1 - (1 - cb[nb - 2]) / 10 if j == nb - 1 else cb[j]
                    if not tab[i, j] <= 1e-6:
                        raise Violation("photon fraction exp(%r) in the table" % tab[i, j])
                    got = kk_small(x, math.exp(min(tab[i, j], 0.0))) / tot
                    tol = 8e-3 if v.flt else 1e-6
                if not abs(got - want) <= tol:
                    raise Violation("table entry %d of row chi=%r: cumulative probability %r, theory %r (%s)" % (j, x, got, want, v.nm))
        w = float(v.r(c["w"]))
        # an underflowed or rounded row of the table stays monotone enough for the search in these ranges
        if np.all(np.diff(tab, axis=1)[np.isfinite(np.diff(tab, axis=1))] > 0):
            out, pend = gen(v, h, 0, p, f, w, us)
            check_generated(v, p, f, lam, w, us, ctrl, ca, cb, tab, out, pend, "%s engine table" % v.nm)
        E(v, "del", h)
        return {"nontrivial": True, "labels": [c["v"]]}

    U = st.one_of(st.floats(0, 0.9999999), st.floats(0, 0.5), st.sampled_from([0.0, 0.5, 0.49999997, 0.49999999999999994, 0.99999994, 0.9999999999999999, 0.25, 0.75]),
                  LOG(-10, -1), LOG(-10, -1).map(lambda x: 1 - x), LOG(-10, -1).map(lambda x: 0.5 + x * 0.4), st.integers(0, 40).map(lambda k: k / 40 * 0.999999))
    fl = st.fixed_dictionaries({"kind": st.sampled_from(["random", "random", "random", "perp", "E", "B"]), "E": LOG(-5, 0), "B": LOG(-5, 0), "e": unit3, "b": unit3})
    P = st.one_of(mom3(0.31, 5), mom3(0.302, 1), mom3(1.5, 4)) if E.bw else st.one_of(mom3(-1, 5), mom3(1.5, 4), mom3(1, 3))
    common = {"v": VN, "seed": SEED, "lam": LAM, "p": P, "f": fl, "u": st.lists(U, min_size=1, max_size=6), "w": LOG(-3, 12)}
    gg = st.fixed_dictionaries(dict(common, na=st.integers(2, 7), nb=st.integers(2, 24), lo=LOG(-3, 0.5), ratio=LOG(0.3, 4), pw=st.sampled_from([0.5, 1, 4]), null=st.booleans()))
    tb = st.fixed_dictionaries(dict(common, na=st.integers(2, 4), nb=st.integers(3 if E.bw else 3, 7), lo=LOG(-1.6, 0.5) if E.bw else LOG(-3, 0.5), ratio=LOG(0.4, 3)))
    cu = st.fixed_dictionaries({"v": VN, "chi": LOG(-1.2, 2.6) if E.bw else LOG(-3, 2.5), "fr": st.one_of(st.floats(0, 1), LOG(-5, 0), st.just(1.0))})
    return [Part("generate", gg, run_gen, quick=6000, thorough=200000, shards=4), Part("distribution", cu, run_cum, quick=400, thorough=20000, shards=2),
            Part("engine_table", tb, run_table, quick=36, thorough=1500, shards=3)]
