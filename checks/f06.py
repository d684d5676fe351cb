from checks.common import *
PID = "F06"
RULE = ("A case is one call of one finite-difference push on random fields with generated array bounds and update ranges: non-trivial "
        "when the update range holds at least one point. Distinct = distinct case parameters.")
ASSUMPTIONS = ["arrays hold every point the stencil of an updated point reads", "kernels compiled only with -D DEV are out of scope"]
CTX = {}


def prepare():
    CTX["F"] = F(build.fortran_lib())


class G:
    """array with its own lower bounds; at(ranges, offset) is the view of the shifted range"""

    def __init__(self, rng, lo, hi, extra=(), cplx=False, s=1.0):
        self.lo, self.hi = tuple(lo), tuple(hi)
        sh = tuple(h - l + 1 for l, h in zip(lo, hi)) + tuple(extra)
        n = int(np.prod(sh))
        dt = complex if cplx else float
        self.n = n
        self.buf = np.full(n + 1024, -7.5e66, dtype=dt)
        self.v = self.buf[512:512 + n].reshape(sh, order="F")
        self.v[...] = rng.normal(size=sh) * s + (1j * rng.normal(size=sh) * s if cplx else 0)
        self.p = self.buf[512:]
        self.v0 = self.v.copy()

    def at(self, r, off=None, new=False):
        off = off or (0,) * len(r)
        a = self.v if new else self.v0
        return a[tuple(slice(l + o - b, h + o - b + 1) for (l, h), o, b in zip(r, off, self.lo))]

    def b(self):
        return [ints(self.lo), ints(self.hi)]

    def canary(self):
        return bool(np.all(self.buf[:512] == -7.5e66) and np.all(self.buf[512 + self.n:] == -7.5e66))


def e(dim, k, s=1):
    o = [0] * dim
    o[k] = s
    return tuple(o)


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def expect(a, r, ref, scale, name, comp, tol=4e-14):
    """a must be a.v0 outside range r and ref inside"""
    want = a.v0.copy()
    sl = tuple(slice(l - b, h - b + 1) for (l, h), b in zip(r, a.lo))
    want[sl] = ref
    if not a.canary():
        raise Violation("%s %s: memory outside the array was written" % (name, comp))
    inside = np.zeros(a.v0.shape, bool)
    inside[sl] = True
    if not np.array_equal(a.v[~inside], a.v0[~inside]):
        i = [int(x) for x in np.argwhere((a.v != a.v0) & ~inside)[0]]
        raise Violation("%s %s: index %s outside the pushed range was changed" % (name, comp, [x + b for x, b in zip(i, a.lo + (0,) * 3)]))
    err = np.abs(a.v - want)
    if not np.all(err <= tol * scale):
        i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err)), err.shape)
        raise Violation("%s %s: at %s got %r expected %r" % (name, comp, [int(x) + b for x, b in zip(i, a.lo + (0,) * 3)],
                                                             complex(a.v[i]), complex(want[i])))


def same(arrs, name):
    for c, a in arrs:
        if not np.array_equal(a.v, a.v0) or not a.canary():
            raise Violation("%s: changed its input %s" % (name, c))


RANGE = st.tuples(st.integers(-3, 3), st.integers(0, 5))
case = st.fixed_dictionaries({
    "seed": SEED, "r": st.tuples(*[st.tuples(RANGE, RANGE, RANGE)] * 3), "pad": st.tuples(*[st.integers(0, 2)] * 12),
    "same": st.booleans(), "c": st.tuples(*[st.floats(-2, 1)] * 3), "mudt": st.floats(-2, 2),
    "rmin": st.sampled_from([0.0, 0.0, 1.0, 2.5, 7.0]), "nmodes": st.integers(1, 4)})


class K:
    """one generated call: update ranges per component, arrays wide enough for the stencil plus random padding"""

    def __init__(self, c, dim, reach=1, cplx=False, extra=(), rz=False):
        self.rng = rng = np.random.default_rng(c["seed"])
        self.dim = dim
        rr = c["r"] if not c["same"] else [c["r"][0]] * 3
        self.r = [[(max(0, x[0]) if rz and k == 0 else x[0], (max(0, x[0]) if rz and k == 0 else x[0]) + x[1]) for k, x in enumerate(t[:dim])] for t in rr]
        lo = [min(t[k][0] for t in self.r) - reach for k in range(dim)]
        hi = [max(t[k][1] for t in self.r) + reach for k in range(dim)]
        self.a = {}
        for i, nm in enumerate(["ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "f"]):
            q = c["pad"][i % 12]
            self.a[nm] = G(rng, [x - q for x in lo], [x + (c["pad"][(i + 5) % 12]) for x in hi], extra, cplx)
        self.d = [10.0 ** x for x in c["c"]]
        self.mudt = c["mudt"]
        # every coefficient multiplies O(1) random numbers, up to ~40 of them
        self.scale = 10 * (1 + max(self.d) * 2 + abs(self.mudt)) * 3

    def rb(self):
        out = []
        for t in self.r:
            out += [ints([x[0] for x in t]), ints([x[1] for x in t])]
        return out

    def args(self, names):
        out = []
        for n in names:
            out += [self.a[n].p] + self.a[n].b()
        return out


AX3 = (0, 1, 2)


def curl(k, fl, comp, D, dim):
    """(curl field)_comp with derivative D(array, axis) on the stated range; axes are the physical x, y, z"""
    i, j = (comp + 1) % 3, (comp + 2) % 3
    out = 0
    for ax, other, s in ((i, j, 1), (j, i, -1)):
        if dim == 2 and ax == 1:
            continue
        out = out + s * D(k.a[fl + "xyz"[other]], ax)
    return out


def gax(dim, ax):
    return ax if dim == 3 else {0: 0, 2: 1}[ax]


def run_yee(kind, dim):
    name = "pxrpush_em%dd_%svec" % (dim, kind)

    def run(c):
        k = K(c, dim)
        d = k.d if dim == 3 else [k.d[0], k.d[1], k.d[2]]
        src = "b" if kind == "e" else "e"
        outs = [kind + x for x in "xyz"]
        names = ["ex", "ey", "ez", "bx", "by", "bz"] + (["jx", "jy", "jz"] if kind == "e" else [])
        CTX["F"](name, *k.rb(), *k.args(names), *([k.mudt] if kind == "e" else []), *d)
        for comp in range(3):
            r = k.r[comp]

            def D(a, ax):
                g = gax(dim, ax)
                return d[ax] * ((a.at(r) - a.at(r, e(dim, g, -1))) if kind == "e" else (a.at(r, e(dim, g, 1)) - a.at(r)))
            s = 1 if kind == "e" else -1
            ref = k.a[outs[comp]].at(r) + s * curl(k, src, comp, D, dim)
            if kind == "e":
                ref = ref - k.mudt * k.a["j" + "xyz"[comp]].at(r)
            expect(k.a[outs[comp]], r, ref, k.scale, name, outs[comp])
        same([(n, k.a[n]) for n in names if n not in outs], name)
        # Gauss law of the change where the three ranges overlap: divergence of the change is minus that of the current
        if c["same"]:
            sh = k.r[0]
            if all(h - l >= 1 for l, h in sh):
                inner = [(l + 1, h) if kind == "e" else (l, h - 1) for l, h in sh]
                div, dj = 0.0, 0.0
                for comp in range(3):
                    if dim == 2 and comp == 1:
                        continue
                    g = gax(dim, comp)
                    a = k.a[outs[comp]]
                    o = e(dim, g, -1 if kind == "e" else 1)
                    sg = 1 if kind == "e" else -1
                    ch = lambda off=None: a.at(inner, off, True) - a.at(inner, off)
                    div = div + d[comp] * sg * (ch() - ch(o))
                    if kind == "e":
                        j = k.a["j" + "xyz"[comp]]
                        dj = dj - k.mudt * d[comp] * (j.at(inner) - j.at(inner, o))
                if not np.all(np.abs(div - dj) <= 1e-13 * k.scale * max(d) * 10):
                    raise Violation(name + ": divergence of the change is not that of the current")
        return {"labels": ["same" if c["same"] else "separate"]}
    return run


def ckc_coef(d, dim):
    """weights of the transverse averaging of Cole-Karkkainen: derivative along a is averaged with these weights"""
    LDd = [np.longdouble(x) for x in d]
    if dim == 3:
        m = max(LDd)
        r = [(x / m) ** 2 for x in LDd]
        S = r[1] * r[2] + r[2] * r[0] + r[0] * r[1]
        beta = (1 - r[0] * r[1] * r[2] / S) / 8
        W = []
        for a in range(3):
            p, q = [x for x in range(3) if x != a]
            gam = r[p] * r[q] * (np.longdouble(1) / 16 - r[p] * r[q] / S / 8)
            w = {}
            for i in (-1, 0, 1):
                for j in (-1, 0, 1):
                    o = [0, 0, 0]
                    o[p], o[q] = i, j
                    w[tuple(o)] = gam if i and j else (r[p] * beta if i else (r[q] * beta if j else None))
            z = (0, 0, 0)
            w[z] = 1 - sum(v for t, v in w.items() if t != z)
            W.append(w)
        return W
    m = max(LDd[0], LDd[2])
    r = {0: (LDd[0] / m) ** 2, 2: (LDd[2] / m) ** 2}
    W = [None] * 3
    W[0] = {(0, 0): 1 - r[2] / 4, (0, 1): r[2] / 8, (0, -1): r[2] / 8}
    W[2] = {(0, 0): 1 - r[0] / 4, (1, 0): r[0] / 8, (-1, 0): r[0] / 8}
    return W


def run_ckc(dim):
    name = "pxrpush_em%dd_bvec_ckc" % dim

    def run(c):
        k = K(c, dim)
        names = ["ex", "ey", "ez", "bx", "by", "bz"]
        a = [*k.rb(), *k.args(names)]
        if dim == 3:  # this routine takes its bounds as default integers
            a = [x.astype(np.int32) if x.dtype == np.int64 else x for x in a]
        CTX["F"](name, *a, *k.d)
        W = ckc_coef(k.d, dim)
        for comp in range(3):
            r = k.r[comp]

            def D(a, ax):
                g = gax(dim, ax)
                return k.d[ax] * sum(float(w) * (a.at(r, add(o, e(dim, g, 1))) - a.at(r, o)) for o, w in W[ax].items())
            a = k.a["b" + "xyz"[comp]]
            expect(a, r, a.at(r) - curl(k, "e", comp, D, dim), k.scale, name, "b" + "xyz"[comp])
        same([(n, k.a[n]) for n in names[:3]], name)
        return {}
    return run


def run_f(dim, ckc):
    name = "pxrpush_em%dd_evec_f%s" % (dim, "_ckc" if ckc else "")

    def run(c):
        k = K(c, dim)
        CTX["F"](name, *k.rb(), *k.args(["ex", "ey", "ez", "f"]), *k.d)
        W = ckc_coef(k.d, dim) if ckc else [{(0,) * dim: 1}] * 3
        for comp in range(3):
            r, a, f = k.r[comp], k.a["e" + "xyz"[comp]], k.a["f"]
            if dim == 2 and comp == 1:
                expect(a, [(0, -1)] * 2, a.at([(0, -1)] * 2), k.scale, name, "ey")
                continue
            g = gax(dim, comp)
            ref = a.at(r) + k.d[comp] * sum(float(w) * (f.at(r, add(o, e(dim, g, 1))) - f.at(r, o)) for o, w in W[comp].items())
            expect(a, r, ref, k.scale, name, "e" + "xyz"[comp])
        same([("f", k.a["f"])], name)
        return {}
    return run


ORDERS = st.sampled_from([2, 2, 4, 6, 8, 10])
ncase = st.fixed_dictionaries({"seed": SEED, "n": st.tuples(*[st.integers(1, 8)] * 3), "g": st.tuples(*[st.integers(0, 4)] * 3),
                               "s": st.tuples(*[st.integers(0, 3)] * 3), "no": st.tuples(ORDERS, ORDERS, ORDERS),
                               "nodal": st.booleans(), "jg": st.tuples(*[st.integers(0, 4)] * 3), "mudt": st.floats(-2, 2), "c": st.floats(-2, 1)})


def run_norder(kind, dim, lib=False):
    name = ("__link_external_tools_MOD_%svec3d_push_norder" % kind) if lib else "pxrpush_em%dd_%svec_norder" % (dim, kind)

    def run(c):
        rng = np.random.default_rng(c["seed"])
        n, no = list(c["n"]), list(c["no"])
        nodal = c["nodal"] and not lib
        # guard cells: at least half the order beyond the pushed range, plus c["g"]
        s = [min(a, b + o // 2) for a, b, o in zip(c["s"], c["g"], no)]
        g = [a + o // 2 + b for a, o, b in zip(s, no, c["g"])]
        jg = g if lib else [a + b for a, b in zip(s, c["jg"])]
        if dim == 2:
            n[1], g[1], s[1], jg[1] = 1, 0, 0, 0
        lim = lambda w: ([-x for x in w], [x + y for x, y in zip(n, w)])
        a = {t + x: G(rng, *lim(jg if t == "j" else g)) for t in ("ebj" if kind == "e" else "eb") for x in "xyz"}
        co = [rng.normal(size=o // 2) * 10.0 ** c["c"] for o in no]
        names = ["ex", "ey", "ez", "bx", "by", "bz"] + (["jx", "jy", "jz"] if kind == "e" else [])
        if lib:
            CTX["F"](name, *[a[x].p for x in names], *([c["mudt"]] if kind == "e" else []), *[pad1(x) for x in co], *n, *no, *g)
        else:
            CTX["F"](name, *[a[x].p for x in names], *([c["mudt"]] if kind == "e" else []), *[pad1(x) for x in co], *n, *no, *g, *s, nodal, *(jg if kind == "e" else []))
        src = "b" if kind == "e" else "e"
        # forward or backward half-cell: E updates look back except in the library interface, which uses the dual grid
        back = (kind == "e") != lib
        scale = 20 * (1 + max(float(np.max(np.abs(x))) for x in co) * 10 + abs(c["mudt"]))
        for comp in range(3):
            X = a[kind + "xyz"[comp]]
            if lib:
                # points whose whole stencil lies in the arrays
                r = [(-gg + max(1, o // 2), nn + gg - max(1, o // 2)) for gg, o, nn in zip(g, no, n)]
            else:
                r = [(-x, y + x) for x, y in zip(s, n)]
                if dim == 2:
                    r[1] = (0, 0)
            if any(h < l for l, h in r):
                raise Discard()
            ref = X.at(r).copy()
            for ax, other, sg in (((comp + 1) % 3, (comp + 2) % 3, 1), ((comp + 2) % 3, (comp + 1) % 3, -1)):
                if dim == 2 and ax == 1:
                    continue
                S = a[src + "xyz"[other]]
                for i in range(1, no[ax] // 2 + 1):
                    if nodal:
                        p, q = i, -i
                    elif back:
                        p, q = i - 1, -i
                    else:
                        p, q = i, 1 - i
                    ref += (sg if kind == "e" else -sg) * co[ax][i - 1] * (S.at(r, e(3, ax, p)) - S.at(r, e(3, ax, q)))
            if kind == "e":
                ref = ref - c["mudt"] * a["j" + "xyz"[comp]].at(r)
            if lib:
                got = X.at(r, None, True)
                if not np.all(np.abs(got - ref) <= 4e-14 * scale):
                    raise Violation("%s %s: interior update differs from the discrete curl" % (name, kind + "xyz"[comp]))
                if not X.canary():
                    raise Violation(name + ": memory outside the array was written")
            else:
                expect(X, r, ref, scale, name, kind + "xyz"[comp])
        same([(x, a[x]) for x in names if x[0] != kind], name)
        return {"labels": ["nodal" if nodal else "staggered", "order%d" % max(no)]}
    return run


def run_rz(kind, multi):
    name = "pxrpush_emrz_%svec%s" % (kind, "_multimode" if multi else "")

    def run(c):
        M = c["nmodes"] if multi else 1
        k = K(c, 2, cplx=multi, extra=(M,), rz=True)
        dtr, dtz = k.d[0], k.d[2]
        dr = 0.37
        dt = dtr * dr
        rmin = c["rmin"] * dr
        for nm in ("er", "et", "ez", "br", "bt", "bz", "jr", "jt", "jz"):
            k.a[nm] = k.a[nm[0] + {"r": "x", "t": "y", "z": "z"}[nm[1]]]
        names = ["er", "et", "ez", "br", "bt", "bz"] + (["jr", "jt", "jz"] if kind == "e" else [])
        CTX["F"](name, *k.rb(), *([M] if multi else []), *k.args(names), *([k.mudt] if kind == "e" else []), dtr, 0.123, dtz, rmin, dr)
        m = np.arange(M)[None, None, :]
        A = k.a
        node = lambda r: (rmin + np.arange(r[0][0], r[0][1] + 1) * dr)[:, None, None]
        axis = rmin == 0
        mu = k.mudt
        sc = k.scale * 20
        rr, rt, rz = k.r
        if kind == "e":
            r = rr
            rh = node(r) + dr / 2
            ref = A["er"].at(r) - 1j * m * dt * A["bz"].at(r) / rh - dtz * (A["bt"].at(r) - A["bt"].at(r, (0, -1))) - mu * A["jr"].at(r)
            ref = ref if multi else ref.real
            expect(A["er"], r, ref, sc, name, "er")
            r = rt
            ref = A["et"].at(r) - dtr * (A["bz"].at(r) - A["bz"].at(r, (-1, 0))) + dtz * (A["br"].at(r) - A["br"].at(r, (0, -1))) - mu * A["jt"].at(r)
            if axis and r[0][0] <= 0 <= r[0][1]:
                i = -r[0][0]
                if multi:
                    ref[i] = 0
                    if M > 1:
                        # mode 1 on the axis: E_theta = -i E_r, with E_r already advanced
                        ref[i, :, 1] = -1j * A["er"].at([(0, 0), r[1]], None, True)[0, :, 1]
                else:
                    ref[i] = A["et"].at(r)[i]
            expect(A["et"], r, ref, sc, name, "et")
            r = rz
            rn = node(r)
            with np.errstate(all="ignore"):
                ref = A["ez"].at(r) + dtr * ((rn + dr / 2) * A["bt"].at(r) - (rn - dr / 2) * A["bt"].at(r, (-1, 0))) / rn - mu * A["jz"].at(r)
                if multi:
                    ref = ref + 1j * m * dt * A["br"].at(r) / rn
            if axis and r[0][0] <= 0 <= r[0][1]:
                i = -r[0][0]
                ref[i] = (A["ez"].at(r) + 4 * dtr * A["bt"].at(r) - mu * A["jz"].at(r))[i]
                if multi:
                    ref[i, :, 1:] = 0
            expect(A["ez"], r, ref, sc, name, "ez")
        else:
            r = rr
            rn = node(r)
            ref = A["br"].at(r) + dtz * (A["et"].at(r, (0, 1)) - A["et"].at(r))
            if multi:
                with np.errstate(all="ignore"):
                    ref = ref + 1j * m * dt * A["ez"].at(r) / rn
                if axis and r[0][0] <= 0 <= r[0][1]:
                    i = -r[0][0]
                    ref[i] = 0
                    if M > 1:
                        ref[i, :, 1] = (A["br"].at(r) + dtz * (A["et"].at(r, (0, 1)) - A["et"].at(r)) + 1j * dt / dr * A["ez"].at(r, (1, 0)))[i, :, 1]
            expect(A["br"], r, ref, sc, name, "br")
            r = rt
            expect(A["bt"], r, A["bt"].at(r) + dtr * (A["ez"].at(r, (1, 0)) - A["ez"].at(r)) - dtz * (A["er"].at(r, (0, 1)) - A["er"].at(r)), sc, name, "bt")
            r = rz
            rn = node(r)
            rh = rn + dr / 2
            ref = A["bz"].at(r) - dtr * ((rn + dr) * A["et"].at(r, (1, 0)) - rn * A["et"].at(r)) / rh
            if multi:
                ref = ref - 1j * m * dt * A["er"].at(r) / rh
            expect(A["bz"], r, ref, sc, name, "bz")
            if c["same"] and all(h > l for l, h in rr):
                # the discrete cylindrical divergence of B does not change (off the axis)
                q = [(l, h - 1) for l, h in rr]
                ch = lambda f, o=None: A[f].at(q, o, True) - A[f].at(q, o)
                rn = node(q)
                div = ((rn + dr) * ch("br", (1, 0)) - rn * ch("br")) / dr / (rn + dr / 2) - 1j * m * ch("bt") / (rn + dr / 2) + \
                    (ch("bz", (0, 1)) - ch("bz")) * (dtz / dt)
                if not axis and not np.all(np.abs(div) <= 1e-12 * sc * (1 + 1 / dr + dtz / dt) * (1 + M)):
                    raise Violation(name + ": div B changed")
        same([(x, A[x]) for x in names if x[0] != kind], name)
        return {"labels": ["axis" if axis else "annulus", "modes%d" % M]}
    return run


KW = dict(quick=1500, thorough=60000)
PARTS = [Part("yee%dd_%s" % (d, k), case, run_yee(k, d), **KW) for d in (3, 2) for k in "eb"]
PARTS += [Part("norder%dd_%s" % (d, k), ncase, run_norder(k, d), **KW) for d in (3, 2) for k in "eb"]
PARTS += [Part("library_" + k, ncase, run_norder(k, 3, True), **KW) for k in "eb"]
PARTS += [Part("ckc%dd" % d, case, run_ckc(d), **KW) for d in (3, 2)]
PARTS += [Part("clean%dd%s" % (d, "_ckc" if q else ""), case, run_f(d, q), **KW) for d in (3, 2) for q in (False, True)]
PARTS += [Part("rz%s_%s" % ("_modes" if m else "", k), case, run_rz(k, m), **KW) for m in (False, True) for k in "eb"]
